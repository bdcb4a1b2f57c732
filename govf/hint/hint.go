// Package hint holds what a failed obligation tells the search for an input.
package hint

// Hint is a place to look for a failing input: an input that contains the
// rule, with this text if not empty.  The rule "#char" marks code points.
type Hint struct {
	Rule string `json:"rule,omitempty"`
	Text string `json:"text,omitempty"`
}
