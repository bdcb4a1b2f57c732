package replay

import (
	"fmt"
	"io"
	"net/mail"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	rfc5322 "github.com/ProtonMail/go-rfc5322"

	"verif/oracle"
)

// Case is one call of an entry point.
type Case struct {
	Date    bool   `json:"-"`
	Entry   string `json:"entry"`
	Input   string `json:"input"`
	Charset bool   `json:"charset_reader,omitempty"` // a CharsetReader is installed
	Change  bool   `json:"changes_result,omitempty"` // the caller changes the result afterwards
}

// NewCase names the entry point.
func NewCase(date bool, in string, cs bool) Case {
	e := "ParseAddressList"
	if date {
		e = "ParseDateTime"
	}
	return Case{Date: date, Entry: e, Input: in, Charset: cs}
}

// Outcome is the observable behaviour of one call.
type Outcome struct {
	Addrs []*mail.Address
	Time  time.Time
	Err   error
	Panic any
}

// String renders an outcome completely.
func (o Outcome) String() string {
	if o.Panic != nil {
		return fmt.Sprint("panic: ", o.Panic)
	}
	n, s := o.Time.Zone()
	return fmt.Sprintf("%s|%v %v %d|%v|%v", fmta(o.Addrs), o.Time, n, s, o.Err != nil, o.Addrs == nil)
}

// rot13 is the charset conversion that replay installs as CharsetReader.
func rot13(cs string, r io.Reader) (io.Reader, error) {
	if !strings.HasPrefix(cs, "x-") {
		return nil, fmt.Errorf("unknown charset %q", cs)
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z':
			b[i] = 'a' + (c-'a'+13)%26
		case c >= 'A' && c <= 'Z':
			b[i] = 'A' + (c-'A'+13)%26
		}
	}
	return strings.NewReader("{" + cs + ":" + string(b) + "}"), nil
}

func (c Case) setup() {
	if c.Charset {
		rfc5322.CharsetReader = rot13
		oracle.CharsetReader = rot13
	} else {
		rfc5322.CharsetReader = nil
		oracle.CharsetReader = nil
	}
}

// Run calls the real code.
func (c Case) Run() (o Outcome) {
	c.setup()
	return c.Call()
}

// Setup installs or removes the CharsetReader of the case.
func (c Case) Setup() { c.setup() }

// Call calls the real code with the CharsetReader that is installed.
func (c Case) Call() (o Outcome) {
	defer func() {
		if p := recover(); p != nil {
			o.Panic = p
		}
	}()
	if c.Date {
		o.Time, o.Err = rfc5322.ParseDateTime(c.Input)
	} else {
		o.Addrs, o.Err = rfc5322.ParseAddressList(c.Input)
	}
	return
}

// Diff is a difference between the real code and the specification.
type Diff struct {
	Kind string `json:"kind"`
	Want string `json:"specified"`
	Got  string `json:"observed"`
}

// Check compares one call with the specification; nil means no difference.
func (c Case) Check() (d *Diff, accepted, skipped bool) {
	v := c.verdict()
	if v.Skip {
		return nil, false, true
	}
	o := c.Run()
	d = c.compare(v, o)
	if c.Change {
		for _, a := range o.Addrs {
			if a != nil {
				a.Name, a.Address = "changed", "changed@by.the.caller"
			}
		}
		if len(o.Addrs) > 1 {
			o.Addrs[0], o.Addrs[1] = o.Addrs[1], nil
			_ = append(o.Addrs[:1], &mail.Address{Name: "added"})
		}
	}
	return d, v.OK, false
}

func (c Case) verdict() oracle.Verdict {
	c.setup()
	if c.Date {
		return oracle.DateTime(c.Input)
	}
	return oracle.Addresses(c.Input)
}

func (c Case) compare(v oracle.Verdict, o Outcome) *Diff {
	diff := func(kind, w, g string) *Diff { return &Diff{kind, w, g} }
	show := func() string {
		if c.Date {
			return o.Time.String()
		}
		return "[" + strings.TrimSpace(fmta(o.Addrs)) + "]"
	}
	if o.Panic != nil {
		return diff("panic", "a result or an error", fmt.Sprint("panic: ", o.Panic))
	}
	if !v.OK {
		if o.Err == nil {
			return diff("accepts", "an error: the input does not conform", "accepted: "+show())
		}
		if o.Addrs != nil || !o.Time.IsZero() {
			return diff("result-with-error", "no result next to an error", show())
		}
		return nil
	}
	want := "[" + strings.TrimSpace(fmtm(v.Addrs)) + "]"
	if c.Date {
		want = "the zero time"
		if c.Input != "" {
			want = v.Date.Time().String()
		}
	}
	if o.Err != nil && (o.Addrs != nil || !o.Time.IsZero()) {
		return diff("rejects-with-result", want+" and no error", show()+" and an error: "+o.Err.Error())
	}
	if o.Err != nil {
		return diff("rejects", want, "error: "+o.Err.Error())
	}
	if c.Date {
		if c.Input == "" {
			if !o.Time.IsZero() {
				return diff("field", want, show())
			}
			return nil
		}
		w := v.Date.Time()
		n1, o1 := w.Zone()
		n2, o2 := o.Time.Zone()
		wy, wm, wd := w.Date()
		gy, gm, gd := o.Time.Date()
		fields := wy == gy && wm == gm && wd == gd && w.Hour() == o.Time.Hour() && w.Minute() == o.Time.Minute() && w.Second() == o.Time.Second() && w.Nanosecond() == o.Time.Nanosecond()
		switch {
		case !fields:
			if wy != gy && wm == gm && wd == gd {
				return diff("year", want, show())
			}
			return diff("field", want, show())
		case n1 != n2 || o1 != o2 || !w.Equal(o.Time):
			return diff("zone", fmt.Sprint(want, " zone ", n1, " ", o1), fmt.Sprint(show(), " zone ", n2, " ", o2))
		}
		return nil
	}
	if fmtm(v.Addrs) == fmta(o.Addrs) {
		return nil
	}
	if len(v.Addrs) != len(o.Addrs) {
		return diff("list", want, show())
	}
	names, addrs, perm := true, true, map[string]int{}
	for i, w := range v.Addrs {
		g := o.Addrs[i]
		if g == nil {
			return diff("list", want, show())
		}
		names = names && w.Name == g.Name
		addrs = addrs && w.Addr == g.Address
		perm[w.Addr+"\x00"+w.Name]++
		perm[g.Address+"\x00"+g.Name]--
	}
	same := true
	for _, n := range perm {
		same = same && n == 0
	}
	switch {
	case same:
		return diff("list", want, show())
	case !addrs && !names:
		return diff("name+address", want, show())
	case !addrs:
		return diff("address", want, show())
	}
	return diff("name", want, show())
}

func fmtm(l []oracle.Mbox) string {
	s := ""
	for _, m := range l {
		s += fmt.Sprintf("%q<%q> ", m.Name, m.Addr)
	}
	return s
}

func fmta(l []*mail.Address) string {
	s := ""
	for _, m := range l {
		if m == nil {
			s += "nil "
			continue
		}
		s += fmt.Sprintf("%q<%q> ", m.Name, m.Address)
	}
	return s
}

// Props lists the properties whose statement a difference contradicts.  marks
// are code points the verifier complained about.
func Props(c Case, d *Diff, marks map[rune]bool) []string {
	in := c.Input
	m := map[string]bool{}
	has := func(cs string) bool { return strings.ContainsAny(in, cs) }
	odd := !utf8.ValidString(in)
	marked := false
	for _, r := range in {
		odd = odd || r >= 0x7f || r < 0x20 && r != '\t' && r != '\r' && r != '\n'
		marked = marked || marks[r]
	}
	cfws := has("(\t\r\n ")
	if c.Date {
		cfws = has("(\t\r\n") || strings.Contains(in, "  ") || strings.TrimSpace(in) != in || strings.Contains(in, " :") || strings.Contains(in, ": ") || strings.Contains(in, " ,")
	}
	feature := func() {
		if odd || marked {
			m["C13"] = true
		}
		if cfws {
			m["C14"] = true
		}
		if c.Date {
			return
		}
		if has("\"\\") {
			m["C05"] = true
		}
		if strings.Contains(in, "=?") {
			m["C06"] = true
		}
		if has(",;:") {
			m["C07"] = true
		}
	}
	switch d.Kind {
	case "panic", "hang", "crash":
		m["C11"] = true
		if c.verdict().OK {
			// it is not accepted either
			m["C02"] = true
			feature()
		}
		return keys(m)
	case "result-with-error":
		m["C11"] = true
		return keys(m)
	case "history", "aliasing":
		m["C12"] = true
		return keys(m)
	case "accepts":
		m["C01"] = true
		feature()
	case "rejects", "rejects-with-result":
		m["C02"] = true
		if d.Kind != "rejects" {
			m["C11"] = true
		}
		feature()
	case "list":
		m["C07"] = true
		feature()
	case "name":
		m["C04"] = true
		feature()
	case "address":
		m["C03"] = true
		feature()
	case "name+address":
		m["C03"], m["C04"] = true, true
		feature()
	case "year", "field":
		m["C08"] = true
		if d.Kind == "year" && twoDigitYear(in) {
			m["C10"] = true
		}
		feature()
	case "zone":
		m["C09"] = true
		feature()
	}
	if c.Date && (d.Kind == "accepts" || strings.HasPrefix(d.Kind, "rejects")) {
		m["C08"], m["C09"] = true, true
		if twoDigitYear(in) {
			m["C10"] = true
		}
	}
	return keys(m)
}

// About tells whether the input has what a property speaks of.
func (c Case) About(prop string) bool {
	in := c.Input
	switch prop {
	case "C03", "C04":
		return !c.Date
	case "C05":
		return !c.Date && strings.ContainsAny(in, "\"\\[")
	case "C06":
		return !c.Date && strings.Contains(in, "=?")
	case "C07":
		return !c.Date && strings.ContainsAny(in, ",;:")
	case "C08", "C09":
		return c.Date
	case "C10":
		return c.Date && twoDigitYear(in)
	case "C13":
		return !utf8.ValidString(in) || strings.IndexFunc(in, func(r rune) bool { return r >= 0x7f || r < 0x20 }) >= 0
	case "C14":
		return strings.ContainsAny(in, "( \t\r\n")
	}
	return true
}

var yearRE = regexp.MustCompile(`(?i)(?:jan|feb|mar|apr|may|jun|jul|aug|sep|oct|nov|dec)(?:[ \t\r\n]|\([^()]*\))*([0-9]{2,4})((?:[ \t\r\n]|\([^()]*\))*:?)`)

// twoDigitYear tells whether the text has a two-digit year: two digits, or
// two and those of the hour.
func twoDigitYear(in string) bool {
	m := yearRE.FindStringSubmatch(in)
	return m != nil && (len(m[1]) == 2 || strings.HasSuffix(m[2], ":"))
}

func keys(m map[string]bool) []string {
	var l []string
	for i := 1; i <= 16; i++ {
		if k := fmt.Sprintf("C%02d", i); m[k] {
			l = append(l, k)
		}
	}
	return l
}

// Shrink makes an input smaller while the difference keeps its kind.
func (c Case) Shrink(d *Diff, limit time.Duration) (Case, *Diff) {
	end := time.Now().Add(limit)
	try := func(in string) bool {
		x := c
		x.Input = in
		e, _, _ := x.Check()
		if e != nil && e.Kind == d.Kind {
			c, d = x, e
			return true
		}
		return false
	}
	split := func(s string) []string {
		var out []string
		for len(s) > 0 {
			_, n := utf8.DecodeRuneInString(s)
			out = append(out, s[:n])
			s = s[n:]
		}
		return out
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		for n := len(split(c.Input)); n > 0; n /= 2 {
			for i := 0; i+n <= len(split(c.Input)) && time.Now().Before(end); {
				r := split(c.Input)
				if try(strings.Join(r[:i], "") + strings.Join(r[i+n:], "")) {
					again = true
				} else {
					i++
				}
			}
		}
		r := split(c.Input)
		for i, x := range r {
			if time.Now().After(end) {
				break
			}
			if strings.ContainsAny(x, "a1 \"@.,;:<>()[]\\") {
				continue
			}
			for _, y := range []string{"a", "1", " "} {
				q := append(append(append([]string{}, r[:i]...), y), r[i+1:]...)
				if try(strings.Join(q, "")) {
					again = true
					break
				}
			}
			if again {
				break
			}
		}
	}
	return c, d
}
