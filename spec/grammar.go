// Package spec holds the specification the checks verify /repo against: the
// grammar (grammar.g4), the semantics of a syntax tree (semantics.ag) and the
// lexical classes (below).  Nothing in it is read from /repo.
package spec

import (
	_ "embed"
	"fmt"
	"strings"
	"unicode"
)

//go:embed grammar.g4
var grammarText string

// Kind of a grammar expression.
type Kind int

const (
	KSym Kind = iota // a token or a rule
	KSeq
	KAlt
	KOpt
	KStar
	KPlus
)

// Expr is a right-hand side (a regular expression over tokens and rules).
type Expr struct {
	ID    int
	Kind  Kind
	Sym   string
	Tok   bool
	Subs  []*Expr
	Empty bool
}

// Rule is one parser rule.
type Rule struct {
	Name string
	RHS  *Expr
}

// Grammar is the parser grammar.
type Grammar struct {
	Rules map[string]*Rule
	Order []string
	N     int // number of Exprs
}

type g4lex struct {
	toks []string
	i    int
}

func g4tokens(s string) []string {
	var out []string
	for _, line := range strings.Split(s, "\n") {
		if k := strings.Index(line, "//"); k >= 0 {
			line = line[:k]
		}
		r := []rune(line)
		for i := 0; i < len(r); {
			c := r[i]
			switch {
			case unicode.IsSpace(c):
				i++
			case unicode.IsLetter(c) || c == '_':
				j := i
				for j < len(r) && (unicode.IsLetter(r[j]) || unicode.IsDigit(r[j]) || r[j] == '_') {
					j++
				}
				out = append(out, string(r[i:j]))
				i = j
			default:
				out = append(out, string(c))
				i++
			}
		}
	}
	return out
}

func (l *g4lex) peek() string {
	if l.i < len(l.toks) {
		return l.toks[l.i]
	}
	return ""
}

func (l *g4lex) next() string { t := l.peek(); l.i++; return t }

// ParseGrammar parses the subset of the g4 notation used here.
func ParseGrammar(text string) *Grammar {
	l := &g4lex{toks: g4tokens(text)}
	g := &Grammar{Rules: map[string]*Rule{}}
	if l.peek() == "parser" { // parser grammar X ;
		for l.next() != ";" {
		}
	}
	if l.peek() == "options" {
		for l.next() != "}" {
		}
	}
	for l.peek() != "" {
		name := l.next()
		if c := l.next(); c != ":" {
			panic(fmt.Sprintf("grammar: rule %s: want ':' got %q", name, c))
		}
		e := g.alts(l)
		if c := l.next(); c != ";" {
			panic(fmt.Sprintf("grammar: rule %s: want ';' got %q", name, c))
		}
		if g.Rules[name] != nil {
			panic("grammar: duplicate rule " + name)
		}
		g.Rules[name] = &Rule{name, e}
		g.Order = append(g.Order, name)
	}
	return g
}

func (g *Grammar) mk(k Kind, subs ...*Expr) *Expr {
	g.N++
	return &Expr{ID: g.N - 1, Kind: k, Subs: subs}
}

func (g *Grammar) alts(l *g4lex) *Expr {
	var as []*Expr
	for {
		as = append(as, g.seq(l))
		if l.peek() != "|" {
			break
		}
		l.next()
	}
	if len(as) == 1 {
		return as[0]
	}
	return g.mk(KAlt, as...)
}

func (g *Grammar) seq(l *g4lex) *Expr {
	var es []*Expr
	for l.peek() != "|" && l.peek() != ";" && l.peek() != ")" && l.peek() != "" {
		var e *Expr
		t := l.next()
		if t == "(" {
			e = g.alts(l)
			if c := l.next(); c != ")" {
				panic("grammar: want )")
			}
		} else {
			e = g.mk(KSym)
			e.Sym = t
			e.Tok = unicode.IsUpper(rune(t[0]))
		}
		switch l.peek() {
		case "?":
			l.next()
			e = g.mk(KOpt, e)
		case "*":
			l.next()
			e = g.mk(KStar, e)
		case "+":
			l.next()
			e = g.mk(KPlus, e)
		}
		es = append(es, e)
	}
	if len(es) == 1 {
		return es[0]
	}
	return g.mk(KSeq, es...)
}

// TheGrammar is the specification grammar.
var TheGrammar = ParseGrammar(grammarText)

// ---------------------------------------------------------------------------
// Lexical classes: every code point is exactly one token.

// Class is one lexical class: a set of code points (inclusive ranges).
type Class struct {
	Name   string
	Ranges [][2]rune
}

// Classes lists the lexical classes in the order of their token numbers,
// starting at 1.
var Classes = makeClasses()

func makeClasses() []Class {
	var cs []Class
	one := func(n string, r rune) { cs = append(cs, Class{n, [][2]rune{{r, r}}}) }
	rng := func(n string, a, b rune) { cs = append(cs, Class{n, [][2]rune{{a, b}}}) }
	one("U_00", 0)
	rng("U_01_08", 1, 8)
	one("TAB", 9)
	one("LF", 10)
	one("U_0B", 11)
	one("U_0C", 12)
	one("CR", 13)
	rng("U_0E_1F", 0x0e, 0x1f)
	one("SP", ' ')
	names := strings.Fields("Exclamation DQuote Hash Dollar Percent Ampersand SQuote LParens RParens Asterisk Plus Comma Minus Period Slash")
	for i, n := range names {
		one(n, rune(0x21+i))
	}
	rng("Digit", '0', '9')
	for i, n := range strings.Fields("Colon Semicolon Less Equal Greater Question At") {
		one(n, rune(0x3a+i))
	}
	for i, n := range strings.Fields("LBracket Backslash RBracket Caret Underscore Backtick") {
		one(n, rune(0x5b+i))
	}
	for i, n := range strings.Fields("LCurly Pipe RCurly Tilde") {
		one(n, rune(0x7b+i))
	}
	one("Delete", 0x7f)
	// RFC 6532: every non-ASCII character
	rng("UTF8NonAscii", 0x80, unicode.MaxRune)
	for c := 'A'; c <= 'Z'; c++ {
		cs = append(cs, Class{string(c), [][2]rune{{c, c}, {c + 32, c + 32}}})
	}
	return cs
}

// TokenNumber returns the number of a token name (EOF is -1).
func TokenNumber(name string) int {
	if name == "EOF" {
		return -1
	}
	for i, c := range Classes {
		if c.Name == name {
			return i + 1
		}
	}
	panic("unknown token " + name)
}

// TokenName is the inverse of TokenNumber.
func TokenName(n int) string {
	if n == -1 {
		return "EOF"
	}
	if n >= 1 && n <= len(Classes) {
		return Classes[n-1].Name
	}
	return fmt.Sprintf("#%d", n)
}

var classTable = func() [128]int {
	var t [128]int
	for i, c := range Classes {
		for _, r := range c.Ranges {
			for x := r[0]; x <= r[1] && x < 128; x++ {
				t[x] = i + 1
			}
		}
	}
	return t
}()

// Classify returns the token number of a code point.
func Classify(r rune) int {
	if r < 128 {
		return classTable[r]
	}
	return TokenNumber("UTF8NonAscii")
}
