// Package govf is a deductive verifier for the Go code under /repo: a symbolic
// executor over go/ssa that checks functions against contracts, callee by
// callee, with z3/cvc5 as the decision procedures.
package govf

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort of a term.
type Sort string

// Sorts.
const (
	Int    Sort = "Int"
	Bool   Sort = "Bool"
	Str    Sort = "String"
	SeqStr Sort = "(Seq String)"
	SeqMb  Sort = "(Seq Mb)"
	Mb     Sort = "Mb"
	Loc    Sort = "Loc"
	Fn     Sort = "Fn"
	Date   Sort = "Date"
)

// Term is an immutable expression over the theories of integers, strings and
// sequences.  Go strings are byte sequences: every SMT character is one byte.
type Term struct {
	Op   string // sym int bool str app lin ++ (concat of any sequence)
	Sort Sort
	S    string
	N    int64
	Args []*Term
	C    []int64 // lin: coefficients of Args, N the constant
	key  string
	sz   int
}

// size is the number of nodes of the term as a tree.
func (t *Term) size() int {
	if t.sz == 0 {
		n := 1 + len(t.S)/8
		for _, a := range t.Args {
			if n += a.size(); n > 1<<28 {
				n = 1 << 28
			}
		}
		t.sz = n
	}
	return t.sz
}

// Key is a canonical rendering.
func (t *Term) Key() string {
	if t.key == "" {
		var b strings.Builder
		b.WriteString(t.Op)
		b.WriteByte(':')
		b.WriteString(string(t.Sort))
		if t.S != "" || t.Op == "str" {
			b.WriteString(strconv.Quote(t.S))
		}
		if t.Op == "int" || t.Op == "bool" || t.Op == "lin" {
			b.WriteString(strconv.FormatInt(t.N, 10))
		}
		if len(t.Args) > 0 {
			b.WriteByte('(')
			for i, a := range t.Args {
				if i > 0 {
					b.WriteByte(',')
				}
				if t.Op == "lin" {
					b.WriteString(strconv.FormatInt(t.C[i], 10))
					b.WriteByte('*')
				}
				b.WriteString(a.Key())
			}
			b.WriteByte(')')
		}
		t.key = b.String()
	}
	return t.key
}

func (t *Term) String() string {
	switch t.Op {
	case "sym":
		return t.S
	case "int":
		return strconv.FormatInt(t.N, 10)
	case "bool":
		return strconv.FormatBool(t.N == 1)
	case "str":
		return strconv.Quote(t.S)
	case "lin":
		var p []string
		for i, a := range t.Args {
			switch t.C[i] {
			case 1:
				p = append(p, a.String())
			default:
				p = append(p, fmt.Sprintf("%d*%v", t.C[i], a))
			}
		}
		if t.N != 0 {
			p = append(p, strconv.FormatInt(t.N, 10))
		}
		return strings.Join(p, "+")
	case "++":
		if len(t.Args) == 0 {
			return "[]"
		}
		var p []string
		for _, a := range t.Args {
			p = append(p, a.String())
		}
		return "(" + strings.Join(p, " ++ ") + ")"
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.String())
	}
	return t.S + "(" + strings.Join(p, ", ") + ")"
}

// Sym is a free symbol.
func Sym(name string, s Sort) *Term { return &Term{Op: "sym", Sort: s, S: name} }

// IntC is an integer constant.
func IntC(n int64) *Term { return &Term{Op: "int", Sort: Int, N: n} }

// BoolC is a truth value.
func BoolC(b bool) *Term {
	if b {
		return &Term{Op: "bool", Sort: Bool, N: 1}
	}
	return &Term{Op: "bool", Sort: Bool}
}

// StrC is a string constant.
func StrC(s string) *Term { return &Term{Op: "str", Sort: Str, S: s} }

// App is an application of a named function.
func App(name string, s Sort, args ...*Term) *Term {
	return &Term{Op: "app", Sort: s, S: name, Args: args}
}

// IsInt reports an integer constant.
func (t *Term) IsInt() bool { return t.Op == "int" }

// IsStr reports a string constant.
func (t *Term) IsStr() bool { return t.Op == "str" }

// IsBool reports a truth constant.
func (t *Term) IsBool() bool { return t.Op == "bool" }

// True reports the constant true.
func (t *Term) True() bool { return t.Op == "bool" && t.N == 1 }

// False reports the constant false.
func (t *Term) False() bool { return t.Op == "bool" && t.N == 0 }

// Same is syntactic equality.
func Same(a, b *Term) bool { return a == b || a.Key() == b.Key() }

func lin(t *Term) (map[string]int64, map[string]*Term, int64) {
	c, m := map[string]int64{}, map[string]*Term{}
	switch t.Op {
	case "int":
		return c, m, t.N
	case "lin":
		for i, a := range t.Args {
			c[a.Key()] = t.C[i]
			m[a.Key()] = a
		}
		return c, m, t.N
	}
	c[t.Key()] = 1
	m[t.Key()] = t
	return c, m, 0
}

func mkLin(c map[string]int64, m map[string]*Term, n int64) *Term {
	var ks []string
	for k, v := range c {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return IntC(n)
	}
	sort.Strings(ks)
	if len(ks) == 1 && c[ks[0]] == 1 && n == 0 {
		return m[ks[0]]
	}
	t := &Term{Op: "lin", Sort: Int, N: n}
	for _, k := range ks {
		t.Args = append(t.Args, m[k])
		t.C = append(t.C, c[k])
	}
	return t
}

// Add is integer addition.
func Add(a, b *Term) *Term { return addk(a, b, 1) }

// Sub is integer subtraction.
func Sub(a, b *Term) *Term { return addk(a, b, -1) }

func addk(a, b *Term, k int64) *Term {
	c, m, n := lin(a)
	c2, m2, n2 := lin(b)
	for x, v := range c2 {
		c[x] += k * v
		m[x] = m2[x]
	}
	return mkLin(c, m, n+k*n2)
}

// Mul is integer multiplication (linear, otherwise uninterpreted).
func Mul(a, b *Term) *Term {
	if b.IsInt() {
		a, b = b, a
	}
	if a.IsInt() {
		c, m, n := lin(b)
		for x := range c {
			c[x] *= a.N
		}
		return mkLin(c, m, n*a.N)
	}
	return App("*", Int, a, b)
}

// Not is negation.
func Not(a *Term) *Term {
	if a.IsBool() {
		return BoolC(a.N == 0)
	}
	if a.Op == "app" && a.S == "not" {
		return a.Args[0]
	}
	return App("not", Bool, a)
}

// And is conjunction.
func And(as ...*Term) *Term {
	var o []*Term
	for _, a := range as {
		if a.False() {
			return a
		}
		if !a.True() {
			o = append(o, a)
		}
	}
	switch len(o) {
	case 0:
		return BoolC(true)
	case 1:
		return o[0]
	}
	return App("and", Bool, o...)
}

// Or is disjunction.
func Or(as ...*Term) *Term {
	var o []*Term
	for _, a := range as {
		if a.True() {
			return a
		}
		if !a.False() {
			o = append(o, a)
		}
	}
	switch len(o) {
	case 0:
		return BoolC(false)
	case 1:
		return o[0]
	}
	return App("or", Bool, o...)
}

// Ite is a conditional.
func Ite(c, a, b *Term) *Term {
	if c.True() {
		return a
	}
	if c.False() {
		return b
	}
	if Same(a, b) {
		return a
	}
	return App("ite", a.Sort, c, a, b)
}

// Eq is equality.
func Eq(a, b *Term) *Term {
	if Same(a, b) {
		return BoolC(true)
	}
	if (a.IsInt() && b.IsInt()) || (a.IsStr() && b.IsStr()) || (a.IsBool() && b.IsBool()) {
		return BoolC(false)
	}
	if a.Sort == Bool {
		if a.IsBool() {
			a, b = b, a
		}
		if b.True() {
			return a
		}
		if b.False() {
			return Not(a)
		}
	}
	if a.Sort == Int {
		d := Sub(a, b)
		if d.IsInt() {
			return BoolC(d.N == 0)
		}
	}
	if a.Sort == Str {
		// a ++ with a non-empty literal part is not empty
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].IsStr() && p[0].S == "" && p[1].Op == "++" {
				for _, x := range p[1].Args {
					if x.IsStr() && x.S != "" {
						return BoolC(false)
					}
				}
			}
		}
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return App("=", Bool, a, b)
}

// Lt is integer order.
func Lt(a, b *Term) *Term {
	d := Sub(a, b)
	if d.IsInt() {
		return BoolC(d.N < 0)
	}
	return App("<", Bool, a, b)
}

// Le is integer order.
func Le(a, b *Term) *Term { return Not(Lt(b, a)) }

// Cat concatenates strings or sequences.
func Cat(s Sort, ts ...*Term) *Term {
	var o []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "++" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.IsStr() {
			if t.S == "" {
				return
			}
			if n := len(o); n > 0 && o[n-1].IsStr() {
				o[n-1] = StrC(o[n-1].S + t.S)
				return
			}
		}
		o = append(o, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(o) == 1 {
		return o[0]
	}
	if len(o) == 0 && s == Str {
		return StrC("")
	}
	return &Term{Op: "++", Sort: s, Args: o}
}

// Unit is a one-element sequence.
func Unit(s Sort, t *Term) *Term { return App("seq.unit", s, t) }

// Len is the length of a string or sequence.
func Len(t *Term) *Term {
	switch {
	case t.IsStr():
		return IntC(int64(len(t.S)))
	case t.Op == "++":
		n := IntC(0)
		for _, a := range t.Args {
			n = Add(n, Len(a))
		}
		return n
	case t.Op == "app" && t.S == "seq.unit":
		return IntC(1)
	}
	if t.Sort == Str {
		return App("str.len", Int, t)
	}
	return App("seq.len", Int, t)
}

// Syms collects the free symbols.
func (t *Term) Syms(m map[string]*Term) {
	if t.Op == "sym" {
		m[t.S] = t
	}
	for _, a := range t.Args {
		a.Syms(m)
	}
}

// SMT renders a term in SMT-LIB.
func (t *Term) SMT() string {
	switch t.Op {
	case "sym":
		return "|" + t.S + "|"
	case "int":
		if t.N < 0 {
			return fmt.Sprintf("(- %d)", -t.N)
		}
		return strconv.FormatInt(t.N, 10)
	case "bool":
		return strconv.FormatBool(t.N == 1)
	case "str":
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(t.S); i++ {
			c := t.S[i]
			if c >= 0x20 && c < 0x7f && c != '"' && c != '\\' {
				b.WriteByte(c)
			} else {
				fmt.Fprintf(&b, "\\u{%x}", c)
			}
		}
		b.WriteByte('"')
		return b.String()
	case "lin":
		var p []string
		for i, a := range t.Args {
			p = append(p, fmt.Sprintf("(* %s %s)", IntC(t.C[i]).SMT(), a.SMT()))
		}
		return "(+ " + strings.Join(p, " ") + " " + IntC(t.N).SMT() + ")"
	case "++":
		if len(t.Args) == 0 {
			return "(as seq.empty " + string(t.Sort) + ")"
		}
		op := "seq.++"
		if t.Sort == Str {
			op = "str.++"
		}
		var p []string
		for _, a := range t.Args {
			p = append(p, a.SMT())
		}
		return "(" + op + " " + strings.Join(p, " ") + ")"
	}
	if len(t.Args) == 0 {
		return t.S
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.SMT())
	}
	return "(" + t.S + " " + strings.Join(p, " ") + ")"
}
