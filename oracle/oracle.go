// Package oracle is an executable reading of the specification: an ordered
// choice recogniser for spec/grammar.g4 and an interpreter for
// spec/semantics.ag.  It shares no code with /repo.  It is used to replay a
// failed obligation on the real code, never to decide that a property holds.
package oracle

import (
	"fmt"
	"io"
	"mime"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verif/spec"
)

// Tree is a node of a syntax tree: a rule with children or a code point.
type Tree struct {
	Rule string
	Tok  int
	Pos  int // code point index (tokens)
	Kids []*Tree
}

// item is an interned stack cell of the recogniser.
type item struct {
	id   int
	e    *spec.Expr // nil: end of rule marker
	star bool       // e is a loop body to repeat
	next *item
}

type key struct {
	e    *spec.Expr
	star bool
	next *item
}

type rec struct {
	g     *spec.Grammar
	toks  []int
	cells map[key]*item
	fail  map[[2]int]bool
	far   int // furthest position reached
	steps int
	ev    []event
}

type event struct {
	kind int // 0 enter 1 leave 2 token
	rule string
	pos  int
}

func (r *rec) push(e *spec.Expr, star bool, next *item) *item {
	k := key{e, star, next}
	if c := r.cells[k]; c != nil {
		return c
	}
	c := &item{len(r.cells) + 1, e, star, next}
	r.cells[k] = c
	return c
}

// CharsetReader decodes further character sets, as the variable of the
// package under test.
var CharsetReader func(charset string, input io.Reader) (io.Reader, error)

// ErrBudget reports an abandoned recognition.
var ErrBudget = fmt.Errorf("oracle: step budget exceeded")

// run recognises the stack st at pos.
func (r *rec) run(st *item, pos int) bool {
	r.steps++
	if r.steps > 3_000_000 {
		panic(ErrBudget)
	}
	if pos > r.far {
		r.far = pos
	}
	if st == nil {
		return pos == len(r.toks)
	}
	k := [2]int{st.id, pos}
	if r.fail[k] {
		return false
	}
	mark := len(r.ev)
	if r.step(st, pos) {
		return true
	}
	r.ev = r.ev[:mark]
	r.fail[k] = true
	return false
}

func (r *rec) step(st *item, pos int) bool {
	if st.e == nil { // leave a rule
		r.ev = append(r.ev, event{kind: 1})
		return r.run(st.next, pos)
	}
	mark := len(r.ev)
	try := func(s *item) bool {
		r.ev = r.ev[:mark]
		return r.run(s, pos)
	}
	if st.star {
		return try(r.push(st.e, false, st)) || try(st.next)
	}
	e := st.e
	switch e.Kind {
	case spec.KSym:
		if e.Tok {
			if pos < len(r.toks) && r.toks[pos] == spec.TokenNumber(e.Sym) {
				r.ev = append(r.ev, event{kind: 2, pos: pos})
				return r.run(st.next, pos+1)
			}
			return false
		}
		r.ev = append(r.ev, event{kind: 0, rule: e.Sym})
		return r.run(r.push(r.g.Rules[e.Sym].RHS, false, r.push(nil, false, st.next)), pos)
	case spec.KSeq:
		s := st.next
		for i := len(e.Subs) - 1; i >= 0; i-- {
			s = r.push(e.Subs[i], false, s)
		}
		return try(s)
	case spec.KAlt:
		for _, a := range e.Subs {
			if try(r.push(a, false, st.next)) {
				return true
			}
		}
		return false
	case spec.KOpt:
		return try(r.push(e.Subs[0], false, st.next)) || try(st.next)
	case spec.KStar:
		return try(r.push(e.Subs[0], true, st.next))
	case spec.KPlus:
		return try(r.push(e.Subs[0], false, r.push(e.Subs[0], true, st.next)))
	}
	panic("kind")
}

// Tokens classifies the code points of an input and appends EOF.  Invalid
// UTF-8 reads as U+FFFD, as a Go range loop does.
func Tokens(in string) ([]rune, []int) {
	cps := []rune(in)
	var toks []int
	for _, c := range cps {
		toks = append(toks, spec.Classify(c))
	}
	return cps, append(toks, -1)
}

// Parse returns the syntax tree of the input, preferring at every choice the
// earliest alternative with which the whole input can still be completed.
func Parse(rule string, in string) (t *Tree, err error) {
	defer func() {
		if p := recover(); p != nil {
			if p == any(ErrBudget) {
				t, err = nil, ErrBudget
				return
			}
			panic(p)
		}
	}()
	_, toks := Tokens(in)
	r := &rec{g: spec.TheGrammar, toks: toks, cells: map[key]*item{}, fail: map[[2]int]bool{}}
	r.ev = append(r.ev, event{kind: 0, rule: rule})
	if !r.run(r.push(r.g.Rules[rule].RHS, false, r.push(nil, false, nil)), 0) {
		return nil, nil
	}
	var stack []*Tree
	root := &Tree{}
	stack = append(stack, root)
	for _, e := range r.ev {
		top := stack[len(stack)-1]
		switch e.kind {
		case 0:
			n := &Tree{Rule: e.rule}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
		case 1:
			stack = stack[:len(stack)-1]
		case 2:
			top.Kids = append(top.Kids, &Tree{Tok: toks[e.pos], Pos: e.pos})
		}
	}
	return root.Kids[0], nil
}

// Loc is a time zone value.
type Loc struct {
	UTC  bool
	Name string
	Secs int
}

// Mbox is one mailbox.
type Mbox struct{ Name, Addr string }

// Date is a date-time value.
type Date struct {
	Y, Mo, D, H, Mi, S int
	Loc                Loc
}

// Time is the instant and zone a Date denotes.
func (d Date) Time() time.Time {
	l := time.UTC
	if !d.Loc.UTC {
		l = time.FixedZone(d.Loc.Name, d.Loc.Secs)
	}
	return time.Date(d.Y, time.Month(d.Mo), d.D, d.H, d.Mi, d.S, 0, l)
}

type inst struct {
	node  *spec.Node
	attrs map[string]any
}

type eval struct {
	cps []rune
	in  string
}

func (ev *eval) text(t *Tree) string {
	var b strings.Builder
	var f func(t *Tree)
	f = func(t *Tree) {
		if t.Rule == "" {
			if t.Tok != -1 {
				b.WriteRune(ev.cps[t.Pos])
			} else {
				b.WriteString("<EOF>")
			}
		}
		for _, k := range t.Kids {
			f(k)
		}
	}
	f(t)
	return b.String()
}

func (ev *eval) walk(t *Tree, parent *inst) *inst {
	self := parent
	n := spec.TheAG.Nodes[t.Rule]
	if n != nil {
		self = &inst{n, map[string]any{}}
		for _, a := range n.Attrs {
			self.attrs[a.Name] = ev.x(a.Init, t, self, nil)
		}
	}
	for _, k := range t.Kids {
		if k.Rule != "" {
			ev.walk(k, self)
		}
	}
	if n != nil && parent != nil {
		if as, ok := parent.node.On[t.Rule]; ok {
			nv := map[string]any{}
			for _, a := range as {
				nv[a.Attr] = ev.x(a.E, nil, parent, self)
			}
			for k, v := range nv {
				parent.attrs[k] = v
			}
		}
	}
	return self
}

// Eval evaluates the contracts over a syntax tree.
func Eval(t *Tree, in string) any {
	ev := &eval{cps: []rune(in), in: in}
	s := ev.walk(t, nil)
	return ev.x(s.node.Result, nil, s, nil)
}

func (ev *eval) x(e *spec.X, t *Tree, self, child *inst) any {
	a := func(i int) any { return ev.x(e.Args[i], t, self, child) }
	switch e.Op {
	case "lit-string":
		return e.S
	case "lit-int":
		return e.N
	case "lit-bool":
		return e.B
	case "attr":
		v, ok := self.attrs[e.S]
		if !ok {
			panic("oracle: no attribute " + e.S)
		}
		return v
	case "child":
		v, ok := child.attrs[e.S]
		if !ok {
			panic("oracle: no child attribute " + e.S)
		}
		return v
	case "if":
		if a(0).(bool) {
			return a(1)
		}
		return a(2)
	case "==":
		return a(0) == a(1)
	case "!=":
		return a(0) != a(1)
	case "<":
		return a(0).(int) < a(1).(int)
	case ">=":
		return a(0).(int) >= a(1).(int)
	case "+":
		return a(0).(int) + a(1).(int)
	case "-":
		return a(0).(int) - a(1).(int)
	case "&&":
		return a(0).(bool) && a(1).(bool)
	case "||":
		return a(0).(bool) || a(1).(bool)
	case "++":
		switch l := a(0).(type) {
		case string:
			return l + a(1).(string)
		case []any:
			return append(append([]any{}, l...), a(1).([]any)...)
		}
	case "list":
		var l []any
		for i := range e.Args {
			l = append(l, a(i))
		}
		return l
	case "call":
		switch e.S {
		case "text":
			return ev.text(t)
		case "digits":
			var b strings.Builder
			for _, k := range t.Kids {
				if k.Rule == "" && k.Tok == spec.TokenNumber("Digit") {
					b.WriteRune(ev.cps[k.Pos])
				}
			}
			return b.String()
		case "utc":
			return Loc{UTC: true}
		case "unfold":
			return strings.ReplaceAll(a(0).(string), "\r\n", "")
		case "decodable":
			_, err := (&mime.WordDecoder{CharsetReader: CharsetReader}).Decode(a(0).(string))
			return err == nil
		case "decoded":
			s, _ := (&mime.WordDecoder{CharsetReader: CharsetReader}).Decode(a(0).(string))
			return s
		case "dropfirst":
			s := a(0).(string)
			_, n := utf8.DecodeRuneInString(s)
			return s[n:]
		case "joindots":
			var ss []string
			for _, x := range a(0).([]any) {
				ss = append(ss, x.(string))
			}
			return strings.Join(ss, ".")
		case "mbox":
			return Mbox{a(0).(string), a(1).(string)}
		case "num":
			n, err := strconv.Atoi(a(0).(string))
			if err != nil {
				panic(err)
			}
			return n
		case "len":
			return len(a(0).(string))
		case "monthnum":
			for i, m := range spec.Months {
				if strings.EqualFold(m, a(0).(string)) {
					return i + 1
				}
			}
			panic("monthnum")
		case "signed":
			s := a(0).(string)
			return s[0] == '+' || s[0] == '-'
		case "offsetsecs":
			s := a(0).(string)
			sign := 1
			if s[0] == '-' {
				sign = -1
			}
			s = strings.TrimLeft(s, "+-")
			n, err := strconv.Atoi(s)
			if err != nil {
				panic(err)
			}
			return sign * (n/100*3600 + n%100*60)
		case "zonesecs":
			n, ok := spec.Zones[strings.ToLower(a(0).(string))]
			if !ok {
				panic("zonesecs")
			}
			return n
		case "fixedzone":
			return Loc{Name: a(0).(string), Secs: a(1).(int)}
		case "date":
			return Date{a(0).(int), a(1).(int), a(2).(int), a(3).(int), a(4).(int), a(5).(int), a(6).(Loc)}
		}
	}
	panic("oracle: " + e.String())
}

// Verdict is what the specification says about an input.
type Verdict struct {
	OK    bool
	Addrs []Mbox
	Date  Date
	Skip  bool // recognition abandoned
}

// Addresses is the specification of the address list entry point.
func Addresses(in string) Verdict {
	if in == "" {
		return Verdict{OK: true}
	}
	t, err := Parse("addressList", in)
	if err != nil {
		return Verdict{Skip: true}
	}
	if t == nil {
		return Verdict{}
	}
	v := Verdict{OK: true}
	l, _ := Eval(t, in).([]any)
	for _, x := range l {
		v.Addrs = append(v.Addrs, x.(Mbox))
	}
	return v
}

// DateTime is the specification of the date-time entry point.
func DateTime(in string) Verdict {
	if in == "" {
		return Verdict{OK: true}
	}
	t, err := Parse("dateTime", in)
	if err != nil {
		return Verdict{Skip: true}
	}
	if t == nil {
		return Verdict{}
	}
	return Verdict{OK: true, Date: Eval(t, in).(Date)}
}
