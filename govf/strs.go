package govf

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"verif/spec"
)

// Contracts of string functions on symbolic strings.  A function that SMT-LIB
// has no symbol for gets a symbol of its own with defining axioms, which
// Script adds wherever the symbol occurs.

// Re is the sort of regular languages.
const Re Sort = "RegLan"

func reLit(s string) *Term { return App("str.to_re", Re, StrC(s)) }

func reAll() *Term { return App("re.all", Re) }

func reUnion(rs ...*Term) *Term {
	switch len(rs) {
	case 0:
		return App("re.none", Re)
	case 1:
		return rs[0]
	}
	return App("re.union", Re, rs...)
}

func reCat(rs ...*Term) *Term { return App("re.++", Re, rs...) }

func reStar(r *Term) *Term { return App("re.*", Re, r) }

// reBytes is the language of the one-byte strings in a set.
func reBytes(set *[256]bool) *Term {
	var rs []*Term
	for i := 0; i < 256; i++ {
		if !set[i] {
			continue
		}
		j := i
		for j < 255 && set[j+1] {
			j++
		}
		if i == j {
			rs = append(rs, reLit(string([]byte{byte(i)})))
		} else {
			rs = append(rs, App("re.range", Re, StrC(string([]byte{byte(i)})), StrC(string([]byte{byte(j)}))))
		}
		i = j
	}
	return reUnion(rs...)
}

// inRe is membership; decided on constants only for languages of whole bytes.
func inRe(t, r *Term) *Term { return App("str.in_re", Bool, t, r) }

// ownFn is a function symbol of ours; its name tells its axioms.
func ownFn(name string, s Sort, args ...*Term) *Term { return App("|"+name+"|", s, args...) }

// inexact reports a function symbol that is not fully axiomatised.
func (t *Term) inexact() bool {
	if t.Op == "app" && (strings.HasPrefix(t.S, "|fn.") || t.S == "bytelower") {
		return true
	}
	for _, a := range t.Args {
		if a.inexact() {
			return true
		}
	}
	return false
}

// applies reports an application of a symbol.
func (t *Term) applies(name string) bool {
	if t.Op == "app" && t.S == name {
		return true
	}
	for _, a := range t.Args {
		if a.applies(name) {
			return true
		}
	}
	return false
}

// ownApps collects the applications of our own symbols.
func (t *Term) ownApps(m map[string]*Term) {
	if t.Op == "app" && strings.HasPrefix(t.S, "|") {
		m[t.Key()] = t
	}
	for _, a := range t.Args {
		a.ownApps(m)
	}
}

// defs declares our own symbols in fs and states their axioms.
func defs(fs []*Term) string {
	apps := map[string]*Term{}
	for _, f := range fs {
		f.ownApps(apps)
	}
	if len(apps) == 0 {
		return ""
	}
	var b, ax strings.Builder
	decl := map[string]bool{}
	declare := func(name string, args []*Term, s Sort) {
		if decl[name] {
			return
		}
		decl[name] = true
		var as []string
		for _, a := range args {
			as = append(as, string(a.Sort))
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", name, strings.Join(as, " "), s)
	}
	say := func(t *Term) { fmt.Fprintf(&ax, "(assert %s)\n", t.SMT()) }
	ks := make([]string, 0, len(apps))
	for k := range apps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := apps[k]
		declare(t.S, t.Args, t.Sort)
		name := strings.Trim(t.S, "|")
		switch {
		case strings.HasPrefix(name, "trim."):
			p := strings.SplitN(name, ".", 3)
			x := t.Args[0]
			l, r := App("|cut.l."+p[1]+p[2]+"|", Str, x), App("|cut.r."+p[1]+p[2]+"|", Str, x)
			w := cutLang(p[2])
			ll, rr := StrC(""), StrC("")
			if p[1] != "r" {
				declare(l.S, t.Args, Str)
				say(inRe(l, reStar(w)))
				say(Not(inRe(t, reCat(w, reAll()))))
				ll = l
			}
			if p[1] != "l" {
				declare(r.S, t.Args, Str)
				say(inRe(r, reStar(w)))
				say(Not(inRe(t, reCat(reAll(), w))))
				rr = r
				if p[1] == "b" {
					say(Or(Not(Eq(t, StrC(""))), Eq(r, StrC(""))))
				}
			}
			say(Eq(x, Cat(Str, ll, t, rr)))
		case name == "lastindex":
			a, s := t.Args[0], t.Args[1]
			say(Eq(Eq(t, IntC(-1)), Not(App("str.contains", Bool, a, s))))
			say(Le(IntC(-1), t))
			in := App("str.substr", Str, a, t, Len(s))
			rest := App("str.substr", Str, a, Add(t, IntC(1)), Len(a))
			say(Or(Eq(t, IntC(-1)), And(Eq(in, s), Not(App("str.contains", Bool, rest, s)))))
		}
	}
	return b.String() + ax.String()
}

var spaces = []string{"\t", "\n", "\v", "\f", "\r", " ", "\u0085", "\u00a0", "\u1680", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000",
	"\u2000", "\u2001", "\u2002", "\u2003", "\u2004", "\u2005", "\u2006", "\u2007", "\u2008", "\u2009", "\u200a"}

// cutLang is the language of a named set of characters: "space" or the bytes in hex.
func cutLang(set string) *Term {
	if set == "space" {
		var rs []*Term
		for _, s := range spaces {
			rs = append(rs, reLit(s))
		}
		return reUnion(rs...)
	}
	var b []byte
	fmt.Sscanf(set, "%x", &b)
	var bs [256]bool
	for _, c := range b {
		bs[c] = true
	}
	return reBytes(&bs)
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

func hexSet(s string) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	var o []byte
	for i, c := range b {
		if i == 0 || c != b[i-1] {
			o = append(o, c)
		}
	}
	return fmt.Sprintf("%x", o)
}

// addStrings installs the contracts of strings functions.
func (e *Engine) addStrings() {
	k := e.Contracts
	// sym wraps a contract: constants go to the library itself, and what the
	// contract does not cover to the body.
	sym := func(name string, f func(c *Call, a []*Term) (Val, bool)) {
		k[name] = func(c *Call) []Out {
			if v, good := c.E.native(c.St, name, c.Args); good {
				return ok(c, v)
			}
			var ts []*Term
			for _, a := range c.Args {
				t, isT := a.(*Term)
				if !isT {
					t = nil
				}
				ts = append(ts, t)
			}
			if v, good := f(c, ts); good {
				return ok(c, v)
			}
			return body(c)
		}
	}
	str := func(ts []*Term, n int) bool {
		for i := 0; i < n; i++ {
			if ts[i] == nil || ts[i].Sort != Str {
				return false
			}
		}
		return true
	}
	trim := func(mode, set string, x *Term) *Term {
		if set == "" {
			return x
		}
		return ownFn("trim."+mode+"."+set, Str, x)
	}
	sym("strings.TrimSpace", func(c *Call, a []*Term) (Val, bool) {
		return trim("b", "space", a[0]), true
	})
	for name, mode := range map[string]string{"strings.Trim": "b", "strings.TrimLeft": "l", "strings.TrimRight": "r"} {
		sym(name, func(c *Call, a []*Term) (Val, bool) {
			if !str(a, 2) || !a[1].IsStr() || !ascii(a[1].S) {
				return nil, false
			}
			return trim(mode, hexSet(a[1].S), a[0]), true
		})
	}
	for name, mode := range map[string]string{"strings.TrimFunc": "b", "strings.TrimLeftFunc": "l", "strings.TrimRightFunc": "r"} {
		sym(name, func(c *Call, a []*Term) (Val, bool) {
			if f, isF := c.Args[1].(FuncV); isF && a[0] != nil {
				if f.F.String() == "unicode.IsSpace" {
					return trim(mode, "space", a[0]), true
				}
				if set, good := c.E.byteSet(f); good {
					return trim(mode, hexSet(set), a[0]), true
				}
			}
			return nil, false
		})
	}
	idx := func(a, b *Term) *Term { return App("str.indexof", Int, a, b, IntC(0)) }
	sym("strings.Index", func(c *Call, a []*Term) (Val, bool) { return idx(a[0], a[1]), true })
	chr := func(t *Term) (*Term, bool) {
		if t == nil || !t.IsInt() || t.N < 0 || t.N >= utf8.RuneSelf {
			return nil, false
		}
		return StrC(string(rune(t.N))), true
	}
	for _, name := range []string{"strings.IndexByte", "strings.IndexRune"} {
		sym(name, func(c *Call, a []*Term) (Val, bool) {
			if s, good := chr(a[1]); good {
				return idx(a[0], s), true
			}
			return nil, false
		})
	}
	sym("strings.ContainsRune", func(c *Call, a []*Term) (Val, bool) {
		if s, good := chr(a[1]); good {
			return App("str.contains", Bool, a[0], s), true
		}
		return nil, false
	})
	sym("strings.ContainsAny", func(c *Call, a []*Term) (Val, bool) {
		if !str(a, 2) || !a[1].IsStr() || !ascii(a[1].S) {
			return nil, false
		}
		return inRe(a[0], reCat(reAll(), cutLang(hexSet(a[1].S)), reAll())), true
	})
	sym("strings.LastIndex", func(c *Call, a []*Term) (Val, bool) {
		if !a[1].IsStr() || a[1].S == "" {
			return nil, false
		}
		return ownFn("lastindex", Int, a[0], a[1]), true
	})
	sym("strings.LastIndexByte", func(c *Call, a []*Term) (Val, bool) {
		if s, good := chr(a[1]); good {
			return ownFn("lastindex", Int, a[0], s), true
		}
		return nil, false
	})
	sym("strings.EqualFold", func(c *Call, a []*Term) (Val, bool) {
		x, y := a[0], a[1]
		if x.IsStr() {
			x, y = y, x
		}
		if !y.IsStr() || !ascii(y.S) {
			return ownFn("fn.equalfold", Bool, x, y), true
		}
		var rs []*Term
		for _, r := range y.S {
			l, u := strings.ToLower(string(r)), strings.ToUpper(string(r))
			alts := []*Term{reLit(l)}
			if u != l {
				alts = append(alts, reLit(u))
			}
			switch l {
			case "k":
				alts = append(alts, reLit("\u212a"))
			case "s":
				alts = append(alts, reLit("\u017f"))
			}
			rs = append(rs, reUnion(alts...))
		}
		switch len(rs) {
		case 0:
			return Eq(x, StrC("")), true
		case 1:
			return inRe(x, rs[0]), true
		}
		return inRe(x, reCat(rs...)), true
	})
	for _, name := range []string{"strings.ToUpper", "strings.ToTitle", "strings.Title", "strings.ToValidUTF8"} {
		sym(name, func(c *Call, a []*Term) (Val, bool) {
			for _, t := range a {
				if t == nil {
					return nil, false
				}
			}
			return ownFn("fn."+name, Str, a...), true
		})
	}
	for name, s := range map[string]Sort{"unicode/utf8.ValidString": Bool, "unicode/utf8.RuneCountInString": Int, "strings.Count": Int, "strings.Compare": Int} {
		sym(name, func(c *Call, a []*Term) (Val, bool) {
			t := ownFn("fn."+name, s, a...)
			if s == Int && name != "strings.Compare" {
				c.St.Assume(Le(IntC(0), t))
				c.St.Assume(Le(t, Add(Len(a[0]), IntC(1))))
			}
			return t, true
		})
	}
	// decimal numbers
	for name, signed := range map[string]bool{"strconv.Atoi": true, "strconv.ParseInt": true, "strconv.ParseUint": false} {
		k[name] = func(c *Call) []Out {
			if v, good := c.E.native(c.St, name, c.Args); good {
				return ok(c, v)
			}
			t, isT := strArg(c.Args[0])
			bits := int64(64)
			if len(c.Args) == 3 {
				b, okB := c.Args[1].(*Term)
				n, okN := c.Args[2].(*Term)
				if !okB || !okN || !b.IsInt() || !n.IsInt() || b.N != 10 || n.N < 0 || n.N > 64 {
					return stuckOut(c, "%s of %s", name, vkeys(c.Args))
				}
				if n.N > 0 {
					bits = n.N
				}
			}
			if !signed {
				bits++
			}
			if !isT || bits > 64 {
				return stuckOut(c, "%s of %s", name, vkeys(c.Args))
			}
			top := int64(1)<<(bits-1) - 1
			if bits == 64 {
				top = math.MaxInt64
			}
			digits := App("re.+", Re, App("re.range", Re, StrC("0"), StrC("9")))
			var outs []Out
			add := func(ts []*Term, n *Term, bad bool) {
				st := c.St.Clone()
				for _, t := range ts {
					st.Assume(t)
				}
				if c.E.S.Check(st.PC) == "unsat" {
					return
				}
				v := TupleV{[]Val{n, NilV{}}}
				if bad {
					v.E[1] = errVal(st, "error of "+name)
				}
				outs = append(outs, Out{St: st, Ret: v})
			}
			both := func(is *Term, x *Term, minus bool) {
				v, far := App("str.to_int", Int, x), IntC(top)
				n, m := v, far
				if minus {
					n, m = Sub(IntC(0), v), Sub(IntC(-top), IntC(1))
					if bits < 64 {
						far = IntC(top + 1)
					}
				}
				add([]*Term{is, Le(IntC(0), v), Le(v, far)}, n, false)
				add([]*Term{is, Lt(far, v)}, m, true)
			}
			both(inRe(t, digits), t, false)
			good := []*Term{digits}
			if signed {
				rest := App("str.substr", Str, t, IntC(1), Sub(Len(t), IntC(1)))
				for _, s := range []string{"+", "-"} {
					re := reCat(reLit(s), digits)
					good = append(good, re)
					both(inRe(t, re), rest, s == "-")
				}
			}
			add([]*Term{Not(inRe(t, reUnion(good...)))}, IntC(0), true)
			if len(outs) > 1 {
				for _, o := range outs {
					o.St.Forks++
				}
			}
			return outs
		}
	}
	// functions with two outcomes
	cut := func(name string, found func(a, b *Term) *Term, parts func(a, b *Term) Val, none func(a *Term) Val) {
		k[name] = func(c *Call) []Out {
			if v, good := c.E.native(c.St, name, c.Args); good {
				return ok(c, v)
			}
			a, ok1 := strArg(c.Args[0])
			b, ok2 := strArg(c.Args[1])
			if !ok1 || !ok2 {
				return stuckOut(c, "%s of %s", name, vkeys(c.Args))
			}
			f := found(a, b)
			if f.IsBool() {
				if f.True() {
					return ok(c, parts(a, b))
				}
				return ok(c, none(a))
			}
			var outs []Out
			no := c.St.Clone()
			c.St.Assume(f)
			no.Assume(Not(f))
			if c.E.S.Check(c.St.PC) != "unsat" {
				outs = append(outs, Out{St: c.St, Ret: parts(a, b)})
			}
			if c.E.S.Check(no.PC) != "unsat" {
				outs = append(outs, Out{St: no, Ret: none(a)})
			}
			if len(outs) == 2 {
				c.St.Forks++
				no.Forks++
			}
			return outs
		}
	}
	cut("strings.Cut", func(a, b *Term) *Term { return App("str.contains", Bool, a, b) },
		func(a, b *Term) Val {
			i := idx(a, b)
			return TupleV{[]Val{App("str.substr", Str, a, IntC(0), i), App("str.substr", Str, a, Add(i, Len(b)), Len(a)), BoolC(true)}}
		}, func(a *Term) Val { return TupleV{[]Val{a, StrC(""), BoolC(false)}} })
	cut("strings.CutPrefix", func(a, b *Term) *Term { return App("str.prefixof", Bool, b, a) },
		func(a, b *Term) Val {
			return TupleV{[]Val{App("str.substr", Str, a, Len(b), Sub(Len(a), Len(b))), BoolC(true)}}
		}, func(a *Term) Val { return TupleV{[]Val{a, BoolC(false)}} })
	cut("strings.CutSuffix", func(a, b *Term) *Term { return App("str.suffixof", Bool, b, a) },
		func(a, b *Term) Val {
			return TupleV{[]Val{App("str.substr", Str, a, IntC(0), Sub(Len(a), Len(b))), BoolC(true)}}
		}, func(a *Term) Val { return TupleV{[]Val{a, BoolC(false)}} })
}

// body runs the body of the callee instead of a contract.
func body(c *Call) []Out {
	if c.Fn == nil || !c.E.inlinable(c.Fn) {
		return stuckOut(c, "%s is not modelled", c.Name)
	}
	return []Out{{St: c.St, Invoke: c.Fn, InvA: c.Args, Then: func(st *State, v Val) []Out {
		return []Out{{St: st, Ret: v}}
	}}}
}

// byteSet is the set of characters a predicate holds for, if it is a pure
// function of its argument that holds for no character above ASCII.
func (e *Engine) byteSet(f FuncV) (string, bool) {
	if len(f.Bind) > 0 || len(f.F.Params) != 1 {
		return "", false
	}
	seen, forks, base := e.seen, e.forks, e.base
	defer func() { e.seen, e.forks, e.base = seen, forks, base }()
	ask := func(r *Term) (yes, no, good bool) {
		st := NewState()
		if !r.IsInt() {
			st.Assume(Le(IntC(utf8.RuneSelf), r))
			st.Assume(Le(r, IntC(utf8.MaxRune)))
		}
		for _, s := range e.Run(st, f.F, nil, []Val{r}) {
			t, isT := s.Result.(*Term)
			if s.Stuck != "" || s.Panicked != nil || len(s.Impure) > 0 || !isT {
				return false, false, false
			}
			if !t.True() && e.S.Check(append(append([]*Term{}, s.PC...), Not(t))) != "unsat" {
				no = true
			}
			if !t.False() && e.S.Check(append(append([]*Term{}, s.PC...), t)) != "unsat" {
				yes = true
			}
		}
		return yes, no, true
	}
	if yes, _, good := ask(Sym("rune", Int)); !good || yes {
		return "", false
	}
	var set []byte
	for r := int64(0); r < utf8.RuneSelf; r++ {
		yes, no, good := ask(IntC(r))
		if !good || yes == no {
			return "", false
		}
		if yes {
			set = append(set, byte(r))
		}
	}
	return string(set), true
}

// ---- what is known about the text of a node -----------------------------------

// lang over-approximates the texts of a rule: first, last and any byte, and
// the minimal length.
type lang struct {
	first, last, any [256]bool
	min              int
}

var langs = makeLangs()

func makeLangs() map[string]*lang {
	m := map[string]*lang{}
	const far = 1 << 20
	for n := range spec.TheGrammar.Rules {
		m[n] = &lang{min: far}
	}
	tok := func(name string) *lang {
		l := &lang{min: 1}
		if name == "EOF" {
			l.min = 0
			return l
		}
		n := spec.TokenNumber(name)
		if spec.Classify(0xe9) == n {
			l.min = 2
			for i := 0x80; i < 256; i++ {
				l.any[i] = true
				l.last[i] = i < 0xc0
				l.first[i] = i >= 0xc0
			}
			return l
		}
		for c := rune(0); c < 128; c++ {
			if spec.Classify(c) == n {
				l.first[c], l.last[c], l.any[c] = true, true, true
			}
		}
		return l
	}
	or := func(a, b *[256]bool) {
		for i := range a {
			a[i] = a[i] || b[i]
		}
	}
	var eval func(e *spec.Expr) *lang
	eval = func(e *spec.Expr) *lang {
		switch e.Kind {
		case spec.KSym:
			if e.Tok {
				return tok(e.Sym)
			}
			l := *m[e.Sym]
			return &l
		case spec.KAlt:
			r := &lang{min: far}
			for _, s := range e.Subs {
				x := eval(s)
				or(&r.first, &x.first)
				or(&r.last, &x.last)
				or(&r.any, &x.any)
				r.min = min(r.min, x.min)
			}
			return r
		case spec.KSeq:
			r := &lang{}
			for _, s := range e.Subs {
				x := eval(s)
				if x.min >= far {
					return &lang{min: far}
				}
				if r.min == 0 {
					or(&r.first, &x.first)
				}
				if x.min == 0 {
					or(&r.last, &x.last)
				} else {
					r.last = x.last
				}
				or(&r.any, &x.any)
				r.min += x.min
			}
			return r
		case spec.KOpt, spec.KStar:
			r := eval(e.Subs[0])
			r.min = 0
			return r
		}
		return eval(e.Subs[0]) // one or more
	}
	for changed := true; changed; {
		changed = false
		for n, r := range spec.TheGrammar.Rules {
			x := eval(r.RHS)
			if *x != *m[n] {
				m[n] = x
				changed = true
			}
		}
	}
	return m
}

// fact is what the grammar says about a text symbol.
func fact(s *Term) *Term {
	if s.Op != "sym" || s.Sort != Str || !strings.HasPrefix(s.S, "text.") {
		return nil
	}
	l := langs[strings.SplitN(s.S, ".", 3)[1]]
	if l == nil {
		return nil
	}
	first, last, any := reBytes(&l.first), reBytes(&l.last), reStar(reBytes(&l.any))
	var both [256]bool
	for i := range both {
		both[i] = l.first[i] && l.last[i]
	}
	alts := []*Term{reCat(first, any, last)}
	if l.min <= 1 {
		alts = append(alts, reBytes(&both))
	}
	if l.min == 0 {
		alts = append(alts, reLit(""))
	}
	r := inRe(s, reUnion(alts...))
	if l.min > 2 {
		r = And(r, Le(IntC(int64(l.min)), Len(s)))
	}
	return r
}

func facts(fs []*Term) []*Term {
	syms := map[string]*Term{}
	for _, f := range fs {
		f.Syms(syms)
	}
	var out []*Term
	for _, k := range sortedKeys(syms) {
		if f := fact(syms[k]); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// Possible reports whether a path condition can hold for texts of the grammar.
func (s *Solver) Possible(pc []*Term) bool {
	f := facts(pc)
	return len(f) == 0 || s.Check(append(append([]*Term{}, pc...), f...)) != "unsat"
}
