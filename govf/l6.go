package govf

import (
	"fmt"
	"go/types"
	"strings"
)

// Lemmas about single functions of the runtime: the character stream, the lexer
// driver, the token stream, tree nodes and the tree walker.  Each executes the
// function on an arbitrary state in which the invariant of its data holds, and
// proves the state and the result afterwards; whatever is not mentioned must be
// unchanged.
type lem struct {
	v    *Env
	r    *Report
	o    *Obl
	e    *Engine
	n    string
	name map[int]string // objects
}

// lghost is the ghost state of a lemma.
type lghost struct {
	n   map[string]*Term
	log []string
}

func (g *lghost) Clone() Ghost {
	n := &lghost{n: map[string]*Term{}, log: append([]string{}, g.log...)}
	for k, v := range g.n {
		n.n[k] = v
	}
	return n
}

func (g *lghost) Key() string {
	var b strings.Builder
	for _, k := range sortedKeys(g.n) {
		b.WriteString(k + "=" + g.n[k].Key() + ";")
	}
	return b.String() + strings.Join(g.log, ";")
}

func (m *lem) state() *State {
	st := m.v.Base.Clone()
	st.G = &lghost{n: map[string]*Term{}}
	return st
}

func (m *lem) get(st *State, k string) *Term    { return st.G.(*lghost).n[k] }
func (m *lem) put(st *State, k string, t *Term) { st.G.(*lghost).n[k] = t }
func (m *lem) log(st *State, s string)          { g := st.G.(*lghost); g.log = append(g.log, s) }

func (m *lem) typ(name string) types.Type { return TypeOf(m.v.P.Antlr, name) }

// obj makes an object of a runtime type; its other fields are unknown.
func (m *lem) obj(st *State, typ string, fields map[string]Val) int {
	t := m.typ(typ)
	s := ghostStruct(t, "nnfield")
	for f, v := range fields {
		s.F[fieldIndex(t, f)] = v
	}
	id := st.New(t, s, "fn")
	m.name[id] = typ
	return id
}

// iface is an interface value of the environment.
func (m *lem) iface(typ, kind string, t *Term) Val {
	return IfaceV{T: m.typ(typ), V: GhostV{Kind: kind, ID: t.Key(), D: rterm{t, func(types.Type) bool { return true }}}}
}

// ptr is a pointer to an object as an interface value.
func (m *lem) ptr(st *State, id int) Val {
	return IfaceV{T: types.NewPointer(st.Heap[id].T), V: PtrV{Obj: id}}
}

// list is a slice of symbolic length whose elements are given by a function.
func (m *lem) list(st *State, name, elem string, n *Term, at func(i *Term) Val) SliceV {
	var t types.Type
	switch elem {
	case "rune":
		t = types.Typ[types.Rune]
	case "string":
		t = types.Typ[types.String]
	default:
		t = m.typ(elem)
	}
	spare := Sym("spare."+name, Int)
	st.Assume(Le(IntC(0), n))
	st.Assume(Le(IntC(0), spare))
	id := st.New(types.NewSlice(t), SegV{[]Seg{{Kind: "fn", Len: n, Name: name, At: at}, {Kind: "spare", Len: spare}}}, "fn")
	m.name[id] = "the array of " + name
	return SliceV{id, IntC(0), n, Add(n, spare)}
}

// field reads a field of an object, following embedded pointers.
func (m *lem) field(st *State, v Val, path ...string) Val {
	for _, f := range path {
		if iv, is := v.(IfaceV); is {
			v = iv.V
		}
		p, is := v.(PtrV)
		if !is || st.Heap[p.Obj] == nil {
			return nil
		}
		c := st.Heap[p.Obj]
		i := fieldIndex(c.T, f)
		s, is := c.V.(StructV)
		if i < 0 || !is {
			return nil
		}
		v = s.F[i]
	}
	return v
}

func (m *lem) fail(f string, a ...any) { m.r.Fail(m.o, true, "%s: %s", m.n, fmt.Sprintf(f, a...)) }

// claim is something to be shown at the end of a path.
type claim struct {
	what string
	t    *Term
}

func same(what string, a, b Val) claim {
	if a != nil && b != nil {
		if x, is := a.(*Term); is {
			if y, is := b.(*Term); is && x.Sort == y.Sort {
				return claim{what, Eq(x, y)}
			}
		}
		if a.vkey() == b.vkey() {
			return claim{what, BoolC(true)}
		}
	}
	return claim{fmt.Sprintf("%s (is %v, expected %v)", what, show(a), show(b)), BoolC(false)}
}

func show(v Val) string {
	if v == nil {
		return "nothing"
	}
	return v.vkey()
}

// lemma states one contract.
type lemma struct {
	fn     string // Type.Method, or a function
	recv   Val
	args   []Val
	panics *Term                  // when it panics; nil: never
	mods   map[int]string         // fields (space separated) of objects that it may change, "*" all
	post   func(s *State) []claim // what holds afterwards
	st     *State
	turn   bool // all paths may end within a loop
}

func (m *lem) prove(l lemma) {
	m.n = l.fn
	t, name, isM := strings.Cut(l.fn, ".")
	fn := m.v.P.Antlr.Func(t)
	if isM {
		fn = m.v.P.Method(types.NewPointer(m.typ(t)), m.v.P.Antlr.Pkg, name)
	}
	if fn == nil {
		m.fail("the runtime has no such function")
		return
	}
	args := l.args
	if isM {
		args = append([]Val{l.recv}, args...)
	}
	pre := l.st.Clone()
	saved := m.e.Contracts[FuncName(fn)]
	if !strings.HasPrefix(l.fn, "ParseTreeWalker.Walk") {
		delete(m.e.Contracts, FuncName(fn))
		defer func() {
			if saved != nil {
				m.e.Contracts[FuncName(fn)] = saved
			}
		}()
	}
	paths := 0
	for _, s := range m.e.Run(l.st.Clone(), fn, nil, args) {
		if s.Stuck != "" {
			m.fail("%s at %s", s.Stuck, s.StuckPos)
			continue
		}
		if m.e.S.Check(s.PC) == "unsat" {
			continue
		}
		paths++
		must := BoolC(false)
		if l.panics != nil {
			must = l.panics
		}
		if s.Panicked == nil {
			must = Not(must)
		}
		if r := m.e.S.Valid(s.PC, must); r != "unsat" {
			if s.Panicked != nil {
				m.fail("panics: %s", s.Panicked.Desc)
			} else {
				m.fail("does not panic where it should")
			}
			continue
		}
		if s.Panicked == nil && l.post != nil {
			for _, c := range l.post(s) {
				if r := m.e.S.Valid(s.PC, c.t); r != "unsat" {
					m.fail("%s is not shown (%s)", c.what, r)
				}
			}
		}
		m.frame(pre, s, l.mods)
	}
	if paths == 0 && !l.turn {
		m.fail("no path")
	}
}

// frame checks that only what mods names was written.
func (m *lem) frame(pre, s *State, mods map[int]string) {
	if len(s.Impure) > 0 {
		m.fail("%s", s.Impure[0])
	}
	for id, c := range pre.Heap {
		d := s.Heap[id]
		if d == c || mods[id] == "*" || d != nil && d.V.vkey() == c.V.vkey() {
			continue
		}
		sv, is := c.V.(StructV)
		if !is || d == nil {
			m.fail("writes %s", m.name[id])
			continue
		}
		ok := map[string]bool{}
		for _, f := range strings.Fields(mods[id]) {
			ok[f] = true
		}
		ty := c.T.Underlying().(*types.Struct)
		for k, f := range sv.F {
			if g := d.V.(StructV).F[k]; f.vkey() != g.vkey() && !ok[ty.Field(k).Name()] {
				m.fail("writes %s.%s", m.name[id], ty.Field(k).Name())
			}
		}
	}
}

func min2(a, b *Term) *Term { return Ite(Le(a, b), a, b) }

// Data proves the lemmas about the data structures of the runtime.
func (v *Env) Data(r *Report, workers int) {
	var jobs []func()
	for _, x := range dataLemmas {
		o := r.Oblige("runtime/data/"+x.name, "runtime", x.desc, x.props...)
		jobs = append(jobs, func() {
			m := &lem{v: v, r: r, o: o, n: x.name, name: map[int]string{}}
			e, _ := v.Engine()
			defer e.S.Close()
			defer r.Absorb(e)
			e.Loops = map[string]*LoopInv{}
			m.e = e
			x.f(m)
		})
	}
	Parallel(workers, jobs)
}

type dataLemma struct {
	name, desc string
	props      []string
	f          func(m *lem)
}

var dataLemmas = []dataLemma{
	{"InputStream", "the character stream holds the code points of the text: LA, Consume, Seek, Index, Size, GetText", []string{"C01", "C02", "C11", "C13"}, (*lem).inputStream},
	{"Lexer", "the k-th token the lexer gives is that of the k-th code point, with its position and on the default channel; then the end", []string{"C01", "C02", "C11", "C13"}, (*lem).lexer},
	{"Token", "the text of a token is its part of the input", []string{"C03", "C04", "C05", "C06", "C08", "C09", "C10", "C13"}, (*lem).tokenText},
	{"TokenStream", "the token stream gives the tokens of the lexer in order, with any lookahead", []string{"C01", "C02", "C11", "C13"}, (*lem).tokenStream},
	{"Node", "tree nodes keep their children in order; the text of a node is that of its children", []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14"}, (*lem).treeNode},
	{"Walker", "the walk enters a node, walks its children in order and leaves the node", []string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C14"}, (*lem).treeWalk},
	{"Listeners", "error listeners are kept in a list that starts empty after removal", []string{"C01", "C02"}, (*lem).listeners},
	{"IntervalSet", "interval sets hold what was put into them", []string{"C01", "C02", "C11"}, (*lem).intervals},
}

func (m *lem) inputStream() {
	st := m.state()
	n, idx := Sym("size", Int), Sym("index", Int)
	runes := func(st *State, n *Term) SliceV {
		return m.list(st, "runes", "rune", n, func(i *Term) Val { return App("runeat", Int, i) })
	}
	data := runes(st, n)
	st.Assume(Le(IntC(0), idx))
	st.Assume(Le(idx, n))
	id := m.obj(st, "InputStream", map[string]Val{"index": idx, "size": n, "data": data})
	self := PtrV{Obj: id}
	m.e.OnConvert = func(s *State, x Val, from, to types.Type) Val {
		if sl, is := x.(SliceV); is && sl.Obj == data.Obj && isString(to) {
			return App("runestr", Str, sl.Off, Add(sl.Off, sl.Len))
		}
		return nil
	}
	idxIs := func(t *Term) func(s *State) []claim {
		return func(s *State) []claim { return []claim{same("the index", m.field(s, self, "index"), t)} }
	}
	returns := func(t Val) func(s *State) []claim {
		return func(s *State) []claim { return []claim{same("the result", s.Result, t)} }
	}
	k := Sym("k", Int)
	p := Ite(Lt(IntC(0), k), Sub(Add(idx, k), IntC(1)), Add(idx, k))
	at := Ite(And(Le(IntC(0), p), Lt(p, n)), App("runeat", Int, p), IntC(-1))
	for _, f := range []string{"LA", "LT"} {
		m.prove(lemma{fn: "InputStream." + f, st: st, recv: self, args: []Val{k}, post: returns(Ite(Eq(k, IntC(0)), IntC(0), at))})
	}
	m.prove(lemma{fn: "InputStream.Consume", st: st, recv: self, mods: map[int]string{id: "index"}, panics: Eq(idx, n), post: idxIs(Add(idx, IntC(1)))})
	s2 := st.Clone()
	s2.Assume(Le(IntC(0), k))
	m.prove(lemma{fn: "InputStream.Seek", st: s2, recv: self, args: []Val{k}, mods: map[int]string{id: "index"}, post: idxIs(min2(k, n))})
	m.prove(lemma{fn: "InputStream.Index", st: st, recv: self, post: returns(idx)})
	m.prove(lemma{fn: "InputStream.Size", st: st, recv: self, post: returns(n)})
	m.prove(lemma{fn: "InputStream.Mark", st: st, recv: self})
	m.prove(lemma{fn: "InputStream.Release", st: st, recv: self, args: []Val{k}})
	j := Sym("j", Int)
	s3 := st.Clone()
	s3.Assume(Le(IntC(0), k))
	s3.Assume(Le(k, Add(j, IntC(1))))
	text := Ite(Le(n, k), StrC(""), App("runestr", Str, k, Ite(Le(n, j), n, Add(j, IntC(1)))))
	m.prove(lemma{fn: "InputStream.GetText", st: s3, recv: self, args: []Val{k, j}, post: returns(text)})
	iv := m.obj(s3, "Interval", map[string]Val{"Start": k, "Stop": j})
	m.prove(lemma{fn: "InputStream.GetTextFromInterval", st: s3, recv: self, args: []Val{PtrV{Obj: iv}}, post: returns(text)})

	s4 := m.state()
	m.e.OnConvert = func(s *State, x Val, from, to types.Type) Val {
		if x.vkey() == Sym("input", Str).vkey() && !isString(to) {
			return runes(s, n)
		}
		return nil
	}
	m.prove(lemma{fn: "NewInputStream", st: s4, args: []Val{Sym("input", Str)}, post: func(s *State) []claim {
		cs := []claim{same("the index", m.field(s, s.Result, "index"), IntC(0)), same("the size", m.field(s, s.Result, "size"), n)}
		d, is := m.field(s, s.Result, "data").(SliceV)
		if !is {
			return append(cs, claim{"the data", BoolC(false)})
		}
		sg, _ := s.Heap[d.Obj].V.(SegV)
		return append(cs, same("the length", d.Len, n), same("the start", d.Off, IntC(0)), claim{"the code points", BoolC(len(sg.Segs) > 0 && sg.Segs[0].Name == "runes")})
	}})
}

// chars makes an abstract character stream: ghost ci is the index, n the size.
func (m *lem) chars(st *State) Val {
	n := Sym("size", Int)
	st.Assume(Le(IntC(0), n))
	ci := Sym("ci", Int)
	st.Assume(Le(IntC(0), ci))
	st.Assume(Le(ci, n))
	m.put(st, "ci", ci)
	gk := m.e.Ghosts
	gk["nnchars.Index"] = func(c *Call) []Out { return ok(c, m.get(c.St, "ci")) }
	gk["nnchars.Size"] = func(c *Call) []Out { return ok(c, n) }
	gk["nnchars.Mark"] = func(c *Call) []Out { return ok(c, c.St.Fresh("mark", Int)) }
	gk["nnchars.Release"] = func(c *Call) []Out { return ok(c, nil) }
	gk["nnchars.LA"] = func(c *Call) []Out {
		if k, is := c.Args[0].(*Term); !is || !k.IsInt() || k.N != 1 {
			return stuckOut(c, "LA of the characters")
		}
		i := m.get(c.St, "ci")
		c.St.Assume(Le(IntC(0), App("runeat", Int, i)))
		return ok(c, Ite(Lt(i, n), App("runeat", Int, i), IntC(-1)))
	}
	gk["nnchars.GetTextFromInterval"] = func(c *Call) []Out {
		a, isA := m.field(c.St, c.Args[0], "Start").(*Term)
		b, isB := m.field(c.St, c.Args[0], "Stop").(*Term)
		if !isA || !isB {
			return stuckOut(c, "text of an unknown interval")
		}
		if r := m.e.S.Valid(c.St.PC, And(Le(IntC(0), a), Le(a, b), Lt(b, n))); r != "unsat" {
			return stuckOut(c, "text of an interval beyond the input")
		}
		return ok(c, App("runestr", Str, a, Add(b, IntC(1))))
	}
	return m.iface("CharStream", "nnchars", IntC(0))
}

// lexer: the prediction of the lexer is used by contract: at a character it
// consumes it and gives the token type of its class, at the end it gives EOF.
func (m *lem) lexer() {
	st := m.state()
	in := m.chars(st)
	n, ci := Sym("size", Int), m.get(st, "ci")
	m.e.Ghosts["nnlexsim.Match"] = func(c *Call) []Out {
		if c.Args[0].vkey() != in.vkey() {
			return stuckOut(c, "matches on another stream")
		}
		i := m.get(c.St, "ci")
		s := c.St.Clone()
		s.Assume(Eq(i, n))
		c.St.Assume(Lt(i, n))
		t := App("cls", Int, i)
		c.St.Assume(Le(IntC(1), t))
		m.put(c.St, "ci", Add(i, IntC(1)))
		return []Out{{St: s, Ret: IntC(-1)}, {St: c.St, Ret: t}}
	}
	for _, f := range []string{"GetLine", "GetCharPositionInLine"} {
		m.e.Ghosts["nnlexsim."+f] = func(c *Call) []Out { return ok(c, c.St.Fresh("at", Int)) }
	}
	hit := Sym("hitEOF", Bool)
	st.Assume(Or(Not(hit), Eq(ci, n)))
	fac := m.obj(st, "CommonTokenFactory", map[string]Val{"copyText": BoolC(false)})
	pair := m.obj(st, "TokenSourceCharStreamPair", map[string]Val{"charStream": in})
	id := m.obj(st, "BaseLexer", map[string]Val{"input": in, "factory": m.ptr(st, fac), "tokenFactorySourcePair": PtrV{Obj: pair},
		"Interpreter": m.iface("ILexerATNSimulator", "nnlexsim", IntC(0)), "hitEOF": hit, "mode": IntC(0)})
	self := PtrV{Obj: id}
	set := func(o int, f string, v Val) {
		c := st.Heap[o]
		s := StructV{F: append([]Val{}, c.V.(StructV).F...)}
		s.F[fieldIndex(c.T, f)] = v
		st.Heap[o] = &Cell{T: c.T, V: s, Owner: c.Owner}
	}
	set(id, "Virt", m.ptr(st, id))
	set(pair, "tokenSource", m.ptr(st, id))
	m.prove(lemma{fn: "BaseLexer.GetTokenFactory", st: st, recv: self, post: func(s *State) []claim {
		return []claim{same("the factory", s.Result, m.ptr(st, fac))}
	}})
	given := map[string]Val{"tokenType": Sym("ttype", Int), "text": Sym("giventext", Str), "channel": Sym("channel", Int), "start": Sym("start", Int),
		"stop": Sym("stop", Int), "line": Sym("line", Int), "column": Sym("column", Int), "source": PtrV{Obj: pair}, "tokenIndex": IntC(-1)}
	m.prove(lemma{fn: "CommonTokenFactory.Create", st: st, recv: PtrV{Obj: fac}, args: []Val{given["source"], given["tokenType"], given["text"], given["channel"],
		given["start"], given["stop"], given["line"], given["column"]}, post: func(s *State) []claim {
		iv, is := s.Result.(IfaceV)
		cs := []claim{{"a token", BoolC(is && shortType(iv.T) == "*antlr.CommonToken")}}
		for f, v := range given {
			cs = append(cs, same("its "+f, m.field(s, s.Result, "BaseToken", f), v))
		}
		return cs
	}})
	end := Eq(ci, n)
	m.prove(lemma{fn: "BaseLexer.NextToken", st: st, recv: self,
		mods: map[int]string{id: "token channel thetype hitEOF text TokenStartCharIndex TokenStartColumn TokenStartLine"},
		post: func(s *State) []claim {
			f := func(n string) Val { return m.field(s, s.Result, "BaseToken", n) }
			isT := false
			if iv, is := s.Result.(IfaceV); is {
				isT = shortType(iv.T) == "*antlr.CommonToken"
			}
			cs := []claim{
				{"a token of the factory", BoolC(isT)},
				same("the type", f("tokenType"), Ite(end, IntC(-1), App("cls", Int, ci))),
				same("the channel", f("channel"), IntC(0)),
				same("the start", f("start"), ci),
				same("the stop", f("stop"), Ite(end, Sub(n, IntC(1)), ci)),
				same("the source", f("source"), PtrV{Obj: pair}),
				same("the index", m.get(s, "ci"), Ite(end, n, Add(ci, IntC(1)))),
				same("the text", f("text"), StrC("")),
			}
			if h, is := m.field(s, self, "hitEOF").(*Term); is {
				cs = append(cs, claim{"the end is noticed", Eq(h, Eq(m.get(s, "ci"), n))})
			} else {
				cs = append(cs, claim{"the end", BoolC(false)})
			}
			return cs
		}})
}

func (m *lem) tokenText() {
	st := m.state()
	in := m.chars(st)
	n := Sym("size", Int)
	k := Sym("k", Int)
	st.Assume(Le(IntC(0), k))
	st.Assume(Le(k, n))
	end := Eq(k, n)
	pair := m.obj(st, "TokenSourceCharStreamPair", map[string]Val{"charStream": in})
	ty, ch, ix := Sym("type", Int), Sym("channel", Int), Sym("tokenIndex", Int)
	base := m.obj(st, "BaseToken", map[string]Val{"source": PtrV{Obj: pair}, "start": k, "stop": Ite(end, Sub(n, IntC(1)), k), "text": StrC(""),
		"tokenType": ty, "channel": ch, "tokenIndex": ix})
	tok := m.obj(st, "CommonToken", map[string]Val{"BaseToken": PtrV{Obj: base}})
	text := Ite(end, StrC("<EOF>"), App("runestr", Str, k, Add(k, IntC(1))))
	res := func(v Val) func(s *State) []claim {
		return func(s *State) []claim { return []claim{same("the result", s.Result, v)} }
	}
	m.prove(lemma{fn: "CommonToken.GetText", st: st, recv: PtrV{Obj: tok}, post: res(text)})
	for f, v := range map[string]Val{"GetTokenType": ty, "GetChannel": ch, "GetTokenIndex": ix, "GetStart": k, "GetInputStream": in} {
		m.prove(lemma{fn: "BaseToken." + f, st: st, recv: PtrV{Obj: base}, post: res(v)})
	}
	m.prove(lemma{fn: "BaseToken.SetTokenIndex", st: st, recv: PtrV{Obj: base}, args: []Val{Sym("i", Int)}, mods: map[int]string{base: "tokenIndex"},
		post: func(s *State) []claim {
			return []claim{same("the index", m.field(s, PtrV{Obj: base}, "tokenIndex"), Sym("i", Int))}
		}})
	leaf := m.obj(st, "TerminalNodeImpl", map[string]Val{"symbol": m.ptr(st, tok)})
	m.prove(lemma{fn: "TerminalNodeImpl.GetText", st: st, recv: PtrV{Obj: leaf}, post: res(text)})
	m.prove(lemma{fn: "TerminalNodeImpl.GetSymbol", st: st, recv: PtrV{Obj: leaf}, post: res(m.ptr(st, tok))})
	m.prove(lemma{fn: "TerminalNodeImpl.GetChildCount", st: st, recv: PtrV{Obj: leaf}, post: res(IntC(0))})
}

// tokenStream: ghost k is the number of tokens taken from the lexer.  Its
// tokens are 0..last, of which only the last is EOF.
func (m *lem) tokenStream() {
	st := m.state()
	last := Sym("last", Int)
	st.Assume(Le(IntC(0), last))
	tok := func(i *Term) Val { return m.iface("Token", "nntok", i) }
	gk := m.e.Ghosts
	fact := func(s *State, i *Term) {
		s.Assume(Or(Not(And(Le(IntC(0), i), Le(i, last))), Eq(Eq(ttype(i), IntC(-1)), Eq(i, last))))
	}
	gk["nnlexer.NextToken"] = func(c *Call) []Out {
		k := m.get(c.St, "k")
		if r := m.e.S.Valid(c.St.PC, Le(k, last)); r != "unsat" {
			return stuckOut(c, "a token after the end is taken from the lexer")
		}
		m.put(c.St, "k", Add(k, IntC(1)))
		return ok(c, tok(k))
	}
	gk["nntok.SetTokenIndex"] = func(c *Call) []Out {
		if r := m.e.S.Valid(c.St.PC, Eq(c.Args[0].(*Term), ghostTerm(c.Recv))); r != "unsat" {
			return stuckOut(c, "token %v gets index %v", ghostTerm(c.Recv), c.Args[0].vkey())
		}
		m.put(c.St, "indexed", Add(ghostTerm(c.Recv), IntC(1)))
		return ok(c, nil)
	}
	gk["nntok.GetTokenType"] = func(c *Call) []Out {
		i := ghostTerm(c.Recv)
		fact(c.St, i)
		return ok(c, ttype(i))
	}
	gk["nntok.GetChannel"] = func(c *Call) []Out { return ok(c, IntC(0)) }
	list := func(s *State, n *Term) SliceV { return m.list(s, "tokens", "Token", n, tok) }
	reserved := list(st, Sym("reserved", Int)).Obj
	id := m.obj(st, "CommonTokenStream", map[string]Val{"channel": IntC(0), "tokenSource": m.iface("TokenSource", "nnlexer", IntC(0))})
	self := PtrV{Obj: id}
	setf := func(s *State, f string, v Val) {
		c := s.Heap[id]
		x := StructV{F: append([]Val{}, c.V.(StructV).F...)}
		x.F[fieldIndex(c.T, f)] = v
		s.Heap[id] = &Cell{T: c.T, V: x, Owner: c.Owner}
	}
	// filled puts the stream into a state in which n tokens were fetched.
	filled := func(s *State, n, spare *Term, spareName string) {
		s.Heap[reserved] = &Cell{T: s.Heap[reserved].T, V: SegV{[]Seg{{Kind: "fn", Len: n, Name: "tokens", At: tok}, {Kind: "spare", Len: spare}}}, Owner: "fn"}
		setf(s, "tokens", SliceV{reserved, IntC(0), n, Add(n, spare)})
		setf(s, "fetchedEOF", Lt(last, n))
		m.put(s, "k", n)
		m.put(s, "indexed", n)
	}
	// count is the number of tokens, and what it takes for them to be right
	count := func(s *State) (*Term, *Term) {
		sl, is := m.field(s, self, "tokens").(SliceV)
		if !is {
			return nil, BoolC(false)
		}
		sg, ok := m.e.region(s, sl)
		if !ok {
			return nil, BoolC(false)
		}
		pos, good := IntC(0), And(Eq(sl.Len, m.get(s, "k")), Eq(sl.Len, m.get(s, "indexed")))
		for _, x := range sg {
			switch {
			case x.Kind == "fn" && x.Name == "tokens" && pos.IsInt() && pos.N == 0:
			case x.Kind == "cell" && ghostTerm(x.V) != nil:
				good = And(good, Eq(ghostTerm(x.V), pos))
			default:
				return nil, BoolC(false)
			}
			pos = Add(pos, x.Len)
		}
		return sl.Len, And(good, Eq(pos, sl.Len), Le(sl.Len, sl.Cap), Le(sl.Len, Add(last, IntC(1))))
	}
	inv := func(s *State) []claim {
		n, good := count(s)
		e, is := m.field(s, self, "fetchedEOF").(*Term)
		if n == nil || !is {
			return []claim{{"the tokens", BoolC(false)}}
		}
		return []claim{{"the tokens", good}, {"fetchedEOF", Eq(e, Lt(last, n))}}
	}
	fs := "(*" + AntlrPath + ".CommonTokenStream)."
	n0, i0 := Sym("fetched", Int), Sym("index", Int)
	terms := func(f *Frame, names ...string) []*Term {
		var out []*Term
		for _, n := range names {
			t, _ := f.Env[phiNamed(f.Block, n)].(*Term)
			if t == nil {
				return nil
			}
			out = append(out, t)
		}
		return out
	}
	param := func(f *Frame) *Term { t, _ := f.Env[f.Fn.Params[1]].(*Term); return t }
	m.e.Loops[fs+"fetch#0"] = &LoopInv{
		Havoc: func(e *Engine, s *State, f *Frame, x string) {
			filled(s, Sym(x+"n", Int), Sym(x+"spare", Int), x)
			f.Env[phiNamed(f.Block, "i")] = Sub(Sym(x+"n", Int), m.get(s, "n"))
		},
		Inv: func(e *Engine, s *State, f *Frame) []*Term {
			n, good := count(s)
			ts := terms(f, "i")
			eof, is := m.field(s, self, "fetchedEOF").(*Term)
			if n == nil || ts == nil || !is {
				return []*Term{BoolC(false)}
			}
			if ts[0].IsInt() {
				m.put(s, "n", n) // as the loop begins
			}
			w := m.get(s, "n")
			return []*Term{good, Eq(ts[0], Sub(n, w)), Le(w, n), Le(n, last), Not(eof), Le(ts[0], param(f))}
		},
		Variant: func(e *Engine, s *State, f *Frame) *Term { return Sub(param(f), terms(f, "i")[0]) },
	}
	m.e.Loops[fs+"LT#0"] = &LoopInv{
		Havoc: func(e *Engine, s *State, f *Frame, x string) {
			filled(s, Sym(x+"n", Int), Sym(x+"spare", Int), x)
			f.Env[phiNamed(f.Block, "i")] = Sym(x+"i", Int)
			f.Env[phiNamed(f.Block, "n")] = Sym(x+"k", Int)
			delete(s.G.(*lghost).n, "n")
		},
		Inv: func(e *Engine, s *State, f *Frame) []*Term {
			n, good := count(s)
			ts := terms(f, "i", "n")
			ix, is := m.field(s, self, "index").(*Term)
			eof, isE := m.field(s, self, "fetchedEOF").(*Term)
			if n == nil || ts == nil || !is || !isE {
				return []*Term{BoolC(false)}
			}
			return []*Term{good, Eq(ts[0], min2(Sub(Add(ix, ts[1]), IntC(1)), last)), Le(IntC(1), ts[1]), Le(ts[1], param(f)), Le(IntC(0), ts[0]), Lt(ts[0], n), Le(n0, n), Eq(eof, Lt(last, n))}
		},
		Variant: func(e *Engine, s *State, f *Frame) *Term { return Sub(param(f), terms(f, "n")[0]) },
	}
	start := func(s0 *State) *State {
		s := s0.Clone()
		s.Assume(Le(IntC(0), n0))
		s.Assume(Le(n0, Add(last, IntC(1))))
		s.Assume(Le(IntC(0), Sym("spare", Int)))
		filled(s, n0, Sym("spare", Int), "")
		return s
	}
	any := start(st) // any number fetched
	setf(any, "index", i0)
	set := start(st) // positioned
	set.Assume(Le(IntC(0), i0))
	set.Assume(Lt(i0, n0))
	setf(set, "index", i0)
	fresh := st.Clone() // as constructed
	none := fresh.New(types.NewSlice(m.typ("Token")), SegV{}, "fn")
	setf(fresh, "tokens", SliceV{none, IntC(0), IntC(0), IntC(0)})
	setf(fresh, "fetchedEOF", BoolC(false))
	setf(fresh, "index", IntC(-1))
	m.put(fresh, "k", IntC(0))
	m.put(fresh, "indexed", IntC(0))
	mods := map[int]string{id: "tokens fetchedEOF", reserved: "*"}
	moves := map[int]string{id: "tokens fetchedEOF index", reserved: "*"}
	with := func(f func(s *State) []claim) func(s *State) []claim {
		return func(s *State) []claim { return append(inv(s), f(s)...) }
	}
	got := func(s *State) *Term {
		n, _ := count(s)
		if n == nil {
			return IntC(-7)
		}
		return n
	}
	// fetch
	d := Sym("d", Int)
	s := any.Clone()
	s.Assume(Le(IntC(1), d))
	m.prove(lemma{fn: "CommonTokenStream.fetch", st: s, recv: self, args: []Val{d}, mods: mods, post: with(func(s *State) []claim {
		n := min2(Add(n0, d), Add(last, IntC(1)))
		return []claim{same("the tokens fetched", got(s), n), same("the result", s.Result, Sub(n, n0))}
	})})
	// Sync
	k := Sym("k", Int)
	s = any.Clone()
	s.Assume(Le(IntC(0), k))
	upto := func(i *Term) *Term { // tokens there are after asking for number i
		w := min2(Add(i, IntC(1)), Add(last, IntC(1)))
		return Ite(Le(n0, w), w, n0)
	}
	m.prove(lemma{fn: "CommonTokenStream.Sync", st: s, recv: self, args: []Val{k}, mods: mods, post: with(func(s *State) []claim {
		return []claim{same("the tokens fetched", got(s), upto(k)), same("the result", s.Result, Le(k, last))}
	})})
	for _, f := range []string{"NextTokenOnChannel", "adjustSeekIndex"} {
		args := []Val{k}
		if f == "NextTokenOnChannel" {
			args = append(args, IntC(0))
		}
		m.prove(lemma{fn: "CommonTokenStream." + f, st: s, recv: self, args: args, mods: mods, post: with(func(s *State) []claim {
			return []claim{same("the result", s.Result, Ite(Le(k, last), k, IntC(-1))), same("the tokens fetched", got(s), upto(k))}
		})})
	}
	// position
	ix := func(s *State) Val { return m.field(s, self, "index") }
	one := IntC(1)
	m.prove(lemma{fn: "CommonTokenStream.Consume", st: set, recv: self, mods: moves, panics: Eq(i0, last), post: with(func(s *State) []claim {
		return []claim{same("the index", ix(s), Add(i0, one)), {"the token is there", Lt(Add(i0, one), got(s))}}
	})})
	s = set.Clone()
	s.Assume(Le(IntC(0), k))
	s.Assume(Le(k, last))
	m.prove(lemma{fn: "CommonTokenStream.Seek", st: s, recv: self, args: []Val{k}, mods: moves, post: with(func(s *State) []claim {
		return []claim{same("the index", ix(s), k), {"the token is there", Lt(k, got(s))}}
	})})
	m.prove(lemma{fn: "CommonTokenStream.Index", st: set, recv: self, post: func(s *State) []claim { return []claim{same("the result", s.Result, i0)} }})
	m.prove(lemma{fn: "CommonTokenStream.GetTokenSource", st: set, recv: self, post: func(s *State) []claim {
		return []claim{same("the result", s.Result, m.iface("TokenSource", "nnlexer", IntC(0)))}
	}})
	m.prove(lemma{fn: "CommonTokenStream.Mark", st: set, recv: self})
	m.prove(lemma{fn: "CommonTokenStream.Release", st: set, recv: self, args: []Val{k}})
	// lookahead
	result := func(s *State, want *Term, la bool) claim {
		if la {
			return same("the type", s.Result, ttype(want))
		}
		if t := ghostTerm(s.Result); t != nil {
			return same("the token", t, want)
		}
		return claim{"a token", BoolC(false)}
	}
	for _, f := range []string{"LT", "LA"} {
		la := f == "LA"
		s = set.Clone()
		s.Assume(Le(one, k))
		m.prove(lemma{fn: "CommonTokenStream." + f, st: s, recv: self, args: []Val{k}, mods: mods, post: with(func(s *State) []claim {
			return []claim{result(s, min2(Sub(Add(i0, k), one), last), la)}
		})})
		s = fresh.Clone()
		s.Assume(Le(one, k))
		s.Assume(Eq(n0, IntC(0)))
		m.prove(lemma{fn: "CommonTokenStream." + f, st: s, recv: self, args: []Val{k}, mods: map[int]string{id: "tokens fetchedEOF index", reserved: "*", none: "*"}, post: with(func(s *State) []claim {
			return []claim{result(s, min2(Sub(k, one), last), la), same("the index", ix(s), IntC(0))}
		})})
	}
	s = set.Clone()
	s.Assume(Le(one, i0))
	m.prove(lemma{fn: "CommonTokenStream.LT", st: s, recv: self, args: []Val{IntC(-1)}, post: with(func(s *State) []claim {
		return []claim{result(s, Sub(i0, one), false)}
	})})
	s = set.Clone()
	s.Assume(Eq(i0, IntC(0)))
	m.prove(lemma{fn: "CommonTokenStream.LT", st: s, recv: self, args: []Val{IntC(-1)}, post: with(func(s *State) []claim {
		return []claim{same("the result", s.Result, NilV{})}
	})})
	s = set.Clone()
	s.Assume(Le(IntC(0), k))
	s.Assume(Lt(k, n0))
	m.prove(lemma{fn: "CommonTokenStream.Get", st: s, recv: self, args: []Val{k}, post: with(func(s *State) []claim { return []claim{result(s, k, false)} })})
}

func (m *lem) treeNode() {
	n := Sym("children", Int)
	at := func(i *Term) Val { return m.iface("Tree", "nntree", App("kid", Int, i)) }
	m.e.Ghosts["nntree.GetText"] = func(c *Call) []Out { return ok(c, App("ttext", Str, ghostTerm(c.Recv))) }
	st := m.state()
	parent := m.iface("RuleContext", "nnnode", Sym("parent", Int))
	kids := m.list(st, "children", "Tree", n, at)
	rule := m.obj(st, "BaseRuleContext", map[string]Val{"parentCtx": parent, "invokingState": Sym("inv", Int), "RuleIndex": Sym("rule", Int)})
	tok := m.iface("Token", "nntok", IntC(1))
	id := m.obj(st, "BaseParserRuleContext", map[string]Val{"BaseRuleContext": PtrV{Obj: rule}, "children": kids, "start": tok, "stop": tok})
	self := PtrV{Obj: id}
	empty := st.Clone()
	c := empty.Heap[id]
	sv := StructV{F: append([]Val{}, c.V.(StructV).F...)}
	sv.F[fieldIndex(c.T, "children")] = NilV{}
	empty.Heap[id] = &Cell{T: c.T, V: sv, Owner: c.Owner}
	for _, x := range []struct {
		st  *State
		len *Term
	}{{st, n}, {empty, IntC(0)}} {
		mods := map[int]string{id: "children", kids.Obj: "*"}
		// grown: the children are those before, then one more
		grown := func(s *State, f func(v Val) []claim) []claim {
			sl, is := m.field(s, self, "children").(SliceV)
			if !is {
				return []claim{{"a list of children", BoolC(false)}}
			}
			sg, ok := m.e.region(s, sl)
			if !ok || len(sg) == 0 || len(sg) > 2 || sg[len(sg)-1].Kind != "cell" {
				return []claim{{"one more child", BoolC(false)}}
			}
			cs := []claim{same("the number of children", sl.Len, Add(x.len, IntC(1))), same("the start of the list", sl.Off, IntC(0))}
			if len(sg) == 2 {
				cs = append(cs, claim{"the children before", And(BoolC(sg[0].Name == "children"), Eq(sg[0].Len, x.len))})
			} else {
				cs = append(cs, same("no children before", x.len, IntC(0)))
			}
			return append(cs, f(sg[len(sg)-1].V)...)
		}
		child := m.iface("RuleContext", "nnnode", Sym("child", Int))
		m.prove(lemma{fn: "BaseParserRuleContext.AddChild", st: x.st, recv: self, args: []Val{child}, mods: mods, post: func(s *State) []claim {
			return grown(s, func(v Val) []claim {
				g := ghostTerm(v)
				return []claim{{"the child", BoolC(g != nil && g.Key() == Sym("child", Int).Key())}}
			})
		}})
		t := m.iface("Token", "nntok", Sym("token", Int))
		m.prove(lemma{fn: "BaseParserRuleContext.AddTokenNode", st: x.st, recv: self, args: []Val{t}, mods: mods, post: func(s *State) []claim {
			return grown(s, func(v Val) []claim {
				iv, is := v.(IfaceV)
				return []claim{{"a leaf", BoolC(is && shortType(iv.T) == "*antlr.TerminalNodeImpl")}, same("its token", m.field(s, v, "symbol"), t), same("the result", s.Result, iv.V)}
			})
		}})
		m.prove(lemma{fn: "BaseParserRuleContext.AddErrorNode", st: x.st, recv: self, args: []Val{t}, mods: mods, post: func(s *State) []claim {
			return grown(s, func(v Val) []claim {
				iv, is := v.(IfaceV)
				return []claim{{"an error leaf", BoolC(is && shortType(iv.T) == "*antlr.ErrorNodeImpl")}, same("its token", m.field(s, v, "TerminalNodeImpl", "symbol"), t), same("the result", s.Result, iv.V)}
			})
		}})
		m.prove(lemma{fn: "BaseParserRuleContext.GetChildCount", st: x.st, recv: self, post: func(s *State) []claim { return []claim{same("the result", s.Result, x.len)} }})
	}
	s := st.Clone()
	k := Sym("k", Int)
	s.Assume(Le(IntC(0), k))
	s.Assume(Lt(k, n))
	m.prove(lemma{fn: "BaseParserRuleContext.GetChild", st: s, recv: self, args: []Val{k}, post: func(s *State) []claim { return []claim{same("the result", s.Result, at(k))} }})
	m.prove(lemma{fn: "BaseParserRuleContext.GetChildren", st: st, recv: self, post: func(s *State) []claim { return []claim{same("the result", s.Result, kids)} }})
	m.pick(st, self, kids, n)
	// conc(i) is the text of the first i children
	conc := func(i *Term) *Term { return App("conc", Str, i) }
	m.e.Loops["(*"+AntlrPath+".BaseParserRuleContext).GetText#0"] = &LoopInv{
		Havoc: func(e *Engine, s *State, f *Frame, x string) {
			i := Sym(x+"i", Int)
			f.Env[phiNamed(f.Block, "rangeindex")] = i
			f.Env[phiNamed(f.Block, "s")] = conc(Add(i, IntC(1)))
		},
		Inv: func(e *Engine, s *State, f *Frame) []*Term {
			i, _ := f.Env[phiNamed(f.Block, "rangeindex")].(*Term)
			t, _ := f.Env[phiNamed(f.Block, "s")].(*Term)
			if i == nil || t == nil {
				return []*Term{BoolC(false)}
			}
			// the definition of conc
			s.Assume(Eq(conc(IntC(0)), StrC("")))
			s.Assume(Eq(conc(Add(i, IntC(1))), Cat(Str, conc(i), App("ttext", Str, App("kid", Int, i)))))
			return []*Term{Le(IntC(-1), i), Lt(i, n), Eq(t, conc(Add(i, IntC(1))))}
		},
		Variant: func(e *Engine, s *State, f *Frame) *Term {
			return Sub(n, f.Env[phiNamed(f.Block, "rangeindex")].(*Term))
		},
	}
	m.prove(lemma{fn: "BaseParserRuleContext.GetText", st: st, recv: self, post: func(s *State) []claim {
		s.Assume(Eq(conc(IntC(0)), StrC("")))
		return []claim{same("the result", s.Result, conc(n))}
	}})
	for f, v := range map[string]Val{"GetStart": tok, "GetStop": tok, "GetRuleContext": PtrV{Obj: id}} {
		m.prove(lemma{fn: "BaseParserRuleContext." + f, st: st, recv: self, post: func(s *State) []claim {
			r := s.Result
			if iv, is := r.(IfaceV); is && f == "GetRuleContext" {
				r = iv.V
			}
			return []claim{same("the result", r, v)}
		}})
	}
	for f, x := range map[string]string{"SetStart": "start", "SetStop": "stop"} {
		t := m.iface("Token", "nntok", Sym("token", Int))
		m.prove(lemma{fn: "BaseParserRuleContext." + f, st: st, recv: self, args: []Val{t}, mods: map[int]string{id: x},
			post: func(s *State) []claim { return []claim{same("the token", m.field(s, self, x), t)} }})
	}
	for f, v := range map[string]Val{"GetParent": parent, "GetInvokingState": Sym("inv", Int), "GetRuleIndex": Sym("rule", Int)} {
		m.prove(lemma{fn: "BaseRuleContext." + f, st: st, recv: PtrV{Obj: rule}, post: func(s *State) []claim { return []claim{same("the result", s.Result, v)} }})
	}
	p := m.iface("ParserRuleContext", "nnnode", Sym("parent", Int))
	m.prove(lemma{fn: "NewBaseParserRuleContext", st: m.state(), args: []Val{p, Sym("inv", Int)}, post: func(s *State) []claim {
		g := ghostTerm(m.field(s, s.Result, "BaseRuleContext", "parentCtx"))
		return []claim{
			{"the parent", BoolC(g != nil && g.Key() == Sym("parent", Int).Key())},
			same("the state", m.field(s, s.Result, "BaseRuleContext", "invokingState"), Sym("inv", Int)),
			same("no children", m.field(s, s.Result, "children"), NilV{}),
		}
	}})
}

// pick: the leaves of a token type among the children.  count(j) is the number
// of those among the first j children, place(i) the index of the i-th.
func (m *lem) pick(st *State, self, kids Val, n *Term) {
	st = st.Clone()
	id := self.(PtrV).Obj
	kid := func(i *Term) *Term { return App("kid", Int, i) }
	ty := Sym("type", Int)
	leaf := func(i *Term) *Term { return App("isleaf", Bool, kid(i)) }
	match := func(i *Term) *Term { return And(leaf(i), Eq(App("symtype", Int, kid(i)), ty)) }
	count := func(j *Term) *Term { return App("count", Int, j) }
	place := func(i *Term) *Term { return App("place", Int, i) }
	at := func(i *Term) Val {
		t := kid(i)
		return IfaceV{T: m.typ("Tree"), V: GhostV{Kind: "nnchild", ID: t.Key(), D: rsome{rterm{t, nil}, func(t types.Type) *Term {
			if shortType(t) != "antlr.TerminalNode" {
				return Sym("another type", Bool)
			}
			return leaf(i)
		}}}}
	}
	m.e.Ghosts["nnchild.GetSymbol"] = func(c *Call) []Out {
		return ok(c, m.iface("Token", "nnsym", ghostTerm(c.Recv)))
	}
	m.e.Ghosts["nnsym.GetTokenType"] = func(c *Call) []Out { return ok(c, App("symtype", Int, ghostTerm(c.Recv))) }
	c := st.Heap[id]
	sv := StructV{F: append([]Val{}, c.V.(StructV).F...)}
	sv.F[fieldIndex(c.T, "children")] = m.list(st, "leaves or not", "Tree", n, at)
	st.Heap[id] = &Cell{T: c.T, V: sv, Owner: c.Owner}
	empty := st.Clone()
	sv = StructV{F: append([]Val{}, sv.F...)}
	sv.F[fieldIndex(c.T, "children")] = NilV{}
	empty.Heap[id] = &Cell{T: c.T, V: sv, Owner: c.Owner}
	// the definitions of count and place, at j
	defs := func(s *State, j *Term) {
		b := Sub(j, IntC(1))
		s.Assume(Eq(count(IntC(0)), IntC(0)))
		s.Assume(Or(Le(j, IntC(0)), And(Not(match(b)), Eq(count(j), count(b))), And(match(b), Eq(count(j), Add(count(b), IntC(1))), Eq(place(count(b)), b))))
		s.Assume(Or(Not(match(j)), Eq(place(count(j)), j)))
	}
	// picked: the list holds the leaves among the first j children.
	picked := func(s *State, v Val, j *Term) *Term {
		sl, is := v.(SliceV)
		if !is {
			return BoolC(false)
		}
		sg, good := m.e.region(s, sl)
		switch {
		case !good || len(sg) > 2:
			return BoolC(false)
		case len(sg) == 0:
			return Eq(count(j), IntC(0))
		case len(sg) == 1 && sg[0].Name == "picked":
			return And(Eq(sl.Len, count(j)), Eq(sg[0].Len, sl.Len))
		case sg[len(sg)-1].Kind != "cell" || len(sg) == 2 && sg[0].Name != "picked":
			return BoolC(false)
		}
		t := ghostTerm(sg[len(sg)-1].V)
		if t == nil {
			return BoolC(false)
		}
		before := IntC(0)
		if len(sg) == 2 {
			before = sg[0].Len
		}
		return And(Eq(sl.Len, count(j)), Eq(before, Sub(sl.Len, IntC(1))), Eq(t, kid(place(before))))
	}
	j := func(f *Frame) *Term { t, _ := f.Env[phiNamed(f.Block, "j")].(*Term); return t }
	all := "(*" + AntlrPath + ".BaseParserRuleContext).GetTokens#0"
	lists := map[string]SliceV{}
	m.e.Loops[all] = &LoopInv{
		Havoc: func(e *Engine, s *State, f *Frame, x string) {
			i := Sym(x+"j", Int)
			f.Env[phiNamed(f.Block, "j")] = i
			// the same array at every turn, with what it holds then
			l, is := lists[x]
			if l2 := m.list(s, "picked", "TerminalNode", count(i), func(i *Term) Val { return at(place(i)) }); !is {
				l, lists[x] = l2, l2
			} else {
				s.Heap[l.Obj] = s.Heap[l2.Obj]
				delete(s.Heap, l2.Obj)
			}
			f.Env[phiNamed(f.Block, "tokens")] = l
		},
		Inv: func(e *Engine, s *State, f *Frame) []*Term {
			if j(f) == nil {
				return []*Term{BoolC(false)}
			}
			defs(s, j(f))
			return []*Term{Le(IntC(0), j(f)), Le(j(f), n), Le(IntC(0), count(j(f))), picked(s, f.Env[phiNamed(f.Block, "tokens")], j(f))}
		},
		Variant: func(e *Engine, s *State, f *Frame) *Term { return Sub(n, j(f)) },
	}
	m.prove(lemma{fn: "BaseParserRuleContext.GetTokens", st: st, recv: self, args: []Val{ty}, post: func(s *State) []claim {
		return []claim{{"the leaves of the type, in order", picked(s, s.Result, n)}}
	}})
	m.prove(lemma{fn: "BaseParserRuleContext.GetTokens", st: empty, recv: self, args: []Val{ty}, post: func(s *State) []claim {
		sl, is := s.Result.(SliceV)
		return []claim{{"none", And(BoolC(is && sl.Len != nil && sl.Len.IsInt() && sl.Len.N == 0))}}
	}})
	i0 := Sym("which", Int)
	st.Assume(Le(IntC(0), i0))
	one := "(*" + AntlrPath + ".BaseParserRuleContext).GetToken#0"
	m.e.Loops[one] = &LoopInv{
		Havoc: func(e *Engine, s *State, f *Frame, x string) {
			f.Env[phiNamed(f.Block, "j")] = Sym(x+"j", Int)
			f.Env[phiNamed(f.Block, "i")] = Sym(x+"i", Int)
		},
		Inv: func(e *Engine, s *State, f *Frame) []*Term {
			i, _ := f.Env[phiNamed(f.Block, "i")].(*Term)
			if j(f) == nil || i == nil {
				return []*Term{BoolC(false)}
			}
			defs(s, j(f))
			return []*Term{Le(IntC(0), j(f)), Le(j(f), n), Le(IntC(0), i), Eq(i, Sub(i0, count(j(f))))}
		},
		Variant: func(e *Engine, s *State, f *Frame) *Term { return Sub(n, j(f)) },
	}
	m.prove(lemma{fn: "BaseParserRuleContext.GetToken", st: st, recv: self, args: []Val{ty, i0}, post: func(s *State) []claim {
		if _, is := s.Result.(NilV); is {
			return []claim{{"there are no more", Le(count(n), i0)}}
		}
		t := ghostTerm(s.Result)
		if t == nil {
			return []claim{{"a child", BoolC(false)}}
		}
		return []claim{{"the leaf", And(Eq(t, kid(place(i0))), match(place(i0)))}}
	}})
	delete(m.e.Loops, all)
	delete(m.e.Loops, one)
}

// treeWalk: the walker calls itself by its contract, an induction on the tree.
func (m *lem) treeWalk() {
	st := m.state()
	n := Sym("children", Int)
	st.Assume(Le(IntC(0), n))
	m.put(st, "walked", IntC(0))
	l := m.iface("ParseTreeListener", "nnlistener", IntC(0))
	kind := func(kinds ...string) func(t types.Type) bool {
		return func(t types.Type) bool {
			for _, k := range kinds {
				if shortType(t) == "antlr."+k {
					return true
				}
			}
			return false
		}
	}
	node := func(id string, kinds ...string) Val {
		return IfaceV{T: m.typ("Tree"), V: GhostV{Kind: "nnnode", ID: id, D: rterm{IntC(0), kind(kinds...)}}}
	}
	var root Val
	gk := m.e.Ghosts
	is := func(c *Call, i int) bool {
		v := c.Args[i]
		if iv, is := v.(IfaceV); is {
			v = iv.V
		}
		return v.vkey() == root.(IfaceV).V.vkey()
	}
	for _, f := range []string{"VisitErrorNode", "VisitTerminal", "EnterEveryRule", "ExitEveryRule"} {
		gk["nnlistener."+f] = func(c *Call) []Out {
			if !is(c, 0) {
				return stuckOut(c, "%s of another node", f)
			}
			m.log(c.St, f)
			return ok(c, nil)
		}
	}
	for _, f := range []string{"EnterRule", "ExitRule"} {
		gk["nnnode."+f] = func(c *Call) []Out {
			if c.Args[0].vkey() != l.vkey() {
				return stuckOut(c, "%s with another listener", f)
			}
			m.log(c.St, f)
			return ok(c, nil)
		}
	}
	gk["nnnode.GetRuleContext"] = func(c *Call) []Out {
		return ok(c, IfaceV{T: m.typ("RuleContext"), V: c.Recv.(GhostV)})
	}
	gk["nnnode.GetChildCount"] = func(c *Call) []Out { return ok(c, n) }
	gk["nnnode.GetChild"] = func(c *Call) []Out { return ok(c, m.iface("Tree", "nnkid", c.Args[0].(*Term))) }
	m.e.Contracts["(*"+AntlrPath+".ParseTreeWalker).Walk"] = func(c *Call) []Out {
		t, isT := ghostTerm(c.Args[2]), false
		if iv, is := c.Args[2].(IfaceV); is {
			if g, is := iv.V.(GhostV); is {
				isT = g.Kind == "nnkid"
			}
		}
		if !isT || c.Args[1].vkey() != l.vkey() {
			return stuckOut(c, "walks something else")
		}
		w := m.get(c.St, "walked")
		if r := m.e.S.Valid(c.St.PC, And(Eq(t, w), Lt(t, n))); r != "unsat" {
			return stuckOut(c, "walks the children in another order")
		}
		if g := c.St.G.(*lghost); len(g.log) != 2 || g.log[1] != "EnterRule" {
			return stuckOut(c, "walks children before the node is entered")
		}
		m.put(c.St, "walked", Add(w, IntC(1)))
		return ok(c, nil)
	}
	m.e.Loops["(*"+AntlrPath+".ParseTreeWalker).Walk#0"] = &LoopInv{
		Havoc: func(e *Engine, s *State, f *Frame, x string) {
			f.Env[phiNamed(f.Block, "i")] = Sym(x+"i", Int)
			m.put(s, "walked", Sym(x+"i", Int))
		},
		Inv: func(e *Engine, s *State, f *Frame) []*Term {
			i, _ := f.Env[phiNamed(f.Block, "i")].(*Term)
			if i == nil {
				return []*Term{BoolC(false)}
			}
			return []*Term{Eq(i, m.get(s, "walked")), Le(IntC(0), i), Le(i, n)}
		},
		Variant: func(e *Engine, s *State, f *Frame) *Term { return Sub(n, f.Env[phiNamed(f.Block, "i")].(*Term)) },
	}
	w := m.obj(st, "ParseTreeWalker", nil)
	for _, x := range []struct {
		kinds []string
		calls string
		all   bool
	}{
		{[]string{"ErrorNode", "TerminalNode", "ParseTree", "Tree"}, "VisitErrorNode", false},
		{[]string{"TerminalNode", "ParseTree", "Tree"}, "VisitTerminal", false},
		{[]string{"RuleNode", "RuleContext", "ParserRuleContext", "ParseTree", "Tree"}, "EnterEveryRule EnterRule ExitRule ExitEveryRule", true},
	} {
		root = node("root", x.kinds...)
		m.prove(lemma{fn: "ParseTreeWalker.Walk", st: st, recv: PtrV{Obj: w}, args: []Val{l, root}, post: func(s *State) []claim {
			want := IntC(0)
			if x.all {
				want = n
			}
			calls := strings.Join(s.G.(*lghost).log, " ")
			return []claim{{"the calls: " + calls, BoolC(calls == x.calls)}, same("the children walked", m.get(s, "walked"), want)}
		}})
	}
}

func (m *lem) listeners() {
	st := m.state()
	n := Sym("listeners", Int)
	at := func(i *Term) Val { return m.iface("ErrorListener", "nnlistener", i) }
	ls := m.list(st, "listeners", "ErrorListener", n, at)
	id := m.obj(st, "BaseRecognizer", map[string]Val{"listeners": ls, "state": Sym("state", Int)})
	self := PtrV{Obj: id}
	x := m.iface("ErrorListener", "nnlistener", Sym("new", Int))
	m.prove(lemma{fn: "BaseRecognizer.AddErrorListener", st: st, recv: self, args: []Val{x}, mods: map[int]string{id: "listeners", ls.Obj: "*"}, post: func(s *State) []claim {
		sl, _ := m.field(s, self, "listeners").(SliceV)
		sg, good := []Seg(nil), false
		if sl.Len != nil {
			sg, good = m.e.region(s, sl)
		}
		if !good || len(sg) != 2 {
			return []claim{{"one more listener", BoolC(false)}}
		}
		return []claim{{"the listeners before", And(BoolC(sg[0].Name == "listeners"), Eq(sg[0].Len, n))}, same("the listener", sg[1].V, x)}
	}})
	m.prove(lemma{fn: "BaseRecognizer.RemoveErrorListeners", st: st, recv: self, mods: map[int]string{id: "listeners"}, post: func(s *State) []claim {
		sl, is := m.field(s, self, "listeners").(SliceV)
		if !is {
			return []claim{{"an empty list", BoolC(false)}}
		}
		return []claim{same("the number of listeners", sl.Len, IntC(0))}
	}})
	m.prove(lemma{fn: "BaseRecognizer.GetState", st: st, recv: self, post: func(s *State) []claim { return []claim{same("the result", s.Result, Sym("state", Int))} }})
	m.prove(lemma{fn: "BaseRecognizer.SetState", st: st, recv: self, args: []Val{Sym("new", Int)}, mods: map[int]string{id: "state"},
		post: func(s *State) []claim { return []claim{same("the state", m.field(s, self, "state"), Sym("new", Int))} }})
	sim := m.obj(st, "ParserATNSimulator", nil)
	fields := map[string]Val{
		"ctx": m.iface("ParserRuleContext", "nnnode", Sym("ctx", Int)), "input": m.iface("TokenStream", "nntokens", Sym("input", Int)),
		"errHandler": m.iface("ErrorStrategy", "nnhandler", Sym("handler", Int)), "Interpreter": PtrV{Obj: sim},
	}
	bp := PtrV{Obj: m.obj(st, "BaseParser", fields)}
	for _, g := range [][2]string{{"GetParserRuleContext", "ctx"}, {"GetTokenStream", "input"}, {"GetErrorHandler", "errHandler"}, {"GetInterpreter", "Interpreter"}} {
		m.prove(lemma{fn: "BaseParser." + g[0], st: st, recv: bp, post: func(s *State) []claim { return []claim{same("the result", s.Result, fields[g[1]])} }})
	}
}
