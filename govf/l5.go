package govf

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parser runtime.  L1 and L2 use the functions of the runtime that drive the
// rule functions by contract; here their bodies are proved against contracts
// over an abstract token stream.  Ghost state:
//
//	pos    index of the next token; the stream has tokens 0..last, of type
//	       ttype(i); the type is EOF for i = last and only there
//	told   the error listeners were told of an error
//	nodes  what was added to the tree
//	sets   content of the interval sets
//
// The invariant of the error strategy is that it is in error recovery mode only
// if the listeners were told.
type rghost struct {
	pos   *Term
	told  bool
	nodes []string
	sets  map[string]*rset
	setN  int
	upto  *Term    // listeners told so far, in a dispatch
	walk  []string // callbacks of the tree walker
	kids  *Term    // children walked
}

func (g *rghost) Clone() Ghost {
	n := *g
	n.nodes = append([]string{}, g.nodes...)
	n.walk = append([]string{}, g.walk...)
	n.sets = map[string]*rset{}
	for k, v := range g.sets {
		n.sets[k] = v
	}
	return &n
}

func (g *rghost) Key() string {
	var b strings.Builder
	fmt.Fprint(&b, "r", g.told, g.nodes, g.walk)
	for _, t := range []*Term{g.pos, g.upto, g.kids} {
		if t != nil {
			b.WriteString(t.Key())
		}
		b.WriteByte(';')
	}
	for _, k := range sortedKeys(g.sets) {
		b.WriteString(k + "=" + g.sets[k].key() + ";")
	}
	return b.String()
}

// rset is the content of an interval set: that of base, then operations.
type rset struct {
	base *Term // identity of a set of unknown content, nil if empty
	op   byte  // '+' or '-' an element, 'u' a set; 0 for a base
	v    *Term
	u, p *rset // u: the set added; p: before the operation
}

func (s *rset) key() string {
	if s.op == 0 {
		if s.base == nil {
			return "{}"
		}
		return s.base.Key()
	}
	k := s.p.key() + string(s.op)
	if s.u != nil {
		return k + "(" + s.u.key() + ")"
	}
	return k + s.v.Key()
}

func (s *rset) has(t *Term) *Term {
	switch s.op {
	case '+':
		return Or(s.p.has(t), Eq(s.v, t))
	case '-':
		return And(s.p.has(t), Not(Eq(s.v, t)))
	case 'u':
		return Or(s.p.has(t), s.u.has(t))
	}
	if s.base == nil {
		return BoolC(false)
	}
	return App("elem", Bool, s.base, t)
}

// rterm is an object of the environment known by a term.
type rterm struct {
	t  *Term
	is func(t types.Type) bool
}

// rsome is an object that may or may not be of a type.
type rsome struct {
	rterm
	is func(t types.Type) *Term
}

// If answers type assertions.
func (r rsome) If(t types.Type) *Term { return r.is(t) }

func (r rterm) Term() *Term { return r.t }

// Is answers type assertions.
func (r rterm) Is(t types.Type) (bool, bool) {
	if r.is == nil {
		return false, false
	}
	return r.is(t), true
}

const tokEOF, tokEpsilon = -1, -2

// rt is the proof of one runtime function.
type rt struct {
	v *Env
	r *Report
	e *Engine
	o *Obl

	self, base, reco, strat, atn, simu int
	parser                             Val // as the interface
	last, nstates                      *Term
	ctx                                Val
	specs                              map[string]*rspec
}

// rx is a call of a function under contract, seen from the contract.
type rx struct {
	rt             *rt
	pre, st        *State // before and after
	args           []Val
	pos0           *Term
	state          *Term
	em             bool
	les            Val
	li             *Term
	sym            func(name string) *Term
	nodes0, nodes1 []string
}

// rout is one of the things a function may do.
type rout struct {
	name  string
	exc   bool            // panics with an InputMisMatchException
	em    string          // error recovery mode afterwards: "" as before, "on", "off"
	told  bool            // the listeners are told
	reset bool            // the record of recoveries is emptied
	grows bool            // Recover
	move  string          // "" no token is consumed, "step" one unless at the end, "one", "some", "any"
	nodes string          // what the tree gets: "" nothing, "token", "error", "any"
	when  func(*rx) *Term // implied if this is done
	ret   func(*rx) Val   // the result
	isRet func(*rx, Val) *Term
	adds  func(*rx) string // exact nodes
	ctx   func(*rx) Val    // the node and the state of the parser
	state func(*rx) Val
}

// rspec is the contract of a runtime function.
type rspec struct {
	name  string
	desc  string
	kinds int                                  // kinds of arguments, if more than one
	args  func(rt *rt, st *State, i int) []Val // without the receiver
	em    string                               // "" any, "on", "off": required
	open  bool                                 // may be called between entering error recovery mode and the report
	self  func(x *rx, recv Val) string         // what is wrong with the receiver
	local bool                                 // changes the node and state of the parser
	pre   func(*rx) *Term                      // required, beyond the invariant
	outs  []rout
}

func (rt *rt) gh(st *State) *rghost { return st.G.(*rghost) }

func node(t *Term, typ types.Type) Val {
	return IfaceV{T: typ, V: GhostV{Kind: "nnnode", ID: t.Key(), D: rterm{t, func(types.Type) bool { return true }}}}
}

func (rt *rt) node(t *Term) Val {
	return node(t, TypeOf(rt.v.P.Antlr, "ParserRuleContext"))
}

func (rt *rt) token(t *Term) Val {
	return IfaceV{T: TypeOf(rt.v.P.Antlr, "Token"), V: GhostV{Kind: "nntok", ID: t.Key(), D: rterm{t: t}}}
}

func (rt *rt) atnState(t *Term) Val {
	return IfaceV{T: TypeOf(rt.v.P.Antlr, "ATNState"), V: GhostV{Kind: "nnatn", ID: t.Key(), D: rterm{t: t}}}
}

func ghostTerm(v Val) *Term {
	if iv, is := v.(IfaceV); is {
		v = iv.V
	}
	if g, is := v.(GhostV); is {
		if d, is := g.D.(termed); is {
			return d.Term()
		}
	}
	return nil
}

func ttype(i *Term) *Term { return App("ttype", Int, i) }

// tokenFacts are the facts about the token at index i.
func (rt *rt) tokenFacts(st *State, i *Term) {
	st.Assume(Le(IntC(-1), ttype(i)))
	st.Assume(Or(And(Eq(ttype(i), IntC(tokEOF)), Eq(i, rt.last)), And(Not(Eq(ttype(i), IntC(tokEOF))), Lt(i, rt.last))))
}

// nodeFacts: a node with an invoking state has a parent, which is less deep.
func nodeFacts(st *State, n *Term) {
	st.Assume(Le(IntC(0), App("depth", Int, n)))
}

// frame builds a parser in the middle of a parse.
func (rt *rt) frame(em, told bool, les Val) *State {
	st := rt.v.Base.Clone()
	an := rt.v.P.Antlr
	n := func(name string, own string) (int, *types.Named, StructV) {
		t := TypeOf(an, name)
		id := st.New(t, nil, own)
		return id, t.(*types.Named), ghostStruct(t, "nnfield")
	}
	set := func(t types.Type, s StructV, f string, v Val) {
		if i := fieldIndex(t, f); i >= 0 {
			s.F[i] = v
		}
	}
	rt.last, rt.nstates = Sym("last", Int), Sym("nstates", Int)
	st.Assume(Le(IntC(0), rt.last))
	pt := TypeOf(rt.v.P.Parser, "RFC5322Parser")
	rt.self = st.New(pt, nil, "fn")
	var bt, ct, rct, st5, at, bs *types.Named
	var b, c, rc, s5, a, bsv StructV
	rt.base, bt, b = n("BaseParser", "fn")
	rt.reco, rct, rc = n("BaseRecognizer", "fn")
	rt.strat, st5, s5 = n("DefaultErrorStrategy", "fn")
	rt.atn, at, a = n("ATN", "")
	rt.simu, ct, c = n("ParserATNSimulator", "")
	bsim, bs, bsv := n("BaseATNSimulator", "")

	ps := ghostStruct(pt, "nnfield")
	set(pt, ps, "BaseParser", PtrV{Obj: rt.base})
	st.Heap[rt.self] = &Cell{T: pt, V: ps, Owner: "fn"}
	rt.parser = IfaceV{T: types.NewPointer(pt), V: PtrV{Obj: rt.self}}

	ln := Sym("nlisteners", Int)
	st.Assume(Le(IntC(1), ln))
	lt := TypeOf(an, "ErrorListener")
	lid := st.New(types.NewSlice(lt), SegV{[]Seg{{Kind: "fn", Len: ln, Name: "listeners", At: func(i *Term) Val {
		return IfaceV{T: lt, V: GhostV{Kind: "nnlistener", ID: i.Key(), D: rterm{t: i}}}
	}}}}, "")
	set(rct, rc, "listeners", SliceV{lid, IntC(0), ln, ln})
	state := Sym("state", Int)
	st.Assume(Le(IntC(0), state))
	st.Assume(Lt(state, rt.nstates))
	set(rct, rc, "state", state)
	for _, f := range []string{"LiteralNames", "SymbolicNames", "RuleNames"} {
		nn := Sym("n"+f, Int)
		st.Assume(Le(IntC(0), nn))
		fid := st.New(types.NewSlice(types.Typ[types.String]), SegV{[]Seg{{Kind: "fn", Len: nn, Name: f, At: func(i *Term) Val {
			return App("ttext", Str, i)
		}}}}, "")
		set(rct, rc, f, SliceV{fid, IntC(0), nn, nn})
	}
	st.Heap[rt.reco] = &Cell{T: rct, V: rc, Owner: "fn"}

	rt.ctx = rt.node(Sym("ctx", Int))
	nodeFacts(st, Sym("ctx", Int))
	set(bt, b, "BaseRecognizer", PtrV{Obj: rt.reco})
	set(bt, b, "Interpreter", PtrV{Obj: rt.simu})
	set(bt, b, "BuildParseTrees", BoolC(true))
	set(bt, b, "input", IfaceV{T: TypeOf(an, "TokenStream"), V: GhostV{Kind: "nntokens", ID: "tokens", D: rterm{IntC(0), func(types.Type) bool { return true }}}})
	set(bt, b, "errHandler", IfaceV{T: types.NewPointer(st5), V: PtrV{Obj: rt.strat}})
	set(bt, b, "ctx", rt.ctx)
	set(bt, b, "tracer", NilV{})
	set(bt, b, "parseListeners", NilV{})
	set(bt, b, "_SyntaxErrors", Sym("nerrors", Int))
	st.Heap[rt.base] = &Cell{T: bt, V: b, Owner: "fn"}

	set(st5, s5, "errorRecoveryMode", BoolC(em))
	set(st5, s5, "lastErrorIndex", Sym("li", Int))
	set(st5, s5, "lastErrorStates", les)
	st.Heap[rt.strat] = &Cell{T: st5, V: s5, Owner: "fn"}

	set(ct, c, "BaseATNSimulator", PtrV{Obj: bsim})
	st.Heap[rt.simu] = &Cell{T: ct, V: c}
	set(bs, bsv, "atn", PtrV{Obj: rt.atn})
	st.Heap[bsim] = &Cell{T: bs, V: bsv}
	sid := st.New(types.NewSlice(TypeOf(an, "ATNState")), SegV{[]Seg{{Kind: "fn", Len: rt.nstates, Name: "states", At: func(i *Term) Val { return rt.atnState(i) }}}}, "")
	set(at, a, "states", SliceV{sid, IntC(0), rt.nstates, rt.nstates})
	st.Heap[rt.atn] = &Cell{T: at, V: a}

	pos := Sym("pos", Int)
	st.Assume(Le(IntC(0), pos))
	g := &rghost{pos: pos, told: told, sets: map[string]*rset{}}
	if lv, is := les.(GhostV); is {
		g.sets[lv.ID] = &rset{base: Sym("les", Int)}
	}
	st.G = g
	rt.tokenFacts(st, pos)
	return st
}

func (rt *rt) field(st *State, obj int, f string) Val {
	c := st.Heap[obj]
	return c.V.(StructV).F[fieldIndex(c.T, f)]
}

func (rt *rt) setField(st *State, obj int, f string, v Val) {
	c := st.Heap[obj]
	s := StructV{F: append([]Val{}, c.V.(StructV).F...)}
	s.F[fieldIndex(c.T, f)] = v
	st.Heap[obj] = &Cell{T: c.T, V: s, Owner: c.Owner}
}

// see describes a state to a contract.
func (rt *rt) see(st *State, args []Val) *rx {
	x := &rx{rt: rt, pre: st, st: st, args: args, pos0: rt.gh(st).pos, les: rt.field(st, rt.strat, "lastErrorStates")}
	x.state, _ = rt.field(st, rt.reco, "state").(*Term)
	x.li, _ = rt.field(st, rt.strat, "lastErrorIndex").(*Term)
	if b, is := rt.field(st, rt.strat, "errorRecoveryMode").(*Term); is {
		x.em = b.True()
	}
	x.nodes0 = rt.gh(st).nodes
	return x
}

// next are the tokens that can follow in the rule, from a state.
func nextSet(state *Term) *rset { return &rset{base: App("nextof", Int, state)} }

func (rt *rt) set(st *State, v Val) *rset {
	if g, is := v.(GhostV); is && g.Kind == "nnset" {
		return rt.gh(st).sets[g.ID]
	}
	return nil
}

func (rt *rt) newSet(st *State, s *rset) Val {
	g := rt.gh(st)
	g.setN++
	id := fmt.Sprintf("s%d", g.setN)
	g.sets[id] = s
	if s.op == 0 && s.base != nil && s.base.Op == "app" && s.base.S == "nextof" {
		// obligation runtime/network/next: something can follow
		st.Assume(s.has(witness(s)))
	}
	return GhostV{Kind: "nnset", ID: id}
}

// witness is an element of a set of unknown content that is not empty.
func witness(s *rset) *Term { return App("witness", Int, s.base) }

// some says that a set is not empty.
func (rt *rt) some(st *State, s *rset) *Term {
	t := BoolC(false)
	for _, k := range sortedKeys(rt.gh(st).sets) {
		if u := rt.gh(st).sets[k]; u.op == 0 && u.base != nil {
			t = Or(t, s.has(witness(u)))
		}
	}
	for u := s; u.op != 0; u = u.p {
		if u.op == '+' {
			t = Or(t, s.has(u.v))
		}
	}
	return t
}

// environment installs the contracts of what the runtime functions use.
func (rt *rt) environment() {
	e := rt.e
	k, gk := e.Contracts, e.Ghosts
	an := AntlrPath
	// the token stream
	at := func(c *Call, n int64) (*Term, *Term) { // index, or nil; and a condition that there is one
		g := rt.gh(c.St)
		switch {
		case n == 1:
			return g.pos, BoolC(true)
		case n == 2:
			return Ite(Lt(g.pos, rt.last), Add(g.pos, IntC(1)), g.pos), BoolC(true)
		case n == -1:
			return Sub(g.pos, IntC(1)), Lt(IntC(0), g.pos)
		}
		return nil, nil
	}
	lt := func(c *Call, f func(s *State, i *Term) Val) []Out {
		n, is := c.Args[0].(*Term)
		if !is || !n.IsInt() {
			return stuckOut(c, "LT of an unknown offset")
		}
		i, cond := at(c, n.N)
		if i == nil {
			return stuckOut(c, "LT(%d)", n.N)
		}
		var outs []Out
		if !cond.True() {
			s := c.St.Clone()
			s.Assume(Not(cond))
			outs = append(outs, Out{St: s, Ret: NilV{}})
			c.St.Assume(cond)
		}
		rt.tokenFacts(c.St, i)
		return append(outs, Out{St: c.St, Ret: f(c.St, i)})
	}
	gk["nntokens.LT"] = func(c *Call) []Out { return lt(c, func(s *State, i *Term) Val { return rt.token(i) }) }
	gk["nntokens.LA"] = func(c *Call) []Out { return lt(c, func(s *State, i *Term) Val { return ttype(i) }) }
	gk["nntokens.Index"] = func(c *Call) []Out { return ok(c, rt.gh(c.St).pos) }
	gk["nntokens.Consume"] = func(c *Call) []Out {
		g := rt.gh(c.St)
		if r := e.S.Valid(c.St.PC, Not(Eq(ttype(g.pos), IntC(tokEOF)))); r != "unsat" {
			return []Out{{St: c.St, Panic: &PanicInfo{V: StrC("cannot consume EOF"), Desc: "cannot consume EOF"}}}
		}
		g.pos = Add(g.pos, IntC(1))
		rt.tokenFacts(c.St, g.pos)
		return ok(c, nil)
	}
	gk["nntokens.GetTextFromTokens"] = func(c *Call) []Out { return ok(c, c.St.Fresh("text", Str)) }
	gk["nntokens.GetTokenSource"] = func(c *Call) []Out {
		return ok(c, IfaceV{T: TypeOf(rt.v.P.Antlr, "TokenSource"), V: GhostV{Kind: "nnsource", ID: "s"}})
	}
	gk["nnsource.GetTokenFactory"] = func(c *Call) []Out {
		return ok(c, IfaceV{T: TypeOf(rt.v.P.Antlr, "TokenFactory"), V: GhostV{Kind: "nnfactory", ID: "f"}})
	}
	gk["nnfactory.Create"] = func(c *Call) []Out { return ok(c, rt.token(IntC(-1))) }
	// tokens
	gk["nntok.GetTokenType"] = func(c *Call) []Out { return ok(c, ttype(ghostTerm(c.Recv))) }
	gk["nntok.GetTokenIndex"] = func(c *Call) []Out { return ok(c, ghostTerm(c.Recv)) }
	gk["nntok.GetText"] = func(c *Call) []Out { return ok(c, App("ttext", Str, ghostTerm(c.Recv))) }
	for _, m := range []string{"GetLine", "GetColumn"} {
		gk["nntok."+m] = func(c *Call) []Out { return ok(c, c.St.Fresh("at", Int)) }
	}
	gk["nntok.GetSource"] = func(c *Call) []Out { return ok(c, GhostV{Kind: "nnpair", ID: "p"}) }
	k["strconv.Itoa"] = func(c *Call) []Out { return ok(c, c.St.Fresh("number", Str)) }
	// interval sets
	is := "(*" + an + ".IntervalSet)."
	setOf := func(c *Call, f func(s *rset) []Out) []Out {
		if s := rt.set(c.St, c.Args[0]); s != nil {
			return f(s)
		}
		return stuckOut(c, "set %s", c.Args[0].vkey())
	}
	// what the lemmas on interval sets ask for
	upd := func(c *Call, s *rset, pre *Term) []Out {
		if b := rt.set(c.St, c.Args[0]).base; b != nil && b.Op == "app" && b.S == "nextof" {
			return stuckOut(c, "a set that the network keeps is changed")
		}
		if pre != nil && e.S.Valid(c.St.PC, pre) != "unsat" {
			return stuckOut(c, "an interval set gets or loses %v", s.v)
		}
		rt.gh(c.St).sets[c.Args[0].(GhostV).ID] = s
		return ok(c, c.Args[0])
	}
	k[an+".NewIntervalSet"] = func(c *Call) []Out { return ok(c, rt.newSet(c.St, &rset{})) }
	k[is+"contains"] = func(c *Call) []Out {
		return setOf(c, func(s *rset) []Out { return ok(c, s.has(c.Args[1].(*Term))) })
	}
	k[is+"addOne"] = func(c *Call) []Out {
		return setOf(c, func(s *rset) []Out {
			v := c.Args[1].(*Term)
			return upd(c, &rset{op: '+', v: v, p: s}, Le(IntC(ivMin), v))
		})
	}
	k[is+"removeOne"] = func(c *Call) []Out {
		return setOf(c, func(s *rset) []Out {
			v := c.Args[1].(*Term)
			return upd(c, &rset{op: '-', v: v, p: s}, Eq(v, IntC(ivMin)))
		})
	}
	k[is+"addSet"] = func(c *Call) []Out {
		return setOf(c, func(s *rset) []Out {
			u := rt.set(c.St, c.Args[1])
			if u == nil {
				return stuckOut(c, "addSet of %s", c.Args[1].vkey())
			}
			if c.Args[1].vkey() == c.Args[0].vkey() {
				return stuckOut(c, "addSet of a set to itself")
			}
			return upd(c, &rset{op: 'u', u: u, p: s}, nil)
		})
	}
	k[is+"first"] = func(c *Call) []Out { return ok(c, c.St.Fresh("first", Int)) }
	k[is+"StringVerbose"] = func(c *Call) []Out {
		return setOf(c, func(s *rset) []Out {
			if e.S.Valid(c.St.PC, rt.some(c.St, s)) != "unsat" {
				return stuckOut(c, "the text of a set that may be empty")
			}
			return ok(c, c.St.Fresh("set", Str))
		})
	}
	// the network
	k["(*"+an+".ATN).NextTokens"] = func(c *Call) []Out {
		t := ghostTerm(c.Args[1])
		if t == nil {
			return stuckOut(c, "NextTokens of %s", c.Args[1].vkey())
		}
		if _, isNil := c.Args[2].(NilV); isNil {
			return ok(c, rt.newSet(c.St, nextSet(t)))
		}
		return ok(c, rt.newSet(c.St, &rset{base: App("nextctx", Int, t)}))
	}
	gk["nnatn.GetStateType"] = func(c *Call) []Out { return ok(c, c.St.Fresh("kind", Int)) }
	gk["nnatn.GetTransitions"] = func(c *Call) []Out {
		t := ghostTerm(c.Recv)
		tt := TypeOf(rt.v.P.Antlr, "Transition")
		var v Val = IfaceV{T: tt, V: GhostV{Kind: "nntrans", ID: t.Key(), D: rterm{t: t}}}
		if t.Op == "app" && t.S == "inv" {
			// the state a rule was invoked from is a call of it
			rtt := TypeOf(rt.v.P.Antlr, "RuleTransition")
			s := ghostStruct(rtt, "nnfield")
			s.F[fieldIndex(rtt, "followState")] = rt.atnState(App("follow", Int, t))
			v = IfaceV{T: types.NewPointer(rtt), V: PtrV{Obj: c.St.New(rtt, s, "fn")}}
		}
		n := c.St.Fresh("ntrans", Int)
		c.St.Assume(Le(IntC(0), n))
		id := c.St.New(types.NewSlice(tt), SegV{[]Seg{{Kind: "cell", V: v, Len: IntC(1)}, {Kind: "spare", Len: n}}}, "")
		return ok(c, SliceV{id, IntC(0), Add(n, IntC(1)), Add(n, IntC(1))})
	}
	gk["nntrans.getTarget"] = func(c *Call) []Out { return ok(c, rt.atnState(App("target", Int, ghostTerm(c.Recv)))) }
	// nodes
	log := func(what string) Contract {
		return func(c *Call) []Out {
			g := rt.gh(c.St)
			g.nodes = append(g.nodes, what+" "+vkeys(c.Args)+" of "+c.Recv.vkey())
			return ok(c, GhostV{Kind: "nnnode", ID: "added"})
		}
	}
	gk["nnnode.AddTokenNode"] = log("token")
	gk["nnnode.AddErrorNode"] = log("error")
	gk["nnnode.AddChild"] = log("child")
	gk["nnnode.RemoveLastChild"] = log("remove")
	for _, m := range []string{"SetStart", "SetStop", "SetException", "SetAltNumber"} {
		gk["nnnode."+m] = func(c *Call) []Out { return ok(c, nil) }
	}
	gk["nnnode.GetInvokingState"] = func(c *Call) []Out {
		i := App("inv", Int, ghostTerm(c.Recv))
		c.St.Assume(Lt(i, rt.nstates))
		return ok(c, i)
	}
	gk["nnnode.GetParent"] = func(c *Call) []Out {
		n := ghostTerm(c.Recv)
		i := App("inv", Int, n)
		s := c.St.Clone()
		s.Assume(Lt(i, IntC(0)))
		c.St.Assume(Le(IntC(0), i))
		up := App("up", Int, n)
		nodeFacts(c.St, up)
		c.St.Assume(Lt(App("depth", Int, up), App("depth", Int, n)))
		return []Out{{St: s, Ret: NilV{}}, {St: c.St, Ret: rt.node(up)}}
	}
	// listeners
	gk["nnlistener.SyntaxError"] = func(c *Call) []Out {
		g := rt.gh(c.St)
		if g.upto == nil {
			return stuckOut(c, "a listener is told by itself")
		}
		if r := e.S.Valid(c.St.PC, Eq(ghostTerm(c.Recv), g.upto)); r != "unsat" {
			return stuckOut(c, "listener %v is told, expected %v", ghostTerm(c.Recv), g.upto)
		}
		g.upto = Add(g.upto, IntC(1))
		return ok(c, nil)
	}
}

// apply is a contract as callers see it.
func (rt *rt) apply(sp *rspec) Contract {
	return func(c *Call) []Out {
		st := c.St
		x := rt.see(st, c.Args[1:])
		if sp.em == "on" && !x.em || sp.em == "off" && x.em {
			return stuckOut(c, "%s in the wrong mode", sp.name)
		}
		if sp.self != nil {
			if why := sp.self(x, c.Args[0]); why != "" {
				return stuckOut(c, "%s", why)
			}
		}
		if sp.pre != nil {
			if r := rt.e.S.Valid(st.PC, sp.pre(x)); r != "unsat" {
				return stuckOut(c, "the precondition of %s is not shown: %v (%s)", sp.name, sp.pre(x), r)
			}
		}
		var outs []Out
		for _, o := range sp.outs {
			s := st.Clone()
			g := rt.gh(s)
			y := *x
			y.st = s
			p := g.pos
			next := func() *Term {
				n := s.Fresh("pos", Int)
				rt.tokenFacts(s, n)
				s.Assume(Le(n, rt.last))
				return n
			}
			switch o.move {
			case "step":
				g.pos = Ite(Lt(p, rt.last), Add(p, IntC(1)), p)
				rt.tokenFacts(s, g.pos)
			case "one":
				s.Assume(Lt(p, rt.last))
				g.pos = Add(p, IntC(1))
				rt.tokenFacts(s, g.pos)
			case "some", "any":
				n := next()
				if o.move == "some" {
					s.Assume(Lt(p, n))
				} else {
					s.Assume(Le(p, n))
				}
				g.pos = n
			}
			if o.told {
				g.told = true
			}
			switch o.em {
			case "on":
				rt.setField(s, rt.strat, "errorRecoveryMode", BoolC(true))
			case "off":
				rt.setField(s, rt.strat, "errorRecoveryMode", BoolC(false))
			}
			if o.reset {
				rt.setField(s, rt.strat, "lastErrorStates", NilV{})
				rt.setField(s, rt.strat, "lastErrorIndex", IntC(-1))
			}
			if o.grows {
				rt.setField(s, rt.strat, "lastErrorStates", rt.newSet(s, &rset{base: s.Fresh("les", Int)}))
				rt.setField(s, rt.strat, "lastErrorIndex", s.Fresh("li", Int))
			}
			if o.told {
				rt.setField(s, rt.base, "_SyntaxErrors", s.Fresh("nerrors", Int))
			}
			if o.nodes != "" {
				g.nodes = append(g.nodes, o.nodes)
			}
			if o.when != nil {
				t := o.when(&y)
				if t.False() {
					continue
				}
				s.Assume(t)
			}
			if o.exc {
				t := types.NewPointer(TypeOf(rt.v.P.Antlr, "InputMisMatchException"))
				outs = append(outs, Out{St: s, Panic: &PanicInfo{V: IfaceV{T: t, V: GhostV{Kind: "nnexc", ID: "InputMisMatchException"}}, Desc: "InputMisMatchException"}})
				continue
			}
			var ret Val
			if o.ret != nil {
				ret = o.ret(&y)
			}
			outs = append(outs, Out{St: s, Ret: ret})
		}
		return outs
	}
}

// does checks that what a path did is what o says; it returns why not.
func (rt *rt) does(x *rx, o *rout) string {
	s := x.st
	g := rt.gh(s)
	if (s.Panicked != nil) != o.exc {
		return "return or panic"
	}
	if o.exc {
		if iv, is := s.Panicked.V.(IfaceV); !is || shortType(iv.T) != "*antlr.InputMisMatchException" {
			return "another panic"
		}
	}
	holds := func(t *Term) bool { return rt.e.S.Valid(s.PC, t) == "unsat" }
	told0 := rt.gh(x.pre).told
	if g.told != (told0 || o.told) {
		return "telling the listeners"
	}
	em, _ := rt.field(s, rt.strat, "errorRecoveryMode").(*Term)
	want := BoolC(x.em)
	switch o.em {
	case "on":
		want = BoolC(true)
	case "off":
		want = BoolC(false)
	}
	if em == nil || !holds(Eq(em, want)) {
		return "error recovery mode"
	}
	if em.True() && !g.told {
		return "error recovery mode without a report"
	}
	les, li := rt.field(s, rt.strat, "lastErrorStates"), rt.field(s, rt.strat, "lastErrorIndex")
	switch {
	case o.reset:
		if les.vkey() != "nil" || li.vkey() != IntC(-1).vkey() {
			return "the record of recoveries"
		}
	case o.grows:
	default:
		same := les.vkey() == x.les.vkey() && li.vkey() == x.li.vkey()
		if a, b := rt.set(s, les), rt.set(x.pre, x.les); a != nil && b != nil && a.key() != b.key() {
			same = false
		}
		if !same {
			return "the record of recoveries"
		}
	}
	p, q := x.pos0, g.pos
	var mv *Term
	switch o.move {
	case "":
		mv = Eq(p, q)
	case "step":
		mv = Eq(q, Ite(Lt(p, rt.last), Add(p, IntC(1)), p))
	case "one":
		mv = And(Lt(p, rt.last), Eq(q, Add(p, IntC(1))))
	case "some":
		mv = And(Lt(p, q), Le(q, rt.last))
	case "any":
		mv = And(Le(p, q), Le(q, rt.last))
	}
	if !holds(mv) {
		return "tokens consumed"
	}
	if o.ctx != nil {
		if c := rt.field(s, rt.base, "ctx"); c.vkey() != o.ctx(x).vkey() {
			return "the node of the parser: " + c.vkey()
		}
	}
	if o.state != nil {
		if c, is := rt.field(s, rt.reco, "state").(*Term); !is || !holds(Eq(c, o.state(x).(*Term))) {
			return "the state of the parser"
		}
	}
	ns := g.nodes[len(x.nodes0):]
	nd := strings.Join(ns, "; ")
	tk := rt.token(p).vkey()
	ctx := rt.ctx.(IfaceV).V.vkey()
	switch {
	case o.adds != nil:
		if nd != o.adds(x) {
			return "nodes " + nd
		}
	case o.nodes == "":
		if nd != "" {
			return "nodes " + nd
		}
	case o.nodes != "any":
		if nd != o.nodes && nd != o.nodes+" "+tk+" of "+ctx {
			return "nodes " + nd
		}
	}
	if o.when != nil && !holds(o.when(x)) {
		return "the condition of it"
	}
	if o.isRet != nil {
		if t := o.isRet(x, s.Result); t == nil || !holds(t) {
			return "the result"
		}
	}
	return ""
}

// prove proves one function.
func (rt *rt) prove(sp *rspec) {
	fn := rt.function(sp.name)
	if fn == nil {
		rt.r.Fail(rt.o, true, "the runtime has no %s", sp.name)
		return
	}
	delete(rt.e.Contracts, FuncName(fn))
	type mode struct{ em, told bool }
	modes := []mode{{false, false}, {false, true}, {true, true}}
	if sp.open {
		modes = append(modes, mode{true, false})
	}
	for _, m := range modes {
		if sp.em == "on" && !m.em || sp.em == "off" && m.em {
			continue
		}
		for i := 0; i < 2*max(1, sp.kinds); i++ {
			var les Val = NilV{}
			if i%2 == 1 {
				les = GhostV{Kind: "nnset", ID: "les"}
			}
			st := rt.frame(m.em, m.told, les)
			var recv Val
			switch strings.SplitN(sp.name, ".", 2)[0] {
			case "BaseParser":
				recv = PtrV{Obj: rt.base}
			case "DefaultErrorStrategy":
				recv = PtrV{Obj: rt.strat}
			case "ATN":
				recv = PtrV{Obj: rt.atn}
			case "ProxyErrorListener":
				pt := TypeOf(rt.v.P.Antlr, "ProxyErrorListener")
				p := ghostStruct(pt, "nnfield")
				p.F[fieldIndex(pt, "delegates")] = rt.field(st, rt.reco, "listeners")
				recv = PtrV{Obj: st.New(pt, p, "")}
				rt.gh(st).upto = IntC(0)
			}
			args := sp.args(rt, st, i/2)
			x := rt.see(st.Clone(), args)
			if sp.pre != nil {
				st.Assume(sp.pre(x))
			}
			paths := 0
			all := args
			if recv != nil {
				all = append([]Val{recv}, args...)
			}
			for _, s := range rt.e.Run(st, fn, nil, all) {
				paths++
				if s.Stuck != "" {
					rt.r.Fail(rt.o, true, "%s at %s", s.Stuck, s.StuckPos)
					continue
				}
				if rt.e.S.Check(s.PC) == "unsat" {
					continue
				}
				if g := rt.gh(s); g.upto != nil {
					if r := rt.e.S.Valid(s.PC, Eq(g.upto, Sym("nlisteners", Int))); r != "unsat" {
						rt.r.Fail(rt.o, true, "not every listener is told")
					}
					g.upto, g.told = nil, true
				}
				y := *x
				y.st = s
				var why []string
				for i := range sp.outs {
					w := rt.does(&y, &sp.outs[i])
					if w == "" {
						why = nil
						break
					}
					why = append(why, sp.outs[i].name+": "+w)
				}
				if why != nil {
					what := "returns"
					if s.Panicked != nil {
						what = "panics (" + s.Panicked.Desc + ")"
					}
					rt.r.Fail(rt.o, true, "%s %s and does none of what its contract allows: %s", sp.name, what, strings.Join(why, "; "))
				}
				rt.framed(sp, x.pre, s, fn)
			}
			if paths == 0 {
				rt.r.Fail(rt.o, true, "no path through %s", sp.name)
			}
		}
	}
}

// framed checks that nothing but the strategy, the error count and what the
// call allocated was written.
func (rt *rt) framed(sp *rspec, pre, s *State, fn *ssa.Function) {
	if len(s.Impure) > 0 {
		rt.r.Fail(rt.o, true, "%s", s.Impure[0])
	}
	for id, c := range pre.Heap {
		d := s.Heap[id]
		if d == c || id == rt.strat || sp.local && id == rt.reco || d != nil && d.V.vkey() == c.V.vkey() {
			continue
		}
		if id == rt.base && d != nil {
			i := fieldIndex(c.T, "_SyntaxErrors")
			same := true
			for k, f := range c.V.(StructV).F {
				same = same && (k == i || sp.local && k == fieldIndex(c.T, "ctx") || f.vkey() == d.V.(StructV).F[k].vkey())
			}
			if same {
				continue
			}
		}
		rt.r.Fail(rt.o, true, "%s writes %s", fn, c.V.vkey())
	}
}

// function finds a function or method of the runtime.
func (rt *rt) function(name string) *ssa.Function {
	t, m, isM := strings.Cut(name, ".")
	if !isM {
		return rt.v.P.Antlr.Func(name)
	}
	ty := TypeOf(rt.v.P.Antlr, t)
	if ty == nil {
		return nil
	}
	return rt.v.P.Method(types.NewPointer(ty), rt.v.P.Antlr.Pkg, m)
}

// Runtime proves the contracts of the parser runtime.
func (v *Env) Runtime(r *Report, workers int) {
	specs := runtimeSpecs()
	var jobs []func()
	names := sortedKeys(specs)
	sort.Strings(names)
	for _, n := range names {
		sp := specs[n]
		o := r.Oblige("runtime/"+n, "runtime", sp.desc, "C01", "C02", "C11")
		jobs = append(jobs, func() {
			rt := &rt{v: v, r: r, o: o, specs: specs}
			e, _ := v.Engine()
			defer e.S.Close()
			defer r.Absorb(e)
			rt.e = e
			rt.environment()
			for m, s := range specs {
				if fn := rt.function(m); fn != nil && strings.Contains(m, ".") { // constructors are inlined
					e.Contracts[FuncName(fn)] = rt.apply(s)
				}
			}
			rt.loops()
			rt.prove(sp)
		})
	}
	Parallel(workers, jobs)
}
