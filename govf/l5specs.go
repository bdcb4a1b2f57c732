package govf

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// runtimeSpecs are the contracts of the parser runtime.
func runtimeSpecs() map[string]*rspec {
	specs := map[string]*rspec{}
	add := func(s *rspec) {
		if s.args == nil {
			s.args = func(rt *rt, st *State, i int) []Val { return []Val{rt.parser} }
		}
		specs[s.name] = s
	}
	none := func(rt *rt, st *State, i int) []Val { return nil }
	tok0 := func(x *rx) *Term { return ttype(x.pos0) }
	// misfit: the next token is not one the rule can go on with, nor can the
	// rule end here
	misfit := func(x *rx) *Term {
		n := nextSet(x.state)
		return And(Not(n.has(tok0(x))), Not(n.has(IntC(tokEpsilon))))
	}
	after := func(x *rx) *Term { return App("elem", Bool, App("nextctx", Int, App("target", Int, x.state)), tok0(x)) }
	isTokenAt := func(f func(x *rx) *Term) func(x *rx, v Val) *Term {
		return func(x *rx, v Val) *Term {
			if t := ghostTerm(v); t != nil {
				return Eq(t, f(x))
			}
			return nil
		}
	}
	tokenAt := func(f func(x *rx) *Term) func(x *rx) Val {
		return func(x *rx) Val { return x.rt.token(f(x)) }
	}
	here := func(x *rx) *Term { return x.pos0 }
	second := func(x *rx) *Term { return Add(x.pos0, IntC(1)) }
	made := func(x *rx) *Term { return IntC(-1) }
	someToken := func(x *rx, v Val) *Term { return BoolC(ghostTerm(v) != nil) }
	boolIs := func(b bool) (func(x *rx) Val, func(x *rx, v Val) *Term) {
		return func(x *rx) Val { return BoolC(b) }, func(x *rx, v Val) *Term {
			if t, is := v.(*Term); is && t.Sort == Bool {
				return Eq(t, BoolC(b))
			}
			return nil
		}
	}
	yes, isYes := boolIs(true)
	no, isNo := boolIs(false)
	isSet := func(x *rx, v Val) *Term { return BoolC(x.rt.set(x.st, v) != nil) }
	aSet := func(x *rx) Val { return x.rt.newSet(x.st, &rset{base: x.st.Fresh("set", Int)}) }
	isSome := func(x *rx, v Val) *Term {
		if s := x.rt.set(x.st, v); s != nil {
			return x.rt.some(x.st, s)
		}
		return nil
	}
	someSet := func(x *rx) Val {
		v := aSet(x)
		s := x.rt.set(x.st, v)
		x.st.Assume(s.has(witness(s)))
		return v
	}

	// -- parser
	add(&rspec{name: "BaseParser.NotifyErrorListeners", desc: "every error listener of the parser is told", open: true, kinds: 2,
		args: func(rt *rt, st *State, i int) []Val {
			if i == 1 {
				return []Val{Sym("msg", Str), NilV{}, NilV{}}
			}
			return []Val{Sym("msg", Str), rt.token(Sym("offending", Int)), NilV{}}
		},
		outs: []rout{{name: "tells", told: true}}})
	add(&rspec{name: "ProxyErrorListener.SyntaxError", desc: "each listener is told, once and in order", open: true,
		args: func(rt *rt, st *State, i int) []Val {
			return []Val{rt.parser, rt.token(Sym("offending", Int)), Sym("line", Int), Sym("column", Int), Sym("msg", Str), NilV{}}
		},
		self: func(x *rx, recv Val) string {
			if p, is := recv.(PtrV); is && x.st.Heap[p.Obj] != nil {
				if c := x.st.Heap[p.Obj]; fieldIndex(c.T, "delegates") >= 0 && x.rt.field(x.st, p.Obj, "delegates").vkey() == x.rt.field(x.st, x.rt.reco, "listeners").vkey() {
					return ""
				}
			}
			return "a dispatcher of other listeners"
		},
		outs: []rout{{name: "tells", told: true}}})
	add(&rspec{name: "BaseParser.Consume", desc: "one token is consumed unless it is the end, and becomes a leaf of the current node, an error leaf in error recovery mode", args: none,
		outs: []rout{
			{name: "token", move: "step", nodes: "token", when: func(x *rx) *Term { return BoolC(!x.em) }, ret: tokenAt(here), isRet: isTokenAt(here)},
			{name: "error", move: "step", nodes: "error", when: func(x *rx) *Term { return BoolC(x.em) }, ret: tokenAt(here), isRet: isTokenAt(here)},
		}})
	wanted := func(x *rx) *Term { return x.args[0].(*Term) }
	is := func(x *rx) *Term { return Eq(tok0(x), wanted(x)) }
	isnt := func(x *rx) *Term { return Not(is(x)) }
	add(&rspec{name: "BaseParser.Match", desc: "the wanted token is consumed into the tree; another one leads to a report or to an exception, without a token consumed unreported",
		args: func(rt *rt, st *State, i int) []Val { return []Val{Sym("wanted", Int)} },
		pre: func(x *rx) *Term {
			n := nextSet(x.state)
			return And(Or(Not(n.has(tok0(x))), is(x)), Not(n.has(IntC(tokEpsilon))))
		},
		outs: []rout{
			{name: "matches", em: "off", reset: true, move: "step", nodes: "token", when: is, ret: tokenAt(here), isRet: isTokenAt(here)},
			{name: "deletes", em: "off", reset: true, told: true, move: "some", nodes: "any", when: isnt, ret: tokenAt(second), isRet: someToken},
			{name: "makes up", em: "on", told: true, nodes: "any", when: func(x *rx) *Term { return And(isnt(x), after(x)) }, ret: tokenAt(made), isRet: someToken},
			{name: "gives up", exc: true, when: isnt},
		}})
	local := func(rt *rt, st *State, i int) []Val {
		n := Sym("local", Int)
		nodeFacts(st, n)
		st.Assume(Lt(App("inv", Int, n), rt.nstates))
		s := Sym("rulestate", Int)
		return []Val{rt.node(n), s, Sym("rule", Int)}
	}
	invoked := func(b bool, t *Term) *Term {
		c := Le(IntC(0), App("inv", Int, t))
		if b {
			return c
		}
		return Not(c)
	}
	add(&rspec{name: "BaseParser.EnterRule", desc: "the node becomes the current node and the last child of its parent", args: local, local: true,
		outs: []rout{
			{name: "inner", when: func(x *rx) *Term { return invoked(true, ghostTerm(x.args[0])) },
				adds: func(x *rx) string {
					up := x.rt.node(App("up", Int, ghostTerm(x.args[0]))).(IfaceV).V
					return "child " + x.args[0].vkey() + " of " + up.vkey()
				},
				ctx: func(x *rx) Val { return x.args[0] }, state: func(x *rx) Val { return x.args[1] }},
			{name: "root", when: func(x *rx) *Term { return invoked(false, ghostTerm(x.args[0])) },
				ctx: func(x *rx) Val { return x.args[0] }, state: func(x *rx) Val { return x.args[1] }},
		}})
	cur := func(x *rx) *Term { return ghostTerm(x.rt.ctx) }
	add(&rspec{name: "BaseParser.ExitRule", desc: "the parent becomes the current node again, and the state is that of the call", args: none, local: true,
		outs: []rout{
			{name: "inner", when: func(x *rx) *Term { return invoked(true, cur(x)) },
				ctx:   func(x *rx) Val { return x.rt.node(App("up", Int, cur(x))) },
				state: func(x *rx) Val { return App("inv", Int, cur(x)) }},
			{name: "root", when: func(x *rx) *Term { return invoked(false, cur(x)) },
				ctx:   func(x *rx) Val { return NilV{} },
				state: func(x *rx) Val { return App("inv", Int, cur(x)) }},
		}})
	add(&rspec{name: "BaseParser.EnterOuterAlt", desc: "the tree stays as it is when the node is the current one", local: true,
		args: func(rt *rt, st *State, i int) []Val { return []Val{rt.ctx, Sym("alt", Int)} },
		outs: []rout{{name: "same", ctx: func(x *rx) Val { return x.rt.ctx }, state: func(x *rx) Val { return x.state }}}})
	add(&rspec{name: "ATN.getExpectedTokens", desc: "the tokens that can follow; where the rule cannot end, those of the rule",
		args: func(rt *rt, st *State, i int) []Val { return []Val{rt.field(st, rt.reco, "state"), rt.ctx} },
		pre:  func(x *rx) *Term { return And(Le(IntC(0), x.args[0].(*Term)), Lt(x.args[0].(*Term), x.rt.nstates)) },
		outs: []rout{
			{name: "within", when: func(x *rx) *Term { return Not(nextSet(x.args[0].(*Term)).has(IntC(tokEpsilon))) },
				ret: func(x *rx) Val { return x.rt.newSet(x.st, nextSet(x.args[0].(*Term))) },
				isRet: func(x *rx, v Val) *Term {
					s := x.rt.set(x.st, v)
					return BoolC(s != nil && s.key() == nextSet(x.args[0].(*Term)).key())
				}},
			{name: "beyond", when: func(x *rx) *Term { return nextSet(x.args[0].(*Term)).has(IntC(tokEpsilon)) }, ret: someSet, isRet: isSome},
		}})

	// -- error strategy
	add(&rspec{name: "DefaultErrorStrategy.ReportMatch", desc: "error recovery ends", outs: []rout{{name: "ends", em: "off", reset: true}}})
	excs := []string{"InputMisMatchException", "NoViableAltException"}
	exc := func(rt *rt, st *State, i int) []Val {
		name := excs[i]
		an := rt.v.P.Antlr
		bt := TypeOf(an, "BaseRecognitionException")
		b := ghostStruct(bt, "nnfield")
		s := Sym("excstate", Int)
		st.Assume(Le(IntC(0), s))
		st.Assume(Lt(s, rt.nstates))
		for f, v := range map[string]Val{"message": Sym("message", Str), "recognizer": rt.parser, "offendingToken": rt.token(Sym("offending", Int)), "offendingState": s,
			"ctx": rt.node(Sym("excctx", Int))} {
			b.F[fieldIndex(bt, f)] = v
		}
		if i == 1 {
			b.F[fieldIndex(bt, "offendingToken")] = NilV{} // it has one of its own
		}
		nodeFacts(st, Sym("excctx", Int))
		bid := st.New(bt, b, "")
		t := TypeOf(an, name)
		x := ghostStruct(t, "nnfield")
		for f, v := range map[string]Val{"BaseRecognitionException": PtrV{Obj: bid}, "startToken": rt.token(Sym("start", Int)), "offendingToken": rt.token(Sym("offending", Int))} {
			if j := fieldIndex(t, f); j >= 0 {
				x.F[j] = v
			}
		}
		return []Val{rt.parser, IfaceV{T: types.NewPointer(t), V: PtrV{Obj: st.New(t, x, "")}}}
	}
	// what exc assumes of an exception
	for i, n := range excs {
		add(&rspec{name: "New" + n, desc: "an exception at the current token, node and state; nothing is changed",
			args: func(rt *rt, st *State, _ int) []Val {
				args := []Val{rt.parser}
				for len(args) < 6 && i == 1 {
					args = append(args, NilV{})
				}
				return args
			},
			outs: []rout{{name: "made", isRet: func(x *rx, v Val) *Term {
				p, is := v.(PtrV)
				if !is {
					return BoolC(false)
				}
				t := types.NewPointer(TypeOf(x.rt.v.P.Antlr, n)).String()
				b, is := x.rt.field(x.st, p.Obj, "BaseRecognitionException").(PtrV)
				if !is || types.NewPointer(x.st.Heap[p.Obj].T).String() != t {
					return BoolC(false)
				}
				f := func(o int, n string) string { return x.rt.field(x.st, o, n).vkey() }
				here := x.rt.token(x.pos0).vkey()
				good := f(b.Obj, "recognizer") == x.rt.parser.vkey() && f(b.Obj, "offendingState") == x.state.vkey() && f(b.Obj, "ctx") == x.rt.ctx.vkey()
				if i == 0 {
					good = good && f(b.Obj, "offendingToken") == here
				} else {
					good = good && f(b.Obj, "offendingToken") == "nil" && f(p.Obj, "offendingToken") == here && f(p.Obj, "startToken") == here
				}
				return BoolC(good)
			}}}})
	}
	add(&rspec{name: "DefaultErrorStrategy.ReportError", desc: "the listeners are told, now or when error recovery began", kinds: 2, args: exc,
		outs: []rout{{name: "reports", em: "on", told: true}}})
	for _, n := range []string{"ReportUnwantedToken", "ReportMissingToken"} {
		add(&rspec{name: "DefaultErrorStrategy." + n, desc: "the listeners are told, now or when error recovery began",
			outs: []rout{{name: "reports", em: "on", told: true}}})
	}
	add(&rspec{name: "DefaultErrorStrategy.consumeUntil", desc: "tokens are consumed until one of the set or the end; it returns",
		args: func(rt *rt, st *State, i int) []Val {
			return []Val{rt.parser, rt.newSet(st, &rset{base: Sym("until", Int)})}
		},
		outs: []rout{{name: "skips", move: "any", nodes: "any"}}})
	add(&rspec{name: "DefaultErrorStrategy.getErrorRecoverySet", desc: "a set is computed, nothing is changed; it returns",
		outs: []rout{{name: "set", ret: aSet, isRet: isSet}}})
	add(&rspec{name: "DefaultErrorStrategy.GetMissingSymbol", desc: "a token is made up, nothing is changed",
		outs: []rout{{name: "token", ret: tokenAt(made), isRet: isTokenAt(made)}}})
	add(&rspec{name: "DefaultErrorStrategy.SingleTokenInsertion", desc: "reports that a token is missing if the next one can come after it; nothing is consumed",
		outs: []rout{
			{name: "inserts", em: "on", told: true, when: after, ret: yes, isRet: isYes},
			{name: "no", ret: no, isRet: isNo},
		}})
	add(&rspec{name: "DefaultErrorStrategy.SingleTokenDeletion", desc: "reports and skips one token that is not the end, or does nothing", pre: misfit,
		outs: []rout{
			{name: "deletes", em: "off", reset: true, told: true, move: "one", nodes: "any", ret: tokenAt(second), isRet: isTokenAt(second)},
			{name: "no", ret: func(x *rx) Val { return NilV{} }, isRet: func(x *rx, v Val) *Term { return BoolC(v.vkey() == "nil") }},
		}})
	add(&rspec{name: "DefaultErrorStrategy.RecoverInline", desc: "a token is deleted or made up with a report, or an exception is raised and nothing is changed", pre: misfit,
		outs: []rout{
			{name: "deletes", em: "off", reset: true, told: true, move: "some", nodes: "any", ret: tokenAt(second), isRet: isTokenAt(second)},
			{name: "makes up", em: "on", told: true, when: after, ret: tokenAt(made), isRet: isTokenAt(made)},
			{name: "gives up", exc: true},
		}})
	lost := func(x *rx) *Term { return And(BoolC(!x.em), misfit(x)) }
	add(&rspec{name: "DefaultErrorStrategy.Sync", desc: "nothing is done where the next token fits; otherwise tokens are skipped with a report, or an exception is raised, or nothing is done",
		outs: []rout{
			{name: "nothing"},
			{name: "deletes", em: "off", reset: true, told: true, move: "one", nodes: "any", when: lost},
			{name: "skips", em: "on", told: true, move: "any", nodes: "any", when: lost},
			{name: "gives up", exc: true, when: lost},
		}})
	// The measure of recovery: a token is consumed, or the record of the states
	// at which this token was recovered from gets a new entry, or there are no
	// more tokens.
	recorded := func(x *rx, v Val) *Term {
		li, is := x.rt.field(x.st, x.rt.strat, "lastErrorIndex").(*Term)
		les := x.rt.set(x.st, x.rt.field(x.st, x.rt.strat, "lastErrorStates"))
		if !is || les == nil {
			return nil
		}
		before := &rset{}
		if s := x.rt.set(x.pre, x.les); s != nil {
			before = s
		}
		return And(Eq(li, x.pos0), BoolC(les.key() == (&rset{op: '+', v: x.state, p: before}).key()))
	}
	add(&rspec{name: "DefaultErrorStrategy.Recover", desc: "a token is consumed, or the record of the states recovered from at this token grows, or no token is left; it returns",
		args: func(rt *rt, st *State, i int) []Val { return []Val{rt.parser, NilV{}} },
		outs: []rout{{name: "progresses", grows: true, move: "any", nodes: "any", isRet: func(x *rx, v Val) *Term {
			fresh := Not(Eq(x.li, x.pos0))
			if s := x.rt.set(x.pre, x.les); s != nil {
				fresh = Or(fresh, Not(s.has(x.state)))
			} else {
				fresh = BoolC(true)
			}
			r := recorded(x, v)
			if r == nil {
				r = BoolC(false)
			}
			return Or(Lt(x.pos0, x.rt.gh(x.st).pos), Eq(tok0(x), IntC(tokEOF)), And(fresh, r))
		}}}})
	return specs
}

// loops are the contracts of the loops of the runtime.
func (rt *rt) loops() {
	an := AntlrPath
	e := rt.e
	e.Loops = map[string]*LoopInv{}
	mark := func(g *rghost) { g.nodes = []string{"*"} }
	e.Loops["(*"+an+".DefaultErrorStrategy).consumeUntil#0"] = &LoopInv{
		Havoc: func(e *Engine, st *State, f *Frame, id string) {
			g := rt.gh(st)
			g.pos = Sym(id+"pos", Int)
			rt.tokenFacts(st, g.pos)
			mark(g)
			f.Env[phiNamed(f.Block, "ttype")] = ttype(g.pos)
		},
		Inv: func(e *Engine, st *State, f *Frame) []*Term {
			g := rt.gh(st)
			t, _ := f.Env[phiNamed(f.Block, "ttype")].(*Term)
			if t == nil {
				return []*Term{BoolC(false)}
			}
			return []*Term{Le(Sym("pos", Int), g.pos), Le(g.pos, rt.last), Eq(t, ttype(g.pos))}
		},
		Variant: func(e *Engine, st *State, f *Frame) *Term { return Sub(rt.last, rt.gh(st).pos) },
	}
	e.Loops["(*"+an+".ProxyErrorListener).SyntaxError#0"] = &LoopInv{
		Havoc: func(e *Engine, st *State, f *Frame, id string) {
			i := Sym(id+"i", Int)
			f.Env[phiNamed(f.Block, "rangeindex")] = i
			rt.gh(st).upto = Add(i, IntC(1))
		},
		Inv: func(e *Engine, st *State, f *Frame) []*Term {
			i, _ := f.Env[phiNamed(f.Block, "rangeindex")].(*Term)
			if i == nil {
				return []*Term{BoolC(false)}
			}
			return []*Term{Le(IntC(-1), i), Lt(i, Sym("nlisteners", Int)), Eq(rt.gh(st).upto, Add(i, IntC(1)))}
		},
		Variant: func(e *Engine, st *State, f *Frame) *Term {
			return Sub(Sym("nlisteners", Int), f.Env[phiNamed(f.Block, "rangeindex")].(*Term))
		},
	}
	up := func(also func(st *State, f *Frame, id string)) *LoopInv {
		return &LoopInv{
			Havoc: func(e *Engine, st *State, f *Frame, id string) {
				g := rt.gh(st)
				n := Sym(id+"node", Int)
				nodeFacts(st, n)
				f.Env[phiNamed(f.Block, "ctx")] = rt.node(n)
				// every set made here has any content
				for _, k := range sortedKeys(g.sets) {
					if k != "les" {
						g.sets[k] = &rset{base: Sym(id+k, Int)}
					}
				}
				for k := range g.sets {
					var n int
					if fmt.Sscanf(k, "s%d", &n); n > 50 {
						delete(g.sets, k)
					}
				}
				g.setN = 50
				if ph := phiNamed(f.Block, "following"); ph != nil {
					g.sets["s50"] = &rset{base: Sym(id+"following", Int)}
					f.Env[ph] = GhostV{Kind: "nnset", ID: "s50"}
				}
				if also != nil {
					also(st, f, id)
				}
			},
			Inv: func(e *Engine, st *State, f *Frame) []*Term {
				n := ghostTerm(f.Env[phiNamed(f.Block, "ctx")])
				if n == nil {
					return []*Term{BoolC(false)}
				}
				ts := []*Term{Le(IntC(0), App("depth", Int, n))}
				if f.Fn.Name() != "getExpectedTokens" {
					return ts
				}
				// the last set looked at is not empty; what it has is in the result
				u := rt.set(st, f.Env[phiNamed(f.Block, "following")])
				var res *rset
				for v, x := range f.Env {
					if c, is := v.(*ssa.Call); is && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "NewIntervalSet" {
						res = rt.set(st, x)
					}
				}
				if u == nil || u.op != 0 || u.base == nil || res == nil {
					return []*Term{BoolC(false)}
				}
				w := witness(u)
				return append(ts, u.has(w), Or(Eq(w, IntC(tokEpsilon)), res.has(w)))
			},
			Variant: func(e *Engine, st *State, f *Frame) *Term {
				return App("depth", Int, ghostTerm(f.Env[phiNamed(f.Block, "ctx")]))
			},
		}
	}
	e.Loops["(*"+an+".DefaultErrorStrategy).getErrorRecoverySet#0"] = up(nil)
	e.Loops["(*"+an+".ATN).getExpectedTokens#0"] = up(nil)
}
