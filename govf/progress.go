package govf

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/spec"
)

// Termination of the rule functions, on every input, conforming or not.
//
// An event is the consumption of a token, or a run of the error strategy's
// Recover before the end of the input.  The contracts of the runtime make events
// well-founded: tokens are finitely many, and Recover either consumes a token
// or enlarges the set of states at which the present token was recovered from
// (its fail-safe), which only a matched token empties.  A rule function
// terminates if every turn of each of its loops has an event and if a chain of
// rule calls without an event between them cannot come back to the same rule
// with the same next token.
//
// The set of what the next token can be is tracked from the entry of the function.
type tghost struct {
	la    []int           // what the next token can be
	moved bool            // an event happened since the entry
	idle  map[string]bool // states at joins since the last event
	pred  map[int]int
	state *Term
	match bool // ReportMatch was called and the token not consumed yet
	ctx   Val
}

func (g *tghost) Clone() Ghost {
	n := *g
	n.idle = map[string]bool{}
	for k, v := range g.idle {
		n.idle[k] = v
	}
	n.pred = map[int]int{}
	for k, v := range g.pred {
		n.pred[k] = v
	}
	return &n
}

func (g *tghost) Key() string {
	return fmt.Sprint("t", g.la, g.moved, g.pred, g.state.Key(), g.match, g.ctx.vkey())
}

// PCall is a rule call without an event before it.
type PCall struct {
	From, To string
	La       int
}

// Progress proves that the rule functions terminate.
func (ps *Parser) Progress(r *Report, workers int) {
	var jobs []func()
	calls := map[string]map[PCall]bool{}
	for _, n := range spec.TheGrammar.Order {
		pr := ps.Rules[n]
		o := r.Oblige("parser/"+n+"/progress", "parser", "every loop of the function for rule "+n+" makes progress on every input, and entered with a token the rule can start with it does not return without progress", "C11")
		if pr.fn == nil {
			r.Fail(o, false, "no function for rule %s", n)
			continue
		}
		if pr.v.Par.Err != "" {
			r.Fail(o, true, "%s", pr.v.Par.Err)
			continue
		}
		cs := map[PCall]bool{}
		calls[n] = cs
		jobs = append(jobs, func() { pr.progress(ps, o, cs) })
	}
	Parallel(workers, jobs)
	o := r.Oblige("parser/recursion", "parser", "no rule function calls itself again, directly or not, without progress", "C11")
	// depth-first over (rule, token)
	type key struct {
		rule string
		la   int
	}
	next := map[key][]key{}
	for _, cs := range calls {
		for c := range cs {
			next[key{c.From, c.La}] = append(next[key{c.From, c.La}], key{c.To, c.La})
		}
	}
	state := map[key]int{}
	told := map[[2]string]bool{}
	var visit func(k key)
	visit = func(k key) {
		state[k] = 1
		for _, m := range next[k] {
			switch state[m] {
			case 0:
				visit(m)
			case 1:
				if told[[2]string{k.rule, m.rule}] {
					break
				}
				told[[2]string{k.rule, m.rule}] = true
				r.Hint(m.rule, "")
				r.Fail(o, false, "%s calls itself through %s with next token %s and no progress between", m.rule, k.rule, spec.TokenName(m.la))
			}
		}
		state[k] = 2
	}
	var ks []key
	for k := range next {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].rule != ks[j].rule {
			return ks[i].rule < ks[j].rule
		}
		return ks[i].la < ks[j].la
	})
	for _, k := range ks {
		if state[k] == 0 {
			visit(k)
		}
	}
}

func (pr *PRule) progress(ps *Parser, o *Obl, calls map[PCall]bool) {
	e, _ := pr.v.Engine()
	defer e.S.Close()
	defer pr.r.Absorb(e)
	save := pr.e
	pr.e = e
	defer func() { pr.e = save }()
	e.Dedupe = true
	pr.contracts(ps) // the accessors; the rest is replaced
	gh := func(st *State) *tghost { return st.G.(*tghost) }
	fail := func(st *State, f string, a ...any) {
		pr.r.Hint(pr.rule, "")
		pr.r.Fail(o, false, "%s [%s]", fmt.Sprintf(f, a...), e.where(st))
	}
	k := e.Contracts
	bp := "(*" + AntlrPath + ".BaseParser)."
	k["(*"+AntlrPath+".BaseRecognizer).SetState"] = func(c *Call) []Out {
		if t, isT := c.Args[1].(*Term); isT {
			gh(c.St).state = t
			return ok(c, nil)
		}
		return stuckOut(c, "SetState")
	}
	k["(*"+AntlrPath+".BaseRecognizer).GetState"] = func(c *Call) []Out {
		return ok(c, gh(c.St).state)
	}
	k[bp+"GetParserRuleContext"] = func(c *Call) []Out { return ok(c, gh(c.St).ctx) }
	k[bp+"EnterRule"] = func(c *Call) []Out {
		gh(c.St).ctx = c.Args[1]
		return ok(c, nil)
	}
	k[bp+"ExitRule"] = func(c *Call) []Out {
		gh(c.St).ctx = pr.parent()
		return ok(c, nil)
	}
	k[bp+"EnterOuterAlt"] = func(c *Call) []Out { return ok(c, nil) }
	tok := func() Val { return pr.iface("Token", "nntoken") }
	// split is the state with the next token among those of which ok holds.
	split := func(st *State, ok func(t int) bool) *State {
		var in []int
		for _, t := range gh(st).la {
			if ok(t) {
				in = append(in, t)
			}
		}
		if len(in) == 0 {
			return nil
		}
		s := st.Clone()
		gh(s).la = in
		return s
	}
	// event is what st becomes by an event.  At the end of the input there are
	// none: nothing can be consumed and recovery repeats itself.
	event := func(st *State) []*State {
		s := split(st, func(t int) bool { return t != -1 })
		if s == nil {
			return nil
		}
		g := gh(s)
		g.la, g.moved, g.pred, g.idle = pr.ntok, true, nil, nil
		return []*State{s}
	}
	atEnd := func(st *State) []*State {
		if s := split(st, func(t int) bool { return t == -1 }); s != nil {
			return []*State{s}
		}
		return nil
	}
	rets := func(ret Val, ss ...[]*State) (outs []Out) {
		for _, l := range ss {
			for _, s := range l {
				outs = append(outs, Out{St: s, Ret: ret})
			}
		}
		return outs
	}
	panicOut := func(st *State, exc string) Out {
		return Out{St: st, Panic: &PanicInfo{V: pr.excType(exc), Desc: exc}}
	}
	// inline is RecoverInline: it deletes a token, or makes one up if the next
	// token can come after it, or gives up.
	inline := func(st *State) []Out {
		outs := rets(tok(), event(st))
		after := func(t int) bool { return true }
		if t := gh(st).state; t.IsInt() {
			if n := pr.v.Par.ATN.Nodes[int(t.N)]; n != nil && n.Kind == "sym" && n.Rule == "" {
				f, nul := pr.atnFirst(n.Next)
				after = func(t int) bool { return f[t] || nul }
			}
		}
		if s := split(st, after); s != nil {
			outs = append(outs, Out{St: s, Ret: tok()})
		}
		return append(outs, panicOut(st, "InputMisMatchException"))
	}
	k[bp+"Match"] = func(c *Call) []Out {
		t, isT := c.Args[1].(*Term)
		if !isT || !t.IsInt() {
			return stuckOut(c, "Match of a symbolic token")
		}
		var outs []Out
		if s := split(c.St, func(x int) bool { return x == int(t.N) }); s != nil {
			outs = rets(tok(), atEnd(s), event(s))
		}
		if s := split(c.St, func(x int) bool { return x != int(t.N) }); s != nil {
			outs = append(outs, inline(s)...)
		}
		return outs
	}
	k[bp+"Consume"] = func(c *Call) []Out {
		gh(c.St).match = false
		return rets(tok(), atEnd(c.St), event(c.St))
	}
	k["(*"+AntlrPath+".ParserATNSimulator).AdaptivePredict"] = func(c *Call) []Out {
		d, isT := c.Args[2].(*Term)
		if !isT || !d.IsInt() {
			return stuckOut(c, "prediction of a symbolic decision")
		}
		atn := pr.v.Par.ATN
		if d.N < 0 || int(d.N) >= len(atn.Decisions) {
			return []Out{{St: c.St, Panic: &PanicInfo{V: pr.excType("NoViableAltException"), Desc: "index out of range: no such decision"}}}
		}
		if alt, done := gh(c.St).pred[int(d.N)]; done {
			return ok(c, IntC(int64(alt)))
		}
		x := atn.Nodes[atn.Decisions[d.N]]
		for x.Kind == "eps" {
			x = x.Next
		}
		alts := []*Node{x}
		if x.Kind == "dec" {
			alts = x.Alts
		}
		var outs []Out
		for i, a := range alts {
			f, nul := pr.atnFirst(a)
			s := split(c.St, func(x int) bool { return f[x] || nul })
			if s == nil {
				continue
			}
			if gh(s).pred == nil {
				gh(s).pred = map[int]int{}
			}
			gh(s).pred[int(d.N)] = i + 1
			outs = append(outs, Out{St: s, Ret: IntC(int64(i + 1))})
		}
		return append(outs, panicOut(c.St, "NoViableAltException"))
	}
	for _, n := range []string{"NoViableAltException", "InputMisMatchException", "FailedPredicateException", "BaseRecognitionException"} {
		k[AntlrPath+".New"+n] = func(c *Call) []Out { return ok(c, GhostV{Kind: "nnexc", ID: n}) }
	}
	gk := e.Ghosts
	gk["nnstream.LA"] = func(c *Call) []Out {
		if t, isT := c.Args[0].(*Term); !isT || !t.IsInt() || t.N != 1 {
			return stuckOut(c, "LA(%v)", c.Args[0].vkey())
		}
		var outs []Out
		for _, t := range gh(c.St).la {
			s := c.St.Clone()
			gh(s).la = []int{t}
			outs = append(outs, Out{St: s, Ret: IntC(int64(t))})
		}
		return outs
	}
	gk["nntoken.GetTokenType"] = func(c *Call) []Out { return gk["nnstream.LA"](&Call{E: c.E, St: c.St, Args: []Val{IntC(1)}}) }
	gk["nnhandler.Sync"] = func(c *Call) []Out {
		return append(rets(nil, event(c.St)), Out{St: c.St.Clone()}, panicOut(c.St, "InputMisMatchException"))
	}
	gk["nnhandler.RecoverInline"] = func(c *Call) []Out { return inline(c.St) }
	gk["nnhandler.ReportMatch"] = func(c *Call) []Out {
		gh(c.St).match = true
		return ok(c, nil)
	}
	gk["nnhandler.ReportError"] = func(c *Call) []Out { return ok(c, nil) }
	gk["nnhandler.Recover"] = func(c *Call) []Out {
		return rets(nil, atEnd(c.St), event(c.St))
	}
	for fn, rule := range ps.Funcs {
		k[fn.String()] = func(c *Call) []Out {
			ret := IfaceV{T: TypeOf(pr.v.P.Antlr, "ParserRuleContext"), V: GhostV{Kind: "nnctx", ID: "child"}}
			var outs []Out
			if g := gh(c.St); !g.moved {
				for _, t := range g.la {
					calls[PCall{pr.rule, rule, t}] = true
				}
			}
			if s := split(c.St, func(x int) bool { return !ps.starts(rule, x) }); s != nil {
				outs = append(outs, Out{St: s, Ret: ret})
			}
			if ps.starts(rule, -1) {
				outs = append(outs, rets(ret, atEnd(c.St))...)
			}
			outs = append(outs, rets(ret, event(c.St))...)
			return outs
		}
	}
	e.OnJoin = func(st *State, f *Frame, key string) {
		g := gh(st)
		if g.idle[key] {
			fail(st, "a turn of the loop makes no progress when the next token is %s", tokenNames(g.la))
		}
		if g.idle == nil {
			g.idle = map[string]bool{}
		}
		g.idle[key] = true
	}
	// After an event nothing is left to show of code without loops.
	for n, c := range k {
		k[n] = pr.prune(c)
	}
	for n, c := range gk {
		gk[n] = pr.prune(c)
	}
	st := pr.frame()
	st.G = &tghost{la: pr.ntok, state: Sym("S0", Int), ctx: pr.parent()}
	for _, s := range e.Run(st, pr.fn, nil, []Val{pr.self()}) {
		g := gh(s)
		switch {
		case s.Stuck != "":
			pr.r.Fail(o, true, "%s at %s", s.Stuck, s.StuckPos)
		case s.Panicked != nil: // the total obligation is about that
		case !g.moved:
			for _, t := range g.la {
				if t != -1 && ps.starts(pr.rule, t) {
					fail(s, "returns without progress when the next token is %s", spec.TokenName(t))
					break
				}
			}
		}
	}
}

func tokenNames(ts []int) string {
	var ns []string
	for _, t := range ts {
		ns = append(ns, spec.TokenName(t))
	}
	if len(ns) > 8 {
		ns = append(ns[:8], "...")
	}
	return strings.Join(ns, " or ")
}

// starts reports whether a rule that needs a token can start with t.
func (ps *Parser) starts(rule string, t int) bool {
	return !ps.G.Nullable[rule] && ps.G.First[rule][t]
}

// prune drops the outcomes of a contract after which nothing is left to show:
// there was an event and no loop is ahead.
func (pr *PRule) prune(c Contract) Contract {
	return func(x *Call) []Out {
		if x.St.G.(*tghost).match && !strings.HasSuffix(x.Name, ".Consume") {
			return stuckOut(x, "a match is reported but its token not consumed")
		}
		outs := c(x)
		var keep []Out
		for _, o := range outs {
			if o.Stuck == "" && o.Invoke == nil && o.St.G.(*tghost).moved && !x.E.loopAhead(o.St) {
				continue
			}
			keep = append(keep, o)
		}
		return keep
	}
}

// loopAhead reports whether the rest of the execution may run into a loop.
func (e *Engine) loopAhead(st *State) bool {
	for _, f := range st.Frames {
		for _, d := range f.Defers {
			if fv, is := d.fn.(FuncV); is && e.mayLoop(fv.F) {
				return true
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		stack := []*ssa.BasicBlock{f.Block}
		for len(stack) > 0 {
			b := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if b == nil || seen[b] {
				continue
			}
			seen[b] = true
			if e.blockLoops(f.Fn, b) {
				return true
			}
			stack = append(stack, b.Succs...)
		}
		if f.Fn.Recover != nil && e.blockLoops(f.Fn, f.Fn.Recover) {
			return true
		}
	}
	return false
}

// blockLoops reports whether b is in a loop or calls a function that may loop.
func (e *Engine) blockLoops(fn *ssa.Function, b *ssa.BasicBlock) bool {
	if e.isHead(fn, b) {
		return true
	}
	for _, ins := range b.Instrs {
		c, is := ins.(ssa.CallInstruction)
		if !is {
			continue
		}
		if g := c.Common().StaticCallee(); g != nil && e.Contracts[FuncName(g)] == nil && e.mayLoop(g) {
			return true
		}
	}
	return false
}

// mayLoop reports whether fn, executed by its body, may run a loop.
func (e *Engine) mayLoop(fn *ssa.Function) bool {
	r, done := e.loops[fn]
	if done {
		return r
	}
	if e.loops == nil {
		e.loops = map[*ssa.Function]bool{}
	}
	e.loops[fn] = true // recursion counts as a loop
	r = false
	for _, b := range fn.Blocks {
		if e.blockLoops(fn, b) {
			r = true
			break
		}
	}
	if !r {
		for _, a := range fn.AnonFuncs {
			r = r || e.mayLoop(a)
		}
	}
	e.loops[fn] = r
	return r
}
