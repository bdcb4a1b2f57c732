package govf

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/spec"
)

// pghost is the ghost state of a rule function.
//
//	qs    positions of the rule the consumed symbols can lead to (ignoring
//	      predictions): the function is sound if it only ever follows them
//	qc    position of the ordered-choice derivation of a viable input, nil once
//	      the input is known not to be viable: the function is complete if it
//	      only ever does the one thing such an input allows
type pghost struct {
	qs, qc  []*Node
	errd    bool // the error listener has been told
	la      int  // next token if known, else 0
	state   *Term
	entered int
	exited  int
	ctx     Val
	pred    map[int]int // decisions already predicted at this token
}

func (g *pghost) Clone() Ghost {
	n := *g
	n.pred = map[int]int{}
	for k, v := range g.pred {
		n.pred[k] = v
	}
	return &n
}
func (g *pghost) Key() string {
	c := "nil"
	if g.ctx != nil {
		c = g.ctx.vkey()
	}
	qc := "dead"
	if g.qc != nil {
		qc = nodesKey(g.qc)
	}
	return fmt.Sprintf("%v/%s/%s/%v/%d/%s/%d/%d/%s", g.pred, nodesKey(g.qs), qc, g.errd, g.la, g.state.Key(), g.entered, g.exited, c)
}

// PRule is the proof of one rule function.
type PRule struct {
	v            *Env
	r            *Report
	g            *Graphs
	e            *Engine
	rule         string
	fn           *ssa.Function
	sound        *Obl
	complete     *Obl
	total, calls *Obl
	pure         *Obl
	CtxType      types.Type // dynamic type of the node the function builds
	firsts       map[*Node]map[int]bool
	nulls        map[*Node]bool
	ntok         []int
	viable       int           // paths that follow a derivation to its end
	cells        map[int]*Cell // the parser at the entry of the function
}

// Parser is the outcome of the parser layer.
type Parser struct {
	G     *Graphs
	Rules map[string]*PRule
	Funcs map[*ssa.Function]string // rule functions
}

func upper(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// tokens lists the values LA can have.
func allTokens() []int {
	t := []int{-1}
	for i := range spec.Classes {
		t = append(t, i+1)
	}
	return t
}

// ruleProps adds the property whose constructs a rule is about.
func ruleProps(p, rule string) []string {
	x := ""
	switch rule {
	case "fws", "ctext", "ccontent", "comment", "cfws", "obsCtext", "obsFWS", "crlf", "wsp":
		x = "C14"
	case "quotedChar", "quotedPair", "qtext", "quotedContent", "quotedValue", "quotedString", "obsQtext", "obsQP":
		x = "C05"
	case "encodedWord", "charset", "encoding", "token", "tokenChar", "encodedText", "encodedChar":
		x = "C06"
	case "dateTime", "dayOfweek", "dayName", "day", "month", "hour", "minute", "second":
		x = "C08"
	case "zone", "offset", "obsZone":
		x = "C09"
	case "year":
		x = "C10"
	case "address", "group", "mailboxList", "addressList", "groupList", "obsMboxList", "obsAddrList", "obsGroupList":
		x = "C07"
	case "addrSpec", "localPart", "port", "domain", "domainLiteral", "dtext", "angleAddr", "obsAngleAddr", "obsRoute", "obsDomainList", "obsLocalPart", "obsDomain", "dotAtom":
		x = "C03"
	case "displayName", "unspaced", "nameAddr":
		x = "C04"
	}
	if x == "" {
		return []string{p}
	}
	return []string{p, x}
}

// ParserLayer proves the rule functions against the grammar.
func (v *Env) ParserLayer(r *Report, workers int) *Parser {
	ps := &Parser{G: BuildGraphs(spec.TheGrammar), Rules: map[string]*PRule{}, Funcs: map[*ssa.Function]string{}}
	top := r.Oblige("parser/static", "parser", "the generated parser is initialised with a well-formed transition network", "C02")
	s := v.Par
	if s.Err != "" {
		r.Fail(top, true, "%s", s.Err)
	} else {
		if s.ATN.Lexer {
			r.Fail(top, false, "not a parser network")
		}
		v.dfas(r, top, s)
		if err := s.ATN.BuildNodes(s.Rules); err != nil {
			r.Fail(top, true, "%v", err)
			s.Err = err.Error()
		}
	}
	pt := TypeOf(v.P.Parser, "RFC5322Parser")
	for _, n := range spec.TheGrammar.Order {
		pr := &PRule{v: v, r: r, g: ps.G, rule: n, firsts: map[*Node]map[int]bool{}, nulls: map[*Node]bool{}, ntok: allTokens()}
		ps.Rules[n] = pr
		pr.sound = r.Oblige("parser/"+n+"/sound", "parser", "the function for rule "+n+" only builds derivations of "+n+", or reports an error", ruleProps("C01", n)...)
		pr.complete = r.Oblige("parser/"+n+"/complete", "parser", "the function for rule "+n+" follows the derivation of every viable input and reports no error on it", ruleProps("C02", n)...)
		pr.pure = r.Oblige("parser/"+n+"/frame", "parser", "the function for rule "+n+" writes nothing but its parser and its node", "C12", "C16")
		pr.calls = r.Oblige("parser/"+n+"/calls", "parser", "the function for rule "+n+" recovers and matches only where the contracts of the runtime allow it", "C01", "C02", "C11")
		pr.total = r.Oblige("parser/"+n+"/total", "parser", "the function for rule "+n+" does not panic and leaves the parser as it found it", "C11")
		if pt != nil {
			pr.fn = v.P.Method(types.NewPointer(pt), v.P.Parser.Pkg, upper(n))
		}
		if pr.fn == nil {
			for _, o := range []*Obl{pr.sound, pr.complete, pr.total, pr.pure} {
				r.Fail(o, false, "no function for rule %s", n)
			}
			continue
		}
		ps.Funcs[pr.fn] = n
		at := r.Oblige("parser/"+n+"/atn", "parser", "the prediction network of rule "+n+" is the rule", ruleProps("C02", n)...)
		if s.Err != "" {
			r.Fail(at, true, "%s", s.Err)
			continue
		}
		idx := -1
		for i, x := range s.Rules {
			if x == n {
				idx = i
			}
		}
		if idx < 0 || idx >= len(s.ATN.RuleStart) {
			r.Fail(at, false, "rule %s is not in the prediction network", n)
		} else if ok, why := Bisim(s.ATN.Nodes[s.ATN.RuleStart[idx]], ps.G.Rules[n].Start); !ok {
			r.Fail(at, false, "%s", why)
		}
	}
	var jobs []func()
	for _, n := range spec.TheGrammar.Order {
		if pr := ps.Rules[n]; pr.fn != nil {
			jobs = append(jobs, func() { pr.prove(ps) })
		}
	}
	Parallel(workers, jobs)
	return ps
}

func (pr *PRule) fail(o *Obl, st *State, f string, a ...any) {
	pr.r.Hint(pr.rule, "")
	pr.r.Fail(o, false, "%s [%s]", fmt.Sprintf(f, a...), pr.e.where(st))
}

// feasible lists the positions that token t can start.
func (pr *PRule) feasible(q []*Node, t int) []*Node {
	var out []*Node
	for _, n := range closure(q) {
		f, ok := pr.firsts[n]
		if !ok {
			var nul bool
			f, nul = pr.g.first(n, nil)
			pr.firsts[n], pr.nulls[n] = f, nul
		}
		if f[t] || pr.nulls[n] && pr.g.Follow[pr.rule][t] {
			out = append(out, n)
		}
	}
	return out
}

func (pr *PRule) norm(g *pghost) {
	if g.qc != nil && g.la != 0 && len(pr.feasible(g.qc, g.la)) == 0 {
		g.qc = nil
	}
}

// dead marks the input as not viable.
func (g *pghost) dead() { g.qc = nil }

// only checks that a viable input allows nothing but the given action.
// match says whether a position is the action.
func (pr *PRule) only(st *State, g *pghost, what string, match func(*Node) bool) {
	if g.qc == nil {
		return
	}
	check := func(t int) bool {
		f := pr.feasible(g.qc, t)
		if len(f) == 0 {
			return true
		}
		if len(f) == 1 && match(f[0]) {
			return true
		}
		var ds []string
		for _, n := range f {
			ds = append(ds, n.describe())
		}
		pr.fail(pr.complete, st, "%s where the next token is %s and the grammar has %s", what, spec.TokenName(t), strings.Join(ds, " or "))
		return false
	}
	if g.la != 0 {
		if !check(g.la) {
			g.dead()
		}
		return
	}
	for _, t := range pr.ntok {
		if !check(t) {
			g.dead()
			return
		}
	}
}

func advance(q []*Node, match func(*Node) bool) []*Node {
	var out []*Node
	for _, n := range closure(q) {
		if n.Kind == "sym" && match(n) {
			out = append(out, n.Next)
		}
	}
	return out
}

func isTok(t int) func(*Node) bool {
	return func(n *Node) bool { return n.Kind == "sym" && n.Rule == "" && n.Set[t] }
}
func isRule(r string) func(*Node) bool {
	return func(n *Node) bool { return n.Kind == "sym" && n.Rule == r }
}
func isEnd(n *Node) bool { return n.Kind == "end" }

func (pr *PRule) gh(st *State) *pghost { return st.G.(*pghost) }

// consumed moves both positions over token t.
func (pr *PRule) consumed(st *State, t int) {
	g := pr.gh(st)
	if !g.errd {
		q := advance(g.qs, isTok(t))
		if len(q) == 0 {
			pr.fail(pr.sound, st, "consumes %s where the rule does not allow it", spec.TokenName(t))
			g.errd, q = true, nil
		}
		g.qs = q
	}
	if g.qc != nil {
		g.la = t
		pr.only(st, g, "consumes "+spec.TokenName(t), isTok(t))
		if g.qc != nil {
			g.qc = advance(g.qc, isTok(t))
			if len(g.qc) == 0 {
				g.qc = nil
			}
		}
	}
	g.la, g.pred = 0, nil
	if t == -1 {
		g.la = -1
	}
	pr.norm(g)
}

func (pr *PRule) excType(name string) Val {
	return IfaceV{T: types.NewPointer(TypeOf(pr.v.P.Antlr, name)), V: GhostV{Kind: "nnexc", ID: name}}
}

func (pr *PRule) iface(name, kind string) Val {
	return IfaceV{T: TypeOf(pr.v.P.Antlr, name), V: GhostV{Kind: kind, ID: kind}}
}

// refuse is an error report: a viable input must not see one.
func (pr *PRule) refuse(st *State, what string) {
	g := pr.gh(st)
	if g.qc == nil {
		return
	}
	for _, t := range pr.ntok {
		if g.la != 0 && t != g.la {
			continue
		}
		if len(pr.feasible(g.qc, t)) > 0 {
			pr.fail(pr.complete, st, "%s although the next token can be %s", what, spec.TokenName(t))
			break
		}
	}
	g.dead()
}

func (pr *PRule) contracts(ps *Parser) {
	e := pr.e
	k := e.Contracts
	bp := "(*" + AntlrPath + ".BaseParser)."
	stuckIf := func(c *Call, cond bool, f string, a ...any) []Out {
		if cond {
			return stuckOut(c, f, a...)
		}
		return nil
	}
	k["(*"+AntlrPath+".BaseRecognizer).SetState"] = func(c *Call) []Out {
		t, isT := c.Args[1].(*Term)
		if o := stuckIf(c, !isT, "SetState"); o != nil {
			return o
		}
		pr.gh(c.St).state = t
		return ok(c, nil)
	}
	k["(*"+AntlrPath+".BaseRecognizer).GetState"] = func(c *Call) []Out { return ok(c, pr.gh(c.St).state) }
	k[bp+"GetParserRuleContext"] = func(c *Call) []Out { return ok(c, pr.gh(c.St).ctx) }
	k[bp+"EnterRule"] = func(c *Call) []Out {
		g := pr.gh(c.St)
		iv, isI := c.Args[1].(IfaceV)
		if o := stuckIf(c, !isI, "EnterRule of %v", c.Args[1].vkey()); o != nil {
			return o
		}
		if g.entered > 0 {
			pr.fail(pr.sound, c.St, "enters the rule twice")
		}
		g.entered++
		// the new node: a fresh child of the current one, with the state of the call
		a1, t1 := e.getField(c.St, iv.V, iv.T, "BaseParserRuleContext")
		if a1 == nil {
			return stuckOut(c, "node without BaseParserRuleContext")
		}
		a2, t2 := e.getField(c.St, a1, t1, "BaseRuleContext")
		if a2 == nil {
			return stuckOut(c, "node without BaseRuleContext")
		}
		par, _ := e.getField(c.St, a2, t2, "parentCtx")
		inv, _ := e.getField(c.St, a2, t2, "invokingState")
		if par == nil || par.vkey() != g.ctx.vkey() {
			pr.fail(pr.sound, c.St, "the node is not a child of the calling rule's node")
		}
		if _, isNil := g.ctx.(NilV); !isNil && (inv == nil || inv.vkey() != "S0" && inv.vkey() != Sym("S0", Int).vkey()) {
			pr.fail(pr.complete, c.St, "the node does not record the state it was called from")
		}
		pr.r.mu.Lock()
		pr.CtxType = iv.T
		pr.r.mu.Unlock()
		if t, isT := c.Args[2].(*Term); isT {
			g.state = t
		}
		g.ctx = iv
		return ok(c, nil)
	}
	k[bp+"ExitRule"] = func(c *Call) []Out {
		g := pr.gh(c.St)
		g.exited++
		if g.entered == 0 {
			return stuckOut(c, "ExitRule before EnterRule")
		}
		g.ctx = pr.parent()
		g.state = Sym("S0", Int)
		return ok(c, nil)
	}
	k[bp+"EnterOuterAlt"] = func(c *Call) []Out {
		if c.Args[1].vkey() != pr.gh(c.St).ctx.vkey() {
			return stuckOut(c, "EnterOuterAlt replaces the node")
		}
		return ok(c, nil)
	}
	k[bp+"GetTokenStream"] = func(c *Call) []Out { return ok(c, pr.iface("TokenStream", "nnstream")) }
	k[bp+"GetErrorHandler"] = func(c *Call) []Out { return ok(c, pr.iface("ErrorStrategy", "nnhandler")) }
	k[bp+"GetInterpreter"] = func(c *Call) []Out { return ok(c, GhostV{Kind: "nninterp", ID: "i"}) }
	tok := func() Val { return pr.iface("Token", "nntoken") }
	errOut := pr.errOut
	panicOut := func(st *State, exc string) Out {
		pr.gh(st).dead()
		return Out{St: st, Panic: &PanicInfo{V: pr.excType(exc), Desc: exc}}
	}
	k[bp+"Match"] = func(c *Call) []Out {
		t, isT := c.Args[1].(*Term)
		if !isT || !t.IsInt() {
			return stuckOut(c, "Match of a symbolic token")
		}
		tn := int(t.N)
		g := pr.gh(c.St)
		pr.station(c.St, "matches a token", "")
		pr.fits(c.St, tn, 0)
		var outs []Out
		if g.la == 0 || g.la == tn {
			s := c.St.Clone()
			pr.consumed(s, tn)
			outs = append(outs, Out{St: s, Ret: tok()})
		}
		if g.la != tn {
			s := c.St.Clone()
			h := pr.gh(s)
			if h.qc != nil {
				for _, x := range pr.ntok {
					if x == tn || g.la != 0 && x != g.la {
						continue
					}
					if len(pr.feasible(h.qc, x)) > 0 {
						pr.fail(pr.complete, s, "demands %s although the next token can be %s", spec.TokenName(tn), spec.TokenName(x))
						break
					}
				}
				h.dead()
			}
			o := errOut(s.Clone())
			o.Ret = tok()
			outs = append(outs, o, panicOut(s, "InputMisMatchException"))
		}
		return outs
	}
	k[bp+"Consume"] = func(c *Call) []Out {
		g := pr.gh(c.St)
		if g.la != 0 {
			pr.consumed(c.St, g.la)
			return []Out{{St: c.St, Ret: tok()}}
		}
		var outs []Out
		for _, t := range pr.ntok {
			s := c.St.Clone()
			pr.gh(s).la = t
			pr.norm(pr.gh(s))
			pr.consumed(s, t)
			outs = append(outs, Out{St: s, Ret: tok()})
		}
		return outs
	}
	k["(*"+AntlrPath+".ParserATNSimulator).AdaptivePredict"] = func(c *Call) []Out {
		g := pr.gh(c.St)
		d, isT := c.Args[2].(*Term)
		if !isT || !d.IsInt() {
			return stuckOut(c, "prediction of a symbolic decision")
		}
		if c.Args[1].vkey() != pr.iface("TokenStream", "nnstream").vkey() {
			return stuckOut(c, "prediction on another stream")
		}
		if c.Args[3].vkey() != g.ctx.vkey() {
			pr.fail(pr.complete, c.St, "prediction in the context of another rule")
			g.dead()
		}
		atn := pr.v.Par.ATN
		if pr.v.Par.Err != "" || atn == nil {
			return stuckOut(c, "prediction without a network")
		}
		if d.N < 0 || int(d.N) >= len(atn.Decisions) {
			return []Out{{St: c.St, Panic: &PanicInfo{V: pr.excType("NoViableAltException"), Desc: "index out of range: no such decision"}}}
		}
		dn := atn.Nodes[atn.Decisions[d.N]]
		var alts int
		x := dn
		for x.Kind == "eps" {
			x = x.Next
		}
		if x.Kind == "dec" {
			alts = len(x.Alts)
		} else {
			alts = 1
		}
		if alt, done := g.pred[int(d.N)]; done {
			return ok(c, IntC(int64(alt))) // same input, same answer
		}
		var q *Node
		if g.qc != nil {
			for _, cand := range epsReach(g.qc) {
				if cand.Kind != x.Kind {
					continue
				}
				if same, _ := Bisim(x, cand); !same {
					continue
				}
				// nothing a viable input could do may lie outside
				in := map[*Node]bool{}
				for _, n := range closure([]*Node{cand}) {
					in[n] = true
				}
				good := true
				for _, t := range pr.ntok {
					if g.la != 0 && t != g.la {
						continue
					}
					for _, n := range pr.feasible(g.qc, t) {
						if !in[n] {
							good = false
						}
					}
				}
				if good {
					q = cand
					break
				}
			}
			if q == nil {
				pr.fail(pr.complete, c.St, "prediction %d is not the decision the grammar has here", d.N)
				g.dead()
			}
		}
		var outs []Out
		for i := 1; i <= alts; i++ {
			s := c.St.Clone()
			h := pr.gh(s)
			h.pred[int(d.N)] = i
			if q != nil {
				if q.Kind == "dec" {
					h.qc = []*Node{q.Alts[i-1]}
				} else {
					h.qc = []*Node{q}
				}
				pr.norm(h)
			}
			outs = append(outs, Out{St: s, Ret: IntC(int64(i))})
		}
		s := c.St.Clone()
		outs = append(outs, panicOut(s, "NoViableAltException"))
		return outs
	}
	k[AntlrPath+".NewNoViableAltException"] = func(c *Call) []Out {
		pr.refuse(c.St, "raises an error")
		return ok(c, GhostV{Kind: "nnexc", ID: "NoViableAltException"})
	}
	for _, n := range []string{"InputMisMatchException", "FailedPredicateException", "BaseRecognitionException"} {
		n := n
		k[AntlrPath+".New"+n] = func(c *Call) []Out {
			pr.refuse(c.St, "raises an error")
			return ok(c, GhostV{Kind: "nnexc", ID: n})
		}
	}
	gk := e.Ghosts
	gk["nnstream.LA"] = func(c *Call) []Out {
		g := pr.gh(c.St)
		if t, isT := c.Args[0].(*Term); !isT || !t.IsInt() || t.N != 1 {
			return stuckOut(c, "LA(%v)", c.Args[0].vkey())
		}
		if g.la != 0 {
			return ok(c, IntC(int64(g.la)))
		}
		var outs []Out
		for _, t := range pr.ntok {
			s := c.St.Clone()
			h := pr.gh(s)
			h.la = t
			pr.norm(h)
			outs = append(outs, Out{St: s, Ret: IntC(int64(t))})
		}
		return outs
	}
	gk["nnstream.LT"] = func(c *Call) []Out { return ok(c, tok()) }
	gk["nntoken.GetTokenType"] = func(c *Call) []Out { return gk["nnstream.LA"](&Call{E: c.E, St: c.St, Args: []Val{IntC(1)}}) }
	gk["nnhandler.Sync"] = func(c *Call) []Out {
		pr.station(c.St, "looks for errors", "")
		g := pr.gh(c.St)
		next := func(t int) bool { return true }
		atn := pr.v.Par.ATN
		if g.qc != nil && atn != nil && atn.Nodes != nil {
			if g.state.IsInt() && atn.Nodes[int(g.state.N)] != nil {
				n := atn.Nodes[int(g.state.N)]
				f, nul := pr.atnFirst(n)
				next = func(t int) bool { return nul || f[t] }
			}
			for _, t := range pr.ntok {
				if g.la != 0 && t != g.la {
					continue
				}
				if len(pr.feasible(g.qc, t)) > 0 && !next(t) {
					pr.fail(pr.complete, c.St, "error recovery starts at state %s although the next token can be %s", g.state.Key(), spec.TokenName(t))
					g.dead()
					break
				}
			}
		}
		s0 := c.St.Clone()
		outs := []Out{{St: s0}}
		if g.qc != nil && g.la != 0 {
			return outs
		}
		outs = append(outs, errOut(c.St.Clone()), panicOut(c.St, "InputMisMatchException"))
		return outs
	}
	gk["nnhandler.RecoverInline"] = func(c *Call) []Out {
		pr.station(c.St, "recovers in line", "")
		pr.fits(c.St, 0, pr.gh(c.St).la)
		pr.refuse(c.St, "starts error recovery")
		o := errOut(c.St.Clone())
		o.Ret = tok()
		return []Out{o, panicOut(c.St, "InputMisMatchException")}
	}
	gk["nnhandler.ReportMatch"] = func(c *Call) []Out { return ok(c, nil) }
	gk["nnhandler.ReportError"] = func(c *Call) []Out {
		pr.station(c.St, "reports an error", "")
		if iv, isI := c.Args[1].(IfaceV); !isI || reportable[shortType(iv.T)] == false {
			pr.r.Fail(pr.calls, true, "reports %s [%s]", c.Args[1].vkey(), e.where(c.St))
		}
		pr.refuse(c.St, "reports an error")
		h := pr.gh(c.St)
		h.errd, h.qs = true, nil
		return ok(c, nil)
	}
	gk["nnhandler.Recover"] = func(c *Call) []Out {
		pr.station(c.St, "recovers", "")
		g := pr.gh(c.St)
		if !g.errd {
			pr.fail(pr.sound, c.St, "skips input without reporting an error")
			g.errd, g.qs = true, nil
		}
		g.dead()
		g.la, g.pred = 0, nil
		return ok(c, nil)
	}
	// rule functions, by their contract
	for fn, rule := range ps.Funcs {
		k[fn.String()] = pr.ruleContract(rule)
	}
}

// station demands that the parser is at a state of the prediction network: the
// runtime looks it up, and panics if there is none.  With a rule, the state must
// be a call of that rule: the runtime takes its invoking states for such.
func (pr *PRule) station(st *State, what, rule string) {
	atn := pr.v.Par.ATN
	if pr.v.Par.Err != "" || atn == nil || atn.Nodes == nil {
		return
	}
	g := pr.gh(st)
	var n *Node
	if g.state.IsInt() {
		n = atn.Nodes[int(g.state.N)]
	}
	if n == nil || rule != "" && (n.Kind != "sym" || n.Rule != rule) {
		pr.fail(pr.total, st, "%s at state %s, which is not one the runtime can go on from", what, g.state.Key())
	}
}

// reportable are the exceptions that the contract of ReportError covers.
var reportable = map[string]bool{"*antlr.InputMisMatchException": true, "*antlr.NoViableAltException": true}

// fits checks what Match of a token and RecoverInline demand of the state: that
// it is one before tokens, the token to match the only one of them, the token
// that does not match none of them.
func (pr *PRule) fits(st *State, match, la int) {
	atn := pr.v.Par.ATN
	var n *Node
	if s := pr.gh(st).state; pr.v.Par.Err == "" && atn != nil && s.IsInt() {
		n = atn.Nodes[int(s.N)]
	}
	switch {
	case n == nil || n.Kind != "sym" || n.Rule != "":
		pr.r.Fail(pr.calls, true, "state %s is not one before tokens [%s]", pr.gh(st).state.Key(), pr.e.where(st))
	case match != 0 && (len(n.Set) != 1 || !n.Set[match]):
		pr.r.Fail(pr.calls, true, "matches %s at state %s, before other tokens [%s]", spec.TokenName(match), pr.gh(st).state.Key(), pr.e.where(st))
	case match == 0 && (la == 0 || n.Set[la]):
		pr.r.Fail(pr.calls, true, "recovers in line at state %s from what may fit there [%s]", pr.gh(st).state.Key(), pr.e.where(st))
	}
}

// ruleContract is the contract of a rule function as its callers see it.
func (pr *PRule) ruleContract(rule string) Contract {
	return func(c *Call) []Out {
		g := pr.gh(c.St)
		if c.Args[0].vkey() != pr.self().vkey() {
			return stuckOut(c, "rule function of another parser")
		}
		pr.station(c.St, "calls rule "+rule, rule)
		var target *Node
		if g.qc != nil {
			pr.only(c.St, g, "calls rule "+rule, isRule(rule))
		}
		if g.qc != nil {
			for _, n := range closure(g.qc) {
				if isRule(rule)(n) {
					target = n
				}
			}
			if target == nil {
				g.dead() // no viable input gets here
			}
		}
		if target != nil && pr.v.Par.Err == "" {
			// the state left for the prediction of what follows the call
			atn := pr.v.Par.ATN
			var n *Node
			if g.state.IsInt() {
				n = atn.Nodes[int(g.state.N)]
			}
			if n == nil || n.Kind != "sym" || n.Rule != rule {
				pr.fail(pr.complete, c.St, "calls rule %s from state %s, which is not a call of %s in the prediction network", rule, g.state.Key(), rule)
			} else if same, why := Bisim(n.Next, target.Next); !same {
				pr.fail(pr.complete, c.St, "calls rule %s from state %s, after which the prediction network continues differently: %s", rule, g.state.Key(), why)
			}
		}
		if !g.errd {
			q := advance(g.qs, isRule(rule))
			if len(q) == 0 {
				pr.fail(pr.sound, c.St, "calls rule %s where the rule does not allow it", rule)
				g.errd, q = true, nil
			}
			g.qs = q
		}
		if g.qc != nil {
			g.qc = []*Node{target.Next}
		}
		g.la, g.pred = 0, nil
		ret := IfaceV{T: TypeOf(pr.v.P.Antlr, "ParserRuleContext"), V: GhostV{Kind: "nnctx", ID: "child"}}
		s := c.St.Clone()
		o := pr.errOut(s)
		o.Ret = ret
		return []Out{{St: c.St, Ret: ret}, o}
	}
}

// errOut is the outcome "the error listener was told".
func (pr *PRule) errOut(st *State) Out {
	g := pr.gh(st)
	g.dead()
	g.errd, g.qs, g.pred = true, nil, nil
	g.la, g.pred = 0, nil
	return Out{St: st}
}

// atnFirst is nextTokens of the runtime: tokens and whether the end of the rule
// is reachable.
func (pr *PRule) atnFirst(n *Node) (map[int]bool, bool) {
	if f, ok := pr.firsts[n]; ok {
		return f, pr.nulls[n]
	}
	f, nul := pr.g.first(n, nil)
	pr.firsts[n], pr.nulls[n] = f, nul
	return f, nul
}

func epsReach(q []*Node) []*Node {
	seen := map[*Node]bool{}
	var out []*Node
	var f func(n *Node)
	f = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		out = append(out, n)
		switch n.Kind {
		case "dec":
			for _, a := range n.Alts {
				f(a)
			}
		case "eps":
			f(n.Next)
		}
	}
	for _, n := range q {
		f(n)
	}
	return out
}

// self is the parser object.
func (pr *PRule) self() Val { return PtrV{Obj: pr.v.Base.NextID + 1} }

// parent is the node of the calling rule.
func (pr *PRule) parent() Val {
	if pr.g.isStart(pr.rule) {
		return NilV{}
	}
	return IfaceV{T: TypeOf(pr.v.P.Antlr, "ParserRuleContext"), V: GhostV{Kind: "nnctx", ID: "parent"}}
}

func (g *Graphs) isStart(rule string) bool {
	for _, r := range g.Rules {
		for _, n := range r.Nodes {
			if n.Rule == rule {
				return false
			}
		}
	}
	return true
}

// ghostStruct is a struct whose fields are unknown.
func ghostStruct(t types.Type, kind string) StructV {
	s := t.Underlying().(*types.Struct)
	v := StructV{}
	for i := 0; i < s.NumFields(); i++ {
		v.F = append(v.F, GhostV{Kind: kind, ID: s.Field(i).Name()})
	}
	return v
}

func (pr *PRule) prove(ps *Parser) {
	e, _ := pr.v.Engine()
	defer e.S.Close()
	defer pr.r.Absorb(e)
	pr.e = e
	e.Dedupe = true
	e.P = pr.v.P
	pr.contracts(ps)
	for _, m := range []map[string]Contract{e.Contracts, e.Ghosts} {
		for n, k := range m {
			m[n] = func(c *Call) []Out {
				pr.intact(c.St)
				return k(c)
			}
		}
	}
	st := pr.frame()
	start := pr.g.Rules[pr.rule].Start
	st.G = &pghost{qs: []*Node{start}, qc: []*Node{start}, state: Sym("S0", Int), ctx: pr.parent()}
	for _, s := range e.Run(st, pr.fn, nil, []Val{pr.self()}) {
		pr.finish(s)
	}
	if pr.viable == 0 && pr.complete.OK {
		pr.fail(pr.complete, st, "no viable input gets through the function")
	}
}

// intact checks that the parser is written through the contracts only: its
// listeners, error strategy, interpreter, stream and tree building are what they
// were.
func (pr *PRule) intact(s *State) {
	for id, c := range pr.cells {
		if d := s.Heap[id]; d != c && d.V.vkey() != c.V.vkey() {
			for _, o := range []*Obl{pr.sound, pr.complete, pr.total, pr.pure} {
				pr.fail(o, s, "writes a field of the parser: %s became %s", c.V.vkey(), d.V.vkey())
			}
		}
	}
}

func (pr *PRule) finish(s *State) {
	g := pr.gh(s)
	if len(s.Impure) > 0 {
		pr.r.Fail(pr.pure, false, "%s", s.Impure[0])
	}
	switch {
	case s.Stuck != "":
		for _, o := range []*Obl{pr.sound, pr.complete, pr.total, pr.pure} {
			pr.r.Fail(o, true, "%s at %s", s.Stuck, s.StuckPos)
		}
		return
	case s.Panicked != nil:
		pr.r.Fail(pr.total, false, "panics: %s", s.Panicked.Desc)
		return
	}
	if g.entered != 1 || g.exited != 1 {
		pr.r.Fail(pr.total, false, "EnterRule %d times, ExitRule %d times", g.entered, g.exited)
		pr.r.Fail(pr.sound, false, "EnterRule %d times, ExitRule %d times", g.entered, g.exited)
	}
	if !g.errd {
		good := false
		for _, n := range closure(g.qs) {
			if n.Kind == "end" {
				good = true
			}
		}
		if !good {
			pr.r.Fail(pr.sound, false, "returns in the middle of the rule without reporting an error; it expects %s", describeAll(closure(g.qs)))
		}
	}
	if g.qc != nil && !g.errd {
		pr.viable++
	}
	if g.qc != nil {
		pr.only(s, g, "ends the rule", isEnd)
	}
	pr.intact(s)
	if iv, ok := s.Result.(IfaceV); !ok || !types.Identical(iv.T, pr.CtxType) {
		pr.r.Fail(pr.total, false, "does not return its node")
	}
}

func describeAll(ns []*Node) string {
	var p []string
	for _, n := range ns {
		p = append(p, n.describe())
	}
	sort.Strings(p)
	return strings.Join(p, " or ")
}

// frame is the state at the entry of a rule function: a parser of unknown
// content.
func (pr *PRule) frame() *State {
	st := pr.v.Base.Clone()
	pt := TypeOf(pr.v.P.Parser, "RFC5322Parser")
	bt := TypeOf(pr.v.P.Antlr, "BaseParser")
	rt := TypeOf(pr.v.P.Antlr, "BaseRecognizer")
	self := st.New(pt, nil, "fn")
	base := st.New(bt, nil, "fn")
	reco := st.New(rt, nil, "fn")
	st.Heap[reco] = &Cell{T: rt, V: ghostStruct(rt, "recognizerfield"), Owner: "fn"}
	bs := ghostStruct(bt, "parserfield")
	bs.F[fieldIndex(bt, "BaseRecognizer")] = PtrV{Obj: reco}
	st.Heap[base] = &Cell{T: bt, V: bs, Owner: "fn"}
	ss := ghostStruct(pt, "parserfield")
	if i := fieldIndex(pt, "BaseParser"); i >= 0 {
		ss.F[i] = PtrV{Obj: base}
	}
	st.Heap[self] = &Cell{T: pt, V: ss, Owner: "fn"}
	pr.cells = map[int]*Cell{}
	for _, id := range []int{self, base, reco} {
		pr.cells[id] = st.Heap[id]
	}
	return st
}
