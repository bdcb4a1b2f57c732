package govf

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// network runs the runtime's own deserialiser on the tables of /repo, and its
// computation of the next tokens of every state, by body, and compares the
// objects with the networks that the lexer and parser proofs use.
type network struct {
	v   *Env
	r   *Report
	e   *Engine
	s   *Static
	st  *State // after the deserialisation
	atn Val
	num []Val // the states
}

func (v *Env) netEngine() *Engine {
	e, _ := v.Engine()
	e.MaxSteps = 1 << 40
	e.MaxDepth = 5000
	e.TightCap = true
	glob := e.LoadGlob
	e.LoadGlob = func(st *State, g *ssa.Global) (Val, bool) {
		if g.Pkg == v.P.Antlr {
			return Zero(g.Type().(*types.Pointer).Elem()), true
		}
		return glob(st, g)
	}
	a := "(*" + AntlrPath + "."
	delete(e.Contracts, AntlrPath+".NewATNDeserializer")
	delete(e.Contracts, a+"ATNDeserializer).Deserialize")
	delete(e.Contracts, AntlrPath+".init")
	// the proof is about one goroutine; what the lock protects is a cache whose
	// content depends on the state only
	for _, m := range []string{"Lock", "Unlock"} {
		e.Contracts["(*sync.Mutex)."+m] = func(c *Call) []Out { return ok(c, nil) }
	}
	return e
}

// sole expects a single path that ends without a panic.
func sole(fs []*State) (*State, string) {
	if len(fs) != 1 {
		return nil, fmt.Sprintf("%d paths", len(fs))
	}
	st := fs[0]
	if st.Stuck != "" {
		return nil, st.Stuck + " at " + st.StuckPos
	}
	if st.Panicked != nil {
		return nil, "panics"
	}
	st.Done = false
	return st, ""
}

// read finds a field of the object v points to, through embedded pointers.
func (n *network) read(v Val, names ...string) Val {
	for _, name := range names {
		v = n.field(v, name)
	}
	return v
}

func (n *network) field(v Val, name string) Val {
	if i, is := v.(IfaceV); is {
		v = i.V
	}
	p, is := v.(PtrV)
	if !is || n.st.Heap[p.Obj] == nil || len(p.Path) > 0 {
		return nil
	}
	t, is := n.st.Heap[p.Obj].T.Underlying().(*types.Struct)
	sv, is2 := n.st.Heap[p.Obj].V.(StructV)
	if !is || !is2 {
		return nil
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return sv.F[i]
		}
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Embedded() {
			if x := n.field(sv.F[i], name); x != nil {
				return x
			}
		}
	}
	return nil
}

func (n *network) list(v Val) ([]Val, bool) {
	if _, isNil := v.(NilV); isNil {
		return nil, true
	}
	s, is := v.(SliceV)
	if !is {
		return nil, false
	}
	return n.e.sliceConst(n.st, s)
}

func (n *network) int(v Val) int {
	if t, is := v.(*Term); is && t.IsInt() {
		return int(t.N)
	}
	return -1 << 40
}

func typeName(v Val) string {
	if i, is := v.(IfaceV); is {
		return shortType(i.T)
	}
	return "nil"
}

// deserialise runs the deserialiser.
func (n *network) deserialise() string {
	e, p := n.e, n.v.P
	st, why := sole(e.Run(NewState(), p.Antlr.Func("init"), nil, nil))
	if why != "" {
		return "initialisation of the runtime: " + why
	}
	fn := p.Antlr.Func("NewATNDeserializer")
	if fn == nil {
		return "no deserialiser"
	}
	if st, why = sole(e.Run(st, fn, nil, []Val{NilV{}})); why != "" {
		return "NewATNDeserializer: " + why
	}
	d := st.Result
	sg := SegV{}
	for _, x := range n.s.Data {
		sg.Segs = append(sg.Segs, Seg{Kind: "cell", V: IntC(x), Len: IntC(1)})
	}
	k := IntC(int64(len(n.s.Data)))
	m := p.Prog.LookupMethod(fn.Signature.Results().At(0).Type(), p.Antlr.Pkg, "Deserialize")
	data := SliceV{st.New(m.Signature.Params().At(0).Type(), sg, ""), IntC(0), k, k}
	if st, why = sole(e.Run(st, m, nil, []Val{d, data})); why != "" {
		return "Deserialize: " + why
	}
	n.st, n.atn = st, st.Result
	var good bool
	if n.num, good = n.list(n.field(n.atn, "states")); !good {
		return "no list of states"
	}
	return ""
}

// kinds are the transitions by their serialised type.
var kinds = map[int]string{1: "EpsilonTransition", 2: "RangeTransition", 3: "RuleTransition", 5: "AtomTransition", 6: "ActionTransition", 7: "SetTransition"}

// state reports the number of the state v is, which must be the very object.
func (n *network) state(v Val) int {
	i := n.int(n.field(v, "stateNumber"))
	if i < 0 || i >= len(n.num) || v.vkey() != n.num[i].vkey() {
		return -1
	}
	return i
}

// numState is like state for a pointer that is not an interface.
func (n *network) numState(v Val) int {
	i := n.int(n.field(v, "stateNumber"))
	if i < 0 || i >= len(n.num) {
		return -1
	}
	if x, is := n.num[i].(IfaceV); !is || v.vkey() != x.V.vkey() {
		return -1
	}
	return i
}

// compare reports the first difference of the objects with the network.
func (n *network) compare() string {
	a := n.s.ATN
	bad := fmt.Sprintf
	if len(n.num) != len(a.Types) {
		return bad("%d states, expected %d", len(n.num), len(a.Types))
	}
	stops := make([][]int, len(a.RuleStart))
	for x := range a.Types {
		for _, e := range a.Edges[x] {
			if e.Type == 3 {
				stops[e.Rule] = append(stops[e.Rule], e.To)
			}
		}
	}
	ints := func(what string, v Val, want []int, f func(Val) int) string {
		xs, good := n.list(v)
		if !good || len(xs) != len(want) {
			return bad("%s: %d, expected %d", what, len(xs), len(want))
		}
		for i, x := range xs {
			if f(x) != want[i] {
				return bad("%s: entry %d is %d, expected %d", what, i, f(x), want[i])
			}
		}
		return ""
	}
	for x, ty := range a.Types {
		s := n.num[x]
		if ty == 0 {
			if _, isNil := s.(NilV); !isNil {
				return bad("state %d exists", x)
			}
			continue
		}
		if n.state(s) != x || n.int(n.field(s, "stateType")) != ty || n.int(n.field(s, "ruleIndex")) != a.RuleOf[x] {
			return bad("state %d is another", x)
		}
		if _, is := n.field(s, "NextTokenWithinRule").(NilV); !is {
			return bad("state %d has next tokens from the start", x)
		}
		ts, good := n.list(n.field(s, "transitions"))
		want := a.Edges[x]
		if ty == 7 {
			want = nil
			for _, to := range stops[a.RuleOf[x]] {
				want = append(want, Edge{Type: 1, To: to, Rule: -1, Eps: true})
			}
		}
		if !good || len(ts) != len(want) {
			return bad("state %d: %d transitions, expected %d", x, len(ts), len(want))
		}
		eps := len(want) > 0
		for i, t := range ts {
			w := want[i]
			if typeName(t) != "*antlr."+kinds[w.Type] {
				return bad("state %d, transition %d: a %s, expected a %s", x, i, typeName(t), kinds[w.Type])
			}
			to := n.state(n.field(t, "target"))
			if w.Type == 3 {
				if to != a.RuleStart[w.Rule] || n.int(n.field(t, "ruleIndex")) != w.Rule {
					return bad("state %d, transition %d: calls another rule", x, i)
				}
				to = n.state(n.field(t, "followState"))
			}
			if to != w.To {
				return bad("state %d, transition %d: leads to %d, expected %d", x, i, to, w.To)
			}
			isEps, isT := n.field(t, "isEpsilon").(*Term)
			if !isT || isEps.True() != (w.Eps || w.Type == 3) {
				return bad("state %d, transition %d: epsilon is %v", x, i, n.field(t, "isEpsilon"))
			}
			eps = eps && isEps.True()
			if why := n.matches(t, w); why != "" {
				return bad("state %d, transition %d: %s", x, i, why)
			}
		}
		if b, isT := n.field(s, "epsilonOnlyTransitions").(*Term); !isT || b.True() != eps {
			return bad("state %d: epsilon only is %v", x, n.field(s, "epsilonOnlyTransitions"))
		}
		if g, isT := n.field(s, "nonGreedy").(*Term); isT && g.True() != a.NonGreedy[x] {
			return bad("state %d: non-greedy is %v", x, g)
		}
		if g, isT := n.field(s, "isPrecedenceRule").(*Term); isT && g.True() {
			return bad("state %d begins a precedence rule", x)
		}
	}
	for i, d := range a.Decisions {
		if n.int(n.field(n.num[d], "decision")) != i {
			return bad("state %d: decision %d, expected %d", d, n.int(n.field(n.num[d], "decision")), i)
		}
	}
	var rs []int
	for i := range a.RuleStart {
		rs = append(rs, a.RuleStop[i])
	}
	for _, why := range []string{
		ints("decisions", n.field(n.atn, "DecisionToState"), a.Decisions, n.state),
		ints("rules", n.field(n.atn, "ruleToStartState"), a.RuleStart, n.numState),
		ints("ends of rules", n.field(n.atn, "ruleToStopState"), rs, n.numState),
		ints("tokens of rules", n.field(n.atn, "ruleToTokenType"), a.RuleTok, n.int),
		ints("modes", n.field(n.atn, "modeToStartState"), a.Modes, n.numState),
	} {
		if why != "" {
			return why
		}
	}
	if n.int(n.field(n.atn, "maxTokenType")) != a.MaxToken {
		return "another largest token"
	}
	if g := n.int(n.field(n.atn, "grammarType")); a.Lexer != (g == 0) {
		return bad("grammar type %d", g)
	}
	return ""
}

// matches proves that a transition is taken for the symbols of its set, and
// that its label is that set.
func (n *network) matches(t Val, w Edge) string {
	if w.Type == 6 {
		return ""
	}
	x := Sym("symbol", Int)
	var in []*Term
	for _, r := range w.Set {
		in = append(in, And(Le(IntC(int64(r[0])), x), Le(x, IntC(int64(r[1])))))
	}
	iv := t.(IfaceV)
	run := func(name string, args ...Val) ([]*State, *ssa.Function) {
		m := n.v.P.Prog.LookupMethod(iv.T, n.v.P.Antlr.Pkg, name)
		return n.e.Run(n.st.Clone(), m, nil, append([]Val{iv.V}, args...)), m
	}
	fs, _ := run("Matches", x, IntC(0), IntC(0x10FFFF))
	for _, st := range fs {
		if st.Stuck != "" || st.Panicked != nil {
			return "Matches: " + st.Stuck
		}
		res, is := st.Result.(*Term)
		if !is {
			return "Matches has no result"
		}
		if r := n.e.S.Valid(st.PC, Eq(res, Or(in...))); r != "unsat" {
			return "matches other symbols (" + r + ")"
		}
	}
	if w.Eps || w.Type == 3 {
		return ""
	}
	fs, _ = run("getLabel")
	st, why := sole(fs)
	if why != "" {
		return "getLabel: " + why
	}
	old := n.st
	n.st = st
	ivs, good := n.list(n.field(st.Result, "intervals"))
	var got []*Term
	for _, i := range ivs {
		got = append(got, And(Le(IntC(int64(n.int(n.field(i, "Start")))), x), Lt(x, IntC(int64(n.int(n.field(i, "Stop")))))))
	}
	n.st = old
	if !good {
		return "no label"
	}
	if r := n.e.S.Valid(nil, Eq(Or(got...), Or(in...))); r != "unsat" {
		return "its label is another set (" + r + ")"
	}
	return ""
}

// next runs the computation of the next tokens of a state.
func (n *network) next(x int, pr *PRule) string {
	nd := n.s.ATN.Nodes[x]
	if nd == nil || nd.Kind == "dead" {
		return ""
	}
	st := n.st.Clone()
	m := n.v.P.Prog.LookupMethod(types.NewPointer(TypeOf(n.v.P.Antlr, "ATN")), n.v.P.Antlr.Pkg, "NextTokens")
	var first Val
	for k := 0; k < 2; k++ {
		var why string
		if st, why = sole(n.e.Run(st, m, nil, []Val{n.atn, n.num[x], NilV{}})); why != "" {
			return why
		}
		if k == 1 && st.Result.vkey() != first.vkey() {
			return "the second answer is another set"
		}
		first = st.Result
	}
	old := n.st
	n.st = st
	defer func() { n.st = old }()
	ivs, good := n.list(n.field(first, "intervals"))
	if !good {
		return "no set"
	}
	got := map[int]bool{}
	for _, i := range ivs {
		lo, hi := n.int(n.field(i, "Start")), n.int(n.field(i, "Stop"))
		if lo < -2 || hi > 1<<20 {
			return fmt.Sprintf("interval %d..%d", lo, hi)
		}
		for ; lo < hi; lo++ {
			got[lo] = true
			// what the text of a set asks for (StringVerbose)
			if names := len(n.s.Sym); lo >= names {
				return fmt.Sprintf("token type %d, of %d names", lo, names)
			}
		}
	}
	if len(got) == 0 {
		return "nothing can follow"
	}
	f, nul := pr.atnFirst(nd)
	want := map[int]bool{}
	for t := range f {
		want[t] = true
	}
	if nul {
		want[-2] = true
	}
	if !sameSet(got, want) {
		return fmt.Sprintf("%v, expected %v", sortedInts(got), sortedInts(want))
	}
	return ""
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// Network proves the networks and the next tokens.
func (v *Env) Network(r *Report, ps *Parser, workers int) {
	var jobs []func()
	net := func(o *Obl, s *Static) *network {
		n := &network{v: v, r: r, s: s, e: v.netEngine()}
		if s.Err != "" || s.ATN == nil {
			r.Fail(o, true, "%s", s.Err)
			return nil
		}
		if why := n.deserialise(); why != "" {
			r.Fail(o, true, "%s", why)
			return nil
		}
		return n
	}
	for _, x := range []struct {
		name string
		s    *Static
	}{{"lexer", v.Lex}, {"parser", v.Par}} {
		o := r.Oblige("runtime/network/"+x.name, "runtime", "the network the runtime builds from the tables of the "+x.name+" is the one the proofs use", allProps...)
		jobs = append(jobs, func() {
			if n := net(o, x.s); n != nil {
				defer n.e.S.Close()
				defer r.Absorb(n.e)
				if why := n.compare(); why != "" {
					r.Fail(o, true, "%s", why)
				}
			}
		})
	}
	if ps == nil || len(ps.Rules) == 0 {
		Parallel(workers, jobs)
		return
	}
	o := r.Oblige("runtime/network/next", "runtime", "the next tokens the runtime computes for a state are those that can follow it in its rule", "C01", "C02", "C11")
	if v.Par.ATN != nil {
		const parts = 6
		for k := 0; k < parts; k++ {
			jobs = append(jobs, func() {
				n := net(o, v.Par)
				if n == nil {
					return
				}
				defer n.e.S.Close()
				defer r.Absorb(n.e)
				pr := &PRule{v: v, g: ps.G, firsts: map[*Node]map[int]bool{}, nulls: map[*Node]bool{}}
				for x := k; x < len(v.Par.ATN.Types); x += parts {
					if why := n.next(x, pr); why != "" {
						r.Fail(o, true, "state %d: %s", x, why)
						return
					}
				}
			})
		}
	}
	Parallel(workers, jobs)
}
