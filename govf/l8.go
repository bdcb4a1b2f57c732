package govf

import (
	"fmt"
	"go/types"
	"strings"
)

// simulator proves the contract of LexerATNSimulator.Match, by body, on the
// network of the lexer (built by the runtime's own deserialiser): at a character
// it consumes that character and gives the token of its class, at the end it
// gives EOF, whatever earlier calls left in the cache.
//
// Invariant of the cache (a DFA):
//   - it is empty, or its start state is S0, the closure of the start of the mode;
//     its states are S0 and, for some classes c of characters, D(c); the hash of
//     each of these states is its own;
//   - edge t of S0 is missing or D(class of t); edge t of D(c) is missing or the
//     error state.
//
// A call at character x reads S0, D(x), edge x of S0 and edge y of D(x) only (y is
// the character after x); the proof goes through what the invariant allows these
// to be, for a symbolic x of each interval of L0 and a symbolic y.
type simulator struct {
	*network
	sim, dfa Val
	in       Val
	lo, hi   int
	tok      int
	s0, d    string // signatures
	hs, hd   *Term  // hashes
	x, y     *Term
}

const edges = 128

func (m *simulator) get(st *State, k string) *Term    { return st.G.(*lghost).n[k] }
func (m *simulator) put(st *State, k string, t *Term) { st.G.(*lghost).n[k] = t }

// set writes a field of the object v points to.
func (m *simulator) set(st *State, v Val, name string, x Val) bool {
	if i, is := v.(IfaceV); is {
		v = i.V
	}
	p, is := v.(PtrV)
	if !is || st.Heap[p.Obj] == nil {
		return false
	}
	c := st.Heap[p.Obj]
	t, is := c.T.Underlying().(*types.Struct)
	sv, is2 := c.V.(StructV)
	if !is || !is2 {
		return false
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			n := StructV{F: append([]Val{}, sv.F...)}
			n.F[i] = x
			st.Heap[p.Obj] = &Cell{T: c.T, V: n, Owner: c.Owner}
			return true
		}
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Embedded() && m.set(st, sv.F[i], name, x) {
			return true
		}
	}
	return false
}

// prepare makes the simulator object and the character stream.
func (m *simulator) prepare() string {
	e, p := m.e, m.v.P
	delete(e.Contracts, AntlrPath+".NewDFA")
	for _, f := range []string{"(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		e.Contracts[f] = func(c *Call) []Out { return ok(c, nil) }
	}
	ds, good := m.list(m.field(m.atn, "DecisionToState"))
	if !good || len(ds) == 0 {
		return "no decisions"
	}
	st, why := sole(e.Run(m.st, p.Antlr.Func("NewDFA"), nil, []Val{ds[0], IntC(0)}))
	if why != "" {
		return "NewDFA: " + why
	}
	m.dfa = st.Result
	fn := p.Antlr.Func("NewLexerATNSimulator")
	dt := fn.Signature.Params().At(2).Type()
	dfas := SliceV{st.New(dt, SegV{[]Seg{{Kind: "cell", V: m.dfa, Len: IntC(1)}}}, ""), IntC(0), IntC(1), IntC(1)}
	recog := IfaceV{T: TypeOf(p.Antlr, "Lexer"), V: GhostV{Kind: "nnrecog", ID: "lexer"}}
	if st, why = sole(e.Run(st, fn, nil, []Val{recog, m.atn, dfas, GhostV{Kind: "nncontexts", ID: "cache"}})); why != "" {
		return "NewLexerATNSimulator: " + why
	}
	m.sim, m.st = st.Result, st
	m.in = IfaceV{T: TypeOf(p.Antlr, "CharStream"), V: GhostV{Kind: "nnchars", ID: "in"}}
	n := Sym("size", Int)
	gk := e.Ghosts
	gk["nnchars.Index"] = func(c *Call) []Out { return ok(c, m.get(c.St, "ci")) }
	gk["nnchars.Size"] = func(c *Call) []Out { return ok(c, n) }
	gk["nnchars.Mark"] = func(c *Call) []Out { return ok(c, c.St.Fresh("mark", Int)) }
	gk["nnchars.Release"] = func(c *Call) []Out { return ok(c, nil) }
	gk["nnchars.Seek"] = func(c *Call) []Out {
		t, is := c.Args[0].(*Term)
		if !is {
			return stuckOut(c, "Seek")
		}
		m.put(c.St, "ci", t)
		return ok(c, nil)
	}
	gk["nnchars.Consume"] = func(c *Call) []Out {
		i := m.get(c.St, "ci")
		if r := e.S.Valid(c.St.PC, Lt(i, n)); r != "unsat" {
			return stuckOut(c, "the end of the characters is consumed")
		}
		m.put(c.St, "ci", Add(i, IntC(1)))
		return ok(c, nil)
	}
	gk["nnchars.LA"] = func(c *Call) []Out {
		if k, is := c.Args[0].(*Term); !is || !k.IsInt() || k.N != 1 {
			return stuckOut(c, "LA of the characters")
		}
		i := m.get(c.St, "ci")
		s := c.St.Clone()
		s.Assume(Le(n, i))
		c.St.Assume(Lt(i, n))
		x := App("runeat", Int, i)
		c.St.Assume(Le(IntC(0), x))
		var out []Out
		if e.S.Check(s.PC) != "unsat" {
			out = append(out, Out{St: s, Ret: IntC(-1)})
		}
		if e.S.Check(c.St.PC) != "unsat" {
			out = append(out, Out{St: c.St, Ret: x})
		}
		return out
	}
	return ""
}

// start is a state in which the next character is in the interval.
func (m *simulator) start(from *State, end bool) *State {
	st := from.Clone()
	g := &lghost{n: map[string]*Term{}}
	st.G = g
	st.Done, st.PC = false, nil
	ci, n := Sym("ci", Int), Sym("size", Int)
	g.n["ci"] = ci
	m.x, m.y = App("runeat", Int, ci), App("runeat", Int, Add(ci, IntC(1)))
	st.Assume(Le(IntC(0), ci))
	st.Assume(Le(ci, n))
	if end {
		st.Assume(Eq(ci, n))
	} else {
		st.Assume(Lt(ci, n))
		st.Assume(Le(IntC(int64(m.lo)), m.x))
		st.Assume(Le(m.x, IntC(int64(m.hi))))
	}
	// what an earlier call left
	for _, f := range []string{"startIndex", "Line", "CharPositionInLine", "mode", "MatchCalls"} {
		m.set(st, m.sim, f, Sym("old."+f, Int))
	}
	pa := m.field(m.sim, "prevAccept")
	for _, f := range []string{"index", "line", "column"} {
		m.set(st, pa, f, Sym("old.accept."+f, Int))
	}
	m.set(st, pa, "dfaState", GhostV{Kind: "nnold", ID: "state"})
	return st
}

func (m *simulator) run(st *State) []*State {
	fn := m.v.P.Prog.LookupMethod(types.NewPointer(TypeOf(m.v.P.Antlr, "LexerATNSimulator")), m.v.P.Antlr.Pkg, "Match")
	return m.e.Run(st, fn, nil, []Val{m.sim, m.in, IntC(0)})
}

// sign describes a state of the cache but for its number and edges.
func (m *simulator) sign(st *State, v Val) string {
	old := m.st
	m.st = st
	defer func() { m.st = old }()
	if p, is := v.(PtrV); !is || len(p.Path) > 0 {
		return "not a state: " + v.vkey()
	}
	var b strings.Builder
	key := func(o Val, fs ...string) {
		for _, f := range fs {
			x := m.field(o, f)
			if x == nil {
				b.WriteString(f + "?;")
				continue
			}
			b.WriteString(f + "=" + x.vkey() + ";")
		}
	}
	key(v, "isAcceptState", "prediction", "lexerActionExecutor", "requiresFullContext", "predicates")
	cs := m.field(v, "configs")
	b.WriteString(typeName(cs))
	key(cs, "fullCtx", "hasSemanticContext", "readOnly", "uniqueAlt", "conflictingAlts", "dipsIntoOuterContext", "configLookup")
	items, good := m.list(m.field(cs, "configs"))
	if !good {
		return "unknown configurations"
	}
	for _, c := range items {
		b.WriteString("\n" + typeName(c))
		key(c, "precedenceFilterSuppressed", "state", "alt", "context", "semanticContext", "reachesIntoOuterContext", "lexerActionExecutor", "passedThroughNonGreedyDecision")
	}
	return b.String()
}

// entries gives the states of the cache by their hash.
func (m *simulator) entries(st *State) (MapC, string) {
	old := m.st
	m.st = st
	defer func() { m.st = old }()
	mv, is := m.field(m.dfa, "states").(MapV)
	if !is {
		return MapC{}, "no table of states"
	}
	return st.Heap[mv.Obj].V.(MapC), ""
}

// cached makes a cache out of the states of a finished call.
func (m *simulator) cached(from *State, s0 bool, keys []*Term, vals []Val, edge map[int][]Seg) *State {
	st := from.Clone()
	old := m.st
	m.st = st
	mv := m.field(m.dfa, "states").(MapV)
	m.st = old
	mc := MapC{More: Sym("more", Int), Out: map[int64]bool{m.hs.N: true, m.hd.N: true}}
	for i, k := range keys {
		mc.K, mc.V = append(mc.K, k), append(mc.V, vals[i])
	}
	c := st.Heap[mv.Obj]
	st.Heap[mv.Obj] = &Cell{T: c.T, V: mc, Owner: c.Owner}
	m.set(st, m.dfa, "s0", NilV{})
	if s0 {
		m.set(st, m.dfa, "s0", vals[0])
	}
	et := types.NewSlice(types.NewPointer(TypeOf(m.v.P.Antlr, "DFAState")))
	for i, v := range vals {
		m.set(st, v, "stateNumber", Sym(fmt.Sprint("number", i), Int))
		if sg := edge[i]; sg != nil {
			m.set(st, v, "edges", SliceV{st.New(et, SegV{sg}, ""), IntC(0), IntC(edges), IntC(edges)})
		} else {
			m.set(st, v, "edges", NilV{})
		}
	}
	return st
}

// around is an array of edges of which only one is known.
func around(name string, at *Term, v Val) []Seg {
	rest := func(part string, n *Term) Seg {
		return Seg{Kind: "fn", Len: n, Name: name + part, At: func(i *Term) Val { return GhostV{Kind: "nnedge", ID: name + part} }}
	}
	return []Seg{rest("<", at), {Kind: "cell", V: v, Len: IntC(1)}, rest(">", Sub(IntC(edges-1), at))}
}

// invariant checks the cache after a call.
func (m *simulator) invariant(st *State) string {
	mc, why := m.entries(st)
	if why != "" {
		return why
	}
	old := m.st
	m.st = st
	defer func() { m.st = old }()
	var todo []Val
	if s := m.field(m.dfa, "s0"); s == nil {
		return "no start state"
	} else if m.sign(st, s) != m.s0 || len(mc.K) == 0 || mc.V[0].vkey() != s.vkey() {
		return "another start state"
	}
	for i, k := range mc.K {
		s := m.sign(st, mc.V[i])
		switch {
		case k.vkey() == m.hs.vkey() && s == m.s0, k.vkey() == m.hd.vkey() && s == m.d:
		default:
			return "another state"
		}
		todo = append(todo, mc.V[i])
	}
	seen := map[string]bool{}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		if seen[s.vkey()] {
			continue
		}
		seen[s.vkey()] = true
		ev := m.field(s, "edges")
		if _, isNil := ev.(NilV); isNil {
			continue
		}
		sl, is := ev.(SliceV)
		if !is || !sl.Off.IsInt() || sl.Off.N != 0 || !sl.Len.IsInt() || sl.Len.N != edges {
			return "edges are not a list of " + fmt.Sprint(edges)
		}
		segs, good := segsOf(st.Heap[sl.Obj].V)
		if !good {
			return "unknown edges"
		}
		pos := IntC(0)
		for _, sg := range segs {
			switch {
			case sg.Kind == "fn" && strings.HasPrefix(sg.Name, "edge") || sg.Name == "same "+NilV{}.vkey():
			case sg.Kind == "cell":
				if _, isNil := sg.V.(NilV); isNil {
					break
				}
				sig, at := m.sign(st, sg.V), m.x
				if m.sign(st, s) == m.s0 {
					if sig != m.d {
						return "an edge of the start state leads to another state"
					}
					todo = append(todo, sg.V)
				} else {
					at = m.y
					if sg.V.vkey() != m.errorState(st).vkey() {
						return "an edge of a final state leads on"
					}
				}
				if r := m.e.S.Valid(st.PC, Eq(pos, at)); r != "unsat" {
					return "an edge for another character (" + r + ")"
				}
			default:
				return "unknown edges"
			}
			pos = Add(pos, sg.Len)
		}
	}
	return ""
}

func (m *simulator) errorState(st *State) Val {
	g := m.v.P.Antlr.Var("ATNSimulatorError")
	if g == nil {
		return NilV{}
	}
	if id, is := st.Globals[g]; is {
		return st.Heap[id].V
	}
	return NilV{}
}

// check looks at the ends of a call.
func (m *simulator) check(what string, fs []*State, end bool) string {
	if len(fs) == 0 {
		return what + ": no end"
	}
	for _, st := range fs {
		if st.Stuck != "" {
			return what + ": " + st.Stuck + " at " + st.StuckPos
		}
		if st.Panicked != nil {
			return what + ": panics"
		}
		tok, ci := IntC(int64(m.tok)), Add(Sym("ci", Int), IntC(1))
		if end {
			tok, ci = IntC(-1), Sym("ci", Int)
		}
		res, is := st.Result.(*Term)
		if !is {
			return what + ": no result"
		}
		if r := m.e.S.Valid(st.PC, Eq(res, tok)); r != "unsat" {
			return fmt.Sprintf("%s: token %v, expected %d (%s)", what, res.Key(), tok.N, r)
		}
		if r := m.e.S.Valid(st.PC, Eq(m.get(st, "ci"), ci)); r != "unsat" {
			return fmt.Sprintf("%s: the stream is at %v (%s)", what, m.get(st, "ci").Key(), r)
		}
		if why := m.invariant(st); why != "" {
			return what + ": " + why
		}
	}
	return ""
}

// interval proves Match for the characters of an interval; it reports the
// signatures and hashes of the states too.
func (m *simulator) interval() string {
	// an empty cache first, to know the states
	fs := m.run(m.start(m.st, false))
	if len(fs) == 0 || fs[0].Stuck != "" || fs[0].Panicked != nil {
		return m.check("empty cache", fs, false)
	}
	st := fs[0]
	mc, why := m.entries(st)
	if why != "" || len(mc.K) != 2 {
		return fmt.Sprintf("empty cache: %s %d states afterwards", why, len(mc.K))
	}
	s0, d := mc.V[0], mc.V[1]
	m.hs, m.hd = mc.K[0].(*Term), mc.K[1].(*Term)
	m.s0, m.d = m.sign(st, s0), m.sign(st, d)
	if why := m.check("empty cache", fs, false); why != "" {
		return why
	}
	try := func(what string, s bool, keys []*Term, vals []Val, edge map[int][]Seg) string {
		return m.check(what, m.run(m.start(m.cached(st, s, keys, vals, edge), false)), false)
	}
	ks, kd := []*Term{m.hs}, []*Term{m.hs, m.hd}
	vs, vd := []Val{s0}, []Val{s0, d}
	ascii := m.hi < edges
	type cfg struct {
		what string
		s    bool
		k    []*Term
		v    []Val
		e    map[int][]Seg
	}
	list := []cfg{
		{"S0 without edges", true, ks, vs, nil},
	}
	none := func() []Seg { return around("edge", m.x, NilV{}) }
	to := func() []Seg { return around("edge", m.x, d) }
	y := func(v Val) []Seg { return around("edge'", m.y, v) }
	if ascii {
		list = append(list, cfg{"no edge", true, ks, vs, map[int][]Seg{0: none()}})
	}
	for i, ey := range []Val{nil, NilV{}, m.errorState(st)} {
		var w []Seg
		if ey != nil {
			w = y(ey)
		}
		name := fmt.Sprintf("D known (%d)", i)
		list = append(list, cfg{name + ", no edges", true, kd, vd, map[int][]Seg{1: w}})
		if ascii {
			list = append(list, cfg{name + ", no edge", true, kd, vd, map[int][]Seg{0: none(), 1: w}},
				cfg{name + ", edge", true, kd, vd, map[int][]Seg{0: to(), 1: w}})
		}
	}
	for _, c := range list {
		if why := try(c.what, c.s, c.k, c.v, c.e); why != "" {
			return why
		}
	}
	return ""
}

// Simulator registers and proves the obligation.
func (v *Env) Simulator(r *Report, workers int) {
	o := r.Oblige("runtime/simulator", "runtime", "the lexer simulator gives one token per character, that of its class, whatever is in its cache", simProps...)
	if v.Lex.Err != "" || v.Lex.ATN == nil || len(v.lexed) == 0 {
		r.Fail(o, true, "no lexer network")
		return
	}
	var ivs [][3]int
	for _, x := range v.lexed {
		cut := func(at int) {
			if x[0] < at && at <= x[1] {
				ivs = append(ivs, [3]int{x[0], at - 1, x[2]})
				x[0] = at
			}
		}
		cut('\n')
		cut('\n' + 1)
		cut(edges)
		ivs = append(ivs, x)
	}
	type res struct{ s0, d, hs, hd string }
	all := make([]res, len(ivs))
	parts := workers
	if parts < 1 {
		parts = 1
	}
	var jobs []func()
	for k := 0; k < parts; k++ {
		jobs = append(jobs, func() {
			m := &simulator{network: &network{v: v, r: r, s: v.Lex, e: v.netEngine()}}
			defer m.e.S.Close()
			defer r.Absorb(m.e)
			if why := m.deserialise(); why != "" {
				r.Fail(o, true, "%s", why)
				return
			}
			if why := m.prepare(); why != "" {
				r.Fail(o, true, "%s", why)
				return
			}
			base := m.st
			for i := k; i < len(ivs); i += parts {
				m.st = base
				m.lo, m.hi, m.tok = ivs[i][0], ivs[i][1], ivs[i][2]
				if why := m.interval(); why != "" {
					r.Fail(o, true, "U+%04X..U+%04X: %s", m.lo, m.hi, why)
					return
				}
				all[i] = res{m.s0, m.d, m.hs.Key(), m.hd.Key()}
			}
			if k == 0 {
				// the end of the input
				m.st = base
				if why := m.atEnd(); why != "" {
					r.Fail(o, true, "end: %s", why)
				}
			}
		})
	}
	Parallel(workers, jobs)
	if !o.OK {
		return
	}
	hash := map[string]string{all[0].hs: all[0].s0}
	for _, x := range all {
		if x.s0 != all[0].s0 || x.hs != all[0].hs {
			r.Fail(o, true, "the start state depends on the character")
			return
		}
		if s, is := hash[x.hd]; is && s != x.d {
			r.Fail(o, true, "two states have the same hash")
			return
		}
		hash[x.hd] = x.d
	}
}

// atEnd proves Match at the end of the characters.
func (m *simulator) atEnd() string {
	fs := m.run(m.start(m.st, true))
	if len(fs) == 0 || fs[0].Stuck != "" || fs[0].Panicked != nil {
		return m.check("empty cache", fs, true)
	}
	st := fs[0]
	mc, why := m.entries(st)
	if why != "" || len(mc.K) != 1 {
		return fmt.Sprintf("empty cache: %s %d states afterwards", why, len(mc.K))
	}
	m.hs, m.s0 = mc.K[0].(*Term), m.sign(st, mc.V[0])
	m.hd, m.d = m.hs, m.s0
	if why := m.check("empty cache", fs, true); why != "" {
		return why
	}
	for _, e := range []map[int][]Seg{nil, {0: {{Kind: "fn", Len: IntC(edges), Name: "edge", At: func(i *Term) Val { return GhostV{Kind: "nnedge", ID: "any"} }}}}} {
		if why := m.check("warm cache", m.run(m.start(m.cached(st, true, []*Term{m.hs}, mc.V[:1], e), true)), true); why != "" {
			return why
		}
	}
	return ""
}

var simProps = []string{"C01", "C02", "C11", "C13"}
