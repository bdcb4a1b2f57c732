package govf

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aghost is the ghost state of an entry point.
type aghost struct {
	parsed int              // calls of the start rule
	viable bool             // the input is a sentence (no error was reported)
	walked int              // completed tree walks
	root   Val              // the syntax tree
	attrs  map[string]*Term // attributes of the root
	notes  string
}

func (g *aghost) Clone() Ghost { n := *g; return &n }
func (g *aghost) Key() string {
	return fmt.Sprintf("%d/%v/%d/%s", g.parsed, g.viable, g.walked, g.notes)
}

// API is the proof of an entry point.
type API struct {
	v    *Env
	r    *Report
	ps   *Parser
	Name string // function
	Rule string // start rule
	fn   *ssa.Function
	in   *Term

	stream, errs, acc, result, total, pure, empty *Obl

	// the state at the tree walk (phase 1)
	At  *State
	Lis Val
	W   *Walk
}

// NewAPI registers the obligations of an entry point.
func (v *Env) NewAPI(r *Report, ps *Parser, name, rule string) *API {
	a := &API{v: v, r: r, ps: ps, Name: name, Rule: rule, in: Sym("input", Str)}
	id := "api/" + name + "/"
	rp := []string{"C03", "C04", "C07"}
	if rule == "dateTime" {
		rp = []string{"C08", "C09", "C10"}
	}
	a.stream = r.Oblige(id+"stream", "api", name+" parses the whole input, and nothing else, with rule "+rule, "C01", "C02", "C13")
	a.errs = r.Oblige(id+"rejects", "api", "an error reported by the parser makes "+name+" return an error and no result", "C01")
	a.acc = r.Oblige(id+"accepts", "api", name+" returns no error unless the parser reported one", "C02")
	a.result = r.Oblige(id+"result", "api", name+" returns the value of the syntax tree", rp...)
	a.total = r.Oblige(id+"total", "api", name+" does not panic", "C11")
	a.pure = r.Oblige(id+"pure", "api", name+" reads and writes nothing but what it allocates, and CharsetReader", "C12", "C16")
	a.empty = r.Oblige(id+"empty", "api", name+" of the empty input returns an empty result and no error", "C11", "C02")
	a.fn = v.P.Pkg.Func(name)
	if a.fn == nil || len(a.fn.Params) != 1 || a.fn.Signature.Results().Len() != 2 {
		a.fn = nil
		for _, o := range a.all() {
			r.Fail(o, false, "no function %s(string) (T, error)", name)
		}
	}
	return a
}

func (a *API) all() []*Obl {
	return []*Obl{a.stream, a.errs, a.acc, a.result, a.total, a.pure, a.empty}
}

func (a *API) gh(st *State) *aghost { return st.G.(*aghost) }

// base is the initial state: any input, everything else as initialised.
func (a *API) base() *State {
	st := a.v.Base.Clone()
	st.G = &aghost{}
	return st
}

// find reads a field by name, looking through embedded structs and pointers.
func (e *Engine) find(st *State, v Val, t types.Type, name string) (Val, types.Type) {
	for depth := 0; depth < 4; depth++ {
		if iv, ok := v.(IfaceV); ok {
			v, t = iv.V, iv.T
		}
		if f, ft := e.getField(st, v, t, name); f != nil {
			return f, ft
		}
		// descend into the embedded base
		var nv Val
		var nt types.Type
		et := t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		}
		s, ok := et.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				if f, ft := e.getField(st, v, t, s.Field(i).Name()); f != nil {
					nv, nt = f, ft
					break
				}
			}
		}
		if nv == nil {
			return nil, nil
		}
		v, t = nv, nt
	}
	return nil, nil
}

func (a *API) engine() (*Engine, *Trees) {
	e, got := a.v.Engine()
	e.MaxSteps = 5000000
	tr := a.v.NewTrees(e, a.ps)
	k := e.Contracts
	k[AntlrPath+".NewInputStream"] = func(c *Call) []Out {
		t, isT := strArg(c.Args[0])
		if !isT {
			return stuckOut(c, "NewInputStream")
		}
		ty := TypeOf(a.v.P.Antlr, "InputStream")
		sv := ghostStruct(ty, "inputfield")
		sv.F[fieldIndex(ty, "data")] = GhostV{Kind: "nninput", ID: t.Key(), D: t}
		return ok(c, PtrV{Obj: c.St.New(ty, sv, "fn")})
	}
	for fn, rule := range a.ps.Funcs {
		k[fn.String()] = a.start(e, tr, got, fn, rule)
	}
	return e, tr
}

// static checks that an interpreter works on the network of static data s.
func (a *API) static(e *Engine, st *State, got *[][]int64, what string, rec Val, rt types.Type, s *Static) {
	o := a.stream
	in, it := e.find(st, rec, rt, "Interpreter")
	if in == nil {
		a.r.Fail(o, false, "the %s has no interpreter at %s", what, e.where(st))
		return
	}
	atn, _ := e.find(st, in, it, "atn")
	p, isP := atn.(PtrV)
	n := -1
	if isP {
		fmt.Sscanf(st.Heap[p.Obj].Owner, "atn %d", &n)
	}
	if n < 0 || n >= len(*got) {
		a.r.Fail(o, false, "the %s does not use the %s network", what, what)
		return
	}
	d := (*got)[n]
	same := len(d) == len(s.Data)
	for i := range d {
		same = same && d[i] == s.Data[i]
	}
	if !same {
		a.r.Fail(o, false, "the %s uses another network", what)
	}
	dfa, _ := e.find(st, in, it, "decisionToDFA")
	ds, isS := dfa.(SliceV)
	if !isS {
		a.r.Fail(o, false, "the %s has no prediction caches", what)
		return
	}
	vs, good := e.sliceConst(st, ds)
	if !good || s.ATN != nil && len(vs) != len(s.ATN.Decisions) {
		a.r.Fail(o, false, "the prediction caches of the %s do not fit its network", what)
	}
}

func (a *API) start(e *Engine, tr *Trees, got *[][]int64, fn *ssa.Function, rule string) Contract {
	return func(c *Call) []Out {
		st := c.St
		g := a.gh(st)
		o := a.stream
		bad := func(f string, x ...any) {
			a.r.Fail(o, false, "%s at %s", fmt.Sprintf(f, x...), e.where(st))
		}
		if rule != a.Rule {
			bad("parses rule %s", rule)
			return nil
		}
		g.parsed++
		if g.parsed > 1 {
			bad("parses twice")
		}
		p, pt := c.Args[0], fn.Signature.Recv().Type()
		get := func(v Val, t types.Type, n string) (Val, types.Type) { return e.find(st, v, t, n) }
		a.static(e, st, got, "parser", p, pt, a.v.Par)
		if b, _ := get(p, pt, "BuildParseTrees"); b == nil || !b.(*Term).True() {
			bad("the parser builds no tree")
		}
		if x, _ := get(p, pt, "ctx"); x == nil || x.vkey() != "nil" {
			bad("the parser is not fresh")
		}
		if x, _ := get(p, pt, "parseListeners"); x == nil || x.vkey() != "nil" {
			bad("a listener runs during the parse")
		}
		if x, _ := get(p, pt, "state"); x == nil || x.vkey() != IntC(-1).vkey() {
			bad("the parser is not fresh")
		}
		if h, _ := get(p, pt, "errHandler"); h == nil {
			bad("no error strategy")
		} else if iv, isI := h.(IfaceV); !isI || shortType(iv.T) != "*antlr.DefaultErrorStrategy" {
			bad("the error strategy is not the default one")
		}
		// the token stream
		in, it := get(p, pt, "input")
		iv, isI := in.(IfaceV)
		if !isI || shortType(iv.T) != "*antlr.CommonTokenStream" {
			bad("the tokens do not come from a CommonTokenStream (%v)", it)
			return nil
		}
		if x, _ := get(in, it, "channel"); x == nil || x.vkey() != IntC(0).vkey() {
			bad("the token channel is not the default one")
		}
		if x, _ := get(in, it, "index"); x == nil || x.vkey() != IntC(-1).vkey() {
			bad("the token stream is not at its start")
		}
		lx, lt := get(in, it, "tokenSource")
		if l, isL := lx.(IfaceV); !isL || !strings.HasSuffix(shortType(l.T), "parser.RFC5322Lexer") {
			bad("the token source is not the lexer")
			return nil
		}
		a.static(e, st, got, "lexer", lx, lt, a.v.Lex)
		if m, _ := get(lx, lt, "mode"); m == nil || m.vkey() != IntC(0).vkey() {
			bad("the lexer is not in its default mode")
		}
		cs, ct := get(lx, lt, "input")
		var text *Term
		if cs != nil {
			if d, _ := get(cs, ct, "data"); d != nil {
				if gv, isG := d.(GhostV); isG && gv.Kind == "nninput" {
					text = gv.D.(*Term)
				}
			}
		}
		switch {
		case text == nil:
			bad("the lexer does not read an InputStream of the input")
		default:
			if r := e.S.Valid(st.PC, Eq(text, a.in)); r != "unsat" {
				bad("the lexer reads %v instead of the whole input", text)
			}
		}
		// the rest of what the contract of the lexer demands
		odd := func(f string, x ...any) { a.r.Fail(o, true, "%s at %s", fmt.Sprintf(f, x...), e.where(st)) }
		if h, _ := get(lx, lt, "hitEOF"); h == nil || h.vkey() != BoolC(false).vkey() {
			odd("the lexer is not at the start of its input")
		}
		vt, _ := get(lx, lt, "Virt")
		if l, isL := vt.(IfaceV); !isL || shortType(l.T) != "*antlr.BaseLexer" && !strings.HasSuffix(shortType(l.T), "parser.RFC5322Lexer") {
			odd("the lexer has another implementation")
		}
		if fc, _ := get(lx, lt, "factory"); fc == nil {
			odd("the lexer has no token factory")
		} else if l, isL := fc.(IfaceV); !isL || shortType(l.T) != "*antlr.CommonTokenFactory" {
			odd("the lexer has another token factory")
		}
		if tp, tt := get(lx, lt, "tokenFactorySourcePair"); tp == nil {
			odd("the tokens have no source")
		} else {
			sc, _ := get(tp, tt, "charStream")
			so, _ := get(tp, tt, "tokenSource")
			if sc == nil || cs == nil || sc.vkey() != cs.vkey() || so == nil || so.vkey() == "nil" {
				odd("the tokens come from another source")
			}
		}
		// the listeners
		ls, _ := get(p, pt, "listeners")
		var lis []Val
		switch l := ls.(type) {
		case NilV:
			a.r.Fail(a.total, false, "the first error panics: there is no list of error listeners at %s", e.where(st))
		case SliceV:
			vs, good := e.sliceConst(st, l)
			if !good {
				return stuckOut(c, "the error listeners are not known")
			}
			lis = vs
		default:
			return stuckOut(c, "the error listeners are not known")
		}
		var real []Val
		for _, l := range lis {
			if v, isV := l.(IfaceV); isV {
				if gl, isG := v.V.(GhostV); isG && gl.Kind == "global" {
					st.Impure = append(st.Impure, "errors are printed on the console by "+gl.ID)
					continue
				}
			}
			real = append(real, l)
		}
		// outcome 1: a sentence
		ok1 := st.Clone()
		g1 := a.gh(ok1)
		g1.viable = true
		g1.root = tr.Node(ok1, &TreeCtx{Rule: rule, Text: Sym("text", Str)})
		outs := []Out{{St: ok1, Ret: g1.root}}
		// outcome 2: at least one report to each listener
		g.root = tr.Node(st, &TreeCtx{Rule: rule, Text: Sym("text", Str)})
		recog := IfaceV{T: pt, V: p}
		outs = append(outs, a.notify(e, st, recog, real, 0, "", g.root)...)
		return outs
	}
}

var freshNo = regexp.MustCompile(`![0-9]+`)

// notify reports errors to the listeners until one more makes no difference.
func (a *API) notify(e *Engine, st *State, recog Val, lis []Val, n int, last string, ret Val) []Out {
	if len(lis) == 0 {
		return []Out{{St: st, Ret: ret}}
	}
	key := ""
	for _, l := range lis {
		if iv, ok := l.(IfaceV); ok {
			key += iv.T.String()
			if p, ok := iv.V.(PtrV); ok {
				key += freshNo.ReplaceAllString(st.Heap[p.Obj].V.vkey(), "")
			}
		}
	}
	var outs []Out
	if n > 0 {
		outs = append(outs, Out{St: st.Clone(), Ret: ret})
		if key == last {
			return outs
		}
		if n > 3 {
			return append(outs, Out{St: st, Stuck: "reported errors keep changing the error listener"})
		}
	}
	var one func(st *State, i int, exc Val) []Out
	one = func(st *State, i int, exc Val) []Out {
		if i == len(lis) {
			return a.notify(e, st, recog, lis, n+1, key, ret)
		}
		iv, ok := lis[i].(IfaceV)
		if !ok {
			return []Out{{St: st, Stuck: "error listener " + lis[i].vkey()}}
		}
		fn := e.P.Prog.LookupMethod(iv.T, nil, "SyntaxError")
		if fn == nil {
			return []Out{{St: st, Stuck: "no SyntaxError on " + iv.T.String()}}
		}
		tok := IfaceV{T: TypeOf(a.v.P.Antlr, "Token"), V: GhostV{Kind: "nntoken", ID: "offending"}}
		args := []Val{iv.V, recog, tok, st.Fresh("line", Int), st.Fresh("column", Int), st.Fresh("msg", Str), exc}
		return []Out{{St: st, Invoke: fn, InvA: args, Then: func(s *State, _ Val) []Out { return one(s, i+1, exc) }}}
	}
	s2 := st.Clone()
	outs = append(outs, one(st, 0, IfaceV{T: TypeOf(a.v.P.Antlr, "RecognitionException"), V: GhostV{Kind: "nnexc", ID: "e"}})...)
	outs = append(outs, one(s2, 0, NilV{})...)
	return outs
}

// Discover runs the entry point up to the tree walk.
func (a *API) Discover() {
	if a.fn == nil {
		return
	}
	e, _ := a.engine()
	defer e.S.Close()
	e.Contracts["(*"+AntlrPath+".ParseTreeWalker).Walk"] = func(c *Call) []Out {
		if a.gh(c.St).viable && a.At == nil {
			a.At, a.Lis = c.St.Clone(), c.Args[1]
		}
		return nil
	}
	e.Run(a.base(), a.fn, nil, []Val{a.in})
}

// Prove runs the entry point with the contract of the tree walk.
func (a *API) Prove() {
	if a.fn == nil {
		return
	}
	e, tr := a.engine()
	defer e.S.Close()
	defer a.r.Absorb(e)
	e.Contracts["(*"+AntlrPath+".ParseTreeWalker).Walk"] = func(c *Call) []Out {
		g := a.gh(c.St)
		if !g.viable {
			a.r.Fail(a.errs, false, "walks the tree of a rejected input at %s", e.where(c.St))
			return nil
		}
		g.walked++
		if g.walked > 1 || g.root == nil || c.Args[2].vkey() != g.root.vkey() {
			return stuckOut(c, "walks another tree than the one just parsed")
		}
		if a.W == nil || a.W.bad != "" {
			return stuckOut(c, "the tree walk is not understood")
		}
		if a.Lis == nil || c.Args[1].vkey() != a.Lis.vkey() {
			return stuckOut(c, "the walker differs from run to run")
		}
		return a.W.walkContract(e, tr, c, g)
	}
	for _, s := range e.Run(a.base(), a.fn, nil, []Val{a.in}) {
		a.finish(e, s)
	}
}

func isEmptyList(v Val) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case SliceV:
		return x.Len.IsInt() && x.Len.N == 0
	}
	return false
}

func (a *API) finish(e *Engine, s *State) {
	g := a.gh(s)
	if s.Stuck != "" {
		for _, o := range a.all() {
			a.r.Fail(o, true, "%s at %s", s.Stuck, s.StuckPos)
		}
		return
	}
	for _, m := range s.Impure {
		a.r.Fail(a.pure, false, "%s", m)
	}
	if s.Panicked != nil {
		a.r.Fail(a.total, false, "panics: %s", s.Panicked.Desc)
		return
	}
	res, isT := s.Result.(TupleV)
	if !isT || len(res.E) != 2 {
		a.r.Fail(a.result, true, "no result")
		return
	}
	if s.lost(s.Result) {
		a.r.Fail(a.pure, false, "the result is part of an object that was given back to a pool")
	}
	_, noErr := res.E[1].(NilV)
	isZero := func(v Val) bool {
		if a.Rule == "dateTime" {
			return v.vkey() == Zero(a.fn.Signature.Results().At(0).Type()).vkey()
		}
		return isEmptyList(v)
	}
	emptyIn := e.S.Valid(s.PC, Eq(Len(a.in), IntC(0))) == "unsat"
	switch {
	case g.parsed == 0:
		if !emptyIn {
			a.r.Fail(a.stream, false, "returns without parsing an input that is not empty")
			a.r.Fail(a.result, false, "returns without parsing an input that is not empty")
			if !noErr {
				a.r.Fail(a.acc, false, "rejects an input without parsing it")
			} else {
				a.r.Fail(a.errs, false, "accepts an input without parsing it")
			}
			return
		}
		if !noErr || !isZero(res.E[0]) {
			a.r.Fail(a.empty, false, "the empty input yields %s, %s", res.E[0].vkey(), res.E[1].vkey())
		}
	case !g.viable:
		if noErr {
			a.r.Fail(a.errs, false, "no error is returned although the parser reported one")
		}
		if !isZero(res.E[0]) {
			a.r.Fail(a.errs, false, "a result is returned with an error")
		}
	default:
		if !noErr {
			a.r.Fail(a.acc, false, "an error is returned although the parser reported none")
			return
		}
		if a.W == nil || a.W.bad != "" {
			a.r.Fail(a.result, true, "the tree walk is not understood")
			return
		}
		if g.walked != 1 {
			a.r.Fail(a.result, false, "the syntax tree is not walked")
			return
		}
		if msg := a.W.checkResult(e, s, res.E[0]); msg != "" {
			k := a.W.kinds[a.W.a.Rule]
			a.r.Fail(a.result, k != nil && k.shaky, "%s", msg)
		}
	}
}
