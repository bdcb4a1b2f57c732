package govf

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call is a call seen by a contract.
type Call struct {
	E    *Engine
	St   *State
	Fn   *ssa.Function // static callee, if any
	Name string        // full name of the callee
	Recv Val           // interface receiver (invoke mode)
	Args []Val
	Pos  token.Pos
	Sig  *types.Signature
}

// Out is one outcome of a contract.
type Out struct {
	St    *State
	Ret   Val
	Panic *PanicInfo
	Stuck string
	// Invoke runs code before the contract returns.
	Invoke *ssa.Function
	InvB   []Val
	InvA   []Val
	Then   func(st *State, ret Val) []Out
}

// Contract describes a function by its effect instead of its body.
type Contract func(c *Call) []Out

// Engine executes functions symbolically.
type Engine struct {
	P         *Program
	S         *Solver
	Contracts map[string]Contract // by function name
	Ghosts    map[string]Contract // by "kind.method"
	LoadGlob  func(st *State, g *ssa.Global) (Val, bool)
	MaxSteps  int
	MaxDepth  int
	Dedupe    bool
	seen      map[string]bool
	forks     int
	Paths     int
	TotalStep int
	MaxPaths  int
	OnBlock   func(st *State)
	OnJoin    func(st *State, f *Frame, key string)
	live      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	heads     map[*ssa.Function]map[*ssa.BasicBlock]bool
	loops     map[*ssa.Function]bool
	Inlined   map[string]bool // functions executed by their body
	inlined   map[*ssa.Function]bool
	Used      map[string]bool // contracts used
	NativeN   int
	base      map[int]*Cell
	impl      map[[2]types.Type]bool
	Loops     map[string]*LoopInv // by function and ordinal of the loop head
	Pools     *poolInv
	TightCap  bool // append allocates no more than it needs
	LoopsUsed map[string]bool
	OnConvert func(st *State, x Val, from, to types.Type) Val // conversions that the engine does not model
	headNo    map[*ssa.BasicBlock]int
}

// NewEngine makes an engine.
func NewEngine(p *Program, s *Solver) *Engine {
	return &Engine{P: p, S: s, Contracts: map[string]Contract{}, Ghosts: map[string]Contract{}, MaxSteps: 200000, MaxDepth: 60, MaxPaths: 400000,
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, heads: map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		Inlined: map[string]bool{}, inlined: map[*ssa.Function]bool{}, Used: map[string]bool{}}
}

// NewState makes an empty state.
func NewState() *State {
	return &State{Heap: map[int]*Cell{}, Globals: map[*ssa.Global]int{}}
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	r, ok := e.impl[k]
	if !ok {
		r = types.Implements(t, it)
		if e.impl == nil {
			e.impl = map[[2]types.Type]bool{}
		}
		e.impl[k] = r
	}
	return r
}

// Run executes fn to completion on every path.
func (e *Engine) Run(st *State, fn *ssa.Function, bind, args []Val) []*State {
	e.seen = map[string]bool{}
	e.forks = 0
	if e.Dedupe {
		e.base = make(map[int]*Cell, len(st.Heap))
		for id, c := range st.Heap {
			e.base[id] = c
		}
	}
	st.Done, st.Result, st.Panicked, st.Stuck = false, nil, nil, ""
	work := e.enter(st, fn, bind, args, nil, nil)
	var done []*State
	paths := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		next := e.advance(s)
		for _, n := range next {
			if n.Done || n.Stuck != "" {
				done = append(done, n)
				e.Paths++
				paths++
			} else {
				work = append(work, n)
			}
		}
		if paths > e.MaxPaths {
			s.Stuck = "path limit"
			done = append(done, s)
			return done
		}
	}
	return done
}

func (e *Engine) stuck(st *State, format string, a ...any) []*State {
	st.Stuck = fmt.Sprintf(format, a...)
	st.StuckPos = e.where(st)
	return []*State{st}
}

func (e *Engine) where(st *State) string {
	for i := len(st.Frames) - 1; i >= 0; i-- {
		f := st.Frames[i]
		if f.Block != nil && f.PC <= len(f.Block.Instrs) {
			for j := min(f.PC, len(f.Block.Instrs)-1); j >= 0; j-- {
				if p := f.Block.Instrs[j].Pos(); p.IsValid() {
					return e.P.Pos(p) + " in " + f.Fn.String()
				}
			}
		}
		if f.Fn.Pos().IsValid() {
			return e.P.Pos(f.Fn.Pos()) + " in " + f.Fn.String()
		}
	}
	return "?"
}

func (e *Engine) enter(st *State, fn *ssa.Function, bind, args []Val, ret ssa.Value, cont func(*State, Val) []*State) []*State {
	if len(fn.Blocks) == 0 {
		return e.stuck(st, "no body and no contract: %s", fn)
	}
	if len(st.Frames) > e.MaxDepth {
		return e.stuck(st, "call depth")
	}
	if !e.inlined[fn] {
		e.inlined[fn] = true
		e.Inlined[fn.String()] = true
	}
	f := &Frame{Fn: fn, Block: fn.Blocks[0], Env: map[ssa.Value]Val{}, Ret: ret, Cont: cont}
	for i, p := range fn.Params {
		f.Env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.Env[p] = bind[i]
	}
	st.Frames = append(st.Frames, f)
	return []*State{st}
}

// advance runs until the path forks, ends or gets stuck.
func (e *Engine) advance(st *State) []*State {
	for {
		if st.Done || st.Stuck != "" {
			return []*State{st}
		}
		st.Steps++
		e.TotalStep++
		if st.Steps > e.MaxSteps {
			return e.stuck(st, "step limit (unbounded loop?)")
		}
		f := st.top()
		if f.Panic != nil || f.Rundef {
			next := e.unwind(st)
			if len(next) != 1 {
				return next
			}
			st = next[0]
			continue
		}
		ins := f.Block.Instrs[f.PC]
		next := e.step(st, f, ins)
		if len(next) != 1 {
			return next
		}
		st = next[0]
	}
}

func one(st *State) []*State { return []*State{st} }

// jump transfers control.
func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) []*State {
	f.Prev, f.Block, f.PC = f.Block, to, 0
	// phis
	var vals []Val
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range to.Preds {
			if p == f.Prev {
				vals = append(vals, e.get(st, f, ph.Edges[i]))
				break
			}
		}
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		f.Env[ph] = vals[i]
	}
	f.PC = len(phis)
	if li := e.cut(f.Fn, to); li != nil {
		if next, end := e.loopHead(st, f, to, li); end {
			return next
		}
	}
	if e.Dedupe && len(to.Preds) > 1 {
		lv := e.liveIn(f.Fn, to)
		for k := range f.Env {
			if !lv[k] {
				delete(f.Env, k)
			}
		}
		k := e.stateKey(st)
		if e.OnJoin != nil {
			e.OnJoin(st, f, k)
		}
		if e.seen[k] {
			return nil
		}
		e.seen[k] = true
	}
	if e.OnBlock != nil {
		e.OnBlock(st)
	}
	return one(st)
}

func (e *Engine) get(st *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return FuncV{F: x}
	case *ssa.Global:
		return PtrV{Obj: e.globalObj(st, x)}
	case *ssa.Builtin:
		return GhostV{Kind: "builtin", ID: x.Name()}
	}
	if r, ok := f.Env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.Fn))
}

func (e *Engine) globalObj(st *State, g *ssa.Global) int {
	if id, ok := st.Globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	var v Val
	if e.LoadGlob != nil {
		if x, ok := e.LoadGlob(st, g); ok {
			v = x
		}
	}
	if v == nil {
		if x, ok := e.P.constGlobal(g); ok {
			v = x
		}
	}
	if v == nil {
		v = GhostV{Kind: "global", ID: g.String()}
	}
	id := st.New(t, v, "global "+g.String())
	st.Globals[g] = id
	return id
}

// ---- memory ---------------------------------------------------------------

func (e *Engine) readPath(st *State, v Val, path []PathEl) (Val, string) {
	for _, p := range path {
		if p.Idx != nil {
			switch a := v.(type) {
			case ArrV:
				if !p.Idx.IsInt() {
					return nil, "symbolic array index"
				}
				v = a.E[p.Idx.N]
			case SegV:
				i, ok := locate(a.Segs, p.Idx)
				if !ok || i >= len(a.Segs) {
					return nil, "read at an unknown index"
				}
				if a.Segs[i].Kind != "cell" {
					return nil, "read of opaque content"
				}
				v = a.Segs[i].V
			default:
				return nil, fmt.Sprintf("index of %T", v)
			}
			continue
		}
		s, ok := v.(StructV)
		if !ok {
			return nil, fmt.Sprintf("field of %T %v", v, v)
		}
		v = s.F[p.Field]
	}
	return v, ""
}

// uniform is the value that all cells of an array have, if there is one.
func uniform(segs []Seg) Val {
	for _, s := range segs {
		if s.Kind != "cell" || s.V.vkey() != segs[0].V.vkey() {
			return nil
		}
	}
	if len(segs) == 0 {
		return nil
	}
	return segs[0].V
}

func (e *Engine) writePath(v Val, path []PathEl, nv Val) (Val, string) {
	if len(path) == 0 {
		return nv, ""
	}
	p := path[0]
	if p.Idx != nil {
		switch a := v.(type) {
		case ArrV:
			if !p.Idx.IsInt() {
				return nil, "symbolic array index"
			}
			x, msg := e.writePath(a.E[p.Idx.N], path[1:], nv)
			if msg != "" {
				return nil, msg
			}
			n := append([]Val{}, a.E...)
			n[p.Idx.N] = x
			return ArrV{n}, ""
		case SegV:
			i, ok := locate(a.Segs, p.Idx)
			if z := uniform(a.Segs); !ok && z != nil && len(path) == 1 {
				// the index is within bounds: where it is does not matter
				same := func(n *Term) Seg {
					return Seg{Kind: "fn", Len: n, Name: "same " + z.vkey(), At: func(*Term) Val { return z }}
				}
				rest := Sub(IntC(int64(len(a.Segs)-1)), p.Idx)
				return SegV{[]Seg{same(p.Idx), {Kind: "cell", V: nv, Len: IntC(1)}, same(rest)}}, ""
			}
			if !ok || i >= len(a.Segs) || a.Segs[i].Kind != "cell" {
				return nil, "write at an unknown index"
			}
			x, msg := e.writePath(a.Segs[i].V, path[1:], nv)
			if msg != "" {
				return nil, msg
			}
			n := append([]Seg{}, a.Segs...)
			n[i].V = x
			return SegV{n}, ""
		}
		return nil, fmt.Sprintf("index of %T", v)
	}
	s, ok := v.(StructV)
	if !ok {
		return nil, fmt.Sprintf("field of %T", v)
	}
	x, msg := e.writePath(s.F[p.Field], path[1:], nv)
	if msg != "" {
		return nil, msg
	}
	n := append([]Val{}, s.F...)
	n[p.Field] = x
	return StructV{n}, ""
}

// Load reads through a pointer.
func (e *Engine) Load(st *State, p PtrV) (Val, string) {
	c := st.Heap[p.Obj]
	if c == nil {
		return nil, "dangling pointer"
	}
	if c.Owner == released {
		st.Impure = append(st.Impure, "reads an object after it was given back to a pool at "+e.where(st))
	}
	e.focus(st, p)
	if v, ok := e.pick(st, st.Heap[p.Obj].V, p.Path); ok {
		return e.readPath(st, v, p.Path[1:])
	}
	return e.readPath(st, st.Heap[p.Obj].V, p.Path)
}

// pick reads an element of a list given by a function.
func (e *Engine) pick(st *State, v Val, path []PathEl) (Val, bool) {
	sv, ok := v.(SegV)
	if !ok || len(path) == 0 || path[0].Idx == nil {
		return nil, false
	}
	fn := false
	for _, s := range sv.Segs {
		fn = fn || s.Kind == "fn"
	}
	if !fn {
		return nil, false
	}
	idx, pos := path[0].Idx, IntC(0)
	for _, s := range sv.Segs {
		end := Add(pos, s.Len)
		if e.S.Valid(st.PC, And(Le(pos, idx), Lt(idx, end))) == "unsat" {
			switch s.Kind {
			case "fn":
				return s.At(Sub(idx, pos)), true
			case "cell":
				return s.V, true
			}
			return nil, false
		}
		pos = end
	}
	return nil, false
}

// focus makes the element of a list of unknown content that p points to
// explicit: the content is some prefix, that element and some rest.
func (e *Engine) focus(st *State, p PtrV) {
	c := st.Heap[p.Obj]
	sv, ok := c.V.(SegV)
	if !ok || len(p.Path) == 0 || p.Path[0].Idx == nil || c.T == nil {
		return
	}
	if st.Focused >= 3 {
		return // a loop: lists of known length instead
	}
	idx := p.Path[0].Idx
	if i, ok := locate(sv.Segs, idx); ok && (i >= len(sv.Segs) || sv.Segs[i].Kind != "opaque") {
		return
	}
	u, ok := c.T.Underlying().(*types.Slice)
	if !ok {
		return
	}
	pos := IntC(0)
	for i, s := range sv.Segs {
		if s.Kind == "opaque" && e.S.Valid(st.PC, And(Le(pos, idx), Lt(idx, Add(pos, s.Len)))) == "unsat" {
			var v Val
			var t *Term
			switch {
			case s.Seq.Sort == SeqStr && isString(u.Elem()):
				t = st.Fresh("elem", Str)
				v = t
			case s.Seq.Sort == SeqMb && isPkgType(deref(u.Elem()), "net/mail", "Address"):
				n, a := st.Fresh("elem.name", Str), st.Fresh("elem.addr", Str)
				t = App("mbox", Mb, n, a)
				v = StructV{[]Val{n, a}}
				if deref(u.Elem()) != u.Elem() {
					v = PtrV{Obj: st.New(deref(u.Elem()), v, c.Owner)}
				}
			default:
				return
			}
			st.Focused++
			d := Sub(idx, pos)
			rest := Sub(Sub(s.Len, d), IntC(1))
			n := append([]Seg{}, sv.Segs[:i]...)
			parts := []*Term{}
			part := func(l *Term) {
				if l.IsInt() && l.N == 0 {
					return
				}
				q := st.Fresh("list", s.Seq.Sort)
				st.Assume(Eq(Len(q), l))
				parts = append(parts, q)
				n = append(n, Seg{Kind: "opaque", Seq: q, Len: l})
			}
			part(d)
			parts = append(parts, Unit(s.Seq.Sort, t))
			n = append(n, Seg{Kind: "cell", V: v, Len: IntC(1)})
			part(rest)
			st.Assume(Eq(s.Seq, Cat(s.Seq.Sort, parts...)))
			n = append(n, sv.Segs[i+1:]...)
			st.Heap[p.Obj] = &Cell{T: c.T, V: SegV{n}, Owner: c.Owner}
			return
		}
		pos = Add(pos, s.Len)
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Store writes through a pointer.
func (e *Engine) Store(st *State, p PtrV, v Val) string {
	c := st.Heap[p.Obj]
	if c == nil {
		return "dangling pointer"
	}
	e.checkOwner(st, c)
	e.focus(st, p)
	c = st.Heap[p.Obj]
	nv, msg := e.writePath(c.V, p.Path, v)
	if msg != "" {
		return msg
	}
	st.Heap[p.Obj] = &Cell{T: c.T, V: nv, Owner: c.Owner}
	return ""
}

func (e *Engine) doPanic(st *State, desc string, v Val) []*State {
	f := st.top()
	f.Panic = &PanicInfo{V: v, Desc: desc + " at " + e.where(st)}
	f.Rundef = false
	return one(st)
}

func (e *Engine) rtPanic(st *State, desc string) []*State {
	return e.doPanic(st, "run-time panic: "+desc, IfaceV{T: types.Typ[types.String], V: GhostV{Kind: "runtimeError", ID: desc}})
}

// unwind runs the deferred calls of the top frame.
func (e *Engine) unwind(st *State) []*State {
	f := st.top()
	if n := len(f.Defers); n > 0 {
		d := f.Defers[n-1]
		f.Defers = f.Defers[:n-1]
		return e.call(st, d.fn, &d.call, d.args, nil, true)
	}
	if f.Rundef && f.Panic == nil {
		f.Rundef = false
		f.PC++
		return one(st)
	}
	if f.Panic.Recovered {
		f.Panic = nil
		f.Rundef = false
		if f.Fn.Recover != nil {
			f.Prev, f.Block, f.PC = f.Block, f.Fn.Recover, 0
			return one(st)
		}
		return e.ret(st, f, zeroResults(f.Fn.Signature))
	}
	p := f.Panic
	st.Frames = st.Frames[:len(st.Frames)-1]
	if len(st.Frames) == 0 {
		st.Done, st.Panicked = true, p
		return one(st)
	}
	g := st.top()
	g.Panic = p
	return one(st)
}

func zeroResults(sig *types.Signature) Val {
	switch n := sig.Results().Len(); n {
	case 0:
		return nil
	case 1:
		return Zero(sig.Results().At(0).Type())
	default:
		t := TupleV{}
		for i := 0; i < n; i++ {
			t.E = append(t.E, Zero(sig.Results().At(i).Type()))
		}
		return t
	}
}

// ret returns from frame f.
func (e *Engine) ret(st *State, f *Frame, v Val) []*State {
	st.Frames = st.Frames[:len(st.Frames)-1]
	if f.Cont != nil {
		return f.Cont(st, v)
	}
	if len(st.Frames) == 0 {
		st.Done, st.Result = true, v
		return one(st)
	}
	g := st.top()
	if f.IsDefer {
		return one(st) // unwind continues
	}
	if f.Ret != nil && v != nil {
		g.Env[f.Ret] = v
	}
	g.PC++
	return one(st)
}

// Decide forks on a condition.
// maxForks bounds the decisions of one path.
const maxForks = 40

// maxRunForks bounds the decisions of all paths of one run.
const maxRunForks = 1500

func (e *Engine) Decide(st *State, c *Term, yes, no func(*State) []*State) []*State {
	if c.True() {
		return yes(st)
	}
	if c.False() {
		return no(st)
	}
	switch holds, fails := byBounds(st.PC, c); {
	case holds:
		return yes(st)
	case fails:
		return no(st)
	}
	return e.decide(st, c, yes, no)
}

func (e *Engine) decide(st *State, c *Term, yes, no func(*State) []*State) []*State {
	var out []*State
	rt := e.S.Check(append(append([]*Term{}, st.PC...), c))
	rf := e.S.Check(append(append([]*Term{}, st.PC...), Not(c)))
	switch {
	case rt == "unsat":
		if rf == "unsat" {
			return nil // dead path
		}
		st.Assume(Not(c))
		return no(st)
	case rf == "unsat":
		st.Assume(c)
		return yes(st)
	}
	if st.Forks++; st.Forks > maxForks {
		return e.stuck(st, "a path of more than %d decisions: a loop without a contract", maxForks)
	}
	if rt != "sat" || rf != "sat" {
		if st.Unsure++; st.Unsure > 2 {
			return e.stuck(st, "the solver cannot decide the branches: %s/%s", rt, rf)
		}
	}
	if e.forks++; e.forks > maxRunForks {
		return e.stuck(st, "more than %d decisions: a loop without a contract", maxRunForks)
	}
	s2 := st.Clone()
	st.Assume(c)
	out = append(out, yes(st)...)
	s2.Assume(Not(c))
	return append(out, no(s2)...)
}

// require continues only where c holds and panics elsewhere.
func (e *Engine) require(st *State, c *Term, desc string, yes func(*State) []*State) []*State {
	if holds, _ := byBounds(st.PC, c); holds || c.True() {
		return yes(st)
	}
	if c.False() {
		return e.rtPanic(st, desc)
	}
	return e.decide(st, c, yes, func(s *State) []*State { return e.rtPanic(s, desc) })
}

func (e *Engine) step(st *State, f *Frame, ins ssa.Instruction) []*State {
	set := func(v ssa.Value, x Val) []*State {
		f.Env[v] = x
		f.PC++
		return one(st)
	}
	// setIn is set on a (possibly forked) state.
	setIn := func(s *State, v ssa.Value, x Val) []*State {
		g := s.top()
		g.Env[v] = x
		g.PC++
		return one(s)
	}
	g := func(v ssa.Value) Val { return e.get(st, f, v) }
	switch i := ins.(type) {
	case *ssa.DebugRef:
		f.PC++
		return one(st)
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		if !i.Heap {
			// a fresh object each time the instruction executes
		}
		return set(i, PtrV{Obj: st.New(t, Zero(t), "fn")})
	case *ssa.Store:
		switch p := g(i.Addr).(type) {
		case NilV:
			return e.rtPanic(st, "nil pointer store")
		case PtrV:
			if msg := e.Store(st, p, g(i.Val)); msg != "" {
				return e.stuck(st, "store: %s", msg)
			}
			f.PC++
			return one(st)
		default:
			return e.stuck(st, "store through %v", p.vkey())
		}
	case *ssa.UnOp:
		x := g(i.X)
		switch i.Op {
		case token.MUL:
			switch p := x.(type) {
			case NilV:
				return e.rtPanic(st, "nil pointer dereference")
			case PtrV:
				v, msg := e.Load(st, p)
				if msg != "" {
					return e.stuck(st, "load: %s", msg)
				}
				return set(i, v)
			}
			return e.stuck(st, "load through %v", x.vkey())
		case token.NOT:
			if t, ok := x.(*Term); ok {
				return set(i, Not(t))
			}
		case token.SUB:
			if t, ok := x.(FloatV); ok {
				return set(i, FloatV{-t.F})
			}
			if t, ok := x.(*Term); ok && t.Sort == Int {
				return set(i, e.wrap(i.Type(), Mul(IntC(-1), t)))
			}
		case token.XOR:
			if t, ok := x.(*Term); ok && t.IsInt() {
				return set(i, e.wrap(i.Type(), IntC(^t.N)))
			}
		}
		return e.stuck(st, "operator %v on %v", i.Op, x.vkey())
	case *ssa.BinOp:
		x, y := g(i.X), g(i.Y)
		if (i.Op == token.QUO || i.Op == token.REM) && isInteger(i.Type()) {
			if t, ok := y.(*Term); ok {
				return e.require(st, Not(Eq(t, IntC(0))), "division by zero", func(s *State) []*State {
					r, msg := e.binop(i, x, y)
					if msg != "" {
						return e.stuck(s, "%s", msg)
					}
					return setIn(s, i, r)
				})
			}
		}
		r, msg := e.binop(i, x, y)
		if msg == "panic" {
			return e.rtPanic(st, "comparing uncomparable values")
		}
		if msg != "" {
			return e.stuck(st, "%s", msg)
		}
		return set(i, r)
	case *ssa.FieldAddr:
		switch p := g(i.X).(type) {
		case NilV:
			return e.rtPanic(st, "nil pointer dereference")
		case PtrV:
			return set(i, PtrV{Obj: p.Obj, Path: append(append([]PathEl{}, p.Path...), PathEl{Field: i.Field})})
		case GhostV:
			return set(i, GhostV{Kind: p.Kind, ID: fmt.Sprintf("%s.%d", p.ID, i.Field), D: p.D})
		default:
			return e.stuck(st, "field of %v", p.vkey())
		}
	case *ssa.Field:
		if s, ok := g(i.X).(StructV); ok {
			return set(i, s.F[i.Field])
		}
		return e.stuck(st, "field of %v", g(i.X).vkey())
	case *ssa.IndexAddr:
		x, ix := g(i.X), g(i.Index)
		idx, ok := ix.(*Term)
		if !ok {
			return e.stuck(st, "index %v", ix.vkey())
		}
		switch a := x.(type) {
		case NilV:
			if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
				return e.rtPanic(st, "index out of range (nil slice)")
			}
			return e.rtPanic(st, "nil pointer dereference")
		case SliceV:
			return e.require(st, And(Le(IntC(0), idx), Lt(idx, a.Len)), "index out of range", func(s *State) []*State {
				return setIn(s, i, PtrV{Obj: a.Obj, Path: []PathEl{{Idx: Add(a.Off, idx)}}})
			})
		case PtrV:
			arr := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return e.require(st, And(Le(IntC(0), idx), Lt(idx, IntC(arr.Len()))), "index out of range", func(s *State) []*State {
				return setIn(s, i, PtrV{Obj: a.Obj, Path: append(append([]PathEl{}, a.Path...), PathEl{Idx: idx})})
			})
		}
		return e.stuck(st, "index of %v", x.vkey())
	case *ssa.Index:
		x, ix := g(i.X), g(i.Index)
		idx, ok := ix.(*Term)
		if !ok {
			return e.stuck(st, "index %v", ix.vkey())
		}
		switch a := x.(type) {
		case *Term:
			return e.require(st, And(Le(IntC(0), idx), Lt(idx, Len(a))), "index out of range", func(s *State) []*State {
				if a.IsStr() && idx.IsInt() {
					return setIn(s, i, IntC(int64(a.S[idx.N])))
				}
				sub := substr(a, idx, IntC(1))
				return setIn(s, i, App("str.to_code", Int, sub))
			})
		case ArrV:
			if idx.IsInt() {
				return e.require(st, BoolC(idx.N >= 0 && idx.N < int64(len(a.E))), "index out of range", func(s *State) []*State {
					return setIn(s, i, a.E[idx.N])
				})
			}
		}
		return e.stuck(st, "index of %v", x.vkey())
	case *ssa.Slice:
		return e.slice(st, f, i)
	case *ssa.Phi:
		return e.stuck(st, "phi out of place")
	case *ssa.Jump:
		return e.jump(st, f, f.Block.Succs[0])
	case *ssa.If:
		c, ok := g(i.Cond).(*Term)
		if !ok {
			return e.stuck(st, "condition %v", g(i.Cond).vkey())
		}
		t, el := f.Block.Succs[0], f.Block.Succs[1]
		return e.Decide(st, c,
			func(s *State) []*State { return e.jump(s, s.top(), t) },
			func(s *State) []*State { return e.jump(s, s.top(), el) })
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
		case 1:
			v = g(i.Results[0])
		default:
			t := TupleV{}
			for _, r := range i.Results {
				t.E = append(t.E, g(r))
			}
			v = t
		}
		return e.ret(st, f, v)
	case *ssa.Panic:
		return e.doPanic(st, "panic", g(i.X))
	case *ssa.RunDefers:
		f.Rundef = true
		return one(st)
	case *ssa.Defer:
		fn, args, msg := e.callee(st, f, &i.Call)
		if msg != "" {
			return e.stuck(st, "%s", msg)
		}
		f.Defers = append(f.Defers, deferred{i.Call, fn, args})
		f.PC++
		return one(st)
	case *ssa.Call:
		fn, args, msg := e.callee(st, f, &i.Call)
		if msg == "nil" {
			return e.rtPanic(st, "nil pointer dereference (method call on nil interface)")
		}
		if msg != "" {
			return e.stuck(st, "%s", msg)
		}
		return e.call(st, fn, &i.Call, args, i, false)
	case *ssa.Extract:
		if t, ok := g(i.Tuple).(TupleV); ok {
			return set(i, t.E[i.Index])
		}
		return e.stuck(st, "extract from %v", g(i.Tuple).vkey())
	case *ssa.MakeInterface:
		return set(i, IfaceV{T: i.X.Type(), V: g(i.X)})
	case *ssa.ChangeInterface:
		return set(i, g(i.X))
	case *ssa.ChangeType:
		return set(i, g(i.X))
	case *ssa.Convert:
		return e.convert(st, f, i)
	case *ssa.MakeClosure:
		fv := FuncV{F: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.Bind = append(fv.Bind, g(b))
		}
		return set(i, fv)
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, i)
	case *ssa.MakeMap:
		return set(i, MapV{Obj: st.New(i.Type(), MapC{}, "fn")})
	case *ssa.MapUpdate:
		m, ok := g(i.Map).(MapV)
		if !ok {
			if _, n := g(i.Map).(NilV); n {
				return e.rtPanic(st, "assignment to entry in nil map")
			}
			return e.stuck(st, "map update of %v", g(i.Map).vkey())
		}
		k := g(i.Key)
		if t, ok := k.(*Term); !ok || !(t.IsInt() || t.IsStr() || t.IsBool()) {
			return e.stuck(st, "symbolic map key")
		}
		c := st.Heap[m.Obj]
		mc := c.V.(MapC)
		n := MapC{append([]Val{}, mc.K...), append([]Val{}, mc.V...), mc.More, mc.Out}
		found := false
		for j := range n.K {
			if n.K[j].vkey() == k.vkey() {
				n.V[j] = g(i.Value)
				found = true
			}
		}
		if t := k.(*Term); !found && mc.More != nil && !(t.IsInt() && mc.Out[t.N]) {
			return e.stuck(st, "update of an unknown key")
		}
		if !found {
			n.K, n.V = append(n.K, k), append(n.V, g(i.Value))
		}
		if strings.HasPrefix(c.Owner, "global ") || c.Owner == "" {
			st.Impure = append(st.Impure, "write to a shared map at "+e.where(st))
		}
		st.Heap[m.Obj] = &Cell{T: c.T, V: n, Owner: c.Owner}
		f.PC++
		return one(st)
	case *ssa.Lookup:
		x, k := g(i.X), g(i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			return e.stuck(st, "string lookup")
		}
		vt := i.X.Type().Underlying().(*types.Map).Elem()
		var mc MapC
		switch m := x.(type) {
		case NilV:
		case MapV:
			mc = st.Heap[m.Obj].V.(MapC)
		default:
			return e.stuck(st, "lookup in %v", x.vkey())
		}
		kt, ok := k.(*Term)
		if !ok {
			return e.stuck(st, "map key %v", k.vkey())
		}
		mk := func(v Val, ok bool) Val {
			if i.CommaOk {
				return TupleV{[]Val{v, BoolC(ok)}}
			}
			return v
		}
		var try func(s *State, j int) []*State
		try = func(s *State, j int) []*State {
			if j == len(mc.K) {
				if mc.More != nil && !(kt.IsInt() && mc.Out[kt.N]) {
					return e.stuck(s, "lookup of an unknown key")
				}
				return setIn(s, i, mk(Zero(vt), false))
			}
			return e.Decide(s, Eq(kt, mc.K[j].(*Term)),
				func(s *State) []*State { return setIn(s, i, mk(mc.V[j], true)) },
				func(s *State) []*State { return try(s, j+1) })
		}
		return try(st, 0)
	case *ssa.Range:
		switch x := g(i.X).(type) {
		case *Term:
			if x.IsStr() {
				return set(i, RangeV{st.New(nil, RangeC{Str: x.S}, "fn")})
			}
		case MapV:
			if st.Heap[x.Obj].V.(MapC).More != nil {
				return e.stuck(st, "loop over a map of unknown size")
			}
			return set(i, RangeV{st.New(nil, RangeC{IsM: true, M: st.Heap[x.Obj].V.(MapC)}, "fn")})
		case NilV:
			return set(i, RangeV{st.New(nil, RangeC{IsM: true}, "fn")})
		}
		return e.stuck(st, "range over %v", g(i.X).vkey())
	case *ssa.Next:
		r, ok := g(i.Iter).(RangeV)
		if !ok {
			return e.stuck(st, "next")
		}
		c := st.Heap[r.Obj]
		rc := c.V.(RangeC)
		if rc.IsM {
			if rc.Next >= len(rc.M.K) {
				tt := i.Type().(*types.Tuple)
				return set(i, TupleV{[]Val{BoolC(false), zeroOf(tt.At(1).Type()), zeroOf(tt.At(2).Type())}})
			}
			v := TupleV{[]Val{BoolC(true), rc.M.K[rc.Next], rc.M.V[rc.Next]}}
			rc.Next++
			st.Heap[r.Obj] = &Cell{T: c.T, V: rc, Owner: c.Owner}
			return set(i, v)
		}
		for off, ch := range rc.Str[rc.Next:] {
			_ = off
			v := TupleV{[]Val{BoolC(true), IntC(int64(rc.Next)), IntC(int64(ch))}}
			n := len(string(ch))
			if ch == 0xfffd && !strings.HasPrefix(rc.Str[rc.Next:], "\uFFFD") {
				n = 1
			}
			rc.Next += n
			st.Heap[r.Obj] = &Cell{T: c.T, V: rc, Owner: c.Owner}
			return set(i, v)
		}
		return set(i, TupleV{[]Val{BoolC(false), IntC(0), IntC(0)}})
	case *ssa.MakeSlice:
		l, ok1 := g(i.Len).(*Term)
		c, ok2 := g(i.Cap).(*Term)
		if !ok1 || !ok2 || !l.IsInt() {
			return e.stuck(st, "make with symbolic length")
		}
		if l.N < 0 || l.N > 1<<16 {
			return e.rtPanic(st, "makeslice: len out of range")
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		sg := SegV{}
		for j := int64(0); j < l.N; j++ {
			sg.Segs = append(sg.Segs, Seg{Kind: "cell", V: Zero(et), Len: IntC(1)})
		}
		return e.require(st, Le(l, c), "makeslice: cap out of range", func(s *State) []*State {
			if rest := Sub(c, l); !(rest.IsInt() && rest.N == 0) {
				if rest.IsInt() && rest.N <= 64 {
					for j := int64(0); j < rest.N; j++ {
						sg.Segs = append(sg.Segs, Seg{Kind: "cell", V: Zero(et), Len: IntC(1)})
					}
				} else {
					sg.Segs = append(sg.Segs, Seg{Kind: "spare", Len: rest})
				}
			}
			return setIn(s, i, SliceV{s.New(i.Type(), sg, "fn"), IntC(0), l, c})
		})
	}
	return e.stuck(st, "unsupported instruction %T", ins)
}

func zeroOf(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return Zero(t)
}

func substr(a, off, n *Term) *Term {
	if a.IsStr() && off.IsInt() && n.IsInt() {
		return StrC(a.S[off.N : off.N+n.N])
	}
	if off.IsInt() && off.N == 0 && Same(n, Len(a)) {
		return a
	}
	// peel literal prefixes
	if a.Op == "++" && off.IsInt() && a.Args[0].IsStr() && int64(len(a.Args[0].S)) <= off.N {
		return substr(Cat(Str, a.Args[1:]...), IntC(off.N-int64(len(a.Args[0].S))), n)
	}
	// a piece boundary
	if a.Op == "++" {
		pos := IntC(0)
		for i := range a.Args {
			if Same(pos, off) {
				end := IntC(0)
				for j := i; j <= len(a.Args); j++ {
					if Same(end, n) {
						return Cat(Str, a.Args[i:j]...)
					}
					if j < len(a.Args) {
						end = Add(end, Len(a.Args[j]))
					}
				}
			}
			pos = Add(pos, Len(a.Args[i]))
		}
	}
	return App("str.substr", Str, a, off, n)
}

// wrap checks that constants fit their type (no silent wrap-around).
func (e *Engine) wrap(t types.Type, x *Term) *Term {
	if !x.IsInt() {
		return x
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	switch b.Kind() {
	case types.Int8:
		return IntC(int64(int8(x.N)))
	case types.Int16:
		return IntC(int64(int16(x.N)))
	case types.Int32:
		return IntC(int64(int32(x.N)))
	case types.Uint8:
		return IntC(int64(uint8(x.N)))
	case types.Uint16:
		return IntC(int64(uint16(x.N)))
	case types.Uint32:
		return IntC(int64(uint32(x.N)))
	}
	return x
}

func (e *Engine) binop(i *ssa.BinOp, x, y Val) (Val, string) {
	switch i.Op {
	case token.EQL, token.NEQ:
		t, msg := e.equal(x, y)
		if msg != "" {
			return nil, msg
		}
		if i.Op == token.NEQ {
			t = Not(t)
		}
		return t, ""
	}
	if fa, ok := x.(FloatV); ok {
		if fb, ok := y.(FloatV); ok {
			switch i.Op {
			case token.ADD:
				return FloatV{fa.F + fb.F}, ""
			case token.SUB:
				return FloatV{fa.F - fb.F}, ""
			case token.MUL:
				return FloatV{fa.F * fb.F}, ""
			case token.QUO:
				return FloatV{fa.F / fb.F}, ""
			case token.LSS:
				return BoolC(fa.F < fb.F), ""
			case token.LEQ:
				return BoolC(fa.F <= fb.F), ""
			case token.GTR:
				return BoolC(fa.F > fb.F), ""
			case token.GEQ:
				return BoolC(fa.F >= fb.F), ""
			}
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		return nil, fmt.Sprintf("operator %v on %v and %v", i.Op, x.vkey(), y.vkey())
	}
	if a.Sort == Str {
		switch i.Op {
		case token.ADD:
			return Cat(Str, a, b), ""
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.IsStr() && b.IsStr() {
				switch i.Op {
				case token.LSS:
					return BoolC(a.S < b.S), ""
				case token.LEQ:
					return BoolC(a.S <= b.S), ""
				case token.GTR:
					return BoolC(a.S > b.S), ""
				default:
					return BoolC(a.S >= b.S), ""
				}
			}
		}
		return nil, "string operator " + i.Op.String()
	}
	if a.Sort != Int {
		return nil, "operator " + i.Op.String() + " on " + string(a.Sort)
	}
	unsigned := false
	if bt, ok := i.X.Type().Underlying().(*types.Basic); ok {
		unsigned = bt.Info()&types.IsUnsigned != 0
	}
	if a.IsInt() && b.IsInt() {
		var r int64
		if unsigned {
			ua, ub := uint64(a.N), uint64(b.N)
			switch i.Op {
			case token.QUO:
				return e.wrap(i.Type(), IntC(int64(ua/ub))), ""
			case token.REM:
				return e.wrap(i.Type(), IntC(int64(ua%ub))), ""
			case token.SHR:
				if ub > 63 {
					return IntC(0), ""
				}
				return e.wrap(i.Type(), IntC(int64(ua>>ub))), ""
			case token.LSS:
				return BoolC(ua < ub), ""
			case token.LEQ:
				return BoolC(ua <= ub), ""
			case token.GTR:
				return BoolC(ua > ub), ""
			case token.GEQ:
				return BoolC(ua >= ub), ""
			}
		}
		switch i.Op {
		case token.ADD:
			r = a.N + b.N
		case token.SUB:
			r = a.N - b.N
		case token.MUL:
			r = a.N * b.N
		case token.QUO:
			r = a.N / b.N
		case token.REM:
			r = a.N % b.N
		case token.AND:
			r = a.N & b.N
		case token.OR:
			r = a.N | b.N
		case token.XOR:
			r = a.N ^ b.N
		case token.AND_NOT:
			r = a.N &^ b.N
		case token.SHL:
			if b.N < 0 && !isUnsigned(i.Y.Type()) {
				return nil, "panic"
			}
			if uint64(b.N) > 63 {
				r = 0
			} else {
				r = a.N << uint64(b.N)
			}
		case token.SHR:
			if b.N < 0 && !isUnsigned(i.Y.Type()) {
				return nil, "panic"
			}
			n := uint64(b.N)
			if n > 63 {
				n = 63
			}
			r = a.N >> n
		case token.LSS:
			return BoolC(a.N < b.N), ""
		case token.LEQ:
			return BoolC(a.N <= b.N), ""
		case token.GTR:
			return BoolC(a.N > b.N), ""
		case token.GEQ:
			return BoolC(a.N >= b.N), ""
		default:
			return nil, "operator " + i.Op.String()
		}
		return e.wrap(i.Type(), IntC(r)), ""
	}
	switch i.Op {
	case token.ADD:
		return Add(a, b), ""
	case token.SUB:
		return Sub(a, b), ""
	case token.MUL:
		return Mul(a, b), ""
	case token.LSS:
		return Lt(a, b), ""
	case token.LEQ:
		return Le(a, b), ""
	case token.GTR:
		return Lt(b, a), ""
	case token.GEQ:
		return Le(b, a), ""
	}
	return nil, "symbolic operator " + i.Op.String()
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// equal compares two values.
func (e *Engine) equal(x, y Val) (*Term, string) {
	_, nx := x.(NilV)
	_, ny := y.(NilV)
	if nx && ny {
		return BoolC(true), ""
	}
	if nx || ny {
		o := x
		if nx {
			o = y
		}
		switch v := o.(type) {
		case PtrV, SliceV, IfaceV, FuncV, MapV:
			return BoolC(false), ""
		case *Term:
			if v.Sort == Fn {
				return Eq(v, Sym0("fnnil", Fn)), ""
			}
			if v.Sort == Loc {
				return BoolC(false), ""
			}
		case GhostV:
			if strings.HasPrefix(v.Kind, "nn") {
				return BoolC(false), ""
			}
		}
		return nil, "comparison of " + o.vkey() + " with nil"
	}
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok && a.Sort == b.Sort {
			return Eq(a, b), ""
		}
	case FloatV:
		if b, ok := y.(FloatV); ok {
			return BoolC(a.F == b.F), ""
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			return BoolC(a.vkey() == b.vkey()), ""
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok {
			if !types.Identical(a.T, b.T) {
				return BoolC(false), ""
			}
			return e.equal(a.V, b.V)
		}
	case StructV:
		if b, ok := y.(StructV); ok {
			r := BoolC(true)
			for i := range a.F {
				t, msg := e.equal(a.F[i], b.F[i])
				if msg != "" {
					return nil, msg
				}
				r = And(r, t)
			}
			return r, ""
		}
	case GhostV:
		b, ok := y.(GhostV)
		if ok && a.vkey() == b.vkey() {
			return BoolC(true), ""
		}
		if ok && a.Kind == b.Kind {
			if ta, isT := a.D.(termed); isT {
				if tb, isT := b.D.(termed); isT {
					return Eq(ta.Term(), tb.Term()), ""
				}
			}
		}
	}
	return nil, "comparison of " + x.vkey() + " and " + y.vkey()
}

// Sym0 is a nullary constructor.
func Sym0(name string, s Sort) *Term { return &Term{Op: "app", Sort: s, S: name} }

func (e *Engine) convert(st *State, f *Frame, i *ssa.Convert) []*State {
	x := e.get(st, f, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	set := func(v Val) []*State { f.Env[i] = v; f.PC++; return one(st) }
	if fl, ok := x.(FloatV); ok {
		if isInteger(to) {
			return set(e.wrap(to, IntC(int64(fl.F))))
		}
		if b, ok := to.(*types.Basic); ok && b.Kind() == types.Float32 {
			return set(FloatV{float64(float32(fl.F))})
		}
		return set(fl)
	}
	if t, ok := x.(*Term); ok {
		if b, isB := to.(*types.Basic); isB && b.Info()&types.IsFloat != 0 && t.IsInt() {
			return set(FloatV{float64(t.N)})
		}
		switch {
		case isInteger(from) && isInteger(to):
			if !t.IsInt() {
				// widening keeps the value; other conversions are not modelled
				return set(t)
			}
			return set(e.wrap(to, t))
		case isString(from) && isString(to):
			return set(t)
		case isInteger(from) && isString(to):
			if t.IsInt() {
				return set(StrC(string(rune(t.N))))
			}
		case isString(from):
			sl, ok := to.(*types.Slice)
			if ok && t.IsStr() {
				sg := SegV{}
				if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
					for j := 0; j < len(t.S); j++ {
						sg.Segs = append(sg.Segs, Seg{Kind: "cell", V: IntC(int64(t.S[j])), Len: IntC(1)})
					}
				} else {
					for _, r := range t.S {
						sg.Segs = append(sg.Segs, Seg{Kind: "cell", V: IntC(int64(r)), Len: IntC(1)})
					}
				}
				n := IntC(int64(len(sg.Segs)))
				return set(SliceV{st.New(i.Type(), sg, "fn"), IntC(0), n, n})
			}
		}
	}
	if e.OnConvert != nil {
		if v := e.OnConvert(st, x, from, to); v != nil {
			return set(v)
		}
	}
	if isString(to) {
		sl, ok := from.(*types.Slice)
		if ok {
			if _, n := x.(NilV); n {
				return set(StrC(""))
			}
			if s, ok := x.(SliceV); ok {
				vs, ok := e.sliceConst(st, s)
				if ok {
					var b strings.Builder
					bk := sl.Elem().Underlying().(*types.Basic).Kind()
					for _, v := range vs {
						t, ok := v.(*Term)
						if !ok || !t.IsInt() {
							return e.stuck(st, "string of symbolic bytes")
						}
						if bk == types.Uint8 {
							b.WriteByte(byte(t.N))
						} else {
							b.WriteRune(rune(t.N))
						}
					}
					return set(StrC(b.String()))
				}
			}
		}
	}
	return e.stuck(st, "conversion %v to %v of %v", i.X.Type(), i.Type(), x.vkey())
}

// sliceConst lists the elements of a slice of known extent.
func (e *Engine) sliceConst(st *State, s SliceV) ([]Val, bool) {
	segs, ok := segsOf(st.Heap[s.Obj].V)
	if !ok || !s.Len.IsInt() {
		return nil, false
	}
	if s.Len.N == 0 {
		return nil, true
	}
	i, ok := locate(segs, s.Off)
	if !ok {
		return nil, false
	}
	var out []Val
	for j := int64(0); j < s.Len.N; j++ {
		if i >= len(segs) || segs[i].Kind != "cell" {
			return nil, false
		}
		out = append(out, segs[i].V)
		i++
	}
	return out, true
}

func (e *Engine) slice(st *State, f *Frame, i *ssa.Slice) []*State {
	x := e.get(st, f, i.X)
	bound := func(v ssa.Value, def *Term) (*Term, bool) {
		if v == nil {
			return def, true
		}
		t, ok := e.get(st, f, v).(*Term)
		return t, ok
	}
	setIn := func(s *State, x Val) []*State {
		g := s.top()
		g.Env[i] = x
		g.PC++
		return one(s)
	}
	switch a := x.(type) {
	case *Term:
		lo, ok1 := bound(i.Low, IntC(0))
		hi, ok2 := bound(i.High, Len(a))
		if !ok1 || !ok2 {
			return e.stuck(st, "slice bounds")
		}
		return e.require(st, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, Len(a))), "slice bounds out of range", func(s *State) []*State {
			return setIn(s, substr(a, lo, Sub(hi, lo)))
		})
	case NilV:
		if _, ok := i.X.Type().Underlying().(*types.Slice); !ok {
			return e.rtPanic(st, "nil pointer dereference")
		}
		lo, ok1 := bound(i.Low, IntC(0))
		hi, ok2 := bound(i.High, IntC(0))
		if !ok1 || !ok2 {
			return e.stuck(st, "slice bounds")
		}
		return e.require(st, And(Eq(lo, IntC(0)), Eq(hi, IntC(0))), "slice bounds out of range", func(s *State) []*State { return setIn(s, NilV{}) })
	case SliceV:
		lo, ok1 := bound(i.Low, IntC(0))
		hi, ok2 := bound(i.High, a.Len)
		mx, ok3 := bound(i.Max, a.Cap)
		if !ok1 || !ok2 || !ok3 {
			return e.stuck(st, "slice bounds")
		}
		return e.require(st, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, a.Cap)), "slice bounds out of range", func(s *State) []*State {
			return setIn(s, SliceV{a.Obj, Add(a.Off, lo), Sub(hi, lo), Sub(mx, lo)})
		})
	case GhostV:
		// the slice of an earlier call, emptied
		if h, ok := bound(i.High, nil); a.Kind == "leftover" && i.High != nil && i.Max == nil && ok && h.IsInt() && h.N == 0 {
			if lo, ok := bound(i.Low, IntC(0)); ok && lo.IsInt() && lo.N == 0 {
				return setIn(st, e.usedEmpty(st, i.X.Type(), a.ID))
			}
		}
	case PtrV:
		arr := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := IntC(arr.Len())
		lo, ok1 := bound(i.Low, IntC(0))
		hi, ok2 := bound(i.High, n)
		mx, ok3 := bound(i.Max, n)
		if !ok1 || !ok2 || !ok3 || len(a.Path) != 0 {
			return e.stuck(st, "slice of array")
		}
		return e.require(st, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "slice bounds out of range", func(s *State) []*State {
			return setIn(s, SliceV{a.Obj, lo, Sub(hi, lo), Sub(mx, lo)})
		})
	}
	return e.stuck(st, "slice of %v", x.vkey())
}

func (e *Engine) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) []*State {
	x := e.get(st, f, i.X)
	set := func(v Val) []*State { f.Env[i] = v; f.PC++; return one(st) }
	fail := func() []*State {
		if i.CommaOk {
			return set(TupleV{[]Val{Zero(i.AssertedType), BoolC(false)}})
		}
		return e.rtPanic(st, "type assertion to "+i.AssertedType.String()+" failed")
	}
	good := func(v Val) []*State {
		if i.CommaOk {
			return set(TupleV{[]Val{v, BoolC(true)}})
		}
		return set(v)
	}
	switch a := x.(type) {
	case NilV:
		return fail()
	case IfaceV:
		if g, ok := a.V.(GhostV); ok && !(!types.IsInterface(a.T) && g.D == nil && g.Kind != "runtimeError") {
			if some, is := g.D.(interface{ If(t types.Type) *Term }); is && i.CommaOk && types.IsInterface(i.AssertedType) {
				give := func(v Val, ok bool) func(s *State) []*State {
					return func(s *State) []*State {
						f := s.top()
						f.Env[i] = TupleV{[]Val{v, BoolC(ok)}}
						f.PC++
						return one(s)
					}
				}
				return e.Decide(st, some.If(i.AssertedType), give(a, true), give(Zero(i.AssertedType), false))
			}
			if impl, known := ghostImplements(g, i.AssertedType); known {
				if impl {
					if types.IsInterface(i.AssertedType) {
						return good(a)
					}
					return good(a.V)
				}
				return fail()
			}
			return e.stuck(st, "type assertion of %v to %v", g.vkey(), i.AssertedType)
		}
		if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			if e.implements(a.T, it) {
				return good(a)
			}
			return fail()
		}
		if types.Identical(a.T, i.AssertedType) {
			return good(a.V)
		}
		return fail()
	}
	return e.stuck(st, "type assertion of %v", x.vkey())
}

// ghostImplements decides type assertions on environment values.  D of such a
// value is a func(types.Type) (implements, known bool) if it answers them.
func ghostImplements(g GhostV, t types.Type) (bool, bool) {
	if f, ok := g.D.(func(types.Type) (bool, bool)); ok {
		return f(t)
	}
	if f, ok := g.D.(termed); ok {
		return f.Is(t)
	}
	if g.Kind == "runtimeError" {
		return types.Identical(t, types.Universe.Lookup("error").Type()), true
	}
	return false, false
}
