package govf

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// method is a resolved interface call on an environment value.
type method struct {
	recv Val
	name string
	sig  *types.Signature
}

func (m method) vkey() string { return "method " + m.recv.vkey() + "." + m.name }

func (e *Engine) callee(st *State, f *Frame, c *ssa.CallCommon) (Val, []Val, string) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.get(st, f, a))
	}
	if c.IsInvoke() {
		recv := e.get(st, f, c.Value)
		switch r := recv.(type) {
		case NilV:
			return nil, nil, "nil"
		case IfaceV:
			if g, ok := r.V.(GhostV); ok {
				return method{g, c.Method.Name(), c.Signature()}, args, ""
			}
			fn := e.P.Prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				return nil, nil, "no method " + c.Method.Name() + " on " + r.T.String()
			}
			return FuncV{F: fn}, append([]Val{r.V}, args...), ""
		}
		return nil, nil, "call on " + recv.vkey()
	}
	fv := e.get(st, f, c.Value)
	switch v := fv.(type) {
	case FuncV, GhostV:
		return v, args, ""
	case NilV:
		return nil, nil, "nil"
	case *Term:
		return v, args, ""
	}
	return nil, nil, "call of " + fv.vkey()
}

// FuncName is the name contracts are filed under.
func FuncName(fn *ssa.Function) string {
	if s, ok := funcNames.Load(fn); ok {
		return s.(string)
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	s := o.String()
	funcNames.Store(fn, s)
	return s
}

var funcNames sync.Map

// call performs a call; ret is the receiving instruction (nil for a deferred call).
func (e *Engine) call(st *State, fv Val, c *ssa.CallCommon, args []Val, ret ssa.Value, isDefer bool) []*State {
	finish := func(s *State, v Val) []*State {
		if isDefer {
			return one(s)
		}
		g := s.top()
		if ret != nil && v != nil {
			g.Env[ret] = v
		}
		g.PC++
		return one(s)
	}
	switch fn := fv.(type) {
	case GhostV:
		if fn.Kind == "builtin" {
			return e.builtin(st, fn.ID, c, args, ret, isDefer, finish)
		}
		if k, ok := e.Ghosts[fn.Kind+".()"]; ok {
			e.Used[fn.Kind+".()"] = true
			return e.outs(k(&Call{E: e, St: st, Name: fn.Kind, Recv: fn, Args: args, Pos: c.Pos(), Sig: c.Signature()}), finish)
		}
		return e.stuck(st, "call of unknown function value %v", fn.vkey())
	case method:
		g := fn.recv.(GhostV)
		n := g.Kind + "." + fn.name
		if k, ok := e.Ghosts[n]; ok {
			e.Used[n] = true
			return e.outs(k(&Call{E: e, St: st, Name: n, Recv: g, Args: args, Pos: c.Pos(), Sig: fn.sig}), finish)
		}
		return e.stuck(st, "no contract for method %s of %s", fn.name, g.vkey())
	case FuncV:
		name := FuncName(fn.F)
		if k, ok := e.Contracts[name]; ok {
			e.Used[name] = true
			return e.outs(k(&Call{E: e, St: st, Fn: fn.F, Name: name, Args: args, Pos: c.Pos(), Sig: fn.F.Signature}), finish)
		}
		if v, ok := e.native(st, name, args); ok {
			e.NativeN++
			return finish(st, v)
		}
		if !e.inlinable(fn.F) {
			st.Impure = append(st.Impure, "call of "+name+" at "+e.where(st))
			return e.stuck(st, "no contract for %s", name)
		}
		n := e.enter(st, fn.F, fn.Bind, args, ret, nil)
		if n[0].Stuck == "" {
			n[0].top().IsDefer = isDefer
		}
		return n
	case *Term:
		if fn.Sort == Fn {
			return e.stuck(st, "call of a caller supplied function")
		}
	}
	return e.stuck(st, "call of %v", fv.vkey())
}

// outs turns contract outcomes into states.
func (e *Engine) outs(os []Out, finish func(*State, Val) []*State) []*State {
	var res []*State
	for _, o := range os {
		switch {
		case o.Stuck != "":
			res = append(res, e.stuck(o.St, "%s", o.Stuck)...)
		case o.Panic != nil:
			f := o.St.top()
			f.Panic = o.Panic
			res = append(res, o.St)
		case o.Invoke != nil:
			then := o.Then
			res = append(res, e.enter(o.St, o.Invoke, o.InvB, o.InvA, nil, func(s *State, v Val) []*State {
				return e.outs(then(s, v), finish)
			})...)
		default:
			res = append(res, finish(o.St, o.Ret)...)
		}
	}
	return res
}

// inlinable lists the packages whose functions are executed by their body.
func (e *Engine) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if fn.Synthetic != "" && fn.Pkg == nil {
		// wrappers, bound methods, instantiations: judged by what they call
		if fn.Origin() == nil {
			return true
		}
	}
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if fn.Parent() != nil {
			return e.inlinable(fn.Parent())
		}
		return true
	}
	path := p.Pkg.Path()
	if path == e.P.Root || strings.HasPrefix(path, e.P.Root+"/") {
		return true
	}
	if e.P.Extra[path] {
		return true
	}
	switch path {
	case "strings", "unicode/utf8", "slices", "maps", "strconv", "unicode", "cmp", "internal/stringslite", "internal/bytealg":
		return true
	}
	return false
}

func (e *Engine) builtin(st *State, name string, c *ssa.CallCommon, args []Val, ret ssa.Value, isDefer bool, finish func(*State, Val) []*State) []*State {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *Term:
			return finish(st, Len(a))
		case NilV:
			return finish(st, IntC(0))
		case SliceV:
			if name == "cap" {
				return finish(st, a.Cap)
			}
			return finish(st, a.Len)
		case MapV:
			mc := st.Heap[a.Obj].V.(MapC)
			n := IntC(int64(len(mc.K)))
			if mc.More != nil {
				n = Add(n, mc.More)
			}
			return finish(st, n)
		case ArrV:
			return finish(st, IntC(int64(len(a.E))))
		case PtrV:
			if arr, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := arr.Elem().Underlying().(*types.Array); ok {
					return finish(st, IntC(at.Len()))
				}
			}
		}
	case "append":
		return e.append(st, c, args, finish)
	case "recover":
		// valid in a deferred function called directly by the unwinding frame
		n := len(st.Frames)
		if n >= 2 && st.Frames[n-1].IsDefer {
			g := st.Frames[n-2]
			if g.Panic != nil && !g.Panic.Recovered {
				g.Panic.Recovered = true
				return finish(st, g.Panic.V)
			}
		}
		return finish(st, NilV{})
	case "print", "println":
		st.Impure = append(st.Impure, "output at "+e.where(st))
		return finish(st, nil)
	case "ssa:wrapnilchk":
		if _, ok := args[0].(NilV); ok {
			return e.rtPanic(st, "nil pointer dereference (method value)")
		}
		return finish(st, args[0])
	case "copy":
		return e.copyB(st, args, finish)
	case "delete", "clear":
		return e.stuck(st, "builtin %s", name)
	case "min", "max":
		r, ok := args[0].(*Term)
		if ok && r.Sort == Int {
			for _, a := range args[1:] {
				t := a.(*Term)
				c := Lt(t, r)
				if name == "max" {
					c = Lt(r, t)
				}
				r = Ite(c, t, r)
			}
			return finish(st, r)
		}
	}
	return e.stuck(st, "builtin %s(%s)", name, vkeys(args))
}

func (e *Engine) copyB(st *State, args []Val, finish func(*State, Val) []*State) []*State {
	d, ok1 := args[0].(SliceV)
	if _, n := args[0].(NilV); n {
		return finish(st, IntC(0))
	}
	if _, n := args[1].(NilV); n {
		return finish(st, IntC(0))
	}
	s, ok2 := args[1].(SliceV)
	if !ok1 || !ok2 || !Same(d.Len, s.Len) {
		if ok1 && ok2 && d.Len.IsInt() && s.Len.IsInt() {
			n := min(d.Len.N, s.Len.N)
			d.Len, s.Len = IntC(n), IntC(n)
		} else {
			return e.stuck(st, "copy")
		}
	}
	src, ok := e.region(st, s)
	if !ok {
		return e.stuck(st, "copy of an unknown region")
	}
	c := st.Heap[d.Obj]
	segs, ok := segsOf(c.V)
	if !ok {
		return e.stuck(st, "copy into %T", c.V)
	}
	i, ok1 := locate(segs, d.Off)
	j, ok2 := locate(segs, Add(d.Off, d.Len))
	if !ok1 || !ok2 {
		return e.stuck(st, "copy into an unknown region")
	}
	e.checkOwner(st, c)
	n := append(append(append([]Seg{}, segs[:i]...), src...), segs[j:]...)
	st.Heap[d.Obj] = &Cell{T: c.T, V: SegV{n}, Owner: c.Owner}
	return finish(st, d.Len)
}

func (e *Engine) checkOwner(st *State, c *Cell) {
	if strings.HasPrefix(c.Owner, "global ") {
		st.Impure = append(st.Impure, "write to package variable "+strings.TrimPrefix(c.Owner, "global ")+" at "+e.where(st))
	} else if c.Owner == released {
		st.Impure = append(st.Impure, "writes an object after it was given back to a pool at "+e.where(st))
	} else if c.Owner == "" {
		st.Impure = append(st.Impure, "write outside the frame at "+e.where(st))
	}
}

// region returns the segments a slice covers.
func (e *Engine) region(st *State, s SliceV) ([]Seg, bool) {
	segs, ok := segsOf(st.Heap[s.Obj].V)
	if !ok {
		return nil, false
	}
	if s.Len.IsInt() && s.Len.N == 0 {
		return nil, true
	}
	i, ok1 := locate(segs, s.Off)
	j, ok2 := locate(segs, Add(s.Off, s.Len))
	if !ok1 || !ok2 || i > j {
		return nil, false
	}
	for _, x := range segs[i:j] {
		if x.Kind == "spare" {
			return nil, false
		}
	}
	return segs[i:j], true
}

// append implements append with both possible fates of the backing array.
func (e *Engine) append(st *State, c *ssa.CallCommon, args []Val, finish func(*State, Val) []*State) []*State {
	var add []Seg
	addLen := IntC(0)
	switch a := args[1].(type) {
	case NilV:
	case SliceV:
		r, ok := e.region(st, a)
		if !ok {
			return e.stuck(st, "append of an unknown region")
		}
		add = append(add, r...)
		addLen = a.Len
	case *Term: // append([]byte, string...)
		if !a.IsStr() {
			return e.stuck(st, "append of symbolic bytes")
		}
		for j := 0; j < len(a.S); j++ {
			add = append(add, Seg{Kind: "cell", V: IntC(int64(a.S[j])), Len: IntC(1)})
		}
		addLen = IntC(int64(len(a.S)))
	default:
		return e.stuck(st, "append of %v", a.vkey())
	}
	st0 := c.Args[0].Type()
	grow := func(s *State, old []Seg, n *Term) []*State {
		segs := append(append([]Seg{}, old...), add...)
		sp := IntC(0)
		if !e.TightCap {
			sp = s.Fresh("cap", Int)
			s.Assume(Le(IntC(0), sp))
			segs = append(segs, Seg{Kind: "spare", Len: sp})
		}
		id := s.New(st0, SegV{segs}, "fn")
		return finish(s, SliceV{id, IntC(0), n, Add(n, sp)})
	}
	switch a := args[0].(type) {
	case NilV:
		if addLen.IsInt() && addLen.N == 0 {
			return finish(st, NilV{})
		}
		if !addLen.IsInt() {
			return e.Decide(st, Eq(addLen, IntC(0)),
				func(s *State) []*State { return finish(s, NilV{}) },
				func(s *State) []*State { return grow(s, nil, addLen) })
		}
		return grow(st, nil, addLen)
	case SliceV:
		old, ok := e.region(st, a)
		if !ok {
			return e.stuck(st, "append to an unknown region")
		}
		if addLen.IsInt() && addLen.N == 0 {
			return finish(st, a)
		}
		newLen := Add(a.Len, addLen)
		inPlace := func(s *State) []*State {
			cell := s.Heap[a.Obj]
			segs, _ := segsOf(cell.V)
			e.checkOwner(s, cell)
			i, ok := locate(segs, Add(a.Off, a.Len))
			if !ok {
				return e.stuck(s, "append in place at an unknown index")
			}
			// drop addLen of what follows
			rest := segs[i:]
			n := append(append([]Seg{}, segs[:i]...), add...)
			need := addLen
			if tail, ok := overwrite(rest, need); ok {
				n, rest, need = append(n, tail...), nil, IntC(0)
			}
			for len(rest) > 0 {
				h := rest[0]
				d := Sub(h.Len, need)
				if h.Kind == "spare" {
					n = append(n, Seg{Kind: "spare", Len: d})
					rest = rest[1:]
					need = IntC(0)
					break
				}
				if d.IsInt() && d.N <= 0 {
					need = Sub(need, h.Len)
					rest = rest[1:]
					if need.IsInt() && need.N == 0 {
						break
					}
					continue
				}
				return e.stuck(s, "append in place over opaque content")
			}
			n = append(n, rest...)
			s.Heap[a.Obj] = &Cell{T: cell.T, V: SegV{n}, Owner: cell.Owner}
			return finish(s, SliceV{a.Obj, a.Off, newLen, a.Cap})
		}
		return e.Decide(st, Le(newLen, a.Cap), inPlace, func(s *State) []*State { return grow(s, old, newLen) })
	}
	return e.stuck(st, "append to %v", args[0].vkey())
}

// overwrite drops n elements of an array that ends in spare ones; the elements
// left are forgotten (they become spare).
func overwrite(segs []Seg, n *Term) ([]Seg, bool) {
	if n.IsInt() || len(segs) == 0 || segs[len(segs)-1].Kind != "spare" {
		return nil, false
	}
	held, spare := IntC(0), segs[len(segs)-1].Len
	for _, x := range segs[:len(segs)-1] {
		held = Add(held, x.Len)
	}
	d := Sub(n, held)
	if !d.IsInt() {
		return nil, false
	}
	return []Seg{{Kind: "spare", Len: Sub(spare, d)}}, true // elements left are beyond the new end
}

// ---- liveness and state keys (loop invariants by exhaustive fixpoint) ------

func (e *Engine) isHead(fn *ssa.Function, b *ssa.BasicBlock) bool {
	m, ok := e.heads[fn]
	if !ok {
		m = map[*ssa.BasicBlock]bool{}
		// a block is a head if some predecessor is reachable from it
		for _, x := range fn.Blocks {
			seen := map[*ssa.BasicBlock]bool{}
			stack := append([]*ssa.BasicBlock{}, x.Succs...)
			for len(stack) > 0 {
				y := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if y == x {
					m[x] = true
					break
				}
				if !seen[y] {
					seen[y] = true
					stack = append(stack, y.Succs...)
				}
			}
		}
		e.heads[fn] = m
	}
	return m[b]
}

func (e *Engine) liveIn(fn *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	m, ok := e.live[fn]
	if !ok {
		m = map[*ssa.BasicBlock]map[ssa.Value]bool{}
		for _, x := range fn.Blocks {
			m[x] = map[ssa.Value]bool{}
		}
		local := func(v ssa.Value) bool {
			switch v.(type) {
			case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
				return false
			}
			return true
		}
		for changed := true; changed; {
			changed = false
			for i := len(fn.Blocks) - 1; i >= 0; i-- {
				x := fn.Blocks[i]
				lv := map[ssa.Value]bool{}
				for _, s := range x.Succs {
					for v := range m[s] {
						if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
							continue
						}
						lv[v] = true
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						for k, p := range s.Preds {
							if p == x && local(ph.Edges[k]) {
								lv[ph.Edges[k]] = true
							}
						}
					}
				}
				for j := len(x.Instrs) - 1; j >= 0; j-- {
					ins := x.Instrs[j]
					if ph, ok := ins.(*ssa.Phi); ok {
						_ = ph
						continue // phis are defined on entry and kept live below
					}
					if v, ok := ins.(ssa.Value); ok {
						delete(lv, v)
					}
					for _, op := range ins.Operands(nil) {
						if *op != nil && local(*op) {
							lv[*op] = true
						}
					}
				}
				for v := range lv {
					if !m[x][v] {
						m[x][v] = true
						changed = true
					}
				}
			}
		}
		e.live[fn] = m
	}
	return m[b]
}

func (e *Engine) stateKey(st *State) string {
	var b strings.Builder
	for _, f := range st.Frames {
		fmt.Fprintf(&b, "|%s@%d.%d", f.Fn.String(), f.Block.Index, f.PC)
		m := map[string]Val{}
		for v, x := range f.Env {
			m[v.Name()] = x
		}
		for _, k := range sortedKeys(m) {
			b.WriteString(";" + k + "=" + m[k].vkey())
		}
		fmt.Fprintf(&b, ";d%d", len(f.Defers))
		if f.Panic != nil {
			b.WriteString(";P" + f.Panic.V.vkey())
		}
	}
	b.WriteString("|heap")
	for id := 1; id <= st.NextID; id++ {
		c := st.Heap[id]
		if c == nil || e.base[id] == c {
			continue // as in the initial state
		}
		if c.key == "" {
			c.key = c.V.vkey()
		}
		b.WriteString(";" + strconv.Itoa(id) + "=" + c.key)
	}
	b.WriteString("|pc")
	for _, t := range st.PC {
		b.WriteString(";" + t.Key())
	}
	if st.G != nil {
		b.WriteString("|" + st.G.Key())
	}
	return b.String()
}
