package govf

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

// The contract of sync.Pool.  Get gives an object that belongs to the call:
// a new one, or one that an earlier call gave back, in the state in which it was
// given back.  Put ends the ownership: the object must not be used afterwards.
//
// What is known of the state of an object that was given back is an invariant
// per field, inferred: it starts as "as New made it", every Put of the proof is
// checked against it and weakens it, and the proof is repeated until no Put does.

// leftover classes of a field.
const (
	asNew    = iota // the value that New gave it
	anyEmpty        // an empty slice
	anything
)

type poolInv struct {
	mu     sync.Mutex
	gen    int
	class  map[string]int    // by pool and field
	made   map[string]string // the value that New gives the field
	vague  bool              // an object in an arbitrary state was used
	reused map[string]bool   // fields whose slice an earlier call made is used again
}

func (p *poolInv) weaken(k string, c int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.class[k] < c {
		p.class[k] = c
		p.gen++
	}
}

func (p *poolInv) reuse(k string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.reused[k] {
		p.reused[k] = true
		p.gen++
	}
}

func (p *poolInv) get(k string) (int, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.class[k], p.reused[k]
}

// Generation counts the changes of what is known of pooled objects.
func (p *poolInv) Generation() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.gen
}

func newPoolInv() *poolInv {
	return &poolInv{class: map[string]int{}, made: map[string]string{}, reused: map[string]bool{}}
}

const released = "released"

// leaves lists the parts of a value of type t that have a class of their own.
func leaves(t types.Type, v Val, key string, f func(key string, t types.Type, v Val) Val) Val {
	s, isS := t.Underlying().(*types.Struct)
	sv, isV := v.(StructV)
	if !isS || !isV || len(sv.F) != s.NumFields() {
		return f(key, t, v)
	}
	n := StructV{}
	for i, x := range sv.F {
		n.F = append(n.F, leaves(s.Field(i).Type(), x, key+"."+s.Field(i).Name(), f))
	}
	return n
}

// usedEmpty notes that a slice left by an earlier call is used again.
func (e *Engine) usedEmpty(st *State, t types.Type, k string) Val {
	e.Pools.reuse(k)
	return SliceV{st.New(t, SegV{}, "fn"), IntC(0), IntC(0), IntC(0)}
}

func leftover(st *State, t types.Type, k string) Val {
	if isPkgType(t, "strings", "Builder") {
		return BuilderC{st.Fresh("leftover", Str)}
	}
	if b, isB := t.Underlying().(*types.Basic); isB {
		switch {
		case b.Info()&types.IsString != 0:
			return st.Fresh("leftover", Str)
		case b.Info()&types.IsBoolean != 0:
			return st.Fresh("leftover", Bool)
		case b.Info()&types.IsInteger != 0:
			return st.Fresh("leftover", Int)
		}
	}
	return GhostV{Kind: "leftover", ID: k}
}

// emptySlice: v is a slice of length 0.
func (e *Engine) emptySlice(st *State, v Val) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case SliceV:
		return e.S.Valid(st.PC, Eq(x.Len, IntC(0))) == "unsat"
	}
	return false
}

func (e *Engine) poolContracts() {
	k := e.Contracts
	name := func(st *State, v Val) (string, PtrV, bool) {
		p, isP := v.(PtrV)
		if !isP || st.Heap[p.Obj] == nil {
			return "", p, false
		}
		return fmt.Sprint(st.Heap[p.Obj].Owner, pathKey(p.Path)), p, strings.HasPrefix(st.Heap[p.Obj].Owner, "global ")
	}
	k["(*sync.Pool).Get"] = func(c *Call) []Out {
		n, p, good := name(c.St, c.Args[0])
		if !good {
			return stuckOut(c, "a pool that is no package variable")
		}
		pool, msg := c.E.Load(c.St, p)
		if msg != "" {
			return stuckOut(c, "%s", msg)
		}
		fn, _ := c.E.getField(c.St, p, types.NewPointer(c.E.poolType(c)), "New")
		f, isF := fn.(FuncV)
		if _, isS := pool.(StructV); !isS || !isF {
			return stuckOut(c, "a pool without New")
		}
		return []Out{{St: c.St, Invoke: f.F, InvB: f.Bind, Then: func(st *State, v Val) []Out {
			iv, isI := v.(IfaceV)
			if !isI {
				return []Out{{St: st, Stuck: "pooled value"}}
			}
			o, isP := iv.V.(PtrV)
			if !isP || len(o.Path) > 0 || st.Heap[o.Obj].Owner != "fn" {
				return []Out{{St: st, Stuck: "pooled value"}}
			}
			cell := st.Heap[o.Obj]
			e.Pools.mu.Lock()
			e.Pools.made[n] = iv.T.String()
			e.Pools.mu.Unlock()
			nv := leaves(cell.T, cell.V, n+".", func(k string, t types.Type, v Val) Val {
				e.Pools.mu.Lock()
				e.Pools.made[k] = v.vkey()
				e.Pools.mu.Unlock()
				cl, _ := e.Pools.get(k)
				_, isSlice := t.Underlying().(*types.Slice)
				switch {
				case cl == asNew:
					return v
				case cl == anyEmpty && isSlice:
					return e.usedEmpty(st, t, k)
				}
				e.Pools.mu.Lock()
				e.Pools.vague = true
				e.Pools.mu.Unlock()
				return leftover(st, t, k)
			})
			st.Heap[o.Obj] = &Cell{T: cell.T, V: nv, Owner: "fn"}
			return []Out{{St: st, Ret: v}}
		}}}
	}
	k["(*sync.Pool).Put"] = func(c *Call) []Out {
		n, _, good := name(c.St, c.Args[0])
		if !good {
			return stuckOut(c, "a pool that is no package variable")
		}
		iv, isI := c.Args[1].(IfaceV)
		if !isI {
			if _, isN := c.Args[1].(NilV); isN {
				return ok(c, nil)
			}
			return stuckOut(c, "pooled value")
		}
		o, isP := iv.V.(PtrV)
		if !isP || len(o.Path) > 0 {
			return stuckOut(c, "pooled value")
		}
		st := c.St
		cell := st.Heap[o.Obj]
		if cell.Owner == released {
			st.Impure = append(st.Impure, "an object is given back to a pool twice at "+e.where(st))
			return ok(c, nil)
		}
		if cell.Owner != "fn" {
			return stuckOut(c, "an object that others use is given to a pool")
		}
		e.Pools.mu.Lock()
		have := e.Pools.made[n]
		e.Pools.mu.Unlock()
		if have != "" && have != iv.T.String() {
			return stuckOut(c, "a pool of objects of several types")
		}
		free := []int{o.Obj}
		leaves(cell.T, cell.V, n+".", func(k string, t types.Type, v Val) Val {
			e.Pools.mu.Lock()
			made, have := e.Pools.made[k]
			e.Pools.mu.Unlock()
			scalar := v.vkey() == "nil"
			if x, isT := v.(*Term); isT {
				m := map[string]*Term{}
				x.Syms(m)
				scalar = len(m) == 0
			}
			switch b := v.(type) {
			case BuilderC:
				scalar = b.T.IsStr()
			case FuncV:
				scalar = len(b.Bind) == 0
			}
			_, reused := e.Pools.get(k)
			switch _, isSlice := t.Underlying().(*types.Slice); {
			case have && made == v.vkey() && scalar:
			case isSlice && e.emptySlice(st, v):
				e.Pools.weaken(k, anyEmpty)
			default:
				e.Pools.weaken(k, anything)
			}
			if s, isS := v.(SliceV); isS && reused {
				free = append(free, s.Obj)
			}
			return v
		})
		for _, id := range free {
			if x := st.Heap[id]; x != nil && x.Owner == "fn" {
				st.Heap[id] = &Cell{T: x.T, V: x.V, Owner: released}
			}
		}
		return ok(c, nil)
	}
}

func (e *Engine) poolType(c *Call) types.Type {
	return deref(c.Fn.Signature.Recv().Type())
}

func pathKey(p []PathEl) string { return PtrV{Path: p}.vkey() }

// Doubt makes what fails for objects in an arbitrary state undecided: the states
// that occur may be fewer.  Use after Put stays a failure.
func (p *poolInv) Doubt(r *Report) {
	if !p.vague {
		return
	}
	for _, o := range r.Obls {
		own := false
		for _, w := range o.Why {
			own = own || strings.Contains(w, "given back to a pool")
		}
		if !o.OK && !own {
			o.Stuck = true
		}
	}
}

// lost reports the objects given back to a pool that v still leads to.
func (st *State) lost(v Val) bool {
	any := false
	for _, c := range st.Heap {
		any = any || c.Owner == released
	}
	if !any {
		return false
	}
	seen := map[int]bool{}
	st.reach(v, seen)
	for id := range seen {
		if st.Heap[id].Owner == released {
			return true
		}
	}
	return false
}
