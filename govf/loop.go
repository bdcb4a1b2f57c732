package govf

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// termed is an environment value identified by a term.
type termed interface {
	Term() *Term
	Is(t types.Type) (is, known bool)
}

// LoopInv is the contract of a loop.  A path that reaches the head of the loop
// from outside proves Inv, forgets what the loop may change (Havoc), and goes on
// from an arbitrary state in which Inv holds; a path that comes back to the head
// proves Inv again, that Variant (if any) is smaller and still not negative, and
// that nothing else has changed, and ends there.
type LoopInv struct {
	// Havoc replaces everything the loop may change by symbols named after id.
	Havoc func(e *Engine, st *State, f *Frame, id string)
	// Inv lists what holds whenever the head is reached.
	Inv func(e *Engine, st *State, f *Frame) []*Term
	// Variant decreases with every turn.
	Variant func(e *Engine, st *State, f *Frame) *Term
}

// loopSnap is the state at the head of a loop.
type loopSnap struct {
	id      string
	env     map[ssa.Value]string
	heap    map[int]*Cell
	ghost   string
	variant *Term
}

// cut finds the contract of the loop with the given head.
func (e *Engine) cut(fn *ssa.Function, b *ssa.BasicBlock) *LoopInv {
	if len(e.Loops) == 0 || !e.isHead(fn, b) || !loopTarget(b) {
		return nil
	}
	n, ok := e.headNo[b]
	if !ok {
		for _, x := range fn.Blocks {
			if x == b {
				break
			}
			if e.isHead(fn, x) && loopTarget(x) {
				n++
			}
		}
		if e.headNo == nil {
			e.headNo = map[*ssa.BasicBlock]int{}
		}
		e.headNo[b] = n
	}
	k := fmt.Sprintf("%s#%d", fn, n)
	li := e.Loops[k]
	if li != nil {
		if e.LoopsUsed == nil {
			e.LoopsUsed = map[string]bool{}
		}
		e.LoopsUsed[k] = true
	}
	return li
}

// loopTarget reports the target of a back edge.
func loopTarget(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// loopHead applies a loop contract; end says that the path is over.
func (e *Engine) loopHead(st *State, f *Frame, b *ssa.BasicBlock, li *LoopInv) (next []*State, end bool) {
	for i, t := range li.Inv(e, st, f) {
		if r := e.S.Valid(st.PC, t); r != "unsat" {
			return e.stuck(st, "part %d of the loop invariant is not established: %v (%s)", i+1, t, r), true
		}
	}
	lv := e.liveIn(f.Fn, b)
	for k := range f.Env {
		if !lv[k] {
			if ph, isPhi := k.(*ssa.Phi); isPhi && ph.Block() == b {
				continue
			}
			delete(f.Env, k)
		}
	}
	back := b.Dominates(f.Prev)
	if back && f.Loops[b] != nil {
		sn := f.Loops[b]
		if sn.variant != nil {
			v := li.Variant(e, st, f)
			if r := e.S.Valid(st.PC, And(Le(IntC(0), sn.variant), Lt(v, sn.variant))); r != "unsat" {
				return e.stuck(st, "the loop variant does not decrease (%s)", r), true
			}
		}
		li.Havoc(e, st, f, sn.id)
		for id, c := range sn.heap {
			if d := st.Heap[id]; d != c && (d == nil || d.V.vkey() != c.V.vkey()) {
				return e.stuck(st, "the loop changes %s, which its contract does not mention", c.V.vkey()), true
			}
		}
		for k, v := range sn.env {
			if x := f.Env[k]; x == nil || x.vkey() != v {
				return e.stuck(st, "the loop changes %s, which its contract does not mention", k.Name()), true
			}
		}
		if st.G != nil && st.G.Key() != sn.ghost {
			return e.stuck(st, "the loop does what its contract does not mention: %s, was %s", st.G.Key(), sn.ghost), true
		}
		return nil, true
	}
	st.SymN++
	sn := &loopSnap{id: fmt.Sprintf("loop%d", st.SymN), env: map[ssa.Value]string{}, heap: map[int]*Cell{}}
	li.Havoc(e, st, f, sn.id)
	for _, t := range li.Inv(e, st, f) {
		st.Assume(t)
	}
	for k, v := range f.Env {
		sn.env[k] = v.vkey()
	}
	for id, c := range st.Heap {
		sn.heap[id] = c
	}
	if st.G != nil {
		sn.ghost = st.G.Key()
	}
	if li.Variant != nil {
		sn.variant = li.Variant(e, st, f)
	}
	m := map[*ssa.BasicBlock]*loopSnap{b: sn}
	for k, v := range f.Loops {
		if k != b {
			m[k] = v
		}
	}
	f.Loops = m
	return nil, false
}

// phiNamed finds the phi of block b for a source variable.
func phiNamed(b *ssa.BasicBlock, name string) *ssa.Phi {
	for _, ins := range b.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok && ph.Comment == name {
			return ph
		}
	}
	return nil
}
