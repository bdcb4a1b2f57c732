package govf

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.  Values are immutable.
type Val interface{ vkey() string }

// NilV is the nil pointer, slice, map, func or interface.
type NilV struct{}

// PathEl selects a part of an object.
type PathEl struct {
	Field int
	Idx   *Term // array element if not nil
}

// PtrV points into a heap object.
type PtrV struct {
	Obj  int
	Path []PathEl
}

// SliceV is a slice of the array held in a heap object.
type SliceV struct {
	Obj           int
	Off, Len, Cap *Term
}

// IfaceV is a non-nil interface value.
type IfaceV struct {
	T types.Type
	V Val
}

// StructV is a struct.
type StructV struct{ F []Val }

// TupleV is a multiple result.
type TupleV struct{ E []Val }

// FuncV is a closure or function.
type FuncV struct {
	F    *ssa.Function
	Bind []Val
}

// MapV is a map held in a heap object.
type MapV struct{ Obj int }

// GhostV is a value of the environment, known only through contracts.
type GhostV struct {
	Kind string
	ID   string
	D    any
}

// ArrV is an array of known length.
type ArrV struct{ E []Val }

// Seg is a run of an array of symbolic length.
type Seg struct {
	Kind string // cell, opaque (Seq is its content), spare (unknown content), fn (At gives the elements)
	V    Val
	Seq  *Term
	Len  *Term
	Name string // of At
	At   func(i *Term) Val
}

// SegV is an array of symbolic length.
type SegV struct{ Segs []Seg }

// MapC is the content of a map with constant keys.
type MapC struct {
	K []Val
	V []Val
	// further entries, if not nil: how many; the keys of Out are not among them
	More *Term
	Out  map[int64]bool
}

// RangeV iterates over a constant string or map.
type RangeV struct{ Obj int }

// RangeC is the state of an iterator.
type RangeC struct {
	Str  string
	IsM  bool
	M    MapC
	Next int
}

// BuilderC is the content of a strings.Builder.
type BuilderC struct{ T *Term }

// FloatV is a floating point constant.
type FloatV struct{ F float64 }

func (v FloatV) vkey() string { return fmt.Sprintf("float%x", v.F) }
func (t *Term) vkey() string  { return t.Key() }
func (NilV) vkey() string     { return "nil" }
func (v PtrV) vkey() string {
	s := fmt.Sprintf("&%d", v.Obj)
	for _, p := range v.Path {
		if p.Idx != nil {
			s += "[" + p.Idx.Key() + "]"
		} else {
			s += fmt.Sprintf(".%d", p.Field)
		}
	}
	return s
}
func (v SliceV) vkey() string {
	return fmt.Sprintf("sl%d[%s:+%s:%s]", v.Obj, v.Off.Key(), v.Len.Key(), v.Cap.Key())
}
func (v IfaceV) vkey() string  { return "if{" + v.T.String() + " " + v.V.vkey() + "}" }
func (v StructV) vkey() string { return "{" + vkeys(v.F) + "}" }
func (v TupleV) vkey() string  { return "(" + vkeys(v.E) + ")" }
func (v FuncV) vkey() string   { return "fn " + v.F.String() + "{" + vkeys(v.Bind) + "}" }
func (v MapV) vkey() string    { return fmt.Sprintf("map%d", v.Obj) }
func (v GhostV) vkey() string  { return "ghost " + v.Kind + ":" + v.ID }
func (v ArrV) vkey() string    { return "arr{" + vkeys(v.E) + "}" }
func (v SegV) vkey() string {
	var b strings.Builder
	for _, s := range v.Segs {
		b.WriteString(s.Kind + s.Name + "(")
		if s.V != nil {
			b.WriteString(s.V.vkey())
		}
		if s.Seq != nil {
			b.WriteString(s.Seq.Key())
		}
		b.WriteString(s.Len.Key() + ")")
	}
	return "seg{" + b.String() + "}"
}
func (v MapC) vkey() string {
	s := "mapc{" + vkeys(v.K) + "=>" + vkeys(v.V) + "}"
	if v.More != nil {
		s += "+" + v.More.Key()
	}
	return s
}
func (v RangeV) vkey() string   { return fmt.Sprintf("range%d", v.Obj) }
func (v RangeC) vkey() string   { return fmt.Sprintf("rangec%q%d", v.Str, v.Next) }
func (v BuilderC) vkey() string { return "builder" + v.T.Key() }

func vkeys(vs []Val) string {
	var p []string
	for _, v := range vs {
		if v == nil {
			p = append(p, "_")
		} else {
			p = append(p, v.vkey())
		}
	}
	return strings.Join(p, ",")
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isPkgType(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// Zero is the zero value of a type.
func Zero(t types.Type) Val {
	if isPkgType(t, "strings", "Builder") {
		return BuilderC{StrC("")}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return StrC("")
		case u.Info()&types.IsBoolean != 0:
			return BoolC(false)
		case u.Info()&types.IsInteger != 0:
			return IntC(0)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return FloatV{0}
	case *types.Struct:
		v := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			v.F = append(v.F, Zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := ArrV{}
		if u.Len() > 1<<16 {
			return GhostV{Kind: "array", ID: "big"}
		}
		for i := int64(0); i < u.Len(); i++ {
			v.E = append(v.E, Zero(u.Elem()))
		}
		return v
	}
	return NilV{}
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolC(constant.BoolVal(c.Value))
	case constant.String:
		return StrC(constant.StringVal(c.Value))
	case constant.Int:
		if !isInteger(c.Type()) {
			f, _ := constant.Float64Val(c.Value)
			return FloatV{f}
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return IntC(n)
		}
		if n, ok := constant.Uint64Val(c.Value); ok {
			return IntC(int64(n))
		}
	}
	if c.Value.Kind() == constant.Float {
		f, _ := constant.Float64Val(c.Value)
		return FloatV{f}
	}
	return GhostV{Kind: "complex", ID: c.Value.ExactString()}
}

// Cell is one heap object.
type Cell struct {
	T     types.Type
	V     Val
	Owner string // who may write it: "fn" (allocated here), a region name, or "" (frozen)
	key   string
}

// Frame is an activation.
type Frame struct {
	Fn     *ssa.Function
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	PC     int
	Env    map[ssa.Value]Val
	Defers []deferred
	Panic  *PanicInfo // panic being unwound through this frame
	// what happens with the result
	Ret     ssa.Value // value in the caller's env
	IsDefer bool
	Cont    func(st *State, ret Val) []*State // contract continuation (overrides Ret)
	results Val
	Rundef  bool // running defers because of RunDefers (not a panic)
	Loops   map[*ssa.BasicBlock]*loopSnap
}

type deferred struct {
	call ssa.CallCommon
	fn   Val
	args []Val
}

// PanicInfo is a panic in flight.
type PanicInfo struct {
	V         Val
	Desc      string
	Recovered bool
}

// State is one symbolic state.
type State struct {
	Heap    map[int]*Cell
	NextID  int
	Frames  []*Frame
	PC      []*Term
	G       Ghost // layer specific ghost state
	Globals map[*ssa.Global]int
	Steps   int
	Trace   []string
	SymN    int
	Forks   int // decisions taken that the path condition left open
	Unsure  int // decisions the solver could not settle
	Focused int // list elements made explicit

	// final
	Done     bool
	Result   Val
	Panicked *PanicInfo
	Stuck    string
	StuckPos string
	Impure   []string
}

// Ghost is layer specific ghost state.
type Ghost interface {
	Clone() Ghost
	Key() string
}

// Clone forks a state.
func (st *State) Clone() *State {
	n := *st
	n.Heap = make(map[int]*Cell, len(st.Heap))
	for k, v := range st.Heap {
		n.Heap[k] = v
	}
	n.Globals = make(map[*ssa.Global]int, len(st.Globals))
	for k, v := range st.Globals {
		n.Globals[k] = v
	}
	n.Frames = make([]*Frame, len(st.Frames))
	for i, f := range st.Frames {
		g := *f
		g.Env = make(map[ssa.Value]Val, len(f.Env))
		for k, v := range f.Env {
			g.Env[k] = v
		}
		g.Defers = append([]deferred{}, f.Defers...)
		if f.Panic != nil {
			p := *f.Panic
			g.Panic = &p
		}
		n.Frames[i] = &g
	}
	n.PC = append([]*Term{}, st.PC...)
	n.Impure = append([]string{}, st.Impure...)
	if st.G != nil {
		n.G = st.G.Clone()
	}
	return &n
}

// New allocates a heap object.
func (st *State) New(t types.Type, v Val, owner string) int {
	st.NextID++
	st.Heap[st.NextID] = &Cell{T: t, V: v, Owner: owner}
	return st.NextID
}

// Fresh makes a fresh symbol.
func (st *State) Fresh(prefix string, s Sort) *Term {
	st.SymN++
	return Sym(fmt.Sprintf("%s!%d", prefix, st.SymN), s)
}

// Assume adds a path condition.
func (st *State) Assume(t *Term) {
	if !t.True() {
		st.PC = append(st.PC, t)
	}
}

func (st *State) top() *Frame { return st.Frames[len(st.Frames)-1] }

// normSegs returns segments of an array value.
func segsOf(v Val) ([]Seg, bool) {
	switch a := v.(type) {
	case ArrV:
		var s []Seg
		for _, e := range a.E {
			s = append(s, Seg{Kind: "cell", V: e, Len: IntC(1)})
		}
		return s, true
	case SegV:
		return a.Segs, true
	}
	return nil, false
}

// locate finds the segment starting at idx.
func locate(segs []Seg, idx *Term) (int, bool) {
	pos, start := IntC(0), 0
	if idx.IsInt() {
		n := int64(0)
		for start < len(segs) && segs[start].Len.IsInt() {
			if n == idx.N {
				return start, true
			}
			n += segs[start].Len.N
			start++
		}
		pos = IntC(n)
	}
	for i := start; i < len(segs); i++ {
		s := segs[i]
		if Same(pos, idx) {
			return i, true
		}
		pos = Add(pos, s.Len)
	}
	if Same(pos, idx) {
		return len(segs), true
	}
	return 0, false
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

// reach marks the objects that v leads to.
func (st *State) reach(v Val, seen map[int]bool) {
	walkVal(v, func(id int) {
		if !seen[id] && st.Heap[id] != nil {
			seen[id] = true
			st.reach(st.Heap[id].V, seen)
		}
	}, func(*Term) {})
}

// walkVal visits the objects and terms that v mentions.
func walkVal(v Val, obj func(id int), term func(t *Term)) {
	all := func(vs []Val) {
		for _, x := range vs {
			walkVal(x, obj, term)
		}
	}
	switch x := v.(type) {
	case *Term:
		term(x)
	case PtrV:
		obj(x.Obj)
	case SliceV:
		obj(x.Obj)
	case MapV:
		obj(x.Obj)
	case IfaceV:
		walkVal(x.V, obj, term)
	case StructV:
		all(x.F)
	case TupleV:
		all(x.E)
	case ArrV:
		all(x.E)
	case FuncV:
		all(x.Bind)
	case SegV:
		for _, s := range x.Segs {
			walkVal(s.V, obj, term)
			if s.Seq != nil {
				term(s.Seq)
			}
		}
	case MapC:
		all(x.K)
		all(x.V)
	case BuilderC:
		term(x.T)
	}
}
