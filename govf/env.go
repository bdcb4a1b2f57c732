package govf

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is what every layer starts from: the program after package
// initialisation.
type Env struct {
	P     *Program
	Base  *State // after the initialisers of the verified packages
	Notes []string
	Pools *poolInv
	// generated static data
	Lex, Par *Static
	lexed    [][3]int // intervals of code points and their tokens
}

// Static is the static data of a generated recogniser.
type Static struct {
	Data  []int64
	ATN   *ATN
	Rules []string
	Sym   []string
	DFAs  Val
	State *State
	Ptr   PtrV
	T     types.Type
	Err   string
}

// Engine makes an engine with the library contracts.
func (v *Env) Engine() (*Engine, *[][]int64) {
	e := NewEngine(v.P, NewSolver())
	e.AddLibrary()
	e.Pools = v.Pools
	e.poolContracts()
	var got [][]int64
	e.runtimeInit(&got)
	e.LoadGlob = func(st *State, g *ssa.Global) (Val, bool) {
		if g.Pkg == nil {
			return nil, false
		}
		path := g.Pkg.Pkg.Path()
		switch g.String() {
		case "time.UTC":
			return Sym0("utc", Loc), true
		case "time.Local":
			return App("otherloc", Loc, IntC(0)), true
		}
		if path == v.P.Root || strings.HasPrefix(path, v.P.Root+"/") {
			return Zero(g.Type().(*types.Pointer).Elem()), true
		}
		return nil, false
	}
	for _, k := range v.P.Prog.AllPackages() {
		path := k.Pkg.Path()
		if path == v.P.Root || strings.HasPrefix(path, v.P.Root+"/") {
			continue
		}
		if f := k.Func("init"); f != nil {
			e.Contracts[f.String()] = func(c *Call) []Out { return ok(c, nil) }
		}
	}
	return e, &got
}

// NewEnv runs the package initialisers.
func NewEnv(p *Program) (*Env, error) {
	v := &Env{P: p, Pools: newPoolInv()}
	e, _ := v.Engine()
	defer e.S.Close()
	st := NewState()
	fs := e.Run(st, p.Pkg.Func("init"), nil, nil)
	if len(fs) != 1 {
		return nil, fmt.Errorf("package initialisation forks (%d paths)", len(fs))
	}
	st = fs[0]
	if st.Stuck != "" {
		return nil, fmt.Errorf("package initialisation: %s at %s", st.Stuck, st.StuckPos)
	}
	if st.Panicked != nil {
		return nil, fmt.Errorf("package initialisation panics: %s", st.Panicked.Desc)
	}
	st.Impure = nil
	owner := map[int]string{}
	for g, id := range st.Globals {
		owner[id] = "global " + g.String()
	}
	for id, c := range st.Heap {
		o := owner[id]
		if o == "" {
			o = "global (initialised data)"
		}
		st.Heap[id] = &Cell{T: c.T, V: c.V, Owner: o}
	}
	// exported variables are the caller's: any value
	for _, m := range p.Pkg.Members {
		g, isG := m.(*ssa.Global)
		if !isG || g.Object() == nil || !g.Object().Exported() {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		id, have := st.Globals[g]
		if !have {
			id = st.New(t, nil, "global "+g.String())
			st.Globals[g] = id
		}
		var val Val
		switch u := t.Underlying().(type) {
		case *types.Signature:
			val = Sym(g.Name(), Fn)
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				val = Sym(g.Name(), Str)
			case u.Info()&types.IsInteger != 0:
				val = Sym(g.Name(), Int)
			case u.Info()&types.IsBoolean != 0:
				val = Sym(g.Name(), Bool)
			}
		}
		if val == nil {
			// keep what the initialiser stored (pointer-like configuration)
			continue
		}
		st.Heap[id] = &Cell{T: t, V: val, Owner: "global " + g.String()}
	}
	st.Done, st.Result = false, nil
	st.Steps = 0
	v.Base = st
	if v.Lex = v.static("RFC5322LexerInit"); v.Lex.Err != "" {
		v.Notes = append(v.Notes, "lexer: "+v.Lex.Err)
	}
	if v.Par = v.static("RFC5322ParserInit"); v.Par.Err != "" {
		v.Notes = append(v.Notes, "parser: "+v.Par.Err)
	}
	return v, nil
}

// static runs a generated initialiser and reads the static data it leaves.
func (v *Env) static(name string) *Static {
	s := &Static{}
	fn := v.P.Parser.Func(name)
	if fn == nil {
		s.Err = "no function " + name
		return s
	}
	e, got := v.Engine()
	defer e.S.Close()
	e.MaxSteps = 5000000
	fs := e.Run(v.Base.Clone(), fn, nil, nil)
	if len(fs) != 1 || fs[0].Stuck != "" || fs[0].Panicked != nil || len(*got) != 1 {
		s.Err = name + " is not understood"
		if len(fs) > 0 {
			s.Err += ": " + fs[0].Stuck + " " + fs[0].StuckPos
		}
		return s
	}
	s.State = fs[0]
	s.Data = (*got)[0]
	var err error
	if s.ATN, err = ParseATN(s.Data); err != nil {
		s.Err = err.Error()
		return s
	}
	// the package variable that was initialised: the one with a ruleNames field
	for g, id := range s.State.Globals {
		t := g.Type().(*types.Pointer).Elem()
		if fieldIndex(t, "ruleNames") < 0 || fieldIndex(t, "decisionToDFA") < 0 {
			continue
		}
		p := PtrV{Obj: id}
		rn, _ := e.getField(s.State, p, t, "ruleNames")
		names := e.strSlice(s.State, rn)
		if names == nil {
			continue
		}
		s.Rules = names
		sn, _ := e.getField(s.State, p, t, "symbolicNames")
		s.Sym = e.strSlice(s.State, sn)
		s.DFAs, _ = e.getField(s.State, p, t, "decisionToDFA")
		s.Ptr, s.T = p, t
	}
	if s.Rules == nil {
		s.Err = "static data not found"
	}
	return s
}
