package govf

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the code under verification, loaded from source.
type Program struct {
	Dir     string
	Root    string // module path of the code under verification
	Prog    *ssa.Program
	Pkg     *ssa.Package // root package
	Parser  *ssa.Package
	Antlr   *ssa.Package
	Fset    *token.FileSet
	Extra   map[string]bool // further packages executed by their body
	Sources []string

	mu     sync.Mutex
	consts map[*ssa.Package]map[*ssa.Global]Val
}

// constGlobal is the value of a package variable of basic type that is only
// ever set by the initialiser of its package, to a constant.
func (p *Program) constGlobal(g *ssa.Global) (Val, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	m, ok := p.consts[g.Pkg]
	if !ok {
		m = map[*ssa.Global]Val{}
		bad := map[*ssa.Global]bool{}
		for _, x := range g.Pkg.Members {
			if v, ok := x.(*ssa.Global); ok {
				t := v.Type().(*types.Pointer).Elem()
				if _, ok := t.Underlying().(*types.Basic); ok {
					m[v] = Zero(t)
				}
			}
		}
		for fn := range ssautil.AllFunctions(p.Prog) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if v, ok := s.Addr.(*ssa.Global); ok && v.Pkg == g.Pkg {
							c, isC := s.Val.(*ssa.Const)
							if fn.Pkg == g.Pkg && fn.Name() == "init" && isC {
								if _, have := m[v]; have {
									m[v] = constVal(c)
								}
								continue
							}
							bad[v] = true
						}
						if v, ok := s.Val.(*ssa.Global); ok {
							bad[v] = true
						}
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					for _, op := range ins.Operands(nil) {
						if v, ok := (*op).(*ssa.Global); ok {
							bad[v] = true // its address escapes
						}
					}
				}
			}
		}
		for v := range bad {
			delete(m, v)
		}
		if p.consts == nil {
			p.consts = map[*ssa.Package]map[*ssa.Global]Val{}
		}
		p.consts[g.Pkg] = m
	}
	v, ok := m[g]
	return v, ok
}

// AntlrPath is the import path of the runtime.
const AntlrPath = "github.com/antlr/antlr4/runtime/Go/antlr"

// Load loads and builds the program in dir.
func Load(dir string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Prog: prog, Fset: prog.Fset, Extra: map[string]bool{AntlrPath: true}}
	for _, k := range pkgs {
		if k.Module != nil {
			p.Root = k.Module.Path
		}
		for _, f := range k.GoFiles {
			p.Sources = append(p.Sources, f)
		}
	}
	sort.Strings(p.Sources)
	for _, k := range prog.AllPackages() {
		switch k.Pkg.Path() {
		case p.Root:
			p.Pkg = k
		case p.Root + "/parser":
			p.Parser = k
		case AntlrPath:
			p.Antlr = k
		}
	}
	if p.Pkg == nil || p.Parser == nil || p.Antlr == nil {
		return nil, fmt.Errorf("packages not found under %s", dir)
	}
	return p, nil
}

// Pos renders a position relative to the module.
func (p *Program) Pos(pos token.Pos) string {
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// Type finds a named type of a package.
func TypeOf(p *ssa.Package, name string) types.Type {
	if t := p.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// Method finds a method of a type (with promotion).
func (p *Program) Method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	return p.Prog.LookupMethod(t, pkg, name)
}

func typesMethodSet(t types.Type) map[string]bool {
	m := map[string]bool{}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m[ms.At(i).Obj().Name()] = true
	}
	return m
}
