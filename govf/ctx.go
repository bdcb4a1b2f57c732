package govf

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TreeCtx is a node of the ghost syntax tree.
type TreeCtx struct {
	Rule string
	Text *Term
	Kids []TreeKid // nil: unknown
	Done bool      // Kids is complete
}

// TreeKid is a child: a token (Rule empty) or a subtree.
type TreeKid struct {
	Rule string
	Tok  int
	Text *Term
}

// Trees holds the ghost syntax trees an engine knows and the contracts of the
// accessors of syntax tree nodes.
type Trees struct {
	v    *Env
	ps   *Parser
	node map[string]*TreeCtx
	leaf map[string]TreeKid
	n    int
}

// NewTrees installs the accessor contracts.
func (v *Env) NewTrees(e *Engine, ps *Parser) *Trees {
	t := &Trees{v: v, ps: ps, node: map[string]*TreeCtx{}, leaf: map[string]TreeKid{}}
	k := e.Contracts
	b := "(*" + AntlrPath + ".BaseParserRuleContext)."
	at := func(c *Call) *TreeCtx {
		g, ok := c.Args[0].(GhostV)
		if !ok {
			return nil
		}
		return t.node[g.ID]
	}
	with := func(name string, f func(c *Call, n *TreeCtx) []Out) {
		k[b+name] = func(c *Call) []Out {
			n := at(c)
			if n == nil {
				return stuckOut(c, "%s of an unknown node", name)
			}
			return f(c, n)
		}
	}
	with("GetText", func(c *Call, n *TreeCtx) []Out { return ok(c, n.Text) })
	kids := func(f func(c *Call, n *TreeCtx) []Out) func(c *Call, n *TreeCtx) []Out {
		return func(c *Call, n *TreeCtx) []Out {
			if !n.Done {
				return stuckOut(c, "children of a node of unknown shape")
			}
			return f(c, n)
		}
	}
	list := func(c *Call, vs []Val) Val {
		sg := SegV{}
		for _, v := range vs {
			sg.Segs = append(sg.Segs, Seg{Kind: "cell", V: v, Len: IntC(1)})
		}
		n := IntC(int64(len(vs)))
		return SliceV{c.St.New(c.Sig.Results().At(0).Type(), sg, ""), IntC(0), n, n}
	}
	with("GetChildCount", kids(func(c *Call, n *TreeCtx) []Out { return ok(c, IntC(int64(len(n.Kids)))) }))
	with("GetChildren", kids(func(c *Call, n *TreeCtx) []Out {
		var vs []Val
		for _, x := range n.Kids {
			vs = append(vs, t.kid(c.St, x))
		}
		return ok(c, list(c, vs))
	}))
	with("GetChild", kids(func(c *Call, n *TreeCtx) []Out {
		i, isT := c.Args[1].(*Term)
		if !isT || !i.IsInt() {
			return stuckOut(c, "GetChild")
		}
		if i.N < 0 || int(i.N) >= len(n.Kids) {
			return []Out{{St: c.St, Panic: &PanicInfo{V: IfaceV{types.Typ[types.String], GhostV{Kind: "runtimeError", ID: "index"}}, Desc: "GetChild: index out of range at " + c.E.where(c.St)}}}
		}
		return ok(c, t.kid(c.St, n.Kids[i.N]))
	}))
	toks := func(n *TreeCtx, ty Val) ([]TreeKid, bool) {
		tt, isT := ty.(*Term)
		if !isT || !tt.IsInt() {
			return nil, false
		}
		var out []TreeKid
		for _, x := range n.Kids {
			if x.Rule == "" && x.Tok == int(tt.N) {
				out = append(out, x)
			}
		}
		return out, true
	}
	with("GetTokens", kids(func(c *Call, n *TreeCtx) []Out {
		ks, good := toks(n, c.Args[1])
		if !good {
			return stuckOut(c, "GetTokens")
		}
		var vs []Val
		for _, x := range ks {
			vs = append(vs, t.kid(c.St, x))
		}
		return ok(c, list(c, vs))
	}))
	with("GetToken", kids(func(c *Call, n *TreeCtx) []Out {
		ks, good := toks(n, c.Args[1])
		i, isT := c.Args[2].(*Term)
		if !good || !isT || !i.IsInt() {
			return stuckOut(c, "GetToken")
		}
		if i.N < 0 || int(i.N) >= len(ks) {
			return ok(c, NilV{})
		}
		return ok(c, t.kid(c.St, ks[i.N]))
	}))
	gk := e.Ghosts
	gk["nnleaf.GetText"] = func(c *Call) []Out { return ok(c, t.leaf[c.Recv.(GhostV).ID].Text) }
	gk["nnleaf.GetSymbol"] = func(c *Call) []Out {
		return ok(c, IfaceV{T: types.NewPointer(TypeOf(v.P.Antlr, "CommonToken")), V: GhostV{Kind: "nnltok", ID: c.Recv.(GhostV).ID}})
	}
	gk["nnltok.GetText"] = gk["nnleaf.GetText"]
	gk["nnltok.GetTokenType"] = func(c *Call) []Out { return ok(c, IntC(int64(t.leaf[c.Recv.(GhostV).ID].Tok))) }
	// static calls on the concrete types
	k["(*"+AntlrPath+".TerminalNodeImpl).GetText"] = func(c *Call) []Out {
		if g, isG := c.Args[0].(GhostV); isG && g.Kind == "nnleaf" {
			return ok(c, t.leaf[g.ID].Text)
		}
		return stuckOut(c, "GetText of %v", c.Args[0].vkey())
	}
	return t
}

func (t *Trees) kid(st *State, x TreeKid) Val {
	if x.Rule == "" {
		id := fmt.Sprintf("%d:%s", x.Tok, x.Text.Key())
		t.leaf[id] = x
		return IfaceV{T: types.NewPointer(TypeOf(t.v.P.Antlr, "TerminalNodeImpl")), V: GhostV{Kind: "nnleaf", ID: id}}
	}
	return t.Node(st, &TreeCtx{Rule: x.Rule, Text: x.Text})
}

// Node makes a syntax tree node of the type the parser builds for the rule.
func (t *Trees) Node(st *State, n *TreeCtx) Val {
	ct := t.ps.Rules[n.Rule].CtxType
	if ct == nil {
		return NilV{}
	}
	t.n++
	id := fmt.Sprintf("%s#%d", n.Rule, t.n)
	t.node[id] = n
	et := ct.Underlying().(*types.Pointer).Elem()
	sv := ghostStruct(et, "nodefield")
	if i := fieldIndex(et, "BaseParserRuleContext"); i >= 0 {
		sv.F[i] = GhostV{Kind: "nnctxbase", ID: id}
	}
	return IfaceV{T: ct, V: PtrV{Obj: st.New(et, sv, "")}}
}

// walkFns are the callbacks of the runtime's tree walk.
func (v *Env) walkFns() (enter, exit *ssa.Function) {
	t := TypeOf(v.P.Antlr, "ParseTreeWalker")
	if t == nil {
		return nil, nil
	}
	pt := types.NewPointer(t)
	return v.P.Method(pt, v.P.Antlr.Pkg, "EnterRule"), v.P.Method(pt, v.P.Antlr.Pkg, "ExitRule")
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func trimPkg(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}
