package govf

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"verif/spec"

	"golang.org/x/tools/go/ssa"
)

// Walk is the proof of the tree walk of one entry point: the callbacks of
// every node kind against the node contracts in spec/semantics.ag.
//
// The listener keeps a stack with one object per open node.  For a node kind P
// and every child kind C the code of "C was entered, its subtree was walked, C
// is left" is executed from a state in which P's object holds any values it
// can hold there, and the effect on P's object is compared with the contract
// `on C` of P.  Fields and attributes correspond one to one; the
// correspondence (the coupling invariant) is inferred and then checked on every
// event.
type Walk struct {
	a     *API
	v     *Env
	r     *Report
	ps    *Parser
	bad   string
	Entry string

	enter, exit *ssa.Function
	lis         Val
	obj         int
	lt          types.Type // the listener's struct
	stack       []int
	tmpl        *State
	lfields     []wfield
	ldirty      map[int]bool
	kinds       map[string]*wkind
	order       [][]string // levels
	inRule      map[string]map[string]bool
	prec        map[string]map[[2]string]bool
	trans       []string
	mu          sync.Mutex
}

// wfield is a leaf field of an object.
type wfield struct {
	path []int
	name string
	t    types.Type
	kind string // string builder int bool strs addrs addrvals loc ""
}

// wkind is a node kind.
type wkind struct {
	name   string
	node   *spec.Node
	leaf   bool
	ptr    types.Type
	et     types.Type
	fields []wfield
	dirty  map[int]bool // at exit
	before map[string]map[int]bool
	coup   map[string]cpl
	ctxs   []*TreeCtx
	bad    string
	// missing: some child is not understood; shaky: coup may be wrong for that
	missing, shaky bool
	enters         []*wenter
	recs           []*wrec
	bounds         map[string]string // pairs decided with bounded lists
}

type cpl struct {
	f   int
	neg bool
}

type wenter struct {
	pc    []*Term
	f     []*Term
	attrs map[string]*Term // leaf: the attributes of the context
}

type wrec struct {
	child     string
	variant   string
	ctx       *TreeCtx
	pc        []*Term
	pre, post []*Term
	what      []string // why a post value has no term
	cattr     map[string]*Term
}

// fieldKind classifies the type of a field.
func fieldKind(t types.Type) string {
	switch {
	case isPkgType(t, "strings", "Builder"):
		return "builder"
	case isString(t):
		return "string"
	case isInteger(t):
		return "int"
	case isBoolean(t):
		return "bool"
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isString(u.Elem()) {
			return "strs"
		}
		if isPkgType(u.Elem(), "net/mail", "Address") {
			return "addrvals"
		}
		if p, ok := u.Elem().Underlying().(*types.Pointer); ok && isPkgType(p.Elem(), "net/mail", "Address") {
			return "addrs"
		}
	case *types.Pointer:
		if isPkgType(u.Elem(), "time", "Location") {
			return "loc"
		}
	}
	return ""
}

// flatten lists the leaf fields of a struct.
func flatten(t types.Type, path []int, name string, depth int) []wfield {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 4 || isPkgType(t, "strings", "Builder") || isPkgType(t, "time", "Time") {
		return []wfield{{path: path, name: name, t: t, kind: fieldKind(t)}}
	}
	var out []wfield
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if name != "" {
			n = name + "." + n
		}
		out = append(out, flatten(s.Field(i).Type(), append(append([]int{}, path...), i), n, depth+1)...)
	}
	return out
}

func pathOf(fs []int) []PathEl {
	var p []PathEl
	for _, f := range fs {
		p = append(p, PathEl{Field: f})
	}
	return p
}

func attrKinds(ty string) []string {
	switch ty {
	case "string":
		return []string{"string", "builder"}
	case "int":
		return []string{"int"}
	case "bool":
		return []string{"bool"}
	case "strs":
		return []string{"strs"}
	case "addrs":
		return []string{"addrs", "addrvals"}
	case "loc":
		return []string{"loc"}
	}
	return nil
}

// ---- the grammar side -------------------------------------------------------

// events computes which node kinds can be closest descendants of a rule, and
// in which order.
func (w *Walk) events() {
	g := w.ps.G
	w.inRule = map[string]map[string]bool{}
	w.prec = map[string]map[[2]string]bool{}
	for r := range g.Rules {
		w.inRule[r] = map[string]bool{}
		w.prec[r] = map[[2]string]bool{}
	}
	isKind := func(r string) bool { return spec.TheAG.Nodes[r] != nil }
	evs := func(n *Node) []string {
		if n.Rule == "" {
			return nil
		}
		if isKind(n.Rule) {
			return []string{n.Rule}
		}
		return sortedKeys(w.inRule[n.Rule])
	}
	for changed := true; changed; {
		changed = false
		for r, rg := range g.Rules {
			var syms []*Node
			for _, n := range rg.Nodes {
				if n.Kind == "sym" && n.Rule != "" {
					syms = append(syms, n)
				}
			}
			for _, n := range syms {
				es := evs(n)
				for _, e := range es {
					if !w.inRule[r][e] {
						w.inRule[r][e] = true
						changed = true
					}
				}
				if !isKind(n.Rule) {
					for p := range w.prec[n.Rule] {
						if !w.prec[r][p] {
							w.prec[r][p] = true
							changed = true
						}
					}
				}
				// what can follow n
				seen := map[*Node]bool{}
				todo := []*Node{n.Next}
				for len(todo) > 0 {
					m := todo[len(todo)-1]
					todo = todo[:len(todo)-1]
					if m == nil || seen[m] {
						continue
					}
					seen[m] = true
					if m.Kind == "sym" {
						for _, a := range es {
							for _, b := range evs(m) {
								if !w.prec[r][[2]string{a, b}] {
									w.prec[r][[2]string{a, b}] = true
									changed = true
								}
							}
						}
					}
					todo = append(todo, m.Alts...)
					todo = append(todo, m.Next)
				}
			}
		}
	}
}

// plan collects the kinds and transparent rules below the entry rule and
// orders them bottom up.
func (w *Walk) plan() string {
	seen := map[string]bool{}
	transSeen := map[string]bool{}
	var visit func(rule string) string
	depth := map[string]int{}
	state := map[string]int{}
	visit = func(k string) string {
		if state[k] == 1 {
			return "node kinds are recursive"
		}
		if state[k] == 2 {
			return ""
		}
		state[k] = 1
		seen[k] = true
		d := 0
		for c := range w.inRule[k] {
			if msg := visit(c); msg != "" {
				return msg
			}
			d = max(d, depth[c]+1)
		}
		depth[k] = d
		state[k] = 2
		return ""
	}
	if msg := visit(w.a.Rule); msg != "" {
		return msg
	}
	var walk func(rule string)
	walk = func(rule string) {
		for _, n := range w.ps.G.Rules[rule].Nodes {
			if n.Kind != "sym" || n.Rule == "" || transSeen[n.Rule] {
				continue
			}
			transSeen[n.Rule] = true
			walk(n.Rule)
		}
	}
	walk(w.a.Rule)
	for _, r := range sortedKeys(transSeen) {
		if spec.TheAG.Nodes[r] == nil {
			w.trans = append(w.trans, r)
		}
	}
	w.kinds = map[string]*wkind{}
	for _, k := range sortedKeys(seen) {
		n := spec.TheAG.Nodes[k]
		w.kinds[k] = &wkind{name: k, node: n, leaf: len(n.OnList) == 0, dirty: map[int]bool{}, before: map[string]map[int]bool{}, coup: map[string]cpl{}}
		for len(w.order) <= depth[k] {
			w.order = append(w.order, nil)
		}
		w.order[depth[k]] = append(w.order[depth[k]], k)
	}
	return ""
}

func usesCall(x *spec.X, names ...string) bool {
	if x == nil {
		return false
	}
	if x.Op == "call" {
		for _, n := range names {
			if x.S == n {
				return true
			}
		}
	}
	for _, a := range x.Args {
		if usesCall(a, names...) {
			return true
		}
	}
	return false
}

// contexts lists the syntax tree nodes a kind is entered with: one node with
// any text, or all nodes when the contract depends on finitely many texts.
func (w *Walk) contexts(k *wkind) {
	digits, whole := false, false
	for _, a := range k.node.Attrs {
		digits = digits || usesCall(a.Init, "digits")
		whole = whole || usesCall(a.Init, "num", "monthnum", "offsetsecs", "zonesecs", "signed", "dropfirst") && !usesCall(a.Init, "digits")
	}
	if !k.leaf || !digits && !whole {
		k.ctxs = []*TreeCtx{{Rule: k.name, Text: Sym("text."+k.name, Str)}}
		return
	}
	n, bad := 0, false
	var seqs func(e *spec.Expr) [][]TreeKid
	cat := func(a, b [][]TreeKid) [][]TreeKid {
		var out [][]TreeKid
		for _, x := range a {
			for _, y := range b {
				out = append(out, append(append([]TreeKid{}, x...), y...))
			}
		}
		return out
	}
	tok := func(name string) [][]TreeKid {
		var out [][]TreeKid
		t := spec.TokenNumber(name)
		if spec.Classify(0xe9) == t {
			bad = true
		}
		for c := rune(0); c < 0x80; c++ {
			if spec.Classify(c) == t {
				out = append(out, []TreeKid{{Tok: t, Text: StrC(string(c))}})
			}
		}
		return out
	}
	seqs = func(e *spec.Expr) [][]TreeKid {
		switch e.Kind {
		case spec.KSym:
			if e.Tok {
				return tok(e.Sym)
			}
			if whole {
				r := spec.TheGrammar.Rules[e.Sym]
				var out [][]TreeKid
				for _, s := range seqs(r.RHS) {
					var ts []*Term
					for _, x := range s {
						ts = append(ts, x.Text)
					}
					out = append(out, []TreeKid{{Rule: e.Sym, Text: Cat(Str, ts...)}})
				}
				return out
			}
			n++
			return [][]TreeKid{{{Rule: e.Sym, Text: Sym(fmt.Sprintf("text.%s.%d", e.Sym, n), Str)}}}
		case spec.KSeq:
			out := [][]TreeKid{nil}
			for _, s := range e.Subs {
				out = cat(out, seqs(s))
			}
			return out
		case spec.KAlt:
			var out [][]TreeKid
			for _, s := range e.Subs {
				out = append(out, seqs(s)...)
			}
			return out
		case spec.KOpt:
			return append([][]TreeKid{nil}, seqs(e.Subs[0])...)
		}
		bad = true
		return nil
	}
	for _, s := range seqs(spec.TheGrammar.Rules[k.name].RHS) {
		var ts []*Term
		for _, x := range s {
			ts = append(ts, x.Text)
		}
		k.ctxs = append(k.ctxs, &TreeCtx{Rule: k.name, Text: Cat(Str, ts...), Kids: s, Done: true})
	}
	if bad {
		k.bad = "the texts of the rule are not finitely many"
	}
}

// ---- contract expressions ---------------------------------------------------

type xenv struct {
	own, child map[string]*Term
	ctx        *TreeCtx
}

func sortOf(ty string) Sort {
	switch ty {
	case "string":
		return Str
	case "int":
		return Int
	case "bool":
		return Bool
	case "strs":
		return SeqStr
	case "addrs":
		return SeqMb
	case "loc":
		return Loc
	}
	return Str
}

// EvalX turns a contract expression into a term; nil if it refers to an
// attribute without a value.
func EvalX(x *spec.X, en *xenv, want Sort) *Term {
	ev := func(y *spec.X, s Sort) *Term { return EvalX(y, en, s) }
	switch x.Op {
	case "lit-string":
		return StrC(x.S)
	case "lit-int":
		return IntC(int64(x.N))
	case "lit-bool":
		return BoolC(x.B)
	case "attr":
		return en.own[x.S]
	case "child":
		return en.child[x.S]
	case "list":
		if len(x.Args) == 0 {
			return Cat(want)
		}
		s := Str
		if want == SeqMb {
			s = Mb
		}
		if e := ev(x.Args[0], s); e != nil {
			return Unit(want, e)
		}
		return nil
	case "if":
		c := ev(x.Args[0], Bool)
		if c == nil {
			return nil
		}
		if c.True() {
			return ev(x.Args[1], want)
		}
		if c.False() {
			return ev(x.Args[2], want)
		}
		a, b := ev(x.Args[1], want), ev(x.Args[2], want)
		if a == nil || b == nil {
			return nil
		}
		return Ite(c, a, b)
	case "++":
		a, b := ev(x.Args[0], want), ev(x.Args[1], want)
		if a == nil || b == nil {
			return nil
		}
		return Cat(want, a, b)
	case "call":
		return evalCall(x, en)
	}
	s := Int
	if x.Op == "&&" || x.Op == "||" {
		s = Bool
	}
	if (x.Op == "==" || x.Op == "!=") && (x.Args[1].Op == "lit-string" || x.Args[0].Op == "lit-string") {
		s = Str
	}
	a, b := ev(x.Args[0], s), ev(x.Args[1], s)
	if a == nil || b == nil {
		return nil
	}
	switch x.Op {
	case "==":
		return Eq(a, b)
	case "!=":
		return Not(Eq(a, b))
	case "<":
		return Lt(a, b)
	case ">=":
		return Not(Lt(a, b))
	case "+":
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "&&":
		return And(a, b)
	case "||":
		return Or(a, b)
	}
	panic("contract operator " + x.Op)
}

func evalCall(x *spec.X, en *xenv) *Term {
	arg := func(i int, s Sort) *Term { return EvalX(x.Args[i], en, s) }
	str := func(i int) (*Term, bool) {
		t := arg(i, Str)
		return t, t != nil && t.IsStr()
	}
	switch x.S {
	case "text":
		return en.ctx.Text
	case "digits":
		var ts []*Term
		for _, k := range en.ctx.Kids {
			if k.Rule == "" && k.Tok == spec.TokenNumber("Digit") {
				ts = append(ts, k.Text)
			}
		}
		return Cat(Str, ts...)
	case "utc":
		return Sym0("utc", Loc)
	case "unfold":
		if t := arg(0, Str); t != nil {
			if t.IsStr() {
				return StrC(strings.ReplaceAll(t.S, "\r\n", ""))
			}
			return App("str.replace_all", Str, t, StrC("\r\n"), StrC(""))
		}
		return nil
	case "decodable", "decoded":
		s := Bool
		if x.S == "decoded" {
			s = Str
		}
		if t := arg(0, Str); t != nil {
			return App(x.S, s, Sym("CharsetReader", Fn), t)
		}
		return nil
	case "joindots":
		t := arg(0, SeqStr)
		if t == nil {
			return nil
		}
		if t.Op == "++" && len(t.Args) == 0 {
			return StrC("")
		}
		if parts, ok := unitsOf(t); ok {
			var ts []*Term
			for i, p := range parts {
				if i > 0 {
					ts = append(ts, StrC("."))
				}
				ts = append(ts, p)
			}
			return Cat(Str, ts...)
		}
		return App("join", Str, t, StrC("."))
	case "mbox":
		a, b := arg(0, Str), arg(1, Str)
		if a == nil || b == nil {
			return nil
		}
		return App("mbox", Mb, a, b)
	case "fixedzone":
		a, b := arg(0, Str), arg(1, Int)
		if a == nil || b == nil {
			return nil
		}
		return App("fixedzone", Loc, a, b)
	case "len":
		if t := arg(0, Str); t != nil {
			return Len(t)
		}
		return nil
	case "date":
		var ts []*Term
		for i := range x.Args {
			s := Int
			if i == 6 {
				s = Loc
				ts = append(ts, IntC(0))
			}
			t := arg(i, s)
			if t == nil {
				return nil
			}
			ts = append(ts, t)
		}
		return App("date", Date, ts...)
	}
	t, ok := str(0)
	if !ok {
		return nil
	}
	s := t.S
	switch x.S {
	case "num":
		n := int64(0)
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return nil
			}
			n = n*10 + int64(s[i]-'0')
		}
		return IntC(n)
	case "dropfirst":
		if s == "" {
			return nil
		}
		return StrC(s[1:])
	case "monthnum":
		for i, m := range spec.Months {
			if strings.EqualFold(m, s) {
				return IntC(int64(i + 1))
			}
		}
		return nil
	case "signed":
		return BoolC(strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-"))
	case "offsetsecs":
		sg := int64(1)
		if strings.HasPrefix(s, "-") {
			sg = -1
		}
		s = strings.TrimLeft(s, "+-")
		if len(s) != 4 {
			return nil
		}
		d := func(i int) int64 { return int64(s[i] - '0') }
		return IntC(sg * ((d(0)*10+d(1))*3600 + (d(2)*10+d(3))*60))
	case "zonesecs":
		if n, ok := spec.Zones[strings.ToLower(s)]; ok {
			return IntC(int64(n))
		}
		return nil
	}
	panic("contract function " + x.S)
}

func unitsOf(t *Term) ([]*Term, bool) {
	if t.Op == "app" && t.S == "seq.unit" {
		return t.Args, true
	}
	if t.Op != "++" {
		return nil, false
	}
	var out []*Term
	for _, a := range t.Args {
		u, ok := unitsOf(a)
		if !ok {
			return nil, false
		}
		out = append(out, u...)
	}
	return out, true
}

// ---- objects -----------------------------------------------------------------

// term is the contract value of a field.
func (e *Engine) term(st *State, v Val, f wfield) (*Term, string) {
	switch f.kind {
	case "string", "int", "bool":
		if t, ok := v.(*Term); ok {
			return t, ""
		}
	case "builder":
		if b, ok := v.(BuilderC); ok {
			return b.T, ""
		}
	case "loc":
		switch t := v.(type) {
		case *Term:
			return t, ""
		case NilV:
			return nil, "nil location"
		}
	case "strs", "addrs", "addrvals":
		s := SeqMb
		if f.kind == "strs" {
			s = SeqStr
		}
		switch l := v.(type) {
		case NilV:
			return Cat(s), ""
		case SliceV:
			segs, ok := e.region(st, l)
			if !ok {
				return nil, "a list of unknown content"
			}
			var ts []*Term
			for _, g := range segs {
				if g.Kind == "opaque" {
					if g.Seq.Sort != s {
						return nil, "a list of another kind"
					}
					ts = append(ts, g.Seq)
					continue
				}
				if f.kind == "strs" {
					t, ok := g.V.(*Term)
					if !ok {
						return nil, "a list of unknown content"
					}
					ts = append(ts, Unit(s, t))
					continue
				}
				t, msg := e.mailbox(st, g.V)
				if msg != "" {
					return nil, msg
				}
				ts = append(ts, Unit(s, t))
			}
			return Cat(s, ts...), ""
		}
	}
	return nil, "a value of unknown content (" + v.vkey() + ")"
}

func (e *Engine) mailbox(st *State, v Val) (*Term, string) {
	if _, isNil := v.(NilV); isNil {
		return nil, "a nil mailbox"
	}
	if p, ok := v.(PtrV); ok {
		x, msg := e.Load(st, p)
		if msg != "" {
			return nil, msg
		}
		v = x
	}
	s, ok := v.(StructV)
	if !ok || len(s.F) != 2 {
		return nil, "a mailbox of unknown content"
	}
	a, ok1 := s.F[0].(*Term)
	b, ok2 := s.F[1].(*Term)
	if !ok1 || !ok2 {
		return nil, "a mailbox of unknown content"
	}
	return App("mbox", Mb, a, b), ""
}

// havoc gives a field any value: one value per variant.
func (w *Walk) havoc(st *State, p PtrV, f wfield, tag string, bound int) ([]*State, string) {
	set := func(s *State, v Val) {
		c := s.Heap[p.Obj]
		nv, _ := (&Engine{}).writePath(c.V, append(append([]PathEl{}, p.Path...), pathOf(f.path)...), v)
		s.Heap[p.Obj] = &Cell{T: c.T, V: nv, Owner: c.Owner}
	}
	name := tag + "." + f.name
	switch f.kind {
	case "string":
		set(st, st.Fresh(name, Str))
	case "builder":
		set(st, BuilderC{st.Fresh(name, Str)})
	case "int":
		set(st, st.Fresh(name, Int))
	case "bool":
		set(st, st.Fresh(name, Bool))
	case "loc":
		set(st, st.Fresh(name, Loc))
	case "strs", "addrs", "addrvals":
		var out []*State
		s0 := st.Clone()
		set(s0, NilV{})
		out = append(out, s0)
		sort := SeqMb
		if f.kind == "strs" {
			sort = SeqStr
		}
		if bound < 0 {
			q := st.Fresh(name, sort)
			n := Len(q)
			c := st.Fresh(name+".cap", Int)
			st.Assume(Le(IntC(0), n))
			st.Assume(Le(IntC(0), c))
			id := st.New(f.t, SegV{[]Seg{{Kind: "opaque", Seq: q, Len: n}, {Kind: "spare", Len: c}}}, "fn")
			set(st, SliceV{id, IntC(0), n, Add(n, c)})
			return append(out, st), ""
		}
		for k := 0; k <= bound; k++ {
			s1 := st.Clone()
			var segs []Seg
			for j := 0; j < k; j++ {
				var v Val
				switch f.kind {
				case "strs":
					v = s1.Fresh(name+".elem", Str)
				default:
					v = StructV{[]Val{s1.Fresh(name+".name", Str), s1.Fresh(name+".addr", Str)}}
					if f.kind == "addrs" {
						pt := f.t.Underlying().(*types.Slice).Elem().Underlying().(*types.Pointer)
						v = PtrV{Obj: s1.New(pt.Elem(), v, "fn")}
					}
				}
				segs = append(segs, Seg{Kind: "cell", V: v, Len: IntC(1)})
			}
			c := s1.Fresh(name+".cap", Int)
			s1.Assume(Le(IntC(0), c))
			segs = append(segs, Seg{Kind: "spare", Len: c})
			id := s1.New(f.t, SegV{segs}, "fn")
			set(s1, SliceV{id, IntC(0), IntC(int64(k)), Add(IntC(int64(k)), c)})
			out = append(out, s1)
		}
		return out, ""
	default:
		return nil, fmt.Sprintf("field %s of type %s changes and cannot be generalised", f.name, shortType(f.t))
	}
	return []*State{st}, ""
}

// havocAll generalises a set of fields.
func (w *Walk) havocAll(st *State, p PtrV, fs []wfield, which map[int]bool, tag string, bound int) ([]*State, string) {
	sts := []*State{st}
	for i, f := range fs {
		if !which[i] {
			continue
		}
		var next []*State
		for _, s := range sts {
			n, msg := w.havoc(s, p, f, tag, bound)
			if msg != "" {
				return nil, msg
			}
			next = append(next, n...)
		}
		sts = next
	}
	return sts, ""
}

// vals reads the fields of an object.
func (e *Engine) vals(st *State, p PtrV, fs []wfield) []Val {
	var out []Val
	for _, f := range fs {
		v, msg := e.Load(st, PtrV{p.Obj, append(append([]PathEl{}, p.Path...), pathOf(f.path)...)})
		if msg != "" {
			v = GhostV{Kind: "unreadable", ID: msg}
		}
		out = append(out, v)
	}
	return out
}

func (e *Engine) terms(st *State, p PtrV, fs []wfield) ([]*Term, []string) {
	vs := e.vals(st, p, fs)
	out, why := make([]*Term, len(fs)), make([]string, len(fs))
	for i, f := range fs {
		if f.kind != "" {
			out[i], why[i] = e.term(st, vs[i], f)
		}
	}
	return out, why
}

// ---- the stack -----------------------------------------------------------------

func (w *Walk) lisPath(fs []int) PtrV { return PtrV{Obj: w.obj, Path: pathOf(fs)} }

// elems returns the elements above the prefix, and whether the prefix is intact.
func (w *Walk) elems(e *Engine, st *State) ([]Val, string) {
	v, msg := e.Load(st, w.lisPath(w.stack))
	if msg != "" {
		return nil, msg
	}
	var segs []Seg
	switch s := v.(type) {
	case NilV:
	case SliceV:
		r, ok := e.region(st, s)
		if !ok {
			return nil, "the stack is not known"
		}
		segs = r
	default:
		return nil, "the stack is " + v.vkey()
	}
	if p := w.prefix(st); p != nil {
		if len(segs) == 0 || segs[0].Kind != "opaque" || segs[0].Seq.Key() != p.Key() {
			return nil, "the stack below the node is not preserved"
		}
		segs = segs[1:]
	}
	var out []Val
	for _, s := range segs {
		if s.Kind != "cell" {
			return nil, "the stack is not known"
		}
		out = append(out, s.V)
	}
	return out, ""
}

type wghost struct {
	prefix *Term
}

func (g *wghost) Clone() Ghost { n := *g; return &n }
func (g *wghost) Key() string  { return "w" }

func (w *Walk) prefix(st *State) *Term {
	if g, ok := st.G.(*wghost); ok {
		return g.prefix
	}
	return nil
}

// setStack makes the stack prefix ++ elems, with any spare capacity.
func (w *Walk) setStack(e *Engine, st *State, elems ...Val) {
	var segs []Seg
	n := IntC(int64(len(elems)))
	if p := w.prefix(st); p != nil {
		segs = append(segs, Seg{Kind: "opaque", Seq: p, Len: Len(p)})
		n = Add(n, Len(p))
	}
	for _, v := range elems {
		segs = append(segs, Seg{Kind: "cell", V: v, Len: IntC(1)})
	}
	c := st.Fresh("stack.cap", Int)
	st.Assume(Le(IntC(0), c))
	segs = append(segs, Seg{Kind: "spare", Len: c})
	cell := st.Heap[w.obj]
	ft := w.lt
	for _, i := range w.stack {
		ft = ft.Underlying().(*types.Struct).Field(i).Type()
	}
	id := st.New(ft, SegV{segs}, "fn")
	nv, _ := e.writePath(cell.V, pathOf(w.stack), SliceV{id, IntC(0), n, Add(n, c)})
	st.Heap[w.obj] = &Cell{T: cell.T, V: nv, Owner: cell.Owner}
}

// ---- running events ---------------------------------------------------------

type wrun struct {
	w   *Walk
	e   *Engine
	tr  *Trees
	rcv Val
}

func (w *Walk) newRun() *wrun {
	e, _ := w.v.Engine()
	e.MaxSteps = 60000
	e.MaxPaths = 2000
	return &wrun{w: w, e: e, tr: w.v.NewTrees(e, w.ps), rcv: NilV{}}
}

func (x *wrun) close() {
	x.w.r.Absorb(x.e)
	x.e.S.Close()
}

func (x *wrun) call(st *State, fn *ssa.Function, ctx Val) []*State {
	st.Steps = 0
	return x.possible(x.e.Run(st, fn, nil, []Val{x.rcv, x.w.lis, ctx}))
}

// possible drops the paths that no text of the grammar takes.
func (x *wrun) possible(fs []*State) []*State {
	var out []*State
	for _, s := range fs {
		if s.Forks == 0 || x.e.S.Possible(s.PC) {
			out = append(out, s)
		}
	}
	return out
}

// start is the state before a node is entered at any depth.
func (x *wrun) start(root bool) []*State {
	st := x.w.tmpl.Clone()
	g := &wghost{}
	if !root {
		g.prefix = Sym("stack", SeqMb)
		st.Assume(Le(IntC(1), Len(g.prefix)))
	}
	st.G = g
	if !root {
		x.w.setStack(x.e, st)
	}
	sts, msg := x.w.havocAll(st, PtrV{Obj: x.w.obj}, x.w.lfields, x.w.ldirty, "listener", -1)
	if msg != "" {
		return nil
	}
	return sts
}

// frame compares two states: everything but the allowed objects and the stack
// must be as before.  Changed listener fields are returned.
func (x *wrun) frame(before, after *State, allow map[int]bool) (lf []int, bad []string) {
	ids := make([]int, 0, len(before.Heap))
	for id := range before.Heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		b, a := before.Heap[id], after.Heap[id]
		if a == b || allow[id] {
			continue
		}
		if id == x.w.obj {
			vb, va := x.e.vals(before, PtrV{Obj: id}, x.w.lfields), x.e.vals(after, PtrV{Obj: id}, x.w.lfields)
			for i := range vb {
				if vb[i].vkey() != va[i].vkey() {
					lf = append(lf, i)
				}
			}
			continue
		}
		if a == nil || a.V.vkey() != b.V.vkey() {
			bad = append(bad, fmt.Sprintf("an object of type %s of another owner changes", shortType(b.T)))
		}
	}
	for _, id := range ids {
		if after.Heap[id] != nil && after.lost(PtrV{Obj: id}) {
			bad = append(bad, "something that outlives the callback is part of an object that was given back to a pool")
			break
		}
	}
	bad = append(bad, after.Impure...)
	return lf, bad
}

// lists adds the backing arrays the fields of an object own.
func (x *wrun) lists(st *State, p PtrV, fs []wfield, m map[int]bool) (dup bool) {
	for _, v := range x.e.vals(st, p, fs) {
		if s, ok := v.(SliceV); ok {
			if m[s.Obj] {
				dup = true
			}
			m[s.Obj] = true
		}
	}
	return dup
}

// elemObj is the object of a stack element.
func elemObj(v Val) (PtrV, types.Type, bool) {
	if iv, ok := v.(IfaceV); ok {
		if p, ok := iv.V.(PtrV); ok {
			return p, iv.T, true
		}
	}
	return PtrV{}, nil, false
}
