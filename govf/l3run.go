package govf

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/spec"

	"golang.org/x/tools/go/ssa"
)

// leafProps is the property that the lexical value of a node kind belongs to.
var leafProps = map[string][]string{
	"day": {"C08"}, "month": {"C08"}, "hour": {"C08"}, "minute": {"C08"}, "second": {"C08"}, "year": {"C08", "C10"},
	"offset": {"C09"}, "obsZone": {"C09"},
	"fws": {"C05"}, "qtext": {"C05"}, "quotedChar": {"C05"}, "obsQP": {"C05"},
	"encodedWord": {"C06"}, "unspaced": {"C04"},
	"atom": {"C03"}, "dotAtom": {"C03"}, "domainLiteral": {"C03"}, "port": {"C03"},
}

// attrProps is the property that an attribute belongs to.
func attrProps(p, attr string) []string {
	switch p {
	case "dateTime":
		switch attr {
		case "loc":
			return []string{"C09"}
		}
		return []string{"C08"}
	case "zone":
		return []string{"C09"}
	case "addressList", "address", "group", "groupList", "mailboxList", "obsMboxList":
		return []string{"C07"}
	case "mailbox", "nameAddr":
		if attr == "name" {
			return []string{"C04"}
		}
		return []string{"C03"}
	case "displayName":
		return []string{"C04"}
	case "word":
		if attr == "val" {
			return []string{"C04"}
		}
		return []string{"C03"}
	case "quotedPair", "quotedContent", "quotedValue", "quotedString":
		return []string{"C05"}
	}
	if l, ok := leafProps[p]; ok {
		return l
	}
	return []string{"C03"}
}

func pairProps(p, attr, child, variant string) []string {
	n := spec.TheAG.Nodes[p]
	m := map[string]bool{}
	for _, x := range attrProps(p, attr) {
		m[x] = true
	}
	listed := false
	for _, as := range n.On[child] {
		listed = listed || as.Attr == attr
	}
	switch {
	case !listed:
		if len(n.On[child]) == 0 {
			m["C14"] = true
		}
	case child == "year":
		if variant == "2" {
			return []string{"C10"}
		}
		return []string{"C08"}
	case child == "mailbox" && n.AttrType(attr) == "addrs":
		m["C03"], m["C04"] = true, true
	default:
		switch child {
		case "quotedString", "quotedValue", "quotedContent", "quotedPair", "fws", "qtext", "quotedChar", "obsQP":
			m["C05"] = true
		case "encodedWord":
			m["C06"] = true
		}
	}
	return sortedKeys(m)
}

// NewWalk prepares the proof of the walk of an entry point.
func (a *API) NewWalk() *Walk {
	w := &Walk{a: a, v: a.v, ps: a.ps, Entry: a.Name, ldirty: map[int]bool{}}
	a.W = w
	return w
}

// Prove proves the walk and reports on r.
func (w *Walk) Prove(r *Report, workers int) {
	o := r.Oblige("walker/"+w.Entry+"/structure", "walker", "the listener of "+w.Entry+" keeps one object per open node on a stack", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C16")
	w.r = r
	w.discover()
	if w.bad == "" {
		w.events()
		w.bad = w.plan()
	}
	if w.bad != "" {
		r.Fail(o, true, "%s", w.bad)
		return
	}
	for round := 0; ; round++ {
		w.r = NewReport()
		n := len(w.ldirty)
		w.proveAll(workers)
		if len(w.ldirty) == n || round > 3 {
			break
		}
		for i := range w.ldirty {
			if w.lfields[i].kind == "" {
				isErr := types.Identical(w.lfields[i].t, types.Universe.Lookup("error").Type())
				w.r.Fail(w.r.Oblige("walker/"+w.Entry+"/listener", "walker", "the listener has no state besides the stack that the walk changes", "C02", "C12"),
					!isErr, "field %s of the listener changes", w.lfields[i].name)
				delete(w.ldirty, i)
			}
		}
		if len(w.ldirty) == n {
			break
		}
		// start afresh with the listener's own state generalised
		for _, k := range w.kinds {
			k.dirty, k.before, k.coup = map[int]bool{}, map[string]map[int]bool{}, map[string]cpl{}
			k.enters, k.recs, k.bounds = nil, nil, nil
			k.missing, k.shaky = false, false
		}
	}
	w.shared()
	r.Merge(w.r)
	w.r = r
}

// shared sums up what the walk does to what other calls can see.
func (w *Walk) shared() {
	o := w.r.Oblige("walker/"+w.Entry+"/shared", "walker", "no callback writes package data or anything else that outlives the call", "C16")
	for _, id := range append([]string{}, w.r.Order...) {
		x := w.r.Obls[id]
		if x == o || x.OK {
			continue
		}
		n := false
		for _, m := range x.Why {
			if strings.Contains(m, "package variable") || strings.Contains(m, "package data") || strings.Contains(m, "shared map") {
				w.r.Fail(o, false, "%s", m)
				n = true
			}
		}
		if x.Stuck && !n {
			w.r.Fail(o, true, "%s is undecided", id)
		}
	}
}

// discover finds the stack of the listener.
func (w *Walk) discover() {
	a := w.a
	if a.At == nil || a.Lis == nil {
		w.bad = "no tree walk was found"
		return
	}
	iv, ok := a.Lis.(IfaceV)
	if !ok {
		w.bad = "the listener is " + a.Lis.vkey()
		return
	}
	p, ok := iv.V.(PtrV)
	if !ok || len(p.Path) > 0 {
		w.bad = "the listener is not an object"
		return
	}
	w.lis, w.obj = a.Lis, p.Obj
	st := a.At.Clone()
	st.Frames, st.G, st.PC, st.Impure = nil, nil, nil, nil
	w.lt = st.Heap[p.Obj].T
	w.enter, w.exit = w.v.walkFns()
	if w.enter == nil || w.exit == nil {
		w.bad = "the runtime has no tree walker"
		return
	}
	// keep what the listener and the globals reach
	keep := map[int]bool{}
	st.reach(PtrV{Obj: p.Obj}, keep)
	for _, id := range st.Globals {
		st.reach(PtrV{Obj: id}, keep)
	}
	for id := range st.Heap {
		if !keep[id] {
			delete(st.Heap, id)
		}
	}
	w.tmpl = st
	all := flatten(w.lt, nil, "", 0)
	x := w.newRun()
	defer x.close()
	s0 := st.Clone()
	fs := x.call(s0, w.enter, x.tr.Node(s0, &TreeCtx{Rule: a.Rule, Text: Sym("text."+a.Rule, Str)}))
	if len(fs) == 0 || fs[0].Stuck != "" || fs[0].Panicked != nil {
		w.bad = "entering the root is not understood"
		if len(fs) > 0 && fs[0].Stuck != "" {
			w.bad += ": " + fs[0].Stuck + " at " + fs[0].StuckPos
		} else if len(fs) > 0 {
			w.bad += ": " + fs[0].Panicked.Desc
		}
		return
	}
	for i, f := range all {
		if _, isS := f.t.Underlying().(*types.Slice); !isS {
			continue
		}
		b, a := x.e.vals(st, p, all)[i], x.e.vals(fs[0], p, all)[i]
		s, isSl := a.(SliceV)
		if !isSl || !isEmptyList(b) || !s.Len.IsInt() || s.Len.N != 1 {
			continue
		}
		vs, good := x.e.sliceConst(fs[0], s)
		if !good || len(vs) != 1 {
			continue
		}
		if q, _, good := elemObj(vs[0]); good && w.tmpl.Heap[q.Obj] == nil {
			w.stack = f.path
			w.lfields = append(append([]wfield{}, all[:i]...), all[i+1:]...)
			return
		}
	}
	w.bad = "the listener has no stack of nodes"
}

func (w *Walk) proveAll(workers int) {
	var jobs []func()
	// registration in a fixed order
	for _, lvl := range w.order {
		for _, n := range lvl {
			w.kinds[n].bad = ""
			w.contexts(w.kinds[n])
			w.register(w.kinds[n])
		}
	}
	for _, r := range w.trans {
		r := r
		o := w.r.Oblige("walker/"+w.Entry+"/transparent/"+r, "walker", "entering and leaving a "+r+" changes nothing", "C14", "C12", "C11")
		jobs = append(jobs, func() { w.transparent(r, o) })
	}
	o := w.r.Oblige("walker/"+w.Entry+"/terminals", "walker", "visiting a token changes nothing", "C14", "C12", "C11")
	jobs = append(jobs, func() { w.terminals(o) })
	Parallel(workers, jobs)
	for _, lvl := range w.order {
		jobs = nil
		for _, n := range lvl {
			k := w.kinds[n]
			jobs = append(jobs, func() { w.prove(k) })
		}
		Parallel(workers, jobs)
	}
}

func (w *Walk) oid(p string, rest ...string) string {
	return "walker/" + w.Entry + "/" + p + "/" + strings.Join(rest, "/")
}

func variantsOf(child string) []string {
	if child == "year" {
		return []string{"2", "4"}
	}
	return []string{""}
}

func vname(child, variant string) string {
	if variant == "" {
		return child
	}
	return child + "-" + variant
}

func (w *Walk) register(k *wkind) {
	w.r.Oblige(w.oid(k.name, "enter", "frame"), "walker", "on entry of "+k.name+": nothing but a new object on the stack", "C12")
	if !k.leaf {
		for _, a := range k.node.Attrs {
			w.r.Oblige(w.oid(k.name, "enter", a.Name), "walker", fmt.Sprintf("on entry of %s: %s = %v", k.name, a.Name, a.Init), attrProps(k.name, a.Name)...)
		}
	}
	for _, c := range sortedKeys(w.inRule[k.name]) {
		for _, va := range variantsOf(c) {
			for _, a := range k.node.Attrs {
				d := "unchanged"
				for _, as := range k.node.On[c] {
					if as.Attr == a.Name {
						d = a.Name + " = " + as.E.String()
					}
				}
				w.r.Oblige(w.oid(k.name, vname(c, va), a.Name), "walker", fmt.Sprintf("%s on %s: %s", k.name, c, d), pairProps(k.name, a.Name, c, va)...)
			}
		}
		w.r.Oblige(w.oid(k.name, c, "frame"), "walker", fmt.Sprintf("%s on %s: nothing but the %s changes", k.name, c, k.name), "C12")
		w.r.Oblige(w.oid(k.name, c, "total"), "walker", fmt.Sprintf("%s on %s: no panic", k.name, c), "C11")
	}
}

func (w *Walk) obl(p string, rest ...string) *Obl { return w.r.Obls[w.oid(p, rest...)] }

// failAll marks everything about a pair (or a kind) as failed.
func (w *Walk) failPair(k *wkind, c, variant string, stuck bool, f string, a ...any) {
	for _, at := range k.node.Attrs {
		w.r.Fail(w.obl(k.name, vname(c, variant), at.Name), stuck, f, a...)
	}
	w.r.Fail(w.obl(k.name, c, "frame"), stuck, f, a...)
	w.r.Fail(w.obl(k.name, c, "total"), stuck, f, a...)
}

func (w *Walk) failKind(k *wkind, stuck bool, f string, a ...any) {
	w.r.Fail(w.obl(k.name, "enter", "frame"), stuck, f, a...)
	if !k.leaf {
		for _, at := range k.node.Attrs {
			w.r.Fail(w.obl(k.name, "enter", at.Name), stuck, f, a...)
		}
	}
	for c := range w.inRule[k.name] {
		for _, va := range variantsOf(c) {
			w.failPair(k, c, va, stuck, f, a...)
		}
	}
	k.bad = fmt.Sprintf(f, a...)
}

func (x *wrun) callMethod(st *State, fn *ssa.Function, args ...Val) []*State {
	st.Steps = 0
	return x.e.Run(st, fn, nil, args)
}

// quiet checks that events leave everything as it is.
func (w *Walk) quiet(x *wrun, o *Obl, before *State, fs []*State) {
	for _, s := range fs {
		switch {
		case s.Stuck != "":
			w.r.Fail(o, true, "%s at %s", s.Stuck, s.StuckPos)
		case s.Panicked != nil:
			w.r.Fail(o, false, "panics: %s", s.Panicked.Desc)
		default:
			lf, bad := x.frame(before, s, nil)
			w.note(lf)
			for _, b := range bad {
				w.r.Fail(o, false, "%s", b)
			}
			if vs, msg := w.elems(x.e, s); msg != "" {
				w.r.Fail(o, false, "%s", msg)
			} else if len(vs) != 0 {
				w.r.Fail(o, true, "the stack changes")
			}
		}
	}
}

func (w *Walk) note(lf []int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, i := range lf {
		w.ldirty[i] = true
	}
}

func (w *Walk) transparent(rule string, o *Obl) {
	x := w.newRun()
	defer x.close()
	if w.ps.Rules[rule] == nil || w.ps.Rules[rule].CtxType == nil {
		w.r.Fail(o, true, "the type of the nodes of %s is not known", rule)
		return
	}
	for _, st := range x.start(false) {
		before := st.Clone()
		n := x.tr.Node(st, &TreeCtx{Rule: rule, Text: Sym("text."+rule, Str)})
		before = st.Clone()
		for _, s := range x.call(st, w.enter, n) {
			if s.Stuck != "" || s.Panicked != nil {
				w.quiet(x, o, before, []*State{s})
				continue
			}
			w.quiet(x, o, before, []*State{s.Clone()})
			w.quiet(x, o, before, x.call(s, w.exit, n))
		}
	}
}

func (w *Walk) terminals(o *Obl) {
	x := w.newRun()
	defer x.close()
	iv := w.lis.(IfaceV)
	for _, m := range []string{"VisitTerminal", "VisitErrorNode"} {
		fn := w.v.P.Prog.LookupMethod(iv.T, nil, m)
		if fn == nil {
			w.r.Fail(o, true, "the listener has no %s", m)
			continue
		}
		for _, st := range x.start(false) {
			n := x.tr.kid(st, TreeKid{Tok: 1, Text: Sym("text.token", Str)})
			before := st.Clone()
			w.quiet(x, o, before, x.callMethod(st, fn, iv.V, n))
		}
	}
}

// base is a state with an open node of a kind on top of the stack.
type wbase struct {
	st  *State
	p   PtrV
	val Val
}

// bases runs the entry of a kind.
func (w *Walk) bases(x *wrun, k *wkind) []wbase {
	if w.ps.Rules[k.name] == nil || w.ps.Rules[k.name].CtxType == nil {
		w.failKind(k, true, "the type of the nodes of %s is not known", k.name)
		return nil
	}
	if len(k.ctxs) == 0 {
		w.failKind(k, true, "no contexts (%s)", k.bad)
		return nil
	}
	root := k.name == w.a.Rule
	var out []wbase
	seen := map[string]bool{}
	for _, st := range x.start(root) {
		n := x.tr.Node(st, k.ctxs[0])
		before := st.Clone()
		for _, s := range x.call(st, w.enter, n) {
			if s.Stuck != "" {
				w.failKind(k, true, "entering %s: %s at %s", k.name, s.Stuck, s.StuckPos)
				return nil
			}
			if s.Panicked != nil {
				w.failKind(k, false, "entering %s panics: %s", k.name, s.Panicked.Desc)
				return nil
			}
			lf, bad := x.frame(before, s, w.stackArr(x, before))
			w.note(lf)
			for _, m := range bad {
				w.r.Fail(w.obl(k.name, "enter", "frame"), false, "entering %s: %s", k.name, m)
			}
			vs, msg := w.elems(x.e, s)
			if msg != "" || len(vs) != 1 {
				w.failKind(k, true, "entering %s does not push one object (%s)", k.name, msg)
				return nil
			}
			p, t, good := elemObj(vs[0])
			if !good || len(p.Path) > 0 || before.Heap[p.Obj] != nil {
				w.failKind(k, true, "entering %s does not push a new object", k.name)
				return nil
			}
			et := s.Heap[p.Obj].T
			if k.ptr != nil && !types.Identical(k.ptr, t) {
				w.failKind(k, true, "entering %s pushes objects of different types", k.name)
				return nil
			}
			if k.ptr == nil {
				k.ptr, k.et, k.fields = t, et, flatten(et, nil, "", 0)
			}
			ts, _ := x.e.terms(s, p, k.fields)
			k.enters = append(k.enters, &wenter{pc: s.PC, f: ts})
			w.setStack(x.e, s, vs[0])
			key := fmt.Sprint(vkeys(x.e.vals(s, p, k.fields)))
			if seen[key] {
				continue
			}
			seen[key] = true
			out = append(out, wbase{s, p, vs[0]})
		}
	}
	return out
}

// stackArr is the backing array of the stack.
func (w *Walk) stackArr(x *wrun, st *State) map[int]bool {
	m := map[int]bool{}
	if v, msg := x.e.Load(st, w.lisPath(w.stack)); msg == "" {
		if s, ok := v.(SliceV); ok {
			m[s.Obj] = true
		}
	}
	return m
}

func (w *Walk) prove(k *wkind) {
	x := w.newRun()
	defer x.close()
	bs := w.bases(x, k)
	if bs == nil {
		return
	}
	k.bounds = map[string]string{}
	children := sortedKeys(w.inRule[k.name])
	if k.leaf {
		for _, c := range children {
			m := map[int]bool{}
			for i, f := range k.fields {
				m[i] = f.kind != ""
			}
			k.before[c] = m
		}
	} else {
		for _, c := range children {
			k.before[c] = map[int]bool{}
		}
	}
	// the fields each child can find changed: a fixpoint, first on a sample of
	// the contexts, then on all of them
	recs := map[string][]*wrec{}
	for pass := 0; pass < 2; pass++ {
		todo := append([]string{}, children...)
		for len(todo) > 0 {
			c := todo[0]
			todo = todo[1:]
			ck := w.kinds[c]
			sample := 1
			if pass == 0 && len(ck.ctxs) > 50 {
				sample = len(ck.ctxs) / 23
			} else if pass == 1 && len(ck.ctxs) <= 50 && recs[c] != nil {
				continue
			}
			rs, changed := w.pair(x, k, ck, bs, sample)
			recs[c] = rs
			if k.leaf {
				for i := range changed {
					for _, at := range k.node.Attrs {
						for _, va := range variantsOf(c) {
							w.r.Fail(w.obl(k.name, vname(c, va), at.Name), false, "field %s changes", k.fields[i].name)
						}
					}
				}
				continue
			}
			for i := range changed {
				k.dirty[i] = true
			}
			for _, d := range children {
				if !w.prec[k.name][[2]string{c, d}] {
					continue
				}
				grew := false
				for i := range changed {
					if !k.before[d][i] {
						k.before[d][i] = true
						grew = true
					}
				}
				if grew {
					delete(recs, d)
					have := false
					for _, t := range todo {
						have = have || t == d
					}
					if !have {
						todo = append(todo, d)
					}
				}
			}
		}
	}
	if k.leaf {
		return
	}
	for _, c := range children {
		k.recs = append(k.recs, recs[c]...)
		// a pair none of whose paths can happen proves nothing
		for _, va := range variantsOf(c) {
			live, tried := false, 0
			for _, rec := range recs[c] {
				if rec.variant == va && tried < 20 {
					tried++
					if x.e.S.Check(rec.pc) != "unsat" {
						live = true
						break
					}
				}
			}
			if !live {
				for _, at := range k.node.Attrs {
					if o := w.obl(k.name, vname(c, va), at.Name); o.OK {
						w.r.Fail(o, true, "no path through the callbacks of %s", c)
					}
				}
			}
		}
	}
	w.couple(x, k)
}

// pair runs "enter C, walk C, leave C" below an open P.
func (w *Walk) pair(x *wrun, k, c *wkind, bs []wbase, sample int) ([]*wrec, map[int]bool) {
	if c.bad != "" {
		k.missing = true
		for _, va := range variantsOf(c.name) {
			w.failPair(k, c.name, va, true, "%s is not understood: %s", c.name, c.bad)
		}
		return nil, nil
	}
	rs, changed, why := w.pairP(x, k, c, bs, sample)
	hasList := func(fs []wfield) bool {
		for _, f := range fs {
			if f.kind == "strs" || f.kind == "addrs" || f.kind == "addrvals" {
				return true
			}
		}
		return false
	}
	if why != "" && (hasList(k.fields) || !c.leaf && hasList(c.fields)) {
		// lists of known length instead
		const bound = 3
		r2, c2, why2 := w.pairB(x, k, c, bs, sample, bound)
		if why2 == "" {
			for _, va := range variantsOf(c.name) {
				b := fmt.Sprintf("lists of at most %d elements (%s)", bound, why)
				for _, at := range k.node.Attrs {
					w.obl(k.name, vname(c.name, va), at.Name).Bounded = b
				}
				w.obl(k.name, c.name, "frame").Bounded = b
				w.obl(k.name, c.name, "total").Bounded = b
			}
			return r2, c2
		}
	}
	if why != "" {
		k.missing = true
		for _, va := range variantsOf(c.name) {
			w.failPair(k, c.name, va, true, "%s", why)
		}
	}
	return rs, changed
}

// pairP splits many contexts over several engines.
func (w *Walk) pairP(x *wrun, k, c *wkind, bs []wbase, sample int) ([]*wrec, map[int]bool, string) {
	const chunk = 1200
	if len(c.ctxs)/sample <= chunk {
		return w.pairB(x, k, c, bs, sample, -1)
	}
	type part struct {
		recs []*wrec
		ch   map[int]bool
		why  string
	}
	var parts []*part
	var jobs []func()
	for i := 0; i < len(c.ctxs); i += chunk {
		p, sub := &part{}, *c
		sub.ctxs = c.ctxs[i:min(i+chunk, len(c.ctxs))]
		parts = append(parts, p)
		jobs = append(jobs, func() {
			y := w.newRun()
			defer y.close()
			for id, n := range x.tr.node {
				y.tr.node[id] = n
			}
			y.tr.n = x.tr.n
			p.recs, p.ch, p.why = w.pairB(y, k, &sub, bs, sample, -1)
		})
	}
	Parallel(8, jobs)
	var recs []*wrec
	ch, why := map[int]bool{}, ""
	for _, p := range parts {
		recs = append(recs, p.recs...)
		for i := range p.ch {
			ch[i] = true
		}
		if why == "" {
			why = p.why
		}
	}
	return recs, ch, why
}

func variantOf(ctx *TreeCtx) string {
	if ctx.Rule != "year" {
		return ""
	}
	n := 0
	for _, k := range ctx.Kids {
		if k.Rule == "" && k.Tok == spec.TokenNumber("Digit") {
			n++
		}
	}
	return fmt.Sprint(n)
}

func (w *Walk) pairB(x *wrun, k, c *wkind, bs []wbase, sample, bound int) (recs []*wrec, changed map[int]bool, why string) {
	changed = map[int]bool{}
	fail := func(part string, f string, a ...any) {
		w.r.Fail(w.obl(k.name, c.name, part), false, f, a...)
	}
	for _, b := range bs {
		gen, msg := w.havocAll(b.st.Clone(), b.p, k.fields, k.before[c.name], k.name, bound)
		if msg != "" {
			return nil, changed, msg
		}
		for _, g := range gen {
			pre, _ := x.e.terms(g, b.p, k.fields)
			prev := x.e.vals(g, b.p, k.fields)
			for ci := 0; ci < len(c.ctxs); ci += sample {
				ctx := c.ctxs[ci]
				st := g.Clone()
				n := x.tr.Node(st, ctx)
				before := st.Clone()
				for _, s := range x.call(st, w.enter, n) {
					if s.Stuck != "" {
						return recs, changed, fmt.Sprintf("entering %s: %s at %s", c.name, s.Stuck, s.StuckPos)
					}
					if s.Panicked != nil {
						fail("total", "entering %s (%v) panics: %s", c.name, ctx.Text, s.Panicked.Desc)
						continue
					}
					vs, msg := w.elems(x.e, s)
					if msg != "" || len(vs) != 2 || vs[0].vkey() != b.val.vkey() {
						return recs, changed, fmt.Sprintf("entering %s does not push one object (%s)", c.name, msg)
					}
					cp, ct, good := elemObj(vs[1])
					if !good || before.Heap[cp.Obj] != nil {
						return recs, changed, fmt.Sprintf("entering %s does not push a new object", c.name)
					}
					mid := []*State{s}
					if !c.leaf {
						if c.ptr == nil || !types.Identical(c.ptr, ct) {
							return recs, changed, fmt.Sprintf("the objects of %s have several types", c.name)
						}
						mid, msg = w.havocAll(s, cp, c.fields, c.dirty, c.name, bound)
						if msg != "" {
							return recs, changed, msg
						}
					}
					for _, m := range mid {
						rec := &wrec{child: c.name, variant: variantOf(ctx), pre: pre, ctx: ctx}
						var cf []*Term
						if c.leaf {
							rec.cattr = map[string]*Term{}
							for _, a := range c.node.Attrs {
								t := EvalX(a.Init, &xenv{ctx: ctx, own: rec.cattr}, sortOf(a.Type))
								if t == nil {
									return recs, changed, "the contract of " + c.name + " has no value"
								}
								rec.cattr[a.Name] = t
							}
						} else {
							cf, _ = x.e.terms(m, cp, c.fields)
							rec.cattr = map[string]*Term{}
							for a, u := range c.coup {
								if t := cf[u.f]; t != nil {
									if u.neg {
										t = Not(t)
									}
									rec.cattr[a] = t
								}
							}
						}
						w.setStack(x.e, m, vs[0], vs[1])
						allow := map[int]bool{b.p.Obj: true}
						own := map[int]bool{}
						x.lists(before, b.p, k.fields, own)
						for id := range own {
							allow[id] = true
						}
						for id := range w.stackArr(x, before) {
							allow[id] = true
						}
						mboxes := map[int]bool{}
						x.mboxObjs(m, b.p, k.fields, mboxes)
						if !c.leaf {
							x.mboxObjs(m, cp, c.fields, mboxes)
						}
						for _, d := range x.call(m, w.exit, n) {
							if d.Stuck != "" {
								return recs, changed, fmt.Sprintf("leaving %s: %s at %s", c.name, d.Stuck, d.StuckPos)
							}
							if d.Panicked != nil {
								fail("total", "leaving %s (%v) panics: %s", c.name, ctx.Text, d.Panicked.Desc)
								continue
							}
							lf, bad := x.frame(before, d, allow)
							w.note(lf)
							for _, m := range bad {
								fail("frame", "%s", m)
							}
							vs2, msg := w.elems(x.e, d)
							if msg != "" || len(vs2) != 1 || vs2[0].vkey() != b.val.vkey() {
								fail("frame", "leaving %s does not pop its object (%s)", c.name, msg)
								fail("total", "leaving %s does not pop its object (%s)", c.name, msg)
								continue
							}
							if x.lists(d, b.p, k.fields, map[int]bool{}) {
								fail("frame", "two lists share their elements")
							}
							if msg := x.freshMboxes(before, d, b.p, k.fields, mboxes); msg != "" {
								fail("frame", "%s", msg)
							}
							one := *rec
							one.pc = d.PC
							one.post, one.what = x.e.terms(d, b.p, k.fields)
							post := x.e.vals(d, b.p, k.fields)
							for i, f := range k.fields {
								ch := false
								switch {
								case f.kind == "":
									ch = prev[i].vkey() != post[i].vkey()
								case pre[i] == nil || one.post[i] == nil:
									ch = prev[i].vkey() != post[i].vkey()
								default:
									_, n1 := prev[i].(NilV)
									_, n2 := post[i].(NilV)
									ch = n1 != n2 || !Same(pre[i], one.post[i]) &&
										!(pre[i].Sort == one.post[i].Sort && pre[i].Op == "sym" && one.post[i].Op == "++" && x.e.S.Valid(d.PC, Eq(pre[i], one.post[i])) == "unsat")
								}
								if ch {
									changed[i] = true
								}
							}
							recs = append(recs, &one)
						}
					}
				}
			}
		}
	}
	return recs, changed, ""
}

// mboxObjs adds the mailbox objects in the lists of an object.
func (x *wrun) mboxObjs(st *State, p PtrV, fs []wfield, m map[int]bool) (dup bool) {
	vs := x.e.vals(st, p, fs)
	for i, f := range fs {
		s, ok := vs[i].(SliceV)
		if f.kind != "addrs" || !ok {
			continue
		}
		segs, _ := x.e.region(st, s)
		for _, g := range segs {
			if q, ok := g.V.(PtrV); ok {
				if m[q.Obj] {
					dup = true
				}
				m[q.Obj] = true
			}
		}
	}
	return dup
}

func (x *wrun) freshMboxes(before, after *State, p PtrV, fs []wfield, had map[int]bool) string {
	m := map[int]bool{}
	if x.mboxObjs(after, p, fs, m) {
		return "a mailbox object is listed twice"
	}
	for id := range m {
		if before.Heap[id] != nil && !had[id] {
			return "a mailbox object is not new"
		}
	}
	return ""
}

// ---- the coupling ---------------------------------------------------------------

func mentions(x *spec.X, m map[string]bool) {
	if x == nil {
		return
	}
	if x.Op == "attr" {
		m[x.S] = true
	}
	for _, a := range x.Args {
		mentions(a, m)
	}
}

func similar(a, b string) int {
	a, b = strings.ToLower(a), strings.ToLower(b)
	if a == b {
		return 0
	}
	if strings.HasPrefix(b, a) || strings.HasPrefix(a, b) {
		return 1
	}
	if strings.Contains(b, a) || strings.Contains(a, b) {
		return 2
	}
	return 3
}

// couple finds the fields that hold the attributes and reports what does not fit.
func (w *Walk) couple(x *wrun, k *wkind) {
	type verdict struct {
		id    []string
		stuck bool
		msg   string
	}
	get := func(ts []*Term, c cpl) *Term {
		t := ts[c.f]
		if t != nil && c.neg {
			t = Not(t)
		}
		return t
	}
	// check one attribute under a coupling of the attributes it depends on
	check := func(a *spec.Attr, m map[string]cpl, stop bool) (bad []verdict) {
		u := m[a.Name]
		for _, en := range k.enters {
			t := get(en.f, u)
			want := EvalX(a.Init, &xenv{}, sortOf(a.Type))
			if t == nil || want == nil {
				bad = append(bad, verdict{[]string{"enter", a.Name}, true, "no value"})
			} else if r := x.e.S.Valid(en.pc, Eq(t, want)); r != "unsat" {
				bad = append(bad, verdict{[]string{"enter", a.Name}, r != "sat", fmt.Sprintf("%s is %v, the contract says %v", k.fields[u.f].name, t, want)})
			}
			if stop && len(bad) > 0 {
				return
			}
		}
		nbad := map[string]int{}
		for _, rec := range k.recs {
			id := []string{vname(rec.child, rec.variant), a.Name}
			if nbad[id[0]] > 2 {
				continue
			}
			own := map[string]*Term{}
			for n, c := range m {
				if t := get(rec.pre, c); t != nil {
					own[n] = t
				}
			}
			want := own[a.Name]
			for _, as := range k.node.On[rec.child] {
				if as.Attr == a.Name {
					want = EvalX(as.E, &xenv{own: own, child: rec.cattr}, sortOf(a.Type))
				}
			}
			t := get(rec.post, u)
			switch {
			case t == nil:
				nbad[id[0]]++
				bad = append(bad, verdict{id, true, "after " + rec.child + ": " + k.fields[u.f].name + " is " + rec.what[u.f]})
			case want == nil:
				nbad[id[0]]++
				bad = append(bad, verdict{id, true, "the contract has no value"})
			default:
				if r := x.e.S.Valid(rec.pc, Eq(t, want)); r != "unsat" {
					nbad[id[0]]++
					w.hint(x, k, rec, Not(Eq(t, want)))
					bad = append(bad, verdict{id, r != "sat" || w.kinds[rec.child].shaky, fmt.Sprintf("%s.%s becomes %v, the contract says %v", k.name, k.fields[u.f].name, t, want)})
				}
			}
			if stop && len(bad) > 0 {
				return
			}
		}
		return
	}
	// dependency components
	deps := map[string]map[string]bool{}
	for _, a := range k.node.Attrs {
		deps[a.Name] = map[string]bool{a.Name: true}
	}
	for _, as := range k.node.On {
		for _, s := range as {
			mm := map[string]bool{}
			mentions(s.E, mm)
			for n := range mm {
				deps[s.Attr][n] = true
			}
		}
	}
	comp := map[string]string{}
	for _, a := range k.node.Attrs {
		comp[a.Name] = a.Name
	}
	for ch := true; ch; {
		ch = false
		for a, ds := range deps {
			for d := range ds {
				if comp[a] != comp[d] {
					lo, hi := comp[a], comp[d]
					if lo > hi {
						lo, hi = hi, lo
					}
					for n := range comp {
						if comp[n] == hi {
							comp[n] = lo
						}
					}
					ch = true
				}
			}
		}
	}
	cands := func(a *spec.Attr) []cpl {
		var out []cpl
		ks := attrKinds(a.Type)
		for i, f := range k.fields {
			for _, kk := range ks {
				if f.kind == kk {
					out = append(out, cpl{i, false})
					if kk == "bool" {
						out = append(out, cpl{i, true})
					}
				}
			}
		}
		sort.SliceStable(out, func(i, j int) bool {
			return similar(a.Name, k.fields[out[i].f].name) < similar(a.Name, k.fields[out[j].f].name)
		})
		return out
	}
	done := map[string]bool{}
	for _, a0 := range k.node.Attrs {
		cm := comp[a0.Name]
		if done[cm] {
			continue
		}
		done[cm] = true
		var as []*spec.Attr
		for _, a := range k.node.Attrs {
			if comp[a.Name] == cm {
				as = append(as, a)
			}
		}
		var best map[string]cpl
		var bestBad []verdict
		tries := 0
		var search func(i int, m map[string]cpl) bool
		search = func(i int, m map[string]cpl) bool {
			if i == len(as) {
				tries++
				var bad []verdict
				for _, a := range as {
					bad = append(bad, check(a, m, false)...)
				}
				if best == nil || len(bad) < len(bestBad) {
					best = map[string]cpl{}
					for n, c := range m {
						best[n] = c
					}
					bestBad = bad
				}
				return len(bad) == 0 || tries > 64
			}
			for _, c := range cands(as[i]) {
				m[as[i].Name] = c
				if search(i+1, m) {
					return true
				}
				delete(m, as[i].Name)
			}
			return false
		}
		search(0, map[string]cpl{})
		if best == nil {
			for _, a := range as {
				w.r.Fail(w.obl(k.name, "enter", a.Name), true, "no field of %s can hold %s", k.name, a.Name)
				for c := range w.inRule[k.name] {
					for _, va := range variantsOf(c) {
						w.r.Fail(w.obl(k.name, vname(c, va), a.Name), true, "no field of %s can hold %s", k.name, a.Name)
					}
				}
			}
			continue
		}
		for n, c := range best {
			k.coup[n] = c
		}
		// a correspondence chosen among several without all the evidence may
		// be the wrong one
		if (len(bestBad) > 0 || k.missing) && tries0(as, cands) > 1 {
			k.shaky = true
		}
		for _, b := range bestBad {
			w.r.Fail(w.obl(k.name, b.id...), b.stuck, "%s", b.msg)
		}
	}
}

// hint notes where to look for an input on which a goal fails.
func (w *Walk) hint(x *wrun, k *wkind, rec *wrec, neg *Term) {
	w.r.Hint(k.name, "")
	w.r.Hint(rec.child, "")
	if rec.ctx != nil && rec.ctx.Done && rec.ctx.Text.IsStr() {
		w.r.Hint(rec.child, rec.ctx.Text.S)
	} else if rec.ctx != nil && rec.ctx.Done {
		s := ""
		for _, y := range rec.ctx.Kids {
			if y.Text.IsStr() {
				s += y.Text.S
			} else if y.Rule == "fws" {
				s += " "
			}
		}
		w.r.Hint(rec.child, s)
	}
	for n, v := range x.e.S.Model(append(append([]*Term{}, rec.pc...), neg)) {
		if strings.HasPrefix(n, "text.") {
			w.r.Hint(strings.SplitN(n, ".", 3)[1], v)
		} else if v != "" {
			w.r.Hint("", v)
		}
	}
}

// ---- the contract of the whole walk ------------------------------------------------

func (w *Walk) walkContract(e *Engine, tr *Trees, c *Call, g *aghost) []Out {
	st := c.St
	k := w.kinds[w.a.Rule]
	if k == nil || k.bad != "" {
		return stuckOut(c, "the walk of %s is not understood", w.a.Rule)
	}
	if st.Heap[w.obj] == nil || st.Heap[w.obj].V.vkey() != w.tmpl.Heap[w.obj].V.vkey() {
		return stuckOut(c, "the listener differs from run to run")
	}
	stuck := func(s *State, f string, a ...any) []Out {
		return []Out{{St: s, Stuck: fmt.Sprintf(f, a...)}}
	}
	return []Out{{St: st, Invoke: w.enter, InvA: []Val{c.Args[0], c.Args[1], c.Args[2]}, Then: func(s *State, _ Val) []Out {
		vs, msg := w.elems(e, s)
		if msg != "" || len(vs) != 1 {
			return stuck(s, "entering the root does not push one object")
		}
		p, t, good := elemObj(vs[0])
		if !good || !types.Identical(t, k.ptr) {
			return stuck(s, "entering the root does not push its object")
		}
		sts, msg := w.havocAll(s, p, k.fields, k.dirty, k.name, -1)
		if msg != "" {
			return stuck(s, "%s", msg)
		}
		var gen []*State
		for _, x := range sts {
			n, msg := w.havocAll(x, PtrV{Obj: w.obj}, w.lfields, w.ldirty, "listener", -1)
			if msg != "" {
				return stuck(s, "%s", msg)
			}
			gen = append(gen, n...)
		}
		var outs []Out
		for _, x := range gen {
			w.setStack(e, x, vs[0])
			fs, _ := e.terms(x, p, k.fields)
			attrs := map[string]*Term{}
			for a, u := range k.coup {
				if t := fs[u.f]; t != nil {
					if u.neg {
						t = Not(t)
					}
					attrs[a] = t
				}
			}
			x.G.(*aghost).attrs = attrs
			outs = append(outs, Out{St: x, Invoke: w.exit, InvA: []Val{c.Args[0], c.Args[1], c.Args[2]}, Then: func(s *State, _ Val) []Out {
				return []Out{{St: s}}
			}})
		}
		return outs
	}}}
}

// checkResult compares the result of the entry point with the contract of the root.
func (w *Walk) checkResult(e *Engine, s *State, val Val) string {
	k := w.kinds[w.a.Rule]
	x := k.node.Result
	sort := SeqMb
	if w.a.Rule == "dateTime" {
		sort = Date
	}
	want := EvalX(x, &xenv{own: w.a.gh(s).attrs}, sort)
	if want == nil {
		return "the attributes of the root are not known"
	}
	var got *Term
	if t, ok := val.(*Term); ok {
		got = t
	} else {
		t, msg := e.term(s, val, wfield{kind: fieldKind(w.a.fn.Signature.Results().At(0).Type())})
		if msg != "" {
			return "the result is " + msg
		}
		got = t
	}
	if got.Sort != want.Sort {
		return fmt.Sprintf("the result is %v, the contract says %v", got, want)
	}
	if r := e.S.Valid(s.PC, Eq(got, want)); r != "unsat" {
		return fmt.Sprintf("the result is %v, the contract says %v", got, want)
	}
	return ""
}

// tries0 is the number of correspondences to choose from.
func tries0(as []*spec.Attr, cands func(*spec.Attr) []cpl) int {
	n := 1
	for _, a := range as {
		n *= len(cands(a))
	}
	return n
}
