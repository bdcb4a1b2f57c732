package govf

import (
	"fmt"
	"strings"

	"verif/spec"
)

// Entries are the entry points and their start rules.
var Entries = [][2]string{{"ParseAddressList", "addressList"}, {"ParseDateTime", "dateTime"}}

// Missing lists what the specification demands an obligation for and the
// report has none: a proof that lost part of its subject proves nothing.
func Missing(r *Report) map[string][]string {
	out := map[string][]string{}
	want := func(props []string, id string) {
		if r.Obls[id] != nil {
			return
		}
		for k := range r.Obls {
			if strings.HasPrefix(k, id+"|") {
				return
			}
		}
		for _, p := range props {
			out[p] = append(out[p], id)
		}
	}
	for _, c := range spec.Classes {
		want([]string{"C13"}, "lexer/class/"+c.Name)
	}
	want([]string{"C13"}, "lexer/static")
	want([]string{"C13"}, "lexer/single")
	for _, n := range spec.TheGrammar.Order {
		want([]string{"C01"}, "parser/"+n+"/sound")
		want([]string{"C02"}, "parser/"+n+"/complete")
		want([]string{"C11"}, "parser/"+n+"/total")
		want([]string{"C01", "C02", "C11"}, "parser/"+n+"/calls")
		want([]string{"C11"}, "parser/"+n+"/progress")
		want([]string{"C12", "C16"}, "parser/"+n+"/frame")
		want([]string{"C01", "C02"}, "parser/"+n+"/atn")
		want(allProps, "runtime/inherit/"+n)
	}
	want([]string{"C11"}, "parser/recursion")
	for _, x := range dataLemmas {
		want(x.props, "runtime/data/"+x.name)
	}
	for n := range runtimeSpecs() {
		want([]string{"C01", "C02", "C11"}, "runtime/"+n)
	}
	want([]string{"C01", "C02", "C11"}, "runtime/network/next")
	want(simProps, "runtime/simulator")
	want(allProps, "runtime/network/parser")
	want(allProps, "runtime/network/lexer")
	want(allProps, "runtime/inherit/parser")
	want(allProps, "runtime/inherit/lexer")
	for _, e := range Entries {
		for _, x := range [][2]string{{"accepts", "C02"}, {"rejects", "C01"}, {"empty", "C11"}, {"pure", "C12"}, {"total", "C11"}, {"stream", "C13"}} {
			want([]string{x[1]}, "api/"+e[0]+"/"+x[0])
		}
		want([]string{"C16"}, "api/"+e[0]+"/pure")
		want([]string{"C16"}, "walker/"+e[0]+"/shared")
		want([]string{"C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"}, "api/"+e[0]+"/result")
		seen := map[string]bool{}
		var visit func(rule string)
		visit = func(rule string) {
			if seen[rule] {
				return
			}
			seen[rule] = true
			kids := valueKids(rule)
			if n := spec.TheAG.Nodes[rule]; n != nil {
				for _, a := range n.Attrs {
					if len(n.On) > 0 {
						// the value of a leaf is proved with its parents
						want(attrProps(rule, a.Name), "walker/"+e[0]+"/"+rule+"/enter/"+a.Name)
					}
					for c := range kids {
						have := false
						for _, v := range variantsOf(c) {
							have = have || r.Obls["walker/"+e[0]+"/"+rule+"/"+vname(c, v)+"/"+a.Name] != nil
						}
						if !have {
							want(pairProps(rule, a.Name, c, ""), "walker/"+e[0]+"/"+rule+"/"+c+"/"+a.Name)
						}
					}
				}
			}
			var f func(e *spec.Expr)
			f = func(e *spec.Expr) {
				if e.Kind == spec.KSym && !e.Tok {
					visit(e.Sym)
				}
				for _, s := range e.Subs {
					f(s)
				}
			}
			f(spec.TheGrammar.Rules[rule].RHS)
		}
		visit(e[1])
	}
	return out
}

// valueKids lists the closest descendants of a rule that carry a contract.
func valueKids(rule string) map[string]bool {
	out, seen := map[string]bool{}, map[string]bool{}
	var f func(e *spec.Expr)
	f = func(e *spec.Expr) {
		if e.Kind == spec.KSym && !e.Tok {
			if spec.TheAG.Nodes[e.Sym] != nil {
				out[e.Sym] = true
			} else if !seen[e.Sym] {
				seen[e.Sym] = true
				f(spec.TheGrammar.Rules[e.Sym].RHS)
			}
		}
		for _, s := range e.Subs {
			f(s)
		}
	}
	f(spec.TheGrammar.Rules[rule].RHS)
	return out
}

// ProveAll runs every layer on the source tree; done is called with the
// report after each layer.
func ProveAll(dir string, workers int, done func(r *Report)) (*Report, error) {
	p, err := Load(dir)
	if err != nil {
		return nil, err
	}
	v, err := NewEnv(p)
	if err != nil {
		return nil, err
	}
	r := NewReport()
	r.Notes = append(r.Notes, v.Notes...)
	for _, t := range p.Literals() {
		r.Hint("#lit", t)
	}
	var stage *Report // what is proved already, while r is provisional
	step := func(what string, f func()) {
		n := len(InternalErrors())
		guarded(f)
		if es := InternalErrors(); len(es) > n {
			o := r.Oblige("verifier/"+what, "verifier", "the verifier completes", allProps...)
			r.Fail(o, true, "internal error: %s", es[n])
		}
		if done != nil && stage == nil {
			done(r)
		} else if done != nil {
			all := NewReport()
			all.Merge(stage)
			all.Merge(r)
			done(all)
		}
	}
	step("lexer", func() { v.LexerLayer(r) })
	var ps *Parser
	step("parser", func() { ps = v.ParserLayer(r, workers) })
	if ps != nil {
		step("progress", func() { ps.Progress(r, workers) })
	}
	if ps == nil {
		return r, fmt.Errorf("no parser layer")
	}
	step("runtime", func() { v.Inherit(r, ps) })
	for n := 0; ; n++ {
		gen, all := v.Pools.Generation(), r
		stage, r = r, NewReport()
		for _, x := range Entries {
			step(x[0], func() {
				a := v.NewAPI(r, ps, x[0], x[1])
				a.Discover()
				w := a.NewWalk()
				w.Prove(r, workers)
				a.Prove()
				w.Doubt()
				if n > 4 && v.Pools.Generation() != gen {
					a.r.Fail(a.pure, true, "the invariant of a pool was not found")
				}
			})
		}
		last := v.Pools.Generation() == gen || n > 4
		v.Pools.Doubt(r)
		if last {
			all.Merge(r)
		}
		stage, r = nil, all
		if last {
			break
		}
	}
	step("runtime functions", func() {
		v.Network(r, ps, workers)
		v.Simulator(r, workers)
		v.Runtime(r, workers)
		v.Data(r, workers)
		r.Complete = true
	})
	return r, nil
}

var allProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16"}
