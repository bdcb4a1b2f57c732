package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/govf"
)

// assumptions of every proof, beyond the contracts listed by name.
var assumptions = []string{
	"the Go compiler and go/ssa agree on the meaning of the source (golang.org/x/tools/go/ssa v0.52.0)",
	"z3 and cvc5 answer unsat only for unsatisfiable formulas",
	"the verifier govf itself (symbolic execution, memory model, library models in govf/base.go, native.go, ctx.go)",
	"ANTLR prediction (ALL(*)): on a token stream that some alternative can complete, AdaptivePredict returns the smallest such alternative for the full calling context; it is a function of decision, stack and remaining tokens (prediction caches change speed, not answers)",
	"what ANTLR error messages say is arbitrary; the other runtime functions on the path of a call, the deserialiser and the next-token sets among them, are proved (obligations runtime/*)",
	"input strings are read as Go range loops read them (invalid UTF-8 reads as U+FFFD)",
	"integer arithmetic is mathematical, with wrap-around checked where machine width matters; strings in SMT are sequences of code units",
	"map iteration is modelled in insertion order; what the runtime does with a network does not depend on the capacity append chooses",
	"no stack overflow and no memory exhaustion; termination of prediction and library calls is assumed, that of the rule functions, of the lexer and of error recovery proved",
	"the ANTLR runtime synchronises the networks and prediction caches that concurrent calls share; CharsetReader is not assigned during a call",
}

func (d *driver) evidence(t0 time.Time, own, failed, undecided []*govf.Obl, res *searchResult, violations int) {
	p := d.proof
	discharged, bounded := 0, []string{}
	backends, layers := map[string]int{}, map[string]int{}
	var list []map[string]any
	for _, o := range own {
		if o.OK && o.Bounded == "" {
			discharged++
			backends[o.Backend]++
			layers[o.Layer]++
		}
		if o.OK && o.Bounded != "" {
			bounded = append(bounded, o.ID+": "+o.Bounded)
		}
		if len(list) < 400 {
			x := map[string]any{"id": o.ID, "what": o.Desc, "discharged": o.OK && o.Bounded == ""}
			if !o.OK {
				x["why"] = o.Why
				x["undecided"] = o.Stuck
			}
			list = append(list, x)
		}
	}
	names := func(l []*govf.Obl) []string {
		out := []string{}
		for _, o := range l {
			out = append(out, o.ID+": "+strings.Join(o.Why, "; "))
		}
		return out
	}
	trusted := append([]string{}, assumptions...)
	var proved []string
	for _, u := range p.Used {
		if strings.Contains(u, "/parser.RFC5322Parser).") {
			proved = append(proved, u) // its own body is proved in the parser layer
			continue
		}
		if o := p.ProvedBy[u]; o != "" {
			proved = append(proved, u+" (by "+o+")")
			continue
		}
		trusted = append(trusted, "contract assumed, not proved: "+u)
	}
	cov := map[string]any{
		"obligations":                 len(own),
		"discharged":                  discharged,
		"checker_cmd":                 fmt.Sprintf("bin/govf check -prop %s -tier %s (the proof alone: bin/govf prove -ids)", *prop, *tier),
		"trusted_base":                trusted,
		"obligation_list":             list,
		"discharged_by_layer":         layers,
		"discharged_by_method":        backends,
		"undecided":                   names(undecided),
		"failed":                      names(failed),
		"bounded_not_proved":          bounded,
		"functions_executed_by_body":  p.Funcs,
		"callees_by_proved_contract":  proved,
		"whole_proof_obligations":     len(p.Obls),
		"symbolic_paths":              p.Paths,
		"symbolic_steps":              p.Steps,
		"solver_queries":              p.Queries,
		"solver_queries_by_backend":   p.Backends,
		"solver_seconds":              p.Solver,
		"proof_wall_seconds":          p.Wall,
		"evaluations":                 res.Evaluations,
		"distinct_nontrivial":         res.Distinct,
		"inputs_accepted_by_the_spec": res.Accepted,
		"rule":                        "replay inputs: systematic sweeps of characters in contexts and of date fields, all short strings over the structural characters, grammar derivations biased to the rules of failed obligations, and mutations; distinct by entry point and text; compared with the executable specification on the real code",
		"samples":                     res.Samples,
		"replay_seconds":              res.Secs,
	}
	if len(p.Notes) > 0 {
		cov["notes"] = p.Notes
	}
	if len(p.Internal) > 0 || d.perr != "" {
		cov["verifier_errors"] = append(append([]string{}, p.Internal...), d.perr)
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": d.seed, "level": "proof",
		"coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, *prop+".json")
	if os.WriteFile(f+".tmp", b, 0o644) == nil {
		os.Rename(f+".tmp", f)
	}
}
