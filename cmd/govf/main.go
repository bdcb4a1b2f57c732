// Command govf is the deductive verifier and the driver of the checks.
//
//	govf prove [-repo DIR] [-out FILE]     prove every obligation
//	govf check -prop C03 [-tier quick]     decide one property
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"verif/govf"
)

var (
	fs     = flag.NewFlagSet("govf", flag.ExitOnError)
	repo   = fs.String("repo", "/repo", "source tree under verification")
	verif  = fs.String("verif", "/verif", "this tree")
	outF   = fs.String("out", "", "write the report as JSON")
	prop   = fs.String("prop", "", "property to decide")
	tier   = fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	ids    = fs.Bool("ids", false, "list the obligations")
	secs   = fs.Int("search", 0, "override the seconds of input search")
	nwork  = fs.Int("workers", 8, "")
	cross  = fs.Bool("cross", false, "confirm unsatisfiable answers with cvc5")
	proofF = fs.String("proof", "", "use this proof report instead of proving (development only)")
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govf prove|check")
		os.Exit(2)
	}
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "prove":
		prove()
	case "check":
		check()
	default:
		os.Exit(2)
	}
}

// Proof is the stored form of a report.
type Proof struct {
	Obls     []*govf.Obl         `json:"obligations"`
	Missing  map[string][]string `json:"missing"`
	Funcs    []string            `json:"functions"`
	Used     []string            `json:"contracts"`
	ProvedBy map[string]string   `json:"contracts_proved_by"`
	Paths    int                 `json:"paths"`
	Steps    int                 `json:"steps"`
	Queries  int                 `json:"queries"`
	Solver   float64             `json:"solver_seconds"`
	Backends map[string]int      `json:"backends"`
	Notes    []string            `json:"notes"`
	Hints    []govf.Hint         `json:"hints"`
	Internal []string            `json:"internal_errors,omitempty"`
	Layers   int                 `json:"layers"`
	Complete bool                `json:"complete"`
	Wall     float64             `json:"wall_seconds"`
}

func prove() {
	t0 := time.Now()
	debug.SetGCPercent(400)
	govf.Cross = *cross
	if f := os.Getenv("GOVF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	var pr *Proof
	n := 0
	write := func(r *govf.Report) {
		n++
		pr = pack(r)
		pr.Layers = n
		pr.Complete = r.Complete
		pr.Wall = time.Since(t0).Seconds()
		if *outF != "" {
			b, err := json.Marshal(pr)
			if err == nil && os.WriteFile(*outF+".tmp", b, 0o644) == nil {
				os.Rename(*outF+".tmp", *outF)
			}
		}
	}
	r, err := govf.ProveAll(*repo, *nwork, write)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		if r == nil {
			os.Exit(2)
		}
	}
	if *ids {
		for _, o := range pr.Obls {
			fmt.Println("ID", o.ID, o.Props, o.Bounded)
		}
	}
	bad := 0
	for _, o := range pr.Obls {
		if !o.OK {
			fmt.Println("FAIL", o.ID, "undecided:", o.Stuck, o.Why)
			bad++
		}
		if o.Bounded != "" {
			fmt.Println("BOUNDED", o.ID, o.Bounded)
		}
	}
	for p, l := range pr.Missing {
		fmt.Println("MISSING", p, len(l), l[0])
	}
	for _, e := range pr.Internal {
		fmt.Println("INTERNAL", e)
	}
	fmt.Println(len(pr.Obls), "obligations,", bad, "not discharged; paths", pr.Paths, "steps", pr.Steps, "queries", pr.Queries, "solver s", pr.Solver, "functions", len(pr.Funcs), "wall s", pr.Wall)
	if bad > 0 {
		defer os.Exit(1)
	}
}

func pack(r *govf.Report) *Proof {
	p := &Proof{Paths: r.Paths, Steps: r.Steps, Queries: r.Queries, Solver: r.Solver.Seconds(), Backends: r.Backends, Notes: r.Notes, Hints: r.Hints}
	for _, k := range r.Order {
		p.Obls = append(p.Obls, r.Obls[k])
	}
	p.Missing = govf.Missing(r)
	p.Funcs = sorted(r.Funcs)
	p.Used, p.ProvedBy = sorted(r.Used), map[string]string{}
	for _, u := range p.Used {
		if o := r.ProvedBy(u); o != "" {
			p.ProvedBy[u] = o
		}
	}
	p.Internal = govf.InternalErrors()
	return p
}
