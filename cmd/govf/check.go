package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/govf"
	"verif/spec"
)

func sorted(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GOMAXPROCS", "GODEBUG":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// searchResult is the output of the replay command.
type searchResult struct {
	Evaluations int       `json:"evaluations"`
	Accepted    int       `json:"accepted"`
	Skipped     int       `json:"skipped"`
	Distinct    int       `json:"distinct"`
	Samples     []string  `json:"samples"`
	Findings    []finding `json:"findings"`
	Secs        float64   `json:"seconds"`
}

type finding struct {
	Entry   string `json:"entry"`
	Input   string `json:"input"`
	Charset bool   `json:"charset_reader,omitempty"`
	Diff    struct {
		Kind string `json:"kind"`
		Want string `json:"specified"`
		Got  string `json:"observed"`
	} `json:"difference"`
	Props   []string          `json:"properties"`
	History []json.RawMessage `json:"history,omitempty"`
}

type driver struct {
	dir   string // scratch
	seed  int64
	bin   string
	proof *Proof
	perr  string
}

func check() {
	t0 := time.Now()
	if *prop == "" {
		fmt.Fprintln(os.Stderr, "no property")
		os.Exit(2)
	}
	if *tier == "" {
		*tier = "quick"
	}
	d := &driver{seed: 1}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		d.seed = s
	}
	var err error
	d.dir, err = os.MkdirTemp("", "govf")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := d.run(t0)
	os.RemoveAll(d.dir)
	os.Exit(code)
}

// build compiles the replay command against the source tree.
func (d *driver) build() error {
	d.bin = filepath.Join(d.dir, "replay")
	args := []string{"build", "-o", d.bin}
	env := goEnv()
	if *prop == "C16" {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	if *repo != "/repo" {
		b, err := os.ReadFile(filepath.Join(*verif, "go.mod"))
		if err != nil {
			return err
		}
		abs, _ := filepath.Abs(*repo)
		m := filepath.Join(d.dir, "go.mod")
		os.WriteFile(m, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+abs)), 0o644)
		s, _ := os.ReadFile(filepath.Join(*verif, "go.sum"))
		os.WriteFile(filepath.Join(d.dir, "go.sum"), s, 0o644)
		args = append(args, "-modfile="+m)
	}
	c := exec.Command("go", append(args, "./cmd/replay")...)
	c.Dir, c.Env = *verif, env
	if o, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("building the replay command: %v\n%s", err, o)
	}
	return nil
}

// prove runs the proof in a process of its own, with a deadline.
func (d *driver) prove(limit time.Duration) {
	f := *proofF
	if f == "" {
		f = filepath.Join(d.dir, "proof.json")
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		self, _ := os.Executable()
		args := []string{"prove", "-repo", *repo, "-out", f}
		if *tier == "thorough" {
			args = append(args, "-cross")
		}
		c := exec.CommandContext(ctx, self, args...)
		c.Env = goEnv()
		var eb strings.Builder
		c.Stderr = &eb
		err := c.Run()
		if ctx.Err() != nil {
			d.perr = fmt.Sprintf("the proof was stopped after %v", limit)
		} else if err != nil {
			if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() != 1 {
				d.perr = fmt.Sprintf("the verifier stopped: %v: %.2000s", err, eb.String())
			}
		}
	}
	d.proof = &Proof{}
	if b, err := os.ReadFile(f); err == nil {
		json.Unmarshal(b, d.proof)
	}
	if d.proof.Missing == nil && len(d.proof.Obls) == 0 {
		d.proof.Missing = govf.Missing(govf.NewReport())
	}
}

// places are the rules whose callbacks the verifier could not settle, as far as
// it gave no place itself: inputs that contain them are worth a try.
func (d *driver) places() (hs []govf.Hint) {
	seen := map[string]bool{}
	for _, h := range d.proof.Hints {
		seen[h.Rule] = true
	}
	for _, o := range d.proof.Obls {
		if o.OK || len(hs) >= 12 {
			continue
		}
		r := ""
		for _, e := range strings.Split(o.ID, "/") {
			if spec.TheGrammar.Rules[e] != nil {
				r = e
			}
		}
		if r != "" && !seen[r] {
			seen[r] = true
			hs = append(hs, govf.Hint{Rule: r})
		}
	}
	return
}

// search looks for a failing input.
func (d *driver) search(s float64, seed int64, short int) *searchResult {
	r := &searchResult{}
	h := filepath.Join(d.dir, "hints.json")
	b, _ := json.Marshal(append(d.places(), d.proof.Hints...))
	os.WriteFile(h, b, 0o644)
	o := filepath.Join(d.dir, "search.json")
	os.RemoveAll(o)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s*float64(time.Second))+150*time.Second)
	defer cancel()
	args := []string{}
	if *prop == "C16" {
		args = append(args, "-conc")
	}
	c := exec.CommandContext(ctx, d.bin, append(args, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(s), "-prop", *prop, "-hints", h, "-short", fmt.Sprint(short), "-out", o)...)
	c.Env = append(goEnv(), "TMPDIR="+d.dir)
	c.Stderr = os.Stderr
	c.Run()
	if b, err := os.ReadFile(o); err == nil {
		json.Unmarshal(b, r)
	}
	return r
}

// known reads the known-findings file.
func known() (open []finding) {
	b, _ := os.ReadFile(filepath.Join(*verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// open: property=<id> entry=<name> input=<quoted> <what fails>
		if !strings.HasPrefix(l, "open: ") {
			continue
		}
		var f finding
		for _, w := range strings.SplitN(strings.TrimPrefix(l, "open: "), " ", 3) {
			switch {
			case strings.HasPrefix(w, "property="):
				f.Props = []string{strings.TrimPrefix(w, "property=")}
			case strings.HasPrefix(w, "entry="):
				f.Entry = strings.TrimPrefix(w, "entry=")
			case strings.HasPrefix(w, "input="):
				if q, err := strconv.QuotedPrefix(strings.TrimPrefix(w, "input=")); err == nil {
					f.Input, _ = strconv.Unquote(q)
					f.Diff.Got = strings.TrimSpace(strings.TrimPrefix(w, "input="+q))
				}
			}
		}
		open = append(open, f)
	}
	return
}

func (d *driver) run(t0 time.Time) int {
	thorough := *tier == "thorough"
	limit := 420 * time.Second
	if thorough {
		limit = 40 * time.Minute
	}
	berr := make(chan error, 1)
	go func() { berr <- d.build() }()
	d.prove(limit)
	if err := <-berr; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var own, failed, undecided, other []*govf.Obl
	for _, o := range d.proof.Obls {
		switch {
		case has(o.Props, *prop):
			own = append(own, o)
			if !o.OK && o.Stuck {
				undecided = append(undecided, o)
			} else if !o.OK {
				failed = append(failed, o)
			}
		case !o.OK:
			other = append(other, o)
		}
	}
	for _, m := range d.proof.Missing[*prop] {
		undecided = append(undecided, &govf.Obl{ID: m, Layer: "missing", Props: []string{*prop}, Desc: "the specification demands this obligation; the verifier did not generate it", Stuck: true})
	}
	if d.perr != "" {
		undecided = append(undecided, &govf.Obl{ID: "verifier/run", Layer: "verifier", Props: []string{*prop}, Desc: d.perr, Stuck: true})
	}
	s := 6.0
	switch {
	case len(failed) > 0:
		s = 90
	case len(undecided) > 0:
		s = 75
	case len(other) > 0:
		s = 25
	}
	if *prop == "C16" {
		s = max(s, 15)
	}
	if thorough {
		s = max(s, 600)
	}
	if *secs > 0 {
		s = float64(*secs)
	}
	short := 2
	if thorough {
		short = 3
	}
	res := d.search(s, d.seed, short)
	isKnown := func(f finding) bool {
		for _, k := range known() {
			if k.Entry == f.Entry && k.Input == f.Input && has(k.Props, *prop) {
				return true
			}
		}
		return false
	}
	var hit, near *finding
	for i := range res.Findings {
		f := &res.Findings[i]
		if isKnown(*f) {
			continue
		}
		if has(f.Props, *prop) {
			if hit == nil || len(f.Input) < len(hit.Input) {
				hit = f
			}
		} else if near == nil || len(f.Input) < len(near.Input) {
			near = f
		}
	}
	if hit == nil && len(failed) > 0 {
		// an input on which the code leaves the specification, if not in
		// the part this property speaks of first
		hit = near
	}
	for _, k := range known() {
		if has(k.Props, *prop) {
			fmt.Printf("KNOWN-FINDING: property=%s %s %q %s\n", *prop, k.Entry, k.Input, k.Diff.Got)
		}
	}
	violations := 0
	if hit != nil || len(failed) > 0 {
		violations = 1
		rp := d.replayFile(hit, near, failed, undecided)
		tail := ""
		if hit == nil {
			tail = " no-failing-input-found"
		} else {
			fmt.Printf("%s(%q): specified %.500s; observed %.1500s\n", hit.Entry, hit.Input, hit.Diff.Want, hit.Diff.Got)
		}
		for i, o := range failed {
			if i < 8 {
				fmt.Printf("failed obligation %s: %s: %.400s\n", o.ID, o.Desc, strings.Join(o.Why, "; "))
			}
		}
		defer fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, rp, tail)
	} else {
		for i, o := range undecided {
			if i < 8 {
				fmt.Printf("undecided obligation %s: %s: %.400s (bounded search of %d inputs found nothing)\n", o.ID, o.Desc, strings.Join(o.Why, "; "), res.Evaluations)
			}
		}
		fmt.Printf("%s: %d obligations, %d discharged, %d undecided; replay of %d inputs: no difference for this property\n", *prop, len(own), len(own)-len(undecided), len(undecided), res.Evaluations)
	}
	d.evidence(t0, own, failed, undecided, res, violations)
	if violations > 0 {
		return 1
	}
	return 0
}

// replayFile writes what is needed to see the violation again.
func (d *driver) replayFile(hit, near *finding, failed, undecided []*govf.Obl) string {
	dir := filepath.Join(*verif, "work", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, *prop+".json")
	x := map[string]any{
		"property": *prop, "repo": *repo,
		"failed_obligations": failed, "undecided_obligations": undecided,
		"verifier": map[string]any{"hints": d.proof.Hints, "internal_errors": d.proof.Internal, "error": d.perr},
	}
	if hit != nil {
		var cases []any
		for _, h := range hit.History {
			cases = append(cases, h)
		}
		cases = append(cases, map[string]any{"entry": hit.Entry, "input": hit.Input, "charset_reader": hit.Charset})
		x["failing_input"] = hit
		x["cases"] = cases
		x["how"] = "go run ./cmd/replay -once " + p + " (in /verif) runs the cases in order against /repo and exits 3 if the last one differs from the specification"
		if *prop == "C16" {
			x["how"] = "go run -race ./cmd/replay -conc -secs 20 -once " + p + " (in /verif) calls the cases from several goroutines at the same time"
		}
	} else {
		x["how"] = "no failing input was found; govf prove (in /verif) fails the obligations above again"
		if near != nil {
			x["related_input"] = near
		}
	}
	b, _ := json.MarshalIndent(x, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}
