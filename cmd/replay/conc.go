package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/govf/hint"
	"verif/replay"
	"verif/spec"
)

// concurrent looks for calls that interfere with each other: processes, built
// with the race detector, in which many goroutines call the entry points.
func concurrent() {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	end := t0.Add(time.Duration(*secs * float64(time.Second)))
	var mu sync.Mutex
	var res Result
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			// the caches are built up at the start of a process: start many
			for n := 0; time.Now().Before(end); n++ {
				secs := 6.0
				if (w+n)%2 == 0 {
					secs = 2
				}
				r := concProcess(dir, w+3*n, min(secs, time.Until(end).Seconds()))
				mu.Lock()
				res.Evaluations += r.Evaluations
				res.Accepted += r.Accepted
				res.Distinct += r.Distinct
				if len(res.Samples) < 8 {
					res.Samples = append(res.Samples, r.Samples...)
				}
				res.Findings = append(res.Findings, r.Findings...)
				stop := len(res.Findings) > 0
				mu.Unlock()
				if stop {
					return
				}
			}
		}()
	}
	wg.Wait()
	res.Secs = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(res, "", " ")
	if *out == "" {
		fmt.Println(string(b))
		return
	}
	os.WriteFile(*out, b, 0o644)
}

// concProcess runs one process and judges its end.
func concProcess(dir string, n int, secs float64) (r Result) {
	self, _ := os.Executable()
	o := filepath.Join(dir, fmt.Sprint("conc", n))
	c := exec.Command(self, "-worker", fmt.Sprint(n), "-conc", "-seed", fmt.Sprint(*seed), "-secs", fmt.Sprint(secs), "-hints", *hints, "-once", *once, "-out", o)
	c.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=3000MiB")
	var buf strings.Builder
	c.Stderr = &buf
	if c.Start() != nil {
		return
	}
	late := false
	t := time.AfterFunc(time.Duration(secs*float64(time.Second))+90*time.Second, func() { late = true; c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if b, e := os.ReadFile(o); e == nil {
		json.Unmarshal(b, &r)
	}
	if err == nil || len(r.Findings) > 0 {
		return
	}
	var cs []replay.Case
	if b, e := os.ReadFile(o + ".cur"); e == nil {
		json.Unmarshal(b, &cs)
	}
	w := buf.String()
	k := ""
	switch {
	case strings.Contains(w, "DATA RACE"):
		k = "race"
	case strings.Contains(w, "fatal error: concurrent map"):
		k = "race"
	case late:
		k = "hang"
	case strings.Contains(w, "fatal error") || strings.Contains(w, "panic:"):
		k = "crash"
	}
	if k != "" && len(cs) > 0 {
		f := Finding{Case: cs[0], Diff: replay.Diff{Kind: k, Want: "concurrent calls do not interfere", Got: trunc(w, 6000)}, Props: []string{"C16"}, History: cs}
		r.Findings = append(r.Findings, f)
	}
	return
}

// concWork is one process: rounds of cases, all of them called by several
// goroutines at the same time.
func concWork() {
	t0 := time.Now()
	end := t0.Add(time.Duration(*secs * float64(time.Second)))
	var places []hint.Hint
	for _, h := range readHints() {
		if spec.TheGrammar.Rules[h.Rule] != nil {
			places = append(places, h)
		}
	}
	g := replay.NewGen(*seed*7919 + int64(*worker))
	charset := *worker%2 == 1
	var pool []replay.Case
	take := func(date bool, in string) { pool = append(pool, replay.NewCase(date, in, charset)) }
	var fixed []replay.Case
	if *once != "" {
		fixed = readCases(*once)
	} else {
		replay.Sweep(nil, nil, take)
		g.R.Shuffle(len(pool), func(a, b int) { pool[a], pool[b] = pool[b], pool[a] })
	}
	var res Result
	seen := map[string]bool{}
	for round := 0; time.Now().Before(end); round++ {
		var cs []replay.Case
		add := func(date bool, in string) {
			if len(in) <= 200 {
				cs = append(cs, replay.NewCase(date, in, charset))
			}
		}
		n := 24
		if len(places) > 0 && *worker%3 > 0 {
			// A round of a few short inputs of the places that the verifier
			// points at: what is set up once is set up early in a process.
			n = 0
			g.R.Shuffle(len(places), func(a, b int) { places[a], places[b] = places[b], places[a] })
			for try := 0; try < 3 && len(cs) < 6; try++ {
				for _, h := range places {
					g.Goal, g.GoalText = h.Rule, h.Text
					for _, e := range []string{"addressList", "dateTime"} {
						if !g.CanReach(e) || len(cs) >= 10 {
							continue
						}
						in := g.Rule(e, 2)
						for k := 0; k < 12; k++ {
							if x := g.Rule(e, 2); len(x) < len(in) {
								in = x
							}
						}
						add(e == "dateTime", in)
					}
				}
			}
		}
		for _, h := range places {
			if n == 0 || len(cs) >= 12 || g.R.Intn(2) == 0 {
				continue
			}
			g.Goal, g.GoalText = h.Rule, h.Text
			for _, e := range []string{"addressList", "dateTime"} {
				if g.CanReach(e) {
					add(e == "dateTime", g.Rule(e, 5))
				}
			}
		}
		g.Goal, g.GoalText = "", ""
		for len(cs) < n {
			date := g.R.Intn(3) == 0
			r := "addressList"
			if date {
				r = "dateTime"
			}
			in := g.Rule(r, 4+g.R.Intn(12))
			if g.R.Intn(4) == 0 {
				in = g.Mutate(in)
			}
			add(date, in)
			if len(pool) > 0 {
				c := pool[0]
				pool = pool[1:]
				if len(c.Input) < 60 {
					cs = append(cs, c)
				}
			}
		}
		if fixed != nil {
			cs = fixed
		}
		b, _ := json.Marshal(cs)
		os.WriteFile(*out+".cur", b, 0o644)
		// Outcomes are compared with the specification, which is not told
		// apart from the code by an error of its own here.
		type exp struct {
			first atomic.Pointer[string]
			bad   atomic.Pointer[string]
		}
		if len(cs) == 0 {
			continue
		}
		es := make([]exp, len(cs))
		cs[0].Setup()
		const goroutines = 8
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < goroutines; w++ {
			perm := g.R.Perm(len(cs))
			if w%2 == 0 { // the same calls at the same time
				for i := range perm {
					perm[i] = i
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, i := range perm {
					s := cs[i].Call().String()
					if !es[i].first.CompareAndSwap(nil, &s) {
						if *es[i].first.Load() != s {
							es[i].bad.Store(&s)
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, c := range cs {
			alone := c.Call().String()
			d := es[i].bad.Load()
			if f := es[i].first.Load(); d == nil && *f != alone {
				d = f
			}
			if d != nil {
				diff := replay.Diff{Kind: "concurrent", Want: "as alone: " + alone, Got: *d}
				res.Findings = append(res.Findings, Finding{Case: c, Diff: diff, Props: []string{"C16"}, History: cs})
				break
			}
			res.Evaluations += goroutines
			if !seen[c.Input] {
				seen[c.Input] = true
				res.Distinct++
			}
			if !strings.Contains(alone, "|true|") {
				res.Accepted++
				if len(res.Samples) < 2 {
					res.Samples = append(res.Samples, fmt.Sprintf("%d goroutines: %s %q", goroutines, c.Entry, c.Input))
				}
			}
		}
		if len(res.Findings) > 0 {
			break
		}
	}
	res.Secs = time.Since(t0).Seconds()
	b, _ := json.Marshal(res)
	os.WriteFile(*out, b, 0o644)
	if *once != "" && len(res.Findings) > 0 {
		fmt.Println(res.Findings[0].Diff.Got)
		os.Exit(3)
	}
}
