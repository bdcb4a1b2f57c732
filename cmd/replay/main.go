// Command replay searches for inputs on which the code under test and the
// executable specification differ.
//
//	replay -seed N -secs S [-prop C03] [-hints FILE] [-only FILE] -out FILE
//
// The parent starts one worker process per core; a worker that hangs or
// crashes is itself a finding.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/govf/hint"
	"verif/replay"
)

// Finding is one difference.
type Finding struct {
	replay.Case
	Diff    replay.Diff   `json:"difference"`
	Props   []string      `json:"properties"`
	History []replay.Case `json:"history,omitempty"` // calls made before, in order
}

// Result is what a search did.
type Result struct {
	Evaluations int       `json:"evaluations"`
	Accepted    int       `json:"accepted"`
	Skipped     int       `json:"skipped"`
	Distinct    int       `json:"distinct"`
	Samples     []string  `json:"samples"`
	Findings    []Finding `json:"findings"`
	Secs        float64   `json:"seconds"`
}

var (
	seed   = flag.Int64("seed", 1, "")
	secs   = flag.Float64("secs", 5, "")
	prop   = flag.String("prop", "", "stop at a finding of this property")
	hints  = flag.String("hints", "", "")
	out    = flag.String("out", "", "")
	short  = flag.Int("short", 2, "")
	worker = flag.Int("worker", -1, "")
	nwork  = flag.Int("workers", 8, "")
	once   = flag.String("once", "", "run the cases of a file, in order")
	conc   = flag.Bool("conc", false, "concurrent calls (build with -race); with -once, those of a file")
)

func main() {
	flag.Parse()
	switch {
	case *conc && *worker >= 0:
		concWork()
	case *conc:
		concurrent()
	case *once != "":
		runOnce()
	case *worker >= 0:
		work()
	default:
		parent()
	}
}

func readHints() (h []hint.Hint) {
	if *hints != "" {
		b, _ := os.ReadFile(*hints)
		json.Unmarshal(b, &h)
	}
	return
}

// ---- parent ----------------------------------------------------------------------

func parent() {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	var mu sync.Mutex
	var res Result
	cmds := make([]*exec.Cmd, *nwork)
	var wg sync.WaitGroup
	hit := false
	marks := marksOf(readHints())
	for i := range cmds {
		o := filepath.Join(dir, fmt.Sprint("out", i))
		c := exec.Command(self, "-worker", fmt.Sprint(i), "-workers", fmt.Sprint(*nwork), "-seed", fmt.Sprint(*seed), "-secs", fmt.Sprint(*secs), "-prop", *prop, "-hints", *hints, "-short", fmt.Sprint(*short), "-out", o)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=2000MiB")
		var buf strings.Builder
		c.Stderr = &buf
		cmds[i] = c
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := c.Wait()
			var r Result
			b, rerr := os.ReadFile(o)
			if rerr == nil {
				rerr = json.Unmarshal(b, &r)
			}
			mu.Lock()
			stop := hit
			mu.Unlock()
			if (err != nil || rerr != nil) && !stop {
				// the worker died on the case it noted last
				var cs replay.Case
				if b, e := os.ReadFile(o + ".cur"); e == nil && json.Unmarshal(b, &cs) == nil && cs.Entry != "" {
					k := "crash"
					w := buf.String()
					if strings.Contains(w, "HANG") {
						k = "hang"
					}
					cs.Date = cs.Entry == "ParseDateTime"
					d := replay.Diff{Kind: k, Want: "the call returns", Got: trunc(w, 2000)}
					if confirm(self, dir, cs) {
						r.Findings = append(r.Findings, Finding{Case: cs, Diff: d, Props: replay.Props(cs, &d, marks)})
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			res.Evaluations += r.Evaluations
			res.Accepted += r.Accepted
			res.Skipped += r.Skipped
			res.Distinct += r.Distinct
			if len(res.Samples) < 12 {
				res.Samples = append(res.Samples, r.Samples...)
			}
			res.Findings = append(res.Findings, r.Findings...)
			if *prop != "" {
				for _, f := range r.Findings {
					for _, p := range f.Props {
						if p == *prop && !hit {
							hit = true
							for _, k := range cmds {
								if k != nil && k.Process != nil {
									k.Process.Kill()
								}
							}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	// a difference that needs the calls made before it is about independence;
	// the smallest few of each kind say enough
	sort.SliceStable(res.Findings, func(i, j int) bool { return len(res.Findings[i].Input) < len(res.Findings[j].Input) })
	end := time.Now().Add(40 * time.Second)
	count := map[string]int{}
	var kept []Finding
	for _, f := range res.Findings {
		k := f.Diff.Kind + strings.Join(f.Props, " ")
		if count[k] >= 4 || time.Now().After(end) {
			continue
		}
		count[k]++
		switch c := f.Case; {
		case f.Diff.Kind == "hang" || f.Diff.Kind == "crash" || f.Diff.Kind == "aliasing":
		case !differs(self, dir, []replay.Case{c}) && !differs(self, dir, []replay.Case{c, c}):
			f.Diff.Kind = "history"
			f.Props = replay.Props(c, &f.Diff, nil)
			if h := minHistory(self, dir, f.History, c); h != nil {
				f.History = h
			}
		default:
			f.History = nil
		}
		kept = append(kept, f)
	}
	res.Findings = kept
	res.Secs = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(res, "", " ")
	if *out == "" {
		fmt.Println(string(b))
		return
	}
	os.WriteFile(*out, b, 0o644)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func marksOf(hs []hint.Hint) map[rune]bool {
	m := map[rune]bool{}
	for _, h := range hs {
		if h.Rule == "#char" {
			for _, r := range h.Text {
				m[r] = true
			}
		}
	}
	return m
}

// readCases reads a list of cases, or the cases of a replay file.
func readCases(f string) (cs []replay.Case) {
	b, err := os.ReadFile(f)
	if err != nil {
		os.Exit(2)
	}
	if json.Unmarshal(b, &cs) != nil {
		var f struct{ Cases []replay.Case }
		if json.Unmarshal(b, &f) != nil {
			os.Exit(2)
		}
		cs = f.Cases
	}
	for i := range cs {
		cs[i].Date = cs[i].Entry == "ParseDateTime"
	}
	return cs
}

// runOnce runs cases in order in this process; status 3 means the last one
// differs from the specification.
func runOnce() {
	cs := readCases(*once)
	var since atomic.Int64
	watch(func() time.Time { return time.Unix(0, since.Load()) })
	for i, c := range cs {
		since.Store(time.Now().UnixNano())
		d, _, _ := c.Check()
		if i == len(cs)-1 && d != nil {
			fmt.Printf("%s %q\n  specified: %s\n  observed:  %s\n", c.Entry, c.Input, d.Want, d.Got)
			os.Exit(3)
		}
	}
}

func once1(self, dir string, cs []replay.Case) (status int, timeout bool) {
	f, _ := os.CreateTemp(dir, "once")
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(cs)
	f.Close()
	c := exec.Command(self, "-once", f.Name())
	if c.Start() != nil {
		return 0, false
	}
	t := time.AfterFunc(30*time.Second, func() { timeout = true; c.Process.Kill() })
	c.Wait()
	t.Stop()
	return c.ProcessState.ExitCode(), timeout
}

// confirm re-runs a case that hung or crashed.
func confirm(self, dir string, c replay.Case) bool {
	s, to := once1(self, dir, []replay.Case{c})
	return to || s != 0 && s != 3
}

func differs(self, dir string, cs []replay.Case) bool {
	s, to := once1(self, dir, cs)
	return s == 3 || to
}

func minHistory(self, dir string, h []replay.Case, c replay.Case) []replay.Case {
	end := time.Now().Add(12 * time.Second)
	found := false
	for n := 1; n < 2*len(h) && !found; n *= 2 {
		m := min(n, len(h))
		if differs(self, dir, append(append([]replay.Case{}, h[len(h)-m:]...), c)) {
			h, found = h[len(h)-m:], true
		}
	}
	if !found {
		return nil
	}
	for n := (len(h) + 1) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(h) && time.Now().Before(end); {
			t := append(append([]replay.Case{}, h[:i]...), h[i+n:]...)
			if differs(self, dir, append(append([]replay.Case{}, t...), c)) {
				h = t
			} else {
				i += n
			}
		}
	}
	return h
}

// ---- worker ------------------------------------------------------------------------

type job struct {
	res   Result
	cur   *os.File
	seen  map[string]bool
	marks map[rune]bool
	ring  []past
	hist  []replay.Case
	mu    sync.Mutex
	since time.Time
	end   time.Time
	kinds map[string]int
	done  bool
	big   int
}

// past is an earlier call, whose result must stay what it was.
type past struct {
	c replay.Case
	o replay.Outcome
	s string
}

func (j *job) try(c replay.Case) {
	if j.done || len(c.Input) > 60000 {
		return
	}
	b, _ := json.Marshal(c)
	b = append(b, strings.Repeat(" ", max(0, j.big-len(b)))...)
	j.big = max(j.big, len(b))
	j.cur.WriteAt(b, 0)
	j.mu.Lock()
	j.since = time.Now()
	j.mu.Unlock()
	d, acc, skip := c.Check()
	j.mu.Lock()
	j.since = time.Time{}
	j.mu.Unlock()
	j.res.Evaluations++
	if skip {
		j.res.Skipped++
		return
	}
	if k := c.Entry + c.Input; !j.seen[k] && len(j.seen) < 400000 {
		j.seen[k] = true
		j.res.Distinct++
	}
	if acc {
		j.res.Accepted++
		if len(j.res.Samples) < 2 || j.res.Accepted%5000 == 0 && len(j.res.Samples) < 6 {
			j.res.Samples = append(j.res.Samples, fmt.Sprintf("%s %q", c.Entry, c.Input))
		}
	}
	if d != nil {
		j.found(c, d)
	}
	j.hist = append(j.hist, c)
	if len(j.hist) > 4096 {
		j.hist = append([]replay.Case{}, j.hist[2048:]...)
	}
}

// independent checks that calls neither change earlier results nor depend on
// earlier calls.
func (j *job) independent(c replay.Case) {
	o := c.Run()
	j.ring = append(j.ring, past{c, o, o.String()})
	if len(j.ring) <= 24 {
		return
	}
	p := j.ring[0]
	j.ring = j.ring[1:]
	if s := p.o.String(); s != p.s {
		j.add(p.c, &replay.Diff{Kind: "aliasing", Want: p.s, Got: s})
	}
	if s := p.c.Run().String(); s != p.s {
		j.add(p.c, &replay.Diff{Kind: "history", Want: "as before: " + p.s, Got: s})
	}
}

func (j *job) found(c replay.Case, d *replay.Diff) {
	k := d.Kind + c.Entry + strings.Join(replay.Props(c, d, j.marks), ",")
	if j.kinds[k] >= 2 && len(j.res.Findings) > 0 {
		return
	}
	j.kinds[k]++
	self, _ := os.Executable()
	dir := filepath.Dir(*out)
	if !differs(self, dir, []replay.Case{c}) && !differs(self, dir, []replay.Case{c, c}) {
		d.Kind = "history"
		j.add(c, d)
		return
	}
	// a smaller input may hang
	r := j.res
	r.Findings = append(append([]Finding{}, r.Findings...), Finding{Case: c, Diff: *d, Props: replay.Props(c, d, j.marks)})
	j.save(&r)
	j.mu.Lock()
	j.since = time.Now()
	j.mu.Unlock()
	c2, d2 := c.Shrink(d, 3*time.Second)
	j.mu.Lock()
	j.since = time.Time{}
	j.mu.Unlock()
	j.add(c2, d2)
	// the original may be about more than what is left of it
	if *prop != "" {
		in := func(l []string) bool { return strings.Contains(strings.Join(l, " "), *prop) }
		if !in(replay.Props(c2, d2, j.marks)) && in(replay.Props(c, d, j.marks)) {
			j.kinds[k]-- // keep looking for a smaller one of this property
			if j.kinds[k+"!"]++; j.kinds[k+"!"] > 20 {
				j.kinds[k]++
			}
		}
	}
}

func (j *job) add(c replay.Case, d *replay.Diff) {
	ps := replay.Props(c, d, j.marks)
	for _, f := range j.res.Findings {
		if f.Case == c {
			return
		}
	}
	f := Finding{Case: c, Diff: *d, Props: ps}
	n := len(j.hist)
	f.History = append([]replay.Case{}, j.hist[max(0, n-512):]...)
	j.res.Findings = append(j.res.Findings, f)
	for _, p := range ps {
		if p == *prop {
			j.done = true
		}
	}
	if len(j.res.Findings) >= 40 {
		j.done = true
	}
	j.save(&j.res)
}

func (j *job) save(r *Result) {
	b, _ := json.Marshal(r)
	os.WriteFile(*out, b, 0o644)
}

// watch ends the process when a call runs away.
func watch(since func() time.Time) {
	go func() {
		var m runtime.MemStats
		for range time.Tick(500 * time.Millisecond) {
			s := since()
			if s.IsZero() {
				continue
			}
			if time.Since(s) > hangTime {
				fmt.Fprintf(os.Stderr, "HANG: the call did not return within %v\n", hangTime)
				os.Exit(4)
			}
			if time.Since(s) > hangTime/4 {
				if runtime.ReadMemStats(&m); m.Sys > 3500<<20 {
					fmt.Fprintln(os.Stderr, "HANG: the call does not return and its memory grows beyond 3.5 GB")
					os.Exit(4)
				}
			}
		}
	}()
}

const hangTime = 20 * time.Second

func work() {
	debug.SetMaxStack(1 << 29)
	if f := os.Getenv("REPLAY_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	cur, err := os.Create(*out + ".cur")
	if err != nil {
		os.Exit(2)
	}
	hs := readHints()
	j := &job{cur: cur, seen: map[string]bool{}, kinds: map[string]int{}, marks: marksOf(hs)}
	watch(func() time.Time {
		j.mu.Lock()
		defer j.mu.Unlock()
		return j.since
	})
	total := time.Duration(*secs * float64(time.Second))
	j.end = t0.Add(total)
	late := func() bool { return j.done || time.Now().After(j.end) }
	g := replay.NewGen(*seed*1000 + int64(*worker))

	// hinted texts first
	n := 0
	mine := func() bool { n++; return n%*nwork == *worker }
	for _, h := range hs {
		if h.Text == "" || strings.HasPrefix(h.Rule, "#") || !mine() || late() {
			continue
		}
		g.Goal, g.GoalText = h.Rule, h.Text
		for k := 0; k < 6 && !late(); k++ {
			if h.Rule == "" {
				g.GoalText = ""
				j.try(replay.NewCase(k%2 == 0, h.Text, k > 3))
				continue
			}
			j.try(replay.NewCase(false, g.Rule("addressList", 8), k > 3))
			j.try(replay.NewCase(true, g.Rule("dateTime", 5), k > 3))
		}
	}
	g.Goal, g.GoalText = "", ""
	// every worker takes its share of the systematic inputs, in an order of
	// its own, between random ones
	var sweep []replay.Case
	take := func(date bool, in string) {
		if mine() {
			sweep = append(sweep, replay.NewCase(date, in, len(sweep)%4 == 0 && strings.Contains(in, "=?")))
		}
	}
	var texts []string
	for _, h := range hs {
		if h.Rule == "#lit" {
			texts = append(texts, h.Text)
		}
	}
	nm := replay.Sweep(j.marks, texts, take)
	replay.Short(*short, take)
	nm /= *nwork
	if nm > len(sweep) {
		nm = len(sweep)
	}
	rest := sweep[nm:]
	g.R.Shuffle(len(rest), func(a, b int) { rest[a], rest[b] = rest[b], rest[a] })
	// inputs the property speaks of come first
	sort.SliceStable(rest, func(a, b int) bool { return rest[a].About(*prop) && !rest[b].About(*prop) })
	dates := 4 // one in
	switch *prop {
	case "C08", "C09", "C10":
		dates = 1
	case "C03", "C04", "C05", "C06", "C07":
		dates = 12
	}
	var rules []hint.Hint
	for _, h := range hs {
		if h.Rule != "" && !strings.HasPrefix(h.Rule, "#") {
			rules = append(rules, h)
		}
	}
	for i := 0; !late(); i++ {
		if i%3 != 0 && len(sweep) > 0 {
			j.try(sweep[0])
			sweep = sweep[1:]
			continue
		}
		cs := g.R.Intn(4) == 0
		g.Goal, g.GoalText = "", ""
		date := g.R.Intn(dates) == 0
		if len(rules) > 0 && g.R.Intn(3) > 0 {
			h := rules[g.R.Intn(len(rules))]
			g.Goal = h.Rule
			if g.R.Intn(2) == 0 {
				g.GoalText = h.Text
			}
			date = g.R.Intn(2) == 0
			if !g.CanReach("addressList") {
				date = true
			} else if !g.CanReach("dateTime") {
				date = false
			}
		}
		var in string
		if date {
			in = g.Rule("dateTime", 3+g.R.Intn(12))
		} else {
			in = g.Rule("addressList", 6+g.R.Intn(20))
		}
		if len(in) > 36 && (g.R.Intn(12) > 0 || len(in) > 250) {
			continue
		}
		if g.R.Intn(3) == 0 {
			in = g.Mutate(in)
		}
		c := replay.NewCase(date, in, cs)
		j.try(c)
		if g.R.Intn(8) == 0 && !j.done {
			j.independent(c)
		}
		if g.R.Intn(8) == 0 && !j.done {
			// the same again, after the caller changed the result, and with
			// another CharsetReader
			x := c
			x.Change = true
			j.try(x)
			j.try(c)
			c.Charset = !c.Charset
			j.try(c)
		}
	}
	j.res.Secs = time.Since(t0).Seconds()
	j.save(&j.res)
}
