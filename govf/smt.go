package govf

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Prelude declares the theory of the contracts.
const Prelude = `(declare-datatypes ((Mb 0)) (((mbox (mname String) (maddr String)))))
(declare-datatypes ((Loc 0)) (((utc) (fixedzone (fzname String) (fzsecs Int)) (otherloc (olid Int)))))
(declare-datatypes ((Fn 0)) (((fnnil) (fnid (fnno Int)))))
(declare-datatypes ((Date 0)) (((date (dy Int) (dmo Int) (dd Int) (dh Int) (dmi Int) (ds Int) (dns Int) (dloc Loc)))))
(declare-fun decoded (Fn String) String)
(declare-fun decodable (Fn String) Bool)
(declare-fun join ((Seq String) String) String)
(declare-fun bytelower (String) String)
(declare-fun ttype (Int) Int)
(declare-fun ttext (Int) String)
(declare-fun elem (Int Int) Bool)
(declare-fun nextof (Int) Int)
(declare-fun nextctx (Int) Int)
(declare-fun target (Int) Int)
(declare-fun follow (Int) Int)
(declare-fun inv (Int) Int)
(declare-fun up (Int) Int)
(declare-fun depth (Int) Int)
(declare-fun runeat (Int) Int)
(declare-fun runestr (Int Int) String)
(declare-fun cls (Int) Int)
(declare-fun kid (Int) Int)
(declare-fun conc (Int) String)
(declare-fun witness (Int) Int)
(declare-fun count (Int) Int)
(declare-fun place (Int) Int)
(declare-fun isleaf (Int) Bool)
(declare-fun symtype (Int) Int)
`

// Stats counts solver work.
type Stats struct {
	Queries  int
	Time     time.Duration
	Unsat    int
	SatN     int
	Unknown  int
	Backends map[string]int
}

// Solver drives one SMT process.
type Solver struct {
	Name  string
	args  []string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cache map[string]string
	cross *Solver
	limit int // milliseconds
	Stats Stats
}

// wasted is the time all solvers together spent on queries they did not
// decide; the more it is, the sooner they give up on the next.
var wasted atomic.Int64

func patience() int {
	switch w := time.Duration(wasted.Load()); {
	case w < 30*time.Second:
		return 5000
	case w < 90*time.Second:
		return 1000
	}
	return 200
}

// maxQuery bounds the text of a query.
const maxQuery = 1 << 20

// Cross makes a second solver confirm every unsatisfiable answer.
var Cross bool

// NewSolver starts z3.
func NewSolver() *Solver {
	return &Solver{Name: "z3", args: []string{"z3-new", "-in", "-t:10000"}, cache: map[string]string{}, Stats: Stats{Backends: map[string]int{}}}
}

// NewCVC5 starts cvc5.
func NewCVC5() *Solver {
	return &Solver{Name: "cvc5", args: []string{"cvc5", "--incremental", "--strings-exp", "--tlimit-per=10000", "--lang=smt2"}, cache: map[string]string{}, Stats: Stats{Backends: map[string]int{}}}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.limit = 10000
	_, err = io.WriteString(s.in, "(set-logic ALL)\n"+Prelude)
	return err
}

// Close ends the process.
func (s *Solver) Close() {
	if s.cross != nil {
		s.cross.Close()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Script renders a satisfiability query.
func Script(fs []*Term) string {
	syms := map[string]*Term{}
	for _, f := range fs {
		f.Syms(syms)
	}
	var b strings.Builder
	for _, k := range sortedKeys(syms) {
		fmt.Fprintf(&b, "(declare-const |%s| %s)\n", k, syms[k].Sort)
	}
	b.WriteString(defs(fs))
	for _, f := range fs {
		fmt.Fprintf(&b, "(assert %s)\n", f.SMT())
	}
	return b.String()
}

// Check decides satisfiability of a conjunction: sat, unsat or unknown.
func (s *Solver) Check(fs []*Term) string {
	var gs []*Term
	for _, f := range fs {
		if f.False() {
			return "unsat"
		}
		if !f.True() {
			gs = append(gs, f)
		}
	}
	if len(gs) == 0 {
		return "sat"
	}
	n := 0
	for _, g := range gs {
		if n += g.size(); n > maxQuery/8 {
			s.Stats.Unknown++
			return "unknown: the query is too large"
		}
	}
	q := Script(gs)
	if r, ok := s.cache[q]; ok {
		return r
	}
	t0 := time.Now()
	r := s.ask(q)
	s.Stats.Time += time.Since(t0)
	s.Stats.Queries++
	s.Stats.Backends[s.Name]++
	if Cross && r == "unsat" && s.Name == "z3" {
		if s.cross == nil {
			s.cross = NewCVC5()
		}
		t0 := time.Now()
		c := s.cross.ask(q)
		s.Stats.Time += time.Since(t0)
		switch c {
		case "unsat":
			s.Stats.Backends["z3 confirmed by cvc5"]++
		case "sat":
			s.Stats.Backends["z3 refuted by cvc5"]++
			r = "unknown: z3 says unsat, cvc5 says sat"
		default:
			s.Stats.Backends["cvc5 undecided"]++
		}
	}
	switch r {
	case "sat":
		s.Stats.SatN++
	case "unsat":
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
		wasted.Add(int64(time.Since(t0)))
	}
	s.cache[q] = r
	return r
}

func (s *Solver) ask(q string) string {
	for try := 0; try < 2; try++ {
		if s.cmd == nil {
			if err := s.start(); err != nil {
				return "unknown: " + err.Error()
			}
		}
		pre := "(push 1)\n"
		if s.Name == "z3" {
			if ms := patience(); ms != s.limit {
				s.limit = ms
				pre = fmt.Sprintf("(set-option :timeout %d)\n(push 1)\n", ms)
			}
		}
		// the solver may overlook its own limit
		var fired atomic.Bool
		proc := s.cmd.Process
		w := time.AfterFunc(16*time.Second, func() { fired.Store(true); proc.Kill() })
		_, err := io.WriteString(s.in, pre+q+"(check-sat)\n(pop 1)\n")
		var l string
		if err == nil {
			l, err = s.out.ReadString('\n')
		}
		w.Stop()
		if err != nil {
			s.Close()
			if fired.Load() {
				return "timeout"
			}
			continue
		}
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		s.Close() // an error line: resynchronise
		return "unknown: " + l
	}
	return "unknown: solver died"
}

// Model finds values of the string symbols of a satisfiable query.
func (s *Solver) Model(fs []*Term) map[string]string {
	syms := map[string]*Term{}
	for _, f := range fs {
		f.Syms(syms)
	}
	var names []string
	for _, k := range sortedKeys(syms) {
		if syms[k].Sort == Str {
			names = append(names, k)
		}
	}
	out := map[string]string{}
	if len(names) == 0 {
		return out
	}
	q := "(set-option :produce-models true)\n" + Prelude + Script(fs) + "(check-sat)\n"
	for _, n := range names {
		q += "(eval |" + n + "|)\n"
	}
	cmd := exec.Command("z3-new", "-in", "-t:5000")
	cmd.Stdin = strings.NewReader(q)
	b, _ := cmd.Output()
	ls := strings.Split(strings.TrimSpace(string(b)), "\n")
	if len(ls) != len(names)+1 || ls[0] != "sat" {
		for n, v := range Witness(fs) {
			if v, is := v.(string); is {
				out[n] = v
			}
		}
		return out
	}
	for i, n := range names {
		v := strings.TrimSuffix(strings.TrimPrefix(ls[i+1], "\""), "\"")
		v = strings.ReplaceAll(v, "\"\"", "\"")
		v = uescape.ReplaceAllStringFunc(v, func(m string) string {
			c, err := strconv.ParseUint(m[3:len(m)-1], 16, 32)
			if err != nil || c > 255 {
				return ""
			}
			return string([]byte{byte(c)})
		})
		out[n] = v
	}
	return out
}

var uescape = regexp.MustCompile(`\\u\{[0-9a-fA-F]+\}`)

// Valid decides whether the assumptions imply the goal.
func (s *Solver) Valid(pc []*Term, goal *Term) string {
	r := s.valid(pc, goal)
	if r != "unsat" && r != "sat" && !strings.HasPrefix(r, "unknown: the query") {
		if w := Witness(append(append([]*Term{}, pc...), Not(goal))); w != nil {
			s.Stats.Backends["evaluation"]++
			return "sat"
		}
	}
	return r
}

func (s *Solver) valid(pc []*Term, goal *Term) string {
	if goal.True() {
		return "unsat"
	}
	q := append(append([]*Term{}, pc...), Not(goal))
	r := s.Check(q)
	if r == "sat" {
		// not every text: only those of the grammar
		if f := facts(q); len(f) > 0 {
			r = s.Check(append(q, f...))
		}
	}
	if r == "sat" {
		join, elem := false, false
		syms := map[string]*Term{}
		for _, t := range q {
			join = join || t.applies("join")
			t.Syms(syms)
		}
		for n := range syms {
			elem = elem || strings.HasPrefix(n, "elem")
		}
		inexact := join && elem
		for _, t := range q {
			inexact = inexact || t.inexact()
		}
		if inexact {
			return "unknown: a counterexample may rest on a function that is not fully specified"
		}
	}
	return r
}
