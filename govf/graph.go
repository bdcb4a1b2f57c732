package govf

import (
	"fmt"
	"sort"
	"strings"

	"verif/spec"
)

// Node is a position in a rule: a decision between ordered alternatives, a
// step over a symbol, or the end of the rule.
type Node struct {
	ID    int
	Kind  string // dec sym eps end
	Alts  []*Node
	Rule  string       // sym: a rule
	Set   map[int]bool // sym: a set of tokens
	Next  *Node
	Label string
}

// RuleGraph is the ordered automaton of the right-hand side of a rule.
type RuleGraph struct {
	Name  string
	Start *Node
	Nodes []*Node
}

// Graphs are the rule automata of the specification grammar with the usual
// look-ahead sets.
type Graphs struct {
	Rules    map[string]*RuleGraph
	Nullable map[string]bool
	First    map[string]map[int]bool
	Follow   map[string]map[int]bool
	n        int
}

func (r *RuleGraph) mk(g *Graphs, kind string) *Node {
	g.n++
	n := &Node{ID: g.n, Kind: kind}
	r.Nodes = append(r.Nodes, n)
	return n
}

func tokenSet(e *spec.Expr) map[int]bool {
	switch e.Kind {
	case spec.KSym:
		if e.Tok {
			return map[int]bool{spec.TokenNumber(e.Sym): true}
		}
	case spec.KAlt:
		s := map[int]bool{}
		for _, x := range e.Subs {
			t := tokenSet(x)
			if t == nil {
				return nil
			}
			for k := range t {
				s[k] = true
			}
		}
		return s
	}
	return nil
}

func (r *RuleGraph) build(g *Graphs, e *spec.Expr, next *Node) *Node {
	if s := tokenSet(e); s != nil {
		n := r.mk(g, "sym")
		n.Set, n.Next = s, next
		return n
	}
	switch e.Kind {
	case spec.KSym:
		n := r.mk(g, "sym")
		n.Rule, n.Next = e.Sym, next
		return n
	case spec.KSeq:
		for i := len(e.Subs) - 1; i >= 0; i-- {
			next = r.build(g, e.Subs[i], next)
		}
		return next
	case spec.KAlt:
		n := r.mk(g, "dec")
		for _, s := range e.Subs {
			n.Alts = append(n.Alts, r.build(g, s, next))
		}
		return n
	case spec.KOpt:
		n := r.mk(g, "dec")
		if b := e.Subs[0]; b.Kind == spec.KAlt && tokenSet(b) == nil {
			// (a | b)? is one choice of three
			for _, s := range b.Subs {
				n.Alts = append(n.Alts, r.build(g, s, next))
			}
			n.Alts = append(n.Alts, next)
			return n
		}
		n.Alts = []*Node{r.build(g, e.Subs[0], next), next}
		return n
	case spec.KStar, spec.KPlus:
		n := r.mk(g, "dec")
		body := r.build(g, e.Subs[0], n)
		n.Alts = []*Node{body, next}
		if e.Kind == spec.KPlus {
			return body
		}
		return n
	}
	panic("graph")
}

// BuildGraphs builds the automata of a grammar.
func BuildGraphs(gr *spec.Grammar) *Graphs {
	g := &Graphs{Rules: map[string]*RuleGraph{}, Nullable: map[string]bool{}, First: map[string]map[int]bool{}, Follow: map[string]map[int]bool{}}
	for _, n := range gr.Order {
		r := &RuleGraph{Name: n}
		end := r.mk(g, "end")
		r.Start = r.build(g, gr.Rules[n].RHS, end)
		g.Rules[n] = r
		g.First[n] = map[int]bool{}
		g.Follow[n] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range gr.Order {
			f, nul := g.first(g.Rules[n].Start, nil)
			for t := range f {
				if !g.First[n][t] {
					g.First[n][t] = true
					ch = true
				}
			}
			if nul && !g.Nullable[n] {
				g.Nullable[n] = true
				ch = true
			}
		}
	}
	for _, n := range gr.Order {
		if g.isStart(n) {
			// the end of the input stays the next token once matched
			g.Follow[n][-1] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range gr.Order {
			for _, x := range g.Rules[n].Nodes {
				if x.Kind != "sym" || x.Rule == "" {
					continue
				}
				f, nul := g.first(x.Next, nil)
				if nul {
					for t := range g.Follow[n] {
						f[t] = true
					}
				}
				for t := range f {
					if !g.Follow[x.Rule][t] {
						g.Follow[x.Rule][t] = true
						ch = true
					}
				}
			}
		}
	}
	return g
}

// first computes the tokens a position can start with inside its rule and
// whether the rule can end there without a token.
func (g *Graphs) first(n *Node, seen map[*Node]bool) (map[int]bool, bool) {
	out, nul := map[int]bool{}, false
	if seen == nil {
		seen = map[*Node]bool{}
	}
	var f func(n *Node)
	f = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		switch n.Kind {
		case "end":
			nul = true
		case "dec":
			for _, a := range n.Alts {
				f(a)
			}
		case "eps":
			f(n.Next)
		case "sym":
			if n.Rule == "" {
				for t := range n.Set {
					out[t] = true
				}
				return
			}
			for t := range g.First[n.Rule] {
				out[t] = true
			}
			if g.Nullable[n.Rule] {
				f(n.Next)
			}
		}
	}
	f(n)
	return out, nul
}

// starts reports whether token t can be next at position n of rule r.
func (g *Graphs) starts(r string, n *Node, t int) bool {
	f, nul := g.first(n, nil)
	return f[t] || nul && g.Follow[r][t]
}

// closure lists the non-decision positions reachable without consuming.
func closure(ns []*Node) []*Node {
	seen := map[*Node]bool{}
	var out []*Node
	var f func(n *Node)
	f = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		switch n.Kind {
		case "dec":
			for _, a := range n.Alts {
				f(a)
			}
		case "eps":
			f(n.Next)
		default:
			out = append(out, n)
		}
	}
	for _, n := range ns {
		f(n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func nodesKey(ns []*Node) string {
	var p []string
	for _, n := range ns {
		p = append(p, fmt.Sprint(n.ID))
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

// ---- ATN ------------------------------------------------------------------

// ATN is a deserialised augmented transition network.
type ATN struct {
	Lexer     bool
	MaxToken  int
	Types     []int
	RuleOf    []int
	Edges     [][]Edge
	RuleStart []int
	RuleTok   []int
	RuleStop  map[int]int
	Modes     []int
	Decisions []int
	NonGreedy map[int]bool
	Actions   int
	Nodes     map[int]*Node // parser: state as a position
	ruleNames []string
}

// Edge is a transition.
type Edge struct {
	Type, To int
	Rule     int
	Set      [][2]int
	Eps      bool
}

// ParseATN deserialises version 4 data.
func ParseATN(data []int64) (a *ATN, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("malformed ATN: %v", p)
		}
	}()
	i := 0
	rd := func() int { v := data[i]; i++; return int(v) }
	if v := rd(); v != 4 {
		return nil, fmt.Errorf("ATN version %d", v)
	}
	a = &ATN{RuleStop: map[int]int{}, NonGreedy: map[int]bool{}}
	a.Lexer = rd() == 0
	a.MaxToken = rd()
	n := rd()
	for j := 0; j < n; j++ {
		ty := rd()
		r := -1
		if ty != 0 {
			r = rd()
			if ty == 12 || ty == 3 || ty == 4 || ty == 5 {
				rd()
			}
		}
		a.Types = append(a.Types, ty)
		a.RuleOf = append(a.RuleOf, r)
		if ty == 7 {
			a.RuleStop[r] = j
		}
	}
	a.Edges = make([][]Edge, n)
	for k := rd(); k > 0; k-- {
		a.NonGreedy[rd()] = true
	}
	if k := rd(); k != 0 {
		return nil, fmt.Errorf("precedence rules")
	}
	for k := rd(); k > 0; k-- {
		a.RuleStart = append(a.RuleStart, rd())
		if a.Lexer {
			a.RuleTok = append(a.RuleTok, rd())
		}
	}
	for k := rd(); k > 0; k-- {
		a.Modes = append(a.Modes, rd())
	}
	var sets [][][2]int
	for k := rd(); k > 0; k-- {
		m := rd()
		var s [][2]int
		if rd() != 0 {
			s = append(s, [2]int{-1, -1})
		}
		for ; m > 0; m-- {
			lo := rd()
			s = append(s, [2]int{lo, rd()})
		}
		sets = append(sets, s)
	}
	for k := rd(); k > 0; k-- {
		src, trg, ty, a1, a2, a3 := rd(), rd(), rd(), rd(), rd(), rd()
		e := Edge{Type: ty, To: trg, Rule: -1}
		switch ty {
		case 1:
			e.Eps = true
		case 2:
			if a3 != 0 {
				e.Set = [][2]int{{-1, a2}}
			} else {
				e.Set = [][2]int{{a1, a2}}
			}
		case 3:
			// serialized: trg is the rule start state, arg3 the precedence; see readEdges
			e.Rule = a2
			e.To = trg
			if a1 != a.RuleStart[a2] {
				return nil, fmt.Errorf("rule transition to state %d, rule %d starts at %d", a1, a2, a.RuleStart[a2])
			}
		case 5:
			if a3 != 0 {
				e.Set = [][2]int{{-1, -1}}
			} else {
				e.Set = [][2]int{{a1, a1}}
			}
		case 7:
			e.Set = sets[a1]
		case 6:
			a.Actions++
			e.Eps = true
		default:
			return nil, fmt.Errorf("transition type %d", ty)
		}
		a.Edges[src] = append(a.Edges[src], e)
	}
	for k := rd(); k > 0; k-- {
		a.Decisions = append(a.Decisions, rd())
	}
	if a.Lexer {
		a.Actions += rd()
	}
	return a, nil
}

// BuildNodes turns the parser states into positions.
func (a *ATN) BuildNodes(ruleNames []string) error {
	a.ruleNames = ruleNames
	a.Nodes = map[int]*Node{}
	for s, ty := range a.Types {
		if ty != 0 {
			a.Nodes[s] = &Node{ID: s, Label: fmt.Sprint("ATN state ", s)}
		}
	}
	for s, n := range a.Nodes {
		es := a.Edges[s]
		switch {
		case a.Types[s] == 7:
			n.Kind = "end"
		case len(es) == 0:
			n.Kind = "dead" // left over by the generator's optimiser; fails if reached
		case len(es) == 1 && es[0].Eps:
			n.Kind, n.Next = "eps", a.Nodes[es[0].To]
		case len(es) == 1:
			n.Kind, n.Next = "sym", a.Nodes[es[0].To]
			if es[0].Rule >= 0 {
				if es[0].Rule >= len(ruleNames) {
					return fmt.Errorf("ATN rule %d", es[0].Rule)
				}
				n.Rule = ruleNames[es[0].Rule]
			} else {
				n.Set = map[int]bool{}
				for _, r := range es[0].Set {
					for t := r[0]; t <= r[1] && t <= 4096; t++ {
						n.Set[t] = true
					}
				}
			}
		default:
			n.Kind = "dec"
			for _, e := range es {
				if !e.Eps {
					return fmt.Errorf("ATN state %d mixes epsilon and other edges", s)
				}
				n.Alts = append(n.Alts, a.Nodes[e.To])
			}
		}
	}
	return nil
}

// Bisim decides whether two positions offer the same ordered alternatives.
func Bisim(x, y *Node) (bool, string) {
	type pair struct{ a, b *Node }
	seen := map[pair]bool{}
	skip := func(n *Node) *Node {
		for i := 0; n.Kind == "eps"; i++ {
			n = n.Next
			if i > 10000 {
				break
			}
		}
		return n
	}
	var f func(x, y *Node) (bool, string)
	f = func(x, y *Node) (bool, string) {
		x, y = skip(x), skip(y)
		p := pair{x, y}
		if seen[p] {
			return true, ""
		}
		seen[p] = true
		if x.Kind != y.Kind {
			return false, fmt.Sprintf("%s against %s", x.describe(), y.describe())
		}
		switch x.Kind {
		case "end":
			return true, ""
		case "sym":
			if x.Rule != y.Rule || !sameSet(x.Set, y.Set) {
				return false, fmt.Sprintf("%s against %s", x.describe(), y.describe())
			}
			return f(x.Next, y.Next)
		case "dec":
			if len(x.Alts) != len(y.Alts) {
				return false, fmt.Sprintf("%s against %s", x.describe(), y.describe())
			}
			for i := range x.Alts {
				if ok, why := f(x.Alts[i], y.Alts[i]); !ok {
					return false, why
				}
			}
			return true, ""
		}
		return false, "?"
	}
	return f(x, y)
}

func sameSet(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (n *Node) describe() string {
	s := n.Kind
	switch n.Kind {
	case "sym":
		if n.Rule != "" {
			s = "rule " + n.Rule
		} else {
			var p []string
			for t := range n.Set {
				p = append(p, spec.TokenName(t))
			}
			sort.Strings(p)
			s = "{" + strings.Join(p, " ") + "}"
		}
	case "dec":
		s = fmt.Sprintf("choice of %d", len(n.Alts))
	case "end":
		s = "end of rule"
	}
	if n.Label != "" {
		s += " (" + n.Label + ")"
	}
	return s
}
