// Package replay searches for concrete inputs on which the real code differs
// from the executable specification.  It drives the public entry points of
// the package under /repo only.
package replay

import (
	"math/rand"
	"strings"

	"verif/spec"
)

// Gen generates random inputs from the specification grammar.
type Gen struct {
	R    *rand.Rand
	min  map[*spec.Expr]int
	bias map[string]float64 // probability of an optional occurrence of a rule

	// Goal is a rule that the input should contain, GoalText its text if not
	// empty.
	Goal, GoalText string
	met            bool
	reach          map[string]map[string]bool
}

// reaches reports whether e can contain the goal.
func (g *Gen) reaches(e *spec.Expr) bool {
	if g.Goal == "" || g.met {
		return false
	}
	t := g.reach[g.Goal]
	if t == nil {
		t = map[string]bool{g.Goal: true}
		for ch := true; ch; {
			ch = false
			for _, n := range spec.TheGrammar.Order {
				for r := range t {
					if !t[n] && mentions(spec.TheGrammar.Rules[n].RHS, r) {
						t[n], ch = true, true
					}
				}
			}
		}
		if g.reach == nil {
			g.reach = map[string]map[string]bool{}
		}
		g.reach[g.Goal] = t
	}
	return reachIn(e, t)
}

// CanReach reports whether inputs of a rule can contain the goal.
func (g *Gen) CanReach(rule string) bool {
	g.met = false
	return rule == g.Goal || g.reaches(spec.TheGrammar.Rules[rule].RHS)
}

func reachIn(e *spec.Expr, t map[string]bool) bool {
	if e.Kind == spec.KSym {
		return !e.Tok && t[e.Sym]
	}
	for _, s := range e.Subs {
		if reachIn(s, t) {
			return true
		}
	}
	return false
}

// NewGen returns a generator.
func NewGen(seed int64) *Gen {
	g := &Gen{R: rand.New(rand.NewSource(seed)), min: map[*spec.Expr]int{}}
	for changed := true; changed; {
		changed = false
		for _, n := range spec.TheGrammar.Order {
			if g.cost(spec.TheGrammar.Rules[n].RHS) {
				changed = true
			}
		}
	}
	g.bias = map[string]float64{"cfws": 0.12, "fws": 0.25, "comment": 0.3}
	return g
}

const inf = 1 << 20

func (g *Gen) get(e *spec.Expr) int {
	if e.Kind == spec.KSym && !e.Tok {
		if c, ok := g.min[spec.TheGrammar.Rules[e.Sym].RHS]; ok {
			return c + 1
		}
		return inf
	}
	if c, ok := g.min[e]; ok {
		return c
	}
	return inf
}

// cost computes the derivation height of e; reports whether it changed.
func (g *Gen) cost(e *spec.Expr) bool {
	ch := false
	for _, s := range e.Subs {
		if g.cost(s) {
			ch = true
		}
	}
	c := inf
	switch e.Kind {
	case spec.KSym:
		if e.Tok {
			c = 0
		} else {
			c = g.get(e)
		}
	case spec.KSeq:
		c = 0
		for _, s := range e.Subs {
			c = max(c, g.get(s))
		}
	case spec.KAlt:
		for _, s := range e.Subs {
			c = min(c, g.get(s))
		}
	case spec.KOpt, spec.KStar:
		c = 0
	case spec.KPlus:
		c = g.get(e.Subs[0])
	}
	if old, ok := g.min[e]; !ok || c < old {
		g.min[e] = c
		return c < inf
	}
	return ch
}

func mentions(e *spec.Expr, rule string) bool {
	if e.Kind == spec.KSym {
		return e.Sym == rule
	}
	for _, s := range e.Subs {
		if mentions(s, rule) {
			return true
		}
	}
	return false
}

func (g *Gen) want(e *spec.Expr, p float64) bool {
	if g.reaches(e) {
		return g.R.Intn(10) < 9
	}
	for r, b := range g.bias {
		if mentions(e, r) {
			p = min(p, b)
		}
	}
	return g.R.Float64() < p
}

// From generates a string of the language of e.
func (g *Gen) From(e *spec.Expr, budget int) string {
	var b strings.Builder
	g.gen(&b, e, budget)
	return b.String()
}

// Rule generates a string of a rule.
func (g *Gen) Rule(name string, budget int) string {
	g.met = false
	return g.From(spec.TheGrammar.Rules[name].RHS, budget)
}

func (g *Gen) tok(name string) string {
	if name == "EOF" {
		return ""
	}
	c := spec.Classes[spec.TokenNumber(name)-1]
	r := c.Ranges[g.R.Intn(len(c.Ranges))]
	if name == "UTF8NonAscii" {
		pool := []rune{0x80, 0xa0, 0xe9, 0xff, 0x101, 0x4e2d, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}
		return string(pool[g.R.Intn(len(pool))])
	}
	return string(r[0] + rune(g.R.Intn(int(r[1]-r[0])+1)))
}

func (g *Gen) gen(b *strings.Builder, e *spec.Expr, budget int) {
	switch e.Kind {
	case spec.KSym:
		if e.Tok {
			b.WriteString(g.tok(e.Sym))
			return
		}
		if e.Sym == g.Goal && !g.met {
			g.met = g.R.Intn(3) > 0
			if g.GoalText != "" {
				b.WriteString(g.GoalText)
				return
			}
			budget = max(budget, 4+g.R.Intn(8))
		}
		if (e.Sym == "atext" || e.Sym == "tokenChar" || e.Sym == "encodedChar" || e.Sym == "ctext" || e.Sym == "qtext" || e.Sym == "dtext") && g.R.Intn(3) > 0 {
			b.WriteByte("abcxyzABZ019"[g.R.Intn(12)])
			return
		}
		if e.Sym == "encodedWord" && g.R.Intn(10) < 8 {
			pool := []string{"=?utf-8?q?a=40x=2Cb?=", "=?UTF-8?B?w6nDqA==?=", "=?iso-8859-1?Q?=E9_x?=", "=?us-ascii?q?hi?=", "=?utf-8?b?!!?=", "=?x-none?q?abc?=", "=?utf-8?q?=C3=A9?=", "=?utf-8?q?_=22_?=", "=?utf-8?x?abc?=", "=?x-none?b?YWJj?="}
			b.WriteString(pool[g.R.Intn(len(pool))])
			return
		}
		g.gen(b, spec.TheGrammar.Rules[e.Sym].RHS, budget-1)
	case spec.KSeq:
		for _, s := range e.Subs {
			g.gen(b, s, budget)
		}
	case spec.KAlt:
		var ok []*spec.Expr
		if g.reaches(e) && g.R.Intn(10) < 9 {
			for _, s := range e.Subs {
				if g.reaches(s) {
					ok = append(ok, s)
				}
			}
			g.gen(b, ok[g.R.Intn(len(ok))], budget)
			return
		}
		best := inf
		for _, s := range e.Subs {
			best = min(best, g.get(s))
		}
		for _, s := range e.Subs {
			if c := g.get(s); c <= budget || c == best {
				ok = append(ok, s)
			}
		}
		g.gen(b, ok[g.R.Intn(len(ok))], budget)
	case spec.KOpt:
		if (g.get(e.Subs[0]) <= budget || g.reaches(e)) && g.want(e.Subs[0], 0.5) {
			g.gen(b, e.Subs[0], budget)
		}
	case spec.KStar, spec.KPlus:
		if e.Kind == spec.KPlus {
			g.gen(b, e.Subs[0], budget)
		}
		for (g.get(e.Subs[0]) <= budget || g.reaches(e)) && g.want(e.Subs[0], 0.45) {
			g.gen(b, e.Subs[0], budget)
		}
	}
}

// Mutate damages an input.
func (g *Gen) Mutate(s string) string {
	r := []rune(s)
	for n := 1 + g.R.Intn(2); n > 0; n-- {
		i := g.R.Intn(len(r) + 1)
		switch k := g.R.Intn(4); {
		case k == 0 || len(r) == 0: // insert
			c := []rune(g.tok(spec.Classes[g.R.Intn(len(spec.Classes))].Name))
			if g.R.Intn(2) == 0 {
				c = []rune{[]rune("@.,;:<>()[]\"\\ \t\r\n=?aé😀0+-\x00\x01\x7f")[g.R.Intn(27)]}
			}
			r = append(r[:i:i], append(c, r[i:]...)...)
		case k == 1: // delete
			if i < len(r) {
				r = append(r[:i:i], r[i+1:]...)
			}
		case k == 2: // replace
			if i < len(r) {
				r[i] = []rune(g.tok(spec.Classes[g.R.Intn(len(spec.Classes))].Name))[0]
			}
		case k == 3: // cut
			if g.R.Intn(2) == 0 {
				r = r[:i]
			} else {
				r = r[i:]
			}
		}
	}
	return string(r)
}
