package govf

import (
	"fmt"
	"sort"
	"unicode"

	"verif/spec"
)

// LexerLayer proves the contract of the token source: every code point of the
// input is exactly one token, of the class the specification gives it.
func (v *Env) LexerLayer(r *Report) {
	s := v.Lex
	top := r.Oblige("lexer/static", "lexer", "the generated lexer is initialised with a well-formed transition network", "C13")
	if s.Err != "" {
		r.Fail(top, true, "%s", s.Err)
		return
	}
	a := s.ATN
	if !a.Lexer || len(a.Modes) != 1 || a.Actions != 0 {
		r.Fail(top, false, "lexer network: lexer=%v modes=%d actions=%d; want one mode and no actions", a.Lexer, len(a.Modes), a.Actions)
		return
	}
	if len(a.NonGreedy) > 0 {
		r.Fail(top, true, "non-greedy decisions in the lexer network")
	}
	v.dfas(r, top, s)
	type rng struct{ lo, hi, rule int }
	var all []rng
	long := r.Oblige("lexer/single", "lexer", "no token rule matches more or less than one character", "C13")
	eps := func(from []int) map[int]bool {
		seen := map[int]bool{}
		stack := append([]int{}, from...)
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			if a.Types[x] == 7 {
				continue
			}
			for _, e := range a.Edges[x] {
				if e.Rule >= 0 {
					r.Fail(long, true, "token rule %d calls a rule", a.RuleOf[x])
				} else if e.Eps {
					stack = append(stack, e.To)
				}
			}
		}
		return seen
	}
	order := 0
	for _, e := range a.Edges[a.Modes[0]] {
		ru := a.RuleOf[e.To]
		order++
		set := eps([]int{e.To})
		for x := range set {
			if a.Types[x] == 7 {
				r.Fail(long, false, "token rule %s matches the empty string", ruleName(s, ru))
			}
			for _, t := range a.Edges[x] {
				if t.Eps || t.Rule >= 0 {
					continue
				}
				for _, iv := range t.Set {
					all = append(all, rng{iv[0], iv[1], ru})
				}
				after := eps([]int{t.To})
				stop := false
				for y := range after {
					if a.Types[y] == 7 {
						stop = true
						continue
					}
					for _, u := range a.Edges[y] {
						if !u.Eps {
							r.Fail(long, false, "token rule %s matches more than one character", ruleName(s, ru))
						}
					}
				}
				if !stop {
					r.Fail(long, false, "token rule %s does not accept one character", ruleName(s, ru))
				}
			}
		}
	}
	// cut the code space where any rule or class starts or ends
	cuts := map[int]bool{0: true, unicode.MaxRune + 1: true}
	for _, x := range all {
		cuts[x.lo], cuts[x.hi+1] = true, true
	}
	for _, c := range spec.Classes {
		for _, x := range c.Ranges {
			cuts[int(x[0])], cuts[int(x[1])+1] = true, true
		}
	}
	var cs []int
	for c := range cuts {
		if c >= 0 && c <= unicode.MaxRune+1 {
			cs = append(cs, c)
		}
	}
	sort.Ints(cs)
	rank := map[int]int{}
	for i, e := range a.Edges[a.Modes[0]] {
		rank[a.RuleOf[e.To]] = i
	}
	obl := map[int]*Obl{}
	for i, c := range spec.Classes {
		obl[i+1] = r.Oblige("lexer/class/"+c.Name, "lexer", fmt.Sprintf("every character of class %s is one token of type %d", c.Name, i+1), "C13")
	}
	for i := 0; i+1 < len(cs); i++ {
		lo, hi := cs[i], cs[i+1]-1
		want := spec.Classify(rune(lo))
		best := -1
		for _, x := range all {
			if x.lo <= lo && hi <= x.hi && (best < 0 || rank[x.rule] < rank[best]) {
				best = x.rule
			}
		}
		if best >= 0 && best < len(a.RuleTok) {
			v.lexed = append(v.lexed, [3]int{lo, hi, a.RuleTok[best]})
		} else {
			v.lexed = append(v.lexed, [3]int{lo, hi, -1})
		}
		switch {
		case best < 0:
			r.Hint("#char", marked(lo, hi))
			r.Fail(obl[want], false, "U+%04X..U+%04X is no token (want %s): the character is dropped", lo, hi, spec.TokenName(want))
		case a.RuleTok[best] != want:
			r.Hint("#char", marked(lo, hi))
			r.Fail(obl[want], false, "U+%04X..U+%04X is token %d (want %s)", lo, hi, a.RuleTok[best], spec.TokenName(want))
		}
	}
}

func marked(lo, hi int) string {
	s := ""
	for _, c := range []int{lo, (lo + hi) / 2, hi} {
		if c < 0xd800 || c > 0xdfff {
			s += string(rune(c))
		}
	}
	return s
}

func ruleName(s *Static, i int) string {
	if i >= 0 && i < len(s.Rules) {
		return s.Rules[i]
	}
	return fmt.Sprint("#", i)
}

// dfas checks the table of prediction caches: entry i is an empty cache for
// decision i.
func (v *Env) dfas(r *Report, o *Obl, s *Static) {
	e, _ := v.Engine()
	sl, ok := s.DFAs.(SliceV)
	if !ok {
		r.Fail(o, false, "no table of decisions")
		return
	}
	vs, ok := e.sliceConst(s.State, sl)
	if !ok || len(vs) != len(s.ATN.Decisions) {
		r.Fail(o, false, "%d prediction caches for %d decisions", len(vs), len(s.ATN.Decisions))
		return
	}
	for i, x := range vs {
		g, isG := x.(GhostV)
		if !isG || g.ID != fmt.Sprintf("%d", i) {
			r.Fail(o, false, "prediction cache %d is %v", i, x.vkey())
		}
	}
}
