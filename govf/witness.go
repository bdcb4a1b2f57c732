package govf

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/replay"
)

// When the solver gives no answer, a counterexample is looked for by evaluation:
// the formulas are evaluated under assignments of constants to their symbols,
// texts of nodes being phrases of their rules.  A function is evaluated only if
// its meaning is known; the decoder of encoded words can be any function.

// con is a value of a datatype.
type con struct {
	name string
	args []any
}

type eval struct {
	env  map[string]any
	seed uint32
	bad  bool
}

func (v *eval) fail() any { v.bad = true; return nil }

func vstr(x any) string {
	switch x := x.(type) {
	case con:
		var p []string
		for _, a := range x.args {
			p = append(p, vstr(a))
		}
		return x.name + "(" + strings.Join(p, ",") + ")"
	case []any:
		var p []string
		for _, a := range x {
			p = append(p, vstr(a))
		}
		return "[" + strings.Join(p, ",") + "]"
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(x)
}

func (v *eval) hash(a ...any) uint32 {
	h := fnv.New32a()
	fmt.Fprint(h, v.seed)
	for _, x := range a {
		h.Write([]byte(vstr(x)))
	}
	return h.Sum32()
}

func cutStr(s string, i, n int64) string {
	if i < 0 || i >= int64(len(s)) || n <= 0 {
		return ""
	}
	if i+n > int64(len(s)) {
		n = int64(len(s)) - i
	}
	return s[i : i+n]
}

func (v *eval) term(t *Term) any {
	if v.bad {
		return nil
	}
	switch t.Op {
	case "sym":
		if x, has := v.env[t.S]; has {
			return x
		}
		return v.fail()
	case "int":
		return t.N
	case "bool":
		return t.N == 1
	case "str":
		return t.S
	case "lin":
		n := t.N
		for i, a := range t.Args {
			x, is := v.term(a).(int64)
			if !is {
				return v.fail()
			}
			n += t.C[i] * x
		}
		return n
	case "++":
		if t.Sort == Str {
			s := ""
			for _, a := range t.Args {
				x, is := v.term(a).(string)
				if !is {
					return v.fail()
				}
				s += x
			}
			return s
		}
		l := []any{}
		for _, a := range t.Args {
			x, is := v.term(a).([]any)
			if !is {
				return v.fail()
			}
			l = append(l, x...)
		}
		return l
	}
	if t.Op != "app" {
		return v.fail()
	}
	switch t.S {
	case "ite", "and", "or":
		c, is := v.term(t.Args[0]).(bool)
		if !is {
			return v.fail()
		}
		if t.S == "ite" {
			if c {
				return v.term(t.Args[1])
			}
			return v.term(t.Args[2])
		}
		for _, a := range t.Args[1:] {
			if c == (t.S == "or") {
				return c
			}
			if c, is = v.term(a).(bool); !is {
				return v.fail()
			}
		}
		return c
	case "str.in_re":
		s, is := v.term(t.Args[0]).(string)
		if !is {
			return v.fail()
		}
		m, good := reEnds(t.Args[1], s, 0)
		if !good {
			return v.fail()
		}
		return m[len(s)]
	}
	as := make([]any, len(t.Args))
	for i, a := range t.Args {
		if as[i] = v.term(a); v.bad {
			return nil
		}
	}
	str := func(i int) string {
		s, is := as[i].(string)
		if !is {
			v.bad = true
		}
		return s
	}
	num := func(i int) int64 {
		n, is := as[i].(int64)
		if !is {
			v.bad = true
		}
		return n
	}
	var r any
	switch t.S {
	case "=":
		r = vstr(as[0]) == vstr(as[1])
	case "not":
		b, is := as[0].(bool)
		v.bad = v.bad || !is
		r = !b
	case "<":
		r = num(0) < num(1)
	case "*":
		r = num(0) * num(1)
	case "str.len":
		r = int64(len(str(0)))
	case "seq.len":
		l, is := as[0].([]any)
		v.bad = v.bad || !is
		r = int64(len(l))
	case "seq.unit":
		r = []any{as[0]}
	case "str.contains":
		r = strings.Contains(str(0), str(1))
	case "str.prefixof":
		r = strings.HasPrefix(str(1), str(0))
	case "str.suffixof":
		r = strings.HasSuffix(str(1), str(0))
	case "str.substr":
		r = cutStr(str(0), num(1), num(2))
	case "str.replace_all":
		s := str(0)
		if str(1) != "" {
			s = strings.ReplaceAll(s, str(1), str(2))
		}
		r = s
	case "str.indexof":
		s, i := str(0), num(2)
		if i < 0 || i > int64(len(s)) {
			r = int64(-1)
		} else if k := strings.Index(s[i:], str(1)); k < 0 {
			r = int64(-1)
		} else {
			r = i + int64(k)
		}
	case "str.to_code":
		r = int64(-1)
		if s := str(0); len(s) == 1 {
			r = int64(s[0])
		}
	case "str.to_int":
		s := str(0)
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil && len(s) > 18 {
			return v.fail()
		}
		if s == "" || strings.Trim(s, "0123456789") != "" {
			n = -1
		}
		r = n
	case "join":
		l, is := as[0].([]any)
		if !is {
			return v.fail()
		}
		var p []string
		for _, x := range l {
			s, is := x.(string)
			if !is {
				return v.fail()
			}
			p = append(p, s)
		}
		r = strings.Join(p, str(1))
	case "mbox", "fnnil", "utc", "fixedzone", "otherloc", "date":
		r = con{t.S, as}
	case "bytelower":
		r = strings.ToLower(str(0))
	case "decodable":
		r = v.hash(append([]any{"d"}, as...)...)%2 == 0
	case "decoded":
		r = []string{"", "x", " y ", "Z_"}[v.hash(as...)%4]
	default:
		name := strings.Trim(t.S, "|")
		switch {
		case strings.HasPrefix(name, "trim."):
			p := strings.SplitN(name, ".", 3)
			set := strings.Join(spaces, "")
			if p[2] != "space" {
				var b []byte
				fmt.Sscanf(p[2], "%x", &b)
				set = string(b)
			}
			if p[1] != "r" {
				r = strings.TrimLeft(str(0), set)
				as[0] = r
			}
			if p[1] != "l" {
				r = strings.TrimRight(str(0), set)
			}
		case name == "lastindex":
			r = int64(strings.LastIndex(str(0), str(1)))
		case name == "fn.equalfold":
			r = strings.EqualFold(str(0), str(1))
		case name == "fn.strings.ToUpper":
			r = strings.ToUpper(str(0))
		case name == "fn.strings.ToTitle":
			r = strings.ToTitle(str(0))
		case name == "fn.strings.ToValidUTF8":
			r = strings.ToValidUTF8(str(0), str(1))
		case name == "fn.strings.Count":
			r = int64(strings.Count(str(0), str(1)))
		case name == "fn.strings.Compare":
			r = int64(strings.Compare(str(0), str(1)))
		default:
			return v.fail()
		}
	}
	if v.bad {
		return nil
	}
	return r
}

// reEnds is the set of ends of matches of a regular expression that begin at i.
func reEnds(r *Term, s string, i int) (map[int]bool, bool) {
	seq := func(from map[int]bool, x *Term) (map[int]bool, bool) {
		o := map[int]bool{}
		for j := range from {
			m, good := reEnds(x, s, j)
			if !good {
				return nil, false
			}
			for k := range m {
				o[k] = true
			}
		}
		return o, true
	}
	if r.Op != "app" {
		return nil, false
	}
	switch r.S {
	case "str.to_re":
		if !r.Args[0].IsStr() {
			return nil, false
		}
		if l := r.Args[0].S; strings.HasPrefix(s[i:], l) {
			return map[int]bool{i + len(l): true}, true
		}
		return nil, true
	case "re.none":
		return nil, true
	case "re.all":
		o := map[int]bool{}
		for j := i; j <= len(s); j++ {
			o[j] = true
		}
		return o, true
	case "re.range":
		a, b := r.Args[0], r.Args[1]
		if !a.IsStr() || !b.IsStr() || len(a.S) != 1 || len(b.S) != 1 {
			return nil, false
		}
		if i < len(s) && a.S[0] <= s[i] && s[i] <= b.S[0] {
			return map[int]bool{i + 1: true}, true
		}
		return nil, true
	case "re.union":
		o := map[int]bool{}
		for _, x := range r.Args {
			m, good := reEnds(x, s, i)
			if !good {
				return nil, false
			}
			for k := range m {
				o[k] = true
			}
		}
		return o, true
	case "re.++":
		o := map[int]bool{i: true}
		for _, x := range r.Args {
			var good bool
			if o, good = seq(o, x); !good {
				return nil, false
			}
		}
		return o, true
	case "re.*", "re.+":
		o, next := map[int]bool{}, map[int]bool{i: true}
		if r.S == "re.*" {
			o[i] = true
		}
		for len(next) > 0 {
			m, good := seq(next, r.Args[0])
			if !good {
				return nil, false
			}
			next = map[int]bool{}
			for k := range m {
				if !o[k] {
					o[k], next[k] = true, true
				}
			}
		}
		return o, true
	}
	return nil, false
}

var (
	phraseMu sync.Mutex
	phrases  = map[string][]string{}
)

// phrasesOf are phrases of a rule.
func phrasesOf(rule string) []string {
	phraseMu.Lock()
	defer phraseMu.Unlock()
	if ps, done := phrases[rule]; done {
		return ps
	}
	g := replay.NewGen(1)
	seen := map[string]bool{}
	var ps []string
	for i := 0; i < 600; i++ {
		if s := g.Rule(rule, i%7); !seen[s] && len(s) < 60 {
			seen[s] = true
			ps = append(ps, s)
		}
	}
	sort.SliceStable(ps, func(i, j int) bool { return len(ps[i]) < len(ps[j]) })
	phrases[rule] = ps
	return ps
}

// lits collects the constants of a term.
func (t *Term) lits(ss map[string]bool, ns map[int64]bool) {
	switch t.Op {
	case "str":
		ss[t.S] = true
	case "int":
		ns[t.N] = true
	case "lin":
		ns[t.N], ns[-t.N] = true, true
	case "app":
		if name := strings.Trim(t.S, "|"); strings.HasPrefix(name, "trim.") {
			if p := strings.SplitN(name, ".", 3); p[2] == "space" {
				ss[" "] = true
			} else {
				var b []byte
				fmt.Sscanf(p[2], "%x", &b)
				for _, c := range b {
					ss[string(rune(c))] = true
				}
			}
		}
	}
	for _, a := range t.Args {
		a.lits(ss, ns)
	}
}

// Witness looks for an assignment under which all of fs hold.
func Witness(fs []*Term) map[string]any {
	syms := map[string]*Term{}
	ls, ln := map[string]bool{}, map[int64]bool{}
	var parts []*Term
	var split func(t *Term)
	split = func(t *Term) {
		if t.Op == "app" && t.S == "and" {
			for _, a := range t.Args {
				split(a)
			}
			return
		}
		parts = append(parts, t)
	}
	size := 0
	for _, f := range fs {
		if size += f.size(); size > 1<<14 {
			return nil
		}
		f.Syms(syms)
		f.lits(ls, ln)
		split(f)
	}
	var strs []string
	for s := range ls {
		if s != "" {
			strs = append(strs, s)
		}
	}
	sort.Strings(strs)
	nums := []int64{0, 1, 2, 12, 59, 99}
	for n := range ln {
		nums = append(nums, n-1, n, n+1)
	}
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	names := sortedKeys(syms)
	for _, n := range names {
		switch s := syms[n]; s.Sort {
		case Str, Int, Bool, SeqStr, SeqMb, Fn, Loc:
		default:
			return nil
		}
	}
	rnd := rand.New(rand.NewSource(1))
	chars := strings.Join(strs, "")
	near := map[string][]string{}
	text := func(rule string) (string, bool) {
		ps := phrasesOf(rule)
		if len(ps) == 0 {
			return "", false
		}
		ns, done := near[rule]
		if !done {
			for _, p := range ps {
				if strings.ContainsAny(p, chars) {
					ns = append(ns, p)
				}
			}
			near[rule] = ns
		}
		if len(ns) > 0 && rnd.Intn(3) > 0 {
			ps = ns
		}
		// the short ones first
		k := 1 + rnd.Intn(len(ps))
		return ps[rnd.Intn(k)], true
	}
	str := func() string {
		s := ""
		for n := rnd.Intn(4); n > 0; n-- {
			switch k := rnd.Intn(6); {
			case k < 3 && len(strs) > 0:
				s += strs[rnd.Intn(len(strs))]
			case k == 3:
				s += "a"
			case k == 4:
				s += "B "
			default:
				s += []string{"\"", "\\", " ", "1", ".", "@", "_", "\u00e9"}[rnd.Intn(8)]
			}
		}
		return s
	}
	for try := 0; try < 1500; try++ {
		v := &eval{env: map[string]any{}, seed: uint32(try)}
		for _, n := range names {
			s := syms[n]
			switch s.Sort {
			case Str:
				if strings.HasPrefix(n, "text.") {
					x, good := text(strings.SplitN(n, ".", 3)[1])
					if !good {
						return nil
					}
					v.env[n] = x
				} else {
					v.env[n] = str()
				}
			case Int:
				v.env[n] = nums[rnd.Intn(len(nums))]
			case Bool:
				v.env[n] = rnd.Intn(2) == 0
			case Fn:
				v.env[n] = con{[]string{"fnnil", "sym " + n}[rnd.Intn(2)], nil}
			case Loc:
				v.env[n] = con{"sym " + n, nil}
			case SeqStr, SeqMb:
				l := []any{}
				for k := rnd.Intn(4); k > 0; k-- {
					if s.Sort == SeqStr {
						l = append(l, str())
					} else {
						l = append(l, con{"mbox", []any{str(), str()}})
					}
				}
				v.env[n] = l
			}
		}
		// equations are definitions
		for round := 0; round < 2; round++ {
			for _, p := range parts {
				if p.Op != "app" || p.S != "=" {
					continue
				}
				for i := range p.Args {
					x, y := p.Args[i], p.Args[1-i]
					in := map[string]*Term{}
					y.Syms(in)
					if x.Op == "sym" && in[x.S] == nil && !strings.HasPrefix(x.S, "text") {
						if r := v.term(y); !v.bad {
							v.env[x.S] = r
						}
						break
					}
				}
			}
		}
		good := true
		for _, p := range parts {
			b, is := v.term(p).(bool)
			if v.bad || !is {
				good = false
				if try > 50 && v.bad {
					return nil
				}
				break
			}
			if !b {
				good = false
				break
			}
		}
		if good {
			return v.env
		}
	}
	return nil
}
