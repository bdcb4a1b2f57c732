package govf

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Interval sets as the error strategy uses them: lists of non-empty intervals
// from -2 (epsilon) up, by their start, of which only the first can hold -2.
// What a set holds is the union of its intervals.  The list is given as the
// intervals before the one a loop has reached, that interval, its successor and
// the rest; x stands for any number.
type ivList struct {
	m        *lem
	id       int // the set
	arr      int
	k        *Term // intervals before
	more     int   // intervals made explicit: 0, 1 or 2 (and a rest)
	a, b     int
	n        *Term // intervals
	x        *Term
	old      *Term // x is in the set
	headStop *Term // bound of the intervals before
}

const ivMin = -2

func ivIn(x, start, stop *Term) *Term { return And(Le(start, x), Lt(x, stop)) }

// ivState makes a set with k intervals before the one a loop looks at.
func (m *lem) ivState(more int, k *Term) (*State, *ivList) {
	st := m.state()
	l := &ivList{m: m, k: k, more: more, x: Sym("x", Int), headStop: Sym("head.stop", Int)}
	last, rest := Sym("head.start", Int), Sym("rest.start", Int)
	inHead, inRest := Sym("x in head", Bool), Sym("x in rest", Bool)
	some := func(name string) func(i *Term) Val {
		return func(i *Term) Val { return GhostV{Kind: "nninterval", ID: name + i.Key()} }
	}
	st.Assume(Le(IntC(0), k))
	// all of head starts at last at the latest and stops at headStop
	st.Assume(Or(Not(inHead), ivIn(l.x, IntC(ivMin), l.headStop)))
	st.Assume(Or(Lt(IntC(0), k), Not(inHead)))
	st.Assume(Or(Not(Lt(IntC(0), k)), And(Le(IntC(ivMin), last), Lt(last, l.headStop))))
	segs := []Seg{{Kind: "fn", Len: k, Name: "head", At: some("head")}}
	n, prev, hasPrev := k, last, Lt(IntC(0), k)
	l.old = inHead
	for i := 0; i < more; i++ {
		s, e := Sym("start"+string(rune('a'+i)), Int), Sym("stop"+string(rune('a'+i)), Int)
		st.Assume(Lt(s, e))
		st.Assume(Le(IntC(ivMin), s))
		st.Assume(Or(Not(hasPrev), And(Le(prev, s), Lt(IntC(ivMin), s))))
		id := m.obj(st, "Interval", map[string]Val{"Start": s, "Stop": e})
		if i == 0 {
			l.a = id
		} else {
			l.b = id
		}
		segs = append(segs, Seg{Kind: "cell", V: PtrV{Obj: id}, Len: IntC(1)})
		l.old = Or(l.old, ivIn(l.x, s, e))
		n, prev, hasPrev = Add(n, IntC(1)), s, BoolC(true)
	}
	if more == 2 {
		r := Sym("rest", Int)
		st.Assume(Le(IntC(0), r))
		st.Assume(Le(prev, rest))
		st.Assume(Or(Not(inRest), And(Le(rest, l.x), Lt(IntC(0), r))))
		st.Assume(Lt(IntC(ivMin), rest))
		segs = append(segs, Seg{Kind: "fn", Len: r, Name: "rest", At: some("rest")})
		n = Add(n, r)
		l.old = Or(l.old, inRest)
	}
	l.n = n
	spare := Sym("spare", Int)
	st.Assume(Le(IntC(0), spare))
	segs = append(segs, Seg{Kind: "spare", Len: spare})
	l.arr = st.New(types.NewSlice(types.NewPointer(m.typ("Interval"))), SegV{segs}, "fn")
	m.name[l.arr] = "the intervals"
	l.id = m.obj(st, "IntervalSet", map[string]Val{"intervals": SliceV{l.arr, IntC(0), n, Add(n, spare)}})
	return st, l
}

// has says that x is in the set, and whether the set is as it should be.
func (l *ivList) has(s *State) (in, good *Term) {
	v := l.m.field(s, PtrV{Obj: l.id}, "intervals")
	if _, isNil := v.(NilV); isNil {
		return BoolC(false), BoolC(true)
	}
	sl, is := v.(SliceV)
	if !is {
		return nil, nil
	}
	segs, ok := l.m.e.region(s, sl)
	if !ok {
		return nil, nil
	}
	in, good = BoolC(false), BoolC(true)
	n := IntC(0)
	prev, hasPrev := IntC(0), BoolC(false)
	next := func(start, stop, when *Term) {
		ordered := Or(Not(hasPrev), And(Le(prev, start), Lt(IntC(ivMin), start)))
		good = And(good, Or(Not(when), And(ordered, Le(IntC(ivMin), start), Lt(start, stop))))
	}
	for _, g := range segs {
		switch {
		case g.Kind == "fn" && g.Name == "head" && n.IsInt() && n.N == 0:
			in = Or(in, Sym("x in head", Bool))
			prev, hasPrev = Sym("head.start", Int), Lt(IntC(0), l.k)
		case g.Kind == "fn" && g.Name == "rest":
			in = Or(in, Sym("x in rest", Bool))
			r := Sym("rest.start", Int)
			next(r, Add(r, IntC(1)), Lt(IntC(0), g.Len))
		case g.Kind == "cell":
			a, isA := l.m.field(s, g.V, "Start").(*Term)
			b, isB := l.m.field(s, g.V, "Stop").(*Term)
			if !isA || !isB {
				return nil, nil
			}
			in = Or(in, ivIn(l.x, a, b))
			next(a, b, BoolC(true))
			prev, hasPrev = a, BoolC(true)
		default:
			return nil, nil
		}
		n = Add(n, g.Len)
	}
	return in, And(good, Eq(n, sl.Len))
}

func (l *ivList) holds(s *State, want *Term) []claim {
	in, good := l.has(s)
	if in == nil {
		return []claim{{"the intervals", BoolC(false)}}
	}
	return []claim{{"what the set holds", Eq(in, want)}, {"the order of the intervals", good}}
}

// stages of a loop over the intervals
const (
	none   = iota // at the first
	before        // the intervals before were passed
	after         // and the current one
)

// loop is the contract of a loop over the intervals: what holds at each stage,
// and what the loop changes.
func (l *ivList) loop(fn string, havoc func(s *State), inv func(s *State, stage int) []*Term) {
	index := func(f *Frame) (*ssa.Phi, int64) {
		if p := phiNamed(f.Block, "rangeindex"); p != nil {
			return p, -1
		}
		return phiNamed(f.Block, "k"), 0
	}
	at := func(f *Frame) *Term {
		p, d := index(f)
		k, is := f.Env[p].(*Term)
		if p == nil || !is {
			return nil
		}
		return Sub(k, IntC(d))
	}
	l.m.e.Loops["(*"+AntlrPath+".IntervalSet)."+fn+"#0"] = &LoopInv{
		Havoc: func(e *Engine, s *State, f *Frame, x string) {
			p, d := index(f)
			f.Env[p] = Add(l.k, IntC(d))
			if havoc != nil {
				havoc(s)
			}
		},
		Inv: func(e *Engine, s *State, f *Frame) []*Term {
			k := at(f)
			switch {
			case k == nil:
			case k.IsInt() && k.N == 0:
				return inv(s, none)
			case k.Key() == l.k.Key():
				return inv(s, before)
			case k.Key() == Add(l.k, IntC(1)).Key() && l.more > 0:
				return inv(s, after)
			}
			return []*Term{BoolC(false)}
		},
		Variant: func(e *Engine, s *State, f *Frame) *Term {
			n, k := l.n, at(f)
			if k == nil {
				return n
			}
			return Sub(n, k)
		},
	}
}

func (m *lem) intervals() {
	is := "(*" + AntlrPath + ".IntervalSet)."
	x := Sym("x", Int)
	lo, hi := Sym("lo", Int), Sym("hi", Int)
	val := Sym("v", Int)
	K := Sym("k", Int)
	inHead := Sym("x in head", Bool)
	empty := func() (*State, *ivList) {
		st := m.state()
		l := &ivList{m: m, k: IntC(0), x: x, n: IntC(0), old: BoolC(false)}
		l.id = m.obj(st, "IntervalSet", map[string]Val{"intervals": NilV{}})
		return st, l
	}
	lists := func(f func(st *State, l *ivList)) {
		f(empty())
		for more := 0; more <= 2; more++ {
			f(m.ivState(more, K))
		}
	}
	// the current interval
	cur := func(l *ivList) (a, b, in *Term) {
		a, b = Sym("starta", Int), Sym("stopa", Int)
		return a, b, ivIn(x, a, b)
	}
	lists(func(st *State, l *ivList) {
		self := PtrV{Obj: l.id}
		mods := map[int]string{l.id: "intervals", l.a: "Start", l.arr: "*"}
		returns := func(t *Term) func(s *State) []claim {
			return func(s *State) []claim { return []claim{same("the result", s.Result, t)} }
		}
		_, stop, inA := cur(l)
		// contains
		l.loop("contains", nil, func(s *State, stage int) []*Term {
			switch stage {
			case before:
				return []*Term{Not(inHead)}
			case after:
				return []*Term{Not(inHead), Not(inA)}
			}
			return nil
		})
		m.prove(lemma{fn: "IntervalSet.contains", st: st, recv: self, args: []Val{x}, post: returns(l.old)})
		// addInterval
		s := st.Clone()
		s.Assume(Le(IntC(ivMin), lo))
		s.Assume(Lt(lo, hi))
		v := m.obj(s, "Interval", map[string]Val{"Start": lo, "Stop": hi})
		l.loop("addInterval", nil, func(s *State, stage int) []*Term {
			switch stage {
			case before:
				return []*Term{Or(Not(Lt(IntC(0), K)), Lt(l.headStop, lo))}
			case after:
				return []*Term{Or(Not(Lt(IntC(0), K)), Lt(l.headStop, lo)), Lt(stop, lo)}
			}
			return nil
		})
		m.prove(lemma{fn: "IntervalSet.addInterval", st: s, recv: self, args: []Val{PtrV{Obj: v}}, mods: mods, post: func(s *State) []claim {
			return l.holds(s, Or(l.old, ivIn(x, lo, hi)))
		}})
		// removeOne of the least number
		l.loop("removeOne", nil, func(s *State, stage int) []*Term {
			switch stage {
			case before:
				return []*Term{Eq(K, IntC(0))}
			case after:
				return []*Term{BoolC(false)}
			}
			return nil
		})
		m.prove(lemma{fn: "IntervalSet.removeOne", st: st, recv: self, args: []Val{IntC(ivMin)}, mods: mods, post: func(s *State) []claim {
			return l.holds(s, And(l.old, Not(Eq(x, IntC(ivMin)))))
		}})
		// first
		s = st.Clone()
		s.Assume(Eq(l.k, IntC(0)))
		first := IntC(0)
		if l.more > 0 {
			first = Sym("starta", Int)
			c := *s.Heap[l.arr]
			c.V = SegV{c.V.(SegV).Segs[1:]}
			s.Heap[l.arr] = &c
		}
		m.prove(lemma{fn: "IntervalSet.first", st: s, recv: self, post: returns(first)})
	})
	m.setText(lists)
	// addOne and addSet, by the contract of addInterval
	var self PtrV
	m.e.Contracts[is+"addInterval"] = func(c *Call) []Out {
		a, is1 := m.field(c.St, c.Args[1], "Start").(*Term)
		b, is2 := m.field(c.St, c.Args[1], "Stop").(*Term)
		if p, is := c.Args[0].(PtrV); !is || p.Obj != self.Obj || !is1 || !is2 || c.Args[1].(PtrV).Obj <= self.Obj {
			return stuckOut(c, "addInterval of an unknown interval or one that another set has")
		}
		if r := m.e.S.Valid(c.St.PC, And(Le(IntC(ivMin), a), Lt(a, b))); r != "unsat" {
			return stuckOut(c, "addInterval of an empty interval")
		}
		m.put(c.St, "in", Or(m.get(c.St, "in"), ivIn(x, a, b)))
		return ok(c, nil)
	}
	in0 := Sym("x in", Bool)
	target := func(st *State) {
		self = PtrV{Obj: m.obj(st, "IntervalSet", nil)} // objects made later are the function's
		m.put(st, "in", in0)
	}
	holds := func(want *Term) func(s *State) []claim {
		return func(s *State) []claim { return []claim{{"what the set holds", Eq(m.get(s, "in"), want)}} }
	}
	st := m.state()
	target(st)
	st.Assume(Le(IntC(ivMin), val))
	m.prove(lemma{fn: "IntervalSet.addOne", st: st, recv: self, args: []Val{val}, post: holds(Or(in0, Eq(x, val)))})
	lists(func(st *State, l *ivList) {
		target(st)
		_, _, inA := cur(l)
		l.loop("addSet", func(s *State) { m.put(s, "in", Or(in0, inHead)) }, func(s *State, stage int) []*Term {
			in := m.get(s, "in")
			switch stage {
			case before:
				return []*Term{Eq(in, Or(in0, inHead))}
			case after:
				return []*Term{Eq(in, Or(in0, inHead, inA))}
			}
			return []*Term{Eq(in, in0)}
		})
		post := holds(Or(in0, l.old))
		m.prove(lemma{fn: "IntervalSet.addSet", st: st, recv: self, args: []Val{PtrV{Obj: l.id}}, turn: l.more > 0, post: func(s *State) []claim {
			return append(post(s), same("the result", s.Result, self))
		}})
	})
	m.prove(lemma{fn: "NewIntervalSet", st: m.state(), post: func(s *State) []claim {
		return []claim{same("no intervals", m.field(s, s.Result, "intervals"), NilV{})}
	}})
}

// setText: a set that is not empty and whose elements have names has a text.
// Without an element it would be one of no names, which the function indexes.
func (m *lem) setText(lists func(f func(st *State, l *ivList))) {
	m.e.Contracts["strings.Join"] = func(c *Call) []Out { return ok(c, c.St.Fresh("joined", Str)) }
	made := map[string]SliceV{}
	// names makes a list of n strings, in the same array for the same key.
	names := func(s *State, key string, n *Term) Val {
		l := m.list(s, key, "string", n, func(i *Term) Val { return App("conc", Str, i) })
		if old, is := made[key]; is {
			s.Heap[old.Obj] = s.Heap[l.Obj]
			delete(s.Heap, l.Obj)
			return old
		}
		made[key] = l
		return l
	}
	length := func(f *Frame) *Term {
		if l, is := f.Env[phiNamed(f.Block, "names")].(SliceV); is {
			return l.Len
		}
		return nil
	}
	in := "(*" + AntlrPath + ".IntervalSet).toTokenString"
	lists(func(st *State, l *ivList) {
		if l.arr == 0 {
			return
		}
		made = map[string]SliceV{}
		named := Sym("symbolic names", Int)
		a, b := Sym("starta", Int), Sym("stopa", Int)
		st.Assume(Lt(IntC(0), l.n))
		st.Assume(Le(b, named))
		literal := m.list(st, "literal names", "string", Sym("literal names", Int), func(i *Term) Val { return App("conc", Str, i) })
		symbolic := m.list(st, "symbolic names", "string", named, func(i *Term) Val { return App("ttext", Str, i) })
		l.loop("toTokenString", nil, func(s *State, stage int) []*Term { return nil })
		outer := m.e.Loops[in+"#0"]
		index, inv := outer.Havoc, outer.Inv
		outer.Havoc = func(e *Engine, s *State, f *Frame, x string) {
			index(e, s, f, x)
			f.Env[phiNamed(f.Block, "names")] = names(s, x+"names", Sym(x+"count", Int))
		}
		outer.Inv = func(e *Engine, s *State, f *Frame) []*Term {
			n := length(f)
			k, is := f.Env[phiNamed(f.Block, "rangeindex")].(*Term)
			if n == nil || !is {
				return []*Term{BoolC(false)}
			}
			return append(inv(e, s, f), Le(IntC(0), n), Or(Le(Add(k, IntC(1)), IntC(0)), Lt(IntC(0), n)))
		}
		m.e.Loops[in+"#1"] = &LoopInv{
			Havoc: func(e *Engine, s *State, f *Frame, x string) {
				f.Env[phiNamed(f.Block, "j")] = Sym(x+"j", Int)
				f.Env[phiNamed(f.Block, "names")] = names(s, x+"names", Sym(x+"count", Int))
			},
			Inv: func(e *Engine, s *State, f *Frame) []*Term {
				n := length(f)
				j, is := f.Env[phiNamed(f.Block, "j")].(*Term)
				if n == nil || !is {
					return []*Term{BoolC(false)}
				}
				return []*Term{Le(a, j), Le(j, b), Le(Sub(j, a), n)}
			},
			Variant: func(e *Engine, s *State, f *Frame) *Term { return Sub(b, f.Env[phiNamed(f.Block, "j")].(*Term)) },
		}
		m.prove(lemma{fn: "IntervalSet.StringVerbose", st: st, recv: PtrV{Obj: l.id}, args: []Val{literal, symbolic, BoolC(false)}, turn: l.more > 0,
			post: func(s *State) []claim {
				t, is := s.Result.(*Term)
				return []claim{{"a text", BoolC(is && t.Sort == Str)}}
			}})
		delete(m.e.Loops, in+"#0")
		delete(m.e.Loops, in+"#1")
	})
	delete(m.e.Contracts, "strings.Join")
}
