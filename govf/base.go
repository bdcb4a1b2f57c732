package govf

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ok is the single-outcome result of a contract.
func ok(c *Call, v Val) []Out { return []Out{{St: c.St, Ret: v}} }

func stuckOut(c *Call, f string, a ...any) []Out {
	return []Out{{St: c.St, Stuck: fmt.Sprintf(f, a...)}}
}

// errVal is a non-nil error.
func errVal(st *State, id string) Val {
	return IfaceV{T: types.Universe.Lookup("error").Type(), V: GhostV{Kind: "nnerror", ID: id}}
}

func strArg(v Val) (*Term, bool) {
	t, ok := v.(*Term)
	return t, ok && t.Sort == Str
}

// variadic lists the elements of a variadic argument.
func variadic(c *Call, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case NilV:
		return nil, true
	case SliceV:
		return c.E.sliceConst(c.St, s)
	}
	return nil, false
}

// AddLibrary installs the contracts of the standard library functions.
func (e *Engine) AddLibrary() {
	k := e.Contracts
	k["errors.New"] = func(c *Call) []Out {
		return ok(c, errVal(c.St, "errors.New("+c.Args[0].vkey()+")"))
	}
	k["fmt.Errorf"] = func(c *Call) []Out {
		return ok(c, errVal(c.St, "fmt.Errorf("+c.Args[0].vkey()+")"))
	}
	k["fmt.Sprintf"] = func(c *Call) []Out {
		f, isS := strArg(c.Args[0])
		as, isV := variadic(c, c.Args[1])
		if isS && isV && f.IsStr() {
			if t, good := sprintf(f.S, as); good {
				return ok(c, t)
			}
		}
		return stuckOut(c, "fmt.Sprintf(%s) is not modelled", vkeys(c.Args))
	}
	k["fmt.Sprint"] = func(c *Call) []Out {
		as, isV := variadic(c, c.Args[0])
		if isV && len(as) == 1 {
			if t, good := sprintf("%v", as); good {
				return ok(c, t)
			}
		}
		return stuckOut(c, "fmt.Sprint is not modelled")
	}
	k["strings.Join"] = func(c *Call) []Out {
		sep, isS := strArg(c.Args[1])
		if !isS {
			return stuckOut(c, "strings.Join")
		}
		switch s := c.Args[0].(type) {
		case NilV:
			return ok(c, StrC(""))
		case SliceV:
			if vs, good := c.E.sliceConst(c.St, s); good {
				var ts []*Term
				for i, v := range vs {
					t, isT := strArg(v)
					if !isT {
						return stuckOut(c, "strings.Join")
					}
					if i > 0 {
						ts = append(ts, sep)
					}
					ts = append(ts, t)
				}
				return ok(c, Cat(Str, ts...))
			}
			segs, good := c.E.region(c.St, s)
			if !good {
				return stuckOut(c, "strings.Join of an unknown region")
			}
			seq, msg := c.E.seqStr(segs)
			if msg != "" {
				return stuckOut(c, "strings.Join: %s", msg)
			}
			return ok(c, App("join", Str, seq, sep))
		}
		return stuckOut(c, "strings.Join")
	}
	k["strings.ReplaceAll"] = func(c *Call) []Out {
		a, b, d := c.Args[0].(*Term), c.Args[1].(*Term), c.Args[2].(*Term)
		if v, good := c.E.native(c.St, "strings.ReplaceAll", c.Args); good {
			return ok(c, v)
		}
		if !b.IsStr() || b.S == "" {
			return stuckOut(c, "strings.ReplaceAll of a symbolic or empty pattern")
		}
		return ok(c, App("str.replace_all", Str, a, b, d))
	}
	k["strings.Replace"] = func(c *Call) []Out {
		if v, good := c.E.native(c.St, "strings.Replace", c.Args); good {
			return ok(c, v)
		}
		b, n := c.Args[1].(*Term), c.Args[3].(*Term)
		if !b.IsStr() || b.S == "" || !n.IsInt() || n.N >= 0 {
			return stuckOut(c, "strings.Replace is not modelled")
		}
		return ok(c, App("str.replace_all", Str, c.Args[0].(*Term), b, c.Args[2].(*Term)))
	}
	symStr := func(name string, f func(a, b *Term) Val) {
		k[name] = func(c *Call) []Out {
			if v, good := c.E.native(c.St, name, c.Args); good {
				return ok(c, v)
			}
			if v := f(c.Args[0].(*Term), c.Args[1].(*Term)); v != nil {
				return ok(c, v)
			}
			return stuckOut(c, "%s is not modelled", name)
		}
	}
	symStr("strings.HasPrefix", func(a, b *Term) Val { return App("str.prefixof", Bool, b, a) })
	symStr("strings.HasSuffix", func(a, b *Term) Val { return App("str.suffixof", Bool, b, a) })
	symStr("strings.Contains", func(a, b *Term) Val { return App("str.contains", Bool, a, b) })
	symStr("strings.TrimPrefix", func(a, b *Term) Val {
		return Ite(App("str.prefixof", Bool, b, a), App("str.substr", Str, a, Len(b), Sub(Len(a), Len(b))), a)
	})
	symStr("strings.TrimSuffix", func(a, b *Term) Val {
		return Ite(App("str.suffixof", Bool, b, a), App("str.substr", Str, a, IntC(0), Sub(Len(a), Len(b))), a)
	})
	e.addStrings()
	k["strings.ToLower"] = func(c *Call) []Out {
		if v, good := c.E.native(c.St, "strings.ToLower", c.Args); good {
			return ok(c, v)
		}
		return ok(c, App("bytelower", Str, c.Args[0].(*Term)))
	}
	k["(*mime.WordDecoder).Decode"] = func(c *Call) []Out {
		p, isP := c.Args[0].(PtrV)
		text, isS := strArg(c.Args[1])
		if !isP || !isS {
			return stuckOut(c, "WordDecoder.Decode")
		}
		v, msg := c.E.Load(c.St, PtrV{p.Obj, append(append([]PathEl{}, p.Path...), PathEl{Field: 0})})
		if msg != "" {
			return stuckOut(c, "WordDecoder.Decode: %s", msg)
		}
		var fn *Term
		switch f := v.(type) {
		case NilV:
			fn = Sym0("fnnil", Fn)
		case *Term:
			fn = f
		default:
			fn = Sym("fn "+v.vkey(), Fn)
		}
		good, bad := c.St, c.St.Clone()
		good.Assume(App("decodable", Bool, fn, text))
		bad.Assume(Not(App("decodable", Bool, fn, text)))
		return []Out{
			{St: good, Ret: TupleV{[]Val{App("decoded", Str, fn, text), NilV{}}}},
			{St: bad, Ret: TupleV{[]Val{bad.Fresh("undecoded", Str), errVal(bad, "decode")}}},
		}
	}
	k["time.FixedZone"] = func(c *Call) []Out {
		n, ok1 := c.Args[0].(*Term)
		o, ok2 := c.Args[1].(*Term)
		if !ok1 || !ok2 {
			return stuckOut(c, "time.FixedZone")
		}
		return ok(c, App("fixedzone", Loc, n, o))
	}
	k["time.Date"] = func(c *Call) []Out {
		var ts []*Term
		for _, a := range c.Args {
			if _, isNil := a.(NilV); isNil {
				return []Out{{St: c.St, Panic: &PanicInfo{V: IfaceV{types.Typ[types.String], StrC("time: missing Location in call to Date")}, Desc: "time.Date with a nil location at " + c.E.where(c.St)}}}
			}
			t, isT := a.(*Term)
			if !isT {
				return stuckOut(c, "time.Date of %v", a.vkey())
			}
			ts = append(ts, t)
		}
		return ok(c, App("date", Date, ts...))
	}
	// the environment: any answer is possible
	env := func(name string, sort Sort, lo, hi int64) {
		k[name] = func(c *Call) []Out {
			t := c.St.Fresh("env."+name, sort)
			if lo < hi {
				c.St.Assume(Le(IntC(lo), t))
				c.St.Assume(Le(t, IntC(hi)))
			}
			return ok(c, t)
		}
	}
	env("time.Now", Date, 0, 0)
	env("os.Getenv", Str, 0, 0)
	env("time.Since", Int, 0, 1<<60)
	env("time.Until", Int, -1<<60, 1<<60)
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		env(p+".Int", Int, 0, 1<<62)
		env(p+".Int63", Int, 0, 1<<62)
		env(p+".Int64", Int, 0, 1<<62)
		for _, n := range []string{"Intn", "IntN", "Int63n", "Int64N"} {
			k[p+"."+n] = func(c *Call) []Out {
				m, isT := c.Args[0].(*Term)
				if !isT || !m.IsInt() || m.N <= 0 {
					return stuckOut(c, "rand")
				}
				t := c.St.Fresh("env.rand", Int)
				c.St.Assume(Le(IntC(0), t))
				c.St.Assume(Lt(t, m))
				return ok(c, t)
			}
		}
	}
	// parts of a time: exact for the clock, which can show anything, and
	// unknown functions of any other
	for n, r := range map[string][2]int64{"Year": {1970, 2261}, "Month": {1, 12}, "Day": {1, 31}, "Hour": {0, 23}, "Minute": {0, 59}, "Second": {0, 59}, "Nanosecond": {0, 999999999}, "YearDay": {1, 366}, "Weekday": {0, 6}, "Unix": {0, 1 << 33}} {
		k["(time.Time)."+n] = func(c *Call) []Out {
			t, isT := c.Args[0].(*Term)
			if !isT || t.Sort != Date {
				return stuckOut(c, "time.%s", n)
			}
			if t.Op == "sym" && strings.HasPrefix(t.S, "env.time.Now") {
				x := App("|now."+n+"|", Int, t)
				c.St.Assume(Le(IntC(r[0]), x))
				c.St.Assume(Le(x, IntC(r[1])))
				return ok(c, x)
			}
			return ok(c, App("|fn.time."+n+"|", Int, t))
		}
	}
	for _, n := range []string{"UTC", "Local"} {
		k["(time.Time)."+n] = func(c *Call) []Out {
			t, isT := c.Args[0].(*Term)
			if !isT || t.Sort != Date {
				return stuckOut(c, "time.%s", n)
			}
			return ok(c, App("|fn.time."+n+"|", Date, t))
		}
	}
	// strings.Builder
	bt := func(c *Call) (PtrV, *Term, bool) {
		p, isP := c.Args[0].(PtrV)
		if !isP {
			return p, nil, false
		}
		v, msg := c.E.Load(c.St, p)
		b, isB := v.(BuilderC)
		return p, b.T, msg == "" && isB
	}
	wr := func(f func(c *Call) (*Term, Val)) Contract {
		return func(c *Call) []Out {
			p, t, good := bt(c)
			if !good {
				return stuckOut(c, "strings.Builder")
			}
			add, ret := f(c)
			if add == nil {
				return stuckOut(c, "strings.Builder write of a symbolic character")
			}
			if msg := c.E.Store(c.St, p, BuilderC{Cat(Str, t, add)}); msg != "" {
				return stuckOut(c, "%s", msg)
			}
			return ok(c, ret)
		}
	}
	k["(*strings.Builder).WriteString"] = wr(func(c *Call) (*Term, Val) {
		t := c.Args[1].(*Term)
		return t, TupleV{[]Val{Len(t), NilV{}}}
	})
	k["(*strings.Builder).WriteByte"] = wr(func(c *Call) (*Term, Val) {
		if t := c.Args[1].(*Term); t.IsInt() {
			return StrC(string([]byte{byte(t.N)})), NilV{}
		}
		return nil, nil
	})
	k["(*strings.Builder).WriteRune"] = wr(func(c *Call) (*Term, Val) {
		if t := c.Args[1].(*Term); t.IsInt() {
			s := string(rune(t.N))
			return StrC(s), TupleV{[]Val{IntC(int64(len(s))), NilV{}}}
		}
		return nil, nil
	})
	k["(*strings.Builder).Grow"] = wr(func(c *Call) (*Term, Val) { return StrC(""), nil })
	k["(*strings.Builder).String"] = func(c *Call) []Out {
		if _, t, good := bt(c); good {
			return ok(c, t)
		}
		return stuckOut(c, "strings.Builder")
	}
	k["(*strings.Builder).Len"] = func(c *Call) []Out {
		if _, t, good := bt(c); good {
			return ok(c, Len(t))
		}
		return stuckOut(c, "strings.Builder")
	}
	k["(*strings.Builder).Reset"] = func(c *Call) []Out {
		if p, _, good := bt(c); good {
			c.E.Store(c.St, p, BuilderC{StrC("")})
			return ok(c, nil)
		}
		return stuckOut(c, "strings.Builder")
	}
}

// seqStr is the sequence term of a run of string cells.
func (e *Engine) seqStr(segs []Seg) (*Term, string) {
	var ts []*Term
	for _, s := range segs {
		switch s.Kind {
		case "cell":
			t, ok := s.V.(*Term)
			if !ok || t.Sort != Str {
				return nil, "not a string"
			}
			ts = append(ts, Unit(SeqStr, t))
		case "opaque":
			ts = append(ts, s.Seq)
		default:
			return nil, "unknown content"
		}
	}
	return Cat(SeqStr, ts...), ""
}

// StaticData is what the generated code hands to the runtime.
type StaticData struct {
	ATN      *ATN
	Rules    []string
	DFAs     int
	DFAOrder bool
	AtnVal   Val
	Err      string
}

// runtimeInit adds the contracts of the deserialiser.
func (e *Engine) runtimeInit(got *[][]int64) {
	k := e.Contracts
	a := "(*" + AntlrPath + "."
	k[AntlrPath+".NewATNDeserializer"] = func(c *Call) []Out {
		return ok(c, GhostV{Kind: "nndeserializer", ID: "d"})
	}
	k[a+"ATNDeserializer).Deserialize"] = func(c *Call) []Out {
		s, isS := c.Args[1].(SliceV)
		if !isS {
			return stuckOut(c, "Deserialize of %v", c.Args[1].vkey())
		}
		vs, good := c.E.sliceConst(c.St, s)
		if !good {
			return stuckOut(c, "Deserialize of symbolic data")
		}
		var d []int64
		for _, v := range vs {
			t, isT := v.(*Term)
			if !isT || !t.IsInt() {
				return stuckOut(c, "Deserialize of symbolic data")
			}
			d = append(d, t.N)
		}
		*got = append(*got, d)
		id := len(*got) - 1
		atn, err := ParseATN(d)
		if err != nil {
			return stuckOut(c, "%v", err)
		}
		// the ATN object: its decision states are visible, the rest is not
		t := TypeOf(c.E.P.Antlr, "ATN")
		stt := t.Underlying().(*types.Struct)
		sv := StructV{}
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "DecisionToState" {
				sg := SegV{}
				for j := range atn.Decisions {
					sg.Segs = append(sg.Segs, Seg{Kind: "cell", V: IfaceV{T: stt.Field(i).Type().(*types.Slice).Elem(), V: GhostV{Kind: "nndecision", ID: fmt.Sprintf("%d.%d", id, j)}}, Len: IntC(1)})
				}
				n := IntC(int64(len(sg.Segs)))
				sv.F = append(sv.F, SliceV{c.St.New(stt.Field(i).Type(), sg, ""), IntC(0), n, n})
			} else {
				sv.F = append(sv.F, GhostV{Kind: "atnfield", ID: fmt.Sprintf("%d.%s", id, stt.Field(i).Name())})
			}
		}
		return ok(c, PtrV{Obj: c.St.New(t, sv, fmt.Sprintf("atn %d", id))})
	}
	k[AntlrPath+".NewDFA"] = func(c *Call) []Out {
		return ok(c, GhostV{Kind: "nndfa", ID: dfaID(c.Args[0], c.Args[1])})
	}
	k[AntlrPath+".NewPredictionContextCache"] = func(c *Call) []Out {
		return ok(c, GhostV{Kind: "nncache", ID: fmt.Sprint(c.St.NextID)})
	}
	// once.Do: the first call runs the initialiser, whose writes are the
	// initialisation of the package and no effect of the caller.
	k["(*sync.Once).Do"] = func(c *Call) []Out {
		f, isF := c.Args[1].(FuncV)
		if !isF {
			return stuckOut(c, "once.Do")
		}
		if v, msg := c.E.Load(c.St, c.Args[0].(PtrV)); msg == "" {
			if g, isG := v.(GhostV); isG && g.Kind == "oncedone" {
				return ok(c, nil)
			}
		}
		before := len(c.St.Impure)
		old := map[int]*Cell{}
		for id, x := range c.St.Heap {
			old[id] = x
		}
		ptr := c.Args[0].(PtrV)
		return []Out{{St: c.St, Invoke: f.F, InvB: f.Bind, Then: func(st *State, _ Val) []Out {
			var rest []string
			for i, s := range st.Impure {
				if i < before || !strings.HasPrefix(s, "write to package variable") {
					rest = append(rest, s)
				}
			}
			st.Impure = rest
			st.publish(old)
			cell := st.Heap[ptr.Obj]
			nv, msg := c.E.writePath(cell.V, ptr.Path, GhostV{Kind: "oncedone", ID: "1"})
			if msg != "" {
				return []Out{{St: st, Stuck: msg}}
			}
			st.Heap[ptr.Obj] = &Cell{T: cell.T, V: nv, Owner: cell.Owner}
			return []Out{{St: st}}
		}}}
	}
}

// strSlice reads a []string of constants.
func (e *Engine) strSlice(st *State, v Val) []string {
	s, ok := v.(SliceV)
	if !ok {
		return nil
	}
	vs, ok := e.sliceConst(st, s)
	if !ok {
		return nil
	}
	var out []string
	for _, x := range vs {
		t, ok := x.(*Term)
		if !ok {
			return nil
		}
		out = append(out, t.S)
	}
	return out
}

// fieldPath finds a field by name through embedding by value.
func fieldIndex(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// getField loads a field of the object p points to.
func (e *Engine) getField(st *State, p Val, t types.Type, name string) (Val, types.Type) {
	q, ok := p.(PtrV)
	if !ok {
		return nil, nil
	}
	i := fieldIndex(t, name)
	if i < 0 {
		return nil, nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	v, msg := e.Load(st, PtrV{q.Obj, append(append([]PathEl{}, q.Path...), PathEl{Field: i})})
	if msg != "" {
		return nil, nil
	}
	return v, ft
}

var _ = ssa.BuilderMode(0)

// dfaID names a prediction cache: its decision if state and number agree.
func dfaID(state, num Val) string {
	n, ok := num.(*Term)
	iv, ok2 := state.(IfaceV)
	if ok && ok2 && n.IsInt() {
		if g, ok := iv.V.(GhostV); ok && strings.HasSuffix(g.ID, fmt.Sprintf(".%d", n.N)) && g.Kind == "nndecision" {
			return fmt.Sprint(n.N)
		}
	}
	return state.vkey() + "@" + num.vkey()
}

// publish makes what package data leads to package data, after an initialiser
// ran from a state with heap old, and checks that it says nothing about the
// call that happened to be the first.
func (st *State) publish(old map[int]*Cell) {
	seen := map[int]bool{}
	for _, id := range st.Globals {
		st.reach(PtrV{Obj: id}, seen)
	}
	for id := range seen {
		c := st.Heap[id]
		if old[id] == c {
			continue
		}
		walkVal(c.V, func(int) {}, func(t *Term) {
			syms := map[string]*Term{}
			t.Syms(syms)
			for _, n := range sortedKeys(syms) {
				if n != "utc" {
					st.Impure = append(st.Impure, "package data initialised at the first call depends on that call ("+n+")")
				}
			}
		})
		if c.Owner == "fn" {
			st.Heap[id] = &Cell{T: c.T, V: c.V, Owner: "global (initialised data)"}
		}
	}
}
