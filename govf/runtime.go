package govf

import (
	"go/types"
	"sort"

	"verif/spec"
)

// Inherit proves that the objects the runtime is given behave as the runtime
// implements them: no method of the runtime that the generated parser, lexer
// and contexts inherit is replaced, where the runtime would call it behind the
// back of the contracts.
func (v *Env) Inherit(r *Report, ps *Parser) {
	one := func(id, desc string, t types.Type, base string, allowed map[string]bool) {
		o := r.Oblige(id, "runtime", desc, allProps...)
		o.Backend = "type checker"
		bt := TypeOf(v.P.Antlr, base)
		if t == nil || bt == nil {
			r.Fail(o, true, "no type to look at")
			return
		}
		if _, isP := t.Underlying().(*types.Pointer); !isP {
			t = types.NewPointer(t)
		}
		bs, ts := types.NewMethodSet(types.NewPointer(bt)), types.NewMethodSet(t)
		for i := 0; i < bs.Len(); i++ {
			m := bs.At(i).Obj()
			if allowed[m.Name()] {
				continue
			}
			switch s := ts.Lookup(m.Pkg(), m.Name()); {
			case s == nil:
				r.Fail(o, true, "%s does not inherit %s.%s", shortType(t), base, m.Name())
			case s.Obj() != m:
				r.Fail(o, true, "%s of %s is replaced at %s", m.Name(), base, v.P.Pos(s.Obj().Pos()))
			}
		}
	}
	one("runtime/inherit/parser", "the parser inherits the runtime's methods unchanged", TypeOf(v.P.Parser, "RFC5322Parser"), "BaseParser", nil)
	one("runtime/inherit/lexer", "the lexer inherits the runtime's methods unchanged", TypeOf(v.P.Parser, "RFC5322Lexer"), "BaseLexer", nil)
	names := append([]string{}, spec.TheGrammar.Order...)
	sort.Strings(names)
	for _, n := range names {
		var t types.Type
		if rl := ps.Rules[n]; rl != nil {
			t = rl.CtxType
		}
		one("runtime/inherit/"+n, "the node of "+n+" inherits the runtime's methods unchanged, but for those that the generator writes", t, "BaseParserRuleContext",
			map[string]bool{"EnterRule": true, "ExitRule": true, "GetRuleContext": true, "ToStringTree": true})
	}
}
