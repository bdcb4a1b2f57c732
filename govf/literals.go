package govf

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// familiar are the literals of the code that the systematic inputs know anyway.
var familiar = strings.Fields("jan feb mar apr may jun jul aug sep oct nov dec est edt cst cdt mst mdt pst pdt gmt ut utc 00 01 1 3 4 5 6 7 8 9 10 11 12 13 48 49 50 51 1899 1900 1901 1999 2000 2001 + - . @ : \\ RFC5322Lexer.g4 RFC5322Parser.g4")

// Literals lists strings and numbers that the code compares its input with, or
// might: texts that a search for an input should try.
func (p *Program) Literals() []string {
	skip := map[string]bool{" ": true, "\r\n": true, "bad timezone": true, "no such month": true}
	for _, s := range familiar {
		skip[s] = true
	}
	seen := map[string]bool{}
	add := func(s string) {
		if s != "" && len(s) <= 60 && utf8.ValidString(s) && !skip[strings.ToLower(s)] && !strings.ContainsRune(s, '%') {
			seen[s] = true
		}
	}
	for fn := range ssautil.AllFunctions(p.Prog) {
		k := fn.Pkg
		if k == nil && fn.Parent() != nil {
			k = fn.Parent().Pkg
		}
		n := fn.String()
		if fn.Synthetic != "" && fn.Name() != "init" || k != p.Pkg && k != p.Parser || k == p.Parser && (fn.Name() == "init" || strings.HasSuffix(n, "ParserInit") || strings.HasSuffix(n, "LexerInit")) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, isPanic := ins.(*ssa.Panic); isPanic {
					continue
				}
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					bt, _ := c.Type().Underlying().(*types.Basic)
					switch {
					case c.Value.Kind() == constant.String:
						add(constant.StringVal(c.Value))
					case bt != nil && c.Value.Kind() == constant.Int && bt.Info()&types.IsInteger != 0:
						i, exact := constant.Int64Val(c.Value)
						if !exact || i <= 2 {
							continue
						}
						if bt.Kind() == types.Int32 || bt.Kind() == types.Uint8 || bt.Kind() == types.UntypedRune {
							if i <= utf8.MaxRune && utf8.ValidRune(rune(i)) && i >= 0x7f {
								add(string(rune(i)))
							}
						} else if k == p.Pkg {
							for _, x := range []int64{i - 1, i, i + 1} {
								add(strconv.FormatInt(x, 10))
							}
						}
					}
				}
			}
		}
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return len(out[i]) < len(out[j]) || len(out[i]) == len(out[j]) && out[i] < out[j] })
	if len(out) > 80 {
		out = out[:80]
	}
	return out
}
