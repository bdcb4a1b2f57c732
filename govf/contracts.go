package govf

import "strings"

// A contract of the runtime that one layer assumes and another proves: the
// obligation that proves it.
var provedBy = []struct{ prefix, obl string }{
	{"BaseParser).GetErrorHandler", "runtime/data/Listeners"},
	{"BaseParser).GetInterpreter", "runtime/data/Listeners"},
	{"BaseParser).GetParserRuleContext", "runtime/data/Listeners"},
	{"BaseParser).GetTokenStream", "runtime/data/Listeners"},
	{"BaseRecognizer).GetState", "runtime/data/Listeners"},
	{"BaseRecognizer).SetState", "runtime/data/Listeners"},
	{"nnhandler.", "runtime/DefaultErrorStrategy."},
	{"nntokens.", "runtime/data/TokenStream"},
	{"nnstream.", "runtime/data/TokenStream"},
	{"nnchars.", "runtime/data/InputStream"},
	{"nnlexer.", "runtime/data/Lexer"},
	{"nnlexsim.", "runtime/simulator"},
	{"nnnode.", "runtime/data/Node"},
	{"nnsource.GetTokenFactory", "runtime/data/Lexer"},
	{"nnfactory.Create", "runtime/data/Lexer"},
	{"BaseParserRuleContext).GetTokens", "runtime/data/Node"},
	{"BaseParserRuleContext).GetToken", "runtime/data/Node"},
	{"nntree.", "runtime/data/Node"},
	{"nntok.", "runtime/data/Token"},
	{"nntoken.", "runtime/data/Token"},
	{"nnleaf.", "runtime/data/Token"},
	{"nnltok.", "runtime/data/Token"},
	{"ATN).NextTokens", "runtime/network/next"},
	{"ATNDeserializer).Deserialize", "runtime/network/parser"},
	{"NewATNDeserializer", "runtime/network/parser"},
	{"nnatn.", "runtime/network/parser"},
	{"nntrans.", "runtime/network/parser"},
	{"ParseTreeWalker).Walk", "runtime/data/Walker"},
	{"ParserRuleContext).GetText", "runtime/data/Node"},
	{"IntervalSet).addOne", "runtime/data/IntervalSet"},
	{"IntervalSet).addSet", "runtime/data/IntervalSet"},
	{"IntervalSet).addInterval", "runtime/data/IntervalSet"},
	{"IntervalSet).contains", "runtime/data/IntervalSet"},
	{"IntervalSet).first", "runtime/data/IntervalSet"},
	{"IntervalSet).StringVerbose", "runtime/data/IntervalSet"},
	{"IntervalSet).removeOne", "runtime/data/IntervalSet"},
	{"antlr.NewIntervalSet", "runtime/data/IntervalSet"},
	{"antlr.NewInputStream", "runtime/data/InputStream"},
}

// ProvedBy is the obligation that proves a contract, if there is one and it is
// discharged.
func (r *Report) ProvedBy(contract string) string {
	ok := func(id string) string {
		if o := r.Obls[id]; o != nil && o.OK {
			return id
		}
		return ""
	}
	const an = "(*github.com/antlr/antlr4/runtime/Go/antlr."
	if f, is := strings.CutPrefix(contract, an); is {
		if id := ok("runtime/" + strings.Replace(f, ").", ".", 1)); id != "" {
			return id
		}
	}
	if f, is := strings.CutPrefix(contract, "github.com/antlr/antlr4/runtime/Go/antlr."); is {
		if id := ok("runtime/" + f); id != "" {
			return id
		}
	}
	for _, p := range provedBy {
		_, f, is := strings.Cut(contract, p.prefix)
		if !is || f != "" && !strings.HasSuffix(p.prefix, ".") {
			continue
		}
		if strings.HasSuffix(p.obl, ".") {
			return ok(p.obl + f)
		}
		return ok(p.obl)
	}
	return ""
}
