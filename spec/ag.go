package spec

import (
	_ "embed"
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

//go:embed semantics.ag
var semanticsText string

// X is a contract expression.
type X struct {
	Op   string // lit-string lit-int lit-bool attr child call if ++ == != < >= + - && || ! list
	S    string
	N    int
	B    bool
	Args []*X
}

func (x *X) String() string {
	switch x.Op {
	case "lit-string":
		return strconv.Quote(x.S)
	case "lit-int":
		return strconv.Itoa(x.N)
	case "lit-bool":
		return strconv.FormatBool(x.B)
	case "attr":
		return x.S
	case "child":
		return "$." + x.S
	case "if":
		return fmt.Sprintf("if %v then %v else %v", x.Args[0], x.Args[1], x.Args[2])
	case "call":
		if len(x.Args) == 0 {
			return x.S
		}
		var a []string
		for _, y := range x.Args {
			a = append(a, y.String())
		}
		return x.S + "(" + strings.Join(a, ", ") + ")"
	case "list":
		if len(x.Args) == 0 {
			return "[]"
		}
		return "[" + x.Args[0].String() + "]"
	}
	return fmt.Sprintf("(%v %s %v)", x.Args[0], x.Op, x.Args[1])
}

// Attr is a ghost attribute.
type Attr struct {
	Name, Type string
	Init       *X
}

// Assign is one assignment of an effect.
type Assign struct {
	Attr string
	E    *X
}

// Node is the contract of a node kind.
type Node struct {
	Name   string
	Attrs  []*Attr
	On     map[string][]Assign
	OnList []string
	Result *X
}

// AttrType returns the type of an attribute.
func (n *Node) AttrType(a string) string {
	for _, x := range n.Attrs {
		if x.Name == a {
			return x.Type
		}
	}
	panic("no attribute " + n.Name + "." + a)
}

// AG is the set of node contracts.
type AG struct {
	Nodes map[string]*Node
	Order []string
}

// TheAG is the specification semantics.
var TheAG = ParseAG(semanticsText)

// ParseAG parses the contract notation.
func ParseAG(text string) *AG {
	ag := &AG{Nodes: map[string]*Node{}}
	var cur *Node
	for ln, line := range strings.Split(text, "\n") {
		if strings.HasPrefix(strings.TrimSpace(line), "#") || strings.TrimSpace(line) == "" {
			continue
		}
		p := &xparser{toks: xtokens(line), line: ln + 1}
		switch w := p.next(); w {
		case "node":
			cur = &Node{Name: p.next(), On: map[string][]Assign{}}
			ag.Nodes[cur.Name] = cur
			ag.Order = append(ag.Order, cur.Name)
		case "attr":
			a := &Attr{Name: p.next(), Type: p.next()}
			p.want("=")
			a.Init = p.expr(0)
			cur.Attrs = append(cur.Attrs, a)
		case "on":
			ch := p.next()
			p.want(":")
			for {
				n := p.next()
				p.want("=")
				cur.On[ch] = append(cur.On[ch], Assign{n, p.expr(0)})
				if p.peek() != ";" {
					break
				}
				p.next()
			}
			cur.OnList = append(cur.OnList, ch)
		case "result":
			cur.Result = p.expr(0)
		default:
			panic(fmt.Sprintf("semantics.ag:%d: %q", ln+1, w))
		}
		if p.peek() != "" {
			panic(fmt.Sprintf("semantics.ag:%d: trailing %q", ln+1, p.peek()))
		}
	}
	return ag
}

type xparser struct {
	toks []string
	i    int
	line int
}

func (p *xparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *xparser) next() string { t := p.peek(); p.i++; return t }
func (p *xparser) want(s string) {
	if t := p.next(); t != s {
		panic(fmt.Sprintf("semantics.ag:%d: want %q got %q", p.line, s, t))
	}
}

func xtokens(s string) []string {
	var out []string
	r := []rune(s)
	for i := 0; i < len(r); {
		c := r[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '"':
			j := i + 1
			for r[j] != '"' {
				j++
			}
			out = append(out, string(r[i:j+1]))
			i = j + 1
		case unicode.IsLetter(c):
			j := i
			for j < len(r) && (unicode.IsLetter(r[j]) || unicode.IsDigit(r[j])) {
				j++
			}
			out = append(out, string(r[i:j]))
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(r) && unicode.IsDigit(r[j]) {
				j++
			}
			out = append(out, string(r[i:j]))
			i = j
		default:
			if i+1 < len(r) {
				two := string(r[i : i+2])
				switch two {
				case "++", "==", "!=", ">=", "&&", "||", "$.":
					out = append(out, two)
					i += 2
					continue
				}
			}
			out = append(out, string(c))
			i++
		}
	}
	return out
}

var prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">=": 3, "++": 4, "+": 5, "-": 5}

func (p *xparser) expr(min int) *X {
	var l *X
	if p.peek() == "if" {
		p.next()
		c := p.expr(0)
		p.want("then")
		a := p.expr(0)
		p.want("else")
		b := p.expr(0)
		return &X{Op: "if", Args: []*X{c, a, b}}
	}
	l = p.prim()
	for {
		op := p.peek()
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		p.next()
		r := p.expr(pr + 1)
		l = &X{Op: op, Args: []*X{l, r}}
	}
}

func (p *xparser) prim() *X {
	t := p.next()
	switch {
	case t == "(":
		e := p.expr(0)
		p.want(")")
		return e
	case t == "[":
		x := &X{Op: "list"}
		if p.peek() != "]" {
			x.Args = append(x.Args, p.expr(0))
		}
		p.want("]")
		return x
	case t == "$.":
		return &X{Op: "child", S: p.next()}
	case t == "true" || t == "false":
		return &X{Op: "lit-bool", B: t == "true"}
	case t != "" && t[0] == '"':
		return &X{Op: "lit-string", S: t[1 : len(t)-1]}
	case t != "" && unicode.IsDigit(rune(t[0])):
		n, _ := strconv.Atoi(t)
		return &X{Op: "lit-int", N: n}
	case t == "text" || t == "digits" || t == "utc":
		return &X{Op: "call", S: t}
	case t != "" && unicode.IsLetter(rune(t[0])):
		if p.peek() == "(" {
			p.next()
			x := &X{Op: "call", S: t}
			for p.peek() != ")" {
				x.Args = append(x.Args, p.expr(0))
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			return x
		}
		return &X{Op: "attr", S: t}
	}
	panic(fmt.Sprintf("semantics.ag:%d: unexpected %q", p.line, t))
}

// Months and Zones are the tables of RFC 5322 3.3 and 4.3.
var Months = []string{"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"}

// Zones maps a (lower-case) zone name to its offset in seconds.
var Zones = map[string]int{
	"ut": 0, "utc": 0, "gmt": 0,
	"est": -5 * 3600, "edt": -4 * 3600,
	"cst": -6 * 3600, "cdt": -5 * 3600,
	"mst": -7 * 3600, "mdt": -6 * 3600,
	"pst": -8 * 3600, "pdt": -7 * 3600,
}
