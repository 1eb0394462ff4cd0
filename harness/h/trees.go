package h

import (
	goparser "go/parser"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
)

// Rule trees and their texts, written here independently of the printer.

// exprText remembers the source text of a Go expression node.
type exprText struct {
	e   *ast.Expr
	src string
}

var exprTexts []exprText

// goExpr is a Go expression node with known source text.
func goExpr(src string) *ast.Expr {
	x, err := goparser.ParseExpr(src)
	if err != nil {
		panic("harness: " + src + ": " + err.Error())
	}
	e := &ast.Expr{Expr: x}
	exprTexts = append(exprTexts, exprText{e, src})
	return e
}

func srcOf(e *ast.Expr) string {
	for _, t := range exprTexts {
		if t.e == e {
			return t.src
		}
	}
	panic("harness: expression without text")
}

// layout gives the text at a place where layout may stand; must: at least one blank is needed there;
// cond: the place is right before or after a condition.
type layout func(must bool) string

// plain is a single blank where one is needed and nothing elsewhere.
func plain(must bool) string {
	if must {
		return " "
	}
	return ""
}

func renderFile(f *ast.File, lay layout) string {
	s := lay(false)
	for i, r := range f.Rules {
		if i > 0 {
			s += lay(true)
		}
		s += renderRule(r, lay)
	}
	return s + lay(false)
}

func renderRule(r *ast.Rule, lay layout) string {
	s := renderValue(r.Match, lay)
	if r.Condition != nil {
		s += lay(true) + "&&" + lay(true) + srcOf(r.Condition) + lay(true)
	} else {
		s += lay(false)
	}
	s += "=>" + lay(false)
	if r.Block != "" {
		s += "@" + r.Block + lay(true)
	}
	return s + renderValue(r.Result, lay)
}

func renderValue(v ast.Value, lay layout) string {
	switch v := v.(type) {
	case ast.Variable:
		return string(v)
	case *ast.Expr:
		return srcOf(v)
	case *ast.SExpr:
		return renderSExpr(v, lay, operandOrder{})
	}
	panic("harness: no text for value")
}

// operandOrder places type, auxint and aux among the arguments: each number is how many arguments come first.
// The zero value is the customary order.  swap reverses the order of those standing at the same place.
type operandOrder struct {
	typ, auxint, aux int
	swap             bool
}

func renderSExpr(s *ast.SExpr, lay layout, ord operandOrder) string {
	t := ""
	if s.Binding != "" {
		t += string(s.Binding) + ":"
	}
	t += "(" + lay(false) + renderOp(s.Op)
	for i := 0; i <= len(s.Args); i++ {
		var here []string
		if s.Type != "" && ord.typ == i {
			here = append(here, "<"+string(s.Type)+">")
		}
		if s.AuxInt != nil && ord.auxint == i {
			here = append(here, "["+srcOf(s.AuxInt)+"]")
		}
		if s.Aux != nil && ord.aux == i {
			here = append(here, "{"+srcOf(s.Aux)+"}")
		}
		for k := range here {
			if ord.swap {
				k = len(here) - 1 - k
			}
			t += lay(true) + here[k]
		}
		if i < len(s.Args) {
			t += lay(true) + renderValue(s.Args[i], lay)
		}
	}
	if s.Ellipsis {
		t += lay(true) + "..."
	}
	if s.Trailing {
		t += lay(true) + "___"
	}
	return t + lay(false) + ")"
}

func renderOp(op ast.Op) string {
	switch op := op.(type) {
	case ast.Opcode:
		return string(op)
	case ast.OpcodeParts:
		s := ""
		for _, p := range op {
			switch p := p.(type) {
			case ast.Opcode:
				s += string(p)
			case ast.OpcodeAlt:
				for i, x := range p {
					if i == 0 {
						s += "("
					} else {
						s += "|"
					}
					s += string(x)
				}
				s += ")"
			}
		}
		return s
	}
	panic("harness: no text for operator")
}

// ---- symbolic pieces

// lower is any lower-case letter.
func lower() byte {
	b := nd.Byte()
	nd.Assume(b >= 'a')
	nd.Assume(b <= 'z')
	return b
}

// wordByte is any byte a name may contain.
func wordByte() byte {
	b := nd.Byte()
	switch nd.Choose(4) {
	case 0:
		return '_'
	case 1:
		nd.Assume(b >= 'a')
		nd.Assume(b <= 'z')
	case 2:
		nd.Assume(b >= 'A')
		nd.Assume(b <= 'Z')
	default:
		nd.Assume(b >= '0')
		nd.Assume(b <= '9')
	}
	return b
}

// name is a variable name: a fixed letter and a symbolic one.
func name(prefix string) string { return prefix + string([]byte{lower()}) }

// opForms are the forms an operator can take in a rule text.
const opForms = 7

func makeOp(form int, n string) ast.Op {
	c := func(s string) ast.Opcode { return ast.Opcode(s) }
	switch form {
	case 0:
		return c("O" + n)
	case 1:
		return ast.OpcodeParts{c("O" + n), ast.OpcodeAlt{"8", "16"}}
	case 2:
		return ast.OpcodeParts{ast.OpcodeAlt{c("P" + n), "Q", "R3"}}
	case 3:
		return ast.OpcodeParts{ast.OpcodeAlt{"8", "16"}, c("O" + n)}
	case 4:
		return ast.OpcodeParts{c("O"), ast.OpcodeAlt{c("8" + n), "16"}, c("x")}
	case 5:
		return ast.OpcodeParts{ast.OpcodeAlt{"A", "B"}, ast.OpcodeAlt{c("C" + n), "D"}}
	default:
		return ast.OpcodeParts{c("O"), ast.OpcodeAlt{c("8"), c("1" + n)}, c("x"), ast.OpcodeAlt{"8", "16"}}
	}
}
