package h

import (
	goast "go/ast"
	gotoken "go/token"
	"strconv"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
)

// Canonical, unambiguous text of trees: every piece of text is preceded by its length,
// so two trees are identical exactly when their dumps are equal strings.

func lp(s string) string { return strconv.Itoa(len(s)) + "'" + s }

func dumpFile(f *ast.File) string {
	if f == nil {
		return "nofile"
	}
	s := "F" + strconv.Itoa(len(f.Rules)) + "{"
	for _, r := range f.Rules {
		s += dumpRule(r)
	}
	return s + "}"
}

func dumpRule(r *ast.Rule) string {
	if r == nil {
		return "norule"
	}
	return mkRule(dumpValue(r.Match), dumpExpr(r.Condition), r.Block, dumpValue(r.Result))
}

func mkRule(match, cond, block, result string) string {
	return "R{" + match + " if " + cond + " at " + lp(block) + " to " + result + "}"
}

func dumpExpr(e *ast.Expr) string {
	if e == nil {
		return "-"
	}
	return "E{" + dumpGo(e.Expr) + "}"
}

func dumpValue(v ast.Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *ast.SExpr:
		if v == nil {
			return "nilsexpr"
		}
		args := make([]string, len(v.Args))
		for i, a := range v.Args {
			args[i] = dumpValue(a)
		}
		return mkSExpr(string(v.Binding), dumpOp(v.Op), string(v.Type), dumpExpr(v.AuxInt), dumpExpr(v.Aux), args, v.Ellipsis, v.Trailing)
	case *ast.Expr:
		return dumpExpr(v)
	case ast.Variable:
		return mkVar(string(v))
	}
	return "?value"
}

func mkVar(s string) string { return "V" + lp(s) }

func mkSExpr(binding, op, typ, auxint, aux string, args []string, ellipsis, trailing bool) string {
	s := "S{" + lp(binding) + " " + op + " " + lp(typ) + " " + auxint + " " + aux + " " + strconv.Itoa(len(args)) + "("
	for _, a := range args {
		s += a
	}
	s += ")"
	if ellipsis {
		s += "+e"
	}
	if trailing {
		s += "+t"
	}
	return s + "}"
}

func dumpOp(op ast.Op) string {
	switch op := op.(type) {
	case nil:
		return "nil"
	case ast.Opcode:
		return mkOpcode(string(op))
	case ast.OpcodeParts:
		s := "P" + strconv.Itoa(len(op)) + "("
		for _, p := range op {
			s += dumpPart(p)
		}
		return s + ")"
	}
	return "?op"
}

func mkOpcode(s string) string { return "O" + lp(s) }

func mkAlt(xs []string) string {
	s := "A" + strconv.Itoa(len(xs)) + "("
	for _, x := range xs {
		s += lp(x)
	}
	return s + ")"
}

func mkParts(ps []string) string {
	s := "P" + strconv.Itoa(len(ps)) + "("
	for _, p := range ps {
		s += p
	}
	return s + ")"
}

func dumpPart(p ast.OpPart) string {
	switch p := p.(type) {
	case nil:
		return "nil"
	case ast.Opcode:
		return mkOpcode(string(p))
	case ast.OpcodeAlt:
		xs := make([]string, len(p))
		for i, x := range p {
			xs[i] = string(x)
		}
		return mkAlt(xs)
	}
	return "?part"
}

// dumpGo describes a Go expression of the supported forms, without positions.
func dumpGo(e goast.Expr) string {
	switch e := e.(type) {
	case nil:
		return "nil"
	case *goast.Ident:
		if e == nil {
			return "nilident"
		}
		return "i" + lp(e.Name)
	case *goast.BasicLit:
		return "l" + e.Kind.String() + lp(e.Value)
	case *goast.ParenExpr:
		return "p(" + dumpGo(e.X) + ")"
	case *goast.UnaryExpr:
		return "u" + e.Op.String() + "(" + dumpGo(e.X) + ")"
	case *goast.BinaryExpr:
		return "b" + e.Op.String() + "(" + dumpGo(e.X) + "," + dumpGo(e.Y) + ")"
	case *goast.CallExpr:
		s := "c(" + dumpGo(e.Fun) + ";" + strconv.Itoa(len(e.Args))
		for _, a := range e.Args {
			s += "," + dumpGo(a)
		}
		if e.Ellipsis != gotoken.NoPos {
			s += "..."
		}
		return s + ")"
	case *goast.StarExpr:
		return "s(" + dumpGo(e.X) + ")"
	case *goast.SelectorExpr:
		return "d(" + dumpGo(e.X) + "," + dumpGo(e.Sel) + ")"
	}
	return "?expr"
}

// supported tells whether the expression consists of the supported forms only.
func supported(e goast.Expr) bool {
	switch e := e.(type) {
	case *goast.Ident, *goast.BasicLit:
		return true
	case *goast.ParenExpr:
		return supported(e.X)
	case *goast.UnaryExpr:
		return supported(e.X)
	case *goast.BinaryExpr:
		return supported(e.X) && supported(e.Y)
	case *goast.CallExpr:
		if !supported(e.Fun) {
			return false
		}
		for _, a := range e.Args {
			if !supported(a) {
				return false
			}
		}
		return true
	case *goast.StarExpr:
		return supported(e.X)
	case *goast.SelectorExpr:
		return supported(e.X)
	}
	return false
}

// posFree tells whether the expression carries no source positions.
func posFree(e goast.Expr) bool {
	switch e := e.(type) {
	case *goast.Ident:
		return e.NamePos == 0
	case *goast.BasicLit:
		return e.ValuePos == 0
	case *goast.ParenExpr:
		return e.Lparen == 0 && e.Rparen == 0 && posFree(e.X)
	case *goast.UnaryExpr:
		return e.OpPos == 0 && posFree(e.X)
	case *goast.BinaryExpr:
		return e.OpPos == 0 && posFree(e.X) && posFree(e.Y)
	case *goast.CallExpr:
		// the position of an ellipsis is the only mark that there is one: it must be the same in every expression
		if e.Lparen != 0 || e.Rparen != 0 || e.Ellipsis != 0 && e.Ellipsis != ellipsisMark() || !posFree(e.Fun) {
			return false
		}
		for _, a := range e.Args {
			if !posFree(a) {
				return false
			}
		}
		return true
	case *goast.StarExpr:
		return e.Star == 0 && posFree(e.X)
	case *goast.SelectorExpr:
		return posFree(e.X) && posFree(e.Sel)
	}
	return false
}

// ellipsisMark is the mark of an ellipsis in some expression of some text.
func ellipsisMark() gotoken.Pos {
	f, err := parse.String("(A [f(x...)] y) => y")
	if err == nil && f != nil && len(f.Rules) == 1 {
		if s, ok := f.Rules[0].Match.(*ast.SExpr); ok && s.AuxInt != nil {
			if c, ok := s.AuxInt.Expr.(*goast.CallExpr); ok {
				return c.Ellipsis
			}
		}
	}
	return 0
}

// exprs collects every embedded Go expression of a value, in source order of the kinds.
func exprs(v ast.Value, out []goast.Expr) []goast.Expr {
	switch v := v.(type) {
	case *ast.SExpr:
		if v.AuxInt != nil {
			out = append(out, v.AuxInt.Expr)
		}
		if v.Aux != nil {
			out = append(out, v.Aux.Expr)
		}
		for _, a := range v.Args {
			out = exprs(a, out)
		}
	case *ast.Expr:
		out = append(out, v.Expr)
	}
	return out
}

func ruleExprs(r *ast.Rule) []goast.Expr {
	out := exprs(r.Match, nil)
	if r.Condition != nil {
		out = append(out, r.Condition.Expr)
	}
	return exprs(r.Result, out)
}
