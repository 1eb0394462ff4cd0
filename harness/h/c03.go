package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
)

// checkTree parses the text and compares with the tree it was written from.
func checkTree(text string, want *ast.File) *ast.File {
	f, err := parsed(text)
	nd.Observe("text", text)
	if err != nil {
		nd.Assert(false, "rejected "+text+": "+err.Error())
		return nil
	}
	got := dumpFile(f)
	nd.Observe("file", got)
	nd.Assert(got == dumpFile(want), "parsed "+text+" as "+got+", it says "+dumpFile(want))
	nd.Reach("compared")
	return f
}

// leafOrSmall is one of the argument kinds.
func argKind(k int, n string) ast.Value {
	switch k {
	case 0:
		return ast.Variable("x" + n)
	case 1:
		return ast.Placeholder
	case 2:
		return goExpr("f(x" + n + ", _)")
	case 3:
		return &ast.SExpr{Op: ast.Opcode("I" + n)}
	}
	return &ast.SExpr{Binding: ast.Variable("b" + n), Op: ast.Opcode("I"), Args: []ast.Value{ast.Variable("y")}, Type: "t"}
}

const argKinds = 5

// sexprOf is any S-expression within the bound: every combination of components.
func sexprOf(maxArgs int, sym bool) *ast.SExpr {
	s := &ast.SExpr{}
	if nd.Choose(2) == 1 {
		s.Binding = "v"
	}
	s.Op = makeOp(nd.Choose(opForms), "")
	if nd.Choose(2) == 1 {
		s.Type = "t"
	}
	if nd.Choose(2) == 1 {
		s.AuxInt = goExpr("c-1")
	}
	if nd.Choose(2) == 1 {
		s.Aux = goExpr("s.f")
	}
	n := nd.Choose(maxArgs + 1)
	for i := 0; i < n; i++ {
		s.Args = append(s.Args, argKind(nd.Choose(argKinds), []string{"1", "2", "3"}[i]))
	}
	s.Ellipsis = nd.Choose(2) == 1
	s.Trailing = nd.Choose(2) == 1
	return s
}

// ruleAround puts a value on one side of a rule: arg bit 0 the side, bit 1 a condition, bit 2 a block.
func ruleAround(v ast.Value, arg int) *ast.Rule {
	r := &ast.Rule{Match: v, Result: &ast.SExpr{Op: ast.Opcode("Z"), Args: []ast.Value{ast.Variable("q")}}}
	if arg&1 != 0 {
		r.Match, r.Result = r.Result, r.Match
	}
	if arg&2 != 0 {
		r.Condition = goExpr("p(q) && !r")
	}
	if arg&4 != 0 {
		r.Block = "b.Pos"
	}
	return r
}

// C03Components: every combination of the components of one S-expression.
func C03Components(arg int) {
	f := &ast.File{Rules: []*ast.Rule{ruleAround(sexprOf(1+arg/8, false), arg%8)}}
	checkTree(renderFile(f, plain), f)
}

// C03Order: type, auxint and aux at any place among the arguments.
func C03Order(arg int) {
	s := &ast.SExpr{Op: ast.Opcode("Op"), Type: "t", AuxInt: goExpr("c"), Aux: goExpr("s")}
	if arg%8 != 0 {
		// leave some out
		if arg&1 != 0 {
			s.Type = ""
		}
		if arg&2 != 0 {
			s.AuxInt = nil
		}
		if arg&4 != 0 {
			s.Aux = nil
		}
	}
	n := nd.Choose(3)
	for i := 0; i < n; i++ {
		s.Args = append(s.Args, argKind(nd.Choose(argKinds), []string{"1", "2", "3"}[i]))
	}
	ord := operandOrder{nd.Choose(n + 1), nd.Choose(n + 1), nd.Choose(n + 1), nd.Choose(2) == 1}
	s.Ellipsis = nd.Choose(2) == 1
	f := &ast.File{Rules: []*ast.Rule{ruleAround(s, 0)}}
	text := renderSExpr(s, plain, ord) + " => (Z q)"
	checkTree(text, f)
}

// C03Names: symbolic characters in every kind of name.
func C03Names(arg int) {
	f := namesFile(arg)
	checkTree(renderFile(f, plain), f)
}

func namesFile(arg int) *ast.File {
	s := &ast.SExpr{Op: ast.Opcode("Op"), Args: []ast.Value{ast.Variable("x")}}
	r := &ast.Rule{Match: s, Result: ast.Variable("x")}
	word := string([]byte{wordByte(), wordByte()})
	ident := string([]byte{lower(), wordByte()})
	switch arg {
	case 0:
		s.Binding = ast.Variable(ident)
	case 1:
		s.Op = ast.Opcode(word)
	case 2:
		s.Op = ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{ast.Opcode(word), "B"}, ast.Opcode("C")}
	case 3:
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{"B", ast.Opcode(word)}}
	case 4:
		s.Op = ast.OpcodeParts{ast.Opcode(word), ast.OpcodeAlt{"B", "C"}}
	case 5:
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{"B", "C"}, ast.Opcode(word)}
	case 6:
		s.Args = append(s.Args, ast.Variable(ident), ast.Placeholder)
	case 7:
		r.Result = ast.Variable(ident)
	case 8:
		r.Match = ast.Variable(ident)
	case 9:
		a, b := ascii(), ascii()
		nd.Assume(a != '>')
		nd.Assume(b != '>')
		s.Type = ast.Type([]byte{a, b})
	case 10:
		a, b := ascii(), ascii()
		for _, c := range []byte{' ', '\t', '\r', '\n'} {
			nd.Assume(a != c)
			nd.Assume(b != c)
		}
		r.Block = string([]byte{a, b})
	case 11:
		// a two-byte character in a type
		a, b := nd.Byte(), nd.Byte()
		nd.Assume(a >= 0xc2)
		nd.Assume(a <= 0xdf)
		nd.Assume(b >= 0x80)
		nd.Assume(b <= 0xbf)
		s.Type = ast.Type([]byte{a, b})
	}
	return &ast.File{Rules: []*ast.Rule{r}}
}

// nested is any value of the given depth.
func nested(depth, width int, n *int) ast.Value {
	*n++
	k := 2
	if depth > 0 {
		k += width + 1
	}
	c := nd.Choose(k)
	switch c {
	case 0:
		return ast.Variable("x" + itoa(*n))
	case 1:
		return ast.Placeholder
	}
	s := &ast.SExpr{Op: ast.Opcode("N" + itoa(*n))}
	for i := 0; i < c-2; i++ {
		s.Args = append(s.Args, nested(depth-1, width, n))
	}
	return s
}

// C03Nested: every nesting of values; arg = depth + 10*side.
func C03Nested(arg int) {
	n := 0
	f := &ast.File{Rules: []*ast.Rule{ruleAround(nested(arg%10, 2, &n), arg/10)}}
	checkTree(renderFile(f, plain), f)
}

// exprSources are Go expressions of every supported form.
var exprSources = []string{
	"x", "1", "-1", "1.5", "2i", "'c'", `"s t"`, "x.y", "x.y.z", "!x", "^x", "&x", "*x", "<-x", "+x", "(x)", "((x))",
	"f()", "f(x)", "f(x, y, 1)", "f(x...)", "f(x, y...)", "x.f(y).g", "f(g(x))(y)", "-x.y", "-f(x)", "*p.q", "!(x && y)",
	"x+y", "x-y", "x*y", "x/y", "x%y", "x&y", "x|y", "x^y", "x<<y", "x>>y", "x&^y", "x==y", "x!=y", "x<y", "x<=y", "x>=y", "x && y", "x || y",
	"x+y*z", "(x+y)*z", "x-y-z", "x-(y-z)", "x<<1|y", "x && y || z", "x || y && z", "x == y && z != w", "1<<(x-1)", "int64(1)<<c - 1",
	"x - -y", "x & ^y", "x &^ y", "- -x", "x + +y", "x && !y", "& &x", "x / *y", "x - *y", "x * *y", "1 .x", "x.y + 'z'",
	"f(-x, !y, (z), a.b, *c)", "a < -b", "a == *b", "^^x", "!!x", "x& &y", "- +x", "0x1f", "1e3", "07", "'\\''", "\"\\\"\"", "\"a//b\"",
}

// usable tells whether the text may stand in the place: 0 auxint, 1 aux, 2 condition, 3 call value.
func usable(src string, place int) bool {
	for i := range []byte(src) {
		if place == 0 && src[i] == ']' || place == 1 && src[i] == '}' {
			return false
		}
	}
	return true
}

// ruleWithExpr is a rule with the expression at a place; the rest of the rule is fixed.
func ruleWithExpr(e *ast.Expr, place int) *ast.Rule {
	s := &ast.SExpr{Op: ast.Opcode("Op"), Args: []ast.Value{ast.Variable("x")}}
	r := &ast.Rule{Match: s, Result: &ast.SExpr{Op: ast.Opcode("Z"), Args: []ast.Value{ast.Variable("x")}}}
	switch place {
	case 0:
		s.AuxInt = e
	case 1:
		s.Aux = e
	case 2:
		r.Condition = e
	case 3:
		s.Args = append(s.Args, e)
	case 4:
		r.Result.(*ast.SExpr).AuxInt = e
	case 5:
		r.Result.(*ast.SExpr).Aux = e
	case 6:
		r.Result = e
	}
	return r
}

// C03Exprs: every expression of the table at every place; arg = place.
func C03Exprs(arg int) {
	src := exprSources[nd.Choose(len(exprSources))]
	if arg == 3 || arg == 6 {
		src = []string{"f(x)", "f(_)", "f(x,y)", "f( x , y )", "f(g(x),h(y,z))", "f(\n\tx,\n\ty)", "fA_1(x)"}[nd.Choose(7)]
	}
	e := goExpr(src)
	f := &ast.File{Rules: []*ast.Rule{ruleWithExpr(e, arg)}}
	got := checkTree(renderFile(f, plain), f)
	if got == nil {
		return
	}
	// where the expression stands
	var at *ast.Expr
	s := got.Rules[0].Match.(*ast.SExpr)
	switch arg {
	case 0:
		at = s.AuxInt
	case 1:
		at = s.Aux
	case 2:
		at = got.Rules[0].Condition
	case 3:
		at = s.Args[1].(*ast.Expr)
	case 4:
		at = got.Rules[0].Result.(*ast.SExpr).AuxInt
	case 5:
		at = got.Rules[0].Result.(*ast.SExpr).Aux
	case 6:
		at = got.Rules[0].Result.(*ast.Expr)
	}
	nd.Assert(posFree(at.Expr), "source positions left in the expression "+src)
}

// C03Dup: a component that can stand once may not stand twice.
func C03Dup(int) {
	a := []string{"<t>", "[1]", "{s}"}[nd.Choose(3)]
	b := []string{"", " x"}[nd.Choose(2)]
	c := []string{"", " (B)"}[nd.Choose(2)]
	d := a[:1] + string([]byte{lower()}) + a[2:]
	text := "(A " + a + b + " " + d + c + ") => (C)"
	if nd.Choose(2) == 1 {
		text = "(C) => (A" + c + " " + d + b + " " + a + ")"
	}
	f, err := parse.String(text)
	nd.Observe("text", text)
	nd.Assert(f == nil && err != nil, "accepted two of the same component: "+text)
}
