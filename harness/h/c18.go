package h

import (
	goast "go/ast"
	gotoken "go/token"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/smt2"
)

func refused(r *ast.Rule, why string) {
	b, err := smt2.Generate(r)
	nd.Assert(err != nil, "a script for a rule with "+why+": "+dumpRule(r)+"\n"+string(b))
	nd.Assert(b == nil, "an error and a script for a rule with "+why)
	if err != nil {
		nd.Observe("err", err.Error())
	}
	nd.Reach("refused")
}

// decided: generation succeeds exactly if the rule has a meaning; a match that is a lone variable may be taken or refused.
func decided(r *ast.Rule) {
	_, m := refScript(r)
	if m.ok {
		b, err := smt2.Generate(r)
		nd.Assert(err == nil && len(b) > 0, "no script for the well-typed rule "+dumpRule(r))
		nd.Reach("generated")
		return
	}
	if _, lone := r.Match.(ast.Variable); lone && simple(r) {
		b, err := smt2.Generate(r)
		nd.Assert((b == nil) == (err != nil), "both or neither of a script and an error for "+dumpRule(r))
		return
	}
	refused(r, "no meaning")
}

// typedRule is a well-typed rule with seven nodes; shape 0..3.
func typedRule(shape int) (*ast.Rule, []*ast.SExpr) {
	x, y, z := ast.Variable("x"), ast.Variable("y"), ast.Variable("z")
	switch shape {
	case 0:
		n3 := call("Neg8", z)
		n2 := call("Sub8", n3, y)
		n1 := call("Com8", x)
		n0 := call("Add8", n1, n2)
		n5 := call("And8", y, x)
		n4 := call("Or8", n5, ast.Placeholder)
		return &ast.Rule{Match: n0, Result: n4}, []*ast.SExpr{n0, n1, n2, n3, n4, n5}
	case 1:
		n2 := call("EqB", x, y)
		n1 := call("Not", n2)
		n0 := call("AndB", n1, x)
		return &ast.Rule{Match: n0, Result: y}, []*ast.SExpr{n0, n1, n2}
	case 2:
		n0 := call("Not", x)
		n2 := call("OrB", x, y)
		n3 := call("NeqB", x, y)
		n1 := call("EqB", n2, n3)
		return &ast.Rule{Match: n0, Result: n1}, []*ast.SExpr{n0, n1, n2, n3}
	}
	n2 := call("Com64", call("Neg64", call("Com64", x)))
	n1 := call("Xor64", n2, y)
	n0 := call("Sub64", ast.Placeholder, n1)
	return &ast.Rule{Match: n0, Result: n1}, []*ast.SExpr{n0, n1, n2, n2.Args[0].(*ast.SExpr), n2.Args[0].(*ast.SExpr).Args[0].(*ast.SExpr)}
}

// C18Feature: one feature at any non-empty subset of the nodes; arg = shape + 10*feature.
func C18Feature(arg int) {
	r, ns := typedRule(arg % 10)
	any := false
	for _, s := range ns {
		on := nd.Bool()
		setFeature(s, arg/10, on)
		if on {
			any = true
		}
	}
	if any {
		refused(r, predicates[arg/10].name)
		return
	}
	decided(r)
}

// C18Features: any set of features on one node, a condition and a block; arg = shape.
func C18Features(arg int) {
	r, ns := typedRule(arg)
	bits := nd.Choose(64)
	decorate(ns[nd.Choose(len(ns))], bits)
	c := nd.Choose(2) == 1
	if c {
		r.Condition = goExpr([]string{"true", "x == y", "p(x)"}[nd.Choose(3)])
	}
	b := nd.Choose(2) == 1
	if b {
		r.Block = string([]byte{nd.Byte(), nd.Byte()})
	}
	if bits != 0 || c || b {
		refused(r, "features it does not model")
		return
	}
	decided(r)
}

// C18Alternation: an alternation, or another operator that is no plain opcode, at any node; arg = shape.
func C18Alternation(arg int) {
	r, ns := typedRule(arg)
	s := ns[nd.Choose(len(ns))]
	op := s.Op.(ast.Opcode)
	switch nd.Choose(6) {
	case 0:
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{op, op}}
	case 1:
		s.Op = ast.OpcodeParts{op[:len(op)-1], ast.OpcodeAlt{op[len(op)-1:], "16"}}
	case 2:
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{op[:1], "S"}, op[1:]}
	case 3:
		s.Op = ast.OpcodeParts{op}
	case 4:
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{op}}
	case 5:
		s.Op = nil
	}
	refused(r, "an operator that is no opcode")
}

// C18Value: a Go expression or something that is no value, at any place for a value; arg = shape.
func C18Value(arg int) {
	r, ns := typedRule(arg)
	var bad ast.Value
	switch nd.Choose(6) {
	case 0:
		bad = goExpr("f(x)")
	case 1:
		bad = goExpr("x")
	case 2:
		bad = goExpr("1")
	case 3:
		bad = oddValue{ast.Variable("x")}
	case 4:
		bad = nil
	case 5:
		bad = call("f", ast.Variable("x"))
	}
	k := nd.Choose(len(ns) + 2)
	switch {
	case k == len(ns):
		r.Match = bad
	case k == len(ns)+1:
		r.Result = bad
	default:
		ns[k].Args[nd.Choose(len(ns[k].Args))] = bad
	}
	refused(r, "a value it does not model")
}

// C18Arity: every operation with up to arg arguments, at any of three places.
func C18Arity(arg int) {
	op := modelled[nd.Choose(len(modelled))]
	s := &ast.SExpr{Op: ast.Opcode(op.name)}
	n := nd.Choose(arg + 1)
	for i := 0; i < n; i++ {
		s.Args = append(s.Args, []ast.Value{ast.Variable("x"), ast.Placeholder, ast.Variable("y"), ast.Variable("x")}[i])
	}
	wrap := "Neg" + itoa(op.width)
	if op.width == 0 {
		wrap = "Not"
	}
	switch nd.Choose(4) {
	case 0:
		decided(&ast.Rule{Match: s, Result: ast.Variable("z")})
	case 1:
		decided(&ast.Rule{Match: call(wrap, s), Result: ast.Variable("x")})
	case 2:
		decided(&ast.Rule{Match: call(wrap, ast.Variable("x")), Result: s})
	case 3:
		decided(&ast.Rule{Match: call(wrap, ast.Variable("x")), Result: call(wrap, s)})
	}
}

// C18Types: two operations of any widths, one inside the other or one on each side.
func C18Types(arg int) {
	mk := func(o operation, args ...ast.Value) *ast.SExpr {
		return &ast.SExpr{Op: ast.Opcode(o.name), Args: args[:o.arity]}
	}
	a := modelled[nd.Choose(len(modelled))]
	b := modelled[nd.Choose(len(modelled))]
	x, y := ast.Variable("x"), ast.Variable("y")
	switch arg {
	case 0:
		decided(&ast.Rule{Match: mk(a, mk(b, x, y), y), Result: ast.Variable("z")})
	case 1:
		decided(&ast.Rule{Match: mk(a, x, mk(b, x, y)), Result: x})
	case 2:
		decided(&ast.Rule{Match: mk(a, x, y), Result: mk(b, x, ast.Variable("z"))})
	case 3:
		decided(&ast.Rule{Match: mk(a, ast.Variable("u"), y), Result: mk(a, mk(b, x, ast.Placeholder), ast.Placeholder)})
	case 4:
		decided(&ast.Rule{Match: mk(a, ast.Placeholder, ast.Placeholder), Result: mk(b, ast.Placeholder, ast.Placeholder)})
	}
}

// C18Opcode: opcodes of arg symbolic characters.
func C18Opcode(arg int) {
	b := []byte{}
	for i := 0; i < arg; i++ {
		b = append(b, wordByte())
	}
	s := &ast.SExpr{Op: ast.Opcode(b)}
	n := nd.Choose(3)
	for i := 0; i < n; i++ {
		s.Args = append(s.Args, ast.Variable("x"))
	}
	decided(&ast.Rule{Match: s, Result: ast.Variable("x")})
}

// C18Near: the opcodes with any one character replaced, removed or put in; arg = 0 replaced, 1 put in, 2 removed.
func C18Near(arg int) {
	op := modelled[nd.Choose(len(modelled))]
	name := []byte(op.name)
	switch arg {
	case 0:
		name[nd.Choose(len(name))] = nd.Byte()
	case 1:
		k := nd.Choose(len(name) + 1)
		name = append(name[:k:k], append([]byte{nd.Byte()}, name[k:]...)...)
	case 2:
		k := nd.Choose(len(name))
		name = append(name[:k:k], name[k+1:]...)
	}
	s := &ast.SExpr{Op: ast.Opcode(name)}
	for i := 0; i < op.arity; i++ {
		s.Args = append(s.Args, ast.Variable("x"))
	}
	decided(&ast.Rule{Match: s, Result: ast.Variable("y")})
}

// C18Well: every rule over the operations of one width succeeds; arg = width + 1000*depth.
func C18Well(arg int) {
	w := arg % 1000
	decided(&ast.Rule{Match: applied(w, arg/1000), Result: smtOperand(w, 1)})
}

// C18Deep: a feature, an alternation or a Go expression under arg nested operations.
func C18Deep(arg int) {
	var v ast.Value = ast.Variable("x")
	k := nd.Choose(10)
	bottom := call("Add32", ast.Variable("x"), ast.Variable("y"))
	if k < 6 {
		setFeature(bottom, k, true)
	}
	switch k {
	case 6:
		bottom.Op = ast.OpcodeParts{ast.Opcode("Add"), ast.OpcodeAlt{"32", "32"}}
	case 7:
		bottom.Args[1] = goExpr("c")
	case 8:
		bottom.Op = ast.Opcode("Add16")
	}
	v = bottom
	for i := 0; i < arg; i++ {
		switch nd.Choose(3) {
		case 0:
			v = call("Com32", v)
		case 1:
			v = call("Sub32", ast.Variable("y"), v)
		case 2:
			v = call("Xor32", v, ast.Placeholder)
		}
	}
	r := &ast.Rule{Match: v, Result: ast.Variable("x")}
	if nd.Choose(2) == 1 {
		r = &ast.Rule{Match: call("Neg32", ast.Variable("x")), Result: v}
	}
	if k == 9 {
		decided(r)
		return
	}
	refused(r, "something unmodelled far inside")
}

// C18Texts: one feature whose text is symbolic or looks like nothing, at any node; arg = shape + 10*feature, 6 condition, 7 block, 8 opcode.
func C18Texts(arg int) {
	r, ns := typedRule(arg % 10)
	s := ns[nd.Choose(len(ns))]
	text := []byte{nd.Byte()}
	switch nd.Choose(3) {
	case 1:
		text = append(text, nd.Byte())
	case 2:
		text = append(text, nd.Byte(), nd.Byte())
	}
	switch arg / 10 {
	case 0:
		s.Binding = ast.Variable(text)
	case 1:
		s.Type = ast.Type(text)
	case 2:
		s.AuxInt = anyGoExpr(string(text))
	case 3:
		s.Aux = anyGoExpr(string(text))
	case 4:
		s.Ellipsis = true
		s.Args = nil
	case 5:
		s.Trailing = true
		s.Args = nil
	case 6:
		r.Condition = anyGoExpr(string(text))
	case 7:
		r.Block = string(text)
	case 8:
		s.Op = s.Op.(ast.Opcode) + ast.Opcode(text)
	}
	if arg/10 == 8 {
		decided(r)
		return
	}
	refused(r, "a feature it does not model")
}

// anyGoExpr is an expression of any form: with the symbolic text as a name or literal of any kind, or one that stands for nothing.
func anyGoExpr(text string) *ast.Expr {
	x := &goast.Ident{Name: text}
	switch nd.Choose(13) {
	case 0:
		return &ast.Expr{Expr: x}
	case 1:
		kind := []gotoken.Token{gotoken.INT, gotoken.FLOAT, gotoken.CHAR, gotoken.STRING}[nd.Choose(4)]
		return &ast.Expr{Expr: &goast.BasicLit{Kind: kind, Value: text}}
	case 2:
		return goExpr("true")
	case 3:
		return goExpr("0")
	case 4:
		return goExpr("nil")
	case 5:
		return goExpr("\"\"")
	case 6:
		return &ast.Expr{Expr: &goast.UnaryExpr{Op: gotoken.SUB, X: x}}
	case 7:
		return &ast.Expr{Expr: &goast.BinaryExpr{X: x, Op: gotoken.EQL, Y: x}}
	case 8:
		return &ast.Expr{Expr: &goast.CallExpr{Fun: x}}
	case 9:
		return &ast.Expr{Expr: &goast.SelectorExpr{X: x, Sel: x}}
	case 10:
		return &ast.Expr{Expr: &goast.StarExpr{X: x}}
	case 11:
		return &ast.Expr{Expr: &goast.ParenExpr{X: x}}
	}
	return &ast.Expr{}
}
