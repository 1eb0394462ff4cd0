package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/smt2"
)

// wellFormed generates and reads the script; nil if there is none.
func wellFormed(r *ast.Rule) *script {
	b, err := smt2.Generate(r)
	if err != nil {
		nd.Assert(b == nil, "both an error and a script for "+dumpRule(r))
		nd.Observe("err", err.Error())
		nd.Reach("refused")
		return nil
	}
	nd.Observe("script", string(b))
	c := checkScript(string(b))
	nd.Assert(c.problem == "", "the script for "+dumpRule(r)+" is not well formed: "+c.problem+"\n"+string(b))
	nd.Reach("read")
	return c
}

// identifier is a name of n characters a variable may have, all of them symbolic.
func identifier(n int) string {
	b := []byte{lower()}
	for i := 1; i < n; i++ {
		b = append(b, wordByte())
	}
	return string(b)
}

func call(op string, args ...ast.Value) *ast.SExpr { return &ast.SExpr{Op: ast.Opcode(op), Args: args} }

// variables the SMT-LIB standard, its theories, solvers or the generator itself might take for something else
var words = []string{"let", "par", "as", "forall", "exists", "match", "assert", "exit", "push", "pop", "echo", "reset", "true", "false", "not", "and", "or", "xor", "distinct", "ite", "concat", "extract",
	"bvnot", "bvneg", "bvand", "bvor", "bvadd", "bvmul", "bvudiv", "bvurem", "bvshl", "bvlshr", "bvult", "bvnand", "bvnor", "bvxor", "bvxnor", "bvcomp", "bvsub", "bvsdiv", "bvsrem", "bvsmod", "bvashr", "repeat", "zero_extend", "sign_extend", "rotate_left", "rotate_right",
	"bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge", "bv0", "bv8", "bool", "int", "real", "store", "select", "lambda", "is", "if", "then", "else", "in", "abs", "div", "mod", "iff", "implies", "subset", "bv2int", "int2bv", "define", "declare", "check", "sat", "unsat", "unknown", "v", "v_", "v_x", "v_v_x", "v_0", "v0", "x0", "x_0", "p_0", "placeholder", "b1", "m", "r", "t", "s", "d", "e1", "nil"}

// C16Words: words that mean something to SMT-LIB as names, next to the name x; the solver accepts the script too.
func C16Words(arg int) {
	w := ast.Variable(words[nd.Choose(len(words))])
	var r *ast.Rule
	switch arg {
	case 0:
		r = &ast.Rule{Match: call("Add8", w, ast.Variable("x")), Result: call("Add8", ast.Variable("x"), w)}
	case 1:
		r = &ast.Rule{Match: call("AndB", ast.Variable("x"), call("Not", w)), Result: call("OrB", w, ast.Placeholder)}
	default:
		r = &ast.Rule{Match: call("Sub64", ast.Placeholder, call("Neg64", w)), Result: call("And64", w, call("Or64", ast.Placeholder, w))}
	}
	c := wellFormed(r)
	if c == nil {
		nd.Assert(false, "no script for "+dumpRule(r))
		return
	}
	b, _ := smt2.Generate(r)
	v := nd.Solve(string(b))
	nd.Assert(v == "sat" || v == "unsat", "the solver says "+v+" to\n"+string(b))
}

// C16Names: two or three variables with symbolic names of up to arg characters.
func C16Names(arg int) {
	x := ast.Variable(identifier(1 + nd.Choose(arg)))
	y := ast.Variable(identifier(1 + nd.Choose(arg)))
	var r *ast.Rule
	switch nd.Choose(3) {
	case 0:
		r = &ast.Rule{Match: call("Add16", x, y), Result: call("Sub16", y, ast.Placeholder)}
	case 1:
		r = &ast.Rule{Match: call("Xor8", call("And8", x, ast.Placeholder), y), Result: x}
	case 2:
		r = &ast.Rule{Match: call("Not", x), Result: y}
	}
	c := wellFormed(r)
	nd.Assert(c != nil, "no script for a well-typed rule")
}

// C16Long: a name of many characters, one window of it symbolic; arg = length.
func C16Long(arg int) {
	b := []byte("x")
	for len(b) < arg {
		b = append(b, "aB3_"[len(b)%4])
	}
	at := 1 + nd.Choose(arg-1)
	b[at] = wordByte()
	x := ast.Variable(b)
	c := wellFormed(&ast.Rule{Match: call("Add8", x, ast.Variable(string(b[:arg-1]))), Result: x})
	nd.Assert(c != nil, "no script for a well-typed rule")
}

// smtOperand is any operand within the bound at a width.
func smtOperand(w, depth int) ast.Value {
	n := 3
	if depth > 0 {
		n = 4
	}
	switch nd.Choose(n) {
	case 0:
		return ast.Variable("x")
	case 1:
		return ast.Variable("y")
	case 2:
		return ast.Placeholder
	}
	return applied(w, depth)
}

// applied is an operation at a width on any operands.
func applied(w, depth int) *ast.SExpr {
	ops := opsOf(w)
	op := ops[nd.Choose(len(ops))]
	s := &ast.SExpr{Op: ast.Opcode(op.name)}
	for i := 0; i < op.arity; i++ {
		s.Args = append(s.Args, smtOperand(w, depth-1))
	}
	return s
}

// C16Shapes: any rule over the operations of one width; arg = width + 1000*depth of the match.
func C16Shapes(arg int) {
	w := arg % 1000
	r := &ast.Rule{Match: applied(w, arg/1000), Result: smtOperand(w, 1)}
	c := wellFormed(r)
	if c == nil {
		nd.Assert(false, "no script for the well-typed rule "+dumpRule(r))
	}
}

// C16Mixed: operations of any two widths and Boolean ones together, typed or not: what is generated is well formed.
func C16Mixed(arg int) {
	a := modelled[nd.Choose(len(modelled))]
	b := modelled[nd.Choose(len(modelled))]
	in := &ast.SExpr{Op: ast.Opcode(b.name)}
	for i := 0; i < b.arity; i++ {
		in.Args = append(in.Args, ast.Variable("y"))
	}
	out := &ast.SExpr{Op: ast.Opcode(a.name), Args: []ast.Value{in, ast.Variable("y")}[:a.arity]}
	switch nd.Choose(3) {
	case 0:
		wellFormed(&ast.Rule{Match: out, Result: ast.Variable("z")})
	case 1:
		wellFormed(&ast.Rule{Match: in, Result: out})
	case 2:
		wellFormed(&ast.Rule{Match: call("Add8", ast.Variable("y"), ast.Variable("z")), Result: out})
	}
}

// C16Holes: any number of placeholders up to arg, among variables, at any place.
func C16Holes(arg int) {
	var v ast.Value = ast.Variable("x")
	if nd.Choose(2) == 1 {
		v = ast.Placeholder
	}
	for i := 0; i < arg; i++ {
		switch nd.Choose(3) {
		case 0:
			v = call("Add32", v, ast.Placeholder)
		case 1:
			v = call("Xor32", ast.Variable("x"), v)
		case 2:
			v = call("Com32", v)
		}
	}
	r := &ast.Rule{Match: call("Or32", v, ast.Placeholder), Result: ast.Placeholder}
	c := wellFormed(r)
	nd.Assert(c != nil, "no script for a well-typed rule")
}

// C16Tails: names that agree in their first arg characters; the next one or two of each are symbolic.
func C16Tails(arg int) {
	p := []byte("x")
	for len(p) < arg {
		p = append(p, "aB3_"[len(p)%4])
	}
	tail := func() string {
		b := []byte{wordByte()}
		if nd.Choose(2) == 1 {
			b = append(b, wordByte())
		}
		return string(b)
	}
	x, y := ast.Variable(string(p)+tail()), ast.Variable(string(p)+tail())
	var r *ast.Rule
	if nd.Choose(2) == 1 {
		r = &ast.Rule{Match: call("Sub8", x, y), Result: call("Sub8", y, ast.Variable(p))}
	} else {
		r = &ast.Rule{Match: call("AndB", ast.Placeholder, x), Result: y}
	}
	c := wellFormed(r)
	nd.Assert(c != nil, "no script for a well-typed rule")
}
