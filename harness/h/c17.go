package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/smt2"
)

// sameVerdict: the generated script has the verdict of a script written from the rule's meaning.
func sameVerdict(r *ast.Rule) {
	want, m := refScript(r)
	b, err := smt2.Generate(r)
	if !m.ok {
		nd.Assert(err != nil, "a script for a rule without a meaning: "+dumpRule(r))
		return
	}
	if err != nil {
		nd.Assert(false, "no script for "+dumpRule(r)+": "+err.Error())
		return
	}
	got := string(b)
	nd.Observe("script", got)
	u := nd.Solve(want)
	v := nd.Solve(got)
	nd.Observe("verdict", v)
	nd.Assert(u == "sat" || u == "unsat", "harness: "+u+" for\n"+want)
	nd.Assert(u == v, "the rule is "+map[string]string{"sat": "unsound", "unsat": "sound"}[u]+", its script is "+v+":\n"+got)
	sameConstants(checkScript(got), m, got)
	if u == "sat" {
		nd.Reach("unsound")
	} else {
		nd.Reach("sound")
	}
}

// sameConstants: as many constants of each width as the rule has variables and placeholders of that width.
func sameConstants(c *script, m *meaning, got string) {
	nd.Assert(c.problem == "", "not well formed: "+c.problem+"\n"+got)
	for _, w := range []int{0, 8, 16, 32, 64} {
		a, b := 0, 0
		for i, s := range c.sorts {
			if s == w && i < len(c.names) {
				a++
			}
		}
		for _, s := range m.widths {
			if s == w {
				b++
			}
		}
		if c.defined == 0 {
			nd.Assert(a == b, itoa(a)+" constants of "+itoa(w)+" bits instead of "+itoa(b)+" in\n"+got)
		} else {
			nd.Assert(a >= b, itoa(a)+" constants of "+itoa(w)+" bits instead of "+itoa(b)+" in\n"+got)
		}
	}
}

var xy = []ast.Value{ast.Variable("x"), ast.Variable("y")}

// C17Pairs: every operation against every other, on any of two variables; arg = width.
func C17Pairs(arg int) {
	ops := opsOf(arg)
	mk := func() *ast.SExpr {
		op := ops[nd.Choose(len(ops))]
		s := &ast.SExpr{Op: ast.Opcode(op.name)}
		for i := 0; i < op.arity; i++ {
			s.Args = append(s.Args, xy[nd.Choose(2)])
		}
		return s
	}
	sameVerdict(&ast.Rule{Match: mk(), Result: mk()})
}

// C17Single: every operation on any of three operands against a variable or placeholder; arg = width.
func C17Single(arg int) {
	ops := opsOf(arg)
	op := ops[nd.Choose(len(ops))]
	s := &ast.SExpr{Op: ast.Opcode(op.name)}
	for i := 0; i < op.arity; i++ {
		s.Args = append(s.Args, smtOperand(arg, 0))
	}
	sameVerdict(&ast.Rule{Match: s, Result: smtOperand(arg, 0)})
}

// C17Nested: an operation on an operation against an operation on an operation; arg = width + 1000*variant.
func C17Nested(arg int) {
	w := arg % 1000
	ops := opsOf(w)
	var two, one []operation
	for _, o := range ops {
		if o.arity == 2 {
			two = append(two, o)
		} else {
			one = append(one, o)
		}
	}
	x, y, z := ast.Variable("x"), ast.Variable("y"), ast.Variable("z")
	b := func(p, q ast.Value) *ast.SExpr { return call(two[nd.Choose(len(two))].name, p, q) }
	u := func(p ast.Value) *ast.SExpr { return call(one[nd.Choose(len(one))].name, p) }
	r := &ast.Rule{}
	switch arg / 1000 {
	case 0: // associativity and its failures
		r.Match, r.Result = b(x, b(y, z)), b(b(x, y), z)
	case 1: // absorption and its failures
		r.Match, r.Result = b(x, b(x, y)), b(x, y)
	case 2: // unary against binary
		r.Match, r.Result = u(b(x, y)), b(u(x), u(y))
	case 3:
		r.Match, r.Result = u(u(x)), x
	case 4:
		r.Match, r.Result = b(x, u(y)), b(x, y)
	case 5:
		r.Match, r.Result = b(b(x, y), y), x
	case 6:
		r.Match, r.Result = b(u(x), u(y)), u(b(y, x))
	case 7: // distributivity and its failures
		r.Match, r.Result = b(x, b(y, z)), b(b(x, y), b(x, z))
	case 8: // zeros and ones of other variables
		r.Match, r.Result = b(x, x), b(y, y)
	case 9:
		r.Match, r.Result = u(b(x, x)), b(y, u(y))
	case 10:
		r.Match, r.Result = b(b(x, x), y), u(y)
	case 11:
		r.Match, r.Result = b(x, u(b(x, x))), u(x)
	}
	sameVerdict(r)
}

// C17Holes: placeholders are independent values; any operands.
func C17Holes(arg int) {
	ops := opsOf(arg)
	n := 5
	if arg == 0 {
		n = 4
	}
	f := ops[nd.Choose(n)].name
	g := ops[nd.Choose(n)].name
	o := func() ast.Value { return []ast.Value{ast.Variable("x"), ast.Placeholder}[nd.Choose(2)] }
	sameVerdict(&ast.Rule{Match: call(f, o(), call(f, o(), o())), Result: call(g, o(), o())})
}

// C17Names: two variables with symbolic names: one constant if the names are the same, else two.
func C17Names(arg int) {
	a := identifier(1 + nd.Choose(arg))
	b := identifier(1 + nd.Choose(arg))
	x, y := ast.Variable(a), ast.Variable(b)
	r := &ast.Rule{Match: call("Add64", x, call("Sub64", ast.Placeholder, y)), Result: call("Neg64", x)}
	_, m := refScript(r)
	out, err := smt2.Generate(r)
	if err != nil {
		nd.Assert(false, "no script: "+err.Error())
		return
	}
	sameConstants(checkScript(string(out)), m, string(out))
	if a == b {
		nd.Reach("same")
	} else {
		nd.Reach("different")
	}
}

// C17Pair: names that are nearly the same: verdict of a rule that is sound only if they are one variable, and of one sound for any two.
func C17Close(arg int) {
	close := []string{"x", "xx", "x_", "x1", "x0", "xX", "v_x", "v", "x_0", "a", "aB", "ab", "longname1", "longname2", "longNAME1", "v_", "p0"}
	x := ast.Variable(close[nd.Choose(len(close))])
	y := ast.Variable(close[nd.Choose(len(close))])
	sameVerdict(&ast.Rule{Match: call("Sub32", x, y), Result: call("Xor32", x, x)})
	sameVerdict(&ast.Rule{Match: call("Sub32", x, y), Result: call("Add32", call("Neg32", y), x)})
	sameVerdict(&ast.Rule{Match: call("Sub32", x, y), Result: call("Add32", call("Neg32", y), ast.Placeholder)})
}

// C17Known: rules as they stand in the Go compiler, and near misses; all widths.
func C17Known(arg int) {
	w := itoa([]int{8, 16, 32, 64}[nd.Choose(4)])
	x, y, z, u := ast.Variable("x"), ast.Variable("y"), ast.Variable("z"), ast.Variable("u")
	add := func(p, q ast.Value) ast.Value { return call("Add"+w, p, q) }
	sub := func(p, q ast.Value) ast.Value { return call("Sub"+w, p, q) }
	and := func(p, q ast.Value) ast.Value { return call("And"+w, p, q) }
	or := func(p, q ast.Value) ast.Value { return call("Or"+w, p, q) }
	xor := func(p, q ast.Value) ast.Value { return call("Xor"+w, p, q) }
	neg := func(p ast.Value) ast.Value { return call("Neg"+w, p) }
	com := func(p ast.Value) ast.Value { return call("Com"+w, p) }
	rules := [][2]ast.Value{
		{com(com(x)), x}, {neg(neg(x)), x}, {neg(sub(x, y)), sub(y, x)}, {add(x, neg(y)), sub(x, y)}, {sub(add(x, y), x), y}, {sub(add(x, y), y), x}, {sub(sub(x, y), x), neg(y)}, {sub(x, add(x, y)), neg(y)},
		{add(x, sub(y, x)), y}, {add(x, sub(y, add(z, x))), sub(y, z)}, {and(x, and(x, y)), and(x, y)}, {or(x, or(x, y)), or(x, y)}, {xor(x, xor(x, y)), y}, {and(x, x), x}, {or(x, x), x}, {sub(x, x), xor(y, y)},
		{add(neg(x), y), sub(y, x)}, {sub(x, neg(y)), add(x, y)}, {sub(x, sub(y, z)), add(sub(x, y), z)}, {sub(x, sub(y, z)), sub(sub(x, y), z)}, {add(and(x, y), or(x, y)), add(x, y)}, {add(xor(x, y), add(and(x, y), and(x, y))), add(x, y)},
		{sub(or(x, y), and(x, y)), xor(x, y)}, {com(x), sub(neg(x), neg(com(sub(x, x))))}, {neg(com(x)), add(x, neg(com(xor(x, x))))}, {and(add(x, y), z), and(add(y, x), z)}, {or(and(x, y), and(x, z)), and(x, or(y, z))}, {or(and(x, y), and(com(x), z)), xor(and(xor(y, z), x), z)},
		{sub(x, y), sub(y, x)}, {com(and(x, y)), or(com(x), com(y))}, {com(or(x, y)), or(com(x), com(y))}, {neg(add(x, y)), sub(neg(x), y)}, {sub(add(x, y), add(z, u)), add(sub(x, z), sub(y, u))}, {and(x, com(x)), sub(y, y)}, {or(x, com(x)), com(sub(y, y))}, {add(x, com(x)), com(xor(y, y))},
		{add(x, x), add(y, y)}, {add(x, com(y)), sub(x, y)}, {xor(x, y), or(x, y)}, {add(x, y), xor(x, y)}, {add(x, y), or(x, y)}, {and(x, y), or(x, y)},
	}
	k := rules[nd.Choose(len(rules))]
	sameVerdict(&ast.Rule{Match: k[0], Result: k[1]})
}
