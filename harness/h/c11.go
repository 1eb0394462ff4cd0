package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/pass"
)

// Expansion of alternatives, stated here on its own: the i-th rule is the rule with the i-th
// entry of every alternation.

// widths collects the number of entries of every alternation of a value.
func widths(v ast.Value, out []int) []int {
	s, ok := v.(*ast.SExpr)
	if !ok {
		return out
	}
	if ps, ok := s.Op.(ast.OpcodeParts); ok {
		for _, p := range ps {
			if a, ok := p.(ast.OpcodeAlt); ok {
				out = append(out, len(a))
			}
		}
	}
	for _, a := range s.Args {
		out = widths(a, out)
	}
	return out
}

func ruleWidths(r *ast.Rule) []int { return widths(r.Result, widths(r.Match, nil)) }

// pick describes the value with entry i of every alternation.
func pick(v ast.Value, i int) string {
	s, ok := v.(*ast.SExpr)
	if !ok {
		return dumpValue(v)
	}
	op := ""
	switch o := s.Op.(type) {
	case ast.Opcode:
		op = string(o)
	case ast.OpcodeParts:
		for _, p := range o {
			switch p := p.(type) {
			case ast.Opcode:
				op += string(p)
			case ast.OpcodeAlt:
				op += string(p[i])
			}
		}
	}
	var args []string
	for _, a := range s.Args {
		args = append(args, pick(a, i))
	}
	return mkSExpr(string(s.Binding), mkOpcode(op), string(s.Type), dumpExpr(s.AuxInt), dumpExpr(s.Aux), args, s.Ellipsis, s.Trailing)
}

// expanded describes the rules the rule stands for; ok: its alternations go together.
func expanded(r *ast.Rule) (rules []string, ok bool) {
	n := 1
	for _, w := range ruleWidths(r) {
		if n > 1 && w != n {
			return nil, false
		}
		n = w
	}
	for i := 0; i < n; i++ {
		rules = append(rules, mkRule(pick(r.Match, i), dumpExpr(r.Condition), r.Block, pick(r.Result, i)))
	}
	return rules, true
}

// checkExpansion expands the file and compares.
func checkExpansion(f *ast.File) {
	var want []string
	all := true
	for _, r := range f.Rules {
		rs, ok := expanded(r)
		if !ok {
			all = false
			break
		}
		want = append(want, rs...)
	}
	held := append([]*ast.Rule(nil), f.Rules...)
	var before []string
	for _, r := range held {
		before = append(before, dumpRule(r))
	}
	nd.Observe("in", dumpFile(f))
	err := pass.ExpandAlternates(f)
	nd.Observe("out", dumpFile(f))
	if !all {
		nd.Assert(err != nil, "alternations that do not go together were expanded: "+dumpFile(&ast.File{Rules: held})+" to "+dumpFile(f))
		checkUnchanged(f, held, before)
		nd.Reach("refused")
		return
	}
	if err != nil {
		nd.Assert(false, "refused "+dumpFile(f)+": "+err.Error())
		return
	}
	nd.Assert(len(f.Rules) == len(want), itoa(len(f.Rules))+" rules instead of "+itoa(len(want))+" for "+dumpFile(&ast.File{Rules: held}))
	for i, r := range f.Rules {
		nd.Assert(dumpRule(r) == want[i], "rule "+itoa(i)+" is "+dumpRule(r)+" instead of "+want[i])
	}
	nd.Reach("expanded")
}

// checkUnchanged: the file holds the rules it held, as they were.
func checkUnchanged(f *ast.File, held []*ast.Rule, before []string) {
	nd.Assert(len(f.Rules) == len(held), "after the error the file holds "+itoa(len(f.Rules))+" rules instead of "+itoa(len(held)))
	for i, r := range held {
		nd.Assert(f.Rules[i] == r, "after the error rule "+itoa(i)+" is another one")
		nd.Assert(dumpRule(r) == before[i], "after the error rule "+itoa(i)+" is "+dumpRule(r)+", it was "+before[i])
	}
}

// altOf is an alternation of n entries; every entry ends in its own symbolic letter.
func altOf(n int) ast.OpcodeAlt {
	a := ast.OpcodeAlt{}
	for i := 0; i < n; i++ {
		a = append(a, ast.Opcode(itoa(i)+string([]byte{lower()})))
	}
	return a
}

// altForms are the forms of an operator with alternations.
const altForms = 8

func altOp(form, n int) ast.Op {
	c := ast.Opcode("P" + string([]byte{lower()}))
	switch form {
	case 0:
		return ast.OpcodeParts{altOf(n)}
	case 1:
		return ast.OpcodeParts{c, altOf(n)}
	case 2:
		return ast.OpcodeParts{altOf(n), c}
	case 3:
		return ast.OpcodeParts{c, altOf(n), ast.Opcode("x")}
	case 4:
		return ast.OpcodeParts{altOf(n), altOf(n)}
	case 5:
		return ast.OpcodeParts{c, altOf(n), ast.Opcode("to"), altOf(n)}
	case 6:
		return ast.OpcodeParts{altOf(n), c, altOf(n), altOf(n)}
	}
	return c
}

// decorate sets the given features of an S-expression.
func decorate(s *ast.SExpr, bits int) *ast.SExpr {
	if bits&1 != 0 {
		s.Binding = "b"
	}
	if bits&2 != 0 {
		s.Type = "t"
	}
	if bits&4 != 0 {
		s.AuxInt = goExpr("c-1")
	}
	if bits&8 != 0 {
		s.Aux = goExpr("s.f")
	}
	if bits&16 != 0 {
		s.Ellipsis = true
	}
	if bits&32 != 0 {
		s.Trailing = true
	}
	return s
}

// C11Op: one operator of every form, on either side or both; arg = entries.
func C11Op(arg int) {
	r := &ast.Rule{Match: ast.Variable("m"), Result: ast.Variable("r")}
	side := nd.Choose(3)
	if side != 1 {
		r.Match = &ast.SExpr{Op: altOp(nd.Choose(altForms), arg), Args: []ast.Value{ast.Variable("x"), ast.Placeholder, goExpr("f(x)")}}
	}
	if side != 0 {
		r.Result = &ast.SExpr{Op: altOp(nd.Choose(altForms), arg), Args: []ast.Value{ast.Variable("y")}}
	}
	checkExpansion(&ast.File{Rules: []*ast.Rule{r}})
}

// skeleton is a rule with six operators: match (0 (1 (2 x)) y (3)), result (4 (5) z).
func skeleton(op func(i int) ast.Op) *ast.Rule {
	n2 := &ast.SExpr{Op: op(2), Args: []ast.Value{ast.Variable("x")}}
	n1 := &ast.SExpr{Op: op(1), Args: []ast.Value{n2}}
	n3 := &ast.SExpr{Op: op(3)}
	n0 := &ast.SExpr{Op: op(0), Args: []ast.Value{n1, ast.Variable("y"), n3}}
	n5 := &ast.SExpr{Op: op(5)}
	n4 := &ast.SExpr{Op: op(4), Args: []ast.Value{n5, ast.Variable("z")}}
	return &ast.Rule{Match: n0, Condition: goExpr("p(x)"), Block: "k", Result: n4}
}

// C11Places: alternations at any of six places; arg = entries.
func C11Places(arg int) {
	checkExpansion(&ast.File{Rules: []*ast.Rule{skeleton(func(i int) ast.Op {
		if nd.Choose(2) == 1 {
			return ast.OpcodeParts{ast.Opcode("O" + itoa(i)), altOf(arg)}
		}
		return ast.Opcode("O" + itoa(i))
	})}})
}

// C11Forms: two operators of any form at any two of the six places; arg = entries.
func C11Forms(arg int) {
	a := nd.Choose(6)
	b := nd.Choose(6)
	checkExpansion(&ast.File{Rules: []*ast.Rule{skeleton(func(i int) ast.Op {
		if i == a || i == b {
			return altOp(nd.Choose(altForms), arg)
		}
		return ast.Opcode("O" + itoa(i))
	})}})
}

// C11Extras: features on one of the nodes around an alternation; arg = place of the alternation (match root, nested, result root, nested).
func C11Extras(arg int) {
	at := func(i int) ast.Op {
		if i == arg {
			return altOp(1, 2)
		}
		return ast.Opcode("O" + itoa(i))
	}
	in := &ast.SExpr{Op: at(1), Args: []ast.Value{ast.Variable("x")}}
	m := &ast.SExpr{Op: at(0), Args: []ast.Value{ast.Variable("w"), in, ast.Placeholder, goExpr("g(x)")}}
	in2 := &ast.SExpr{Op: at(3)}
	res := &ast.SExpr{Op: at(2), Args: []ast.Value{in2, ast.Variable("x")}}
	node := []*ast.SExpr{m, in, res, in2}[nd.Choose(4)]
	decorate(node, nd.Choose(64))
	r := &ast.Rule{Match: m, Result: res}
	if nd.Choose(2) == 1 {
		r.Condition = goExpr("p(x) && q")
	}
	if nd.Choose(2) == 1 {
		r.Block = "b.Pos"
	}
	checkExpansion(&ast.File{Rules: []*ast.Rule{r}})
}

// C11Args: argument lists of up to arg arguments of any kind, some with alternations.
func C11Args(arg int) {
	s := &ast.SExpr{Op: altOp(nd.Choose(2)*7, 2)}
	n := nd.Choose(arg + 1)
	for i := 0; i < n; i++ {
		switch k := nd.Choose(6); k {
		case 5:
			s.Args = append(s.Args, &ast.SExpr{Op: altOp(0, 2), Args: []ast.Value{ast.Variable(name("u"))}})
		default:
			s.Args = append(s.Args, argKind(k, itoa(i)))
		}
	}
	r := &ast.Rule{Match: s, Result: &ast.SExpr{Op: ast.Opcode("R")}}
	if nd.Choose(2) == 1 {
		r.Match, r.Result = r.Result, r.Match
	}
	checkExpansion(&ast.File{Rules: []*ast.Rule{r}})
}

// C11Rules: files of up to arg rules, each with alternations of 2 or 3 entries or none.
func C11Rules(arg int) {
	f := &ast.File{}
	n := nd.Choose(arg + 1)
	for i := 0; i < n; i++ {
		w := nd.Choose(3) + 1
		var op ast.Op = ast.Opcode("M" + itoa(i))
		if w > 1 {
			op = ast.OpcodeParts{ast.Opcode("M" + itoa(i)), altOf(w)}
		}
		f.Rules = append(f.Rules, &ast.Rule{Match: &ast.SExpr{Op: op}, Result: ast.Variable(name("r"))})
	}
	checkExpansion(f)
}

// C11Deep: an alternation at the bottom of arg nested values, on the match or result side, at any argument position.
func C11Deep(arg int) {
	var v ast.Value = &ast.SExpr{Op: altOp(1, 3)}
	for i := 0; i < arg; i++ {
		s := &ast.SExpr{Op: ast.Opcode("D" + itoa(i))}
		switch nd.Choose(3) {
		case 0:
			s.Args = []ast.Value{v}
		case 1:
			s.Args = []ast.Value{ast.Variable("a"), v}
		case 2:
			s.Args = []ast.Value{v, ast.Variable("a")}
		}
		v = s
	}
	r := &ast.Rule{Match: v, Result: ast.Variable("q")}
	if nd.Choose(2) == 1 {
		r.Match, r.Result = r.Result, r.Match
	}
	checkExpansion(&ast.File{Rules: []*ast.Rule{r}})
}

// C11Wide: one operator with arg entries.
func C11Wide(arg int) {
	a := ast.OpcodeAlt{}
	for i := 0; i < arg; i++ {
		a = append(a, ast.Opcode("E"+itoa(i)))
	}
	a[nd.Choose(arg)] = ast.Opcode("S" + string([]byte{lower()}))
	r := &ast.Rule{Match: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("W"), a}}, Result: &ast.SExpr{Op: ast.OpcodeParts{a}}}
	checkExpansion(&ast.File{Rules: []*ast.Rule{r}})
}
