package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/rules"
)

var predicates = []struct {
	name string
	fn   func(*ast.Rule) bool
}{
	{"binding", rules.HasBinding}, {"type", rules.HasType}, {"auxint", rules.HasAuxInt}, {"aux", rules.HasAux}, {"ellipsis", rules.HasEllipsis}, {"trailing", rules.HasTrailing},
}

// setFeature gives a node feature k exactly when on; on may be symbolic.
func setFeature(s *ast.SExpr, k int, on bool) {
	switch k {
	case 0:
		if on {
			s.Binding = "b"
		}
	case 1:
		if on {
			s.Type = "t"
		}
	case 2:
		if on {
			s.AuxInt = goExpr("1")
		}
	case 3:
		if on {
			s.Aux = goExpr("s")
		}
	case 4:
		s.Ellipsis = on
	case 5:
		s.Trailing = on
	}
}

// featureRule is a rule with nodes at several depths on both sides.
func featureRule(shape int) (*ast.Rule, []*ast.SExpr) {
	n := make([]*ast.SExpr, 6)
	for i := range n {
		n[i] = &ast.SExpr{Op: ast.Opcode("O" + itoa(i))}
	}
	switch shape {
	case 0:
		n[2].Args = []ast.Value{ast.Variable("x")}
		n[1].Args = []ast.Value{ast.Variable("y"), n[2]}
		n[0].Args = []ast.Value{n[1], goExpr("f(x)"), n[3]}
		n[4].Args = []ast.Value{ast.Placeholder, n[5]}
		return &ast.Rule{Match: n[0], Result: n[4]}, n
	case 1:
		n[0].Op = ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"8", "16"}}
		n[0].Args = []ast.Value{n[1]}
		n[1].Op = ast.OpcodeParts{ast.OpcodeAlt{"8", "16"}, ast.Opcode("A")}
		n[1].Args = []ast.Value{n[2], n[3]}
		n[3].Args = []ast.Value{n[4]}
		return &ast.Rule{Match: n[0], Condition: goExpr("p(x)"), Block: "b", Result: ast.Variable("x")}, n[:5]
	case 2:
		n[0].Args = []ast.Value{ast.Variable("b"), n[1], ast.Variable("t")}
		n[1].Args = []ast.Value{n[2], n[3], n[4]}
		return &ast.Rule{Match: ast.Variable("x"), Condition: goExpr("t"), Result: n[0]}, n[:5]
	}
	return &ast.Rule{Match: ast.Variable("x"), Condition: goExpr("x == 1"), Block: "b", Result: goExpr("f(x, ___)")}, nil
}

// C15Subsets: feature at any subset of the nodes, with every other feature nowhere; arg = shape + 10*feature.
func C15Subsets(arg int) {
	r, ns := featureRule(arg % 10)
	k := arg / 10
	want := false
	for _, s := range ns {
		on := nd.Bool()
		setFeature(s, k, on)
		if on {
			want = true
		}
	}
	for i, p := range predicates {
		w := want && i == k
		nd.Assert(p.fn(r) == w, "predicate "+p.name+" is wrong about "+dumpRule(r))
	}
	nd.Reach("asked")
}

// C15Others: feature at any subset of the nodes, every other feature at every node; arg = shape + 10*feature.
func C15Others(arg int) {
	r, ns := featureRule(arg % 10)
	k := arg / 10
	want := false
	for _, s := range ns {
		for j := range predicates {
			if j != k {
				setFeature(s, j, true)
			}
		}
		on := nd.Bool()
		setFeature(s, k, on)
		if on {
			want = true
		}
	}
	for i, p := range predicates {
		w := want || i != k && len(ns) > 0
		nd.Assert(p.fn(r) == w, "predicate "+p.name+" is wrong about "+dumpRule(r))
	}
	nd.Reach("asked")
}

// C15Two: any two features at any two nodes; arg = shape.
func C15Two(arg int) {
	r, ns := featureRule(arg)
	if len(ns) == 0 {
		return
	}
	a := nd.Choose(len(ns))
	b := nd.Choose(len(ns))
	i := nd.Choose(len(predicates))
	j := nd.Choose(len(predicates))
	setFeature(ns[a], i, true)
	setFeature(ns[b], j, true)
	for k, p := range predicates {
		nd.Assert(p.fn(r) == (k == i || k == j), "predicate "+p.name+" is wrong about "+dumpRule(r))
	}
}

// C15Texts: features whose text is symbolic or looks like something else.
func C15Texts(arg int) {
	s := &ast.SExpr{Op: ast.Opcode("A"), Args: []ast.Value{ast.Variable("x")}}
	r := &ast.Rule{Match: &ast.SExpr{Op: ast.Opcode("O"), Args: []ast.Value{s}}, Result: ast.Variable("x")}
	if arg&1 != 0 {
		r.Match, r.Result = r.Result, r.Match
	}
	k := nd.Choose(8)
	want := -1
	text := []byte{nd.Byte()}
	for i := nd.Choose(3); i > 0; i-- {
		text = append(text, nd.Byte())
	}
	switch k {
	case 0:
		s.Binding = ast.Variable(text)
		want = 0
	case 1:
		s.Type = ast.Type(text)
		want = 1
	case 2:
		s.AuxInt = anyGoExpr(string(text))
		want = 2
	case 3:
		s.Aux = anyGoExpr(string(text))
		want = 3
	case 4:
		s.Op = ast.Opcode([]byte{nd.Byte()})
	case 5:
		s.Args[0] = ast.Variable([]byte{nd.Byte(), nd.Byte(), nd.Byte()})
	case 6:
		s.Args[0] = goExpr("f(x...)")
	case 7:
		r.Block = string([]byte{nd.Byte(), nd.Byte()})
		r.Condition = goExpr("x")
	}
	for i, p := range predicates {
		nd.Assert(p.fn(r) == (i == want), "predicate "+p.name+" is wrong about "+dumpRule(r))
	}
}

// C15Deep: one feature at the bottom of arg nested values, at any argument position.
func C15Deep(arg int) {
	k := nd.Choose(len(predicates))
	bottom := &ast.SExpr{Op: ast.Opcode("Bot")}
	on := nd.Bool()
	setFeature(bottom, k, on)
	var v ast.Value = bottom
	for i := 0; i < arg; i++ {
		s := &ast.SExpr{Op: ast.Opcode("D")}
		switch nd.Choose(3) {
		case 0:
			s.Args = []ast.Value{v}
		case 1:
			s.Args = []ast.Value{ast.Variable("a"), v, goExpr("g(a)")}
		case 2:
			s.Args = []ast.Value{v, &ast.SExpr{Op: ast.Opcode("E")}}
		}
		v = s
	}
	r := &ast.Rule{Match: v, Result: ast.Variable("q")}
	if nd.Choose(2) == 1 {
		r.Match, r.Result = r.Result, r.Match
	}
	for i, p := range predicates {
		nd.Assert(p.fn(r) == (on && i == k), "predicate "+p.name+" is wrong about "+dumpRule(r))
	}
}
