package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
)

// Traversal order, stated here on its own.

// visit is a node with its depth below the root.
type visit struct {
	n     ast.Node
	depth int
}

// preorder lists the nodes under n; stop tells whether the subtree below the k-th listed node is left out.
func preorder(n ast.Node, depth int, stop func(k int) bool, out []visit) []visit {
	k := len(out)
	out = append(out, visit{n, depth})
	if stop(k) {
		return out
	}
	var kids []ast.Node
	switch n := n.(type) {
	case *ast.File:
		for _, r := range n.Rules {
			kids = append(kids, r)
		}
	case *ast.Rule:
		kids = append(kids, n.Match, n.Result)
	case *ast.SExpr:
		kids = append(kids, n.Op)
		for _, a := range n.Args {
			kids = append(kids, a)
		}
	case ast.OpcodeParts:
		for _, p := range n {
			kids = append(kids, p)
		}
	}
	for _, c := range kids {
		out = preorder(c, depth+1, stop, out)
	}
	return out
}

// label names a node; the trees below use every name once.
func label(n ast.Node) string {
	switch n := n.(type) {
	case nil:
		return "nil"
	case *ast.File:
		return "file"
	case *ast.Rule:
		return dumpRule(n)
	case ast.Op:
		return dumpOp(n)
	case ast.OpPart:
		return dumpPart(n)
	case ast.Value:
		return dumpValue(n)
	}
	return "?"
}

func same(a, b ast.Node) bool {
	switch a := a.(type) {
	case *ast.File:
		b, ok := b.(*ast.File)
		return ok && a == b
	case *ast.Rule:
		b, ok := b.(*ast.Rule)
		return ok && a == b
	case *ast.SExpr:
		b, ok := b.(*ast.SExpr)
		return ok && a == b
	case *ast.Expr:
		b, ok := b.(*ast.Expr)
		return ok && a == b
	case ast.Variable:
		b, ok := b.(ast.Variable)
		return ok && a == b
	case ast.Opcode:
		b, ok := b.(ast.Opcode)
		return ok && a == b
	case ast.OpcodeAlt:
		b, ok := b.(ast.OpcodeAlt)
		return ok && dumpPart(a) == dumpPart(b)
	case ast.OpcodeParts:
		b, ok := b.(ast.OpcodeParts)
		return ok && dumpOp(a) == dumpOp(b)
	}
	return false
}

func listing(vs []visit) string {
	s := ""
	for _, v := range vs {
		s += itoa(v.depth) + ":" + label(v.n) + " "
	}
	return s
}

// excerpt lists a few visits from the k-th on.
func excerpt(vs []visit, k int) string {
	s := ""
	if k > 0 {
		s = itoa(k) + " nodes, then "
	}
	for i := k; i < len(vs) && i < k+12; i++ {
		l := label(vs[i].n)
		if len(l) > 200 {
			l = l[:200] + "…"
		}
		s += itoa(vs[i].depth) + ":" + l + " "
	}
	if len(vs) > k+12 {
		s += "and " + itoa(len(vs)-k-12) + " more"
	}
	return s
}

// recorder is a visitor that counts depth and declines the visits stop names.
type recorder struct {
	log   *[]visit
	depth int
	stop  func(k int) bool
}

func (r recorder) Visit(n ast.Node) ast.Visitor {
	k := len(*r.log)
	*r.log = append(*r.log, visit{n, r.depth})
	if r.stop(k) {
		return nil
	}
	return recorder{r.log, r.depth + 1, r.stop}
}

func sameVisits(got, want []visit, depths bool, what string) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = same(got[i].n, want[i].n) && (!depths || got[i].depth == want[i].depth)
	}
	if !ok {
		k := 0
		for k < len(got) && k < len(want) && same(got[k].n, want[k].n) && (!depths || got[k].depth == want[k].depth) {
			k++
		}
		nd.Assert(false, what+" visited "+excerpt(got, k)+" instead of "+excerpt(want, k))
	}
}

// walkNode are trees of every kind, with every node different.
func walkNode(k int) ast.Node {
	leafs := &ast.SExpr{Binding: "bind", Op: ast.OpcodeParts{ast.Opcode("Pre" + string([]byte{lower()})), ast.OpcodeAlt{"8", "16"}, ast.Opcode("post")}, Type: "t", AuxInt: goExpr("c"), Aux: goExpr("s"),
		Args: []ast.Value{ast.Variable(name("x")), ast.Placeholder, goExpr("f(x)"), &ast.SExpr{Op: ast.Opcode("Leaf")}, ast.Variable("last")}, Ellipsis: true, Trailing: true}
	rule := &ast.Rule{Match: leafs, Condition: goExpr("p(q)"), Block: "blk", Result: &ast.SExpr{Op: ast.Opcode("Res"), Args: []ast.Value{ast.Variable("y")}}}
	switch k {
	case 0:
		return rule
	case 1:
		return &ast.File{Rules: []*ast.Rule{{Match: ast.Variable("a"), Result: ast.Variable("b")}, {Match: &ast.SExpr{Op: ast.Opcode("C")}, Condition: goExpr("d"), Result: goExpr("e()")}, {Match: ast.Placeholder, Result: ast.Variable("g")}}}
	case 2:
		return leafs
	case 3:
		return ast.OpcodeParts{ast.OpcodeAlt{"A", "B"}, ast.Opcode("c"), ast.OpcodeAlt{"D", "E"}}
	case 4:
		return ast.Opcode("Single")
	case 5:
		return ast.OpcodeAlt{"A", "B"}
	case 6:
		return goExpr("f(x, y)")
	case 7:
		return ast.Variable("v")
	case 8:
		return &ast.File{}
	case 9:
		// nested on both sides
		return &ast.Rule{Match: &ast.SExpr{Op: ast.Opcode("A"), Args: []ast.Value{&ast.SExpr{Op: ast.Opcode("B"), Args: []ast.Value{&ast.SExpr{Op: ast.Opcode("C"), Args: []ast.Value{ast.Variable("d")}}}}, ast.Variable("e")}},
			Result: &ast.SExpr{Op: ast.OpcodeParts{ast.OpcodeAlt{"F", "G"}}, Args: []ast.Value{&ast.SExpr{Op: ast.Opcode("H")}}}}
	}
	return &ast.Rule{Match: ast.Variable("x"), Result: goExpr("g(x)")}
}

// declines is a pattern of declining visits: whether visit k declines is symbolic, the same for both traversals.
type declines struct{ bits []bool }

func (d *declines) stop(k int) bool {
	for len(d.bits) <= k {
		d.bits = append(d.bits, nd.Bool())
	}
	return d.bits[k]
}

// C14Walk: every pattern of declining visits; arg = tree.
func C14Walk(arg int) {
	root := walkNode(arg)
	d := &declines{}
	want := preorder(root, 0, d.stop, nil)
	var got []visit
	ast.Walk(recorder{&got, 0, d.stop}, root)
	nd.Observe("visits", listing(got))
	sameVisits(got, want, true, "Walk")
	nd.Reach("walked")
}

// C14Inspect: likewise for Inspect.
func C14Inspect(arg int) {
	root := walkNode(arg)
	d := &declines{}
	want := preorder(root, 0, d.stop, nil)
	var got []visit
	ast.Inspect(root, func(n ast.Node) bool {
		k := len(got)
		got = append(got, visit{n, 0})
		return !d.stop(k)
	})
	sameVisits(got, want, false, "Inspect")
	nd.Reach("walked")
}

func never(int) bool { return false }

// C14Contains: a predicate satisfied by any subset of the nodes; arg = tree.
func C14Contains(arg int) {
	root := walkNode(arg)
	all := preorder(root, 0, never, nil)
	hit := make([]bool, len(all))
	want := false
	for i := range hit {
		hit[i] = nd.Bool()
		if hit[i] {
			want = true
		}
	}
	got := ast.Contains(root, func(n ast.Node) bool {
		for i, v := range all {
			if same(n, v.n) {
				return hit[i]
			}
		}
		nd.Assert(false, "Contains asked about "+label(n)+", which is no node of the tree")
		return false
	})
	if got != want {
		nd.Assert(false, "Contains is wrong about "+listing(all))
	}
	nd.Reach("asked")
}

// C14Shapes: any shape of tree up to depth arg, visited in full.
func C14Shapes(arg int) {
	n := 0
	var value func(depth int) ast.Value
	fresh := func() string { n++; return "n" + itoa(n) }
	value = func(depth int) ast.Value {
		k := 4
		if depth == 0 {
			k = 2
		}
		switch nd.Choose(k) {
		case 0:
			return ast.Variable(fresh())
		case 1:
			return goExpr("f(" + fresh() + ")")
		case 2:
			s := &ast.SExpr{Op: ast.Opcode(fresh())}
			for i := nd.Choose(3); i > 0; i-- {
				s.Args = append(s.Args, value(depth-1))
			}
			return s
		}
		s := &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode(fresh()), ast.OpcodeAlt{ast.Opcode(fresh()), "z"}}}
		for i := nd.Choose(3); i > 0; i-- {
			s.Args = append(s.Args, value(depth-1))
		}
		return s
	}
	r := &ast.Rule{Match: value(arg), Result: value(0)}
	if nd.Choose(2) == 1 {
		r.Match, r.Result = r.Result, r.Match
	}
	f := &ast.File{Rules: []*ast.Rule{{Match: ast.Variable("first"), Result: ast.Variable("second")}, r}}
	want := preorder(f, 0, never, nil)
	var got []visit
	ast.Walk(recorder{&got, 0, never}, f)
	sameVisits(got, want, true, "Walk")
}
