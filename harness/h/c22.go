package h

import (
	goast "go/ast"
	gotoken "go/token"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/printer"
)

// badGo is a missing Go expression or one of a form the printer does not know.
func badGo(k int) goast.Expr {
	x := &goast.Ident{Name: "x"}
	switch k {
	case 0:
		return nil
	case 1:
		return &goast.IndexExpr{X: x, Index: x}
	case 2:
		return &goast.SliceExpr{X: x}
	case 3:
		return &goast.CompositeLit{Type: x}
	case 4:
		return &goast.FuncLit{Type: &goast.FuncType{Params: &goast.FieldList{}}, Body: &goast.BlockStmt{}}
	case 5:
		return &goast.TypeAssertExpr{X: x, Type: x}
	case 6:
		return &goast.KeyValueExpr{Key: x, Value: x}
	case 7:
		return &goast.ArrayType{Elt: x}
	case 8:
		return &goast.MapType{Key: x, Value: x}
	case 9:
		return &goast.ChanType{Dir: goast.SEND, Value: x}
	case 10:
		return &goast.StructType{Fields: &goast.FieldList{}}
	case 11:
		return &goast.InterfaceType{Methods: &goast.FieldList{}}
	case 12:
		return &goast.FuncType{Params: &goast.FieldList{}}
	case 13:
		return &goast.Ellipsis{Elt: x}
	case 14:
		return &goast.BadExpr{}
	case 15:
		return &goast.IndexListExpr{X: x, Indices: []goast.Expr{x, x}}
	}
	return oddExpr{x}
}

type oddExpr struct{ goast.Expr }

const badGos = 17

// goAround puts e somewhere into a Go expression of the supported forms, up to depth levels down.
func goAround(e goast.Expr, depth int) goast.Expr {
	if depth == 0 {
		return e
	}
	x := &goast.Ident{Name: "x"}
	switch nd.Choose(10) {
	case 0:
		e = &goast.ParenExpr{X: e}
	case 1:
		e = &goast.UnaryExpr{Op: gotoken.SUB, X: e}
	case 2:
		e = &goast.BinaryExpr{X: e, Op: gotoken.ADD, Y: x}
	case 3:
		e = &goast.BinaryExpr{X: x, Op: gotoken.LAND, Y: e}
	case 4:
		e = &goast.CallExpr{Fun: e}
	case 5:
		e = &goast.CallExpr{Fun: x, Args: []goast.Expr{e, x}}
	case 6:
		e = &goast.CallExpr{Fun: x, Args: []goast.Expr{x, x, e}, Ellipsis: 1}
	case 7:
		e = &goast.StarExpr{X: e}
	case 8:
		e = &goast.SelectorExpr{X: e, Sel: x}
	case 9:
		e = &goast.BinaryExpr{X: x, Op: gotoken.QUO, Y: e}
	}
	return goAround(e, depth-1)
}

func unprintable(n ast.Node, what string) {
	b, err := printer.Bytes(n)
	nd.Assert(err != nil, "printed a tree with "+what+" as "+string(b))
	nd.Assert(b == nil, "an error and a text for a tree with "+what)
	w := &faultWriter{failAt: -1}
	err = printer.Fprint(w, n)
	nd.Assert(err != nil, "printed a tree with "+what+" as "+string(w.got))
	nd.Reach("refused")
}

// placeExpr puts an expression into a rule, at any place for one.
func placeExpr(e *ast.Expr) *ast.Rule {
	in := &ast.SExpr{Op: ast.Opcode("In"), Args: []ast.Value{ast.Variable("i")}}
	m := &ast.SExpr{Op: ast.Opcode("M"), Args: []ast.Value{ast.Variable("x"), in}}
	o := &ast.SExpr{Op: ast.Opcode("O"), Args: []ast.Value{ast.Variable("y")}}
	r := &ast.Rule{Match: m, Result: o}
	s := []*ast.SExpr{m, in, o}[nd.Choose(3)]
	switch nd.Choose(7) {
	case 0:
		r.Condition = e
	case 1:
		s.AuxInt = e
	case 2:
		s.Aux = e
	case 3:
		s.Args[0] = e
	case 4:
		s.Args = append(s.Args, e)
	case 5:
		r.Result = e
	case 6:
		r.Match = e
	}
	return r
}

// C22Go: an unprintable Go expression at any place of a rule, arg levels inside a Go expression.
func C22Go(arg int) {
	k := nd.Choose(badGos)
	unprintable(placeExpr(&ast.Expr{Expr: goAround(badGo(k), arg)}), "an unprintable Go expression")
}

// C22GoDeep: an unprintable Go expression arg levels inside one.
func C22GoDeep(arg int) {
	e := &ast.Expr{Expr: goAround(badGo(nd.Choose(2)), arg)}
	unprintable(e, "an unprintable Go expression")
}

// C22Value: a missing or unknown value, at any place for one; around it a well-formed tree with alternations and markers.
func C22Value(arg int) {
	var bad ast.Value
	if nd.Choose(2) == 1 {
		bad = oddValue{ast.Variable("x")}
	}
	in := decorate(&ast.SExpr{Op: ast.Opcode("In"), Args: []ast.Value{ast.Variable("i")}}, arg)
	m := &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("M"), ast.OpcodeAlt{"8", "16"}}, Args: []ast.Value{ast.Variable("x"), in}}
	o := decorate(&ast.SExpr{Op: ast.Opcode("O"), Args: []ast.Value{ast.Variable("y")}}, arg)
	r := &ast.Rule{Match: m, Condition: goExpr("p(x)"), Result: o}
	s := []*ast.SExpr{m, in, o}[nd.Choose(3)]
	var node ast.Node = r
	switch nd.Choose(6) {
	case 0:
		r.Match = bad
	case 1:
		r.Result = bad
	case 2:
		s.Args[0] = bad
	case 3:
		s.Args = append(s.Args, bad)
	case 4:
		s.Args = append([]ast.Value{bad}, s.Args...)
	case 5:
		s.Args = []ast.Value{bad}
	}
	unprintable(node, "a missing value")
	rules := []*ast.Rule{{Match: ast.Variable("a"), Result: ast.Variable("b")}, r, {Match: ast.Variable("c"), Result: ast.Variable("d")}}
	k := nd.Choose(3)
	rules[1], rules[k] = rules[k], rules[1]
	unprintable(&ast.File{Rules: rules}, "a missing value")
}

// C22Op: a missing or unknown operator or part of one, at any operator; arg = features of the nodes.
func C22Op(arg int) {
	var op ast.Op
	switch nd.Choose(8) {
	case 0:
	case 1:
		op = oddOp{ast.Opcode("A")}
	case 2:
		op = ast.OpcodeParts{nil}
	case 3:
		op = ast.OpcodeParts{ast.Opcode("A"), nil}
	case 4:
		op = ast.OpcodeParts{nil, ast.OpcodeAlt{"8", "16"}}
	case 5:
		op = ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"8", "16"}, oddPart{ast.Opcode("B")}}
	case 6:
		op = ast.OpcodeParts{oddPart{ast.OpcodeAlt{"8", "16"}}, ast.Opcode("B")}
	case 7:
		op = ast.OpcodeParts{ast.OpcodeAlt{"8", "16"}, nil, ast.Opcode("B")}
	}
	place := nd.Choose(6)
	r := skeleton(func(i int) ast.Op {
		if i == place {
			return op
		}
		return ast.Opcode("O" + itoa(i))
	})
	decorate(r.Match.(*ast.SExpr), arg)
	unprintable(r, "a missing operator")
	if place < 4 {
		unprintable(r.Match, "a missing operator")
	} else {
		unprintable(r.Result, "a missing operator")
	}
}

// C22Root: the root itself is missing or unknown.
func C22Root(arg int) {
	switch nd.Choose(6) {
	case 0:
		unprintable(nil, "nothing in it")
	case 1:
		unprintable(oddValue{ast.Variable("x")}, "an unknown root")
	case 2:
		unprintable(&ast.Expr{}, "a missing Go expression")
	case 3:
		unprintable(&ast.SExpr{}, "a missing operator")
	case 4:
		unprintable(&ast.Rule{}, "missing values")
	case 5:
		unprintable(oddNode{&ast.File{}}, "an unknown root")
	}
}

type oddNode struct{ ast.Node }
