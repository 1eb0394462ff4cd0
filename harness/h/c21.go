package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// An operation of the library on one of its inputs; inputs are made anew for every call.
// It gives everything observable about the result; the first argument selects the operation.

const opKinds = 5

var parseTexts = []string{
	"(Add8 x y) => (Sub8 y x)\n(Neg8 x) => x",
	"(Add8 y x) => (Sub8 y x)\n(Neg8 y) => x", // as long as the first
	"v:(A(8|16) <t> [c] {s} x ...) && p(x) => @b (B(8|16) x)",
	"(Add8 x y) => (Sub8 y x",
	"(A [f(] x) => x",
	"",
	"// c",
	"(A x) && q(y) => x\xff",
	"(A <\xff> x) => x // \xfe",
}

func treeOf(k int) *ast.Rule {
	x, y := ast.Variable("x"), ast.Variable("y")
	switch k {
	case 0:
		return &ast.Rule{Match: call("Add8", x, y), Result: call("Sub8", y, ast.Placeholder)}
	case 1:
		return &ast.Rule{Match: call("Add8", y, x), Result: call("Neg8", ast.Placeholder)}
	case 2:
		return &ast.Rule{Match: call("AndB", x, y), Result: call("Not", x)}
	case 3:
		return &ast.Rule{Match: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("Com"), ast.OpcodeAlt{"8", "16"}}, Args: []ast.Value{x}}, Result: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("Neg"), ast.OpcodeAlt{"8", "16"}}, Args: []ast.Value{x}}}
	case 4:
		return &ast.Rule{Match: &ast.SExpr{Op: ast.OpcodeParts{ast.OpcodeAlt{"A", "B"}}, Args: []ast.Value{x}}, Result: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("C"), ast.OpcodeAlt{"1", "2", "3"}}}}
	case 5:
		return &ast.Rule{Match: decorate(&ast.SExpr{Op: ast.Opcode("F"), Args: []ast.Value{x, goExpr("f(x)")}}, 63), Condition: goExpr("-x"), Block: "b", Result: x}
	case 6:
		return &ast.Rule{Match: &ast.SExpr{Op: ast.Opcode("F"), Args: []ast.Value{nil}}, Result: x}
	}
	return &ast.Rule{Match: call("Add16", call("Foo", x)), Result: nil}
}

const trees = 8

func inputs(kind int) int {
	if kind == 0 {
		return len(parseTexts)
	}
	return trees
}

func perform(kind, k int) string {
	if kind == 0 {
		f, err := parse.String(parseTexts[k])
		if err != nil {
			nd.Assert(!refParse(parseTexts[k]).ok, "parsing "+parseTexts[k]+" failed: "+err.Error())
			return "error " + err.Error()
		}
		nd.Assert(dumpFile(f) == refParse(parseTexts[k]).dump(), "parsed "+parseTexts[k]+" as "+dumpFile(f))
		return dumpFile(f)
	}
	r := treeOf(k)
	was := dumpRule(r)
	res := ""
	switch kind {
	case 1:
		b, err := printer.Bytes(r)
		if err != nil {
			nd.Assert(k >= 6, "cannot print "+was)
			return "error " + err.Error()
		}
		nd.Assert(k < 6, "printed a tree with a missing part")
		res = string(b)
		nd.Assert(refParse(res).dump() == "F1{"+was+"}", "printed "+was+" as "+res)
	case 2:
		f := &ast.File{Rules: []*ast.Rule{r}}
		err := pass.ExpandAlternates(f)
		if err != nil {
			nd.Assert(k == 4 || k >= 6, "cannot expand "+was)
			res = "error " + err.Error()
		} else {
			want, ok := expanded(r)
			nd.Assert(ok && k < 6 && len(want) == len(f.Rules), "expanded "+was+" to "+dumpFile(f))
			for i, x := range f.Rules {
				nd.Assert(dumpRule(x) == want[i], "expanded "+was+" to "+dumpFile(f))
			}
			res = dumpFile(f)
		}
	case 3:
		if k >= 6 {
			return ""
		}
		for _, p := range predicates {
			v := p.fn(r)
			nd.Assert(v == (k == 5), "predicate "+p.name+" is wrong about "+was)
			if v {
				res += "+"
			} else {
				res += "-"
			}
		}
	case 4:
		b, err := smt2.Generate(r)
		if err != nil {
			nd.Assert(k > 2, "no script for "+was+": "+err.Error())
			return "error " + err.Error()
		}
		nd.Assert(k < 3, "a script for "+was)
		res = string(b)
		ref, m := refScript(r)
		sameConstants(checkScript(res), m, res)
		nd.Assert(nd.Solve(res) == nd.Solve(ref), "the script for "+was+" has the wrong verdict")
	}
	nd.Assert(dumpRule(r) == was, "the tree "+was+" became "+dumpRule(r))
	return res
}

// C21History: arg operations on any inputs, then the first again: it gives what it gave; all give what they should.
// Map iteration order is open.
func C21History(arg int) {
	nd.MapOrder(true)
	k0 := nd.Choose(opKinds)
	i0 := nd.Choose(inputs(k0))
	first := perform(k0, i0)
	for n := 0; n < arg; n++ {
		k := nd.Choose(opKinds)
		perform(k, nd.Choose(inputs(k)))
	}
	again := perform(k0, i0)
	nd.Assert(again == first, "the same call gave "+first+" first and "+again+" after others")
	nd.Observe("result", first)
}

// C21Same: the same operation on one input and then another, twice over; arg = operation.
// Map iteration order is open in one of the calls on each.
func C21Same(arg int) {
	i := nd.Choose(inputs(arg))
	j := nd.Choose(inputs(arg))
	a := perform(arg, i)
	nd.MapOrder(arg > 0)
	b := perform(arg, j)
	nd.MapOrder(true)
	a2 := perform(arg, i)
	nd.MapOrder(arg > 0)
	a3 := perform(arg, i)
	nd.MapOrder(arg > 0 || i == j)
	b2 := perform(arg, j)
	nd.Assert(a == a2 && a2 == a3, "the same call gave "+a+", "+a2+" and "+a3)
	nd.Assert(b == b2, "the same call gave "+b+" and "+b2)
}

// C21Text: a text with a window of symbolic bytes between two readings of another; arg = base.
func C21Text(arg int) {
	text := window(bases[arg], 1, 1)
	other := parseTexts[nd.Choose(len(parseTexts))]
	f, err := parse.String(other)
	one, oneErr := dumpFile(f), err
	f, err = parse.String(text)
	agrees(text, f, err)
	mid, midErr := dumpFile(f), err
	f, err = parse.String(other)
	nd.Assert(dumpFile(f) == one && sameErr(err, oneErr), "reading "+other+" gave another result after "+text)
	f, err = parse.String(text)
	nd.Assert(dumpFile(f) == mid && sameErr(err, midErr), "reading "+text+" gave another result the second time")
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

// C21Intact: printing, predicates, traversal and generation leave a rich tree alone, whoever runs; arg = tree.
func C21Intact(arg int) {
	nd.MapOrder(true)
	n := walkNode(arg)
	was := label(n)
	if f, ok := n.(*ast.File); ok {
		was = dumpFile(f)
	}
	switch nd.Choose(4) {
	case 0:
		printer.Bytes(n)
	case 1:
		ast.Inspect(n, func(ast.Node) bool { return true })
	case 2:
		if r, ok := n.(*ast.Rule); ok {
			for _, p := range predicates {
				p.fn(r)
			}
		}
	case 3:
		if r, ok := n.(*ast.Rule); ok {
			smt2.Generate(r)
		}
	}
	is := label(n)
	if f, ok := n.(*ast.File); ok {
		is = dumpFile(f)
	}
	nd.Assert(is == was, "the tree "+was+" became "+is)
}

// C21Names: two rules with symbolic names generated one after the other, in either order: each script is the same
// as when it is generated again.
func C21Names(arg int) {
	nd.MapOrder(true)
	x := ast.Variable(identifier(arg))
	y := ast.Variable(identifier(arg))
	r := &ast.Rule{Match: call("Add8", x, y), Result: call("Sub8", ast.Placeholder, x)}
	s := &ast.Rule{Match: call("Not", y), Result: call("AndB", x, ast.Placeholder)}
	a, _ := smt2.Generate(r)
	b, _ := smt2.Generate(s)
	a2, _ := smt2.Generate(r)
	b2, _ := smt2.Generate(s)
	nd.Assert(string(a) == string(a2), "generated\n"+string(a)+"and then\n"+string(a2))
	nd.Assert(string(b) == string(b2), "generated\n"+string(b)+"and then\n"+string(b2))
	_, m := refScript(s)
	sameConstants(checkScript(string(b)), m, string(b))
}

// held is a result as the caller got it, and how to look at it again.
func held(kind, k int) func() string {
	if kind == 0 {
		f, err := parse.String(parseTexts[k])
		return func() string {
			if err != nil {
				return "error " + err.Error()
			}
			return dumpFile(f)
		}
	}
	r := treeOf(k)
	switch kind {
	case 1:
		b, err := printer.Bytes(r)
		return func() string {
			if err != nil {
				return "error " + err.Error()
			}
			return string(b)
		}
	case 2:
		f := &ast.File{Rules: []*ast.Rule{r}}
		err := pass.ExpandAlternates(f)
		return func() string {
			if err != nil {
				return "error " + err.Error()
			}
			return dumpFile(f)
		}
	}
	b, err := smt2.Generate(r)
	return func() string {
		if err != nil {
			return "error " + err.Error()
		}
		return string(b)
	}
}

// C21Kept: a result that the caller keeps stays as it is while arg other operations run, the same operation on
// other inputs included.
func C21Kept(arg int) {
	kinds := []int{0, 1, 2, 4}
	kind := kinds[nd.Choose(len(kinds))]
	look := held(kind, nd.Choose(inputs(kind)))
	was := look()
	for n := 0; n < arg; n++ {
		k := kinds[nd.Choose(len(kinds))]
		held(k, nd.Choose(inputs(k)))
	}
	nd.Assert(look() == was, "a result that was "+was+" has become "+look())
}

// C21Changed: a tree that its owner changes in place between two calls: the second call is about the changed tree;
// arg = operation.
func C21Changed(arg int) {
	r := treeOf(nd.Choose(6))
	see := func() string {
		switch arg {
		case 1:
			b, err := printer.Bytes(r)
			if err != nil {
				return "error"
			}
			return string(b)
		case 2:
			f := &ast.File{Rules: []*ast.Rule{r}}
			if pass.ExpandAlternates(f) != nil {
				return "error"
			}
			return dumpFile(f)
		case 3:
			s := ""
			for _, p := range predicates {
				if p.fn(r) {
					s += p.name + " "
				}
			}
			return s
		case 4:
			b, err := smt2.Generate(r)
			if err != nil {
				return "error"
			}
			return string(b)
		}
		s := ""
		ast.Inspect(r, func(n ast.Node) bool { s += label(n); return true })
		return s
	}
	see()
	m := r.Match.(*ast.SExpr)
	switch nd.Choose(9) {
	case 8:
		*m = ast.SExpr{Op: m.Op, Args: m.Args}
	case 0:
		m.Args = append(m.Args, ast.Variable("more"))
	case 1:
		m.Args[0] = ast.Variable("other")
	case 2:
		m.Op = ast.Opcode("Sub8")
	case 3:
		m.Op = ast.OpcodeParts{ast.Opcode("Sub"), ast.OpcodeAlt{"8", "16"}}
	case 4:
		decorate(m, 63)
	case 5:
		r.Condition = goExpr("z")
	case 6:
		r.Result = ast.Variable("z")
	case 7:
		*r = *treeOf(nd.Choose(6))
	}
	now := see()
	r = cloneRule(r)
	nd.Assert(now == see(), "after a change of the tree: "+now+", for an equal tree: "+see())
}

// cloneRule copies a rule down to its leaves.
func cloneRule(r *ast.Rule) *ast.Rule {
	c := *r
	c.Match, c.Result = cloneValue(r.Match), cloneValue(r.Result)
	return &c
}

func cloneValue(v ast.Value) ast.Value {
	switch v := v.(type) {
	case *ast.SExpr:
		c := *v
		c.Args = nil
		for _, a := range v.Args {
			c.Args = append(c.Args, cloneValue(a))
		}
		if p, ok := v.Op.(ast.OpcodeParts); ok {
			var q ast.OpcodeParts
			for _, x := range p {
				if alt, ok := x.(ast.OpcodeAlt); ok {
					x = append(ast.OpcodeAlt(nil), alt...)
				}
				q = append(q, x)
			}
			c.Op = q
		}
		return &c
	case *ast.Expr:
		return &ast.Expr{Expr: v.Expr}
	}
	return v
}

// C21After: something large or broken is processed first; arg tells what. Then any operation on any input gives what it should.
func C21After(arg int) {
	switch arg {
	case 0:
		// a long text
		text := ""
		for i := 0; i < 12; i++ {
			text += "long" + itoa(i) + ":(Averylongopcode(8|16|32|64) <t> [c+" + itoa(i) + "] {s} x (B y) ... ___) && f(x, y) && g(z) => @block" + itoa(i) + " (C x) // a comment that goes on for a while\n"
		}
		_, err := parse.String(text)
		nd.Assert(err == nil, "a long text is rejected")
	case 1:
		// a long text with an error at its end
		text := ""
		for i := 0; i < 12; i++ {
			text += "(Averylongopcode(8|16|32|64) x) => (C x)\n// \xc3\xa9\n"
		}
		_, err := parse.String(text + "(A")
		nd.Assert(err != nil, "a broken text is accepted")
	case 2:
		_, err := parse.Reader("other", &pieceReader{data: "(A x) => x\n(A [f(] x) => x", max: 1, failAt: 20, err: errRead})
		nd.Assert(err != nil, "a failed read is not reported")
	case 3:
		w := &faultWriter{failAt: 9}
		printer.Fprint(w, treeOf(5))
	case 4:
		// many variables, many placeholders, and an error after them
		var v ast.Value = ast.Variable("x")
		for i := 0; i < 12; i++ {
			v = call("Add8", call("Xor8", v, ast.Placeholder), ast.Variable("x"+itoa(i)))
		}
		smt2.Generate(&ast.Rule{Match: v, Result: call("Add8", ast.Variable("x"), goExpr("f(x)"))})
		smt2.Generate(&ast.Rule{Match: v, Result: v})
	case 5:
		var v ast.Value = ast.Variable("x")
		alt := ast.OpcodeAlt{}
		for i := 0; i < 12; i++ {
			alt = append(alt, ast.Opcode("O"+itoa(i)))
		}
		v = &ast.SExpr{Op: ast.OpcodeParts{alt, alt}, Args: []ast.Value{v, v, v}}
		f := &ast.File{Rules: []*ast.Rule{{Match: v, Result: v}, {Match: v, Result: treeOf(4).Match}}}
		pass.ExpandAlternates(f)
		pass.ExpandAlternates(&ast.File{Rules: f.Rules[:1]})
	case 6:
		// a traversal that is broken off
		ast.Contains(treeOf(5), func(n ast.Node) bool { _, ok := n.(ast.Op); return ok })
		func() {
			defer func() { recover() }()
			ast.Inspect(treeOf(5), func(n ast.Node) bool {
				if _, ok := n.(ast.Variable); ok {
					panic("enough")
				}
				return true
			})
		}()
	}
	kind := nd.Choose(opKinds)
	nd.Observe("result", perform(kind, nd.Choose(inputs(kind))))
}

// C21Repeat: any operation on any input arg times gives the same every time.
func C21Repeat(arg int) {
	kind := nd.Choose(opKinds)
	k := nd.Choose(inputs(kind))
	first := perform(kind, k)
	for i := 1; i < arg; i++ {
		again := perform(kind, k)
		nd.Assert(again == first, "the same call gave "+first+" first and "+again+" at call "+itoa(i+1))
	}
}

// C21File: a file that changes between two readings, or that comes to be, or another of the same contents:
// every reading is about the contents at its time, and errors name the file that was read.
func C21File(arg int) {
	i, j := nd.Choose(len(parseTexts)), nd.Choose(len(parseTexts))
	name := nd.PutFile("a.rules", 0, parseTexts[i])
	f, err := parse.File(name)
	agrees(parseTexts[i], f, err)
	nd.PutFile("a.rules", 0, parseTexts[j])
	if nd.Choose(2) == 1 {
		name = nd.PutFile("b.rules", 0, parseTexts[j])
	}
	f, err = parse.File(name)
	agrees(parseTexts[j], f, err)
	if err != nil {
		nd.Assert(len(err.Error()) > len(name) && err.Error()[:len(name)+1] == name+":", "an error about "+name+" says "+err.Error())
	}
}
