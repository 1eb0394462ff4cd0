package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// Rules in which a few features take unusual values at once: every pair (or more) of features, with every value of each.

// The features.
const (
	mBinding = iota
	mOp
	mType
	mAuxInt
	mAux
	mArgs
	mEllipsis
	mTrailing
	mMatch
	mCond
	mBlock
	mResult
	mFile
	mixSlots
)

var mixNames = []string{"x", "aB_1", "v__", "x0"}
var mixTypes = []string{"_", "x.y", "(a,b)", " t ", "<t", "a b", "[4]int", "t)", "// c", "typ.UInt64", "= x", "é"}
var mixBlocks = []string{"_", "b.c", "@b", "(b)", "x.Block", "//", "=>", "é", "&&"}
var mixExprs = []string{"c", "0", "_", "-1", "(c)", "c.d", "f()", "f(x)", "f(x, y.z)", "c+1", "c*(d-1)", "\"s\"", "'c'", "`r`", "1.5e3", "0x1F", "1_000", "!b", "*p", "&x", "^c", "((-x))", "f(g(h(x)))", "a.b.c.d(x)", "a && b || c", "x == y", "-(-x)", "f(x...)", "nil", "07", "2i", "f(_, x)", "(f)(x)", "(*p).q", "!(a)", "<-c", "a&^b", "a<<1", "a - -b", "f(-x)(y)"}
var mixCalls = []string{"f(x)", "f(x, y)", "f(g(x))", "f(g(x), _)", "f(_)", "g_1(x, y, z)", "f(x, f(x))"}

// mixOps: the operators besides a plain one.
func mixOps() []ast.Op {
	c := func(s ast.Opcode) ast.OpPart { return s }
	return []ast.Op{
		ast.Opcode("8"), ast.Opcode("_"), ast.Opcode("x"), ast.Opcode("a_B9"),
		ast.OpcodeParts{ast.OpcodeAlt{"A", "B"}},
		ast.OpcodeParts{c("O"), ast.OpcodeAlt{"8", "16"}},
		ast.OpcodeParts{ast.OpcodeAlt{"8", "16"}, c("O")},
		ast.OpcodeParts{c("O"), ast.OpcodeAlt{"8", "8"}},
		ast.OpcodeParts{ast.OpcodeAlt{"1", "11"}, ast.OpcodeAlt{"11", "1"}},
		ast.OpcodeParts{c("O"), ast.OpcodeAlt{"8", "8"}, c("x"), ast.OpcodeAlt{"16", "8"}},
		ast.OpcodeParts{ast.OpcodeAlt{"x", "_"}, c("M")},
		ast.OpcodeParts{c("M"), ast.OpcodeAlt{"M", "R"}},
		ast.OpcodeParts{c("O"), ast.OpcodeAlt{"8", "16", "32"}},
		ast.OpcodeParts{ast.OpcodeAlt{"8", "16", "8", "16"}},
	}
}

// mixArgs: argument lists besides the plain one.
func mixArgs(k int) []ast.Value {
	v := func(s ast.Variable) ast.Value { return s }
	in := func(args ...ast.Value) *ast.SExpr { return &ast.SExpr{Op: ast.Opcode("In"), Args: args} }
	alt := func(args ...ast.Value) *ast.SExpr {
		return &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("N"), ast.OpcodeAlt{"8", "16"}}, Args: args}
	}
	switch k {
	case 0:
		return nil
	case 1:
		return []ast.Value{v("x"), v("x")}
	case 2:
		return []ast.Value{v("_")}
	case 3:
		return []ast.Value{v("_"), v("_"), v("x")}
	case 4:
		return []ast.Value{goExpr("f(x)")}
	case 5:
		return []ast.Value{in()}
	case 6:
		return []ast.Value{v("x"), in(v("x"), in())}
	case 7:
		return []ast.Value{v("a"), v("b"), v("c"), v("d"), v("e"), v("f"), v("g"), v("h"), v("i"), v("j")}
	case 8:
		return []ast.Value{v("a"), v("b"), v("c"), v("d"), v("e"), v("f"), v("g"), v("h"), alt(), v("j"), in()}
	case 9:
		return []ast.Value{alt(v("x"))}
	case 10:
		return []ast.Value{alt(), alt()}
	case 11:
		return []ast.Value{in(alt(v("x"))), v("x")}
	case 12:
		s := in(v("x"))
		return []ast.Value{s, s} // the same node twice
	case 13:
		return []ast.Value{goExpr("g(_, y)"), v("_"), in(v("_"))}
	case 14:
		return []ast.Value{in(in(in(in(v("x")))))}
	case 15:
		return []ast.Value{&ast.SExpr{Binding: "w", Op: ast.Opcode("In"), Type: "u", AuxInt: goExpr("k"), Aux: goExpr("l"), Args: []ast.Value{v("x")}, Ellipsis: true, Trailing: true}}
	case 16:
		return []ast.Value{v("v"), &ast.SExpr{Binding: "v", Op: ast.Opcode("In")}}
	}
	return []ast.Value{&ast.SExpr{Op: ast.Opcode("In"), Ellipsis: true}, &ast.SExpr{Op: ast.Opcode("In"), Trailing: true}}
}

const mixArgLists = 18

// mixPositions: where the expression under test stands.
const mixPositions = 6

// mixRule is a rule with the expression s at a position: 0 the match, 1 the result, 2 below the match, 3 below the result,
// 4 deep below the match behind other arguments, 5 on both sides.
func mixRule(s *ast.SExpr, x ast.Variable, pos int) *ast.Rule {
	in := func(op ast.Opcode, args ...ast.Value) *ast.SExpr { return &ast.SExpr{Op: op, Args: args} }
	switch pos {
	case 0:
		return &ast.Rule{Match: s, Result: in("R", x)}
	case 1:
		return &ast.Rule{Match: in("M", x), Result: s}
	case 2:
		return &ast.Rule{Match: in("M", s), Result: in("R", x)}
	case 3:
		return &ast.Rule{Match: in("M", x), Result: in("R", x, s)}
	case 4:
		return &ast.Rule{Match: in("M", x, in("L", ast.Placeholder, s, x), ast.Variable("y")), Result: x}
	}
	t := *s
	return &ast.Rule{Match: s, Result: &t}
}

// letterOr is any letter or one of the strings.
func letterOr(list []string) string {
	k := nd.Choose(1 + len(list))
	if k == 0 {
		return string([]byte{lower()})
	}
	return list[k-1]
}

// mixSet gives feature k one of its values.
func mixSet(f *ast.File, r *ast.Rule, s *ast.SExpr, k int) *ast.File {
	switch k {
	case mBinding:
		s.Binding = ast.Variable(letterOr(mixNames))
	case mOp:
		s.Op = mixOps()[nd.Choose(len(mixOps()))]
	case mType:
		s.Type = ast.Type(letterOr(mixTypes))
	case mAuxInt:
		s.AuxInt = goExpr(mixExprs[nd.Choose(len(mixExprs))])
	case mAux:
		s.Aux = goExpr(mixExprs[nd.Choose(len(mixExprs))])
	case mArgs:
		s.Args = mixArgs(nd.Choose(mixArgLists))
	case mEllipsis:
		s.Ellipsis = true
	case mTrailing:
		s.Trailing = true
	case mCond:
		r.Condition = goExpr(mixExprs[nd.Choose(len(mixExprs))])
	case mBlock:
		r.Block = letterOr(mixBlocks)
	case mMatch, mResult:
		var v ast.Value
		switch n := nd.Choose(4 + len(mixCalls)); n {
		case 0:
			v = ast.Variable("x")
		case 1:
			v = ast.Placeholder
		case 2:
			v = ast.Variable("y")
		case 3:
			v = &ast.SExpr{Op: ast.Opcode("Z")}
		default:
			v = goExpr(mixCalls[n-4])
		}
		if k == mMatch {
			r.Match = v
		} else {
			r.Result = v
		}
	case mFile:
		other := &ast.Rule{Match: ast.Variable("x"), Result: &ast.SExpr{Op: ast.Opcode("F")}}
		switch nd.Choose(6) {
		case 0:
			f.Rules = []*ast.Rule{r, other}
		case 1:
			f.Rules = []*ast.Rule{other, r}
		case 2:
			f.Rules = []*ast.Rule{r, r}
		case 3:
			f.Rules = []*ast.Rule{r, r, r}
		case 4:
			f.Rules = []*ast.Rule{other, other, r, other, r, other}
		case 5:
			c := *r
			c.Block = "c"
			f.Rules = []*ast.Rule{r, &c, r}
		}
	}
	return f
}

// mixed is a file in which the expression at a position and what is around it differ in n features from the plainest;
// arg = position + 10*n.
func mixed(arg int) (*ast.File, *ast.Rule, *ast.SExpr) {
	x := ast.Variable(string([]byte{lower()})) // any letter, also one that stands elsewhere
	s := &ast.SExpr{Op: ast.Opcode("O"), Args: []ast.Value{x}}
	var ks []int
	for i, k := 0, 0; i < arg/10; i++ {
		k += nd.Choose(mixSlots - k - (arg/10 - 1 - i))
		ks = append(ks, k)
		k++
	}
	pos := arg % 10
	if pos == 5 {
		// both sides are made from the finished expression
		for _, k := range ks {
			if k < mMatch {
				mixSet(nil, nil, s, k)
			}
		}
	}
	r := mixRule(s, x, pos)
	f := &ast.File{Rules: []*ast.Rule{r}}
	for _, k := range ks {
		if pos == 5 && k < mMatch {
			continue
		}
		f = mixSet(f, r, s, k)
	}
	return f, r, s
}

func mixText(f *ast.File) string { return renderFile(f, plain) }

// C03Mix: the parsed file is the one the text was written from.
func C03Mix(arg int) {
	f, _, _ := mixed(arg)
	checkTree(mixText(f), f)
}

// C05Mix: several rules give what each gives on its own.
func C05Mix(arg int) {
	f, r, _ := mixed(arg)
	text := mixText(f)
	one := renderRule(r, plain)
	parts := []string{text, one, one}
	sep := []string{"\n", " ", "\n\n// c\n"}[arg%3]
	whole := ""
	for i, p := range parts {
		if i > 0 {
			whole += sep
		}
		whole += p
	}
	concatParts(whole, parts)
}

// C06Mix: its expressions are kept whole.
func C06Mix(arg int) {
	f, _, _ := mixed(arg)
	text := mixText(f)
	g, err := parsed(text)
	nd.Observe("text", text)
	if err != nil {
		nd.Reach("rejected")
		return
	}
	keepsExprs(text, g)
}

// C09Mix: printed and parsed again it is the same.
func C09Mix(arg int) {
	f, _, _ := mixed(arg)
	roundTripText(mixText(f))
}

// C10Mix: a failure at any write is reported; from 100 on the rule is printed instead of the file.
func C10Mix(arg int) {
	f, r, _ := mixed(arg % 100)
	var n ast.Node = f
	if arg >= 100 {
		n = r
	}
	full, err := printer.Bytes(n)
	if err != nil {
		return
	}
	w := &faultWriter{failAt: -1}
	err = printer.Fprint(w, n)
	nd.Assert(err == nil && string(w.got) == string(full), "wrote "+string(w.got)+" instead of "+string(full))
	for k := 0; k < w.calls; k++ {
		v := &faultWriter{failAt: k, err: errWrite, part: k % 3}
		err := printer.Fprint(v, n)
		nd.Assert(err != nil, "write "+itoa(k)+" failed and printing succeeded")
		nd.Assert(v.after == 0, "went on writing after write "+itoa(k)+" failed")
	}
	nd.Reach("failed")
}

// C11Mix: expansion.
func C11Mix(arg int) {
	f, _, _ := mixed(arg)
	checkExpansion(f)
}

// C13Mix: what is expanded stays as it was.
func C13Mix(arg int) {
	f, _, _ := mixed(arg)
	checkIntact(f)
}

// C14Mix: a full traversal, one that declines a single node, and searches for each node.
func C14Mix(arg int) {
	f, _, _ := mixed(arg)
	nd.Observe("file", dumpFile(f))
	all := preorder(f, 0, never, nil)
	var got []visit
	ast.Walk(recorder{&got, 0, never}, f)
	sameVisits(got, all, true, "Walk")
	for k := range all {
		only := func(i int) bool { return i == k }
		want := preorder(f, 0, only, nil)
		got = nil
		ast.Inspect(f, func(n ast.Node) bool {
			got = append(got, visit{n, 0})
			return len(got)-1 != k
		})
		sameVisits(got, want, false, "Inspect")
		found := ast.Contains(f, func(n ast.Node) bool { return same(n, all[k].n) })
		nd.Assert(found, "Contains missed node "+itoa(k))
	}
	nd.Assert(!ast.Contains(f, func(ast.Node) bool { return false }), "Contains found what is not there")
	nd.Reach("walked")
}

// features tells which of the predicates hold for a value.
func features(v ast.Value, has []bool) {
	s, ok := v.(*ast.SExpr)
	if !ok {
		return
	}
	for i, h := range []bool{s.Binding != "", s.Type != "", s.AuxInt != nil, s.Aux != nil, s.Ellipsis, s.Trailing} {
		if h {
			has[i] = true
		}
	}
	for _, a := range s.Args {
		features(a, has)
	}
}

// C15Mix: the predicates.
func C15Mix(arg int) {
	_, r, _ := mixed(arg)
	has := make([]bool, len(predicates))
	features(r.Match, has)
	features(r.Result, has)
	nd.Observe("rule", dumpRule(r))
	for i, p := range predicates {
		nd.Assert(p.fn(r) == has[i], "predicate "+p.name+" is wrong")
	}
	nd.Reach("asked")
}

// typedMix makes the plain parts of a mixed rule operations that have a meaning.
func typedMix(v ast.Value) {
	s, ok := v.(*ast.SExpr)
	if !ok {
		return
	}
	if o, ok := s.Op.(ast.Opcode); ok {
		switch len(s.Args) {
		case 1:
			s.Op = ast.Opcode("Com16")
		case 2:
			s.Op = ast.Opcode("Sub16")
		default:
			s.Op = o
		}
	}
	for _, a := range s.Args {
		typedMix(a)
	}
}

// C18Mix: a script or a refusal.
func C18Mix(arg int) {
	_, r, _ := mixed(arg)
	typedMix(r.Match)
	typedMix(r.Result)
	decided(r)
}

// C21Mix: operations that only look leave the tree as it is and give the same for an equal tree.
func C21Mix(arg int) {
	f, r, _ := mixed(arg)
	h := hold(f.Rules)
	all := func(f *ast.File, r *ast.Rule) string {
		s := ""
		b, err := printer.Bytes(f)
		s += string(b)
		if err != nil {
			s += err.Error()
		}
		for _, p := range predicates {
			if p.fn(r) {
				s += p.name + " "
			}
		}
		ast.Inspect(f, func(n ast.Node) bool { s += "."; return true })
		b, err = smt2.Generate(r)
		s += string(b)
		if err != nil {
			s += err.Error()
		}
		return s
	}
	first := all(f, r)
	h.check("looking at it")
	second := all(f, r)
	h.check("looking at it again")
	nd.Assert(first == second, "the same calls gave "+first+" and then "+second)
	c := cloneRule(r)
	g := &ast.File{}
	for _, o := range f.Rules {
		if o == r {
			g.Rules = append(g.Rules, c)
		} else {
			g.Rules = append(g.Rules, cloneRule(o))
		}
	}
	third := all(g, c)
	nd.Assert(first == third, "for an equal tree the same calls gave "+third+" instead of "+first)
	nd.Observe("first", first)
}

// C22Mix: something missing somewhere in an otherwise mixed rule.
func C22Mix(arg int) {
	f, r, s := mixed(arg)
	switch nd.Choose(8) {
	case 0:
		s.Op = nil
	case 1:
		s.Args = append(s.Args, nil)
	case 2:
		s.Args = append([]ast.Value{nil}, s.Args...)
	case 3:
		s.AuxInt = &ast.Expr{}
	case 4:
		s.Aux = &ast.Expr{Expr: badGo(nd.Choose(2))}
	case 5:
		s.Op = ast.OpcodeParts{ast.Opcode("A"), nil}
	case 6:
		r.Condition = &ast.Expr{}
	case 7:
		if r.Match == ast.Value(s) {
			r.Result = nil
		} else {
			r.Match = nil
		}
	}
	if !holds(r.Match, s) && !holds(r.Result, s) && r.Match != nil && r.Result != nil && (r.Condition == nil || r.Condition.Expr != nil) {
		return // the spoiled expression has been replaced
	}
	unprintable(f, "a missing part")
	unprintable(r, "a missing part")
}

// holds tells whether s stands anywhere in v.
func holds(v ast.Value, s *ast.SExpr) bool {
	t, ok := v.(*ast.SExpr)
	if !ok {
		return false
	}
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if holds(a, s) {
			return true
		}
	}
	return false
}
