package h

import (
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/rules"
	"github.com/mmcloughlin/ssarules/smt2"
)

// Sizes: one dimension of a rule file grows, with a symbolic character at a chosen place.

const bigKinds = 20

// fixed: bigFile makes no choices and nothing in it is symbolic.
var fixed bool

func letter() string {
	if fixed {
		return "k"
	}
	return string([]byte{lower()})
}

func oneOf(n int) int {
	if fixed {
		return n - 1
	}
	return nd.Choose(n)
}

func nameOf(prefix string) string { return prefix + letter() }

// long is n characters with a symbolic letter at one of the ends or in the middle.
func long(n int) string {
	at := []int{0, n / 2, n - 1}[oneOf(3)]
	return strings.Repeat("w", at) + letter() + strings.Repeat("v", n-at-1)
}

// some is one of the places of a list of n.
func some(n int) int { return []int{0, 1, n / 2, n - 2, n - 1}[oneOf(5)] }

// bigFile is a file in which dimension kind has size n (n at least 3).
func bigFile(kind, n int) *ast.File {
	op := func(s string, args ...ast.Value) *ast.SExpr { return &ast.SExpr{Op: ast.Opcode(s), Args: args} }
	m := op("M", ast.Variable("x"))
	r := &ast.Rule{Match: m, Result: op("R", ast.Variable("x"))}
	f := &ast.File{Rules: []*ast.Rule{r}}
	switch kind {
	case 0: // arguments
		m.Args = nil
		at := some(n)
		for i := 0; i < n; i++ {
			switch {
			case i == at:
				m.Args = append(m.Args, argKind(oneOf(argKinds), letter()))
			case i%3 == 1:
				m.Args = append(m.Args, op("I"+itoa(i)))
			default:
				m.Args = append(m.Args, ast.Variable("x"+itoa(i)))
			}
		}
		if oneOf(2) == 1 {
			m.Type, m.Ellipsis = "t", true
		}
	case 1: // depth
		var v ast.Value = argKind(oneOf(argKinds), letter())
		how := oneOf(3)
		for i := 0; i < n; i++ {
			s := op("D" + itoa(i))
			switch how {
			case 0:
				s.Args = []ast.Value{v}
			case 1:
				s.Args = []ast.Value{ast.Variable("a"), v}
			case 2:
				s.Args = []ast.Value{v, ast.Variable("b")}
				s.Type = "t"
			}
			v = s
		}
		r.Result = v
	case 2: // entries of an alternation
		a := ast.OpcodeAlt{}
		at := some(n)
		for i := 0; i < n; i++ {
			e := itoa(i)
			if i == at {
				e += letter()
			}
			a = append(a, ast.Opcode(e))
		}
		m.Op = ast.OpcodeParts{ast.Opcode("A"), a, ast.Opcode("z")}
	case 3: // parts of an operator
		ps := ast.OpcodeParts{}
		at := some(n)
		for i := 0; i < n; i++ {
			switch {
			case i == at:
				ps = append(ps, ast.OpcodeAlt{ast.Opcode("q" + letter()), "r"})
			case i%2 == 0:
				ps = append(ps, ast.OpcodeAlt{ast.Opcode("e" + itoa(i)), "f"})
			case i-1 == at || i%4 == 1:
				ps = append(ps, ast.Opcode("g"+itoa(i)))
			default:
				ps = append(ps, ast.OpcodeAlt{"h", "i"})
			}
		}
		m.Op = ps
	case 4: // names
		switch oneOf(7) {
		case 0:
			m.Args[0] = ast.Variable(long(n))
		case 1:
			m.Binding = ast.Variable(long(n))
		case 2:
			m.Op = ast.Opcode(long(n))
		case 3:
			m.Type = ast.Type(long(n))
		case 4:
			r.Block = long(n)
		case 5:
			m.Op = ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"8", ast.Opcode(long(n))}}
		case 6:
			r.Result = ast.Variable(long(n))
		}
	case 5: // condition
		s := ""
		at := some(n)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += " && "
			}
			if i == at {
				s += "p" + letter() + "(x)"
			} else {
				s += "c" + itoa(i)
			}
		}
		r.Condition = goExpr(s)
	case 6: // arguments of a call value
		s := "f("
		at := some(n)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ","
			}
			s += "a" + itoa(i)
			if i == at {
				s += letter()
			}
		}
		r.Result = goExpr(s + ")")
	case 7: // nested calls
		r.Result = goExpr(strings.Repeat("f(", n) + "a" + letter() + strings.Repeat(")", n))
	case 8: // parentheses, signs, selectors
		switch oneOf(3) {
		case 0:
			m.AuxInt = goExpr(strings.Repeat("(", n) + "a" + letter() + strings.Repeat(")", n))
		case 1:
			m.Aux = goExpr(strings.Repeat("- ", n) + "a" + letter())
		case 2:
			m.AuxInt = goExpr("a" + letter() + strings.Repeat(".b", n))
		}
	case 9: // literals
		switch oneOf(3) {
		case 0:
			m.AuxInt = goExpr("1" + strings.Repeat("0", n-1))
		case 1:
			m.Aux = goExpr("\"" + long(n) + "\"")
		case 2:
			m.Aux = goExpr("`" + long(n) + "`")
		}
	case 10: // rules
		f.Rules = nil
		at := some(n)
		for i := 0; i < n; i++ {
			v := ast.Variable("x" + itoa(i))
			q := &ast.Rule{Match: op("A", v), Result: v}
			if i == at {
				q.Result = op("S", ast.Variable(nameOf("s")))
				q.Condition = goExpr("p(x)")
				q.Block = "b"
			}
			f.Rules = append(f.Rules, q)
		}
	case 11: // a chain of binary operators
		s := "x0"
		ops := []string{" + ", " - ", " << ", " * "}
		k := oneOf(4)
		for i := 1; i < n; i++ {
			s += ops[(k+i)%4] + "x" + itoa(i)
		}
		m.AuxInt = goExpr(s + letter())
	case 12: // everything at once, in a tree
		var build func(k int) *ast.SExpr
		build = func(k int) *ast.SExpr {
			s := op("T" + itoa(k))
			decorate(s, k%64)
			for c := 2*k + 1; c <= 2*k+2; c++ {
				if c < n {
					s.Args = append(s.Args, build(c))
				} else {
					s.Args = append(s.Args, ast.Variable("l"+itoa(c)))
				}
			}
			return s
		}
		s := build(0)
		s.Args = append(s.Args, ast.Variable(nameOf("t")))
		r.Match = s
		if oneOf(2) == 1 {
			r.Match, r.Result = r.Result, r.Match
		}
	case 13: // the same variable again and again
		m.Args = nil
		for i := 0; i < n; i++ {
			m.Args = append(m.Args, []ast.Value{ast.Variable("x"), ast.Placeholder}[i%2])
		}
		m.Args[some(n)] = ast.Variable(nameOf("x"))
	case 14: // equal rules
		f.Rules = nil
		k := letter()
		for i := 0; i < n; i++ {
			f.Rules = append(f.Rules, &ast.Rule{Match: op("A"+k, ast.Variable("x")), Result: ast.Variable("x")})
		}
		f.Rules[some(n)].Block = "other"
	case 15: // values with everything, side by side
		m.Args = nil
		at := some(n)
		for i := 0; i < n; i++ {
			s := decorate(op("V"+itoa(i), ast.Variable("y")), 15)
			if i == at {
				s.Args[0] = ast.Variable(nameOf("y"))
				s.Trailing = true
			}
			m.Args = append(m.Args, s)
		}
	case 16: // long operators, alternations on both sides
		a := ast.OpcodeAlt{}
		b := ast.OpcodeAlt{}
		for i := 0; i < n; i++ {
			a = append(a, ast.Opcode("a"+itoa(i)))
			b = append(b, ast.Opcode("b"+itoa(i)))
		}
		a[some(n)] = ast.Opcode("c" + letter())
		m.Op = ast.OpcodeParts{a, ast.Opcode("k"), b}
		r.Result = op("R", &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("l"), b}}, ast.Variable("x"))
	case 17: // a selected and called value
		r.Condition = goExpr("x" + strings.Repeat(".f(y)", n) + "." + nameOf("m"))
	case 18: // a block of many words
		r.Block = strings.Repeat("b.", n) + letter()
	case 19: // deep on both sides, with features
		var v, w ast.Value = ast.Variable(nameOf("v")), ast.Variable("w")
		for i := 0; i < n; i++ {
			v = decorate(op("A"+itoa(i), ast.Variable("p"), v), i%16)
			w = decorate(op("B"+itoa(i), w, ast.Placeholder), (i+5)%16)
		}
		r.Match, r.Result = v, w
	}
	return f
}

// C03Big: the text of the file parses as the file; arg = kind + 100*n.
func C03Big(arg int) {
	f := bigFile(arg%100, arg/100)
	checkTree(renderFile(f, plain), f)
}

// C09Big: and so does what is printed for it.
func C09Big(arg int) {
	f := bigFile(arg%100, arg/100)
	text := renderFile(f, plain)
	g, err := parsed(text)
	if err != nil {
		nd.Assert(false, "rejected "+text+": "+err.Error())
		return
	}
	roundTrip(text, g)
}

// C06Big: expressions are kept whole.
func C06Big(arg int) {
	f := bigFile(arg%100, arg/100)
	text := renderFile(f, plain)
	nd.Observe("text", text)
	g, err := parsed(text)
	if err != nil {
		nd.Assert(false, "rejected "+text+": "+err.Error())
		return
	}
	keepsExprs(text, g)
}

// C10Big: the writer gets full at the start, in the middle or just before the end.
func C10Big(arg int) {
	f := bigFile(arg%100, arg/100)
	want, err := printer.Bytes(f)
	if err != nil {
		nd.Assert(false, "cannot print: "+err.Error())
		return
	}
	room := []int{0, 1, len(want) / 3, len(want) / 2, len(want) - 2, len(want) - 1, len(want)}[nd.Choose(7)]
	w := &limitWriter{room: room}
	err = printer.Fprint(w, f)
	nd.Assert((err == nil) == (room == len(want)), "room for "+itoa(room)+" of "+itoa(len(want))+" bytes, and that is reported wrongly")
	nd.Assert(string(w.got) == string(want[:room]), "the writer holds "+string(w.got)+", not the start of "+string(want))
	nd.Assert(w.fails <= 1, "printing went on after a failed write")
}

// C11Big: expansion.
func C11Big(arg int) { checkExpansion(bigFile(arg%100, arg/100)) }

// C12Big: a second alternation with another number of entries somewhere in a big file.
func C12Big(arg int) {
	f := bigFile(arg%100, arg/100)
	w := 2 + nd.Choose(2)
	bad := &ast.Rule{Match: &ast.SExpr{Op: ast.OpcodeParts{ast.OpcodeAlt{"1", "2", "3"}[:w]}}, Result: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("B"), ast.OpcodeAlt{"1", "2"}}}}
	at := []int{0, len(f.Rules) / 2, len(f.Rules)}[nd.Choose(3)]
	var rs []*ast.Rule
	rs = append(rs, f.Rules[:at]...)
	rs = append(rs, bad)
	rs = append(rs, f.Rules[at:]...)
	checkExpansion(&ast.File{Rules: rs})
}

// C13Big: expansion leaves the rules alone, and again changes nothing.
func C13Big(arg int) {
	f := bigFile(arg%100, arg/100)
	held := append([]*ast.Rule(nil), f.Rules...)
	before := dumpFile(f)
	if err := pass.ExpandAlternates(f); err != nil {
		nd.Assert(false, "refused "+before+": "+err.Error())
		return
	}
	nd.Assert(dumpFile(&ast.File{Rules: held}) == before, "expanding changed the rules "+before)
	once := dumpFile(f)
	if err := pass.ExpandAlternates(f); err != nil {
		nd.Assert(false, "refused "+once+": "+err.Error())
		return
	}
	nd.Assert(dumpFile(f) == once, "expanding again changed "+once+" to "+dumpFile(f))
}

// C14Big: every node of a big tree once, in order; one chosen visit is declined.
func C14Big(arg int) {
	f := bigFile(arg%100, arg/100)
	n := len(preorder(f, 0, never, nil))
	at := []int{0, 1, n / 3, n / 2, n - 2, n - 1}[nd.Choose(6)]
	if nd.Choose(2) == 0 {
		stop := func(k int) bool { return k == at }
		want := preorder(f, 0, stop, nil)
		var got []visit
		ast.Walk(recorder{&got, 0, stop}, f)
		sameVisits(got, want, true, "Walk")
		got = nil
		ast.Inspect(f, func(n ast.Node) bool {
			k := len(got)
			got = append(got, visit{n, 0})
			return !stop(k)
		})
		sameVisits(got, want, false, "Inspect")
		return
	}
	found := ast.Contains(f, func(n ast.Node) bool { return false })
	nd.Assert(!found, "Contains found what is not there")
	k := 0
	found = ast.Contains(f, func(ast.Node) bool { k++; return k-1 == at })
	nd.Assert(found, "Contains misses the node visited as number "+itoa(at))
}

// sexprsOf lists the S-expressions of a rule.
func sexprsOf(r *ast.Rule) []*ast.SExpr {
	var out []*ast.SExpr
	for _, v := range preorder(r, 0, never, nil) {
		if s, ok := v.n.(*ast.SExpr); ok {
			out = append(out, s)
		}
	}
	return out
}

// C15Big: one feature at one place in a big rule.
func C15Big(arg int) {
	f := bigFile(arg%100, arg/100)
	for _, r := range f.Rules {
		if len(f.Rules) > 1 && r != f.Rules[len(f.Rules)-1] {
			continue
		}
		ss := sexprsOf(r)
		for _, s := range ss {
			s.Binding, s.Type, s.AuxInt, s.Aux, s.Ellipsis, s.Trailing = "", "", nil, nil, false, false
		}
		k := nd.Choose(len(predicates))
		want := false
		if len(ss) > 0 {
			at := []int{0, len(ss) / 2, len(ss) - 1}[nd.Choose(3)]
			want = nd.Bool()
			setFeature(ss[at], k, want)
		}
		for i, p := range predicates {
			if p.fn(r) != (want && i == k) {
				nd.Assert(false, "predicate "+p.name+" is wrong about "+dumpRule(r))
			}
		}
	}
}

// C22Big: one missing part in a big tree.
func C22Big(arg int) {
	f := bigFile(arg%100, arg/100)
	r := f.Rules[some2(len(f.Rules))]
	ss := sexprsOf(r)
	if len(ss) == 0 {
		return
	}
	s := ss[[]int{0, len(ss) / 2, len(ss) - 1}[nd.Choose(3)]]
	switch nd.Choose(5) {
	case 0:
		s.Op = nil
	case 1:
		s.Args = append(s.Args, nil)
	case 2:
		s.Args = append([]ast.Value{nil}, s.Args...)
	case 3:
		s.AuxInt = &ast.Expr{}
	case 4:
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{"a", "b"}, nil}
	}
	b, err := printer.Bytes(f)
	nd.Assert(err != nil, "printed a file with a missing part as "+string(b))
}

func some2(n int) int { return []int{0, n / 2, n - 1}[nd.Choose(3)] }

var _ = rules.HasAux
var _ = smt2.Generate
