package h

import (
	goast "go/ast"
	"os"
	"strconv"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
)

// The listing of a tree, stated here on its own.

// lister writes numbered and indented lines.
type lister struct {
	out    []byte
	line   int
	indent int
	start  bool // the next character begins a line
	seen   []interface{}
	lines  []int
}

func (l *lister) put(s string) {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			l.out = append(l.out, '\n')
			l.line++
			l.start = true
			continue
		}
		if l.start {
			n := strconv.Itoa(l.line)
			for k := len(n); k < 6; k++ {
				n = " " + n
			}
			l.out = append(l.out, n+"  "...)
			for k := 0; k < l.indent; k++ {
				l.out = append(l.out, ".  "...)
			}
			l.start = false
		}
		l.out = append(l.out, s[i])
	}
}

// known tells whether the node has been listed, and where; else it is from now on.
func (l *lister) known(p interface{}) bool {
	for i, q := range l.seen {
		if p == q {
			l.put("*(obj @ " + strconv.Itoa(l.lines[i]) + ")")
			return true
		}
	}
	l.seen = append(l.seen, p)
	l.lines = append(l.lines, l.line)
	l.put("*")
	return false
}

// open, field, shut: a structure.
func (l *lister) open(name string) {
	l.put(name + " {")
	l.indent++
	l.put("\n")
}

func (l *lister) field(name string, f func()) {
	l.put(name + ": ")
	f()
	l.put("\n")
}

func (l *lister) text(name, s string) { l.field(name, func() { l.put(s) }) }

func (l *lister) shut() {
	l.indent--
	l.put("}")
}

// list: a slice of n entries.
func (l *lister) list(typ string, n int, f func(i int)) {
	l.put(typ + " (len = " + strconv.Itoa(n) + ") {")
	if n > 0 {
		l.indent++
		l.put("\n")
		for i := 0; i < n; i++ {
			l.field(strconv.Itoa(i), func() { f(i) })
		}
		l.indent--
	}
	l.put("}")
}

func (l *lister) file(f *ast.File) {
	if f == nil {
		l.put("nil")
		return
	}
	if l.known(f) {
		return
	}
	if f.Rules == nil {
		l.empty("ast.File")
		return
	}
	l.open("ast.File")
	l.field("Rules", func() { l.list("[]*ast.Rule", len(f.Rules), func(i int) { l.rule(f.Rules[i]) }) })
	l.shut()
}

// empty: a structure none of whose fields is listed.
func (l *lister) empty(name string) { l.put(name + " {}") }

func (l *lister) rule(r *ast.Rule) {
	if r == nil {
		l.put("nil")
		return
	}
	if l.known(r) {
		return
	}
	l.open("ast.Rule")
	if r.Match != nil {
		l.field("Match", func() { l.value(r.Match) })
	}
	if r.Condition != nil {
		l.field("Condition", func() { l.expr(r.Condition) })
	}
	l.text("Block", strconv.Quote(r.Block))
	if r.Result != nil {
		l.field("Result", func() { l.value(r.Result) })
	}
	l.shut()
}

func (l *lister) value(v ast.Value) {
	switch v := v.(type) {
	case nil:
		l.put("nil")
	case *ast.SExpr:
		l.sexpr(v)
	case *ast.Expr:
		l.expr(v)
	case ast.Variable:
		l.put(string(v))
	}
}

func (l *lister) sexpr(s *ast.SExpr) {
	if s == nil {
		l.put("nil")
		return
	}
	if l.known(s) {
		return
	}
	l.open("ast.SExpr")
	l.text("Binding", string(s.Binding))
	if s.Op != nil {
		l.field("Op", func() { l.op(s.Op) })
	}
	l.text("Type", string(s.Type))
	if s.AuxInt != nil {
		l.field("AuxInt", func() { l.expr(s.AuxInt) })
	}
	if s.Aux != nil {
		l.field("Aux", func() { l.expr(s.Aux) })
	}
	if s.Args != nil {
		l.field("Args", func() { l.list("[]ast.Value", len(s.Args), func(i int) { l.value(s.Args[i]) }) })
	}
	l.text("Ellipsis", strconv.FormatBool(s.Ellipsis))
	l.text("Trailing", strconv.FormatBool(s.Trailing))
	l.shut()
}

func (l *lister) op(o ast.Op) {
	switch o := o.(type) {
	case ast.Opcode:
		l.put(string(o))
	case ast.OpcodeParts:
		if o == nil {
			l.put("nil")
			return
		}
		l.list("ast.OpcodeParts", len(o), func(i int) {
			switch p := o[i].(type) {
			case nil:
				l.put("nil")
			case ast.Opcode:
				l.put(string(p))
			case ast.OpcodeAlt:
				l.alt(p)
			}
		})
	}
}

func (l *lister) alt(p ast.OpcodeAlt) {
	if p == nil {
		l.put("nil")
		return
	}
	l.list("ast.OpcodeAlt", len(p), func(i int) { l.put(string(p[i])) })
}

func (l *lister) expr(e *ast.Expr) {
	if e == nil {
		l.put("nil")
		return
	}
	if l.known(e) {
		return
	}
	if e.Expr == nil {
		l.empty("ast.Expr")
		return
	}
	l.open("ast.Expr")
	l.field("Expr", func() { l.golang(e.Expr) })
	l.shut()
}

func (l *lister) golang(e goast.Expr) {
	if e == nil {
		l.put("nil")
		return
	}
	if l.known(e) {
		return
	}
	pos := func(name string, p int) { l.text(name, strconv.Itoa(p)) }
	switch e := e.(type) {
	case *goast.Ident:
		l.open("ast.Ident")
		pos("NamePos", int(e.NamePos))
		l.text("Name", strconv.Quote(e.Name))
		if e.Obj != nil {
			panic("harness: resolved identifier")
		}
	case *goast.BasicLit:
		l.open("ast.BasicLit")
		pos("ValuePos", int(e.ValuePos))
		l.text("Kind", e.Kind.String())
		l.text("Value", strconv.Quote(e.Value))
	case *goast.ParenExpr:
		l.open("ast.ParenExpr")
		pos("Lparen", int(e.Lparen))
		l.field("X", func() { l.golang(e.X) })
		pos("Rparen", int(e.Rparen))
	case *goast.SelectorExpr:
		l.open("ast.SelectorExpr")
		l.field("X", func() { l.golang(e.X) })
		l.field("Sel", func() { l.golang(e.Sel) })
	case *goast.StarExpr:
		l.open("ast.StarExpr")
		pos("Star", int(e.Star))
		l.field("X", func() { l.golang(e.X) })
	case *goast.UnaryExpr:
		l.open("ast.UnaryExpr")
		pos("OpPos", int(e.OpPos))
		l.text("Op", e.Op.String())
		l.field("X", func() { l.golang(e.X) })
	case *goast.BinaryExpr:
		l.open("ast.BinaryExpr")
		l.field("X", func() { l.golang(e.X) })
		pos("OpPos", int(e.OpPos))
		l.text("Op", e.Op.String())
		l.field("Y", func() { l.golang(e.Y) })
	case *goast.CallExpr:
		l.open("ast.CallExpr")
		l.field("Fun", func() { l.golang(e.Fun) })
		pos("Lparen", int(e.Lparen))
		if e.Args != nil {
			l.field("Args", func() { l.list("[]ast.Expr", len(e.Args), func(i int) { l.golang(e.Args[i]) }) })
		}
		pos("Ellipsis", int(e.Ellipsis))
		pos("Rparen", int(e.Rparen))
	default:
		panic("harness: unknown Go expression")
	}
	l.shut()
}

// listed is the listing of a node.
func listed(n ast.Node) string {
	l := &lister{start: true}
	switch n := n.(type) {
	case *ast.File:
		l.file(n)
	case *ast.Rule:
		l.rule(n)
	case ast.OpcodeAlt:
		l.alt(n)
	case ast.Op:
		l.op(n)
	case ast.Value:
		l.value(n)
	}
	l.put("\n")
	return string(l.out)
}

// dumps compares all ways of listing a node with the listing.
func dumps(n ast.Node) string {
	want := listed(n)
	got, err := ast.Dump(n)
	nd.Observe("dump", got)
	nd.Assert(err == nil, "a dump failed")
	nd.Assert(got == want, "the dump of "+want+" is "+got)
	w := &faultWriter{failAt: -1}
	err = ast.Fprint(w, n)
	nd.Assert(err == nil && string(w.got) == want, "Fprint wrote "+string(w.got)+" for "+want)
	nd.Reach("dumped")
	return want
}

// C23Mix: the listing of a mixed file; arg as in the other harnesses of that name.
func C23Mix(arg int) {
	f, _, _ := mixed(arg)
	dumps(f)
}

// C23Nodes: nodes of every kind as the root, with symbolic names; arg = node.
func C23Nodes(arg int) {
	if arg < 8 {
		dumps(printNode(arg))
		return
	}
	a, b := ast.Opcode([]byte{lower()}), ast.Opcode([]byte{ascii()})
	dumps([]ast.Node{a, b, ast.OpcodeAlt{a, b, a}, ast.OpcodeAlt{}, ast.OpcodeParts{a, ast.OpcodeAlt{b, b}, b}, ast.OpcodeParts{},
		ast.Variable(a), &ast.File{}, &ast.File{Rules: []*ast.Rule{}}, &ast.Rule{}, &ast.SExpr{}, &ast.Expr{},
		&ast.SExpr{Args: []ast.Value{}}, &ast.SExpr{Args: []ast.Value{nil, ast.Variable(b)}, Op: ast.OpcodeParts{nil, a}}}[arg-8])
}

// C23Text: strings with symbolic characters in every place for one; arg = place + 10*characters.
func C23Text(arg int) {
	t := ""
	for i := 0; i < arg/10; i++ {
		t += string([]byte{ascii()})
	}
	s := &ast.SExpr{Op: ast.Opcode("O"), Args: []ast.Value{ast.Variable("x")}}
	r := &ast.Rule{Match: s, Result: ast.Variable("x")}
	switch arg % 10 {
	case 0:
		r.Block = t
	case 1:
		s.Type = ast.Type(t)
	case 2:
		s.Op = ast.Opcode(t)
	case 3:
		s.Binding = ast.Variable(t)
	case 4:
		s.Args[0] = ast.Variable(t)
	case 5:
		s.Op = ast.OpcodeParts{ast.Opcode(t), ast.OpcodeAlt{"a", ast.Opcode(t)}}
	}
	dumps(r)
}

// C23Fail: one write of the listing fails: that is reported; every write for the nodes of C23Print (arg = node),
// a few of them for mixed files (arg = 100 + what the other harnesses of that name take).
func C23Fail(arg int) {
	var n ast.Node
	if arg < 100 {
		n = printNode(arg)
	} else {
		n, _, _ = mixed(arg - 100)
	}
	want := listed(n)
	w := &faultWriter{failAt: -1}
	err := ast.Fprint(w, n)
	nd.Assert(err == nil, "writing the listing failed")
	for i := 0; i < w.calls; i++ {
		k := i
		if arg >= 100 {
			if i == 4 {
				break
			}
			k = []int{0, 1, w.calls / 2, w.calls - 1}[i]
		}
		v := &faultWriter{failAt: k, err: errWrite, part: k % 3}
		err := ast.Fprint(v, n)
		nd.Assert(err != nil, "write "+itoa(k)+" of the listing failed and that is not reported")
		nd.Assert(len(v.got) <= len(want) && string(v.got) == want[:len(v.got)], "what was written before the failure is not the listing")
	}
	nd.Reach("failed")
}

// C23Print: the listing goes to standard output; arg = node. Output that cannot be written is reported.
func C23Print(arg int) {
	n := printNode(arg)
	k := []int{0, 2}[nd.Choose(2)]
	p := nd.PutFile("out.txt", k, "")
	out, err := os.OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		nd.Assert(false, "harness: cannot open the output")
		return
	}
	old := os.Stdout
	os.Stdout = out
	err = ast.Print(n)
	os.Stdout = old
	out.Close()
	if k == 2 {
		nd.Assert(err != nil, "printing to a full device succeeded")
		nd.Reach("failed")
		return
	}
	got, err2 := os.ReadFile(p)
	nd.Assert(err == nil && err2 == nil && string(got) == listed(n), "standard output got "+string(got))
	nd.Reach("printed")
}
