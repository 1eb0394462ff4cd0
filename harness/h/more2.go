package h

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// argsRule is a rule with arg arguments on one side; alternations of m and n entries (none if it is 1) at two places:
// an operator of either side or an argument, itself or one level below.
func argsRule(arg, m, n int) *ast.Rule {
	alt := func(n int) ast.Op {
		if n == 1 {
			return ast.Opcode("N")
		}
		return ast.OpcodeParts{ast.Opcode("O"), ast.OpcodeAlt{"e0", "e1", "e2", "e3"}[:n]}
	}
	s := &ast.SExpr{Op: ast.Opcode("M")}
	t := &ast.SExpr{Op: ast.Opcode("R"), Args: []ast.Value{ast.Variable("z")}}
	for i := 0; i < arg; i++ {
		s.Args = append(s.Args, ast.Variable("x"+itoa(i)))
	}
	for _, w := range []int{m, n} {
		k := nd.Choose(arg + 2)
		switch {
		case k == arg:
			s.Op = alt(w)
		case k == arg+1:
			t.Op = alt(w)
		case nd.Choose(2) == 1:
			s.Args[k] = &ast.SExpr{Op: ast.Opcode("D"), Args: []ast.Value{ast.Variable("y"), s.Args[k], &ast.SExpr{Op: alt(w)}}}
		default:
			s.Args[k] = &ast.SExpr{Op: alt(w), Args: []ast.Value{s.Args[k]}}
		}
	}
	if nd.Choose(2) == 1 {
		return &ast.Rule{Match: t, Result: s}
	}
	return &ast.Rule{Match: s, Result: t}
}

// C12ManyArgs: alternations at any two places of a rule with arg arguments, of the same or of different width.
func C12ManyArgs(arg int) {
	m := 1 + nd.Choose(3)
	n := 1 + nd.Choose(3)
	checkExpansion(&ast.File{Rules: []*ast.Rule{argsRule(arg, m, n)}})
}

// C11ManyArgs: the same with one width.
func C11ManyArgs(arg int) {
	n := 2 + nd.Choose(2)
	checkExpansion(&ast.File{Rules: []*ast.Rule{argsRule(arg, 1+(n-1)*nd.Choose(2), n)}})
}

// C13ManyArgs: the originals of such rules, with and without alternations, stay as they are, as do rules around them.
func C13ManyArgs(arg int) {
	n := 1 + nd.Choose(2)
	f := &ast.File{Rules: []*ast.Rule{argsRule(arg, 1, n), {Match: ast.Variable("a"), Result: ast.Variable("b")}}}
	checkIntact(f)
}

// C14ManyArgs: every argument of a long list is visited, whatever marks the expression has.
func C14ManyArgs(arg int) {
	s := decorate(&ast.SExpr{Op: ast.Opcode("M")}, nd.Choose(64))
	for i := 0; i < arg; i++ {
		s.Args = append(s.Args, ast.Variable("x"+itoa(i)))
	}
	k := nd.Choose(arg)
	want := ast.Variable("k" + string([]byte{lower()}))
	s.Args[k] = &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("D"), ast.OpcodeAlt{"1", "2"}}, Args: []ast.Value{ast.Variable("y"), want, ast.Variable("w")}}
	r := &ast.Rule{Match: s, Result: ast.Variable("z")}
	if nd.Choose(2) == 1 {
		r.Match, r.Result = r.Result, r.Match
	}
	var all []string
	ast.Inspect(r, func(n ast.Node) bool {
		if v, ok := n.(ast.Variable); ok {
			all = append(all, string(v))
		}
		return true
	})
	var names []string
	for i := 0; i < arg; i++ {
		if i == k {
			names = append(names, "y", string(want), "w")
		} else {
			names = append(names, "x"+itoa(i))
		}
	}
	if r.Match == ast.Value(s) {
		names = append(names, "z")
	} else {
		names = append([]string{"z"}, names...)
	}
	nd.Assert(strings.Join(all, " ") == strings.Join(names, " "), "the variables of "+dumpRule(r)+" were visited as "+strings.Join(all, " "))
	nd.Assert(ast.Contains(r, func(n ast.Node) bool { return n == ast.Node(want) }), "a variable of "+dumpRule(r)+" was not found")
	nd.Reach("visited")
}

// C05Idle: rules that look as if they did nothing, twice the same or like one another, are kept; arg = number.
func C05Idle(arg int) {
	var parts []string
	text := ""
	for i := 0; i < arg; i++ {
		v := string([]byte{lower()})
		w := string([]byte{lower()})
		p := []string{
			v + " => " + w,
			"(A " + v + ") => (A " + w + ")",
			"_ => _",
			"f(" + v + ") => f(" + w + ")",
			"(A " + v + ") && false => (A " + w + ")",
			"(A " + v + ") && true => " + v,
			"((A|A) x) => ((A|A) x)",
			v + " => @" + v + " " + w,
		}
		k := nd.Choose(len(p))
		parts = append(parts, p[k])
		text += p[k] + "\n"
	}
	concat(text, parts)
}

// C19OutNames: names of the output directory.
func C19OutNames(arg int) {
	names := []string{"a%db", "%s", "%", "%!", "100%d", "o ut", "ö", "*", "[a]", "~", "$HOME", "a:b", "x.smt2", "0000.smt2", "a,b", "a\nb", "a=b", "#", "..x", "...", "'", "a\\b", "%04d"}
	dir := names[nd.Choose(len(names))]
	nd.PutFile(dir, 1, "")
	text := "(Add8 x y) => x (Foo x) => x (Not a) => b\n"
	before := []outFile{put("r.rules", text)}
	want, _ := expectFiles(dir+"/", []string{text})
	args := [][]string{{"-outdir", dir}, {"-outdir=" + dir}, {"-outdir", "./" + dir + "//"}, {"-outdir", dir + "/../" + dir}}[nd.Choose(4)]
	checkRun(runCommand(append(args, "r.rules")...), before, want)
}

// C19Left: what an earlier run left behind in the output files does not matter; arg = rules.
func C19Left(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		text += []string{"(Add8 x y) => (Sub8 y x)\n", "(Not x) => (Not (Not x))\n", "(Foo x) => x\n", "x => x\n"}[nd.Choose(4)]
	}
	want, _ := expectFiles("", []string{text})
	before := []outFile{put("a.rules", text)}
	for _, w := range want {
		old := w.data
		switch nd.Choose(9) {
		case 0:
			continue
		case 1: // the same
		case 2: // another byte at the end or in the middle or at the start
			at := []int{0, len(old) / 2, len(old) - 1}[nd.Choose(3)]
			old = old[:at] + "#" + old[at+1:]
		case 3: // cut off
			old = old[:len(old)-1]
		case 4: // half
			old = old[:len(old)/2]
		case 5: // more
			old += "(exit)\n"
		case 6:
			old = ""
		case 7: // as long, and something else altogether
			old = strings.Repeat(";", len(old)-1) + "\n"
		case 8: // the script of another rule of the same length
			old = strings.Replace(old, "v_x", "v_u", -1)
		}
		before = append(before, put(w.name, old))
	}
	checkRun(runCommand("a.rules"), before, want)
}

// cannot be generated, each in its own way
var refusedRules = []string{
	"(Foo) => x", "(Foo a) => x", "(Foo a b c d e f) => x", "(Neg8) => (Neg8 x)", "(Neg8 a b) => x", "(Neg8 a b c) => x", "(Add8 a b c d) => x", "(Add8 a b c d e f g h) => x", "(Neg8 x) => (Neg8 x y)", "(Neg8 x) => (Neg16 x)",
	"(Neg8 x) => (Not x)", "(Add8 x (Neg16 y)) => x", "(Add8 x y) => (Add8 x (Foo y))", "(Neg8 x) => f(x)", "(Neg8 f(x)) => x", "(Neg8 (Neg8 (Neg8 (Foo x)))) => x", "x => (Neg8 x)", "x => y", "_ => _", "f(x) => f(x)", "f(x, y, z, w) => x",
	"(Not x) => (Neg8 x)", "(EqB x (Neg8 x)) => x", "(EqB (Neg8 x) (Neg8 x)) => y", "(Neg9 x) => x", "(Neg x) => x", "(neg8 x) => x", "(Eq8 x y) => x", "(Const8) => x", "(Add8 x x x) => (Add8 x x x)",
}

// C19Refused: a rule that cannot be generated before, between or behind others only leaves its number unused.
func C19Refused(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		text += refusedRules[nd.Choose(len(refusedRules))] + "\n"
	}
	text = "(Not y) => y\n" + text + "(Neg16 x) => x\n" + text
	before := []outFile{put("a.rules", text), put("b.rules", "(Neg32 x) => x\n")}
	want, _ := expectFiles("", []string{text, before[1].data})
	checkRun(runCommand("a.rules", "b.rules"), before, want)
}

// C20Refused: with such rules around, exit status zero means that every file is there, and an output failure is still one.
func C20Refused(arg int) {
	text := refusedRules[nd.Choose(len(refusedRules))] + "\n"
	if nd.Choose(2) == 1 {
		text += "(Neg16 x) => x\n"
	} else {
		text = "(Neg16 x) => x\n" + text
	}
	if nd.Choose(2) == 0 {
		want, _ := expectFiles("", []string{text})
		before := []outFile{put("a.rules", text)}
		checkRun(runCommand("a.rules"), before, want)
		return
	}
	before := []outFile{put("a.rules", text)}
	failedEarly(runCommand("-outdir", "none", "a.rules"), before, "there is no output directory")
}

// C20ManyFail: arg output files that cannot be written, or inputs that cannot be read: however many there are, the status is not zero.
func C20ManyFail(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		text += "(Neg8 x" + itoa(i) + ") => y\n"
	}
	if nd.Choose(2) == 0 {
		before := []outFile{put("a.rules", text)}
		failedEarly(runCommand("-outdir", "none", "a.rules"), before, itoa(arg)+" files cannot be written")
		return
	}
	var args []string
	for i := 0; i < arg; i++ {
		args = append(args, "missing"+itoa(i))
	}
	failedEarly(runCommand(args...), nil, itoa(arg)+" inputs are missing")
}

// C13Same: the values of a rule are the very same ones after the expansion of its file, with and without alternations.
func C13Same(arg int) {
	f := &ast.File{}
	for i := 0; i < arg; i++ {
		m := &ast.SExpr{Op: altOp(nd.Choose(2)*6+1, 2)}
		for k := nd.Choose(5); k > 0; k-- {
			m.Args = append(m.Args, ast.Variable("a"))
		}
		if nd.Choose(2) == 1 {
			m.Args = append(m.Args, &ast.SExpr{Op: altOp(nd.Choose(2)*6+1, 2), Args: []ast.Value{ast.Variable("b"), ast.Variable("c"), ast.Variable("d")}})
		}
		decorate(m, []int{0, 63}[nd.Choose(2)])
		f.Rules = append(f.Rules, &ast.Rule{Match: m, Result: &ast.SExpr{Op: ast.Opcode("R")}})
	}
	h := hold(f.Rules)
	if err := pass.ExpandAlternates(f); err != nil {
		nd.Assert(false, "refused: "+err.Error())
	}
	h.check("expansion")
	nd.Reach("intact")
}

// C17Args: nothing but the operands decides: operand lists with repeated variables and placeholders in any order, both sides.
func C17Args(arg int) {
	ops := []string{"Add", "Sub", "Xor", "And", "Or"}
	w := []string{"8", "16", "32", "64"}[arg%10]
	v := func() ast.Value {
		return []ast.Value{ast.Variable("x"), ast.Variable("y"), ast.Placeholder}[nd.Choose(3)]
	}
	a := ops[nd.Choose(len(ops))] + w
	b := ops[nd.Choose(len(ops))] + w
	r := &ast.Rule{Match: call(a, v(), v()), Result: call(b, v(), v())}
	sameVerdict(r)
}

// C18Twice: a refused expression next to a generated one with the same text or pointer.
func C18Twice(arg int) {
	good := call("Neg8", ast.Variable("x"))
	bad := call("Neg8", ast.Variable("x"))
	decorate(bad, 1<<uint(nd.Choose(6)))
	r := &ast.Rule{Match: call("Add8", good, good), Result: call("Add8", good, bad)}
	switch nd.Choose(4) {
	case 1:
		r = &ast.Rule{Match: call("Add8", good, bad), Result: good}
	case 2:
		r = &ast.Rule{Match: bad, Result: bad}
	case 3:
		r = &ast.Rule{Match: call("Add8", good, call("Com8", bad)), Result: call("Add8", good, call("Com8", good))}
	}
	if _, err := smt2.Generate(&ast.Rule{Match: good, Result: good}); err != nil {
		nd.Assert(false, "no script for a well-typed rule: "+err.Error())
	}
	refused(r, "a feature it does not model")
}

// richWriter is a faultWriter that has the other methods writers may have.
type richWriter struct{ faultWriter }

func (w *richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *richWriter) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}

func (w *richWriter) WriteRune(r rune) (int, error) {
	b := make([]byte, utf8.UTFMax)
	return w.Write(b[:utf8.EncodeRune(b, r)])
}

func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

// richFails: every write of write(w) in turn fails, in three ways.
func richFails(want string, write func(w io.Writer) error) {
	count := &richWriter{faultWriter{failAt: -1}}
	err := write(count)
	nd.Assert(err == nil, "an error although no write failed")
	nd.Assert(string(count.got) == want, "the writer received "+string(count.got)+", the text is "+want)
	if count.calls == 0 {
		return
	}
	at := 0
	if count.calls <= 60 {
		at = nd.Choose(count.calls)
	} else if k := nd.Choose(60); k < 20 {
		at = k
	} else if k < 40 {
		at = count.calls - 1 - (k - 20)
	} else {
		at = count.calls * (k - 39) / 21
	}
	w := &richWriter{faultWriter{failAt: at, part: nd.Choose(3), err: []error{errWrite, io.EOF, io.ErrShortWrite}[nd.Choose(3)]}}
	err = write(w)
	nd.Assert(err != nil, "write "+itoa(w.failAt)+" of "+itoa(count.calls)+" failed and that is not reported")
	nd.Assert(w.after == 0, "something was written after a failed write")
	nd.Assert(len(w.got) <= len(want) && string(w.got) == want[:len(w.got)], "what was written before the failure is not the start of the text")
	nd.Reach("failed")
}

// C10Rich: writers with further methods; arg = node.
func C10Rich(arg int) {
	n := printNode(arg)
	want, err := printer.Bytes(n)
	if err != nil {
		nd.Assert(false, "cannot print: "+err.Error())
		return
	}
	richFails(string(want), func(w io.Writer) error { return printer.Fprint(w, n) })
}

// C23Rich: the same for dumps.
func C23Rich(arg int) {
	n := printNode(arg)
	richFails(listed(n), func(w io.Writer) error { return ast.Fprint(w, n) })
}

// richReader is a pieceReader that has the other methods readers may have.
type richReader struct{ pieceReader }

func (r *richReader) Len() int    { return len(r.data) - r.at }
func (r *richReader) Size() int64 { return int64(len(r.data)) }

func (r *richReader) ReadByte() (byte, error) {
	b := make([]byte, 1)
	n, err := r.Read(b)
	if n == 1 {
		return b[0], nil
	}
	return 0, err
}

func (r *richReader) UnreadByte() error {
	if r.at == 0 {
		return errors.New("nothing to unread")
	}
	r.at--
	return nil
}

func (r *richReader) WriteTo(w io.Writer) (int64, error) {
	end, fin := len(r.data), error(nil)
	if r.failAt >= 0 {
		end, fin = r.failAt, r.err
	}
	n, err := w.Write([]byte(r.data[r.at:end]))
	r.at += n
	if err == nil {
		err = fin
	}
	return int64(n), err
}

func (r *richReader) Close() error { return nil }

// C08Rich: readers with further methods, that fail after any number of bytes or do not; arg = text.
func C08Rich(arg int) {
	text := readTexts[arg]
	r := &richReader{pieceReader{data: text, failAt: -1, max: []int{0, 2}[nd.Choose(2)], with: nd.Choose(2) == 1}}
	if nd.Choose(2) == 0 {
		if r.max > 0 {
			r.max = 1
		}
		samePieces(text, r)
		return
	}
	r.failAt, r.err, r.max = nd.Choose(len(text)+1), readError(nd.Choose(readErrors)), 0
	if r.failAt == 0 {
		r.with = false
	}
	f, err := parse.Reader("in", r)
	nd.Assert(f == nil && err != nil, "reading failed after "+itoa(r.failAt)+" bytes of "+text+" and that is not reported")
	if err != nil {
		nd.Assert(err == r.err || errors.Is(err, r.err) || strings.Contains(err.Error(), r.err.Error()), "the read error became "+err.Error())
	}
	nd.Reach("failed")
}

// C20Missing: a missing input with an unusual name.
func C20Missing(arg int) {
	names := []string{"-", "", " ", ".rules", "a.rules ", "./-", "/dev/none", "*.rules", "a.rul", "A.rules", "a.rules/", "a.rules/x", "http://x", "@a", "nul", "%s", "a.rules:1", "~/x", "\n", "stdin"}
	name := names[nd.Choose(len(names))]
	before := []outFile{put("a.rules", "(Neg8 x) => y\n"), put("b.rules", "(Not x) => y\n")}
	args := [][]string{{name}, {"a.rules", name}, {name, "a.rules"}, {"a.rules", name, "b.rules"}}[nd.Choose(4)]
	failedEarly(runCommand(args...), before, "the input "+name+" is missing")
}
