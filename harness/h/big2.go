package h

import (
	"io"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// spoiled is the text of a big file with a symbolic character in place of one of its own or between two, or cut off.
func spoiled(kind, n int) string {
	fixed = true
	text := renderFile(bigFile(kind, n), plain)
	fixed = false
	k := nd.Choose(7)
	at := []int{0, 1, len(text) / 3, len(text) / 2, len(text) * 3 / 4, len(text) - 2, len(text) - 1}[k]
	if n > 100 {
		return text[:at+1] + []string{"", "\n", " x", ")"}[nd.Choose(4)]
	}
	switch nd.Choose(3) {
	case 0:
		return text[:at] + string([]byte{ascii()}) + text[at+1:]
	case 1:
		return text[:at] + string([]byte{ascii()}) + text[at:]
	}
	return text[:at+1] + []string{"", "\n", " x"}[nd.Choose(3)]
}

// C01Big: either a file or an error for a spoiled big text; arg = kind + 100*n.
func C01Big(arg int) {
	text := spoiled(arg%100, arg/100)
	f, err := parsed(text)
	observe(text, f, err)
}

// C02Big: a spoiled big text against the reference reading.
func C02Big(arg int) {
	text := spoiled(arg%100, arg/100)
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// C07Big: the place of the error in a spoiled big text.
func C07Big(arg int) {
	errorPlace(spoiled(arg%100, arg/100), inputNames[0])
}

// C07Lines: an error after many lines or many columns; arg = how many.
func C07Lines(arg int) {
	lead := ""
	switch nd.Choose(5) {
	case 0:
		lead = strings.Repeat("\n", arg)
	case 1:
		lead = strings.Repeat(" ", arg)
	case 2:
		lead = strings.Repeat("// é\n", arg)
	case 3:
		lead = "// " + strings.Repeat("é", arg) + "\n" + strings.Repeat("\r", arg)
	case 4:
		lead = strings.Repeat("(A x) => x\n", arg)
	}
	errorPlace(lead+[]string{")", "(A [f(] x) => x", "(A x) => ", "(A <é", "=>\n\n"}[nd.Choose(5)]+string([]byte{ascii()}), inputNames[nd.Choose(len(inputNames))])
}

// C07Names: names of any characters.
func C07Names(arg int) {
	name := ""
	switch nd.Choose(3) {
	case 0:
		name = string([]byte{nd.Byte(), nd.Byte()})
	case 1:
		name = "a" + string([]byte{nd.Byte()}) + ".rules"
	case 2:
		name = []string{"%", "%s", "a%d.rules", "%!v", "100%", "x\n", "a\nb", "é", "a:b:c", ":", "", " ", "\t", "\"q\"", "'q'", `\n`, "a/b/c", strings.Repeat("n", 300)}[nd.Choose(18)]
	}
	if name == "" {
		nd.Reach("unnamed")
	}
	errorPlace([]string{"(A", "(A [f(] x) => x\n", "(A) => (B) )"}[nd.Choose(3)], name)
}

// C04Big: arg blanks or comment lines in one gap of a template, a symbolic blank among them; arg = template + 10*size.
func C04Big(arg int) {
	t := templates[arg%10]
	n := arg / 10
	gap := nd.Choose(gapCount(t))
	text := fill(t, func(k int, must bool) (string, bool) {
		if k != gap {
			return "", false
		}
		lead := ""
		if must {
			lead = " "
		}
		switch nd.Choose(6) {
		case 0:
			return strings.Repeat(" ", n) + string([]byte{blank()}), true
		case 1:
			return strings.Repeat("\n", n) + string([]byte{blank()}) + strings.Repeat("\n", n), true
		case 2:
			return lead + strings.Repeat("// c\n", n), true
		case 3:
			c := commentByte()
			// a NUL is no Go source text, and what stands within a call is Go
			nd.Assume(c != 0 || arg%10 != 5)
			return lead + "//" + strings.Repeat("x", n) + string([]byte{c}) + strings.Repeat("=> ", n) + "\n", true
		case 4:
			return strings.Repeat(" \t\r\n", n), true
		}
		return lead + strings.Repeat("// (A) => (B)\n\n\t", n), true
	})
	sameAsPlain(text, fill(t, noGap))
}

// C04Ends: a long comment or many blanks at the end of the text, without a newline.
func C04Ends(arg int) {
	base := []string{"(A) => (B)", "(A) => x", "(A) => f(x)"}[nd.Choose(3)]
	end := []string{strings.Repeat(" ", arg), " //" + strings.Repeat("c", arg), strings.Repeat("\n", arg) + "//", strings.Repeat("\n// x", arg), "//\n" + strings.Repeat("\t", arg)}[nd.Choose(5)]
	sameAsPlain(base+end, base)
}

// C05Big: the rules of two big files, one after the other; arg as above.
func C05Big(arg int) {
	n := arg / 100
	fixed = nd.Choose(2) == 0
	nd.Assume(fixed || n < 10)
	a := renderFile(bigFile(arg%100, n), plain)
	fixed = false
	var parts []string
	f, err := parsed(a)
	if err != nil {
		nd.Assert(false, "rejected "+a+": "+err.Error())
		return
	}
	for _, r := range f.Rules {
		// the text of each of its rules
		b, err := printer.Bytes(r)
		if err != nil {
			nd.Assert(false, "cannot print: "+err.Error())
			return
		}
		parts = append(parts, string(b))
	}
	last := "(Last" + string([]byte{wordByte()}) + ") => y"
	concat(a+[]string{"\n", " ", "\n//" + strings.Repeat("c", n) + "\n", strings.Repeat("\n", n)}[nd.Choose(4)]+last, append(parts, last))
}

// C08Big: a big text delivered in pieces of one size, or cut at one place; arg as above.
func C08Big(arg int) {
	fixed = true
	text := renderFile(bigFile(arg%100, arg/100), plain)
	fixed = false
	size := []int{1, 2, 3, 7, 64, 256, 512, 1024, 4096}[nd.Choose(9)]
	f, err := parse.Reader("string", &evenReader{data: text, size: size, with: nd.Choose(2) == 1, failAt: -1})
	g, err2 := parse.String(text)
	if err != nil || err2 != nil {
		nd.Assert(false, "rejected "+text)
		return
	}
	if dumpFile(f) != dumpFile(g) {
		nd.Assert(false, "delivery in pieces changes what "+text+" parses as")
	}
	nd.Reach("accepted")
}

// C08BigFail: reading it fails somewhere.
func C08BigFail(arg int) {
	fixed = true
	text := renderFile(bigFile(arg%100, arg/100), plain)
	fixed = false
	size := []int{1, 7, 512, 4096}[nd.Choose(4)]
	at := []int{0, 1, len(text) / 2, len(text) - 1, len(text)}[nd.Choose(5)]
	r := &evenReader{data: text, size: size, failAt: at}
	f, err := parse.Reader("string", r)
	nd.Assert(f == nil && err != nil && strings.Contains(err.Error(), errRead.Error()), "reading failed after "+itoa(at)+" bytes and that is not reported")
}

// evenReader hands out pieces of one size.
type evenReader struct {
	data   string
	size   int
	at     int
	failAt int
	with   bool
}

func (r *evenReader) Read(p []byte) (int, error) {
	end, fin := len(r.data), io.EOF
	if r.failAt >= 0 {
		end, fin = r.failAt, errRead
	}
	n := end - r.at
	if n == 0 {
		return 0, fin
	}
	if n > r.size {
		n = r.size
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.at:r.at+n])
	r.at += n
	if r.with && r.at == end {
		return n, fin
	}
	return n, nil
}

// bigTyped is a well-typed rule with many nodes, variables or placeholders.
func bigTyped(kind, n int) *ast.Rule {
	w := []string{"8", "16", "32", "64"}[kind%4]
	x, y := ast.Variable("x"), ast.Variable("y")
	var v ast.Value = x
	switch kind / 4 {
	case 0: // many variables
		for i := 0; i < n; i++ {
			v = call("Add"+w, v, ast.Variable("x"+itoa(i)))
		}
		return &ast.Rule{Match: v, Result: call("Neg"+w, ast.Variable("x"+itoa(some2(n))))}
	case 1: // many placeholders
		for i := 0; i < n; i++ {
			v = call("Xor"+w, ast.Placeholder, v)
		}
		return &ast.Rule{Match: v, Result: ast.Placeholder}
	case 2: // deep
		for i := 0; i < n; i++ {
			v = call("Com"+w, v)
			if i%5 == 4 {
				v = call("Sub"+w, y, v)
			}
		}
		return &ast.Rule{Match: v, Result: x}
	case 3: // on both sides
		for i := 0; i < n; i++ {
			v = call("And"+w, ast.Variable("v"+itoa(i)), call("Neg"+w, v))
		}
		return &ast.Rule{Match: v, Result: v}
	case 4: // Boolean
		for i := 0; i < n; i++ {
			v = call([]string{"AndB", "OrB", "EqB", "NeqB"}[i%4], v, []ast.Value{ast.Placeholder, x, ast.Variable("b" + itoa(i))}[i%3])
			if i%3 == 1 {
				v = call("Not", v)
			}
		}
		return &ast.Rule{Match: v, Result: call("Not", y)}
	}
	panic("harness: no such kind")
}

const bigTypeds = 20

// C16Big: a big rule's script is well formed; arg = kind + 100*n.
func C16Big(arg int) {
	c := wellFormed(bigTyped(arg%100, arg/100))
	nd.Assert(c != nil, "no script for a well-typed rule")
}

// C17Big: and its verdict and constants are right; rules that are sound and near misses.
func C17Big(arg int) {
	n := arg / 100
	w := []string{"8", "16", "32", "64"}[arg%4]
	x, y := ast.Variable("x"), ast.Variable("y")
	var v ast.Value = x
	var r *ast.Rule
	switch arg % 100 / 4 {
	case 0: // n negations
		for i := 0; i < n; i++ {
			v = call("Com"+w, v)
		}
		r = &ast.Rule{Match: v, Result: []ast.Value{x, call("Com"+w, x)}[nd.Choose(2)]}
	case 1: // adding x up and taking it away
		for i := 0; i < n; i++ {
			v = call("Xor"+w, v, ast.Variable("y"+itoa(i)))
		}
		for i := n - 1 - nd.Choose(2); i >= 0; i-- {
			v = call("Xor"+w, v, ast.Variable("y"+itoa(i)))
		}
		r = &ast.Rule{Match: v, Result: x}
	case 2: // the same or another variable at the end of a long list
		var u ast.Value = x
		for i := 0; i < n; i++ {
			v = call("Or"+w, ast.Variable("y"+itoa(i)), v)
			k := i
			if i == n-1 {
				k += nd.Choose(2)
			}
			u = call("Or"+w, ast.Variable("y"+itoa(k)), u)
		}
		r = &ast.Rule{Match: v, Result: u}
	case 3: // placeholders are never the same
		for i := 0; i < n; i++ {
			v = call("And"+w, v, ast.Placeholder)
		}
		r = &ast.Rule{Match: v, Result: []ast.Value{v, x, call("And"+w, v, call("Xor"+w, y, y))}[nd.Choose(3)]}
	case 4: // Boolean
		for i := 0; i < n; i++ {
			v = call([]string{"EqB", "NeqB"}[i%2], v, []ast.Value{y, y, call("Not", y)}[i%3])
		}
		r = &ast.Rule{Match: v, Result: []ast.Value{x, call("Not", x), call("EqB", x, y), call("NeqB", y, y)}[nd.Choose(4)]}
	}
	sameVerdict(r)
}

// C18Big: one feature, one unknown opcode or one wrong operand in a big rule.
func C18Big(arg int) {
	r := cloneRule(bigTyped(arg%100, arg/100))
	ss := sexprsOf(r)
	s := ss[some2(len(ss))]
	switch nd.Choose(7) {
	case 0:
		decided(r)
		return
	case 1:
		setFeature(s, nd.Choose(6), true)
	case 2:
		s.Op = ast.Opcode("Foo")
	case 3:
		s.Args = append(s.Args, ast.Variable("extra"))
	case 4:
		s.Args = s.Args[:len(s.Args)-1]
	case 5:
		s.Args[len(s.Args)-1] = goExpr("f(x)")
	case 6:
		s.Args[0] = call("EqB", ast.Variable("p"), call("Neg8", ast.Variable("q")))
	}
	refused(r, "something it does not model")
}

// C19Numbers: one rule with so many alternatives that the numbers get long; only some of them can be generated.
func C19Numbers(arg int) {
	alts := make([]string, arg)
	for i := range alts {
		alts[i] = "F"
	}
	for _, i := range []int{0, arg / 2, arg - 2, arg - 1, 9, 10, 99, 100, 999, 1000, 9998, 9999} {
		if i < arg {
			alts[i] = "Not"
		}
	}
	text := "((" + strings.Join(alts, "|") + ") x" + string([]byte{lower()}) + ") => y\n"
	before := []outFile{put("a.rules", text)}
	want, _ := expectFiles("", []string{text})
	checkRun(runCommand("a.rules"), before, want)
}

// C19Big: a big file among others; arg = kind + 100*n.
func C19Big(arg int) {
	text := renderFile(bigFile(arg%100, arg/100), plain)
	before := []outFile{put("a.rules", "(Add8 x y) => x\n"), put("b.rules", text), put("c.rules", "(Add16 x y) => x\n")}
	want, ok := expectFiles("", []string{before[0].data, text, before[2].data})
	if !ok {
		nd.Assert(false, "harness: mismatch")
		return
	}
	checkRun(runCommand("a.rules", "b.rules", "c.rules"), before, want)
}

// C19Typed: many big rules that can be generated; arg = kind + 100*n.
func C19Typed(arg int) {
	text := ""
	for i := 0; i < 3; i++ {
		text += renderRule(bigTyped(arg%100, arg/100-i), plain) + "\n"
	}
	before := []outFile{put("a.rules", text)}
	want, _ := expectFiles("", []string{text})
	checkRun(runCommand("a.rules"), before, want)
}

// C20Big: a bad input after a big one, or a bad rule at the end of a big one; arg = kind + 100*n.
func C20Big(arg int) {
	text := "(Neg8 x) => x\n" + renderFile(bigFile(arg%100, arg/100), plain)
	bad := []string{")", "(Add8 x y) => ", "(Add(8|16) x) => (Add(8|16|32) x)", "(A [T{}]) => x", "\xff"}[nd.Choose(5)]
	var before []outFile
	args := []string{"a.rules"}
	if nd.Choose(2) == 0 {
		before = []outFile{put("a.rules", text+"\n"+bad)}
	} else {
		before = []outFile{put("a.rules", text), put("b.rules", bad)}
		args = append(args, "b.rules")
	}
	failedEarly(runCommand(args...), before, "an input is "+bad)
}

// C20ManyFiles: arg input files, one of them bad.
func C20ManyFiles(arg int) {
	at := some(arg)
	bad := nd.Choose(4)
	var before []outFile
	var args []string
	for i := 0; i < arg; i++ {
		name := "f" + itoa(i) + ".rules"
		args = append(args, name)
		text := "(Neg8 x" + itoa(i) + ") => x\n"
		if i == at {
			if bad == 0 {
				continue
			}
			text += []string{"", "(A", "(Add(8|16) x) => (Add(8|16|32) x)", ") => x"}[bad]
		}
		before = append(before, put(name, text))
	}
	failedEarly(runCommand(args...), before, "an input is bad")
}

// C21Big: a big input before any other operation, and the same big input again; arg = kind + 100*n.
func C21Big(arg int) {
	fixed = arg >= 1000
	f := bigFile(arg%100, arg/100)
	fixed = false
	text := renderFile(f, plain)
	g, err := parsed(text)
	nd.Assert(err == nil, "rejected "+text)
	a, err := printer.Bytes(f)
	nd.Assert(err == nil, "cannot print")
	kind := nd.Choose(opKinds)
	k := nd.Choose(inputs(kind))
	nd.Observe("result", perform(kind, k))
	b, err := printer.Bytes(f)
	nd.Assert(err == nil && string(a) == string(b), "printing again gives "+string(b)+" instead of "+string(a))
	g2, err := parsed(text)
	nd.Assert(err == nil && dumpFile(g) == dumpFile(g2), "parsing again gives another file")
	nd.Assert(dumpFile(g) == dumpFile(f), "the printer changed the file")
}

// C21BigTyped: likewise for generation.
func C21BigTyped(arg int) {
	r := bigTyped(arg%100, arg/100)
	was := dumpRule(r)
	a, err := smt2.Generate(r)
	nd.Assert(err == nil, "no script")
	kind := nd.Choose(opKinds)
	k := nd.Choose(inputs(kind))
	nd.Observe("result", perform(kind, k))
	nd.MapOrder(nd.Choose(2) == 1)
	b, err := smt2.Generate(r)
	nd.Assert(err == nil && string(a) == string(b), "generating again gives another script:\n"+string(b)+"\ninstead of\n"+string(a))
	nd.Assert(dumpRule(r) == was, "generation changed the rule")
}
