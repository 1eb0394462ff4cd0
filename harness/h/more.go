package h

import (
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
)

// wide is one of a few characters outside ASCII.
func wide() string {
	return []string{"\u00e9", "\u0085", "\u00a0", "\u07ff", "\u2028", "\ufeff", "\u212a", "\U0001d4d0"}[nd.Choose(8)]
}

// wideText puts one of them at any place of a base, between two characters or instead of one; arg = base + 10*replaced.
func wideText(arg int) string {
	base := bases[arg%10]
	at := nd.Choose(len(base) - arg/10 + 1)
	return base[:at] + wide() + base[at+arg/10:]
}

// anyChar is any character of n bytes in UTF-8.
func anyChar(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
		if i > 0 {
			nd.Assume(b[i] >= 0x80)
			nd.Assume(b[i] <= 0xbf)
		}
	}
	switch n {
	case 2:
		nd.Assume(b[0] >= 0xc2)
		nd.Assume(b[0] <= 0xdf)
	case 3:
		switch nd.Choose(3) {
		case 0:
			nd.Assume(b[0] == 0xe0)
			nd.Assume(b[1] >= 0xa0)
		case 1:
			nd.Assume(b[0] >= 0xe1)
			nd.Assume(b[0] <= 0xef)
			nd.Assume(b[0] != 0xed)
		case 2:
			nd.Assume(b[0] == 0xed)
			nd.Assume(b[1] <= 0x9f)
		}
	case 4:
		switch nd.Choose(3) {
		case 0:
			nd.Assume(b[0] == 0xf0)
			nd.Assume(b[1] >= 0x90)
		case 1:
			nd.Assume(b[0] >= 0xf1)
			nd.Assume(b[0] <= 0xf3)
		case 2:
			nd.Assume(b[0] == 0xf4)
			nd.Assume(b[1] <= 0x8f)
		}
	}
	return string(b)
}

var widePlaces = []string{"\x00", "(A) => x\x00", "(A) => \x00", "(A \x00) => x", "(\x00) => x", "x\x00:(A) => x", "(A) && a\x00 => x", "(A) && \"\x00\" => x", "//\x00\n(A) => x", "(A [\x00]) => x", "(A <\x00>) => x", "(A) =>\x00x", "(A\x00x) => x",
	"(A) \x00 x", "(A) \x00=> x", "(A) && a \x00 => x", "(A) => @\x00 x", "(A(8|\x00)) => x", "\x00(A) => x", "(A \x00", "(A <\x00", "(A) => x//\x00", "(A ..\x00) => x", "(A __\x00) => x", "(A \x00c]) => x", "(A \x00t>) => x", "(A) => f\x00x)", "(A) => f(x\x00y)", "(A) \x00& a => x"}

// anyWide is any character of some bytes at one kind of place; arg = 10*place + bytes.
func anyWide(arg int) string {
	return strings.ReplaceAll(widePlaces[arg/10], "\x00", anyChar(arg%10))
}

// C04Wide: a comment that holds any character, in any gap outside conditions; arg = template + 10*bytes.
func C04Wide(arg int) {
	t := templates[arg%10]
	gap := nd.Choose(gapCount(t))
	if condGap(arg%10, gap) {
		return
	}
	c := anyChar(arg / 10)
	if arg%10 == 5 {
		// Go source text may not hold a byte order mark
		nd.Assume(c != "\ufeff")
	}
	text := fill(t, func(n int, must bool) (string, bool) {
		return " //" + c + "\n", n == gap
	})
	sameAsPlain(text, fill(t, noGap))
}

// C07WideAny: the place of an error behind or at any character.
func C07WideAny(arg int) { errorPlace(anyWide(arg), inputNames[0]) }

// C02WideAny: any character of two bytes at a place.
func C02WideAny(arg int) {
	text := anyWide(arg)
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// C09WideAny: and what is accepted survives printing.
func C09WideAny(arg int) { roundTripText(anyWide(arg)) }

// C02Wide: a character outside ASCII at any place of a base, between two characters or instead of one; arg = base + 10*replaced.
func C02Wide(arg int) {
	text := wideText(arg)
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// C09Wide: and what is accepted survives printing.
func C09Wide(arg int) { roundTripText(wideText(arg)) }

// C07WideAt: the place of the error.
func C07WideAt(arg int) { errorPlace(wideText(arg), inputNames[0]) }

// C02Markers: ellipsis and trailing markers in any order and number, with arguments before, between and behind.
func C02Markers(arg int) {
	text := "(A"
	for i := 0; i < arg; i++ {
		text += []string{"", " ", "\t"}[nd.Choose(3)] + []string{"...", "___", "x", "_", "__", "....", ".."}[nd.Choose(7)]
	}
	text += []string{"", " "}[nd.Choose(2)] + ") => x"
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// C02Parts: operators pieced together from words, alternations and separators in any order.
func C02Parts(arg int) {
	text := "("
	for i := 0; i < arg; i++ {
		text += []string{"A", "8", "(B|C)", "(D)", "()", "|", "(|)", "(E|)", "(|F)", "(G||H)", "(I |J)", "(K|(L|M))", " "}[nd.Choose(13)]
	}
	text += " x) => y"
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// twice is a rule with any features on a value and any on one within it.
func twice(arg int) *ast.File {
	in := &ast.SExpr{Op: ast.Opcode("In"), Args: []ast.Value{ast.Variable("i")}}
	if arg&2 != 0 {
		in.Args = nil
	}
	out := &ast.SExpr{Op: ast.Opcode("Out"), Args: []ast.Value{ast.Variable("o"), in, ast.Placeholder}}
	if arg&4 != 0 {
		out.Args = []ast.Value{in}
	}
	decorate(out, nd.Choose(64))
	decorate(in, nd.Choose(64))
	if out.Type != "" && in.Type != "" {
		in.Type = "u"
	}
	if out.Binding != "" {
		in.Binding = map[ast.Variable]ast.Variable{"b": "c", "": ""}[in.Binding]
	}
	if in.AuxInt != nil {
		in.AuxInt = goExpr("d+1")
	}
	if in.Aux != nil {
		in.Aux = goExpr("s.g")
	}
	return &ast.File{Rules: []*ast.Rule{ruleAround(out, arg&1)}}
}

// C03Two: every set of features on a value and every set on one within it; arg: bit 0 the side, bit 1 and 2 the arguments.
func C03Two(arg int) {
	f := twice(arg)
	checkTree(renderFile(f, plain), f)
}

// C09Two: likewise for printing and parsing.
func C09Two(arg int) {
	f := twice(arg)
	roundTripText(renderFile(f, plain))
}

// C11Two: likewise for expansion, with alternations on both.
func C11Two(arg int) {
	f := twice(arg)
	r := f.Rules[0]
	s, ok := r.Match.(*ast.SExpr)
	if arg&1 != 0 {
		s, ok = r.Result.(*ast.SExpr)
	}
	if ok {
		s.Op = ast.OpcodeParts{ast.Opcode("O"), ast.OpcodeAlt{"8", "16"}}
		for _, a := range s.Args {
			if t, ok := a.(*ast.SExpr); ok {
				t.Op = ast.OpcodeParts{ast.OpcodeAlt{"I", "J"}}
			}
		}
	}
	checkExpansion(f)
}

// C11Same: alternations in which entries are alike, empty or the same as in another place.
func C11Same(arg int) {
	e := func() ast.Opcode { return []ast.Opcode{"8", "16", "x", ""}[nd.Choose(4)] }
	alt := func() ast.OpcodeAlt {
		var a ast.OpcodeAlt
		for i := 0; i < arg; i++ {
			a = append(a, e())
		}
		return a
	}
	r := &ast.Rule{Match: &ast.SExpr{Op: ast.OpcodeParts{ast.Opcode("x"), alt()}, Args: []ast.Value{ast.Variable("x")}}, Result: &ast.SExpr{Op: ast.OpcodeParts{alt(), ast.Opcode("x")}, Args: []ast.Value{ast.Variable("8"), ast.Variable("x")}}}
	f := &ast.File{Rules: []*ast.Rule{r}}
	if nd.Choose(2) == 1 {
		f.Rules = append(f.Rules, r)
	}
	checkExpansion(f)
}

// C11Shared: the same value, rule or argument list in several places.
func C11Shared(arg int) {
	leaf := &ast.SExpr{Op: altOp(nd.Choose(altForms), 2), Args: []ast.Value{ast.Variable("x")}}
	args := []ast.Value{leaf, ast.Variable("y"), leaf}
	m := &ast.SExpr{Op: altOp(nd.Choose(altForms), 2), Args: args}
	r := &ast.Rule{Match: m, Result: &ast.SExpr{Op: ast.Opcode("R"), Args: args[1:]}}
	switch nd.Choose(3) {
	case 0:
		r.Result = leaf
	case 1:
		r.Result = m
	}
	f := &ast.File{Rules: []*ast.Rule{r, {Match: leaf, Result: ast.Variable("z")}, r}}
	checkIntact(f)
	checkExpansion(&ast.File{Rules: []*ast.Rule{r, {Match: leaf, Result: ast.Variable("z")}, r}})
}

// C12Pairs: two alternations of any numbers of entries from 2 to arg, in one operator or at any two places.
func C12Pairs(arg int) {
	alt := func(n int) ast.OpcodeAlt {
		return ast.OpcodeAlt{"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9", "e10", "e11"}[:n]
	}
	m, n := 2+nd.Choose(arg-1), 2+nd.Choose(arg-1)
	a := nd.Choose(6)
	b := nd.Choose(6)
	checkExpansion(&ast.File{Rules: []*ast.Rule{skeleton(func(i int) ast.Op {
		switch {
		case i == a && a == b:
			return ast.OpcodeParts{alt(m), ast.Opcode("O"), alt(n)}
		case i == a:
			return ast.OpcodeParts{ast.Opcode("O"), alt(m)}
		case i == b:
			return ast.OpcodeParts{alt(n), ast.Opcode("O")}
		}
		return ast.Opcode("O" + itoa(i))
	})}})
}

// C12Triples: three alternations of 2 to arg entries at three places.
func C12Triples(arg int) {
	places := [][3]int{{0, 1, 2}, {0, 4, 5}, {2, 3, 5}, {3, 4, 4}, {1, 1, 1}}[nd.Choose(5)]
	w := [3]int{2 + nd.Choose(arg-1), 2 + nd.Choose(arg-1), 2 + nd.Choose(arg-1)}
	checkExpansion(&ast.File{Rules: []*ast.Rule{skeleton(func(i int) ast.Op {
		var ps ast.OpcodeParts
		for k, p := range places {
			if p == i {
				ps = append(ps, ast.OpcodeAlt{"e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7"}[:w[k]])
			}
		}
		if ps == nil {
			return ast.Opcode("O" + itoa(i))
		}
		return ps
	})}})
}

// C08Huge: a text of many thousand bytes of layout and comments around rules; arg = thousands of bytes.
func C08Huge(arg int) {
	fill := strings.Repeat([]string{"          ", "// 3456789\n", "\n\n\n\n\n\n\n\n\n\n"}[nd.Choose(3)], arg*100)
	if nd.Choose(2) == 1 {
		fill = "//" + strings.Repeat("=", arg*1000) + "\n"
	}
	text := "(A x) => x\n" + fill + "(B y) => y\n"
	f, err := parse.Reader("string", &evenReader{data: text, size: 4096, failAt: -1})
	if err != nil {
		nd.Assert(false, "rejected a text with much layout: "+err.Error())
		return
	}
	nd.Assert(dumpFile(f) == refParse("(A x) => x (B y) => y").dump(), "a text with much layout parses as "+dumpFile(f))
	nd.Reach("accepted")
	f, err = parse.Reader("string", &evenReader{data: text, size: 4096, failAt: len(text) - 5})
	nd.Assert(f == nil && err != nil, "a read failure after many bytes is not reported")
	f, err = parse.String(text[:len(text)-3])
	nd.Assert(f == nil && err != nil, "the end of a long text is not read")
}

// C19InNames: names of input files.
func C19InNames(arg int) {
	names := []string{"-", "a b.rules", "é.rules", "x.smt2", "./a.rules", "sub/../a.rules", "0001.smt2", "sub/0000.smt2", "*", "[a].rules", "a,b", "~", "$HOME", "%d.rules", "a\nb", "--x", "sub//a.rules", "0000.smt2 "}
	nd.PutFile("sub", 1, "")
	name := names[nd.Choose(len(names))]
	text := "(Add8 x y) => x (Foo x) => x (Not a) => b\n"
	clean := map[string]string{"./a.rules": "a.rules", "sub/../a.rules": "a.rules", "sub//a.rules": "sub/a.rules"}[name]
	if clean == "" {
		clean = name
	}
	before := []outFile{put(clean, text), put("z.rules", "(Neg16 x) => x")}
	args := []string{name, "z.rules"}
	read := []string{text, "(Neg16 x) => x"}
	if nd.Choose(2) == 1 {
		args[0], args[1] = args[1], args[0]
		read[0], read[1] = read[1], read[0]
	}
	if args[0] == "--x" {
		args = append([]string{"--"}, args...)
	}
	want, _ := expectFiles("", read)
	checkRun(runCommand(args...), before, want)
}
