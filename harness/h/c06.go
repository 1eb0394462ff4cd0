package h

import (
	goscanner "go/scanner"
	gotoken "go/token"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/printer"
)

// tokens lists the Go tokens of a source text: layout, comments and automatic semicolons are left out,
// and so is a comma before a closing parenthesis.
func tokens(src string) []string {
	var s goscanner.Scanner
	fs := gotoken.NewFileSet()
	s.Init(fs.AddFile("", fs.Base(), len(src)), []byte(src), nil, 0)
	var out []string
	for {
		_, tok, lit := s.Scan()
		if tok == gotoken.EOF {
			return out
		}
		if tok == gotoken.SEMICOLON && lit == "\n" {
			continue
		}
		t := tok.String()
		if tok == gotoken.IDENT || tok.IsLiteral() {
			t += " " + lit
		}
		if tok == gotoken.RPAREN && len(out) > 0 && out[len(out)-1] == "," {
			out = out[:len(out)-1]
		}
		out = append(out, t)
	}
}

func joined(ts []string) string {
	s := ""
	for _, t := range ts {
		s += lp(t)
	}
	return s
}

// keepsExprs prints what was parsed and compares the embedded expressions token by token.
func keepsExprs(text string, f *ast.File) {
	want := refParse(text)
	if !want.ok {
		// C02's business
		return
	}
	if got := dumpFile(f); want.dump() != got && nd.Known("cond-comment") {
		// the recorded defect, exactly as recorded
		if old := refRead(text, true); old.ok && old.dump() == got {
			return
		}
	}
	b, err := printer.Bytes(f)
	if err != nil {
		nd.Assert(false, "cannot print "+text+": "+err.Error())
		return
	}
	out := string(b)
	nd.Observe("printed", out)
	back := refParse(out)
	nd.Assert(back.ok, "printed "+text+" as "+out+", which is no rule text")
	if !back.ok {
		return
	}
	nd.Assert(len(back.srcs) == len(want.srcs), "printed "+text+" as "+out+", with another number of Go expressions")
	if len(back.srcs) != len(want.srcs) {
		return
	}
	for i := range want.srcs {
		a, b := joined(tokens(want.srcs[i])), joined(tokens(back.srcs[i]))
		nd.Assert(a == b, "the expression "+want.srcs[i]+" is printed as "+back.srcs[i])
	}
	for _, r := range f.Rules {
		for _, e := range ruleExprs(r) {
			nd.Assert(posFree(e), "source positions are left in an expression of "+text)
		}
	}
	nd.Reach("kept")
}

// exprBases are expressions around which windows of symbolic bytes are placed.
var exprBases = []string{
	/* 0 */ "x - -y",
	/* 1 */ "a&^b",
	/* 2 */ "x&y",
	/* 3 */ "f(a,b)",
	/* 4 */ "!p && q",
	/* 5 */ "1.5+x",
	/* 6 */ "'a'==c",
	/* 7 */ "s+\"t\"",
	/* 8 */ "(x)*y.z",
	/* 9 */ "a<<1|b",
	/* 10 */ "f(a...)",
	/* 11 */ "x/y",
	/* 12 */ "*p.q",
	/* 13 */ "a/ *p",
	/* 14 */ "0x1f",
}

// exprPlaces put an expression text into a rule.
func exprPlace(place int, src string) string {
	switch place {
	case 0:
		return "(A [" + src + "] x) => (B x)"
	case 1:
		return "(A x) => (B {" + src + "} x)"
	case 2:
		return "(A x) && " + src + " => (B x)"
	}
	return "(A x) => " + src
}

// C06Window: arg = base + 100*edit + 1000*place.
func C06Window(arg int) {
	e := edits[arg/100%10]
	src := window(exprBases[arg%100], e[0], e[1])
	text := exprPlace(arg/1000, src)
	nd.Observe("text", text)
	f, err := parsed(text)
	if err != nil {
		nd.Reach("rejected")
		return
	}
	keepsExprs(text, f)
}

// C06Calls: windows over call values; arg = edit.
func C06Calls(arg int) {
	e := edits[arg]
	text := "(A x) => " + window("f(a, g(_),b)", e[0], e[1])
	nd.Observe("text", text)
	f, err := parsed(text)
	if err != nil {
		nd.Reach("rejected")
		return
	}
	keepsExprs(text, f)
}

var unaryOps = []string{"-", "+", "!", "^", "*", "&", "<-"}
var binaryOps = []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&^", "==", "!=", "<", "<=", ">=", ">", "&&", "||"}

// operand is a small expression.
func operand(k int) string {
	return []string{"x", "1", "y.z", "f(a)", "(b)", "'c'", "\"s\"", "2.5"}[k]
}

const operands = 8

// genExpr is any expression of the given depth, with blanks around every operator.
func genExpr(depth int) string {
	if depth == 0 {
		return []string{"x", "1", "y.z"}[nd.Choose(3)]
	}
	switch nd.Choose(5) {
	case 0:
		return unaryOps[nd.Choose(len(unaryOps))] + " " + genExpr(depth-1)
	case 1:
		return genExpr(depth-1) + " " + binaryOps[nd.Choose(len(binaryOps))] + " " + genExpr(depth-1)
	case 2:
		return "(" + genExpr(depth-1) + ")"
	case 3:
		return "f(" + genExpr(depth-1) + ", y)"
	}
	return genExpr(0)
}

func place(arg int, src string) (string, *ast.File) {
	text := exprPlace(arg, src)
	nd.Observe("text", text)
	f, err := parsed(text)
	if err != nil {
		want := refParse(text)
		nd.Assert(!want.ok, "rejected "+text+": "+err.Error())
		return text, nil
	}
	return text, f
}

// C06Binary: every operator between every pair of operands, signs and operators in front of them included; arg = place.
func C06Binary(arg int) {
	a := []string{"x", "-x", "f(a)", "(b)", "1", "y.z"}[nd.Choose(6)]
	op := binaryOps[nd.Choose(len(binaryOps))]
	b := []string{"", "-", "+", "^", "*", "&", "!", "<-", "- -", "&^", "*&"}[nd.Choose(11)]
	c := operand(nd.Choose(operands))
	text, f := place(arg, a+" "+op+" "+b+" "+c)
	if f != nil {
		keepsExprs(text, f)
	}
}

// C06Unary: every pair of unary operators before every operand; arg = place.
func C06Unary(arg int) {
	a := unaryOps[nd.Choose(len(unaryOps))]
	b := unaryOps[nd.Choose(len(unaryOps))]
	c := operand(nd.Choose(operands))
	tail := []string{"", ".m", "(x)", "+1", " && z", "(x...)"}[nd.Choose(6)]
	text, f := place(arg, a+" "+b+" "+c+tail)
	if f != nil {
		keepsExprs(text, f)
	}
}

// C06Table: the table of expressions; arg = place.
func C06Table(arg int) {
	text, f := place(arg, exprSources[nd.Choose(len(exprSources))])
	if f != nil {
		keepsExprs(text, f)
	}
}

// C06Nested: two binary operators, with and without parentheses; arg = place.
func C06Nested(arg int) {
	o1 := binaryOps[nd.Choose(len(binaryOps))]
	o2 := binaryOps[nd.Choose(len(binaryOps))]
	src := ""
	switch nd.Choose(5) {
	case 0:
		src = "a " + o1 + " b " + o2 + " c"
	case 1:
		src = "(a " + o1 + " b) " + o2 + " c"
	case 2:
		src = "a " + o1 + " (b " + o2 + " c)"
	case 3:
		src = "a" + o1 + "f(b" + o2 + "c, d)"
	case 4:
		src = "-a " + o1 + " *b " + o2 + " ^c"
	}
	text, f := place(arg, src)
	if f != nil {
		keepsExprs(text, f)
	}
}

// C06Literals: symbolic characters inside literals; arg: 0 string, 1 rune, 2 raw string, 3 number, 4 escape.
func C06Literals(arg int) {
	src := ""
	switch arg {
	case 0:
		src = "\"" + string([]byte{ascii(), ascii()}) + "\""
	case 1:
		src = "'" + string([]byte{ascii()}) + "'"
	case 2:
		src = "`" + string([]byte{ascii(), ascii()}) + "`"
	case 3:
		src = "0" + string([]byte{ascii(), ascii()}) + "1"
	case 4:
		src = "\"\\" + string([]byte{ascii()}) + "41\""
	}
	text, f := place([]int{0, 1, 2}[nd.Choose(3)], "x == "+src)
	if f != nil {
		keepsExprs(text, f)
	}
}

// deepExpr wraps an expression n times in one of the constructs, with a letter that may be any.
func deepExpr(n int) string {
	src := string([]byte{lower()})
	for i := 0; i < n; i++ {
		switch nd.Choose(10) {
		case 0:
			src = "(" + src + ")"
		case 1:
			src = "-" + src
		case 2:
			src = "- " + src
		case 3:
			src = "!" + src
		case 4:
			src = "f(" + src + ")"
		case 5:
			src = src + ".m"
		case 6:
			src = src + "(y, " + string([]byte{lower()}) + "...)"
		case 7:
			src = src + "*z"
		case 8:
			src = "u<" + src
		case 9:
			src = "*" + src
		}
	}
	return src
}

// C06Deep: every way of wrapping an expression; arg = place + 10*wraps.
func C06Deep(arg int) {
	text, f := place(arg%10, deepExpr(arg/10))
	if f != nil {
		keepsExprs(text, f)
	}
}

// C09Deep: printed and parsed again they are the same; arg as in C06Deep.
func C09Deep(arg int) {
	roundTripText(exprPlace(arg%10, deepExpr(arg/10)))
}
