package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/printer"
)

// roundTrip prints a parsed file and parses it back.
func roundTrip(text string, f *ast.File) {
	b, err := printer.Bytes(f)
	if err != nil {
		nd.Assert(false, "cannot print what "+text+" parses as: "+err.Error())
		return
	}
	out := string(b)
	nd.Observe("printed", out)
	g, err := parsed(out)
	if err != nil {
		nd.Assert(false, "printed "+text+" as "+out+", which is rejected: "+err.Error())
		return
	}
	was, is := dumpFile(f), dumpFile(g)
	nd.Assert(was == is, "printed "+text+" as "+out+", which parses as "+is+" instead of "+was)
	c, err := printer.Bytes(g)
	if err != nil {
		nd.Assert(false, "cannot print the file again: "+err.Error())
		return
	}
	nd.Assert(string(c) == out, "printed "+out+" again as "+string(c))
	nd.Reach("back")
}

func roundTripText(text string) {
	nd.Observe("text", text)
	f, err := parsed(text)
	if err != nil {
		nd.Reach("rejected")
		return
	}
	roundTrip(text, f)
}

// C09Short: every text of n bytes.
func C09Short(n int) { roundTripText(anyText(n)) }

// C09Window: arg = base + 100*edit.
func C09Window(arg int) {
	e := edits[arg/100]
	roundTripText(window(bases[arg%100], e[0], e[1]))
}

// C09Expr: windows over expressions; arg = base + 100*edit + 1000*place.
func C09Expr(arg int) {
	e := edits[arg/100%10]
	roundTripText(exprPlace(arg/1000, window(exprBases[arg%100], e[0], e[1])))
}

// C09Components: every combination of the components of one S-expression; arg as in C03Components.
func C09Components(arg int) {
	f := &ast.File{Rules: []*ast.Rule{ruleAround(sexprOf(1+arg/8, false), arg%8)}}
	roundTripText(renderFile(f, plain))
}

// C09Nested: every nesting of values.
func C09Nested(arg int) {
	n := 0
	f := &ast.File{Rules: []*ast.Rule{ruleAround(nested(arg%10, 2, &n), arg/10)}}
	roundTripText(renderFile(f, plain))
}

// C09Binary, C09Unary, C09Table: operators against their neighbours; arg = place.
func C09Binary(arg int) {
	a := []string{"x", "-x", "f(a)", "1"}[nd.Choose(4)]
	op := binaryOps[nd.Choose(len(binaryOps))]
	b := []string{"", "-", "+", "^", "*", "&", "!", "<-", "- -", "*&"}[nd.Choose(10)]
	c := operand(nd.Choose(operands))
	roundTripText(exprPlace(arg, a+" "+op+" "+b+" "+c))
}

func C09Unary(arg int) {
	a := unaryOps[nd.Choose(len(unaryOps))]
	b := unaryOps[nd.Choose(len(unaryOps))]
	c := operand(nd.Choose(operands))
	tail := []string{"", ".m", "(x)", "+1", " && z", "(x...)"}[nd.Choose(6)]
	roundTripText(exprPlace(arg, a+" "+b+" "+c+tail))
}

func C09Table(arg int) { roundTripText(exprPlace(arg, exprSources[nd.Choose(len(exprSources))])) }

// C09Names: symbolic characters in every kind of name; arg as in C03Names.
func C09Names(arg int) {
	roundTripText(renderFile(namesFile(arg), plain))
}

// C09Rules: several rules.
func C09Rules(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		text += ruleText(i) + "\n"
	}
	roundTripText(text)
}
