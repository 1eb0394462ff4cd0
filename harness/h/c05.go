package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
)

// ruleText is a rule from a table of shapes, with symbolic names.
func ruleText(i int) string {
	n := itoa(i)
	switch nd.Choose(7) {
	case 0:
		return "(A" + string([]byte{wordByte()}) + ") => (B" + n + ")"
	case 1:
		return "(C" + n + " " + name("x") + ") && p(x" + n + ") => @b (D)"
	case 2:
		return "v" + n + ":(E <" + name("t") + "> x) => x"
	case 3:
		return "(F(8|16) ...) => (G(8|16) ...)"
	case 4:
		return name("y") + " => f(" + name("z") + ")"
	case 5:
		return "(H" + n + " [1] {s} ___) => (I" + n + " [2])"
	}
	return "(A) => (A)"
}

// C05Concat: the rules of a text of several rules are the rules of the parts; arg = number of rules.
func C05Concat(arg int) {
	var parts []string
	text := []string{"", "\n", "// c\n "}[nd.Choose(3)]
	for i := 0; i < arg; i++ {
		if i > 0 {
			text += []string{"\n", " ", "\n// (X) => (Y)\n\n", "\t\r\n"}[nd.Choose(4)]
		}
		parts = append(parts, ruleText(i))
		text += parts[i]
	}
	text += []string{"", "\n", " // c"}[nd.Choose(3)]
	concat(text, parts)
}

// concat: each part is a rule.
func concat(text string, parts []string) {
	for _, p := range parts {
		if g, err := parsed(p); err == nil {
			nd.Assert(len(g.Rules) == 1, "not one rule: "+p)
		}
	}
	concatParts(text, parts)
}

func concatParts(text string, parts []string) {
	nd.Observe("text", text)
	f, err := parsed(text)
	if err != nil {
		nd.Assert(false, "rejected "+text+": "+err.Error())
		return
	}
	var all []*ast.Rule
	for _, p := range parts {
		g, err := parsed(p)
		if err != nil {
			nd.Assert(false, "rejected "+p+": "+err.Error())
			return
		}
		all = append(all, g.Rules...)
	}
	got := dumpFile(f)
	nd.Observe("file", got)
	want := dumpFile(&ast.File{Rules: all})
	nd.Assert(got == want, "parsed "+text+" as "+got+", its parts are "+want)
	nd.Reach("same")
}

// C05Tight: rules directly behind one another, without layout between them.
func C05Tight(arg int) {
	var parts []string
	text := ""
	for i := 0; i < arg; i++ {
		p := []string{"(A) => (B)", "(C)=>f(x)", "v:(D x) => (E x)", "(F) => @b (G)", "(H(8|16))=>(I(8|16))"}[nd.Choose(5)]
		parts = append(parts, p)
		text += p
	}
	concat(text, parts)
}

// C05Many: many rules at once; arg = number.
func C05Many(arg int) {
	k := nd.Choose(arg + 1)
	var parts []string
	text := ""
	for i := 0; i < k; i++ {
		parts = append(parts, "(A"+itoa(i)+" x) => (B"+itoa(i)+" x)")
		text += parts[i] + "\n"
	}
	concat(text, parts)
}

// C05Same: equal rules are kept as often as they are written.
func C05Same(int) {
	p := "(A" + string([]byte{wordByte()}) + " x) => x"
	q := "(A" + string([]byte{wordByte()}) + " x) => x"
	concat(p+"\n"+q+"\n"+p+"\n"+p, []string{p, q, p, p})
}

// C05Layout: a text of layout only holds no rules; arg = pieces.
func C05Layout(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		switch nd.Choose(3) {
		case 0:
			text += string([]byte{blank()})
		case 1:
			text += "//" + string([]byte{commentByte()}) + "\n"
		case 2:
			text += "// (A) => (B)\n"
		}
	}
	if nd.Choose(2) == 1 {
		text += "//" + string([]byte{commentByte()})
	}
	concat(text, nil)
}
