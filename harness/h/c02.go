package h

import (
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
)

// unsupportedExprs are Go expressions outside the supported forms.
var unsupportedExprs = []string{
	"a[i]", "a[i:j]", "a[1:]", "a[i:j:k]", "T{x}", "T{}", "&T{}", "[]T{x}", "func() {}", "func(x int) int { return x }()",
	"x.(T)", "a[i].x", "[]int(x)", "map[k]v(nil)", "chan int(x)", "struct{}{}", "interface{}(x)", "f[T](x)", "[2]int{}", "(*[4]byte)(p)",
}

// C02Unsupported: an unsupported form at any depth of an expression, at any place that can hold it; arg = place.
func C02Unsupported(arg int) {
	e := unsupportedExprs[nd.Choose(len(unsupportedExprs))]
	switch nd.Choose(10) {
	case 1:
		e = "f(" + e + ")"
	case 2:
		e = "!(" + e + ")"
	case 3:
		e = "x + " + e
	case 4:
		e = e + " == x"
	case 5:
		e = "f(x, g(-" + e + "), y)"
	case 6:
		e = e + ".y"
	case 7:
		e = "*" + e
	case 8:
		e = "(" + e + ")(x)"
	case 9:
		e = "x.y(" + e + "...)"
	}
	text := ""
	switch arg {
	case 0:
		text = "(A [" + e + "] x) => (B x)"
	case 1:
		text = "(A {" + e + "} x) => (B x)"
	case 2:
		text = "(A x) && " + e + " => (B x)"
	case 3:
		text = "(A x) => (B [" + e + "] x)"
	case 4:
		text = "(A x) => (B (C x {" + e + "}))"
	case 5:
		text = "(A x) && x < y && " + e + " && f(x)\n\t=> (B x)"
	}
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
	if arg == 2 || arg == 5 {
		nd.Assert(err != nil, "accepted an unsupported expression in "+text)
	}
}

// pieces splits a text into its tokens, keeping blanks.
func pieces(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i + 1
		if isWord(s[i]) {
			for j < len(s) && isWord(s[j]) {
				j++
			}
		} else {
			for _, m := range []string{"&&", "=>", "...", "//"} {
				if len(s)-i >= len(m) && s[i:i+len(m)] == m {
					j = i + len(m)
				}
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

var tokenMenu = []string{"(", ")", "=>", "&&", "_", "___", "...", "x", "A", "<t>", "[c]", "{s}", ":", "|", "@", "//", " ", "\n", ",", "f(x)", "(B)", "(a|b)", "8", "v:(C)", "'", "\"", "é"}

// C02Tokens: a token is left out, doubled, swapped with the next, replaced or joined by another; arg = base.
func C02Tokens(arg int) {
	ps := pieces(bases[arg])
	i := nd.Choose(len(ps))
	var out []string
	out = append(out, ps[:i]...)
	switch nd.Choose(5) {
	case 0:
		out = append(out, ps[i+1:]...)
	case 1:
		out = append(out, ps[i], ps[i])
		out = append(out, ps[i+1:]...)
	case 2:
		if i+1 < len(ps) {
			out = append(out, ps[i+1], ps[i])
			out = append(out, ps[i+2:]...)
		}
	case 3:
		out = append(out, tokenMenu[nd.Choose(len(tokenMenu))])
		out = append(out, ps[i+1:]...)
	case 4:
		out = append(out, tokenMenu[nd.Choose(len(tokenMenu))])
		out = append(out, ps[i:]...)
	}
	text := ""
	for _, p := range out {
		text += p
	}
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// C02Prefix: every text that starts or ends in the middle of a rule; arg = base.
func C02Prefix(arg int) {
	s := bases[arg]
	k := nd.Choose(len(s) + 1)
	text := s[:k]
	if nd.Choose(2) == 1 {
		text = s[k:]
	}
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

var _ = parse.String
