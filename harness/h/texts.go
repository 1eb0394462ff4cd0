package h

import (
	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
)

// Symbolic texts.

// anyText is n bytes of any value.
func anyText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nd.Byte()
	}
	return string(b)
}

// ascii is a byte below 0x80.
func ascii() byte {
	b := nd.Byte()
	nd.Assume(b < 0x80)
	return b
}

// parsed parses and checks that exactly one of file and error comes back.
func parsed(text string) (*ast.File, error) {
	f, err := parse.String(text)
	nd.Assert((f == nil) == (err != nil), "parsing returned both or neither of a file and an error for "+text)
	return f, err
}

// observe records a result for the comparison of encoding and native run.
func observe(text string, f *ast.File, err error) {
	nd.Observe("text", text)
	if err != nil {
		nd.Observe("err", err.Error())
		nd.Reach("rejected")
		return
	}
	nd.Observe("file", dumpFile(f))
	nd.Reach("accepted")
}

// agrees checks acceptance and meaning against the reference reading.
func agrees(text string, f *ast.File, err error) {
	want := refParse(text)
	if err != nil {
		if want.ok && nd.Known("cond-comment") && !refRead(text, true).ok {
			return
		}
		nd.Assert(!want.ok, "rejected a text of the documented language: "+text)
		return
	}
	got := dumpFile(f)
	if nd.Known("cond-comment") && (!want.ok || want.dump() != got) {
		// the recorded defect, exactly as recorded
		if old := refRead(text, true); old.ok && old.dump() == got {
			return
		}
	}
	nd.Assert(want.ok, "accepted a text outside the documented language: "+text)
	nd.Assert(want.dump() == got, "parsed "+text+" as "+got+", it says "+want.dump())
}

// C01Short: every text of n bytes.
func C01Short(n int) {
	text := anyText(n)
	f, err := parsed(text)
	observe(text, f, err)
}

// C02Short: every text of n bytes against the reference reading.
func C02Short(n int) {
	text := anyText(n)
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// Bases are texts around which windows of symbolic bytes are placed.
var bases = []string{
	/* 0 */ "(Add8 x y) => (Sub8 y x)",
	/* 1 */ "(A x) && c(x) => @b.X (B x _)",
	/* 2 */ "v:(A <t> [c] {s} x (B y) ...) => (C <t> [c+1] {s} x)",
	/* 3 */ "(Mul(8|16) x (N(8|16))) => (Z(8|16)X x)",
	/* 4 */ "(A b:(B) f(x,g(y)) ___) => f(x)\n(C) => x\n",
	/* 5 */ "(A x) // z\n\t&& !p(x)\n\t&& q\n\t=> // then\n\t(B)",
	/* 6 */ "// head\n(A) => (B) // tail\n\n(C d) => d",
	/* 7 */ "(A [c]) && c == 'x' && s != \"a\\\"b\" => (B [-1] {\"y\"})",
}

// window gives the base with a symbolic window: at a chosen place, del bytes are replaced by ins symbolic ones.
func window(base string, del, ins int) string {
	at := nd.Choose(len(base) - del + 1)
	b := []byte(base[:at])
	for i := 0; i < ins; i++ {
		b = append(b, ascii())
	}
	return string(b) + base[at+del:]
}

// edits are the window shapes: deleted and inserted bytes.
var edits = [][2]int{{1, 1}, {0, 1}, {1, 0}, {2, 1}, {3, 0}, {0, 2}, {2, 2}}

// C02Window: arg = base + 100*edit.
func C02Window(arg int) {
	e := edits[arg/100]
	text := window(bases[arg%100], e[0], e[1])
	f, err := parsed(text)
	observe(text, f, err)
	agrees(text, f, err)
}

// C01Window: a window of bytes of any value in a rule text; arg = base + 100*edit.
func C01Window(arg int) {
	e := edits[arg/100]
	base := bases[arg%100]
	at := nd.Choose(len(base) - e[0] + 1)
	text := base[:at] + anyText(e[1]) + base[at+e[0]:]
	f, err := parsed(text)
	observe(text, f, err)
}
