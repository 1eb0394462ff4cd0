package h

import (
	"strings"

	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
)

// number reads a decimal number at s[i].
func number(s string, i int) (n, end int, ok bool) {
	start := i
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		n = n*10 + int(s[i]-'0')
		i++
	}
	return n, i, i > start && i-start < 7
}

// placed checks that the error text starts with the input name and a place in the text:
// name:line:column (offset).  The offset lies within the text (its end included); the line is one more than
// the newlines up to and including the character at the offset, the column the number of characters since
// the last of them (the end of the text counts as a character).
func placed(name, text, msg string) {
	if name != "" {
		ok := len(msg) > len(name) && msg[:len(name)] == name && msg[len(name)] == ':'
		nd.Assert(ok, "the error does not start with the input name "+name+": "+msg)
		if !ok {
			return
		}
		msg = msg[len(name)+1:]
	}
	line, i, ok := number(msg, 0)
	ok = ok && i < len(msg) && msg[i] == ':'
	col := 0
	if ok {
		col, i, ok = number(msg, i+1)
	}
	ok = ok && strings.HasPrefix(msg[i:], " (")
	off := 0
	if ok {
		off, i, ok = number(msg, i+2)
	}
	ok = ok && strings.HasPrefix(msg[i:], ")")
	nd.Assert(ok, "the error does not give line, column and offset: "+msg)
	if !ok {
		return
	}
	nd.Assert(off <= len(text), "the offset is outside the text: "+msg)
	if off > len(text) {
		return
	}
	wl, wc := 1, 1
	for i, r := range text {
		if i > off {
			break
		}
		if r == '\n' {
			wl++
			wc = 0
		}
		if i < off {
			wc++
		}
	}
	nd.Assert(line == wl && col == wc, "in "+text+" line and column of offset "+itoa(off)+" are "+itoa(wl)+":"+itoa(wc)+", the error says "+msg)
	nd.Reach("placed")
}

var inputNames = []string{"in.rules", "a/b c.rules", "x:1", "1", "100%d", ""}

func errorPlace(text string, name string) {
	f, err := parse.Reader(name, strings.NewReader(text))
	nd.Observe("text", text)
	if err == nil {
		nd.Assert(f != nil, "neither file nor error")
		return
	}
	msg := err.Error()
	nd.Observe("err", msg)
	placed(name, text, msg)
}

// C07Short: every text of n bytes.
func C07Short(n int) { errorPlace(anyText(n), inputNames[nd.Choose(len(inputNames))]) }

// C07Window: arg = base + 100*edit.
func C07Window(arg int) {
	e := edits[arg/100]
	errorPlace(window(bases[arg%100], e[0], e[1]), inputNames[0])
}

// C07Cut: a text cut short or continued with something that is no rule.
func C07Cut(arg int) {
	s := "// one\n(A x) => (B x)\n\n" + bases[arg]
	k := nd.Choose(len(s) + 1)
	text := s[:k] + []string{"", "\n", "é", "\n\n)", "\t=>"}[nd.Choose(5)]
	errorPlace(text, inputNames[nd.Choose(2)])
}

// C07Wide: characters of several bytes before the error.
func C07Wide(int) {
	a, b := nd.Byte(), nd.Byte()
	nd.Assume(a >= 0xc2)
	nd.Assume(a <= 0xdf)
	nd.Assume(b >= 0x80)
	nd.Assume(b <= 0xbf)
	text := "// " + string([]byte{a, b}) + "\n(A <" + string([]byte{a, b}) + "> x) "
	text += []string{"=> )", "", "\n\n", "=> \xff", "&& é => x"}[nd.Choose(5)]
	errorPlace(text, inputNames[0])
}

// C07File: parse.File names the file.
func C07File(int) {
	text := []string{"(A x) => ", ")", "(A)\n&& a[1] => x", "(A) => (B)\n\xff"}[nd.Choose(4)]
	p := nd.PutFile([]string{"x.rules", "a b.rules"}[nd.Choose(2)], 0, text)
	f, err := parse.File(p)
	nd.Assert(f == nil && err != nil, "accepted "+text)
	if err != nil {
		placed(p, text, err.Error())
	}
}
