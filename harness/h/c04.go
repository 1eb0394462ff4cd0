package h

import (
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
)

// Templates of rules: each + is a place where layout must stand, each ~ one where it may.
var templates = []string{
	/* 0 */ "~(~Op+<t>+[c]+{s}+x+(B+_~)+...+___~)~=>~v:(~C+x~)~",
	/* 1 */ "~(~A~)+&&+p(x)+=>~@b.X+(~B~)~",
	/* 2 */ "~x~=>~(~B(8|16)X+f(x)+_~)~(~C~)~=>~y+z~=>~f(a)~",
	/* 3 */ "(A)+&&+!p(x)+&&+q.r+=>~(B)",
	/* 4 */ "(A)+&&+x+<+-1+||+f(x,+y)+=>~y",
	/* 5 */ "(A x)~=>~f(~x,~y,~g(~z))",
}

// inCond tells which gaps of templates 3 and 4 lie inside the condition (gap numbers).
func condGap(t, gap int) bool {
	switch t {
	case 1:
		return gap == 4
	case 3:
		return gap >= 2 && gap <= 4
	case 4:
		return gap >= 2 && gap <= 7
	}
	return false
}

func gapCount(t string) int {
	n := 0
	for i := range []byte(t) {
		if t[i] == '+' || t[i] == '~' {
			n++
		}
	}
	return n
}

// fill writes the template with the given text at some gaps.
func fill(t string, at func(gap int, must bool) (string, bool)) string {
	s, n := "", 0
	for i := range []byte(t) {
		if t[i] != '+' && t[i] != '~' {
			s += t[i : i+1]
			continue
		}
		must := t[i] == '+'
		if x, ok := at(n, must); ok {
			s += x
		} else if must {
			s += " "
		}
		n++
	}
	return s
}

func noGap(int, bool) (string, bool) { return "", false }

// blank is any blank character.
func blank() byte {
	b := nd.Byte()
	if nd.Choose(2) == 0 {
		nd.Assume(b >= '\t')
		nd.Assume(b <= '\n')
	} else {
		nd.Assume(b == '\r' || b == ' ')
	}
	return b
}

// commentByte is any ASCII character a comment may contain.
func commentByte() byte {
	b := ascii()
	nd.Assume(b != '\n')
	return b
}

// sameAsPlain checks that the laid out text parses as the plain text does.
func sameAsPlain(text, plainText string) {
	nd.Observe("text", text)
	w, err := parsed(plainText)
	if err != nil {
		nd.Assert(false, "rejected "+plainText)
		return
	}
	want := dumpFile(w)
	f, err := parsed(text)
	if nd.Known("cond-comment") {
		old := refRead(text, true)
		spec := refRead(text, false)
		if spec.ok && (!old.ok || old.dump() != spec.dump()) {
			// the recorded defect shows here
			if err != nil && !old.ok || err == nil && old.ok && dumpFile(f) == old.dump() {
				return
			}
		}
	}
	if err != nil {
		nd.Assert(false, "rejected "+text+" but not "+plainText+": "+err.Error())
		return
	}
	got := dumpFile(f)
	nd.Observe("file", got)
	nd.Assert(got == want, "parsed "+text+" as "+got+", without the layout it is "+want)
	nd.Reach("same")
}

// C04Gap: one gap of the template filled with symbolic layout; arg = template + 10*kind.
func C04Gap(arg int) {
	t := templates[arg%10]
	gap := nd.Choose(gapCount(t))
	text := fill(t, func(n int, must bool) (string, bool) {
		if n != gap {
			return "", false
		}
		lead := ""
		if must {
			// a comment directly behind a block or a Go expression would be part of it
			lead = " "
		}
		switch arg / 10 {
		case 0:
			return string([]byte{blank()}), true
		case 1:
			return string([]byte{blank(), blank()}), true
		case 2:
			return lead + "//" + string([]byte{commentByte(), commentByte()}) + "\n", true
		case 3:
			return string([]byte{blank()}) + "//" + string([]byte{commentByte()}) + "\n" + string([]byte{blank()}), true
		case 4:
			return lead + "//\n//" + string([]byte{commentByte()}) + "\n", true
		case 5:
			// a two-byte character in the comment
			a, b := nd.Byte(), nd.Byte()
			nd.Assume(a >= 0xc2)
			nd.Assume(a <= 0xdf)
			nd.Assume(b >= 0x80)
			nd.Assume(b <= 0xbf)
			return lead + "//" + string([]byte{a, b}) + "\n", true
		case 6:
			return lead + []string{"// (A) => (B)\n", "// x) && y => @z (\n", "//\t\"'`\n", "// => \n"}[nd.Choose(4)], true
		}
		return " ", true
	})
	sameAsPlain(text, fill(t, noGap))
}

var fillings = []string{"\n", "\t", "\r\n", " // c\n", "  // (y =\r\n\t", "\n\n \n"}

// C04Pair: every pair of gaps filled from a small table; arg = template.
func C04Pair(arg int) {
	t := templates[arg]
	n := gapCount(t)
	a := nd.Choose(n)
	b := nd.Choose(n)
	nd.Assume(a < b)
	fa := fillings[nd.Choose(len(fillings))]
	fb := fillings[nd.Choose(len(fillings))]
	text := fill(t, func(g int, must bool) (string, bool) {
		switch g {
		case a:
			return fa, true
		case b:
			return fb, true
		}
		return "", false
	})
	sameAsPlain(text, fill(t, noGap))
}

// C04All: the same layout at every gap at once; arg = template.
func C04All(arg int) {
	t := templates[arg]
	x := fillings[nd.Choose(len(fillings))]
	if nd.Choose(2) == 1 {
		x = " " + x + string([]byte{blank()})
	}
	text := fill(t, func(int, bool) (string, bool) { return x, true })
	sameAsPlain(text, fill(t, noGap))
}

// C04End: what stands after the last rule; arg: 0 comment without newline, 1 blanks, 2 both.
func C04End(arg int) {
	base := []string{"(A) => (B)", "(A) => x", "(A) => f(x)"}[nd.Choose(3)]
	end := ""
	switch arg {
	case 0:
		end = " //" + string([]byte{commentByte(), commentByte()})
	case 1:
		end = string([]byte{blank(), blank()})
	case 2:
		end = string([]byte{blank()}) + "//" + string([]byte{commentByte()}) + "\n//" + string([]byte{commentByte()})
	}
	sameAsPlain(base+end, base)
	sameAsPlain(base+"\n"+base+end, base+"\n"+base)
}

// C04CommentText: what a comment contains contributes nothing; arg = bytes in the comment.
func C04CommentText(arg int) {
	b := make([]byte, arg)
	for i := range b {
		b[i] = commentByte()
	}
	sameAsPlain("//"+string(b)+"\n(A) => (B)", "(A) => (B)")
}

// DemoCondComment holds only where comments inside conditions are read as layout.
func DemoCondComment(int) {
	text := "(A x) && p(x) // c\n\t&& q(x) => (B x)"
	f, err := parsed(text)
	nd.Assert(err == nil && dumpFile(f) == refParse("(A x) && p(x) && q(x) => (B x)").dump(), "the comment inside the condition of "+text+" changes what is parsed")
}
