package h

import (
	"strings"

	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
)

// failedEarly: the run failed on its input and wrote nothing.
func failedEarly(r run, before []outFile, why string) {
	nd.Assert(r.exit != 0, "exit status 0 although "+why)
	nd.Assert(strings.TrimSpace(r.stderr+r.stdout) != "", "no message although "+why)
	nd.Assert(!strings.Contains(r.stderr, "panic: "), "the command panicked: "+r.stderr)
	same := len(r.files) == len(before)
	for _, f := range r.files {
		found := false
		for _, b := range before {
			if b.name == f.name && b.data == f.data {
				found = true
			}
		}
		same = same && found
	}
	nd.Assert(same, "files were written although "+why)
	nd.Reach("failed")
}

var goodTexts = []string{"(Add8 x y) => (Sub8 x y)\n", "(Not x) => x\n(Foo) => x\n", "(Neg(8|16) x) => x", "// none\n"}

// C20Input: one bad input at any place among arg files.
func C20Input(arg int) {
	at := nd.Choose(arg)
	var before []outFile
	var args []string
	kind := nd.Choose(13)
	why := "an input file "
	for i := 0; i < arg; i++ {
		name := "f" + itoa(i) + ".rules"
		args = append(args, name)
		if i != at {
			before = append(before, put(name, goodTexts[nd.Choose(len(goodTexts))]))
			continue
		}
		switch kind {
		case 0:
			why += "is missing"
		case 1:
			nd.PutFile(name, 1, "")
			why += "is a directory"
		case 2:
			nd.PutFile(name, 3, "")
			why += "cannot be opened"
		case 3:
			args[i] = "nodir/" + name
			why += "is in a missing directory"
		default:
			bad := []string{"(Add8 x y) => ", "(Add8 x y) => (Sub8 x y)\n)", "(Not x) => x\n\xff", "(Not [1+] x) => x", "(Not x) && p( => x", "x", "(Not x) = > x",
				"(Add(8|16) x y) => (Sub(8|16|32) x y)", "(Add(8|16) x (Sub(8|16|32) x y)) => x"}[kind-4]
			if nd.Choose(2) == 1 {
				bad = "(Add8 a b) => a\n" + bad
			}
			before = append(before, put(name, bad))
			why += "holds " + bad
		}
	}
	failedEarly(runCommand(args...), before, why)
}

// C20Mismatch: alternations that do not go together among other rules, in rules that are simple (an error) or not (left out before).
func C20Mismatch(arg int) {
	bad := []string{
		"(Add(8|16) x y) => (Sub(8|16|32) x y)", "((Add8|Add16)(a|b|c) x) => x", "(Not (Add(8|16) x) (Add(8|16|32) x)) => x", "x => (Foo (A(1|2) y) z (B(1|2|3)))",
		// not simple
		"(Add(8|16) x y) && c => (Sub(8|16|32) x y)", "(Add(8|16) x y) => @b (Sub(8|16|32) x y)", "(Add(8|16) [1] x y) => (Sub(8|16|32) x y)", "(Add(8|16) x y) => (Sub(8|16|32) x v:(Not y))",
	}
	k := nd.Choose(len(bad))
	at := nd.Choose(arg)
	text := ""
	for i := 0; i < arg; i++ {
		if i == at {
			text += bad[k] + "\n"
		} else {
			text += "(Neg" + []string{"8", "16", "32"}[i%3] + " x) => x\n"
		}
	}
	before := []outFile{put("a.rules", text)}
	r := runCommand("a.rules")
	want, ok := expectFiles("", []string{text})
	if !ok {
		failedEarly(r, before, "alternations do not go together in "+text)
		return
	}
	checkRun(r, before, want)
}

// C20Output: writing one of the output files fails; arg = rules.
func C20Output(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		text += "(Neg" + []string{"8", "16", "32", "64"}[i%4] + " x) => x\n"
		if i == 0 {
			text += "(Foo x) => x\n"
		}
	}
	put("a.rules", text)
	want, _ := expectFiles("out/", []string{text})
	at := want[nd.Choose(len(want))]
	args := []string{"-outdir", "out", "a.rules"}
	switch nd.Choose(5) {
	case 0:
		nd.PutFile("out", 1, "")
		nd.PutFile(at.name, 2, "")
	case 1:
		nd.PutFile("out", 1, "")
		nd.PutFile(at.name, 1, "")
	case 2:
		nd.PutFile("out", 1, "")
		nd.PutFile(at.name, 3, "")
	case 3:
		// no output directory
	case 4:
		nd.PutFile("out", 0, "a file")
	}
	r := runCommand(args...)
	nd.Assert(!strings.Contains(r.stderr, "panic: "), "the command panicked: "+r.stderr)
	if r.exit != 0 {
		nd.Assert(strings.TrimSpace(r.stderr+r.stdout) != "", "no message although an output file could not be written")
		// what was written is right
		for _, f := range r.files {
			for _, w := range want {
				if f.name == w.name {
					nd.Assert(f.data == w.data, f.name+" holds\n"+f.data+"\ninstead of\n"+w.data)
				}
			}
		}
		nd.Reach("failed")
		return
	}
	// success: then everything is there
	for _, w := range want {
		found := false
		for _, f := range r.files {
			if f.name == w.name && f.data == w.data {
				found = true
			}
		}
		nd.Assert(found, "exit status 0, and "+w.name+" was not written")
	}
}

// C20Cut: an input file cut off anywhere: either what is left is complete rules or the run fails; arg = text.
func C20Cut(arg int) {
	text := []string{"(Add8 x y) => (Sub8 x y)\n(Not x) => xy\n", "(Neg(8|16) x) => (Neg(8|16) x)\n// end"}[arg]
	text = text[:nd.Choose(len(text)+1)]
	before := []outFile{put("ok.rules", "(Com8 x) => x\n"), put("a.rules", text)}
	args := []string{"ok.rules", "a.rules"}
	read := []string{"(Com8 x) => x\n", text}
	if nd.Choose(2) == 1 {
		args[0], args[1] = args[1], args[0]
		read[0], read[1] = read[1], read[0]
	}
	r := runCommand(args...)
	if !refParse(text).ok {
		failedEarly(r, before, "an input file holds "+text)
		return
	}
	want, _ := expectFiles("", read)
	checkRun(r, before, want)
}
