package h

import (
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/smt2"
)

// The command, run whole.

// choice is the tree with entry i of every alternation.
func choice(v ast.Value, i int) ast.Value {
	s, ok := v.(*ast.SExpr)
	if !ok {
		return v
	}
	t := &ast.SExpr{Binding: s.Binding, Op: s.Op, Type: s.Type, AuxInt: s.AuxInt, Aux: s.Aux, Ellipsis: s.Ellipsis, Trailing: s.Trailing}
	if ps, ok := s.Op.(ast.OpcodeParts); ok {
		op := ast.Opcode("")
		for _, p := range ps {
			switch p := p.(type) {
			case ast.Opcode:
				op += p
			case ast.OpcodeAlt:
				op += p[i]
			}
		}
		t.Op = op
	}
	for _, a := range s.Args {
		t.Args = append(t.Args, choice(a, i))
	}
	return t
}

func plainValue(v ast.Value) bool {
	s, ok := v.(*ast.SExpr)
	if !ok {
		return true
	}
	if s.Binding != "" || s.Type != "" || s.AuxInt != nil || s.Aux != nil || s.Ellipsis || s.Trailing {
		return false
	}
	for _, a := range s.Args {
		if !plainValue(a) {
			return false
		}
	}
	return true
}

func simple(r *ast.Rule) bool {
	return r.Condition == nil && r.Block == "" && plainValue(r.Match) && plainValue(r.Result)
}

type outFile struct{ name, data string }

// expectFiles are the files for the rules of the texts; ok: the alternations of every simple rule go together.
func expectFiles(dir string, texts []string) (files []outFile, ok bool) {
	n := 0
	for _, t := range texts {
		f, err := parse.String(t)
		if err != nil {
			panic("harness: " + t + ": " + err.Error())
		}
		for _, r := range f.Rules {
			if !simple(r) {
				continue
			}
			w := 1
			for _, k := range ruleWidths(r) {
				if w > 1 && k != w {
					return nil, false
				}
				w = k
			}
			for i := 0; i < w; i++ {
				x := &ast.Rule{Match: choice(r.Match, i), Result: choice(r.Result, i)}
				if b, err := smt2.Generate(x); err == nil {
					num := itoa(n)
					for len(num) < 4 {
						num = "0" + num
					}
					files = append(files, outFile{dir + num + ".smt2", string(b)})
				}
				n++
			}
		}
	}
	return files, true
}

// run is a finished run of the command.
type run struct {
	exit           int
	stdout, stderr string
	files          []outFile
}

func runCommand(args ...string) run {
	e, so, se, names, data := nd.RunCLI(args)
	r := run{exit: e, stdout: so, stderr: se}
	for i := range names {
		r.files = append(r.files, outFile{names[i], data[i]})
	}
	nd.Observe("exit", itoa(e))
	nd.Observe("files", strings.Join(names, " "))
	nd.Observe("data", strings.Join(data, "\x00"))
	return r
}

// checkRun: success, the files there were (those not written over) and the expected ones.
func checkRun(r run, before, want []outFile) {
	if r.exit != 0 {
		nd.Assert(false, "exit status "+itoa(r.exit)+": "+r.stderr)
		return
	}
	all := map[string]string{}
	for _, f := range before {
		all[f.name] = f.data
	}
	for _, f := range want {
		all[f.name] = f.data
	}
	for _, f := range r.files {
		d, ok := all[f.name]
		nd.Assert(ok, "the command wrote "+f.name+", which it should not: "+f.data)
		nd.Assert(d == f.data, f.name+" holds\n"+f.data+"\ninstead of\n"+d)
	}
	for _, f := range want {
		found := false
		for _, g := range r.files {
			if g.name == f.name {
				found = true
			}
		}
		nd.Assert(found, "the command did not write "+f.name+" holding\n"+f.data)
	}
	nd.Assert(len(r.files) == len(all), "a file disappeared")
	nd.Reach("success")
}

// menu of rules for input files
var ruleMenu = []string{
	"(Add8 x y) => (Sub8 x y)",
	"(And(8|16) x _) => (Or(8|16) x x)",
	"(Foo x) => (Add8 x x)",
	"(Neg64 x) => x",
	"((AndB|Foo|OrB) x y) => ((Foo|EqB|NeqB) y x)",
	"x => (Com16 x)",
	"(Not x) && p(x) => (Not x)",
	"(Not x) => @b (Not x)",
	"v:(Not x) => (Not x)",
	"(Not x) => (Not v:(Not x))",
	"(Not <t> x) => (Not x)",
	"(Not x) => (Not {s} x)",
	"(Not [1] x) => (Not x)",
	"(Not (Not x ...)) => (Not x)",
	"(Not x) => (Not x ___)",
	"(Not x) => f(x)",
}

func put(name, data string) outFile {
	nd.PutFile(name, 0, data)
	return outFile{name, data}
}

// C19Rules: two files with any rules of the menu; arg = rules in all.
func C19Rules(arg int) {
	cut := nd.Choose(arg + 1)
	a, b := "", ""
	for i := 0; i < arg; i++ {
		t := ruleMenu[nd.Choose(len(ruleMenu))] + "\n"
		if i < cut {
			a += t
		} else {
			b += t
		}
	}
	before := []outFile{put("a.rules", a), put("b.rules", b)}
	want, _ := expectFiles("", []string{a, b})
	checkRun(runCommand("a.rules", "b.rules"), before, want)
}

// C19Order: the order of the arguments, files named twice, no files.
func C19Order(arg int) {
	texts := []string{"(Add8 x y) => x\n(Add16 _ y) => y\n", "// nothing\n", "(Not [1] x) => x (Not x) => y", "(Com(8|16) x) => (Neg(8|16) x)"}
	names := []string{"1.rules", "2", "sub/3.rules", "4.rules"}
	nd.PutFile("sub", 1, "")
	var before []outFile
	for i := range texts {
		before = append(before, put(names[i], texts[i]))
	}
	var args, read []string
	n := nd.Choose(arg + 1)
	for i := 0; i < n; i++ {
		k := nd.Choose(len(texts))
		args = append(args, names[k])
		read = append(read, texts[k])
	}
	want, _ := expectFiles("", read)
	checkRun(runCommand(args...), before, want)
}

// C19Outdir: output directories, and what is there before.
func C19Outdir(arg int) {
	text := "(Add8 x y) => (Sub8 x y)\n(Foo x) => x\n(And(8|16) x _) => (Or(8|16) x x)\n"
	nd.PutFile("out", 1, "")
	nd.PutFile("out/deep", 1, "")
	before := []outFile{put("a.rules", text)}
	abs := nd.PutFile("abs", 1, "")
	var args []string
	dir := ""
	switch nd.Choose(9) {
	case 0:
	case 1:
		args, dir = []string{"-outdir", "out"}, "out/"
	case 2:
		args, dir = []string{"-outdir=out/"}, "out/"
	case 3:
		args, dir = []string{"--outdir", "out/deep"}, "out/deep/"
	case 4:
		args, dir = []string{"-outdir", "./out/../out"}, "out/"
	case 5:
		args, dir = []string{"-outdir", "."}, ""
	case 6:
		args, dir = []string{"-outdir="}, ""
	case 7:
		args, dir = []string{"-outdir", abs}, "abs/"
	case 8:
		args, dir = []string{"-outdir", "out", "--"}, "out/"
	}
	long := strings.Repeat("; old old old old old old\n", 40)
	switch nd.Choose(3) {
	case 1:
		// longer files of the same names, and one of the number that stays unused
		before = append(before, put(dir+"0000.smt2", long), put(dir+"0003.smt2", long))
	case 2:
		before = append(before, put(dir+"0001.smt2", long), put(dir+"0009.smt2", ""), put(dir+"other", "x"))
	}
	want, _ := expectFiles(dir, []string{text})
	checkRun(runCommand(append(args, "a.rules")...), before, want)
}

// C19Many: arg rules, every third of them one that cannot be generated, every fourth one left out.
func C19Many(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		switch {
		case i%4 == 3:
			text += "(Not x" + itoa(i) + ") && c => x\n"
		case i%3 == 2:
			text += "(Foo x" + itoa(i) + ") => x\n"
		default:
			text += "(Add" + []string{"8", "16", "32", "64"}[i%4] + " x" + itoa(i) + " y) => y\n"
		}
	}
	before := []outFile{put("a.rules", text)}
	want, _ := expectFiles("", []string{text})
	checkRun(runCommand("a.rules"), before, want)
}

// C19Symbolic: an input file with a window of symbolic bytes: whatever it says, the files are those of its rules.
func C19Symbolic(arg int) {
	base := []string{"(Not x) => (Not x)", "(Add8 xy xz) => xy (Neg8 xy) => xz", "(Add(8|16) a b) => a", "(And8 x _) => x"}[arg]
	at := nd.Choose(len(base))
	b := []byte(base)
	b[at] = ascii()
	text := string(b)
	before := []outFile{put("a.rules", text)}
	r := runCommand("a.rules")
	if !refParse(text).ok {
		nd.Assert(r.exit != 0 || nd.Known("cond-comment"), "a text outside the language was taken: "+text)
		nd.Assert(len(r.files) == 1, "files were written for a text outside the language")
		nd.Reach("rejected")
		return
	}
	want, ok := expectFiles("", []string{text})
	if !ok {
		nd.Assert(r.exit != 0, "alternations that do not go together were taken: "+text)
		return
	}
	checkRun(r, before, want)
}
