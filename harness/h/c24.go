package h

import (
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// job is a call that is ready to be made: its inputs have been prepared, look tells what came out.
type job struct {
	run  func()
	look func() string
}

func resultOf(b *[]byte, err *error) func() string {
	return func() string {
		if *err != nil {
			return "error " + (*err).Error()
		}
		return string(*b)
	}
}

func fileOf(f **ast.File, err *error) func() string {
	return func() string {
		if *err != nil {
			return "error " + (*err).Error()
		}
		return dumpFile(*f)
	}
}

const (
	readers   = 4  // calls on a text
	lookers   = 8  // calls that only look at a tree
	callKinds = 13 // all
)

// onText prepares call kind 0..readers-1.
func onText(kind int, text, name string) job {
	var f *ast.File
	var err error
	switch kind {
	case 0:
		return job{func() { f, err = parse.String(text) }, fileOf(&f, &err)}
	case 1:
		r := strings.NewReader(text)
		return job{func() { f, err = parse.Reader(name, r) }, fileOf(&f, &err)}
	case 2:
		p := nd.PutFile(name, 0, text)
		return job{func() { f, err = parse.File(p) }, fileOf(&f, &err)}
	}
	// all the way to the scripts
	var b []byte
	return job{func() {
		if f, err = parse.String(text); err != nil {
			return
		}
		if err = pass.ExpandAlternates(f); err != nil {
			return
		}
		for _, r := range f.Rules {
			s, err := smt2.Generate(r)
			if err != nil {
				s = []byte(err.Error())
			}
			b = append(b, s...)
		}
	}, resultOf(&b, &err)}
}

// onTree prepares call kind 0..lookers-1.
func onTree(kind int, r *ast.Rule) job {
	var b []byte
	var err error
	look := resultOf(&b, &err)
	switch kind {
	case 0:
		return job{func() { b, err = printer.Bytes(r) }, look}
	case 1:
		w := &faultWriter{failAt: -1}
		return job{func() { err = printer.Fprint(w, r); b = w.got }, look}
	case 2:
		w := &faultWriter{failAt: 1, err: errWrite}
		return job{func() { err = printer.Fprint(w, &ast.File{Rules: []*ast.Rule{r, r}}); b = w.got }, look}
	case 3:
		return job{func() {
			for _, p := range predicates {
				if p.fn(r) {
					b = append(b, '+')
				} else {
					b = append(b, '-')
				}
			}
		}, look}
	case 4:
		return job{func() {
			ast.Inspect(r, func(n ast.Node) bool {
				if n == nil {
					b = append(b, ')')
				} else {
					b = append(b, '(')
				}
				_, op := n.(ast.Op)
				return !op
			})
			if ast.Contains(r, func(n ast.Node) bool { return n == ast.Variable("y") }) {
				b = append(b, 'y')
			}
		}, look}
	case 5:
		return job{func() { b, err = smt2.Generate(r) }, look}
	case 6:
		return job{func() {
			s, e := ast.Dump(r)
			b, err = []byte(s), e
		}, look}
	}
	w := &faultWriter{failAt: 3, err: errWrite}
	return job{func() { err = ast.Fprint(w, r); b = w.got }, look}
}

// onInput prepares any call on input k, all its own.
func onInput(kind, k int, name string) job {
	if kind < readers {
		return onText(kind, parseTexts[k], name)
	}
	if kind < readers+lookers {
		return onTree(kind-readers, treeOf(k))
	}
	f := &ast.File{Rules: []*ast.Rule{treeOf(k), treeOf(3)}}
	var err error
	return job{func() { err = pass.ExpandAlternates(f) }, fileOf(&f, &err)}
}

func inputsOf(kind int) int {
	if kind < readers {
		return len(parseTexts)
	}
	return trees
}

// unspoken tells whether the call is one on a tree with missing parts that other properties do not speak about.
func unspoken(kind, k int) bool { return k >= 6 && (kind == readers+3 || kind == readers+4) }

// sameAlone: what came out of a call is what comes out when it is made alone.
func sameAlone(a, alone job) {
	was := a.look()
	if len(was) > 5 && was[:5] == "error" {
		was = "error" // it may name files
	}
	nd.Observe("result", was)
	was = a.look()
	alone.run()
	nd.Assert(alone.look() == was, "a call gave "+was+" while another ran, and "+alone.look()+" alone")
}

// C24Pairs: two calls on inputs of their own; arg = the first call.
func C24Pairs(arg int) {
	i := nd.Choose(inputsOf(arg))
	k := nd.Choose(callKinds)
	j := nd.Choose(inputsOf(k))
	if unspoken(arg, i) || unspoken(k, j) {
		return
	}
	a, b := onInput(arg, i, "a.rules"), onInput(k, j, "b.rules")
	nd.Apart(a.run, b.run)
	sameAlone(a, onInput(arg, i, "a.rules"))
	sameAlone(b, onInput(k, j, "b.rules"))
	nd.Reach("both")
}

// C24Warm: a call has been made before (arg = which); then two at the same time.
func C24Warm(arg int) {
	t := nd.Choose(3)
	onInput(arg, t, "c.rules").run()
	onInput(arg, 4, "c.rules").run()
	i, j := nd.Choose(callKinds), nd.Choose(callKinds)
	a, b := onInput(i, t, "a.rules"), onInput(j, 2-t, "b.rules")
	nd.Apart(a.run, b.run)
	sameAlone(a, onInput(i, t, "a.rules"))
	nd.Reach("both")
}

// C24Shared: two calls that only look at the same tree; arg = the first call.
func C24Shared(arg int) {
	k := nd.Choose(trees)
	i := nd.Choose(lookers)
	if unspoken(readers+arg, k) || unspoken(readers+i, k) {
		return
	}
	r := treeOf(k)
	a, b := onTree(arg, r), onTree(i, r)
	nd.Apart(a.run, b.run)
	sameAlone(a, onTree(arg, treeOf(k)))
	sameAlone(b, onTree(i, treeOf(k)))
	nd.Reach("both")
}

// C24Mix: two calls on the same mixed tree, or on its text; arg as in the other harnesses of that name.
func C24Mix(arg int) {
	f, r, _ := mixed(arg)
	text := mixText(f)
	i := nd.Choose(lookers + 1)
	j := i
	if nd.Choose(2) == 1 {
		j = []int{4, 0, 4, 0, 0, 0, 0, 0, 5}[i]
	}
	at := func(k int) job {
		if k < lookers {
			return onTree(k, r)
		}
		return onText(3, text, "")
	}
	a, b := at(i), at(j)
	nd.Apart(a.run, b.run)
	sameAlone(a, at(i))
	nd.Reach("both")
}

// C24Text: a text with a window of symbolic bytes and any other text, or itself, read at the same time; arg = base.
func C24Text(arg int) {
	text := window(bases[arg], 1, 1)
	k := nd.Choose(len(parseTexts) + 1)
	other := text
	if k > 0 {
		other = parseTexts[k-1]
	}
	a, b := onText(0, text, ""), onText(nd.Choose(2), other, "n")
	nd.Apart(a.run, b.run)
	sameAlone(a, onText(0, text, ""))
}

// C24Names: rules with symbolic names, each generated, printed, dumped and expanded; arg = length of the names.
func C24Names(arg int) {
	x := ast.Variable(identifier(arg))
	y := ast.Variable(identifier(arg))
	r := &ast.Rule{Match: call("Add8", x, y), Result: call("Sub8", ast.Placeholder, x)}
	s := &ast.Rule{Match: call("Not", y), Result: call("AndB", x, ast.Placeholder)}
	i, j := nd.Choose(lookers), nd.Choose(lookers)
	a, b := onTree(i, r), onTree(j, s)
	nd.Apart(a.run, b.run)
	sameAlone(a, onTree(i, r))
	nd.Reach("both")
}

// C24Big: the same call twice on large trees of their own; arg = kind + 100*size.
func C24Big(arg int) {
	k := []int{0, 4, 5, 6}[nd.Choose(4)]
	f := bigFile(arg%100, arg/100)
	g := bigFile(arg%100, arg/100)
	if len(f.Rules) == 0 {
		return
	}
	a, b := onTree(k, f.Rules[0]), onTree(k, g.Rules[len(g.Rules)-1])
	nd.Apart(a.run, b.run)
	sameAlone(a, onTree(k, f.Rules[0]))
	nd.Reach("both")
}
