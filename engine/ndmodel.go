package main

import (
	"go/types"
	"path"
	"strings"
)

// Stand-ins for the harness interface (package nd).
var ndModels map[string]modelFn

func init() {
	ndModels = map[string]modelFn{
		"Byte": func(w *W, _ *frame, a []any) any { return w.freshVar(8) },
		"Bool": func(w *W, _ *frame, a []any) any {
			v := w.freshVar(8)
			w.assume(w.ctx.cmp(tUlt, v, w.ctx.konst(2, 8)))
			return simp(w.ctx.eq(v, w.ctx.konst(1, 8)))
		},
		"Choose":   func(w *W, _ *frame, a []any) any { return uint64(w.choose(int(conc(a[0])))) },
		"Symbolic": func(w *W, _ *frame, a []any) any { return true },
		"Thorough": func(w *W, _ *frame, a []any) any { return w.eng.tier == "thorough" },
		"Known":    func(w *W, _ *frame, a []any) any { return w.eng.known[w.goStr(a[0], "key")] },
		"Assume": func(w *W, _ *frame, a []any) any {
			w.assume(w.term(a[0], 0))
			return nil
		},
		"Assert": func(w *W, _ *frame, a []any) any {
			w.assert(w.term(a[0], 0), func() string { return w.evalStr(a[1], w.model) })
			return nil
		},
		"Observe": func(w *W, _ *frame, a []any) any {
			w.obs = append(w.obs, obsRec{w.goStr(a[0], "label"), a[1]})
			return nil
		},
		"Reach": func(w *W, _ *frame, a []any) any {
			w.reached = append(w.reached, w.goStr(a[0], "label"))
			return nil
		},
		"MapOrder": func(w *W, _ *frame, a []any) any {
			w.mapOrder = w.truth(a[0])
			return nil
		},
		"PutFile": func(w *W, _ *frame, a []any) any {
			p := "/cwd/" + w.goStr(a[0], "file name")
			kind := int(conc(a[1]))
			if kind != 9 {
				w.env.nodes[path.Clean(p)] = &inode{kind: kind, data: append([]any{}, strBytes(a[2])...)}
			}
			return p
		},
		"Solve": func(w *W, _ *frame, a []any) any {
			w.stats.assertQ++
			return w.sol.script(w.goStr(a[0], "script"))
		},
		"Apart": func(w *W, fr *frame, a []any) any {
			w.apart(fr, a[0].(*closure), a[1].(*closure))
			return nil
		},
		"RunCLI": func(w *W, fr *frame, a []any) any { return w.runCLI(fr, a) },
	}
}

// runCLI executes the command's main function in the virtual environment.
// RunCLI(args []string) (exit int, stdout, stderr string, names []string, data []string)
func (w *W) runCLI(fr *frame, a []any) any {
	pkg := w.eng.pkgs[w.eng.module+"/cmd/ssarules"]
	if pkg == nil {
		unsupported("the command package is not loaded")
	}
	args := append([]any{"ssarules"}, sl(a[0])...)
	w.set(w.global(w.eng.global("os", "Args")), args)
	exit := 0
	depth, sp := w.depth, w.sp
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case exitPanic:
					exit = e.code
				case *targetPanic:
					exit = 2
					w.env.stderr = append(w.env.stderr, strBytes("panic: "+w.panicText(e.v))...)
				default:
					panic(r)
				}
				w.depth, w.sp = depth, sp
			}
		}()
		w.callFn(nil, pkg.Func("main"), nil, nil, false)
	}()
	var names, data []any
	for _, k := range sortedNodes(w.env.nodes) {
		n := w.env.nodes[k]
		if n.kind == 0 {
			names = append(names, strings.TrimPrefix(k, "/cwd/"))
			data = append(data, mkstr(n.data))
		}
	}
	_ = types.Typ
	return tuplev{uint64(exit), mkstr(w.env.stdout), mkstr(w.env.stderr), names, data}
}
