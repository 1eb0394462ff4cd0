package main

import (
	"go/types"
	"path"
	"sort"
	"strings"
)

// osEnv is the virtual operating system of one path.
type osEnv struct {
	nodes  map[string]*inode
	files  map[*any]*vfile
	stdout []any
	stderr []any
	pools  map[*any][]any
	smaps  map[*any]*hmap
	ticks  uint64
	writes int // files opened for writing
	wrote  []string
	tmpN   int
}

type inode struct {
	kind int // 0 file, 1 directory, 2 full device, 3 unreadable
	data []any
}

type vfile struct {
	name   string
	n      *inode
	pos    int
	rd, wr bool
	app    bool
	closed bool
	std    int
}

func newOSEnv() *osEnv {
	return &osEnv{nodes: map[string]*inode{}, files: map[*any]*vfile{}, pools: map[*any][]any{}, smaps: map[*any]*hmap{}}
}

func (w *W) clean(p any) string {
	s := w.goStr(p, "file name")
	if s == "" {
		return ""
	}
	if !path.IsAbs(s) {
		s = "/cwd/" + s
	}
	return path.Clean(s)
}

func (w *W) pathErr(op, name string, e string) any {
	pe := w.eng.typ("io/fs", "PathError")
	var err any
	switch e {
	case "notexist":
		err = *w.global(w.eng.global("internal/oserror", "ErrNotExist"))
	case "exist":
		err = *w.global(w.eng.global("internal/oserror", "ErrExist"))
	case "closed":
		err = *w.global(w.eng.global("internal/oserror", "ErrClosed"))
	case "permission":
		err = *w.global(w.eng.global("internal/oserror", "ErrPermission"))
	default:
		err = w.newErr(e)
	}
	p := new(any)
	*p = structv{op, name, err}
	return iface{w.canon(types.NewPointer(pe)), p}
}

func (w *W) parentOK(p string) bool {
	d := path.Dir(p)
	if d == "/" || d == "/cwd" {
		return true
	}
	n := w.env.nodes[d]
	return n != nil && n.kind == 1
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oAPPEND = 0x400
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
)

func (w *W) openFile(name any, flags uint64) any {
	s := w.goStr(name, "file name")
	fail := func(e string) any { return tuplev{(*any)(nil), w.pathErr("open", s, e)} }
	p := w.clean(name)
	if p == "" {
		return fail("notexist")
	}
	n := w.env.nodes[p]
	if p == "/cwd" || p == "/" {
		n = &inode{kind: 1}
	}
	if strings.HasSuffix(s, "/") && n != nil && n.kind != 1 {
		return fail("not a directory")
	}
	writing := flags&(oWRONLY|oRDWR) != 0
	if n == nil {
		if flags&oCREATE == 0 || !w.parentOK(p) {
			return fail("notexist")
		}
		n = &inode{}
		w.env.nodes[p] = n
	} else {
		if flags&oCREATE != 0 && flags&oEXCL != 0 {
			return fail("exist")
		}
		if n.kind == 1 && writing {
			return fail("is a directory")
		}
		if n.kind == 3 {
			return fail("permission")
		}
	}
	if writing {
		w.env.writes++
		w.env.wrote = append(w.env.wrote, p)
		if flags&oTRUNC != 0 {
			n.data = nil
		}
	}
	f := &vfile{name: s, n: n, rd: flags&oWRONLY == 0, wr: writing, app: flags&oAPPEND != 0}
	h := new(any)
	*h = zero(w.eng.typ("os", "File"))
	w.env.files[h] = f
	return tuplev{h, iface{}}
}

func (w *W) file(h any) *vfile {
	p, _ := h.(*any)
	if p == nil {
		return nil
	}
	if f := w.env.files[p]; f != nil {
		return f
	}
	for i, nm := range []string{"Stdin", "Stdout", "Stderr"} {
		if g := w.eng.global("os", nm); g != nil {
			if q, ok := (*w.global(g)).(*any); ok && q == p {
				return &vfile{name: nm, std: i + 1, wr: i > 0}
			}
		}
	}
	unsupported("file without a model")
	return nil
}

func (w *W) stdWrite(fd int, s any) any {
	if fd == 1 {
		w.env.stdout = append(w.env.stdout, strBytes(s)...)
	} else {
		w.env.stderr = append(w.env.stderr, strBytes(s)...)
	}
	return tuplev{uint64(strLen(s)), iface{}}
}

func (w *W) fileWrite(f *vfile, b []any) any {
	if f == nil {
		return tuplev{uint64(0), w.newErr("invalid argument")}
	}
	if f.std > 0 {
		return w.stdWrite(f.std-1, mkstr(b))
	}
	switch {
	case f.closed:
		return tuplev{uint64(0), w.pathErr("write", f.name, "closed")}
	case !f.wr:
		return tuplev{uint64(0), w.pathErr("write", f.name, "bad file descriptor")}
	case f.n.kind == 2 && len(b) > 0:
		return tuplev{uint64(0), w.pathErr("write", f.name, "no space left on device")}
	}
	if f.app {
		f.pos = len(f.n.data)
	}
	d := append([]any(nil), f.n.data...)
	for len(d) < f.pos {
		d = append(d, uint64(0))
	}
	k := copy(d[f.pos:], b)
	d = append(d, b[k:]...)
	f.n.data = d
	f.pos += len(b)
	return tuplev{uint64(len(b)), iface{}}
}

// fileInfo is what os.Stat tells: name, size, mode; times and system data are zero.
func (w *W) fileInfo(name string, n *inode) any {
	t := w.eng.typ("os", "fileStat")
	v := zero(t).(structv)
	v[0] = path.Base(name)
	v[1] = uint64(len(n.data))
	mode := uint64(0o644)
	switch n.kind {
	case 1:
		mode = 1<<31 | 0o755
	case 2:
		mode = 1<<26 | 1<<21 | 0o666
	case 3:
		mode = 0
	}
	v[2] = mode
	p := new(any)
	*p = v
	return iface{w.canon(types.NewPointer(t)), p}
}

func (w *W) ioEOF() any { return *w.global(w.eng.global("io", "EOF")) }

func osModels() map[string]modelFn {
	return map[string]modelFn{
		"os.Exit":     func(w *W, _ *frame, a []any) any { panic(exitPanic{int(conc(a[0]) & 0xff)}) },
		"os.Open":     func(w *W, _ *frame, a []any) any { return w.openFile(a[0], 0) },
		"os.Create":   func(w *W, _ *frame, a []any) any { return w.openFile(a[0], oRDWR|oCREATE|oTRUNC) },
		"os.OpenFile": func(w *W, _ *frame, a []any) any { return w.openFile(a[0], conc(a[1])) },
		"os.ReadFile": func(w *W, _ *frame, a []any) any {
			r := w.openFile(a[0], 0).(tuplev)
			if toIface(r[1]).t != nil {
				return tuplev{[]any(nil), r[1]}
			}
			f := w.file(r[0])
			if f.n.kind == 1 {
				return tuplev{[]any{}, w.pathErr("read", f.name, "is a directory")}
			}
			return tuplev{append([]any{}, f.n.data...), iface{}}
		},
		"os.WriteFile": func(w *W, _ *frame, a []any) any {
			r := w.openFile(a[0], oWRONLY|oCREATE|oTRUNC).(tuplev)
			if toIface(r[1]).t != nil {
				return r[1]
			}
			return w.fileWrite(w.file(r[0]), sl(a[1])).(tuplev)[1]
		},
		"os.Mkdir": func(w *W, _ *frame, a []any) any {
			p := w.clean(a[0])
			if w.env.nodes[p] != nil {
				return w.pathErr("mkdir", w.goStr(a[0], ""), "exist")
			}
			if !w.parentOK(p) {
				return w.pathErr("mkdir", w.goStr(a[0], ""), "notexist")
			}
			w.env.nodes[p] = &inode{kind: 1}
			return iface{}
		},
		"os.MkdirAll": func(w *W, _ *frame, a []any) any {
			p := w.clean(a[0])
			for d := p; d != "/" && d != "/cwd" && d != "."; d = path.Dir(d) {
				if n := w.env.nodes[d]; n != nil && n.kind != 1 {
					return w.pathErr("mkdir", w.goStr(a[0], ""), "not a directory")
				}
			}
			for d := p; d != "/" && d != "/cwd" && d != "."; d = path.Dir(d) {
				if w.env.nodes[d] == nil {
					w.env.nodes[d] = &inode{kind: 1}
				}
			}
			return iface{}
		},
		"os.Remove": func(w *W, _ *frame, a []any) any {
			p := w.clean(a[0])
			if w.env.nodes[p] == nil {
				return w.pathErr("remove", w.goStr(a[0], ""), "notexist")
			}
			delete(w.env.nodes, p)
			return iface{}
		},
		"os.RemoveAll": func(w *W, _ *frame, a []any) any {
			p := w.clean(a[0])
			for k := range w.env.nodes {
				if k == p || strings.HasPrefix(k, p+"/") {
					delete(w.env.nodes, k)
				}
			}
			return iface{}
		},
		"os.Rename": func(w *W, _ *frame, a []any) any {
			p, q := w.clean(a[0]), w.clean(a[1])
			n := w.env.nodes[p]
			if n == nil || !w.parentOK(q) {
				return w.pathErr("rename", w.goStr(a[0], ""), "notexist")
			}
			if m := w.env.nodes[q]; m != nil && m.kind == 1 {
				return w.pathErr("rename", w.goStr(a[0], ""), "exist")
			}
			delete(w.env.nodes, p)
			w.env.nodes[q] = n
			return iface{}
		},
		"os.CreateTemp": func(w *W, _ *frame, a []any) any {
			dir := w.goStr(a[0], "directory")
			if dir == "" {
				dir = "/tmp"
				w.env.nodes["/tmp"] = &inode{kind: 1}
			}
			pat := w.goStr(a[1], "pattern")
			w.env.tmpN++
			name := strings.Replace(pat, "*", "tmp"+string(rune('0'+w.env.tmpN)), 1)
			if name == pat {
				name += "tmp" + string(rune('0'+w.env.tmpN))
			}
			return w.openFile(dir+"/"+name, oRDWR|oCREATE|oEXCL)
		},
		"os.Stat": func(w *W, _ *frame, a []any) any {
			p := w.clean(a[0])
			if p == "/" || p == "/cwd" {
				return tuplev{w.fileInfo(p, &inode{kind: 1}), iface{}}
			}
			if w.env.nodes[p] == nil {
				return tuplev{iface{}, w.pathErr("stat", w.goStr(a[0], ""), "notexist")}
			}
			return tuplev{w.fileInfo(p, w.env.nodes[p]), iface{}}
		},
		"os.Lstat": func(w *W, fr *frame, a []any) any { return osModels()["os.Stat"](w, fr, a) },
		"os.IsNotExist": func(w *W, _ *frame, a []any) any {
			return w.errorsIs(toIface(a[0]), toIface(*w.global(w.eng.global("internal/oserror", "ErrNotExist"))))
		},
		"os.Getenv":       func(w *W, _ *frame, a []any) any { return "" },
		"os.LookupEnv":    func(w *W, _ *frame, a []any) any { return tuplev{"", false} },
		"os.Getpid":       func(w *W, _ *frame, a []any) any { return uint64(1) },
		"(*os.File).Name": func(w *W, _ *frame, a []any) any { return w.file(a[0]).name },
		"(*os.File).Close": func(w *W, _ *frame, a []any) any {
			f := w.file(a[0])
			if f == nil {
				return w.newErr("invalid argument")
			}
			if f.closed {
				return w.pathErr("close", f.name, "closed")
			}
			f.closed = true
			return iface{}
		},
		"(*os.File).Stat": func(w *W, _ *frame, a []any) any {
			f := w.file(a[0])
			switch {
			case f == nil:
				return tuplev{iface{}, w.newErr("invalid argument")}
			case f.closed:
				return tuplev{iface{}, w.pathErr("stat", f.name, "closed")}
			case f.std > 0:
				unsupported("Stat of a standard stream")
			}
			return tuplev{w.fileInfo(f.name, f.n), iface{}}
		},
		"(*os.File).Sync":        func(w *W, _ *frame, a []any) any { return iface{} },
		"(*os.File).Chmod":       func(w *W, _ *frame, a []any) any { return iface{} },
		"(*os.File).Write":       func(w *W, _ *frame, a []any) any { return w.fileWrite(w.file(a[0]), sl(a[1])) },
		"(*os.File).WriteString": func(w *W, _ *frame, a []any) any { return w.fileWrite(w.file(a[0]), strBytes(a[1])) },
		"(*os.File).Read": func(w *W, _ *frame, a []any) any {
			f := w.file(a[0])
			b := sl(a[1])
			if f == nil {
				return tuplev{uint64(0), w.newErr("invalid argument")}
			}
			if f.std > 0 {
				return tuplev{uint64(0), w.ioEOF()}
			}
			if f.closed {
				return tuplev{uint64(0), w.pathErr("read", f.name, "closed")}
			}
			if f.n.kind == 1 {
				return tuplev{uint64(0), w.pathErr("read", f.name, "is a directory")}
			}
			if len(b) == 0 {
				return tuplev{uint64(0), iface{}}
			}
			if f.pos >= len(f.n.data) {
				return tuplev{uint64(0), w.ioEOF()}
			}
			k := len(f.n.data) - f.pos
			if k > len(b) {
				k = len(b)
			}
			for i := 0; i < k; i++ {
				w.set(&b[i], f.n.data[f.pos+i])
			}
			f.pos += k
			return tuplev{uint64(k), iface{}}
		},
		"(*os.File).ReadFrom": func(w *W, fr *frame, a []any) any {
			// generic copy
			var total uint64
			buf := make([]any, 512)
			for {
				for i := range buf {
					buf[i] = uint64(0)
				}
				r, _ := w.callMethod(toIface(a[1]), "Read", buf)
				t := r.(tuplev)
				n := w.intVal(t[0], types.Typ[types.Int])
				if n > 0 {
					wr := w.fileWrite(w.file(a[0]), append([]any(nil), buf[:n]...)).(tuplev)
					total += conc(wr[0])
					if toIface(wr[1]).t != nil {
						return tuplev{total, wr[1]}
					}
				}
				if e := toIface(t[1]); e.t != nil {
					if w.errorsIs(e, toIface(w.ioEOF())) == true {
						return tuplev{total, iface{}}
					}
					return tuplev{total, t[1]}
				}
			}
		},
		"os.Getwd":   func(w *W, _ *frame, a []any) any { return tuplev{"/cwd", iface{}} },
		"os.TempDir": func(w *W, _ *frame, a []any) any { return "/tmp" },
	}
}

// setupOS fills the package variables of os, whose own initialisation is not executed.
// It runs before the initialisers of the other packages.
func (w *W) setupOS() {
	setg := func(pkg, name string, v any) {
		if g := w.eng.global(pkg, name); g != nil {
			*w.global(g) = v
		}
	}
	getg := func(pkg, name string) any {
		if g := w.eng.global(pkg, name); g != nil {
			return *w.global(g)
		}
		return iface{}
	}
	fillErrors := func() {
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrPermission", "ErrClosed", "ErrInvalid"} {
			setg("os", n, getg("internal/oserror", n))
		}
		setg("errors", "ErrUnsupported", w.newErr("unsupported operation"))
	}
	for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
		h := new(any)
		*h = zero(w.eng.typ("os", "File"))
		setg("os", n, h)
	}
	// the error values of packages whose initialisers are not executed, before anybody copies them
	if p := w.eng.pkgs["internal/oserror"]; p != nil {
		w.callFn(nil, p.Func("init"), nil, nil, false)
	}
	if p := w.eng.pkgs["internal/poll"]; p != nil {
		d := new(any)
		*d = structv{}
		timeout := iface{w.canon(types.NewPointer(w.eng.typ("internal/poll", "DeadlineExceededError"))), d}
		setg("internal/poll", "ErrDeadlineExceeded", timeout)
		setg("internal/poll", "ErrNoDeadline", w.newErr("file type does not support deadline"))
		setg("os", "ErrDeadlineExceeded", timeout)
		setg("os", "ErrNoDeadline", getg("internal/poll", "ErrNoDeadline"))
	}
	setg("os", "ErrProcessDone", w.newErr("os: process already finished"))
	if w.eng.pkgs["context"] != nil {
		setg("context", "Canceled", w.newErr("context canceled"))
		setg("context", "DeadlineExceeded", iface{w.canon(w.eng.typ("context", "deadlineExceededError")), structv{}})
	}
	fillErrors()
	setg("os", "Args", []any{"ssarules"})
	setg("internal/bytealg", "MaxLen", uint64(63))
}

func sortedNodes(m map[string]*inode) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
