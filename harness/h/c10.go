package h

import (
	"errors"
	"io"
	"os"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/printer"
)

var errWrite = errors.New("no space left")

// faultWriter fails at one write, having accepted part of it.
type faultWriter struct {
	got    []byte
	calls  int
	failAt int // call number, -1 for none
	part   int // 0 nothing, 1 half, 2 all of the failing write is accepted
	err    error
	failed bool
	after  int // writes after the failure
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
	}
	w.calls++
	if w.calls-1 == w.failAt {
		w.failed = true
		n := 0
		switch w.part {
		case 1:
			n = len(p) / 2
		case 2:
			n = len(p)
		}
		w.got = append(w.got, p[:n]...)
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

// printNodes are nodes of every kind the printer takes.
func printNode(k int) ast.Node {
	full := &ast.SExpr{Binding: "v", Op: ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"8", "16"}}, Type: "t", AuxInt: goExpr("-c+f(x, y...)"), Aux: goExpr("!(a && b).c"),
		Args: []ast.Value{ast.Variable(name("x")), ast.Placeholder, goExpr("g(*x)"), &ast.SExpr{Op: ast.Opcode("B")}}, Ellipsis: true, Trailing: true}
	rule := &ast.Rule{Match: full, Condition: goExpr("x == 'c' || 1 .y"), Block: "b", Result: ast.Variable("x")}
	switch k {
	case 0:
		return &ast.File{Rules: []*ast.Rule{rule, {Match: ast.Variable("a"), Result: ast.Variable("b")}}}
	case 1:
		return rule
	case 2:
		return full
	case 3:
		return goExpr("a+b")
	case 4:
		return ast.Variable("x")
	case 5:
		return ast.Opcode("Op")
	case 6:
		return ast.OpcodeParts{ast.OpcodeAlt{"A", "B"}, ast.Opcode("c")}
	}
	return &ast.File{}
}

const printNodes = 8

// C10Fail: one write of the output fails; arg = node.
func C10Fail(arg int) {
	n := printNode(arg)
	want, err := printer.Bytes(n)
	if err != nil {
		nd.Assert(false, "cannot print: "+err.Error())
		return
	}
	count := &faultWriter{failAt: -1}
	err = printer.Fprint(count, n)
	nd.Assert(err == nil, "an error although no write failed")
	nd.Assert(string(count.got) == string(want), "the writer received "+string(count.got)+", the text is "+string(want))
	nd.Observe("text", string(want))
	if count.calls == 0 {
		return
	}
	w := &faultWriter{failAt: nd.Choose(count.calls), part: nd.Choose(3)}
	switch nd.Choose(4) {
	case 0:
		w.err = errWrite
	case 1:
		w.err = io.EOF
	case 2:
		w.err = io.ErrShortWrite
	case 3:
		w.err = wrapped{errWrite}
	}
	err = printer.Fprint(w, n)
	nd.Assert(err != nil, "write "+itoa(w.failAt)+" of "+itoa(count.calls)+" failed and printing returned no error")
	nd.Assert(w.after == 0, "printing went on after a failed write")
	nd.Assert(len(w.got) <= len(want) && string(w.got) == string(want[:len(w.got)]), "what was written before the failure is "+string(w.got)+", not the start of "+string(want))
	nd.Reach("failed")
}

// limitWriter accepts a number of bytes.
type limitWriter struct {
	got   []byte
	room  int
	fails int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	n := len(p)
	if n > w.room {
		n = w.room
	}
	w.got = append(w.got, p[:n]...)
	w.room -= n
	if n < len(p) {
		w.fails++
		return n, errWrite
	}
	return n, nil
}

// C10Full: the writer is full after any number of bytes; arg = node.
func C10Full(arg int) {
	n := printNode(arg)
	want, err := printer.Bytes(n)
	if err != nil {
		nd.Assert(false, "cannot print: "+err.Error())
		return
	}
	room := nd.Choose(len(want) + 1)
	w := &limitWriter{room: room}
	err = printer.Fprint(w, n)
	nd.Assert((err == nil) == (room == len(want)), "room for "+itoa(room)+" of "+itoa(len(want))+" bytes, and that is reported wrongly")
	nd.Assert(string(w.got) == string(want[:room]), "the writer holds "+string(w.got)+", not the start of "+string(want))
	nd.Assert(w.fails <= 1, "printing went on after a failed write")
}

// C10Transient: one write fails, all others succeed; the failure must not be forgotten.  Two rules, all counts.
func C10Rules(arg int) {
	f := &ast.File{}
	for i := 0; i < arg; i++ {
		f.Rules = append(f.Rules, &ast.Rule{Match: ast.Variable("x" + itoa(i)), Result: &ast.SExpr{Op: ast.Opcode("A")}})
	}
	want, _ := printer.Bytes(f)
	count := &faultWriter{failAt: -1}
	printer.Fprint(count, f)
	w := &faultWriter{failAt: nd.Choose(count.calls), part: 2, err: errWrite}
	err := printer.Fprint(w, f)
	nd.Assert(err != nil && w.after == 0, "a failed write was forgotten")
	nd.Assert(string(w.got) == string(want[:len(w.got)]), "wrong text before the failure")
}

// C10Print: printing to a standard output that is closed, cannot be written or is full - or works; arg = node.
func C10Print(arg int) {
	n := printNode(arg)
	want, err := printer.Bytes(n)
	if err != nil {
		nd.Assert(false, "cannot print: "+err.Error())
		return
	}
	how := nd.Choose(4)
	name := nd.PutFile("stdout", []int{0, 2, 0, 0}[how], "")
	flags := os.O_WRONLY
	if how == 3 {
		flags = os.O_RDONLY
	}
	f, err := os.OpenFile(name, flags, 0)
	if err != nil {
		nd.Assert(false, "cannot open: "+err.Error())
		return
	}
	if how == 2 {
		f.Close()
	}
	old := os.Stdout
	os.Stdout = f
	err = printer.Print(n)
	os.Stdout = old
	f.Close()
	if how > 0 {
		nd.Assert(err != nil || len(want) == 0, "printing to a standard output that fails returned no error")
		nd.Reach("failed")
		return
	}
	nd.Assert(err == nil, "an error although no write failed")
	b, _ := os.ReadFile(name)
	nd.Assert(string(b) == string(want), "standard output received "+string(b)+", the text is "+string(want))
}
