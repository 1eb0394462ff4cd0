package h

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"

	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
	"github.com/mmcloughlin/ssarules/parse"
)

var errRead = errors.New("the disk is gone")

type wrapped struct{ error }

func (w wrapped) Unwrap() error { return w.error }

// errs are errors a read can return other than end of input.
func readError(k int) error {
	switch k {
	case 0:
		return errRead
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrNoProgress
	case 3:
		return wrapped{io.EOF}
	case 4:
		return io.ErrClosedPipe
	case 5:
		return errors.New("EOF")
	case 6:
		return os.ErrDeadlineExceeded
	case 7:
		return os.ErrClosed
	case 8:
		return io.ErrShortBuffer
	case 9:
		return passing{}
	case 10:
		return context.Canceled
	case 11:
		return errors.New("")
	case 12:
		return &fs.PathError{Op: "read", Path: "x", Err: syscall.EINTR}
	case 13:
		return syscall.EAGAIN
	case 14:
		return context.DeadlineExceeded
	case 15:
		return io.ErrShortWrite
	case 16:
		return &fs.PathError{Op: "read", Path: "x", Err: fs.ErrNotExist}
	}
	return &fs.PathError{Op: "read", Path: "x", Err: io.EOF}
}

const readErrors = 18

// passing is an error that calls itself temporary.
type passing struct{}

func (passing) Error() string   { return "try again" }
func (passing) Timeout() bool   { return true }
func (passing) Temporary() bool { return true }

// pieceReader hands out data in pieces of symbolic size and then ends, or fails after some bytes.
type pieceReader struct {
	data   string
	at     int
	max    int   // largest piece
	zeros  int   // empty reads allowed
	failAt int   // -1: no failure
	err    error // what the failure is
	with   bool  // data and the final error come together
	failed bool
	after  int // reads after the failure
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if r.failed {
		r.after++
		return 0, r.err
	}
	end := len(r.data)
	fin := error(io.EOF)
	if r.failAt >= 0 {
		end, fin = r.failAt, r.err
	}
	if r.at == end {
		r.failed = r.failAt >= 0
		return 0, fin
	}
	n := end - r.at
	if r.max > 0 && n > 1 {
		m := r.max
		if m > n {
			m = n
		}
		n = 1 + nd.Choose(m)
	}
	if r.zeros > 0 && nd.Choose(2) == 1 {
		r.zeros--
		return 0, nil
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.at:r.at+n])
	r.at += n
	if r.with && r.at == end {
		r.failed = r.failAt >= 0
		return n, fin
	}
	return n, nil
}

var readTexts = []string{"(A x)=>x\n", "(A)", "", "// c\n", "(A) => (B)", "(A) => (B)\n(C) => (D)"}

// C08Fail: the read fails after any number of bytes; arg = text.
func C08Fail(arg int) {
	text := readTexts[arg]
	r := &pieceReader{data: text, failAt: nd.Choose(len(text) + 1), err: readError(nd.Choose(readErrors)), with: nd.Choose(2) == 1, zeros: nd.Choose(2)}
	if r.failAt == 0 {
		r.with = false
	}
	f, err := parse.Reader("in", r)
	nd.Assert(f == nil, "a file came back although reading failed after "+itoa(r.failAt)+" bytes of "+text)
	nd.Assert(err != nil, "no error came back although reading failed")
	if err != nil {
		nd.Observe("err", err.Error())
		nd.Assert(err == r.err || errors.Is(err, r.err) || strings.Contains(err.Error(), r.err.Error()), "the read error became "+err.Error())
	}
	nd.Reach("failed")
}

// C08FailPieces: the same with symbolic piece sizes.
func C08FailPieces(arg int) {
	text := readTexts[arg]
	r := &pieceReader{data: text, failAt: nd.Choose(len(text) + 1), err: readError(nd.Choose(2)), max: 3}
	f, err := parse.Reader("in", r)
	nd.Assert(f == nil && err != nil, "reading failed after "+itoa(r.failAt)+" bytes of "+text+" and that is not reported")
	if err != nil {
		nd.Assert(err == r.err || errors.Is(err, r.err) || strings.Contains(err.Error(), r.err.Error()), "the read error became "+err.Error())
	}
}

// C08Pieces: however the bytes arrive, the result is the same; arg = text + 10*symbolic characters.
func C08Pieces(arg int) {
	text := readTexts[arg%10]
	if arg/10 > 0 {
		at := nd.Choose(len(text))
		text = text[:at] + string([]byte{ascii()}) + text[at+1:]
	}
	r := &pieceReader{data: text, failAt: -1, max: 3, zeros: 1, with: nd.Choose(2) == 1}
	samePieces(text, r)
}

func samePieces(text string, r io.Reader) {
	f, err := parse.Reader("string", r)
	g, err2 := parse.String(text)
	nd.Observe("text", text)
	nd.Assert((err == nil) == (err2 == nil), "delivery in pieces decides whether "+text+" is accepted")
	if err != nil && err2 != nil {
		nd.Assert(err.Error() == err2.Error(), "delivery in pieces changes the error of "+text)
		nd.Reach("rejected")
		return
	}
	if err == nil && err2 == nil {
		nd.Assert(dumpFile(f) == dumpFile(g), "delivery in pieces changes what "+text+" parses as")
		nd.Reach("accepted")
	}
}

// C08Long: a long text in pieces cut at one place and with a first piece of any size up to its length.
func C08Long(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		text += "(A" + itoa(i) + " <t> [c] x) && p(x) => (B" + itoa(i) + " x)\n"
	}
	k := nd.Choose(8)
	cut := len(text) * k / 8
	samePieces(text, io.MultiReader(strings.NewReader(text[:cut]), &pieceReader{data: text[cut:], failAt: -1, zeros: 1, with: true}))
}

// C08LongFail: a long text whose last part cannot be read, although what came before is complete.
func C08LongFail(arg int) {
	text := ""
	for i := 0; i < arg; i++ {
		text += "(A" + itoa(i) + " <t> [c] x) && p(x) => (B" + itoa(i) + " x)\n"
	}
	k := nd.Choose(9)
	r := &pieceReader{data: text, failAt: len(text) * k / 8, err: readError(nd.Choose(readErrors)), with: k > 0 && nd.Choose(2) == 1}
	f, err := parse.Reader("in", r)
	nd.Assert(f == nil && err != nil && (err == r.err || errors.Is(err, r.err) || strings.Contains(err.Error(), r.err.Error())), "reading failed after "+itoa(r.failAt)+" bytes and that is not reported")
}

// C08File: files that cannot be opened or read, and files that can.
func C08File(int) {
	kind := []int{0, 1, 3, 9}[nd.Choose(4)]
	text := readTexts[nd.Choose(len(readTexts))]
	p := nd.PutFile("x.rules", kind, text)
	f, err := parse.File(p)
	if kind != 0 {
		nd.Assert(f == nil && err != nil, "no error for a file that cannot be read")
		nd.Reach("failed")
		return
	}
	g, err2 := parse.String(text)
	nd.Assert((err == nil) == (err2 == nil), "reading from a file decides whether the text is accepted")
	if err == nil && err2 == nil {
		nd.Assert(dumpFile(f) == dumpFile(g), "reading from a file changes what the text parses as")
		nd.Reach("read")
	}
}

// idleReader gives nothing idle times in a row when it has handed out at bytes.
type idleReader struct {
	pieceReader
	at, idle int
}

func (r *idleReader) Read(p []byte) (int, error) {
	if r.pieceReader.at == r.at && r.idle > 0 {
		r.idle--
		return 0, nil
	}
	if n := r.at - r.pieceReader.at; n > 0 && n < len(p) {
		p = p[:n]
	}
	return r.pieceReader.Read(p)
}

// C08Idle: at any place of the text the reader gives nothing arg times in a row, then the rest, or fails.
func C08Idle(arg int) {
	text := readTexts[nd.Choose(len(readTexts))]
	r := &idleReader{at: nd.Choose(len(text) + 1), idle: arg}
	r.data, r.failAt = text, -1
	if nd.Choose(2) == 0 {
		samePieces(text, r)
		return
	}
	r.failAt, r.err = r.at, errRead
	f, err := parse.Reader("in", r)
	nd.Assert(f == nil && err != nil && (errors.Is(err, r.err) || strings.Contains(err.Error(), r.err.Error())), "reading failed after "+itoa(r.failAt)+" bytes and "+itoa(arg)+" reads of nothing, and that is not reported")
	nd.Reach("failed")
}
