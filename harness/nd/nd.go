// Package nd is the harness interface: values that are symbolic under the engine
// and read from a recorded witness when a path is replayed natively.
package nd

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// RuntimeError is the value of run-time panics under the engine.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }
func (e RuntimeError) RuntimeError() {}

// Native replay state.
var (
	Values  []uint64
	pos     int
	Obs     []string
	Tier    string
	CLI     string // path of the real command
	Scratch string // scratch directory of this replay

	ScratchUsed bool
	Clean       func()
)

func scratch() string {
	if !ScratchUsed {
		must(os.MkdirAll(Scratch, 0o755))
		ScratchUsed = true
	}
	return Scratch
}

type AssertFailed struct{ Msg string }
type AssumeFailed struct{}

func Reset(v []uint64) { Values, pos, Obs = v, 0, nil }

func next() uint64 {
	if pos >= len(Values) {
		// beyond the recorded part every value is zero, as in the engine's model
		pos++
		return 0
	}
	pos++
	return Values[pos-1]
}

// Byte is any byte.
func Byte() byte { return byte(next()) }

// Bool is any boolean.
func Bool() bool { return next() == 1 }

// Choose is any of 0..n-1; every value is explored as a separate path.
func Choose(n int) int { return int(next()) }

// Apart runs the two calls at the same time.  They make no choices and share no memory that either changes.
func Apart(f, g func()) {
	start := make(chan struct{})
	done := make(chan struct{})
	var bad [2]interface{}
	for i, fn := range []func(){f, g} {
		i, fn := i, fn
		go func() {
			defer func() {
				bad[i] = recover()
				done <- struct{}{}
			}()
			<-start
			fn()
		}()
	}
	close(start)
	<-done
	<-done
	for _, b := range bad {
		if b != nil {
			panic(b)
		}
	}
}

// Symbolic tells whether the engine runs this.
func Symbolic() bool { return false }

// Thorough tells whether the thorough bounds apply.
func Thorough() bool { return Tier == "thorough" }

// Assume restricts the values considered.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert is an obligation.
func Assert(c bool, msg string) {
	if !c {
		panic(AssertFailed{msg})
	}
}

// Observe records an output to be compared between the encoding and the native run.
func Observe(label, s string) { Obs = append(Obs, label+"="+strconv.QuoteToASCII(s)) }

// Reach marks a point that must be reached by some path (vacuity guard).
func Reach(label string) {}

// MapOrder makes the iteration order of maps part of the explored choices.
func MapOrder(on bool) {}

// PutFile creates a file (0), directory (1), full device (2), unreadable file (3) or nothing (9).
func PutFile(name string, kind int, data string) string {
	p := filepath.Join(scratch(), name)
	switch kind {
	case 0:
		must(os.WriteFile(p, []byte(data), 0o644))
	case 1:
		must(os.MkdirAll(p, 0o755))
	case 2:
		must(os.Symlink("/dev/full", p))
	case 3:
		// a file that cannot be opened whoever asks: a symbolic link to itself
		must(os.Symlink(p, p))
	}
	return p
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Solve gives the verdict of an SMT solver on a script.
func Solve(script string) string {
	c := exec.Command("z3", "-in")
	c.Stdin = strings.NewReader(script + "\n")
	out, _ := c.Output()
	ls := strings.Fields(strings.TrimSpace(string(out)))
	return strings.Join(ls, " ")
}

// RunCLI runs the command in the scratch directory and gives its exit status, its output and
// every regular file that is there afterwards (names relative to the scratch directory, sorted).
func RunCLI(args []string) (exit int, stdout, stderr string, names, data []string) {
	scratch()
	c := exec.Command(CLI, args...)
	c.Dir = Scratch
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			exit = ee.ExitCode()
		} else {
			panic(err)
		}
	}
	walk(func(p string) { names = append(names, strings.TrimPrefix(p, Scratch+"/")) })
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(filepath.Join(Scratch, n))
		must(err)
		data = append(data, string(b))
	}
	return exit, so.String(), se.String(), names, data
}

func walk(f func(p string)) {
	filepath.Walk(Scratch, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			f(p)
		}
		return nil
	})
}

var _ = fmt.Sprint
