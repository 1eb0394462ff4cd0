// Command drv replays witnesses against the natively compiled code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"github.com/mmcloughlin/ssarules/internal/zzverif/h"
	"github.com/mmcloughlin/ssarules/internal/zzverif/nd"
)

type item struct {
	Fn     string   `json:"fn"`
	Arg    int      `json:"arg"`
	Values []uint64 `json:"values"`
}

type result struct {
	Status string   `json:"status"` // ok, assert, panic, assume, error
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func main() {
	// drv CLI SCRATCH TIER [known keys...]
	nd.CLI, nd.Tier = os.Args[1], os.Args[3]
	for _, k := range os.Args[4:] {
		nd.KnownKeys[k] = true
	}
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for n := 0; in.More(); n++ {
		var it item
		if err := in.Decode(&it); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		nd.Scratch = fmt.Sprintf("%s/%d-%d", os.Args[2], os.Getpid(), n)
		nd.Clean = func() {
			if nd.ScratchUsed {
				os.RemoveAll(nd.Scratch)
				nd.ScratchUsed = false
			}
		}
		r := run(it)
		nd.Clean()
		enc.Encode(r)
		out.Flush()
	}
}

func run(it item) (r result) {
	nd.Reset(it.Values)
	defer func() {
		r.Obs = nd.Obs
		switch e := recover().(type) {
		case nil:
		case nd.AssertFailed:
			r.Status, r.Msg = "assert", e.Msg
		case nd.AssumeFailed:
			r.Status = "assume"
		default:
			r.Status, r.Msg = "panic", fmt.Sprint("panic: ", e)
			if os.Getenv("DRV_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f := h.Registry[it.Fn]
	if f == nil {
		return result{Status: "error", Msg: "no harness " + it.Fn}
	}
	f(it.Arg)
	return result{Status: "ok"}
}
