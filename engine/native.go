package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// witness is one path's concrete input.
type witness struct {
	Fn     string   `json:"fn"`
	Arg    int      `json:"arg"`
	Values []uint64 `json:"values"`
	Race   bool     `json:"race,omitempty"`
	obs    []string
}

type candidate struct {
	witness
	kind, msg string
}

// native is the natively compiled code with the same harnesses.
type native struct {
	repo, harness, scratch, tier string
	known                        []string
	once                         sync.Once
	err                          error
	done                         chan struct{}
	mu                           sync.Mutex
	race                         bool // candidates are confirmed under the race detector
	raceOnce                     sync.Once
	raceErr                      error
}

func (n *native) ch() chan struct{} {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.done == nil {
		n.done = make(chan struct{})
	}
	return n.done
}

func (n *native) build() {
	defer close(n.ch())
	ov := map[string]map[string]string{"Replace": overlayFiles(n.repo, n.harness)}
	b, _ := json.Marshal(ov)
	ovf := filepath.Join(n.scratch, "overlay.json")
	if n.err = os.WriteFile(ovf, b, 0o644); n.err != nil {
		return
	}
	for _, t := range [][2]string{{"drv", "./internal/zzverif/drv"}, {"cli", "./cmd/ssarules"}} {
		c := exec.Command(goRoot+"/bin/go", "build", "-overlay", ovf, "-o", filepath.Join(n.scratch, t[0]), t[1])
		c.Dir = n.repo
		c.Env = goEnv()
		if out, err := c.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build of %s: %v\n%s", t[1], err, out)
			return
		}
	}
}

// buildRace builds the driver with the race detector; only done when there is something to confirm.
func (n *native) buildRace() error {
	n.raceOnce.Do(func() {
		c := exec.Command(goRoot+"/bin/go", "build", "-race", "-overlay", filepath.Join(n.scratch, "overlay.json"), "-o", filepath.Join(n.scratch, "drv-race"), "./internal/zzverif/drv")
		c.Dir = n.repo
		c.Env = append(goEnv(), "CGO_ENABLED=1")
		if out, err := c.CombinedOutput(); err != nil {
			n.raceErr = fmt.Errorf("native build with the race detector: %v\n%s", err, out)
		}
	})
	return n.raceErr
}

func (n *native) wait() error {
	<-n.ch()
	return n.err
}

type nresult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

const itemTimeout = 20 * time.Second

// run replays the witnesses, in order.  A witness that does not come back ends the process; the rest continue in a new one.
func (n *native) run(ws []witness) []nresult {
	res := make([]nresult, len(ws))
	i := 0
	for i < len(ws) {
		i += n.runSome(ws[i:], res[i:])
	}
	return res
}

// raced replays each witness in a process of its own under the race detector.
func (n *native) raced(ws []witness) []nresult {
	res := make([]nresult, len(ws))
	if err := n.buildRace(); err != nil {
		for i := range res {
			res[i] = nresult{Status: "error", Msg: err.Error()}
		}
		return res
	}
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			n.runWith("drv-race", ws[i:i+1], res[i:i+1])
			<-sem
		}()
	}
	wg.Wait()
	return res
}

func (n *native) runSome(ws []witness, res []nresult) int { return n.runWith("drv", ws, res) }

func (n *native) runWith(drv string, ws []witness, res []nresult) int {
	args := append([]string{filepath.Join(n.scratch, "cli"), filepath.Join(n.scratch, "run"), n.tier}, n.known...)
	c := exec.Command(filepath.Join(n.scratch, drv), args...)
	c.Dir = n.scratch
	c.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=none", "GORACE=halt_on_error=1 exitcode=66")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	var stderr strings.Builder
	c.Stderr = &stderr
	if err := c.Start(); err != nil {
		for i := range ws {
			res[i] = nresult{Status: "error", Msg: err.Error()}
		}
		return len(ws)
	}
	go func() {
		enc := json.NewEncoder(in)
		for _, w := range ws {
			if enc.Encode(w) != nil {
				break
			}
		}
		in.Close()
	}()
	lines := make(chan []byte)
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			b, err := r.ReadBytes('\n')
			if len(b) > 0 && b[len(b)-1] == '\n' {
				lines <- b
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	kill := func() {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		go func() {
			for range lines {
			}
		}()
		c.Wait()
	}
	for i := range ws {
		select {
		case b, ok := <-lines:
			if !ok {
				c.Wait()
				res[i] = nresult{Status: "crash", Msg: "the process ended: " + clip(stderr.String(), 300)}
				return i + 1
			}
			if err := json.Unmarshal(b, &res[i]); err != nil {
				res[i] = nresult{Status: "error", Msg: err.Error()}
			}
		case <-time.After(itemTimeout):
			kill()
			res[i] = nresult{Status: "hang", Msg: fmt.Sprintf("no result within %v", itemTimeout)}
			return i + 1
		}
	}
	io.Copy(io.Discard, strings.NewReader(""))
	for range lines {
	}
	c.Wait()
	return len(ws)
}

// parallel replays in several processes.
func (n *native) parallel(ws []witness) []nresult {
	res := make([]nresult, len(ws))
	k := 6
	var wg sync.WaitGroup
	for p := 0; p < k; p++ {
		lo, hi := len(ws)*p/k, len(ws)*(p+1)/k
		if lo == hi {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			copy(res[lo:hi], n.run(ws[lo:hi]))
		}()
	}
	wg.Wait()
	return res
}

// confirm keeps the candidates that fail natively too.
func (n *native) confirm(cs []candidate) (confirmed []candidate, rest []string) {
	// a few of each message are enough
	count := map[string]int{}
	var pick []candidate
	for _, c := range cs {
		k := fmt.Sprint(c.Fn, c.Arg, c.kind, clip(c.msg, 60))
		lim := 6
		if c.kind == "hang" {
			lim = 2
		}
		if c.kind == "inconclusive" {
			lim = 20
		}
		if count[k] < lim {
			count[k]++
			pick = append(pick, c)
		}
	}
	ws := make([]witness, len(pick))
	for i, c := range pick {
		ws[i] = c.witness
	}
	var rs []nresult
	if n.race {
		rs = n.raced(ws)
	} else {
		rs = n.parallel(ws)
	}
	shown := map[string]int{}
	for i, r := range rs {
		c := pick[i]
		switch r.Status {
		case "assert", "panic", "hang", "crash":
			c.kind, c.msg = r.Status, r.Msg
			k := fmt.Sprint(c.Fn, clip(c.msg, 40))
			shown[k]++
			if shown[k] <= 2 && len(confirmed) < 12 {
				confirmed = append(confirmed, c)
			}
		case "error":
			rest = append(rest, fmt.Sprintf("%s(%d) %s", c.Fn, c.Arg, r.Msg))
		default:
			if c.kind != "inconclusive" {
				rest = append(rest, fmt.Sprintf("%s(%d) %s: %s -> %s %v", c.Fn, c.Arg, c.kind, c.msg, r.Status, c.Values))
			}
		}
	}
	return
}

// validate compares what the encoding and the native code observed on sampled paths.
func (n *native) validate(ss []witness) (ok int, bad []string) {
	for i, r := range n.parallel(ss) {
		s := ss[i]
		if r.Status != "ok" {
			bad = append(bad, fmt.Sprintf("%s(%d) %v: native %s %s", s.Fn, s.Arg, s.Values, r.Status, r.Msg))
			continue
		}
		same := len(r.Obs) == len(s.obs)
		for k := 0; same && k < len(s.obs); k++ {
			same = r.Obs[k] == s.obs[k]
		}
		if !same {
			bad = append(bad, fmt.Sprintf("%s(%d) %v: encoding %q, native %q", s.Fn, s.Arg, s.Values, s.obs, r.Obs))
			continue
		}
		ok++
	}
	return
}

func replayFile(n *native, p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal(err)
	}
	var w witness
	if err := json.Unmarshal(b, &w); err != nil {
		fatal(err)
	}
	if err := n.wait(); err != nil {
		fatal(err)
	}
	r := n.run([]witness{w})[0]
	if r.Status == "ok" && w.Race {
		r = n.raced([]witness{w})[0]
	}
	fmt.Printf("%s(%d) %v\n%s %s\n", w.Fn, w.Arg, w.Values, r.Status, r.Msg)
	for _, o := range r.Obs {
		fmt.Println("  ", o)
	}
	if r.Status == "ok" || r.Status == "assume" {
		return 0
	}
	return 1
}

// ---- known findings

type finding struct {
	prop, key, fn, what string
	arg                 int
}

type findingList []finding

// readFindings reads lines "finding: property=<id> key=<key> demo=<harness> <what fails>"; other lines are notes.
func readFindings(p string) (findingList, error) {
	b, err := os.ReadFile(p)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var fs findingList
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f finding
		rest := strings.TrimPrefix(l, "finding: ")
		for {
			w, r, _ := strings.Cut(rest, " ")
			k, v, ok := strings.Cut(w, "=")
			if !ok {
				break
			}
			switch k {
			case "property":
				f.prop = v
			case "key":
				f.key = v
			case "demo":
				f.fn = v
			default:
				ok = false
			}
			if !ok {
				break
			}
			rest = r
		}
		f.what = rest
		if f.prop == "" || f.key == "" || f.fn == "" {
			return nil, fmt.Errorf("malformed finding: %s", l)
		}
		fs = append(fs, f)
	}
	return fs, nil
}

func (fs findingList) keys() []string {
	var ks []string
	seen := map[string]bool{}
	for _, f := range fs {
		if !seen[f.key] {
			seen[f.key] = true
			ks = append(ks, f.key)
		}
	}
	return ks
}

func (fs findingList) of(prop string) []finding {
	var r []finding
	for _, f := range fs {
		if f.prop == prop {
			r = append(r, f)
		}
	}
	return r
}

// stillFails runs the demonstration of a known finding: a harness that holds only without the defect.
func (n *native) stillFails(f finding) bool {
	r := n.run([]witness{{Fn: f.fn}})[0]
	return r.Status != "ok"
}
