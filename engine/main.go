package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// An entry of harness/checks.json: a harness function with the arguments of each tier.
type entry struct {
	Fn       string   `json:"fn"`
	Quick    []int    `json:"quick"`
	Thorough []int    `json:"thorough"`
	Weight   float64  `json:"weight"`   // share of the time budget (1 if absent)
	MaxSteps int64    `json:"maxsteps"` // step bound per path
	Reach    []string `json:"reach"`    // points some path must reach
	Bound    string   `json:"bound"`    // the bound, in words
}

type propCheck struct {
	Entries  []entry  `json:"entries"`
	Outside  string   `json:"outside"` // what lies outside the bounds
	Stubs    []string `json:"stubs"`
	Seconds  float64  `json:"seconds"`  // quick budget
	TSeconds float64  `json:"tseconds"` // thorough budget
	Race     bool     `json:"race"`     // confirm under the race detector
}

type entryReport struct {
	Fn          string           `json:"harness"`
	Arg         int              `json:"arg"`
	Bound       string           `json:"bound,omitempty"`
	Paths       int64            `json:"paths"`
	Pruned      int64            `json:"paths_ended_by_assumption"`
	Complete    bool             `json:"complete_within_bound"`
	Inconcl     int              `json:"inconclusive_paths,omitempty"`
	WallS       float64          `json:"wall_s"`
	Reached     map[string]int64 `json:"reached,omitempty"`
	Unreached   []string         `json:"unreached,omitempty"`
	MaxVars     int              `json:"max_symbolic_values"`
	MaxDecs     int              `json:"max_decisions_per_path"`
	Inconclusve []string         `json:"inconclusive_reasons,omitempty"`
}

var (
	fProp    = flag.String("property", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "/verif", "this directory")
	fOnly    = flag.String("only", "", "development: only this harness function")
	fArg     = flag.Int("arg", -1, "development: only this argument")
	fWorkers = flag.Int("workers", 8, "parallel workers")
	fReplay  = flag.String("replay", "", "replay a recorded violation")
	fV       = flag.Bool("v", false, "verbose")
	fSecs    = flag.Float64("secs", 0, "development: time budget")
)

func fatal(err error) {
	fmt.Println("ERROR:", err)
	os.Exit(2)
}

func main() {
	flag.Parse()
	os.Exit(run())
}

func run() int {
	start := time.Now()
	if p := os.Getenv("PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	harness := filepath.Join(*fVerif, "harness")
	findings, err := readFindings(filepath.Join(*fVerif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		fatal(err)
	}
	scratch, err := os.MkdirTemp("", "verif-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)
	nat := &native{repo: *fRepo, harness: harness, scratch: scratch, tier: *fTier, known: findings.keys()}
	go nat.build()

	if *fReplay != "" {
		return replayFile(nat, *fReplay)
	}

	var checks map[string]*propCheck
	b, err := os.ReadFile(filepath.Join(harness, "checks.json"))
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &checks); err != nil {
		fatal(fmt.Errorf("checks.json: %w", err))
	}
	pc := checks[*fProp]
	if pc == nil {
		fatal(fmt.Errorf("no check for property %q", *fProp))
	}
	nat.race = pc.Race
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)

	e, err := load(*fRepo, harness)
	if err != nil {
		fatal(err)
	}
	e.tier = *fTier
	e.known = map[string]bool{}
	for _, k := range findings.keys() {
		e.known[k] = true
	}
	loadS := time.Since(start).Seconds()

	debug.SetMemoryLimit(16 << 30)
	go func() {
		for {
			time.Sleep(2 * time.Second)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			e.lowMemory.Store(m.HeapAlloc > 20<<30)
		}
	}()

	ws := make([]*W, *fWorkers)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newW(e, i)
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("ERROR: package initialisation:", r)
					if !*fV {
						os.Exit(2)
					}
					panic(r)
				}
			}()
			w.initPackages(e.base+"/h", e.module+"/cmd/ssarules")
			ws[i] = w
		}()
	}
	wg.Wait()

	type job struct {
		entry
		arg int
	}
	var jobs []job
	var total float64
	for _, en := range pc.Entries {
		if *fOnly != "" && en.Fn != *fOnly {
			continue
		}
		args := en.Quick
		if *fTier == "thorough" && len(en.Thorough) > 0 {
			args = en.Thorough
		}
		if en.Weight == 0 {
			en.Weight = 1
		}
		for _, a := range args {
			if *fArg >= 0 && a != *fArg {
				continue
			}
			jobs = append(jobs, job{en, a})
			total += en.Weight
		}
	}
	secs := pc.Seconds
	if secs == 0 {
		secs = 100
	}
	if *fTier == "thorough" {
		secs = pc.TSeconds
		if secs == 0 {
			secs = 600
		}
	}
	if *fSecs > 0 {
		secs = *fSecs
	}

	var (
		reports  []*entryReport
		paths    int64
		branches int64
		samples  []witness
		cands    []candidate
		mismatch []string
	)
	remaining := secs
	inconclusive := 0
	settled, skipped := 0, 0
	type running struct {
		job
		x *explorer
		r *entryReport
	}
	var runs []*running
	pass := func(rn *running, share float64) {
		t0 := time.Now()
		rn.x.deadline = t0.Add(time.Duration(share * float64(time.Second)))
		for _, w := range ws {
			w.stats = wstatsReset(w.stats)
		}
		rn.x.explore(ws)
		used := time.Since(t0).Seconds()
		remaining -= used
		if remaining < 0 {
			remaining = 0
		}
		r := rn.r
		r.WallS = round(r.WallS + used)
		for _, w := range ws {
			r.Pruned += w.stats.pruned - w.stats.base.pruned
			for k, v := range w.stats.reach {
				r.Reached[k] += v
			}
			r.MaxVars = max(r.MaxVars, w.stats.maxVars)
			r.MaxDecs = max(r.MaxDecs, w.stats.maxDecs)
		}
	}
	for _, j := range jobs {
		x := &explorer{eng: e, entry: e.fn(e.base+"/h", j.Fn), arg: j.arg, wantSamples: 12, maxSteps: j.MaxSteps, seed: uint64(seed)}
		if x.maxSteps == 0 {
			x.maxSteps = 20e6
		}
		rn := &running{j, x, &entryReport{Fn: j.Fn, Arg: j.arg, Bound: j.Bound, Reached: map[string]int64{}}}
		runs = append(runs, rn)
		pass(rn, remaining*j.Weight/total)
		total -= j.Weight
		if len(x.viols) > 0 && !*fV {
			// Enough is enough: once several violations are confirmed, the verdict is settled.
			if nat.wait() == nil {
				var cs []candidate
				for _, v := range x.viols {
					cs = append(cs, candidate{witness{Fn: j.Fn, Arg: j.arg, Values: v.Values}, v.Kind, v.Msg})
				}
				ok, _ := nat.confirm(cs)
				settled += len(ok)
			}
			if settled >= 6 {
				skipped = len(jobs) - len(runs)
				break
			}
		}
	}
	// what did not finish in its share gets what is left
	for again := settled < 6; again && remaining > 1; {
		again = false
		left := 0.0
		for _, rn := range runs {
			if rn.x.why == "time budget" {
				left++
			}
		}
		for _, rn := range runs {
			if rn.x.why == "time budget" && remaining > 1 {
				pass(rn, remaining/left)
				left--
				again = true
			}
		}
	}
	for _, rn := range runs {
		j, x, r := rn.job, rn.x, rn.r
		for _, l := range j.Reach {
			if r.Reached[l] == 0 {
				r.Unreached = append(r.Unreached, l)
			}
		}
		r.Paths = x.paths
		r.Inconcl = len(x.errs) + len(x.abortedAt)
		r.Complete = x.incomplete == 0 && r.Inconcl == 0 && x.why == ""
		seen := map[string]bool{}
		for _, m := range x.errs {
			if k := firstLine(m); !seen[k] && len(seen) < 8 {
				seen[k] = true
				r.Inconclusve = append(r.Inconclusve, m)
			}
		}
		inconclusive += r.Inconcl
		reports = append(reports, r)
		paths += x.paths
		for _, s := range x.samples {
			samples = append(samples, witness{Fn: j.Fn, Arg: j.arg, Values: s.Values, obs: s.Obs})
		}
		for _, v := range x.viols {
			cands = append(cands, candidate{witness{Fn: j.Fn, Arg: j.arg, Values: v.Values}, v.Kind, v.Msg})
		}
		for _, v := range x.abortedAt {
			cands = append(cands, candidate{witness{Fn: j.Fn, Arg: j.arg, Values: v.Values}, "hang", v.Msg})
		}
		for i, v := range x.errAt {
			if i < 60 {
				cands = append(cands, candidate{witness{Fn: j.Fn, Arg: j.arg, Values: v.Values}, "inconclusive", v.Msg})
			}
		}
		if *fV {
			fmt.Printf("%s(%d): %d paths (%d pruned) in %.1f s, complete=%v viols=%d inconclusive=%d %v unreached=%v %s\n", j.Fn, j.arg, x.paths, r.Pruned, r.WallS, r.Complete, len(x.viols), r.Inconcl, r.Reached, r.Unreached, x.why)
			for m := range seen {
				fmt.Println("   ", m)
			}
		}
	}
	exploreS := time.Since(start).Seconds() - loadS

	// Replay against the native build.
	if err := nat.wait(); err != nil {
		fatal(err)
	}
	violations, unconfirmed := nat.confirm(cands)
	validated, bad := nat.validate(samples)
	mismatch = append(mismatch, bad...)

	// Report.
	exit := 0
	evdir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(evdir, 0o755)
	for _, f := range findings.of(*fProp) {
		if nat.stillFails(f) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, f.what)
		}
	}
	old, _ := filepath.Glob(filepath.Join(evdir, "replay-"+*fProp+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for i, v := range violations {
		p := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", *fProp, i+1))
		b, _ := json.MarshalIndent(map[string]any{"property": *fProp, "fn": v.Fn, "arg": v.Arg, "values": v.Values, "kind": v.kind, "message": v.msg, "race": nat.race,
			"rerun": "bash /verif/check.sh replay " + p}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, p)
		fmt.Printf("  %s(%d): %s\n", v.Fn, v.Arg, clip(v.msg, 1500))
		exit = 1
	}
	for i, m := range mismatch {
		if i >= 3 {
			break
		}
		fmt.Println("WARNING: encoder and native run disagree:", clip(m, 600))
	}
	for i, u := range unconfirmed {
		if i >= 3 {
			break
		}
		fmt.Println("WARNING: not reproduced natively, not reported:", clip(u, 400))
	}
	var st wstats
	funcs := map[string]bool{}
	harnessFuncs, libFuncs := 0, 0
	libSeen := map[string]bool{}
	for _, w := range ws {
		st.add(w.stats)
		branches += w.stats.branches
		for fn := range w.codes {
			name := fn.String()
			switch {
			case strings.Contains(name, "/internal/zzverif"):
			case strings.Contains(name, e.module):
				funcs[strings.ReplaceAll(name, e.module+"/", "")] = true
			default:
				libSeen[name] = true
			}
		}
	}
	_ = harnessFuncs
	libFuncs = len(libSeen)
	var qs, qt = 0, 0.0
	for _, w := range ws {
		qs += w.sol.queries
		qt += w.sol.time.Seconds()
	}
	complete, incomplete := 0, []string{}
	for _, r := range reports {
		if r.Complete {
			complete++
		} else {
			incomplete = append(incomplete, fmt.Sprintf("%s(%d)", r.Fn, r.Arg))
		}
		if len(r.Unreached) > 0 {
			fmt.Printf("WARNING: %s(%d) never reached %v\n", r.Fn, r.Arg, r.Unreached)
		}
	}
	var shown []any
	for i := range samples {
		if len(shown) >= 6 {
			break
		}
		s := samples[(i*7919)%len(samples)]
		obs := []string{}
		for _, o := range s.obs {
			obs = append(obs, clip(o, 240))
		}
		shown = append(shown, map[string]any{"harness": s.Fn, "arg": s.Arg, "values": s.Values, "observed": obs})
	}
	if shown == nil {
		shown = []any{"no path ran to its end"}
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   branches,
		"traces_validated_against_impl": validated,
		"samples":                       shown,
		"explanation":                   "states = feasible symbolic paths executed; transitions = symbolic branch conditions decided on them; every path stands for all values satisfying its path condition",
		"harnesses":                     reports,
		"exhaustive":                    complete == len(reports) && skipped == 0,
		"bounds_not_exhausted":          incomplete,
		"outside_the_claim":             pc.Outside,
		"functions_encoded":             sortedKeys(funcs),
		"library_functions_encoded":     libFuncs,
		"obligations_decided":           st.assertQ + st.assertConst,
		"obligations_by_solver":         st.assertQ,
		"solver_queries":                qs,
		"queries_answered_from_cache":   st.cacheHits,
		"solver_seconds":                round(qt),
		"solver":                        e.z3,
		"inconclusive_paths":            inconclusive,
		"runs_skipped_after_violations": skipped,
		"candidate_violations":          len(cands),
		"unconfirmed_candidates":        len(unconfirmed),
		"encoder_mismatches":            len(mismatch),
		"ssa_instructions_executed":     st.steps,
		"load_s":                        round(loadS),
		"explore_s":                     round(exploreS),
	}
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": append(baseAssumptions, pc.Stubs...),
		"wall_s": round(time.Since(start).Seconds()), "violations": len(violations),
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, *fProp+".json"), append(eb, '\n'), 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("%s %s: %d paths, %d obligations, %d solver queries (%.1f s), %d/%d harness runs exhausted, %d traces validated, %d inconclusive, %d violations, %.1f s\n",
		*fProp, *fTier, paths, st.assertQ+st.assertConst, qs, qt, complete, len(reports), validated, inconclusive, len(violations), time.Since(start).Seconds())
	return exit
}

var baseAssumptions = []string{
	"the SSA form built by golang.org/x/tools/go/ssa means what the Go compiler compiles (sampled witnesses of every run are replayed natively and compared)",
	"modelled rather than interpreted: fmt formatting, reflect.DeepEqual, the part of reflect that go/ast.Fprint uses, sort, sync, os and file system calls, errors.Is/As, runtime panics (see engine/models.go, engine/osmodel.go, engine/reflectmodel.go)",
	"z3 answers are right; an answer of unknown makes the path inconclusive",
}

func wstatsReset(s wstats) wstats {
	b := s
	b.base = nil
	s.base = &b
	s.reach = map[string]int64{}
	s.maxDecs, s.maxVars = 0, 0
	return s
}

func (a *wstats) add(b wstats) {
	a.assertQ += b.assertQ
	a.assertConst += b.assertConst
	a.cacheHits += b.cacheHits
	a.steps += b.steps
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = sort.Strings
