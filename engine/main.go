package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessRun struct {
	name     string
	f        *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []Alt
	busy     int
	waiting  int
	stop     bool
	rnd      *rand.Rand
	deadline time.Time

	paths, complete, infeasible, incomplete, stepped int64
	reached                                          map[string]int64
	known                                            map[string][]NV
	vios                                             map[string][]*violation
	samples                                          []sample
	seen                                             int64
	incompl                                          map[string]int
	exhausted                                        bool
	left                                             int
	confirmed                                        *violation
	wall                                             time.Duration
	asserts                                          int64
	spurious                                         []string
	validated, mismatched                            int
	bounds                                           map[string]string
	steps                                            []*violation
	cut                                              map[string][]*violation
}

type sample struct {
	inputs []NV
	obs    []string
	known  []string
}

type replayIn struct {
	Harness  string
	Thorough bool
	Inputs   []NV
	Kind     string
	Msg      string
	Property string
}

var (
	flProp    = flag.String("prop", "", "property")
	flTier    = flag.String("tier", "quick", "quick or thorough")
	flTime    = flag.Float64("time", 0, "seconds for exploration")
	flWorkers = flag.Int("workers", 8, "workers")
	flHarness = flag.String("harness", "", "only this harness")
	flRoot    = flag.Int("root", 300000, "instruction budget of one merged region")
	flMerge   = flag.Bool("merge", false, "merge paths")
	flDebug   = flag.Bool("debug", false, "debug")
	flVerif   = flag.String("verif", "/verif", "verification directory")
	flReplay  = flag.String("replaybin", "", "native replay binary")
	flRace    = flag.String("racebin", "", "native replay binary with race detector")
	flSeed    = flag.Int64("seed", 1, "seed")
	flKeep    = flag.Bool("keep", false, "keep going after a confirmed violation")
	flProf    = flag.String("cpuprofile", "", "profile")
	flNoEv    = flag.Bool("noevidence", false, "do not write evidence")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(7 << 30)
	if *flProf != "" {
		f, _ := os.Create(*flProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := check()
	if *flProf != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func check() int {
	t0 := time.Now()
	budget := *flTime
	if budget == 0 {
		budget = 150
		if *flTier == "thorough" {
			budget = 700
		}
	}
	loadDir = filepath.Join(*flVerif, "harness")
	p := load()
	loadT := time.Since(t0)
	hs := p.harnesses(*flProp)
	if *flHarness != "" {
		var sel []*ssa.Function
		for _, h := range hs {
			if strings.Contains(h.Name(), *flHarness) {
				sel = append(sel, h)
			}
		}
		hs = sel
	}
	if len(hs) == 0 {
		fatal("no harness for %s", *flProp)
	}
	tier := 0
	if *flTier == "thorough" {
		tier = 1
	}
	opts := &Opts{Merge: *flMerge, MaxRegion: 40, MaxCall: 300, MaxSteps: 3000000, MaxDepth: 3000, RootSteps: int64(*flRoot), SolverMs: 8000, MaxPath: 15 * time.Second, Debug: *flDebug}
	if tier > 0 {
		opts.SolverMs = 60000
		opts.MaxSteps = 10000000
		opts.MaxPath = 120 * time.Second
	}
	maxSteps, maxPath := opts.MaxSteps, opts.MaxPath
	workers := make([]*M, *flWorkers)
	var wg sync.WaitGroup
	for i := range workers {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			workers[i] = newM(p, i, opts, tier)
		}(i)
	}
	wg.Wait()
	for _, s := range workers[0].initMsgs {
		if *flDebug {
			fmt.Fprintln(os.Stderr, "init:", s)
		}
	}
	initT := time.Since(t0) - loadT
	knownList := readKnown(filepath.Join(*flVerif, "known-findings.txt"), *flProp)
	var runs []*harnessRun
	code := 0
	end := time.Now().Add(time.Duration(budget * float64(time.Second)))
	knownSeen := map[string]string{}
	var violationLine string
	// two rounds: a first slice for every harness, then the remaining time for
	// those that did not finish
	for _, h := range hs {
		hr := &harnessRun{name: h.Name(), f: h, reached: map[string]int64{}, known: map[string][]NV{}, vios: map[string][]*violation{}, incompl: map[string]int{}, bounds: map[string]string{}}
		hr.cond = sync.NewCond(&hr.mu)
		hr.rnd = rand.New(rand.NewSource(*flSeed))
		hr.stack = []Alt{{}}
		runs = append(runs, hr)
	}
	finishOne := func(hr *harnessRun) bool {
		return hr.confirmed != nil && !*flKeep
	}
	for round := 0; round < 3 && violationLine == ""; round++ {
		var todo []*harnessRun
		for _, hr := range runs {
			if len(hr.stack) > 0 && !hr.stop {
				todo = append(todo, hr)
			}
		}
		for i, hr := range todo {
			rem := time.Until(end)
			if rem <= 0 {
				break
			}
			share := rem / time.Duration(len(todo)-i)
			if round == 0 && len(todo) > 1 {
				share = rem / time.Duration(len(todo)-i+1)
			}
			hr.deadline = time.Now().Add(share)
			opts.MaxSteps, opts.MaxPath, opts.MaxDepth = maxSteps, maxPath, 3000
			if strings.HasSuffix(hr.name, "_huge") { // paths of these are longer
				opts.MaxSteps, opts.MaxPath, opts.MaxDepth = 20*maxSteps, 4*maxPath, 40000
			}
			hr.explore(workers)
			hr.examine(p, workers, knownList, knownSeen)
			if hr.confirmed != nil {
				v := hr.confirmed
				path := writeReplay(hr, v)
				violationLine = fmt.Sprintf("VIOLATION property=%s replay=%s", *flProp, path)
				fmt.Printf("%s: %s: %s\n  input: %s\n", hr.name, v.kind, v.msg, fmtInputs(v.inputs))
				code = 1
			}
			if finishOne(hr) {
				break
			}
		}
	}
	for _, hr := range runs {
		hr.exhausted = len(hr.stack) == 0 && hr.paths > 0 && !hr.stop
		hr.left = len(hr.stack)
		st := "complete"
		if !hr.exhausted {
			st = fmt.Sprintf("partial, %d pending", hr.left)
		}
		fmt.Printf("%-28s paths=%d complete=%d infeasible=%d incomplete=%d asserts=%d validated=%d (%s) %.1fs\n", hr.name, hr.paths, hr.complete, hr.infeasible, hr.incomplete, hr.asserts, hr.validated, st, hr.wall.Seconds())
		var ks []string
		for k := range hr.incompl {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return hr.incompl[ks[i]] > hr.incompl[ks[j]] })
		for i, k := range ks {
			if i >= 6 && !*flDebug {
				break
			}
			fmt.Printf("    not explored (%d): %s\n", hr.incompl[k], k)
		}
		for _, s := range hr.spurious {
			fmt.Printf("    not reproduced: %s\n", s)
		}
		for _, l := range reachLabels(hr.f) {
			if hr.reached[l] == 0 {
				fmt.Printf("    reachability witness missing: %s\n", l)
			}
		}
	}
	for _, k := range knownList {
		if in, ok := knownSeen[k.id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s (reproduced: %s)\n", *flProp, k.id, k.text, in)
		}
	}
	if *flDebug || os.Getenv("GOSYM_STATS") != "" {
		printStats(workers, t0, loadT, initT)
	}
	if !*flNoEv {
		writeEvidence(p, runs, workers, t0, code)
	}
	for _, m := range workers {
		m.sol.stop()
	}
	if violationLine != "" {
		fmt.Println(violationLine)
	}
	return code
}

func (hr *harnessRun) explore(workers []*M) {
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, m := range workers {
		wg.Add(1)
		go func(m *M) {
			defer wg.Done()
			hr.worker(m)
		}(m)
	}
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(50 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				hr.mu.Lock()
				hr.cond.Broadcast()
				hr.mu.Unlock()
			}
		}
	}()
	wg.Wait()
	close(done)
	hr.wall += time.Since(t0)
}

func (hr *harnessRun) worker(m *M) {
	m.harness = hr.name
	var local []Alt // depth first, so that the caches stay useful
	busy := false
	for {
		hr.mu.Lock()
		if len(local) == 0 {
			if busy {
				busy = false
				hr.busy--
				hr.cond.Broadcast()
			}
			hr.waiting++
			for len(hr.stack) == 0 && hr.busy > 0 && !hr.stop && time.Now().Before(hr.deadline) {
				hr.cond.Wait()
			}
			hr.waiting--
		}
		if len(local)+len(hr.stack) == 0 || hr.stop || time.Now().After(hr.deadline) {
			hr.stack = append(hr.stack, local...)
			if busy {
				hr.busy--
			}
			hr.cond.Broadcast()
			hr.mu.Unlock()
			return
		}
		src := &local
		if len(local) == 0 {
			src = &hr.stack
			hr.busy++
			busy = true
		}
		n := len(*src)
		k := n - 1
		if m.id == 7 || src == &hr.stack {
			k = hr.rnd.Intn(n)
		}
		alt := (*src)[k]
		copy((*src)[k:], (*src)[k+1:])
		*src = (*src)[:n-1]
		hr.mu.Unlock()

		res := m.runPath(hr.f, alt)

		hr.mu.Lock()
		hr.paths++
		hr.asserts += int64(m.asserts)
		local = append(local, m.newAlts...)
		m.newAlts = nil
		if d := hr.waiting - len(hr.stack); d > 0 && len(local) > 1 {
			if d >= len(local) {
				d = len(local) - 1
			}
			hr.stack = append(hr.stack, local[:d]...)
			local = append(local[:0:0], local[d:]...)
			hr.cond.Broadcast()
		}
		for k, v := range m.incompl {
			hr.incompl[k] += v
		}
		clear(m.incompl)
		for k, v := range m.bounds {
			hr.bounds[k] = v
		}
		switch res.status {
		case "complete":
			hr.complete++
			for l := range m.reached {
				hr.reached[l]++
			}
			hr.seen++
			if m.asserts > 0 || len(res.known) > 0 {
				s := sample{res.inputs, res.obs, res.known}
				if len(hr.samples) < sampleCap {
					hr.samples = append(hr.samples, s)
				} else if j := hr.rnd.Int63n(hr.seen); j < int64(sampleCap) {
					hr.samples[j] = s
				}
			}
			for _, k := range res.known {
				if _, ok := hr.known[k]; !ok {
					hr.known[k] = res.inputs
				}
			}
		case "infeasible", "stop":
			hr.infeasible++
		case "steps":
			hr.stepped++
			if len(hr.steps) < 8 {
				hr.steps = append(hr.steps, &violation{kind: "nontermination", msg: res.reason, inputs: res.inputs})
			}
		case "incomplete":
			hr.incomplete++
			// tried natively instead
			if hr.cut == nil {
				hr.cut = map[string][]*violation{}
			}
			if l := hr.cut[res.reason]; len(l) < 12 {
				hr.cut[res.reason] = append(l, &violation{kind: "undecided", msg: res.reason, inputs: res.inputs})
			}
		}
		for _, v := range m.vios {
			key := v.kind + ": " + v.msg
			if len(hr.vios[key]) < 6 {
				hr.vios[key] = append(hr.vios[key], v)
			}
		}
		nv := 0
		for _, l := range hr.vios {
			nv += len(l)
		}
		if nv >= 12 && !*flKeep {
			// enough candidates; examine them
			hr.deadline = time.Now()
		}
		hr.mu.Unlock()
	}
}

// examine replays candidates and samples natively.
func (hr *harnessRun) examine(p *Prog, workers []*M, kl []knownEnt, seen map[string]string) {
	var keys []string
	for k := range hr.vios {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	listed := map[string]bool{}
	for _, k := range kl {
		listed[k.id] = true
	}
	try := func(v *violation, n int) bool {
		r := replay(hr, v.kind, v.inputs, n)
		switch r.verdict {
		case "fail":
			v.native = r.msg
			return true
		case "known":
			for _, id := range r.known {
				if !listed[id] {
					v.msg += " (unlisted finding " + id + ")"
					v.native = r.msg
					return true
				}
			}
		}
		hr.spurious = append(hr.spurious, v.kind+": "+v.msg+" input "+fmtInputs(v.inputs)+" native: "+r.verdict+" "+r.msg)
		return false
	}
	for _, k := range keys {
		for _, v := range hr.vios[k] {
			if hr.confirmed == nil || *flKeep {
				if try(v, 1) {
					if hr.confirmed == nil {
						hr.confirmed = v
					} else if *flKeep {
						fmt.Printf("also %s: %s\n  input: %s\n", v.kind, v.msg, fmtInputs(v.inputs))
					}
					if *flKeep {
						break
					}
				}
			}
		}
	}
	hr.vios = map[string][]*violation{}
	for i, v := range hr.steps {
		if hr.confirmed == nil && i < 3 {
			r := replay(hr, v.kind, v.inputs, 1)
			if r.verdict == "fail" {
				hr.confirmed = v
				v.native = r.msg
				continue
			}
		}
		hr.incompl["step bound reached: "+v.msg]++
		hr.incomplete++
	}
	hr.steps = nil
	var cuts []*violation
	for _, l := range hr.cut {
		cuts = append(cuts, l...)
	}
	hr.cut = nil
	sort.SliceStable(cuts, func(i, j int) bool { return fmtInputs(cuts[i].inputs) < fmtInputs(cuts[j].inputs) })
	if len(cuts) > 120 {
		cuts = cuts[:120]
	}
	var cwg sync.WaitGroup
	csem := make(chan bool, 8)
	for _, v := range cuts {
		cwg.Add(1)
		csem <- true
		go func(v *violation) {
			defer cwg.Done()
			defer func() { <-csem }()
			r := replay(hr, v.kind, v.inputs, 1)
			hr.mu.Lock()
			if r.verdict == "fail" && hr.confirmed == nil {
				v.native = r.msg
				hr.confirmed = v
			}
			hr.mu.Unlock()
		}(v)
	}
	cwg.Wait()
	if hr.confirmed != nil && !*flKeep {
		hr.stop = true
		return
	}
	// known findings must reproduce
	for id, in := range hr.known {
		if _, ok := seen[id]; ok {
			continue
		}
		r := replay(hr, "known", in, 1)
		if r.verdict == "known" || r.verdict == "fail" {
			if listed[id] {
				seen[id] = fmtInputs(in)
			} else {
				hr.confirmed = &violation{kind: "finding", msg: "unlisted finding " + id, inputs: in, native: r.msg}
				hr.stop = true
				return
			}
		}
	}
	// validate sampled paths against the real code
	n := 24
	if *flTier == "thorough" {
		n = 60
	}
	if sampleCap > 60 {
		n = sampleCap
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	for i, s := range hr.samples {
		if i >= n {
			break
		}
		wg.Add(1)
		sem <- true
		go func(s sample) {
			defer wg.Done()
			defer func() { <-sem }()
			r := replay(hr, "sample", s.inputs, 1)
			mu.Lock()
			defer mu.Unlock()
			if r.verdict == "fail" {
				v := &violation{kind: "native", msg: r.msg, inputs: s.inputs, native: r.msg}
				if hr.confirmed == nil {
					hr.confirmed = v
				}
				return
			}
			if r.verdict == "ok" || r.verdict == "known" {
				if eqStrings(r.obs, s.obs) {
					hr.validated++
					return
				}
			}
			hr.mismatched++
			hr.spurious = append(hr.spurious, fmt.Sprintf("encoding disagrees with native run on %s: %s %s; engine %q native %q", fmtInputs(s.inputs), r.verdict, r.msg, s.obs, r.obs))
		}(s)
	}
	wg.Wait()
	hr.samplesDone()
}

func (hr *harnessRun) samplesDone() {
	if len(hr.samples) > 4 {
		hr.samples = hr.samples[:4]
	}
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type replayRes struct {
	verdict string // ok, fail, known, infeasible, error
	msg     string
	obs     []string
	known   []string
}

func replay(hr *harnessRun, kind string, in []NV, n int) replayRes {
	bin := *flReplay
	timeout := 20 * time.Second
	if kind == "shared-write" && *flRace != "" {
		bin = *flRace
	}
	if bin == "" {
		return replayRes{verdict: "error", msg: "no replay binary"}
	}
	b, _ := json.Marshal(replayIn{Harness: hr.name, Thorough: *flTier == "thorough", Inputs: in, Kind: kind, Property: *flProp})
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	err := cmd.Run()
	var r replayRes
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := sc.Text()
		switch {
		case strings.HasPrefix(l, "OBS "):
			s, _ := strconv.Unquote(l[4:])
			r.obs = append(r.obs, s)
		case strings.HasPrefix(l, "KNOWN "):
			r.known = append(r.known, l[6:])
		case strings.HasPrefix(l, "FAIL "):
			r.msg = l[5:]
		}
	}
	if ctx.Err() != nil {
		return replayRes{verdict: "fail", msg: "does not terminate within 20 s"}
	}
	ec := 0
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return replayRes{verdict: "error", msg: err.Error()}
		}
		ec = ee.ExitCode()
	}
	switch ec {
	case 0:
		r.verdict = "ok"
	case 10:
		r.verdict = "fail"
	case 11:
		r.verdict = "known"
	case 12:
		r.verdict = "infeasible"
	case 66:
		r.verdict = "fail"
		r.msg = "data race: " + firstLines(errb.String(), 6)
	case 2:
		r.verdict = "fail"
		r.msg = "crash: " + firstLines(errb.String(), 3)
		if strings.Contains(errb.String(), "replay: bad input") {
			r.verdict = "error"
		}
	default:
		r.verdict = "error"
		r.msg = fmt.Sprintf("exit %d %s", ec, firstLines(errb.String(), 3))
	}
	return r
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func fmtInputs(in []NV) string {
	var sb strings.Builder
	for i, nv := range in {
		if i > 0 {
			sb.WriteString(" ")
		}
		if i > 40 {
			sb.WriteString("...")
			break
		}
		if nv.Val >= 0x20 && nv.Val < 0x7f {
			fmt.Fprintf(&sb, "%s=%d(%q)", nv.Name, nv.Val, rune(nv.Val))
		} else {
			fmt.Fprintf(&sb, "%s=%d", nv.Name, int64(nv.Val))
		}
	}
	return sb.String()
}

func writeReplay(hr *harnessRun, v *violation) string {
	dir := filepath.Join(*flVerif, "out", "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", *flProp, hr.name))
	b, _ := json.MarshalIndent(replayIn{Harness: hr.name, Thorough: *flTier == "thorough", Inputs: v.inputs, Kind: v.kind, Msg: v.msg + " | native: " + v.native, Property: *flProp}, "", " ")
	os.WriteFile(path, b, 0644)
	return path
}

type knownEnt struct{ id, text string }

// readKnown reads "finding: property=<id> <finding-id> text" lines.
func readKnown(path, prop string) []knownEnt {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownEnt
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+prop {
			out = append(out, knownEnt{f[2], strings.Join(f[3:], " ")})
		}
	}
	return out
}

// reachLabels lists the labels of sym.Reach calls in the harness.
func reachLabels(f *ssa.Function) []string {
	seen := map[string]bool{}
	var walk func(f *ssa.Function)
	var out []string
	vis := map[*ssa.Function]bool{}
	walk = func(f *ssa.Function) {
		if vis[f] {
			return
		}
		vis[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if s := c.Call.StaticCallee(); s != nil && s.String() == "verifharness/sym.Reach" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						l := k.Value.ExactString()
						l = strings.Trim(l, "\"")
						if !seen[l] {
							seen[l] = true
							out = append(out, l)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	return out
}

func printStats(ws []*M, t0 time.Time, loadT, initT time.Duration) {
	var s Stats
	var q, sat, unsat, unk int64
	var d, mx, mp time.Duration
	for _, m := range ws {
		s.instrs += m.stats.instrs
		s.branches += m.stats.branches
		s.forks += m.stats.forks
		s.merges += m.stats.merges
		s.mergedPaths += m.stats.mergedPaths
		s.assertQ += m.stats.assertQ
		s.assertConst += m.stats.assertConst
		s.cacheHits += m.stats.cacheHits
		s.domHits += m.stats.domHits
		s.finite += m.stats.finite
		s.quickWit += m.stats.quickWit
		q += m.sol.queries
		sat += m.sol.sat
		unsat += m.sol.unsat
		unk += m.sol.unknown
		d += m.sol.dur
		if m.sol.maxDur > mx {
			mx = m.sol.maxDur
		}
		if m.maxPath > mp {
			mp = m.maxPath
		}
	}
	fmt.Fprintf(os.Stderr, "longest path %.2fs; load %.1fs init %.1fs total %.1fs; instrs %d branches %d forks %d merges %d (-%d paths) assertQ %d const %d cache %d dom %d finite %d guessed %d; solver %d queries (%d sat %d unsat %d unknown) %.1fs max %.2fs goroutines %d\n",
		mp.Seconds(), loadT.Seconds(), initT.Seconds(), time.Since(t0).Seconds(), s.instrs, s.branches, s.forks, s.merges, s.mergedPaths, s.assertQ, s.assertConst, s.cacheHits, s.domHits, s.finite, s.quickWit, q, sat, unsat, unk, d.Seconds(), mx.Seconds(), runtime.NumGoroutine())
	if ws[0].forkSites != nil {
		tot := map[string]int64{}
		for _, m := range ws {
			for k, v := range m.forkSites {
				tot[k] += v
			}
		}
		var ks []string
		for k := range tot {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return tot[ks[i]] > tot[ks[j]] })
		for i, k := range ks {
			if i > 40 {
				break
			}
			fmt.Fprintf(os.Stderr, "  fork %8d %s\n", tot[k], k)
		}
	}
}

func writeEvidence(p *Prog, runs []*harnessRun, ws []*M, t0 time.Time, code int) {
	type hev struct {
		Harness       string            `json:"harness"`
		Paths         int64             `json:"paths"`
		Complete      int64             `json:"paths_complete"`
		Discarded     int64             `json:"paths_outside_assumptions"`
		NotDecided    int64             `json:"paths_not_decided"`
		Reasons       map[string]int    `json:"not_decided_reasons,omitempty"`
		AllPaths      bool              `json:"all_paths_within_bounds_explored"`
		Pending       int               `json:"pending_alternatives"`
		Asserts       int64             `json:"assertions_decided"`
		Reached       map[string]int64  `json:"reachability_witnesses,omitempty"`
		Bounds        map[string]string `json:"bounds,omitempty"`
		Validated     int               `json:"paths_replayed_natively"`
		NotReproduced []string          `json:"candidates_not_reproduced,omitempty"`
		Wall          float64           `json:"wall_s"`
	}
	var hs []hev
	var states, trans, val int64
	var samples []string
	for _, hr := range runs {
		states += hr.paths
		val += int64(hr.validated)
		hs = append(hs, hev{hr.name, hr.paths, hr.complete, hr.infeasible, hr.incomplete, hr.incompl, hr.exhausted, hr.left, hr.asserts, hr.reached, hr.bounds, hr.validated, hr.spurious, hr.wall.Seconds()})
		for _, s := range hr.samples {
			if len(samples) < 12 {
				samples = append(samples, hr.name+": "+fmtInputs(s.inputs)+" -> "+strings.Join(s.obs, " "))
			}
		}
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	var q, sat, unsat, unk, aq, ac, merges, dom, fin, br, forks int64
	var d, mx time.Duration
	fset := map[string]bool{}
	mset := map[string]bool{}
	lib := map[string]bool{}
	for _, m := range ws {
		q += m.sol.queries
		sat += m.sol.sat
		unsat += m.sol.unsat
		unk += m.sol.unknown
		d += m.sol.dur
		if m.sol.maxDur > mx {
			mx = m.sol.maxDur
		}
		aq += m.stats.assertQ
		ac += m.stats.assertConst
		merges += m.stats.mergedPaths
		dom += m.stats.domHits
		fin += m.stats.finite
		br += m.stats.branches
		forks += m.stats.forks
		for f := range m.funcs {
			switch {
			case f.inRepo:
				fset[f.name] = true
			case f.isModel:
				mset[f.name] = true
			case !f.harness:
				lib[f.name] = true
			}
		}
	}
	trans = br
	keys := func(s map[string]bool) []string {
		var out []string
		for k := range s {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": val,
		"samples":                       samples,
		"functions_encoded":             keys(fset),
		"library_functions_encoded":     len(lib),
		"library_models_used":           keys(mset),
		"harnesses":                     hs,
		"queries":                       map[string]any{"discharged": q, "sat": sat, "unsat": unsat, "unknown": unk, "assertion_queries": aq, "assertions_constant_on_path": ac, "branches_decided_by_byte_domains": dom, "branches_decided_by_finite_domain_evaluation": fin, "solver_s": d.Seconds(), "longest_query_s": mx.Seconds(), "solver": ws[0].sol.bin},
		"path_forks":                    forks,
		"paths_merged":                  merges,
		"explanation":                   "states = executions of the encoded code explored path by path, transitions = symbolic branch decisions; every assertion is decided by the solver for all input values of its path",
	}
	ev := map[string]any{
		"property": *flProp, "tier": *flTier, "seed": *flSeed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*flVerif, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, *flProp+".json"), b, 0644)
}

var sampleCap = func() int {
	if n, err := strconv.Atoi(os.Getenv("GOSYM_SAMPLES")); err == nil {
		return n
	}
	return 60
}()
