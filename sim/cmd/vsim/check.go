package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// finding is one entry of KNOWN_FINDINGS.txt:
//
//	finding: property=<id> class=<exact class> [plan=<file>] :: <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only "finding" entries suppress anything, and only a violation of that
// property and exactly that class.
type finding struct {
	prop, class, plan, desc string
}

func loadFindings() ([]finding, error) {
	f, err := os.Open(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		h, d, ok := strings.Cut(strings.TrimSpace(strings.TrimPrefix(l, "finding:")), "::")
		if !ok {
			return nil, fmt.Errorf("bad finding line %q", l)
		}
		x := finding{desc: strings.TrimSpace(d)}
		for _, w := range strings.Fields(h) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				x.prop = v
			case "class":
				x.class = v
			case "plan":
				x.plan = v
			}
		}
		if x.prop == "" || x.class == "" {
			return nil, fmt.Errorf("bad finding line %q", l)
		}
		out = append(out, x)
	}
	return out, sc.Err()
}

func raceArg(prop string) bool { return raceProp(prop) }

type obj = map[string]any

// Plan is handled as generic JSON here; the worker knows its meaning.
func clone(v any) any {
	b, _ := json.Marshal(v)
	var o any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	d.Decode(&o)
	return o
}

func parsePlan(b []byte) obj {
	var o obj
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if d.Decode(&o) != nil {
		return nil
	}
	return o
}

var fileN int
var fileMu sync.Mutex

func tmpFile(kind string) string {
	fileMu.Lock()
	defer fileMu.Unlock()
	fileN++
	return filepath.Join(scratch(), fmt.Sprintf("%s%d.json", kind, fileN))
}

func runPlan(bin string, plan any, extra ...string) (*result, error) {
	f := tmpFile("plan")
	b, _ := json.Marshal(plan)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	return runWorker(bin, append([]string{"-plan", f}, extra...)...)
}

func (r *result) has(class string) *viol {
	for i := range r.Viol {
		if r.Viol[i].Class == class {
			return &r.Viol[i]
		}
	}
	return nil
}

// fails reports whether the plan shows the class of violation.
func fails(bin string, plan any, class string) bool {
	r, err := runPlan(bin, plan)
	return err == nil && r.has(class) != nil
}

// firstFailing evaluates candidates in parallel and returns the index of the
// first one that still fails, or -1.
func firstFailing(bin string, cands []any, class string, deadline time.Time) int {
	for base := 0; base < len(cands); base += parallel() {
		if time.Now().After(deadline) {
			return -1
		}
		hi := base + parallel()
		if hi > len(cands) {
			hi = len(cands)
		}
		ok := make([]bool, hi-base)
		var wg sync.WaitGroup
		for i := base; i < hi; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ok[i-base] = fails(bin, cands[i], class)
			}()
		}
		wg.Wait()
		for i, o := range ok {
			if o {
				return base + i
			}
		}
	}
	return -1
}

func list(o obj, k string) []any {
	l, _ := o[k].([]any)
	return l
}

// shrinkPlan simplifies the workload, the faults, the network and the
// scheduling policy while the violation stays.
func shrinkPlan(bin string, plan obj, class string, deadline time.Time) obj {
	cur := plan
	try := func(edits []func(o obj)) bool {
		var cands []any
		for _, e := range edits {
			o := clone(cur).(obj)
			e(o)
			cands = append(cands, o)
		}
		i := firstFailing(bin, cands, class, deadline)
		if i < 0 {
			return false
		}
		cur = cands[i].(obj)
		return true
	}
	cut := func(o obj, k string, lo, hi int) {
		l := list(o, k)
		n := append([]any{}, l[:lo]...)
		for _, x := range l[lo:hi] {
			if m, _ := x.(obj); m["Keep"] == true {
				n = append(n, x)
			}
		}
		o[k] = append(n, l[hi:]...)
	}
	// chunked removal from a list
	remove := func(k string) {
		for size := (len(list(cur, k)) + 1) / 2; size >= 1; {
			n := len(list(cur, k))
			var ed []func(o obj)
			for lo := 0; lo < n; lo += size {
				hi := min(lo+size, n)
				ed = append(ed, func(o obj) { cut(o, k, lo, hi) })
			}
			if !try(ed) || len(list(cur, k)) == n {
				size /= 2
			} else if m := len(list(cur, k)); size > m {
				size = m
			}
			if time.Now().After(deadline) {
				return
			}
		}
	}
	for round := 0; round < 3; round++ {
		before, _ := json.Marshal(cur)
		remove("Flt")
		remove("Thr")
		for t := 0; t < len(list(cur, "Thr")); t++ {
			ops := func() []any { return list(list(cur, "Thr")[t].(obj), "Ops") }
			for size := (len(ops()) + 1) / 2; size >= 1; {
				n := len(ops())
				var ed []func(o obj)
				for lo := 0; lo < n; lo += size {
					hi := min(lo+size, n)
					ed = append(ed, func(o obj) { cut(list(o, "Thr")[t].(obj), "Ops", lo, hi) })
				}
				if n == 0 || !try(ed) {
					size /= 2
				}
				if time.Now().After(deadline) {
					break
				}
			}
		}
		zero := func(path func(o obj) obj, keys ...string) {
			for _, k := range keys {
				if v := path(cur); v == nil || v[k] == nil {
					continue
				}
				try([]func(o obj){func(o obj) { delete(path(o), k) }})
			}
		}
		sub := func(k string) func(o obj) obj {
			return func(o obj) obj { v, _ := o[k].(obj); return v }
		}
		zero(sub("Net"), "SpikeNum", "LossNum", "SegMode")
		zero(sub("Sched"), "Stall", "Hot", "Yield")
		for t := range list(cur, "Thr") {
			for i := range list(list(cur, "Thr")[t].(obj), "Ops") {
				zero(func(o obj) obj {
					if t >= len(list(o, "Thr")) || i >= len(list(list(o, "Thr")[t].(obj), "Ops")) {
						return nil
					}
					return list(list(o, "Thr")[t].(obj), "Ops")[i].(obj)
				}, "Wait", "Delay", "Back", "Async", "TO")
				if time.Now().After(deadline) {
					break
				}
			}
		}
		after, _ := json.Marshal(cur)
		if string(before) == string(after) || time.Now().After(deadline) {
			break
		}
	}
	return cur
}

// record runs the plan and returns its non-default choices.
func record(bin string, plan obj) []uint32 {
	f := tmpFile("rec")
	defer os.Remove(f)
	if _, err := runPlan(bin, plan, "-rec", f); err != nil {
		return nil
	}
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 32 {
		return nil
	}
	n := int(binary.LittleEndian.Uint32(b))
	if 32+4*n > len(b) {
		return nil
	}
	out := make([]uint32, n)
	for i := range out {
		out[i] = binary.LittleEndian.Uint32(b[32+4*i:])
	}
	return out
}

func withDev(plan obj, dev []uint32) obj {
	o := clone(plan).(obj)
	o["Replay"] = true
	if dev == nil {
		dev = []uint32{}
	}
	o["Dev"] = dev
	return o
}

// ddmin reduces the schedule deviations (pairs).
func ddmin(bin string, plan obj, dev []uint32, class string, deadline time.Time) []uint32 {
	if fails(bin, withDev(plan, nil), class) {
		return nil
	}
	chunk := len(dev) / 2
	for size := (chunk + 1) / 2; size >= 1; {
		n := len(dev) / 2
		var cands []any
		var devs [][]uint32
		for lo := 0; lo < n; lo += size {
			hi := min(lo+size, n)
			d := append(append([]uint32{}, dev[:2*lo]...), dev[2*hi:]...)
			devs = append(devs, d)
			cands = append(cands, withDev(plan, d))
		}
		i := firstFailing(bin, cands, class, deadline)
		if i >= 0 {
			dev = devs[i]
		} else {
			size /= 2
		}
		if time.Now().After(deadline) {
			break
		}
	}
	return dev
}

type replayFile struct {
	Property string
	Class    string
	Message  string
	Seed     int64
	Tier     string
	Race     bool
	Plan     json.RawMessage
	LogHash  uint64
	Exact    bool
	History  []string `json:",omitempty"`
	Original struct{ Threads, Ops, Faults, Deviations int }
	Minimal  struct{ Threads, Ops, Faults, Deviations int }
}

func planSize(o obj) (t, n, f, d int) {
	t = len(list(o, "Thr"))
	for _, x := range list(o, "Thr") {
		n += len(list(x.(obj), "Ops"))
	}
	return t, n, len(list(o, "Flt")), len(list(o, "Dev")) / 2
}

// minimise reproduces, shrinks and records a violation.
func minimise(bin, prop, tier string, r *result, class string, budget time.Duration) (string, error) {
	out, err := runRaw(bin, "-prop", prop, "-seed", strconv.FormatInt(r.seed, 10), "-tier", tier, "-gen")
	if err != nil {
		return "", err
	}
	plan := parsePlan(out)
	if plan == nil {
		return "", fmt.Errorf("bad plan")
	}
	return minimisePlan(bin, prop, tier, plan, r.seed, class, budget)
}

func minimisePlan(bin, prop, tier string, plan obj, seed int64, class string, budget time.Duration) (string, error) {
	start := time.Now()
	rf := replayFile{Property: prop, Class: class, Seed: seed, Tier: tier, Race: raceArg(prop)}
	orig := record(bin, plan)
	rf.Original.Threads, rf.Original.Ops, rf.Original.Faults, _ = planSize(plan)
	rf.Original.Deviations = len(orig) / 2
	small := shrinkPlan(bin, plan, class, start.Add(budget/2))
	dev := record(bin, small)
	final := small
	if dev != nil && fails(bin, withDev(small, dev), class) {
		dev = ddmin(bin, small, dev, class, start.Add(budget))
		final = withDev(small, dev)
	}
	// Verify in fresh processes.
	a, err := runPlan(bin, final)
	if err != nil {
		return "", err
	}
	b, err := runPlan(bin, final)
	if err != nil {
		return "", err
	}
	va, vb := a.has(class), b.has(class)
	if va == nil || vb == nil {
		return "", fmt.Errorf("minimised plan does not reproduce %q", class)
	}
	final = clone(final).(obj)
	rf.Message = va.Msg
	rf.LogHash = a.LogHash
	rf.Exact = a.LogHash == b.LogHash
	rf.Minimal.Threads, rf.Minimal.Ops, rf.Minimal.Faults, rf.Minimal.Deviations = planSize(final)
	if dev != nil && final["Dev"] == nil {
		rf.Minimal.Deviations = len(dev) / 2
	}
	rf.Plan, _ = json.Marshal(final)
	if h := history(bin, final); len(h) > 0 {
		if len(h) > 400 {
			h = append(append([]string{}, h[:100]...), append([]string{fmt.Sprintf("... %d more ...", len(h)-400)}, h[len(h)-300:]...)...)
		}
		rf.History = h
	}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, seed))
	x, _ := json.MarshalIndent(&rf, "", " ")
	return path, os.WriteFile(path, x, 0o644)
}

func history(bin string, plan any) []string {
	f := tmpFile("plan")
	b, _ := json.Marshal(plan)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	o, _ := runErr(bin, "-plan", f, "-trace")
	var l []string
	for _, x := range strings.Split(o, "\n") {
		if x != "" {
			l = append(l, x)
		}
	}
	return l
}

func replay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal(err)
	}
	bin, err := build(rf.Race)
	if err != nil {
		fatal(err)
	}
	defer cleanup()
	r, err := runPlan(bin, rf.Plan)
	if err != nil {
		fatal(err)
	}
	if v := r.has(rf.Class); v != nil {
		fmt.Printf("reproduced: %s: %s\n", v.Class, v.Msg)
		if r.LogHash == rf.LogHash {
			fmt.Println("history identical to the recorded one")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, f)
		return 1
	}
	fmt.Println("not reproduced on this tree:", r.Viol)
	return 0
}

// --- the check ---

func quickRuns(prop string) int {
	switch prop {
	case "R01":
		return 2500
	}
	return 8000
}

type stats struct {
	runs      int
	hashes    map[uint64]bool
	faults    map[string]int
	faultRuns int
	probes    map[string]int
	simNs     float64
	steps     float64
	preempt   float64
	picks     float64
	stalls    float64
	events    float64
	overruns  int
	nontriv   map[uint64]bool
	trivial   int
}

func check(prop string, seed int64, tier string, n int, secs float64) int {
	t0 := time.Now()
	if !known(prop) {
		fatal("unknown property", prop)
	}
	bin, err := build(raceArg(prop))
	if err != nil {
		fatal(err)
	}
	defer cleanup()
	finds, err := loadFindings()
	if err != nil {
		fatal(err)
	}
	listed := func(class string) bool {
		for _, f := range finds {
			if f.prop == prop && f.class == class {
				return true
			}
		}
		return false
	}
	built := time.Since(t0).Seconds()
	limit := 100.0
	if tier == "thorough" {
		limit = 900
	}
	if n == 0 {
		n = quickRuns(prop)
		if tier == "thorough" {
			n = 1 << 40 >> 10
		}
	}
	if secs > 0 {
		limit = secs
	}
	from := seed * seedStride
	st := stats{hashes: map[uint64]bool{}, faults: map[string]int{}, probes: map[string]int{}, nontriv: map[uint64]bool{}}
	var bad *result
	var badClass string
	var samples []any
	hashOf := map[int64][2]uint64{}
	knownSeen := map[string]int{}
	tRun := time.Now()
	deadline := tRun.Add(time.Duration(limit * float64(time.Second)))
	handle := func(r *result) bool {
		st.runs++
		st.hashes[r.Hash] = true
		nf := 0
		for k, v := range r.Faults {
			st.faults[k] += v
			nf += v
		}
		if nf > 0 {
			st.faultRuns++
		}
		for k, v := range r.Probe {
			st.probes[k] += v
		}
		st.simNs += float64(r.Stat[9])
		st.steps += float64(r.Stat[0])
		st.events += float64(r.Events)
		if r.Stat[1] > 50 && r.Events > 20 {
			st.nontriv[r.Hash] = true
		} else {
			st.trivial++
		}
		if r.Verdict == "overrun" {
			st.overruns++
		}
		if r.seed >= from && r.seed-from < 64 {
			hashOf[r.seed] = [2]uint64{r.Hash, r.LogHash}
		}
		if len(samples) < 4 && r.Plan != nil {
			samples = append(samples, obj{"seed": r.seed, "interleaving": fmt.Sprintf("%016x", r.Hash), "history_events": r.Events, "plan": r.Plan})
		}
		stop := false
		for _, v := range r.Viol {
			if listed(v.Class) {
				knownSeen[v.Class]++
				continue
			}
			if bad == nil || r.seed < bad.seed {
				bad, badClass = r, v.Class
			}
			stop = true
		}
		return !stop
	}
	// The demonstrations of known findings are always part of the run.
	for _, f := range finds {
		if f.prop != prop || f.plan == "" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(verif, f.plan))
		if err != nil {
			fatal(err)
		}
		r, err := runPlan(bin, json.RawMessage(b))
		if err != nil {
			fatal(err)
		}
		handle(r)
	}
	total := n
	pos := from
	unrep := 0
	timeouts := 0
	var minErr error
	for total > 0 && bad == nil {
		k, err := batch(bin, prop, tier, pos, total, deadline, handle, "-sample", strconv.FormatInt(from, 10))
		if err != nil {
			fatal(err)
		}
		if bad == nil {
			break
		}
		// The violation must be reproducible; anything else is a defect of
		// the simulator and is not reported.
		budget := 40 * time.Second
		path, err := minimise(bin, prop, tier, bad, badClass, budget)
		if err != nil {
			minErr = err
			fmt.Fprintf(os.Stderr, "vsim: seed %d: %s: not reproducible (%v), ignored\n", bad.seed, badClass, err)
			unrep++
			pos += int64(k) + int64(parallel())
			total -= k + parallel()
			bad = nil
			if unrep > 20 || time.Now().After(deadline) {
				break
			}
			continue
		}
		writeEvidence(prop, tier, seed, &st, samples, t0, tRun, built, 1, unrep, 0, 0, knownSeen, limit, n)
		fmt.Printf("violation found at seed %d: %s\n", bad.seed, badClass)
		if v := bad.has(badClass); v != nil {
			fmt.Printf("%.1500s\n", v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	_ = minErr
	_ = timeouts
	// Determinism: repeat some runs and compare.
	var again []int64
	for s := range hashOf {
		again = append(again, s)
	}
	sort.Slice(again, func(i, j int) bool { return again[i] < again[j] })
	if len(again) > 16 {
		again = again[:16]
	}
	mism := 0
	if len(again) > 0 {
		_, err := batch(bin, prop, tier, again[0], len(again), time.Time{}, func(r *result) bool {
			if h, ok := hashOf[r.seed]; ok && (h[0] != r.Hash || h[1] != r.LogHash) {
				mism++
				fmt.Fprintf(os.Stderr, "vsim: seed %d is not deterministic\n", r.seed)
			}
			return true
		})
		if err != nil {
			fatal(err)
		}
	}
	writeEvidence(prop, tier, seed, &st, samples, t0, tRun, built, 0, unrep, len(again), mism, knownSeen, limit, n)
	for _, f := range finds {
		if f.prop == prop && knownSeen[f.class] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", prop, f.desc, knownSeen[f.class])
		}
	}
	fmt.Printf("%s: held on %d runs (%d distinct interleavings, %.0f s simulated, %d faults injected) in %.1f s\n", prop, st.runs, len(st.hashes), st.simNs/1e9, sum(st.faults), time.Since(t0).Seconds())
	return 0
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

func writeEvidence(prop, tier string, seed int64, st *stats, samples []any, t0, tRun time.Time, built float64, viol, unrep, again, mism int, knownSeen map[string]int, limit float64, n int) {
	el := time.Since(tRun).Seconds()
	m := meta[prop]
	cov := obj{
		"evaluations":         st.runs,
		"distinct_nontrivial": len(st.nontriv),
		"rule": "one case = one simulated execution, generated (nodes, workload, network parameters, fault sequence, scheduling policy) and scheduled from one seed; seeds are consecutive from VERIF_SEED*1000003. " +
			"Distinct: different hash over the complete sequence of scheduling decisions (goroutine picked at every step, per goroutine identity). Non-trivial: more than 50 context switches and more than 20 recorded history events. " + m.rule,
		"samples":                      samples,
		"seeds_from":                   seed * seedStride,
		"seeds_requested":              n,
		"runs_per_hour":                int(float64(st.runs) / el * 3600),
		"distinct_interleavings":       len(st.hashes),
		"simulated_seconds":            int(st.simNs / 1e9),
		"scheduling_steps":             int(st.steps),
		"history_events":               int(st.events),
		"faults_injected":              st.faults,
		"runs_with_faults":             st.faultRuns,
		"oracle_probes":                st.probes,
		"inconclusive_step_limit_runs": st.overruns,
		"unreproducible_alarms":        unrep,
		"determinism_reruns":           again,
		"determinism_mismatches":       mism,
		"known_finding_runs":           knownSeen,
		"time_limit_s":                 limit,
		"build_s":                      built,
		"real_components":              m.real,
		"stub_components":              m.stub,
	}
	if samples == nil {
		cov["samples"] = []any{}
	}
	ev := obj{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "violations": viol,
		"wall_s": time.Since(t0).Seconds(), "assumptions": assumptions}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fatal(err)
	}
}
