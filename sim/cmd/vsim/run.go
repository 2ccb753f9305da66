package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const seedStride = 1000003

type viol struct{ Class, Msg string }

type result struct {
	Verdict string
	Prop    string
	Viol    []viol
	Hash    uint64
	LogHash uint64
	Stat    [13]uint64
	Events  int
	Faults  map[string]int
	Probe   map[string]int
	Plan    json.RawMessage
	NDev    int

	seed   int64
	stderr string
	ms     float64
}

func raceProp(p string) bool { return p == "R01" }

var tmpDir string

func scratch() string {
	if tmpDir == "" {
		d, err := os.MkdirTemp("", "vsim")
		if err != nil {
			fatal(err)
		}
		tmpDir = d
	}
	return tmpDir
}

func cleanup() {
	if tmpDir != "" {
		os.RemoveAll(tmpDir)
	}
}

// runWorker executes one simulation. A nil result with error means the
// machinery failed.
func runWorker(bin string, args ...string) (*result, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Env = []string{"GOTRACEBACK=all", "GORACE=atexit_sleep_ms=0 halt_on_error=0 history_size=3 exitcode=66", "PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME")}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	t := time.Now()
	err := c.Run()
	el := time.Since(t).Seconds() * 1000
	if ctx.Err() != nil {
		return &result{Verdict: "violation", ms: el, Viol: []viol{{"stuck", "the execution made no progress within 100 s of real time"}}}, nil
	}
	if err == nil {
		r := &result{}
		if e := json.Unmarshal(so.Bytes(), r); e != nil {
			return nil, fmt.Errorf("worker %v: bad output: %v %.300s %.2000s", args, e, so.String(), se.String())
		}
		r.ms = el
		return r, nil
	}
	text := se.String()
	if strings.Contains(text, "WARNING: DATA RACE") && so.Len() > 0 {
		r := &result{}
		if e := json.Unmarshal(so.Bytes(), r); e != nil {
			return nil, fmt.Errorf("worker %v: bad output: %v %.300s %.2000s", args, e, so.String(), text)
		}
		r.ms = el
		r.stderr = text
		if l := races(text); len(l) > 0 {
			r.Verdict = "violation"
			r.Viol = append(r.Viol, l...)
		}
		return r, nil
	}
	r := &result{Verdict: "violation", stderr: text, ms: el}
	if cl, msg := classifyCrash(text); cl != "" {
		r.Viol = []viol{{cl, msg}}
		return r, nil
	}
	return nil, fmt.Errorf("worker %v: %v\n%.3000s", args, err, text)
}

// races lists the data races reported in text. An access belongs to the
// innermost frame of the library or of the harness; races within the harness
// do not count.
func races(text string) []viol {
	var l []viol
	seen := map[string]bool{}
	for _, rep := range strings.Split(text, "==================") {
		i := strings.Index(rep, "WARNING: DATA RACE")
		if i < 0 {
			continue
		}
		var at []string
		mine := 0
		for _, blk := range strings.Split(rep[i:], "\n\n") {
			ls := strings.Split(strings.TrimSpace(blk), "\n")
			if strings.Contains(ls[0], "DATA RACE") {
				ls = ls[1:]
			}
			if len(ls) == 0 || !strings.Contains(ls[0], " by ") {
				continue
			}
			who := "?"
			for _, x := range ls[1:] {
				x = strings.TrimSpace(x)
				if strings.HasPrefix(x, "main.") {
					mine++
					who = "the application"
					break
				}
				if strings.HasPrefix(x, "github.com/perlin-network/noise") {
					who = strings.TrimSuffix(strings.TrimPrefix(x, "github.com/perlin-network/"), "()")
					break
				}
			}
			at = append(at, who)
		}
		if mine == len(at) || !strings.Contains(strings.Join(at, " "), "noise") {
			continue
		}
		sort.Strings(at)
		c := "race: " + strings.Join(at, " / ")
		if !seen[c] {
			seen[c] = true
			l = append(l, viol{c, strings.TrimSpace(rep)})
		}
	}
	return l
}

var reFrame = regexp.MustCompile(`(?m)^(\S+)\(.*\)$`)

// classifyCrash turns a crash of the code under test into a violation. A
// crash in the harness itself is an error of the machinery.
func classifyCrash(text string) (string, string) {
	i := strings.Index(text, "panic: ")
	if k := strings.Index(text, "fatal error: "); k >= 0 && (i < 0 || k < i) {
		i = k
	}
	if i < 0 {
		return "", ""
	}
	rep := text[i:]
	first := strings.SplitN(rep, "\n", 2)[0]
	if strings.Contains(first, "harness:") || strings.Contains(first, "zsim:") {
		return "", ""
	}
	// The first stack: the goroutine that crashed.
	blk := rep
	if j := strings.Index(rep, "goroutine "); j >= 0 {
		blk = rep[j:]
		if k := strings.Index(blk, "\n\n"); k > 0 {
			blk = blk[:k]
		}
	}
	where := ""
	for _, l := range strings.Split(blk, "\n") {
		m := reFrame.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			continue
		}
		f := m[1]
		if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "panic") || strings.HasPrefix(f, "sync.") || strings.HasPrefix(f, "internal/") {
			continue
		}
		if strings.HasPrefix(f, "main.") && !strings.Contains(blk, "github.com/perlin-network/noise") {
			return "", "" // the harness itself
		}
		if strings.Contains(f, "perlin-network/noise") {
			where = strings.TrimPrefix(f, "github.com/perlin-network/")
			break
		}
	}
	if where == "" {
		if strings.Contains(blk, "perlin-network/noise") {
			where = "noise"
		} else {
			return "", ""
		}
	}
	if len(rep) > 3000 {
		rep = rep[:3000]
	}
	first = regexp.MustCompile(`0x[0-9a-f]+|\d+`).ReplaceAllString(first, "N")
	return "crash: " + first + " @ " + where, rep
}

// batch runs n seeds in parallel and calls f (serialised) with each result.
func batch(bin, prop, tier string, from int64, n int, deadline time.Time, f func(*result) bool, extra ...string) (int, error) {
	var next, done int64
	var mu sync.Mutex
	var firstErr error
	var stop atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < parallel(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := atomic.AddInt64(&next, 1) - 1
				if i >= int64(n) || !deadline.IsZero() && time.Now().After(deadline) {
					return
				}
				seed := from + i
				a := append([]string{"-prop", prop, "-seed", strconv.FormatInt(seed, 10), "-tier", tier}, extra...)
				r, err := runWorker(bin, a...)
				mu.Lock()
				if err != nil {
					if firstErr == nil {
						firstErr = err
					}
					stop.Store(true)
				} else {
					r.seed = seed
					done++
					if !f(r) {
						stop.Store(true)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return int(done), firstErr
}

func parallel() int { return 8 }

func sweep(prop string, from int64, n int, tier string, race, min bool) {
	bin, err := build(race)
	if err != nil {
		fatal(err)
	}
	defer cleanup()
	cls := map[string]int{}
	ex := map[string]string{}
	faults := map[string]int{}
	probes := map[string]int{}
	hashes := map[uint64]bool{}
	var steps, tms float64
	mx := 0.0
	ov := 0
	t := time.Now()
	k, err := batch(bin, prop, tier, from, n, time.Time{}, func(r *result) bool {
		if r.Verdict == "overrun" {
			ov++
			ex["overrun"] = fmt.Sprintf("seed %d", r.seed)
		}
		seen := map[string]bool{}
		for _, v := range r.Viol {
			if !seen[v.Class] {
				seen[v.Class] = true
				cls[v.Class]++
				if ex[v.Class] == "" {
					ex[v.Class] = fmt.Sprintf("seed %d: %.600s", r.seed, v.Msg)
				}
			}
		}
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Probe {
			probes[k] += v
		}
		hashes[r.Hash] = true
		steps += float64(r.Stat[0])
		tms += r.ms
		if r.ms > mx {
			mx = r.ms
		}
		return true
	})
	fmt.Printf("%s: %d runs in %.1fs, %d interleavings, %.0f steps/run, %.1f ms/run (max %.0f), overruns %d\n", prop, k, time.Since(t).Seconds(), len(hashes), steps/float64(k), tms/float64(k), mx, ov)
	fmt.Println("faults:", faults)
	fmt.Println("probes:", probes)
	for c, x := range cls {
		fmt.Printf("  %5d %s\n        %s\n", x, c, ex[c])
	}
	if err != nil {
		fmt.Println("ERROR", err)
	}
	if ex["overrun"] != "" {
		fmt.Println("overrun", ex["overrun"])
	}
}

var _ = filepath.Join

func runRaw(bin string, args ...string) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	return exec.CommandContext(ctx, bin, args...).Output()
}

// runErr returns what the worker prints on stderr.
func runErr(bin string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Env = []string{"GOTRACEBACK=all", "GORACE=atexit_sleep_ms=0 halt_on_error=0 history_size=3 exitcode=66"}
	var se bytes.Buffer
	c.Stderr = &se
	err := c.Run()
	return se.String(), err
}
