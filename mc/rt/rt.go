//go:build go1.22

// Package rt is the common driver of every check: it splits a property into
// deterministic jobs, explores them in worker processes, confirms every
// violation in a fresh process, writes the evidence file and the replay file,
// and turns the outcome into the exit status.
package rt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Job is one deterministic, self-contained part of a check's exploration.
type Job struct {
	Name string
	Run  func(c *C)
}

// Check is the machinery deciding one property.
type Check struct {
	Property    string
	Rule        string // what is enumerated
	Assumptions []string
	Bounds      func(tier string) string
	Jobs        func(tier string) []Job
}

// Violation is one broken expectation, with the history that shows it.
type Violation struct {
	Key   string   `json:"key"`   // identifies input / call site / history
	Desc  string   `json:"desc"`  // what was expected and what happened
	Trace []string `json:"trace"` // the operations leading to it
}

// Result is what a worker reports for a job.
type Result struct {
	Job         int                `json:"job"`
	States      int64              `json:"states"`
	Transitions int64              `json:"transitions"`
	Traces      int64              `json:"traces"`
	Evals       int64              `json:"evals"`
	Outcomes    int64              `json:"outcomes"`
	MaxDepth    int64              `json:"maxdepth"`
	Capped      bool               `json:"capped"`
	Capnote     string             `json:"capnote"`
	Extra       map[string]int64   `json:"extra"`
	MaxErr      map[string]float64 `json:"maxerr"`
	Samples     []string           `json:"samples"`
	Violation   *Violation         `json:"violation"`
	Known       []Violation        `json:"known"`
	Wall        float64            `json:"wall"`
}

// C is the context a job runs in.
type C struct {
	Tier     string
	Seed     int64
	R        *Result
	known    map[string]bool
	outcomes map[string]struct{}
	deadline time.Time
	verbose  io.Writer
}

type stop struct{}

var tick atomic.Uint64
var label atomic.Value // func() string or string

// Tick tells the hang monitor that progress is being made.
func Tick() { tick.Add(1) }

// Label describes the case that is being executed (used for crash reports).
func (c *C) Label(f func() string) {
	tick.Add(1)
	label.Store(f)
	if c.verbose != nil {
		fmt.Fprintln(c.verbose, f())
	}
}

// Thorough reports whether the deep exploration was asked for.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Expired reports whether the time budget of this job ran out.
func (c *C) Expired() bool { return time.Now().After(c.deadline) }

// Cap records that the exploration was cut short.
func (c *C) Cap(note string) { c.R.Capped = true; c.R.Capnote = note }

// Outcome counts distinct observations (a vacuity indicator).
func (c *C) Outcome(s string) {
	if len(c.outcomes) < 200000 {
		c.outcomes[s] = struct{}{}
	}
}

// Sample records an explored case for the evidence file.
func (c *C) Sample(s string) {
	if len(c.R.Samples) < 2 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.R.Samples = append(c.R.Samples, s)
	}
}

// Count adds to a named extra counter.
func (c *C) Count(k string, n int64) {
	if c.R.Extra == nil {
		c.R.Extra = map[string]int64{}
	}
	c.R.Extra[k] += n
}

// ErrRatio records how much of the numeric tolerance was used.
func (c *C) ErrRatio(k string, r float64) {
	if c.R.MaxErr == nil {
		c.R.MaxErr = map[string]float64{}
	}
	if r > c.R.MaxErr[k] {
		c.R.MaxErr[k] = r
	}
}

// Violate reports a violation and, unless it is a listed known finding, ends the job.
func (c *C) Violate(key, desc string, trace []string) {
	v := Violation{Key: key, Desc: desc, Trace: trace}
	if c.known[key] {
		for _, k := range c.R.Known {
			if k.Key == key {
				return
			}
		}
		c.R.Known = append(c.R.Known, v)
		return
	}
	c.R.Violation = &v
	panic(stop{})
}

// Stopped reports whether a recovered panic value is the engine's own stop signal.
func Stopped(r any) bool { _, ok := r.(stop); return ok }

func runJob(ck *Check, jobs []Job, idx int, tier string, seed int64, known map[string]bool, deadline time.Time, verbose io.Writer) *Result {
	r := &Result{Job: idx}
	c := &C{Tier: tier, Seed: seed, R: r, known: known, outcomes: map[string]struct{}{}, deadline: deadline, verbose: verbose}
	t0 := time.Now()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if Stopped(e) {
					return
				}
				lab := ""
				if f, ok := label.Load().(func() string); ok {
					lab = f()
				}
				r.Violation = &Violation{
					Key:   jobs[idx].Name + "/panic",
					Desc:  fmt.Sprintf("panic: %v", e),
					Trace: append([]string{lab}, strings.Split(string(debug.Stack()), "\n")...),
				}
			}
		}()
		jobs[idx].Run(c)
	}()
	r.Outcomes = int64(len(c.outcomes))
	r.Wall = time.Since(t0).Seconds()
	return r
}

// ---------------------------------------------------------------------------

type env struct {
	prop, tier, verif, repo string
	seed                    int64
	budget                  time.Duration
}

// Main is the entry point of the generated programs.
func Main(checks []*Check) {
	args := os.Args[1:]
	get := func(name, def string) string {
		for i, a := range args {
			if a == name && i+1 < len(args) {
				return args[i+1]
			}
		}
		return def
	}
	has := func(name string) bool {
		for _, a := range args {
			if a == name {
				return true
			}
		}
		return false
	}
	prop := get("-prop", "")
	tier := get("-tier", "quick")
	seed, _ := strconv.ParseInt(get("-seed", "1"), 10, 64)
	var ck *Check
	for _, c := range checks {
		if c.Property == prop {
			ck = c
		}
	}
	if ck == nil {
		if has("-has") {
			os.Exit(3)
		}
		fmt.Println("no check for property", prop)
		os.Exit(2)
	}
	if has("-has") {
		os.Exit(0)
	}
	known := map[string]bool{}
	if b, err := os.ReadFile(get("-known", "")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			// open finding lines: "known: property=<id> key=<key> <text>"
			if strings.HasPrefix(l, "known:") {
				f := strings.Fields(l)
				if len(f) >= 3 && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
					known[strings.TrimPrefix(f[2], "key=")] = true
				}
			}
		}
	}
	budget, _ := strconv.Atoi(get("-budget", "240"))
	jobs := ck.Jobs(tier)
	if has("-list") {
		for i, j := range jobs {
			fmt.Println(i, j.Name)
		}
		return
	}
	if has("-worker") {
		worker(ck, jobs, tier, seed, known, get("-trace", ""))
		return
	}
	os.Exit(parent(ck, jobs, tier, seed, time.Duration(budget)*time.Second, get("-evidence", ""), get("-replaydir", ""), get("-only", ""), args))
}

const hangAfter = 45 * time.Second
const memLimit = 3 << 30

func worker(ck *Check, jobs []Job, tier string, seed int64, known map[string]bool, traceFile string) {
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	var mu sync.Mutex
	emit := func(r *Result) {
		mu.Lock()
		defer mu.Unlock()
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	var cur atomic.Int64
	cur.Store(-1)
	go func() {
		last, since, lastJob := uint64(0), time.Now(), int64(-1)
		for n := 0; ; n++ {
			time.Sleep(100 * time.Millisecond)
			t, j := tick.Load(), cur.Load()
			if j < 0 || t != last || j != lastJob {
				last, since, lastJob = t, time.Now(), j
			}
			bad := ""
			if j >= 0 && time.Since(since) > hangAfter {
				bad = "hang"
			} else if n%10 == 0 {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > memLimit {
					bad = "memory"
				}
			}
			if bad != "" && j >= 0 {
				lab := ""
				if f, ok := label.Load().(func() string); ok {
					func() {
						defer func() { _ = recover() }()
						lab = f()
					}()
				}
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				desc := fmt.Sprintf("no call returned for %v", hangAfter)
				if bad == "memory" {
					desc = "memory use exploded (over 3 GB)"
				}
				emit(&Result{Job: int(j), Violation: &Violation{Key: jobs[j].Name + "/" + bad, Desc: desc,
					Trace: append([]string{lab}, strings.Split(string(buf), "\n")...)}})
				os.Exit(0)
			}
		}
	}()
	var verbose io.Writer
	if traceFile != "" {
		f, err := os.Create(traceFile)
		if err == nil {
			verbose = f
		}
	}
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) != 2 {
			return
		}
		idx, _ := strconv.Atoi(f[0])
		ms, _ := strconv.ParseInt(f[1], 10, 64)
		tick.Add(1)
		cur.Store(int64(idx))
		r := runJob(ck, jobs, idx, tier, seed, known, time.UnixMilli(ms), verbose)
		cur.Store(-1)
		emit(r)
	}
}

// OneJob runs a job in a fresh worker process. crashed is true when the worker died.
func oneJob(idx int, deadline time.Time, args []string, trace string) (r *Result, crashed bool, tail string) {
	w := startWorker(args, trace)
	defer w.kill()
	r, ok := w.do(idx, deadline)
	if !ok {
		return nil, true, w.stderr.String()
	}
	return r, false, ""
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<18 {
		// keep head (first report) and tail
		t.b = append(append([]byte{}, t.b[:1<<16]...), t.b[len(t.b)-1<<16:]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

type wk struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tailBuf
}

func startWorker(args []string, trace string) *wk {
	a := append([]string{"-worker"}, args...)
	if trace != "" {
		a = append(a, "-trace", trace)
	}
	cmd := exec.Command(os.Args[0], a...)
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	tb := &tailBuf{}
	cmd.Stderr = tb
	if err := cmd.Start(); err != nil {
		fmt.Println("cannot start worker:", err)
		os.Exit(2)
	}
	return &wk{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), stderr: tb}
}

func (w *wk) do(idx int, deadline time.Time) (*Result, bool) {
	fmt.Fprintf(w.in, "%d %d\n", idx, deadline.UnixMilli())
	type rr struct {
		r  *Result
		ok bool
	}
	ch := make(chan rr, 1)
	go func() {
		for {
			line, err := w.out.ReadString('\n')
			if err != nil {
				ch <- rr{nil, false}
				return
			}
			var r Result
			if json.Unmarshal([]byte(line), &r) == nil && r.Job == idx {
				ch <- rr{&r, true}
				return
			}
		}
	}()
	select {
	case x := <-ch:
		return x.r, x.ok
	case <-time.After(time.Until(deadline) + 3*hangAfter):
		return nil, false
	}
}

func (w *wk) kill() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
}

func parent(ck *Check, jobs []Job, tier string, seed int64, budget time.Duration, evidence, replayDir, only string, args []string) int {
	t0 := time.Now()
	deadline := t0.Add(budget)
	// interleave
	order := make([]int, 0, len(jobs))
	for i := range jobs {
		if only == "" || strings.Contains(jobs[i].Name, only) {
			order = append(order, i)
		}
	}
	var mu sync.Mutex
	next := 0
	var results []*Result
	skipped := 0
	var viol *Result
	crashNote := ""
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw > len(order) {
		nw = len(order)
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *wk
			defer func() {
				if w != nil {
					w.kill()
				}
			}()
			for {
				mu.Lock()
				if viol != nil || next >= len(order) {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					skipped += len(order) - next
					next = len(order)
					mu.Unlock()
					return
				}
				idx := order[next]
				next++
				mu.Unlock()
				if w == nil {
					w = startWorker(args, "")
				}
				r, ok := w.do(idx, deadline)
				if !ok {
					tail := w.stderr.String()
					w.kill()
					w = nil
					r = &Result{Job: idx, Violation: &Violation{Key: jobs[idx].Name + "/crash", Desc: "the process running the job died", Trace: strings.Split(tail, "\n")}}
				}
				if r.Violation != nil {
					if w != nil {
						w.kill()
						w = nil
					}
					if cr := confirm(ck, jobs, idx, r, args, replayDir); cr != nil {
						mu.Lock()
						if viol == nil {
							viol = cr
						}
						mu.Unlock()
						return
					}
					mu.Lock()
					crashNote = fmt.Sprintf("job %s reported %q once but not on re-execution; not counted", jobs[idx].Name, r.Violation.Desc)
					mu.Unlock()
					continue
				}
				mu.Lock()
				results = append(results, r)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	// merge
	m := map[string]any{}
	var st, tr, tc, ev, oc, md int64
	capped := skipped > 0
	notes := []string{}
	extra := map[string]int64{}
	maxerr := map[string]float64{}
	samples := []string{}
	knowns := map[string]Violation{}
	sort.Slice(results, func(i, j int) bool { return results[i].Job < results[j].Job })
	slow := append([]*Result{}, results...)
	sort.Slice(slow, func(i, j int) bool { return slow[i].Wall > slow[j].Wall })
	for i, r := range results {
		st += r.States
		tr += r.Transitions
		tc += r.Traces
		ev += r.Evals
		oc += r.Outcomes
		if r.MaxDepth > md {
			md = r.MaxDepth
		}
		if r.Capped {
			capped = true
			if len(notes) < 8 {
				notes = append(notes, jobs[r.Job].Name+": "+r.Capnote)
			}
		}
		for k, v := range r.Extra {
			extra[k] += v
		}
		for k, v := range r.MaxErr {
			if v > maxerr[k] {
				maxerr[k] = v
			}
		}
		if len(samples) < 6 && len(r.Samples) > 0 && (i%(1+len(results)/6) == 0 || i < 2) {
			samples = append(samples, jobs[r.Job].Name+": "+r.Samples[0])
		}
		for _, k := range r.Known {
			knowns[k.Key] = k
		}
	}
	if skipped > 0 {
		notes = append(notes, fmt.Sprintf("%d of %d jobs not started before the time budget ran out", skipped, len(order)))
	}
	if crashNote != "" {
		notes = append(notes, crashNote)
		capped = true
	}
	m["states"], m["transitions"], m["traces_validated_against_impl"] = st, tr, tc
	m["evaluations"] = ev
	m["distinct_outcomes"] = oc
	m["max_depth"] = md
	m["jobs"] = len(results)
	m["rule"] = ck.Rule
	if ck.Bounds != nil {
		m["bounds"] = ck.Bounds(tier)
	}
	m["exhaustive"] = !capped && viol == nil
	m["samples"] = samples
	if len(notes) > 0 {
		m["caps"] = notes
	}
	for k, v := range extra {
		m[k] = v
	}
	if len(maxerr) > 0 {
		m["largest_share_of_tolerance_used"] = maxerr
	}
	var slowest []string
	for i := 0; i < len(slow) && i < 3; i++ {
		slowest = append(slowest, fmt.Sprintf("%s %.1fs", jobs[slow[i].Job].Name, slow[i].Wall))
	}
	m["slowest_jobs"] = slowest
	nv := 0
	if viol != nil {
		nv = 1
	}
	e := map[string]any{"property": ck.Property, "tier": tier, "seed": seed, "level": "model_checking", "coverage": m,
		"assumptions": append([]string{}, ck.Assumptions...), "wall_s": time.Since(t0).Seconds(), "violations": nv}
	if evidence != "" {
		b, _ := json.MarshalIndent(e, "", " ")
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		os.WriteFile(evidence, append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: jobs=%d states=%d transitions=%d traces=%d evaluations=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		ck.Property, tier, len(results), st, tr, tc, ev, oc, !capped && viol == nil, time.Since(t0).Seconds())
	fmt.Println("  slowest:", strings.Join(slowest, "; "))
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	keys := []string{}
	for k := range knowns {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.Property, k, knowns[k].Desc)
	}
	if viol != nil {
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", ck.Property, os.Getpid()))
		os.MkdirAll(replayDir, 0o755)
		rb := map[string]any{"property": ck.Property, "job": jobs[viol.Job].Name, "tier": tier, "key": viol.Violation.Key,
			"desc": viol.Violation.Desc, "trace": viol.Violation.Trace,
			"how": "bash /verif/check.sh " + ck.Property + " replay " + path + "   (re-runs exactly this job against the current tree)"}
		b, _ := json.MarshalIndent(rb, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Println("  job:", jobs[viol.Job].Name)
		fmt.Println("  key:", viol.Violation.Key)
		fmt.Println("  what:", viol.Violation.Desc)
		for i, t := range viol.Violation.Trace {
			if i >= 40 {
				fmt.Println("    ...")
				break
			}
			fmt.Println("   ", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.Property, path)
		return 1
	}
	return 0
}

// confirm re-executes a job that reported a violation in fresh processes; only
// a violation that is reported again counts.
func confirm(ck *Check, jobs []Job, idx int, first *Result, args []string, replayDir string) *Result {
	n := 4
	if strings.HasSuffix(first.Violation.Key, "/hang") || strings.HasSuffix(first.Violation.Key, "/memory") {
		n = 2
	}
	for i := 0; i < n; i++ {
		trace := ""
		if strings.HasSuffix(first.Violation.Key, "/crash") {
			trace = filepath.Join(os.TempDir(), fmt.Sprintf("zzverif-trace-%d-%d", os.Getpid(), idx))
		}
		r, crashed, tail := oneJob(idx, time.Now().Add(200*time.Second), args, trace)
		last := ""
		if trace != "" {
			if b, err := os.ReadFile(trace); err == nil {
				ls := strings.Split(strings.TrimSpace(string(b)), "\n")
				last = ls[len(ls)-1]
			}
			os.Remove(trace)
		}
		if crashed {
			lines := strings.Split(tail, "\n")
			if len(lines) > 60 {
				lines = lines[:60]
			}
			return &Result{Job: idx, Violation: &Violation{Key: jobs[idx].Name + "/crash",
				Desc: "the process executing the calls was killed by the Go runtime: " + firstLine(lines), Trace: append([]string{"last case: " + last}, lines...)}}
		}
		if r.Violation != nil {
			return r
		}
	}
	return nil
}

func firstLine(ls []string) string {
	for _, l := range ls {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return ""
}
