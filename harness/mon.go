// Command vmon runs the monitors of one property against the code in /repo.
//
// It is started by ../check.py, which builds it from the current tree, contains crashes, and writes evidence.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// modulePath is how functions of the code under test appear in stack traces.
const modulePath = "terorie.dev/nimiq/"

// A Workload is a family of executions, numbered from zero, that exercises one property.
type Workload struct {
	Name     string
	Quick    int  // number of cases in the quick tier
	Thorough int  // number of cases in the thorough tier
	Serial   bool // cases run one at a time, with nothing else running (allocation measurements)
	Fn       func(t *T)
	Need     []string // counters that have to be non-zero, otherwise the run is inconclusive
}

// Property is everything known about how a property is decided.
type Property struct {
	ID          string
	Rule        string // how cases are made and what makes them non-trivial
	Exhaustive  bool
	Assumptions []string
	Level       string
	Workloads   []Workload
}

var registry = map[string]*Property{}

func register(p Property) {
	if _, dup := registry[p.ID]; dup {
		panic("duplicate property " + p.ID)
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = &p
}

// T is the context of a single case.
type T struct {
	R     *Rand
	Idx   int
	Tier  string
	Seed  uint64
	Scale int // 1 in the quick tier, more in the thorough tier

	w   *worker
	wl  *Workload
	hub *hub
	log []string
}

type stop struct{ msg string }

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, args ...interface{}) {
	panic(stop{fmt.Sprintf(format, args...)})
}

// Check reports a violation unless ok.
func (t *T) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		panic(stop{fmt.Sprintf(format, args...)})
	}
}

// Inconclusive aborts the run because the harness could not do its job.
func (t *T) Inconclusive(format string, args ...interface{}) {
	t.hub.inconclusive(fmt.Sprintf("%s #%d: ", t.wl.Name, t.Idx) + fmt.Sprintf(format, args...))
	panic(abort{})
}

type abort struct{}

// Logf notes an event of the case. The log is part of the replay file.
func (t *T) Logf(format string, args ...interface{}) {
	if len(t.log) < 400 {
		t.log = append(t.log, fmt.Sprintf(format, args...))
	}
}

// Count counts an observed event.
func (t *T) Count(name string) { t.w.counts[name]++ }

// CountN counts observed events.
func (t *T) CountN(name string, n int) { t.w.counts[name] += int64(n) }

// Eval counts an evaluated input.
func (t *T) Eval() { t.w.evals++ }

// Distinct records a non-trivial case by its content.
func (t *T) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			_, _ = h.Write(v)
		case string:
			_, _ = h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		_, _ = h.Write([]byte{0xfe})
	}
	if len(t.w.distinct) < 1<<20 {
		t.w.distinct[h.Sum64()] = struct{}{}
	}
}

// State records a distinct system state seen.
func (t *T) State(hash [32]byte) {
	if len(t.w.states) < 1<<20 {
		var k [8]byte
		copy(k[:], hash[:8])
		t.w.states[k] = struct{}{}
	}
}

// Sample records the case as an example for the evidence.
func (t *T) Sample(format string, args ...interface{}) {
	if t.Idx < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		t.hub.sample(t.wl.Name, t.Idx, s)
	}
}

// Finding reports a violation that may be a known finding.
func (t *T) Finding(key, format string, args ...interface{}) {
	t.hub.mu.Lock()
	what, known := t.hub.known[key]
	if known {
		t.hub.seenFindings[key] = what
	}
	t.hub.mu.Unlock()
	if !known {
		t.Failf("[%s] %s", key, fmt.Sprintf(format, args...))
	}
	t.Count("known finding " + key)
}

// kept is a result that was handed out and must not change any more.
type kept struct {
	from, what string
	got, was   []byte
	ok         func() bool
}

// Keep watches bytes that the code returned. Whatever happens later, they stay what they are.
// The caller does not change them either.
func (t *T) Keep(what string, got []byte) {
	if len(got) > 0 && len(got) <= 1<<14 {
		t.w.keep(kept{from: fmt.Sprintf("%s#%d", t.wl.Name, t.Idx), what: what, got: got, was: append([]byte(nil), got...)})
	}
}

// KeepObj watches an object that the code returned, like Keep.
func (t *T) KeepObj(what string, got, want interface{}) {
	t.w.keep(kept{from: fmt.Sprintf("%s#%d", t.wl.Name, t.Idx), what: what, ok: func() bool { return same(want, got) }})
}

const keptMax = 300

func (w *worker) keep(k kept) {
	w.counts["results kept and watched"]++
	if len(w.kept) < keptMax {
		w.kept = append(w.kept, k)
		return
	}
	w.kept[w.keptAt%keptMax] = k
	w.keptAt++
}

// changed finds a kept result that changed.
func (w *worker) changed() (string, bool) {
	for _, k := range w.kept {
		if k.ok != nil && !k.ok() {
			return fmt.Sprintf("%s, a result in case %s, was changed by what came later", k.what, k.from), true
		}
		if !bytes.Equal(k.got, k.was) {
			return fmt.Sprintf("%s, a result in case %s, was %x and was changed to %x by what came later", k.what, k.from, k.was, k.got), true
		}
	}
	return "", false
}

type worker struct {
	kept     []kept
	keptAt   int
	ran      int
	counts   map[string]int64
	evals    int64
	distinct map[uint64]struct{}
	states   map[[8]byte]struct{}
	active   *os.File
	started  atomic.Int64
	current  atomic.Pointer[string]
}

type violation struct {
	Property string   `json:"property"`
	Workload string   `json:"workload"`
	Case     int      `json:"case"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	What     string   `json:"what"`
	Stack    string   `json:"stack,omitempty"`
	Log      []string `json:"log,omitempty"`
}

type hub struct {
	mu           sync.Mutex
	prop         *Property
	seed         uint64
	tier         string
	known        map[string]string
	seenFindings map[string]string
	violations   []violation
	inconcl      []string
	samples      []string
	stopped      atomic.Bool
	workers      []*worker
	outDir       string
	cases        int64
}

func (h *hub) inconclusive(msg string) {
	h.mu.Lock()
	h.inconcl = append(h.inconcl, msg)
	h.mu.Unlock()
	h.stopped.Store(true)
}

func (h *hub) sample(wl string, idx int, s string) {
	h.mu.Lock()
	if len(h.samples) < 40 {
		h.samples = append(h.samples, fmt.Sprintf("%s #%d: %s", wl, idx, s))
	}
	h.mu.Unlock()
}

func (h *hub) violate(v violation) {
	h.mu.Lock()
	h.violations = append(h.violations, v)
	h.mu.Unlock()
	h.stopped.Store(true)
}

const caseLimit = 150 * time.Second

func main() {
	debug.SetMaxStack(128 << 20)
	if len(os.Args) > 2 && os.Args[1] == "-child" {
		childMain(os.Args[2], os.Args[3:])
		return
	}
	propID := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	outDir := flag.String("out", "", "output directory")
	knownPath := flag.String("known", "", "known findings")
	only := flag.String("only", "", "run only WORKLOAD#CASE")
	div := flag.Int("div", 1, "divide the number of cases (slow builds)")
	src := flag.String("src", "", "the code under test, for its constants")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	p := registry[*propID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "vmon: unknown property %q\n", *propID)
		os.Exit(2)
	}
	loadDict(*src)
	h := &hub{prop: p, seed: *seed, tier: *tier, known: loadKnown(*knownPath, p.ID), seenFindings: map[string]string{}, outDir: *outDir}
	nWorkers := runtime.GOMAXPROCS(0)
	for i := 0; i < nWorkers; i++ {
		w := &worker{counts: map[string]int64{}, distinct: map[uint64]struct{}{}, states: map[[8]byte]struct{}{}}
		if *outDir != "" {
			w.active, _ = os.Create(filepath.Join(*outDir, fmt.Sprintf("active.%d", i)))
		}
		h.workers = append(h.workers, w)
	}
	go h.watchdog()
	for i := range p.Workloads {
		wl := &p.Workloads[i]
		n := wl.Quick
		if *tier == "thorough" && wl.Thorough > n {
			n = wl.Thorough
		}
		if *div > 1 {
			n = (n + *div - 1) / *div
		}
		first := 0
		if *only != "" {
			name, c, _ := strings.Cut(*only, "#")
			if name != wl.Name {
				continue
			}
			fmt.Sscan(c, &first)
			n = first + 1
		}
		h.runWorkload(wl, first, n)
		if h.stopped.Load() {
			break
		}
	}
	h.finish(*only != "" || *div > 1)
}

func (h *hub) runWorkload(wl *Workload, first, n int) {
	workers := h.workers
	if wl.Serial {
		workers = workers[:1]
	}
	next := int64(first)
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			for !h.stopped.Load() {
				i := int(atomic.AddInt64(&next, 1) - 1)
				if i >= n {
					if what, bad := w.changed(); bad && !h.stopped.Load() {
						h.violate(violation{Property: h.prop.ID, Workload: wl.Name, Case: n - 1, Seed: h.seed, Tier: h.tier, What: what})
					}
					w.kept, w.keptAt = nil, 0
					return
				}
				h.runCase(w, wl, i)
			}
		}(w)
	}
	wg.Wait()
}

func (h *hub) runCase(w *worker, wl *Workload, i int) {
	name := fmt.Sprintf("%s#%d", wl.Name, i)
	w.current.Store(&name)
	w.started.Store(time.Now().UnixNano())
	defer w.started.Store(0)
	if w.active != nil {
		_, _ = w.active.WriteAt([]byte(fmt.Sprintf("%-80s\n", name)), 0)
	}
	t := &T{Idx: i, Tier: h.tier, Seed: h.seed, w: w, wl: wl, hub: h, Scale: 1}
	if h.tier == "thorough" {
		t.Scale = 4
	}
	t.R = newRand(h.seed, h.prop.ID, wl.Name, i)
	before := w.evals
	defer func() {
		if w.evals == before {
			w.evals++
		}
		atomic.AddInt64(&h.cases, 1)
		r := recover()
		switch v := r.(type) {
		case nil:
		case abort:
		case stop:
			h.violate(violation{Property: h.prop.ID, Workload: wl.Name, Case: i, Seed: h.seed, Tier: h.tier, What: v.msg, Log: t.log})
		default:
			stack := string(debug.Stack())
			if strings.Contains(stack, modulePath) {
				h.violate(violation{Property: h.prop.ID, Workload: wl.Name, Case: i, Seed: h.seed, Tier: h.tier,
					What: fmt.Sprintf("panic: %v", r), Stack: trim(stack, 6000), Log: t.log})
			} else {
				h.inconclusive(fmt.Sprintf("harness panic in %s: %v\n%s", name, r, trim(stack, 4000)))
			}
		}
	}()
	wl.Fn(t)
	if w.ran++; w.ran%16 == 0 || w.ran < 16 {
		if what, bad := w.changed(); bad {
			t.Failf("%s", what)
		}
	}
}

// watchdog reports cases that take incomparably longer than they ever should.
func (h *hub) watchdog() {
	for {
		time.Sleep(time.Second)
		for _, w := range h.workers {
			st := w.started.Load()
			if st == 0 || time.Since(time.Unix(0, st)) < caseLimit {
				continue
			}
			name := *w.current.Load()
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			wl, c, _ := strings.Cut(name, "#")
			idx := 0
			fmt.Sscan(c, &idx)
			if strings.Contains(string(buf), modulePath) {
				h.violate(violation{Property: h.prop.ID, Workload: wl, Case: idx, Seed: h.seed, Tier: h.tier,
					What: fmt.Sprintf("no progress: the case did not end within %s", caseLimit), Stack: trim(string(buf), 20000)})
			} else {
				h.inconclusive("watchdog: " + name + " did not end")
			}
			h.finish(true)
		}
	}
}

var finishOnce sync.Mutex

func (h *hub) finish(partial bool) {
	finishOnce.Lock() // never unlocked: the process ends
	h.mu.Lock()
	defer h.mu.Unlock()
	counts := map[string]int64{}
	distinct := map[uint64]struct{}{}
	states := map[[8]byte]struct{}{}
	var evals int64
	if len(h.violations) == 0 || !partial { // workers may still be running otherwise
		for _, w := range h.workers {
			for k, v := range w.counts {
				counts[k] += v
			}
			for k := range w.distinct {
				distinct[k] = struct{}{}
			}
			for k := range w.states {
				states[k] = struct{}{}
			}
			evals += w.evals
		}
	}
	if !partial && len(h.violations) == 0 {
		for _, wl := range h.prop.Workloads {
			for _, need := range wl.Need {
				if counts[need] == 0 {
					h.inconcl = append(h.inconcl, fmt.Sprintf("workload %s observed no %q", wl.Name, need))
				}
			}
		}
		if len(distinct) == 0 {
			h.inconcl = append(h.inconcl, "no non-trivial case was observed")
		}
	}
	sort.Strings(h.samples)
	sort.Slice(h.violations, func(i, j int) bool {
		a, b := h.violations[i], h.violations[j]
		if a.Workload != b.Workload {
			return a.Workload < b.Workload
		}
		return a.Case < b.Case
	})
	var wls []string
	for _, wl := range h.prop.Workloads {
		wls = append(wls, wl.Name)
	}
	res := map[string]interface{}{
		"property": h.prop.ID, "tier": h.tier, "seed": h.seed, "level": h.prop.Level,
		"violations": h.violations, "inconclusive": h.inconcl, "findings": h.seenFindings,
		"cases": h.cases, "evaluations": evals, "distinct": len(distinct), "states": len(states),
		"counts": counts, "samples": h.samples, "rule": h.prop.Rule, "exhaustive": h.prop.Exhaustive,
		"assumptions": h.prop.Assumptions, "workloads": wls,
	}
	buf, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vmon: ", err)
		os.Exit(2)
	}
	if h.outDir != "" {
		tmp := filepath.Join(h.outDir, "result.tmp")
		if err := os.WriteFile(tmp, buf, 0644); err != nil {
			fmt.Fprintln(os.Stderr, "vmon: ", err)
			os.Exit(2)
		}
		_ = os.Rename(tmp, filepath.Join(h.outDir, "result.json"))
	} else {
		for _, v := range h.violations {
			fmt.Printf("VIOLATION %s#%d: %s\n%s\n%s\n", v.Workload, v.Case, v.What, v.Stack, strings.Join(v.Log, "\n"))
		}
		for _, m := range h.inconcl {
			fmt.Println("INCONCLUSIVE", m)
		}
		var keys []string
		for k := range counts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		fmt.Printf("%s cases=%d evals=%d distinct=%d states=%d\n", h.prop.ID, h.cases, evals, len(distinct), len(states))
		for _, k := range keys {
			fmt.Printf("  %8d %s\n", counts[k], k)
		}
		for k := range h.seenFindings {
			fmt.Println("  finding", k)
		}
	}
	os.Exit(0)
}

// loadKnown reads the known findings of a property.
// Lines look like "finding: property=S12 key=revert what fails".
func loadKnown(path, prop string) map[string]string {
	known := map[string]string{}
	if path == "" {
		return known
	}
	buf, err := os.ReadFile(path)
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(buf), "\n") {
		rest, ok := strings.CutPrefix(line, "finding: ")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) == 3 && f[0] == "property="+prop && strings.HasPrefix(f[1], "key=") {
			known[f[1][4:]] = f[2]
		}
	}
	return known
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

// try runs fn, turning a panic into an error text.
// It returns the empty string if fn returned normally.
func try(fn func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case stop, abort:
				panic(r)
			}
			panicked = fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()), 3000))
		}
	}()
	fn()
	return ""
}
