package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	lc "github.com/google/licensecheck"
)

// A Violation is one refuted case, with everything needed to look at it again.
type Violation struct {
	Property string       `json:"property"`
	Kind     string       `json:"kind"`    // what was violated, stable across runs
	Message  string       `json:"message"` // details
	Label    string       `json:"label"`   // workload
	Case     int          `json:"case"`    // index in the workload
	Seed     int64        `json:"seed"`
	Tier     string       `json:"tier"`
	Licenses []lc.License `json:"licenses,omitempty"` // license set scanned with (absent: built-in)
	TextB64  string       `json:"text_base64,omitempty"`
	Text     string       `json:"text,omitempty"` // readable form of a short text
	Want     string       `json:"want,omitempty"`
	Got      string       `json:"got,omitempty"`
	Stack    string       `json:"stack,omitempty"`
}

// A Report is what a worker process hands to the driver.
type Report struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Rule        string           `json:"rule"`
	Violations  []Violation      `json:"violations"`
	Exhaustive  bool             `json:"exhaustive"`
	Problem     string           `json:"problem,omitempty"` // check could not do its work
}

// A Ctx is the state of one worker run of one check.
type Ctx struct {
	ID      string
	Tier    string
	Seed    int64
	Scratch string // private scratch directory
	Only    string // if set, run only this label:case
	jr      *journal

	evals    atomic.Int64
	mu       sync.Mutex
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []any
	nsample  map[string]int
	viol     []Violation
	kinds    map[string]int
	rule     string
	exhaust  bool
	problem  string

	failed atomic.Int64 // when the first violation was found
}

// Thorough reports whether this is a thorough run.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the size of a workload for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rule states how cases are made and what makes one non-trivial.
func (c *Ctx) Rule(s string) { c.rule = s }

func (c *Ctx) Count(name string, n int) {
	if n == 0 {
		return
	}
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) Problem(format string, args ...any) {
	c.mu.Lock()
	if c.problem == "" {
		c.problem = fmt.Sprintf(format, args...)
	}
	c.mu.Unlock()
}

// Sample records up to three cases per group verbatim for the evidence file.
func (c *Ctx) Sample(group string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.nsample[group] >= 2 || len(c.samples) >= 16 {
		return
	}
	c.nsample[group]++
	if s, ok := v.(string); ok && len(s) > 600 {
		v = s[:600] + "…"
	}
	c.samples = append(c.samples, map[string]any{"workload": group, "case": v})
}

// stopped reports whether enough violations were found to stop.
func (c *Ctx) stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 12
}

// late reports whether a violation was found a while ago: what fails slowly
// need not fail often.
func (c *Ctx) late() bool {
	t := c.failed.Load()
	return t != 0 && time.Since(time.Unix(0, t)) > 40*time.Second
}

// A W is one case being run.
type W struct {
	*Ctx
	Label string
	Case  int
	R     *rand.Rand
	slot  int
	loc   map[string]int64
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff})
	}
	return h.Sum64()
}

func (c *Ctx) rng(label string, i int) *rand.Rand {
	a := hash64(label, fmt.Sprint(c.Seed))
	return rand.New(rand.NewPCG(a, uint64(i)*0x9E3779B97F4A7C15+a>>7))
}

// Inc counts without locking; totals are merged when the case ends.
func (w *W) Inc(name string, n int) {
	if n != 0 {
		w.loc[name] += int64(n)
	}
}

// Note counts a case (an evaluation) with the given identity; nontrivial says
// whether it exercised what the check is about.
func (w *W) Note(nontrivial bool, identity ...string) {
	w.evals.Add(1)
	if nontrivial {
		h := hash64(identity...)
		w.mu.Lock()
		w.distinct[h] = struct{}{}
		w.mu.Unlock()
	}
}

// Fail records a violation.
func (w *W) Fail(v Violation) {
	v.Property, v.Label, v.Case, v.Seed, v.Tier = w.ID, w.Label, w.Case, w.Seed, w.Tier
	w.Ctx.mu.Lock()
	defer w.Ctx.mu.Unlock()
	w.kinds[v.Kind]++
	w.failed.CompareAndSwap(0, time.Now().UnixNano())
	if w.kinds[v.Kind] > 3 {
		return
	}
	w.viol = append(w.viol, v)
}

// FailText records a violation about scanning text with a license set.
func (w *W) FailText(kind string, set []lc.License, text []byte, format string, args ...any) {
	v := Violation{Kind: kind, Message: fmt.Sprintf(format, args...), TextB64: base64.StdEncoding.EncodeToString(text)}
	if len(text) < 4000 {
		v.Text = string(text)
	} else if len(text) > 1<<20 {
		v.TextB64 = ""
		v.Message += fmt.Sprintf(" [text of %d bytes; rerun with --only %s:%d]", len(text), w.Label, w.Case)
	}
	if len(set) < 50 {
		v.Licenses = set
	} else {
		v.Message += fmt.Sprintf(" [set of %d licenses; rerun with --only %s:%d]", len(set), w.Label, w.Case)
	}
	w.Fail(v)
}

// Each runs n cases of a workload in parallel, each with its own generator
// seeded from the run seed, the label and the case number.
func (c *Ctx) Each(label string, n int, f func(w *W)) { c.each(label, n, runtime.NumCPU(), f) }

// Serial is Each on one goroutine.
func (c *Ctx) Serial(label string, n int, f func(w *W)) { c.each(label, n, 1, f) }

func (c *Ctx) each(label string, n, par int, f func(w *W)) {
	only := -1
	if c.Only != "" {
		l, i, _ := strings.Cut(c.Only, ":")
		if l != label {
			return
		}
		fmt.Sscan(i, &only)
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for slot := 0; slot < par; slot++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			w := &W{Ctx: c, Label: label, slot: slot, loc: map[string]int64{}}
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					break
				}
				if only >= 0 && i != only {
					continue
				}
				if i%64 == 0 && c.stopped() || c.late() {
					break
				}
				w.Case, w.R = i, c.rng(label, i)
				c.jr.enter(slot, label, i)
				w.run(f)
			}
			c.jr.leave(slot)
			c.mu.Lock()
			for k, v := range w.loc {
				c.counters[k] += v
			}
			c.mu.Unlock()
		}(slot)
	}
	wg.Wait()
}

func (w *W) run(f func(w *W)) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if fromTarget(st) {
				w.Fail(Violation{Kind: "panic", Message: fmt.Sprint(e), Stack: clip(st, 4000)})
				return
			}
			w.Problem("harness panic in %s:%d: %v\n%s", w.Label, w.Case, e, clip(st, 4000))
		}
	}()
	f(w)
}

// fromTarget reports whether a panic trace has the code under test between the
// panic and the harness (and not only the harness).
func fromTarget(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "vh/") {
			return false
		}
		if strings.HasPrefix(l, "github.com/google/licensecheck") {
			return true
		}
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Ctx) report() *Report {
	c.mu.Lock()
	defer c.mu.Unlock()
	sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].Case < c.viol[j].Case && c.viol[i].Label == c.viol[j].Label })
	return &Report{
		Evaluations: c.evals.Load(), Distinct: int64(len(c.distinct)), Counters: c.counters, Samples: c.samples,
		Rule: c.rule, Violations: c.viol, Exhaustive: c.exhaust, Problem: c.problem,
	}
}

func newCtx(id, tier string, seed int64, only, jpath string) (*Ctx, error) {
	j, err := openJournal(jpath)
	if err != nil {
		return nil, err
	}
	scratch, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		return nil, err
	}
	return &Ctx{ID: id, Tier: tier, Seed: seed, Only: only, jr: j, Scratch: scratch,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, nsample: map[string]int{}, kinds: map[string]int{}}, nil
}

func writeJSON(path string, v any) error {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o777); err != nil {
		return err
	}
	return os.WriteFile(path, append(data, '\n'), 0o666)
}
