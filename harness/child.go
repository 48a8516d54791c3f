package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	lc "github.com/google/licensecheck"
)

// A ChildReport is what a child process prints on its standard output.
type ChildReport struct {
	Results map[string]string `json:"results,omitempty"` // text key -> digest of its Coverage
	Bad     []string          `json:"bad,omitempty"`     // violations seen by the child
	Counts  map[string]int    `json:"counts,omitempty"`
}

func digest(c lc.Coverage) string {
	return show(c.Match, c.Percent) + fmt.Sprintf(" %x", hash64(fmt.Sprint(c)))
}

// child runs a scenario in a fresh process.
func child(args []string) {
	var seed int64
	var mode string
	fmt.Sscan(args[0], &mode)
	fmt.Sscan(args[1], &seed)
	r := rand.New(rand.NewPCG(uint64(seed), 77))
	rep := &ChildReport{Results: map[string]string{}, Counts: map[string]int{}}
	switch mode {
	case "digests":
		childDigests(r, rep)
	case "mutate-first":
		childMutateFirst(r, rep)
	case "cold":
		childCold(r, rep)
	case "shared":
		childShared(r, rep)
	case "old":
		childOld(r, rep, 6)
	case "big":
		childBig(r, rep, 2_500_000)
	case "big-small":
		childBig(r, rep, 700_000)
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

type childOut struct {
	rep    *ChildReport
	races  []string
	crash  string // crash with frames of the code under test
	err    error  // anything else
	stderr string
}

// runChild starts a child; race selects the binary built with the race detector.
func (c *Ctx) runChild(race bool, timeout time.Duration, env []string, args ...string) childOut {
	exe, _ := os.Executable()
	if race {
		exe = filepath.Join(filepath.Dir(exe), "vh-race")
	}
	dir, err := os.MkdirTemp(c.Scratch, "child-")
	if err != nil {
		return childOut{err: err}
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(exe, append([]string{"child"}, args...)...)
	var out bytes.Buffer
	var errb tail
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return childOut{err: err}
	}
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	o := childOut{stderr: string(errb.b)}
	if !timer.Stop() {
		o.err = fmt.Errorf("child timed out")
		return o
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race*"))
	for _, l := range logs {
		data, _ := os.ReadFile(l)
		for _, b := range strings.Split(string(data), "==================") {
			if strings.Contains(b, "WARNING: DATA RACE") {
				o.races = append(o.races, b)
			}
		}
	}
	if err != nil {
		if m, ok := crashed(o.stderr); ok {
			o.crash = m
		} else {
			o.err = fmt.Errorf("child: %v: %s", err, clip(o.stderr, 2000))
		}
		return o
	}
	o.rep = new(ChildReport)
	if err := json.Unmarshal(out.Bytes(), o.rep); err != nil {
		o.err = fmt.Errorf("child output: %v", err)
	}
	return o
}

// childTexts is the fixed list of texts that children scan (the same in every
// process).
func childTexts(n int) [][]byte {
	r := rand.New(rand.NewPCG(4, 4))
	cp := corpus()
	var out [][]byte
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0, 1:
			out = append(out, cp[(i*37)%len(cp)])
		case 2:
			out = append(out, mutateBytes(r, cp[(i*53)%len(cp)], 8))
		case 3:
			t := hostileText(r, 30) + " http://opensource.org/licenses/mit "
			out = append(out, []byte(t))
		}
	}
	return out
}

// childDigests scans the texts in a random order and prints all results.
func childDigests(r *rand.Rand, rep *ChildReport) {
	texts := childTexts(120)
	scan := lc.Scan
	if r.IntN(2) == 0 {
		s, err := lc.NewScanner(lc.BuiltinLicenses())
		if err != nil {
			rep.Bad = append(rep.Bad, "NewScanner(BuiltinLicenses()): "+err.Error())
			return
		}
		scan = s.Scan
	}
	for _, i := range r.Perm(len(texts)) {
		rep.Results[fmt.Sprint(i)] = digest(scan(texts[i]))
		rep.Counts["scans"]++
		if r.IntN(4) == 0 { // repeat some, and scan others in between
			scan(texts[r.IntN(len(texts))])
			if d := digest(scan(texts[i])); d != rep.Results[fmt.Sprint(i)] {
				rep.Bad = append(rep.Bad, fmt.Sprintf("text %d: %s, then %s", i, rep.Results[fmt.Sprint(i)], d))
			}
		}
	}
	// Custom scanners with spelling neighbours: the same in every process.
	rr := rand.New(rand.NewPCG(9, 9))
	p := modelProfiles()["spelling"]
	for i := 0; i < 60; i++ {
		x := newWorld(rr, &p)
		s, err := lc.NewScanner(x.List)
		if err != nil {
			rep.Bad = append(rep.Bad, "NewScanner: "+err.Error())
			continue
		}
		for k := 0; k < 6; k++ {
			rep.Results[fmt.Sprintf("custom %d.%d", i, k)] = digest(s.Scan(x.text(rr)))
			rep.Counts["scans"]++
		}
	}
}

// childMutateFirst scribbles over lists from BuiltinLicenses before the first
// Scan and then scans.
func childMutateFirst(r *rand.Rand, rep *ChildReport) {
	for k := 0; k < 3; k++ {
		l := lc.BuiltinLicenses()
		scribble(r, l)
		scribble(r, l[:cap(l)])
	}
	texts := childTexts(120)
	// Scanners of a caller's own made from such lists, changed.
	for _, k := range []int{0, 1 + r.IntN(3)} {
		l := lc.BuiltinLicenses()
		switch k {
		case 0: // same IDs, other patterns
			for i := range l {
				if l[i].LRE != "" {
					l[i].LRE = lits(foreignN(r, 4)...) + fmt.Sprintf(" zqz%s", safeWord(i))
				}
			}
		case 1: // same patterns, other IDs and Types
			for i := range l {
				l[i].ID, l[i].Type = "own-"+l[i].ID, l[i].Type^lc.Notice
			}
		case 2: // the patterns of others, in another order
			for i := range l {
				if j := r.IntN(len(l)); l[i].LRE != "" && l[j].LRE != "" {
					l[i].LRE, l[j].LRE = l[j].LRE, l[i].LRE
				}
			}
		case 3: // other addresses
			for i := range l {
				if l[i].URL != "" {
					l[i].URL, l[i].ID = "zqzq.org/"+l[i].ID, l[r.IntN(len(l))].ID
				}
			}
		}
		s, err := lc.NewScanner(l)
		if err != nil {
			rep.Bad = append(rep.Bad, fmt.Sprintf("changed list (%d) rejected: %v", k, err))
			continue
		}
		rep.Counts["own scanners"]++
		s.Scan(texts[r.IntN(len(texts))])
	}
	for i, t := range texts {
		rep.Results[fmt.Sprint(i)] = digest(lc.Scan(t))
		rep.Counts["scans"]++
		if i%10 == 0 {
			scribble(r, lc.BuiltinLicenses())
		}
	}
}

func scribble(r *rand.Rand, l []lc.License) {
	for i := range l {
		switch r.IntN(4) {
		case 0:
			l[i] = lc.License{}
		case 1:
			l[i] = lc.License{ID: "scribble", Type: 3, LRE: "((", URL: "x"}
		case 2:
			j := r.IntN(len(l))
			l[i], l[j] = l[j], l[i]
		case 3:
			l[i].ID, l[i].LRE, l[i].URL, l[i].Type = l[i].ID+"x", "aaa bbb", l[i].URL+"x", l[i].Type^1
		}
	}
}

// barrier runs all functions at the same moment in their own goroutines.
func barrier(fs []func()) {
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			f()
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
}

type call struct {
	what string
	res  string
	want func() string // run alone afterwards
}

func showList(l []lc.License) string {
	var b strings.Builder
	for _, x := range l {
		fmt.Fprintf(&b, "%s|%v|%s|%s\n", x.ID, x.Type, x.LRE, x.URL)
	}
	return fmt.Sprintf("%d licenses %x", len(l), hash64(b.String()))
}

// childCold makes its very first calls into the package concurrently.
func childCold(r *rand.Rand, rep *ChildReport) {
	cp := corpus()
	var calls []*call
	var fs []func()
	var mu sync.Mutex
	add := func(what string, f func() string, alone func() string) {
		c := &call{what: what, want: alone}
		calls = append(calls, c)
		fs = append(fs, func() {
			defer func() {
				if e := recover(); e != nil {
					c.res = fmt.Sprint("panic: ", e)
				}
				mu.Lock()
				rep.Counts["concurrent calls"]++
				mu.Unlock()
			}()
			c.res = f()
		})
	}
	n := 4 + r.IntN(12)
	for i := 0; i < n; i++ {
		t := pick(r, cp)
		if r.IntN(4) == 0 {
			t = []byte(hostileText(r, 20))
		}
		f := func() string { return digest(lc.Scan(t)) }
		add("Scan", f, f)
	}
	for i := r.IntN(4); i > 0; i-- {
		f := func() string { return showList(lc.BuiltinLicenses()) }
		add("BuiltinLicenses", f, f)
	}
	if r.IntN(2) == 0 {
		t := pick(r, cp)
		f := func() string {
			l := lc.BuiltinLicenses()
			s, err := lc.NewScanner(append(append([]lc.License{}, l[:60]...), l[len(l)-60:]...))
			if err != nil {
				return err.Error()
			}
			return digest(s.Scan(t))
		}
		add("NewScanner", f, f)
	}
	for i := r.IntN(3); i > 0; i-- {
		p := modelProfiles()["spelling"]
		x := newWorld(r, &p)
		t := x.text(r)
		f := func() string {
			s, err := lc.NewScanner(x.List)
			if err != nil {
				return err.Error()
			}
			return digest(s.Scan(t))
		}
		add("NewScanner", f, f)
	}
	r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	barrier(fs)
	for _, c := range calls {
		if want := c.want(); want != c.res {
			rep.Bad = append(rep.Bad, fmt.Sprintf("%s gave %s concurrently, %s alone", c.what, clip(c.res, 300), clip(want, 300)))
		}
	}
	rep.Counts["cold starts"]++
	// A fixed set of results to compare across processes.
	for i, t := range childTexts(24) {
		rep.Results[fmt.Sprint(i)] = digest(lc.Scan(t))
	}
}

// childShared shares custom scanners between goroutines.
func childShared(r *rand.Rand, rep *ChildReport) {
	var mu sync.Mutex
	for round := 0; round < 8; round++ {
		p := modelProfiles()[profileOrder[round%len(profileOrder)]]
		p.NLic = [2]int{2, 8}
		p.PURL = 0.5
		x := newWorld(r, &p)
		var s *lc.Scanner
		var err error
		if s, err = lc.NewScanner(x.List); err != nil {
			rep.Bad = append(rep.Bad, "NewScanner: "+err.Error())
			continue
		}
		var texts [][]byte
		for i := 0; i < 24; i++ {
			texts = append(texts, x.text(r))
		}
		// Half of the rounds start the shared scanner cold.
		want := make([]string, len(texts))
		if round%2 == 0 {
			for i, t := range texts {
				want[i] = digest(s.Scan(t))
			}
		} else {
			s2, err := lc.NewScanner(x.List)
			if err != nil {
				rep.Bad = append(rep.Bad, "NewScanner: "+err.Error())
				continue
			}
			for i, t := range texts {
				want[i] = digest(s2.Scan(t))
			}
		}
		var fs []func()
		for g := 0; g < 12; g++ {
			gr := rand.New(rand.NewPCG(uint64(round), uint64(g)))
			fs = append(fs, func() {
				for k := 0; k < 60; k++ {
					i := gr.IntN(len(texts))
					d := digest(s.Scan(texts[i]))
					mu.Lock()
					rep.Counts["concurrent calls"]++
					if d != want[i] && len(rep.Bad) < 5 {
						rep.Bad = append(rep.Bad, fmt.Sprintf("shared scanner: %s, alone %s; licenses %q text %q", clip(d, 300), clip(want[i], 300), clipList(x.List), clip(string(texts[i]), 300)))
					}
					mu.Unlock()
				}
			})
		}
		for g := 0; g < 2; g++ { // builders next to the scanners
			i := r.IntN(len(texts))
			fs = append(fs, func() {
				for k := 0; k < 4; k++ {
					s2, err := lc.NewScanner(x.List)
					if err != nil {
						mu.Lock()
						rep.Bad = append(rep.Bad, "NewScanner: "+err.Error())
						mu.Unlock()
						return
					}
					d := digest(s2.Scan(texts[i]))
					l := ""
					if k == 0 {
						l = showList(lc.BuiltinLicenses()[:200])
					}
					mu.Lock()
					rep.Counts["concurrent calls"] += 3
					rep.Counts["lists"]++
					if rep.Results["list"] == "" && l != "" {
						rep.Results["list"] = l
					}
					if d != want[i] || l != "" && l != rep.Results["list"] {
						rep.Bad = append(rep.Bad, fmt.Sprintf("fresh scanner next to others: %s, alone %s; list %s", clip(d, 300), clip(want[i], 300), l))
					}
					mu.Unlock()
				}
			})
		}
		barrier(fs)
		rep.Counts["shared scanners"]++
	}
	rep.Results = nil
}

// childBig scans texts far larger than any license from many goroutines, with
// the built-in and with a custom scanner: long texts with long word lists and
// long match lists, of different sizes, so that any memory shared between
// calls is in use by several of them at a time.
func childBig(r *rand.Rand, rep *ChildReport, max int) {
	cp := corpus()
	urls := lc.BuiltinLicenses()
	mk := func(size, period int) []byte {
		var b strings.Builder
		for b.Len() < size {
			switch r.IntN(period) {
			case 0:
				b.Write(cp[r.IntN(len(cp))])
			case 1, 2:
				if u := urls[r.IntN(len(urls))].URL; u != "" {
					b.WriteString(" see https://" + u + " ")
				} else {
					b.WriteString(" see http://opensource.org/licenses/mit ")
				}
			default:
				b.WriteString("\n" + strings.Join(foreignN(r, 20+r.IntN(200)), " ") + "\n")
			}
		}
		return []byte(b.String())
	}
	var texts [][]byte
	for size := 70_000; size <= max; size = size*5/3 + r.IntN(size/4) {
		texts = append(texts, mk(size, 3), mk(size*9/10, 12))
	}
	custom, err := lc.NewScanner([]lc.License{
		{ID: "A", LRE: "permission is hereby granted"}, {ID: "B", LRE: "redistribution and use in source"},
		{ID: "C", LRE: "the copyright holders"}, {ID: "U", URL: "opensource.org/licenses/mit"}})
	if err != nil {
		rep.Bad = append(rep.Bad, "NewScanner: "+err.Error())
		return
	}
	scans := []func([]byte) lc.Coverage{lc.Scan, custom.Scan}
	type job struct{ s, t int }
	first := map[job]string{}
	var jobs []job
	for s := range scans {
		for t := range texts {
			jobs = append(jobs, job{s, t})
			c := scans[s](texts[t])
			rep.Counts["matches in big texts"] += len(c.Match)
			first[job{s, t}] = digest(c)
		}
	}
	var mu sync.Mutex
	var fs []func()
	for g := 0; g < 8; g++ {
		order := r.Perm(len(jobs))
		fs = append(fs, func() {
			for _, k := range order {
				j := jobs[k]
				c := scans[j.s](texts[j.t])
				d := digest(c)
				mu.Lock()
				rep.Counts["concurrent calls"]++
				rep.Counts["big concurrent scans"]++
				if d != first[j] && len(rep.Bad) < 5 {
					rep.Bad = append(rep.Bad, fmt.Sprintf("scanner %d, text of %d bytes: %s alone, %s concurrently", j.s, len(texts[j.t]), clip(first[j], 300), clip(d, 300)))
				}
				mu.Unlock()
			}
		})
	}
	barrier(fs)
	for j, d := range first { // and alone again
		if got := digest(scans[j.s](texts[j.t])); got != d {
			rep.Bad = append(rep.Bad, fmt.Sprintf("scanner %d, text of %d bytes: %s at first, %s later", j.s, len(texts[j.t]), clip(d, 300), clip(got, 300)))
		}
	}
	rep.Results = nil
}
