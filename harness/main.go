// Command vh drives the run-time monitors for google/licensecheck.
//
//	vh check ID      run the check of property ID (driver: starts a worker)
//	vh worker ID …   the worker process that executes the workloads
//	vh replay FILE   run the scan recorded in a replay file again
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	lc "github.com/google/licensecheck"
)

// A Check is one registered property check.
type Check struct {
	ID    string
	Race  bool // needs the binary built with the race detector
	Run   func(c *Ctx)
	Needs []string // counters that must be non-zero for a run to count as having observed anything
}

var checks = map[string]*Check{}

func register(ch *Check) { checks[ch.ID] = ch }

const verifDir = "/verif"

func root() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return verifDir
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "check":
		os.Exit(drive(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	case "child":
		child(os.Args[2:])
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vh check ID | worker ID | replay FILE | list")
	os.Exit(2)
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	only := fs.String("only", "", "")
	out := fs.String("out", "", "")
	jpath := fs.String("journal", "", "")
	fs.Parse(args)
	ch := checks[*id]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *id)
		os.Exit(2)
	}
	c, err := newCtx(*id, *tier, *seed, *only, *jpath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	go watchMemory()
	ch.Run(c)
	os.RemoveAll(c.Scratch)
	rep := c.report()
	if *only == "" && len(rep.Violations) == 0 && rep.Problem == "" {
		for _, n := range ch.Needs {
			if rep.Counters[n] == 0 {
				rep.Problem = "observed nothing: counter " + n + " is zero"
			}
		}
		if rep.Evaluations == 0 {
			rep.Problem = "no evaluations"
		}
	}
	if *out != "" {
		if err := writeJSON(*out, rep); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		json.NewEncoder(os.Stdout).Encode(rep)
	}
}

// outcome of one worker process.
type outcome struct {
	rep    *Report
	err    error
	stderr string
	active []string // label:case running when it ended abnormally
	hung   string   // label:case that made no progress
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 400000 { // keep the head (first report) and drop the rest
		t.b = t.b[:400000]
	}
	return len(p), nil
}

func procCPU(pid int) time.Duration {
	data, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(data, ')')
	f := strings.Fields(string(data[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	s, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+s) * (time.Second / 100)
}

// runWorker runs a worker and watches its progress. limit is the CPU time a
// single case may use without the worker moving on before it is called hung.
func runWorker(ch *Check, tier string, seed int64, only, dir string, limit time.Duration) outcome {
	exe, _ := os.Executable()
	out := filepath.Join(dir, "report.json")
	jpath := filepath.Join(dir, "journal")
	os.Remove(out)
	os.Remove(jpath)
	cmd := exec.Command(exe, "worker", "-id", ch.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-out", out, "-journal", jpath, "-only", only)
	var stderr tail
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "TMPDIR="+dir)
	j, err := openJournal(jpath)
	if err != nil {
		return outcome{err: err}
	}
	if err := cmd.Start(); err != nil {
		return outcome{err: err}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	type mark struct {
		what string
		cpu  time.Duration
		at   time.Time
	}
	marks := map[int]mark{}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	o := outcome{}
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			cpu := procCPU(cmd.Process.Pid)
			running := 0
			for s := 0; s < jslots; s++ {
				if _, _, ok := j.read(s); ok {
					running++
				}
			}
			for s := 0; s < jslots; s++ {
				l, i, ok := j.read(s)
				what := ""
				if ok {
					what = fmt.Sprintf("%s:%d", l, i)
				}
				m, seen := marks[s]
				if !seen || m.what != what {
					marks[s] = mark{what, cpu, time.Now()}
					continue
				}
				// All slots share the CPU time: allow each its part.
				if ok && cpu-m.cpu > limit*time.Duration(max(1, running)) && time.Since(m.at) > limit/2 {
					o.hung = what
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					<-done
					break loop
				}
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	o.stderr = string(stderr.b)
	if o.hung != "" {
		return o
	}
	data, err := os.ReadFile(out)
	if err == nil && werr == nil {
		o.rep = new(Report)
		if err := json.Unmarshal(data, o.rep); err != nil {
			o.err = err
			o.rep = nil
		}
		return o
	}
	if werr == nil {
		werr = fmt.Errorf("worker wrote no report")
	}
	o.err = werr
	for s := 0; s < jslots; s++ {
		if l, i, ok := j.read(s); ok {
			o.active = append(o.active, fmt.Sprintf("%s:%d", l, i))
		}
	}
	return o
}

var crashRE = regexp.MustCompile(`(?m)^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|SIG[A-Z]+: .*|unexpected fault address.*|vh: memory limit.*)$`)

// crashed reports whether a worker's output shows that the code under test
// (and not the harness around it) brought the process down.
func crashed(stderr string) (string, bool) {
	m := crashRE.FindString(stderr)
	if m == "" {
		return "", false
	}
	any := strings.HasPrefix(m, "vh: memory")
	for _, b := range strings.Split(stderr, "\n\n") {
		if !any && !strings.Contains(b, "[running") {
			continue
		}
		for _, l := range strings.Split(b, "\n") {
			if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "vh/") {
				break
			}
			if strings.HasPrefix(l, "github.com/google/licensecheck") {
				return m, true
			}
		}
	}
	return m, false
}

// drive runs a check and returns the exit status.
func drive(args []string) int {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	only := fs.String("only", "", "run only this workload:case")
	fs.Parse(args)
	if fs.NArg() != 1 || checks[fs.Arg(0)] == nil {
		usage()
	}
	ch := checks[fs.Arg(0)]
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	dir, err := os.MkdirTemp("", "vh-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)

	limit := 60 * time.Second
	o := runWorker(ch, *tier, seed, *only, dir, limit)
	var viols []Violation
	var rep *Report
	problem := ""
	switch {
	case o.rep != nil:
		rep = o.rep
		viols = rep.Violations
		problem = rep.Problem
	case o.hung != "":
		// Confirm on its own in a fresh process before calling it a hang.
		o2 := runWorker(ch, *tier, seed, o.hung, dir, limit)
		switch {
		case o2.hung != "":
			viols = append(viols, mkViol(ch, *tier, seed, o.hung, "does not return", fmt.Sprintf("no result after %v of CPU time, twice", limit), ""))
		case o2.rep != nil && len(o2.rep.Violations) > 0:
			rep, viols = o2.rep, o2.rep.Violations
		default:
			if m, ok := crashed(o2.stderr); ok {
				viols = append(viols, mkViol(ch, *tier, seed, o.hung, "crash", m, o2.stderr))
			} else {
				problem = "case " + o.hung + " was slow in the full run but not on its own"
			}
		}
	default:
		m, ok := crashed(o.stderr)
		if !ok {
			problem = fmt.Sprintf("worker failed: %v\n%s", o.err, clip(o.stderr, 6000))
			break
		}
		where := strings.Join(o.active, " ")
		for _, a := range o.active {
			if a == "" || len(o.active) > 40 {
				continue
			}
			o2 := runWorker(ch, *tier, seed, a, dir, limit)
			if o2.rep == nil || len(o2.rep.Violations) > 0 {
				where = a
				break
			}
		}
		viols = append(viols, mkViol(ch, *tier, seed, where, "crash", m, o.stderr))
	}
	if rep == nil {
		rep = &Report{Counters: map[string]int64{}, Rule: "run ended abnormally; see violations", Samples: []any{}}
	}
	if rep.Samples == nil {
		rep.Samples = []any{}
	}

	known := loadKnown(ch.ID)
	var fresh []Violation
	printed := map[string]bool{}
	for _, v := range viols {
		if d, ok := known[v.Kind]; ok {
			if !printed[v.Kind] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, d)
				printed[v.Kind] = true
			}
			continue
		}
		fresh = append(fresh, v)
	}
	paths := []string{}
	for i, v := range fresh {
		p := filepath.Join(root(), "out", fmt.Sprintf("%s-%d.json", ch.ID, i))
		if err := writeJSON(p, v); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		paths = append(paths, p)
	}
	cov := map[string]any{
		"evaluations":         rep.Evaluations,
		"distinct_nontrivial": rep.Distinct,
		"rule":                rep.Rule,
		"samples":             rep.Samples,
		"observed":            rep.Counters,
	}
	if rep.Exhaustive {
		cov["exhaustive"] = true
	}
	ev := map[string]any{
		"property": ch.ID, "tier": *tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
	}
	if *only == "" {
		if err := writeJSON(filepath.Join(root(), "evidence", ch.ID+".json"), ev); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(fresh) > 0 {
		for i, v := range fresh {
			fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, paths[i])
			fmt.Printf("  %s (%s:%d): %s\n", v.Kind, v.Label, v.Case, clip(v.Message, 600))
			if v.Want != "" || v.Got != "" {
				fmt.Printf("  want %s\n  got  %s\n", clip(v.Want, 400), clip(v.Got, 400))
			}
		}
		return 1
	}
	if problem != "" {
		fmt.Fprintf(os.Stderr, "INCONCLUSIVE property=%s: %s\n", ch.ID, problem)
		return 3
	}
	fmt.Printf("ok property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", ch.ID, *tier, rep.Evaluations, rep.Distinct, time.Since(t0).Seconds())
	var names []string
	for k := range rep.Counters {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  %-40s %d\n", k, rep.Counters[k])
	}
	return 0
}

func mkViol(ch *Check, tier string, seed int64, where, kind, msg, stderr string) Violation {
	v := Violation{Property: ch.ID, Kind: kind, Message: msg + " [" + where + "]", Seed: seed, Tier: tier, Stack: clip(stderr, 20000)}
	if l, i, ok := strings.Cut(where, ":"); ok {
		v.Label = l
		v.Case, _ = strconv.Atoi(strings.Fields(i + " ")[0])
	}
	return v
}

// loadKnown reads the findings recorded for a property: lines
//
//	finding: property=<id> kind=<kind with _ for spaces> <what fails>
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	data, err := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "kind=") {
			continue
		}
		m[strings.ReplaceAll(f[2][5:], "_", " ")] = strings.Join(f[3:], " ")
	}
	return m
}

// replay runs a recorded scan again and prints what it gives now.
func replay(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s: %s: %s\nrerun the case: VERIF_SEED=%d ./check.sh %s %s --only %s:%d\n", v.Property, v.Kind, v.Message, v.Seed, v.Property, v.Tier, v.Label, v.Case)
	if v.TextB64 == "" {
		return
	}
	text, _ := base64.StdEncoding.DecodeString(v.TextB64)
	list := v.Licenses
	if list == nil {
		list = lc.BuiltinLicenses()
	}
	s, err := lc.NewScanner(list)
	if err != nil {
		fmt.Println("NewScanner:", err)
		return
	}
	fmt.Printf("text (%d bytes): %q\n", len(text), clip(string(text), 2000))
	fmt.Printf("scan: %+v\n", s.Scan(text))
	if set, err := refSet(list); err == nil {
		r := set.Scan(text)
		fmt.Printf("model: %v%% %+v\n", r.Percent, r.Matches)
	}
}
