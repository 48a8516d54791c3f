package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"
)

var addrRE = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+|:\d+ \+`)

func init() {
	register(&Check{ID: "C06", Race: true, Needs: []string{"cold starts", "race-detector processes", "shared scanners", "concurrent calls", "big concurrent scans"}, Run: func(c *Ctx) {
		c.Rule("fresh processes, part of them built with the race detector, whose first calls into the package are made concurrently from behind a barrier (Scan, BuiltinLicenses, NewScanner), then processes that share custom scanners between 12 goroutines next to builders; every call's result is compared with the same call made alone afterwards, and across processes. Every process is a distinct schedule; non-trivial: at least 4 calls in flight")
		want := map[string]string{}
		run := func(label string, n int, race bool, mode string, par int) {
			outs := make([]childOut, n)
			c.each(label, n, par, func(w *W) {
				env := []string{"GOMAXPROCS=" + []string{"8", "2", "4", "16", "3"}[w.Case%5]}
				o := c.runChild(race, 400*time.Second, env, mode, fmt.Sprint(w.R.IntN(1<<30)))
				outs[w.Case] = o
				w.judgeChild(o, race)
				w.Note(true, label, fmt.Sprint(w.Case))
			})
			c.Serial(label+" compared", n, func(w *W) {
				if outs[w.Case].rep == nil {
					return
				}
				for k, d := range outs[w.Case].rep.Results {
					w.Inc("cross-process results", 1)
					if want[k] == "" {
						want[k] = d
					}
					if want[k] != d {
						w.Fail(Violation{Kind: "processes differ", Message: "text " + k, Want: want[k], Got: d})
					}
				}
			})
		}
		run("cold race", c.N(5, 40), true, "cold", 5)
		run("cold", c.N(16, 200), false, "cold", 4)
		run("shared race", c.N(6, 60), true, "shared", 3)
		run("shared", c.N(8, 100), false, "shared", 2)
		run("big race", c.N(2, 20), true, "big-small", 1)
		run("big", c.N(2, 20), false, "big", 1)
		c.Sample("cold", "barrier, then 4-15x Scan, 0-3x BuiltinLicenses, 0-3x NewScanner, all first calls of the process")
	}})
}

// judgeChild reports what a child process saw.
func (w *W) judgeChild(o childOut, race bool) {
	if race {
		w.Inc("race-detector processes", 1)
	}
	w.Inc("processes", 1)
	seen := map[string]bool{}
	for _, r := range o.races {
		w.Inc("race reports", 1)
		key := addrRE.ReplaceAllString(r, "")
		if !strings.Contains(r, "licensecheck") || seen[key] {
			continue
		}
		seen[key] = true
		w.Fail(Violation{Kind: "data race", Message: firstFrames(r), Stack: clip(r, 6000)})
	}
	switch {
	case o.crash != "":
		w.Fail(Violation{Kind: "crash", Message: o.crash, Stack: clip(o.stderr, 4000)})
	case o.err != nil:
		w.Problem("%v", o.err)
	default:
		for _, m := range o.rep.Bad {
			w.Fail(Violation{Kind: "concurrent call differs", Message: m})
		}
		for k, v := range o.rep.Counts {
			w.Inc(k, v)
		}
	}
}

// firstFrames picks the accesses out of a race report.
func firstFrames(r string) string {
	var out []string
	ls := strings.Split(r, "\n")
	for i, l := range ls {
		if strings.Contains(l, "by goroutine") || strings.Contains(l, "by main goroutine") {
			out = append(out, strings.TrimSpace(l))
			for k := i + 1; k < len(ls) && k < i+6; k++ {
				if strings.Contains(ls[k], "licensecheck") {
					out = append(out, strings.TrimSpace(ls[k]))
					break
				}
			}
		}
	}
	return strings.Join(out, "; ")
}
