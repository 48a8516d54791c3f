package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/google/licensecheck/old"
)

// oldCov is a Coverage and boolean of the old package, as text.
func oldCov(ck *old.Checker, t []byte, o old.Options) string {
	cov, ok := ck.Cover(t, o)
	return oldShow(cov, ok)
}

func oldShow(cov old.Coverage, ok bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %v%%", ok, cov.Percent)
	for _, m := range cov.Match {
		fmt.Fprintf(&b, " %q/%d/%v[%d:%d]%v", m.Name, m.Type, m.Percent, m.Start, m.End, m.IsURL)
	}
	return b.String()
}

// guardedCover is Cover on buf; a memory fault is reported.
func guardedCover(ck *old.Checker, buf []byte, o old.Options) (res, fault string) {
	defer func() {
		if e := recover(); e != nil {
			fault = fmt.Sprint(e) + "\n" + clip(string(debug.Stack()), 3000)
		}
	}()
	debug.SetPanicOnFault(true)
	return oldCov(ck, buf, o), ""
}

func oldScribble(r *rand.Rand, l []old.License) {
	for i := range l {
		switch r.IntN(3) {
		case 0:
			l[i] = old.License{}
		case 1:
			l[i] = old.License{Name: "scribble", Text: "permission hereby granted copyright notice software source binary the of and", URL: "example.org/x"}
		case 2:
			l[i].Name, l[i].URL = l[i].Name+"x", l[i].URL+"x"
		}
	}
}

// childOld shares old Checkers between goroutines, next to builders.
func childOld(r *rand.Rand, rep *ChildReport, rounds int) {
	w := &W{Ctx: &Ctx{ID: "C33", counters: map[string]int64{}}, R: r, loc: map[string]int64{}}
	var mu sync.Mutex
	for round := 0; round < rounds; round++ {
		x := oldMk(w, round%2 == 0)
		var texts [][]byte
		var opts []old.Options
		var want []string
		for i := 0; i < 24; i++ {
			t := []byte(x.text(w))
			if i == 0 && round%3 == 0 { // a text far larger than the others
				for len(t) < 60_000 {
					t = append(t, x.text(w)...)
				}
			}
			texts, opts = append(texts, t), append(opts, oldOptions(w))
			want = append(want, oldCov(old.New(x.list), t, opts[i]))
		}
		var fs []func()
		for g := 0; g < 8; g++ {
			gr := rand.New(rand.NewPCG(uint64(round), uint64(g)))
			fs = append(fs, func() {
				for k := 0; k < 30; k++ {
					i := gr.IntN(len(texts))
					ck := x.ck
					if k%10 == 9 {
						ck = old.New(x.list)
					}
					if k%10 == 5 {
						oldScribble(gr, old.BuiltinLicenses())
					}
					res := oldCov(ck, texts[i], opts[i])
					mu.Lock()
					rep.Counts["concurrent old calls"]++
					if res != want[i] && len(rep.Bad) < 5 {
						rep.Bad = append(rep.Bad, fmt.Sprintf("shared Checker: %s, alone %s; text %q", clip(res, 400), clip(want[i], 400), clip(string(texts[i]), 300)))
					}
					mu.Unlock()
				}
			})
		}
		barrier(fs)
		rep.Counts["shared old Checkers"]++
	}
	// Results for comparison across processes.
	w.R = rand.New(rand.NewPCG(33, 33))
	for k := 0; k < 60; k++ {
		x := oldMk(w, k%2 == 0)
		for i := 0; i < 4; i++ {
			t, o := []byte(x.text(w)), oldOptions(w)
			rep.Results[fmt.Sprintf("%d.%d", k, i)] = oldCov(x.ck, t, o)
		}
	}
}

func init() {
	register(&Check{ID: "C33", Race: true, Needs: []string{"old history steps", "old Checkers built", "old lists changed", "guarded old calls", "old buffers changed", "race-detector processes", "concurrent old calls", "shared old Checkers", "cross-process results", "old matches in histories"}, Run: func(c *Ctx) {
		c.Rule("histories of New / Cover / caller-side changes over several lists, texts and Options of package old: every result is compared with the one a Checker of its own gives; inputs lie in read-only memory between inaccessible pages, have spare capacity that would complete a license, and are overwritten after the call while earlier results are read again; fresh processes, some with the race detector, share Checkers between goroutines and are compared with each other. Non-trivial: a step whose text has a match")
		c.Each("histories", c.N(1500, 60000), func(w *W) {
			var ws []*oldWorld
			for i := 1 + w.R.IntN(3); i > 0; i-- {
				ws = append(ws, oldMk(w, w.R.IntN(2) == 0))
			}
			type key struct {
				l, t int
				o    old.Options
			}
			var texts [][]byte
			for i := 0; i < 6; i++ {
				t := []byte(pick(w.R, ws).text(w))
				texts = append(texts, t)
				if len(t) > 4 {
					v := append([]byte(nil), t...)
					v[w.R.IntN(len(v))] = "abxz \n"[w.R.IntN(6)]
					texts = append(texts, v, t[:len(t)-1-w.R.IntN(len(t)/2)])
				}
			}
			opts := []old.Options{{}, oldOptions(w), oldOptions(w)}
			want := map[key]string{}
			type inst struct {
				l  int
				ck *old.Checker
			}
			var insts []inst
			type kept struct {
				cov old.Coverage
				ok  bool
				was string
			}
			var keep []kept
			buf := make([]byte, 0, 1<<12)
			for step := 0; step < 40; step++ {
				w.Inc("old history steps", 1)
				if len(insts) == 0 || w.R.IntN(8) == 0 {
					l := w.R.IntN(len(ws))
					arg := append(make([]old.License, 0, len(ws[l].list)+2), ws[l].list...)
					ck := old.New(arg)
					w.Inc("old Checkers built", 1)
					if w.R.IntN(2) == 0 {
						oldScribble(w.R, arg[:cap(arg)])
						w.Inc("old lists changed", 1)
					}
					insts = append(insts, inst{l, ck})
					continue
				}
				in := pick(w.R, insts)
				k := key{in.l, w.R.IntN(len(texts)), pick(w.R, opts)}
				t := texts[k.t]
				exp, again := want[k]
				if !again {
					exp = oldCov(old.New(append([]old.License(nil), ws[k.l].list...)), append([]byte(nil), t...), k.o)
					want[k] = exp
				}
				// The text lies in a buffer that is used again and again, with
				// other texts behind its end.
				buf = append(buf[:0], t...)
				buf = append(buf, pick(w.R, texts)...)
				other := append([]byte(nil), buf...)
				cov, ok := in.ck.Cover(buf[:len(t)], k.o)
				res := oldShow(cov, ok)
				w.Inc("old matches in histories", len(cov.Match))
				w.Note(len(cov.Match) > 0, fmt.Sprint(w.Case, step))
				fail := func(kind, msg string) {
					w.Fail(Violation{Kind: kind, Message: fmt.Sprintf("step %d, options %+v: %s", step, k.o, msg), Text: clip(string(t), 3000), TextB64: b64(t), Want: exp + "; licenses " + clip(fmt.Sprintf("%+v", ws[k.l].list), 3000), Got: res})
				}
				if res != exp {
					fail("result depends on history", "")
					return
				}
				if !bytes.Equal(buf, other) {
					fail("writes to the input", "")
					return
				}
				keep = append(keep, kept{cov, ok, res})
				w.Inc("old buffers changed", 1)
				for i := range buf {
					buf[i] = 'x'
				}
				if w.R.IntN(4) == 0 { // change a result: no other one may notice
					i := w.R.IntN(len(keep))
					m := keep[i].cov.Match
					m = m[:cap(m)]
					for j := range m {
						m[j] = old.Match{Name: "scribble", Start: -1, End: -2}
					}
					keep = append(keep[:i], keep[i+1:]...)
				}
				for _, x := range keep {
					if now := oldShow(x.cov, x.ok); now != x.was {
						fail("an earlier result changed", fmt.Sprintf("now %s, was %s", now, x.was))
						return
					}
				}
			}
		})
		c.Each("guard pages", c.N(1500, 40000), func(w *W) {
			x := oldMk(w, w.R.IntN(2) == 0)
			for i := 0; i < 4; i++ {
				t := []byte(x.text(w))
				if len(t) == 0 {
					continue
				}
				if i == 3 {
					t = t[:1+w.R.IntN(len(t))]
				}
				o := oldOptions(w)
				want := oldCov(x.ck, t, o)
				g, err := newGuarded(len(t))
				if err != nil {
					w.Problem("mmap: %v", err)
					return
				}
				for _, in := range [][]byte{g.mem[len(g.mem)-len(t):], g.mem[:len(t):len(t)]} {
					g.readonly(false)
					copy(in, t)
					g.readonly(true)
					res, fault := guardedCover(x.ck, in, o)
					w.Inc("guarded old calls", 1)
					w.Note(strings.Contains(res, "["), string(t))
					if fault != "" || res != want {
						kind := "access outside or write to the input"
						if fault == "" {
							kind = "result depends on where the input lies"
						}
						w.Fail(Violation{Kind: kind, Message: fault, Text: clip(string(t), 3000), TextB64: b64(t), Got: res, Want: want})
						g.free()
						return
					}
				}
				g.free()
			}
		})
		want := map[string]string{}
		run := func(label string, n int, race bool, par int) {
			outs := make([]childOut, n)
			c.each(label, n, par, func(w *W) {
				env := []string{"GOMAXPROCS=" + []string{"8", "2", "4", "16", "3"}[w.Case%5]}
				o := c.runChild(race, 400*time.Second, env, "old", fmt.Sprint(w.R.IntN(1<<30)))
				outs[w.Case] = o
				w.judgeChild(o, race)
			})
			c.Serial(label+" compared", n, func(w *W) {
				if outs[w.Case].rep == nil {
					return
				}
				for k, d := range outs[w.Case].rep.Results {
					w.Inc("cross-process results", 1)
					if want[k] == "" {
						want[k] = d
					}
					if want[k] != d {
						w.Fail(Violation{Kind: "processes differ", Message: "text " + k, Want: want[k], Got: d})
					}
				}
			})
		}
		run("shared race", c.N(4, 40), true, 4)
		run("shared", c.N(4, 40), false, 4)
	}})
}
