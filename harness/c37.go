package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"vh/ref"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/old"
)

// threadCPU is the CPU time of the calling thread.
func threadCPU() time.Duration {
	var u syscall.Rusage
	const thread = 1
	if err := syscall.Getrusage(thread, &u); err != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// cost is the CPU time of f, the least of n calls.
func cost(n int, f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	best := time.Duration(-1)
	for ; n > 0; n-- {
		t0 := threadCPU()
		f()
		if d := threadCPU() - t0; best < 0 || d < best {
			best = d
		}
	}
	return best
}

// costFragments are pieces that begin or end something the scanners look for.
var costFragments = []string{
	"<", "<a", "<a ", "</", "</b", "<b\n", "<!--", "<?", ">", "<b>", "< ", "<a:", "<a@b", "<http://a.b/c", "<a b=\"",
	"{#", "{#a", "{# ", "{", "}", "{#}", "{#\n",
	"](#", "](#a", "](http://", "](https://a ", "](mailto:", "](file:", "](", "]", ")", "[a](#b)", "](http://\n",
	"&", "&#", "&#x", "&a", "&#1", "&#x1", ";", "&copy", "&copy;", "&amp;", "&;",
	"http", "http:", "http://", "https://", "http://a", "http://a.b", "http://a.b/c", "http://a.b/c/", "http://a.b/c?", "HTTP://A.B/", "http://http://", "http://a.b/c.", "http://opensource.org/licenses/MIT", "https://www.apache.org/licenses/LICENSE-2.0", "http://creativecommons.org/licenses/by/4.0/", "opensource.org/licenses/MIT", "www.a.b/c",
	"(c)", "(c", "©", "c", "copyright", "copyright (c)", "copyright copyright", "(C)1999", "all rights reserved",
	"(s)", "a(s)", "a(s", "s", "the", "is", "they", "copy", "copies", "(", "((", "))", "||", "??", "__3__", "//**", "**//",
	"\n", "\n\n", "\r\n", " ", "\t", ".", ",", "-", "/", "//", "_", "'", "*", "\x00", "\xff", "\xc3", "\xe2\x80", "\ufeff", "\u0301", "\u0300", "é", "e\u0301", "ß", "İ", "\u00ad", "क्षे", "数",
	"a", "b", "x", "1", "A", "I", "aa", "ab", "and", "of", "or", "to", "in", "software", "warranty", "distribute", "license",
}

// A costText is a text of any length of one make: a beginning, a unit repeated
// as often as needed, and an end. Mark stands for a number of its own in each.
type costText struct {
	pre, unit, post string
	mark            bool
}

const numberMark = "\x01"

func (c costText) make(n int) []byte {
	b := make([]byte, 0, n+len(c.unit)+len(c.post)+16)
	b = append(b, c.pre...)
	for i := 0; len(b)+len(c.post) < n; i++ {
		if c.mark {
			b = append(b, strings.ReplaceAll(c.unit, numberMark, spellNum(i))...)
		} else {
			b = append(b, c.unit...)
		}
	}
	return append(b, c.post...)
}

// spellNum spells a number in letters.
func spellNum(i int) string {
	s := ""
	for {
		s = string(rune('a'+i%26)) + s
		if i /= 26; i == 0 {
			return s
		}
	}
}

func (c costText) String() string {
	return fmt.Sprintf("%q, then %q again and again, then %q", clip(c.pre, 100), clip(c.unit, 200), clip(c.post, 100))
}

// newCostText makes a text of fragments and of the words words gives.
func newCostText(r *rand.Rand, words func() []string) costText {
	frag := func(n int) string {
		var b strings.Builder
		for ; n > 0; n-- {
			k := r.IntN(10)
			switch {
			case k < 6:
				b.WriteString(pick(r, costFragments))
			case k < 8:
				ws := words()
				if len(ws) > 1 && r.IntN(2) == 0 {
					ws = ws[:1+r.IntN(min(len(ws)-1, 12))]
				}
				if len(ws) > 200 {
					ws = ws[:200]
				}
				b.WriteString(strings.Join(ws, " "))
			case k < 9:
				b.WriteString(foreign(r))
			default:
				b.WriteString(pick(r, hostileFragments))
			}
			if r.IntN(3) == 0 {
				b.WriteString(pick(r, []string{" ", "\n", "/", ".", ":", "-"}))
			}
		}
		return b.String()
	}
	var c costText
	if r.IntN(2) == 0 {
		c.pre = frag(1 + r.IntN(2))
	}
	if r.IntN(2) == 0 {
		c.post = frag(1 + r.IntN(2))
	}
	c.unit = frag(1 + r.IntN(4))
	if r.IntN(3) == 0 { // words, URLs, … that are all different
		c.mark = true
		c.unit += pick(r, []string{"", " ", "/", "http://a.b/", " x", "<"}) + numberMark + pick(r, []string{"", " ", "\n", "(s) ", "> ", "/ "})
	}
	if c.unit == "" {
		c.unit = "a"
	}
	return c
}

// slowFound counts the makes of texts found to be slow; few are enough, as
// measuring them takes long.
var slowFound atomic.Int32

// steady measures run on texts of one make and growing size; it reports the
// sizes and times by which the time grows faster than in proportion.
func steady(w *W, make func(n int) []byte, run func(t []byte)) (string, bool) {
	const k = 1 << 10
	growth := func(lo, mid, hi int) (string, bool) {
		a, b := make(lo), make(mid)
		ta := cost(4, func() { run(a) })
		tb := cost(2, func() { run(b) })
		if tb <= 9*ta {
			return "", false
		}
		c := make(hi)
		tc := cost(1, func() { run(c) })
		return fmt.Sprintf("%d bytes take %v, %d bytes %v, %d bytes %v", lo, ta, mid, tb, hi, tc), tc > 9*tb
	}
	// Short ones first: what takes long there needs no long text.
	prev := time.Duration(0)
	for _, n := range []int{4 * k, 16 * k, 64 * k, 256 * k} {
		if slowFound.Load() >= 2 {
			return "", true
		}
		t := make(n)
		if n == 256*k {
			w.Inc("texts timed", 1)
		}
		d := cost(1, func() { run(t) })
		if prev > 0 && d > 10*time.Millisecond && d > 6*prev {
			d2 := cost(1, func() { run(t) })
			d = min(d, d2)
		}
		steep := prev > 0 && d > 10*time.Millisecond && d > 6*prev && n == 256*k
		prev = d
		if d < 150*time.Millisecond && !steep {
			continue
		}
		w.Inc("texts measured closely", 1)
		lo, mid, hi := n/4, n, 4*n
		switch {
		case d > 400*time.Millisecond:
			lo, mid, hi = n/16, n/4, n
		case d < 150*time.Millisecond:
			lo, mid, hi = n, 4*n, 16*n
		}
		msg, bad := growth(lo, mid, hi)
		for try := 0; bad && try < 2; try++ { // again, on a quieter machine perhaps
			time.Sleep(time.Second)
			msg, bad = growth(lo, mid, hi)
		}
		if bad {
			slowFound.Add(1)
			return msg, false
		}
		if hi >= 256*k {
			return "", true // slow, but in proportion
		}
	}
	return "", true
}

// sizes of the heap, after a collection.
func liveHeap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC() // the second and third empty pools and run finalizers
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func allocated() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

// keepsNothing runs rounds of calls and reports by how much the heap grew when
// it grew in each round but the first.
func keepsNothing(rounds int, round func(k int)) (string, bool) {
	var sizes []int64
	g0 := runtime.NumGoroutine()
	for k := 0; k < rounds; k++ {
		round(k)
		sizes = append(sizes, liveHeap())
		// The first round may fill things that are made once.
		if k > 1 && sizes[k]-sizes[k-1] < 128<<10 {
			if g := runtime.NumGoroutine(); g > g0+8 {
				return fmt.Sprintf("%d goroutines at first, %d after %d rounds", g0, g, k+1), false
			}
			return "", true
		}
	}
	return fmt.Sprintf("heap after each round: %v bytes", sizes), false
}

func init() {
	register(&Check{ID: "C37", Needs: []string{"texts timed", "allocation growth measured", "rounds of scans", "scans between heap measurements", "texts timed: old Checker", "texts timed: built-in set", "texts timed: custom set", "scanners built and dropped", "results kept", "large texts dropped"}, Run: func(c *Ctx) {
		c.Rule("texts made of one unit (beginnings of markup, URLs, copyright signs, plurals, words of licenses, beginnings of licenses, distinct words and URLs, broken bytes) repeated to 4, 16, 64 and 256 KB are scanned and the CPU time of the thread is taken; where 0.15 s is exceeded the time must not grow by more than 9 times from one size to the size four times as large, twice in a row and three times over. Bytes allocated are compared in the same way. The heap after many scans of ever new texts, and after building and dropping many scanners, must not grow in every round. Non-trivial: a text with more than one word")
		b := builtin(c)
		if b == nil {
			return
		}
		timeIt := func(w *W, kind string, list []lc.License, ct costText, run func(t []byte)) {
			w.Note(len(ref.Split(ct.unit+" "+ct.unit, nil)) > 1, kind, ct.String())
			w.Inc("texts timed: "+kind, 1)
			if msg, ok := steady(w, ct.make, run); !ok {
				w.FailText("time grows faster than the text", list, ct.make(2000), "%s: %s: %s", kind, ct, msg)
			}
		}
		c.Each("built-in", c.N(1000, 40000), func(w *W) {
			ct := newCostText(w.R, func() []string { return derive(w.R, pick(w.R, b.Trees), fillForeign(w.R)) })
			w.Sample("built-in", ct.String())
			timeIt(w, "built-in set", b.List, ct, func(t []byte) { b.S.Scan(t) })
		})
		c.Each("custom", c.N(1000, 40000), func(w *W) {
			p := defaultProfile()
			p.NLic = [2]int{1, 3}
			if w.R.IntN(2) == 0 { // short licenses, found close together
				p.Tree = TreeCfg{Items: 1, Depth: 0, Head: 2}
			}
			p.Voc = pick(w.R, []func(*randT) string{mixVoc(vocShort), mixVoc([]string{"a", "b", "d"}), mixVoc(vocLong), mixVoc(vocShort, vocSpecial), mixVoc(vocUni, vocShort)})
			x := newWorld(w.R, &p)
			if !x.scanner(w) {
				return
			}
			ct := newCostText(w.R, func() []string {
				if len(x.Trees) > 0 && w.R.IntN(4) == 0 { // a match again and again
					return derive(w.R, pick(w.R, x.Trees), func(int) []string { return nil })
				}
				if len(x.Trees) == 0 || w.R.IntN(4) == 0 {
					return []string{p.Voc(w.R), p.Voc(w.R)}
				}
				return derive(w.R, pick(w.R, x.Trees), fillForeign(w.R))
			})
			timeIt(w, "custom set", x.List, ct, func(t []byte) { x.S.Scan(t) })
		})
		// A large old Checker: real licenses, spelled out.
		var oldList []old.License
		r := c.rng("old list", 0)
		for i, t := range b.Trees {
			oldList = append(oldList, old.License{Name: fmt.Sprint("T", i), Text: strings.Join(derive(r, t, fillForeign(r)), " ")})
		}
		for i, u := range b.URLs {
			oldList = append(oldList, old.License{Name: fmt.Sprint("U", i), URL: u})
		}
		bigOld := old.New(oldList)
		c.Each("old", c.N(600, 20000), func(w *W) {
			ck := bigOld
			texts := []string{"x"}
			if w.R.IntN(2) == 0 {
				x := oldMk(w, w.R.IntN(2) == 0)
				ck = x.ck
				for _, l := range x.list {
					texts = append(texts, l.Text)
				}
			} else {
				for range 3 {
					texts = append(texts, pick(w.R, oldList).Text)
				}
				texts = append(texts, pick(w.R, oldList).URL)
			}
			ct := newCostText(w.R, func() []string { return strings.Fields(pick(w.R, texts) + " x") })
			o := oldOptions(w)
			timeIt(w, "old Checker", nil, ct, func(t []byte) { ck.Cover(t, o) })
		})

		// Memory: one goroutine, nothing else running.
		c.Serial("allocation", c.N(250, 6000), func(w *W) {
			run, kind := func(t []byte) { b.S.Scan(t) }, "built-in set"
			if w.R.IntN(3) == 0 {
				run, kind = func(t []byte) { bigOld.Cover(t, old.Options{}) }, "old Checker"
			}
			ct := newCostText(w.R, func() []string { return derive(w.R, pick(w.R, b.Trees), fillForeign(w.R)) })
			var at [3]int64
			for i, n := range []int{8 << 10, 32 << 10, 128 << 10} {
				t := ct.make(n)
				a0 := allocated()
				run(t)
				at[i] = allocated() - a0
			}
			w.Inc("allocation growth measured", 1)
			w.Note(true, "allocation", ct.String())
			if at[1] > 9*at[0] && at[2] > 9*at[1] || at[2] > 4<<30 {
				w.FailText("memory grows faster than the text", nil, ct.make(2000), "%s: %s: %v bytes allocated for texts of 8, 32 and 128 KB", kind, ct, at)
			}
		})
		p := defaultProfile()
		p.PURL, p.Related = 0.6, 0
		c.Serial("heap", c.N(6, 60), func(w *W) {
			var scan func(t []byte) any
			var x *World
			kind := []string{"custom set", "built-in set", "old Checker"}[w.Case%3]
			switch w.Case % 3 {
			case 0:
				if x = newWorld(w.R, &p); !x.scanner(w) {
					return
				}
				scan = func(t []byte) any { return x.S.Scan(t) }
			case 1:
				scan = func(t []byte) any { return b.S.Scan(t) }
			case 2:
				scan = func(t []byte) any { cov, _ := bigOld.Cover(t, old.Options{}); return cov }
			}
			n := 0
			text := func() []byte {
				ws := derive(w.R, pick(w.R, b.Trees[:40]), fillForeign(w.R))
				if x != nil && len(x.Trees) > 0 {
					ws = derive(w.R, pick(w.R, x.Trees), fillForeign(w.R))
				}
				n++
				u := "opensource.org/licenses/MIT"
				if x != nil && len(x.URLs) > 0 {
					u = pick(w.R, x.URLs)
				}
				return []byte(fmt.Sprintf("kw%sq Copyright 19%d zq%s\n%s\nhttp://%s http://zq%s.org/x%s &#%d; %s", spellNum(n), n, spellNum(n*7), join(w.R, ws, plainSeps), u, spellNum(n), spellNum(n*3), n, hostileText(w.R, 3)))
			}
			var sink any
			msg, ok := keepsNothing(6, func(k int) {
				for i := 0; i < 700; i++ {
					t := text()
					sink = scan(t)
					w.Inc("scans between heap measurements", 1)
				}
				tiny := 12000
				if kind == "old Checker" {
					tiny = 4000 // slower, with many licenses
				}
				for i := 0; i < tiny; i++ {
					n++
					sink = scan([]byte("aaa " + spellNum(n) + " http://" + spellNum(n) + ".org/" + spellNum(n)))
				}
				for i := 0; i < 6; i++ { // long ones
					var t []byte
					for len(t) < 40_000 {
						t = append(t, text()...)
					}
					sink = scan(t)
				}
				w.Inc("rounds of scans", 1)
				w.Note(true, kind, fmt.Sprint(w.Case, k))
			})
			sink = nil
			_ = sink
			if !ok {
				w.FailText("scanning keeps memory", nil, nil, "%s: %s", kind, msg)
			}
		})
		c.Serial("results kept", c.N(3, 30), func(w *W) {
			// What is returned does not hold on to the text.
			var kept []any
			big := []byte("MIT License http://opensource.org/licenses/MIT " + strings.Repeat("zqzq vzvz ", 40_000))
			h0 := liveHeap()
			const n = 60
			for i := 0; i < n; i++ {
				t := append([]byte(nil), big...)
				if w.Case%3 == 2 {
					cov, _ := bigOld.Cover(t, old.Options{Threshold: 1})
					kept = append(kept, cov)
				} else {
					kept = append(kept, b.S.Scan(t))
				}
			}
			grown := liveHeap() - h0
			w.Inc("results kept", len(kept))
			w.Note(true, "kept", fmt.Sprint(w.Case))
			if grown > int64(len(big))*n/4 {
				w.FailText("results keep the text", nil, nil, "%d results of scanning %d bytes each keep %d bytes", n, len(big), grown)
			}
			runtime.KeepAlive(kept)
			runtime.KeepAlive(big)
		})
		c.Serial("large text dropped", c.N(6, 30), func(w *W) {
			// Not even the last text is held on to, nor what was found in it.
			var scan func(t []byte) any
			kind := "built-in set"
			switch w.Case % 3 {
			case 0:
				scan = func(t []byte) any { return b.S.Scan(t) }
			case 1:
				kind = "custom set"
				x := newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				scan = func(t []byte) any { return x.S.Scan(t) }
			case 2:
				kind = "old Checker"
				scan = func(t []byte) any { cov, _ := bigOld.Cover(t, old.Options{}); return cov }
			}
			unit := "zqzq vzvz http://zq.org/zq é "
			if w.Case%2 == 1 {
				unit = "MIT License http://opensource.org/licenses/MIT zqzq vzvz "
			}
			size := (4 + w.R.IntN(5)) << 20
			sink := scan([]byte(unit)) // what is made once
			sink = nil
			h0 := liveHeap()
			t := []byte(strings.Repeat(unit, size/len(unit)))
			sink = scan(t)
			runtime.KeepAlive(t)
			runtime.KeepAlive(sink)
			t, sink = nil, nil
			grown := liveHeap() - h0
			w.Inc("large texts dropped", 1)
			w.Note(true, kind, fmt.Sprint(w.Case, size))
			if grown > int64(size/4) {
				w.FailText("a text is kept after its scan", nil, []byte(unit), "%s: after scanning %d bytes and dropping text and result, the heap is %d bytes larger", kind, size, grown)
			}
		})
		c.Serial("scanners dropped", c.N(2, 20), func(w *W) {
			oldForm := w.Case%2 == 1
			msg, ok := keepsNothing(6, func(k int) {
				for i := 0; i < 150; i++ {
					var l []string
					for j := 0; j < 300; j++ {
						l = append(l, "kw"+spellNum((k*150+i)*300+j)+"q")
					}
					t := strings.Join(l, " ")
					if oldForm {
						old.New([]old.License{{Name: l[0], Text: t, URL: l[1] + ".org/x"}}).Cover([]byte(t), old.Options{})
					} else {
						s, err := lc.NewScanner([]lc.License{{ID: l[0], LRE: t, URL: l[1] + ".org/x"}})
						if err != nil {
							w.FailText("valid license set rejected", nil, []byte(t), "%v", err)
							return
						}
						s.Scan([]byte(t))
					}
					w.Inc("scanners built and dropped", 1)
				}
				w.Note(true, "dropped", fmt.Sprint(w.Case, k))
			})
			if !ok {
				w.FailText("building scanners keeps memory", nil, nil, "old %v: %s", oldForm, msg)
			}
		})
	}})
}
