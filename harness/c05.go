package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/old"
)

// unusual are calls that a process may make once in a while.
var unusual = []struct {
	name string
	run  func(w *W, s *lc.Scanner)
}{
	{"a text of 5 MB", func(w *W, s *lc.Scanner) {
		s.Scan([]byte(strings.Repeat("zqzq vzvz wqwq\n", 5<<20/15)))
	}},
	{"a text of 20 MB", func(w *W, s *lc.Scanner) {
		s.Scan([]byte(strings.Repeat("zqzq vzvz wqwq zvzvzvzv zqzqzqzq\n", 20<<20/33)))
	}},
	{"a word of 3 MB", func(w *W, s *lc.Scanner) {
		s.Scan([]byte("copyright " + strings.Repeat("zq", 3<<19)))
	}},
	{"many licenses and URLs in one text", func(w *W, s *lc.Scanner) {
		s.Scan([]byte(strings.Repeat("MIT License. http://opensource.org/licenses/MIT zq, ", 40_000)))
	}},
	{"bytes that are no text", func(w *W, s *lc.Scanner) {
		t := make([]byte, 1<<20)
		for i := range t {
			t[i] = byte(w.R.IntN(256))
		}
		s.Scan(t)
	}},
	{"zero bytes", func(w *W, s *lc.Scanner) {
		s.Scan(make([]byte, 1<<20))
		s.Scan(nil)
		s.Scan([]byte{})
	}},
	{"all letters", func(w *W, s *lc.Scanner) {
		var b strings.Builder
		for r := rune(1); r < 0x30000; r++ {
			b.WriteRune(r)
			if r%7 == 0 {
				b.WriteString(" ")
			}
		}
		s.Scan([]byte(b.String()))
	}},
	{"thousands of texts without a word", func(w *W, s *lc.Scanner) {
		for i := 0; i < 5000; i++ {
			s.Scan([]byte("... ---"))
		}
	}},
	{"rejected license lists", func(w *W, s *lc.Scanner) {
		for _, p := range []string{"((", "aa", "__5__ aa bb", "aa bb //**", "", " ", "))", "aa bb ??", "aa bb __99999999999__ cc", "||"} {
			lc.NewScanner([]lc.License{{ID: "x", LRE: "aaaa bbbb cccc"}, {ID: "x", LRE: p}})
		}
		lc.NewScanner(nil)
	}},
	{"a license of 200000 words", func(w *W, s *lc.Scanner) {
		var b strings.Builder
		for i := 0; i < 200_000; i++ {
			b.WriteString("kwk" + safeWord(i) + "wk ")
		}
		if x, err := lc.NewScanner([]lc.License{{ID: "x", LRE: b.String()}}); err == nil {
			x.Scan([]byte(b.String()))
		}
	}},
	{"several scanners of the built-in licenses", func(w *W, s *lc.Scanner) {
		for i := 0; i < 3; i++ {
			if x, err := lc.NewScanner(lc.BuiltinLicenses()); err == nil {
				x.Scan([]byte("MIT License"))
			}
		}
	}},
	{"old Checkers", func(w *W, s *lc.Scanner) {
		for i := 0; i < 20; i++ {
			x := oldMk(w, true)
			x.ck.Cover([]byte(x.text(w)), oldOptions(w))
			x.ck.Cover([]byte(strings.Repeat("permission hereby granted zqzq ", 20_000)), old.Options{MinLength: 1, Slop: 1000, Threshold: 1})
		}
	}},
	{"Type and ParseType", func(w *W, s *lc.Scanner) {
		for i := 0; i < 2000; i++ {
			t := lc.Type(w.R.IntN(1 << 12))
			lc.ParseType(t.Merge(lc.Type(w.R.IntN(1 << 12))).String())
			lc.ParseType("|" + t.String() + "|x")
		}
	}},
}

func init() {
	register(&Check{ID: "C05", Needs: []string{"history steps", "scanners built", "license slices changed", "processes", "cross-process results", "long-run scans", "unusual calls"}, Run: func(c *Ctx) {
		c.Rule("recorded histories of NewScanner / Scan / BuiltinLicenses / caller-side mutation steps over several scanners and texts (same length, same prefix, new words first seen in other texts); every result is compared with the first one for the same (license list, text), taken from a scanner of its own; the same texts are scanned in shuffled order in fresh processes with different GOMAXPROCS and GC settings; and about 130 results taken at the start must be the same after calls out of the ordinary (texts of 20 MB, words of 3 MB, rejected lists, 200000-word licenses, the old package). Non-trivial: a step that repeats a (list, text) pair after other steps")
		b := builtin(c)
		if b == nil {
			return
		}
		cp := corpus()
		// What is found before anything unusual has happened in this process; it
		// is compared again after each of the unusual calls at the end.
		type probe struct {
			s    *lc.Scanner
			list []lc.License
			t    []byte
			want lc.Coverage
			o    *old.Checker
			old  string
		}
		var probes []probe
		var spare *World
		c.Serial("probes", 1, func(w *W) {
			for i := 0; i < 30; i++ {
				probes = append(probes, probe{s: b.S, t: mutateBytes(w.R, pick(w.R, cp), w.R.IntN(12))})
			}
			for _, k := range profileOrder {
				p := modelProfiles()[k]
				x := newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				spare = x
				for i := 0; i < 12; i++ {
					probes = append(probes, probe{s: x.S, list: x.List, t: x.text(w.R)})
				}
			}
			for i := range probes {
				p := &probes[i]
				p.want = cloneCov(p.s.Scan(p.t))
			}
			for i := 0; i < 4; i++ {
				x := oldMk(w, true)
				for j := 0; j < 4; j++ {
					t := []byte(x.text(w))
					cov, _ := x.ck.Cover(t, old.Options{})
					probes = append(probes, probe{o: x.ck, t: t, old: fmt.Sprint(cov)})
				}
			}
		})
		c.Each("histories", c.N(700, 30000), func(w *W) {
			type lst struct {
				orig []lc.License
				x    *World
			}
			var lists []lst
			for i := 1 + w.R.IntN(3); i >= 0; i-- {
				p := modelProfiles()[pick(w.R, profileOrder)]
				x := newWorld(w.R, &p)
				lists = append(lists, lst{append([]lc.License(nil), x.List...), x})
			}
			// Texts from all worlds, with same-length and same-prefix variants.
			var texts [][]byte
			for i := 0; i < 6; i++ {
				t := pick(w.R, lists).x.text(w.R)
				texts = append(texts, t)
				if len(t) > 4 {
					v := append([]byte(nil), t...)
					k := w.R.IntN(len(v))
					v[k] = byte("abxz \n"[w.R.IntN(6)])
					texts = append(texts, v, t[:len(t)-1-w.R.IntN(len(t)/2)])
					// same first half, other second half
					o := pick(w.R, lists).x.text(w.R)
					texts = append(texts, append(append([]byte(nil), t[:len(t)/2]...), o...))
				}
			}
			want := map[[2]int]lc.Coverage{}
			expect := func(l, t int) (lc.Coverage, bool) {
				k := [2]int{l, t}
				if v, ok := want[k]; ok {
					return v, true
				}
				s, err := lc.NewScanner(append([]lc.License(nil), lists[l].orig...))
				if err != nil {
					w.FailText("valid license set rejected", lists[l].orig, nil, "%v", err)
					return lc.Coverage{}, false
				}
				w.Inc("scanners built", 1)
				want[k] = cloneCov(s.Scan(append([]byte(nil), texts[t]...)))
				return want[k], false
			}
			type inst struct {
				l int
				s *lc.Scanner
			}
			var insts []inst
			for step := 0; step < 60; step++ {
				w.Inc("history steps", 1)
				if len(insts) == 0 || w.R.IntN(8) == 0 {
					l := w.R.IntN(len(lists))
					arg := append(make([]lc.License, 0, len(lists[l].orig)+2), lists[l].orig...)
					s, err := lc.NewScanner(arg)
					if err != nil {
						w.FailText("valid license set rejected", lists[l].orig, nil, "%v at step %d", err, step)
						return
					}
					w.Inc("scanners built", 1)
					if w.R.IntN(2) == 0 {
						scribble(w.R, arg[:cap(arg)])
						w.Inc("license slices changed", 1)
					}
					insts = append(insts, inst{l, s})
					continue
				}
				if w.R.IntN(20) == 0 {
					scribble(w.R, lc.BuiltinLicenses()[:40])
					continue
				}
				in := pick(w.R, insts)
				t := w.R.IntN(len(texts))
				exp, again := expect(in.l, t)
				got := in.s.Scan(texts[t])
				w.Note(again, fmt.Sprint(w.Case, step))
				if !sameCov(got, exp) {
					w.FailText("result depends on history", lists[in.l].orig, texts[t], "step %d: got %s want %s", step, show(got.Match, got.Percent), show(exp.Match, exp.Percent))
					return
				}
			}
		})
		// Building the same list again and again gives the same scanner, also
		// where several spelling corrections compete.
		c.Each("rebuilt scanners", c.N(300, 8000), func(w *W) {
			p := modelProfiles()["spelling"]
			if w.Case%3 == 0 { // several entries with the same URL or ID
				p.NLic, p.PURL, p.PURLOnly, p.DupURLs, p.DupIDs = [2]int{4, 12}, 0.7, 0.3, true, true
				p.Weights[pURL] = 8
			}
			x := newWorld(w.R, &p)
			var texts [][]byte
			for i := 0; i < 10; i++ {
				texts = append(texts, x.text(w.R))
			}
			for _, u := range x.URLs {
				texts = append(texts, []byte("http://"+u))
			}
			var first []lc.Coverage
			for k := 0; k < 8; k++ {
				s, err := lc.NewScanner(x.List)
				if err != nil {
					w.FailText("valid license set rejected", x.List, nil, "%v", err)
					return
				}
				w.Inc("scanners built", 1)
				for i, t := range texts {
					got := s.Scan(t)
					if k == 0 {
						first = append(first, cloneCov(got))
						continue
					}
					w.Note(true, fmt.Sprint(w.Case, k, i))
					if !sameCov(got, first[i]) {
						w.FailText("scanners from the same list differ", x.List, t, "scanner %d: %s, scanner 0: %s", k, show(got.Match, got.Percent), show(first[i].Match, first[i].Percent))
					}
				}
			}
		})
		// URLs: hits and misses that share hosts and path prefixes, in any order.
		c.Each("URL histories", c.N(400, 10000), func(w *W) {
			var list []lc.License
			var urls []string
			for i := 1 + w.R.IntN(4); i > 0; i-- {
				u := genURL(w.R)
				urls = append(urls, u)
				list = append(list, lc.License{ID: fmt.Sprint("U", i), URL: u, Type: lc.Type(2 << i)})
			}
			list = append(list, lc.License{ID: "L", LRE: "mmmqqq nnnqqq"})
			var texts [][]byte
			for i := 0; i < 24; i++ {
				u := pick(w.R, urls)
				for k := w.R.IntN(3); k > 0 && strings.Count(u, "/") > 1; k-- {
					u = u[:strings.LastIndex(u, "/")]
				}
				for k := w.R.IntN(4); k > 0; k-- {
					u += "/" + pick(w.R, []string{"us", "legalcode", "x", "by", urlSeg(w.R)})
				}
				t := pick(w.R, []string{"http://", "https://", "HTTP://"}) + u + pick(w.R, []string{"", "/"})
				if w.R.IntN(3) == 0 {
					t = recase(w.R, t)
				}
				texts = append(texts, []byte(pick(w.R, []string{"", "see "})+t+pick(w.R, []string{"", " now", " mmmqqq nnnqqq"})))
			}
			var first []lc.Coverage
			for _, t := range texts {
				s, err := lc.NewScanner(list)
				if err != nil {
					w.FailText("valid license set rejected", list, nil, "%v", err)
					return
				}
				first = append(first, cloneCov(s.Scan(t)))
			}
			s, _ := lc.NewScanner(list)
			for k := 0; k < 100; k++ {
				i := w.R.IntN(len(texts))
				got := s.Scan(texts[i])
				w.Inc("history steps", 1)
				w.Note(k > 0, fmt.Sprint(w.Case, "url", k))
				if !sameCov(got, first[i]) {
					w.FailText("result depends on history", list, texts[i], "step %d: got %s want %s", k, show(got.Match, got.Percent), show(first[i].Match, first[i].Percent))
					return
				}
			}
		})
		// One scanner for thousands of scans of ever new words; a probe in between.
		c.Each("long runs", c.N(8, 64), func(w *W) {
			s := b.S
			var x *World
			custom := w.Case%2 == 1
			if custom {
				p := modelProfiles()["spelling"]
				p.NLic = [2]int{4, 8}
				x = newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				s = x.S
			}
			var probes [][]byte
			for i := 0; i < 12; i++ {
				if custom {
					probes = append(probes, x.text(w.R))
				} else {
					t := append([]byte(nil), pick(w.R, cp)...)
					if i%2 == 1 { // with words that are in no pattern
						t = []byte(join(w.R, foreignN(w.R, 5), plainSeps) + " " + string(t) + join(w.R, foreignN(w.R, 5), plainSeps))
						t = mutateBytes(w.R, t, 5)
					}
					probes = append(probes, t)
				}
			}
			first := make([]lc.Coverage, len(probes))
			for i, t := range probes {
				first[i] = cloneCov(s.Scan(t))
			}
			n := c.N(1500, 20000)
			for k := 0; k < n; k++ {
				var t []byte
				switch w.R.IntN(4) {
				case 0:
					t = []byte(join(w.R, foreignN(w.R, 40), safeSeps) + fmt.Sprintf(" new%dword%d", w.Case, k))
				case 1:
					t = mutateBytes(w.R, pick(w.R, probes), 10)
				case 2:
					t = pick(w.R, probes)
					t = t[w.R.IntN(len(t)+1):]
				case 3:
					if custom {
						t = x.text(w.R)
					} else {
						t = []byte(hostileText(w.R, 20))
					}
				}
				s.Scan(t)
				w.Inc("long-run scans", 1)
				if k%25 == 24 || k == n-1 {
					i := w.R.IntN(len(probes))
					got := s.Scan(probes[i])
					w.Note(true, fmt.Sprint(w.Case, k))
					if !sameCov(got, first[i]) {
						w.FailText("result depends on history", nil, probes[i], "after %d scans: got %s want %s", k, show(got.Match, got.Percent), show(first[i].Match, first[i].Percent))
						return
					}
				}
			}
		})
		// Calls out of the ordinary, each followed by the probes.
		c.Serial("unusual calls", c.N(2*len(unusual), 8*len(unusual)), func(w *W) {
			u := unusual[w.Case%len(unusual)]
			s := b.S
			if w.Case/len(unusual)%2 == 1 && spare != nil {
				s = spare.S
			}
			u.run(w, s)
			w.Inc("unusual calls", 1)
			for i, p := range probes {
				w.Inc("history steps", 1)
				w.Note(true, fmt.Sprint(w.Case, "probe", i))
				if p.o != nil {
					if cov, _ := p.o.Cover(p.t, old.Options{}); fmt.Sprint(cov) != p.old {
						w.FailText("result depends on history", nil, p.t, "old Checker, after %s: got %v want %s", u.name, cov, p.old)
						return
					}
					continue
				}
				ss := p.s
				if p.list != nil && i%3 == 0 {
					var err error
					if ss, err = lc.NewScanner(p.list); err != nil {
						w.FailText("result depends on history", p.list, nil, "after %s: NewScanner: %v", u.name, err)
						return
					}
				}
				if got := ss.Scan(p.t); !sameCov(got, p.want) {
					w.FailText("result depends on history", p.list, p.t, "after %s: got %s want %s", u.name, show(got.Match, got.Percent), show(p.want.Match, p.want.Percent))
					return
				}
			}
		})
		// Other processes.
		want := map[string]string{}
		np := c.N(6, 40)
		outs := make([]childOut, np)
		c.Each("processes", np, func(w *W) {
			env := []string{"GOMAXPROCS=" + fmt.Sprint(1+w.Case%runtime.NumCPU()), "GOGC=" + []string{"100", "20", "400"}[w.Case%3]}
			o := c.runChild(false, 200*time.Second, env, "digests", fmt.Sprint(w.R.IntN(1<<30)))
			outs[w.Case] = o
			w.Inc("processes", 1)
			switch {
			case o.crash != "":
				w.Fail(Violation{Kind: "crash", Message: o.crash, Stack: clip(o.stderr, 4000)})
			case o.err != nil:
				w.Problem("%v", o.err)
			default:
				for _, m := range o.rep.Bad {
					w.Fail(Violation{Kind: "result depends on history", Message: m})
				}
			}
		})
		texts := childTexts(120)
		for i, t := range texts {
			want[fmt.Sprint(i)] = digest(b.S.Scan(t))
		}
		c.Serial("compare processes", np, func(w *W) {
			o := outs[w.Case]
			if o.rep == nil {
				return
			}
			for k, d := range o.rep.Results {
				w.Note(true, fmt.Sprint(w.Case, k))
				w.Inc("cross-process results", 1)
				if want[k] == "" {
					want[k] = d
				}
				if want[k] != d {
					w.Fail(Violation{Kind: "processes differ", Message: "text " + k, Want: want[k], Got: d})
				}
			}
		})
	}})
}
