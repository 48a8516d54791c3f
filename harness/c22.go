package main

import (
	"bytes"
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// checkList checks what BuiltinLicenses promises of its list.
func checkList(w *W, l []lc.License) {
	types := map[string]lc.Type{}
	urls := map[string]string{}
	n, u := 0, 0
	for _, x := range l {
		if x.LRE == "" && x.URL == "" {
			w.FailText("list entry without pattern and URL", nil, nil, "%q", x.ID)
		}
		if x.ID == "" {
			w.FailText("list entry without ID", nil, nil, "%q", clip(x.LRE+x.URL, 100))
		}
		if x.LRE != "" {
			n++
			if _, dup := types[x.ID]; dup {
				w.FailText("two patterns with one ID", nil, nil, "%s", x.ID)
			}
			types[x.ID] = x.Type
		}
		if x.URL != "" {
			u++
			if id, dup := urls[x.URL]; dup {
				w.FailText("URL listed twice", nil, nil, "%s for %s and %s", x.URL, id, x.ID)
			}
			urls[x.URL] = x.ID
		}
	}
	for _, x := range l {
		if x.URL == "" {
			continue
		}
		t, ok := types[x.ID]
		if ok && t != x.Type || !ok && x.Type != lc.Unknown {
			w.FailText("URL entry with another Type than its pattern", nil, nil, "%s %s: %v, pattern %v (present %v)", x.ID, x.URL, x.Type, t, ok)
		}
	}
	w.Inc("entries with a pattern", n)
	w.Inc("entries with a URL", u)
}

func sameList(a, b []lc.License) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// licenseFiles lists the IDs of the plain pattern files in /repo/licenses
// (those without template actions).
func licenseFiles() map[string]bool {
	ids := map[string]bool{}
	fs, _ := filepath.Glob("/repo/licenses/*.lre")
	for _, f := range fs {
		data, err := os.ReadFile(f)
		if err == nil && !bytes.Contains(data, []byte("{{")) && len(bytes.TrimSpace(data)) > 0 {
			ids[strings.TrimSuffix(filepath.Base(f), ".lre")] = true
		}
	}
	return ids
}

func init() {
	register(&Check{ID: "C22", Needs: []string{"texts compared", "processes", "lists", "texts with matches", "URL matches seen", "large texts"}, Run: func(c *Ctx) {
		c.Rule("Scan and the Scan of a NewScanner(BuiltinLicenses()) are run on the same text and compared (instances of every built-in pattern, every built-in URL, corpus, mutants, hostile texts); the list is checked entry by entry, repeatedly, from concurrent callers, and after callers changed earlier copies, also in fresh processes that change it before the first Scan. Non-trivial: text with a match")
		b := builtin(c)
		if b == nil {
			return
		}
		compare := func(w *W, t []byte) bool {
			x, y := lc.Scan(t), b.S.Scan(t)
			w.Inc("texts compared", 1)
			w.Note(len(x.Match) > 0, string(t))
			if len(x.Match) > 0 {
				w.Inc("texts with matches", 1)
			}
			for _, m := range x.Match {
				if m.IsURL {
					w.Inc("URL matches seen", 1)
				}
			}
			if !sameCov(x, y) {
				w.FailText("Scan differs from a scanner built from BuiltinLicenses", nil, t, "Scan %s, scanner %s", show(x.Match, x.Percent), show(y.Match, y.Percent))
				return false
			}
			return true
		}
		first := lc.BuiltinLicenses()
		keep := append([]lc.License(nil), first...)
		c.Each("list", 1, func(w *W) {
			checkList(w, first)
			have := map[string]bool{}
			for _, l := range first {
				if l.LRE != "" {
					have[l.ID] = true
				}
			}
			files := licenseFiles()
			w.Inc("license files", len(files))
			for id := range files {
				if !have[id] {
					w.FailText("license missing from the list", nil, nil, "%s has a file in licenses/ and no entry", id)
				}
			}
		})
		c.Each("lists", c.N(60, 1000), func(w *W) {
			l := lc.BuiltinLicenses()
			w.Inc("lists", 1)
			w.Note(true, fmt.Sprint("list", w.Case))
			if !sameList(l, keep) {
				w.FailText("BuiltinLicenses gives another list", nil, nil, "call %d: %s, at first %s", w.Case, showList(l), showList(keep))
			}
			// Use the list as callers do: change it, grow it, keep it.
			switch w.Case % 3 {
			case 0:
				scribble(w.R, l[:cap(l)])
			case 1:
				l = append(l[:w.R.IntN(len(l))], lc.License{ID: "mine", LRE: "aaa bbb"})
			case 2:
				sort.Slice(l, func(i, j int) bool { return l[i].URL > l[j].URL })
			}
			_ = append(l, lc.License{ID: "grown"})
		})
		cp := corpus()
		c.Each("built-in patterns", len(b.Trees), func(w *W) {
			for k := 0; k < c.N(2, 40); k++ {
				ws := derive(w.R, b.Trees[w.Case], fillForeign(w.R))
				t := join(w.R, ws, safeSeps)
				if k%2 == 1 {
					t = "Copyright (c) 2020 zqzqvz\n\n" + t + " http://" + pick(w.R, b.URLs)
				}
				compare(w, []byte(t))
			}
		})
		c.Each("built-in URLs", len(b.URLs), func(w *W) {
			for k := 0; k < c.N(3, 20); k++ {
				compare(w, []byte(pick(w.R, []string{"", "zqzq ", "see "})+spellURL(w.R, b.URLs[w.Case])+pick(w.R, []string{"", " zqzq", "\n"})))
			}
		})
		c.Each("mixes", c.N(2500, 60000), func(w *W) {
			switch w.R.IntN(4) {
			case 0:
				compare(w, []byte(hostileText(w.R, 40)))
			case 1:
				compare(w, mutateBytes(w.R, pick(w.R, cp), 10))
			default:
				compare(w, b.builtinMix(w, cp))
			}
		})
		// Large texts, with something to be found in front, in the middle and at
		// the end.
		c.Serial("large texts", c.N(5, 9), func(w *W) {
			size := []int{1 << 20, 5 << 20, 10 << 20, 17 << 20, 34 << 20, 3 << 19, 66 << 20, 130 << 20, 260 << 20}[w.Case] + w.R.IntN(1000)
			var fill []byte
			switch w.Case % 3 {
			case 0:
				fill = []byte(lits(foreignN(w.R, 200)...) + "\n")
			case 1:
				fill = []byte("-------------------------------------------------------------------\n")
			default:
				fill = append(append([]byte(strings.Repeat("* / # \t", 500)), foreign(w.R)...), '\n')
			}
			part := func() []byte {
				return append(append([]byte(" "), b.builtinMix(w, cp)...), " see http://"+pick(w.R, b.URLs)+" zqzq\n"...)
			}
			t := part()
			for len(t) < size/2 {
				t = append(t, fill...)
			}
			t = append(t, part()...)
			for len(t) < size {
				t = append(t, fill...)
			}
			t = append(t, part()...)
			compare(w, t)
			w.Inc("large texts", 1)
		})
		// Fresh processes that change lists before the first Scan.
		want := map[string]string{}
		for i, t := range childTexts(120) {
			want[fmt.Sprint(i)] = digest(b.S.Scan(t))
		}
		c.Each("changed before the first Scan", c.N(4, 30), func(w *W) {
			o := c.runChild(false, 300*time.Second, nil, "mutate-first", fmt.Sprint(c.Seed*1000+int64(w.Case)))
			if o.crash != "" {
				w.FailText("crash after callers changed the list", nil, nil, "%s\n%s", o.crash, clip(o.stderr, 3000))
				return
			}
			if o.err != nil {
				w.Problem("%v", o.err)
				return
			}
			w.Inc("processes", 1)
			for _, bad := range o.rep.Bad {
				w.FailText("list changed by a caller", nil, nil, "%s", bad)
			}
			for k, d := range o.rep.Results {
				w.Note(true, "process", fmt.Sprint(w.Case), k)
				if want[k] != d {
					w.FailText("Scan depends on callers' copies of the list", nil, nil, "text %s: %s, want %s", k, d, want[k])
					return
				}
			}
		})
		c.Each("list afterwards", 1, func(w *W) {
			if l := lc.BuiltinLicenses(); !sameList(l, keep) {
				w.FailText("BuiltinLicenses gives another list", nil, nil, "at the end: %s, at first %s", showList(l), showList(keep))
			}
			if s, err := lc.NewScanner(lc.BuiltinLicenses()); err != nil || s == nil {
				w.FailText("built-in set rejected", nil, nil, "at the end: %v", err)
			}
		})
	}})

	register(&Check{ID: "C23", Needs: []string{"instances", "built-in patterns", "optional parts left out", "README added", "README never reports", "filled to N", "alternatives taken"}, Run: func(c *Ctx) {
		c.Rule("for each built-in pattern: instances made from its syntax tree (all optional parts in, all out, each one flipped, every alternative, wildcards empty, full and in between) are scanned on their own; expected one license match over the whole text, 100 %, under the ID of the earliest listed built-in pattern that the independent model finds to match all of it. The README's added and never-reported IDs are read from /repo/licenses/README.md. Non-trivial: each text")
		b := builtin(c)
		if b == nil {
			return
		}
		pid := func(k int) string { l, _ := b.Set.Tree(k); return b.List[l].ID }
		c.Each("built-in patterns", len(b.Trees), func(w *W) {
			k := w.Case
			w.Inc("built-in patterns", 1)
			tree := b.Trees[k]
			// choose derives an instance with the given policy.
			full := 0
			ids := map[*ref.Node]int{}
			var flips []map[int]int // for each alternative, the choices that lead to it
			path := map[int]int{}
			var list func(n *ref.Node)
			list = func(n *ref.Node) {
				choice := n.Op == ref.Quest || n.Op == ref.Alt
				if choice {
					ids[n] = len(ids)
				}
				for j, x := range n.Sub {
					if choice {
						path[ids[n]] = j
						flips = append(flips, maps.Clone(path))
					}
					list(x)
				}
				if choice {
					delete(path, ids[n])
				}
			}
			list(tree)
			one := func(t []byte, what string) bool {
				got := b.S.Scan(t)
				w.Inc("instances", 1)
				w.Note(true, string(t))
				want := b.Set.Scan(t)
				w.tally(want)
				if want.Trace.Ambiguous > 0 {
					w.Inc("ambiguous", 1)
					return true
				}
				if len(want.Matches) == 1 && want.Matches[0].W0 == 0 && want.Matches[0].W1 == len(want.Words) {
					if want.Matches[0].ID != pid(k) {
						w.Inc("instances of an earlier license, too", 1)
					}
				} else {
					// A wildcard that another one may follow was filled: the
					// early cut ends it (see DESIGN.md).
					w.Inc("instances with a cut wildcard", 1)
					if d := differs(got, want, aAll); d != "" {
						w.FailText("wrong license", nil, t, "%s, %s: %s; model %s", pid(k), what, show(got.Match, got.Percent), showRef(want))
						return false
					}
					return true
				}
				full++
				if len(got.Match) != 1 || got.Match[0].IsURL || got.Match[0].Start != 0 || got.Match[0].End != len(t) || got.Percent != 100 {
					w.FailText("instance of a built-in license not reported in full", nil, t, "%s, %s: %s; model %s", pid(k), what, show(got.Match, got.Percent), showRef(want))
					return false
				}
				if d := differs(got, want, aAll); d != "" {
					w.FailText("wrong license", nil, t, "%s, %s: %s; model %s", pid(k), what, show(got.Match, got.Percent), showRef(want))
					return false
				}
				return true
			}
			for i := 0; i < 4+len(flips); i++ {
				fillMode := i % 4
				var flip map[int]int
				if i >= 4 {
					flip = flips[i-4]
				}
				var gen func(n *ref.Node) []string
				gen = func(n *ref.Node) []string {
					switch n.Op {
					case ref.Words:
						return n.W
					case ref.Wild:
						switch fillMode {
						case 0:
							return nil
						case 1:
							w.Inc("filled to N", 1)
							return foreignN(w.R, n.N)
						case 2:
							return foreignN(w.R, min(n.N, 1))
						}
						return foreignN(w.R, w.R.IntN(min(n.N, 60)+1))
					case ref.Quest:
						_, on := flip[ids[n]]
						in := false
						switch {
						case i < 2:
							in = i == 0
						case flip != nil:
							in = on || i%2 == 0
						default:
							in = w.R.IntN(2) == 0
						}
						if !in {
							w.Inc("optional parts left out", 1)
							return nil
						}
						return gen(n.Sub[0])
					case ref.Alt:
						take, on := flip[ids[n]]
						j := w.R.IntN(len(n.Sub))
						if on {
							j = take
							w.Inc("alternatives taken", 1)
						} else if i == 0 {
							j = 0
						} else if i == 1 {
							j = len(n.Sub) - 1
						}
						return gen(n.Sub[j])
					}
					var out []string
					for _, x := range n.Sub {
						out = append(out, gen(x)...)
					}
					return out
				}
				ws := gen(tree)
				if w.Case%64 == 0 && i == 0 {
					w.Sample("instance", pid(k)+": "+clip(lits(ws...), 300))
				}
				if !one([]byte(join(w.R, ws, safeSeps)), fmt.Sprintf("instance %d", i)) {
					return
				}
			}
			for i := 0; i < c.N(3, 150); i++ {
				ws := derive(w.R, tree, fillMarked(w))
				if !one([]byte(relay(w.R, ws, w.R.IntN(2) == 0, true)), "random instance") {
					return
				}
			}
			if full == 0 {
				w.FailText("no instance of a built-in license is reported in full", nil, nil, "%s", pid(k))
			}
		})
		c.Each("README", 1, func(w *W) {
			data, err := os.ReadFile("/repo/licenses/README.md")
			if err != nil {
				w.Problem("%v", err)
				return
			}
			ids := map[string]bool{}
			pats := map[string]bool{}
			for _, l := range b.List {
				ids[l.ID] = true
				pats[l.ID] = pats[l.ID] || l.LRE != ""
			}
			quoted := regexp.MustCompile("`([^`]+)`")
			for _, line := range bytes.Split(data, []byte("\n")) {
				s := string(bytes.TrimSpace(line))
				if !strings.HasPrefix(s, "- ") {
					continue
				}
				for _, part := range strings.Split(s[2:], ";") {
					part = strings.TrimSpace(part)
					switch {
					case strings.HasPrefix(part, "added "):
						for _, m := range quoted.FindAllStringSubmatch(part, -1) {
							w.Inc("README added", 1)
							w.Note(true, "added", m[1])
							if !pats[m[1]] {
								w.FailText("README lists "+m[1]+" as added and no pattern covers it", nil, nil, "%s", m[1])
							}
						}
					case strings.HasPrefix(part, "never reports "):
						for _, m := range quoted.FindAllStringSubmatch(part, -1) {
							w.Inc("README never reports", 1)
							w.Note(true, "never", m[1])
							if ids[m[1]] {
								w.FailText("README says "+m[1]+" is never reported and it is in the set", nil, nil, "%s", m[1])
							}
						}
					}
				}
			}
		})
	}})
}
