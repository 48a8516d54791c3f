package main

import (
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// provenance checks that every match carries ID and Type of one entry of the
// right kind.
func provenance(w *W, list []lc.License, t []byte, got lc.Coverage) bool {
	for _, m := range got.Match {
		ok, near := false, ""
		for _, l := range list {
			if l.ID == m.ID && (m.IsURL && l.URL != "" || !m.IsURL && l.LRE != "") {
				if l.Type == m.Type {
					ok = true
					break
				}
				near += " " + l.Type.String()
			}
		}
		w.Inc("matches traced to an entry", 1)
		if !ok {
			w.FailText("match of no entry", shortList(list), t, "%s is the ID and Type of no entry of that kind (types of that ID:%s)", show([]lc.Match{m}, got.Percent), near)
			return false
		}
	}
	return true
}

func init() {
	register(&Check{ID: "C26", Needs: []string{"matches traced to an entry", "expected entries", "entries sharing an ID", "URL entries", "entries sharing a URL", "big lists"}, Run: func(c *Ctx) {
		c.Rule("lists mixing entries with a pattern, with a URL, and with both, in any order and number, IDs shared, Types all different bit sets; each entry has its own words or URL, so a match says which entry it came from: ID, Type and IsURL must be that entry's. Random worlds are compared with the model as well. Non-trivial: text with a match")
		b := builtin(c)
		if b == nil {
			return
		}
		run := func(w *W, n int, texts int) {
			u := newUnique(w.R)
			urls := map[string][]lc.License{}
			type owner struct {
				words []string
				url   string
				l     lc.License
			}
			var list []lc.License
			var own []owner
			for i := 0; i < n; i++ {
				l := lc.License{ID: fmt.Sprint("L", i), Type: lc.Type(w.R.Uint64())}
				if w.R.IntN(3) == 0 {
					l.Type = lc.Type(w.R.IntN(256))
				}
				if w.R.IntN(8) == 0 {
					l.Type = 0
				}
				if i > 0 && w.R.IntN(4) == 0 {
					l.ID = list[w.R.IntN(i)].ID
					w.Inc("entries sharing an ID", 1)
				}
				if w.R.IntN(30) == 0 {
					l.ID = ""
				}
				k := w.R.IntN(4)
				if i == 0 && n == 1 {
					k = w.R.IntN(2)
				}
				o := owner{}
				if k != 3 {
					o.words = []string{u.word(nil), u.word(nil), u.word(nil)}[:2+w.R.IntN(2)]
					l.LRE = lits(o.words...)
					if w.R.IntN(5) == 0 {
						l.LRE = "//** " + l.ID + " **//\n" + l.LRE
					}
				}
				if k >= 2 {
					o.url = fmt.Sprintf("%s/%s", genURL(w.R), u.word(nil))
					l.URL = o.url
					if i > 0 && w.R.IntN(6) == 0 {
						// The URL of another entry, maybe its ID too.
						if p := own[w.R.IntN(i)]; p.url != "" {
							o.url, l.URL = p.url, p.url
							if w.R.IntN(2) == 0 {
								l.ID = p.l.ID
							}
							w.Inc("entries sharing a URL", 1)
						}
					}
					w.Inc("URL entries", 1)
				}
				if l.URL != "" {
					urls[l.URL] = append(urls[l.URL], l)
				}
				o.l = l
				list = append(list, l)
				own = append(own, o)
			}
			any := false
			for _, l := range list {
				any = any || l.LRE != ""
			}
			if !any {
				return
			}
			s, err := lc.NewScanner(list)
			if err != nil || s == nil {
				w.FailText("valid license set rejected", shortList(list), nil, "%v", err)
				return
			}
			for j := 0; j < texts; j++ {
				var t strings.Builder
				var want []lc.Match
				shared := map[int][]lc.License{} // entries of a URL that several have
				m := 1 + w.R.IntN(12)
				if j == 0 {
					m = min(len(own)*2, 6000)
				}
				for i := 0; i < m; i++ {
					o := own[w.R.IntN(len(own))]
					if j == 0 && len(own) >= m/2 {
						o = own[i*len(own)/m] // spread over the whole list
					} else if j == 1 && n > 100 {
						o = own[len(own)-1-i]
					} else if j == 0 && i < len(own) {
						o = own[i]
					}
					if o.words != nil && (o.url == "" || w.R.IntN(2) == 0) {
						t.WriteString(join(w.R, o.words, []string{" ", ", ", "\n"}) + pick(w.R, []string{" ", "\n", " zqzqvzvz "}))
						want = append(want, lc.Match{ID: o.l.ID, Type: o.l.Type})
					} else {
						t.WriteString(pick(w.R, []string{"http://", "https://"}) + o.url + pick(w.R, []string{"", "/"}) + pick(w.R, []string{" ", "\n", " zqzqvzvz "}))
						k := lc.Match{ID: o.l.ID, Type: o.l.Type, IsURL: true}
						if ls := urls[o.url]; len(ls) > 1 {
							shared[len(want)] = ls
						}
						want = append(want, k)
					}
				}
				got := s.Scan([]byte(t.String()))
				w.Inc("expected entries", len(want))
				w.Note(true, t.String())
				same := len(got.Match) == len(want)
				for i := 0; same && i < len(want); i++ {
					g := got.Match[i]
					g.Start, g.End = 0, 0
					for _, l := range shared[i] {
						if g.IsURL && g.ID == l.ID && g.Type == l.Type {
							g = want[i]
						}
					}
					if g != want[i] {
						w.FailText("match of another entry", shortList(list), []byte(t.String()), "match %d is %s, text there is of %s", i, show(got.Match[i:i+1], 0), show(want[i:i+1], 0))
						return
					}
				}
				if !same {
					w.FailText("matches missing or added", shortList(list), []byte(t.String()), "%d matches, want %d: got %s want %s", len(got.Match), len(want), show(got.Match, got.Percent), show(want, 0))
					return
				}
				if !provenance(w, list, []byte(t.String()), got) {
					return
				}
			}
		}
		c.Each("mixed lists", c.N(1500, 40000), func(w *W) { run(w, 1+w.R.IntN(14), 5) })
		c.Each("big lists", c.N(10, 120), func(w *W) {
			n := []int{200, 255, 256, 257, 300, 1000, 5000, 20000, 40000, 100000}[w.Case%10]
			if !c.Thorough() && n == 40000 {
				n = 33000
			}
			w.Inc("big lists", 1)
			run(w, n, 6)
		})
		for _, k := range profileOrder {
			p := modelProfiles()[k]
			p.PURL, p.PURLOnly, p.DupIDs, p.Types = 0.4, 0.3, true, true
			fuzzModel(c, "worlds "+k, c.N(1500, 50000), p, aType|aIDs, func(w *W, x *World, t []byte, got lc.Coverage, want *ref.Result) {
				provenance(w, x.List, t, got)
			})
		}
		cp := corpus()
		c.Each("built-in", c.N(1500, 40000), func(w *W) {
			t := b.builtinMix(w, cp)
			got := b.S.Scan(t)
			w.Note(len(got.Match) > 0, string(t))
			provenance(w, b.List, t, got)
		})
	}})
}
