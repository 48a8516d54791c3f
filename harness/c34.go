package main

import (
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// extraLicenses makes n entries with which the set is enlarged. Their words are
// in no text (fresh), or may be in the texts but never begin a match there: the
// first two words are fresh, the rest come from voc.
func extraLicenses(w *W, n int, voc func(*randT) string) []lc.License {
	var out []lc.License
	for i := 0; i < n; i++ {
		l := lc.License{ID: fmt.Sprintf("extra%d", i), Type: lc.Type(w.R.IntN(64)) &^ 1}
		cfg := TreeCfg{Items: 5, Depth: 2, PGroup: 0.3, PWild: 0.15, WildMax: 8, Head: 2, Tail: 1}
		fresh := func(r *randT) string { return "kwk" + safeWord(r.IntN(1<<20)) + "wk" }
		if voc != nil {
			cfg.Word = voc
		} else {
			cfg.Word = fresh
		}
		k := w.R.IntN(8)
		if k != 0 {
			t := genTree(w.R, &cfg)
			head := []string{fresh(w.R), fresh(w.R), fresh(w.R)}
			if wildProduct(t) > 200 {
				t = &ref.Node{Op: ref.Words, W: head}
			}
			l.LRE = join(w.R, head, plainSeps) + " " + printTree(w.R, t, &Layout{Seps: plainSeps})
			if strings.Contains(l.LRE, "((") {
				l.LRE = join(w.R, head, plainSeps) + "\n" + printTree(w.R, t, &Layout{Seps: plainSeps})
			}
			if _, err := refSet([]lc.License{{ID: "x", LRE: l.LRE}}); err != nil {
				l.LRE = join(w.R, head, plainSeps)
			}
		}
		if k == 0 || w.R.IntN(4) == 0 {
			l.URL = "kwk" + safeWord(w.R.IntN(1<<20)) + ".org/" + genURL(w.R)
		}
		out = append(out, l)
	}
	return out
}

func init() {
	register(&Check{ID: "C34", Needs: []string{"sets enlarged", "scans compared", "matches compared", "URL matches compared", "extra licenses sharing words", "repeated licenses", "built-in sets enlarged", "extra licenses", "words of large vocabularies", "extra licenses that begin alike", "slips where licenses part", "licenses in sets of thousands"}, Run: func(c *Ctx) {
		c.Rule("random worlds and the built-in list: the same texts are scanned with the set and with the set enlarged by licenses and URLs that do not occur in them (entirely foreign words; or foreign only in the first three; or foreign only behind a beginning taken from a listed license; or repetitions of listed licenses under another ID, after the original), put before, behind and between the entries; and licenses of up to 140000 new words. Results must be equal in all of ID, Type, offsets and Percent. Non-trivial: a text with matches")
		b := builtin(c)
		if b == nil {
			return
		}
		cp := corpus()
		// enlarge puts extra among list; repeats go behind everything.
		enlarge := func(w *W, list, extra, repeats []lc.License) []lc.License {
			var out []lc.License
			switch w.R.IntN(3) {
			case 0:
				out = append(append(out, extra...), list...)
			case 1:
				out = append(append(out, list...), extra...)
			case 2:
				for len(list)+len(extra) > 0 {
					if w.R.IntN(len(list)+len(extra)) < len(list) {
						out, list = append(out, list[0]), list[1:]
					} else {
						out, extra = append(out, extra[0]), extra[1:]
					}
				}
			}
			return append(out, repeats...)
		}
		compare := func(w *W, small, big *lc.Scanner, list, bigList []lc.License, t []byte) bool {
			x, y := small.Scan(t), big.Scan(t)
			w.Inc("scans compared", 1)
			w.Inc("matches compared", len(x.Match))
			for _, m := range x.Match {
				if m.IsURL {
					w.Inc("URL matches compared", 1)
				}
			}
			w.Note(len(x.Match) > 0, string(t))
			if sameCov(x, y) {
				return true
			}
			w.FailText("unrelated licenses change the result", bigList, t, "%d entries: %s; %d entries: %s", len(list), show(x.Match, x.Percent), len(bigList), show(y.Match, y.Percent))
			return false
		}
		scaleC34(c, compare)
		manyC34(c, compare)
		for _, k := range profileOrder {
			p := modelProfiles()[k]
			c.Each(k, c.N(1200, 40000), func(w *W) {
				x := newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				var voc func(*randT) string
				if w.Case%2 == 0 {
					voc = p.Voc
				}
				n := 1 + w.R.IntN(6)
				if w.Case%50 <= 1 { // a large set, with shared words or without
					n = 300 + w.R.IntN(2)*w.R.IntN(1500)
				}
				extra := extraLicenses(w, n, voc)
				w.Inc("extra licenses", n)
				if voc != nil {
					w.Inc("extra licenses sharing words", n)
				}
				// Licenses that begin like a listed one and then go on with words
				// that are in no text; sometimes hundreds with the same beginning.
				same := false
				if w.R.IntN(2) == 0 && len(x.Trees) > 0 {
					m := 1 + w.R.IntN(4)
					if w.Case%40 == 3 {
						m = 100 + w.R.IntN(400)
					}
					var head []string
					for i := 0; i < m; i++ {
						if i == 0 || m < 10 {
							ws := derive(w.R, pick(w.R, x.Trees), func(int) []string { return nil })
							if len(ws) < 2 {
								continue
							}
							head = ws[:1+w.R.IntN(len(ws))]
						}
						tail := []string{}
						for k := 1 + w.R.IntN(3); k > 0 || len(head)+len(tail) < 2; k-- {
							tail = append(tail, "kwk"+safeWord(w.R.IntN(1<<20))+"wk")
						}
						l := lc.License{ID: fmt.Sprint("alike", i), Type: lc.Type(2 << w.R.IntN(6)), LRE: join(w.R, append(append([]string{}, head...), tail...), plainSeps)}
						if _, err := refSet([]lc.License{l}); err != nil {
							continue
						}
						extra = append(extra, l)
						same = true
						w.Inc("extra licenses that begin alike", 1)
					}
				}
				var rep []lc.License
				for i := w.R.IntN(3); i > 0; i-- {
					l := pick(w.R, x.List)
					l.ID, l.URL, l.Type = "again", "", lc.Type(4)
					if l.LRE != "" {
						rep = append(rep, l)
						w.Inc("repeated licenses", 1)
					}
				}
				big := enlarge(w, x.List, extra, rep)
				bs, err := lc.NewScanner(big)
				if err != nil || bs == nil {
					w.FailText("valid license set rejected", big, nil, "NewScanner: %v", err)
					return
				}
				w.Inc("sets enlarged", 1)
				for i := 0; i < 8; i++ {
					t := x.text(w.R)
					if (voc != nil || same) && x.Set.Scan(t).Trace.Ambiguous > 0 {
						continue // which word is meant may depend on the dictionary
					}
					if !compare(w, x.S, bs, x.List, big, t) {
						return
					}
				}
			})
		}
		// A vocabulary of more words than fit 15, 16 or 17 bits.
		c.Each("large vocabulary", c.N(9, 90), func(w *W) {
			n := []int{33_000, 66_000, 140_000}[w.Case%3]
			x, list := b, b.List
			if w.Case/3%3 != 0 {
				p := modelProfiles()[pick(w.R, profileOrder)]
				x = newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				list = x.List
			}
			var extra []lc.License
			at := w.R.IntN(1 << 19)
			for k, per := 0, 20+w.R.IntN(3000); k < n; k += per {
				var t strings.Builder
				for i := 0; i < per; i++ {
					t.WriteString("kwk" + safeWord(at) + "wk ")
					at++
				}
				extra = append(extra, lc.License{ID: fmt.Sprint("extra", k), LRE: t.String()})
			}
			w.Inc("extra licenses", len(extra))
			w.Inc("words of large vocabularies", n)
			big := enlarge(w, list, extra, nil)
			bs, err := lc.NewScanner(big)
			if err != nil || bs == nil {
				w.FailText("valid license set rejected", list, nil, "with %d licenses of %d new words: NewScanner: %v", len(extra), n, err)
				return
			}
			for i := 0; i < c.N(150, 600); i++ {
				var t []byte
				switch {
				case x != b:
					t = x.text(w.R)
				case i%2 == 0:
					t = pick(w.R, cp)
				default:
					t = b.builtinMix(w, cp)
				}
				y, z := x.S.Scan(t), bs.Scan(t)
				w.Inc("scans compared", 1)
				w.Inc("matches compared", len(y.Match))
				w.Note(len(y.Match) > 0, string(t))
				if !sameCov(y, z) {
					w.FailText("unrelated licenses change the result", shortList(list), t, "%d entries: %s; with %d licenses of %d new words: %s", len(list), show(y.Match, y.Percent), len(extra), n, show(z.Match, z.Percent))
					return
				}
			}
		})
		c.Each("built-in", c.N(16, 120), func(w *W) {
			var voc func(*randT) string
			if w.Case%2 == 0 {
				u := newUnique(w.R)
				voc = u.word
			}
			n := []int{1, 5, 40, 400}[w.Case%4]
			extra := extraLicenses(w, n, voc)
			w.Inc("extra licenses", n)
			big := enlarge(w, b.List, extra, nil)
			bs, err := lc.NewScanner(big)
			if err != nil || bs == nil {
				w.FailText("valid license set rejected", extra, nil, "built-in list with these: NewScanner: %v", err)
				return
			}
			w.Inc("built-in sets enlarged", 1)
			for i := 0; i < len(cp)+c.N(60, 400); i++ {
				var t []byte
				if i < len(cp) {
					t = cp[i]
				} else {
					t = b.builtinMix(w, cp)
				}
				if !compare(w, b.S, bs, b.List, big, t) {
					return
				}
			}
		})
	}})
}
