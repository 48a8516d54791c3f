package main

import (
	"fmt"
	"strings"
	"vh/ref"

	lc "github.com/google/licensecheck"
)

// competing gives worlds whose patterns share, repeat and overlap words.
func competing() Profile {
	p := defaultProfile()
	p.Voc = mixVoc(vocShort[:5])
	p.Related = 0.8
	p.PURL = 0.3
	p.Weights = [nPieceKinds]int{6, 3, 2, 1, 2, 2, 1, 2}
	p.Pieces = 10
	return p
}

func modelProfiles() map[string]Profile {
	m := map[string]Profile{}
	m["competing"] = competing()
	p := defaultProfile()
	p.Voc = mixVoc(vocLong, vocShort)
	p.PURL = 0.4
	m["spelling"] = p
	p = defaultProfile()
	p.Voc = mixVoc(vocSpecial, vocShort)
	p.Seps = hostileSeps
	p.Bytes = 3
	m["markup"] = p
	p = defaultProfile()
	p.Voc = mixVoc(vocUni, vocShort)
	p.Seps = hostileSeps
	m["unicode"] = p
	return m
}

var profileOrder = []string{"competing", "spelling", "markup", "unicode"}

// urlHeavy makes texts of built-in licenses, URLs and notices, densely packed.
func (x *World) builtinMix(w *W, cp [][]byte) []byte {
	var t []byte
	for n := 1 + w.R.IntN(6); n > 0; n-- {
		switch w.R.IntN(6) {
		case 0:
			t = append(t, pick(w.R, cp)...)
		case 1:
			c := pick(w.R, cp)
			k := w.R.IntN(len(c) + 1)
			t = append(t, c[k:]...)
		case 2:
			t = append(t, spellURL(w.R, pick(w.R, x.URLs))...)
		case 3:
			t = append(t, pick(w.R, notices)...)
		case 4:
			t = append(t, join(w.R, foreignN(w.R, w.R.IntN(10)), safeSeps)...)
		case 5:
			ws := derive(w.R, pick(w.R, x.Trees), fillForeign(w.R))
			t = append(t, join(w.R, ws, safeSeps)...)
		}
		t = append(t, pick(w.R, []string{"", " ", "\n", "\n\n", ".", "<br>", " http://x.org/y "})...)
	}
	if w.R.IntN(3) == 0 {
		t = mutateBytes(w.R, t, 1+w.R.IntN(6))
	}
	return t
}

func init() {
	invariant := func(id string, oracle func(w *W, list []lc.License, t []byte, got lc.Coverage, words []ref.Word)) func(c *Ctx) {
		return func(c *Ctx) {
			b := builtin(c)
			if b == nil {
				return
			}
			cp := corpus()
			each := func(w *W, x *World, t []byte, got lc.Coverage, want *ref.Result) {
				oracle(w, x.List, t, got, want.Words)
				if len(got.Match) > 1 {
					w.Inc("scans with several matches", 1)
				}
				for i := 1; i < len(got.Match); i++ {
					if got.Match[i-1].End == got.Match[i].Start {
						w.Inc("touching matches", 1)
					}
				}
			}
			for _, k := range profileOrder {
				fuzzModel(c, k, c.N(2500, 80000), modelProfiles()[k], 0, each)
			}
			// Every text over a tiny alphabet against patterns that overlap in
			// all ways.
			sets := [][]string{
				{"aaa bbb", "bbb aaa"}, {"aaa bbb ccc", "ccc aaa"}, {"aaa bbb", "aaa bbb aaa", "bbb aaa bbb"}, {"aaa aaa", "aaa aaa aaa"},
				{"aaa bbb __2__ ccc", "bbb ccc"}, {"copyright aaa", "aaa bbb"}, {"aaa bbb\n((copyright))??\nccc", "copyright bbb"}, {"aaa bbb http", "ccc aaa"}, {"aaa bbb copyright", "ccc bbb"}, {"aaa http", "http a org"}, {"aaa bbb\n((ccc aaa))??", "ccc aaa bbb"},
			}
			alpha := []string{"aaa", "bbb", "ccc", "copyright", "zzz", "http://a.org/b", "\n"}
			depth := c.N(5, 6)
			n := 1
			for i := 0; i < depth; i++ {
				n *= len(alpha)
			}
			c.Each("all short texts", len(sets)*n/343, func(w *W) {
				si := w.Case % len(sets)
				var list []lc.License
				for i, l := range sets[si] {
					list = append(list, lc.License{ID: string(rune('A' + i)), LRE: l})
				}
				list = append(list, lc.License{ID: "U", URL: "a.org/b"})
				s, err := lc.NewScanner(list)
				if err != nil {
					w.FailText("valid license set rejected", list, nil, "%v", err)
					return
				}
				for j := 0; j < 343; j++ {
					k := (w.Case/len(sets))*343 + j
					t := ""
					for i := 0; i < depth; i++ {
						t += alpha[k%len(alpha)] + " "
						k /= len(alpha)
					}
					got := s.Scan([]byte(t))
					w.Note(len(got.Match) > 0, t, list[0].LRE)
					each(w, &World{List: list}, []byte(t), got, &ref.Result{Words: ref.Split(t, nil)})
				}
			})
			c.Each("built-in mixtures", c.N(600, 30000), func(w *W) {
				t := b.builtinMix(w, cp)
				got := b.S.Scan(t)
				words := ref.Split(string(t), nil)
				w.Inc("words", len(words))
				w.Note(len(got.Match) > 0, string(t))
				if w.Case < 2 {
					w.Sample("built-in mixtures", clip(string(t), 300))
				}
				for _, m := range got.Match {
					if m.IsURL {
						w.Inc("URL matches", 1)
					} else {
						w.Inc("license matches", 1)
					}
				}
				each(w, b, t, got, &ref.Result{Words: words})
			})
		}
	}
	seq := func(w *W, list []lc.License, t []byte, got lc.Coverage, words []ref.Word) {
		w.Inc("coverages checked", 1)
		if s := structural(got.Match, len(t)); s != "" {
			w.FailText("malformed matches", shortList(list), t, "%s: %s", s, show(got.Match, got.Percent))
		}
	}
	inner := invariant("C03", seq)
	register(&Check{ID: "C03", Needs: []string{"coverages checked", "touching matches", "URL matches", "license matches", "copyright lead-ins"}, Run: func(c *Ctx) {
		c.Rule("online invariant on every Coverage: 0 <= Start < End <= len(text), End_i <= Start_i+1. Worlds with competing, overlapping, adjacent patterns, URLs touching matches, markup, mixtures of real licenses; all texts of up to 5 words over a 7-token alphabet. Non-trivial: a distinct text for which the scan tried at least one license or URL")
		inner(c)
	}})

	pct := func(w *W, list []lc.License, t []byte, got lc.Coverage, words []ref.Word) {
		w.Inc("coverages checked", 1)
		covered := 0
		for _, m := range got.Match {
			if a, b := wordRange(words, m.Start, m.End); a >= 0 {
				covered += b - a
			}
		}
		want := 0.0
		if len(words) > 0 {
			want = 100 * float64(covered) / float64(len(words))
		} else {
			w.Inc("texts without words", 1)
		}
		p := got.Percent
		bad := ""
		switch {
		case p != p:
			bad = "NaN"
		case p < 0 || p > 100:
			bad = "out of range"
		case (p == 0) != (len(got.Match) == 0 || len(words) == 0):
			bad = "zero if and only if no match: violated"
		case p-want > 1e-9 || want-p > 1e-9:
			bad = "not the share of covered words"
		}
		if bad != "" {
			w.FailText("wrong Percent", shortList(list), t, "%s: Percent %v, matches cover %d of %d words: %s", bad, p, covered, len(words), show(got.Match, p))
		}
		if p > 0 && p < 100 {
			w.Inc("partly covered texts", 1)
		}
		if p == 100 {
			w.Inc("fully covered texts", 1)
		}
	}
	inner4 := invariant("C04", pct)
	register(&Check{ID: "C04", Needs: []string{"coverages checked", "partly covered texts", "fully covered texts", "texts without words", "URL matches", "copyright lead-ins", "large known shares"}, Run: func(c *Ctx) {
		c.Rule("online oracle: Percent recomputed from the reported byte ranges with an independent word splitter, for every scan of the workloads of C03 plus texts without words and texts with a known number of foreign words. Non-trivial: a distinct text for which the scan tried at least one license or URL")
		inner4(c)
		b := builtin(c)
		if b == nil {
			return
		}
		// Texts with an exactly known share.
		c.Each("known share", c.N(1500, 50000), func(w *W) {
			u := newUnique(w.R)
			n := 2 + w.R.IntN(60)
			var ws []string
			for i := 0; i < n; i++ {
				ws = append(ws, u.word(nil))
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(ws...)}, {ID: "U", URL: "example.org/one/two"}})
			if x == nil {
				return
			}
			var tw []string
			covered, total := 0, 0
			for k := w.R.IntN(7); k >= 0; k-- {
				switch w.R.IntN(4) {
				case 0:
					tw = append(tw, ws...)
					covered += n
					total += n
				case 1:
					f := foreignN(w.R, 1+w.R.IntN(80))
					tw = append(tw, f...)
					total += len(f)
				case 2:
					tw = append(tw, "http://example.org/one/two") // 5 words
					covered += 5
					total += 5
				case 3:
					tw = append(tw, "copyright zqzqzvvz zqzqxx") // lead-in if a license follows directly
					tw = append(tw, ws...)
					covered += 3 + n
					total += 3 + n
				}
				if tw[len(tw)-1] == "copyright" {
					break
				}
			}
			t := []byte(join(w.R, tw, []string{" ", "\n", "  "}))
			got := x.S.Scan(t)
			w.Note(true, string(t))
			w.Inc("known shares", 1)
			if want := 100 * float64(covered) / float64(total); got.Percent-want > 1e-9 || want-got.Percent > 1e-9 {
				w.FailText("wrong Percent", x.List, t, "%v, want %d of %d words = %v", got.Percent, covered, total, want)
			}
		})
		// Long texts with an exactly known share, of words short and long.
		c.Each("known share, large", c.N(60, 1200), func(w *W) {
			u := newUnique(w.R)
			var ws []string
			for n := 2 + w.R.IntN(90); n > 0; n-- {
				ws = append(ws, u.word(nil))
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(ws...)}, {ID: "U", URL: "example.org/one/two"}})
			if x == nil {
				return
			}
			size := pick(w.R, []int{1200, 5000, 11000, 17000, 34000, 70000})
			long := 1 + w.R.IntN(30)
			share := w.R.IntN(5)
			sep := pick(w.R, []string{" ", "\n", "  ", "\n\n\n", " <b> "})
			var b strings.Builder
			covered, total, matches := 0, 0, 0
			for total < size {
				k := 5
				if total > 0 {
					k = w.R.IntN(6)
				}
				switch {
				case k < share:
					b.WriteString(strings.Join(ws, sep))
					covered += len(ws)
					total += len(ws)
					matches++
				case k == share && w.R.IntN(4) == 0:
					b.WriteString("http://example.org/one/two")
					covered += 5
					total += 5
					matches++
				default:
					for n := 1 + w.R.IntN(1+size/8); n > 0; n-- {
						b.WriteString(strings.Repeat("zq", 1+w.R.IntN(long)) + sep)
						total++
					}
				}
				b.WriteString(sep)
			}
			t := []byte(b.String())
			got := x.S.Scan(t)
			w.Note(true, string(t[:min(len(t), 4000)]), fmt.Sprint(total))
			w.Inc("large known shares", 1)
			w.Inc("words of large texts", total)
			if want := 100 * float64(covered) / float64(total); got.Percent-want > 1e-9 || want-got.Percent > 1e-9 || len(got.Match) != matches {
				w.FailText("wrong Percent", x.List, t, "%d matches, %v, want %d matches, %d of %d words = %v", len(got.Match), got.Percent, matches, covered, total, want)
			}
		})
		c.Each("no words", c.N(400, 5000), func(w *W) {
			t := ""
			for i := w.R.IntN(8); i > 0; i-- {
				t += pick(w.R, []string{" ", "\n", "<b>", "&nbsp;", "{#x}", "](#a)", "...", "\x00", "\xff", "\u0301", "-", "()", "(", "\t\r\n", "♥", "&#160;", "</p>", "\u00a0"})
			}
			s := b.S
			got := s.Scan([]byte(t))
			w.Note(true, t)
			pct(w, nil, []byte(t), got, ref.Split(t, nil))
			if got.Percent != 0 || len(got.Match) != 0 {
				w.FailText("wrong Percent", nil, []byte(t), "text without words: %s", show(got.Match, got.Percent))
			}
		})
	}})
}

func shortList(list []lc.License) []lc.License {
	if len(list) > 50 {
		return nil
	}
	return list
}
