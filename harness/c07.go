package main

import (
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// judge checks every license match of a coverage against the acceptor.
func judge(w *W, x *World, t []byte, got lc.Coverage, words []ref.Word) {
	for _, m := range got.Match {
		if m.IsURL {
			continue
		}
		w.Inc("matches judged", 1)
		a, b := wordRange(words, m.Start, m.End)
		if a < 0 || !x.Set.CanAccept(m.ID, words, a, b) {
			end := ""
			for i := max(a, 0); i < b && i < a+60; i++ {
				end += words[i].Raw + " "
			}
			w.FailText("false positive", shortList(x.List), t, "match %s [%d:%d], words [%d:%d] %q, is accepted by no pattern of that license", m.ID, m.Start, m.End, a, b, clip(end, 400))
		}
	}
}

func init() {
	register(&Check{ID: "C07", Needs: []string{"matches judged", "near misses without a match", "built-in near misses", "misspelled words", "wildcard words", "damaged instances"}, Run: func(c *Ctx) {
		c.Rule("every license match of every scan is judged by an independent acceptor (backtracking over the pattern's syntax tree with the documented tolerances, choices resolved in favour of acceptance); instances of unambiguous patterns damaged at every position must give no match there. Non-trivial: distinct text for which at least one license start was tried")
		b := builtin(c)
		if b == nil {
			return
		}
		for _, k := range profileOrder {
			p := modelProfiles()[k]
			p.Weights = [nPieceKinds]int{3, 8, 4, 1, 1, 1, 1, 2}
			p.Tree.PWild = 0.2
			fuzzModel(c, k, c.N(3500, 120000), p, 0, func(w *W, x *World, t []byte, got lc.Coverage, want *ref.Result) {
				judge(w, x, t, got, want.Words)
				if want.Trace.Failed > 0 && len(got.Match) == 0 {
					w.Inc("near misses without a match", 1)
				}
			})
		}
		// Patterns that are hard to tell apart from near misses: short words,
		// repeated words, wildcards next to optional parts.
		p := defaultProfile()
		p.Voc = mixVoc([]string{"a", "b", "ab", "abc", "abcd", "c", "copyright", "the", "is"})
		p.Weights = [nPieceKinds]int{2, 8, 3, 1, 1, 0, 0, 4}
		p.Tree.PWild, p.Tree.WildMax = 0.3, 6
		fuzzModel(c, "tiny words", c.N(4000, 150000), p, 0, func(w *W, x *World, t []byte, got lc.Coverage, want *ref.Result) {
			judge(w, x, t, got, want.Words)
		})
		// Near misses of the built-in licenses.
		cp := corpus()
		c.Each("built-in near misses", c.N(700, 30000), func(w *W) {
			var t []byte
			if w.R.IntN(3) > 0 {
				ws := derive(w.R, pick(w.R, b.Trees), fillForeign(w.R))
				for k := 1 + w.R.IntN(3); k > 0; k-- {
					ws = mutateWords(w.R, ws, func(*randT) string { return pick(w.R, ws) })
				}
				t = []byte(join(w.R, ws, safeSeps))
			} else {
				f := strings.Fields(string(pick(w.R, cp)))
				for k := 1 + w.R.IntN(8); k > 0; k-- {
					f = mutateWords(w.R, f, func(*randT) string { return pick(w.R, f) })
				}
				t = []byte(strings.Join(f, " "))
			}
			got := lc.Scan(t)
			words := ref.Split(string(t), nil)
			w.Inc("words", len(words))
			w.Note(true, string(t))
			judge(w, b, t, got, words)
			w.Inc("built-in near misses", 1)
		})
		// Exhaustive damage to instances of patterns made of unique words.
		c.Each("damaged instances", c.N(120, 4000), func(w *W) {
			u := newUnique(w.R)
			n := 4 + w.R.IntN(20)
			var ws []string
			for i := 0; i < n; i++ {
				ws = append(ws, u.word(nil))
			}
			other := u.word(nil)
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(ws...)}, {ID: "M", LRE: lits(other, u.word(nil), u.word(nil))}})
			if x == nil {
				return
			}
			none := func(what string, i int, t []string) {
				text := []byte("zqzqzvvz " + strings.Join(t, " ") + " zqzqzvvz")
				got := x.S.Scan(text)
				w.Inc("damaged instances", 1)
				w.Note(true, string(text))
				if len(got.Match) > 0 {
					w.FailText("false positive", x.List, text, "%s at word %d of %d still matches: %s", what, i, n, show(got.Match, got.Percent))
				}
			}
			cat := func(parts ...[]string) []string {
				var out []string
				for _, p := range parts {
					out = append(out, p...)
				}
				return out
			}
			for i := 0; i < n; i++ {
				none("word dropped", i, cat(ws[:i], ws[i+1:]))
				none("word replaced by a foreign one", i, cat(ws[:i], []string{"zqzqqxqx"}, ws[i+1:]))
				none("word replaced by one of another license", i, cat(ws[:i], []string{other}, ws[i+1:]))
				none("first letter and last letter changed", i, cat(ws[:i], []string{"z" + ws[i][1:5] + "z"}, ws[i+1:]))
				if i > 0 {
					none("foreign word added", i, cat(ws[:i], []string{"zqzqqxqx"}, ws[i:]))
					none("words swapped", i, cat(ws[:i-1], []string{ws[i], ws[i-1]}, ws[i+1:]))
					none("text cut off", i, ws[:i])
					none("two words dropped", i, cat(ws[:i-1], ws[i+1:]))
				}
				if i > 0 && i < n-1 {
					none("word repeated", i, cat(ws[:i], []string{ws[i]}, ws[i:]))
					none("short word added", i, cat(ws[:i], []string{"zz"}, ws[i:]))
				}
				if i > 0 && i < 2 {
					none("typo in a leading word", i, cat(ws[:i], []string{ws[i] + "z"}, ws[i+1:]))
				}
			}
			none("typo in a leading word", 0, cat([]string{"z" + ws[0]}, ws[1:]))
			none("leading word broken", 0, cat([]string{ws[0][:3], ws[0][3:]}, ws[1:]))
			none("leading words fused", 0, cat([]string{ws[0] + ws[1]}, ws[2:]))
			// The damaged end must not be taken from what follows the text end.
			t := []byte(strings.Join(ws[:n-1], " "))
			if got := x.S.Scan(t); len(got.Match) > 0 {
				w.FailText("false positive", x.List, t, "last word missing at end of text: %s", show(got.Match, got.Percent))
			}
		})
		// Alternatives and optional parts: exactly one alternative, not both,
		// not neither, and wildcards with one word too many.
		c.Each("wrong choices", c.N(300, 10000), func(w *W) {
			u := newUnique(w.R)
			k := func(n int) string {
				var o []string
				for ; n > 0; n-- {
					o = append(o, u.word(nil))
				}
				return strings.Join(o, " ")
			}
			a, oa, ta, b1, b2, b3, d := k(2), k(2), k(2), k(1+w.R.IntN(3)), k(1+w.R.IntN(3)), k(1), k(1+w.R.IntN(4))
			n := w.R.IntN(12)
			x := w.mkSet([]lc.License{
				{ID: "alt", LRE: a + "\n((" + b1 + " || " + b2 + "))\n" + d},
				{ID: "opt", LRE: oa + "\n((" + b1 + "))??\n" + b3 + "\n((" + b2 + "))??\n" + d},
				{ID: "wild", LRE: ta + fmt.Sprintf(" __%d__ ", n) + d},
			})
			if x == nil {
				return
			}
			fill := func(n int) string { return strings.Join(foreignN(w.R, n), " ") }
			for i, t := range []string{
				a + " " + d, a + " " + b1 + " " + b2 + " " + d, a + " " + b2 + " " + b1 + " " + d, a + " " + b1 + " " + b1 + " " + d, a + " " + fill(1) + " " + d, a + " " + b1, a + " " + b2,
				oa + " " + d, oa + " " + b1 + " " + d, oa + " " + b1 + " " + b1 + " " + b3 + " " + d, oa + " " + b2 + " " + b3 + " " + d, oa + " " + b3 + " " + b1 + " " + d, oa + " " + b3 + " " + b3 + " " + d, oa + " " + b3,
				ta + " " + fill(n+1) + " " + d, ta + " " + fill(n+2) + " " + d, ta + " " + fill(n), ta + " " + fill(n+7) + " " + d, ta,
			} {
				got := x.S.Scan([]byte(t))
				w.Inc("damaged instances", 1)
				w.Note(true, t)
				if len(got.Match) > 0 {
					w.FailText("false positive", x.List, []byte(t), "wrong choice %d matches: %s", i, show(got.Match, got.Percent))
				}
			}
		})
	}})
}
