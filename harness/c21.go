package main

import (
	"bytes"
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// maxWild is the largest wildcard count in a pattern.
func maxWild(n *ref.Node) int {
	m := 0
	if n.Op == ref.Wild {
		m = n.N
	}
	for _, x := range n.Sub {
		m = max(m, maxWild(x))
	}
	return m
}

// filler makes n foreign words with some line breaks.
func filler(w *W, n int) []byte {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		b.WriteString(foreign(w.R))
		switch w.R.IntN(9) {
		case 0:
			b.WriteByte('\n')
		case 1:
			b.WriteString(". ")
		default:
			b.WriteByte(' ')
		}
	}
	return b.Bytes()
}

// insertion puts n foreign words at a blank between words i-1 and i of the
// text and returns the new text; ok is false if there is no blank.
func insertion(w *W, t []byte, ws []ref.Word, i, n int) (out []byte, ok bool) {
	lo, hi := 0, len(t)
	if i > 0 {
		lo = ws[i-1].Hi
	}
	if i < len(ws) {
		hi = ws[i].Lo
	}
	var at []int
	for p := lo; p < hi; p++ {
		if t[p] == ' ' || t[p] == '\n' || t[p] == '\t' {
			at = append(at, p)
		}
	}
	if i == 0 {
		at = append(at, 0)
	}
	if i == len(ws) {
		at = append(at, len(t))
	}
	if len(at) == 0 {
		return nil, false
	}
	p := pick(w.R, at)
	out = append(out, t[:p]...)
	out = append(out, pick(w.R, []string{" ", "\n", "\n\n"})...)
	out = append(out, bytes.TrimRight(filler(w, n), ". \n")...)
	out = append(out, pick(w.R, []string{" ", "\n", "\n\n"})...)
	out = append(out, t[p:]...)
	return out, true
}

func init() {
	register(&Check{ID: "C21", Needs: []string{"insertions", "insertions before a match", "insertions behind a match", "parts concatenated", "adjacent parts", "megabytes in one text", "texts far away"}, Run: func(c *Ctx) {
		c.Rule("two executions of the real scanner are compared: a text and the same text with 1..300 foreign words inserted at a blank outside every match; a text of its own and the same text inside a concatenation of up to thousands of parts (several MB). Matches must be the same over the same words. The model is run on both texts of an insertion to leave out those where the specification itself ties the two (an instance under way). Non-trivial: each pair with at least one match")
		b := builtin(c)
		if b == nil {
			return
		}
		insert := func(w *W, x *World, t []byte) {
			got := x.S.Scan(t)
			want := x.Set.Scan(t)
			if want.Trace.Ambiguous > 0 {
				return
			}
			ws := want.Words
			g := inWords(ws, got.Match)
			var free []int
			for i := 0; i <= len(ws); i++ {
				in := false
				for _, m := range g {
					in = in || m.A < i && i < m.B
				}
				if !in {
					free = append(free, i)
				}
			}
			for k := 0; k < 6; k++ {
				i := pick(w.R, free)
				if k < 3 && len(g) > 0 { // right before or behind a match
					m := pick(w.R, g)
					i = m.A
					if w.R.IntN(2) == 0 {
						i = m.B
					}
				}
				n := pick(w.R, []int{1, 2, 3, 10, 49, 50, 51, 52, 53, 120, 300})
				t2, ok := insertion(w, t, ws, i, n)
				if !ok {
					continue
				}
				want2 := x.Set.Scan(t2)
				if want2.Trace.Ambiguous > 0 || len(want2.Words) != len(ws)+n || len(want2.Matches) != len(want.Matches) {
					w.Inc("insertions left out", 1)
					continue
				}
				at := func(j int, end bool) int {
					if j > i || j == i && !end {
						return j + n
					}
					return j
				}
				same := true
				for j, m := range want.Matches {
					m2 := want2.Matches[j]
					same = same && m2.Lic == m.Lic && m2.IsURL == m.IsURL && m2.W0 == at(m.W0, false) && m2.W1 == at(m.W1, true)
				}
				if !same {
					w.Inc("insertions left out", 1)
					continue
				}
				got2 := x.S.Scan(t2)
				g2 := inWords(want2.Words, got2.Match)
				w.Inc("insertions", 1)
				exp := append([]WM(nil), g...)
				for j := range exp {
					if exp[j].A == i {
						w.Inc("insertions before a match", 1)
					}
					if exp[j].B == i {
						w.Inc("insertions behind a match", 1)
					}
					exp[j].A, exp[j].B = at(exp[j].A, false), at(exp[j].B, true)
				}
				w.Note(len(g) > 0, string(t), string(t2))
				if !sameWM(g2, exp) {
					w.FailText("insertion changes matches", shortList(x.List), t2, "%d words put in before word %d: got %s want %s; without them the scan gives %s", n, i, showWM(g2), showWM(exp), showWM(g))
					return
				}
				if d := differs(got2, want2, aStart|aEnd|aURL|aPercent); d != "" {
					w.FailText("offsets not shifted", shortList(x.List), t2, "%d words put in before word %d: %s; got %s want %s", n, i, d, show(got2.Match, got2.Percent), showRef(want2))
					return
				}
			}
		}
		for _, k := range profileOrder {
			p := modelProfiles()[k]
			p.Seps = safeSeps
			p.Bytes = 0
			p.Weights = [nPieceKinds]int{6, 2, 2, 4, 4, 2, 1, 1}
			c.Each("insert "+k, c.N(700, 30000), func(w *W) {
				x := newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				for j := 0; j < 4; j++ {
					insert(w, x, x.text(w.R))
				}
			})
		}
		cp := corpus()
		c.Each("insert built-in", c.N(250, 6000), func(w *W) {
			t := b.builtinMix(w, cp)
			if len(t) < 60000 {
				insert(w, b, t)
			}
		})

		// Concatenation: each part alone and among others.
		concat := func(w *W, x *World, parts [][]byte, sep int) {
			pads := [][]byte{append(filler(w, sep), '\n', '\n')}
			for range parts {
				pads = append(pads, append(append([]byte("\n\n"), filler(w, sep)...), '\n', '\n'))
			}
			var all []byte
			var want []lc.Match

			all = append(all, pads[0]...)
			for i, p := range parts {
				alone := append(append(append([]byte(nil), pads[i]...), p...), pads[i+1]...)
				r := x.S.Scan(alone)
				for _, m := range r.Match {
					m.Start += len(all) - len(pads[i])
					m.End += len(all) - len(pads[i])
					want = append(want, m)
				}

				all = append(all, p...)
				all = append(all, pads[i+1]...)
			}
			got := x.S.Scan(all)
			w.Inc("parts concatenated", len(parts))
			w.Inc("bytes scanned", len(all))
			w.Note(len(want) > 0, string(all))
			if !sameMatches(got.Match, want) {
				for i := range got.Match {
					if i >= len(want) || got.Match[i] != want[i] {
						exp := "no match"
						if i < len(want) {
							exp = show(want[i:i+1], 0)
						}
						w.FailText("concatenation changes matches", shortList(x.List), all, "%d parts, %d bytes: %d matches, want %d; match %d is %s, want %s", len(parts), len(all), len(got.Match), len(want), i, show(got.Match[i:i+1], 0), exp)
						return
					}
				}
				w.FailText("concatenation changes matches", shortList(x.List), all, "%d parts, %d bytes: %d matches, want %d; missing %s", len(parts), len(all), len(got.Match), len(want), show(want[len(got.Match):], 0))
			}
		}
		big := 0
		for _, t := range b.Trees {
			big = max(big, maxWild(t))
		}
		sepB := max(200, 2*big+60)
		c.Each("concatenate built-in", c.N(40, 600), func(w *W) {
			var parts [][]byte
			for n := 2 + w.R.IntN(c.N(60, 300)); n > 0; n-- {
				switch w.R.IntN(5) {
				case 0:
					parts = append(parts, []byte(join(w.R, derive(w.R, pick(w.R, b.Trees), fillForeign(w.R)), safeSeps)))
				case 1:
					parts = append(parts, []byte(spellURL(w.R, pick(w.R, b.URLs))))
				case 2:
					parts = append(parts, mutateBytes(w.R, pick(w.R, cp), 3))
				default:
					parts = append(parts, pick(w.R, cp))
				}
			}
			concat(w, b, parts, sepB)
		})
		for _, k := range profileOrder {
			p := modelProfiles()[k]
			c.Each("concatenate "+k, c.N(60, 2000), func(w *W) {
				x := newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				var parts [][]byte
				for n := 2 + w.R.IntN(80); n > 0; n-- {
					parts = append(parts, x.text(w.R))
				}
				concat(w, x, parts, 260)
			})
		}
		// Thousands of parts, several MB in one text.
		c.Each("thousands of parts", c.N(4, 40), func(w *W) {
			p := modelProfiles()[profileOrder[w.Case%len(profileOrder)]]
			p.PURL = 0.4
			x := newWorld(w.R, &p)
			if !x.scanner(w) {
				return
			}
			var parts [][]byte
			for n := c.N(3000, 8000) + w.R.IntN(1000); n > 0; n-- {
				parts = append(parts, x.text(w.R))
			}
			concat(w, x, parts, 210)
			n := 0
			for _, p := range parts {
				n += len(p)
			}
			w.Inc("megabytes in one text", (n+210*9*len(parts))>>20)
		})
		// Matches next to each other or one word apart, beyond every power of
		// two up to the text's size in matches, words and bytes.
		c.Each("adjacent parts", c.N(6, 60), func(w *W) {
			u := newUnique(w.R)
			var list []lc.License
			var pats [][]string
			for i := 0; i < 1+w.R.IntN(5); i++ {
				var p []string
				for k := 2 + w.R.IntN(6); k > 0; k-- {
					p = append(p, u.word(nil))
				}
				pats = append(pats, p)
				list = append(list, lc.License{ID: fmt.Sprint("L", i), LRE: lits(p...)})
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			var ids []string
			var insts [][]string
			for n := []int{300, 5000, 40000, 70000, 140000, 200000}[w.Case%6]; n > 0; n-- {
				i := w.R.IntN(len(pats))
				ids = append(ids, list[i].ID)
				insts = append(insts, pats[i])
			}
			w.Inc("adjacent parts", len(insts))
			gap := func() int { return max(0, w.R.IntN(5)-3) }
			t, want := compose(w.R, ids, insts, gap, []string{" ", " ", "\n", ", "})
			w.expectWords("matches lost among many", x, t, want)
		})
		// A license behind tens of megabytes of blanks or millions of words.
		c.Serial("far away", c.N(6, 14), func(w *W) {
			pad := []string{"zqzq ", "\n", " -- \n", "zvvz zqzq ", "a ", "\t", "é ", "<b>\n", "zqzq\n", "qxqx (zvvz) ", "* ", "z ", "zqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzqzq ", " "}[w.Case]
			size := []int{6 << 20, 18 << 20, 36 << 20, 24 << 20, 5 << 20, 70 << 20, 40 << 20, 70 << 20, 80 << 20, 60 << 20, 140 << 20, 70 << 20, 300 << 20, 600 << 20}[w.Case]
			u := newUnique(w.R)
			p := []string{u.word(nil), u.word(nil), u.word(nil), u.word(nil)}
			url := "example.org/licenses/" + u.word(nil)
			list := []lc.License{{ID: "L", LRE: lits(p...)}, {ID: "U", URL: url}}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			var tail bytes.Buffer
			for k := 0; k < 4; k++ {
				tail.WriteString("\nzqzq zvvz\n" + lits(p...) + "\nzvvz\nhttp://" + url + "\n")
				tail.Write(filler(w, 60))
			}
			alone := x.S.Scan(tail.Bytes())
			head := strings.Repeat(pad, size/len(pad))
			t := append([]byte(head), tail.Bytes()...)
			got := x.S.Scan(t)
			w.Inc("megabytes in one text", len(t)>>20)
			w.Inc("texts far away", 1)
			w.Note(true, fmt.Sprint("far", w.Case))
			want := cloneCov(alone)
			for i := range want.Match {
				want.Match[i].Start += len(head)
				want.Match[i].End += len(head)
			}
			if len(want.Match) != 8 || !sameMatches(got.Match, want.Match) {
				w.FailText("match lost behind a large text", list, tail.Bytes(), "behind %d bytes of %q: got %s want %s", len(head), pad, show(got.Match, 0), show(want.Match, 0))
			}
		})
		// One license deep inside megabytes of foreign or vocabulary words.
		c.Each("deep inside", c.N(6, 60), func(w *W) {
			u := newUnique(w.R)
			p := []string{u.word(nil), u.word(nil), u.word(nil), u.word(nil)}
			o := []string{u.word(nil), u.word(nil), u.word(nil)}
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(p...)}, {ID: "M", LRE: lits(o...)}})
			if x == nil {
				return
			}
			near := strings.Join([]string{o[0], o[1], p[0], p[1], p[2], p[3][:2], o[1], o[2]}, " ") + "\n"
			var t bytes.Buffer
			n := 1 << (12 + w.R.IntN(c.N(11, 13)))
			for t.Len() < n {
				if w.Case%2 == 0 {
					t.WriteString(near)
				} else {
					t.Write(filler(w, 50))
				}
			}
			a := len(ref.Split(t.String(), nil))
			t.WriteString(" " + lits(p...) + " \n zqzqzvvz " + lits(o...) + " ")
			k := a + 8
			for m := t.Len() + n; t.Len() < m; {
				if w.Case%2 == 0 {
					t.WriteString(near)
				} else {
					t.Write(filler(w, 50))
				}
			}
			w.Inc("megabytes in one text", t.Len()>>20)
			w.expectWords("match lost in a large text", x, t.Bytes(), []WM{{ID: "L", A: a, B: a + 4}, {ID: "M", A: k - 3, B: k}})
		})
	}})
}
