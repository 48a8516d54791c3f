package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	lc "github.com/google/licensecheck"
)

// arbitrate is the documented choice among literal patterns: leftmost place,
// longest pattern there, earliest listed among equals, go on behind it.
func arbitrate(pats [][]string, ids []string, ws []string) []WM {
	var out []WM
	for i := 0; i < len(ws); {
		best, bl := -1, 0
		for k, p := range pats {
			if len(p) > bl && i+len(p) <= len(ws) {
				ok := true
				for j := range p {
					ok = ok && ws[i+j] == p[j]
				}
				if ok {
					best, bl = k, len(p)
				}
			}
		}
		if best < 0 {
			i++
			continue
		}
		out = append(out, WM{ID: ids[best], A: i, B: i + bl})
		i += bl
	}
	return out
}

// wordsOf lists all sequences of lo..hi words over an alphabet.
func wordsOf(alpha []string, lo, hi int) [][]string {
	var out [][]string
	cur := [][]string{nil}
	for n := 0; n <= hi; n++ {
		if n >= lo {
			out = append(out, cur...)
		}
		var next [][]string
		for _, c := range cur {
			for _, a := range alpha {
				next = append(next, append(append([]string(nil), c...), a))
			}
		}
		cur = next
	}
	return out
}

// rangesOf returns the word ranges of matches in a text whose i-th word begins
// at at[i] and ends at at[i]+wlen.
func expectLiteral(w *W, list []lc.License, s *lc.Scanner, pats [][]string, ids []string, ws []string) bool {
	t := []byte(strings.Join(ws, " "))
	got := s.Scan(t)
	want := arbitrate(pats, ids, ws)
	w.Note(len(want) > 0, list[0].LRE, list[len(list)-1].LRE, string(t))
	w.Inc("matches arbitrated", len(want))
	// word k begins at the sum of the lengths before it
	at := map[int]int{}
	end := map[int]int{}
	p := 0
	for i, x := range ws {
		at[p] = i
		end[p+len(x)] = i + 1
		p += len(x) + 1
	}
	ok := len(got.Match) == len(want)
	var have []WM
	for i, m := range got.Match {
		a, ok1 := at[m.Start]
		b, ok2 := end[m.End]
		if !ok1 || !ok2 {
			a, b = -1, -1
		}
		have = append(have, WM{ID: m.ID, URL: m.IsURL, A: a, B: b})
		if ok && (have[i].ID != want[i].ID || a != want[i].A || b != want[i].B) {
			ok = false
		}
	}
	if !ok {
		w.Fail(Violation{Kind: "wrong license chosen", Message: "scan differs from leftmost-longest-earliest", Want: showWM(want), Got: showWM(have), Text: clip(string(t), 4000), TextB64: b64(t), Licenses: shortList(list)})
	}
	return ok
}

func litSet(w *W, pats [][]string) ([]lc.License, []string, *lc.Scanner) {
	var list []lc.License
	var ids []string
	for i, p := range pats {
		id := fmt.Sprintf("P%d", i)
		ids = append(ids, id)
		list = append(list, lc.License{ID: id, LRE: lits(p...)})
	}
	s, err := lc.NewScanner(list)
	if err != nil || s == nil {
		w.FailText("valid license set rejected", shortList(list), nil, "%v", err)
		return nil, nil, nil
	}
	return list, ids, s
}

func init() {
	register(&Check{ID: "C09", Needs: []string{"matches arbitrated", "ties", "prefix chains", "permuted lists", "adjacent licenses"}, Run: func(c *Ctx) {
		c.Rule("exhaustive: literal pattern sets over two words x all texts of up to 7 words, against a brute-force arbiter; directed prefix chains, ties, permuted lists and adjacent runs; random competing patterns with groups and wildcards against the model (IDs, order, word extents). Non-trivial: a distinct text in which some license starts")
		short := []string{"aaa", "bbb"}
		pool := wordsOf(short, 2, 3)
		texts := wordsOf([]string{"aaa", "bbb", "zzz"}, 2, c.N(6, 8))
		np := len(pool)
		c.Each("all pairs of patterns", np*np, func(w *W) {
			pats := [][]string{pool[w.Case%np], pool[w.Case/np]}
			list, ids, s := litSet(w, pats)
			for _, t := range texts {
				if s == nil || !expectLiteral(w, list, s, pats, ids, t) {
					return
				}
			}
		})
		c.Each("triples and more", c.N(700, 12000), func(w *W) {
			var pats [][]string
			pool := pool
			if w.R.IntN(2) == 0 {
				pool = wordsOf([]string{"aaa", "bbb", "ccc"}, 2, 4)
			}
			for n := 3 + w.R.IntN(6); n > 0; n-- {
				pats = append(pats, pick(w.R, pool))
			}
			list, ids, s := litSet(w, pats)
			for k := 0; s != nil && k < 300; k++ {
				var t []string
				for n := 2 + w.R.IntN(14); n > 0; n-- {
					t = append(t, pick(w.R, []string{"aaa", "bbb", "ccc", "zzz"}))
				}
				if !expectLiteral(w, list, s, pats, ids, t) {
					return
				}
			}
			// The list in another order.
			w.Inc("permuted lists", 1)
			var perm [][]string
			for _, i := range w.R.Perm(len(pats)) {
				perm = append(perm, pats[i])
			}
			list, ids, s = litSet(w, perm)
			for k := 0; s != nil && k < 300; k++ {
				if !expectLiteral(w, list, s, perm, ids, pick(w.R, texts)) {
					return
				}
			}
		})
		c.Each("prefix chains", c.N(300, 6000), func(w *W) {
			// Patterns that are prefixes of one another, in any order of the
			// list, with every cut of the longest as text.
			u := newUnique(w.R)
			n := 3 + w.R.IntN(40)
			var full []string
			for i := 0; i < n; i++ {
				full = append(full, u.word(nil))
			}
			var pats [][]string
			for k := 1 + w.R.IntN(8); k > 0; k-- {
				pats = append(pats, full[:2+w.R.IntN(n-1)])
			}
			pats = append(pats, full)
			w.R.Shuffle(len(pats), func(i, j int) { pats[i], pats[j] = pats[j], pats[i] })
			w.Inc("prefix chains", 1)
			list, ids, s := litSet(w, pats)
			for k := 0; s != nil && k <= n; k++ {
				t := append([]string{"zqzqzq"}, full[:k]...)
				t = append(t, "zvvzqxqx")
				if !expectLiteral(w, list, s, pats, ids, t) {
					return
				}
				if !expectLiteral(w, list, s, pats, ids, append(append([]string{}, full[:k]...), full...)) {
					return
				}
			}
		})
		c.Each("long chains", c.N(24, 200), func(w *W) {
			// A short pattern and continuations of it that end thousands of
			// words later, or break off there.
			u := newUnique(w.R)
			n := []int{300, 1000, 3000, 9000, 20000, 40000}[w.Case%6] + w.R.IntN(100)
			voc := make([]string, 200)
			for i := range voc {
				voc[i] = u.word(nil)
			}
			full := []string{u.word(nil), u.word(nil)}
			for len(full) < n {
				full = append(full, pick(w.R, voc))
			}
			pats := [][]string{full[:2+w.R.IntN(3)], full}
			for k := w.R.IntN(4); k > 0; k-- {
				pats = append(pats, full[:5+w.R.IntN(n-5)])
			}
			w.R.Shuffle(len(pats), func(i, j int) { pats[i], pats[j] = pats[j], pats[i] })
			w.Inc("prefix chains", 1)
			w.Inc("words of long chains", n)
			list, ids, s := litSet(w, pats)
			for _, k := range []int{n, n - 1, n / 2, 5 + w.R.IntN(n-5)} {
				if s == nil {
					return
				}
				t := append([]string{"zqzqzq"}, full[:k]...)
				t = append(t, "zvvzqxqx")
				t = append(t, full[:4]...)
				if !expectLiteral(w, list, s, pats, ids, t) {
					return
				}
			}
		})
		c.Each("adjacent runs", c.N(300, 5000), func(w *W) {
			// Many licenses one behind the other without anything between.
			u := newUnique(w.R)
			var pats [][]string
			for i := 2 + w.R.IntN(6); i > 0; i-- {
				var p []string
				for j := 2 + w.R.IntN(5); j > 0; j-- {
					p = append(p, u.word(nil))
				}
				pats = append(pats, p)
			}
			// some share their head, some start with the tail of another
			for i := w.R.IntN(4); i > 0; i-- {
				p := pick(w.R, pats)
				q := append([]string(nil), p[:1+w.R.IntN(len(p))]...)
				pats = append(pats, append(q, u.word(nil), u.word(nil)))
				pats = append(pats, append([]string{p[len(p)-1]}, u.word(nil)))
			}
			list, ids, s := litSet(w, pats)
			for k := 0; s != nil && k < 40; k++ {
				var t []string
				for n := 1 + w.R.IntN(30); n > 0; n-- {
					t = append(t, pick(w.R, pats)...)
				}
				w.Inc("adjacent licenses", len(t))
				if !expectLiteral(w, list, s, pats, ids, t) {
					return
				}
			}
		})
		// The same language written in different ways: a tie.
		c.Each("ties", c.N(400, 8000), func(w *W) {
			u := newUnique(w.R)
			a, b, d, e := u.word(nil), u.word(nil), u.word(nil), u.word(nil)
			forms := []string{
				lits(a, b, d, e),
				fmt.Sprintf("%s %s\n((%s))\n%s", a, b, d, e),
				fmt.Sprintf("%s %s\n((%s))??\n%s", a, b, d, e),
				fmt.Sprintf("%s %s\n((%s || %s))\n%s", a, b, d, u.word(nil), e),
				fmt.Sprintf("%s %s __1__ %s", a, b, e),
				fmt.Sprintf("%s %s __9__ %s", a, b, e),
				fmt.Sprintf("%s %s %s\n((%s || %s %s))", a, b, d, e, e, u.word(nil)),
				fmt.Sprintf("((%s || %s)) \n%s %s %s", a, u.word(nil), b, d, e),
			}
			var list []lc.License
			for i := 2 + w.R.IntN(5); i > 0; i-- {
				list = append(list, lc.License{ID: fmt.Sprintf("T%d", len(list)), LRE: pick(w.R, forms)})
			}
			// entries in front that do not compete
			pos := w.R.IntN(3)
			for i := 0; i < pos; i++ {
				list = append([]lc.License{{ID: fmt.Sprintf("O%d", i), LRE: lits(u.word(nil), u.word(nil))}}, list...)
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			w.Inc("ties", 1)
			pre, post := foreignN(w.R, w.R.IntN(4)), foreignN(w.R, w.R.IntN(4))
			ws := append(append(append([]string{}, pre...), a, b, d, e), post...)
			t := []byte(join(w.R, ws, safeSeps))
			w.expectWords("tie not won by the earliest license", x, t, []WM{{ID: "T0", A: len(pre), B: len(pre) + 4}})
		})
		p := competing()
		p.Voc = mixVoc(vocShort[:4])
		p.NLic = [2]int{2, 8}
		p.PURL, p.PURLOnly = 0, 0
		p.Weights = [nPieceKinds]int{8, 2, 3, 1, 0, 0, 0, 4}
		p.Seps = []string{" "}
		fuzzModel(c, "competing patterns", c.N(4000, 150000), p, aIDs|aCore, nil)
		p.Voc = mixVoc(vocShort)
		p.Tree.PWild, p.Tree.PGroup = 0.25, 0.4
		fuzzModel(c, "competing groups", c.N(3000, 100000), p, aIDs|aCore, nil)
		// The same licenses in two orders: the same places are covered and each
		// is given to the license that comes first in its list.
		c.Each("two orders", c.N(1500, 40000), func(w *W) {
			p := p
			p.Related = 0.9
			x := newWorld(w.R, &p)
			if !x.scanner(w) {
				return
			}
			y := &World{Prof: x.Prof, Trees: x.Trees}
			for _, i := range w.R.Perm(len(x.List)) {
				y.List = append(y.List, x.List[i])
			}
			set, err := refSet(y.List)
			if err != nil {
				w.Problem("permuted set invalid: %v", err)
				return
			}
			y.Set = set
			if !y.scanner(w) {
				return
			}
			w.Inc("permuted lists", 1)
			for k := 0; k < 5; k++ {
				t := x.text(w.R)
				a, ra := w.checkText(x, t, aIDs|aCore)
				b, _ := w.checkText(y, t, aIDs|aCore)
				if ra.Trace.Ambiguous > 0 || ra.Trace.Misspell+ra.Trace.Join+ra.Trace.SplitWord > 0 {
					continue // corrections may depend on the order of the words
				}
				same := len(a.Match) == len(b.Match)
				for i := 0; same && i < len(a.Match); i++ {
					same = a.Match[i].Start == b.Match[i].Start && a.Match[i].End == b.Match[i].End
				}
				if !same {
					w.FailText("extents depend on list order", x.List, t, "%s with the list in one order, %s in another", show(a.Match, a.Percent), show(b.Match, b.Percent))
				}
			}
		})
	}})
}

var _ = rand.IntN
