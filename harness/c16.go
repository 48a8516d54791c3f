package main

import (
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

var degenerate = []struct {
	lre string
	ok  bool
}{
	{" ", false}, {"\n\n", false}, {"...", false}, {"//** x **//", false}, {"<b>", false}, {"&nbsp;", false},
	{"aaa", false}, {"copyright", false}, {"(c) ©", false}, {"aaa //** bbb **//", false}, {"notice(s)", false},
	{"((aaa bbb))??", false}, {"((aaa bbb))?? \n((ccc ddd))??", false}, {"aaa\n((bbb))??", false}, {"((aaa))??\nbbb", false},
	{"((aaa || bbb ccc))", false}, {"((aaa bbb || ))", false}, {"((aaa bbb || ccc))\n", false}, {"(( ))", false}, {"(( || ))", false},
	{"((aaa))??\n((bbb))??\n((ccc))??", false}, {"((aaa))??\n((bbb))??\nccc", false}, {"((aaa bbb))??\nccc", false},
	{"__3__ aaa bbb", false}, {"__1__", false}, {"aaa __3__ bbb", false}, {"((__3__))??\naaa bbb", false}, {"((aaa || __2__ bbb ccc))\nddd", false},
	{"aaa\n((__3__))??\nbbb ccc", false}, {"aaa\n((bbb))??\n__3__ ccc", false}, {"((aaa))??\n((__2__ bbb))??\nccc ddd", false},
	{"aaa bbb __3__", false}, {"aaa bbb __3__\n((ccc))??", false}, {"aaa bbb __1__ \n((ccc))??\n((ddd || ))", false}, {"aaa bbb __50__ //** ccc **//", false},
	{"aaa bbb __5__ __6__", false}, {"aaa bbb ccc __0__ __3__", false},
	{"aaa bbb", true}, {"aaa aaa", true}, {"copyright aaa", true}, {"((aaa bbb))", true}, {"((aaa bbb))\n((ccc))??", true},
	{"((aaa || bbb))\nccc", true}, {"((aaa))??\nbbb ccc", true}, {"aaa\n((bbb))??\nccc", true}, {"((aaa bbb || ccc ddd))", true},
	{"aaa bbb __3__ ccc", true}, {"aaa bbb\n((__3__ ccc))??", true}, {"aaa bbb\n((__3__ ccc || ddd))", true}, {"((aaa || bbb ccc))\nddd", true},
	{"((aaa))??\n((bbb))??\nccc ddd", true}, {"aaa bbb __3__ __4__ ccc", true}, {"the the", true}, {"aaa //** x **// bbb", true}, {"notice(s) aaa", true},
}

func init() {
	register(&Check{ID: "C16", Needs: []string{"sets without a pattern", "degenerate patterns", "one bad among many", "licenses probed", "URL entries probed", "large sets", "well-formed patterns", "unusable patterns", "patterns with many beginnings"}, Run: func(c *Ctx) {
		c.Rule("NewScanner on directed degenerate sets, random trees that may begin or end with anything, one bad entry among many; every accepted set is used: each listed license is probed with an instance and each URL with a text, with duplicate IDs, duplicate patterns, URL-only and combined entries, up to thousands of entries. Non-trivial: each distinct set")
		b := builtin(c)
		if b == nil {
			return
		}
		none := [][]lc.License{nil, {}, {{}}, {{ID: "A"}}, {{ID: "A", URL: "a.org/b"}}, {{URL: "a.org/b"}, {ID: "X", Type: lc.Notice}, {URL: "c.org/d", ID: "Y"}}, {{ID: "A", LRE: ""}, {ID: "B", LRE: ""}}}
		c.Each("no pattern", len(none), func(w *W) {
			w.Inc("sets without a pattern", 1)
			w.Note(true, fmt.Sprint(w.Case))
			s, err, ok := w.newScannerSafe(none[w.Case])
			if ok && (err == nil || s != nil) {
				w.FailText("unusable set accepted", none[w.Case], nil, "set without any pattern: scanner %v, error %v", s != nil, err)
			}
		})
		c.Each("degenerate", len(degenerate), func(w *W) {
			d := degenerate[w.Case]
			for k := 0; k < 4; k++ {
				list := []lc.License{{ID: "Deg", LRE: d.lre}}
				if k&1 != 0 {
					list = append([]lc.License{{ID: "first", LRE: "mmm nnn ooo"}}, list...)
				}
				if k&2 != 0 {
					list = append(list, lc.License{ID: "last", LRE: "ppp qqq __3__ rrr", URL: "a.org/b"})
				}
				w.Inc("degenerate patterns", 1)
				w.Note(true, d.lre, fmt.Sprint(k))
				s, err, ok := w.newScannerSafe(list)
				if !ok {
					return
				}
				if (err == nil) != d.ok || (s != nil) != d.ok {
					w.FailText("wrong verdict on a license set", list, nil, "pattern %q: usable: %v; NewScanner: scanner %v, error %v", d.lre, d.ok, s != nil, err)
					return
				}
				if err != nil && !strings.Contains(err.Error(), "Deg") {
					w.FailText("error does not name the license", list, nil, "%v", err)
				}
			}
		})
		usable := func(w *W, x *World) {
			// Every license of the set is reported for an instance of it,
			// unless another license takes the place.
			for k := 0; k < x.Set.NumPatterns(); k++ {
				li, t := x.Set.Tree(k)
				ws := derive(w.R, t, fillMarked(w))
				txt := []byte(lits(ws...))
				want := x.Set.Scan(txt)
				got := x.S.Scan(txt)
				w.Inc("licenses probed", 1)
				if want.Trace.Ambiguous > 0 {
					continue
				}
				if d := differs(got, want, aIDs|aCore); d != "" {
					w.FailText("accepted set does not report its license", shortList(x.List), txt, "license %d (%s): %s: got %s, want %s", li, x.List[li].ID, d, show(got.Match, got.Percent), showRef(want))
					return
				}
			}
		}
		c.Each("random trees", c.N(12000, 300000), func(w *W) {
			p := TreeCfg{Word: mixVoc(vocShort), Items: 3, Depth: w.R.IntN(4), PGroup: 0.5, PWild: 0.2, WildMax: 5, Head: w.R.IntN(3), Tail: w.R.IntN(2)}
			var list []lc.License
			ways := 1
			for n := 1 + w.R.IntN(2); n > 0; n-- {
				t := genTree(w.R, &p)
				if ways *= wildProduct(t); ways > 10000 {
					return
				}
				lre := printTree(w.R, t, &Layout{Seps: patSeps, Comm: true})
				if n == 2 {
					if _, err := refSet([]lc.License{{LRE: lre}}); err != nil {
						continue
					}
				}
				list = append(list, lc.License{ID: fmt.Sprintf("Tree%d", n), LRE: lre})
			}
			if list[len(list)-1].LRE == "" {
				return
			}
			x, ok := w.judgePattern(list, "Tree1")
			if ok && x != nil {
				usable(w, x)
			}
		})
		// Patterns that can begin in very many ways, of which one may be unusable.
		c.Each("many beginnings", c.N(1500, 40000), func(w *W) {
			u := newUnique(w.R)
			var list []lc.License
			for k := 1 + w.R.IntN(2); k > 0; k-- {
				n := 2 + w.R.IntN(10)
				if w.R.IntN(3) == 0 {
					n = 10 + w.R.IntN(120)
				}
				bad := -1
				if w.R.IntN(2) == 0 {
					bad = w.R.IntN(n)
				}
				var b strings.Builder
				if w.R.IntN(4) == 0 {
					b.WriteString("((" + pick(w.R, []string{u.word(nil), u.word(nil) + " " + u.word(nil)}) + "))??\n")
				}
				b.WriteString("((")
				for i := 0; i < n; i++ {
					if i > 0 {
						b.WriteString(" || ")
					}
					br := u.word(nil) + " " + u.word(nil)
					switch {
					case i == bad:
						br = pick(w.R, []string{u.word(nil), "", "__2__ " + br, u.word(nil) + " __3__ " + u.word(nil), "\n((" + br + "))??\n", u.word(nil) + "\n((" + u.word(nil) + "))??\n", "\n((" + br + " || " + u.word(nil) + "))\n", br + " __4__", "__1__", "... ---"})
					case w.R.IntN(8) == 0:
						br = "\n((" + br + " || " + u.word(nil) + " " + u.word(nil) + "))\n"
					case w.R.IntN(8) == 0:
						br += " " + u.word(nil) + " __3__ " + u.word(nil)
					}
					b.WriteString(br)
				}
				b.WriteString("))\n" + strings.Repeat(u.word(nil)+" ", w.R.IntN(3)))
				list = append(list, lc.License{ID: fmt.Sprint("Many", k), LRE: b.String()})
			}
			w.Inc("patterns with many beginnings", 1)
			x, ok := w.judgePattern(list, "Many")
			if ok && x != nil {
				usable(w, x)
			}
		})
		c.Each("one bad among many", c.N(300, 6000), func(w *W) {
			u := newUnique(w.R)
			n := 1 + w.R.IntN(30)
			var list []lc.License
			for i := 0; i < n; i++ {
				list = append(list, lc.License{ID: fmt.Sprintf("ok%d", i), LRE: lits(u.word(nil), u.word(nil), u.word(nil))})
			}
			var bad string
			for {
				if d := pick(w.R, degenerate); !d.ok {
					bad = d.lre
					break
				}
			}
			if w.R.IntN(3) == 0 {
				bad = pick(w.R, []string{"aaa bbb ((ccc))", "aaa bbb ))", "aaa bbb || ccc", "//** aaa bbb", "((aaa bbb", "aaa bbb\n((ccc))?? ddd", "aaa ?? bbb", "aaa bbb __99999999999__ ccc"})
			}
			i := w.R.IntN(n + 1)
			list = append(list[:i], append([]lc.License{{ID: "theBadOne", LRE: bad}}, list[i:]...)...)
			w.Inc("one bad among many", 1)
			w.Note(true, bad, fmt.Sprint(i, n))
			s, err, ok := w.newScannerSafe(list)
			if ok && (err == nil || s != nil) {
				w.FailText("unusable set accepted", shortList(list), nil, "pattern %q: scanner %v, error %v", bad, s != nil, err)
			} else if ok && !strings.Contains(err.Error(), "theBadOne") {
				w.FailText("error does not name the license", shortList(list), nil, "%v", err)
			}
		})
		// Mixed lists of all sizes.
		c.Each("mixed lists", c.N(260, 3000), func(w *W) {
			u := newUnique(w.R)
			n := 1 + w.R.IntN(40)
			if w.Case%26 == 0 {
				n = []int{300, 1000, 3000, 5000, 700}[w.Case/26%5]
				w.Inc("large sets", 1)
			}
			type probe struct {
				text string
				id   string
				url  bool
			}
			var list []lc.License
			var probes []probe
			type pat struct {
				lre, text string
				id        string
			}
			var pats []pat
			for i := 0; i < n; i++ {
				l := lc.License{ID: fmt.Sprintf("E%d", i), Type: lc.Type(w.R.IntN(512))}
				if w.R.IntN(6) == 0 && i > 0 {
					l.ID = list[w.R.IntN(i)].ID
				}
				if w.R.IntN(20) == 0 {
					l.ID = ""
				}
				kind := w.R.IntN(8)
				if i == 0 {
					kind = 0
				}
				if kind == 7 && len(pats) > 0 { // the same pattern again
					p := pick(w.R, pats)
					l.LRE = p.lre
					probes = append(probes, probe{p.text, p.id, false})
				} else if kind > 1 || i == 0 {
					t := genTree(w.R, &TreeCfg{Word: u.word, Items: 3, Depth: 1, PGroup: 0.3, PWild: 0.1, WildMax: 4, SafeWild: true, Head: 2, Tail: 1})
					l.LRE = printTree(w.R, t, &Layout{Seps: plainSeps})
					p := pat{l.LRE, lits(derive(w.R, t, fillForeign(w.R))...), l.ID}
					pats = append(pats, p)
					probes = append(probes, probe{p.text, p.id, false})
				}
				if kind < 4 && kind > 0 {
					l.URL = fmt.Sprintf("%s%d", genURL(w.R), i)
					probes = append(probes, probe{"http://" + l.URL, l.ID, true})
				}
				list = append(list, l)
			}
			w.Note(true, fmt.Sprint(w.Case))
			s, err, ok := w.newScannerSafe(list)
			if !ok {
				return
			}
			if err != nil || s == nil {
				w.FailText("valid license set rejected", shortList(list), nil, "%v", err)
				return
			}
			var all strings.Builder
			for _, p := range probes {
				got := s.Scan([]byte(p.text))
				if p.url {
					w.Inc("URL entries probed", 1)
				} else {
					w.Inc("licenses probed", 1)
				}
				if len(got.Match) != 1 || got.Match[0].ID != p.id || got.Match[0].IsURL != p.url || got.Percent != 100 {
					w.FailText("accepted set does not report its license", shortList(list), []byte(p.text), "want %q URL=%v, got %s", p.id, p.url, show(got.Match, got.Percent))
					return
				}
				all.WriteString(p.text + " zqzqzq zqzqzq zqzqzq zqzqzq zqzqzq zqzqzq\n")
			}
			got := s.Scan([]byte(all.String()))
			if len(got.Match) != len(probes) {
				w.FailText("accepted set does not report its license", shortList(list), []byte(all.String()), "%d entries together gave %d matches", len(probes), len(got.Match))
				return
			}
			for i, m := range got.Match {
				if m.ID != probes[i].id || m.IsURL != probes[i].url {
					w.FailText("accepted set does not report its license", shortList(list), []byte(all.String()), "entry %d: want %q, got %q", i, probes[i].id, m.ID)
					return
				}
			}
		})
		// Many licenses with the same first words.
		c.Each("common heads", c.N(60, 1500), func(w *W) {
			u := newUnique(w.R)
			var list []lc.License
			h := []string{u.word(nil), u.word(nil)}
			n := 2 + w.R.IntN(c.N(200, 2000))
			var texts []string
			for i := 0; i < n; i++ {
				ws := append([]string{}, h[:1+w.R.IntN(2)]...)
				for k := 1 + w.R.IntN(4); k > 0; k-- {
					ws = append(ws, u.word(nil))
				}
				texts = append(texts, lits(ws...))
				list = append(list, lc.License{ID: fmt.Sprint("H", i), LRE: lits(ws...)})
			}
			s, err, ok := w.newScannerSafe(list)
			if !ok || err != nil {
				w.FailText("valid license set rejected", shortList(list), nil, "%v", err)
				return
			}
			for i, t := range texts {
				w.Inc("licenses probed", 1)
				w.Note(true, t)
				got := s.Scan([]byte(t))
				if len(got.Match) != 1 || got.Match[0].ID != list[i].ID || got.Percent != 100 {
					w.FailText("accepted set does not report its license", shortList(list), []byte(t), "license %d of %d: got %s", i, n, show(got.Match, got.Percent))
					return
				}
			}
		})
		// Subsets of the built-in licenses.
		c.Each("subsets of the built-in set", c.N(60, 800), func(w *W) {
			var list []lc.License
			for _, i := range w.R.Perm(len(b.List))[:1+w.R.IntN(25)] {
				list = append(list, b.List[i])
			}
			x, ok := w.judgePattern(list, "")
			if ok && x != nil {
				usable(w, x)
			}
		})
		var _ *ref.Node
	}})
}
