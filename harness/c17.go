package main

import (
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

var copySpellings = []string{"copyright", "Copyright", "COPYRIGHT", "©", "(c)", "(C)", "&copy;"}

// leadOf is the documented start of a license match: the earliest copyright
// word among the 50 words before the license, but behind the license before.
func leadOf(ws []ref.Word, core, prevEnd int) int {
	for i := max(prevEnd, core-50); i < core; i++ {
		if ws[i].S == "copyright" {
			return i
		}
	}
	return core
}

func init() {
	register(&Check{ID: "C17", Needs: []string{"distances swept", "notice within reach", "notice out of reach", "several notices", "notice of the previous license", "notices before built-in licenses", "notices in addresses"}, Run: func(c *Ctx) {
		c.Rule("all distances 0..60 between a copyright word and a license x all spellings x what precedes; several notices; one and many preceding licenses at all distances; licenses that begin or end with copyright words; URLs in between; expected start computed from the words. Non-trivial: each text")
		mkText := func(w *W, parts ...[]string) []byte {
			var ws []string
			for _, p := range parts {
				ws = append(ws, p...)
			}
			if w.R.IntN(4) == 0 { // words and gaps of many bytes
				w.Inc("notices far off in bytes", 1)
				n := 1 + w.R.IntN([]int{100, 1000, 5000}[w.R.IntN(3)])
				for i := range ws {
					if w.R.IntN(4) == 0 && isForeign(ws[i]) {
						ws[i] += strings.Repeat(pick(w.R, []string{"x", "qz", "1", "é"}), n/4)
					}
				}
				return []byte(join(w.R, ws, []string{" ", " ", "\n", strings.Repeat(" ", n), strings.Repeat("- ", n/4+1), " " + strings.Repeat("\n", 1+n/8)}))
			}
			return []byte(join(w.R, ws, []string{" ", " ", "\n", ", ", "\n\n", " <br> "}))
		}
		expect := func(w *W, x *World, t []byte, cores map[int]string, lens map[string]int) bool {
			ws := ref.Split(string(t), nil)
			var want []WM
			prev := 0
			for i := range ws {
				if id, ok := cores[i]; ok {
					a := leadOf(ws, i, prev)
					if a < i {
						w.Inc("notice within reach", 1)
					}
					want = append(want, WM{ID: id, A: a, B: i + lens[id]})
					prev = i + lens[id]
				}
			}
			got := x.S.Scan(t)
			var g []WM
			for _, m := range inWords(ws, got.Match) {
				if !m.URL {
					g = append(g, m)
				}
			}
			w.Note(true, string(t))
			if !sameWM(g, want) {
				w.Fail(Violation{Kind: "wrong copyright lead-in", Message: "license extents differ", Want: showWM(want), Got: showWM(g), Text: clip(string(t), 4000), TextB64: b64(t), Licenses: shortList(x.List)})
				return false
			}
			return true
		}
		c.Each("distances", 61*len(copySpellings)*3, func(w *W) {
			dist, sp, kind := w.Case%61, copySpellings[w.Case/61%7], w.Case/61/7
			u := newUnique(w.R)
			var l1, l2 []string
			for i := 0; i < 4; i++ {
				l1, l2 = append(l1, u.word(nil)), append(l2, u.word(nil))
			}
			x := w.mkSet([]lc.License{{ID: "A", LRE: lits(l1...)}, {ID: "B", LRE: lits(l2...)}, {ID: "U", URL: "example.org/a/b"}})
			if x == nil {
				return
			}
			lens := map[string]int{"A": 4, "B": 4}
			w.Inc("distances swept", 1)
			if dist > 49 {
				w.Inc("notice out of reach", 1)
			}
			for _, before := range []int{0, 1, 7, 49, 50, 60} {
				gap := foreignN(w.R, dist)
				switch kind {
				case 0:
					t := mkText(w, foreignN(w.R, before), []string{sp}, gap, l1)
					expect(w, x, t, map[int]string{before + 1 + dist: "A"}, lens)
				case 1: // a license in front, the notice behind it
					t := mkText(w, l2, foreignN(w.R, before), []string{sp}, gap, l1)
					expect(w, x, t, map[int]string{0: "B", 4 + before + 1 + dist: "A"}, lens)
				case 2: // the notice in front of the license in front
					w.Inc("notice of the previous license", 1)
					t := mkText(w, []string{sp}, foreignN(w.R, before), l2, gap, l1)
					expect(w, x, t, map[int]string{1 + before: "B", 1 + before + 4 + dist: "A"}, lens)
				}
			}
		})
		c.Each("several notices", c.N(3000, 80000), func(w *W) {
			u := newUnique(w.R)
			lens := map[string]int{}
			var list []lc.License
			var lw [][]string
			for i := 0; i < 3; i++ {
				var ws []string
				for n := 2 + w.R.IntN(6); n > 0; n-- {
					ws = append(ws, u.word(nil))
				}
				switch w.R.IntN(5) { // licenses that contain copyright words
				case 0:
					ws[len(ws)-1] = "copyright"
				case 1:
					ws[0] = "©"
				case 2:
					if len(ws) > 3 {
						ws[2] = "(c)"
					}
				}
				id := string(rune('A' + i))
				lens[id] = len(ws)
				lw = append(lw, ws)
				list = append(list, lc.License{ID: id, LRE: lits(ws...)})
			}
			list = append(list, lc.License{ID: "U", URL: "example.org/a/b"}, lc.License{ID: "V", URL: "example.org/copyright/a"})
			x := w.mkSet(list)
			if x == nil {
				return
			}
			w.Inc("several notices", 1)
			var ws []string
			var at []int
			var ids []string
			for n := 1 + w.R.IntN(6); n > 0; n-- {
				for k := w.R.IntN(5); k > 0; k-- {
					switch w.R.IntN(4) {
					case 0:
						if len(ws) == 0 || ref.Fold(ws[len(ws)-1]) != "copyright" {
							ws = append(ws, pick(w.R, copySpellings))
						}
						ws = append(ws, foreign(w.R))
					case 1:
						ws = append(ws, foreignN(w.R, w.R.IntN(60))...)
					case 2:
						ws = append(ws, foreignN(w.R, w.R.IntN(5))...)
						if w.R.IntN(8) == 0 {
							ws = append(ws, foreign(w.R)+strings.Repeat("x", w.R.IntN(3000)))
						}
					case 3:
						ws = append(ws, pick(w.R, []string{"http://example.org/a/b", "http://example.org/copyright/a", "https://example.org/x/copyright/a"}), foreign(w.R))
						if w.R.IntN(2) == 0 { // nothing behind it
							ws = ws[:len(ws)-1]
						}
					}
				}
				i := w.R.IntN(3)
				// The instance must not merge with a copyright word before it.
				if len(ws) > 0 && (!strings.HasPrefix(ws[len(ws)-1], "http") || w.R.IntN(2) == 0) {
					ws = append(ws, foreign(w.R))
				}
				if len(ws) == 0 && w.R.IntN(6) == 0 {
					ws = append(ws, "http://example.org/copyright/a")
					w.Inc("notices in addresses", 1)
				}
				at = append(at, len(ws))
				ids = append(ids, string(rune('A'+i)))
				ws = append(ws, lw[i]...)
			}
			var b strings.Builder
			starts := map[int]int{} // token -> byte
			for i, s := range ws {
				if i > 0 {
					b.WriteString(pick(w.R, []string{" ", "\n", " ", ".\n"}))
				}
				starts[i] = b.Len()
				b.WriteString(s)
			}
			t := b.String()
			words := ref.Split(t, nil)
			cores := map[int]string{}
			for k, tok := range at {
				for i := range words {
					if words[i].Lo >= starts[tok] {
						cores[i] = ids[k]
						break
					}
				}
			}
			if len(cores) != len(at) {
				return
			}
			expect(w, x, []byte(t), cores, lens)
		})
		// Built-in licenses with notices in front.
		b := builtin(c)
		if b == nil {
			return
		}
		cp := corpus()
		c.Each("built-in", c.N(min(200, len(cp)), len(cp)*6), func(w *W) {
			t := cp[(w.Case*13)%len(cp)]
			if len(t) > 30000 {
				return
			}
			base := b.S.Scan(t)
			if len(base.Match) == 0 || base.Match[0].IsURL {
				return
			}
			words := ref.Split(string(t), nil)
			m := inWords(words, base.Match)[0]
			// drop everything up to the license itself
			body := string(t)[words[m.A].Lo:]
			if words[m.A].S == "copyright" {
				return // the reported start is a notice already
			}
			w.Inc("notices before built-in licenses", 1)
			dist := w.R.IntN(60)
			before := w.R.IntN(60)
			pre := foreignN(w.R, before)
			pre = append(pre, pick(w.R, copySpellings))
			pre = append(pre, foreignN(w.R, dist)...)
			x := []byte(lits(pre...) + "\n" + body)
			got := b.S.Scan(x)
			w.Note(true, string(x))
			want := before
			if dist > 49 {
				want = before + 1 + dist
			}
			ws := ref.Split(string(x), nil)
			g := inWords(ws, got.Match)
			if len(g) == 0 || g[0].A != want || g[0].ID != m.ID {
				w.FailText("wrong copyright lead-in", nil, x, "notice %d words before %s: match should start at word %d, got %s", dist, m.ID, want, showWM(g))
			}
		})
		p := competing()
		p.Weights = [nPieceKinds]int{5, 1, 1, 4, 5, 1, 0, 0}
		p.PURLOnly = 0.2
		p.Pieces = 14
		fuzzModel(c, "notices", c.N(2500, 80000), p, aCore, nil)
		_ = fmt.Sprint
	}})

	register(&Check{ID: "C18", Needs: []string{"layouts enumerated", "match at start of text", "match at end of text", "widened to line start", "widened to line end", "not widened", "long gaps", "URL extents"}, Run: func(c *Ctx) {
		c.Rule("enumerated layouts: all sequences of up to 3 (thorough 4) gap pieces (newline, CRLF, blanks, punctuation, markup, multi-byte and invalid bytes) before and after a license, with and without neighbouring words, for plain, accented, plural and copyright-sign edge words; expected byte offsets from the layout itself; URL extents with all following characters; random worlds against the model. Non-trivial: each layout")
		pieces := []string{" ", "\n", "\r\n", ".", "—", "<b>", "<i\n>", "&nbsp;", "\xff", "\t", "{#x}", "\u2028", "](#a)", "\r", "\v"}
		var gaps []string
		depth := c.N(2, 3)
		for _, g := range wordsOf(pieces, 1, depth) {
			gaps = append(gaps, strings.Join(g, ""))
		}
		firsts := []string{"gggabc", "©", "(c)", "&copy;", "égalité", "(C)", "https", "數", "e\u0301galite"}
		lasts := []string{"mmmabc", "©", "(c)", "&copy;", "énoncé", "notice(s)", "enonce\u0301", "數據", "naïve", "they"}
		c.Each("layouts", len(gaps), func(w *W) {
			g1 := gaps[w.Case]
			first, last := firsts[w.Case%len(firsts)], lasts[w.Case/3%len(lasts)]
			lic := first + " hhhabc iiiabc\njjjabc " + last
			x := w.mkSet([]lc.License{{ID: "L", LRE: "" + lic}})
			if x == nil {
				return
			}
			list := gaps
			if !c.Thorough() && len(gaps) > 300 {
				list = append(append([]string{}, gaps[:15]...), gaps[15+w.R.IntN(40):]...)
			}
			for _, g2 := range list {
				if w.R.IntN(c.N(2, 24)) != 0 {
					continue
				}
				for k := 0; k < 4; k++ {
					pre, post := "", ""
					if k&1 != 0 {
						pre = pick(w.R, []string{"zqzq", "zqzq\nzvvz", "\nzqzq", "zvvz é", "zqzq. 數", "x", "1", "é", "q x", "\nx"})
					}
					if k&2 != 0 {
						post = pick(w.R, []string{"qxqx", "qxqx\nxjxj", "é zvvz", "x", "數"})
					}
					t := pre + g1 + lic + g2 + post
					n1, n2 := len(pre)+len(g1), len(pre)+len(g1)+len(lic)
					if first == "&copy;" && strings.HasSuffix(g1, "&") {
						continue
					}
					start, end := 0, len(t)
					if pre != "" {
						start = n1
						if i := strings.LastIndexByte(g1, '\n'); i >= 0 {
							start = len(pre) + i + 1
							w.Inc("widened to line start", 1)
						} else {
							w.Inc("not widened", 1)
						}
					} else {
						w.Inc("match at start of text", 1)
					}
					if post != "" {
						end = n2
						if i := strings.IndexByte(g2, '\n'); i >= 0 {
							end = n2 + i + 1
							w.Inc("widened to line end", 1)
						}
					} else {
						w.Inc("match at end of text", 1)
					}
					w.Inc("layouts enumerated", 1)
					w.Note(true, t)
					got := x.S.Scan([]byte(t))
					if len(got.Match) != 1 || got.Match[0].Start != start || got.Match[0].End != end {
						w.FailText("wrong offsets", x.List, []byte(t), "%q: want [%d:%d], got %s", t, start, end, show(got.Match, got.Percent))
						return
					}
				}
			}
		})
		// Several licenses, offsets known from the way the text is put together.
		c.Each("composed", c.N(2500, 80000), func(w *W) {
			u := newUnique(w.R)
			var ls []string
			var list []lc.License
			for i := 0; i < 3; i++ {
				var ws []string
				for n := 2 + w.R.IntN(5); n > 0; n-- {
					ws = append(ws, u.word(nil))
				}
				ls = append(ls, lits(ws...))
				list = append(list, lc.License{ID: fmt.Sprint(i), LRE: lits(ws...)})
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			gap := func() string {
				s := pick(w.R, []string{" ", "\n"})
				for k := w.R.IntN(5); k > 0; k-- {
					x := pick(w.R, pieces)
					if w.R.IntN(15) == 0 {
						x = strings.Repeat(x, 1+w.R.IntN([]int{100, 1000, 10000}[w.R.IntN(3)]))
						w.Inc("long gaps", 1)
					}
					s += x
				}
				return s + pick(w.R, []string{" ", "\n", ".", "— "})
			}
			type tok struct {
				lo, hi int
				lic    int
			}
			var b strings.Builder
			var toks []tok
			if w.R.IntN(2) == 0 {
				b.WriteString(gap())
			}
			for n := 1 + w.R.IntN(8); n > 0; n-- {
				if len(toks) > 0 {
					b.WriteString(gap())
				}
				k := tok{lo: b.Len(), lic: w.R.IntN(5) - 2}
				if k.lic >= 0 {
					b.WriteString(strings.ReplaceAll(ls[k.lic], " ", pick(w.R, []string{" ", "\n", "\r\n", " * "})))
				} else if w.R.IntN(3) == 0 {
					b.WriteString(pick(w.R, []string{"x", "1", "é", "qq", "數", "x1x"}))
				} else {
					b.WriteString(foreign(w.R))
				}
				k.hi = b.Len()
				toks = append(toks, k)
			}
			if w.R.IntN(2) == 0 {
				b.WriteString(gap())
			}
			t := b.String()
			var want []lc.Match
			for i, k := range toks {
				if k.lic < 0 {
					continue
				}
				m := lc.Match{ID: fmt.Sprint(k.lic), Start: k.lo, End: k.hi}
				if i == 0 {
					m.Start = 0
				} else if j := strings.LastIndexByte(t[toks[i-1].hi:k.lo], '\n'); j >= 0 {
					m.Start = toks[i-1].hi + j + 1
				}
				if i == len(toks)-1 {
					m.End = len(t)
				} else if j := strings.IndexByte(t[k.hi:toks[i+1].lo], '\n'); j >= 0 {
					m.End = k.hi + j + 1
				}
				want = append(want, m)
			}
			got := x.S.Scan([]byte(t))
			w.Note(len(want) > 0, t)
			w.Inc("layouts enumerated", 1)
			if !sameMatches(got.Match, want) {
				w.FailText("wrong offsets", x.List, []byte(t), "want %s, got %s", show(want, 0), show(got.Match, got.Percent))
			}
		})
		// URL extents.
		ends := []string{"", " ", "\n", "\r\n", ")", ",", ";", "\"", ">", "'", "]", " .", "<b>", "&", "é", "\xff", "\t", "!", "*", "\u00a0", "|", "{", "(", "%", "~", "+", ":", "@", "$"}
		c.Each("URL extents", c.N(3000, 60000), func(w *W) {
			u := genURL(w.R)
			s, err := lc.NewScanner([]lc.License{{ID: "L", LRE: "mmmqqq nnnqqq"}, {ID: "U", URL: u}})
			if err != nil {
				w.Problem("%v", err)
				return
			}
			sp := spellURL(w.R, u)
			pre := pick(w.R, []string{"", "zqzq ", "\n", "(", "<", "zqzq:\n", "[x](", "—", "\"", "see ", "\xff", "\u0301"})
			post := pick(w.R, ends) + pick(w.R, []string{"", " zqzq", "\nzvvz"})
			if pre == "[x](" {
				pre = "[x] ("
			}
			if post != "" && post[0] == 'z' {
				post = " " + post
			}
			t := pre + sp + post
			if pre == "<" && strings.Contains(post, ">") {
				w.Inc("URLs in angle brackets", 1)
			}
			w.Inc("URL extents", 1)
			w.Note(true, t)
			got := s.Scan([]byte(t))
			if len(got.Match) != 1 || got.Match[0].Start != len(pre) || got.Match[0].End != len(pre)+len(sp) || !got.Match[0].IsURL {
				w.FailText("wrong URL extent", []lc.License{{ID: "L", LRE: "mmmqqq nnnqqq"}, {ID: "U", URL: u}}, []byte(t), "%q: want the URL at [%d:%d], got %s", t, len(pre), len(pre)+len(sp), show(got.Match, got.Percent))
			}
		})
		profs := modelProfiles()
		for _, k := range profileOrder {
			p := profs[k]
			fuzzModel(c, "model "+k, c.N(1200, 60000), p, aStart|aEnd|aURL, nil)
		}
	}})
}
