package main

import (
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// wildFits says whether a __N__ wildcard followed by the words tail lets
// filling+tail through: a filling of at most N words, and for N > 3 no earlier
// sight, within the filling, of the words that end the wildcard (the first
// three of tail, or all of it if it is shorter).
func wildFits(n int, fill, tail []string) bool {
	if len(fill) > n {
		return false
	}
	if n <= 3 {
		return true
	}
	trig := tail[:min(3, len(tail))]
	all := append(append([]string(nil), fill...), tail...)
	for p := 0; p+len(trig) <= len(fill); p++ {
		hit := true
		for i, t := range trig {
			hit = hit && all[p+i] == t
		}
		if hit {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{ID: "C14", Needs: []string{"filled with N words", "filled with N+1 words", "fillings with trigger words", "wildcard ended early", "counts out of range", "contexts", "large counts"}, Run: func(c *Ctx) {
		c.Rule("boundary sweep: N in 0..60 and powers of two up to 2^17, fillings of 0, 1, N-1, N, N+1, N+2 and 2N+5 foreign words, in plain position and in 12 contexts (groups, options, alternatives, several wildcards, nested); exhaustive fillings over the words that end a wildcard, against a direct oracle; counts around every power of two up to 2^70 and with leading zeros. Non-trivial: each filled text")
		// contexts: %[1]s.. are the head words, W the wildcard, T the tail.
		type ctxt struct {
			name string
			make func(h, wild, t, o1, o2 string) string
		}
		ctxs := []ctxt{
			{"plain", func(h, wd, t, o1, o2 string) string { return h + " " + wd + " " + t }},
			{"group", func(h, wd, t, o1, o2 string) string { return h + "\n((" + wd + " " + t + "))\n" }},
			{"option", func(h, wd, t, o1, o2 string) string { return h + "\n((" + wd + " " + t + "))??\n" + o1 }},
			{"alternative 1", func(h, wd, t, o1, o2 string) string { return h + "\n((" + wd + " " + t + " || " + o1 + "))\n" }},
			{"alternative 2", func(h, wd, t, o1, o2 string) string {
				return h + "\n((" + o1 + " || " + wd + " " + t + " || " + o2 + "))\n"
			}},
			{"wildcard alone in group", func(h, wd, t, o1, o2 string) string { return h + "\n((" + wd + "))\n" + t }},
			{"wildcard alone in option", func(h, wd, t, o1, o2 string) string { return h + "\n((" + wd + "))??\n" + t }},
			{"optional word behind", func(h, wd, t, o1, o2 string) string { return h + " " + wd + " \n((" + o1 + "))??\n" + t }},
			{"behind an option", func(h, wd, t, o1, o2 string) string { return h + "\n((" + o1 + "))??\n" + wd + " " + t }},
			{"behind another wildcard", func(h, wd, t, o1, o2 string) string { return h + " __4__ " + o1 + " " + wd + " " + t }},
			{"before another wildcard", func(h, wd, t, o1, o2 string) string { return h + " " + wd + " " + t + " __7__ " + o1 }},
			{"nested", func(h, wd, t, o1, o2 string) string {
				return h + "\n((" + o2 + " || \n((" + wd + " " + t + "))\n ))\n" + o1
			}},
			{"comment", func(h, wd, t, o1, o2 string) string {
				return h + " //** __1__ **// " + wd + " //** " + o1 + " **// " + t
			}},
		}
		// text for a context around the filling
		around := func(name string, h, fill, t, o1, o2 []string) []string {
			ws := append([]string{}, h...)
			add := func(x ...[]string) {
				for _, y := range x {
					ws = append(ws, y...)
				}
			}
			switch name {
			case "option", "nested":
				add(fill, t, o1)
			case "behind another wildcard":
				add([]string{"zqzq"}, o1, fill, t)
			case "before another wildcard":
				add(fill, t, []string{"zvvz", "qxqx"}, o1)
			default:
				add(fill, t)
			}
			return ws
		}
		var ns []int
		for n := 0; n <= c.N(40, 130); n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025)
		c.Each("boundary", len(ns)*len(ctxs), func(w *W) {
			n, cx := ns[w.Case/len(ctxs)], ctxs[w.Case%len(ctxs)]
			u := newUnique(w.R)
			mk := func(k int) (ws []string) {
				for ; k > 0; k-- {
					ws = append(ws, u.word(nil))
				}
				return
			}
			h, t, o1, o2 := mk(2+w.R.IntN(3)), mk(1+w.R.IntN(6)), mk(1), mk(1)
			wild := fmt.Sprintf("__%d__", n)
			if w.R.IntN(4) == 0 {
				wild = fmt.Sprintf("__%05d__", n)
			}
			lre := cx.make(lits(h...), wild, lits(t...), o1[0], o2[0])
			x := w.mkSet([]lc.License{{ID: "L", LRE: lre}})
			if x == nil {
				return
			}
			w.Inc("contexts", 1)
			for _, k := range []int{0, 1, 2, n / 2, n - 1, n, n + 1, n + 2, 2*n + 5} {
				if k < 0 {
					continue
				}
				fill := foreignN(w.R, k)
				pre := w.R.IntN(3)
				ws := append(foreignN(w.R, pre), around(cx.name, h, fill, t, o1, o2)...)
				m := len(ws)
				ws = append(ws, foreignN(w.R, w.R.IntN(3))...)
				txt := []byte(join(w.R, ws, []string{" ", "\n", " "}))
				if k <= n {
					if k == n {
						w.Inc("filled with N words", 1)
					}
					if !w.expectWords("filling of up to N words not accepted", x, txt, []WM{{ID: "L", A: pre, B: m}}) {
						return
					}
					continue
				}
				w.Inc("filled with N+1 words", 1)
				w.Note(true, string(txt), lre)
				if got := x.S.Scan(txt); len(got.Match) != 0 {
					w.FailText("more than N words accepted", x.List, txt, "__%d__ filled with %d words (%s): %s", n, k, cx.name, show(got.Match, got.Percent))
					return
				}
			}
		})
		// Fillings made of the words that end the wildcard.
		tails := []int{1, 2, 3, 4, 5}
		nn := []int{1, 2, 3, 4, 5, 6, 9, 20}
		depth := c.N(5, 7)
		c.Each("trigger words", len(tails)*len(nn)*2, func(w *W) {
			m, n := tails[w.Case%5], nn[w.Case/5%8]
			u := newUnique(w.R)
			h := []string{u.word(nil), u.word(nil)}
			var t []string
			for i := 0; i < m; i++ {
				t = append(t, u.word(nil))
			}
			if w.Case >= 40 && m > 1 { // repeated words in the tail
				t[1] = t[0]
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: fmt.Sprintf("%s __%d__ %s", lits(h...), n, lits(t...))}})
			if x == nil {
				return
			}
			alpha := append([]string{"zqzqzq"}, t[:min(3, m)]...)
			for _, fill := range wordsOf(alpha, 0, depth) {
				ws := append(append(append([]string{}, h...), fill...), t...)
				txt := []byte(lits(ws...))
				got := x.S.Scan(txt)
				w.Note(true, string(txt), x.List[0].LRE)
				w.Inc("fillings with trigger words", 1)
				full := len(got.Match) == 1 && got.Match[0].End == len(txt) && got.Match[0].Start == 0
				want := wildFits(n, fill, t)
				if !want && len(fill) <= n {
					w.Inc("wildcard ended early", 1)
				}
				if full != want {
					w.FailText("wildcard ends at the wrong place", x.List, txt, "__%d__ filled with %q and followed by %q: full match %v, want %v", n, fill, t, full, want)
					return
				}
				// A shorter match is reported only where the tail was seen
				// in full.
				if !full && len(got.Match) > 0 {
					e := got.Match[0].End
					if !strings.HasSuffix(string(txt[:e]), lits(t...)) {
						w.FailText("wildcard ends at the wrong place", x.List, txt, "match ends at %d, not behind %q", e, t)
						return
					}
				}
			}
		})
		// The same for wide wildcards, the trigger words anywhere in the filling,
		// whole or in part.
		c.Each("triggers in wide wildcards", c.N(1500, 60000), func(w *W) {
			n := 4 + w.R.IntN(60)
			switch w.R.IntN(4) {
			case 0:
				n = 50 + w.R.IntN(400)
			case 1:
				n = pick(w.R, []int{31, 32, 33, 50, 63, 64, 65, 99, 100, 127, 128, 129, 192, 255, 256, 257, 511, 512, 1000, 1024})
			}
			u := newUnique(w.R)
			h := []string{u.word(nil), u.word(nil)}
			var t []string
			for i := 1 + w.R.IntN(6); i > 0; i-- {
				t = append(t, u.word(nil))
			}
			pat := fmt.Sprintf("%s __%d__ %s", lits(h...), n, lits(t...))
			if w.R.IntN(4) == 0 && len(t) > 1 { // the words that follow in groups
				pat = fmt.Sprintf("%s\n((__%d__))\n%s\n((%s))\n", lits(h...), n, t[0], lits(t[1:]...))
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: pat}})
			if x == nil {
				return
			}
			for k := 0; k < 10; k++ {
				var fill []string
				total := w.R.IntN(n + 2)
				if w.R.IntN(3) == 0 {
					total = n
				}
				for len(fill) < total {
					switch w.R.IntN(4) {
					case 0: // a beginning of the tail
						fill = append(fill, t[:1+w.R.IntN(min(3, len(t)))]...)
					case 1: // some part of it
						i := w.R.IntN(len(t))
						fill = append(fill, t[i:i+1+w.R.IntN(len(t)-i)]...)
					default:
						fill = append(fill, foreignN(w.R, 1+w.R.IntN(1+total/2))...)
					}
				}
				if len(fill) > total {
					fill = fill[:total]
				}
				txt := []byte(lits(append(append(append([]string{}, h...), fill...), t...)...))
				got := x.S.Scan(txt)
				w.Note(true, string(txt), pat)
				w.Inc("fillings with trigger words", 1)
				full := len(got.Match) == 1 && got.Match[0].End == len(txt) && got.Match[0].Start == 0
				want := wildFits(n, fill, t)
				if !want && len(fill) <= n {
					w.Inc("wildcard ended early", 1)
				}
				if full != want {
					w.FailText("wildcard ends at the wrong place", x.List, txt, "__%d__ filled with %d words and followed by %q: full match %v, want %v", n, len(fill), t, full, want)
					return
				}
			}
		})
		// Counts of any size: honoured or rejected.
		var counts []string
		for _, p := range []string{"2147483648", "4294967296", "4294967297", "4294967298", "4294967299", "4294967300", "8589934594", "18446744073709551615", "18446744073709551616", "18446744073709551618", "9223372036854775807", "9223372036854775808", "9223372036854775810", "1180591620717411303424", "1180591620717411303426", "99999999999999999999999999", "2147483649", "2147483650", "6442450946", "281474976710658", "10000000000000000000000000000000000000000000002", "3000000000"} {
			counts = append(counts, p)
		}
		c.Each("counts out of range", len(counts), func(w *W) {
			for _, lre := range []string{"aaaqqq bbbqqq __" + counts[w.Case] + "__ cccqqq dddqqq", "aaaqqq bbbqqq\n((__" + counts[w.Case] + "__ cccqqq))??\ndddqqq"} {
				list := []lc.License{{ID: "Lwild", LRE: lre}}
				w.Inc("counts out of range", 1)
				w.Note(true, lre)
				s, err := lc.NewScanner(list)
				if err != nil {
					if s != nil {
						w.FailText("scanner together with an error", list, nil, "%v", err)
					}
					if !strings.Contains(err.Error(), "Lwild") {
						w.FailText("error does not name the license", list, nil, "%v", err)
					}
					continue
				}
				for _, k := range []int{0, 1, 2, 3, 4, 5, 8, 30, 1000} {
					txt := "aaaqqq bbbqqq " + lits(foreignN(w.R, k)...) + " cccqqq dddqqq"
					got := s.Scan([]byte(txt))
					if len(got.Match) != 1 || got.Percent != 100 {
						w.FailText("wildcard count silently changed", list, []byte(txt), "%s words allowed, %d words not accepted", counts[w.Case], k)
						break
					}
				}
			}
		})
		large := []int{4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 131072}
		if c.Thorough() {
			large = append(large, 262144, 1000000, 1048577)
		}
		c.Each("large counts", len(large), func(w *W) {
			n := large[w.Case]
			x := w.mkSetNoModel([]lc.License{{ID: "L", LRE: fmt.Sprintf("aaaqqq bbbqqq __%d__ cccqqq dddqqq", n)}})
			if x == nil {
				return
			}
			w.Inc("large counts", 1)
			for _, k := range []int{0, 1, n % 65536, n % 32768, n - 1, n, n + 1, n + 2} {
				txt := []byte("aaaqqq bbbqqq " + lits(foreignN(w.R, k)...) + " cccqqq dddqqq")
				got := x.S.Scan(txt)
				w.Note(true, fmt.Sprint(n, k))
				if full := len(got.Match) == 1 && got.Percent == 100; full != (k <= n) {
					w.FailText("wrong number of words for a large count", x.List, nil, "__%d__ filled with %d words: %s", n, k, show(got.Match, got.Percent))
				}
			}
		})
		if c.Thorough() {
			c.Serial("very large count", 1, func(w *W) {
				x := w.mkSetNoModel([]lc.License{{ID: "L", LRE: "aaaqqq bbbqqq __5000000__ cccqqq dddqqq"}})
				if x == nil {
					return
				}
				for _, k := range []int{5, 100000, 5000000, 5000001} {
					txt := []byte("aaaqqq bbbqqq " + strings.Repeat("zqzq ", k) + "cccqqq dddqqq")
					got := x.S.Scan(txt)
					if full := len(got.Match) == 1 && got.Percent == 100; full != (k <= 5000000) {
						w.FailText("wrong number of words for a large count", x.List, nil, "filled with %d words: %s", k, show(got.Match, got.Percent))
					}
				}
			})
		}
		// Several wildcards, each with required words behind it.
		c.Each("several wildcards", c.N(1500, 40000), func(w *W) {
			u := newUnique(w.R)
			mk := func(k int) (ws []string) {
				for ; k > 0; k-- {
					ws = append(ws, u.word(nil))
				}
				return
			}
			tree := &ref.Node{Op: ref.Concat, Sub: []*ref.Node{{Op: ref.Words, W: mk(2)}}}
			var nw []int
			for i := 1 + w.R.IntN(4); i > 0; i-- {
				n := w.R.IntN(12)
				nw = append(nw, n)
				tree.Sub = append(tree.Sub, &ref.Node{Op: ref.Wild, N: n}, &ref.Node{Op: ref.Words, W: mk(1 + w.R.IntN(5))})
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: printTree(w.R, tree, &Layout{Seps: patSeps, Comm: true})}})
			if x == nil {
				return
			}
			for j := 0; j < 8; j++ {
				over := -1
				if j%2 == 1 {
					over = w.R.IntN(len(nw))
				}
				k := 0
				ws := derive(w.R, tree, func(n int) []string {
					k++
					if k-1 == over {
						return foreignN(w.R, n+1+w.R.IntN(3)*w.R.IntN(5))
					}
					if w.R.IntN(2) == 0 {
						return foreignN(w.R, n)
					}
					return foreignN(w.R, w.R.IntN(n+1))
				})
				txt := []byte(lits(ws...))
				got := x.S.Scan(txt)
				w.Note(true, string(txt))
				if over >= 0 {
					w.Inc("filled with N+1 words", 1)
				}
				if full := len(got.Match) == 1 && got.Percent == 100; full != (over < 0) {
					w.FailText("wrong number of words accepted", x.List, txt, "one wildcard over-filled: %v; got %s", over >= 0, show(got.Match, got.Percent))
					return
				}
			}
		})
		// Random patterns rich in wildcards over few words, against the model.
		p := defaultProfile()
		p.Voc = mixVoc(vocShort[:4])
		p.Tree.PWild, p.Tree.WildMax, p.Tree.Items = 0.35, 12, 4
		p.NLic = [2]int{1, 2}
		p.PURL, p.PURLOnly = 0, 0
		p.Weights = [nPieceKinds]int{8, 3, 2, 3, 0, 0, 0, 3}
		p.Seps = []string{" "}
		fuzzModel(c, "wildcard worlds", c.N(4000, 150000), p, aIDs|aCore, nil)
	}})
}

// mkSetNoModel builds only the real scanner.
func (w *W) mkSetNoModel(list []lc.License) *World {
	x := &World{List: list}
	if !x.scanner(w) {
		return nil
	}
	return x
}
