package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"unicode"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// equivalences are the documented classes of equal words.
var equivalences = [][]string{
	{"http", "https"}, {"is", "are"}, {"it", "them", "they"}, {"the", "these", "this", "those"}, {"copy", "copies"},
	{"copyright", "©", "(c)", "(C)", "&copy;"},
}

// accentVariants lists ways to write a vowel.
func accentVariants(v byte) []string {
	pre := map[byte][]string{'a': {"à", "á", "À", "Á"}, 'e': {"è", "é", "È", "É"}, 'i': {"ì", "í", "Ì", "Í"}, 'o': {"ò", "ó", "Ò", "Ó"}, 'u': {"ù", "ú", "Ù", "Ú"}}
	s := string(v)
	return append([]string{s, strings.ToUpper(s), s + "\u0300", s + "\u0301", strings.ToUpper(s) + "\u0301", strings.ToUpper(s) + "\u0300"}, pre[v]...)
}

// idProbe checks that words are identified exactly as ref.Split identifies
// them, as first and as second word of a match.
func idProbe(w *W, words []string) {
	class := map[string]int{}
	var first, second []lc.License
	for _, x := range words {
		ws := ref.Split(x, nil)
		if len(ws) != 1 {
			continue
		}
		if _, ok := class[ws[0].S]; ok {
			continue
		}
		id := len(class)
		class[ws[0].S] = id
		first = append(first, lc.License{ID: fmt.Sprint(id), LRE: x + " ppppqqqq"})
		second = append(second, lc.License{ID: fmt.Sprint(id), LRE: "ppppqqqq " + x})
	}
	if len(first) == 0 {
		return
	}
	for k, list := range [][]lc.License{first, second} {
		s, err := lc.NewScanner(list)
		if err != nil || s == nil {
			w.FailText("valid license set rejected", shortList(list), nil, "%v", err)
			return
		}
		for _, x := range words {
			ws := ref.Split(x, nil)
			if len(ws) != 1 {
				continue
			}
			t := x + " ppppqqqq"
			if k == 1 {
				t = "ppppqqqq " + x
			}
			got := s.Scan([]byte(t))
			w.Note(true, t)
			w.Inc("words told apart", 1)
			want := fmt.Sprint(class[ws[0].S])
			if len(got.Match) != 1 || got.Match[0].ID != want || got.Percent != 100 {
				have := "nothing"
				if len(got.Match) > 0 {
					i := 0
					fmt.Sscan(got.Match[0].ID, &i)
					have = fmt.Sprintf("%q", list[i].LRE)
				}
				w.FailText("words wrongly identified or told apart", nil, []byte(t), "%q should match pattern %q, matched %s", t, list[class[ws[0].S]].LRE, have)
				return
			}
		}
		// All of them with the neighbour missing: no match.
		for _, x := range words[:min(len(words), 50)] {
			if got := s.Scan([]byte(x + " zqzq")); len(got.Match) != 0 {
				w.FailText("match of half a pattern", nil, []byte(x+" zqzq"), "%s", show(got.Match, got.Percent))
			}
		}
	}
}

func init() {
	register(&Check{ID: "C12", Needs: []string{"class pairs", "plural pairs", "accent pairs", "copyright runs", "words told apart", "long words", "sequences spelled out"}, Run: func(c *Ctx) {
		c.Rule("exhaustive: every pair of every documented class x position in pattern and text, in upper and lower case; runs of copyright words; w(s)/ws; accent variants of all vowels; identification matrix over the vocabulary of all built-in patterns, all near misses of the class members, single letters of Unicode and letters with combining marks, as first and second word (where no spelling tolerance applies). Non-trivial: each pair")
		b := builtin(c)
		if b == nil {
			return
		}
		// Class members at every position.
		type job struct{ cl, p, t, n, pos int }
		var jobs []job
		for cl, ms := range equivalences {
			for p := range ms {
				for t := range ms {
					for n := 2; n <= 5; n++ {
						for pos := 0; pos < n; pos++ {
							jobs = append(jobs, job{cl, p, t, n, pos})
						}
					}
				}
			}
		}
		c.Each("classes", len(jobs), func(w *W) {
			j := jobs[w.Case]
			u := newUnique(w.R)
			var pw, tw []string
			for i := 0; i < j.n; i++ {
				x := u.word(nil)
				p, t := x, x
				if i == j.pos {
					p, t = equivalences[j.cl][j.p], equivalences[j.cl][j.t]
					if w.R.IntN(3) == 0 && t[0] != '(' && t[0] != '&' {
						t = strings.ToUpper(t)
					}
					if w.R.IntN(3) == 0 && p[0] != '(' && p[0] != '&' {
						p = strings.ToUpper(p)
					}
				}
				pw, tw = append(pw, p), append(tw, t)
			}
			x := w.mkSet([]lc.License{{ID: "O", LRE: lits(u.word(nil), u.word(nil))}, {ID: "L", LRE: lits(pw...)}})
			if x == nil {
				return
			}
			w.Inc("class pairs", 1)
			for k := 0; k < 4; k++ {
				pre, post := foreignN(w.R, k%2), foreignN(w.R, k/2)
				ws := append(append(append([]string{}, pre...), tw...), post...)
				t := []byte(join(w.R, ws, []string{" ", "\n", " "}))
				w.expectWords("equivalent word not recognized", x, t, []WM{{ID: "L", A: len(pre), B: len(pre) + j.n}})
			}
			// without a space around (c), © and &copy;
			if j.cl == 5 && j.t > 0 && j.pos > 0 && j.pos < j.n-1 {
				t := []byte(strings.Join(tw[:j.pos], " ") + " " + tw[j.pos] + strings.Join(tw[j.pos+1:], " "))
				w.expectWords("equivalent word not recognized", x, t, []WM{{ID: "L", A: 0, B: j.n}})
			}
		})
		// All short sequences of the pieces that the rewrites are about: they
		// consist of just the documented words.
		toks := []string{"a", "(", "s", ")", "(s)", "(S)", "(c)", "(C)", "c", "©", " ", "S", "&copy;", "\u0301", "copie", "s", "it", "http", "it(s)", ".", "&COPY;"}
		depth := c.N(4, 5)
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(toks)
		}
		chunk := 2000
		c.Each("all short sequences", (total+chunk-1)/chunk, func(w *W) {
			for j := w.Case * chunk; j < total && j < (w.Case+1)*chunk; j++ {
				s, x := "", j
				for i := 0; i < depth; i++ {
					s += toks[x%len(toks)]
					x /= len(toks)
				}
				ws := ref.Split("mmmmqq ppppqq "+s, nil)
				p, ok := "mmmmqq ppppqq", true
				for _, x := range ws[2:] {
					re := ref.Split(x.S, nil)
					if len(re) != 1 || re[0].S != x.S {
						ok = false // a word that cannot be written in a pattern by itself
						break
					}
					p += " " + x.S
				}
				// The spelled-out words have to match, with and without one more.
				t := []byte("mmmmqq ppppqq " + s)
				if !ok || !c.Thorough() && j%7 != w.Case%7 {
					continue
				}
				list := []lc.License{{ID: "L", LRE: p + " zqzqzqzq"}, {ID: "M", LRE: "mmmmqq ppppqq __30__ jxjxjxjx"}}
				sc, err := lc.NewScanner(list)
				if err != nil {
					w.FailText("valid license set rejected", list, nil, "%v", err)
					return
				}
				w.Inc("sequences spelled out", 1)
				w.Note(true, s)
				u := append(append([]byte(nil), t...), " zqzqzqzq"...)
				if got := sc.Scan(u); len(got.Match) != 1 || got.Match[0].End != len(u) || got.Percent != 100 {
					w.FailText("words differ from the documented ones", list, u, "text should consist of exactly the words of the pattern; got %s", show(got.Match, got.Percent))
					return
				}
				u = append(append([]byte(nil), t...), " jxjxjxjx qjqj"...)
				n := float64(len(ws) + 1)
				if got := sc.Scan(u); len(got.Match) != 1 || math.Abs(got.Percent-100*n/(n+1)) > 1e-9 {
					w.FailText("wrong number of words", list, u, "%q is %d words; got %s", s, len(ws)-2, show(got.Match, got.Percent))
					return
				}
			}
		})
		// Several rewrites at once in a longer text.
		c.Each("many at once", c.N(2000, 40000), func(w *W) {
			u := newUnique(w.R)
			var pw, tw []string
			n := 0
			for n < 3+w.R.IntN(20) {
				n++
				if w.R.IntN(2) == 0 {
					x := u.word(nil)
					pw, tw = append(pw, x), append(tw, x)
					continue
				}
				cl := equivalences[w.R.IntN(5)]
				pw, tw = append(pw, recase(w.R, pick(w.R, cl))), append(tw, recase(w.R, pick(w.R, cl)))
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: join(w.R, pw, patSeps)}})
			if x == nil {
				return
			}
			t := []byte("zqzq " + join(w.R, tw, safeSeps) + " zqzq")
			w.expectWords("equivalent word not recognized", x, t, []WM{{ID: "L", A: 1, B: 1 + n}})
		})
		// Adjacent copyright words count once, in patterns and texts.
		c.Each("copyright runs", c.N(1500, 20000), func(w *W) {
			run := func() string {
				var r []string
				for n := 1 + w.R.IntN(4); n > 0; n-- {
					r = append(r, pick(w.R, []string{"copyright", "Copyright", "©", "(c)", "(C)", "&copy;", "COPYRIGHT"}))
				}
				return join(w.R, r, []string{" ", "\n", "  ", ", "})
			}
			u := newUnique(w.R)
			n := 2 + w.R.IntN(5)
			pos := w.R.IntN(n)
			var pw, tw []string
			for i := 0; i < n; i++ {
				if i == pos {
					pw, tw = append(pw, run()), append(tw, run())
					continue
				}
				x := u.word(nil)
				pw, tw = append(pw, x), append(tw, x)
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(pw...)}})
			if x == nil {
				return
			}
			w.Inc("copyright runs", 1)
			t := []byte("zqzq " + lits(tw...) + " zqzq")
			got := x.S.Scan(t)
			w.Note(true, string(t), x.List[0].LRE)
			if len(got.Match) != 1 || got.Match[0].ID != "L" {
				w.FailText("run of copyright words not recognized", x.List, t, "%s", show(got.Match, got.Percent))
				return
			}
			if want := 100 * float64(n) / float64(n+2); got.Percent-want > 1e-9 || want-got.Percent > 1e-9 {
				w.FailText("run of copyright words not counted once", x.List, t, "Percent %v, want %v", got.Percent, want)
			}
		})
		// word(s) and words.
		c.Each("plurals", c.N(1500, 20000), func(w *W) {
			u := newUnique(w.R)
			n := 2 + w.R.IntN(4)
			var pw, tw []string
			pos := w.R.IntN(n)
			for i := 0; i < n; i++ {
				x := u.word(nil)
				if w.R.IntN(4) == 0 {
					x = pick(w.R, []string{"a", "w", "é", "9", "許", "it1", "Ъ"}) + x[:w.R.IntN(3)]
				}
				p, t := x, x
				if i == pos {
					p, t = x+"s", x+"(s)"
					if w.R.IntN(2) == 0 {
						p, t = t, p
					}
					if w.R.IntN(4) == 0 {
						p, t = x+"(s)", x+"(s)"
					}
				}
				pw, tw = append(pw, p), append(tw, t)
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(pw...)}})
			if x == nil {
				return
			}
			w.Inc("plural pairs", 1)
			for k := 0; k < 4; k++ {
				pre, post := foreignN(w.R, k%2), foreignN(w.R, k/2)
				t := []byte(join(w.R, append(append(append([]string{}, pre...), tw...), post...), []string{" ", "\n"}))
				w.expectWords("plural not recognized", x, t, []WM{{ID: "L", A: len(pre), B: len(pre) + n}})
			}
		})
		c.Each("accents", c.N(3000, 60000), func(w *W) {
			word := func() (string, string) {
				var p, t strings.Builder
				for n := 1 + w.R.IntN(5); n >= 0; n-- {
					cc := letters[w.R.IntN(26)]
					p.WriteByte(cc)
					t.WriteByte(cc)
					v := "aeiou"[w.R.IntN(5)]
					p.WriteString(pick(w.R, accentVariants(v)))
					t.WriteString(pick(w.R, accentVariants(v)))
				}
				return p.String(), t.String()
			}
			var pw, tw []string
			n := 2 + w.R.IntN(3)
			for i := 0; i < n; i++ {
				p, t := word()
				pw, tw = append(pw, p), append(tw, t)
			}
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(pw...)}})
			if x == nil {
				return
			}
			w.Inc("accent pairs", n)
			t := []byte("zqzq " + lits(tw...) + " zqzq")
			w.expectWords("accents tell words apart", x, t, []WM{{ID: "L", A: 1, B: 1 + n}})
		})
		// Identification matrix.
		var vocab []string
		for v := range b.Set.Vocabulary() {
			vocab = append(vocab, v)
		}
		sort.Strings(vocab)
		near := map[string]bool{}
		for _, cl := range equivalences {
			for _, m := range cl {
				if m[0] > 0x7f || m[0] == '(' || m[0] == '&' {
					continue
				}
				near[m] = true
				for i := 0; i <= len(m); i++ {
					for _, l := range letters + "0129" {
						near[m[:i]+string(l)+m[i:]] = true
						if i < len(m) {
							near[m[:i]+string(l)+m[i+1:]] = true
						}
					}
					if i < len(m) {
						near[m[:i]+m[i+1:]] = true
					}
					for _, x := range []string{"é", "è", "ê", "ç", "\u0301", "\u0302", "ſ", "\u212a"} {
						near[m[:i]+x+m[i:]] = true
					}
				}
				near[m+m] = true
			}
		}
		var nears []string
		for v := range near {
			if len(ref.Split(v, nil)) == 1 {
				nears = append(nears, v)
			}
		}
		sort.Strings(nears)
		var runes []string
		for r := rune(0x30); r < rune(c.N(0x2200, 0x11000)); r++ {
			if unicode.IsLetter(r) || unicode.IsDigit(r) {
				runes = append(runes, "x"+string(r)+"y")
			}
		}
		for r := rune(0xA700); r < 0x10500; r++ {
			if r < 0xAC00 && (unicode.IsLetter(r) || unicode.IsDigit(r)) || r >= 0xFB00 && r < 0xFFFF && unicode.IsLetter(r) || r >= 0x10400 && unicode.IsLetter(r) {
				runes = append(runes, "x"+string(r)+"y")
			}
		}
		var marks []string
		for r := rune(0x300); r < 0x370; r++ {
			for _, v := range "aeouncz" {
				marks = append(marks, "x"+string(v)+string(r))
			}
		}
		marks = append(marks, "xa", "xe", "xo", "xu", "xn", "xc", "xz")
		sets := [][]string{vocab, nears, runes, marks}
		tiny := []string{}
		for _, a := range letters {
			tiny = append(tiny, string(a))
			for _, b := range letters {
				tiny = append(tiny, string(a)+string(b))
				if c.Thorough() {
					for _, d := range letters {
						tiny = append(tiny, string(a)+string(b)+string(d))
					}
				}
			}
		}
		sets = append(sets, tiny)
		c.Each("identification matrix", len(sets), func(w *W) {
			x := sets[w.Case]
			w.Sample("identification matrix", fmt.Sprintf("%d words: %v …", len(x), x[:min(12, len(x))]))
			idProbe(w, x)
		})
		c.Each("identification of random words", c.N(300, 8000), func(w *W) {
			var ws []string
			for i := 0; i < 60; i++ {
				ws = append(ws, randWord(w.R))
				if i > 0 && w.R.IntN(2) == 0 {
					x := ws[w.R.IntN(len(ws))]
					rs := []rune(x)
					rs[w.R.IntN(len(rs))] = []rune(randWord(w.R))[0]
					ws = append(ws, string(rs))
				}
			}
			idProbe(w, ws)
		})
		// Long words that differ in one place, in their length, or in two letters
		// exchanged.
		c.Each("identification of long words", c.N(300, 6000), func(w *W) {
			var ws []string
			for i := 0; i < 6; i++ {
				n := 8 + w.R.IntN(40)
				switch w.R.IntN(4) {
				case 0:
					n = 8 << w.R.IntN(7)
				case 1:
					n = 1 + w.R.IntN(600)
				}
				rs := []rune(foreign(w.R))
				for len(rs) < n {
					if w.R.IntN(4) == 0 {
						rs = append(rs, []rune(randWord(w.R))...)
					} else {
						rs = append(rs, rune(letters[w.R.IntN(26)]))
					}
				}
				ws = append(ws, string(rs))
				for k := 0; k < 6; k++ {
					v := append([]rune(nil), rs...)
					at := w.R.IntN(len(v))
					switch w.R.IntN(4) {
					case 0:
						at = len(v) - 1
					case 1:
						at = max(0, len(v)-1-w.R.IntN(9))
					}
					switch w.R.IntN(5) {
					case 0:
						v = v[:at+1]
					case 1:
						v = append(v, rune(letters[w.R.IntN(26)]))
					case 2:
						j := w.R.IntN(len(v))
						v[at], v[j] = v[j], v[at]
					default:
						v[at] = rune(letters[w.R.IntN(26)])
					}
					ws = append(ws, string(v))
				}
			}
			w.Inc("long words", len(ws))
			idProbe(w, ws)
		})
		p := modelProfiles()["markup"]
		p.Voc = mixVoc(vocSpecial, vocUni)
		p.Seps = safeSeps
		fuzzModel(c, "special words", c.N(1500, 60000), p, aIDs|aCore|aPercent, nil)
	}})
}

// randWord makes a short word of letters of several scripts, digits and marks.
func randWord(r *rand.Rand) string {
	var rs []rune
	for n := 1 + r.IntN(4); n > 0; n-- {
		switch r.IntN(6) {
		case 0, 1:
			rs = append(rs, rune(letters[r.IntN(26)]))
		case 2:
			rs = append(rs, pick(r, []rune("ÀÁÂÃÄÅÆÇÈÉÊËÌÍÎÏÐÑÒÓÔÕÖØÙÚÛÜÝÞßàáâãäåæçèéêëìíîïðñòóôõöøùúûüýþÿ")))
		case 3:
			rs = append(rs, pick(r, []rune("ABCXYZабвгдеАБВГДЕάέήίόύώΑΒΓσςΣ")))
		case 4:
			rs = append(rs, pick(r, []rune("0123456789٣٤１２")))
		case 5:
			rs = append(rs, pick(r, []rune("ſKÅıİǅǆǄ許可क")))
		}
		if r.IntN(6) == 0 {
			rs = append(rs, pick(r, []rune("\u0300\u0301\u0302\u0303\u0308\u0327")))
		}
	}
	if !unicode.IsLetter(rs[0]) && !unicode.IsDigit(rs[0]) {
		rs[0] = 'q'
	}
	return string(rs)
}
