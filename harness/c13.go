package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// A slipCase is a plain license of distinct words; the word at pos is the one
// to damage.
type slipCase struct {
	x    *World
	ws   []string
	pos  int
	pre  int // foreign words before the license
	post int
}

// slip scans the license with its words replaced by other text words and
// expects a match over all of it, or none at all.
func (w *W) slip(sc *slipCase, what string, mid []string, match bool) bool {
	ws := append([]string(nil), foreignN(w.R, sc.pre)...)
	ws = append(ws, sc.ws[:sc.pos]...)
	ws = append(ws, mid...)
	n := len(ws)
	_ = n
	return w.slipText(sc, what, ws, append([]string(nil), sc.ws[sc.pos+1:]...), match)
}

func (w *W) slipText(sc *slipCase, what string, head, tail []string, match bool) bool {
	ws := append(append([]string(nil), head...), tail...)
	end := len(ws)
	ws = append(ws, foreignN(w.R, sc.post)...)
	t := []byte(strings.Join(ws, " "))
	got := sc.x.S.Scan(t)
	w.Note(true, sc.x.List[0].LRE, string(t))
	w.Inc(what, 1)
	if !match {
		if len(got.Match) != 0 {
			w.FailText("accepted: "+what, sc.x.List, t, "%s", show(got.Match, got.Percent))
			return false
		}
		return true
	}
	words := ref.Split(string(t), nil)
	g := inWords(words, got.Match)
	if len(g) != 1 || g[0].ID != "L" || g[0].A != sc.pre || g[0].B != end {
		w.FailText("not accepted: "+what, sc.x.List, t, "want a match over words [%d:%d], got %s", sc.pre, end, showWM(g))
		return false
	}
	return true
}

// newSlip makes a license with word at position pos (of n).
func (w *W) newSlip(word string, n, pos int) *slipCase {
	u := newUnique(w.R)
	sc := &slipCase{pos: pos, pre: w.R.IntN(3), post: w.R.IntN(3)}
	for i := 0; i < n; i++ {
		if i == pos {
			sc.ws = append(sc.ws, word)
			continue
		}
		sc.ws = append(sc.ws, u.word(nil))
	}
	sc.x = w.mkSet([]lc.License{{ID: "L", LRE: lits(sc.ws...)}})
	if sc.x == nil {
		return nil
	}
	return sc
}

// plainWord makes a word of n letters, some outside ASCII if mixed.
func plainWord(r *rand.Rand, n int, mixed bool) string {
	for {
		var b strings.Builder
		for b.Len() < n {
			if mixed && n-b.Len() >= 2 && r.IntN(3) == 0 {
				b.WriteRune(pick(r, []rune("öüäñçşбгджσλφ")))
				continue
			}
			b.WriteByte(letters[r.IntN(26)])
		}
		s := b.String() // letters outside ASCII fold to their capitals
		if ws := ref.Split(s, nil); len(ws) == 1 && ws[0].S == ws[0].Raw && len(ws[0].S) == len(s) && s != "c" {
			return ws[0].S
		}
	}
}

// accepted says whether text word t may stand for pattern word p.
func accepted(p, t string) bool {
	ws := ref.Split(t, nil)
	if len(ws) != 1 {
		return false
	}
	return ws[0].S == p || (len(p) >= 4 || len(ws[0].Raw) >= 4) && ref.OneEdit(p, ws[0].Raw)
}

// singleEdits lists all one-byte edits of an ASCII word over some letters.
func singleEdits(w, alpha string) []string {
	var out []string
	for i := 0; i <= len(w); i++ {
		for _, a := range alpha {
			out = append(out, w[:i]+string(a)+w[i:])
			if i < len(w) && w[i] != byte(a) {
				out = append(out, w[:i]+string(a)+w[i+1:])
			}
		}
		if i < len(w) {
			out = append(out, w[:i]+w[i+1:])
		}
	}
	return out
}

func init() {
	needs := []string{"one edit", "one edit in a short word", "two edits", "word broken in two", "word broken in three", "words fused", "broken and edited", "edit in the first two words", "break in the first two words", "c for copyright", "several words each with a slip", "word missing", "words swapped", "word added", "edit of a word outside ASCII", "letter outside ASCII changed by more than a byte", "slips in long words"}
	register(&Check{ID: "C13", Needs: needs, Run: func(c *Ctx) {
		c.Rule("exhaustive per word: all one-byte edits, all breaks, all fusions, sampled or all double edits, at every position of a license of distinct words, word lengths 1 to 14, and samples of words of up to 5000 letters in any script; expectation from the documented rule; plus random worlds of near-neighbour words against the model. Non-trivial: each damaged text")
		alpha := c.N(0, 1)
		_ = alpha
		c.Each("edits", c.N(500, 8000), func(w *W) {
			n := 1 + w.Case%14
			word := plainWord(w.R, n, false)
			k := 4 + w.R.IntN(4)
			pos := 2 + w.R.IntN(k-2)
			sc := w.newSlip(word, k, pos)
			if sc == nil {
				return
			}
			al := string(letters[w.R.IntN(26)]) + string(letters[w.R.IntN(26)]) + word[:1] + "7"
			if c.Thorough() {
				al = letters + "0123456789"
			}
			edits := singleEdits(word, al)
			for _, e := range edits {
				if e == "" {
					continue
				}
				ok := accepted(word, e)
				what := "one edit"
				if !ok {
					what = "one edit in a short word"
				}
				if !w.slip(sc, what, []string{e}, ok) {
					return
				}
			}
			// double edits
			for i := 0; i < c.N(60, 600); i++ {
				e := pick(w.R, edits)
				if e == "" {
					continue
				}
				e = pick(w.R, singleEdits(e, al))
				if e == "" || accepted(word, e) {
					continue
				}
				if !w.slip(sc, "two edits", []string{e}, false) {
					return
				}
			}
			// larger damage
			if n >= 4 {
				for _, e := range []string{word + word, word[1:] + word[:1], word[2:] + "zz", word[:n-2], word[2:], word + "zz", "zz" + word, word[1:n-1] + "z", word + "s" + word} {
					if accepted(word, e) || strings.HasPrefix(e, word) && pos+1 < k && accepted(sc.ws[pos+1], e[len(word):]) {
						continue
					}
					if len(ref.Split(e, nil)) != 1 {
						continue
					}
					if pos == k-1 && strings.HasPrefix(e, word) {
						continue // the license may end inside a fused word
					}
					if !w.slip(sc, "two edits", []string{e}, false) {
						return
					}
				}
			}
		})
		c.Each("words outside ASCII", c.N(500, 8000), func(w *W) {
			word := plainWord(w.R, 3+w.R.IntN(10), true)
			sc := w.newSlip(word, 5, 2+w.R.IntN(3))
			if sc == nil {
				return
			}
			rs := []rune(word)
			for i := range rs {
				for _, v := range []rune{'x', 'ö', 'ü', 'ã', 'б', 'в', 'э', 'ž', 0} {
					cp := append([]rune(nil), rs...)
					var e string
					if v == 0 {
						e = string(append(cp[:i], cp[i+1:]...))
					} else if w.R.IntN(2) == 0 {
						cp[i] = v
						e = string(cp)
					} else {
						e = string(cp[:i]) + string(v) + string(rs[i:])
					}
					if e == "" || e == word || strings.HasPrefix(e, word) && sc.pos == 4 || len(ref.Split(e, nil)) != 1 {
						continue
					}
					what := "edit of a word outside ASCII"
					if !accepted(word, e) {
						what = "letter outside ASCII changed by more than a byte"
					}
					if rs[i] < 0x80 && (v < 0x80 || v == 0) {
						what = "ASCII edit of a word outside ASCII"
					}
					if !w.slip(sc, what, []string{e}, accepted(word, e)) {
						return
					}
				}
			}
		})
		c.Each("breaks and fusions", c.N(600, 10000), func(w *W) {
			n := 2 + w.Case%13
			word := plainWord(w.R, n, w.R.IntN(4) == 0)
			k := 4 + w.R.IntN(4)
			pos := 2 + w.R.IntN(k-2)
			sc := w.newSlip(word, k, pos)
			if sc == nil {
				return
			}
			rs := []rune(word)
			sound := func(parts ...string) bool { // parts stay as they are
				re := ref.Split(strings.Join(parts, " "), nil)
				if len(re) != len(parts) {
					return false
				}
				for i := range re {
					if re[i].Raw != parts[i] {
						return false
					}
				}
				return true
			}
			for i := 1; i < len(rs); i++ {
				a, b := string(rs[:i]), string(rs[i:])
				if !sound(a, b) || accepted(word, a) {
					continue
				}
				if !w.slip(sc, "word broken in two", []string{a, b}, true) {
					return
				}
				// a piece that is also damaged
				e := pick(w.R, singleEdits(b, "xz"))
				if e != "" && a+e != word && sound(a, e) {
					if !w.slip(sc, "broken and edited", []string{a, e}, false) {
						return
					}
				}
				if !accepted(word, b) && !strings.HasPrefix(b, word) {
					if !w.slip(sc, "broken and swapped", []string{b, a}, a+b == b+a) {
						return
					}
				}
				if j := i + 1; j < len(rs) {
					m, z := string(rs[i:j]), string(rs[j:])
					if sound(a, m, z) && !accepted(word, a+m) {
						if !w.slip(sc, "word broken in three", []string{a, m, z}, false) {
							return
						}
					}
				}
			}
			// fused with the next word
			pre := foreignN(w.R, sc.pre)
			head := append(append([]string{}, pre...), sc.ws[:pos]...)
			if pos+1 < k {
				rest := append([]string{}, sc.ws[pos+2:]...)
				if !w.slipText(sc, "words fused", append(head, word+sc.ws[pos+1]), rest, true) {
					return
				}
				if pos+2 < k && !w.slipText(sc, "fused and edited", append(head, word+sc.ws[pos+1]+"x"), rest, false) {
					return
				}
				if !w.slipText(sc, "fused and edited", append(head, "x"+word+sc.ws[pos+1]), rest, false) {
					return
				}
			}
			if pos+2 < k {
				rest := append([]string{}, sc.ws[pos+3:]...)
				if !w.slipText(sc, "three words fused", append(head, word+sc.ws[pos+1]+sc.ws[pos+2]), rest, false) {
					return
				}
			}
			// word structure
			if pos < k-1 {
				if !w.slip(sc, "word missing", nil, false) {
					return
				}
				w.slip(sc, "word added", []string{word, "zqzqzq"}, false)
			}
		})
		c.Each("structure", c.N(800, 10000), func(w *W) {
			k := 4 + w.R.IntN(8)
			pos := 2 + w.R.IntN(k-3) // never the last
			sc := w.newSlip(plainWord(w.R, 5+w.R.IntN(4), false), k, pos)
			if sc == nil {
				return
			}
			pre := foreignN(w.R, sc.pre)
			head := append(append([]string{}, pre...), sc.ws[:pos]...)
			rest := append([]string{}, sc.ws[pos+1:]...)
			w.slipText(sc, "word missing", head, rest, false)
			w.slipText(sc, "word added", append(append([]string{}, head...), foreign(w.R)), append([]string{sc.ws[pos]}, rest...), false)
			w.slipText(sc, "word repeated", append(append([]string{}, head...), sc.ws[pos]), append([]string{sc.ws[pos]}, rest...), false)
			w.slipText(sc, "word replaced", append(append([]string{}, head...), foreign(w.R)), rest, false)
			sw := append([]string{sc.ws[pos+1], sc.ws[pos]}, sc.ws[pos+2:]...)
			w.slipText(sc, "words swapped", head, sw, false)
			// every later word with its own slip
			var tl []string
			for i := 2; i < k; i++ {
				x := sc.ws[i]
				switch w.R.IntN(4) {
				case 0:
					tl = append(tl, x)
				case 1:
					for {
						if e := pick(w.R, singleEdits(x, "xz")); e != x && accepted(x, e) && (i < k-1 || !strings.HasPrefix(e, x)) {
							tl = append(tl, e)
							break
						}
					}
				case 2:
					j := 2 + w.R.IntN(len(x)-3)
					if accepted(x, x[:j]) || len(ref.Split(x[:j]+" "+x[j:], nil)) != 2 || ref.Split(x[j:], nil)[0].Raw != x[j:] {
						tl = append(tl, x)
					} else {
						tl = append(tl, x[:j], x[j:])
					}
				case 3:
					if i+1 < k {
						tl = append(tl, x+sc.ws[i+1])
						i++
					} else {
						tl = append(tl, x)
					}
				}
			}
			w.slipText(sc, "several words each with a slip", append(append([]string{}, pre...), sc.ws[:2]...), tl, true)
			// slips in the first two words
			for i := 0; i < 2; i++ {
				x := sc.ws[i]
				for _, e := range singleEdits(x, "xz7") {
					h := append(append([]string{}, pre...), sc.ws[:2]...)
					h[len(pre)+i] = e
					if !w.slipText(sc, "edit in the first two words", h, sc.ws[2:], false) {
						return
					}
				}
				for j := 1; j < len(x); j++ {
					h := append(append([]string{}, pre...), sc.ws[:i]...)
					h = append(append(h, x[:j], x[j:]), sc.ws[i+1:2]...)
					if !w.slipText(sc, "break in the first two words", h, sc.ws[2:], false) {
						return
					}
				}
			}
			h := append(append([]string{}, pre...), sc.ws[0]+sc.ws[1])
			w.slipText(sc, "break in the first two words", h, sc.ws[2:], false)
			h = append(append([]string{}, pre...), sc.ws[0], sc.ws[1]+sc.ws[2])
			w.slipText(sc, "break in the first two words", h, sc.ws[3:], false)
		})
		// c and copyright.
		cs := []string{"c", "C", "copyright", "Copyright", "©", "(c)", "(C)", "&copy;"}
		c.Each("c and copyright", len(cs)*len(cs)*6, func(w *W) {
			p, t := cs[w.Case%8], cs[w.Case/8%8]
			k := 5
			pos := 2 + w.Case/64%3
			if pos == 4 && strings.EqualFold(p, "c") && strings.HasPrefix(strings.ToLower(t), "c") && len(t) > 1 {
				return
			}
			sc := w.newSlip(p, k, pos)
			if sc == nil {
				return
			}
			w.slip(sc, "c for copyright", []string{t}, true)
			for _, e := range []string{"d", "e", "cc", "cp", "copy", "copies", "®", "tm", "s"} {
				if e == "®" {
					continue
				}
				sc.post = 1
				if pos == 4 && e[0] == 'c' {
					continue // the license may end inside a fused word
				}
				if !w.slip(sc, "other for copyright", []string{e}, false) {
					return
				}
			}
			// only inside a match
			sc = w.newSlip(p, 4, w.R.IntN(2))
			if sc == nil {
				return
			}
			a, b := strings.EqualFold(p, "c"), strings.EqualFold(t, "c")
			if a != b {
				w.slip(sc, "c for copyright in the first two words", []string{t}, false)
			}
		})
		scaleC13(c)
		// Words with near neighbours, joins and splits, in groups and behind
		// wildcards.
		p := modelProfiles()["spelling"]
		p.PURL, p.PURLOnly = 0, 0
		p.Seps = []string{" "}
		p.Weights = [nPieceKinds]int{4, 9, 2, 2, 1, 0, 0, 2}
		fuzzModel(c, "near neighbours", c.N(5000, 200000), p, aIDs|aCore, nil)
		p.NLic = [2]int{1, 1}
		p.Voc = func(r *rand.Rand) string { return safeWord(r.IntN(40)) }
		fuzzModel(c, "one license", c.N(3000, 100000), p, aIDs|aCore, nil)
	}})
}

var _ = fmt.Sprint
