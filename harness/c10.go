package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// orbit lists the case variants of r that can begin a word.
func orbit(r rune) []rune {
	var out []rune
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		if unicode.IsLetter(x) {
			out = append(out, x)
		}
	}
	return out
}

// recaseAny changes the case of some letters, in any script.
func recaseAny(r *rand.Rand, w string) string {
	mode := r.IntN(4)
	if mode == 0 || strings.ContainsAny(w, "&(") { // &copy; and word(s) are spelled in lower case
		return w
	}
	var b strings.Builder
	for _, x := range w {
		if o := orbit(x); len(o) > 0 && (mode == 1 || r.IntN(2) == 0) {
			x = pick(r, o)
		}
		b.WriteRune(x)
	}
	return b.String()
}

// neutralRunes are all runes that are neither word characters nor part of the
// markup the word splitter knows.
var neutralRunes = func() []rune {
	var out []rune
	for r := rune(1); r < 0x30000; r++ {
		if r >= 0xD800 && r < 0xE000 || strings.ContainsRune("<>&{}[]()#;@:/|_*©", r) {
			continue
		}
		if unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r) {
			continue
		}
		if unicode.IsPunct(r) || unicode.IsSpace(r) || unicode.IsSymbol(r) || unicode.IsControl(r) {
			out = append(out, r)
		}
	}
	return out
}()

// anySep makes a separator of white space and punctuation.
func anySep(r *rand.Rand) string {
	switch r.IntN(4) {
	case 0:
		return " "
	case 1:
		return pick(r, safeSeps)
	case 2:
		s := pick(r, safeSeps) + pick(r, safeSeps)
		return s
	}
	var b strings.Builder
	for n := 1 + r.IntN(3); n > 0; n-- {
		b.WriteRune(pick(r, neutralRunes))
	}
	return b.String()
}

// relay writes words with random separators.
func relay(r *rand.Rand, ws []string, crlf bool, kase bool) string {
	var b strings.Builder
	if r.IntN(2) == 0 {
		b.WriteString(anySep(r))
	}
	for i, w := range ws {
		if i > 0 {
			b.WriteString(anySep(r))
		}
		if kase {
			w = recaseAny(r, w)
		}
		b.WriteString(w)
	}
	if r.IntN(2) == 0 {
		b.WriteString(anySep(r))
	}
	s := b.String()
	if crlf {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
	}
	return s
}

// sameInWords compares two scans of the same words in different layouts.
func (w *W) sameInWords(kind string, list []lc.License, a []byte, ca lc.Coverage, b []byte, cb lc.Coverage) bool {
	wa, wb := ref.Split(string(a), nil), ref.Split(string(b), nil)
	if len(wa) != len(wb) {
		w.Problem("layouts of one text have %d and %d words: %q %q", len(wa), len(wb), clip(string(a), 300), clip(string(b), 300))
		return false
	}
	w.Inc("pairs compared", 1)
	w.Inc("license matches", len(ca.Match))
	w.Note(len(ca.Match) > 0, string(a), string(b))
	ma, mb := inWords(wa, ca.Match), inWords(wb, cb.Match)
	d := ca.Percent - cb.Percent
	if !sameWM(ma, mb) || d > 1e-9 || d < -1e-9 {
		w.Fail(Violation{Kind: kind, Message: fmt.Sprintf("other layout %q", clip(string(a), 2000)), Want: fmt.Sprintf("%v%% %s", ca.Percent, showWM(ma)), Got: fmt.Sprintf("%v%% %s", cb.Percent, showWM(mb)), Text: clip(string(b), 4000), TextB64: b64(b), Licenses: shortList(list)})
		return false
	}
	return true
}

// surface lists the words of a text as written, if they can be written apart
// again without changing them.
func surface(t string) ([]string, bool) {
	ws := ref.Split(t, nil)
	var out []string
	for _, x := range ws {
		out = append(out, t[x.Lo:x.Hi])
	}
	re := ref.Split(strings.Join(out, " "), nil)
	if len(re) != len(ws) {
		return nil, false
	}
	for i := range re {
		if re[i].S != ws[i].S || re[i].Raw != ws[i].Raw {
			return nil, false
		}
	}
	return out, true
}

func init() {
	register(&Check{ID: "C10", Needs: []string{"pairs compared", "license matches", "fold orbits", "separators", "patterns rewritten", "built-in texts rewritten", "CRLF twins", "CRLF patterns"}, Run: func(c *Ctx) {
		c.Rule("metamorphic: the same words in two layouts (white space, punctuation from all of Unicode, line wrapping, comment leaders, CRLF, letter case in any script) must give the same matches over the same words and the same Percent; patterns printed in two layouts must give byte-identical results; every Unicode case-folding orbit as first, second and later word of a pattern. Non-trivial: a distinct pair of texts with at least one match")
		b := builtin(c)
		if b == nil {
			return
		}
		profs := modelProfiles()
		for _, k := range []string{"competing", "unicode", "spelling"} {
			p := profs[k]
			p.PURL, p.PURLOnly, p.Bytes = 0, 0, 0
			p.Weights[pURL], p.Weights[pBadURL] = 0, 0
			c.Each("relayout "+k, c.N(2500, 80000), func(w *W) {
				x := newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				w.Inc("license sets", 1)
				for i := 0; i < 4; i++ {
					t := x.text(w.R)
					ws, ok := surface(string(t))
					if !ok || len(ws) == 0 {
						continue
					}
					a := []byte(strings.Join(ws, " "))
					ca := x.S.Scan(a)
					if i == 0 {
						w.Sample("relayout "+k, map[string]any{"licenses": clipList(x.List), "text": clip(string(a), 300)})
					}
					for j := 0; j < 3; j++ {
						crlf := w.R.IntN(3) == 0
						// Case variants of misspelled words outside ASCII may
						// differ in more bytes; those are not slips to
						// compare, so vary case only where the fold agrees.
						bt := []byte(relay(w.R, ws, crlf, true))
						if crlf {
							w.Inc("CRLF twins", 1)
						}
						if !w.sameInWords("layout changes the result", x.List, a, ca, bt, x.S.Scan(bt)) {
							break
						}
					}
				}
			})
		}
		// The same text with LF and CRLF, otherwise unchanged, and with every
		// line prefixed by a comment leader.
		c.Each("line ends and leaders", c.N(1500, 40000), func(w *W) {
			p := profs[pick(w.R, []string{"competing", "unicode"})]
			p.Seps = safeSeps
			if w.R.IntN(2) == 0 {
				p.Seps = append([]string{"<b>\n", "<a\nhref=x\nclass=y>", "<a\nhref='x@y'>", "<a href='u'\n\n>", "<p>\n\n"}, safeSeps...)
			}
			x := newWorld(w.R, &p)
			if !x.scanner(w) {
				return
			}
			for i := 0; i < 4; i++ {
				t := strings.ReplaceAll(string(x.text(w.R)), "\r\n", "\n")
				if strings.Contains(t, "\r") {
					continue
				}
				u := strings.ReplaceAll(t, "\n", "\r\n")
				w.Inc("CRLF twins", 1)
				ca := x.S.Scan([]byte(t))
				w.sameInWords("line ends change the result", x.List, []byte(t), ca, []byte(u), x.S.Scan([]byte(u)))
				if strings.Contains(t, "<") {
					continue
				}
				lead := pick(w.R, []string{"// ", "# ", " * ", "-- ", ";; ", "> ", "\" ", "REM"[:0] + "'", "%% ", "dnl"[:0] + "! ", "/// ", "| "})
				v := lead + strings.ReplaceAll(t, "\n", "\n"+lead)
				w.sameInWords("comment leaders change the result", x.List, []byte(t), ca, []byte(v), x.S.Scan([]byte(v)))
				v = strings.ToUpper(t)
				if len(ref.Split(v, nil)) == len(ref.Split(t, nil)) && ref.Fold(v) == ref.Fold(t) {
					w.sameInWords("upper case changes the result", x.List, []byte(t), ca, []byte(v), x.S.Scan([]byte(v)))
				}
			}
		})
		// Patterns in two layouts.
		c.Each("pattern layout", c.N(1500, 40000), func(w *W) {
			p := profs[pick(w.R, []string{"competing", "unicode", "spelling"})]
			p.Bytes = 0
			p.PURL, p.PURLOnly = 0, 0
			cfg := p.Tree
			cfg.Word = p.Voc
			x, y := &World{Prof: &p}, &World{Prof: &p}
			for n := 1 + w.R.IntN(5); n > 0; n-- {
				t := genTree(w.R, &cfg)
				id := fmt.Sprintf("L%d", len(x.List))
				lre := printTree(w.R, t, &Layout{Seps: plainSeps})
				if _, err := refSet([]lc.License{{ID: id, LRE: lre}}); err != nil {
					continue
				}
				alt := printTree(w.R, recaseTree(w.R, t), &Layout{Seps: patSeps, Comm: true})
				if w.R.IntN(3) == 0 {
					alt = strings.ReplaceAll(strings.ReplaceAll(alt, "\r\n", "\n"), "\n", "\r\n")
					w.Inc("CRLF patterns", 1)
				}
				x.List = append(x.List, lc.License{ID: id, LRE: lre})
				y.List = append(y.List, lc.License{ID: id, LRE: alt})
				x.Trees = append(x.Trees, t)
			}
			if len(x.List) == 0 {
				return
			}
			if !x.scanner(w) || !y.scanner(w) {
				return
			}
			w.Inc("patterns rewritten", len(x.List))
			for i := 0; i < 5; i++ {
				t := x.text(w.R)
				a, bb := x.S.Scan(t), y.S.Scan(t)
				w.Note(len(a.Match) > 0, x.List[0].LRE, y.List[0].LRE, string(t))
				if !sameCov(a, bb) {
					w.FailText("pattern layout changes the result", y.List, t, "%s with plain layout %q, %s", show(a.Match, a.Percent), clipList(x.List), show(bb.Match, bb.Percent))
				}
			}
		})
		// All case-folding orbits.
		var heads []rune
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if !unicode.IsLetter(r) {
				continue
			}
			least := true
			for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
				if x < r && unicode.IsLetter(x) {
					least = false
				}
			}
			if least && len(orbit(r)) > 0 {
				heads = append(heads, r)
			}
		}
		folded := map[rune]bool{}
		uniq := heads[:0]
		for _, r := range heads { // leave out the accented forms of vowels
			if f := ref.FoldRune(r); !folded[f] {
				folded[f] = true
				uniq = append(uniq, r)
			}
		}
		heads = uniq
		const chunk = 40
		c.Each("fold orbits", (len(heads)+chunk-1)/chunk, func(w *W) {
			hs := heads[w.Case*chunk : min(len(heads), (w.Case+1)*chunk)]
			var list []lc.License
			for i, r := range hs {
				all := append([]rune{r}, orbit(r)...)
				v := pick(w.R, all) // the pattern may use any of the variants
				list = append(list, lc.License{ID: fmt.Sprint(i), LRE: fmt.Sprintf("q%cq %c%cx end", v, v, v)})
			}
			x := w.mkSet(list)
			if x == nil {
				return
			}
			for i, r := range hs {
				w.Inc("fold orbits", 1)
				all := append([]rune{r}, orbit(r)...)
				for _, v := range all {
					for _, u := range all {
						t := []byte(fmt.Sprintf("zqzqzq Q%cq %c%cX END zqzqzq", v, u, v))
						w.expectWords("case variant not recognized", x, t, []WM{{ID: fmt.Sprint(i), A: 1, B: 4}})
					}
				}
			}
		})
		// Every character of the Unicode categories P, S, Z, of the control and
		// format characters, and of the marks that are not nonspacing, between, before and behind words.
		var marks []rune
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if r != '©' && unicode.In(r, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf, unicode.Mc, unicode.Me) {
				marks = append(marks, r)
			}
		}
		const mchunk = 100
		c.Each("every separator", (len(marks)+mchunk-1)/mchunk, func(w *W) {
			u := newUnique(w.R)
			a := []string{u.word(nil), u.word(nil), u.word(nil), u.word(nil), u.word(nil)}
			x := w.mkSet([]lc.License{{ID: "L", LRE: lits(a...)}})
			if x == nil {
				return
			}
			for _, r := range marks[w.Case*mchunk : min(len(marks), (w.Case+1)*mchunk)] {
				w.Inc("separators", 1)
				s := string(r)
				for _, t := range []string{
					"zqzq " + s + a[0] + s + a[1] + s + s + a[2] + s + " " + a[3] + " " + s + " " + a[4] + s + " zvvz",
					s + a[0] + " " + s + a[1] + " " + s + a[2] + "\n" + s + a[3] + "\n" + s + " " + a[4] + s,
				} {
					n := 0
					if t[0] == 'z' {
						n = 1
					}
					got := x.S.Scan([]byte(t))
					w.Note(true, t)
					if len(got.Match) != 1 || got.Match[0].ID != "L" || got.Percent < 70 {
						w.FailText("separator changes the result", x.List, []byte(t), "with %U between words: %s", r, show(got.Match, got.Percent))
						return
					}
					w.expectWords("separator changes the result", x, []byte(t), []WM{{ID: "L", A: n, B: n + 5}})
				}
				if strings.ContainsRune("_()/|?*", r) {
					continue
				}
				// The same in a pattern.
				lre := s + a[0] + s + a[1] + s + s + a[2] + s + " " + a[3] + "\n" + s + " " + a[4] + s
				y, err := lc.NewScanner([]lc.License{{ID: "L", LRE: lre}})
				if err != nil || y == nil {
					w.FailText("separator in a pattern rejected", []lc.License{{ID: "L", LRE: lre}}, nil, "%U: %v", r, err)
					return
				}
				t := []byte("zqzq " + lits(a...) + " zvvz")
				if p, q := y.Scan(t), x.S.Scan(t); !sameCov(p, q) {
					w.FailText("separator in a pattern changes the result", []lc.License{{ID: "L", LRE: lre}}, t, "%U: %s, with blanks %s", r, show(p.Match, p.Percent), show(q.Match, q.Percent))
					return
				}
			}
		})
		// Built-in licenses: whole texts rewritten.
		cp := corpus()
		c.Each("built-in texts", c.N(min(150, len(cp)), len(cp)*6), func(w *W) {
			t := cp[(w.Case*7)%len(cp)]
			if len(t) > 60000 {
				return
			}
			ws, ok := surface(string(t))
			if !ok {
				return
			}
			hasURL := false
			for _, s := range ws {
				if f := ref.Fold(s); f == "http" || f == "https" {
					hasURL = true
				}
			}
			if hasURL {
				// URL matches depend on how the words of a URL are joined.
				var keep []string
				for _, s := range ws {
					if f := ref.Fold(s); f != "http" && f != "https" {
						keep = append(keep, s)
					}
				}
				ws = keep
			}
			a := []byte(strings.Join(ws, " "))
			w.Inc("built-in texts rewritten", 1)
			ca := b.S.Scan(a)
			for j := 0; j < 2; j++ {
				bt := []byte(relay(w.R, ws, j == 0, true))
				if !w.sameInWords("layout changes the result", nil, a, ca, bt, b.S.Scan(bt)) {
					break
				}
			}
		})
		// The golden files of the repository with CRLF and re-cased.
		files, _ := filepath.Glob("/repo/testdata/*.t[0-9]*")
		sort.Strings(files)
		c.Each("golden files re-cased", c.N(min(120, len(files)), len(files)), func(w *W) {
			data, err := os.ReadFile(files[(w.Case*5)%len(files)])
			if err != nil || len(data) > 60000 || !utf8.Valid(data) {
				return
			}
			t := string(data)
			var v strings.Builder
			for _, r := range t {
				if o := orbit(r); r >= 0x80 && len(o) > 0 || r < 0x80 && unicode.IsLower(r) && !strings.ContainsAny(t, "&<]{") {
					if r < 0x80 {
						r = unicode.ToUpper(r)
					} else {
						r = o[0]
					}
				}
				v.WriteRune(r)
			}
			u := v.String()
			if ref.Fold(u) != ref.Fold(t) {
				return
			}
			wa, wb := ref.Split(t, nil), ref.Split(u, nil)
			if len(wa) != len(wb) {
				return
			}
			w.sameInWords("upper case changes the result", nil, []byte(t), b.S.Scan([]byte(t)), []byte(u), b.S.Scan([]byte(u)))
		})
	}})
}

// recaseTree returns a copy of a tree with the letter case of its words varied.
func recaseTree(r *rand.Rand, n *ref.Node) *ref.Node {
	m := *n
	m.W = nil
	for _, w := range n.W {
		m.W = append(m.W, recaseAny(r, w))
	}
	m.Sub = nil
	for _, x := range n.Sub {
		m.Sub = append(m.Sub, recaseTree(r, x))
	}
	return &m
}
