package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// genMarkup makes a piece of well-formed markup that contributes no words.
func genMarkup(r *rand.Rand) string {
	name := func() string {
		return pick(r, []string{"b", "B", "p", "br", "a", "div", "h1", "my-tag", "x:y", "td", "SPAN", "i"})
	}
	word := func() string { return pick(r, []string{"top", "x", "mit", "license", "a1", "é", "id-3"}) }
	long := func(unit string) string { return strings.Repeat(unit, 1+r.IntN([]int{8, 64, 512, 5000}[r.IntN(4)])) }
	switch r.IntN(13) {
	case 11:
		switch r.IntN(3) {
		case 0:
			return "&#" + long("0") + fmt.Sprint(r.IntN(1<<21)) + ";"
		case 1:
			return "&#x" + long("0") + fmt.Sprintf("%x", r.IntN(1<<21)) + ";"
		}
		return "&" + long(pick(r, []string{"q", "Ab", "xyz"})) + ";"
	case 12:
		switch r.IntN(4) {
		case 0:
			return "<" + long("b") + ">"
		case 1:
			return "<p class=\"" + long(word()+" ") + "\">"
		case 2:
			return "{#" + long(word()) + "}"
		}
		return "](" + pick(r, []string{"http://", "https://", "mailto:", "file:", "#"}) + long(word()+"/") + ")"
	case 0:
		return "<" + name() + ">"
	case 1:
		return "</" + name() + ">"
	case 2:
		return "<" + name() + "/>"
	case 3:
		return "<" + name() + " href=\"http://x.org/" + word() + "\" class=" + word() + ">"
	case 4:
		return "<" + name() + "\n" + word() + "=\"a@b.c\"\n>"
	case 5:
		return "<" + name() + " " + strings.Repeat(word()+" ", r.IntN(80)) + ">"
	case 6:
		return "&" + pick(r, []string{"nbsp", "amp", "lt", "Eacute", "a", "quot", "xxxxxxxxxxxxxxxxxxxxxxxxxxxx", "COPY", "cop", "copyright"}) + ";"
	case 7:
		return pick(r, []string{"&#" + fmt.Sprint(r.IntN(100000)) + ";", fmt.Sprintf("&#x%X;", r.IntN(1<<20)), fmt.Sprintf("&#x%x;", r.IntN(1<<20))})
	case 8:
		return "{#" + pick(r, []string{"", "x", "top-1", "a{b", "a#b", "license(s)", "é"}) + "}"
	case 9:
		return "](" + pick(r, []string{"http://", "https://", "mailto:", "file:", "#"}) + pick(r, []string{"", "a.org/b", "x@y.z", "///etc/x", "top", "a(b", "q?x=<y>"}) + ")"
	}
	return genMarkup(r) + genMarkup(r)
}

// genLookalike makes text that resembles markup but is to be kept as words.
func genLookalike(r *rand.Rand) string {
	switch r.IntN(16) {
	case 0:
		return "<jxjx@qxqx.wqwq>"
	case 1:
		return "<http://qxqx.wqwq/vzvz>"
	case 2:
		return "<jxjx" // unterminated
	case 3:
		return "<jxjx\n\n\nqxqx>" // over-long
	case 4:
		return "<1jxjx>"
	case 5:
		return "< jxjx>"
	case 6:
		return "<jxjx < qxqx>"
	case 7:
		return "&jxjx"
	case 8:
		return "&jx1jx;"
	case 9:
		return "&#x1g;"
	case 10:
		return "&#1a;"
	case 11:
		return "{#jxjx qxqx}"
	case 12:
		return "{jxjx}"
	case 13:
		return "](jxjx)"
	case 14:
		return "](http://jxjx qxqx)"
	}
	return "](https:jxjx"
}

// countBy decides how many words s contributes: a license of two words and
// then s has a Percent of 200/(2+n).
func countBy(s *lc.Scanner, text string) float64 {
	got := s.Scan([]byte("mmmmqq ppppqq " + text))
	if got.Percent == 0 {
		return -1
	}
	return 200/got.Percent - 2
}

func init() {
	register(&Check{ID: "C11", Needs: []string{"strings counted", "markup skipped", "decorated texts", "lookalikes kept", "built-in texts decorated", "license matches"}, Run: func(c *Ctx) {
		c.Rule("metamorphic: well-formed markup inserted between words (with and without spaces) leaves the matches, in words, and the Percent unchanged; look-alikes keep their words; exhaustive: all strings up to a length over the alphabet of each kind of markup are counted through Percent and spelled out through an exact pattern, against a separate word splitter. Non-trivial: a distinct text containing markup or its characters")
		b := builtin(c)
		if b == nil {
			return
		}
		probe := []lc.License{{ID: "L", LRE: "mmmmqq ppppqq"}}
		ps, err := lc.NewScanner(probe)
		if err != nil {
			c.Problem("probe set: %v", err)
			return
		}
		alphas := []struct {
			name  string
			toks  []string
			depth [2]int
		}{
			{"tags", []string{"<", "/", "b", ">", " ", "@", ":", "\n"}, [2]int{5, 7}},
			{"tags with more", []string{"<", "b1", ">", "<b", "\r", "\n", " x", ":/", "@", "/>", "é"}, [2]int{5, 6}},
			{"entities", []string{"&", "#", "x", "a", "1", ";", "g", " "}, [2]int{5, 7}},
			{"entities with more", []string{"&", "&#", "&#x", "F", "9", ";", "copy", "\xff", "/", ":", "`", "Z"}, [2]int{4, 6}},
			{"anchors", []string{"{", "#", "a", "}", " ", "\n", "\r", "{#"}, [2]int{5, 7}},
			{"links", []string{"](", "http://", "https://", "mailto:", "file:", "#", "a", ")", " ", "\n", "\t", "]", "("}, [2]int{4, 5}},
			{"words", []string{"a", "(", "s", ")", "(s)", "(c)", "c", "©", " ", "S", "&copy;", "\u0301"}, [2]int{4, 6}},
			{"mixed", []string{"<b>", "&nbsp;", "{#a}", "](#b)", "w", " ", "<", "&", "{#", "](#", ">", ";", "}", ")"}, [2]int{4, 5}},
		}
		for _, al := range alphas {
			depth := c.N(al.depth[0], al.depth[1])
			k := len(al.toks)
			total := 1
			for i := 0; i < depth; i++ {
				total *= k
			}
			chunk := 2000
			c.Each("all "+al.name, (total+chunk-1)/chunk, func(w *W) {
				for j := w.Case * chunk; j < total && j < (w.Case+1)*chunk; j++ {
					var t strings.Builder
					x := j
					for i := 0; i < depth; i++ {
						t.WriteString(al.toks[x%k])
						x /= k
					}
					s := t.String()
					var st ref.Stats
					ws := ref.Split(s, &st)
					w.Inc("strings counted", 1)
					w.Inc("markup skipped", st.Tags+st.Entities+st.Anchors+st.Links)
					w.Note(true, s)
					n := countBy(ps, s)
					if d := n - float64(len(ws)); d > 1e-6 || d < -1e-6 {
						w.FailText("wrong number of words", probe, []byte("mmmmqq ppppqq "+s), "%q contributes %.2f words, want %d: %v", s, n, len(ws), ws)
						return
					}
				}
			})
		}
		// Every byte and every pair of ASCII characters inside every form of markup.
		c.Each("every byte", 256, func(w *W) {
			for _, f := range markupForms {
				if strings.HasPrefix(f[0], "http") {
					continue
				}
				for j := -1; j < 128; j++ {
					if w.Case >= 128 && j >= 0 && j%8 != w.Case%8 {
						continue
					}
					s := f[0] + string([]byte{byte(w.Case)})
					if j >= 0 {
						s += string([]byte{byte(j)})
					}
					for _, s := range []string{s + f[1] + "w", s + "q" + f[1] + " w" + f[1], s} {
						var st ref.Stats
						ws := ref.Split(s, &st)
						w.Inc("strings counted", 1)
						w.Inc("markup skipped", st.Tags+st.Entities+st.Anchors+st.Links)
						w.Note(true, s)
						n := countBy(ps, s)
						if d := n - float64(len(ws)); d > 1e-6 || d < -1e-6 {
							w.FailText("wrong number of words", probe, []byte("mmmmqq ppppqq "+s), "%q contributes %.2f words, want %d: %v", s, n, len(ws), ws)
							return
						}
					}
				}
			}
		})
		// The words themselves: a pattern made of the expected words must match
		// the string in full.
		c.Each("spelled out", c.N(30000, 600000), func(w *W) {
			var s string
			switch w.R.IntN(3) {
			case 0:
				s = hostileText(w.R, 1+w.R.IntN(8))
			case 1:
				al := pick(w.R, alphas)
				for n := w.R.IntN(14); n > 0; n-- {
					s += pick(w.R, al.toks)
				}
			case 2:
				for n := 1 + w.R.IntN(6); n > 0; n-- {
					s += pick(w.R, []string{genMarkup(w.R), genLookalike(w.R), "wqwq", " ", "\n"})
				}
				if w.R.IntN(2) == 0 && len(s) > 0 {
					s = string(mutateBytes(w.R, []byte(s), 1))
				}
			}
			var st ref.Stats
			ws := ref.Split("mmmmqq ppppqq "+s, &st)
			p := "mmmmqq ppppqq"
			for _, x := range ws[2:] {
				q := x.S
				if re := ref.Split(q, nil); len(re) != 1 || re[0].S != q {
					return // a word that cannot be written in a pattern by itself
				}
				p += " " + q
			}
			list := []lc.License{{ID: "L", LRE: p}}
			sc, err := lc.NewScanner(list)
			if err != nil {
				w.FailText("valid license set rejected", list, nil, "%v", err)
				return
			}
			w.Inc("markup skipped", st.Tags+st.Entities+st.Anchors+st.Links)
			w.Inc("strings spelled out", 1)
			t := []byte("mmmmqq ppppqq " + s)
			w.Note(true, string(t))
			got := sc.Scan(t)
			if len(got.Match) != 1 || got.Match[0].Start != 0 || got.Match[0].End != len(t) || got.Percent != 100 {
				w.FailText("words differ from the documented ones", list, t, "text should consist of exactly the words of the pattern; got %s", show(got.Match, got.Percent))
			}
		})
		// Decorated texts of random worlds.
		profs := modelProfiles()
		for _, name := range profileOrder {
			p := profs[name]
			p.PURL, p.PURLOnly, p.Bytes = 0, 0, 0
			p.Weights[pURL], p.Weights[pBadURL] = 0, 0
			p.Seps = safeSeps
			c.Each("decorated "+name, c.N(1500, 40000), func(w *W) {
				x := newWorld(w.R, &p)
				if !x.scanner(w) {
					return
				}
				for i := 0; i < 5; i++ {
					ws, ok := surface(string(x.text(w.R)))
					if !ok || len(ws) == 0 {
						continue
					}
					a := []byte(strings.Join(ws, " "))
					var d strings.Builder
					if w.R.IntN(2) == 0 {
						d.WriteString(genMarkup(w.R))
					}
					for j, s := range ws {
						if j > 0 {
							switch w.R.IntN(4) {
							case 0:
								d.WriteString(genMarkup(w.R))
							case 1:
								d.WriteString(" " + genMarkup(w.R) + pick(w.R, []string{"", " ", "\n"}))
							default:
								d.WriteString(" ")
							}
						}
						d.WriteString(s)
					}
					if w.R.IntN(2) == 0 {
						d.WriteString(genMarkup(w.R))
					}
					t := []byte(d.String())
					w.Inc("decorated texts", 1)
					if i == 0 {
						w.Sample("decorated "+name, clip(string(t), 300))
					}
					if !sameWordsAs(ws, string(t)) {
						// e.g. markup that swallows what follows; left to the
						// exhaustive part
						w.Inc("decorations with other words", 1)
						continue
					}
					w.sameInWords("markup changes the result", x.List, a, x.S.Scan(a), t, x.S.Scan(t))
				}
			})
		}
		// Decorations of an exact instance, expected matches known by
		// construction (no reference splitter involved).
		c.Each("decorated instances", c.N(3000, 80000), func(w *W) {
			u := newUnique(w.R)
			var ws []string
			for n := 2 + w.R.IntN(10); n > 0; n-- {
				ws = append(ws, u.word(nil))
			}
			list := []lc.License{{ID: "L", LRE: lits(ws...)}}
			s, err := lc.NewScanner(list)
			if err != nil {
				w.FailText("valid license set rejected", list, nil, "%v", err)
				return
			}
			var d strings.Builder
			look := -1
			if w.R.IntN(2) == 0 {
				look = 1 + w.R.IntN(len(ws)-1)
			}
			for j, x := range ws {
				if j == look {
					d.WriteString(" " + genLookalike(w.R) + " ")
				} else if j > 0 {
					d.WriteString(pick(w.R, []string{" ", "\n"}) + genMarkup(w.R) + pick(w.R, []string{" ", "\n", ""}))
				}
				d.WriteString(x)
			}
			t := []byte(d.String())
			got := s.Scan(t)
			w.Note(true, string(t))
			full := len(got.Match) == 1 && got.Match[0].Start == 0 && got.Match[0].End == len(t) && got.Percent == 100
			if look < 0 {
				w.Inc("decorated instances", 1)
				if !full {
					w.FailText("markup between words breaks the match", list, t, "want one match over the whole text, got %s", show(got.Match, got.Percent))
				}
			} else {
				w.Inc("lookalikes kept", 1)
				if full {
					w.FailText("text resembling markup is dropped", list, t, "a match over the whole text although words were inserted")
				}
			}
		})
		cp := corpus()
		c.Each("built-in texts", c.N(min(200, len(cp)), len(cp)*4), func(w *W) {
			t := string(cp[(w.Case*11)%len(cp)])
			if len(t) > 50000 {
				return
			}
			ws := ref.Split(t, nil)
			var d strings.Builder
			last, ins := 0, 0
			for i := 1; i < len(ws); i++ {
				gap := t[ws[i-1].Hi:ws[i].Lo]
				if strings.TrimSpace(gap) != "" || gap == "" || w.R.IntN(4) != 0 {
					continue
				}
				k := ws[i-1].Hi + w.R.IntN(len(gap)+1)
				d.WriteString(t[last:k])
				d.WriteString(genMarkup(w.R))
				ins++
				last = k
			}
			d.WriteString(t[last:])
			u := []byte(d.String())
			re := ref.Split(string(u), nil)
			same := len(re) == len(ws)
			for i := 0; same && i < len(re); i++ {
				same = re[i].S == ws[i].S && re[i].Raw == ws[i].Raw
			}
			if !same {
				w.Inc("decorations with other words", 1)
				return
			}
			w.Inc("built-in texts decorated", 1)
			w.Inc("insertions into built-in texts", ins)
			w.sameInWords("markup changes the result", nil, []byte(t), b.S.Scan([]byte(t)), u, b.S.Scan(u))
		})
		// Random worlds with markup everywhere, against the model.
		p := profs["markup"]
		fuzzModel(c, "markup model", c.N(2000, 80000), p, aIDs|aCore|aPercent, nil)
	}})
}

// sameWordsAs reports whether text consists of exactly these words.
func sameWordsAs(ws []string, text string) bool {
	a, b := ref.Split(strings.Join(ws, " "), nil), ref.Split(text, nil)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].S != b[i].S || a[i].Raw != b[i].Raw {
			return false
		}
	}
	return true
}
