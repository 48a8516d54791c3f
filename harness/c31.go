package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck/old"
)

// An oldRun is a run of words of one license in a text.
type oldRun struct {
	lic      int // index in the license list
	from, to int // words of the license
	gap      int // foreign words before it
}

type oldWant struct {
	name    string
	a, b    int // words of the text
	percent float64
}

// oldModel predicts the matches of runs in order: runs of MinLength words
// count, gaps of up to Slop words are bridged, and what reaches the Threshold
// is reported.
func oldModel(lics [][]string, names []string, runs []oldRun, opts old.Options) []oldWant {
	def := func(v, d int) int {
		if v <= 0 {
			return d
		}
		return v
	}
	minLen, slop, thr := max(def(opts.MinLength, 10), 2), def(opts.Slop, 8), float64(def(opts.Threshold, 40))
	type cand struct {
		lic, a, b, matched, end int
	}
	var cands []cand
	pos := 0
	for _, r := range runs {
		pos += r.gap
		a, b := pos, pos+r.to-r.from
		pos = b
		if b-a < minLen {
			continue
		}
		if n := len(cands); n > 0 && cands[n-1].lic == r.lic && a-cands[n-1].b <= slop && r.from >= cands[n-1].end {
			cands[n-1].b, cands[n-1].end = b, r.to
			cands[n-1].matched += b - a
			continue
		}
		cands = append(cands, cand{r.lic, a, b, b - a, r.to})
	}
	var out []oldWant
	for _, c := range cands {
		if p := 100 * float64(c.matched) / float64(len(lics[c.lic])); p >= thr {
			out = append(out, oldWant{names[c.lic], c.a, c.b, p})
		}
	}
	return out
}

// wordsAt gives the range of words (by their byte offsets) that a match covers.
func wordsAt(offs []int, lo, hi int) (a, b int) {
	for a < len(offs) && offs[a] < lo {
		a++
	}
	b = a
	for b < len(offs) && offs[b] < hi {
		b++
	}
	return a, b
}

// A blankRun is a piece of a license in a text: n words from the word at.
type blankRun struct {
	at, lic, n int
	short      bool // fewer than MinLength words
}

// blankModel predicts the matches of pieces of a license that has blanks, all
// words distinct: a blank bridges up to 70 words between long pieces, and in
// front of what could not be joined with anything before it, words ahead of a
// blank count if they are among the 70 words before it, however few they are.
func blankModel(name string, lic, text []string, runs []blankRun, slop int) []oldWant {
	blank := func(i int) bool { return i >= 0 && i < len(lic) && lic[i][0] == '_' }
	var out []oldWant
	licEnd := 0
	for _, x := range runs {
		if x.short {
			continue
		}
		if n := len(out); n > 0 {
			reach := slop
			if blank(licEnd) {
				reach = 70
			}
			if m := &out[n-1]; x.at-m.b <= reach {
				if blank(licEnd) && x.lic > licEnd {
					m.percent++
				}
				m.percent += float64(x.n)
				m.b = x.at + x.n
				licEnd = x.lic + x.n
				continue
			}
		}
		m := oldWant{name: name, a: x.at, b: x.at + x.n}
		lo := x.lic
		for found := true; found && lo >= 2 && blank(lo-1) && !blank(lo-2); {
			found = false
			for d := 1; d <= 70 && m.a-d >= 0 && (len(out) == 0 || m.a-d >= out[len(out)-1].b); d++ {
				if i := m.a - d; text[i] == lic[lo-2] {
					m.a, lo, found = i, lo-2, true
					break
				}
			}
			for found && m.a > 0 && lo > 0 && text[m.a-1] == lic[lo-1] {
				m.a, lo = m.a-1, lo-1
			}
		}
		m.percent = float64(x.n + x.lic - lo)
		licEnd = x.lic + x.n
		out = append(out, m)
	}
	for i := range out {
		out[i].percent *= 100 / float64(len(lic))
	}
	return out
}

func init() {
	register(&Check{ID: "C31", Needs: []string{"runs judged", "gaps within the slop", "gaps beyond the slop", "runs too short", "matches below the threshold", "matches expected", "runs out of order", "nested licenses", "old default options", "large gaps and runs", "old words alike", "blanks copied", "blanks filled within the limit", "blanks filled beyond the limit", "gaps between blanks", "short pieces between blanks", "gaps next to URLs"}, Run: func(c *Ctx) {
		c.Rule("texts put together from runs of words of license texts (all words distinct) with gaps of foreign words in between, gaps and run lengths close to the limits (which go up to thousands of words), words that have hundreds of letters in common; the matches (name, words, Percent) and the total Percent must be those that MinLength, Slop and Threshold as documented give. Copies of licenses that are parts of one another. Options of zero or less must act like the defaults. Non-trivial: a text with a match or a run next to a limit")
		c.Each("runs", c.N(20000, 600000), func(w *W) {
			r := w.R
			u := newUnique(r)
			// Sometimes the words, also those of no license, have hundreds of
			// letters in common.
			alike := func(s string) string { return s }
			if r.IntN(6) == 0 {
				f := plainWord(r, longLen(r, 600), r.IntN(2) == 0)
				i, k := r.IntN(3), r.IntN(2)
				alike = func(s string) string {
					switch {
					case k == 1 && len(s)%2 == 0:
						return s
					case i == 0:
						return f + s
					case i == 1:
						return s + f
					}
					return s[:1] + f + s[1:]
				}
				w.Inc("old words alike", 1)
			}
			size := pick(r, []int{6, 30, 120})
			big := w.Case%40 == 7
			if big {
				size = pick(r, []int{300, 1200, 3000})
				w.Inc("large gaps and runs", 1)
			}
			var lics [][]string
			var names []string
			var list []old.License
			for i, n := 0, 1+r.IntN(4); i < n; i++ {
				var ws []string
				for k := 2 + r.IntN(size); k > 0; k-- {
					ws = append(ws, alike(u.word(nil)))
				}
				lics = append(lics, ws)
				names = append(names, fmt.Sprintf("%s%d", pick(r, oldNames), i))
				list = append(list, old.License{Name: names[i], Text: lits(ws...)})
			}
			opt := func(vs ...int) int { return pick(r, vs) }
			opts := old.Options{}
			if r.IntN(3) > 0 {
				opts = old.Options{MinLength: opt(0, 0, 1, 2, 3, 5, 9, 10, 11, 25), Threshold: opt(0, 0, 1, 10, 39, 40, 41, 50, 75, 99, 100, 101), Slop: opt(0, 0, 1, 2, 5, 8, 9, 30)}
			}
			if big {
				if r.IntN(2) == 0 {
					opts.MinLength = 1 + longLen(r, 1100)
				}
				if r.IntN(3) > 0 {
					opts.Slop = longLen(r, 5000)
				}
				if r.IntN(2) == 0 {
					opts.Threshold = 1 + r.IntN(20)
				}
			}
			minLen, slop := opts.MinLength, opts.Slop
			if minLen == 0 {
				minLen = 10
			}
			if slop == 0 {
				slop = 8
			}
			var runs []oldRun
			prev := -1
			for k := 1 + r.IntN(4); k > 0; k-- {
				l := r.IntN(len(lics))
				if l == prev {
					continue
				}
				prev = l
				at := r.IntN(1 + r.IntN(len(lics[l])))
				gap := r.IntN(6)
				if len(runs) > 0 {
					gap = r.IntN(40)
				}
				for k := 0; at < len(lics[l]) && k < 50; k++ {
					var n int
					switch r.IntN(4) {
					case 0:
						n = minLen + r.IntN(3) - 1
					case 1:
						n = len(lics[l])
					default:
						n = 1 + r.IntN(1+2*minLen)
					}
					n = min(max(n, 1), len(lics[l])-at)
					runs = append(runs, oldRun{l, at, at + n, gap})
					if n == minLen-1 {
						w.Inc("runs too short", 1)
					}
					at += n
					if r.IntN(3) == 0 {
						at += r.IntN(4)
					}
					if r.IntN(5) == 0 {
						break
					}
					if at > 1 && r.IntN(6) == 0 { // back to somewhere before
						at = r.IntN(max(1, at-n))
						w.Inc("runs out of order", 1)
					}
					gap = max(1, pick(r, []int{1, slop - 1, slop, slop, slop + 1, slop + 2, r.IntN(20)}))
					switch {
					case gap == slop:
						w.Inc("gaps within the slop", 1)
					case gap == slop+1:
						w.Inc("gaps beyond the slop", 1)
					}
				}
				// Runs of another license must not come within reach of this one.
				if len(runs) > 0 && r.IntN(2) == 0 {
					prev = -1
				}
				if prev == -1 {
					runs = append(runs, oldRun{l, 0, 0, slop + 1 + r.IntN(3)})
				}
			}
			var ws []string
			for _, x := range runs {
				for _, s := range foreignN(r, x.gap) {
					ws = append(ws, alike(s))
				}
				ws = append(ws, lics[x.lic][x.from:x.to]...)
			}
			if r.IntN(2) == 0 {
				ws = append(ws, foreignN(r, r.IntN(12))...)
			}
			// A license used again, later, with something of another one in between, must be out of reach.
			last := map[int]int{}
			pos := 0
			for i, x := range runs {
				pos += x.gap
				if j, ok := last[x.lic]; ok && i > 0 && runs[i-1].lic != x.lic && pos-j <= slop {
					return
				}
				pos += x.to - x.from
				last[x.lic] = pos
			}
			var kept []oldRun
			carry := 0
			for _, x := range runs {
				x.gap += carry
				carry = 0
				if x.to == x.from {
					carry = x.gap
					continue
				}
				kept = append(kept, x)
			}
			want := oldModel(lics, names, kept, opts)
			free := opts
			free.Threshold = 1
			w.Inc("matches below the threshold", len(oldModel(lics, names, kept, free))-len(want))
			w.Inc("matches expected", len(want))
			w.Inc("runs judged", len(kept))
			var b strings.Builder
			var offs []int
			for _, s := range ws {
				offs = append(offs, b.Len())
				b.WriteString(s + pick(r, []string{" ", " ", "\n", ", "}))
			}
			t := b.String()
			ck := old.New(list)
			cov, ok := ck.Cover([]byte(t), opts)
			w.Note(true, t, fmt.Sprint(opts))
			if !oldJudge(w, list, []byte(t), opts, cov, ok) {
				return
			}
			covered := 0
			bad := len(cov.Match) != len(want)
			for i := 0; !bad && i < len(want); i++ {
				m := cov.Match[i]
				a, e := wordsAt(offs, m.Start, m.End)
				bad = m.Name != want[i].name || a != want[i].a || e != want[i].b || m.IsURL || m.Percent < want[i].percent-1e-6 || m.Percent > want[i].percent+1e-6
				covered += want[i].b - want[i].a
			}
			if p := 100 * float64(covered) / float64(max(1, len(ws))); !bad && (cov.Percent < p-1e-6 || cov.Percent > p+1e-6) {
				bad = true
			}
			if bad {
				w.Fail(Violation{Kind: "options not honored", Message: fmt.Sprintf("options %+v, runs %+v: got %+v, want %+v (offsets in words) of %d words", opts, kept, cov, want, len(ws)), Text: t, TextB64: b64([]byte(t)), Got: fmt.Sprintf("%+v", cov), Want: fmt.Sprintf("%+v; %+v", want, list)})
				return
			}
			// Zero or less stands for the default.
			o2 := opts
			neg := func(p *int, d int) {
				switch {
				case *p <= 0:
					*p = pick(r, []int{0, -1, d})
				case *p == d:
					*p = pick(r, []int{0, -5, d})
				}
			}
			neg(&o2.MinLength, 10)
			neg(&o2.Threshold, 40)
			neg(&o2.Slop, 8)
			cov2, _ := ck.Cover([]byte(t), o2)
			w.Inc("old default options", 1)
			if fmt.Sprint(cov) != fmt.Sprint(cov2) {
				w.Fail(Violation{Kind: "default options", Message: fmt.Sprintf("%+v gives %+v, %+v gives %+v", opts, cov, o2, cov2), Text: t})
			}
		})
		// Blanks of a license: each stands for up to 70 words, and is one of the
		// license's words, matched if what is around it is.
		c.Each("blanks", c.N(6000, 200000), func(w *W) {
			r := w.R
			u := newUnique(r)
			opts := old.Options{}
			if r.IntN(2) == 0 {
				opts = old.Options{MinLength: pick(r, []int{0, 2, 3, 5, 9, 11}), Threshold: pick(r, []int{0, 1, 30, 60, 90, 100}), Slop: pick(r, []int{0, 1, 7, 9, 30, 69, 70})}
			}
			minLen, slop, thr := opts.MinLength, opts.Slop, float64(opts.Threshold)
			if minLen == 0 {
				minLen = 10
			}
			if slop == 0 {
				slop = 8
			}
			if thr == 0 {
				thr = 40
			}
			var list []old.License
			var want []oldWant
			var text []string
			add := func(ss ...string) { text = append(text, ss...) }
			add(foreignN(r, r.IntN(4))...)
			for i, n := 0, 1+r.IntN(3); i < n; i++ {
				name := fmt.Sprintf("%s%d", pick(r, oldNames), i)
				if i > 0 {
					add(foreignN(r, 75+r.IntN(10))...)
				}
				var lic []string
				var runs []blankRun
				if r.IntN(8) == 0 {
					lic = append(lic, "___")
				}
				shorts := r.IntN(3) == 0
				join := false // the last blank stands in the text, too
				for k, segs := 0, 1+r.IntN(5); k < segs; k++ {
					short := shorts && k < segs-1 && minLen > 1 && r.IntN(2) == 0
					if k > 0 {
						lic = append(lic, pick(r, []string{"___", "___", "_____", "____"}))
						gap := pick(r, []int{0, 1, 2, slop, slop + 1, 35, 69, 70, 70, 71, 72, 90, r.IntN(75)})
						if shorts {
							gap = pick(r, []int{1, 2, 5, 20, 34, 60, 68, 69, 72, 90, r.IntN(70)})
						} else if r.IntN(9) == 0 {
							gap = -1
						}
						switch {
						case gap == -1:
							add("___")
							join = true
							w.Inc("blanks copied", 1)
						case gap <= 70:
							add(foreignN(r, gap)...)
							w.Inc("blanks filled within the limit", 1)
						default:
							add(foreignN(r, gap)...)
							w.Inc("blanks filled beyond the limit", 1)
						}
					}
					// The words up to the next blank, with a gap in them or not.
					for part := r.IntN(4); ; part-- {
						n := minLen + r.IntN(12)
						if short {
							n = 1 + r.IntN(minLen-1)
							w.Inc("short pieces between blanks", 1)
						}
						run := blankRun{at: len(text), lic: len(lic), n: n, short: short}
						for j := 0; j < n; j++ {
							x := u.word(nil)
							lic = append(lic, x)
							add(x)
						}
						if join {
							runs[len(runs)-1].n += 1 + n
							join = false
						} else {
							runs = append(runs, run)
						}
						if part != 1 || short {
							break
						}
						add(foreignN(r, 1+r.IntN(slop))...)
						w.Inc("gaps between blanks", 1)
					}
				}
				if r.IntN(8) == 0 {
					lic = append(lic, "___")
				}
				want = append(want, blankModel(name, lic, text, runs, slop)...)
				list = append(list, old.License{Name: name, Text: lits(lic...)})
			}
			add(foreignN(r, r.IntN(4))...)
			var kept []oldWant
			covered := 0
			for _, x := range want {
				switch {
				case x.percent >= thr+1e-6:
					kept = append(kept, x)
					covered += x.b - x.a
				case x.percent > thr-1e-6:
					return // rounding decides
				}
			}
			r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
			var b strings.Builder
			var offs []int
			for _, s := range text {
				offs = append(offs, b.Len())
				b.WriteString(s + pick(r, []string{" ", " ", "\n", ", "}))
			}
			t := b.String()
			cov, ok := old.New(list).Cover([]byte(t), opts)
			w.Note(true, t, fmt.Sprint(opts))
			if !oldJudge(w, list, []byte(t), opts, cov, ok) {
				return
			}
			bad := len(cov.Match) != len(kept)
			for i := 0; !bad && i < len(kept); i++ {
				m := cov.Match[i]
				a, e := wordsAt(offs, m.Start, m.End)
				bad = m.Name != kept[i].name || a != kept[i].a || e != kept[i].b || m.IsURL || m.Percent < kept[i].percent-1e-6 || m.Percent > kept[i].percent+1e-6
			}
			if p := 100 * float64(covered) / float64(len(text)); !bad && (cov.Percent < p-1e-6 || cov.Percent > p+1e-6) {
				bad = true
			}
			if bad {
				w.Fail(Violation{Kind: "blanks", Message: fmt.Sprintf("options %+v: got %+v, want %+v (offsets in words) of %d words", opts, cov, kept, len(text)), Text: t, TextB64: b64([]byte(t)), Got: fmt.Sprintf("%+v", cov), Want: fmt.Sprintf("%+v; %+v", kept, list)})
			}
		})
		// A URL stands for all that is between it and the matches next to it.
		c.Each("URL shares", c.N(6000, 150000), func(w *W) {
			r := w.R
			u := newUnique(r)
			var list []old.License
			var pieces [][]string
			for i := 0; i < 3; i++ {
				var ws []string
				for k := 10 + r.IntN(12); k > 0; k-- {
					ws = append(ws, u.word(nil))
				}
				pieces = append(pieces, ws)
				list = append(list, old.License{Name: fmt.Sprintf("%s%d", pick(r, oldNames), i), Text: lits(ws...)})
			}
			for i := 0; i < 2; i++ {
				url := u.word(nil) + ".org"
				for k := 1 + r.IntN(3); k > 0; k-- {
					url += "/" + u.word(nil)
				}
				pieces = append(pieces, []string{pick(r, []string{"http://", "https://"}) + url})
				list = append(list, old.License{Name: fmt.Sprintf("url%d", i), URL: url})
			}
			var b strings.Builder
			words, covered, gap := 0, 0, 0
			var names []string
			wasURL, urls := false, r.IntN(3) > 0
			for k := 1 + r.IntN(5); k >= 0; k-- {
				n := pick(r, []int{0, 1, 2, 3, r.IntN(40)})
				if k == 0 && r.IntN(4) == 0 {
					n = 0
				}
				gap += n
				for _, s := range foreignN(r, n) {
					b.WriteString(s + pick(r, []string{" ", "\n"}))
				}
				words += n
				isURL := false
				if k > 0 {
					i := r.IntN(3)
					if urls && r.IntN(2) == 0 {
						i = 3 + r.IntN(2)
					}
					isURL = i > 2
					b.WriteString(lits(pieces[i]...) + pick(r, []string{" ", "\n"}))
					n := len(foreignLetters(lits(pieces[i]...)))
					words += n
					covered += n
					names = append(names, list[i].Name)
				}
				if isURL || wasURL {
					covered += gap
					w.Inc("gaps next to URLs", 1)
				}
				gap, wasURL = 0, isURL
			}
			t := b.String()
			cov, ok := old.New(list).Cover([]byte(t), old.Options{})
			w.Note(true, t)
			if !oldJudge(w, list, []byte(t), old.Options{}, cov, ok) {
				return
			}
			var got []string
			for _, m := range cov.Match {
				got = append(got, m.Name)
			}
			p := 100 * float64(covered) / float64(max(1, words))
			if fmt.Sprint(got) != fmt.Sprint(names) || cov.Percent < p-1e-6 || cov.Percent > p+1e-6 {
				w.Fail(Violation{Kind: "share of URLs", Message: fmt.Sprintf("got %+v, want %v, %v%% (%d of %d words)", cov, names, p, covered, words), Text: t, TextB64: b64([]byte(t)), Got: fmt.Sprintf("%+v", cov), Want: fmt.Sprintf("%+v", list)})
			}
		})
		// Licenses that are parts of one another: a copy of one is reported as that one.
		c.Each("nested", c.N(6000, 150000), func(w *W) {
			r := w.R
			u := newUnique(r)
			var ws []string
			for k := 40 + r.IntN(80); k > 0; k-- {
				ws = append(ws, u.word(nil))
			}
			type part struct{ a, b int }
			var parts []part
			var list []old.License
			for i, n := 0, 2+r.IntN(4); i < n; i++ {
				p := part{0, len(ws)}
				for try := 0; ; try++ {
					a := r.IntN(len(ws) - 10)
					p = part{a, a + 10 + r.IntN(len(ws)-a-9)}
					if r.IntN(2) == 0 {
						p.a = 0
					}
					if r.IntN(2) == 0 {
						p.b = len(ws)
					}
					dup := false
					for _, q := range parts {
						dup = dup || p == q
					}
					if !dup {
						break
					}
				}
				parts = append(parts, p)
				list = append(list, old.License{Name: fmt.Sprintf("%s%d", pick(r, oldNames), r.IntN(100)*10+i), Text: lits(ws[p.a:p.b]...)})
			}
			ck := old.New(list)
			for i, p := range parts {
				pre, post := lits(foreignN(r, r.IntN(5))...), lits(foreignN(r, r.IntN(5))...)
				body := lits(ws[p.a:p.b]...)
				t := strings.TrimSpace(pre + " " + body + " " + post)
				cov, ok := ck.Cover([]byte(t), old.Options{})
				w.Inc("nested licenses", 1)
				w.Note(true, t)
				if !oldJudge(w, list, []byte(t), old.Options{}, cov, ok) {
					return
				}
				lo := strings.Index(t, body)
				hi := lo + len(body)
				if len(cov.Match) != 1 || cov.Match[0].Name != list[i].Name || cov.Match[0].Percent != 100 || cov.Match[0].Start != lo || cov.Match[0].End != hi {
					w.Fail(Violation{Kind: "not the best match", Message: fmt.Sprintf("copy of %s at [%d:%d]: got %+v", list[i].Name, lo, hi, cov), Text: t, Got: fmt.Sprintf("%+v", list)})
					return
				}
			}
		})
	}})

	register(&Check{ID: "C32", Needs: []string{"old variations", "list markers put in", "letter case changed", "old entities put in", "license texts varied", "old matches compared", "old URL spellings", "URLs before a license", "other characters put in"}, Run: func(c *Ctx) {
		c.Rule("a text of license copies, pieces and foreign words is written a second time with other letter case, white space, punctuation, digits, list markers and any other characters that are no letters between the words (and so are the license texts): the matches must be the same in names, Percent and words. Known URLs in every spelling (scheme, letter case, trailing slash, /legalcode, one more element) must be reported at their place, anywhere. Non-trivial: text with a match")
		voc := []string{"permission", "hereby", "granted", "copyright", "notice", "software", "лицензия", "énergie", "öffentlich", "δικαίωμα", "naïve", "the", "of", "and", "in", "any", "条件", "право"}
		seps := []string{" ", " ", "\n", "\r\n", "\t", ", ", ". ", "; ", " - ", "/", "\"", "’", " 12 ", "2.0 ", " (", ") ", "\n * ", "\n// ", "—", "\u00a0", "_ ", "#", "©", " @ ", "\n\n# ", "1"}
		marks := strings.Fields("a b c d e f g h i j k l m n o p q r ii iii iv vi vii viii ix xi xii xiii xiv xv")
		put := func(w *W, ws []string, plain bool) (string, []int) {
			r := w.R
			var b strings.Builder
			var offs []int
			sep := func() {
				if plain {
					b.WriteString(" ")
					return
				}
				s := pick(r, seps)
				if r.IntN(3) == 0 {
					s = string(pick(r, nonLetters))
					if r.IntN(4) == 0 {
						s = pick(r, []string{" ", "\n"}) + s + pick(r, []string{" ", string(pick(r, nonLetters))})
					}
					w.Inc("other characters put in", 1)
				}
				switch r.IntN(14) {
				case 0:
					s = pick(r, []string{" ", "\n", "\n  ", ". "}) + pick(r, []string{"", "("}) + pick(r, marks) + pick(r, []string{". ", ") ", ": ", ".", ")", ":"})
					if r.IntN(4) == 0 {
						s = strings.ToUpper(s)
					}
					w.Inc("list markers put in", 1)
				case 1:
					s = pick(r, []string{" ", "", "\n"}) + pick(r, []string{"&ldquo;", "&rdquo;", "&amp;", "&LDQUO;", "&Amp;"}) + pick(r, []string{" ", ""})
					w.Inc("old entities put in", 1)
				case 2:
					s += pick(r, seps)
					if strings.Contains(s, "__") {
						s = " "
					}
				}
				b.WriteString(s)
			}
			if !plain && r.IntN(2) == 0 {
				sep()
			}
			for i, s := range ws {
				if s == "___" {
					// A blank stays apart from other underscores.
					b.WriteString(" ___ ")
					continue
				}
				if i > 0 && ws[i-1] != "___" || plain {
					sep()
				}
				if !plain && r.IntN(3) == 0 {
					k := r.IntN(3)
					s = strings.Map(func(c rune) rune {
						x := unicode.ToUpper(c)
						if utf8.RuneLen(x) != utf8.RuneLen(c) || unicode.ToLower(x) != c || k > 0 && r.IntN(2) == 0 {
							return c
						}
						return x
					}, s)
					w.Inc("letter case changed", 1)
				}
				offs = append(offs, b.Len())
				b.WriteString(s)
			}
			if !plain && r.IntN(2) == 0 {
				b.WriteString(pick(r, []string{"\n", ".", " ", "!", " 3"}))
			} else {
				b.WriteString(" ")
			}
			return b.String(), offs
		}
		c.Each("variations", c.N(12000, 300000), func(w *W) {
			r := w.R
			u := newUnique(r)
			word := func() string {
				if r.IntN(3) == 0 {
					return pick(r, voc)
				}
				return u.word(nil)
			}
			var lics [][]string
			var l1, l2 []old.License
			for i, n := 0, 1+r.IntN(4); i < n; i++ {
				var ws []string
				for k := 2 + r.IntN(60); k > 0; k-- {
					ws = append(ws, word())
				}
				if r.IntN(3) == 0 && len(ws) > 8 {
					ws[2+r.IntN(len(ws)-4)] = "___"
				}
				lics = append(lics, ws)
				name := fmt.Sprintf("L%d", i)
				a, _ := put(w, ws, true)
				b, _ := put(w, ws, false)
				w.Inc("license texts varied", 1)
				l1, l2 = append(l1, old.License{Name: name, Text: a}), append(l2, old.License{Name: name, Text: b})
			}
			var ws []string
			for k := 1 + r.IntN(5); k > 0; k-- {
				l := pick(r, lics)
				switch r.IntN(4) {
				case 0:
					a := r.IntN(len(l))
					l = l[a : a+1+r.IntN(len(l)-a)]
				case 1:
					a := r.IntN(len(l))
					l = append(append(append([]string{}, l[:a]...), foreignN(r, 1+r.IntN(4))...), l[a:]...)
				}
				for _, s := range l {
					if s == "___" {
						ws = append(ws, foreignN(r, 1+r.IntN(8))...)
					} else {
						ws = append(ws, s)
					}
				}
				ws = append(ws, foreignN(r, r.IntN(12))...)
			}
			opts := old.Options{}
			if r.IntN(2) == 0 {
				opts = old.Options{MinLength: r.IntN(12), Threshold: r.IntN(60), Slop: r.IntN(12)}
			}
			t1, o1 := put(w, ws, true)
			t2, o2 := put(w, ws, false)
			c1, ok1 := old.New(l1).Cover([]byte(t1), opts)
			list2 := l1
			if r.IntN(2) == 0 {
				list2 = l2
			}
			c2, ok2 := old.New(list2).Cover([]byte(t2), opts)
			w.Inc("old variations", 1)
			w.Inc("old matches compared", len(c1.Match))
			w.Note(len(c1.Match) > 0, t1, t2)
			if !oldJudge(w, list2, []byte(t2), opts, c2, ok2) {
				return
			}
			bad := ok1 != ok2 || c1.Percent != c2.Percent || len(c1.Match) != len(c2.Match)
			for i := 0; !bad && i < len(c1.Match); i++ {
				m1, m2 := c1.Match[i], c2.Match[i]
				a1, b1 := wordsAt(o1, m1.Start, m1.End)
				a2, b2 := wordsAt(o2, m2.Start, m2.End)
				bad = m1.Name != m2.Name || m1.Type != m2.Type || m1.Percent != m2.Percent || a1 != a2 || b1 != b2
				// The end is that of the last word, or of the text.
				if e := o2[b2-1]; !bad && m2.End != len(t2) && (m2.End <= e || strings.IndexFunc(t2[e:m2.End], func(c rune) bool { return !unicode.IsLetter(c) }) >= 0 || startsLetter(t2[m2.End:])) {
					bad = true
				}
			}
			if bad {
				w.Fail(Violation{Kind: "spelling changes the result", Message: fmt.Sprintf("options %+v: %+v, with other spelling %+v", opts, c1, c2), Text: t2, TextB64: b64([]byte(t2)), Want: t1, Got: fmt.Sprintf("%+v", list2)})
			}
		})
		c.Each("URLs", c.N(12000, 300000), func(w *W) {
			r := w.R
			u := newUnique(r)
			var list []old.License
			var texts []string
			for i, n := 0, 1+r.IntN(4); i < n; i++ {
				url := u.word(nil) + pick(r, []string{".org", ".com", ".x-y.org", ".9.com"})
				for k := 1 + r.IntN(3); k > 0; k-- {
					url += "/" + pick(r, []string{u.word(nil), "licenses", "3.0", "by-nc", "1", "l_2", "x.html", "v2.0"})
				}
				if i == 0 && r.IntN(4) == 0 {
					url = "creativecommons.org/licenses/by/3.0"
				}
				list = append(list, old.License{Name: fmt.Sprintf("U%d", i), URL: url})
			}
			for i := 0; i < 2; i++ {
				var ws []string
				for k := 12 + r.IntN(30); k > 0; k-- {
					ws = append(ws, u.word(nil))
				}
				texts = append(texts, lits(ws...))
				list = append(list, old.License{Name: fmt.Sprintf("T%d", i), Text: texts[i]})
			}
			// The same page with a longer address must not be known by itself.
			for i, a := range list {
				for j, b := range list {
					if i != j && a.URL != "" && strings.HasPrefix(b.URL, a.URL) {
						return
					}
				}
			}
			type exp struct {
				name   string
				lo, hi int
				url    bool
			}
			var want []exp
			var b strings.Builder
			for k := 1 + r.IntN(5); k > 0; k-- {
				switch r.IntN(4) {
				case 0:
					i := r.IntN(len(texts))
					if len(want) > 0 && !want[len(want)-1].url {
						b.WriteString(lits(foreignN(r, 12)...) + " ")
					}
					if n := len(want); n > 0 && want[n-1].url {
						w.Inc("URLs before a license", 1)
					}
					want = append(want, exp{fmt.Sprintf("T%d", i), b.Len(), b.Len() + len(texts[i]), false})
					b.WriteString(texts[i])
				default:
					l := list[r.IntN(len(list)-2)]
					s := pick(r, []string{"http://", "https://"}) + l.URL
					if r.IntN(3) == 0 {
						s += pick(r, []string{"/us", "/at", "/9", "/deed.en"})
					}
					if r.IntN(4) == 0 {
						s += "/legalcode"
					}
					if r.IntN(3) == 0 {
						s += "/"
					}
					switch r.IntN(4) {
					case 0:
						s = strings.ToUpper(s)
					case 1:
						s = strings.ToUpper(s[:4]) + s[4:]
					case 2:
						s = strings.Map(func(c rune) rune {
							if r.IntN(2) == 0 {
								return unicode.ToUpper(c)
							}
							return c
						}, s)
					}
					want = append(want, exp{l.Name, b.Len(), b.Len() + len(s), true})
					b.WriteString(s)
					w.Inc("old URL spellings", 1)
				}
				b.WriteString(pick(r, []string{" ", "\n", ", ", " > ", "\" ", ")\n"}))
				if r.IntN(2) == 0 {
					b.WriteString(lits(foreignN(r, 1+r.IntN(20))...) + " ")
				}
			}
			t := b.String()
			cov, ok := old.New(list).Cover([]byte(t), old.Options{})
			w.Note(true, t)
			if !oldJudge(w, list, []byte(t), old.Options{}, cov, ok) {
				return
			}
			bad := len(cov.Match) != len(want)
			for i := 0; !bad && i < len(want); i++ {
				m, e := cov.Match[i], want[i]
				bad = m.Name != e.name || m.IsURL != e.url || m.Percent != 100 || m.Start != e.lo && !(i == 0 && m.Start == 0 && strings.IndexFunc(t[:e.lo], unicode.IsLetter) < 0)
				// The end is the last word's, or the end of the text.
				bad = bad || m.End > e.hi && m.End < len(t) || m.End > e.hi && strings.IndexFunc(t[e.hi:], unicode.IsLetter) >= 0 || m.End < e.hi && strings.IndexFunc(t[m.End:e.hi], unicode.IsLetter) >= 0 && e.url
			}
			if bad {
				w.Fail(Violation{Kind: "URL spelling", Message: fmt.Sprintf("got %+v, want %+v", cov, want), Text: t, TextB64: b64([]byte(t)), Got: fmt.Sprintf("%+v", list)})
			}
		})
	}})
}

func startsLetter(s string) bool {
	c, _ := utf8.DecodeRuneInString(s)
	return s != "" && unicode.IsLetter(c)
}
