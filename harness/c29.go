package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"

	"github.com/google/licensecheck/old"
)

// oldList makes text and URL entries for the old Checker. Texts are made of
// letter words; some have blanks (___).
type oldEntry struct {
	l     old.License
	words int
}

func oldWords(w *W, u *uniqueWords, n int, blanks bool, voc []string) string {
	var b strings.Builder
	ends := w.R.IntN(3) == 0 // blanks at the beginning and end, too
	for i := 0; i < n; i++ {
		switch {
		case blanks && ends && (i < 2 || i >= n-2) && w.R.IntN(2) == 0:
			b.WriteString("___")
		case blanks && i > 1 && i < n-1 && w.R.IntN(8) == 0:
			b.WriteString("___")
		case voc != nil:
			b.WriteString(pick(w.R, voc))
		default:
			b.WriteString(u.word(nil))
			if w.R.IntN(6) == 0 {
				b.WriteString(pick(w.R, []string{"é", "ж", "δ", "漢", "ö"}))
			}
		}
		b.WriteString(pick(w.R, []string{" ", " ", " ", "\n", ", ", ". "}))
	}
	return b.String()
}

var oldVoc = strings.Fields("permission hereby granted copyright notice software source binary the of and in is any rights reserved license")

func oldTypeOf(name string) old.Type {
	for l := old.Type(0); l < old.NumTypes; l++ {
		if strings.HasPrefix(name, l.String()) {
			return l
		}
	}
	return old.Other
}

// oldJudge checks what every result of Cover must satisfy.
func oldJudge(w *W, list []old.License, text []byte, opts old.Options, cov old.Coverage, ok bool) bool {
	fail := func(kind, format string, args ...any) bool {
		w.Fail(Violation{Kind: kind, Message: fmt.Sprintf(format, args...) + fmt.Sprintf(" options %+v", opts), TextB64: b64(text), Text: clip(string(text), 3000), Got: fmt.Sprintf("%+v", cov), Want: fmt.Sprintf("licenses %q", clip(fmt.Sprintf("%+v", list), 3000))})
		return false
	}
	w.Inc("old results judged", 1)
	if ok != (len(cov.Match) > 0) {
		return fail("wrong boolean", "Cover returned %v with %d matches", ok, len(cov.Match))
	}
	if !(cov.Percent >= 0 && cov.Percent <= 100+1e-9) {
		return fail("Percent out of range", "Coverage.Percent = %v", cov.Percent)
	}
	end := 0
	for i, m := range cov.Match {
		w.Inc("old matches", 1)
		if m.IsURL {
			w.Inc("old URL matches", 1)
		}
		if m.Start < 0 || m.End > len(text) || m.Start >= m.End {
			return fail("match out of bounds", "match %d [%d:%d] of %d bytes", i, m.Start, m.End, len(text))
		}
		if m.Start < end {
			return fail("matches overlap", "match %d [%d:%d] begins before %d", i, m.Start, m.End, end)
		}
		end = m.End
		if !(m.Percent >= 0 && m.Percent <= 100+1e-9) || math.IsNaN(m.Percent) {
			return fail("Percent out of range", "match %d: %v", i, m.Percent)
		}
		have := false
		for _, l := range list {
			have = have || l.Name == m.Name && (m.IsURL && l.URL != "" || !m.IsURL && l.Text != "")
		}
		if !have {
			return fail("match of no entry", "match %d is %q (URL %v)", i, m.Name, m.IsURL)
		}
		if m.Type != oldTypeOf(m.Name) {
			return fail("wrong type", "match %d: %v of %q", i, m.Type, m.Name)
		}
		if m.IsURL && m.Percent != 100 {
			return fail("URL match without 100 percent", "match %d: %v", i, m.Percent)
		}
	}
	return true
}

var oldNames = []string{"MIT", "BSD-3-Clause", "Apache-2.0", "GPL-2.0", "AGPL", "CC-BY", "Zlib", "JSON", "Unlicense", "X", "", "mit", "Other-1"}

// An oldWorld is a Checker with its entries.
type oldWorld struct {
	list []old.License
	ck   *old.Checker
	txt  []old.License
	urls []old.License
}

func oldMk(w *W, shared bool) *oldWorld {
	u := newUnique(w.R)
	x := &oldWorld{}
	var voc []string
	if shared {
		voc = oldVoc
	}
	for i, n := 0, 1+w.R.IntN(8); i < n; i++ {
		l := old.License{Name: fmt.Sprintf("%s%d", pick(w.R, oldNames), i)}
		k := w.R.IntN(4)
		if k != 3 {
			l.Text = oldWords(w, u, 1+w.R.IntN(60), w.R.IntN(2) == 0, voc)
		}
		if k >= 2 {
			l.URL = fmt.Sprintf("%s/%s", genURL(w.R), u.word(nil))
		}
		if w.R.IntN(10) == 0 {
			l.Text, l.URL = "", ""
		}
		if l.Text != "" {
			x.txt = append(x.txt, l)
		}
		if l.URL != "" {
			x.urls = append(x.urls, l)
		}
		x.list = append(x.list, l)
	}
	if len(x.txt) > 0 && len(x.urls) > 0 {
		w.Inc("mixed old lists", 1)
	}
	x.ck = old.New(x.list)
	return x
}

func oldOptions(w *W) old.Options {
	v := func() int {
		return []int{0, 0, 0, -1, 1, 2, 3, 5, 10, 40, 70, 99, 101, 1000, 1 << 30, math.MaxInt, math.MinInt}[w.R.IntN(17)]
	}
	if w.R.IntN(2) == 0 {
		return old.Options{}
	}
	return old.Options{MinLength: v(), Threshold: v(), Slop: v()}
}

func oldFill(w *W, s string) string {
	for strings.Contains(s, "___") {
		n := w.R.IntN(6)
		if w.R.IntN(6) == 0 {
			n = 60 + w.R.IntN(15)
		}
		f := lits(foreignN(w.R, n)...)
		if w.R.IntN(4) == 0 {
			f += " _\u200b__ "[:1] + "_ _ _"
		}
		s = strings.Replace(s, "___", f, 1)
		w.Inc("blanks filled", 1)
	}
	return s
}

func (x *oldWorld) text(w *W) string {
	var b strings.Builder
	for n := 1 + w.R.IntN(6); n > 0; n-- {
		var t string
		if len(x.txt) > 0 {
			t = pick(w.R, x.txt).Text
		}
		switch w.R.IntN(9) {
		case 0:
			b.WriteString(t)
		case 1:
			b.WriteString(oldFill(w, t))
		case 2: // damaged
			b.Write(mutateBytes(w.R, []byte(t), 1+w.R.IntN(8)))
		case 3: // a piece
			if len(t) > 2 {
				i := w.R.IntN(len(t) - 1)
				b.WriteString(t[i : i+1+w.R.IntN(len(t)-i-1)])
			}
		case 4: // words put in around blanks and elsewhere
			ws := strings.Fields(t)
			for i := range ws {
				if w.R.IntN(6) == 0 || ws[i] == "___" && w.R.IntN(2) == 0 {
					ws[i] = lits(foreignN(w.R, 1+w.R.IntN(4))...) + " " + ws[i]
				}
			}
			b.WriteString(lits(ws...))
		case 5:
			if len(x.urls) > 0 {
				b.WriteString(spellURL(w.R, pick(w.R, x.urls).URL))
			}
		case 6:
			if len(x.urls) > 0 {
				b.WriteString(badURL(w.R, pick(w.R, x.urls).URL))
			}
		case 7:
			b.WriteString(hostileText(w.R, 10))
		case 8: // pieces in another order
			ws := strings.Fields(t)
			for k := 0; k < 3 && len(ws) > 4; k++ {
				i := w.R.IntN(len(ws))
				ws = append(append([]string{}, ws[i:]...), ws[:i]...)
				b.WriteString(lits(ws[:1+w.R.IntN(len(ws))]...) + " ")
			}
		}
		b.WriteString(pick(w.R, []string{" ", "\n", "", " zqzq ", " http://x.org/y ", " ___ "}))
	}
	return b.String()
}

func init() {
	register(&Check{ID: "C29", Needs: []string{"old results judged", "old matches", "old URL matches", "verbatim copies", "adjacent copies", "mixed old lists", "verbatim URLs", "blanks filled", "concurrent old results", "letters that change length", "licenses in large Checkers", "copies in long texts", "old long words"}, Run: func(c *Ctx) {
		c.Rule("old.New on lists mixing text and URL entries in any order, Cover on verbatim copies (with known position), filled blanks, concatenations, damaged copies, reordered pieces, hostile bytes and URL soup, with all kinds of Options; every result is checked for order, bounds, disjointness, Percent range, the boolean, and names that belong to an entry of that kind. Verbatim copies and URLs must be reported under their own name, also by a Checker of 66000 licenses and in texts of thousands of copies, and with words of up to 1100 letters in place of which similar ones do not count. Non-trivial: text with a match")
		for _, shared := range []bool{false, true} {
			c.Each(fmt.Sprintf("old worlds %v", shared), c.N(4000, 200000), func(w *W) {
				x := oldMk(w, shared)
				for k := 0; k < 6; k++ {
					t := []byte(x.text(w))
					opts := oldOptions(w)
					orig := string(t)
					cov, ok := x.ck.Cover(t, opts)
					w.Note(len(cov.Match) > 0, orig)
					if string(t) != orig {
						w.Fail(Violation{Kind: "input changed", Message: "Cover changed its input", Text: clip(orig, 3000)})
						return
					}
					if !oldJudge(w, x.list, t, opts, cov, ok) {
						return
					}
					cov2, _ := old.New(x.list).Cover(t, opts)
					if fmt.Sprint(cov) != fmt.Sprint(cov2) {
						w.Fail(Violation{Kind: "result depends on history", Message: fmt.Sprintf("%+v, fresh checker %+v", cov, cov2), Text: clip(orig, 3000)})
						return
					}
				}
			})
		}
		// Verbatim copies at a known place.
		c.Each("verbatim copies", c.N(4000, 100000), func(w *W) {
			x := oldMk(w, false)
			if len(x.txt) == 0 {
				return
			}
			type exp struct {
				name   string
				lo, hi int
				url    bool
			}
			var want []exp
			var b strings.Builder
			if w.R.IntN(2) == 0 {
				b.WriteString(lits(foreignN(w.R, 1+w.R.IntN(30))...) + " ")
				if w.R.IntN(3) == 0 {
					b.WriteString(oddCase(w))
				}
			}
			adj := w.R.IntN(3) == 0
			total, covered := len(foreignLetters(b.String())), 0
			for n := 1 + w.R.IntN(5); n > 0; n-- {
				l := pick(w.R, x.list)
				if l.Text != "" && (l.URL == "" || w.R.IntN(2) == 0) {
					ws := strings.Fields(l.Text)
					if len(ws) < 10 {
						continue
					}
					t := strings.TrimSpace(l.Text)
					if w.R.IntN(2) == 0 {
						t = join(w.R, ws, []string{" ", "\n", "  \n * ", ", "})
					}
					if w.R.IntN(3) == 0 {
						t = strings.ToUpper(t)
					}
					last := ws[len(ws)-1]
					hi := strings.LastIndex(strings.ToLower(t), strings.Trim(last, ".,")) + len(strings.Trim(last, ".,"))
					want = append(want, exp{l.Name, b.Len(), b.Len() + hi, false})
					b.WriteString(t)
					total += len(ws)
					covered += len(ws)
					w.Inc("verbatim copies", 1)
				} else if l.URL != "" {
					sp := pick(w.R, []string{"http://", "https://"}) + l.URL
					want = append(want, exp{l.Name, b.Len(), b.Len() + len(sp), true})
					b.WriteString(sp)
					w.Inc("verbatim URLs", 1)
				}
				if adj && w.R.IntN(3) > 0 && b.Len() > 0 {
					b.WriteString("\n")
					w.Inc("adjacent copies", 1)
					continue
				}
				b.WriteString("\n" + lits(foreignN(w.R, 10+w.R.IntN(30))...) + "\n")
				if w.R.IntN(4) == 0 {
					b.WriteString(oddCase(w))
				}
			}
			if len(want) == 0 {
				return
			}
			t := strings.TrimRight(b.String(), "\n")
			cov, ok := x.ck.Cover([]byte(t), old.Options{})
			w.Note(true, t)
			if !oldJudge(w, x.list, []byte(t), old.Options{}, cov, ok) {
				return
			}
			bad := len(cov.Match) != len(want)
			for i := 0; !bad && i < len(want); i++ {
				m, e := cov.Match[i], want[i]
				lo := e.lo
				if m.Name != e.name || m.IsURL != e.url || m.Percent != 100 {
					bad = true
				}
				// A blank at the end has no letters, so the match may end before it.
				end := m.End
				if !e.url && end < e.hi && strings.Trim(t[end:e.hi], "_ *\n,.") == "" {
					end = e.hi
				}
				if end > e.hi && end == len(t) && strings.IndexFunc(t[e.hi:], unicode.IsLetter) < 0 {
					end = e.hi
				}
				if !e.url && (m.Start != lo || end != e.hi) && !(m.Start == 0 && i == 0 && strings.IndexFunc(t[:lo], unicode.IsLetter) < 0) {
					bad = true
				}
				if e.url && (m.Start < lo && i > 0 || m.Start > lo || m.End > e.hi && m.End < len(t) || m.End <= lo) {
					bad = true
				}
			}
			if bad {
				w.Fail(Violation{Kind: "verbatim copy not reported", Message: fmt.Sprintf("want %+v", want), Text: clip(t, 4000), TextB64: b64([]byte(t)), Got: fmt.Sprintf("%+v", cov), Want: fmt.Sprintf("%+v; licenses %+v", want, clip(fmt.Sprint(x.list), 3000))})
			}
		})
		// The whole text is one copy.
		c.Each("copy alone", c.N(3000, 60000), func(w *W) {
			x := oldMk(w, w.Case%2 == 0)
			for i, l := range x.txt {
				n := len(strings.Fields(l.Text))
				dup := false
				for j, o := range x.txt {
					dup = dup || i != j && strings.Join(foreignLetters(o.Text), " ") == strings.Join(foreignLetters(l.Text), " ")
				}
				if n < 2 || dup {
					continue
				}
				opts := old.Options{MinLength: min(n, 10)}
				cov, ok := x.ck.Cover([]byte(l.Text), opts)
				w.Note(true, l.Text)
				w.Inc("verbatim copies", 1)
				if !oldJudge(w, x.list, []byte(l.Text), opts, cov, ok) {
					return
				}
				if len(cov.Match) != 1 || cov.Match[0].Name != l.Name || cov.Match[0].Percent != 100 || cov.Percent != 100 || cov.Match[0].Start != 0 || cov.Match[0].End != len(l.Text) || cov.Match[0].IsURL {
					w.Fail(Violation{Kind: "verbatim copy not reported", Message: fmt.Sprintf("%q alone", l.Name), Text: l.Text, Got: fmt.Sprintf("%+v", cov), Want: fmt.Sprintf("licenses %+v", clip(fmt.Sprint(x.list), 3000))})
					return
				}
			}
		})
		scaleC29(c)
		// One Checker used by several goroutines gives the results it gives alone.
		c.Serial("shared checker", c.N(60, 1000), func(w *W) {
			x := oldMk(w, true)
			var ts [][]byte
			var want []string
			for i := 0; i < 16; i++ {
				t := []byte(x.text(w))
				cov, _ := old.New(x.list).Cover(t, old.Options{})
				ts, want = append(ts, t), append(want, fmt.Sprint(cov))
			}
			got := make([]string, len(ts))
			var fs []func()
			for i := range ts {
				fs = append(fs, func() { cov, _ := x.ck.Cover(ts[i], old.Options{}); got[i] = fmt.Sprint(cov) })
			}
			barrier(fs)
			w.Inc("concurrent old results", len(got))
			w.Note(true, fmt.Sprint("shared", w.Case))
			for i := range got {
				if got[i] != want[i] {
					w.Fail(Violation{Kind: "result depends on other calls", Message: got[i], Want: want[i], Text: clip(string(ts[i]), 3000)})
					return
				}
			}
		})
	}})
}

// foreignLetters splits into runs of letters and blanks, as the old package does.
func foreignLetters(s string) []string {
	s = strings.ReplaceAll(s, "___", " \u2163 ")
	return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return !unicode.IsLetter(r) && r != '\u2173' })
}

// oddCase is some text whose capital and small forms differ in length, or that
// is no text at all; no word of it is in a license.
func oddCase(w *W) string {
	var b strings.Builder
	for n := 1 + w.R.IntN(8); n > 0; n-- {
		b.WriteString(pick(w.R, []string{"300\u212a ", "\u0130\u0130zq ", "\u2126 ", "\u1e9e\u1e9e ", "\u023a\u023e ", "zq\u212b, ", "\u03f4\u1e9e ", "\xff\xfe ", "\xe2\x84 ", "&amp; &ldquo; ", "\u00c9\u00c8 ", "\U00010400 ", "\ufffd "}))
	}
	w.Inc("letters that change length", 1)
	return b.String()
}
