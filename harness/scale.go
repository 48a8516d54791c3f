package main

import (
	"fmt"
	"strings"
	"unicode"

	"vh/ref"

	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/old"
)

// Workloads in which one thing is much larger than usual: words, comments,
// nesting, numbers of alternatives, licenses, addresses, options.

// longLen is a length around a power of two or a round number, up to limit.
func longLen(r *randT, limit int) int {
	for {
		n := pick(r, []int{12, 16, 20, 24, 32, 40, 48, 50, 60, 64, 72, 80, 96, 100, 120, 128, 150, 200, 250, 255, 256, 300, 400, 500, 512, 600, 1000, 1024, 2000, 2048, 4000, 4096, 5000}) + r.IntN(5) - 2
		if n <= limit {
			return n
		}
	}
}

// scaleC13 makes slips in words of tens to thousands of letters.
func scaleC13(c *Ctx) {
	c.Each("long words", c.N(1500, 30000), func(w *W) {
		r := w.R
		limit := 300
		if w.Case%10 == 0 {
			limit = 5000
		}
		k := 5 + r.IntN(3)
		pos := 2 + r.IntN(k-3) // never the last
		sc := &slipCase{pos: pos, pre: r.IntN(3), post: r.IntN(3)}
		u := newUnique(r)
		for i := 0; i < k; i++ {
			switch {
			case i == pos, i == pos+1 && r.IntN(3) > 0, r.IntN(4) == 0:
				sc.ws = append(sc.ws, plainWord(r, longLen(r, limit), r.IntN(3) == 0))
			case i == pos+1 && r.IntN(2) == 0:
				sc.ws = append(sc.ws, plainWord(r, 5+r.IntN(6), true))
			default:
				sc.ws = append(sc.ws, u.word(nil))
			}
		}
		if sc.x = w.mkSet([]lc.License{{ID: "L", LRE: lits(sc.ws...)}}); sc.x == nil {
			return
		}
		word := sc.ws[pos]
		w.Inc("slips in long words", 1)
		at := func() int { // a place between two letters, often near an end
			rs := []int{}
			for i := range word {
				if i > 0 {
					rs = append(rs, i)
				}
			}
			switch r.IntN(4) {
			case 0:
				return rs[r.IntN(min(3, len(rs)))]
			case 1:
				return rs[len(rs)-1-r.IntN(min(3, len(rs)))]
			}
			return pick(r, rs)
		}
		ascii := func(i int) bool { return i < len(word) && word[i] < 0x80 }
		edit := func(s string, i int) string {
			switch {
			case r.IntN(3) == 0 || i >= len(s) || s[i] >= 0x80:
				return s[:i] + string("xzq"[r.IntN(3)]) + s[i:]
			case r.IntN(2) == 0:
				return s[:i] + string("xzq"[r.IntN(3)]) + s[i+1:]
			}
			return s[:i] + s[i+1:]
		}
		one := func(s string) bool {
			ws := ref.Split(s, nil)
			return len(ws) == 1 && ws[0].Raw == s
		}
		for n := 0; n < 6; n++ {
			i := at()
			if e := edit(word, i); one(e) && e != word {
				if !w.slip(sc, "one edit", []string{e}, true) {
					return
				}
				j := at()
				if e2 := edit(e, min(j, len(e))); one(e2) && !accepted(word, e2) && ascii(j) && ascii(i) {
					if !w.slip(sc, "two edits", []string{e2}, false) {
						return
					}
				}
			}
			i = at()
			a, b := word[:i], word[i:]
			if !one(a) || !one(b) || accepted(word, a) {
				continue
			}
			if !w.slip(sc, "word broken in two", []string{a, b}, true) {
				return
			}
			if e := edit(b, len(b)-1); one(e) && e != b && ascii(len(word)-1) {
				if !w.slip(sc, "broken and edited", []string{a, e}, false) {
					return
				}
			}
		}
		pre := foreignN(r, sc.pre)
		head := append(append([]string{}, pre...), sc.ws[:pos]...)
		rest := append([]string{}, sc.ws[pos+2:]...)
		next := sc.ws[pos+1]
		if !one(word + next) {
			return
		}
		if !w.slipText(sc, "words fused", append(head, word+next), rest, true) {
			return
		}
		if !w.slipText(sc, "fused and edited", append(head, "x"+word+next), rest, false) {
			return
		}
		if pos+2 < k && ref.Split(word+next+"x", nil)[0].Raw == word+next+"x" {
			w.slipText(sc, "fused and edited", append(head, word+next+"x"), rest, false)
		}
	})
}

// scaleC15 nests groups to great depth and writes long comments.
func scaleC15(c *Ctx, probe func(w *W, x *World, n int)) {
	c.Each("deep nesting", c.N(300, 4000), func(w *W) {
		r := w.R
		d := 1 + r.IntN(60)
		if w.Case%4 == 0 {
			d = longLen(r, c.N(300, 1100))
		}
		var b strings.Builder
		b.WriteString("aaa bbb ")
		var end []string
		sparse := r.IntN(2) == 0
		for i := 0; i < d; i++ {
			b.WriteString("\n((")
			if !sparse || r.IntN(8) == 0 {
				b.WriteString(pick(r, []string{" ccc", " ddd", "", " ccc ddd"}))
			}
			e := "))"
			switch {
			case r.IntN(6) == 0:
				e = " || " + pick(r, []string{"eee", "eee fff", "ggg", ""}) + e
			case r.IntN(8) == 0:
				b.WriteString(" " + pick(r, []string{"eee", "ggg"}) + " ||")
			}
			if r.IntN(12) == 0 {
				e += pick(r, []string{"??", " ??"})
			}
			if r.IntN(6) == 0 {
				e = pick(r, []string{" ggg", " hhh kkk"}) + e
			}
			end = append(end, e+"\n")
		}
		b.WriteString(" lll ")
		for i := len(end) - 1; i >= 0; i-- {
			b.WriteString(end[i])
		}
		p := b.String() + "fff"
		switch r.IntN(8) {
		case 0:
			p = strings.Replace(p, "))", "", 1)
		case 1:
			p = strings.Replace(p, "((", "", 1)
		case 2:
			p += "\n))\n"
		case 3:
			p = "((\n" + p
		}
		w.Inc("deeply nested groups", 1)
		x, ok := w.judgePattern([]lc.License{{ID: "Deep-2", LRE: p}}, "Deep-2")
		if ok && x != nil {
			probe(w, x, 4)
		}
	})
	c.Each("long comments", c.N(400, 6000), func(w *W) {
		r := w.R
		n := longLen(r, 5000)
		if w.Case%5 == 0 {
			n = pick(r, []int{8191, 8192, 10_000, 16_384, 20_000, 32_768, 65_535, 65_536, 70_000, 100_000, 140_000, 300_000}) + r.IntN(7) - 3
		}
		var b strings.Builder
		toks := []string{"((", "))", "||", "??", "\n((", "))\n", "__3__", "//**", "ccc ", "ddd", " ", "\n", "* *//", "**/ /", "é", "\x00", "© ", "http://a.org "}
		dull := r.IntN(2) == 0
		for b.Len() < n {
			if dull {
				b.WriteString("x ")
			} else {
				b.WriteString(pick(r, toks))
			}
		}
		body := b.String()
		if strings.Contains(body, "**//") || strings.HasSuffix(body, "*") {
			return
		}
		p := pick(r, []string{"aaa bbb ", "aaa bbb\n(( ccc ", "aaa bbb\n"}) + "//**" + body + pick(r, []string{"**//", " **//", "\n**//"}) + pick(r, []string{" ddd eee", "\nddd eee", " //** ccc **// ddd"})
		if strings.Contains(p, "(( ccc //") {
			p += pick(r, []string{"))\n", " || fff))\n", "\n))??\n", ""})
		}
		switch r.IntN(6) {
		case 0:
			p += " //** " + clip(body, 300)
		case 1:
			p += "\n))\n"
		case 2:
			p += " __4__ fff"
		}
		w.Inc("long comments", 1)
		x, ok := w.judgePattern([]lc.License{{ID: "Long-2", LRE: p}}, "Long-2")
		if ok && x != nil {
			probe(w, x, 4)
		}
	})
	// Many of one thing, one after another.
	c.Each("long patterns", c.N(400, 6000), func(w *W) {
		r := w.R
		n := longLen(r, 600)
		if w.Case%8 == 0 {
			n = longLen(r, c.N(2100, 5000))
		}
		var b strings.Builder
		b.WriteString("aaa bbb ")
		kind := r.IntN(6)
		switch kind {
		case 0: // alternatives
			b.WriteString("\n((")
			for i := 0; i < n; i++ {
				if i > 0 {
					b.WriteString(pick(r, []string{" || ", "\n||\n"}))
				}
				b.WriteString("ccc " + safeWord(i))
				if r.IntN(4) == 0 {
					b.WriteString(" ddd")
				}
			}
			b.WriteString("))\nddd")
		case 1: // options
			n = min(n, 500)
			for i := 0; i < n; i++ {
				b.WriteString("\n((" + safeWord(i) + "))??\n")
			}
			b.WriteString("fff")
		case 2: // words in one line
			for i := 0; i < n; i++ {
				b.WriteString(safeWord(r.IntN(3*n)) + " ")
			}
		case 3: // words between wildcards
			for i := 0; i < min(n, 13); i++ {
				b.WriteString(safeWord(i) + fmt.Sprintf(" __%d__ ", 1+r.IntN(2)))
			}
			b.WriteString("fff")
		case 4: // groups one after another
			for i := 0; i < n; i++ {
				b.WriteString("\n((" + safeWord(2*i) + " || " + safeWord(2*i+1) + "))\n")
			}
		case 5: // comments and white space
			for i := 0; i < n; i++ {
				b.WriteString(pick(r, []string{"//** x **//", "//** (( **//\n", " ", "\t\n", "\r\n"}))
			}
			b.WriteString(" fff ggg")
		}
		p := b.String()
		if r.IntN(6) == 0 {
			p += pick(r, []string{"\n((", "\n))", " || x", " ??", " __9999999999999__"})
		}
		w.Inc("long patterns", 1)
		x, ok := w.judgePattern([]lc.License{{ID: "Many-2", LRE: p}}, "Many-2")
		if ok && x != nil {
			if kind == 1 && n > 300 {
				return
			}
			probe(w, x, 2)
		}
	})
}

// scaleC29 uses Checkers of very many licenses.
func scaleC29(c *Ctx) {
	c.Serial("many licenses", c.N(3, 12), func(w *W) {
		n := []int{1100, 33_000, 66_500}[w.Case%3]
		words := 10 + w.R.IntN(3)
		var list []old.License
		base := w.R.IntN(1000)
		for i := 0; i < n; i++ {
			var ws []string
			for k := 0; k < words; k++ {
				// The first words are common to many licenses.
				if k < 5 {
					ws = append(ws, safeWord(base+i%(k+7)))
				} else {
					ws = append(ws, safeWord(base+1000+i*words+k))
				}
			}
			l := old.License{Name: fmt.Sprintf("N%d", i), Text: lits(ws...)}
			if i%3 == 1 {
				l = old.License{Name: fmt.Sprintf("N%d", i), URL: "h" + safeWord(base+i) + ".org/x"}
			}
			list = append(list, l)
		}
		ck := old.New(list)
		w.Inc("licenses in large Checkers", n)
		for k := 0; k < 60; k++ {
			i := w.R.IntN(n)
			if k < 6 {
				i = []int{0, 1, n - 1, n - 2, n / 2, n - 3}[k]
			}
			l := list[i]
			body := l.Text
			if body == "" {
				body = "http://" + l.URL
			}
			text := "zqzq " + body + " zvvz"
			cov, ok := ck.Cover([]byte(text), old.Options{})
			w.Note(true, text)
			if !ok || len(cov.Match) != 1 || cov.Match[0].Name != l.Name || cov.Match[0].Percent != 100 || cov.Match[0].IsURL != (l.Text == "") || cov.Match[0].Start > 5 || cov.Match[0].End < 5+len(body) {
				w.Fail(Violation{Kind: "verbatim copy not reported", Message: fmt.Sprintf("license %d of %d: got %+v", i, n, cov), Text: text})
				return
			}
			w.Inc("verbatim copies", 1)
		}
	})
	// Texts of very many copies.
	c.Serial("many copies", c.N(4, 12), func(w *W) {
		n := []int{99, 1250, 2600, 12}[w.Case%4]
		u := newUnique(w.R)
		var list []old.License
		for i, k := 0, 3+w.R.IntN(4); i < k; i++ {
			var ws []string
			for j := 10 + w.R.IntN(30); j > 0; j-- {
				ws = append(ws, u.word(nil))
			}
			list = append(list, old.License{Name: fmt.Sprintf("N%d", i), Text: lits(ws...)}, old.License{Name: fmt.Sprintf("U%d", i), URL: genURL(w.R) + "/" + u.word(nil)})
		}
		type exp struct {
			name   string
			lo, hi int
		}
		var want []exp
		var b strings.Builder
		for len(want) < n {
			l := pick(w.R, list)
			body := l.Text
			if body == "" {
				body = "http://" + l.URL
			} else if ws := strings.Fields(body); len(ws) >= 20 && w.R.IntN(2) == 0 {
				// A few words in between: still one match, of all words.
				j := 10 + w.R.IntN(len(ws)-19)
				body = lits(ws[:j]...) + " " + lits(foreignN(w.R, 1+w.R.IntN(5))...) + "\n" + lits(ws[j:]...)
			}
			want = append(want, exp{l.Name, b.Len(), b.Len() + len(body)})
			b.WriteString(body + "\n" + lits(foreignN(w.R, 6+w.R.IntN(6))...) + "\n")
		}
		t := b.String()
		cov, _ := old.New(list).Cover([]byte(t), old.Options{})
		w.Note(true, clip(t, 200))
		w.Inc("copies in long texts", n)
		if len(cov.Match) != len(want) {
			w.Fail(Violation{Kind: "verbatim copy not reported", Message: fmt.Sprintf("%d matches, want %d", len(cov.Match), len(want)), Text: clip(t, 3000)})
			return
		}
		for i, m := range cov.Match {
			e := want[i]
			isURL := e.name[0] == 'U'
			if m.Name != e.name || m.Percent != 100 || m.IsURL != isURL || m.Start > e.lo || m.End < e.hi-1 || !isURL && (m.Start != e.lo || m.End != e.hi) {
				w.Fail(Violation{Kind: "verbatim copy not reported", Message: fmt.Sprintf("match %d of %d: got %+v, want %+v", i, len(want), m, e), Text: clip(t, 3000)})
				return
			}
		}
	})
	// One word of a copy is another one that is much like it: no 100 percent.
	c.Each("long words", c.N(1500, 30000), func(w *W) {
		r := w.R
		u := newUnique(r)
		var ws []string
		for k := 10 + r.IntN(20); k > 0; k-- {
			s := u.word(nil)
			if r.IntN(3) == 0 {
				f := plainWord(r, longLen(r, 1100), r.IntN(3) == 0)
				s = pick(r, []string{s + f, f + s, f})
			}
			ws = append(ws, s)
		}
		i := r.IntN(len(ws))
		s := plainWord(r, longLen(r, 1100), r.IntN(3) == 0)
		ws[i] = s
		list := []old.License{{Name: "MIT", Text: lits(ws...)}, {Name: "other", Text: lits(foreignN(r, 12)...)}}
		ck := old.New(list)
		judge := func(ws []string, want float64) bool {
			t := lits(ws...)
			cov, ok := ck.Cover([]byte(t), old.Options{MinLength: 2, Threshold: 1, Slop: 20})
			w.Note(true, t)
			w.Inc("old long words", 1)
			if !oldJudge(w, list, []byte(t), old.Options{}, cov, ok) {
				return false
			}
			if len(cov.Match) != 1 || cov.Match[0].Name != "MIT" || cov.Match[0].Percent < want-1e-9 || cov.Match[0].Percent > want+1e-9 {
				w.Fail(Violation{Kind: "wrong share", Message: fmt.Sprintf("%d words, word %d of %d bytes: want %v percent, got %+v", len(ws), i, len(s), want, cov), Text: t})
				return false
			}
			return true
		}
		if !judge(ws, 100) {
			return
		}
		cp := append([]string(nil), ws...)
		rs := []rune(s)
		switch j := r.IntN(len(rs)); r.IntN(5) {
		case 0:
			cp[i] = s + "x"
		case 1:
			cp[i] = "x" + s
		case 2:
			cp[i] = string(rs[:len(rs)-1])
		case 3:
			cp[i] = string(rs[:j]) + "ř" + string(rs[j+1:])
		case 4:
			cp[i] = string(rs[:j]) + "ø" + string(rs[j:])
		}
		// Runs of a single word do not count.
		n := 0
		if i >= 2 {
			n += i
		}
		if len(ws)-i-1 >= 2 {
			n += len(ws) - i - 1
		}
		judge(cp, 100*float64(n)/float64(len(ws)))
	})
}

// scaleC34 puts slips behind beginnings that extra licenses have in common with
// the one of the text.
func scaleC34(c *Ctx, compare func(w *W, small, big *lc.Scanner, list, bigList []lc.License, t []byte) bool) {
	c.Each("slips where licenses part", c.N(1500, 30000), func(w *W) {
		r := w.R
		n := 4 + r.IntN(5)
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, plainWord(r, 6+r.IntN(6), r.IntN(5) == 0))
		}
		list := []lc.License{{ID: "L", LRE: lits(ws...)}}
		small := w.mkSet(list)
		if small == nil {
			return
		}
		m := 1 + r.IntN(12)
		if w.Case%6 == 0 {
			m = longLen(r, 600)
		}
		k := 2 + r.IntN(n-2)
		var big []lc.License
		for i := 0; i < m; i++ {
			h := k
			if r.IntN(5) == 0 {
				h = 2 + r.IntN(n-2)
			}
			l := append(append([]string(nil), ws[:h]...), "kwk"+safeWord(i)+"wk", "kwk"+safeWord(r.IntN(1<<18))+"wk")
			big = append(big, lc.License{ID: fmt.Sprint("alike", i), LRE: lits(l...)})
		}
		i := pick(r, []int{0, m, r.IntN(m + 1)})
		big = append(big[:i], append(append([]lc.License(nil), list...), big[i:]...)...)
		if _, err := refSet(big); err != nil {
			return
		}
		bs, err := lc.NewScanner(big)
		if err != nil {
			w.FailText("valid license set rejected", big, nil, "%v", err)
			return
		}
		w.Inc("slips where licenses part", 1)
		for t := 0; t < 10; t++ {
			cp := append([]string(nil), ws...)
			s := cp[k]
			j := 1 + r.IntN(len(s)-2)
			for j < len(s) && s[j]&0xC0 == 0x80 {
				j++
			}
			switch r.IntN(6) {
			case 0:
			case 1:
				s = s[:j] + "q" + s[j:]
			case 2:
				if j < len(s) && s[j] < 0x80 {
					s = s[:j] + "q" + s[j+1:]
				}
			case 3:
				if j < len(s) && s[j] < 0x80 {
					s = s[:j] + s[j+1:]
				}
			case 4:
				s = s[:j] + " " + s[j:]
			case 5:
				if k+1 < n {
					s += cp[k+1]
					cp = append(cp[:k+1], cp[k+2:]...)
				}
			}
			cp[k] = s
			if r.IntN(3) == 0 {
				x := 2 + r.IntN(len(cp)-2)
				cp[x] = cp[x][:len(cp[x])/2] + "x" + cp[x][len(cp[x])/2:]
			}
			txt := []byte(lits(append(append(foreignN(r, r.IntN(3)), cp...), foreignN(r, r.IntN(3))...)...))
			if small.Set.Scan(txt).Trace.Ambiguous > 0 {
				continue
			}
			if !compare(w, small.S, bs, list, big, txt) {
				return
			}
		}
	})
}

// manyC34 enlarges sets by thousands of licenses, each with a beginning of its
// own.
func manyC34(c *Ctx, compare func(w *W, small, big *lc.Scanner, list, bigList []lc.License, t []byte) bool) {
	c.Each("thousands of licenses", c.N(8, 60), func(w *W) {
		r := w.R
		p := modelProfiles()[pick(r, profileOrder)]
		x := newWorld(r, &p)
		if !x.scanner(w) {
			return
		}
		n := []int{4_500, 9_000, 17_000, 34_000}[w.Case%4]
		at := r.IntN(1 << 19)
		var extra []lc.License
		for i := 0; i < n; i++ {
			var ws []string
			for k := 2 + r.IntN(3); k > 0; k-- {
				ws = append(ws, "kwk"+safeWord(at)+"wk")
				at++
			}
			l := lc.License{ID: fmt.Sprint("extra", i), LRE: lits(ws...)}
			if w.Case%2 == 1 && i%3 == 0 {
				l.URL = ws[0] + ".org/" + ws[1]
				if i%2 == 0 {
					l.LRE = ""
				}
			}
			extra = append(extra, l)
		}
		i := pick(r, []int{0, n, r.IntN(n + 1)})
		big := append(append(append([]lc.License(nil), extra[:i]...), x.List...), extra[i:]...)
		bs, err := lc.NewScanner(big)
		if err != nil || bs == nil {
			w.FailText("valid license set rejected", x.List, nil, "with %d licenses of a few new words: NewScanner: %v", n, err)
			return
		}
		w.Inc("extra licenses", n)
		w.Inc("licenses in sets of thousands", n)
		for k := 0; k < c.N(300, 1500); k++ {
			if !compare(w, x.S, bs, x.List, x.List, x.text(r)) {
				return
			}
		}
		for k := 0; k < 200; k++ { // the licenses themselves
			l := pick(r, extra)
			t := l.LRE
			if t == "" {
				t = "http://" + l.URL
			}
			got := bs.Scan([]byte("zqzqzvvz " + t + " zqzq"))
			if len(got.Match) != 1 || got.Match[0].ID != l.ID || got.Match[0].Start != 9 || got.Match[0].End != 9+len(t) {
				w.FailText("unrelated licenses change the result", []lc.License{l}, []byte(t), "one of %d licenses: %s", n, show(got.Match, got.Percent))
				return
			}
		}
	})
}

// oddIDs are names of licenses that a careless program might take for
// something else.
var oddIDs = []string{"%d", "100%", "%s%s%n", "%!v(MISSING)", "a b c", "ümläut-1", "許可", "x:y: z", "`q`", "\"q\"", "'", "a/b\\c", "tab\there", "two\nlines", "((", "))??", "__3__", "\x00", "\xff", "<nil>", "#17", "offset 3", "-", ".", strings.Repeat("long", 300), "a\u0301", "\u202e", "{{.}}", "$1", "%[2]d", "https://a.org/b"}

var nonLetters = func() []rune {
	var out []rune
	for r := rune(1); r < 0x30000; r++ {
		if r >= 0xD800 && r < 0xE000 || r == '_' || r == '&' || r == ';' || unicode.IsLetter(r) || !unicode.IsPrint(r) && !unicode.Is(unicode.C, r) && !unicode.IsSpace(r) {
			continue
		}
		if unicode.IsLetter(unicode.ToLower(r)) || unicode.IsLetter(unicode.ToUpper(r)) {
			continue
		}
		out = append(out, r)
	}
	return out
}()
