package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

var (
	builtinOnce sync.Once
	builtinX    *World
)

// builtin returns the built-in license set as a World: real scanner, model and
// pattern trees.
func builtin(c *Ctx) *World {
	builtinOnce.Do(func() {
		list := lc.BuiltinLicenses()
		x := &World{List: list}
		set, err := refSet(list)
		if err != nil {
			c.Problem("built-in set: model: %v", err)
			return
		}
		x.Set = set
		s, err := lc.NewScanner(list)
		if err != nil || s == nil {
			w := &W{Ctx: c, Label: "built-in"}
			w.Fail(Violation{Kind: "built-in set rejected", Message: fmt.Sprint(err)})
			return
		}
		x.S = s
		for k := 0; k < set.NumPatterns(); k++ {
			_, t := set.Tree(k)
			x.Trees = append(x.Trees, t)
		}
		for _, l := range list {
			if l.URL != "" {
				x.URLs = append(x.URLs, l.URL)
			}
		}
		builtinX = x
	})
	return builtinX
}

// corpus returns the license texts in /repo/testdata (the part after the
// header of each golden file), used as seeds.
var corpusOnce sync.Once
var corpusTexts [][]byte

func corpus() [][]byte {
	corpusOnce.Do(func() {
		fs, _ := filepath.Glob("/repo/testdata/*.t[0-9]*")
		sort.Strings(fs)
		for _, f := range fs {
			data, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			if _, rest, ok := strings.Cut(string(data), "\n\n"); ok {
				corpusTexts = append(corpusTexts, []byte(rest))
			}
		}
	})
	return corpusTexts
}

const safeAlpha = "abcdefghiklmnopr"

// safeWord returns the i-th word of a vocabulary whose words differ from each
// other in two letters or more, have equal length, and share no near neighbour
// with foreign words: no spelling correction can confuse them.
func safeWord(i int) string {
	b := []byte("......")
	sum := 0
	for k := 0; k < 5; k++ {
		d := i % 16
		i /= 16
		b[k] = safeAlpha[d]
		sum += d
	}
	b[5] = safeAlpha[sum%16]
	return string(b)
}

// uniqueWords hands out safe words never handed out before.
type uniqueWords struct{ next, step int }

func newUnique(r *rand.Rand) *uniqueWords {
	return &uniqueWords{r.IntN(1 << 20), 1 + 2*r.IntN(1<<18)}
}

func (u *uniqueWords) word(*rand.Rand) string {
	w := safeWord(u.next & (1<<20 - 1))
	u.next += u.step
	return w
}

// mkSet builds scanner and model for a list that must be valid.
func (w *W) mkSet(list []lc.License) *World {
	set, err := refSet(list)
	if err != nil {
		w.Problem("harness made an invalid license set: %v", err)
		return nil
	}
	x := &World{List: list, Set: set}
	for k := 0; k < set.NumPatterns(); k++ {
		_, t := set.Tree(k)
		x.Trees = append(x.Trees, t)
	}
	for _, l := range list {
		if l.URL != "" {
			x.URLs = append(x.URLs, l.URL)
		}
	}
	if !x.scanner(w) {
		return nil
	}
	return x
}

// lits makes a plain pattern from words.
func lits(ws ...string) string { return strings.Join(ws, " ") }

// A WM is a match in terms of words.
type WM struct {
	ID     string
	URL    bool
	A, B   int // words covered
	Lo, Hi int
}

// inWords maps the matches of a coverage to word ranges.
func inWords(ws []ref.Word, m []lc.Match) []WM {
	var out []WM
	for _, x := range m {
		a, b := wordRange(ws, x.Start, x.End)
		out = append(out, WM{x.ID, x.IsURL, a, b, x.Start, x.End})
	}
	return out
}

func sameWM(a, b []WM) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || a[i].URL != b[i].URL || a[i].A != b[i].A || a[i].B != b[i].B {
			return false
		}
	}
	return true
}

func showWM(m []WM) string {
	var b strings.Builder
	for i, x := range m {
		if i == 12 {
			fmt.Fprintf(&b, "… (%d)", len(m))
			break
		}
		u := ""
		if x.URL {
			u = " URL"
		}
		fmt.Fprintf(&b, "%s%s words[%d:%d] ", x.ID, u, x.A, x.B)
	}
	return b.String()
}

func sameMatches(a, b []lc.Match) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameCov(a, b lc.Coverage) bool { return a.Percent == b.Percent && sameMatches(a.Match, b.Match) }

func cloneCov(c lc.Coverage) lc.Coverage {
	c.Match = append([]lc.Match(nil), c.Match...)
	return c
}

// structural checks that matches are in bounds, non-empty, ordered and disjoint.
func structural(m []lc.Match, n int) string {
	end := 0
	for i, x := range m {
		if x.Start < 0 || x.End > n || x.Start >= x.End {
			return fmt.Sprintf("match %d [%d:%d] of a text of %d bytes", i, x.Start, x.End, n)
		}
		if x.Start < end {
			return fmt.Sprintf("match %d [%d:%d] begins before the end %d of the match before it", i, x.Start, x.End, end)
		}
		end = x.End
	}
	return ""
}

// hostileFragments are put together to make texts that stress the word splitter.
var hostileFragments = []string{
	"<b>", "</b>", "<a href=\"http://x.org/y\">", "<me@x.org>", "<http://x.org/a>", "<x\n\n>", "<x\n\n\n>", "<x\r\n\r\n>", "<", "</", "<!-- x -->", "<?xml ?>", "<a", "<a b:/c>", "<a:/c>", "</1>", "<é>", "<<a>>",
	"&copy;", "&nbsp;", "&#169;", "&#xA9;", "&#x;", "&#;", "&;", "&", "&#", "&#x", "&a", "&#1", "&#xg;", "&COPY;", "&copy", "&\xff;",
	"{#top}", "{#}", "{#a b}", "{#a\n}", "{#", "{", "{#{#x}", "}",
	"](http://a.org/b)", "](https://a b)", "](mailto:x@y.z)", "](file:///x)", "](#a)", "](#)", "](", "](#", "](x)", "](http", "]", ")", "](ftp://x)",
	"(c)", "(C)", "©", "©1996", "(c", "c)", "(c)(c)", "copyright", "Copyright ©", "(©)", "(ç)", "(\u24d2)",
	"word(s)", "c(s)", "s(s)", "(s)", "w(s", "x(S)", "©(s)", "a(s)(s)", "the(s)", "i(s)", "it(s)",
	"http", "https", "http:", "http:/", "http://", "http://a", "http://a.org", "http://a.org/", "http://a.org/b", "https://creativecommons.org/licenses/by/3.0/us/", "HTTP://OPENSOURCE.ORG/LICENSES/MIT", "http://www.apache.org/licenses/LICENSE-2.0.", "http://a.com//x", "http://.org/", "http://org/x", "hTTpſ://a.org/b",
	"\xff", "\xc3", "\xe2\x80", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\x00", "\x80", "\ufffd", "\ufeff", "\u0301", "\u0300", "e\u0301", "é", "É", "\u200b", "\u00ad", "\u212a", "ſ", "ß", "İ", "ı", "ﬁ", "\U0001d400", "数", "क्षे", "\u0345",
	"the", "these", "is", "are", "it", "they", "copy", "copies", "this", "those", "them",
	"permission", "is hereby granted free of charge", "Redistribution and use in source and binary forms", "Licensed under the Apache License Version 2.0", "MIT License", "GNU General Public License",
	" ", "\n", "\r\n", "\t", "\n\n\n", ".", ",", "/", "//", "((", "))", "))??", "||", "__3__", "//**", "**//", "-", "_", "'", "\"", "\v", "\u2028", "1", "2.0", "v2", "a", "A",
}

func hostileText(r *rand.Rand, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(pick(r, hostileFragments))
		if r.IntN(3) == 0 {
			b.WriteString(pick(r, hostileSeps))
		}
	}
	return b.String()
}
