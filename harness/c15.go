package main

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// newScannerSafe calls NewScanner and turns a panic into a violation.
func (w *W) newScannerSafe(list []lc.License) (s *lc.Scanner, err error, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			w.FailText("NewScanner panics", shortList(list), nil, "%v", e)
			ok = false
		}
	}()
	s, err = lc.NewScanner(list)
	return s, err, true
}

// judgePattern checks that NewScanner accepts or rejects the last pattern of
// list as the independent parser does, and that errors are proper.
func (w *W) judgePattern(list []lc.License, bad string) (*World, bool) {
	set, rerr := refSet(list)
	s, err, ok := w.newScannerSafe(list)
	if !ok {
		return nil, false
	}
	w.Note(true, list[len(list)-1].LRE)
	switch {
	case rerr != nil:
		if errors.Is(rerr, ref.ErrSyntax) {
			w.Inc("malformed patterns", 1)
		} else {
			w.Inc("unusable patterns", 1)
		}
		if err == nil {
			w.FailText("malformed pattern accepted", shortList(list), nil, "%q: expected an error: %v", clip(list[len(list)-1].LRE, 300), rerr)
			return nil, false
		}
	case err != nil:
		w.FailText("well-formed pattern rejected", shortList(list), nil, "%q: %v", clip(list[len(list)-1].LRE, 300), err)
		return nil, false
	}
	if err != nil {
		if s != nil {
			w.FailText("scanner together with an error", shortList(list), nil, "%v", err)
			return nil, false
		}
		if bad != "" && !strings.Contains(err.Error(), bad) {
			w.FailText("error does not name the license", shortList(list), nil, "license %q: %v", bad, err)
			return nil, false
		}
		return nil, true
	}
	if s == nil {
		w.FailText("neither scanner nor error", shortList(list), nil, "")
		return nil, false
	}
	w.Inc("well-formed patterns", 1)
	x := &World{List: list, Set: set, S: s}
	for k := 0; k < set.NumPatterns(); k++ {
		_, t := set.Tree(k)
		x.Trees = append(x.Trees, t)
	}
	return x, true
}

func init() {
	register(&Check{ID: "C15", Needs: []string{"well-formed patterns", "malformed patterns", "meanings probed", "instances scanned", "tokens enumerated", "operator surroundings", "damaged patterns", "license matches", "deeply nested groups", "long comments", "long patterns"}, Run: func(c *Ctx) {
		c.Rule("exhaustive token sequences and random token soup: NewScanner must accept exactly what an independent parser accepts, name the license in errors, return no scanner with an error and never panic; every accepted pattern is probed with instances and near-instances against the model; printed random trees must mean what the tree says; groups nested up to 300 (1100) deep, comments of up to 300000 bytes, patterns of thousands of alternatives, options, words. Non-trivial: each distinct pattern")
		probe := func(w *W, x *World, n int) {
			for i := 0; i < n; i++ {
				ws := derive(w.R, pick(w.R, x.Trees), fillForeign(w.R))
				if i%3 == 2 {
					ws = mutateWords(w.R, ws, func(r *rand.Rand) string { return pick(r, []string{"aaa", "bbb", "ccc", "xxx", "zzz"}) })
				}
				t := []byte("zqzq " + lits(ws...) + " zvvz")
				w.Inc("meanings probed", 1)
				w.checkText(x, t, aIDs|aCore)
			}
		}
		scaleC15(c, probe)
		toks := []string{"((", "))", "||", "??", " ", "\n", "ccc", "__2__", "//**", "**//", "__", "))??\n", "\n((", "ddd "}
		depth := c.N(4, 5)
		total := 1
		for i := 0; i < depth; i++ {
			total *= len(toks)
		}
		const chunk = 400
		c.Each("all token sequences", (total+chunk-1)/chunk, func(w *W) {
			for j := w.Case * chunk; j < total && j < (w.Case+1)*chunk; j++ {
				var b strings.Builder
				k := j
				for i := 0; i < depth; i++ {
					b.WriteString(toks[k%len(toks)])
					k /= len(toks)
				}
				w.Inc("tokens enumerated", 1)
				for _, p := range []string{"aaa bbb " + b.String() + " eee", "aaa bbb\n" + b.String() + "\neee", "\n((" + b.String() + "))\n", b.String(), "((aaa bbb" + b.String(), "((aaa bbb || " + b.String() + "eee", "aaa bbb eee " + b.String()} {
					if p == "" {
						continue
					}
					x, ok := w.judgePattern([]lc.License{{ID: "Pat-7", LRE: p}}, "Pat-7")
					if !ok {
						return
					}
					if x != nil && j%7 == 0 {
						probe(w, x, 2)
					}
				}
			}
		})
		// Everything that can stand before and after an operator, on its line and
		// on the lines around it.
		env := []string{" ", "\t", "\r", "\n", "x ", "??", "((", "))", "||", "//**c**//", "__1__", "?", "    ", "\v", "\u00a0", "."}
		shapes := [][2]string{
			{"aaa bbb\n((ccc ", "))"}, {"aaa bbb\n((ccc ", "))??"}, {"aaa bbb\n((ccc ", ")) ??"}, {"aaa bbb ", "(("},
			{"aaa bbb\n((ccc ", "||"}, {"aaa bbb ", "//**"}, {"aaa bbb //** c ", "**//"}, {"aaa bbb ", "__2__"},
			{"", "(("}, {"((aaa bbb ", "))"}, {"((aaa bbb || ccc ddd ", ""}, {"aaa bbb\n((ccc\n((ddd ", "))"},
			{"aaa bbb\n((ccc ", "))\n))"}, {"aaa bbb ", "??"}, {"aaa bbb ", "||"}, {"aaa bbb ", "))"},
		}
		ends := []string{"", "ddd eee", "\nddd eee", " ddd))\n", "\nddd\n))\n", "ddd\n))??\neee fff"}
		ne := len(env)*len(env) + len(env) + 1
		nth := func(i int) string { // the i-th string of up to two elements of env
			switch {
			case i == 0:
				return ""
			case i <= len(env):
				return env[i-1]
			}
			i -= len(env) + 1
			return env[i/len(env)] + env[i%len(env)]
		}
		c.Each("operator surroundings", len(shapes)*ne, func(w *W) {
			sh := shapes[w.Case/ne]
			pre := nth(w.Case % ne)
			for k := 0; k < ne+len(env); k++ {
				post := ""
				if k < ne {
					post = nth(k)
				} else {
					post = env[k-ne] + pick(w.R, env) + pick(w.R, env) + pick(w.R, env) + pick(w.R, env)
				}
				if w.R.IntN(c.N(6, 1)) > 0 && len(pre) > 1 && len(post) > 1 {
					continue
				}
				end := pick(w.R, ends)
				w.Inc("operator surroundings", 1)
				if _, ok := w.judgePattern([]lc.License{{ID: "Op-5", LRE: sh[0] + pre + sh[1] + post + end}}, "Op-5"); !ok {
					return
				}
			}
		})
		soup := append([]string{"aaa ", "bbb ", "ccc ", "xxx\n", "\r\n", "\t", "__0__", "__1__", "__9__", "__12345__", "__-1__", "__3", "3__", "__ 3 __", "__3a__", "___3__", "__3___", "__+3__", "__३__", "_3_", "(", ")", "|", "?", "*", "//", "/", "**", "//**x**//", "//****//", "//***//", "//**/", "\n((\n", "\n))\n", " || ", "))??\n", ")) ??\n", "))?? \n", "))\n??\n", "(( ", " ))", "\n))", "((((", "))))", "||||", "????", "\x00", "\xff", "©", "(c)", "(s)", "w(s)", "<b>", "&copy;", "&nbsp;", "{#x}", "](#x)", "http://a.org/b", "數", "é", "e\u0301", "\n\t (( ", ")) \t\n", "__4294967298__", "__99999999999999999999__"}, toks...)
		c.Each("token soup", c.N(20000, 600000), func(w *W) {
			var b strings.Builder
			if w.R.IntN(3) > 0 {
				b.WriteString("aaa bbb ")
			}
			for n := 1 + w.R.IntN(18); n > 0; n-- {
				b.WriteString(pick(w.R, soup))
			}
			p := b.String()
			if p == "" || strings.Contains(p, "__12345__") && strings.Count(p, "__") > 4 {
				return
			}
			if t, err := ref.Parse(p); err == nil && wildProduct(t) > 20000 {
				return // would take too long to compile
			}
			list := []lc.License{{ID: "Pat/8.x", LRE: p}}
			if w.R.IntN(4) == 0 {
				list = append([]lc.License{{ID: "fine", LRE: "mmm nnn ooo"}}, list...)
			}
			x, ok := w.judgePattern(list, "Pat/8.x")
			if ok && x != nil {
				probe(w, x, 3)
			}
		})
		// Groups in groups, with nothing in many of them.
		c.Each("nested groups", c.N(20000, 500000), func(w *W) {
			var seq func(d int) string
			seq = func(d int) string {
				s := ""
				for n := w.R.IntN(3); n >= 0; n-- {
					switch k := w.R.IntN(6); {
					case k < 2:
						s += pick(w.R, []string{"ccc ", "ddd ", "ccc ddd ", "eee "})
					case k == 2 || d == 0:
						s += pick(w.R, []string{"", " ", "//** ccc **//"})
					case k == 3:
						s += "\n((" + seq(d-1) + "))\n"
					case k == 4:
						s += "\n((" + seq(d-1) + "))??\n"
					case k == 5:
						s += "\n((" + seq(d-1) + " || " + seq(d-1) + "))\n"
					}
				}
				return s
			}
			p := pick(w.R, []string{"aaa bbb ", "aaa ", "", "aaa bbb"}) + seq(3) + pick(w.R, []string{" fff", "", " ddd"})
			if p == "" {
				return
			}
			w.Inc("nested groups", 1)
			x, ok := w.judgePattern([]lc.License{{ID: "Nest-1", LRE: p}}, "Nest-1")
			if ok && x != nil {
				probe(w, x, 6)
			}
		})
		// Well-formed patterns with one or two tokens added, removed or moved.
		c.Each("damaged patterns", c.N(8000, 200000), func(w *W) {
			cfg := &TreeCfg{Word: mixVoc(vocShort), Items: 4, Depth: 3, PGroup: 0.5, PWild: 0.15, WildMax: 6, Head: 2, Tail: 1}
			t := genTree(w.R, cfg)
			if wildProduct(t) > 3000 {
				return
			}
			p := printTree(w.R, t, &Layout{Seps: patSeps, Comm: true})
			for n := 1 + w.R.IntN(2); n > 0; n-- {
				i := w.R.IntN(len(p) + 1)
				tok := pick(w.R, []string{"((", "))", "||", "??", "__3__", "//**", "**//", "\n", " "})
				switch w.R.IntN(4) {
				case 0:
					p = p[:i] + tok + p[i:]
				case 1:
					if k := strings.Index(p[i:], tok); k >= 0 {
						p = p[:i+k] + p[i+k+len(tok):]
					}
				case 2:
					if i < len(p) {
						p = p[:i] + p[i+1:]
					}
				case 3:
					p = p[:i]
				}
			}
			if strings.TrimSpace(p) == "" {
				return
			}
			if t, err := ref.Parse(p); err == nil && wildProduct(t) > 20000 {
				return
			}
			w.Inc("damaged patterns", 1)
			x, ok := w.judgePattern([]lc.License{{ID: "Dmg", LRE: p}}, "Dmg")
			if ok && x != nil {
				probe(w, x, 3)
			}
		})
		// Any bytes at all.
		c.Each("random bytes", c.N(4000, 100000), func(w *W) {
			p := hostileText(w.R, 1+w.R.IntN(20))
			if w.R.IntN(2) == 0 {
				p = string(mutateBytes(w.R, []byte(p), 3))
			}
			if p == "" {
				return
			}
			if t, err := ref.Parse(p); err == nil && wildProduct(t) > 20000 {
				return
			}
			w.judgePattern([]lc.License{{ID: "Bytes", LRE: p}}, "Bytes")
		})
		// The meaning of printed trees: every instance of the tree (known from
		// the tree itself, not from parsing) is matched in full.
		c.Each("printed trees", c.N(3000, 80000), func(w *W) {
			u := newUnique(w.R)
			t := uniqueTree(w.R, u, 2+w.R.IntN(4), 1+w.R.IntN(5), 1+w.R.IntN(9))
			lre := printTree(w.R, t, &Layout{Seps: patSeps, Comm: true, Case: true})
			if _, err := refSet([]lc.License{{ID: "T", LRE: lre}}); err != nil && !errors.Is(err, ref.ErrSyntax) {
				return
			}
			x := w.mkSet([]lc.License{{ID: "T", LRE: lre}})
			if x == nil {
				return
			}
			w.Inc("well-formed patterns", 1)
			if w.Case < 2 {
				w.Sample("printed trees", lre)
			}
			for k := 0; k < 6; k++ {
				ws := derive(w.R, t, fillForeign(w.R))
				pre := w.R.IntN(2)
				txt := []byte(lits(append(append(foreignN(w.R, pre), ws...), foreignN(w.R, 12)...)...))
				if !w.expectWords("instance of the written pattern not matched", x, txt, []WM{{ID: "T", A: pre, B: pre + len(ws)}}) {
					return
				}
				// one word less or one foreign word more is no full instance,
				// unless the model says so
				txt = []byte("zqzq " + lits(mutateWords(w.R, ws, func(r *rand.Rand) string { return foreign(r) })...) + " zqzq")
				w.checkText(x, txt, aIDs|aCore)
			}
		})
		// Comments are white space: with and without comments, the same.
		c.Each("comments", c.N(800, 20000), func(w *W) {
			p := defaultProfile()
			p.Comments = false
			p.PURL, p.PURLOnly = 0, 0
			x := newWorld(w.R, &p)
			y := &World{Prof: x.Prof, Trees: x.Trees, Set: x.Set}
			for _, l := range x.List {
				var b strings.Builder
				for i := 0; i < len(l.LRE); i++ {
					b.WriteByte(l.LRE[i])
					if l.LRE[i] == ' ' && w.R.IntN(4) == 0 && !strings.HasSuffix(strings.TrimRight(l.LRE[:i+1], " \t"), "))") {
						rest := strings.TrimLeft(l.LRE[i:], " \t")
						if !strings.HasPrefix(rest, "((") {
							b.WriteString(pick(w.R, comments) + " ")
						}
					}
				}
				l.LRE = b.String()
				y.List = append(y.List, l)
			}
			if _, err := refSet(y.List); err != nil {
				return
			}
			if !x.scanner(w) || !y.scanner(w) {
				return
			}
			w.Inc("comments added", 1)
			for k := 0; k < 5; k++ {
				t := x.text(w.R)
				a, b := x.S.Scan(t), y.S.Scan(t)
				w.Note(true, y.List[0].LRE, string(t))
				if !sameCov(a, b) {
					w.FailText("comments change the meaning", y.List, t, "%s without comments, %s with", show(a.Match, a.Percent), show(b.Match, b.Percent))
				}
			}
		})
		p := defaultProfile()
		p.Tree.PGroup, p.Tree.Depth = 0.5, 4
		p.NLic = [2]int{1, 3}
		p.PURL, p.PURLOnly = 0, 0
		p.Weights = [nPieceKinds]int{8, 5, 2, 2, 0, 0, 0, 2}
		fuzzModel(c, "nested groups", c.N(2500, 80000), p, aIDs|aCore, nil)
		_ = fmt.Sprint
	}})
}
