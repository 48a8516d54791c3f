package main

import (
	"fmt"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

// hostileProfile gives worlds whose patterns and texts use every feature of
// the word splitter, with markup, broken UTF-8 and byte-level damage.
func hostileProfile() Profile {
	p := defaultProfile()
	p.Voc = mixVoc(vocShort, vocLong, vocSpecial, vocUni)
	p.Seps = hostileSeps
	p.Bytes = 6
	p.PURL = 0.4
	p.Tree.PWild = 0.25
	p.Tree.Head = 1
	p.Tree.Tail = 0
	p.PatCase = true
	return p
}

func init() {
	register(&Check{ID: "C01", Needs: []string{"scans", "prefix cuts", "license sets", "license matches", "URL matches", "markup skipped", "huge bytes"}, Run: func(c *Ctx) {
		c.Rule("one evaluation is one Scan that has to return; the journal names the running case, the driver turns panics, aborts, memory exhaustion and lack of progress (CPU time) into violations. Non-trivial: a text that differs from all others and has at least one word or markup byte")
		b := builtin(c)
		if b == nil {
			return
		}
		scan := func(w *W, s *lc.Scanner, t []byte) lc.Coverage {
			w.Inc("scans", 1)
			if s == nil {
				return lc.Scan(t)
			}
			return s.Scan(t)
		}
		// Every prefix and suffix of hostile texts, alone and behind a license start.
		c.Each("prefixes", c.N(600, 20000), func(w *W) {
			t := hostileText(w.R, 1+w.R.IntN(12))
			if w.R.IntN(3) == 0 {
				t = pick(w.R, corpusStart()) + t
			}
			w.Sample("prefixes", t)
			for i := 0; i <= len(t); i++ {
				scan(w, b.S, []byte(t[:i]))
				scan(w, nil, []byte(t[i:]))
				w.Inc("prefix cuts", 2)
			}
			w.Note(true, t)
		})
		// All short strings over a tricky alphabet, bare and inside text.
		toks := []string{"<", ">", "/", "a", "&", "#", "x", ";", "{", "}", "]", "(", ")", "s", "c", "©", "\xff", "\u0301", " ", "\n", "http://", "1"}
		depth := c.N(3, 4)
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(toks)
		}
		c.Each("short strings", n/len(toks), func(w *W) {
			for j := 0; j < len(toks); j++ {
				k := w.Case*len(toks) + j
				t := ""
				for i := 0; i < depth; i++ {
					t += toks[k%len(toks)]
					k /= len(toks)
				}
				scan(w, b.S, []byte(t))
				scan(w, b.S, []byte("permission is hereby granted"+t))
				w.Note(true, t)
			}
		})
		// Every byte and every pair of bytes at the end of every kind of markup
		// cut off there, and within it.
		c.Each("cut off markup", 256, func(w *W) {
			for _, f := range markupForms {
				for j := -1; j < 256; j++ {
					t := f[0] + string([]byte{byte(w.Case)})
					if j >= 0 {
						if !c.Thorough() && (j+w.Case)%4 != 0 && (j >= 128 || w.Case >= 128) {
							continue
						}
						t += string([]byte{byte(j)})
					}
					scan(w, b.S, []byte(t))
					scan(w, b.S, []byte(t+f[1]))
					w.Inc("prefix cuts", 2)
				}
			}
			w.Note(true, fmt.Sprint(w.Case))
		})
		// Random bytes and runes.
		c.Each("random bytes", c.N(3000, 200000), func(w *W) {
			n := w.R.IntN(300)
			t := make([]byte, n)
			mode := w.R.IntN(4)
			for i := range t {
				switch mode {
				case 0:
					t[i] = byte(w.R.IntN(256))
				case 1:
					t[i] = byte(w.R.IntN(128))
				case 2:
					t[i] = "<>&#;{}]()/:@ \n\rasc©x1"[w.R.IntN(23)]
				case 3:
					t[i] = byte(0x80 + w.R.IntN(128))
				}
			}
			if w.R.IntN(3) == 0 {
				var rs []rune
				for i := 0; i < n; i++ {
					rs = append(rs, rune(w.R.IntN(0x20000)))
				}
				t = []byte(string(rs))
			}
			scan(w, b.S, t)
			w.Note(n > 0, string(t))
		})
		// Damaged and truncated real licenses.
		cp := corpus()
		c.Each("damaged licenses", c.N(800, 30000), func(w *W) {
			t := pick(w.R, cp)
			switch w.R.IntN(3) {
			case 0:
				t = t[:w.R.IntN(len(t)+1)]
			case 1:
				t = t[w.R.IntN(len(t)+1):]
			}
			t = mutateBytes(w.R, t, 1+w.R.IntN(30))
			cov := scan(w, b.S, t)
			w.Inc("license matches", len(cov.Match))
			w.Note(true, string(t))
		})
		// Custom license sets, hostile patterns and texts (also degenerate sets
		// that NewScanner may accept or reject).
		p := hostileProfile()
		fuzzModel(c, "hostile worlds", c.N(3000, 100000), p, 0, func(w *W, x *World, t []byte, _ lc.Coverage, _ *ref.Result) {
			w.Inc("scans", 1)
		})
		c.Each("any accepted set", c.N(4000, 100000), func(w *W) {
			cfg := p.Tree
			cfg.Word = p.Voc
			cfg.Head = w.R.IntN(2)
			cfg.Tail = w.R.IntN(2)
			var list []lc.License
			x := &World{Prof: &p}
			for i := w.R.IntN(4); i >= 0; i-- {
				l := lc.License{ID: "x", Type: lc.Type(w.R.IntN(100))}
				if w.R.IntN(3) == 0 {
					l.URL = genURL(w.R)
					x.URLs = append(x.URLs, l.URL)
				}
				switch w.R.IntN(5) {
				case 0:
				case 1:
					l.LRE = hostileText(w.R, 1+w.R.IntN(4))
				default:
					t := genTree(w.R, &cfg)
					x.Trees = append(x.Trees, t)
					l.LRE = printTree(w.R, t, &Layout{Seps: patSeps, Comm: true})
				}
				list = append(list, l)
			}
			s, err := lc.NewScanner(list)
			w.Inc("license sets", 1)
			if err != nil {
				w.Inc("license sets rejected", 1)
				return
			}
			x.S = s
			for i := 0; i < 4; i++ {
				t := x.text(w.R)
				scan(w, s, t)
				w.Note(true, list[0].LRE, string(t))
			}
			scan(w, s, nil)
			scan(w, s, []byte{})
		})
		// Large and pathological texts.
		type big struct {
			name string
			gen  func(n int) string
			n    int
		}
		mit := strings.Repeat("permission is hereby granted free of charge to any person obtaining a copy ", 1)
		M := 1 << 20
		bigs := []big{
			{"one-letter words", func(n int) string { return strings.Repeat("a ", n/2) }, c.N(4, 64) * M},
			{"one long word", func(n int) string { return strings.Repeat("a", n) }, c.N(4, 64) * M},
			{"one long accented word", func(n int) string { return strings.Repeat("e\u0301", n/3) }, c.N(2, 16) * M},
			{"copyright", func(n int) string { return strings.Repeat("copyright x ", n/12) }, c.N(2, 16) * M},
			{"copyright run", func(n int) string { return strings.Repeat("copyright ", n/10) }, c.N(2, 16) * M},
			{"license start", func(n int) string { return strings.Repeat(mit, n/len(mit)) }, c.N(2, 16) * M},
			{"same start", func(n int) string { return strings.Repeat("permission is ", n/14) }, c.N(2, 16) * M},
			{"the the", func(n int) string { return strings.Repeat("the ", n/4) }, c.N(2, 16) * M},
			{"newlines", func(n int) string { return strings.Repeat("\n", n) }, c.N(4, 64) * M},
			{"zero bytes", func(n int) string { return strings.Repeat("\x00", n) }, c.N(4, 64) * M},
			{"bad UTF-8", func(n int) string { return strings.Repeat("\xff", n) }, c.N(4, 64) * M},
			{"tags", func(n int) string { return strings.Repeat("<b>x</b>", n/8) }, c.N(2, 16) * M},
			{"open tags", func(n int) string { return strings.Repeat("<a ", n/3) }, c.N(2, 16) * M},
			{"one open tag", func(n int) string { return "<a " + strings.Repeat("x ", n/2) }, c.N(2, 16) * M},
			{"entities", func(n int) string { return strings.Repeat("&nbsp;", n/6) }, c.N(2, 16) * M},
			{"open entities", func(n int) string { return strings.Repeat("&a ", n/3) }, c.N(2, 16) * M},
			{"copy entities", func(n int) string { return strings.Repeat("&copy;", n/6) }, c.N(2, 16) * M},
			{"copyright signs", func(n int) string { return strings.Repeat("©", n/2) }, c.N(2, 16) * M},
			{"(c)", func(n int) string { return strings.Repeat("(c)", n/3) }, c.N(2, 16) * M},
			{"URLs", func(n int) string { return strings.Repeat("http://opensource.org/licenses/mit ", n/35) }, c.N(1, 8) * M},
			{"unknown URLs", func(n int) string { return strings.Repeat("http://a.org/b ", n/15) }, c.N(1, 8) * M},
			{"schemes", func(n int) string { return strings.Repeat("http://", n/7) }, c.N(1, 8) * M},
			{"one long URL", func(n int) string { return "http://a.org/" + strings.Repeat("b/", n/2) }, c.N(1, 8) * M},
			{"one long host", func(n int) string { return "http://" + strings.Repeat("b.org", n/5) }, 1 * M},
			{"URL then text", func(n int) string { return "http://opensource.org/licenses/mit " + strings.Repeat("x", n) }, 1 * M},
			{"open anchors", func(n int) string { return strings.Repeat("{#", n/2) }, c.N(16, 64) << 10},
			{"open links", func(n int) string { return strings.Repeat("](#", n/3) }, c.N(16, 64) << 10},
			{"anchors", func(n int) string { return strings.Repeat("{#a}", n/4) }, c.N(2, 16) * M},
			{"links", func(n int) string { return strings.Repeat("](#a)", n/5) }, c.N(2, 16) * M},
			{"plurals", func(n int) string { return strings.Repeat("a(s)", n/4) }, c.N(2, 16) * M},
			{"whole corpus", func(n int) string {
				var b strings.Builder
				for b.Len() < n {
					for _, t := range cp {
						b.Write(t)
						b.WriteString("\n")
					}
				}
				return b.String()
			}, c.N(6, 40) * M},
			{"license starts, then huge words", func(n int) string {
				var b strings.Builder
				for _, s := range append(corpusStart(), "a a a", "permission is permission is", "the the", "copyright x copyright x", "e e") {
					for _, h := range []string{"a", "e\u0301", "É", "Я", "A", "zq", "1", "ſ"} {
						for _, k := range []int{66_000, 33_000, 140_000} {
							if b.Len() < n {
								b.WriteString(s + " " + strings.Repeat(h, k/len(h)) + " " + h + "\n")
							}
						}
					}
				}
				return b.String()
			}, c.N(8, 9) * M},
			{"corpus without separators", func(n int) string {
				var b strings.Builder
				for _, t := range cp {
					b.Write(t)
				}
				return b.String()
			}, M},
		}
		c.Serial("large", len(bigs), func(w *W) {
			g := bigs[w.Case]
			t := g.gen(g.n)
			w.Sample("large", g.name)
			cov := scan(w, b.S, []byte(t))
			w.Inc("license matches", len(cov.Match))
			for i := 1; i < 4 && len(t) > i; i++ { // cut near the end
				scan(w, b.S, []byte(t[:min(len(t)-i, 200000)]))
			}
			w.Inc("huge bytes", len(t))
			w.Note(true, g.name)
		})
		// The same shapes on a custom set with wildcards and a one-letter word.
		c.Each("large custom", len(bigs), func(w *W) {
			x := w.mkSet([]lc.License{
				{ID: "A", LRE: "a a a __20__ a b"}, {ID: "B", LRE: "the the __100__ x"}, {ID: "C", LRE: "http a\n((b c))??\nd", URL: "a.org/b"},
				{ID: "D", LRE: "copyright x copyright x __5__ y"}, {ID: "E", LRE: "permission is permission is __5__ granted is"}, {ID: "F", LRE: "e e\n((e e e e))??\nf"},
			})
			if x == nil {
				return
			}
			g := bigs[w.Case]
			t := g.gen(min(g.n, 200000))
			if g.name == "license starts, then huge words" {
				t = g.gen(g.n)
			}
			scan(w, x.S, []byte(t))
			w.Inc("huge bytes", len(t))
			w.Note(true, g.name, "custom")
		})
	}})
}

// corpusStart returns beginnings of license texts after which damage matters.
func corpusStart() []string {
	return []string{"Permission is hereby granted, free of charge, to any person", "Redistribution and use in source and binary forms, with or", "Copyright (c) 2020 X\n\nPermission to use, copy, modify", "This work is licensed under the Creative Commons", "http://opensource.org/licenses/mit", "See https://creativecommons.org/licenses/by/3.0", "Licensed under the Apache License, Version 2.0 (the \"License\")"}
}
