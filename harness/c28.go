package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	lc "github.com/google/licensecheck"
)

// A piece of an SPDX license template.
type spdxNode struct {
	lit    string // literal text
	v      bool   // variable
	name   string
	orig   string
	opt    []*spdxNode // optional part
	num    int         // number of the optional part
	bullet bool        // variable that may be left out
	req    bool        // literal of ordinary words outside every optional part
}

func spdxTemplate(b *strings.Builder, ns []*spdxNode) {
	for _, n := range ns {
		switch {
		case n.v:
			fmt.Fprintf(b, `<<var;name="%s";original="%s";match=".{0,%d}">>`, n.name, n.orig, 20*len(n.orig))
		case n.opt != nil:
			b.WriteString("<<beginOptional>>")
			spdxTemplate(b, n.opt)
			b.WriteString("<<endOptional>>")
		default:
			b.WriteString(n.lit)
		}
	}
}

// spdxText writes the license text with some optional parts left out; repl
// replaces the literal of one node.
func spdxText(b *strings.Builder, ns []*spdxNode, out func(int) bool, repl *spdxNode, with string) {
	for _, n := range ns {
		switch {
		case n == repl:
			b.WriteString(with)
		case n.bullet && out(n.num):
			b.WriteString(" ")
		case n.v:
			b.WriteString(n.orig)
		case n.opt != nil:
			if out(n.num) {
				if l := n.opt[0].lit; l != "s" && l != "(s)" {
					b.WriteString(" ") // the words on both sides stay apart
				}
			} else {
				spdxText(b, n.opt, out, repl, with)
			}
		default:
			b.WriteString(n.lit)
		}
	}
}

type spdxGen struct {
	w    *W
	u    *uniqueWords
	opts int
	hard bool // hostile punctuation, odd layouts
	uni  bool // words outside ASCII
}

func (g *spdxGen) word() string {
	r := g.w.R
	s := g.u.word(nil)
	switch r.IntN(12) {
	case 0:
		s = strings.ToUpper(s[:1]) + s[1:]
	case 1:
		s = pick(r, []string{"software", "license", "Work", "grant"}) // no variable has a word starting with one
	case 2:
		if g.uni {
			s = pick(r, []string{"Лицензия", "Énergie", "条件", "öffentlich", "право", "données", "naïve"}) + " " + s
		}
	}
	if r.IntN(30) == 0 { // a line, or several, with hardly anything on it
		for n := 1 + r.IntN(4); n > 0; n-- {
			s += pick(r, []string{"\n", "\n", " \n", "\n\n", ".\n"}) + pick(r, []string{"b", "k", "e.", "7", "\"g\"", "vv", "a,", "Ω"})
		}
		s += "\n"
		g.w.Inc("short lines", 1)
	} else if r.IntN(6) == 0 {
		s = fmt.Sprintf(pick(r, []string{"(%s)", "%s,", "\"%s\"", "%s.", "‘%s’", "%s;", "%s:", "'%s'", "- %s", "%s -", "[%s]", "* %s", "/ %s"}), s)
	}
	if g.hard && r.IntN(8) == 0 {
		s = fmt.Sprintf(pick(r, []string{"((%s))", "|| %s", "%s //", "// %s", "____ %s", "%s ______", "%s ??", "?? %s", "%s??", "(((%s)", "(%s))", "|%s||", "** %s **", "//** %s", "%s **//", "%s )) ??", "%s))??", "%s>", "_%s_", "%s ||| |", "%s\n.\n.\n\n", "%s =======", "((( %s", "#%s", "__5__ %s", "%s __5__", "%s\n\n\n\n", "%s \n \t\n"}), s)
		g.w.Inc("operators in literal text", 1)
	}
	return s
}

func (g *spdxGen) sep() string {
	r := g.w.R
	switch r.IntN(10) {
	case 0:
		return "\n"
	case 1:
		return "\n\n"
	case 2:
		return "\n" + strings.Repeat(" ", r.IntN(12))
	case 3:
		return "  "
	case 4:
		return "\n\t"
	case 5:
		if g.hard && r.IntN(6) == 0 {
			g.w.Inc("deep indentation", 1)
			return "\n" + strings.Repeat(" ", 60+r.IntN(60))
		}
	}
	return " "
}

func (g *spdxGen) literal(n int) *spdxNode {
	var b strings.Builder
	b.WriteString(g.sep())
	for i := 0; i < n; i++ {
		b.WriteString(g.word() + g.sep())
	}
	return &spdxNode{lit: b.String()}
}

func (g *spdxGen) variable() []*spdxNode {
	r := g.w.R
	n := 1 + r.IntN(4)
	if r.IntN(3) == 0 {
		n = 5 + r.IntN(20)
		if r.IntN(5) == 0 {
			n += r.IntN(150)
			g.w.Inc("long variables", 1)
		}
	}
	var ws []string
	for i := 0; i < n; i++ {
		switch r.IntN(8) {
		case 0:
			ws = append(ws, fmt.Sprintf("%s,", foreign(r)))
		case 1:
			ws = append(ws, fmt.Sprintf("<%s>", foreign(r)))
		case 2:
			ws = append(ws, fmt.Sprintf("%d", r.IntN(3000)))
		case 3:
			if g.uni {
				ws = append(ws, pick(r, []string{"Компания", "©", "été", "東京", "Ω", "Müller", "ñ"}))
				g.w.Inc("variable words outside ASCII", 1)
				continue
			}
			fallthrough
		default:
			ws = append(ws, foreign(r))
		}
	}
	orig := strings.Join(ws, pick(r, []string{" ", " ", "  ", "\n"}))
	switch r.IntN(5) {
	case 0:
		orig = pick(r, []string{"the author", "Copyright Holder", "THE COPYRIGHT HOLDERS AND CONTRIBUTORS", "name", "ORGANIZATION", "State of X, USA"})
	case 1:
		orig = pick(r, []string{" ", "", "_____", "--", "[]"})
		g.w.Inc("variables without words", 1)
	}
	out := []*spdxNode{g.literal(3 + r.IntN(3)), {v: true, name: pick(r, []string{"holder", "organizationClause3", "copyrightHolderAsIs", "incComments", "title", "a.b", "owner0"}), orig: orig}, g.literal(3 + r.IntN(3))}
	g.w.Inc("variables", 1)
	return out
}

func (g *spdxGen) seq(depth, n int) []*spdxNode {
	r := g.w.R
	var out []*spdxNode
	for i := 0; i < n; i++ {
		switch k := r.IntN(8); {
		case k < 3 || k == 3 && depth == 0:
			x := g.literal(2 + r.IntN(30))
			out = append(out, x)
		case k == 3 || k == 4 && depth > 0:
			o := &spdxNode{num: g.opts}
			g.opts++
			if r.IntN(6) == 0 {
				o.opt = append(o.opt, &spdxNode{lit: pick(r, []string{"b", "(e)", " k ", "7", "\"g\"", "a", "A.", "vv", "is", "ss", "s s"})})
				g.w.Inc("short optional parts", 1)
			} else if g.uni && r.IntN(3) == 0 {
				o.opt = append(o.opt, &spdxNode{lit: pick(r, []string{"Лицензия", "条件", "«Ö»", "право использования"})})
			} else if r.IntN(4) > 0 {
				o.opt = append(o.opt, g.literal(1+r.IntN(4)))
			}
			if r.IntN(2) == 0 {
				o.opt = append(o.opt, g.seq(depth-1, 1+r.IntN(2))...)
			}
			if r.IntN(5) == 0 { // punctuation that may be missing, in front of everything
				o.opt = append([]*spdxNode{{num: g.opts, opt: []*spdxNode{{lit: pick(r, []string{".", "\"", "-", "(", "* *"})}}}, {lit: " "}}, o.opt...)
				g.opts++
				o.opt = append(o.opt, g.literal(1+r.IntN(3)))
				g.w.Inc("optional punctuation in optional parts", 1)
			}
			if o.opt == nil || r.IntN(4) == 0 {
				o.opt = append(o.opt, g.literal(1+r.IntN(12)))
			}
			out = append(out, &spdxNode{lit: " "}, o, &spdxNode{lit: g.sep()})
			g.w.Inc("optional parts", 1)
		case k == 4 || k == 5:
			out = append(out, g.variable()...)
		case k == 6:
			b := pick(r, []string{"1.", "a)", "(a)", "*", "-", "•", "iv.", "2.1", "(1)", "A.", "–", "A) (1)"})
			if r.IntN(3) == 0 {
				b = strings.Join(foreignN(r, 1+r.IntN(8)), pick(r, []string{" ", ". ", "\n"})) + pick(r, []string{"", ".", ":", " -"})
				g.w.Inc("bullets of words", 1)
			}
			num := g.opts
			g.opts++
			if len(foreignLetters(b)) >= 5 { // becomes a wildcard
				out = append(out, g.literal(3+r.IntN(4)))
				g.w.Inc("bullets of many words", 1)
			}
			out = append(out, &spdxNode{lit: g.sep()}, &spdxNode{v: true, name: "bullet", orig: b, num: num, bullet: true}, &spdxNode{lit: pick(r, []string{" ", "", "  "})}, g.literal(3+r.IntN(4)))
			g.w.Inc("bullets", 1)
		case k == 7 && depth > 0: // punctuation that may be missing
			o := &spdxNode{num: g.opts, opt: []*spdxNode{{lit: pick(r, []string{".", "\"", ",", " ", "\n-----\n", "****", "(", "''", " - ", "____", "_", "||", "((", "//", "__ __"})}}}
			g.opts++
			before := g.literal(3)
			if r.IntN(2) == 0 { // right after a word
				before.lit = strings.TrimRight(before.lit, " \t\n")
			}
			after := g.literal(3)
			switch {
			case g.hard && r.IntN(2) == 0: // plural of the word before
				before.lit += " " + g.u.word(nil)
				o.opt[0].lit = pick(r, []string{"s", "(s)"})
				after.lit = pick(r, []string{" ", "  ", "\n", ", "}) + after.lit
				if r.IntN(2) == 0 {
					after.lit = " " + g.u.word(nil) + " " + after.lit
				}
				g.w.Inc("optional plurals", 1)
			case r.IntN(2) == 0 && o.opt[0].lit != "_":
				after.lit = strings.TrimLeft(after.lit, " \t\n")
			default:
				after.lit = " " + strings.TrimLeft(after.lit, " \t\n")
			}
			out = append(out, before, o, after)
			g.w.Inc("optional punctuation", 1)
		default:
			out = append(out, g.literal(1+r.IntN(5)))
		}
	}
	return out
}

// license makes a whole license: optional title, optional copyright notice,
// literal start, body, literal end.
func (g *spdxGen) license() (front, body []*spdxNode) {
	r := g.w.R
	if r.IntN(2) == 0 {
		front = append(front, &spdxNode{num: g.opts, opt: []*spdxNode{g.literal(2 + r.IntN(6))}}, &spdxNode{lit: "\n\n"})
		g.opts++
	}
	if r.IntN(2) == 0 {
		cr := &spdxNode{v: true, name: "copyright", orig: pick(r, []string{"Copyright (c) <year> <owner>. All rights reserved.", "Copyright 2020 Zvzvxq Qxqx", "<year> <copyright holders>", "Copyright © 1999, Vzvzqj."})}
		if r.IntN(3) == 0 {
			cr = &spdxNode{num: g.opts, opt: []*spdxNode{cr}}
			g.opts++
			if r.IntN(2) == 0 {
				cr.opt = append(cr.opt, &spdxNode{lit: " All rights reserved. "})
			}
			g.w.Inc("optional copyright variables", 1)
		}
		front = append(front, cr, &spdxNode{lit: pick(r, []string{"\n\n", " ", "\n  "})})
		g.w.Inc("copyright variables", 1)
		body = append(body, g.literal(3+r.IntN(4)))
	} else {
		front = append(front, g.literal(3+r.IntN(4)))
		front, body = nil, front
	}
	body = append(body, g.seq(2, 1+r.IntN(7))...)
	end := g.literal(3 + r.IntN(4))
	end.req = true
	body = append(body, end)
	return front, body
}

// damageWord picks a literal outside all optional parts and replaces one of its
// words by a foreign one: the literal and its new text.
func damageWord(r *rand.Rand, ns []*spdxNode) (*spdxNode, string) {
	for try := 0; try < 8; try++ {
		n := pick(r, ns)
		if n.v || n.opt != nil {
			continue
		}
		f := strings.Fields(n.lit)
		var ks []int
		for i, x := range f {
			if x == "__5__" {
				ks = []int{i}
				break
			}
			if len(x) >= 5 && strings.Trim(x, "abcdefghijklmnopqrstuvwxyz") == "" {
				ks = append(ks, i)
			}
		}
		if len(ks) > 0 {
			f[pick(r, ks)] = "zqzqzvvz"
			return n, " " + strings.Join(f, " ") + " "
		}
	}
	return nil, ""
}

// tree lists all files below dir with their contents.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func treeDiff(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, "removed "+k)
		} else if w != v {
			d = append(d, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "added "+k)
		}
	}
	sort.Strings(d)
	return d
}

// Licenses that other pattern files define, or that are left out on purpose.
var spdxExcluded = strings.Fields(`AGPL-1.0-only AGPL-1.0-or-later AGPL-3.0-only AGPL-3.0-or-later BSD-1-Clause BSD-2-Clause
	BSD-2-Clause-Patent BSD-2-Clause-Views BSD-3-Clause BSD-3-Clause-Attribution BSD-3-Clause-Clear BSD-3-Clause-LBNL
	BSD-3-Clause-No-Nuclear-License BSD-3-Clause-No-Nuclear-License-2014 BSD-3-Clause-No-Nuclear-Warranty BSD-3-Clause-Open-MPI
	BSD-4-Clause BSD-4-Clause-UC BSD-Source-Code GFDL-1.1-invariants-only GFDL-1.2-no-invariants-or-later GFDL-1.3-no-invariants-only
	GPL-1.0-only GPL-1.0-or-later GPL-2.0-only GPL-2.0-or-later GPL-3.0-only GPL-3.0-or-later HPND-sell-variant
	LGPL-2.0-only LGPL-2.0-or-later LGPL-2.1-only LGPL-2.1-or-later LGPL-3.0-only LGPL-3.0-or-later MIT MIT-0 MITNFA
	MPL-2.0-no-copyleft-exception`)

type spdxEnv struct {
	exe, bin string // the tool, directory with the stub go command
}

// An spdxDir is a scratch checkout: top/licenses with _spdx in it.
type spdxDir struct{ top string }

func (d spdxDir) path(p ...string) string {
	return filepath.Join(append([]string{d.top}, p...)...)
}

func newSpdxDir(c *Ctx) (spdxDir, error) {
	top, err := os.MkdirTemp(c.Scratch, "spdx-")
	if err != nil {
		return spdxDir{}, err
	}
	d := spdxDir{top}
	for _, p := range []string{"licenses/_spdx/json/details", "licenses/_spdx/text", "testdata/licenses"} {
		if err := os.MkdirAll(d.path(p), 0o777); err != nil {
			return d, err
		}
	}
	return d, nil
}

func (d spdxDir) add(id, name, template, text string, deprecated bool, seeAlso []string) error {
	b, _ := json.Marshal(map[string]any{"licenseId": id, "name": name, "isDeprecatedLicenseId": deprecated, "licenseText": text,
		"standardLicenseTemplate": template, "seeAlso": seeAlso, "isOsiApproved": true, "licenseComments": "note (( "})
	if err := os.WriteFile(d.path("licenses/_spdx/json/details", id+".json"), b, 0o666); err != nil {
		return err
	}
	return os.WriteFile(d.path("licenses/_spdx/text", id+".txt"), []byte(text), 0o666)
}

// badHeader says what is wrong with the comment that begins the pattern file,
// which tells readers what it was made from.
func badHeader(pat string, want ...string) string {
	s, ok := strings.CutPrefix(strings.TrimSpace(pat), "//**")
	s, _, end := strings.Cut(s, "**//")
	if !ok || !end {
		return "no comment at the start"
	}
	var lines []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			lines = append(lines, l)
		}
	}
	for _, x := range want {
		if !slices.Contains(lines, x) {
			return fmt.Sprintf("no line %q in %q", x, lines)
		}
	}
	return ""
}

func (e *spdxEnv) run(d spdxDir, args ...string) runOut {
	return runTool(d.path("licenses"), e.exe, []string{"PATH=" + e.bin + ":" + os.Getenv("PATH"), "STUB_LOG=" + d.path("go.log")}, args...)
}

func init() {
	register(&Check{ID: "C28", Needs: []string{"variants scanned", "optional parts", "variables", "bullets", "bullets of words", "bullets of many words", "copyright variables", "existing files kept", "existing files overwritten", "excluded or deprecated", "damaged variants", "operators in literal text", "deep indentation", "long variables", "short lines", "short optional parts", "single words damaged", "texts as they come", "optional punctuation in optional parts", "variable words outside ASCII"}, Run: func(c *Ctx) {
		c.Rule("the real getspdx, built from the working tree, is run in scratch checkouts on generated SPDX templates (go generate replaced by a stub that logs the call); its pattern must be accepted by NewScanner and match the whole license text with optional parts in or out. File trees before and after are compared for existing, excluded and deprecated licenses with and without -f. Non-trivial: a pattern was written, or a file protected")
		dir := filepath.Join(c.Scratch, "src")
		e := &spdxEnv{exe: filepath.Join(c.Scratch, "getspdx.exe"), bin: filepath.Join(c.Scratch, "bin")}
		if err := copyRepo(dir); err != nil {
			c.Problem("scratch copy: %v", err)
			return
		}
		if err := buildTool(dir, "licenses/getspdx.go", e.exe); err != nil {
			c.Problem("%v", err)
			return
		}
		os.Mkdir(e.bin, 0o777)
		if err := os.WriteFile(filepath.Join(e.bin, "go"), []byte("#!/bin/sh\necho \"$PWD $*\" >>\"$STUB_LOG\"\n"), 0o777); err != nil {
			c.Problem("%v", err)
			return
		}
		gen := func(label string, n int, hard, uni bool) {
			c.Each(label, n, func(w *W) {
				d, err := newSpdxDir(c)
				if err != nil {
					c.Problem("%v", err)
					return
				}
				defer os.RemoveAll(d.top)
				type one struct {
					id, tmpl, text string
					head           []string // lines of the comment in front
					front, body    []*spdxNode
					opts           int
				}
				var all []one
				for i := 0; i < 5; i++ {
					g := &spdxGen{w: w, u: newUnique(w.R), hard: hard, uni: uni}
					o := one{id: fmt.Sprintf("Q%d-1.%d", i, w.R.IntN(9)) + pick(w.R, []string{"", "", "-only", "-or-later", "-No-Copyleft-Exception", "-" + g.u.word(nil)})}
					o.front, o.body = g.license()
					o.opts = g.opts
					var t, x strings.Builder
					spdxTemplate(&t, o.front)
					spdxTemplate(&t, o.body)
					no := func(int) bool { return false }
					spdxText(&x, o.front, no, nil, "")
					spdxText(&x, o.body, no, nil, "")
					o.tmpl, o.text = t.String(), x.String()
					o.head = []string{"The " + o.id + " || License ((x", "https://spdx.org/licenses/" + o.id + ".json"}
					see := []string{"https://example.org/__x__", "http://" + g.u.word(w.R) + ".example/((" + g.u.word(w.R), "https://opensource.org/licenses/" + o.id}[:w.R.IntN(4)]
					o.head = append(o.head, see...)
					if err := d.add(o.id, o.head[0], o.tmpl, o.text, false, see); err != nil {
						c.Problem("%v", err)
						return
					}
					all = append(all, o)
				}
				args := []string{"all"}
				if w.R.IntN(2) == 0 {
					args = nil
					for _, o := range all {
						args = append(args, o.id)
					}
				}
				r := e.run(d, args...)
				if r.timeout {
					c.Problem("getspdx timed out")
					return
				}
				if r.err != nil {
					w.Fail(Violation{Kind: "getspdx failed", Message: fmt.Sprintf("%v: %s", r.err, clip(r.out, 3000)), Text: clip(fmt.Sprintf("%+v", all), 6000)})
					return
				}
				log, _ := os.ReadFile(d.path("go.log"))
				if string(log) != d.top+" generate\n" {
					w.Fail(Violation{Kind: "go generate not run once in the module", Message: fmt.Sprintf("%q", log)})
					return
				}
				for _, o := range all {
					pat, err := os.ReadFile(d.path("licenses", o.id+".lre"))
					if err != nil {
						w.Fail(Violation{Kind: "no pattern written", Message: err.Error(), Text: o.tmpl})
						return
					}
					fail := func(kind, f string, a ...any) {
						w.Fail(Violation{Kind: kind, Message: fmt.Sprintf(f, a...), Text: o.tmpl, Got: string(pat)})
					}
					if t := readOr(d.path("testdata/licenses", o.id+".txt")); t != o.text {
						fail("text not copied", "%q, want %q", clip(t, 500), clip(o.text, 500))
						return
					}
					t1 := readOr(d.path("testdata", o.id+".t1"))
					if bad := badTest(t1, o.id, o.text); bad != "" {
						fail("test file", "%s: %q", bad, clip(t1, 500))
						return
					}
					if bad := badHeader(string(pat), o.head...); bad != "" {
						fail("comment in front", "%s", bad)
						return
					}
					s, err := lc.NewScanner([]lc.License{{ID: o.id, LRE: string(pat)}})
					if err != nil || s == nil {
						fail("pattern rejected", "%v", err)
						return
					}
					nv := 1 << min(o.opts, 10)
					step := 1
					if nv > 24 {
						step = nv / 24
					}
					for v := 0; v < nv; v += step {
						mask := v
						if v > 0 && step > 1 {
							mask = w.R.IntN(1 << min(o.opts, 30))
						}
						out := func(i int) bool { return mask>>i&1 == 1 }
						var b strings.Builder
						b.WriteString(pick(w.R, []string{"", "\n", "zqzqzvvz "}))
						lo := b.Len()
						spdxText(&b, o.front, out, nil, "")
						if len(o.front) > 0 {
							lo = b.Len()
						}
						spdxText(&b, o.body, out, nil, "")
						hi := b.Len()
						b.WriteString(pick(w.R, []string{"", "\n\n", "\n zqzqzvvz"}))
						t := b.String()
						got := s.Scan([]byte(t))
						w.Inc("variants scanned", 1)
						w.Note(true, t)
						first, last := wordSpan(t, lo, hi)
						if len(got.Match) != 1 || got.Match[0].ID != o.id || got.Match[0].Start > first || got.Match[0].End < last {
							fail("license text not matched", "mask %x: text %q: got %s, want %d to %d", mask, clip(t, 3000), show(got.Match, got.Percent), first, last)
							return
						}
						// The literal end is required.
						b.Reset()
						end := o.body[len(o.body)-1]
						spdxText(&b, o.front, out, nil, "")
						spdxText(&b, o.body, out, end, " zqzqzvvz jqjqwqwq vzvzqjqj ")
						got = s.Scan([]byte(b.String()))
						w.Inc("damaged variants", 1)
						if len(got.Match) != 0 {
							fail("text without its end matched", "mask %x: text %q: got %s", mask, clip(b.String(), 3000), show(got.Match, got.Percent))
							return
						}
						// So is every other word outside optional parts.
						b.Reset()
						if n, with := damageWord(w.R, o.body); n != nil {
							spdxText(&b, o.front, out, nil, "")
							spdxText(&b, o.body, out, n, with)
							got = s.Scan([]byte(b.String()))
							w.Inc("single words damaged", 1)
							if strings.Contains(n.lit, "__5__") {
								w.Inc("texts with literal blanks damaged", 1)
							}
							if len(got.Match) != 0 {
								fail("text with a foreign word matched", "mask %x: text %q: got %s", mask, clip(b.String(), 3000), show(got.Match, got.Percent))
								return
							}
						}
					}
				}
			})
		}
		gen("plain templates", c.N(150, 4000), false, false)
		gen("hostile templates", c.N(250, 6000), true, false)
		gen("other scripts", c.N(150, 4000), true, true)

		c.Each("files kept", c.N(250, 6000), func(w *W) {
			d, err := newSpdxDir(c)
			if err != nil {
				c.Problem("%v", err)
				return
			}
			defer os.RemoveAll(d.top)
			g := &spdxGen{w: w, u: newUnique(w.R)}
			ids := append([]string{"New-1.0", "Old-1.0", "Dep-1.0"}, pick(w.R, spdxExcluded), pick(w.R, spdxExcluded))
			if ids[3] == ids[4] {
				ids = ids[:4]
			}
			texts := map[string]string{}
			for _, id := range ids {
				front, body := g.license()
				var t, x strings.Builder
				spdxTemplate(&t, append(front, body...))
				spdxText(&x, append(front, body...), func(int) bool { return false }, nil, "")
				texts[id] = x.String()
				if w.R.IntN(4) == 0 { // texts as they come
					texts[id] = pick(w.R, []string{"", "\n\n" + x.String(), "# Title\n\n100%\n" + x.String(), strings.ReplaceAll(x.String(), "\n", "\r\n"), "\xef\xbb\xbf" + x.String() + "\xff 50% %d %s\n\n\n"})
					w.Inc("texts as they come", 1)
				}
				if err := d.add(id, id, t.String(), texts[id], id == "Dep-1.0", nil); err != nil {
					c.Problem("%v", err)
					return
				}
			}
			edited := "{{Type \"Notice\"}}\nmy own edits here\n"
			if w.R.IntN(4) == 0 {
				edited = ""
			}
			os.WriteFile(d.path("licenses/Old-1.0.lre"), []byte(edited), 0o666)
			haveText := w.R.IntN(2) == 0
			if haveText {
				os.WriteFile(d.path("testdata/licenses/Old-1.0.txt"), []byte("my own text\n"), 0o666)
			}
			haveT1 := w.R.IntN(2) == 0
			if haveT1 {
				for _, id := range ids {
					os.WriteFile(d.path("testdata", id+".t1"), []byte("my own test\n"), 0o666)
				}
			}
			before := tree(d.top)
			force := w.R.IntN(2) == 0
			args := append([]string{}, ids...)
			w.R.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
			if w.R.IntN(2) == 0 {
				args = []string{"all"}
			}
			if w.R.IntN(4) == 0 {
				for i := range args {
					if args[i] != "all" {
						args[i] = "_spdx/json/details/" + args[i] + ".json"
					}
				}
			}
			missing := args[0] != "all" && w.R.IntN(3) == 0
			if missing {
				args = append([]string{"NoSuch"}, args...)
			}
			if force {
				args = append([]string{"-f"}, args...)
			}
			for round := 0; round < 2; round++ {
				o := e.run(d, args...)
				if o.timeout {
					c.Problem("getspdx timed out")
					return
				}
				if o.hang || (o.err != nil) != missing {
					w.Fail(Violation{Kind: "exit status", Message: fmt.Sprintf("%v: %v %s", args, o.err, clip(o.out, 1000))})
					return
				}
			}
			after := tree(d.top)
			delete(after, "go.log")
			var want []string
			add := func(id string) {
				want = append(want, "added licenses/"+id+".lre", "added testdata/licenses/"+id+".txt")
				if !haveT1 {
					want = append(want, "added testdata/"+id+".t1")
				}
			}
			add("New-1.0")
			if force {
				add("Old-1.0")
				for i := range want {
					if want[i] == "added licenses/Old-1.0.lre" || haveText && want[i] == "added testdata/licenses/Old-1.0.txt" {
						want[i] = "changed " + want[i][6:]
					}
				}
				w.Inc("existing files overwritten", 1)
			} else {
				w.Inc("existing files kept", 1)
			}
			w.Inc("excluded or deprecated", len(ids)-2)
			sort.Strings(want)
			w.Note(true, fmt.Sprint(args, haveT1, edited, before))
			if got := treeDiff(before, after); fmt.Sprint(got) != fmt.Sprint(want) {
				w.Fail(Violation{Kind: "wrong files touched", Message: fmt.Sprintf("getspdx %v (tests there: %v): %v, want %v", args, haveT1, got, want)})
				return
			}
			for _, id := range []string{"New-1.0", "Old-1.0"} {
				if id == "Old-1.0" && !force {
					continue
				}
				if t := after["testdata/licenses/"+id+".txt"]; t != texts[id] {
					w.Fail(Violation{Kind: "text not copied", Message: fmt.Sprintf("%q, want %q", clip(t, 500), clip(texts[id], 500))})
				}
				if t := after["testdata/"+id+".t1"]; !haveT1 {
					if bad := badTest(t, id, texts[id]); bad != "" {
						w.Fail(Violation{Kind: "test file", Message: fmt.Sprintf("%s: %q", bad, clip(t, 500))})
					}
				}
			}
		})
	}})
}

// badTest tells what is wrong with a new .t1 file, read the way TestTestdata
// reads it: it must say that this text, and no other, is the license in full.
func badTest(t1, id, text string) string {
	hdr, data, ok := strings.Cut(t1, "\n\n")
	if !ok {
		return "no blank line ends the header"
	}
	ls := strings.Split(hdr, "\n")
	for len(ls) > 0 && strings.HasPrefix(ls[0], "#") {
		ls = ls[1:]
	}
	if len(ls) != 2 {
		return fmt.Sprintf("%d header lines, want a percentage and one match", len(ls))
	}
	var p float64
	if n, err := fmt.Sscanf(strings.TrimSpace(ls[0]), "%f%%", &p); n != 1 || err != nil || p != 100 {
		return fmt.Sprintf("percentage %q", ls[0])
	}
	f := strings.Fields(ls[1])
	if len(f) != 2 || f[0] != id || f[1] != "0,$" && f[1] != fmt.Sprintf("0,%d", len(data)) {
		return fmt.Sprintf("match %q", ls[1])
	}
	if data != text {
		return fmt.Sprintf("text %q, want %q", clip(data, 500), clip(text, 500))
	}
	return ""
}

// wordSpan gives the extent of the letters and digits in t[lo:hi].
func wordSpan(t string, lo, hi int) (first, last int) {
	first, last = -1, lo
	for i, c := range t[lo:hi] {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			if first < 0 {
				first = lo + i
			}
			last = lo + i + 1
		}
	}
	return max(first, lo), last
}
