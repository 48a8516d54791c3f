package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"

	lc "github.com/google/licensecheck"
)

// A ccNode is a piece of a Creative Commons legal code page: its markup and
// the words a reader sees, side by side.
type ccNode struct {
	open, end string    // markup around the contents
	text      string    // visible text of a leaf
	html      string    // markup of a leaf, if it differs from text
	sub       []*ccNode // contents
	opt       bool      // may be left out
	num       int       // number of the optional part
	li        bool      // a number may stand before it
	head      bool      // the URL may follow
	skip      bool      // not part of the license
}

func (n *ccNode) page(b *strings.Builder) {
	b.WriteString(n.open)
	if n.html != "" {
		b.WriteString(n.html)
	} else {
		b.WriteString(n.text)
	}
	for _, s := range n.sub {
		s.page(b)
	}
	b.WriteString(n.end)
}

type ccChoice struct {
	r     *rand.Rand
	out   func(int) bool
	url   string
	repl  *ccNode // leaf replaced by foreign words
	nums  int
	urls  int
	first bool
}

// plain writes the text of the page as somebody might copy it.
func (n *ccNode) plain(b *strings.Builder, c *ccChoice) {
	if n.skip {
		return
	}
	if !(n.opt && c.out(n.num)) {
		if n.li && !c.first {
			switch c.r.IntN(4) {
			case 0:
				b.WriteString(pick(c.r, []string{"1. ", "a) ", "iv. ", "(b) ", "2) "}))
				c.nums++
			case 1:
				b.WriteString(pick(c.r, []string{"* ", "- ", "• "}))
			}
		}
		if n.text != "" {
			if n == c.repl {
				b.WriteString(" zqzqzvvz jqjqwqwq vzvzqjqj zvqjzvqj ")
			} else {
				b.WriteString(n.text)
			}
		}
		for _, s := range n.sub {
			s.plain(b, c)
			b.WriteString(pick(c.r, []string{" ", "\n", "\n\n", "\n   "}))
		}
	}
	if n.head && c.url != "" && !c.first && c.r.IntN(3) == 0 {
		b.WriteString("\n" + c.url + pick(c.r, []string{"", "/legalcode"}) + "\n")
		c.urls++
	}
}

type ccGen struct {
	w    *W
	u    *uniqueWords
	opts int
	req  []*ccNode // required leaves
}

func (g *ccGen) words(n int) *ccNode {
	r := g.w.R
	var t, h strings.Builder
	for i := 0; i < n; i++ {
		s := g.u.word(nil)
		x := s
		switch r.IntN(14) {
		case 0:
			s = strings.ToUpper(s[:1]) + s[1:]
			x = s
		case 1:
			s, x = "“"+s+"”", pick(r, []string{"&ldquo;" + s + "&rdquo;", "&#8220;" + s + "&#x201d;", "“" + s + "”", "\"" + s + "\""})
		case 2:
			s = fmt.Sprintf(pick(r, []string{"(%s)", "%s,", "%s.", "%s;", "[%s]", "%s --", "— %s"}), s)
			x = s
		case 3:
			x = pick(r, []string{"<b>%s</b>", "<i>%s</i>", "<strong>%s</strong>", "<a href=\"http://example.org/x\">%s</a>", "<span class=\"x\">%s</span>", "<em><b>%s</b></em>"})
			x = fmt.Sprintf(x, s)
			g.w.Inc("inline markup", 1)
		case 4:
			if r.IntN(3) == 0 {
				s = fmt.Sprintf(pick(r, []string{"((%s))", "((%s", "%s))", "(((%s)))", "%s )) ( ("}), s)
				x = s
				g.w.Inc("doubled parentheses", 1)
			}
		case 5:
			s += " &"
			x += " &amp;"
		case 7:
			if r.IntN(4) > 0 {
				break
			}
			switch r.IntN(3) {
			case 0:
				x = pick(r, []string{"<b>License</b>", "<em>License</em>", "<a href=\"#x\">License</a>"})
				s = "License"
				g.w.Inc("License in markup of its own", 1)
			case 1:
				x = pick(r, []string{"(<b>(%s)</b>)", "<i>(</i>(%s))", "(<!-- x -->(%s", "((<a href=\"#x\">(%s)</a>))", "%s)<br>)", "<em>%s)</em>)"})
				x = fmt.Sprintf(x, s)
				s = "((" + s + "))"
				g.w.Inc("doubled parentheses around markup", 1)
			default:
				x = pick(r, []string{"(<b>%s</b>)", "(%s<i>)</i>", "<u>(%s</u>)"})
				x = fmt.Sprintf(x, s)
				s = "(" + s + ")"
			}
		case 6:
			e := pick(r, [][2]string{{"é", "&eacute;"}, {"Ö", "&Ouml;"}, {"é", "&#233;"}, {"Ж", "&#x416;"}, {"ç", "&ccedil;"}, {"ä", "&auml;"}, {"ñ", "ñ"}, {"α", "&alpha;"}})
			s, x = e[0]+s+e[0], e[1]+s+e[1]
			g.w.Inc("letters written as entities", 1)
		}
		t.WriteString(s)
		h.WriteString(x)
		if i+1 < n {
			sep := pick(r, []string{" ", " ", " ", "\n", "\n  ", "\n\t\t", "  "})
			if r.IntN(60) == 0 {
				sep = "\n" + strings.Repeat(" ", r.IntN(130))
				g.w.Inc("wide indentation", 1)
			}
			t.WriteString(" ")
			switch {
			case r.IntN(12) == 0:
				h.WriteString("&nbsp;")
			case r.IntN(20) == 0:
				h.WriteString("<!-- not shown --> ")
			case r.IntN(20) == 0:
				h.WriteString(pick(r, []string{" <br/>", "<br>\n", "<br />\n"}))
			default:
				h.WriteString(sep)
			}
		}
	}
	return &ccNode{text: t.String(), html: h.String()}
}

func (g *ccGen) leaf(n int, opt bool) *ccNode {
	x := g.words(n)
	if !opt {
		g.req = append(g.req, x)
	}
	return x
}

func (g *ccGen) optional(n *ccNode) *ccNode {
	n.opt, n.num = true, g.opts
	g.opts++
	g.w.Inc("optional blocks", 1)
	return n
}

func el(tag string, sub ...*ccNode) *ccNode {
	name, _, _ := strings.Cut(tag, " ")
	return &ccNode{open: "<" + tag + ">", end: "</" + name + ">", sub: sub}
}

func (g *ccGen) heading() *ccNode {
	n := el(pick(g.w.R, []string{"h3", "h3", "h3 class=\"x\"", "h2", "h1"}), g.leaf(1+g.w.R.IntN(5), true))
	n.head = true
	return g.optional(n)
}

// blocks makes contents; in reports that they lie in an optional part.
func (g *ccGen) blocks(n, depth int, in bool) []*ccNode {
	r := g.w.R
	var out []*ccNode
	for ; n > 0; n-- {
		size := 3 + r.IntN(30)
		switch k := r.IntN(10); {
		case k < 4:
			out = append(out, el(pick(r, []string{"p", "p", "p class=\"x\"", "p align=\"left\"", "div", "div class=\"y\""}), g.leaf(size, in)))
		case k == 4:
			out = append(out, g.heading())
		case k == 5 && depth > 0:
			list := el(pick(r, []string{"ol", "ul", "ol type=\"a\""}))
			for i := 1 + r.IntN(4); i > 0; i-- {
				li := el("li", g.leaf(3+r.IntN(20), in))
				li.li = true
				if r.IntN(3) == 0 { // paragraphs in an item
					li.sub[0] = el("p", li.sub[0])
				}
				if r.IntN(3) == 0 {
					li.sub = append(li.sub, g.blocks(1+r.IntN(2), depth-1, in)...)
				}
				list.sub = append(list.sub, li)
				g.w.Inc("list items", 1)
			}
			out = append(out, list, el("p", g.leaf(3, in)))
		case k == 6 && depth > 0:
			q := el(pick(r, []string{"blockquote", "div class=\"fineprint\"", "div class=\"shaded\"", "div class=\"summary\""}))
			q.sub = append(q.sub, el("p", g.leaf(2+r.IntN(12), true)))
			q.sub = append(q.sub, g.blocks(r.IntN(3), depth-1, true)...)
			out = append(out, g.optional(q))
		case k == 7:
			out = append(out, g.optional(el(pick(r, []string{"p align=\"center\"", "p class=\"shaded\"", "p align=\"center\" class=\"x\"", "p class=\"title\" align=\"center\"", "p align=\"left\" class=\"shaded\"", "p class=\"shaded\" id=\"q\""}), g.leaf(1+r.IntN(9), true))))
		case k == 8 && r.IntN(3) == 0:
			d := &ccNode{text: "For the avoidance of doubt, "}
			p := el("p", &ccNode{li: true, sub: []*ccNode{d, g.leaf(3+r.IntN(9), in)}})
			out = append(out, el("p", g.leaf(3, in)), p)
			g.w.Inc("avoidances of doubt", 1)
		case k == 9 && r.IntN(3) == 0:
			out = append(out, el("p", g.optional(&ccNode{text: "License"})), el("p", g.leaf(3, in)))
		default:
			out = append(out, el("p", g.leaf(size, in)))
		}
	}
	return out
}

// page makes a page with its license and what stands around it.
func (g *ccGen) page(old bool) (html string, root *ccNode) {
	r := g.w.R
	junk := func(tag string) *ccNode {
		n := el(tag, g.words(1+r.IntN(12)))
		n.skip = true
		return n
	}
	root = &ccNode{}
	body := func() []*ccNode {
		var b []*ccNode
		if r.IntN(2) == 0 {
			b = append(b, g.optional(el("blockquote", el("p", g.leaf(2+r.IntN(20), true)))))
		}
		if r.IntN(2) == 0 {
			b = append(b, g.heading())
		}
		b = append(b, el("p", g.leaf(5+r.IntN(20), false)))
		b = append(b, g.blocks(6+r.IntN(8), 3, false)...)
		b = append(b, el("p", g.leaf(150+r.IntN(100), false)))
		if r.IntN(2) == 0 {
			b = append(b, g.optional(el(pick(r, []string{"blockquote", "div class=\"fineprint\""}), el("p", g.leaf(2+r.IntN(20), true)))))
		}
		return b
	}
	if old {
		title := g.optional(el("p align=\"center\"", el(pick(r, []string{"b", "a href=\"http://creativecommons.org/\""}), g.leaf(1+r.IntN(5), true))))
		title.open, title.end = "", "" // p itself is not part of it, its contents are
		title.opt = false
		title.sub[0].open, title.sub[0].end = "<p align=\"center\">"+title.sub[0].open, title.sub[0].end+"</p>"
		root.sub = append(root.sub, junk("p"), junk("div class=\"head\""), title, el("div class=\"text\"", body()...), junk("div id=\"footer\""))
		g.w.Inc("pages in the old layout", 1)
	} else {
		h := el(pick(r, []string{"h1", "h2", "h2 class=\"t\""}), g.leaf(1+r.IntN(6), true))
		h.head = true
		root.sub = append(root.sub, junk("p"),
			el("div id=\"deed-head\"", junk("div id=\"cc-logo\""), el("div id=\"deed-license\"", g.optional(h))),
			el("div id=\"deed-main\"", el("div id=\"deed-main-content\"", body()...), junk("p")),
			junk("div id=\"footer\""))
		if r.IntN(2) == 0 { // what the other layout has
			g.w.Inc("elements of the old layout in the new one", 1)
			root.sub = append(root.sub, junk("div class=\"text\""), el("p align=\"center\"", junk(pick(r, []string{"b", "a"}))))
			root.sub[len(root.sub)-1].skip = true
		}
		g.w.Inc("pages in the new layout", 1)
	}
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">\n<html xmlns=\"http://www.w3.org/1999/xhtml\">\n<head><title>")
	g.words(4).page(&b)
	b.WriteString("</title></head>\n<body>\n")
	root.page(&b)
	b.WriteString("</body>\n</html>\n")
	return b.String(), root
}

// Identifiers with the name of their page and their URL.
var ccIDs = [][3]string{
	{"CC-BY-3.0", "by_3.0", "https://creativecommons.org/licenses/by/3.0"},
	{"CC-BY-NC-SA-4.0", "by-nc-sa_4.0", "https://creativecommons.org/licenses/by-nc-sa/4.0"},
	{"CC-BY-ND-1.0", "by-nd_1.0", "https://creativecommons.org/licenses/by-nd/1.0"},
	{"CC-BY-3.0-AT", "by_3.0_at", "https://creativecommons.org/licenses/by/3.0/at"},
	{"CC-BY-NC-SA-2.0-UK", "by-nc-sa_2.0_uk", "https://creativecommons.org/licenses/by-nc-sa/2.0/uk"},
	{"CC-PDDC", "pddc", ""},
}

func init() {
	register(&Check{ID: "C30", Needs: []string{"License in markup of its own", "doubled parentheses around markup", "pages converted", "texts as they come", "texts in both places", "variants scanned", "damaged variants", "optional blocks", "list items", "numbered items", "URLs after headings", "pages in the old layout", "pages in the new layout", "existing files kept", "existing files overwritten", "short pages", "missing pages", "wide indentation", "doubled parentheses", "inline markup", "avoidances of doubt"}, Run: func(c *Ctx) {
		c.Rule("the real getcc, built from the working tree, is run in scratch checkouts on generated legal code pages in both layouts (go generate replaced by a stub that logs the call); its pattern must be accepted by NewScanner and match the page's text with optional parts in or out, list numbers and URLs there or not, and must not match when a required passage is replaced. File trees before and after are compared for existing files with and without -f, short and missing pages. Non-trivial: a pattern was written, or a file protected")
		dir := filepath.Join(c.Scratch, "src")
		e := &spdxEnv{exe: filepath.Join(c.Scratch, "getcc.exe"), bin: filepath.Join(c.Scratch, "bin")}
		if err := copyRepo(dir); err != nil {
			c.Problem("scratch copy: %v", err)
			return
		}
		if err := buildTool(dir, "licenses/getcc.go", e.exe); err != nil {
			c.Problem("%v", err)
			return
		}
		os.Mkdir(e.bin, 0o777)
		if err := os.WriteFile(filepath.Join(e.bin, "go"), []byte("#!/bin/sh\necho \"$PWD $*\" >>\"$STUB_LOG\"\n"), 0o777); err != nil {
			c.Problem("%v", err)
			return
		}
		mk := func() (spdxDir, error) {
			d, err := newSpdxDir(c)
			if err == nil {
				err = os.MkdirAll(d.path("licenses/_cc/docroot/legalcode"), 0o777)
			}
			return d, err
		}
		all := func(int) bool { return false }
		c.Each("pages", c.N(400, 12000), func(w *W) {
			d, err := mk()
			if err != nil {
				c.Problem("%v", err)
				return
			}
			defer os.RemoveAll(d.top)
			type one struct {
				g    *ccGen
				id   [3]string
				html string
				root *ccNode
				text string
			}
			var pages []one
			var args []string
			for _, i := range w.R.Perm(len(ccIDs))[:3] {
				g := &ccGen{w: w, u: newUnique(w.R)}
				o := one{g: g, id: ccIDs[i]}
				o.html, o.root = g.page(w.R.IntN(3) == 0)
				var b strings.Builder
				o.root.plain(&b, &ccChoice{r: w.R, out: all, first: true})
				o.text = b.String()
				os.WriteFile(d.path("licenses/_cc/docroot/legalcode", o.id[1]+".html"), []byte(o.html), 0o666)
				if k := w.R.IntN(3); k < 2 {
					os.WriteFile(d.path("licenses/_cc/docroot/legalcode", o.id[1]+".txt"), []byte(o.text), 0o666)
					if k == 0 { // the page's own text has precedence
						os.WriteFile(d.path("licenses/_spdx/text", o.id[0]+".txt"), []byte("text from elsewhere\n"), 0o666)
						w.Inc("texts in both places", 1)
					}
				} else {
					os.WriteFile(d.path("licenses/_spdx/text", o.id[0]+".txt"), []byte(o.text), 0o666)
				}
				pages = append(pages, o)
				args = append(args, o.id[0])
			}
			r := e.run(d, args...)
			if r.timeout {
				c.Problem("getcc timed out")
				return
			}
			if r.err != nil {
				w.Fail(Violation{Kind: "getcc failed", Message: fmt.Sprintf("%v: %s", r.err, clip(r.out, 3000)), Text: clip(pages[0].html+pages[1].html+pages[2].html, 20000)})
				return
			}
			log, _ := os.ReadFile(d.path("go.log"))
			if string(log) != d.top+" generate\n" {
				w.Fail(Violation{Kind: "go generate not run once in the module", Message: fmt.Sprintf("%q", log)})
				return
			}
			for _, o := range pages {
				id := o.id[0]
				pat, err := os.ReadFile(d.path("licenses", id+".lre"))
				if err != nil {
					w.Fail(Violation{Kind: "no pattern written", Message: err.Error(), Text: o.html})
					return
				}
				fail := func(kind, f string, a ...any) {
					w.Fail(Violation{Kind: kind, Message: fmt.Sprintf(f, a...), Text: o.html, Got: string(pat)})
				}
				w.Inc("pages converted", 1)
				if t := readOr(d.path("testdata/licenses", id+".txt")); t != o.text {
					fail("text not copied", "%q, want %q", clip(t, 500), clip(o.text, 500))
					return
				}
				t1 := readOr(d.path("testdata", id+".t1"))
				if bad := badTest(t1, id, o.text); bad != "" {
					fail("test file", "%s: %q", bad, clip(t1, 500))
					return
				}
				head := []string{id}
				if o.id[2] != "" {
					head = append(head, o.id[2])
				}
				if bad := badHeader(string(pat), head...); bad != "" {
					fail("comment in front", "%s", bad)
					return
				}
				s, err := lc.NewScanner([]lc.License{{ID: id, LRE: string(pat)}})
				if err != nil || s == nil {
					fail("pattern rejected", "%v", err)
					return
				}
				for v := 0; v < 14; v++ {
					mask := w.R.Uint64() & w.R.Uint64()
					switch {
					case v == 0:
						mask = 0
					case v == 1:
						mask = ^uint64(0)
					case v%2 == 0: // a single one left out
						mask = 1 << w.R.IntN(o.g.opts%64+1)
					}
					ch := &ccChoice{r: w.R, out: func(i int) bool { return mask>>(i%64)&1 == 1 }, url: o.id[2]}
					var b strings.Builder
					b.WriteString(pick(w.R, []string{"", "\n", "zqzqzvvz "}))
					lo := b.Len()
					if w.R.IntN(3) == 0 {
						b.WriteString("Creative Commons\n\n")
					}
					o.root.plain(&b, ch)
					hi := b.Len()
					b.WriteString(pick(w.R, []string{"", "\n\n", "\n zqzqzvvz"}))
					t := b.String()
					got := s.Scan([]byte(t))
					w.Inc("variants scanned", 1)
					w.Inc("numbered items", ch.nums)
					w.Inc("URLs after headings", ch.urls)
					w.Note(true, t)
					first, last := wordSpan(t, lo, hi)
					if len(got.Match) != 1 || got.Match[0].ID != id || got.Match[0].Start > first || got.Match[0].End < last {
						fail("license text not matched", "mask %x: text %q: got %s, want %d to %d", mask, clip(t, 6000), show(got.Match, got.Percent), first, last)
						return
					}
					// Every passage outside the optional parts is required.
					ch.repl = pick(w.R, o.g.req)
					b.Reset()
					o.root.plain(&b, ch)
					got = s.Scan([]byte(b.String()))
					w.Inc("damaged variants", 1)
					if len(got.Match) != 0 {
						fail("text without a required passage matched", "mask %x: passage %q, text %q: got %s", mask, ch.repl.text, clip(b.String(), 6000), show(got.Match, got.Percent))
						return
					}
				}
			}
		})
		c.Each("files kept", c.N(200, 5000), func(w *W) {
			d, err := mk()
			if err != nil {
				c.Problem("%v", err)
				return
			}
			defer os.RemoveAll(d.top)
			perm := w.R.Perm(len(ccIDs))
			role := map[string]string{}
			texts := map[string]string{}
			var args []string
			for i, kind := range []string{"new", "existing", "short", "missing"} {
				id := ccIDs[perm[i]]
				if kind != "new" && w.R.IntN(3) == 0 {
					continue
				}
				role[id[0]] = kind
				args = append(args, id[0])
				g := &ccGen{w: w, u: newUnique(w.R)}
				html, root := g.page(false)
				if kind == "short" {
					html = "<html><body><div id=\"deed-main-content\"><p>" + g.words(1+w.R.IntN(60)).text + "</p></div></body></html>"
				}
				var b strings.Builder
				root.plain(&b, &ccChoice{r: w.R, out: all, first: true})
				if kind != "missing" {
					os.WriteFile(d.path("licenses/_cc/docroot/legalcode", id[1]+".html"), []byte(html), 0o666)
				}
				t := b.String()
				if w.R.IntN(4) == 0 { // texts as they come
					t = pick(w.R, []string{"", "\n\n" + t, "# Title\n\n100%\n" + t, strings.ReplaceAll(t, "\n", "\r\n"), "\xef\xbb\xbf" + t + "\xff 50% %d %s\n\n\n"})
					w.Inc("texts as they come", 1)
				}
				texts[id[0]] = t
				if k := w.R.IntN(3); k < 2 {
					os.WriteFile(d.path("licenses/_cc/docroot/legalcode", id[1]+".txt"), []byte(t), 0o666)
					if k == 0 {
						os.WriteFile(d.path("licenses/_spdx/text", id[0]+".txt"), []byte("text from elsewhere\n"), 0o666)
						w.Inc("texts in both places", 1)
					}
				} else {
					os.WriteFile(d.path("licenses/_spdx/text", id[0]+".txt"), []byte(t), 0o666)
				}
			}
			w.R.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
			edited := pick(w.R, []string{"{{Type \"Notice\"}}\nmy own edits here\n", "", "x"})
			haveT1 := w.R.IntN(2) == 0
			haveText := w.R.IntN(2) == 0
			bad := false
			for id, kind := range role {
				if kind == "existing" {
					os.WriteFile(d.path("licenses", id+".lre"), []byte(edited), 0o666)
					if haveText {
						os.WriteFile(d.path("testdata/licenses", id+".txt"), []byte("my own text\n"), 0o666)
					}
				}
				if haveT1 {
					os.WriteFile(d.path("testdata", id+".t1"), []byte("my own test\n"), 0o666)
				}
				bad = bad || kind == "short" || kind == "missing"
				w.Inc(map[string]string{"short": "short pages", "missing": "missing pages", "new": "new pages", "existing": "existing pages"}[kind], 1)
			}
			before := tree(d.top)
			force := w.R.IntN(2) == 0
			cmd := args
			if force {
				cmd = append([]string{"-f"}, args...)
			}
			for round := 0; round < 2; round++ {
				o := e.run(d, cmd...)
				if o.timeout {
					c.Problem("getcc timed out")
					return
				}
				if o.hang || (o.err != nil) != bad {
					w.Fail(Violation{Kind: "exit status", Message: fmt.Sprintf("%v (%v): %v %s", cmd, role, o.err, clip(o.out, 1000))})
					return
				}
			}
			after := tree(d.top)
			delete(after, "go.log")
			var want []string
			for id, kind := range role {
				if kind == "existing" {
					if !force {
						w.Inc("existing files kept", 1)
						continue
					}
					w.Inc("existing files overwritten", 1)
					want = append(want, "changed licenses/"+id+".lre")
					if haveText {
						want = append(want, "changed testdata/licenses/"+id+".txt")
					}
				}
				if kind == "new" {
					want = append(want, "added licenses/"+id+".lre")
				}
				if kind == "new" || kind == "existing" {
					if kind == "new" || !haveText {
						want = append(want, "added testdata/licenses/"+id+".txt")
					}
					if !haveT1 {
						want = append(want, "added testdata/"+id+".t1")
					}
				}
			}
			sort.Strings(want)
			w.Note(true, fmt.Sprint(cmd, haveT1, haveText, edited, before))
			if got := treeDiff(before, after); fmt.Sprint(got) != fmt.Sprint(want) {
				w.Fail(Violation{Kind: "wrong files touched", Message: fmt.Sprintf("getcc %v (%v; tests there: %v, texts there: %v): %v, want %v", cmd, role, haveT1, haveText, got, want)})
				return
			}
			for id, kind := range role {
				if kind != "new" && (kind != "existing" || !force) {
					continue
				}
				if t := after["testdata/licenses/"+id+".txt"]; t != texts[id] {
					w.Fail(Violation{Kind: "text not copied", Message: fmt.Sprintf("%q, want %q", clip(t, 500), clip(texts[id], 500))})
				}
				if t := after["testdata/"+id+".t1"]; !haveT1 {
					if bad := badTest(t, id, texts[id]); bad != "" {
						w.Fail(Violation{Kind: "test file", Message: fmt.Sprintf("%s: %q", bad, clip(t, 500))})
					}
				}
			}
		})
	}})
}
