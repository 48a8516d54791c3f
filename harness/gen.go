package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

func refSet(list []lc.License) (*ref.Set, error) {
	var out []ref.License
	for _, l := range list {
		out = append(out, ref.License{ID: l.ID, Type: uint(l.Type), LRE: l.LRE, URL: l.URL})
	}
	return ref.NewSet(out)
}

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.IntN(len(xs))] }

// randT shortens signatures of word makers.
type randT = rand.Rand

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

// ---- vocabularies (surface forms) ----

// Three-letter words: too short for spelling correction among themselves.
var vocShort = strings.Fields("aaa bbb ccc ddd eee fff ggg hhh kkk lll")

// Long words with near neighbours, joins and splits among them.
var vocLong = strings.Fields(`license licence licensee licenses network notwork networks sub sublicense
	non infringement noninfringement with out without here hereby herein by in in to gether together
	and or andor warranty warranties merchant ability merchantability abcd abcde abcdef bcde xabcd work works
	distribute distributed distributes software softwares soft ware`)

// Words with special treatment.
var vocSpecial = strings.Fields(`the this these those is are it they them copy copies copyright c © (c) (C) &copy; Copyright
	http https notice(s) notices notice ws w(s) code(s) s c(s)`)

// Words outside ASCII, with case variants and accents.
var vocUni = strings.Fields("Québec QUÉBEC quebec que\u0301bec l'énergie ÉNERGIE energie лицензия ЛИЦЕНЗИЯ Βιβλίο ΒΙΒΛΊΟ σοφός ΣΟΦΌΣ софт 数据 許可 Ångström ångström \u212bngström \u212aelvin kelvin ſoft soft straße İstanbul naïve ǅungla ǆungla ﬁle ᎠᎡ ꭰꭱ ĳs e01 v2 2020 1 3d １２ ٣٤ na\u0308ive क्षे")

// Words that occur in no pattern built from the vocabularies above, and are
// not within one edit, join or split of any of them.
var foreignStems = strings.Fields("zqzq zvvz qxqx jwjw wqwq xjxj vzvz qjqj")

func foreign(r *rand.Rand) string {
	return pick(r, foreignStems) + pick(r, foreignStems) + pick(r, []string{"", "kz", "vq"})
}

// markupForms are the kinds of markup, to be filled with any bytes: each has a
// beginning and an end.
var markupForms = [][2]string{{"<", ">"}, {"</", ">"}, {"<b", ">"}, {"<b ", ">"}, {"<b\n", ">"}, {"&", ";"}, {"&#", ";"}, {"&#x", ";"}, {"&a", "b;"}, {"&#1", "2;"}, {"&#x1", "f;"}, {"{#", "}"}, {"{", "}"}, {"](#", ")"}, {"](http://", ")"}, {"](https://", ")"}, {"](mailto:", ")"}, {"](file:", ")"}, {"](", ")"}, {"(", ")"}, {"a(", ")"}, {"http://a.org/b", " "}, {"http://", ".org/b "}}

// isForeign reports whether s is a word made by foreign.
func isForeign(s string) bool {
	for _, p := range foreignStems {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func foreignN(r *rand.Rand, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = foreign(r)
	}
	return out
}

// ---- patterns ----

// A TreeCfg says what random patterns look like. Node.W holds surface words.
type TreeCfg struct {
	Word     func(r *rand.Rand) string
	Items    int // items per sequence, at most
	Depth    int // nesting
	PGroup   float64
	PWild    float64
	WildMax  int
	SafeWild bool // every wildcard is followed by at least one required word
	Head     int  // required literal words at the start
	Tail     int  // required literal words at the end
}

func words(r *rand.Rand, cfg *TreeCfg, n int) *ref.Node {
	x := &ref.Node{Op: ref.Words}
	for i := 0; i < n; i++ {
		x.W = append(x.W, cfg.Word(r))
	}
	return x
}

func wildN(r *rand.Rand, max int) int {
	switch r.IntN(6) {
	case 0:
		return r.IntN(4)
	case 1:
		return 3 + r.IntN(3)
	default:
		return 1 + r.IntN(max)
	}
}

func genSeq(r *rand.Rand, cfg *TreeCfg, depth int) []*ref.Node {
	var out []*ref.Node
	n := 1 + r.IntN(cfg.Items)
	for i := 0; i < n; i++ {
		p := r.Float64()
		switch {
		case p < cfg.PWild:
			out = append(out, &ref.Node{Op: ref.Wild, N: wildN(r, cfg.WildMax)})
			if cfg.SafeWild || r.IntN(3) > 0 {
				out = append(out, words(r, cfg, 1+r.IntN(5)))
			}
		case p < cfg.PWild+cfg.PGroup && depth > 0:
			g := genGroup(r, cfg, depth-1)
			out = append(out, g)
			if cfg.SafeWild && hasWild(g) {
				out = append(out, words(r, cfg, 1))
			}
		default:
			out = append(out, words(r, cfg, 1+r.IntN(4)))
		}
	}
	return out
}

// hasWild reports whether there is a wildcard in n. In safe patterns a group
// with a wildcard is followed by a required word, because a wildcard right
// behind an optional one ends it (early cut with no word seen).
func hasWild(n *ref.Node) bool {
	if n.Op == ref.Wild {
		return true
	}
	for _, x := range n.Sub {
		if hasWild(x) {
			return true
		}
	}
	return false
}

func concat(items []*ref.Node) *ref.Node {
	if len(items) == 1 {
		return items[0]
	}
	return &ref.Node{Op: ref.Concat, Sub: items}
}

// genGroup makes ((...)), ((a || b)) or ((...))??.
func genGroup(r *rand.Rand, cfg *TreeCfg, depth int) *ref.Node {
	var g *ref.Node
	if r.IntN(2) == 0 {
		g = concat(genSeq(r, cfg, depth))
		if cfg.SafeWild {
			g = concat(append([]*ref.Node{g}, words(r, cfg, 1)))
		}
	} else {
		g = &ref.Node{Op: ref.Alt}
		for i := 2 + r.IntN(3); i > 0; i-- {
			if r.IntN(12) == 0 {
				g.Sub = append(g.Sub, &ref.Node{Op: ref.Empty})
				continue
			}
			x := concat(genSeq(r, cfg, depth))
			if cfg.SafeWild {
				x = concat(append([]*ref.Node{x}, words(r, cfg, 1)))
			}
			g.Sub = append(g.Sub, x)
		}
	}
	if r.IntN(2) == 0 {
		g = &ref.Node{Op: ref.Quest, Sub: []*ref.Node{g}}
	}
	return g
}

func genTree(r *rand.Rand, cfg *TreeCfg) *ref.Node {
	items := []*ref.Node{}
	if cfg.Head > 0 {
		items = append(items, words(r, cfg, cfg.Head+r.IntN(3)))
	}
	items = append(items, genSeq(r, cfg, cfg.Depth)...)
	if cfg.Tail > 0 {
		items = append(items, words(r, cfg, cfg.Tail+r.IntN(3)))
	}
	return concat(items)
}

// Layout says how to print patterns and texts.
type Layout struct {
	Seps []string // separators between words of a pattern
	Case bool     // random letter case
	Comm bool     // random comments in patterns
}

var plainSeps = []string{" "}

// patSeps are safe in patterns: they add no words and form no operator.
var patSeps = []string{" ", " ", " ", "\n", "  ", ", ", ". ", "\t", " - ", "; ", "\r\n", " \"", "\" ", "' ", ": ", "\n\n", " * ", "\n\t", " — ", ",\n"}

var comments = []string{"//** x **//", "//****//", "//** (( || )) ?? __3__ **//", "//**\naaa bbb\n**//", "//** // ** **//", "//** copyright © (c) **//", "//** <b> **//"}

func recase(r *rand.Rand, w string) string {
	switch r.IntN(3) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		rs := []rune(w)
		for i := range rs {
			if r.IntN(2) == 0 {
				rs[i] = []rune(strings.ToUpper(string(rs[i])))[0]
			}
		}
		return string(rs)
	}
	return w
}

// printTree prints a pattern in LRE syntax.
func printTree(r *rand.Rand, n *ref.Node, lay *Layout) string {
	var b strings.Builder
	sep := func() { b.WriteString(pick(r, lay.Seps)) }
	bol := func() {
		if s := b.String(); s != "" && !strings.HasSuffix(s, "\n") {
			b.WriteString("\n")
		}
		b.WriteString(strings.Repeat(" ", r.IntN(3)))
		if r.IntN(5) == 0 {
			b.WriteString("\t")
		}
	}
	var pr func(n *ref.Node)
	group := func(n *ref.Node) {
		bol()
		b.WriteString("((")
		if n.Op == ref.Alt {
			for i, x := range n.Sub {
				if i > 0 {
					if r.IntN(3) == 0 {
						b.WriteString("\n")
					} else {
						b.WriteString(" ")
					}
					b.WriteString("||")
				}
				b.WriteString(" ")
				pr(x)
			}
		} else {
			b.WriteString(" ")
			pr(n)
		}
		if r.IntN(2) == 0 {
			b.WriteString(" ")
		}
		b.WriteString("))")
	}
	eol := func() {
		b.WriteString(strings.Repeat(" ", r.IntN(2)))
		if r.IntN(6) == 0 {
			b.WriteString("\r")
		}
		b.WriteString("\n")
	}
	pr = func(n *ref.Node) {
		if lay.Comm && r.IntN(8) == 0 {
			b.WriteString(" " + pick(r, comments) + " ")
		}
		switch n.Op {
		case ref.Empty:
			b.WriteString(" ")
		case ref.Words:
			for i, w := range n.W {
				if i > 0 {
					sep()
				}
				if lay.Case {
					w = recase(r, w)
				}
				b.WriteString(w)
			}
		case ref.Concat:
			for i, x := range n.Sub {
				if i > 0 {
					sep()
				}
				if x.Op == ref.Concat {
					group(x)
					eol()
				} else {
					pr(x)
				}
			}
		case ref.Alt:
			group(n)
			eol()
		case ref.Quest:
			group(n.Sub[0])
			b.WriteString(strings.Repeat(" ", r.IntN(2)) + "??")
			eol()
		case ref.Wild:
			fmt.Fprintf(&b, "__%d__", n.N)
		}
	}
	pr(n)
	return b.String()
}

// derive returns the surface words of a random instance of n; fill supplies
// the words for a wildcard (at most k).
func derive(r *rand.Rand, n *ref.Node, fill func(k int) []string) []string {
	switch n.Op {
	case ref.Words:
		return append([]string(nil), n.W...)
	case ref.Concat:
		var out []string
		for _, x := range n.Sub {
			out = append(out, derive(r, x, fill)...)
		}
		return out
	case ref.Alt:
		return derive(r, pick(r, n.Sub), fill)
	case ref.Quest:
		if r.IntN(2) == 0 {
			return nil
		}
		return derive(r, n.Sub[0], fill)
	case ref.Wild:
		return fill(n.N)
	}
	return nil
}

// fillForeign fills wildcards with 0, N or any number of foreign words.
func fillForeign(r *rand.Rand) func(int) []string {
	return func(k int) []string {
		if k > 40 {
			k = 40
		}
		switch r.IntN(4) {
		case 0:
			return nil
		case 1:
			return foreignN(r, k)
		}
		return foreignN(r, r.IntN(k+1))
	}
}

// minWords and maxWords bound the length of instances.
func countWords(n *ref.Node) int {
	t := len(n.W)
	for _, x := range n.Sub {
		t += countWords(x)
	}
	return t
}

// ---- texts ----

// safeSeps separate words in a text without adding or changing words.
var safeSeps = []string{" ", " ", " ", "\n", "  ", ", ", ". ", "\t", " - ", "; ", "\r\n", " \"", "\" ", ": ", "\n\n", "\n * ", "\n// ", "\n# ", "\n-- ", " — ", ",\n", "\n;; ", "\n> ", " | ", " ** ", "_ _", "\u00a0", "\n\t\t", "...", "\n\n\n", " / ", "!\n", "?", "=", "~", "+", "' ", "\v", "\f", "\u2028", "\u3000", "»", "。"}

// hostileSeps may contain anything, including markup and broken bytes.
var hostileSeps = append([]string{"<b>", "</p>", "<br/>\n", "<a href=\"x y\">", "<x\n\n\n>", "<", ">", "&nbsp;", "&#160;", "&#xA0;", "&amp", "&#;", "&", "{#top}", "{#", "}", "](http://e.org/x)", "](#a)", "](mailto:x@y)", "](", ")", "(", "(s)", "\xff", "\xc3", "\xe2\x80", "\x00", "\x80\n", "", "(c)", "©", "/", "//", "((", "))", "__3__", "\u0301 ", "\u0300", "\ufeff", "\ufffd", "<me@x.org>", "<http://x.org/a>"}, safeSeps...)

func join(r *rand.Rand, ws []string, seps []string) string {
	var b strings.Builder
	for i, w := range ws {
		if i > 0 {
			b.WriteString(pick(r, seps))
		}
		b.WriteString(w)
	}
	return b.String()
}

const letters = "abcdefghijklmnopqrstuvwxyz"

// editByte makes one random byte edit in an ASCII word.
func editByte(r *rand.Rand, w string) string {
	i := r.IntN(len(w) + 1)
	c := string(letters[r.IntN(26)])
	switch r.IntN(3) {
	case 0:
		return w[:i] + c + w[i:]
	case 1:
		if i == len(w) {
			i--
		}
		return w[:i] + w[i+1:]
	}
	if i == len(w) {
		i--
	}
	return w[:i] + c + w[i+1:]
}

// mutateWords makes one random word-level change.
func mutateWords(r *rand.Rand, ws []string, voc func(*rand.Rand) string) []string {
	if len(ws) == 0 {
		return ws
	}
	out := append([]string(nil), ws...)
	i := r.IntN(len(out))
	switch r.IntN(9) {
	case 0: // drop
		return append(out[:i], out[i+1:]...)
	case 1: // repeat
		return append(out[:i+1], append([]string{out[i]}, out[i+1:]...)...)
	case 2: // swap
		if i+1 < len(out) {
			out[i], out[i+1] = out[i+1], out[i]
		}
	case 3: // replace
		out[i] = voc(r)
	case 4: // insert
		return append(out[:i], append([]string{voc(r)}, out[i:]...)...)
	case 5: // typo
		if out[i] != "" {
			out[i] = editByte(r, out[i])
		}
	case 6: // two typos
		if len(out[i]) > 2 {
			out[i] = editByte(r, editByte(r, out[i]))
		}
	case 7: // fuse
		if i+1 < len(out) {
			out[i] += out[i+1]
			return append(out[:i+1], out[i+2:]...)
		}
	case 8: // break
		if len(out[i]) > 1 {
			k := 1 + r.IntN(len(out[i])-1)
			for k < len(out[i]) && !utf8.RuneStart(out[i][k]) {
				k++
			}
			return append(out[:i], append([]string{out[i][:k], out[i][k:]}, out[i+1:]...)...)
		}
	}
	return out
}

// mutateBytes makes n random byte-level changes.
func mutateBytes(r *rand.Rand, t []byte, n int) []byte {
	out := append([]byte(nil), t...)
	for ; n > 0; n-- {
		i := r.IntN(len(out) + 1)
		switch r.IntN(5) {
		case 0:
			if i < len(out) {
				out = append(out[:i], out[i+1:]...)
			}
		case 1:
			out = append(out[:i], append([]byte{byte(r.IntN(256))}, out[i:]...)...)
		case 2:
			out = append(out[:i], append([]byte(pick(r, hostileSeps)), out[i:]...)...)
		case 3:
			if i < len(out) {
				out[i] = byte(r.IntN(256))
			}
		case 4:
			if i < len(out) && r.IntN(3) == 0 {
				out = out[:i]
			}
		}
	}
	return out
}

// ---- URLs ----

var urlHosts = []string{"example.org", "opensource.org", "a.b-c.com", "creativecommons.org", "x_y.com", "www.gnu.org", "1.org"}
var urlSegs = []string{"licenses", "mit", "by", "3.0", "us", "license.txt", "a_b-c", "lic.php?id=3", "x#top", "q=1", "agpl-3.0.html"}

const urlChars = "-abcdefghijklmnopqrstuvwxyz0123456789_.#?="

// urlSeg makes a path element of a URL: any characters a URL may have.
func urlSeg(r *rand.Rand) string {
	if r.IntN(4) != 0 {
		return pick(r, urlSegs)
	}
	b := make([]byte, 1+r.IntN(6))
	for i := range b {
		b[i] = urlChars[r.IntN(len(urlChars))]
		if r.IntN(4) == 0 {
			b[i] = "-_.#?="[r.IntN(6)]
		}
	}
	return string(b)
}

func urlHost(r *rand.Rand) string {
	if r.IntN(6) != 0 {
		return pick(r, urlHosts)
	}
	b := make([]byte, 1+r.IntN(8))
	for i := range b {
		b[i] = urlChars[r.IntN(len(urlChars)-3)]
	}
	return string(b) + pick(r, []string{".org", ".com"})
}

// genURL makes a canonical license URL (lower case, no scheme, no final slash).
func genURL(r *rand.Rand) string {
	u := urlHost(r)
	n := 1 + r.IntN(3)
	if r.IntN(6) == 0 {
		n += r.IntN(6)
	}
	for ; n > 0; n-- {
		u += "/" + urlSeg(r)
	}
	return u
}

// spellURL writes a canonical URL in one of its equivalent spellings.
func spellURL(r *rand.Rand, u string) string {
	s := pick(r, []string{"http://", "https://", "http://", "https://", "HTTP://", "Https://"}) + u
	switch r.IntN(6) {
	case 0:
		s += "/"
	case 1:
		s += "/legalcode"
	case 2:
		s += "/legalcode/"
	case 3:
		s += "/" + urlSeg(r)
	case 4:
		s += "/" + urlSeg(r) + "/"
	}
	if r.IntN(3) == 0 {
		s = recase(r, s)
	}
	return s
}

// badURL writes something close to a URL of the set that need not be one.
func badURL(r *rand.Rand, u string) string {
	s := pick(r, []string{"http://", "https://", "http:/", "http:", "ftp://", "http//", "xhttp://", "http:///", "https://www.", ""}) + u
	switch r.IntN(8) {
	case 0:
		s = s[:len(s)-1]
	case 1:
		s += "x"
	case 2:
		s += "/a/b"
	case 3:
		s += "//"
	case 4:
		s = strings.Replace(s, ".org", ".net", 1)
	case 5:
		s += "."
	case 6:
		s = string(mutateBytes(r, []byte(s), 1))
	}
	return s
}
