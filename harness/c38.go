package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"vh/ref"

	lc "github.com/google/licensecheck"
)

var errOffsetRE = regexp.MustCompile(`(?:offset |#)([0-9]+)`)

// A fault is a mistake in a pattern and where in it the error lies.
type fault struct {
	name string
	text string // put behind a complete line of words
	top  bool   // only outside groups
	last bool   // nothing may follow that could make it good
}

// The at sign marks the place of the error, if it is not the end.
var faults = []fault{
	{"(( within a line", " @((", false, false},
	{"(( within a line", "@((", false, false},
	{"(( behind a comment", " //** x **// @(( ", false, false},
	{"|| outside groups", " @|| ", true, false},
	{"|| outside groups", "\n@|| ", true, false},
	{")) without ((", "\n@))\n", true, false},
	{")) without ((", " @))\n", true, false},
	{")) without ((", " @))??\n", true, false},
	{")) before words", "\n@)) aaa", false, false},
	{")) before words", " @)),", false, false},
	{")) before words", " @))((", false, false},
	{")) before words", " @))? aaa", false, false},
	{"?? behind a word", " @??\n", false, false},
	{"?? behind a word", "@??\n", false, false},
	{"?? before words", "\n(( bbb ccc ))@?? ddd", false, false},
	{"?? before words", "\n(( bbb ))@?? ??", false, false},
	{"?? on the next line", "\n(( bbb ))\n@??\n", false, false},
	{"unreadable count", " @__99999999999999999999__ ", false, false},
	{"unreadable count", " @__2147483648__ ", false, false},
	{"unreadable count", "\n(( aaa @__4294967297__ ))\n", false, false},
	{"comment without end", " @//** aaa", false, true},
	{"comment without end", "\n@//**/ aaa", false, true},
	{"comment without end", " //** a **//\n@//** **/ bbb", false, true},
	{"group without end", "\n(( aaa bbb", false, true},
	{"group without end", "\n(( aaa ||\nbbb\n(( ccc\n))\n", false, true},
	{"group without end", "\n((\n((\n(( ccc ))??\n))\n", false, true},
}

// split returns the text of a fault and the offset of the error.
func (f fault) split() (string, int) {
	i := strings.IndexByte(f.text, '@')
	if i < 0 {
		return f.text, -1
	}
	return f.text[:i] + f.text[i+1:], i
}

func init() {
	register(&Check{ID: "C38", Needs: []string{"faults located", "faults inside groups", "faults behind other text", "faults in front of other faults", "faulty patterns behind good ones", "faulty patterns in front of faulty ones", "faults repaired", "contexts compared", "odd license names", "faults far behind"}, Run: func(c *Ctx) {
		for _, f := range faults {
			c.Count("fault: "+f.name, 0)
		}
		c.Rule("a valid random pattern (with comments, groups, options, several scripts and punctuation) is continued by one mistake of each kind at a place known by construction, then by more words and more mistakes; the pattern stands among valid and other faulty ones. The error must name the license of the first faulty pattern, the byte offset of the operator at fault and a piece of the pattern that ends there; without the mistake the list must be accepted. Non-trivial: offset beyond 0")
		c.Each("faults", c.N(12000, 400000), func(w *W) {
			p := defaultProfile()
			p.Voc = pick(w.R, []func(*randT) string{mixVoc(vocShort), mixVoc(vocLong), mixVoc(vocUni, vocShort), mixVoc(vocShort, vocSpecial)})
			p.PURLOnly, p.NLic = 0, [2]int{1, 3}
			x := newWorld(w.R, &p)
			if len(x.List) == 0 {
				return
			}
			f := faults[(w.Case+w.R.IntN(len(faults)))%len(faults)]
			seps := []string{" ", "\n", "\t", ", ", "\r\n", " - ", "  ", "' ", " — ", "/", ". "}
			good := pick(w.R, x.List).LRE
			if w.R.IntN(6) == 0 {
				good = ""
			}
			if good != "" {
				good = strings.TrimRight(good, " \t\r\n") + "\n"
			}
			open, closing := "", ""
			depth := 0
			if !f.top && w.R.IntN(2) == 0 {
				for depth = 1 + w.R.IntN(3); len(open) < 40*depth && strings.Count(open, "((") < depth; {
					open += pick(w.R, []string{"", "  ", "\t"}) + "(( " + join(w.R, foreignN(w.R, w.R.IntN(3)), seps)
					if w.R.IntN(2) == 0 {
						open += " || " + foreign(w.R)
					}
					open += "\n"
					closing += "\n))" + pick(w.R, []string{"", "??", " ??", " "}) + "\n"
				}
				w.Inc("faults inside groups", 1)
			}
			if w.R.IntN(12) == 0 { // far behind the beginning
				n := longLen(w.R, 600)
				switch w.R.IntN(3) {
				case 0:
					good += "aaa //**" + strings.Repeat(pick(w.R, []string{"x ", "((\n", "|| ", "é "}), 20*n*(1+w.R.IntN(20))) + " **// bbb\n"
				case 1:
					good += join(w.R, foreignN(w.R, 10*n), seps) + "\n"
				case 2:
					if !f.top {
						for i := 0; i < n; i++ {
							open += "((\n"
							closing += "\n))"
							depth++
						}
						closing += "\n"
					}
				}
				w.Inc("faults far behind", 1)
			}
			line := foreign(w.R) + " " + join(w.R, foreignN(w.R, 1+w.R.IntN(6)), seps)
			line = strings.TrimRight(line, " \t\r\n")
			head := good + open + line
			post := ""
			if !f.last {
				post = "\n" + join(w.R, foreignN(w.R, w.R.IntN(4)), seps)
				if w.R.IntN(2) == 0 {
					other, _ := pick(w.R, faults).split()
					post += "\n" + other
					w.Inc("faults in front of other faults", 1)
				}
			}
			text, off := f.split()
			bad := head + text + post
			want := len(head) + off
			if off < 0 {
				want = len(bad)
			}
			if good != "" || open != "" {
				w.Inc("faults behind other text", 1)
			}
			var list []lc.License
			for i, l := range x.List {
				if w.R.IntN(2) == 0 {
					l.ID = fmt.Sprintf("Fine%dq", i)
					list = append(list, l)
				}
			}
			if len(list) > 0 {
				w.Inc("faulty patterns behind good ones", 1)
			}
			at := len(list)
			id := "Wrong1q"
			if w.R.IntN(4) == 0 {
				id = pick(w.R, []string{"", "Wrong"}) + pick(w.R, oddIDs) + pick(w.R, []string{"", "1q"})
				w.Inc("odd license names", 1)
			}
			list = append(list, lc.License{ID: id, LRE: bad})
			for i, l := range x.List {
				l.ID = fmt.Sprintf("Later%dq", i)
				switch w.R.IntN(3) {
				case 0:
					list = append(list, l)
				case 1:
					other, _ := pick(w.R, faults[:20]).split()
					l.LRE += "\naaa " + other
					list = append(list, l)
					w.Inc("faulty patterns in front of faulty ones", 1)
				}
			}
			s, err := lc.NewScanner(list)
			w.Note(want > 0, bad)
			w.Inc("faults located", 1)
			w.Inc("fault: "+f.name, 1)
			w.Sample(f.name, fmt.Sprintf("%q: %v", clip(bad, 200), err))
			if err == nil || s != nil {
				w.FailText("malformed pattern accepted", list, nil, "%s at offset %d of %q: scanner %v, error %v", f.name, want, bad, s != nil, err)
				return
			}
			msg := err.Error()
			if !namesID(msg, id) || strings.Contains(msg, "Fine") || strings.Contains(msg, "Later") {
				w.FailText("error does not name the first faulty license", list, nil, "%s: %q", f.name, msg)
				return
			}
			msg2 := msg // what stands behind the ID
			if i := strings.Index(msg, id); i >= 0 {
				msg2 = msg[i+len(id):]
			}
			m := errOffsetRE.FindStringSubmatch(msg2)
			if m == nil {
				w.FailText("error without offset", list, nil, "%s at offset %d: %q", f.name, want, msg)
				return
			}
			if n, _ := strconv.Atoi(m[1]); n != want {
				w.FailText("error at another offset", list, nil, "%s at offset %d of %q: %q", f.name, want, bad, msg)
				return
			}
			// The context is what stands in front of the mistake.
			a, b := strings.IndexByte(msg2, '`'), strings.LastIndexByte(msg2, '`')
			if a >= 0 && a < b {
				w.Inc("contexts compared", 1)
				ctx := msg2[a+1 : b]
				if ctx == "" || !strings.HasSuffix(bad[:want], ctx) {
					w.FailText("error shows another place", list, nil, "%s at offset %d of %q: %q", f.name, want, bad, msg)
					return
				}
			} else if want > 0 {
				w.FailText("error shows no context", list, nil, "%s at offset %d of %q: %q", f.name, want, bad, msg)
				return
			}
			// The same list gives the same error, and without the mistakes a scanner.
			if _, err2 := lc.NewScanner(list); err2 == nil || err2.Error() != msg {
				w.FailText("another error for the same list", list, nil, "%q, at first %q", err2, msg)
				return
			}
			fixed := append([]lc.License(nil), list[:at+1]...)
			fixed[at].LRE = head + closing
			if good == "" && open != "" { // a pattern must begin with words of its own
				fixed[at].LRE = "bbb ccc\n" + fixed[at].LRE
			}
			if _, err := refSet(fixed); err != nil {
				return
			}
			if ways := wildProduct(mustParse(fixed[at].LRE)); ways > 20000 {
				return
			}
			w.Inc("faults repaired", 1)
			if s, err := lc.NewScanner(fixed); err != nil || s == nil {
				w.FailText("valid license set rejected", fixed, nil, "%v", err)
			}
		})
	}})
}

// namesID says whether an error message names id, as it is or quoted.
func namesID(msg, id string) bool {
	return strings.Contains(msg, id) || strings.Contains(msg, strings.Trim(strconv.Quote(id), "\"")) || strings.Contains(msg, strings.Trim(strconv.QuoteToASCII(id), "\""))
}

func mustParse(lre string) *ref.Node {
	n, err := ref.Parse(lre)
	if err != nil {
		return &ref.Node{Op: ref.Empty}
	}
	return n
}
