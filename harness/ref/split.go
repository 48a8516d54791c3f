// Package ref is an executable specification of licensecheck's documented
// behaviour, written separately from the code under test and sharing no code
// with it. It favours obviousness over speed: word splitting works on a list
// of decoded runes, patterns become syntax trees walked as an NFA, and no DFA
// or precomputed table is used.
package ref

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// A Word is one normalized word of a text.
type Word struct {
	S      string // canonical form
	Raw    string // case-folded source text (what spelling correction looks at)
	Lo, Hi int    // byte range in the text
	Kind   string // how it arose: "", "copy" (© or (c) or &copy;), "plural" (word(s)), "canon" (rewritten)
}

// Stats counts the features seen while splitting.
type Stats struct {
	Tags, Entities, Anchors, Links, Plurals, CopySigns, Rewrites, MergedCopyright, BadUTF8 int
}

var canon = map[string]string{
	"https": "http",
	"are":   "is",
	"them":  "it", "they": "it",
	"these": "the", "this": "the", "those": "the",
	"copies": "copy",
	"©":      "copyright",
}

// FoldRune returns the case- and accent-folded form of r, or -1 to drop it.
func FoldRune(r rune) rune {
	switch r {
	case '(', ')', 0x300, 0x301:
		return -1
	}
	least := r
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		if x < least {
			least = x
		}
	}
	switch least {
	case 0xC0, 0xC1:
		return 'a'
	case 0xC8, 0xC9:
		return 'e'
	case 0xCC, 0xCD:
		return 'i'
	case 0xD2, 0xD3:
		return 'o'
	case 0xD9, 0xDA:
		return 'u'
	}
	if least >= 'A' && least <= 'Z' {
		return least + 32
	}
	return least
}

// Fold folds a whole string.
func Fold(s string) string {
	var b strings.Builder
	for _, r := range s {
		if f := FoldRune(r); f >= 0 {
			b.WriteRune(f)
		}
	}
	return b.String()
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }
func hex(c byte) bool    { return digit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

// wordStart and wordPart define word characters.
func wordStart(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '©' }
func wordPart(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r)
}

// tagLen: an HTML tag is <, optional /, a letter, then anything without < up
// to >, on at most three lines. Before the first white space an @ or a :/ means that
// it is an e-mail address or URL in angle brackets, which is text.
func tagLen(t string) int {
	body := strings.TrimPrefix(t[1:], "/")
	if body == "" || !letter(body[0]) || len(t) < 3 {
		return 0
	}
	end := -1
	for i := 1; i < len(t); i++ {
		if t[i] == '<' {
			return 0
		}
		if t[i] == '>' {
			end = i
			break
		}
	}
	if end < 0 {
		return 0
	}
	inner := t[1:end]
	breaks := 0
	for i := 0; i < len(inner); i++ {
		if inner[i] == '\n' || inner[i] == '\r' && t[2+i] != '\n' {
			breaks++ // CRLF counts once
		}
	}
	if breaks > 2 {
		return 0
	}
	head := inner
	if i := strings.IndexAny(inner, " \t\r\n"); i >= 0 {
		head = inner[:i]
	}
	if strings.Contains(head, "@") || strings.Contains(head, ":/") {
		return 0
	}
	return end + 1
}

// entityLen: &name; &#123; &#x1F;
func entityLen(t string) int {
	class, i := letter, 1
	if strings.HasPrefix(t, "&#x") {
		class, i = hex, 3
	} else if strings.HasPrefix(t, "&#") {
		class, i = digit, 2
	}
	j := i
	for j < len(t) && class(t[j]) {
		j++
	}
	if j == i || j >= len(t) || t[j] != ';' {
		return 0
	}
	return j + 1
}

// anchorLen: {#name} without spaces or line breaks.
func anchorLen(t string) int {
	if !strings.HasPrefix(t, "{#") {
		return 0
	}
	j := strings.IndexAny(t[2:], "} \r\n")
	if j < 0 || t[2+j] != '}' {
		return 0
	}
	return 2 + j + 1
}

// linkLen: ](target) for an http, https, mailto, file or # target without
// white space.
func linkLen(t string) int {
	if !strings.HasPrefix(t, "](") {
		return 0
	}
	u := t[2:]
	for _, p := range []string{"http://", "https://", "mailto:", "file:", "#"} {
		if strings.HasPrefix(u, p) {
			j := strings.IndexAny(u, ") \t\r\n")
			if j < 0 || u[j] != ')' {
				return 0
			}
			return 2 + j + 1
		}
	}
	return 0
}

// Split splits text into words. st may be nil.
func Split(text string, st *Stats) []Word {
	if st == nil {
		st = new(Stats)
	}
	var out []Word
	emit := func(w Word) {
		if w.S == "copyright" && len(out) > 0 && out[len(out)-1].S == "copyright" {
			st.MergedCopyright++
			return
		}
		out = append(out, w)
	}
	for pos := 0; pos < len(text); {
		t := text[pos:]
		switch t[0] {
		case '<':
			if n := tagLen(t); n > 0 {
				st.Tags++
				pos += n
				continue
			}
		case '{':
			if n := anchorLen(t); n > 0 {
				st.Anchors++
				pos += n
				continue
			}
		case ']':
			if n := linkLen(t); n > 0 {
				st.Links++
				pos += n
				continue
			}
		case '&':
			if n := entityLen(t); n > 0 {
				if t[:n] == "&copy;" {
					st.CopySigns++
					emit(Word{S: "copyright", Raw: Fold(t[:n]), Lo: pos, Hi: pos + n, Kind: "copy"})
				} else {
					st.Entities++
				}
				pos += n
				continue
			}
		}
		r, n := utf8.DecodeRuneInString(t)
		if r == utf8.RuneError && n == 1 {
			st.BadUTF8++
		}
		if !wordStart(r) {
			pos += n
			continue
		}
		end := pos + n
		kind := ""
		s := ""
		if r != '©' {
			for end < len(text) {
				r, n := utf8.DecodeRuneInString(text[end:])
				if !wordPart(r) {
					break
				}
				end += n
			}
			s = Fold(text[pos:end])
			if strings.HasPrefix(text[end:], "(s)") {
				s += "s"
				end += 3
				kind = "plural"
				st.Plurals++
			}
		} else {
			s = "©"
		}
		w := Word{S: s, Raw: Fold(text[pos:end]), Lo: pos, Hi: end, Kind: kind}
		pos = end
		if s == "c" && w.Lo > 0 && text[w.Lo-1] == '(' && w.Hi < len(text) && text[w.Hi] == ')' {
			w.Lo--
			w.Hi++
			w.S = "copyright"
			w.Kind = "copy"
			st.CopySigns++
		} else if c, ok := canon[s]; ok {
			w.S = c
			w.Kind = "canon"
			if s == "©" {
				w.Kind = "copy"
				st.CopySigns++
			} else {
				st.Rewrites++
			}
		}
		w.Raw = Fold(text[w.Lo:w.Hi])
		emit(w)
	}
	return out
}
