package main

import (
	"fmt"
	"math"
	"strings"

	lc "github.com/google/licensecheck"
)

// The documented flags, weakest first.
var (
	ladder   = []lc.Type{lc.Unrestricted, lc.Notice, lc.ShareChanges, lc.ShareProgram, lc.ShareServer}
	allFlags = append(append([]lc.Type{}, ladder...), lc.NonCommercial, lc.Discouraged)
	names    = []string{"Unrestricted", "Notice", "ShareChanges", "ShareProgram", "ShareServer", "NonCommercial", "Discouraged"}
)

func combo(i int) lc.Type {
	var t lc.Type
	for k, f := range allFlags {
		if i>>k&1 != 0 {
			t |= f
		}
	}
	return t
}

// refMerge is the documentation of Merge, read literally.
func refMerge(t, u lc.Type) lc.Type {
	if t == lc.Unknown || u == lc.Unknown {
		return lc.Unknown
	}
	var m lc.Type
	for _, f := range ladder {
		if t&f != 0 || u&f != 0 {
			m = f
		}
	}
	for _, f := range []lc.Type{lc.NonCommercial, lc.Discouraged} {
		if t&f != 0 || u&f != 0 {
			m |= f
		}
	}
	if m&lc.NonCommercial != 0 && m&lc.Unrestricted != 0 {
		m -= lc.Unrestricted
	}
	return m
}

func tname(t lc.Type) string { return fmt.Sprintf("%#x", uint(t)) }

func init() {
	register(&Check{ID: "C24", Needs: []string{"pairs", "triples", "pairs with Unknown"}, Run: func(c *Ctx) {
		c.Rule("exhaustive: all 128x128 pairs of documented flag combinations against a table-free restatement of the documentation, then all 128^3 triples for associativity; a pair is non-trivial always")
		c.exhaust = true
		c.Each("pairs", 128, func(w *W) {
			t := combo(w.Case)
			for j := 0; j < 128; j++ {
				u := combo(j)
				got, want := t.Merge(u), refMerge(t, u)
				w.Inc("pairs", 1)
				w.Note(true, tname(t), tname(u))
				if t == 0 || u == 0 {
					w.Inc("pairs with Unknown", 1)
				}
				if t&lc.Unrestricted != 0 && u&lc.NonCommercial != 0 {
					w.Inc("pairs that drop Unrestricted", 1)
				}
				if got != want {
					w.Fail(Violation{Kind: "wrong merge", Message: fmt.Sprintf("(%v).Merge(%v)", t, u), Want: want.String(), Got: got.String()})
				}
				if rev := u.Merge(t); rev != got {
					w.Fail(Violation{Kind: "not commutative", Message: fmt.Sprintf("%v and %v", t, u), Want: got.String(), Got: rev.String()})
				}
				// A second call gives the same (no hidden state).
				if again := t.Merge(u); again != got {
					w.Fail(Violation{Kind: "not a function", Message: fmt.Sprintf("(%v).Merge(%v)", t, u), Want: got.String(), Got: again.String()})
				}
			}
		})
		c.Each("triples", 128, func(w *W) {
			a := combo(w.Case)
			for j := 0; j < 128; j++ {
				b := combo(j)
				ab := a.Merge(b)
				for k := 0; k < 128; k++ {
					x := combo(k)
					l, r := ab.Merge(x), a.Merge(b.Merge(x))
					if l != r {
						w.Fail(Violation{Kind: "not associative", Message: fmt.Sprintf("%v, %v, %v", a, b, x), Want: l.String(), Got: r.String()})
					}
				}
				w.Inc("triples", 128)
			}
		})
		c.Sample("pairs", "(Notice|NonCommercial).Merge(Unrestricted|Discouraged) = "+(lc.Notice|lc.NonCommercial).Merge(lc.Unrestricted|lc.Discouraged).String())
	}})

	register(&Check{ID: "C25", Needs: []string{"values", "malformed strings", "values with undefined bits"}, Run: func(c *Ctx) {
		c.Rule("all 65536 values of the low 16 bits, all values with one or two bits anywhere, random 64-bit values: String against an independent renderer, ParseType(String) back to the value; malformed strings: every well-formed form with one part damaged")
		check := func(w *W, t lc.Type) {
			w.Note(true, tname(t))
			w.Inc("values", 1)
			var parts []string
			rest := t
			for k, f := range allFlags {
				if t&f != 0 {
					parts = append(parts, names[k])
					rest &^= f
				}
			}
			if rest != 0 {
				parts = append(parts, fmt.Sprintf("Type(0x%x)", uint(rest)))
				w.Inc("values with undefined bits", 1)
			}
			want := strings.Join(parts, "|")
			if t == 0 {
				want = "Unknown"
			}
			s := t.String()
			if s != want {
				w.Fail(Violation{Kind: "wrong text form", Message: tname(t), Want: want, Got: s})
			}
			u, err := lc.ParseType(s)
			if err != nil || u != t {
				w.Fail(Violation{Kind: "text form does not parse back", Message: fmt.Sprintf("%s = %q: got %#x, %v", tname(t), s, uint(u), err)})
			}
		}
		c.Each("low bits", 256, func(w *W) {
			for j := 0; j < 256; j++ {
				check(w, lc.Type(w.Case<<8|j))
			}
		})
		c.Each("bit pairs", 64, func(w *W) {
			for j := 0; j < 64; j++ {
				check(w, lc.Type(1)<<w.Case|lc.Type(1)<<j)
				check(w, ^(lc.Type(1)<<w.Case | lc.Type(1)<<j))
			}
			check(w, lc.Type(math.MaxUint))
		})
		c.Each("random values", c.N(2000, 100000), func(w *W) {
			for j := 0; j < 50; j++ {
				t := lc.Type(w.R.Uint64() >> w.R.IntN(64))
				if w.R.IntN(2) == 0 {
					t |= combo(w.R.IntN(128))
				}
				check(w, t)
			}
		})
		bad := func(w *W, s string) {
			w.Note(true, "bad", s)
			w.Inc("malformed strings", 1)
			t, err := lc.ParseType(s)
			if err == nil {
				w.Fail(Violation{Kind: "malformed text accepted", Message: fmt.Sprintf("ParseType(%q) = %v", s, t)})
			} else if t != 0 {
				w.Fail(Violation{Kind: "error with non-zero result", Message: fmt.Sprintf("ParseType(%q) = %v, %v", s, t, err)})
			}
		}
		broken := []string{"", " ", "notice", "NOTICE", "unknown", "UNKNOWN", " Notice", "Notice ", "Notices", "Notic", "Foo", "Type", "Type(", "Type()", "Type)", "Type(zz)", "Type(0x)", "Type(0xg)", "Type(-1)", "Type(1", "type(0x1)", "TYPE(0x1)", "Type(0x1))", "(Type(0x1)", "xType(0x1)", "Type(0x1)x", "Type( 0x1)", "Type(0x10000000000000000)", "Type(99999999999999999999)", "Type(1.5)", "Notice,Discouraged", "Notice+Discouraged", "Notice Discouraged", "Notice\x00", "Notice\n", "0", "1", "0x2", "Nonćommercial", "noncommercial", "Noncommercial", "Sharechanges", "shareServer", "discouraged", "unrestricted", "Type(0x1)Type(0x2)", "Type(0x__1)", "Type(1__0)", "Type(1_)", "Type(_1)", "Type(0x1_)", "Type(0x1 )", "Type(+1)", "Type(0x1,0x2)", "Type(0x-1)", "Type(0xx1)", "Type(0X)", "Type(1x)", "Type(0b2)", "Type(0o8)", "Type(08)", "Type(x1)", "Type(ff)", "Type(1e1)", "Type(0x1p1)", "Type((1))", "Type(\t1)", "Type(1\n)", "Type(１)", "Type(Notice)", "Type0x1", "Type[0x1]", "Type(0x1", "0x1)", "Notice/", "/Notice", "\ufeffNotice", "Notice\u200b", "Nοtice", "UNRESTRICTED", "Share", "ShareChange", "ShareChangesShareProgram", "NoticeNotice", "Unknown ", "Unknow", "Unknown0", "nil", "<nil>", "\xff"}
		c.Each("malformed", len(broken), func(w *W) {
			b := broken[w.Case]
			bad(w, b)
			for i := 0; i < 128; i++ {
				s := combo(i).String()
				parts := strings.Split(s, "|")
				for k := 0; k <= len(parts); k++ {
					x := append(append(append([]string{}, parts[:k]...), b), parts[k:]...)
					bad(w, strings.Join(x, "|"))
				}
			}
		})
		// Parts in any order, repeated, are a set.
		c.Each("order", c.N(500, 20000), func(w *W) {
			var t lc.Type
			var parts []string
			for n := 1 + w.R.IntN(5); n > 0; n-- {
				k := w.R.IntN(len(allFlags))
				t |= allFlags[k]
				parts = append(parts, names[k])
			}
			s := strings.Join(parts, "|")
			w.Note(true, s)
			w.Inc("reordered strings", 1)
			if u, err := lc.ParseType(s); err == nil && u != t {
				w.Fail(Violation{Kind: "wrong value", Message: fmt.Sprintf("ParseType(%q) = %v, want %v", s, u, t)})
			}
		})
		c.Sample("values", fmt.Sprintf("%v | %v", lc.Type(0x8001), lc.Type(math.MaxUint)))
		c.Sample("malformed", "Notice||Discouraged")
	}})
}
