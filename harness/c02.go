package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"

	lc "github.com/google/licensecheck"
)

// A guarded is a writable mapping with an inaccessible page on either side.
type guarded struct {
	all  []byte
	mem  []byte // the usable pages
	prot int
}

const page = 4096

func newGuarded(n int) (*guarded, error) {
	pages := (n+page-1)/page + 1
	all, err := syscall.Mmap(-1, 0, (pages+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return nil, err
	}
	g := &guarded{all: all, mem: all[page : (pages+1)*page]}
	if err := syscall.Mprotect(all[:page], syscall.PROT_NONE); err != nil {
		return nil, err
	}
	if err := syscall.Mprotect(all[(pages+1)*page:], syscall.PROT_NONE); err != nil {
		return nil, err
	}
	return g, nil
}

func (g *guarded) readonly(on bool) error {
	p := syscall.PROT_READ | syscall.PROT_WRITE
	if on {
		p = syscall.PROT_READ
	}
	return syscall.Mprotect(g.mem, p)
}

func (g *guarded) free() { syscall.Munmap(g.all) }

func init() {
	register(&Check{ID: "C02", Needs: []string{"guarded scans", "slack scans", "results re-read", "buffers changed after the scan", "license matches", "URL matches", "concurrent re-reads", "large texts"}, Run: func(c *Ctx) {
		c.Rule("texts are scanned in memory between two inaccessible pages and mapped read-only, once touching the upper and once the lower guard page (any stray access faults); in slices with spare capacity holding bytes that would change the result; and in sequences that scan, overwrite the buffer or returned lists, and scan again, with every returned Coverage re-read after each step. Non-trivial: a text with at least one match")
		b := builtin(c)
		if b == nil {
			return
		}
		cp := corpus()
		prof := hostileProfile()
		prof.Bytes = 2
		// source yields a text for a scanner.
		world := func(w *W) (*lc.Scanner, func() []byte) {
			if w.R.IntN(2) == 0 {
				return b.S, func() []byte {
					switch w.R.IntN(4) {
					case 0:
						return []byte(hostileText(w.R, 1+w.R.IntN(15)))
					case 1:
						return mutateBytes(w.R, pick(w.R, cp), 1+w.R.IntN(4))
					case 2:
						t := pick(w.R, cp)
						return append([]byte(nil), t[:w.R.IntN(len(t)+1)]...)
					}
					return append([]byte(nil), pick(w.R, cp)...)
				}
			}
			x := newWorld(w.R, &prof)
			if !x.scanner(w) {
				return nil, nil
			}
			return x.S, func() []byte { return x.text(w.R) }
		}
		note := func(w *W, cov lc.Coverage, t []byte) {
			for _, m := range cov.Match {
				if m.IsURL {
					w.Inc("URL matches", 1)
				} else {
					w.Inc("license matches", 1)
				}
			}
			w.Note(len(cov.Match) > 0, string(t))
		}
		c.Each("guard pages", c.N(700, 20000), func(w *W) {
			s, gen := world(w)
			if s == nil {
				return
			}
			debug.SetPanicOnFault(true)
			for k := 0; k < 3; k++ {
				t := gen()
				want := s.Scan(append([]byte(nil), t...))
				note(w, want, t)
				g, err := newGuarded(len(t))
				if err != nil {
					w.Problem("mmap: %v", err)
					return
				}
				for _, high := range []bool{true, false} {
					buf := g.mem[:len(t):len(t)]
					if high {
						buf = g.mem[len(g.mem)-len(t):]
					}
					copy(buf, t)
					if err := g.readonly(true); err != nil {
						w.Problem("mprotect: %v", err)
						return
					}
					got, fault := guardedScan(s, buf)
					g.readonly(false)
					w.Inc("guarded scans", 1)
					if fault != "" {
						w.FailText("access outside or write to the input", nil, t, "high=%v: %s", high, fault)
						continue
					}
					if !sameCov(got, want) {
						w.FailText("result depends on where the input lies", nil, t, "got %s want %s", show(got.Match, got.Percent), show(want.Match, want.Percent))
					}
				}
				g.free()
				// Slack behind the slice that continues the text.
				tail := append([]byte(" "), gen()...)
				full := append(append([]byte(nil), t...), tail...)
				before := append([]byte(nil), full...)
				got := s.Scan(full[:len(t)])
				w.Inc("slack scans", 1)
				if !sameCov(got, want) {
					w.FailText("reads the spare capacity behind the input", nil, t, "with slack %q: got %s want %s", clip(string(tail), 200), show(got.Match, got.Percent), show(want.Match, want.Percent))
				}
				if !bytes.Equal(full, before) {
					i := 0
					for full[i] == before[i] {
						i++
					}
					w.FailText("writes to the input or the spare capacity behind it", nil, t, "byte %d of %d changed from %q to %q", i, len(t), before[i], full[i])
				}
				// A cut in the middle: the rest of the same license is the slack.
				if len(t) > 2 {
					n := 1 + w.R.IntN(len(t)-1)
					a := s.Scan(t[:n])
					bb := s.Scan(append(make([]byte, 0, n), t[:n]...))
					w.Inc("slack scans", 1)
					if !sameCov(a, bb) {
						w.FailText("reads the spare capacity behind the input", nil, t, "cut at %d: got %s want %s", n, show(a.Match, a.Percent), show(bb.Match, bb.Percent))
					}
				}
			}
		})
		// Sequences on one buffer.
		c.Each("reused buffer", c.N(500, 10000), func(w *W) {
			s, gen := world(w)
			if s == nil {
				return
			}
			pkg := s == b.S && w.R.IntN(2) == 0
			scan := func(t []byte) lc.Coverage {
				if pkg {
					return lc.Scan(t)
				}
				return s.Scan(t)
			}
			var texts [][]byte
			n := 0
			for i := 0; i < 5; i++ {
				t := gen()
				texts = append(texts, t)
				n = max(n, len(t))
			}
			// Same-length variants: pad with spaces.
			for i, t := range texts {
				if w.R.IntN(2) == 0 {
					texts[i] = append(t, bytes.Repeat([]byte(" "), n-len(t))...)
				}
			}
			buf := make([]byte, n)
			type kept struct {
				live, snap lc.Coverage
				text       []byte
			}
			var all []kept
			reread := func(step int) {
				for i := range all {
					k := &all[i]
					w.Inc("results re-read", 1)
					if !sameCov(k.live, k.snap) {
						w.FailText("an earlier result changed", nil, k.text, "result %d read again after step %d: now %s, was %s", i, step, show(k.live.Match, k.live.Percent), show(k.snap.Match, k.snap.Percent))
						k.live = cloneCov(k.snap)
					}
				}
			}
			ref := map[string]lc.Coverage{}
			for _, t := range texts {
				ref[string(t)] = cloneCov(scan(append([]byte(nil), t...)))
			}
			for step := 0; step < 10; step++ {
				t := pick(w.R, texts)
				copy(buf, t)
				in := buf[:len(t)]
				cov := scan(in)
				note(w, cov, t)
				if !bytes.Equal(in, t) {
					w.FailText("writes to the input", nil, t, "buffer changed by Scan")
				}
				if want := ref[string(t)]; !sameCov(cov, want) {
					w.FailText("result depends on what the buffer held before", nil, t, "step %d: got %s want %s", step, show(cov.Match, cov.Percent), show(want.Match, want.Percent))
				}
				all = append(all, kept{cov, cloneCov(cov), append([]byte(nil), t...)})
				switch w.R.IntN(4) {
				case 0: // overwrite the buffer
					for i := range buf {
						buf[i] = 'x'
					}
					w.Inc("buffers changed after the scan", 1)
				case 1: // change the buffer in place and scan it as it is
					if len(in) > 0 {
						for k := 1 + w.R.IntN(20); k > 0; k-- {
							in[w.R.IntN(len(in))] = byte("x \n"[w.R.IntN(3)])
						}
						w.Inc("buffers changed after the scan", 1)
						now := append([]byte(nil), in...)
						got := scan(in)
						want := scan(now)
						if !sameCov(got, want) {
							w.FailText("result depends on what the buffer held before", nil, now, "changed in place: got %s want %s", show(got.Match, got.Percent), show(want.Match, want.Percent))
						}
						all = append(all, kept{got, cloneCov(got), now})
					}
				case 2: // change and extend a returned list
					k := &all[w.R.IntN(len(all))]
					full := k.live.Match[:cap(k.live.Match)]
					for i := range full {
						full[i] = lc.Match{ID: "scribble", Start: -1, End: -2}
					}
					_ = append(k.live.Match, lc.Match{ID: "scribble"})
					k.live = cloneCov(k.snap)
					w.Inc("returned lists overwritten", 1)
				}
				reread(step)
			}
			runtime.KeepAlive(buf)
		})
		// Large texts: the same text again after its first result was
		// overwritten, a text of the same length, and the guard pages.
		c.Each("large texts", c.N(48, 600), func(w *W) {
			s, gen := world(w)
			if s == nil {
				return
			}
			scan := s.Scan
			if s == b.S && w.R.IntN(2) == 0 {
				scan = lc.Scan
			}
			n := []int{3000, 9000, 20000, 40000, 70000, 140000, 300000, 700000, 1100000, 2200000}[w.Case%10]
			if w.Case%10 > 7 && !c.Thorough() && w.Case >= 20 {
				n = 66000
			}
			var buf bytes.Buffer
			for k := 0; buf.Len() < n; k++ {
				if t := gen(); len(t) < n {
					buf.Write(t)
				}
				if k%2 == 0 {
					buf.Write(filler(w, 1+w.R.IntN(60)))
				}
				buf.WriteString("\n")
			}
			t := buf.Bytes()
			w.Inc("large texts", 1)
			w.Inc("large bytes", len(t))
			orig := append([]byte(nil), t...)
			first := scan(t)
			want := cloneCov(first)
			note(w, want, t)
			check := func(kind string, got lc.Coverage, want lc.Coverage) {
				if !sameCov(got, want) {
					w.FailText(kind, nil, orig, "%d bytes: got %s want %s", len(orig), show(got.Match, got.Percent), show(want.Match, want.Percent))
				}
			}
			scribble := func(c lc.Coverage) {
				m := c.Match[:cap(c.Match)]
				for i := range m {
					m[i] = lc.Match{ID: "scribble", Start: -1, End: -2}
				}
				w.Inc("returned lists overwritten", 1)
			}
			second := scan(append([]byte(nil), t...))
			check("scanning again gives another result", second, want)
			scribble(first)
			check("an earlier result changed", second, want)
			third := scan(t)
			check("result shares memory with an earlier one", third, want)
			// The same length, changed in place.
			for k := 0; k < 40; k++ {
				i := w.R.IntN(len(t))
				copy(t[i:min(len(t), i+200)], bytes.Repeat([]byte("zq "), 70))
			}
			now := append([]byte(nil), t...)
			changed := scan(t)
			fresh := scan(append([]byte(nil), now...))
			w.Inc("buffers changed after the scan", 1)
			check("result depends on what the buffer held before", changed, fresh)
			if !bytes.Equal(t, now) {
				w.FailText("writes to the input", nil, now, "")
			}
			check("an earlier result changed", third, want)
			g, err := newGuarded(len(orig))
			if err != nil {
				w.Problem("mmap: %v", err)
				return
			}
			defer g.free()
			in := g.mem[len(g.mem)-len(orig):]
			copy(in, orig)
			g.readonly(true)
			debug.SetPanicOnFault(true)
			got, fault := guardedScan(s, in)
			w.Inc("guarded scans", 1)
			g.readonly(false)
			if fault != "" {
				w.FailText("access outside or write to the input", nil, orig, "%s", fault)
				return
			}
			check("result depends on where the input lies", got, want)
		})
		// Goroutines that hold on to results while others scan.
		c.Serial("concurrent results", c.N(6, 60), func(w *W) {
			type out struct {
				msg  string
				text []byte
			}
			ch := make(chan out, 8)
			for g := 0; g < 8; g++ {
				r := w.rng("concurrent results", w.Case*100+g)
				go func() {
					var bad out
					var live, snap []lc.Coverage
					var ts [][]byte
					for i := 0; i < 60; i++ {
						t := append([]byte(nil), pick(r, cp)...)
						cov := b.S.Scan(t)
						live, snap, ts = append(live, cov), append(snap, cloneCov(cov)), append(ts, append([]byte(nil), t...))
						for k := range t {
							t[k] = 0
						}
					}
					for i := range live {
						if !sameCov(live[i], snap[i]) {
							bad = out{fmt.Sprintf("now %s, was %s", show(live[i].Match, live[i].Percent), show(snap[i].Match, snap[i].Percent)), ts[i]}
						}
					}
					ch <- bad
				}()
			}
			for g := 0; g < 8; g++ {
				if o := <-ch; o.msg != "" {
					w.FailText("an earlier result changed", nil, o.text, "%s", o.msg)
				}
				w.Inc("concurrent re-reads", 60)
			}
			w.Note(true, fmt.Sprint(w.Case))
		})
		c.Sample("guard pages", "text in read-only pages, last byte against PROT_NONE page; then first byte against PROT_NONE page")
	}})
}

// guardedScan scans buf and reports a memory fault instead of dying.
func guardedScan(s *lc.Scanner, buf []byte) (cov lc.Coverage, fault string) {
	defer func() {
		if e := recover(); e != nil {
			fault = fmt.Sprint(e) + "\n" + clip(string(debug.Stack()), 3000)
		}
	}()
	cov = s.Scan(buf)
	// Read the result: it must not live in the guarded pages either.
	cov = cloneCov(cov)
	return cov, ""
}
