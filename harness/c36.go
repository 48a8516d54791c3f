package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	lc "github.com/google/licensecheck"
)

// outputs are the files that a converter has written below top.
func (d spdxDir) outputs() map[string]string {
	m := map[string]string{}
	for k, v := range tree(d.top) {
		if !strings.HasPrefix(k, "licenses/_") && k != "go.log" {
			m[k] = v
		}
	}
	return m
}

// of picks the files of one license.
func of(m map[string]string, id string) map[string]string {
	x := map[string]string{}
	for _, f := range []string{"licenses/" + id + ".lre", "testdata/" + id + ".t1", "testdata/licenses/" + id + ".txt"} {
		if v, ok := m[f]; ok {
			x[f] = v
		}
	}
	return x
}

func init() {
	register(&Check{ID: "C36", Needs: []string{"getspdx runs", "getcc runs", "gen_data runs", "licenses converted alone", "runs repeated with -f", "runs repeated without -f", "orders of arguments", "licenses in a larger database", "unrelated pattern files", "unused definitions", "entries compared"}, Run: func(c *Ctx) {
		c.Rule("the real getspdx, getcc and gen_data, built from the working tree, are run again and again on the same generated inputs in fresh scratch directories: all together, in another order, one by one, within a larger database, a second time with and without -f; for gen_data with unrelated files added. Files written must be equal byte by byte (entry by entry where an entry is added). Non-trivial: files were written")
		dir, bin := filepath.Join(c.Scratch, "src"), filepath.Join(c.Scratch, "bin")
		if err := copyRepo(dir); err != nil {
			c.Problem("scratch copy: %v", err)
			return
		}
		exe := map[string]string{}
		for _, t := range []string{"gen_data.go", "licenses/getspdx.go", "licenses/getcc.go"} {
			n := strings.TrimSuffix(filepath.Base(t), ".go")
			exe[n] = filepath.Join(c.Scratch, n+".exe")
			if err := buildTool(dir, t, exe[n]); err != nil {
				c.Problem("%v", err)
				return
			}
		}
		os.Mkdir(bin, 0o777)
		if err := os.WriteFile(filepath.Join(bin, "go"), []byte("#!/bin/sh\necho \"$PWD $*\" >>\"$STUB_LOG\"\n"), 0o777); err != nil {
			c.Problem("%v", err)
			return
		}
		// histories converts ids in several ways; put places the inputs of
		// some licenses in a directory.
		histories := func(w *W, tool string, ids []string, put func(d spdxDir, ids []string)) {
			e := &spdxEnv{exe: exe[tool], bin: bin}
			in := func(have []string, f func(d spdxDir) bool) bool {
				d, err := newSpdxDir(c)
				if err != nil {
					c.Problem("%v", err)
					return false
				}
				defer os.RemoveAll(d.top)
				put(d, have)
				return f(d)
			}
			run := func(d spdxDir, args ...string) bool {
				o := e.run(d, args...)
				w.Inc(tool+" runs", 1)
				if o.timeout {
					c.Problem("%s timed out", tool)
					return false
				}
				if o.err != nil {
					w.Fail(Violation{Kind: tool + " failed", Message: fmt.Sprintf("arguments %v: %v: %s", args, o.err, clip(o.out, 2000))})
					return false
				}
				return true
			}
			same := func(how string, got, want map[string]string) bool {
				d := treeDiff(want, got)
				if len(d) == 0 {
					return true
				}
				f := strings.Fields(d[0])[1]
				w.Fail(Violation{Kind: "output depends on the run", Message: fmt.Sprintf("%s, %s: %v", tool, how, d), Got: clip(got[f], 4000), Want: clip(want[f], 4000)})
				return false
			}
			var ref map[string]string
			ok := in(ids, func(d spdxDir) bool {
				if !run(d, ids...) {
					return false
				}
				ref = d.outputs()
				w.Note(len(ref) > 0, fmt.Sprint(ref))
				// Once more, with -f and without.
				w.Inc("runs repeated without -f", 1)
				if !run(d, ids...) || !same("run again without -f", d.outputs(), ref) {
					return false
				}
				w.Inc("runs repeated with -f", 1)
				if !run(d, append([]string{"-f"}, ids...)...) || !same("run again with -f", d.outputs(), ref) {
					return false
				}
				// Over longer and shorter files; hand-made tests stay.
				for f := range ref {
					if strings.HasSuffix(f, ".t1") {
						continue
					}
					os.WriteFile(d.path(f), []byte(strings.Repeat("older ", w.R.IntN(3000))), 0o666)
				}
				return run(d, append([]string{"-f"}, ids...)...) && same("run with -f over other files", d.outputs(), ref)
			})
			if !ok {
				return
			}
			perm := make([]string, len(ids))
			for i, j := range w.R.Perm(len(ids)) {
				perm[i] = ids[j]
			}
			w.Inc("orders of arguments", 1)
			if !in(ids, func(d spdxDir) bool { return run(d, perm...) && same("other order", d.outputs(), ref) }) {
				return
			}
			if tool == "getspdx" {
				if !in(ids, func(d spdxDir) bool { return run(d, "all") && same("all", d.outputs(), ref) }) {
					return
				}
			}
			one := pick(w.R, ids)
			w.Inc("licenses converted alone", 1)
			if !in([]string{one}, func(d spdxDir) bool { return run(d, one) && same(one+" alone", d.outputs(), of(ref, one)) }) {
				return
			}
			w.Inc("licenses in a larger database", 1)
			in(ids, func(d spdxDir) bool {
				return run(d, one) && same(one+" alone, others in the database", d.outputs(), of(ref, one))
			})
		}
		c.Each("getspdx", c.N(160, 5000), func(w *W) {
			type one struct {
				tmpl, text string
				see        []string
			}
			all := map[string]one{}
			var ids []string
			for i := 0; i < 5; i++ {
				g := &spdxGen{w: w, u: newUnique(w.R), hard: w.Case%2 == 0, uni: w.Case%3 == 0}
				front, body := g.license()
				var t, b strings.Builder
				ns := append(append([]*spdxNode{}, front...), body...)
				spdxTemplate(&t, ns)
				spdxText(&b, ns, func(int) bool { return false }, nil, "")
				id := fmt.Sprintf("Q%d-1.%d", i, w.R.IntN(9)) + pick(w.R, []string{"", "", "-only", "-with-Long-Name-Exception"})
				o := one{tmpl: t.String(), text: b.String()}
				if w.R.IntN(2) == 0 {
					o.see = []string{"https://example.org/" + id}
				}
				all[id], ids = o, append(ids, id)
			}
			histories(w, "getspdx", ids, func(d spdxDir, ids []string) {
				for _, id := range ids {
					d.add(id, id+" License", all[id].tmpl, all[id].text, false, all[id].see)
				}
			})
		})
		c.Each("getcc", c.N(120, 4000), func(w *W) {
			type one struct{ page, html, text string }
			all := map[string]one{}
			var ids []string
			for _, i := range w.R.Perm(len(ccIDs))[:4] {
				g := &ccGen{w: w, u: newUnique(w.R)}
				html, root := g.page(w.R.IntN(3) == 0)
				var b strings.Builder
				root.plain(&b, &ccChoice{r: w.R, out: func(int) bool { return false }, first: true})
				all[ccIDs[i][0]] = one{ccIDs[i][1], html, b.String()}
				ids = append(ids, ccIDs[i][0])
			}
			histories(w, "getcc", ids, func(d spdxDir, ids []string) {
				os.MkdirAll(d.path("licenses/_cc/docroot/legalcode"), 0o777)
				for _, id := range ids {
					o := all[id]
					os.WriteFile(d.path("licenses/_cc/docroot/legalcode", o.page+".html"), []byte(o.html), 0o666)
					if len(id)%2 == 0 {
						os.WriteFile(d.path("licenses/_cc/docroot/legalcode", o.page+".txt"), []byte(o.text), 0o666)
					} else {
						os.WriteFile(d.path("licenses/_spdx/text", id+".txt"), []byte(o.text), 0o666)
					}
				}
			})
		})
		c.Each("gen_data", c.N(250, 8000), func(w *W) {
			dirs := 0
			run := func(files map[string]string) (string, bool) {
				d := filepath.Join(c.Scratch, fmt.Sprintf("gen-%d-%d", w.Case, dirs))
				dirs++
				defer os.RemoveAll(d)
				os.MkdirAll(filepath.Join(d, "licenses"), 0o777)
				names := make([]string, 0, len(files))
				for n := range files {
					names = append(names, n)
				}
				w.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
				for _, n := range names {
					os.WriteFile(filepath.Join(d, "licenses", n), []byte(files[n]), 0o666)
				}
				if w.R.IntN(2) == 0 {
					os.WriteFile(filepath.Join(d, "data.gen.go"), []byte(strings.Repeat("package licensecheck\n", w.R.IntN(20000))), 0o666)
				}
				o := runTool(d, exe["gen_data"], nil)
				w.Inc("gen_data runs", 1)
				if o.timeout {
					c.Problem("gen_data timed out")
					return "", false
				}
				if o.err != nil {
					w.Fail(Violation{Kind: "gen_data failed", Message: fmt.Sprintf("%v: %s", o.err, clip(o.out, 2000)), Text: fmt.Sprintf("%q", files)})
					return "", false
				}
				b, err := os.ReadFile(filepath.Join(d, "data.gen.go"))
				if err != nil {
					w.Fail(Violation{Kind: "gen_data failed", Message: err.Error(), Text: fmt.Sprintf("%q", files)})
					return "", false
				}
				return string(b), true
			}
			ld := genLicDir(w)
			files := map[string]string{}
			for n, s := range ld.files {
				files[n] = s
			}
			if len(ld.want) == 0 {
				files["Only.lre"] = "only one"
			}
			ref, ok := run(files)
			if !ok {
				return
			}
			w.Note(true, ref)
			again, ok := run(files)
			if !ok {
				return
			}
			if again != ref {
				w.Fail(Violation{Kind: "output depends on the run", Message: "gen_data run twice on the same files", Got: clip(again, 4000), Want: clip(ref, 4000), Text: fmt.Sprintf("%q", files)})
				return
			}
			base, err := evalData([]byte(ref))
			if err != nil {
				w.Fail(Violation{Kind: "generated file does not compile", Message: err.Error(), Got: clip(ref, 4000)})
				return
			}
			// Files that nothing refers to.
			def := pick(w.R, []string{"zdef.lre", "0def.lre", "GFDL-def.lre"})
			files[def] = `{{define "unused-by-all"}}never {{.}} {{index . 0}}{{end}}` + pick(w.R, []string{"", `{{Type "Notice"}}`, "\n\n", `{{Type "Discouraged|NonCommercial"}} `})
			w.Inc("unused definitions", 1)
			again, ok = run(files)
			if !ok {
				return
			}
			if again != ref {
				w.Fail(Violation{Kind: "output depends on an unrelated file", Message: def, Got: clip(again, 4000), Want: clip(ref, 4000), Text: fmt.Sprintf("%q", files)})
				return
			}
			id := pick(w.R, []string{"zzz-extra", "0000", "GFDL-9.9-extra", "BSD-4-Clause-extra", "Mextra", "BSD-extra"})
			typ := pick(w.R, []string{"", "", "Notice", "NonCommercial|Discouraged"})
			src := "extra words " + fmt.Sprint(w.R.IntN(1000))
			extra := lc.License{ID: id, LRE: src}
			if typ != "" {
				src = fmt.Sprintf("{{Type %q}}", typ) + src
				extra.Type = typeBits(typ)
			}
			files[id+".lre"] = src
			w.Inc("unrelated pattern files", 1)
			again, ok = run(files)
			if !ok {
				return
			}
			more, err := evalData([]byte(again))
			if err != nil {
				w.Fail(Violation{Kind: "generated file does not compile", Message: err.Error(), Got: clip(again, 4000)})
				return
			}
			var rest []lc.License
			found := 0
			for _, l := range more {
				if l.ID == id {
					found++
					if l != extra {
						w.Fail(Violation{Kind: "entry depends on other files", Message: fmt.Sprintf("%+v, want %+v", l, extra), Text: fmt.Sprintf("%q", files)})
						return
					}
					continue
				}
				rest = append(rest, l)
			}
			w.Inc("entries compared", len(base))
			if d := diffLists(base, rest); d != "" || found != 1 {
				w.Fail(Violation{Kind: "output depends on an unrelated file", Message: fmt.Sprintf("%s added (%d times there): %s", id, found, d), Text: fmt.Sprintf("%q", files)})
			}
		})
	}})
}
