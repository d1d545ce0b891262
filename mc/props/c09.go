package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

// infoLadder are the modules relative to which paths are parsed.
func infoLadder() []here.Info {
	mk := func(dir, imp, mod string) here.Info {
		return here.Info{Dir: dir, ImportPath: imp, Name: "x", Module: here.Module{Path: mod, Main: true, Dir: dir}}
	}
	return []here.Info{
		mk("/nonexistent/src/app", "example.com/app", "example.com/app"),
		mk("/nonexistent/src/app", "", "app"), // no Go package in the root
		mk("/nonexistent/s p/app", "app", "app"),
		mk("/", "app", "app"),
		mk("", "app", "app"),
	}
}

type parseCase struct {
	Info int    `json:"module"`
	Path string `json:"path"`
}

// canonical checks one parse.
func canonical(c *kit.Ctx, in here.Info, fxs []pkging.Pkger, s string) error {
	var first here.Path
	var ferr error
	for i, fx := range fxs {
		c.Transitions.Add(1)
		pt, err := fx.Parse(s)
		if i == 0 {
			first, ferr = pt, err
		} else if (err != nil) != (ferr != nil) || err == nil && pt != first {
			return fmt.Errorf("Parse(%q) is %v, %v in memory and %v, %v on disk", s, first, ferr, pt, err)
		}
		if err != nil {
			c.Outcome("parse", "error")
			continue
		}
		if !strings.HasPrefix(pt.Name, "/") || path.Clean(pt.Name) != pt.Name || strings.Contains(pt.Name, "\\") {
			return fmt.Errorf("Parse(%q) has the name %q, which is not absolute and clean", s, pt.Name)
		}
		if pt.Pkg == "" && in.Module.Path != "" {
			return fmt.Errorf("Parse(%q) = %+v has no package", s, pt)
		}
		if strings.TrimSpace(pt.Pkg) != pt.Pkg || path.Clean(pt.Pkg) != pt.Pkg || pt.Pkg == "." || pt.Pkg == ".." || strings.HasPrefix(pt.Pkg, "../") {
			c.Outcome("parse", "qualifier that is no import path")
			continue
		}
		again, err := fx.Parse(pt.String())
		if err != nil || again != pt {
			return fmt.Errorf("Parse(%q) = %+v, printed %q, parses as %+v, %v", s, pt, pt.String(), again, err)
		}
		if pt.Pkg == in.Module.Path {
			c.Outcome("parse", "current module")
		} else {
			c.Outcome("parse", "other package")
		}
	}
	return nil
}

// backDir stands for the directory written with backslashes.
const backDir = "$BACK"

// spellings of a location are all combinations of a way to begin, to separate and to end it.
func spellings(dir string, p ref.Path, thorough bool) (out []string) {
	pre := []string{"", ":", fsx.Main + ":", dir, "/..", " ", backDir}
	if p.Pkg != fsx.Main {
		pre = []string{p.Pkg + ":", " " + p.Pkg + ":", p.Pkg + ":/.."}
	}
	sep := []string{"/", "//", "/./", `\`, "/zz/../", `\zz\..\`}
	end := []string{"", "/", "/.", `\`, "/zz/..", " ", "//"}
	if thorough {
		pre = append(pre, pre[0]+"/../..", pre[len(pre)-1]+"/.")
		sep = append(sep, `\.\`, `/\`, "/a/b/../../")
		end = append(end, `\..\`+path.Base(p.Name), "\t", "/./", `\.`)
	}
	parts := strings.Split(strings.Trim(p.Name, "/"), "/")
	if p.Name == "/" {
		for _, b := range pre {
			for _, s := range sep {
				out = append(out, b+s)
			}
			out = append(out, b+"/.", b+`/zz\..`, b+"/zz/..")
			if b != dir && b != backDir { // that leaves the module directory
				out = append(out, b+"/..")
			}
		}
		return
	}
	var mid []string
	var rec func(i int, s string)
	rec = func(i int, s string) {
		if i == len(parts) {
			mid = append(mid, s)
			return
		}
		for _, x := range sep {
			rec(i+1, s+x+parts[i])
		}
	}
	rec(0, "")
	for _, b := range pre {
		for _, m := range mid {
			for _, e := range end {
				out = append(out, b+m+e)
			}
		}
	}
	return
}

// slashes are all ways to write the separators of a path.
func slashes(name string) []string {
	out := []string{""}
	for _, p := range strings.Split(name, "/")[1:] {
		var more []string
		for _, s := range out {
			more = append(more, s+"/"+p, s+`\`+p)
		}
		out = more
	}
	return out
}

type spellCase struct {
	Back string   `json:"fs"`
	Op   string   `json:"op"`
	Loc  ref.Path `json:"location"`
	Path string   `json:"path"`
}

// doSpelled runs one operation with one spelling in a fresh tree and tells everything that can be seen.
func doSpelled(c *kit.Ctx, t spellCase, s string, worker int) string {
	var b *fsx.Back
	pkgs := []string{}
	if t.Back == "multi" {
		b, _ = fsx.NewMulti()
		pkgs = append(pkgs, fsx.Ext)
	} else {
		b = newBack(c, t.Back, worker)
		for _, o := range []fsx.Op{{K: "mkdir", P: "/a/b", M: 0750}, {K: "create", P: "/a/f", D: "one"}, {K: "create", P: "/x", D: "two"}, {K: "mkdir", P: "/d/e/g/h", M: 0755}, {K: "create", P: "/d/e/g/h/f", D: "deep"}} {
			if err := b.Do(o); err != nil {
				return "setup: " + err.Error()
			}
		}
	}
	s = strings.ReplaceAll(s, "$DIR", b.Dir)
	s = strings.ReplaceAll(s, backDir, strings.ReplaceAll(b.Dir, "/", `\`))
	var w strings.Builder
	tell := func(fi os.FileInfo, err error) {
		if err != nil {
			fmt.Fprintf(&w, "error %v\n", err != nil)
			return
		}
		fmt.Fprintf(&w, "%s %v %v\n", fi.Name(), fi.IsDir(), fi.Mode())
	}
	file := func(h pkging.File, err error) {
		if err != nil {
			fmt.Fprintf(&w, "error %v\n", err != nil)
			return
		}
		fmt.Fprintf(&w, "%s %v %s\n", h.Name(), h.Path(), h.Info().Dir)
		tell(h.Stat())
		if t.Op == "create" {
			h.Write([]byte("new"))
		} else if t.Op == "readdir" {
			fis, err := h.Readdir(-1)
			fmt.Fprintf(&w, "%v %d\n", err != nil, len(fis))
		} else {
			d := make([]byte, 10)
			n, err := h.Read(d)
			fmt.Fprintf(&w, "%q %v\n", d[:n], err != nil)
		}
		fmt.Fprintf(&w, "close %v\n", h.Close() != nil)
	}
	change := false
	switch t.Op {
	case "stat":
		tell(b.FS.Stat(s))
	case "open", "readdir":
		file(b.FS.Open(s))
	case "hopen": // through a handle on the root
		r, err := b.FS.Open("/")
		if err != nil {
			return "root: " + err.Error()
		}
		defer r.Close()
		h, err := r.Open(s)
		if err != nil {
			fmt.Fprintf(&w, "error %v\n", os.IsNotExist(err))
			break
		}
		if n, ok := h.(pkging.File); ok {
			fmt.Fprintf(&w, "%s %v\n", n.Name(), n.Path())
		}
		tell(h.Stat())
		d := make([]byte, 10)
		n, err := h.Read(d)
		fmt.Fprintf(&w, "%q %v\n", d[:n], err != nil)
		fis, err := h.Readdir(-1)
		fmt.Fprintf(&w, "%v %d\n", err != nil, len(fis))
		h.Close()
	case "create":
		file(b.FS.Create(s))
		change = true
	case "mkdir":
		fmt.Fprintf(&w, "%v\n", b.FS.MkdirAll(s, 0700) != nil)
		change = true
	case "rm":
		fmt.Fprintf(&w, "%v\n", b.FS.Remove(s) != nil)
		change = true
	case "rmall":
		fmt.Fprintf(&w, "%v\n", b.FS.RemoveAll(s) != nil)
		change = true
	case "walk":
		v, err := b.Walk(s, fsx.Continue)
		for _, x := range v {
			fmt.Fprintf(&w, "%s %s\n", x.Path, x.Info.Name())
		}
		fmt.Fprintf(&w, "%v\n", err != nil)
	}
	if change {
		for _, g := range append(pkgs, fsx.Main) {
			v, _ := b.Walk(g+":/", fsx.Continue)
			for _, x := range v {
				fmt.Fprintf(&w, "%s %v %v\n", x.Path, x.Info.Mode(), x.Info.IsDir())
			}
		}
	}
	return w.String()
}

func runSpell(c *kit.Ctx, t spellCase, worker int) error {
	plain := t.Loc.String()
	if t.Op == "hopen" {
		plain = t.Loc.Name
	}
	want := doSpelled(c, t, plain, worker)
	got := doSpelled(c, t, t.Path, worker)
	if got != want {
		return fmt.Errorf("%s: %s(%q) is not the same as %s(%q):\n%s\n-- instead of --\n%s", t.Back, t.Op, t.Path, t.Op, t.Loc.String(), got, want)
	}
	return nil
}

var spellOps = []string{"stat", "open", "readdir", "walk", "create", "mkdir", "rm", "rmall"}

// C09 is path canonicity.
func C09() *kit.Prop {
	p := &kit.Prop{ID: "C09", Level: "model_checking",
		Rule: "Parse on every string up to a length over the path alphabet, relative to several modules, in memory and on disk: canonical, stable under printing and re-parsing, and the same on both. Then every operation on every location with every combination of ways to begin, separate and end the path, each in a fresh tree, compared with the plain qualified spelling: result, handle name and complete tree afterwards"}
	p.Run = func(c *kit.Ctx) {
		strs := pathStrings([]string{"/", ".", "\\", ":", "a", " "}, c.Pick(7, 8))
		strs = append(strs, pathStrings([]string{"/", "..", "\\", ":", "app", "example.com/app", ":/", "/nonexistent"}, c.Pick(5, 6))...)
		infos := infoLadder()
		var fxs [][]pkging.Pkger
		for _, in := range infos {
			m, err := mem.New(in)
			if err != nil {
				panic(err)
			}
			s, err := stdos.New(in)
			if err != nil {
				panic(err)
			}
			fxs = append(fxs, []pkging.Pkger{m, s})
		}
		c.Set("strings_parsed", len(strs))
		c.Set("modules", len(infos))
		const chunk = 256
		n := (len(strs) + chunk - 1) / chunk
		c.Par(n*len(infos), func(i, w int) {
			in := infos[i%len(infos)]
			lo := i / len(infos) * chunk
			for k := lo; k < lo+chunk && k < len(strs); k++ {
				s := strs[k]
				if in.Dir != "" && in.Dir != "/" && strings.Contains(s, in.Dir) {
					continue
				}
				c.States.Add(1)
				t := parseCase{i % len(infos), s}
				c.Check(int64(k), fmt.Sprintf("parse %v", t), t, func() error { return canonical(c, in, fxs[t.Info], s) })
			}
		})
		var cases []spellCase
		for _, back := range []string{"mem", "os", "multi"} {
			var locs []ref.Path
			for _, n := range []string{"/", "/a", "/a/b", "/a/f", "/x", "/a/new", "/new", "/no/new"} {
				locs = append(locs, ref.Path{Pkg: fsx.Main, Name: n})
			}
			if back == "multi" {
				locs = nil
				for _, n := range []string{"/", "/ab", "/a/b", "/a/b-c", "/no/new"} {
					locs = append(locs, ref.Path{Pkg: fsx.Ext, Name: n})
				}
			}
			for _, l := range locs {
				for _, s := range spellings("$DIR", l, c.Thorough()) {
					for _, o := range spellOps {
						cases = append(cases, spellCase{back, o, l, s})
					}
				}
			}
		}
		for _, back := range []string{"mem", "os"} {
			// deep ones, where only the separators vary
			for _, l := range []ref.Path{{Pkg: fsx.Main, Name: "/d/e/g/h/f"}, {Pkg: fsx.Main, Name: "/d/e/g/h"}, {Pkg: fsx.Main, Name: "/d/e/g/h/new"}} {
				for _, s := range slashes(l.Name) {
					for _, pre := range []string{"", fsx.Main + ":", "$DIR"} {
						for _, o := range spellOps {
							if pre == "" || !strings.HasPrefix(s, `\`) && (pre != "$DIR" || o != "create") {
								cases = append(cases, spellCase{back, o, l, pre + s})
							}
						}
					}
					cases = append(cases, spellCase{back, "hopen", l, s})
				}
			}
			for _, n := range []string{"/", "/a", "/a/b", "/a/f", "/x", "/a/new", "/no/new"} {
				l := ref.Path{Pkg: fsx.Main, Name: n}
				for _, s := range spellings("$DIR", l, c.Thorough()) {
					if strings.TrimSpace(s) == s && !strings.Contains(s, ":") && !strings.HasPrefix(s, "$") {
						cases = append(cases, spellCase{back, "hopen", l, s})
					}
				}
			}
		}
		c.Set("spelled_operations", len(cases))
		c.States.Add(int64(len(cases)))
		c.Par(len(cases), func(i, w int) {
			t := cases[i]
			c.Transitions.Add(2)
			c.Traces.Add(2)
			c.Check(int64(i), fmt.Sprint(t), t, func() error { return runSpell(c, t, w) })
			if i%7919 == 7000 && c.WantSample() {
				c.Sample(t)
			}
		})
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		var t spellCase
		if err := json.Unmarshal(raw, &t); err != nil {
			return err
		}
		if t.Op != "" {
			return runSpell(c, t, 0)
		}
		var q parseCase
		if err := json.Unmarshal(raw, &q); err != nil {
			return err
		}
		in := infoLadder()[q.Info]
		m, _ := mem.New(in)
		s, _ := stdos.New(in)
		return canonical(c, in, []pkging.Pkger{m, s}, q.Path)
	}
	return p
}
