package props

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"slices"
	"sort"
	"strings"
	"syscall"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

type diffCase struct {
	Ops []fsx.Op `json:"ops"`
}

// look is a full observation of one file system below its root.
func look(b *fsx.Back, ps []ref.Path, root bool) string {
	var w strings.Builder
	show := func(fi os.FileInfo) string {
		size := fi.Size()
		if fi.IsDir() {
			size = 0
		}
		return fmt.Sprintf("%s %v %v %v %d", fi.Name(), fi.IsDir(), fi.Mode().IsDir(), fi.Mode().Perm(), size)
	}
	for _, p := range ps {
		s := p.String()
		if p.Name == "/" && !root {
			continue
		}
		fi, err := b.FS.Stat(s)
		h, oerr := b.FS.Open(s)
		if err != nil || oerr != nil {
			fmt.Fprintf(&w, "%s: stat fails %v, open fails %v\n", p, err != nil, oerr != nil)
			if h != nil && oerr == nil {
				h.Close()
			}
			continue
		}
		if p.Name != "/" {
			fmt.Fprintf(&w, "%s: %s\n", p, show(fi))
			if hi, err := h.Stat(); err != nil {
				fmt.Fprintf(&w, "  handle stat fails\n")
			} else {
				fmt.Fprintf(&w, "  handle %s\n", show(hi))
			}
		}
		fmt.Fprintf(&w, "  named %s\n", h.Name())
		fis, rerr := h.Readdir(-1)
		if fi.IsDir() {
			var n []string
			for _, x := range fis {
				n = append(n, show(x))
			}
			sort.Strings(n)
			fmt.Fprintf(&w, "  list %v %q\n", rerr == nil, n)
			buf := make([]byte, 4)
			k, e := h.Read(buf)
			fmt.Fprintf(&w, "  reading a directory: %d fails %v\n", k, e != nil && e != io.EOF)
		} else {
			fmt.Fprintf(&w, "  list of a file fails %v\n", rerr != nil)
			d, e := fsx.ReadFile(b.FS, s)
			fmt.Fprintf(&w, "  data %q %v\n", d, e)
		}
		h.Close()
		v, werr := b.Walk(s, fsx.Continue)
		fmt.Fprintf(&w, "  walk %v", werr == nil)
		for _, x := range v {
			if strings.HasSuffix(x.Path, ":/") {
				fmt.Fprintf(&w, " %s", x.Path)
			} else {
				fmt.Fprintf(&w, " %s(%s)", x.Path, show(x.Info))
			}
		}
		fmt.Fprintln(&w)
	}
	return w.String()
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("mem: %s\nos:  %s", p, q)
		}
	}
	return ""
}

func runDiff(c *kit.Ctx, d diffCase, ps []ref.Path, worker int) error {
	m, o := newBack(c, "mem", worker), newBack(c, "os", worker)
	f := ref.New(fsx.Main) // only tells when the root is observable and which outcomes are not claimed
	touched := false
	for i, op := range d.Ops {
		free := op.K == "rmall" && fsx.ParentIsFile(f, op.Path())
		op.Model(f)
		e1, e2 := m.Do(op), o.Do(op)
		if (e1 == nil) != (e2 == nil) && !free {
			return fmt.Errorf("step %d: %v: mem: %v, os: %v", i, op, e1, e2)
		}
		if e1 == nil && (op.K == "create" || op.K == "mkdir") {
			touched = true
		}
	}
	if s := diff(look(m, ps, touched), look(o, ps, touched)); s != "" {
		return fmt.Errorf("after the history the two differ:\n%s", s)
	}
	return nil
}

// oddNames is a ladder of file names that are legal but unusual.
var oddNames = []string{"a b", ".hidden", "_x", "é", "日本", "a%20b", "a+b", "#", "q?", "it's", `"q"`, "<x>", "~", "x.tmp", "..a", "...", "a..", "-", "--help", "CON", "A", "0", "a\tb", "a\nb", "`", "$HOME", "*", "[x]", "{y}", "a,b", "a;b", "a|b", "a&b", "index.html", "go.mod", strings.Repeat("n", 200)}

func c07Paths(c *kit.Ctx) (uni, []ref.Path) {
	u := fsUni(c, false)
	ps := u.paths()
	ps = append(ps, ref.Path{Pkg: fsx.Main, Name: "/"}, ref.Path{Pkg: fsx.Main, Name: "/a/new"}, ref.Path{Pkg: fsx.Main, Name: "/missing/x"})
	return u, ps
}

func oddPaths() (ps []ref.Path) {
	for _, n := range oddNames {
		ps = append(ps, ref.Path{Pkg: fsx.Main, Name: "/" + n}, ref.Path{Pkg: fsx.Main, Name: "/" + n + "/" + n}, ref.Path{Pkg: fsx.Main, Name: "/" + n + "/z"})
	}
	return append(ps, ref.Path{Pkg: fsx.Main, Name: "/"})
}

// C07 is the differential property.
func C07() *kit.Prop {
	p := &kit.Prop{ID: "C07", Level: "model_checking",
		Rule: "all reachable trees of the model x every operation (in several spellings), all unmerged histories to the depth, histories over a ladder of unusual names, and directories of every permission their owner can read, executed side by side on the real in-memory and on-disk file systems; success is compared at every step and the complete observable tree (stat, handle stat, names, contents, listings, walks) afterwards"}
	p.Run = func(c *kit.Ctx) {
		runLarge(c, kinds[:1], []string{""}, largeDiff)
		u, ps := c07Paths(c)
		states := explore(c, ref.New(fsx.Main), u.mk(), 12, 60000)
		var last []fsx.Op
		for _, o := range append(u.mk(), u.rm()...) {
			last = append(last, o)
			o.S = 4
			last = append(last, o)
		}
		for _, n := range u.names {
			last = append(last, fsx.Op{K: "mkdir", P: n + "/new", M: 0700}, fsx.Op{K: "create", P: n + "/new", D: "n"}, fsx.Op{K: "rm", P: n + "/new"})
		}
		var cases []diffCase
		for i := range states {
			cases = append(cases, diffCase{states[i].ops})
			for _, o := range last {
				cases = append(cases, diffCase{append(append([]fsx.Op{}, states[i].ops...), o)})
			}
		}
		c.Set("trees", len(states))
		full := seqOps()
		depth := c.Pick(3, 4)
		n := pow(len(full), depth)
		for i := 0; i < n; i++ {
			cases = append(cases, diffCase{sequences(full, depth, i)})
		}
		c.States.Store(int64(len(states)))
		c.Par(len(cases), func(i, w int) {
			c.Transitions.Add(1)
			c.Traces.Add(2)
			c.Check(int64(i), "diff"+fmt.Sprint(cases[i].Ops), cases[i], func() error { return runDiff(c, cases[i], ps, w) })
			if len(cases[i].Ops) > 4 && c.WantSample() {
				c.Sample(fmt.Sprint(cases[i].Ops))
			}
		})
		var odd []diffCase
		for _, n := range oddNames {
			a := "/" + n
			odd = append(odd,
				diffCase{[]fsx.Op{{K: "create", P: a, D: "x"}}},
				diffCase{[]fsx.Op{{K: "mkdir", P: a + "/" + n, M: 0755}, {K: "create", P: a + "/z", D: "x"}}},
				diffCase{[]fsx.Op{{K: "mkdir", P: a, M: 0755}, {K: "create", P: a + "/" + n, D: "x"}, {K: "rm", P: a}, {K: "rm", P: a + "/" + n}}},
				diffCase{[]fsx.Op{{K: "mkdir", P: a, M: 0755}, {K: "create", P: a + "/z", D: "x"}, {K: "rmall", P: a}}})
			for _, m := range oddNames {
				if m != n {
					odd = append(odd, diffCase{[]fsx.Op{{K: "mkdir", P: a, M: 0755}, {K: "create", P: "/" + m, D: "x"}, {K: "create", P: a + "/z", D: "x"}, {K: "rmall", P: "/" + m}}})
				}
			}
		}
		ops := oddPaths()
		c.Par(len(odd), func(i, w int) {
			c.Transitions.Add(1)
			c.Traces.Add(2)
			c.Check(int64(i), "odd"+fmt.Sprint(odd[i].Ops), odd[i], func() error { return runDiff(c, odd[i], ops, w) })
		})
		// Permission bits of directories: all that leave the owner able to look
		// inside, with nothing masked. Files are left out: what the mask does to
		// the bits of a file in memory is not claimed.
		var modes []diffCase
		for m := uint32(0); m < 0o1000; m++ {
			if m&0o500 != 0o500 {
				continue
			}
			modes = append(modes,
				diffCase{[]fsx.Op{{K: "mkdir", P: "/a", M: m}}},
				diffCase{[]fsx.Op{{K: "mkdir", P: "/a", M: 0755}, {K: "mkdir", P: "/a/b", M: m}, {K: "mkdir", P: "/a/b", M: 0700}}},
				diffCase{[]fsx.Op{{K: "mkdir", P: "/a/b", M: m | 0700}, {K: "mkdir", P: "/a/bc", M: m}, {K: "mkdir", P: "/ab", M: m}, {K: "rm", P: "/a/b"}, {K: "rmall", P: "/ab"}}})
		}
		defer syscall.Umask(syscall.Umask(0))
		c.Par(len(modes), func(i, w int) {
			c.Transitions.Add(1)
			c.Traces.Add(2)
			c.Check(int64(i), "modes"+fmt.Sprint(modes[i].Ops), modes[i], func() error { return runDiff(c, modes[i], ps, w) })
		})
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		if ok, err := asLarge(c, raw, largeDiff); ok {
			return err
		}
		var d diffCase
		if err := json.Unmarshal(raw, &d); err != nil {
			return err
		}
		_, ps := c07Paths(c)
		if !slices.ContainsFunc(d.Ops, func(o fsx.Op) bool { return o.K != "mkdir" && o.K != "rm" && o.K != "rmall" }) {
			mask := syscall.Umask(0)
			err := runDiff(c, d, ps, 0)
			syscall.Umask(mask)
			if err != nil {
				return err
			}
		}
		if err := runDiff(c, d, ps, 0); err != nil {
			return err
		}
		return runDiff(c, d, oddPaths(), 0)
	}
	return p
}
