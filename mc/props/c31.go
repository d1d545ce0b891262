package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/sched"
)

// diskRoot holds the directories of the two modules, app and ext.
var diskRoot string

var diskFixed = map[string]string{
	"app/a.txt":          "the first file",
	"app/d/b.txt":        strings.Repeat("0123456789", 60),
	"app/d/e.html":       "<html>",
	"app/d/empty":        "",
	"app/d/e/index.html": "<p>index",
	"app/old/f":          "old",
	"app/old/g/h":        "older",
	"ext/a.txt":          "the first file of the other module",
	"ext/d/b.txt":        "other",
	"ext/d/x/y":          "y",
}

var diskTime = time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC)

// build makes the tree anew.
func buildDisk() {
	for _, d := range []string{"app", "ext"} {
		if err := os.RemoveAll(filepath.Join(diskRoot, d)); err != nil {
			panic(err)
		}
	}
	var dirs []string
	for n, s := range diskFixed {
		p := filepath.Join(diskRoot, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			panic(err)
		}
		os.Chtimes(p, diskTime, diskTime)
		for d := filepath.Dir(p); d != diskRoot; d = filepath.Dir(d) {
			dirs = append(dirs, d)
		}
	}
	for _, d := range dirs {
		os.Chtimes(d, diskTime, diskTime)
	}
}

// onDisk is what the operating system says lies there, without times.
func onDisk() string {
	var w strings.Builder
	filepath.Walk(diskRoot, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintf(&w, "%s %v; ", p, err)
			return nil
		}
		fmt.Fprintf(&w, "%s %v", strings.TrimPrefix(p, diskRoot), i.Mode())
		if !i.IsDir() {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(&w, " %q", b)
		}
		w.WriteString("; ")
		return nil
	})
	return w.String()
}

// openBelow are the open descriptors of files in the tree.
func openBelow() (out []string) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, f := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(to, diskRoot+"/") {
			out = append(out, strings.TrimPrefix(to, diskRoot))
		}
	}
	sort.Strings(out)
	return
}

// shared is an on-disk file system with directory handles and servers that the threads share.
type sharedDisk struct {
	fs   *stdos.Pkger
	root pkging.File
	d    pkging.File
	srv  http.Handler
	dirs http.Handler
}

func newDisk() *sharedDisk {
	sched.Restore()
	app, ext := filepath.Join(diskRoot, "app"), filepath.Join(diskRoot, "ext")
	infos := map[string]here.Info{
		fsx.Main: {Dir: app, ImportPath: fsx.Main, Name: "main", Module: here.Module{Path: fsx.Main, Main: true, Dir: app}},
		fsx.Ext:  {Dir: ext, ImportPath: fsx.Ext, Name: "ext", Module: here.Module{Path: fsx.Ext, Dir: ext}},
	}
	// in place of the go command
	here.Package = func(p string) (here.Info, error) {
		sched.Point()
		if i, ok := infos[p]; ok {
			return i, nil
		}
		return here.Info{}, fmt.Errorf("package %s is not in std", p)
	}
	fs, err := stdos.New(infos[fsx.Main])
	if err != nil {
		panic(err)
	}
	if err := pkger.Apply(fs, nil); err != nil {
		panic(err)
	}
	open := func(n string) pkging.File {
		f, err := fs.Open(n)
		if err != nil {
			panic(err)
		}
		return f
	}
	s := &sharedDisk{fs: fs, root: open("/"), d: open("/d")}
	s.srv, s.dirs = http.FileServer(s.root), http.FileServer(pkger.Dir("/d"))
	return s
}

func (s *sharedDisk) close() {
	s.root.Close()
	s.d.Close()
}

func diskErr(err error) string {
	return strings.ReplaceAll(fmt.Sprint("error: ", err), diskRoot, "")
}

func (s *sharedDisk) do(t, i int, o cop) string {
	whole := func(f http.File, err error) string {
		if err != nil {
			return diskErr(err)
		}
		return readWhole(f, nil)
	}
	get := func(h http.Handler) string {
		req := httptest.NewRequest("GET", o.P, nil)
		if o.D != "" {
			req.Header.Set("Range", o.D)
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		return fmt.Sprintf("%d %q %q %q", w.Code, w.Header().Get("Content-Type"), w.Header().Get("Content-Range"), w.Body.String())
	}
	list := func(f http.File, err error) string {
		if err != nil {
			return diskErr(err)
		}
		defer f.Close()
		is, err := f.Readdir(2)
		js, err2 := f.Readdir(-1)
		is = append(is, js...)
		sort.Slice(is, func(a, b int) bool { return is[a].Name() < is[b].Name() })
		return fmt.Sprintf("%s %v %v", entries(is), err, err2)
	}
	switch o.K {
	case "read":
		f, err := s.fs.Open(o.P)
		if err != nil {
			return diskErr(err)
		}
		return readWhole(f, nil)
	case "bits": // with two handles, and seeking
		f, err := s.fs.Open(o.P)
		if err != nil {
			return diskErr(err)
		}
		defer f.Close()
		g, err := s.fs.Open(o.P)
		if err != nil {
			return diskErr(err)
		}
		defer g.Close()
		b := make([]byte, 4)
		var w strings.Builder
		n, err := f.Read(b)
		fmt.Fprintf(&w, "%q %v;", b[:n], err)
		at, err := g.Seek(-3, io.SeekEnd)
		fmt.Fprintf(&w, "%d %v;", at, err)
		n, err = g.Read(b)
		fmt.Fprintf(&w, "%q %v;", b[:n], err)
		n, err = f.Read(b)
		fmt.Fprintf(&w, "%q %v; %s %s %s", b[:n], err, f.Name(), f.Path(), f.Info().ImportPath)
		return w.String()
	case "stat":
		i, err := s.fs.Stat(o.P)
		if err != nil {
			return diskErr(err)
		}
		return infoString(i)
	case "list":
		f, err := s.fs.Open(o.P)
		if err != nil {
			return diskErr(err)
		}
		return list(f, nil)
	case "walk":
		var w strings.Builder
		err := s.fs.Walk(o.P, func(p string, i os.FileInfo, err error) error {
			fmt.Fprintf(&w, "%s %s %v;", p, infoString(i), err)
			return nil
		})
		return w.String() + diskErr(err)
	case "via": // through a directory handle that the threads share
		return whole(s.d.Open(o.P))
	case "vialist":
		return list(s.root.Open(o.P))
	case "dir": // through the declared-directory type
		return whole(pkger.Dir("/d").Open(o.P))
	case "extdir":
		return whole(pkger.Dir(fsx.Ext + ":/d").Open(o.P))
	case "info":
		i, err := s.fs.Info(o.P)
		return fmt.Sprint(i.ImportPath, i.Dir == filepath.Join(diskRoot, "ext"), err)
	case "current":
		i, err := s.fs.Current()
		return fmt.Sprint(i.ImportPath, err)
	case "parse":
		i, err := s.fs.Parse(o.P)
		return fmt.Sprint(i, err)
	case "about":
		i, err := s.d.Stat()
		if err != nil {
			return diskErr(err)
		}
		return fmt.Sprint(s.d.Name(), s.d.Path(), s.d.Info().ImportPath, i.Name(), i.IsDir())
	case "get":
		return get(s.srv)
	case "getdir":
		return get(s.dirs)
	}
	x := &changer{s.fs, map[[2]int]pkging.File{}}
	var out []string
	for _, k := range steps(o) {
		out = append(out, x.step(t, i, o, k))
	}
	return fmt.Sprint(out)
}

type diskEnd struct {
	got  [][]string
	left string
}

var diskAlone = map[string]diskEnd{}

// inTurn is what the threads answer and leave behind if they run one after the other.
func inTurn(s scenario) diskEnd {
	b, err := json.Marshal(s.Threads)
	if err != nil {
		panic(err)
	}
	k := string(b)
	if e, ok := diskAlone[k]; ok {
		return e
	}
	buildDisk()
	d := newDisk()
	var e diskEnd
	for t, ops := range s.Threads {
		var l []string
		for i, o := range ops {
			l = append(l, d.do(t, i, o))
		}
		e.got = append(e.got, l)
	}
	d.close()
	e.left = onDisk()
	diskAlone[k] = e
	return e
}

func setDisk(s scenario) instance {
	want := inTurn(s)
	changes := false
	for _, ops := range s.Threads {
		for _, o := range ops {
			changes = changes || changing(o)
		}
	}
	if changes || diskDirty {
		buildDisk()
		diskDirty = changes
	}
	d := newDisk()
	bodies, got, _ := threads(s.Threads, d.do)
	return instance{bodies, func() error {
		d.close()
		for t, ops := range s.Threads {
			for i, o := range ops {
				if got[t][i] != want.got[t][i] {
					return fmt.Errorf("thread %d: %s answers %.400s, alone it answers %.400s", t, o, got[t][i], want.got[t][i])
				}
			}
		}
		if judged++; changes || judged%64 == 1 {
			if l := onDisk(); l != want.left {
				return fmt.Errorf("left behind is %s, one after the other %s", l, want.left)
			}
		}
		if judged%8 == 1 {
			if l := openBelow(); len(l) > 0 {
				return fmt.Errorf("still open: %v", l)
			}
		}
		return nil
	}}
}

var diskDirty = true

func diskScenarios(c *kit.Ctx) (out []scenario) {
	E := fsx.Ext + ":"
	ops := []cop{{K: "read", P: "/d/b.txt"}, {K: "bits", P: "/d/b.txt"}, {K: "stat", P: "/d/b.txt"}, {K: "list", P: "/d"}, {K: "walk", P: "/d"}, {K: "via", P: "/b.txt"}, {K: "vialist", P: "/d"},
		{K: "read", P: E + "/d/b.txt"}, {K: "stat", P: E + "/a.txt"}, {K: "walk", P: E + "/d"}, {K: "info", P: fsx.Ext}, {K: "extdir", P: "/b.txt"}, {K: "bits", P: E + "/a.txt"},
		{K: "dir", P: "/b.txt"}, {K: "dir", P: "/none"}, {K: "read", P: "/missing"}, {K: "read", P: "example.com/none:/a"}, {K: "info", P: "example.com/none"},
		{K: "current"}, {K: "parse", P: "/d/x"}, {K: "parse", P: E + "/d/../x"}, {K: "about"}, {K: "read", P: "/a.txt"}, {K: "get", P: "/d/b.txt"}, {K: "get", P: "/d/b.txt", D: "bytes=3-12"}, {K: "getdir", P: "/e/"}, {K: "getdir", P: "/"}}
	heavy := map[string]bool{"walk": true, "list": true, "vialist": true, "get": true, "getdir": true}
	for i, o := range ops {
		for _, p := range ops[i:] {
			b := c.Pick(2, 3)
			if heavy[o.K] || heavy[p.K] {
				b = c.Pick(1, 2)
			}
			out = append(out, scenario{"", [][]cop{{o}, {p}}, b})
		}
	}
	for i, o := range ops {
		out = append(out, scenario{"", [][]cop{{o}, {o}, {o}}, 1})
		// what is already known of the package by then
		out = append(out, scenario{"", [][]cop{{o, o}, {ops[(i+7)%len(ops)], o}}, 1})
	}
	// changes at different paths
	put := func(p, d string) cop { return cop{"put", p, d} }
	ch := [][2][]cop{
		{{put("/n1", "one")}, {put("/n2", "the second")}},
		{{put("/old/n1", "one")}, {put("/old/g/n1", "the second")}},
		{{put("/n", "one")}, {put(E+"/n", "of the other module")}},
		{{put(E+"/n", "one")}, {put(E+"/d/n", "second")}},
		{{{K: "mkdir", P: "/new/x/y"}, put("/new/x/y/f", "f")}, {{K: "mkdir", P: "/new/x/z"}, put("/new/x/z/f", "g")}},
		{{{K: "mkdir", P: E + "/new/x"}}, {{K: "mkdir", P: E + "/new/y"}}},
		{{{K: "remove", P: "/old/f"}}, {{K: "remove", P: "/old/g/h"}, {K: "remove", P: "/old/g"}}},
		{{{K: "removeall", P: "/old/g"}}, {put("/old/f", "replaced")}},
		{{{K: "removeall", P: E + "/d"}}, {{K: "remove", P: E + "/a.txt"}}},
		{{{K: "removeall", P: E + "/d"}}, {{K: "read", P: "/d/b.txt"}, {K: "removeall", P: "/old"}}},
		{{put("/old/f", "replaced")}, {{K: "remove", P: "/old/none"}, put("/old/k", "k"), {K: "bits", P: "/old/k"}}},
	}
	for _, x := range ch {
		out = append(out, scenario{"", [][]cop{x[0], x[1]}, c.Pick(2, 3)})
		for _, o := range []cop{ops[0], ops[4], ops[5], {K: "read", P: E + "/d/../go.none"}, {K: "about"}} {
			out = append(out, scenario{"", [][]cop{x[0], x[1], {o}}, 1})
		}
	}
	return
}

// C31 is using the disk at once.
func C31() *kit.Prop {
	return &kit.Prop{ID: "C31", Level: "model_checking", Shards: true,
		Rule: schedRule + "every operation on the shared on-disk file system must answer exactly what it answers alone, what the threads leave on the disk must be what they leave when run one after the other, and once the handles are closed no descriptor may stay open",
		Run: func(c *kit.Ctx) {
			diskHome(c)
			schedules(c, diskScenarios(c), []int{0}, setDisk)
		},
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			diskHome(c)
			return replaySched(setDisk)(c, raw)
		}}
}

func diskHome(c *kit.Ctx) {
	diskRoot = filepath.Join(c.Work, "disk")
	if err := os.MkdirAll(diskRoot, 0755); err != nil {
		panic(err)
	}
}
