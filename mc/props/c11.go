package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

type tripCase struct {
	Init string   `json:"init,omitempty"` // "", "multi", "given", "bare" (given, and no Go package in the module roots) or "zone" (a file of the disk, serialised and loaded in different time zones)
	Ops  []fsx.Op `json:"ops,omitempty"`
	Name string   `json:"name,omitempty"`
	Mode uint32   `json:"mode,omitempty"`
	Dir  bool     `json:"dir,omitempty"`
	Size int      `json:"size,omitempty"`
	At   string   `json:"time,omitempty"`
	Via  string   `json:"via,omitempty"` // "" JSON, "embed" the codec too
}

// given makes a file system that holds one entry with the given metadata in each of two packages.
func (t tripCase) given() (*mem.Pkger, error) {
	at, err := time.Parse(time.RFC3339Nano, t.At)
	if err != nil {
		return nil, err
	}
	d := embed.Data{Infos: map[string]here.Info{}, Files: map[string]embed.File{}, Here: fsx.Info(fsx.MemDir)}
	d.Infos[fsx.Main] = d.Here
	d.Infos[fsx.Ext] = here.Info{Dir: "/nonexistent-build-dir/ext", ImportPath: fsx.Ext, Name: "ext", Doc: "about <ext> & \"more\"", Module: here.Module{Path: fsx.Ext, Dir: "/nonexistent-build-dir/ext"}, Imports: []string{"fmt"}, GoFiles: []string{"a.go"}}
	if t.Init == "bare" {
		for g, in := range d.Infos {
			in.ImportPath, in.Name = "", path.Base(g)
			d.Infos[g] = in
		}
		d.Here = d.Infos[fsx.Main]
	}
	for g, in := range d.Infos {
		mode := fs.FileMode(t.Mode)
		if t.Dir {
			mode |= fs.ModeDir
		}
		ef := embed.File{Here: in, Path: here.Path{Pkg: g, Name: t.Name}, Info: &pkging.FileInfo{Details: pkging.Details{
			Name: path.Base(t.Name), Size: int64(t.Size), Mode: mode, IsDir: t.Dir, ModTime: pkging.ModTime(at)}}}
		if !t.Dir {
			ef.Data = filler("blocks", t.Size)
		}
		d.Files[g+":"+t.Name] = ef
	}
	j, err := json.Marshal(d)
	if err != nil {
		return nil, err
	}
	p := &mem.Pkger{}
	if err := p.UnmarshalJSON(j); err != nil {
		return nil, err
	}
	// what was loaded is what was given
	if in, err := p.Current(); err != nil || fmt.Sprint(in) != fmt.Sprint(d.Here) {
		return nil, fmt.Errorf("the current module is %v, %v instead of %v", in, err, d.Here)
	}
	for g, in := range d.Infos {
		if i, err := p.Info(g); err != nil || fmt.Sprint(i) != fmt.Sprint(in) {
			return nil, fmt.Errorf("the information of %s is %v, %v instead of %v", g, i, err, in)
		}
		f, err := p.Open(g + ":" + t.Name)
		if err != nil {
			return nil, fmt.Errorf("loading lost %s:%s: %v", g, t.Name, err)
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			return nil, err
		}
		w := d.Files[g+":"+t.Name]
		if fmt.Sprint(f.Info()) != fmt.Sprint(in) || f.Path() != w.Path || !fi.ModTime().Equal(at) || fi.Mode() != w.Info.Mode() || fi.Size() != w.Info.Size() || fi.IsDir() != t.Dir || fi.Name() != w.Info.Name() {
			return nil, fmt.Errorf("loaded %v of %v with %v instead of %v of %v with %v", f.Path(), f.Info(), fi, w.Path, in, w.Info)
		}
		if !t.Dir {
			if b, err := io.ReadAll(f); err != nil || !bytes.Equal(b, w.Data) {
				return nil, fmt.Errorf("loaded %d bytes (%v) instead of %d", len(b), err, len(w.Data))
			}
		}
	}
	return p, nil
}

// zones are those of the machines that serialise and load.
var zones = []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -8*3600), time.FixedZone("", 14*3600)}

// runZone serialises a file of the disk in one time zone, and loads it in another.
func runZone(c *kit.Ctx, t tripCase) error {
	was := time.Local
	defer func() { time.Local = was }()
	dir := filepath.Join(c.Work, "zone")
	plant(dir, map[string]string{"go.mod": "module " + fsx.Main + "\n\ngo 1.13\n", "main.go": "package main\n", "f": "in a zone", "d/g": "too"})
	at, err := time.Parse(time.RFC3339Nano, t.At)
	if err != nil {
		panic(err)
	}
	for _, n := range []string{"f", "d/g", "d"} {
		os.Chtimes(filepath.Join(dir, n), at, at)
	}
	time.Local = zones[t.Size/10]
	fx, err := mem.New(fsx.Info(dir))
	if err != nil {
		return err
	}
	for _, n := range []string{"f", "d"} {
		f, err := os.Open(filepath.Join(dir, n))
		if err != nil {
			panic(err)
		}
		err = fx.Add(f)
		f.Close()
		if err != nil {
			return fmt.Errorf("adding: %v", err)
		}
	}
	j, err := fx.MarshalJSON()
	if err != nil {
		return err
	}
	time.Local = zones[t.Size%10]
	cp := &mem.Pkger{}
	if err := cp.UnmarshalJSON(j); err != nil {
		return err
	}
	for _, n := range []string{"/f", "/d/g", "/d"} {
		fi, err := cp.Stat(n)
		if err != nil || !fi.ModTime().Equal(at) {
			return fmt.Errorf("%s was last changed at %v, now %v, %v", n, at, fi.ModTime(), err)
		}
	}
	j2, err := cp.MarshalJSON()
	if err != nil {
		return err
	}
	if !bytes.Equal(j, j2) {
		return fmt.Errorf("serialised in zone %v, loaded and serialised in zone %v, the bytes are others:\n%s", zones[t.Size/10], zones[t.Size%10], diff2(string(j), string(j2)))
	}
	return nil
}

func runTrip(c *kit.Ctx, t tripCase) error {
	var b *fsx.Back
	pkgs := []string{fsx.Main}
	extra := []string{"/missing", fsx.Main + ":/a/b/c/d"}
	switch t.Init {
	case "zone":
		return runZone(c, t)
	case "given", "bare":
		p, err := t.given()
		if err != nil {
			return err
		}
		b = &fsx.Back{Kind: "mem", Dir: fsx.MemDir, FS: p}
		pkgs = append(pkgs, fsx.Ext)
		extra = append(extra, t.Name, fsx.Ext+":"+t.Name)
	case "multi":
		b, _ = fsx.NewMulti()
		pkgs = append(pkgs, fsx.Ext)
	default:
		b = fsx.NewMem()
	}
	for _, o := range t.Ops {
		b.Do(o) // what it does is another property's business
	}
	orig := b.FS.(*mem.Pkger)
	before := everything(orig, pkgs, extra)
	j, err := orig.MarshalJSON()
	if err != nil {
		return fmt.Errorf("serialising: %v", err)
	}
	cp := &mem.Pkger{}
	if t.Via == "embed" {
		e, err := embed.Encode(j)
		if err != nil {
			return err
		}
		cp, err = mem.UnmarshalEmbed(e)
		if err != nil {
			return fmt.Errorf("loading: %v", err)
		}
	} else if err := cp.UnmarshalJSON(j); err != nil {
		return fmt.Errorf("re-hydrating: %v", err)
	}
	if now := everything(orig, pkgs, extra); now != before {
		return fmt.Errorf("serialising changed the original:\n%s", diff2(before, now))
	}
	after := everything(cp, pkgs, extra)
	if after != before {
		return fmt.Errorf("the re-hydrated file system differs:\n%s", diff2(before, after))
	}
	j2, err := cp.MarshalJSON()
	if err != nil {
		return err
	}
	if !bytes.Equal(j, j2) {
		return fmt.Errorf("the second round trip gives other bytes:\n%s", diff2(string(j), string(j2)))
	}
	// the two are independent
	if err := scribble(cp, pkgs); err != nil {
		return err
	}
	if now := everything(orig, pkgs, extra); now != before {
		return fmt.Errorf("changing the re-hydrated file system changed the original:\n%s", diff2(before, now))
	}
	cp2 := &mem.Pkger{}
	if err := cp2.UnmarshalJSON(j); err != nil {
		return err
	}
	for i := range j {
		j[i] = 'x' // the serialised bytes belong to the caller
	}
	if err := scribble(orig, pkgs); err != nil {
		return err
	}
	if now := everything(cp2, pkgs, extra); now != before {
		return fmt.Errorf("changing the original changed the re-hydrated file system:\n%s", diff2(before, now))
	}
	return nil
}

// scribble changes everything in a file system.
func scribble(fx *mem.Pkger, pkgs []string) error {
	for _, g := range pkgs {
		var names []string
		fx.Walk(g+":/", func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				names = append(names, p)
			}
			return err
		})
		for _, n := range names {
			if f, err := fx.Create(n); err == nil {
				f.Write([]byte("scribble"))
				f.Close()
			}
			fx.Remove(n)
		}
		fx.MkdirAll(g+":/scribble/deep", 0711)
		fx.RemoveAll(g + ":/")
	}
	return nil
}

func diff2(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			if len(p) > 500 {
				p = p[:500]
			}
			if len(q) > 500 {
				q = q[:500]
			}
			return fmt.Sprintf("before: %s\nafter:  %s", p, q)
		}
	}
	return ""
}

// C11 is re-hydration.
func C11() *kit.Prop {
	p := &kit.Prop{ID: "C11", Level: "model_checking",
		Rule: "every file system reachable by operations in the bounds, every history of two operations from a two-package file system with orphans, and every combination of a name ladder, modes, times and sizes is serialised and re-hydrated (as JSON and through the codec); everything observable is compared, the bytes of a second round trip too, and both sides are then changed to show their independence"}
	p.Run = func(c *kit.Ctx) {
		runLarge(c, kinds[:1], []string{""}, largeTrip)
		var cases []tripCase
		u := fsUni(c, false)
		states := explore(c, ref.New(fsx.Main), append(u.mk(), u.rm()...), 12, 60000)
		for _, s := range states {
			cases = append(cases, tripCase{Ops: s.ops})
		}
		c.Set("trees", len(states))
		var ops []fsx.Op
		for _, o := range append(u.mk(), u.rm()...) {
			ops = append(ops, o)
			o.G = fsx.Ext
			ops = append(ops, o)
		}
		ops = append(ops, fsx.Op{K: "reload", P: "/"})
		for d := 0; d <= c.Pick(2, 3); d++ {
			if d == 3 {
				ops = ops[:len(ops)/2]
			}
			n := pow(len(ops), d)
			for i := 0; i < n; i++ {
				cases = append(cases, tripCase{Init: "multi", Ops: sequences(ops, d, i), Via: []string{"", "embed"}[i%2]})
			}
		}
		names := []string{"/", "/plain", "/a/deep/path.txt"}
		for _, n := range oddNames {
			names = append(names, "/"+n, "/"+n+"/"+n)
		}
		names = append(names, "/<&>", "/\u2028", "/\u00a0x", "/e\u0301", "/\U0001F600", "/"+strings.Repeat("d/", 60)+"f")
		times := []string{"2020-02-29T23:59:59.999999999Z", "1970-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2021-06-01T12:00:00.1+05:30", "1999-12-31T00:00:00.000000001-12:00"}
		for _, n := range names {
			for _, dir := range []bool{false, true} {
				for _, m := range []uint32{0644, 0755} {
					for k, at := range times {
						sz := []int{0, 1, 5000}[k%3]
						if dir {
							sz = 4096
						}
						cases = append(cases, tripCase{Init: "given", Name: n, Mode: m, Dir: dir, Size: sz, At: at})
					}
				}
			}
		}
		for _, n := range []string{"/", "/f", "/d/f"} {
			for _, dir := range []bool{false, true} {
				for _, via := range []string{"", "embed"} {
					cases = append(cases, tripCase{Init: "bare", Name: n, Mode: 0644, Dir: dir, Size: 3, At: times[0], Via: via})
				}
			}
		}
		for m := 0; m < 512; m++ {
			for _, x := range []fs.FileMode{0, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky, fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky} {
				for _, dir := range []bool{false, true} {
					cases = append(cases, tripCase{Init: "given", Name: "/f", Mode: uint32(m) | uint32(x), Dir: dir, Size: 3, At: times[0]})
				}
			}
		}
		for _, n := range []int{0, 1, 2, 3, 4, 5, 255, 256, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 20, 1<<20 + 1} {
			for _, via := range []string{"", "embed"} {
				cases = append(cases, tripCase{Init: "given", Name: "/big", Mode: 0600, Size: n, At: times[1], Via: via})
			}
		}
		if c.Thorough() {
			cases = append(cases, tripCase{Init: "given", Name: "/big", Mode: 0600, Size: 32 << 20, At: times[1], Via: "embed"})
		}
		c.States.Store(int64(len(cases)))
		// the zone is that of the process: one after the other
		for a := range zones {
			for b := range zones {
				for _, at := range []string{"2020-02-29T23:59:59.999999999Z", "1999-12-31T00:00:00.000000001Z"} {
					t := tripCase{Init: "zone", Size: 10*a + b, At: at}
					c.States.Add(1)
					c.Traces.Add(1)
					c.Check(-1, fmt.Sprint(t), t, func() error { return runTrip(c, t) })
				}
			}
		}
		c.Par(len(cases), func(i, w int) {
			c.Transitions.Add(3)
			c.Traces.Add(1)
			t := cases[i]
			c.Check(int64(i), fmt.Sprint(t), t, func() error { return runTrip(c, t) })
			if i%3001 == 3000 && c.WantSample() {
				c.Sample(t)
			}
		})
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		if ok, err := asLarge(c, raw, largeTrip); ok {
			return err
		}
		var t tripCase
		if err := json.Unmarshal(raw, &t); err != nil {
			return err
		}
		return runTrip(c, t)
	}
	return p
}
