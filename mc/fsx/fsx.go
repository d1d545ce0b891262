// Package fsx drives the real file systems through their exported API and compares them with the reference model.
package fsx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"

	"verif.local/mc/ref"
)

// Main is the module path of the current module in all file-system checks.
const Main = "example.com/app"

// MemDir is the (non-existing) module directory of in-memory file systems.
const MemDir = "/nonexistent-build-dir/src/theapp"

// Back is one real file system.
type Back struct {
	Kind string // "mem" or "os"
	Dir  string
	FS   pkging.Pkger
	Lax  bool // do not look at the meaning of errors
}

// Info is the module information of a directory.
func Info(dir string) here.Info {
	return here.Info{Dir: dir, ImportPath: Main, Name: "app",
		Module: here.Module{Path: Main, Main: true, Dir: dir, GoMod: filepath.Join(dir, "go.mod"), GoVersion: "1.13"}}
}

// NewMem makes an empty in-memory file system.
func NewMem() *Back {
	p, err := mem.New(Info(MemDir))
	if err != nil {
		panic(err)
	}
	return &Back{Kind: "mem", Dir: MemDir, FS: p}
}

// NewOS makes an empty on-disk file system in dir, which is emptied first (by the harness, not by the code under test).
func NewOS(dir string) *Back {
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	p, err := stdos.New(Info(dir))
	if err != nil {
		panic(err)
	}
	return &Back{Kind: "os", Dir: dir, FS: p}
}

// Op is one operation of a history.
type Op struct {
	K string `json:"op"`
	P string `json:"path"`
	D string `json:"data,omitempty"`
	M uint32 `json:"perm,omitempty"`
	S int    `json:"spelling,omitempty"`
	G string `json:"pkg,omitempty"`
}

func (o Op) String() string {
	s := o.K + "(" + o.P
	if o.G != "" {
		s = o.K + "(" + o.G + ":" + o.P
	}
	if o.K == "create" {
		s += fmt.Sprintf(",%q", o.D)
	}
	if o.K == "mkdir" {
		s += fmt.Sprintf(",%o", o.M)
	}
	if o.S != 0 {
		s += fmt.Sprintf(",spelling%d", o.S)
	}
	return s + ")"
}

// Path is the model path.
func (o Op) Path() ref.Path {
	g := o.G
	if g == "" {
		g = Main
	}
	return ref.Path{Pkg: g, Name: o.P}
}

// Reload serialises and re-hydrates an in-memory file system, or opens the on-disk one again.
func (b *Back) Reload() error {
	if b.Kind == "os" {
		p, err := stdos.New(Info(b.Dir))
		if err != nil {
			return err
		}
		b.FS = p
		return nil
	}
	j, err := b.FS.(*mem.Pkger).MarshalJSON()
	if err != nil {
		return err
	}
	p := &mem.Pkger{}
	if err := p.UnmarshalJSON(j); err != nil {
		return err
	}
	b.FS = p
	return nil
}

// Ext is another package.
const Ext = "example.com/ext"

// NewMulti makes an in-memory file system as packing leaves it: two packages, and files whose directories were not embedded.
func NewMulti() (*Back, *ref.FS) {
	d := embed.Data{Infos: map[string]here.Info{}, Files: map[string]embed.File{}, Here: Info(MemDir)}
	ext := here.Info{Dir: "/nonexistent-build-dir/ext", ImportPath: Ext, Name: "ext", Module: here.Module{Path: Ext, Dir: "/nonexistent-build-dir/ext"}}
	d.Infos[Main] = d.Here
	d.Infos[Ext] = ext
	f := ref.New(Main)
	add := func(g, n string, dir bool, data string, perm fs.FileMode) {
		p := ref.Path{Pkg: g, Name: n}
		f.M[p] = ref.Node{Dir: dir, Data: data, Perm: perm}
		in := d.Infos[g]
		mode := perm
		if dir {
			mode |= fs.ModeDir
		}
		ef := embed.File{Here: in, Path: here.Path{Pkg: g, Name: n}, Info: &pkging.FileInfo{Details: pkging.Details{
			Name: path.Base(n), Size: int64(len(data)), Mode: mode, IsDir: dir, ModTime: pkging.ModTime(time.Unix(1500000000, 12345))}}}
		if !dir {
			ef.Data = []byte(data)
		}
		d.Files[p.String()] = ef
	}
	add(Main, "/a/b", false, "x", 0644)    // its directory is not embedded
	add(Main, "/a-/p/q", false, "q", 0644) // nor those
	add(Main, "/ab", true, "", 0755)
	add(Main, "/ab/b", false, "yz", 0600)
	add(Ext, "/a/b", false, "e", 0644)
	add(Ext, "/ab", false, "other", 0644)
	add(Ext, "/a/b-c", true, "", 0755)
	j, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	p := &mem.Pkger{}
	if err := p.UnmarshalJSON(j); err != nil {
		panic(err)
	}
	return &Back{Kind: "mem", Dir: MemDir, FS: p}, f
}

// Spellings is the number of spellings Spell knows.
const Spellings = 12

// Spell writes the location in one of its spellings.
func Spell(i int, dir string, p ref.Path) string {
	n := p.Name
	q := ""
	if p.Pkg != Main {
		q = p.Pkg + ":"
	}
	switch i {
	case 0:
		return q + n
	case 1:
		return p.Pkg + ":" + n
	case 2:
		if q == "" {
			return ":" + n
		}
		return q + n
	case 3:
		if q == "" {
			return dir + n
		}
		return q + n
	case 4:
		return q + n + "/"
	case 5:
		return q + strings.ReplaceAll(n, "/", "//")
	case 6:
		return q + strings.ReplaceAll(n, "/", "/./")
	case 7:
		if n == "/" {
			return q + "/zz/.."
		}
		return q + path.Dir(n) + "/zz/../" + path.Base(n)
	case 8:
		if n == "/" {
			return q + `\`
		}
		return q + strings.ReplaceAll(n, "/", `\`)
	case 9:
		return " " + q + n + " "
	case 10:
		if q == "" {
			return "/.." + n
		}
		return q + n
	case 11:
		// a back-slash dot-dot that stays inside
		if n == "/" {
			return q + `/zz\..`
		}
		return q + `/zz\..` + n
	}
	panic("spelling")
}

// Model applies the operation to the model; want tells whether it succeeds.
func (o Op) Model(f *ref.FS) (want bool) {
	p := o.Path()
	switch o.K {
	case "mkdir":
		return f.MkdirAll(p, fs.FileMode(o.M))
	case "create":
		return f.Create(p, o.D)
	case "rm":
		return f.Remove(p)
	case "rmall":
		return f.RemoveAll(p)
	case "reload":
		return true
	}
	panic("op " + o.K)
}

// Undefined tells whether the outcome is not claimed: creating a file where a directory is implied by entries beneath it.
func (o Op) Undefined(f *ref.FS) bool {
	p := o.Path()
	_, ok := f.M[p]
	return o.K == "create" && !ok && f.Kids(p)
}

// Do applies the operation to the real file system.
func (b *Back) Do(o Op) error {
	s := Spell(o.S, b.Dir, o.Path())
	switch o.K {
	case "mkdir":
		return b.FS.MkdirAll(s, fs.FileMode(o.M))
	case "create":
		f, err := b.FS.Create(s)
		if err != nil {
			return err
		}
		if o.D != "" {
			n, err := f.Write([]byte(o.D))
			if err != nil {
				return fmt.Errorf("write: %v", err)
			}
			if n != len(o.D) {
				return fmt.Errorf("write wrote %d of %d bytes", n, len(o.D))
			}
		}
		if f.Name() != o.Path().String() {
			return fmt.Errorf("BAD handle of %s is named %q", s, f.Name())
		}
		return f.Close()
	case "rm":
		return b.FS.Remove(s)
	case "rmall":
		return b.FS.RemoveAll(s)
	case "reload":
		return b.Reload()
	}
	panic("op " + o.K)
}

// Step applies the operation to both and compares success. Any error text starting with BAD is a failure on its own.
func (b *Back) Step(o Op, f *ref.FS) error {
	free := o.K == "rmall" && ParentIsFile(f, o.Path()) // may fail, must have no effect
	want := o.Model(f)
	err := b.Do(o)
	if free {
		return nil
	}
	if err != nil && strings.Contains(err.Error(), "BAD ") {
		return err
	}
	if want && err != nil {
		return fmt.Errorf("%s: %v must succeed, got %v", b.Kind, o, err)
	}
	if !want && err == nil {
		return fmt.Errorf("%s: %v must fail, but reported success", b.Kind, o)
	}
	return nil
}

// Base is the expected base name.
func Base(p ref.Path) string { return path.Base(p.Name) }

// InfoIs compares file information with a model node.
func InfoIs(fi os.FileInfo, p ref.Path, n ref.Node) error {
	if fi == nil {
		return fmt.Errorf("%v: nil file info", p)
	}
	if p.Name != "/" && fi.Name() != path.Base(p.Name) {
		return fmt.Errorf("%v: name %q, want %q", p, fi.Name(), path.Base(p.Name))
	}
	if fi.IsDir() != n.Dir {
		return fmt.Errorf("%v: IsDir()=%v, want %v", p, fi.IsDir(), n.Dir)
	}
	if p.Name != "/" && (fi.Mode().IsDir() != n.Dir || fi.Mode().IsRegular() == n.Dir) {
		return fmt.Errorf("%v: mode %v does not say dir=%v", p, fi.Mode(), n.Dir)
	}
	if !n.Dir && fi.Size() != int64(len(n.Data)) {
		return fmt.Errorf("%v: size %d, want %d", p, fi.Size(), len(n.Data))
	}
	if p.Name != "/" && fi.Mode().Perm() != n.Perm {
		return fmt.Errorf("%v: permissions %v, want %v", p, fi.Mode().Perm(), n.Perm)
	}
	if fi.ModTime().IsZero() {
		return fmt.Errorf("%v: zero modification time", p)
	}
	return nil
}

// ReadFile opens and reads a file.
func ReadFile(f pkging.Pkger, name string) ([]byte, error) {
	h, err := f.Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}

// Content compares Stat/Open/Read of one path with the model (C01).
func (b *Back) Content(f *ref.FS, p ref.Path, spelled string) error {
	n, ok := f.Get(p)
	fi, err := b.FS.Stat(spelled)
	if !ok {
		if err == nil {
			return fmt.Errorf("%s: Stat(%q) succeeds, but it does not exist", b.Kind, spelled)
		}
		if !b.Lax && !os.IsNotExist(err) && !ParentIsFile(f, p) {
			return fmt.Errorf("%s: Stat(%q) error %q does not mean 'does not exist'", b.Kind, spelled, err)
		}
		if h, err := b.FS.Open(spelled); err == nil {
			h.Close()
			return fmt.Errorf("%s: Open(%q) succeeds, but it does not exist", b.Kind, spelled)
		} else if !b.Lax && !os.IsNotExist(err) && !ParentIsFile(f, p) {
			return fmt.Errorf("%s: Open(%q) error %q does not mean 'does not exist'", b.Kind, spelled, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: Stat(%q): %v, but it exists", b.Kind, spelled, err)
	}
	if err := InfoIs(fi, p, n); err != nil {
		return fmt.Errorf("%s: Stat: %v", b.Kind, err)
	}
	h, err := b.FS.Open(spelled)
	if err != nil {
		return fmt.Errorf("%s: Open(%q): %v, but it exists", b.Kind, spelled, err)
	}
	defer h.Close()
	if h.Name() != p.String() {
		return fmt.Errorf("%s: handle of %q is named %q, want %q", b.Kind, spelled, h.Name(), p)
	}
	if h.Path().Pkg != p.Pkg || h.Path().Name != p.Name {
		return fmt.Errorf("%s: handle of %q has path %v, want %v", b.Kind, spelled, h.Path(), p)
	}
	fi, err = h.Stat()
	if err != nil {
		return fmt.Errorf("%s: handle stat of %q: %v", b.Kind, spelled, err)
	}
	if err := InfoIs(fi, p, n); err != nil {
		return fmt.Errorf("%s: handle Stat: %v", b.Kind, err)
	}
	if n.Dir {
		return nil
	}
	data, err := io.ReadAll(h)
	if err != nil {
		return fmt.Errorf("%s: reading %q: %v", b.Kind, spelled, err)
	}
	if string(data) != n.Data {
		return fmt.Errorf("%s: %q reads %s, want %s", b.Kind, spelled, short(data), short([]byte(n.Data)))
	}
	return nil
}

// ParentIsFile tells whether some ancestor of p is a file.
func ParentIsFile(f *ref.FS, p ref.Path) bool {
	for q := path.Dir(p.Name); q != "/"; q = path.Dir(q) {
		if n, ok := f.M[ref.Path{Pkg: p.Pkg, Name: q}]; ok && !n.Dir {
			return true
		}
	}
	return false
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%d bytes %q...", len(b), b[:40])
	}
	return fmt.Sprintf("%q", b)
}

// Strays looks for entries that the model does not have. On disk the harness looks itself.
func (b *Back) Strays(f *ref.FS, pkgs ...string) error {
	if b.Kind == "os" {
		return filepath.Walk(b.Dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			n := filepath.ToSlash(strings.TrimPrefix(p, b.Dir))
			if n == "" {
				return nil
			}
			if _, ok := f.M[ref.Path{Pkg: Main, Name: n}]; !ok {
				return fmt.Errorf("os: stray entry %q on disk", n)
			}
			return nil
		})
	}
	for _, g := range append([]string{Main}, pkgs...) {
		var bad error
		err := b.FS.Walk(g+":/", func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			pk, n, _ := strings.Cut(p, ":")
			if _, ok := f.Get(ref.Path{Pkg: pk, Name: n}); !ok {
				if _, e := b.FS.Stat(p); e == nil && bad == nil {
					bad = fmt.Errorf("%s: stray entry %q", b.Kind, p)
				}
			}
			return nil
		})
		if bad != nil {
			return bad
		}
		_ = err
	}
	return nil
}

// Visit is one callback of a real walk.
type Visit struct {
	Path string
	Info os.FileInfo
}

// ErrStop is the error a walk callback returns to stop.
var ErrStop = fmt.Errorf("stop right here")

// Walk runs a real walk answering like the model's answer function.
func (b *Back) Walk(root string, answer func(i int) int) (v []Visit, err error) {
	err = b.FS.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		i := len(v)
		v = append(v, Visit{p, fi})
		switch answer(i) {
		case 1:
			return filepath.SkipDir
		case 2:
			return ErrStop
		}
		return nil
	})
	return
}

// WalkIs compares one walk with the model (C04). If the root directory is not known to be an entry,
// a visit of it is ignored (only for answers that always continue).
func (b *Back) WalkIs(f *ref.FS, p ref.Path, spelled string, answer func(i int) int) error {
	rooted := f.Root[p.Pkg] || b.Kind == "os"
	drop := !rooted && p.Name == "/"
	v, err := b.Walk(spelled, answer)
	if drop {
		// only used with an always-continue answer
		var w []Visit
		for _, x := range v {
			if x.Path != p.Pkg+":/" {
				w = append(w, x)
			}
		}
		v = w
	}
	seen, failed := f.Walk(p, rooted, answer)
	var got []string
	for _, x := range v {
		got = append(got, x.Path)
	}
	var want []string
	for _, s := range seen {
		want = append(want, p.Pkg+":"+s)
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Errorf("%s: Walk(%q) visited %q, want %q", b.Kind, spelled, got, want)
	}
	if failed && err != ErrStop {
		return fmt.Errorf("%s: Walk(%q) returned %v instead of the callback's error", b.Kind, spelled, err)
	}
	if !failed && err != nil {
		return fmt.Errorf("%s: Walk(%q) failed: %v", b.Kind, spelled, err)
	}
	for i, x := range v {
		q := ref.Path{Pkg: p.Pkg, Name: seen[i]}
		n, _ := f.Get(q)
		if err := InfoIs(x.Info, q, n); err != nil {
			return fmt.Errorf("%s: Walk(%q) info: %v", b.Kind, spelled, err)
		}
	}
	return nil
}

// Continue is the answer function of an undisturbed walk.
func Continue(int) int { return 0 }

// ReaddirIs checks one sequence of Readdir counts on a fresh handle (C06).
func (b *Back) ReaddirIs(f *ref.FS, p ref.Path, h interface {
	Readdir(int) ([]os.FileInfo, error)
}, counts []int) error {
	left := map[string]bool{}
	for _, c := range f.Children(p) {
		left[path.Base(c)] = true
	}
	for i, c := range counts {
		fis, err := h.Readdir(c)
		for _, fi := range fis {
			if fi == nil || !left[fi.Name()] {
				nm := "<nil>"
				if fi != nil {
					nm = fi.Name()
				}
				return fmt.Errorf("%s: Readdir(%v)[call %d] of %v lists %q, which is not a (further) direct child", b.Kind, counts, i, p, nm)
			}
			delete(left, fi.Name())
			q := ref.Path{Pkg: p.Pkg, Name: path.Join(p.Name, fi.Name())}
			n, ok := f.M[q]
			if !ok {
				return fmt.Errorf("%s: Readdir lists %v, which does not exist", b.Kind, q)
			}
			if err := InfoIs(fi, q, n); err != nil {
				return fmt.Errorf("%s: Readdir info: %v", b.Kind, err)
			}
		}
		// the slice is the caller's
		got := len(fis)
		for j := range fis {
			fis[j] = nil
		}
		fis = append(fis, nil, nil)[:got]
		if c <= 0 {
			if err != nil {
				return fmt.Errorf("%s: Readdir(%v)[call %d] of %v: %v", b.Kind, counts, i, p, err)
			}
			if len(left) != 0 {
				return fmt.Errorf("%s: Readdir(%v)[call %d] of %v did not list %v", b.Kind, counts, i, p, left)
			}
			continue
		}
		if len(fis) > c {
			return fmt.Errorf("%s: Readdir(%v)[call %d] of %v gave %d entries", b.Kind, counts, i, p, len(fis))
		}
		if len(fis) == 0 {
			if err != io.EOF {
				return fmt.Errorf("%s: Readdir(%v)[call %d] of %v: empty page with error %v, want io.EOF", b.Kind, counts, i, p, err)
			}
			if len(left) != 0 {
				return fmt.Errorf("%s: Readdir(%v)[call %d] of %v: io.EOF but %v were not listed", b.Kind, counts, i, p, left)
			}
		} else if err != nil {
			return fmt.Errorf("%s: Readdir(%v)[call %d] of %v: %v", b.Kind, counts, i, p, err)
		}
	}
	return nil
}

// Snap is a full observation used for "nothing changed" and "both agree".
func (b *Back) Snap(universe []ref.Path, times bool) string {
	var w bytes.Buffer
	for _, p := range universe {
		s := Spell(1, b.Dir, p)
		fi, err := b.FS.Stat(s)
		if err != nil {
			fmt.Fprintf(&w, "%v -\n", p)
			continue
		}
		fmt.Fprintf(&w, "%v %s %v %v", p, fi.Name(), fi.IsDir(), fi.Mode())
		if times {
			fmt.Fprintf(&w, " %s", fi.ModTime().Format(time.RFC3339Nano))
		}
		if !fi.IsDir() {
			d, err := ReadFile(b.FS, s)
			fmt.Fprintf(&w, " %d %q %v", fi.Size(), d, err)
		}
		fmt.Fprintln(&w)
	}
	return w.String()
}
