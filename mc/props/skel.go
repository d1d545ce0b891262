package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/here"

	"verif.local/mc/kit"
)

// skel is a scratch module (with neighbours) whose sources and files are rewritten from case to case. Which directories hold
// Go files never changes, so what the go command says about them stays true.
type skel struct {
	root        string // holds everything
	dir         string // the module directory
	info        here.Info
	have        map[string]string // path relative to root -> content ("\x00dir" for directories)
	base        map[string]string // entries that every case has
	grown, prog string
}

const isDir = "\x00dir"

// newSkel makes the module at rel below the scratch directory. base are the permanent files, relative to its parent directory.
func newSkel(c *kit.Ctx, rel string, base map[string]string) *skel {
	s := &skel{root: filepath.Join(c.Work, "skel"), have: map[string]string{}, base: base}
	s.dir = filepath.Join(s.root, rel)
	os.RemoveAll(s.root)
	s.base["pkger/go.mod"] = "module github.com/markbates/pkger\n\ngo 1.13\n"
	s.base["pkger/pkger.go"] = stubPkger
	s.sync(nil)
	os.Chdir(s.dir)
	in, err := here.Dir(s.dir)
	if err != nil || in.Dir != s.dir {
		panic(fmt.Sprintf("harness: go list in %s: %+v %v", s.dir, in, err))
	}
	s.info = in
	return s
}

// stubPkger stands in for the real package where sources are only parsed and listed.
const stubPkger = `package pkger

import ("net/http"; "os"; "path/filepath")

type Dir string
func (d Dir) Open(string) (http.File, error) { return nil, nil }
func Open(string) (*os.File, error) { return nil, nil }
func Stat(string) (os.FileInfo, error) { return nil, nil }
func Create(string) (*os.File, error) { return nil, nil }
func MkdirAll(string, os.FileMode) error { return nil }
func Walk(string, filepath.WalkFunc) error { return nil }
func Include(s string) string { return s }
func Remove(string) error { return nil }
func RemoveAll(string) error { return nil }
func Parse(string) (string, error) { return "", nil }
`

// sync makes the tree consist of the base and the given entries.
func (s *skel) sync(more map[string]string) {
	want := map[string]string{}
	for k, v := range s.base {
		want[k] = v
	}
	for k, v := range more {
		want[k] = v
	}
	for k := range want { // parents
		for d := filepath.Dir(k); d != "."; d = filepath.Dir(d) {
			if _, ok := want[d]; !ok {
				want[d] = isDir
			}
		}
	}
	for k, v := range s.have {
		if w, ok := want[k]; !ok || (w == isDir) != (v == isDir) {
			os.RemoveAll(filepath.Join(s.root, k))
		}
	}
	// what lay below a removed directory is gone too
	for k := range s.have {
		if _, err := os.Lstat(filepath.Join(s.root, k)); err != nil {
			delete(s.have, k)
		}
	}
	for k, v := range want {
		if o, ok := s.have[k]; ok && o == v {
			continue
		}
		p := filepath.Join(s.root, k)
		var err error
		if v == isDir {
			err = os.MkdirAll(p, 0755)
		} else {
			if err = os.MkdirAll(filepath.Dir(p), 0755); err == nil {
				err = os.WriteFile(p, []byte(v), 0644)
			}
		}
		if err != nil {
			panic(err)
		}
	}
	s.have = want
}

// rel is the path of a file of the module, relative to the root.
func (s *skel) rel(name string) string {
	r, err := filepath.Rel(s.root, filepath.Join(s.dir, name))
	if err != nil {
		panic(err)
	}
	return r
}

// goMod is the text of a go.mod with neighbours.
func goMod(path string, neighbours ...string) string {
	var w strings.Builder
	fmt.Fprintf(&w, "module %s\n\ngo 1.13\n\nrequire github.com/markbates/pkger v0.0.0\nreplace github.com/markbates/pkger => ../pkger\n", path)
	for _, n := range neighbours {
		p, d, _ := strings.Cut(n, "=")
		fmt.Fprintf(&w, "require %s v0.0.0\nreplace %s => %s\n", p, p, d)
	}
	return w.String()
}
