// Package ref is the reference model: a file system is a map from (package, clean absolute name) to a node.
// It is deliberately boring.
package ref

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
)

// Path names an entry.
type Path struct{ Pkg, Name string }

func (p Path) String() string { return p.Pkg + ":" + p.Name }

// Node is one entry.
type Node struct {
	Dir  bool
	Data string
	Perm fs.FileMode
}

// FS is the model. The root directory of every package is implicit: it always exists and is never stored.
type FS struct {
	Main string // current module
	M    map[Path]Node
	Root map[string]bool // packages whose root directory is known to be an entry
}

// New returns an empty model.
func New(main string) *FS { return &FS{Main: main, M: map[Path]Node{}, Root: map[string]bool{}} }

// Clone copies the model.
func (f *FS) Clone() *FS {
	g := New(f.Main)
	for k, v := range f.M {
		g.M[k] = v
	}
	for k, v := range f.Root {
		g.Root[k] = v
	}
	return g
}

// Get looks an entry up.
func (f *FS) Get(p Path) (Node, bool) {
	if p.Name == "/" {
		return Node{Dir: true, Perm: 0755}, true
	}
	n, ok := f.M[p]
	return n, ok
}

// Kids tells whether anything lies beneath p.
func (f *FS) Kids(p Path) bool {
	for k := range f.M {
		if k != p && Within(k, p) {
			return true
		}
	}
	return false
}

// Within tells whether k is p or lies beneath it.
func Within(k, p Path) bool {
	if k.Pkg != p.Pkg {
		return false
	}
	if p.Name == "/" || k.Name == p.Name {
		return true
	}
	return strings.HasPrefix(k.Name, p.Name+"/")
}

// MkdirAll is os.MkdirAll.
func (f *FS) MkdirAll(p Path, perm fs.FileMode) bool {
	var missing []Path
	for q := p; q.Name != "/"; q.Name = path.Dir(q.Name) {
		n, ok := f.M[q]
		if ok && !n.Dir {
			return false
		}
		if !ok {
			missing = append(missing, q)
		}
	}
	for _, q := range missing {
		f.M[q] = Node{Dir: true, Perm: perm}
	}
	if len(missing) > 0 || p.Name == "/" {
		f.Root[p.Pkg] = true
	}
	return true
}

// Create creates a file with the given content.
func (f *FS) Create(p Path, data string) bool {
	if p.Name == "/" {
		return false
	}
	if n, ok := f.M[p]; ok && n.Dir {
		return false
	}
	d, ok := f.Get(Path{p.Pkg, path.Dir(p.Name)})
	if !ok || !d.Dir {
		return false
	}
	f.M[p] = Node{Data: data, Perm: 0644}
	f.Root[p.Pkg] = true
	return true
}

// Remove removes a file or empty directory.
func (f *FS) Remove(p Path) bool {
	n, ok := f.M[p]
	if !ok || n.Dir && f.Kids(p) {
		return false
	}
	delete(f.M, p)
	return true
}

// RemoveAll removes a subtree.
func (f *FS) RemoveAll(p Path) bool {
	if p.Name == "/" {
		delete(f.Root, p.Pkg)
	}
	for k := range f.M {
		if Within(k, p) {
			delete(f.M, k)
		}
	}
	return true
}

// Less is file-tree order: component by component.
func Less(a, b string) bool {
	x, y := strings.Split(strings.Trim(a, "/"), "/"), strings.Split(strings.Trim(b, "/"), "/")
	if a == "/" {
		x = nil
	}
	if b == "/" {
		y = nil
	}
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// Names lists the entries of a package (without the root) in file-tree order.
func (f *FS) Names(pkg string) []string {
	var s []string
	for k := range f.M {
		if k.Pkg == pkg {
			s = append(s, k.Name)
		}
	}
	sort.Slice(s, func(i, j int) bool { return Less(s[i], s[j]) })
	return s
}

// Children lists the direct children of a directory.
func (f *FS) Children(p Path) []string {
	var s []string
	for k := range f.M {
		if k.Pkg == p.Pkg && k.Name != p.Name && path.Dir(k.Name) == p.Name {
			s = append(s, k.Name)
		}
	}
	sort.Strings(s)
	return s
}

// Step is one callback of a walk.
type Step struct{ Name string }

// Walk simulates a walk: answer gives the reaction to the i-th callback: 0 go on, 1 SkipDir, 2 stop with an error.
// The result tells the names visited in order and whether the walk ended in the error. rootEntry tells whether the root
// directory itself is an entry.
func (f *FS) Walk(p Path, rootEntry bool, answer func(i int) int) (seen []string, failed bool) {
	type item struct {
		name string
		dir  bool
	}
	var items []item
	if p.Name == "/" {
		if rootEntry {
			items = append(items, item{"/", true})
		}
	} else if n, ok := f.M[p]; ok {
		items = append(items, item{p.Name, n.Dir})
	}
	for _, n := range f.Names(p.Pkg) {
		if n != p.Name && Within(Path{p.Pkg, n}, p) {
			items = append(items, item{n, f.M[Path{p.Pkg, n}].Dir})
		}
	}
	skip := ""
	for _, it := range items {
		if skip != "" && Within(Path{"", it.name}, Path{"", skip}) {
			continue
		}
		skip = ""
		i := len(seen)
		seen = append(seen, it.name)
		switch answer(i) {
		case 1:
			if it.dir {
				skip = it.name
			} else {
				if it.name == p.Name {
					return seen, false
				}
				skip = path.Dir(it.name)
			}
		case 2:
			return seen, true
		}
	}
	return seen, false
}

// Canon is the canonical form of the model state.
func (f *FS) Canon() string {
	var s []string
	for k, v := range f.M {
		s = append(s, fmt.Sprintf("%s|%v|%o|%s", k, v.Dir, v.Perm, v.Data))
	}
	for k, v := range f.Root {
		if v {
			s = append(s, k+" rooted")
		}
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}
