package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

func itoa(n int) string { return strconv.Itoa(n) }

// packLayout is a module with declarations that the command packs.
type packLayout struct {
	Name  string
	files map[string]string // below the root that holds app and ext
	args  []string
	out   string // directory of the output, below app
	loose bool   // the output lies in a declared directory: compare without times and sizes of directories
	decl  []string
}

var bigFile = strings.Repeat("0123456789abcdef", 40) + fmt.Sprint(func() (n []int) {
	x := uint32(1)
	for i := 0; i < 9000; i++ {
		x = x*1664525 + 1013904223
		n = append(n, int(x>>12))
	}
	return
}())

func packLayouts() []packLayout {
	base := func(prog string, more map[string]string) map[string]string {
		m := map[string]string{
			"app/go.mod":       realModule(fsx.Main, fsx.Ext+"=../ext"),
			"app/go.sum":       goSum(),
			"app/main.go":      "package main\n\nimport (\n\t\"github.com/markbates/pkger\"\n\t_ \"" + fsx.Ext + "\"\n)\n\nfunc main() {\n" + prog + "}\n",
			"app/a.txt":        "content of a",
			"app/dir/b.txt":    "b",
			"app/dir/in/c.txt": "",
			"app/sub/x.go":     "package subpkg\n",
			"ext/go.mod":       "module " + fsx.Ext + "\n\ngo 1.13\n",
			"ext/ext.go":       "package ext\n",
			"ext/e.txt":        "of another module",
		}
		for k, v := range more {
			m[k] = v
		}
		return m
	}
	std := "\tpkger.Include(\"/a.txt\")\n\tpkger.Include(\"/dir\")\n\tpkger.Open(\"" + fsx.Ext + ":/e.txt\")\n"
	in := []string{"app/a.txt", "app/dir", "app/dir/b.txt", "app/dir/in", "app/dir/in/c.txt", "ext/e.txt"}
	return []packLayout{
		{Name: "root", files: base(std, nil), decl: in},
		{Name: "sub", files: base(std, nil), out: "sub", args: []string{"-o", "sub"}, decl: in},
		{Name: "whole", files: base("\tpkger.Include(\"/\")\n", nil), loose: true, decl: in[:5]},
		{Name: "big", files: base(std, map[string]string{"app/dir/big.txt": bigFile}), args: []string{"-include", "/sub"}, decl: append(in, "app/dir/big.txt")},
		{Name: "huge", files: base(std, map[string]string{"app/dir/huge.bin": string(blob(1300000, 9))}), decl: append(in, "app/dir/huge.bin")},
	}
}

// packCrash is one run of the command with a fault.
type packCrash struct {
	Part   string `json:"part"`
	Layout string `json:"layout"`
	Old    bool   `json:"old_output"`
	Sys    string `json:"syscall,omitempty"`
	How    string `json:"fault,omitempty"`
	When   string `json:"when,omitempty"`
	Data   bool   `json:"on_declared_files,omitempty"`
	K      int    `json:"k,omitempty"`
	Name   string `json:"name,omitempty"`
}

// module is a layout on disk.
type module struct {
	packLayout
	root, dir, file string
	names           map[string]string // the entries, before any pack
	ref, old        []byte
	info            here.Info
}

func (l packLayout) make(root string) *module {
	m := &module{packLayout: l, root: root, dir: filepath.Join(root, "app")}
	os.RemoveAll(root)
	plant(root, l.files)
	m.file = filepath.Join(m.dir, l.out, "pkged.go")
	return m
}

// prepare makes the reference output, and the one of an older content.
func (m *module) prepare() {
	a := filepath.Join(m.dir, "a.txt")
	at := time.Unix(1600000000, 5)
	plant(m.root, map[string]string{"app/a.txt": "older"})
	os.Chtimes(a, at, at)
	run := func() []byte {
		if r := tool(m.dir, m.args...); r.code != 0 {
			panic("harness: " + m.Name + ": " + r.String())
		}
		b, err := os.ReadFile(m.file)
		if err != nil {
			panic(err)
		}
		os.Remove(m.file)
		return b
	}
	run() // settles go.mod and go.sum
	m.old = run()
	plant(m.root, map[string]string{"app/a.txt": m.files["app/a.txt"]})
	os.Chtimes(a, at, at)
	m.ref = run()
	m.names = snapshot(m.root)
}

// literal is the data of a packed output: the longest string of the file.
func literal(src []byte) (string, error) {
	f, err := goparser.ParseFile(token.NewFileSet(), "pkged.go", src, 0)
	if err != nil {
		return "", err
	}
	s := ""
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			if v, err := strconv.Unquote(l.Value); err == nil && len(v) > len(s) {
				s = v
			}
		}
		return true
	})
	return s, nil
}

// gist is what a packed output holds, without times and sizes of directories.
func gist(src []byte) (string, error) {
	s, err := literal(src)
	if err != nil {
		return "", err
	}
	fs, err := mem.UnmarshalEmbed([]byte(s))
	if err != nil {
		return "", err
	}
	var w strings.Builder
	f, err := goparser.ParseFile(token.NewFileSet(), "pkged.go", src, goparser.PackageClauseOnly)
	if err != nil {
		return "", err
	}
	in, err := fs.Current()
	if err != nil {
		return "", err
	}
	fmt.Fprintln(&w, f.Name.Name, in.ImportPath, in.Name, in.Module.Path)
	for _, p := range []string{fsx.Main, fsx.Ext} {
		err := fs.Walk(p+":/", func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			fmt.Fprintf(&w, "%s %v", p, i.Mode())
			if !i.IsDir() {
				f, err := fs.Open(p)
				if err != nil {
					return err
				}
				b, err := io.ReadAll(f)
				if err != nil {
					return err
				}
				fmt.Fprintf(&w, " %q", b)
			}
			w.WriteByte('\n')
			return nil
		})
		if err != nil && !os.IsNotExist(err) {
			return "", err
		}
	}
	return w.String(), nil
}

// is tells whether an output is the same as a reference, or at least packs the same.
func (m *module) is(b, ref []byte, strict bool) bool {
	if bytes.Equal(b, ref) {
		return true
	}
	if strict && !m.loose {
		return false
	}
	x, err := gist(b)
	if err != nil {
		return false
	}
	y, err := gist(ref)
	return err == nil && x == y
}

// leftover tells whether something is there that was not there before.
func (m *module) leftover() error {
	for p := range snapshot(m.root) {
		if _, ok := m.names[p]; !ok && filepath.Join(m.root, p) != m.file && filepath.Base(p) != "go.sum" {
			return fmt.Errorf("an error is reported, but %s is left behind", p)
		}
	}
	return nil
}

// tidies are the system calls after whose failure everything can still be cleaned up.
var tidies = map[string]bool{"write": true, "pwrite64": true, "writev": true, "copy_file_range": true, "close": true, "fsync": true, "fdatasync": true, "ftruncate": true, "fchmod": true, "chmod": true, "fchmodat": true, "rename": true, "renameat": true, "renameat2": true, "link": true, "linkat": true}

// restore puts the tree back to where it was before any pack, with the old output if there is one.
func (m *module) restore(old bool) {
	now := snapshot(m.root)
	for p := range now {
		if _, ok := m.names[p]; !ok {
			os.RemoveAll(filepath.Join(m.root, p))
		}
	}
	for p, s := range m.names {
		if now[p] != s {
			if k, b, ok := strings.Cut(s, " "); ok && !strings.HasPrefix(k, "d") {
				at := time.Unix(1600000000, 6)
				plant(m.root, map[string]string{p: b})
				os.Chtimes(filepath.Join(m.root, p), at, at)
			}
		}
	}
	if old {
		if err := os.WriteFile(m.file, m.old, 0644); err != nil {
			panic(err)
		}
	}
}

// verdict judges the output after a pack that may have failed.
func (m *module) verdict(old bool, ok, strict bool, what string) error {
	b, err := os.ReadFile(m.file)
	kind := ""
	switch {
	case os.IsNotExist(err):
		kind = "absent"
	case err != nil:
		return err
	case m.is(b, m.ref, strict):
		kind = "complete"
	case old && bytes.Equal(b, m.old):
		kind = "old"
	default:
		return fmt.Errorf("%s: the output holds %d bytes that are neither the complete result (%d bytes) nor what was there: ...%.120q", what, len(b), len(m.ref), b[max(0, len(b)-120):])
	}
	if ok && kind != "complete" {
		return fmt.Errorf("%s: success is reported, but the output is %s", what, kind)
	}
	now := snapshot(m.root)
	for p, s := range m.names {
		if filepath.Base(p) == "go.mod" || filepath.Base(p) == "go.sum" {
			continue
		}
		if now[p] != s {
			return fmt.Errorf("%s: %s was %.80q and is now %.80q", what, p, s, now[p])
		}
	}
	return nil
}

var sysCall = regexp.MustCompile(`^(\d+) +([a-z_0-9]+)\(`)
var quoted = regexp.MustCompile(`"([^"]*)"`)

// strace runs the command under strace.
func (m *module) strace(c *kit.Ctx, log string, opts ...string) (ran, string) {
	a := append([]string{"strace", "-f", "--seccomp-bpf", "-qq", "-o", log, "-e", "signal=none"}, opts...)
	a = append(append(a, os.Getenv("MC_CLI")), m.args...)
	os.Remove(log)
	r := runIn(m.dir, []string{"GOMAXPROCS=2"}, a...)
	b, _ := os.ReadFile(log)
	return r, string(b)
}

// paths are the -P options for the output (and what the command writes on its way to it), or for the declared files.
func (m *module) paths(written []string, data bool) (out []string) {
	if data {
		for _, d := range m.decl {
			out = append(out, "-P", filepath.Join(m.root, d))
		}
		return
	}
	for _, w := range append([]string{m.file}, written...) {
		out = append(out, "-P", w)
	}
	return
}

// writes finds the files the command writes in the module.
func (m *module) writes(c *kit.Ctx, log string) ([]string, error) {
	r, l := m.strace(c, log, "-e", "trace=open,openat,creat,rename,renameat,renameat2,link,linkat,mkdir,mkdirat,unlink,unlinkat")
	if r.code != 0 {
		return nil, fmt.Errorf("%s", r)
	}
	seen := map[string]bool{m.file: true, filepath.Join(m.dir, "go.mod"): true, filepath.Join(m.dir, "go.sum"): true}
	var out []string
	for _, s := range strings.Split(l, "\n") {
		if strings.Contains(s, "open") && !strings.Contains(s, "O_CREAT") && !strings.Contains(s, "O_WRONLY") && !strings.Contains(s, "O_RDWR") {
			continue
		}
		for _, q := range quoted.FindAllStringSubmatch(s, -1) {
			p := q[1]
			if !filepath.IsAbs(p) {
				p = filepath.Join(m.dir, p)
			}
			if beneath(p, m.dir) && p != m.dir && !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

var errnos = map[string][]string{
	"open": {"EACCES", "ENOSPC", "EMFILE"}, "openat": {"EACCES", "ENOSPC", "EMFILE"}, "creat": {"ENOSPC"},
	"write": {"ENOSPC", "EIO"}, "pwrite64": {"ENOSPC", "EIO"}, "writev": {"ENOSPC"}, "copy_file_range": {"EIO"},
	"close": {"EIO"}, "fsync": {"EIO"}, "fdatasync": {"EIO"}, "ftruncate": {"EIO"}, "truncate": {"EIO"}, "fchmod": {"EPERM"}, "chmod": {"EPERM"}, "fchmodat": {"EPERM"},
	"rename": {"EACCES", "EIO"}, "renameat": {"EACCES", "EIO"}, "renameat2": {"EACCES", "EIO"}, "link": {"EIO"}, "linkat": {"EIO"},
	"unlink": {"EACCES"}, "unlinkat": {"EACCES"}, "rmdir": {"EACCES"}, "mkdir": {"EACCES"}, "mkdirat": {"EACCES"},
	"stat": {"EACCES"}, "lstat": {"EACCES"}, "newfstatat": {"EACCES"}, "fstat": {"EIO"}, "statx": {"EACCES"},
	"read": {"EIO"}, "pread64": {"EIO"}, "getdents64": {"EIO"}, "getdents": {"EIO"},
}

// crash runs the command with a fault.
func (m *module) crash(c *kit.Ctx, pc packCrash, written []string, log string) error {
	m.restore(pc.Old)
	how := "error=" + pc.How
	if pc.How == "KILL" {
		how = "signal=KILL"
	}
	see := pc.Sys
	if see == "close" {
		see = "open,openat,creat,close"
	}
	r, l := m.strace(c, log, append(m.paths(written, pc.Data), "-e", "trace="+see, "-e", "inject="+pc.Sys+":"+how+":when="+pc.When)...)
	if r.hung {
		return fmt.Errorf("the command hangs")
	}
	hit := strings.Contains(l, "INJECTED") || strings.Contains(l, "+++ killed by SIGKILL") || pc.How == "KILL" && r.code != 0
	c.Transitions.Add(1)
	b, _ := os.ReadFile(m.file)
	st := "absent"
	if b != nil {
		st = "old"
		if m.is(b, m.ref, false) {
			st = "complete"
		}
	}
	c.Outcome("after", fmt.Sprintf("fault=%v exit0=%v %s", hit, r.code == 0, st))
	if err := m.verdict(pc.Old, r.code == 0, false, r.String()); err != nil {
		return err
	}
	if hit {
		c.Distinct.Add(1)
	}
	if hit && r.code > 0 && pc.How != "KILL" && (pc.Data || tidies[pc.Sys]) {
		if err := m.leftover(); err != nil {
			return fmt.Errorf("%v: %s", err, r)
		}
	}
	if r.code == 0 && !pc.Data && pc.Sys == "close" && writeClosed(l) {
		return errors.New("closing the written output failed, but no error is reported")
	}
	if !hit && r.code != 0 {
		return fmt.Errorf("without a fault: %s", r)
	}
	r = tool(m.dir, m.args...)
	if r.code != 0 {
		return fmt.Errorf("the next run fails: %s", r)
	}
	return m.verdict(false, true, true, "the next run")
}

var opened = regexp.MustCompile(`(?:open|openat|creat)\(.*= (\d+)$`)
var badClose = regexp.MustCompile(`close\((\d+)\).*INJECTED`)

// writeClosed tells whether the close that failed was one of a file opened for writing.
func writeClosed(log string) bool {
	fds := map[string]bool{}
	for _, s := range strings.Split(log, "\n") {
		if g := opened.FindStringSubmatch(s); g != nil {
			fds[g[1]] = strings.Contains(s, "O_WRONLY") || strings.Contains(s, "O_RDWR") || strings.Contains(s, "creat(")
		}
		if g := badClose.FindStringSubmatch(s); g != nil && fds[g[1]] {
			return true
		}
	}
	return false
}

// faults lists the faults from a run without any.
func (m *module) faults(c *kit.Ctx, old, data bool, written []string, log string) (out []packCrash, err error) {
	m.restore(old)
	r, l := m.strace(c, log, m.paths(written, data)...)
	if r.code != 0 {
		return nil, fmt.Errorf("%s", r)
	}
	per := map[string]map[string]int{}
	for _, s := range strings.Split(l, "\n") {
		if g := sysCall.FindStringSubmatch(s); g != nil {
			if per[g[2]] == nil {
				per[g[2]] = map[string]int{}
			}
			per[g[2]][g[1]]++
		}
	}
	var names []string
	for s := range per {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		n := 0
		for _, k := range per[s] {
			n = max(n, k)
		}
		if data && !c.Thorough() {
			n = min(n, 4)
		}
		for k := 1; k <= n; k++ {
			pc := packCrash{Part: "crash", Layout: m.Name, Old: old, Data: data, Sys: s, How: "KILL", When: itoa(k)}
			if !data || c.Thorough() || s == "read" || s == "getdents64" {
				out = append(out, pc)
			}
			for j, e := range errnos[s] {
				if !c.Thorough() && (data && j > 0) {
					continue
				}
				pc.How = e
				out = append(out, pc)
				if k < n || c.Thorough() {
					pc.When = itoa(k) + "+"
					out = append(out, pc)
					pc.When = itoa(k)
				}
			}
		}
	}
	return
}

// failAt fails after n bytes.
type failAt struct{ n int }

func (f *failAt) Write(b []byte) (int, error) {
	if len(b) <= f.n {
		f.n -= len(b)
		return len(b), nil
	}
	n := f.n
	f.n = 0
	return n, errors.New("no space")
}

var limitOnce sync.Once

// limited runs f while no file may grow beyond k bytes.
func limited(k int, f func() error) error {
	limitOnce.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
	var was syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
		panic(err)
	}
	lim := was
	lim.Cur = uint64(k)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was)
	return f()
}

func (m *module) parse() parser.Decls {
	if m.info.Dir == "" {
		in, err := here.Dir(m.dir)
		if err != nil {
			panic(err)
		}
		m.info = in
	}
	var inc []string
	for i, a := range m.args {
		if a == "-include" {
			inc = append(inc, m.args[i+1])
		}
	}
	d, err := parser.Parse(m.info, inc...)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func (m *module) pkg(d parser.Decls) error {
	return kit.Guard(func() error { return cmds.Package(m.info, m.file, d) })
}

// inProcess judges one call of the packing function.
func (m *module) inProcess(pc packCrash) error {
	m.restore(pc.Old)
	d := m.parse()
	var err error
	undo := func() {}
	switch pc.Part {
	case "limit":
		err = limited(pc.K, func() error { return m.pkg(d) })
	case "writer":
		w := &failAt{pc.K}
		if err := pkgutil.Stuff(w, m.info, d); err == nil {
			return fmt.Errorf("the writer failed after %d bytes, but there is no error", pc.K)
		}
		return nil
	case "unreadable", "gone", "gone late":
		p := filepath.Join(m.root, pc.Name)
		i, e := os.Stat(p)
		if e != nil {
			panic(e)
		}
		par := filepath.Dir(p)
		pi, _ := os.Stat(par)
		if pc.Part == "unreadable" {
			os.Chmod(p, 0)
			undo = func() { os.Chmod(p, i.Mode()) }
		} else {
			if pc.Part == "gone late" {
				if _, err := d.Files(); err != nil {
					panic(err)
				}
			}
			away := filepath.Join(m.root, "away")
			os.Rename(p, away)
			undo = func() { os.Rename(away, p); os.Chtimes(par, pi.ModTime(), pi.ModTime()) }
		}
		err = m.pkg(d)
		undo()
		if err == nil && (pc.Part == "unreadable" || beneathAny(pc.Name, []string{"app/a.txt", "ext/e.txt"}) || pc.Name == "app/dir") && !m.loose {
			return fmt.Errorf("%s is %s, but there is no error", pc.Name, pc.Part)
		}
		if err == nil {
			return nil // fewer files were declared
		}
	case "closed":
		od := filepath.Dir(m.file)
		i, _ := os.Stat(od)
		os.Chmod(od, 0555)
		err = m.pkg(d)
		os.Chmod(od, i.Mode())
		if err == nil {
			return fmt.Errorf("the directory is not writable, but there is no error")
		}
	}
	if e := m.verdict(pc.Old, err == nil, true, fmt.Sprintf("error %v", err)); e != nil {
		return e
	}
	if err != nil {
		if e := m.leftover(); e != nil {
			return fmt.Errorf("%v: %v", e, err)
		}
	}
	if e := m.pkg(m.parse()); e != nil {
		return fmt.Errorf("the next run fails: %v", e)
	}
	return m.verdict(false, true, true, "the next run")
}

func beneathAny(p string, of []string) bool {
	for _, o := range of {
		if p == o {
			return true
		}
	}
	return false
}

// refs sets the references to what the packing function yields in this process.
func (m *module) refs() {
	os.Chdir(m.dir)
	m.prepare()
	for _, b := range []*[]byte{&m.old, &m.ref} {
		a := filepath.Join(m.dir, "a.txt")
		at := time.Unix(1600000000, 5)
		body := "older"
		if b == &m.ref {
			body = m.files["app/a.txt"]
		}
		plant(m.root, map[string]string{"app/a.txt": body})
		os.Chtimes(a, at, at)
		if err := m.pkg(m.parse()); err != nil {
			panic("harness: " + err.Error())
		}
		*b, _ = os.ReadFile(m.file)
		os.Remove(m.file)
	}
}

func runC13(c *kit.Ctx) {
	toolEnv(c)
	layouts := packLayouts()
	order := int64(0)
	check := func(pc packCrash, f func() error) {
		order++
		c.Evals.Add(1)
		c.Check(order, fmt.Sprintf("%+v", pc), pc, f)
		if c.WantSample() && order%97 == 5 {
			c.Sample(pc)
		}
	}
	// in this process; what the go command says is remembered, so all modules are at the same place
	for _, l := range layouts {
		if l.Name == "huge" { // only for the command
			continue
		}
		m := l.make(filepath.Join(c.Work, "in"))
		m.refs()
		for _, b := range [][]byte{m.ref, m.old} {
			if _, err := gist(b); err != nil {
				check(packCrash{Part: "load", Layout: l.Name}, func() error { return fmt.Errorf("a complete output can not be loaded: %v", err) })
			}
		}
		olds := []bool{true, false}
		if l.Name == "whole" {
			olds = olds[:1]
		}
		step := 1
		if len(m.ref) > 20000 {
			step = c.Pick(1021, 17)
		} else if l.Name != "root" {
			step = c.Pick(37, 1)
		}
		for _, old := range olds {
			for k := 0; k <= len(m.ref); k += step {
				if c.Expired() || c.Enough() {
					return
				}
				pc := packCrash{Part: "limit", Layout: l.Name, Old: old, K: k}
				c.Distinct.Add(1)
				check(pc, func() error { return m.inProcess(pc) })
			}
			for _, k := range []int{1, 511, 512, 4095, 4096, 4097, 8192, 32768, 65536, len(m.ref) - 2, len(m.ref) - 1, len(m.ref), len(m.ref) + 1} {
				pc := packCrash{Part: "limit", Layout: l.Name, Old: old, K: k}
				check(pc, func() error { return m.inProcess(pc) })
			}
			for _, p := range []string{"unreadable", "gone", "gone late"} {
				for _, n := range m.decl {
					pc := packCrash{Part: p, Layout: l.Name, Old: old, Name: n}
					c.Distinct.Add(1)
					check(pc, func() error { return m.inProcess(pc) })
				}
			}
			pc := packCrash{Part: "closed", Layout: l.Name, Old: old}
			check(pc, func() error { return m.inProcess(pc) })
		}
		var w bytes.Buffer
		m.restore(false)
		if err := pkgutil.Stuff(&w, m.info, m.parse()); err != nil {
			panic("harness: " + err.Error())
		}
		for k := 0; k < w.Len(); k += step {
			pc := packCrash{Part: "writer", Layout: l.Name, K: k}
			c.Distinct.Add(1)
			check(pc, func() error { return m.inProcess(pc) })
		}
		check(packCrash{Part: "writer", Layout: l.Name, K: w.Len() - 1}, func() error { return m.inProcess(packCrash{Part: "writer", K: w.Len() - 1}) })
	}
	// the command
	if _, err := exec.LookPath("strace"); err != nil {
		c.Capped()
		c.Set("strace", err.Error())
		return
	}
	type combo struct {
		l    packLayout
		old  bool
		data bool
	}
	var combos []combo
	for _, l := range layouts {
		if l.Name == "whole" || l.Name == "big" || l.Name == "huge" {
			if l.Name != "big" || c.Thorough() {
				combos = append(combos, combo{l, true, false})
			}
			continue
		}
		for _, old := range []bool{false, true} {
			if l.Name != "root" && !old && !c.Thorough() {
				continue
			}
			combos = append(combos, combo{l, old, false})
			if l.Name == "root" && old || c.Thorough() {
				combos = append(combos, combo{l, old, true})
			}
		}
	}
	var mu sync.Mutex
	var cases []packCrash
	mods := make([]map[string]*module, kit.Workers())
	wrote := map[string][]string{} // per module directory
	get := func(l packLayout, w int) *module {
		if mods[w] == nil {
			mods[w] = map[string]*module{}
		}
		m := mods[w][l.Name]
		if m == nil {
			m = l.make(filepath.Join(c.Work, "cli", itoa(w), l.Name))
			m.prepare()
			c.Beat()
			mods[w][l.Name] = m
			v, err := m.writes(c, filepath.Join(c.Work, "log"+itoa(w)))
			if err != nil {
				mu.Lock()
				c.Set("strace", err.Error())
				mu.Unlock()
				c.Capped()
			}
			mu.Lock()
			wrote[m.dir] = v
			mu.Unlock()
		}
		return m
	}
	written := func(m *module) []string {
		mu.Lock()
		defer mu.Unlock()
		return wrote[m.dir]
	}
	lists := make([][]packCrash, len(combos))
	c.Par(len(combos), func(i, w int) {
		x := combos[i]
		m := get(x.l, w)
		f, err := m.faults(c, x.old, x.data, written(m), filepath.Join(c.Work, "log"+itoa(w)))
		if err != nil {
			c.Capped()
			c.Set("strace", err.Error())
		}
		lists[i] = f
		c.Beat()
	})
	for _, f := range lists {
		cases = append(cases, f...)
	}
	c.Set("faults_of_the_command", len(cases))
	byName := map[string]packLayout{}
	for _, l := range layouts {
		byName[l.Name] = l
	}
	base := order
	c.Par(len(cases), func(i, w int) {
		if c.Expired() {
			return
		}
		pc := cases[i]
		m := get(byName[pc.Layout], w)
		c.Evals.Add(1)
		c.Check(base+int64(i)+1, fmt.Sprintf("%+v", pc), pc, func() error {
			c.Beat()
			return m.crash(c, pc, written(m), filepath.Join(c.Work, "log"+itoa(w)))
		})
		if i%101 == 3 && c.WantSample() {
			c.Sample(pc)
		}
	})
}

// C13 is failing to pack.
func C13() *kit.Prop {
	return &kit.Prop{ID: "C13", Level: "fault_enumeration",
		Rule:   "module layouts (output in the root, in a sub-directory, in a declared directory) x without and with an older output x faults: in-process, every byte at which the writer or the file system runs full, and every declared entry unreadable or gone; with the real command under strace, every system call on the output (and on whatever files the command writes on its way to it) and on the declared files, killed there, failing once, and failing from there on. After each: success means the complete result, the output is absent, complete or the older one, nothing else changed, nothing is left behind where an error is reported and removing works, and the next run yields the complete result",
		Assume: []string{"a crash is that of the process, not of the machine (no fsync is asked for)", "strace counts system calls per thread; a fault that is not reached is counted as such"},
		Run:    runC13,
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			var pc packCrash
			if err := json.Unmarshal(raw, &pc); err != nil {
				return err
			}
			toolEnv(c)
			for _, l := range packLayouts() {
				if l.Name != pc.Layout {
					continue
				}
				m := l.make(filepath.Join(c.Work, "m"))
				if pc.Part == "crash" {
					m.prepare()
					v, err := m.writes(c, filepath.Join(c.Work, "log"))
					if err != nil {
						return err
					}
					return m.crash(c, pc, v, filepath.Join(c.Work, "log"))
				}
				m.refs()
				return m.inProcess(pc)
			}
			return fmt.Errorf("no such layout")
		}}
}
