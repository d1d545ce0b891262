package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"github.com/markbates/pkger/pkging/stdos"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// fdOp is an operation on the on-disk file system, or on the handle that was returned last.
type fdOp struct {
	K string `json:"op"`
	P string `json:"path,omitempty"`
	Q string `json:"of,omitempty"`
}

func (o fdOp) String() string { return o.K + "(" + strings.TrimSuffix(o.P+","+o.Q, ",") + ")" }

var fdOps = []fdOp{
	{K: "open", P: "/a.txt"}, {K: "open", P: "/d"}, {K: "open", P: "/"}, {K: "open", P: "/none"}, {K: "open", P: "/a.txt/x"}, {K: "open", P: "/closed/x"}, {K: "open", P: "/secret.txt"},
	{K: "open", P: fsx.Ext + ":/e.txt"}, {K: "open", P: fsx.Ext + ":/"}, {K: "open", P: fsx.Main + ":/d/s"},
	{K: "create", P: "/new/n.txt"}, {K: "create", P: "/d"}, {K: "create", P: "/none/x"}, {K: "create", P: "/secret.txt"},
	{K: "stat", P: "/a.txt"}, {K: "stat", P: "/none"}, {K: "mkdir", P: "/new/m"}, {K: "mkdir", P: "/a.txt/x"},
	{K: "walk", P: "/"}, {K: "walk", P: "/d"}, {K: "walk", P: "/none"}, {K: "walkfail", P: "/d"}, {K: "walkskip", P: "/d"}, {K: "walkopen", P: "/d"},
	{K: "remove", P: "/new/n.txt"}, {K: "remove", P: "/d"}, {K: "removeall", P: "/new/m"}, {K: "removeall", P: "/none"},
	{K: "dir", P: "/d", Q: "/b.txt"}, {K: "dir", P: "/d", Q: "/"}, {K: "dir", P: "/d", Q: "/none"}, {K: "dir", P: "/none", Q: "/"}, {K: "dir", P: "/a.txt", Q: "/"}, {K: "dir", P: "/a.txt", Q: "/x"},
	{K: "dir", P: "/closed", Q: "/x"}, {K: "dir", P: fsx.Ext + ":/", Q: "/e.txt"}, {K: "dir", P: "/d", Q: " b.txt"}, {K: "dir", P: "/", Q: "/secret.txt"},
	{K: "serve", P: "/d", Q: "/b.txt"}, {K: "serve", P: "/d", Q: "/"}, {K: "serve", P: "/", Q: "/d"}, {K: "serve", P: "/d", Q: "/none"}, {K: "serve", P: "/", Q: "/secret.txt"}, {K: "serve", P: "/none", Q: "/"},
	{K: "serve", P: "/d", Q: "/s/"}, {K: "serve", P: "/", Q: "/closed/"}, {K: "servefail", P: "/d", Q: "/b.txt"}, {K: "servefail", P: "/d", Q: "/s/"}, {K: "servepart", P: "/d", Q: "/b.txt"}, {K: "servehead", P: "/d", Q: "/b.txt"},
	{K: "h.open", P: "/b.txt"}, {K: "h.open", P: "/"}, {K: "h.open", P: "/none"}, {K: "h.open", P: "/../a.txt"}, {K: "h.readdir"}, {K: "h.readdir1"}, {K: "h.read"}, {K: "h.seek"}, {K: "h.stat"}, {K: "h.write"},
	{K: "h.serve", Q: "/"}, {K: "h.serve", Q: "/b.txt"}, {K: "h.serve", Q: "/none"}, {K: "h.close"}, {K: "close first"},
}

// fdSlow are run on their own only.
var fdSlow = []fdOp{
	{K: "open", P: "example.com/unknown:/x"}, {K: "stat", P: "example.com/unknown:/x"}, {K: "walk", P: "example.com/unknown:/x"}, {K: "create", P: "example.com/unknown:/x"},
	{K: "dir", P: "example.com/unknown:/x", Q: "/"}, {K: "serve", P: "example.com/unknown:/x", Q: "/"}, {K: "stuff", P: "/d"}, {K: "stuff", P: "/a.txt"}, {K: "stuff", P: "/secret.txt"}, {K: "stuff", P: "/none"}, {K: "stuff", P: "/closed"}, {K: "stuff", P: "/half"},
	{K: "stufffail", P: "/d"},
}

// badWriter is a client that has gone.
type badWriter struct{ h http.Header }

func (b *badWriter) Header() http.Header       { return b.h }
func (b *badWriter) Write([]byte) (int, error) { return 0, errors.New("gone") }
func (b *badWriter) WriteHeader(int)           {}

type fullWriter struct{}

func (fullWriter) Write([]byte) (int, error) { return 0, errors.New("full") }

// fdRun is a running history.
type fdRun struct {
	dir  string
	held []io.Closer
	acts int
	made bool
	errs int
}

func (r *fdRun) hold(f io.Closer, err error) {
	if err == nil {
		r.held = append(r.held, f)
	} else {
		r.errs++
	}
}

func (r *fdRun) last() http.File {
	if len(r.held) == 0 {
		return nil
	}
	return r.held[len(r.held)-1].(http.File)
}

func (r *fdRun) request(fs http.FileSystem, o fdOp) {
	method := "GET"
	if o.K == "servehead" {
		method = "HEAD"
	}
	q := httptest.NewRequest(method, "http://host/", nil)
	q.URL.Path = o.Q
	if o.K == "servepart" {
		q.Header.Set("Range", "bytes=0-1,3-4")
	}
	if o.K == "servefail" {
		http.FileServer(fs).ServeHTTP(&badWriter{http.Header{}}, q)
		return
	}
	http.FileServer(fs).ServeHTTP(httptest.NewRecorder(), q)
}

func (r *fdRun) do(o fdOp) {
	r.acts++
	count := func(err error) {
		if err != nil {
			r.errs++
		}
	}
	if strings.HasPrefix(o.K, "h.") {
		f := r.last()
		if f == nil {
			return
		}
		var err error
		switch o.K {
		case "h.open":
			d, ok := f.(http.FileSystem)
			if !ok {
				return
			}
			g, err := d.Open(o.P)
			r.hold(g, err)
		case "h.readdir":
			_, err = f.Readdir(-1)
		case "h.readdir1":
			_, err = f.Readdir(1)
		case "h.read":
			_, err = f.Read(make([]byte, 2))
		case "h.seek":
			_, err = f.Seek(1, io.SeekStart)
		case "h.stat":
			_, err = f.Stat()
		case "h.write":
			if w, ok := f.(io.Writer); ok {
				_, err = w.Write([]byte("written"))
			}
		case "h.serve":
			if d, ok := f.(http.FileSystem); ok {
				r.request(d, o)
			}
		case "h.close":
			err = f.Close()
			r.held = r.held[:len(r.held)-1]
		}
		count(err)
		return
	}
	switch o.K {
	case "close first":
		if len(r.held) > 0 {
			r.held[0].Close()
			r.held = r.held[1:]
		}
	case "open":
		f, err := pkger.Open(o.P)
		r.hold(f, err)
	case "create":
		r.made = true
		f, err := pkger.Create(o.P)
		r.hold(f, err)
	case "stat":
		_, err := pkger.Stat(o.P)
		count(err)
	case "mkdir":
		r.made = true
		count(pkger.MkdirAll(o.P, 0755))
	case "walk":
		count(pkger.Walk(o.P, func(p string, i os.FileInfo, err error) error { return err }))
	case "walkfail":
		count(pkger.Walk(o.P, func(p string, i os.FileInfo, err error) error {
			if !i.IsDir() {
				return errors.New("stop")
			}
			return nil
		}))
	case "walkskip":
		count(pkger.Walk(o.P, func(p string, i os.FileInfo, err error) error { return filepath.SkipDir }))
	case "walkopen":
		count(pkger.Walk(o.P, func(p string, i os.FileInfo, err error) error {
			f, err := pkger.Open(p)
			r.hold(f, err)
			return err
		}))
	case "remove":
		r.made = true
		count(pkger.Remove(o.P))
	case "removeall":
		r.made = true
		count(pkger.RemoveAll(o.P))
	case "dir":
		f, err := pkger.Dir(o.P).Open(o.Q)
		r.hold(f, err)
	case "serve", "servefail", "servepart", "servehead":
		r.request(pkger.Dir(o.P), o)
	case "stuff", "stufffail":
		in := fsx.Info(r.dir)
		src := filepath.Join(r.dir, "decl.go")
		os.WriteFile(src, []byte(fmt.Sprintf("package main\n\nimport \"github.com/markbates/pkger\"\n\nfunc use() { pkger.Include(%q) }\n", o.P)), 0644)
		os.Chmod(filepath.Join(r.dir, "closed"), 0755) // the search for sources reads it
		ds, err := parser.Parse(in)
		os.Chmod(filepath.Join(r.dir, "closed"), 0)
		if err == nil {
			var w io.Writer = io.Discard
			if o.K == "stufffail" {
				w = fullWriter{}
			}
			err = pkgutil.Stuff(w, in, ds)
		}
		count(err)
		os.Remove(src)
	case "add":
		m, err := mem.New(fsx.Info(r.dir))
		if err == nil {
			var f *os.File
			if f, err = os.Open(filepath.Join(r.dir, o.P)); err == nil {
				err = m.Add(f)
				f.Close()
			}
		}
		count(err)
	default:
		panic(o.K)
	}
}

// finish closes what is held.
func (r *fdRun) finish(reverse bool) {
	for len(r.held) > 0 {
		i := 0
		if reverse {
			i = len(r.held) - 1
		}
		r.held[i].Close()
		r.held = append(r.held[:i], r.held[i+1:]...)
	}
}

// descriptors of this process.
func descriptors() []string {
	f, err := os.Open("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	ns, err := f.Readdirnames(-1)
	if err != nil {
		panic(err)
	}
	var out []string
	for _, n := range ns {
		if n != strconv.Itoa(int(f.Fd())) {
			to, _ := os.Readlink("/proc/self/fd/" + n)
			out = append(out, n+" "+to)
		}
	}
	sort.Strings(out)
	return out
}

func leaked(before, after []string) []string {
	have := map[string]bool{}
	for _, s := range before {
		have[s] = true
	}
	var out []string
	for _, s := range after {
		if !have[s] {
			out = append(out, s)
		}
	}
	return out
}

type fdCase struct {
	Ops     []fdOp `json:"ops"`
	Reverse bool   `json:"reverse,omitempty"`
	Sys     string `json:"syscall,omitempty"` // that fails
	When    int    `json:"when,omitempty"`
	How     string `json:"how,omitempty"`
}

func (fc fdCase) key() string { return fmt.Sprint(fc.Ops, fc.Reverse, fc.Sys, fc.How) }

// fdTree makes the module.
func fdTree(dir string) {
	plant(dir, map[string]string{
		"a.txt": "content", "d/b.txt": "<b>0123456789</b>", "d/s/c.txt": "c", "d/empty.txt": "", "secret.txt": "secret", "closed/x": "x", "half/a.txt": "a", "half/b/secret.txt": "s", "half/c.txt": "c", "new/": "",
	})
	os.Chmod(filepath.Join(dir, "secret.txt"), 0)
	os.Chmod(filepath.Join(dir, "closed"), 0)
	os.Chmod(filepath.Join(dir, "half/b/secret.txt"), 0)
}

func fdUntree(dir string) {
	os.Chmod(filepath.Join(dir, "closed"), 0755)
}

// fdRestore undoes what operations made.
func fdRestore(dir string) {
	os.RemoveAll(filepath.Join(dir, "new"))
	os.Mkdir(filepath.Join(dir, "new"), 0755)
}

// run is a history in this process.
func (fc fdCase) run(c *kit.Ctx, dir string) error {
	r := &fdRun{dir: dir}
	before := descriptors()
	for _, o := range fc.Ops {
		r.do(o)
	}
	held := len(r.held)
	r.finish(fc.Reverse)
	after := descriptors()
	if r.made {
		fdRestore(dir)
	}
	if c != nil {
		c.Transitions.Add(int64(r.acts))
		c.Outcome("errors", itoa(r.errs))
		c.Outcome("held", itoa(held))
	}
	if l := leaked(before, after); len(l) > 0 {
		runtime.GC()
		return fmt.Errorf("still open after closing all %d handles: %s", held, strings.Join(l, ", "))
	}
	return nil
}

// Handles is the helper process for faults: handles DIR OPS. It marks the operations in the trace.
func Handles(args []string) error {
	dir := args[0]
	var fc fdCase
	if err := json.Unmarshal([]byte(args[1]), &fc); err != nil {
		return err
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(-1)
	fs, err := stdos.New(fsx.Info(dir))
	if err != nil {
		return err
	}
	useGlobally(fs)
	pkger.Stat("/a.txt")
	mime.TypeByExtension(".txt") // the library reads its tables once
	r := &fdRun{dir: dir}
	descriptors()
	before := descriptors()
	syscall.Access("/marker-begin", 0)
	for _, o := range fc.Ops {
		r.do(o)
	}
	syscall.Access("/marker-end", 0)
	n := len(r.held)
	r.finish(fc.Reverse)
	if l := leaked(before, descriptors()); len(l) > 0 {
		fmt.Printf("LEAK after closing all %d handles: %s\n", n, strings.Join(l, ", "))
	}
	fmt.Println("done", r.errs)
	return nil
}

var fdErrnos = map[string][]string{
	"openat": {"EMFILE", "EACCES", "EINTR"}, "open": {"EMFILE"}, "fstat": {"EIO"}, "newfstatat": {"EACCES", "EIO"}, "stat": {"EACCES"}, "lstat": {"EACCES"}, "statx": {"EIO"}, "getdents64": {"EIO"}, "read": {"EIO"},
	"pread64": {"EIO"}, "lseek": {"EIO"}, "write": {"ENOSPC"}, "mkdirat": {"EACCES"}, "unlinkat": {"EACCES"}, "fcntl": {"EIO"},
}

// strace runs the helper.
func (fc fdCase) strace(dir, log string, opts ...string) (ran, []string) {
	os.Remove(log)
	self, _ := os.Executable()
	var all []string
	for s := range fdErrnos {
		all = append(all, s)
	}
	sort.Strings(all)
	a := append([]string{"strace", "-f", "--seccomp-bpf", "-qq", "-o", log, "-e", "signal=none", "-e", "trace=" + strings.Join(all, ",") + ",access,faccessat,faccessat2"}, opts...)
	j, _ := json.Marshal(fc)
	r := runIn(dir, []string{"GOMAXPROCS=2"}, append(a, "env", "PATH=/nonexistent", self, "--handles", dir, string(j))...)
	fdRestore(dir)
	b, _ := os.ReadFile(log)
	return r, strings.Split(string(b), "\n")
}

// window is the system calls of the thread that runs the operations, counted from the start of the thread.
func window(lines []string) (out []fdCase, err error) {
	tid := ""
	for _, l := range lines {
		if strings.Contains(l, "/marker-begin") {
			tid = strings.Fields(l)[0]
		}
	}
	if tid == "" {
		return nil, errors.New("no marker in the trace")
	}
	n := map[string]int{}
	in := false
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) < 2 || f[0] != tid || strings.HasPrefix(f[1], "<...") {
			continue
		}
		if strings.Contains(l, "/marker-") {
			in = strings.Contains(l, "/marker-begin")
			continue
		}
		s, _, ok := strings.Cut(f[1], "(")
		if !ok {
			continue
		}
		n[s]++
		if in {
			for _, h := range fdErrnos[s] {
				out = append(out, fdCase{Sys: s, When: n[s], How: h})
			}
		}
	}
	return out, nil
}

// fault is a history in a process of its own, with one failing system call.
func (fc fdCase) fault(c *kit.Ctx, dir, log string) error {
	r, lines := fc.strace(dir, log, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", fc.Sys, fc.How, fc.When))
	reached := false
	in := false
	for _, l := range lines {
		if strings.Contains(l, "/marker-") {
			in = strings.Contains(l, "/marker-begin")
		}
		reached = reached || in && strings.Contains(l, "INJECTED")
	}
	if !reached {
		c.Add("faults_not_reached", 1)
		return nil
	}
	c.Add("faults_reached", 1)
	if r.hung {
		return errors.New("the operations hang")
	}
	if r.code != 0 || !strings.Contains(r.out, "done") {
		return fmt.Errorf("the helper failed: %s", r)
	}
	if i := strings.Index(r.out, "LEAK"); i >= 0 {
		return errors.New(strings.TrimSpace(r.out[i:]))
	}
	return nil
}

// fdFaulty are the histories that are run with faults.
func fdFaulty(thorough bool) (out []fdCase) {
	for _, o := range fdOps {
		if !strings.HasPrefix(o.K, "h.") && !strings.HasPrefix(o.P, fsx.Ext) && o.K != "close first" {
			out = append(out, fdCase{Ops: []fdOp{o}})
		}
	}
	firsts := []fdOp{{K: "open", P: "/d"}}
	if thorough {
		firsts = append(firsts, fdOp{K: "open", P: "/a.txt"}, fdOp{K: "create", P: "/new/n.txt"}, fdOp{K: "dir", P: "/d", Q: "/"})
	}
	for _, f := range firsts {
		for _, o := range fdOps {
			if strings.HasPrefix(o.K, "h.") {
				out = append(out, fdCase{Ops: []fdOp{f, o}})
			}
		}
	}
	return
}

// C25 is descriptors.
func C25() *kit.Prop {
	setup := func(c *kit.Ctx) string {
		debug.SetGCPercent(-1) // a finalizer must not close what was left open
		s := packSkel(c)
		fdTree(s.dir)
		plant(s.root, map[string]string{"ext/e.txt": "of the other"})
		fs, err := stdos.New(fsx.Info(s.dir))
		if err != nil {
			panic(err)
		}
		useGlobally(fs)
		if _, err := pkger.Stat(fsx.Ext + ":/e.txt"); err != nil {
			panic(fmt.Sprint("harness: ", err))
		}
		descriptors()
		return s.dir
	}
	return &kit.Prop{ID: "C25", Level: "model_checking", Shards: true,
		Rule:   "all sequences, to depth 3, of operations on the on-disk file system (open, create, stat, make, walk with callbacks that fail, skip and open, remove, through the declared-directory type and HTTP servers over it, on existing, missing, unreadable and other-package paths, and all operations on the handle returned last, serving it, closing handles early), closing the returned handles first to last or last to first; packing of readable and unreadable declarations; and, each in a process of its own, every system call of the single operations and of the operations on a handle failing once. After each, the process has exactly the descriptors it had before; the collector is off",
		Assume: []string{"faults: one failing system call of the operating thread, of the listed kinds; a failing close is not injected, as it would itself keep the descriptor open"},
		Run: func(c *kit.Ctx) {
			dir := setup(c)
			defer fdUntree(dir)
			var order int64
			n := 0
			try := func(fc fdCase) {
				order++
				if n++; n%200 == 0 {
					runtime.GC()
					c.Beat()
				}
				c.States.Add(1)
				c.Traces.Add(1)
				c.Check(order, fc.key(), fc, func() error { return fc.run(c, dir) })
			}
			// single operations
			for i, o := range fdSlow {
				if c.Mine(i) {
					try(fdCase{Ops: []fdOp{o}})
				}
			}
			for i, o := range fdOps {
				if c.Mine(i) {
					try(fdCase{Ops: []fdOp{o}})
				}
			}
			// faults
			top := filepath.Dir(dir)
			fs := fdFaulty(c.Thorough())
			c.Set("faulty_histories", len(fs))
			strange := 0
			c.Each(len(fs), func(i int) {
				log := filepath.Join(top, "trace")
				r, lines := fs[i].strace(dir, log)
				w, err := window(lines)
				if r.code != 0 || err != nil {
					strange++
					c.Set("strace", fmt.Sprint(r, err))
					return
				}
				for j, x := range w {
					if c.Expired() {
						return
					}
					x.Ops, x.Reverse = fs[i].Ops, j%2 == 1
					c.Beat()
					c.States.Add(1)
					order++
					c.Check(order+1000000, x.key(), x, func() error { return x.fault(c, dir, log) })
					if j%37 == 5 && c.WantSample() {
						c.Sample(x)
					}
				}
			})
			depth := c.Pick(3, 3)
			ops := fdOps
			all := len(ops)
			c.Set("operations", all)
			c.Set("depth", depth)
			c.Each(all*all, func(i int) {
				a, b := ops[i/all], ops[i%all]
				try(fdCase{Ops: []fdOp{a, b}})
				try(fdCase{Ops: []fdOp{a, b}, Reverse: true})
				for k, o := range ops {
					if c.Expired() {
						return
					}
					fc := fdCase{Ops: []fdOp{a, b, o}, Reverse: k%2 == 0}
					try(fc)
					if c.Thorough() {
						fc.Reverse = !fc.Reverse
						try(fc)
						if strings.HasPrefix(o.K, "h.") {
							for _, q := range ops {
								try(fdCase{Ops: []fdOp{a, b, o, q}})
							}
						}
					}
				}
				if i%997 == 3 && c.WantSample() {
					c.Sample(fdCase{Ops: []fdOp{a, b}})
				}
			})
		},
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			var fc fdCase
			if err := json.Unmarshal(raw, &fc); err != nil {
				return err
			}
			dir := setup(c)
			defer fdUntree(dir)
			if fc.Sys != "" {
				return fc.fault(c, dir, filepath.Join(filepath.Dir(dir), "trace"))
			}
			return fc.run(c, dir)
		}}
}
