package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/markbates/pkger/here"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// lookCase is a run of a command that inspects.
type lookCase struct {
	Cmd  string   `json:"command"`
	Args []string `json:"args"` // $R is the tree
	Cwd  string   `json:"cwd"`
	Get  []string `json:"requests,omitempty"`
}

// lookFor is what there is, below the tree, under a path as the commands take it.
var lookFor = map[string]string{
	".": "app", "/": "app", "/a.txt": "app/a.txt", "/dir": "app/dir", "/dir/": "app/dir", "/dir/in/d e.txt": "app/dir/in/d e.txt", "/dir/in/c.txt": "app/dir/in/c.txt", "/dir/empty": "app/dir/empty",
	"/dir/../a.txt": "app/a.txt", "//dir//in": "app/dir/in", fsx.Main + ":/dir/in": "app/dir/in", fsx.Main: "app", fsx.Main + ":/": "app", fsx.Ext: "ext", fsx.Ext + ":/e.txt": "ext/e.txt", fsx.Ext + ":/edir": "ext/edir",
	"$R/app/dir/b.txt": "app/dir/b.txt", "$R/app/dir": "app/dir", "/2 type/r.txt": "app/2 type/r.txt", "/secret": "app/secret", "/secret/deep/x": "app/secret/deep/x", "/../../a.txt": "app/a.txt", "/go.mod": "app/go.mod", "/many": "app/many",
	"/e.txt": "", "/missing": "", "/a.txt/x": "", fsx.Ext + ":/a.txt": "", "example.com/unknown:/x": "", "example.com/unknown": "", "/dir/b.txt/": "app/dir/b.txt",
}

func lookArgs() (a []string) {
	for k := range lookFor {
		a = append(a, k)
	}
	sort.Strings(a)
	return
}

type looker struct {
	c    *kit.Ctx
	root string
}

func newLooker(c *kit.Ctx) *looker {
	toolEnv(c)
	tidied(c)
	l := &looker{c, filepath.Join(c.Work, "look")}
	plant(l.root, reportCase{Shape: "main"}.files())
	plant(l.root, map[string]string{"app/secret/deep/x": strings.Repeat("0123456789", 1000), "app/dir/index.txt": "<b>no page</b>", "app/site/index.html": "<p>page", "app/site/n/": "", "app/site/x.css": "a{}"})
	for i := 0; i < 300; i++ {
		plant(l.root, map[string]string{fmt.Sprintf("app/many/%03d.txt", i): strings.Repeat("x", i)})
	}
	for i, n := range []string{"app/a.txt", "app/dir/b.txt", "ext/e.txt", "app/dir/in"} {
		t := time.Date(2001+i, 2, 3, 4, 5, 6, 123456789, time.UTC)
		if err := os.Chtimes(filepath.Join(l.root, n), t, t); err != nil {
			panic(err)
		}
	}
	os.Chmod(filepath.Join(l.root, "app/dir/b.txt"), 0600)
	os.Chmod(filepath.Join(l.root, "app/secret/deep"), 0711)
	for i := 0; i < 2; i++ { // the first run may change go.mod
		if r := tool(filepath.Join(l.root, "app"), "path", "/"); r.code != 0 {
			panic("harness: " + r.String())
		}
	}
	return l
}

func (l *looker) args(lc lookCase) (a []string) {
	for _, x := range lc.Args {
		a = append(a, strings.ReplaceAll(x, "$R", l.root))
	}
	return
}

// there is what a command is to show.
func (l *looker) there(lc lookCase) (paths []string, missing bool) {
	args := lc.Args
	if len(args) == 0 {
		args = []string{"."}
	}
	for _, a := range args {
		p := lookFor[a]
		if p == "" {
			return paths, true
		}
		paths = append(paths, filepath.Join(l.root, p))
	}
	return
}

func (l *looker) one(lc lookCase) error {
	switch lc.Cmd {
	case "stat":
		return l.stat(lc)
	case "info":
		return l.info(lc)
	}
	return l.serve(lc)
}

func (l *looker) stat(lc lookCase) error {
	before := snapshot(l.root)
	r := tool(filepath.Join(l.root, lc.Cwd), append([]string{"stat"}, l.args(lc)...)...)
	if ch := changes(before, snapshot(l.root)); len(ch) > 0 {
		return fmt.Errorf("stat changes %v", ch)
	}
	want, missing := l.there(lc)
	if missing {
		l.c.Outcome("stat", "error")
		if r.code == 0 || strings.TrimSpace(r.err) == "" {
			return fmt.Errorf("something is missing, but: %v", r)
		}
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("stat: %v", r)
	}
	var lines []string
	say := func(name string, size int64, mode os.FileMode, t time.Time, dir bool) string {
		if dir {
			size = 0
		}
		return fmt.Sprintf("%q %d %v %s %v", name, size, mode, t.UTC().Format(time.RFC3339Nano), dir)
	}
	for _, p := range want {
		i, err := os.Stat(p)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		all := []os.FileInfo{i}
		if i.IsDir() {
			all = nil
			es, err := os.ReadDir(p)
			if err != nil {
				return fmt.Errorf("harness: %v", err)
			}
			for _, e := range es {
				x, err := e.Info()
				if err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				all = append(all, x)
			}
		}
		for _, x := range all {
			lines = append(lines, say(x.Name(), x.Size(), x.Mode(), x.ModTime(), x.IsDir()))
		}
	}
	var got []string
	for d := json.NewDecoder(strings.NewReader(r.out)); ; {
		var v struct {
			Details struct {
				Name    string
				Size    int64
				Mode    os.FileMode
				ModTime time.Time `json:"mod_time"`
				IsDir   bool      `json:"is_dir"`
			}
		}
		if err := d.Decode(&v); err == io.EOF {
			break
		} else if err != nil {
			return fmt.Errorf("stat prints %.300q: %v", r.out, err)
		}
		x := v.Details
		got = append(got, say(x.Name, x.Size, x.Mode, x.ModTime, x.IsDir))
	}
	sort.Strings(got)
	sort.Strings(lines)
	if a, b := strings.Join(got, "\n"), strings.Join(lines, "\n"); a != b {
		return fmt.Errorf("stat shows\n%s\nand there is\n%s", a, b)
	}
	l.c.Outcome("stat", fmt.Sprint(len(got)))
	return nil
}

// infoFor is the directory of each package.
var infoFor = map[string][2]string{".": {"app", fsx.Main}, fsx.Main: {"app", fsx.Main}, fsx.Main + "/sub": {"app/sub", fsx.Main}, fsx.Main + "/uses": {"app/uses", fsx.Main}, fsx.Ext: {"ext", fsx.Ext}, "example.com/unknown": {}, fsx.Main + "/nothing": {}}

func (l *looker) info(lc lookCase) error {
	r := tool(filepath.Join(l.root, lc.Cwd), append([]string{"info"}, lc.Args...)...)
	args := lc.Args
	if len(args) == 0 {
		args = []string{"."}
	}
	for _, a := range args {
		if infoFor[a][0] == "" {
			l.c.Outcome("info", "error")
			if r.code == 0 || strings.TrimSpace(r.err) == "" {
				return fmt.Errorf("%s is no package, but: %v", a, r)
			}
			return nil
		}
	}
	if r.code != 0 {
		return fmt.Errorf("info: %v", r)
	}
	d := json.NewDecoder(strings.NewReader(r.out))
	for _, a := range args {
		var i here.Info
		if err := d.Decode(&i); err != nil {
			return fmt.Errorf("info prints %.300q: %v", r.out, err)
		}
		w := infoFor[a]
		mod := "app"
		if w[1] == fsx.Ext {
			mod = "ext"
		}
		imp := a
		if a == "." {
			imp = fsx.Main
		}
		if i.Dir != filepath.Join(l.root, w[0]) || i.ImportPath != imp || i.Module.Path != w[1] || i.Module.Dir != filepath.Join(l.root, mod) {
			return fmt.Errorf("info of %s: directory %q, package %q, module %q in %q", a, i.Dir, i.ImportPath, i.Module.Path, i.Module.Dir)
		}
	}
	if d.More() {
		return fmt.Errorf("info prints more than asked: %.500q", r.out)
	}
	l.c.Outcome("info", fmt.Sprint(len(args)))
	return nil
}

const serveAddr = "127.0.0.1:3000"

// fetch is the answer to a request, as the standard library's server would be compared.
func fetch(h func(*http.Request) (*http.Response, error), base, path, rng string) (string, error) {
	q, err := http.NewRequest("GET", base+path, nil)
	if err != nil {
		return "", err
	}
	if rng != "" {
		q.Header.Set("Range", rng)
	}
	a, err := h(q)
	if err != nil {
		return "", err
	}
	defer a.Body.Close()
	b, err := io.ReadAll(a.Body)
	if err != nil {
		return "", err
	}
	s := fmt.Sprintf("%d", a.StatusCode)
	if a.StatusCode >= 400 { // the command is built with other defaults of the library: it keeps some headers
		return s + fmt.Sprintf(" %q", b), nil
	}
	for _, k := range []string{"Content-Type", "Last-Modified", "Location", "Content-Range", "Accept-Ranges"} {
		s += fmt.Sprintf(" %s=%q", k, a.Header.Get(k))
	}
	return s + fmt.Sprintf(" %q", b), nil
}

func (l *looker) serve(lc lookCase) error {
	want, missing := l.there(lc)
	cmd := exec.Command(os.Getenv("MC_CLI"), append([]string{"serve"}, l.args(lc)...)...)
	cmd.Dir = filepath.Join(l.root, lc.Cwd)
	cmd.Env = append(os.Environ(), "PWD="+cmd.Dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	if err := cmd.Start(); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	ended := make(chan error, 1)
	first := make(chan string, 1)
	go func() {
		s, _ := bufio.NewReader(out).ReadString('\n')
		first <- s
		io.Copy(io.Discard, out)
		ended <- cmd.Wait()
	}()
	defer func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		if ended != nil {
			<-ended
		}
	}()
	up := false
	for t := time.Now(); !up; time.Sleep(20 * time.Millisecond) {
		select {
		case err := <-ended:
			ended = nil
			if missing && err != nil && strings.TrimSpace(eb.String()) != "" {
				l.c.Outcome("serve", "error")
				return nil
			}
			return fmt.Errorf("serve ends: %v %.300q", err, eb.String())
		default:
		}
		if n, err := net.DialTimeout("tcp", serveAddr, time.Second); err == nil {
			n.Close()
			up = true
		}
		if time.Since(t) > 60*time.Second {
			return fmt.Errorf("serve neither ends nor answers for a minute: %.300q", eb.String())
		}
	}
	if missing {
		return fmt.Errorf("something is missing, but it is served")
	}
	select {
	case s := <-first:
		if strings.TrimSpace(s) == "" {
			return fmt.Errorf("serve does not say what it serves")
		}
	case <-time.After(10 * time.Second):
		return fmt.Errorf("serve does not say what it serves")
	}
	h := http.FileServer(http.Dir(want[0]))
	disk := func(q *http.Request) (*http.Response, error) {
		w := httptest.NewRecorder()
		q.RequestURI = q.URL.RequestURI()
		h.ServeHTTP(w, q)
		return w.Result(), nil
	}
	cl := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	for _, g := range lc.Get {
		for _, rng := range []string{"", "bytes=1-2", "bytes=-1"} {
			a, err := fetch(cl.Do, "http://"+serveAddr, g, rng)
			if err != nil {
				return fmt.Errorf("GET %s %s: %v", g, rng, err)
			}
			b, err := fetch(disk, "http://"+serveAddr, g, rng)
			if err != nil {
				return fmt.Errorf("harness: %v", err)
			}
			l.c.Transitions.Add(1)
			l.c.Outcome("serve", a[:3])
			if a != b {
				return fmt.Errorf("GET %s %s: %.600s; from the directory: %.600s", g, rng, a, b)
			}
		}
	}
	return nil
}

// C30 is about the commands that inspect.
func C30() *kit.Prop {
	p := &kit.Prop{ID: "C30", Level: "model_checking",
		Rule: "the real command's stat with every argument, and every pair (thorough: triple) of arguments, of a ladder of spelled paths (directories, files, other modules, missing ones) from several working directories, and info likewise with packages, against the operating system; and serve for each directory, with every request of a ladder and ranges, against the standard library's server over the same directory"}
	p.Run = func(c *kit.Ctx) {
		l := newLooker(c)
		var cases []lookCase
		args := lookArgs()
		cwds := []string{"app", "app/dir", "app/sub"}
		for _, d := range cwds {
			cases = append(cases, lookCase{"stat", nil, d, nil}, lookCase{"info", nil, d, nil})
			for _, a := range args {
				cases = append(cases, lookCase{"stat", []string{a}, d, nil})
			}
			for a := range infoFor {
				cases = append(cases, lookCase{"info", []string{a}, d, nil})
			}
		}
		some := []string{"/", "/a.txt", "/dir", fsx.Ext, fsx.Ext + ":/e.txt", "/dir/empty", "/missing", "$R/app/dir/b.txt"}
		if c.Thorough() {
			some = args
		}
		for _, a := range some {
			for _, b := range some {
				cases = append(cases, lookCase{"stat", []string{a, b}, "app", nil})
				if c.Thorough() {
					for _, x := range []string{"/", "/missing", fsx.Ext + ":/edir"} {
						cases = append(cases, lookCase{"stat", []string{a, b, x}, "app", nil})
					}
				}
			}
		}
		for a := range infoFor {
			for b := range infoFor {
				cases = append(cases, lookCase{"info", []string{a, b}, "app", nil})
			}
		}
		sort.Slice(cases, func(i, j int) bool { return fmt.Sprint(cases[i]) < fmt.Sprint(cases[j]) })
		c.Par(len(cases), func(i, w int) {
			c.Transitions.Add(1)
			c.Traces.Add(1)
			c.Check(int64(i), fmt.Sprint(cases[i]), cases[i], func() error { return l.one(cases[i]) })
			if c.WantSample() {
				c.Sample(cases[i])
			}
		})
		c.Set("inspections", len(cases))
		if n, err := net.DialTimeout("tcp", serveAddr, time.Second); err == nil {
			n.Close()
			c.Set("serving", "not looked at: something else listens on port 3000")
			return
		}
		get := []string{"/", "/a.txt", "/dir", "/dir/", "/dir/b.txt", "/dir/in/d%20e.txt", "/dir/empty/", "/site/", "/site", "/site/index.html", "/site/x.css", "/b.txt", "/in/", "/in/c.txt", "/f.txt", "/e.txt", "/missing", "/dir/missing", "/../a.txt", "/dir/../a.txt", "/secret/deep/x", "/x", "/index.txt", "/n/", "/index.html"}
		n := 0
		for i, a := range append([]string{""}, args...) {
			if p := lookFor[a]; p != "" {
				if f, err := os.Stat(filepath.Join(l.root, p)); err != nil || !f.IsDir() {
					continue
				}
			}
			lc := lookCase{"serve", []string{a}, cwds[i%len(cwds)], get}
			if a == "" {
				lc.Args = nil
			}
			n++
			c.Traces.Add(1)
			c.Check(int64(10000+i), fmt.Sprint(lc), lc, func() error { return l.one(lc) })
		}
		c.Set("served", n)
		c.States.Store(int64(len(cases) + n))
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		var lc lookCase
		if err := json.Unmarshal(raw, &lc); err != nil {
			return err
		}
		return newLooker(c).one(lc)
	}
	return p
}
