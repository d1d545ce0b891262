package props

import (
	"encoding/json"
	"fmt"
	"hash/crc32"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// changeable is a file system that can be replaced; it is installed once.
type changeable struct{ pkging.Pkger }

var topmost = &changeable{}

func useGlobally(fs pkging.Pkger) {
	if topmost.Pkger == nil {
		topmost.Pkger = fs
		if err := pkger.Apply(topmost, nil); err != nil {
			panic(err)
		}
	}
	topmost.Pkger = fs
}

// siteParts are the parts of a site; a trailing slash makes a directory.
var siteParts = [][]string{
	{"a.txt"}, {"empty"}, {"index.html"}, {"d/", "d/f.css"}, {"d/d/", "d/d/index.html"}, {"d/zero.bin"}, {"img.png"},
	{"sp ace & <q>.html"}, {"e/"}, {"d2/x"}, {"e/index.html/"},
}

// bigParts are further parts, beyond whatever somebody may think enough: they are not combined with the rest.
var bigParts = [][]string{wideDir("w/", 1300), deepDirs("", 30), {"big/5m", "big/64k", "big/" + strings.Repeat("n", 230) + ".html"}, {"p%41q%2e.txt", "pAq..txt", "%2e%2e/", "%2e%2e/%69ndex.html", "100%", "UPPER.TXT"}}

func wideDir(d string, n int) []string {
	out := []string{d}
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%sf%d.txt", d, i))
	}
	return append(out, d+"sub/", d+"sub/index.html")
}

func deepDirs(d string, n int) (out []string) {
	for i := 0; i < n; i++ {
		d += "D/"
		out = append(out, d, d+"x.txt")
	}
	return append(out, d+"index.html")
}

// part is a part of a site.
func part(i int) []string {
	if i < len(siteParts) {
		return siteParts[i]
	}
	return bigParts[i-len(siteParts)]
}

func siteBody(name string) string {
	switch path.Base(name) {
	case "5m":
		return string(blob(5<<20+1, 3))
	case "64k":
		return string(blob(1<<16, 7))
	case "empty", "zero.bin":
		return ""
	case "img.png":
		return "\x89PNG\r\n\x1a\n\x00\x00" + strings.Repeat("\x00\xff\x10binary", 80)
	case "index.html":
		return "<html><body>index of " + path.Dir(name) + "</body></html>"
	case "x":
		return strings.Repeat("0123456789", 120)
	}
	return "content of " + name + "\n"
}

type httpCase struct {
	Parts []int  `json:"parts"`
	Fix   string `json:"handler"`
	Root  string `json:"served"`
	Pairs bool   `json:"pairs,omitempty"`
}

// site makes the same tree in memory and on disk, with the same times.
func site(c *kit.Ctx, parts []int) (*mem.Pkger, *fsx.Back, []string) {
	m := fsx.NewMem().FS.(*mem.Pkger)
	var names []string
	dirs := map[string]bool{"/": true}
	for _, i := range parts {
		for _, n := range part(i) {
			n = "/" + n
			d := path.Dir(n)
			if strings.HasSuffix(n, "/") {
				d = path.Clean(n)
			} else {
				names = append(names, n)
			}
			for ; d != "/"; d = path.Dir(d) {
				dirs[d] = true
			}
		}
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	sort.Strings(names)
	o := fsx.NewOS(filepath.Join(c.Work, "site", "app"))
	for _, d := range ds {
		if err := m.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
		os.MkdirAll(filepath.Join(o.Dir, d), 0755)
	}
	for _, n := range names {
		f, err := m.Create(n)
		if err == nil {
			if b := siteBody(n); b != "" {
				f.Write([]byte(b))
			}
			err = f.Close()
		}
		if err == nil {
			err = os.WriteFile(filepath.Join(o.Dir, n), []byte(siteBody(n)), 0644)
		}
		if err != nil {
			panic(err)
		}
	}
	all := append(append([]string{}, ds...), names...)
	for i := len(all) - 1; i >= 0; i-- {
		fi, err := m.Stat(all[i])
		if err == nil {
			err = os.Chtimes(filepath.Join(o.Dir, all[i]), fi.ModTime(), fi.ModTime())
		}
		if err != nil {
			panic(err)
		}
	}
	return m, o, all
}

// httpReq is a request.
type httpReq struct {
	Method, Path string
	Header       map[string]string
}

func (r httpReq) String() string { return fmt.Sprint(r.Method, " ", r.Path, " ", r.Header) }

func ask(h http.Handler, q httpReq) string {
	r := httptest.NewRequest(q.Method, "http://host/", nil)
	u, err := url.Parse("http://host" + q.Path)
	if err != nil {
		panic(err)
	}
	r.URL = u
	for k, v := range q.Header {
		r.Header.Set(k, v)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	body := w.Body.String()
	ct := w.Header().Get("Content-Type")
	if t, p, err := mime.ParseMediaType(ct); err == nil && t == "multipart/byteranges" {
		body = strings.ReplaceAll(body, p["boundary"], "BOUNDARY")
		ct = t
	}
	var s strings.Builder
	fmt.Fprintf(&s, "%d", w.Code)
	for _, k := range []string{"Content-Length", "Content-Range", "Accept-Ranges", "Location", "Last-Modified", "Etag", "Content-Encoding"} {
		if v := w.Header().Get(k); v != "" {
			fmt.Fprintf(&s, " %s: %s;", k, v)
		}
	}
	if len(body) > 700 {
		body = fmt.Sprintf("%q...%q (%d bytes, sum %x)", body[:300], body[len(body)-300:], len(body), crc32.ChecksumIEEE([]byte(body)))
	}
	fmt.Fprintf(&s, " Content-Type: %s; body %q", ct, body)
	return s.String()
}

// requests are those made to the server of a directory.
func requests(all []string, root string, when func(string) time.Time) (out []httpReq) {
	if len(all) > 200 { // every one would be too much
		var some []string
		for _, i := range positions(len(all)) {
			some = append(some, all[i])
		}
		all = some
	}
	seen := map[string]bool{}
	get := func(p string, hs ...map[string]string) {
		if p == "" {
			p = "/"
		}
		hs = append(hs, nil)
		for _, h := range hs {
			for _, m := range []string{"GET", "HEAD"} {
				q := httpReq{m, p, h}
				if !seen[q.String()] {
					seen[q.String()] = true
					out = append(out, q)
				}
			}
		}
	}
	esc := func(p string) string { return (&url.URL{Path: p}).EscapedPath() }
	for _, n := range all {
		if !beneath(n, root) {
			if root != "/" { // lies outside of what is served
				get(esc(n))
				get("/.." + esc(n))
				get("/%2e%2e" + esc(n))
				get("/../.." + esc(n) + "/")
			}
			continue
		}
		p := esc(strings.TrimPrefix(n, strings.TrimSuffix(root, "/")))
		t := when(n).UTC()
		h := func(k, v string) map[string]string { return map[string]string{k: v} }
		hs := []map[string]string{
			h("If-Modified-Since", t.Format(http.TimeFormat)), h("If-Modified-Since", t.Add(-time.Hour).Format(http.TimeFormat)),
			h("If-Modified-Since", t.Add(time.Hour).Format(http.TimeFormat)), h("If-Unmodified-Since", t.Add(-time.Hour).Format(http.TimeFormat)),
			{"If-Range": t.Format(http.TimeFormat), "Range": "bytes=1-2"}, {"If-Range": t.Add(-time.Hour).Format(http.TimeFormat), "Range": "bytes=1-2"},
		}
		for _, r := range []string{"0-0", "0-", "2-5", "-3", "5-", "0-0,2-3", "-0", "100000-", "3-2", "nonsense", "1198-5000", "0-1,1-1,-1"} {
			hs = append(hs, h("Range", "bytes="+r))
		}
		get(p, hs...)
		get(p + "/")
		get(strings.TrimSuffix(p, "/") + "/index.html")
		get("/" + p)
		get("/." + p)
		get("/nope/.." + p)
		get(p + "/nope")
		get(p + "x")
		get("/" + strings.TrimPrefix(p, "/") + "%20")
		get("/%20" + strings.TrimPrefix(p, "/"))
		get("/x:/" + strings.TrimPrefix(p, "/"))
		get("/" + fsx.Main + ":/" + strings.TrimPrefix(p, "/"))
	}
	get("/nope")
	get("/nope/")
	get("/..")
	get("/" + path.Base(root))
	get("/" + path.Base(root) + "/")
	get("/" + path.Base(root) + "/index.html")
	return
}

// handler makes the file server in question.
func handler(kind, root string, m *mem.Pkger, o *fsx.Back) (http.Handler, func(), error) {
	var fs pkging.Pkger
	switch strings.TrimPrefix(kind, "Dir/") {
	case "mem":
		fs = m
	case "os":
		fs = o.FS
	case "embedded":
		b := &fsx.Back{Kind: "mem", Dir: fsx.MemDir, FS: m}
		if err := b.Reload(); err != nil {
			return nil, nil, err
		}
		fs = b.FS
	}
	if strings.HasPrefix(kind, "Dir/") {
		useGlobally(fs)
		return http.FileServer(pkger.Dir(root)), func() {}, nil
	}
	f, err := fs.Open(root)
	if err != nil {
		return nil, nil, err
	}
	return http.FileServer(f), func() { f.Close() }, nil
}

func runHTTP(c *kit.Ctx, t httpCase) error {
	m, o, all := site(c, t.Parts)
	mine, done, err := handler(t.Fix, t.Root, m, o)
	if err != nil {
		return err
	}
	defer done()
	theirs := http.FileServer(http.Dir(filepath.Join(o.Dir, t.Root)))
	rs := requests(all, t.Root, func(n string) time.Time {
		fi, err := os.Stat(filepath.Join(o.Dir, n))
		if err != nil {
			panic(err)
		}
		return fi.ModTime()
	})
	want := make([]string, len(rs))
	codes := map[string]bool{}
	one := func(i int) error {
		if want[i] == "" {
			want[i] = ask(theirs, rs[i])
			codes[want[i][:3]] = true
		}
		if got := ask(mine, rs[i]); got != want[i] {
			return fmt.Errorf("%s: answers\n%.900s\nthe server of the disk answers\n%.900s", rs[i], got, want[i])
		}
		c.Transitions.Add(1)
		return nil
	}
	for i := range rs {
		if err := one(i); err != nil {
			return err
		}
	}
	if t.Pairs { // every request after every other, by the same server
		for i := range rs {
			c.Beat()
			for j := range rs {
				if err := one(i); err != nil {
					return err
				}
				if err := one(j); err != nil {
					return fmt.Errorf("after %s: %v", rs[i], err)
				}
			}
		}
	}
	c.States.Add(1)
	c.Traces.Add(int64(len(rs)))
	for k := range codes {
		c.Outcome("status", k)
	}
	if !t.Pairs {
		// the tree changes under the server
		return httpChange(t, m, o, mine, theirs)
	}
	return nil
}

// httpChange adds and removes files, and asks again.
func httpChange(t httpCase, m *mem.Pkger, o *fsx.Back, mine, theirs http.Handler) error {
	if fi, err := os.Stat(filepath.Join(o.Dir, t.Root)); strings.HasSuffix(t.Fix, "embedded") || err != nil || !fi.IsDir() {
		return nil
	}
	added := path.Join(t.Root, "late.txt")
	if strings.HasSuffix(t.Fix, "mem") {
		put(m, added, "came later")
	}
	if err := os.WriteFile(filepath.Join(o.Dir, added), []byte("came later"), 0644); err != nil {
		return err
	}
	same := func(p string) error {
		q := httpReq{"GET", p, nil}
		g, w := ask(mine, q), ask(theirs, q)
		cut := func(s string) string { // the times differ now
			if i := strings.Index(s, " Last-Modified"); i >= 0 {
				s = s[:i] + s[i+len(" Last-Modified: Mon, 02 Jan 2006 15:04:05 GMT;"):]
			}
			return s
		}
		if cut(g) != cut(w) {
			return fmt.Errorf("after %s was made: %s: answers\n%.900s\nthe server of the disk answers\n%.900s", added, p, g, w)
		}
		return nil
	}
	for _, p := range []string{"/late.txt", "/"} {
		if err := same(p); err != nil {
			return err
		}
	}
	if strings.HasSuffix(t.Fix, "mem") {
		if err := m.Remove(added); err != nil {
			return err
		}
	}
	os.Remove(filepath.Join(o.Dir, added))
	for _, p := range []string{"/late.txt", "/"} {
		if err := same(p); err != nil {
			return err
		}
	}
	return nil
}

func httpCases(c *kit.Ctx) (out []httpCase) {
	kinds := []string{"mem", "os", "embedded", "Dir/mem", "Dir/os", "Dir/embedded"}
	for mask := 0; mask < 1<<len(siteParts); mask++ {
		var parts []int
		has := map[string]bool{"/": true}
		for i := range siteParts {
			if mask>>i&1 == 1 {
				parts = append(parts, i)
				for _, n := range siteParts[i] {
					for d := path.Dir("/" + n); d != "/"; d = path.Dir(d) {
						has[d] = true
					}
				}
			}
		}
		if n := len(parts); !c.Thorough() && n > 4 && n < len(siteParts)-1 {
			continue
		}
		var roots []string
		for _, r := range []string{"/", "/d", "/d/d", "/e", "/d2"} {
			if has[r] {
				roots = append(roots, r)
			}
		}
		for _, k := range kinds {
			for _, r := range roots {
				out = append(out, httpCase{parts, k, r, false})
				if strings.HasPrefix(k, "Dir/") && len(parts) <= 3 {
					for _, s := range []string{fsx.Main + ":" + r, strings.TrimSuffix(r, "/") + "/", "/" + r} {
						if s != r {
							out = append(out, httpCase{parts, k, s, false})
						}
					}
				}
			}
		}
	}
	for _, k := range kinds {
		if strings.HasPrefix(k, "Dir/") { // not a directory, or not there
			for _, r := range []string{"/nope", "/d/nope", "/a.txt", "/d/f.css", "/index.html", "/d/d/index.html", "/empty"} {
				out = append(out, httpCase{[]int{0, 1, 2, 3, 4}, k, r, false})
			}
		}
		n := len(siteParts)
		deep := strings.Repeat("/D", 30)
		for _, b := range []httpCase{{[]int{0, n}, k, "/", false}, {[]int{n}, k, "/w", false}, {[]int{2, n + 1}, k, "/", false}, {[]int{n + 1}, k, deep, false}, {[]int{n + 1}, k, deep[:24], false}, {[]int{n + 2, 1}, k, "/", false}, {[]int{n + 2}, k, "/big", false}, {[]int{n + 3}, k, "/", false}, {[]int{n + 3, 2}, k, "/%2e%2e", false}} {
			out = append(out, b)
		}
		for _, r := range []string{"/", "/d", "/d/d"} {
			out = append(out, httpCase{[]int{0, 3, 4, 5}, k, r, true})
		}
		if c.Thorough() {
			out = append(out, httpCase{[]int{0, 1, 2, 3, 4, 6, 7, 8}, k, "/", true})
		}
	}
	return
}

// C24 is serving over HTTP.
func C24() *kit.Prop {
	run := func(c *kit.Ctx, t httpCase) error {
		full := t
		t.Root = path.Clean("/" + strings.TrimPrefix(t.Root, fsx.Main+":"))
		if full.Root != t.Root {
			return spelledHTTP(c, full, t.Root)
		}
		return runHTTP(c, t)
	}
	return &kit.Prop{ID: "C24", Level: "model_checking", Shards: true,
		Rule: "trees: the subsets of 11 site parts (files, an empty file, binary, names that need escaping, nested and empty directories, a directory of the same name within the served one, index pages, a directory named index.html); servers: over a directory handle and over pkger.Dir, of the in-memory, the on-disk and the re-hydrated file system; requests: GET and HEAD for every entry in several spellings, ranges, conditions, missing and outside paths; all pairs of requests to one server for one tree; and a directory of 1,300 files, 30 levels of directories and a file of 5 MB; the standard library's file server over the same tree on disk is the oracle",
		Run: func(c *kit.Ctx) {
			cs := httpCases(c)
			c.Set("cases", len(cs))
			c.Each(len(cs), func(i int) {
				c.Check(int64(i), fmt.Sprint(cs[i]), cs[i], func() error { return run(c, cs[i]) })
				if i%997 == 3 && c.WantSample() {
					c.Sample(cs[i])
				}
			})
		},
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			var t httpCase
			if err := json.Unmarshal(raw, &t); err != nil {
				return err
			}
			return run(c, t)
		}}
}

// spelledHTTP serves a directory that is named in another way.
func spelledHTTP(c *kit.Ctx, t httpCase, clean string) error {
	m, o, all := site(c, t.Parts)
	mine, done, err := handler(t.Fix, t.Root, m, o)
	if err != nil {
		return err
	}
	defer done()
	theirs := http.FileServer(http.Dir(filepath.Join(o.Dir, clean)))
	for _, q := range requests(all, clean, func(string) time.Time { return time.Unix(1e9, 0) }) {
		if g, w := ask(mine, q), ask(theirs, q); g != w {
			return fmt.Errorf("%s: answers\n%.900s\nthe server of the disk answers\n%.900s", q, g, w)
		}
		c.Transitions.Add(1)
	}
	c.States.Add(1)
	return nil
}
