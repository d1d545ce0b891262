package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// act is one step of the handle machine.
type act struct {
	H int    `json:"handle"`
	K string `json:"do"`
	N int    `json:"n,omitempty"`
	W int    `json:"whence,omitempty"`
}

type curCase struct {
	Back string `json:"fs"`
	Data string `json:"content"`
	Via  string `json:"opened_through,omitempty"` // "" by path, "dir" through a directory handle, "same" h1 through the same directory handle as h0, "reload" after re-hydration
	Acts []act  `json:"acts"`
}

type cursor struct {
	data  []byte
	off   int64
	done  bool // closed
	taint bool // written to: its own reads are not claimed any more
	f     interface {
		io.Reader
		io.Writer
		io.Closer
		io.Seeker
		Stat() (os.FileInfo, error)
	}
}

type rawFile struct {
	io.Reader
	io.Writer
	io.Closer
	io.Seeker
	stat func() (os.FileInfo, error)
}

func (r rawFile) Stat() (os.FileInfo, error) { return r.stat() }

func runCur(c *kit.Ctx, t curCase, worker int) error {
	b := newBack(c, t.Back, worker)
	put := func(name, data string) error {
		return b.Do(fsx.Op{K: "create", P: name, D: data})
	}
	if err := put("/f", t.Data); err != nil {
		return nil // C01
	}
	put("/g", "other file")
	stored := t.Data
	exists := true
	if t.Via == "reload" {
		if err := b.Reload(); err != nil {
			return nil
		}
	}
	var cs [3]*cursor
	var dir interface {
		Close() error
	}
	open := func(i int) error {
		cu := &cursor{data: []byte(stored)}
		if t.Via == "dir" || t.Via == "same" {
			d, err := b.FS.Open("/")
			if err != nil {
				return errForeign{err}
			}
			dir = d
			h, err := d.Open("/f")
			if err != nil {
				return errForeign{err}
			}
			w, ok := h.(io.Writer)
			if !ok {
				w = io.Discard
			}
			cu.f = rawFile{h, w, h, h, h.Stat}
		} else {
			h, err := b.FS.Open("/f")
			if err != nil {
				return errForeign{err}
			}
			cu.f = rawFile{h, h, h, h, h.Stat}
		}
		cs[i] = cu
		return nil
	}
	defer func() {
		for _, x := range cs {
			if x != nil && !x.done {
				x.f.Close()
			}
		}
		if dir != nil {
			dir.Close()
		}
	}()
	for i, a := range t.Acts {
		bad := func(format string, x ...any) error {
			return fmt.Errorf("%s: act %d (%s %d,%d on handle %d): %s", b.Kind, i, a.K, a.N, a.W, a.H, fmt.Sprintf(format, x...))
		}
		switch a.K {
		case "rewrite":
			d := []byte("A NEW CONTENT, LONGER")[:a.N]
			if err := put("/f", string(d)); err != nil {
				return nil
			}
			stored, exists = string(d), true
			continue
		case "remove":
			b.FS.Remove("/f")
			exists = false
			continue
		}
		cu := cs[a.H]
		if cu == nil {
			if !exists {
				return nil
			}
			if err := open(a.H); err != nil {
				return foreign(c, err)
			}
			cu = cs[a.H]
		}
		if cu.done || cu.taint && a.K != "write" && a.K != "close" {
			continue
		}
		n := int64(len(cu.data))
		switch a.K {
		case "read":
			buf := bytes.Repeat([]byte{0xAA}, a.N+2)
			k, err := cu.f.Read(buf[:a.N])
			left := n - cu.off
			if left < 0 {
				left = 0
			}
			switch {
			case k < 0 || k > a.N || int64(k) > left:
				return bad("read %d bytes, %d are left", k, left)
			case k > 0:
				if !bytes.Equal(buf[:k], cu.data[cu.off:cu.off+int64(k)]) {
					return bad("read %q at %d of %q", buf[:k], cu.off, cu.data)
				}
				if err != nil && !(err == io.EOF && int64(k) == left) {
					return bad("error %v", err)
				}
				cu.off += int64(k)
			case a.N == 0:
				if err != nil && err != io.EOF {
					return bad("error %v", err)
				}
			case left == 0:
				if err != io.EOF {
					return bad("error %v at the end, want io.EOF", err)
				}
			default:
				return bad("read nothing, error %v, but %d bytes are left", err, left)
			}
			for _, x := range buf[a.N:] {
				if x != 0xAA {
					return bad("wrote beyond the buffer")
				}
			}
		case "seek":
			var to int64 = -1
			switch a.W {
			case 0:
				to = int64(a.N)
			case 1:
				to = cu.off + int64(a.N)
			case 2:
				to = n + int64(a.N)
			}
			got, err := cu.f.Seek(int64(a.N), a.W)
			if to < 0 {
				if err == nil {
					return bad("succeeds with %d, want an error", got)
				}
			} else {
				if err != nil || got != to {
					return bad("gives %d, %v, want %d", got, err, to)
				}
				cu.off = to
			}
		case "write":
			// on a handle opened for reading: whatever it answers, the stored file stays as it is
			cu.f.Write([]byte("HACK"))
			if t.Back == "mem" {
				cu.taint = true
			}
		case "close":
			cu.f.Close()
			cu.done = true
		case "stat":
			fi, err := cu.f.Stat()
			if err != nil || fi.Size() != n || fi.Name() != "f" || fi.IsDir() {
				return bad("stat %+v, %v, want size %d", fi, err, n)
			}
		}
		if exists && (a.K == "write" || a.K == "close") {
			got, err := fsx.ReadFile(b.FS, "/f")
			if err != nil || string(got) != stored {
				return bad("the stored file now reads %q, %v, want %q", got, err, stored)
			}
			fi, err := b.FS.Stat("/f")
			if err != nil || fi.Size() != int64(len(stored)) {
				return bad("the stored file's information changed")
			}
		}
	}
	// every handle still delivers the rest of its content
	for i, cu := range cs {
		if cu == nil || cu.done || cu.taint {
			continue
		}
		rest, err := io.ReadAll(cu.f)
		want := []byte{}
		if cu.off < int64(len(cu.data)) {
			want = cu.data[cu.off:]
		}
		if err != nil || !bytes.Equal(rest, want) {
			return fmt.Errorf("%s: in the end handle %d reads %q, %v, want %q", b.Kind, i, rest, err, want)
		}
	}
	return nil
}

func curActs(h int, full bool) (as []act) {
	for _, n := range []int{1, 3, 10} {
		as = append(as, act{h, "read", n, 0})
	}
	as = append(as, act{h, "seek", 0, 0}, act{h, "seek", 2, 0}, act{h, "seek", 1, 1}, act{h, "seek", -1, 1}, act{h, "seek", -1, 2}, act{h, "seek", 2, 2})
	if full {
		as = append(as, act{h, "read", 0, 0}, act{h, "seek", -1, 0}, act{h, "seek", 0, 1}, act{h, "seek", 0, 2}, act{h, "seek", -9, 2}, act{h, "seek", 0, 9}, act{h, "stat", 0, 0}, act{h, "seek", 100, 0}, act{h, "seek", 1 << 32, 0}, act{h, "seek", 1<<32 + 1, 2})
	}
	return
}

// C05 is the cursor property.
func C05() *kit.Prop {
	p := &kit.Prop{ID: "C05", Level: "model_checking",
		Rule:   "all sequences, to the depth, of the acts of a handle machine (reads of several sizes, seeks with every whence incl. negative and past the end, writes to and closes of read handles, rewrites and removal of the file) on up to two or three handles, for empty, one-byte and longer contents and several ways of opening; each act compared with a constant byte string under its own cursor",
		Assume: []string{"short reads and io.EOF together with the last bytes are accepted, as io.Reader allows"}}
	p.Run = func(c *kit.Ctx) {
		type group struct {
			backs []string
			datas []string
			vias  []string
			acts  []act
			depth int
		}
		changes := []act{{0, "rewrite", 2, 0}, {0, "rewrite", 0, 0}, {0, "rewrite", 21, 0}, {0, "remove", 0, 0}, {0, "write", 0, 0}, {0, "close", 0, 0}, {1, "write", 0, 0}, {1, "close", 0, 0}}
		one := append(curActs(0, true))
		two := append(curActs(0, false), curActs(1, false)...)
		three := append(append(append([]act{}, two...), act{2, "read", 3, 0}, act{2, "seek", -1, 2}, act{2, "close", 0, 0}), changes...)
		datas := []string{"", "a", "hello"}
		gs := []group{
			{[]string{"mem", "os"}, datas, []string{"", "dir"}, one, c.Pick(3, 4)},
			{[]string{"mem"}, datas, []string{"", "dir", "reload"}, append(append([]act{}, two...), changes...), c.Pick(3, 4)},
			{[]string{"os"}, datas, []string{"", "dir"}, two, c.Pick(3, 4)},
			{[]string{"mem"}, []string{"hello"}, []string{""}, three, c.Pick(3, 4)},
		}
		if c.Thorough() {
			gs = append(gs, group{[]string{"mem", "os"}, []string{"", "abc"}, []string{""}, curActs(0, false), 6})
		} else {
			gs = append(gs, group{[]string{"mem", "os"}, []string{"", "abc"}, []string{""}, curActs(0, false), 4})
			gs = append(gs, group{[]string{"mem"}, []string{"hello"}, []string{""}, append([]act{{0, "read", 1, 0}, {0, "seek", 0, 0}, {1, "read", 3, 0}, {1, "seek", -1, 2}}, changes...), 4})
		}
		const chunk = 256
		type job struct {
			g         *group
			back, dat string
			via       string
			from      int
		}
		var jobs []job
		total := 0
		for i := range gs {
			g := &gs[i]
			for _, b := range g.backs {
				for _, d := range g.datas {
					for _, v := range g.vias {
						n := pow(len(g.acts), g.depth)
						total += n
						for k := 0; k < n; k += chunk {
							jobs = append(jobs, job{g, b, d, v, k})
						}
					}
				}
			}
		}
		c.Set("planned_sequences", total)
		c.Par(len(jobs), func(i, w int) {
			j := jobs[i]
			n := pow(len(j.g.acts), j.g.depth)
			for k := j.from; k < j.from+chunk && k < n; k++ {
				t := curCase{Back: j.back, Data: j.dat, Via: j.via}
				x := k
				for q := 0; q < j.g.depth; q++ {
					t.Acts = append(t.Acts, j.g.acts[x%len(j.g.acts)])
					x /= len(j.g.acts)
				}
				c.Traces.Add(1)
				c.States.Add(1)
				c.Transitions.Add(int64(len(t.Acts)))
				c.Check(int64(i), fmt.Sprintf("%+v", t), t, func() error { return runCur(c, t, w) })
				if k%9999 == 77 && c.WantSample() {
					c.Sample(t)
				}
			}
		})
		// contents beyond any buffer size, read and sought in odd pieces
		for _, b := range kinds {
			for _, n := range []int{511, 512, 513, 4096, 4097, 32769, 100001} {
				for _, piece := range []int{7, 512, 4096, 40000} {
					b, n, piece := b, n, piece
					cs := map[string]any{"fs": b, "size": n, "piece": piece}
					c.Evals.Add(1)
					c.Check(1<<40, fmt.Sprint("big", cs), cs, func() error {
						data := string(blob(n, 3))
						t := curCase{Back: b, Data: data}
						for off := 0; off < n; off += piece {
							t.Acts = append(t.Acts, act{0, "read", piece, 0})
							if off%(3*piece) == 0 {
								t.Acts = append(t.Acts, act{1, "seek", n - off, 0}, act{1, "read", piece, 0})
							}
							if len(t.Acts) > 400 {
								break
							}
						}
						return runCur(c, t, 0)
					})
				}
			}
		}
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		var t curCase
		if err := json.Unmarshal(raw, &t); err != nil {
			return err
		}
		return runCur(c, t, 0)
	}
	return p
}
