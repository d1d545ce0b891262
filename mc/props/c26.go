package props

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/markbates/pkger/pkging"

	"verif.local/mc/kit"
)

// loose is an os.FileInfo of somebody else, which may change.
type loose struct {
	name string
	size int64
	mode os.FileMode
	time time.Time
	dir  bool
	sys  interface{}
}

func (l *loose) Name() string       { return l.name }
func (l *loose) Size() int64        { return l.size }
func (l *loose) Mode() os.FileMode  { return l.mode }
func (l *loose) ModTime() time.Time { return l.time }
func (l *loose) IsDir() bool        { return l.dir }
func (l *loose) Sys() interface{}   { return l.sys }

type metaCase struct {
	Name   string `json:"name"`
	Size   int64  `json:"size"`
	Mode   uint32 `json:"mode"`
	Sec    int64  `json:"unix"`
	Nano   int64  `json:"nano"`
	Offset int    `json:"zone_offset"`
	Zone   string `json:"zone,omitempty"`
	Dir    bool   `json:"dir"`
	Sys    int    `json:"sys"`
	From   string `json:"from"` // "other": another implementation, "own": a pkging.FileInfo, "disk"
}

func (m metaCase) when() time.Time {
	t := time.Unix(m.Sec, m.Nano)
	switch {
	case m.Zone == "UTC":
		return t.UTC()
	case m.Zone == "Local":
		return t
	}
	return t.In(time.FixedZone(m.Zone, m.Offset))
}

func sysOf(i int) interface{} {
	switch i {
	case 1:
		return "system data"
	case 2:
		return map[string]interface{}{"inode": 7.0}
	case 3:
		fi, err := os.Stat("/")
		if err != nil {
			panic(err)
		}
		return fi.Sys()
	}
	return nil
}

func sameMeta(what string, a os.FileInfo, name string, size int64, mode os.FileMode, t time.Time, dir bool) error {
	if a.Name() != name || a.Size() != size || a.Mode() != mode || !a.ModTime().Equal(t) || a.IsDir() != dir {
		return fmt.Errorf("%s is %q %d %v (%o) %v dir=%v, it should be %q %d %v (%o) %v dir=%v", what, a.Name(), a.Size(), a.Mode(), uint32(a.Mode()), a.ModTime().UTC(), a.IsDir(), name, size, mode, uint32(mode), t.UTC(), dir)
	}
	return nil
}

func runMeta(c *kit.Ctx, m metaCase) error {
	mode, when, sys := os.FileMode(m.Mode), m.when(), sysOf(m.Sys)
	var src os.FileInfo
	change := func() {}
	switch m.From {
	case "other":
		l := &loose{m.Name, m.Size, mode, when, m.Dir, sys}
		src, change = l, func() { *l = loose{"other", 99, 0123, time.Unix(1, 2), !m.Dir, 1} }
	case "own":
		f := &pkging.FileInfo{Details: pkging.Details{Name: m.Name, Size: m.Size, Mode: mode, ModTime: pkging.ModTime(when), IsDir: m.Dir, Sys: sys}}
		src, change = f, func() {
			f.Details = pkging.Details{Name: "other", Size: 99, Mode: 0123, ModTime: pkging.ModTime(time.Unix(1, 2)), IsDir: !m.Dir, Sys: 1}
		}
	case "disk":
		p := filepath.Join(c.Work, "meta")
		os.RemoveAll(p)
		var err error
		if m.Dir {
			err = os.Mkdir(p, 0755)
		} else if err = os.WriteFile(p, nil, 0644); err == nil {
			err = os.Truncate(p, m.Size)
		}
		if err == nil {
			err = os.Chmod(p, mode)
		}
		if err == nil {
			err = os.Chtimes(p, when, when)
		}
		if err != nil {
			panic(err)
		}
		fi, err := os.Stat(p)
		if err != nil {
			panic(err)
		}
		if !fi.ModTime().Equal(when) {
			c.Add("times_the_disk_cannot_hold", 1)
			return nil
		}
		m.Name, m.Size, mode, sys = "meta", fi.Size(), fi.Mode(), fi.Sys()
		src = fi
	}
	cp := pkging.NewFileInfo(src)
	cp2 := pkging.NewFileInfo(cp)
	for _, x := range []struct {
		w string
		i *pkging.FileInfo
	}{{"the copy", cp}, {"the copy of the copy", cp2}} {
		if err := sameMeta(x.w, x.i, m.Name, m.Size, mode, when, m.Dir); err != nil {
			return err
		}
		if fmt.Sprint(x.i.Sys()) != fmt.Sprint(sys) {
			return fmt.Errorf("%s has the system data %v instead of %v", x.w, x.i.Sys(), sys)
		}
		if z, o := x.i.ModTime().Zone(); true {
			if z2, o2 := when.Zone(); m.From != "disk" && (z != z2 || o != o2) {
				return fmt.Errorf("%s is in the zone %s %d instead of %s %d", x.w, z, o, z2, o2)
			}
		}
	}
	b, err := json.Marshal(cp)
	if y := cp.ModTime().Year(); err != nil && (y < 1 || y > 9998) {
		// it cannot be expressed; what matters is that this is said
		c.Add("years_out_of_range", 1)
		return nil
	}
	if err != nil {
		return fmt.Errorf("serialising: %v", err)
	}
	var back pkging.FileInfo
	if err := json.Unmarshal(b, &back); err != nil {
		return fmt.Errorf("reading %s back: %v", b, err)
	}
	if err := sameMeta("what was read back from "+string(b), &back, m.Name, m.Size, mode, when, m.Dir); err != nil {
		return err
	}
	b2, err := json.Marshal(&back)
	if err != nil {
		return fmt.Errorf("serialising again: %v", err)
	}
	var back2 pkging.FileInfo
	if err := json.Unmarshal(b2, &back2); err != nil {
		return fmt.Errorf("reading %s back: %v", b2, err)
	}
	if err := sameMeta("what was read back from "+string(b2), &back2, m.Name, m.Size, mode, when, m.Dir); err != nil {
		return err
	}
	// into something that is in use
	used := pkging.NewFileInfo(&loose{"used", 5, 0777, time.Unix(5, 5), !m.Dir, "x"})
	if err := json.Unmarshal(b, used); err != nil {
		return fmt.Errorf("reading %s back: %v", b, err)
	}
	if err := sameMeta("what was read back over another", used, m.Name, m.Size, mode, when, m.Dir); err != nil {
		return err
	}
	// the source changes, or the copy of the copy
	change()
	cp2.Details.Name, cp2.Details.Size = "changed", 4
	if err := sameMeta("the copy, after the source changed,", cp, m.Name, m.Size, mode, when, m.Dir); err != nil {
		return err
	}
	if m.From == "disk" {
		os.RemoveAll(filepath.Join(c.Work, "meta"))
		if err := sameMeta("the copy, after the file was removed,", cp, m.Name, m.Size, mode, when, m.Dir); err != nil {
			return err
		}
	}
	c.States.Add(1)
	c.Transitions.Add(5)
	c.Traces.Add(1)
	return nil
}

func metaCases(c *kit.Ctx) (out []metaCase) {
	names := []string{"a", "", "a b", `q"uo\te`, "ü\u2028<>&", "日本語", "\U0001F600", "/", "..", "tab\tnl\n\x00\x1f\x7f", strings.Repeat("long", 64)}
	sizes := []int64{0, 1, 1023, 1 << 31, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, -1}
	kinds := []os.FileMode{0, os.ModeDir, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeDevice | os.ModeCharDevice, os.ModeIrregular, os.ModeAppend, os.ModeExclusive, os.ModeTemporary, os.ModeSetuid, os.ModeSetgid, os.ModeSticky, os.ModeSetuid | os.ModeSetgid | os.ModeSticky}
	first, last := time.Date(0, 1, 2, 0, 0, 0, 0, time.UTC).Unix(), time.Date(9999, 12, 30, 23, 59, 59, 0, time.UTC).Unix()
	secs := []int64{0, -1, 1, 1e9, 1234567890, -62135596800, -62135596801, first, last, 1 << 31, 1<<31 - 1, -1 << 31, 253402300799 - 90000, 951782400 /* leap day */, -2000000000, 1711846799, 1711846800 /* summer time begins */, 1729990800,
		// years 10000, 12000, -1, -50
		253402300800 + 86400, 316516550400, -62198755200, -63745056000}
	nanos := []int64{0, 1, 999999999, 500000000, 123456789, 100, 1000, 999999000, 120000000}
	type zone struct {
		n string
		o int
	}
	zones := []zone{{"UTC", 0}, {"Local", 0}, {"", 0}, {"CET", 3600}, {"", 3600}, {"IST", 19800}, {"", -12600}, {"", 14 * 3600}, {"", -12 * 3600}, {"LMT", 1172}, {"LMT", -75}, {"", 1}, {"", -1}, {"", 59}, {"", 86399}, {"", -86399}, {"", 23*3600 + 59*60}}
	// times, in full
	for _, s := range secs {
		for _, n := range nanos {
			for _, z := range zones {
				for _, f := range []string{"other", "own"} {
					out = append(out, metaCase{"a", 3, 0644, s, n, z.o, z.n, false, 0, f})
				}
			}
			for _, d := range []bool{false, true} {
				out = append(out, metaCase{Name: "meta", Size: 3, Mode: 0644, Sec: s, Nano: n, Zone: "UTC", Dir: d, From: "disk"})
			}
		}
	}
	// modes, in full
	for _, k := range kinds {
		for p := 0; p <= 0777; p++ {
			if !c.Thorough() && p&7 != 0 && p&7 != 5 && p&7 != 7 {
				continue
			}
			for _, d := range []bool{false, true} {
				for _, f := range []string{"other", "own"} {
					out = append(out, metaCase{Name: "a", Size: 3, Mode: uint32(k) | uint32(p), Sec: 1e9, Nano: 7, Zone: "UTC", Dir: d, From: f})
				}
			}
			if k == 0 && p&0600 == 0600 {
				for _, d := range []bool{false, true} {
					out = append(out, metaCase{Name: "meta", Size: 3, Mode: uint32(p), Sec: 1e9, Nano: 7, Zone: "UTC", Dir: d, From: "disk"})
				}
			}
		}
	}
	// everything else against everything else
	for _, n := range names {
		for _, s := range sizes {
			for _, sec := range []int64{0, 1234567890, last, first} {
				for _, z := range []zone{{"UTC", 0}, {"LMT", 1172}, {"", -12600}} {
					for _, k := range []os.FileMode{0644, os.ModeDir | 0755} {
						for _, d := range []bool{false, true} {
							for sys := 0; sys < 4; sys++ {
								for _, f := range []string{"other", "own"} {
									out = append(out, metaCase{n, s, uint32(k), sec, 123456789, z.o, z.n, d, sys, f})
								}
							}
						}
					}
				}
			}
		}
	}
	return
}

// C26 is file information.
func C26() *kit.Prop {
	return &kit.Prop{ID: "C26", Level: "model_checking", Shards: true,
		Rule: "all combinations of times (18 seconds from year 0 to 9999, 9 fractions, 17 zones) and of modes (kinds x permission bits), and of names, sizes, system data and kinds, from three sources of file information; each is copied, copied again, serialised twice, and compared after the source changed",
		Run: func(c *kit.Ctx) {
			cs := metaCases(c)
			c.Set("cases", len(cs))
			c.Each(len(cs), func(i int) {
				c.Check(int64(i), fmt.Sprint(cs[i]), cs[i], func() error { return runMeta(c, cs[i]) })
				if i%9001 == 3 && c.WantSample() {
					c.Sample(cs[i])
				}
			})
		},
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			var m metaCase
			if err := json.Unmarshal(raw, &m); err != nil {
				return err
			}
			return runMeta(c, m)
		}}
}
