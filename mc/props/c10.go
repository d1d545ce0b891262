package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

type codecCase struct {
	Data  string `json:"data_hex,omitempty"`
	Size  int    `json:"size,omitempty"`
	Style string `json:"style,omitempty"`
	Fault string `json:"fault,omitempty"`
	At    int    `json:"at,omitempty"`
	Char  int    `json:"char,omitempty"`
}

// filler makes n bytes: compressible, constant or incompressible.
func filler(style string, n int) []byte {
	b := make([]byte, n)
	switch style {
	case "zero":
	case "text":
		for i := range b {
			b[i] = "the quick brown fox\n"[i%20]
		}
	case "noise":
		rand.New(rand.NewSource(int64(n))).Read(b)
	case "blocks":
		r := rand.New(rand.NewSource(int64(n)))
		for i := 0; i < n; i += 300 {
			e := i + 300
			if e > n {
				e = n
			}
			if (i/300)%2 == 0 {
				r.Read(b[i:e])
			}
		}
	}
	return b
}

func (t codecCase) data() []byte {
	if t.Style != "" {
		return filler(t.Style, t.Size)
	}
	b, _ := hex.DecodeString(t.Data)
	return b
}

func (t codecCase) damage(enc []byte) []byte {
	i := t.At
	switch t.Fault {
	case "":
		return enc
	case "cut":
		return enc[:i:i]
	case "cut_front":
		return append([]byte{}, enc[i:]...)
	case "replace":
		out := append([]byte{}, enc...)
		out[i] = byte(t.Char)
		return out
	case "delete":
		return append(append([]byte{}, enc[:i]...), enc[i+1:]...)
	case "insert":
		return append(append(append([]byte{}, enc[:i]...), byte(t.Char)), enc[i:]...)
	case "delete2":
		return append(append([]byte{}, enc[:i]...), enc[i+2:]...)
	case "swap":
		out := append([]byte{}, enc...)
		out[i], out[i+1] = out[i+1], out[i]
		return out
	case "double2":
		return append(append([]byte{}, enc[:i+2]...), enc[i:]...)
	case "swapbyte":
		out := append([]byte{}, enc...)
		out[i], out[i+1], out[i+2], out[i+3] = out[i+2], out[i+3], out[i], out[i+1]
		return out
	}
	panic(t.Fault)
}

func runCodec(c *kit.Ctx, t codecCase) error {
	in := t.data()
	enc, err := embed.Encode(append([]byte{}, in...))
	if err != nil {
		return fmt.Errorf("Encode of %d bytes: %v", len(in), err)
	}
	c.Transitions.Add(1)
	bad := t.damage(enc)
	out, err := embed.Decode(append([]byte{}, bad...))
	if t.Fault == "" {
		if err != nil {
			return fmt.Errorf("Decode of an encoding of %d bytes: %v", len(in), err)
		}
		if !bytes.Equal(in, out) {
			return fmt.Errorf("%d bytes come back as %d other bytes", len(in), len(out))
		}
		if bytes.ContainsAny(enc, "`\r") {
			return fmt.Errorf("the encoding cannot stand in a raw string literal")
		}
		return nil
	}
	if err != nil {
		c.Add("damage_rejected", 1)
		return nil
	}
	c.Add("damage_harmless", 1)
	if !bytes.Equal(in, out) {
		return fmt.Errorf("after %s at %d, %d bytes decode to %d other bytes without an error", t.Fault, t.At, len(in), len(out))
	}
	return nil
}

// faults are all single damages of an encoding.
func faults(t codecCase, n int, step int) (out []codecCase) {
	put := func(f string, at, ch int) {
		x := t
		x.Fault, x.At, x.Char = f, at, ch
		out = append(out, x)
	}
	chars := "0123456789abcdefAFgz `\x00\xff\n"
	for i := 0; i < n; i += step {
		put("cut", i, 0)
		if i > 0 {
			put("cut_front", i, 0)
		}
		put("delete", i, 0)
		for _, ch := range []byte(chars) {
			put("replace", i, int(ch))
		}
		for _, ch := range []byte("0f8`\n") {
			put("insert", i, int(ch))
		}
		if i+2 <= n {
			put("delete2", i, 0)
			put("double2", i, 0)
			put("swap", i, 0)
		}
		if i+4 <= n {
			put("swapbyte", i, 0)
		}
	}
	for _, ch := range []byte("0f `\nz") {
		put("insert", n, int(ch))
	}
	return
}

// C10 is the embed codec.
func C10() *kit.Prop {
	p := &kit.Prop{ID: "C10", Level: "fault_enumeration",
		Rule: "round trips of all byte strings up to a length (all bytes to length 2, a four-letter alphabet beyond), and of a ladder of sizes and contents (80 MB at the top); for several payloads every truncation from either end and every replacement, deletion, insertion, doubling and swap of a character or byte of the encoding, decoded and loaded. Non-trivial: damaged encodings and inputs longer than one byte"}
	p.Run = func(c *kit.Ctx) {
		var cases []codecCase
		b1 := []string{""}
		for i := 0; i < 256; i++ {
			b1 = append(b1, string([]byte{byte(i)}))
		}
		for _, a := range b1 {
			cases = append(cases, codecCase{Data: hex.EncodeToString([]byte(a))})
			for _, b := range b1[1:] {
				if a != "" {
					cases = append(cases, codecCase{Data: hex.EncodeToString([]byte(a + b))})
				}
			}
		}
		for _, s := range pathStrings([]string{"\x00", "a", "\xff", "\n"}, c.Pick(7, 9)) {
			cases = append(cases, codecCase{Data: hex.EncodeToString([]byte(s))})
		}
		sizes := map[int]bool{}
		for k := 0; k <= c.Pick(21, 24); k++ {
			for d := -2; d <= 2; d++ {
				if n := 1<<k + d; n >= 0 {
					sizes[n] = true
				}
			}
		}
		for _, n := range []int{65535, 65536, 32768 * 3, 1000000} {
			sizes[n] = true
		}
		var sz []int
		for n := range sizes {
			sz = append(sz, n)
		}
		sort.Ints(sz)
		for _, n := range sz {
			for _, st := range []string{"zero", "text", "noise", "blocks"} {
				cases = append(cases, codecCase{Size: n, Style: st})
			}
		}
		cases = append(cases, codecCase{Size: 80<<20 + 7, Style: "zero"}, codecCase{Size: 70<<20 + 1, Style: "text"}, codecCase{Size: 18<<20 - 5, Style: "noise"}, codecCase{Size: 17<<20 + 3, Style: "blocks"})
		if c.Thorough() {
			cases = append(cases, codecCase{Size: 300 << 20, Style: "zero"}, codecCase{Size: 70 << 20, Style: "noise"})
		}
		c.Set("round_trips", len(cases))
		payloads := []codecCase{{Data: ""}, {Data: "00"}, {Data: hex.EncodeToString([]byte("hello, world"))}, {Size: 1000, Style: "zero"}, {Size: 300, Style: "noise"}, {Size: 2000, Style: "text"}, {Size: 1200, Style: "blocks"}}
		if c.Thorough() {
			payloads = append(payloads, codecCase{Size: 40000, Style: "text"}, codecCase{Size: 5000, Style: "noise"}, codecCase{Size: 9000, Style: "blocks"}, codecCase{Size: 70000, Style: "zero"})
		}
		c.Set("damaged_payloads", len(payloads))
		for _, t := range payloads {
			enc, err := embed.Encode(t.data())
			if err != nil {
				continue
			}
			cases = append(cases, faults(t, len(enc), 1)...)
		}
		c.Par(len(cases), func(i, w int) {
			t := cases[i]
			c.Evals.Add(1)
			if t.Fault != "" || len(t.Data) > 2 || t.Size > 1 {
				c.Distinct.Add(1)
			}
			c.Check(int64(i), fmt.Sprint(t), t, func() error { return runCodec(c, t) })
			if i%50021 == 50000 {
				c.Sample(t)
			}
		})
		// a damaged embedded file system must not load as another one
		good, enc := embedded()
		fs := faults(codecCase{}, len(enc), c.Pick(3, 1))
		c.Set("damaged_file_systems", len(fs))
		c.Par(len(fs), func(i, w int) {
			t := fs[i]
			t.Style = "filesystem"
			c.Evals.Add(1)
			c.Distinct.Add(1)
			c.Check(int64(i), fmt.Sprint(t), t, func() error { return runLoad(c, t, good, enc) })
		})
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		var t codecCase
		if err := json.Unmarshal(raw, &t); err != nil {
			return err
		}
		if t.Style == "filesystem" {
			g, e := embedded()
			return runLoad(c, t, g, e)
		}
		return runCodec(c, t)
	}
	return p
}

func embedded() (string, []byte) {
	b, _ := fsx.NewMulti()
	j, err := b.FS.(*mem.Pkger).MarshalJSON()
	if err != nil {
		panic(err)
	}
	e, err := embed.Encode(j)
	if err != nil {
		panic(err)
	}
	return string(j), e
}

func runLoad(c *kit.Ctx, t codecCase, good string, enc []byte) error {
	fx, err := mem.UnmarshalEmbed(t.damage(enc))
	if err != nil {
		c.Add("damaged_file_systems_rejected", 1)
		return nil
	}
	j, err := fx.MarshalJSON()
	if err != nil {
		return err
	}
	if string(j) != good {
		return fmt.Errorf("a file system damaged by %s at %d loads without an error, but differs", t.Fault, t.At)
	}
	return nil
}

// everything observes a whole file system through its API.
func everything(fx pkging.Pkger, pkgs []string, extra []string) string {
	var w strings.Builder
	cur, err := fx.Current()
	cj, _ := json.Marshal(cur)
	fmt.Fprintf(&w, "current %s %v\n", cj, err != nil)
	for _, g := range append([]string{"", "example.com/none"}, pkgs...) {
		in, err := fx.Info(g)
		ij, _ := json.Marshal(in)
		fmt.Fprintf(&w, "info %s %s %v\n", g, ij, err != nil)
		if g == "" || g == "example.com/none" {
			continue
		}
		b := &fsx.Back{FS: fx}
		v, err := b.Walk(g+":/", fsx.Continue)
		fmt.Fprintf(&w, "walk %s %v\n", g, err != nil)
		names := append([]string{}, extra...)
		for _, x := range v {
			names = append(names, x.Path)
			fmt.Fprintf(&w, " %s %s\n", x.Path, pkging.NewFileInfo(x.Info))
		}
		for _, n := range names {
			fi, err := fx.Stat(n)
			if err != nil {
				fmt.Fprintf(&w, "stat %s fails\n", n)
			} else {
				fmt.Fprintf(&w, "stat %s %s %d %v %d %v\n", n, fi.Name(), fi.Size(), fi.Mode(), fi.ModTime().UnixNano(), fi.IsDir())
			}
			h, err := fx.Open(n)
			if err != nil {
				fmt.Fprintf(&w, "open %s fails\n", n)
				continue
			}
			hi, _ := json.Marshal(h.Info())
			fmt.Fprintf(&w, "open %s %v %s\n", h.Name(), h.Path(), hi)
			if fi != nil && fi.IsDir() {
				fis, err := h.Readdir(-1)
				for _, x := range fis {
					fmt.Fprintf(&w, "  %s\n", pkging.NewFileInfo(x))
				}
				fmt.Fprintf(&w, "  %v\n", err != nil)
			} else {
				d, err := fsx.ReadFile(fx, n)
				fmt.Fprintf(&w, "  %q %v\n", d, err != nil)
			}
			h.Close()
		}
	}
	return w.String()
}
