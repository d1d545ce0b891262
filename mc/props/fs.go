// Package props holds the checks.
package props

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

// hist is one case: a history on one file system, followed by an observation.
type hist struct {
	Back string   `json:"fs"`
	Init string   `json:"init,omitempty"`
	Ops  []fsx.Op `json:"ops"`
	More any      `json:"observe,omitempty"`
}

// state is a model state with a shortest history leading to it.
type state struct {
	f   *ref.FS
	ops []fsx.Op
}

// explore enumerates every model state reachable by histories of the operations (breadth first, up to depth), starting from init.
func explore(c *kit.Ctx, init *ref.FS, ops []fsx.Op, depth, max int) []state {
	seen := map[string]bool{init.Canon(): true}
	out := []state{{init, nil}}
	lo := 0
	for d := 0; d < depth; d++ {
		hi := len(out)
		if lo == hi {
			break
		}
		for i := lo; i < hi; i++ {
			for _, o := range ops {
				g := out[i].f.Clone()
				if o.Undefined(g) || !o.Model(g) {
					continue
				}
				k := g.Canon()
				if seen[k] {
					continue
				}
				seen[k] = true
				h := append(append([]fsx.Op{}, out[i].ops...), o)
				out = append(out, state{g, h})
				if max > 0 && len(out) >= max {
					c.Capped()
					return out
				}
			}
		}
		lo = hi
		c.Beat()
	}
	return out
}

// sequences enumerates all histories of exactly n operations; f gets each (do not keep the slice).
func sequences(ops []fsx.Op, n int, idx int) []fsx.Op {
	out := make([]fsx.Op, n)
	for i := 0; i < n; i++ {
		out[i] = ops[idx%len(ops)]
		idx /= len(ops)
	}
	return out
}

func pow(b, n int) int {
	r := 1
	for i := 0; i < n; i++ {
		r *= b
	}
	return r
}

// uni is the operation alphabet over a set of names.
type uni struct {
	names []string
	data  []string
	perms []uint32
}

func (u uni) mk() (ops []fsx.Op) {
	for _, n := range u.names {
		for _, d := range u.data {
			ops = append(ops, fsx.Op{K: "create", P: n, D: d})
		}
		for _, m := range u.perms {
			ops = append(ops, fsx.Op{K: "mkdir", P: n, M: m})
		}
	}
	return
}

func (u uni) rm() (ops []fsx.Op) {
	for _, n := range u.names {
		ops = append(ops, fsx.Op{K: "rm", P: n}, fsx.Op{K: "rmall", P: n})
	}
	return
}

func (u uni) paths(pkgs ...string) (ps []ref.Path) {
	for _, g := range append([]string{fsx.Main}, pkgs...) {
		for _, n := range u.names {
			ps = append(ps, ref.Path{Pkg: g, Name: n})
		}
	}
	return
}

// newBack makes an empty file system of a kind for a worker.
func newBack(c *kit.Ctx, kind string, worker int) *fsx.Back {
	if kind == "mem" {
		return fsx.NewMem()
	}
	return fsx.NewOS(filepath.Join(c.Work, fmt.Sprintf("w%d", worker), "base", "src", "theapp"))
}

// errForeign marks a deviation that another property is about.
type errForeign struct{ error }

// play runs a history. judge tells which operations' outcomes belong to the property.
func play(b *fsx.Back, f *ref.FS, ops []fsx.Op, judge func(o fsx.Op, want bool) bool) error {
	for i, o := range ops {
		g := f.Clone()
		if o.Undefined(g) {
			return errForeign{fmt.Errorf("not claimed: %v", o)}
		}
		want := o.Model(g)
		err := b.Step(o, f)
		if err != nil {
			err = fmt.Errorf("step %d: %v", i, err)
			if judge(o, want) {
				return err
			}
			return errForeign{err}
		}
	}
	return nil
}

// foreign drops deviations that other properties are about.
func foreign(c *kit.Ctx, err error) error {
	if e, ok := err.(errForeign); ok {
		c.Add("cut_by_other_property", 1)
		c.Set("cut_by_other_property_last", e.Error())
		return nil
	}
	return err
}

func histKey(h hist) string {
	var s []string
	for _, o := range h.Ops {
		s = append(s, o.String())
	}
	k := h.Back + "/" + h.Init + ":" + strings.Join(s, ";")
	if h.More != nil {
		b, _ := json.Marshal(h.More)
		k += "|" + string(b)
	}
	return k
}

// replayHist decodes a history case and runs it.
func replayHist(run func(c *kit.Ctx, h hist, worker int) error) func(c *kit.Ctx, raw json.RawMessage) error {
	return func(c *kit.Ctx, raw json.RawMessage) error {
		var h hist
		if err := json.Unmarshal(raw, &h); err != nil {
			return err
		}
		return run(c, h, 0)
	}
}
