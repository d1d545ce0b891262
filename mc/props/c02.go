package props

import (
	"encoding/json"
	"fmt"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

// whole compares the whole observable tree with the model.
func whole(c *kit.Ctx, b *fsx.Back, f *ref.FS, ps []ref.Path, h hist) error {
	b.Lax = true
	if err := contents(c, b, f, ps, h); err != nil {
		return err
	}
	if h.Init == "multi" {
		return b.Strays(f, fsx.Ext)
	}
	return b.Strays(f)
}

// unchanged compares the whole observation, with modification times, around an operation that must change nothing.
func unchanged(noop func(f *ref.FS, o fsx.Op, ok bool) bool) (func(b *fsx.Back, f *ref.FS, ps []ref.Path) any, func(b *fsx.Back, f *ref.FS, ps []ref.Path, o fsx.Op, ok bool, before any) error) {
	type pre struct {
		snap string
		f    *ref.FS
	}
	return func(b *fsx.Back, f *ref.FS, ps []ref.Path) any {
			return pre{b.Snap(ps, true), f.Clone()}
		}, func(b *fsx.Back, f *ref.FS, ps []ref.Path, o fsx.Op, ok bool, before any) error {
			p := before.(pre)
			if !noop(p.f, o, ok) {
				return nil
			}
			if s := b.Snap(ps, true); s != p.snap {
				return fmt.Errorf("%s: %v (success=%v) must change nothing; before:\n%safter:\n%s", b.Kind, o, ok, p.snap, s)
			}
			return nil
		}
}

func c02Check(c *kit.Ctx) *fsCheck {
	u := fsUni(c, false)
	k := &fsCheck{u: u, full: seqOps(), see: whole,
		judge: func(o fsx.Op, want bool) bool { return o.K == "mkdir" || o.K == "create" }}
	k.last = u.mk()
	for _, n := range u.names {
		k.last = append(k.last, fsx.Op{K: "mkdir", P: n, M: 0700}, fsx.Op{K: "mkdir", P: n + "/new", M: 0711}, fsx.Op{K: "mkdir", P: n + "/new/er", M: 0755},
			fsx.Op{K: "create", P: n + "/new", D: "n"})
	}
	k.last = append(k.last, fsx.Op{K: "mkdir", P: "/", M: 0700})
	k.watch = []string{"/a/new", "/a/new/er", "/ab/new", "/ab/new/er", "/a/b/new", "/a/b/new/er", "/a-/new", "/a/b/c/new", "/a/bc/new", "/ab/b/new"}
	k.pre, k.post = unchanged(func(f *ref.FS, o fsx.Op, ok bool) bool {
		if o.K != "mkdir" && o.K != "create" {
			return false
		}
		if !ok {
			return true
		}
		n, there := f.Get(o.Path())
		return o.K == "mkdir" && there && n.Dir
	})
	return k
}

// C02 is the creation property.
func C02() *kit.Prop {
	p := &kit.Prop{ID: "C02", Level: "model_checking",
		Rule: "explicit-state exploration of the reference model (all reachable trees x every directory or file creation) and all unmerged histories to the depth, replayed on the real in-memory and on-disk file systems; after each, success is compared and every path, stray entry and (for failing or idempotent creations) every modification time is observed"}
	p.Run = func(c *kit.Ctx) { c02Check(c).run(c) }
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error { return replayHist(c02Check(c).one)(c, raw) }
	return p
}

func c03Check(c *kit.Ctx) *fsCheck {
	u := fsUni(c, false)
	k := &fsCheck{u: u, full: seqOps(), see: whole, last: u.rm(),
		judge: func(o fsx.Op, want bool) bool { return o.K == "rm" || o.K == "rmall" }}
	for _, n := range []string{"/missing", "/a/missing", "/a/b/missing/x", "/b", "/a/b/cc"} {
		k.last = append(k.last, fsx.Op{K: "rm", P: n}, fsx.Op{K: "rmall", P: n})
	}
	k.last = append(k.last, fsx.Op{K: "rm", P: "/"}, fsx.Op{K: "rmall", P: "/"}, fsx.Op{K: "rmall", P: "/a", S: 4}, fsx.Op{K: "rm", P: "/a", S: 4}, fsx.Op{K: "rmall", P: "/a/b", S: 1})
	k.pre, k.post = unchanged(func(f *ref.FS, o fsx.Op, ok bool) bool {
		if o.K != "rm" && o.K != "rmall" {
			return false
		}
		if !ok {
			return true
		}
		_, there := f.Get(o.Path())
		return o.K == "rmall" && !there && !f.Kids(o.Path())
	})
	return k
}

// C03 is the removal property.
func C03() *kit.Prop {
	p := &kit.Prop{ID: "C03", Level: "model_checking",
		Rule: "explicit-state exploration of the reference model (all reachable trees, also of two packages and with unembedded directories, x every removal) and all unmerged histories to the depth, replayed on the real in-memory and on-disk file systems; after each, success is compared and every path, stray entry and (for failing or idle removals) every modification time is observed"}
	p.Run = func(c *kit.Ctx) {
		runLarge(c, kinds, []string{"", "dismantle"}, largeRemovals)
		c03Check(c).run(c)
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		if ok, err := asLarge(c, raw, largeRemovals); ok {
			return err
		}
		return replayHist(c03Check(c).one)(c, raw)
	}
	return p
}
