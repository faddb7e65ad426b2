package main

import (
	"context"
	"fmt"
	"os"
	"strings"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/inventory"
)

// C01: after every call, the running instance, an instance over an index which has been rebuilt from the tape alone, and an instance
// which has reopened the current index have to show the same tree.

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration",
		Rule:        "distinct (operation, outcome, tape state) situations in which the live, rebuilt and reopened trees were compared entry by entry",
		Plan:        func(tier string) int { return map[string]int{"quick": 320, "thorough": 9000}[tier] },
		Run:         runC01,
		Need:        []string{"rebuilds compared", "reopens compared", "archive-level calls", "links compared"},
		Assumptions: []string{"archive-level calls name parents which exist (the file system checks this, the archive interface leaves it to its caller)", "creating or renaming on top of a symbolic link is excluded (C13 covers links on their own)"},
	})
}

// stat of the inventory, which reports more than the file system does
func invOf(r *Rig, p string) string {
	h, err := inventory.Stat(r.Meta, p, false, nil)
	if err != nil {
		return "error " + class(err)
	}
	return fmt.Sprintf("type=%d size=%d mode=%o uid=%d gid=%d uname=%q gname=%q m=%d a=%d c=%d dev=%d,%d", h.Typeflag, h.Size, h.Mode&0o7777, h.Uid, h.Gid, h.Uname, h.Gname,
		h.ModTime.UnixNano(), h.AccessTime.UnixNano(), h.ChangeTime.UnixNano(), h.Devmajor, h.Devminor)
}

func sameAs(c *Ctx, r *Rig, live Snap, o *Rig, what string) {
	s, err := FullSnap(o.FS)
	if err != nil {
		c.Violate("%s: %v [%v]", what, err, r.Cfg)
	}
	if d := Diff(live, s, "live", what); d != "" {
		c.Violate("%s shows something else than the running instance: %s [%v]", what, d, r.Cfg)
	}
	for p := range live {
		if p == "/" {
			continue
		}
		if a, b := invOf(r, p), invOf(o, p); a != b {
			c.Violate("%s: inventory of %q: live %s, %s %s [%v]", what, p, a, what, b, r.Cfg)
		}
	}
	c.Count("entries compared", len(s))
}

// compareRebuilt compares the running instance with the tape.
func compareRebuilt(c *Ctx, r *Rig, live Snap, reopen, index bool) {
	if o, err := r.Rebuilt(); err != nil {
		c.Violate("rebuilding: %v [%v]", err, r.Cfg)
	} else {
		sameAs(c, r, live, o, "rebuilt index")
		o.Close()
		c.Count("rebuilds compared", 1)
	}
	if index {
		o, err := r.Indexed(r.Drive)
		if err != nil {
			c.Violate("recovery.Index: %v [%v]", err, r.Cfg)
		}
		sameAs(c, r, live, o, "recovery.Index")
		o.Close()
		c.Count("recovery.Index compared", 1)
	}
	if reopen && !r.Opts.DBMem {
		o, err := r.Reopened()
		if err != nil {
			c.Violate("reopening: %v [%v]", err, r.Cfg)
		}
		sameAs(c, r, live, o, "reopened index")
		o.Close()
		c.Count("reopens compared", 1)
	}
}

func runC01(c *Ctx) {
	cfg := cheapCfg(c.Rng)
	if c.Idx%3 == 0 {
		cfg.Enc, cfg.Sig, cfg.Comp = config.NoneKey, config.NoneKey, config.NoneKey
	}
	if c.Idx%16 == 5 {
		cfg = tapeCfg(c.Rng)
	}
	g := NewGen(c.Rng).own(cfg)
	g.Archive = c.Idx%2 == 0
	links := c.Idx%8 == 3
	faults := c.Idx%8 == 7
	o := Opts{}
	var arm func(kind string) error
	if faults {
		o.Hooks = &Hooks{Point: func(kind string) error {
			if arm != nil && (strings.HasPrefix(kind, "index.") || strings.HasPrefix(kind, "drive.")) {
				return arm(kind)
			}
			return nil
		}}
	}
	r, err := NewRig(cfg, c.Base, o)
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	live, err := FullSnap(r.FS)
	if err != nil {
		c.Violate("fresh instance: %v", err)
	}
	linkNames := map[string]bool{}
	behind := false // Whether the index may be behind the tape
	n := c.Pick(26, 45)
	for i := 0; i < n; i++ {
		kinds := live.kinds()
		for l := range linkNames {
			delete(kinds, l) // links are not operands of other calls
		}
		var op Op
		if links && c.Rng.Intn(4) == 0 {
			v := viewOf(kinds)
			to := g.freshUnused(v)
			if linkNames[to] || len(v.all) == 0 {
				continue
			}
			op = Op{K: "symlink", A: g.existing(v), B: to}
		} else if links && len(linkNames) > 0 && c.Rng.Intn(6) == 0 {
			l := []string{}
			for k := range linkNames {
				l = append(l, k)
			}
			sortStrings(l)
			op = Op{K: "remove", A: l[c.Rng.Intn(len(l))]}
		} else {
			op = g.Next(kinds)
			if links {
				skip := false
				for l := range linkNames {
					if touches(op, l) {
						skip = true
					}
					for _, b := range op.Batch {
						if touches(Op{A: b.Path}, l) {
							skip = true
						}
					}
				}
				if skip || removesTarget(op, live) {
					continue
				}
			}
		}
		// An index which couldn't be updated catches up with the tape
		injected := ""
		if faults && c.Rng.Intn(3) == 0 {
			k, only := c.Rng.Intn(14), []string{"index.", "drive.", "index.", ""}[c.Rng.Intn(4)]
			if c.Rng.Intn(2) == 0 {
				k, only = c.Rng.Intn(2), "index."+[]string{"UpsertHeader", "UpdateHeaderMetadata", "MoveHeader", "DeleteHeader"}[c.Rng.Intn(4)]
			}
			arm = func(kind string) error {
				if strings.HasPrefix(kind, only) {
					if k--; k == -1 {
						injected = kind
						return errInjected
					}
				}
				return nil
			}
		}
		c.Trace("%s", op)
		res := Exec(r, op)
		arm = nil
		c.Count("ops", 1)
		switch op.K {
		case "archive", "update", "opdelete", "opmove":
			c.Count("archive-level calls", 1)
		}
		c.Trace("  -> %s", res.Class)
		if injected != "" {
			c.Trace("  %s failed", injected)
			c.Count("calls which failed at an injected fault", 1)
			if behind = true; i < n-2 && c.Rng.Intn(2) == 0 {
				continue // The next call has to cope with it
			}
		}
		if behind {
			// The first call which changes anything after it is the one to catch up
			for try := 0; ; try++ {
				p := fmt.Sprintf("/after%d", nextID())
				if err := r.FS.Mkdir(p, 0o700); err == nil {
					c.Trace("mkdir %q", p)
					break
				} else if try > 2 {
					c.Violate("after %s and a fault: creating %q: %v [%v]", op, p, err, r.Cfg)
				}
			}
			behind = false
		}
		next, err := FullSnap(r.FS)
		if err != nil {
			c.Violate("after %s: %v [%v]", op, err, r.Cfg)
		}
		if op.K == "symlink" && res.Class == "ok" {
			linkNames[norm(op.B)] = true
		}
		if op.K == "remove" && res.Class == "ok" {
			delete(linkNames, norm(op.A))
		}
		changed := Diff(live, next, "", "") != ""
		live = next
		for p := range linkNames {
			if e, ok := live[p]; ok && e.IsLink {
				c.Count("links compared", 1)
			} else {
				c.Violate("after %s: the link %q is not visible as one", op, p)
			}
		}
		if !changed && i%4 != 0 && i != n-1 {
			continue
		}
		compareRebuilt(c, r, live, i%2 == 0 || i == n-1, i%5 == 0 || i == n-1)
		c.Eval(fmt.Sprintf("%s|%s|%d|%v|%x", op.K, res.Class, len(live), strings.Contains(op.A, "%"), op.Flag))
		c.Sample("%s -> %s: %d entries equal after rebuild", op, res.Class, len(live))
	}
	root, err := r.Meta.Metadata.GetRootPath(context.Background())
	if err != nil {
		c.Violate("root path: %v", err)
	}
	_ = root
	_ = os.ModePerm
}

// removesTarget tells whether an op could remove or rename what a link points to (dangling links are covered by C13).
func removesTarget(op Op, s Snap) bool {
	switch op.K {
	case "remove", "removeall", "rename", "opdelete", "opmove":
		for _, e := range s {
			if e.IsLink {
				b := e.Link
				for _, q := range []string{norm(op.A), norm(op.B)} {
					if strings.HasSuffix(q, "/"+b) {
						return true
					}
					for p := range s {
						if under(p, q) && strings.HasSuffix(p, "/"+b) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
