package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// C12: trees over hostile names, in which every directory is removed and renamed (to every kind of destination); after each of those, the
// whole tree, before and after rebuilding it from the tape, has to be the previous one with exactly the subtree gone or moved.

func init() {
	register(&Prop{
		ID: "C12", Level: "exercised",
		Rule:        "distinct (tree, call, configuration) triples after which the whole tree was compared; every directory of a tree is removed and renamed to every kind of destination",
		Plan:        func(tier string) int { return map[string]int{"quick": 96, "thorough": 4000}[tier] },
		Run:         runC12,
		Need:        []string{"subtrees removed", "subtrees renamed", "renames refused", "entries compared", "rebuilds compared", "links outside the subtree", "siblings with wildcards", "chained calls"},
		Assumptions: []string{"reference: path prefixes of whole components; links are entries on their own, which keep their target"},
		Limit:       240 * time.Second,
	})
}

var wildNames = []string{
	"a", "ab", "a_", "a%", "_", "%", "__", "%%", "a b", " a", "a ", "a.", "a..", "...", ".a", "A", "AB", "ä", "e\u0301", "\u00e9", "日本", "a\\", "a'", "a\"", "a;", "a*", "a?", "a[b]", "a\nb", "-a", "a.gz",
	"\U0001F600", "a-", "a0", "aa", "a_b", "a%b", "axb", "_a", "%a", strings.Repeat("n", 120), strings.Repeat("ä", 60), "a" + strings.Repeat("_", 99), "STFS", "x", "sub",
}

// Frozen is the state of a drive and its index which many instances can start from.
type Frozen struct {
	cfg   Cfg
	drive []byte
	objs  [][]byte
	db    []byte
}

// freeze closes the instance.
func freeze(r *Rig) *Frozen {
	f := &Frozen{cfg: r.Cfg, drive: r.TapeBytes()}
	if r.Cfg.Tape {
		f.objs = append(f.objs, r.Opts.Tape.objs...)
	}
	r.Close()
	var err error
	f.db, err = os.ReadFile(r.DB)
	must(err)
	return f
}

func (f *Frozen) open(base string, o Opts) *Rig {
	dir := filepath.Join(base, fmt.Sprintf("f%d", nextID()))
	must(os.MkdirAll(dir, 0o700))
	drive, db := filepath.Join(dir, "drive.tar"), filepath.Join(dir, "index.sqlite")
	if f.cfg.Tape {
		o.Tape = NewEmuTape(f.cfg.RecordSize * 512)
		o.Tape.objs = append(o.Tape.objs, f.objs...)
	} else {
		must(os.WriteFile(drive, f.drive, 0o600))
	}
	must(os.WriteFile(db, f.db, 0o600))
	r, err := OpenRig(f.cfg, dir, drive, db, o)
	must(err)
	return r
}

// treeDiff compares a tree with the reference; links only have to be links to the same target.
func treeDiff(want, got Snap) string {
	w, g := Snap{}, Snap{}
	for p, e := range want {
		w[p] = e
	}
	for p, e := range got {
		g[p] = e
		if x, ok := w[p]; ok && x.IsLink && e.IsLink {
			w[p] = Ent{IsLink: true, Link: x.Link}
			g[p] = Ent{IsLink: true, Link: e.Link}
		}
	}
	return Diff(w, g, "reference", "actual")
}

// expect returns what a call makes out of a tree, and the outcome classes which are right.
func expect(s Snap, op Op) (Snap, string) {
	m := ModelFrom(s, nil)
	cl, _ := m.Apply(op, Result{})
	out := Snap{}
	for p, n := range m.N {
		out[p] = n.E
	}
	return out, cl
}

func runC12(c *Ctx) {
	cfg := Cfg{Level: config.CompressionLevelFastestKey, RecordSize: recordSizes[c.Rng.Intn(len(recordSizes)-1)], Cache: config.WriteCacheTypeMemory}
	switch c.Idx % 8 {
	case 3:
		cfg = fullCfg(c.Rng)
	case 5:
		cfg.Comp = config.CompressionFormatGZipKey
	case 7:
		cfg = tapeCfg(c.Rng)
	}
	if c.Idx%3 == 2 {
		chained(c, cfg)
		return
	}
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	do := func(op Op) {
		if res := Exec(r, op); res.Class != "ok" {
			c.Violate("%s while building the tree: %v [%v]", op, res.Err, cfg)
		}
	}
	perm := c.Rng.Perm(len(wildNames))
	parent := ""
	wide := c.Idx%3 == 0
	files := 0
	file := func(p string) {
		files++
		op := Op{K: "create", A: p}
		if files%3 != 0 {
			op.Acts = []Act{{K: "write", D: &Data{Lit: "content of " + p}}}
		}
		do(op)
	}
	if wide {
		// Siblings next to each other, all alike inside
		if c.Rng.Intn(2) == 0 {
			parent = "/" + wildNames[c.Rng.Intn(len(wildNames))]
			do(Op{K: "mkdir", A: parent, Perm: 0o755})
			file("/outside")
		}
		n := 7
		names := []string{}
		if c.Rng.Intn(2) == 0 {
			names = append(names, "a", "ab", "a_", "a%")
		}
		for _, i := range perm {
			if len(names) >= n {
				break
			}
			dup := false
			for _, x := range names {
				dup = dup || x == wildNames[i]
			}
			if !dup {
				names = append(names, wildNames[i])
			}
		}
		if c.Rng.Intn(2) == 0 {
			// A name which a pattern made of another one matches
			names = append(names, strings.NewReplacer("_", "x", "%", "yyy").Replace(names[c.Rng.Intn(len(names))])+"z")
		}
		for _, x := range names {
			d := parent + "/" + x
			if r.exists(d) {
				continue
			}
			do(Op{K: "mkdir", A: d, Perm: 0o755})
			file(d + "/x")
			if c.Rng.Intn(2) == 0 {
				do(Op{K: "mkdir", A: d + "/sub", Perm: 0o700})
				file(d + "/sub/" + names[c.Rng.Intn(len(names))])
			}
			if strings.ContainsAny(x, "_%") {
				c.Count("siblings with wildcards", 1)
			}
		}
		do(Op{K: "mkdir", A: parent + "/empty", Perm: 0o711})
		file(parent + "/" + names[0] + ".txt")
	} else {
		// Any tree
		dirs := []string{""}
		for i := 0; i < 16; i++ {
			d := dirs[c.Rng.Intn(len(dirs))]
			p := d + "/" + wildNames[c.Rng.Intn(len(wildNames))]
			if r.exists(p) {
				continue
			}
			if strings.ContainsAny(p, "_%") {
				c.Count("siblings with wildcards", 1)
			}
			if c.Rng.Intn(5) < 3 && strings.Count(p, "/") < 5 {
				do(Op{K: "mkdir", A: p, Perm: 0o755})
				dirs = append(dirs, p)
			} else {
				file(p)
			}
		}
	}
	before, err := Walk(r.FS)
	if err != nil {
		c.Violate("the tree can not be listed: %v [%v]", err, cfg)
	}
	// Links within, into and out of the subtrees
	if c.Rng.Intn(3) != 0 {
		all := sortedPaths(before)
		for i := 0; i < 3; i++ {
			t, d := all[c.Rng.Intn(len(all))], all[c.Rng.Intn(len(all))]
			if t == "/" || !before[d].Dir {
				continue
			}
			if res := Exec(r, Op{K: "symlink", A: t, B: path.Join(d, fmt.Sprintf("link%d", i))}); res.Class == "ok" {
				c.Count("links outside the subtree", 1)
			}
		}
		if before, err = Walk(r.FS); err != nil {
			c.Violate("the tree can not be listed: %v [%v]", err, cfg)
		}
	}
	fz := freeze(r)
	r.Destroy()

	type call struct {
		op  Op
		raw bool
	}
	calls := []call{}
	all := sortedPaths(before)
	for _, p := range all {
		e := before[p]
		if p == "/" || !e.Dir && c.Rng.Intn(3) != 0 {
			continue
		}
		calls = append(calls, call{op: Op{K: "removeall", A: p}})
		if !e.IsLink {
			if c.Rng.Intn(4) == 0 {
				calls = append(calls, call{op: Op{K: "opdelete", A: p}, raw: true})
			}
		}
		fresh := func() string {
			for {
				d := all[c.Rng.Intn(len(all))]
				if !before[d].Dir || before[d].IsLink || d == p || under(d, p) {
					continue
				}
				to := path.Join(d, wildNames[c.Rng.Intn(len(wildNames))]+[]string{"", "_", "z"}[c.Rng.Intn(3)])
				if _, ok := before[to]; !ok {
					return to
				}
			}
		}
		dests := []string{fresh(), fresh()}
		for _, suffix := range []string{"_", "x", " ", "%"} {
			// A name which starts with the old one, and one which the old one starts with
			if q := p + suffix; before[q] == (Ent{}) && c.Rng.Intn(2) == 0 {
				dests = append(dests, q)
			}
		}
		if b := path.Base(p); len(b) > 1 && b[0] < 0x80 && b[1] < 0x80 && b[:1] != "." {
			if q := path.Join(path.Dir(p), b[:1]); before[q] == (Ent{}) {
				dests = append(dests, q)
			}
		}
		if e.Dir && !e.IsLink {
			dests = append(dests, p+"/below", p)
			for _, q := range all {
				if under(q, p) {
					if c.Rng.Intn(2) == 0 {
						dests = append(dests, q) // onto something within
					}
					if before[q].Dir && !before[q].IsLink && c.Rng.Intn(2) == 0 {
						dests = append(dests, q+"/new") // below something within
					}
				}
			}
		}
		// Onto something which exists
		for i := 0; i < 2; i++ {
			q := all[c.Rng.Intn(len(all))]
			if q != p && !before[q].IsLink && !e.IsLink && q != "/" {
				dests = append(dests, q)
			}
		}
		if x := parent + "/empty"; wide && x != p && !e.IsLink {
			dests = append(dests, x)
		}
		for _, d := range dests {
			calls = append(calls, call{op: Op{K: "rename", A: p, B: d}})
		}
		if c.Rng.Intn(3) == 0 && !e.IsLink {
			calls = append(calls, call{op: Op{K: "opmove", A: p, B: fresh()}, raw: true})
		}
	}
	if limit := c.Pick(34, 200); len(calls) > limit {
		c.Rng.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
		calls = calls[:limit]
	}
	g := &Gen{R: c.Rng}
	for i, x := range calls {
		r := fz.open(c.Base, Opts{})
		op := x.op
		if !x.raw && c.Rng.Intn(4) == 0 {
			op.A = g.spell(op.A)
		}
		c12Call(c, r, before, op, x.raw, i%3 == 0)
		r.Destroy()
	}
	if c.Idx < 3 {
		c.Sample("%d entries, %d calls: %q [%v]", len(before), len(calls), all, cfg)
	}
}

func (r *Rig) exists(p string) bool {
	_, err := r.FS.Stat(p)
	return err == nil
}

func sortedPaths(s Snap) []string {
	out := []string{}
	for p := range s {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// c12Call performs a call and compares the tree, which it returns.
func c12Call(c *Ctx, r *Rig, before Snap, op Op, raw, rebuild bool) Snap {
	ref := op
	switch op.K {
	case "opdelete":
		ref.K = "removeall"
	case "opmove":
		ref.K = "rename"
	}
	want, classes := expect(before, ref)
	tape := r.TapeBytes()
	c.Trace("%s", op)
	res := Exec(r, op)
	ctx := fmt.Sprintf("[%v]\ntree: %q", r.Cfg, sortedPaths(before))
	if !classMatches(res.Class, classes) {
		c.Violate("%s returned %q (%v), but the reference says %q %s", op, res.Class, res.Err, classes, ctx)
	}
	if res.Class != "ok" {
		if !bytes.Equal(tape, r.TapeBytes()) {
			c.Violate("%s was refused (%v), but it changed the tape %s", op, res.Err, ctx)
		}
		if ref.K == "rename" {
			c.Count("renames refused", 1)
		}
	} else if ref.K == "rename" {
		c.Count("subtrees renamed", 1)
	} else if ref.K == "removeall" {
		c.Count("subtrees removed", 1)
	}
	after, err := Walk(r.FS)
	if err != nil {
		c.Violate("after %s, the tree can not be listed: %v %s", op, err, ctx)
	}
	if d := treeDiff(want, after); d != "" {
		c.Violate("%s (%v): %s %s", op, res.Err, d, ctx)
	}
	c.Count("entries compared", len(after))
	if d := orphans(r, after); d != "" {
		c.Violate("after %s: %s %s", op, d, ctx)
	}
	// What is not reachable any more must not be there either
	for p := range before {
		if _, ok := want[p]; ok || before[p].IsLink {
			continue
		}
		if _, err := r.FS.Stat(p); err == nil {
			c.Violate("after %s, %q is not listed, but still there %s", op, p, ctx)
		}
	}
	if rebuild {
		rb, err := r.Rebuilt()
		if err != nil {
			c.Violate("rebuilding after %s: %v %s", op, err, ctx)
		}
		s, err := Walk(rb.FS)
		if err != nil {
			c.Violate("after %s, the rebuilt tree can not be listed: %v %s", op, err, ctx)
		}
		if d := treeDiff(want, s); d != "" {
			c.Violate("%s, then rebuilding: %s %s", op, d, ctx)
		}
		rb.Close()
		c.Count("rebuilds compared", 1)
	}
	c.Eval(fmt.Sprintf("%q|%s|%v", sortedPaths(before), op, r.Cfg))
	return after
}

// orphans returns which live entries of the index are not in the tree.
func orphans(r *Rig, tree Snap) string {
	rows, err := r.Meta.Metadata.GetHeaders(context.Background())
	must(err)
	for _, h := range rows {
		p := h.Name
		if h.Linkname != "" {
			p = h.Linkname
		}
		if _, ok := tree[norm(p)]; !ok {
			return fmt.Sprintf("the index has a live entry %q (link: %q) which is not in the tree", h.Name, h.Linkname)
		}
	}
	return ""
}

// chained performs many calls on the same tree, so that names are used again.
func chained(c *Ctx, cfg Cfg) {
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	names := []string{}
	for len(names) < 5 {
		names = append(names, wildNames[c.Rng.Intn(len(wildNames))])
	}
	names = append(names, "a", "a_", "ab")
	anyPath := func() string {
		p := ""
		for i := 1 + c.Rng.Intn(3); i > 0; i-- {
			p += "/" + names[c.Rng.Intn(len(names))]
		}
		return p
	}
	snap, err := Walk(r.FS)
	if err != nil {
		c.Violate("the tree can not be listed: %v [%v]", err, cfg)
	}
	for i := 0; i < c.Pick(45, 90); i++ {
		all := sortedPaths(snap)
		some := func() string {
			if c.Rng.Intn(4) == 0 {
				return anyPath()
			}
			return all[c.Rng.Intn(len(all))]
		}
		switch c.Rng.Intn(7) {
		case 0, 1:
			_ = Exec(r, Op{K: "mkdirall", A: anyPath(), Perm: 0o755})
			_ = Exec(r, Op{K: "create", A: some() + "/" + names[c.Rng.Intn(len(names))], Acts: []Act{{K: "write", D: &Data{Lit: fmt.Sprintf("content %d", i)}}}})
		case 2:
			_ = Exec(r, Op{K: "create", A: anyPath(), Acts: []Act{{K: "write", D: &Data{Lit: fmt.Sprintf("content %d", i)}}}})
		case 3, 4:
			p := some()
			if p != "/" && (c.Rng.Intn(3) == 0 || strings.Count(p, "/") > 1) {
				snap = c12Call(c, r, snap, Op{K: "removeall", A: p}, false, i%5 == 0)
				c.Count("chained calls", 1)
			}
			continue
		default:
			p, q := some(), some()
			if c.Rng.Intn(2) == 0 {
				q = path.Join(some(), names[c.Rng.Intn(len(names))])
			}
			snap = c12Call(c, r, snap, Op{K: "rename", A: p, B: q}, false, i%5 == 0)
			c.Count("chained calls", 1)
			continue
		}
		if snap, err = Walk(r.FS); err != nil {
			c.Violate("the tree can not be listed: %v [%v]", err, cfg)
		}
	}
	r.Destroy()
}
