package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// C16: histories are recorded together with copies of the index after each of their calls; then file systems are opened over
// the whole tape and over what is left of it after cutting it off, each with no index, the current one and old ones. The
// oracle for the tree is what a from-scratch rebuild of the same tape gives; the one for the tape are its own bytes.

func init() {
	register(&Prop{
		ID: "C16", Level: "exploration",
		Rule: "distinct (history, cut, index, root proposal) combinations: generated histories with links and batches, whole and cut off at block, header and content boundaries, around them and at random bytes, opened with no, the current and old indexes, compared with the bytes of the tape and with a from-scratch rebuild, before and after further calls",
		Plan: func(tier string) int { return map[string]int{"quick": 200, "thorough": 4000}[tier] },
		Run:  runC16,
		Need: []string{"openings", "calls which wrote nothing to a tape just opened", "openings without an index", "openings with the current index", "openings with an old index", "openings of cut tapes",
			"openings of cut tapes with an index which is ahead", "openings of tapes without a root", "tape drive openings", "second openings",
			"files written afterwards", "calls compared with the reference model", "rebuilds compared after further calls", "entries compared"},
		Assumptions: []string{"tape drives are emulated and tear between blocks", "calls which write behind a torn block of a tape drive are only judged if they succeed", "the index belongs to the tape: it reflects a prefix of the history which wrote it"},
		Limit:       300 * time.Second,
	})
}

// walk16 takes a snapshot in which the ways of not being readable aren't told apart.
func walk16(c *Ctx, r *Rig, what string) Snap {
	s, err := Walk(r.FS)
	if err != nil {
		c.Violate("%s: %v [%v]", what, err, r.Cfg)
	}
	for p, e := range s {
		if e.ReadErr != "" {
			e.ReadErr, e.Content = "unreadable", ""
			s[p] = e
		}
	}
	return s
}

// drive16 is a tape in whichever form.
type drive16 struct {
	file []byte
	tape *EmuTape
}

func (d drive16) stream() []byte {
	if d.tape != nil {
		return d.tape.Stream()
	}
	return d.file
}

func (d drive16) copy() drive16 {
	n := drive16{file: append([]byte{}, d.file...)}
	if d.tape != nil {
		n.tape = NewEmuTape(d.tape.blockSize)
		n.tape.objs = append(n.tape.objs, d.tape.objs...)
	}
	return n
}

func (d drive16) put(dir string) (string, *EmuTape) {
	if d.tape != nil {
		return "", d.copy().tape
	}
	p := filepath.Join(dir, fmt.Sprintf("d%d.tar", nextID()))
	must(os.WriteFile(p, d.file, 0o600))
	return p, nil
}

// scratch16 rebuilds a tape from scratch: its tree, its root and whether it has any records.
func scratch16(c *Ctx, base *Rig, d drive16, what string) (s Snap, root string, records int) {
	drive, tape := d.put(base.Dir)
	n, err := OpenRig(base.Cfg, base.Dir, drive, "", Opts{DBMem: true, Tape: tape, Keys: base.Opts.Keys, ReadKeys: base.Opts.ReadKeys})
	must(err)
	defer func() {
		n.Close()
		if drive != "" {
			_ = os.Remove(drive)
		}
	}()
	if err := n.Index(0, 0, true, func(*config.Header) { records++ }); err != nil {
		c.Violate("%s: rebuilding the index: %v [%v]", what, err, base.Cfg)
	}
	root, err = n.Meta.Metadata.GetRootPath(context.Background())
	if err == config.ErrNoRootDirectory {
		return nil, "", records
	}
	if err != nil {
		c.Violate("%s: root after rebuilding the index: %v [%v]", what, err, base.Cfg)
	}
	return walk16(c, n, what+", rebuilt from scratch"), root, records
}

func runC16(c *Ctx) {
	cfg := cheapCfg(c.Rng)
	switch c.Idx % 6 {
	case 0, 3:
		cfg.Comp, cfg.Enc, cfg.Sig = config.NoneKey, config.NoneKey, config.NoneKey
	case 1:
		cfg = fullCfg(c.Rng)
		if cfg.RecordSize > 64 {
			cfg.RecordSize = 20
		}
	case 5:
		cfg = tapeCfg(c.Rng)
		if cfg.RecordSize > 20 {
			cfg.RecordSize, cfg.Comp = 2, config.NoneKey
		}
	}
	g := NewGen(c.Rng).own(cfg)
	g.Sizes = []int{0, 1, 10, 511, 512, 513, 1024, 1500, 3000, 6000}
	g.Links = c.Idx%4 < 2
	g.Archive = c.Idx%3 != 0
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	live := walk16(c, r, "fresh instance")
	intact := true
	gens := 1 + c.Rng.Intn(2)
	indexes := []string{}
	from := 0
	for gen := 0; gen < gens; gen++ {
		for i, n := 0, c.Pick(10, 18)/gens+1; i < n; i++ {
			op := g.Next(live.kinds())
			if c.Rng.Intn(2) == 0 {
				op = mutating(g, live.kinds())
			}
			if !ok13(op, live) {
				continue
			}
			c.Trace("%s", op)
			Exec(r, op)
			live = walk16(c, r, "after "+op.String())
			db := filepath.Join(r.Dir, fmt.Sprintf("i%d.sqlite", nextID()))
			must(copyFile(r.DB, db))
			indexes = append(indexes, db)
		}
		whole := drive16{file: append([]byte{}, r.TapeBytes()...)}
		if r.Opts.Tape != nil {
			whole = drive16{tape: r.Opts.Tape}.copy()
		}
		current := filepath.Join(r.Dir, fmt.Sprintf("i%d.sqlite", nextID()))
		must(copyFile(r.DB, current))

		old := func() string {
			if len(indexes) == 0 {
				return current
			}
			return indexes[c.Rng.Intn(len(indexes))]
		}
		// The whole tape
		open16(c, g, r, whole, "", -1, intact, "no index")
		open16(c, g, r, whole, current, -1, intact, "the current index")
		for i := 0; i < c.Pick(2, 5); i++ {
			open16(c, g, r, whole, old(), -1, intact, "an old index")
		}

		// What is left of it
		var cutAt []int64
		if whole.tape == nil {
			cutAt = cutsOf(c, whole.file, ScanTape(whole.file), from)
		} else {
			for i := range whole.tape.objs {
				if i > 0 {
					cutAt = append(cutAt, int64(i))
				}
			}
		}
		c.Rng.Shuffle(len(cutAt), func(i, j int) { cutAt[i], cutAt[j] = cutAt[j], cutAt[i] })
		if n := c.Pick(10, 40); len(cutAt) > n {
			cutAt = cutAt[:n]
		}
		if gen == 0 && whole.tape == nil && c.Rng.Intn(2) == 0 {
			// Before the root is complete
			cutAt = append(cutAt, int64(c.Rng.Intn(int(ScanTape(whole.file).Recs[0].End)+1)))
		}
		for _, cut := range cutAt {
			d := whole.copy()
			if d.tape == nil {
				d.file = d.file[:cut]
			} else {
				d.tape.objs = d.tape.objs[:cut]
			}
			switch c.Rng.Intn(3) {
			case 0:
				open16(c, g, r, d, "", cut, false, "no index")
			case 1:
				open16(c, g, r, d, current, cut, false, "the current index")
				c.Count("openings of cut tapes with an index which is ahead", 1)
			default:
				open16(c, g, r, d, old(), cut, false, "an old index")
			}
		}
		if gen == gens-1 || whole.tape != nil || len(cutAt) == 0 {
			break
		}

		// Carry on with one of them
		cut := cutAt[c.Rng.Intn(len(cutAt))]
		db := []string{"", current, old()}[c.Rng.Intn(3)]
		d := whole.copy()
		d.file = d.file[:cut]
		dir := filepath.Join(c.Base, fmt.Sprintf("g%d", nextID()))
		must(os.MkdirAll(dir, 0o700))
		drive := filepath.Join(dir, "drive.tar")
		must(os.WriteFile(drive, d.file, 0o600))
		ndb := filepath.Join(dir, "index.sqlite")
		if db != "" {
			must(copyFile(db, ndb))
		}
		o, err := OpenRig(cfg, dir, drive, ndb, Opts{Keys: r.Opts.Keys, ReadKeys: r.Opts.ReadKeys})
		must(err)
		_, err = o.FS.Initialize("/", os.ModePerm)
		if err == config.ErrNoRootDirectory && db != "" {
			// The index had a root which isn't on the tape anymore
			_, err = o.FS.Initialize("/", os.ModePerm)
		}
		if err != nil {
			c.Violate("carrying on with a tape cut at %d: %v [%v]", cut, err, cfg)
		}
		c.Trace("carried on with the tape cut at %d, index %q", cut, filepath.Base(db))
		c.Count("histories continued after a cut", 1)
		indexes = nil // Those of the part which was cut off would be of another tape
		live = walk16(c, o, "carrying on")
		r.Close()
		r, intact, from = o, false, int(cut)
		idle(c, r, live.Paths())
	}
}

// open16 opens a file system over a tape and watches it.
func open16(c *Ctx, g *Gen, base *Rig, d drive16, index string, cut int64, intact bool, kind string) {
	what := fmt.Sprintf("opening a tape of %d bytes with %s", len(d.stream()), kind)
	if cut >= 0 {
		what = fmt.Sprintf("opening a tape which was cut at %d with %s", cut, kind)
		c.Count("openings of cut tapes", 1)
	}
	c.Trace("%s", what)
	want, root, records := scratch16(c, base, d, what)
	dir := filepath.Join(c.Base, fmt.Sprintf("o%d", nextID()))
	must(os.MkdirAll(dir, 0o700))
	defer os.RemoveAll(dir)
	drive, tape := d.put(dir)
	db := filepath.Join(dir, "index.sqlite")
	if index != "" {
		must(copyFile(index, db))
	}
	opts := Opts{Tape: tape, Keys: base.Opts.Keys, ReadKeys: base.Opts.ReadKeys}
	o, err := OpenRig(base.Cfg, dir, drive, db, opts)
	must(err)
	defer o.Close()
	bytesNow := func() []byte {
		if tape != nil {
			return tape.Stream()
		}
		b, err := os.ReadFile(drive)
		must(err)
		return b
	}
	if !bytes.Equal(bytesNow(), d.stream()) {
		c.Violate("%s: constructing it changed the tape [%v]", what, base.Cfg)
	}
	proposal := "/"
	if want != nil {
		proposal = []string{"/", "/", "", ".", "/other", "other", "./"}[c.Rng.Intn(7)]
	}
	early := c.Rng.Intn(5) == 0
	if early { // Looking at it before it was initialised must not matter
		_, _ = o.FS.Stat([]string{"/", "/a", "", "a/b"}[c.Rng.Intn(4)])
		if !bytes.Equal(bytesNow(), d.stream()) {
			c.Violate("%s: looking at it changed the tape [%v]", what, base.Cfg)
		}
	}
	gotRoot, err := o.FS.Initialize(proposal, os.ModePerm)
	c.Count("openings", 1)
	c.Count(map[string]string{"no index": "openings without an index", "the current index": "openings with the current index", "an old index": "openings with an old index"}[kind], 1)
	if tape != nil {
		c.Count("tape drive openings", 1)
	}
	now := bytesNow()
	if !bytes.HasPrefix(now, d.stream()) {
		c.Violate("%s: initialising it removed or rewrote content of the tape [%v]", what, base.Cfg)
	}
	if want != nil && len(now) != len(d.stream()) {
		c.Violate("%s: initialising it appended %d bytes, but there already was the root %q [%v]", what, len(now)-len(d.stream()), root, base.Cfg)
	}
	sig := fmt.Sprintf("%d|%d|%s|%s|%v", c.Idx, cut, filepath.Base(index), proposal, early)
	c.Eval(sig)
	if err != nil {
		if want == nil && (records > 0 || index != "" || tape != nil) {
			c.Count("openings of tapes without a root which failed", 1)
			return
		}
		if tape != nil && cut >= 0 && index != "" {
			// The drive can't be positioned where the index wants it to
			c.Count("openings of torn tapes with an index which failed", 1)
			return
		}
		c.Violate("%s with the proposal %q: %v; a from-scratch rebuild shows %d entries below %q [%v]", what, proposal, err, len(want), root, base.Cfg)
	}
	if want == nil {
		// A new root
		c.Count("openings of tapes without a root", 1)
		want, root, _ = scratch16(c, base, drive16{file: now, tape: tape}.copy(), what+", after initialising it")
		if want == nil {
			c.Violate("%s: it was initialised, but a rebuild of its tape has no root [%v]", what, base.Cfg)
		}
	}
	// A root which was written as "/" is "/" for the instance which wrote it and "" after rebuilding
	if norm(gotRoot) != norm(root) {
		c.Violate("%s with the proposal %q: the root is %q, but a from-scratch rebuild has %q [%v]", what, proposal, gotRoot, root, base.Cfg)
	}
	got := walk16(c, o, what)
	if df := Diff(want, got, "a from-scratch rebuild", "the opened file system"); df != "" {
		c.Violate("%s with the proposal %q: %s [%v]", what, proposal, df, base.Cfg)
	}
	c.Count("entries compared", len(want))
	if want, got := len(now), len(bytesNow()); want != got {
		c.Violate("%s: reading from it changed the size of the tape from %d to %d [%v]", what, want, got, base.Cfg)
	}

	// Initialising it once more, and opening what it has left behind
	if c.Rng.Intn(2) == 0 {
		if _, err := o.FS.Initialize("/", os.ModePerm); err != nil {
			c.Violate("%s: initialising it once more: %v [%v]", what, err, base.Cfg)
		}
		if df := Diff(got, walk16(c, o, what+" and initialising it once more"), "before", "after initialising it once more"); df != "" {
			c.Violate("%s: %s [%v]", what, df, base.Cfg)
		}
	} else {
		n, err := o.Reopened()
		if err != nil {
			c.Violate("%s: opening it once more: %v [%v]", what, err, base.Cfg)
		}
		if df := Diff(got, walk16(c, n, what+" and opening it once more"), "before", "after opening it once more"); df != "" {
			c.Violate("%s: %s [%v]", what, df, base.Cfg)
		}
		n.Close()
	}
	if !bytes.Equal(bytesNow(), now) {
		c.Violate("%s: opening it once more changed the tape [%v]", what, base.Cfg)
	}
	c.Count("second openings", 1)

	// Further calls
	if c.Rng.Intn(3) == 0 && !c.Thorough() {
		return
	}
	after16(c, g, o, got, bytesNow, intact, what)
}

// after16 performs further calls on a file system which was opened over an existing tape.
func after16(c *Ctx, g *Gen, o *Rig, tree Snap, bytesNow func() []byte, intact bool, what string) {
	torn := o.Opts.Tape != nil && !intact
	written := map[string][]byte{}
	create := func(i int) {
		dirs := []string{}
		for p, e := range tree {
			if e.Dir && !e.IsLink {
				dirs = append(dirs, p)
			}
		}
		sort.Strings(dirs)
		p := path.Join(dirs[c.Rng.Intn(len(dirs))], fmt.Sprintf("new%d", i))
		if _, ok := tree[p]; ok {
			return
		}
		b := make([]byte, g.Sizes[c.Rng.Intn(len(g.Sizes))])
		rand.New(rand.NewSource(c.Rng.Int63())).Read(b)
		old := bytesNow()
		c.Trace("write %d bytes to %q", len(b), p)
		if err := writeAll(o.FS, p, b); err != nil {
			if torn {
				c.Count("writes behind a torn block which failed", 1)
				return
			}
			c.Violate("%s, then writing %d bytes to %q: %v [%v]", what, len(b), p, err, o.Cfg)
		}
		if !bytes.HasPrefix(bytesNow(), old) {
			c.Violate("%s, then writing to %q: the tape was changed, not appended to [%v]", what, p, o.Cfg)
		}
		got, err := readAll(o.FS, p)
		if err != nil || !bytes.Equal(got, b) {
			c.Violate("%s, then writing %d bytes to %q: reading them gives %d others (%v) [%v]", what, len(b), p, len(got), err, o.Cfg)
		}
		written[p] = b
		now := walk16(c, o, fmt.Sprintf("%s, then writing to %q", what, p))
		rest := now.Clone()
		delete(rest, p)
		for q, e := range rest {
			if t := tree[q]; t.ReadErr != "" && e.ReadErr == "" || t.Dir && q == path.Dir(p) {
				// What was torn might be complete now, as there is something behind it
				t.ReadErr, t.Content, e.ReadErr, e.Content = "", "", "", ""
				if q == path.Dir(p) {
					t.Mtime, e.Mtime = 0, 0
				}
				if t == e {
					rest[q] = tree[q]
				}
			}
		}
		if df := Diff(tree, rest, "before", "after"); df != "" {
			c.Violate("%s, then writing to %q: %s [%v]", what, p, df, o.Cfg)
		}
		tree = now
		c.Count("files written afterwards", 1)
	}
	idle(c, o, tree.Paths())
	create(0)
	usable := !g.Links && !torn
	for _, e := range tree {
		if e.ReadErr != "" || e.IsLink {
			usable = false
		}
	}
	if orphans(o, tree) != "" {
		usable = false // The cut was between the records of a call on a directory
	}
	if usable {
		// The reference model judges all further calls
		content := map[string][]byte{}
		for p, e := range tree {
			if !e.Dir {
				b, err := readAll(o.FS, p)
				if err != nil {
					c.Violate("%s, then reading %q: %v [%v]", what, p, err, o.Cfg)
				}
				content[p] = b
			}
		}
		m := ModelFrom(tree, content)
		m.WPR = o.Cfg.WPR
		arch := g.Archive
		g.Archive = false
		for i := 0; i < c.Pick(4, 8); i++ {
			old := bytesNow()
			stepModel(c, o, m, mutating(g, m.kinds()))
			if !bytes.HasPrefix(bytesNow(), old) {
				c.Violate("%s, then further calls: the tape was changed, not appended to [%v]", what, o.Cfg)
			}
			c.Count("calls compared with the reference model", 1)
		}
		g.Archive = arch
		tree = walk16(c, o, what+", then further calls")
		written = map[string][]byte{}
	} else {
		for i := 0; i < c.Pick(3, 6); i++ {
			op := mutating(g, tree.kinds())
			if !ok13(op, tree) {
				continue
			}
			old := bytesNow()
			c.Trace("%s", op)
			Exec(o, op)
			if !bytes.HasPrefix(bytesNow(), old) {
				c.Violate("%s, then %s: the tape was changed, not appended to [%v]", what, op, o.Cfg)
			}
			tree = walk16(c, o, what+", then "+op.String())
			written = map[string][]byte{}
		}
	}
	create(1)
	for _, rebuilt := range []bool{true, false} {
		open := o.Rebuilt
		if !rebuilt {
			open = o.Reopened
		}
		old := bytesNow()
		n, err := open()
		if err != nil {
			if torn {
				return
			}
			c.Violate("%s, then further calls, then opening it once more (rebuilt=%v): %v [%v]", what, rebuilt, err, o.Cfg)
		}
		s := walk16(c, n, fmt.Sprintf("%s, then further calls, then opening it once more (rebuilt=%v)", what, rebuilt))
		if df := Diff(tree, s, "before", "after"); df != "" {
			c.Violate("%s, then further calls, then opening it once more (rebuilt=%v): %s [%v]", what, rebuilt, df, o.Cfg)
		}
		for p, b := range written {
			got, err := readAll(n.FS, p)
			if err != nil || !bytes.Equal(got, b) {
				c.Violate("%s, then writing %d bytes to %q, then opening it once more (rebuilt=%v): reading them gives %d others (%v) [%v]", what, len(b), p, rebuilt, len(got), err, o.Cfg)
			}
		}
		n.Close()
		if !bytes.Equal(old, bytesNow()) {
			c.Violate("%s, then further calls, then opening it once more (rebuilt=%v): the tape was changed [%v]", what, rebuilt, o.Cfg)
		}
		c.Count("rebuilds compared after further calls", 1)
	}
}
