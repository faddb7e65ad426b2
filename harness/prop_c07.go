package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// C07: the tape is replayed from its start into the index of the running instance, into indexes of every record prefix and again into
// the result; every time the visible tree has to be the one of an index which was built from scratch.

func init() {
	register(&Prop{
		ID: "C07", Level: "exploration",
		Rule:        "distinct (tape, indexed prefix) pairs over which the whole tape (or a longer prefix) was replayed without an error and compared with an index from scratch",
		Plan:        func(tier string) int { return map[string]int{"quick": 260, "thorough": 5200}[tier] },
		Run:         runC07,
		Need:        []string{"replays over a prefix", "replays over the running instance", "replays over the same tape", "growing replays", "tape drive replays", "replays of tapes with links"},
		Assumptions: []string{"archive-level calls name parents which exist"},
		Limit:       240 * time.Second,
	})
}

// rowsOf lists the live rows with their positions.
func rowsOf(c *Ctx, o *Rig) string {
	rows, err := o.Rows()
	if err != nil {
		c.Violate("rows: %v", err)
	}
	out := strings.Builder{}
	for _, h := range rows {
		fmt.Fprintf(&out, "%q->%q type=%d size=%d mode=%o %d:%d m=%d a=%d c=%d at %d:%d last %d:%d\n", h.Name, h.Linkname, h.Typeflag, h.Size, h.Mode, h.UID, h.Gid,
			h.Modtime.UnixNano(), h.Accesstime.UnixNano(), h.Changetime.UnixNano(), h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock)
	}
	rec, blk, err := o.Persister.GetLastIndexedRecordAndBlock(context.Background(), o.Cfg.RecordSize)
	fmt.Fprintf(&out, "last %d:%d %v\n", rec, blk, err)
	return out.String()
}

func lineDiff(a, b string) string {
	seen := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		seen[l] = true
	}
	out := []string{}
	for _, l := range strings.Split(b, "\n") {
		if !seen[l] {
			out = append(out, "+"+l)
		}
		delete(seen, l)
	}
	for l := range seen {
		out = append(out, "-"+l)
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "; ")
}

func runC07(c *Ctx) {
	cfg := cheapCfg(c.Rng)
	if c.Idx%3 == 0 {
		cfg.Comp, cfg.Enc, cfg.Sig = config.NoneKey, config.NoneKey, config.NoneKey
	}
	if c.Idx%13 == 5 {
		cfg = tapeCfg(c.Rng)
	}
	g := NewGen(c.Rng).own(cfg)
	g.Sizes = []int{0, 1, 10, 511, 512, 513, 1025, 3000}
	g.Archive = c.Idx%2 == 0
	links := c.Idx%5 == 2
	if c.Idx%4 == 3 { // few names: they are reused again and again
		g.Names = g.Names[:2]
		g.MaxDepth = 2
	}
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	live, err := FullSnap(r.FS)
	must(err)
	linkNames := map[string]bool{}
	for i, n := 0, c.Pick(16, 28); i < n; i++ {
		kinds := live.kinds()
		for l := range linkNames {
			delete(kinds, l)
		}
		var op Op
		switch {
		case links && c.Rng.Intn(5) == 0 && len(kinds) > 1:
			v := viewOf(kinds)
			to := g.freshUnused(v)
			if linkNames[to] {
				continue
			}
			op = Op{K: "symlink", A: g.existing(v), B: to}
		case links && len(linkNames) > 0 && c.Rng.Intn(6) == 0:
			l := []string{}
			for k := range linkNames {
				l = append(l, k)
			}
			sortStrings(l)
			op = Op{K: "remove", A: l[c.Rng.Intn(len(l))]}
		default:
			op = mutating(g, kinds)
			skip := removesTarget(op, live)
			for l := range linkNames {
				if touches(op, l) {
					skip = true
				}
				for _, b := range op.Batch {
					if touches(Op{A: b.Path}, l) {
						skip = true
					}
				}
			}
			if links && skip {
				continue
			}
		}
		c.Trace("%s", op)
		res := Exec(r, op)
		if op.K == "symlink" && res.Class == "ok" {
			linkNames[norm(op.B)] = true
		}
		if op.K == "remove" && res.Class == "ok" {
			delete(linkNames, norm(op.A))
		}
		if live, err = FullSnap(r.FS); err != nil {
			c.Violate("after %s: %v [%v]", op, err, cfg)
		}
	}
	if len(linkNames) > 0 {
		c.Count("replays of tapes with links", 1)
	}
	tape := append([]byte{}, r.TapeBytes()...)
	sc := ScanTape(tape)

	open := func(drive string) *Rig {
		o, err := OpenRig(cfg, r.Dir, drive, "", Opts{DBMem: true, Tape: r.Opts.Tape})
		must(err)
		return o
	}
	snap := func(o *Rig, what string) Snap {
		s, err := FullSnap(o.FS)
		if err != nil {
			c.Violate("%s: %v [%v]", what, err, cfg)
		}
		return s
	}
	index := func(o *Rig, overwrite bool, what string) {
		if err := o.Index(0, 0, overwrite, nil); err != nil {
			c.Violate("%s: indexing fails: %v [%v]", what, err, cfg)
		}
	}

	// Twice over the same tape
	scratch := open(r.Drive)
	index(scratch, true, "index from scratch")
	want := snap(scratch, "index from scratch")
	if d := Diff(live, want, "live", "from scratch"); d != "" {
		c.Violate("an index from scratch shows something else than the running instance: %s [%v]", d, cfg)
	}
	rows := rowsOf(c, scratch)
	for i := 0; i < 2; i++ {
		index(scratch, false, "indexing again")
		if d := Diff(want, snap(scratch, "indexing again"), "from scratch", "indexed again"); d != "" {
			c.Violate("indexing again changes what is visible: %s [%v]", d, cfg)
		}
		if again := rowsOf(c, scratch); again != rows {
			c.Violate("indexing again changes the index: %s [%v]", lineDiff(rows, again), cfg)
		}
		c.Count("replays over the same tape", 1)
		c.Eval(fmt.Sprintf("%d|same%d", c.Idx, i))
	}
	scratch.Close()

	// Into the index of the running instance (a copy of it, and the one in use)
	if o, err := r.Reopened(); err != nil {
		c.Violate("reopening: %v", err)
	} else {
		index(o, false, "replaying into the index of the running instance")
		if d := Diff(want, snap(o, "replayed into a copy of the running index"), "from scratch", "replayed"); d != "" {
			c.Violate("replaying into the index of the running instance changes what is visible: %s [%v]", d, cfg)
		}
		o.Close()
	}
	index(r, false, "replaying into the index which is in use")
	if d := Diff(want, snap(r, "replayed into the running index"), "from scratch", "replayed"); d != "" {
		c.Violate("replaying into the index which is in use changes what is visible: %s [%v]", d, cfg)
	}
	c.Count("replays over the running instance", 2)
	c.Eval(fmt.Sprintf("%d|live", c.Idx))
	if cfg.Tape {
		tapeC07(c, r, want)
		return
	}

	// Over every prefix
	drive := filepath.Join(r.Dir, "prefix.tar")
	prefix := func(k int) []byte {
		return append(append([]byte{}, tape[:sc.Recs[k-1].End]...), make([]byte, 1024)...)
	}
	grown := open(drive)
	ks := []int{}
	for k := 1; k <= len(sc.Recs); k++ {
		if len(sc.Recs) <= c.Pick(14, 60) || c.Rng.Intn(len(sc.Recs)) < c.Pick(14, 60) || k == len(sc.Recs) {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		what := fmt.Sprintf("replaying %d records over the first %d", len(sc.Recs), k)
		must(os.WriteFile(drive, prefix(k), 0o600))
		o := open(drive)
		index(o, true, what)
		st := snap(o, what)
		// An index which has seen all shorter prefixes before, always from the start
		index(grown, false, fmt.Sprintf("replaying the first %d records over the ones before", k))
		if d := Diff(st, snap(grown, what), "from scratch", "replayed"); d != "" {
			c.Violate("replaying the first %d records over the ones before: %s [%v]", k, d, cfg)
		}
		c.Count("growing replays", 1)
		must(os.WriteFile(drive, tape, 0o600))
		index(o, false, what)
		if d := Diff(want, snap(o, what), "from scratch", "replayed"); d != "" {
			c.Violate("%s: %s [%v]", what, d, cfg)
		}
		before := rowsOf(c, o)
		index(o, false, what+" twice")
		if d := Diff(want, snap(o, what), "from scratch", "replayed twice"); d != "" {
			c.Violate("%s twice: %s [%v]", what, d, cfg)
		}
		if after := rowsOf(c, o); after != before {
			c.Violate("%s twice changes the index: %s [%v]", what, lineDiff(before, after), cfg)
		}
		o.Close()
		c.Count("replays over a prefix", 1)
		c.Count("entries compared", 2*len(want)+len(st))
		c.Eval(fmt.Sprintf("%d|%d", c.Idx, k))
	}
	grown.Close()
	c.Sample("%d records, %d entries, prefixes %v", len(sc.Recs), len(want), ks)
}

// tapeC07 does the same with the prefixes of a tape between calls.
func tapeC07(c *Ctx, r *Rig, want Snap) {
	t := r.Opts.Tape
	for n := 1; n <= len(t.objs); n++ {
		if n < len(t.objs) && (n == 0 || t.objs[n-1] != nil) {
			continue // only behind file marks
		}
		x := NewEmuTape(t.blockSize)
		x.objs = append(x.objs, t.objs[:n]...)
		o, err := OpenRig(r.Cfg, r.Dir, "", "", Opts{DBMem: true, Tape: x})
		must(err)
		what := fmt.Sprintf("replaying the tape over its first %d blocks", n)
		if err := o.Index(0, 0, true, nil); err != nil {
			c.Violate("%s: %v [%v]", what, err, r.Cfg)
		}
		x.objs = append(x.objs[:0:0], t.objs...)
		if err := o.Index(0, 0, false, nil); err != nil {
			c.Violate("%s: %v [%v]", what, err, r.Cfg)
		}
		s, err := FullSnap(o.FS)
		if err != nil {
			c.Violate("%s: %v [%v]", what, err, r.Cfg)
		}
		if d := Diff(want, s, "from scratch", "replayed"); d != "" {
			c.Violate("%s: %s [%v]", what, d, r.Cfg)
		}
		o.Close()
		c.Count("tape drive replays", 1)
		c.Eval(fmt.Sprintf("%d|t%d", c.Idx, n))
	}
}

// mutating generates a call which is likely to append something.
func mutating(g *Gen, kinds map[string]bool) Op {
	for {
		op := g.Next(kinds)
		switch op.K {
		case "stat", "list", "read":
			continue
		case "mkdir", "create", "open":
			if g.R.Intn(3) == 0 && len(kinds) > 6 {
				v := viewOf(kinds)
				p := g.existing(v)
				switch g.R.Intn(3) {
				case 0:
					return Op{K: "removeall", A: p}
				case 1:
					return Op{K: "rename", A: p, B: g.existing(v)}
				default:
					return Op{K: "rename", A: p, B: g.fresh(v)}
				}
			}
		}
		return op
	}
}
