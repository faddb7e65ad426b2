package main

import (
	"bytes"
	"context"
	"fmt"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"

	"archive/tar"
)

// C04: the positions in the index are compared with those which an independent scan of the tape finds.

func init() {
	register(&Prop{
		ID: "C04", Level: "exploration",
		Rule:        "distinct (record size, offset of the record within its tape record, operation, number of records of the call) situations in which every row was compared with the scan",
		Plan:        func(tier string) int { return map[string]int{"quick": 300, "thorough": 8000}[tier] },
		Run:         runC04,
		Need:        []string{"rows compared with the scan", "fetches compared", "queries compared"},
		Assumptions: []string{"archive-level calls name parents which exist"},
	})
}

func runC04(c *Ctx) {
	cfg := cheapCfg(c.Rng)
	if c.Idx%10 == 9 {
		cfg = tapeCfg(c.Rng)
	}
	if !cfg.Tape {
		cfg.RecordSize = []int{1, 2, 3, 4, 5, 7, 9, 13, 20, 31, 64, 100}[c.Rng.Intn(12)]
	}
	g := NewGen(c.Rng).own(cfg)
	g.Archive = c.Idx%3 != 0
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	live, err := FullSnap(r.FS)
	if err != nil {
		c.Violate("fresh instance: %v", err)
	}
	n := c.Pick(26, 40)
	last := 0
	for i := 0; i < n; i++ {
		op := g.Next(live.kinds())
		if g.Archive && c.Rng.Intn(12) == 0 {
			op = manyOp(g, live)
		}
		c.Trace("%s", op)
		res := Exec(r, op)
		c.Trace("  -> %s", res.Class)
		c.Count("ops", 1)
		next, err := FullSnap(r.FS)
		if err != nil {
			c.Violate("after %s: %v [%v]", op, err, cfg)
		}
		live = next
		recs := checkPositions(c, r, live, op.String(), i%3 == 0 || i == n-1, r)
		if i%6 == 5 || i == n-1 {
			o, err := r.Rebuilt()
			if err != nil {
				c.Violate("rebuilding: %v", err)
			}
			checkPositions(c, r, live, "rebuilding", true, o)
			o.Close()
		}
		c.Eval(fmt.Sprintf("%d|%s|%s|%d", cfg.RecordSize, op.K, res.Class, recs-last))
		last = recs
	}
	c.Sample("%d records, %d live entries, record size %d", last, len(live), cfg.RecordSize)
}

// manyOp archives more entries in one call than fit into a record
func manyOp(g *Gen, live Snap) Op {
	op := Op{K: "archive"}
	v := viewOf(live.kinds())
	d := g.pick(v.dirs)
	for i := 0; i < 12+g.R.Intn(30); i++ {
		p := norm(fmt.Sprintf("%s/m%d", d, g.R.Intn(100000)))
		if _, ok := live[p]; ok {
			continue
		}
		dup := false
		for _, b := range op.Batch {
			dup = dup || b.Path == p
		}
		if !dup {
			op.Batch = append(op.Batch, g.batchEnt(p, g.R.Intn(6) == 0))
		}
	}
	return op
}

// checkPositions compares the rows of the index of o with the tape of r; returns the number of records on the tape.
func checkPositions(c *Ctx, r *Rig, live Snap, after string, fetch bool, o *Rig) int {
	b := r.TapeBytes()
	ls, sc, err := r.Logicals(b)
	if err != nil {
		c.Violate("after %s: %v [%v]", after, err, r.Cfg)
	}
	if len(sc.Problems) > 0 && !r.Cfg.Tape {
		c.Violate("after %s: the tape is not well-formed: %v [%v]", after, sc.Problems, r.Cfg)
	}
	want := Positions(ls)
	rs := int64(r.Cfg.RecordSize)
	split := func(off int64) (int64, int64) {
		if r.Opts.Tape != nil {
			return r.Opts.Tape.objectAt(off)
		}
		return off / 512 / rs, off / 512 % rs
	}
	starts := map[[2]int64]bool{}
	for _, l := range ls {
		x, y := split(l.Off)
		starts[[2]int64{x, y}] = true
	}
	rows, err := o.Rows()
	if err != nil {
		c.Violate("after %s: %v", after, err)
	}
	seen := map[string]bool{}
	for _, h := range rows {
		k := norm(h.Name)
		if h.Linkname != "" {
			k = norm(h.Linkname)
		}
		if seen[k] {
			c.Violate("after %s: %q has more than one live row [%v]", after, k, r.Cfg)
		}
		seen[k] = true
		p := want[k]
		if p == nil {
			c.Violate("after %s: row %q does not exist according to the tape [%v]", after, k, r.Cfg)
		}
		wr, wb := split(p.Content)
		if h.Record != wr || h.Block != wb {
			c.Violate("after %s: row %q is said to be at (%d,%d), but its content record starts at (%d,%d) [%v]", after, k, h.Record, h.Block, wr, wb, r.Cfg)
		}
		if h.Block < 0 || h.Block >= rs || h.Lastknownblock < 0 || h.Lastknownblock >= rs {
			c.Violate("after %s: row %q: block %d/%d is not smaller than the record size %d", after, k, h.Block, h.Lastknownblock, rs)
		}
		if h.Lastknownrecord*rs+h.Lastknownblock < h.Record*rs+h.Block {
			c.Violate("after %s: row %q was last known at (%d,%d), before its content (%d,%d)", after, k, h.Lastknownrecord, h.Lastknownblock, h.Record, h.Block)
		}
		if !starts[[2]int64{h.Lastknownrecord, h.Lastknownblock}] {
			c.Violate("after %s: row %q: the last known position (%d,%d) is not the start of a record [%v]", after, k, h.Lastknownrecord, h.Lastknownblock, r.Cfg)
		}
		c.Count("rows compared with the scan", 1)
	}
	for k := range want {
		if !seen[k] {
			c.Violate("after %s: %q is on the tape, but has no live row [%v]", after, k, r.Cfg)
		}
	}
	lr, lb, err := o.Meta.Metadata.GetLastIndexedRecordAndBlock(context.Background(), r.Cfg.RecordSize)
	if err != nil {
		c.Violate("after %s: last indexed: %v", after, err)
	}
	fr, fb := split(ls[len(ls)-1].Off)
	if lr != fr || lb != fb {
		c.Violate("after %s: the index says that (%d,%d) was written last, but the final record is at (%d,%d) [%v]", after, lr, lb, fr, fb, r.Cfg)
	}
	if !fetch {
		return len(ls)
	}
	for _, h := range rows {
		if h.Linkname != "" {
			continue
		}
		e := live[norm(h.Name)]
		data, isDir, _, err := o.FetchAt(int(h.Record), int(h.Block))
		if err != nil {
			c.Violate("after %s: fetching %q at (%d,%d): %v [%v]", after, h.Name, h.Record, h.Block, err, r.Cfg)
		}
		if isDir != e.Dir || digest(data) != e.Content {
			c.Violate("after %s: fetching at (%d,%d) returned %d bytes (directory: %v), but %q is %v [%v]", after, h.Record, h.Block, len(data), isDir, h.Name, e, r.Cfg)
		}
		c.Count("fetches compared", 1)
	}
	queryMatches(c, o, ls, after, 0)
	if len(ls) > 1 && !r.Cfg.Tape {
		queryMatches(c, o, ls, after, c.Rng.Intn(len(ls)))
	}
	return len(ls)
}

// queryMatches compares what recovery.Query finds from the start of record `from` on with the scan.
func queryMatches(c *Ctx, o *Rig, ls []*Logical, after string, from int) {
	rs := int64(o.Cfg.RecordSize)
	rec, blk := ls[from].Off/512/rs, ls[from].Off/512%rs
	if from == 0 {
		rec, blk = 0, 0
	}
	hdrs, calls, err := o.Query(int(rec), int(blk))
	if err != nil {
		c.Violate("after %s: querying from (%d,%d): %v [%v]", after, rec, blk, err, o.Cfg)
	}
	if len(hdrs) != len(ls)-from || calls != len(hdrs) {
		c.Violate("after %s: querying from (%d,%d) found %d records (%d announced), but there are %d [%v]", after, rec, blk, len(hdrs), calls, len(ls)-from, o.Cfg)
	}
	for i, h := range hdrs {
		l := ls[from+i]
		_, size := l.Name, l.Size
		if a := h.PAXRecords["STFS.Action"]; a != l.Action && !(a == "" && l.Action == "CREATE") {
			c.Violate("after %s: query: record %d has the action %q instead of %q", after, from+i, a, l.Action)
		}
		// Query reports names as they are on the tape, or without suffixes
		if norm(h.Name) != norm(l.Name) && norm(h.Name) != norm(rawName(l)) {
			c.Violate("after %s: query: record %d is %q instead of %q", after, from+i, h.Name, l.Name)
		}
		_ = size
	}
	c.Count("queries compared", 1)
}

func rawName(l *Logical) string {
	if l.Hdr != nil {
		return l.Hdr.Name
	}
	return l.Rec.Name
}

// Query lists what is on the tape from a position on.
func (r *Rig) Query(record, block int) ([]*tar.Header, int, error) {
	reader, err := r.Backend.GetReader()
	if err != nil {
		return nil, 0, err
	}
	defer r.Backend.CloseReader()
	calls := 0
	hdrs, err := recovery.Query(reader, r.Backend.MagneticTapeIO, r.Cfg.Pipes(),
		config.CryptoConfig{Recipient: r.ReadKeys.SigRecipient, Identity: r.ReadKeys.EncIdentity},
		record, block, func(*config.Header) { calls++ })
	return hdrs, calls, err
}

var _ = bytes.Equal
var _ = encryption.DecryptHeader
var _ = signature.VerifyHeader
