package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// C06: tapes are cut off at every kind of byte and indexed again. The oracle for the state after a complete record is what the
// running instance showed (at the ends of calls) and what the tape which ends cleanly behind that record gives (inside of calls).

func init() {
	register(&Prop{
		ID: "C06", Level: "exploration",
		Rule:        "distinct (tape, cut) pairs: tapes written by generated histories, cut at all block boundaries, one byte around them, at header and content boundaries and at random bytes (thorough: at every byte of small tapes), indexed and compared entry by entry",
		Plan:        func(tier string) int { return map[string]int{"quick": 130, "thorough": 2600}[tier] },
		Run:         runC06,
		Need:        []string{"cuts indexed", "cuts inside of a header", "cuts inside of content", "cuts inside of padding or trailers", "torn entries restored", "cuts opened as a file system", "histories continued after a cut", "histories continued after a cut inside of content", "histories continued after a cut behind a PAX header", "calls which wrote nothing to a tape just opened", "tape drive cuts"},
		Assumptions: []string{"tape drives are emulated and tear between blocks"},
		Limit:       300 * time.Second,
	})
}

// prefixState is what a tape shows which ends behind a number of complete records.
type prefixState struct {
	snap  Snap
	rows  int
	valid bool
}

// stateOf indexes a tape from scratch.
func stateOf(c *Ctx, r *Rig, b []byte, what string) (*Rig, prefixState) {
	drive := filepath.Join(r.Dir, fmt.Sprintf("cut%d.tar", nextID()))
	must(os.WriteFile(drive, b, 0o600))
	defer os.Remove(drive)
	n, err := OpenRig(r.Cfg, r.Dir, drive, "", Opts{DBMem: true, Keys: r.Opts.Keys, ReadKeys: r.Opts.ReadKeys})
	must(err)
	return n, indexState(c, n, what)
}

func indexState(c *Ctx, n *Rig, what string) prefixState {
	if err := n.Index(0, 0, true, nil); err != nil {
		c.Violate("%s: rebuilding the index fails: %v [%v]", what, err, n.Cfg)
	}
	rows, err := n.Rows()
	must(err)
	st := prefixState{rows: len(rows)}
	if len(rows) == 0 {
		st.snap, st.valid = Snap{}, true
		return st
	}
	s, err := Walk(n.FS)
	if err != nil {
		c.Violate("%s: %v [%v]", what, err, n.Cfg)
	}
	for p, e := range s {
		if e.ReadErr != "" {
			e.ReadErr = "unreadable"
			e.Content = ""
			s[p] = e
		}
	}
	st.snap, st.valid = s, true
	return st
}

func runC06(c *Ctx) {
	if c.Idx%8 == 7 {
		tapeC06(c)
		return
	}
	cfg := cheapCfg(c.Rng)
	if c.Idx%2 == 0 {
		cfg.Comp, cfg.Enc, cfg.Sig = config.NoneKey, config.NoneKey, config.NoneKey
	}
	if c.Idx%4 == 1 {
		cfg = fullCfg(c.Rng)
		if cfg.RecordSize > 64 {
			cfg.RecordSize = 20
		}
	}
	g := NewGen(c.Rng).own(cfg)
	g.Sizes = []int{0, 1, 10, 511, 512, 513, 1024, 1025, 1500, 2048, 3000}
	g.Archive = c.Idx%3 != 0
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}

	gens := 1 + c.Rng.Intn(3)
	from := 0
	for gen := 0; gen < gens; gen++ {
		// A history, with what the instance showed after each call
		shown := map[int]Snap{}
		note := func() Snap {
			s, err := Walk(r.FS)
			if err != nil {
				c.Violate("walk: %v [%v]", err, r.Cfg)
			}
			for p, e := range s {
				if e.ReadErr != "" {
					if gen == 0 {
						c.Violate("reading %q: %s [%v]", p, e.ReadErr, r.Cfg)
					}
					e.ReadErr, e.Content = "unreadable", ""
					s[p] = e
				}
			}
			if b := r.TapeBytes(); gen == 0 || len(b) > from {
				// As long as nothing has been appended, the torn content has not been completed
				shown[len(ScanTape(b).Recs)] = s
			}
			return s
		}
		live := note()
		for i, n := 0, c.Pick(9, 14)/gens+2; i < n; i++ {
			op := g.Next(live.kinds())
			c.Trace("%s", op)
			Exec(r, op)
			live = note()
		}
		tape := append([]byte{}, r.TapeBytes()...)
		sc := ScanTape(tape)
		if len(sc.Problems) > 0 && gen == 0 {
			c.Violate("the tape is not well-formed: %v [%v]", sc.Problems[0], r.Cfg)
		}
		base := map[int]prefixState{}
		stateAfter := func(k int) prefixState {
			if st, ok := base[k]; ok {
				return st
			}
			var b []byte
			if k > 0 {
				b = append(append(b, tape[:sc.Recs[k-1].End]...), make([]byte, 1024)...)
			}
			n, st := stateOf(c, r, b, fmt.Sprintf("the first %d records", k))
			n.Close()
			if s, ok := shown[k]; ok {
				if d := Diff(s, st.snap, "the running instance", "the first records"); d != "" {
					c.Violate("the first %d records give something else than the running instance showed then: %s [%v]", k, d, r.Cfg)
				}
				c.Count("prefixes compared with the running instance", 1)
			}
			base[k] = st
			return st
		}

		cuts := cutsOf(c, tape, sc, from)
		for _, cut := range cuts {
			checkCut(c, r, tape, sc, cut, stateAfter)
		}
		c.Sample("generation %d: %d records, %d bytes, %d cuts", gen, len(sc.Recs), len(tape), len(cuts))
		if gen == gens-1 || len(cuts) == 0 {
			break
		}

		// Carry on after a crash: with an empty index, or with the one which the crash has left behind
		cut := int64(from) + int64(c.Rng.Intn(len(tape)-from+1))
		if c.Rng.Intn(3) > 0 {
			cut = cuts[c.Rng.Intn(len(cuts))]
		}
		if cfg.Comp == config.NoneKey && cfg.Enc == config.NoneKey && cfg.Sig == config.NoneKey {
			// Without any pipe, nothing tells torn content which has been completed before appending to it from other content
			for _, t := range sc.Recs {
				if t.DataOff <= cut && cut < t.DataOff+t.Size {
					cut = t.Off + 1
				}
			}
		} else if c.Rng.Intn(2) == 0 {
			// What is appended must not become a part of the torn content
			for _, i := range c.Rng.Perm(len(sc.Recs)) {
				if t := sc.Recs[i]; t.Size > 0 && t.DataOff >= int64(from) {
					cut = t.DataOff + c.Rng.Int63n(t.Size)
					c.Count("histories continued after a cut inside of content", 1)
					break
				}
			}
		}
		pax := false
		if c.Rng.Intn(4) == 0 {
			// A PAX header which is complete, but lacks its record, must not become the one of what is appended
			for _, i := range c.Rng.Perm(len(sc.Recs)) {
				if t := sc.Recs[i]; t.Off >= int64(from) && t.DataOff-t.Off > 512 && len(t.PAX) > 0 {
					cut, pax = t.DataOff-512-c.Rng.Int63n(3)*int64(c.Rng.Intn(100)), true
					c.Count("histories continued after a cut behind a PAX header", 1)
					break
				}
			}
		}
		r.Close()
		dir := filepath.Join(c.Base, fmt.Sprintf("g%d", nextID()))
		must(os.MkdirAll(dir, 0o700))
		drive := filepath.Join(dir, "drive.tar")
		must(os.WriteFile(drive, tape[:cut], 0o600))
		o, err := OpenRig(cfg, dir, drive, filepath.Join(dir, "index.sqlite"), Opts{Keys: r.Opts.Keys, ReadKeys: r.Opts.ReadKeys})
		must(err)
		if _, err := o.FS.Initialize("/", os.ModePerm); err != nil {
			c.Violate("opening a tape which was cut at %d of %d: %v [%v]", cut, len(tape), err, cfg)
		}
		c.Trace("cut at %d, opened again", cut)
		c.Count("histories continued after a cut", 1)
		r, from = o, int(cut)
		idle(c, r, live.Paths())
		if pax {
			// Records without content and with whole seconds have no PAX headers of their own
			op := Op{K: "archive", Batch: []BatchEnt{{Path: fmt.Sprintf("/new%d", nextID()), Dir: c.Rng.Intn(2) == 0, Perm: 0o750, U: 1, G: 2, T: 1_600_000_000_000_000_000}}}
			c.Trace("%s", op)
			if res := Exec(r, op); res.Err != nil {
				c.Violate("archiving after a tape was cut: %v [%v]", res.Err, cfg)
			}
		}
	}
}

// cutsOf chooses where to cut a tape.
func cutsOf(c *Ctx, tape []byte, sc *Scan, from int) []int64 {
	set := map[int64]bool{}
	add := func(o int64) {
		if o >= int64(from) && o >= 0 && o < int64(len(tape)) {
			set[o] = true
		}
	}
	if c.Thorough() && len(tape)-from <= 14000 && c.Idx%3 == 0 {
		for o := from; o < len(tape); o++ {
			add(int64(o))
		}
		c.Count("tapes cut at every byte", 1)
	}
	bounds := []int64{}
	for o := int64(0); o <= int64(len(tape)); o += 512 {
		bounds = append(bounds, o)
	}
	for _, r := range sc.Recs {
		bounds = append(bounds, r.DataOff+r.Size)
	}
	limit := c.Pick(70, 240)
	if len(bounds) > limit/3 {
		// Keep those around records and sample the others
		keep := map[int64]bool{}
		for _, r := range sc.Recs {
			for _, o := range []int64{r.Off, r.Hdr, r.DataOff, r.DataOff + r.Size, r.End} {
				keep[o] = true
			}
		}
		k := []int64{}
		for o := range keep {
			k = append(k, o)
		}
		sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
		c.Rng.Shuffle(len(bounds), func(i, j int) { bounds[i], bounds[j] = bounds[j], bounds[i] })
		c.Rng.Shuffle(len(k), func(i, j int) { k[i], k[j] = k[j], k[i] })
		bounds = append(k, bounds...)
	}
	for _, o := range bounds {
		if len(set) >= limit && !c.Thorough() {
			break
		}
		add(o)
		add(o - 1)
		add(o + 1)
	}
	for i := 0; i < c.Pick(12, 60); i++ {
		if len(tape) > from {
			add(int64(from + c.Rng.Intn(len(tape)-from)))
		}
	}
	out := []int64{}
	for o := range set {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func checkCut(c *Ctx, r *Rig, tape []byte, sc *Scan, cut int64, stateAfter func(int) prefixState) {
	k := 0
	for k < len(sc.Recs) && sc.Recs[k].End <= cut {
		k++
	}
	torn := k < len(sc.Recs) && sc.Recs[k].Off < cut
	where := "between records"
	if torn {
		switch t := sc.Recs[k]; {
		case cut < t.DataOff:
			where = "in a header"
			c.Count("cuts inside of a header", 1)
		case cut < t.DataOff+t.Size:
			where = "in content"
			c.Count("cuts inside of content", 1)
		default:
			where = "in padding"
			c.Count("cuts inside of padding or trailers", 1)
		}
	} else if k > 0 && cut > sc.Recs[k-1].End {
		where = "in a trailer"
		c.Count("cuts inside of padding or trailers", 1)
	}
	what := fmt.Sprintf("tape cut at %d of %d (%s, after %d of %d records)", cut, len(tape), where, k, len(sc.Recs))
	n, got := stateOf(c, r, tape[:cut], what)
	want := stateAfter(k)
	compareCut(c, r, n, got, want, sc, k, torn, cut, what, stateAfter, nil)
	n.Close()
	c.Count("cuts indexed", 1)
	c.Eval(fmt.Sprintf("%d|%d", c.Idx, cut))

	// The same through the file system
	if k > 0 && (cut%7 == 0 || where == "in content" && cut%3 == 0) {
		drive := filepath.Join(r.Dir, fmt.Sprintf("cut%d.tar", nextID()))
		must(os.WriteFile(drive, tape[:cut], 0o600))
		o, err := OpenRig(r.Cfg, r.Dir, drive, "", Opts{DBMem: true, Keys: r.Opts.Keys, ReadKeys: r.Opts.ReadKeys})
		must(err)
		if _, err := o.FS.Initialize("/", os.ModePerm); err != nil {
			c.Violate("%s: initialising: %v [%v]", what, err, r.Cfg)
		}
		if b, _ := os.ReadFile(drive); !bytes.Equal(b, tape[:cut]) {
			c.Violate("%s: initialising changed the tape [%v]", what, r.Cfg)
		}
		s, err := Walk(o.FS)
		if err != nil {
			c.Violate("%s: %v [%v]", what, err, r.Cfg)
		}
		for p, e := range s {
			if e.ReadErr != "" {
				e.ReadErr, e.Content = "unreadable", ""
				s[p] = e
			}
		}
		compareCut(c, r, o, prefixState{snap: s}, want, sc, k, torn, cut, what+", opened as a file system", stateAfter, nil)
		o.Close()
		_ = os.Remove(drive)
		c.Count("cuts opened as a file system", 1)
	}
}

// compareCut compares a rebuilt state with the one after the last complete record.
func compareCut(c *Ctx, r, n *Rig, got, want prefixState, sc *Scan, k int, torn bool, cut int64, what string, stateAfter func(int) prefixState, next *prefixState) {
	a, b := want.snap.Clone(), got.snap.Clone()
	if torn {
		l, err := r.Decode(sc.Recs[k])
		if err != nil {
			c.Inconclusive("decoding the torn record: %v", err)
		}
		p := norm(l.Name)
		if l.Link != "" {
			p = norm(l.Link)
		}
		old, hadOld := a[p]
		cur, has := b[p]
		delete(a, p)
		delete(b, p)
		after := stateAfter(k + 1)
		full, hasFull := after.snap[p]
		if has || hadOld {
			if has {
				meta := func(e Ent) Ent {
					e.Content, e.ReadErr = "", ""
					return e
				}
				switch {
				case hadOld && cur == old:
					c.Count("torn records not reflected", 1)
				case hasFull && meta(cur) == meta(full):
					// The content has to be what was written, or unreadable
					if cur.ReadErr == "" && cur.Content != full.Content {
						c.Violate("%s: the torn entry %q reads as %v, but %v was written [%v]", what, p, cur, full, r.Cfg)
					}
					if cur.ReadErr != "" {
						c.Count("torn entries which are unreadable", 1)
					}
				case hadOld && meta(cur) == meta(old):
					if cur.ReadErr == "" {
						c.Violate("%s: the torn entry %q reads as %v, but it was %v [%v]", what, p, cur, old, r.Cfg)
					}
				default:
					c.Violate("%s: the torn entry %q is %v; before the record it was %v, after the record it would have been %v [%v]", what, p, cur, old, full, r.Cfg)
				}
			} else {
				c.Violate("%s: the torn entry %q is gone; before the record it was %v [%v]", what, p, old, r.Cfg)
			}
			if has && !cur.Dir && !cur.IsLink && n.Opts.Tape == nil {
				// Through the archive interface
				_ = os.WriteFile(n.Drive, nil, 0o600)
				if d, err := os.OpenFile(n.Drive, os.O_WRONLY|os.O_TRUNC, 0o600); err == nil {
					_, _ = d.Write(r.cutBytes(cut))
					_ = d.Close()
				}
				res, err := n.RestoreBytes(p)
				for _, x := range res {
					okOld := hadOld && cur == old && digest(x) == old.Content
					okNew := hasFull && digest(x) == full.Content
					if err == nil && !okOld && !okNew {
						c.Violate("%s: restoring the torn entry %q returned %d wrong bytes without an error [%v]", what, p, len(x), r.Cfg)
					}
				}
				c.Count("torn entries restored", 1)
				if err != nil {
					c.Count("torn entries restored with an error", 1)
				}
			}
		}
	}
	if d := Diff(a, b, "after the last complete record", "rebuilt"); d != "" {
		c.Violate("%s: %s [%v]", what, d, r.Cfg)
	}
	c.Count("entries compared", len(a))
}

func (r *Rig) cutBytes(cut int64) []byte { return r.TapeBytes()[:cut] }

// tapeC06 tears the tape of a drive between blocks.
func tapeC06(c *Ctx) {
	cfg := tapeCfg(c.Rng)
	if cfg.RecordSize > 20 {
		cfg.RecordSize, cfg.Comp = 2, config.NoneKey
	}
	g := NewGen(c.Rng).own(cfg)
	g.Sizes = []int{0, 1, 511, 512, 513, 1024, 1500, 3000, 5000}
	g.Archive = true
	t := NewEmuTape(cfg.RecordSize * 512)
	r, err := NewRig(cfg, c.Base, Opts{Tape: t})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	live, err := FullSnap(r.FS)
	must(err)
	for i := 0; i < c.Pick(10, 16); i++ {
		op := g.Next(live.kinds())
		c.Trace("%s", op)
		Exec(r, op)
		if live, err = FullSnap(r.FS); err != nil {
			c.Violate("after %s: %v [%v]", op, err, cfg)
		}
	}
	sc := ScanTape(t.Stream())
	at := func(n int) (*EmuTape, int64) {
		x := NewEmuTape(t.blockSize)
		var size int64
		for _, o := range t.objs[:n] {
			x.objs = append(x.objs, o)
			size += int64(len(o))
		}
		return x, size
	}
	open := func(n int, what string) (*Rig, prefixState, int64) {
		x, size := at(n)
		o, err := OpenRig(cfg, r.Dir, "", "", Opts{DBMem: true, Tape: x})
		must(err)
		return o, indexState(c, o, what), size
	}
	base := map[int]prefixState{}
	var stateAfter func(k int) prefixState
	stateAfter = func(k int) prefixState {
		if st, ok := base[k]; ok {
			return st
		}
		// The same records on a regular drive
		b := []byte{}
		if k > 0 {
			b = append(append(b, t.Stream()[:sc.Recs[k-1].End]...), make([]byte, 1024)...)
		}
		plain := *r
		plain.Cfg.Tape = false
		plain.Opts.Tape = nil
		o, st := stateOf(c, &plain, b, fmt.Sprintf("the first %d records", k))
		o.Close()
		base[k] = st
		return st
	}
	for n := 0; n <= len(t.objs); n++ {
		what := fmt.Sprintf("tape cut behind block %d of %d", n, len(t.objs))
		_, size := at(n)
		if n == 0 || size == 0 {
			continue
		}
		o, got, cut := open(n, what)
		k := 0
		for k < len(sc.Recs) && sc.Recs[k].End <= cut {
			k++
		}
		torn := k < len(sc.Recs) && sc.Recs[k].Off < cut
		what = fmt.Sprintf("%s (%d of %d records, torn: %v)", what, k, len(sc.Recs), torn)
		compareCut(c, r, o, got, stateAfter(k), sc, k, torn, cut, what, stateAfter, nil)
		o.Close()
		c.Count("tape drive cuts", 1)
		c.Count("cuts indexed", 1)
		c.Eval(fmt.Sprintf("%d|%d", c.Idx, n))
	}
}
