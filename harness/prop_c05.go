package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/tape"
)

// C05: the bytes of the drive are recorded before and after every call.

func init() {
	register(&Prop{
		ID: "C05", Level: "exploration",
		Rule:        "distinct (operation, outcome, record size, growth of the tape in blocks) situations in which the tape was compared with its previous content and iterated by independent readers",
		Plan:        func(tier string) int { return map[string]int{"quick": 330, "thorough": 9000}[tier] },
		Run:         runC05,
		Need:        []string{"prefix comparisons", "calls which failed and appended nothing", "members compared with live files", "tapes listed by GNU tar", "tapes listed by python"},
		Assumptions: []string{"GNU tar and python are only used where they are installed; archive/tar and the scanner of the harness are always used"},
	})
}

func runC05(c *Ctx) {
	if c.Idx%15 == 14 {
		overwriteC05(c)
		return
	}
	cfg := cheapCfg(c.Rng)
	switch {
	case c.Idx%3 == 0:
		cfg.Enc, cfg.Comp = config.NoneKey, config.NoneKey
	case c.Idx%10 == 9:
		cfg = tapeCfg(c.Rng)
	}
	g := NewGen(c.Rng).own(cfg)
	g.Archive = c.Idx%2 == 0
	faults := c.Idx%6 == 1
	var arm func() error
	h := &Hooks{Point: func(kind string) error {
		if arm != nil {
			if strings.HasPrefix(kind, "drive.") {
				return arm()
			}
		}
		return nil
	}}
	o := Opts{}
	if faults {
		o.Hooks = h
	}
	r, err := NewRig(cfg, c.Base, o)
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	live, err := FullSnap(r.FS)
	if err != nil {
		c.Violate("fresh instance: %v", err)
	}
	prev := r.TapeBytes()
	wellFormed(c, r, "initialising", false)
	n := c.Pick(26, 40)
	broken := false
	for i := 0; i < n; i++ {
		op := g.Next(live.kinds())
		injected := false
		if faults && c.Rng.Intn(4) == 0 {
			k := c.Rng.Intn(12)
			arm = func() error {
				if k--; k < 0 {
					injected = true
					return errInjected
				}
				return nil
			}
		}
		c.Trace("%s", op)
		res := Exec(r, op)
		arm = nil
		c.Trace("  -> %s (fault: %v)", res.Class, injected)
		broken = broken || injected
		cur := r.TapeBytes()
		if !bytes.HasPrefix(cur, prev) {
			c.Violate("%s (%s) changed what was on the tape already: %s [%v]", op, res.Class, firstDiff(prev, cur), cfg)
		}
		c.Count("prefix comparisons", 1)
		grown := len(cur) - len(prev)
		readOnly := op.K == "stat" || op.K == "list" || op.K == "read"
		if (res.Class != "ok" && !injected && !(broken && cfg.Tape) && len(op.Batch) <= 1 || readOnly) && grown != 0 {
			c.Violate("%s (%s) appended %d bytes [%v]", op, res.Class, grown, cfg)
		}
		if res.Class != "ok" && !injected {
			c.Count("calls which failed and appended nothing", 1)
		}
		prev = cur
		if !broken {
			wellFormed(c, r, op.String(), false)
		}
		next, err := FullSnap(r.FS)
		if err != nil {
			if broken {
				// What a failed call leaves behind is the matter of C10
				return
			}
			c.Violate("after %s: %v [%v]", op, err, cfg)
		}
		live = next
		if after := r.TapeBytes(); !bytes.Equal(after, cur) {
			c.Violate("reading changed the tape: %s [%v]", firstDiff(cur, after), cfg)
		}
		if !broken && cfg.Comp == config.NoneKey && cfg.Enc == config.NoneKey && (i%3 == 0 || i == n-1) {
			rawContents(c, r, live, op.String())
		}
		c.Eval(fmt.Sprintf("%s|%s|%d|%d", op.K, res.Class, cfg.RecordSize, grown/512))
	}
	if !broken {
		wellFormed(c, r, "the whole history", true)
	}
	c.Sample("%d bytes, %d live entries, %v", len(prev), len(live), cfg)
}

func firstDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d of %d is different (%d bytes now)", i, len(a), len(b))
		}
	}
	return fmt.Sprintf("%d bytes became %d", len(a), len(b))
}

// stdScan iterates a tape with archive/tar, which it restarts behind every trailer.
func stdScan(b []byte) (names []string, contents [][]byte, offsets []int64, err error) {
	pos := 0
	for pos < len(b) {
		if bytes.Equal(b[pos:min(pos+512, len(b))], zeroBlock) {
			pos += 512
			continue
		}
		rd := &offsetReader{b: b[pos:]}
		tr := tar.NewReader(rd)
		for {
			start := pos + (rd.n+511)/512*512
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				return names, contents, offsets, fmt.Errorf("archive at %d: %w", pos, err)
			}
			_ = start
			data, err := io.ReadAll(tr)
			if err != nil {
				return names, contents, offsets, fmt.Errorf("archive at %d: content of %q: %w", pos, h.Name, err)
			}
			names, contents = append(names, h.Name), append(contents, data)
			offsets = append(offsets, int64(start))
		}
		pos += (rd.n + 511) / 512 * 512
	}
	return
}

type offsetReader struct {
	b []byte
	n int
}

func (r *offsetReader) Read(p []byte) (int, error) {
	if r.n >= len(r.b) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.n:])
	r.n += n
	return n, nil
}

func wellFormed(c *Ctx, r *Rig, after string, external bool) {
	b := r.TapeBytes()
	sc := ScanTape(b)
	if len(sc.Problems) > 0 {
		c.Violate("after %s the tape is not a sequence of well-formed archives: %v [%v]", after, sc.Problems, r.Cfg)
	}
	if r.Opts.Tape != nil && r.Opts.Tape.Odd > 0 {
		c.Violate("after %s: %d blocks of the tape are not exactly one record long [%v]", after, r.Opts.Tape.Odd, r.Cfg)
	}
	names, _, _, err := stdScan(b)
	if err != nil {
		c.Violate("after %s archive/tar fails: %v [%v]", after, err, r.Cfg)
	}
	if len(names) != len(sc.Recs) {
		c.Violate("after %s archive/tar finds %d records instead of %d [%v]", after, len(names), len(sc.Recs), r.Cfg)
	}
	for i, n := range names {
		if n != sc.Recs[i].Name && !(strings.TrimSuffix(n, "/") == strings.TrimSuffix(sc.Recs[i].Name, "/")) {
			c.Violate("after %s: record %d is %q for archive/tar, but %q for the scanner", after, i, n, sc.Recs[i].Name)
		}
	}
	c.Count("tapes iterated by archive/tar", 1)
	if !external {
		return
	}
	path := filepath.Join(c.Base, "listed.tar")
	must(os.WriteFile(path, b, 0o600))
	if out, err := exec.Command("tar", "--ignore-zeros", "--warning=none", "--quoting-style=literal", "-P", "-tf", path).Output(); err == nil || len(out) > 0 {
		if err != nil {
			c.Violate("GNU tar fails: %v %s [%v]", err, clip(string(out), 400), r.Cfg)
		}
		want := 0
		for _, n := range names {
			want += 1 + strings.Count(n, "\n")
		}
		if got := strings.Count(string(out), "\n"); got != want {
			c.Violate("GNU tar lists %d lines instead of %d [%v]: %s", got, want, r.Cfg, clip(string(out), 400))
		}
		c.Count("tapes listed by GNU tar", 1)
	}
	script := `import tarfile,sys,json
t=tarfile.open(sys.argv[1],ignore_zeros=True,encoding='utf-8',errors='surrogateescape')
print(json.dumps([[m.name.encode('utf-8','surrogateescape').decode('utf-8','replace'),m.size] for m in t]))`
	if out, err := exec.Command("python3", "-c", script, path).Output(); err == nil {
		var l [][]interface{}
		must(json.Unmarshal(out, &l))
		if len(l) != len(names) {
			c.Violate("python's tarfile lists %d members instead of %d [%v]", len(l), len(names), r.Cfg)
		}
		for i, m := range l {
			if int64(m[1].(float64)) != sc.Recs[i].Size {
				c.Violate("python's tarfile: member %d has %v bytes instead of %d", i, m[1], sc.Recs[i].Size)
			}
		}
		c.Count("tapes listed by python", 1)
	} else if x, ok := err.(*exec.ExitError); ok {
		c.Violate("python's tarfile fails: %s [%v]", clip(string(x.Stderr), 500), r.Cfg)
	}
	_ = os.Remove(path)
}

// rawContents compares the member data which a standard reader extracts with the live files.
func rawContents(c *Ctx, r *Rig, live Snap, after string) {
	b := r.TapeBytes()
	ls, sc, err := r.Logicals(b)
	if err != nil {
		c.Violate("after %s: %v", after, err)
	}
	_, contents, _, err := stdScan(b)
	if err != nil || len(contents) != len(sc.Recs) {
		c.Violate("after %s: archive/tar: %v", after, err)
	}
	at := map[int64][]byte{}
	for i, rec := range sc.Recs {
		at[rec.Off] = contents[i]
	}
	pos := Positions(ls)
	for p, e := range live {
		if e.Dir || e.IsLink {
			continue
		}
		q := pos[p]
		if q == nil {
			c.Violate("after %s: no record on the tape for %q [%v]", after, p, r.Cfg)
		}
		if digest(at[q.Content]) != e.Content {
			c.Violate("after %s: a standard reader extracts %d bytes for %q, which are not its content (%v) [%v]", after, len(at[q.Content]), p, e, r.Cfg)
		}
		c.Count("members compared with live files", 1)
	}
}

// overwriteC05: a drive which is explicitly opened for overwriting loses its content with the first write, but never again.
func overwriteC05(c *Ctx) {
	cfg := Cfg{Level: config.CompressionLevelFastestKey, RecordSize: recordSizes[c.Rng.Intn(6)]}
	g := NewGen(c.Rng).own(cfg)
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance: %v", err)
	}
	m := newModelOf(c, r)
	for i := 0; i < 8; i++ {
		Exec(r, g.Next(m.kinds()))
	}
	old := r.TapeBytes()
	r.Close()

	mt := mtio.MagneticTapeIO{}
	tm := tape.NewTapeManager(r.Drive, mt, cfg.RecordSize, true)
	o, err := OpenRigOn(cfg, r.Dir, r.Drive, filepath.Join(r.Dir, "new.sqlite"), Opts{}, config.BackendConfig{
		GetWriter: tm.GetWriter, CloseWriter: tm.Close, GetReader: tm.GetReader, CloseReader: tm.Close, MagneticTapeIO: mt,
	})
	must(err)
	// Reading does not overwrite
	if _, _, err := o.Query(0, 0); err != nil {
		c.Violate("querying a drive which is to be overwritten: %v", err)
	}
	if !bytes.Equal(old, o.TapeBytes()) {
		c.Violate("reading from a drive which is to be overwritten changed it")
	}
	// The first write does, and nothing afterwards
	if _, err := o.W.Archive(sources([]srcEntry{{Path: "/", Dir: true, Perm: 0o755}}, nil), cfg.Level, true, true); err != nil {
		c.Violate("archiving with overwrite: %v", err)
	}
	if _, err := o.FS.Initialize("/", os.ModePerm); err != nil {
		c.Violate("initialising after overwriting: %v", err)
	}
	if bytes.HasPrefix(o.TapeBytes(), old) {
		c.Violate("overwriting appended to the old content")
	}
	live, err := FullSnap(o.FS)
	if err != nil {
		c.Violate("after overwriting: %v", err)
	}
	if len(live) != 1 {
		c.Violate("after overwriting, old entries are visible: %v", live.Paths())
	}
	prev := o.TapeBytes()
	for i := 0; i < 10; i++ {
		op := g.Next(live.kinds())
		c.Trace("%s", op)
		res := Exec(o, op)
		cur := o.TapeBytes()
		if !bytes.HasPrefix(cur, prev) {
			c.Violate("%s on a drive which has been overwritten before changed its content: %s", op, firstDiff(prev, cur))
		}
		c.Count("prefix comparisons", 1)
		prev = cur
		wellFormed(c, o, op.String(), false)
		if live, err = FullSnap(o.FS); err != nil {
			c.Violate("after %s: %v", op, err)
		}
		c.Eval(fmt.Sprintf("overwrite|%s|%s", op.K, res.Class))
	}
}
