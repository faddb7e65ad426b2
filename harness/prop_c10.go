package main

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/inventory"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/tape"
)

// C10: every call is performed once without faults, counting how often it passes each seam (drive, index, data source, write cache,
// destination), and then once for every such point (and again for every value an error might have there) with a fault at it. Afterwards,
// calls of every kind have to return as well.

func init() {
	register(&Prop{
		ID: "C10", Level: "bounded-exhaustive",
		Rule: "distinct (call, configuration, seam point, kind of fault) quadruples after which a probe of the drive returned; every seam point a call passes is a fault point (up to the limit of the tier)",
		Plan: func(tier string) int {
			return map[string]int{"quick": len(c10Ops) * 4, "thorough": len(c10Ops) * 40}[tier]
		},
		Run:         runC10,
		Need:        []string{"faults injected", "calls which failed", "probes", "faults at drive", "faults at index", "faults at source", "faults at cache", "faults at dest", "rejected calls", "open descriptors checked", "real drive faults", "real index faults"},
		Assumptions: []string{"faults are returned at the interfaces between STFS and its drive, index, cache, sources and destinations; a seam which fails does so by returning an error (drives may have written a part of the data)"},
		Limit:       300 * time.Second,
	})
}

type c10Op struct {
	name string
	run  func(e *c10Env) error
}

type c10Env struct {
	*Rig
	h *Hooks
	c *Ctx
}

func (e *c10Env) exec(op Op) error { return Exec(e.Rig, op).Err }

// source which passes seams
type hookedSource struct {
	io.ReadSeekCloser
	h *Hooks
}

func (s *hookedSource) Read(p []byte) (int, error) {
	if err := s.h.point("source.read"); err != nil {
		return 0, err
	}
	return s.ReadSeekCloser.Read(p)
}
func (s *hookedSource) Seek(o int64, w int) (int64, error) {
	if err := s.h.point("source.seek"); err != nil {
		return 0, err
	}
	return s.ReadSeekCloser.Seek(o, w)
}
func (s *hookedSource) Close() error {
	err := s.ReadSeekCloser.Close()
	if e := s.h.point("source.close"); e != nil {
		return e
	}
	return err
}

func (e *c10Env) src(entries ...srcEntry) func() (config.FileConfig, error) {
	next := sources(entries, func(r io.ReadSeekCloser) io.ReadSeekCloser { return &hookedSource{r, e.h} })
	return func() (config.FileConfig, error) {
		if err := e.h.point("source.next"); err != nil {
			return config.FileConfig{}, err
		}
		f, err := next()
		if err != nil {
			return f, err
		}
		get := f.GetFile
		f.GetFile = func() (io.ReadSeekCloser, error) {
			if err := e.h.point("source.open"); err != nil {
				return nil, err
			}
			return get()
		}
		return f, nil
	}
}

type hookedDest struct {
	bytes.Buffer
	h *Hooks
}

func (d *hookedDest) Write(p []byte) (int, error) {
	if err := d.h.point("dest.write"); err != nil {
		return 0, err
	}
	return d.Buffer.Write(p)
}
func (d *hookedDest) Close() error { return d.h.point("dest.close") }

func (e *c10Env) restore(from, to string, flatten bool) error {
	return e.R.Restore(func(p string, mode fs.FileMode) (io.WriteCloser, error) {
		if err := e.h.point("dest.open"); err != nil {
			return nil, err
		}
		return &hookedDest{h: e.h}, nil
	}, func(p string, mode fs.FileMode) error { return e.h.point("dest.mkdir") }, from, to, flatten)
}

func ent(p string, size int) srcEntry {
	return srcEntry{Path: p, Perm: 0o644, Mod: time.Unix(1700000000, 5), Data: (&Data{Seed: 7, Size: size}).Bytes()}
}

func dirEnt(p string) srcEntry {
	return srcEntry{Path: p, Dir: true, Perm: 0o755, Mod: time.Unix(1700000000, 5)}
}

// handle opens a file, performs calls on it, and uses the file system before it is closed.
func (e *c10Env) handle(p string, flag int, acts ...Act) error {
	f, err := e.FS.OpenFile(p, flag, 0o644)
	if err != nil {
		return err
	}
	var first error
	for _, a := range acts {
		if r := execAct(f, a); strings.Contains(r, "injected") && first == nil {
			first = errInjected
		}
	}
	// The drive has to be free while the file is still open
	if _, err := e.FS.Stat("/d"); err != nil && first == nil {
		first = err
	}
	if _, err := readAll(e.FS, "/b"); err != nil && first == nil {
		first = err
	}
	if err := f.Close(); err != nil && first == nil {
		first = err
	}
	return first
}

func data(size int) *Data { return &Data{Seed: 3, Size: size} }

var c10Ops = []c10Op{
	{"initialize", func(e *c10Env) error { _, err := e.FS.Initialize("/", os.ModePerm); return err }},
	{"initialize over an empty index", func(e *c10Env) error {
		if err := e.Meta.Metadata.PurgeAllHeaders(context.Background()); err != nil {
			return err
		}
		_, err := e.FS.Initialize("/", os.ModePerm)
		return err
	}},
	{"create", func(e *c10Env) error { return e.exec(Op{K: "create", A: "/n"}) }},
	{"create with content", func(e *c10Env) error {
		return e.exec(Op{K: "create", A: "/d/n", Acts: []Act{{K: "write", D: data(5000)}, {K: "writestring", D: &Data{Lit: "x"}}, {K: "writeat", N: 17, D: data(40)}}})
	}},
	{"create over a file", func(e *c10Env) error {
		return e.exec(Op{K: "create", A: "/a", Acts: []Act{{K: "write", D: data(700)}}})
	}},
	{"create and sync", func(e *c10Env) error {
		return e.exec(Op{K: "create", A: "/n", Acts: []Act{{K: "write", D: data(700)}, {K: "sync"}, {K: "write", D: data(600)}, {K: "sync"}}})
	}},
	{"open for reading", func(e *c10Env) error {
		return e.exec(Op{K: "open", A: "/d/x", Acts: []Act{{K: "readfull", N: 100}, {K: "seek", N: 15000}, {K: "readfull", N: 100}, {K: "seek", N: 10}, {K: "readat", N: 30, W: 18000}, {K: "seek", N: -10, W: 2}, {K: "readfull", N: 100}}})
	}},
	{"append", func(e *c10Env) error {
		return e.exec(Op{K: "open", A: "/a", Flag: os.O_RDWR | os.O_APPEND, Acts: []Act{{K: "write", D: data(100)}}})
	}},
	{"edit", func(e *c10Env) error {
		return e.exec(Op{K: "open", A: "/d/x", Flag: os.O_RDWR, Acts: []Act{{K: "readfull", N: 10}, {K: "write", D: data(100)}, {K: "trunc", N: 12000}, {K: "seek", N: 0}, {K: "readfull", N: 300}}})
	}},
	{"truncate when opening", func(e *c10Env) error { return e.exec(Op{K: "open", A: "/a", Flag: os.O_RDWR | os.O_TRUNC}) }},
	{"truncate", func(e *c10Env) error {
		return e.exec(Op{K: "open", A: "/a", Flag: os.O_WRONLY, Acts: []Act{{K: "trunc", N: 5}, {K: "trunc", N: 900}}})
	}},
	{"an open handle which reads", func(e *c10Env) error {
		return e.handle("/d/x", os.O_RDONLY, Act{K: "read", N: 10}, Act{K: "seek", N: 5, W: 1}, Act{K: "read", N: 3000})
	}},
	{"an open handle which writes", func(e *c10Env) error {
		return e.handle("/d/x", os.O_RDWR, Act{K: "read", N: 10}, Act{K: "write", D: data(10)}, Act{K: "seek", N: 0}, Act{K: "read", N: 500})
	}},
	{"an abandoned handle", func(e *c10Env) error {
		f, err := e.FS.Open("/d/x")
		if err != nil {
			return err
		}
		_, err = f.Read(make([]byte, 10))
		return err
	}},
	{"an abandoned writer", func(e *c10Env) error {
		f, err := e.FS.OpenFile("/d/x", os.O_RDWR, 0)
		if err != nil {
			return err
		}
		if _, err := f.Read(make([]byte, 10)); err != nil {
			return err
		}
		_, err = f.Write(make([]byte, 10))
		return err
	}},
	{"mkdir", func(e *c10Env) error { return e.exec(Op{K: "mkdir", A: "/n", Perm: 0o755}) }},
	{"mkdirall", func(e *c10Env) error { return e.exec(Op{K: "mkdirall", A: "/d/n/m", Perm: 0o755}) }},
	{"remove", func(e *c10Env) error { return e.exec(Op{K: "remove", A: "/d/x"}) }},
	{"remove a link", func(e *c10Env) error { return e.exec(Op{K: "remove", A: "/l"}) }},
	{"removeall", func(e *c10Env) error { return e.exec(Op{K: "removeall", A: "/d"}) }},
	{"rename", func(e *c10Env) error { return e.exec(Op{K: "rename", A: "/a", B: "/d/a"}) }},
	{"rename a directory", func(e *c10Env) error { return e.exec(Op{K: "rename", A: "/d", B: "/dd"}) }},
	{"rename onto a file", func(e *c10Env) error { return e.exec(Op{K: "rename", A: "/a", B: "/d/x"}) }},
	{"rename onto a link", func(e *c10Env) error { return e.exec(Op{K: "rename", A: "/a", B: "/l"}) }},
	{"chmod", func(e *c10Env) error { return e.exec(Op{K: "chmod", A: "/a", Perm: 0o600}) }},
	{"chown", func(e *c10Env) error { return e.exec(Op{K: "chown", A: "/d", U: 3, G: 4}) }},
	{"chtimes", func(e *c10Env) error { return e.exec(Op{K: "chtimes", A: "/l", T1: 1e18, T2: 1e18}) }},
	{"symlink", func(e *c10Env) error { return e.exec(Op{K: "symlink", A: "/d/x", B: "/n"}) }},
	{"readlink", func(e *c10Env) error {
		if _, _, err := e.FS.LstatIfPossible("/l"); err != nil {
			return err
		}
		_, err := e.FS.ReadlinkIfPossible("/l")
		return err
	}},
	{"stat", func(e *c10Env) error { return e.exec(Op{K: "stat", A: "/d/x"}) }},
	{"list", func(e *c10Env) error { return e.exec(Op{K: "list", A: "/d", N: -1}) }},
	{"list a part", func(e *c10Env) error {
		f, err := e.FS.Open("/")
		if err != nil {
			return err
		}
		for i := 0; i < 4; i++ {
			_, err = f.Readdir(2)
			if err != nil {
				break
			}
		}
		if _, err2 := f.Stat(); err == nil {
			err = err2
		}
		if err2 := f.Close(); err == nil {
			err = err2
		}
		return err
	}},
	{"archive", func(e *c10Env) error {
		_, err := e.W.Archive(e.src(ent("/s1", 700), dirEnt("/sd"), ent("/sd/s2", 4000), ent("/s3", 0)), e.Cfg.Level, false, false)
		return err
	}},
	{"archive with overwrite", func(e *c10Env) error {
		_, err := e.W.Archive(e.src(dirEnt("/"), ent("/s1", 700)), e.Cfg.Level, true, false)
		return err
	}},
	{"update with content", func(e *c10Env) error {
		_, err := e.W.Update(e.src(ent("/a", 900), ent("/d/x", 10)), e.Cfg.Level, true, false)
		return err
	}},
	{"update without content", func(e *c10Env) error {
		_, err := e.W.Update(e.src(ent("/a", 3000), dirEnt("/d")), e.Cfg.Level, false, false)
		return err
	}},
	{"delete", func(e *c10Env) error { return e.W.Delete("/d") }},
	{"move", func(e *c10Env) error { return e.W.Move("/d", "/moved") }},
	{"restore", func(e *c10Env) error { return e.restore("/d/x", "", false) }},
	{"restore a directory", func(e *c10Env) error { return e.restore("/d", "/to", false) }},
	{"restore everything, flattened", func(e *c10Env) error { return e.restore("/", "", true) }},
	{"initialize as an archive", func(e *c10Env) error { return e.W.Initialize("/", 0o755, e.Cfg.Level) }},
	{"index", func(e *c10Env) error { return e.Index(0, 0, true, nil) }},
	{"index again", func(e *c10Env) error { return e.Index(0, 0, false, nil) }},
	{"query", func(e *c10Env) error { _, _, err := e.Query(0, 0); return err }},
	{"fetch", func(e *c10Env) error {
		rows, err := e.Meta.Metadata.GetHeaders(context.Background())
		if err != nil {
			return err
		}
		for _, h := range rows {
			if _, _, err := e.fetchHdr(int(h.Record), int(h.Block)); err != nil {
				return err
			}
		}
		return nil
	}},
	{"inventory", func(e *c10Env) error {
		if _, err := inventory.List(e.Meta, "/", -1, nil); err != nil {
			return err
		}
		if _, err := inventory.Stat(e.Meta, "/d/x", false, nil); err != nil {
			return err
		}
		_, err := inventory.Find(e.Meta, ".*x", nil)
		return err
	}},
	{"rejections", func(e *c10Env) error { return nil }},
	{"real faults", func(e *c10Env) error { return nil }},
}

// The drive is opened for being overwritten for these calls
var c10Over = map[string]bool{"archive with overwrite": true, "initialize as an archive": true}

// faultsFor are the errors which are returned at a kind of seam.
func faultsFor(kind string) []error {
	switch {
	case strings.HasPrefix(kind, "drive.open"):
		return []error{errInjected, &os.PathError{Op: "open", Path: "drive", Err: syscall.ENOENT}, syscall.EBUSY}
	case kind == "drive.read", kind == "source.read", kind == "cache.read":
		return []error{errInjected, io.EOF, io.ErrUnexpectedEOF}
	case kind == "drive.write", kind == "cache.write", kind == "dest.write":
		return []error{errInjected, syscall.ENOSPC, io.ErrShortWrite}
	case strings.HasPrefix(kind, "index."):
		return []error{errInjected, sql.ErrNoRows, config.ErrNoRootDirectory}
	case strings.HasPrefix(kind, "source."), strings.HasPrefix(kind, "dest."):
		return []error{errInjected, os.ErrNotExist, os.ErrClosed}
	}
	return []error{errInjected, os.ErrClosed}
}

// c10Base is what every run starts from.
type c10Base struct {
	cfg   Cfg
	drive []byte
	objs  [][]byte
	db    []byte
}

func newC10Base(c *Ctx, cfg Cfg) *c10Base {
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	for _, op := range []Op{
		{K: "create", A: "/a", Acts: []Act{{K: "write", D: data(3000)}}},
		{K: "create", A: "/b"},
		{K: "mkdir", A: "/d", Perm: 0o755},
		{K: "create", A: "/d/x", Acts: []Act{{K: "write", D: data(20000)}}},
		{K: "create", A: "/d/y", Acts: []Act{{K: "write", D: data(1)}}},
		{K: "symlink", A: "/a", B: "/l"},
	} {
		if res := Exec(r, op); res.Class != "ok" {
			c.Violate("%s: %v [%v]", op, res.Err, cfg)
		}
	}
	b := &c10Base{cfg: cfg, drive: r.TapeBytes()}
	if cfg.Tape {
		b.objs = append(b.objs, r.Opts.Tape.objs...)
	}
	b.db, err = os.ReadFile(r.DB)
	must(err)
	r.Close()
	return b
}

func (b *c10Base) open(c *Ctx, h *Hooks, over bool) *c10Env {
	dir := filepath.Join(c.Base, fmt.Sprintf("f%d", nextID()))
	must(os.MkdirAll(dir, 0o700))
	o := Opts{Hooks: h, Overwrite: over}
	drive, db := filepath.Join(dir, "drive.tar"), filepath.Join(dir, "index.sqlite")
	if b.cfg.Tape {
		o.Tape = NewEmuTape(b.cfg.RecordSize * 512)
		o.Tape.objs = append(o.Tape.objs, b.objs...)
	} else {
		must(os.WriteFile(drive, b.drive, 0o600))
	}
	must(os.WriteFile(db, b.db, 0o600))
	r, err := OpenRig(b.cfg, dir, drive, db, o)
	must(err)
	return &c10Env{Rig: r, h: h, c: c}
}

// driveDescriptors returns how many descriptors of this process refer to the drive.
func driveDescriptors(drive string) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (t == drive || t == drive+" (deleted)") {
			n++
		}
	}
	return n
}

// free checks that the drive has been closed.
func (e *c10Env) free(what string) {
	if e.Cfg.Tape {
		e.Opts.Tape.mu.Lock()
		open := e.Opts.Tape.open
		e.Opts.Tape.mu.Unlock()
		if open {
			e.c.Violate("%s: the drive is still open when the call has returned [%v]", what, e.Cfg)
		}
	} else {
		// What a helper of the call still holds would be released by itself
		for i := 0; driveDescriptors(e.Drive) > 0; i++ {
			if i > 200 {
				e.c.Violate("%s: the drive is still open when the call has returned [%v]", what, e.Cfg)
			}
			time.Sleep(10 * time.Millisecond)
		}
	}
	e.c.Count("open descriptors checked", 1)
}

// probe performs calls of all kinds, all of which have to return.
func (e *c10Env) probe(what string) {
	e.c.Trace("probing after %s", what)
	e.free(what)
	_, _ = e.FS.Stat("/")
	_, _ = readAll(e.FS, "/d/x")
	_ = e.exec(Op{K: "list", A: "/", N: -1})
	e.c.Trace("probing with a write")
	_ = e.exec(Op{K: "create", A: "/probe", Acts: []Act{{K: "write", D: data(600)}}})
	_ = e.exec(Op{K: "remove", A: "/probe"})
	e.c.Trace("probing with archive-level calls")
	_, _ = e.W.Archive(e.src(ent("/probe2", 10)), e.Cfg.Level, false, false)
	_, _ = e.RestoreBytes("/a")
	_, _, _ = e.Query(0, 0)
	_ = e.Index(0, 0, true, nil)
	e.free(what + ", then probing")
	e.c.Count("probes", 1)
}

func c10Cfg(c *Ctx) Cfg {
	k := c.Idx / len(c10Ops)
	cfg := Cfg{Level: config.CompressionLevelFastestKey, RecordSize: 20, Cache: config.WriteCacheTypeMemory}
	switch k {
	case 0:
	case 1:
		cfg.Cache, cfg.RecordSize = config.WriteCacheTypeFile, 3
		cfg.Comp = config.KnownCompressionFormats[c.Idx%len(config.KnownCompressionFormats)]
		cfg.Enc = config.KnownEncryptionFormats[c.Idx/2%3]
		cfg.Sig = config.KnownSignatureFormats[c.Idx/3%3]
	case 2:
		cfg = tapeCfg(c.Rng)
	default:
		cfg = fullCfg(c.Rng)
		if c.Rng.Intn(4) == 0 {
			cfg = tapeCfg(c.Rng)
		}
	}
	return cfg
}

func runC10(c *Ctx) {
	op := c10Ops[c.Idx%len(c10Ops)]
	cfg := c10Cfg(c)
	switch op.name {
	case "rejections":
		rejections(c, cfg)
		return
	case "real faults":
		realFaults(c, cfg)
		return
	}
	base := newC10Base(c, cfg)
	var mu sync.Mutex
	// How often does the call pass which seam?
	kinds := []string{}
	counting := true
	h := &Hooks{}
	h.Point = func(kind string) error {
		mu.Lock()
		defer mu.Unlock()
		if counting {
			kinds = append(kinds, kind)
		}
		return nil
	}
	e := base.open(c, h, c10Over[op.name])
	c.Trace("%s without faults", op.name)
	err := op.run(e)
	mu.Lock()
	counting = false
	mu.Unlock()
	if err != nil {
		c.Violate("%s without faults: %v [%v]", op.name, err, cfg)
	}
	e.free(op.name)
	e.probe(op.name + " without faults")
	e.Destroy()

	// Which points get a fault
	type pt struct {
		k      int
		err    error
		sticky bool
	}
	pts := []pt{}
	for k, kind := range kinds {
		for i, f := range faultsFor(kind) {
			pts = append(pts, pt{k, f, false})
			if i == 0 {
				pts = append(pts, pt{k, f, true})
			}
		}
	}
	limit := c.Pick(110, 1200)
	all := len(pts)
	if len(pts) > limit {
		// All points with an ordinary error at first, then the other ones
		c.Rng.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		pts = pts[:limit]
	}
	for _, p := range pts {
		kind := kinds[p.k]
		armed, n, hit := true, 0, false
		h := &Hooks{}
		h.Point = func(k string) error {
			mu.Lock()
			defer mu.Unlock()
			if !armed {
				return nil
			}
			n++
			if n-1 == p.k || p.sticky && n-1 > p.k && strings.SplitN(k, ".", 2)[0] == strings.SplitN(kind, ".", 2)[0] {
				hit = true
				return p.err
			}
			return nil
		}
		e := base.open(c, h, c10Over[op.name])
		what := fmt.Sprintf("%s with %q at point %d of %d (%s, sticky: %v)", op.name, p.err, p.k, len(kinds), kind, p.sticky)
		c.Trace("%s", what)
		err := op.run(e)
		mu.Lock()
		armed = false
		hit2 := hit
		mu.Unlock()
		c.Trace("  -> %v", err)
		if hit2 {
			c.Count("faults injected", 1)
			c.Count("faults at "+strings.SplitN(kind, ".", 2)[0], 1)
			if err != nil {
				c.Count("calls which failed", 1)
			}
			c.Eval(fmt.Sprintf("%s|%v|%d|%v|%v", op.name, cfg, p.k, p.err, p.sticky))
		}
		e.probe(what)
		e.Destroy()
	}
	c.Sample("%s [%v]: %d seam points, %d of %d faults", op.name, cfg, len(kinds), len(pts), all)
}

// rejections performs calls which are refused.
func rejections(c *Ctx, cfg Cfg) {
	base := newC10Base(c, cfg)
	calls := []struct {
		name string
		run  func(e *c10Env) error
	}{}
	add := func(name string, run func(e *c10Env) error) {
		calls = append(calls, struct {
			name string
			run  func(e *c10Env) error
		}{name, run})
	}
	for _, op := range []Op{
		{K: "create", A: "/none/x"}, {K: "create", A: "/a/x"}, {K: "create", A: "/d"}, {K: "create", A: ""}, {K: "mkdir", A: "/d"}, {K: "mkdir", A: "/a/x"}, {K: "mkdir", A: "/none/x"}, {K: "mkdirall", A: "/a/x/y"},
		{K: "mkdir", A: "/l"}, {K: "remove", A: "/none"}, {K: "remove", A: "/d"}, {K: "removeall", A: "/none"}, {K: "rename", A: "/none", B: "/x"}, {K: "rename", A: "/a", B: "/none/x"}, {K: "rename", A: "/a", B: "/d"},
		{K: "rename", A: "/d", B: "/a"}, {K: "rename", A: "/d", B: "/d/e"}, {K: "rename", A: "", B: "/x"}, {K: "rename", A: "/a", B: ""}, {K: "rename", A: "/", B: "/x"}, {K: "chmod", A: "/none"}, {K: "chown", A: "/none"}, {K: "chtimes", A: "/none"}, {K: "chmod", A: ""},
		{K: "stat", A: "/none"}, {K: "stat", A: ""}, {K: "list", A: "/none"}, {K: "list", A: "/a"}, {K: "read", A: "/d"}, {K: "read", A: "/none"}, {K: "symlink", A: "/a", B: "/d"}, {K: "symlink", A: "/a", B: "/none/x"}, {K: "symlink", A: "", B: ""}, {K: "symlink", A: "/", B: "/"},
		{K: "open", A: "/a", Flag: os.O_CREATE | os.O_EXCL | os.O_RDWR}, {K: "open", A: "/none"}, {K: "open", A: "/d", Flag: os.O_RDWR}, {K: "open", A: "/d", Acts: []Act{{K: "read", N: 10}, {K: "seek", N: 3}, {K: "write", D: data(3)}, {K: "trunc", N: 3}, {K: "sync"}}},
		{K: "open", A: "/a", Acts: []Act{{K: "seek", N: -3}, {K: "seek", N: 3, W: 9}, {K: "write", D: data(3)}, {K: "trunc", N: 3}, {K: "readat", N: -4, W: 3}}},
		{K: "open", A: "/a", Flag: os.O_WRONLY, Acts: []Act{{K: "read", N: 3}, {K: "trunc", N: -3}, {K: "writeat", N: -3, D: data(3)}, {K: "seek", N: -3}}},
		{K: "opdelete", A: "/none"}, {K: "opdelete", A: ""}, {K: "opmove", A: "/none", B: "/x"}, {K: "opmove", A: "/a", B: "/a"}, {K: "opmove", A: "", B: "/x"}, {K: "opmove", A: "/d", B: "/d/e"},
		{K: "update", N: 0, Batch: []BatchEnt{{Path: "/none", Perm: 0o644}}}, {K: "update", N: 1, Batch: []BatchEnt{{Path: "/none/x", Perm: 0o644, D: data(3)}}}, {K: "archive"}, {K: "update"},
	} {
		op := op
		add(op.String(), func(e *c10Env) error { return e.exec(op) })
	}
	add("restore of nothing", func(e *c10Env) error { return e.restore("/none", "", false) })
	add("restore of an empty name", func(e *c10Env) error { return e.restore("", "", false) })
	add("archive with an unsupported level", func(e *c10Env) error {
		_, err := e.W.Archive(e.src(ent("/s", 700)), "bogus", false, false)
		return err
	})
	add("update with an unsupported level", func(e *c10Env) error {
		_, err := e.W.Update(e.src(ent("/a", 700)), "bogus", true, false)
		return err
	})
	add("initialize with an unsupported level", func(e *c10Env) error { return e.W.Initialize("/", 0o755, "bogus") })
	add("a source which does not exist", func(e *c10Env) error {
		_, err := e.W.Archive(func() (config.FileConfig, error) { return config.FileConfig{}, os.ErrNotExist }, e.Cfg.Level, false, false)
		return err
	})
	for _, d := range []int{-600, -1, 1, 600} {
		d := d
		for _, update := range []bool{false, true} {
			update := update
			add(fmt.Sprintf("a source whose size is off by %d (update: %v)", d, update), func(e *c10Env) error {
				next := e.src(ent("/a", 700))
				src := func() (config.FileConfig, error) {
					f, err := next()
					if err == nil {
						i := f.Info.(SrcInfo)
						i.S += int64(d)
						f.Info = i
					}
					return f, err
				}
				var err error
				if update {
					_, err = e.W.Update(src, e.Cfg.Level, true, false)
				} else {
					_, err = e.W.Archive(src, e.Cfg.Level, false, false)
				}
				return err
			})
			add(fmt.Sprintf("a source which changes by %d when it is read again (update: %v)", d, update), func(e *c10Env) error {
				next := e.src(ent("/a", 700))
				n := 0
				src := func() (config.FileConfig, error) {
					f, err := next()
					f.GetFile = func() (io.ReadSeekCloser, error) {
						n++
						size := 700
						if n > 1 {
							size += d
						}
						return nopCloserRS{bytes.NewReader(make([]byte, size))}, nil
					}
					return f, err
				}
				var err error
				if update {
					_, err = e.W.Update(src, e.Cfg.Level, true, false)
				} else {
					_, err = e.W.Archive(src, e.Cfg.Level, false, false)
				}
				return err
			})
		}
	}
	for _, expr := range []string{"[", "(", "*", "a{2,1}", "\\"} {
		expr := expr
		add("find "+expr, func(e *c10Env) error { _, err := inventory.Find(e.Meta, expr, nil); return err })
	}
	add("list of nothing", func(e *c10Env) error { _, err := inventory.List(e.Meta, "/none", -1, nil); return err })
	add("stat of nothing", func(e *c10Env) error { _, err := inventory.Stat(e.Meta, "/none", true, nil); return err })
	for _, p := range [][2]int{{1000, 0}, {0, 1000}, {1, 1}, {1 << 30, 3}, {0, 1}} {
		p := p
		add(fmt.Sprintf("query at %v", p), func(e *c10Env) error { _, _, err := e.Query(p[0], p[1]); return err })
		add(fmt.Sprintf("fetch at %v", p), func(e *c10Env) error { _, _, err := e.fetchHdr(p[0], p[1]); return err })
		add(fmt.Sprintf("index at %v", p), func(e *c10Env) error { return e.Index(p[0], p[1], false, nil) })
	}
	// Files which are used after they have been closed
	add("a closed file", func(e *c10Env) error {
		f, err := e.FS.OpenFile("/a", os.O_RDWR, 0)
		if err != nil {
			return err
		}
		_ = f.Close()
		for _, a := range []Act{{K: "read", N: 3}, {K: "seek"}, {K: "write", D: data(3)}, {K: "trunc"}, {K: "sync"}, {K: "stat"}, {K: "readat", N: 1}} {
			_ = execAct(f, a)
		}
		return f.Close()
	})
	for _, call := range calls {
		h := &Hooks{}
		e := base.open(c, h, false)
		c.Trace("%s", call.name)
		err := call.run(e)
		c.Trace("  -> %v", err)
		if err != nil {
			c.Count("rejected calls", 1)
		}
		c.Eval(fmt.Sprintf("%s|%v", call.name, cfg))
		e.probe(call.name)
		e.Destroy()
	}

	// Configurations which are not supported
	for i := 0; i < 8; i++ {
		bad := base.cfg
		keys := keysFor(base.cfg, "alice")
		what := ""
		switch i {
		case 0:
			bad.Comp, what = "bogus", "compression format"
		case 1:
			bad.Enc, what = "bogus", "encryption format"
		case 2:
			bad.Sig, what = "bogus", "signature format"
		case 3:
			bad.Comp, bad.Level, what = config.CompressionFormatZStandardKey, "bogus", "level"
		case 4:
			bad.Enc, keys.EncRecipient, keys.EncIdentity, what = config.EncryptionFormatAgeKey, 7, nil, "encryption key"
		case 5:
			bad.Enc, keys.EncRecipient, keys.EncIdentity, what = config.EncryptionFormatPGPKey, nil, "x", "encryption key"
		case 6:
			bad.Sig, keys.SigRecipient, keys.SigIdentity, what = config.SignatureFormatPGPKey, nil, 7, "signature key"
		case 7:
			bad.Sig, keys.SigRecipient, keys.SigIdentity, what = config.SignatureFormatMinisignKey, 7, nil, "signature key"
		}
		for _, op := range c10Ops {
			if op.name == "rejections" || op.name == "real faults" {
				continue
			}
			dir := filepath.Join(c.Base, fmt.Sprintf("f%d", nextID()))
			must(os.MkdirAll(dir, 0o700))
			h := &Hooks{}
			o := Opts{Hooks: h, Keys: &keys}
			drive, db := filepath.Join(dir, "drive.tar"), filepath.Join(dir, "index.sqlite")
			if bad.Tape {
				o.Tape = NewEmuTape(bad.RecordSize * 512)
				o.Tape.objs = append(o.Tape.objs, base.objs...)
			} else {
				must(os.WriteFile(drive, base.drive, 0o600))
			}
			must(os.WriteFile(db, base.db, 0o600))
			r, err := OpenRig(bad, dir, drive, db, o)
			must(err)
			e := &c10Env{Rig: r, h: h, c: c}
			name := fmt.Sprintf("%s with an unsupported %s", op.name, what)
			c.Trace("%s", name)
			err = op.run(e)
			c.Trace("  -> %v", err)
			if err != nil {
				c.Count("rejected calls", 1)
			}
			c.Eval(fmt.Sprintf("%s|%d|%v", name, i, cfg))
			e.probe(name)
			e.Destroy()
		}
	}
}

// realFaults uses drives and indexes which really do not work.
func realFaults(c *Ctx, cfg Cfg) {
	if cfg.Tape {
		cfg.Tape = false
	}
	base := newC10Base(c, cfg)
	swap := func(e *c10Env, f func(drive string)) func() {
		must(os.Rename(e.Drive, e.Drive+".away"))
		f(e.Drive)
		return func() {
			_ = os.RemoveAll(e.Drive)
			must(os.Rename(e.Drive+".away", e.Drive))
		}
	}
	drives := []struct {
		name  string
		spoil func(e *c10Env) func()
	}{
		{"a drive which is a directory", func(e *c10Env) func() { return swap(e, func(d string) { must(os.Mkdir(d, 0o700)) }) }},
		{"a drive which does not exist", func(e *c10Env) func() { return swap(e, func(d string) {}) }},
		{"a drive which is a device without tape calls", func(e *c10Env) func() { return swap(e, func(d string) { must(os.Symlink("/dev/null", d)) }) }},
		{"a drive which is a full device", func(e *c10Env) func() { return swap(e, func(d string) { must(os.Symlink("/dev/full", d)) }) }},
		{"a drive in a missing directory", func(e *c10Env) func() {
			return swap(e, func(d string) { must(os.Symlink(filepath.Join(filepath.Dir(d), "none", "x"), d)) })
		}},
		{"a drive which is a loop of links", func(e *c10Env) func() { return swap(e, func(d string) { must(os.Symlink(d, d)) }) }},
		{"an empty drive", func(e *c10Env) func() { return swap(e, func(d string) { must(os.WriteFile(d, nil, 0o600)) }) }},
		{"a drive with garbage", func(e *c10Env) func() {
			return swap(e, func(d string) { must(os.WriteFile(d, (&Data{Seed: 9, Size: 40000}).Bytes(), 0o600)) })
		}},
		{"a drive with a part of the tape", func(e *c10Env) func() {
			return swap(e, func(d string) { must(os.WriteFile(d, base.drive[:len(base.drive)/2+100], 0o600)) })
		}},
	}
	usable := func(e *c10Env, name string) {
		// Once the fault is gone, the drive can be used again
		if b, err := readAll(e.FS, "/d/y"); err != nil || !bytes.Equal(b, data(1).Bytes()) {
			c.Violate("%s: afterwards, /d/y can not be read: %v [%v]", name, err, cfg)
		}
	}
	for _, d := range drives {
		for _, op := range c10Ops {
			if op.name == "rejections" || op.name == "real faults" {
				continue
			}
			h := &Hooks{}
			e := base.open(c, h, false)
			heal := d.spoil(e)
			name := op.name + " on " + d.name
			c.Trace("%s", name)
			err := op.run(e)
			c.Trace("  -> %v", err)
			e.free(name)
			// The next call on the same drive returns too
			_ = e.exec(Op{K: "create", A: "/again"})
			_, _ = e.RestoreBytes("/a")
			heal()
			c.Count("real drive faults", 1)
			c.Eval(fmt.Sprintf("%s|%v", name, cfg))
			if _, serr := e.Meta.Metadata.GetHeader(context.Background(), "/d/y"); serr == nil && !strings.Contains(op.name, "overwrite") && !strings.Contains(op.name, "initialize") && !strings.Contains(op.name, "index") &&
				(strings.HasPrefix(d.name, "a drive which is a") || strings.HasPrefix(d.name, "a drive in")) {
				usable(e, name)
			}
			e.probe(name)
			e.Destroy()
		}
	}
	for _, how := range []string{"closed", "without table", "not a database", "read-only"} {
		for _, op := range c10Ops {
			if op.name == "rejections" || op.name == "real faults" {
				continue
			}
			h := &Hooks{}
			e := base.open(c, h, false)
			db := findDB(reflect.ValueOf(e.Persister))
			if db == nil {
				c.Inconclusive("the index has no connection")
			}
			switch how {
			case "closed":
				_ = db.Close()
			case "without table":
				_, err := db.Exec("drop table headers")
				must(err)
			case "not a database":
				must(os.WriteFile(e.DB, bytes.Repeat([]byte("garbage "), 3000), 0o600))
			case "read-only":
				_, err := db.Exec("pragma query_only = 1")
				must(err)
			}
			name := op.name + " with an index which is " + how
			c.Trace("%s", name)
			err := op.run(e)
			c.Trace("  -> %v", err)
			c.Count("real index faults", 1)
			c.Eval(fmt.Sprintf("%s|%v", name, cfg))
			e.probe(name)
			if how == "read-only" {
				_, err := db.Exec("pragma query_only = 0")
				must(err)
				e.probe(name)
			}
			e.Destroy()
		}
	}
	// The manager of the drive on its own
	mgr(c, cfg)
}

func mgr(c *Ctx, cfg Cfg) {
	dir := filepath.Join(c.Base, fmt.Sprintf("m%d", nextID()))
	must(os.MkdirAll(dir, 0o700))
	for _, overwrite := range []bool{false, true} {
		for _, bad := range []string{dir, filepath.Join(dir, "none", "x"), "/dev/null", "/dev/full", ""} {
			m := tape.NewTapeManager(bad, mtio.MagneticTapeIO{}, cfg.RecordSize, overwrite)
			c.Trace("drive manager on %q", bad)
			for i := 0; i < 3; i++ {
				if w, err := m.GetWriter(); err == nil {
					_, _ = w.Drive.Write(make([]byte, 512))
					_ = m.Close()
				}
				if r, err := m.GetReader(); err == nil {
					_, _ = r.Drive.Read(make([]byte, 512))
					_ = m.Close()
				}
			}
			c.Eval(fmt.Sprintf("manager|%q|%v", filepath.Base(bad), overwrite))
		}
	}
}
