package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C17: trees are generated, written by tar writers other than STFS and opened through the documented composition. The oracle
// for the original members is the generated tree; the one for further calls is the reference model which starts with it.

func init() {
	register(&Prop{
		ID: "C17", Level: "exploration",
		Rule: "distinct (tree, writer, format, root style, order, record size) combinations: generated trees written by Go's archive/tar, Python's tarfile and GNU tar and opened through cache.NewCacheFilesystem, all members and all spellings of their paths compared with the generated tree, before and after further calls and rebuilding the index",
		Plan: func(tier string) int { return map[string]int{"quick": 900, "thorough": 14000}[tier] },
		Run:  runC17,
		Need: []string{"archives opened", "members compared", "spellings compared", "ustar archives", "pax archives", "gnu archives",
			"archives relative to ./", "archives relative to /", "archives under a named top directory", "archives whose top directory isn't their first member",
			"members with names longer than 100 bytes", "members with names longer than 255 bytes", "files added afterwards", "calls compared with the reference model", "rebuilds compared", "tape drive archives",
			"archives opened with memory read caches", "archives opened with dir read caches"},
		Assumptions: []string{"no compression, encryption or signature, which foreign archives don't have", "all directories have entries of their own", "tape drives are emulated"},
		Limit:       300 * time.Second,
	})
}

// member17 is a member of a foreign archive, with its path below the top directory.
type member17 struct {
	Path string
	Dir  bool
	Data []byte
	Mode int64
	Mod  time.Time
}

func tree17(c *Ctx, max int) []member17 {
	longest := max
	names := []string{"a", "b", "c", "d.txt", "e f", "é", "日本", "x.tar", "%", "_", "a%b", "A", ".hidden", "-", "..x", "x..", "'", "\"", "\\", "~", "aa", "ab", "stfs", "top", "*", "?", "[a]"}
	rnd := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + c.Rng.Intn(26))
		}
		return string(b)
	}
	name := func() string {
		switch c.Rng.Intn(14) {
		case 0:
			return rnd(90 + c.Rng.Intn(20))
		case 1:
			return rnd(1 + c.Rng.Intn(240))
		case 2:
			return rnd(1 + c.Rng.Intn(30))
		}
		return names[c.Rng.Intn(len(names))]
	}
	dirs := []string{""}
	seen := map[string]bool{"": true}
	out := []member17{}
	n := c.Rng.Intn(24)
	wide := c.Rng.Intn(8) == 0
	if wide {
		n += 60
	}
	for i := 0; i < n; i++ {
		d := dirs[c.Rng.Intn(len(dirs))]
		if wide && len(dirs) > 1 {
			d = dirs[1]
		}
		if c.Rng.Intn(4) == 0 {
			d = dirs[len(dirs)-1]
		}
		p := path.Join(d, name())
		if seen[p] || len(p) > longest || len(path.Base(p)) > 250 {
			continue
		}
		seen[p] = true
		m := member17{Path: p, Dir: c.Rng.Intn(3) == 0 || wide && i == 0, Mode: int64(c.Rng.Intn(0o1000)), Mod: time.Unix(1_600_000_000+int64(c.Rng.Intn(1<<20)), 0)}
		if m.Dir {
			dirs = append(dirs, p)
		} else {
			sizes := []int{0, 1, 10, 511, 512, 513, 1023, 1024, 1025, 5000, 10240, 20000}
			m.Data = make([]byte, sizes[c.Rng.Intn(len(sizes))])
			if c.Rng.Intn(3) == 0 {
				m.Data = make([]byte, c.Rng.Intn(4000))
			}
			if c.Rng.Intn(4) > 0 { // Zeros look like the end of an archive
				rand.New(rand.NewSource(c.Rng.Int63())).Read(m.Data)
			}
		}
		out = append(out, m)
	}
	return out
}

// archive17 is a foreign archive.
type archive17 struct {
	desc    string
	writer  string
	format  string
	style   string
	top     string // the name of the top directory
	members []member17
	bytes   []byte
	links   bool
}

// name17 is the name of a member within the archive.
func (a *archive17) name(p string) string {
	switch a.style {
	case "dot":
		if p == "" {
			return a.top
		}
		return "./" + p
	case "slash":
		return "/" + p
	}
	if p == "" {
		return a.top
	}
	return strings.TrimSuffix(a.top, "/") + "/" + p
}

func archiveOf17(c *Ctx) *archive17 {
	a := &archive17{}
	a.format = []string{"ustar", "pax", "gnu"}[c.Rng.Intn(3)]
	a.style = []string{"dot", "slash", "named"}[c.Rng.Intn(3)]
	a.writer = []string{"go", "go", "go", "python", "gnutar"}[c.Rng.Intn(5)]
	max := 700
	if a.format == "ustar" {
		max = 90 // Everything fits without splitting; splits are tried below
		if c.Rng.Intn(2) == 0 {
			max = 150
		}
	}
	a.members = tree17(c, max)
	switch a.style {
	case "dot":
		a.top = []string{"./", "."}[c.Rng.Intn(2)]
	case "slash":
		a.top = "/"
	default:
		a.top = []string{"top", "dir", "a", "my dir", "é", "top-1.2.3", ".hidden", "t%p", strings.Repeat("x", 80), "stfs"}[c.Rng.Intn(10)]
		if a.format == "ustar" && a.top == "é" {
			a.top = "e"
		}
		switch c.Rng.Intn(5) {
		case 0: // tar -c /home/user/dir
			a.top = "home/user/" + a.top
		case 1: // tar -c -P /home/user/dir
			a.top = []string{"/", "/home/user/"}[c.Rng.Intn(2)] + a.top
		case 2: // tar -c ./dir
			a.top = "./" + a.top
		}
		if c.Rng.Intn(2) == 0 {
			a.top += "/"
		}
	}
	// A member can have any place, and so can the top directory
	order := []member17{{Path: "", Dir: true, Mode: 0o755, Mod: time.Unix(1_600_000_000, 0)}}
	order = append(order, a.members...)
	shuffled := c.Rng.Intn(4) == 0 && a.writer != "gnutar"
	if shuffled {
		c.Rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	if a.writer == "gnutar" {
		if b, ok := gnuTar17(c, a); ok {
			a.bytes = b
		} else {
			a.writer = "go"
		}
	}
	if a.writer == "python" && a.format == "ustar" && strings.HasPrefix(a.top, "/") {
		a.writer = "go" // tarfile drops the slash when it splits such names
	}
	if a.writer == "python" {
		if b, ok := pythonTar17(c, a, order); ok {
			a.bytes = b
		} else {
			a.writer = "go"
		}
	}
	if a.writer == "go" {
		for {
			b, err := goTar17(c, a, order)
			if err == nil {
				a.bytes = b
				break
			}
			if a.format != "ustar" || len(order) == 0 {
				panic(fmt.Sprintf("harness: writing the archive: %v", err))
			}
			// This name doesn't fit: leave it and everything below it out
			var bad *badName
			if !errors.As(err, &bad) {
				panic(err)
			}
			drop := func(l []member17) []member17 {
				out := []member17{}
				for _, m := range l {
					if m.Path != bad.path && !strings.HasPrefix(m.Path, bad.path+"/") {
						out = append(out, m)
					}
				}
				return out
			}
			order, a.members = drop(order), drop(a.members)
		}
	}
	if shuffled && order[0].Path != "" && len(order) > 1 && a.writer != "gnutar" {
		c.Count("archives whose top directory isn't their first member", 1)
	}
	a.desc = fmt.Sprintf("%s %s archive with %d members below %q (shuffled: %v)", a.writer, a.format, len(a.members), a.top, shuffled)
	return a
}

type badName struct {
	path string
	err  error
}

func (e *badName) Error() string { return e.err.Error() }

func goTar17(c *Ctx, a *archive17, order []member17) ([]byte, error) {
	buf := &bytes.Buffer{}
	w := tar.NewWriter(buf)
	format := map[string]tar.Format{"ustar": tar.FormatUSTAR, "pax": tar.FormatPAX, "gnu": tar.FormatGNU}[a.format]
	slash := c.Rng.Intn(4) > 0
	times := c.Rng.Intn(2) == 0
	if a.format == "pax" && c.Rng.Intn(3) == 0 {
		// Like the archives of git
		if err := w.WriteHeader(&tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "pax_global_header", PAXRecords: map[string]string{"comment": strings.Repeat("0123456789", 4)}, Format: tar.FormatPAX}); err != nil {
			return nil, err
		}
		c.Count("archives with a global header", 1)
	}
	for _, m := range order {
		h := &tar.Header{Name: a.name(m.Path), Mode: m.Mode, ModTime: m.Mod, Format: format, Typeflag: tar.TypeReg, Size: int64(len(m.Data)), Uid: 1000, Gid: 1000, Uname: "u", Gname: "g"}
		if m.Dir {
			h.Typeflag = tar.TypeDir
			if slash && m.Path != "" {
				h.Name += "/"
			}
		}
		if times && a.format != "ustar" {
			h.AccessTime, h.ChangeTime = m.Mod.Add(time.Second), m.Mod.Add(2*time.Second)
			if a.format == "pax" {
				h.ModTime = m.Mod.Add(123456789)
			}
		}
		if err := w.WriteHeader(h); err != nil {
			return nil, &badName{m.Path, err}
		}
		if _, err := w.Write(m.Data); err != nil {
			return nil, err
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// spool17 writes a tree to a directory.
func spool17(c *Ctx, a *archive17, top string) error {
	ms := append([]member17{}, a.members...)
	sort.Slice(ms, func(i, j int) bool { return ms[i].Path < ms[j].Path })
	if err := os.MkdirAll(top, 0o755); err != nil {
		return err
	}
	for _, m := range ms {
		p := filepath.Join(top, m.Path)
		if m.Dir {
			if err := os.MkdirAll(p, 0o755); err != nil {
				return err
			}
		} else if err := os.WriteFile(p, m.Data, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func gnuTar17(c *Ctx, a *archive17) ([]byte, bool) {
	bin, err := exec.LookPath("tar")
	if err != nil {
		return nil, false
	}
	dir := filepath.Join(c.Base, fmt.Sprintf("t%d", nextID()))
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.tar")
	args := []string{"--format=" + a.format, "-b", fmt.Sprint([]int{1, 2, 20}[c.Rng.Intn(3)]), "-cf", out}
	switch a.style {
	case "named":
		if err := spool17(c, a, filepath.Join(dir, "in", a.top)); err != nil {
			return nil, false
		}
		args = append(args, "-C", filepath.Join(dir, "in"), "--", strings.TrimPrefix(a.top, "/"))
		if strings.HasPrefix(a.top, "/") {
			args = append(args[:len(args)-2], "-P", "--transform", "s,^,/,", "--", a.top[1:])
		}
	case "dot":
		if err := spool17(c, a, filepath.Join(dir, "in")); err != nil {
			return nil, false
		}
		args = append(args, "-C", filepath.Join(dir, "in"), "--", a.top)
	default:
		if err := spool17(c, a, filepath.Join(dir, "in")); err != nil {
			return nil, false
		}
		args = append(args, "-P", "-C", filepath.Join(dir, "in"), "--transform", `s,^\.\(/\|$\),/,`, "--", ".")
	}
	cmd := exec.Command(bin, args...)
	if b, err := cmd.CombinedOutput(); err != nil {
		if !bytes.Contains(b, []byte("too long")) {
			c.Inconclusive("tar: %v: %s", err, b)
		}
		return nil, false
	}
	b, err := os.ReadFile(out)
	must(err)
	c.Count("archives of GNU tar", 1)
	return b, true
}

const python17 = `
import sys, tarfile, io, json
spec = json.load(sys.stdin)
fmt = {"ustar": tarfile.USTAR_FORMAT, "pax": tarfile.PAX_FORMAT, "gnu": tarfile.GNU_FORMAT}[spec["format"]]
t = tarfile.open(spec["out"], "w", format=fmt, pax_headers=spec["global"])
for m in spec["members"]:
    i = tarfile.TarInfo(m["name"])
    i.name = m["name"]
    i.mode = m["mode"]
    i.mtime = m["mod"]
    d = bytes.fromhex(m["data"])
    if m["dir"]:
        i.type = tarfile.DIRTYPE
        t.addfile(i)
    else:
        i.size = len(d)
        t.addfile(i, io.BytesIO(d))
t.close()
`

func pythonTar17(c *Ctx, a *archive17, order []member17) ([]byte, bool) {
	bin, err := exec.LookPath("python3")
	if err != nil {
		return nil, false
	}
	type pm struct {
		Name string  `json:"name"`
		Mode int64   `json:"mode"`
		Mod  float64 `json:"mod"`
		Data string  `json:"data"`
		Dir  bool    `json:"dir"`
	}
	out := filepath.Join(c.Base, fmt.Sprintf("p%d.tar", nextID()))
	defer os.Remove(out)
	spec := map[string]interface{}{"format": a.format, "out": out, "global": map[string]string{}}
	if a.format == "pax" && c.Rng.Intn(3) == 0 {
		spec["global"] = map[string]string{"comment": "a global comment"}
		c.Count("archives with a global header", 1)
	}
	ms := []pm{}
	frac := 0.0
	if a.format == "pax" && c.Rng.Intn(2) == 0 {
		frac = 0.25
	}
	for _, m := range order {
		ms = append(ms, pm{Name: a.name(m.Path), Mode: m.Mode, Mod: float64(m.Mod.Unix()) + frac, Data: fmt.Sprintf("%x", m.Data), Dir: m.Dir})
	}
	spec["members"] = ms
	cmd := exec.Command(bin, "-c", python17)
	cmd.Stdin = bytes.NewReader(mustJSON(spec))
	if b, err := cmd.CombinedOutput(); err != nil {
		if !bytes.Contains(b, []byte("too long")) {
			c.Inconclusive("tarfile: %v: %s", err, b)
		}
		return nil, false
	}
	b, err := os.ReadFile(out)
	must(err)
	c.Count("archives of Python's tarfile", 1)
	return b, true
}

// compose17 opens a tape like the documentation does.
func compose17(c *Ctx, cfg Cfg, drive string, db string, o Opts, what string, indexed bool) *Rig {
	o.DBMem = db == ""
	r, err := OpenRig(cfg, c.Base, drive, db, o)
	must(err)
	if indexed {
		if err := r.Index(0, 0, true, nil); err != nil {
			c.Violate("%s: indexing it: %v [%v]", what, err, cfg)
		}
	}
	root, err := r.FS.Initialize("/", os.ModePerm)
	if err != nil {
		c.Violate("%s: initialising: %v [%v]", what, err, cfg)
	}
	r.Root = root
	r.Wrapped, err = cache.NewCacheFilesystem(r.FS, root, config.NoneKey, 0, "")
	if err != nil {
		c.Violate("%s: composing with the root %q: %v [%v]", what, root, err, cfg)
	}
	return r
}

// members17 compares what a file system shows with the members.
func members17(c *Ctx, f afero.Fs, want map[string]member17, extra map[string]bool, what string, cfg Cfg) {
	kids := map[string][]string{}
	for p := range want {
		if p != "/" {
			kids[path.Dir(p)] = append(kids[path.Dir(p)], path.Base(p))
		}
	}
	paths := make([]string, 0, len(want))
	for p := range want {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for i, p := range paths {
		m := want[p]
		spellings := []string{p}
		if p == "/" {
			spellings = append(spellings, ".", "./", "")
		} else {
			spellings = append(spellings, p[1:], "."+p)
			d, b := path.Split(p)
			spellings = append(spellings, []string{d + "/" + b, d + "./" + b, d + "gone/../" + b, "./" + strings.TrimPrefix(d, "/") + "/" + b}[i%4])
			if m.Dir && i%2 == 0 {
				spellings = append(spellings, p+"/", p[1:]+"/", "."+p+"/")
			}
		}
		for j, s := range spellings {
			info, err := f.Stat(s)
			if err != nil {
				c.Violate("%s: Stat(%q), a spelling of the member %q: %v [%v]", what, s, p, err, cfg)
			}
			if info.IsDir() != m.Dir || !m.Dir && (info.Size() != int64(len(m.Data)) || !info.Mode().IsRegular()) {
				c.Violate("%s: Stat(%q), a spelling of the member %q: is a directory: %v, size: %d, mode: %v; it was written as a directory: %v, size: %d [%v]", what, s, p, info.IsDir(), info.Size(), info.Mode(), m.Dir, len(m.Data), cfg)
			}
			if p != "/" && info.Name() != path.Base(p) {
				c.Violate("%s: Stat(%q): reports the name %q [%v]", what, s, info.Name(), cfg)
			}
			c.Count("spellings compared", 1)
			if j > 0 && i%3 != 0 && len(want) > 12 {
				continue
			}
			if !m.Dir {
				b, err := readAll(f, s)
				if err != nil || !bytes.Equal(b, m.Data) {
					c.Violate("%s: reading %q, a spelling of the member %q: %d bytes (%v), but %d others were written [%v]", what, s, p, len(b), err, len(m.Data), cfg)
				}
				continue
			}
			h, err := f.Open(s)
			if err != nil {
				c.Violate("%s: Open(%q), a spelling of the directory %q: %v [%v]", what, s, p, err, cfg)
			}
			infos, err := h.Readdir(-1)
			if cerr := h.Close(); err == nil {
				err = cerr
			}
			if err != nil {
				c.Violate("%s: Readdir of %q: %v [%v]", what, s, err, cfg)
			}
			got := []string{}
			for _, i := range infos {
				if extra[path.Join(p, i.Name())] {
					continue
				}
				got = append(got, i.Name())
				q := want[path.Join(p, i.Name())]
				if i.IsDir() != q.Dir || !q.Dir && i.Size() != int64(len(q.Data)) {
					c.Violate("%s: Readdir of %q lists %q as a directory: %v, with the size %d; it was written as a directory: %v, with the size %d [%v]", what, s, i.Name(), i.IsDir(), i.Size(), q.Dir, len(q.Data), cfg)
				}
			}
			names := []string{}
			for _, n := range kids[p] {
				if !extra[path.Join(p, n)] {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			sort.Strings(got)
			if strings.Join(names, "\x00") != strings.Join(got, "\x00") {
				c.Violate("%s: Readdir of %q, a spelling of the directory %q, lists %q, but its members are %q [%v]", what, s, p, got, names, cfg)
			}
		}
		c.Count("members compared", 1)
	}
}

func runC17(c *Ctx) {
	a := archiveOf17(c)
	c.Trace("%s", a.desc)
	cfg := Cfg{Comp: config.NoneKey, Enc: config.NoneKey, Sig: config.NoneKey, RecordSize: recordSizes[c.Rng.Intn(len(recordSizes))], Cache: caches(c.Rng)}
	o := Opts{}
	dir := filepath.Join(c.Base, fmt.Sprintf("f%d", nextID()))
	must(os.MkdirAll(dir, 0o700))
	drive := filepath.Join(dir, "drive.tar")
	content := a.bytes
	if c.Idx%6 == 5 {
		// Written to a tape with its record size
		cfg.Tape = true
		if cfg.RecordSize > 64 {
			cfg.RecordSize = 20
		}
		o.Tape = NewEmuTape(cfg.RecordSize * 512)
		for len(content)%(cfg.RecordSize*512) != 0 {
			content = append(content, make([]byte, 512)...)
		}
		for i := 0; i < len(content); i += cfg.RecordSize * 512 {
			o.Tape.objs = append(o.Tape.objs, content[i:i+cfg.RecordSize*512])
		}
		o.Tape.objs = append(o.Tape.objs, nil)
		c.Count("tape drive archives", 1)
	} else {
		if c.Rng.Intn(8) == 0 && a.writer == "go" {
			content = content[:len(content)-1024] // Flushed, but not closed
		}
		must(os.WriteFile(drive, content, 0o600))
	}
	tapeNow := func() []byte {
		if o.Tape != nil {
			return o.Tape.Stream()
		}
		b, err := os.ReadFile(drive)
		must(err)
		return b
	}
	before := append([]byte{}, tapeNow()...)
	what := "the " + a.desc
	want := map[string]member17{"/": {Dir: true}}
	for _, m := range a.members {
		want["/"+m.Path] = m
		if n := len(a.name(m.Path)); n > 255 {
			c.Count("members with names longer than 255 bytes", 1)
		} else if n > 100 {
			c.Count("members with names longer than 100 bytes", 1)
		}
	}
	r := compose17(c, cfg, drive, filepath.Join(dir, "index.sqlite"), o, what, c.Rng.Intn(2) == 0)
	r.Dir = dir
	c.Count("archives opened", 1)
	c.Count(a.format+" archives", 1)
	c.Count(map[string]string{"dot": "archives relative to ./", "slash": "archives relative to /", "named": "archives under a named top directory"}[a.style], 1)
	if !bytes.Equal(tapeNow(), before) {
		c.Violate("%s: opening it changed it [%v]", what, cfg)
	}
	members17(c, r.View(), want, nil, what, cfg)
	for _, p := range []string{"/nope", "nope", "./nope", "/nope/nope"} {
		if _, ok := want[norm(p)]; ok {
			continue
		}
		if _, err := r.View().Stat(p); !errors.Is(err, os.ErrNotExist) {
			c.Violate("%s: Stat(%q): %v [%v]", what, p, err, cfg)
		}
	}
	if c.Rng.Intn(4) == 0 {
		cached17(c, r, want, what)
	}
	c.Eval(fmt.Sprintf("%d|%s|%d", c.Idx, a.desc, cfg.RecordSize))
	if c.Idx < 4 {
		c.Sample("%s: root %q [%v]", a.desc, r.Root, cfg)
	}

	// Files which are added, under any spelling
	added := map[string]member17{}
	dirs := []string{}
	for p, m := range want {
		if m.Dir {
			dirs = append(dirs, p)
		}
	}
	sort.Strings(dirs)
	for i := 0; i < 3; i++ {
		p := path.Join(dirs[c.Rng.Intn(len(dirs))], fmt.Sprintf("added%d", i))
		if len(path.Base(p)) > 250 {
			continue
		}
		b := make([]byte, c.Rng.Intn(3000))
		rand.New(rand.NewSource(c.Rng.Int63())).Read(b)
		s := []string{p, p[1:], "." + p}[c.Rng.Intn(3)]
		c.Trace("write %d bytes to %q", len(b), s)
		if i == 1 {
			if err := r.View().Mkdir(s, 0o755); err != nil {
				c.Violate("%s: Mkdir(%q): %v [%v]", what, s, err, cfg)
			}
			added[p] = member17{Dir: true}
			p, s = path.Join(p, "file"), s+"/file"
		}
		if err := writeAll(r.View(), s, b); err != nil {
			c.Violate("%s: writing %d bytes to %q: %v [%v]", what, len(b), s, err, cfg)
		}
		added[p] = member17{Data: b}
		c.Count("files added afterwards", 1)
	}
	for p, m := range added {
		want[p] = m
	}
	when := what + ", after adding files"
	members17(c, r.View(), want, nil, when, cfg)
	if !bytes.HasPrefix(tapeNow(), before) {
		c.Violate("%s: its members were overwritten [%v]", when, cfg)
	}
	rebuilt := func(when string) *Rig {
		n := compose17(c, cfg, drive, "", o, when+", rebuilt", c.Rng.Intn(2) == 0)
		if norm(n.Root) != norm(r.Root) {
			c.Violate("%s: the root is %q, but %q after rebuilding the index [%v]", when, r.Root, n.Root, cfg)
		}
		c.Count("rebuilds compared", 1)
		return n
	}
	n := rebuilt(when)
	members17(c, n.View(), want, nil, when+", rebuilt", cfg)

	// Arbitrary further calls; on the rebuilt instance half of the time
	live := r
	if c.Rng.Intn(2) == 0 {
		live, n = n, r
	}
	n.Close()
	further17(c, live, a, what, tapeNow, before, rebuilt)
	if a.writer == "go" && c.Rng.Intn(3) == 0 && len(a.members) > 0 {
		links17(c, a, cfg)
	}
}

// cached17 composes the file system with its read caches: members have to be the same at the first read, which fills the
// cache, and at the second one, which is served by it.
func cached17(c *Ctx, r *Rig, want map[string]member17, what string) {
	kind := []string{config.FileSystemCacheTypeMemory, config.FileSystemCacheTypeDir}[c.Rng.Intn(2)]
	ttl := []time.Duration{0, time.Hour, time.Nanosecond}[c.Rng.Intn(3)]
	dir := filepath.Join(c.Base, fmt.Sprintf("rc%d", nextID()))
	defer os.RemoveAll(dir)
	// What earlier caches left behind must not be shown
	must(os.MkdirAll(filepath.Join(dir, "left"), 0o700))
	must(os.WriteFile(filepath.Join(dir, "left", "behind"), []byte("x"), 0o600))
	f, err := cache.NewCacheFilesystem(r.FS, r.Root, kind, ttl, dir)
	if err != nil {
		c.Violate("%s: composing it with a %v read cache: %v [%v]", what, kind, err, r.Cfg)
	}
	for _, when := range []string{"an empty", "a filled"} {
		members17(c, f, want, nil, fmt.Sprintf("%s, through %s %v read cache with the TTL %v", what, when, kind, ttl), r.Cfg)
	}
	c.Count("archives opened with "+kind+" read caches", 1)
}

// further17 compares further calls with the reference model.
func further17(c *Ctx, r *Rig, a *archive17, what string, tapeNow func() []byte, before []byte, rebuilt func(string) *Rig) {
	tree, err := FullSnap(r.View())
	if err != nil {
		c.Violate("%s: %v [%v]", what, err, r.Cfg)
	}
	data := map[string][]byte{}
	for p, e := range tree {
		if !e.Dir {
			if data[p], err = readAll(r.View(), p); err != nil {
				c.Violate("%s: reading %q: %v [%v]", what, p, err, r.Cfg)
			}
		}
	}
	m := ModelFrom(tree, data)
	m.WPR = r.Cfg.WPR
	g := NewGen(c.Rng)
	g.Sizes = []int{0, 1, 100, 512, 600, 2000}
	if a.style == "named" {
		g.Spell = false // The base path view has a say in what it accepts
	}
	spell := func(p string) string {
		if a.style != "named" || p == "" || p == "/" {
			return p
		}
		p = norm(p)
		return []string{p, p[1:], "." + p}[c.Rng.Intn(3)]
	}
	for i := 0; i < c.Pick(10, 16); i++ {
		op := mutating(g, m.kinds())
		if c.Rng.Intn(6) == 0 {
			op = g.Next(m.kinds())
		}
		if a.style == "named" && (norm(op.A) == "/" && strings.HasPrefix(op.K, "mk") || op.B != "" && norm(op.B) == "/") {
			continue // The parents of the root don't have to exist, so there are several valid errors
		}
		op.A, op.B = spell(op.A), spell(op.B)
		stepModel(c, r, m, op)
		c.Count("calls compared with the reference model", 1)
		if i%5 == 4 {
			n := rebuilt(fmt.Sprintf("%s, after %s", what, op))
			s, err := FullSnap(n.View())
			if err != nil {
				c.Violate("%s, after %s, rebuilt: %v [%v]", what, op, err, r.Cfg)
			}
			if d := m.Check(s); d != "" {
				c.Violate("%s, after %s, rebuilt: %s [%v]", what, op, d, r.Cfg)
			}
			n.Close()
		}
	}
	if !bytes.HasPrefix(tapeNow(), before) {
		c.Violate("%s, after further calls: its members were overwritten [%v]", what, r.Cfg)
	}
}

// links17 adds links to an archive: all of its other members have to be there nevertheless.
func links17(c *Ctx, a *archive17, cfg Cfg) {
	cfg.Tape = false
	buf := &bytes.Buffer{}
	w := tar.NewWriter(buf)
	_ = w.WriteHeader(&tar.Header{Name: a.name(""), Typeflag: tar.TypeDir, Mode: 0o755})
	want := map[string]member17{"/": {Dir: true}}
	for _, m := range a.members {
		h := &tar.Header{Name: a.name(m.Path), Mode: 0o644, Typeflag: tar.TypeReg, Size: int64(len(m.Data))}
		if m.Dir {
			h.Typeflag = tar.TypeDir
		}
		must(w.WriteHeader(h))
		_, err := w.Write(m.Data)
		must(err)
		want["/"+m.Path] = m
	}
	target := a.members[c.Rng.Intn(len(a.members))]
	hard := !target.Dir && c.Rng.Intn(2) == 0
	h := &tar.Header{Name: a.name("a-link"), Mode: 0o777, Typeflag: tar.TypeSymlink, Linkname: target.Path}
	if hard {
		h.Typeflag, h.Linkname = tar.TypeLink, a.name(target.Path)
	}
	must(w.WriteHeader(h))
	must(w.Close())
	drive := filepath.Join(c.Base, fmt.Sprintf("l%d.tar", nextID()))
	must(os.WriteFile(drive, buf.Bytes(), 0o600))
	what := fmt.Sprintf("the %s, with a link of type %c from %q to %q", a.desc, h.Typeflag, h.Name, h.Linkname)
	r := compose17(c, cfg, drive, "", Opts{}, what, c.Rng.Intn(2) == 0)
	defer r.Close()
	if hard {
		want["/a-link"] = target
		members17(c, r.View(), want, nil, what, cfg)
		n := compose17(c, cfg, drive, "", Opts{}, what+", opened once more", false)
		members17(c, n.View(), want, nil, what+", opened once more", cfg)
		n.Close()
		c.Count("archives with hard links", 1)
		return
	}
	extra := map[string]bool{"/a-link": true} // STFS lists it under the name of its target
	for p := range want {
		extra[path.Join(p, path.Base(target.Path))] = true
	}
	members17(c, r.View(), want, extra, what, cfg)
	root, err := r.View().Open("/")
	must(err)
	names, err := root.Readdirnames(-1)
	must(err)
	listed := false
	for _, n := range names {
		listed = listed || n == "a-link"
	}
	must(root.Close())
	if !listed {
		c.Known("C17-foreign-symlinks", fmt.Sprintf("%s: the link isn't listed", what))
	}
	c.Count("archives with symbolic links", 1)
}
