package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C03: what is read back through every interface is compared with what was written, for every supported configuration.

func init() {
	register(&Prop{
		ID: "C03", Level: "exploration",
		Rule:        "distinct (compression, level, encryption, signature, cache, drive kind, record size, content size class) combinations whose round trips were compared byte by byte",
		Plan:        func(tier string) int { n := len(matrix()); return map[string]int{"quick": n, "thorough": n * 12}[tier] },
		Run:         runC03,
		Need:        []string{"contents read through the file system", "contents restored", "contents fetched", "tape drive configurations", "files written while others were open", "contents read while others were open"},
		Assumptions: []string{"tape drives are emulated (variable block mode); combinations which the code documents as unsupported on tapes are expected to be rejected"},
		Limit:       180 * time.Second,
	})
}

// matrix lists all supported combinations of formats, levels, caches and drive kinds.
func matrix() []Cfg {
	out := []Cfg{}
	for _, comp := range config.KnownCompressionFormats {
		for _, level := range config.KnownCompressionLevels {
			if comp == config.NoneKey && level != config.CompressionLevelFastestKey {
				continue
			}
			for _, enc := range config.KnownEncryptionFormats {
				for _, sig := range config.KnownSignatureFormats {
					for _, cache := range config.KnownWriteCacheTypes {
						out = append(out, Cfg{Comp: comp, Level: level, Enc: enc, Sig: sig, Cache: cache})
					}
					if comp == config.CompressionFormatParallelGZipKey || comp == config.CompressionFormatBrotliKey || sig == config.SignatureFormatMinisignKey {
						continue // only on regular drives
					}
					out = append(out, Cfg{Comp: comp, Level: level, Enc: enc, Sig: sig, Cache: config.WriteCacheTypeMemory, Tape: true})
				}
			}
		}
	}
	// Spread the expensive ones
	rand.New(rand.NewSource(7)).Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func contentOf(rng *rand.Rand, size, kind int) []byte {
	b := make([]byte, size)
	switch kind {
	case 0:
		rng.Read(b)
	case 1:
		for i := range b {
			b[i] = "the quick brown fox jumps over the lazy dog\n"[i%44]
		}
	case 2: // zeros
	case 3: // looks like a tar header, a trailer and so on
		rng.Read(b)
		for i := 0; i+512 <= len(b); i += 1024 {
			copy(b[i:], zeroBlock)
			copy(b[i:], "evil\x00")
			copy(b[i+257:], "ustar\x0000")
		}
	}
	return b
}

func runC03(c *Ctx) {
	m := matrix()
	cfg := m[c.Idx%len(m)]
	rss := []int{1, 2, 3, 5, 20, 64, 128, 300, 2048}
	cfg.RecordSize = rss[(c.Idx+c.Idx/len(m)+int(c.Seed))%len(rss)]
	if cfg.Tape {
		if cfg.RecordSize < 2 {
			cfg.RecordSize = 2 // zstd needs a window of at least 1 KiB
		}
		if cfg.RecordSize < 128 && (cfg.Comp == config.CompressionFormatGZipKey || cfg.Comp == config.CompressionFormatLZ4Key) {
			cfg.RecordSize = []int{128, 256, 300, 2048}[c.Idx%4]
		}
		c.Count("tape drive configurations", 1)
	}
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	rec := cfg.RecordSize * 512
	sizes := []int{0, 1, 2, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 32*1024 - 1, 32 * 1024, 65535, 65536, 65537}
	sizes = append(sizes, rec-1, rec, rec+1)
	if rec <= 1<<17 {
		sizes = append(sizes, 2*rec, 3*rec+7)
	}
	big := []int{100000, 262144, 262145}
	switch {
	case c.Idx%12 == 3:
		big = append(big, 1<<20+1, 1<<20)
	case c.Idx%24 == 5 && (c.Thorough() || cfg.Comp != config.CompressionFormatBrotliKey):
		big = append(big, 5<<20+3)
	case c.Thorough() && c.Idx%5 == 0:
		big = append(big, 9<<20+1)
	}
	type item struct {
		p        string
		data     []byte
		replaced bool
	}
	items := []item{}
	add := func(dir string, i, size int) item {
		it := item{path.Join(dir, fmt.Sprintf("f%d.gz", i)), contentOf(c.Rng, size, (i+c.Idx)%4), false}
		if i%3 == 0 {
			it.p = path.Join(dir, fmt.Sprintf("f%d", i))
		}
		items = append(items, it)
		return it
	}
	for _, d := range []string{"/fs", "/ar"} {
		if err := r.FS.Mkdir(d, 0o755); err != nil {
			c.Violate("mkdir: %v [%v]", err, cfg)
		}
	}
	pickSizes := func(n int) []int {
		out := []int{0, 1, sizes[c.Rng.Intn(len(sizes))]}
		for len(out) < n {
			out = append(out, sizes[c.Rng.Intn(len(sizes))])
		}
		out = append(out, big[c.Rng.Intn(len(big))])
		if c.Idx%12 == 3 || c.Idx%24 == 5 {
			out = append(out, big[len(big)-1])
		}
		return out
	}

	// Through the file system, in uneven pieces; every third time with all of the files open at once
	open := []*writing03{}
	together := c.Idx%3 == 1
	for i, s := range pickSizes(5) {
		it := add("/fs", i, s)
		f, err := r.FS.Create(it.p)
		if err != nil {
			c.Violate("create %q: %v [%v]", it.p, err, cfg)
		}
		w := newWriting03(c, f, it.p, it.data)
		open = append(open, w)
		if !together {
			for w.step(c, cfg) {
			}
		}
	}
	for len(open) > 0 && together {
		i := c.Rng.Intn(len(open))
		if !open[i].step(c, cfg) {
			open = append(open[:i], open[i+1:]...)
			c.Count("files written while others were open", 1)
		}
	}
	// Through the archive interface
	batch := []srcEntry{}
	for i, s := range pickSizes(5) {
		it := add("/ar", i, s)
		batch = append(batch, srcEntry{Path: it.p, Perm: 0o644, Mod: time.Unix(1700000000, 5), Data: it.data})
	}
	if _, err := r.W.Archive(sources(batch, nil), cfg.Level, false, false); err != nil {
		c.Violate("archive: %v [%v]", err, cfg)
	}

	check := func(what string, o *Rig, all bool) {
		for _, it := range items {
			if !all && !it.replaced {
				continue
			}
			cls := sizeClass(len(it.data), rec)
			fail := func(how string, got []byte, err error) {
				c.Violate("%s: %q (%d bytes) %s: %d bytes, %v; %s [%v]", what, it.p, len(it.data), how, len(got), err, firstDiff(it.data, got), cfg)
			}
			info, err := o.FS.Stat(it.p)
			if err != nil || info.Size() != int64(len(it.data)) {
				c.Violate("%s: size of %q: %v, %v, but %d bytes were written [%v]", what, it.p, infoSize(info), err, len(it.data), cfg)
			}
			got, err := readPieces(c.Rng, o, it.p)
			if err != nil || !bytes.Equal(got, it.data) {
				fail("read through the file system", got, err)
			}
			c.Count("contents read through the file system", 1)
			res, err := o.RestoreBytes(it.p)
			if err != nil || len(res) != 1 {
				c.Violate("%s: restoring %q: %d files, %v [%v]", what, it.p, len(res), err, cfg)
			}
			for _, got := range res {
				if !bytes.Equal(got, it.data) {
					fail("restored", got, nil)
				}
			}
			c.Count("contents restored", 1)
			h, err := rowOf(o, it.p)
			if err != nil {
				c.Violate("%s: row of %q: %v", what, it.p, err)
			}
			if h.Size != int64(len(it.data)) {
				c.Violate("%s: the row of %q has the size %d instead of %d", what, it.p, h.Size, len(it.data))
			}
			got, isDir, _, err := o.FetchAt(int(h.Record), int(h.Block))
			if err != nil || isDir || !bytes.Equal(got, it.data) {
				fail("fetched", got, err)
			}
			c.Count("contents fetched", 1)
			c.Count("bytes compared", 3*len(it.data))
			c.Eval(fmt.Sprintf("%v|%s", cfg, cls))
		}
		interleavedReads(c, o, what, func() (string, []byte) {
			it := items[c.Rng.Intn(len(items))]
			return it.p, it.data
		})
		// All at once
		res, err := o.RestoreBytes("/")
		if err != nil {
			c.Violate("%s: restoring everything: %v [%v]", what, err, cfg)
		}
		if len(res) != len(items) {
			c.Violate("%s: restoring everything returned %d files instead of %d [%v]", what, len(res), len(items), cfg)
		}
	}
	check("written", r, true)

	// Replace contents by shorter and longer ones, through both interfaces
	for i := range items {
		if c.Rng.Intn(2) == 0 {
			continue
		}
		items[i].data = contentOf(c.Rng, pickSizes(3)[c.Rng.Intn(4)], c.Rng.Intn(4))
		items[i].replaced = true
		it := items[i]
		if c.Rng.Intn(2) == 0 {
			f, err := r.FS.OpenFile(it.p, os.O_RDWR|os.O_TRUNC, 0)
			if err != nil {
				c.Violate("open %q: %v [%v]", it.p, err, cfg)
			}
			if n, err := f.Write(it.data); err != nil || n != len(it.data) {
				c.Violate("write: %v [%v]", err, cfg)
			}
			if err := f.Close(); err != nil {
				c.Violate("close: %v [%v]", err, cfg)
			}
		} else {
			if _, err := r.W.Update(sources([]srcEntry{{Path: it.p, Perm: 0o600, Mod: time.Unix(1700000001, 0), Data: it.data}}, nil), cfg.Level, true, false); err != nil {
				c.Violate("update: %v [%v]", err, cfg)
			}
		}
		c.Count("contents replaced", 1)
	}
	check("replaced", r, c.Thorough())
	o, err := r.Rebuilt()
	if err != nil {
		c.Violate("rebuilding: %v [%v]", err, cfg)
	}
	check("replaced and rebuilt", o, c.Thorough() || len(items) < 8 || c.Idx%4 == 0)
	c.Sample("%v: %d contents of %d..%d bytes", cfg, len(items), 0, 5<<20)
}

// writing03 is a file which is being written in pieces.
type writing03 struct {
	f    afero.File
	p    string
	data []byte
	todo [][2]int // pieces which are left
	at   int      // position of the cursor
	how  int
}

func newWriting03(c *Ctx, f afero.File, p string, data []byte) *writing03 {
	w := &writing03{f: f, p: p, data: data, how: c.Rng.Intn(4)}
	for at := 0; at < len(data); {
		n := 1 + c.Rng.Intn(len(data)-at)
		if at+n < len(data) && len(data) > 4096 && n < 1000 {
			n = min(1000, len(data)-at)
		}
		w.todo = append(w.todo, [2]int{at, at + n})
		at += n
	}
	if w.how == 3 {
		// Not in order; what comes before is filled with zeros until then
		c.Rng.Shuffle(len(w.todo), func(i, j int) { w.todo[i], w.todo[j] = w.todo[j], w.todo[i] })
	}
	return w
}

// step writes a piece or, if there is none left, closes the file.
func (w *writing03) step(c *Ctx, cfg Cfg) bool {
	if len(w.todo) == 0 {
		if err := w.f.Close(); err != nil {
			c.Violate("close %q with %d bytes: %v [%v]", w.p, len(w.data), err, cfg)
		}
		return false
	}
	t := w.todo[0]
	w.todo = w.todo[1:]
	b := append([]byte{}, w.data[t[0]:t[1]]...)
	var n int
	var err error
	switch {
	case w.how == 3 || w.how == 2 && c.Rng.Intn(2) == 0:
		if w.how == 3 && c.Rng.Intn(2) == 0 {
			var at int64
			if at, err = w.f.Seek(int64(t[0]), io.SeekStart); err == nil && at != int64(t[0]) {
				c.Violate("seeking %q to %d returned %d [%v]", w.p, t[0], at, cfg)
			}
			if err == nil {
				n, err = w.f.Write(b)
			}
		} else {
			n, err = w.f.WriteAt(b, int64(t[0]))
			if err == nil {
				_, err = w.f.Seek(int64(t[1]), io.SeekStart)
			}
		}
	case w.how == 1:
		n, err = w.f.WriteString(string(b))
	default:
		n, err = w.f.Write(b)
	}
	if err != nil || n != len(b) {
		c.Violate("write of %d bytes at %d of %q: %d, %v [%v]", len(b), t[0], w.p, n, err, cfg)
	}
	for i := range b {
		b[i] = ^b[i] // the buffer is the caller's again
	}
	return true
}

// interleavedReads reads several files (or the same one several times) at once.
func interleavedReads(c *Ctx, o *Rig, what string, pick func() (string, []byte)) {
	type reading struct {
		f    afero.File
		p    string
		data []byte
		got  []byte
	}
	open := []*reading{}
	for i := 2 + c.Rng.Intn(2); i > 0; i-- {
		p, data := pick()
		if len(data) > 1<<20 {
			continue
		}
		f, err := o.FS.Open(p)
		if err != nil {
			c.Violate("%s: opening %q: %v [%v]", what, p, err, o.Cfg)
		}
		open = append(open, &reading{f, p, data, nil})
	}
	for len(open) > 0 {
		i := c.Rng.Intn(len(open))
		r := open[i]
		b := make([]byte, 1+c.Rng.Intn(len(r.data)/2+100))
		n, err := r.f.Read(b)
		r.got = append(r.got, b[:n]...)
		if err != nil && err != io.EOF {
			c.Violate("%s: reading %q while others are open: %v [%v]", what, r.p, err, o.Cfg)
		}
		if err == io.EOF || len(r.got) > len(r.data) {
			if !bytes.Equal(r.got, r.data) {
				c.Violate("%s: %q, read while others are open: %s [%v]", what, r.p, firstDiff(r.data, r.got), o.Cfg)
			}
			if err := r.f.Close(); err != nil {
				c.Violate("%s: closing %q: %v [%v]", what, r.p, err, o.Cfg)
			}
			c.Count("contents read while others were open", 1)
			open = append(open[:i], open[i+1:]...)
		}
	}
}

func infoSize(i os.FileInfo) interface{} {
	if i == nil {
		return nil
	}
	return i.Size()
}

func sizeClass(n, rec int) string {
	switch {
	case n <= 2:
		return fmt.Sprint(n)
	case n%rec == 0:
		return "records"
	case n%512 == 0:
		return "blocks"
	case n > rec:
		return ">record"
	}
	return "<record"
}

func rowOf(o *Rig, p string) (*config.Header, error) {
	rows, err := o.Rows()
	if err != nil {
		return nil, err
	}
	for _, h := range rows {
		if norm(h.Name) == p && h.Linkname == "" {
			return h, nil
		}
	}
	return nil, os.ErrNotExist
}

func readPieces(rng *rand.Rand, o *Rig, p string) ([]byte, error) {
	f, err := o.FS.Open(p)
	if err != nil {
		return nil, err
	}
	out := &bytes.Buffer{}
	buf := make([]byte, 1+rng.Intn(60000))
	for {
		n, err := f.Read(buf)
		out.Write(buf[:n])
		if err == io.EOF {
			break
		}
		if err != nil {
			_ = f.Close()
			return out.Bytes(), err
		}
		if out.Len() > 64<<20 {
			break
		}
	}
	return out.Bytes(), f.Close()
}
