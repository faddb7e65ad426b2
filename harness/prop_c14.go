package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C14: sequences of calls on open files are compared, call by call, with an in-memory byte array with a cursor; after the handle has
// been closed, a fresh one has to read the bytes of the reference.

func init() {
	register(&Prop{
		ID: "C14", Level: "exploration",
		Rule:        "distinct (flags, call, position class of the cursor or offset, class of the size, outcome, mode of the handle) combinations judged against the reference",
		Plan:        func(tier string) int { return map[string]int{"quick": 900, "thorough": 12000}[tier] },
		Run:         runC14,
		Need:        []string{"handle calls", "files", "final contents compared", "append handles", "truncating handles", "creating handles", "read-only handles", "calls after the end", "rejected calls", "growing truncates", "handles through links", "interleaved handles", "large files"},
		Assumptions: []string{"O_CREATE, O_APPEND or O_TRUNC together with O_RDONLY and WriteAt on O_APPEND handles are excluded (undefined or refused by the operating system)", "Read may return fewer bytes than were asked for, but at least one before the end of the file", "offsets up to some MiB"},
		Limit:       240 * time.Second,
	})
}

// judge14 performs a call on both sides and returns what is wrong.
func judge14(h afero.File, ref *RefFile, a Act) (got string, wrong string) {
	if a.K == "read" && ref.R && a.N > 0 && ref.Cur < int64(len(ref.Data)) {
		// Read may be short
		b := make([]byte, a.N)
		for i := range b {
			b[i] = 0xa5
		}
		n, err := h.Read(b)
		avail := ref.Data[ref.Cur:]
		got = fmt.Sprintf("%d %s", n, class(err))
		switch {
		case n < 0 || n > len(b) || n > len(avail):
			return got, fmt.Sprintf("returned %d of at most %d bytes", n, min(len(b), len(avail)))
		case n == 0:
			return got, fmt.Sprintf("returned nothing (%v), but there are %d bytes left", err, len(avail))
		case err == io.EOF && n != len(avail):
			return got, fmt.Sprintf("signalled the end of the file after %d of %d bytes", n, len(avail))
		case err != nil && err != io.EOF:
			return got, err.Error()
		case !bytes.Equal(b[:n], avail[:n]):
			return got, fmt.Sprintf("returned other bytes: %s", byteDiff(avail[:n], b[:n]))
		}
		ref.Cur += int64(n)
		return got, ""
	}
	if a.K == "badseek" {
		_, err := h.Seek(a.N, a.W)
		if err == nil {
			return "ok", fmt.Sprintf("whence %d was accepted", a.W)
		}
		return class(err), ""
	}
	before := *ref
	got = execAct(h, a)
	want := ref.Act(a)
	if strings.HasPrefix(want, "0 permission") || want == "permission" || strings.HasPrefix(want, "0 invalid") || want == "invalid" {
		*ref = before
		f := strings.Fields(got)
		if f[len(f)-1] == "ok" || len(f) > 1 && (f[0] != "0" || f[1] == "ok") {
			return got, fmt.Sprintf("reported %q, but the reference says %q", clip(got, 80), want)
		}
		if want == "permission" && got != want || strings.HasPrefix(want, "0 permission") && !strings.HasPrefix(got, "0 permission") {
			return got, fmt.Sprintf("reported %q, but the reference says %q", clip(got, 80), want)
		}
		return got, ""
	}
	if !actMatches(want, got) {
		return got, fmt.Sprintf("reported %q, but the reference says %q", clip(got, 120), clip(want, 120))
	}
	return got, ""
}

func byteDiff(want, got []byte) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("only %d of %d bytes", len(got), len(want))
		}
		if want[i] != got[i] {
			return fmt.Sprintf("byte %d is %#x instead of %#x", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
	}
	return "none"
}

func posClass14(off, size int64) string {
	switch {
	case off < 0:
		return "negative"
	case off == 0 && size == 0:
		return "empty"
	case off == 0:
		return "start"
	case off < size:
		return "inside"
	case off == size:
		return "end"
	}
	return "beyond"
}

func sizeClass14(n int64) string {
	switch {
	case n == 0:
		return "0"
	case n < 512:
		return "part"
	case n == 512:
		return "block"
	case n < 10240:
		return "blocks"
	case n < 1<<20:
		return "records"
	}
	return "huge"
}

// act14 generates a call around the interesting positions of the file.
func act14(g *Gen, ref *RefFile, big bool) Act {
	r := g.R
	size := int64(len(ref.Data))
	at := func() int64 {
		switch r.Intn(12) {
		case 0:
			return 0
		case 1:
			return size
		case 2:
			return size + 1
		case 3:
			return max(size-1, 0)
		case 4:
			return size + int64(r.Intn(3000))
		case 5:
			return ref.Cur
		case 6:
			return int64(r.Intn(5)) * 512
		case 7:
			return -1 - int64(r.Intn(20))
		default:
			if size > 0 {
				return r.Int63n(size)
			}
			return int64(r.Intn(40))
		}
	}
	length := func() int64 {
		switch r.Intn(9) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return size
		case 3:
			return size + 1
		case 4:
			return max(size-ref.Cur, 0)
		case 5:
			return 512
		case 6:
			if big {
				return int64(r.Intn(200_000))
			}
			return 32 << 10
		default:
			return int64(r.Intn(1200))
		}
	}
	data := func() *Data {
		n := g.Sizes[r.Intn(len(g.Sizes))]
		if r.Intn(3) == 0 {
			n = r.Intn(64)
		}
		if big && r.Intn(6) == 0 {
			n = 64<<10 + r.Intn(200<<10)
		}
		return &Data{Seed: r.Int63n(1 << 30), Size: n, Kind: r.Intn(3)}
	}
	for {
		switch r.Intn(20) {
		case 0, 1, 2:
			if ref.W || r.Intn(5) == 0 {
				return Act{K: "write", D: data()}
			}
		case 3, 4:
			if (ref.W || r.Intn(5) == 0) && !ref.Append {
				return Act{K: "writeat", D: data(), N: at()}
			}
		case 5:
			if ref.W || r.Intn(5) == 0 {
				return Act{K: "writestring", D: &Data{Lit: fmt.Sprintf("string %d ü\n", r.Intn(1<<20))}}
			}
		case 6, 7:
			if ref.W || r.Intn(5) == 0 {
				n := at()
				if r.Intn(8) == 0 {
					n = size + 20000
				}
				return Act{K: "trunc", N: n}
			}
		case 8, 9:
			return Act{K: "read", N: length()}
		case 10:
			return Act{K: "readfull", N: max(length(), 1)}
		case 11, 12:
			return Act{K: "readat", N: at(), W: int(length())}
		case 13, 14:
			return Act{K: "seek", N: at(), W: io.SeekStart}
		case 15:
			return Act{K: "seek", N: at() - ref.Cur, W: io.SeekCurrent}
		case 16:
			return Act{K: "seek", N: at() - size, W: io.SeekEnd}
		case 17:
			switch r.Intn(3) {
			case 0:
				return Act{K: "seek", N: 0, W: r.Intn(3)}
			case 1:
				return Act{K: "seek", N: int64(r.Intn(100) - 50), W: io.SeekCurrent + r.Intn(2)}
			default:
				return Act{K: "badseek", N: int64(r.Intn(3)), W: []int{3, -1, 100}[r.Intn(3)]}
			}
		case 18:
			return Act{K: "stat"}
		case 19:
			if r.Intn(2) == 0 {
				return Act{K: "sync"}
			}
		}
	}
}

type open14 struct {
	h    afero.File
	ref  *RefFile
	p    string
	flag int
	mode string
	n    int
	log  []string
}

func (o *open14) step(c *Ctx, g *Gen, cfg Cfg, big bool) {
	a := act14(g, o.ref, big)
	size, cur := int64(len(o.ref.Data)), o.ref.Cur
	d := 0
	if a.D != nil {
		d = len(a.D.Bytes())
	}
	desc := fmt.Sprintf("%s n=%d w=%d data=%d (size %d, cursor %d)", a.K, a.N, a.W, d, size, cur)
	o.log = append(o.log, desc)
	c.Trace("  %s %s", o.p, desc)
	got, wrong := judge14(o.h, o.ref, a)
	c.Count("handle calls", 1)
	if wrong != "" {
		c.Violate("call %d on the handle of %q (%s): %s %s [%v]\n%s", o.n, o.p, flagString(o.flag), desc, wrong, cfg, strings.Join(o.log, "\n"))
	}
	o.n++
	pos := cur
	switch a.K {
	case "readat", "writeat", "trunc":
		pos = a.N
	case "seek":
		pos = a.N + []int64{0, cur, size}[a.W]
	}
	if pos > size {
		c.Count("calls after the end", 1)
		if a.K == "trunc" {
			c.Count("growing truncates", 1)
		}
	}
	f := strings.Fields(got)
	cl := f[len(f)-1]
	if len(f) > 1 {
		cl = f[1]
	}
	if cl == "permission" || cl == "invalid" {
		c.Count("rejected calls", 1)
	}
	if strings.HasPrefix(cl, "size=") {
		cl = "size"
	}
	c.Eval(fmt.Sprintf("%s|%s|%s|%s|%d|%s|%s", flagString(o.flag), a.K, posClass14(pos, size), sizeClass14(size), a.W&3, cl, o.mode))
	switch {
	case strings.HasPrefix(a.K, "write") || a.K == "trunc":
		if cl == "ok" {
			o.mode = "written"
		}
	case strings.HasPrefix(a.K, "read"):
		if o.mode != "written" {
			o.mode = "read"
		}
	}
}

// flags14 are all combinations which have a meaning.
func flags14(r *rand.Rand) int {
	f := []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR}[r.Intn(4)]
	if f != os.O_RDONLY {
		for _, x := range []int{os.O_APPEND, os.O_CREATE, os.O_TRUNC, os.O_SYNC} {
			if r.Intn(3) == 0 {
				f |= x
			}
		}
	}
	return f
}

func runC14(c *Ctx) {
	cfg := fullCfg(c.Rng)
	switch c.Idx % 5 {
	case 1:
		cfg.Comp, cfg.Enc, cfg.Sig = config.NoneKey, config.NoneKey, config.NoneKey
	case 3:
		cfg = tapeCfg(c.Rng)
	}
	cfg.Cache = []string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile}[c.Idx%2]
	cfg.WPR = c.Rng.Intn(5) == 0
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	g := NewGen(c.Rng)
	contents := map[string][]byte{}
	compare := func(p, when string, f afero.Fs) {
		want := contents[p]
		b, err := readAll(f, p)
		if err != nil {
			c.Violate("%s, reading %q afresh: %v [%v]", when, p, err, cfg)
		}
		if !bytes.Equal(b, want) {
			c.Violate("%s, a fresh open of %q reads %d bytes instead of %d (%s) [%v]", when, p, len(b), len(want), byteDiff(want, b), cfg)
		}
		i, err := f.Stat(p)
		if err != nil {
			c.Violate("%s, Stat of %q: %v [%v]", when, p, err, cfg)
		}
		if i.Size() != int64(len(want)) {
			c.Violate("%s, Stat of %q reports %d bytes instead of %d [%v]", when, p, i.Size(), len(want), cfg)
		}
		c.Count("final contents compared", 1)
	}
	names := []string{"/a", "/b", "/dir/c", "/dir/d.gz"}
	if err := r.FS.Mkdir("/dir", 0o755); err != nil {
		c.Violate("Mkdir: %v", err)
	}
	linked := false
	openOne := func(big bool) *open14 {
		p := names[c.Rng.Intn(len(names))]
		flag := flags14(c.Rng)
		old, exists := contents[p]
		if !exists && c.Rng.Intn(2) == 0 {
			// A file with some content
			n := []int{0, 1, 511, 512, 513, 3000, cfg.RecordSize * 512, cfg.RecordSize*512 + 1, 3 * cfg.RecordSize * 512}[c.Rng.Intn(9)]
			if n > 400_000 {
				n = 300_000
			}
			if big {
				n += 1<<20 + c.Rng.Intn(1<<19)
				c.Count("large files", 1)
			}
			d := &Data{Seed: c.Rng.Int63n(1 << 30), Size: n, Kind: c.Rng.Intn(2)}
			res := Exec(r, Op{K: "create", A: p, Acts: []Act{{K: "write", D: d}}})
			if res.Class != "ok" {
				c.Violate("creating %q with %d bytes: %v [%v]", p, n, res.Err, cfg)
			}
			old, exists = d.Bytes(), true
			contents[p] = old
			c.Trace("create %s with %d bytes", p, n)
		}
		if !exists {
			if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
				flag |= os.O_RDWR
			}
			flag |= os.O_CREATE
			c.Count("creating handles", 1)
			if c.Rng.Intn(2) == 0 {
				flag |= os.O_EXCL
			}
		}
		at := p
		if exists && c.Rng.Intn(6) == 0 && cfg.RecordSize > 0 {
			at = "/link" + path.Base(p)
			if _, err := r.FS.Stat(at); err != nil {
				if err := r.FS.SymlinkIfPossible(p, at); err != nil {
					c.Violate("linking %q: %v", p, err)
				}
			}
			flag &^= os.O_EXCL
			linked = true
			c.Count("handles through links", 1)
		}
		c.Trace("open %s (%d bytes) %s", at, len(old), flagString(flag))
		h, err := r.FS.OpenFile(at, flag, 0o644)
		if err != nil {
			c.Violate("opening %q with %s: %v [%v]", at, flagString(flag), err, cfg)
		}
		w := flag&(os.O_WRONLY|os.O_RDWR) != 0
		ref := &RefFile{Data: append([]byte{}, old...), R: flag&os.O_WRONLY == 0 || cfg.WPR, W: w, Append: flag&os.O_APPEND != 0}
		if flag&os.O_TRUNC != 0 {
			ref.Data = nil
			c.Count("truncating handles", 1)
		}
		if ref.Append {
			c.Count("append handles", 1)
		}
		if !w {
			c.Count("read-only handles", 1)
		}
		if !exists {
			contents[p] = nil
		}
		if h.Name() == "" {
			c.Violate("the handle of %q has no name", at)
		}
		return &open14{h: h, ref: ref, p: p, flag: flag, mode: "fresh"}
	}
	closeOne := func(o *open14) {
		c.Trace("  close %s (%d bytes)", o.p, len(o.ref.Data))
		if err := o.h.Close(); err != nil {
			c.Violate("closing %q (%s): %v [%v]\n%s", o.p, flagString(o.flag), err, cfg, strings.Join(o.log, "\n"))
		}
		contents[o.p] = o.ref.Data
		compare(o.p, fmt.Sprintf("after closing the handle (%s) on which was called:\n%s\n", flagString(o.flag), strings.Join(o.log, "\n")), r.FS)
		c.Count("files", 1)
	}
	for i := 0; i < c.Pick(6, 12); i++ {
		big := c.Idx%10 == 2 && i == 0
		o := openOne(big)
		var other *open14
		if c.Rng.Intn(4) == 0 {
			// A handle of another file which is used at the same time
			if other = openOne(false); other.p == o.p {
				_ = other.h.Close()
				if w := other.flag & os.O_TRUNC; w != 0 {
					// It may have been truncated below the first one
					_ = o.h.Close()
					contents[o.p] = nil
					compare(o.p, "after truncating", r.FS)
					continue
				}
				other = nil
			} else {
				c.Count("interleaved handles", 1)
			}
		}
		n := 1 + c.Rng.Intn(30)
		if big {
			n = min(n, 12)
		}
		for j := 0; j < n; j++ {
			o.step(c, g, cfg, big)
			if other != nil && c.Rng.Intn(2) == 0 {
				other.step(c, g, cfg, false)
			}
		}
		if other != nil && c.Rng.Intn(2) == 0 {
			closeOne(other)
			other = nil
		}
		closeOne(o)
		if other != nil {
			for j := c.Rng.Intn(5); j > 0; j-- {
				other.step(c, g, cfg, false)
			}
			closeOne(other)
		}
	}
	// What was stored is also there for others
	for _, open := range []func() (*Rig, error){r.Reopened, r.Rebuilt} {
		o, err := open()
		if err != nil {
			c.Violate("opening a second instance: %v [%v]", err, cfg)
		}
		for p := range contents {
			compare(p, "in a second instance", o.FS)
		}
		o.Close()
	}
	if c.Idx < 3 {
		c.Sample("%d files with links=%v [%v]", len(contents), linked, cfg)
	}
}
