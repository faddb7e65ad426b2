package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
)

// C08: tapes which were written with signatures are altered and extended with forged records. Every header which is accepted afterwards
// has to be one which was accepted from the untouched tape, every content which is restored has to be the one which was signed with it.

func init() {
	register(&Prop{
		ID: "C08", Level: "exploration",
		Rule:        "distinct altered tapes (bytes, blocks and records changed, removed, repeated, moved; structured forgeries; foreign, unsigned and wrongly signed records) whose accepted headers and restored contents were compared with what had been signed",
		Plan:        func(tier string) int { return map[string]int{"quick": 72, "thorough": 1600}[tier] },
		Run:         runC08,
		Need:        []string{"altered tapes", "forged tapes", "accepted headers compared", "restored contents compared", "alterations which were rejected", "rejected with another key", "files read through the file system"},
		Assumptions: []string{"the signing key of the owner is not known to whoever alters the tape, all public keys are"},
		Limit:       300 * time.Second,
	})
}

func tuple(h *config.Header) string {
	x := *h
	x.Record, x.Block, x.Lastknownrecord, x.Lastknownblock = 0, 0, 0, 0
	x.Modtime, x.Accesstime, x.Changetime = x.Modtime.UTC(), x.Accesstime.UTC(), x.Changetime.UTC()
	b, err := json.Marshal(x)
	must(err)
	return string(b)
}

func hdrTuple(h *tar.Header) string {
	b, err := json.Marshal(h)
	must(err)
	return string(b)
}

// meta of a row which does not depend on moves
func rowMeta(h *config.Header) string {
	return fmt.Sprintf("type=%d size=%d mode=%o %d:%d %q %q m=%d a=%d c=%d", h.Typeflag, h.Size, h.Mode, h.UID, h.Gid, h.Uname, h.Gname,
		h.Modtime.UnixNano(), h.Accesstime.UnixNano(), h.Changetime.UnixNano())
}

// fetchHdr restores what is at a position, together with the header which was verified.
func (r *Rig) fetchHdr(record, block int) (hdr *config.Header, data []byte, err error) {
	reader, err := r.Backend.GetReader()
	if err != nil {
		return nil, nil, err
	}
	defer r.Backend.CloseReader()
	buf := &bytes.Buffer{}
	err = recovery.Fetch(reader, r.Backend.MagneticTapeIO, r.Cfg.Pipes(),
		config.CryptoConfig{Recipient: r.ReadKeys.SigRecipient, Identity: r.ReadKeys.EncIdentity},
		func(p string, mode fs.FileMode) (io.WriteCloser, error) { return wc{buf}, nil },
		func(p string, mode fs.FileMode) error { return nil },
		record, block, "x", false, func(h *config.Header) { hdr = h })
	return hdr, buf.Bytes(), err
}

// signedTape is what the owner has written.
type signedTape struct {
	r       *Rig
	tape    []byte
	sc      *Scan
	events  map[string]bool   // headers which the indexer reported
	queried map[string]bool   // headers which a query returned
	metas   map[string]bool   // attributes which rows may have
	names   map[string]bool   // names in signed headers
	fetched map[string][]byte // content by the header it was fetched with
	bySig   map[string]bool   // signatures with the content they were made for
	live    Snap
	logical []*Logical
}

func newSignedTape(c *Ctx, cfg Cfg) *signedTape {
	t := &signedTape{events: map[string]bool{}, queried: map[string]bool{}, metas: map[string]bool{}, names: map[string]bool{}, fetched: map[string][]byte{}, bySig: map[string]bool{}}
	g := NewGen(c.Rng)
	g.Names = g.Names[:2+c.Rng.Intn(2)]
	g.Sizes = []int{0, 1, 100, 512, 700, 1500}
	g.Archive = c.Idx%2 == 0
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	t.r = r
	for _, op := range []Op{
		{K: "create", A: "/" + g.Names[0] + "1", Acts: []Act{{K: "write", D: &Data{Seed: 1, Size: 700}}}},
		{K: "create", A: "/" + g.Names[0] + "2", Acts: []Act{{K: "write", D: &Data{Seed: 2, Size: 700}}}},
		{K: "create", A: "/empty"},
	} {
		if res := Exec(r, op); res.Class != "ok" {
			c.Violate("%s: %v [%v]", op, res.Err, cfg)
		}
	}
	live, err := FullSnap(r.FS)
	must(err)
	for i := 0; i < 5; i++ {
		op := g.Next(live.kinds())
		Exec(r, op)
		c.Trace("%s", op)
		if live, err = FullSnap(r.FS); err != nil {
			c.Violate("after %s: %v [%v]", op, err, cfg)
		}
	}
	t.live = live
	t.tape = append([]byte{}, r.TapeBytes()...)
	var lerr error
	t.logical, t.sc, lerr = r.Logicals(t.tape)
	if lerr != nil {
		c.Violate("decoding the tape: %v [%v]", lerr, cfg)
	}
	o := t.open(c, t.tape)
	n := 0
	if err := o.Index(0, 0, true, func(h *config.Header) {
		t.events[tuple(h)] = true
		t.metas[rowMeta(h)] = true
		t.names[h.Name] = true
		n++
		hdr, data, err := o2fetch(t, c, h)
		if err == nil {
			t.fetched[tuple(hdr)] = data
			if len(data) > 0 {
				t.bySig[contentSignature(hdr.Paxrecords)+digest(data)] = true
			}
		}
	}); err != nil {
		c.Violate("indexing the untouched tape: %v [%v]", err, cfg)
	}
	if n != len(t.sc.Recs) {
		c.Violate("the untouched tape has %d records, but %d headers were accepted [%v]", len(t.sc.Recs), n, cfg)
	}
	rows, err := o.Rows()
	must(err)
	for _, h := range rows {
		t.metas[rowMeta(h)] = true
	}
	hdrs, _, err := o.Query(0, 0)
	if err != nil || len(hdrs) != n {
		c.Violate("querying the untouched tape: %d headers, %v [%v]", len(hdrs), err, cfg)
	}
	for _, h := range hdrs {
		t.queried[hdrTuple(h)] = true
	}
	for _, h := range rows {
		e, ok := live[norm(h.Name)]
		if !ok || e.Dir || h.Linkname != "" {
			continue
		}
		hdr, data, err := o.fetchHdr(int(h.Record), int(h.Block))
		if err != nil || digest(data) != e.Content {
			c.Violate("restoring %q from the untouched tape: %v [%v]", h.Name, err, cfg)
		}
		t.fetched[tuple(hdr)] = data
	}
	o.Close()
	return t
}

// o2fetch fetches from the untouched tape while it is being indexed.
func o2fetch(t *signedTape, c *Ctx, h *config.Header) (*config.Header, []byte, error) {
	o := t.r
	if o.Cfg.Tape {
		x := NewEmuTape(o.Opts.Tape.blockSize)
		x.objs = o.Opts.Tape.objs
		y, err := OpenRig(o.Cfg, o.Dir, "", "", Opts{DBMem: true, Tape: x})
		must(err)
		defer y.Close()
		o = y
	}
	return o.fetchHdr(int(h.Record), int(h.Block))
}

func (t *signedTape) open(c *Ctx, b []byte) *Rig {
	if t.r.Cfg.Tape {
		// The same blocks and file marks, with other bytes
		x := NewEmuTape(t.r.Opts.Tape.blockSize)
		for _, o := range t.r.Opts.Tape.objs {
			if o == nil {
				x.objs = append(x.objs, nil)
				continue
			}
			n := len(o)
			if n > len(b) {
				n = len(b)
			}
			if n > 0 {
				x.objs = append(x.objs, append([]byte{}, b[:n]...))
				b = b[n:]
			}
		}
		for len(b) > 0 {
			n := x.blockSize
			if n > len(b) {
				n = len(b)
			}
			x.objs = append(x.objs, append([]byte{}, b[:n]...))
			b = b[n:]
		}
		o, err := OpenRig(t.r.Cfg, t.r.Dir, "", "", Opts{DBMem: true, Tape: x})
		must(err)
		return o
	}
	drive := filepath.Join(t.r.Dir, fmt.Sprintf("alt%d.tar", nextID()))
	must(os.WriteFile(drive, b, 0o600))
	o, err := OpenRig(t.r.Cfg, t.r.Dir, drive, "", Opts{DBMem: true})
	must(err)
	return o
}

// judge indexes and restores from an altered tape.
func (t *signedTape) judge(c *Ctx, b []byte, what string) {
	o := t.open(c, b)
	defer func() {
		o.Close()
		if o.Drive != "" {
			_ = os.Remove(o.Drive)
		}
	}()
	accepted := 0
	ierr := o.Index(0, 0, true, func(h *config.Header) {
		accepted++
		c.Count("accepted headers compared", 1)
		if !t.events[tuple(h)] {
			c.Violate("%s: the indexer accepted a header which was not signed: %s [%v]", what, tuple(h), t.r.Cfg)
		}
	})
	if ierr != nil {
		c.Count("alterations which were rejected", 1)
	}
	rows, err := o.Rows()
	must(err)
	for _, h := range rows {
		if !t.metas[rowMeta(h)] {
			c.Violate("%s: the row %q has attributes which were not signed: %s [%v]", what, h.Name, rowMeta(h), t.r.Cfg)
		}
	}
	hdrs, _, qerr := o.Query(0, 0)
	for _, h := range hdrs {
		c.Count("accepted headers compared", 1)
		if !t.queried[hdrTuple(h)] {
			c.Violate("%s: a query returned a header which was not signed: %s (%v) [%v]", what, hdrTuple(h), qerr, t.r.Cfg)
		}
	}

	// Restore from everywhere
	type at struct{ record, block int }
	pos := map[at]string{}
	for _, h := range rows {
		pos[at{int(h.Record), int(h.Block)}] = h.Name
	}
	rs := int64(t.r.Cfg.RecordSize)
	if !t.r.Cfg.Tape {
		for _, rec := range ScanTape(b).Recs {
			bl := rec.Off / 512
			pos[at{int(bl / rs), int(bl % rs)}] = rec.Name
		}
	}
	checkData := func(how string, hdr *config.Header, data []byte) {
		c.Count("restored contents compared", 1)
		if hdr == nil {
			c.Violate("%s: %s succeeded without a header [%v]", what, how, t.r.Cfg)
		}
		want, ok := t.fetched[tuple(hdr)]
		if (!ok || !bytes.Equal(want, data)) && t.signedWith(hdr, data) {
			// Records of moves and of changed attributes keep the signature of the content
			return
		}
		if !ok && len(data) == 0 {
			return
		}
		if !ok || !bytes.Equal(want, data) {
			c.Violate("%s: %s returned %d bytes which were not signed with %s (%s) [%v]", what, how, len(data), tuple(hdr), firstDiff(want, data), t.r.Cfg)
		}
	}
	headerAt := map[at]*config.Header{}
	for p := range pos {
		hdr, data, err := o.fetchHdr(p.record, p.block)
		if hdr != nil {
			// Announced even if the content turns out to be altered
			c.Count("accepted headers compared", 1)
			if _, ok := t.fetched[tuple(hdr)]; !ok && !t.knows(hdr) {
				c.Violate("%s: fetching at %v accepted a header which was not signed: %s [%v]", what, p, tuple(hdr), t.r.Cfg)
			}
		}
		if err != nil {
			c.Count("restores which were rejected", 1)
			continue
		}
		headerAt[p] = hdr
		checkData(fmt.Sprintf("fetching at %v", p), hdr, data)
	}
	spelled := map[string]int{}
	for _, h := range rows {
		spelled[norm(h.Name)]++
	}
	for _, h := range rows {
		// Without the record of the root, the same path can be in the index in several spellings
		if byte(h.Typeflag) != tar.TypeReg || h.Linkname != "" || spelled[norm(h.Name)] > 1 {
			continue
		}
		p := at{int(h.Record), int(h.Block)}
		data, err := readAll(o.FS, norm(h.Name))
		if err == nil {
			c.Count("files read through the file system", 1)
			if headerAt[p] == nil {
				if len(data) > 0 {
					c.Violate("%s: %q could be read (%d bytes), but not be fetched [%v]", what, h.Name, len(data), t.r.Cfg)
				}
			} else if want, ok := t.fetched[tuple(headerAt[p])]; ok && int64(len(want)) != h.Size && bytes.HasPrefix(want, data) {
				// The size is the one of a later (moved or repeated) genuine record of the entry
				c.Count("files with the size of another record", 1)
			} else {
				checkData(fmt.Sprintf("reading %q", h.Name), headerAt[p], data)
			}
		}
		res, err := o.RestoreBytes(h.Name)
		if err == nil {
			for _, data := range res {
				if headerAt[p] == nil {
					if len(data) > 0 {
						c.Violate("%s: %q could be restored, but not be fetched [%v]", what, h.Name, t.r.Cfg)
					}
				} else {
					checkData(fmt.Sprintf("restoring %q", h.Name), headerAt[p], data)
				}
			}
		}
	}
	c.Eval(fmt.Sprintf("%d|%s|%s", c.Idx, what, digest(b)))
}

// signedWith tells whether the header has the signature of exactly this content.
func (t *signedTape) signedWith(hdr *config.Header, data []byte) bool {
	sig := contentSignature(hdr.Paxrecords)
	return sig != "" && t.bySig[sig+digest(data)]
}

// lossy is what becomes of a string which is stored as JSON.
func lossy(s string) string {
	out := ""
	must(json.Unmarshal(mustJSON(s), &out))
	return out
}

func contentSignature(paxrecords string) string {
	pax := map[string]string{}
	_ = json.Unmarshal([]byte(paxrecords), &pax)
	return pax["STFS.Signature"]
}

// knows tells whether a header which Fetch announced (with the name as it is on the tape) was signed.
func (t *signedTape) knows(h *config.Header) bool {
	for _, l := range t.logical {
		if l.Hdr != nil && l.Hdr.Name == h.Name && l.Hdr.Mode&0o7777 == h.Mode&0o7777 && int64(l.Hdr.Typeflag) == h.Typeflag && l.Hdr.Linkname == h.Linkname &&
			l.Hdr.ModTime.Equal(h.Modtime) && int64(l.Hdr.Uid) == h.UID && int64(l.Hdr.Gid) == h.Gid && l.Hdr.Size == h.Size {
			pax := map[string]string{}
			if json.Unmarshal([]byte(h.Paxrecords), &pax) == nil && len(pax) == len(l.Hdr.PAXRecords) {
				same := true
				for k, v := range l.Hdr.PAXRecords {
					// The database has them as JSON
					if pax[k] != lossy(v) {
						same = false
					}
				}
				if same {
					return true
				}
			}
		}
	}
	return false
}

func runC08(c *Ctx) {
	cfg := Cfg{
		Sig:        []string{config.SignatureFormatPGPKey, config.SignatureFormatMinisignKey}[c.Idx%2],
		Enc:        config.KnownEncryptionFormats[c.Idx/2%3],
		Level:      config.CompressionLevelFastestKey,
		RecordSize: recordSizes[c.Rng.Intn(6)],
		Cache:      config.WriteCacheTypeMemory,
	}
	if c.Rng.Intn(3) == 0 {
		cfg.Comp = config.KnownCompressionFormats[c.Rng.Intn(len(config.KnownCompressionFormats))]
	}
	if c.Idx%12 == 10 {
		cfg.Sig, cfg.Tape, cfg.Comp = config.SignatureFormatPGPKey, true, config.NoneKey
		if cfg.RecordSize < 2 {
			cfg.RecordSize = 2
		}
	}
	t := newSignedTape(c, cfg)
	n := len(t.tape)

	// Bytes
	for i := 0; i < c.Pick(60, 200); i++ {
		b := append([]byte{}, t.tape...)
		what := ""
		for k := 1 + c.Rng.Intn(2); k > 0; k-- {
			off := c.Rng.Intn(n)
			if c.Rng.Intn(3) > 0 {
				// In a record, not in a trailer
				r := t.sc.Recs[c.Rng.Intn(len(t.sc.Recs))]
				off = int(r.Off) + c.Rng.Intn(int(r.End-r.Off))
			}
			switch c.Rng.Intn(4) {
			case 0:
				b[off] ^= 1 << c.Rng.Intn(8)
			case 1:
				b[off] = byte(c.Rng.Intn(256))
			case 2:
				for j := off; j < off+1+c.Rng.Intn(40) && j < n; j++ {
					b[j] = byte(c.Rng.Intn(256))
				}
			case 3:
				for j := off; j < off+1+c.Rng.Intn(600) && j < n; j++ {
					b[j] = 0
				}
			}
			what += fmt.Sprintf("altered at %d; ", off)
		}
		t.judge(c, b, what)
		c.Count("altered tapes", 1)
	}
	if cfg.Tape {
		return
	}

	// Blocks and records
	for i := 0; i < c.Pick(16, 60); i++ {
		b, what := t.shuffle(c)
		t.judge(c, b, what)
		c.Count("altered tapes", 1)
	}

	// Forgeries
	for _, f := range t.forgeries(c) {
		t.judge(c, f.b, f.what)
		c.Count("forged tapes", 1)
	}

	// Another key, and no signatures at all
	t.others(c)
	t.crossDomain(c)
	c.Sample("%v: %d records, %d bytes", cfg, len(t.sc.Recs), n)
}

// shuffle moves, repeats and removes blocks, records or archives.
func (t *signedTape) shuffle(c *Ctx) ([]byte, string) {
	var parts [][]byte
	unit := []string{"blocks", "records", "archives"}[c.Rng.Intn(3)]
	switch unit {
	case "blocks":
		for o := 0; o+512 <= len(t.tape); o += 512 {
			parts = append(parts, t.tape[o:o+512])
		}
	case "records":
		prev := int64(0)
		for _, r := range t.sc.Recs {
			parts = append(parts, t.tape[prev:r.End])
			prev = r.End
		}
		parts = append(parts, t.tape[prev:])
	default:
		prev := int64(0)
		for _, o := range t.sc.Trailers {
			parts = append(parts, t.tape[prev:o])
			prev = o
		}
	}
	out := append([][]byte{}, parts...)
	what := unit + ":"
	for k := 1 + c.Rng.Intn(3); k > 0; k-- {
		i, j := c.Rng.Intn(len(out)), c.Rng.Intn(len(out))
		switch c.Rng.Intn(4) {
		case 0:
			out[i], out[j] = out[j], out[i]
			what += fmt.Sprintf(" swap %d %d", i, j)
		case 1:
			out = append(out[:i:i], out[i+1:]...)
			what += fmt.Sprintf(" drop %d", i)
		case 2:
			out = append(out[:i:i], append([][]byte{out[j%len(out)]}, out[i:]...)...)
			what += fmt.Sprintf(" insert %d before %d", j, i)
		case 3:
			out[i] = out[j%len(out)]
			what += fmt.Sprintf(" overwrite %d by %d", i, j)
		}
		if len(out) < 2 {
			break
		}
	}
	return bytes.Join(out, nil), what
}

type forgery struct {
	b    []byte
	what string
}

// member renders one tar member.
func member(h *tar.Header, content []byte) []byte {
	out := &bytes.Buffer{}
	tw := tar.NewWriter(out)
	h.Size = int64(len(content))
	must(tw.WriteHeader(h))
	_, err := tw.Write(content)
	must(err)
	must(tw.Flush())
	return out.Bytes()
}

func (t *signedTape) forgeries(c *Ctx) []forgery {
	cfg := t.r.Cfg
	alice, mallory := keysFor(cfg, "alice"), keysFor(cfg, "mallory")
	out := []forgery{}
	splice := func(what string, rec []byte, where int) {
		ends := []int64{0}
		for _, r := range t.sc.Recs {
			ends = append(ends, r.Off, r.End)
		}
		ends = append(ends, t.sc.Trailers...)
		o := ends[where%len(ends)]
		b := append(append(append([]byte{}, t.tape[:o]...), rec...), t.tape[o:]...)
		out = append(out, forgery{b, fmt.Sprintf("%s at %d", what, o)})
	}
	replaceRec := func(what string, i int, rec []byte) {
		r := t.sc.Recs[i]
		b := append(append(append([]byte{}, t.tape[:r.Off]...), rec...), t.tape[r.End:]...)
		out = append(out, forgery{b, fmt.Sprintf("%s instead of record %d", what, i)})
	}
	encode := func(plain []byte) []byte {
		// Whoever knows the public key can encrypt; none of the forged contents is compressed unless the owner's is
		b := &bytes.Buffer{}
		w, err := encryption.Encrypt(b, cfg.Enc, alice.EncRecipient)
		must(err)
		cw, err := compressFor(cfg, w)
		must(err)
		_, err = cw.Write(plain)
		must(err)
		must(cw.Flush())
		must(cw.Close())
		must(w.Close())
		return b.Bytes()
	}
	// wrap encrypts an outer header, as whoever knows the public key can
	wrap := func(h *tar.Header) *tar.Header {
		must(encryption.EncryptHeader(h, cfg.Enc, alice.EncRecipient))
		return h
	}
	inner := func(name string, size int) *tar.Header {
		return &tar.Header{Format: tar.FormatPAX, Typeflag: tar.TypeReg, Name: name, Size: int64(size), Mode: 0o666, ModTime: time.Unix(1700000000, 0), PAXRecords: map[string]string{"STFS.Version": "1"}}
	}
	evil := []byte("evil content, which nobody has signed")
	names := []string{"/evil"}
	for p, e := range t.live {
		if !e.Dir {
			names = append(names, p)
		}
	}
	sortStrings(names)
	// The record (if any) which was signed by its owner: its outer and unwrapped headers
	unwrapped := func(i int) (embedded, sig string) {
		pax := t.sc.Recs[i].PAX
		if cfg.Enc != config.NoneKey {
			raw, err := base64.StdEncoding.DecodeString(pax["STFS.EmbeddedHeader"])
			must(err)
			p, err := ownDecrypt(cfg.Enc, alice.EncIdentity, raw)
			must(err)
			h, err := unjson(p)
			must(err)
			pax = h.PAXRecords
		}
		return pax["STFS.EmbeddedHeader"], pax["STFS.Signature"]
	}
	body := func(i int) []byte { return t.tape[t.sc.Recs[i].DataOff : t.sc.Recs[i].DataOff+t.sc.Recs[i].Size] }
	outer := func(embedded, sig string, size int) *tar.Header {
		h := &tar.Header{Format: tar.FormatPAX, Size: int64(size), PAXRecords: map[string]string{}}
		if embedded != "" {
			h.PAXRecords["STFS.EmbeddedHeader"] = embedded
		}
		if sig != "" {
			h.PAXRecords["STFS.Signature"] = sig
		}
		return wrap(h)
	}

	for k := 0; k < 2; k++ {
		name := names[c.Rng.Intn(len(names))]
		w := c.Rng.Intn(1 << 20)
		// Records of nobody
		splice("a plain tar member", member(&tar.Header{Format: tar.FormatPAX, Typeflag: tar.TypeReg, Name: name, Mode: 0o644}, evil), w)
		splice("a plain ustar member", member(&tar.Header{Format: tar.FormatUSTAR, Typeflag: tar.TypeReg, Name: strings.Map(func(r rune) rune {
			if r >= 0x80 {
				return 'x'
			}
			return r
		}, name[:min(len(name), 40)]), Mode: 0o644}, nil), w+1)
		in := inner(name, len(encode(evil)))
		in.PAXRecords["STFS.UncompressedSize"] = fmt.Sprint(len(evil))
		in.PAXRecords["STFS.Action"] = []string{"CREATE", "UPDATE", "DELETE"}[c.Rng.Intn(3)]
		in.PAXRecords["STFS.ReplacesContent"] = "true"
		js, err := json.Marshal(in)
		must(err)
		splice("an unsigned record", member(outer(string(js), "", 0), encode(evil)), w+2)
		for _, sig := range []string{"AAAA", "not base64!", base64.StdEncoding.EncodeToString([]byte("untrusted comment: x\nRWQ=\n")), base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{0xc2, 0x01}, 20)),
			base64.StdEncoding.EncodeToString([]byte{0xcb, 0x05, 'b', 0, 0, 0, 0, 0})} {
			splice(fmt.Sprintf("a record with the signature %q", clip(sig, 20)), member(outer(string(js), sig, 0), encode(evil)), w+3)
		}
		// An unsigned header in the clear, with the STFS metadata
		plain := *in
		splice("an unwrapped record with metadata", member(wrap(&plain), encode(evil)), w+4)
		// Signed by somebody else
		h := *in
		must(signature.SignHeader(&h, true, cfg.Sig, mallory.SigIdentity))
		splice("a record signed by somebody else", member(wrap(&h), encode(evil)), w+5)
		splice("a record signed by somebody else", member(outer(string(js), h.PAXRecords["STFS.Signature"], 0), encode(evil)), w+6)
		// Signatures of the owner on something else
		i := c.Rng.Intn(len(t.sc.Recs))
		_, sig := unwrapped(i)
		splice("a record with the signature of another record", member(outer(string(js), sig, 0), encode(evil)), w+7)
	}
	for i := range t.sc.Recs {
		emb, sig := unwrapped(i)
		j := c.Rng.Intn(len(t.sc.Recs))
		_, sig2 := unwrapped(j)
		if j != i {
			replaceRec("the header with another signature", i, member(outer(emb, sig2, 0), body(i)))
		}
		replaceRec("the header without its signature", i, member(outer(emb, "", 0), body(i)))
		// Edits of the signed header
		for k := 0; k < 3; k++ {
			var m map[string]interface{}
			must(json.Unmarshal([]byte(emb), &m))
			edit := ""
			switch c.Rng.Intn(7) {
			case 0:
				m["Name"] = fmt.Sprint(m["Name"]) + "x"
				edit = "name"
			case 1:
				m["Mode"] = 0o4777
				edit = "mode"
			case 2:
				m["Uid"], m["Gid"] = 4242, 4242
				edit = "owner"
			case 3:
				m["ModTime"] = "2001-01-01T00:00:00Z"
				edit = "time"
			case 4:
				m["Size"] = 1
				edit = "size"
			case 5:
				p, _ := m["PAXRecords"].(map[string]interface{})
				if p == nil {
					p = map[string]interface{}{}
				}
				p["STFS.Action"] = []string{"DELETE", "UPDATE", "CREATE"}[c.Rng.Intn(3)] + ""
				p["STFS.Extra"] = "x"
				m["PAXRecords"] = p
				edit = "action"
			case 6:
				p, _ := m["PAXRecords"].(map[string]interface{})
				if p == nil {
					p = map[string]interface{}{}
				}
				p["STFS.UncompressedSize"] = "3"
				m["PAXRecords"] = p
				edit = "uncompressed size"
			}
			js, err := json.Marshal(m)
			must(err)
			replaceRec("the header with another "+edit, i, member(outer(string(js), sig, 0), body(i)))
		}
		replaceRec("the header with a space", i, member(outer(emb+" ", sig, 0), body(i)))
		// Other content below a genuine header
		replaceRec("a genuine header over evil content", i, member(outer(emb, sig, 0), encode(evil)))
		replaceRec("a genuine header over no content", i, member(outer(emb, sig, 0), nil))
		if t.sc.Recs[j].Size > 0 {
			replaceRec(fmt.Sprintf("a genuine header over the content of record %d", j), i, member(outer(emb, sig, 0), body(j)))
		}
		if len(body(i)) > 1 {
			replaceRec("a genuine header over a part of its content", i, member(outer(emb, sig, 0), body(i)[:len(body(i))-1-c.Rng.Intn(len(body(i))-1)]))
			replaceRec("a genuine header over its content and more", i, member(outer(emb, sig, 0), append(append([]byte{}, body(i)...), evil...)))
			replaceRec("a genuine header over its content twice", i, member(outer(emb, sig, 0), append(append([]byte{}, body(i)...), body(i)...)))
		}
		// The outer header says something else
		o := outer(emb, sig, 0)
		o.Typeflag, o.Name, o.Mode, o.Uid = tar.TypeReg, "/outer", 0o777, 1
		replaceRec("a genuine header in an outer one with a name", i, member(o, body(i)))
		o = outer(emb, sig, 0)
		o.PAXRecords["STFS.Action"] = "DELETE"
		replaceRec("a genuine header in an outer one with an action", i, member(o, body(i)))
	}
	limit := c.Pick(60, 1000)
	c.Rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if len(out) > limit {
		out = out[:limit]
	}
	return out
}

// others reads the untouched tape with the key of somebody else, and tapes without signatures with the right one.
func (t *signedTape) others(c *Ctx) {
	cfg := t.r.Cfg
	alice, mallory := keysFor(cfg, "alice"), keysFor(cfg, "mallory")
	wrong := alice
	wrong.SigRecipient = mallory.SigRecipient
	try := func(tape []byte, keys *KeySet, what string) {
		drive := filepath.Join(t.r.Dir, fmt.Sprintf("other%d.tar", nextID()))
		must(os.WriteFile(drive, tape, 0o600))
		defer os.Remove(drive)
		o, err := OpenRig(cfg, t.r.Dir, drive, "", Opts{DBMem: true, Keys: keys})
		must(err)
		defer o.Close()
		n := 0
		if err := o.Index(0, 0, true, func(*config.Header) { n++ }); err == nil || n > 0 {
			c.Violate("%s: the indexer accepted %d headers, %v [%v]", what, n, err, cfg)
		}
		if rows, _ := o.Rows(); len(rows) > 0 {
			c.Violate("%s: the index has %d rows [%v]", what, len(rows), cfg)
		}
		if hdrs, calls, err := o.Query(0, 0); err == nil || calls > 0 || len(hdrs) > 0 {
			c.Violate("%s: a query accepted %d headers, %v [%v]", what, len(hdrs), err, cfg)
		}
		for _, r := range ScanTape(tape).Recs {
			b := r.Off / 512
			if hdr, _, err := o.fetchHdr(int(b)/cfg.RecordSize, int(b)%cfg.RecordSize); err == nil || hdr != nil {
				c.Violate("%s: fetching at %d succeeded [%v]", what, r.Off, cfg)
			}
		}
		if _, err := o.FS.Initialize("/", os.ModePerm); err == nil {
			c.Violate("%s: it can be opened as a file system [%v]", what, cfg)
		}
		if b, _ := os.ReadFile(drive); !bytes.Equal(b, tape) {
			c.Violate("%s: opening it as a file system changed it [%v]", what, cfg)
		}
		c.Count("rejected with another key", 1)
		c.Eval(fmt.Sprintf("%d|%s", c.Idx, what))
	}
	try(t.tape, &wrong, "a tape signed by somebody else")
	unsigned := cfg
	unsigned.Sig = config.NoneKey
	u, err := NewRig(unsigned, c.Base, Opts{Keys: &KeySet{EncRecipient: alice.EncRecipient, EncIdentity: alice.EncIdentity, SigRecipient: []byte{}, SigIdentity: []byte{}}})
	if err != nil {
		c.Violate("fresh instance with %v: %v", unsigned, err)
	}
	Exec(u, Op{K: "create", A: "/f", Acts: []Act{{K: "write", D: &Data{Seed: 1, Size: 10}}}})
	try(u.TapeBytes(), nil, "a tape without signatures")
}

// crossDomain stores a file whose content is the JSON form of a header and uses the signature of the content for a forged header.
func (t *signedTape) crossDomain(c *Ctx) {
	cfg := t.r.Cfg
	alice := keysFor(cfg, "alice")
	js, err := json.Marshal(&tar.Header{Format: tar.FormatPAX, Typeflag: tar.TypeReg, Name: "/forged by the content", Mode: 0o4777, PAXRecords: map[string]string{"STFS.Version": "1"}})
	must(err)
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	if err := writeAll(r.FS, "/innocent", js); err != nil {
		c.Violate("writing: %v [%v]", err, cfg)
	}
	tape := append([]byte{}, r.TapeBytes()...)
	logical, _, err := r.Logicals(tape)
	must(err)
	sig := ""
	for _, l := range logical {
		if l.Hdr != nil && l.Hdr.PAXRecords["STFS.Signature"] != "" {
			sig = l.Hdr.PAXRecords["STFS.Signature"]
		}
	}
	h := &tar.Header{Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.EmbeddedHeader": string(js), "STFS.Signature": sig}}
	must(encryption.EncryptHeader(h, cfg.Enc, alice.EncRecipient))
	b := append(append([]byte{}, tape...), member(h, nil)...)
	drive := filepath.Join(r.Dir, "cross.tar")
	must(os.WriteFile(drive, b, 0o600))
	o, err := OpenRig(cfg, r.Dir, drive, "", Opts{DBMem: true})
	must(err)
	defer o.Close()
	_ = o.Index(0, 0, true, func(x *config.Header) {
		if strings.Contains(x.Name, "forged by the content") {
			c.Known("C08-content-as-header", fmt.Sprintf("the signature of a file with the JSON form of a header as its content was accepted as the signature of a header [%v]", cfg))
		}
	})
	c.Count("contents which were presented as headers", 1)
	c.Eval(fmt.Sprintf("%d|cross", c.Idx))
}
