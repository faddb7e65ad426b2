package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"filippo.io/age"
	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/pojntfx/stfs/pkg/config"
)

// Rec is a record (member) which the independent scanner found on a tape.
type Rec struct {
	Off     int64 // first byte of its first header block
	Hdr     int64 // the main header block
	DataOff int64
	Size    int64
	End     int64 // behind the padding of the content
	Name    string
	Link    string
	Type    byte
	PAX     map[string]string
	Raw     []byte // header block
	Archive int    // number of the archive it belongs to
}

// Scan is the outcome of an independent scan.
type Scan struct {
	Recs     []Rec
	Archives int
	Problems []string // whatever a strict standard reader would stumble on
	// Ends of the archives (first byte behind the trailer blocks)
	Trailers []int64
}

func parseNum(b []byte) (int64, bool) {
	if len(b) > 0 && b[0]&0x80 != 0 {
		var v int64
		for i, x := range b {
			if i == 0 {
				x &= 0x7f
			}
			v = v<<8 | int64(x)
		}
		return v, true
	}
	s := strings.Trim(string(b), " \x00")
	if s == "" {
		return 0, true
	}
	v, err := strconv.ParseInt(s, 8, 64)
	return v, err == nil
}

func headerOK(b []byte) bool {
	var sum, ssum int64
	for i, x := range b {
		if i >= 148 && i < 156 {
			x = ' '
		}
		sum += int64(x)
		ssum += int64(int8(x))
	}
	want, ok := parseNum(b[148:156])
	return ok && (want == sum || want == ssum)
}

func cstr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func parsePAX(b []byte, into map[string]string) error {
	for len(b) > 0 {
		sp := bytes.IndexByte(b, ' ')
		if sp < 0 {
			return fmt.Errorf("PAX record without length")
		}
		n, err := strconv.Atoi(string(b[:sp]))
		if err != nil || n <= sp+1 || n > len(b) || b[n-1] != '\n' {
			return fmt.Errorf("malformed PAX record")
		}
		kv := string(b[sp+1 : n-1])
		eq := strings.IndexByte(kv, '=')
		if eq < 0 {
			return fmt.Errorf("PAX record without value")
		}
		into[kv[:eq]] = kv[eq+1:]
		b = b[n:]
	}
	return nil
}

var zeroBlock = make([]byte, 512)

// ScanTape reads a tape as the concatenation of tar archives, without using any tar implementation.
func ScanTape(b []byte) *Scan {
	s := &Scan{}
	if len(b)%512 != 0 {
		s.Problems = append(s.Problems, fmt.Sprintf("%d bytes are not a whole number of blocks", len(b)))
	}
	bad := func(off int64, f string, a ...interface{}) {
		s.Problems = append(s.Problems, fmt.Sprintf("at %d: ", off)+fmt.Sprintf(f, a...))
	}
	var cur *Rec
	var longName, longLink string
	zeros := 0
	inArchive := false
	off := int64(0)
	n := int64(len(b)) / 512 * 512
	for off < n {
		blk := b[off : off+512]
		if bytes.Equal(blk, zeroBlock) {
			if cur != nil {
				bad(off, "archive ends inside of a record")
				cur = nil
			}
			zeros++
			off += 512
			continue
		}
		if zeros > 0 {
			if inArchive && zeros < 2 {
				bad(off, "archive ends with %d zero blocks", zeros)
			}
			s.Trailers = append(s.Trailers, off)
			inArchive = false
		}
		zeros = 0
		if !headerOK(blk) {
			bad(off, "header expected, but the checksum does not match")
			off += 512
			cur = nil
			continue
		}
		if !inArchive {
			s.Archives++
			inArchive = true
		}
		size, ok := parseNum(blk[124:136])
		if !ok || size < 0 {
			bad(off, "invalid size")
			size = 0
		}
		typ := blk[156]
		if cur == nil {
			cur = &Rec{Off: off, PAX: map[string]string{}}
		}
		data := off + 512
		pad := (size + 511) / 512 * 512
		switch typ {
		case 'x', 'g', 'L', 'K':
			if data+pad > n {
				bad(off, "extended header is cut off")
				cur = nil
				off += 512
				continue
			}
			d := b[data : data+size]
			switch typ {
			case 'x', 'g':
				if err := parsePAX(d, cur.PAX); err != nil {
					bad(off, "%v", err)
					cur = nil
					off += 512
					continue
				}
			case 'L':
				longName = cstr(d)
			case 'K':
				longLink = cstr(d)
			}
			off = data + pad
			continue
		}
		cur.Hdr, cur.DataOff, cur.Type, cur.Raw = off, data, typ, blk
		if p, ok := cur.PAX["size"]; ok {
			if v, err := strconv.ParseInt(p, 10, 64); err == nil {
				size = v
			}
		}
		switch typ {
		case '1', '2', '3', '4', '5', '6':
			size = 0
		}
		pad = (size + 511) / 512 * 512
		cur.Size = size
		cur.Name = cstr(blk[:100])
		if string(blk[257:263]) == "ustar\x00" {
			if p := cstr(blk[345:500]); p != "" {
				cur.Name = p + "/" + cur.Name
			}
		}
		cur.Link = cstr(blk[157:257])
		if longName != "" {
			cur.Name = longName
		}
		if longLink != "" {
			cur.Link = longLink
		}
		longName, longLink = "", ""
		if v, ok := cur.PAX["path"]; ok {
			cur.Name = v
		}
		if v, ok := cur.PAX["linkpath"]; ok {
			cur.Link = v
		}
		cur.End = data + pad
		cur.Archive = s.Archives
		if cur.End > n {
			bad(off, "content of %q is cut off", cur.Name)
			s.Recs = append(s.Recs, *cur)
			return s
		}
		for _, x := range b[data+size : data+pad] {
			if x != 0 {
				bad(data+size, "padding of %q is not zero", cur.Name)
				break
			}
		}
		s.Recs = append(s.Recs, *cur)
		off = cur.End
		cur = nil
	}
	if cur != nil {
		bad(off, "tape ends inside of a record")
	}
	if inArchive && zeros < 2 {
		bad(off, "last archive ends with %d zero blocks", zeros)
	}
	s.Trailers = append(s.Trailers, off)
	return s
}

// Logical is the meaning of a record.
type Logical struct {
	Rec
	Name, Link      string
	Action          string
	ReplacesName    string
	ReplacesContent bool
	HasContent      bool
	Dir             bool
	Uncompressed    int64
	Hdr             *tar.Header
}

func suffixesOf(cfg Cfg) (comp, enc string) {
	return map[string]string{
		"gzip": ".gz", "parallelgzip": ".gz", "lz4": ".lz4", "zstandard": ".zst", "brotli": ".br", "bzip2": ".bz2", "parallelbzip2": ".bz2",
	}[cfg.Comp], map[string]string{"age": ".age", "pgp": ".pgp"}[cfg.Enc]
}

// unjson parses an embedded header: the JSON form of a tar header, next to which the strings are which JSON can't represent.
func unjson(js []byte) (*tar.Header, error) {
	h := struct {
		tar.Header
		RawName, RawLinkname, RawUname, RawGname []byte
		RawPAXRecords                            map[string][]byte
	}{}
	if err := json.Unmarshal(js, &h); err != nil {
		return nil, err
	}
	for raw, s := range map[*[]byte]*string{&h.RawName: &h.Name, &h.RawLinkname: &h.Linkname, &h.RawUname: &h.Uname, &h.RawGname: &h.Gname} {
		if *raw != nil {
			*s = string(*raw)
		}
	}
	for k, v := range h.RawPAXRecords {
		h.PAXRecords[k] = string(v)
	}
	return &h.Header, nil
}

// Decode decrypts (with the key of the owner) and unwraps a record; it does not verify anything.
func (r *Rig) Decode(rec Rec) (*Logical, error) {
	pax, typ, name, link, size := rec.PAX, rec.Type, rec.Name, rec.Link, rec.Size
	var full *tar.Header
	unwrap := func(js string) error {
		h, err := unjson([]byte(js))
		if err != nil {
			return err
		}
		full = h
		pax, typ, name, link, size = h.PAXRecords, h.Typeflag, h.Name, h.Linkname, h.Size
		return nil
	}
	if r.Cfg.Enc != config.NoneKey {
		c, err := base64.StdEncoding.DecodeString(pax["STFS.EmbeddedHeader"])
		if err != nil {
			return nil, err
		}
		p, err := ownDecrypt(r.Cfg.Enc, r.ReadKeys.EncIdentity, c)
		if err != nil {
			return nil, err
		}
		if err := unwrap(string(p)); err != nil {
			return nil, err
		}
	}
	if r.Cfg.Sig != config.NoneKey {
		if err := unwrap(pax["STFS.EmbeddedHeader"]); err != nil {
			return nil, err
		}
	}
	l := &Logical{Rec: rec, Name: name, Link: link, Action: "CREATE", Dir: typ == '5', Hdr: full}
	if a, ok := pax["STFS.Action"]; ok {
		l.Action = a
	}
	l.ReplacesName = pax["STFS.ReplacesName"]
	l.ReplacesContent = pax["STFS.ReplacesContent"] == "true"
	l.HasContent = size > 0
	l.Uncompressed = size
	if u, ok := pax["STFS.UncompressedSize"]; ok {
		n, err := strconv.ParseInt(u, 10, 64)
		if err != nil {
			return nil, err
		}
		l.Uncompressed = n
	}
	// Records which carry content have suffixes, also if the content is empty
	if _, ok := pax["STFS.UncompressedSize"]; ok && !l.Dir && l.Link == "" && (l.Action == "CREATE" || (l.Action == "UPDATE" && l.ReplacesContent && l.ReplacesName == "")) {
		comp, enc := suffixesOf(r.Cfg)
		for _, s := range []string{enc, comp} {
			l.Name = strings.TrimSuffix(l.Name, s)
		}
	}
	return l, nil
}

func ownDecrypt(format string, identity interface{}, c []byte) ([]byte, error) {
	switch format {
	case config.EncryptionFormatAgeKey:
		rd, err := age.Decrypt(bytes.NewReader(c), identity.(*age.X25519Identity))
		if err != nil {
			return nil, err
		}
		return io.ReadAll(rd)
	case config.EncryptionFormatPGPKey:
		m, err := openpgp.ReadMessage(bytes.NewReader(c), identity.(openpgp.EntityList), nil, nil)
		if err != nil {
			return nil, err
		}
		return io.ReadAll(m.UnverifiedBody)
	}
	return c, nil
}

// Pos is what the tape says about the position of an entry.
type Pos struct {
	Content int64 // start of the record which wrote the current content
	Last    int64 // start of the last record which mentions the entry
	Dir     bool
	Size    int64
}

// Positions replays the decoded records according to the record format, independently of the indexer.
func Positions(ls []*Logical) map[string]*Pos {
	m := map[string]*Pos{}
	key := func(l *Logical) string {
		n := norm(l.Name)
		if l.Link != "" {
			// Links are addressed by the name of the link
			n = norm(l.Link)
		}
		return n
	}
	for _, l := range ls {
		k := key(l)
		switch l.Action {
		case "CREATE":
			m[k] = &Pos{Content: l.Off, Last: l.Off, Dir: l.Dir, Size: l.Uncompressed}
		case "DELETE":
			delete(m, k)
		case "UPDATE":
			o := k
			if l.ReplacesName != "" {
				o = norm(l.ReplacesName)
			}
			p := m[o]
			if p == nil {
				p = m[k]
			}
			if p == nil {
				continue
			}
			if o != k {
				delete(m, o)
				m[k] = p
			}
			p.Last = l.Off
			if l.ReplacesContent && l.ReplacesName == "" {
				p.Content, p.Size = l.Off, l.Uncompressed
			}
		}
	}
	return m
}

// Logicals scans and decodes the whole tape.
func (r *Rig) Logicals(b []byte) ([]*Logical, *Scan, error) {
	s := ScanTape(b)
	out := []*Logical{}
	for _, rec := range s.Recs {
		l, err := r.Decode(rec)
		if err != nil {
			return nil, s, fmt.Errorf("record at %d: %w", rec.Off, err)
		}
		out = append(out, l)
	}
	return out, s, nil
}

// objectAt maps an offset of the stream to the block of an emulated tape.
func (t *EmuTape) objectAt(off int64) (record, block int64) {
	t.mu.Lock()
	defer t.mu.Unlock()
	var pos int64
	for i, o := range t.objs {
		if off < pos+int64(len(o)) {
			return int64(i), (off - pos) / 512
		}
		pos += int64(len(o))
	}
	return int64(len(t.objs)), 0
}

func sortedKeys(m map[string]*Pos) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
