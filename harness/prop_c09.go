package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp/packet"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/utility"
)

// C09: every byte of an encrypted tape has to be accounted for by the fixed wrapper, the length of a record or a ciphertext; everything
// which went in is searched for in what came out, in clear and in the usual encodings; others cannot read any of it with their key.

func init() {
	register(&Prop{
		ID: "C09", Level: "exploration",
		Rule:        "distinct encrypted records whose outer form was compared byte by byte with the canonical wrapper of a ciphertext, and tapes which were searched for what had been put in and read with other keys",
		Plan:        func(tier string) int { return map[string]int{"quick": 72, "thorough": 2000}[tier] },
		Run:         runC09,
		Need:        []string{"records compared with the canonical wrapper", "ciphertexts dissected", "secrets searched for", "operations with other keys refused", "create records", "content updates", "metadata updates", "delete records", "move records", "link records"},
		Assumptions: []string{"the ciphers themselves are sound; ciphertexts are told from cleartext by their framing, by decrypting them with the key, and by never repeating themselves"},
		Limit:       300 * time.Second,
	})
}

// dissect tells whether the bytes are exactly one ciphertext for one recipient.
func dissect(format string, b []byte) error {
	switch format {
	case config.EncryptionFormatAgeKey:
		lines := bytes.SplitN(b, []byte("\n"), 5)
		if len(lines) < 5 || string(lines[0]) != "age-encryption.org/v1" || !bytes.HasPrefix(lines[1], []byte("-> X25519 ")) || len(lines[1]) != 10+43 ||
			len(lines[2]) != 43 || !bytes.HasPrefix(lines[3], []byte("--- ")) || len(lines[3]) != 4+43 {
			return fmt.Errorf("no age header for exactly one recipient: %q", clip(string(b), 200))
		}
		payload := lines[4]
		if len(payload) < 16+16 {
			return fmt.Errorf("age payload with %d bytes", len(payload))
		}
		return nil
	case config.EncryptionFormatPGPKey:
		// Opaque packets: one session key, one encrypted packet, nothing else
		tags := []string{}
		for rest := b; len(rest) > 0; {
			tag, n, err := pgpPacket(rest)
			if err != nil {
				return fmt.Errorf("after %v: %w", tags, err)
			}
			tags = append(tags, fmt.Sprint(tag))
			rest = rest[n:]
		}
		if s := strings.Join(tags, " "); s != "1 18" {
			return fmt.Errorf("PGP packets %s instead of a session key and an encrypted packet", s)
		}
		p, err := packet.Read(bytes.NewReader(b))
		if err != nil {
			return err
		}
		ek, ok := p.(*packet.EncryptedKey)
		if !ok {
			return fmt.Errorf("PGP packet %T", p)
		}
		_ = ek
		return nil
	}
	return fmt.Errorf("unknown format %q", format)
}

// pgpPacket returns the tag and the length of the first packet.
func pgpPacket(b []byte) (tag, n int, err error) {
	short := fmt.Errorf("cut packet")
	if len(b) < 2 || b[0]&0x80 == 0 {
		return 0, 0, fmt.Errorf("no packet: %x", clip(string(b), 16))
	}
	if b[0]&0x40 == 0 {
		return 0, 0, fmt.Errorf("old packet format")
	}
	tag = int(b[0] & 0x3f)
	i := 1
	for {
		if i >= len(b) {
			return tag, 0, short
		}
		l, partial := 0, false
		switch c := int(b[i]); {
		case c < 192:
			l = c
			i++
		case c < 224:
			if i+1 >= len(b) {
				return tag, 0, short
			}
			l = (c-192)<<8 + int(b[i+1]) + 192
			i += 2
		case c < 255:
			l, partial = 1<<(c&0x1f), true
			i++
		default:
			if i+4 >= len(b) {
				return tag, 0, short
			}
			l = int(b[i+1])<<24 | int(b[i+2])<<16 | int(b[i+3])<<8 | int(b[i+4])
			i += 5
		}
		i += l
		if i > len(b) {
			return tag, 0, short
		}
		if !partial {
			return tag, i, nil
		}
	}
}

// needles are the forms in which a secret is searched for.
func needles(secret string) map[string][]byte {
	out := map[string][]byte{"in clear": []byte(secret), "in hex": []byte(hex.EncodeToString([]byte(secret))), "in upper case hex": []byte(strings.ToUpper(hex.EncodeToString([]byte(secret))))}
	for shift := 0; shift < 3; shift++ {
		// The characters which only depend on the secret
		b := append(make([]byte, shift), secret...)
		for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			s := e.EncodeToString(b)
			from := []int{0, 2, 3}[shift]
			to := len(s)
			if len(b)%3 != 0 {
				to--
			}
			if to-from >= 7 {
				out[fmt.Sprintf("in base64 (%d)", shift)] = []byte(s[from:to])
			}
		}
	}
	if js, err := json.Marshal(secret); err == nil && string(js) != `"`+secret+`"` {
		out["in JSON"] = js[1 : len(js)-1]
	}
	return out
}

func diverse(b []byte) bool {
	m := map[byte]bool{}
	for _, x := range b {
		m[x] = true
	}
	return len(m) >= 6
}

func runC09(c *Ctx) {
	cfg := Cfg{
		Enc:        []string{config.EncryptionFormatAgeKey, config.EncryptionFormatPGPKey}[c.Idx%2],
		Sig:        config.KnownSignatureFormats[c.Idx/2%3],
		Comp:       config.KnownCompressionFormats[c.Idx/6%len(config.KnownCompressionFormats)],
		Level:      []string{config.CompressionLevelFastestKey, config.CompressionLevelBalancedKey, config.CompressionLevelSmallestKey}[c.Rng.Intn(3)],
		RecordSize: recordSizes[c.Rng.Intn(6)],
		Cache:      []string{config.WriteCacheTypeMemory, config.WriteCacheTypeFile}[c.Rng.Intn(2)],
	}
	if c.Idx%9 == 8 {
		// Not everything can be used with tapes
		enc, sig := cfg.Enc, cfg.Sig
		cfg = tapeCfg(c.Rng)
		cfg.Enc = enc
		if cfg.Sig = sig; sig == config.SignatureFormatMinisignKey {
			cfg.Sig = config.SignatureFormatPGPKey
		}
	}
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	g := NewGen(c.Rng)
	g.Links, g.Archive = true, c.Idx%2 == 0
	g.Spell = c.Rng.Intn(2) == 0
	g.Sizes = []int{0, 1, 40, 511, 512, 700, 3000, 20000}
	secrets := map[string]string{}
	letters := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_% .é"
	word := func(n int) string {
		rs := []rune(letters)
		s := "N"
		for len(s) < n {
			s += string(rs[c.Rng.Intn(len(rs))])
		}
		return s + "x"
	}
	g.Names = nil
	for i := 0; i < 6; i++ {
		n := word(8 + c.Rng.Intn(12))
		if i == 5 {
			n = word(120) // longer than a ustar header has room for
		}
		g.Names = append(g.Names, n)
		secrets[n] = "name"
	}
	for _, s := range []string{"STFS.Version", "STFS.Action", "STFS.ReplacesContent", "STFS.ReplacesName", "STFS.UncompressedSize", "STFS.Signature"} {
		secrets[s] = "metadata"
	}
	live, err := Walk(r.FS)
	if err != nil {
		c.Violate("fresh instance: %v [%v]", err, cfg)
	}
	owner := func() int { return 100_000_000 + c.Rng.Intn(1_000_000_000) }
	stamp := func() int64 { return 1_400_000_000_000_000_000 + c.Rng.Int63n(300_000_000_000_000_000) }
	addContent := func(b []byte) {
		for _, off := range []int{0, len(b) / 2, len(b) - 12} {
			// Something which does not occur by accident (such as zeros)
			if off >= 0 && off+12 <= len(b) && diverse(b[off:off+12]) {
				secrets[string(b[off:off+12])] = "content"
			}
		}
	}
	text := []byte(strings.Repeat("attack at dawn; ", 50))
	f1, f2, d1, l1, m1 := "/"+g.Names[0]+"1", "/"+g.Names[1]+"2", "/"+g.Names[2]+"3", "/"+g.Names[3]+"4", "/"+g.Names[4]+"5"
	fixed := []Op{
		{K: "create", A: f1, Acts: []Act{{K: "write", D: &Data{Lit: string(text)}}}},
		{K: "create", A: f2},
		{K: "mkdir", A: d1, Perm: 0o750},
		{K: "symlink", A: f1, B: l1},
		{K: "chown", A: f1, U: owner(), G: owner()},
		{K: "chtimes", A: f1, T1: stamp(), T2: stamp()},
		{K: "chtimes", A: d1, T1: stamp(), T2: stamp()},
		{K: "chmod", A: f2, Perm: 0o640},
		{K: "open", A: f2, Flag: os.O_RDWR, Acts: []Act{{K: "write", D: &Data{Lit: string(text)}}}},
		{K: "rename", A: f1, B: d1 + "/" + g.Names[0]},
		{K: "rename", A: d1, B: m1},
		{K: "removeall", A: m1},
	}
	c.Rng.Shuffle(3, func(i, j int) { fixed[i], fixed[j] = fixed[j], fixed[i] })
	n := c.Pick(16, 30)
	for i := 0; i < len(fixed)+n; i++ {
		op := Op{}
		if i < len(fixed) {
			op = fixed[i]
		} else {
			op = g.Next(live.kinds())
		}
		switch op.K {
		case "chown":
			op.U, op.G = owner(), owner()
			for _, id := range []int{op.U, op.G} {
				secrets[fmt.Sprint(id)], secrets[fmt.Sprintf("%o", id)] = "owner", "owner"
			}
		case "chtimes":
			if op.T1 > 1e18 {
				for _, ts := range []int64{op.T1, op.T2} {
					x := time.Unix(0, ts)
					secrets[fmt.Sprint(x.Unix())], secrets[fmt.Sprintf("%o", x.Unix())] = "time", "time"
					secrets[x.Format("2006-01-02T15:04:05")] = "time"
					secrets[x.UTC().Format("2006-01-02T15:04:05")] = "time"
				}
			}
		}
		res := Exec(r, op)
		c.Trace("%s -> %s", op, res.Class)
		if i < len(fixed) && res.Class != "ok" {
			c.Violate("%s: %v [%v]", op, res.Err, cfg)
		}
		for _, p := range []string{op.A, op.B} {
			for _, s := range strings.Split(p, "/") {
				if len(s) >= 8 {
					secrets[s] = "name"
				}
			}
		}
		next, err := Walk(r.FS)
		if err != nil {
			continue // C13 judges the tree
		}
		live = next
		for p, e := range live {
			if !e.Dir && e.Link == "" {
				if b, err := readAll(r.FS, p); err == nil {
					addContent(b)
				}
			}
		}
	}
	tape := append([]byte{}, r.TapeBytes()...)
	sc := ScanTape(tape)
	if len(sc.Problems) > 0 {
		c.Violate("the tape is not a sequence of archives: %v [%v]", sc.Problems, cfg)
	}
	dissectTape(c, r, tape, sc)
	searchTape(c, cfg, tape, sc, secrets)
	otherKeys(c, r, tape, sc)
	c.Sample("%v: %d records, %d bytes, %d secrets", cfg, len(sc.Recs), len(tape), len(secrets))
}

// dissectTape accounts for every byte of the tape.
func dissectTape(c *Ctx, r *Rig, tape []byte, sc *Scan) {
	cfg := r.Cfg
	alice := keysFor(cfg, "alice")
	at := int64(0)
	windows := map[string]int64{}
	const width = 48
	unique := func(b []byte, off int64, what string) {
		for i := 0; i+width <= len(b); i += 16 {
			windows[string(b[i:i+width])] = off
		}
	}
	repeated := func(b []byte, off int64, what string) {
		for i := 0; i+width <= len(b); i++ {
			if o, ok := windows[string(b[i:i+width])]; ok {
				c.Violate("%s of the record at %d has %d bytes in common with the record at %d, so that equal data can be told from other data [%v]", what, off, width, o, cfg)
			}
		}
	}
	zeros := func(from, to int64, what string) {
		for i := from; i < to; i++ {
			if tape[i] != 0 {
				c.Violate("byte %d (%s) of the tape is not zero: %q [%v]", i, what, clip(string(tape[i:to]), 64), cfg)
			}
		}
	}
	for _, rec := range sc.Recs {
		zeros(at, rec.Off, "in a trailer")
		if len(rec.PAX) != 1 || rec.PAX["STFS.EmbeddedHeader"] == "" {
			c.Violate("the record at %d has more to it than an encrypted header: %v [%v]", rec.Off, clip(fmt.Sprint(rec.PAX), 400), cfg)
		}
		v := rec.PAX["STFS.EmbeddedHeader"]
		// What a standard writer makes of just this value and the length
		want := &bytes.Buffer{}
		tw := tar.NewWriter(want)
		must(tw.WriteHeader(&tar.Header{Format: tar.FormatPAX, Size: rec.Size, PAXRecords: map[string]string{"STFS.EmbeddedHeader": v}}))
		if got := tape[rec.Off:rec.DataOff]; !bytes.Equal(got, want.Bytes()) {
			c.Violate("the outer header of the record at %d reveals more than the length and the encrypted header: %s [%v]", rec.Off, firstDiff(want.Bytes(), got), cfg)
		}
		zeros(rec.DataOff+rec.Size, rec.End, "in the padding of a record")
		at = rec.End
		c.Count("records compared with the canonical wrapper", 1)

		raw, err := base64.StdEncoding.DecodeString(v)
		if err != nil {
			c.Violate("the header of the record at %d is not encoded ciphertext: %v: %q [%v]", rec.Off, err, clip(v, 200), cfg)
		}
		if base64.StdEncoding.EncodeToString(raw) != v {
			c.Violate("the header of the record at %d is not encoded canonically [%v]", rec.Off, cfg)
		}
		if err := dissect(cfg.Enc, raw); err != nil {
			c.Violate("the header of the record at %d is not just a ciphertext: %v [%v]", rec.Off, err, cfg)
		}
		plain, err := ownDecrypt(cfg.Enc, alice.EncIdentity, raw)
		if err != nil {
			c.Violate("the header of the record at %d can not be decrypted: %v [%v]", rec.Off, err, cfg)
		}
		c.Count("ciphertexts dissected", 1)
		repeated(raw, rec.Off, "the header")
		unique(raw, rec.Off, "the header")

		l, err := r.Decode(rec)
		if err != nil {
			c.Violate("decoding the record at %d: %v [%v]", rec.Off, err, cfg)
		}
		switch {
		case l.Link != "":
			c.Count("link records", 1)
		case l.Action == "DELETE":
			c.Count("delete records", 1)
		case l.Action == "UPDATE" && l.ReplacesName != "":
			c.Count("move records", 1)
		case l.Action == "UPDATE" && l.ReplacesContent:
			c.Count("content updates", 1)
		case l.Action == "UPDATE":
			c.Count("metadata updates", 1)
		default:
			c.Count("create records", 1)
		}
		if rec.Size > 0 {
			content := tape[rec.DataOff : rec.DataOff+rec.Size]
			if err := dissect(cfg.Enc, content); err != nil {
				c.Violate("the content of the record at %d (%q) is not just a ciphertext: %v [%v]", rec.Off, l.Name, err, cfg)
			}
			if _, err := ownDecrypt(cfg.Enc, alice.EncIdentity, content); err != nil {
				c.Violate("the content of the record at %d can not be decrypted: %v [%v]", rec.Off, err, cfg)
			}
			c.Count("ciphertexts dissected", 1)
			repeated(content, rec.Off, "the content")
			unique(content, rec.Off, "the content")
		}
		c.Eval(fmt.Sprintf("%s|%s|%s|%s|%s|%d", cfg.Enc, cfg.Sig, cfg.Comp, l.Action, digest(plain), rec.Size))
	}
	zeros(at, int64(len(tape)), "in a trailer")
}

// searchTape searches for everything which went in.
func searchTape(c *Ctx, cfg Cfg, tape []byte, sc *Scan, secrets map[string]string) {
	hay := map[string][]byte{"the tape": tape}
	decoded := []byte{}
	for _, rec := range sc.Recs {
		if raw, err := base64.StdEncoding.DecodeString(rec.PAX["STFS.EmbeddedHeader"]); err == nil {
			decoded = append(decoded, raw...)
		}
	}
	hay["the decoded headers"] = decoded
	for s, kind := range secrets {
		if len(s) < 7 {
			continue
		}
		for form, n := range needles(s) {
			for where, h := range hay {
				if i := bytes.Index(h, n); i >= 0 {
					c.Violate("%s %q is %s in %s at %d: %q [%v]", kind, s, form, where, i, h[max(0, i-32):min(len(h), i+32)], cfg)
				}
				c.Count("secrets searched for", 1)
			}
		}
	}
}

// otherKeys tries to read the tape with keys of other people.
func otherKeys(c *Ctx, r *Rig, tape []byte, sc *Scan) {
	cfg := r.Cfg
	alice := keysFor(cfg, "alice")
	other := cfg
	if other.Enc == config.EncryptionFormatAgeKey {
		other.Enc = config.EncryptionFormatPGPKey
	} else {
		other.Enc = config.EncryptionFormatAgeKey
	}
	fresh := alice
	priv, _, err := utility.Keygen(config.PipeConfig{Encryption: cfg.Enc}, config.PasswordConfig{Password: "x"})
	must(err)
	fresh.EncIdentity, err = keys.ParseIdentity(cfg.Enc, priv, "x")
	must(err)
	wrong, kind, both := alice, alice, alice
	wrong.EncIdentity = keysFor(cfg, "mallory").EncIdentity
	kind.EncIdentity = keysFor(other, "alice").EncIdentity
	both.EncIdentity, both.EncRecipient = wrong.EncIdentity, keysFor(cfg, "mallory").EncRecipient
	// The index of the owner, which is not protected
	db, err := os.ReadFile(r.DB)
	if err != nil {
		db = nil
	}
	for i, k := range []KeySet{wrong, kind, both, fresh} {
		k := k
		what := []string{"the private key of somebody else", "a private key of another format", "the pair of somebody else", "a private key which was just generated"}[i]
		o := Opts{DBMem: true, Keys: &k}
		drive := ""
		if cfg.Tape {
			x := NewEmuTape(r.Opts.Tape.blockSize)
			x.objs = append(x.objs, r.Opts.Tape.objs...)
			o.Tape = x
		} else {
			drive = filepath.Join(r.Dir, fmt.Sprintf("other%d.tar", i))
			must(os.WriteFile(drive, tape, 0o600))
		}
		rig, err := OpenRig(cfg, r.Dir, drive, "", o)
		must(err)
		n := 0
		if err := rig.Index(0, 0, true, func(*config.Header) { n++ }); err == nil || n > 0 {
			c.Violate("rebuilding the index with %s: %d headers, %v [%v]", what, n, err, cfg)
		}
		if rows, _ := rig.Rows(); len(rows) > 0 {
			c.Violate("rebuilding the index with %s: %d rows [%v]", what, len(rows), cfg)
		}
		if hdrs, calls, err := rig.Query(0, 0); err == nil || calls > 0 || len(hdrs) > 0 {
			c.Violate("querying with %s: %d headers, %v [%v]", what, len(hdrs), err, cfg)
		}
		for _, rec := range sc.Recs {
			b := rec.Off / 512
			if !cfg.Tape {
				if hdr, data, err := rig.fetchHdr(int(b)/cfg.RecordSize, int(b)%cfg.RecordSize); err == nil || hdr != nil || len(data) > 0 {
					c.Violate("fetching the record at %d with %s: %d bytes, %v [%v]", rec.Off, what, len(data), err, cfg)
				}
				c.Count("operations with other keys refused", 1)
			}
		}
		if _, err := rig.FS.Initialize("/", os.ModePerm); err == nil {
			c.Violate("opening the tape with %s succeeded [%v]", what, cfg)
		}
		if cur := rig.TapeBytes(); !bytes.Equal(cur, tape) {
			c.Violate("opening the tape with %s changed it [%v]", what, cfg)
		}
		rig.Close()
		c.Count("operations with other keys refused", 3)

		if db == nil || cfg.Tape {
			continue
		}
		// With the index of the owner
		stolen := filepath.Join(r.Dir, fmt.Sprintf("stolen%d.sqlite", i))
		must(os.WriteFile(stolen, db, 0o600))
		rig, err = OpenRig(cfg, r.Dir, drive, stolen, Opts{Keys: &k})
		must(err)
		rows, err := rig.Rows()
		must(err)
		for _, h := range rows {
			if byte(h.Typeflag) != tar.TypeReg {
				continue
			}
			res, err := rig.RestoreBytes(h.Name)
			size := 0
			for _, b := range res {
				size += len(b)
			}
			if err == nil || size > 0 {
				c.Violate("restoring %q with %s: %d bytes, %v [%v]", h.Name, what, size, err, cfg)
			}
			if b, err := readAll(rig.FS, norm(h.Name)); h.Size > 0 && (err == nil || len(b) > 0) {
				c.Violate("reading %q with %s: %d bytes, %v [%v]", h.Name, what, len(b), err, cfg)
			}
			c.Count("operations with other keys refused", 2)
		}
		rig.Close()
	}
}
