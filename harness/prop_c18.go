package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"runtime/debug"
	"strings"
	"testing/iotest"
	"time"
	"unicode/utf8"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/utility"
)

// C18: key pairs are generated with all kinds of passwords and used like the rest of STFS does. The oracles are the plain texts
// which went in, and that nothing may come out (and nothing may be accepted) under other passwords and other pairs.

func init() {
	register(&Prop{
		ID: "C18", Level: "exploration",
		Rule: "distinct (format, password, kind of call) combinations: pairs generated by utility.Keygen with generated passwords, parsed with the right and with similar passwords, used for strings, streams, headers and file systems, and against what other pairs have produced",
		Plan: func(tier string) int { return map[string]int{"quick": 72, "thorough": 900}[tier] },
		Run:  runC18,
		Need: []string{"age pairs", "minisign pairs", "pgp encryption pairs", "pgp signature pairs", "empty passwords", "ascii passwords", "multi-byte passwords", "long passwords", "passwords which aren't UTF-8",
			"wrong passwords refused", "strings round-tripped", "streams round-tripped", "headers round-tripped", "other pairs' data refused", "file systems round-tripped", "altered data refused"},
		Assumptions: []string{"passwords which HMAC can't tell apart (the known finding) are judged separately"},
		Limit:       400 * time.Second,
	})
}

// password18 generates a password and the name of its kind.
func password18(c *Ctx) (string, string) {
	ascii := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(33 + c.Rng.Intn(94))
		}
		return string(b)
	}
	switch c.Idx / 8 % 9 {
	case 0:
		return "", "empty passwords"
	case 1:
		return ascii(1 + c.Rng.Intn(20)), "ascii passwords"
	case 2:
		out := ""
		for i := 1 + c.Rng.Intn(12); i > 0; i-- {
			out += []string{"é", "ü", "日", "本", "🔑", "\u0301", "ß", "Ж", "a", "ع", "\u200d"}[c.Rng.Intn(11)]
		}
		return out, "multi-byte passwords"
	case 3:
		return ascii([]int{64, 65, 72, 73, 100, 128, 255, 256, 257, 1000, 4096, 70000}[c.Rng.Intn(12)]), "long passwords"
	case 4:
		return []string{" ", "  x", "x  ", "\t", "\n", "pass\n", "pass word", "pass\r\n", "-", "--", "\"'`$\\"}[c.Rng.Intn(11)], "ascii passwords"
	case 5:
		b := make([]byte, 1+c.Rng.Intn(20))
		c.Rng.Read(b)
		b[0] = 0xff
		if b[len(b)-1] == 0 {
			b[len(b)-1] = 1
		}
		return string(b), "passwords which aren't UTF-8"
	case 6:
		return strings.Repeat("é日🔑", 10+c.Rng.Intn(300)), "long passwords"
	case 7:
		return []string{"a\x00b", "\x00x", "p", "0", "AGE-SECRET-KEY-1", "nil"}[c.Rng.Intn(6)], "ascii passwords"
	}
	return []string{"e\u0301", "\u00e9", "ﬁ", "Å", "K", "ſ"}[c.Rng.Intn(6)], "multi-byte passwords"
}

// similar18 returns passwords which aren't this one, but are similar to it.
func similar18(c *Ctx, pw string) []string {
	cand := []string{"", "x", pw + " ", pw + "\n", " " + pw, pw + "x", pw + pw, strings.ToUpper(pw), strings.ToLower(pw), strings.TrimSpace(pw), "wrong", strings.ToValidUTF8(pw, "\ufffd"), strings.ToValidUTF8(pw, "")}
	if len(pw) > 0 {
		cand = append(cand, pw[:len(pw)-1], pw[1:], pw[:len(pw)/2])
		b := []byte(pw)
		b[c.Rng.Intn(len(b))] ^= 1
		cand = append(cand, string(b))
		b = []byte(pw)
		b[len(b)-1] ^= 0x20
		cand = append(cand, string(b))
	}
	for _, n := range []int{8, 16, 32, 56, 64, 72, 128, 255, 256} {
		if len(pw) > n {
			cand = append(cand, pw[:n], pw[:n]+strings.Repeat("x", len(pw)-n))
		}
	}
	if i := strings.IndexByte(pw, 0); i >= 0 {
		cand = append(cand, pw[:i])
	}
	_, n := utf8.DecodeRuneInString(pw)
	cand = append(cand, pw[n:], strings.ReplaceAll(pw, "é", "e\u0301"), strings.ReplaceAll(pw, "e\u0301", "é"))
	out, seen := []string{}, map[string]bool{}
	for _, p := range cand {
		// HMAC fills keys up with zeros
		if strings.TrimRight(p, "\x00") != strings.TrimRight(pw, "\x00") && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	c.Rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// pair18 is a generated key pair.
type pair18 struct {
	kind                string
	format              string
	sig                 bool
	password            string
	priv, pub           []byte
	recipient, identity interface{}
}

func (p *pair18) parse(pw string) (interface{}, error) {
	if p.sig {
		return keys.ParseSignerIdentity(p.format, append([]byte{}, p.priv...), pw)
	}
	return keys.ParseIdentity(p.format, append([]byte{}, p.priv...), pw)
}

func newPair18(c *Ctx, kind, password string) *pair18 {
	p := &pair18{kind: kind, password: password}
	pipes := config.PipeConfig{}
	switch kind {
	case "age":
		p.format, pipes.Encryption = config.EncryptionFormatAgeKey, config.EncryptionFormatAgeKey
	case "pgp encryption":
		p.format, pipes.Encryption = config.EncryptionFormatPGPKey, config.EncryptionFormatPGPKey
	case "minisign":
		p.format, p.sig, pipes.Signature = config.SignatureFormatMinisignKey, true, config.SignatureFormatMinisignKey
	default:
		p.format, p.sig, pipes.Signature = config.SignatureFormatPGPKey, true, config.SignatureFormatPGPKey
	}
	var err error
	p.priv, p.pub, err = utility.Keygen(pipes, config.PasswordConfig{Password: password})
	if err != nil {
		c.Violate("generating a %s pair with the password %q: %v", kind, short18(password), err)
	}
	if p.sig {
		p.recipient, err = keys.ParseSignerRecipient(p.format, append([]byte{}, p.pub...))
	} else {
		p.recipient, err = keys.ParseRecipient(p.format, append([]byte{}, p.pub...))
	}
	if err != nil {
		c.Violate("parsing the public half of a %s pair with the password %q: %v", kind, short18(password), err)
	}
	if p.identity, err = p.parse(password); err != nil {
		c.Violate("parsing the private half of a %s pair with its password %q: %v", kind, short18(password), err)
	}
	c.Count(kind+" pairs", 1)
	debug.FreeOSMemory() // The key derivation of minisign takes 1 GB
	return p
}

func short18(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s... (%d bytes)", s[:40], len(s))
	}
	return s
}

func runC18(c *Ctx) {
	kind := []string{"age", "minisign", "pgp encryption", "pgp signature", "age", "pgp encryption", "pgp signature", "pgp signature"}[(c.Idx+c.Idx/8)%8]
	pw, class := password18(c)
	c.Trace("%s, password %q", kind, short18(pw))
	c.Count(class, 1)
	a := newPair18(c, kind, pw)
	other := pw
	if c.Rng.Intn(2) == 0 {
		other = "other " + pw
	}
	b := newPair18(c, kind, other)
	if bytes.Equal(a.priv, b.priv) || bytes.Equal(a.pub, b.pub) {
		c.Violate("two %s pairs are the same", kind)
	}
	if c.Idx < 8 {
		c.Sample("%s pair with the password %q (%s)", kind, short18(pw), class)
	}

	// Other passwords
	slow := kind == "minisign" || kind == "age"
	for i, w := range similar18(c, pw) {
		if slow && i >= c.Pick(2, 6) {
			break
		}
		if _, err := a.parse(w); err == nil {
			c.Violate("the private half of a %s pair with the password %q was parsed with %q", kind, short18(pw), short18(w))
		}
		c.Count("wrong passwords refused", 1)
		c.Eval(fmt.Sprintf("%s|%q|wrong|%q", kind, pw, w))
	}
	if kind == "minisign" && c.Rng.Intn(3) > 0 { // Takes seconds
	} else if _, err := a.parse(pw); err != nil {
		c.Violate("parsing the private half of a %s pair with its password %q once more: %v", kind, short18(pw), err)
	}
	if len(pw) < 60 && c.Idx%16 < 8 {
		if _, err := a.parse(pw + "\x00"); err == nil {
			if !slow {
				c.Violate("the private half of a %s pair with the password %q was parsed with this password and a zero behind it", kind, pw)
			}
			c.Known("C18-hmac-equivalent-passwords", fmt.Sprintf("%s pair with the password %q", kind, pw))
		}
	}
	debug.FreeOSMemory()

	sizes := []int{0, 1, 2, 100, 511, 512, 4095, 4096, 65535, 65536, 65537, 300000}
	for i := 0; i < c.Pick(5, 12); i++ {
		data := make([]byte, sizes[c.Rng.Intn(len(sizes))])
		if c.Rng.Intn(3) == 0 {
			data = make([]byte, c.Rng.Intn(3000))
		}
		if c.Rng.Intn(5) > 0 {
			rand.New(rand.NewSource(c.Rng.Int63())).Read(data)
		}
		if a.sig {
			sign18(c, a, b, data)
		} else {
			encrypt18(c, a, b, data)
		}
		c.Eval(fmt.Sprintf("%s|%q|%d", kind, pw, len(data)))
	}
	header18(c, a, b)
	filesystem18(c, a, b)
}

// crypt18 encrypts with one pair and decrypts with another, as a stream.
func decrypt18(cipher []byte, p *pair18, r *rand.Rand) ([]byte, error) {
	var src io.Reader = bytes.NewReader(cipher)
	switch r.Intn(4) {
	case 0:
		src = iotest.OneByteReader(src)
	case 1:
		src = iotest.HalfReader(src)
	case 2:
		src = iotest.DataErrReader(src)
	}
	d, err := encryption.Decrypt(src, p.format, p.identity)
	if err != nil {
		return nil, err
	}
	out, err := io.ReadAll(d)
	if cerr := d.Close(); err == nil {
		err = cerr
	}
	return out, err
}

func encrypt18(c *Ctx, a, b *pair18, data []byte) {
	what := fmt.Sprintf("%s pair with the password %q, %d bytes", a.kind, short18(a.password), len(data))
	s, err := encryption.EncryptString(string(data), a.format, a.recipient)
	if err != nil {
		c.Violate("%s: encrypting a string: %v", what, err)
	}
	got, err := encryption.DecryptString(s, a.format, a.identity)
	if err != nil || got != string(data) {
		c.Violate("%s: decrypting a string: %d bytes, %v", what, len(got), err)
	}
	c.Count("strings round-tripped", 1)
	if got, err := encryption.DecryptString(s, b.format, b.identity); err == nil {
		c.Violate("%s: another pair decrypted a string to %d bytes (the same: %v)", what, len(got), got == string(data))
	}
	c.Count("other pairs' data refused", 1)
	if len(data) >= 16 && strings.Contains(s, string(data)) {
		c.Violate("%s: the encrypted string contains the plain text", what)
	}

	buf := &bytes.Buffer{}
	w, err := encryption.Encrypt(buf, a.format, a.recipient)
	if err != nil {
		c.Violate("%s: encrypting a stream: %v", what, err)
	}
	for rest := data; len(rest) > 0; {
		n := 1 + c.Rng.Intn(len(rest))
		if _, err := w.Write(rest[:n]); err != nil {
			c.Violate("%s: encrypting a stream: %v", what, err)
		}
		rest = rest[n:]
	}
	if err := w.Close(); err != nil {
		c.Violate("%s: encrypting a stream: %v", what, err)
	}
	plain, err := decrypt18(buf.Bytes(), a, c.Rng)
	if err != nil || !bytes.Equal(plain, data) {
		c.Violate("%s: decrypting a stream: %d bytes, %v", what, len(plain), err)
	}
	c.Count("streams round-tripped", 1)
	if plain, err := decrypt18(buf.Bytes(), b, c.Rng); err == nil {
		c.Violate("%s: another pair decrypted a stream to %d bytes", what, len(plain))
	}
	c.Count("other pairs' data refused", 1)
	// Parsing the private half again gives the same key
	if c.Rng.Intn(4) == 0 && a.kind != "age" {
		again, err := a.parse(a.password)
		if err != nil {
			c.Violate("%s: parsing the private half once more: %v", what, err)
		}
		x := *a
		x.identity = again
		if plain, err := decrypt18(buf.Bytes(), &x, c.Rng); err != nil || !bytes.Equal(plain, data) {
			c.Violate("%s: decrypting with the private half which was parsed once more: %d bytes, %v", what, len(plain), err)
		}
	}
	// Torn and altered streams don't give other data
	cut := buf.Bytes()[:c.Rng.Intn(buf.Len())]
	if plain, err := decrypt18(cut, a, c.Rng); err == nil && !bytes.Equal(plain, data) {
		c.Violate("%s: %d of %d bytes of the encrypted stream were decrypted to %d bytes", what, len(cut), buf.Len(), len(plain))
	}
	alt := append([]byte{}, buf.Bytes()...)
	alt[c.Rng.Intn(len(alt))] ^= byte(1 << c.Rng.Intn(8))
	if plain, err := decrypt18(alt, a, c.Rng); err == nil && !bytes.Equal(plain, data) {
		c.Violate("%s: an altered stream was decrypted to %d other bytes", what, len(plain))
	}
	c.Count("altered data refused", 2)
}

func sign18(c *Ctx, a, b *pair18, data []byte) {
	what := fmt.Sprintf("%s pair with the password %q, %d bytes", a.kind, short18(a.password), len(data))
	s, err := signature.SignString(string(data), true, a.format, a.identity)
	if err != nil {
		c.Violate("%s: signing a string: %v", what, err)
	}
	if err := signature.VerifyString(string(data), true, a.format, a.recipient, s); err != nil {
		c.Violate("%s: verifying a string: %v", what, err)
	}
	c.Count("strings round-tripped", 1)
	if err := signature.VerifyString(string(data), true, b.format, b.recipient, s); err == nil {
		c.Violate("%s: another pair verified a string", what)
	}
	c.Count("other pairs' data refused", 1)

	sum := func(p *pair18, data []byte) string {
		r, sign, err := signature.Sign(iotest.HalfReader(bytes.NewReader(data)), true, p.format, p.identity)
		if err != nil {
			c.Violate("%s: signing a stream: %v", what, err)
		}
		if got, err := io.ReadAll(r); err != nil || !bytes.Equal(got, data) {
			c.Violate("%s: signing a stream passed on %d bytes, %v", what, len(got), err)
		}
		s, err := sign()
		if err != nil {
			c.Violate("%s: signing a stream: %v", what, err)
		}
		return s
	}
	verify := func(p *pair18, data []byte, sig string) error {
		var src io.Reader = bytes.NewReader(data)
		if c.Rng.Intn(2) == 0 {
			src = iotest.HalfReader(src)
		}
		r, verify, err := signature.Verify(src, true, p.format, p.recipient, sig)
		if err != nil {
			return err
		}
		if got, err := io.ReadAll(r); err != nil || !bytes.Equal(got, data) {
			c.Violate("%s: verifying a stream passed on %d bytes, %v", what, len(got), err)
		}
		return verify()
	}
	st := sum(a, data)
	if err := verify(a, data, st); err != nil {
		c.Violate("%s: verifying a stream: %v", what, err)
	}
	if err := verify(b, data, st); err == nil {
		c.Violate("%s: another pair verified a stream", what)
	}
	c.Count("other pairs' data refused", 1)
	c.Count("streams round-tripped", 1)
	if err := verify(a, append(append([]byte{}, data...), 'x'), st); err == nil {
		c.Violate("%s: other data was verified", what)
	}
	if len(data) > 0 {
		alt := append([]byte{}, data...)
		alt[c.Rng.Intn(len(alt))] ^= 1
		if err := verify(a, alt, st); err == nil {
			c.Violate("%s: altered data was verified", what)
		}
		if err := signature.VerifyString(string(alt), true, a.format, a.recipient, s); err == nil {
			c.Violate("%s: an altered string was verified", what)
		}
	}
	if err := verify(a, data, sum(b, data)); err == nil {
		c.Violate("%s: a signature of another pair was verified", what)
	}
	c.Count("altered data refused", 2)
}

// header18 protects headers of records.
func header18(c *Ctx, a, b *pair18) {
	h := &tar.Header{Typeflag: tar.TypeReg, Name: "/é/" + strings.Repeat("n", c.Rng.Intn(200)), Size: int64(c.Rng.Intn(1000)), Mode: 0o644, ModTime: time.Unix(1_700_000_000, 0), Uname: "ü", PAXRecords: map[string]string{"STFS.Version": "1"}, Format: tar.FormatPAX}
	want := string(mustJSON(h))
	x := *h
	what := fmt.Sprintf("%s pair with the password %q", a.kind, short18(a.password))
	protect, open := func(h *tar.Header, p *pair18) error {
		return encryption.EncryptHeader(h, p.format, p.recipient)
	}, func(h *tar.Header, p *pair18) error {
		return encryption.DecryptHeader(h, p.format, p.identity)
	}
	if a.sig {
		protect, open = func(h *tar.Header, p *pair18) error {
			return signature.SignHeader(h, true, p.format, p.identity)
		}, func(h *tar.Header, p *pair18) error {
			return signature.VerifyHeader(h, true, p.format, p.recipient)
		}
	}
	if err := protect(&x, a); err != nil {
		c.Violate("%s: protecting a header: %v", what, err)
	}
	y, z := x, x
	if err := open(&y, a); err != nil {
		c.Violate("%s: reading a header: %v", what, err)
	}
	if got := string(mustJSON(&y)); got != want {
		c.Violate("%s: reading a header: %s instead of %s", what, got, want)
	}
	c.Count("headers round-tripped", 1)
	if err := open(&z, b); err == nil {
		c.Violate("%s: another pair read a header", what)
	}
	c.Count("other pairs' data refused", 1)
}

// filesystem18 uses the pairs for a file system.
func filesystem18(c *Ctx, a, b *pair18) {
	cfg := Cfg{Comp: config.NoneKey, Enc: config.NoneKey, Sig: config.NoneKey, RecordSize: 20}
	if a.sig {
		cfg.Sig = a.format
	} else {
		cfg.Enc = a.format
	}
	what := fmt.Sprintf("%s pair with the password %q", a.kind, short18(a.password))
	ks := keysFor(cfg, "alice")
	set := func(p *pair18) *KeySet {
		k := ks
		if p.sig {
			k.SigIdentity, k.SigRecipient = p.identity, p.recipient
		} else {
			k.EncIdentity, k.EncRecipient = p.identity, p.recipient
		}
		return &k
	}
	r, err := NewRig(cfg, c.Base, Opts{Keys: set(a)})
	if err != nil {
		c.Violate("%s: using it for a file system: %v", what, err)
	}
	data := make([]byte, 2000)
	rand.New(rand.NewSource(c.Rng.Int63())).Read(data)
	if err := writeAll(r.FS, "/f", data); err != nil {
		c.Violate("%s: writing to a file system: %v", what, err)
	}
	n, err := r.Rebuilt()
	if err != nil {
		c.Violate("%s: opening a file system once more: %v", what, err)
	}
	if got, err := readAll(n.FS, "/f"); err != nil || !bytes.Equal(got, data) {
		c.Violate("%s: reading from a file system: %d bytes, %v", what, len(got), err)
	}
	n.Close()
	c.Count("file systems round-tripped", 1)

	// The other pair
	o, err := OpenRig(cfg, r.Dir, r.Drive, "", Opts{DBMem: true, Keys: set(b)})
	must(err)
	before := r.TapeBytes()
	if _, err := o.FS.Initialize("/", 0o755); err == nil {
		c.Violate("%s: another pair opened its file system", what)
	}
	if !bytes.Equal(before, r.TapeBytes()) {
		c.Violate("%s: trying to open its file system with another pair changed the tape", what)
	}
	o.Close()
	// The index of the first one, but the keys of the other
	o, err = OpenRig(cfg, r.Dir, r.Drive, r.DB, Opts{Keys: set(b)})
	must(err)
	if got, err := readAll(o.FS, "/f"); err == nil {
		c.Violate("%s: another pair read %d bytes (the same: %v) from its file system", what, len(got), bytes.Equal(got, data))
	}
	o.Close()
	c.Count("other pairs' data refused", 2)
}
