package main

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/rand"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"aead.dev/minisign"
	golog "github.com/fclairamb/go-log"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/tape"
	"github.com/pojntfx/stfs/pkg/utility"
	"github.com/spf13/afero"
)

// nopLogger is the structured logger handed to the file system under test.
type nopLogger struct{}

func (nopLogger) Debug(string, ...interface{})             {}
func (nopLogger) Info(string, ...interface{})              {}
func (nopLogger) Warn(string, ...interface{})              {}
func (nopLogger) Error(string, ...interface{})             {}
func (nopLogger) Panic(string, ...interface{})             {}
func (nopLogger) Trace(string, ...interface{})             {}
func (nopLogger) With(keyvals ...interface{}) golog.Logger { return nopLogger{} }

// Cfg is one pipeline configuration.
type Cfg struct {
	Comp       string `json:"comp,omitempty"`
	Level      string `json:"level,omitempty"`
	Enc        string `json:"enc,omitempty"`
	Sig        string `json:"sig,omitempty"`
	RecordSize int    `json:"recordSize"`
	Cache      string `json:"cache,omitempty"`
	WPR        bool   `json:"writeImpliesRead,omitempty"`
	Tape       bool   `json:"tape,omitempty"` // emulated tape drive instead of a regular file
}

func (c Cfg) String() string {
	n := func(s string) string {
		if s == "" {
			return "none"
		}
		return s
	}
	return fmt.Sprintf("comp=%s/%s enc=%s sig=%s rs=%d cache=%s tape=%v", n(c.Comp), n(c.Level), n(c.Enc), n(c.Sig), c.RecordSize, n(c.Cache), c.Tape)
}

func (c Cfg) Pipes() config.PipeConfig {
	return config.PipeConfig{Compression: c.Comp, Encryption: c.Enc, Signature: c.Sig, RecordSize: c.RecordSize}
}

// KeySet holds the parsed halves of the keys of one party.
type KeySet struct {
	EncRecipient, EncIdentity, SigRecipient, SigIdentity interface{}
}

var (
	keyMu    sync.Mutex
	keyCache = map[string]KeySet{}
)

// keysFor returns the keys of `party` for the formats of c (generated once per process).
func keysFor(c Cfg, party string) KeySet {
	keyMu.Lock()
	defer keyMu.Unlock()

	id := c.Enc + "|" + c.Sig + "|" + party
	if k, ok := keyCache[id]; ok {
		return k
	}

	var k KeySet
	encID := "enc" + c.Enc + "|" + party
	if e, ok := keyCache[encID]; ok {
		k.EncRecipient, k.EncIdentity = e.EncRecipient, e.EncIdentity
	} else {
		if c.Enc == config.NoneKey {
			k.EncRecipient, k.EncIdentity = []byte{}, []byte{}
		} else {
			priv, pub, err := utility.Keygen(config.PipeConfig{Encryption: c.Enc}, config.PasswordConfig{Password: "enc-pw"})
			must(err)
			k.EncRecipient, err = keys.ParseRecipient(c.Enc, pub)
			must(err)
			k.EncIdentity, err = keys.ParseIdentity(c.Enc, priv, "enc-pw")
			must(err)
		}
		keyCache[encID] = KeySet{EncRecipient: k.EncRecipient, EncIdentity: k.EncIdentity}
	}

	sigID := "sig" + c.Sig + "|" + party
	if e, ok := keyCache[sigID]; ok {
		k.SigRecipient, k.SigIdentity = e.SigRecipient, e.SigIdentity
	} else {
		switch c.Sig {
		case config.NoneKey:
			k.SigRecipient, k.SigIdentity = []byte{}, []byte{}
		case config.SignatureFormatMinisignKey:
			// Equivalent to Keygen + Parse*, without the deliberately slow key derivation (which C18 covers)
			pub, priv, err := minisign.GenerateKey(rand.Reader)
			must(err)
			k.SigRecipient, k.SigIdentity = pub, priv
		default:
			priv, pub, err := utility.Keygen(config.PipeConfig{Signature: c.Sig}, config.PasswordConfig{Password: "sig-pw"})
			must(err)
			k.SigRecipient, err = keys.ParseSignerRecipient(c.Sig, pub)
			must(err)
			k.SigIdentity, err = keys.ParseSignerIdentity(c.Sig, priv, "sig-pw")
			must(err)
		}
		keyCache[sigID] = KeySet{SigRecipient: k.SigRecipient, SigIdentity: k.SigIdentity}
	}

	keyCache[id] = k
	return k
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// Hooks observes and perturbs the seams between STFS and its drive, index and write caches.
type Hooks struct {
	// Point is called before every seam operation; a non-nil error is returned by the seam instead of (or, for
	// closes, after) performing it.
	Point func(kind string) error
}

func (h *Hooks) point(kind string) error {
	if h == nil || h.Point == nil {
		return nil
	}
	return h.Point(kind)
}

type Opts struct {
	Hooks    *Hooks
	ReadOnly bool
	Keys     *KeySet
	// ReadKeys, if set, are used for the reading side instead
	ReadKeys *KeySet
	NilWrite bool // compose like `serve http`: no write operations, no write cache
	OnHeader func(*config.Header)
	Tape     *EmuTape
	// Overwrite makes the first writer of the drive start at its beginning
	Overwrite bool
	DBMem     bool
	// WrapMeta replaces the index store handed to STFS
	WrapMeta func(config.MetadataPersister) config.MetadataPersister
	OnEvent  func(*config.HeaderEvent)
}

// Rig is one STFS instance over a drive and an index.
type Rig struct {
	Cfg   Cfg
	Dir   string
	Drive string
	DB    string
	Opts  Opts

	Persister *persisters.MetadataPersister
	Meta      config.MetadataConfig
	Backend   config.BackendConfig
	R, W      *operations.Operations
	FS        *stfs.STFS
	Wrapped   afero.Fs // what callers use instead of FS, if set
	Root      string
	ReadKeys  KeySet
	cacheDir  string
}

// View is what callers use.
func (r *Rig) View() afero.Fs {
	if r.Wrapped != nil {
		return r.Wrapped
	}
	return r.FS
}

var rigSeq int64
var rigMu sync.Mutex

func nextID() int64 {
	rigMu.Lock()
	defer rigMu.Unlock()
	rigSeq++
	return rigSeq
}

var openRigs = map[*Rig]struct{}{}

// closeRigs closes what the last case left open.
func closeRigs() {
	rigMu.Lock()
	l := []*Rig{}
	for r := range openRigs {
		l = append(l, r)
	}
	rigMu.Unlock()
	for _, r := range l {
		r.Close()
	}
}

// OpenRig composes STFS over drive & db without initialising it.
func OpenRig(cfg Cfg, dir, drive, db string, o Opts) (*Rig, error) {
	return OpenRigOn(cfg, dir, drive, db, o, config.BackendConfig{})
}

// OpenRigOn does the same on a given backend.
func OpenRigOn(cfg Cfg, dir, drive, db string, o Opts, backend config.BackendConfig) (*Rig, error) {
	r := &Rig{Cfg: cfg, Dir: dir, Drive: drive, DB: db, Opts: o}
	rigMu.Lock()
	openRigs[r] = struct{}{}
	rigMu.Unlock()

	var ks KeySet
	if o.Keys != nil {
		ks = *o.Keys
	} else {
		ks = keysFor(cfg, "alice")
	}
	rk := ks
	if o.ReadKeys != nil {
		rk = *o.ReadKeys
	}
	r.ReadKeys = rk

	if o.DBMem {
		db = ":memory:"
	}
	r.Persister = persisters.NewMetadataPersister(db)
	if err := r.Persister.Open(); err != nil {
		return nil, err
	}

	var mp config.MetadataPersister = r.Persister
	if o.WrapMeta != nil {
		mp = o.WrapMeta(mp)
	}
	if o.Hooks != nil {
		mp = &hookedMeta{MetadataPersister: mp, h: o.Hooks}
	}
	r.Meta = config.MetadataConfig{Metadata: mp}

	if backend.GetReader != nil {
		r.Backend = backend
	} else if o.Tape != nil {
		r.Backend = o.Tape.Backend(o.Overwrite)
	} else {
		mt := mtio.MagneticTapeIO{}
		tm := tape.NewTapeManager(drive, mt, cfg.RecordSize, o.Overwrite)
		r.Backend = config.BackendConfig{
			GetWriter: tm.GetWriter, CloseWriter: tm.Close,
			GetReader: tm.GetReader, CloseReader: tm.Close,
			MagneticTapeIO: mt,
		}
	}
	if o.Hooks != nil {
		r.Backend = hookBackend(r.Backend, o.Hooks)
	}

	onEvent := o.OnEvent
	if onEvent == nil {
		onEvent = func(*config.HeaderEvent) {}
	}
	r.R = operations.NewOperations(r.Backend, r.Meta, cfg.Pipes(), config.CryptoConfig{Recipient: rk.SigRecipient, Identity: rk.EncIdentity}, onEvent)
	r.W = operations.NewOperations(r.Backend, r.Meta, cfg.Pipes(), config.CryptoConfig{Recipient: ks.EncRecipient, Identity: ks.SigIdentity}, onEvent)

	r.cacheDir = filepath.Join(dir, fmt.Sprintf("wc%d", nextID()))
	ct := cfg.Cache
	if ct == "" {
		ct = config.WriteCacheTypeMemory
	}
	getBuf := func() (cache.WriteCache, func() error, error) {
		if err := o.Hooks.point("cache.new"); err != nil {
			return nil, nil, err
		}
		wc, clean, err := cache.NewCacheWrite(r.cacheDir, ct)
		if err == nil && o.Hooks != nil {
			wc = &hookedCache{WriteCache: wc, h: o.Hooks}
		}
		return wc, clean, err
	}

	wops := r.W
	if o.NilWrite {
		wops, getBuf = nil, nil
	}

	onHeader := o.OnHeader
	if onHeader == nil {
		onHeader = func(*config.Header) {}
	}

	r.FS = stfs.NewSTFS(r.R, wops, r.Meta, cfg.Level, getBuf, o.ReadOnly, cfg.WPR, onHeader, nopLogger{})
	return r, nil
}

// NewRig opens and initialises an instance over a fresh drive & index in a fresh directory below base.
func NewRig(cfg Cfg, base string, o Opts) (*Rig, error) {
	dir := filepath.Join(base, fmt.Sprintf("r%d", nextID()))
	if err := os.MkdirAll(dir, 0o700); err != nil {
		return nil, err
	}
	if cfg.Tape && o.Tape == nil {
		o.Tape = NewEmuTape(cfg.RecordSize * 512)
	}
	r, err := OpenRig(cfg, dir, filepath.Join(dir, "drive.tar"), filepath.Join(dir, "index.sqlite"), o)
	if err != nil {
		return nil, err
	}
	r.Root, err = r.FS.Initialize("/", os.ModePerm)
	if err != nil {
		return nil, fmt.Errorf("initialize: %w", err)
	}
	return r, nil
}

// Rebuilt opens a second instance over the same tape with an empty index and initialises it.
func (r *Rig) Rebuilt() (*Rig, error) {
	return r.rebuiltFrom(r.Drive, Opts{DBMem: true, Tape: r.Opts.Tape, Keys: r.Opts.Keys, ReadKeys: r.Opts.ReadKeys})
}

func (r *Rig) rebuiltFrom(drive string, o Opts) (*Rig, error) {
	n, err := OpenRig(r.Cfg, r.Dir, drive, "", o)
	if err != nil {
		return nil, err
	}
	n.Root, err = n.FS.Initialize("/", os.ModePerm)
	if err != nil {
		n.Close()
		return nil, fmt.Errorf("initialize over empty index: %w", err)
	}
	return n, nil
}

// Indexed opens a second instance over the same tape with an empty index and rebuilds it with recovery.Index.
func (r *Rig) Indexed(drive string) (*Rig, error) {
	n, err := OpenRig(r.Cfg, r.Dir, drive, "", Opts{DBMem: true, Tape: r.Opts.Tape, Keys: r.Opts.Keys, ReadKeys: r.Opts.ReadKeys})
	if err != nil {
		return nil, err
	}
	if err := n.Index(0, 0, true, nil); err != nil {
		n.Close()
		return nil, fmt.Errorf("index: %w", err)
	}
	n.Root, err = n.Meta.Metadata.GetRootPath(context.Background())
	if err != nil {
		n.Close()
		return nil, fmt.Errorf("root after index: %w", err)
	}
	return n, nil
}

// Index runs recovery.Index with the real decryption and verification callbacks, like `stfs recovery index` does.
func (r *Rig) Index(record, block int, overwrite bool, onHeader func(*config.Header)) error {
	reader, err := r.Backend.GetReader()
	if err != nil {
		return err
	}
	defer r.Backend.CloseReader()
	if onHeader == nil {
		onHeader = func(*config.Header) {}
	}
	return recovery.Index(
		reader, r.Backend.MagneticTapeIO, r.Meta, r.Cfg.Pipes(),
		config.CryptoConfig{Recipient: r.ReadKeys.SigRecipient, Identity: r.ReadKeys.EncIdentity},
		record, block, overwrite, false, 0,
		func(hdr *tar.Header, i int) error {
			return encryption.DecryptHeader(hdr, r.Cfg.Enc, r.ReadKeys.EncIdentity)
		},
		func(hdr *tar.Header, isRegular bool) error {
			return signature.VerifyHeader(hdr, isRegular, r.Cfg.Sig, r.ReadKeys.SigRecipient)
		},
		onHeader,
	)
}

// Reopened opens a second instance over the same tape and a copy of the current index.
func (r *Rig) Reopened() (*Rig, error) {
	db := filepath.Join(r.Dir, fmt.Sprintf("re%d.sqlite", nextID()))
	if err := copyFile(r.DB, db); err != nil {
		return nil, err
	}
	n, err := OpenRig(r.Cfg, r.Dir, r.Drive, db, Opts{Tape: r.Opts.Tape, Keys: r.Opts.Keys, ReadKeys: r.Opts.ReadKeys})
	if err != nil {
		return nil, err
	}
	n.Root, err = n.FS.Initialize("/", os.ModePerm)
	if err != nil {
		n.Close()
		return nil, fmt.Errorf("initialize over existing index: %w", err)
	}
	return n, nil
}

// Close frees the index connection (STFS has no call for this; without it the harness would run out of handles).
func (r *Rig) Close() {
	if r == nil {
		return
	}
	rigMu.Lock()
	delete(openRigs, r)
	rigMu.Unlock()
	if r.Persister == nil {
		return
	}
	if db := findDB(reflect.ValueOf(r.Persister)); db != nil {
		_ = db.Close()
	}
	if r.DB != "" && strings.HasPrefix(filepath.Base(r.DB), "re") {
		_ = os.Remove(r.DB)
	}
	_ = os.RemoveAll(r.cacheDir)
}

// Destroy closes the rig and removes its directory.
func (r *Rig) Destroy() {
	if r == nil {
		return
	}
	r.Close()
	if r.Dir != "" && strings.Contains(r.Dir, "stfsverif") {
		_ = os.RemoveAll(r.Dir)
	}
}

var dbType = reflect.TypeOf((*sql.DB)(nil))

func findDB(v reflect.Value) *sql.DB {
	for depth := 0; depth < 4; depth++ {
		for v.Kind() == reflect.Ptr {
			if v.Type() == dbType {
				if v.IsNil() {
					return nil
				}
				return (*sql.DB)(unsafe.Pointer(v.Pointer()))
			}
			if v.IsNil() {
				return nil
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return nil
		}
		next := reflect.Value{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == dbType {
				if f.IsNil() {
					return nil
				}
				return (*sql.DB)(unsafe.Pointer(f.Pointer()))
			}
			if f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct && !next.IsValid() {
				next = f
			}
		}
		if !next.IsValid() {
			return nil
		}
		v = next
	}
	return nil
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	return os.WriteFile(to, b, 0o600)
}

// Tape returns the current bytes of the drive.
func (r *Rig) TapeBytes() []byte {
	if r.Opts.Tape != nil {
		return r.Opts.Tape.Stream()
	}
	b, err := os.ReadFile(r.Drive)
	if err != nil {
		return nil
	}
	return b
}

// ---- seams -------------------------------------------------------------------------------------------------------

type driveWriter interface {
	io.Writer
	Stat() (os.FileInfo, error)
	Truncate(size int64) error
}

type hookedWriter struct {
	w driveWriter
	h *Hooks
}

var errInjected = errors.New("injected fault")

func (w *hookedWriter) Write(p []byte) (int, error) {
	if err := w.h.point("drive.write"); err != nil {
		// A failing drive writes a part of what it has been given
		n := 0
		if len(p) > 1 {
			n, _ = w.w.Write(p[:len(p)/2])
		}
		return n, err
	}
	return w.w.Write(p)
}
func (w *hookedWriter) Stat() (os.FileInfo, error) { return w.w.Stat() }
func (w *hookedWriter) Truncate(n int64) error     { return w.w.Truncate(n) }

type hookedReader struct {
	r config.ReadSeekFder
	h *Hooks
}

func (r *hookedReader) Read(p []byte) (int, error) {
	if err := r.h.point("drive.read"); err != nil {
		return 0, err
	}
	return r.r.Read(p)
}

func (r *hookedReader) Seek(off int64, whence int) (int64, error) {
	if err := r.h.point("drive.seek"); err != nil {
		return 0, err
	}
	return r.r.Seek(off, whence)
}
func (r *hookedReader) Fd() uintptr { return r.r.Fd() }

func hookBackend(b config.BackendConfig, h *Hooks) config.BackendConfig {
	return config.BackendConfig{
		GetWriter: func() (config.DriveWriterConfig, error) {
			if err := h.point("drive.openw"); err != nil {
				return config.DriveWriterConfig{}, err
			}
			w, err := b.GetWriter()
			if err != nil {
				return w, err
			}
			if dw, ok := w.Drive.(driveWriter); ok {
				w.Drive = &hookedWriter{dw, h}
			} else {
				w.Drive = &plainHookedWriter{w.Drive, h}
			}
			return w, nil
		},
		CloseWriter: func() error {
			err := b.CloseWriter()
			if e := h.point("drive.closew"); e != nil {
				return e
			}
			return err
		},
		GetReader: func() (config.DriveReaderConfig, error) {
			if err := h.point("drive.openr"); err != nil {
				return config.DriveReaderConfig{}, err
			}
			r, err := b.GetReader()
			if err != nil {
				return r, err
			}
			r.Drive = &hookedReader{r.Drive, h}
			return r, nil
		},
		CloseReader: func() error {
			err := b.CloseReader()
			if e := h.point("drive.closer"); e != nil {
				return e
			}
			return err
		},
		MagneticTapeIO: hookedMT{b.MagneticTapeIO, h},
	}
}

type hookedMT struct {
	config.MagneticTapeIO
	h *Hooks
}

func (m hookedMT) GetCurrentRecordFromTape(fd uintptr) (int64, error) {
	if err := m.h.point("drive.mt"); err != nil {
		return 0, err
	}
	return m.MagneticTapeIO.GetCurrentRecordFromTape(fd)
}

func (m hookedMT) GoToEndOfTape(fd uintptr) error {
	if err := m.h.point("drive.mt"); err != nil {
		return err
	}
	return m.MagneticTapeIO.GoToEndOfTape(fd)
}

func (m hookedMT) GoToNextFileOnTape(fd uintptr) error {
	if err := m.h.point("drive.mt"); err != nil {
		return err
	}
	return m.MagneticTapeIO.GoToNextFileOnTape(fd)
}

func (m hookedMT) SeekToRecordOnTape(fd uintptr, record int32) error {
	if err := m.h.point("drive.mt"); err != nil {
		return err
	}
	return m.MagneticTapeIO.SeekToRecordOnTape(fd, record)
}

type plainHookedWriter struct {
	w io.Writer
	h *Hooks
}

func (w *plainHookedWriter) Write(p []byte) (int, error) {
	if err := w.h.point("drive.write"); err != nil {
		return 0, err
	}
	return w.w.Write(p)
}

type hookedMeta struct {
	config.MetadataPersister
	h *Hooks
}

func (m *hookedMeta) UpsertHeader(ctx context.Context, d *config.Header, i bool) error {
	if err := m.h.point("index.UpsertHeader"); err != nil {
		return err
	}
	return m.MetadataPersister.UpsertHeader(ctx, d, i)
}
func (m *hookedMeta) UpdateHeaderMetadata(ctx context.Context, d *config.Header) error {
	if err := m.h.point("index.UpdateHeaderMetadata"); err != nil {
		return err
	}
	return m.MetadataPersister.UpdateHeaderMetadata(ctx, d)
}
func (m *hookedMeta) MoveHeader(ctx context.Context, o, n string, r, b int64) error {
	if err := m.h.point("index.MoveHeader"); err != nil {
		return err
	}
	return m.MetadataPersister.MoveHeader(ctx, o, n, r, b)
}
func (m *hookedMeta) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	if err := m.h.point("index.GetHeaders"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaders(ctx)
}
func (m *hookedMeta) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	if err := m.h.point("index.GetHeader"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeader(ctx, n)
}
func (m *hookedMeta) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	if err := m.h.point("index.GetHeaderByLinkname"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaderByLinkname(ctx, n)
}
func (m *hookedMeta) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	if err := m.h.point("index.GetHeaderChildren"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaderChildren(ctx, n)
}
func (m *hookedMeta) GetRootPath(ctx context.Context) (string, error) {
	if err := m.h.point("index.GetRootPath"); err != nil {
		return "", err
	}
	return m.MetadataPersister.GetRootPath(ctx)
}
func (m *hookedMeta) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	if err := m.h.point("index.GetHeaderDirectChildren"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.GetHeaderDirectChildren(ctx, n, l)
}
func (m *hookedMeta) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	if err := m.h.point("index.DeleteHeader"); err != nil {
		return nil, err
	}
	return m.MetadataPersister.DeleteHeader(ctx, n, r, b)
}
func (m *hookedMeta) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	if err := m.h.point("index.GetLastIndexedRecordAndBlock"); err != nil {
		return 0, 0, err
	}
	return m.MetadataPersister.GetLastIndexedRecordAndBlock(ctx, rs)
}
func (m *hookedMeta) PurgeAllHeaders(ctx context.Context) error {
	if err := m.h.point("index.PurgeAllHeaders"); err != nil {
		return err
	}
	return m.MetadataPersister.PurgeAllHeaders(ctx)
}

type hookedCache struct {
	cache.WriteCache
	h *Hooks
}

func (c *hookedCache) Read(p []byte) (int, error) {
	if err := c.h.point("cache.read"); err != nil {
		return 0, err
	}
	return c.WriteCache.Read(p)
}
func (c *hookedCache) Write(p []byte) (int, error) {
	if err := c.h.point("cache.write"); err != nil {
		return 0, err
	}
	return c.WriteCache.Write(p)
}
func (c *hookedCache) Seek(o int64, w int) (int64, error) {
	if err := c.h.point("cache.seek"); err != nil {
		return 0, err
	}
	return c.WriteCache.Seek(o, w)
}
func (c *hookedCache) Truncate(n int64) error {
	if err := c.h.point("cache.truncate"); err != nil {
		return err
	}
	return c.WriteCache.Truncate(n)
}
func (c *hookedCache) Size() (int64, error) {
	if err := c.h.point("cache.size"); err != nil {
		return 0, err
	}
	return c.WriteCache.Size()
}
func (c *hookedCache) Close() error {
	err := c.WriteCache.Close()
	if e := c.h.point("cache.close"); e != nil {
		return e
	}
	return err
}

// ---- sources for archive-level calls -----------------------------------------------------------------------------

// SrcInfo is a synthetic os.FileInfo for archive/update calls.
type SrcInfo struct {
	N  string
	S  int64
	M  os.FileMode
	T  time.Time
	Ow *tar.Header
}

func (i SrcInfo) Name() string       { return i.N }
func (i SrcInfo) Size() int64        { return i.S }
func (i SrcInfo) Mode() os.FileMode  { return i.M }
func (i SrcInfo) ModTime() time.Time { return i.T }
func (i SrcInfo) IsDir() bool        { return i.M.IsDir() }
func (i SrcInfo) Sys() interface{} {
	if i.Ow == nil {
		return nil
	}
	return i.Ow
}

type nopCloserRS struct{ *bytes.Reader }

func (nopCloserRS) Close() error { return nil }

type srcEntry struct {
	Path         string
	Dir          bool
	Perm         os.FileMode
	Uid          int
	Gid          int
	Uname, Gname string
	Mod          time.Time
	Data         []byte
}

// sources returns the getSrc callback for a batch.
func sources(entries []srcEntry, wrap func(io.ReadSeekCloser) io.ReadSeekCloser) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if i >= len(entries) {
			return config.FileConfig{}, io.EOF
		}
		e := entries[i]
		i++
		mode := e.Perm
		if e.Dir {
			mode |= os.ModeDir
		}
		return config.FileConfig{
			GetFile: func() (io.ReadSeekCloser, error) {
				var f io.ReadSeekCloser = nopCloserRS{bytes.NewReader(e.Data)}
				if wrap != nil {
					f = wrap(f)
				}
				return f, nil
			},
			Info: SrcInfo{N: filepath.Base(e.Path), S: int64(len(e.Data)), M: mode, T: e.Mod,
				Ow: &tar.Header{Uid: e.Uid, Gid: e.Gid, Uname: e.Uname, Gname: e.Gname}},
			Path: e.Path,
		}, nil
	}
}

// FetchAt restores what is recorded at a tape position.
func (r *Rig) FetchAt(record, block int) (data []byte, isDir bool, name string, err error) {
	reader, err := r.Backend.GetReader()
	if err != nil {
		return nil, false, "", err
	}
	defer r.Backend.CloseReader()
	buf := &bytes.Buffer{}
	err = recovery.Fetch(reader, r.Backend.MagneticTapeIO, r.Cfg.Pipes(),
		config.CryptoConfig{Recipient: r.ReadKeys.SigRecipient, Identity: r.ReadKeys.EncIdentity},
		func(p string, mode fs.FileMode) (io.WriteCloser, error) { return wc{buf}, nil },
		func(p string, mode fs.FileMode) error { isDir = true; return nil },
		record, block, "x", false, func(h *config.Header) { name = h.Name })
	return buf.Bytes(), isDir, name, err
}

type wc struct{ io.Writer }

func (wc) Close() error { return nil }

// RestoreBytes restores one entry through the archive interface.
func (r *Rig) RestoreBytes(name string) (map[string][]byte, error) {
	out := map[string]*bytes.Buffer{}
	err := r.R.Restore(
		func(p string, mode fs.FileMode) (io.WriteCloser, error) {
			b := &bytes.Buffer{}
			out[p] = b
			return wc{b}, nil
		},
		func(p string, mode fs.FileMode) error { return nil },
		name, "", false)
	res := map[string][]byte{}
	for k, v := range out {
		res[k] = v.Bytes()
	}
	return res, err
}

// Rows returns the live rows of the index, sorted by name.
func (r *Rig) Rows() ([]*config.Header, error) {
	rows, err := r.Persister.GetHeaders(context.Background())
	sort.Slice(rows, func(i, j int) bool {
		if rows[i].Name != rows[j].Name {
			return rows[i].Name < rows[j].Name
		}
		return rows[i].Linkname < rows[j].Linkname
	})
	return rows, err
}

// DumpDB dumps all rows of an index file, including tombstones.
func DumpDB(path string) (string, error) {
	db, err := sql.Open("sqlite", path)
	if err != nil {
		return "", err
	}
	defer db.Close()
	var out strings.Builder
	tables, err := db.Query("select name, sql from sqlite_master order by name")
	if err != nil {
		return "", err
	}
	names := []string{}
	for tables.Next() {
		var n string
		var s sql.NullString
		if err := tables.Scan(&n, &s); err != nil {
			return "", err
		}
		fmt.Fprintf(&out, "%s %s\n", n, s.String)
		if strings.HasPrefix(strings.ToLower(s.String), "create table") {
			names = append(names, n)
		}
	}
	tables.Close()
	for _, n := range names {
		rows, err := db.Query("select * from \"" + n + "\"")
		if err != nil {
			return "", err
		}
		cols, _ := rows.Columns()
		lines := []string{}
		for rows.Next() {
			vals := make([]interface{}, len(cols))
			ptrs := make([]interface{}, len(cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			if err := rows.Scan(ptrs...); err != nil {
				return "", err
			}
			lines = append(lines, fmt.Sprintf("%s %v\n", n, vals))
		}
		rows.Close()
		sort.Strings(lines)
		out.WriteString(strings.Join(lines, ""))
	}
	return out.String(), nil
}
