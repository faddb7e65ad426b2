package main

import (
	"bytes"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// Data describes generated content.
type Data struct {
	Seed int64  `json:"seed"`
	Size int    `json:"size"`
	Kind int    `json:"kind,omitempty"` // 0 random, 1 text, 2 zeros
	Lit  string `json:"lit,omitempty"`
}

func (d *Data) Bytes() []byte {
	if d == nil {
		return nil
	}
	if d.Lit != "" {
		return []byte(d.Lit)
	}
	b := make([]byte, d.Size)
	switch d.Kind {
	case 0:
		rand.New(rand.NewSource(d.Seed)).Read(b)
	case 1:
		w := fmt.Sprintf("line %d of the text\n", d.Seed)
		for i := range b {
			b[i] = w[i%len(w)]
		}
	}
	return b
}

// Act is a call on an open file.
type Act struct {
	K string `json:"k"`
	D *Data  `json:"d,omitempty"`
	N int64  `json:"n,omitempty"`
	W int    `json:"w,omitempty"`
}

type BatchEnt struct {
	Path string `json:"path"`
	Dir  bool   `json:"dir,omitempty"`
	Perm uint32 `json:"perm"`
	U    int    `json:"u,omitempty"`
	G    int    `json:"g,omitempty"`
	T    int64  `json:"t"`
	D    *Data  `json:"d,omitempty"`
}

// Op is one call (or, for "open", an open with calls on the handle).
type Op struct {
	K     string     `json:"k"`
	A     string     `json:"a,omitempty"`
	B     string     `json:"b,omitempty"`
	Flag  int        `json:"flag,omitempty"`
	Perm  uint32     `json:"perm,omitempty"`
	U     int        `json:"u,omitempty"`
	G     int        `json:"g,omitempty"`
	T1    int64      `json:"t1,omitempty"`
	T2    int64      `json:"t2,omitempty"`
	N     int        `json:"n,omitempty"`
	Acts  []Act      `json:"acts,omitempty"`
	Batch []BatchEnt `json:"batch,omitempty"`
}

func (o Op) String() string {
	s := o.K
	if o.A != "" {
		s += fmt.Sprintf(" %q", o.A)
	}
	if o.B != "" {
		s += fmt.Sprintf(" %q", o.B)
	}
	if o.K == "open" {
		s += " " + flagString(o.Flag)
	}
	for _, a := range o.Acts {
		s += " ." + a.K
	}
	for _, b := range o.Batch {
		s += fmt.Sprintf(" +%q", b.Path)
	}
	return s
}

// timeOf is the time of a number of nanoseconds, one of which stands for no time at all.
func timeOf(ns int64) time.Time {
	if ns == (time.Time{}).UnixNano() {
		return time.Time{}
	}
	return time.Unix(0, ns)
}

func flagString(f int) string {
	out := []string{}
	switch f & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR) {
	case os.O_RDONLY:
		out = append(out, "R")
	case os.O_WRONLY:
		out = append(out, "W")
	case os.O_RDWR:
		out = append(out, "RW")
	}
	for _, x := range []struct {
		f int
		n string
	}{{os.O_APPEND, "APPEND"}, {os.O_CREATE, "CREATE"}, {os.O_EXCL, "EXCL"}, {os.O_TRUNC, "TRUNC"}} {
		if f&x.f != 0 {
			out = append(out, x.n)
		}
	}
	return strings.Join(out, "|")
}

// class names the error class of an outcome.
func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, os.ErrNotExist), errors.Is(err, sql.ErrNoRows):
		return "notexist"
	case errors.Is(err, os.ErrExist):
		return "exist"
	case errors.Is(err, os.ErrPermission):
		return "permission"
	case errors.Is(err, config.ErrIsDirectory):
		return "isdir"
	case errors.Is(err, config.ErrIsFile):
		return "notdir"
	case errors.Is(err, config.ErrDirectoryNotEmpty):
		return "notempty"
	case errors.Is(err, os.ErrInvalid):
		return "invalid"
	case errors.Is(err, os.ErrClosed):
		return "closed"
	case errors.Is(err, io.EOF):
		return "eof"
	default:
		return "other:" + err.Error()
	}
}

// Result is what a call returned.
type Result struct {
	Err        error
	Class      string
	Info       os.FileInfo
	Names      []string
	Acts       []string // outcome of the calls on the handle
	Start, End time.Time
	Panic      string
}

// Exec performs an op against a file system (and, for archive-level ops, the write operations).
func Exec(r *Rig, op Op) (res Result) {
	res.Start = time.Now()
	defer func() {
		res.End = time.Now()
		res.Class = class(res.Err)
	}()
	f := r.View()
	switch op.K {
	case "create":
		var h afero.File
		h, res.Err = f.Create(op.A)
		if res.Err == nil {
			res.Acts = execActs(h, op.Acts, op.A)
			res.Err = h.Close()
		}
	case "open":
		var h afero.File
		h, res.Err = f.OpenFile(op.A, op.Flag, modeOf(op.Perm))
		if res.Err == nil {
			res.Acts = execActs(h, op.Acts, op.A)
			res.Err = h.Close()
		}
	case "mkdir":
		res.Err = f.Mkdir(op.A, modeOf(op.Perm))
	case "mkdirall":
		res.Err = f.MkdirAll(op.A, modeOf(op.Perm))
	case "remove":
		res.Err = f.Remove(op.A)
	case "removeall":
		res.Err = f.RemoveAll(op.A)
	case "rename":
		res.Err = f.Rename(op.A, op.B)
	case "chmod":
		res.Err = f.Chmod(op.A, modeOf(op.Perm))
	case "chown":
		res.Err = f.Chown(op.A, op.U, op.G)
	case "chtimes":
		res.Err = f.Chtimes(op.A, time.Unix(0, op.T1), time.Unix(0, op.T2))
	case "stat":
		res.Info, res.Err = f.Stat(op.A)
	case "list":
		var h afero.File
		h, res.Err = f.Open(op.A)
		if res.Err == nil {
			res.Names, res.Err = h.Readdirnames(op.N)
			sort.Strings(res.Names)
			if cerr := h.Close(); res.Err == nil {
				res.Err = cerr
			}
		}
	case "read":
		var b []byte
		b, res.Err = readAll(f, op.A)
		res.Acts = []string{string(b)}
	case "symlink":
		res.Err = r.FS.SymlinkIfPossible(op.A, op.B)
	case "archive":
		_, res.Err = r.W.Archive(sources(batchSrc(op.Batch), nil), r.Cfg.Level, false, false)
	case "update":
		_, res.Err = r.W.Update(sources(batchSrc(op.Batch), nil), r.Cfg.Level, op.N == 1, false)
	case "opdelete":
		res.Err = r.W.Delete(op.A)
	case "opmove":
		res.Err = r.W.Move(op.A, op.B)
	default:
		panic("harness: unknown op " + op.K)
	}
	return
}

func batchSrc(b []BatchEnt) []srcEntry {
	out := []srcEntry{}
	for _, e := range b {
		out = append(out, srcEntry{Path: e.Path, Dir: e.Dir, Perm: os.FileMode(e.Perm & 0o777), Uid: e.U, Gid: e.G, Uname: "u", Gname: "g", Mod: timeOf(e.T), Data: e.D.Bytes()})
	}
	return out
}

func modeOf(p uint32) os.FileMode {
	m := os.FileMode(p & 0o777)
	if p&0o4000 != 0 {
		m |= os.ModeSetuid
	}
	if p&0o2000 != 0 {
		m |= os.ModeSetgid
	}
	if p&0o1000 != 0 {
		m |= os.ModeSticky
	}
	return m
}

func execActs(h afero.File, acts []Act, name string) []string {
	out := []string{}
	for _, a := range acts {
		got := execAct(h, a)
		if a.K == "stat" && norm(name) != "/" {
			if i, err := h.Stat(); err == nil && i.Name() != path.Base(norm(name)) {
				got += fmt.Sprintf(" name=%q", i.Name())
			}
		}
		out = append(out, got)
	}
	return out
}

// execAct performs a call on a handle and returns a canonical description of everything it reported.
func execAct(h afero.File, a Act) string {
	switch a.K {
	case "write":
		n, err := h.Write(a.D.Bytes())
		return fmt.Sprintf("%d %s", n, class(err))
	case "writestring":
		n, err := h.WriteString(string(a.D.Bytes()))
		return fmt.Sprintf("%d %s", n, class(err))
	case "writeat":
		n, err := h.WriteAt(a.D.Bytes(), a.N)
		return fmt.Sprintf("%d %s", n, class(err))
	case "read":
		b := make([]byte, a.N)
		n, err := h.Read(b)
		return fmt.Sprintf("%d %s %x", n, class(err), b[:n])
	case "readat":
		b := make([]byte, a.W)
		n, err := h.ReadAt(b, a.N)
		return fmt.Sprintf("%d %s %x", n, class(err), b[:n])
	case "readfull": // reads N bytes or up to the end of the file
		b := make([]byte, a.N)
		n, err := io.ReadFull(h, b)
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
		return fmt.Sprintf("%d %s %x", n, class(err), b[:n])
	case "seek":
		n, err := h.Seek(a.N, a.W)
		if err != nil {
			n = 0
		}
		return fmt.Sprintf("%d %s", n, class(err))
	case "trunc":
		return class(h.Truncate(a.N))
	case "sync":
		return class(h.Sync())
	case "stat":
		i, err := h.Stat()
		if err != nil {
			return class(err)
		}
		return fmt.Sprintf("size=%d", i.Size())
	default:
		panic("harness: unknown act " + a.K)
	}
}

// ---- reference byte-array file -----------------------------------------------------------------------------------

// RefFile is the reference for an open file: a byte array with a cursor.
type RefFile struct {
	Data         []byte
	Cur          int64
	R, W, Append bool
	Dirty        bool
}

func (f *RefFile) writeAt(p []byte, off int64) {
	if len(p) == 0 {
		return
	}
	if end := off + int64(len(p)); end > int64(len(f.Data)) {
		f.Data = append(f.Data, make([]byte, end-int64(len(f.Data)))...)
	}
	copy(f.Data[off:], p)
	f.Dirty = true
}

func (f *RefFile) Act(a Act) string {
	switch a.K {
	case "write", "writestring":
		if !f.W {
			return "0 permission"
		}
		p := a.D.Bytes()
		if f.Append {
			f.Cur = int64(len(f.Data))
		}
		f.writeAt(p, f.Cur)
		f.Cur += int64(len(p))
		return fmt.Sprintf("%d ok", len(p))
	case "writeat":
		if !f.W {
			return "0 permission"
		}
		if a.N < 0 {
			return "0 invalid"
		}
		p := a.D.Bytes()
		f.writeAt(p, a.N)
		return fmt.Sprintf("%d ok", len(p))
	case "read", "readfull":
		if !f.R {
			return "0 permission "
		}
		if a.N == 0 {
			return "0 ok "
		}
		if f.Cur >= int64(len(f.Data)) {
			return "0 eof "
		}
		n := int64(len(f.Data)) - f.Cur
		c := "ok"
		if n > a.N {
			n = a.N
		} else if n < a.N && a.K == "readfull" {
			c = "eof"
		}
		b := f.Data[f.Cur : f.Cur+n]
		f.Cur += n
		return fmt.Sprintf("%d %s %x", n, c, b)
	case "readat":
		if !f.R {
			return "0 permission "
		}
		if a.W == 0 {
			return "0 ok "
		}
		if a.N < 0 {
			return "0 invalid "
		}
		if a.N >= int64(len(f.Data)) {
			return "0 eof "
		}
		n := int64(len(f.Data)) - a.N
		c := "ok"
		if n >= int64(a.W) {
			n = int64(a.W)
		} else {
			c = "eof"
		}
		return fmt.Sprintf("%d %s %x", n, c, f.Data[a.N:a.N+n])
	case "seek":
		dst := a.N
		switch a.W {
		case io.SeekCurrent:
			dst += f.Cur
		case io.SeekEnd:
			dst += int64(len(f.Data))
		}
		if dst < 0 {
			return "0 invalid"
		}
		f.Cur = dst
		return fmt.Sprintf("%d ok", dst)
	case "trunc":
		if !f.W {
			return "permission"
		}
		if a.N < 0 {
			return "invalid"
		}
		if int64(len(f.Data)) > a.N {
			f.Data = append([]byte{}, f.Data[:a.N]...)
		} else {
			f.Data = append(f.Data, make([]byte, a.N-int64(len(f.Data)))...)
		}
		f.Dirty = true
		return "ok"
	case "sync":
		return "ok"
	case "stat":
		return fmt.Sprintf("size=%d", len(f.Data))
	}
	panic("harness: unknown act " + a.K)
}

// ---- reference hierarchical file system --------------------------------------------------------------------------

type MNode struct {
	E    Ent
	Data []byte
	// Freedom of the attributes which the last call set: any value in the given intervals is right
	MLo, MHi         int64
	AnyA, AnyC, AnyM bool
}

// Model is the reference file system.
type Model struct {
	N        map[string]*MNode
	Uid, Gid uint32
	WPR      bool
}

func NewModel(root Ent) *Model {
	return &Model{N: map[string]*MNode{"/": {E: root}}, Uid: uint32(os.Getuid()), Gid: uint32(os.Getgid())}
}

// ModelFrom builds a model holding what a snapshot shows.
func ModelFrom(s Snap, content map[string][]byte) *Model {
	m := &Model{N: map[string]*MNode{}, Uid: uint32(os.Getuid()), Gid: uint32(os.Getgid())}
	for p, e := range s {
		m.N[p] = &MNode{E: e, Data: content[p]}
	}
	return m
}

func (m *Model) Clone() *Model {
	n := &Model{N: map[string]*MNode{}, Uid: m.Uid, Gid: m.Gid, WPR: m.WPR}
	for p, x := range m.N {
		c := *x
		n.N[p] = &c
	}
	return n
}

// norm is the reference's view on path spellings.
func norm(p string) string { return path.Join("/", p) }

func (m *Model) get(p string) *MNode { return m.N[p] }

func under(p, dir string) bool {
	return strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/") && p != dir
}

func (m *Model) hasChildren(p string) bool {
	for k := range m.N {
		if k != p && under(k, p) {
			return true
		}
	}
	return false
}

// parentErr returns the error classes for creating something at p
func (m *Model) parentErr(p string) string {
	d := path.Dir(p)
	n := m.get(d)
	if n == nil {
		// A file further up makes "not a directory" right as well
		for q := path.Dir(d); q != "/"; q = path.Dir(q) {
			if x := m.get(q); x != nil && !x.E.Dir {
				return "notexist|notdir"
			}
		}
		return "notexist"
	}
	if !n.E.Dir {
		return "notdir|notexist"
	}
	return ""
}

func (m *Model) create(p string, dir bool, perm uint32, res Result) {
	n := &MNode{E: Ent{Dir: dir, Perm: perm & 0o7777, Uid: m.Uid, Gid: m.Gid}, AnyA: true, AnyC: true, MLo: res.Start.UnixNano(), MHi: res.End.UnixNano()}
	m.N[p] = n
}

// Apply performs op on the model and returns the outcome classes ("a|b": either) the reference allows.
// The observed result is only used for the interval in which the call happened.
func (m *Model) Apply(op Op, res Result) (classes string, acts []string) {
	p := norm(op.A)
	n := m.get(p)
	miss := func(p string) string {
		if e := m.parentErr(p); e != "" {
			return e + "|notexist"
		}
		return "notexist"
	}
	switch op.K {
	case "stat", "read", "list":
		if n == nil {
			return miss(p), nil
		}
		if op.K == "read" {
			if n.E.Dir {
				return "isdir", []string{""}
			}
			return "ok", []string{string(n.Data)}
		}
		if op.K == "list" && !n.E.Dir {
			return "notdir", nil
		}
		return "ok", nil
	case "create", "open":
		flag, perm := op.Flag, op.Perm
		if op.K == "create" {
			flag, perm = os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666
		}
		acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
		f := &RefFile{R: acc != os.O_WRONLY || m.WPR, W: acc != os.O_RDONLY, Append: flag&os.O_APPEND != 0}
		if n == nil {
			if flag&os.O_CREATE == 0 {
				return miss(p), nil
			}
			if e := m.parentErr(p); e != "" {
				return e, nil
			}
			m.create(p, false, perm, res)
			n = m.get(p)
		} else {
			if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
				if n.E.Dir {
					return "exist|isdir", nil
				}
				return "exist", nil
			}
			if n.E.Dir {
				if f.W || f.Append || flag&os.O_TRUNC != 0 {
					return "isdir", nil
				}
				return "ok", nil
			}
		}
		f.Data = append([]byte{}, n.Data...)
		if flag&os.O_TRUNC != 0 && f.W {
			if len(f.Data) > 0 {
				f.Dirty = true
			}
			f.Data = nil
		}
		for _, a := range op.Acts {
			acts = append(acts, f.Act(a))
		}
		if f.Dirty {
			n.Data = f.Data
			n.E.Size = int64(len(f.Data))
			n.E.Content = digest(f.Data)
			n.MLo, n.MHi = res.Start.UnixNano(), res.End.UnixNano()
			n.AnyC = true
		}
		return "ok", acts
	case "mkdir":
		if n != nil {
			return "exist", nil
		}
		if e := m.parentErr(p); e != "" {
			return e, nil
		}
		m.create(p, true, op.Perm, res)
		return "ok", nil
	case "mkdirall":
		todo := []string{}
		for q := p; ; q = path.Dir(q) {
			if x := m.get(q); x != nil {
				if !x.E.Dir {
					return "notdir|exist|notexist", nil
				}
				break
			}
			todo = append(todo, q)
		}
		for _, q := range todo {
			m.create(q, true, op.Perm, res)
		}
		return "ok", nil
	case "remove":
		if n == nil {
			return miss(p), nil
		}
		if m.hasChildren(p) {
			return "notempty", nil
		}
		delete(m.N, p)
		return "ok", nil
	case "removeall":
		for k := range m.N {
			if k == p || under(k, p) {
				delete(m.N, k)
			}
		}
		return "ok", nil
	case "rename":
		to := norm(op.B)
		all := []string{}
		if p == "/" {
			all = append(all, "invalid")
		} else if n == nil {
			all = append(all, strings.Split(miss(p), "|")...)
		} else if n.E.Dir && under(to, p) {
			all = append(all, "invalid")
		}
		if to != "/" {
			if e := m.parentErr(to); e != "" {
				all = append(all, strings.Split(e, "|")...)
			}
		}
		t := m.get(to)
		if t != nil && n != nil && p != to {
			if t.E.Dir != n.E.Dir {
				all = append(all, "exist", "isdir", "notdir")
			}
			if t.E.Dir && m.hasChildren(to) {
				all = append(all, "notempty", "exist")
			}
			if under(p, to) {
				all = append(all, "notempty", "exist", "invalid")
			}
		}
		if to == "/" && p != "/" {
			all = append(all, "invalid", "exist", "notempty")
		}
		if len(all) > 0 {
			return strings.Join(all, "|"), nil
		}
		if p == to {
			return "ok", nil
		}
		delete(m.N, to)
		moved := map[string]*MNode{}
		for k, x := range m.N {
			if k == p || under(k, p) {
				moved[to+strings.TrimPrefix(k, p)] = x
				delete(m.N, k)
			}
		}
		for k, x := range moved {
			m.N[k] = x
		}
		return "ok", nil
	case "chmod":
		if n == nil {
			return miss(p), nil
		}
		n.E.Perm = op.Perm & 0o7777
		n.AnyC = true
		return "ok", nil
	case "chown":
		if n == nil {
			return miss(p), nil
		}
		n.E.Uid, n.E.Gid = uint32(op.U), uint32(op.G)
		n.AnyC = true
		return "ok", nil
	case "chtimes":
		if n == nil {
			return miss(p), nil
		}
		n.E.Atime, n.E.Mtime = op.T1, op.T2
		n.MLo, n.MHi = 0, 0
		n.AnyM, n.AnyA = false, false
		n.AnyC = true
		return "ok", nil
	}
	panic("harness: model cannot apply " + op.K)
}

// Check compares a snapshot with the model and, if they agree, fixes the attributes the model left open to the observed values.
func (m *Model) Check(s Snap) string {
	want := Snap{}
	for p, n := range m.N {
		e := n.E
		if e.Dir {
			e.Size = 0
		}
		g, ok := s[p]
		if ok {
			if n.MHi != 0 {
				if g.Mtime >= n.MLo && g.Mtime <= n.MHi {
					e.Mtime = g.Mtime
				} else {
					return fmt.Sprintf("%q: mtime %d is not within the call which set it (%d..%d)", p, g.Mtime, n.MLo, n.MHi)
				}
			} else if n.AnyM {
				e.Mtime = g.Mtime
			}
			if n.AnyA {
				e.Atime = g.Atime
			}
			if n.AnyC {
				e.Ctime = g.Ctime
			}
		}
		want[p] = e
	}
	if d := Diff(want, s, "reference", "actual"); d != "" {
		return d
	}
	for p, n := range m.N {
		n.E = s[p]
		n.MLo, n.MHi, n.AnyA, n.AnyC, n.AnyM = 0, 0, false, false, false
	}
	return ""
}

func classMatches(got, want string) bool {
	for _, w := range strings.Split(want, "|") {
		if w == got {
			return true
		}
	}
	return false
}

var _ = bytes.Equal
