package main

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	stfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/spf13/afero"
)

// Ent is what a user can observe about one entry.
type Ent struct {
	Dir     bool
	Size    int64
	Perm    uint32
	Uid     uint32
	Gid     uint32
	Mtime   int64
	Atime   int64
	Ctime   int64
	Link    string // link target as returned by ReadlinkIfPossible, for links
	IsLink  bool
	Content string // for regular files: the bytes (or a digest, if large)
	ReadErr string
}

func digest(b []byte) string {
	if len(b) <= 4096 {
		return string(b)
	}
	return fmt.Sprintf("sha256:%x:%d", sha256.Sum256(b), len(b))
}

func (e Ent) String() string {
	c := e.Content
	if len(c) > 24 {
		c = c[:24] + "..."
	}
	k := "file"
	if e.Dir {
		k = "dir"
	}
	if e.IsLink {
		k += "/link->" + e.Link
	}
	return fmt.Sprintf("{%s size=%d perm=%o uid=%d gid=%d m=%d a=%d c=%d content=%q err=%s}", k, e.Size, e.Perm, e.Uid, e.Gid, e.Mtime, e.Atime, e.Ctime, c, e.ReadErr)
}

type Snap map[string]Ent

func entFromInfo(i os.FileInfo) Ent {
	e := Ent{Dir: i.IsDir(), Size: i.Size(), Perm: permBits(i.Mode()), Mtime: i.ModTime().UnixNano()}
	switch s := i.Sys().(type) {
	case *stfs.Stat:
		st := syscall.Stat_t(*s)
		e.Uid, e.Gid = st.Uid, st.Gid
		e.Atime = st.Atim.Nano()
		e.Ctime = st.Ctim.Nano()
	}
	return e
}

func permBits(m os.FileMode) uint32 {
	raw := uint32(m.Perm())
	if m&os.ModeSetuid != 0 {
		raw |= 0o4000
	}
	if m&os.ModeSetgid != 0 {
		raw |= 0o2000
	}
	if m&os.ModeSticky != 0 {
		raw |= 0o1000
	}
	return raw
}

type TreeError struct{ Msg string }

func (e *TreeError) Error() string { return e.Msg }

// Walk takes a snapshot of everything that is visible from the root.
func Walk(f afero.Fs) (Snap, error) {
	s := Snap{}
	return s, walk(f, "/", s, 0)
}

func readAll(f afero.Fs, p string) ([]byte, error) {
	h, err := f.Open(p)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(h)
	if cerr := h.Close(); err == nil {
		err = cerr
	}
	return b, err
}

func walk(f afero.Fs, p string, s Snap, depth int) error {
	if depth > 300 {
		return &TreeError{"tree deeper than 300 levels: " + p}
	}
	info, err := f.Stat(p)
	if err != nil {
		return &TreeError{fmt.Sprintf("stat %q: %v", p, err)}
	}
	e := entFromInfo(info)
	if e.Dir {
		e.Size = 0
	}
	if _, dup := s[p]; dup {
		return &TreeError{fmt.Sprintf("%q is listed more than once", p)}
	}
	if lr, ok := f.(afero.LinkReader); ok && p != "/" {
		if t, err := lr.ReadlinkIfPossible(p); err == nil {
			e.IsLink, e.Link = true, t
		}
	}
	if !e.Dir {
		b, err := readAll(f, p)
		if err != nil {
			e.ReadErr = err.Error()
		}
		e.Content = digest(b)
		if err == nil && int64(len(b)) != e.Size {
			e.ReadErr = fmt.Sprintf("read %d bytes, but size is %d", len(b), e.Size)
		}
		s[p] = e
		return nil
	}
	s[p] = e
	if e.IsLink {
		return nil // children are listed under the target
	}
	d, err := f.Open(p)
	if err != nil {
		return &TreeError{fmt.Sprintf("open dir %q: %v", p, err)}
	}
	infos, err := d.Readdir(-1)
	if cerr := d.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		return &TreeError{fmt.Sprintf("readdir %q: %v", p, err)}
	}
	for _, i := range infos {
		n := i.Name()
		if n == "" || n == "." || n == ".." || strings.Contains(n, "/") {
			return &TreeError{fmt.Sprintf("readdir %q lists %q", p, n)}
		}
		if err := walk(f, path.Join(p, n), s, depth+1); err != nil {
			return err
		}
	}
	return nil
}

// MustSnap takes a snapshot; unreadable entries are reported as an error as well.
func FullSnap(f afero.Fs) (Snap, error) {
	s, err := Walk(f)
	if err != nil {
		return s, err
	}
	for p, e := range s {
		if e.ReadErr != "" {
			return s, &TreeError{fmt.Sprintf("reading %q: %s", p, e.ReadErr)}
		}
	}
	return s, nil
}

// Diff describes the differences between two snapshots ("" if there are none).
func Diff(want, got Snap, wantName, gotName string) string {
	out := []string{}
	for p, w := range want {
		g, ok := got[p]
		if !ok {
			out = append(out, fmt.Sprintf("%q only in %s: %v", p, wantName, w))
		} else if g != w {
			out = append(out, fmt.Sprintf("%q differs: %s=%v %s=%v", p, wantName, w, gotName, g))
		}
	}
	for p, g := range got {
		if _, ok := want[p]; !ok {
			out = append(out, fmt.Sprintf("%q only in %s: %v", p, gotName, g))
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("... %d more", len(out)-6))
	}
	return strings.Join(out, "; ")
}

func (s Snap) Paths() []string {
	out := make([]string, 0, len(s))
	for p := range s {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (s Snap) Clone() Snap {
	n := Snap{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

var _ = time.Now
var _ = errors.New
