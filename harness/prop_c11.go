package main

import (
	"fmt"
	"hash/maphash"
	"io"
	"math/rand"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C11: concurrent clients use one instance, with yields and delays injected at the seams, in a binary built with the race detector. The
// recorded history (with the order in which calls started and returned) and the final tree have to be those of a sequential order, which is
// searched for with a sequential specification of the calls; in the end, the tree has to be the one the tape rebuilds to.

func init() {
	register(&Prop{
		ID: "C11", Level: "exercised",
		Rule: "distinct (programs, linearization, number of overlapping pairs) triples of histories which were linearized; the race detector observes all of them",
		Plan: func(tier string) int { return map[string]int{"quick": 260, "thorough": 9000}[tier] },
		Run:  runC11,
		Need: []string{"calls", "linearized histories", "overlapping pairs", "rebuilds compared", "delays injected", "mixed histories", "calls stopped at a seam",
			"entries which several clients created", "tapes which several clients initialised"},
		Assumptions: []string{"the interleavings which the Go scheduler produced with the injected yields and delays"},
		Limit:       300 * time.Second,
		Race:        true,
	})
}

// lcall is a call of a history and what it returned.
type lcall struct {
	Client   int
	K        string
	A, B     string
	Flag     int
	Perm     uint32
	H        int // handle
	D        string
	N        int64
	W        int
	inv, ret int64
	class    string
	out      string
}

func (c *lcall) String() string {
	s := fmt.Sprintf("[%d..%d] client %d: %s", c.inv, c.ret, c.Client, c.K)
	if c.A != "" {
		s += fmt.Sprintf(" %q", c.A)
	}
	if c.B != "" {
		s += fmt.Sprintf(" %q", c.B)
	}
	if c.K == "open" {
		s += " " + flagString(c.Flag)
	}
	if c.H != 0 {
		s += fmt.Sprintf(" #%d", c.H)
	}
	if c.D != "" {
		s += fmt.Sprintf(" %q", shorten(c.D))
	}
	if c.N != 0 || c.W != 0 {
		s += fmt.Sprintf(" %d/%d", c.N, c.W)
	}
	return s + " -> " + c.class + " " + fmt.Sprintf("%q", shorten(c.out))
}

func shorten(s string) string {
	if len(s) > 60 {
		return s[:50] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

// ---- sequential specification -------------------------------------------------------------------------------------

type lino struct {
	dir      bool
	perm     uint32
	uid      int
	data     string
	unlinked bool
}

type lhandle struct {
	ino                          int
	r, w, app, trunc             bool
	dirty, loaded, closed, isdir bool
	buf                          string
	cur                          int64
}

type lstate struct {
	names map[string]int
	inos  []lino
	hs    map[int]lhandle
}

func (s *lstate) clone() *lstate {
	n := &lstate{names: make(map[string]int, len(s.names)+1), inos: append(make([]lino, 0, len(s.inos)+1), s.inos...), hs: make(map[int]lhandle, len(s.hs)+1)}
	for k, v := range s.names {
		n.names[k] = v
	}
	for k, v := range s.hs {
		n.hs[k] = v
	}
	return n
}

var lseed = maphash.MakeSeed()

// key identifies the state regardless of the numbers of the inodes.
func (s *lstate) key() uint64 {
	var h maphash.Hash
	h.SetSeed(lseed)
	ids := map[int]int{}
	names := make([]string, 0, len(s.names))
	for n := range s.names {
		names = append(names, n)
	}
	sort.Strings(names)
	put := func(i int) {
		x := s.inos[i]
		fmt.Fprintf(&h, "%v %o %d %v %q;", x.dir, x.perm, x.uid, x.unlinked, x.data)
	}
	for _, n := range names {
		i := s.names[n]
		if _, ok := ids[i]; !ok {
			ids[i] = len(ids)
		}
		h.WriteString(n)
		h.WriteByte(0)
		put(i)
	}
	hs := make([]int, 0, len(s.hs))
	for k := range s.hs {
		hs = append(hs, k)
	}
	sort.Ints(hs)
	for _, k := range hs {
		x := s.hs[k]
		if x.closed {
			fmt.Fprintf(&h, "h%d closed;", k)
			continue
		}
		if _, ok := ids[x.ino]; !ok {
			ids[x.ino] = len(ids)
			put(x.ino)
		}
		fmt.Fprintf(&h, "h%d %d %v %v %v %q %d;", k, ids[x.ino], x.trunc, x.dirty, x.loaded, x.buf, x.cur)
	}
	return h.Sum64()
}

func (s *lstate) hasChildren(p string) bool {
	for k := range s.names {
		if under(k, p) {
			return true
		}
	}
	return false
}

func (s *lstate) parentErr(p string) string {
	d := path.Dir(p)
	i, ok := s.names[d]
	if !ok {
		for q := path.Dir(d); q != "/"; q = path.Dir(q) {
			if x, ok := s.names[q]; ok && !s.inos[x].dir {
				return "notexist|notdir"
			}
		}
		return "notexist"
	}
	if !s.inos[i].dir {
		return "notdir|notexist"
	}
	return ""
}

func (s *lstate) mk(p string, dir bool, perm uint32, uid int) int {
	s.inos = append(s.inos, lino{dir: dir, perm: perm, uid: uid})
	s.names[p] = len(s.inos) - 1
	return len(s.inos) - 1
}

func (s *lstate) list(dir string) string {
	out := []string{}
	for k := range s.names {
		if k != "/" && path.Dir(k) == dir {
			out = append(out, path.Base(k))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// load returns whether the content could be read.
func (s *lstate) load(h *lhandle) bool {
	if h.loaded {
		return true
	}
	if !h.trunc {
		if s.inos[h.ino].unlinked {
			return false
		}
		h.buf = s.inos[h.ino].data
	}
	h.loaded = true
	return true
}

func (h *lhandle) writeAt(d string, off int64) {
	if d == "" {
		return
	}
	b := []byte(h.buf)
	if end := off + int64(len(d)); end > int64(len(b)) {
		b = append(b, make([]byte, end-int64(len(b)))...)
	}
	copy(b[off:], d)
	h.buf = string(b)
	h.dirty = true
}

func (s *lstate) flush(h *lhandle) {
	if !h.dirty || s.inos[h.ino].unlinked {
		return
	}
	s.load(h)
	s.inos[h.ino].data = h.buf
	h.dirty = false
}

// apply performs the call on the state (which it changes) and returns the classes and the output which are right; any output is if any is set.
func (s *lstate) apply(c *lcall, uid int) (classes, out string, any bool) {
	p := c.A
	i, exists := s.names[p]
	miss := func(p string) string {
		if e := s.parentErr(p); e != "" {
			return e + "|notexist"
		}
		return "notexist"
	}
	if c.H != 0 && c.K != "open" {
		h := s.hs[c.H]
		defer func() { s.hs[c.H] = h }()
		switch { // No property speaks about what these return
		case h.closed && c.K == "hlist":
			return "closed|notdir|ok|notexist", "", true
		case h.closed && c.K == "hsync":
			return "closed|ok|isdir", "", true
		case h.closed:
			return "closed|isdir", "", true
		case h.isdir && (c.K == "hwrite" || c.K == "hwriteat" || c.K == "htrunc"):
			return "isdir|permission", "", true
		}
		switch c.K {
		case "hwrite":
			if !h.w {
				return "permission", "0", false
			}
			if !s.load(&h) {
				return "notexist", "0", false
			}
			if h.app {
				h.cur = int64(len(h.buf))
			}
			h.writeAt(c.D, h.cur)
			h.cur += int64(len(c.D))
			return "ok", fmt.Sprint(len(c.D)), false
		case "hwriteat":
			if !h.w {
				return "permission", "0", false
			}
			if !s.load(&h) {
				return "notexist", "0", false
			}
			h.writeAt(c.D, c.N)
			return "ok", fmt.Sprint(len(c.D)), false
		case "hread":
			if h.isdir {
				return "isdir", "", false
			}
			if !h.r {
				return "permission", "", false
			}
			if !s.load(&h) {
				return "notexist", "", false
			}
			if h.cur >= int64(len(h.buf)) {
				return "eof", "", false
			}
			b := h.buf[h.cur:]
			if int64(len(b)) > c.N {
				b = b[:c.N]
			}
			h.cur += int64(len(b))
			return "ok", b, false
		case "hreadat":
			if h.isdir {
				return "isdir", "", false
			}
			if !h.r {
				return "permission", "", false
			}
			if !s.load(&h) {
				return "notexist", "", false
			}
			if c.N >= int64(len(h.buf)) {
				return "eof", "", false
			}
			b := h.buf[c.N:]
			if len(b) >= c.W {
				return "ok", b[:c.W], false
			}
			return "eof", b, false
		case "hseek":
			if h.isdir {
				return "ok", "", true
			}
			dst := c.N
			switch c.W {
			case io.SeekCurrent:
				dst += h.cur
			case io.SeekEnd:
				if !s.load(&h) {
					return "notexist", "", true
				}
				dst += int64(len(h.buf))
			}
			if dst < 0 {
				return "invalid", "", true
			}
			h.cur = dst
			return "ok", fmt.Sprint(dst), false
		case "htrunc":
			if !h.w {
				return "permission", "", false
			}
			if !s.load(&h) {
				return "notexist", "", false
			}
			b := []byte(h.buf)
			if int64(len(b)) > c.N {
				b = b[:c.N]
			} else {
				b = append(b, make([]byte, c.N-int64(len(b)))...)
			}
			h.buf, h.dirty = string(b), true
			return "ok", "", false
		case "hsync":
			if h.isdir {
				return "isdir", "", false
			}
			s.flush(&h)
			return "ok", "", false
		case "hclose":
			s.flush(&h)
			h.closed = true
			return "ok", "", false
		case "hlist":
			if !h.isdir {
				return "notdir", "", true
			}
			if s.inos[h.ino].unlinked {
				return "ok|notexist", "", true
			}
			for k, x := range s.names {
				if x == h.ino {
					return "ok", s.list(k), false
				}
			}
		}
		panic("harness: unknown call " + c.K)
	}
	switch c.K {
	case "stat":
		if !exists {
			return miss(p), "", false
		}
		x := s.inos[i]
		size := len(x.data)
		if x.dir {
			size = 0
		}
		return "ok", fmt.Sprintf("%v %o %d %d", x.dir, x.perm, size, x.uid), false
	case "open":
		acc := c.Flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
		h := lhandle{r: acc != os.O_WRONLY, w: acc != os.O_RDONLY, app: c.Flag&os.O_APPEND != 0}
		h.trunc = h.w && c.Flag&os.O_TRUNC != 0
		if !exists {
			if c.Flag&os.O_CREATE == 0 {
				return miss(p), "", false
			}
			if e := s.parentErr(p); e != "" {
				return e, "", false
			}
			i = s.mk(p, false, c.Perm, uid)
		} else {
			x := s.inos[i]
			if c.Flag&os.O_CREATE != 0 && c.Flag&os.O_EXCL != 0 {
				return "exist|isdir", "", false
			}
			if x.dir && (h.w || h.app || c.Flag&os.O_TRUNC != 0) {
				return "isdir", "", false
			}
			h.dirty = h.trunc && len(x.data) > 0
			h.isdir = x.dir
		}
		h.ino = i
		s.hs[c.H] = h
		return "ok", "", false
	case "mkdir":
		if exists {
			return "exist", "", false
		}
		if e := s.parentErr(p); e != "" {
			return e, "", false
		}
		s.mk(p, true, c.Perm, uid)
		return "ok", "", false
	case "mkdirall":
		todo := []string{}
		for q := p; ; q = path.Dir(q) {
			if x, ok := s.names[q]; ok {
				if !s.inos[x].dir {
					return "notdir|exist|notexist", "", false
				}
				break
			}
			todo = append(todo, q)
		}
		for _, q := range todo {
			s.mk(q, true, c.Perm, uid)
		}
		return "ok", "", false
	case "remove":
		if !exists {
			return miss(p), "", false
		}
		if s.hasChildren(p) {
			return "notempty", "", false
		}
		s.inos[i].unlinked = true
		delete(s.names, p)
		return "ok", "", false
	case "removeall":
		for k, x := range s.names {
			if k == p || under(k, p) {
				s.inos[x].unlinked = true
				delete(s.names, k)
			}
		}
		return "ok", "", false
	case "rename":
		to := c.B
		all := []string{}
		if !exists {
			all = append(all, strings.Split(miss(p), "|")...)
		} else if s.inos[i].dir && under(to, p) {
			all = append(all, "invalid")
		}
		if e := s.parentErr(to); e != "" {
			all = append(all, strings.Split(e, "|")...)
		}
		if t, ok := s.names[to]; ok && exists && p != to {
			if s.inos[t].dir != s.inos[i].dir {
				all = append(all, "exist", "isdir", "notdir")
			}
			if s.inos[t].dir && s.hasChildren(to) {
				all = append(all, "notempty", "exist")
			}
		}
		if len(all) > 0 {
			return strings.Join(all, "|"), "", false
		}
		if p == to {
			return "ok", "", false
		}
		if t, ok := s.names[to]; ok {
			s.inos[t].unlinked = true
			delete(s.names, to)
		}
		moved := map[string]int{}
		for k, x := range s.names {
			if k == p || under(k, p) {
				moved[to+strings.TrimPrefix(k, p)] = x
				delete(s.names, k)
			}
		}
		for k, x := range moved {
			s.names[k] = x
		}
		return "ok", "", false
	case "chmod":
		if !exists {
			return miss(p), "", false
		}
		s.inos[i].perm = c.Perm
		return "ok", "", false
	case "chown":
		if !exists {
			return miss(p), "", false
		}
		s.inos[i].uid = int(c.N)
		return "ok", "", false
	case "chtimes":
		if !exists {
			return miss(p), "", false
		}
		return "ok", "", false
	}
	panic("harness: unknown call " + c.K)
}

func (s *lstate) tree() string {
	out := []string{}
	for k, i := range s.names {
		x := s.inos[i]
		out = append(out, fmt.Sprintf("%s %v %o %d %q", k, x.dir, x.perm, x.uid, x.data))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// linearize searches for a sequential order of the calls which explains their results and the final tree.
func linearize(start *lstate, calls []*lcall, final string, uid int, budget int) (order []int, decided bool, best int, bestTree string) {
	type memo struct{ mask, state uint64 }
	seen := map[memo]struct{}{}
	all := uint64(1)<<uint(len(calls)) - 1
	nodes := 0
	byRet := make([]int, len(calls))
	for i := range byRet {
		byRet[i] = i
	}
	sort.Slice(byRet, func(a, b int) bool { return calls[byRet[a]].ret < calls[byRet[b]].ret })
	var dfs func(mask uint64, s *lstate, path []int) []int
	dfs = func(mask uint64, s *lstate, path []int) []int {
		if mask == all {
			t := s.tree()
			if t == final {
				return append([]int{}, path...)
			}
			bestTree = t
			return nil
		}
		m := memo{mask, s.key()}
		if _, ok := seen[m]; ok {
			return nil
		}
		seen[m] = struct{}{}
		nodes++
		if nodes > budget {
			return nil
		}
		if len(path) > best {
			best = len(path)
		}
		minRet := int64(1) << 62
		for i, c := range calls {
			if mask&(1<<uint(i)) == 0 && c.ret < minRet {
				minRet = c.ret
			}
		}
		for _, i := range byRet {
			c := calls[i]
			if mask&(1<<uint(i)) != 0 || c.inv > minRet {
				continue
			}
			n := s.clone()
			classes, out, any := n.apply(c, uid)
			if !classMatches(c.class, classes) || !any && c.out != out {
				continue
			}
			if r := dfs(mask|1<<uint(i), n, append(path, i)); r != nil {
				return r
			}
			if nodes > budget {
				return nil
			}
		}
		return nil
	}
	order = dfs(0, start, nil)
	return order, order != nil || nodes <= budget, best, bestTree
}

// ---- clients ------------------------------------------------------------------------------------------------------

type lrun struct {
	r       *Rig
	clock   int64
	mu      sync.Mutex
	handles map[int]afero.File
	calls   []*lcall
}

func (l *lrun) handle(i int) afero.File {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.handles[i]
}

// do performs a call and records it.
func (l *lrun) do(c *lcall) *lcall {
	var err error
	var f afero.File
	if c.H != 0 && c.K != "open" {
		f = l.handle(c.H)
	}
	fsys := l.r.FS
	c.inv = atomic.AddInt64(&l.clock, 1)
	switch c.K {
	case "open":
		if f, err = fsys.OpenFile(c.A, c.Flag, os.FileMode(c.Perm)); err == nil {
			l.mu.Lock()
			l.handles[c.H] = f
			l.mu.Unlock()
		}
	case "hwrite":
		var n int
		if len(c.D)%2 == 0 {
			n, err = f.Write([]byte(c.D))
		} else {
			n, err = f.WriteString(c.D)
		}
		c.out = fmt.Sprint(n)
	case "hwriteat":
		var n int
		n, err = f.WriteAt([]byte(c.D), c.N)
		c.out = fmt.Sprint(n)
	case "hread":
		b := make([]byte, c.N)
		var n int
		n, err = f.Read(b)
		c.out = string(b[:n])
	case "hreadat":
		b := make([]byte, c.W)
		var n int
		n, err = f.ReadAt(b, c.N)
		c.out = string(b[:n])
	case "hseek":
		var n int64
		n, err = f.Seek(c.N, c.W)
		c.out = fmt.Sprint(n)
	case "htrunc":
		err = f.Truncate(c.N)
	case "hsync":
		err = f.Sync()
	case "hclose":
		err = f.Close()
	case "hlist":
		var names []string
		names, err = f.Readdirnames(-1)
		sort.Strings(names)
		c.out = strings.Join(names, ",")
	case "stat":
		var i os.FileInfo
		if i, err = fsys.Stat(c.A); err == nil {
			e := entFromInfo(i)
			size := e.Size
			if e.Dir {
				size = 0
			}
			c.out = fmt.Sprintf("%v %o %d %d", e.Dir, e.Perm, size, e.Uid)
		}
	case "mkdir":
		err = fsys.Mkdir(c.A, os.FileMode(c.Perm))
	case "mkdirall":
		err = fsys.MkdirAll(c.A, os.FileMode(c.Perm))
	case "remove":
		err = fsys.Remove(c.A)
	case "removeall":
		err = fsys.RemoveAll(c.A)
	case "rename":
		err = fsys.Rename(c.A, c.B)
	case "chmod":
		err = fsys.Chmod(c.A, os.FileMode(c.Perm))
	case "chown":
		err = fsys.Chown(c.A, int(c.N), 5)
	case "chtimes":
		err = fsys.Chtimes(c.A, time.Unix(1600000000+c.N, 0), time.Unix(1600000000+c.N, 0))
	default:
		panic("harness: unknown call " + c.K)
	}
	c.ret = atomic.AddInt64(&l.clock, 1)
	c.class = class(err)
	l.mu.Lock()
	l.calls = append(l.calls, c)
	l.mu.Unlock()
	return c
}

// delays are injected at all seams.
func delays(c *Ctx, seed int64) (*Hooks, *int64) {
	n := int64(0)
	var mu sync.Mutex
	rng := rand.New(rand.NewSource(seed))
	style := rng.Intn(4)
	return &Hooks{Point: func(kind string) error {
		mu.Lock()
		x, d := rng.Intn(100), rng.Intn(400)
		mu.Unlock()
		switch {
		case style == 0:
		case x < 25:
			runtime.Gosched()
			atomic.AddInt64(&n, 1)
		case x < 25+3*style:
			time.Sleep(time.Duration(d) * time.Microsecond)
			atomic.AddInt64(&n, 1)
		}
		return nil
	}}, &n
}

var c11Paths = []string{"/s", "/s/a", "/s/b", "/s/d", "/s/d/x", "/s/d/y", "/t", "/s/d2", "/s/a_", "/s/ab"}

func runC11(c *Ctx) {
	if c.Idx%4 == 3 {
		mixed(c)
		return
	}
	if c.Idx%5 == 2 {
		preempted(c)
		return
	}
	var cfg Cfg
	switch {
	case c.Idx%6 == 1:
		cfg = fullCfg(c.Rng)
		cfg.Level = config.CompressionLevelFastestKey
	case c.Idx%12 == 2:
		cfg = tapeCfg(c.Rng)
	default:
		cfg = Cfg{Level: config.CompressionLevelFastestKey, RecordSize: recordSizes[c.Rng.Intn(7)], Cache: caches(c.Rng)}
	}
	h, injected := delays(c, c.Seed)
	r, err := NewRig(cfg, c.Base, Opts{Hooks: h})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	l := &lrun{r: r, handles: map[int]afero.File{}}
	uid := os.Getuid()
	root := entOf2(r)
	start := &lstate{names: map[string]int{"/": 0}, inos: []lino{{dir: true, perm: root.Perm, uid: int(root.Uid)}}, hs: map[int]lhandle{}}

	// Something to work on
	hid := 0
	nextH := func() int { hid++; return hid }
	setup := func(c *lcall) *lcall { c.Client = -1; return l.do(c) }
	setup(&lcall{K: "mkdir", A: "/s", Perm: 0o755})
	setup(&lcall{K: "mkdir", A: "/s/d", Perm: 0o755})
	for _, p := range []string{"/s/a", "/s/d/x"} {
		if c.Rng.Intn(3) == 0 {
			continue
		}
		id := nextH()
		setup(&lcall{K: "open", A: p, Flag: os.O_RDWR | os.O_CREATE | os.O_TRUNC, Perm: 0o644, H: id})
		setup(&lcall{K: "hwrite", H: id, D: "initial " + p})
		setup(&lcall{K: "hclose", H: id})
	}
	shared := 0
	if c.Rng.Intn(3) == 0 {
		shared = nextH()
		setup(&lcall{K: "open", A: "/t", Flag: os.O_RDWR | os.O_CREATE, Perm: 0o600, H: shared})
	}

	clients := 2 + c.Rng.Intn(7)
	per := 44 / clients
	if per > 9 {
		per = 9
	}
	type step struct {
		c     *lcall
		needs bool // only if the handle is open
	}
	programs := [][]step{}
	for i := 0; i < clients; i++ {
		prog := []step{}
		n := 0
		pick := func() string {
			if c.Rng.Intn(6) == 0 {
				return fmt.Sprintf("/c%d", i)
			}
			return c11Paths[c.Rng.Intn(len(c11Paths))]
		}
		content := func() string {
			s := fmt.Sprintf("<client %d call %d>", i, len(prog))
			if c.Rng.Intn(8) == 0 {
				s = strings.Repeat(s, 1+c.Rng.Intn(200))
			}
			return s
		}
		add := func(x *lcall, needs bool) {
			x.Client = i
			prog = append(prog, step{x, needs})
			n++
		}
		for n < per {
			p := pick()
			switch c.Rng.Intn(16) {
			case 0, 1, 2: // writes
				id := nextH()
				flag := []int{os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_WRONLY | os.O_CREATE | os.O_APPEND, os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_WRONLY | os.O_TRUNC}[c.Rng.Intn(7)]
				add(&lcall{K: "open", A: p, Flag: flag, Perm: 0o666, H: id}, false)
				add(&lcall{K: "hwrite", H: id, D: content()}, true)
				switch c.Rng.Intn(6) {
				case 0:
					add(&lcall{K: "hsync", H: id}, true)
				case 1:
					add(&lcall{K: "hwrite", H: id, D: content()}, true)
				case 2:
					add(&lcall{K: "htrunc", H: id, N: int64(c.Rng.Intn(30))}, true)
				case 3:
					add(&lcall{K: "hreadat", H: id, N: 0, W: 5000}, true)
				}
				add(&lcall{K: "hclose", H: id}, true)
			case 3, 4: // reads
				id := nextH()
				add(&lcall{K: "open", A: p, Flag: os.O_RDONLY, H: id}, false)
				add(&lcall{K: "hread", H: id, N: 8192}, true)
				add(&lcall{K: "hclose", H: id}, true)
			case 5: // listings
				id := nextH()
				add(&lcall{K: "open", A: []string{"/", "/s", "/s/d", "/s/d2"}[c.Rng.Intn(4)], Flag: os.O_RDONLY, H: id}, false)
				add(&lcall{K: "hlist", H: id}, true)
				add(&lcall{K: "hclose", H: id}, true)
			case 6:
				add(&lcall{K: "mkdir", A: p, Perm: 0o700 | uint32(i)}, false)
			case 7:
				add(&lcall{K: "mkdirall", A: p + []string{"", "/m", "/m/n"}[c.Rng.Intn(3)], Perm: 0o700 | uint32(i)}, false)
			case 8:
				add(&lcall{K: "remove", A: p}, false)
			case 9:
				add(&lcall{K: "removeall", A: p}, false)
			case 10, 11:
				add(&lcall{K: "rename", A: p, B: pick()}, false)
			case 12:
				add(&lcall{K: []string{"chmod", "chown", "chtimes"}[c.Rng.Intn(3)], A: p, Perm: 0o600 | uint32(i), N: int64(i)}, false)
			case 13, 14:
				add(&lcall{K: "stat", A: p}, false)
			case 15:
				if shared == 0 {
					continue
				}
				switch c.Rng.Intn(6) {
				case 0, 1:
					add(&lcall{K: "hwrite", H: shared, D: content()}, true)
				case 2:
					add(&lcall{K: "hseek", H: shared, N: int64(c.Rng.Intn(40)), W: c.Rng.Intn(3)}, true)
				case 3:
					add(&lcall{K: "hread", H: shared, N: int64(1 + c.Rng.Intn(30))}, true)
				case 4:
					add(&lcall{K: "hwriteat", H: shared, D: content(), N: int64(c.Rng.Intn(60))}, true)
				case 5:
					add(&lcall{K: "hsync", H: shared}, true)
				}
			}
		}
		programs = append(programs, prog)
	}
	// At most 64 calls can be searched
	total := len(l.calls)
	for i := range programs {
		total += len(programs[i])
	}
	for i := 0; total > 60; i = (i + 1) % len(programs) {
		if p := programs[i]; len(p) > 1 {
			programs[i] = p[:len(p)-1]
			total--
		}
	}

	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := range programs {
		wg.Add(1)
		prog := programs[i]
		gosched := c.Rng.Intn(2) == 0
		go func() {
			defer wg.Done()
			<-begin
			for _, s := range prog {
				if s.needs && l.handle(s.c.H) == nil {
					continue
				}
				if gosched {
					runtime.Gosched()
				}
				l.do(s.c)
			}
		}()
	}
	c.Trace("%d clients [%v]", clients, cfg)
	close(begin)
	wg.Wait()
	if shared != 0 && l.handle(shared) != nil {
		setup(&lcall{K: "hclose", H: shared})
	}
	c.Count("delays injected", int(atomic.LoadInt64(injected)))
	c.Count("calls", len(l.calls))

	history := func() string {
		x := append([]*lcall{}, l.calls...)
		sort.Slice(x, func(a, b int) bool { return x[a].inv < x[b].inv })
		out := []string{}
		for _, y := range x {
			out = append(out, "    "+y.String())
		}
		return strings.Join(out, "\n")
	}
	// The tree in the end, for which handles which are still open do not matter
	snap, content := treeOf(c, r)
	final := []string{}
	for p, e := range snap {
		d := ""
		if !e.Dir {
			d = content[p]
		}
		final = append(final, fmt.Sprintf("%s %v %o %d %q", p, e.Dir, e.Perm, e.Uid, d))
	}
	sort.Strings(final)
	order, decided, best, bestTree := linearize(start, l.calls, strings.Join(final, "\n"), uid, c.Pick(300000, 2000000))
	if order == nil {
		if decided {
			c.Violate("no sequential order of the calls explains what they returned and the final tree (at most %d of %d calls) [%v]\nhistory:\n%s\nfinal tree:\n%s\nclosest:\n%s", best, len(l.calls), cfg, history(), strings.Join(final, "\n"), bestTree)
		}
		c.Count("histories beyond the budget of the search", 1)
	} else {
		overlaps := 0
		for i, a := range l.calls {
			for _, b := range l.calls[:i] {
				if a.inv < b.ret && b.inv < a.ret {
					overlaps++
				}
			}
		}
		c.Count("linearized histories", 1)
		c.Count("overlapping pairs", overlaps)
		sig := ""
		for _, i := range order {
			sig += fmt.Sprint(l.calls[i].Client, ",")
		}
		c.Eval(fmt.Sprintf("%d|%s|%d", c.Idx, sig, overlaps))
		if c.Idx < 3 {
			c.Sample("%d clients, %d calls, %d overlapping pairs, linearized as %s [%v]", clients, len(l.calls), overlaps, sig, cfg)
		}
	}
	c11Rebuild(c, r, history)
	r.Destroy()
}

func c11Rebuild(c *Ctx, r *Rig, history func() string) {
	live, err := FullSnap(r.FS)
	if err != nil {
		c.Violate("the final tree can not be read: %v [%v]\n%s", err, r.Cfg, history())
	}
	rb, err := r.Rebuilt()
	if err != nil {
		c.Violate("rebuilding the index in the end: %v [%v]\n%s", err, r.Cfg, history())
	}
	s, err := FullSnap(rb.FS)
	if err != nil {
		c.Violate("the rebuilt tree can not be read: %v [%v]\n%s", err, r.Cfg, history())
	}
	if d := Diff(live, s, "live", "rebuilt"); d != "" {
		c.Violate("the final tree is not the one on the tape: %s [%v]\n%s", d, r.Cfg, history())
	}
	rb.Close()
	c.Count("rebuilds compared", 1)
}

func entOf2(r *Rig) Ent {
	i, err := r.FS.Stat("/")
	must(err)
	return entFromInfo(i)
}

// treeOf returns the tree and the content of its files.
func treeOf(c *Ctx, r *Rig) (Snap, map[string]string) {
	s, err := FullSnap(r.FS)
	if err != nil {
		c.Violate("the final tree can not be read: %v [%v]", err, r.Cfg)
	}
	content := map[string]string{}
	for p, e := range s {
		if !e.Dir {
			b, err := readAll(r.FS, p)
			if err != nil {
				c.Violate("reading %s in the end: %v [%v]", p, err, r.Cfg)
			}
			content[p] = string(b)
		}
	}
	return s, content
}

// mixed uses everything a file system offers at once, including links, and handles which are shared by all clients.
func mixed(c *Ctx) {
	cfg := cheapCfg(c.Rng)
	h, injected := delays(c, c.Seed)
	r, err := NewRig(cfg, c.Base, Opts{Hooks: h})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	must(r.FS.Mkdir("/s", 0o755))
	must(writeAll(r.FS, "/s/a", []byte("content of a")))
	clients := 2 + c.Rng.Intn(7)
	shared, err := r.FS.OpenFile("/s/a", os.O_RDWR, 0)
	must(err)
	sharedDir, err := r.FS.Open("/s")
	must(err)
	var mu sync.Mutex
	log := []string{}
	n := int64(0)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := 0; i < clients; i++ {
		i := i
		rng := rand.New(rand.NewSource(c.Seed*31 + int64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for k := 0; k < 7; k++ {
				p := c11Paths[rng.Intn(len(c11Paths))]
				what := ""
				var err error
				switch rng.Intn(24) {
				case 18:
					_ = shared.Name()
					_, err = shared.Stat()
				case 19:
					_, err = shared.Write([]byte("shared"))
				case 20:
					_, err = shared.ReadAt(make([]byte, 20), 0)
				case 21:
					what, err = "sync", shared.Sync()
				case 22:
					_, err = sharedDir.Readdir(-1)
					_, _ = sharedDir.Stat()
				case 23:
					_, err = sharedDir.Readdirnames(2)
					_ = sharedDir.Name()
				case 0:
					what, err = "link "+p, r.FS.SymlinkIfPossible("/s/a", fmt.Sprintf("/l%d", rng.Intn(3)))
				case 1:
					_, _, err = r.FS.LstatIfPossible(fmt.Sprintf("/l%d", rng.Intn(3)))
				case 2:
					_, err = r.FS.ReadlinkIfPossible(fmt.Sprintf("/l%d", rng.Intn(3)))
				case 3:
					what = "remove link"
					err = r.FS.Remove(fmt.Sprintf("/l%d", rng.Intn(3)))
				case 4:
					_, err = r.FS.Initialize("/", os.ModePerm)
				case 5:
					what, err = "chmod "+p, r.FS.Chmod(p, 0o640)
				case 6:
					what, err = "chown link", r.FS.Chown(fmt.Sprintf("/l%d", rng.Intn(3)), 7, 8)
				case 7:
					what = "rename link"
					err = r.FS.Rename(fmt.Sprintf("/l%d", rng.Intn(3)), fmt.Sprintf("/s/d/l%d", rng.Intn(3)))
				case 8:
					q := fmt.Sprintf("/l%d", rng.Intn(3))
					what, err = "write "+q, writeAll(r.FS, q, []byte(fmt.Sprintf("through a link %d.%d", i, k)))
				case 9:
					_, err = readAll(r.FS, fmt.Sprintf("/l%d", rng.Intn(3)))
				case 10:
					what, err = "chown "+p, r.FS.Chown(p, i, k)
				case 11:
					what, err = "chtimes "+p, r.FS.Chtimes(p, time.Unix(int64(i), 0), time.Unix(int64(k), 0))
				case 12:
					what, err = "removeall "+p, r.FS.RemoveAll(p)
				case 13:
					what, err = "write "+p, writeAll(r.FS, p, []byte(fmt.Sprintf("content %d.%d", i, k)))
				case 14:
					_, err = readAll(r.FS, p)
				case 15:
					var f afero.File
					if f, err = r.FS.Open("/s/a"); err == nil {
						_, _ = f.Stat()
						_ = f.Name()
						_, _ = f.Readdirnames(3)
						_, _ = f.Read(make([]byte, 4))
						_, _ = f.Seek(1, 0)
						err = f.Close()
					}
				case 16:
					q := c11Paths[rng.Intn(len(c11Paths))]
					what, err = "rename "+p+" "+q, r.FS.Rename(p, q)
				case 17:
					what, err = "mkdirall "+p, r.FS.MkdirAll(p+"/z", 0o700)
				}
				atomic.AddInt64(&n, 1)
				if what != "" {
					mu.Lock()
					log = append(log, fmt.Sprintf("client %d: %s -> %v", i, what, err))
					mu.Unlock()
				}
			}
		}()
	}
	c.Trace("%d clients doing everything [%v]", clients, cfg)
	close(begin)
	wg.Wait()
	c.Count("calls", int(n))
	c.Count("mixed histories", 1)
	c.Count("delays injected", int(atomic.LoadInt64(injected)))
	history := func() string { return strings.Join(log, "\n") }
	_ = shared.Close()
	_ = sharedDir.Close()
	live, err := Walk(r.FS)
	if err != nil {
		c.Violate("the final tree can not be listed: %v [%v]\n%s", err, cfg, history())
	}
	rb, err := r.Rebuilt()
	if err != nil {
		c.Violate("rebuilding the index in the end: %v [%v]\n%s", err, cfg, history())
	}
	s, err := Walk(rb.FS)
	if err != nil {
		c.Violate("the rebuilt tree can not be listed: %v [%v]\n%s", err, cfg, history())
	}
	if d := Diff(live, s, "live", "rebuilt"); d != "" {
		c.Violate("the final tree is not the one on the tape: %s [%v]\n%s", d, cfg, history())
	}
	rb.Close()
	c.Count("rebuilds compared", 1)
	c.Eval(fmt.Sprintf("mixed|%d|%d", c.Idx, len(live)))
	r.Destroy()
}
