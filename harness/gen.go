package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"
)

// hostileNames are names which are valid in a file system, but special to SQL, tar, suffix handling or path handling.
var hostileNames = []string{
	"a", "b", "ab", "abc", "a b", "a_b", "axb", "a%b", "%", "_", "__", "a%", "a.b", ".h", "..x", "...", "ü", "日本", "\u00e9", "e\u0301",
	"A", "AB", "a.gz", "x.age", "b.lz4", "c.pgp", "a'b", "a\"b", "a*b", "a?b", "[a]", "a\\b", "-", "~", "foo.tar", "a ", " a", "a\nb",
	"a=b", "🎉", "null", "0", "a.gz.age", "d.zst", "e.br", "f.bz2", "a\tb", "STFS.Action", ";drop", "b%", "b_", "bXc", "b.c", "x", "y",
	"LongName-" + "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789", "Ü", "ß", "a#b", "a:b", "%20", "a&b", "a^", "a$", "(a)", "a|b", "\xff", "a\xc3(", "\xe2\x82", "é\xff",
}

var plainNames = []string{"a", "b", "ab", "c", "d", "e", "f", "g"}

// Gen generates calls from a seed.
type Gen struct {
	R        *rand.Rand
	Names    []string
	MaxDepth int
	Sizes    []int
	Spell    bool // use equivalent spellings of paths
	Archive  bool // archive-level calls as well
	Links    bool
	Acts     int
	base     int64
	n        int64
}

func NewGen(r *rand.Rand) *Gen {
	g := &Gen{R: r, MaxDepth: 3 + r.Intn(2), Sizes: []int{0, 1, 2, 17, 100, 511, 512, 513, 1024, 1500, 4096, 10240, 10241, 20480}, Spell: true, Acts: 4}
	k := 4 + r.Intn(5)
	switch r.Intn(4) {
	case 0:
		g.Names = append([]string{}, plainNames[:k]...)
	case 1: // a cluster of names which are easily confused with each other
		clusters := [][]string{
			{"a", "ab", "a b", "a_b", "axb", "a%b", "a%", "A", "AB"},
			{"_", "%", "__", "x", "xy", "y", "%20", ".h", "..x"},
			{"d", "d.gz", "d.age", "d.gz.age", "d.lz4", "dd", "D", "d_"},
			{"\xff", "\xfe", "a\xc3(", "\ufffd", "\xe2\x82", "a", "é\xff", "é"},
			{"ü", "\u00e9", "e\u0301", "Ü", "日本", "🎉", "u", "日"},
			{"b", "b%", "b_", "bXc", "b.c", "b_c", "b%c", "bb", "B"},
			{"a", "a/", "b", "c d", "a'b", "a\"b", "a\nb", "a\\b"},
		}
		g.Names = append([]string{}, clusters[r.Intn(len(clusters)-1)]...)
	default:
		p := r.Perm(len(hostileNames))
		for i := 0; i < k; i++ {
			g.Names = append(g.Names, hostileNames[p[i]])
		}
		g.Names = append(g.Names, "a", "ab")
	}
	g.base = 1_600_000_000_000_000_000 + r.Int63n(1_000_000_000_000_000)
	return g
}

// own makes the generator use names with the suffixes of the pipes now and then.
func (g *Gen) own(cfg Cfg) *Gen {
	if g.R.Intn(4) != 0 {
		return g
	}
	comp, enc := suffixesOf(cfg)
	g.Names = append(g.Names[:2:2], "a", "a"+comp, "a"+enc, "a"+comp+enc, "a"+enc+comp, "a"+comp+enc+comp+enc, "b"+comp+enc, "c")
	if comp+enc != "" {
		g.Names = append(g.Names, comp+enc)
	}
	return g
}

func (g *Gen) pick(l []string) string { return l[g.R.Intn(len(l))] }

func (g *Gen) name() string { return g.pick(g.Names) }

type treeView struct {
	dirs, files, all []string
	kind             map[string]bool
}

func viewOf(kinds map[string]bool) *treeView {
	v := &treeView{kind: kinds}
	for p, d := range kinds {
		if d {
			v.dirs = append(v.dirs, p)
		} else {
			v.files = append(v.files, p)
		}
		if p != "/" {
			v.all = append(v.all, p)
		}
	}
	sort.Strings(v.dirs)
	sort.Strings(v.files)
	sort.Strings(v.all)
	return v
}

func (m *Model) kinds() map[string]bool {
	k := map[string]bool{}
	for p, n := range m.N {
		k[p] = n.E.Dir
	}
	return k
}

func (s Snap) kinds() map[string]bool {
	k := map[string]bool{}
	for p, n := range s {
		k[p] = n.Dir
	}
	return k
}

// existing returns a path of the tree (not the root).
func (g *Gen) existing(v *treeView) string {
	if len(v.all) == 0 {
		return "/" + g.name()
	}
	return g.pick(v.all)
}

func (g *Gen) file(v *treeView) string {
	if len(v.files) == 0 {
		return g.fresh(v)
	}
	return g.pick(v.files)
}

// fresh returns a path below an existing directory; it may exist.
func (g *Gen) fresh(v *treeView) string {
	for i := 0; i < 8; i++ {
		d := g.pick(v.dirs)
		if strings.Count(d, "/") >= g.MaxDepth {
			continue
		}
		return path.Join(d, g.name())
	}
	return "/" + g.name()
}

// any returns a path of any kind, including ones without parents and below files.
func (g *Gen) any(v *treeView) string {
	switch g.R.Intn(12) {
	case 0:
		return "/" + g.name() + "/" + g.name() + "/" + g.name()
	case 1:
		if len(v.files) > 0 {
			return g.pick(v.files) + "/" + g.name()
		}
	case 2:
		return "/"
	case 3, 4, 5:
		return g.existing(v)
	}
	return g.fresh(v)
}

// spell returns an equivalent spelling of a path.
func (g *Gen) spell(p string) string {
	if !g.Spell || g.R.Intn(3) != 0 {
		return p
	}
	switch g.R.Intn(10) {
	case 0:
		return p + "/"
	case 1:
		if p != "/" {
			return strings.TrimPrefix(p, "/")
		}
	case 2:
		if p != "/" {
			return "." + p
		}
	case 3:
		return "/." + p
	case 4:
		return "/" + p
	case 5:
		d, b := path.Split(p)
		return d + "./" + b
	case 6:
		d, b := path.Split(p)
		if b != "" {
			return d + "/" + b
		}
	case 7:
		d, b := path.Split(p)
		return d + "gone/../" + b
	case 8:
		return "/.." + p
	case 9:
		if p != "/" {
			return []string{"..", "../..", "./../.."}[g.R.Intn(3)] + p
		}
	}
	return p
}

func (g *Gen) data() *Data {
	g.n++
	s := g.Sizes[g.R.Intn(len(g.Sizes))]
	if g.R.Intn(4) == 0 {
		s = g.R.Intn(3000)
	}
	return &Data{Seed: g.R.Int63n(1 << 30), Size: s, Kind: g.R.Intn(3)}
}

func (g *Gen) perm() uint32 {
	switch g.R.Intn(6) {
	case 0:
		return 0
	case 1:
		return uint32(g.R.Intn(0o10000))
	case 2:
		return 0o777
	default:
		return uint32(g.R.Intn(0o1000))
	}
}

func (g *Gen) time() int64 {
	switch g.R.Intn(5) {
	case 0:
		return g.base / 1_000_000_000 * 1_000_000_000 // whole seconds
	case 1:
		return int64(1+g.R.Intn(1000)) * 1_000_000_000
	default:
		return g.base + g.R.Int63n(1_000_000_000_000)
	}
}

// acts returns calls on a handle which was opened with flag.
func (g *Gen) acts(flag int, max int) []Act {
	out := []Act{}
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	for i := g.R.Intn(max + 1); i > 0; i-- {
		a := g.act(w, flag&os.O_APPEND != 0)
		out = append(out, a)
	}
	return out
}

func (g *Gen) act(w, app bool) Act {
	for {
		switch g.R.Intn(11) {
		case 0, 1:
			if w || g.R.Intn(6) == 0 {
				return Act{K: "write", D: g.data()}
			}
		case 2:
			if (w || g.R.Intn(6) == 0) && !app {
				return Act{K: "writeat", D: g.data(), N: int64(g.off())}
			}
		case 3:
			if w || g.R.Intn(6) == 0 {
				return Act{K: "writestring", D: &Data{Lit: fmt.Sprintf("str %d", g.R.Intn(1000))}}
			}
		case 4, 5:
			return Act{K: "readfull", N: int64(1 + g.off())}
		case 6:
			return Act{K: "readat", N: int64(g.off()), W: g.off()}
		case 7:
			return Act{K: "seek", N: int64(g.off()), W: io.SeekStart}
		case 8:
			n := int64(g.off())
			if g.R.Intn(2) == 0 {
				n = -n
			}
			return Act{K: "seek", N: n, W: io.SeekCurrent + g.R.Intn(2)}
		case 9:
			if w || g.R.Intn(6) == 0 {
				return Act{K: "trunc", N: int64(g.off())}
			}
		case 10:
			if g.R.Intn(3) == 0 {
				return Act{K: "sync"}
			}
			return Act{K: "stat"}
		}
	}
}

func (g *Gen) off() int {
	switch g.R.Intn(5) {
	case 0:
		return 0
	case 1:
		return g.Sizes[g.R.Intn(len(g.Sizes))]
	case 2:
		return g.R.Intn(8)
	default:
		return g.R.Intn(2000)
	}
}

func (g *Gen) openFlags() int {
	switch g.R.Intn(12) {
	case 0, 1:
		return os.O_RDONLY
	case 2:
		return os.O_WRONLY
	case 3:
		return os.O_RDWR
	case 4:
		return os.O_WRONLY | os.O_CREATE
	case 5:
		return os.O_RDWR | os.O_CREATE
	case 6:
		return os.O_RDWR | os.O_CREATE | os.O_TRUNC
	case 7:
		return os.O_WRONLY | os.O_CREATE | os.O_EXCL
	case 8:
		return os.O_WRONLY | os.O_APPEND | os.O_CREATE
	case 9:
		return os.O_RDWR | os.O_APPEND
	case 10:
		return os.O_WRONLY | os.O_TRUNC
	default:
		return os.O_RDWR | os.O_CREATE | os.O_EXCL | os.O_TRUNC
	}
}

// Next generates the next call for a tree.
func (g *Gen) Next(kinds map[string]bool) Op {
	v := viewOf(kinds)
	s := g.spell
	if g.Archive && g.R.Intn(5) == 0 {
		return g.archiveOp(v)
	}
	if g.R.Intn(60) == 0 {
		// Names which can't be stored
		p := path.Join(g.pick(append([]string{"/"}, v.dirs...)), []string{"\x00", "a\x00", "a\x00b", "\x00a", "a\x00/b", "a/b\x00"}[g.R.Intn(6)])
		switch g.R.Intn(7) {
		case 0:
			return Op{K: "create", A: p}
		case 1:
			return Op{K: "open", A: p, Flag: os.O_RDWR | os.O_CREATE, Perm: 0o600}
		case 2:
			return Op{K: "mkdir", A: p, Perm: 0o700}
		case 3, 4:
			return Op{K: "mkdirall", A: p, Perm: 0o700}
		case 5:
			return Op{K: "symlink", A: g.existing(v), B: p}
		default:
			return Op{K: "rename", A: g.existing(v), B: p}
		}
	}
	if g.Links && g.R.Intn(14) == 0 {
		return Op{K: "symlink", A: g.existing(v), B: g.freshUnused(v)}
	}
	for {
		switch n := g.R.Intn(100); {
		case n < 14:
			p := g.fresh(v)
			if g.R.Intn(8) == 0 {
				p = g.any(v)
			}
			op := Op{K: "create", A: s(p)}
			if g.R.Intn(4) > 0 {
				op.Acts = []Act{{K: "write", D: g.data()}}
			}
			return op
		case n < 34:
			p := g.fresh(v)
			switch g.R.Intn(4) {
			case 0:
				p = g.any(v)
			case 1, 2:
				p = g.file(v)
			}
			op := Op{K: "open", A: s(p), Flag: g.openFlags(), Perm: g.perm()}
			op.Acts = g.acts(op.Flag, g.Acts)
			return op
		case n < 46:
			p := g.fresh(v)
			if g.R.Intn(6) == 0 {
				p = g.any(v)
			}
			return Op{K: "mkdir", A: s(p), Perm: g.perm()}
		case n < 51:
			p := g.fresh(v)
			for g.R.Intn(2) == 0 && strings.Count(p, "/") < g.MaxDepth+1 {
				p += "/" + g.name()
			}
			return Op{K: "mkdirall", A: s(p), Perm: g.perm()}
		case n < 58:
			p := g.existing(v)
			if g.R.Intn(6) == 0 {
				p = g.any(v)
			}
			if p == "/" {
				continue
			}
			return Op{K: "remove", A: s(p)}
		case n < 63:
			p := g.existing(v)
			if g.R.Intn(6) == 0 {
				p = g.any(v)
			}
			if p == "/" {
				continue
			}
			return Op{K: "removeall", A: s(p)}
		case n < 78:
			p, q := g.existing(v), g.fresh(v)
			switch g.R.Intn(8) {
			case 0:
				p = g.any(v)
			case 1:
				q = g.any(v)
			case 2, 3:
				q = g.existing(v)
			case 4:
				q = p + "/" + g.name()
			}
			return Op{K: "rename", A: s(p), B: s(q)}
		case n < 83:
			return Op{K: "chmod", A: s(g.target(v)), Perm: g.perm()}
		case n < 87:
			ids := []int{0, 1, 1000, 65534, 2097151, 2097152, 1 << 30}
			return Op{K: "chown", A: s(g.target(v)), U: ids[g.R.Intn(len(ids))], G: ids[g.R.Intn(len(ids))]}
		case n < 92:
			return Op{K: "chtimes", A: s(g.target(v)), T1: g.time(), T2: g.time()}
		case n < 95:
			return Op{K: "stat", A: s(g.any(v))}
		case n < 98:
			return Op{K: "list", A: s(g.any(v)), N: -1}
		default:
			return Op{K: "read", A: s(g.any(v))}
		}
	}
}

func (g *Gen) target(v *treeView) string {
	switch g.R.Intn(8) {
	case 0:
		return g.any(v)
	case 1:
		return "/"
	}
	return g.existing(v)
}

func (g *Gen) freshUnused(v *treeView) string {
	for i := 0; ; i++ {
		p := g.fresh(v)
		if i > 20 {
			p = "/" + fmt.Sprintf("link%d", g.R.Intn(1<<20))
		}
		if _, ok := v.kind[p]; !ok {
			return p
		}
	}
}

// archiveOp generates a call on the archive interface.
func (g *Gen) archiveOp(v *treeView) Op {
	switch n := g.R.Intn(10); {
	case n < 5 || len(v.all) == 0: // a batch of new entries
		op := Op{K: "archive"}
		dirs := append([]string{}, v.dirs...)
		seen := map[string]bool{}
		for i := 1 + g.R.Intn(5); i > 0; i-- {
			p := path.Join(g.pick(dirs), g.name())
			if _, ok := v.kind[p]; ok || seen[p] || strings.Count(p, "/") > g.MaxDepth {
				continue
			}
			seen[p] = true
			e := g.batchEnt(p, g.R.Intn(4) == 0)
			if e.Dir {
				dirs = append(dirs, p)
			}
			op.Batch = append(op.Batch, e)
		}
		return op
	case n < 8: // update existing entries
		op := Op{K: "update", N: g.R.Intn(2)}
		seen := map[string]bool{}
		for i := 1 + g.R.Intn(3); i > 0; i-- {
			p := g.existing(v)
			if seen[p] {
				continue
			}
			seen[p] = true
			op.Batch = append(op.Batch, g.batchEnt(p, v.kind[p]))
		}
		return op
	case n < 9:
		return Op{K: "opdelete", A: g.existing(v)}
	default:
		// Only to an unused name which is not below the source, like the preconditions of Rename
		p := g.existing(v)
		q := g.freshUnused(v)
		if under(q, p) {
			return Op{K: "opdelete", A: p}
		}
		return Op{K: "opmove", A: p, B: q}
	}
}

func (g *Gen) batchEnt(p string, dir bool) BatchEnt {
	e := BatchEnt{Path: p, Dir: dir, Perm: g.perm() & 0o777, U: g.R.Intn(3000), G: g.R.Intn(3000), T: g.time()}
	if g.R.Intn(10) == 0 {
		e.T = time.Time{}.UnixNano()
	}
	if !dir {
		e.D = g.data()
	}
	return e
}

// idle makes calls which have nothing to write.
func idle(c *Ctx, r *Rig, have []string) {
	for n := c.Rng.Intn(3); n > 0; n-- {
		var op Op
		some := "/"
		if len(have) > 0 {
			some = have[c.Rng.Intn(len(have))]
		}
		none := fmt.Sprintf("/none%d", nextID())
		switch c.Rng.Intn(9) {
		case 0, 1:
			op = Op{K: "archive"}
		case 2:
			op = Op{K: "update"}
		case 3:
			op = Op{K: "opdelete", A: none}
		case 4:
			op = Op{K: "rename", A: some, B: some}
		case 5:
			op = Op{K: "opmove", A: some, B: some}
		case 6:
			op = Op{K: "chmod", A: none, Perm: 0o600}
		case 7:
			op = Op{K: "mkdir", A: none + "/x", Perm: 0o700}
		default:
			op = Op{K: "update", Batch: []BatchEnt{{Path: none, Perm: 0o600}}}
		}
		res := Exec(r, op)
		c.Trace("%s -> %s", op, res.Class)
		c.Count("calls which wrote nothing to a tape just opened", 1)
	}
}
