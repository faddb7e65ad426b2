package main

import (
	"fmt"
	"os"
	"path"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// C02: every call of a single caller is compared with the reference file system: outcome class, everything which was reported by
// calls on handles, and the whole visible tree afterwards.

func init() {
	register(&Prop{
		ID: "C02", Level: "exploration",
		Rule:        "distinct (operation, outcome class, kinds of the operands, state of the target) combinations judged against the reference file system",
		Plan:        func(tier string) int { return map[string]int{"quick": 420, "thorough": 12000}[tier] },
		Run:         runC02,
		Need:        []string{"ops", "ops rejected", "tree comparisons", "held handle calls", "calls on links", "files which disappeared while they were open"},
		Assumptions: []string{"removing the root is excluded (pinned by the test suite)", "O_CREATE, O_APPEND or O_TRUNC together with O_RDONLY is excluded (undefined in POSIX)", "a single caller", "paths through links to directories, links to links and renaming a link onto its own target are excluded"},
	})
}

func runC02(c *Ctx) {
	cfg := cheapCfg(c.Rng)
	if c.Idx%7 != 0 {
		// Most of the histories are about semantics, not about codecs
		cfg.Enc, cfg.Sig = config.NoneKey, config.NoneKey
		if c.Idx%3 != 0 {
			cfg.Comp = config.NoneKey
		}
	}
	cfg.WPR = c.Idx%4 == 1
	g := NewGen(c.Rng).own(cfg)
	if c.Idx%5 == 4 {
		runModelHandles(c, cfg, g)
		return
	}
	if c.Idx%5 == 2 {
		runModelLinks(c, cfg, g)
		return
	}
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	m := newModelOf(c, r)
	for i := c.Pick(45, 60); i > 0; i-- {
		op := g.Next(m.kinds())
		stepModel(c, r, m, op)
	}
}

func newModelOf(c *Ctx, r *Rig) *Model {
	s, err := FullSnap(r.View())
	if err != nil {
		c.Violate("fresh instance: %v", err)
	}
	if len(s) != 1 || !s["/"].Dir {
		c.Violate("fresh instance is not an empty root directory: %v", s)
	}
	m := NewModel(s["/"])
	m.WPR = r.Cfg.WPR
	return m
}

func kindOf(m *Model, p string) string {
	p = norm(p)
	n := m.get(p)
	switch {
	case n == nil:
		if e := m.parentErr(p); e != "" {
			return "missing-" + strings.Split(e, "|")[0]
		}
		return "missing"
	case n.E.Dir && m.hasChildren(p):
		return "fulldir"
	case n.E.Dir:
		return "dir"
	case n.E.Size == 0:
		return "emptyfile"
	}
	return "file"
}

// stepModel performs an op on both sides and compares everything.
func stepModel(c *Ctx, r *Rig, m *Model, op Op) Result {
	c.Trace("%s", op)
	sig := op.K + "|" + kindOf(m, op.A) + "|" + kindOf(m, op.B) + fmt.Sprintf("|%x|%v", op.Flag, path.Clean(op.A) == op.A)
	if op.B != "" {
		sig += fmt.Sprintf("|%v%v%v", norm(op.A) == norm(op.B), under(norm(op.A), norm(op.B)), under(norm(op.B), norm(op.A)))
	}
	for _, a := range op.Acts {
		sig += "." + a.K
	}
	res := Exec(r, op)
	c.Count("ops", 1)
	before := m.Clone()
	want, acts := "", []string(nil)
	if strings.Contains(op.A+op.B, "\x00") {
		// Which error it is is not judged
		if want = res.Class; res.Class == "ok" {
			c.Violate("%s: ok, but such a name can't be stored [%v]", op, r.Cfg)
		}
		c.Count("calls with NUL in a name rejected", 1)
	} else {
		want, acts = m.Apply(op, res)
	}
	if !classMatches(res.Class, want) {
		c.Violate("%s: %s, but the reference says %s [%v]", op, res.Class, want, r.Cfg)
	}
	if res.Class != "ok" {
		c.Count("ops rejected", 1)
	}
	if n := before.get(norm(op.A)); res.Class == "ok" && n != nil && n.E.Dir {
		// Contents of directories can't be accessed
		for i, a := range op.Acts {
			if strings.HasPrefix(a.K, "write") || a.K == "readfull" || a.K == "trunc" {
				if strings.Contains(res.Acts[i], "ok") {
					c.Violate("%s: call %d on the handle of a directory (%s) reported %s", op, i, a.K, res.Acts[i])
				}
			}
		}
	} else if res.Class == "ok" {
		compareActs(c, op, acts, res.Acts)
	}
	if res.Class != "ok" {
		*m = *before
	}
	switch op.K {
	case "stat":
		if res.Class == "ok" {
			n := m.get(norm(op.A))
			e := entFromInfo(res.Info)
			if e.Dir {
				e.Size = 0
			}
			w := n.E
			w.Content = ""
			if e != w {
				c.Violate("%s: reported %v, but the reference has %v", op, e, w)
			}
			if b := path.Base(norm(op.A)); b != "/" && res.Info.Name() != b {
				c.Violate("%s: reported the name %q", op, res.Info.Name())
			}
		}
	case "list":
		if res.Class == "ok" {
			if w := m.children(norm(op.A)); strings.Join(w, "\x00") != strings.Join(res.Names, "\x00") {
				c.Violate("%s: listed %q, but the reference has %q", op, res.Names, w)
			}
		}
	}
	s, err := FullSnap(r.View())
	if err != nil {
		c.Violate("after %s (%s): %v [%v]", op, res.Class, err, r.Cfg)
	}
	c.Count("tree comparisons", 1)
	c.Count("entries compared", len(s))
	if d := m.Check(s); d != "" {
		c.Violate("after %s (%s): %s [%v]", op, res.Class, d, r.Cfg)
	}
	c.Eval(sig + "|" + res.Class)
	c.Sample("%s -> %s", op, res.Class)
	return res
}

func compareActs(c *Ctx, op Op, want, got []string) {
	if len(want) != len(got) {
		c.Violate("%s: %d outcomes instead of %d", op, len(got), len(want))
	}
	for i := range want {
		if !actMatches(want[i], got[i]) {
			a := ""
			if i < len(op.Acts) {
				a = fmt.Sprintf("%s n=%d w=%d", op.Acts[i].K, op.Acts[i].N, op.Acts[i].W)
			}
			c.Violate("%s: call %d on the handle (%s) reported %s, but the reference says %s", op, i, a, clip(got[i], 200), clip(want[i], 200))
		}
	}
}

func actMatches(want, got string) bool {
	if want == got {
		return true
	}
	// The reference only names the class of rejected calls
	for _, a := range strings.Split(want, "|") {
		if a == got {
			return true
		}
	}
	return false
}

func (m *Model) children(p string) []string {
	out := []string{}
	for _, q := range (&treeViewOf{m}).sorted() {
		if q != "/" && path.Dir(q) == p {
			out = append(out, path.Base(q))
		}
	}
	sortStrings(out)
	return out
}

type treeViewOf struct{ m *Model }

func (t *treeViewOf) sorted() []string {
	out := []string{}
	for p := range t.m.N {
		out = append(out, p)
	}
	sortStrings(out)
	return out
}

// runModelHandles keeps several handles open while the tree changes below them: what has been written is visible when the handle is
// synchronised or closed, under the current name of the entry, and not at all once the entry is gone.
func runModelHandles(c *Ctx, cfg Cfg, g *Gen) {
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	m := newModelOf(c, r)
	for i := c.Pick(45, 60); i > 0; i-- {
		v := viewOf(m.kinds())
		switch g.R.Intn(6) {
		case 0, 1:
			// A handle which is open across other calls
			op := Op{K: "open", A: g.file(v), Flag: os.O_RDWR | os.O_CREATE, Perm: 0o644}
			if n := m.get(norm(op.A)); n != nil && n.E.Dir {
				continue
			}
			interleaved(c, r, m, g, op)
		default:
			stepModel(c, r, m, g.Next(m.kinds()))
		}
	}
}

func interleaved(c *Ctx, r *Rig, m *Model, g *Gen, op Op) {
	p := norm(op.A)
	if m.get(p) == nil {
		stepModel(c, r, m, Op{K: "create", A: p, Acts: []Act{{K: "write", D: g.data()}}})
	}
	n := m.get(p)
	if n == nil || n.E.Dir {
		return
	}
	c.Trace("hold %s", op)
	t0 := time.Now().UnixNano()
	h, err := r.View().OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		c.Violate("opening %q: %v", p, err)
	}
	ref := &RefFile{Data: append([]byte{}, n.Data...), R: true, W: true}
	stamped := false // The times have been set after the last change of the content
	publish := func() {
		n := m.get(p)
		if !ref.Dirty {
			return
		}
		n.Data = append([]byte{}, ref.Data...)
		n.E.Size = int64(len(ref.Data))
		n.E.Content = digest(ref.Data)
		if !stamped {
			n.MLo, n.MHi, n.AnyC = t0, time.Now().UnixNano(), true
		}
		ref.Dirty = false
	}
	do := func() {
		for i := 1 + g.R.Intn(3); i > 0; i-- {
			a := g.act(true, false)
			if a.K == "sync" {
				c.Trace("  held sync")
				if err := h.Sync(); err != nil {
					c.Violate("syncing the held handle of %q: %v", p, err)
				}
				publish()
				s, err := FullSnap(r.View())
				if err != nil {
					c.Violate("after syncing the held handle of %q: %v", p, err)
				}
				if d := m.Check(s); d != "" {
					c.Violate("after syncing the held handle of %q: %s", p, d)
				}
				continue
			}
			pending := ref.Dirty
			ref.Dirty = false
			c.Trace("  held %s n=%d w=%d", a.K, a.N, a.W)
			got, want := execAct(h, a), ref.Act(a)
			stamped = stamped && !ref.Dirty
			ref.Dirty = ref.Dirty || pending
			c.Count("held handle calls", 1)
			if !actMatches(want, got) {
				c.Violate("%s on the held handle of %q: %s, but the reference says %s", a.K, p, clip(got, 200), clip(want, 200))
			}
		}
	}
	if g.R.Intn(3) > 0 {
		do() // Otherwise nothing has been read when the other calls happen
	}
	// Other calls happen while the handle is open
	gone := false
	for i := 1 + g.R.Intn(3); i > 0 && !gone; i-- {
		switch g.R.Intn(5) {
		case 0: // the entry or one of its parents is renamed
			q := p
			if d := path.Dir(p); d != "/" && g.R.Intn(2) == 0 {
				q = d
			}
			to := g.freshUnused(viewOf(m.kinds()))
			if under(to, q) {
				continue
			}
			if stepModel(c, r, m, Op{K: "rename", A: q, B: to}).Class == "ok" {
				p = to + strings.TrimPrefix(p, q)
			}
		case 1:
			switch g.R.Intn(3) {
			case 0:
				stepModel(c, r, m, Op{K: "chmod", A: p, Perm: g.perm()})
			case 1:
				stepModel(c, r, m, Op{K: "chtimes", A: p, T1: g.time(), T2: g.time()})
				stamped = true
			default:
				stepModel(c, r, m, Op{K: "chown", A: p, U: g.R.Intn(70000), G: g.R.Intn(70000)})
			}
		case 2:
			if g.R.Intn(3) == 0 {
				gone = vanish(c, r, m, g, p)
			}
		default:
			o := g.Next(m.kinds())
			if o.A == "" || touches(o, p) {
				continue
			}
			stepModel(c, r, m, o)
		}
		if !gone {
			do()
		}
	}
	if gone {
		// Whatever the handle does now must not bring the entry back, or change another one which has its name; its own outcome is unspecified
		if m.get(p) == nil && m.parentErr(p) == "" && g.R.Intn(2) == 0 {
			if g.R.Intn(4) == 0 {
				stepModel(c, r, m, Op{K: "mkdir", A: p, Perm: 0o755})
			} else {
				stepModel(c, r, m, Op{K: "create", A: p, Acts: []Act{{K: "write", D: g.data()}}})
			}
		}
		for i := g.R.Intn(3); i > 0; i-- {
			a := g.act(true, false)
			c.Trace("  orphaned %s n=%d w=%d", a.K, a.N, a.W)
			next := *ref
			next.Data = append([]byte{}, ref.Data...)
			got, want := execAct(h, a), next.Act(a)
			if actMatches(want, got) {
				*ref = next
			} else if !strings.Contains(got, "notexist") {
				c.Violate("%s on the held handle of %q, which is gone: %s; that is neither its own content, %s, nor an error", a.K, p, clip(got, 200), clip(want, 200))
			}
		}
		if g.R.Intn(2) == 0 {
			_ = h.Sync()
		}
		c.Trace("  orphaned close")
		_ = h.Close()
		s, err := FullSnap(r.View())
		if err != nil {
			c.Violate("after closing the handle of a removed file: %v", err)
		}
		if d := m.Check(s); d != "" {
			c.Violate("after closing the handle of the removed file %q: %s", p, d)
		}
		c.Eval("held|gone")
		return
	}
	c.Trace("  held close (now %q)", p)
	if err := h.Close(); err != nil {
		c.Violate("closing the held handle of %q: %v", p, err)
	}
	dirty := ref.Dirty
	publish()
	s, err := FullSnap(r.View())
	if err != nil {
		c.Violate("after closing the held handle of %q: %v", p, err)
	}
	if d := m.Check(s); d != "" {
		c.Violate("after closing the held handle of %q: %s", p, d)
	}
	c.Eval(fmt.Sprintf("held|closed|dirty=%v|stamped=%v", dirty, stamped))
}

// vanish makes the file at p disappear in one of several ways.
func vanish(c *Ctx, r *Rig, m *Model, g *Gen, p string) bool {
	op := Op{K: "removeall", A: p}
	switch g.R.Intn(4) {
	case 0:
		op.K = "remove"
	case 1:
		if d := path.Dir(p); d != "/" {
			op.A = d
		}
	case 2: // another file takes its place
		q := ""
		v := viewOf(m.kinds())
		for i := 0; i < 8 && (q == "" || norm(q) == p); i++ {
			q = g.file(v)
		}
		if n := m.get(norm(q)); norm(q) == p || n != nil && n.E.Dir {
			return false
		}
		if m.get(norm(q)) == nil && stepModel(c, r, m, Op{K: "create", A: q, Acts: []Act{{K: "write", D: g.data()}}}).Class != "ok" {
			return false
		}
		op = Op{K: "rename", A: q, B: p}
	}
	ok := stepModel(c, r, m, op).Class == "ok"
	if ok {
		c.Count("files which disappeared while they were open", 1)
		c.Eval("held|vanished|" + op.K)
	}
	return ok
}

// touches tells whether an op could change the entry at p or one of its parents.
func touches(o Op, p string) bool {
	for _, q := range []string{norm(o.A), norm(o.B)} {
		if q == p || under(p, q) || under(q, p) {
			return true
		}
	}
	return false
}
