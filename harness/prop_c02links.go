package main

import (
	"fmt"
	"os"
	"path"
	"strings"
)

// Histories with symbolic links: the reference keeps the links next to the tree of the other entries. A link is an entry on its own for
// calls which create, remove, rename and list; all other calls are about what it points to.
//
// Excluded: paths which lead through a link to a directory, links to links, and renaming a link onto its own target (STFS documents
// neither, and resolves a single link at the end of a path only).

type linkModel struct {
	*Model
	L map[string]string // link -> target
}

func (m *linkModel) clone() *linkModel {
	n := &linkModel{m.Model.Clone(), map[string]string{}}
	for k, v := range m.L {
		n.L[k] = v
	}
	return n
}

func (m *linkModel) isTarget(p string) bool {
	for _, t := range m.L {
		if t == p {
			return true
		}
	}
	return false
}

// excluded tells whether the outcome of an op is not specified.
func (m *linkModel) excluded(op Op) bool {
	for _, p := range []string{op.A, op.B} {
		if p == "" {
			continue
		}
		p = norm(p)
		for l := range m.L {
			if under(p, l) {
				return true // through a link
			}
		}
	}
	a, b := norm(op.A), norm(op.B)
	switch op.K {
	case "symlink":
		_, chain := m.L[a]
		return a == b || a == "/" || b == "/" || chain || m.isTarget(b)
	case "rename":
		if t, ok := m.L[a]; ok {
			return t == b || m.isTarget(b) || b == "/"
		}
		// A link below a renamed directory must not become a target
		for l := range m.L {
			if under(l, a) && m.isTarget(b+strings.TrimPrefix(l, a)) {
				return true
			}
		}
		// Replacing a directory which only has links is not the same for all file systems
		for l := range m.L {
			if under(l, b) {
				return true
			}
		}
	}
	return false
}

func (m *linkModel) hasLinks(p string) bool {
	for l := range m.L {
		if under(l, p) {
			return true
		}
	}
	return false
}

func (m *linkModel) kindsWithLinks() map[string]bool {
	k := m.kinds()
	for l := range m.L {
		k[l] = false
	}
	return k
}

func (m *linkModel) linkKind(p string) string {
	p = norm(p)
	t, ok := m.L[p]
	if !ok {
		if m.hasLinks(p) {
			return kindOf(m.Model, p) + "+links"
		}
		if m.isTarget(p) {
			return kindOf(m.Model, p) + "+target"
		}
		return kindOf(m.Model, p)
	}
	return "link-to-" + kindOf(m.Model, t)
}

// apply performs op on the reference.
func (m *linkModel) apply(op Op, res Result) (classes string, acts []string) {
	a, b := norm(op.A), norm(op.B)
	t, isLink := m.L[a]
	if isLink {
		n := m.get(t)
		switch op.K {
		case "mkdir":
			return "exist", nil
		case "remove", "removeall":
			delete(m.L, a)
			return "ok", nil
		case "rename":
			if a == b {
				return "ok", nil
			}
			if e := m.parentErr(b); e != "" {
				return e, nil
			}
			if x := m.get(b); x != nil {
				if x.E.Dir {
					return "exist|isdir", nil
				}
				delete(m.N, b)
			}
			delete(m.L, a)
			m.L[b] = t
			return "ok", nil
		case "mkdirall":
			if n == nil || !n.E.Dir {
				return "notdir|exist|notexist", nil
			}
			return "ok", nil
		case "stat":
			if n == nil {
				return "ok", nil // The link itself
			}
		case "open", "create":
			if op.K == "open" && op.Flag&os.O_CREATE != 0 && op.Flag&os.O_EXCL != 0 {
				return "exist", nil
			}
		}
		op.A = t
		return m.Model.Apply(op, res)
	}
	switch op.K {
	case "symlink":
		if _, ok := m.L[b]; ok || m.get(b) != nil {
			return "exist", nil
		}
		if e := m.parentErr(b); e != "" {
			return e, nil
		}
		m.L[b] = a
		return "ok", nil
	case "remove":
		if n := m.get(a); n != nil && n.E.Dir && m.hasLinks(a) {
			return "notempty", nil
		}
	case "removeall":
		for l := range m.L {
			if under(l, a) {
				delete(m.L, l)
			}
		}
	case "rename":
		n := m.get(a)
		_, overLink := m.L[b]
		if n != nil && n.E.Dir && overLink && !under(b, a) {
			return "exist|notdir", nil
		}
		classes, acts = m.Model.Apply(op, res)
		if classes == "ok" && a != b {
			delete(m.L, b)
			moved := map[string]string{}
			for l, x := range m.L {
				if under(l, a) {
					moved[b+strings.TrimPrefix(l, a)] = x
					delete(m.L, l)
				}
			}
			for l, x := range moved {
				m.L[l] = x
			}
		}
		return classes, acts
	}
	return m.Model.Apply(op, res)
}

// check compares everything which is visible with the reference.
func (m *linkModel) check(s Snap) string {
	nodes := Snap{}
	for p, e := range s {
		if !e.IsLink {
			if e.ReadErr != "" {
				return fmt.Sprintf("reading %q: %s", p, e.ReadErr)
			}
			nodes[p] = e
		}
	}
	if d := m.Model.Check(nodes); d != "" {
		return d
	}
	for l, t := range m.L {
		e, ok := s[l]
		switch {
		case !ok:
			return fmt.Sprintf("the link %q is gone", l)
		case !e.IsLink:
			return fmt.Sprintf("%q is not a link any more: %v", l, e)
		case e.Link != path.Base(t):
			return fmt.Sprintf("the link %q is to %q instead of %q", l, e.Link, t)
		}
		n := m.get(t)
		if n == nil {
			if e.Dir || e.ReadErr == "" || e.Content != "" {
				return fmt.Sprintf("the target %q of the link %q does not exist, but the link shows %v", t, l, e)
			}
			continue
		}
		w := n.E
		w.IsLink, w.Link = true, e.Link
		if w.Dir {
			w.Size = 0
		}
		if w != e {
			return fmt.Sprintf("the link %q shows %v, but its target %q is %v", l, e, t, n.E)
		}
	}
	for p, e := range s {
		if _, ok := m.L[p]; e.IsLink && !ok {
			return fmt.Sprintf("there is a link %q, which the reference does not have: %v", p, e)
		}
	}
	return ""
}

func (m *linkModel) children(p string) []string {
	out := m.Model.children(p)
	for l := range m.L {
		if path.Dir(l) == p {
			out = append(out, path.Base(l))
		}
	}
	sortStrings(out)
	return out
}

func runModelLinks(c *Ctx, cfg Cfg, g *Gen) {
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	m := &linkModel{newModelOf(c, r), map[string]string{}}
	for i := c.Pick(45, 60); i > 0; i-- {
		v := viewOf(m.kinds())
		links := []string{}
		for l := range m.L {
			links = append(links, l)
		}
		sortStrings(links)
		var op Op
		switch n := c.Rng.Intn(10); {
		case n < 2 || (len(m.L) == 0 && n < 5):
			t := g.existing(v)
			if c.Rng.Intn(5) == 0 {
				t = g.freshUnused(v) // does not exist (yet)
			}
			op = Op{K: "symlink", A: t, B: g.spell(g.fresh(v))}
			if c.Rng.Intn(5) == 0 {
				op.B = g.spell(g.any(v))
			}
		case n < 6 && len(links) > 0:
			l := g.pick(links)
			switch c.Rng.Intn(14) {
			case 0:
				op = Op{K: "remove", A: g.spell(l)}
			case 1:
				op = Op{K: "removeall", A: g.spell(l)}
			case 2:
				op = Op{K: "rename", A: g.spell(l), B: g.spell(g.fresh(v))}
			case 3:
				op = Op{K: "rename", A: g.spell(l), B: g.spell(g.pick(links))}
			case 4:
				op = Op{K: "rename", A: g.spell(g.existing(v)), B: g.spell(l)}
			case 5:
				op = Op{K: "chmod", A: g.spell(l), Perm: g.perm()}
			case 6:
				op = Op{K: "chown", A: g.spell(l), U: c.Rng.Intn(3000), G: c.Rng.Intn(3000)}
			case 7:
				op = Op{K: "chtimes", A: g.spell(l), T1: g.time(), T2: g.time()}
			case 8:
				op = Op{K: "list", A: g.spell(l), N: -1}
			case 9:
				op = Op{K: "stat", A: g.spell(l)}
			case 10: // what happens to the target
				op = Op{K: []string{"remove", "removeall"}[c.Rng.Intn(2)], A: m.L[l]}
				if c.Rng.Intn(2) == 0 {
					op = Op{K: "rename", A: m.L[l], B: g.fresh(v)}
				}
			case 11: // the target is (re-)created
				op = Op{K: []string{"create", "mkdir"}[c.Rng.Intn(2)], A: m.L[l], Perm: g.perm()}
			default:
				op = Op{K: "open", A: g.spell(l), Flag: g.openFlags(), Perm: g.perm()}
				op.Acts = g.acts(op.Flag, g.Acts)
			}
		default:
			op = g.Next(m.kindsWithLinks())
		}
		if norm(op.A) == "/" && (op.K == "remove" || op.K == "removeall") {
			continue
		}
		if m.excluded(op) {
			c.Count("excluded calls", 1)
			continue
		}
		stepLinks(c, r, m, op)
	}
}

func stepLinks(c *Ctx, r *Rig, m *linkModel, op Op) {
	c.Trace("%s", op)
	sig := fmt.Sprintf("links|%s|%s|%s|%x|%v", op.K, m.linkKind(op.A), m.linkKind(op.B), op.Flag, path.Clean(op.A) == op.A)
	before := m.clone()
	res := Exec(r, op)
	c.Count("ops", 1)
	want, acts := "", []string(nil)
	if strings.Contains(op.A+op.B, "\x00") {
		if want = res.Class; res.Class == "ok" {
			c.Violate("%s: ok, but such a name can't be stored [%v]", op, r.Cfg)
		}
	} else {
		want, acts = m.apply(op, res)
	}
	if !classMatches(res.Class, want) {
		c.Violate("%s: %s, but the reference says %s (links: %v) [%v]", op, res.Class, want, before.L, r.Cfg)
	}
	t, isLink := before.L[norm(op.A)]
	if isLink {
		c.Count("calls on links", 1)
	} else {
		t = norm(op.A)
	}
	n := before.get(t)
	if res.Class != "ok" {
		c.Count("ops rejected", 1)
		*m = *before
	} else if n != nil && n.E.Dir && len(op.Acts) > 0 {
		for i, a := range op.Acts {
			if (strings.HasPrefix(a.K, "write") || a.K == "readfull" || a.K == "trunc") && strings.Contains(res.Acts[i], "ok") {
				c.Violate("%s: call %d on the handle of a directory (%s) reported %s", op, i, a.K, res.Acts[i])
			}
		}
	} else {
		compareActs(c, op, acts, res.Acts)
	}
	if res.Class == "ok" {
		switch {
		case op.K == "stat" && n != nil:
			e := entFromInfo(res.Info)
			if e.Dir {
				e.Size = 0
			}
			w := n.E
			w.Content = ""
			if e != w {
				c.Violate("%s: reported %v, but the reference has %v", op, e, w)
			}
			if b := path.Base(norm(op.A)); b != "/" && res.Info.Name() != b {
				c.Violate("%s: reported the name %q", op, res.Info.Name())
			}
		case op.K == "list":
			w := m.children(t)
			if strings.Join(w, "\x00") != strings.Join(res.Names, "\x00") {
				c.Violate("%s: listed %q, but the reference has %q", op, res.Names, w)
			}
		}
	}
	s, err := Walk(r.View())
	if err != nil {
		c.Violate("after %s (%s): %v [%v]", op, res.Class, err, r.Cfg)
	}
	c.Count("tree comparisons", 1)
	c.Count("entries compared", len(s))
	if d := m.check(s); d != "" {
		c.Violate("after %s (%s): %s (links: %v) [%v]", op, res.Class, d, before.L, r.Cfg)
	}
	c.Eval(sig + "|" + res.Class)
	c.Sample("%s -> %s", op, res.Class)
}
