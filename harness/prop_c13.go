package main

import (
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// C13: after every call of a history, everything which is live in the index has to be reachable by listing directories, exactly once;
// every directory is listed with several count limits, and every entry a listing returns has to agree with looking it up and opening it.

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration",
		Rule:        "distinct (call, outcome, shape of the tree) combinations after which the namespace was checked; listings are checked with every count limit around the number of children",
		Plan:        func(tier string) int { return map[string]int{"quick": 96, "thorough": 5000}[tier] },
		Run:         runC13,
		Need:        []string{"calls", "namespaces checked", "listings", "limited listings", "listed names looked up", "links listed", "directories with more than 100 children", "entries deeper than 20", "calls below files", "multi-level MkdirAll", "rebuilt namespaces", "reopened namespaces"},
		Assumptions: []string{"raw archive-level calls which create entries without parents are excluded (they bypass the file system's namespace)", "links whose target does not exist, or is a link itself, can be listed and stat-ed, but not opened"},
		Limit:       240 * time.Second,
	})
}

type nsStats struct{ deepest, widest, links int }

// checkNamespace judges the namespace of an instance.
func checkNamespace(c *Ctx, r *Rig, when string, deep bool) (Snap, nsStats) {
	st := nsStats{}
	fail := func(f string, a ...interface{}) {
		c.Violate("%s: %s [%v]", when, fmt.Sprintf(f, a...), r.Cfg)
	}
	tree, err := Walk(r.FS)
	if err != nil {
		fail("%v", err)
	}
	c.Count("namespaces checked", 1)

	// Exactly the live entries are reachable
	rows, err := r.Rows()
	must(err)
	live := map[string]*config.Header{}
	targets := map[string]string{}
	for _, h := range rows {
		p := norm(h.Name)
		if h.Linkname != "" {
			p = norm(h.Linkname)
			targets[p] = norm(h.Name)
		}
		if live[p] != nil {
			fail("there is more than one live entry at %q", p)
		}
		live[p] = h
		if _, ok := tree[p]; !ok {
			fail("the entry %q is live, but it is not reachable by listing directories from the root", p)
		}
	}
	byDir := map[string][]string{}
	for p, e := range tree {
		if live[p] == nil {
			fail("%q is listed, but it is not live", p)
		}
		if e.IsLink {
			st.links++
		} else if e.ReadErr != "" {
			fail("reading %q: %s", p, e.ReadErr)
		}
		if d := strings.Count(p, "/"); d > st.deepest {
			st.deepest = d
		}
		if p == "/" {
			continue
		}
		d := path.Dir(p)
		if pe, ok := tree[d]; !ok || !pe.Dir || pe.IsLink {
			fail("the parent of %q is not a directory which exists", p)
		}
		byDir[d] = append(byDir[d], path.Base(p))
	}
	if e, ok := tree["/"]; !ok || !e.Dir {
		fail("the root is not a directory")
	}

	dirs := []string{}
	for p, e := range tree {
		if e.Dir && !e.IsLink {
			dirs = append(dirs, p)
		}
	}
	sort.Strings(dirs)
	full := dirs
	if !deep && len(dirs) > 5 {
		full = append([]string{}, dirs...)
		c.Rng.Shuffle(len(full), func(i, j int) { full[i], full[j] = full[j], full[i] })
		full = full[:4]
		full = append(full, "/")
	}
	for _, d := range full {
		kids := byDir[d]
		sort.Strings(kids)
		k := len(kids)
		if k > st.widest {
			st.widest = k
		}
		limits := []int{-1, 0, 1, 2, k - 1, k, k + 1, 100}
		if deep || c.Thorough() {
			limits = append(limits, -5, 3, k-2, k+2, 1<<30)
		}
		for j, n := range limits {
			for _, names := range []bool{false, true} {
				if k > 50 && c.Rng.Intn(2) == 0 {
					continue
				}
				if k > 50 && names && n != k-1 || !c.Thorough() && names != (j%2 == 0) && n != 0 {
					continue
				}
				got := listing(c, r, when, d, n, names)
				c.Count("listings", 1)
				if n > 0 {
					c.Count("limited listings", 1)
					if len(got) > n {
						fail("listing %q with a limit of %d returned %d entries", d, n, len(got))
					}
				}
				seen := map[string]bool{}
				for _, x := range got {
					if seen[x] {
						fail("listing %q (limit %d) returned %q more than once", d, n, x)
					}
					seen[x] = true
					if i := sort.SearchStrings(kids, x); i >= k || kids[i] != x {
						fail("listing %q (limit %d) returned %q, which is not one of its children %q", d, n, x, kids)
					}
				}
				if len(got) != k && (n <= 0 || n >= k || len(got) == 0) {
					fail("listing %q (limit %d) returned %d of the %d children: %q instead of %q", d, n, len(got), k, got, kids)
				}
			}
		}
		// What a listing says about an entry
		h, err := r.FS.Open(d)
		if err != nil {
			fail("opening %q: %v", d, err)
		}
		infos, err := h.Readdir(-1)
		_ = h.Close()
		if err != nil {
			fail("listing %q: %v", d, err)
		}
		if len(infos) > 60 {
			c.Rng.Shuffle(len(infos), func(i, j int) { infos[i], infos[j] = infos[j], infos[i] })
			infos = infos[:30]
		}
		for _, i := range infos {
			p := path.Join(d, i.Name())
			s, err := r.FS.Stat(p)
			if err != nil {
				fail("%q is listed, but Stat says %v", p, err)
			}
			c.Count("listed names looked up", 1)
			dangling := false
			if t, ok := targets[p]; ok {
				c.Count("links listed", 1)
				_, isLink := targets[t]
				dangling = live[t] == nil || isLink
			}
			if i.IsDir() != s.IsDir() || i.Mode().Type() != s.Mode().Type() || i.Size() != s.Size() {
				fail("%q is listed as dir=%v type=%v size=%d, but Stat says dir=%v type=%v size=%d", p, i.IsDir(), i.Mode().Type(), i.Size(), s.IsDir(), s.Mode().Type(), s.Size())
			}
			f, err := r.FS.Open(p)
			if err != nil {
				if dangling {
					continue
				}
				fail("%q is listed, but opening it says %v", p, err)
			}
			o, err := f.Stat()
			_ = f.Close()
			if err != nil {
				fail("%q is listed and can be opened, but the handle's Stat says %v", p, err)
			}
			if o.IsDir() != i.IsDir() || o.Size() != i.Size() {
				fail("%q is listed as dir=%v size=%d, but it opens as dir=%v size=%d", p, i.IsDir(), i.Size(), o.IsDir(), o.Size())
			}
		}
	}
	// Nothing is found where nothing is listed
	for i := 0; i < 3; i++ {
		all := sortedPaths(tree)
		p := all[c.Rng.Intn(len(all))]
		for _, q := range []string{path.Join(p, "nothing-here"), p + "x", path.Join(path.Dir(p), strings.ToUpper(path.Base(p))), path.Join(p, path.Base(p))} {
			if _, ok := tree[q]; ok {
				continue
			}
			if x, err := r.FS.Stat(q); err == nil {
				fail("%q can be stat-ed (%v), but it is not listed", q, x.Name())
			}
			if f, err := r.FS.Open(q); err == nil {
				_ = f.Close()
				fail("%q can be opened, but it is not listed", q)
			}
		}
	}
	return tree, st
}

func listing(c *Ctx, r *Rig, when, d string, n int, names bool) []string {
	h, err := r.FS.Open(d)
	if err != nil {
		c.Violate("%s: opening %q: %v", when, d, err)
	}
	defer h.Close()
	out := []string{}
	if names {
		out, err = h.Readdirnames(n)
	} else {
		var infos []os.FileInfo
		infos, err = h.Readdir(n)
		for _, i := range infos {
			out = append(out, i.Name())
		}
	}
	if err != nil && !(n > 0 && err == io.EOF && len(out) == 0) {
		c.Violate("%s: listing %q (limit %d): %v", when, d, n, err)
	}
	return out
}

// namespaceOp is a call which a sloppy namespace gets wrong.
func namespaceOp(c *Ctx, g *Gen, tree Snap) Op {
	v := viewOf(tree.kinds())
	dirs, files, links := []string{}, []string{}, []string{}
	for p, e := range tree {
		switch {
		case e.IsLink:
			links = append(links, p)
		case e.Dir:
			dirs = append(dirs, p)
		default:
			files = append(files, p)
		}
	}
	sort.Strings(dirs)
	sort.Strings(files)
	sort.Strings(links)
	d := g.pick(dirs)
	deep := func(n int) string {
		p := d
		for i := 0; i < n && strings.Count(p, "/") < 34; i++ {
			p = path.Join(p, g.name())
		}
		return p
	}
	switch g.R.Intn(13) {
	case 0:
		c.Count("multi-level MkdirAll", 1)
		return Op{K: "mkdirall", A: g.spell(deep(2 + g.R.Intn(5))), Perm: 0o755}
	case 1:
		c.Count("multi-level MkdirAll", 1)
		return Op{K: "mkdirall", A: deep(20 + g.R.Intn(12)), Perm: 0o755}
	case 2, 3: // below a file
		if len(files) > 0 {
			c.Count("calls below files", 1)
			p := path.Join(g.pick(files), g.name())
			if g.R.Intn(2) == 0 {
				p = path.Join(p, g.name())
			}
			switch g.R.Intn(6) {
			case 0:
				return Op{K: "mkdir", A: p, Perm: 0o755}
			case 1:
				return Op{K: "mkdirall", A: p, Perm: 0o755}
			case 2:
				return Op{K: "create", A: p}
			case 3:
				return Op{K: "open", A: p, Flag: os.O_RDWR | os.O_CREATE, Perm: 0o600}
			case 4:
				return Op{K: "rename", A: g.existing(v), B: p}
			default:
				return Op{K: "symlink", A: g.existing(v), B: p}
			}
		}
	case 4: // below nothing
		p := deep(2 + g.R.Intn(2))
		switch g.R.Intn(5) {
		case 0:
			return Op{K: "mkdir", A: p, Perm: 0o755}
		case 1:
			return Op{K: "create", A: p}
		case 2:
			return Op{K: "open", A: p, Flag: os.O_WRONLY | os.O_CREATE, Perm: 0o600}
		case 3:
			return Op{K: "rename", A: g.existing(v), B: p}
		default:
			return Op{K: "symlink", A: g.existing(v), B: p}
		}
	case 5: // trailing slashes, and other spellings
		p := deep(1) + strings.Repeat("/", 1+g.R.Intn(2))
		if g.R.Intn(2) == 0 {
			return Op{K: "mkdir", A: p, Perm: 0o755}
		}
		return Op{K: "create", A: p}
	case 6: // names of the root and names without a meaning
		p := []string{"", "/", ".", "./", "..", "../x", "//", "/..", "/../y", "x/..", "/./", " "}[g.R.Intn(12)]
		switch g.R.Intn(6) {
		case 0:
			return Op{K: "mkdir", A: p, Perm: 0o755}
		case 1:
			return Op{K: "mkdirall", A: p, Perm: 0o755}
		case 2:
			return Op{K: "create", A: p}
		case 3:
			return Op{K: "rename", A: p, B: deep(1)}
		case 4:
			return Op{K: "rename", A: g.existing(v), B: p}
		default:
			return Op{K: "chmod", A: p, Perm: 0o711}
		}
	case 7: // links to directories and from within them
		return Op{K: "symlink", A: g.pick(dirs), B: path.Join(d, fmt.Sprintf("l%d", g.R.Intn(50)))}
	case 8: // through links
		if len(links) > 0 {
			p := g.pick(links)
			q := path.Join(p, g.name())
			switch g.R.Intn(7) {
			case 0:
				return Op{K: "mkdir", A: q, Perm: 0o755}
			case 1:
				return Op{K: "create", A: q}
			case 2:
				return Op{K: "mkdirall", A: path.Join(q, g.name()), Perm: 0o755}
			case 3:
				return Op{K: "rename", A: g.existing(v), B: q}
			case 4:
				return Op{K: "create", A: p}
			case 5:
				return Op{K: "mkdir", A: p, Perm: 0o755}
			default:
				return Op{K: "rename", A: g.existing(v), B: p}
			}
		}
	case 11: // a link in place of something
		if len(links) > 0 {
			return Op{K: "rename", A: g.pick(links), B: g.existing(v)}
		}
	case 9: // a directory into itself, or onto something
		q := deep(1)
		if g.R.Intn(2) == 0 {
			q = g.existing(v)
		}
		return Op{K: "rename", A: d, B: q}
	case 10: // a directory in place of a file, and the other way around
		if len(files) > 0 && d != "/" {
			if g.R.Intn(2) == 0 {
				return Op{K: "rename", A: d, B: g.pick(files)}
			}
			return Op{K: "rename", A: g.pick(files), B: d}
		}
	}
	if d != "/" {
		return Op{K: "removeall", A: d}
	}
	return Op{K: "mkdir", A: deep(1), Perm: 0o755}
}

// ok13 tells whether a generated call is within the property.
func ok13(op Op, tree Snap) bool {
	raw := op.K == "archive" || op.K == "update" || op.K == "opdelete" || op.K == "opmove"
	if !raw {
		if (op.K == "remove" || op.K == "removeall") && norm(op.A) == "/" {
			return false
		}
		return true
	}
	// Raw calls on the names of links are outside
	bad := func(p string) bool {
		p = norm(p)
		for q, e := range tree {
			if e.IsLink && (p == q || under(p, q)) {
				return true
			}
		}
		return false
	}
	if op.A != "" && bad(op.A) || op.B != "" && bad(op.B) {
		return false
	}
	for _, b := range op.Batch {
		if bad(b.Path) {
			return false
		}
		if e, ok := tree[norm(b.Path)]; ok && (op.K == "archive" || e.Dir != b.Dir) {
			return false
		}
		if _, ok := tree[norm(b.Path)]; !ok && op.K == "update" {
			return false
		}
	}
	return true
}

func runC13(c *Ctx) {
	cfg := cheapCfg(c.Rng)
	switch c.Idx % 6 {
	case 1:
		cfg = fullCfg(c.Rng)
		cfg.Sig = config.NoneKey
	case 5:
		cfg = tapeCfg(c.Rng)
	default:
		cfg.Comp, cfg.Enc, cfg.Sig = config.NoneKey, config.NoneKey, config.NoneKey
	}
	g := NewGen(c.Rng).own(cfg)
	g.Sizes = []int{0, 1, 100, 512, 600}
	g.Links = c.Idx%2 == 0
	g.Archive = c.Idx%3 == 0
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	tree, _ := checkNamespace(c, r, "fresh instance", true)
	do := func(op Op, deep bool) {
		c.Trace("%s", op)
		res := Exec(r, op)
		c.Count("calls", 1)
		var st nsStats
		tree, st = checkNamespace(c, r, fmt.Sprintf("after %s (%s)", op, res.Class), deep)
		if st.widest > 100 {
			c.Count("directories with more than 100 children", 1)
		}
		if st.deepest > 20 {
			c.Count("entries deeper than 20", 1)
		}
		cl := res.Class
		if strings.HasPrefix(cl, "other:") {
			cl = "other"
		}
		e, ok := tree[norm(op.A)]
		c.Eval(fmt.Sprintf("%s|%s|%v%v%v|%d|%d|%d", op.K, cl, ok, e.Dir, e.IsLink, len(tree), st.deepest, st.links))
	}
	others := func(when string) {
		for _, rebuilt := range []bool{true, false} {
			what, open := "rebuilt namespaces", r.Rebuilt
			if !rebuilt {
				what, open = "reopened namespaces", r.Reopened
			}
			o, err := open()
			if err != nil {
				c.Violate("%s, opening a second instance (rebuilt=%v): %v [%v]", when, rebuilt, err, cfg)
			}
			checkNamespace(c, o, fmt.Sprintf("%s, in a second instance (rebuilt=%v)", when, rebuilt), false)
			o.Close()
			c.Count(what, 1)
		}
	}
	switch c.Idx % 8 {
	case 3: // a wide directory
		wide13(c, r, g, do)
	case 7: // a deep one
		p := ""
		for i := 0; i < 6; i++ {
			for j := 0; j < 5; j++ {
				p += "/" + g.name()
			}
			do(Op{K: []string{"mkdirall", "mkdirall", "mkdir"}[c.Rng.Intn(3)], A: p, Perm: 0o755}, false)
			if !tree[p].Dir {
				do(Op{K: "mkdirall", A: p, Perm: 0o755}, false)
			}
			do(Op{K: "create", A: p + "/f"}, false)
		}
	}
	calls := c.Pick(26, 60)
	for i := 0; i < calls; i++ {
		op := g.Next(tree.kinds())
		if c.Rng.Intn(2) == 0 {
			op = namespaceOp(c, g, tree)
		}
		if !ok13(op, tree) {
			continue
		}
		do(op, len(tree) < 25)
		if len(tree) > 150 && c.Rng.Intn(3) == 0 {
			do(Op{K: "removeall", A: "/wide"}, false)
		}
		if i%9 == 8 {
			others(fmt.Sprintf("after %s", op))
		}
	}
	others("at the end")
	if c.Idx < 4 {
		c.Sample("%d entries at the end: %q [%v]", len(tree), sortedPaths(tree), cfg)
	}
}

func wide13(c *Ctx, r *Rig, g *Gen, do func(Op, bool)) {
	d := "/wide"
	do(Op{K: "mkdir", A: d, Perm: 0o755}, true)
	op := Op{K: "archive"}
	n := 101 + c.Rng.Intn(60)
	for i := 0; i < n; i++ {
		dir := i%7 == 0
		e := BatchEnt{Path: fmt.Sprintf("%s/%s%d", d, []string{"f", "%", "a_"}[i%3], i), Dir: dir, Perm: 0o644, T: 1_600_000_000_000_000_000}
		if !dir {
			e.D = &Data{Lit: "x"}
		}
		op.Batch = append(op.Batch, e)
		if dir {
			// Deeper descendants, which must not be listed
			op.Batch = append(op.Batch, BatchEnt{Path: e.Path + "/below", Perm: 0o644, T: e.T, D: &Data{Lit: "y"}})
		}
	}
	do(op, true)
	do(Op{K: "rename", A: d + "/f0", B: "/w0"}, false)
	do(Op{K: "remove", A: d + "/%1"}, false)
	do(Op{K: "rename", A: d, B: "/wider"}, false)
	do(Op{K: "create", A: "/wider/one more"}, false)
	do(Op{K: "rename", A: "/wider", B: d}, true)
}
