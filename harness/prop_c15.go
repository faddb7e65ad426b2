package main

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C15: read-only instances over populated tapes get every kind of call, with the tape and the rows of the index compared byte by byte after
// each of them; what the reading ones return is compared with a writable instance over a copy of the same data.

func init() {
	register(&Prop{
		ID: "C15", Level: "exploration",
		Rule:        "distinct (call, outcome, kind of the operands, composition, state of the index) combinations after which the tape and the index were compared",
		Plan:        func(tier string) int { return map[string]int{"quick": 420, "thorough": 6000}[tier] },
		Run:         runC15,
		Need:        []string{"calls", "rejected calls", "read calls compared", "handle calls compared", "rejected handle calls", "instances without write operations", "instances with write operations", "missing indexes built", "cut tapes", "empty drives", "requests served", "tape drives", "stale indexes", "overwriting drives"},
		Assumptions: []string{"over an index which is older or newer than the tape, only the absence of changes and the rejection of mutating calls are judged (updating the index is a change of it)", "a call with an empty name may be rejected as invalid"},
		Limit:       240 * time.Second,
	})
}

type roState struct {
	tape  []byte
	index string
	files string
}

func (r *Rig) roState(c *Ctx) roState {
	s := roState{}
	if r.Cfg.Tape {
		s.tape = r.Opts.Tape.Stream()
	} else {
		b, err := os.ReadFile(r.Drive)
		if err != nil && !os.IsNotExist(err) {
			must(err)
		}
		if os.IsNotExist(err) {
			s.files = "no drive "
		}
		s.tape = b
	}
	var err error
	s.index, err = DumpDB(r.DB)
	must(err)
	return s
}

func roCompare(c *Ctx, r *Rig, want roState, op string, index bool) {
	got := r.roState(c)
	if !bytes.Equal(want.tape, got.tape) || want.files != got.files {
		at := 0
		for at < len(want.tape) && at < len(got.tape) && want.tape[at] == got.tape[at] {
			at++
		}
		c.Violate("%s on a read-only instance changed the tape: %d instead of %d bytes, first difference at %d (%q -> %q) [%v]", op, len(got.tape), len(want.tape), at, want.files, got.files, r.Cfg)
	}
	if index && want.index != got.index {
		c.Violate("%s on a read-only instance changed the index: %s [%v]", op, lineDiff(want.index, got.index), r.Cfg)
	}
}

func infoString(i os.FileInfo) string {
	if i == nil {
		return "none"
	}
	return fmt.Sprintf("%q %v %v", i.Name(), i.Mode().Type(), entFromInfo(i))
}

// readOp performs a reading call and describes everything it returned.
func readOp(f afero.Fs, op Op) string {
	switch op.K {
	case "stat":
		i, err := f.Stat(op.A)
		return class(err) + " " + infoString(i)
	case "lstat":
		i, ok, err := f.(afero.Lstater).LstatIfPossible(op.A)
		return fmt.Sprintf("%s %v %s", class(err), ok, infoString(i))
	case "readlink":
		t, err := f.(afero.LinkReader).ReadlinkIfPossible(op.A)
		return fmt.Sprintf("%s %q", class(err), t)
	case "read":
		b, err := readAll(f, op.A)
		return fmt.Sprintf("%s %q", class(err), digest(b))
	case "list":
		h, err := f.Open(op.A)
		if err != nil {
			return "open " + class(err)
		}
		defer h.Close()
		infos, err := h.Readdir(op.N)
		out := []string{}
		for _, i := range infos {
			out = append(out, infoString(i))
		}
		if op.N <= 0 {
			sort.Strings(out)
		}
		names, err2 := h.Readdirnames(op.N)
		if op.N <= 0 {
			sort.Strings(names)
		}
		return fmt.Sprintf("%s %q %s %q", class(err), out, class(err2), names)
	case "open":
		h, err := f.OpenFile(op.A, op.Flag, modeOf(op.Perm))
		if err != nil {
			return "open " + class(err)
		}
		i, err := h.Stat()
		out := fmt.Sprintf("%q %s %s", h.Name(), class(err), infoString(i))
		for _, a := range op.Acts {
			out += " | " + a.K + " " + execAct(h, a)
		}
		return out + " close " + class(h.Close())
	case "name":
		return f.Name()
	}
	panic("harness: unknown reading op " + op.K)
}

func runC15(c *Ctx) {
	cfg := fullCfg(c.Rng)
	switch c.Idx % 6 {
	case 0, 3:
		cfg = cheapCfg(c.Rng)
	case 5:
		cfg = tapeCfg(c.Rng)
	}
	cfg.WPR = c.Rng.Intn(6) == 0
	g := NewGen(c.Rng).own(cfg)
	g.Sizes = []int{0, 1, 100, 512, 513, 3000}
	g.Links = c.Idx%2 == 0
	g.Archive = c.Idx%3 == 0
	r, err := NewRig(cfg, c.Base, Opts{})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	stale := []byte(nil)
	tree, err := Walk(r.FS)
	n := 8 + c.Rng.Intn(25)
	for i := 0; i < n && err == nil; i++ {
		op := mutating(g, tree.kinds())
		if !ok13(op, tree) {
			continue
		}
		c.Trace("%s", op)
		Exec(r, op)
		tree, err = Walk(r.FS)
		if i == n/2 {
			stale, _ = os.ReadFile(r.DB)
		}
	}
	if err != nil {
		c.Violate("populating the tape: %v", err)
	}
	fz := freeze(r)
	r.Destroy()

	for _, state := range []string{"current", "absent", "cut", "stale", "empty"} {
		if c.Rng.Intn(2) == 0 && (state == "cut" || state == "stale" || state == "empty") {
			continue
		}
		f := *fz
		switch state {
		case "absent":
			f.db = nil
		case "cut":
			if cfg.Tape {
				continue
			}
			f.db = nil
			f.drive = f.drive[:c.Rng.Intn(len(f.drive))]
			c.Count("cut tapes", 1)
		case "stale":
			if stale == nil {
				continue
			}
			f.db = stale
			c.Count("stale indexes", 1)
		case "empty":
			f.db, f.drive, f.objs = nil, nil, nil
			c.Count("empty drives", 1)
		}
		roCase(c, g, &f, state, tree, c.Rng.Intn(2) == 0)
	}
	if c.Idx < 3 {
		c.Sample("%d entries, %d bytes [%v]", len(tree), len(fz.drive), cfg)
	}
}

func roCase(c *Ctx, g *Gen, f *Frozen, state string, tree Snap, nilWrite bool) {
	cfg := f.cfg
	over := c.Rng.Intn(3) == 0
	if over {
		c.Count("overwriting drives", 1) // Opening the drive for writing would erase it
	}
	if cfg.Tape {
		c.Count("tape drives", 1)
	}
	if nilWrite {
		c.Count("instances without write operations", 1)
	} else {
		c.Count("instances with write operations", 1)
	}
	ro := f.open(c.Base, Opts{ReadOnly: true, NilWrite: nilWrite, Overwrite: over})
	defer ro.Destroy()
	if state == "empty" && !cfg.Tape && c.Rng.Intn(2) == 0 {
		must(os.Remove(ro.Drive))
	}
	what := fmt.Sprintf("[%s index, write operations: %v]", state, !nilWrite)
	st := ro.roState(c)
	if c.Rng.Intn(3) == 0 {
		// Calls before it has been initialised
		for i := 0; i < 4; i++ {
			op := g.Next(tree.kinds())
			for strings.Contains(op.A+op.B, "\x00") {
				op = g.Next(tree.kinds()) // Which of two errors it is doesn't matter
			}
			if !roMutates(op) {
				op = Op{K: "mkdir", A: "/x", Perm: 0o755}
			}
			roMutate(c, ro, op, what, nil)
			roCompare(c, ro, st, op.String()+" "+what, true)
		}
	}
	tw := f.open(c.Base, Opts{})
	defer tw.Destroy()
	twRoot, twErr := tw.FS.Initialize("/", os.ModePerm)

	c.Trace("initialize a read-only instance %s", what)
	root, err := ro.FS.Initialize("/", os.ModePerm)
	hasRoot := err == nil
	roCompare(c, ro, st, "Initialize "+what, state == "current" || state == "stale")
	if state == "absent" || state == "cut" {
		if st2 := ro.roState(c); st2.index != st.index {
			c.Count("missing indexes built", 1)
			st = st2
		}
	} else if state == "empty" {
		st = ro.roState(c)
	}
	if state == "current" || state == "absent" {
		if err != nil || twErr != nil || root != twRoot {
			c.Violate("Initialize %s returned %q, %v; for a writable instance: %q, %v [%v]", what, root, err, twRoot, twErr, cfg)
		}
	} else if !hasRoot && twErr == nil && class(err) != "permission" {
		c.Violate("Initialize %s without a root returned %v [%v]", what, err, cfg)
	} else if hasRoot && twErr != nil {
		c.Violate("Initialize %s returned %q, but for a writable instance: %v [%v]", what, root, twErr, cfg)
	}
	comparable := hasRoot && twErr == nil && state != "stale"
	if state == "empty" && hasRoot {
		c.Violate("Initialize %s of an empty drive returned the root %q [%v]", what, root, cfg)
	}
	if comparable {
		a, e1 := Walk(ro.FS)
		b, e2 := Walk(tw.FS)
		if e1 != nil || e2 != nil {
			c.Violate("listing %s: %v; for a writable instance: %v [%v]", what, e1, e2, cfg)
		}
		if d := Diff(b, a, "writable", "read-only"); d != "" {
			c.Violate("the tree %s differs from a writable instance's: %s [%v]", what, d, cfg)
		}
		tree = a
	}
	kinds := tree.kinds()
	v := viewOf(kinds)
	calls := c.Pick(28, 80)
	for i := 0; i < calls; i++ {
		var op Op
		switch c.Rng.Intn(10) {
		case 0, 1, 2: // reading calls
			op = Op{K: []string{"stat", "lstat", "readlink", "read", "list", "list", "name"}[c.Rng.Intn(7)], A: g.spell(g.any(v)), N: []int{-1, 0, 1, 2, 10}[c.Rng.Intn(5)]}
		case 3, 4: // a handle which reads
			op = Op{K: "open", A: g.spell(g.target(v)), Flag: os.O_RDONLY, Perm: 0o600}
			for j := c.Rng.Intn(8); j > 0; j-- {
				if a := g.act(false, false); !writes(a) {
					op.Acts = append(op.Acts, a)
				}
			}
		case 5: // a handle with any flags
			op = Op{K: "open", A: g.spell(g.any(v)), Flag: c.Rng.Intn(4), Perm: g.perm()}
			for _, x := range []int{os.O_APPEND, os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_SYNC} {
				if c.Rng.Intn(3) == 0 {
					op.Flag |= x
				}
			}
			op.Acts = g.acts(os.O_RDWR, 6)
		case 6:
			op = namespaceOp(c, g, tree)
		case 7:
			// Whole families of calls on the same, existing entry
			p := g.existing(v)
			op = []Op{{K: "remove", A: p}, {K: "removeall", A: p}, {K: "rename", A: p, B: g.freshUnused(v)}, {K: "rename", A: p, B: p}, {K: "chmod", A: p, Perm: 0o600}, {K: "chown", A: p, U: 1, G: 2},
				{K: "chtimes", A: p, T1: 1e18, T2: 1e18}, {K: "symlink", A: p, B: g.freshUnused(v)}, {K: "create", A: p}, {K: "mkdir", A: p}, {K: "mkdirall", A: p}, {K: "removeall", A: "/"}, {K: "remove", A: "/"},
				{K: "mkdirall", A: "/"}, {K: "initialize"}}[c.Rng.Intn(15)]
		default:
			op = g.Next(kinds)
			for strings.Contains(op.A+op.B, "\x00") {
				op = g.Next(kinds) // Which of two errors it is doesn't matter
			}
		}
		if op.K == "archive" || op.K == "update" || op.K == "opdelete" || op.K == "opmove" {
			continue
		}
		c.Trace("%s", op)
		c.Count("calls", 1)
		class := ""
		switch {
		case op.K == "initialize":
			got, err := ro.FS.Initialize([]string{"/", "", "/other"}[c.Rng.Intn(3)], os.ModePerm)
			if hasRoot && (err != nil || got != root) {
				c.Violate("another Initialize %s returned %q, %v [%v]", what, got, err, cfg)
			}
			if !hasRoot && err == nil {
				c.Violate("another Initialize %s without a root returned %q [%v]", what, got, cfg)
			}
		case roMutates(op):
			class = roMutate(c, ro, op, what, kinds)
		case op.K == "open" && op.Flag != os.O_RDONLY:
			class = roOpen(c, ro, tw, op, what, kinds, comparable)
		default:
			got := readOp(ro.FS, op)
			class = strings.Fields(got + " .")[0]
			if comparable {
				if want := readOp(tw.FS, op); got != want {
					c.Violate("%s %s returned %s, but a writable instance returned %s [%v]", op, what, clip(got, 400), clip(want, 400), cfg)
				}
				c.Count("read calls compared", 1)
				c.Count("handle calls compared", len(op.Acts))
			}
		}
		roCompare(c, ro, st, fmt.Sprintf("%s %s", op, what), true)
		if strings.HasPrefix(class, "other:") {
			class = "other"
		}
		x, ok := tree[norm(op.A)]
		c.Eval(fmt.Sprintf("%s|%s|%x|%v%v%v|%s|%v|%v", op.K, class, op.Flag, ok, x.Dir, x.IsLink, state, nilWrite, cfg.Tape))
	}
	if comparable && c.Rng.Intn(2) == 0 {
		serve15(c, ro, root, tree, what)
		roCompare(c, ro, st, "serving "+what, true)
	}
	// Nothing is left behind for the next one, either
	if comparable {
		b, err := Walk(ro.FS)
		if err != nil {
			c.Violate("listing %s at the end: %v [%v]", what, err, cfg)
		}
		if d := Diff(tree, b, "before", "after"); d != "" {
			c.Violate("the tree %s changed: %s [%v]", what, d, cfg)
		}
	}
	ents, err := os.ReadDir(filepath.Dir(ro.Drive))
	must(err)
	for _, e := range ents {
		if n := e.Name(); !strings.HasPrefix(n, "drive.tar") && !strings.HasPrefix(n, "index.sqlite") && !strings.HasPrefix(n, "wc") {
			c.Violate("the calls %s created %q", what, n)
		}
	}
}

func writes(a Act) bool { return strings.HasPrefix(a.K, "write") || a.K == "trunc" }

func roMutates(op Op) bool {
	switch op.K {
	case "create", "mkdir", "mkdirall", "remove", "removeall", "rename", "chmod", "chown", "chtimes", "symlink":
		return true
	}
	return false
}

func roMutate(c *Ctx, r *Rig, op Op, what string, kinds map[string]bool) string {
	res := Exec(r, op)
	if res.Class == "permission" || res.Class == "invalid" && (op.A == "" || op.B == "" && (op.K == "rename" || op.K == "symlink")) {
		c.Count("rejected calls", 1)
		return res.Class
	}
	c.Violate("%s %s returned %q (%v) instead of a permission error [%v]", op, what, res.Class, res.Err, r.Cfg)
	return ""
}

// roOpen opens with flags which ask for more than reading.
func roOpen(c *Ctx, ro, tw *Rig, op Op, what string, kinds map[string]bool, comparable bool) string {
	if op.A == "" {
		return ""
	}
	h, err := ro.FS.OpenFile(op.A, op.Flag, modeOf(op.Perm))
	cl := class(err)
	_, serr := ro.FS.Stat(op.A)
	if err != nil {
		allowed := "permission"
		switch {
		case serr != nil && op.Flag&os.O_CREATE == 0:
			allowed = "permission|notexist"
		case serr == nil && op.Flag&os.O_CREATE != 0 && op.Flag&os.O_EXCL != 0:
			allowed = "permission|exist"
		case serr == nil:
			// Opening for writing could be rejected right away
			allowed = "permission|isdir|notexist"
		}
		if !classMatches(cl, allowed) {
			c.Violate("%s %s returned %q (%v) instead of %s [%v]", op, what, cl, err, allowed, ro.Cfg)
		}
		c.Count("rejected calls", 1)
		return cl
	}
	if serr != nil {
		c.Violate("%s %s succeeded, but there is no such entry [%v]", op, what, ro.Cfg)
	}
	info, err := h.Stat()
	if err != nil {
		c.Violate("Stat on the handle of %s %s: %v", op, what, err)
	}
	for _, a := range op.Acts {
		if !writes(a) {
			_ = execAct(h, a)
			continue
		}
		got := execAct(h, a)
		f := strings.Fields(got)
		ok := f[len(f)-1] == "permission" || info.IsDir() && f[len(f)-1] == "isdir" || a.K == "writeat" && a.N < 0 && f[len(f)-1] == "invalid" || a.K == "trunc" && a.N < 0 && f[0] == "invalid"
		if a.D != nil && len(a.D.Bytes()) == 0 && got == "0 ok" {
			ok = true // Nothing to write
		}
		if len(f) > 1 && f[0] != "0" || !ok {
			c.Violate("%s on a handle of %s %s returned %q instead of a permission error [%v]", a.K, op, what, got, ro.Cfg)
		}
		c.Count("rejected handle calls", 1)
	}
	if err := h.Close(); err != nil {
		c.Violate("closing the handle of %s %s: %v [%v]", op, what, err, ro.Cfg)
	}
	// It may not have been truncated for readers, either
	if comparable && !info.IsDir() {
		a, b := readOp(ro.FS, Op{K: "read", A: op.A}), readOp(tw.FS, Op{K: "read", A: op.A})
		if a != b {
			c.Violate("after %s %s, reading it returned %s, but a writable instance returned %s [%v]", op, what, clip(a, 200), clip(b, 200), ro.Cfg)
		}
	}
	return "ok"
}

// serve15 serves the instance like `serve http` does.
func serve15(c *Ctx, ro *Rig, root string, tree Snap, what string) {
	ct := []string{config.NoneKey, config.FileSystemCacheTypeMemory, config.FileSystemCacheTypeDir}[c.Rng.Intn(3)]
	fs, err := cache.NewCacheFilesystem(ro.FS, root, ct, time.Hour, filepath.Join(c.Base, fmt.Sprintf("serve%d", nextID())))
	must(err)
	srv := httptest.NewServer(http.FileServer(afero.NewHttpFs(fs)))
	defer srv.Close()
	client := &http.Client{CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }, Transport: &http.Transport{DisableKeepAlives: true}}
	for i, p := range sortedPaths(tree) {
		e := tree[p]
		if e.IsLink || i > 12 {
			continue
		}
		u := srv.URL
		for _, x := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
			u += "/" + url.PathEscape(x)
		}
		for _, m := range []string{"GET", "PUT", "DELETE", "POST"} {
			req, err := http.NewRequest(m, u, strings.NewReader("data"))
			if err != nil {
				continue
			}
			res, err := client.Do(req)
			if err != nil && strings.Contains(err.Error(), "failed to parse Location") {
				continue // net/http does not escape the names of directories in redirects
			}
			if err != nil {
				c.Violate("serving %s %q %s: %v [%v]", m, p, what, err, ro.Cfg)
			}
			b, _ := io.ReadAll(res.Body)
			res.Body.Close()
			c.Count("requests served", 1)
			if m == "GET" && !e.Dir && e.ReadErr == "" && ct == config.NoneKey && path.Base(p) != "index.html" {
				if res.StatusCode != 200 || digest(b) != e.Content {
					c.Violate("serving %q %s returned %d with %d bytes, but the file has %d [%v]", p, what, res.StatusCode, len(b), e.Size, ro.Cfg)
				}
			}
		}
	}
}
