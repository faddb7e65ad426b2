package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// gate stops the first call which reaches the seams for the k-th time, until it is released.
type gate struct {
	mu      sync.Mutex
	armed   bool
	n, k    int
	only    string // only seams of this kind count
	kind    string
	reached chan struct{}
	release chan struct{}
}

func (g *gate) arm(k int, only string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.armed, g.n, g.k, g.kind, g.only = true, 0, k, "", only
	g.reached, g.release = make(chan struct{}), make(chan struct{})
}

func (g *gate) disarm() (points int) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.armed = false
	return g.n
}

func (g *gate) point(kind string) error {
	g.mu.Lock()
	if !g.armed || !strings.HasPrefix(kind, g.only) {
		g.mu.Unlock()
		return nil
	}
	g.n++
	if g.n != g.k {
		g.mu.Unlock()
		return nil
	}
	g.kind = kind
	reached, release := g.reached, g.release
	g.mu.Unlock()
	close(reached)
	<-release
	return nil
}

// lstateOf returns the state a tree is in.
func lstateOf(s Snap, content map[string]string) *lstate {
	l := &lstate{names: map[string]int{}, hs: map[int]lhandle{}}
	for p, e := range s {
		l.inos = append(l.inos, lino{dir: e.Dir, perm: e.Perm, uid: int(e.Uid), data: content[p]})
		l.names[p] = len(l.inos) - 1
	}
	return l
}

// preempted stops calls at each of their seams and lets other clients call in the meantime: they have to wait, or see one of the states
// a sequential order can explain.
func preempted(c *Ctx) {
	var cfg Cfg
	rounds := c.Pick(10, 20)
	switch c.Rng.Intn(8) {
	case 0:
		cfg = fullCfg(c.Rng)
		cfg.Level = config.CompressionLevelFastestKey
	case 1:
		cfg = tapeCfg(c.Rng)
		cfg.Level = config.CompressionLevelFastestKey
	default:
		rounds *= 4
		cfg = Cfg{Level: config.CompressionLevelFastestKey, RecordSize: recordSizes[c.Rng.Intn(7)], Cache: caches(c.Rng)}
	}
	g := &gate{}
	r, err := NewRig(cfg, c.Base, Opts{Hooks: &Hooks{Point: g.point}})
	if err != nil {
		c.Violate("fresh instance with %v: %v", cfg, err)
	}
	uid := os.Getuid()
	points := map[string]int{}
	hid := 0
	snap, content := treeOf(c, r)
	for round := 0; round < rounds; round++ {
		start := lstateOf(snap, content)
		l := &lrun{r: r, handles: map[int]afero.File{}}
		nextH := func() int { hid++; return hid }
		setup := func(c *lcall) *lcall { c.Client = -1; return l.do(c) }
		write := func(p, d string) {
			id := nextH()
			setup(&lcall{K: "open", A: p, Flag: os.O_RDWR | os.O_CREATE | os.O_TRUNC, Perm: 0o644, H: id})
			setup(&lcall{K: "hwrite", H: id, D: d})
			setup(&lcall{K: "hclose", H: id})
		}
		setup(&lcall{K: "removeall", A: "/s"})
		setup(&lcall{K: "mkdirall", A: "/s/d", Perm: 0o755})
		for _, p := range []string{"/s/a", "/s/d/x"} {
			if c.Rng.Intn(6) > 0 {
				write(p, fmt.Sprintf("initial %s %d", p, round))
			}
		}
		if c.Rng.Intn(2) == 0 {
			write("/s/d/y", "the other one")
		}
		if c.Rng.Intn(3) == 0 {
			setup(&lcall{K: "mkdir", A: "/s/d2", Perm: 0o755})
		}

		// The call which is stopped
		dir := c.Rng.Intn(2) == 0
		from := map[bool]string{true: "/s/d", false: []string{"/s/a", "/s/d/x"}[c.Rng.Intn(2)]}[dir]
		to := []string{"/s/d2", "/s/b", "/s/d2/z", "/s/d/z", "/s/d/y"}[c.Rng.Intn(5)]
		var main *lcall
		name := ""
		h := 0
		open := func(p string, flag int) {
			h = nextH()
			setup(&lcall{K: "open", A: p, Flag: flag, Perm: 0o600, H: h})
		}
		opened := func() bool { return h == 0 || l.handle(h) != nil }
		switch c.Rng.Intn(15) {
		case 0, 1, 2:
			main = &lcall{K: "rename", A: from, B: to}
			name = fmt.Sprint("rename", dir)
		case 3, 4:
			main = &lcall{K: "removeall", A: from}
			name = fmt.Sprint("removeall", dir)
		case 5:
			main = &lcall{K: "remove", A: []string{"/s/a", "/s/d2", "/s/d/x", "/s/d"}[c.Rng.Intn(4)]}
		case 6:
			main = &lcall{K: "mkdir", A: []string{"/s/m", "/s/d2", "/s/d/m"}[c.Rng.Intn(3)], Perm: 0o700}
		case 7:
			main = &lcall{K: "mkdirall", A: []string{"/s/m/n/o", "/s/d2/n", "/s/d/m/n"}[c.Rng.Intn(3)], Perm: 0o700}
		case 8:
			main = &lcall{K: []string{"chmod", "chown"}[c.Rng.Intn(2)], A: from, Perm: 0o640, N: 77}
		case 9:
			main = &lcall{K: "open", A: []string{"/s/a", "/s/b", "/s/d/x"}[c.Rng.Intn(3)], Flag: []int{os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_CREATE}[c.Rng.Intn(3)], Perm: 0o666, H: nextH()}
		case 10, 11, 12:
			open([]string{"/s/a", "/s/b", "/s/d/x"}[c.Rng.Intn(3)], []int{os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_APPEND}[c.Rng.Intn(3)])
			if !opened() {
				continue
			}
			if c.Rng.Intn(3) > 0 {
				setup(&lcall{K: "hwrite", H: h, D: strings.Repeat("new content ", 1+c.Rng.Intn(60))})
			}
			main = &lcall{K: []string{"hclose", "hsync", "hwrite", "htrunc"}[c.Rng.Intn(4)], H: h}
			if main.K == "hwrite" {
				main.D = "written by the main call"
			} else if main.K == "htrunc" {
				main.N = int64(c.Rng.Intn(40))
			}
		case 13:
			open([]string{"/s/a", "/s/d/x"}[c.Rng.Intn(2)], os.O_RDONLY)
			if !opened() {
				continue
			}
			main = &lcall{K: "hread", H: h, N: 9000}
		case 14:
			open([]string{"/s", "/s/d", "/"}[c.Rng.Intn(3)], os.O_RDONLY)
			if !opened() {
				continue
			}
			main = &lcall{K: "hlist", H: h}
		}
		if name == "" {
			name = main.K
		}

		// Those which come in the meantime
		near := []string{"/s/a", "/s/b", "/s/d", "/s/d/x", "/s/d/y", "/s/d2", "/s/d2/x", "/s/d2/z", "/s/m", "/s/m/n", "/s/d/z"}
		if main.K == "rename" || main.K == "removeall" {
			for _, k := range []string{"", "/x", "/y"} {
				near = append(near, main.A+k, main.A+k)
				if main.B != "" {
					near = append(near, main.B+k, main.B+k)
				}
			}
		} else if main.A != "" {
			near = append(near, main.A, main.A, main.A)
		}
		others := 1 + c.Rng.Intn(3)
		programs := make([][]*lcall, others)
		for i := range programs {
			looks := c.Rng.Intn(2) == 0 // Only looks at the tree
			add := func(x *lcall) {
				x.Client = i + 1
				programs[i] = append(programs[i], x)
			}
			if i == 0 && main.A != "" && c.Rng.Intn(2) == 0 {
				// Everything the call changes
				all := []string{}
				for _, q := range []string{main.A, main.B} {
					if q != "" {
						all = append(all, q, q+"/x", path.Dir(q))
					}
				}
				c.Rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
				for _, q := range all {
					add(&lcall{K: "stat", A: q})
				}
				continue
			}
			for n := 1 + c.Rng.Intn(3); n > 0; n-- {
				p := near[c.Rng.Intn(len(near))]
				k := c.Rng.Intn(12)
				if looks {
					k = c.Rng.Intn(6)
				}
				id := 0
				switch k {
				case 0, 1, 2:
					add(&lcall{K: "stat", A: p})
				case 3:
					id = nextH()
					add(&lcall{K: "open", A: []string{"/s", "/s/d", "/s/d2", path.Dir(p)}[c.Rng.Intn(4)], Flag: os.O_RDONLY, H: id})
					add(&lcall{K: "hlist", H: id})
					add(&lcall{K: "hclose", H: id})
				case 4:
					id = nextH()
					add(&lcall{K: "open", A: p, Flag: os.O_RDONLY, H: id})
					add(&lcall{K: "hread", H: id, N: 9000})
					add(&lcall{K: "hclose", H: id})
				case 5:
					if h == 0 {
						continue
					}
					add([]*lcall{{K: "hread", H: h, N: 10}, {K: "hreadat", H: h, N: 3, W: 20}, {K: "hseek", H: h, N: 2}, {K: "hlist", H: h}}[c.Rng.Intn(4)])
				case 6:
					add(&lcall{K: "mkdir", A: p, Perm: 0o711})
				case 7:
					add(&lcall{K: "rename", A: p, B: near[c.Rng.Intn(len(near))]})
				case 8:
					add(&lcall{K: []string{"remove", "removeall"}[c.Rng.Intn(2)], A: p})
				case 9:
					add(&lcall{K: "chmod", A: p, Perm: 0o604})
				case 10:
					id = nextH()
					add(&lcall{K: "open", A: p, Flag: []int{os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR, os.O_WRONLY | os.O_APPEND}[c.Rng.Intn(4)], Perm: 0o622, H: id})
					add(&lcall{K: "hwrite", H: id, D: fmt.Sprintf("<client %d>", i)})
					add(&lcall{K: "hclose", H: id})
				case 11:
					if h == 0 {
						continue
					}
					add([]*lcall{{K: "hwrite", H: h, D: "<shared>"}, {K: "hwriteat", H: h, D: "<at>", N: 5}, {K: "hsync", H: h}, {K: "htrunc", H: h, N: 4}}[c.Rng.Intn(4)])
				}
			}
		}

		only := []string{"", "index.", "index."}[c.Rng.Intn(3)]
		if main.K == "hread" || main.K == "hlist" {
			only = ""
		}
		name += " " + only
		max := points[name] + 1
		if max == 1 {
			max = 6
		}
		g.arm(1+c.Rng.Intn(max), only)
		var wg sync.WaitGroup
		wg.Add(1)
		mainDone := make(chan struct{})
		go func() {
			defer wg.Done()
			l.do(main)
			close(mainDone)
		}()
		stopped := false
		select {
		case <-g.reached:
			stopped = true
		case <-mainDone:
			select {
			case <-g.reached: // Reached, but not by the call itself
				stopped = true
			default:
			}
		}
		var progress int64
		othersDone := make(chan struct{})
		var ow sync.WaitGroup
		for i := range programs {
			ow.Add(1)
			prog := programs[i]
			go func() {
				defer ow.Done()
				for _, x := range prog {
					if x.H != 0 && x.K != "open" && l.handle(x.H) == nil {
						continue
					}
					l.do(x)
					atomic.AddInt64(&progress, 1)
				}
			}()
		}
		go func() { ow.Wait(); close(othersDone) }()
		if stopped {
			// Until they are done or have to wait for the call which is stopped
			for idle, last := 0, int64(-1); idle < 6; {
				select {
				case <-othersDone:
					idle = 100
					continue
				case <-time.After(time.Millisecond):
				}
				if p := atomic.LoadInt64(&progress); p != last {
					idle, last = 0, p
				} else {
					idle++
				}
			}
			c.Count("calls stopped at a seam", 1)
			c.Count("calls done while another one was stopped", int(atomic.LoadInt64(&progress)))
		}
		meantime := atomic.LoadInt64(&progress)
		close(g.release)
		wg.Wait()
		<-othersDone
		if n := g.disarm(); !stopped {
			points[name] = n
		} else if max < g.k+1 {
			points[name] = g.k + 1
		}
		if h != 0 {
			setup(&lcall{K: "hclose", H: h})
		}
		if main.K == "open" && l.handle(main.H) != nil {
			setup(&lcall{K: "hclose", H: main.H})
		}
		c.Count("calls", len(l.calls))
		snap, content = treeOf(c, r)
		final := []string{}
		for p, e := range snap {
			d := ""
			if !e.Dir {
				d = content[p]
			}
			final = append(final, fmt.Sprintf("%s %v %o %d %q", p, e.Dir, e.Perm, e.Uid, d))
		}
		sort.Strings(final)
		history := func() string {
			x := append([]*lcall{}, l.calls...)
			sort.Slice(x, func(a, b int) bool { return x[a].inv < x[b].inv })
			out := []string{}
			for _, y := range x {
				out = append(out, "    "+y.String())
			}
			return strings.Join(out, "\n")
		}
		order, decided, best, bestTree := linearize(start, l.calls, strings.Join(final, "\n"), uid, c.Pick(100000, 1000000))
		switch {
		case order == nil && decided:
			c.Violate("while %s was stopped at seam %d (%s), other clients called: no sequential order of the calls explains what they returned and the final tree (at most %d of %d calls) [%v]\nhistory:\n%s\nfinal tree:\n%s\nclosest:\n%s", name, g.k, g.kind, best, len(l.calls), cfg, history(), strings.Join(final, "\n"), bestTree)
		case order == nil:
			c.Count("histories beyond the budget of the search", 1)
		default:
			c.Count("linearized histories", 1)
			c.Count("histories with a call stopped at a seam", 1)
			c.Eval(fmt.Sprintf("gate|%d|%d|%s|%s|%d|%v", c.Idx, round, name, g.kind, meantime, order))
		}
	}
	once(c, r, g)
	if !cfg.Tape && c.Rng.Intn(2) == 0 {
		initialisations(c, cfg)
	}
	c11Rebuild(c, r, func() string { return "" })
	r.Destroy()
}

// once lets several clients create the same entry, each in its own way, while one of them is stopped at a seam: exactly one of them may succeed.
func once(c *Ctx, r *Rig, g *gate) {
	type creator struct {
		name string
		call func(p string) error
	}
	must(writeAll(r.FS, "/target", []byte("target")))
	creators := []creator{
		{"symlink", func(p string) error { return r.FS.SymlinkIfPossible("/target", p) }},
		{"mkdir", func(p string) error { return r.FS.Mkdir(p, 0o700) }},
		{"open for exclusive creation", func(p string) error {
			f, err := r.FS.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
			if err == nil {
				err = f.Close()
			}
			return err
		}},
	}
	stopAt := 1
	for round := 0; round < c.Pick(8, 16); round++ {
		p := fmt.Sprintf("/once%d", round)
		calls := []creator{creators[round%2*2], creators[c.Rng.Intn(3)], creators[c.Rng.Intn(3)]}
		if round%4 >= 2 {
			calls[1] = calls[0]
		}
		errs := make([]error, len(calls))
		g.arm(stopAt, "")
		var wg sync.WaitGroup
		first := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[0] = calls[0].call(p)
			close(first)
		}()
		select {
		case <-g.reached:
			c.Count("calls stopped at a seam", 1)
			stopAt += 1 + c.Rng.Intn(3)
		case <-first:
			stopAt = 1
		}
		for i := 1; i < len(calls); i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = calls[i].call(p)
			}()
		}
		time.Sleep(5 * time.Millisecond)
		close(g.release)
		wg.Wait()
		g.disarm()
		ok := []string{}
		for i, x := range calls {
			if errs[i] == nil {
				ok = append(ok, x.name)
			} else if !classMatches(class(errs[i]), "exist") {
				c.Violate("%s of %q, which other clients create, too: %v [%v]", x.name, p, errs[i], r.Cfg)
			}
		}
		if len(ok) != 1 {
			c.Violate("%d clients created %q, all of which succeeded: %s (the first one was stopped at seam %d: %s) [%v]", len(ok), p, strings.Join(ok, ", "), g.k, g.kind, r.Cfg)
		}
		kind := "file"
		if _, err := r.FS.ReadlinkIfPossible(p); err == nil {
			kind = "symlink"
		} else if i, err := r.FS.Stat(p); err == nil && i.IsDir() {
			kind = "mkdir"
		} else if err == nil {
			kind = "open for exclusive creation"
		}
		if kind != ok[0] {
			c.Violate("%q, which was created with %s, looks like the result of: %s [%v]", p, ok[0], kind, r.Cfg)
		}
		c.Count("entries which several clients created", 1)
		c.Eval(fmt.Sprintf("once|%d|%d|%s|%s", c.Idx, round, g.kind, ok[0]))
	}
}

// initialisations lets several clients initialise an empty file system, one of which is stopped at a seam.
func initialisations(c *Ctx, cfg Cfg) {
	for k := 1; k < 40; k += 1 + c.Rng.Intn(4) {
		g := &gate{}
		dir := filepath.Join(c.Base, fmt.Sprintf("i%d", nextID()))
		must(os.MkdirAll(dir, 0o700))
		r, err := OpenRig(cfg, dir, filepath.Join(dir, "drive.tar"), "", Opts{DBMem: true, Hooks: &Hooks{Point: g.point}})
		must(err)
		roots, errs := make([]string, 3), make([]error, 3)
		g.arm(k, "")
		var wg sync.WaitGroup
		first := make(chan struct{})
		call := func(i int) {
			defer wg.Done()
			roots[i], errs[i] = r.FS.Initialize("/", os.ModePerm)
			if i == 0 {
				close(first)
			}
		}
		wg.Add(3)
		go call(0)
		stopped := false
		select {
		case <-g.reached:
			stopped = true
		case <-first:
		}
		go call(1)
		go call(2)
		time.Sleep(5 * time.Millisecond)
		close(g.release)
		wg.Wait()
		g.disarm()
		for i := range roots {
			if errs[i] != nil || roots[i] != "/" {
				c.Violate("initialising an empty tape with three clients, the first of which is stopped at seam %d (%s): client %d gets %q, %v [%v]", k, g.kind, i, roots[i], errs[i], cfg)
			}
		}
		if n := len(ScanTape(r.TapeBytes()).Recs); n != 1 {
			c.Violate("initialising an empty tape with three clients, the first of which is stopped at seam %d (%s): there are %d records on the tape [%v]", k, g.kind, n, cfg)
		}
		r.Destroy()
		c.Count("tapes which several clients initialised", 1)
		c.Eval(fmt.Sprintf("initialise|%v|%s|%d", cfg, g.kind, k))
		if !stopped {
			break
		}
	}
}
