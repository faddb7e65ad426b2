package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is the monitor for one property.
type Prop struct {
	ID    string
	Level string
	Rule  string
	// Plan returns the number of cases of a tier; the list of cases depends on nothing but tier and seed
	Plan        func(tier string) int
	Run         func(c *Ctx)
	Limit       time.Duration // watchdog per case
	Workers     int
	Assumptions []string
	Race        bool // run with the race detector
	// Need is the list of counters which must not be zero for the run to mean something
	Need []string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Limit == 0 {
		p.Limit = 90 * time.Second
	}
	if p.Workers == 0 {
		p.Workers = 8
	}
	props[p.ID] = p
}

func seedOf() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func tierOf() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Ctx is the environment of one case.
type Ctx struct {
	P    *Prop
	Tier string
	Seed int64
	Idx  int
	Rng  *rand.Rand
	Base string // scratch directory of the case

	mu       sync.Mutex
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	known    map[string]string
	trace    []string
	detail   interface{}
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) Count(k string, n int) {
	c.mu.Lock()
	c.counts[k] += int64(n)
	c.mu.Unlock()
}

// Eval counts one evaluation of the oracle; sig identifies the situation it judged.
func (c *Ctx) Eval(sig string) {
	c.mu.Lock()
	c.counts["evaluations"]++
	c.distinct[hash64(sig)] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Sample(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.samples) < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// Trace records a step for the replay file.
func (c *Ctx) Trace(format string, a ...interface{}) {
	c.mu.Lock()
	c.trace = append(c.trace, fmt.Sprintf(format, a...))
	if len(c.trace) > 400 {
		c.trace = c.trace[len(c.trace)-300:]
	}
	c.mu.Unlock()
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

type violation struct{ msg string }
type inconclusive struct{ msg string }

// Violate ends the case: the property does not hold.
func (c *Ctx) Violate(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Inconclusive ends the case without a verdict.
func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	panic(inconclusive{fmt.Sprintf(format, a...)})
}

// Known reports that a listed finding has been observed.
func (c *Ctx) Known(id, what string) {
	c.mu.Lock()
	c.known[id] = what
	c.mu.Unlock()
}

// line is what a worker reports.
type line struct {
	Case     int               `json:"case"`
	Kind     string            `json:"kind"` // done, violation, inconclusive, start
	Msg      string            `json:"msg,omitempty"`
	Counts   map[string]int64  `json:"counts,omitempty"`
	Distinct []uint64          `json:"distinct,omitempty"`
	Samples  []string          `json:"samples,omitempty"`
	Known    map[string]string `json:"known,omitempty"`
	Trace    []string          `json:"trace,omitempty"`
	Detail   interface{}       `json:"detail,omitempty"`
	Ms       int64             `json:"ms,omitempty"`
}

func worker(id string, i, n, only int) int {
	p := props[id]
	if p == nil {
		return 2
	}
	out := bufio.NewWriter(os.Stdout)
	emit := func(l line) {
		b, err := json.Marshal(l)
		if err != nil {
			l.Detail = nil
			b, _ = json.Marshal(l)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	debug.SetGCPercent(200)
	base := os.Getenv("STFSVERIF_SCRATCH")
	if base == "" {
		var err error
		base, err = scratch()
		must(err)
		defer removeScratch(base)
	}
	total := p.Plan(tierOf())
	deadline, _ := strconv.ParseInt(os.Getenv("STFSVERIF_DEADLINE"), 10, 64)
	for idx := 0; idx < total; idx++ {
		if only >= 0 && idx != only {
			continue
		}
		if only < 0 && idx%n != i {
			continue
		}
		if only < 0 && deadline > 0 && time.Now().Unix() > deadline {
			// Only a safety net for slow machines; cases which have not been run are reported as such
			emit(line{Case: idx, Kind: "skipped"})
			continue
		}
		emit(line{Case: idx, Kind: "start"})
		if !runCase(p, idx, base, emit) {
			return 0 // blocked goroutines are left behind
		}
	}
	emit(line{Case: -1, Kind: "end"})
	return 0
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func runCase(p *Prop, idx int, base string, emit func(line)) bool {
	dir := filepath.Join(base, fmt.Sprintf("c%d", idx))
	must(os.MkdirAll(dir, 0o700))
	c := &Ctx{
		P: p, Tier: tierOf(), Seed: seedOf(), Idx: idx, Base: dir,
		Rng:    rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%s|%d|%d", p.ID, seedOf(), idx))))),
		counts: map[string]int64{}, distinct: map[uint64]struct{}{}, known: map[string]string{},
	}
	start, cpu := time.Now(), cpuTime()
	done := make(chan line, 1)
	go func() {
		l := line{Case: idx, Kind: "done"}
		defer func() {
			if e := recover(); e != nil {
				switch v := e.(type) {
				case violation:
					l.Kind, l.Msg = "violation", v.msg
				case inconclusive:
					l.Kind, l.Msg = "inconclusive", v.msg
				default:
					l.Msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
					l.Kind = "inconclusive"
					if panicInSubject(l.Msg) {
						l.Kind = "violation"
					}
				}
			}
			done <- l
		}()
		p.Run(c)
	}()

	finish := func(l line) {
		c.mu.Lock()
		l.Counts, l.Samples, l.Known = c.counts, c.samples, c.known
		for d := range c.distinct {
			l.Distinct = append(l.Distinct, d)
		}
		if l.Kind != "done" {
			l.Trace, l.Detail = c.trace, c.detail
		}
		c.mu.Unlock()
		l.Ms = time.Since(start).Milliseconds()
		emit(l)
		closeRigs()
		_ = os.RemoveAll(dir)
	}

	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	last, same := "", 0
	for {
		select {
		case l := <-done:
			finish(l)
			return true
		case <-tick.C:
			if time.Since(start) < 4*time.Second {
				continue
			}
			// Liveness is decided on the states of the goroutines, not on elapsed time: if all goroutines which
			// execute the subject wait for each other and nothing changes any more, no call can ever return
			st, blocked := blockedState()
			if blocked && st == last {
				same++
			} else {
				last, same = st, 0
			}
			if same >= 12 {
				finish(line{Case: idx, Kind: "violation", Msg: "a call does not return: every goroutine is blocked for good\n" + st})
				return false
			}
			if cpuTime()-cpu > p.Limit {
				finish(line{Case: idx, Kind: "violation", Msg: fmt.Sprintf("a call does not return: the case used more than %v of processor time\n%s", p.Limit, allStacks())})
				return false
			}
			if time.Since(start) > 8*p.Limit {
				finish(line{Case: idx, Kind: "inconclusive", Msg: "watchdog\n" + allStacks()})
				return false
			}
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	if n > 60000 {
		n = 60000
	}
	return string(buf[:n])
}

// blockedState returns the stacks of the goroutines which run the case, and whether all of them are blocked on something which only
// another one of them could resolve.
func blockedState() (string, bool) {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	out := []string{}
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "main.runCase(") && !strings.Contains(g, "main.runCase.func") {
			continue // the watchdog
		}
		if !strings.Contains(g, "main.") && !strings.Contains(g, "pojntfx/stfs") {
			if strings.Contains(g, "database/sql.(*DB).connectionOpener") {
				continue
			}
			if !strings.Contains(g, "\n\t") {
				continue
			}
		}
		head := g
		if i := strings.IndexByte(g, '\n'); i >= 0 {
			head = g[:i]
		}
		state := ""
		if a, b := strings.IndexByte(head, '['), strings.IndexByte(head, ']'); a >= 0 && b > a {
			state = strings.Split(head[a+1:b], ",")[0]
		}
		switch state {
		case "chan receive", "chan send", "select", "sync.Mutex.Lock", "semacquire", "sync.Cond.Wait", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		case "finalizer wait", "GC worker (idle)", "force gc (idle)", "GC scavenge wait", "GC sweep wait", "cleanup wait":
			continue
		default:
			return "", false // running, runnable, syscall, IO wait, sleep
		}
		// Strip what changes with time
		body := g[len(head):]
		id := strings.Fields(head)
		gid := ""
		if len(id) > 1 {
			gid = id[1]
		}
		out = append(out, "goroutine "+gid+" ["+state+"]"+body)
	}
	sort.Strings(out)
	return strings.Join(out, "\n\n"), len(out) > 0
}

// panicInSubject tells whether the first frame outside of the runtime and the standard library is one of the subject.
func panicInSubject(trace string) bool {
	if strings.Contains(trace, "panic: harness:") {
		return false
	}
	seenPanic := false
	for _, l := range strings.Split(trace, "\n") {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") {
			seenPanic = true
			continue
		}
		if strings.HasPrefix(l, "github.com/pojntfx/stfs/") {
			return true
		}
		if seenPanic && strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// ---- scratch space -----------------------------------------------------------------------------------------------

func scratch() (string, error) {
	if _, err := os.Stat("/dev/shm"); err == nil {
		if d, err := os.MkdirTemp("/dev/shm", "stfsverif-"); err == nil {
			return d, nil
		}
	}
	return os.MkdirTemp("", "stfsverif-")
}

func removeScratch(d string) {
	if strings.Contains(filepath.Base(d), "stfsverif-") {
		_ = os.RemoveAll(d)
	}
}

// ---- master ------------------------------------------------------------------------------------------------------

func verifDir() string {
	if d := os.Getenv("STFSVERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type replayFile struct {
	Property string      `json:"property"`
	Tier     string      `json:"tier"`
	Seed     int64       `json:"seed"`
	Case     int         `json:"case"`
	Msg      string      `json:"message"`
	Trace    []string    `json:"trace,omitempty"`
	Detail   interface{} `json:"detail,omitempty"`
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func loadKnown() knownFile {
	var k knownFile
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err == nil {
		must(json.Unmarshal(b, &k))
	}
	return k
}

type agg struct {
	mu        sync.Mutex
	counts    map[string]int64
	distinct  map[uint64]struct{}
	samples   []string
	known     map[string]string
	cases     int
	skipped   int
	viol      []line
	inc       []line
	crashes   []string
	races     []string
	maxMs     int64
	maxCase   int
	firstViol time.Time
}

func master(id string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	start := time.Now()
	tier, seed := tierOf(), seedOf()
	base, err := scratch()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer removeScratch(base)

	a := &agg{counts: map[string]int64{}, distinct: map[uint64]struct{}{}, known: map[string]string{}}
	deadline := start.Add(420 * time.Second)
	if tier == "thorough" {
		deadline = start.Add(3 * time.Hour)
	}
	if s := os.Getenv("STFSVERIF_MAX"); s != "" {
		n, _ := strconv.Atoi(s)
		deadline = start.Add(time.Duration(n) * time.Second)
	}
	self, _ := os.Executable()
	n := p.Workers
	if t := p.Plan(tier); t < n {
		n = t
	}
	stop := make(chan struct{})
	var stopOnce sync.Once
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(base, fmt.Sprintf("w%d", i))
			_ = os.MkdirAll(dir, 0o700)
			cmd := exec.Command(self, "worker", id, strconv.Itoa(i), strconv.Itoa(n))
			raceLog := filepath.Join(base, fmt.Sprintf("race%d", i))
			cmd.Env = append(os.Environ(), "STFSVERIF_SCRATCH="+dir, "TMPDIR="+dir, fmt.Sprintf("STFSVERIF_DEADLINE=%d", deadline.Unix()),
				"GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+raceLog, "GOTRACEBACK=all")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var stderr tailBuffer
			cmd.Stderr = &stderr
			pipe, err := cmd.StdoutPipe()
			must(err)
			if err := cmd.Start(); err != nil {
				a.mu.Lock()
				a.inc = append(a.inc, line{Msg: "start: " + err.Error()})
				a.mu.Unlock()
				return
			}
			go func() {
				<-stop
				_ = cmd.Process.Kill()
			}()
			current, ended := -1, false
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 256<<20)
			for sc.Scan() {
				var l line
				if json.Unmarshal(sc.Bytes(), &l) != nil {
					continue
				}
				a.mu.Lock()
				switch l.Kind {
				case "start":
					current = l.Case
				case "end":
					ended = true
				case "skipped":
					a.skipped++
				case "done", "violation", "inconclusive":
					current = -1
					a.cases++
					for k, v := range l.Counts {
						a.counts[k] += v
					}
					for _, d := range l.Distinct {
						a.distinct[d] = struct{}{}
					}
					if len(a.samples) < 12 {
						a.samples = append(a.samples, l.Samples...)
					}
					for k, v := range l.Known {
						a.known[k] = v
					}
					if l.Ms > a.maxMs {
						a.maxMs, a.maxCase = l.Ms, l.Case
					}
					if l.Kind == "violation" {
						a.viol = append(a.viol, l)
					} else if l.Kind == "inconclusive" {
						a.inc = append(a.inc, l)
					}
				}
				many := len(a.viol) >= 5
				a.mu.Unlock()
				if many {
					stopOnce.Do(func() { close(stop) })
				}
			}
			err = cmd.Wait()
			killed := false
			select {
			case <-stop:
				killed = true
			default:
			}
			a.mu.Lock()
			defer a.mu.Unlock()
			if current >= 0 && !killed {
				msg := fmt.Sprintf("worker ended in case %d: %v\n%s", current, err, stderr.String())
				l := line{Case: current, Kind: "violation", Msg: msg}
				if crashInSubject(stderr.String()) {
					a.viol = append(a.viol, l)
				} else {
					a.inc = append(a.inc, l)
				}
			} else if !ended && !killed && len(a.viol) == 0 && len(a.inc) == 0 {
				a.inc = append(a.inc, line{Case: -1, Msg: fmt.Sprintf("worker %d ended early: %v\n%s", i, err, stderr.String())})
			}
			logs, _ := filepath.Glob(raceLog + "*")
			for _, f := range logs {
				b, _ := os.ReadFile(f)
				for _, blk := range strings.Split(string(b), "==================") {
					if strings.Contains(blk, "WARNING: DATA RACE") {
						a.races = append(a.races, blk)
					}
				}
			}
		}(i)
	}
	wg.Wait()
	stopOnce.Do(func() { close(stop) })

	for _, r := range a.races {
		a.counts["race reports"]++
		if strings.Contains(r, "github.com/pojntfx/stfs/") {
			a.viol = append(a.viol, line{Case: 0, Msg: "data race\n" + r})
		}
	}

	rc := 0
	known := loadKnown()
	seen := map[string]bool{}
	listed := map[string]bool{}
	for _, k := range known.Findings {
		listed[k.ID] = k.Property == id
		if k.Property == id && a.known[k.ID] != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.ID, k.What)
		}
	}
	for k, v := range a.known {
		if !listed[k] {
			a.viol = append(a.viol, line{Case: 0, Msg: "unlisted finding " + k + ": " + v})
		}
	}
	sort.SliceStable(a.viol, func(i, j int) bool { return a.viol[i].Case < a.viol[j].Case })
	for _, v := range a.viol {
		key := firstLine(v.Msg)
		if seen[key] || len(seen) >= 5 {
			continue
		}
		seen[key] = true
		path := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%s-s%d-c%d.json", id, tier, seed, v.Case))
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		b, err := json.MarshalIndent(replayFile{id, tier, seed, v.Case, v.Msg, v.Trace, v.Detail}, "", " ")
		if err == nil {
			_ = os.WriteFile(path, b, 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  case %d: %s\n", v.Case, clip(v.Msg, 1500))
		rc = 1
	}
	if rc == 0 {
		for i, l := range a.inc {
			if i < 5 {
				fmt.Printf("INCONCLUSIVE property=%s case=%d %s\n", id, l.Case, clip(l.Msg, 3000))
			}
			rc = 2
		}
		for _, k := range p.Need {
			if a.counts[k] == 0 {
				fmt.Printf("INCONCLUSIVE property=%s nothing was observed of: %s\n", id, k)
				rc = 2
			}
		}
	}

	wall := time.Since(start).Seconds()
	if len(a.samples) > 12 {
		a.samples = a.samples[:12]
	}
	if a.samples == nil {
		a.samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         a.counts["evaluations"],
		"distinct_nontrivial": len(a.distinct),
		"rule":                p.Rule,
		"samples":             a.samples,
		"cases":               a.cases,
		"cases_skipped":       a.skipped,
		"observed":            a.counts,
		"slowest_case_ms":     a.maxMs,
		"known_findings_seen": len(a.known),
	}
	viols := []string{}
	for _, v := range a.viol {
		viols = append(viols, firstLine(v.Msg))
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "wall_s": wall, "assumptions": p.Assumptions, "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: %d cases (%d skipped), %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs (slowest case %d: %dms)\n",
		id, tier, a.cases, a.skipped, a.counts["evaluations"], len(a.distinct), len(a.viol), len(a.inc), wall, a.maxCase, a.maxMs)
	if os.Getenv("STFSVERIF_VERBOSE") != "" {
		ks := []string{}
		for k := range a.counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-40s %d\n", k, a.counts[k])
		}
	}
	return rc
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return clip(s, 300)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// crashInSubject judges the stderr of a crashed worker.
func crashInSubject(s string) bool {
	if strings.Contains(s, "panic: harness:") {
		return false
	}
	i := strings.Index(s, "panic: ")
	if j := strings.Index(s, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return false
	}
	s = s[i:]
	if strings.HasPrefix(s, "fatal error: runtime: out of memory") {
		return strings.Contains(s, "github.com/pojntfx/stfs/")
	}
	// The first goroutine which is printed is the one which crashed
	if k := strings.Index(s, "\ngoroutine "); k >= 0 {
		g := s[k+1:]
		if e := strings.Index(g, "\n\n"); e >= 0 {
			g = g[:e]
		}
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/pojntfx/stfs/") {
				return true
			}
			if strings.HasPrefix(l, "main.") && !strings.HasPrefix(l, "main.(*hooked") {
				return false
			}
		}
	}
	return false
}

// tailBuffer keeps the first and the last part of what is written to it.
type tailBuffer struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if t.head.Len() < 64<<10 {
		t.head.Write(p)
		return n, nil
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 16<<10 {
		t.tail = t.tail[len(t.tail)-(16<<10):]
	}
	return n, nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.head.String() + string(t.tail)
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Setenv("VERIF_TIER", f.Tier)
	os.Setenv("VERIF_SEED", strconv.FormatInt(f.Seed, 10))
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", f.Property, "0", "1", strconv.Itoa(f.Case))
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	rc := 0
	for _, l := range bytes.Split(out, []byte("\n")) {
		var x line
		if json.Unmarshal(l, &x) == nil && x.Kind == "violation" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			for _, t := range x.Trace {
				fmt.Println("  ", t)
			}
			fmt.Println(x.Msg)
			rc = 1
		} else if x.Kind == "inconclusive" {
			fmt.Println("INCONCLUSIVE", x.Msg)
			rc = 2
		}
	}
	if err != nil && rc == 0 {
		fmt.Println("worker:", err)
		rc = 2
	}
	if rc == 0 {
		fmt.Println("the property held in this case")
	}
	return rc
}
