// Package core is the explorer's runtime: it executes enumerated cases on the real code in
// parallel, confirms and records violations, guards against hangs and crashes, and writes evidence.
package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one property's decision procedure.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Run         func(*Ctx)
}

var (
	checks   = map[string]*Check{}
	families = map[string]map[string]replayer{}
)

type replayer interface {
	replay(ctx *Ctx, raw json.RawMessage) *Failure
}

// Register adds a check.
func Register(c *Check) { checks[c.ID] = c }

// Failure is one violation of the property by one execution.
type Failure struct {
	Key string
	Msg string
}

// Ctx is the state of one run of a check.
type Ctx struct {
	Check    *Check
	Tier     string
	Seed     int
	Scratch  string
	Verif    string
	Repo     string
	Deadline time.Time
	Workers  int

	mu          sync.Mutex
	known       map[string]string
	knownHit    map[string]bool
	violations  []violation
	fams        []*famStat
	samples     []any
	states      *set
	outcomes    *set
	notes       map[string]any
	evaluations atomic.Int64
	transitions atomic.Int64
	stop        atomic.Bool
	start       time.Time
	dirSeq      atomic.Int64
}

type violation struct {
	Family string
	Key    string
	Msg    string
	Replay string
}

type famStat struct {
	Name       string  `json:"name"`
	Executions int64   `json:"executions"`
	Exhaustive bool    `json:"exhaustive"`
	Bound      string  `json:"bound,omitempty"`
	Seconds    float64 `json:"seconds"`
}

// Thorough says whether the deep exploration was requested.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) evidence() string {
	if d := os.Getenv("MC_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(c.Verif, "evidence")
}

// Note adds a measured figure to the evidence.
func (c *Ctx) Note(k string, v any) {
	c.mu.Lock()
	c.notes[k] = v
	c.mu.Unlock()
}

// Stopped says whether exploration should end (violation found or out of time).
func (c *Ctx) Stopped() bool { return c.stop.Load() || time.Now().After(c.Deadline) }

// TempDir makes a fresh directory inside the scratch area.
func (c *Ctx) TempDir() string {
	d := filepath.Join(c.Scratch, "w", strconv.FormatInt(c.dirSeq.Add(1), 36)+"-"+strconv.Itoa(os.Getpid()))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessErr{err.Error()})
	}
	return d
}

// RemoveAll deletes a directory made by TempDir.
func (c *Ctx) RemoveAll(d string) {
	if strings.HasPrefix(d, filepath.Join(c.Scratch, "w")+"/") {
		os.RemoveAll(d)
	}
}

// Probe runs f outside of any execution; its failures are ignored (the executions will show them).
func (c *Ctx) Probe(f func(*X)) {
	x := &X{Ctx: c}
	defer func() {
		r := recover()
		for i := len(x.undo) - 1; i >= 0; i-- {
			x.undo[i]()
		}
		if h, ok := r.(harnessErr); ok {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h.msg)
			os.Exit(2)
		}
	}()
	f(x)
}

type harnessErr struct{ msg string }

// Harness aborts the check as broken (neither holding nor violated).
func Harness(format string, args ...any) { panic(harnessErr{fmt.Sprintf(format, args...)}) }

// X is the context of one execution.
type X struct {
	Ctx    *Ctx
	steps  int64
	states []uint64
	outs   []uint64
	undo   []func()
}

type failSentinel struct{ f Failure }

// Failf ends the execution with a violation.
func (x *X) Failf(format string, args ...any) {
	panic(failSentinel{Failure{Msg: fmt.Sprintf(format, args...)}})
}

// FailKey ends the execution with a violation identified by key.
func (x *X) FailKey(key, format string, args ...any) {
	panic(failSentinel{Failure{Key: key, Msg: fmt.Sprintf(format, args...)}})
}

// Check fails the execution unless ok.
func (x *X) Check(ok bool, format string, args ...any) {
	if !ok {
		x.Failf(format, args...)
	}
}

// Step counts one transition executed and compared.
func (x *X) Step() { x.steps++ }

// Steps counts n transitions.
func (x *X) Steps(n int) { x.steps += int64(n) }

// State records a reached state (by content).
func (x *X) State(s string) { x.states = append(x.states, hash(s)) }

// Outcome records an observed outcome class.
func (x *X) Outcome(s string) { x.outs = append(x.outs, hash(s)) }

// Defer runs f when the execution ends.
func (x *X) Defer(f func()) { x.undo = append(x.undo, f) }

// Dir makes a scratch directory that is removed when the execution ends.
func (x *X) Dir() string {
	d := x.Ctx.TempDir()
	x.Defer(func() { x.Ctx.RemoveAll(d) })
	return d
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

type set struct {
	shards [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	n atomic.Int64
}

func newSet() *set {
	s := &set{}
	for i := range s.shards {
		s.shards[i].m = map[uint64]struct{}{}
	}
	return s
}

func (s *set) add(h uint64) {
	if s.n.Load() > 20_000_000 {
		return
	}
	sh := &s.shards[h%64]
	sh.mu.Lock()
	if _, ok := sh.m[h]; !ok {
		sh.m[h] = struct{}{}
		s.n.Add(1)
	}
	sh.mu.Unlock()
}

// Family is a set of cases of one type, executed the same way.
type Family[C any] struct {
	check  string
	name   string
	exec   func(*X, C)
	Serial bool
	Hang   time.Duration
	// Reruns: a failing case is repeated this many times and reported if at least Need fail again.
	Reruns, Need int
}

// NewFamily registers a family so that its cases can be replayed.
func NewFamily[C any](check, name string, exec func(*X, C)) *Family[C] {
	f := &Family[C]{check: check, name: name, exec: exec, Hang: 90 * time.Second, Reruns: 8, Need: 3}
	if families[check] == nil {
		families[check] = map[string]replayer{}
	}
	families[check][name] = f
	return f
}

func (f *Family[C]) replay(ctx *Ctx, raw json.RawMessage) *Failure {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		fmt.Fprintln(os.Stderr, "bad replay file:", err)
		os.Exit(2)
	}
	// some happen only sometimes
	t0 := time.Now()
	for i := 0; i < 4*f.Reruns && (i == 0 || time.Since(t0) < time.Minute); i++ {
		if r := f.once(ctx, c, nil); r != nil {
			return r
		}
	}
	return nil
}

func (f *Family[C]) once(ctx *Ctx, c C, x *X) (fail *Failure) {
	if x == nil {
		x = &X{}
	}
	*x = X{Ctx: ctx, states: x.states[:0], outs: x.outs[:0], undo: x.undo[:0]}
	defer func() {
		r := recover()
		for i := len(x.undo) - 1; i >= 0; i-- {
			x.undo[i]()
		}
		switch v := r.(type) {
		case nil:
		case failSentinel:
			fail = &v.f
		case harnessErr:
			fmt.Fprintln(os.Stderr, "HARNESS ERROR:", v.msg)
			os.Exit(2)
		default:
			st := string(debug.Stack())
			fail = &Failure{Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(st))}
		}
		if fail != nil && fail.Key == "" {
			fail.Key = f.name
		}
	}()
	f.exec(x, c)
	return nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "aarondl/bpass") || strings.Contains(lines[i], "bpassmc/checks") {
			out = append(out, strings.TrimSpace(lines[i]))
			if i+1 < len(lines) {
				out = append(out, strings.TrimSpace(lines[i+1]))
				i++
			}
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type slot[C any] struct {
	mu    sync.Mutex
	c     C
	start time.Time
	busy  bool
}

// Explore executes every case gen yields.  bound describes what the enumeration covers.
func (f *Family[C]) Explore(ctx *Ctx, bound string, gen func(yield func(C) bool)) {
	if ctx.Stopped() {
		ctx.mu.Lock()
		ctx.fams = append(ctx.fams, &famStat{Name: f.name, Bound: bound})
		ctx.mu.Unlock()
		return
	}
	st := &famStat{Name: f.name, Bound: bound}
	ctx.mu.Lock()
	ctx.fams = append(ctx.fams, st)
	ctx.mu.Unlock()
	t0 := time.Now()
	n := ctx.Workers
	if f.Serial {
		n = 1
	}
	ch := make(chan []C, 4*n)
	var wg sync.WaitGroup
	var execs atomic.Int64
	slots := make([]*slot[C], n)
	for w := 0; w < n; w++ {
		slots[w] = &slot[C]{}
		wg.Add(1)
		go func(sl *slot[C]) {
			defer wg.Done()
			var x X
			for batch := range ch {
				for _, c := range batch {
					if ctx.stop.Load() {
						break
					}
					sl.mu.Lock()
					sl.c, sl.start, sl.busy = c, time.Now(), true
					sl.mu.Unlock()
					fail := f.once(ctx, c, &x)
					sl.mu.Lock()
					sl.busy = false
					sl.mu.Unlock()
					execs.Add(1)
					ctx.evaluations.Add(1)
					ctx.transitions.Add(x.steps)
					for _, h := range x.states {
						ctx.states.add(h)
					}
					for _, h := range x.outs {
						ctx.outcomes.add(h ^ hash(f.name))
					}
					if fail != nil {
						f.confirm(ctx, c, fail)
					}
				}
			}
		}(slots[w])
	}
	done := make(chan struct{})
	go func() { // watchdog
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			for _, sl := range slots {
				sl.mu.Lock()
				c, busy, el := sl.c, sl.busy, time.Since(sl.start)
				sl.mu.Unlock()
				if busy && el > f.Hang {
					f.hang(ctx, c)
				}
			}
		}
	}()
	exhaustive := true
	var batch []C
	size := 1
	count := 0
	gen(func(c C) bool {
		if ctx.Stopped() {
			exhaustive = false
			return false
		}
		if count < 2 {
			ctx.sample(f.name, c)
		}
		count++
		batch = append(batch, c)
		if len(batch) >= size {
			ch <- batch
			batch = nil
			if count > 2000 && size < 64 && !f.Serial {
				size = 64
			} else if count > 200 && size < 8 && !f.Serial {
				size = 8
			}
		}
		return true
	})
	if len(batch) > 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	close(done)
	st.Executions = execs.Load()
	st.Exhaustive = exhaustive && !ctx.stop.Load()
	st.Seconds = time.Since(t0).Seconds()
}

func (c *Ctx) sample(fam string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 40 {
		c.samples = append(c.samples, map[string]any{"family": fam, "case": v})
	}
}

func (f *Family[C]) confirm(ctx *Ctx, c C, first *Failure) {
	again := 0
	for i := 0; i < f.Reruns && again < f.Need; i++ {
		if r := f.once(ctx, c, nil); r != nil {
			again++
		}
	}
	need := f.Need
	if again > 0 && again < need {
		// what happens only sometimes (the order of a map is different every time) is tried more often
		need++
		t0 := time.Now()
		for i := 0; i < 3*f.Reruns && again < need && time.Since(t0) < time.Minute; i++ {
			if r := f.once(ctx, c, nil); r != nil {
				again++
			}
		}
	}
	if again < need {
		ctx.mu.Lock()
		k, _ := ctx.notes["unconfirmed"].([]string)
		ctx.notes["unconfirmed"] = append(k, f.name+": "+first.Msg)
		ctx.mu.Unlock()
		fmt.Fprintf(os.Stderr, "unconfirmed (%d/%d): %s: %s\n", again, 4*f.Reruns, f.name, first.Msg)
		return
	}
	raw, _ := json.Marshal(c)
	ctx.violate(f.name, raw, first)
}

func (c *Ctx) violate(fam string, raw json.RawMessage, fail *Failure) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if d, ok := c.known[fail.Key]; ok {
		if !c.knownHit[fail.Key] {
			c.knownHit[fail.Key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Check.ID, d)
		}
		return
	}
	if k := os.Getenv("MC_KEEP"); k != "" { // debugging: list many failures, one line each
		n, _ := strconv.Atoi(k)
		if len(c.violations) < n {
			l := strings.SplitN(fail.Msg, "\n", 2)[0]
			c.violations = append(c.violations, violation{fam, l, l, ""})
			fmt.Printf("--- %s: %.300s\n      %.400s\n", fam, l, raw)
		} else {
			c.stop.Store(true)
		}
		return
	}
	if len(c.violations) >= 5 {
		c.stop.Store(true)
		return
	}
	for _, v := range c.violations {
		if v.Key == fail.Key {
			c.stop.Store(true)
			return
		}
	}
	p := c.writeReplay(fam, raw, fail)
	c.violations = append(c.violations, violation{fam, fail.Key, fail.Msg, p})
	fmt.Fprintf(os.Stderr, "--- %s/%s: %s\n    case: %.2000s\n", c.Check.ID, fam, fail.Msg, raw)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, p)
	c.stop.Store(true)
}

func (c *Ctx) writeReplay(fam string, raw json.RawMessage, fail *Failure) string {
	dir := filepath.Join(c.evidence(), "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Check.ID, len(c.violations)+1))
	b, _ := json.MarshalIndent(map[string]any{"property": c.Check.ID, "family": fam, "key": fail.Key, "message": fail.Msg, "case": raw}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// hang: an execution did not end; confirm in fresh processes, then report.
func (f *Family[C]) hang(ctx *Ctx, c C) {
	raw, _ := json.Marshal(c)
	fail := &Failure{Key: f.name + "/hang", Msg: fmt.Sprintf("execution did not end within %v", f.Hang)}
	ctx.mu.Lock()
	p := ctx.writeReplay(f.name, raw, fail)
	ctx.mu.Unlock()
	for i := 0; i < 2; i++ {
		cmd := exec.Command(os.Args[0], ctx.Check.ID, "--replay", p)
		cmd.Env = append(os.Environ(), "MC_CHILD=1")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := cmd.Start(); err != nil {
			return
		}
		dn := make(chan error, 1)
		go func() { dn <- cmd.Wait() }()
		select {
		case err := <-dn:
			if err == nil {
				fmt.Fprintln(os.Stderr, "slow execution, not a hang:", string(raw))
				// give the original a long while more before concluding anything
				time.Sleep(f.Hang)
				return
			}
		case <-time.After(f.Hang):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-dn
		}
	}
	ctx.violate(f.name, raw, fail)
	ctx.finish()
}

func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	exhaustive := true
	for _, f := range c.fams {
		exhaustive = exhaustive && f.Exhaustive
	}
	cov := map[string]any{
		"rule":                          c.Check.Rule,
		"samples":                       c.samples,
		"exhaustive":                    exhaustive,
		"families":                      c.fams,
		"distinct_nontrivial":           c.outcomes.n.Load(),
		"states":                        c.states.n.Load(),
		"transitions":                   c.transitions.Load(),
		"evaluations":                   c.evaluations.Load(),
		"traces_validated_against_impl": c.evaluations.Load(),
	}
	if c.Check.Level == "model_checking" {
		delete(cov, "evaluations")
	} else {
		delete(cov, "traces_validated_against_impl")
		delete(cov, "states")
		if n := c.states.n.Load(); n > 0 {
			cov["distinct_nontrivial"] = n
			cov["distinct_outcomes"] = c.outcomes.n.Load()
		}
	}
	var keys []string
	for k := range c.notes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = c.notes[k]
	}
	ev := map[string]any{
		"property":    c.Check.ID,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       c.Check.Level,
		"coverage":    cov,
		"assumptions": c.Check.Assumptions,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(c.violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(c.evidence(), 0o755)
	if err := os.WriteFile(filepath.Join(c.evidence(), c.Check.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("%s tier=%s executions=%d transitions=%d states=%d outcomes=%d exhaustive=%v violations=%d %.1fs\n",
		c.Check.ID, c.Tier, c.evaluations.Load(), c.transitions.Load(), c.states.n.Load(), c.outcomes.n.Load(), exhaustive, len(c.violations), time.Since(c.start).Seconds())
	if len(c.violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var prop, key string
		rest := strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(rest, " ", 3)
		if len(parts) < 3 {
			continue
		}
		prop, key = strings.TrimPrefix(parts[0], "property="), strings.TrimPrefix(parts[1], "key=")
		if prop == id {
			m[key] = parts[2]
		}
	}
	return m
}

// Main runs one check.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc ID [--replay FILE]")
		os.Exit(2)
	}
	chk := checks[os.Args[1]]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[1])
		os.Exit(2)
	}
	ctx := &Ctx{
		Check: chk, Tier: os.Getenv("VERIF_TIER"), Scratch: os.Getenv("MC_SCRATCH"), Verif: os.Getenv("MC_VERIF"), Repo: os.Getenv("MC_REPO"),
		known: map[string]string{}, knownHit: map[string]bool{}, states: newSet(), outcomes: newSet(), notes: map[string]any{}, start: time.Now(),
		Workers: runtime.NumCPU(),
	}
	if ctx.Tier != "thorough" {
		ctx.Tier = "quick"
	}
	ctx.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	ctx.Deadline = ctx.start.Add(time.Duration(ctx.Pick(300, 720)) * time.Second)
	if s := os.Getenv("MC_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		ctx.Deadline = ctx.start.Add(time.Duration(n) * time.Second)
	}
	ctx.known = loadKnown(filepath.Join(ctx.Verif, "known_findings.txt"), chk.ID)

	if len(os.Args) == 4 && os.Args[2] == "--replay" {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r struct {
			Family string          `json:"family"`
			Case   json.RawMessage `json:"case"`
		}
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fam := families[chk.ID][r.Family]
		if fam == nil {
			fmt.Fprintln(os.Stderr, "unknown family", r.Family)
			os.Exit(2)
		}
		if f := fam.replay(ctx, r.Case); f != nil {
			fmt.Printf("reproduced: %s\n", f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, os.Args[3])
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		os.Exit(0)
	}

	if os.Getenv("MC_CHILD") == "" {
		supervise(ctx)
	}
	func() {
		defer func() {
			if h, ok := recoverHarness(recover()); ok {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h.msg)
				os.Exit(2)
			}
		}()
		chk.Run(ctx)
	}()
	ctx.finish()
}

func recoverHarness(r any) (harnessErr, bool) {
	if r == nil {
		return harnessErr{}, false
	}
	if h, ok := r.(harnessErr); ok {
		return h, true
	}
	panic(r)
}

// supervise runs the exploration in a child process, so that a fatal (unrecoverable) crash of the
// code under test is reported instead of ending the check without an answer.
func supervise(ctx *Ctx) {
	var last string
	for i := 0; i < 2; i++ {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "MC_CHILD=1")
		var tail tailBuf
		cmd.Stdout = os.Stdout
		cmd.Stderr = &tail
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if err == nil || code == 1 {
			os.Exit(code)
		}
		last = tail.String()
		if !fatalInRepo(last) {
			os.Exit(2)
		}
	}
	dir := filepath.Join(ctx.evidence(), "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, ctx.Check.ID+"-fatal.txt")
	os.WriteFile(p, []byte(last), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ctx.Check.ID, p)
	os.Exit(1)
}

// a frame of the repository; an in-package checker lives below github.com/aarondl/bpass/zzmc
var repoFrame = regexp.MustCompile(`github\.com/aarondl/bpass(\.[^T]|/[a-y])`)

func fatalInRepo(s string) bool {
	i := strings.LastIndex(s, "fatal error: ")
	if j := strings.LastIndex(s, "panic: "); j > i {
		i = j
	}
	if i < 0 {
		return false
	}
	return repoFrame.MatchString(s[i:])
}

type tailBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	os.Stderr.Write(p)
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.b.String() }

// SetHang sets after how many seconds an execution counts as hanging.
func (f *Family[C]) SetHang(s int) { f.Hang = time.Duration(s) * time.Second }
