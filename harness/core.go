package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// modPath is the import path of the code under test.
const modPath = "github.com/coniks-sys/coniks-go"

// Ctx is the state of one check: its random source, the events it observed
// and the verdict.
type Ctx struct {
	Prop  string
	Seed  int64
	Tier  string
	Rng   *rand.Rand
	Rule  string
	Dir   string // scratch directory of this run
	Only  string // replay only the cases whose name has this prefix
	start time.Time

	mu        sync.Mutex
	evals     int64
	seen      map[uint64]struct{}
	counts    map[string]int64
	samples   []string
	sampleK   map[string]int
	assume    []string
	viol      []Violation
	finds     []Violation
	errs      []string
	progress  int64
	caseName  atomic.Value
	hangLimit time.Duration
	finish    func()
	shard     int // this process runs the cases i with i%shards == shard
	shards    int
	caseNo    int
}

// Violation is one refutation of the property with its witness.
type Violation struct {
	What   string `json:"what"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

type violated struct{ v Violation }
type skipped struct{ s string }

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N returns the number of cases for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Eval counts one case/execution/input.
func (c *Ctx) Eval(n int) { atomic.AddInt64(&c.evals, int64(n)); c.Tick() }

// Tick tells the watchdog that the run makes progress.
func (c *Ctx) Tick() { atomic.AddInt64(&c.progress, 1) }

// Distinct records a case that is non-trivial by the rule, by its fingerprint.
func (c *Ctx) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff, 0})
	}
	c.mu.Lock()
	c.seen[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// Count counts an observed event.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
	c.Tick()
}

func (c *Ctx) Get(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counts[name]
}

// Sample keeps a few actual cases, at most two per kind.
func (c *Ctx) Sample(kind, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleK[kind] >= 2 || len(c.samples) > 24 {
		return
	}
	c.sampleK[kind]++
	c.samples = append(c.samples, clip(kind+": "+fmt.Sprintf(format, a...), 400))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Report records a violation without ending the case (for goroutines).
func (c *Ctx) Report(what, format string, a ...interface{}) {
	name, _ := c.caseName.Load().(string)
	c.report(Violation{What: what, Case: name, Detail: clip(fmt.Sprintf(format, a...), 4000)})
}

func (c *Ctx) report(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) < 20 {
		c.viol = append(c.viol, v)
	}
	if len(c.viol) == 1 && c.finish != nil {
		time.AfterFunc(45*time.Second, c.finish) // the verdict is known
	}
}

// Finding records a defect under a key of its own; the driver compares it
// with the list of known findings and reports it as a violation if it isn't there.
func (c *Ctx) Finding(key, format string, a ...interface{}) {
	name, _ := c.caseName.Load().(string)
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.finds {
		if f.What == key {
			return
		}
	}
	c.finds = append(c.finds, Violation{What: key, Case: name, Detail: clip(fmt.Sprintf(format, a...), 3000)})
}

// Fail records a violation and ends the current case.
func (c *Ctx) Fail(what, format string, a ...interface{}) {
	name, _ := c.caseName.Load().(string)
	panic(violated{Violation{What: what, Case: name, Detail: clip(fmt.Sprintf(format, a...), 4000)}})
}

// Check fails the case unless cond holds.
func (c *Ctx) Check(cond bool, what, format string, a ...interface{}) {
	if !cond {
		c.Fail(what, format, a...)
	}
}

func (c *Ctx) Violations() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viol) }

// Harness reports that the check itself could not do its work.
func (c *Ctx) Harness(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.errs = append(c.errs, clip(fmt.Sprintf(format, a...), 2000))
}

// Must stops the check (no verdict) if err is an error of the harness itself.
func (c *Ctx) Must(err error) {
	if err != nil {
		panic(fmt.Errorf("harness: %v", err))
	}
}

// Case runs one named case with its own random source and turns a panic
// that passed through the code under test into a violation.
func (c *Ctx) Case(name string, f func(r *rand.Rand)) {
	if c.Violations() >= 3 {
		return
	}
	if c.Only != "" {
		if !strings.HasPrefix(name, c.Only) {
			return
		}
	} else {
		c.caseNo++
		if (c.caseNo-1)%c.shards != c.shard {
			return
		}
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%s", c.Prop, c.Seed, name)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	entropy.reseed(int64(h.Sum64()))
	c.caseName.Store(name)
	defer func() {
		switch e := recover().(type) {
		case nil:
		case violated:
			c.report(e.v)
		default:
			stack := string(debug.Stack())
			if underTest(stack) {
				c.report(Violation{What: "panic in the code under test", Case: name,
					Detail: clip(fmt.Sprint(e), 300) + "\n" + clip(stack, 3500)})
				return
			}
			if _, ok := e.(runtime.Error); ok {
				// the oracle tripped over a missing or short part of what the
				// code returned, a shape it relies on implicitly
				c.report(Violation{What: "result of a shape the oracle cannot read", Case: name,
					Detail: clip(fmt.Sprint(e), 300) + "\n" + clip(stack, 3500)})
				return
			}
			c.Harness("case %s: %v\n%s", name, e, stack)
		}
	}()
	f(r)
	c.Tick()
}

// Guard runs f and returns the panic it caused in the code under test, if any.
func Guard(f func()) (p interface{}, stack string) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violated); ok {
				panic(v)
			}
			p, stack = e, string(debug.Stack())
			if !underTest(stack) {
				panic(e)
			}
		}
	}()
	f()
	return nil, ""
}

// underTest tells whether a panic was raised below a function of the code
// under test: the frames after the panic call contain one of it before the
// first frame of the harness.
func underTest(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i >= 0 {
		stack = stack[i:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, modPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// seededEntropy replaces the system's randomness, so that a run is
// determined by its seed, counts what is read and can be made to fail.
type seededEntropy struct {
	mu    sync.Mutex
	r     *rand.Rand
	reads int64
	fail  func(n int64) bool // called with the number of the read
	log   *[][]byte
	src   io.Reader // replaces the stream if set
}

var entropy = &seededEntropy{r: rand.New(rand.NewSource(1))}

func (e *seededEntropy) reseed(s int64) {
	e.mu.Lock()
	e.r = rand.New(rand.NewSource(s))
	e.fail, e.src, e.log = nil, nil, nil
	e.mu.Unlock()
}

var errEntropy = errors.New("injected: no entropy")

func (e *seededEntropy) Read(p []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.reads++
	if e.fail != nil && e.fail(e.reads) {
		return 0, errEntropy
	}
	if e.src != nil {
		return e.src.Read(p)
	}
	e.r.Read(p)
	if e.log != nil {
		*e.log = append(*e.log, append([]byte(nil), p...))
	}
	return len(p), nil
}

func (e *seededEntropy) setFail(f func(n int64) bool) {
	e.mu.Lock()
	e.fail = f
	e.mu.Unlock()
}

// splitmix derives an independent stream.
func sub(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int64                  `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
	Witnesses   []Violation            `json:"witnesses,omitempty"`
	Errors      []string               `json:"errors,omitempty"`
	Findings    []Violation            `json:"findings,omitempty"`
	Hashes      []string               `json:"hashes,omitempty"`
	Need        map[string]int64       `json:"need,omitempty"`
}

func (c *Ctx) evidence(level string) evidence {
	c.mu.Lock()
	defer c.mu.Unlock()
	ev := map[string]int64{}
	for k, v := range c.counts {
		ev[k] = v
	}
	if c.samples == nil {
		c.samples = []string{}
	}
	hashes := make([]string, 0, len(c.seen))
	for h := range c.seen {
		hashes = append(hashes, strconv.FormatUint(h, 36))
	}
	return evidence{
		Hashes: hashes, Findings: c.finds, Need: properties[c.Prop].Need,
		Property: c.Prop, Tier: c.Tier, Seed: c.Seed, Level: level,
		Coverage: map[string]interface{}{
			"evaluations":         atomic.LoadInt64(&c.evals),
			"distinct_nontrivial": len(c.seen),
			"rule":                c.Rule,
			"samples":             c.samples,
			"observed":            ev,
		},
		Assumptions: c.assume,
		WallS:       time.Since(c.start).Seconds(),
		Violations:  len(c.viol),
		Witnesses:   c.viol,
		Errors:      c.errs,
	}
}

// Property is one registered check.
type Property struct {
	ID    string
	Level string
	Rule  string
	// Need lists events that must have been observed at least so often for
	// the run to mean anything.
	Need map[string]int64
	Run  func(c *Ctx)
	Hang time.Duration
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		childMain(os.Args[2:])
		return
	}
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "evidence file")
	dir := flag.String("dir", "", "scratch directory")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "number of processes this run is split into")
	only := flag.String("only", "", "run only the cases with this prefix")
	flag.Parse()
	id := flag.Arg(0)
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if *dir == "" {
		d, err := os.MkdirTemp("", "vh")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		*dir = d
	}
	crand.Reader = entropy
	c := &Ctx{Prop: id, Seed: *seed, Tier: *tier, Rule: p.Rule, Dir: *dir, Only: *only, shard: *shard, shards: *shards,
		Rng: rand.New(rand.NewSource(*seed)), seen: map[uint64]struct{}{}, start: time.Now(),
		counts: map[string]int64{}, sampleK: map[string]int{}, hangLimit: 120 * time.Second}
	if p.Hang != 0 {
		c.hangLimit = p.Hang
	}
	var once sync.Once
	finish := func() {
		once.Do(func() {
			if *only == "" && *shards == 1 && len(c.viol) == 0 && len(c.errs) == 0 {
				names := []string{}
				for k := range p.Need {
					names = append(names, k)
				}
				sort.Strings(names)
				for _, k := range names {
					if c.Get(k) < p.Need[k] {
						c.Harness("observed %d %q events, need %d: no verdict", c.Get(k), k, p.Need[k])
					}
				}
			}
			ev := c.evidence(p.Level)
			b, _ := json.MarshalIndent(ev, "", " ")
			if *out != "" {
				if err := os.WriteFile(*out, append(b, '\n'), 0644); err != nil {
					fmt.Fprintln(os.Stderr, err)
				}
			}
			switch {
			case len(ev.Witnesses) > 0:
				for _, v := range ev.Witnesses {
					fmt.Printf("WITNESS case=%s %s: %s\n", v.Case, v.What, v.Detail)
				}
				os.Exit(1)
			case len(ev.Errors) > 0:
				for _, e := range ev.Errors {
					fmt.Fprintln(os.Stderr, "HARNESS-ERROR", e)
				}
				os.Exit(2)
			}
			fmt.Printf("held: %d evaluations, %d distinct, %.1fs %v\n", ev.Coverage["evaluations"],
				ev.Coverage["distinct_nontrivial"], ev.WallS, ev.Coverage["observed"])
			os.Exit(0)
		})
	}
	c.finish = finish
	go func() { // watchdog: no observed progress at all for a long time
		last, since, sampled := int64(-1), time.Now(), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Since(sampled) > 20*time.Second {
				sampled = time.Now()
				if g := stuckOnLock(); g != "" {
					name, _ := c.caseName.Load().(string)
					c.report(Violation{What: "a goroutine waits for a lock for minutes (deadlock)", Case: name, Detail: g})
					finish()
				}
			}
			if n := atomic.LoadInt64(&c.progress); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > c.hangLimit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				name, _ := c.caseName.Load().(string)
				if bytes.Contains(buf, []byte(modPath)) {
					c.report(Violation{What: "no progress (deadlock or endless loop)", Case: name,
						Detail: hangStacks(string(buf))})
				} else {
					c.Harness("no progress for %v in %s\n%s", c.hangLimit, name, clip(string(buf), 4000))
				}
				finish()
			}
		}
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if v, ok := e.(violated); ok {
					c.report(v.v)
					return
				}
				stack := string(debug.Stack())
				if underTest(stack) {
					c.report(Violation{What: "panic in the code under test", Detail: fmt.Sprint(e) + "\n" + clip(stack, 3500)})
					return
				}
				c.Harness("%v\n%s", e, stack)
			}
		}()
		p.Run(c)
	}()
	finish()
	select {}
}

// stuckOnLock finds goroutines of the code under test that have been waiting
// for a lock for two minutes and more, even if the run makes progress
// elsewhere (clients that time out and go on, say). The runtime notes since
// when a goroutine waits at the first collection it meets it waiting.
func stuckOnLock() string {
	runtime.GC()
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var keep []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if m := lockWait.FindStringSubmatch(g); m != nil && strings.Contains(g, modPath) {
			if n, _ := strconv.Atoi(m[2]); n >= 2 {
				keep = append(keep, g)
			}
		}
	}
	if keep == nil {
		return ""
	}
	return clip(strings.Join(keep, "\n\n"), 3800)
}

var lockWait = regexp.MustCompile(`^goroutine \d+ \[sync\.(Mutex\.Lock|RWMutex\.Lock|RWMutex\.RLock), (\d+) minutes`)

func hangStacks(s string) string {
	var keep []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, modPath) {
			keep = append(keep, g)
		}
	}
	return clip(strings.Join(keep, "\n\n"), 3800)
}

// children: some cases run a part of the work in a process of its own.
var childModes = map[string]func(args []string){}

func childMain(args []string) {
	f := childModes[args[0]]
	if f == nil {
		os.Exit(2)
	}
	f(args[1:])
}

func selfChild(args ...string) *exec.Cmd {
	return exec.Command("/proc/self/exe", append([]string{"child"}, args...)...)
}

func parallel(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}
