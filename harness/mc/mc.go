// Package mc is a small stateless model-checking engine.
//
// A check is a driver program that makes choices through a *Ch.  The engine
// re-executes the driver for every choice sequence whose total deviation cost
// is within a bound (choice 0 is the default and costs nothing), so the set of
// executions is enumerated completely and deterministically; nothing is
// sampled.  The driver reports the abstract states it passes through with
// Visit and compares the implementation with a reference model with Fail.
package mc

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check is the state of one run of one property's check.
type Check struct {
	ID   string
	Tier string
	Seed int64
	// Timed says that timing decided executions, because tasks waited for locks;
	// choices may then be met in one execution and not in the next.
	Timed    func() bool
	root     string
	start    time.Time
	budget   time.Duration
	known    map[string]string
	mu       sync.Mutex
	viol     map[string]int
	order    []string
	knownHi  map[string]int
	samples  []any
	notes    []string
	assume   []string
	extra    map[string]any
	sections []section

	states     *hashSet
	edges      *hashSet
	outcomes   *hashSet
	executions atomic.Int64
	capped     atomic.Bool
	stopAll    atomic.Bool
	watch      []watchSlot
	maxViol    int
	replayOnly string
}

type section struct {
	Name       string `json:"name"`
	Bound      int    `json:"deviation_bound"`
	Executions int64  `json:"executions"`
	Points     int64  `json:"choice_points"`
	Complete   bool   `json:"complete"`
}

type watchSlot struct {
	mu    sync.Mutex
	since time.Time
	ch    *Ch
	name  string
	_     [64]byte
}

// Thorough reports whether this run is the thorough tier.
func (k *Check) Thorough() bool { return k.Tier == "thorough" }

// Pick2 returns q for the quick tier and t for the thorough tier.
func Pick2[T any](k *Check, q, t T) T {
	if k.Thorough() {
		return t
	}
	return q
}

var seed = maphash.MakeSeed()

// Hash hashes bytes within this process.
func Hash(b []byte) uint64 { return maphash.Bytes(seed, b) }

// HashS hashes a string within this process.
func HashS(s string) uint64 { return maphash.String(seed, s) }

// Main runs a check and exits.
func Main(id string, body func(k *Check)) {
	debug.SetGCPercent(400)
	k := &Check{ID: id, Tier: os.Getenv("VERIF_TIER"), start: time.Now()}
	if k.Tier != "thorough" {
		k.Tier = "quick"
	}
	k.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	k.root = os.Getenv("VERIF_ROOT")
	if k.root == "" {
		k.root = "/verif"
	}
	k.budget = 240 * time.Second
	if k.Thorough() {
		k.budget = 40 * time.Minute
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			k.budget = time.Duration(n) * time.Second
		}
	}
	k.viol = map[string]int{}
	k.knownHi = map[string]int{}
	k.extra = map[string]any{}
	k.states, k.edges, k.outcomes = newHashSet(), newHashSet(), newHashSet()
	k.maxViol = 8
	if n, err := strconv.Atoi(os.Getenv("VERIF_MAXVIOL")); err == nil {
		k.maxViol = n
	}
	k.watch = make([]watchSlot, runtime.NumCPU()+1)
	k.loadKnown()
	if len(os.Args) > 2 && os.Args[1] == "-replay" {
		k.replayOnly = os.Args[2]
	}
	os.MkdirAll(filepath.Join(k.root, "evidence", "replay"), 0o755)
	go k.watchdog()
	func() {
		defer func() {
			if r := recover(); r != nil && r != errStop {
				k.Violation("panic outside a case: "+firstLine(fmt.Sprint(r)), map[string]any{"panic": fmt.Sprint(r), "stack": string(debug.Stack())})
			}
		}()
		body(k)
	}()
	k.finish()
}

var errStop = fmt.Errorf("stop")

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (k *Check) loadKnown() {
	k.known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(k.root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=P05 key={...} what
		rest, ok := strings.CutPrefix(l, "known: property="+k.ID+" key={")
		if !ok {
			continue
		}
		key, what, ok := strings.Cut(rest, "} ")
		if !ok {
			continue
		}
		k.known[key] = what
	}
}

func (k *Check) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		for i := range k.watch {
			w := &k.watch[i]
			w.mu.Lock()
			if !w.since.IsZero() && time.Since(w.since) > 60*time.Second {
				k.Violation("an execution did not terminate within 60 s", map[string]any{"section": w.name, "log": w.ch.log(), "devs": w.ch.devs})
				k.finish()
			}
			w.mu.Unlock()
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			f := strings.Fields(string(b))
			if len(f) > 1 {
				n, _ := strconv.ParseInt(f[1], 10, 64)
				if n*4096 > 20<<30 {
					var devs []any
					for i := range k.watch {
						w := &k.watch[i]
						if w.ch != nil {
							devs = append(devs, map[string]any{"section": w.name, "devs": w.ch.devs})
						}
					}
					k.Violation("memory use exceeded 20 GiB", devs)
					k.finish()
				}
			}
		}
	}
}

// Violation records a violation identified by key.
func (k *Check) Violation(key string, detail any) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if what, ok := k.known[key]; ok {
		if k.knownHi[key] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.ID, what)
		}
		k.knownHi[key]++
		return
	}
	k.viol[key]++
	if k.viol[key] > 1 {
		return
	}
	k.order = append(k.order, key)
	if len(k.order) > k.maxViol {
		k.stopAll.Store(true)
		return
	}
	path := filepath.Join(k.root, "evidence", "replay", fmt.Sprintf("%s-%d.json", k.ID, len(k.order)))
	j, err := json.MarshalIndent(map[string]any{"property": k.ID, "tier": k.Tier, "key": key, "detail": detail}, "", " ")
	if err != nil {
		j = []byte(fmt.Sprintf("%q %#v", key, detail))
	}
	os.WriteFile(path, j, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", k.ID, path)
	fmt.Printf("  key={%s}\n", key)
	s := string(j)
	if len(s) > 2500 {
		s = s[:2500] + "..."
	}
	fmt.Println(s)
}

// Sample keeps up to 12 written-out cases.
func (k *Check) Sample(v any) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.samples) < 12 {
		k.samples = append(k.samples, v)
	}
}

// Assume records an assumption for the evidence file.
func (k *Check) Assume(s string) { k.assume = append(k.assume, s) }

// Extra records a further measured value.
func (k *Check) Extra(name string, v any) {
	k.mu.Lock()
	k.extra[name] = v
	k.mu.Unlock()
}

// Count adds to a named extra counter.
func (k *Check) Count(name string, n int64) {
	k.mu.Lock()
	old, _ := k.extra[name].(int64)
	k.extra[name] = old + n
	k.mu.Unlock()
}

func (k *Check) finish() {
	k.mu.Lock()
	cov := map[string]any{
		"states":                        k.states.len(),
		"transitions":                   k.edges.len(),
		"traces_validated_against_impl": k.executions.Load(),
		"distinct_outcomes":             k.outcomes.len(),
		"exhaustive":                    !k.capped.Load(),
		"sections":                      k.sections,
		"samples":                       k.samples,
	}
	if len(k.samples) == 0 {
		cov["samples"] = []any{}
	}
	for n, v := range k.extra {
		cov[n] = v
	}
	var kh []string
	for n, c := range k.knownHi {
		kh = append(kh, fmt.Sprintf("%s (x%d)", n, c))
	}
	sort.Strings(kh)
	cov["known_findings_seen"] = kh
	ev := map[string]any{
		"property": k.ID, "tier": k.Tier, "seed": k.Seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(k.start).Seconds(), "violations": len(k.order),
		"assumptions": append([]string{}, k.assume...),
	}
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	os.WriteFile(filepath.Join(k.root, "evidence", k.ID+".json"), j, 0o644)
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n", k.ID, k.Tier,
		k.states.len(), k.edges.len(), k.executions.Load(), k.outcomes.len(), !k.capped.Load(), len(k.order), time.Since(k.start).Seconds())
	if len(k.order) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Ch is one execution of a driver.
type Ch struct {
	k       *Check
	sec     string
	devs    []dev // deviations from the all-default choice sequence, by position
	pos     int
	di      int
	pts     []point
	cur     uint64
	trace   []string
	wantLog bool
	failed  bool
}

type dev struct {
	Pos int `json:"p"`
	Alt int `json:"a"`
}

type point struct {
	n    int32
	core int32 // alternatives 1..core-1 cost c1, later ones cost c1+1
	c1   int8
}

func (c *Ch) choose(n, core, c1 int) int {
	p := c.pos
	c.pos++
	c.pts = append(c.pts, point{int32(n), int32(core), int8(c1)})
	if c.di < len(c.devs) && c.devs[c.di].Pos == p {
		a := c.devs[c.di].Alt
		c.di++
		if a >= n {
			panic(fmt.Sprintf("mc: replay diverged: point %d has %d alternatives, wanted %d", p, n, a))
		}
		return a
	}
	return 0
}

// Pick chooses one of n alternatives; any but 0 costs one deviation.
func (c *Ch) Pick(n int) int { return c.choose(n, n, 1) }

// PickC chooses one of n alternatives; 1..core-1 cost one deviation, the rest two.
func (c *Ch) PickC(n, core int) int { return c.choose(n, core, 1) }

// Free chooses one of n alternatives at no cost.
func (c *Ch) Free(n int) int { return c.choose(n, n, 0) }

// Bool chooses at the cost of one deviation.
func (c *Ch) Bool() bool { return c.Pick(2) == 1 }

// Of picks an element; element 0 is the default.
func Of[T any](c *Ch, xs ...T) T { return xs[c.Pick(len(xs))] }

// FreeOf picks an element at no cost.
func FreeOf[T any](c *Ch, xs ...T) T { return xs[c.Free(len(xs))] }

// Visit reports the abstract state reached.
func (c *Ch) Visit(h uint64) {
	c.k.states.add(h)
	c.k.edges.add(mix(c.cur, h))
	c.cur = h
}

// Outcome reports an observed outcome class.
func (c *Ch) Outcome(s string) { c.k.outcomes.add(HashS(s)) }

// Log adds a line to the written-out case.
func (c *Ch) Log(f string, a ...any) {
	if c.wantLog {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

// WantLog reports whether Log lines are kept.
func (c *Ch) WantLog() bool { return c.wantLog }

func (c *Ch) log() []string { return c.trace }

// Failure is a failed comparison.
type Failure struct {
	Key    string
	Detail map[string]any
}

// Fail aborts the execution with a violation.
func (c *Ch) Fail(key string, kv ...any) {
	d := map[string]any{}
	for i := 0; i+1 < len(kv); i += 2 {
		v := kv[i+1]
		if b, ok := v.([]byte); ok {
			v = Hex(b)
		}
		d[fmt.Sprint(kv[i])] = v
	}
	panic(&Failure{key, d})
}

// Hex writes bytes out, eliding the middle of very long inputs.
func Hex(b []byte) string {
	if len(b) > 6000 {
		return fmt.Sprintf("%s...(%d bytes)...%s", hex.EncodeToString(b[:2000]), len(b), hex.EncodeToString(b[len(b)-1000:]))
	}
	return hex.EncodeToString(b)
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C15 + (a << 6) + (a >> 2))
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

func (k *Check) exec(slot int, name string, body func(c *Ch), devs []dev, wantLog bool) (c *Ch, f *Failure) {
	c = &Ch{k: k, sec: name, devs: devs, wantLog: wantLog, cur: HashS(name)}
	w := &k.watch[slot]
	w.mu.Lock()
	w.since, w.ch, w.name = time.Now(), c, name
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		w.since = time.Time{}
		w.ch = nil
		w.mu.Unlock()
		if r := recover(); r != nil {
			if ff, ok := r.(*Failure); ok {
				f = ff
				return
			}
			st := string(debug.Stack())
			f = &Failure{"panic: " + PanicKey(r, st), map[string]any{"panic": fmt.Sprint(r), "stack": trimStack(st)}}
		}
	}()
	body(c)
	if c.di != len(c.devs) {
		panic("mc: replay diverged: a recorded deviation was not reached")
	}
	return c, nil
}

// PanicKey gives a stable description of a panic: message class and the
// innermost function of the code under test.
func PanicKey(r any, stack string) string {
	msg := firstLine(fmt.Sprint(r))
	where := ""
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "tachograph-go") && !strings.Contains(l, "verifmc") && !strings.HasPrefix(l, "\t") {
			where = l
			if i := strings.LastIndex(where, "("); i > 0 {
				where = where[:i]
			}
			break
		}
	}
	if i := strings.LastIndex(where, "/"); i >= 0 {
		where = where[i+1:]
	}
	return strings.TrimSpace(classOf(msg) + " in " + where)
}

func classOf(m string) string {
	for _, p := range []string{"slice bounds out of range", "index out of range", "nil pointer dereference", "makeslice", "divide by zero"} {
		if strings.Contains(m, p) {
			return p
		}
	}
	return m
}

const diverged = "panic: mc: replay diverged"

func trimStack(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// Explore runs body for every choice sequence of cost at most bound.
func (k *Check) Explore(name string, bound int, body func(c *Ch)) {
	if k.stopAll.Load() {
		return
	}
	type node struct {
		devs []dev
		cost int
	}
	var (
		mu     sync.Mutex
		cond   = sync.NewCond(&mu)
		queue  = []node{{nil, 0}}
		active int
		execs  atomic.Int64
		points atomic.Int64
		capped atomic.Bool
		qlen   atomic.Int64
	)
	qlen.Store(1)
	nw := runtime.NumCPU()
	var wg sync.WaitGroup
	worker := func(slot int) {
		defer wg.Done()
		var run func(n node)
		run = func(n node) {
			if k.stopAll.Load() {
				capped.Store(true)
				return
			}
			if time.Since(k.start) > k.budget {
				capped.Store(true)
				return
			}
			nth := execs.Add(1)
			c, f := k.exec(slot, name, body, n.devs, nth <= 2)
			if nth <= 2 && c != nil && len(c.trace) > 0 {
				k.Sample(map[string]any{"section": name, "trace": c.trace})
			}
			for try := 0; f != nil && strings.HasPrefix(f.Key, diverged) && k.Timed != nil && k.Timed(); try++ {
				if try == 5 {
					capped.Store(true) // not explored from here
					f = nil
					break
				}
				c, f = k.exec(slot, name, body, n.devs, false)
			}
			if f != nil {
				// Confirm on a re-execution and write the case out.
				same := 0
				var lg []string
				for i := 0; i < 5; i++ {
					c2, f2 := k.exec(slot, name, body, n.devs, true)
					if f2 != nil {
						same++
					}
					if c2 != nil {
						lg = c2.trace
					}
				}
				f.Detail["section"] = name
				f.Detail["devs"] = n.devs
				f.Detail["log"] = lg
				f.Detail["reproduced"] = fmt.Sprintf("%d of 5 re-executions", same)
				k.Violation(f.Key, f.Detail)
			}
			k.executions.Add(1)
			points.Add(int64(len(c.pts)))
			from := 0
			if len(n.devs) > 0 {
				from = n.devs[len(n.devs)-1].Pos + 1
			}
			pts := c.pts
			for i := from; i < len(pts); i++ {
				for a := 1; a < int(pts[i].n); a++ {
					cost := n.cost + int(pts[i].c1)
					if a >= int(pts[i].core) {
						cost++
					}
					if cost > bound {
						break
					}
					nd := make([]dev, len(n.devs)+1)
					copy(nd, n.devs)
					nd[len(n.devs)] = dev{i, a}
					ch := node{nd, cost}
					if qlen.Load() < 4096 {
						mu.Lock()
						queue = append(queue, ch)
						qlen.Store(int64(len(queue)))
						mu.Unlock()
						cond.Signal()
					} else {
						run(ch)
					}
				}
			}
		}
		for {
			mu.Lock()
			for len(queue) == 0 && active > 0 {
				cond.Wait()
			}
			if len(queue) == 0 && active == 0 {
				mu.Unlock()
				cond.Broadcast()
				return
			}
			n := queue[len(queue)-1]
			queue = queue[:len(queue)-1]
			qlen.Store(int64(len(queue)))
			active++
			mu.Unlock()
			run(n)
			mu.Lock()
			active--
			mu.Unlock()
			cond.Broadcast()
		}
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go worker(i)
	}
	wg.Wait()
	if capped.Load() {
		k.capped.Store(true)
	}
	k.mu.Lock()
	k.sections = append(k.sections, section{name, bound, execs.Load(), points.Load(), !capped.Load()})
	k.mu.Unlock()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("  section %s: bound=%d executions=%d points=%d t=%.1fs\n", name, bound, execs.Load(), points.Load(), time.Since(k.start).Seconds())
	}
}

// hashSet is a sharded set of 64-bit hashes.
type hashSet struct{ sh [256]shard }

type shard struct {
	mu  sync.Mutex
	tab []uint64
	n   int
	z   bool
}

func newHashSet() *hashSet { return &hashSet{} }

func (h *hashSet) add(x uint64) bool {
	s := &h.sh[x>>56]
	s.mu.Lock()
	defer s.mu.Unlock()
	if x == 0 {
		o := s.z
		s.z = true
		return !o
	}
	if len(s.tab) == 0 {
		s.tab = make([]uint64, 64)
	}
	if s.n*4 > len(s.tab)*3 {
		old := s.tab
		s.tab = make([]uint64, len(old)*2)
		s.n = 0
		for _, v := range old {
			if v != 0 {
				s.put(v)
			}
		}
	}
	return s.put(x)
}

func (s *shard) put(x uint64) bool {
	m := uint64(len(s.tab) - 1)
	i := mix(x, 1) & m
	for s.tab[i] != 0 {
		if s.tab[i] == x {
			return false
		}
		i = (i + 1) & m
	}
	s.tab[i] = x
	s.n++
	return true
}

func (h *hashSet) len() int {
	n := 0
	for i := range h.sh {
		s := &h.sh[i]
		s.mu.Lock()
		for _, v := range s.tab {
			if v != 0 {
				n++
			}
		}
		if s.z {
			n++
		}
		s.mu.Unlock()
	}
	return n
}
