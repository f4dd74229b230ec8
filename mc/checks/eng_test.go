package checks

// Engine shared by all checks: exhaustive case enumeration and breadth-first
// exploration of operation histories on the real code, violation handling
// (re-execution, replay artefacts), and evidence.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"averif/mc/arand"
)

// ---------------------------------------------------------------- randomness

// detRand is a deterministic, never repeating random source; it is installed
// in place of the package's source so that every execution is reproducible.
type detRand struct{ n atomic.Uint64 }

func (d *detRand) Read(p []byte) (int, error) {
	for off := 0; off < len(p); off += 32 {
		var b [16]byte
		binary.BigEndian.PutUint64(b[:8], d.n.Add(1))
		copy(b[8:], "vrfyseed")
		h := sha256.Sum256(b[:])
		copy(p[off:], h[:])
	}
	return len(p), nil
}

// ------------------------------------------------------------------- checker

// Found is a violation.
type Found struct {
	Case string // deterministic key of the case (replay key)
	Msg  string
}

// Check drives one property.
type Check struct {
	T     *testing.T
	ID    string
	Tier  string
	Level string

	start    time.Time
	deadline time.Time
	cut      atomic.Bool // deadline hit somewhere

	evals       atomic.Int64
	nontrivial  shardSet
	transitions atomic.Int64
	states      atomic.Int64
	traces      atomic.Int64
	depth       int

	mu       sync.Mutex
	samples  []any
	seenS    map[string]bool
	found    []Found
	flaky    []string
	known    map[string]string // case key -> description
	knownHit map[string]bool
	extra    map[string]any
	rule     string
	assume   []string
	replay   string
	outcomes map[string]int64
	progress atomic.Int64
	curCase  atomic.Value
}

const maxWorkers = 8

var maxFound = func() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_MAXFOUND"), "%d", &n)
	return n
}()

func outDir() string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

// wall is read before any bubble is entered, on the real clock.
func newCheck(t *testing.T, id, level, rule string) *Check {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Check{T: t, ID: id, Tier: tier, Level: level, rule: rule, start: time.Now(),
		seenS: map[string]bool{}, known: map[string]string{}, knownHit: map[string]bool{},
		extra: map[string]any{}, outcomes: map[string]int64{}, replay: os.Getenv("VERIF_REPLAY_CASE")}
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	c.deadline = c.start.Add(budget)
	c.loadKnown()
	arand.Set(&detRand{})
	go c.watchdog()
	return c
}

func (c *Check) thorough() bool { return c.Tier == "thorough" }

// realNow is set by the watchdog goroutine, which runs outside every bubble.
var realNow atomic.Int64

func (c *Check) timeUp() bool {
	if realNow.Load() > c.deadline.UnixNano() {
		c.cut.Store(true)
		return true
	}
	return false
}

// watchdog ends the run when the code under test stops answering: one request
// takes microseconds, so no progress at all for two minutes means that a
// request is never answered.
func (c *Check) watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		realNow.Store(time.Now().UnixNano())
		p := c.progress.Load()
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > 120*time.Second {
			cur, _ := c.curCase.Load().(string)
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "stuck in case %s\n%s\n", cur, buf[:n])
			c.mu.Lock()
			c.found = append(c.found, Found{cur, "a request was never answered (no progress for 120 s)"})
			c.mu.Unlock()
			c.finish()
			os.Exit(0)
		}
	}
}

type knownFile struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func (c *Check) loadKnown() {
	f := os.Getenv("VERIF_KNOWN")
	if f == "" {
		return
	}
	data, err := os.ReadFile(f)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || !strings.HasPrefix(line, "{") {
			continue
		}
		var k knownFile
		if json.Unmarshal([]byte(line), &k) == nil && k.Property == c.ID && k.Status == "known" {
			c.known[k.Case] = k.What
		}
	}
}

// skip tells whether a case is excluded because another one is being replayed.
func (c *Check) skip(key string) bool { return c.replay != "" && c.replay != key }

func (c *Check) stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.found) >= maxFound || len(c.flaky) >= maxFlaky
}

// maxFlaky is the number of failing executions, none of which fails again on
// its own, that amount to a violation: the code then remembers something
// outside the server value, from one execution to the next.
const maxFlaky = 3

// report registers a violation after re-executing it (rerun returns the
// violation message again, or "" if it does not recur).
func (c *Check) report(key, msg string, rerun func() string) {
	if what, ok := c.known[key]; ok {
		c.mu.Lock()
		if !c.knownHit[key] {
			c.knownHit[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
		}
		c.mu.Unlock()
		return
	}
	if rerun != nil {
		again := 0
		for i := 0; i < 5; i++ {
			if rerun() != "" {
				again++
			}
		}
		if again == 0 {
			for i := 0; i < 50 && again == 0; i++ {
				if rerun() != "" {
					again++
				}
			}
		}
		if again == 0 {
			c.mu.Lock()
			c.flaky = append(c.flaky, key+": "+msg)
			c.mu.Unlock()
			return
		}
	}
	c.mu.Lock()
	c.found = append(c.found, Found{key, msg})
	c.mu.Unlock()
}

// Case runs one enumerated case; f returns a non-empty message on violation.
func (c *Check) Case(key string, nontrivial bool, f func() string) {
	if c.skip(key) {
		return
	}
	c.progress.Add(1)
	c.curCase.Store(key)
	c.evals.Add(1)
	if nontrivial {
		c.nontrivial.add(key)
	}
	msg := guard(f)
	if msg != "" {
		c.report(key, msg, func() string { return guard(f) })
	} else {
		c.sample(key, "")
	}
}

// guard turns a panic of the code under test into a violation message.
func guard(f func() string) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return f()
}

func (c *Check) outcome(k string) {
	c.mu.Lock()
	c.outcomes[k]++
	c.mu.Unlock()
}

func (c *Check) sample(key string, class string) {
	n := c.evals.Load()
	if n > 3 && n&(n-1) != 0 { // powers of two: a spread of samples
		return
	}
	c.mu.Lock()
	if len(c.samples) < 24 && !c.seenS[key] {
		c.seenS[key] = true
		c.samples = append(c.samples, key)
	}
	c.mu.Unlock()
}

// ----------------------------------------------------------------- parallel

// parallel runs body for every i in [0,n) on all cores, each worker inside its
// own time bubble (virtual clock).
func (c *Check) parallel(n int, body func(i int)) {
	var next atomic.Int64
	workers := maxWorkers
	fmt.Sscanf(os.Getenv("VERIF_WORKERS"), "%d", &workers)
	if n < workers {
		workers = n
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				// a fresh bubble for every chunk keeps virtual time small
				done := false
				synctest.Test(c.T, func(*testing.T) {
					born := time.Now()
					for j := 0; j < 64 && time.Since(born) < 50*365*24*time.Hour; j++ {
						i := int(next.Add(1)) - 1
						if i >= n || c.timeUp() {
							done = true
							return
						}
						c.progress.Add(1)
						body(i)
					}
				})
				if done {
					return
				}
			}
		}()
	}
	wg.Wait()
}

// shardSet is a concurrent set of 64-bit hashes.
type shardSet struct {
	m [64]struct {
		sync.Mutex
		s map[uint64]struct{}
	}
}

func hash64(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.BigEndian.Uint64(h[:8])
}

func (s *shardSet) add(key string) bool {
	h := hash64(key)
	b := &s.m[h%64]
	b.Lock()
	defer b.Unlock()
	if b.s == nil {
		b.s = map[uint64]struct{}{}
	}
	if _, ok := b.s[h]; ok {
		return false
	}
	b.s[h] = struct{}{}
	return true
}

func (s *shardSet) size() int64 {
	var n int64
	for i := range s.m {
		s.m[i].Lock()
		n += int64(len(s.m[i].s))
		s.m[i].Unlock()
	}
	return n
}

// ------------------------------------------------------------------ finishing

func (c *Check) finish() {
	if len(c.found) == 0 && len(c.flaky) >= maxFlaky {
		c.found = append(c.found, Found{"", "executions failed that do not fail on their own; the behaviour depends on what the process did before (the replay repeats the whole check):\n" + strings.Join(c.flaky, "\n")})
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	cov := map[string]any{
		"evaluations":         c.evals.Load(),
		"distinct_nontrivial": c.nontrivial.size(),
		"rule":                c.rule,
		"samples":             c.samples,
		"exhaustive":          !c.cut.Load() && len(c.found) == 0 && c.replay == "",
	}
	if c.Level == "model_checking" {
		cov["states"] = c.states.Load()
		cov["transitions"] = c.transitions.Load()
		cov["traces_validated_against_impl"] = c.traces.Load()
		cov["max_depth"] = c.depth
	}
	if len(c.outcomes) > 0 {
		cov["outcomes"] = c.outcomes
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.flaky) > 0 {
		cov["unreproduced"] = c.flaky
	}
	var missing []string
	if c.replay == "" && !c.cut.Load() && len(c.found) == 0 {
		for k := range c.known {
			if !c.knownHit[k] {
				missing = append(missing, k)
			}
		}
		sort.Strings(missing)
	}
	if len(missing) > 0 {
		cov["known_findings_not_seen"] = missing
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": c.Level,
		"coverage": cov, "assumptions": append([]string{}, c.assume...),
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.found),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	dir := os.Getenv("VERIF_EVIDENCE")
	if dir == "" {
		dir = outDir()
	}
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, c.ID+".json"), append(data, '\n'), 0o644)
	fmt.Printf("property=%s tier=%s evaluations=%d nontrivial=%d states=%d transitions=%d depth=%d cut=%v wall=%.1fs\n",
		c.ID, c.Tier, c.evals.Load(), c.nontrivial.size(), c.states.Load(), c.transitions.Load(), c.depth, c.cut.Load(), time.Since(c.start).Seconds())
	for _, f := range c.flaky {
		fmt.Printf("UNREPRODUCED: %s\n", f)
	}
	// report the shortest counterexample
	sort.SliceStable(c.found, func(i, j int) bool { return len(c.found[i].Case) < len(c.found[j].Case) })
	if len(c.found) > 0 {
		if os.Getenv("VERIF_MAXFOUND") != "" {
			for _, f := range c.found {
				fmt.Printf("ALL %s: %s\n", f.Case, f.Msg)
			}
		}
		f := c.found[0]
		rdir := os.Getenv("VERIF_REPLAYS")
		if rdir == "" {
			rdir = outDir()
		}
		_ = os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, fmt.Sprintf("%s-%016x.json", c.ID, hash64(f.Case)))
		rd, _ := json.MarshalIndent(map[string]any{"property": c.ID, "tier": c.Tier, "case": f.Case, "message": f.Msg,
			"replay_with": "./run.sh replay " + p}, "", " ")
		_ = os.WriteFile(p, append(rd, '\n'), 0o644)
		fmt.Printf("case: %s\n%s\n", f.Case, f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	}
	_ = os.WriteFile(filepath.Join(outDir(), "status"), []byte(map[bool]string{true: "violation", false: "held"}[len(c.found) > 0]), 0o644)
}
