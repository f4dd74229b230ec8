package checks

// C13: exploration of thread schedules of concurrent requests on the real
// server, built with scheduling points before every statement, scheduler-aware
// locks and the race detector (see mc/instr and mc/vsync).

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"

	"averif/mc/arand"
	"averif/mc/vsync"
)

// plainRand is a random source without any synchronisation: it must not order
// the goroutines using it.
type plainRand struct{ n uint64 }

//go:norace
//go:noinline
func (d *plainRand) next() uint64 {
	d.n += 0x9e3779b97f4a7c15
	z := d.n
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (d *plainRand) Read(p []byte) (int, error) {
	vsync.Point()
	var x uint64
	for i := range p {
		if i%8 == 0 {
			x = d.next()
		}
		p[i] = byte(x)
		x >>= 8
	}
	return len(p), nil
}

// pointBody and pointWriter let other requests run during I/O.
type pointBody struct{ r io.Reader }

func (b *pointBody) Read(p []byte) (int, error) { vsync.Point(); return b.r.Read(p) }
func (b *pointBody) Close() error               { return nil }

type pointWriter struct{ *recorder }

func (w *pointWriter) WriteHeader(code int) { vsync.Point(); w.recorder.WriteHeader(code) }
func (w *pointWriter) Write(p []byte) (int, error) {
	vsync.Point()
	return w.recorder.Write(p)
}

func serveShared(s *oauth2.Server, r *http.Request, need []string) (x *Resp) {
	rec := newRecorder()
	w := &pointWriter{rec}
	ok, pan := false, ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, is := p.(vsync.Abort); is {
					panic(p)
				}
				pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		if r.URL.Path == resourcePath {
			if ok = s.Authorize(w, r, oauth2.Scope(need)); ok {
				_, _ = w.Write([]byte("RESOURCE"))
			}
		} else {
			s.ServeHTTP(w, r)
		}
	}()
	x = rec.resp()
	x.OK, x.Panic = ok, pan
	return x
}

// inflight is one of the concurrent requests.
type inflight struct {
	name string
	op   Op
	raw  *Req
}

func (f inflight) req(w *World) Req {
	if f.raw != nil {
		return *f.raw
	}
	return w.build(f.op)
}

func rd(o Op) inflight { return inflight{name: o.key(), op: o} }

// schedSetup is the state in which requests are sent.
type schedSetup struct {
	name string
	h    []Op
	menu []inflight
	core int // the first core requests of the menu form the triples
}

func schedSetups() []schedSetup {
	h := []Op{
		{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}, // #0
		{K: "xch", Cl: "c1", Cr: 0},                    // #1 A #2 R
		{K: "code", Cl: "c1", Us: "u1", Sc: "foo"},     // #3
		{K: "pw", Cl: "c2", Us: "u2", Sc: "foo"},       // #4 A #5 R
		{K: "code", Cl: "p1", Us: "u2"},                // #6
	}
	raw := func(name string, q Req) inflight { return inflight{name: name, raw: &q} }
	menu := []inflight{
		rd(Op{K: "xch", Cl: "c1", Cr: 3}),
		rd(Op{K: "rfr", Cl: "c1", Cr: 2}),
		rd(Op{K: "xch", Cl: "c1", Cr: 0}), // replay
		rd(Op{K: "rev", Cl: "c1", Cr: 2}),
		rd(Op{K: "rev", Cl: "c1", Cr: 1}),
		rd(Op{K: "res", Cr: 1, Sc: "foo"}),
		rd(Op{K: "int", Cl: "c1", Cr: 2}),
		rd(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}),
		rd(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo", St: "s"}),
		rd(Op{K: "rfr", Cl: "c1", Cr: 2, Sc: "foo"}),
		rd(Op{K: "int", Cl: "c1", Cr: 1}),
		rd(Op{K: "cc", Cl: "c1"}),
		rd(Op{K: "imp", Cl: "c1", Us: "u1", Sc: "foo", St: "s"}),
		rd(Op{K: "rfr", Cl: "c2", Cr: 5}),
		rd(Op{K: "rev", Cl: "c2", Cr: 4}),
		rd(Op{K: "xch", Cl: "p1", Cr: 6}),
		rd(Op{K: "xch", Cl: "c2", Cr: 3}),                // wrong client
		rd(Op{K: "rfr", Cl: "c2", Cr: 2}),                // wrong client
		rd(Op{K: "rev", Cl: "c2", Cr: 2}),                // wrong client
		rd(Op{K: "rfr", Cl: "c1", Cr: 2, Sc: "foo baz"}), // excess scope
		rd(Op{K: "pw", Cl: "c1", Us: "u1", Pw: "wrong"}), // denied
		rd(Op{K: "rfr", Cl: "c1", Cr: 2, Sec: "wrong"}),  // bad client
		rd(Op{K: "res", Cr: 1, Sc: "foo baz"}),           // insufficient
		rd(Op{K: "res", X: "not-a-token"}),               // invalid
		raw("form notice", Req{Method: "GET", Path: "/oauth2/authorize", NoBody: true, Query: "response_type=code&client_id=p1&redirect_uri=" + pctEncode("https://p1.example.com/app")}),
		raw("not found", Req{Method: "POST", Path: "/oauth2/nothing", CT: formCT, Body: "a=b"}),
		raw("malformed", Req{Method: "POST", Path: "/oauth2/token", CT: formCT, Body: "%zz"}),
	}
	old := append(append([]Op{}, h...), Op{K: "adv", D: 101 * time.Second})
	return []schedSetup{
		{"live", h, menu, 11},
		{"expired", old, []inflight{menu[0], menu[1], menu[2], menu[3], menu[4], menu[5], menu[6], menu[7], menu[10]}, 6},
	}
}

type schedTask struct {
	setup *schedSetup
	idx   []int
	bound int
	delay bool // every deviation from the default order counts, not only preemptions
	name  string
}

func (c *Check) schedTasks() (ts []schedTask) {
	setups := schedSetups()
	name := func(s *schedSetup, idx []int) string {
		l := make([]string, len(idx))
		for i, j := range idx {
			l[i] = s.menu[j].name
		}
		return s.name + ": " + strings.Join(l, " || ")
	}
	for si := range setups {
		s := &setups[si]
		for i := range s.menu {
			for j := i; j < len(s.menu); j++ {
				b := 2
				if c.thorough() {
					b = 3
				}
				ts = append(ts, schedTask{s, []int{i, j}, b, false, name(s, []int{i, j})})
			}
		}
	}
	triples := func(core, bound int) {
		s := &setups[0]
		for i := 0; i < core; i++ {
			for j := 0; j < core; j++ {
				for k := 0; k < core; k++ {
					ts = append(ts, schedTask{s, []int{i, j, k}, bound, true, name(s, []int{i, j, k})})
				}
			}
		}
	}
	if c.thorough() {
		triples(setups[0].core, 1)
	} else {
		triples(4, 1)
	}
	return ts
}

// outcome renders everything observable about a finished execution.
func (t *schedTask) outcome(w *World, resps []*Resp) string {
	var b strings.Builder
	old := len(w.Creds)
	from := make([]int, len(resps)+1)
	from[0] = old
	for i, r := range resps {
		f := t.setup.menu[t.idx[i]]
		if f.raw == nil && r != nil {
			w.observe(f.op, r)
		}
		from[i+1] = len(w.Creds)
	}
	for _, r := range resps {
		if m := r.json(); m != nil && m["exp"] != nil {
			r.Body = w.norm(r)
		}
	}
	label := func(s string) string {
		for i := range resps {
			for j := from[i]; j < from[i+1]; j++ {
				s = strings.ReplaceAll(s, w.Creds[j].Str, fmt.Sprintf("<%c of request %d>", w.Creds[j].Kind, i))
			}
		}
		return s
	}
	for i, r := range resps {
		fmt.Fprintf(&b, "request %d: %d writes=%d", i, r.Code, r.Writes)
		var hs []string
		for k, v := range r.H {
			hs = append(hs, k+"="+strings.Join(v, ","))
		}
		sort.Strings(hs)
		b.WriteString(" " + label(strings.Join(hs, " ")) + " " + label(strings.TrimSpace(r.Body)))
		if r.Panic != "" {
			b.WriteString(" PANIC " + r.Panic)
		}
		b.WriteByte('\n')
	}
	if locked(w.S) {
		b.WriteString("server left locked\n")
	}
	n := len(w.Creds)
	for i, v := range w.vector(n) {
		fmt.Fprintf(&b, "#%d %c: %s\n", i, w.Creds[i].Kind, v)
	}
	// what the replay of spent codes still reaches
	for i := 0; i < n; i++ {
		if w.Creds[i].Kind == 'C' {
			w.use(w.Creds[i])
		}
	}
	for i := 0; i < n; i++ {
		if w.Creds[i].Kind == 'A' {
			ok, _ := w.use(w.Creds[i])
			fmt.Fprintf(&b, "#%d after replay: %v\n", i, ok)
		}
	}
	return b.String()
}

func (t *schedTask) world() (*World, []*http.Request, [][]string) {
	w := newWorld(baseCfg())
	for _, o := range t.setup.h {
		w.do(o)
	}
	reqs, need := make([]*http.Request, len(t.idx)), make([][]string, len(t.idx))
	for i, j := range t.idx {
		q := t.setup.menu[j].req(w)
		reqs[i], need[i] = q.http(), q.Need
		if reqs[i].Body != nil {
			reqs[i].Body = &pointBody{reqs[i].Body}
		}
	}
	return w, reqs, need
}

// sequential computes the outcomes of all sequential orders.
func (t *schedTask) sequential() map[string]string {
	out := map[string]string{}
	var perm func(order []int)
	perm = func(order []int) {
		if len(order) == len(t.idx) {
			w, reqs, need := t.world()
			resps := make([]*Resp, len(reqs))
			for _, i := range order {
				resps[i] = serveShared(w.S, reqs[i], need[i])
			}
			out[t.outcome(w, resps)] = fmt.Sprint(order)
			return
		}
		for i := range t.idx {
			used := false
			for _, j := range order {
				used = used || j == i
			}
			if !used {
				perm(append(append([]int{}, order...), i))
			}
		}
	}
	perm(nil)
	return out
}

var realMs atomic.Int64

func (t *schedTask) exec(choices []int8) (out string, ds []vsync.Decision, points int, deadlock bool, lost int) {
	w, reqs, need := t.world()
	resps := make([]*Resp, len(reqs))
	fs := make([]func(), len(reqs))
	for i := range fs {
		fs[i] = func() { resps[i] = serveShared(w.S, reqs[i], need[i]) }
	}
	ds, points, deadlock, lost = vsync.Run(fs, choices, realMs.Load, 2000)
	if deadlock {
		return "", ds, points, true, lost
	}
	return t.outcome(w, resps), ds, points, false, lost
}

func scheduleKey(ds []vsync.Decision) string {
	var l []string
	for i, d := range ds {
		def := d.Running
		for j := 0; def < 0; j++ {
			if d.Enabled&(1<<j) != 0 {
				def = j
			}
		}
		if d.Chosen != def {
			l = append(l, fmt.Sprintf("%d:%d", i, d.Chosen))
		}
	}
	return strings.Join(l, ",")
}

func parseSchedule(s string) (out []int8) {
	for _, p := range strings.Split(s, ",") {
		var i, u int
		if k, _ := fmt.Sscanf(p, "%d:%d", &i, &u); k == 2 {
			for len(out) <= i {
				out = append(out, -1)
			}
			out[i] = int8(u)
		}
	}
	return out
}

type shardResult struct {
	Schedules, Points, Preempted, Tasks, Capped, Lost int64
	MaxDecisions                                      int
	Cut                                               bool
	Found                                             []Found
	Samples                                           []string
	Orders                                            map[string]int64
}

// raceLog returns how much the race detector has reported so far.
func raceLog() (int64, string) {
	p := os.Getenv("VERIF_RACELOG") + fmt.Sprintf(".%d", os.Getpid())
	st, err := os.Stat(p)
	if err != nil {
		return 0, p
	}
	return st.Size(), p
}

// schedWalk bounds the exploration of the schedules of one set of tasks.
type schedWalk struct {
	name           string
	threads, bound int
	delay          bool
	limit          int
}

// walk explores the schedules depth first; judge executes one of them.
func (c *Check) walk(t schedWalk, res *shardResult, judge func(choices []int8) (string, []vsync.Decision), flush func()) {
	res.Tasks++
	type item struct {
		choices []int8
		cost    int
	}
	stack := []item{{}}
	done := 0
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if realMs.Load() > c.deadline.UnixMilli() {
			res.Cut = true
			return
		}
		if done >= t.limit {
			res.Capped++
			return
		}
		done++
		msg, ds := judge(it.choices)
		res.Schedules++
		if it.cost > 0 {
			res.Preempted++
		}
		key := t.name + " @ " + scheduleKey(ds)
		if msg != "" {
			// confirm, except for races (reported once per process) and deadlocks
			if !strings.HasPrefix(msg, "data race") && !strings.HasPrefix(msg, "deadlock") {
				again := false
				for i := 0; i < 20 && !again; i++ {
					m, _ := judge(it.choices)
					again = m != ""
				}
				if !again {
					continue
				}
			}
			res.Found = append(res.Found, Found{key, msg})
			flush()
			return
		}
		if len(ds) > res.MaxDecisions {
			res.MaxDecisions = len(ds)
		}
		if res.Schedules&(res.Schedules-1) == 0 && len(res.Samples) < 6 {
			res.Samples = append(res.Samples, key)
		}
		cost := 0
		for i, d := range ds {
			if i >= len(it.choices) {
				for u := 0; u < t.threads; u++ {
					if u == d.Chosen || d.Enabled&(1<<u) == 0 {
						continue
					}
					cc := cost
					if t.delay || d.Running >= 0 && u != d.Running {
						cc++
					}
					if cc > t.bound {
						continue
					}
					ch := make([]int8, i+1)
					for j := 0; j < i; j++ {
						ch[j] = int8(ds[j].Chosen)
					}
					ch[i] = int8(u)
					stack = append(stack, item{ch, cc})
				}
			}
			def := d.Running
			for u := 0; t.delay && def < 0; u++ {
				if d.Enabled&(1<<u) != 0 {
					def = u
				}
			}
			if def >= 0 && d.Chosen != def {
				cost++
			}
		}
	}
}

// raceSince returns the race detector's reports since the last call.
func raceSince(races *int64) string {
	n, p := raceLog()
	if n <= *races {
		return ""
	}
	*races = n
	b, _ := os.ReadFile(p)
	if len(b) > 6000 {
		b = b[:6000]
	}
	return "data race:\n" + string(b)
}

func (c *Check) schedShard(k, n int, res *shardResult, flush func()) {
	arand.Set(&plainRand{})
	limit := 4000
	if c.thorough() {
		limit = 40000
	}
	races, _ := raceLog()
	tasks := c.schedTasks()
	wantTask, wantSched, replaying := strings.Cut(c.replay, " @ ")
	one := func(t *schedTask) {
		seq := t.sequential()
		if n, p := raceLog(); n > races {
			races = n
			b, _ := os.ReadFile(p)
			res.Found = append(res.Found, Found{t.name + " @ sequential", "data race reported: " + string(b)})
			return
		}
		judge := func(choices []int8) (msg string, ds []vsync.Decision) {
			out, ds, points, deadlock, lost := t.exec(choices)
			res.Points += int64(points)
			res.Lost += int64(lost)
			if deadlock {
				return "deadlock: no request can go on", ds
			}
			if n, p := raceLog(); n > races {
				races = n
				b, _ := os.ReadFile(p)
				if len(b) > 6000 {
					b = b[:6000]
				}
				return "data race:\n" + string(b), ds
			}
			order, ok := seq[out]
			if !ok {
				msg = "the outcome is that of no sequential order\noutcome:\n" + out
				for s, o := range seq {
					msg += "order " + o + " would give:\n" + s
				}
				return msg, ds
			}
			res.Orders[order]++
			return "", ds
		}
		if replaying {
			if t.name != wantTask {
				return
			}
			for i := 0; i < 20; i++ {
				if msg, _ := judge(parseSchedule(wantSched)); msg != "" {
					res.Found = append(res.Found, Found{c.replay, msg})
					return
				}
			}
			return
		}
		c.walk(schedWalk{t.name, len(t.idx), t.bound, t.delay, limit}, res, judge, flush)
	}
	for i := range tasks {
		if (i%n != k && !replaying) || len(res.Found) > 0 || res.Cut {
			continue
		}
		synctest.Test(c.T, func(*testing.T) { one(&tasks[i]) })
	}
}

func TestC13(t *testing.T) {
	if shardMain(t, "C13", func(c *Check, k, n int, res *shardResult, flush func()) { c.schedShard(k, n, res, flush) }) {
		return
	}
	c := newCheck(t, "C13", "model_checking",
		"all schedules up to the preemption bound of all pairs of 27 requests (all grants, replay, refusals, revocation, introspection, resource access) in one state and of 9 in another, and, up to one deviation from the given order, of all ordered triples of the conflicting ones (4, thorough 11); scheduling points before every statement of the package, at every lock operation and at body reads, response writes and random reads; every outcome (responses and all later uses of every credential) is compared with those of all sequential orders; the race detector watches every schedule. Non-trivial: at least one preemption.")
	c.assume = []string{
		"preemption inside one statement is covered by the race detector only",
		"no more than 3 requests at a time; no clock step during the requests",
	}
	if os.Getenv("VERIF_INSTRUMENTED") != "1" {
		c.assume = append(c.assume, "sources could not be instrumented: scheduling points at I/O only")
		c.cut.Store(true)
	}
	defer c.finish()
	deadline := c.start.Add(200 * time.Second)
	if c.thorough() {
		deadline = c.deadline
	}
	c.shards(deadline)
}

// shards runs the check's schedules in child processes, one per core, and
// collects what they explored.
func (c *Check) shards(deadline time.Time) {
	n := runtime.NumCPU()
	if n > maxWorkers {
		n = maxWorkers
	}
	if c.replay != "" {
		n = 1
	}
	results := make([]*shardResult, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(outDir(), fmt.Sprintf("shard-%d.json", k))
			racelog := filepath.Join(outDir(), fmt.Sprintf("race-%d", k))
			cmd := exec.Command(os.Args[0], "-test.run", "^Test"+c.ID+"$", "-test.timeout", "0", "-test.count", "1")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", k, n), "VERIF_SHARD_OUT="+out, "GOMAXPROCS=1",
				"VERIF_RACELOG="+racelog, "GORACE=halt_on_error=0 exitcode=0 log_path="+racelog,
				fmt.Sprintf("VERIF_DEADLINE=%d", deadline.UnixMilli()))
			var log strings.Builder
			cmd.Stdout, cmd.Stderr = &log, &log
			_ = cmd.Start()
			done := make(chan struct{})
			go func() { _ = cmd.Wait(); close(done) }()
			late := time.After(time.Until(deadline.Add(60 * time.Second)))
		wait:
			for {
				select {
				case <-done:
					break wait
				case <-late:
					_ = cmd.Process.Kill()
					c.cut.Store(true)
				case <-time.After(time.Second):
					c.progress.Add(1)
				}
			}
			r := &shardResult{}
			data, err := os.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(data, r)
			}
			if err != nil {
				fmt.Fprintf(os.Stderr, "shard %d: %v\n%s\n", k, err, log.String())
				// a process that died by itself was brought down by the code under test
				if l := log.String(); strings.Contains(l, "fatal error:") && strings.Contains(l, "oauth2") {
					if len(l) > 6000 {
						l = l[:6000]
					}
					r.Found = []Found{{fmt.Sprintf("shard %d", k), "the process died: " + l}}
				} else {
					c.cut.Store(true)
				}
			}
			results[k] = r
		}()
	}
	wg.Wait()
	var pre, lost, capped, tasks, maxd int64
	for _, r := range results {
		c.evals.Add(r.Schedules)
		c.traces.Add(r.Schedules)
		c.states.Add(r.Schedules)
		c.transitions.Add(r.Points)
		pre += r.Preempted
		lost += r.Lost
		capped += r.Capped
		tasks += r.Tasks
		if int64(r.MaxDecisions) > maxd {
			maxd = int64(r.MaxDecisions)
		}
		if r.Cut || r.Capped > 0 {
			c.cut.Store(true)
		}
		for _, f := range r.Found {
			c.report(f.Case, f.Msg, nil)
		}
		for _, s := range r.Samples {
			if len(c.samples) < 24 {
				c.samples = append(c.samples, s)
			}
		}
		for k, v := range r.Orders {
			c.outcomes["as order "+k] += v
		}
	}
	for i := int64(0); i < pre; i++ {
		c.nontrivial.add(fmt.Sprint(i))
	}
	c.depth = int(maxd)
	c.extra["schedules"] = c.evals.Load()
	c.extra["request_sets"] = tasks
	c.extra["request_sets_capped"] = capped
	c.extra["uncontrolled_blockings"] = lost
}

// shardMain is the child's side.
func shardMain(t *testing.T, id string, body func(c *Check, k, n int, res *shardResult, flush func())) bool {
	s := os.Getenv("VERIF_SHARD")
	if s == "" {
		return false
	}
	var k, n int
	fmt.Sscanf(s, "%d/%d", &k, &n)
	go func() {
		for {
			realMs.Store(time.Now().UnixMilli())
			time.Sleep(20 * time.Millisecond)
		}
	}()
	realMs.Store(time.Now().UnixMilli())
	c := &Check{T: t, ID: id, Tier: os.Getenv("VERIF_TIER"), replay: os.Getenv("VERIF_REPLAY_CASE")}
	var ms int64
	fmt.Sscan(os.Getenv("VERIF_DEADLINE"), &ms)
	c.deadline = time.UnixMilli(ms)
	res := &shardResult{Orders: map[string]int64{}}
	flush := func() {
		data, _ := json.Marshal(res)
		_ = os.WriteFile(os.Getenv("VERIF_SHARD_OUT"), data, 0o644)
		if len(res.Found) > 0 {
			os.Exit(0)
		}
	}
	body(c, k, n, res, flush)
	flush()
	return true
}
