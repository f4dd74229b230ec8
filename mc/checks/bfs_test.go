package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// Pre is the state of the operated-on credential before the operation.
type Pre struct {
	Cred *Cred // copy, nil if none
	Live bool
	Dead bool
	N    int // credentials known before
}

// Model is a bounded history exploration on the real server.
type Model struct {
	Name  string
	Cfg   func() *Cfg
	Init  func(w *World) // optional: provision the initial state
	Ops   func(w *World) []Op
	Depth int
	// NoMerge explores every history, whatever state it leads to: state that
	// is not part of the server object counts, too.
	NoMerge bool
	// Step is evaluated on every transition.
	Step func(x *Ctx) string
	// State is evaluated once in every distinct state on a throw-away copy;
	// fork rebuilds the same state as often as needed.
	State func(w *World, fork func() *World) string
	// StateH is like State, with the history itself.
	StateH func(h []Op) string
}

// Ctx is one executed transition.
type Ctx struct {
	m *Model
	h []Op
	W *World
	O Op
	P Pre
	R *Resp
}

// Before and After rebuild the worlds around the transition.
func (x *Ctx) Before() *World { return x.m.run(x.h) }
func (x *Ctx) After() *World {
	return x.m.run(append(append([]Op{}, x.h...), x.O))
}

// issued returns the credentials registered by this transition.
func (x *Ctx) issued() []*Cred { return x.W.Creds[x.P.N:] }

// vector tells for each of the first n credentials how it can be used now, by
// really using it: admission at a resource, introspection, redemption. It
// consumes the world.
func (w *World) vector(n int) []string {
	v := make([]string, n)
	for i := 0; i < n; i++ {
		if c := w.Creds[i]; c.Kind == 'A' {
			ok, r := w.use(c)
			v[i] = fmt.Sprintf("use=%v/%d", ok, r.Code)
		}
	}
	for i := 0; i < n; i++ {
		if c := w.Creds[i]; c.Kind != 'C' {
			a, r := w.active(c)
			v[i] += fmt.Sprintf(" active=%v %s", a, w.norm(r))
		}
	}
	for i := 0; i < n; i++ {
		if c := w.Creds[i]; c.Kind == 'R' {
			ok, r := w.use(c)
			v[i] += fmt.Sprintf(" use=%v/%d", ok, r.Code)
		}
	}
	for i := 0; i < n; i++ {
		if c := w.Creds[i]; c.Kind == 'C' && !c.Spent {
			ok, r := w.use(c)
			v[i] += fmt.Sprintf(" use=%v/%d", ok, r.Code)
		}
	}
	return v
}

// norm renders an introspection answer with its expiry relative to now.
func (w *World) norm(r *Resp) string {
	m := r.json()
	if m == nil {
		return fmt.Sprint(r.Code)
	}
	if e, ok := m["exp"].(float64); ok {
		m["exp"] = int64(e) - w.last.Unix()
	}
	b, _ := json.Marshal(m)
	return fmt.Sprint(r.Code, " ", string(b))
}

// late is like vector, but looks at the future: every credential is used and
// introspected 1 ms before its lifespan ends, in the order of expiry. It
// consumes the world.
func (w *World) late(n int) []string {
	v := make([]string, n)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	end := func(i int) time.Time { return w.Creds[i].At.Add(w.Creds[i].Life) }
	sort.SliceStable(order, func(a, b int) bool { return end(order[a]).Before(end(order[b])) })
	for _, i := range order {
		c := w.Creds[i]
		if d := end(i).Add(-time.Millisecond).Sub(w.last); d > 0 {
			w.sleep(d)
		}
		if c.Kind == 'C' && c.Spent {
			continue
		}
		if c.Kind != 'C' {
			_, r := w.active(c)
			v[i] = w.norm(r) + " "
		}
		ok, r := w.use(c)
		v[i] += fmt.Sprintf("use=%v/%d", ok, r.Code)
	}
	return v
}

// issuedCount counts the credentials the server holds (exported registries).
func (w *World) issuedCount() int {
	n := 0
	v := reflect.ValueOf(w.S).Elem()
	for _, f := range []string{"AccessTokens", "RefreshTokens", "AuthorizationCodes"} {
		if m := v.FieldByName(f); m.IsValid() && m.Kind() == reflect.Map {
			n += m.Len()
		}
	}
	return n
}

// sameFuture compares the usability of the first n credentials, except those
// excluded, between two states, now and later.
func sameFuture(before, after func() *World, n int, except func(c *Cred) bool) string {
	return sameFutureOf(before, after, n, except, false)
}

// sameFutureOf tries the credentials already spent as well if told so: both
// worlds must then have gone through the same requests.
func sameFutureOf(before, after func() *World, n int, except func(c *Cred) bool, spent bool) string {
	now := func(f func() *World) ([]string, *World) { w := f(); return w.vector(n), w }
	diff := func(a, b []string, w *World, when string) string {
		for i := range a {
			if except != nil && except(w.Creds[i]) {
				continue
			}
			if a[i] != b[i] {
				return fmt.Sprintf("%s, credential #%d (%c of %s) changed from [%s] to [%s]", when, i, w.Creds[i].Kind, w.Creds[i].Client, a[i], b[i])
			}
		}
		return ""
	}
	if n == 0 {
		return ""
	}
	a, _ := now(before)
	b, w := now(after)
	if msg := diff(a, b, w, "afterwards"); msg != "" {
		return msg
	}
	if before().canon() == after().canon() {
		return ""
	}
	la := before().late(n)
	w = after()
	if msg := diff(la, w.late(n), w, "until its expiry"); msg != "" {
		return msg
	}
	// each credential alone: using one may change what the next one is good for
	for i := 0; i < n; i++ {
		if c := w.Creds[i]; (except != nil && except(c)) || c.Spent && !spent {
			continue
		}
		for _, p := range alone {
			wa := before()
			a := p.f(wa, wa.Creds[i])
			wb := after()
			if b := p.f(wb, wb.Creds[i]); a != b {
				return fmt.Sprintf("%s, credential #%d (%c of %s) changed from [%s] to [%s]", p.name, i, w.Creds[i].Kind, w.Creds[i].Client, a, b)
			}
		}
	}
	return ""
}

// alone are the probes of a single credential in an otherwise untouched world.
var alone = []struct {
	name string
	f    func(w *World, c *Cred) string
}{
	{"used alone", func(w *World, c *Cred) string {
		ok, r := w.use(c)
		return fmt.Sprintf("use=%v/%d", ok, r.Code)
	}},
	{"introspected alone", func(w *World, c *Cred) string {
		if c.Kind == 'C' {
			return ""
		}
		_, r := w.active(c)
		return w.norm(r)
	}},
	{"used alone just before its expiry", func(w *World, c *Cred) string {
		if d := c.At.Add(c.Life - time.Millisecond).Sub(w.last); d > 0 {
			w.sleep(d)
		}
		ok, r := w.use(c)
		return fmt.Sprintf("use=%v/%d", ok, r.Code)
	}},
}

// unaffected compares the usability of every credential that existed before
// the transition, except those excluded, before and after it.
func (x *Ctx) unaffected(except func(c *Cred) bool) string {
	return sameFuture(x.Before, x.After, x.P.N, except)
}

type node struct {
	parent *node
	op     Op
	depth  int
}

func (n *node) hist() []Op {
	var h []Op
	for x := n; x != nil && x.depth > 0; x = x.parent {
		h = append(h, x.op)
	}
	for i, j := 0, len(h)-1; i < j; i, j = i+1, j-1 {
		h[i], h[j] = h[j], h[i]
	}
	return h
}

func (m *Model) fresh() *World {
	w := newWorld(m.Cfg())
	if m.Init != nil {
		m.Init(w)
	}
	return w
}

func (m *Model) run(h []Op) *World {
	w := m.fresh()
	for _, o := range h {
		w.do(o)
	}
	return w
}

func pre(w *World, o Op) Pre {
	p := Pre{N: len(w.Creds)}
	switch o.K {
	case "xch", "rfr", "rev", "int", "res":
		if o.X == "" && o.Cr >= 0 && o.Cr < len(w.Creds) {
			c := *w.Creds[o.Cr]
			p.Cred, p.Live, p.Dead = &c, c.live(), c.dead()
		}
	}
	return p
}

// stepCheck executes h then o and evaluates the step oracle.
func (m *Model) stepCheck(h []Op, o Op) (w *World, msg string) {
	w = m.run(h)
	p := pre(w, o)
	r := w.do(o)
	if r.Panic != "" {
		return w, "request panicked or left the server locked: " + r.Panic
	}
	if m.Step != nil {
		msg = m.Step(&Ctx{m, h, w, o, p, r})
	}
	if msg != "" {
		msg += "\nanswer: " + r.String()
	}
	return w, msg
}

func (m *Model) stateCheck(h []Op) string {
	if m.StateH != nil {
		return m.StateH(h)
	}
	if m.State == nil {
		return ""
	}
	return m.State(m.run(h), func() *World { return m.run(h) })
}

// explore visits every history up to the depth bound, merging histories that
// lead to the same canonical state.
func (c *Check) explore(m *Model) {
	seen := &shardSet{}
	key := func(h []Op) string { return m.Name + ": " + histKey(h) }
	// initial state
	root := &node{}
	level := []*node{root}
	synctest.Test(c.T, func(*testing.T) {
		w := m.fresh()
		seen.add(w.canon())
		c.states.Add(1)
		if msg := guard(func() string { return m.stateCheck(nil) }); msg != "" {
			c.report(key(nil), msg, nil)
		}
	})
	if m.Depth > c.depth {
		c.depth = m.Depth
	}
	for d := 0; d < m.Depth && len(level) > 0; d++ {
		next := make([][]*node, len(level))
		c.parallel(len(level), func(i int) {
			n := level[i]
			h := n.hist()
			var ops []Op
			if msg := guard(func() string { ops = m.Ops(m.run(h)); return "" }); msg != "" {
				return
			}
			for _, o := range ops {
				if c.stopped() {
					return
				}
				hk := append(append([]Op{}, h...), o)
				if c.replay != "" && !strings.HasPrefix(c.replay, key(hk)) {
					continue
				}
				c.progress.Add(1)
				c.curCase.Store(m.Name)
				c.transitions.Add(1)
				c.evals.Add(1)
				c.traces.Add(1)
				var w *World
				msg := guard(func() string { var s string; w, s = m.stepCheck(h, o); return s })
				if msg != "" {
					c.report(key(hk), msg, func() string {
						return guard(func() string { _, s := m.stepCheck(h, o); return s })
					})
					continue
				}
				if w == nil {
					continue
				}
				can := w.canon()
				if !seen.add(can) && !m.NoMerge {
					continue
				}
				c.states.Add(1)
				if len(w.Creds) > 0 {
					c.nontrivial.add(m.Name + can)
				}
				if n := c.states.Load(); n&0x3ff == 0 {
					// determinism of the harness: same history, same state
					if can2 := m.run(hk).canon(); can2 != can {
						c.mu.Lock()
						c.flaky = append(c.flaky, "replay divergence: "+key(hk))
						c.mu.Unlock()
					}
				}
				c.sample(key(hk), "")
				if msg := guard(func() string { return m.stateCheck(hk) }); msg != "" {
					c.report(key(hk), msg, func() string { return guard(func() string { return m.stateCheck(hk) }) })
					continue
				}
				next[i] = append(next[i], &node{n, o, n.depth + 1})
			}
		})
		level = level[:0:0]
		for _, l := range next {
			level = append(level, l...)
		}
		c.mu.Lock()
		if c.extra["levels"] == nil {
			c.extra["levels"] = map[string][]int{}
		}
		lv := c.extra["levels"].(map[string][]int)
		lv[m.Name] = append(lv[m.Name], len(level))
		c.mu.Unlock()
		if c.timeUp() {
			c.mu.Lock()
			c.extra["capped"] = fmt.Sprintf("%s: time budget reached at depth %d", m.Name, d+1)
			c.mu.Unlock()
			return
		}
		if c.stopped() {
			return
		}
	}
}
