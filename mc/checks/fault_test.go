package checks

// Fault enumeration: failing randomness (C14) and request bodies that break
// off or are malformed (C15).

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"averif/mc/arand"
	oauth2 "github.com/256dpi/oauth2/v2"
)

// --------------------------------------------------------------------- C14

// faultRand delivers good bytes of a deterministic stream and then fails.
type faultRand struct {
	mu     sync.Mutex
	good   int   // bytes delivered before the failure; <0: never fails
	err    error // the failure
	chunk  int   // bytes per read, 0: as asked
	zero   bool  // every other read delivers nothing
	joined bool  // the failure comes together with the last bytes
	times  int   // how often it fails before it recovers, 0: for ever
	pos    int
	reads  int
	fails  int
}

func (r *faultRand) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.reads++
	if r.reads > 100000 {
		return 0, errors.New("harness: endless reading")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.zero && r.reads%2 == 1 {
		return 0, nil
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	failing := r.good >= 0 && (r.times == 0 || r.fails < r.times)
	if failing {
		left := r.good - r.pos
		if left <= 0 {
			r.fails++
			return 0, r.err
		}
		if n > left {
			n = left
		}
	}
	for i := 0; i < n; i++ {
		p[i] = streamByte(r.pos)
		r.pos++
	}
	if failing && r.joined && r.pos >= r.good {
		r.fails++
		return n, r.err
	}
	return n, nil
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func withRand(r io.Reader, f func()) {
	old := arand.Set(r)
	defer arand.Set(old)
	f()
}

func TestC14(t *testing.T) {
	c := newCheck(t, "C14", "exploration",
		"every grant that issues credentials x 3 server states x every byte offset at which the random source may fail (0 to the number of bytes the grant consumes) x 5 failure kinds x 4 ways of delivery, failing for ever or once; then the credentials of the server are compared by use with the state before, and the request is repeated with a healthy source; every piece size from 1 byte to the whole. Non-trivial: the source failed or delivered short.")
	c.assume = []string{"a source that fails once and then recovers within the same request may lead to a refusal or to full-strength credentials"}
	defer c.finish()
	m := &Model{Cfg: baseCfg}
	states := []struct {
		name string
		h    []Op
	}{
		{"plain", []Op{{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}}},
		{"warm", []Op{{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "p1", Us: "u2"}, {K: "xch", Cl: "p1", Cr: 3}, {K: "rfr", Cl: "p1", Cr: 5}, {K: "cc", Cl: "c2"}, {K: "adv", D: 10 * time.Second}}},
		{"chain", []Op{{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "xch", Cl: "c1", Cr: 1}, {K: "rev", Cl: "c1", Cr: 2}}},
	}
	grants := func(w *World) []Op {
		out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "p1", Us: "u2"}, {K: "cc", Cl: "c1", Sc: "foo"}, {K: "imp", Cl: "c1", Us: "u1", Sc: "foo", St: "s"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}}
		for _, k := range w.Creds {
			if k.live() && k.Kind == 'C' {
				out = append(out, Op{K: "xch", Cl: k.Client, Cr: k.ID})
			}
			if k.live() && k.Kind == 'R' {
				out = append(out, Op{K: "rfr", Cl: k.Client, Cr: k.ID})
			}
		}
		return out
	}
	errs := []struct {
		name string
		e    error
	}{{"error", errors.New("broken")}, {"EOF", io.EOF}, {"unexpected EOF", io.ErrUnexpectedEOF}, {"timeout", timeoutErr{}}, {"short buffer", io.ErrShortBuffer}}
	modes := []faultRand{{}, {joined: true}, {chunk: 1}, {chunk: 5, zero: true}}
	lens := []int{16}
	if !c.thorough() {
		errs = errs[:3]
	} else {
		lens = []int{16, 17, 24, 32, 48, 64}
		modes = append(modes, faultRand{chunk: 7, joined: true}, faultRand{zero: true})
	}
	for _, l := range lens {
		m := &Model{Cfg: func() *Cfg { g := m.Cfg(); g.KeyLen = l; return g }}
		c.parallel(1, func(int) {
			for _, st := range states {
				for _, o := range grants(m.run(st.h)) {
					// how many bytes does the grant consume, and what does it deliver?
					probe := &faultRand{good: -1}
					var want *Tokens
					withRand(probe, func() { w := m.run(st.h); probe.pos = 0; want = w.do(o).tokens() })
					used := probe.pos
					base := fmt.Sprintf("len %d %s %s", l, st.name, o.key())
					c.Case(base+" healthy", false, func() string {
						if want == nil {
							return "grant failed with a healthy random source"
						}
						return ""
					})
					if want == nil {
						continue
					}
					for k := 0; k < used; k++ {
						for _, e := range errs {
							for mi := range modes {
								for _, times := range []int{0, 1} {
									if c.stopped() || c.timeUp() {
										return
									}
									if modes[mi].joined && k == 0 {
										continue
									}
									key := fmt.Sprintf("%s after %d bytes %s mode %d times %d", base, k, e.name, mi, times)
									c.Case(key, true, func() string {
										src := func() *faultRand {
											f := faultRand{chunk: modes[mi].chunk, zero: modes[mi].zero, joined: modes[mi].joined}
											f.good, f.err, f.times = k, e.e, times
											return &f
										}
										failed := func() (w *World, r *Resp, n, cnt int) {
											w = m.run(st.h)
											n, cnt = len(w.Creds), w.issuedCount()
											withRand(src(), func() { r = w.send(w.build(o)) })
											return
										}
										w, r, n, cnt := failed()
										if strings.Contains(r.Panic, "left locked") {
											return "the server is left locked"
										}
										if t := r.tokens(); t != nil || r.Code == 200 {
											if times == 0 {
												return fmt.Sprintf("answered %s although the random source failed", r)
											}
											if msg := fullStrength(w, r); msg != "" {
												return msg
											}
											return ""
										}
										for _, s := range []string{r.Body, r.H.Get("Location")} {
											if strings.Contains(s, "access_token") || strings.Contains(s, "refresh_token") || strings.Contains(s, "code=") {
												return "part of a credential was delivered: " + r.String()
											}
										}
										if got := w.issuedCount(); got > cnt {
											return fmt.Sprintf("the server holds %d credentials instead of %d after a failed request", got, cnt)
										}
										if msg := sameFuture(func() *World { return m.run(st.h) }, func() *World { w, _, _, _ := failed(); return w }, n, nil); msg != "" {
											return msg
										}
										// the same request succeeds once the source is healthy
										w, _, _, _ = failed()
										r = w.do(o)
										if r.Panic != "" || r.tokens() == nil {
											return "after the source recovered, the same request is refused: " + r.String()
										}
										return fullStrength(w, r)
									})
								}
							}
						}
					}
					// short reads
					for chunk := 1; chunk <= used+1; chunk++ {
						for _, zero := range []bool{false, true} {
							c.Case(fmt.Sprintf("%s pieces of %d zero=%v", base, chunk, zero), true, func() string {
								w := m.run(st.h)
								var r *Resp
								withRand(&faultRand{good: -1, chunk: chunk, zero: zero}, func() { r = w.do(o) })
								t := r.tokens()
								if t == nil {
									return "refused although the random source works: " + r.String()
								}
								if t.Access != want.Access || t.Refresh != want.Refresh || t.Code != want.Code {
									return fmt.Sprintf("short reads change the credentials: %+v instead of %+v", t, want)
								}
								return fullStrength(w, r)
							})
						}
					}
				}
			}
		})
	}
	// the generator itself
	c.parallel(1, func(int) {
		for l := 0; l <= 70; l++ {
			for k := 0; k <= l; k++ {
				for _, e := range errs {
					for mi := range modes {
						if modes[mi].joined && k == 0 {
							continue
						}
						c.Case(fmt.Sprintf("generate %d after %d %s mode %d", l, k, e.name, mi), k < l, func() string {
							f := faultRand{chunk: modes[mi].chunk, zero: modes[mi].zero, joined: modes[mi].joined, good: k, err: e.e}
							var tk *oauth2.HS256Token
							var err error
							withRand(&f, func() { tk, err = oauth2.GenerateHS256Token([]byte("secret"), l) })
							if k < l {
								if err == nil || tk != nil {
									return fmt.Sprintf("GenerateHS256Token(%d) = %v, %v with only %d random bytes", l, tk, err, k)
								}
								f = faultRand{chunk: modes[mi].chunk, zero: modes[mi].zero, joined: modes[mi].joined, good: k, err: e.e}
								panicked := false
								withRand(&f, func() {
									defer func() { panicked = recover() != nil }()
									oauth2.MustGenerateHS256Token([]byte("secret"), l)
								})
								if !panicked {
									return "MustGenerateHS256Token returned a token"
								}
								return ""
							}
							if err != nil || tk == nil || len(tk.Key) != l {
								return fmt.Sprintf("GenerateHS256Token(%d) = %v, %v", l, tk, err)
							}
							return ""
						})
					}
				}
			}
		}
	})
}

// fullStrength checks the credentials of an answer for length and signature.
func fullStrength(w *World, r *Resp) string {
	t := r.tokens()
	if t == nil {
		return "no credential in " + r.String()
	}
	for _, s := range []string{t.Access, t.Refresh, t.Code} {
		if s == "" {
			continue
		}
		key, _, genuine, canonical := refToken([]byte(w.Cfg.Secret), s)
		if !genuine || !canonical || len(key) != w.Cfg.KeyLen {
			return fmt.Sprintf("%q is not a full-strength credential", s)
		}
		zeros := 0
		for _, b := range key {
			if b == 0 {
				zeros++
			} else {
				zeros = 0
			}
			if zeros > 5 {
				return fmt.Sprintf("the random part of %q is partly empty", s)
			}
		}
	}
	if t.Access != "" && t.Access == t.Refresh {
		return "access and refresh token are equal"
	}
	return ""
}

// --------------------------------------------------------------------- C15

// brokenBody delivers n bytes and then fails.
type brokenBody struct {
	s      string
	n, pos int
	chunk  int
	joined bool
	err    error
}

func (b *brokenBody) Read(p []byte) (int, error) {
	left := b.n - b.pos
	if left <= 0 {
		return 0, b.err
	}
	n := len(p)
	if n > left {
		n = left
	}
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	copy(p, b.s[b.pos:b.pos+n])
	b.pos += n
	if b.joined && b.pos == b.n {
		return n, b.err
	}
	return n, nil
}
func (b *brokenBody) Close() error { return nil }

func TestC15(t *testing.T) {
	c := newCheck(t, "C15", "exploration",
		"every valid request of every endpoint and grant in 3 server states x every byte offset (including the full length) at which its body fails with a read error x 4 errors x 3 ways of delivery, with and without declared length; and x every position at which each of 9 malformed escapes can be inserted; each followed by comparing the usability of every credential. Non-trivial: every case.")
	defer c.finish()
	states := []struct {
		name string
		h    []Op
	}{
		{"plain", []Op{{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}}},
		{"warm", []Op{{K: "code", Cl: "p1", Us: "u2"}, {K: "xch", Cl: "p1", Cr: 0}, {K: "rfr", Cl: "p1", Cr: 2}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}}},
		{"empty", nil},
	}
	m := &Model{Cfg: baseCfg}
	type job struct {
		st int
		o  Op
	}
	var jobs []job
	c.parallel(1, func(int) {
		for i, st := range states {
			w := m.run(st.h)
			for _, o := range baseOps(w) {
				if o.K == "res" {
					continue
				}
				jobs = append(jobs, job{i, o})
				if o.K != "imp" && o.K != "code" && o.K != "rev" && o.K != "int" {
					o.B = true // client credentials in the body
					jobs = append(jobs, job{i, o})
				}
				if o.K == "rev" || o.K == "int" {
					o.H = "access_token"
					jobs = append(jobs, job{i, o})
				}
			}
		}
	})
	errs := []struct {
		name string
		e    error
	}{{"unexpected EOF", io.ErrUnexpectedEOF}, {"error", errors.New("connection reset")}, {"timeout", timeoutErr{}}, {"too large", &http.MaxBytesError{Limit: 10}}}
	refusedAs := isErr(400, "invalid_request")
	run := func(h []Op, send func(w *World) *Resp) string {
		w := m.run(h)
		n, cnt := len(w.Creds), w.issuedCount()
		r := send(w)
		if r.Panic != "" {
			return "panic: " + r.Panic
		}
		if msg := refusedAs(r); msg != "" {
			return msg + "\nanswer: " + r.String()
		}
		if r.isRedirect() || r.H.Get("Location") != "" {
			return "the refusal is a redirect: " + r.String()
		}
		if r.tokens() != nil {
			return "a credential was delivered: " + r.String()
		}
		if got := w.issuedCount(); got != cnt {
			return fmt.Sprintf("the server holds %d credentials instead of %d", got, cnt)
		}
		return sameFuture(func() *World { return m.run(h) }, func() *World { w := m.run(h); send(w); return w }, n, nil)
	}
	c.parallel(len(jobs), func(i int) {
		j := jobs[i]
		h := states[j.st].h
		base := fmt.Sprintf("%s %s", states[j.st].name, j.o.key())
		q := m.run(h).build(j.o)
		body := q.Body
		// a larger body with padding crosses read-buffer boundaries
		bodies := []string{body}
		if j.st == 0 {
			bodies = append(bodies, body+"&pad="+strings.Repeat("x", 1200))
		}
		for bi, body := range bodies {
			for k := 0; k <= len(body); k++ {
				if bi == 1 && k > len(q.Body)+6 && k < len(body)-2 && (k-500)%256 > 1 && !c.thorough() {
					continue
				}
				for _, e := range errs {
					for mode := 0; mode < 3; mode++ {
						if (mode == 1 && k == 0) || c.stopped() || c.timeUp() {
							continue
						}
						if !c.thorough() && mode == 2 && e.name != "unexpected EOF" {
							continue
						}
						for _, declared := range []bool{true, false} {
							if !declared && (mode != 0 || (bi == 1 && !c.thorough())) {
								continue
							}
							c.Case(fmt.Sprintf("%s body %d ends at %d with %s mode %d declared %v", base, bi, k, e.name, mode, declared), true, func() string {
								return run(h, func(w *World) *Resp {
									q := w.build(j.o)
									r := q.http()
									bb := &brokenBody{s: q.Body + body[len(q.Body):], n: k, err: e.e, joined: mode == 1}
									if mode == 2 {
										bb.chunk = 3
									}
									r.Body, r.ContentLength = bb, int64(len(body))
									if !declared {
										r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
									}
									w.fresh()
									return serve(w.S, r, nil)
								})
							})
						}
					}
				}
			}
		}
		for _, bad := range []string{"%", "%z", "%zz", "%1", "%1z", "%%", "%u0041", "% 1", "&%=1&", "&x=%&", "&%zz&"} {
			for k := 0; k <= len(body); k++ {
				if c.stopped() || c.timeUp() {
					return
				}
				s := body[:k] + bad + body[k:]
				if _, ok := formDecode(s); ok {
					continue // the insertion happens to be well-formed
				}
				c.Case(fmt.Sprintf("%s %q inserted at %d", base, bad, k), true, func() string {
					return run(h, func(w *World) *Resp {
						q := w.build(j.o)
						q.Body = q.Body[:k] + bad + q.Body[k:]
						return w.send(q)
					})
				})
			}
		}
	})
}

// --------------------------------------------------------------------- C35

// brokenWriter records what it is given, but the connection behind it takes
// only some bytes, or breaks in the middle of the request.
type brokenWriter struct {
	*recorder
	left     int // bytes taken
	err      error
	onHeader func()
	onWrite  func()
	given    []int // the sizes of the writes
	after    int   // writes after the first failure
	failed   bool
}

func (w *brokenWriter) WriteHeader(code int) {
	if w.onHeader != nil {
		w.onHeader()
	}
	w.recorder.WriteHeader(code)
}

func (w *brokenWriter) Write(p []byte) (int, error) {
	if w.onWrite != nil {
		w.onWrite()
	}
	if w.failed {
		w.after++
	}
	_, _ = w.recorder.Write(p)
	w.given = append(w.given, len(p))
	if w.err == nil {
		return len(p), nil
	}
	if len(p) <= w.left && (len(p) > 0 || w.left > 0) {
		w.left -= len(p)
		return len(p), nil
	}
	n := min(w.left, len(p))
	w.left, w.failed = 0, true
	return n, w.err
}

// ableWriter can do everything the writers of net/http can.
type ableWriter struct {
	*brokenWriter
	hijacked int
}

func (w *ableWriter) Flush()                            {}
func (w *ableWriter) FlushError() error                 { return w.err }
func (w *ableWriter) CloseNotify() <-chan bool          { c := make(chan bool, 1); c <- true; return c }
func (w *ableWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *ableWriter) ReadFrom(r io.Reader) (int64, error) {
	b, _ := io.ReadAll(r)
	n, err := w.Write(b)
	return int64(n), err
}
func (w *ableWriter) Push(string, *http.PushOptions) error { return http.ErrNotSupported }
func (w *ableWriter) SetReadDeadline(time.Time) error      { return w.err }
func (w *ableWriter) SetWriteDeadline(time.Time) error     { return w.err }
func (w *ableWriter) EnableFullDuplex() error              { return w.err }
func (w *ableWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.hijacked++
	return nil, nil, http.ErrHijacked
}

type cancelBody struct {
	s      string
	pos    int
	at     int
	cancel func()
}

func (b *cancelBody) Read(p []byte) (int, error) {
	if b.pos >= b.at {
		b.cancel()
	}
	if b.pos == len(b.s) {
		return 0, io.EOF
	}
	n := min(len(p), len(b.s)-b.pos)
	if b.pos < b.at {
		n = min(n, b.at-b.pos)
	}
	copy(p, b.s[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}
func (b *cancelBody) Close() error { return nil }

// endedCtx tells timeouts from cancellations as a context with a deadline does.
type endedCtx struct {
	context.Context
	cause error
}

func (c *endedCtx) Err() error {
	if err := c.Context.Err(); err == nil || c.cause != context.DeadlineExceeded {
		return err
	}
	return c.cause
}

// breakage is one way in which a connection can break.
type breakage struct {
	name string
	full bool // the answer is taken completely
	f    func(r *http.Request, w *brokenWriter) *http.Request
	able bool
}

func breakages(body, answer int, all bool) (out []breakage) {
	errs := []struct {
		name string
		e    error
	}{{"closed", net.ErrClosed}, {"broken pipe", &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}}, {"timeout", timeoutErr{}}, {"handler timeout", http.ErrHandlerTimeout}, {"not allowed", http.ErrBodyNotAllowed}, {"short", io.ErrShortWrite}, {"canceled", context.Canceled}, {"EOF", io.EOF}}
	for i, e := range errs {
		for k := 0; k <= answer; k++ {
			if !all && k != 0 && k != answer && k != 1 && (i > 1 || k%7 != 0) {
				continue
			}
			for _, able := range []bool{false, true} {
				if able && k != 0 && k != answer/2 {
					continue
				}
				out = append(out, breakage{fmt.Sprintf("%s after %d bytes able=%v", e.name, k, able), false, func(r *http.Request, w *brokenWriter) *http.Request {
					w.left, w.err = k, e.e
					return r
				}, able})
			}
		}
	}
	out = append(out, breakage{"healthy with all interfaces", true, func(r *http.Request, w *brokenWriter) *http.Request { return r }, true})
	for _, cause := range []error{context.Canceled, context.DeadlineExceeded, errors.New("gone")} {
		end := func(r *http.Request) (*http.Request, func()) {
			ctx, cancel := context.WithCancelCause(context.Background())
			return r.WithContext(&endedCtx{ctx, cause}), func() { cancel(cause) }
		}
		out = append(out, breakage{fmt.Sprintf("ended before (%v)", cause), true, func(r *http.Request, w *brokenWriter) *http.Request {
			r, cancel := end(r)
			cancel()
			return r
		}, false})
		out = append(out, breakage{fmt.Sprintf("ended before (%v), nothing taken", cause), false, func(r *http.Request, w *brokenWriter) *http.Request {
			r, cancel := end(r)
			cancel()
			w.err = net.ErrClosed
			return r
		}, true})
		out = append(out, breakage{fmt.Sprintf("ended at the header (%v)", cause), true, func(r *http.Request, w *brokenWriter) *http.Request {
			r, w.onHeader = end(r)
			return r
		}, false})
		out = append(out, breakage{fmt.Sprintf("ended at the body (%v)", cause), false, func(r *http.Request, w *brokenWriter) *http.Request {
			r, w.onWrite = end(r)
			w.err = net.ErrClosed
			return r
		}, false})
		for k := 0; k <= body; k++ {
			if k != 0 && k != body && k != body/2 && (!all || cause != context.Canceled) {
				continue
			}
			out = append(out, breakage{fmt.Sprintf("ended after %d bytes of the request (%v)", k, cause), true, func(r *http.Request, w *brokenWriter) *http.Request {
				r, cancel := end(r)
				if r.Body != nil {
					s, _ := io.ReadAll(r.Body)
					r.Body = &cancelBody{s: string(s), at: k, cancel: cancel}
				}
				return r
			}, false})
		}
	}
	return out
}

func TestC35(t *testing.T) {
	c := newCheck(t, "C35", "exploration",
		"every valid request of every endpoint and grant, every replay, and every request derived from a valid one by one defect, in 4 server states, x every way in which the connection breaks: the answer is not taken beyond any byte x 8 errors, with plain and fully featured response writers, and the request's context ends before, at each byte of the request's body, at the header or at the body of the answer; state and attempted answer must equal those of the undisturbed request. Non-trivial: every case.")
	c.assume = []string{"a response writer reports failures as errors; one that panics is not considered"}
	defer c.finish()
	states := []struct {
		name string
		h    []Op
	}{
		{"plain", []Op{{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}}},
		{"warm", []Op{{K: "code", Cl: "p1", Us: "u2"}, {K: "xch", Cl: "p1", Cr: 0}, {K: "rfr", Cl: "p1", Cr: 2}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}}},
		{"rich", richHistory()},
		{"empty", nil},
	}
	m := &Model{Cfg: baseCfg}
	type job struct {
		st     int
		o      Op
		defect int // -1: none
	}
	var jobs []job
	c.parallel(1, func(int) {
		for i, st := range states {
			w := m.run(st.h)
			l := baseOps(w)
			for _, k := range w.Creds {
				if k.Kind == 'C' && k.Spent {
					l = append(l, Op{K: "xch", Cl: k.Client, Cr: k.ID})
				}
			}
			for _, o := range l {
				jobs = append(jobs, job{i, o, -1})
				for d := range defects(w, o) {
					if i < 3 || c.thorough() {
						jobs = append(jobs, job{i, o, d})
					}
				}
			}
		}
	})
	c.parallel(len(jobs), func(i int) {
		j := jobs[i]
		h := states[j.st].h
		name := fmt.Sprintf("%s %s defect %d", states[j.st].name, j.o.key(), j.defect)
		request := func(w *World) Req {
			if j.defect < 0 {
				return w.build(j.o)
			}
			return defects(w, j.o)[j.defect].q
		}
		send := func(b *breakage) (w *World, r *Resp, bw *brokenWriter, hijacked int) {
			w = m.run(h)
			q := request(w)
			hr := q.http()
			bw = &brokenWriter{recorder: newRecorder()}
			var rw http.ResponseWriter = bw
			if b != nil {
				hr = b.f(hr, bw)
				if b.able {
					aw := &ableWriter{brokenWriter: bw}
					rw = aw
					defer func() { hijacked = aw.hijacked }()
				}
			}
			w.fresh()
			ok, pan := false, ""
			func() {
				defer func() {
					if p := recover(); p != nil {
						pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
					}
				}()
				if q.Path == resourcePath {
					ok = w.S.Authorize(rw, hr, oauth2.Scope(q.Need))
				} else {
					w.S.ServeHTTP(rw, hr)
				}
			}()
			r = bw.recorder.resp()
			r.OK, r.Panic = ok, pan
			if locked(w.S) {
				r.Panic += " [the server is left locked after the request]"
			}
			w.observe(j.o, r)
			return
		}
		w0, r0, _, _ := send(nil)
		want, canon, n, cnt := w0.mask(r0), w0.canon(), len(m.run(h).Creds), w0.issuedCount()
		l := breakages(len(request(m.run(h)).Body), len(r0.Body), c.thorough() || j.defect < 0)
		for bi := range l {
			b := &l[bi]
			if c.stopped() || c.timeUp() {
				return
			}
			c.Case(name+" "+b.name, true, func() string {
				n := n
				w, r, bw, hijacked := send(b)
				if r.Panic != "" {
					return "panic: " + r.Panic
				}
				if hijacked > 0 {
					return "the connection is taken over"
				}
				got := w.mask(r)
				if got != want {
					// an answer in pieces may end early
					whole := w.mask(&Resp{Code: r.Code, H: r.H, OK: r.OK, Writes: r.Writes})
					if b.full || whole != w0.mask(&Resp{Code: r0.Code, H: r0.H, OK: r0.OK, Writes: r0.Writes}) || len(r.Body) >= len(r0.Body) || !bw.failed {
						return fmt.Sprintf("the answer changes from [%s] to [%s]", want, got)
					}
					c.outcome("answer in pieces")
					if w.issuedCount() != cnt {
						return fmt.Sprintf("the server holds %d credentials instead of %d", w.issuedCount(), cnt)
					}
				} else if w.canon() == canon {
					if refused(r) {
						c.outcome("refused alike")
					} else {
						c.outcome("served alike")
					}
					return ""
				}
				if got == want {
					n = len(w0.Creds)
				}
				return sameFutureOf(func() *World { w, _, _, _ := send(nil); return w }, func() *World { w, _, _, _ := send(b); return w }, n, nil, true)
			})
		}
	})
}
