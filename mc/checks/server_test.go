package checks

// Properties of single requests in reached states (C07, C09, C10, C12): full
// products of request features on the real server, each followed by a
// comparison of all credentials' usability.

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"path"
	"strings"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// ------------------------------------------------------------------- helpers

// refusedClean executes a request that must be refused in the state reached by
// h; want judges the answer. It then compares everything that can be observed
// of the server before and after.
func refusedClean(m *Model, h []Op, build func(w *World) Req, want func(r *Resp) string) string {
	w := m.run(h)
	n, cnt := len(w.Creds), w.issuedCount()
	q := build(w)
	r := w.send(q)
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if msg := want(r); msg != "" {
		return fmt.Sprintf("%s\nrequest: %s\nanswer: %s", msg, q, r)
	}
	if got := w.issuedCount(); got > cnt {
		return fmt.Sprintf("the server holds %d credentials instead of %d\nrequest: %s\nanswer: %s", got, cnt, q, r)
	}
	if r.tokens() != nil {
		return fmt.Sprintf("a credential was delivered\nrequest: %s\nanswer: %s", q, r)
	}
	if msg := sameFuture(func() *World { return m.run(h) }, func() *World { w := m.run(h); w.send(build(w)); return w }, n, nil); msg != "" {
		return fmt.Sprintf("%s\nrequest: %s\nanswer: %s", msg, q, r)
	}
	return ""
}

func (q Req) String() string {
	s := q.Method + " " + q.Path
	if q.Query != "" {
		s += "?" + q.Query
	}
	if q.HasA {
		s += " Authorization=" + fmt.Sprintf("%q", q.Auth)
	}
	if q.CT != "" {
		s += " CT=" + q.CT
	}
	for _, h := range q.HX {
		s += fmt.Sprintf(" %s=%q", h[0], h[1])
	}
	if q.Circ != "" {
		s += " [" + q.Circ + "]"
	}
	return s + " body=" + q.Body
}

// refused tells whether an answer is a refusal.
func refused(r *Resp) bool {
	if r.Code >= 400 {
		return true
	}
	return r.isRedirect() && r.err() != ""
}

func isErr(code int, name string) func(r *Resp) string {
	return func(r *Resp) string {
		if r.Code != code || r.err() != name {
			return fmt.Sprintf("answered %d %q, want %d %q", r.Code, r.err(), code, name)
		}
		return ""
	}
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

// brief quotes s, shortened when it is long.
func brief(s string) string {
	if len(s) > 100 {
		return fmt.Sprintf("%q... (%d bytes)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// nearMisses returns strings that are not s but close to it.
func nearMisses(s string, more ...string) []string { return misses(s, false, more) }

// wideMisses returns more of them.
func wideMisses(s string, more ...string) []string { return misses(s, true, more) }

func misses(s string, wide bool, more []string) []string {
	l := append([]string{"", s + "x", s + s, "x" + s, " " + s, s + " ", s + "\x00", s + "\n", strings.ToUpper(s), strings.ToLower(s), swapCase(s),
		pctEncode(s), base64.StdEncoding.EncodeToString([]byte(s)), "*", "%", "null", s + ":" + s, s + ",", "\"" + s + "\""}, more...)
	for i := 0; i < len(s); i++ {
		l = append(l, s[:i], s[i+1:], s[:i]+s[i+1:], s[:i]+"?"+s[i+1:])
	}
	if wide {
		// decorated by every printable character, as an address, a path, a list
		for x := byte('!'); x < 0x7f; x++ {
			l = append(l, s+string(rune(x)), s+string(rune(x))+"a")
		}
		l = append(l, s+"@example.com", "example.com\\"+s, "a/"+s, "a@"+s, s+"/../"+s, s+"\t", s+"\r\n", s+"\u200b", "\ufeff"+s, s+" a", s+"\x00a", "a:"+s, "a,"+s)
		// longer by round numbers, of nothing and of something
		for _, n := range []int{256, 512, 1 << 10, 1 << 16} {
			l = append(l, s+strings.Repeat("\x00", n), s+strings.Repeat("x", n))
		}
	}
	var out []string
	seen := map[string]bool{s: true}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// --------------------------------------------------------------------- C07

type verdict int

const (
	mustOK verdict = iota
	must401
	must400
	mustRefuse
	either
)

type authVariant struct {
	name        string
	hasH        bool
	h           string
	body, query []string
	token, rest verdict // expectation at the token endpoint / at revocation and introspection
}

func authVariants(w *World, x ClientSpec, wide, thorough bool) []authVariant {
	var out []authVariant
	add := func(a authVariant) { out = append(out, a) }
	var ids, secrets []string
	for _, c := range w.Cfg.Clients {
		if c.ID != x.ID {
			ids = append(ids, c.ID)
			secrets = append(secrets, c.Secret)
		}
	}
	right := func(sec string) verdict {
		if sec == x.Secret {
			return mustOK
		}
		if !x.Conf {
			return either // a public client's secret carries no meaning
		}
		return must401
	}
	nearS := misses(x.Secret, wide, secrets)
	if x.Secret != "" {
		nearS = append(nearS, x.Secret)
	} else {
		nearS = append(nearS, "")
	}
	exists := map[string]bool{}
	for _, c := range w.Cfg.Clients {
		exists[c.ID] = true
	}
	for _, s := range nearS {
		v := right(s)
		add(authVariant{name: "basic secret " + brief(s), hasH: true, h: basic(x.ID, s), token: v, rest: v})
		add(authVariant{name: "body secret " + brief(s), body: []string{"client_id", x.ID, "client_secret", s}, token: v, rest: must400})
		if thorough || len(s) < 3 || s == x.Secret {
			add(authVariant{name: "body secret, query " + brief(s), body: []string{"client_id", x.ID, "client_secret", s}, query: []string{"client_id", x.ID, "client_secret", x.Secret}, token: v, rest: must400})
			add(authVariant{name: "basic secret, query " + brief(s), hasH: true, h: basic(x.ID, s), query: []string{"client_id", x.ID, "client_secret", x.Secret}, token: v, rest: v})
			add(authVariant{name: "basic secret, body right " + brief(s), hasH: true, h: basic(x.ID, s), body: []string{"client_id", x.ID, "client_secret", x.Secret}, token: v, rest: v})
		}
		add(authVariant{name: "basic right, body secret " + brief(s), hasH: true, h: basic(x.ID, x.Secret), body: []string{"client_id", x.ID, "client_secret", s}, token: mustOK, rest: mustOK})
		// a header with characters around the credentials
		add(authVariant{name: "lower-case scheme " + brief(s), hasH: true, h: "basic " + basic(x.ID, s)[6:], token: map[bool]verdict{true: either, false: v}[v == mustOK], rest: map[bool]verdict{true: either, false: mustRefuse}[v == mustOK || v == either]})
	}
	for _, id := range misses(x.ID, wide, nil) {
		if exists[id] || strings.Contains(id, ":") {
			continue
		}
		v := must401
		if id == "" {
			v = must400
		}
		b := v
		if id == "" {
			b = mustRefuse
		}
		for _, s := range []string{x.Secret, ""} {
			add(authVariant{name: "basic id " + brief(id) + " " + brief(s), hasH: true, h: basic(id, s), token: v, rest: b})
			add(authVariant{name: "body id " + brief(id) + " " + brief(s), body: []string{"client_id", id, "client_secret", s}, token: v, rest: must400})
		}
		add(authVariant{name: "basic id, body right " + brief(id), hasH: true, h: basic(id, x.Secret), body: []string{"client_id", x.ID, "client_secret", x.Secret}, token: v, rest: b})
		add(authVariant{name: "basic right, body id " + brief(id), hasH: true, h: basic(x.ID, x.Secret), body: []string{"client_id", id, "client_secret", "z"}, token: mustOK, rest: mustOK})
	}
	for _, o := range w.Cfg.Clients {
		if o.ID != x.ID { // somebody else's valid credentials next to it
			add(authVariant{name: "basic right, body of " + o.ID, hasH: true, h: basic(x.ID, x.Secret), body: []string{"client_id", o.ID, "client_secret", o.Secret}, token: mustOK, rest: mustOK})
			add(authVariant{name: "basic right, query of " + o.ID, hasH: true, h: basic(x.ID, x.Secret), query: []string{"client_id", o.ID, "client_secret", o.Secret}, token: mustOK, rest: mustOK})
		}
	}
	wrongV := must401
	if !x.Conf {
		wrongV = either
	}
	add(authVariant{name: "none", token: must400, rest: must400})
	add(authVariant{name: "query only", query: []string{"client_id", x.ID, "client_secret", x.Secret}, token: must400, rest: must400})
	add(authVariant{name: "body id only", body: []string{"client_id", x.ID}, token: right(""), rest: must400})
	add(authVariant{name: "body secret only", body: []string{"client_secret", x.Secret}, token: must400, rest: must400})
	add(authVariant{name: "body id, query secret", body: []string{"client_id", x.ID}, query: []string{"client_secret", x.Secret}, token: right(""), rest: must400})
	add(authVariant{name: "query id, body secret", query: []string{"client_id", x.ID}, body: []string{"client_secret", x.Secret}, token: must400, rest: must400})
	for _, h := range []string{"", "Basic", "Basic ", "Basic !!!", "Bearer " + basic(x.ID, x.Secret)[6:], "Basic " + base64.StdEncoding.EncodeToString([]byte(x.ID)), basic(x.ID, x.Secret)[6:], "Digest x"} {
		add(authVariant{name: fmt.Sprintf("header %q", h), hasH: true, h: h, token: must400, rest: must400})
		add(authVariant{name: fmt.Sprintf("header %q, body right", h), hasH: true, h: h, body: []string{"client_id", x.ID, "client_secret", x.Secret}, token: either, rest: must400})
		add(authVariant{name: fmt.Sprintf("header %q, body wrong", h), hasH: true, h: h, body: []string{"client_id", x.ID, "client_secret", x.Secret + "x"}, token: map[verdict]verdict{must401: mustRefuse, either: either}[wrongV], rest: must400})
	}
	return out
}

func TestC07(t *testing.T) {
	c := newCheck(t, "C07", "exploration",
		"full product of 6 clients (confidential, confidential with empty secret, public, public with a registered secret, reserved characters) x 8 uses at the three client-authenticated endpoints x ~250 credential placements and near misses x 3 server states; secrets and identifiers of 300 characters changed or cut at every position; every refusal is followed by using all credentials. Non-trivial: the credentials presented are not simply the right ones.")
	c.assume = []string{"malformed Authorization header plus correct form credentials may be accepted or refused at the token endpoint", "secrets presented for public clients are left open"}
	defer c.finish()
	cfg := func() *Cfg {
		g := baseCfg()
		g.Clients = append(g.Clients,
			ClientSpec{"e1", "", "https://e1.example.com/cb", true},
			ClientSpec{"p2", "pub-Secret", "https://p2.example.com/app", false},
			ClientSpec{"c&=1", "s:&=+%zz ü", "https://c6.example.com/cb", true})
		return g
	}
	m := &Model{Cfg: cfg}
	spec := cfg().Clients
	acts := []string{"pw", "cc", "xch", "rfr", "revA", "revR", "intA", "intR"}
	// requests about credentials that are of no use: whatever the answer to the
	// right client, the wrong secret is refused first
	for _, k := range []string{"rev", "int", "xch", "rfr"} {
		for _, f := range []string{"unknown", "unknown/hint", "malformed", "spent", "revoked", "expired", "foreign", "baduser"} {
			if f == "unknown/hint" && (k == "xch" || k == "rfr") {
				continue
			}
			if f == "baduser" {
				if k != "rev" {
					continue
				}
				acts = append(acts, "pw/baduser", "pw/badscope", "cc/badscope")
				continue
			}
			acts = append(acts, k+"/"+f)
		}
	}
	states := []string{"fresh", "warm", "other"}
	prep := func(x ClientSpec, state string) []Op {
		h := []Op{{K: "pw", Cl: x.ID, Us: "u1", Sc: "foo"}, {K: "code", Cl: x.ID, Us: "u1", Sc: "foo bar"}}
		switch state {
		case "warm": // the same client was served at every endpoint before
			h = append(h, Op{K: "pw", Cl: x.ID, Us: "u1", Sc: "foo"}, Op{K: "rfr", Cl: x.ID, Cr: 4}, Op{K: "rev", Cl: x.ID, Cr: 5}, Op{K: "int", Cl: x.ID, Cr: 0}, Op{K: "code", Cl: x.ID, Us: "u2"}, Op{K: "xch", Cl: x.ID, Cr: 7})
			if x.Conf {
				h = append(h, Op{K: "cc", Cl: x.ID})
			}
		case "other": // and others, also with wrong credentials
			h = append(h, Op{K: "pw", Cl: "c2", Us: "u1"}, Op{K: "pw", Cl: x.ID, Us: "u1", Sec: "wrong"}, Op{K: "cc", Cl: "c1", Sec: "wrong"}, Op{K: "rev", Cl: others(m.fresh(), x.ID)[0], Cr: 0}, Op{K: "adv", D: 20 * time.Second})
		}
		return h
	}
	total := len(spec) * len(acts) * len(states)
	c.parallel(total, func(i int) {
		x, act, state := spec[i%len(spec)], acts[i/len(spec)%len(acts)], states[i/len(spec)/len(acts)]
		h := prep(x, state)
		var o Op
		switch act {
		case "pw":
			o = Op{K: "pw", Us: "u1", Sc: "foo"}
		case "cc":
			o = Op{K: "cc", Sc: "foo"}
		case "xch":
			o = Op{K: "xch", Cr: 2}
		case "rfr":
			o = Op{K: "rfr", Cr: 1}
		case "revA", "intA":
			o = Op{K: act[:3], Cr: 0}
		case "revR", "intR":
			o = Op{K: act[:3], Cr: 1}
		}
		useless := strings.Contains(act, "/")
		if useless {
			if state != "fresh" {
				return
			}
			o = Op{K: act[:strings.IndexByte(act, '/')], Us: "u1", Cr: 1}
			if o.K == "xch" {
				o.Cr = 2
			}
			switch act[strings.IndexByte(act, '/')+1:] {
			case "unknown":
				o.X = oauth2.HS256TokenFromKey([]byte(cfg().Secret), []byte("never issued key")).String()
			case "unknown/hint":
				o.X, o.H = oauth2.HS256TokenFromKey([]byte(cfg().Secret), []byte("never issued key")).String(), "refresh_token"
			case "malformed":
				o.X = "malformed"
			case "spent":
				if o.K == "xch" {
					h = append(h, Op{K: "xch", Cl: x.ID, Cr: 2})
				} else {
					h = append(h, Op{K: "rfr", Cl: x.ID, Cr: 1})
				}
			case "revoked":
				h = append(h, Op{K: "rev", Cl: x.ID, Cr: 1})
			case "expired":
				h = append(h, Op{K: "adv", D: 701 * time.Second}, Op{K: "pw", Cl: x.ID, Us: "u1"})
			case "foreign":
				h = append(h, Op{K: "pw", Cl: others(m.fresh(), x.ID)[0], Us: "u2"}, Op{K: "code", Cl: others(m.fresh(), x.ID)[0], Us: "u2"})
				if o.Cr = 4; o.K == "xch" {
					o.Cr = 5
				}
			case "baduser":
				o.Pw = "wrong"
			case "badscope":
				o.Sc = "baz"
			}
		}
		o.Cl = x.ID
		for _, a := range authVariants(m.run(h), x, state == "fresh" && !useless, c.thorough()) {
			if c.stopped() || c.timeUp() {
				return
			}
			build := func(w *World) Req {
				q := w.build(o)
				q.HasA, q.Auth = a.hasH, a.h
				if len(a.body) > 0 {
					q.Body += "&" + form(a.body...)
				}
				q.Query = form(a.query...)
				return q
			}
			c.Case(fmt.Sprintf("%s %s %s: %s", x.ID, act, state, a.name), !strings.HasPrefix(a.name, "basic right"), func() string {
				v := a.token
				if o.K == "rev" || o.K == "int" {
					v = a.rest
				}
				if act == "cc" && !x.Conf && (v == mustOK || v == either) {
					v = mustRefuse
				}
				w := m.run(h)
				r := w.send(build(w))
				if r.Panic != "" {
					return r.Panic
				}
				var good bool
				switch o.K {
				case "rev":
					good = r.Code == 200
				case "int":
					good = r.Code == 200 && r.json()["active"] == true
				default:
					good = r.Code == 200 && r.tokens() != nil
				}
				if useless && (v == mustOK || v == either) {
					return "" // served, or refused for the credential's sake
				}
				if act == "rev/malformed" || act == "int/malformed" {
					good, v = false, mustRefuse
				}
				if v == either {
					if good {
						v = mustOK
					} else {
						v = mustRefuse
					}
				}
				if v == mustOK {
					if !good {
						return fmt.Sprintf("properly authenticated request refused\nrequest: %s\nanswer: %s", build(w), r)
					}
					if tk := r.tokens(); tk != nil { // served as the authenticated client
						w.add('A', tk.Access, Cred{Client: x.ID, Code: -1, Parent: -1})
						if ok, r2 := w.active(w.Creds[len(w.Creds)-1]); !ok {
							return fmt.Sprintf("token was not issued to the authenticated client\nrequest: %s\nanswer: %s\nintrospection: %s", build(w), r, r2)
						}
					}
					if o.K == "rev" {
						if ok, _ := w.use(w.Creds[o.Cr]); ok {
							return "revocation had no effect"
						}
					}
					return ""
				}
				return refusedClean(m, h, build, func(r *Resp) string {
					switch {
					case good || r.Code < 400:
						return "request was served without proper client authentication"
					case v == mustRefuse && useless:
					case v == must401 || (v == mustRefuse && r.Code == 401):
						if r.Code != 401 || r.err() != "invalid_client" {
							return fmt.Sprintf("refused with %d %q, want 401 invalid_client", r.Code, r.err())
						}
						if !strings.HasPrefix(r.H.Get("WWW-Authenticate"), "Basic ") {
							return "refusal carries no Basic challenge"
						}
					case r.Code != 400 || r.err() != "invalid_request":
						return fmt.Sprintf("refused with %d %q, want 400 invalid_request", r.Code, r.err())
					}
					return ""
				})
			})
		}
	})
	c.longClients()
	// histories: authentication never carries over from one request to the next
	d := 3
	if c.thorough() {
		d = 5
	}
	c.explore(&Model{Name: "sequence", Cfg: baseCfg, Depth: d,
		Ops: func(w *World) []Op {
			out := []Op{{K: "pw", Cl: "c1", Us: "u1"}, {K: "pw", Cl: "c1", Us: "u1", Sec: "wrong"}, {K: "pw", Cl: "c1", Us: "u1", Sec: "-"}, {K: "cc", Cl: "c1", B: true}, {K: "cc", Cl: "c1", Sec: "s2-Secret", B: true}, {K: "cc", Cl: "p1"},
				{K: "cc", Cl: "c2", Sec: "s1-Secret"}, {K: "cc", Cl: "c2"}, {K: "pw", Cl: "p1", Us: "u1"}, {K: "cc", Cl: "nobody", Sec: "s1-Secret"}}
			return append(out, forKind(w, "AR", func(k *Cred) []Op {
				if k.ID > 3 {
					return nil
				}
				return []Op{{K: "rev", Cl: k.Client, Cr: k.ID, Sec: "wrong"}, {K: "int", Cl: k.Client, Cr: k.ID, Sec: "wrong"}, {K: "rev", Cl: k.Client, Cr: k.ID, Sec: "-"}, {K: "int", Cl: k.Client, Cr: k.ID}}
			})...)
		},
		Step: func(x *Ctx) string {
			cl := x.W.client(x.O.Cl)
			ok := cl != nil && (!cl.Conf || x.O.Sec == "" || x.O.Sec == cl.Secret)
			if x.O.K == "cc" && cl != nil && !cl.Conf {
				ok = false
			}
			if !ok && x.R.Code != 401 {
				return fmt.Sprintf("answered %d to a request without proper client authentication", x.R.Code)
			}
			if ok && x.R.Code != 200 {
				return fmt.Sprintf("answered %d to a properly authenticated request", x.R.Code)
			}
			return ""
		}})
	// among a crowd of other requests
	c.crowded(nil, func(before, after func() *World, n int) string {
		w := after()
		for round := 0; round < 2; round++ {
			for _, cl := range []string{"c1", "c2", "p1"} {
				conf := w.client(cl).Conf
				for _, o := range []Op{{K: "pw", Cl: cl, Us: "u1"}, {K: "cc", Cl: cl}, {K: "rev", Cl: cl, X: "@12/same"}, {K: "int", Cl: cl, X: "@1/same"}, {K: "rfr", Cl: cl, X: "@3/same"}, {K: "xch", Cl: cl, X: "@10/same"}} {
					for _, sec := range []string{"wrong", "-", ""} {
						if o.Sec = sec; sec != "" && !conf {
							continue
						}
						r := w.send(w.build(o))
						switch {
						case sec != "" && (r.Code != 401 || r.err() != "invalid_client"):
							return fmt.Sprintf("%s answered %s", o.key(), r)
						case sec == "" && o.K == "cc" && !conf:
						case sec == "" && (o.K == "pw" || o.K == "cc") && r.tokens() == nil:
							return fmt.Sprintf("properly authenticated request %s answered %s", o.key(), r)
						}
					}
				}
			}
		}
		return ""
	})
}

// --------------------------------------------------------------------- C09

func TestC09(t *testing.T) {
	c := newCheck(t, "C09", "model_checking",
		"full product of 3 approving requests x 6 users x ~60 near-miss passwords and user names x 8 placements; names and passwords of 300 characters changed or cut at every position; and all histories of approvals by 3 users at 2 clients, exchanges, refreshes and client-credentials grants merged by canonical state, with every credential's attribution introspected in every state. Non-trivial: the request deviates from the right one / the state holds a credential.")
	defer c.finish()
	cfg := func() *Cfg {
		g := baseCfg()
		g.Users = append(g.Users, [2]string{"U1", "pw1-pass"}, [2]string{"u1 ", "Pw1-Pass"}, [2]string{"ü s&=+%zz", "pä +&=%zz:#"}, [2]string{"u", "pw1-Pass"})
		return g
	}
	m := &Model{Cfg: cfg}
	users := cfg().Users
	grants := []string{"pw", "imp", "code"}
	c.parallel(len(grants)*len(users)*2, func(i int) {
		g, u, warm := grants[i%3], users[i/3%len(users)], i/3/len(users)
		var h []Op
		if warm == 1 {
			h = []Op{{K: "pw", Cl: "c1", Us: u[0], Sc: "foo"}, {K: "code", Cl: "c1", Us: u[0], Sc: "foo"}, {K: "imp", Cl: "c1", Us: u[0]}, {K: g, Cl: "c1", Us: u[0], Pw: "nope"}}
		}
		var morePw, moreUs []string
		real := map[string]string{}
		for _, o := range users {
			morePw = append(morePw, o[1], o[0])
			moreUs = append(moreUs, o[0])
			real[o[0]] = o[1]
		}
		morePw = append(morePw, "s1-Secret", "a-server-secret!")
		type attempt struct {
			name   string
			us, pw string
			ub, pb string // where: body, query, none
			extra  func(q *Req)
			ok     bool
		}
		var l []attempt
		for _, p := range append(wideMisses(u[1], morePw...), u[1]) {
			l = append(l, attempt{"pw " + brief(p), u[0], p, "body", "body", nil, p == u[1]})
		}
		for _, n := range wideMisses(u[0], append(moreUs, "c1", "nobody")...) {
			l = append(l, attempt{"user " + brief(n), n, u[1], "body", "body", nil, n != "" && real[n] == u[1]})
		}
		for _, ub := range []string{"body", "query", "none"} {
			for _, pb := range []string{"body", "query", "none"} {
				if ub != "body" || pb != "body" {
					l = append(l, attempt{"placed " + ub + "/" + pb, u[0], u[1], ub, pb, nil, false})
				}
				if ub != "body" && pb != "body" {
					l = append(l, attempt{"placed " + ub + "/" + pb + " other in body", u[0], u[1], ub, pb, func(q *Req) { q.Body += "&" + form("username", "nobody", "password", "wrong") }, false})
				}
			}
		}
		l = append(l, attempt{"wrong in body, right in query", u[0], u[1] + "x", "body", "body", func(q *Req) { q.Query = form("username", u[0], "password", u[1]) }, false},
			attempt{"right in body, wrong in query", u[0], u[1], "body", "body", func(q *Req) { q.Query = form("username", "nobody", "password", "x") }, true},
			attempt{"other user in query", u[0], u[1], "body", "body", func(q *Req) { q.Query = form("username", "u2") }, true})
		if g != "pw" {
			l = append(l, attempt{"basic", u[0], u[1], "none", "none", func(q *Req) { q.HasA, q.Auth = true, basic(u[0], u[1]) }, false},
				attempt{"basic right, body wrong", u[0], u[1] + "x", "body", "body", func(q *Req) { q.HasA, q.Auth = true, basic(u[0], u[1]) }, false})
		}
		for _, a := range l {
			if c.stopped() || c.timeUp() {
				return
			}
			build := func(w *World) Req {
				q := w.build(Op{K: g, Cl: "c1", Us: "@", Pw: "-", Sc: "foo", St: "xyz"})
				q.Body = strings.Replace(q.Body, "&username=%40", "", 1)
				put := func(where, k, v string) {
					switch where {
					case "body":
						q.Body += "&" + form(k, v)
					case "query":
						if q.Query != "" {
							q.Query += "&"
						}
						q.Query += form(k, v)
					}
				}
				put(a.ub, "username", a.us)
				put(a.pb, "password", a.pw)
				if a.extra != nil {
					a.extra(&q)
				}
				return q
			}
			c.Case(fmt.Sprintf("%s as %q warm=%d: %s", g, u[0], warm, a.name), !a.ok, func() string {
				if !a.ok {
					return refusedClean(m, h, build, func(r *Resp) string {
						if r.err() != "access_denied" {
							return fmt.Sprintf("answered %d %q, want access_denied", r.Code, r.err())
						}
						if g == "pw" && r.Code != 403 && r.Code != 400 && r.Code != 401 {
							return fmt.Sprintf("refused with status %d", r.Code)
						}
						return ""
					})
				}
				w := m.run(h)
				r := w.send(build(w))
				tk := r.tokens()
				if tk == nil {
					return fmt.Sprintf("right password refused\nrequest: %s\nanswer: %s", build(w), r)
				}
				n := len(w.Creds)
				w.addTokens(tk, Cred{Client: "c1", User: a.us, Scope: []string{"foo"}, Code: -1, Parent: -1, Redirect: w.client("c1").Redirect})
				if g == "code" {
					w.use(w.Creds[n])
				}
				for _, k := range w.Creds[n:] {
					if k.Kind == 'C' {
						continue
					}
					ok, r := w.active(k)
					if !ok || str(r.json(), "username") != a.us || str(r.json(), "client_id") != "c1" {
						return fmt.Sprintf("%s is attributed to %q at %q\nanswer: %s", k, str(r.json(), "username"), str(r.json(), "client_id"), r)
					}
				}
				return ""
			})
		}
	})
	c.longUsers()
	d := 3
	if c.thorough() {
		d = 4
	}
	attr := func(w *World, fork func() *World) string {
		f := fork()
		n := len(f.Creds)
		for i := 0; i < n; i++ {
			if k := f.Creds[i]; k.Kind == 'C' && k.live() {
				f.use(k)
			}
		}
		for i := 0; i < n; i++ {
			if k := f.Creds[i]; k.Kind == 'R' && k.live() && i < 6 {
				f.use(k)
			}
		}
		for _, k := range f.Creds {
			if k.Kind == 'C' || !k.live() {
				continue
			}
			ok, r := f.active(k)
			if !ok || str(r.json(), "username") != k.User || str(r.json(), "client_id") != k.Client {
				return fmt.Sprintf("%s is attributed to user %q, client %q\nanswer: %s", k, str(r.json(), "username"), str(r.json(), "client_id"), r)
			}
		}
		return ""
	}
	c.explore(&Model{Name: "descent", Cfg: cfg, Depth: d, State: attr,
		Ops: func(w *World) []Op {
			var out []Op
			for _, u := range []string{"u1", "u2", "U1"} {
				for _, cl := range []string{"c1", "p1"} {
					out = append(out, Op{K: "pw", Cl: cl, Us: u, Sc: "foo"}, Op{K: "code", Cl: cl, Us: u, Sc: "foo bar"}, Op{K: "imp", Cl: cl, Us: u})
				}
			}
			out = append(out, Op{K: "cc", Cl: "c1", Sc: "foo"}, Op{K: "cc", Cl: "c1", Sc: "foo", E: "username=u1&password=pw1-Pass"}, Op{K: "cc", Cl: "c1", Sc: "foo", E: "username=c1"}, Op{K: "pw", Cl: "c1", Us: "u1", Pw: "pw2-Pass"})
			out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op {
				return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}, {K: "rfr", Cl: k.Client, Cr: k.ID, Sc: "foo"}}
			})...)
			return append(out, forKind(w, "A", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
		}})
	c.explore(&Model{Name: "descent-deep", Cfg: cfg, Depth: d + 2, State: attr,
		Init: func(w *World) {
			w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo"})
			w.do(Op{K: "code", Cl: "c1", Us: "u2", Sc: "foo"})
			w.do(Op{K: "cc", Cl: "c1", Sc: "foo"})
		},
		Ops: func(w *World) []Op {
			out := forKind(w, "C", func(k *Cred) []Op {
				return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}, {K: "xch", Cl: k.Client, Cr: k.ID, E: "username=U1&password=pw1-pass&client_id=p1"}}
			})
			return append(out, forKind(w, "R", func(k *Cred) []Op {
				return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}, {K: "rfr", Cl: k.Client, Cr: k.ID, E: "username=U1&password=pw1-pass&client_id=p1"}}
			})...)
		}})
	// among a crowd of other requests
	c.crowded(nil, func(before, after func() *World, n int) string {
		w := after()
		for round := 0; round < 2; round++ {
			for _, g := range []string{"pw", "imp", "code"} {
				for _, cl := range []string{"c1", "p1"} {
					for _, us := range []string{"u1", "u2", "nobody"} {
						for _, pw := range []string{"wrong", "-", "pw1-Pass", "pw2-Pass"} {
							o := Op{K: g, Cl: cl, Us: us, Pw: pw, Sc: "foo"}
							r := w.send(w.build(o))
							if ok := us != "nobody" && pw == w.pass(us); (r.tokens() != nil) != ok {
								return fmt.Sprintf("%s answered %s", o.key(), r)
							} else if !ok && r.err() != "access_denied" {
								return fmt.Sprintf("%s refused with %q", o.key(), r.err())
							}
						}
					}
				}
			}
		}
		return ""
	})
}

// --------------------------------------------------------------------- C10

func nearURIs(w *World, x ClientSpec) []string {
	r := x.Redirect
	l := []string{r + "/", r + "x", r[:len(r)-1], r + "?", r + "?a=b", r + "&a=b", r + "#", r + "#frag", r + ";x", r + ":443", strings.Replace(r, "https:", "http:", 1),
		strings.ToUpper(r), strings.Replace(r, "https", "HTTPS", 1), strings.Replace(r, "example", "EXAMPLE", 1), strings.Replace(r, "://", "://x@", 1), strings.Replace(r, ".com", ".com:443", 1),
		strings.Replace(r, ".com", ".com.", 1), strings.Replace(r, ".com", ".com.evil.com", 1), strings.Replace(r, ".com", ".com@evil.com", 1), strings.Replace(r, "://", "://evil.", 1), strings.Replace(r, "://", ":/", 1),
		strings.Replace(r, "://", ":///", 1), r + "/../cb", r + "/.", r + "\\", "\\" + r, "/" + r, "//c1.example.com/cb", "/cb", "cb", "https://evil.example/cb", "https://evil.example/?" + r, "javascript:alert(1)",
		"data:text/html,x", r + "\r\nX-Evil: 1", r + "\x00", r + "," + r, r + "|x", "*", "https://", "https:"}
	if u, err := url.Parse(r); err == nil && u.Host != "" {
		with := func(f func(u *url.URL)) {
			v := *u
			f(&v)
			l = append(l, v.String())
		}
		for _, p := range []string{"", ":1", ":80", ":443", ":8080", ":3000", ":8443", ":51234", ":"} {
			with(func(u *url.URL) { u.Host = strings.TrimSuffix(u.Host, ":"+u.Port()) + p })
		}
		for _, h := range []string{"localhost", "127.0.0.1", "[::1]", "127.0.0.2", "0.0.0.0", "evil.example", u.Hostname() + ".", "www." + u.Hostname(), strings.ToLower(u.Hostname())} {
			with(func(u *url.URL) {
				if u.Host = h; u.Port() != "" {
					u.Host += ":" + u.Port()
				}
			})
			with(func(u *url.URL) { u.Host = h })
		}
		with(func(u *url.URL) { u.User = nil })
		with(func(u *url.URL) { u.User = url.User("other") })
		with(func(u *url.URL) { u.Path = path.Clean("/" + u.Path) })
		with(func(u *url.URL) { u.Path = "/./" + strings.TrimPrefix(u.Path, "/") })
		with(func(u *url.URL) { u.Path = "/x/.." + u.Path })
		with(func(u *url.URL) { u.Path = "/" + u.Path })
		with(func(u *url.URL) { u.Path = "" })
		with(func(u *url.URL) { u.Path = "/" })
		with(func(u *url.URL) { u.Path = strings.ToLower(u.Path) })
		with(func(u *url.URL) { u.RawQuery += "#" })
		with(func(u *url.URL) { u.Scheme = "http" })
		with(func(u *url.URL) { u.Scheme = "HTTPS" })
	}
	if i := strings.IndexByte(r, '?'); i >= 0 {
		l = append(l, r[:i], r[:i+1], r[:i]+"?tenant=8", r[:i]+"?tenant=7&tenant=7", r[:i]+"?x=1&tenant=7", r[:i]+"?Tenant=7")
	}
	if i := strings.LastIndexByte(r, '/'); i > 8 {
		l = append(l, r[:i], r[:i+1], r[:i]+"/"+strings.ToUpper(r[i+1:]))
	}
	for _, c := range w.Cfg.Clients {
		if c.ID != x.ID && c.Redirect != "" && c.Redirect != r {
			l = append(l, c.Redirect)
		}
	}
	var out []string
	seen := map[string]bool{r: true}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func TestC10(t *testing.T) {
	c := newCheck(t, "C10", "exploration",
		"full product of methods x response types x 12 clients and unknown ones x ~90 redirect URIs per client x scopes x user credentials x states x placements at the authorization endpoint; every code x every redirect URI at exchange; URIs of 500 to 600 characters changed or cut at every position. Non-trivial: the redirect URI, client, scope, credentials or state is not the plain one.")
	c.assume = []string{"redirect URIs containing % or + are outside the product: the parser decodes redirect_uri twice (known finding of C20)", "when redirect_uri is given twice, either value counts as named"}
	defer c.finish()
	cfg := func() *Cfg {
		g := baseCfg()
		g.Clients = append(g.Clients,
			ClientSpec{"app", "app-Secret", "myapp://callback/x", true},
			ClientSpec{"loc", "", "http://127.0.0.1:8080/cb/?x=1&y=2", false},
			ClientSpec{"none", "none-Secret", "", true},
			ClientSpec{"lh", "", "http://localhost:3000/cb", false},
			ClientSpec{"v6", "", "http://[::1]:8080/cb", false},
			ClientSpec{"lp", "", "http://127.0.0.1/cb", false},
			ClientSpec{"up", "up-Secret", "https://User@UP.Example.com:8443/Cb", true},
			ClientSpec{"bare", "", "https://bare.example.com", false},
			ClientSpec{"dots", "", "https://d.example.com/a/../b/./c//d", false})
		return g
	}
	m := &Model{Cfg: cfg}
	spec := cfg().Clients
	type user struct {
		name, pw string
		ok       bool
	}
	users := []user{{"u1", "pw1-Pass", true}, {"u1", "wrong", false}, {"", "", false}}
	scopes := []struct {
		s  string
		ok bool
	}{{"foo", true}, {"", true}, {"foo baz", false}}
	states := []string{"", "xyz", "a&b=c", "a b+c%20d", "#frag?&", "\"<>\\", "ü€\u2028", "x\r\nSet-Cookie: a=b", strings.Repeat("s", 600), strings.Repeat("0123456789abcdef", 300), "%", "\r\nlead and trail\r\n ", "access_token=1&code=2"}
	type inp struct {
		cl  string
		uri string
		dup string
	}
	var in []inp
	w0 := newWorld(cfg())
	for _, x := range spec {
		if x.Redirect == "" {
			in = append(in, inp{x.ID, "", ""}, inp{x.ID, "https://evil.example/cb", ""}, inp{x.ID, "/", ""}, inp{x.ID, spec[0].Redirect, ""})
			continue
		}
		in = append(in, inp{x.ID, x.Redirect, ""}, inp{x.ID, "", ""})
		for _, u := range nearURIs(w0, x) {
			in = append(in, inp{x.ID, u, ""})
		}
		in = append(in, inp{x.ID, x.Redirect, "https://evil.example/cb"}, inp{x.ID, "https://evil.example/cb", x.Redirect})
	}
	for _, id := range []string{"nobody", "", "C1", "c1 ", "u1"} {
		in = append(in, inp{id, spec[0].Redirect, ""}, inp{id, "https://evil.example/cb", ""})
	}
	c.parallel(len(in), func(i int) {
		a := in[i]
		x := m.fresh().client(a.cl)
		plain := x != nil && a.uri == x.Redirect && a.uri != "" && a.dup == ""
		for _, method := range []string{"POST", "GET", "HEAD", "PUT"} {
			for _, rt := range []string{"token", "code", "", "bogus", "Token", "code token"} {
				for _, sc := range scopes {
					for _, us := range users {
						for si, st := range states {
							if !plain && si > 2 && !c.thorough() {
								continue
							}
							for _, place := range []string{"body", "query", "split"} {
								if c.stopped() || c.timeUp() {
									return
								}
								key := fmt.Sprintf("%s %q cl=%q uri=%q dup=%q sc=%q us=%q/%q st=%d %s", method, rt, a.cl, a.uri, a.dup, sc.s, us.name, us.pw, si, place)
								c.Case(key, !plain || si > 1 || method != "POST", func() string {
									w := m.fresh()
									kv := []string{"response_type", rt, "client_id", a.cl, "redirect_uri", a.uri}
									if a.dup != "" {
										kv = append(kv, "redirect_uri", a.dup)
									}
									kv = append(kv, "scope", sc.s)
									if st != "" {
										kv = append(kv, "state", st)
									}
									cred := []string{"username", us.name, "password", us.pw}
									q := Req{Method: method, Path: "/oauth2/authorize", CT: formCT}
									switch place {
									case "body":
										q.Body = form(append(kv, cred...)...)
									case "query":
										q.Query, q.Body = form(kv...), form(cred...)
									case "split":
										q.Query, q.Body = form(kv[:4]...), form(append(append([]string{}, kv[4:]...), cred...)...)
									}
									if method == "GET" || method == "HEAD" {
										q.Query, q.Body, q.NoBody, q.CT = form(append(kv, cred...)...), "", true, ""
									}
									r := w.send(q)
									if r.Panic != "" {
										return r.Panic
									}
									msg := authOracle(w, r, method, rt, x, plain, a.uri, a.dup, sc.ok, us.ok, st)
									if msg != "" {
										return fmt.Sprintf("%s\nrequest: %s\nanswer: %s", msg, q, r)
									}
									return ""
								})
							}
						}
					}
				}
			}
		}
	})
	c.longURIs()
	// redirect URI binding at exchange
	c.parallel(len(spec), func(i int) {
		x := spec[i]
		if x.Redirect == "" {
			return
		}
		h := []Op{{K: "code", Cl: x.ID, Us: "u1", Sc: "foo"}, {K: "pw", Cl: x.ID, Us: "u1"}, {K: "code", Cl: x.ID, Us: "u2"}}
		for _, u := range append(nearURIs(w0, x), "-", "") {
			c.Case(fmt.Sprintf("exchange %s with %q", x.ID, u), true, func() string {
				msg := refusedClean(m, h, func(w *World) Req {
					o := Op{K: "xch", Cl: x.ID, Cr: 0, Rd: u}
					if u == "" {
						o.Rd = "-"
					}
					q := w.build(o)
					if u == "" {
						q.Body += "&redirect_uri="
					}
					return q
				}, func(r *Resp) string {
					if r.Code < 400 || r.tokens() != nil {
						return "code redeemed with a redirect URI other than the one it was obtained with"
					}
					if r.err() != "invalid_grant" && r.err() != "invalid_request" {
						return fmt.Sprintf("refused with %q", r.err())
					}
					return ""
				})
				if msg != "" {
					return msg
				}
				w := m.run(h)
				if u == "" {
					u = "-"
				}
				w.do(Op{K: "xch", Cl: x.ID, Cr: 0, Rd: u})
				if ok, r := w.use(w.Creds[0]); !ok {
					return fmt.Sprintf("code not redeemable with its own redirect URI afterwards\nanswer: %s", r)
				}
				return ""
			})
		}
	})
}

func authOracle(w *World, r *Resp, method, rt string, x *ClientSpec, plain bool, uri, dup string, scOK, usOK bool, st string) string {
	base, query, frag, hasLoc := r.location()
	named := x != nil && x.Redirect != "" && (uri == x.Redirect || dup == x.Redirect)
	if hasLoc || r.isRedirect() {
		if method != "POST" {
			return "redirect in answer to a " + method
		}
		if !named {
			return "redirected although the request did not name the client's registered redirect URI"
		}
		if !r.isRedirect() || !hasLoc {
			return fmt.Sprintf("status %d with Location %q", r.Code, r.H.Get("Location"))
		}
		if len(r.H["Location"]) != 1 {
			return "more than one Location"
		}
		// the target is the registered URI
		regBase, regQuery := x.Redirect, ""
		if i := strings.IndexByte(regBase, '?'); i >= 0 {
			regBase, regQuery = regBase[:i], regBase[i+1:]
		}
		if base != regBase {
			return fmt.Sprintf("redirected to %q instead of %q", base, regBase)
		}
		reg, _ := formDecode(regQuery)
		got, ok := formDecode(query)
		if !ok {
			return "undecodable query"
		}
		for _, p := range reg {
			v, n := lookup(got, p[0])
			if n != 1 || v != p[1] {
				return fmt.Sprintf("registered query parameter %q=%q was not kept", p[0], p[1])
			}
		}
		fr, ok := formDecode(frag)
		if !ok {
			return "undecodable fragment"
		}
		ch, other := got[0:0:0], fr
		for _, p := range got {
			if _, n := lookup(reg, p[0]); n == 0 {
				ch = append(ch, p)
			}
		}
		if rt == "token" {
			ch, other = fr, ch
		}
		if len(other) != 0 {
			return fmt.Sprintf("parameters %v delivered in the wrong part of the URI", other)
		}
		v, n := lookup(ch, "state")
		if v != st || (st != "" && n != 1) {
			return fmt.Sprintf("state %q echoed as %q", st, v)
		}
		tok, _ := lookup(ch, "access_token")
		code, _ := lookup(ch, "code")
		e, _ := lookup(ch, "error")
		switch {
		case e != "":
			if tok != "" || code != "" {
				return "error and credential in one redirect"
			}
			if usOK && scOK {
				return "valid request refused"
			}
			if !scOK && !usOK {
				if e != "invalid_scope" && e != "access_denied" {
					return "wrong error " + e
				}
			} else if !scOK && e != "invalid_scope" || !usOK && e != "access_denied" {
				return "wrong error " + e
			}
		case rt == "token":
			if tok == "" || code != "" {
				return "no access token in the implicit redirect"
			}
			if !usOK || !scOK {
				return "token issued to an unauthorized request"
			}
		case rt == "code":
			if code == "" || tok != "" {
				return "no code in the redirect"
			}
			if !usOK || !scOK {
				return "code issued to an unauthorized request"
			}
		default:
			return "redirect without known response type"
		}
		for _, p := range ch {
			switch p[0] {
			case "state", "error", "error_description", "error_uri", "scope", "realm", "access_token", "token_type", "expires_in", "code", "iss":
			default:
				return fmt.Sprintf("unexpected parameter %q", p[0])
			}
		}
		return ""
	}
	if w.issuedCount() != 0 || r.tokens() != nil {
		return "a credential was created although the request was not answered with a redirect"
	}
	if method == "GET" && plain && (rt == "token" || rt == "code") {
		if r.Code != 200 {
			return "valid GET refused"
		}
		return ""
	}
	if r.Code < 400 && !(method == "GET" && named && r.Code == 200) {
		return fmt.Sprintf("answered %d, want a direct refusal", r.Code)
	}
	if method == "POST" && plain && (rt == "token" || rt == "code") {
		return "valid request not answered with a redirect"
	}
	return ""
}

// --------------------------------------------------------------------- C12

type namedReq struct {
	name string
	q    Req
}

// baseOps are the valid requests of a state; c12Menu derives refused ones.
func baseOps(w *World) []Op {
	out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "p1", Us: "u2"}, {K: "cc", Cl: "c1", Sc: "foo"}, {K: "imp", Cl: "c1", Us: "u1", Sc: "foo", St: "s"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo", St: "s"}}
	for _, k := range w.Creds {
		switch k.Kind {
		case 'C':
			if !k.Spent {
				out = append(out, Op{K: "xch", Cl: k.Client, Cr: k.ID})
			}
		case 'R':
			out = append(out, Op{K: "rfr", Cl: k.Client, Cr: k.ID}, Op{K: "rev", Cl: k.Client, Cr: k.ID}, Op{K: "int", Cl: k.Client, Cr: k.ID})
		case 'A':
			out = append(out, Op{K: "rev", Cl: k.Client, Cr: k.ID}, Op{K: "int", Cl: k.Client, Cr: k.ID}, Op{K: "res", Cr: k.ID})
		}
	}
	return out
}

// defects derives requests from a valid one, most of them to be refused.
func defects(w *World, o Op) []namedReq {
	var out []namedReq
	add := func(name string, q Req) { out = append(out, namedReq{o.key() + " " + name, q}) }
	op := func(p Op) { add("as "+p.key(), w.build(p)) }
	q := w.build(o)
	with := func(name string, f func(q *Req)) {
		p := q
		f(&p)
		add(name, p)
	}
	if o.K == "res" {
		p := o
		p.Sc = "foo baz"
		op(p)
		p.Sc = "baz"
		op(p)
		with("tampered", func(q *Req) { q.Auth += "x" })
		with("scheme", func(q *Req) { q.Auth = "Token" + q.Auth[6:] })
		with("no header", func(q *Req) { q.HasA = false })
		return out
	}
	for _, m := range []string{"PUT", "DELETE", "HEAD", "OPTIONS", "post", ""} {
		with("method "+m, func(q *Req) { q.Method = m })
	}
	with("method GET", func(q *Req) { q.Method, q.Query = "GET", q.Body })
	with("no content type", func(q *Req) { q.CT = "" })
	with("json", func(q *Req) { q.CT = "application/json" })
	with("text", func(q *Req) { q.CT = "text/plain" })
	with("bad content type", func(q *Req) { q.CT = "application/x-www-form-urlencoded; =" })
	with("multipart", func(q *Req) { q.CT = "multipart/form-data; boundary=x" })
	with("bad escape", func(q *Req) { q.Body += "&x=%zz" })
	with("bad escape first", func(q *Req) { q.Body = "x=%z&" + q.Body })
	with("semicolon", func(q *Req) { q.Body += ";x=1" })
	with("bad query", func(q *Req) { q.Query = "x=%zz" })
	with("empty body", func(q *Req) { q.Body = "" })
	with("no body", func(q *Req) { q.Body, q.NoBody = "", true })
	with("in query", func(q *Req) { q.Query, q.Body = q.Body, "" })
	with("path slash", func(q *Req) { q.Path += "/" })
	with("path upper", func(q *Req) { q.Path = strings.ToUpper(q.Path) })
	with("path suffix", func(q *Req) { q.Path += "x" })
	with("path sub", func(q *Req) { q.Path += "/sub" })
	with("path root", func(q *Req) { q.Path = "/" })
	with("path empty", func(q *Req) { q.Path = "" })
	// each parameter removed, emptied
	parts := strings.Split(q.Body, "&")
	for i, p := range parts {
		k := p[:strings.IndexByte(p, '=')]
		rest := append(append([]string{}, parts[:i]...), parts[i+1:]...)
		with("without "+k, func(q *Req) { q.Body = strings.Join(rest, "&") })
		with("empty "+k, func(q *Req) { q.Body = strings.Join(append(append([]string{}, rest...), k+"="), "&") })
		with("altered "+k, func(q *Req) {
			l := append([]string{}, parts...)
			l[i] += "x"
			q.Body = strings.Join(l, "&")
		})
		for _, n := range []int{200, 5000} {
			with(fmt.Sprintf("altered %s by %d", k, n), func(q *Req) {
				l := append([]string{}, parts...)
				l[i] += strings.Repeat("x", n)
				q.Body = strings.Join(l, "&")
			})
		}
	}
	auth := o.K != "imp" && o.K != "code"
	if auth {
		with("no auth", func(q *Req) { q.HasA = false })
		with("bad auth", func(q *Req) { q.Auth = "Basic x" })
		with("bearer auth", func(q *Req) { q.Auth = "Bearer x" })
		p := o
		for _, sec := range []string{"wrong", "-"} {
			p.Sec = sec
			op(p)
			p.B = true
			op(p)
			p.B = false
		}
		p.Sec = ""
		for _, cl := range []string{"c1", "c2", "p1", "nobody"} {
			if cl == o.Cl || (cl != "nobody" && o.K != "xch" && o.K != "rfr" && o.K != "rev" && o.K != "int") {
				continue
			}
			p.Cl = cl
			op(p)
			p.B = true
			op(p)
			p.B = false
			if o.K == "rfr" {
				p.Sc = "foo"
				op(p)
				p.Sc = ""
			}
			if o.K == "rev" || o.K == "int" {
				for _, h := range []string{"access_token", "refresh_token"} {
					p.H = h
					op(p)
				}
				p.H = ""
			}
		}
	}
	p := o
	switch o.K {
	case "pw", "cc", "imp", "code", "rfr":
		for _, sc := range []string{"baz", "foo baz", "bar baz", "bar foo baz", "FOO", "fo"} {
			p.Sc = sc
			op(p)
		}
		p.Sc = o.Sc
	}
	switch o.K {
	case "pw", "imp", "code":
		for _, pw := range []string{"wrong", "-", "pw2-Pas"} {
			p.Pw = pw
			op(p)
		}
		p.Pw = ""
		p.Us = "nobody"
		op(p)
		p.Us = o.Us
	}
	switch o.K {
	case "imp", "code", "xch":
		for _, rd := range []string{"https://evil.example/cb", "-", "relative", "https://c1.example.com/cb#f", "https://c2.example.com/cb"} {
			p.Rd = rd
			op(p)
		}
	case "rev", "int":
		for _, h := range []string{"bogus", "Access_token", "code"} {
			p.H = h
			op(p)
		}
	}
	// credentials of the wrong kind or altered
	if k := credOf(w, o); k != nil {
		if o.K == "rev" || o.K == "int" {
			p := o
			for _, f := range []string{"longer", "cut3", "sig", "key", "swap"} {
				p.X = formOf(k, f)
				op(p)
			}
		} else {
			add("code as refresh token", w.build(Op{K: "rfr", Cl: o.Cl, X: k.Str + map[byte]string{'R': "x", 'C': ""}[k.Kind]}))
			add("refresh token as code", w.build(Op{K: "xch", Cl: o.Cl, X: k.Str + map[byte]string{'C': "x", 'R': ""}[k.Kind], Rd: k.Redirect}))
			add("as bearer", w.build(Op{K: "res", X: k.Str}))
		}
		if k.Kind == 'A' {
			add("access token as refresh token", w.build(Op{K: "rfr", Cl: o.Cl, X: k.Str}))
			add("access token as code", w.build(Op{K: "xch", Cl: o.Cl, X: k.Str, Rd: w.client(o.Cl).Redirect}))
		}
	}
	return out
}

func credOf(w *World, o Op) *Cred {
	switch o.K {
	case "xch", "rfr", "rev", "int", "res":
		if o.X == "" && o.Cr >= 0 && o.Cr < len(w.Creds) {
			return w.Creds[o.Cr]
		}
	}
	return nil
}

func TestC12(t *testing.T) {
	c := newCheck(t, "C12", "model_checking",
		"all histories of a lifecycle alphabet to the depth bound, merged by canonical state; in every state every request derived from every valid one by one defect (40-70 defects each); each refused one is followed by comparing the usability of every credential, now and up to expiry; all of them in one sequence, too. Non-trivial: the state holds a credential.")
	c.assume = []string{"the presentation of an already redeemed code is excepted (C04)"}
	defer c.finish()
	check := func(w *World, fork func() *World) string {
		n := len(w.Creds)
		m0 := fork()
		var menu []namedReq
		for _, o := range baseOps(m0) {
			menu = append(menu, namedReq{o.key(), m0.build(o)})
			menu = append(menu, defects(m0, o)...)
		}
		dedup := map[string]bool{}
		one := func(mk func(w *World) bool, name string) string {
			return sameFuture(fork, func() *World { w := fork(); mk(w); return w }, n, nil)
		}
		var all []namedReq
		for _, q := range menu {
			if c.stopped() || c.timeUp() {
				return ""
			}
			id := q.q.String()
			if dedup[id] {
				continue
			}
			dedup[id] = true
			w := fork()
			cnt := w.issuedCount()
			r := w.send(q.q.into(w, m0))
			if r.Panic != "" {
				return q.name + ": panic: " + r.Panic
			}
			if !refused(r) {
				c.outcome("accepted")
				continue
			}
			c.outcome("refused")
			c.evals.Add(1)
			c.progress.Add(1)
			all = append(all, q)
			if w.issuedCount() > cnt {
				return fmt.Sprintf("%s: refused, but a credential was created\nrequest: %s\nanswer: %s", q.name, q.q, r)
			}
			if r.tokens() != nil {
				return fmt.Sprintf("%s: refused, but a credential was delivered\nrequest: %s\nanswer: %s", q.name, q.q, r)
			}
			if msg := one(func(w *World) bool { w.send(q.q.into(w, m0)); return true }, q.name); msg != "" {
				return fmt.Sprintf("%s: %s\nrequest: %s\nanswer: %s", q.name, msg, q.q, r)
			}
		}
		// the whole menu in one go, forwards and backwards
		for dir := 0; dir < 2; dir++ {
			msg := sameFuture(fork, func() *World {
				w := fork()
				for i := range all {
					j := i
					if dir == 1 {
						j = len(all) - 1 - i
					}
					w.send(all[j].q.into(w, m0))
				}
				return w
			}, n, nil)
			if msg != "" {
				return fmt.Sprintf("after %d refused requests in a row: %s", len(all), msg)
			}
		}
		return ""
	}
	d := 2
	if c.thorough() {
		d = 3
	}
	alphabet := func(w *World) []Op {
		out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "imp", Cl: "p1", Us: "u2"}, {K: "code", Cl: "p1", Us: "u2"}}
		out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
		out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
		out = append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
		return append(out, Op{K: "adv", D: 41 * time.Second}, Op{K: "adv", D: 101 * time.Second})
	}
	c.explore(&Model{Name: "refused", Cfg: baseCfg, Depth: d, State: check, Ops: alphabet})
	c.explore(&Model{Name: "refused-after", Cfg: baseCfg, Depth: d - 1, State: check, Ops: alphabet,
		Init: func(w *World) {
			w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "xch", Cl: "c1", Cr: 0})
			w.do(Op{K: "rfr", Cl: "c1", Cr: 2})
			w.do(Op{K: "code", Cl: "p1", Us: "u2", Sc: "foo"})
		}})
	// refused requests in great number
	c.crowded(func(k crowd) bool { return k.refusal }, func(before, after func() *World, n int) string {
		if a, b := before().issuedCount(), after().issuedCount(); b > a {
			return fmt.Sprintf("the server holds %d credentials instead of %d", b, a)
		}
		return sameFuture(before, after, n, nil)
	})
}
