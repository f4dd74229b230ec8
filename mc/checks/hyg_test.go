package checks

// C24 (response hygiene) and C28 (totality and routing).

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
)

func lastSegment(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

// reqParam reads a parameter as the endpoints do: body first for POST, PUT and
// PATCH, then query.
func (q Req) param(k string) string {
	if !q.NoBody && strings.HasPrefix(q.CT, formCT) && (q.Method == "POST" || q.Method == "PUT" || q.Method == "PATCH") {
		kv, _ := formDecode(q.Body)
		if v, n := lookup(kv, k); n > 0 {
			return v
		}
	}
	kv, _ := formDecode(q.Query)
	v, _ := lookup(kv, k)
	return v
}

var tokenLike = regexp.MustCompile(`[A-Za-z0-9_-]+\.[A-Za-z0-9_-]{43}`)

func noCache(r *Resp) string {
	for h, want := range map[string]string{"Cache-Control": "no-store", "Pragma": "no-cache"} {
		ok := false
		for _, v := range r.H.Values(h) {
			for _, p := range strings.Split(v, ",") {
				ok = ok || strings.EqualFold(strings.TrimSpace(p), want)
			}
		}
		if !ok {
			return fmt.Sprintf("no %s: %s (%q)", h, want, r.H.Values(h))
		}
	}
	return ""
}

// headerHygiene judges the form of a response that is JSON or a redirect.
func headerHygiene(r *Resp) string {
	if r.isRedirect() || r.H.Get("Location") != "" {
		if r.Code != 303 {
			return fmt.Sprintf("redirect with status %d", r.Code)
		}
		if r.Body != "" {
			return fmt.Sprintf("redirect with body %q", r.Body)
		}
		if v := r.H.Values("Referrer-Policy"); len(v) != 1 || v[0] != "origin" {
			return fmt.Sprintf("redirect with Referrer-Policy %q", v)
		}
		if v := r.H.Values("Location"); len(v) != 1 {
			return fmt.Sprintf("redirect with Location %q", v)
		}
		return noCache(r)
	}
	if strings.HasPrefix(strings.TrimSpace(r.Body), "{") || strings.Contains(r.H.Get("Content-Type"), "json") {
		v := r.H.Values("Content-Type")
		if len(v) != 1 {
			return fmt.Sprintf("JSON with Content-Type %q", v)
		}
		mt, p, _ := strings.Cut(v[0], ";")
		if !strings.EqualFold(strings.TrimSpace(mt), "application/json") || !strings.EqualFold(strings.ReplaceAll(strings.TrimSpace(p), `"`, ""), "charset=utf-8") {
			return fmt.Sprintf("JSON with Content-Type %q", v)
		}
		if !json.Valid([]byte(r.Body)) {
			return fmt.Sprintf("not one JSON document: %q", r.Body)
		}
		return noCache(r)
	}
	return ""
}

// hygiene judges one answer in full; before is the number of credentials known
// before the request.
func hygiene(w *World, q Req, r *Resp, before int) string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	seg := lastSegment(q.Path)
	endpoint := q.Path != resourcePath && (seg == "authorize" || seg == "token" || seg == "introspect" || seg == "revoke")
	if endpoint {
		if msg := headerHygiene(r); msg != "" {
			return msg
		}
	}
	// collect everything that is sent
	text := r.Body
	for k, v := range r.H {
		text += "\n" + k + ": " + strings.Join(v, "\n")
	}
	// strip the credentials that may be delivered, each from its one place
	allow := func(s, where string) string {
		if s == "" {
			return ""
		}
		for _, c := range w.Creds[:before] {
			if c.Str == s {
				return fmt.Sprintf("%s delivers the existing credential #%d again", where, c.ID)
			}
		}
		if strings.Count(text, s) != 1 {
			return fmt.Sprintf("%s appears %d times in the answer", where, strings.Count(text, s))
		}
		text = strings.Replace(text, s, "", 1)
		return ""
	}
	t := r.tokens()
	if t != nil {
		var l [][2]string
		switch {
		case endpoint && seg == "token" && r.Code == 200 && !r.isRedirect():
			l = [][2]string{{t.Access, "access_token"}, {t.Refresh, "refresh_token"}}
		case endpoint && seg == "authorize" && r.isRedirect():
			_, frag := r.params()
			switch q.param("response_type") {
			case "token":
				if frag {
					l = [][2]string{{t.Access, "access_token"}}
				}
			case "code":
				if !frag {
					l = [][2]string{{t.Code, "code"}}
				}
			}
		}
		for _, e := range l {
			if msg := allow(e[0], e[1]); msg != "" {
				return msg
			}
		}
	}
	for i := 0; i < 3; i++ {
		for _, m := range tokenLike.FindAllString(text, -1) {
			if _, _, genuine, _ := refToken([]byte(w.Cfg.Secret), m); genuine {
				return fmt.Sprintf("a credential is sent where none belongs: %q", m)
			}
		}
		for _, c := range w.Creds {
			if c.ID >= before && t != nil && (c.Str == t.Access || c.Str == t.Refresh || c.Str == t.Code) {
				continue
			}
			for _, part := range []string{c.Str, c.Sig, strings.TrimSuffix(c.Str, "."+c.Sig)} {
				if part != "" && strings.Contains(text, part) {
					return fmt.Sprintf("part of credential #%d is sent: %q", c.ID, part)
				}
			}
		}
		secrets := []string{w.Cfg.Secret}
		for _, c := range w.Cfg.Clients {
			secrets = append(secrets, c.Secret)
		}
		for _, u := range w.Cfg.Users {
			secrets = append(secrets, u[1])
		}
		for _, s := range secrets {
			if s != "" && strings.Contains(text, s) {
				return fmt.Sprintf("the answer contains the secret %q", s)
			}
		}
		text2, ok := pctDecode(text)
		if !ok || text2 == text {
			break
		}
		text = text2
	}
	return ""
}

func TestC24(t *testing.T) {
	c := newCheck(t, "C24", "model_checking",
		"all histories of the lifecycle alphabet to the depth bound, merged by canonical state; in every state every valid request and every request derived from it by one defect, and all of them with hostile states; each answer's headers, body and all places where anything secret or credential-like appears are judged. Library writers: all error kinds, responses and statuses. Non-trivial: the state holds a credential.")
	c.assume = []string{"requests do not themselves carry secrets or credentials in the state parameter"}
	defer c.finish()

	check := func(w *World, fork func() *World) string {
		m0 := fork()
		w = m0
		var menu []namedReq
		for _, o := range baseOps(w) {
			menu = append(menu, namedReq{o.key(), w.build(o)})
			menu = append(menu, defects(w, o)...)
			if o.K == "imp" || o.K == "code" {
				for _, st := range []string{"a&b=c d", "\r\nX-Injected: 1", "é%2F+#?", strings.Repeat("s", 300)} {
					p := o
					p.St = st
					menu = append(menu, namedReq{p.key(), w.build(p)})
					p.Sc = "baz"
					menu = append(menu, namedReq{p.key(), w.build(p)})
					p.Pw = "wrong"
					p.Sc = ""
					menu = append(menu, namedReq{p.key(), w.build(p)})
				}
				q := w.build(o)
				q.Method, q.Query, q.Body, q.NoBody = "GET", q.Body, "", true
				menu = append(menu, namedReq{"GET " + o.key(), q})
			}
		}
		for _, k := range w.Creds {
			if k.Kind == 'C' { // replay, and codes shown to the other endpoints
				menu = append(menu, namedReq{"replay", w.build(Op{K: "xch", Cl: k.Client, Cr: k.ID})}, namedReq{"introspect code", w.build(Op{K: "int", Cl: k.Client, Cr: k.ID})}, namedReq{"revoke code", w.build(Op{K: "rev", Cl: k.Client, Cr: k.ID})})
			}
		}
		seen := map[string]bool{}
		for _, q := range menu {
			if c.stopped() || c.timeUp() {
				return ""
			}
			id := q.q.String()
			if seen[id] {
				continue
			}
			seen[id] = true
			c.evals.Add(1)
			c.progress.Add(1)
			w := fork()
			q.q = q.q.into(w, m0)
			r := w.send(q.q)
			switch {
			case r.isRedirect():
				c.outcome("redirect")
			case r.Code >= 400:
				c.outcome("error")
			default:
				c.outcome("success")
			}
			if msg := hygiene(w, q.q, r, len(w.Creds)); msg != "" {
				return fmt.Sprintf("%s: %s\nrequest: %s\nanswer: %s", q.name, msg, q.q, r)
			}
		}
		return ""
	}
	d := 3
	if c.thorough() {
		d = 4
	}
	c.explore(&Model{Name: "hygiene", Cfg: baseCfg, Depth: d, State: check,
		Ops: func(w *World) []Op {
			out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "imp", Cl: "p1", Us: "u2"}, {K: "cc", Cl: "c2"}}
			out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
			return append(out, Op{K: "adv", D: 101 * time.Second})
		},
		Step: func(x *Ctx) string {
			if x.O.K == "adv" {
				return ""
			}
			w := x.Before()
			return hygiene(w, w.build(x.O), x.R, x.P.N)
		}})

	// the library's writers
	uris := []string{"https://c.example.com/cb", "https://c.example.com/cb?x=1", "app://host/p"}
	states := []string{"", "s", "a&b\r\nX: y"}
	c.parallel(1, func(int) {
		write := func(key string, f func(rec *recorder) error) {
			c.Case("writer: "+key, true, func() string {
				rec := newRecorder()
				if err := f(rec); err != nil {
					return "error: " + err.Error()
				}
				r := rec.resp()
				if r.Writes != 1 {
					return fmt.Sprintf("%d answers", r.Writes)
				}
				if r.Body == "" && r.H.Get("Location") == "" {
					return "neither body nor redirect"
				}
				return headerHygiene(r)
			})
		}
		for _, k := range errKinds() {
			for _, d := range []string{"", "some text", "\"<&>\r\n é"} {
				write(fmt.Sprintf("error %s %q", k.name, d), func(rec *recorder) error { return oauth2.WriteError(rec, k.mk(d)) })
				for _, u := range uris {
					for _, st := range states {
						for _, frag := range []bool{false, true} {
							write(fmt.Sprintf("error %s %q redirect %s %q %v", k.name, d, u, st, frag), func(rec *recorder) error { return oauth2.WriteError(rec, k.mk(d).SetRedirect(u, st, frag)) })
						}
					}
				}
			}
		}
		write("foreign error", func(rec *recorder) error { return oauth2.WriteError(rec, fmt.Errorf("x")) })
		for _, sc := range []oauth2.Scope{nil, {}, {"foo", "bar"}} {
			for _, rt := range []string{"", "refresh"} {
				mk := func() *oauth2.TokenResponse {
					x := oauth2.NewBearerTokenResponse("token", 7)
					x.Scope, x.RefreshToken = sc, rt
					return x
				}
				write(fmt.Sprintf("token %q %q", sc, rt), func(rec *recorder) error { return oauth2.WriteTokenResponse(rec, mk()) })
				for _, u := range uris {
					for _, st := range states {
						write(fmt.Sprintf("token %q %q redirect %s %q", sc, rt, u, st), func(rec *recorder) error {
							return oauth2.WriteTokenResponse(rec, mk().SetRedirect(u, st))
						})
					}
				}
			}
			write(fmt.Sprintf("introspection %q", sc), func(rec *recorder) error {
				return oauth2.WriteIntrospectionResponse(rec, oauth2.NewIntrospectionResponse(true, sc, "c", "u", "access_token"))
			})
		}
		for _, u := range uris {
			for _, st := range states {
				write(fmt.Sprintf("code %s %q", u, st), func(rec *recorder) error {
					return oauth2.WriteCodeResponse(rec, oauth2.NewCodeResponse("code", u, st))
				})
			}
		}
		for status := 200; status < 600; status++ {
			if status >= 300 && status < 400 || status == 204 {
				continue
			}
			write(fmt.Sprint("status ", status), func(rec *recorder) error { return oauth2.Write(rec, map[string]string{"a": "b"}, status) })
		}
	})
}

// --------------------------------------------------------------------- C28

var errorStatus = func() map[string]int {
	m := map[string]int{}
	for _, k := range errKinds() {
		m[k.name] = k.status
	}
	return m
}()

// validNotice tells whether a request is one the form notice is meant for.
func validNotice(w *World, q Req) bool {
	if q.Method != "GET" {
		return false
	}
	kv, ok := formDecode(q.Query)
	if !ok || strings.Contains(q.Query, ";") {
		return false
	}
	rt, _ := lookup(kv, "response_type")
	id, _ := lookup(kv, "client_id")
	uri, _ := lookup(kv, "redirect_uri")
	uri, ok = pctDecode(uri)
	cl := w.client(id)
	return ok && (rt == "token" || rt == "code") && id != "" && cl != nil && uri != "" && uri == cl.Redirect
}

// wellFormed judges whether an answer is one of the protocol's.
func wellFormed(w *World, q Req, r *Resp) string {
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	if r.Writes != 1 {
		return fmt.Sprintf("answered %d times", r.Writes)
	}
	if q.Path == resourcePath {
		if r.OK {
			if r.Code != 200 || r.Body != "RESOURCE" {
				return "the resource was admitted, but the answer was already written"
			}
			return ""
		}
		a := r.H.Get("WWW-Authenticate")
		if r.Body != "" || !strings.HasPrefix(a, "Bearer ") || (r.Code != 400 && r.Code != 401 && r.Code != 403) {
			return "refused without a proper bearer challenge"
		}
		return ""
	}
	seg := lastSegment(q.Path)
	switch seg {
	case "authorize", "token", "introspect", "revoke":
	default:
		if r.Code != 404 {
			return fmt.Sprintf("unknown segment %q answered %d", seg, r.Code)
		}
		return ""
	}
	if r.Code >= 400 {
		m := r.json()
		if m == nil {
			return "error without a JSON object"
		}
		e, ok := m["error"].(string)
		if !ok || e == "" {
			return "error without an error code"
		}
		want, ok := errorStatus[e]
		if !ok {
			return "unknown error code " + e
		}
		if want != r.Code {
			return fmt.Sprintf("error %s with status %d instead of %d", e, r.Code, want)
		}
		if seg == "authorize" && validNotice(w, q) {
			return "a valid GET was refused"
		}
		return ""
	}
	if r.isRedirect() {
		if seg != "authorize" || q.Method != "POST" {
			return "unexpected redirect"
		}
		if r.Code != 303 || r.Body != "" {
			return "redirect is not a bare 303"
		}
		kv, _ := r.params()
		n := 0
		for _, k := range []string{"code", "access_token", "error"} {
			if _, c := lookup(kv, k); c > 0 {
				n++
			}
		}
		if n != 1 {
			return fmt.Sprintf("redirect with %d results", n)
		}
		return ""
	}
	if r.Code != 200 {
		return fmt.Sprintf("status %d", r.Code)
	}
	switch seg {
	case "authorize":
		if !validNotice(w, q) {
			return "the form notice was shown although the request is not a valid GET"
		}
		if r.Body == "" {
			return "empty form notice"
		}
	case "token":
		if q.Method != "POST" {
			return "granted by " + q.Method
		}
		t := r.tokens()
		if t == nil || t.Access == "" || t.Type == "" || t.ExpiresIn == "" {
			return "success without a token response"
		}
	case "introspect":
		if q.Method != "POST" {
			return "introspected by " + q.Method
		}
		if _, ok := r.json()["active"].(bool); !ok {
			return "success without an introspection response"
		}
	case "revoke":
		if q.Method != "POST" {
			return "revoked by " + q.Method
		}
		if r.Body != "" {
			return "revocation answered with a body"
		}
	}
	return ""
}

func TestC28(t *testing.T) {
	c := newCheck(t, "C28", "exploration",
		"full products per endpoint: methods x last segments; token: grant type x client authentication x credential x user x redirect URI x scope; authorization: method x placement x response type x client x redirect URI x scope x user x state; introspection and revocation: method x authentication x token x hint; resource: all header shapes; every single defect of every valid request in 4 states; 4 registries. Each answer is judged and followed by an ordinary request. Non-trivial: all.")
	defer c.finish()

	cfgs := map[string]func() *Cfg{
		"normal": baseCfg,
		"odd": func() *Cfg {
			g := baseCfg()
			g.Clients = append(g.Clients, ClientSpec{"noredirect", "x", "", true}, ClientSpec{"nosecret", "", "https://n.example/cb", true}, ClientSpec{"", "s", "https://empty.example/cb", true})
			g.Users = append(g.Users, [2]string{"", ""}, [2]string{"nopass", ""})
			return g
		},
		"bare": func() *Cfg {
			g := baseCfg()
			g.Clients, g.Users, g.Allowed = g.Clients[:1], nil, nil
			return g
		},
		"empty": func() *Cfg {
			g := baseCfg()
			g.Clients, g.Users, g.Allowed = nil, nil, nil
			return g
		},
	}
	histories := map[string][]Op{
		"fresh": nil,
		"used": {
			{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, // 0
			{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, // 1
			{K: "xch", Cl: "c1", Cr: 1},                // 2 A 3 R
			{K: "pw", Cl: "p1", Us: "u2", Sc: "bar"},   // 4 A 5 R
		},
		"expired": {
			{K: "code", Cl: "c1", Us: "u1", Sc: "foo"},
			{K: "code", Cl: "c1", Us: "u1", Sc: "foo"},
			{K: "xch", Cl: "c1", Cr: 1},
			{K: "pw", Cl: "p1", Us: "u2", Sc: "bar"},
			{K: "adv", D: 101 * time.Second},
		},
		"spent": {
			{K: "code", Cl: "c1", Us: "u1", Sc: "foo"},
			{K: "code", Cl: "c1", Us: "u1", Sc: "foo"},
			{K: "xch", Cl: "c1", Cr: 1},
			{K: "pw", Cl: "p1", Us: "u2", Sc: "bar"},
			{K: "rev", Cl: "c1", Cr: 2},
			{K: "rfr", Cl: "c1", Cr: 3},
			{K: "xch", Cl: "c1", Cr: 0},
		},
	}
	world := func(cfg, h string) *World {
		w := newWorld(cfgs[cfg]())
		for _, o := range histories[h] {
			w.do(o)
		}
		return w
	}
	judge := func(cfg, h, name string, mk func(w *World) Req) {
		if c.stopped() || c.timeUp() {
			return
		}
		key := cfg + "/" + h + ": " + name
		c.Case(key, true, func() string {
			w := world(cfg, h)
			q := mk(w)
			r := w.send(q)
			c.outcome(fmt.Sprint(r.Code, " ", r.err()))
			msg := wellFormed(w, q, r)
			if msg == "" && (cfg == "normal" || cfg == "odd") {
				n := w.send(w.build(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}))
				if n.Panic != "" || n.Code != 200 || n.tokens() == nil {
					msg = "afterwards an ordinary request is not served: " + n.String()
				}
			}
			if msg == "" && len(cfgs[cfg]().Users) == 0 {
				n := w.send(Req{Method: "POST", Path: "/oauth2/token", CT: formCT})
				if n.Panic != "" || n.Code != 400 {
					msg = "afterwards an ordinary request is not served: " + n.String()
				}
			}
			if msg != "" {
				return fmt.Sprintf("%s\nrequest: %s\nanswer: %s", msg, q, r)
			}
			return ""
		})
	}

	type job func()
	var jobs []job
	methods := []string{"POST", "GET", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE", "post", "get", "", "X-ODD"}
	segs := []string{"authorize", "token", "introspect", "revoke"}
	paths := []string{"", "/", "//", "/oauth2", "/oauth2/", "/x", "/authorize/x", "/token/revoke/x"}
	for _, s := range segs {
		paths = append(paths, s, "/"+s, "/a/b/c/"+s, "//"+s, "/revoke/"+s, "/token/"+s, s+"/", "/"+s+"/", "/"+s+"x", "/x"+s, "/"+strings.ToUpper(s), "/"+s+" ", "/ "+s, "/"+s[:len(s)-1], "/"+s+"?", "/"+s+";v=1", "/%2F"+s, "/a\\"+s, "/"+s+"/.", "/"+s+"/..", "/"+s+".json", "/é/"+s, "/"+s+"\x00")
	}
	// routing
	for _, cfg := range []string{"normal", "empty"} {
		for _, p := range paths {
			jobs = append(jobs, func() {
				for _, m := range methods {
					for bi, mk := range []func(w *World) Req{
						func(w *World) Req { return Req{Method: m, NoBody: true} },
						func(w *World) Req { return Req{Method: m, CT: formCT, Body: ""} },
						func(w *World) Req { return w.build(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}) },
						func(w *World) Req { return w.build(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}) },
						func(w *World) Req { q := w.build(Op{K: "int", Cl: "c1", Cr: 2}); return q },
						func(w *World) Req {
							q := w.build(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo"})
							q.Query, q.Body, q.NoBody = q.Body, "", true
							return q
						},
					} {
						judge(cfg, map[string]string{"normal": "used", "empty": "fresh"}[cfg], fmt.Sprintf("route %s %q body %d", m, p, bi), func(w *World) Req {
							q := mk(w)
							q.Method, q.Path = m, p
							return q
						})
					}
				}
			})
		}
	}
	// the same path, spelled with escapes
	for _, s := range segs {
		for _, p := range []string{s, "/" + s, "/a/b/c/" + s, "/a b/" + s} {
			jobs = append(jobs, func() {
				for _, m := range []string{"POST", "GET", "HEAD"} {
					for _, op := range []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "int", Cl: "c1", Cr: 2}} {
						judge("normal", "used", fmt.Sprintf("route %s %q %s escaped", m, p, op.K), func(w *World) Req {
							q := w.build(op)
							q.Method, q.Path, q.Circ = m, p, "raw path"
							return q
						})
					}
				}
			})
		}
	}
	// every segment that is nearly one of an endpoint, or might be one elsewhere
	near := map[string]bool{}
	for _, s := range segs {
		for i := 0; i <= len(s); i++ {
			for x := byte('!'); x < 0x7f; x++ {
				if x != '/' {
					near[s[:i]+string(rune(x))+s[i:]] = true
					if i < len(s) {
						near[s[:i]+string(rune(x))+s[i+1:]] = true
					}
				}
			}
			if i < len(s) {
				near[s[:i]+s[i+1:]], near[s[:i]], near[s[i:]] = true, true, true
			}
		}
	}
	for _, s := range strings.Fields("authorise authorization auth login logout oauth oauth2 connect signin consent callback cb token_info tokeninfo access_token refresh refresh_token tokens introspection introspect_token inspect verify check check_token validate revocation revoke_token invalidate userinfo me jwks jwks.json keys certs register registration client clients user users par device device_authorization health healthz ping status metrics debug admin config version index.html favicon.ico robots.txt openid-configuration oauth-authorization-server .well-known api v1 protected resource code error success form") {
		near[s] = true
	}
	for _, s := range segs {
		delete(near, s)
	}
	nears := keysOf(near)
	for i := 0; i < len(nears); i += 40 {
		part := nears[i:min(i+40, len(nears))]
		jobs = append(jobs, func() {
			for _, s := range part {
				for bi, o := range []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "int", Cl: "c1", Cr: 2}, {K: "rev", Cl: "c1", Cr: 2}} {
					for _, m := range []string{"POST", "GET"} {
						judge("normal", "used", fmt.Sprintf("segment %q %s %d", s, m, bi), func(w *World) Req {
							q := w.build(o)
							q.Method, q.Path = m, "/oauth2/"+s
							if m == "GET" {
								q.Query, q.Body, q.NoBody = q.Body, "", true
							}
							return q
						})
					}
				}
			}
		})
	}
	// headers at methods that are not allowed, and at ones that are
	for _, s := range segs {
		jobs = append(jobs, func() {
			for _, m := range methods {
				for _, h := range strayHeaders {
					judge("normal", "used", fmt.Sprintf("%s %q with %s: %s", s, m, h[0], h[1]), func(w *World) Req {
						q := w.build(map[string]Op{"authorize": {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, "token": {K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, "introspect": {K: "int", Cl: "c1", Cr: 2}, "revoke": {K: "rev", Cl: "c1", Cr: 2}}[s])
						q.Method, q.HX = m, append(q.HX, h)
						return q
					})
				}
			}
		})
	}
	// parameter products; "-" leaves a parameter out
	opt := func(kv []string, k, v string) []string {
		if v == "-" {
			return kv
		}
		return append(kv, k, v)
	}
	auths := map[string]func(q *Req, kv []string) []string{
		"none":    func(q *Req, kv []string) []string { return kv },
		"c1":      func(q *Req, kv []string) []string { q.HasA, q.Auth = true, basic("c1", "s1-Secret"); return kv },
		"p1":      func(q *Req, kv []string) []string { q.HasA, q.Auth = true, basic("p1", ""); return kv },
		"wrong":   func(q *Req, kv []string) []string { q.HasA, q.Auth = true, basic("c1", "nope"); return kv },
		"nobody":  func(q *Req, kv []string) []string { q.HasA, q.Auth = true, basic("nobody", "x"); return kv },
		"empty":   func(q *Req, kv []string) []string { q.HasA, q.Auth = true, basic("", ""); return kv },
		"garbage": func(q *Req, kv []string) []string { q.HasA, q.Auth = true, "Basic !!"; return kv },
		"bearer":  func(q *Req, kv []string) []string { q.HasA, q.Auth = true, "Bearer abc"; return kv },
		"body":    func(q *Req, kv []string) []string { return append(kv, "client_id", "c1", "client_secret", "s1-Secret") },
		"bodyp1":  func(q *Req, kv []string) []string { return append(kv, "client_id", "p1") },
	}
	cred := func(w *World, k string) string {
		i := map[string]int{"code": 0, "spent": 1, "access": 2, "refresh": 3, "other": 4}
		if n, ok := i[k]; ok {
			if n < len(w.Creds) {
				return w.Creds[n].Str
			}
			return "none"
		}
		if k == "unknown" {
			tk := oauth2.MustGenerateHS256Token([]byte(w.Cfg.Secret), 16)
			return tk.String()
		}
		return k
	}
	creds := []string{"-", "", "code", "spent", "access", "refresh", "other", "unknown", "x.y", "x", ".", "a.b.c"}
	for _, cfg := range []string{"normal", "odd", "bare", "empty"} {
		for _, hn := range []string{"used", "expired", "spent", "fresh"} {
			if (cfg == "bare" || cfg == "empty") && hn != "fresh" || cfg == "odd" && hn != "used" {
				continue
			}
			if !c.thorough() && hn == "fresh" && cfg == "normal" {
				continue
			}
			for an := range auths {
				jobs = append(jobs, func() {
					au := auths[an]
					for _, gt := range []string{"-", "", "password", "client_credentials", "authorization_code", "refresh_token", "implicit", "PASSWORD"} {
						for _, cr := range creds {
							for _, us := range [][2]string{{"-", "-"}, {"u1", "pw1-Pass"}, {"u1", "wrong"}, {"", ""}} {
								for _, ru := range []string{"-", "https://c1.example.com/cb", "https://evil.example/", "%zz", "rel"} {
									for _, sc := range []string{"-", "foo", "baz"} {
										if cr != "-" && us[0] != "-" && !c.thorough() {
											continue
										}
										judge(cfg, hn, fmt.Sprintf("token auth=%s gt=%q cr=%s us=%q ru=%s sc=%s", an, gt, cr, us, ru, sc), func(w *World) Req {
											q := Req{Method: "POST", Path: "/oauth2/token", CT: formCT}
											kv := opt(nil, "grant_type", gt)
											if cr != "-" {
												v := cred(w, cr)
												kv = append(kv, "code", v, "refresh_token", v)
											}
											kv = opt(kv, "username", us[0])
											kv = opt(kv, "password", us[1])
											kv = opt(kv, "redirect_uri", ru)
											kv = opt(kv, "scope", sc)
											q.Body = form(au(&q, kv)...)
											return q
										})
									}
								}
							}
						}
					}
					for _, ep := range []string{"introspect", "revoke"} {
						for _, m := range methods {
							for _, cr := range creds {
								for _, h := range []string{"-", "", "access_token", "refresh_token", "code", "ACCESS_TOKEN"} {
									if m != "POST" && cr != "access" && cr != "-" {
										continue
									}
									judge(cfg, hn, fmt.Sprintf("%s %s auth=%s cr=%s hint=%s", m, ep, an, cr, h), func(w *World) Req {
										q := Req{Method: m, Path: "/oauth2/" + ep, CT: formCT}
										kv := opt(nil, "token", cred(w, cr))
										kv = opt(kv, "token_type_hint", h)
										q.Body = form(au(&q, kv)...)
										return q
									})
								}
							}
						}
					}
				})
			}
			for _, cl := range []string{"-", "", "c1", "p1", "nobody", "noredirect", "nosecret"} {
				jobs = append(jobs, func() {
					for _, m := range []string{"GET", "POST", "PUT", "HEAD"} {
						for _, pl := range []string{"query", "body", "both"} {
							for _, rt := range []string{"-", "", "token", "code", "Token", "id_token"} {
								for _, ru := range []string{"-", "", "right", "https://evil.example/", "%zz", "rel", "frag"} {
									for _, sc := range []string{"-", "foo", "baz"} {
										for _, us := range [][2]string{{"-", "-"}, {"u1", "pw1-Pass"}, {"u1", "wrong"}} {
											for _, st := range []string{"-", "a&b\r\n"} {
												if !c.thorough() && (hn != "used" && hn != "fresh" || m != "POST" && us[0] != "-" && us[1] == "wrong") {
													continue
												}
												judge(cfg, hn, fmt.Sprintf("authorize %s in %s cl=%s rt=%s ru=%s sc=%s us=%q st=%q", m, pl, cl, rt, ru, sc, us, st), func(w *World) Req {
													q := Req{Method: m, Path: "/oauth2/authorize", CT: formCT}
													uri := ru
													if s := w.client(cl); s != nil && (ru == "right" || ru == "frag") {
														uri = s.Redirect
														if ru == "frag" {
															uri += "#f"
														}
													}
													kv := opt(nil, "client_id", cl)
													kv = opt(kv, "response_type", rt)
													kv = opt(kv, "redirect_uri", uri)
													kv = opt(kv, "scope", sc)
													kv = opt(kv, "state", st)
													us2 := opt(opt(nil, "username", us[0]), "password", us[1])
													switch pl {
													case "query":
														q.Query = form(append(kv, us2...)...)
														q.NoBody = true
													case "body":
														q.Body = form(append(kv, us2...)...)
													case "both":
														q.Query, q.Body = form(kv...), form(us2...)
													}
													return q
												})
											}
										}
									}
								}
							}
						}
					}
				})
			}
		}
	}
	// resources
	for _, hn := range []string{"used", "expired", "spent"} {
		jobs = append(jobs, func() {
			for _, a := range append([]string{"none", "", "Bearer", "Bearer ", "bearer", "Basic x", " Bearer x", "Bearer  ", "Bearer a b", "\x00", "Bearer é"}, creds...) {
				for _, need := range [][]string{nil, {}, {"foo"}, {"baz"}, {""}, {"foo", "foo"}} {
					for _, m := range []string{"GET", "POST", "PUT", ""} {
						judge("normal", hn, fmt.Sprintf("resource %s auth=%q need=%q", m, a, need), func(w *World) Req {
							q := Req{Method: m, Path: resourcePath, NoBody: true, Need: need, HasA: true, Auth: a}
							if a == "none" {
								q.HasA = false
							}
							for _, k := range creds {
								if a == k && a != "" {
									q.Auth = "Bearer " + cred(w, k)
								}
							}
							return q
						})
					}
				}
			}
		})
	}
	// single defects
	for hn := range histories {
		jobs = append(jobs, func() {
			var n int
			w := world("normal", hn)
			for _, o := range baseOps(w) {
				n = len(defects(w, o))
				for i := 0; i < n; i++ {
					name := ""
					func() { name = defects(world("normal", hn), o)[i].name }()
					judge("normal", hn, fmt.Sprintf("defect %s %d", name, i), func(w *World) Req { return defects(w, o)[i].q })
				}
			}
		})
	}
	c.parallel(len(jobs), func(i int) { jobs[i]() })
}
