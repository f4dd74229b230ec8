package checks

// The conformance suite itself (C27): it must pass conforming servers under
// every specification and fail every server with a single deviation.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
	"github.com/256dpi/oauth2/v2/oauth2test"
)

// suiteCfg selects what the server under test supports and the suite exercises.
type suiteCfg struct {
	pw, cc, imp, code, rfr bool
	introspect, revoke     bool
	replay                 bool
	restricted             bool // the server really lacks what is not exercised
	variation              int  // harmless difference in its answers
	wide                   bool // other lifespans, scopes, names and secrets
}

func (s suiteCfg) String() string {
	out := ""
	for _, x := range []struct {
		b bool
		n string
	}{{s.pw, "pw"}, {s.cc, "cc"}, {s.imp, "imp"}, {s.code, "code"}, {s.rfr, "rfr"}, {s.introspect, "int"}, {s.revoke, "rev"}, {s.replay, "replay"}, {s.restricted, "restricted"}, {s.wide, "wide"}} {
		if x.b {
			out += "+" + x.n
		}
	}
	if s.variation > 0 {
		out += fmt.Sprintf("+v%d", s.variation)
	}
	if out == "" {
		return "none"
	}
	return out[1:]
}

// exch is one exchange of the suite with the server.
type exch struct {
	n     int
	ep    string // token authorize introspect revoke resource
	get   bool
	form  url.Values
	user  string
	pass  string
	basic bool
	hasA  bool
	tok   string // bearer token
	base  *Resp
	err   string // the error the base server answered
	spec  *oauth2test.Spec
	h     *suiteHandler
	devs  []deviation
}

func (x *exch) f(k string) string { return x.form.Get(k) }
func (x *exch) grant() string     { return x.f("grant_type") }
func (x *exch) refused() bool     { return x.base.Code >= 400 || x.err != "" }
func (x *exch) authed() bool {
	return x.user == x.spec.ConfidentialClientID && x.pass == x.spec.ConfidentialClientSecret
}

// suiteHandler is the conforming server with an optional deviation.
type suiteHandler struct {
	cfg     suiteCfg
	s       *oauth2.Server
	spec    *oauth2test.Spec
	n       int
	dev     func(x *exch) *Resp // nil: answer as it should be
	before  func(x *exch) *Resp // answers without asking the server
	log     []*exch             // if keep
	keep    bool
	revoked map[string]bool // tokens whose revocation was answered with 200
	spent   map[string]bool // refresh tokens redeemed, codes exchanged
	issued  map[string]byte // A, R, C
	touched int             // how often dev changed an answer
}

func newSuite(cfg suiteCfg) *suiteHandler {
	allowed := oauth2.Scope{"foo", "bar"}
	secret, id1, sec1, id2, usr, pwd := "secret", "client1", "foo", "client2", "user1", "foo"
	cb := "http://example.com/callback"
	if cfg.wide {
		allowed = oauth2.Scope{"read:all", "write:x", "z"}
		secret, id1, sec1, id2, usr, pwd = "another-server-secret", "conf-client", "S3cr.et~", "pub-client", "jane", "correct-horse"
		cb = "https://app.example.org:8443/cb/"
	}
	sc := oauth2.DefaultServerConfig([]byte(secret), allowed)
	if cfg.wide {
		sc.KeyLength, sc.AccessTokenLifespan = 32, 90*time.Second
	}
	s := oauth2.NewServer(sc)
	s.Clients[id1] = &oauth2.ServerEntity{Secret: sec1, RedirectURI: cb + "1", Confidential: true}
	s.Clients[id2] = &oauth2.ServerEntity{Secret: sec1, RedirectURI: cb + "2"}
	s.Users[usr] = &oauth2.ServerEntity{Secret: pwd}
	put := func(m map[string]*oauth2.ServerCredential, scope oauth2.Scope, d time.Duration) string {
		t := sc.MustGenerate()
		if m != nil {
			m[t.SignatureString()] = &oauth2.ServerCredential{ClientID: id1, Scope: scope, ExpiresAt: time.Now().Add(d)}
		}
		return t.String()
	}
	h := &suiteHandler{cfg: cfg, s: s, revoked: map[string]bool{}, spent: map[string]bool{}, issued: map[string]byte{}}
	spec := oauth2test.Default(h)
	h.spec = spec
	spec.PasswordGrantSupport, spec.ClientCredentialsGrantSupport, spec.ImplicitGrantSupport = cfg.pw, cfg.cc, cfg.imp
	spec.AuthorizationCodeGrantSupport, spec.RefreshTokenGrantSupport = cfg.code, cfg.rfr
	spec.ConfidentialClientID, spec.ConfidentialClientSecret, spec.PublicClientID = id1, sec1, id2
	spec.ResourceOwnerUsername, spec.ResourceOwnerPassword = usr, pwd
	spec.InvalidScope, spec.ValidScope, spec.ExceedingScope = "baz", strings.Join(allowed, " "), strings.Join(allowed, " ")+" baz"
	spec.ExpectedExpiresIn = int(sc.AccessTokenLifespan / time.Second)
	spec.InvalidToken, spec.UnknownToken = "invalid", put(nil, nil, 0)
	spec.ValidToken = put(s.AccessTokens, allowed, time.Hour)
	spec.ExpiredToken = put(s.AccessTokens, allowed, -time.Hour)
	spec.InsufficientToken = put(s.AccessTokens, oauth2.Scope{}, time.Hour)
	spec.InvalidRedirectURI, spec.PrimaryRedirectURI, spec.SecondaryRedirectURI = "http://invalid.com", cb+"1", cb+"2"
	spec.InvalidRefreshToken, spec.UnknownRefreshToken = "invalid", put(nil, nil, 0)
	spec.ValidRefreshToken = put(s.RefreshTokens, allowed, time.Hour)
	spec.ExpiredRefreshToken = put(s.RefreshTokens, allowed, -time.Hour)
	spec.InvalidAuthorizationCode, spec.UnknownAuthorizationCode = "invalid", put(nil, nil, 0)
	spec.ExpiredAuthorizationCode = put(s.AuthorizationCodes, allowed, -time.Hour)
	spec.InvalidAuthorizationParams = map[string]string{"username": usr, "password": "invalid"}
	spec.ValidAuthorizationParams = map[string]string{"username": usr, "password": pwd}
	spec.CodeReplayMitigation = cfg.replay
	if !cfg.introspect {
		spec.IntrospectionEndpoint = ""
	}
	if !cfg.revoke {
		spec.RevocationEndpoint = ""
	}
	h.issued[spec.ValidToken] = 'A'
	h.issued[spec.ValidRefreshToken] = 'R'
	return h
}

func (h *suiteHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	x := &exch{n: h.n, get: r.Method == "GET", form: url.Values{}, spec: h.spec, h: h}
	h.n++
	for k, v := range r.PostForm {
		x.form[k] = append([]string(nil), v...)
	}
	x.user, x.pass, x.basic = r.BasicAuth()
	if a := r.Header.Get("Authorization"); a != "" {
		x.hasA = true
		x.tok = strings.TrimPrefix(a, "Bearer ")
	}
	switch r.URL.Path {
	case "/oauth2/token":
		x.ep = "token"
	case "/oauth2/authorize":
		x.ep = "authorize"
	case "/oauth2/introspect":
		x.ep = "introspect"
	case "/oauth2/revoke":
		x.ep = "revoke"
	default:
		x.ep = "resource"
	}
	var out *Resp
	if h.before != nil {
		out = h.before(x)
	}
	if out == nil {
		x.base = h.honest(x, r)
		x.err = x.base.err()
		if h.dev != nil {
			out = h.dev(x)
		}
		if out != nil {
			h.touched++
		} else {
			out = x.base
		}
		// what the suite now knows
		if !x.refused() {
			switch x.ep {
			case "token":
				h.spent[x.f("refresh_token")], h.spent[x.f("code")] = true, true
				t := x.base.tokens()
				h.issued[t.Access], h.issued[t.Refresh] = 'A', 'R'
			case "authorize":
				if t := x.base.tokens(); t != nil {
					h.issued[t.Access], h.issued[t.Code] = 'A', 'C'
				}
			case "revoke":
				h.revoked[x.f("token")] = true
			}
		}
	} else {
		h.touched++
		x.base = out
	}
	if h.keep {
		h.log = append(h.log, x)
	}
	for k, v := range out.H {
		w.Header()[k] = v
	}
	w.WriteHeader(out.Code)
	_, _ = w.Write([]byte(out.Body))
}

// honest is the conforming answer.
func (h *suiteHandler) honest(x *exch, r *http.Request) *Resp {
	cfg := h.cfg
	if cfg.restricted {
		supported := map[string]bool{"password": cfg.pw, "client_credentials": cfg.cc, "authorization_code": cfg.code, "refresh_token": cfg.rfr}
		types := map[string]bool{"token": cfg.imp, "code": cfg.code}
		no := func(s map[string]bool, k string) bool { v, ok := s[k]; return ok && !v }
		switch {
		case x.ep == "introspect" && !cfg.introspect, x.ep == "revoke" && !cfg.revoke:
			return &Resp{Code: 404, H: http.Header{}}
		case x.ep == "token" && x.authed() && no(supported, x.grant()):
			return errResp(400, "unsupported_grant_type")
		case x.ep == "authorize" && h.s.Clients[x.f("client_id")] != nil && x.f("redirect_uri") == h.spec.PrimaryRedirectURI && no(types, x.f("response_type")):
			return errResp(400, "unsupported_response_type")
		}
	}
	rec := newRecorder()
	if x.ep == "resource" {
		need := oauth2.Scope{"foo"}
		if cfg.wide {
			need = oauth2.Scope{"write:x", "z"}
		}
		if h.s.Authorize(rec, r, need) {
			_, _ = rec.Write([]byte("OK"))
		}
	} else {
		h.s.ServeHTTP(rec, r)
	}
	a := rec.resp()
	if cfg.restricted && !cfg.rfr && x.ep == "token" && a.Code == 200 {
		a = setMember(a, "refresh_token", nil)
	}
	switch cfg.variation { // none of these concerns anything the standards fix
	case 1:
		if a.json() != nil {
			a = setMember(a, "x_extra", "more")
		}
		a = clone(a)
		a.H.Set("X-Frame-Options", "deny")
		a.H.Set("Server", "other/1.0")
	case 2:
		if m := a.json(); m != nil {
			b, _ := json.MarshalIndent(m, " ", "\t")
			a = clone(a)
			a.Body = string(b)
		}
	case 3:
		if m := a.json(); m != nil && m["error_description"] != nil {
			a = setMember(a, "error_description", nil)
		}
		if v := a.H.Get("WWW-Authenticate"); v != "" {
			a = clone(a)
			a.H.Set("WWW-Authenticate", strings.Replace(v, `"OAuth2"`, `"some other realm"`, 1))
		}
	}
	return a
}

func clone(r *Resp) *Resp {
	x := *r
	x.H = r.H.Clone()
	return &x
}

func errResp(code int, name string) *Resp {
	h := http.Header{"Content-Type": {"application/json; charset=utf-8"}, "Cache-Control": {"no-store"}, "Pragma": {"no-cache"}}
	if code == 401 {
		h.Set("WWW-Authenticate", `Basic realm="OAuth2"`)
	}
	return &Resp{Code: code, H: h, Body: fmt.Sprintf("{\"error\":%q}\n", name)}
}

// setMember changes (nil: removes) a member of a JSON answer.
func setMember(r *Resp, k string, v any) *Resp {
	m := r.json()
	if v == nil {
		delete(m, k)
	} else {
		m[k] = v
	}
	b, _ := json.Marshal(m)
	x := clone(r)
	x.Body = string(b) + "\n"
	return x
}

// setParam changes ("": removes) a parameter of a redirect.
func setParam(r *Resp, k, v string) *Resp {
	kv, frag := r.params()
	q := url.Values{}
	for _, p := range kv {
		q.Add(p[0], p[1])
	}
	if v == "" {
		q.Del(k)
	} else {
		q.Set(k, v)
	}
	base, _, _, _ := r.location()
	x := clone(r)
	sep := "?"
	if frag {
		sep = "#"
	}
	x.H.Set("Location", base+sep+q.Encode())
	return x
}

// moved delivers the parameters of a redirect in the other place.
func moved(r *Resp) *Resp {
	kv, frag := r.params()
	q := url.Values{}
	for _, p := range kv {
		q.Add(p[0], p[1])
	}
	base, _, _, _ := r.location()
	x := clone(r)
	sep := "#"
	if frag {
		sep = "?"
	}
	x.H.Set("Location", base+sep+q.Encode())
	return x
}

func withStatus(r *Resp, code int) *Resp {
	x := clone(r)
	x.Code = code
	return x
}

func bearer(code int, name string) *Resp {
	return &Resp{Code: code, H: http.Header{"Www-Authenticate": {`Bearer realm="OAuth2", error="` + name + `"`}}}
}

// success is the answer a careless server would give.
func (x *exch) success() *Resp {
	s := x.spec
	plain := func(body string) *Resp {
		return &Resp{Code: 200, H: http.Header{"Content-Type": {"application/json; charset=utf-8"}, "Cache-Control": {"no-store"}, "Pragma": {"no-cache"}}, Body: body}
	}
	switch x.ep {
	case "resource":
		return &Resp{Code: 200, H: http.Header{}, Body: "OK"}
	case "revoke":
		return &Resp{Code: 200, H: http.Header{}}
	case "introspect":
		b, _ := json.Marshal(map[string]any{"active": true, "scope": s.ValidScope, "client_id": s.ConfidentialClientID, "token_type": x.typeOf(x.f("token")), "exp": 4000000000})
		return plain(string(b))
	case "token":
		b, _ := json.Marshal(map[string]any{"token_type": "bearer", "access_token": s.UnknownToken, "refresh_token": s.UnknownToken, "expires_in": s.ExpectedExpiresIn, "scope": s.ValidScope})
		return plain(string(b))
	}
	q := url.Values{"state": {x.f("state")}}
	sep := "?"
	if x.f("response_type") == "token" {
		sep = "#"
		q.Set("access_token", s.UnknownToken)
		q.Set("token_type", "bearer")
		q.Set("scope", s.ValidScope)
		q.Set("expires_in", fmt.Sprint(s.ExpectedExpiresIn))
	} else {
		q.Set("code", s.UnknownToken)
	}
	return &Resp{Code: 303, H: http.Header{"Location": {x.f("redirect_uri") + sep + q.Encode()}}}
}

func (x *exch) typeOf(tok string) string {
	if x.h.issued[tok] == 'R' {
		return "refresh_token"
	}
	return "access_token"
}

type deviation struct {
	name   string
	resp   *Resp
	before bool // the server does not see the request
}

// deviations are the single wrong answers the suite must notice.
func (x *exch) deviations() []deviation {
	var out []deviation
	add := func(name string, r *Resp) { out = append(out, deviation{name, r, false}) }
	b := x.base
	if x.ep == "authorize" && x.get {
		add("absent", &Resp{Code: 404, H: http.Header{}})
		return out
	}
	// statuses
	other := []int{200, 201, 400, 401, 403, 404, 500}
	if b.isRedirect() {
		other = []int{200, 302, 400, 500}
	}
	for _, c := range other {
		if c != b.Code {
			add(fmt.Sprint("status ", c), withStatus(b, c))
		}
	}
	if x.refused() {
		add("granted", x.success())
		if !b.isRedirect() && b.json() != nil {
			for _, e := range []string{"server_error", "invalid_request", "invalid_grant", "invalid_client", "access_denied", "unsupported_grant_type", "Invalid_scope"} {
				if e != x.err {
					add("error "+e, setMember(b, "error", e))
				}
			}
			add("no error", setMember(b, "error", nil))
			asked := x.ep == "authorize" || x.grant() == "client_credentials" || (x.ep == "introspect" || x.ep == "revoke") && x.user != x.spec.PublicClientID
			if asked && b.Code == 401 {
				y := clone(b)
				y.H.Del("WWW-Authenticate")
				add("no challenge", y)
				y = clone(b)
				y.H.Set("WWW-Authenticate", "Basic x=y")
				add("no realm", y)
			}
		}
		if b.isRedirect() {
			for _, e := range []string{"server_error", "invalid_request", "access_denied", "invalid_scope", ""} {
				if e != x.err {
					add("error "+e, setParam(b, "error", e))
				}
			}
		}
		if x.ep == "resource" {
			replayed := x.h.issued[x.tok] == 'A' && !x.h.revoked[x.tok]
			ch := b.H.Get("WWW-Authenticate")
			if x.err != "" && !replayed {
				for _, e := range []string{"invalid_request", "invalid_token", "insufficient_scope", "x"} {
					if e != x.err {
						y := clone(b)
						y.H.Set("WWW-Authenticate", strings.Replace(ch, `"`+x.err+`"`, `"`+e+`"`, 1))
						add("error "+e, y)
					}
				}
				y := clone(b)
				y.H.Set("WWW-Authenticate", `Bearer realm="OAuth2"`)
				add("no error", y)
			}
			if x.h.issued[x.tok] == 0 {
				y := clone(b)
				y.Body = "secret resource"
				add("body", y)
			}
			if !x.hasA {
				y := clone(b)
				y.H.Set("WWW-Authenticate", "Bearer x=y")
				add("no realm", y)
				y = clone(b)
				y.H.Del("WWW-Authenticate")
				add("no challenge", y)
			}
		}
	} else {
		switch {
		case b.isRedirect():
			add("denied", setParam(setParam(setParam(b, "access_token", ""), "code", ""), "error", "access_denied"))
			add("refused", errResp(400, "invalid_request"))
		case x.ep == "resource":
			for _, r := range []*Resp{bearer(401, "invalid_token"), bearer(403, "insufficient_scope"), bearer(400, "invalid_request")} {
				add(fmt.Sprint("refused ", r.Code), r)
			}
		default:
			for _, r := range []*Resp{errResp(400, "invalid_request"), errResp(400, "invalid_grant"), errResp(401, "invalid_client"), errResp(500, "server_error")} {
				add(fmt.Sprint("refused ", r.Body), r)
			}
			out = append(out, deviation{"refused outright", errResp(503, "temporarily_unavailable"), true})
		}
		m := b.json()
		switch x.ep {
		case "token":
			s := x.spec.ValidScope
			fs := strings.Fields(s)
			for _, v := range []any{fs[0], strings.Join(fs[1:], " "), s + " baz", "baz", "", nil, strings.ToUpper(s)} {
				add(fmt.Sprintf("scope %v", v), setMember(b, "scope", v))
			}
			for _, v := range []any{x.spec.ExpectedExpiresIn + 1, x.spec.ExpectedExpiresIn - 1, 0, -1, x.spec.ExpectedExpiresIn * 1000, nil} {
				add(fmt.Sprintf("lifetime %v", v), setMember(b, "expires_in", v))
			}
			for _, v := range []any{"mac", "", nil, "access_token"} {
				add(fmt.Sprintf("type %v", v), setMember(b, "token_type", v))
			}
			add("no access token", setMember(b, "access_token", nil))
			if x.spec.RefreshTokenGrantSupport {
				add("no refresh token", setMember(b, "refresh_token", nil))
			}
		case "authorize":
			if x.f("response_type") == "token" {
				s := x.spec.ValidScope
				fs := strings.Fields(s)
				for _, v := range []string{fs[0], strings.Join(fs[1:], " "), s + " baz", "baz", ""} {
					add("scope "+v, setParam(b, "scope", v))
				}
				for _, v := range []int{x.spec.ExpectedExpiresIn + 1, x.spec.ExpectedExpiresIn - 1, 0, -1} {
					add(fmt.Sprint("lifetime ", v), setParam(b, "expires_in", fmt.Sprint(v)))
				}
				add("no lifetime", setParam(b, "expires_in", ""))
				add("type mac", setParam(b, "token_type", "mac"))
				add("no type", setParam(b, "token_type", ""))
				add("no access token", setParam(b, "access_token", ""))
				add("refresh token", setParam(b, "refresh_token", x.spec.UnknownToken))
				add("unusable token", setParam(b, "access_token", x.spec.UnknownToken))
			} else {
				add("no code", setParam(b, "code", ""))
				add("unusable code", setParam(b, "code", x.spec.UnknownToken))
			}
		case "introspect":
			known := x.h.issued[x.f("token")] != 0
			if m["active"] == true {
				add("inactive", setMember(b, "active", false))
				add("no activity", setMember(b, "active", nil))
				if known && x.f("token") != x.spec.ValidToken {
					for _, v := range []any{"bearer", "", nil, "refresh_token", "access_token"} {
						if v != m["token_type"] {
							add(fmt.Sprintf("type %v", v), setMember(b, "token_type", v))
						}
					}
				}
			} else if known {
				add("active", x.success())
			}
		case "revoke":
			if k := x.h.issued[x.f("token")]; k == 'A' || k == 'R' {
				out = append(out, deviation{"without effect", &Resp{Code: 200, H: http.Header{}}, true})
			}
		}
	}
	if b.isRedirect() {
		add("wrong state", setParam(b, "state", x.f("state")+"x"))
		add("no state", setParam(b, "state", ""))
		add("wrong place", moved(b))
	}
	return out
}

// ------------------------------------------------------------ bad servers

// badServer misbehaves whenever a condition is met.
type badServer struct {
	name string
	on   func(c suiteCfg) bool // for which specifications the suite must notice
	dev  func(x *exch) *Resp   // nil: conforming
	pre  func(x *exch) *Resp
}

func badServers() []badServer {
	all := func(suiteCfg) bool { return true }
	tokens := func(c suiteCfg) bool { return c.pw || c.cc || c.code || c.rfr }
	pw := func(c suiteCfg) bool { return c.pw }
	cc := func(c suiteCfg) bool { return c.cc }
	imp := func(c suiteCfg) bool { return c.imp }
	code := func(c suiteCfg) bool { return c.code }
	rfr := func(c suiteCfg) bool { return c.rfr }
	redirects := func(c suiteCfg) bool { return c.imp || c.code }
	// a refresh token is redeemed by every grant that yields one
	refreshing := func(c suiteCfg) bool { return c.rfr || (c.pw || c.cc || c.code) && !c.restricted }
	rev := func(c suiteCfg) bool { return c.revoke }
	intro := func(c suiteCfg) bool { return c.introspect }
	and := func(a, b func(suiteCfg) bool) func(suiteCfg) bool {
		return func(c suiteCfg) bool { return a(c) && b(c) }
	}
	var out []badServer
	grants := func(name string, on func(suiteCfg) bool, cond func(x *exch) bool) {
		out = append(out, badServer{name: "grants " + name, on: on, dev: func(x *exch) *Resp {
			if x.refused() && cond(x) {
				return x.success()
			}
			return nil
		}})
	}
	res := func(x *exch) bool { return x.ep == "resource" }
	grants("resources without a token", all, func(x *exch) bool { return res(x) && !x.hasA })
	grants("resources to malformed headers", all, func(x *exch) bool { return res(x) && x.hasA && x.base.Code == 400 })
	grants("resources to malformed tokens", all, func(x *exch) bool { return res(x) && x.tok == x.spec.InvalidToken && x.base.Code == 401 })
	grants("resources to unknown tokens", all, func(x *exch) bool { return res(x) && x.tok == x.spec.UnknownToken })
	grants("resources to expired tokens", all, func(x *exch) bool { return res(x) && x.tok == x.spec.ExpiredToken })
	grants("resources to insufficient tokens", all, func(x *exch) bool { return res(x) && x.tok == x.spec.InsufficientToken })
	grants("resources to revoked tokens", rev, func(x *exch) bool { return res(x) && x.h.revoked[x.tok] })
	grants("resources to replay-invalidated tokens", func(c suiteCfg) bool { return c.code && c.replay }, func(x *exch) bool { return res(x) && x.h.issued[x.tok] == 'A' && !x.h.revoked[x.tok] })

	badSecret := func(x *exch) bool {
		return x.user == x.spec.ConfidentialClientID && x.pass != x.spec.ConfidentialClientSecret
	}
	tg := func(g string) func(x *exch) bool {
		return func(x *exch) bool { return x.ep == "token" && x.grant() == g }
	}
	both := func(a, b func(x *exch) bool) func(x *exch) bool { return func(x *exch) bool { return a(x) && b(x) } }
	byErr := func(e string) func(x *exch) bool { return func(x *exch) bool { return x.err == e } }
	for _, g := range []struct {
		n  string
		on func(suiteCfg) bool
	}{{"password", pw}, {"client_credentials", cc}, {"authorization_code", code}, {"refresh_token", rfr}} {
		grants(g.n+" to wrong secrets", g.on, both(tg(g.n), badSecret))
		if g.n != "authorization_code" {
			grants(g.n+" exceeding scopes", g.on, func(x *exch) bool { return tg(g.n)(x) && x.f("scope") == x.spec.ExceedingScope })
		}
		if g.n == "password" || g.n == "client_credentials" {
			grants(g.n+" invalid scopes", g.on, func(x *exch) bool { return tg(g.n)(x) && x.f("scope") == x.spec.InvalidScope })
		}
	}
	grants("passwords of unknown users", pw, func(x *exch) bool {
		return tg("password")(x) && x.err == "access_denied" && x.f("username") != x.spec.ResourceOwnerUsername
	})
	grants("wrong passwords", pw, func(x *exch) bool {
		return tg("password")(x) && x.err == "access_denied" && x.f("username") == x.spec.ResourceOwnerUsername
	})
	grants("client credentials to public clients", cc, func(x *exch) bool { return tg("client_credentials")(x) && x.user == x.spec.PublicClientID })
	grants("empty token requests", tokens, func(x *exch) bool { return x.ep == "token" && x.grant() == "" })
	grants("unknown clients", tokens, func(x *exch) bool {
		return x.ep == "token" && x.basic && x.err == "invalid_client" && x.user != x.spec.ConfidentialClientID && x.user != x.spec.PublicClientID
	})
	grants("unknown grant types", tokens, func(x *exch) bool {
		return x.ep == "token" && x.authed() && x.grant() != "password" && x.grant() != "client_credentials" && x.grant() != "authorization_code" && x.grant() != "refresh_token"
	})
	cd := tg("authorization_code")
	grants("malformed codes", code, func(x *exch) bool { return cd(x) && x.f("code") == x.spec.InvalidAuthorizationCode && x.authed() })
	grants("unknown codes", code, func(x *exch) bool { return cd(x) && x.f("code") == x.spec.UnknownAuthorizationCode })
	grants("expired codes", code, func(x *exch) bool { return cd(x) && x.f("code") == x.spec.ExpiredAuthorizationCode })
	grants("codes to other clients", code, func(x *exch) bool { return cd(x) && x.h.issued[x.f("code")] == 'C' && x.user == x.spec.PublicClientID })
	grants("codes with another redirect URI", code, func(x *exch) bool {
		return cd(x) && x.h.issued[x.f("code")] == 'C' && x.f("redirect_uri") != x.spec.PrimaryRedirectURI
	})
	grants("spent codes", code, func(x *exch) bool { return cd(x) && x.h.spent[x.f("code")] && x.authed() })
	rf := tg("refresh_token")
	grants("malformed refresh tokens", rfr, func(x *exch) bool { return rf(x) && x.f("refresh_token") == x.spec.InvalidRefreshToken })
	grants("unknown refresh tokens", rfr, func(x *exch) bool { return rf(x) && x.f("refresh_token") == x.spec.UnknownRefreshToken })
	grants("expired refresh tokens", rfr, func(x *exch) bool { return rf(x) && x.f("refresh_token") == x.spec.ExpiredRefreshToken })
	grants("refresh tokens to other clients", rfr, func(x *exch) bool { return rf(x) && x.user == x.spec.PublicClientID })
	grants("spent refresh tokens", refreshing, func(x *exch) bool { return rf(x) && x.h.spent[x.f("refresh_token")] })
	grants("revoked refresh tokens", and(refreshing, rev), func(x *exch) bool { return rf(x) && x.h.revoked[x.f("refresh_token")] })
	grants("replay-invalidated refresh tokens", func(c suiteCfg) bool { return c.code && c.replay && (c.rfr || !c.restricted) }, func(x *exch) bool {
		k := x.f("refresh_token")
		return rf(x) && x.h.issued[k] == 'R' && !x.h.spent[k] && !x.h.revoked[k] && x.err == "invalid_grant" && x.user == x.spec.ConfidentialClientID
	})
	az := func(x *exch) bool { return x.ep == "authorize" && !x.get }
	grants("empty authorization requests", redirects, func(x *exch) bool { return az(x) && x.f("client_id") == "" })
	grants("authorization of unknown clients", redirects, func(x *exch) bool { return az(x) && x.err == "invalid_client" })
	grants("foreign redirect URIs", redirects, func(x *exch) bool { return az(x) && x.f("redirect_uri") == x.spec.InvalidRedirectURI })
	grants("unknown response types", redirects, func(x *exch) bool {
		return az(x) && x.f("response_type") != "code" && x.f("response_type") != "token" && x.f("client_id") != ""
	})
	out = append(out, badServer{"has no authorization form", redirects, func(x *exch) *Resp {
		if x.ep == "authorize" && x.get {
			return &Resp{Code: 404, H: http.Header{}}
		}
		return nil
	}, nil})
	for _, g := range []struct {
		n  string
		on func(suiteCfg) bool
	}{{"token", imp}, {"code", code}} {
		rt := func(x *exch) bool { return az(x) && x.f("response_type") == g.n }
		grants(g.n+" for invalid scopes", g.on, func(x *exch) bool { return rt(x) && x.err == "invalid_scope" && x.f("scope") == x.spec.InvalidScope })
		grants(g.n+" for exceeding scopes", g.on, func(x *exch) bool { return rt(x) && x.err == "invalid_scope" && x.f("scope") == x.spec.ExceedingScope })
		grants(g.n+" without approval", g.on, func(x *exch) bool { return rt(x) && x.err == "access_denied" && x.f("username") == "" })
		grants(g.n+" for wrong passwords", g.on, func(x *exch) bool { return rt(x) && x.err == "access_denied" && x.f("username") != "" })
		change := func(name string, ok bool, f func(b *Resp) *Resp) {
			out = append(out, badServer{g.n + " " + name, g.on, func(x *exch) *Resp {
				if rt(x) && x.base.isRedirect() && (x.err == "") == ok {
					return f(x.base)
				}
				return nil
			}, nil})
		}
		change("with wrong state", true, func(b *Resp) *Resp { return setParam(b, "state", "other") })
		change("errors with wrong state", false, func(b *Resp) *Resp { return setParam(b, "state", "other") })
		change("errors with wrong code", false, func(b *Resp) *Resp { return setParam(b, "error", "server_error") })
		change("in the wrong place", true, moved)
		change("errors in the wrong place", false, moved)
		if g.n == "token" {
			change("with wrong scope", true, func(b *Resp) *Resp { return setParam(b, "scope", "foo") })
			change("with wrong lifetime", true, func(b *Resp) *Resp { return setParam(b, "expires_in", "1") })
			change("with wrong type", true, func(b *Resp) *Resp { return setParam(b, "token_type", "mac") })
			change("with refresh token", true, func(b *Resp) *Resp { return setParam(b, "refresh_token", "abc") })
		}
	}
	for _, g := range []struct {
		n  string
		on func(suiteCfg) bool
	}{{"password", pw}, {"client_credentials", cc}, {"authorization_code", code}, {"refresh_token", refreshing}} {
		for k, vs := range map[string][]any{"scope": {"foo", nil}, "expires_in": {1, nil}, "token_type": {"mac", nil}, "access_token": {nil, "invalid"}} {
			for _, v := range vs {
				out = append(out, badServer{fmt.Sprintf("%s with %s %v", g.n, k, v), g.on, func(x *exch) *Resp {
					if tg(g.n)(x) && !x.refused() {
						return setMember(x.base, k, v)
					}
					return nil
				}, nil})
			}
		}
	}
	for _, ep := range []struct {
		n  string
		on func(suiteCfg) bool
	}{{"introspect", intro}, {"revoke", rev}} {
		e := func(x *exch) bool { return x.ep == ep.n && !x.get }
		grants(ep.n+" empty requests", ep.on, func(x *exch) bool { return e(x) && x.f("token") == "" && !x.basic })
		grants(ep.n+" without client", ep.on, func(x *exch) bool { return e(x) && x.f("token") != "" && !x.basic })
		grants(ep.n+" without token", ep.on, func(x *exch) bool { return e(x) && x.f("token") == "" && x.basic })
		grants(ep.n+" unknown hints", ep.on, both(e, byErr("unsupported_token_type")))
		grants(ep.n+" for unknown clients", ep.on, func(x *exch) bool {
			return e(x) && x.err == "invalid_client" && x.user != x.spec.ConfidentialClientID && x.user != x.spec.PublicClientID
		})
		grants(ep.n+" without secret", ep.on, func(x *exch) bool { return e(x) && badSecret(x) })
		grants(ep.n+" for other clients", ep.on, func(x *exch) bool { return e(x) && x.user == x.spec.PublicClientID })
		grants(ep.n+" malformed tokens", ep.on, func(x *exch) bool { return e(x) && x.f("token") == x.spec.InvalidToken && x.authed() })
		out = append(out, badServer{ep.n + " refuses unknown tokens", ep.on, func(x *exch) *Resp {
			if e(x) && x.f("token") == x.spec.UnknownToken && x.authed() {
				return errResp(400, "invalid_request")
			}
			return nil
		}, nil})
	}
	grants("introspection by GET", intro, func(x *exch) bool { return x.ep == "introspect" && x.get })
	insp := func(name string, on func(suiteCfg) bool, cond func(x *exch, tok string) bool, f func(x *exch) *Resp) {
		out = append(out, badServer{"introspection reports " + name, and(intro, on), func(x *exch) *Resp {
			if x.ep == "introspect" && !x.refused() && cond(x, x.f("token")) {
				return f(x)
			}
			return nil
		}, nil})
	}
	honour := func(x *exch) *Resp { return x.success() }
	kind := func(k byte) func(x *exch, tok string) bool {
		return func(x *exch, tok string) bool { return x.h.issued[tok] == k }
	}
	insp("revoked access tokens active", rev, func(x *exch, tok string) bool { return x.h.revoked[tok] && x.h.issued[tok] == 'A' }, honour)
	insp("revoked refresh tokens active", and(rev, refreshing), func(x *exch, tok string) bool { return x.h.revoked[tok] && x.h.issued[tok] == 'R' }, honour)
	insp("spent refresh tokens active", refreshing, func(x *exch, tok string) bool { return x.h.spent[tok] }, honour)
	insp("access tokens inactive", func(c suiteCfg) bool { return true }, kind('A'), func(x *exch) *Resp { return setMember(x.base, "active", false) })
	insp("refresh tokens inactive", refreshing, kind('R'), func(x *exch) *Resp { return setMember(x.base, "active", false) })
	insp("access tokens as refresh tokens", func(c suiteCfg) bool { return c.pw || c.cc || c.code || c.imp || c.rfr || c.revoke }, kind('A'), func(x *exch) *Resp { return setMember(x.base, "token_type", "refresh_token") })
	insp("refresh tokens as access tokens", refreshing, kind('R'), func(x *exch) *Resp { return setMember(x.base, "token_type", "access_token") })
	noop := func(name string, on func(suiteCfg) bool, k byte) {
		out = append(out, badServer{"revocation of " + name + " does nothing", and(rev, on), nil, func(x *exch) *Resp {
			if x.ep == "revoke" && x.authed() && x.h.issued[x.f("token")] == k && x.f("token_type_hint") != "invalid" {
				return &Resp{Code: 200, H: http.Header{}}
			}
			return nil
		}})
		out = append(out, badServer{"revocation of " + name + " is refused", and(rev, on), nil, func(x *exch) *Resp {
			if x.ep == "revoke" && x.authed() && x.h.issued[x.f("token")] == k && x.f("token_type_hint") != "invalid" {
				return errResp(400, "unsupported_token_type")
			}
			return nil
		}})
	}
	noop("access tokens", all, 'A')
	noop("refresh tokens", refreshing, 'R')
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// -------------------------------------------------------------- execution

// suiteUnits lists the specifications, each with what is run against it.
type suiteUnit struct {
	cfg         suiteCfg
	bad, single bool
}

func suiteUnits(thorough bool) []suiteUnit {
	var out []suiteUnit
	for i := 0; i < 32; i++ {
		for e := 0; e < 8; e++ {
			for v := 0; v < 16; v++ {
				u := suiteUnit{cfg: suiteCfg{pw: i&1 > 0, cc: i&2 > 0, imp: i&4 > 0, code: i&8 > 0, rfr: i&16 > 0,
					introspect: e&1 > 0, revoke: e&2 > 0, replay: e&4 > 0, restricted: v&1 > 0, wide: v&2 > 0, variation: v >> 2}}
				one := i&(i-1) == 0 // at most one grant
				if thorough {
					u.bad = v < 4
					u.single = v < 2 || v < 4 && (one || i == 31)
				} else {
					if v > 3 && (i*7+e+v)%4 != 0 {
						continue
					}
					u.bad = (v == 0 || v == 1 && e == 7) && (one || i == 31)
					u.single = v == 0 && (i == 31 || one && (e == 7 || e == 4))
				}
				out = append(out, u)
			}
		}
	}
	return out
}

// suiteRun runs the suite and tells whether it passed.
func suiteRun(t *testing.T, h *suiteHandler) bool {
	return t.Run("suite", func(t *testing.T) { oauth2test.Run(t, h.spec) })
}

func (x *exch) label() string {
	l := x.ep
	for _, k := range []string{"grant_type", "response_type"} {
		if x.f(k) != "" {
			l += " " + x.f(k)
		}
	}
	if x.err != "" {
		l += " " + x.err
	}
	return fmt.Sprintf("%s %d", l, x.base.Code)
}

// suiteChild runs its share of the jobs, from a given position on. Every job
// is announced before and answered after; a job without an answer crashed.
func suiteChild(t *testing.T) {
	var k, n, start int
	fmt.Sscanf(os.Getenv("VERIF_SUITE"), "%d/%d@%d", &k, &n, &start)
	skipUnits := map[int]bool{}
	for _, f := range strings.Fields(os.Getenv("VERIF_SUITE_SKIP")) {
		var i int
		fmt.Sscan(f, &i)
		skipUnits[i] = true
	}
	out, err := os.OpenFile(os.Getenv("VERIF_SUITE_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	only := os.Getenv("VERIF_REPLAY_CASE")
	pos := 0
	wanted := func(key string) bool {
		pos++
		return pos > start && (only == "" || only == key)
	}
	say := func(kind string, unit int, v any, key string) {
		fmt.Fprintf(out, "%s\t%d\t%d\t%v\t%s\n", kind, pos, unit, v, key)
	}
	bad := badServers()
	for i, u := range suiteUnits(os.Getenv("VERIF_TIER") == "thorough") {
		if i%n != k || skipUnits[i] || only != "" && !strings.Contains(only, ": "+u.cfg.String()+": ") {
			continue
		}
		h := newSuite(u.cfg)
		h.keep = true
		h.dev = func(x *exch) *Resp {
			if u.single {
				x.devs = x.deviations()
			}
			return nil
		}
		key := "conforming: " + u.cfg.String() + ": "
		run := wanted(key)
		say("start", i, "conforming", key)
		ok := suiteRun(t, h)
		if run {
			say("done", i, ok, key)
		}
		if !ok {
			continue
		}
		if u.bad {
			for _, b := range bad {
				if !b.on(u.cfg) {
					continue
				}
				key := fmt.Sprintf("bad server: %s: %s", u.cfg, b.name)
				if !wanted(key) {
					continue
				}
				say("start", i, "bad", key)
				h := newSuite(u.cfg)
				h.dev, h.before = b.dev, b.pre
				say("done", i, suiteRun(t, h), key)
			}
		}
		for _, x := range h.log {
			for _, d := range x.devs {
				key := fmt.Sprintf("deviation: %s: request %d, %s: %s", u.cfg, x.n, x.label(), d.name)
				if !wanted(key) {
					continue
				}
				say("start", i, "deviation", key)
				h := newSuite(u.cfg)
				if d.before {
					h.before = func(y *exch) *Resp {
						if y.n == x.n {
							return d.resp
						}
						return nil
					}
				} else {
					h.dev = func(y *exch) *Resp {
						if y.n == x.n {
							for _, e := range y.deviations() {
								if e.name == d.name {
									return e.resp
								}
							}
						}
						return nil
					}
				}
				say("done", i, suiteRun(t, h), key)
			}
		}
	}
	fmt.Fprintln(out, "end")
}

type suiteResult struct {
	key     string
	passed  bool
	crashed bool
}

// suiteShard runs one share, surviving crashes of the suite.
func suiteShard(k, n int, only string, f func(r suiteResult)) error {
	skip := ""
	start := 0
	for try := 0; ; try++ {
		file := filepath.Join(outDir(), fmt.Sprintf("suite-%d-%d-%x", k, try, hash64(only)))
		_ = os.Remove(file)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestC27$", "-test.timeout", "0", "-test.count", "1")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SUITE=%d/%d@%d", k, n, start), "VERIF_SUITE_SKIP="+skip, "VERIF_SUITE_OUT="+file, "VERIF_REPLAY_CASE="+only, "GOMAXPROCS=2")
		if err := cmd.Start(); err != nil {
			return err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(700 * time.Second):
			_ = cmd.Process.Kill()
			<-done
		}
		data, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		_ = os.Remove(file)
		lines := strings.Split(strings.TrimRight(string(data), "\n"), "\n")
		var open []string
		for _, l := range lines {
			p := strings.SplitN(l, "\t", 5)
			if len(p) < 5 {
				continue
			}
			if p[0] == "start" {
				open = p
				continue
			}
			open = nil
			f(suiteResult{key: p[4], passed: p[3] == "true"})
		}
		if lines[len(lines)-1] == "end" {
			return nil
		}
		if open == nil {
			return fmt.Errorf("suite process ended early: %q", lines[len(lines)-1])
		}
		f(suiteResult{key: open[4], crashed: true})
		at := 0
		fmt.Sscan(open[1], &at)
		if open[3] == "conforming" {
			// positions count from the units that remain
			skip += " " + open[2]
			at--
		}
		start = at
	}
}

func TestC27(t *testing.T) {
	if os.Getenv("VERIF_SUITE") != "" {
		suiteChild(t)
		return
	}
	c := newCheck(t, "C27", "exploration",
		"the real suite is run against the real server wrapped in a handler: conforming servers under every combination of grants, endpoints, replay mitigation, really missing or merely unexercised features, harmless variations and parameters; about 150 bad servers, each misbehaving in one respect throughout; and, for every single request the suite makes, every single wrong answer of a menu (status, error code, scope, lifetime, type, state, place, challenge, refusal granted, success refused, revocation without effect). The suite must pass the first and fail all others. Non-trivial: the server deviates.")
	defer c.finish()
	judge := func(r suiteResult) string {
		good := strings.HasPrefix(r.key, "conforming")
		switch {
		case good && r.crashed:
			return "the suite crashed on a conforming server"
		case good && !r.passed:
			return "the suite failed a conforming server"
		case !good && r.passed:
			return "the suite passed this server"
		}
		return ""
	}
	var wg sync.WaitGroup
	n := maxWorkers
	if c.replay != "" {
		n = 1
	}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := suiteShard(k, n, c.replay, func(r suiteResult) {
				c.progress.Add(1)
				c.curCase.Store(r.key)
				if c.skip(r.key) || c.stopped() {
					return
				}
				c.evals.Add(1)
				if !strings.HasPrefix(r.key, "conforming") {
					c.nontrivial.add(r.key)
				}
				kind, _, _ := strings.Cut(r.key, ":")
				c.outcome(fmt.Sprintf("%s passed=%v crashed=%v", kind, r.passed, r.crashed))
				msg := judge(r)
				if msg == "" {
					c.sample(r.key, "")
					return
				}
				c.report(r.key, msg, func() string {
					again := ""
					_ = suiteShard(0, 1, r.key, func(r2 suiteResult) {
						if r2.key == r.key {
							again = judge(r2)
						}
					})
					return again
				})
			})
			if err != nil && !c.stopped() {
				c.mu.Lock()
				c.flaky = append(c.flaky, err.Error())
				c.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
