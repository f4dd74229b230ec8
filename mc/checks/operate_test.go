package checks

// Properties about what surrounds a request: parameters that do not concern it
// (C30), the operator's registries (C31), other servers in the same process
// (C32), and the handler behind a guarded resource (C33).

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"
	"testing/synctest"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// mask renders an answer with the credentials it carries named by their order
// of issue and expiry times relative to now.
func (w *World) mask(r *Resp) string {
	h := []string{}
	for k, v := range r.H {
		h = append(h, k+": "+strings.Join(v, " | "))
	}
	sort.Strings(h)
	body := r.Body
	if m := r.json(); m != nil {
		if e, ok := m["exp"].(float64); ok {
			m["exp"] = int64(e) - w.last.Unix()
		}
		b, _ := json.Marshal(m)
		body = string(b)
	}
	s := fmt.Sprintf("%d ok=%v writes=%d panic=%q %s %s", r.Code, r.OK, r.Writes, r.Panic, strings.Join(h, "\n"), body)
	var pairs []string
	for _, c := range w.Creds {
		pairs = append(pairs, c.Str, fmt.Sprintf("<%c%d>", c.Kind, c.ID))
	}
	return strings.NewReplacer(pairs...).Replace(s)
}

// --------------------------------------------------------------------- C30

// stray is something added to a request that the request has no use for.
type stray struct {
	name string
	f    func(w *World, q *Req)
}

// used lists the parameters that mean something to an operation.
func used(o Op) map[string]bool {
	l := ""
	switch o.K {
	case "pw":
		l = "grant_type username password scope"
	case "cc":
		l = "grant_type scope"
	case "xch":
		l = "grant_type code redirect_uri"
	case "rfr":
		l = "grant_type refresh_token scope"
	case "rev", "int":
		l = "token token_type_hint"
	case "imp", "code":
		l = "response_type client_id redirect_uri scope state username password"
	}
	m := map[string]bool{}
	for _, x := range strings.Fields(l) {
		m[x] = true
	}
	if o.B {
		m["client_id"], m["client_secret"] = true, true
	}
	return m
}

// tempting are the parameters of all requests with values that would matter,
// and names that resemble them.
func tempting(w *World, o Op) [][2]string {
	out := [][2]string{
		{"grant_type", "client_credentials"}, {"response_type", "token"}, {"username", "u2"}, {"password", "pw2-Pass"}, {"username", "u1"}, {"password", "pw1-Pass"}, {"username", ""}, {"username", "c1"}, {"username", "c2"}, {"username", "p1"}, {"password", "s1-Secret"}, {"user_name", "c1"}, {"subject", "u1"},
		{"scope", "foo bar"}, {"scope", "baz"}, {"state", "evil"}, {"client_id", "c2"}, {"client_id", "p1"}, {"client_id", "c1"}, {"client_secret", "s2-Secret"}, {"client_secret", ""}, {"client_id", "nobody"},
		{"redirect_uri", "https://c2.example.com/cb?tenant=7"}, {"redirect_uri", "https://evil.example/cb"}, {"token_type_hint", "refresh_token"}, {"token_type_hint", "access_token"}, {"token_type_hint", "bogus"},
		{"code", "x"}, {"refresh_token", "x"}, {"token", "x"}, {"access_token", "x"},
		{"audience", "a"}, {"resource", "https://api.example"}, {"assertion", "x"}, {"client_assertion", "x"}, {"client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"},
		{"code_verifier", "v"}, {"code_challenge", "v"}, {"code_challenge_method", "plain"}, {"nonce", "n"}, {"prompt", "none"}, {"response_mode", "query"}, {"response_mode", "fragment"}, {"response_mode", "form_post"}, {"display", "popup"}, {"max_age", "0"}, {"login_hint", "u2"}, {"id_token_hint", "x"}, {"request", "x"}, {"request_uri", "https://evil.example/r"}, {"claims", "{}"}, {"acr_values", "0"},
		{"expires_in", "1000000"}, {"expires_at", "1"}, {"exp", "1"}, {"lifetime", "99999"}, {"active", "true"}, {"used", "false"}, {"sub", "u2"}, {"user", "u2"}, {"user_id", "u2"}, {"client", "c2"}, {"secret", "x"}, {"admin", "1"}, {"debug", "1"}, {"force", "true"}, {"force_login", "1"},
		{"_method", "DELETE"}, {"method", "GET"}, {"callback", "f"}, {"format", "xml"}, {"jsonp", "f"}, {"error", "access_denied"}, {"error_description", "x"}, {"hint", "refresh_token"}, {"type", "refresh_token"},
		{"requested_token_type", "x"}, {"subject_token", "x"}, {"actor_token", "x"}, {"device_code", "x"}, {"user_code", "x"}, {"realm", "x"},
		{"", "x"}, {"x", ""}, {"utf8", "\u2713"}, {"a b", "c&d=e"}, {"scope[]", "baz"}, {"scopes", "baz"}, {"user name", "u2"},
	}
	for k := range used(o) {
		for _, n := range []string{strings.ToUpper(k), strings.ToUpper(k[:1]) + k[1:], k + " ", " " + k, k + "[]", k + "2", strings.ReplaceAll(k, "_", "-"), strings.ReplaceAll(k, "_", ""), k + "\x00"} {
			if n != k {
				out = append(out, [2]string{n, "u2"})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i][0]+"="+out[i][1] < out[j][0]+"="+out[j][1] })
	return out
}

var strayHeaders = [][2]string{
	{"Cookie", "session=u2; username=u2; access_token=x"}, {"X-HTTP-Method-Override", "DELETE"}, {"X-HTTP-Method-Override", "GET"}, {"X-Method-Override", "PUT"}, {"X-Forwarded-For", "127.0.0.1"}, {"X-Forwarded-Proto", "http"}, {"X-Forwarded-Host", "evil.example"}, {"X-Forwarded-Prefix", "/x"}, {"X-Forwarded-User", "u2"},
	{"X-Original-Url", "/oauth2/introspect"}, {"X-Rewrite-Url", "/oauth2/revoke"}, {"Accept", "text/html"}, {"Accept", "application/xml"}, {"Accept", "*/*"}, {"Accept-Encoding", "gzip"}, {"Accept-Language", "de"}, {"Accept-Charset", "latin1"}, {"Origin", "https://evil.example"}, {"Referer", "https://evil.example/"}, {"User-Agent", "curl/8"},
	{"If-None-Match", "*"}, {"If-Modified-Since", "Mon, 02 Jan 2040 15:04:05 GMT"}, {"If-Match", "x"}, {"Range", "bytes=0-1"}, {"Expect", "100-continue"}, {"Proxy-Authorization", "Basic YzI6czItU2VjcmV0"}, {"X-Authorization", "Bearer x"}, {"X-Client-Id", "c2"}, {"X-Client-Secret", "s2-Secret"}, {"X-User", "u2"}, {"X-Remote-User", "u2"}, {"X-Access-Token", "x"}, {"X-Scope", "baz"},
	{"DPoP", "x"}, {"Dnt", "1"}, {"Upgrade", "h2c"}, {"Connection", "close"}, {"Via", "1.1 x"}, {"X-Requested-With", "XMLHttpRequest"}, {"Sec-Fetch-Mode", "navigate"}, {"Sec-Fetch-Site", "cross-site"}, {"Access-Control-Request-Method", "POST"}, {"Content-Language", "de"}, {"Date", "Mon, 02 Jan 2040 15:04:05 GMT"}, {"Cache-Control", "no-cache"}, {"Pragma", "no-cache"}, {"Max-Forwards", "0"}, {"X-Debug", "1"},
	{"Accept", "application/json"}, {"Accept", "application/json, text/plain;q=0.5"}, {"Accept", "application/x-www-form-urlencoded"}, {"Accept", "application/jwt"}, {"Prefer", "return=minimal"}, {"Prefer", "return=representation"}, {"Te", "trailers"}, {"X-Real-Ip", "127.0.0.1"}, {"Forwarded", "for=127.0.0.1;host=evil.example;proto=http"}, {"X-Request-Id", "1"}, {"Idempotency-Key", "1"}, {"Traceparent", "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01"}, {"Save-Data", "on"}, {"Priority", "u=0"}, {"X-Csrf-Token", "x"}, {"X-Api-Key", "x"}, {"X-Redirect-Uri", "https://evil.example/cb"}, {"X-Http-Method", "DELETE"}, {"X-Forwarded-Client-Cert", "Subject=c2"}, {"Ssl-Client-Cert", "x"}, {"Content-Location", "/revoke"}, {"Digest", "sha-256=x"}, {"X-Original-Method", "GET"}, {"Sec-Purpose", "prefetch"}, {"Purpose", "prefetch"},
	{"X-Moz", "prefetch"}, {"X-Purpose", "preview"}, {"Sec-Gpc", "1"}, {"Sec-Fetch-Dest", "iframe"}, {"Sec-Fetch-User", "?1"}, {"Sec-Ch-Ua", "x"}, {"Sec-Websocket-Key", "x"}, {"Upgrade-Insecure-Requests", "1"}, {"Early-Data", "1"}, {"Alt-Used", "evil.example"}, {"Http2-Settings", "x"}, {"From", "u2@example.com"}, {"Warning", "199"}, {"Trailer", "X"}, {"Content-Encoding", "identity"}, {"Content-Disposition", "form-data"}, {"Content-Range", "bytes 0-1/2"}, {"Content-Md5", "x"}, {"Content-Digest", "sha-256=:x:"}, {"Want-Digest", "md5"}, {"Signature", "sig1=:x:"}, {"Signature-Input", "sig1=()"},
	{"If-Unmodified-Since", "Mon, 02 Jan 2006 15:04:05 GMT"}, {"If-Range", "x"}, {"Access-Control-Request-Headers", "authorization"}, {"Access-Control-Request-Private-Network", "true"}, {"Authorization-Info", "x"}, {"Www-Authenticate", "Basic"}, {"Authentication", "Bearer x"}, {"Auth", "x"}, {"Token", "x"}, {"X-Token", "x"}, {"X-Auth-Token", "x"}, {"X-Auth-User", "u2"}, {"X-Auth-Key", "x"}, {"X-Amz-Security-Token", "x"}, {"X-Amzn-Trace-Id", "x"}, {"X-Cloud-Trace-Context", "x"}, {"X-B3-Traceid", "x"}, {"X-Correlation-Id", "1"}, {"X-Tenant-Id", "7"}, {"X-Impersonate-User", "u2"}, {"Impersonate-User", "u2"}, {"Sudo", "u2"}, {"X-Su", "u2"}, {"X-Admin", "1"}, {"X-Internal", "1"}, {"X-Test", "1"}, {"X-Dry-Run", "1"}, {"X-Retry", "1"}, {"Retry-After", "1"}, {"X-Forwarded-Port", "443"}, {"X-Forwarded-Ssl", "on"}, {"X-Forwarded-Scheme", "https"}, {"X-Forwarded-Uri", "/revoke"}, {"X-Forwarded-Method", "GET"}, {"X-Forwarded-Server", "x"}, {"X-Forwarded-Path", "/revoke"}, {"X-Forwarded-Email", "u2"}, {"X-Forwarded-Access-Token", "x"}, {"X-Forwarded-Preferred-Username", "u2"}, {"X-Script-Name", "/x"}, {"X-Original-Uri", "/revoke"}, {"X-Original-Host", "evil.example"}, {"X-Host", "evil.example"}, {"X-Http-Host-Override", "evil.example"}, {"True-Client-Ip", "127.0.0.1"}, {"Cf-Connecting-Ip", "127.0.0.1"}, {"X-Client-Ip", "127.0.0.1"}, {"X-Cluster-Client-Ip", "127.0.0.1"}, {"Fastly-Client-Ip", "127.0.0.1"}, {"Front-End-Https", "on"}, {"X-Url-Scheme", "https"}, {"X-Ssl-Client-Verify", "SUCCESS"}, {"X-Ssl-Client-S-Dn", "CN=c2"}, {"X-Client-Cert", "x"}, {"Client-Cert", ":x:"}, {"X-Wap-Profile", "x"}, {"X-Att-Deviceid", "x"}, {"Device-Memory", "8"}, {"Ect", "4g"}, {"Rtt", "1"}, {"Downlink", "1"}, {"Accept-Datetime", "x"}, {"Accept-Patch", "x"}, {"Accept-Version", "2"}, {"Api-Version", "2"}, {"X-Api-Version", "2"}, {"Oauth-Scopes", "baz"}, {"X-Oauth-Scopes", "baz"}, {"X-Oauth-Client-Id", "c2"}, {"X-Grant-Type", "client_credentials"}, {"X-State", "evil"}, {"Grpc-Timeout", "1n"}, {"Timeout", "Second-1"}, {"Depth", "0"}, {"Destination", "/revoke"}, {"Overwrite", "F"}, {"Lock-Token", "x"}, {"Keep-Alive", "timeout=5"}, {"Proxy-Connection", "close"}, {"Host", "evil.example"}, {"Content-Length", "0"}, {"Transfer-Encoding", "gzip"}, {"Form", "username=u2"}, {"Cookie2", "$Version=1"}, {"Link", "</revoke>"}, {"Refresh", "0"}, {"Location", "https://evil.example/"}, {"Set-Cookie", "x=y"}, {"Expires", "0"}, {"Age", "1"}, {"Etag", "x"}, {"Vary", "*"}, {"Server", "x"}, {"Allow", "GET"},
}

// circumstances of a request's transport.
var circumstances = []struct {
	name string
	f    func(r *http.Request)
}{
	{"HTTP/1.0", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor, r.Close = "HTTP/1.0", 1, 0, true }},
	{"HTTP/2.0", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0 }},
	{"HTTP/3.0", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/3.0", 3, 0 }},
	{"TLS", func(r *http.Request) {
		r.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: "auth.example"}
	}},
	{"no host", func(r *http.Request) { r.Host = "" }},
	{"other host", func(r *http.Request) { r.Host = "evil.example:8080" }},
	{"local host", func(r *http.Request) { r.Host, r.RemoteAddr = "localhost", "127.0.0.1:4711" }},
	{"remote address", func(r *http.Request) { r.RemoteAddr = "[2001:db8::1]:443" }},
	{"unix socket", func(r *http.Request) { r.RemoteAddr = "@" }},
	{"unknown length", func(r *http.Request) {
		if r.Body != nil {
			r.ContentLength = -1
		}
	}},
	{"chunked", func(r *http.Request) {
		if r.Body != nil {
			r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
			r.Trailer = http.Header{"X-Checksum": nil}
		}
	}},
	{"empty body instead of none", func(r *http.Request) {
		if r.Body == nil {
			r.Body = http.NoBody
		}
	}},
	{"close", func(r *http.Request) { r.Close = true }},
	{"absolute target", func(r *http.Request) {
		r.URL.Scheme, r.URL.Host = "http", "auth.example"
		r.RequestURI = r.URL.String()
	}},
	{"target with user", func(r *http.Request) {
		r.URL.Scheme, r.URL.Host, r.URL.User = "https", "auth.example", url.UserPassword("c2", "s2-Secret")
	}},
	{"no request URI", func(r *http.Request) { r.RequestURI = "" }},
	{"raw path", func(r *http.Request) { r.URL.RawPath = strings.ReplaceAll(r.URL.Path, "o", "%6F") }},
	{"fragment", func(r *http.Request) { r.URL.Fragment = "access_token=x" }},
	{"empty query", func(r *http.Request) { r.URL.ForceQuery = true }},
	{"path values", func(r *http.Request) {
		r.Pattern = "POST /{client_id}/{x...}"
		r.SetPathValue("client_id", "c2")
		r.SetPathValue("username", "u2")
	}},
	{"context values", func(r *http.Request) {
		*r = *r.WithContext(context.WithValue(context.WithValue(r.Context(), http.ServerContextKey, &http.Server{}), http.LocalAddrContextKey, &net.TCPAddr{Port: 80}))
	}},
	{"form parsed before", func(r *http.Request) {
		if r.URL.Path != resourcePath {
			_ = r.ParseForm()
		}
	}},
	{"body byte by byte", func(r *http.Request) {
		if r.Body != nil {
			r.Body = io.NopCloser(iotest.OneByteReader(r.Body))
		}
	}},
	{"body ends with its last bytes", func(r *http.Request) {
		if r.Body != nil {
			r.Body = io.NopCloser(iotest.DataErrReader(r.Body))
		}
	}},
	{"lower case header names", func(r *http.Request) {
		for _, h := range []string{"authorization", "content-type", "cookie"} {
			r.Header[h] = []string{basic("c2", "s2-Secret")}
		}
	}},
}

func circumstance(name string, r *http.Request) {
	for _, c := range circumstances {
		if c.name == name {
			c.f(r)
			return
		}
	}
	panic("unknown circumstance " + name)
}

func strays(w *World, o Op, get bool) []stray {
	var out []stray
	add := func(name string, f func(w *World, q *Req)) { out = append(out, stray{name, f}) }
	front := func(t, x string) string {
		if t == "" {
			return x
		}
		return x + "&" + t
	}
	back := func(t, x string) string {
		if t == "" {
			return x
		}
		return t + "&" + x
	}
	mean := used(o)
	authz := o.K == "imp" || o.K == "code"
	param := func(k, v string) {
		val := func(w *World) string { return form(k, w.form(v)) }
		name := fmt.Sprintf("%q=%q", k, v)
		if o.K != "res" && !mean[k] {
			if !get {
				add(name+" behind", func(w *World, q *Req) { q.Body = back(q.Body, val(w)) })
				add(name+" in front", func(w *World, q *Req) { q.Body = front(q.Body, val(w)) })
			} else {
				add(name+" behind in the query", func(w *World, q *Req) { q.Query = back(q.Query, val(w)) })
				add(name+" in front in the query", func(w *World, q *Req) { q.Query = front(q.Query, val(w)) })
			}
		}
		// only the authorization endpoint looks at the query, too
		if !get && (!authz || !mean[k] || k == "username" || k == "password") {
			add(name+" in the query", func(w *World, q *Req) { q.Query = back(q.Query, val(w)) })
		}
	}
	for _, t := range tempting(w, o) {
		param(t[0], t[1])
	}
	for _, k := range w.Creds {
		for _, n := range []string{"code", "refresh_token", "token", "access_token"} {
			param(n, formOf(k, "same"))
		}
	}
	for _, x := range circumstances {
		add("circumstance "+x.name, func(w *World, q *Req) { q.Circ = x.name })
	}
	for _, h := range strayHeaders {
		add(h[0]+": "+h[1], func(w *World, q *Req) { q.HX = append(q.HX, h) })
	}
	if authz || get {
		for _, h := range []string{"Basic " + basic("c2", "s2-Secret")[6:], basic("u2", "pw2-Pass"), basic("c1", "wrong"), "Basic x", "Bearer x", ""} {
			add("Authorization: "+h, func(w *World, q *Req) { q.HasA, q.Auth = true, h })
		}
	}
	if o.K == "res" {
		for _, m := range []string{"POST", "PUT", "DELETE", "HEAD", "OPTIONS"} {
			add("method "+m, func(w *World, q *Req) { q.Method = m })
		}
		for _, b := range []string{"access_token=x", "%zz", "scope=baz&username=u2"} {
			add("body "+b, func(w *World, q *Req) { q.Method, q.NoBody, q.Body, q.CT = "POST", false, b, formCT })
		}
	} else {
		for _, p := range []string{"/", "//", "/a/b/c/", "/revoke/", "/oauth2/token/../", "/%2e/", "/api/resource/"} {
			add("under "+p, func(w *World, q *Req) { q.Path = p + q.Path[strings.LastIndexByte(q.Path, '/')+1:] })
		}
		if !get {
			for _, ct := range []string{"application/x-www-form-urlencoded; charset=utf-8", "application/x-www-form-urlencoded;charset=UTF-8;x=y", "Application/X-WWW-Form-Urlencoded"} {
				add("content type "+ct, func(w *World, q *Req) { q.CT = ct })
			}
		}
	}
	return out
}

func TestC30(t *testing.T) {
	c := newCheck(t, "C30", "model_checking",
		"all histories of the lifecycle alphabet to the depth bound, merged by canonical state; in every state every valid request, replay and refused request (~20 per state) x ~200-450 additions it has no use for (all other parameters with values that would matter, every live credential under every credential parameter, unknown and look-alike names, in front, behind and in the query; ~200 headers; 25 circumstances of the transport; path prefixes; content type spellings); answer and resulting state must equal those without the addition. Non-trivial: the state holds a credential.")
	c.assume = []string{"redirect_uri additions are well-formed (C20 judges the others)"}
	defer c.finish()
	check := func(h []Op, m *Model) string {
		w0 := m.run(h)
		type base struct {
			o    Op
			get  bool
			drop string
		}
		var l []base
		for _, o := range baseOps(w0) {
			l = append(l, base{o, false, ""})
			switch o.K {
			case "imp", "code":
				l = append(l, base{o, true, ""})
				p := o
				p.Pw = "wrong"
				l = append(l, base{p, false, ""})
				p = o
				p.Sc = "baz"
				l = append(l, base{p, false, ""})
			case "pw":
				p := o
				p.Pw = "wrong"
				l = append(l, base{p, false, ""})
				p = o
				p.B = true
				l = append(l, base{p, false, ""})
			case "cc", "xch", "rfr":
				p := o
				p.Sec = "wrong"
				l = append(l, base{p, false, ""})
				p = o
				p.B = true
				l = append(l, base{p, false, ""})
				if o.K == "rfr" {
					p = o
					p.Cl = "c2"
					l = append(l, base{p, false, ""})
				}
			case "rev", "int":
				p := o
				p.Cl = "c2"
				l = append(l, base{p, false, ""})
			case "res":
				p := o
				p.Sc = "foo"
				l = append(l, base{p, false, ""})
			}
		}
		for _, k := range w0.Creds {
			if k.Kind == 'C' && k.Spent {
				l = append(l, base{Op{K: "xch", Cl: k.Client, Cr: k.ID}, false, ""})
			}
		}
		// a parameter that the body lacks is not found anywhere else
		for _, o := range baseOps(w0) {
			if o.K != "res" {
				for k := range used(o) {
					l = append(l, base{o, false, k})
				}
			}
		}
		do := func(b base, s *stray) (*World, Req, *Resp) {
			w := m.run(h)
			q := w.build(b.o)
			if b.drop != "" {
				var keep []string
				for _, p := range strings.Split(q.Body, "&") {
					if !strings.HasPrefix(p, b.drop+"=") {
						keep = append(keep, p)
					}
				}
				q.Body = strings.Join(keep, "&")
			}
			if b.get {
				q.Method, q.Query, q.Body, q.NoBody, q.CT = "GET", q.Body, "", true, ""
			}
			if s != nil {
				s.f(w, &q)
			}
			r := w.send(q)
			w.observe(b.o, r)
			return w, q, r
		}
		for _, b := range l {
			w, _, r := do(b, nil)
			want, canon, n := w.mask(r), w.canon(), len(w.Creds)
			all := strays(w0, b.o, b.get)
			if b.drop != "" {
				c.outcome("lacks a parameter")
				keep := all[:0]
				for _, s := range all {
					if strings.HasPrefix(s.name, strconv.Quote(b.drop)+"=") || strings.HasPrefix(s.name, "X-") {
						keep = append(keep, s)
					}
				}
				all = keep
			}
			for i := range all {
				if c.stopped() || c.timeUp() {
					return ""
				}
				s := &all[i]
				c.evals.Add(1)
				c.progress.Add(1)
				w, q, r := do(b, s)
				got := w.mask(r)
				if b.o.K == "res" && q.Method == "HEAD" {
					c.outcome("head")
				}
				if got != want {
					return fmt.Sprintf("%s get=%v without %q with %s: the answer changes from [%s] to [%s]\nrequest: %s", b.o.key(), b.get, b.drop, s.name, want, got, q)
				}
				if refused(r) {
					c.outcome("refused alike")
				} else {
					c.outcome("accepted alike")
				}
				if w.canon() == canon {
					continue
				}
				if msg := sameFuture(func() *World { w, _, _ := do(b, nil); return w }, func() *World { w, _, _ := do(b, s); return w }, n, nil); msg != "" {
					return fmt.Sprintf("%s get=%v without %q with %s: %s\nrequest: %s", b.o.key(), b.get, b.drop, s.name, msg, q)
				}
			}
		}
		return ""
	}
	d := 2
	if c.thorough() {
		d = 3
	}
	alphabet := func(w *World) []Op {
		out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "code", Cl: "p1", Us: "u2"}}
		out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
		out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
		out = append(out, forKind(w, "A", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
		return append(out, Op{K: "adv", D: 101 * time.Second})
	}
	m := &Model{Name: "stray", Cfg: baseCfg, Depth: d, Ops: alphabet}
	m.StateH = func(h []Op) string { return check(h, m) }
	c.explore(m)
}

// --------------------------------------------------------------------- C31

// change is an act of the operator: it edits the server's registries, and the
// history's knowledge of them, under the server's lock.
type change struct {
	name string
	f    func(w *World)
}

func (w *World) operator(f func()) {
	if l, ok := reflect.ValueOf(w.S).Elem().FieldByName("Mutex").Addr().Interface().(interface {
		Lock()
		Unlock()
	}); ok {
		l.Lock()
		defer l.Unlock()
	}
	f()
}

func (w *World) setClient(id string, f func(*ClientSpec)) {
	cfg := *w.Cfg
	cfg.Clients = append([]ClientSpec(nil), cfg.Clients...)
	w.Cfg = &cfg
	w.operator(func() {
		c := w.client(id)
		was := *c
		f(c)
		e := w.S.Clients[id] // what the operator leaves alone is left alone
		if c.Secret != was.Secret {
			e.Secret = c.Secret
		}
		if c.Redirect != was.Redirect {
			e.RedirectURI = c.Redirect
		}
		if c.Conf != was.Conf {
			e.Confidential = c.Conf
		}
	})
}

// intact says what the registries and the configuration hold that the operator
// did not put there.
func (w *World) intact() string {
	msg := ""
	w.operator(func() {
		g := w.Cfg
		if len(w.S.Clients) != len(g.Clients) || len(w.S.Users) != len(g.Users) {
			msg = fmt.Sprintf("%d clients and %d users are registered instead of %d and %d", len(w.S.Clients), len(w.S.Users), len(g.Clients), len(g.Users))
			return
		}
		for _, c := range g.Clients {
			e := w.S.Clients[c.ID]
			if e == nil || e.Secret != c.Secret || e.RedirectURI != c.Redirect || e.Confidential != c.Conf {
				msg = fmt.Sprintf("the server changed client %s to %+v, registered is %+v", c.ID, e, c)
			}
		}
		for _, u := range g.Users {
			if e := w.S.Users[u[0]]; e == nil || e.Secret != u[1] {
				msg = fmt.Sprintf("the server changed user %s to %+v", u[0], e)
			}
		}
		s := w.S.Config
		if string(s.Secret) != g.Secret || s.KeyLength != g.KeyLen || s.AccessTokenLifespan != g.LA || s.RefreshTokenLifespan != g.LR || s.AuthorizationCodeLifespan != g.LC || strings.Join(s.AllowedScope, " ") != strings.Join(g.Allowed, " ") {
			msg = fmt.Sprintf("the server changed its configuration to %+v", s)
		}
	})
	return msg
}

func (w *World) dropClient(id string) {
	cfg := *w.Cfg
	cfg.Clients = nil
	for _, c := range w.Cfg.Clients {
		if c.ID != id {
			cfg.Clients = append(cfg.Clients, c)
		}
	}
	w.Cfg = &cfg
	w.operator(func() { delete(w.S.Clients, id) })
}

func (w *World) addClient(c ClientSpec) {
	cfg := *w.Cfg
	cfg.Clients = append(append([]ClientSpec(nil), cfg.Clients...), c)
	w.Cfg = &cfg
	w.operator(func() {
		w.S.Clients[c.ID] = &oauth2.ServerEntity{Secret: c.Secret, RedirectURI: c.Redirect, Confidential: c.Conf}
	})
}

func (w *World) setUser(id, pass string) {
	cfg := *w.Cfg
	cfg.Users = nil
	for _, u := range w.Cfg.Users {
		if u[0] != id {
			cfg.Users = append(cfg.Users, u)
		}
	}
	if pass != "" {
		cfg.Users = append(cfg.Users, [2]string{id, pass})
	}
	w.Cfg = &cfg
	w.operator(func() {
		if pass == "" {
			delete(w.S.Users, id)
		} else if e := w.S.Users[id]; e != nil {
			e.Secret = pass
		} else {
			w.S.Users[id] = &oauth2.ServerEntity{Secret: pass}
		}
	})
}

func (w *World) setConfig(f func(g *Cfg)) {
	cfg := *w.Cfg
	f(&cfg)
	w.Cfg = &cfg
	w.operator(func() {
		w.S.Config.AllowedScope = oauth2.Scope(append([]string(nil), cfg.Allowed...))
		w.S.Config.AccessTokenLifespan, w.S.Config.RefreshTokenLifespan, w.S.Config.AuthorizationCodeLifespan = cfg.LA, cfg.LR, cfg.LC
		w.S.Config.KeyLength = cfg.KeyLen
		w.S.Config.Secret = []byte(cfg.Secret)
	})
}

var changes = []change{
	{"nothing", func(w *World) {}},
	{"c1 secret", func(w *World) { w.setClient("c1", func(c *ClientSpec) { c.Secret = "new-s1" }) }},
	{"c1 secret emptied", func(w *World) { w.setClient("c1", func(c *ClientSpec) { c.Secret = "" }) }},
	{"c1 secret becomes c2's", func(w *World) { w.setClient("c1", func(c *ClientSpec) { c.Secret = "s2-Secret" }) }},
	{"c1 redirect", func(w *World) { w.setClient("c1", func(c *ClientSpec) { c.Redirect = "https://c1.example.com/new" }) }},
	{"c1 redirect becomes c2's", func(w *World) {
		w.setClient("c1", func(c *ClientSpec) { c.Redirect = "https://c2.example.com/cb?tenant=7" })
	}},
	{"c1 public", func(w *World) { w.setClient("c1", func(c *ClientSpec) { c.Conf = false }) }},
	{"p1 confidential", func(w *World) { w.setClient("p1", func(c *ClientSpec) { c.Conf, c.Secret = true, "p1-new" }) }},
	{"p1 confidential with its secret", func(w *World) { w.setClient("p1", func(c *ClientSpec) { c.Conf = true }) }},
	{"c1 removed", func(w *World) { w.dropClient("c1") }},
	{"c1 removed and added", func(w *World) {
		c := *w.client("c1")
		w.dropClient("c1")
		w.addClient(c)
	}},
	{"c1 replaced", func(w *World) {
		w.dropClient("c1")
		w.addClient(ClientSpec{"c1", "other", "https://c1.example.com/other", true})
	}},
	{"c3 added", func(w *World) { w.addClient(ClientSpec{"c3", "s3", "https://c3.example.com/cb", true}) }},
	{"u1 password", func(w *World) { w.setUser("u1", "new-pw1") }},
	{"u1 password becomes u2's", func(w *World) { w.setUser("u1", "pw2-Pass") }},
	{"u1 removed", func(w *World) { w.setUser("u1", "") }},
	{"u1 removed and added", func(w *World) { w.setUser("u1", ""); w.setUser("u1", "pw1-Pass") }},
	{"u3 added", func(w *World) { w.setUser("u3", "pw3") }},
	{"scope narrowed", func(w *World) { w.setConfig(func(g *Cfg) { g.Allowed = []string{"bar"} }) }},
	{"scope widened", func(w *World) { w.setConfig(func(g *Cfg) { g.Allowed = []string{"foo", "bar", "baz"} }) }},
	{"scope emptied", func(w *World) { w.setConfig(func(g *Cfg) { g.Allowed = nil }) }},
	{"lifespans longer", func(w *World) {
		w.setConfig(func(g *Cfg) { g.LA, g.LR, g.LC = 400*time.Second, 5000*time.Second, 300*time.Second })
	}},
	{"lifespans shorter", func(w *World) {
		w.setConfig(func(g *Cfg) { g.LA, g.LR, g.LC = 3*time.Second, 5*time.Second, 2*time.Second })
	}},
	// values that resemble the earlier ones: same length, same letters
	{"c1 secret alike", func(w *World) { w.setClient("c1", func(c *ClientSpec) { c.Secret = "t1-Secres" }) }},
	{"c1 redirect alike", func(w *World) { w.setClient("c1", func(c *ClientSpec) { c.Redirect = "https://c1.example.com/bc" }) }},
	{"u1 password alike", func(w *World) { w.setUser("u1", "pw1-ssaP") }},
	{"scope alike", func(w *World) { w.setConfig(func(g *Cfg) { g.Allowed = []string{"foo", "baz"} }) }},
	{"server secret alike", func(w *World) { w.setConfig(func(g *Cfg) { g.Secret = "!a-server-secret" }) }},
	{"lifespans swapped", func(w *World) { w.setConfig(func(g *Cfg) { g.LA, g.LR, g.LC = g.LR, g.LA, g.LC/2 }) }},
	// edits in place, and whole registries exchanged
	{"scope edited in place", func(w *World) {
		cfg := *w.Cfg
		cfg.Allowed = append([]string(nil), cfg.Allowed...)
		w.Cfg = &cfg
		w.operator(func() {
			if n := len(cfg.Allowed); n > 0 && n == len(w.S.Config.AllowedScope) {
				cfg.Allowed[n-1], w.S.Config.AllowedScope[n-1] = "baz", "baz"
			}
		})
	}},
	{"server secret edited in place", func(w *World) {
		cfg := *w.Cfg
		w.Cfg = &cfg
		w.operator(func() { w.S.Config.Secret[0] ^= 1; cfg.Secret = string(w.S.Config.Secret) })
	}},
	{"registries exchanged", func(w *World) {
		cfg := *w.Cfg
		cfg.Clients = append([]ClientSpec(nil), cfg.Clients...)
		cfg.Users = [][2]string{{"u2", "pw1-Pass"}, {"u4", "pw4-Pass"}}
		w.Cfg = &cfg
		w.operator(func() {
			w.S.Clients, w.S.Users = map[string]*oauth2.ServerEntity{}, map[string]*oauth2.ServerEntity{}
			for i := range cfg.Clients {
				c := &cfg.Clients[i]
				if c.Conf {
					c.Secret = "now-" + c.Secret
				}
				w.S.Clients[c.ID] = &oauth2.ServerEntity{Secret: c.Secret, RedirectURI: c.Redirect, Confidential: c.Conf}
			}
			for _, u := range cfg.Users {
				w.S.Users[u[0]] = &oauth2.ServerEntity{Secret: u[1]}
			}
		})
	}},
	{"longer keys", func(w *World) { w.setConfig(func(g *Cfg) { g.KeyLen = 48 }) }},
	{"server secret", func(w *World) { w.setConfig(func(g *Cfg) { g.Secret = "another-secret!!" }) }},
	{"server secret there and back", func(w *World) {
		s := w.Cfg.Secret
		w.setConfig(func(g *Cfg) { g.Secret = "another-secret!!" })
		w.send(w.build(Op{K: "pw", Cl: "c1", Us: "u1"}))
		for _, k := range w.Creds {
			w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: true, Auth: "Bearer " + k.Str})
		}
		w.setConfig(func(g *Cfg) { g.Secret = s })
	}},
}

// judged compares everything the server does after a change with what the
// registries, as they are now, prescribe.
func judged(mk func() *World, old *Cfg) string {
	try := func(o Op, want int, name string) string { // want 0: success
		w := mk()
		n, cnt := len(w.Creds), w.issuedCount()
		r := w.do(o)
		if r.Panic != "" {
			return o.key() + ": panic: " + r.Panic
		}
		if msg := w.intact(); msg != "" {
			return o.key() + ": " + msg
		}
		if want == 0 {
			if refused(r) {
				return fmt.Sprintf("%s is refused\nanswer: %s", o.key(), r)
			}
			if tk := r.tokens(); tk != nil {
				for _, s := range []string{tk.Access, tk.Refresh, tk.Code} {
					if s == "" {
						continue
					}
					if key, _, genuine, _ := refToken([]byte(w.Cfg.Secret), s); !genuine || len(key) != w.Cfg.KeyLen {
						return fmt.Sprintf("%s: %q is not a credential of the configured secret and length", o.key(), s)
					}
				}
				if tk.Access != "" && tk.ExpiresIn != fmt.Sprint(int(w.Cfg.LA/time.Second)) {
					return fmt.Sprintf("%s: expires_in is %s with a lifespan of %s", o.key(), tk.ExpiresIn, w.Cfg.LA)
				}
			}
			for _, k := range w.Creds[n:] { // new credentials live as configured now
				for _, d := range []time.Duration{-time.Millisecond, time.Millisecond} {
					v := mk()
					v.do(o)
					if len(v.Creds) <= k.ID {
						return "the answer is not reproducible"
					}
					v.sleep(k.Life + d)
					if ok, r := v.use(v.Creds[k.ID]); ok != (d < 0) {
						return fmt.Sprintf("%s: used %s relative to its configured lifespan %s, %s is honoured=%v\nanswer: %s", o.key(), d, k.Life, k, ok, r)
					}
				}
			}
			return ""
		}
		if !refused(r) || r.tokens() != nil {
			return fmt.Sprintf("%s is accepted, want it refused with %s\nanswer: %s", o.key(), name, r)
		}
		if (want > 0 && r.Code != want) || r.err() != name {
			return fmt.Sprintf("%s is refused with %d %s, want %d %s", o.key(), r.Code, r.err(), want, name)
		}
		if w.issuedCount() > cnt {
			return o.key() + " is refused, but left a credential behind"
		}
		return ""
	}
	w0 := mk()
	g := w0.Cfg
	ids := map[string]bool{"nobody": true}
	for _, l := range [][]ClientSpec{g.Clients, old.Clients} {
		for _, c := range l {
			ids[c.ID] = true
		}
	}
	secrets := map[string]bool{"-": true, "wrong": true}
	uris := map[string]bool{}
	for _, l := range [][]ClientSpec{g.Clients, old.Clients} {
		for _, c := range l {
			if c.Secret != "" {
				secrets[c.Secret] = true
			}
			uris[c.Redirect] = true
		}
	}
	users := map[string]bool{"nobody": true}
	passes := map[string]bool{"wrong": true}
	for _, l := range [][][2]string{g.Users, old.Users} {
		for _, u := range l {
			users[u[0]], passes[u[1]] = true, true
		}
	}
	scopes := []string{"", "foo", "bar", "foo bar", "baz", "foo baz"}
	authOK := func(c *ClientSpec, sec string) bool {
		if sec == "-" {
			sec = ""
		}
		return c != nil && (!c.Conf || c.Secret == sec)
	}
	scopeOK := func(s string) bool { return subset(splitScope(s), g.Allowed) }
	for _, id := range keysOf(ids) {
		c := w0.client(id)
		for _, sec := range keysOf(secrets) {
			for _, sc := range scopes {
				if !authOK(c, sec) && sc != "" {
					continue
				}
				o := Op{K: "cc", Cl: id, Sec: sec, Sc: sc}
				msg := ""
				switch {
				case !authOK(c, sec) || !c.Conf:
					msg = try(o, 401, "invalid_client")
				case !scopeOK(sc):
					msg = try(o, 400, "invalid_scope")
				default:
					msg = try(o, 0, "")
				}
				if msg != "" {
					return msg
				}
			}
			if msg := try(Op{K: "pw", Cl: id, Sec: sec, Us: "u2"}, map[bool]int{true: 0, false: 401}[authOK(c, sec)], "invalid_client"); msg != "" {
				return msg
			}
		}
		// authorizations by redirect URI
		for _, u := range keysOf(uris) {
			o := Op{K: "code", Cl: id, Us: "u2", Rd: u}
			msg := ""
			switch {
			case c == nil:
				msg = try(o, 401, "invalid_client")
			case c.Redirect != u:
				msg = try(o, 400, "invalid_request")
			default:
				msg = try(o, 0, "")
			}
			if msg != "" {
				return msg
			}
		}
	}
	for _, u := range keysOf(users) {
		for _, p := range keysOf(passes) {
			ok := false
			for _, x := range g.Users {
				ok = ok || x == [2]string{u, p}
			}
			for _, k := range []string{"pw", "imp", "code"} {
				want := map[bool]int{true: 0, false: -1}[ok]
				if msg := try(Op{K: k, Cl: "c2", Us: u, Pw: p}, want, "access_denied"); msg != "" {
					return msg
				}
			}
		}
	}
	for _, k := range []string{"pw", "imp", "code"} {
		for _, sc := range scopes {
			want := map[bool]int{true: 0, false: -1}[scopeOK(sc)]
			if msg := try(Op{K: k, Cl: "c2", Us: "u2", Sc: sc}, want, "invalid_scope"); msg != "" {
				return msg
			}
		}
	}
	// credentials issued before stay what they were
	for i := range w0.Creds {
		v := mk()
		k := v.Creds[i]
		c := v.client(k.Client)
		foreign := g.Secret != old.Secret
		if k.Kind == 'A' {
			for _, sc := range scopes {
				v := mk()
				k := v.Creds[i]
				live, dead := k.live(), k.dead()
				r := v.do(Op{K: "res", Cr: i, Sc: sc})
				want := !foreign && live && subset(splitScope(sc), k.Scope)
				if r.OK != want && (live || dead) {
					return fmt.Sprintf("%s is admitted for %q: %v\nanswer: %s", k, sc, r.OK, r)
				}
			}
		} else {
			if c == nil {
				r := v.do(Op{K: map[byte]string{'R': "rfr", 'C': "xch"}[k.Kind], Cl: k.Client, Cr: i})
				if r.Code != 401 || r.err() != "invalid_client" {
					return fmt.Sprintf("%s is presented by a client that is not registered\nanswer: %s", k, r)
				}
				continue
			}
			for _, sec := range keysOf(secrets) {
				v := mk()
				k := v.Creds[i]
				live, dead := k.live(), k.dead()
				r := v.do(Op{K: map[byte]string{'R': "rfr", 'C': "xch"}[k.Kind], Cl: k.Client, Cr: i, Sec: sec})
				ok := r.Code == 200 && r.tokens() != nil
				want := authOK(c, sec) && !foreign && live
				if live || dead {
					if k.Kind == 'C' && k.Redirect != c.Redirect && ok != want {
						continue // whether a code survives the move of its client is left open
					}
					if ok != want {
						return fmt.Sprintf("redeeming %s with secret %q: honoured=%v, want %v\nanswer: %s", k, sec, ok, want, r)
					}
				}
			}
		}
		if k.Kind != 'C' && c != nil && !foreign {
			for _, sec := range keysOf(secrets) {
				v := mk()
				k := v.Creds[i]
				r := v.do(Op{K: "int", Cl: k.Client, Cr: i, Sec: sec})
				m := r.json()
				active, _ := m["active"].(bool)
				if authOK(c, sec) != (r.Code == 200) {
					return fmt.Sprintf("introspecting %s with secret %q\nanswer: %s", k, sec, r)
				}
				if r.Code != 200 || !k.live() && !k.dead() {
					continue
				}
				if active != k.live() || active && (str(m, "username") != k.User || str(m, "client_id") != k.Client || m["exp"] != float64(k.At.Add(k.Life).Unix()) || !sameSet(splitScope(str(m, "scope")), k.Scope)) {
					return fmt.Sprintf("introspection misreports %s\nanswer: %s", k, r)
				}
			}
		}
	}
	return ""
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func TestC31(t *testing.T) {
	c := newCheck(t, "C31", "model_checking",
		"all histories of a lifecycle alphabet to the depth bound, merged by canonical state; in every state every one of 36 acts of the operator (and, in fewer states, every ordered pair of them), then every client x every old, new and wrong secret x scope, every client x every old and new redirect URI, every user x every old and new password at every grant, every scope at every grant, each new credential's lifespan, and every earlier credential's use and introspection, against the registries as they are now. Non-trivial: the state holds a credential.")
	c.assume = []string{"the operator edits the exported registries under the exported lock", "whether an outstanding code remains redeemable after its client's redirect URI changed is left open"}
	defer c.finish()
	d := 2
	if c.thorough() {
		d = 3
	}
	baseCfg := func() *Cfg { // public clients may have a secret on record, too
		g := baseCfg()
		for i := range g.Clients {
			if !g.Clients[i].Conf {
				g.Clients[i].Secret = "p-Secret"
			}
		}
		return g
	}
	m := &Model{Name: "operator", Cfg: baseCfg, Depth: d, Ops: func(w *World) []Op {
		out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "p1", Us: "u1", Sc: "foo"}, {K: "imp", Cl: "c2", Us: "u2"}}
		out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
		out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
		return append(out, forKind(w, "A", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
	}}
	m.StateH = func(h []Op) string {
		old := m.run(h).Cfg
		pairs := len(h) < 2 && (c.thorough() || len(h) == 1 && h[0].K == "pw" && h[0].Cl == "c1")
		for i, a := range changes {
			for j, b := range changes {
				if (j > 0 && (!pairs || i == 0 || i == j)) || c.stopped() || c.timeUp() {
					continue
				}
				if (b.name == "c1 replaced" || strings.HasPrefix(b.name, "c1 ")) && a.name == "c1 removed" || (strings.HasSuffix(b.name, " added") && !strings.Contains(b.name, "removed") && i == j) {
					continue
				}
				c.evals.Add(1)
				c.progress.Add(1)
				mk := func() *World {
					w := m.run(h)
					a.f(w)
					b.f(w)
					return w
				}
				if g := mk().Cfg; g.Secret != old.Secret && a.name == "server secret there and back" {
					continue
				}
				if msg := judged(mk, old); msg != "" {
					return fmt.Sprintf("after %q, %q: %s", a.name, b.name, msg)
				}
			}
		}
		return ""
	}
	c.explore(m)
	// a warm server: the request was served before the change, too
	c.parallel(len(changes), func(i int) {
		c.Case("warm "+changes[i].name, true, func() string {
			h := richHistory()
			return judged(func() *World {
				w := (&Model{Cfg: baseCfg}).run(h)
				for _, sc := range []string{"foo", "bar", "foo bar", "baz"} {
					for _, cl := range []string{"c1", "c2", "p1"} {
						for _, k := range []string{"pw", "imp", "code", "cc"} {
							w.send(w.build(Op{K: k, Cl: cl, Us: "u1", Sc: sc}))
						}
					}
				}
				w.send(w.build(Op{K: "pw", Cl: "c1", Us: "u1", Pw: "wrong"}))
				w.send(w.build(Op{K: "cc", Cl: "c1", Sec: "wrong"}))
				w.send(w.build(Op{K: "code", Cl: "p1", Us: "u2"}))
				for _, k := range w.Creds {
					if k.Kind != 'C' && k.live() {
						w.send(w.build(Op{K: "int", Cl: k.Client, Cr: k.ID}))
						w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: true, Auth: "Bearer " + k.Str})
					}
				}
				changes[i].f(w)
				return w
			}, baseCfg())
		})
	})
}

// --------------------------------------------------------------------- C32

// twin builds a second server in the same process, at the same moment.
func twin(w *World, cfg *Cfg) *World {
	v := &World{Cfg: cfg, last: w.last}
	sc := oauth2.DefaultServerConfig([]byte(cfg.Secret), oauth2.Scope(append([]string(nil), cfg.Allowed...)))
	sc.KeyLength = cfg.KeyLen
	sc.AccessTokenLifespan, sc.RefreshTokenLifespan, sc.AuthorizationCodeLifespan = cfg.LA, cfg.LR, cfg.LC
	v.S = oauth2.NewServer(sc)
	for _, c := range cfg.Clients {
		v.S.Clients[c.ID] = &oauth2.ServerEntity{Secret: c.Secret, RedirectURI: c.Redirect, Confidential: c.Conf}
	}
	for _, u := range cfg.Users {
		v.S.Users[u[0]] = &oauth2.ServerEntity{Secret: u[1]}
	}
	return v
}

func TestC32(t *testing.T) {
	c := newCheck(t, "C32", "model_checking",
		"two servers in one process with 5 relations between them (same configuration, other secret, other clients and users, other lifespans and scopes, everything different but of equal length and letters): every history of the first to depth 2 (thorough 3) x every history of the second to depth 2 (thorough 2) x every interleaving; every answer and the final state of each must equal those of the same history served alone, and every credential of one is useless at the other. Non-trivial: both histories issue a credential.")
	defer c.finish()
	second := []struct {
		name string
		cfg  func() *Cfg
	}{
		{"same", baseCfg},
		{"secret", func() *Cfg { g := baseCfg(); g.Secret = "some-other-secret"; return g }},
		{"people", func() *Cfg {
			g := baseCfg()
			g.Clients = []ClientSpec{{"c1", "other-s1", "https://c1.other.example/cb", true}, {"p1", "now-secret", "https://p1.example.com/app", true}, {"c2", "s2-Secret", "https://c2.example.com/cb?tenant=7", false}}
			g.Users = [][2]string{{"u1", "other-pw"}, {"u2", "pw2-Pass"}}
			return g
		}},
		{"limits", func() *Cfg {
			g := baseCfg()
			g.Allowed, g.KeyLen = []string{"foo", "bar", "baz"}, 32
			g.LA, g.LR, g.LC = 30*time.Second, 60*time.Second, 10*time.Second
			return g
		}},
		// everything differs, but in ways that a weak comparison overlooks
		{"alike", func() *Cfg {
			g := baseCfg()
			g.Secret = "!a-server-secret"
			g.Clients = []ClientSpec{{"c1", "t1-Secres", "https://c1.example.com/bc", true}, {"c2", "t2-Secres", "https://c2.example.com/cb?tenant=8", true}, {"p1", "", "https://p1.example.com/ppa", false}}
			g.Users = [][2]string{{"u1", "pw1-ssaP"}, {"u2", "pw2-ssaP"}}
			g.Allowed = []string{"foo", "baz"}
			return g
		}},
	}
	alphabet := func(w *World) []Op {
		out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "cc", Cl: "c1", Sc: "foo baz"}, {K: "pw", Cl: "p1", Us: "u1", Sec: "-"}, {K: "imp", Cl: "c2", Us: "u2", Sc: "bar", St: "s"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "bar", Sec: "s1-Secret", Pw: "pw1-Pass"}, {K: "code", Cl: "c1", Us: "u1", Sc: "baz", Pw: "pw1-Pass"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "baz"}}
		out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
		out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
		return append(out, forKind(w, "A", func(k *Cred) []Op {
			return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}, {K: "int", Cl: k.Client, Cr: k.ID}, {K: "res", Cr: k.ID, Sc: "foo"}}
		})...)
	}
	// all histories of a configuration up to a depth, with their solo outcome
	type solo struct {
		h     []Op
		masks []string
		vec   string
	}
	histories := func(cfg func() *Cfg, depth int) []solo {
		m := &Model{Cfg: cfg}
		var out []solo
		var rec func(h []Op)
		rec = func(h []Op) {
			if len(h) > 0 {
				s := solo{h: append([]Op(nil), h...)}
				w := m.run(nil)
				for _, o := range h {
					s.masks = append(s.masks, w.mask(w.do(o)))
				}
				s.vec = fmt.Sprint(w.vector(len(w.Creds)))
				out = append(out, s)
			}
			if len(h) == depth {
				return
			}
			for _, o := range alphabet(m.run(h)) {
				rec(append(append([]Op(nil), h...), o))
			}
		}
		rec(nil)
		return out
	}
	da, db := 2, 2
	if c.thorough() {
		da = 3
	}
	var as []solo
	bs := make([][]solo, len(second))
	synctest.Test(t, func(*testing.T) {
		as = histories(baseCfg, da)
		for i, s := range second {
			bs[i] = histories(s.cfg, db)
		}
	})
	c.depth = da + db
	c.parallel(len(as)*len(second), func(i int) {
		a, s := as[i/len(second)], i%len(second)
		for _, b := range bs[s] {
			if c.stopped() || c.timeUp() {
				return
			}
			n := len(a.h) + len(b.h)
			for bits := 0; bits < 1<<n; bits++ {
				if popcount(bits) != len(b.h) {
					continue
				}
				c.Case(fmt.Sprintf("%s: [%s] with [%s] order %0*b", second[s].name, histKey(a.h), histKey(b.h), n, bits), a.vec != "[]" && b.vec != "[]", func() string {
					wa := newWorld(baseCfg())
					wb := twin(wa, second[s].cfg())
					ia, ib := 0, 0
					for k := 0; k < n; k++ {
						c.transitions.Add(1)
						if bits>>k&1 == 0 {
							if got := wa.mask(wa.do(a.h[ia])); got != a.masks[ia] {
								return fmt.Sprintf("first server, %s: answered [%s], alone [%s]", a.h[ia].key(), got, a.masks[ia])
							}
							ia++
						} else {
							if got := wb.mask(wb.do(b.h[ib])); got != b.masks[ib] {
								return fmt.Sprintf("second server, %s: answered [%s], alone [%s]", b.h[ib].key(), got, b.masks[ib])
							}
							ib++
						}
					}
					if got := fmt.Sprint(wa.vector(len(wa.Creds))); got != a.vec {
						return fmt.Sprintf("the first server's credentials are now [%s], alone [%s]", got, a.vec)
					}
					if got := fmt.Sprint(wb.vector(len(wb.Creds))); got != b.vec {
						return fmt.Sprintf("the second server's credentials are now [%s], alone [%s]", got, b.vec)
					}
					return ""
				})
			}
		}
	})
	// credentials of one server at the other
	c.parallel(len(as)*len(second), func(i int) {
		a, s := as[i/len(second)], i%len(second)
		c.Case(fmt.Sprintf("%s: [%s] shown to the other", second[s].name, histKey(a.h)), true, func() string {
			wa := (&Model{Cfg: baseCfg}).run(a.h)
			prepare := func() *World {
				wb := twin(wa, second[s].cfg())
				wb.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo"})
				wb.do(Op{K: "xch", Cl: "c1", Cr: 0})
				wb.do(Op{K: "pw", Cl: "c2", Us: "u2", Sc: "foo"})
				return wb
			}
			wb, n := prepare(), len(wa.Creds)
			if len(wb.Creds) == 0 {
				return "the second server issues nothing"
			}
			for _, k := range wa.Creds {
				if r := wb.do(Op{K: "res", X: k.Str}); r.OK || r.Code != 401 {
					return fmt.Sprintf("%s at the other server's resource\nanswer: %s", k, r)
				}
				for _, o := range []Op{{K: "rfr", Cl: k.Client, X: k.Str}, {K: "xch", Cl: k.Client, X: k.Str, Rd: "https://c1.example.com/cb"}} {
					if r := wb.do(o); r.tokens() != nil || r.Code < 400 {
						return fmt.Sprintf("%s redeemed at the other server\nanswer: %s", k, r)
					}
				}
				if r := wb.do(Op{K: "int", Cl: k.Client, X: k.Str}); strings.Contains(r.Body, "true") || strings.Contains(r.Body, k.Client) {
					return fmt.Sprintf("%s described by the other server\nanswer: %s", k, r)
				}
				wb.do(Op{K: "rev", Cl: k.Client, X: k.Str})
			}
			if got, want := fmt.Sprint(wb.vector(len(wb.Creds))), prepare(); got != fmt.Sprint(want.vector(len(want.Creds))) {
				return "afterwards the second server's own credentials are " + got
			}
			if got := fmt.Sprint(wa.vector(n)); got != a.vec {
				return fmt.Sprintf("afterwards the first server's credentials are [%s], alone [%s]", got, a.vec)
			}
			return ""
		})
	})
}

func popcount(x int) int {
	n := 0
	for ; x > 0; x &= x - 1 {
		n++
	}
	return n
}

// --------------------------------------------------------------------- C33

// countBody tells how much of it was read.
type countBody struct {
	r      *strings.Reader
	reads  int
	closed int
}

func (b *countBody) Read(p []byte) (int, error) { b.reads++; return b.r.Read(p) }
func (b *countBody) Close() error               { b.closed++; return nil }

// touchy records every use of a response writer.
type touchy struct {
	*recorder
	headers int
}

func (t *touchy) Header() http.Header { t.headers++; return t.recorder.Header() }

func TestC33(t *testing.T) {
	c := newCheck(t, "C33", "exploration",
		"every method x query x body x content type x set of preset response headers x required scope x credential of a rich state x malformed header: on admission the response writer is untouched and the request unread and unaltered, so that the handler's own answer is delivered as if unguarded, also with any of ~200 headers and 25 circumstances; on refusal the answer is complete. Non-trivial: the request is admitted.")
	defer c.finish()
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "PROPFIND"}
	queries := []string{"", "a=b&access_token=x", "%zz", "scope=baz;x"}
	bodies := []string{"", "a=b&access_token=x", "%zz=%", "{\"json\":true}", strings.Repeat("x", 5000)}
	cts := []string{"", formCT, "application/json", "multipart/form-data; boundary=x", "bad;;"}
	needs := [][]string{nil, {"foo"}, {"foo", "bar"}, {"bar", "foo", "foo"}, {"foo", "bar", "foo"}, {"foo", "foo", "bar", "bar"}, {"zed", "foo", "bar", "arg"}, {"foo", "", "bar"}}
	presets := [][][2]string{nil, {{"X-Pre", "1"}, {"Cache-Control", "public"}, {"Content-Type", "text/x"}}}
	m := &Model{Cfg: baseCfg}
	h := richHistory()
	var n int
	synctest.Test(t, func(*testing.T) { n = len(m.run(h).Creds) })
	schemes := []string{"Bearer ", "bearer ", "BEARER ", "Basic ", "Bearer  ", "", "none", "twice "}
	c.parallel((n+1)*len(methods), func(i int) {
		id, method := i/len(methods), methods[i%len(methods)]
		for _, sch := range schemes {
			for _, qu := range queries {
				for _, body := range bodies {
					for _, ct := range cts {
						for ni, need := range needs {
							for pi, pre := range presets {
								if c.stopped() || c.timeUp() {
									return
								}
								if !c.thorough() && (ni > 3 && (qu != "" || ct != "" || pi > 0) || qu != "" && body != "" && ct != formCT || pi > 0 && qu != "") {
									continue
								}
								c.Case(fmt.Sprintf("#%d %s %q ?%s %.12q %s need %d pre %d", id, method, sch, qu, body, ct, ni, pi), sch == "Bearer ", func() string {
									w := m.run(h)
									auth := "garbage"
									if id < n {
										auth = w.Creds[id].Str
									}
									return guarded(w, method, sch+auth, qu, body, ct, append([]string(nil), need...), pre, func() *Cred {
										if id < n {
											return w.Creds[id]
										}
										return nil
									}(), nil)
								})
							}
						}
					}
				}
			}
		}
	})
	// what else a request carries, and how it arrived, neither admits nor
	// excludes
	more := append(append([]string{}, methods...), "CONNECT", "TRACE", "get", "M-SEARCH", "")
	c.parallel((n+1)*len(more), func(i int) {
		id, method := i/len(more), more[i%len(more)]
		for _, sch := range []string{"Bearer ", "none"} {
			for _, need := range [][]string{nil, {"foo"}} {
				if c.stopped() || c.timeUp() {
					return
				}
				c.Case(fmt.Sprintf("#%d %q %s need %d among all headers", id, method, sch, len(need)), true, func() string {
					w := m.run(h)
					if (id+i%len(more))%2 == 1 {
						w.sleep(w.Cfg.LA + time.Second)
					}
					auth, cr := "garbage", (*Cred)(nil)
					if id < n {
						auth, cr = w.Creds[id].Str, w.Creds[id]
					}
					for _, x := range strayHeaders {
						c.evals.Add(1)
						if msg := guarded(w, method, sch+auth, "", "", "", append([]string(nil), need...), nil, cr, func(r *http.Request) { r.Header.Add(x[0], x[1]) }); msg != "" {
							return fmt.Sprintf("with %s: %s: %s", x[0], x[1], msg)
						}
					}
					for _, x := range circumstances {
						if x.name == "form parsed before" {
							continue
						}
						c.evals.Add(1)
						if msg := guarded(w, method, sch+auth, "", "a=b", formCT, append([]string(nil), need...), nil, cr, x.f); msg != "" {
							return fmt.Sprintf("with %s: %s", x.name, msg)
						}
					}
					return ""
				})
			}
		}
	})
}

func guarded(w *World, method, auth, query, body, ct string, need []string, pre [][2]string, k *Cred, mod func(r *http.Request)) string {
	cb := &countBody{r: strings.NewReader(body)}
	r := &http.Request{Method: method, URL: &url.URL{Path: "/api/x", RawQuery: query}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Authorization": {auth}, "X-Keep": {"1", "2"}}, Host: "h", Body: cb, ContentLength: int64(len(body)), RequestURI: "/api/x"}
	if strings.HasPrefix(auth, "none") {
		r.Header.Del("Authorization")
	} else if x, ok := strings.CutPrefix(auth, "twice "); ok {
		r.Header["Authorization"] = []string{"Bearer " + x, "Bearer other"}
	}
	if ct != "" {
		r.Header.Set("Content-Type", ct)
	}
	if mod != nil {
		mod(r)
	}
	body0 := r.Body
	before := fmt.Sprint(r.Method, r.URL, r.Proto, r.Header, r.Host, r.ContentLength, r.TransferEncoding, r.Form, r.PostForm, r.MultipartForm, r.Trailer, r.RemoteAddr, r.RequestURI, r.Close)
	ctx := r.Context()
	t := &touchy{recorder: newRecorder()}
	for _, p := range pre {
		t.recorder.h.Set(p[0], p[1])
	}
	want := fmt.Sprint(need)
	ok := w.S.Authorize(t, r, oauth2.Scope(need))
	if fmt.Sprint(need) != want {
		return "the required scope was altered"
	}
	if locked(w.S) {
		return "the server is left locked"
	}
	after := fmt.Sprint(r.Method, r.URL, r.Proto, r.Header, r.Host, r.ContentLength, r.TransferEncoding, r.Form, r.PostForm, r.MultipartForm, r.Trailer, r.RemoteAddr, r.RequestURI, r.Close)
	if ctx != r.Context() || r.Body != body0 {
		return "the request's context or body was replaced"
	}
	lower := strings.ToLower(auth)
	admit := k != nil && k.Kind == 'A' && k.live() && subset(need, k.Scope) && strings.HasPrefix(lower, "bearer ") && !strings.HasPrefix(lower, "bearer  ")
	if ok != admit && !strings.HasPrefix(auth, "twice ") {
		return fmt.Sprintf("admitted=%v, want %v", ok, admit)
	}
	if r.Form != nil || r.PostForm != nil || r.MultipartForm != nil {
		return "the request's form was parsed"
	}
	if cb.reads > 0 || cb.closed > 0 {
		return fmt.Sprintf("the body was read (%d) or closed (%d)", cb.reads, cb.closed)
	}
	if before != after {
		return fmt.Sprintf("the request changed\nfrom %s\nto %s", before, after)
	}
	if ok {
		if t.writes > 0 || len(t.body) > 0 {
			return "admitted, but something was written"
		}
		if len(t.recorder.h) != len(pre) {
			return fmt.Sprintf("admitted, but headers were set: %v", t.recorder.h)
		}
		for _, p := range pre {
			if t.recorder.h.Get(p[0]) != p[1] {
				return fmt.Sprintf("admitted, but headers were altered: %v", t.recorder.h)
			}
		}
		return ""
	}
	x := t.resp()
	if t.writes != 1 {
		return fmt.Sprintf("refused with %d answers", t.writes)
	}
	if x.Code < 400 || x.Code > 403 || !strings.HasPrefix(x.H.Get("WWW-Authenticate"), "Bearer ") || x.Body != "" {
		return "refused incompletely: " + x.String()
	}
	return ""
}
