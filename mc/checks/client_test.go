package checks

// The client: damaged and adversarial answers (C25) and whole client-server
// histories (C29).

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// --------------------------------------------------------------------- C25

// answer is what the network delivers to one client call.
type answer struct {
	status  int
	ct      string // "-": no Content-Type
	body    string
	n       int  // bytes delivered before the end
	fail    int  // 0: end of file after n bytes, 1: error after n bytes, 2: error together with the last bytes
	chunk   int  // largest piece, 0: unlimited
	nilBody bool // no body at all
	endless bool // body repeats forever
	transp  error
	err     error
	hdr     [][2]string
}

type meteredBody struct {
	a      *answer
	pos    int
	closed int
	after  int // reads after close
}

func (b *meteredBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.after++
		return 0, errors.New("read on closed body")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if b.a.chunk > 0 && len(p) > b.a.chunk {
		p = p[:b.a.chunk]
	}
	if b.a.endless {
		for i := range p {
			p[i] = b.a.body[(b.pos+i)%len(b.a.body)]
		}
		b.pos += len(p)
		if b.pos > 1<<22 {
			return 0, errors.New("harness: endless body read for too long")
		}
		return len(p), nil
	}
	k := copy(p, b.a.body[b.pos:b.a.n])
	b.pos += k
	if b.pos == b.a.n {
		switch {
		case b.a.fail == 2 && k > 0:
			return k, b.a.err
		case k == 0 && b.a.fail > 0:
			return 0, b.a.err
		case k == 0:
			return 0, io.EOF
		}
	}
	return k, nil
}

func (b *meteredBody) Close() error { b.closed++; return nil }

type wire struct {
	a     *answer
	reqs  []*http.Request
	forms []string
	body  *meteredBody
}

func (t *wire) RoundTrip(r *http.Request) (*http.Response, error) {
	t.reqs = append(t.reqs, r)
	var form []byte
	if r.Body != nil {
		form, _ = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	t.forms = append(t.forms, string(form))
	if t.a.transp != nil {
		return nil, t.a.transp
	}
	res := &http.Response{StatusCode: t.a.status, Status: fmt.Sprintf("%d %s", t.a.status, http.StatusText(t.a.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1, Request: r}
	if t.a.ct != "-" {
		res.Header.Set("Content-Type", t.a.ct)
	}
	for _, h := range t.a.hdr {
		res.Header.Add(h[0], h[1])
	}
	if t.a.nilBody {
		res.ContentLength = 0
		return res, nil
	}
	t.body = &meteredBody{a: t.a}
	res.Body = t.body
	return res, nil
}

// refDoc reads a JSON object into its members; ok only for a complete document
// whose members all have the types of their kind.
func refDoc(kind, data string) (map[string]string, bool) {
	var m map[string]any
	dec := json.NewDecoder(strings.NewReader(data))
	dec.UseNumber()
	if dec.Decode(&m) != nil { // null is a document without members
		return nil, false
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, false
	}
	types := map[string]string{}
	for t, l := range map[string]map[string]string{
		"token":      {"s": "token_type access_token refresh_token scope state", "i": "expires_in"},
		"introspect": {"s": "scope client_id username token_type sub aud iss jti", "i": "exp iat nbf", "b": "active", "o": "extra"},
		"error":      {"s": "error state scope realm error_description error_uri"},
	}[kind] {
		for _, k := range strings.Fields(l) {
			types[k] = t
		}
	}
	out := map[string]string{}
	for k, v := range m {
		t := types[k]
		if v == nil || t == "" {
			continue
		}
		switch x := v.(type) {
		case string:
			if t != "s" {
				return nil, false
			}
			if k == "scope" {
				x = strings.Join(splitScope(x), " ")
			}
			if x != "" {
				out[k] = x
			}
		case json.Number:
			n, err := x.Int64()
			if t != "i" || err != nil {
				return nil, false
			}
			if n != 0 {
				out[k] = fmt.Sprint(n)
			}
		case bool:
			if t != "b" {
				return nil, false
			}
			if x {
				out[k] = "true"
			}
		case map[string]any:
			if t != "o" {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return out, true
}

// flat renders a result of the client by its documented member names.
func flat(v any) map[string]string {
	out := map[string]string{}
	put := func(k string, v any) {
		if !reflect.ValueOf(v).IsZero() {
			out[k] = fmt.Sprint(v)
		}
	}
	switch x := v.(type) {
	case *oauth2.TokenResponse:
		put("token_type", x.TokenType)
		put("access_token", x.AccessToken)
		put("expires_in", x.ExpiresIn)
		put("refresh_token", x.RefreshToken)
		put("scope", strings.Join(x.Scope, " "))
		put("state", x.State)
	case *oauth2.IntrospectionResponse:
		put("active", x.Active)
		put("scope", strings.Join(x.Scope, " "))
		put("client_id", x.ClientID)
		put("username", x.Username)
		put("token_type", x.TokenType)
		put("exp", x.ExpiresAt)
		put("iat", x.IssuedAt)
		put("nbf", x.NotBefore)
		put("sub", x.Subject)
		put("aud", x.Audience)
		put("iss", x.Issuer)
		put("jti", x.Identifier)
	case *oauth2.Error:
		put("error", x.Name)
		put("state", x.State)
		put("scope", strings.Join(x.Scope, " "))
		put("realm", x.Realm)
		put("error_description", x.Description)
		put("error_uri", x.URI)
	}
	return out
}

func sameMap(a, b map[string]string) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

// wireClient is a client of the library whose transport answers as told.
type wireClient struct {
	t   *wire
	cl  *oauth2.Client
	cfg oauth2.ClientConfig
}

func newWireClient(limit int64, base string) *wireClient {
	k := &wireClient{t: &wire{}, cfg: oauth2.ClientConfig{BaseURI: base, TokenEndpoint: "/x/token", IntrospectionEndpoint: "/x/introspect", RevocationEndpoint: "/x/revoke", ResponseLimit: limit}}
	k.cl = oauth2.NewClientWithClient(k.cfg, &http.Client{Transport: k.t, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }})
	return k
}

// clientCall performs one call with a new client and judges its result.
func clientCall(call string, a answer, limit int64, base string) string {
	return newWireClient(limit, base).call(call, a)
}

var clientCalls = map[string]kvs{
	"token":      {"grant_type": "password", "username": "u", "password": "p"},
	"cc":         {"grant_type": "client_credentials", "scope": "foo"},
	"code":       {"grant_type": "authorization_code", "code": "co"},
	"refresh":    {"grant_type": "refresh_token", "refresh_token": "rt"},
	"introspect": {"token": "tok"},
	"hinted":     {"token": "tok", "token_type_hint": "refresh_token"},
	"revoke":     {"token": "tok"},
}

func (k *wireClient) call(call string, a answer) string {
	t, cl, cfg, limit := k.t, k.cl, k.cfg, k.cfg.ResponseLimit
	t.a, t.reqs, t.forms, t.body = &a, nil, nil, nil
	var res any
	var has bool
	var err error
	endpoint, form := cfg.BaseURI, clientCalls[call]
	switch call {
	case "token", "cc", "code", "refresh":
		endpoint += cfg.TokenEndpoint
		r, e := cl.Authenticate(oauth2.TokenRequest{GrantType: form["grant_type"], ClientID: "c", ClientSecret: "sec", Username: form["username"], Password: form["password"], Code: form["code"], RedirectURI: form["redirect_uri"], RefreshToken: form["refresh_token"], Scope: oauth2.ParseScope(form["scope"])})
		res, has, err = r, r != nil, e
		call = "token"
	case "introspect", "hinted":
		endpoint += cfg.IntrospectionEndpoint
		r, e := cl.Introspect(oauth2.IntrospectionRequest{Token: "tok", TokenTypeHint: form["token_type_hint"], ClientID: "c", ClientSecret: "sec"})
		res, has, err = r, r != nil, e
		call = "introspect"
	default:
		endpoint += cfg.RevocationEndpoint
		err = cl.Revoke(oauth2.RevocationRequest{Token: "tok", ClientID: "c", ClientSecret: "sec"})
		has = err == nil
	}
	if has == (err != nil) {
		return fmt.Sprintf("result present: %v, error: %v", has, err)
	}
	if err != nil && (reflect.ValueOf(err).Kind() == reflect.Ptr && reflect.ValueOf(err).IsNil()) {
		return "error is a nil pointer"
	}
	if len(t.reqs) != 1 {
		return fmt.Sprintf("%d requests were sent", len(t.reqs))
	}
	if q := t.reqs[0]; q.Method != "POST" || q.URL.String() != endpoint {
		return fmt.Sprintf("the request went to %s %s, want POST %s", q.Method, q.URL, endpoint)
	}
	if g, ok := formDecode(t.forms[0]); !ok || !reflect.DeepEqual(sortedPairs(g), wantPairs(form)) {
		return fmt.Sprintf("the request carried %q, want %v", t.forms[0], form)
	}
	if a.transp != nil {
		if err == nil {
			return "success although the transport failed"
		}
		return ""
	}
	lim := limit
	if lim == 0 {
		lim = 2048
	}
	if t.body != nil {
		if t.body.closed == 0 {
			return "the body was not closed"
		}
		if t.body.after > 0 {
			return "the body was read after it was closed"
		}
		if limit != 0 && lim >= 0 && int64(t.body.pos) > lim {
			return fmt.Sprintf("%d bytes were read, the limit is %d", t.body.pos, lim)
		}
		if limit == 0 && t.body.pos > 1<<20 {
			return fmt.Sprintf("%d bytes were read under the default limit", t.body.pos)
		}
	}
	// what can be known of the answer
	visible, readErr, over := "", "no", false
	if !a.nilBody {
		switch {
		case a.endless:
			over = true
		case int64(a.n) > lim:
			visible, over = a.body[:max(lim, 0)], true
		default:
			visible = a.body[:a.n]
			if a.fail > 0 {
				readErr = "yes"
				if int64(a.n) == lim {
					readErr = "maybe"
				}
			}
		}
	}
	kind := call
	if call == "revoke" {
		if (err == nil) != (a.status == 200) {
			return fmt.Sprintf("status %d, error %v", a.status, err)
		}
		kind = "none"
	}
	if a.status == 200 && kind != "none" {
		doc, complete := refDoc(kind, visible)
		ct, _, _ := strings.Cut(a.ct, ";")
		ct = strings.ToLower(strings.TrimSpace(ct))
		if err == nil {
			switch {
			case ct != "application/json":
				return fmt.Sprintf("success with content type %q", a.ct)
			case readErr == "yes":
				return "success although the body could not be read to its end"
			case !complete:
				return fmt.Sprintf("success for the incomplete or malformed document %q", visible)
			case !sameMap(doc, flat(res)):
				return fmt.Sprintf("result is %v, the document says %v", flat(res), doc)
			}
			return ""
		}
		plain := a.ct == "application/json" || a.ct == "application/json; charset=utf-8" || a.ct == "application/json;charset=UTF-8"
		useful := doc["access_token"] != "" || kind == "introspect" && strings.Contains(visible, `"active"`)
		if complete && useful && plain && readErr == "no" && !over {
			return fmt.Sprintf("a complete answer was refused: %v", err)
		}
		var oe *oauth2.Error
		if errors.As(err, &oe) {
			return fmt.Sprintf("status 200 reported as an OAuth error %v", oe)
		}
		return ""
	}
	if a.status == 200 {
		return ""
	}
	if err == nil {
		return fmt.Sprintf("success with status %d", a.status)
	}
	if limit == 0 && over {
		return ""
	}
	doc, complete := refDoc("error", visible)
	var oe *oauth2.Error
	if errors.As(err, &oe) && oe != nil {
		if oe.Status != a.status {
			return fmt.Sprintf("OAuth error carries status %d, the response had %d", oe.Status, a.status)
		}
		if complete && !sameMap(doc, flat(oe)) {
			return fmt.Sprintf("error is %v, the document says %v", flat(oe), doc)
		}
		if !complete && len(flat(oe)) > 0 {
			return fmt.Sprintf("error %v was made up from %q", flat(oe), visible)
		}
		return ""
	}
	if complete && doc["error"] != "" && readErr == "no" && !over {
		return fmt.Sprintf("the OAuth error %v surfaced as %T %v", doc, err, err)
	}
	return ""
}

// clientDocs are the answers a server, a proxy or an attacker may send.
func clientDocs() []string {
	long := strings.Repeat("x", 300)
	return []string{
		`{"token_type":"bearer","access_token":"AT.sig","expires_in":3600}`,
		`{"token_type":"bearer","access_token":"AT.sig","expires_in":3600,"refresh_token":"RT.sig","scope":"foo bar","state":"s&t"}` + "\n",
		`{"active":true,"scope":"foo bar","client_id":"c","username":"ü","token_type":"access_token","exp":1700000000,"iat":5,"nbf":6,"sub":"s","aud":"a","iss":"i","jti":"j"}`,
		`{"active":false}` + "\n",
		`{"error":"invalid_grant"}`,
		`{"error":"invalid_scope","error_description":"no \"way\"","scope":"a b","state":"x","realm":"OAuth2","error_uri":"https://e.example/?a=b"}` + "\n",
		`{"error":"server_error","error_description":"` + long + `"}`,
		`{"token_type":"bearer","access_token":"` + long + `","expires_in":1}`,
		``, `{}`, `null`, `[]`, `[{"error":"x"}]`, `"error"`, `17`, `true`, ` `, `{`, `<html>error</html>`,
		`{"access_token":5}`, `{"access_token":"a","expires_in":"3600"}`, `{"access_token":"a","expires_in":1.5}`, `{"access_token":"a","scope":["x"]}`,
		`{"active":"true"}`, `{"active":1}`, `{"active":true,"exp":"soon"}`, `{"active":true,"scope":5}`, `{"active":true,"extra":[]}`,
		`{"error":5}`, `{"error":{"error":"x"}}`, `{"error":"x","scope":[]}`, `{"error":null}`,
		`{"access_token":"a","token_type":"bearer","expires_in":1}{"access_token":"b"}`, `{"active":true}garbage`, `{"error":"a"}{"error":"b"}`, `{"active":true},`,
		"\xef\xbb\xbf{\"active\":true}", `{'active':true}`,
		`  {"active" : true , "username" : "a\u0000b" }  `,
	}
}

func TestC25(t *testing.T) {
	c := newCheck(t, "C25", "exploration",
		"every client call x status x content type x body x limit around the body's size x base URI, every byte at which the body is cut off, fails or fails together with its last bytes x piece size x limits around that byte, missing and endless bodies, and every transport failure; the result is judged by an independent reading of the delivered bytes. Non-trivial: the answer is not a plain success.")
	defer c.finish()
	calls := []string{"token", "introspect", "revoke"}
	statuses := []int{200, 201, 202, 203, 204, 206, 299, 300, 301, 302, 303, 304, 307, 400, 401, 403, 404, 405, 418, 429, 500, 502, 503, 599}
	types := []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8", "Application/JSON", "text/html", "text/plain; charset=utf-8", "text/json", "application/jsonp", "application/problem+json", "application/x-www-form-urlencoded", "", "-", ";", "application/json; charset", "text/html; a=application/json", "application /json"}
	docs := clientDocs()
	failure := errors.New("connection reset")
	errs := []error{failure, io.ErrUnexpectedEOF, context.DeadlineExceeded, timeoutErr{}}
	type job struct {
		key   string
		call  string
		a     answer
		limit int64
		base  string
	}
	var jobs []job
	add := func(call string, a answer, limit int64, base string) {
		if a.err == nil {
			a.err = failure
		}
		body := a.body
		if len(body) > 60 {
			body = fmt.Sprintf("%s…%d/%x", body[:40], len(body), hash64(body))
		}
		k := fmt.Sprintf("%s status=%d ct=%q body=%q n=%d fail=%d(%v) chunk=%d nil=%v endless=%v transport=%v limit=%d base=%s", call, a.status, a.ct, body, a.n, a.fail, a.err, a.chunk, a.nilBody, a.endless, a.transp, limit, base)
		if a.hdr != nil {
			k += fmt.Sprintf(" headers=%q", a.hdr)
		}
		jobs = append(jobs, job{k, call, a, limit, base})
	}
	flush := func() {
		b := jobs
		jobs = nil
		c.parallel(len(b), func(i int) {
			if c.stopped() {
				return
			}
			j := b[i]
			c.Case(j.key, j.a.status != 200 || j.a.fail > 0 || j.a.n < len(j.a.body), func() string { return clientCall(j.call, j.a, j.limit, j.base) })
		})
	}
	// endpoints that cannot be addressed: an error, and nothing is sent
	for _, u := range []string{"://", "http://[::1", "http://x/%zz", "\x7f", "http://x:port", "ht tp://x", "", "as.example.com", "/x", "ftp://as.example.com", "http://"} {
		c.Case(fmt.Sprintf("base %q", u), true, func() string {
			k := oauth2.NewClientWithClient(oauth2.Default(u), &http.Client{Transport: tripper(func(r *http.Request) (*http.Response, error) {
				if r.URL.Host == "" || r.URL.Scheme != "http" && r.URL.Scheme != "https" {
					return nil, failure
				}
				return &http.Response{StatusCode: 200, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(`{"token_type":"bearer","access_token":"x","active":true}`)), Request: r}, nil
			})})
			a, err := k.Authenticate(oauth2.TokenRequest{GrantType: "password", ClientID: "c"})
			b, err2 := k.Introspect(oauth2.IntrospectionRequest{Token: "t", ClientID: "c"})
			err3 := k.Revoke(oauth2.RevocationRequest{Token: "t", ClientID: "c"})
			if err == nil || err2 == nil || err3 == nil || a != nil || b != nil {
				return fmt.Sprintf("calls to an unusable endpoint succeeded: %v %v %v", err, err2, err3)
			}
			return ""
		})
	}
	const base = "https://as.example.com"
	all := []string{"token", "cc", "code", "refresh", "introspect", "hinted", "revoke"}
	// headers around the answer
	for _, call := range all {
		for _, st := range statuses {
			for _, ct := range []string{"application/json", "application/json;charset=UTF-8", "text/html"} {
				for _, d := range []string{docs[1], docs[2], docs[3], docs[5], "", "{}", "null"} {
					for _, h := range foreignHeaders {
						add(call, answer{status: st, ct: ct, body: d, n: len(d), hdr: h}, 0, base)
					}
				}
			}
		}
	}
	flush()
	// several calls of one client: each is judged by its own answer
	seq := []answer{
		{status: 200, ct: "application/json", body: docs[1]}, {status: 200, ct: "application/json", body: docs[2]}, {status: 200, ct: "application/json", body: docs[3]}, {status: 200, ct: "text/html", body: "<html>"},
		{status: 400, ct: "application/json", body: docs[4]}, {status: 401, ct: "application/json", body: `{"error":"invalid_client"}`}, {status: 503, ct: "application/json", body: `{"error":"temporarily_unavailable"}`, hdr: [][2]string{{"Retry-After", "1"}}}, {status: 500, ct: "text/html", body: "oops"}, {transp: failure}, {status: 200, ct: "application/json", body: docs[1][:20], fail: 1, err: failure}, {status: 429, ct: "application/json", body: "{}"},
	}
	for i := range seq {
		seq[i].n = len(seq[i].body)
	}
	ncs := len(all) * len(seq)
	step := func(i int) (string, answer) { return all[i%len(all)], seq[i/len(all)] }
	deep := 2
	if c.thorough() {
		deep = 3
	}
	runs := 1
	for i := 0; i < deep; i++ {
		runs *= ncs
	}
	c.parallel(runs, func(i int) {
		if c.stopped() || c.timeUp() {
			return
		}
		c.Case(fmt.Sprintf("calls in a row %d/%d", i, runs), true, func() string {
			k, said := newWireClient(0, base), ""
			for j, x := 0, i; j < deep; j, x = j+1, x/ncs {
				call, a := step(x % ncs)
				said += fmt.Sprintf("%s answered %d %q %v; ", call, a.status, a.body, a.transp)
				if msg := k.call(call, a); msg != "" {
					return fmt.Sprintf("%sthe last: %s", said, msg)
				}
			}
			return ""
		})
	})
	// many of one kind before another
	c.parallel(ncs*len(all), func(i int) {
		call, a := step(i % ncs)
		last := all[i/ncs]
		c.Case(fmt.Sprintf("after many: %s %d %q %v then %s", call, a.status, a.body, a.transp, last), true, func() string {
			k := newWireClient(0, base)
			for j := 0; j < 40; j++ {
				if msg := k.call(call, a); msg != "" {
					return fmt.Sprintf("repetition %d: %s", j, msg)
				}
			}
			for _, b := range seq {
				if msg := k.call(last, b); msg != "" {
					return fmt.Sprintf("then %d %q: %s", b.status, b.body, msg)
				}
			}
			return ""
		})
	})
	if c.stopped() {
		return
	}
	for _, call := range calls {
		for _, st := range statuses {
			for _, ct := range types {
				for _, d := range docs {
					ls := []int64{0, int64(len(d)), 1 << 20}
					if len(d) > 0 {
						ls = append(ls, int64(len(d))-1, int64(len(d))+1, 1)
					}
					for _, l := range ls {
						if l == 0 && len(d) == 0 {
							continue
						}
						add(call, answer{status: st, ct: ct, body: d, n: len(d)}, l, base)
					}
				}
				for _, l := range []int64{0, 1, 100, 4096} {
					add(call, answer{status: st, ct: ct, nilBody: true}, l, base)
					for _, d := range []string{"x", `{"error":"a"}`, `{"active":true} `, " ", `{"access_token":"`} {
						for _, ch := range []int{0, 1, 7} {
							add(call, answer{status: st, ct: ct, body: d, endless: true, chunk: ch}, l, base)
						}
					}
				}
			}
		}
		// the default limit holds documents of at least its size
		for _, b := range []string{"https://as.example.com", "http://localhost:8080", "https://as.example.com:8443/tenant/a%20b", "http://[::1]:99/x"} {
			for _, e := range append(errs, io.EOF, context.Canceled) {
				for _, st := range []int{0, 200} {
					add(call, answer{status: st, transp: e}, 0, b)
				}
			}
			for _, d := range docs {
				for _, st := range []int{200, 400} {
					add(call, answer{status: st, ct: "application/json", body: d, n: len(d)}, 0, b)
				}
			}
		}
		for _, size := range []int{1000, 2000, 2046, 2047, 2048, 2049, 2050, 4096, 10000} {
			for _, l := range []int64{0, int64(size) - 1, int64(size), int64(size) + 1, 512, 513} {
				for i, f := range []string{`{"access_token":"%s","token_type":"bearer"}`, `{"active":true,"username":"%s"}`, `{"error":"invalid_grant","error_description":"%s"}`} {
					d := fmt.Sprintf(f, strings.Repeat("y", size-len(f)+2))
					for _, ch := range []int{0, 1, 511} {
						add(call, answer{status: []int{200, 200, 400}[i], ct: "application/json", body: d, n: len(d), chunk: ch}, l, base)
					}
				}
			}
		}
		flush()
	}
	// every byte
	bs, bt := []int{200, 201, 400, 401, 500}, []string{"application/json", "application/json; charset=utf-8", "text/html", "-"}
	chunks := []int{0, 1}
	bd := append([]string{}, docs[:8]...)
	if c.thorough() {
		bs, bt, chunks, bd = append(bs, 204, 302, 403, 404, 503), append(bt, "Application/JSON", ""), []int{0, 1, 3}, docs
	}
	for _, call := range calls {
		for _, d := range bd {
			for n := 0; n <= len(d); n++ {
				for _, st := range bs {
					for _, ct := range bt {
						for _, fail := range []int{0, 1, 2} {
							for _, ch := range chunks {
								ls := []int64{0, int64(n), int64(n) + 1, int64(len(d))}
								if n > 1 {
									ls = append(ls, int64(n)-1)
								}
								for _, l := range ls {
									if l == 0 && fail == 0 && ch > 0 {
										continue
									}
									add(call, answer{status: st, ct: ct, body: d, n: n, fail: fail, chunk: ch}, l, base)
								}
								if fail > 0 && ch == 0 {
									for _, e := range errs[1:] {
										add(call, answer{status: st, ct: ct, body: d, n: n, fail: fail, err: e}, 1<<20, base)
									}
								}
							}
						}
					}
				}
			}
			flush()
			if c.stopped() {
				return
			}
		}
	}
}

// foreignHeaders surround answers of servers, proxies and attackers.
var foreignHeaders = [][][2]string{
	{{"Retry-After", "0"}}, {{"Retry-After", "1"}}, {{"Retry-After", "Mon, 02 Jan 2040 15:04:05 GMT"}},
	{{"Location", "https://evil.example/x"}}, {{"Location", "/x/other"}}, {{"Content-Location", "https://evil.example/x"}}, {{"Refresh", "0; url=https://evil.example"}}, {{"Link", "<https://evil.example>; rel=\"canonical\""}},
	{{"Www-Authenticate", `Basic realm="OAuth2"`}}, {{"Www-Authenticate", `Bearer error="invalid_token"`}}, {{"Www-Authenticate", `DPoP error="use_dpop_nonce"`}, {"Dpop-Nonce", "n"}},
	{{"Set-Cookie", "a=b"}}, {{"Cache-Control", "max-age=3600"}}, {{"Cache-Control", "no-store"}, {"Pragma", "no-cache"}}, {{"Etag", `"x"`}}, {{"Expires", "Mon, 02 Jan 2040 15:04:05 GMT"}}, {{"Age", "5"}},
	{{"Content-Length", "0"}}, {{"Content-Length", "1"}}, {{"Content-Length", "99999999"}}, {{"Content-Disposition", "attachment"}}, {{"Content-Language", "de"}}, {{"Content-Type", "text/html"}}, {{"X-Content-Type-Options", "nosniff"}},
	{{"Connection", "close"}}, {{"Warning", `110 - "stale"`}}, {{"X-Ratelimit-Remaining", "0"}}, {{"Error", "invalid_grant"}}, {{"Date", "Mon, 02 Jan 2006 15:04:05 GMT"}}, {{"Server", "nginx"}}, {{"Allow", "GET"}},
}

// --------------------------------------------------------------------- C29

// called is one finished client call.
type called struct {
	trs  *oauth2.TokenResponse
	irs  *oauth2.IntrospectionResponse
	err  error
	reqs int
	raw  *Resp
}

// serverTransport carries a request over the real wire encoding to the server.
type serverTransport struct{ w *World }

func (t *serverTransport) RoundTrip(q *http.Request) (*http.Response, error) {
	r, _, err := overWire(q)
	if err != nil {
		return nil, err
	}
	t.w.call.reqs++
	x := serve(t.w.S, r, nil)
	t.w.call.raw = x
	if x.Panic != "" {
		return nil, errors.New("server panicked")
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\nContent-Length: %d\r\n", x.Code, http.StatusText(x.Code), len(x.Body))
	_ = x.H.Write(&b)
	b.WriteString("\r\n" + x.Body)
	return http.ReadResponse(bufio.NewReader(&b), q)
}

// viaClient performs a token, introspection or revocation operation through
// the library's client.
func (w *World) viaClient(o Op) *called {
	w.fresh()
	k := &called{}
	if w.conn == nil { // one client for the whole history
		w.conn = oauth2.NewClientWithClient(oauth2.Default("https://as.example.com"), &http.Client{Transport: &serverTransport{w}})
	}
	cl := w.conn
	w.call = k
	sec := o.Sec
	if sec == "" {
		if c := w.client(o.Cl); c != nil {
			sec = c.Secret
		}
	} else if sec == "-" {
		sec = ""
	}
	q := oauth2.TokenRequest{ClientID: o.Cl, ClientSecret: sec, Scope: oauth2.Scope(splitScope(o.Sc))}
	switch o.K {
	case "pw":
		q.GrantType, q.Username, q.Password = "password", o.Us, o.Pw
		if o.Pw == "" {
			q.Password = w.pass(o.Us)
		} else if o.Pw == "-" {
			q.Password = ""
		}
	case "cc":
		q.GrantType = "client_credentials"
	case "xch":
		q.GrantType, q.Code, q.RedirectURI = "authorization_code", w.credStr(o), o.Rd
		if o.Rd == "" && o.X == "" && o.Cr < len(w.Creds) {
			q.RedirectURI = w.Creds[o.Cr].Redirect
		} else if o.Rd == "-" {
			q.RedirectURI = ""
		}
	case "rfr":
		q.GrantType, q.RefreshToken = "refresh_token", w.credStr(o)
	case "int":
		k.irs, k.err = cl.Introspect(oauth2.IntrospectionRequest{Token: w.credStr(o), TokenTypeHint: o.H, ClientID: o.Cl, ClientSecret: sec})
		return k
	case "rev":
		k.err = cl.Revoke(oauth2.RevocationRequest{Token: w.credStr(o), TokenTypeHint: o.H, ClientID: o.Cl, ClientSecret: sec})
		return k
	}
	k.trs, k.err = cl.Authenticate(q)
	return k
}

func isClientOp(o Op) bool {
	switch o.K {
	case "pw", "cc", "xch", "rfr", "int", "rev":
		return !o.B
	}
	return false
}

// clientStep compares a client call with what the server did.
func clientStep(x *Ctx) string {
	if !isClientOp(x.O) {
		return ""
	}
	k := x.W.call
	if k.reqs != 1 || k.raw == nil {
		return fmt.Sprintf("the call made %d requests (error %v)", k.reqs, k.err)
	}
	r := k.raw
	if r.Code != 200 {
		if k.err == nil || k.trs != nil || k.irs != nil {
			return "the server refused, the client reports success"
		}
		var oe *oauth2.Error
		if !errors.As(k.err, &oe) || oe == nil {
			return fmt.Sprintf("the refusal surfaced as %T %v", k.err, k.err)
		}
		if oe.Status != r.Code {
			return fmt.Sprintf("the error's status is %d, the server answered %d", oe.Status, r.Code)
		}
		doc, ok := refDoc("error", r.Body)
		if !ok || doc["error"] == "" {
			return "the refusal is no OAuth error document"
		}
		if !sameMap(doc, flat(oe)) {
			return fmt.Sprintf("the error is %v, the server said %v", flat(oe), doc)
		}
		if len(x.issued()) > 0 {
			return "a refused call issued credentials"
		}
		if x.O.K == "xch" && x.P.Cred != nil && x.P.Cred.Spent {
			return "" // replay of a code
		}
		return x.unaffected(nil)
	}
	if k.err != nil {
		return fmt.Sprintf("the server did as asked, the client reports %v", k.err)
	}
	switch x.O.K {
	case "int":
		if k.irs == nil {
			return "no introspection result"
		}
		if msg := x.unaffected(nil); msg != "" {
			return msg
		}
		return x.W.introspected(x.P, k.irs)
	case "rev":
		if x.P.Cred == nil || x.P.Cred.Kind == 'C' {
			return x.unaffected(nil)
		}
		w := x.After()
		if ok, _ := w.use(w.Creds[x.P.Cred.ID]); ok {
			return "the revoked token is still honoured"
		}
		return x.unaffected(func(c *Cred) bool { return c.ID == x.P.Cred.ID })
	}
	if k.trs == nil {
		return "no token response"
	}
	doc, ok := refDoc("token", r.Body)
	if !ok || !sameMap(doc, flat(k.trs)) {
		return fmt.Sprintf("the result is %v, the server said %v", flat(k.trs), doc)
	}
	n := map[byte]int{}
	for _, c := range x.issued() {
		n[c.Kind]++
		if c.Kind == 'A' && c.Str != k.trs.AccessToken || c.Kind == 'R' && c.Str != k.trs.RefreshToken {
			return "the result's tokens are not the issued ones"
		}
		// it is honoured now, with the scope stated
		if c.Kind == 'A' {
			for _, s := range []string{"foo", "bar", strings.Join(k.trs.Scope, " ")} {
				w := x.After()
				a := w.do(Op{K: "res", Cr: c.ID, Sc: s})
				if want := subset(splitScope(s), k.trs.Scope); a.OK != want {
					return fmt.Sprintf("the returned token was granted %q, but use for %q is %v", k.trs.Scope, s, a.OK)
				}
			}
			// and for the lifetime stated
			w := x.After()
			w.sleep(time.Duration(k.trs.ExpiresIn)*time.Second - time.Millisecond)
			if ok, _ := w.use(w.Creds[c.ID]); !ok {
				return fmt.Sprintf("the returned token does not live for the %d seconds stated", k.trs.ExpiresIn)
			}
			w = x.After()
			w.sleep(time.Duration(k.trs.ExpiresIn)*time.Second + time.Millisecond)
			if ok, _ := w.use(w.Creds[c.ID]); ok {
				return fmt.Sprintf("the returned token outlives the %d seconds stated", k.trs.ExpiresIn)
			}
		} else {
			w := x.After()
			if ok, _ := w.use(w.Creds[c.ID]); !ok {
				return "the returned refresh token is not honoured"
			}
		}
	}
	if n['A'] != 1 || n['R'] != 1 {
		return fmt.Sprintf("the call yielded %d access and %d refresh tokens", n['A'], n['R'])
	}
	return ""
}

// introspected judges an introspection result against the state.
func (w *World) introspected(p Pre, irs *oauth2.IntrospectionResponse) string {
	got := flat(irs)
	want := map[string]string{}
	if p.Cred != nil && p.Cred.Kind != 'C' {
		if p.Cred.Maybe || !p.Live && !p.Dead {
			return ""
		}
		if p.Live {
			k := p.Cred
			want["active"], want["client_id"], want["token_type"] = "true", k.Client, kindHint(k.Kind)
			want["exp"] = fmt.Sprint(k.At.Add(k.Life).Unix())
			if k.User != "" {
				want["username"] = k.User
			}
			if len(k.Scope) > 0 {
				want["scope"] = strings.Join(k.Scope, " ")
			}
		}
	}
	for _, x := range []map[string]string{got, want} { // set semantics of scope
		if x["scope"] != "" {
			l := splitScope(x["scope"])
			sort.Strings(l)
			x["scope"] = strings.Join(l, " ")
		}
	}
	if !sameMap(got, want) {
		return fmt.Sprintf("introspection reports %v, the server holds %v", got, want)
	}
	if len(irs.Extra) > 0 {
		return fmt.Sprint("introspection reports extra members ", irs.Extra)
	}
	return ""
}

// clientState introspects, through the client, every credential by every
// client with every hint, and compares with an actual use.
func clientState(w *World, fork func() *World) string {
	for i := range w.Creds {
		for _, cl := range w.Cfg.Clients {
			for _, h := range []string{"", "access_token", "refresh_token", "bogus"} {
				v := fork()
				c := v.Creds[i]
				p := pre(v, Op{K: "int", Cr: i})
				if c.Kind == 'C' && h == "" {
					continue
				}
				k := v.viaClient(Op{K: "int", Cl: cl.ID, Cr: i, H: h})
				if k.err != nil {
					var oe *oauth2.Error
					if !errors.As(k.err, &oe) {
						return fmt.Sprintf("introspecting %s as %s: %T %v", c, cl.ID, k.err, k.err)
					}
					if cl.ID == c.Client && h != "bogus" {
						return fmt.Sprintf("introspecting %s as its owner: %v", c, k.err)
					}
					continue
				}
				if k.irs == nil {
					return "neither result nor error"
				}
				if cl.ID != c.Client {
					if k.irs.Active {
						return fmt.Sprintf("introspecting %s as %s: %v", c, cl.ID, flat(k.irs))
					}
					continue
				}
				if msg := v.introspected(p, k.irs); msg != "" {
					return fmt.Sprintf("introspecting %s: %s", c, msg)
				}
				if c.Kind != 'C' && !c.Maybe {
					if ok, _ := v.use(c); ok != k.irs.Active {
						return fmt.Sprintf("the client reports %s active=%v, its use is %v", c, k.irs.Active, ok)
					}
				}
			}
		}
	}
	return ""
}

func TestC29(t *testing.T) {
	c := newCheck(t, "C29", "model_checking",
		"histories of client calls (password, client credentials, code exchange, refresh, introspection, revocation, right and wrong) interleaved with authorizations and clock steps, each call going through the real client, the wire encoding and the real server; every result is compared with the server's answer and with actual uses, and in every state every credential is introspected through the client by every client with every hint. Non-trivial: the state holds a credential.")
	defer c.finish()
	d := 3
	if c.thorough() {
		d = 4
	}
	via := func(w *World) { w.via = true }
	c.explore(&Model{Name: "client", Cfg: baseCfg, Depth: d, Init: via, Step: clientStep, State: clientState,
		Ops: func(w *World) []Op {
			out := []Op{
				{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "pw", Cl: "p1", Us: "u2"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo baz"}, {K: "pw", Cl: "c1", Us: "u1", Pw: "nope"}, {K: "pw", Cl: "c2", Us: "u1", Sec: "nope"}, {K: "pw", Cl: "zz", Us: "u1"},
				{K: "cc", Cl: "c2", Sc: "bar"}, {K: "cc", Cl: "p1"}, {K: "cc", Cl: "c1", Sec: "-"},
				{K: "code", Cl: "c2", Us: "u1", Sc: "foo"}, {K: "code", Cl: "p1", Us: "u2", Sc: "bar"}, {K: "imp", Cl: "c1", Us: "u1", Sc: "foo"},
				{K: "adv", D: 50500 * time.Millisecond}, {K: "adv", D: 300 * time.Second},
				{K: "rev", Cl: "c1", X: "garbage"}, {K: "int", Cl: "c1", X: "garbage"}, {K: "rfr", Cl: "c1", X: "a.b"},
			}
			out = append(out, forKind(w, "C", func(k *Cred) []Op {
				return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}, {K: "xch", Cl: "c1", Cr: k.ID}, {K: "xch", Cl: k.Client, Cr: k.ID, Rd: "https://other.example/"}, {K: "rev", Cl: k.Client, Cr: k.ID}}
			})...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op {
				return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}, {K: "rfr", Cl: k.Client, Cr: k.ID, Sc: "foo"}, {K: "rfr", Cl: k.Client, Cr: k.ID, Sc: "foo bar baz"}, {K: "rfr", Cl: "c2", Cr: k.ID}}
			})...)
			return append(out, forKind(w, "AR", func(k *Cred) []Op {
				out := []Op{{K: "rev", Cl: k.Client, Cr: k.ID}, {K: "rev", Cl: "c2", Cr: k.ID}, {K: "int", Cl: k.Client, Cr: k.ID}}
				if k.Kind == 'A' {
					return append(out, Op{K: "rev", Cl: k.Client, Cr: k.ID, H: "bogus"}, Op{K: "rev", Cl: k.Client, Cr: k.ID, H: "refresh_token"})
				}
				return append(out, Op{K: "rev", Cl: k.Client, Cr: k.ID, Sec: "nope"}, Op{K: "rev", Cl: k.Client, Cr: k.ID, H: "access_token"})
			})...)
		}})
	c.explore(&Model{Name: "client-code", Cfg: baseCfg, Depth: d + 1, Step: clientStep, State: clientState,
		Init: func(w *World) {
			w.via = true
			w.do(Op{K: "code", Cl: "c2", Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "xch", Cl: "c2", Cr: 0})
		},
		Ops: func(w *World) []Op {
			out := []Op{{K: "xch", Cl: "c2", Cr: 0}, {K: "adv", D: 50500 * time.Millisecond}}
			out = append(out, forKind(w, "R", func(k *Cred) []Op {
				return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}, {K: "rfr", Cl: k.Client, Cr: k.ID, Sc: "bar"}}
			})...)
			return append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
		}})
	// names, secrets and scopes full of reserved characters
	odd := func() *Cfg {
		g := baseCfg()
		g.Clients = append(g.Clients, ClientSpec{"o d&=+%zz;ü", "s:&=+%41 ü%", "https://o.example.com/cb?a=b&c=d", true}, ClientSpec{"%41", "", "https://o2.example.com/%C3%BC?x=%26+y", false})
		g.Users = append(g.Users, [2]string{"ü s&=+%zz", "pä +&=%zz:#"}, [2]string{"%41", "+"})
		g.Allowed = []string{"read:a", "a+b%20&=", "ü", "https://x.example/y?z#f"}
		return g
	}
	c.explore(&Model{Name: "client-names", Cfg: odd, Depth: d, Init: via, Step: clientStep, State: clientState,
		Ops: func(w *World) []Op {
			o1, o2, u1, u2 := "o d&=+%zz;ü", "%41", "ü s&=+%zz", "%41"
			out := []Op{
				{K: "pw", Cl: o1, Us: u1, Sc: "read:a a+b%20&="}, {K: "pw", Cl: o2, Us: u2, Sc: "https://x.example/y?z#f"}, {K: "pw", Cl: o1, Us: u1, Pw: "pä  &=%zz:#"}, {K: "pw", Cl: o1, Us: u2, Pw: " "}, {K: "pw", Cl: o1, Us: u1, Sec: "s:&=+A ü%"},
				{K: "cc", Cl: o1, Sc: "ü"}, {K: "cc", Cl: o1, Sc: "a"}, {K: "code", Cl: o1, Us: u1, Sc: "a+b%20&="},
			}
			out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			return append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
		}})
	// the client itself must not remember: every history, unmerged
	c.explore(&Model{Name: "client-memory", Cfg: baseCfg, Depth: d, NoMerge: true, Step: clientStep,
		Init: func(w *World) {
			w.via = true
			w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"})
		},
		Ops: func(w *World) []Op {
			out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar", Pw: "nope"}, {K: "cc", Cl: "c1", Sc: "foo"}, {K: "cc", Cl: "c1", Sc: "foo", Sec: "nope"}, {K: "adv", D: 101 * time.Second}}
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			return append(out, forKind(w, "AR", func(k *Cred) []Op {
				return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}, {K: "int", Cl: k.Client, Cr: k.ID}}
			})...)
		}})
}

type tripper func(r *http.Request) (*http.Response, error)

func (t tripper) RoundTrip(r *http.Request) (*http.Response, error) { return t(r) }
