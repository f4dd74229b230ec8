package checks

// C34: the library's functions do not influence one another.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"

	"averif/mc/arand"
	"averif/mc/vsync"
)

// libEnv holds the arguments of the calls. Several calls may be given the same
// one, as several goroutines of a program would share them.
type libEnv struct {
	Secret, Key, Sig []byte
	Scope, Other     oauth2.Scope
	Token            *oauth2.HS256Token
	TokenStr         string
	Errs             []*oauth2.Error
	Plain            error
	TR, TRRedirect   *oauth2.TokenResponse
	CR               *oauth2.CodeResponse
	IR, IRExtra      *oauth2.IntrospectionResponse
	Params           map[string]string
	TReq             []oauth2.TokenRequest
	IReq             []oauth2.IntrospectionRequest
	RReq             []oauth2.RevocationRequest
	Config           oauth2.ServerConfig
	client, limited  *oauth2.Client
	loose            bool // random values differ from run to run
}

func roomy(s string) []byte { return append(make([]byte, 0, 64), s...) }

func roomyScope(s ...string) oauth2.Scope { return append(make(oauth2.Scope, 0, 8), s...) }

func newLibEnv() *libEnv {
	e := &libEnv{Secret: roomy("a-secret-of-the-library"), Key: roomy("a-key-of-16-byte"), Scope: roomyScope("zeta", "foo", "bar"), Other: roomyScope("foo", "zeta")}
	e.Token = oauth2.HS256TokenFromKey(append([]byte(nil), e.Secret...), append([]byte(nil), e.Key...))
	e.TokenStr, e.Sig = e.Token.String(), roomy(string(e.Token.Signature))
	e.Errs = []*oauth2.Error{
		oauth2.InvalidRequest("one"), oauth2.InvalidClient("two"), oauth2.InvalidGrant(""), oauth2.InvalidScope("three").SetRedirect("https://r.example/cb?x=1", "st", false),
		oauth2.AccessDenied("four").SetRedirect("https://r.example/cb", "st2", true), oauth2.InsufficientScope(roomyScope("foo", "bar")), oauth2.ProtectedResource(), oauth2.ServerError("five"),
		{Name: "custom", Description: "d", URI: "https://e.example", Realm: "r", Scope: roomyScope("q"), State: "s", Status: 418, Headers: map[string]string{"X-A": "1", "X-B": "2"}},
	}
	e.Plain = errors.New("plain")
	e.TR = &oauth2.TokenResponse{TokenType: "bearer", AccessToken: "at", ExpiresIn: 7, RefreshToken: "rt", Scope: roomyScope("foo", "bar"), State: "s"}
	e.TRRedirect = &oauth2.TokenResponse{TokenType: "bearer", AccessToken: "at2", ExpiresIn: 8, Scope: roomyScope("zeta"), State: "s2", RedirectURI: "https://r.example/cb#x"}
	e.CR = &oauth2.CodeResponse{Code: "co", State: "s3", RedirectURI: "https://r.example/cb?y=2"}
	e.IR = &oauth2.IntrospectionResponse{Active: true, Scope: roomyScope("foo"), ClientID: "c", Username: "u", TokenType: "access_token", ExpiresAt: 5}
	e.IRExtra = &oauth2.IntrospectionResponse{Active: true, TokenType: "refresh_token", Extra: map[string]interface{}{"k": "v", "l": []interface{}{"w"}}}
	e.Params = map[string]string{"a": "1", "state": "s4", "b c": "d&e"}
	e.TReq = []oauth2.TokenRequest{
		{GrantType: "password", Scope: roomyScope("foo", "bar"), ClientID: "c1", ClientSecret: "s1", Username: "u1", Password: "p1"},
		{GrantType: "authorization_code", ClientID: "c2", ClientSecret: "s2", RedirectURI: "https://r.example/cb?x=1", Code: "code"},
		{GrantType: "refresh_token", RefreshToken: "rt", Scope: roomyScope("zeta")},
		{GrantType: "bad", ClientID: "c3"},
	}
	e.IReq = []oauth2.IntrospectionRequest{{Token: "t1", TokenTypeHint: "access_token", ClientID: "c1", ClientSecret: "s1"}, {Token: "t2"}, {Token: "bad"}}
	e.RReq = []oauth2.RevocationRequest{{Token: "t1", TokenTypeHint: "refresh_token", ClientID: "c1", ClientSecret: "s1"}, {Token: "t2"}, {Token: "bad"}}
	e.Config = oauth2.DefaultServerConfig(roomy("a-secret-of-a-server"), roomyScope("foo", "bar"))
	e.client = oauth2.NewClientWithClient(oauth2.Default("https://as.example"), &http.Client{Transport: libTransport{}})
	cc := oauth2.Default("https://as.example/v2")
	cc.ResponseLimit = 40
	e.limited = oauth2.NewClientWithClient(cc, &http.Client{Transport: libTransport{}})
	return e
}

// libTransport answers each request by its content.
type libTransport struct{}

func (libTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	vsync.Point()
	var body string
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		_ = r.Body.Close()
		body = string(b)
	}
	kv, _ := formDecode(body)
	get := func(k string) string { v, _ := lookup(kv, k); return v }
	status, doc := 200, ""
	echo := func(s string) string { b, _ := json.Marshal(s + " " + r.Header.Get("Authorization")); return string(b) }
	switch {
	case get("grant_type") == "bad" || get("token") == "bad":
		status, doc = 401, `{"error":"invalid_client","error_description":`+echo(r.URL.Path)+`,"scope":"a b"}`
	case strings.HasSuffix(r.URL.Path, "/token"):
		doc = `{"token_type":"bearer","access_token":` + echo(get("grant_type")+get("username")+get("code")) + `,"expires_in":3,"scope":"` + get("scope") + `"}`
	case strings.HasSuffix(r.URL.Path, "/introspect"):
		doc = `{"active":true,"token_type":"access_token","scope":"x y","extra":{"echo":` + echo(get("token")) + `}}`
	}
	vsync.Point()
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d X", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(doc)), ContentLength: int64(len(doc)), Request: r}, nil
}

// token renders a token whose key is random.
func (e *libEnv) random(t *oauth2.HS256Token, secret []byte) string {
	if t == nil {
		return "nil"
	}
	if e.loose {
		_, _, genuine, _ := refToken(secret, t.String())
		return fmt.Sprintf("token of %d bytes, genuine=%v", len(t.Key), genuine)
	}
	return t.String()
}

type libCall struct {
	name string
	f    func(e *libEnv) []any
}

func libCalls() (out []libCall) {
	add := func(name string, f func(e *libEnv) []any) { out = append(out, libCall{name, f}) }
	one := func(name string, f func(e *libEnv) any) {
		add(name, func(e *libEnv) []any { return []any{f(e)} })
	}
	// constructors and known values
	for i, f := range []func(string) *oauth2.Error{oauth2.InvalidRequest, oauth2.InvalidClient, oauth2.InvalidGrant, oauth2.InvalidScope, oauth2.InvalidToken, oauth2.UnauthorizedClient, oauth2.UnsupportedGrantType, oauth2.UnsupportedResponseType, oauth2.UnsupportedTokenType, oauth2.AccessDenied, oauth2.ServerError, oauth2.TemporarilyUnavailable} {
		for _, d := range []string{"", "text"} {
			one(fmt.Sprintf("error %d %q", i, d), func(e *libEnv) any { return f(d) })
		}
		one(fmt.Sprintf("error %d redirected", i), func(e *libEnv) any {
			return f("").SetRedirect("https://other.example/"+strconv.Itoa(i), "state", i%2 == 0)
		})
	}
	one("ProtectedResource", func(e *libEnv) any { return oauth2.ProtectedResource() })
	one("ProtectedResource redirected", func(e *libEnv) any {
		return oauth2.ProtectedResource().SetRedirect("https://other.example/", "s", true)
	})
	one("InsufficientScope", func(e *libEnv) any { return oauth2.InsufficientScope(e.Scope) })
	one("InsufficientScope nil", func(e *libEnv) any { return oauth2.InsufficientScope(nil) })
	one("known", func(e *libEnv) any {
		s := ""
		for _, x := range []string{"password", "token", "code", "access_token", "refresh_token", "client_credentials", "authorization_code", "x", ""} {
			s += fmt.Sprint(oauth2.KnownGrantType(x), oauth2.KnownResponseType(x), oauth2.KnownTokenType(x), " ")
		}
		return s
	})
	// errors: reading and writing
	for i := 0; i < 9; i++ {
		add(fmt.Sprintf("Error %d methods", i), func(e *libEnv) []any {
			x := e.Errs[i]
			return []any{x.Map(), x.Params(), x.String(), x.Error()}
		})
		add(fmt.Sprintf("WriteError %d", i), func(e *libEnv) []any { w := newLibRecorder(); return []any{oauth2.WriteError(w, e.Errs[i]), w} })
		add(fmt.Sprintf("WriteBearerError %d", i), func(e *libEnv) []any { w := newLibRecorder(); return []any{oauth2.WriteBearerError(w, e.Errs[i]), w} })
	}
	add("WriteError plain", func(e *libEnv) []any { w := newLibRecorder(); return []any{oauth2.WriteError(w, e.Plain), w} })
	add("WriteBearerError plain", func(e *libEnv) []any { w := newLibRecorder(); return []any{oauth2.WriteBearerError(w, e.Plain), w} })
	add("Write", func(e *libEnv) []any { w := newLibRecorder(); return []any{oauth2.Write(w, e.Params, 202), w} })
	add("Write unencodable", func(e *libEnv) []any {
		w := newLibRecorder()
		return []any{oauth2.Write(w, map[string]any{"x": func() {}}, 200) != nil, w}
	})
	for _, frag := range []bool{true, false} {
		for _, uri := range []string{"https://r.example/cb?q=1", "https://r.example", "no uri"} {
			add(fmt.Sprintf("WriteRedirect %q %v", uri, frag), func(e *libEnv) []any {
				w := newLibRecorder()
				return []any{oauth2.WriteRedirect(w, uri, e.Params, frag), w}
			})
		}
	}
	res := func(status int, ct, body string) *http.Response {
		return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d S", status), Header: http.Header{"Content-Type": {ct}}, Body: io.NopCloser(&pointBody{strings.NewReader(body)})}
	}
	for i, b := range []string{`{"error":"invalid_grant","error_description":"d","scope":"p q","error_uri":"u"}`, `{"error":"x"}`, `nothing`, `{}`, ""} {
		one(fmt.Sprintf("ParseRequestError %d", i), func(e *libEnv) any { return oauth2.ParseRequestError(res(400+i, "application/json", b), 1000) })
	}
	one("ParseRequestError cut", func(e *libEnv) any {
		return oauth2.ParseRequestError(res(400, "application/json", `{"error":"invalid_grant"}`), 10)
	})
	for i, b := range []string{`{"token_type":"bearer","access_token":"x","expires_in":5,"refresh_token":"y","scope":"p q","state":"z"}`, `{"access_token":"x2"}`, `{"scope":5}`, `nothing`, `{"active":true,"scope":"a b","client_id":"c","username":"u","token_type":"access_token","exp":9,"extra":{"k":["v"]}}`} {
		add(fmt.Sprintf("ParseTokenResponse %d", i), func(e *libEnv) []any {
			r, err := oauth2.ParseTokenResponse(res(200, "application/json", b), 1000)
			return []any{r, err}
		})
		add(fmt.Sprintf("ParseIntrospectionResponse %d", i), func(e *libEnv) []any {
			r, err := oauth2.ParseIntrospectionResponse(res(200, "application/json;charset=UTF-8", b), 1000)
			return []any{r, err}
		})
	}
	add("ParseTokenResponse type", func(e *libEnv) []any {
		r, err := oauth2.ParseTokenResponse(res(200, "text/plain", `{"access_token":"x"}`), 1000)
		return []any{r, err}
	})
	// scopes
	for _, s := range []string{"", "foo", "bar foo", " zeta  foo\tbar ", "foo foo"} {
		one(fmt.Sprintf("ParseScope %q", s), func(e *libEnv) any { return oauth2.ParseScope(s) })
		one(fmt.Sprintf("UnmarshalJSON %q", s), func(e *libEnv) any {
			var x oauth2.Scope
			b, _ := json.Marshal(s)
			err := x.UnmarshalJSON(b)
			return []any{x, err}
		})
	}
	add("Scope methods", func(e *libEnv) []any {
		b, err := e.Scope.MarshalJSON()
		return []any{e.Scope.Contains("foo"), e.Scope.Contains("x"), e.Scope.Includes(e.Other), e.Other.Includes(e.Scope), e.Scope.Empty(), e.Scope.String(), b, err}
	})
	add("Scope methods on another", func(e *libEnv) []any {
		b, err := e.Other.MarshalJSON()
		return []any{e.Other.Contains("foo"), e.Other.Includes(nil), oauth2.Scope(nil).Includes(e.Other), e.Other.String(), oauth2.Scope(nil).String(), b, err}
	})
	// tokens
	one("HS256TokenFromKey", func(e *libEnv) any { return oauth2.HS256TokenFromKey(e.Secret, e.Key) })
	one("HS256TokenFromKey short", func(e *libEnv) any { return oauth2.HS256TokenFromKey(e.Secret[:3], e.Key[:2]) })
	for _, n := range []int{0, 8, 16, 48} {
		add(fmt.Sprintf("GenerateHS256Token %d", n), func(e *libEnv) []any {
			t, err := oauth2.GenerateHS256Token(e.Secret, n)
			return []any{e.random(t, e.Secret), err, e.held(t)}
		})
	}
	add("MustGenerateHS256Token", func(e *libEnv) []any {
		t := oauth2.MustGenerateHS256Token(e.Key, 16)
		return []any{e.random(t, e.Key), e.held(t)}
	})
	add("ServerConfig.MustGenerate", func(e *libEnv) []any {
		t := e.Config.MustGenerate()
		return []any{e.random(t, e.Config.Secret), e.held(t)}
	})
	for _, x := range []struct {
		n string
		f func(s string) string
	}{{"same", func(s string) string { return s }}, {"cut", func(s string) string { return s[:len(s)-4] }}, {"no dot", sigOf}, {"bad", func(s string) string { return "!." + s }}} {
		add("ParseHS256Token "+x.n, func(e *libEnv) []any {
			t, err := oauth2.ParseHS256Token(e.Secret, x.f(e.TokenStr))
			return []any{t, err}
		})
	}
	add("ParseHS256Token other secret", func(e *libEnv) []any {
		t, err := oauth2.ParseHS256Token(e.Key, e.TokenStr)
		return []any{t, err}
	})
	add("HS256Token methods", func(e *libEnv) []any {
		t := e.Token
		return []any{t.Valid(e.Secret), t.Valid(e.Key), t.Equal(e.Sig), t.Equal(e.Key), t.KeyString(), t.SignatureString(), t.String()}
	})
	// responses
	add("NewTokenResponse", func(e *libEnv) []any {
		r := oauth2.NewTokenResponse("mac", "x", 4)
		return []any{r, r.Map()}
	})
	add("NewTokenResponse redirected", func(e *libEnv) []any {
		r := oauth2.NewBearerTokenResponse("y", 5).SetRedirect("https://other.example/", "s")
		return []any{r, r.Map()}
	})
	one("NewBearerTokenResponse", func(e *libEnv) any { return oauth2.NewBearerTokenResponse("x", 3) })
	one("NewCodeResponse", func(e *libEnv) any { return oauth2.NewCodeResponse("x", "https://r.example/", "s") })
	one("NewIntrospectionResponse", func(e *libEnv) any { return oauth2.NewIntrospectionResponse(true, e.Scope, "c", "u", "access_token") })
	one("TokenResponse.Map", func(e *libEnv) any { return e.TR.Map() })
	one("TokenResponse.Map redirected", func(e *libEnv) any { return e.TRRedirect.Map() })
	one("CodeResponse.Map", func(e *libEnv) any { return e.CR.Map() })
	add("WriteTokenResponse", func(e *libEnv) []any { w := newLibRecorder(); return []any{oauth2.WriteTokenResponse(w, e.TR), w} })
	add("WriteTokenResponse redirected", func(e *libEnv) []any {
		w := newLibRecorder()
		return []any{oauth2.WriteTokenResponse(w, e.TRRedirect), w}
	})
	add("WriteCodeResponse", func(e *libEnv) []any { w := newLibRecorder(); return []any{oauth2.WriteCodeResponse(w, e.CR), w} })
	add("WriteIntrospectionResponse", func(e *libEnv) []any {
		w := newLibRecorder()
		return []any{oauth2.WriteIntrospectionResponse(w, e.IR), w}
	})
	add("WriteIntrospectionResponse extra", func(e *libEnv) []any {
		w := newLibRecorder()
		return []any{oauth2.WriteIntrospectionResponse(w, e.IRExtra), w}
	})
	add("WriteIntrospectionResponse inactive", func(e *libEnv) []any {
		w := newLibRecorder()
		return []any{oauth2.WriteIntrospectionResponse(w, &oauth2.IntrospectionResponse{}), w}
	})
	// building and parsing requests
	for i := 0; i < 4; i++ {
		one(fmt.Sprintf("TokenRequestValues %d", i), func(e *libEnv) any { return oauth2.TokenRequestValues(e.TReq[i]) })
		add(fmt.Sprintf("BuildTokenRequest %d", i), func(e *libEnv) []any {
			r, err := oauth2.BuildTokenRequest("https://as.example/token", e.TReq[i])
			return []any{r, err}
		})
		add(fmt.Sprintf("Authenticate %d", i), func(e *libEnv) []any {
			r, err := e.client.Authenticate(e.TReq[i])
			return []any{r, err}
		})
	}
	for i := 0; i < 3; i++ {
		one(fmt.Sprintf("IntrospectionRequestValues %d", i), func(e *libEnv) any { return oauth2.IntrospectionRequestValues(e.IReq[i]) })
		one(fmt.Sprintf("RevocationRequestValues %d", i), func(e *libEnv) any { return oauth2.RevocationRequestValues(e.RReq[i]) })
		add(fmt.Sprintf("BuildIntrospectionRequest %d", i), func(e *libEnv) []any {
			r, err := oauth2.BuildIntrospectionRequest("https://as.example/introspect?x=1", e.IReq[i])
			return []any{r, err}
		})
		add(fmt.Sprintf("BuildRevocationRequest %d", i), func(e *libEnv) []any {
			r, err := oauth2.BuildRevocationRequest("https://as.example/revoke", e.RReq[i])
			return []any{r, err}
		})
		add(fmt.Sprintf("Introspect %d", i), func(e *libEnv) []any {
			r, err := e.client.Introspect(e.IReq[i])
			return []any{r, err}
		})
		add(fmt.Sprintf("Revoke %d", i), func(e *libEnv) []any { return []any{e.client.Revoke(e.RReq[i])} })
	}
	add("Authenticate limited", func(e *libEnv) []any {
		r, err := e.limited.Authenticate(e.TReq[0])
		return []any{r, err}
	})
	add("Introspect limited", func(e *libEnv) []any {
		r, err := e.limited.Introspect(e.IReq[1])
		return []any{r, err}
	})
	one("Default", func(e *libEnv) any { return oauth2.Default("https://as.example") })
	add("Build with a bad URI", func(e *libEnv) []any {
		r, err := oauth2.BuildTokenRequest("http://[", e.TReq[0])
		return []any{r == nil, err}
	})
	inc := func(q Req) *http.Request {
		r := q.http()
		if r.Body != nil {
			r.Body = &pointBody{r.Body}
		}
		return r
	}
	type parse struct {
		name string
		f    func(r *http.Request) (any, error)
	}
	parses := []parse{
		{"ParseTokenRequest", func(r *http.Request) (any, error) { return oauth2.ParseTokenRequest(r) }},
		{"ParseIntrospectionRequest", func(r *http.Request) (any, error) { return oauth2.ParseIntrospectionRequest(r) }},
		{"ParseRevocationRequest", func(r *http.Request) (any, error) { return oauth2.ParseRevocationRequest(r) }},
		{"ParseAuthorizationRequest", func(r *http.Request) (any, error) { return oauth2.ParseAuthorizationRequest(r) }},
		{"ParseBearerToken", func(r *http.Request) (any, error) { return oauth2.ParseBearerToken(r) }},
	}
	bodies := []string{
		form("grant_type", "password", "scope", "foo bar", "username", "u", "password", "p", "token", "t", "response_type", "token", "client_id", "c", "redirect_uri", "https://r.example/cb", "state", "s"),
		form("grant_type", "authorization_code", "code", "x", "redirect_uri", "https://r2.example/", "client_id", "c2", "client_secret", "z", "response_type", "code", "token", "t2", "token_type_hint", "h"),
		"%zz", "", form("redirect_uri", "/x", "client_id", "c", "response_type", "code", "grant_type", "x"),
	}
	for _, p := range parses {
		for i, b := range bodies {
			add(fmt.Sprintf("%s %d", p.name, i), func(e *libEnv) []any {
				r := inc(Req{Method: "POST", Path: "/x", CT: formCT, Body: b, HasA: i%2 == 0, Auth: basic("c1", "s1")})
				before := fmt.Sprint(r.Method, r.URL, r.Header, r.Host)
				x, err := p.f(r)
				if after := fmt.Sprint(r.Method, r.URL, r.Header, r.Host); after != before {
					return []any{"the request was altered from " + before + " to " + after}
				}
				return []any{x, err}
			})
		}
		for _, a := range []string{"Bearer abc.def", "bearer x y", "Basic Zm9vOmJhcg==", "Bearer", ""} {
			add(fmt.Sprintf("%s with %q", p.name, a), func(e *libEnv) []any {
				x, err := p.f(inc(Req{Method: "POST", Path: "/x", CT: formCT, Body: "token=t", HasA: true, Auth: a}))
				return []any{x, err}
			})
		}
		add(p.name+" GET", func(e *libEnv) []any {
			x, err := p.f(inc(Req{Method: "GET", Path: "/x", Query: bodies[0], NoBody: true}))
			return []any{x, err}
		})
	}
	// servers of their own
	for _, o := range []Op{
		{K: "imp", Cl: "c1", Us: "u1", Pw: "wrong", St: "secret-state"}, {K: "code", Cl: "c2", Us: "u1", Sc: "baz", St: "state2"}, {K: "imp", Cl: "p1", Us: "u2", Sc: "admin", St: "state3"}, {K: "code", Cl: "c1", Us: "nobody", St: "state4"},
		{K: "pw", Cl: "c1", Us: "u1", Pw: "wrong"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "baz"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "cc", Cl: "c2", Sc: "foo"}, {K: "cc", Cl: "p1"}, {K: "pw", Cl: "nobody", Us: "u1"},
		{K: "imp", Cl: "c1", Us: "u1", St: "state5", Sc: "foo"}, {K: "code", Cl: "c2", Us: "u2", St: "state6", Sc: "bar"}, {K: "code", Cl: "c1", Us: "u1", Rd: "https://evil.example/"},
		{K: "res", X: "x.y", Sc: "foo bar"}, {K: "rev", Cl: "c1", X: "x.y"}, {K: "int", Cl: "c1", X: "x.y", H: "bogus"}, {K: "rfr", Cl: "c1", X: "x.y"}, {K: "xch", Cl: "c1", X: "x.y"},
	} {
		add("server: "+o.key(), func(e *libEnv) []any {
			w := newBareWorld(baseCfg())
			q := w.build(o)
			rec := newRecorder()
			pw := &pointWriter{rec}
			r := inc(q)
			if q.Path == resourcePath {
				w.S.Authorize(pw, r, oauth2.Scope(q.Need))
			} else {
				w.S.ServeHTTP(pw, r)
			}
			x := rec.resp()
			if e.loose {
				for _, k := range []string{"Location"} {
					if v := x.H.Get(k); v != "" {
						x.H.Set(k, tokenLike.ReplaceAllString(v, "<T>"))
					}
				}
				x.Body = tokenLike.ReplaceAllString(x.Body, "<T>")
			}
			return []any{x}
		})
	}
	return
}

// held is a result that must stay what it is, although it is not shown.
type heldToken struct{ t *oauth2.HS256Token }

func (e *libEnv) held(t *oauth2.HS256Token) any {
	if e.loose {
		return nil
	}
	return &heldToken{t}
}

// newBareWorld is a world outside any history.
func newBareWorld(cfg *Cfg) *World {
	sc := oauth2.DefaultServerConfig([]byte(cfg.Secret), oauth2.Scope(append([]string(nil), cfg.Allowed...)))
	s := oauth2.NewServer(sc)
	for _, c := range cfg.Clients {
		s.Clients[c.ID] = &oauth2.ServerEntity{Secret: c.Secret, RedirectURI: c.Redirect, Confidential: c.Conf}
	}
	for _, u := range cfg.Users {
		s.Users[u[0]] = &oauth2.ServerEntity{Secret: u[1]}
	}
	return &World{Cfg: cfg, S: s}
}

func newLibRecorder() *pointWriter { return &pointWriter{newRecorder()} }

// showResult renders a result completely.
func showResult(l []any) string {
	var b strings.Builder
	for _, v := range l {
		switch x := v.(type) {
		case nil:
			b.WriteString("nil")
		case *pointWriter:
			b.WriteString(showResp(x.recorder.resp()))
		case *Resp:
			b.WriteString(showResp(x))
		case *http.Request:
			if x == nil {
				b.WriteString("nil request")
				break
			}
			fmt.Fprintf(&b, "%s %s host=%s %v len=%d", x.Method, x.URL, x.Host, x.Header, x.ContentLength)
			if x.GetBody != nil {
				for i := 0; i < 2; i++ {
					r, err := x.GetBody()
					if err != nil {
						b.WriteString(err.Error())
						continue
					}
					d, _ := io.ReadAll(r)
					fmt.Fprintf(&b, " body=%q", d)
				}
			}
		case []any:
			b.WriteString("[" + showResult(x) + "]")
		case []byte:
			fmt.Fprintf(&b, "%q", x)
		case error:
			if e, ok := x.(*oauth2.Error); ok {
				d := dumper{names: map[string]string{}, now: time.Now(), seen: map[uintptr]bool{}}
				d.walk(reflect.ValueOf(e))
				b.WriteString(d.b.String())
			} else {
				fmt.Fprintf(&b, "%T %v", x, x)
			}
		default:
			d := dumper{names: map[string]string{}, now: time.Now(), seen: map[uintptr]bool{}}
			d.walk(reflect.ValueOf(v))
			b.WriteString(d.b.String())
		}
		b.WriteString(" ; ")
	}
	return b.String()
}

func showResp(r *Resp) string {
	var h []string
	for k, v := range r.H {
		h = append(h, k+"="+strings.Join(v, "|"))
	}
	sort.Strings(h)
	return fmt.Sprintf("%d %s %q writes=%d", r.Code, strings.Join(h, " "), r.Body, r.Writes)
}

// show renders the arguments, including the room behind slices.
func (e *libEnv) show() string {
	d := dumper{names: map[string]string{}, now: time.Time{}, seen: map[uintptr]bool{}}
	c := *e
	c.client, c.limited = nil, nil
	d.walk(reflect.ValueOf(&c))
	room := func(s oauth2.Scope) { d.b.WriteString(fmt.Sprintf("%q", s[:cap(s)])) }
	for _, s := range [][]byte{e.Secret, e.Key, e.Sig, e.Token.Key, e.Token.Signature, e.Config.Secret} {
		d.b.WriteString(fmt.Sprintf("%q", s[:cap(s)]))
	}
	for _, s := range []oauth2.Scope{e.Scope, e.Other, e.TR.Scope, e.TRRedirect.Scope, e.IR.Scope, e.TReq[0].Scope, e.TReq[2].Scope, e.Config.AllowedScope} {
		room(s)
	}
	for _, x := range e.Errs {
		room(x.Scope)
	}
	return d.b.String()
}

// poke overwrites everything reachable through a value, as its owner may.
func poke(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		if r, ok := v.Interface().(*http.Request); ok {
			poke(reflect.ValueOf(r.Header), seen)
			r.URL.Path, r.URL.RawQuery, r.Host = "/poked", "poked", "poked"
			return
		}
		if strings.HasPrefix(v.Elem().Type().PkgPath(), "net/http") {
			return
		}
		poke(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			poke(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				poke(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			poke(w.Index(i), seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			old := v.MapIndex(k)
			poke(old, seen)
			n := reflect.New(v.Type().Elem()).Elem()
			n.Set(old)
			poke(n, seen)
			v.SetMapIndex(k, n)
		}
		if v.Type().Key().Kind() == reflect.String {
			n := reflect.New(v.Type().Elem()).Elem()
			poke(n, seen)
			v.SetMapIndex(reflect.ValueOf("poked").Convert(v.Type().Key()), n)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("poked")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(99)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(0x7e)
		}
	}
}

func pokeAll(l []any) {
	for _, x := range l {
		switch y := x.(type) {
		case nil, bool, string, *pointWriter, *Resp:
		case *heldToken:
			poke(reflect.ValueOf(y.t), map[uintptr]bool{})
		case []any:
			pokeAll(y)
		default:
			poke(reflect.ValueOf(x), map[uintptr]bool{})
		}
	}
}

// extend adds to every list of form values, which must leave the others alone.
func extend(l []any) string {
	for _, x := range l {
		v, ok := x.(url.Values)
		if !ok {
			continue
		}
		for k := range v {
			before := map[string]string{}
			for j := range v {
				before[j] = fmt.Sprint(v[j])
			}
			v.Add(k, "added")
			for j := range v {
				if j != k && fmt.Sprint(v[j]) != before[j] {
					return fmt.Sprintf("adding a value of %s changes %s from %s to %v", k, j, before[j], v[j])
				}
			}
		}
	}
	return ""
}

func freshRand() { arand.Set(&detRand{}) }

// single makes one call with arguments of its own.
func (k libCall) single() (res []any, shown string, msg string) {
	freshRand()
	e := newLibEnv()
	freshRand()
	before := e.show()
	msg = guard(func() string { res = k.f(e); return "" })
	if msg != "" {
		return
	}
	shown = showResult(res)
	if after := e.show(); after != before {
		msg = fmt.Sprintf("an argument is altered from\n%s\nto\n%s", before, after)
		return
	}
	if again := showResult(res); again != shown {
		msg = fmt.Sprintf("reading the result changes it from\n%s\nto\n%s", shown, again)
		return
	}
	return
}

// libChild runs the calls prefix, disturbing their results, and then each
// call, in a process of its own.
type libChild struct {
	Shown []string
	Msg   string
	At    string
}

func libRun(prefix []int, backwards bool, want []string) (out libChild) {
	calls := libCalls()
	type kept struct {
		i     int
		res   []any
		shown string
	}
	var keep []kept
	for _, i := range prefix {
		res, shown, msg := calls[i].single()
		if msg == "" {
			// a second result of the same call is kept as it is
			var r2 []any
			var s2 string
			r2, s2, msg = calls[i].single()
			if msg == "" && s2 != shown {
				msg = fmt.Sprintf("a second call gives\n%s\nafter\n%s", s2, shown)
			}
			keep = append(keep, kept{i, r2, s2})
		}
		if msg == "" {
			msg = extend(res)
			pokeAll(res)
		}
		if msg != "" {
			out.Msg, out.At = msg, calls[i].name
			return
		}
	}
	order := make([]int, len(calls))
	for i := range order {
		order[i] = i
		if backwards {
			order[i] = len(calls) - 1 - i
		}
	}
	out.Shown = make([]string, len(calls))
	for _, j := range order {
		_, shown, msg := calls[j].single()
		if msg == "" && want != nil && want[j] != "" && shown != want[j] {
			msg = fmt.Sprintf("the result is\n%s\ninstead of\n%s", shown, want[j])
		}
		if msg != "" {
			out.Msg, out.At = msg, calls[j].name
			return
		}
		out.Shown[j] = shown
		for _, k := range keep {
			if s := showResult(k.res); s != k.shown {
				out.Msg, out.At = fmt.Sprintf("the earlier result of %s changes from\n%s\nto\n%s", calls[k.i].name, k.shown, s), calls[j].name
				return
			}
		}
	}
	return
}

func libSpawn(arg string, want []string) (out libChild, err error) {
	dir, err := os.MkdirTemp(outDir(), "lib")
	if err != nil {
		return out, err
	}
	defer os.RemoveAll(dir)
	data, _ := json.Marshal(want)
	if err := os.WriteFile(filepath.Join(dir, "want"), data, 0o644); err != nil {
		return out, err
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestC34$", "-test.timeout", "300s", "-test.count", "1")
	cmd.Env = append(os.Environ(), "VERIF_LIB="+arg, "VERIF_LIB_DIR="+dir, "VERIF_SHARD=", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race"))
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	_ = cmd.Run()
	data, err = os.ReadFile(filepath.Join(dir, "out"))
	if err == nil {
		err = json.Unmarshal(data, &out)
	}
	if err != nil {
		l := log.String()
		if len(l) > 4000 {
			l = l[:4000]
		}
		return out, fmt.Errorf("%v\n%s", err, l)
	}
	return out, nil
}

// libArg names a run: "solo 3", or "after 3 5 forwards".
func libServe(arg string) {
	dir := os.Getenv("VERIF_LIB_DIR")
	f := strings.Fields(arg)
	var out libChild
	if f[0] == "solo" {
		i, _ := strconv.Atoi(f[1])
		_, shown, msg := libCalls()[i].single()
		out = libChild{Shown: []string{shown}, Msg: msg}
	} else {
		var want []string
		data, _ := os.ReadFile(filepath.Join(dir, "want"))
		_ = json.Unmarshal(data, &want)
		var prefix []int
		for _, x := range f[1 : len(f)-1] {
			i, _ := strconv.Atoi(x)
			prefix = append(prefix, i)
		}
		out = libRun(prefix, f[len(f)-1] == "backwards", want)
	}
	data, _ := json.Marshal(out)
	_ = os.WriteFile(filepath.Join(dir, "out"), data, 0o644)
}

// libPairs explores the schedules of two calls made at the same time.
func libPairs(c *Check, k, n int, res *shardResult, flush func()) {
	limit, bound := 400, 1
	if c.thorough() {
		limit, bound = 20000, 2
	}
	calls := libCalls()
	races := int64(0)
	races, _ = raceLog()
	wantTask, wantSched, replaying := strings.Cut(c.replay, " @ ")
	loose := func(i int) (string, string) {
		e := newLibEnv()
		e.loose = true
		var r []any
		msg := guard(func() string { r = calls[i].f(e); return "" })
		return showResult(r), msg
	}
	solo := map[int]string{}
	pair := func(i, j int) {
		name := calls[i].name + " || " + calls[j].name
		if replaying && name != wantTask {
			return
		}
		for _, x := range []int{i, j} {
			if _, ok := solo[x]; !ok {
				s, msg := loose(x)
				if msg != "" {
					res.Found = append(res.Found, Found{calls[x].name, msg})
					flush()
					return
				}
				solo[x] = s
			}
		}
		judge := func(choices []int8) (msg string, ds []vsync.Decision) {
			e := newLibEnv()
			e.loose = true
			var got [2]string
			var msgs [2]string
			var raw [2][]any
			run := func(t, x int) func() {
				return func() {
					defer func() {
						if p := recover(); p != nil {
							if _, is := p.(vsync.Abort); is {
								panic(p)
							}
							msgs[t] = fmt.Sprintf("panic: %v", p)
						}
					}()
					raw[t] = calls[x].f(e)
				}
			}
			ds, points, deadlock, lost := vsync.Run([]func(){run(0, i), run(1, j)}, choices, realMs.Load, 2000)
			res.Points += int64(points)
			res.Lost += int64(lost)
			if deadlock {
				return "deadlock: no call can go on", ds
			}
			if m := raceSince(&races); m != "" {
				return m, ds
			}
			for t, x := range []int{i, j} {
				if msgs[t] != "" {
					return calls[x].name + ": " + msgs[t], ds
				}
				if got[t] = showResult(raw[t]); got[t] != solo[x] {
					return fmt.Sprintf("%s gives\n%s\ninstead of\n%s", calls[x].name, got[t], solo[x]), ds
				}
			}
			res.Orders[fmt.Sprintf("%d decisions", min(len(ds)/10*10, 100))]++
			return "", ds
		}
		if replaying {
			for x := 0; x < 20; x++ {
				if msg, _ := judge(parseSchedule(wantSched)); msg != "" {
					res.Found = append(res.Found, Found{c.replay, msg})
					return
				}
			}
			return
		}
		c.walk(schedWalk{name, 2, bound, false, limit}, res, judge, flush)
	}
	arand.Set(&plainRand{})
	t := 0
	// the first call of each function stands for it among other functions'
	family := func(i int) string { f, _, _ := strings.Cut(calls[i].name, " "); return f }
	first := map[int]bool{}
	seen := map[string]bool{}
	for i := range calls {
		first[i], seen[family(i)] = !seen[family(i)] || family(i) == "server:", true
	}
	for i := range calls {
		for j := i; j < len(calls); j++ {
			if !(c.thorough() || first[i] && first[j] || family(i) == family(j)) {
				continue
			}
			if t++; t%n != k && !replaying {
				continue
			}
			if len(res.Found) > 0 || res.Cut {
				return
			}
			synctest.Test(c.T, func(*testing.T) { pair(i, j) })
		}
	}
}

func TestC34(t *testing.T) {
	if arg := os.Getenv("VERIF_LIB"); arg != "" {
		synctest.Test(t, func(*testing.T) { libServe(arg) })
		return
	}
	if shardMain(t, "C34", libPairs) {
		return
	}
	c := newCheck(t, "C34", "model_checking",
		"for every call of a list of ~250 of every exported function and method with several arguments (and requests to servers of their own): in a process of its own, the call is made twice, one result is extended and overwritten wherever it can be, and then every call is made in two orders (thorough: also after all calls in every rotation), compared with its result as the only call of a process, its arguments including the spare room behind slices and the kept result compared before and after; then all schedules with at most 1 (thorough 2) preemptions of all pairs of calls of one function, and of one call of each (thorough: of all pairs), sharing their arguments and one client, scheduling points before every statement, under the race detector, compared with the results alone. Non-trivial: at least one preemption.")
	c.assume = []string{"values handed to a constructor may be retained by the value it returns", "preemption inside one statement is covered by the race detector only"}
	if os.Getenv("VERIF_INSTRUMENTED") != "1" {
		c.assume = append(c.assume, "sources could not be instrumented: scheduling points at I/O only")
		c.cut.Store(true)
	}
	defer c.finish()
	calls := libCalls()
	want := make([]string, len(calls))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	seq := c.replay == "" || strings.HasPrefix(c.replay, "after ") || strings.HasPrefix(c.replay, "solo ")
	if seq {
		for i := range calls {
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				arg := fmt.Sprintf("solo %d", i)
				out, err := libSpawn(arg, nil)
				c.progress.Add(1)
				if err != nil {
					c.report(arg+" "+calls[i].name, err.Error(), nil)
				} else if out.Msg != "" {
					c.report(arg+" "+calls[i].name, out.Msg, nil)
				} else {
					want[i] = out.Shown[0]
				}
			}()
		}
		wg.Wait()
		run := func(prefix ...int) {
			for _, dir := range []string{"forwards", "backwards"} {
				arg, key := "after", "after ["+calls[prefix[0]].name+"]"
				for _, i := range prefix {
					arg += fmt.Sprintf(" %d", i)
				}
				if len(prefix) > 1 {
					key += " and all others"
				}
				arg, key = arg+" "+dir, key+" "+dir
				if c.skip(key) || c.stopped() || c.timeUp() {
					continue
				}
				wg.Add(1)
				sem <- true
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					one := func() string {
						out, err := libSpawn(arg, want)
						if err != nil {
							return err.Error()
						}
						if out.Msg != "" {
							return out.At + ": " + out.Msg
						}
						return ""
					}
					c.evals.Add(int64(len(calls)))
					c.progress.Add(1)
					if msg := one(); msg != "" {
						c.report(key, msg, one)
					}
				}()
			}
		}
		if len(c.found) == 0 {
			for i := range calls {
				run(i)
			}
			if c.thorough() { // every call disturbed in turn, starting anywhere
				for i := range calls {
					var l []int
					for j := range calls {
						l = append(l, (i+j)%len(calls))
					}
					run(l...)
				}
			}
			wg.Wait()
		}
		c.extra["sequential_processes"] = c.evals.Load() / int64(len(calls))
	}
	c.extra["calls"], c.extra["sequential_s"] = len(calls), time.Since(c.start).Seconds()
	if len(c.found) == 0 && (c.replay == "" || strings.Contains(c.replay, " || ")) {
		deadline := c.start.Add(200 * time.Second)
		if c.thorough() {
			deadline = c.deadline
		}
		c.shards(deadline)
	}
}
