package checks

// Wire formats: requests built and parsed (C19, C20), responses written and
// parsed (C21), redirects (C22) and errors (C23).

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"testing"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// ------------------------------------------------------------- value menus

// hostile are valid UTF-8 texts that stress encodings.
func hostile() []string {
	return []string{"plain", "a b", "a+b", "a&b=c", "x&access_token=evil", "=", "%", "%41", "%2541", "100%", "%zz", "ü€😀", `q"uo\te`, "<s>'", "a;b", "#f?g/", "\r\nX-Evil: 1", "\x00\x01\x7f", "\u2028\u00a0", " lead and trail ", "a,b", "null", "+", strings.Repeat("long-Value ", 20)}
}

// hostileBytes adds texts that are not UTF-8.
func hostileBytes() []string {
	return append(hostile(), "\xff\xfe", "a\xc3", strings.Repeat("0123456789abcdef", 300))
}

func scopes() []oauth2.Scope {
	return []oauth2.Scope{{"foo"}, {"foo", "bar"}, {"b", "a", "b"}, {"a+b", "a&b=c", "%41"}, {"ü", `"x"`, "<>"}, {"read:all", "https://x/y?z=1#f", "a,b"}, {"+", "=", ";", "%"}}
}

func redirects() []string {
	return []string{"https://c.example.com/cb", "http://localhost:8080", "https://c.example.com/cb?a=b&c=d", "https://c.example.com/p%20q/%2Fx?y=%26%3D&z=a+b", "https://c.example.com/?u=https%3A%2F%2Fo.example%2F%3Fa%3D1", "com.example.app:/cb", "myapp://callback/x;y=1", "https://user:pw@c.example.com:8443/a/b?c", "https://[::1]:99/cb", "https://c.example.com/ü?ö=1", "https://c.example.com/cb?x=%2525+%2B", "https://c.example.com/a+b?c+d=e+f", "https://:pw@c.example.com/cb", "https://@c.example.com/cb"}
}

type kvs map[string]string

// pairs of form data, sorted
func sortedPairs(kv [][2]string) []string {
	var out []string
	for _, p := range kv {
		out = append(out, fmt.Sprintf("%q=%q", p[0], p[1]))
	}
	sort.Strings(out)
	return out
}

func wantPairs(m kvs) []string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(out)
	return out
}

// overWire sends a client request through the real wire encoding.
func overWire(req *http.Request) (*http.Request, string, error) {
	var buf bytes.Buffer
	if err := req.Write(&buf); err != nil {
		return nil, "", err
	}
	raw := buf.String()
	r, err := http.ReadRequest(bufio.NewReader(&buf))
	return r, raw, err
}

// --------------------------------------------------------------------- C19

type field struct {
	name   string
	values []any
}

// assignments enumerates presence combinations with plain values, and then
// every choice of up to k fields taking any value while the others are absent
// or have their first value.
func assignments(fields []field, k int, f func(vals []any)) {
	n := len(fields)
	vals := make([]any, n)
	for mask := 0; mask < 1<<n; mask++ {
		for i := range vals {
			vals[i] = nil
			if mask>>i&1 == 1 {
				vals[i] = fields[i].values[0]
			}
		}
		f(append([]any{}, vals...))
	}
	for _, others := range []bool{true, false} {
		base := make([]any, n)
		if others {
			for i := range base {
				base[i] = fields[i].values[0]
			}
		}
		var rec func(start, left int, cur []any)
		rec = func(start, left int, cur []any) {
			if left == 0 {
				return
			}
			for i := start; i < n; i++ {
				for _, v := range fields[i].values[1:] {
					next := append([]any{}, cur...)
					next[i] = v
					f(next)
					rec(i+1, left-1, next)
				}
				if !others { // plain value next to absent ones
					next := append([]any{}, cur...)
					next[i] = fields[i].values[0]
					rec(i+1, left-1, next)
				}
			}
		}
		rec(0, k, base)
	}
}

func anys(l []string) []any {
	out := make([]any, len(l))
	for i := range l {
		out[i] = l[i]
	}
	return out
}

func s(v any) string {
	x, _ := v.(string)
	return x
}

func noColon(l []string) []string {
	var out []string
	for _, x := range l {
		if !strings.Contains(x, ":") {
			out = append(out, x)
		}
	}
	return out
}

// distinct makes the values of different fields distinguishable.
func tagged(tag string, l []string) []any {
	out := make([]any, len(l))
	for i := range l {
		out[i] = l[i] + tag
	}
	return out
}

func builtRequest(req *http.Request, err error, uri, id, secret string, want kvs) (r *http.Request, msg string) {
	if err != nil || req == nil {
		return nil, fmt.Sprintf("building failed: %v", err)
	}
	if req.Method != "POST" || req.URL.String() != uri {
		return nil, fmt.Sprintf("request goes to %s %s", req.Method, req.URL)
	}
	r, raw, err := overWire(req)
	if err != nil {
		return nil, "request cannot be sent: " + err.Error()
	}
	for k := range r.Header {
		switch k {
		case "Authorization", "Content-Type", "User-Agent", "Content-Length", "Host":
		default:
			return nil, fmt.Sprintf("unexpected header %s: %q", k, r.Header[k])
		}
	}
	if r.Header.Get("Content-Type") != formCT || len(r.Header["Content-Type"]) != 1 {
		return nil, fmt.Sprintf("content type is %q", r.Header["Content-Type"])
	}
	wantAuth := 0
	if id != "" || secret != "" {
		wantAuth = 1
	}
	if len(r.Header["Authorization"]) != wantAuth {
		return nil, fmt.Sprintf("%d Authorization headers, want %d", len(r.Header["Authorization"]), wantAuth)
	}
	if wantAuth == 1 && r.Header.Get("Authorization") != basic(id, secret) {
		return nil, fmt.Sprintf("Authorization is %q", r.Header.Get("Authorization"))
	}
	head, body, _ := strings.Cut(raw, "\r\n\r\n")
	if r.RequestURI != mustPath(uri) {
		return nil, fmt.Sprintf("request target is %q", r.RequestURI)
	}
	kv, ok := formDecode(body)
	if !ok {
		return nil, fmt.Sprintf("malformed body %q", body)
	}
	if got, w := sortedPairs(kv), wantPairs(want); !reflect.DeepEqual(got, w) {
		return nil, fmt.Sprintf("body carries %v, want %v", got, w)
	}
	if len(secret) > 5 && !strings.Contains(fmt.Sprint(want, uri, id), secret) { // not by coincidence
		for _, sec := range []string{secret, pctEncode(secret), url.QueryEscape(secret)} {
			if strings.Contains(body, sec) || strings.Contains(strings.ReplaceAll(head, r.Header.Get("Authorization"), ""), sec) {
				return nil, "the client secret travels outside the Authorization header"
			}
		}
	}
	return r, ""
}

func mustPath(uri string) string {
	u, err := url.Parse(uri)
	if err != nil {
		panic(err)
	}
	return u.RequestURI()
}

func TestC19(t *testing.T) {
	c := newCheck(t, "C19", "exploration",
		"token, introspection and revocation requests: every presence combination of their fields and every choice of up to 2 fields (thorough 3 for the token request) taking any of ~27 hostile values (other fields plain or absent), built with the library, sent through net/http's wire encoding, every single byte, blanks and round lengths in every field; 18 endpoints; checked byte by byte with an independent form decoder, and parsed with the library. Non-trivial: a field is absent or hostile.")
	defer c.finish()
	uri := "https://as.example.com/oauth2/token?tenant=a%20b"
	hb := hostileBytes()
	ids := tagged("-id", noColon(hb))
	secrets := tagged("-client-secret", hb)
	var sc []any
	for _, x := range scopes() {
		sc = append(sc, x)
	}
	fields := []field{
		{"GrantType", append([]any{"password", "client_credentials", "authorization_code", "refresh_token"}, anys(hb[1:])...)},
		{"Scope", sc}, {"ClientID", ids}, {"ClientSecret", secrets},
		{"Username", tagged("-user", hb)}, {"Password", tagged("-pass", hb)}, {"RefreshToken", tagged("-rt", hb)},
		{"RedirectURI", anys(redirects())}, {"Code", tagged("-code", hb)},
	}
	k := 2
	if c.thorough() {
		k = 3
	}
	type job struct{ vals []any }
	var batch [][]any
	flush := func(run func(vals []any)) {
		b := batch
		batch = nil
		c.parallel(len(b), func(i int) {
			if !c.stopped() {
				run(b[i])
			}
		})
	}
	token := func(vals []any) {
		scv, _ := vals[1].(oauth2.Scope)
		in := oauth2.TokenRequest{GrantType: s(vals[0]), Scope: append(oauth2.Scope(nil), scv...), ClientID: s(vals[2]), ClientSecret: s(vals[3]), Username: s(vals[4]), Password: s(vals[5]), RefreshToken: s(vals[6]), RedirectURI: s(vals[7]), Code: s(vals[8])}
		c.Case(fmt.Sprintf("token %q", vals), true, func() string {
			want := kvs{}
			set := func(k, v string) {
				if v != "" {
					want[k] = v
				}
			}
			set("grant_type", in.GrantType)
			set("scope", strings.Join(in.Scope, " "))
			set("username", in.Username)
			set("password", in.Password)
			set("refresh_token", in.RefreshToken)
			set("code", in.Code)
			if in.RedirectURI != "" {
				want["redirect_uri"] = strings.ReplaceAll(pctEncode(in.RedirectURI), "%7E", "~")
			}
			arg := in
			arg.Scope = append(oauth2.Scope(nil), in.Scope...)
			req, err := oauth2.BuildTokenRequest(uri, arg)
			if !reflect.DeepEqual(arg, in) {
				return "building changed the request"
			}
			r, msg := builtRequest(req, err, uri, in.ClientID, in.ClientSecret, want)
			if msg != "" {
				return msg
			}
			out, err := oauth2.ParseTokenRequest(r)
			if in.GrantType == "" || in.ClientID == "" {
				if err == nil || out != nil {
					return "request without grant type or client accepted"
				}
				return ""
			}
			if err != nil || out == nil {
				return fmt.Sprintf("not understood: %v", err)
			}
			if len(out.Scope) == 0 && len(in.Scope) == 0 {
				out.Scope, in.Scope = nil, nil
			}
			if !reflect.DeepEqual(*out, in) {
				return fmt.Sprintf("understood as %q, sent %q", *out, in)
			}
			return ""
		})
	}
	assignments(fields, k, func(v []any) {
		batch = append(batch, v)
		if len(batch) >= 1<<18 {
			flush(token)
		}
	})
	flush(token)

	f2 := []field{{"Token", tagged("-tok", hb)}, {"Hint", append([]any{"access_token", "refresh_token"}, anys(hb[1:])...)}, {"ClientID", ids}, {"ClientSecret", secrets}}
	small := func(kind string) func(vals []any) {
		return func(vals []any) {
			tok, hint, id, sec := s(vals[0]), s(vals[1]), s(vals[2]), s(vals[3])
			c.Case(fmt.Sprintf("%s %q", kind, vals), true, func() string {
				want := kvs{}
				if tok != "" {
					want["token"] = tok
				}
				if hint != "" {
					want["token_type_hint"] = hint
				}
				var req *http.Request
				var err error
				if kind == "introspection" {
					req, err = oauth2.BuildIntrospectionRequest(uri, oauth2.IntrospectionRequest{Token: tok, TokenTypeHint: hint, ClientID: id, ClientSecret: sec})
				} else {
					req, err = oauth2.BuildRevocationRequest(uri, oauth2.RevocationRequest{Token: tok, TokenTypeHint: hint, ClientID: id, ClientSecret: sec})
				}
				r, msg := builtRequest(req, err, uri, id, sec, want)
				if msg != "" {
					return msg
				}
				var got []string
				if kind == "introspection" {
					var o *oauth2.IntrospectionRequest
					if o, err = oauth2.ParseIntrospectionRequest(r); o != nil {
						got = []string{o.Token, o.TokenTypeHint, o.ClientID, o.ClientSecret}
					}
				} else {
					var o *oauth2.RevocationRequest
					if o, err = oauth2.ParseRevocationRequest(r); o != nil {
						got = []string{o.Token, o.TokenTypeHint, o.ClientID, o.ClientSecret}
					}
				}
				if tok == "" || (id == "" && sec == "") {
					if err == nil || got != nil {
						return "request without token or client accepted"
					}
					return ""
				}
				if err != nil || !reflect.DeepEqual(got, []string{tok, hint, id, sec}) {
					return fmt.Sprintf("understood as %q (%v), sent %q", got, err, []string{tok, hint, id, sec})
				}
				return ""
			})
		}
	}
	for _, kind := range []string{"introspection", "revocation"} {
		assignments(f2, k, func(v []any) { batch = append(batch, v) })
		flush(small(kind))
	}
	// every single byte, blanks, round lengths, and one field like another
	var texts []string
	for b := 0; b < 256; b++ {
		texts = append(texts, string([]byte{byte(b)}), string([]byte{byte(b), byte(b)}), string([]byte{byte(b)})+"a", "a"+string([]byte{byte(b)}))
	}
	texts = append(texts, "   ", " \t\r\n", "\u00a0", "\u3000", "\ufeff", "\ufeffa", "0", "false", "nil", "undefined", "client_id", "a:b", "Basic", "Bearer x", "access_token", "refresh_token", "password")
	for _, n := range []int{63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4096, 65535, 65536, 1 << 20} {
		texts = append(texts, longText(n, n))
	}
	c.parallel(len(texts), func(i int) {
		x := texts[i]
		for f := 0; f < 9; f++ {
			if f == 1 || f == 7 || c.stopped() || len(x) > 1<<16 && f%3 > 0 {
				continue
			}
			for _, rest := range []string{"", "v"} {
				if f == 2 && strings.Contains(x, ":") {
					continue
				}
				v := make([]any, 9)
				for j := range v {
					if rest != "" && j != 1 && j != 7 {
						v[j] = rest
					}
				}
				if rest == "" {
					v[0], v[2] = "password", "c"
				}
				v[f] = x
				token(v)
				if f < 4 {
					w := []any{nil, nil, nil, nil}
					if rest != "" {
						w = []any{rest, rest, rest, rest}
					} else {
						w[0], w[2] = "t", "c"
					}
					if w[f] = x; f == 2 || !strings.Contains(s(w[2]), ":") {
						small("introspection")(w)
						small("revocation")(w)
					}
				}
			}
		}
	})
	// every endpoint that can be parsed is addressed as given
	for _, e := range []string{"https://as.example.com/oauth2/token/", "https://as.example.com/", "https://as.example.com", "http://localhost:8080/token", "https://as.example.com:443/t", "http://as.example.com:80/t", "https://as.example.com/a//b/../c/./d", "https://as.example.com/?x=1", "https://as.example.com/t?client_id=x&token=y&grant_type=z", "https://as.example.com/t?", "https://[::1]:8443/t", "https://AS.Example.com/T", "https://as.example.com./t", "https://as.example.com/%2Ft%20u/", "https://as.example.com/t;v=1", "https://as.example.com/t?a=b&a=c&&d", "https://as.example.com/" + longText(1, 5000), "https://as.example.com/t?x=" + longText(2, 5000)} {
		c.Case("endpoint "+e, true, func() string {
			a, err := oauth2.BuildTokenRequest(e, oauth2.TokenRequest{GrantType: "password", ClientID: "c", ClientSecret: "s", Username: "u"})
			if _, msg := builtRequest(a, err, e, "c", "s", kvs{"grant_type": "password", "username": "u"}); msg != "" {
				return "token request: " + msg
			}
			a, err = oauth2.BuildIntrospectionRequest(e, oauth2.IntrospectionRequest{Token: "t", ClientID: "c"})
			if _, msg := builtRequest(a, err, e, "c", "", kvs{"token": "t"}); msg != "" {
				return "introspection request: " + msg
			}
			a, err = oauth2.BuildRevocationRequest(e, oauth2.RevocationRequest{Token: "t", ClientID: "c"})
			if _, msg := builtRequest(a, err, e, "c", "", kvs{"token": "t"}); msg != "" {
				return "revocation request: " + msg
			}
			return ""
		})
	}
	// endpoints that cannot be parsed
	for _, bad := range []string{"://", "http://[::1", "http://x/%zz", "\x7f"} {
		c.Case("uri "+bad, true, func() string {
			a, e1 := oauth2.BuildTokenRequest(bad, oauth2.TokenRequest{GrantType: "password", ClientID: "c"})
			b, e2 := oauth2.BuildIntrospectionRequest(bad, oauth2.IntrospectionRequest{Token: "t", ClientID: "c"})
			d, e3 := oauth2.BuildRevocationRequest(bad, oauth2.RevocationRequest{Token: "t", ClientID: "c"})
			if e1 == nil || e2 == nil || e3 == nil || a != nil || b != nil || d != nil {
				return "a request was built for an unusable endpoint"
			}
			return ""
		})
	}
}

// --------------------------------------------------------------------- C20

type uriCase struct {
	wire string // the parameter as sent, before form encoding
	want string // what must be understood; "" and !ok: must be refused
	ok   bool
	open bool // may be accepted or refused
}

func uriMenu() []uriCase {
	var out []uriCase
	for _, u := range redirects() {
		out = append(out, uriCase{wire: pctEncode(u), want: u, ok: true})
		// the same, encoded once only, where that makes no difference; the
		// others are checked separately
		if d, ok := pctDecode(u); ok && d == u {
			out = append(out, uriCase{wire: u, want: u, ok: true})
		}
	}
	for _, u := range []string{"foo", "/cb", "//c.example.com/cb", "c.example.com/cb", "*", "?a=b", "", "#", "https://c.example.com/cb#f", "https://c.example.com/cb#", "https://c.example.com/cb?a=b#f", "https://c.example.com#/x", ":", "://x", "1https://x/", "https://c.example.com/cb\r\nX: y", "https://c.example.com/\x00", "http://[::1/x", "https://c.example.com/%zz", "https://c.example.com:port/", " https://c.example.com/cb", "https://exa mple.com/", "\thttps://x/"} {
		out = append(out, uriCase{wire: pctEncode(u)})
	}
	out = append(out, uriCase{wire: "https://c.example.com/cb#f"}, uriCase{wire: "blaa%blupp"}, uriCase{wire: "%"}, uriCase{wire: "https://x/%"}, uriCase{wire: "https%3A%2F%2Fx%2Fcb%23f"})
	for _, u := range []string{"urn:x:y", "mailto:a@b", "https:cb", "https:///cb", "https://", "https:", "HTTPS://C.example.com/cb"} {
		out = append(out, uriCase{wire: pctEncode(u), want: u, open: true})
	}
	return out
}

type pv struct {
	body, query []string
	want        []string // acceptable understandings
	absent      bool
}

// placements of one parameter with the given value.
func placementsOf(name, value string, queryCounts bool) []pv {
	v, o := value, value+"-other"
	q := func(l ...string) []string {
		if queryCounts {
			return l
		}
		return nil
	}
	out := []pv{
		{body: []string{name, v}, want: []string{v}},
		{absent: true, want: []string{""}},
		{query: []string{name, v}, want: append(q(v), map[bool][]string{true: nil, false: {""}}[queryCounts]...)},
		{body: []string{name, v}, query: []string{name, o}, want: append([]string{v}, q(o)...)},
		{body: []string{name, ""}, want: []string{""}},
		{body: []string{name, ""}, query: []string{name, o}, want: append([]string{""}, q(o)...)},
		{body: []string{name, v, name, o}, want: []string{v, o}},
		{body: []string{strings.ToUpper(name), v, name + "[]", v, " " + name, v}, want: []string{""}},
	}
	return out
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func invalidRequestErr(err error) string {
	if err == nil {
		return "no error"
	}
	e, ok := err.(*oauth2.Error)
	if !ok || e.Status != 400 || e.Name != "invalid_request" {
		return fmt.Sprintf("error is %#v", err)
	}
	if e.RedirectURI != "" {
		return "the error asks for a redirect"
	}
	return ""
}

// parsed is the common view of the four request types.
func parseAs(kind string, r *http.Request) (got map[string]string, scope []string, err error, nilReq bool) {
	switch kind {
	case "authorization":
		o, e := oauth2.ParseAuthorizationRequest(r)
		if o == nil {
			return nil, nil, e, true
		}
		return map[string]string{"response_type": o.ResponseType, "client_id": o.ClientID, "redirect_uri": o.RedirectURI, "state": o.State}, o.Scope, e, false
	case "token":
		o, e := oauth2.ParseTokenRequest(r)
		if o == nil {
			return nil, nil, e, true
		}
		return map[string]string{"grant_type": o.GrantType, "client_id": o.ClientID, "client_secret": o.ClientSecret, "username": o.Username, "password": o.Password, "refresh_token": o.RefreshToken, "redirect_uri": o.RedirectURI, "code": o.Code}, o.Scope, e, false
	case "introspection":
		o, e := oauth2.ParseIntrospectionRequest(r)
		if o == nil {
			return nil, nil, e, true
		}
		return map[string]string{"token": o.Token, "token_type_hint": o.TokenTypeHint, "client_id": o.ClientID, "client_secret": o.ClientSecret}, nil, e, false
	default:
		o, e := oauth2.ParseRevocationRequest(r)
		if o == nil {
			return nil, nil, e, true
		}
		return map[string]string{"token": o.Token, "token_type_hint": o.TokenTypeHint, "client_id": o.ClientID, "client_secret": o.ClientSecret}, nil, e, false
	}
}

type authCase struct {
	name       string
	has        bool
	h          string
	ok         bool // usable Basic credentials
	id, secret string
	open       bool
}

func authCases() []authCase {
	return []authCase{
		{name: "basic", has: true, h: basic("hid", "hsec"), ok: true, id: "hid", secret: "hsec"},
		{name: "none"},
		{name: "basic colon", has: true, h: basic("hid", "a:b c%"), ok: true, id: "hid", secret: "a:b c%"},
		{name: "basic no secret", has: true, h: basic("hid", ""), ok: true, id: "hid"},
		{name: "basic no id", has: true, h: basic("", "x"), ok: true, id: "", secret: "x"},
		{name: "bearer", has: true, h: "Bearer " + base64.StdEncoding.EncodeToString([]byte("hid:hsec"))},
		{name: "garbage", has: true, h: "Basic %%%"},
		{name: "no colon", has: true, h: "Basic " + base64.StdEncoding.EncodeToString([]byte("hid"))},
		{name: "empty", has: true, h: ""},
	}
}

// requestCase is judged against the reference parser.
func requestCase(kind, method, ct string, noBody bool, a authCase, params map[string]pv, uri *uriCase) (string, bool) {
	var body, query []string
	names := make([]string, 0, len(params))
	for n := range params {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		body = append(body, params[n].body...)
		query = append(query, params[n].query...)
	}
	q := Req{Method: method, Path: "/x", Query: form(query...), Body: form(body...), CT: ct, HasA: a.has, Auth: a.h, NoBody: noBody}
	if noBody {
		q.Body = ""
	}
	r := q.http()
	got, scope, err, nilReq := parseAs(kind, r)
	if (err == nil) == nilReq {
		return fmt.Sprintf("neither or both of request and error: %v", err), false
	}
	if err != nil {
		if msg := invalidRequestErr(err); msg != "" {
			return msg, false
		}
	}
	// what is readable
	methodOK := method == "POST" || (kind == "authorization" && method == "GET")
	formRead := method == "POST" && !noBody && (strings.EqualFold(strings.TrimSpace(strings.SplitN(ct, ";", 2)[0]), formCT))
	openCT := ct == formCT+"; =" || ct == formCT+";" || strings.ContainsAny(ct, "=") && !formRead || (noBody && method == "POST") || strings.HasPrefix(ct, "multipart")
	value := func(n string) []string { // acceptable readings
		p, ok := params[n]
		if !ok {
			return []string{""}
		}
		if formRead {
			return p.want
		}
		// only the query is readable
		if kind == "authorization" {
			if v, k := lookup(pairsOf(p.query), n); k > 0 {
				return []string{v}
			}
		}
		return []string{""}
	}
	// must, may
	canAccept, mustAccept := methodOK, methodOK && !openCT
	need := func(vals []string) {
		nonEmpty := 0
		for _, v := range vals {
			if v != "" {
				nonEmpty++
			}
		}
		if nonEmpty == 0 {
			canAccept = false
		}
		if nonEmpty < len(vals) || len(vals) > 1 {
			mustAccept = false // several values submitted: may be refused
		}
	}
	ids, secs := value("client_id"), value("client_secret")
	switch kind {
	case "authorization":
		need(value("response_type"))
		need(ids)
		need(value("redirect_uri"))
	case "token":
		need(value("grant_type"))
		if a.ok {
			ids, secs = []string{a.id}, []string{a.secret}
		} else if a.has && a.h != "" {
			mustAccept = false
		}
		need(ids)
	default:
		need(value("token"))
		if !a.ok {
			canAccept = false
		}
		if a.id == "" {
			mustAccept = false
		}
		ids, secs = []string{a.id}, []string{a.secret}
	}
	// duplicates anywhere may be refused
	for _, n := range names {
		if len(value(n)) > 1 {
			mustAccept = false
		}
	}
	if kind == "authorization" || kind == "token" {
		if uri != nil && !uri.ok && !uri.open {
			all := true
			for _, v := range value("redirect_uri") {
				if v != uri.wire {
					all = false
				}
			}
			if all && uri.wire != "" {
				canAccept = false
			}
		}
		if uri != nil && (uri.open || !uri.ok) {
			mustAccept = false
		}
	}
	if !canAccept {
		mustAccept = false
	}
	if err == nil && !canAccept {
		return "accepted", true
	}
	if err != nil && mustAccept {
		return "refused: " + err.Error(), true
	}
	if err != nil {
		return "", false
	}
	for n, g := range got {
		var w []string
		switch n {
		case "client_id":
			w = ids
		case "client_secret":
			w = secs
		case "redirect_uri":
			for _, v := range value(n) {
				if uri != nil && v == uri.wire {
					w = append(w, uri.want)
				} else {
					d, ok := pctDecode(v)
					if ok {
						w = append(w, d)
					}
				}
			}
		default:
			w = value(n)
		}
		if !contains(w, g) {
			return fmt.Sprintf("%s understood as %q, submitted %q", n, g, w), true
		}
	}
	if _, ok := params["scope"]; ok || scope != nil {
		good := false
		for _, v := range value("scope") {
			if reflect.DeepEqual(append([]string{}, scope...), append([]string{}, splitScope(v)...)) {
				good = true
			}
		}
		if !good {
			return fmt.Sprintf("scope understood as %q, submitted %q", scope, value("scope")), true
		}
	}
	return "", true
}

func pairsOf(l []string) [][2]string {
	var out [][2]string
	for i := 0; i+1 < len(l); i += 2 {
		out = append(out, [2]string{l[i], l[i+1]})
	}
	return out
}

// unreadable are pieces that make a form unreadable.
var unreadable = []string{"x=%zz", "%", "%4", "x=%", "x=%4", "%zz=1", "x=%%41", "a=1;b=2", ";", "x=%C3%", "x=a%u0041", "scope=%", "state=%zz", "redirect_uri=%", "token=%g1"}

type errReader struct{ err error }

func (e errReader) Read([]byte) (int, error) { return 0, e.err }

func mustNotParse(kind string, r *http.Request) string {
	_, _, err, nilReq := parseAs(kind, r)
	if err == nil || !nilReq {
		return "an unreadable form was accepted"
	}
	return invalidRequestErr(err)
}

func TestC20(t *testing.T) {
	c := newCheck(t, "C20", "exploration",
		"the four request parsers against a reference parser: every placement (body, query, both, absent, empty, duplicated, misspelt) of every parameter - full product for up to 3 parameters at a time with the others present, full product of all for authorization - x Authorization header; every method x content type x header x placement of all; every hostile value of every parameter; ~60 redirect URIs, encoded once and twice; 15 unreadable pieces at every position and bodies that break off. Non-trivial: the request is accepted, or must be refused.")
	c.assume = []string{"repeated parameters may be refused or read as one of the submitted values", "opaque URIs, empty hosts and unusual content types are left open", "the library's own convention is that redirect_uri is percent-encoded once more before form encoding; both forms are checked"}
	defer c.finish()
	kinds := map[string][]string{
		"authorization": {"response_type", "client_id", "redirect_uri", "scope", "state"},
		"token":         {"grant_type", "client_id", "client_secret", "redirect_uri", "scope", "username", "password", "refresh_token", "code"},
		"introspection": {"token", "token_type_hint", "client_id", "client_secret"},
		"revocation":    {"token", "token_type_hint", "client_id", "client_secret"},
	}
	value := map[string]string{"response_type": "code", "client_id": "cid", "client_secret": "cs%+", "redirect_uri": pctEncode("https://c.example.com/cb?a=b%20c"), "scope": "foo  bar", "state": "st&=%41+", "grant_type": "password", "username": "us er", "password": "p&w", "refresh_token": "r.t", "code": "c.d", "token": "t.k", "token_type_hint": "access_token"}
	uri := &uriCase{wire: value["redirect_uri"], want: "https://c.example.com/cb?a=b%20c", ok: true}
	methods := []string{"POST", "GET", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "TRACE", "CONNECT", "", "post", "Post", "POST ", "get"}
	cts := []string{formCT, formCT + "; charset=utf-8", "Application/X-WWW-Form-Urlencoded", "", "application/json", "text/plain", "application/octet-stream", formCT + "x", formCT + "; =", "multipart/form-data; boundary=x"}
	order := []string{"authorization", "token", "introspection", "revocation"}
	var jobs []func()
	add := func(key string, f func() (string, bool)) {
		jobs = append(jobs, func() {
			if c.stopped() {
				return
			}
			var nt bool
			c.Case(key, false, func() string { var m string; m, nt = f(); return m })
			if nt {
				c.nontrivial.add(key)
			}
		})
	}
	for _, kind := range order {
		names := kinds[kind]
		auths := authCases()
		pl := map[string][]pv{}
		for _, n := range names {
			pl[n] = placementsOf(n, value[n], kind == "authorization")
		}
		// methods x content types x headers x uniform placement
		for _, m := range methods {
			for _, ct := range cts {
				for _, a := range auths {
					for p := range pl[names[0]] {
						for _, nb := range []bool{false, true} {
							add(fmt.Sprintf("%s %q %q %s all=%d nobody=%v", kind, m, ct, a.name, p, nb), func() (string, bool) {
								ps := map[string]pv{}
								for _, n := range names {
									ps[n] = pl[n][p]
								}
								return requestCase(kind, m, ct, nb, a, ps, uri)
							})
						}
					}
				}
			}
		}
		// products of placements
		deg := 3
		if kind == "authorization" || c.thorough() {
			deg = 5
			if kind == "token" {
				deg = 4
			}
		}
		if deg > len(names) {
			deg = len(names)
		}
		var subset func(start int, cur []int)
		subset = func(start int, cur []int) {
			if len(cur) == deg {
				var prod func(i int, ps map[string]pv, key string)
				prod = func(i int, ps map[string]pv, key string) {
					if i == deg {
						cp := map[string]pv{}
						for k, v := range ps {
							cp[k] = v
						}
						for _, a := range auths[:3] {
							for _, m := range []string{"POST", "GET"} {
								if m == "GET" && (kind != "authorization" || a.name != "none") {
									continue
								}
								add(fmt.Sprintf("%s %s %s%s", kind, m, a.name, key), func() (string, bool) { return requestCase(kind, m, formCT, false, a, cp, uri) })
							}
						}
						return
					}
					n := names[cur[i]]
					for p := range pl[n] {
						ps[n] = pl[n][p]
						prod(i+1, ps, fmt.Sprintf("%s %s=%d", key, n, p))
					}
					ps[n] = pl[n][0]
				}
				for _, def := range []int{0} {
					ps := map[string]pv{}
					for _, n := range names {
						ps[n] = pl[n][def]
					}
					prod(0, ps, "")
				}
				return
			}
			for i := start; i < len(names); i++ {
				subset(i+1, append(append([]int{}, cur...), i))
			}
		}
		subset(0, nil)
		// hostile values
		for _, n := range names {
			if n == "redirect_uri" {
				continue
			}
			for _, v := range hostileBytes() {
				for p := 0; p < 8; p++ {
					for _, a := range auths[:2] {
						if n == "scope" && strings.ContainsAny(v, "\r\n\u00a0\u2028\x00") {
							continue // blanks other than the space: C18
						}
						add(fmt.Sprintf("%s %s value %q at %d %s", kind, n, v, p, a.name), func() (string, bool) {
							ps := map[string]pv{}
							for _, m := range names {
								ps[m] = pl[m][0]
							}
							ps[n] = placementsOf(n, v, kind == "authorization")[p]
							return requestCase(kind, "POST", formCT, false, a, ps, uri)
						})
					}
				}
			}
		}
		// forms that cannot be read, complete otherwise
		for _, bad := range unreadable {
			for pos := 0; pos <= len(names); pos++ {
				for _, place := range []string{"body", "query of POST", "query of GET"} {
					if place != "body" && kind != "authorization" {
						continue
					}
					for _, a := range auths[:2] {
						if a.name == "none" && (kind == "introspection" || kind == "revocation") {
							continue // refused anyway
						}
						add(fmt.Sprintf("%s unreadable %q at %d in %s %s", kind, bad, pos, place, a.name), func() (string, bool) {
							var l []string
							for i, n := range names {
								if i == pos {
									l = append(l, bad)
								}
								l = append(l, form(n, value[n]))
							}
							if pos == len(names) {
								l = append(l, bad)
							}
							text := strings.Join(l, "&")
							q := Req{Method: "POST", Path: "/x", CT: formCT, HasA: a.has, Auth: a.h, Body: text}
							switch place {
							case "query of POST":
								q.Query, q.Body = text, ""
							case "query of GET":
								q.Method, q.Query, q.Body, q.NoBody = "GET", text, "", true
							}
							return mustNotParse(kind, q.http()), true
						})
					}
				}
			}
		}
		// what a request arrives with beside its method, form and credentials
		for _, a := range auths[:2] {
			for miss := -1; miss < len(names); miss++ {
				for _, m := range []string{"POST", "GET", "PUT"} {
					mk := func() Req {
						var kv []string
						for i, n := range names {
							if i != miss {
								kv = append(kv, n, value[n])
							}
						}
						q := Req{Method: m, Path: "/x", CT: formCT, HasA: a.has, Auth: a.h, Body: form(kv...)}
						if m == "GET" {
							q.Query, q.Body, q.NoBody = q.Body, "", true
						}
						return q
					}
					read := func(q Req) string {
						got, scope, err, nilReq := parseAs(kind, q.http())
						return fmt.Sprintf("%v %v %v %v", got, scope, err, nilReq)
					}
					try := func(name string, f func(q *Req)) {
						add(fmt.Sprintf("%s %s %s without #%d, with %s", kind, m, a.name, miss, name), func() (string, bool) {
							q := mk()
							want := read(q)
							f(&q)
							if got := read(q); got != want {
								return fmt.Sprintf("read as %s, without it as %s", got, want), true
							}
							return "", true
						})
					}
					for _, x := range circumstances {
						if strings.HasPrefix(x.name, "lower case") && !a.has {
							continue
						}
						try(x.name, func(q *Req) { q.Circ = x.name })
					}
					for _, h := range strayHeaders {
						try(h[0]+": "+h[1], func(q *Req) { q.HX = append(q.HX, h) })
					}
				}
			}
		}
		for _, n := range []int{0, 1, 2, 40, 10000} {
			for _, e := range []error{io.ErrUnexpectedEOF, errors.New("connection reset"), http.ErrBodyReadAfterClose, &http.MaxBytesError{Limit: 1}} {
				for _, a := range auths[:2] {
					add(fmt.Sprintf("%s broken %d %v %s", kind, n, e, a.name), func() (string, bool) {
						var kv []string
						for _, n := range names {
							kv = append(kv, n, value[n])
						}
						text := form(kv...)
						q := Req{Method: "POST", Path: "/x", CT: formCT, HasA: a.has, Auth: a.h, Body: text}
						r := q.http()
						r.Body = io.NopCloser(io.MultiReader(strings.NewReader(text[:min(n, len(text))]), errReader{e}))
						if kind == "authorization" && a.name == "none" { // complete in the query
							r.URL.RawQuery = text
						}
						return mustNotParse(kind, r), true
					})
				}
			}
		}
		// redirect URIs
		if kind == "authorization" || kind == "token" {
			for _, u := range uriMenu() {
				for p := 0; p < 8; p++ {
					for _, a := range auths[:2] {
						m := "POST"
						add(fmt.Sprintf("%s redirect_uri %q at %d %s", kind, u.wire, p, a.name), func() (string, bool) {
							ps := map[string]pv{}
							for _, n := range names {
								ps[n] = pl[n][0]
							}
							ps["redirect_uri"] = placementsOf("redirect_uri", u.wire, kind == "authorization")[p]
							return requestCase(kind, m, formCT, false, a, ps, &u)
						})
					}
				}
			}
		}
	}
	// redirect URIs with escapes, encoded once as the standard has it. What is
	// understood is part of the case, so that a known deviation is recognised
	// by its exact effect only.
	for _, kind := range order[:2] {
		for _, u := range redirects() {
			jobs = append(jobs, func() {
				q := Req{Method: "POST", Path: "/x", CT: formCT, HasA: true, Auth: basic("cid", "cs")}
				var kv []string
				for _, n := range kinds[kind] {
					if n == "redirect_uri" {
						kv = append(kv, n, u)
					} else {
						kv = append(kv, n, value[n])
					}
				}
				q.Body = form(kv...)
				got, _, err, _ := parseAs(kind, q.http())
				out := fmt.Sprintf("understood as %q", got["redirect_uri"])
				if err != nil {
					out = "refused: " + err.Error()
				}
				c.Case(fmt.Sprintf("%s redirect_uri %q encoded once, %s", kind, u, out), true, func() string {
					if err != nil || got["redirect_uri"] != u {
						return out
					}
					return ""
				})
			})
		}
	}
	c.parallel(len(jobs), func(i int) { jobs[i]() })
}

// --------------------------------------------------------------------- C21

func asResponse(rec *recorder) *http.Response {
	r := rec.resp()
	return &http.Response{StatusCode: r.Code, Status: fmt.Sprintf("%d x", r.Code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: r.H, Body: io.NopCloser(strings.NewReader(r.Body)), ContentLength: int64(len(r.Body))}
}

func TestC21(t *testing.T) {
	c := newCheck(t, "C21", "exploration",
		"token responses, introspection responses and errors: every presence combination of their fields and every choice of up to 2 fields (thorough 3) taking any of ~24 hostile values, over several statuses and limits, written by the library, compared member by member with an independent reading of the JSON, and parsed by the library. Non-trivial: every case.")
	defer c.finish()
	h := append(anys(hostile()), strings.Repeat("0123456789abcdef", 300))
	var sc []any
	for _, x := range scopes() {
		sc = append(sc, x)
	}
	k := 2
	if c.thorough() {
		k = 3
	}
	var batch [][]any
	flush := func(run func(vals []any)) {
		b := batch
		batch = nil
		c.parallel(len(b), func(i int) {
			if !c.stopped() {
				run(b[i])
			}
		})
	}
	collect := func(fields []field, run func(vals []any)) {
		assignments(fields, k, func(v []any) {
			batch = append(batch, v)
			if len(batch) >= 1<<18 {
				flush(run)
			}
		})
		flush(run)
	}
	members := func(body string, want map[string]any, required ...string) string {
		var m map[string]any
		dec := json.NewDecoder(strings.NewReader(body))
		dec.UseNumber()
		if err := dec.Decode(&m); err != nil {
			return "not a JSON document: " + body
		}
		for k, v := range m {
			w, ok := want[k]
			if !ok {
				return fmt.Sprintf("unexpected member %s=%v", k, v)
			}
			a, _ := json.Marshal(v)
			b, _ := json.Marshal(w)
			if string(a) != string(b) {
				return fmt.Sprintf("member %s is %s, want %s", k, a, b)
			}
		}
		for k, v := range want {
			if _, ok := m[k]; !ok {
				return fmt.Sprintf("member %s=%v is missing in %s", k, v, body)
			}
		}
		return ""
	}
	put := func(m map[string]any, k string, v any) {
		switch x := v.(type) {
		case string:
			if x == "" {
				return
			}
		case oauth2.Scope:
			if len(x) == 0 {
				return
			}
			v = strings.Join(x, " ")
		case int64:
			if x == 0 {
				return
			}
		case nil:
			return
		}
		m[k] = v
	}
	ints := []any{3600, 1, -1, 1 << 31, 1<<53 - 1, 1<<53 + 1, math.MaxInt64}
	i64 := []any{int64(1700000000), int64(1), int64(-5), int64(1 << 53), int64(1<<53 + 1), int64(math.MaxInt64), int64(math.MinInt64)}
	collect([]field{{"TokenType", append([]any{"bearer"}, h...)}, {"AccessToken", h}, {"ExpiresIn", ints}, {"RefreshToken", h}, {"Scope", sc}, {"State", h}}, func(v []any) {
		scv, _ := v[4].(oauth2.Scope)
		exp, _ := v[2].(int)
		c.Case(fmt.Sprintf("token %q", v), true, func() string {
			in := oauth2.NewTokenResponse(s(v[0]), s(v[1]), exp)
			in.RefreshToken, in.Scope, in.State = s(v[3]), append(oauth2.Scope(nil), scv...), s(v[5])
			rec := newRecorder()
			if err := oauth2.WriteTokenResponse(rec, in); err != nil {
				return "writing failed: " + err.Error()
			}
			want := map[string]any{"token_type": s(v[0]), "access_token": s(v[1]), "expires_in": exp}
			put(want, "refresh_token", s(v[3]))
			put(want, "scope", scv)
			put(want, "state", s(v[5]))
			r := rec.resp()
			if r.Code != 200 {
				return fmt.Sprint("status ", r.Code)
			}
			if msg := members(r.Body, want); msg != "" {
				return msg
			}
			for _, lim := range []int64{int64(len(r.Body)), int64(len(r.Body)) + 1, 1 << 20} {
				out, err := oauth2.ParseTokenResponse(asResponse(rec), lim)
				if err != nil || out == nil {
					return fmt.Sprintf("not understood: %v", err)
				}
				if len(out.Scope) == 0 {
					out.Scope = nil
				}
				if len(scv) == 0 {
					in.Scope = nil
				}
				if !reflect.DeepEqual(*out, *in) {
					return fmt.Sprintf("understood as %q, sent %q", *out, *in)
				}
			}
			return ""
		})
	})
	extra := []any{map[string]interface{}{"k": "v"}, map[string]interface{}{"n": 1.5, "b": false, "z": nil, "l": []interface{}{"a", 2.0, nil}, "m": map[string]interface{}{"x": "ü\"<"}}, map[string]interface{}{"active": false, "": ""}, map[string]interface{}{"&=%+ ": "\u2028\x00"}}
	for _, active := range []bool{true, false} {
		collect([]field{{"Scope", sc}, {"ClientID", h}, {"Username", h}, {"TokenType", append([]any{"access_token", "refresh_token", "", "Access_token", "access_token ", "bearer"}, h...)}, {"ExpiresAt", i64}, {"IssuedAt", i64}, {"NotBefore", i64}, {"Subject", h}, {"Audience", h}, {"Issuer", h}, {"Identifier", h}, {"Extra", extra}}, func(v []any) {
			scv, _ := v[0].(oauth2.Scope)
			n := func(i int) int64 { x, _ := v[i].(int64); return x }
			ex, _ := v[11].(map[string]interface{})
			c.Case(fmt.Sprintf("introspection %v %q", active, v), true, func() string {
				in := oauth2.NewIntrospectionResponse(active, append(oauth2.Scope(nil), scv...), s(v[1]), s(v[2]), s(v[3]))
				in.ExpiresAt, in.IssuedAt, in.NotBefore, in.Subject, in.Audience, in.Issuer, in.Identifier, in.Extra = n(4), n(5), n(6), s(v[7]), s(v[8]), s(v[9]), s(v[10]), ex
				rec := newRecorder()
				err := oauth2.WriteIntrospectionResponse(rec, in)
				if active && in.TokenType != "access_token" && in.TokenType != "refresh_token" {
					if err == nil || rec.writes != 0 || len(rec.body) > 0 {
						return "an active token of unknown type was reported"
					}
					return ""
				}
				if err != nil {
					return "writing failed: " + err.Error()
				}
				want := map[string]any{"active": active}
				put(want, "scope", scv)
				for i, k := range map[int]string{1: "client_id", 2: "username", 3: "token_type", 4: "exp", 5: "iat", 6: "nbf", 7: "sub", 8: "aud", 9: "iss", 10: "jti"} {
					put(want, k, v[i])
				}
				if len(ex) > 0 {
					want["extra"] = ex
				}
				r := rec.resp()
				if r.Code != 200 {
					return fmt.Sprint("status ", r.Code)
				}
				if msg := members(r.Body, want); msg != "" {
					return msg
				}
				for _, lim := range []int64{int64(len(r.Body)), 1 << 20} {
					out, err := oauth2.ParseIntrospectionResponse(asResponse(rec), lim)
					if err != nil || out == nil {
						return fmt.Sprintf("not understood: %v", err)
					}
					if len(out.Scope) == 0 {
						out.Scope = nil
					}
					if len(scv) == 0 {
						in.Scope = nil
					}
					if !reflect.DeepEqual(*out, *in) {
						return fmt.Sprintf("understood as %#v, sent %#v", *out, *in)
					}
				}
				return ""
			})
		})
	}
	st := []any{400, 401, 403, 404, 429, 500, 502, 503, 599, 302, 201}
	collect([]field{{"Name", append([]any{"invalid_request", "invalid_grant"}, h...)}, {"State", h}, {"Scope", sc}, {"Realm", h}, {"Description", h}, {"URI", h}, {"Status", st}}, func(v []any) {
		scv, _ := v[2].(oauth2.Scope)
		status, _ := v[6].(int)
		if status == 0 {
			status = 400
		}
		c.Case(fmt.Sprintf("error %q", v), true, func() string {
			in := &oauth2.Error{Name: s(v[0]), State: s(v[1]), Scope: append(oauth2.Scope(nil), scv...), Realm: s(v[3]), Description: s(v[4]), URI: s(v[5]), Status: status, Headers: map[string]string{"X-Extra": "1"}}
			rec := newRecorder()
			if err := oauth2.WriteError(rec, in); err != nil {
				return "writing failed: " + err.Error()
			}
			want := map[string]any{"error": s(v[0])}
			for i, k := range map[int]string{1: "state", 3: "realm", 4: "error_description", 5: "error_uri"} {
				put(want, k, v[i])
			}
			put(want, "scope", scv)
			r := rec.resp()
			if r.Code != status || r.H.Get("X-Extra") != "1" {
				return fmt.Sprintf("written with status %d and headers %v", r.Code, r.H)
			}
			if msg := members(r.Body, want); msg != "" {
				return msg
			}
			for _, lim := range []int64{int64(len(r.Body)), 1 << 20} {
				err := oauth2.ParseRequestError(asResponse(rec), lim)
				out, ok := err.(*oauth2.Error)
				if !ok {
					return fmt.Sprintf("not understood: %v", err)
				}
				if out.Name != in.Name || out.State != in.State || out.Realm != in.Realm || out.Description != in.Description || out.URI != in.URI || out.Status != status || !reflect.DeepEqual(append([]string{}, out.Scope...), append([]string{}, scv...)) {
					return fmt.Sprintf("understood as %+v, sent %+v", out, in)
				}
			}
			return ""
		})
	})
}

// --------------------------------------------------------------------- C22

// loc is a URI split by RFC 3986, nothing decoded.
type loc struct{ scheme, rest, query, fragment string }

func splitURI(u string) loc {
	var l loc
	if i := strings.IndexByte(u, '#'); i >= 0 {
		u, l.fragment = u[:i], u[i+1:]
	}
	if i := strings.IndexByte(u, '?'); i >= 0 {
		u, l.query = u[:i], u[i+1:]
	}
	if i := strings.IndexByte(u, ':'); i >= 0 {
		l.scheme, u = u[:i], u[i+1:]
	}
	l.rest = u
	return l
}

// looseDecode decodes a query the way recipients do: pair by pair, undecodable
// pairs are kept as they are.
func looseDecode(q string) (out [][2]string) {
	for _, part := range strings.Split(q, "&") {
		if part == "" {
			continue
		}
		k, v, _ := strings.Cut(part, "=")
		if d, ok := pctDecode(k); ok {
			k = d
		}
		if d, ok := pctDecode(v); ok {
			v = d
		}
		out = append(out, [2]string{k, v})
	}
	return
}

// redirectOracle judges a redirect to target with the given parameters.
func redirectOracle(rec *recorder, target string, want kvs, frag bool) string {
	r := rec.resp()
	if r.Code != 303 || r.Writes != 1 {
		return fmt.Sprintf("status %d, %d writes", r.Code, r.Writes)
	}
	if r.Body != "" {
		return "redirect with a body"
	}
	ls := r.H["Location"]
	if len(ls) != 1 {
		return fmt.Sprintf("%d Location headers", len(ls))
	}
	if len(r.H) != 4 && len(r.H) != 5 {
		return fmt.Sprintf("unexpected headers %v", r.H)
	}
	for i := 0; i < len(ls[0]); i++ {
		if b := ls[0][i]; b <= ' ' || b >= 0x7f {
			return fmt.Sprintf("Location %q contains the byte %#x", ls[0], b)
		}
	}
	got, t := splitURI(ls[0]), splitURI(target)
	norm := func(s string) string { // escape what must not appear raw
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] <= ' ' || s[i] >= 0x7f || strings.IndexByte("\"<>\\^`{|}", s[i]) >= 0 {
				fmt.Fprintf(&b, "%%%02X", s[i])
			} else {
				b.WriteByte(s[i])
			}
		}
		return b.String()
	}
	if !strings.EqualFold(got.scheme, t.scheme) || got.rest != norm(t.rest) {
		return fmt.Sprintf("redirected to %q, the target is %q", ls[0], target)
	}
	var exp, old []string
	exp = append(exp, wantPairs(want)...)
	old = sortedPairs(looseDecode(t.query))
	if frag {
		if got.query != t.query {
			return fmt.Sprintf("the query became %q, it was %q", got.query, t.query)
		}
		kv, ok := formDecode(got.fragment)
		if !ok {
			return fmt.Sprintf("malformed fragment %q", got.fragment)
		}
		if !reflect.DeepEqual(sortedPairs(kv), nilIfEmpty(exp)) {
			return fmt.Sprintf("fragment %q carries %v, want %v", got.fragment, sortedPairs(kv), exp)
		}
		return ""
	}
	if got.fragment != "" || strings.Contains(ls[0], "#") {
		return "unexpected fragment in " + ls[0]
	}
	exp = append(exp, old...)
	sort.Strings(exp)
	if g := sortedPairs(looseDecode(got.query)); !reflect.DeepEqual(g, nilIfEmpty(exp)) {
		return fmt.Sprintf("query %q carries %v, want %v", got.query, g, exp)
	}
	return ""
}

func nilIfEmpty(l []string) []string {
	if len(l) == 0 {
		return nil
	}
	return l
}

func targets() []string {
	var ascii []string
	for _, u := range redirects() {
		if !strings.Contains(u, "ö") { // not a URI by RFC 3986
			ascii = append(ascii, u)
		}
	}
	return append(ascii, "https://c.example.com/ü", "https://c.example.com", "https://c.example.com?x=1", "https://c.example.com/?", "https://c.example.com/cb?a=1&a=2&b=", "https://c.example.com/cb?flag", "https://c.example.com/cb?state=old&code=old", "https://c.example.com/%2e%2e/%41?%41=%42", "urn:x:y", "urn:x:y?z=1", "https://c.example.com/a;b?c=d", "https://c.example.com/cb?=v&&k", "HTTPS://c.example.com/cb", "https://c.example.com/cb?x=a%00b%0d%0a", "https://c.example.com//double//", "https://c.example.com/cb?a=1;b=2", "https://c.example.com/cb?a=%zz", "https://c.example.com/cb?a=b%&c=d",
		"https://c.example.com:443/cb", "http://c.example.com:80", "https://C.Example.COM/CB", "https://c.example.com./", "https://c.example.com:/cb", "https://c.example.com/cb/", "https://c.example.com/cb/?a=b", "https://c.example.com/./a/../cb", "http://127.0.0.1:51234/cb", "https://c.example.com/"+longText(1, 3000), "https://c.example.com/cb?a="+longText(2, 3000), "https://xn--mnchen-3ya.example/cb", "https://c.example.com/a/index.html", "https://www.c.example.com/cb?", "https://c.example.com/cb?&")
}

func badTargets() []string {
	return []string{"", "foo", "http://[::1", "https://c.example.com/%zz", "https://c.example.com/\x7f", "https://c.example.com/\r\nX: y", ":", "1x://y", "https://exa mple.com/", "https://c.example.com:port/", "cb?x=1"}
}

func TestC22(t *testing.T) {
	c := newCheck(t, "C22", "exploration",
		"every parameter map with up to 2 entries (thorough 3) over ~24 hostile keys and values x ~29 targets x query/fragment; and code, token and error responses with every hostile value of every field, every presence combination; unusable targets; decoded by an independent RFC 3986 / form decoder. Non-trivial: every case.")
	defer c.finish()
	type job func()
	var jobs []job
	hv := hostile()
	keys := append([]string{"code", "state", "error_description", "a"}, hv[1:19]...)
	do := func(key string, target string, params kvs, frag bool) {
		jobs = append(jobs, func() {
			if c.stopped() {
				return
			}
			c.Case(key, true, func() string {
				rec := newRecorder()
				arg := map[string]string{}
				for k, v := range params {
					arg[k] = v
				}
				if err := oauth2.WriteRedirect(rec, target, arg, frag); err != nil {
					return "writing failed: " + err.Error()
				}
				if !reflect.DeepEqual(arg, map[string]string(params)) {
					return "the parameters were changed"
				}
				return redirectOracle(rec, target, params, frag)
			})
		})
	}
	for ti, target := range targets() {
		for _, frag := range []bool{false, true} {
			do(fmt.Sprintf("redirect %q frag=%v none", target, frag), target, kvs{}, frag)
			for _, k := range keys {
				for _, v := range append(hostileBytes(), "") {
					do(fmt.Sprintf("redirect %q frag=%v %q=%q", target, frag, k, v), target, kvs{k: v}, frag)
				}
			}
			if ti > 4 && !c.thorough() {
				continue
			}
			for _, v1 := range hv {
				for _, v2 := range hv {
					do(fmt.Sprintf("redirect %q frag=%v code=%q state=%q", target, frag, v1, v2), target, kvs{"code": v1, "state": v2}, frag)
					if v1 != v2 {
						do(fmt.Sprintf("redirect %q frag=%v %q=1 %q=2", target, frag, v1, v2), target, kvs{v1: "1", v2: "2"}, frag)
					}
					if c.thorough() && ti < 3 {
						for _, v3 := range hv {
							do(fmt.Sprintf("redirect %q frag=%v %q %q %q", target, frag, v1, v2, v3), target, kvs{"code": v1, "state": v2, "a&": v3}, frag)
						}
					}
				}
			}
		}
	}
	for _, target := range badTargets() {
		for _, frag := range []bool{false, true} {
			for wi, write := range []func(w http.ResponseWriter) error{
				func(w http.ResponseWriter) error {
					return oauth2.WriteRedirect(w, target, map[string]string{"a": "b"}, frag)
				},
				func(w http.ResponseWriter) error {
					return oauth2.WriteCodeResponse(w, oauth2.NewCodeResponse("code", target, "s"))
				},
				func(w http.ResponseWriter) error {
					return oauth2.WriteTokenResponse(w, oauth2.NewBearerTokenResponse("tok", 1).SetRedirect(target, "s"))
				},
				func(w http.ResponseWriter) error {
					return oauth2.WriteError(w, oauth2.AccessDenied("").SetRedirect(target, "s", frag))
				},
			} {
				if target == "" && wi >= 2 {
					continue // not marked for redirection
				}
				jobs = append(jobs, func() {
					c.Case(fmt.Sprintf("bad target %q frag=%v writer %d", target, frag, wi), true, func() string {
						rec := newRecorder()
						if err := write(rec); err == nil {
							return "no error for an unusable target"
						}
						if rec.writes != 0 || len(rec.body) > 0 || rec.h.Get("Location") != "" {
							return fmt.Sprintf("something was written: %v %v", rec.code, rec.h)
						}
						return ""
					})
				})
			}
		}
	}
	// responses
	all := append([]string{""}, hostileBytes()...)
	set := func(m kvs, k, v string) {
		if v != "" {
			m[k] = v
		}
	}
	for ti, target := range targets() {
		for _, v := range all {
			for _, st := range all {
				if ti > 3 && v != st && !c.thorough() {
					continue
				}
				jobs = append(jobs, func() {
					if c.stopped() {
						return
					}
					c.Case(fmt.Sprintf("code %q code=%q state=%q", target, v, st), true, func() string {
						rec := newRecorder()
						if err := oauth2.WriteCodeResponse(rec, oauth2.NewCodeResponse(v, target, st)); err != nil {
							return err.Error()
						}
						want := kvs{"code": v}
						set(want, "state", st)
						return redirectOracle(rec, target, want, false)
					})
					for _, sc := range append(scopes(), nil) {
						c.Case(fmt.Sprintf("token %q token=%q state=%q scope=%q", target, v, st, sc), true, func() string {
							rec := newRecorder()
							tr := oauth2.NewTokenResponse("bearer", v, 3600)
							tr.Scope, tr.RefreshToken = sc, st
							if err := oauth2.WriteTokenResponse(rec, tr.SetRedirect(target, st)); err != nil {
								return err.Error()
							}
							want := kvs{"token_type": "bearer", "access_token": v, "expires_in": "3600"}
							set(want, "state", st)
							set(want, "refresh_token", st)
							if sc != nil {
								want["scope"] = strings.Join(sc, " ")
							}
							return redirectOracle(rec, target, want, true)
						})
						for _, frag := range []bool{false, true} {
							c.Case(fmt.Sprintf("error %q desc=%q state=%q scope=%q frag=%v", target, v, st, sc, frag), true, func() string {
								rec := newRecorder()
								e := oauth2.InvalidScope(v).SetRedirect(target, st, frag)
								e.Scope, e.Realm, e.URI = sc, v, st
								if err := oauth2.WriteError(rec, e); err != nil {
									return err.Error()
								}
								want := kvs{"error": "invalid_scope"}
								set(want, "state", st)
								set(want, "error_description", v)
								set(want, "realm", v)
								set(want, "error_uri", st)
								set(want, "scope", strings.Join(sc, " "))
								return redirectOracle(rec, target, want, frag)
							})
						}
					}
				})
			}
		}
	}
	c.parallel(len(jobs), func(i int) { jobs[i]() })
}

// --------------------------------------------------------------------- C23

type errKind struct {
	name    string
	mk      func(desc string) *oauth2.Error
	status  int
	basic   bool
	hasDesc bool
}

func errKinds() []errKind {
	return []errKind{
		{"invalid_request", oauth2.InvalidRequest, 400, false, true},
		{"invalid_client", oauth2.InvalidClient, 401, true, true},
		{"invalid_grant", oauth2.InvalidGrant, 400, false, true},
		{"invalid_scope", oauth2.InvalidScope, 400, false, true},
		{"invalid_token", oauth2.InvalidToken, 401, false, true},
		{"unauthorized_client", oauth2.UnauthorizedClient, 400, false, true},
		{"unsupported_grant_type", oauth2.UnsupportedGrantType, 400, false, true},
		{"unsupported_response_type", oauth2.UnsupportedResponseType, 400, false, true},
		{"unsupported_token_type", oauth2.UnsupportedTokenType, 400, false, true},
		{"access_denied", oauth2.AccessDenied, 403, false, true},
		{"server_error", oauth2.ServerError, 500, false, true},
		{"temporarily_unavailable", oauth2.TemporarilyUnavailable, 503, false, true},
		{"", func(string) *oauth2.Error { return oauth2.ProtectedResource() }, 401, false, false},
		{"insufficient_scope", func(string) *oauth2.Error { return oauth2.InsufficientScope(nil) }, 403, false, false},
	}
}

// challengeParams reads a challenge by RFC 7235: scheme, then name="value"
// pairs separated by commas.
func challengeParams(h string) (scheme string, kv [][2]string, ok bool) {
	scheme, rest, found := strings.Cut(h, " ")
	if !found {
		return scheme, nil, true
	}
	for {
		rest = strings.TrimLeft(rest, " \t,")
		if rest == "" {
			return scheme, kv, true
		}
		k, r, found := strings.Cut(rest, "=")
		if !found || k == "" || strings.ContainsAny(k, " \t\",") || !strings.HasPrefix(r, `"`) {
			return scheme, kv, false
		}
		r = r[1:]
		var v strings.Builder
		for {
			if r == "" {
				return scheme, kv, false
			}
			ch := r[0]
			r = r[1:]
			if ch == '"' {
				break
			}
			if ch == '\\' {
				if r == "" {
					return scheme, kv, false
				}
				ch = r[0]
				r = r[1:]
			}
			v.WriteByte(ch)
		}
		kv = append(kv, [2]string{k, v.String()})
		rest = strings.TrimLeft(r, " \t")
		if rest != "" && rest[0] != ',' {
			return scheme, kv, false
		}
	}
}

type foreignErr struct{ s string }

func (f *foreignErr) Error() string { return f.s }

func TestC23(t *testing.T) {
	c := newCheck(t, "C23", "exploration",
		"every error constructor x every presence combination and every choice of up to 2 optional fields over a menu of RFC 6749 texts x plain / bearer / redirect in query and fragment; foreign errors of several types through all writers; the JSON, the challenge (independent RFC 7235 reader) and the redirect compared with the error's fields. Non-trivial: every case.")
	c.assume = []string{"texts in challenges are within RFC 6749's character set (no quotes, backslashes, control characters)", "an OAuth error wrapped in another error may be reported as itself or as a server error"}
	defer c.finish()
	txt := []any{"some text", "a, b", "k=v", "error=invalid_token, scope=x", "%41 + &", "(~!#$'*;:<>?@[]^_`{|})", "/path", " ", strings.Repeat("x", 300), "realm", ","}
	fields := []field{{"desc", txt}, {"scope", []any{oauth2.Scope{"foo"}, oauth2.Scope{"foo", "bar"}, oauth2.Scope{"a,b", "c=d", "x:y"}}}, {"realm", txt}, {"uri", append([]any{"https://e.example/x?y=1#z"}, txt...)}, {"state", txt}}
	k := 2
	if c.thorough() {
		k = 3
	}
	var list [][]any
	assignments(fields, k, func(v []any) { list = append(list, v) })
	kinds := errKinds()
	c.parallel(len(kinds)*len(list), func(i int) {
		if c.stopped() {
			return
		}
		ek, v := kinds[i%len(kinds)], list[i/len(kinds)]
		scv, _ := v[1].(oauth2.Scope)
		mk := func() *oauth2.Error {
			e := ek.mk(s(v[0]))
			if !ek.hasDesc {
				e.Description = s(v[0])
			}
			e.Scope, e.Realm, e.URI, e.State = scv, s(v[2]), s(v[3]), s(v[4])
			return e
		}
		want := kvs{}
		set := func(k, v string) {
			if v != "" {
				want[k] = v
			}
		}
		set("error", ek.name)
		set("error_description", s(v[0]))
		set("scope", strings.Join(scv, " "))
		set("realm", s(v[2]))
		set("error_uri", s(v[3]))
		set("state", s(v[4]))
		base := fmt.Sprintf("%s %q", ek.name, v)
		basicOK := func(h http.Header) string {
			a := h["Www-Authenticate"]
			if !ek.basic {
				if len(a) != 0 {
					return fmt.Sprintf("unexpected challenge %q", a)
				}
				return ""
			}
			if len(a) != 1 {
				return fmt.Sprintf("challenges %q", a)
			}
			scheme, kv, ok := challengeParams(a[0])
			realm, n := lookup(kv, "realm")
			if !ok || scheme != "Basic" || n != 1 || realm == "" {
				return fmt.Sprintf("bad Basic challenge %q", a[0])
			}
			return ""
		}
		c.Case("plain "+base, true, func() string {
			e := mk()
			if e.Status != ek.status || e.Name != ek.name {
				return fmt.Sprintf("constructed as %d %q", e.Status, e.Name)
			}
			if ek.hasDesc && ek.mk(s(v[0])).Description != s(v[0]) {
				return "description lost"
			}
			rec := newRecorder()
			if err := oauth2.WriteError(rec, e); err != nil {
				return err.Error()
			}
			r := rec.resp()
			if r.Code != ek.status || r.Writes != 1 {
				return fmt.Sprintf("status %d, %d writes", r.Code, r.Writes)
			}
			var m map[string]any
			if json.Unmarshal([]byte(r.Body), &m) != nil || !strings.HasPrefix(r.H.Get("Content-Type"), "application/json") {
				return "not JSON: " + r.String()
			}
			for k, w := range want {
				if m[k] != w {
					return fmt.Sprintf("member %s is %v, want %q", k, m[k], w)
				}
			}
			for k, g := range m {
				if want[k] == "" && g != "" {
					return fmt.Sprintf("unexpected member %s=%v", k, g)
				}
			}
			return basicOK(r.H)
		})
		c.Case("bearer "+base, true, func() string {
			rec := newRecorder()
			if err := oauth2.WriteBearerError(rec, mk()); err != nil {
				return err.Error()
			}
			r := rec.resp()
			if r.Code != ek.status || r.Writes != 1 || r.Body != "" {
				return fmt.Sprintf("answered %s with %d writes", r, r.Writes)
			}
			a := r.H["Www-Authenticate"]
			if ek.status == 500 {
				if fmt.Sprint(r.H) != "map[]" {
					return fmt.Sprintf("a server error carries headers %v", r.H)
				}
				return ""
			}
			if len(a) != 1 || len(r.H) != 1 {
				return fmt.Sprintf("headers %v", r.H)
			}
			scheme, kv, ok := challengeParams(a[0])
			if !ok || scheme != "Bearer" {
				return fmt.Sprintf("malformed challenge %q", a[0])
			}
			w := wantPairs(want)
			if len(w) == 0 {
				if len(kv) != 1 || kv[0][0] != "realm" || kv[0][1] == "" {
					return fmt.Sprintf("challenge %q carries no realm", a[0])
				}
				return ""
			}
			if g := sortedPairs(kv); !reflect.DeepEqual(g, w) {
				return fmt.Sprintf("challenge %q carries %v, want %v", a[0], g, w)
			}
			return ""
		})
		for _, frag := range []bool{false, true} {
			for _, target := range []string{"https://c.example.com/cb", "https://c.example.com/cb?t=1"} {
				c.Case(fmt.Sprintf("redirect frag=%v %s %s", frag, target, base), true, func() string {
					e := ek.mk(s(v[0]))
					e.Description, e.Scope, e.Realm, e.URI = s(v[0]), scv, s(v[2]), s(v[3])
					st := e.Status
					if x := e.SetRedirect(target, s(v[4]), frag); x != e {
						return "SetRedirect returned another error"
					}
					if e.Status != st {
						return "SetRedirect changed the status"
					}
					rec := newRecorder()
					if err := oauth2.WriteError(rec, e); err != nil {
						return err.Error()
					}
					if msg := redirectOracle(rec, target, want, frag); msg != "" {
						return msg
					}
					return basicOK(rec.resp().H)
				})
			}
		}
	})
	// foreign errors
	secret := "dsn=user:hunter2@db password=sesame"
	foreign := map[string]error{
		"errors.New": errors.New(secret), "custom": &foreignErr{secret}, "joined": errors.Join(errors.New(secret), io.EOF),
		"url": &url.Error{Op: "get", URL: secret, Err: io.EOF}, "json": &json.SyntaxError{Offset: 3}, "nil": nil,
	}
	for n, e := range foreign {
		c.Case("foreign "+n, true, func() string {
			rec := newRecorder()
			if err := oauth2.WriteError(rec, e); err != nil {
				return err.Error()
			}
			r := rec.resp()
			if r.Code != 500 || r.err() != "server_error" || r.Writes != 1 {
				return "answered " + r.String()
			}
			if len(r.json()) != 1 {
				return "more than the error name: " + r.Body
			}
			if strings.Contains(fmt.Sprint(r.H)+r.Body, "hunter2") {
				return "the original error is revealed"
			}
			rec = newRecorder()
			if err := oauth2.WriteBearerError(rec, e); err != nil {
				return err.Error()
			}
			r = rec.resp()
			if r.Code != 500 || r.Body != "" || r.Writes != 1 || len(r.H) != 0 {
				return fmt.Sprintf("bearer error answered %s with headers %v", r, r.H)
			}
			return ""
		})
	}
	for _, ek := range kinds {
		c.Case("wrapped "+ek.name, true, func() string {
			for _, w := range []error{fmt.Errorf("%s: %w", secret, ek.mk("d"))} {
				for _, bearer := range []bool{false, true} {
					rec := newRecorder()
					var err error
					if bearer {
						err = oauth2.WriteBearerError(rec, w)
					} else {
						err = oauth2.WriteError(rec, w)
					}
					r := rec.resp()
					if err != nil || r.Writes != 1 || (r.Code != 500 && r.Code != ek.status) {
						return "answered " + r.String()
					}
					if strings.Contains(fmt.Sprint(r.H)+r.Body, "hunter2") {
						return "the wrapping error is revealed"
					}
				}
			}
			return ""
		})
	}
}
