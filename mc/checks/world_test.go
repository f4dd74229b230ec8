package checks

// World: a real oauth2.Server plus a history ("ghost") of everything that was
// observed on its wire. The ghost is what oracles are stated over; it never
// looks inside the server.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// ----------------------------------------------------------------- raw layer

// Req is a raw request.
type Req struct {
	Method string
	Path   string
	Query  string // raw query
	Body   string // raw body ("" and !HasBody: nil body)
	NoBody bool
	CT     string // content type
	Auth   string // Authorization header, if HasAuth
	HasA   bool
	Need   []string    // required scope for resource requests
	HX     [][2]string // further headers
	Circ   string      // circumstance of its transport
}

// Resp is everything observable about an answer.
type Resp struct {
	Code   int
	H      http.Header
	Body   string
	Writes int
	Panic  string
	OK     bool // Authorize admitted the request
}

type recorder struct {
	h      http.Header
	snap   http.Header
	code   int
	writes int
	body   []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(code int) {
	r.writes++
	if r.writes > 1 {
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	r.code = code
	r.snap = r.h.Clone()
}
func (r *recorder) Write(p []byte) (int, error) {
	if r.writes == 0 {
		r.WriteHeader(200)
	}
	r.body = append(r.body, p...)
	return len(p), nil
}

func newRecorder() *recorder { return &recorder{h: http.Header{}} }

func (r *recorder) resp() *Resp {
	x := &Resp{Code: r.code, H: r.snap, Body: string(r.body), Writes: r.writes}
	if x.H == nil {
		x.H = r.h.Clone()
	}
	return x
}

func (q Req) http() *http.Request {
	u := &url.URL{Path: q.Path, RawQuery: q.Query}
	r := &http.Request{Method: q.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "auth.example", RequestURI: u.RequestURI()}
	if !q.NoBody {
		r.Body = readCloser{strings.NewReader(q.Body)}
		r.ContentLength = int64(len(q.Body))
	}
	if q.CT != "" {
		r.Header.Set("Content-Type", q.CT)
	}
	if q.HasA {
		r.Header.Set("Authorization", q.Auth)
	}
	for _, h := range q.HX {
		r.Header.Set(h[0], h[1])
	}
	if q.Circ != "" {
		circumstance(q.Circ, r)
	}
	return r
}

type readCloser struct{ *strings.Reader }

func (readCloser) Close() error { return nil }

const resourcePath = "/api/resource"

// serve hands a request to the server, or to a resource guarded by Authorize.
func serve(s *oauth2.Server, r *http.Request, need []string) (x *Resp) {
	rec := newRecorder()
	var ok bool
	var pan string
	func() {
		defer func() {
			if p := recover(); p != nil {
				pan = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		if r.URL.Path == resourcePath {
			ok = s.Authorize(rec, r, oauth2.Scope(need))
			if ok {
				_, _ = rec.Write([]byte("RESOURCE"))
			}
		} else {
			s.ServeHTTP(rec, r)
		}
	}()
	x = rec.resp()
	x.OK = ok
	x.Panic = pan
	if locked(s) {
		x.Panic += " [the server is left locked after the request]"
	}
	return x
}

// locked reports (and repairs, so that exploration can go on) a server lock
// that is still held although no request is in flight.
func locked(s *oauth2.Server) bool {
	f := reflect.ValueOf(s).Elem().FieldByName("Mutex")
	if !f.IsValid() || !f.CanAddr() {
		return false
	}
	l, ok := f.Addr().Interface().(interface {
		TryLock() bool
		Unlock()
	})
	if !ok {
		return false
	}
	if l.TryLock() {
		l.Unlock()
		return false
	}
	l.Unlock()
	return true
}

func basic(user, pass string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
}

const formCT = "application/x-www-form-urlencoded"

// form encodes ordered pairs; built independently of net/url.
func form(kv ...string) string {
	var b strings.Builder
	for i := 0; i+1 < len(kv); i += 2 {
		if b.Len() > 0 {
			b.WriteByte('&')
		}
		b.WriteString(pctEncode(kv[i]) + "=" + pctEncode(kv[i+1]))
	}
	return b.String()
}

func pctEncode(s string) string {
	const hex = "0123456789ABCDEF"
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '-', c == '_', c == '.', c == '~':
			b.WriteByte(c)
		case c == ' ':
			b.WriteByte('+')
		default:
			b.WriteByte('%')
			b.WriteByte(hex[c>>4])
			b.WriteByte(hex[c&15])
		}
	}
	return b.String()
}

// formDecode decodes application/x-www-form-urlencoded text once; independent
// of net/url. ok is false for malformed text.
func formDecode(s string) (out [][2]string, ok bool) {
	if s == "" {
		return nil, true
	}
	for _, part := range strings.Split(s, "&") {
		if part == "" {
			continue
		}
		k, v := part, ""
		if i := strings.IndexByte(part, '='); i >= 0 {
			k, v = part[:i], part[i+1:]
		}
		dk, ok1 := pctDecode(k)
		dv, ok2 := pctDecode(v)
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, [2]string{dk, dv})
	}
	return out, true
}

func pctDecode(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			b.WriteByte(' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := unhex(s[i+1]), unhex(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			b.WriteByte(byte(h<<4 | l))
			i += 2
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String(), true
}

func unhex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func lookup(kv [][2]string, k string) (string, int) {
	n, v := 0, ""
	for _, p := range kv {
		if p[0] == k {
			if n == 0 {
				v = p[1]
			}
			n++
		}
	}
	return v, n
}

// ---------------------------------------------------------------- responses

func (r *Resp) json() map[string]any {
	if !strings.HasPrefix(r.H.Get("Content-Type"), "application/json") {
		return nil
	}
	var m map[string]any
	if json.Unmarshal([]byte(r.Body), &m) != nil {
		return nil
	}
	return m
}

func str(m map[string]any, k string) string {
	s, _ := m[k].(string)
	return s
}

// location splits a redirect's Location by RFC 3986, without decoding.
func (r *Resp) location() (base, query, fragment string, ok bool) {
	l := r.H.Get("Location")
	if l == "" {
		return "", "", "", false
	}
	if i := strings.IndexByte(l, '#'); i >= 0 {
		l, fragment = l[:i], l[i+1:]
	}
	if i := strings.IndexByte(l, '?'); i >= 0 {
		l, query = l[:i], l[i+1:]
	}
	return l, query, fragment, true
}

func (r *Resp) isRedirect() bool { return r.Code >= 300 && r.Code < 400 }

// params returns the parameters of a redirect and whether they were taken
// from the fragment.
func (r *Resp) params() (kv [][2]string, fragment bool) {
	_, q, f, ok := r.location()
	if !ok {
		return nil, false
	}
	if f != "" {
		kv, _ = formDecode(f)
		return kv, true
	}
	kv, _ = formDecode(q)
	return kv, false
}

// err returns the OAuth error code carried by the answer in any form.
func (r *Resp) err() string {
	if r.isRedirect() {
		kv, _ := r.params()
		v, _ := lookup(kv, "error")
		return v
	}
	if m := r.json(); m != nil {
		return str(m, "error")
	}
	if a := r.H.Get("WWW-Authenticate"); strings.HasPrefix(a, "Bearer ") {
		if i := strings.Index(a, `error="`); i >= 0 {
			rest := a[i+7:]
			if j := strings.IndexByte(rest, '"'); j >= 0 {
				return rest[:j]
			}
		}
	}
	return ""
}

// Tokens delivered by an answer.
type Tokens struct {
	Access, Refresh, Code string
	Scope                 string
	HasScope              bool
	ExpiresIn             string
	Type                  string
	State                 string
}

func (r *Resp) tokens() *Tokens {
	if r.isRedirect() {
		kv, _ := r.params()
		t := &Tokens{}
		t.Access, _ = lookup(kv, "access_token")
		t.Refresh, _ = lookup(kv, "refresh_token")
		t.Code, _ = lookup(kv, "code")
		var n int
		t.Scope, n = lookup(kv, "scope")
		t.HasScope = n > 0
		t.ExpiresIn, _ = lookup(kv, "expires_in")
		t.Type, _ = lookup(kv, "token_type")
		t.State, _ = lookup(kv, "state")
		if t.Access == "" && t.Refresh == "" && t.Code == "" {
			return nil
		}
		return t
	}
	m := r.json()
	if m == nil {
		return nil
	}
	t := &Tokens{Access: str(m, "access_token"), Refresh: str(m, "refresh_token"), Code: str(m, "code"), Scope: str(m, "scope"), Type: str(m, "token_type"), State: str(m, "state")}
	_, t.HasScope = m["scope"]
	if n, ok := m["expires_in"].(float64); ok {
		t.ExpiresIn = strconv.FormatFloat(n, 'f', -1, 64)
	}
	if t.Access == "" && t.Refresh == "" && t.Code == "" {
		return nil
	}
	return t
}

func (r *Resp) String() string {
	if r == nil {
		return "<none>"
	}
	s := fmt.Sprintf("%d", r.Code)
	if l := r.H.Get("Location"); l != "" {
		s += " Location=" + l
	}
	if a := r.H.Get("WWW-Authenticate"); a != "" {
		s += " WWW-Authenticate=" + a
	}
	if r.Body != "" {
		s += " " + strings.TrimSpace(r.Body)
	}
	if r.Panic != "" {
		s += " PANIC " + r.Panic
	}
	return s
}

// -------------------------------------------------------------------- world

// ClientSpec is a registered client.
type ClientSpec struct {
	ID, Secret, Redirect string
	Conf                 bool
}

// Cfg configures a world.
type Cfg struct {
	Clients    []ClientSpec
	Users      [][2]string
	Allowed    []string
	Secret     string
	KeyLen     int
	LA, LR, LC time.Duration
}

func baseCfg() *Cfg {
	return &Cfg{
		Clients: []ClientSpec{
			{"c1", "s1-Secret", "https://c1.example.com/cb", true},
			{"c2", "s2-Secret", "https://c2.example.com/cb?tenant=7", true},
			{"p1", "", "https://p1.example.com/app", false},
		},
		Users:   [][2]string{{"u1", "pw1-Pass"}, {"u2", "pw2-Pass"}},
		Allowed: []string{"foo", "bar"},
		Secret:  "a-server-secret!", KeyLen: 16,
		LA: 100 * time.Second, LR: 700 * time.Second, LC: 40 * time.Second,
	}
}

// Cred is a credential seen on the wire (or provisioned by the operator).
type Cred struct {
	ID       int
	Kind     byte // 'A' access token, 'R' refresh token, 'C' code
	Str      string
	Sig      string
	Client   string
	User     string
	Scope    []string
	At       time.Time
	Life     time.Duration
	Redirect string
	Code     int // descends from this code, or -1
	Parent   int // credential it was exchanged or refreshed from, or -1
	Spent    bool
	Revoked  bool
	Killed   bool
	Maybe    bool // usability not specified by the properties
	w        *World
}

// World is a server with its history.
type World struct {
	Cfg   *Cfg
	S     *oauth2.Server
	Creds []*Cred
	last  time.Time // the world's own present: no request may be sent at any other time
	via   bool      // token, introspection and revocation operations go through the library's client
	call  *called   // the last of them
	conn  *oauth2.Client
}

func newWorld(cfg *Cfg) *World {
	// every world starts at the same fraction of a second, so that histories
	// are reproducible to the last digit
	now := time.Now()
	if now.Year() > 2200 {
		panic("harness: the virtual clock is about to overflow")
	}
	time.Sleep(now.Truncate(time.Second).Add(1300*time.Millisecond + 456789).Sub(now))
	sc := oauth2.DefaultServerConfig([]byte(cfg.Secret), oauth2.Scope(append([]string(nil), cfg.Allowed...)))
	sc.KeyLength = cfg.KeyLen
	sc.AccessTokenLifespan, sc.RefreshTokenLifespan, sc.AuthorizationCodeLifespan = cfg.LA, cfg.LR, cfg.LC
	s := oauth2.NewServer(sc)
	for _, c := range cfg.Clients {
		s.Clients[c.ID] = &oauth2.ServerEntity{Secret: c.Secret, RedirectURI: c.Redirect, Confidential: c.Conf}
	}
	for _, u := range cfg.Users {
		s.Users[u[0]] = &oauth2.ServerEntity{Secret: u[1]}
	}
	return &World{Cfg: cfg, S: s, last: time.Now()}
}

func (w *World) client(id string) *ClientSpec {
	for i := range w.Cfg.Clients {
		if w.Cfg.Clients[i].ID == id {
			return &w.Cfg.Clients[i]
		}
	}
	return nil
}

func (w *World) pass(user string) string {
	for _, u := range w.Cfg.Users {
		if u[0] == user {
			return u[1]
		}
	}
	return "no-such-user"
}

// Op is one operation of a history; plain data, so histories are artefacts.
type Op struct {
	K   string        `json:"k"`             // pw cc imp code xch rfr rev int res adv prov
	Cl  string        `json:"cl,omitempty"`  // client
	Us  string        `json:"us,omitempty"`  // user
	Pw  string        `json:"pw,omitempty"`  // password ("" = the right one, "-" = none)
	Sec string        `json:"sec,omitempty"` // client secret ("" = the right one, "-" = no secret)
	Sc  string        `json:"sc,omitempty"`  // scope parameter
	Rd  string        `json:"rd,omitempty"`  // redirect uri ("" = the right one, "-" = none)
	H   string        `json:"h,omitempty"`   // token type hint
	Cr  int           `json:"cr"`            // credential index
	D   time.Duration `json:"d,omitempty"`   // clock step
	St  string        `json:"st,omitempty"`  // state
	B   bool          `json:"b,omitempty"`   // client credentials in the body
	X   string        `json:"x,omitempty"`   // extra: literal credential string instead of Cr
	E   string        `json:"e,omitempty"`   // extra: appended to the form as it is
}

func (o Op) key() string {
	var p []string
	add := func(k, v string) {
		if v != "" {
			p = append(p, k+"="+v)
		}
	}
	add("cl", o.Cl)
	add("us", o.Us)
	add("pw", o.Pw)
	add("sec", o.Sec)
	add("sc", o.Sc)
	add("rd", o.Rd)
	add("h", o.H)
	add("st", o.St)
	add("x", o.X)
	add("e", o.E)
	if o.B {
		add("b", "1")
	}
	switch o.K {
	case "xch", "rfr", "rev", "int", "res":
		if o.X == "" {
			p = append(p, fmt.Sprintf("#%d", o.Cr))
		}
	case "adv":
		p = append(p, o.D.String())
	case "prov", "edit":
		p = append(p, fmt.Sprintf("#%d", o.Cr), o.D.String())
	}
	return o.K + "(" + strings.Join(p, ",") + ")"
}

func histKey(h []Op) string {
	s := make([]string, len(h))
	for i, o := range h {
		s[i] = o.key()
	}
	return strings.Join(s, " ; ")
}

func (w *World) clientAuth(r *Req, kv []string, o Op) []string {
	sec := o.Sec
	if sec == "" {
		if c := w.client(o.Cl); c != nil {
			sec = c.Secret
		}
	} else if sec == "-" {
		sec = ""
	}
	if o.B {
		return append(kv, "client_id", o.Cl, "client_secret", sec)
	}
	r.HasA, r.Auth = true, basic(o.Cl, sec)
	return kv
}

// credForms are the near misses of a credential string. An operation names one
// as "@index/form", so that it means the same in every world of its history.
var credForms = []struct {
	name string
	f    func(s string) string
}{
	{"same", func(s string) string { return s }},
	{"dot", func(s string) string { return s + "." }},
	{"longer", func(s string) string { return s + "x" }},
	{"cut2", func(s string) string { return s[:len(s)-2] }},
	{"cut3", func(s string) string { return s[:len(s)-3] }},
	{"tail", func(s string) string { return s[1:] }},
	{"joined", func(s string) string { return strings.Replace(s, ".", "", 1) }},
	{"sig", sigOf},
	{"key", func(s string) string { return strings.SplitN(s, ".", 2)[0] }},
	{"swap", func(s string) string { return sigOf(s) + "." + strings.SplitN(s, ".", 2)[0] }},
}

func (w *World) form(x string) string {
	var id int
	var f string
	if n, _ := fmt.Sscanf(x, "@%d/%s", &id, &f); n != 2 || id >= len(w.Creds) {
		return x
	}
	for _, c := range credForms {
		if c.name == f {
			return c.f(w.Creds[id].Str)
		}
	}
	panic("unknown credential form " + f)
}

func formOf(c *Cred, f string) string { return fmt.Sprintf("@%d/%s", c.ID, f) }

func (w *World) credStr(o Op) string {
	if strings.HasPrefix(o.X, "@") {
		return w.form(o.X)
	}
	if o.X != "" {
		return o.X
	}
	if o.Cr >= 0 && o.Cr < len(w.Creds) {
		return w.Creds[o.Cr].Str
	}
	return "none"
}

// build turns an operation into a raw request.
func (w *World) build(o Op) Req {
	r := Req{Method: "POST", CT: formCT}
	switch o.K {
	case "pw":
		r.Path = "/oauth2/token"
		kv := []string{"grant_type", "password"}
		kv = append(kv, "username", o.Us)
		if o.Pw != "-" {
			pw := o.Pw
			if pw == "" {
				pw = w.pass(o.Us)
			}
			kv = append(kv, "password", pw)
		}
		if o.Sc != "" {
			kv = append(kv, "scope", o.Sc)
		}
		r.Body = form(w.clientAuth(&r, kv, o)...)
	case "cc":
		r.Path = "/oauth2/token"
		kv := []string{"grant_type", "client_credentials"}
		if o.Sc != "" {
			kv = append(kv, "scope", o.Sc)
		}
		r.Body = form(w.clientAuth(&r, kv, o)...)
	case "imp", "code":
		r.Path = "/oauth2/authorize"
		rt := "token"
		if o.K == "code" {
			rt = "code"
		}
		kv := []string{"response_type", rt, "client_id", o.Cl}
		rd := o.Rd
		if rd == "" {
			if c := w.client(o.Cl); c != nil {
				rd = c.Redirect
			}
		}
		if rd != "-" {
			kv = append(kv, "redirect_uri", rd)
		}
		if o.Sc != "" {
			kv = append(kv, "scope", o.Sc)
		}
		if o.St != "" {
			kv = append(kv, "state", o.St)
		}
		kv = append(kv, "username", o.Us)
		if o.Pw != "-" {
			pw := o.Pw
			if pw == "" {
				pw = w.pass(o.Us)
			}
			kv = append(kv, "password", pw)
		}
		r.Body = form(kv...)
	case "xch":
		r.Path = "/oauth2/token"
		kv := []string{"grant_type", "authorization_code", "code", w.credStr(o)}
		rd := o.Rd
		if rd == "" && o.X == "" && o.Cr < len(w.Creds) {
			rd = w.Creds[o.Cr].Redirect
		}
		if rd != "-" && rd != "" {
			kv = append(kv, "redirect_uri", rd)
		}
		if o.Sc != "" {
			kv = append(kv, "scope", o.Sc)
		}
		r.Body = form(w.clientAuth(&r, kv, o)...)
	case "rfr":
		r.Path = "/oauth2/token"
		kv := []string{"grant_type", "refresh_token", "refresh_token", w.credStr(o)}
		if o.Sc != "" {
			kv = append(kv, "scope", o.Sc)
		}
		r.Body = form(w.clientAuth(&r, kv, o)...)
	case "rev", "int":
		r.Path = "/oauth2/revoke"
		if o.K == "int" {
			r.Path = "/oauth2/introspect"
		}
		kv := []string{"token", w.credStr(o)}
		if o.H != "" {
			kv = append(kv, "token_type_hint", o.H)
		}
		r.Body = form(w.clientAuth(&r, kv, o)...)
	case "res":
		r.Method, r.Path, r.NoBody, r.CT = "GET", resourcePath, true, ""
		r.HasA, r.Auth = true, "Bearer "+w.credStr(o)
		r.Need = splitScope(o.Sc)
	default:
		panic("unknown op " + o.K)
	}
	if o.E != "" {
		r.Body += "&" + o.E
	}
	return r
}

// splitScope is the reference reading of a scope parameter.
func splitScope(s string) []string {
	var out []string
	for _, p := range strings.Split(s, " ") {
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

// into translates a request that was built in one world to another world with
// the same history: worlds never share credential strings.
func (r Req) into(to, from *World) Req {
	if to == from {
		return r
	}
	var pairs []string
	for i, k := range from.Creds {
		if i >= len(to.Creds) {
			break
		}
		a, b := k.Str, to.Creds[i].Str
		if len(a) != len(b) || len(sigOf(a)) != len(sigOf(b)) || len(sigOf(a)) < 4 {
			panic("harness: the worlds' credentials do not correspond")
		}
		n := len(sigOf(a))
		pairs = append(pairs, a, b, a[:len(a)-3], b[:len(b)-3], sigOf(a), sigOf(b), sigOf(a)[:n-3], sigOf(b)[:n-3], a[:len(a)-n-1], b[:len(b)-n-1])
	}
	rep := strings.NewReplacer(pairs...)
	for _, f := range []*string{&r.Query, &r.Body, &r.Auth} {
		*f = rep.Replace(*f)
	}
	for _, k := range from.Creds {
		s, t := sigOf(k.Str), r.Query+r.Body+r.Auth
		if strings.Contains(t, s[:len(s)-3]) || strings.Contains(t, k.Str[:len(k.Str)-len(s)-1]) {
			panic("harness: request translated incompletely")
		}
	}
	return r
}

// strangers guards against a mistake of the harness during development: a
// request built from another world's credentials shows nothing.
var strangers = os.Getenv("VERIF_STRANGERS") != ""
var owners sync.Map

func (w *World) stranger(r Req) {
	for _, s := range []string{r.Query, r.Body, r.Auth} {
		for _, t := range strings.FieldsFunc(s, func(c rune) bool {
			return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_')
		}) {
			if o, ok := owners.Load(t); ok && o != w {
				fmt.Fprintf(os.Stderr, "STRANGER %s %s\n%s\n", t, r, debug.Stack())
				os.Exit(7)
			}
		}
	}
}

// send executes a raw request.
func (w *World) send(r Req) *Resp {
	w.fresh()
	if strangers {
		w.stranger(r)
	}
	return serve(w.S, r.http(), r.Need)
}

// fresh guards against a mistake of the harness: replaying a history advances
// the clock of all worlds, so only the newest world may be used.
func (w *World) fresh() {
	if !time.Now().Equal(w.last) {
		panic("harness: world used after the clock moved on")
	}
}

// sleep advances the clock of this world.
func (w *World) sleep(d time.Duration) {
	w.fresh()
	time.Sleep(d)
	w.last = time.Now()
}

// do executes one operation and records its observed effects in the history.
func (w *World) do(o Op) *Resp {
	switch o.K {
	case "adv":
		w.sleep(o.D)
		return &Resp{Code: 0, H: http.Header{}}
	case "prov", "edit":
		w.entry(o)
		return &Resp{Code: 0, H: http.Header{}}
	}
	var r *Resp
	if w.via && isClientOp(o) {
		w.call = w.viaClient(o)
		if r = w.call.raw; r == nil {
			r = &Resp{H: http.Header{}}
		}
	} else {
		r = w.send(w.build(o))
	}
	w.observe(o, r)
	return r
}

func sigOf(s string) string {
	if i := strings.IndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (w *World) add(kind byte, s string, c Cred) *Cred {
	n := c
	n.ID, n.Kind, n.Str, n.Sig, n.At, n.w = len(w.Creds), kind, s, sigOf(s), w.last, w
	switch kind {
	case 'A':
		n.Life = w.Cfg.LA
	case 'R':
		n.Life = w.Cfg.LR
	case 'C':
		n.Life = w.Cfg.LC
	}
	w.Creds = append(w.Creds, &n)
	if strangers {
		for _, t := range strings.Split(s, ".") {
			if len(t) > 8 {
				owners.Store(t, w)
			}
		}
	}
	return &n
}

// observe updates the history from an answer.
func (w *World) observe(o Op, r *Resp) {
	t := r.tokens()
	var src *Cred
	if o.X == "" && o.Cr >= 0 && o.Cr < len(w.Creds) {
		src = w.Creds[o.Cr]
	}
	switch o.K {
	case "pw", "imp":
		if t != nil {
			c := Cred{Client: o.Cl, User: o.Us, Scope: splitScope(o.Sc), Code: -1, Parent: -1}
			w.addTokens(t, c)
		}
	case "cc":
		if t != nil {
			w.addTokens(t, Cred{Client: o.Cl, Scope: splitScope(o.Sc), Code: -1, Parent: -1})
		}
	case "code":
		if t != nil {
			rd := o.Rd
			if rd == "" && w.client(o.Cl) != nil {
				rd = w.client(o.Cl).Redirect
			}
			w.addTokens(t, Cred{Client: o.Cl, User: o.Us, Scope: splitScope(o.Sc), Code: -1, Parent: -1, Redirect: rd})
		}
	case "xch":
		if src == nil {
			break
		}
		if t != nil {
			w.addTokens(t, Cred{Client: o.Cl, User: src.User, Scope: src.Scope, Code: src.ID, Parent: src.ID})
			src.Spent = true
			break
		}
		// presenting a redeemed code again kills its descendants
		if src.Kind == 'C' && src.Spent && !src.Revoked && w.authed(o) {
			for _, c := range w.Creds {
				if c.Code == src.ID {
					if o.Cl == src.Client {
						c.Killed = true
					} else {
						c.Maybe = true
					}
				}
			}
		}
	case "rfr":
		if src != nil && t != nil {
			sc := splitScope(o.Sc)
			if len(sc) == 0 {
				sc = src.Scope
			}
			w.addTokens(t, Cred{Client: o.Cl, User: src.User, Scope: sc, Code: src.Code, Parent: src.ID})
			src.Spent = true
		}
	case "rev":
		if src != nil && r.Code == 200 && o.Cl == src.Client && src.Kind != 'C' {
			src.Revoked = true
		}
	}
}

func (w *World) addTokens(t *Tokens, c Cred) {
	if t.Code != "" {
		w.add('C', t.Code, c)
	}
	if t.Access != "" {
		w.add('A', t.Access, c)
	}
	if t.Refresh != "" {
		w.add('R', t.Refresh, c)
	}
}

// authed: the operation identifies an existing client and, if confidential,
// carries its secret.
func (w *World) authed(o Op) bool {
	c := w.client(o.Cl)
	if c == nil {
		return false
	}
	return !c.Conf || o.Sec == "" || o.Sec == c.Secret
}

// live: must be honoured now; dead: must be refused now (both false exactly at
// the moment of expiry, which the properties leave open).
func (c *Cred) live() bool {
	return !c.Spent && !c.Revoked && !c.Killed && !c.Maybe && c.w.last.Before(c.At.Add(c.Life))
}
func (c *Cred) dead() bool {
	return c.Spent || c.Revoked || c.Killed || c.w.last.After(c.At.Add(c.Life))
}

func (c *Cred) String() string {
	return fmt.Sprintf("#%d(%c client=%s user=%s scope=%q code=%d parent=%d age=%s spent=%v revoked=%v killed=%v)",
		c.ID, c.Kind, c.Client, c.User, strings.Join(c.Scope, " "), c.Code, c.Parent, c.w.last.Sub(c.At), c.Spent, c.Revoked, c.Killed)
}

func kindHint(k byte) string {
	if k == 'A' {
		return "access_token"
	}
	return "refresh_token"
}

// use tries to use a credential once, as its owner would: an access token at a
// resource, a refresh token or a code at the token endpoint. Tokens that
// follow an error in the same answer count as well. It may change the world, so
// it is called on throw-away worlds only.
func (w *World) use(c *Cred) (bool, *Resp) {
	switch c.Kind {
	case 'A':
		r := w.do(Op{K: "res", Cr: c.ID})
		return r.OK && r.Code == 200, r
	case 'R':
		r := w.do(Op{K: "rfr", Cl: c.Client, Cr: c.ID})
		return r.Code == 200 && r.tokens() != nil || strings.Contains(string(r.Body), `"access_token":"`), r
	default:
		r := w.do(Op{K: "xch", Cl: c.Client, Cr: c.ID})
		return r.Code == 200 && r.tokens() != nil || strings.Contains(string(r.Body), `"access_token":"`), r
	}
}

// active asks introspection as the owner.
func (w *World) active(c *Cred) (bool, *Resp) {
	r := w.do(Op{K: "int", Cl: c.Client, Cr: c.ID})
	m := r.json()
	b, _ := m["active"].(bool)
	return r.Code == 200 && b, r
}

func (w *World) byKind(k byte) []*Cred {
	var out []*Cred
	for _, c := range w.Creds {
		if c.Kind == k {
			out = append(out, c)
		}
	}
	return out
}

// ------------------------------------------------------------- canonical form

// canon renders everything that can influence the future: the whole server
// object (all fields, also unexported ones, with credential signatures renamed
// by order of issue and times taken relative to now) and the ghost history.
// Two histories with equal canonical form have equal futures.
func (w *World) canon() string {
	d := dumper{names: map[string]string{}, now: w.last, seen: map[uintptr]bool{}}
	for _, c := range w.Creds {
		d.names[c.Sig] = fmt.Sprintf("#%d", c.ID)
		d.names[c.Str] = fmt.Sprintf("##%d", c.ID)
	}
	d.walk(reflect.ValueOf(w.S))
	for _, c := range w.Creds {
		age := d.now.Sub(c.At)
		if age > c.Life {
			age = c.Life + 1
		}
		fmt.Fprintf(&d.b, "|%c%d %s %s %s %d %d %v%v%v%v %d", c.Kind, c.ID, c.Client, c.User, strings.Join(c.Scope, " "), c.Code, c.Parent, c.Spent, c.Revoked, c.Killed, c.Maybe, age)
	}
	return d.b.String()
}

type dumper struct {
	b     strings.Builder
	names map[string]string
	now   time.Time
	seen  map[uintptr]bool
}

var syncMapType = reflect.TypeOf(sync.Map{})

var timeType = reflect.TypeOf(time.Time{})

func (d *dumper) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		p := v.Pointer()
		if d.seen[p] {
			d.b.WriteString("^")
			return
		}
		d.seen[p] = true
		d.walk(v.Elem())
		delete(d.seen, p)
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.walk(v.Elem())
	case reflect.Struct:
		t := v.Type()
		if t == timeType {
			d.time(v)
			return
		}
		if t == syncMapType && v.CanAddr() {
			m := map[any]any{}
			(*sync.Map)(unsafe.Pointer(v.UnsafeAddr())).Range(func(k, v any) bool { m[k] = v; return true })
			d.walk(reflect.ValueOf(m))
			return
		}
		if t.PkgPath() == "sync" || strings.HasSuffix(t.PkgPath(), "/vsync") {
			return
		}
		d.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.b.WriteString(t.Field(i).Name)
			d.b.WriteByte(':')
			d.walk(v.Field(i))
			d.b.WriteByte(',')
		}
		d.b.WriteByte('}')
	case reflect.Map:
		type kv struct{ k, v string }
		var l []kv
		it := v.MapRange()
		for it.Next() {
			dk := dumper{names: d.names, now: d.now, seen: d.seen}
			dk.walk(it.Key())
			dv := dumper{names: d.names, now: d.now, seen: d.seen}
			dv.walk(it.Value())
			l = append(l, kv{dk.b.String(), dv.b.String()})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k || l[i].k == l[j].k && l[i].v < l[j].v })
		d.b.WriteByte('[')
		for _, e := range l {
			d.b.WriteString(e.k + "=" + e.v + ";")
		}
		d.b.WriteByte(']')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteByte('(')
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
			d.b.WriteByte(' ')
		}
		d.b.WriteByte(')')
	case reflect.String:
		s := v.String()
		if n, ok := d.names[s]; ok {
			s = n
		}
		d.b.WriteString(s)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		d.b.WriteString("fn")
	case reflect.Bool:
		fmt.Fprint(&d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&d.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&d.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&d.b, v.Float())
	default:
		d.b.WriteString(v.Kind().String())
	}
}

func (d *dumper) time(v reflect.Value) {
	var t time.Time
	if v.CanAddr() {
		t = *(*time.Time)(unsafe.Pointer(v.UnsafeAddr()))
	} else if v.CanInterface() {
		t = v.Interface().(time.Time)
	} else {
		d.b.WriteString("t?")
		return
	}
	if t.IsZero() {
		d.b.WriteString("t0")
		return
	}
	rel := t.Sub(d.now)
	if rel < -1 {
		rel = -1 // the past is the past
	}
	fmt.Fprintf(&d.b, "t%+d", rel)
}

// sameSet compares scope lists as sets.
func sameSet(a, b []string) bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	n := map[string]bool{}
	for _, x := range b {
		n[x] = true
	}
	if len(m) != len(n) {
		return false
	}
	for x := range m {
		if !n[x] {
			return false
		}
	}
	return true
}

func subset(a, b []string) bool {
	for _, x := range a {
		ok := false
		for _, y := range b {
			if x == y {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
