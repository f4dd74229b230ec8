package checks

// Properties over histories of requests (C01-C09, C11), explored breadth-first
// on the real server.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// ---------------------------------------------------------------- alphabets

func ops(l ...[]Op) []Op {
	var out []Op
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

// forKind builds one operation per credential of the kinds given.
func forKind(w *World, kinds string, f func(c *Cred) []Op) []Op {
	var out []Op
	for _, c := range w.Creds {
		if strings.IndexByte(kinds, c.Kind) >= 0 {
			out = append(out, f(c)...)
		}
	}
	return out
}

func others(w *World, id string) []string {
	var out []string
	for _, c := range w.Cfg.Clients {
		if c.ID != id {
			out = append(out, c.ID)
		}
	}
	return out
}

// lifecycle is the common alphabet: grants of every type, exchange, refresh,
// revocation, replay (exchange of spent codes), clock.
func lifecycle(w *World, rich bool) []Op {
	out := []Op{
		{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"},
		{K: "cc", Cl: "c1", Sc: "foo"},
		{K: "imp", Cl: "c1", Us: "u1", Sc: "foo"},
		{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"},
	}
	if rich {
		out = append(out, Op{K: "pw", Cl: "p1", Us: "u2", Sc: "bar"}, Op{K: "code", Cl: "p1", Us: "u2"})
	}
	out = append(out, forKind(w, "C", func(c *Cred) []Op { return []Op{{K: "xch", Cl: c.Client, Cr: c.ID}} })...)
	out = append(out, forKind(w, "R", func(c *Cred) []Op { return []Op{{K: "rfr", Cl: c.Client, Cr: c.ID}} })...)
	out = append(out, forKind(w, "AR", func(c *Cred) []Op { return []Op{{K: "rev", Cl: c.Client, Cr: c.ID}} })...)
	out = append(out, Op{K: "adv", D: 41 * time.Second}, Op{K: "adv", D: 101 * time.Second})
	return out
}

// --------------------------------------------------------------------- C01

// required scope sets for resources
func requiredSets() [][]string {
	al := []string{"foo", "bar", "baz", "FOO", "fo"}
	out := [][]string{nil}
	for _, a := range al {
		out = append(out, []string{a})
		for _, b := range al {
			out = append(out, []string{a, b})
		}
	}
	return append(out, []string{"foo", "bar", "baz"}, []string{"foo", "bar", "foo"}, []string{"bar", "foo", "fo"}, []string{""})
}

func challenge(r *Resp, code int) string {
	if r.OK {
		return "request was admitted"
	}
	if r.Code != code {
		return fmt.Sprintf("refused with status %d, want %d", r.Code, code)
	}
	return challengeAny(r)
}

func challengeAny(r *Resp) string {
	if r.OK || r.Code < 400 || r.Code > 403 {
		return fmt.Sprintf("not refused: status %d", r.Code)
	}
	if !strings.HasPrefix(r.H.Get("WWW-Authenticate"), "Bearer ") {
		return "no Bearer challenge"
	}
	if r.Body != "" {
		return "refusal has a body"
	}
	return ""
}

func resourceOracle(w *World, c *Cred, need []string) string {
	r := w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: true, Auth: "Bearer " + c.Str, Need: need})
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	var msg string
	switch {
	case c.Kind != 'A':
		msg = challenge(r, 401)
	case c.live() && subset(need, c.Scope):
		if !r.OK || r.Code != 200 || r.Body != "RESOURCE" {
			msg = "live access token with sufficient scope refused"
		}
	case c.live():
		msg = challenge(r, 403)
		if msg == "" && r.err() != "insufficient_scope" {
			msg = "refusal is not insufficient_scope"
		}
	case c.dead():
		msg = challenge(r, 401)
		if msg == "" && r.err() != "invalid_token" {
			msg = "refusal is not invalid_token"
		}
	}
	if msg != "" {
		return fmt.Sprintf("%s presented at resource requiring %q: %s\nanswer: %s", c, need, msg, r)
	}
	return ""
}

func decodedEqual(a, b string) bool {
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		p, e1 := base64.RawURLEncoding.DecodeString(x[i])
		q, e2 := base64.RawURLEncoding.DecodeString(y[i])
		if e1 != nil || e2 != nil || string(p) != string(q) {
			return false
		}
	}
	return true
}

// tampered returns altered forms of a token (never the same decoded bytes).
func tampered(t, t2, secret string) map[string]string {
	out := map[string]string{}
	put := func(name, s string) {
		if !decodedEqual(s, t) && !decodedEqual(s, t2) {
			out[name] = s
		}
	}
	for i := 0; i < len(t); i++ {
		for _, r := range []byte{'A', 'z', '_', '.', '=', '+', '%', ' '} {
			if t[i] != r {
				put(fmt.Sprintf("set%d=%c", i, r), t[:i]+string(r)+t[i+1:])
			}
		}
		put(fmt.Sprintf("case%d", i), t[:i]+string(t[i]^0x20)+t[i+1:])
		put(fmt.Sprintf("del%d", i), t[:i]+t[i+1:])
		put(fmt.Sprintf("dup%d", i), t[:i+1]+t[i:])
		put(fmt.Sprintf("prefix%d", i), t[:i])
		put(fmt.Sprintf("suffix%d", i), t[i+1:])
	}
	p, q := strings.SplitN(t, ".", 2), strings.SplitN(t2, ".", 2)
	put("K.S2", p[0]+"."+q[1])
	put("K2.S", q[0]+"."+p[1])
	put("S.K", p[1]+"."+p[0])
	put("K", p[0])
	put("S", p[1])
	put("K.", p[0]+".")
	put(".S", "."+p[1])
	put("K.S.", t+".")
	put(".K.S", "."+t)
	put("K.S.S", t+"."+p[1])
	put("K..S", p[0]+".."+p[1])
	put("K.K", p[0]+"."+p[0])
	put("S.S", p[1]+"."+p[1])
	put("t,t2", t+","+t2)
	put("t t2", t+" "+t2)
	put("sp t", " "+t)
	put("t sp", t+" ")
	put("quoted", `"`+t+`"`)
	put("bearer t", "Bearer "+t)
	put("upper", strings.ToUpper(t))
	put("lower", strings.ToLower(t))
	put("dot", ".")
	put("x", "x")
	key, _ := base64.RawURLEncoding.DecodeString(p[0])
	sig, _ := base64.RawURLEncoding.DecodeString(p[1])
	for _, sec := range []string{"", "other-secret", secret + "x", secret[:len(secret)-1], strings.ToUpper(secret)} {
		put("foreign:"+sec, oauth2.HS256TokenFromKey([]byte(sec), key).String())
	}
	put("unissued", oauth2.HS256TokenFromKey([]byte(secret), append([]byte{1}, key...)).String())
	put("unissued-sigkey", oauth2.HS256TokenFromKey([]byte(secret), sig).String())
	put("unissued-empty", oauth2.HS256TokenFromKey([]byte(secret), nil).String())
	for n := 0; n < len(sig); n++ {
		put(fmt.Sprintf("shortsig%d", n), p[0]+"."+base64.RawURLEncoding.EncodeToString(sig[:n]))
	}
	put("longsig", p[0]+"."+base64.RawURLEncoding.EncodeToString(append(append([]byte{}, sig...), 0)))
	put("padded", p[0]+"==."+p[1]+"=")
	return out
}

// richHistory issues credentials of every kind through every grant.
func richHistory() []Op {
	return []Op{
		{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"},   // 0 A 1 R
		{K: "cc", Cl: "c2", Sc: "foo"},                 // 2 A 3 R
		{K: "imp", Cl: "p1", Us: "u2", Sc: "bar"},      // 4 A
		{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}, // 5 C
		{K: "xch", Cl: "c1", Cr: 5},                    // 6 A 7 R
		{K: "rfr", Cl: "c1", Cr: 7, Sc: "foo"},         // 8 A 9 R
		{K: "code", Cl: "p1", Us: "u2"},                // 10 C
		{K: "pw", Cl: "c1", Us: "u1"},                  // 11 A 12 R
		{K: "rev", Cl: "c1", Cr: 11},
	}
}

func TestC01(t *testing.T) {
	c := newCheck(t, "C01", "model_checking",
		"histories of grants, refreshes, revocations, replays and clock steps merged by canonical server state; in every state every credential x every required scope set; plus every tampered form of every credential of a state holding all kinds; every credential and none x 12 methods x ~200 headers and 25 circumstances; lists of 40 required values lacking any one. Non-trivial: the state holds at least one credential / the presented string is altered.")
	defer c.finish()
	reqs := requiredSets()
	d := 4
	if c.thorough() {
		d = 5
	}
	c.explore(&Model{Name: "lifecycle", Cfg: baseCfg, Depth: d,
		Ops: func(w *World) []Op { return lifecycle(w, len(w.Creds) < 3) },
		State: func(w *World, fork func() *World) string {
			for _, cr := range w.Creds {
				for _, need := range reqs {
					if msg := resourceOracle(w, cr, need); msg != "" {
						return msg
					}
				}
			}
			return ""
		}})
	// long-lived history: admission must not depend on how many tokens exist
	n := 60
	c.parallel(1, func(int) {
		c.Case("many tokens", true, func() string {
			w := newWorld(baseCfg())
			scopes := []string{"", "foo", "bar", "foo bar"}
			for i := 0; i < n; i++ {
				w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: scopes[i%4]})
				if i%5 == 0 {
					w.do(Op{K: "rev", Cl: "c1", Cr: 2 * (i / 2)})
				}
				for _, cr := range w.Creds {
					if msg := resourceOracle(w, cr, []string{"foo"}); msg != "" {
						return msg
					}
				}
			}
			return ""
		})
	})
	c.oddRequests()
	c.longResources()
	c.crowded(func(k crowd) bool { return !k.refusal }, func(before, after func() *World, n int) string {
		w := after()
		for _, need := range [][]string{nil, {"foo"}, {"bar", "foo"}, {"baz"}} {
			for _, k := range w.Creds {
				if msg := resourceOracle(w, k, need); msg != "" {
					return msg
				}
			}
		}
		return ""
	})
	// provisioned tokens
	c.parallel(1, func(int) {
		for _, tc := range []struct {
			name string
			age  time.Duration
			sc   string
		}{{"valid", time.Hour, "foo bar"}, {"noscope", time.Hour, ""}, {"expired", -time.Hour, "foo bar"}, {"justexpired", -time.Millisecond, "foo"}, {"longvalid", 200 * 365 * 24 * time.Hour, "bar foo bar"},
			{"longexpired", -56 * 365 * 24 * time.Hour, "foo"}, {"ancient", -250 * 365 * 24 * time.Hour, "foo bar"}, {"epoch", -1, "foo bar"}, {"never", 0, "foo bar"}} {
			c.Case("provisioned:"+tc.name, true, func() string {
				w := newWorld(baseCfg())
				for i := 0; i < 2; i++ {
					tk := w.S.Config.MustGenerate()
					exp := time.Now().Add(tc.age)
					switch tc.name {
					case "epoch":
						exp = time.Unix(0, 0)
					case "never": // the zero time lies in the past
						exp = time.Time{}
						tc.age = -1
					}
					w.S.AccessTokens[tk.SignatureString()] = &oauth2.ServerCredential{ClientID: "c1", Scope: oauth2.Scope(splitScope(tc.sc)), ExpiresAt: exp}
					cr := w.add('A', tk.String(), Cred{Client: "c1", Scope: splitScope(tc.sc), Code: -1, Parent: -1})
					cr.Life = tc.age
				}
				for _, need := range reqs {
					if msg := resourceOracle(w, w.Creds[0], need); msg != "" {
						return msg
					}
				}
				return ""
			})
		}
	})
	// tampering and header forms
	base := baseCfg()
	var w0 *World
	c.parallel(1, func(int) {
		w0 = newWorld(base)
		for _, o := range richHistory() {
			w0.do(o)
		}
	})
	c.parallel(len(w0.Creds), func(i int) {
		w := newWorld(base)
		for _, o := range richHistory() {
			w.do(o)
		}
		if i >= len(w.Creds) {
			return
		}
		cr := w.Creds[i]
		for j, other := range w.Creds {
			if j == i || (j != (i+1)%len(w.Creds) && !c.thorough()) {
				continue
			}
			for name, s := range tampered(cr.Str, other.Str, base.Secret) {
				for _, need := range [][]string{nil, {"foo"}} {
					c.Case(fmt.Sprintf("tamper %d/%d %s %v", i, j, name, need), true, func() string {
						r := w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: true, Auth: "Bearer " + s, Need: need})
						if r.Panic != "" {
							return r.Panic
						}
						if msg := challengeAny(r); msg != "" {
							return fmt.Sprintf("tampered token %q of %s: %s\nanswer: %s", s, cr, msg, r)
						}
						if r.Code == 403 {
							return fmt.Sprintf("tampered token %q treated as a known token (403)", s)
						}
						return ""
					})
				}
			}
		}
		// header forms; want: 0 = admitted, otherwise the status
		t := cr.Str
		for _, h := range []struct {
			auth string
			has  bool
			want int
		}{
			{"Bearer " + t, true, 0}, {"bearer " + t, true, 0}, {"BEARER " + t, true, 0}, {"bEaReR " + t, true, 0},
			{"", false, 401}, {"", true, 401}, {"Bearer", true, 400}, {"Bearer ", true, 400},
			{t, true, 400}, {"Token " + t, true, 400}, {"Basic " + t, true, 400}, {"Bearer" + t, true, 400},
			{"Bearer\t" + t, true, 400}, {"Bearer=" + t, true, 400}, {" Bearer " + t, true, 400}, {"Bearer: " + t, true, 400},
			{"Bearerx " + t, true, 400}, {"xBearer " + t, true, 400}, {"Beare " + t, true, 400}, {"MAC " + t, true, 400},
			{basic("c1", "s1-Secret"), true, 400}, {basic("bearer", t), true, 400},
		} {
			c.Case(fmt.Sprintf("header %d %q", i, h.auth), true, func() string {
				r := w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: h.has, Auth: h.auth})
				msg := ""
				if h.want == 0 {
					if cr.Kind == 'A' && cr.live() {
						if !r.OK || r.Code != 200 {
							msg = "live token refused"
						}
					} else {
						msg = challenge(r, 401)
					}
				} else {
					msg = challenge(r, h.want)
				}
				if msg != "" {
					return fmt.Sprintf("header %q (token %s): %s\nanswer: %s", h.auth, cr, msg, r)
				}
				return ""
			})
		}
		// a token anywhere but in the header does not count
		for name, q := range map[string]Req{
			"query":       {Method: "GET", Path: resourcePath, Query: form("access_token", t), NoBody: true},
			"body":        {Method: "POST", Path: resourcePath, CT: formCT, Body: form("access_token", t)},
			"query+other": {Method: "GET", Path: resourcePath, Query: form("access_token", t, "token", t, "bearer", t), NoBody: true},
		} {
			c.Case(fmt.Sprintf("placement %d %s", i, name), true, func() string {
				return challenge(w.send(q), 401)
			})
		}
	})
}

// --------------------------------------------------------------------- C02

func TestC02(t *testing.T) {
	c := newCheck(t, "C02", "model_checking",
		"histories of issuing operations and clock steps for 11 lifespan configurations, and 34 spans across the ends of minutes, days, months and years; in every state every live credential is used 1 ms before and 1 ms, 1 s and 30 days after its expiry (virtual clock). Non-trivial: the state holds a credential.")
	c.assume = []string{"Virtual clock (testing/synctest): time advances only by explicit steps", "the exact instant of expiry is left open"}
	defer c.finish()
	s := time.Second
	cfgs := map[string][3]time.Duration{
		"acr": {40 * s, 700 * s, 100 * s}, "arc": {40 * s, 100 * s, 700 * s}, "car": {100 * s, 700 * s, 40 * s},
		"cra": {700 * s, 100 * s, 40 * s}, "rac": {100 * s, 40 * s, 700 * s}, "rca": {700 * s, 40 * s, 100 * s},
		"fraction": {1500 * time.Millisecond, 90*s + 250*time.Millisecond, 700 * time.Millisecond},
		"default":  {time.Hour, 7 * 24 * time.Hour, 10 * time.Minute},
		"equal":    {100 * s, 100 * s, 100 * s}, "a=r": {100 * s, 100 * s, 40 * s},
		"long": {40 * 24 * time.Hour, 366 * 24 * time.Hour, 48 * time.Hour},
	}
	d := 3
	if c.thorough() {
		d = 4
	}
	for _, name := range []string{"default", "acr", "arc", "car", "cra", "rac", "rca", "fraction", "equal", "a=r", "long"} {
		l := cfgs[name]
		depth := d
		if c.thorough() && (name == "default" || name == "cra") {
			depth = 5
		}
		mk := func() *Cfg {
			g := baseCfg()
			g.LA, g.LR, g.LC = l[0], l[1], l[2]
			return g
		}
		min := l[0]
		for _, x := range l[1:] {
			if x < min {
				min = x
			}
		}
		c.explore(&Model{Name: "lifespan-" + name, Cfg: mk, Depth: depth,
			Ops: func(w *World) []Op {
				out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "p1", Us: "u2"}, {K: "cc", Cl: "c1", Sc: "foo bar"}, {K: "cc", Cl: "c2"},
					{K: "imp", Cl: "c1", Us: "u1"}, {K: "imp", Cl: "p1", Us: "u1", Sc: "bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "code", Cl: "p1", Us: "u2"}}
				out = append(out, forKind(w, "C", func(c *Cred) []Op { return []Op{{K: "xch", Cl: c.Client, Cr: c.ID}} })...)
				out = append(out, forKind(w, "R", func(c *Cred) []Op {
					o := []Op{{K: "rfr", Cl: c.Client, Cr: c.ID}}
					if len(c.Scope) > 1 {
						o = append(o, Op{K: "rfr", Cl: c.Client, Cr: c.ID, Sc: c.Scope[0]})
					}
					return o
				})...)
				return append(out, Op{K: "adv", D: min * 3 / 4}, Op{K: "adv", D: l[0] + time.Millisecond}, Op{K: "adv", D: l[1] * 2 / 3}, Op{K: "adv", D: l[2] + time.Millisecond})
			},
			Step: func(x *Ctx) string {
				tk := x.R.tokens()
				if tk != nil && tk.Access != "" {
					if want := fmt.Sprint(int64(x.W.Cfg.LA / time.Second)); tk.ExpiresIn != want {
						return fmt.Sprintf("expires_in is %q, want %s", tk.ExpiresIn, want)
					}
				}
				return ""
			},
			State: func(w *World, fork func() *World) string {
				for _, cr := range w.Creds {
					if !cr.live() {
						if cr.dead() && !cr.Spent {
							f := fork()
							if ok, r := f.use(f.Creds[cr.ID]); ok {
								return fmt.Sprintf("expired credential %s is accepted\nanswer: %s", cr, r)
							}
							if cr.Kind != 'C' {
								if a, r := f.active(f.Creds[cr.ID]); a {
									return fmt.Sprintf("expired credential %s is reported active\nanswer: %s", cr, r)
								}
							}
						}
						continue
					}
					left := cr.At.Add(cr.Life).Sub(w.last)
					f := fork()
					f.sleep(left - time.Millisecond)
					fc := f.Creds[cr.ID]
					if cr.Kind != 'C' {
						a, r := f.active(fc)
						if !a {
							return fmt.Sprintf("%s: reported inactive 1 ms before its expiry\nanswer: %s", fc, r)
						}
						exp := fc.At.Add(fc.Life)
						if got, _ := r.json()["exp"].(float64); int64(got) != exp.Unix() && int64(got) != exp.Round(time.Second).Unix() {
							return fmt.Sprintf("%s: introspection reports exp %v, token expires at %d", fc, r.json()["exp"], exp.Unix())
						}
					}
					if ok, r := f.use(fc); !ok {
						return fmt.Sprintf("%s: refused 1 ms before its expiry\nanswer: %s", fc, r)
					}
					for _, after := range []time.Duration{time.Millisecond, time.Second, 30 * 24 * time.Hour} {
						f := fork()
						fc := f.Creds[cr.ID]
						f.sleep(left + after)
						if cr.Kind != 'C' {
							if a, r := f.active(fc); a {
								return fmt.Sprintf("%s: reported active %s after its expiry\nanswer: %s", fc, after, r)
							}
						}
						if ok, r := f.use(fc); ok {
							return fmt.Sprintf("%s: accepted %s after its expiry\nanswer: %s", fc, after, r)
						}
						// still refused when presented again
						if ok, r := f.use(fc); ok {
							return fmt.Sprintf("%s: accepted when presented again %s after its expiry\nanswer: %s", fc, after, r)
						}
					}
				}
				return ""
			}})
	}
	// a crowd of other requests cuts no lifespan short
	c.crowded(nil, func(before, after func() *World, n int) string {
		if msg := sameVector(before, after, n); msg != "" {
			return msg
		}
		if msg := crowdOf(after(), "ACR"); msg != "" {
			return msg
		}
		return eve(after, n)
	})
	// ages and instants: lifespans of decades, of less than a second, and none
	// at all are kept to the letter
	year := 365 * 24 * time.Hour
	var spans [][3]time.Duration
	for _, x := range []time.Duration{0, 1, time.Microsecond, time.Millisecond, 2 * time.Millisecond, 999 * time.Millisecond, time.Second, 1<<31*s - s, 1 << 31 * s, 1<<32*s + s, 9 * year, 20 * year, 31 * year, 39 * year, 60 * year} {
		spans = append(spans, [3]time.Duration{x, 7 * s, 3 * s}, [3]time.Duration{7 * s, x, 3 * s}, [3]time.Duration{7 * s, 3 * s, x})
	}
	hs := [][]Op{
		{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}}, {{K: "cc", Cl: "c2"}}, {{K: "imp", Cl: "c1", Us: "u1"}}, {{K: "code", Cl: "c1", Us: "u1", Sc: "foo"}},
		{{K: "code", Cl: "p1", Us: "u1"}, {K: "xch", Cl: "p1", Cr: 0}}, {{K: "pw", Cl: "p1", Us: "u2"}, {K: "rfr", Cl: "p1", Cr: 1}},
	}
	c.parallel(len(spans)*len(hs)*16, func(i int) { // one clock each
		k, d := i%4, []time.Duration{-time.Millisecond, time.Millisecond, time.Second, 40 * 24 * time.Hour}[i/4%4]
		h, l := hs[i/16%len(hs)], spans[i/16/len(hs)]
		if c.stopped() || c.timeUp() || len(h) == 2 && (l[2] < time.Second && h[0].K == "code" || l[1] < time.Second && h[1].K == "rfr") {
			return // expired before it could be redeemed
		}
		m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.LA, g.LR, g.LC = l[0], l[1], l[2]; return g }}
		c.Case(fmt.Sprintf("span %v %s #%d %s", l, histKey(h), k, d), true, func() string {
			w := m.fresh()
			for _, o := range h {
				if tk := w.do(o).tokens(); tk != nil && tk.Access != "" && tk.ExpiresIn != fmt.Sprint(int64(l[0]/s)) {
					return fmt.Sprintf("expires_in is %s with a lifespan of %s", tk.ExpiresIn, l[0])
				}
			}
			if k >= len(w.Creds) || w.Creds[k].Spent || w.Creds[k].Life+d < 0 {
				return ""
			}
			cr := w.Creds[k]
			exp := cr.At.Add(cr.Life)
			w.sleep(cr.Life + d)
			if cr.Kind != 'C' {
				a, r := w.active(cr)
				if a != (d < 0) {
					return fmt.Sprintf("%s: introspected %s after its end, it is reported active=%v\nanswer: %s", cr, d, a, r)
				}
				if got, _ := r.json()["exp"].(float64); a && int64(got) != exp.Unix() {
					return fmt.Sprintf("%s: introspection reports exp %v, it expires at %d", cr, r.json()["exp"], exp.Unix())
				}
			}
			if ok, r := w.use(cr); ok != (d < 0) {
				return fmt.Sprintf("%s: used %s after its end, honoured=%v\nanswer: %s", cr, d, ok, r)
			}
			return ""
		})
	})
	// the calendar: lifespans that run past the end of a minute, hour, day,
	// month or year are as long as any other
	type edge struct {
		at time.Time
		l  [3]time.Duration
	}
	var edges []edge
	for _, at := range []time.Time{
		time.Date(2000, 1, 1, 1, 0, 0, 0, time.UTC), time.Date(2000, 1, 1, 12, 0, 0, 0, time.UTC), time.Date(2000, 1, 2, 0, 0, 0, 0, time.UTC), time.Date(2000, 2, 1, 0, 0, 0, 0, time.UTC), time.Date(2000, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(2000, 3, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2000, 10, 1, 0, 0, 0, 0, time.UTC), time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2001, 3, 1, 0, 0, 0, 0, time.UTC), time.Date(2001, 9, 9, 1, 46, 40, 0, time.UTC), time.Date(2005, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2033, 5, 18, 3, 33, 20, 0, time.UTC), time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC), time.Date(2070, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2100, 3, 1, 0, 0, 0, 0, time.UTC),
	} {
		edges = append(edges, edge{at, [3]time.Duration{100 * s, 700 * s, 40 * s}}, edge{at, [3]time.Duration{26 * time.Hour, 8 * 24 * time.Hour, 90 * time.Minute}})
	}
	c.parallel(len(edges)*len(hs)*6, func(i int) { // one clock each
		e, h, k, d := edges[i/6/len(hs)], hs[i/6%len(hs)], i%3, time.Duration(i/3%2*2-1)*time.Millisecond
		if c.stopped() || c.timeUp() {
			return
		}
		m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.LA, g.LR, g.LC = e.l[0], e.l[1], e.l[2]; return g }}
		c.Case(fmt.Sprintf("calendar %s %v %s #%d %s", e.at, e.l, histKey(h), k, d), true, func() string {
			w := m.fresh()
			w.sleep(time.Until(e.at.Add(-20 * s)))
			for _, o := range h {
				w.do(o)
			}
			if k >= len(w.Creds) || w.Creds[k].Spent {
				return ""
			}
			cr := w.Creds[k]
			for i := 0; i < 2 && d < 0; i++ { // before the edge, and past it with some life left
				if a, r := w.active(cr); cr.Kind != 'C' && !a {
					return fmt.Sprintf("%s: reported inactive around %s\nanswer: %s", cr, e.at, r)
				}
				if cr.Kind == 'A' {
					if ok, r := w.use(cr); !ok {
						return fmt.Sprintf("%s: refused around %s\nanswer: %s", cr, e.at, r)
					}
				}
				if i == 0 {
					w.sleep(30 * s)
				}
			}
			w.sleep(time.Until(cr.At.Add(cr.Life + d)))
			if a, r := w.active(cr); cr.Kind != 'C' && a != (d < 0) {
				return fmt.Sprintf("%s: introspected %s after its end, it is reported active=%v\nanswer: %s", cr, d, a, r)
			}
			if ok, r := w.use(cr); ok != (d < 0) {
				return fmt.Sprintf("%s: used %s after its end, honoured=%v\nanswer: %s", cr, d, ok, r)
			}
			return ""
		})
	})
	// long refresh chains: every link gets a full lifespan of its own
	n := 30
	c.parallel(2, func(k int) {
		c.Case(fmt.Sprintf("chain %d", k), true, func() string {
			w := newWorld(baseCfg())
			if k == 0 {
				w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"})
			} else {
				w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo"})
				w.do(Op{K: "xch", Cl: "c1", Cr: 0})
			}
			for i := 0; i < n; i++ {
				last := w.Creds[len(w.Creds)-1]
				acc := w.Creds[len(w.Creds)-2]
				w.sleep(w.Cfg.LA - time.Millisecond)
				if ok, r := w.use(acc); !ok {
					return fmt.Sprintf("link %d: access token refused before expiry: %s", i, r)
				}
				w.sleep(2 * time.Millisecond)
				if ok, r := w.use(acc); ok {
					return fmt.Sprintf("link %d: access token accepted after expiry: %s", i, r)
				}
				w.sleep(w.Cfg.LR - w.Cfg.LA - 2*time.Millisecond)
				if ok, r := w.use(last); !ok {
					return fmt.Sprintf("link %d: refresh token refused before expiry: %s", i, r)
				}
			}
			last := w.Creds[len(w.Creds)-1]
			w.sleep(w.Cfg.LR + time.Millisecond)
			if ok, r := w.use(last); ok {
				return fmt.Sprintf("last refresh token accepted after expiry: %s", r)
			}
			return ""
		})
	})
}

// --------------------------------------------------------------------- C03

func scopeLists(al []string, max int) [][]string {
	out := [][]string{{}}
	last := out
	for n := 0; n < max; n++ {
		var next [][]string
		for _, l := range last {
			for _, a := range al {
				next = append(next, append(append([]string{}, l...), a))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// scopeProbe checks by use that a live access token has exactly its scope.
func scopeProbe(w *World, cr *Cred, al []string) string {
	if cr.Kind == 'A' && cr.live() {
		for _, a := range al {
			r := w.do(Op{K: "res", Cr: cr.ID, Sc: a})
			in := subset([]string{a}, cr.Scope)
			if r.OK != in {
				return fmt.Sprintf("%s: resource requiring %q admitted=%v\nanswer: %s", cr, a, r.OK, r)
			}
		}
	}
	if cr.Kind != 'C' && cr.live() {
		a, r := w.active(cr)
		if !a {
			return ""
		}
		if got := splitScope(str(r.json(), "scope")); !sameSet(got, cr.Scope) {
			return fmt.Sprintf("%s: introspection reports scope %q\nanswer: %s", cr, got, r)
		}
	}
	return ""
}

func scopeStep(x *Ctx) string {
	req := splitScope(x.O.Sc)
	t := x.R.tokens()
	want := true
	switch x.O.K {
	case "pw", "cc", "imp", "code":
		want = subset(req, x.W.Cfg.Allowed)
	case "rfr":
		if !x.P.Live {
			return ""
		}
		want = len(req) == 0 || subset(req, x.P.Cred.Scope)
	case "xch":
		if !x.P.Live {
			return ""
		}
	default:
		return ""
	}
	if !want {
		if t != nil {
			return fmt.Sprintf("scope %q granted (allowed %q)", req, x.W.Cfg.Allowed)
		}
		if x.R.err() != "invalid_scope" {
			return fmt.Sprintf("refused with %q, want invalid_scope", x.R.err())
		}
		return ""
	}
	if t == nil {
		return fmt.Sprintf("permitted scope %q refused", req)
	}
	for _, n := range x.issued() {
		if n.Kind != 'C' && !sameSet(splitScope(t.Scope), n.Scope) {
			return fmt.Sprintf("response says scope %q, granted is %q", t.Scope, n.Scope)
		}
	}
	return ""
}

const longScope = "https://api.example.com/auth/calendar.events.readonly"

func TestC03(t *testing.T) {
	c := newCheck(t, "C03", "model_checking",
		"every scope list up to length 3 (quick: 258 lists) over {foo,bar,baz,FOO,fo,foobar} x every grant x 6 allowed sets, and up to length 2 over 18 long and pattern-like values x 5 allowed sets, values of 200 characters changed or cut at every position and lists of 40 values with a foreign one at every position, and refresh chains explored breadth-first; issued scopes verified by response, introspection and by use at resources requiring each value. Non-trivial: a scope was requested.")
	defer c.finish()
	al := []string{"foo", "bar", "baz", "FOO", "fo", "foobar"}
	maxLen := 3
	if c.thorough() {
		maxLen = 4
	}
	for _, set := range []struct {
		al       []string
		max      int
		alloweds [][]string
		grants   []string
	}{
		{al, maxLen, [][]string{{"foo", "bar"}, {}, {"foo"}, {"bar", "foobar", "foo"}, {"FOO", "fo"}, {"foo", "foo"}},
			[]string{"pw", "cc", "imp", "code", "rfr:foo bar", "rfr:foo", "rfr:", "rfr:bar foo bar", "xch:foo", "xch:"}},
		// long values, values that look like patterns, hierarchies and lists
		{[]string{longScope, strings.ToUpper(longScope), longScope[:len(longScope)-1], longScope + "/x", "*", "read:*", "read:a", "read", "a,b", "a", "ü", "Ü", "%66oo", "foo", "-foo", "!foo", ".*", "read:a:b"}, maxLen - 1,
			[][]string{{longScope, "*"}, {"read:*", "a,b"}, {"read", "a"}, {"read:a", "ü"}, {"foo", ".*", "%66oo"}},
			[]string{"pw", "cc", "imp", "code", "rfr:" + longScope + " *", "rfr:*", "rfr:read:*", "rfr:read", "rfr:a,b read:*", "rfr:read:a", "rfr:foo .*", "xch:*", "xch:a"}},
	} {
		al, lists, alloweds, grants := set.al, scopeLists(set.al, set.max), set.alloweds, set.grants
		c.parallel(len(alloweds)*len(grants), func(i int) {
			allowed, g := alloweds[i/len(grants)], grants[i%len(grants)]
			kind, prep, _ := strings.Cut(g, ":")
			for _, l := range lists {
				if c.stopped() || c.timeUp() {
					return
				}
				sc := strings.Join(l, " ")
				m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.Allowed = allowed; return g }, Step: scopeStep}
				var h []Op
				o := Op{K: kind, Cl: "c1", Us: "u1", Sc: sc}
				switch kind {
				case "rfr":
					if !subset(splitScope(prep), allowed) {
						continue
					}
					h = []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: prep}}
					o = Op{K: "rfr", Cl: "c1", Cr: 1, Sc: sc}
				case "xch":
					if !subset(splitScope(prep), allowed) {
						continue
					}
					h = []Op{{K: "code", Cl: "c1", Us: "u1", Sc: prep}}
					o = Op{K: "xch", Cl: "c1", Cr: 0, Sc: sc}
				case "cc":
					o.Us = ""
				}
				c.Case(fmt.Sprintf("allowed=%q %s <- %q", allowed, g, sc), sc != "", func() string {
					c.transitions.Add(1)
					w, msg := m.stepCheck(h, o)
					if msg != "" {
						return msg
					}
					if kind == "code" && len(w.Creds) == 1 {
						// the code's scope shows in the tokens it yields
						w.do(Op{K: "xch", Cl: "c1", Cr: 0, Sc: "baz foo"})
						if len(w.Creds) != 3 {
							return "exchange failed"
						}
					}
					for _, cr := range w.Creds {
						if msg := scopeProbe(w, cr, al); msg != "" {
							return msg
						}
					}
					return ""
				})
			}
		})
	}
	// a value is permitted as a whole: nothing about the characters it ends in
	var odd []string
	for x := '!'; x < 0x7f; x++ {
		odd = append(odd, "foo"+string(x), string(x)+"foo", "foo"+string(x)+"bar")
	}
	odd = append(odd, "foo//", "foo::", "foo/*", "foo:*", "foo.*", "foo\u00df", "foo\u0301")
	c.parallel(len(odd), func(i int) {
		for _, pair := range [][2]string{{"foo", odd[i]}, {odd[i], "foo"}, {odd[i], odd[i]}, {odd[i], "foo bar"}, {"foo bar", odd[i]}} {
			for _, g := range []string{"pw", "cc", "imp", "code", "rfr", "res"} {
				if c.stopped() || c.timeUp() {
					return
				}
				allowed, req := splitScope(pair[0]), pair[1]
				m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.Allowed = allowed; return g }, Step: scopeStep}
				var h []Op
				o := Op{K: g, Cl: "c1", Us: "u1", Sc: req}
				switch g {
				case "cc":
					o.Us = ""
				case "rfr":
					h = []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: pair[0]}}
					o = Op{K: "rfr", Cl: "c1", Cr: 1, Sc: req}
				}
				c.Case(fmt.Sprintf("allowed=%q %s <- %q", pair[0], g, req), true, func() string {
					if g == "res" {
						w := m.run([]Op{{K: "pw", Cl: "c1", Us: "u1", Sc: pair[0]}})
						return scopeProbe(w, w.Creds[0], []string{req, "foo", odd[i]})
					}
					_, msg := m.stepCheck(h, o)
					return msg
				})
			}
		}
	})
	c.longScopes()
	c.longResources()
	d := 4
	if c.thorough() {
		d = 6
	}
	rs := []string{"", "foo", "bar", "bar foo", "foo baz", "baz", "FOO", "foo foo", "foo bar foo", "fo"}
	for _, start := range [][]Op{
		{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}}, {{K: "cc", Cl: "c1", Sc: "bar foo"}}, {{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}},
		{{K: "pw", Cl: "p1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "p1", Us: "u1", Sc: "bar"}},
	} {
		c.explore(&Model{Name: "chain " + histKey(start), Cfg: baseCfg, Depth: d,
			Init: func(w *World) {
				for _, o := range start {
					w.do(o)
				}
			},
			Ops: func(w *World) []Op {
				var out []Op
				n := 0
				for i := len(w.Creds) - 1; i >= 0 && n < 2; i-- { // the two newest live refresh tokens
					cr := w.Creds[i]
					if cr.Kind != 'R' || cr.Spent {
						continue
					}
					n++
					for _, s := range rs {
						out = append(out, Op{K: "rfr", Cl: cr.Client, Cr: cr.ID, Sc: s})
					}
				}
				out = append(out, forKind(w, "C", func(c *Cred) []Op {
					if c.Spent {
						return nil
					}
					return []Op{{K: "xch", Cl: c.Client, Cr: c.ID}, {K: "xch", Cl: c.Client, Cr: c.ID, Sc: "foo"}, {K: "xch", Cl: c.Client, Cr: c.ID, Sc: "foo bar baz"}}
				})...)
				return out
			},
			Step: scopeStep,
			State: func(w *World, fork func() *World) string {
				for _, cr := range w.Creds {
					if msg := scopeProbe(w, cr, al); msg != "" {
						return msg
					}
				}
				return ""
			}})
	}
	// long narrowing/inheriting chain
	c.parallel(1, func(int) {
		c.Case("long chain", true, func() string {
			w := newWorld(baseCfg())
			w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"})
			for i := 0; i < 40; i++ {
				sc := ""
				if i == 20 {
					sc = "bar"
				}
				if r := w.do(Op{K: "rfr", Cl: "c1", Cr: len(w.Creds) - 1, Sc: sc}); r.tokens() == nil {
					return fmt.Sprintf("link %d refused: %s", i, r)
				}
				for _, cr := range w.Creds {
					if msg := scopeProbe(w, cr, al); msg != "" {
						return fmt.Sprintf("link %d: %s", i, msg)
					}
				}
				last := w.Creds[len(w.Creds)-1]
				for _, s := range []string{"foo bar baz", "baz", "foo"} {
					if subset(splitScope(s), last.Scope) {
						continue
					}
					if r := w.do(Op{K: "rfr", Cl: "c1", Cr: last.ID, Sc: s}); r.tokens() != nil {
						return fmt.Sprintf("link %d: scope %q granted to %s", i, s, last)
					}
				}
			}
			return ""
		})
	})
}

// --------------------------------------------------------------------- C04

func TestC04(t *testing.T) {
	c := newCheck(t, "C04", "model_checking",
		"histories of authorizations, exchanges (good and bad), refreshes, revocations, unrelated grants, clock steps and replays, merged by canonical state; every replay is compared before/after by using every credential; every state re-checks all invalidated credentials; families of up to 1050 (thorough 10100) refreshes. Non-trivial: the state holds a credential.")
	defer c.finish()
	step := func(x *Ctx) string {
		if x.O.K != "xch" || x.P.Cred == nil || x.P.Cred.Kind != 'C' {
			return ""
		}
		good := x.W.authed(x.O) && x.O.Cl == x.P.Cred.Client && x.O.Rd == ""
		t := x.R.tokens()
		if !x.P.Cred.Spent {
			if good && x.P.Live && t == nil {
				return "first exchange of a valid code refused"
			}
			return ""
		}
		if t != nil || x.R.Code < 400 {
			return fmt.Sprintf("replayed code %s was accepted", x.P.Cred)
		}
		if !x.W.authed(x.O) || x.O.Cl != x.P.Cred.Client {
			// by somebody else: must not touch tokens that do not descend from the code
			return x.unaffected(func(k *Cred) bool { return k.Code == x.P.Cred.ID })
		}
		if x.R.err() != "invalid_grant" {
			return fmt.Sprintf("replay refused with %q, want invalid_grant", x.R.err())
		}
		return x.unaffected(func(k *Cred) bool { return k.Code == x.P.Cred.ID })
	}
	state := func(w *World, fork func() *World) string {
		var f *World
		for _, cr := range w.Creds {
			if cr.Kind == 'C' || !cr.Killed {
				continue
			}
			if f == nil {
				f = fork()
			}
			if a, r := f.active(f.Creds[cr.ID]); a {
				return fmt.Sprintf("%s descends from a replayed code but is reported active\nanswer: %s", cr, r)
			}
			if ok, r := f.use(f.Creds[cr.ID]); ok {
				return fmt.Sprintf("%s descends from a replayed code but is accepted\nanswer: %s", cr, r)
			}
		}
		return ""
	}
	mk := func(extraClients bool) func(w *World) []Op {
		return func(w *World) []Op {
			out := []Op{{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}}
			if extraClients {
				out = append(out, Op{K: "code", Cl: "p1", Us: "u2"}, Op{K: "imp", Cl: "c1", Us: "u1"})
			}
			out = append(out, forKind(w, "C", func(k *Cred) []Op {
				o := []Op{{K: "xch", Cl: k.Client, Cr: k.ID}, {K: "xch", Cl: k.Client, Cr: k.ID, Rd: "https://evil.example/cb"}}
				if extraClients {
					o = append(o, Op{K: "xch", Cl: "c2", Cr: k.ID}, Op{K: "xch", Cl: k.Client, Cr: k.ID, Rd: "-"})
					if k.Client == "c1" {
						o = append(o, Op{K: "xch", Cl: "c1", Cr: k.ID, Sec: "wrong"})
					}
				}
				return o
			})...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op {
				if k.Spent {
					return nil
				}
				o := []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}}
				if len(k.Scope) > 1 {
					o = append(o, Op{K: "rfr", Cl: k.Client, Cr: k.ID, Sc: k.Scope[1]})
				}
				return o
			})...)
			if extraClients {
				out = append(out, forKind(w, "AR", func(k *Cred) []Op {
					if k.Revoked || k.Spent {
						return nil
					}
					return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}}
				})...)
			}
			return append(out, Op{K: "adv", D: 41 * time.Second}, Op{K: "adv", D: 101 * time.Second})
		}
	}
	d1, d2 := 4, 5
	if c.thorough() {
		d1, d2 = 5, 7
	}
	c.explore(&Model{Name: "replay-wide", Cfg: baseCfg, Depth: d1, Ops: mk(true), Step: step, State: state})
	c.explore(&Model{Name: "replay-deep", Cfg: baseCfg, Depth: d2, Ops: mk(false), Step: step, State: state})
	// a code used after expiry: the exchange window may be over, replay still counts
	long := func() *Cfg { g := baseCfg(); g.LC = 10 * time.Second; return g }
	c.explore(&Model{Name: "replay-after-expiry", Cfg: long, Depth: d2, Step: step, State: state,
		Init: func(w *World) {
			w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "xch", Cl: "c1", Cr: 2})
		},
		Ops: func(w *World) []Op {
			out := []Op{{K: "adv", D: 11 * time.Second}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}}
			out = append(out, forKind(w, "C", func(k *Cred) []Op {
				return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}, {K: "xch", Cl: k.Client, Cr: k.ID, Rd: "https://evil.example/cb"}, {K: "xch", Cl: k.Client, Cr: k.ID, Rd: "-"}, {K: "xch", Cl: k.Client, Cr: k.ID, Sc: "baz"}}
			})...)
			return append(out, forKind(w, "R", func(k *Cred) []Op {
				if k.Spent || k.Killed {
					return nil
				}
				return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}}
			})...)
		}})
	// among a crowd of other requests
	c.crowded(func(k crowd) bool { return k.name != "uses" && k.name != "introspections" }, func(before, after func() *World, n int) string {
		w := after()
		if r := w.do(Op{K: "xch", Cl: "c1", Cr: 5}); r.Code < 400 || r.tokens() != nil {
			return fmt.Sprintf("replayed code accepted\nanswer: %s", r)
		}
		if msg := crowdOf(w, "AR"); msg != "" {
			return "after the replay of a code: " + msg
		}
		return sameVector(func() *World {
			w := before()
			w.do(Op{K: "xch", Cl: "c1", Cr: 5})
			return w
		}, func() *World {
			w := after()
			w.do(Op{K: "xch", Cl: "c1", Cr: 5})
			return w
		}, n)
	})
	c.longFamilies()
	// deep descent: replay after n refreshes, for every n
	c.parallel(30, func(n int) {
		c.Case(fmt.Sprintf("replay after %d refreshes", n), true, func() string {
			m := &Model{Cfg: baseCfg, Step: step, State: state}
			h := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"},
				{K: "xch", Cl: "c1", Cr: 2}, {K: "xch", Cl: "c1", Cr: 3}}
			last := 5
			for i := 0; i < n; i++ {
				o := Op{K: "rfr", Cl: "c1", Cr: last}
				if i == 3 {
					o.Sc = "foo"
				}
				h = append(h, o)
				last = 7 + 2*i + 2
			}
			c.transitions.Add(int64(len(h)))
			if _, msg := m.stepCheck(h, Op{K: "xch", Cl: "c1", Cr: 2}); msg != "" {
				return msg
			}
			if w := m.run(h); len(w.Creds) != 8+2*n {
				return fmt.Sprintf("history did not issue the expected credentials (%d)", len(w.Creds))
			}
			h = append(h, Op{K: "xch", Cl: "c1", Cr: 2})
			return m.stateCheck(h)
		})
	})
}

// --------------------------------------------------------------------- C05

func TestC05(t *testing.T) {
	c := newCheck(t, "C05", "model_checking",
		"sequences of refreshes with any current, spent or foreign token, right/wrong client, secret, scope and form, from grants of every type, merged by canonical state; each refused or successful refresh is compared before/after by using every other credential. Non-trivial: the state holds a credential.")
	defer c.finish()
	step := func(x *Ctx) string {
		if x.O.K != "rfr" || x.P.Cred == nil || x.P.Cred.Kind != 'R' {
			return ""
		}
		k := x.P.Cred
		t := x.R.tokens()
		good := x.W.authed(x.O) && x.O.Cl == k.Client && (x.O.Sc == "" || subset(splitScope(x.O.Sc), k.Scope))
		if k.Spent {
			if t != nil || x.R.Code < 400 {
				return fmt.Sprintf("spent refresh token %s accepted", k)
			}
			if x.W.authed(x.O) && x.R.err() != "invalid_grant" {
				return fmt.Sprintf("spent refresh token refused with %q", x.R.err())
			}
			return x.unaffected(nil)
		}
		if t == nil {
			if good && x.P.Live {
				return fmt.Sprintf("live refresh token %s refused", k)
			}
			return x.unaffected(nil)
		}
		if t.Access == "" || t.Refresh == "" {
			return "refresh did not return both a new access and a new refresh token"
		}
		for _, o := range x.W.Creds[:x.P.N] {
			if o.Str == t.Access || o.Str == t.Refresh || t.Access == t.Refresh {
				return "refresh returned an already issued token"
			}
		}
		return x.unaffected(func(o *Cred) bool { return o.ID == k.ID })
	}
	state := func(w *World, fork func() *World) string {
		for _, cr := range w.Creds {
			if cr.Kind != 'R' || cr.Revoked || cr.Killed {
				continue
			}
			f := fork()
			fc := f.Creds[cr.ID]
			if cr.Spent {
				if a, r := f.active(fc); a {
					return fmt.Sprintf("spent %s is reported active\nanswer: %s", cr, r)
				}
			}
			ok, r := f.use(fc)
			if cr.live() && !ok {
				return fmt.Sprintf("%s cannot be redeemed\nanswer: %s", cr, r)
			}
			if cr.Spent && ok {
				return fmt.Sprintf("spent %s redeemed again\nanswer: %s", cr, r)
			}
			if ok {
				if ok2, r := f.use(fc); ok2 {
					return fmt.Sprintf("%s redeemed twice\nanswer: %s", cr, r)
				}
				if ok2, r := f.use(f.Creds[len(f.Creds)-1]); !ok2 {
					return fmt.Sprintf("successor of %s cannot be redeemed\nanswer: %s", cr, r)
				}
				// a token redeemed shortly before it expires is spent all the same
				for _, d := range []time.Duration{time.Millisecond, 700 * time.Millisecond, 30 * time.Second} {
					f := fork()
					fc := f.Creds[cr.ID]
					rest := time.Until(fc.At.Add(fc.Life)) - d
					if fc.At.IsZero() || fc.Life == 0 || rest < 0 {
						continue
					}
					f.sleep(rest)
					if ok, r := f.use(fc); !ok {
						return fmt.Sprintf("%s cannot be redeemed %s before it expires\nanswer: %s", cr, d, r)
					}
					if ok, r := f.use(fc); ok {
						return fmt.Sprintf("%s, redeemed %s before it expires, is redeemed again\nanswer: %s", cr, d, r)
					}
				}
			}
		}
		return ""
	}
	opsFn := func(rich bool) func(w *World) []Op {
		return func(w *World) []Op {
			var out []Op
			if rich {
				out = append(out, Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, Op{K: "cc", Cl: "c2"}, Op{K: "code", Cl: "p1", Us: "u2", Sc: "foo"}, Op{K: "pw", Cl: "p1", Us: "u1", Sc: "bar"})
				out = append(out, forKind(w, "C", func(k *Cred) []Op {
					if k.Spent {
						return nil
					}
					return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}}
				})...)
			}
			out = append(out, forKind(w, "R", func(k *Cred) []Op {
				o := []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}, {K: "rfr", Cl: k.Client, Cr: k.ID, Sc: "baz"}}
				if len(k.Scope) > 1 {
					o = append(o, Op{K: "rfr", Cl: k.Client, Cr: k.ID, Sc: k.Scope[0]}, Op{K: "rfr", Cl: k.Client, Cr: k.ID, Sc: strings.Join(k.Scope, " ") + " baz"})
				}
				for _, other := range others(w, k.Client) {
					o = append(o, Op{K: "rfr", Cl: other, Cr: k.ID})
				}
				if w.client(k.Client).Conf {
					o = append(o, Op{K: "rfr", Cl: k.Client, Cr: k.ID, Sec: "wrong"}, Op{K: "rfr", Cl: k.Client, Cr: k.ID, B: true})
				}
				return o
			})...)
			return append(out, Op{K: "adv", D: 101 * time.Second}, Op{K: "adv", D: 400 * time.Second})
		}
	}
	d1, d2 := 3, 5
	if c.thorough() {
		d1, d2 = 4, 7
	}
	c.explore(&Model{Name: "rotate-wide", Cfg: baseCfg, Depth: d1, Ops: opsFn(true), Step: step, State: state})
	for _, start := range [][]Op{
		{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}},
		{{K: "cc", Cl: "c1", Sc: "foo"}},
		{{K: "code", Cl: "p1", Us: "u2", Sc: "foo"}, {K: "xch", Cl: "p1", Cr: 0}},
		{{K: "pw", Cl: "c1", Us: "u1"}, {K: "pw", Cl: "c1", Us: "u1"}},
	} {
		c.explore(&Model{Name: "rotate-deep " + histKey(start), Cfg: baseCfg, Depth: d2,
			Init: func(w *World) {
				for _, o := range start {
					w.do(o)
				}
			},
			Ops: func(w *World) []Op {
				out := forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })
				return append(out, Op{K: "adv", D: 300 * time.Second})
			}, Step: step, State: state})
	}
	// string forms that are not refresh tokens never redeem and spend nothing
	c.parallel(1, func(int) {
		m := &Model{Cfg: baseCfg, Step: func(x *Ctx) string {
			if x.R.tokens() != nil || x.R.Code < 400 {
				return "accepted"
			}
			return x.unaffected(nil)
		}}
		h := richHistory()
		w := m.run(h)
		bad := []string{"x", ".", "none", "a.b", ""}
		for _, cr := range w.Creds {
			if cr.Kind != 'R' {
				bad = append(bad, formOf(cr, "same"))
			}
			for _, f := range credForms[1:] {
				bad = append(bad, formOf(cr, f.name))
			}
		}
		for _, b := range bad {
			for _, cl := range []string{"c1", "c2", "p1"} {
				if b == "" {
					continue
				}
				c.Case(fmt.Sprintf("not a refresh token: %s by %s", b, cl), true, func() string {
					_, msg := m.stepCheck(h, Op{K: "rfr", Cl: cl, X: b})
					return msg
				})
			}
		}
	})
	// long chain: every older link stays spent, the newest stays redeemable
	c.parallel(3, func(k int) {
		c.Case(fmt.Sprintf("long chain %d", k), true, func() string {
			w := newWorld(baseCfg())
			cl := []string{"c1", "c2", "p1"}[k]
			w.do(Op{K: "pw", Cl: cl, Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "pw", Cl: cl, Us: "u1", Sc: "foo bar"})
			n := 50
			for i := 0; i < n; i++ {
				newest := w.byKind('R')
				tip := newest[len(newest)-1]
				if i == 0 {
					tip = newest[0]
				}
				for _, old := range newest {
					if old.Spent {
						if ok, r := w.use(old); ok {
							return fmt.Sprintf("link %d: spent %s redeemed: %s", i, old, r)
						}
					}
				}
				w.sleep(time.Second)
				if ok, r := w.use(tip); !ok {
					return fmt.Sprintf("link %d: %s refused: %s", i, tip, r)
				}
			}
			if ok, r := w.use(w.Creds[3]); !ok {
				return fmt.Sprintf("parallel refresh token was affected: %s", r)
			}
			return ""
		})
	})
	c.crowded(nil, func(before, after func() *World, n int) string {
		w := after()
		if msg := crowdOf(w, "R"); msg != "" { // redeems all that are live
			return msg
		}
		return crowdOf(w, "R")
	})
}

// --------------------------------------------------------------------- C06

func TestC06(t *testing.T) {
	c := newCheck(t, "C06", "model_checking",
		"histories of grants, refreshes, exchanges, clock steps and revocations of every credential by every requester with every hint, merged by canonical state; every revocation is compared before/after by using every other credential; every state re-checks all revoked credentials. Non-trivial: the state holds a credential.")
	defer c.finish()
	hints := []string{"", "access_token", "refresh_token", "bogus", "Access_Token"}
	known := map[string]bool{"": true, "access_token": true, "refresh_token": true}
	step := func(x *Ctx) string {
		if x.O.K != "rev" || x.P.Cred == nil {
			return ""
		}
		k := x.P.Cred
		authed := x.W.authed(x.O) && !x.O.B // form credentials do not count at this endpoint
		owner := x.O.Cl == k.Client && authed
		if !known[x.O.H] || !authed || (!owner && x.P.Live && k.Kind != 'C') {
			if x.R.Code < 400 {
				return fmt.Sprintf("revocation of %s by %s with hint %q must be refused", k, x.O.Cl, x.O.H)
			}
			return x.unaffected(nil)
		}
		if owner && x.R.Code != 200 {
			return fmt.Sprintf("revocation of %s by its owner (hint %q) refused", k, x.O.H)
		}
		return x.unaffected(func(o *Cred) bool { return o.ID == k.ID && owner && k.Kind != 'C' })
	}
	state := func(w *World, fork func() *World) string {
		var f *World
		for _, cr := range w.Creds {
			if !cr.Revoked {
				continue
			}
			if f == nil {
				f = fork()
			}
			fc := f.Creds[cr.ID]
			if a, r := f.active(fc); a {
				return fmt.Sprintf("revoked %s is reported active\nanswer: %s", cr, r)
			}
			if ok, r := f.use(fc); ok {
				return fmt.Sprintf("revoked %s is accepted\nanswer: %s", cr, r)
			}
			if r := f.do(Op{K: "rev", Cl: cr.Client, Cr: cr.ID, H: "refresh_token"}); r.Code != 200 {
				return fmt.Sprintf("repeated revocation of %s answered %s", cr, r)
			}
			if a, r := f.active(fc); a {
				return fmt.Sprintf("twice revoked %s is reported active\nanswer: %s", cr, r)
			}
		}
		return ""
	}
	d := 3
	if c.thorough() {
		d = 4
	}
	c.explore(&Model{Name: "revoke-wide", Cfg: baseCfg, Depth: d, Step: step, State: state,
		Ops: func(w *World) []Op {
			out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "cc", Cl: "c2", Sc: "foo"}, {K: "imp", Cl: "p1", Us: "u2"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "pw", Cl: "p1", Us: "u1"}}
			out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "ARC", func(k *Cred) []Op {
				var o []Op
				for _, h := range hints {
					o = append(o, Op{K: "rev", Cl: k.Client, Cr: k.ID, H: h})
				}
				for _, cl := range append(others(w, k.Client), "nobody") {
					o = append(o, Op{K: "rev", Cl: cl, Cr: k.ID}, Op{K: "rev", Cl: cl, Cr: k.ID, H: "refresh_token"}, Op{K: "rev", Cl: cl, Cr: k.ID, H: "access_token"})
				}
				if w.client(k.Client).Conf {
					o = append(o, Op{K: "rev", Cl: k.Client, Cr: k.ID, Sec: "wrong"}, Op{K: "rev", Cl: k.Client, Cr: k.ID, Sec: "-"}, Op{K: "rev", Cl: k.Client, Cr: k.ID, B: true})
				}
				return o
			})...)
			return append(out, Op{K: "adv", D: 41 * time.Second}, Op{K: "adv", D: 101 * time.Second})
		}})
	c.explore(&Model{Name: "revoke-deep", Cfg: baseCfg, Depth: d + 2, Step: step, State: state,
		Init: func(w *World) {
			w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "xch", Cl: "c1", Cr: 0})
			w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"})
		},
		Ops: func(w *World) []Op {
			var out []Op
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
			return append(out, Op{K: "xch", Cl: "c1", Cr: 0}, Op{K: "adv", D: 101 * time.Second})
		}})
	// malformed and unknown tokens
	c.parallel(1, func(int) {
		h := richHistory()
		m := &Model{Cfg: baseCfg, Step: func(x *Ctx) string {
			unknown := strings.HasPrefix(x.O.St, "unknown")
			if unknown && x.R.Code != 200 {
				return "revocation of an unknown token must be answered 200"
			}
			if !unknown && x.R.Code < 400 {
				return "revocation of a malformed token accepted"
			}
			return x.unaffected(nil)
		}}
		w := m.run(h)
		for i, cr := range w.Creds {
			for _, f := range credForms[1:] {
				for _, hint := range hints[:3] {
					c.Case(fmt.Sprintf("malformed %d/%s %s", i, f.name, hint), true, func() string {
						_, msg := m.stepCheck(h, Op{K: "rev", Cl: cr.Client, X: formOf(cr, f.name), H: hint})
						return msg
					})
				}
			}
		}
		for i := 0; i < 5; i++ {
			tk := oauth2.HS256TokenFromKey([]byte(w.Cfg.Secret), []byte(fmt.Sprintf("unissued key %d ", i))).String()
			for _, cl := range []string{"c1", "c2", "p1"} {
				for _, hint := range hints[:3] {
					c.Case(fmt.Sprintf("unknown %d %s %s", i, cl, hint), true, func() string {
						_, msg := m.stepCheck(h, Op{K: "rev", Cl: cl, X: tk, H: hint, St: "unknown"})
						return msg
					})
				}
			}
		}
	})
	// lifespans that coincide
	for _, l := range [][3]time.Duration{{100, 100, 100}, {700, 700, 40}} {
		c.explore(&Model{Name: fmt.Sprint("revoke-lifespans-", l[0]), Depth: d, Step: step, State: state,
			Cfg: func() *Cfg {
				g := baseCfg()
				g.LA, g.LR, g.LC = l[0]*time.Second, l[1]*time.Second, l[2]*time.Second
				return g
			},
			Init: func(w *World) {
				w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"})
				w.do(Op{K: "xch", Cl: "c1", Cr: 0})
				w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"})
			},
			Ops: func(w *World) []Op {
				out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}}
				out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
				out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
				return append(out, forKind(w, "AR", func(k *Cred) []Op {
					return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}, {K: "rev", Cl: k.Client, Cr: k.ID, H: "refresh_token"}}
				})...)
			}})
	}
	// among a crowd of other requests
	c.crowded(nil, func(before, after func() *World, n int) string {
		rev := func(f func() *World) func() *World {
			return func() *World {
				w := f()
				w.do(Op{K: "rev", Cl: "c1", Cr: 12})
				w.do(Op{K: "rev", Cl: "c2", Cr: 2})
				return w
			}
		}
		if msg := sameVector(rev(before), rev(after), n); msg != "" {
			return msg
		}
		w := rev(after)()
		for i, k := range w.Creds {
			if i%3 == 0 && k.Kind != 'C' && i >= n && !k.Spent {
				w.do(Op{K: "rev", Cl: k.Client, Cr: k.ID})
			}
		}
		return crowdOf(w, "AR")
	})
}

// --------------------------------------------------------------------- C08

func TestC08(t *testing.T) {
	c := newCheck(t, "C08", "model_checking",
		"histories over 6 clients (confidential and public, sharing secret and redirect URI), merged by canonical state; in every state every credential x every other client x every use, followed by comparison of all credentials' usability; own use must work; two clients whose identifiers of 200 characters differ at, or end at, any position. Non-trivial: the state holds a credential.")
	defer c.finish()
	cfg := func() *Cfg {
		g := baseCfg()
		g.Clients = append(g.Clients,
			ClientSpec{"c3", "s1-Secret", "https://c1.example.com/cb", true}, // twin of c1
			ClientSpec{"p2", "", "https://p1.example.com/app", false},        // twin of p1
			ClientSpec{"C1", "s1-Secret", "https://c1.example.com/cb", true}, // c1 in upper case
			ClientSpec{"p3", "s1-Secret", "https://c1.example.com/cb", false})
		return g
	}
	d := 2
	if c.thorough() {
		d = 3
	}
	check := func(w *World, fork func() *World) string {
		n := len(w.Creds)
		if n == 0 {
			return ""
		}
		want := fork().vector(n)
		for _, cr := range w.Creds {
			for _, cl := range others(w, cr.Client) {
				var uses []Op
				switch cr.Kind {
				case 'C':
					uses = []Op{{K: "xch", Cl: cl, Cr: cr.ID}, {K: "xch", Cl: cl, Cr: cr.ID, B: true}, {K: "xch", Cl: cl, Cr: cr.ID, Rd: w.client(cl).Redirect}}
					if cr.Spent {
						uses = nil // replay by a stranger: see C04
					}
				case 'R':
					uses = []Op{{K: "rfr", Cl: cl, Cr: cr.ID}, {K: "rfr", Cl: cl, Cr: cr.ID, B: true}, {K: "rfr", Cl: cl, Cr: cr.ID, Sc: strings.Join(cr.Scope, " ")}}
					fallthrough
				case 'A':
					for _, h := range []string{"", "access_token", "refresh_token"} {
						uses = append(uses, Op{K: "rev", Cl: cl, Cr: cr.ID, H: h}, Op{K: "int", Cl: cl, Cr: cr.ID, H: h})
					}
				}
				for _, u := range uses {
					f := fork()
					live := f.Creds[cr.ID].live()
					r := f.do(u)
					who := fmt.Sprintf("%s by client %s on %s\nanswer: %s", u.key(), cl, cr, r)
					if r.tokens() != nil {
						return "tokens issued: " + who
					}
					if live && r.Code < 400 {
						return "not refused: " + who
					}
					if m := r.json(); m != nil {
						for _, k := range []string{"username", "exp", "token_type", "client_id", "scope"} {
							if _, ok := m[k]; ok {
								return "discloses " + k + ": " + who
							}
						}
						if m["active"] == true {
							return "discloses activity: " + who
						}
					}
					g := fork()
					g.do(u)
					if len(g.Creds) != n {
						return "issued credentials: " + who
					}
					got := g.vector(n)
					for i := range want {
						if got[i] != want[i] {
							return fmt.Sprintf("credential %s changed from [%s] to [%s]: %s", w.Creds[i], want[i], got[i], who)
						}
					}
				}
			}
			if cr.live() { // control: the owner can
				f := fork()
				if ok, r := f.use(f.Creds[cr.ID]); !ok {
					return fmt.Sprintf("owner cannot use %s\nanswer: %s", cr, r)
				}
			}
		}
		return ""
	}
	c.longOwners(check)
	c.explore(&Model{Name: "binding", Cfg: cfg, Depth: d, State: check,
		Ops: func(w *World) []Op {
			var out []Op
			for _, cl := range w.Cfg.Clients {
				out = append(out, Op{K: "pw", Cl: cl.ID, Us: "u1", Sc: "foo"}, Op{K: "code", Cl: cl.ID, Us: "u1", Sc: "foo"}, Op{K: "imp", Cl: cl.ID, Us: "u1"})
				if cl.Conf {
					out = append(out, Op{K: "cc", Cl: cl.ID, Sc: "foo bar"})
				}
			}
			out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
			return append(out, Op{K: "adv", D: 41 * time.Second}, Op{K: "adv", D: 101 * time.Second})
		}})
	c.explore(&Model{Name: "binding-descent", Cfg: cfg, Depth: d + 1, State: check,
		Init: func(w *World) {
			w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "code", Cl: "p2", Us: "u2", Sc: "foo"})
		},
		Ops: func(w *World) []Op {
			out := forKind(w, "C", func(k *Cred) []Op {
				if k.Spent {
					return nil
				}
				return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}}
			})
			out = append(out, forKind(w, "R", func(k *Cred) []Op {
				if k.Spent {
					return nil
				}
				return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}}
			})...)
			return append(out, Op{K: "adv", D: 101 * time.Second})
		}})
}

// --------------------------------------------------------------------- C11

// expiries lists the distinct moments at which credentials end.
func expiries(w *World) []time.Time {
	var out []time.Time
	seen := map[time.Time]bool{}
	for _, c := range w.Creds {
		if t := c.At.Add(c.Life); !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].After(out[j]) })
	return out
}

func introspectionOracle(w *World, fork func() *World) string {
	n := len(w.Creds)
	var before []string
	if n > 0 {
		before = fork().vector(n)
	}
	for _, cr := range w.Creds {
		usable := false
		if cr.Kind != 'C' {
			f := fork()
			usable, _ = f.use(f.Creds[cr.ID])
		}
		w := fork()
		cr := w.Creds[cr.ID]
		for _, h := range []string{"", "access_token", "refresh_token"} {
			r := w.do(Op{K: "int", Cl: cr.Client, Cr: cr.ID, H: h})
			m := r.json()
			if r.Code != 200 || m == nil {
				return fmt.Sprintf("introspection of %s by its owner (hint %q) failed\nanswer: %s", cr, h, r)
			}
			act, _ := m["active"].(bool)
			if act != usable {
				return fmt.Sprintf("introspection says active=%v for %s, but use succeeds=%v\nanswer: %s", act, cr, usable, r)
			}
			if !act {
				if len(m) != 1 || m["active"] != false {
					return fmt.Sprintf("inactive answer carries more than active=false for %s\nanswer: %s", cr, r)
				}
				continue
			}
			kind := kindHint(cr.Kind)
			if str(m, "token_type") != kind {
				return fmt.Sprintf("introspection of %s reports token_type %v\nanswer: %s", cr, m["token_type"], r)
			}
			if str(m, "client_id") != cr.Client || str(m, "username") != cr.User {
				return fmt.Sprintf("introspection of %s reports client %v user %v\nanswer: %s", cr, m["client_id"], m["username"], r)
			}
			if !sameSet(splitScope(str(m, "scope")), cr.Scope) {
				return fmt.Sprintf("introspection of %s reports scope %v\nanswer: %s", cr, m["scope"], r)
			}
			exp := cr.At.Add(cr.Life)
			if e, _ := m["exp"].(float64); int64(e) != exp.Unix() && int64(e) != exp.Round(time.Second).Unix() {
				return fmt.Sprintf("introspection of %s reports exp %v, expires at %d\nanswer: %s", cr, m["exp"], exp.Unix(), r)
			}
			var raw map[string]json.RawMessage
			_ = json.Unmarshal([]byte(r.Body), &raw)
			for k := range raw {
				switch k {
				case "active", "scope", "client_id", "username", "token_type", "exp", "iat", "nbf", "sub", "aud", "iss", "jti":
				default:
					return fmt.Sprintf("introspection of %s reports unexpected member %q\nanswer: %s", cr, k, r)
				}
			}
		}
	}
	// around and after every expiry
	for i, at := range expiries(w) {
		for _, d := range []time.Duration{-time.Millisecond, time.Millisecond, 30 * 24 * time.Hour} {
			if d > time.Hour && i > 0 {
				continue
			}
			f := fork()
			if !at.Add(d).After(f.last) {
				continue
			}
			f.sleep(at.Add(d).Sub(f.last))
			for _, cr := range f.Creds {
				for _, h := range []string{"", kindHint(cr.Kind)} {
					r := f.do(Op{K: "int", Cl: cr.Client, Cr: cr.ID, H: h})
					m := r.json()
					if r.Code != 200 || m == nil {
						return fmt.Sprintf("introspection of %s by its owner failed\nanswer: %s", cr, r)
					}
					act, _ := m["active"].(bool)
					if cr.Kind == 'C' && act || cr.Kind != 'C' && (act && cr.dead() || !act && cr.live()) {
						return fmt.Sprintf("introspection says active=%v for %s\nanswer: %s", act, cr, r)
					}
					if !act && (len(m) != 1 || m["active"] != false) {
						return fmt.Sprintf("inactive answer carries more than active=false for %s\nanswer: %s", cr, r)
					}
				}
			}
		}
	}
	w = fork()
	for _, cr := range w.Creds {
		for _, h := range []string{"", "access_token", "refresh_token", "bogus", ""} {
			w.do(Op{K: "int", Cl: cr.Client, Cr: cr.ID, H: h})
		}
	}
	// unknown token
	tk := oauth2.HS256TokenFromKey([]byte(w.Cfg.Secret), []byte("never issued key")).String()
	for _, cl := range []string{"c1", "p1"} {
		r := w.do(Op{K: "int", Cl: cl, X: tk})
		if m := r.json(); r.Code != 200 || len(m) != 1 || m["active"] != false {
			return fmt.Sprintf("introspection of an unknown token\nanswer: %s", r)
		}
	}
	// all that introspecting changed nothing
	if n > 0 {
		after := w.vector(n)
		for i := range before {
			if before[i] != after[i] {
				return fmt.Sprintf("introspection changed %s from [%s] to [%s]", w.Creds[i], before[i], after[i])
			}
		}
	}
	return ""
}

func TestC11(t *testing.T) {
	c := newCheck(t, "C11", "model_checking",
		"histories of grants, exchanges, refreshes, revocations, replays and clock steps merged by canonical state; in every state every credential ever issued is introspected with every hint, compared with an actual use and with what was granted, and all credentials are re-used afterwards. Non-trivial: the state holds a credential.")
	defer c.finish()
	d := 3
	if c.thorough() {
		d = 5
	}
	c.explore(&Model{Name: "introspect", Cfg: baseCfg, Depth: d, State: introspectionOracle,
		Ops: func(w *World) []Op {
			out := lifecycle(w, true)
			out = append(out, Op{K: "cc", Cl: "c2", Sc: "bar foo"}, Op{K: "adv", D: 300 * time.Second}, Op{K: "imp", Cl: "p1", Us: "u2"})
			return append(out, forKind(w, "R", func(k *Cred) []Op {
				if len(k.Scope) < 2 {
					return nil
				}
				return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID, Sc: k.Scope[0]}}
			})...)
		}})
	c.explore(&Model{Name: "introspect-replay", Cfg: baseCfg, Depth: d + 1, State: introspectionOracle,
		Init: func(w *World) {
			w.do(Op{K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"})
			w.do(Op{K: "xch", Cl: "c1", Cr: 0})
		},
		Ops: func(w *World) []Op {
			out := []Op{{K: "xch", Cl: "c1", Cr: 0}, {K: "adv", D: 50500 * time.Millisecond}, {K: "pw", Cl: "c1", Us: "u2", Sc: "foo"}}
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			return append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
		}})
	// expiries far away are reported as they are
	year := 365 * 24 * time.Hour
	ages := []time.Duration{time.Second, 9 * year, 20 * year, 37 * year, 39 * year, 68 * year}
	c.parallel(len(ages)*len(ages), func(i int) {
		m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.LA, g.LR = ages[i%len(ages)], ages[i/len(ages)]; return g }}
		for _, h := range [][]Op{{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}}, {{K: "cc", Cl: "c1"}}, {{K: "imp", Cl: "p1", Us: "u2"}}, {{K: "code", Cl: "c1", Us: "u1"}, {K: "xch", Cl: "c1", Cr: 0}}} {
			c.Case(fmt.Sprintf("ages %s %s %s", ages[i%len(ages)], ages[i/len(ages)], histKey(h)), true, func() string {
				w := m.run(h)
				for _, k := range w.Creds {
					if k.Kind == 'C' {
						continue
					}
					on, r := w.active(k)
					if got, _ := r.json()["exp"].(float64); !on || int64(got) != k.At.Add(k.Life).Unix() {
						return fmt.Sprintf("%s expires at %d\nanswer: %s", k, k.At.Add(k.Life).Unix(), r)
					}
				}
				return ""
			})
		}
	})
	c.crowded(nil, func(before, after func() *World, n int) string {
		if msg := crowdOf(after(), "AR"); msg != "" {
			return msg
		}
		a, w := before().vector(n), after()
		for i, b := range w.vector(n) {
			if a[i] != b {
				return fmt.Sprintf("%s changed from [%s] to [%s]", w.Creds[i], a[i], b)
			}
		}
		return ""
	})
}
