package checks

// Long strings and long lists: what is compared is compared to its last
// character and to its last value, and nothing of it is stored cut short.

import (
	"fmt"
	"strings"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// longText returns n letters and digits without a short period.
func longText(tag, n int) string {
	const al = "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ0123456789"
	b := make([]byte, n)
	x := uint32(2463534242 + tag*7919)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = al[x%uint32(len(al))]
	}
	return string(b)
}

// longMisses returns s changed at every position, and cut at every position.
func longMisses(s string) []string {
	var out []string
	for i := range s {
		y := byte('-')
		if s[i] == y {
			y = '_'
		}
		out = append(out, s[:i]+string(rune(y))+s[i+1:])
		if i > 0 {
			out = append(out, s[:i])
		}
	}
	return append(out, s+"x", s+s)
}

// where shows what was done to a long string.
func where(s, v string) string {
	i := 0
	for i < len(s) && i < len(v) && s[i] == v[i] {
		i++
	}
	return fmt.Sprintf("%d of %d bytes, the first %d equal", len(v), len(s), i)
}

// longClients judges authentication by long secrets and identifiers.
func (c *Check) longClients() {
	sec, id, pub := longText(1, 300), longText(2, 300), longText(3, 300)
	m := &Model{Cfg: func() *Cfg {
		g := baseCfg()
		g.Clients = append(g.Clients, ClientSpec{"ls", sec, "https://ls.example.com/cb", true}, ClientSpec{id, "li-Secret", "https://li.example.com/cb", true}, ClientSpec{pub, "", "https://lp.example.com/cb", false})
		return g
	}}
	acts := []Op{{K: "pw", Us: "u1"}, {K: "cc"}, {K: "xch", Cr: 2}, {K: "rfr", Cr: 1}, {K: "rev", Cr: 0}, {K: "int", Cr: 1}}
	cls := []string{"ls", id, pub}
	c.parallel(len(acts)*len(cls)*2, func(i int) {
		o, cl := acts[i%len(acts)], cls[i/len(acts)%len(cls)]
		if o.B = i/len(acts)/len(cls) == 1; o.B && (o.K == "rev" || o.K == "int") || cl == pub && o.K == "cc" {
			return
		}
		h := []Op{{K: "pw", Cl: cl, Us: "u1", Sc: "foo"}, {K: "code", Cl: cl, Us: "u1", Sc: "foo"}}
		s := cl
		if cl == "ls" {
			s = sec
		}
		c.Case(fmt.Sprintf("long %.8s %s body=%v right", cl, o.K, o.B), true, func() string {
			w := m.run(h)
			o := o
			o.Cl = cl
			if r := w.do(o); r.Code != 200 {
				return fmt.Sprintf("properly authenticated request refused\nanswer: %s", r)
			}
			return ""
		})
		for _, v := range longMisses(s) {
			if c.stopped() || c.timeUp() {
				return
			}
			c.Case(fmt.Sprintf("long %.8s %s body=%v %s", cl, o.K, o.B, where(s, v)), true, func() string {
				return refusedClean(m, h, func(w *World) Req {
					o := o
					o.Cl, o.Sec = cl, v
					if cl != "ls" {
						o.Cl, o.Sec = v, w.client(cl).Secret
					}
					q := w.build(o)
					return q
				}, isErr(401, "invalid_client"))
			})
		}
	})
}

// longUsers judges approval by long names and passwords.
func (c *Check) longUsers() {
	name, pass := longText(4, 300), longText(5, 300)
	m := &Model{Cfg: func() *Cfg {
		g := baseCfg()
		g.Users = append(g.Users, [2]string{name, "ln-Pass"}, [2]string{"lp", pass})
		return g
	}}
	c.parallel(9, func(i int) {
		g := []string{"pw", "imp", "code"}[i%3]
		us, pw, s := name, "ln-Pass", name
		switch i / 3 {
		case 1:
			us, pw, s = "lp", pass, pass
		case 2: // cut at both ends of the conversation
			us, pw, s = "u1", "pw1-Pass", ""
		}
		c.Case(fmt.Sprintf("long %s %d right", g, i/3), true, func() string {
			w := m.fresh()
			r := w.do(Op{K: g, Cl: "c1", Us: us, Pw: pw, Sc: "foo"})
			if len(w.Creds) == 0 {
				return fmt.Sprintf("right password refused\nanswer: %s", r)
			}
			if g == "code" {
				w.use(w.Creds[0])
			}
			for _, k := range w.Creds {
				if k.Kind == 'C' {
					continue
				}
				if ok, r := w.active(k); !ok || str(r.json(), "username") != us {
					return fmt.Sprintf("%s is attributed to %q\nanswer: %s", k, str(r.json(), "username"), r)
				}
			}
			return ""
		})
		l := longMisses(s)
		if s == "" {
			l = []string{name, pass, name + pass}
		}
		for _, v := range l {
			if c.stopped() || c.timeUp() {
				return
			}
			c.Case(fmt.Sprintf("long %s %d %s", g, i/3, where(s, v)), true, func() string {
				return refusedClean(m, nil, func(w *World) Req {
					o := Op{K: g, Cl: "c1", Us: us, Pw: pw, Sc: "foo"}
					switch i / 3 {
					case 0:
						o.Us = v
					default:
						o.Pw = v
					}
					return w.build(o)
				}, func(r *Resp) string {
					if r.err() != "access_denied" {
						return fmt.Sprintf("answered %d %q, want access_denied", r.Code, r.err())
					}
					return ""
				})
			})
		}
	})
}

// longURIs judges redirection to long URIs.
func (c *Check) longURIs() {
	uris := []string{"https://l1.example.com/" + longText(6, 500), "https://l2.example.com/cb?tenant=" + longText(7, 400) + "&x=" + longText(8, 200), "myapp://" + longText(9, 300) + "/" + longText(10, 300)}
	m := &Model{Cfg: func() *Cfg {
		g := baseCfg()
		for i, u := range uris {
			g.Clients = append(g.Clients, ClientSpec{fmt.Sprint("l", i), "l-Secret", u, i != 1})
		}
		return g
	}}
	c.parallel(len(uris)*3, func(i int) {
		cl, u, act := fmt.Sprint("l", i/3), uris[i/3], []string{"code", "imp", "xch"}[i%3]
		x := m.fresh().client(cl)
		h := []Op{{K: "code", Cl: cl, Us: "u1", Sc: "foo"}}
		c.Case(fmt.Sprintf("long %s %s right", cl, act), true, func() string {
			w := m.run(h)
			if act == "xch" {
				if ok, r := w.use(w.Creds[0]); !ok {
					return fmt.Sprintf("code refused with its own redirect URI\nanswer: %s", r)
				}
				return ""
			}
			q := w.build(Op{K: act, Cl: cl, Us: "u1", Sc: "foo", St: "xyz"})
			r := w.send(q)
			if msg := authOracle(w, r, "POST", map[string]string{"code": "code", "imp": "token"}[act], x, true, u, "", true, true, "xyz"); msg != "" {
				return fmt.Sprintf("%s\nrequest: %s\nanswer: %s", msg, q, r)
			}
			return ""
		})
		for _, v := range longMisses(u) {
			if c.stopped() || c.timeUp() {
				return
			}
			c.Case(fmt.Sprintf("long %s %s %s", cl, act, where(u, v)), true, func() string {
				return refusedClean(m, h, func(w *World) Req {
					if act == "xch" {
						return w.build(Op{K: act, Cl: cl, Cr: 0, Rd: v})
					}
					return w.build(Op{K: act, Cl: cl, Us: "u1", Sc: "foo", Rd: v})
				}, func(r *Resp) string {
					if r.isRedirect() || r.H.Get("Location") != "" {
						return "redirected although the request did not name the registered redirect URI"
					}
					if r.Code < 400 || r.err() != "invalid_grant" && r.err() != "invalid_request" {
						return fmt.Sprintf("answered %d %q", r.Code, r.err())
					}
					return ""
				})
			})
		}
	})
}

// longScopes judges grants of long values and of long lists of values.
func (c *Check) longScopes() {
	val := longText(11, 200)
	var list []string
	for i := 0; i < 40; i++ {
		list = append(list, fmt.Sprintf("v%02d", i))
	}
	all := strings.Join(list, " ")
	without := func(k int) []string { return append(append([]string{}, list[:k]...), list[k+1:]...) }
	grants := []string{"pw", "cc", "imp", "code", "rfr"}
	try := func(key string, allowed []string, granted, g, sc string) {
		m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.Allowed = allowed; return g }, Step: scopeStep}
		var h []Op
		o := Op{K: g, Cl: "c1", Us: "u1", Sc: sc}
		switch g {
		case "cc":
			o.Us = ""
		case "rfr":
			h = []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: granted}}
			o = Op{K: "rfr", Cl: "c1", Cr: 1, Sc: sc}
		}
		c.Case(key, true, func() string {
			_, msg := m.stepCheck(h, o)
			return msg
		})
	}
	vals := longMisses(val)
	c.parallel(len(vals), func(i int) {
		for _, g := range grants {
			if c.stopped() || c.timeUp() {
				return
			}
			try(fmt.Sprintf("long %s %s", g, where(val, vals[i])), []string{"foo", val}, "foo "+val, g, vals[i])
			try(fmt.Sprintf("long %s %s reversed", g, where(val, vals[i])), []string{"foo", vals[i]}, vals[i]+" foo", g, val+" foo")
		}
		m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.Allowed = []string{val, "foo"}; return g }}
		c.Case("long resource "+where(val, vals[i]), true, func() string {
			w := m.run([]Op{{K: "pw", Cl: "c1", Us: "u1", Sc: val}})
			return scopeProbe(w, w.Creds[0], []string{vals[i], val})
		})
	})
	c.parallel(len(list)+1, func(k int) {
		var req []string // with a foreign value before position k
		req = append(append(append(req, list[:k]...), "v"), list[k:]...)
		for _, g := range grants {
			if c.stopped() || c.timeUp() {
				return
			}
			try(fmt.Sprintf("list %s foreign at %d", g, k), list, all, g, strings.Join(req, " "))
			try(fmt.Sprintf("list %s repeated, foreign at %d", g, k), []string{"v00", "v01"}, "v01 v00", g, strings.TrimSpace(strings.Repeat("v01 ", k)+"v "+strings.Repeat("v00 ", 40-k)))
			if k < len(list) {
				try(fmt.Sprintf("list %s lacking %d", g, k), without(k), strings.Join(without(k), " "), g, all)
				try(fmt.Sprintf("list %s only %d", g, k), list, all, g, list[k])
			}
		}
		if k == len(list) {
			for _, g := range grants {
				try("list "+g+" all", list, all, g, all)
			}
			return
		}
	})
}

// longResources judges access to resources that require many values.
func (c *Check) longResources() {
	var list []string
	for i := 0; i < 40; i++ {
		list = append(list, fmt.Sprintf("v%02d", i))
	}
	all := strings.Join(list, " ")
	c.parallel(len(list), func(k int) {
		without := append(append([]string{}, list[:k]...), list[k+1:]...)
		req := append(append(append([]string{}, list[:k]...), "v"), list[k:]...)
		m := &Model{Cfg: func() *Cfg { g := baseCfg(); g.Allowed = list; return g }}
		c.Case(fmt.Sprintf("list resource lacking %d", k), true, func() string {
			w := m.run([]Op{{K: "pw", Cl: "c1", Us: "u1", Sc: strings.Join(without, " ")}, {K: "pw", Cl: "c1", Us: "u1", Sc: all}})
			if len(w.Creds) != 4 {
				return "permitted scope refused"
			}
			for _, cr := range []*Cred{w.Creds[0], w.Creds[2]} {
				if msg := scopeProbe(w, cr, list); msg != "" {
					return msg
				}
				for _, need := range [][]string{list, req} {
					r := w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: true, Auth: "Bearer " + cr.Str, Need: need})
					if want := subset(need, cr.Scope); r.OK != want {
						return fmt.Sprintf("%s: a resource requiring %q admitted=%v\nanswer: %s", cr, need, r.OK, r)
					}
				}
			}
			return ""
		})
	})
}

// longLists judges inclusion between long values and long lists.
func (c *Check) longLists() {
	for _, n := range []int{40, 300} {
		val := longText(12, n)
		var list oauth2.Scope
		for i := 0; i < n; i++ {
			list = append(list, fmt.Sprintf("v%03d", i))
		}
		vals := longMisses(val)
		c.parallel(len(vals), func(i int) {
			v := vals[i]
			c.Case(fmt.Sprintf("long %d %s", n, where(val, v)), true, func() string {
				if (oauth2.Scope{val}).Contains(v) || (oauth2.Scope{v, "a"}).Contains(val) || (oauth2.Scope{val}).Includes(oauth2.Scope{v}) || (oauth2.Scope{"a", v}).Includes(oauth2.Scope{val}) {
					return fmt.Sprintf("%q and %q are taken for one another", val, v)
				}
				if got := oauth2.ParseScope(val + " " + v); len(got) != 2 || got[0] != val || got[1] != v {
					return fmt.Sprintf("parsed as %q", got)
				}
				return ""
			})
		})
		c.parallel(n, func(k int) {
			c.Case(fmt.Sprintf("list %d at %d", n, k), true, func() string {
				without := append(append(oauth2.Scope{}, list[:k]...), list[k+1:]...)
				foreign := append(append(append(oauth2.Scope{}, list[:k]...), "v"), list[k:]...)
				switch {
				case !list.Contains(list[k]) || !list.Includes(oauth2.Scope{list[k]}) || !list.Includes(list) || !list.Includes(without) || !foreign.Includes(list):
					return "a value of the list is not found"
				case without.Contains(list[k]) || without.Includes(list) || list.Includes(foreign) || list.Contains("v"):
					return "a value is found that is not in the list"
				}
				if got := oauth2.ParseScope(foreign.String()); got.String() != foreign.String() || len(got) != n+1 {
					return fmt.Sprintf("parsed as %q", got)
				}
				return ""
			})
		})
	}
}

// longOwners judges binding between clients whose long identifiers differ in
// one place.
func (c *Check) longOwners(check func(w *World, fork func() *World) string) {
	id := longText(13, 200)
	l := longMisses(id)
	c.parallel(len(l), func(i int) {
		for _, pair := range [][2]string{{id, l[i]}, {l[i], id}} {
			if c.stopped() || c.timeUp() {
				return
			}
			m := &Model{Cfg: func() *Cfg {
				g := baseCfg()
				g.Clients = []ClientSpec{{pair[0], "s1-Secret", "https://c1.example.com/cb", true}, {pair[1], "s1-Secret", "https://c1.example.com/cb", true}}
				return g
			}, State: check}
			h := []Op{{K: "pw", Cl: pair[0], Us: "u1", Sc: "foo"}, {K: "code", Cl: pair[0], Us: "u1", Sc: "foo"}}
			c.Case(fmt.Sprintf("long owner %s (%d)", where(id, l[i]), len(pair[0])), true, func() string {
				c.transitions.Add(1)
				return m.stateCheck(h)
			})
		}
	})
}

// longFamilies judges the replay of a code after many refreshes.
func (c *Check) longFamilies() {
	sizes := []int{33, 65, 130, 260, 520, 1050}
	if c.thorough() {
		sizes = append(sizes, 2100, 4200, 10100)
	}
	m := &Model{Cfg: baseCfg}
	c.parallel(len(sizes)*3, func(i int) {
		n, kind := sizes[i/3], i%3
		if c.stopped() || c.timeUp() {
			return
		}
		c.Case(fmt.Sprintf("family of %d, %d", n, kind), true, func() string {
			w := m.run([]Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "xch", Cl: "c1", Cr: 2}})
			last := len(w.Creds) - 1
			for j := 0; j < n; j++ {
				if r := w.do(Op{K: "rfr", Cl: "c1", Cr: last}); r.tokens() == nil {
					return fmt.Sprintf("refresh %d refused\nanswer: %s", j, r)
				}
				last = len(w.Creds) - 1
				if kind == 1 && j%2 == 0 { // others come in between
					w.do(Op{K: "pw", Cl: "c2", Us: "u2", Sc: "foo"})
					w.do(Op{K: "rfr", Cl: "c2", Cr: len(w.Creds) - 1})
				}
				if kind == 2 && j%7 == 0 {
					w.do(Op{K: "rev", Cl: "c1", Cr: last - 1})
				}
			}
			if r := w.do(Op{K: "xch", Cl: "c1", Cr: 2}); r.Code < 400 || r.tokens() != nil {
				return fmt.Sprintf("replayed code accepted\nanswer: %s", r)
			}
			return crowdOf(w, "AR")
		})
	})
}

// eve lets the crowd pass, waits until just before each moment at which
// credentials of the history before it end, lets others be served, and judges.
func eve(after func() *World, n int) string {
	for i := 0; ; i++ {
		w := after()
		var ends []time.Time // to come, the latest first
		for _, e := range expiries(&World{Creds: w.Creds[:n]}) {
			if time.Until(e) > time.Millisecond {
				ends = append(ends, e)
			}
		}
		if i >= len(ends) || i > 0 && len(w.Creds) > 600 {
			return ""
		}
		e := ends[len(ends)-1-i]
		d := time.Until(e) - time.Millisecond
		w.sleep(d)
		for _, o := range []Op{{K: "pw", Cl: "c2", Us: "u2", Sc: "foo"}, {K: "cc", Cl: "c2"}, {K: "code", Cl: "c2", Us: "u2"}, {K: "imp", Cl: "p1", Us: "u2"}, {K: "int", Cl: "c2", X: "@0/same"}, {K: "rev", Cl: "c2", X: "@0/same"}} {
			w.send(w.build(o))
		}
		for _, k := range w.Creds[:n] {
			live := k.live()
			if !live && !k.dead() || k.Kind == 'C' && k.Spent {
				continue
			}
			if k.Kind != 'C' {
				if a, r := w.active(k); a != live {
					return fmt.Sprintf("on the eve of an expiry %s is reported active=%v\nanswer: %s", k, a, r)
				}
			}
			if k.At.Add(k.Life) != e {
				continue // used on its own eve
			}
			if ok, r := w.use(k); ok != live {
				return fmt.Sprintf("on the eve of its expiry %s: use succeeds=%v\nanswer: %s", k, ok, r)
			}
		}
	}
}

// oddRequests judges access by requests of every method that carry every header
// and arrive in every way, with every credential and with none.
func (c *Check) oddRequests() {
	m := &Model{Cfg: baseCfg}
	h := richHistory()
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE", "PROPFIND", "get", ""}
	c.parallel(len(methods)*2, func(i int) {
		method, late := methods[i/2], i%2 == 1
		if c.stopped() || c.timeUp() {
			return
		}
		c.Case(fmt.Sprintf("odd requests %q late=%v", method, late), true, func() string {
			w := m.run(h)
			if late {
				w.sleep(w.Cfg.LA + time.Second)
				w.do(Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"})
			}
			one := func(k *Cred, q Req) string {
				want := false
				if q.Method, q.Path, q.NoBody = method, resourcePath, true; k != nil {
					q.HasA, q.Auth = true, "Bearer "+k.Str
					want = k.Kind == 'A' && k.live() && subset(q.Need, k.Scope)
					if k.Maybe {
						return ""
					}
				}
				c.evals.Add(1)
				if r := w.send(q); r.OK != want {
					return fmt.Sprintf("%v: admitted=%v, want %v\nrequest: %s need=%q\nanswer: %s", k, r.OK, want, q, q.Need, r)
				}
				return ""
			}
			for _, need := range [][]string{nil, {"foo"}} {
				for _, k := range append([]*Cred{nil}, w.Creds...) {
					for _, x := range strayHeaders {
						if msg := one(k, Req{Need: need, HX: [][2]string{x}}); msg != "" {
							return msg
						}
					}
					for _, x := range circumstances {
						if msg := one(k, Req{Need: need, Circ: x.name}); msg != "" {
							return msg
						}
					}
				}
			}
			return ""
		})
	})
}
