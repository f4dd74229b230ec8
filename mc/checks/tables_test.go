package checks

// The exported credential tables (C36): what they say is what a credential is
// good for, and what happened is what they say.

import (
	"fmt"
	"testing"
	"time"

	oauth2 "github.com/256dpi/oauth2/v2"
)

func (w *World) table(kind byte) map[string]*oauth2.ServerCredential {
	switch kind {
	case 'A':
		return w.S.AccessTokens
	case 'R':
		return w.S.RefreshTokens
	}
	return w.S.AuthorizationCodes
}

// entry is an act of the operator on a credential table, under the server's
// lock: "prov" adds an entry for a token it generated, "edit" changes, removes
// or restores one. The history's knowledge follows.
func (w *World) entry(o Op) {
	w.operator(func() {
		link := func(k *Cred) string {
			if k.Code < 0 {
				return ""
			}
			return w.Creds[k.Code].Sig
		}
		if o.K == "prov" {
			tk := w.S.Config.MustGenerate()
			k := w.add(o.H[0], tk.String(), Cred{Client: o.Cl, User: o.Us, Scope: splitScope(o.Sc), Redirect: o.Rd, Code: o.Cr, Parent: -1})
			k.Life = o.D
			e := &oauth2.ServerCredential{ClientID: o.Cl, Username: o.Us, Scope: oauth2.Scope(splitScope(o.Sc)), ExpiresAt: w.last.Add(o.D), RedirectURI: o.Rd, Code: link(k)}
			w.table(k.Kind)[tk.SignatureString()] = e
			return
		}
		if o.H == "exchange" { // all tables, and all entries, become copies
			for _, f := range []*map[string]*oauth2.ServerCredential{&w.S.AccessTokens, &w.S.RefreshTokens, &w.S.AuthorizationCodes} {
				m := map[string]*oauth2.ServerCredential{}
				for s, e := range *f {
					c := *e
					c.Scope = append(oauth2.Scope(nil), e.Scope...)
					m[s] = &c
				}
				*f = m
			}
			return
		}
		if o.H == "clear" { // one kind is wiped
			k := o.Us[0]
			for s := range w.table(k) {
				delete(w.table(k), s)
			}
			for _, c := range w.Creds {
				if c.Kind == k {
					c.Revoked = true
				}
			}
			return
		}
		k := w.Creds[o.Cr]
		t := w.table(k.Kind)
		if o.H == "delete" {
			delete(t, k.Sig)
			k.Revoked = true
			return
		}
		if o.H == "restore" {
			t[k.Sig] = &oauth2.ServerCredential{ClientID: k.Client, Username: k.User, Scope: append(oauth2.Scope(nil), k.Scope...), ExpiresAt: k.At.Add(k.Life), RedirectURI: k.Redirect, Code: link(k)}
			k.Spent, k.Revoked, k.Killed, k.Maybe = false, false, false, false
			return
		}
		e := t[k.Sig]
		if e == nil {
			return
		}
		if o.B { // the entry itself is exchanged
			c := *e
			e = &c
			t[k.Sig] = e
		}
		switch o.H {
		case "expiry":
			e.ExpiresAt = w.last.Add(o.D)
			k.Life = e.ExpiresAt.Sub(k.At)
		case "scope":
			k.Scope = splitScope(o.Sc)
			e.Scope = oauth2.Scope(splitScope(o.Sc))
		case "client":
			k.Client, e.ClientID = o.Cl, o.Cl
		case "user":
			k.User, e.Username = o.Us, o.Us
		case "uri":
			k.Redirect, e.RedirectURI = o.Rd, o.Rd
		case "used":
			k.Spent, e.Used = true, true
		case "unused":
			k.Spent, e.Used = false, false
		case "link":
			k.Code = -1
			for _, c := range w.Creds {
				if c.Kind == 'C' && c.Sig == w.form(o.X) {
					k.Code = c.ID
				}
			}
			e.Code = link(k)
		default:
			panic("unknown edit " + o.H)
		}
	})
}

// entries are the operator's possible acts on the tables.
func entries(w *World, full bool) []Op {
	far, soon := 10000*time.Second, 20*time.Second
	out := []Op{
		{K: "prov", H: "A", Cl: "c1", Us: "u1", Sc: "foo bar", Cr: -1, D: soon},
		{K: "prov", H: "A", Cl: "p1", Sc: "baz foo", Cr: -1, D: far},
		{K: "prov", H: "A", Cl: "c2", Us: "u2", Cr: -1, D: -time.Second},
		{K: "prov", H: "R", Cl: "c1", Us: "u2", Sc: "foo", Cr: -1, D: soon},
		{K: "prov", H: "R", Cl: "p1", Sc: "baz", Cr: -1, D: far},
		{K: "prov", H: "R", Cl: "c2", Us: "nobody", Cr: -1, D: -time.Second},
		{K: "prov", H: "C", Cl: "c1", Us: "u1", Sc: "foo", Cr: -1, Rd: "https://c1.example.com/cb", D: far},
		{K: "prov", H: "C", Cl: "p1", Us: "u2", Sc: "baz", Cr: -1, Rd: "https://p1.example.com/other", D: soon},
		{K: "prov", H: "C", Cl: "c2", Us: "u1", Cr: -1, D: -time.Second, Rd: "https://c2.example.com/cb?tenant=7"},
		{K: "edit", H: "exchange"},
	}
	for _, t := range []string{"A", "R", "C"} {
		out = append(out, Op{K: "edit", H: "clear", Us: t})
	}
	var codes []*Cred
	for _, k := range w.Creds {
		if k.Kind == 'C' {
			codes = append(codes, k)
		}
	}
	for _, k := range w.Creds {
		if w.table(k.Kind)[k.Sig] == nil || k.Spent || k.Revoked || k.Killed {
			out = append(out, Op{K: "edit", H: "restore", Cr: k.ID})
		}
		if w.table(k.Kind)[k.Sig] == nil {
			continue
		}
		out = append(out, Op{K: "edit", H: "delete", Cr: k.ID})
		other := map[string]string{"c1": "p1", "p1": "c1", "c2": "c1"}[k.Client]
		user := map[string]string{"u1": "u2"}[k.User]
		for _, b := range []bool{false, true} {
			if b && !full {
				break
			}
			for _, d := range []time.Duration{-time.Second, soon, far} {
				out = append(out, Op{K: "edit", H: "expiry", Cr: k.ID, D: d, B: b})
			}
			for _, s := range []string{"", "bar", "baz foo bar"} {
				out = append(out, Op{K: "edit", H: "scope", Cr: k.ID, Sc: s, B: b})
			}
			out = append(out, Op{K: "edit", H: "client", Cr: k.ID, Cl: other, B: b}, Op{K: "edit", H: "user", Cr: k.ID, Us: user, B: b})
			if k.Kind == 'C' {
				out = append(out, Op{K: "edit", H: "uri", Cr: k.ID, Rd: "https://c1.example.com/moved", B: b})
				out = append(out, Op{K: "edit", H: map[bool]string{false: "used", true: "unused"}[k.Spent], Cr: k.ID, B: b})
				continue
			}
			if k.Code >= 0 {
				out = append(out, Op{K: "edit", H: "link", Cr: k.ID, X: "-", B: b})
			}
			for _, c := range codes {
				if c.ID != k.Code {
					out = append(out, Op{K: "edit", H: "link", Cr: k.ID, X: formOf(c, "sig"), B: b})
				}
			}
		}
	}
	return out
}

// tables compares the exported tables with the history.
func (w *World) tables() string {
	known := map[string]*Cred{}
	for _, k := range w.Creds {
		known[string(k.Kind)+k.Sig] = k
	}
	for _, kind := range []byte("ARC") {
		t := w.table(kind)
		for s, e := range t {
			k := known[string(kind)+s]
			switch {
			case k == nil:
				return fmt.Sprintf("table %c holds an entry for a credential that was never issued: %+v", kind, e)
			case e == nil:
				return fmt.Sprintf("the entry of %s is nil", k)
			}
		}
	}
	for _, k := range w.Creds {
		e := w.table(k.Kind)[k.Sig]
		if k.Maybe {
			continue
		}
		gone := e == nil || e.Used
		if k.Spent || k.Revoked || k.Killed {
			if !gone {
				return fmt.Sprintf("%s is good for nothing, but its entry is %+v", k, *e)
			}
			continue
		}
		expired := !w.last.Before(k.At.Add(k.Life))
		if e == nil {
			if !expired {
				return fmt.Sprintf("there is no entry for %s", k)
			}
			continue
		}
		code := ""
		if k.Code >= 0 {
			code = w.Creds[k.Code].Sig
		}
		if e.Used || e.ClientID != k.Client || e.Username != k.User || !e.ExpiresAt.Equal(k.At.Add(k.Life)) || !sameSet(e.Scope, k.Scope) || k.Kind == 'C' && e.RedirectURI != k.Redirect || k.Kind != 'C' && e.Code != code {
			return fmt.Sprintf("the entry of %s expiring %s redirect=%q is %+v", k, k.At.Add(k.Life), k.Redirect, *e)
		}
	}
	return ""
}

// truth judges every use of every credential by the tables.
func truth(c *Check, mk func() *World) string {
	if msg := mk().tables(); msg != "" {
		return msg
	}
	clients := []string{"c1", "c2", "p1"}
	scopes := []string{"", "foo", "bar", "baz", "foo bar", "foo baz bar"}
	n := len(mk().Creds)
	var w *World
	try := func(o Op) *Resp {
		c.evals.Add(1)
		r := w.do(o)
		return r
	}
	for i := 0; i < n; i++ {
		w = mk()
		k := w.Creds[i]
		if k.Maybe || !k.live() && !k.dead() {
			continue
		}
		live := k.live()
		if live {
			c.outcome(fmt.Sprintf("%c live", k.Kind))
		} else {
			c.outcome(fmt.Sprintf("%c dead", k.Kind))
		}
		bad := func(what string, r *Resp) string {
			return fmt.Sprintf("%s: %s\nanswer: %s", what, k, r)
		}
		if k.Kind != 'C' {
			// introspection and resources change nothing, so one world does
			for _, cl := range clients {
				r := try(Op{K: "int", Cl: cl, Cr: i})
				m := r.json()
				active, _ := m["active"].(bool)
				if active != (live && cl == k.Client) {
					return bad(fmt.Sprintf("introspected by %s, active=%v", cl, active), r)
				}
				if active && (str(m, "username") != k.User || str(m, "client_id") != k.Client || m["exp"] != float64(k.At.Add(k.Life).Unix()) || !sameSet(splitScope(str(m, "scope")), k.Scope)) {
					return bad("introspection misreports", r)
				}
				if msg := w.tables(); msg != "" {
					return "after introspection: " + msg
				}
			}
			for _, sc := range scopes {
				r := try(Op{K: "res", Cr: i, Sc: sc})
				if r.OK != (live && k.Kind == 'A' && subset(splitScope(sc), k.Scope)) {
					return bad(fmt.Sprintf("admitted for %q: %v", sc, r.OK), r)
				}
			}
			// the exact end
			if live && k.Life < 20*time.Hour {
				for _, d := range []time.Duration{-time.Millisecond, time.Millisecond} {
					w = mk()
					k := w.Creds[i]
					w.sleep(k.At.Add(k.Life).Sub(w.last) + d)
					r := try(Op{K: "int", Cl: k.Client, Cr: i})
					if active, _ := r.json()["active"].(bool); active != (d < 0) {
						return bad(fmt.Sprintf("introspected %s relative to its end, active=%v", d, active), r)
					}
					if ok, r := w.use(k); ok != (d < 0) {
						return bad(fmt.Sprintf("used %s relative to its end: %v", d, ok), r)
					}
					if msg := w.tables(); msg != "" {
						return "at its end: " + msg
					}
				}
			}
			for _, cl := range clients {
				w = mk()
				k := w.Creds[i]
				r := try(Op{K: "rev", Cl: cl, Cr: i})
				if msg := w.tables(); msg != "" {
					return bad("revoked by "+cl+": "+msg, r)
				}
				if k.Kind == 'A' {
					r = try(Op{K: "res", Cr: i})
					if r.OK != k.live() {
						return bad(fmt.Sprintf("revoked by %s, admitted=%v", cl, r.OK), r)
					}
				}
			}
		}
		if k.Kind == 'R' {
			for _, cl := range clients {
				for _, sc := range scopes {
					w = mk()
					k := w.Creds[i]
					ok := k.live() && cl == k.Client && subset(splitScope(sc), k.Scope)
					r := try(Op{K: "rfr", Cl: cl, Cr: i, Sc: sc})
					if (r.tokens() != nil) != ok {
						return bad(fmt.Sprintf("refreshed by %s for %q, want %v", cl, sc, ok), r)
					}
					if msg := w.tables(); msg != "" {
						return bad(fmt.Sprintf("refreshed by %s for %q: %s", cl, sc, msg), r)
					}
				}
			}
		}
		if k.Kind == 'C' {
			for _, cl := range clients {
				for _, rd := range []string{"", "-", "https://c1.example.com/cb", "https://p1.example.com/app"} {
					w = mk()
					k := w.Creds[i]
					eff := rd
					if rd == "" {
						eff = k.Redirect
					}
					ok := k.live() && cl == k.Client && eff == k.Redirect
					r := try(Op{K: "xch", Cl: cl, Cr: i, Rd: rd})
					if (r.tokens() != nil) != ok {
						return bad(fmt.Sprintf("exchanged by %s with redirect URI %q, want %v", cl, rd, ok), r)
					}
					if msg := w.tables(); msg != "" {
						return bad(fmt.Sprintf("exchanged by %s with redirect URI %q: %s", cl, rd, msg), r)
					}
					if ok { // once more: what it yielded dies, as the entries say
						try(Op{K: "xch", Cl: cl, Cr: i, Rd: rd})
						if msg := w.tables(); msg != "" {
							return bad("exchanged twice: "+msg, r)
						}
						for _, d := range w.Creds {
							if d.Kind == 'A' && !d.Maybe && (d.live() || d.dead()) {
								if ok, r := w.use(d); ok != d.live() {
									return bad(fmt.Sprintf("exchanged twice, %s admitted=%v", d, ok), r)
								}
							}
						}
					}
				}
			}
		}
	}
	return ""
}

func TestC36(t *testing.T) {
	c := newCheck(t, "C36", "model_checking",
		"all histories of requests and of the operator's acts on the exported credential tables (entries added under generated tokens of every kind, expired, extended, rescoped, moved to another client, user, redirect URI or code, marked used and unused, deleted, restored, in place and by exchanging entry or table) to the depth bound, merged by canonical state, and every one or two acts on a server holding all kinds; in every state every credential is introspected and revoked by every client, presented to resources of 6 scope sets, used 1 ms before and after its end, refreshed by every client for 6 scopes, exchanged by every client with 4 redirect URIs and again; answers must follow the entries and the entries, after every request, the history. Each is repeated with every credential used just before the last act. Non-trivial: the state holds a credential.")
	c.assume = []string{"the operator edits entries under the exported lock and leaves scope slices shared between entries alone", "entries of expired credentials may stay or go", "an exchanged code presented again by another client is left open (C04)"}
	defer c.finish()
	ops := func(full bool) func(w *World) []Op {
		return func(w *World) []Op {
			out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}, {K: "imp", Cl: "p1", Us: "u2"}, {K: "code", Cl: "c1", Us: "u1", Sc: "foo"}}
			out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, forKind(w, "AR", func(k *Cred) []Op { return []Op{{K: "rev", Cl: k.Client, Cr: k.ID}} })...)
			out = append(out, Op{K: "adv", D: 41 * time.Second})
			return append(out, entries(w, full)...)
		}
	}
	warm := func(w *World) {
		for _, k := range w.Creds {
			for _, cl := range []string{"c1", "c2", "p1"} {
				if k.Kind != 'C' {
					w.do(Op{K: "int", Cl: cl, Cr: k.ID})
				}
				if cl != k.Client && !(k.Kind == 'C' && k.Spent) {
					w.do(Op{K: map[byte]string{'A': "rev", 'R': "rfr", 'C': "xch"}[k.Kind], Cl: cl, Cr: k.ID})
				}
			}
			w.do(Op{K: "res", Cr: k.ID})
			w.do(Op{K: "res", Cr: k.ID, Sc: "foo"})
		}
	}
	judge := func(m *Model, h []Op) string {
		if msg := truth(c, func() *World { return m.run(h) }); msg != "" {
			return msg
		}
		if len(h) == 0 || h[len(h)-1].K != "edit" {
			return ""
		}
		hot := func() *World {
			w := m.run(h[:len(h)-1])
			warm(w)
			w.do(h[len(h)-1])
			return w
		}
		if len(hot().Creds) != len(m.run(h).Creds) {
			return "a credential was issued to a client that does not own what it presented"
		}
		if msg := truth(c, hot); msg != "" {
			return "used just before the last act: " + msg
		}
		return ""
	}
	d := 2
	if c.thorough() {
		d = 3
	}
	m := &Model{Name: "tables", Cfg: baseCfg, Depth: d, Ops: ops(true)}
	m.Step = func(x *Ctx) string {
		if msg := x.W.tables(); msg != "" {
			return msg
		}
		return ""
	}
	m.StateH = func(h []Op) string { return judge(m, h) }
	c.explore(m)
	// every act on a server that holds everything, and every other act after it
	cfgs := []func() *Cfg{baseCfg, func() *Cfg {
		g := baseCfg()
		g.LA, g.LR, g.LC = 100*time.Second, 100*time.Second, 100*time.Second
		return g
	}, func() *Cfg {
		g := baseCfg()
		g.LA, g.LR, g.LC, g.KeyLen = 700*time.Second, 1234567891*time.Nanosecond, 7*time.Millisecond+1, 32
		return g
	}}
	for ci, cfg := range cfgs {
		rich := &Model{Cfg: cfg}
		var first []Op
		c.parallel(1, func(int) { first = entries(rich.run(richHistory()), ci == 0 || c.thorough()) })
		c.parallel(len(first), func(i int) {
			h := append(append([]Op{}, richHistory()...), first[i])
			c.Case(fmt.Sprintf("rich %d %s", ci, first[i].key()), true, func() string { return judge(rich, h) })
			if !c.thorough() {
				return
			}
			for _, o := range entries(rich.run(h), false) {
				if c.stopped() || c.timeUp() {
					return
				}
				h := append(append([]Op{}, h...), o)
				c.Case(fmt.Sprintf("rich %d %s %s", ci, first[i].key(), o.key()), true, func() string { return judge(rich, h) })
			}
		})
	}
}
