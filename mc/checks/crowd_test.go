package checks

// Crowds: the same kind of request many times over. What a credential is good
// for must not depend on how many others were issued, refused, spent or
// revoked meanwhile.

import (
	"fmt"

	oauth2 "github.com/256dpi/oauth2/v2"
)

// crowd is a kind of traffic; refusals issue nothing.
type crowd struct {
	name    string
	refusal bool
	f       func(w *World, i int)
}

func crowds() []crowd {
	do := func(w *World, o Op) *Resp { return w.do(o) }
	sc := []string{"foo", "bar", "foo bar", ""}
	users, clients := []string{"u1", "u2"}, []string{"c1", "c2", "p1"}
	unknown := func(w *World, i int) string {
		return oauth2.HS256TokenFromKey([]byte(w.Cfg.Secret), []byte(fmt.Sprintf("never issued %06d", i))).String()
	}
	last := func(w *World, kind byte) *Cred {
		for i := len(w.Creds) - 1; i >= 0; i-- {
			if w.Creds[i].Kind == kind && !w.Creds[i].Spent {
				return w.Creds[i]
			}
		}
		return nil
	}
	// the first credentials of the rich history a refusal can aim at
	target := func(w *World, kinds string, i int) *Cred {
		var l []*Cred
		for _, c := range w.Creds {
			if c.live() && len(kinds) > 0 && containsByte(kinds, c.Kind) {
				l = append(l, c)
			}
		}
		return l[i%len(l)]
	}
	return []crowd{
		{"password grants", false, func(w *World, i int) {
			do(w, Op{K: "pw", Cl: clients[i%3], Us: users[i/3%2], Sc: sc[i/7%4]})
		}},
		{"password grants of one", false, func(w *World, i int) { do(w, Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"}) }},
		{"client credentials grants", false, func(w *World, i int) { do(w, Op{K: "cc", Cl: clients[i%2], Sc: sc[i/2%4]}) }},
		{"implicit grants", false, func(w *World, i int) {
			do(w, Op{K: "imp", Cl: clients[i%3], Us: users[i/3%2], Sc: sc[i/7%4]})
		}},
		{"codes", false, func(w *World, i int) { do(w, Op{K: "code", Cl: clients[i%3], Us: users[i/3%2], Sc: sc[i/7%4]}) }},
		{"codes and exchanges", false, func(w *World, i int) {
			if i%2 == 0 {
				do(w, Op{K: "code", Cl: clients[i/2%3], Us: users[i/6%2], Sc: sc[i/14%4]})
			} else if k := last(w, 'C'); k != nil {
				do(w, Op{K: "xch", Cl: k.Client, Cr: k.ID})
			}
		}},
		{"a chain of refreshes", false, func(w *World, i int) {
			if i == 0 {
				do(w, Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"})
			} else {
				do(w, Op{K: "rfr", Cl: "c1", Cr: len(w.Creds) - 1})
			}
		}},
		{"grants and revocations", false, func(w *World, i int) {
			if i%2 == 0 {
				do(w, Op{K: "pw", Cl: "c1", Us: "u1", Sc: "foo bar"})
			} else {
				do(w, Op{K: "rev", Cl: "c1", Cr: len(w.Creds) - 1 - i/2%2})
			}
		}},
		{"replays of codes of their own", false, func(w *World, i int) {
			switch i % 3 {
			case 0:
				do(w, Op{K: "code", Cl: "c2", Us: "u2", Sc: "foo"})
			case 1:
				do(w, Op{K: "xch", Cl: "c2", Cr: len(w.Creds) - 1})
			case 2:
				do(w, Op{K: "xch", Cl: "c2", Cr: len(w.Creds) - 3})
			}
		}},
		{"one client a request", false, func(w *World, i int) {
			id := fmt.Sprintf("x%d", i%2100)
			if i < 2100 {
				w.addClient(ClientSpec{id, "xs", "https://x.example.com/cb", true})
			}
			w.S.Users[id] = &oauth2.ServerEntity{Secret: "xp"}
			do(w, Op{K: "pw", Cl: id, Us: id, Pw: "xp", Sc: "foo"})
		}},
		{"introspections", false, func(w *World, i int) {
			k := w.Creds[i%13]
			do(w, Op{K: "int", Cl: k.Client, Cr: k.ID})
		}},
		{"uses", false, func(w *World, i int) { do(w, Op{K: "res", Cr: i % 13}) }},
		{"unknown paths", true, func(w *World, i int) {
			w.send(Req{Method: "GET", Path: fmt.Sprintf("/oauth2/x%d", i), NoBody: true})
		}},
		{"wrong passwords", true, func(w *World, i int) { do(w, Op{K: "pw", Cl: "c1", Us: "u1", Pw: fmt.Sprint("no", i%50)}) }},
		{"wrong passwords at the form", true, func(w *World, i int) {
			do(w, Op{K: []string{"imp", "code"}[i%2], Cl: "c1", Us: "u1", Pw: "wrong"})
		}},
		{"wrong secrets", true, func(w *World, i int) { do(w, Op{K: "cc", Cl: "c1", Sec: fmt.Sprint("no", i%50)}) }},
		{"wrong secrets everywhere", true, func(w *World, i int) {
			do(w, []Op{{K: "rev", Cl: "c1", Cr: 0, Sec: "x"}, {K: "int", Cl: "c1", Cr: 0, Sec: "x"}, {K: "rfr", Cl: "c1", Cr: 1, Sec: "x"}, {K: "pw", Cl: "c1", Us: "u1", Sec: "-"}}[i%4])
		}},
		{"unknown clients", true, func(w *World, i int) { do(w, Op{K: "pw", Cl: fmt.Sprint("n", i), Us: "u1", Sec: "x"}) }},
		{"unknown codes", true, func(w *World, i int) { do(w, Op{K: "xch", Cl: "p1", X: unknown(w, i), Cr: -1}) }},
		{"unknown refresh tokens", true, func(w *World, i int) { do(w, Op{K: "rfr", Cl: "c1", X: unknown(w, i), Cr: -1}) }},
		{"malformed credentials", true, func(w *World, i int) {
			do(w, Op{K: []string{"xch", "rfr", "rev", "int"}[i%4], Cl: "c1", X: fmt.Sprint("x", i), Cr: -1})
		}},
		{"revocations of unknown tokens", true, func(w *World, i int) { do(w, Op{K: "rev", Cl: "c1", X: unknown(w, i), Cr: -1}) }},
		{"introspections of unknown tokens", true, func(w *World, i int) { do(w, Op{K: "int", Cl: "c1", X: unknown(w, i), Cr: -1}) }},
		{"unknown tokens at a resource", true, func(w *World, i int) {
			w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: true, Auth: "Bearer " + unknown(w, i)})
		}},
		{"missing scope at a resource", true, func(w *World, i int) {
			w.send(Req{Method: "GET", Path: resourcePath, NoBody: true, HasA: true, Auth: "Bearer " + w.Creds[0].Str, Need: []string{"baz"}})
		}},
		{"refreshes by another client", true, func(w *World, i int) {
			k := target(w, "R", i)
			do(w, Op{K: "rfr", Cl: others(w, k.Client)[i%2], X: k.Str, Cr: -1})
		}},
		{"refreshes with excessive scope", true, func(w *World, i int) {
			k := target(w, "R", i)
			do(w, Op{K: "rfr", Cl: k.Client, Cr: k.ID, Sc: "foo bar baz"})
		}},
		{"exchanges by another client", true, func(w *World, i int) {
			k := target(w, "C", i)
			do(w, Op{K: "xch", Cl: others(w, k.Client)[i%2], X: k.Str, Cr: -1})
		}},
		{"exchanges with another URI", true, func(w *World, i int) {
			k := target(w, "C", i)
			do(w, Op{K: "xch", Cl: k.Client, Cr: k.ID, Rd: "https://evil.example/"})
		}},
		{"revocations by another client", true, func(w *World, i int) {
			k := target(w, "AR", i)
			do(w, Op{K: "rev", Cl: others(w, k.Client)[i%2], X: k.Str, Cr: -1})
		}},
		{"introspections by another client", true, func(w *World, i int) {
			k := target(w, "AR", i)
			do(w, Op{K: "int", Cl: others(w, k.Client)[i%2], X: k.Str, Cr: -1})
		}},
		{"excessive scope", true, func(w *World, i int) {
			do(w, []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo baz"}, {K: "cc", Cl: "c1", Sc: "baz"}, {K: "imp", Cl: "p1", Us: "u1", Sc: "baz"}, {K: "code", Cl: "p1", Us: "u1", Sc: "baz"}}[i%4])
		}},
		{"authorization requests without a submission", true, func(w *World, i int) {
			q := w.build(Op{K: "code", Cl: "c1", Us: "u1"})
			q.Method, q.Query, q.Body, q.NoBody, q.CT = "GET", q.Body, "", true, ""
			w.send(q)
		}},
	}
}

func containsByte(s string, b byte) bool {
	for i := range s {
		if s[i] == b {
			return true
		}
	}
	return false
}

// crowded lets oracle judge the rich history followed by every crowd selected.
// The number of requests exceeds the round numbers implementations limit their
// tables by.
func (c *Check) crowded(sel func(k crowd) bool, oracle func(before, after func() *World, n int) string) {
	size := 2100
	if c.thorough() {
		size = 11000
	}
	var l []crowd
	for _, k := range crowds() {
		if sel == nil || sel(k) {
			l = append(l, k)
		}
	}
	m := &Model{Cfg: baseCfg}
	h := richHistory()
	c.parallel(len(l), func(i int) {
		for _, n := range []int{7, 130, size} {
			if c.stopped() || c.timeUp() {
				return
			}
			c.Case(fmt.Sprintf("crowd %s %d", l[i].name, n), true, func() string {
				before := func() *World { return m.run(h) }
				n0 := len(before().Creds)
				msg := oracle(before, func() *World {
					w := m.run(h)
					for j := 0; j < n; j++ {
						l[i].f(w, j)
					}
					return w
				}, n0)
				if msg != "" {
					return fmt.Sprintf("after %d requests (%s): %s", n, l[i].name, msg)
				}
				return ""
			})
		}
	})
}

// crowdOf judges every credential of the state reached: live ones must work,
// dead ones must not.
func crowdOf(w *World, kinds string) string {
	for _, k := range w.Creds {
		if !containsByte(kinds, k.Kind) || (!k.live() && !k.dead()) || k.Spent && k.Kind == 'C' {
			continue
		}
		live := k.live()
		if k.Kind != 'C' {
			if a, r := w.active(k); a != live {
				return fmt.Sprintf("%s is reported active=%v\nanswer: %s", k, a, r)
			}
		}
		if ok, r := w.use(k); ok != live {
			return fmt.Sprintf("%s: use succeeds=%v\nanswer: %s", k, ok, r)
		}
	}
	return ""
}

func sameVector(before, after func() *World, n int) string {
	a := before().vector(n)
	w := after()
	b := w.vector(n)
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s changed from [%s] to [%s]", w.Creds[i], a[i], b[i])
		}
	}
	a = before().late(n)
	w = after()
	b = w.late(n)
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s changed (at its expiry) from [%s] to [%s]", w.Creds[i], a[i], b[i])
		}
	}
	return ""
}
