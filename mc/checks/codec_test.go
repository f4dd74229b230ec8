package checks

// Tokens and scopes: C16 (freshness and randomness, over histories), C17 (token
// codec), C18 (scope algebra), C26 (bearer header).

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"testing"

	"averif/mc/arand"
	oauth2 "github.com/256dpi/oauth2/v2"
)

// ------------------------------------------------------- independent codecs

const b64url = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

func refB64(b []byte) string {
	var s strings.Builder
	for i := 0; i < len(b); i += 3 {
		var v uint32
		n := 0
		for j := 0; j < 3; j++ {
			v <<= 8
			if i+j < len(b) {
				v |= uint32(b[i+j])
				n++
			}
		}
		for j := 0; j <= n; j++ {
			s.WriteByte(b64url[v>>(18-6*j)&63])
		}
	}
	return s.String()
}

// refUnB64 decodes unpadded base64url. canonical is false if the text has line
// breaks or non-zero trailing bits, which decoders may or may not accept.
func refUnB64(s string) (out []byte, canonical, ok bool) {
	canonical = true
	var v uint32
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' || s[i] == '\r' {
			canonical = false
			continue
		}
		k := strings.IndexByte(b64url, s[i])
		if k < 0 {
			return nil, false, false
		}
		v = v<<6 | uint32(k)
		if n++; n == 4 {
			out = append(out, byte(v>>16), byte(v>>8), byte(v))
			v, n = 0, 0
		}
	}
	switch n {
	case 1:
		return nil, false, false
	case 2:
		out = append(out, byte(v>>4))
		if v&15 != 0 {
			canonical = false
		}
	case 3:
		out = append(out, byte(v>>10), byte(v>>2))
		if v&3 != 0 {
			canonical = false
		}
	}
	return out, canonical, true
}

func refHMAC(secret, msg []byte) []byte {
	if len(secret) > 64 {
		h := sha256.Sum256(secret)
		secret = h[:]
	}
	in, out := bytes.Repeat([]byte{0x36}, 64), bytes.Repeat([]byte{0x5c}, 64)
	for i, b := range secret {
		in[i] ^= b
		out[i] ^= b
	}
	h := sha256.Sum256(append(in, msg...))
	h = sha256.Sum256(append(out, h[:]...))
	return h[:]
}

// refToken decides whether s is a genuine token under secret.
func refToken(secret []byte, s string) (key, sig []byte, genuine, canonical bool) {
	p := strings.Split(s, ".")
	if len(p) != 2 {
		return nil, nil, false, true
	}
	key, c1, ok1 := refUnB64(p[0])
	sig, c2, ok2 := refUnB64(p[1])
	if !ok1 || !ok2 {
		return nil, nil, false, true
	}
	return key, sig, bytes.Equal(sig, refHMAC(secret, key)), c1 && c2
}

// ------------------------------------------------------------ random control

// ctlRand is a deterministic stream whose bytes can be altered by position.
type ctlRand struct {
	mu  sync.Mutex
	pos int
	alt func(pos int, b byte) byte
	max int // bytes per read, 0: as asked
}

func streamByte(pos int) byte {
	h := sha256.Sum256([]byte(fmt.Sprintf("stream %d", pos/32)))
	return h[pos%32]
}

func (r *ctlRand) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.max > 0 && len(p) > r.max {
		p = p[:r.max]
	}
	for i := range p {
		b := streamByte(r.pos)
		if r.alt != nil {
			b = r.alt(r.pos, b)
		}
		p[i] = b
		r.pos++
	}
	return len(p), nil
}

// --------------------------------------------------------------------- C16

func TestC16(t *testing.T) {
	c := newCheck(t, "C16", "model_checking",
		"all issuing histories to the depth bound for 5 key lengths x 3 secrets (and one history for each of 150 lengths; the default configuration: at least 16 bytes), merged by canonical state, every credential checked for length, signature (independent HMAC) and uniqueness; and, with the random stream under control, the same history re-run with every single bit of the stream flipped and every stream byte set to each value: every key must depend injectively on its own key-length bytes of the stream and on no byte of another key. Non-trivial: a credential was issued / a stream bit was altered.")
	defer c.finish()
	keyOf := func(k *Cred) []byte {
		p := strings.Split(k.Str, ".")
		b, _, _ := refUnB64(p[0])
		return b
	}
	secrets := []string{"a-server-secret!", strings.Repeat("long", 20), "x"}
	lens := []int{16, 24, 8, 33, 64}
	fresh := func(w *World) string {
		seen := map[string]int{}
		for _, k := range w.Creds {
			key, sig, genuine, canonical := refToken([]byte(w.Cfg.Secret), k.Str)
			if !genuine || !canonical || sig == nil {
				return fmt.Sprintf("%s: %q is not a signed token under the server's secret", k, k.Str)
			}
			if len(key) != w.Cfg.KeyLen {
				return fmt.Sprintf("%s: random part has %d bytes, configured are %d", k, len(key), w.Cfg.KeyLen)
			}
			for _, s := range []string{"", "other", w.Cfg.Secret + "x", w.Cfg.Secret[1:]} {
				if _, err := oauth2.ParseHS256Token([]byte(s), k.Str); err == nil {
					return fmt.Sprintf("%s verifies under secret %q", k, s)
				}
			}
			if j, ok := seen[string(key)]; ok {
				return fmt.Sprintf("%s shares its random part with #%d", k, j)
			}
			seen[string(key)] = k.ID
		}
		return ""
	}
	issue := func(w *World) []Op {
		out := []Op{{K: "pw", Cl: "c1", Us: "u1", Sc: "foo"}, {K: "cc", Cl: "c1", Sc: "foo"}, {K: "imp", Cl: "c1", Us: "u1"}, {K: "code", Cl: "c1", Us: "u1"}}
		out = append(out, forKind(w, "C", func(k *Cred) []Op { return []Op{{K: "xch", Cl: k.Client, Cr: k.ID}} })...)
		return append(out, forKind(w, "R", func(k *Cred) []Op { return []Op{{K: "rfr", Cl: k.Client, Cr: k.ID}} })...)
	}
	d := 3
	if c.thorough() {
		d = 5
	}
	// the default configuration is no exception
	c.Case("default configuration", true, func() string {
		for n := 0; n < 80; n++ {
			secret, allowed := []byte(longText(n, n)), oauth2.Scope{"foo", fmt.Sprint(n)}
			g := oauth2.DefaultServerConfig(secret, allowed)
			if g.KeyLength < 16 || string(g.Secret) != string(secret) || !eqStrings(g.AllowedScope, allowed) {
				return fmt.Sprintf("the default configuration generates %d random bytes under %q", g.KeyLength, g.Secret)
			}
			if n == 0 {
				continue
			}
			tk := g.MustGenerate()
			if key, _, genuine, canonical := refToken(secret, tk.String()); !genuine || !canonical || len(key) < 16 {
				return fmt.Sprintf("the default configuration generates %q", tk)
			}
		}
		return ""
	})
	for i, l := range lens {
		for j, s := range secrets {
			if !c.thorough() && i > 1 && j > 0 {
				continue
			}
			depth := d
			if c.thorough() && (i > 1 || j > 0) {
				depth = 4
			}
			c.explore(&Model{Name: fmt.Sprintf("fresh %d/%d", l, len(s)), Depth: depth, Ops: issue,
				Cfg:   func() *Cfg { g := baseCfg(); g.KeyLen, g.Secret = l, s; return g },
				State: func(w *World, fork func() *World) string { return fresh(w) }})
		}
	}
	// every key length
	c.parallel(150, func(i int) {
		l := 8 + i
		if i >= 140 {
			l = []int{200, 255, 256, 257, 512, 1000, 1024, 4096, 5000, 65536}[i-140]
		}
		c.Case(fmt.Sprintf("key length %d", l), true, func() string {
			g := baseCfg()
			g.KeyLen = l
			w := newWorld(g)
			for _, o := range richHistory() {
				w.do(o)
			}
			if len(w.Creds) != 13 {
				return "history issued too few credentials"
			}
			return fresh(w)
		})
	})
	c.crowded(func(k crowd) bool { return !k.refusal }, func(before, after func() *World, n int) string { return fresh(after()) })
	// a long history
	c.parallel(1, func(int) {
		c.Case("many credentials", true, func() string {
			w := newWorld(baseCfg())
			for i := 0; i < 400; i++ {
				w.do([]Op{{K: "pw", Cl: "c1", Us: "u1"}, {K: "cc", Cl: "c1"}, {K: "imp", Cl: "c1", Us: "u1"}, {K: "code", Cl: "c1", Us: "u2"}}[i%4])
				if i%3 == 0 {
					if r := w.byKind('R'); len(r) > 0 {
						w.use(r[len(r)-1])
					}
				}
			}
			if len(w.Creds) < 600 {
				return "history issued too few credentials"
			}
			return fresh(w)
		})
	})
	// dependence on the random source; the source is process-wide, so this
	// part runs on one worker
	type hist struct {
		name string
		h    []Op
		max  int
	}
	hs := []hist{
		{"all grants", []Op{{K: "pw", Cl: "c1", Us: "u1"}, {K: "cc", Cl: "c1"}, {K: "imp", Cl: "c1", Us: "u1"}, {K: "code", Cl: "c1", Us: "u1"}, {K: "xch", Cl: "c1", Cr: 5}, {K: "rfr", Cl: "c1", Cr: 1}}, 0},
		{"refresh chain", []Op{{K: "pw", Cl: "p1", Us: "u1", Sc: "foo"}, {K: "rfr", Cl: "p1", Cr: 1}, {K: "rfr", Cl: "p1", Cr: 3}, {K: "code", Cl: "p1", Us: "u1"}}, 0},
		{"all grants in pieces", []Op{{K: "pw", Cl: "c1", Us: "u1"}, {K: "imp", Cl: "c1", Us: "u1"}, {K: "code", Cl: "c1", Us: "u1"}, {K: "xch", Cl: "c1", Cr: 3}, {K: "rfr", Cl: "c1", Cr: 1}}, 9},
	}
	for _, l := range []int{16, 33} {
		for _, hh := range hs {
			run := func(alt func(pos int, b byte) byte) ([][]byte, []*Cred, int) {
				src := &ctlRand{alt: alt, max: hh.max}
				old := arand.Set(src)
				defer arand.Set(old)
				g := baseCfg()
				g.KeyLen = l
				w := (&Model{Cfg: func() *Cfg { return g }}).run(hh.h)
				var keys [][]byte
				for _, k := range w.Creds {
					keys = append(keys, keyOf(k))
				}
				return keys, w.Creds, src.pos
			}
			var base [][]byte
			var creds []*Cred
			var used int
			c.parallel(1, func(int) { base, creds, used = run(nil) })
			influence := make([]map[int]int, len(base)) // credential -> stream position -> influencing bits
			for i := range influence {
				influence[i] = map[int]int{}
			}
			c.parallel(1, func(int) {
				for pos := 0; pos < used && !c.stopped(); pos++ {
					for bit := 0; bit < 8; bit++ {
						c.Case(fmt.Sprintf("%s len=%d flip %d.%d", hh.name, l, pos, bit), true, func() string {
							keys, _, _ := run(func(p int, b byte) byte {
								if p == pos {
									b ^= 1 << bit
								}
								return b
							})
							hit := 0
							for i := range keys {
								if !bytes.Equal(keys[i], base[i]) {
									influence[i][pos] |= 1 << bit
									hit++
								}
							}
							if hit > 1 {
								return fmt.Sprintf("one bit of the random source influences the random parts of %d credentials", hit)
							}
							return ""
						})
					}
				}
				c.Case(fmt.Sprintf("%s len=%d dependence", hh.name, l), true, func() string {
					if c.replay != "" || c.stopped() || c.timeUp() {
						return ""
					}
					for i, inf := range influence {
						full := 0
						for _, m := range inf {
							if m == 0xff {
								full++
							}
						}
						if full < l {
							return fmt.Sprintf("%s: only %d of %d bytes of its random part come from the random source", creds[i], full, l)
						}
					}
					return ""
				})
				// injectivity: all values of a source byte give different keys
				step := 3
				if c.thorough() {
					step = 1
				}
				for pos := 0; pos < used && !c.stopped(); pos += step {
					c.Case(fmt.Sprintf("%s len=%d values of %d", hh.name, l, pos), true, func() string {
						seen := map[string]bool{}
						who := -1
						for v := 0; v < 256; v++ {
							keys, _, _ := run(func(p int, b byte) byte {
								if p == pos {
									b = byte(v)
								}
								return b
							})
							if who < 0 {
								for i := range keys {
									if influence[i][pos] != 0 {
										who = i
									}
								}
								if who < 0 {
									return "" // reported above
								}
							}
							seen[string(keys[who])] = true
						}
						if len(seen) != 256 {
							return fmt.Sprintf("%s: 256 values of a source byte yield only %d random parts", creds[who], len(seen))
						}
						return ""
					})
				}
			})
		}
	}
}

// --------------------------------------------------------------------- C17

func tokenOracle(secret []byte, s string) string {
	key, sig, genuine, canonical := refToken(secret, s)
	tk, err := oauth2.ParseHS256Token(secret, s)
	if err != nil {
		if tk != nil {
			return fmt.Sprintf("%q: both token and error", s)
		}
		if genuine && canonical {
			return fmt.Sprintf("genuine token %q rejected: %v", s, err)
		}
		return ""
	}
	if tk == nil {
		return fmt.Sprintf("%q: neither token nor error", s)
	}
	if !genuine {
		return fmt.Sprintf("%q accepted under secret %q", s, secret)
	}
	if !bytes.Equal(tk.Key, key) || !bytes.Equal(tk.Signature, sig) {
		return fmt.Sprintf("%q parsed to a different key or signature", s)
	}
	return ""
}

func pattern(n, k int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch k {
		case 0:
			b[i] = byte(i*37 + 11)
		case 1:
			b[i] = 0
		case 2:
			b[i] = 0xff
		case 3:
			b[i] = byte(250 + i)
		case 4: // zeros, blanks and line ends around
			b[i] = byte(i*37 + 11)
			if i < 2 || i >= n-3 {
				b[i] = []byte{0, ' ', '\n', '=', 0}[(i+n)%5]
			}
		case 5:
			b[i] = byte(i*37 + 11)
			if i >= n-1-n/8 {
				b[i] = 0
			}
		}
	}
	return b
}

func TestC17(t *testing.T) {
	c := newCheck(t, "C17", "exploration",
		"all key lengths 0-40 x secret lengths 0-130 (four contents, also with zeros and blanks at the ends) round-tripped and re-parsed under every one-bit-changed, truncated and extended secret; for tokens of 7 key lengths: every bit flip, byte replacement, truncation, extension, insertion, recombination at byte and string level; all strings up to length 6 over {A,.,-,=,space}; all pairs of byte strings up to length 4 over 3 bytes for Equal; against an independent HMAC-SHA256 and base64url. Non-trivial: the string is not the unmodified token.")
	c.assume = []string{"base64 text with line breaks or non-zero trailing bits may be accepted or rejected"}
	defer c.finish()
	// round trips
	c.parallel(41*131, func(i int) {
		kl, sl := i%41, i/41
		for _, pat := range []int{0, 3, 4, 5} {
			key, secret := pattern(kl, pat), pattern(sl, pat^3)
			if pat > 3 {
				secret = pattern(sl, pat)
			}
			c.Case(fmt.Sprintf("round trip key=%d secret=%d pat=%d", kl, sl, pat), kl > 0, func() string {
				tk := oauth2.HS256TokenFromKey(secret, key)
				want := refB64(key) + "." + refB64(refHMAC(secret, key))
				if tk.String() != want {
					return fmt.Sprintf("token is %q, want %q", tk.String(), want)
				}
				if tk.KeyString() != refB64(key) || tk.SignatureString() != refB64(refHMAC(secret, key)) || !bytes.Equal(tk.Key, key) {
					return "wrong key or signature"
				}
				if !tk.Valid(secret) {
					return "token is not valid"
				}
				if msg := tokenOracle(secret, want); msg != "" {
					return msg
				}
				// every other secret
				for b := 0; b < sl; b++ {
					other := append([]byte{}, secret...)
					other[b] ^= 1 << (b % 8)
					if msg := tokenOracle(other, want); msg != "" {
						return msg
					}
				}
				for _, other := range [][]byte{append(append([]byte{}, secret...), 'x'), append([]byte{'x'}, secret...), nil, bytes.ToUpper(secret)} {
					if msg := tokenOracle(other, want); msg != "" {
						return msg
					}
				}
				if sl > 0 {
					if msg := tokenOracle(secret[:sl-1], want); msg != "" {
						return msg
					}
				}
				gen, err := oauth2.GenerateHS256Token(secret, kl)
				if err != nil || len(gen.Key) != kl {
					return fmt.Sprintf("generated a key of %d bytes (%v)", len(gen.Key), err)
				}
				if msg := tokenOracle(secret, gen.String()); msg != "" {
					return msg
				}
				if must := oauth2.MustGenerateHS256Token(secret, kl); len(must.Key) != kl || tokenOracle(secret, must.String()) != "" {
					return "MustGenerateHS256Token: bad token"
				}
				return ""
			})
		}
	})
	// alterations
	kls := []int{0, 1, 2, 3, 16, 31, 32}
	secret := []byte("a-server-secret!")
	var toks []string
	for _, kl := range kls {
		toks = append(toks, refB64(pattern(kl, 0))+"."+refB64(refHMAC(secret, pattern(kl, 0))))
	}
	try := func(name, s string) {
		c.Case("string "+name+" "+s, true, func() string { return tokenOracle(secret, s) })
	}
	c.parallel(len(kls), func(i int) {
		key := pattern(kls[i], 0)
		sig := refHMAC(secret, key)
		t0 := toks[i]
		raw := append(append([]byte{}, key...), sig...)
		for b := 0; b < 8*len(raw); b++ {
			m := append([]byte{}, raw...)
			m[b/8] ^= 1 << (b % 8)
			try("bit", refB64(m[:len(key)])+"."+refB64(m[len(key):]))
		}
		for n := 0; n <= len(raw); n++ { // move the border
			try("border", refB64(raw[:n])+"."+refB64(raw[n:]))
			try("cut", refB64(raw[:n])+".")
			try("tail", "."+refB64(raw[n:]))
		}
		for n := 0; n < len(sig); n++ {
			try("short sig", refB64(key)+"."+refB64(sig[:n]))
			try("late sig", refB64(key)+"."+refB64(sig[n+1:]))
			try("zero sig", refB64(key)+"."+refB64(append(append([]byte{}, sig[:n]...), make([]byte, len(sig)-n)...)))
		}
		for n := 0; n < len(key); n++ {
			try("short key", refB64(key[:n])+"."+refB64(sig))
		}
		for v := 0; v < 256; v++ {
			try("long sig", refB64(key)+"."+refB64(append(append([]byte{}, sig...), byte(v))))
			try("long key", refB64(append(append([]byte{}, key...), byte(v)))+"."+refB64(sig))
			try("early key", refB64(append([]byte{byte(v)}, key...))+"."+refB64(sig))
			try("one byte sig", refB64(key)+"."+refB64([]byte{byte(v)}))
		}
		for p := 0; p <= len(t0); p++ {
			for v := 0; v < 256; v++ {
				if p < len(t0) {
					try("replace", t0[:p]+string([]byte{byte(v)})+t0[p+1:])
				}
				if v < 128 {
					try("insert", t0[:p]+string([]byte{byte(v)})+t0[p:])
				}
			}
			try("prefix", t0[:p])
			try("suffix", t0[p:])
			if p < len(t0) {
				try("delete", t0[:p]+t0[p+1:])
			}
			if p+1 < len(t0) {
				try("swap", t0[:p]+string(t0[p+1])+string(t0[p])+t0[p+2:])
			}
		}
		a := strings.Split(t0, ".")
		for _, o := range toks {
			b := strings.Split(o, ".")
			for _, s := range []string{a[0] + "." + b[1], b[0] + "." + a[1], a[1] + "." + a[0], a[1] + "." + b[1], t0 + o, t0 + "." + o, t0 + "," + o, a[0] + a[1], a[0] + ".." + a[1], "." + t0, t0 + ".", a[0] + "." + a[1] + "." + b[0]} {
				try("combine", s)
			}
		}
		for _, e := range []string{"", "==", "=", " ", "\t", "\n", "\x00"} {
			try("pad", a[0]+e+"."+a[1]+e)
			try("pad", t0+e)
			try("pad", e+t0)
		}
		// standard alphabet, hex, unkeyed digests
		try("std", strings.NewReplacer("-", "+", "_", "/").Replace(t0))
		h := sha256.Sum256(key)
		try("unkeyed", a[0]+"."+refB64(h[:]))
		h = sha256.Sum256(append(append([]byte{}, secret...), key...))
		try("prefix mac", a[0]+"."+refB64(h[:]))
		for _, s := range []string{"", "a-server-secret", "A-SERVER-SECRET!", "a-server-secret!!"} {
			try("foreign", a[0]+"."+refB64(refHMAC([]byte(s), key)))
		}
		if len(a[0])%4 != 1 {
			try("mac of text", a[0]+"."+refB64(refHMAC(secret, []byte(a[0]))))
		}
	})
	// short strings
	max := 6
	if c.thorough() {
		max = 8
	}
	const alpha = "A.-= "
	total := 1
	for i := 0; i < max; i++ {
		total *= len(alpha)
	}
	c.parallel(total/625+1, func(j int) {
		for i := j * 625; i < (j+1)*625 && i < total; i++ {
			b := make([]byte, max)
			v := i
			for k := range b {
				b[k] = alpha[v%len(alpha)]
				v /= len(alpha)
			}
			for n := max; n >= 0; n-- {
				try("short", string(b[:n]))
				if n > 0 && b[n-1] != alpha[0] {
					break
				}
			}
		}
	})
	// Equal
	var strs [][]byte
	for n := 0; n <= 4; n++ {
		cnt := 1
		for k := 0; k < n; k++ {
			cnt *= 3
		}
		for i := 0; i < cnt; i++ {
			b := make([]byte, n)
			v := i
			for k := range b {
				b[k] = []byte{0, 1, 255}[v%3]
				v /= 3
			}
			strs = append(strs, b)
		}
	}
	c.parallel(len(strs), func(i int) {
		for j := range strs {
			c.Case(fmt.Sprintf("equal %x %x", strs[i], strs[j]), i != j, func() string {
				if got := (&oauth2.HS256Token{Signature: strs[i]}).Equal(strs[j]); got != bytes.Equal(strs[i], strs[j]) {
					return fmt.Sprintf("Equal is %v", got)
				}
				return ""
			})
		}
	})
	c.parallel(1, func(int) {
		sig := refHMAC(secret, []byte("k"))
		for n := 0; n <= 32; n++ {
			c.Case(fmt.Sprintf("equal prefix %d", n), n < 32, func() string {
				if got := (&oauth2.HS256Token{Key: []byte("k"), Signature: sig}).Equal(sig[:n]); got != (n == 32) {
					return "prefix compares equal"
				}
				if got := (&oauth2.HS256Token{Key: []byte("k"), Signature: sig[:n]}).Valid(secret); got != (n == 32) {
					return "prefix is valid"
				}
				return ""
			})
		}
	})
}

// --------------------------------------------------------------------- C18

func TestC18(t *testing.T) {
	c := newCheck(t, "C18", "exploration",
		"all strings up to length 7 (thorough 9) over {space,tab,a,b,A} plus hostile strings; all pairs of scope lists up to length 3 (thorough 4 x 3) over 7 values with prefixes, case variants and blanks and up to length 2 over 22 long, pattern-like and non-ASCII values; values of 40 and 300 characters changed or cut at every position and lists of as many values; against a set-based reference. Non-trivial: the string has a value / both lists are non-empty.")
	c.assume = []string{"whitespace other than the space around a value may be trimmed or kept"}
	defer c.finish()
	const alpha = " \taAb"
	max := 7
	if c.thorough() {
		max = 9
	}
	norm := func(l []string) []string {
		var out []string
		for _, x := range l {
			if x = strings.TrimSpace(x); x != "" {
				out = append(out, x)
			}
		}
		return out
	}
	eq := func(a, b []string) bool {
		return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
	}
	one := func(s string) {
		c.Case(fmt.Sprintf("parse %q", s), strings.TrimSpace(s) != "", func() string {
			got := oauth2.ParseScope(s)
			want := norm(splitScope(s))
			if !eq(norm(got), want) || len(got) != len(want) {
				return fmt.Sprintf("ParseScope(%q) = %q, want %q", s, got, want)
			}
			if again := oauth2.ParseScope(got.String()); !eq(again, got) {
				return fmt.Sprintf("re-parsing %q gives %q, was %q", got.String(), again, got)
			}
			if got.Empty() != (len(want) == 0) {
				return "Empty is wrong"
			}
			for _, v := range want {
				if !got.Contains(v) {
					return fmt.Sprintf("%q does not contain %q", got, v)
				}
			}
			j, err := json.Marshal(got)
			if err != nil {
				return "marshal: " + err.Error()
			}
			var plain string
			if json.Unmarshal(j, &plain) != nil || !eq(norm(splitScope(plain)), want) {
				return fmt.Sprintf("JSON form %s is not the space-separated list", j)
			}
			sc := oauth2.Scope{"old"}
			if err := json.Unmarshal(j, &sc); err != nil || !eq(sc, got) {
				return fmt.Sprintf("JSON round trip of %q gives %q (%v)", got, sc, err)
			}
			// in a document, and from a string encoded elsewhere
			enc, _ := json.Marshal(s)
			var doc struct{ S oauth2.Scope }
			if err := json.Unmarshal([]byte(`{"S":`+string(enc)+`}`), &doc); err != nil || !eq(doc.S, got) {
				return fmt.Sprintf("decoding %s gives %q (%v)", enc, doc.S, err)
			}
			return ""
		})
	}
	total := 1
	for i := 0; i < max; i++ {
		total *= len(alpha)
	}
	c.parallel(total/625+1, func(j int) {
		for i := j * 625; i < (j+1)*625 && i < total; i++ {
			b := make([]byte, max)
			v := i
			for k := range b {
				b[k] = alpha[v%len(alpha)]
				v /= len(alpha)
			}
			for n := max; n >= 0; n-- {
				one(string(b[:n]))
				if n > 0 && b[n-1] != alpha[0] {
					break
				}
			}
		}
	})
	c.parallel(1, func(int) {
		for _, s := range []string{"foo:bar foo.bar", "ü €", "a,b", "a;b", "<x> &y", "\"q\" \\", "a\u00a0b", strings.Repeat("v ", 500), "a\nb", "a+b", "a%20b", "\u2028x", "foo, bar", "foo,bar baz", "foo; bar", "foo  ,bar", "\"foo bar\"", "[foo bar]", "foo|bar", "foo bar foo", "b a b a", "foo:bar:baz *", "Foo foo FOO", longScope + " " + strings.ToUpper(longScope), "%20 %61", "null", "-a +a"} {
			one(s)
		}
		// separators elsewhere
		for _, x := range ", ; | \" ' [ { ( < - + \\ / . : = & % *" {
			for _, y := range "ab " {
				for _, z := range ", ;ab" {
					one("foo" + string(x) + string(y) + string(z) + "bar")
					one(string(x) + string(y) + "foo bar" + string(z) + string(x))
				}
			}
		}
		for _, j := range []string{`1`, `{}`, `["a"]`, `true`, `"`, ``} {
			c.Case("bad json "+j, true, func() string {
				var sc oauth2.Scope
				if err := json.Unmarshal([]byte(j), &sc); err == nil {
					return fmt.Sprintf("accepted as %q", sc)
				}
				return ""
			})
		}
	})
	al := []string{"foo", "bar", "FOO", "fo", "foobar", "", "oo"}
	m1, m2 := 3, 3
	if c.thorough() {
		m1 = 4
	}
	as, bs := scopeLists(al, m1), scopeLists(al, m2)
	probe := append(append([]string{}, al...), "foo bar", " foo", "o", "fooba", "f")
	// long values, values that look like patterns, letters with odd case rules
	al2 := []string{longScope, strings.ToUpper(longScope), longScope + "x", longScope[1:], "*", "read:*", "read:a", "READ:A", "read", "ü", "Ü", "k", "\u212a", "s", "\u017f", "a,b", "u\u0308", "\xff", "\ufffd", ".*", "%61", "a"}
	as, bs = append(as, scopeLists(al2, 2)...), append(bs, scopeLists(al2, 2)...)
	probe = append(probe, al2...)
	c.parallel(len(as), func(i int) {
		if c.stopped() || c.timeUp() {
			return
		}
		a := oauth2.Scope(as[i])
		c.Case(fmt.Sprintf("contains %q", as[i]), len(as[i]) > 0, func() string {
			for _, p := range probe {
				if got := a.Contains(p); got != subset([]string{p}, as[i]) {
					return fmt.Sprintf("%q contains %q: %v", as[i], p, got)
				}
			}
			if a.Empty() != (len(as[i]) == 0) {
				return "Empty is wrong"
			}
			return ""
		})
		c.Case(fmt.Sprintf("includes %q", as[i]), len(as[i]) > 0, func() string {
			for _, b := range bs {
				ca, cb := append([]string{}, as[i]...), append([]string{}, b...)
				if got := a.Includes(oauth2.Scope(b)); got != subset(b, as[i]) {
					return fmt.Sprintf("%q includes %q: %v", as[i], b, got)
				}
				c.evals.Add(1)
				if !eq(ca, as[i]) || !eq(cb, b) {
					return "operands were changed"
				}
			}
			_ = a.String()
			if len(a) != len(as[i]) {
				return "operand was changed"
			}
			return ""
		})
	})
	c.longLists()
	// every pair of a value and its neighbours: inclusion is equality
	c.parallel(95, func(i int) {
		x := string(rune(' ' + i))
		c.Case(fmt.Sprintf("neighbours %q", x), true, func() string {
			var l []string
			for y := ' '; y <= '~'; y++ {
				l = append(l, "foo"+x+string(y), x+string(y)+"foo", "foo"+x+string(y)+"bar", x+string(y))
			}
			l = append(l, "foo"+x, x+"foo", x, "foo"+x+"bar", x+"foo"+x, "f"+x+"o")
			for _, a := range l {
				for _, b := range []string{"foo", "bar", "foobar", "", "f", "foo bar"} {
					if a == b {
						continue
					}
					if (oauth2.Scope{a}).Includes(oauth2.Scope{b}) || (oauth2.Scope{b}).Includes(oauth2.Scope{a}) || (oauth2.Scope{a}).Contains(b) || (oauth2.Scope{b, b + "~~~~"}).Contains(a) {
						return fmt.Sprintf("%q and %q are taken for one another", a, b)
					}
					c.evals.Add(4)
				}
				for _, b := range l {
					if got := (oauth2.Scope{a}).Contains(b); got != (a == b) {
						return fmt.Sprintf("%q contains %q: %v", a, b, got)
					}
					c.evals.Add(1)
				}
			}
			return ""
		})
	})
	c.parallel(1, func(int) {
		c.Case("nil", true, func() string {
			var n oauth2.Scope
			if !n.Empty() || n.String() != "" || n.Contains("") || !n.Includes(nil) || !oauth2.Scope([]string{"a"}).Includes(nil) || n.Includes(oauth2.Scope{"a"}) {
				return "nil scope misbehaves"
			}
			return ""
		})
	})
}

// --------------------------------------------------------------------- C26

func TestC26(t *testing.T) {
	c := newCheck(t, "C26", "exploration",
		"all 64 case variants of the scheme x 25 rests; every single-character edit of 'Bearer token'; all headers up to length 4 (thorough 5) over 9 characters, bare and after a scheme prefix; several header values; tokens up to 1 MiB; 11 methods x ~200 other headers; against a reference parser. Non-trivial: the header is present.")
	defer c.finish()
	ref := func(h string) (tok string, class int) { // 0 ok, 1 missing, 2 malformed
		if h == "" {
			return "", 1
		}
		if i := strings.IndexByte(h, ' '); i == 6 && strings.ToLower(h[:6]) == "bearer" && len(h) > 7 && h[:6] == strings.ToValidUTF8(h[:6], "?") {
			ascii := true
			for _, b := range []byte(h[:6]) {
				ascii = ascii && b < 128
			}
			if ascii {
				return h[7:], 0
			}
		}
		return "", 2
	}
	one := func(name string, hs ...string) {
		c.Case(fmt.Sprintf("%s %q", name, hs), len(hs) > 0, func() string {
			r := &http.Request{Method: "GET", Header: http.Header{}}
			for _, h := range hs {
				r.Header.Add("Authorization", h)
			}
			first := ""
			if len(hs) > 0 {
				first = hs[0]
			}
			want, class := ref(first)
			got, err := oauth2.ParseBearerToken(r)
			var oe *oauth2.Error
			switch class {
			case 0:
				if err != nil || got != want {
					return fmt.Sprintf("got %q, %v; want %q", got, err, want)
				}
				return ""
			case 1:
				if got != "" || !errors.As(err, &oe) || oe.Status != 401 || oe.Name != "" {
					return fmt.Sprintf("got %q, %#v; want the bare 401 error", got, err)
				}
			case 2:
				if got != "" || !errors.As(err, &oe) || oe.Status != 400 || oe.Name != "invalid_request" {
					return fmt.Sprintf("got %q, %#v; want a 400 invalid_request error", got, err)
				}
			}
			return ""
		})
	}
	rests := []string{"", " ", " t", "  t", " t ", " a b", "\tt", "t", " a.b-_~+/=", " " + strings.Repeat("x", 3000), " ü", " \x00", " Bearer t", "  ", "= t", ": t", ",t", " t,u", " \"t\"", " =", "\u00a0t", "\x20\x20", " \n", "s t", " bearer", " bearer t", " BEARER t", " Bearer Bearer t", " Basic t", " token t", " Token t", " MAC t", " bearer:t", " token=t", " t=t", " realm=\"x\", t", " access_token=t", " \"Bearer t\"", " <t>", " {t}", " t;v=1", " t t", " t, Bearer u", " urn:t", " https://a/t", " t#u", " t?u", " %74", " t\r", " \ufefft", " t=", " t==", " undefined", " null"}
	c.parallel(64, func(m int) {
		s := []byte("bearer")
		for i := range s {
			if m>>i&1 == 1 {
				s[i] -= 32
			}
		}
		for _, r := range rests {
			one("case", string(s)+r)
		}
	})
	c.parallel(1, func(int) {
		one("none")
		base := "Bearer token"
		for i := 0; i <= len(base); i++ {
			for v := 0; v < 256; v++ {
				ch := string([]byte{byte(v)})
				one("insert", base[:i]+ch+base[i:])
				if i < len(base) {
					one("replace", base[:i]+ch+base[i+1:])
				}
			}
			one("prefix", base[:i])
			one("suffix", base[i:])
			if i < len(base) {
				one("delete", base[:i]+base[i+1:])
			}
		}
		for _, h := range []string{"Basic dTpw", "Token x", "MAC x", "Digest x", "bear er x", "Bearers x", "Beare x", "BEARERTOKEN x", "Be\u0430rer x", "Bearer\u2003x", "\u212aearer x", "bearer=x y"} {
			one("scheme", h)
		}
		for _, n := range []int{255, 256, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 1 << 17, 1 << 20} {
			for _, d := range []int{-1, 0, 1} {
				t := longText(n, n+d)
				one("long", "Bearer "+t)
				one("long", "bEARER "+t)
				one("long", t)
				one("long", "Bearer"+t)
				one("long", "Bearer "+t[:n/2]+" "+t[n/2:])
			}
		}
		one("two", "Bearer a", "Bearer b")
		one("two", "Basic a", "Bearer b")
		one("two", "", "Bearer b")
		one("two", "Bearer a", "Basic b")
	})
	// neither the method nor another header supplies or withholds a token
	c.parallel(len(strayHeaders), func(i int) {
		x := strayHeaders[i]
		c.Case(fmt.Sprintf("with %s: %s", x[0], x[1]), true, func() string {
			for _, method := range []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE", "", "get"} {
				for _, h := range []string{"", "Bearer t", "bearer t,u", "Basic t", "Bearer", "Bearer  "} {
					for _, v := range []string{x[1], "Bearer z"} {
						c.evals.Add(1)
						r := &http.Request{Method: method, Header: http.Header{x[0]: {v}}}
						want, class := ref(h)
						if h != "" {
							r.Header.Set("Authorization", h)
						}
						got, err := oauth2.ParseBearerToken(r)
						var oe *oauth2.Error
						switch {
						case got != want:
							return fmt.Sprintf("%s %q: got %q, want %q", method, h, got, want)
						case class == 0 && err != nil, class != 0 && !errors.As(err, &oe):
							return fmt.Sprintf("%s %q: got error %v", method, h, err)
						case class == 1 && (oe.Status != 401 || oe.Name != ""), class == 2 && (oe.Status != 400 || oe.Name != "invalid_request"):
							return fmt.Sprintf("%s %q: got error %d %q", method, h, oe.Status, oe.Name)
						}
					}
				}
			}
			return ""
		})
	})
	alpha := "Bb eart\tx"
	n := 4
	if c.thorough() {
		n = 5
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(alpha)
	}
	c.parallel(total/len(alpha)+1, func(j int) {
		for i := j * len(alpha); i < (j+1)*len(alpha) && i < total; i++ {
			b := make([]byte, n)
			v := i
			for k := range b {
				b[k] = alpha[v%len(alpha)]
				v /= len(alpha)
			}
			one("short", string(b))
			one("mid", "Bea"+string(b))
			one("end", "Bearer"+string(b))
			one("end3", "bearer"+string(b[:3]))
		}
	})
}

var _ = io.EOF

func eqStrings(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
}
