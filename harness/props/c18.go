package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"gopkg.in/yaml.v3"
)

func driveC18(r *Run) {
	r.Rule("generated auth configurations (Go, JSON, YAML) and Authorization headers - configured, nearly configured, forged, expired, garbage - against a reference decision, with tokens tried again as virtual time passes their expiry, on the bare handler and over every transport; non-trivial: distinct (configuration shape, sequence of credential kinds and decisions)")
	n := r.N(4000, 120000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC18(r, i)
		}
	}
	n = r.N(400, 16000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC18net(r, i)
		}
	}
}

type c18cred struct {
	user, pass string
	settings   map[string]any
}

type c18conf struct {
	none   bool
	basic  []c18cred
	bearer []c18cred // pass is the token
	secret string
	jwt    bool
	how    string
}

var authNames = []string{"u", "user", "U", "admin", "a b", "ü", "x:y", ""}
var authPasses = []string{"p", "P", "secret", "p:q", "pä", "p ", "longer password"}
var authTokens = []string{"tok", "Tok", "token two", "x.y.z", "a", "tok2"}

func genSettings(rng *rand.Rand) map[string]any {
	if rng.IntN(2) == 0 {
		return nil
	}
	return map[string]any{"ns": pick(rng, "a", "b"), "l": []any{"x", "y"}}
}

func genAuthConf(rng *rand.Rand) *c18conf {
	c := &c18conf{how: pick(rng, "go", "go", "json", "yaml")}
	if rng.IntN(12) == 0 {
		c.none = true
		return c
	}
	if rng.IntN(2) == 0 {
		for k := 1 + rng.IntN(3); k > 0; k-- {
			u := pick(rng, authNames[:6]...)
			c.basic = append(c.basic, c18cred{user: u, pass: pick(rng, authPasses...), settings: genSettings(rng)})
		}
	}
	if rng.IntN(2) == 0 {
		for k := 1 + rng.IntN(3); k > 0; k-- {
			c.bearer = append(c.bearer, c18cred{user: pick(rng, authNames...), pass: pick(rng, authTokens...), settings: genSettings(rng)})
		}
	}
	if rng.IntN(2) == 0 {
		c.jwt, c.secret = true, pick(rng, "s3cret", "k", "other secret")
	}
	return c
}

func (c *c18conf) doc() map[string]any {
	d := map[string]any{}
	list := func(l []c18cred, pw string) []any {
		out := []any{}
		for _, x := range l {
			m := map[string]any{pw: x.pass}
			if x.user != "" || pw == "password" {
				m["username"] = x.user
			}
			if x.settings != nil {
				m["settings"] = x.settings
			}
			out = append(out, m)
		}
		return out
	}
	if c.basic != nil {
		d["basic"] = list(c.basic, "password")
	}
	if c.bearer != nil {
		d["bearer"] = list(c.bearer, "token")
	}
	if c.jwt {
		d["jwt"] = map[string]any{"secret": c.secret}
	}
	return d
}

func (c *c18conf) build() (*jlibhttp.AuthConfig, error) {
	if c.none {
		return nil, nil
	}
	cfg := &jlibhttp.AuthConfig{}
	switch c.how {
	case "json":
		d, err := json.Marshal(c.doc())
		must(err)
		return cfg, json.Unmarshal(d, cfg)
	case "yaml":
		d, err := yaml.Marshal(c.doc())
		must(err)
		return cfg, yaml.Unmarshal(d, cfg)
	}
	for _, x := range c.basic {
		cfg.Basic = append(cfg.Basic, jlibhttp.BasicAuthConfig{Username: x.user, Password: x.pass, Settings: x.settings})
	}
	for _, x := range c.bearer {
		cfg.Bearer = append(cfg.Bearer, jlibhttp.BearerAuthConfig{Username: x.user, Token: x.pass, Settings: x.settings})
	}
	if c.jwt {
		cfg.Jwt = &jlibhttp.JwtAuthConfig{Secret: c.secret}
	}
	return cfg, nil
}

// authTry is one Authorization header with what it proves.
type authTry struct {
	header string
	kind   string
	// credentials it carries
	basicUser, basicPass string
	isBasic              bool
	bearer               string
	isBearer             bool
	jwtSecret            string // signed with this secret, "" not at all
	jwtUser              string
	jwtSettings          map[string]any
	exp                  int64
	odd                  bool // the library under test decides, only panics count
}

func genTry(rng *rand.Rand, c *c18conf, now time.Time) *authTry {
	t := &authTry{}
	cred := func(l []c18cred) c18cred {
		if len(l) > 0 && rng.IntN(3) > 0 {
			return pick(rng, l...)
		}
		return c18cred{user: pick(rng, authNames...), pass: pick(rng, authPasses...)}
	}
	switch rng.IntN(12) {
	case 0:
		t.kind = "none"
	case 1, 2:
		t.kind = "basic"
		x := cred(c.basic)
		t.isBasic, t.basicUser, t.basicPass = true, x.user, x.pass
		if rng.IntN(4) == 0 {
			t.kind = "basic-near"
			switch rng.IntN(4) {
			case 0:
				t.basicPass += "x"
			case 1:
				t.basicPass = t.basicPass[:len(t.basicPass)-1]
			case 2:
				t.basicUser, t.basicPass = t.basicPass, t.basicUser
			case 3:
				t.basicUser = strings.ToUpper(t.basicUser) + "x"
			}
		}
		t.header = basicAuth(t.basicUser, t.basicPass)
		// the first colon ends the user name
		u, p, _ := strings.Cut(t.basicUser+":"+t.basicPass, ":")
		t.basicUser, t.basicPass = u, p
	case 3, 4:
		t.kind = "bearer"
		t.isBearer = true
		if len(c.bearer) > 0 && rng.IntN(3) > 0 {
			t.bearer = pick(rng, c.bearer...).pass
		} else {
			t.bearer = pick(rng, authTokens...)
		}
		if rng.IntN(4) == 0 {
			t.kind = "bearer-near"
			t.bearer = pick(rng, t.bearer+"x", t.bearer[:len(t.bearer)-1], "Bearer "+t.bearer, " "+t.bearer, t.bearer+" "+t.bearer, strings.ToUpper(t.bearer)+"A")
		}
		t.header = "Bearer " + t.bearer
	case 5, 6, 7, 8:
		t.kind = "jwt"
		t.jwtSecret = c.secret
		t.jwtUser = pick(rng, authNames...)
		t.jwtSettings = genSettings(rng)
		t.exp = now.Unix() + int64(rng.IntN(60)) - 5
		claims := map[string]any{"username": t.jwtUser, "exp": t.exp, "x": rng.IntN(1000)}
		if t.jwtSettings != nil {
			claims["settings"] = t.jwtSettings
		}
		alg := pick(rng, "HS256", "HS256", "HS384", "HS512")
		switch rng.IntN(10) {
		case 0:
			t.kind, t.jwtSecret = "jwt-othersecret", pick(rng, "k", "K", "s3cret", "other", "")
		case 1:
			t.kind = "jwt-noexp"
			delete(claims, "exp")
			t.exp = 0
		case 2:
			t.kind, t.exp = "jwt-old", now.Unix()-int64(1+rng.IntN(100000))
			claims["exp"] = t.exp
		}
		secret := t.jwtSecret
		if secret == "" {
			t.jwtSecret = "\x00unset"
		}
		tok := signJWT(alg, secret, claims)
		parts := strings.Split(tok, ".")
		switch rng.IntN(10) {
		case 0:
			t.kind = "jwt-none"
			tok = signJWT("none", "", claims)
			if rng.IntN(2) == 0 {
				tok += parts[2]
			}
			t.jwtSecret = "\x00none"
		case 1:
			t.kind = "jwt-payload"
			claims["username"] = "root"
			cb, _ := json.Marshal(claims)
			if t.jwtUser != "root" {
				tok = parts[0] + "." + b64(cb) + "." + parts[2]
				t.jwtSecret = "\x00forged"
			}
		case 2:
			t.kind = "jwt-sig"
			sig, _ := base64.RawURLEncoding.DecodeString(parts[2])
			switch rng.IntN(3) {
			case 0:
				sig[rng.IntN(len(sig))] ^= byte(1 + rng.IntN(255))
			case 1:
				sig = sig[:rng.IntN(len(sig))]
			case 2:
				sig = append(sig, 1)
			}
			tok = parts[0] + "." + parts[1] + "." + b64(sig)
			t.jwtSecret = "\x00forged"
		case 3:
			t.kind = "jwt-alg"
			tok = signJWTHeader(map[string]any{"alg": pick(rng, "RS256", "ES256", "none", "None", "HS999", ""), "typ": "JWT"}, "HS256", secret, claims)
			t.jwtSecret = "\x00alg"
		}
		t.header = "Bearer " + tok
		t.isBearer, t.bearer = true, tok
	case 9:
		t.kind = "odd"
		t.odd = true
		t.header = pick(rng, "Bearer", "bearer", "Basic", "Bearer ", "Basic ", "Basic !!!", "Bearer a.b.c", "Bearer ..", "Bearer e30.e30.", "Bearer\t", " ", "Basic Og==", "Bearer null", "Digest x", "Basic "+b64([]byte("nocolon")), "Bearer "+b64([]byte(`{"alg":"HS256"}`))+"."+b64([]byte(`null`))+".x")
		if rng.IntN(3) == 0 {
			t.header = string(mutate(rng, []byte("Bearer "+signJWT("HS256", c.secret, map[string]any{"username": 1, "exp": "soon"}))))
		}
	default:
		t.kind = "garbage"
		t.header = pick(rng, "Negotiate x", "token tok", "x", genString(rng)+"~", "Bearer~"+pick(rng, authTokens...), "BasicdTpw")
	}
	return t
}

// misplaced presents the credential of t under a scheme which is not its own.
func misplaced(rng *rand.Rand, t *authTry) *authTry {
	scheme, rest, ok := strings.Cut(t.header, " ")
	if !ok || scheme != "Bearer" && scheme != "Basic" || t.odd || rest == "" || rest[0] == ' ' || strings.Contains(rest, "Bearer ") {
		return t
	}
	n := &authTry{kind: "scheme", jwtSecret: "\x00scheme"}
	to := pick(rng, "Token ", "JWT ", "Digest ", "Negotiate ", "BearerX ", "Bear ", "", "Bearer", "Bearer=", "OAuth Bearer ", "Basic ", "Bearer ", "Basic Bearer ")
	if strings.HasPrefix(to, scheme+" ") {
		to = "Token "
	}
	n.header = to + rest
	if to == "Bearer " {
		n.isBearer, n.bearer = true, rest
	}
	if u, p, ok := (&http.Request{Header: http.Header{"Authorization": {n.header}}}).BasicAuth(); ok {
		n.isBasic, n.basicUser, n.basicPass = true, u, p
	}
	return n
}

// judge is the reference decision: who may be told to the next handler; no
// entry means refused.  A nil user list with pass means no identity.
type c18id struct {
	user     string
	settings string
}

func (c *c18conf) judge(t *authTry, now time.Time) (pass bool, ids map[c18id]bool) {
	if c.none {
		return true, nil
	}
	ids = map[c18id]bool{}
	if c.jwt && c.secret != "" && t.jwtSecret == c.secret && t.exp != 0 && t.exp >= now.Unix() {
		ids[c18id{t.jwtUser, setCanon(t.jwtSettings)}] = true
	}
	for _, x := range c.basic {
		if t.isBasic && x.user == t.basicUser && x.pass == t.basicPass {
			ids[c18id{x.user, setCanon(x.settings)}] = true
		}
	}
	for _, x := range c.bearer {
		if t.isBearer && t.bearer == x.pass {
			u := x.user
			if u == "" {
				u = x.pass
			}
			ids[c18id{u, setCanon(x.settings)}] = true
		}
	}
	return len(ids) > 0, ids
}

func setCanon(m map[string]any) string {
	if len(m) == 0 {
		return "{}"
	}
	return canon(m)
}

// oneC18 tries headers on the bare handler while virtual time passes.
func oneC18(r *Run, i int) {
	rng := r.Rand("handler", i)
	confs := []*c18conf{genAuthConf(rng), genAuthConf(rng)}
	c := map[string]any{"i": i}
	for k, conf := range confs {
		c[fmt.Sprint("conf", k)] = conf.doc()
		c[fmt.Sprint("how", k)] = conf.how
	}
	r.Bubble("C18", c, func(*testing.T) {
		c18Handler(r, rng, confs, c)
	})
}

// c18Handler tries headers on two handlers with configurations of their own.
func c18Handler(r *Run, rng *rand.Rand, confs []*c18conf, c map[string]any) {
	runs := 0
	var info *jlibhttp.AuthInfo
	var has bool
	var seen string
	var hs []http.Handler
	for _, conf := range confs {
		cfg, err := conf.build()
		if err != nil {
			r.Violate("C18:config", c, "configuration refused: %v", err)
			return
		}
		hs = append(hs, jlibhttp.NewAuthHandler(cfg, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			runs++
			info, has = jlibhttp.AuthInfoFromContext(q.Context())
			seen = q.Method + q.URL.String() + q.Header.Get("X-K")
			w.WriteHeader(202)
			w.Write([]byte("next"))
		})))
	}
	var tries []*authTry
	key := ""
	for k := 3 + rng.IntN(12); k > 0; k-- {
		var t *authTry
		which := rng.IntN(2)
		h, conf := hs[which], confs[which]
		if len(tries) > 0 && rng.IntN(2) == 0 {
			t = pick(rng, tries...) // once more
			if rng.IntN(4) == 0 {
				t = misplaced(rng, t)
			}
		} else {
			t = genTry(rng, conf, time.Now())
			tries = append(tries, t)
		}
		if rng.IntN(40) == 0 {
			// more tokens than any cache keeps
			for j := 0; j < 130; j++ {
				q := httptest.NewRequest("POST", "/", nil)
				q.Header.Set("Authorization", "Bearer "+signJWT("HS256", conf.secret, map[string]any{"username": fmt.Sprint("fill", j), "exp": time.Now().Unix() + 60}))
				h.ServeHTTP(httptest.NewRecorder(), q)
			}
		}
		cc := map[string]any{"case": c, "which": which, "header": t.header, "kind": t.kind, "exp": t.exp, "now": time.Now().Unix()}
		q := httptest.NewRequest("POST", "/path", nil)
		if t.kind != "none" {
			q.Header.Set("Authorization", t.header)
		}
		q.Header.Set("X-K", "kept")
		w := httptest.NewRecorder()
		runs, info, has, seen = 0, nil, false, ""
		pass, ids := conf.judge(t, time.Now())
		if !r.Guard("C18", cc, func() { h.ServeHTTP(w, q) }) {
			return
		}
		key += fmt.Sprintf("%d %s %v,", which, t.kind, pass)
		if !t.odd {
			judgeAuth(func(kind, format string, args ...any) { r.Violate("C18:"+kind, cc, format, args...) }, pass, ids, w.Code, runs, info, has)
		} else if runs > 0 != (w.Code == 202) || runs > 1 {
			r.Violate("C18:odd", cc, "status %d, the next handler ran %d times", w.Code, runs)
		} else if runs > 0 && !conf.none && t.header != "Basic Og==" && !conf.hasBearer(t.header) {
			r.Violate("C18:admitted", cc, "admitted as %+v", info)
		}
		if runs == 1 && seen != "POST/pathkept" {
			r.Violate("C18:request", cc, "the next handler saw another request: %s", seen)
		}
		r.Count("decided_"+map[bool]string{true: "pass", false: "refuse"}[pass], 1)
		r.Count("kind_"+t.kind, 1)
		time.Sleep(pick(rng, 0, 0, time.Millisecond, time.Second, 7*time.Second, time.Duration(rng.IntN(30000))*time.Millisecond))
	}
	for _, conf := range confs {
		key += fmt.Sprintf("%v %d %d %v", conf.none, len(conf.basic), len(conf.bearer), conf.jwt)
	}
	r.Eval(key)
	if rng.IntN(200) == 0 {
		r.Sample(map[string]any{"case": c, "decisions": key})
	}
}

func (c *c18conf) hasBearer(header string) bool {
	for _, x := range c.bearer {
		if header == "Bearer "+x.pass {
			return true
		}
	}
	return false
}

func judgeAuth(violate func(kind, format string, args ...any), pass bool, ids map[c18id]bool, code, runs int, info *jlibhttp.AuthInfo, has bool) {
	if !pass {
		if runs != 0 {
			violate("admitted", "the next handler ran for a request to refuse, as %+v", info)
		} else if code != 401 {
			violate("status", "refused with %d", code)
		}
		return
	}
	if runs != 1 || code == 401 {
		violate("refused", "a request to admit got %d, the next handler ran %d times", code, runs)
		return
	}
	judgeIdentity(violate, ids, info, has)
}

func judgeIdentity(violate func(kind, format string, args ...any), ids map[c18id]bool, info *jlibhttp.AuthInfo, has bool) {
	if ids == nil {
		if has {
			violate("identity", "an identity without configuration: %+v", info)
		}
		return
	}
	if !has || info == nil {
		violate("identity", "no identity attached")
		return
	}
	if !ids[c18id{info.Username, setCanon(info.Settings)}] {
		violate("identity", "identity %q %s, want one of %v", info.Username, canon(info.Settings), ids)
	}
}

// oneC18net: the same decisions by clients of all transports.
func oneC18net(r *Run, i int) {
	rng := r.Rand("net", i)
	conf := genAuthConf(rng)
	useTLS := rng.IntN(4) == 0
	c := map[string]any{"i": i, "conf": conf.doc(), "none": conf.none, "how": conf.how, "tls": useTLS}
	r.world("C18", c, rng, func(w *world) {
		cfg, err := conf.build()
		if err != nil {
			w.violate("config", "configuration refused: %v", err)
			return
		}
		var mu sync.Mutex
		type call struct {
			n    int
			has  bool
			info *jlibhttp.AuthInfo
		}
		calls := map[string]*call{}
		actor := jlibhttp.NewActor()
		note := func(req *jlibhttp.RPCRequest, params []any) {
			mu.Lock()
			defer mu.Unlock()
			tok, _ := params[0].(string)
			if calls[tok] == nil {
				calls[tok] = &call{}
			}
			x := calls[tok]
			x.n++
			x.info, x.has = jlibhttp.AuthInfoFromContext(req.Context())
		}
		must(actor.OnRequest("who", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			note(req, params)
			return "ok", nil
		}))
		scfg, protos := tlsFor("ws"), []string{"h1", "ws", "h2c"}
		if useTLS {
			scfg, protos = tlsFor("wss"), []string{"wss", "h2"}
		}
		w.serve("srv", jlibhttp.NewAuthHandler(cfg, jlibhttp.NewGatewayHandler(w.Ctx, actor, !useTLS)), scfg)
		if !useTLS {
			// the preface of cleartext HTTP/2 has no headers, who wants
			// auth there puts it behind the preface
			w.serve("srv2", h2c.NewHandler(jlibhttp.NewAuthHandler(cfg, jlibhttp.NewH2Handler(w.Ctx, actor)), &http2.Server{}), nil)
		}
		var tries []*authTry
		key := ""
		for k := 0; k < 3+rng.IntN(8); k++ {
			var t *authTry
			if len(tries) > 0 && rng.IntN(2) == 0 {
				t = pick(rng, tries...)
				if n := misplaced(rng, t); rng.IntN(6) == 0 && wireSafe(n.header) {
					t = n
				}
			} else {
				t = genTry(rng, conf, time.Now())
				if t.odd || !wireSafe(t.header) {
					continue
				}
				tries = append(tries, t)
			}
			proto := pick(rng, protos...)
			host := "srv"
			front := proto == "h2c" && rng.IntN(6) == 0
			if proto == "h2c" && !front {
				host = "srv2"
			}
			tok := fmt.Sprintf("t%d", k)
			hdr := http.Header{}
			if t.kind != "none" {
				hdr.Set("Authorization", t.header)
			}
			now := time.Now()
			pass, ids := conf.judge(t, now)
			cc := map[string]any{"case": c, "header": t.header, "kind": t.kind, "exp": t.exp, "now": now.Unix(), "proto": proto}
			key += fmt.Sprintf("%s %s %v,", proto, t.kind, pass)
			violate := func(kind, format string, args ...any) { r.Violate("C18:"+kind, cc, format, args...) }
			do := func() {
				ok := false
				status := 200
				detail := ""
				if proto == "h1" {
					resp, body, err := w.h1Post("srv", []byte(`{"jsonrpc":"2.0","id":1,"method":"who","params":["`+tok+`"]}`), hdr)
					if err != nil {
						violate("http", "no response: %v", err)
						return
					}
					status = resp.StatusCode
					ok = status == 200
					detail = string(body)
				} else {
					cl := w.clientTLS(proto, host, clientTLSFor(proto))
					cl.SetExtraHeader(hdr)
					defer closeClient(cl)
					m, err := cl.Call(w.Ctx, mkReq(1, "who", tok))
					ok = err == nil && m.IsResult()
					detail = fmt.Sprint(m, err)
					if !ok {
						status = 401
					}
					if ok {
						// the identity lasts as long as the session does
						time.Sleep(time.Duration(rng.IntN(3)) * 40 * time.Second)
						m, err = cl.Call(w.Ctx, mkReq(2, "who", tok+"again"))
						if err != nil || !m.IsResult() {
							violate("session", "the session ended: %v %v", m, err)
						} else {
							mu.Lock()
							x := calls[tok+"again"]
							mu.Unlock()
							judgeIdentity(violate, ids, x.info, x.has)
						}
					}
				}
				mu.Lock()
				x := calls[tok]
				mu.Unlock()
				if x == nil {
					x = &call{}
				}
				if front && pass && !conf.none && !ok && x.n == 0 {
					violate("h2c-behind-auth", "an h2c call with valid credentials is refused by an AuthHandler in front of the gateway")
					return
				}
				if ok != pass {
					violate("decision", "pass=%v, want %v: %d %s", ok, pass, status, clip(detail, 300))
				}
				judgeAuth(violate, pass, ids, status, x.n, x.info, x.has)
			}
			do()
			if rng.IntN(3) == 0 {
				time.Sleep(time.Duration(rng.IntN(40)) * time.Second)
			}
		}
		r.Eval(fmt.Sprintf("net %v %d %d %v %s", conf.none, len(conf.basic), len(conf.bearer), conf.jwt, key))
		r.Count("over_net", 1)
	})
}

// wireSafe tells if the network leaves a header value as it is.
func wireSafe(h string) bool {
	if strings.TrimSpace(h) != h {
		return false
	}
	for _, ch := range h {
		if ch < 32 || ch == 127 || ch == 0xfffd {
			return false
		}
	}
	return true
}
