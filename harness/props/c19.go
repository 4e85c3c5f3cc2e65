package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
)

func driveC19(r *Run) {
	r.Rule("the same generated messages sent at once by HTTP/1, WebSocket (any letter case of its headers) and HTTP/2 peers to one gateway, with and without TLS: response documents compared pairwise and handler runs counted; clients made from URLs by NewClient against a loopback gateway; non-trivial: distinct (TLS, header case, sequence of methods and outcome kinds)")
	n := r.N(700, 30000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC19(r, i)
		}
	}
	n = r.N(120, 2400)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC19loop(r, i)
		}
	}
	n = r.N(600, 20000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC19url(r, i)
		}
	}
}

// c19actor answers as a function of the message only.
func c19actor(note func(token, transport string)) *jlibhttp.Actor {
	a, child := jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(child)
	seen := func(req *jlibhttp.RPCRequest) {
		m := req.Msg()
		tok := m.TraceId()
		note(tok, "")
	}
	on := func(x *jlibhttp.Actor, name string, f func(params []any) (any, error), s ...jlibhttp.HandlerSetter) {
		must(x.OnRequest(name, func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			seen(req)
			return f(params)
		}, s...))
	}
	on(a, "echo", func(p []any) (any, error) { return p, nil })
	on(child, "child", func(p []any) (any, error) { return map[string]any{"n": len(p), "p": p}, nil })
	on(a, "rpcerr", func(p []any) (any, error) {
		return nil, &jlib.RPCError{Code: 77, Message: "seventy seven", Data: p}
	})
	on(child, "wrapped", func(p []any) (any, error) {
		return nil, fmt.Errorf("wrapped: %w", &jlib.RPCError{Code: -5, Message: "m"})
	})
	on(a, "err", func(p []any) (any, error) { return nil, errors.New("plain") })
	on(a, "panic", func(p []any) (any, error) { panic(fmt.Errorf("boom")) })
	on(a, "chan", func(p []any) (any, error) { return make(chan int), nil })
	on(a, "nil", func(p []any) (any, error) { return nil, nil })
	on(child, "gated", func(p []any) (any, error) { return "in", nil },
		jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"integer"}],"additionalParams":{"type":"string"}}`))
	must(child.OnTypedRequest("typed", func(req *jlibhttp.RPCRequest, n int, s string) (string, error) {
		seen(req)
		return fmt.Sprint(s, n), nil
	}))
	return a
}

// caseConn rewrites the header of a WebSocket handshake.
type caseConn struct {
	net.Conn
	repl *strings.Replacer
}

func (c *caseConn) Write(b []byte) (int, error) {
	if c.repl != nil {
		s := c.repl.Replace(string(b))
		c.repl = nil
		if _, err := c.Conn.Write([]byte(s)); err != nil {
			return 0, err
		}
		return len(b), nil
	}
	return c.Conn.Write(b)
}

type c19msg struct {
	token  string
	doc    map[string]any
	text   []byte
	method string
	notify bool
}

func oneC19(r *Run, i int) {
	rng := r.Rand("gateway", i)
	useTLS := rng.IntN(3) == 0
	upgrade := pick(rng, "websocket", "WebSocket", "WEBSOCKET", "Websocket", "webSocket")
	connHdr := pick(rng, "Upgrade", "upgrade", "keep-alive, Upgrade")
	n := 1 + rng.IntN(12)
	c := map[string]any{"i": i, "tls": useTLS, "upgrade": upgrade, "connection": connHdr}
	r.world("C19", c, rng, func(w *world) {
		var mu sync.Mutex
		runs := map[string]int{}
		cur := func(tok, _ string) {
			mu.Lock()
			defer mu.Unlock()
			runs[tok]++
		}
		if rng.IntN(2) == 0 {
			w.Net.Plan = Jitter(rng, time.Duration(rng.IntN(30))*time.Millisecond, 1+rng.IntN(500))
		}
		scfg := tlsFor("ws")
		if useTLS {
			scfg = tlsFor("wss")
		}
		w.serve("srv", jlibhttp.NewGatewayHandler(w.Ctx, c19actor(cur), !useTLS), scfg)
		var msgs []*c19msg
		key := ""
		for k := 0; k < n; k++ {
			m := &c19msg{token: fmt.Sprintf("tok-%d", k), method: pick(rng, "echo", "echo", "child", "rpcerr", "wrapped", "err", "panic", "chan", "nil", "gated", "gated", "typed", "nope")}
			params := genList(rng, 3)
			switch {
			case m.method == "gated" && rng.IntN(3) > 0:
				params = []any{json.Number(fmt.Sprint(rng.IntN(10))), "s"}
			case m.method == "typed" && rng.IntN(3) > 0:
				params = []any{json.Number(fmt.Sprint(rng.IntN(10))), genString(rng)}
			}
			m.doc = map[string]any{"jsonrpc": "2.0", "method": m.method, "params": params}
			if rng.IntN(6) == 0 && (m.method == "echo" || m.method == "child" || m.method == "nil") {
				m.notify = true
			} else {
				m.doc["id"] = pick[any](rng, json.Number(fmt.Sprint(k)), fmt.Sprint("id", k), json.Number(fmt.Sprint(1000+k)))
			}
			msgs = append(msgs, m)
			key += m.method + ","
		}
		textFor := func(m *c19msg, proto string) []byte {
			d := map[string]any{}
			for k, v := range m.doc {
				d[k] = v
			}
			d["traceid"] = proto + " " + m.token
			return []byte(rawJSON(rand.New(rand.NewPCG(1, 2)), d))
		}
		answers := map[string]map[string]string{} // token -> proto -> canonical answer
		put := func(m *c19msg, proto, ans string) {
			mu.Lock()
			defer mu.Unlock()
			if answers[m.token] == nil {
				answers[m.token] = map[string]string{}
			}
			answers[m.token][proto] = ans
		}
		norm := func(d []byte, trace string) string {
			m, err := oneObject(d)
			if err != nil {
				return "!" + string(d)
			}
			if t, has := m["traceid"]; has && t != trace {
				return fmt.Sprintf("!trace id %v", t)
			}
			delete(m, "traceid")
			return canon(m)
		}
		dial := func(alpn string) (net.Conn, error) {
			nc, err := w.Net.Dial(context.Background(), "srv")
			if err != nil || !useTLS {
				return nc, err
			}
			cfg := certs().client.Clone()
			cfg.ServerName = "srv"
			cfg.NextProtos = []string{alpn}
			if alpn == "http/1.1" && rng.IntN(2) == 0 {
				cfg.NextProtos = nil
			}
			tc := tls.Client(nc, cfg)
			return tc, tc.Handshake()
		}
		h1conn, err := dial("http/1.1")
		if err != nil {
			w.violate("dial", "h1: %v", err)
			return
		}
		h1r := bufio.NewReader(h1conn)
		wsnc, err := dial("http/1.1")
		if err != nil {
			w.violate("dial", "ws: %v", err)
			return
		}
		u, _ := url.Parse("ws://srv/")
		wsc, resp, err := websocket.NewClient(&caseConn{Conn: wsnc, repl: strings.NewReplacer("Upgrade: websocket", "Upgrade: "+upgrade, "Connection: Upgrade", "Connection: "+connHdr)}, u, nil, 4096, 4096)
		if err != nil {
			w.violate("websocket", "handshake with Upgrade: %s: %v %v", upgrade, err, resp)
			return
		}
		h2nc, err := dial("h2")
		if err != nil {
			w.violate("dial", "h2: %v", err)
			return
		}
		cc, err := (&http2.Transport{AllowHTTP: true}).NewClientConn(h2nc)
		if err != nil {
			w.violate("http2", "connection: %v", err)
			return
		}
		pr, pw := io.Pipe()
		req, _ := http.NewRequest("PRI", "http://srv/", pr)
		h2resp, err := cc.RoundTrip(req)
		if err != nil || h2resp.StatusCode != 200 {
			w.violate("http2", "session: %v %v", err, h2resp)
			return
		}
		w.onClose(func() {
			h1conn.Close()
			wsc.Close()
			pw.Close()
			h2resp.Body.Close()
			h2nc.Close()
		})
		var wg sync.WaitGroup
		wg.Add(3)
		go func() {
			defer wg.Done()
			for _, m := range msgs {
				text := textFor(m, "h1")
				q, _ := http.NewRequest("POST", "http://srv"+pick(rand.New(rand.NewPCG(uint64(len(text)), 1)), "/", "/x", "/?q=1"), bytes.NewReader(text))
				if q.Write(h1conn) != nil {
					return
				}
				resp, err := http.ReadResponse(h1r, q)
				if err != nil {
					put(m, "h1", "!"+err.Error())
					return
				}
				body, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				switch {
				case resp.StatusCode != 200:
					put(m, "h1", fmt.Sprintf("!status %d %s", resp.StatusCode, body))
				case m.notify && len(body) == 0:
					put(m, "h1", "-")
				default:
					put(m, "h1", norm(body, "h1 "+m.token))
				}
			}
		}()
		stream := func(proto string, write func([]byte) error, read func() ([]byte, error)) {
			defer wg.Done()
			want := 0
			byId := map[string]*c19msg{}
			for _, m := range msgs {
				if !m.notify {
					want++
					byId[canon(m.doc["id"])] = m
				}
			}
			go func() {
				for _, m := range msgs {
					if write(textFor(m, proto)) != nil {
						return
					}
				}
			}()
			for ; want > 0; want-- {
				d, err := read()
				if err != nil {
					w.violate("ended", "the %s session ended: %v", proto, err)
					return
				}
				o, err := oneObject(d)
				m := byId[canon(o["id"])]
				if err != nil || m == nil {
					w.violate("stranger", "%s got %s", proto, clip(string(d), 300))
					return
				}
				put(m, proto, norm(d, proto+" "+m.token))
			}
			time.Sleep(5 * time.Second)
			for _, m := range msgs {
				if m.notify {
					put(m, proto, "-")
				}
			}
		}
		go stream("ws", func(d []byte) error { return wsc.WriteMessage(websocket.TextMessage, d) }, func() ([]byte, error) {
			_, d, err := wsc.ReadMessage()
			return d, err
		})
		dec := json.NewDecoder(h2resp.Body)
		go stream("h2", func(d []byte) error { _, err := pw.Write(append(d, '\n')); return err }, func() ([]byte, error) {
			var m json.RawMessage
			err := dec.Decode(&m)
			return m, err
		})
		if !await(time.Hour, wg.Wait) {
			w.violate("missing", "some peer waits for its answers")
			return
		}
		mu.Lock()
		defer mu.Unlock()
		for _, m := range msgs {
			a := answers[m.token]
			cc := map[string]any{"case": c, "message": m.doc}
			if len(a) != 3 || a["h1"] != a["ws"] || a["ws"] != a["h2"] {
				r.Violate("C19:differ", cc, "answers differ: %v", a)
			} else if strings.HasPrefix(a["h1"], "!") {
				r.Violate("C19:answer", cc, "all answers are %s", a["h1"])
			}
			k1, k2, k3 := runs["h1 "+m.token], runs["ws "+m.token], runs["h2 "+m.token]
			if k1 != k2 || k2 != k3 || k1 > 1 {
				r.Violate("C19:runs", cc, "handler runs: HTTP/1 %d, WebSocket %d, HTTP/2 %d", k1, k2, k3)
			}
			if m.method == "echo" && !m.notify && a["h1"] != canon(map[string]any{"jsonrpc": "2.0", "id": m.doc["id"], "result": m.doc["params"]}) {
				r.Violate("C19:echo", cc, "echo answers %s", a["h1"])
			}
			switch {
			case strings.Contains(a["h1"], `"error"`):
				r.Count("answers_error", 1)
			case a["h1"] == "-":
				r.Count("notifies", 1)
			default:
				r.Count("answers_result", 1)
			}
		}
		r.Eval(fmt.Sprintf("%v %s %s %s", useTLS, upgrade, connHdr, key))
		if i%151 == 0 {
			r.Sample(map[string]any{"case": c, "answers": answers})
		}
	})
}

// oneC19loop: jlib clients of all schemes against one loopback gateway.
func oneC19loop(r *Run, i int) {
	rng := r.Rand("loop", i)
	useTLS := rng.IntN(2) == 0
	own := rng.IntN(2) == 0
	c := map[string]any{"i": i, "part": "loop", "tls": useTLS, "no settings": own}
	r.Journal(c)
	defer r.recoverCase("C19", c)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	srv := r.loopServe(jlibhttp.NewGatewayHandler(ctx, c19actor(func(string, string) {}), !useTLS), useTLS)
	defer srv.Close()
	type out struct {
		fam string
		a   []string
	}
	var msgs []*jlib.RequestMessage
	key := ""
	for k := 0; k < 6; k++ {
		m := pick(rng, "echo", "child", "rpcerr", "err", "panic", "chan", "nil", "gated", "typed", "nope")
		key += m + ","
		msgs = append(msgs, jlib.NewRequestMessage(k, m, genList(rng, 2)))
	}
	if i%6 < 2 {
		size := bigSize(rng, 6<<20)
		key += fmt.Sprint("big ", size)
		msgs = append(msgs, jlib.NewRequestMessage("big", pick(rng, "echo", "child"), []any{bigValue(rng, size)}))
	}
	var outs []out
	for _, fam := range []string{"http", "ws", "h2"} {
		cl, err := srv.client(fam)
		if err == nil && useTLS && own {
			// the process trusts the authority as well
			cl.SetClientTLSConfig(nil)
		}
		if err != nil {
			r.Violate("C19:client", c, "%s: %v", fam, err)
			return
		}
		o := out{fam: fam}
		for _, m := range msgs {
			var res jlib.Message
			var err error
			if !realWait(60*time.Second, func() { res, err = cl.Call(ctx, m) }) {
				r.Inconclusive("%v: a call over %s did not return", c, fam)
				return
			}
			if err != nil {
				o.a = append(o.a, "!"+err.Error())
				continue
			}
			o.a = append(o.a, msgDoc(res))
		}
		closeClient(cl)
		outs = append(outs, o)
	}
	for k := range msgs {
		if outs[0].a[k] != outs[1].a[k] || outs[1].a[k] != outs[2].a[k] || strings.HasPrefix(outs[0].a[k], "!") {
			r.Violate("C19:clients", c, "%s %v: http %s, ws %s, h2 %s", msgs[k].Method, canon(msgs[k].Params), outs[0].a[k], outs[1].a[k], outs[2].a[k])
		}
	}
	r.Eval(fmt.Sprintf("loop %v %s", useTLS, key))
	r.Count("loopback", 1)
}

// oneC19url: the scheme picks the client.
func oneC19url(r *Run, i int) {
	rng := r.Rand("url", i)
	scheme := pick(rng, "http", "https", "ws", "wss", "h2", "h2c", "ftp", "", "httpx", "wsx", "h3", "unix", "tcp", "htt", "w", "h2s", "javascript", "ws+unix")
	rest := pick(rng, "localhost:1/", "127.0.0.1:99/x?y=1", "[::1]:3/", "host", "host/path#f")
	u := scheme + "://" + rest
	if scheme == "" {
		u = rest
	}
	c := map[string]any{"url": u}
	r.Guard("C19", c, func() {
		cl, err := jlibhttp.NewClient(u)
		want := map[string]any{"http": &jlibhttp.H1Client{}, "https": &jlibhttp.H1Client{}, "ws": &jlibhttp.WSClient{}, "wss": &jlibhttp.WSClient{}, "h2": &jlibhttp.H2Client{}, "h2c": &jlibhttp.H2Client{}}[scheme]
		if want == nil {
			if err == nil {
				r.Violate("C19:scheme", c, "a client %T for an unknown scheme", cl)
			}
		} else if err != nil {
			r.Violate("C19:scheme", c, "refused: %v", err)
		} else {
			if reflect.TypeOf(cl) != reflect.TypeOf(want) {
				r.Violate("C19:scheme", c, "a %T for %s", cl, scheme)
			}
			if cl.IsStreaming() != (scheme != "http" && scheme != "https") {
				r.Violate("C19:scheme", c, "streaming is %v", cl.IsStreaming())
			}
			if x := cl.ServerURL(); x == nil || x.Host != mustURL(u).Host || x.Path != mustURL(u).Path || x.RawQuery != mustURL(u).RawQuery {
				r.Violate("C19:url", c, "the server url is %v", x)
			}
		}
		r.Eval("url " + u)
	})
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	must(err)
	return u
}
