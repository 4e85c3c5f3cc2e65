package props

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

func driveC32(r *Run) {
	r.Rule("servers with up to 300 handlers which don't return, peers which read nothing, send half a message, half a handshake or nothing at all, clients with blocked message handlers and callers of silent servers; in between calls of quick methods by old and new clients of all transports, also on the very sessions and clients which have calls pending, have to be answered within 5 s of virtual time; handlers of sessions without goroutine spawning are counted; non-trivial: distinct (transports, sequence of troubles and probes)")
	n := r.N(700, 30000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC32(r, i)
		}
	}
	n = r.N(300, 10000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC32serial(r, i)
		}
	}
}

const c32bound = 5 * time.Second

// c32block is what the handlers which don't return wait for.
type c32block struct {
	ch   chan struct{}
	mu   sync.Mutex
	in   int
	most int
}

func (b *c32block) wait(ctx context.Context, d time.Duration) {
	b.mu.Lock()
	b.in++
	b.most = max(b.most, b.in)
	b.mu.Unlock()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-b.ch:
	case <-ctx.Done():
	case <-t.C:
	}
	b.mu.Lock()
	b.in--
	b.mu.Unlock()
}

func c32actor(b *c32block) *jlibhttp.Actor {
	a, c1, c2 := jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(c1)
	c1.AddChild(c2)
	must(a.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
	must(c2.OnRequest("deep", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil },
		jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"string"}]}`)))
	must(c1.OnTypedRequest("typed", func(req *jlibhttp.RPCRequest, s string) ([]string, error) { return []string{s}, nil }))
	for k, x := range []*jlibhttp.Actor{a, c1, c2} {
		must(x.OnRequest(fmt.Sprint("hang", k), func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			b.wait(req.Context(), 1000*time.Hour)
			return p, nil
		}, jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"string"}]}`)))
	}
	must(c1.OnTypedContext("hang3", func(ctx context.Context, s string) (string, error) {
		b.wait(ctx, 1000*time.Hour)
		return s, nil
	}))
	must(a.OnRequest("slow", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		b.wait(req.Context(), 20*time.Minute)
		return p, nil
	}))
	must(a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
		if strings.HasPrefix(req.Msg().MustMethod(), "hang") {
			b.wait(req.Context(), 1000*time.Hour)
		}
		return req.Msg().MustParams(), nil
	}))
	must(c1.OnRequest("big", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		return strings.Repeat("x", 20000), nil
	}))
	must(a.OnRequest("push", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		req.Session().Send(jlib.NewNotifyMessage("item", p))
		return p, nil
	}))
	return a
}

func oneC32(r *Run, i int) {
	rng := r.Rand("isolation", i)
	useTLS := rng.IntN(4) == 0
	gateway := rng.IntN(2) == 0
	auth := rng.IntN(3) == 0
	insecure := !useTLS && rng.IntN(2) == 0
	protos := []string{"h1", "ws", "h2c"}
	if useTLS {
		protos = []string{"wss", "h2"}
	}
	nev := 5 + rng.IntN(12)
	c := map[string]any{"case": i, "tls": useTLS, "gateway": gateway, "auth": auth, "insecure": insecure}
	var events []string
	r.world("C32", c, rng, func(w *world) {
		w.Net.Limit = 1 << 16
		block := &c32block{ch: make(chan struct{})}
		w.onClose(func() { close(block.ch) })
		actor := c32actor(block)
		chain := func(h http.Handler) http.Handler { return h }
		hdr := http.Header{}
		if auth {
			cfg := &jlibhttp.AuthConfig{Bearer: []jlibhttp.BearerAuthConfig{{Token: "other"}, {Token: "tok", Username: "u"}}, Jwt: &jlibhttp.JwtAuthConfig{Secret: "s3cret"}}
			chain = func(h http.Handler) http.Handler { return jlibhttp.NewAuthHandler(cfg, h) }
			if rng.IntN(2) == 0 {
				hdr.Set("Authorization", "Bearer tok")
			} else {
				hdr.Set("Authorization", "Bearer "+signJWT("HS256", "s3cret", map[string]any{"username": "u", "exp": time.Now().Add(10000 * time.Hour).Unix()}))
			}
		}
		if gateway {
			w.serve("gw", chain(jlibhttp.NewGatewayHandler(w.Ctx, actor, insecure)), tlsFor(map[bool]string{true: "wss"}[useTLS]))
		} else {
			w.serve("h1", chain(jlibhttp.NewH1Handler(actor)), nil)
			w.serve("ws", chain(jlibhttp.NewWSHandler(w.Ctx, actor)), nil)
			w.serve("wss", chain(jlibhttp.NewWSHandler(w.Ctx, actor)), tlsFor("wss"))
			w.serve("h2", chain(jlibhttp.NewH2Handler(w.Ctx, actor)), tlsFor("h2"))
		}
		w.serve("h2c", h2c.NewHandler(chain(jlibhttp.NewH2Handler(w.Ctx, actor)), &http2.Server{}), nil)
		host := func(proto string) string {
			if gateway && (proto != "h2c" || insecure && !auth) {
				return "gw"
			}
			return proto
		}
		// a server which takes connections and says nothing
		mute := w.Net.Listen("mute")
		w.onClose(func() { mute.Close() })
		go func() {
			for {
				cn, err := mute.Accept()
				if err != nil {
					return
				}
				w.onClose(func() { cn.Close() })
				go io.Copy(io.Discard, cn)
			}
		}()

		seq := 0
		fail := false
		bad := func(kind, format string, args ...any) {
			if !fail {
				fail = true
				c["events"] = events
				w.violate(kind, format, args...)
			}
		}
		fresh := func() string { seq++; return fmt.Sprint("m", seq) }
		// probeH1 makes a quick call of its own connection
		probeH1 := func() {
			tok, method := fresh(), pick(rng, "echo", "deep", "typed", "nobody")
			msg := jlib.NewRequestMessage(tok, method, []any{tok})
			var err error
			var body []byte
			if !await(c32bound, func() {
				_, body, err = w.h1Post(host("h1"), []byte(jlib.MessageString(msg)), hdr.Clone())
			}) {
				bad("h1", "a quick HTTP/1 request isn't answered in %s", c32bound)
				return
			}
			if err != nil || !strings.Contains(string(body), tok) {
				bad("h1", "a quick HTTP/1 request is answered %q, %v", body, err)
			}
		}
		probe := func(cl jlibhttp.Client, what string) {
			tok, method := fresh(), pick(rng, "echo", "deep", "typed", "nobody")
			msg := jlib.NewRequestMessage(tok, method, []any{tok})
			var res jlib.Message
			var err error
			start := time.Now()
			if !await(c32bound, func() { res, err = cl.Call(context.Background(), msg) }) {
				bad("call", "a quick call of %s isn't answered in %s", what, c32bound)
				return
			}
			if err != nil || res == nil || !res.IsResult() {
				bad("call", "a quick call of %s returned %v, %v after %s", what, res, err, time.Since(start))
				return
			}
			var l []any
			if json.Unmarshal([]byte(jlib.MessageString(jlib.NewNotifyMessage("x", res.MustResult()))), &struct {
				Params *[]any `json:"params"`
			}{&l}); len(l) != 1 || l[0] != tok {
				bad("call", "a quick call of %s returned %s", what, jlib.MessageString(res))
			}
		}
		dial := func(proto, to string) jlibhttp.Streamable {
			cl, err := jlibhttp.NewClient(proto + "://" + to + "/")
			must(err)
			if cfg := clientTLSFor(proto); cfg != nil {
				cfg = cfg.Clone()
				cfg.ServerName = "srv"
				cl.SetClientTLSConfig(cfg)
			}
			cl.SetExtraHeader(hdr.Clone())
			st := cl.(jlibhttp.Streamable)
			w.route(st)
			w.onClose(func() { closeClient(st) })
			return st
		}
		connect := func(proto string) jlibhttp.Streamable {
			st := dial(proto, host(proto))
			var err error
			if !await(c32bound, func() { err = st.Connect(context.Background()) }) {
				bad("connect", "a %s client isn't connected in %s", proto, c32bound)
				return nil
			}
			if err != nil {
				bad("connect", "a %s client can't connect: %v", proto, err)
				return nil
			}
			return st
		}
		stream := func() string {
			for {
				if p := pick(rng, protos...); p != "h1" {
					return p
				}
			}
		}
		raw := func(proto string) (rawConn, *MemConn) {
			var rc rawConn
			var mc *MemConn
			var err error
			if !await(c32bound, func() { rc, mc, err = w.dialRawAs(proto, host(proto), "srv", hdr.Clone()) }) {
				bad("open", "a %s session isn't open in %s", proto, c32bound)
				return nil, nil
			}
			if err != nil {
				bad("open", "a %s session can't be opened: %v", proto, err)
				return nil, nil
			}
			w.onClose(rc.Close)
			return rc, mc
		}
		type named struct {
			cl   jlibhttp.Streamable
			what string
		}
		var good []named // clients which have to be served
		answers := map[rawConn]chan string{}
		var raws []rawConn

		trouble := func(kind string) {
			switch kind {
			case "hang calls": // on a session with a peer which reads
				proto := stream()
				rc, _ := raw(proto)
				if rc == nil {
					return
				}
				ch := make(chan string, 2000)
				answers[rc] = ch
				raws = append(raws, rc)
				go func() {
					for {
						d, err := rc.ReadRaw()
						if err != nil {
							return
						}
						ch <- string(d)
					}
				}()
				for k := 1 + rng.IntN(pick(rng, 5, 5, 50, 50, 300, 3000)); k > 0; k-- {
					if rng.IntN(3) == 0 {
						rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","method":"%s","params":["x"]}`, pick(rng, "hang0", "hang1", "hang2", "hang3", "hang9", "slow"))))
						continue
					}
					rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":"h%d","method":"%s","params":["x"]}`, k, pick(rng, "hang0", "hang1", "hang2", "hang3", "hang9", "slow"))))
				}
			case "hang client": // calls and other messages of a client which are pending
				proto := stream()
				st := connect(proto)
				if st == nil {
					return
				}
				for k := 1 + rng.IntN(20); k > 0; k-- {
					m := jlib.NewRequestMessage(fresh(), pick(rng, "hang0", "hang1", "hang2", "hang3", "hang9", "slow"), []any{"x"})
					go st.Call(w.Ctx, m)
				}
				good = append(good, named{st, "a " + proto + " client with pending calls"})
			case "hang h1":
				if useTLS {
					return
				}
				for k := 1 + rng.IntN(20); k > 0; k-- {
					m := jlib.MessageString(jlib.NewRequestMessage(1, pick(rng, "hang0", "hang1", "hang2", "hang3", "hang9", "slow"), []any{"x"}))
					h := hdr.Clone()
					go w.h1Post(host("h1"), []byte(m), h)
				}
			case "deaf": // a peer which asks for much and reads nothing
				if useTLS {
					return
				}
				proto := pick(rng, "ws", "h2c")
				rc, mc := raw(proto)
				if rc == nil {
					return
				}
				mc.StallRead(true)
				n := 20 + rng.IntN(250)
				go func() {
					for k := 0; k < n; k++ {
						if rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"big","params":["x"]}`, k))) != nil {
							return
						}
					}
				}()
				w.onClose(func() { mc.Reset() })
			case "half":
				cn, err := w.Net.Dial(context.Background(), host(pick(rng, protos...)))
				must(err)
				mc := cn.(*MemConn)
				w.onClose(func() { mc.Close() })
				mc.Write([]byte(pick(rng, "", "P", "POST / HT", "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"jsonrpc\"",
					"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n", "PRI * HTTP/2.0\r\n\r\nSM", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
					"\x16\x03\x01\x02\x00\x01\x00", "POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"a\":")))
			case "half message":
				proto := pick(rng, protos...)
				if proto == "h1" {
					proto = "ws"
				}
				rc, _ := raw(proto)
				if rc == nil {
					return
				}
				if ws, ok := rc.(*rawWS); ok {
					if wr, err := ws.c.NextWriter(1); err == nil {
						wr.Write([]byte(`{"jsonrpc":"2.0",` + strings.Repeat(" ", 10000)))
					}
				} else {
					rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":`))
				}
			case "blocked handler": // of a client
				proto := stream()
				st := dial(proto, host(proto))
				must(st.OnMessage(func(m jlib.Message) { <-block.ch }))
				if !await(c32bound, func() { st.Connect(context.Background()) }) {
					bad("connect", "a %s client isn't connected in %s", proto, c32bound)
					return
				}
				st.Send(context.Background(), jlib.NewNotifyMessage("push", []any{"x"}))
			case "mute":
				st := dial(pick(rng, "ws", "h2c"), "mute")
				go st.Call(w.Ctx, jlib.NewRequestMessage(1, "echo", []any{"x"}))
			}
		}
		check := func(kind string) {
			switch kind {
			case "h1":
				if !useTLS {
					probeH1()
				}
			case "new":
				proto := stream()
				if st := connect(proto); st != nil {
					probe(st, "a new "+proto+" client")
					if rng.IntN(2) == 0 {
						if !await(c32bound, func() { closeClient(st) }) {
							bad("close", "closing a %s client takes more than %s", proto, c32bound)
						}
					} else {
						good = append(good, named{st, "a " + proto + " client"})
					}
				}
			case "old":
				if len(good) > 0 {
					x := good[rng.IntN(len(good))]
					probe(x.cl, x.what)
				}
			case "session":
				if len(raws) == 0 {
					return
				}
				rc := raws[rng.IntN(len(raws))]
				tok := fresh()
				rc.WriteRaw([]byte(jlib.MessageString(jlib.NewRequestMessage(tok, pick(rng, "echo", "deep", "typed", "nobody"), []any{tok}))))
				t := time.NewTimer(c32bound)
				defer t.Stop()
				for {
					select {
					case d := <-answers[rc]:
						if strings.Contains(d, `"`+tok+`"`) {
							return
						}
					case <-t.C:
						bad("session", "a quick request on a session with unfinished ones isn't answered in %s", c32bound)
						return
					}
				}
			case "pushed": // a new subscriber gets its item
				proto := stream()
				st := dial(proto, host(proto))
				got := make(chan struct{}, 1)
				must(st.OnMessage(func(m jlib.Message) {
					select {
					case got <- struct{}{}:
					default:
					}
				}))
				probe(st, "a "+proto+" client with a message handler")
				go st.Send(w.Ctx, jlib.NewNotifyMessage("push", []any{"x"}))
				t := time.NewTimer(c32bound)
				defer t.Stop()
				select {
				case <-got:
				case <-t.C:
					bad("pushed", "an item pushed to a %s client doesn't arrive in %s", proto, c32bound)
				}
			}
		}
		for k := 0; k < nev && !fail; k++ {
			var what string
			if k%2 == 0 || rng.IntN(3) == 0 {
				what = pick(rng, "hang calls", "hang calls", "hang client", "hang client", "hang h1", "deaf", "half", "half message", "blocked handler", "mute")
				trouble(what)
				if rng.IntN(2) == 0 {
					time.Sleep(time.Duration(rng.IntN(4000)) * time.Millisecond)
				}
				r.Count("trouble", 1)
			} else {
				what = "? " + pick(rng, "h1", "new", "old", "old", "session", "session", "pushed")
				check(what[2:])
				r.Count("probes", 1)
			}
			events = append(events, what)
		}
		for _, k := range []string{"h1", "new", "old", "session", "pushed"} {
			if !fail {
				check(k)
				r.Count("probes", 1)
			}
		}
		block.mu.Lock()
		r.Count("blocked_handlers", block.most)
		block.mu.Unlock()
	})
	c["events"] = events
	r.Eval(fmt.Sprint(useTLS, gateway, auth, insecure, events))
	r.Sample(c)
}

// oneC32serial: without spawning a session's messages are handled one at a
// time, in order, and sessions don't wait for each other.
func oneC32serial(r *Run, i int) {
	rng := r.Rand("serial", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	ns := 1 + rng.IntN(4)
	c := map[string]any{"case": i, "proto": proto, "sessions": ns, "part": "serial"}
	key := ""
	r.world("C32", c, rng, func(w *world) {
		type book struct {
			in    int
			seen  []int
			took  time.Duration
			ended time.Time
		}
		var mu sync.Mutex
		books := make([]book, ns)
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("work", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			s, _ := p[0].(json.Number).Int64()
			n, _ := p[1].(json.Number).Int64()
			d, _ := p[2].(json.Number).Int64()
			mu.Lock()
			b := &books[s]
			b.in++
			if b.in > 1 {
				w.violate("serial", "two messages of a %s session are handled at once although its server spawns no goroutines", proto)
			}
			b.seen = append(b.seen, int(n))
			mu.Unlock()
			t := time.NewTimer(time.Duration(d) * time.Second)
			defer t.Stop()
			select {
			case <-t.C:
			case <-req.Context().Done():
			}
			mu.Lock()
			b.in--
			b.ended = time.Now()
			mu.Unlock()
			return n, nil
		}))
		w.serve(proto, w.handlerFor(proto, actor, false), tlsFor(proto))
		start := time.Now()
		want := make([]time.Duration, ns)
		counts := make([]int, ns)
		var conns []rawConn
		for s := 0; s < ns; s++ {
			rc, _, err := w.dialRawAs(proto, proto, "srv", nil)
			if err != nil {
				w.violate("open", "a %s session can't be opened: %v", proto, err)
				return
			}
			w.onClose(rc.Close)
			conns = append(conns, rc)
			go func() {
				for {
					if _, err := rc.ReadRaw(); err != nil {
						return
					}
				}
			}()
		}
		for s, rc := range conns {
			counts[s] = 1 + rng.IntN(30)
			for k := 0; k < counts[s]; k++ {
				d := rng.IntN(pick(rng, 1, 5, 100))
				want[s] += time.Duration(d) * time.Second
				if rng.IntN(2) == 0 {
					rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"work","params":[%d,%d,%d]}`, k, s, k, d)))
				} else {
					rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","method":"work","params":[%d,%d,%d]}`, s, k, d)))
				}
			}
			key += fmt.Sprint(counts[s], ";")
		}
		time.Sleep(2 * time.Hour)
		mu.Lock()
		defer mu.Unlock()
		for s := range books {
			b := &books[s]
			if len(b.seen) != counts[s] {
				w.violate("serial-lost", "%d of %d messages of a %s session were handled", len(b.seen), counts[s], proto)
				return
			}
			for k, n := range b.seen {
				if k != n {
					w.violate("serial-order", "messages of a %s session were handled in the order %v", proto, b.seen)
					return
				}
			}
			if took := b.ended.Sub(start); took > want[s]+c32bound {
				w.violate("serial-wait", "the messages of a %s session took %s, their handlers %s", proto, took, want[s])
				return
			}
		}
		r.Count("serial_sessions", ns)
	})
	r.Eval(fmt.Sprint("serial ", proto, ns, key))
}
