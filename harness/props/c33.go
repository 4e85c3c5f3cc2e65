package props

import (
	"context"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

func driveC33(r *Run) {
	r.Rule("one streaming client of each kind lives through 2-7 bad phases of its server - refusing connections, answering handshakes with other statuses, redirects, pages and junk or not at all, breaking connections at any byte, accepting and saying nothing, sending garbage, restarting - and through cancelled calls and closes of its own; after each phase, with the server well for 2 s, the very next operation has to work, with the client's headers, one live session and every pushed message exactly once; non-trivial: distinct (transport, phases with the operations during them)")
	n := r.N(1500, 60000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC33(r, i)
		}
	}
}

// moody is a server which is well or not.
type moody struct {
	mu     sync.Mutex
	mode   string
	script string          // of sessions
	ctx    context.Context // of the phase
	good   http.Handler
	bad    http.Handler
	live   int
	opened int
	lost   int // handshakes without the client's header
	name   string
}

// c33state is what the server was like when a request came.
type c33state struct {
	mode, script string
	ctx          context.Context
}

type c33key struct{}

func (m *moody) state() c33state {
	m.mu.Lock()
	defer m.mu.Unlock()
	return c33state{m.mode, m.script, m.ctx}
}

func (m *moody) ServeHTTP(rw http.ResponseWriter, q *http.Request) {
	st := m.state()
	mode, ctx := st.mode, st.ctx
	switch mode {
	case "ok":
		m.mu.Lock()
		m.live++
		m.opened++
		if q.Header.Get("X-Who") != m.name {
			m.lost++
		}
		m.mu.Unlock()
		defer func() {
			m.mu.Lock()
			m.live--
			m.mu.Unlock()
		}()
		m.good.ServeHTTP(rw, q)
	case "mute":
		select {
		case <-ctx.Done():
		case <-q.Context().Done():
		}
		panic(http.ErrAbortHandler)
	case "abort":
		panic(http.ErrAbortHandler)
	case "redirect":
		http.Redirect(rw, q, "/elsewhere", 307)
	case "page":
		rw.Header().Set("Content-Type", "text/html")
		rw.Write([]byte("<html>maintenance</html>"))
	case "junk":
		if h, ok := rw.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				c.Write([]byte("\x00\x01\x02 not http \r\n\r\n"))
				c.Close()
			}
			return
		}
		panic(http.ErrAbortHandler)
	case "session":
		m.bad.ServeHTTP(rw, q.WithContext(context.WithValue(q.Context(), c33key{}, st)))
	default:
		rw.WriteHeader(503)
		rw.Write([]byte(mode))
	}
}

func oneC33(r *Run, i int) {
	rng := r.Rand("recover", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	nph := 2 + rng.IntN(6)
	c := map[string]any{"case": i, "proto": proto}
	var events []string
	r.world("C33", c, rng, func(w *world) {
		sctx, stopSessions := context.WithCancel(w.Ctx)
		pctx, endPhase := context.WithCancel(w.Ctx)
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
		must(actor.OnRequest("push", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			req.Session().Send(jlib.NewNotifyMessage("item", p))
			return p, nil
		}))
		must(actor.OnRequest("never", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			<-req.Context().Done()
			return nil, nil
		}))
		must(actor.OnRequest("bye", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return nil, nil }))
		goodFor := func(ctx context.Context) http.Handler {
			if proto == "ws" || proto == "wss" {
				return jlibhttp.NewWSHandler(ctx, actor)
			}
			return jlibhttp.NewH2Handler(ctx, actor)
		}
		srv := &moody{mode: "ok", ctx: pctx, name: fmt.Sprint("client", i), good: goodFor(sctx)}
		inner := proto
		if inner == "h2c" {
			inner = "h2" // h2c is around all of it
		}
		srv.bad = rawHandler(inner, func(rc rawConn, q *http.Request) {
			st := q.Context().Value(c33key{}).(c33state)
			script, ctx := st.script, st.ctx
			stop := context.AfterFunc(ctx, func() {
				if ws, ok := rc.(*rawWS); ok {
					ws.c.Close()
				} else {
					q.Body.Close()
				}
			})
			defer stop()
			switch script {
			case "silent", "deaf":
				select {
				case <-ctx.Done():
				case <-q.Context().Done():
				}
				return
			case "gone":
				return
			}
			if d, err := rc.ReadRaw(); err != nil || len(d) == 0 {
				return
			}
			switch script {
			case "garbage":
				rc.WriteRaw([]byte("}{ not json"))
			case "nomsg":
				rc.WriteRaw([]byte(`{"hello":"world"}`))
			case "half":
				rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":`))
			case "binary":
				if ws, ok := rc.(*rawWS); ok {
					ws.c.WriteMessage(websocket.BinaryMessage, []byte{1, 2, 3})
				}
			case "close frame":
				if ws, ok := rc.(*rawWS); ok {
					ws.c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(pick33(i, 1000, 1001, 1011, 1013), "x"), time.Now().Add(time.Second))
				}
			case "strange":
				rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":"nobody","result":1}`))
				rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":null,"error":{"code":1,"message":"x"}}`))
			}
			if i%2 == 0 {
				return
			}
			select {
			case <-ctx.Done():
			case <-q.Context().Done():
			}
		})
		var h http.Handler = srv
		if proto == "h2c" {
			h = h2c.NewHandler(srv, &http2.Server{})
		}
		w.serve("srv", h, tlsFor(proto))

		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		cl.SetExtraHeader(http.Header{"X-Who": {srv.name}})
		var imu sync.Mutex
		items := map[string]int{}
		must(cl.OnMessage(func(m jlib.Message) {
			if m.IsNotify() && m.MustMethod() == "item" {
				imu.Lock()
				items[fmt.Sprint(m.MustParams()...)]++
				imu.Unlock()
			}
		}))
		connects := 0
		must(cl.OnConnected(func() {
			imu.Lock()
			connects++
			imu.Unlock()
		}))
		seq := 0
		fail := false
		bad := func(kind, format string, args ...any) {
			if !fail {
				fail = true
				c["events"] = events
				w.violate(kind, format, args...)
			}
		}
		// bounded ends whatever the server does
		bounded := func(what string, f func()) {
			if !await(3*time.Minute, f) {
				bad("stuck", "%s of a %s client didn't return while its server was %s", what, proto, events[len(events)-1])
			}
		}
		during := func() {
			for k := rng.IntN(4); k > 0 && !fail; k-- {
				seq++
				tok := fmt.Sprint("t", seq)
				ctx, cancel := context.WithCancel(context.Background())
				if mute := strings.HasPrefix(events[len(events)-1], "mute"); mute || rng.IntN(2) == 0 {
					cancel()
					ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1+rng.IntN(4000))*time.Millisecond)
				}
				op := pick(rng, "call", "call", "call", "send", "connect", "never", "close", "wait", "burst", "stay", "stay call")
				switch op {
				case "call", "never":
					m := jlib.NewRequestMessage(tok, map[string]string{"call": "echo", "never": "never"}[op], []any{tok})
					bounded("a call", func() {
						res, err := cl.Call(ctx, m)
						if err == nil && res == nil {
							bad("nothing", "a call returned neither a result nor an error")
						}
					})
				case "send":
					bounded("a send", func() { cl.Send(ctx, jlib.NewNotifyMessage("bye", []any{})) })
				case "connect":
					bounded("a connect", func() { cl.Connect(ctx) })
				case "close":
					bounded("a close", func() { closeClient(cl) })
				case "wait":
					go cl.Wait()
				case "stay", "stay call":
					// a connection which isn't bound to this phase
					if strings.HasPrefix(events[len(events)-1], "mute") {
						continue
					}
					if op == "stay" {
						bounded("a connect", func() { cl.Connect(context.Background()) })
					} else {
						bounded("a call", func() { cl.Call(context.Background(), jlib.NewRequestMessage(tok, "echo", []any{tok})) })
					}
				case "burst":
					// not on a client which isn't connected: who waits for
					// its connect can't be seen in a bubble
					var err error
					if now := strings.TrimRight(strings.Split(events[len(events)-1], ",")[0], "!*"); now != "ok" && now != "restart" {
						continue
					}
					bounded("a connect", func() { err = cl.Connect(context.Background()) })
					if err != nil {
						continue
					}
					bounded("concurrent calls", func() {
						var wg sync.WaitGroup
						for n := 0; n < 4; n++ {
							wg.Add(1)
							go func() {
								defer wg.Done()
								cl.Send(ctx, jlib.NewNotifyMessage("bye", []any{}))
							}()
						}
						wg.Wait()
					})
				}
				if rng.IntN(3) > 0 {
					cancel()
				} else {
					defer cancel()
				}
				events[len(events)-1] += "," + op
				if rng.IntN(3) == 0 {
					time.Sleep(time.Duration(rng.IntN(20000)) * time.Millisecond)
				}
			}
		}
		verify := func() {
			for k := 1 + rng.IntN(3); k > 0 && !fail; k-- {
				seq++
				tok := fmt.Sprint("v", seq)
				switch pick(rng, "call", "call", "push", "send", "burst", "connect") {
				case "call":
					var res jlib.Message
					var err error
					m := jlib.NewRequestMessage(tok, "echo", []any{tok})
					if !await(5*time.Second, func() { res, err = cl.Call(context.Background(), m) }) {
						bad("call", "a call isn't answered in 5 s by a %s server which is well again", proto)
					} else if err != nil || res == nil || !res.IsResult() || !strings.Contains(jlib.MessageString(res), tok) {
						bad("call", "a call of a %s client returned %v, %v although its server is well again", proto, res, err)
					}
				case "connect":
					var err error
					if !await(5*time.Second, func() { err = cl.Connect(context.Background()) }) || err != nil {
						bad("connect", "a %s client can't connect to its server which is well again: %v", proto, err)
					}
				case "burst":
					bad33 := make(chan string, 20)
					if err := cl.Connect(context.Background()); err != nil {
						bad("connect", "a %s client can't connect to its server which is well again: %v", proto, err)
						return
					}
					if !await(5*time.Second, func() {
						var wg sync.WaitGroup
						for n := 0; n < 6; n++ {
							wg.Add(1)
							go func() {
								defer wg.Done()
								m := jlib.NewRequestMessage(1, "echo", []any{tok, n})
								res, err := cl.Call(context.Background(), m)
								if err != nil || !res.IsResult() || !strings.Contains(jlib.MessageString(res), fmt.Sprintf(`%d]`, n)) {
									bad33 <- fmt.Sprint(res, err)
								}
							}()
						}
						wg.Wait()
					}) {
						bad("call", "concurrent calls aren't answered in 5 s by a %s server which is well again", proto)
						return
					}
					select {
					case s := <-bad33:
						bad("call", "one of some concurrent calls of a %s client returned %s although its server is well again", proto, s)
					default:
					}
				case "push", "send":
					var err error
					if !await(5*time.Second, func() { err = cl.Send(context.Background(), jlib.NewNotifyMessage("push", []any{tok})) }) || err != nil {
						bad("send", "a %s client can't send to its server which is well again: %v", proto, err)
						return
					}
					time.Sleep(time.Second)
					imu.Lock()
					if items[tok] != 1 {
						bad("pushed", "an item pushed to a %s client after its server got well was handled %d times", proto, items[tok])
					}
					imu.Unlock()
				}
			}
			time.Sleep(time.Second)
			srv.mu.Lock()
			live, opened, lost := srv.live, srv.opened, srv.lost
			srv.mu.Unlock()
			imu.Lock()
			n := connects
			imu.Unlock()
			switch {
			case fail:
			case live != 1:
				bad("sessions", "a working %s client has %d sessions", proto, live)
			case lost > 0:
				bad("header", "%d of %d handshakes of a %s client came without its headers", lost, opened, proto)
			case n == 0:
				bad("connected", "a working %s client's connected handler never ran", proto)
			}
			r.Count("recoveries", 1)
		}
		events = append(events, "start")
		verify()
		for k := 0; k < nph && !fail; k++ {
			mode := pick(rng, "refuse", "503", "404", "redirect", "page", "junk", "mute", "abort", "cut", "cut", "session", "session", "session", "restart", "ok")
			switch rng.IntN(4) { // what becomes of the connections there are
			case 0:
				for _, mc := range w.Net.Conns() {
					mc.Reset()
				}
				mode += "!"
			case 1:
				stopSessions()
				sctx, stopSessions = context.WithCancel(w.Ctx)
				mode += "*"
			}
			srv.mu.Lock()
			srv.mode = strings.TrimRight(mode, "!*")
			srv.good = goodFor(sctx)
			srv.script = pick(rng, "silent", "gone", "garbage", "nomsg", "half", "binary", "close frame", "strange")
			if srv.mode == "session" {
				mode += " " + srv.script
			}
			m := srv.mode
			if m == "cut" || m == "restart" || m == "refuse" {
				srv.mode = "ok"
			}
			srv.mu.Unlock()
			events = append(events, mode)
			if m == "refuse" {
				w.Net.Listener("srv").Refuse.Store(true)
			}
			if m == "cut" {
				at, side := int64(rng.IntN(pick(rng, 300, 4000))), rng.IntN(2)
				w.Net.mu.Lock()
				w.Net.Plan = func(_ int, mc *MemConn) {
					if side == 0 {
						mc.wr.cutAt = at
					} else {
						mc.rd.cutAt = at
					}
				}
				w.Net.mu.Unlock()
			}
			if rng.IntN(2) == 0 {
				time.Sleep(time.Duration(rng.IntN(3000)) * time.Millisecond)
			}
			during()
			if m == "restart" {
				for _, mc := range w.Net.Conns() {
					mc.Peer.Close()
				}
			}
			// well again
			w.Net.mu.Lock()
			w.Net.Plan = nil
			w.Net.mu.Unlock()
			w.Net.Listener("srv").Refuse.Store(false)
			srv.mu.Lock()
			endPhase()
			pctx, endPhase = context.WithCancel(w.Ctx)
			srv.mode, srv.ctx = "ok", pctx
			srv.mu.Unlock()
			if m == "cut" {
				for _, mc := range w.Net.Conns() {
					if mc.wr.cutAt >= 0 || mc.rd.cutAt >= 0 {
						mc.Reset()
					}
				}
			}
			time.Sleep(2 * time.Second)
			if !fail {
				verify()
			}
		}
		stopSessions()
		endPhase()
	})
	c["events"] = events
	r.Eval(fmt.Sprint(proto, events))
	r.Sample(c)
}

func pick33(i int, l ...int) int { return l[i%len(l)] }
