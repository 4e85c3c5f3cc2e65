package props

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"runtime"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC15(r *Run) {
	r.Rule("sessions of raw peers and jlib clients on actor trees ended in every way at random moments (with requests in progress), and client connections ended and re-established in cycles with concurrent callers and waiters; close and connect events are counted per session and connection; non-trivial: distinct (transport, mode, shape of tree, multiset of endings)")
	n := r.N(900, 40000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC15(r, i)
		}
	}
	n = r.N(900, 40000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC15client(r, i)
		}
	}
	n = r.N(48, 600)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC15ids(r, i)
		}
	}
}

// oneC15ids runs many short sessions, most of them one after the other, and
// keeps nothing of them but their ids: no two sessions of a server share one,
// even if the first is gone for long.
func oneC15ids(r *Run, i int) {
	rng := r.Rand("ids", i)
	proto := []string{"ws", "h2c", "wss", "h2"}[i%4]
	gateway := rng.IntN(2) == 0
	nsess := 20 + rng.IntN(60)
	c := map[string]any{"i": i, "part": "ids", "proto": proto, "gateway": gateway, "sessions": nsess}
	r.world("C15", c, rng, func(w *world) {
		var mu sync.Mutex
		opened := map[string]int{}
		closed := map[string]int{}
		root := jlibhttp.NewActor()
		must(root.OnRequest("hi", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			id := req.Session().SessionID()
			mu.Lock()
			defer mu.Unlock()
			opened[id]++
			return id, nil
		}))
		must(root.OnClose(func(q *http.Request, s jlibhttp.RPCSession) {
			mu.Lock()
			defer mu.Unlock()
			closed[s.SessionID()]++
		}))
		var h http.Handler
		switch {
		case gateway:
			h = jlibhttp.NewGatewayHandler(w.Ctx, root, tlsFor(proto) == nil)
		case proto == "ws" || proto == "wss":
			h = jlibhttp.NewWSHandler(w.Ctx, root)
		case proto == "h2c":
			h = jlibhttp.NewH2Handler(w.Ctx, root).H2CHandler()
		default:
			h = jlibhttp.NewH2Handler(w.Ctx, root)
		}
		w.serve("srv", h, tlsFor(proto))
		var last rawConn
		for k := 0; k < nsess; k++ {
			rc, mc, err := w.dialRaw(proto, "srv", nil)
			if err != nil {
				w.violate("connect", "connect: %v", err)
				return
			}
			if rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":1,"method":"hi","params":[]}`)) != nil {
				w.violate("connect", "session %d took no message", k)
				return
			}
			if !await(time.Hour, func() { rc.ReadRaw() }) {
				w.violate("stuck", "session %d has no answer after an hour", k)
				return
			}
			if rng.IntN(8) == 0 && last == nil {
				last = rc // overlaps with those which follow
				w.onClose(func() { rc.Close() })
				continue
			}
			rc.Close()
			mc.Close()
			time.Sleep(time.Minute)
			runtime.GC()
		}
		time.Sleep(20 * time.Minute)
		mu.Lock()
		defer mu.Unlock()
		for id, n := range opened {
			if n > 1 {
				w.violate("session-id", "%d sessions of %d, most of them one after the other, had the id %q", n, nsess, id)
			}
			if n := closed[id]; n > 1 {
				w.violate("count", "a session with id %q closed %d times", id, n)
			}
		}
		r.Eval(fmt.Sprintf("ids %s %v %d", proto, gateway, nsess/20))
		r.Count("sessions in a row", nsess)
	})
}

type c15sess struct {
	end    string
	ids    map[string]int
	calls  int
	closed bool
}

func oneC15(r *Run, i int) {
	rng := r.Rand("sess", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	spawn := rng.IntN(2) == 0
	gateway := rng.IntN(3) == 0
	nsess := 1 + rng.IntN(6)
	c := map[string]any{"i": i, "proto": proto, "spawn": spawn, "gateway": gateway, "sessions": nsess}
	r.world("C15", c, rng, func(w *world) {
		var mu sync.Mutex
		closes := map[string]map[string]int{} // actor -> session id -> times
		badClose := ""
		nameSeq := 0
		var closers []string
		mkCloser := func(a *jlibhttp.Actor) {
			name := fmt.Sprintf("a%d", nameSeq)
			nameSeq++
			closers = append(closers, name)
			closes[name] = map[string]int{}
			lag := time.Duration(rng.IntN(3)) * time.Second
			must(a.OnClose(func(q *http.Request, s jlibhttp.RPCSession) {
				time.Sleep(lag)
				mu.Lock()
				defer mu.Unlock()
				if q == nil || s == nil {
					badClose = fmt.Sprintf("close handler of %s got request %v session %v", name, q, s)
					return
				}
				closes[name][s.SessionID()]++
			}))
			if a.OnClose(func(*http.Request, jlibhttp.RPCSession) {}) == nil {
				badClose = "a second close handler was accepted"
			}
		}
		var tree func(depth int) *jlibhttp.Actor
		shape := ""
		var all []*jlibhttp.Actor
		tree = func(depth int) *jlibhttp.Actor {
			a := jlibhttp.NewActor()
			all = append(all, a)
			if depth == 0 || rng.IntN(3) > 0 {
				mkCloser(a)
				shape += "c"
			} else {
				shape += "-"
			}
			if depth < 3 {
				for k := rng.IntN(3); k > 0; k-- {
					shape += "("
					a.AddChild(tree(depth + 1))
					shape += ")"
				}
			}
			return a
		}
		root := tree(0)
		sessions := make([]*c15sess, nsess)
		note := func(req *jlibhttp.RPCRequest, params []any) int {
			k := int(paramInt(params, 0))
			mu.Lock()
			defer mu.Unlock()
			s := sessions[k]
			s.ids[req.Session().SessionID()]++
			s.calls++
			return k
		}
		host := all[rng.IntN(len(all))]
		must(host.OnRequest("hi", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			note(req, params)
			return "ok", nil
		}))
		must(host.OnRequest("slow", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			note(req, params)
			time.Sleep(7 * time.Second)
			return "ok", nil
		}))
		must(host.OnRequest("fail", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			note(req, params)
			return nil, errors.New("fails")
		}))
		must(host.OnRequest("push", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			note(req, params)
			for j := 0; j < 300; j++ {
				req.Session().Send(jlib.NewNotifyMessage("n", []any{j}))
			}
			return "ok", nil
		}))
		if rng.IntN(3) == 0 {
			w.Net.Limit = 8 << 10
		}
		srvCtx, srvCancel := context.WithCancel(w.Ctx)
		defer srvCancel()
		serverEnd := rng.IntN(5) == 0
		var h http.Handler
		if gateway {
			h = jlibhttp.NewGatewayHandler(srvCtx, root, tlsFor(proto) == nil)
		} else {
			switch proto {
			case "ws", "wss":
				x := jlibhttp.NewWSHandler(srvCtx, root)
				x.SpawnGoroutine = spawn
				h = x
			default:
				x := jlibhttp.NewH2Handler(srvCtx, root)
				x.SpawnGoroutine = spawn
				h = x
				if proto == "h2c" {
					h = x.H2CHandler()
				}
			}
		}
		w.serve("srv", h, tlsFor(proto))
		var wg sync.WaitGroup
		endings := map[string]int{}
		unknown := 0
		for k := range sessions {
			s := &c15sess{ids: map[string]int{}}
			sessions[k] = s
			s.end = pick(rng, "tcpclose", "reset", "garbage", "fail", "bye", "stay", "stay", "clientclose", "halfmsg", "serverreset")
			jc := s.end == "clientclose" || rng.IntN(4) == 0 && (s.end == "stay" || s.end == "reset" || s.end == "fail")
			nreq := rng.IntN(5)
			endAt := time.Duration(rng.IntN(10000)) * time.Millisecond
			srng := rand.New(rand.NewPCG(uint64(i), uint64(k)))
			endings[s.end]++
			ready := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				msg := func(j int) map[string]any {
					m := map[string]any{"jsonrpc": "2.0", "method": pick(srng, "hi", "hi", "hi", "slow", "push"), "params": []any{k}}
					if srng.IntN(4) > 0 {
						m["id"] = fmt.Sprintf("q%d", j)
					}
					return m
				}
				var end func()
				if jc {
					cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
					err := cl.Connect(w.Ctx)
					mc := lastConn(w)
					close(ready)
					if err != nil {
						w.violate("connect", "connect: %v", err)
						return
					}
					for j := 0; j < nreq; j++ {
						cl.Send(w.Ctx, jlib.NewNotifyMessage("hi", []any{k}))
					}
					end = func() {
						switch s.end {
						case "clientclose":
							closeClient(cl)
						case "reset":
							mc.Reset()
						case "fail":
							cl.Send(w.Ctx, jlib.NewNotifyMessage("fail", []any{k}))
						}
					}
				} else {
					rc, mc, err := w.dialRaw(proto, "srv", nil)
					close(ready)
					if err != nil {
						w.violate("connect", "connect: %v", err)
						return
					}
					over := make(chan struct{})
					w.onClose(func() {
						rc.Close()
						<-over
					})
					go func() {
						defer close(over)
						for {
							if _, err := rc.ReadRaw(); err != nil {
								return
							}
						}
					}()
					for j := 0; j < nreq; j++ {
						if rc.WriteRaw([]byte(rawJSON(srng, msg(j)))) != nil {
							break
						}
					}
					end = func() {
						switch s.end {
						case "tcpclose":
							mc.Close()
						case "reset":
							mc.Reset()
						case "serverreset":
							mc.Peer.Reset()
						case "garbage":
							rc.WriteRaw([]byte(`{"what": "is this"}`))
						case "halfmsg":
							if h2, ok := rc.(*rawH2); ok {
								h2.mu.Lock()
								h2.w.Write([]byte(`{"jsonrpc":"2.0","meth`))
								h2.mu.Unlock()
							} else {
								rc.WriteRaw([]byte(`{"jsonrpc":"2.0","meth`))
							}
							mc.Close()
						case "fail":
							rc.WriteRaw([]byte(rawJSON(srng, map[string]any{"jsonrpc": "2.0", "method": "fail", "params": []any{k}})))
						case "bye":
							if ws, ok := rc.(*rawWS); ok {
								ws.mu.Lock()
								ws.c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, "bye"), time.Now().Add(time.Hour))
								ws.mu.Unlock()
							} else {
								rc.Close()
							}
						}
					}
				}
				time.Sleep(endAt)
				if s.end != "stay" {
					end()
				}
			}()
			<-ready
		}
		if !await(time.Hour, wg.Wait) {
			w.violate("stuck", "peers are stuck after an hour")
			return
		}
		// after requests in progress and close handlers are through
		time.Sleep(20 * time.Minute)
		mu.Lock()
		check := func(when string, staying bool) {
			if badClose != "" {
				w.violate("close", "%s", badClose)
			}
			living := 0
			seen := map[string]int{}
			for k, s := range sessions {
				if len(s.ids) > 1 {
					w.violate("session-id", "the requests of session %d had %d session ids", k, len(s.ids))
				}
				for id := range s.ids {
					if id == "" {
						w.violate("session-id", "session %d has an empty id", k)
					}
					if other, dup := seen[id]; dup {
						w.violate("session-id", "sessions %d and %d share id %s", other, k, id)
					}
					seen[id] = k
				}
				if s.end == "stay" && staying {
					living++
				}
				for id := range s.ids {
					want := 1
					if s.end == "stay" && staying {
						want = 0
					}
					for _, a := range closers {
						if n := closes[a][id]; n != want {
							w.violate("count", "%s: session %d (%s) was closed %d times at actor %s of %v, want %d", when, k, s.end, n, a, closers, want)
							break
						}
					}
				}
			}
			for _, a := range closers {
				if n := len(closes[a]); n != nsess-living {
					w.violate("count", "%s: actor %s saw %d sessions close, want %d", when, a, n, nsess-living)
				}
				for id, n := range closes[a] {
					if n != 1 {
						w.violate("count", "%s: actor %s saw session %s close %d times", when, a, id, n)
					}
					for b := range closes {
						if closes[b][id] == 0 {
							w.violate("count", "%s: actor %s missed the close of session %s", when, b, id)
						}
					}
				}
			}
		}
		check("after the sessions ended", true)
		mu.Unlock()
		// the rest ends with the server or with their clients
		if serverEnd {
			srvCancel()
		} else {
			for _, mc := range w.Net.Conns() {
				mc.Close()
			}
		}
		time.Sleep(20 * time.Minute)
		mu.Lock()
		check("after the server ended", false)
		mu.Unlock()
		_ = unknown
		r.Eval(fmt.Sprintf("%s %v %v %s %v %v", proto, spawn, gateway, shape, endings, serverEnd))
		r.Count("sessions", nsess)
		for e, n := range endings {
			r.Count("end_"+e, n)
		}
		if i%151 == 0 {
			r.Sample(map[string]any{"case": c, "tree": shape, "endings": endings})
		}
	})
}

func paramInt(params []any, k int) int64 {
	if k >= len(params) {
		return 0
	}
	switch x := params[k].(type) {
	case interface{ Int64() (int64, error) }:
		n, _ := x.Int64()
		return n
	case int:
		return int64(x)
	case int64:
		return x
	case float64:
		return int64(x)
	}
	return 0
}

func lastConn(w *world) *MemConn {
	cs := w.Net.Conns()
	if len(cs) == 0 {
		return nil
	}
	return cs[len(cs)-1]
}

func oneC15client(r *Run, i int) {
	rng := r.Rand("client", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	cycles := 1 + rng.IntN(5)
	c := map[string]any{"i": i, "proto": proto, "cycles": cycles, "part": "client"}
	r.world("C15", c, rng, func(w *world) {
		var mu sync.Mutex
		accepted := 0
		endNow := make(chan string, 1)
		w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) {
			mu.Lock()
			accepted++
			mu.Unlock()
			over := make(chan struct{})
			go func() {
				defer close(over)
				for {
					d, err := rc.ReadRaw()
					if err != nil {
						return
					}
					q, err := parseReqIn(d)
					if err != nil {
						return
					}
					if q.id != nil && q.token() != "never" {
						rc.WriteRaw([]byte(rawJSON(rand.New(rand.NewPCG(1, 1)), answerDoc(q))))
					}
				}
			}()
			select {
			case how := <-endNow:
				if how == "garbage" {
					rc.WriteRaw([]byte(`{"garbage":`))
					rc.WriteRaw([]byte(`]}`))
					<-over
				}
			case <-over:
			}
		})
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		connected, closed := 0, 0
		usesClient := rng.IntN(2) == 0
		must(cl.OnConnected(func() {
			mu.Lock()
			connected++
			n := connected
			mu.Unlock()
			if usesClient {
				o := &callOut{token: fmt.Sprintf("in-handler-%d", n), id: 77}
				if !await(time.Minute, func() { o.msg, o.err = cl.Call(w.Ctx, mkReq(77, "do", o.token)) }) {
					w.violate("connected", "a call of the connected handler is stuck")
				} else if why := judgeAnswer(o); why != "" {
					w.violate("connected", "a call of the connected handler got %s", why)
				}
			}
		}))
		if cl.OnConnected(func() {}) == nil {
			w.violate("connected", "a second connected handler was accepted")
		}
		onClose := func() {
			mu.Lock()
			closed++
			mu.Unlock()
		}
		must(cl.OnClose(onClose))
		if cl.OnClose(func() { w.violate("close", "a refused close handler runs") }) == nil {
			w.violate("close", "a second close handler was accepted")
		}
		must(cl.OnMessage(func(jlib.Message) {}))
		if cl.OnMessage(func(jlib.Message) { w.violate("message", "a refused message handler runs") }) == nil {
			w.violate("message", "a second message handler was accepted")
		}
		keys := ""
		for cy := 0; cy < cycles; cy++ {
			how := pick(rng, "connect", "call", "calls", "send")
			end := pick(rng, "server", "cut", "client", "ctx", "garbage", "client2")
			keys += how + ">" + end + " "
			if rng.IntN(6) == 0 {
				// while the server is away nothing is connected
				w.Net.Listener("srv").Refuse.Store(true)
				cc, ac := connected, accepted
				if proto != "h2" && proto != "h2c" { // may reuse a pooled connection
					err := cl.Connect(w.Ctx)
					if err == nil {
						w.violate("refused", "Connect succeeds while the server is away")
					}
					mu.Lock()
					if connected != cc || accepted != ac {
						w.violate("refused", "the connected handler ran while the server was away")
					}
					mu.Unlock()
				}
				w.Net.Listener("srv").Refuse.Store(false)
			}
			ctx, cancel := context.WithCancel(w.Ctx)
			var wg sync.WaitGroup
			call := func(k int, ctx context.Context) {
				wg.Add(1)
				o := &callOut{token: fmt.Sprintf("c%d-%d", cy, k), id: k}
				go func() {
					defer wg.Done()
					o.msg, o.err = cl.Call(ctx, mkReq(k, "do", o.token))
					if why := judgeAnswer(o); why != "" {
						w.violate("call", "cycle %d (%s): call %d got %s", cy, keys, k, why)
					}
				}()
			}
			switch how {
			case "connect":
				for k := 1 + rng.IntN(3); k > 0; k-- {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if err := cl.Connect(ctx); err != nil {
							w.violate("connect", "cycle %d (%s): %v", cy, keys, err)
						}
					}()
				}
			case "call":
				call(1, ctx)
			case "calls":
				for k := 0; k < 6; k++ {
					call(k, ctx)
				}
			case "send":
				wg.Add(1)
				go func() {
					defer wg.Done()
					if err := cl.Send(ctx, jlib.NewNotifyMessage("n", []any{"x"})); err != nil {
						w.violate("send", "cycle %d (%s): %v", cy, keys, err)
					}
				}()
			}
			if !await(time.Minute, wg.Wait) {
				w.violate("stuck", "cycle %d (%s): %s does not return", cy, keys, how)
				cancel()
				return
			}
			time.Sleep(time.Second)
			mu.Lock()
			if accepted != cy+1 || connected != cy+1 || closed != cy {
				w.violate("events", "cycle %d (%s): %d connections, connected handler ran %d times, close handler %d times; want %d, %d, %d", cy, keys, accepted, connected, closed, cy+1, cy+1, cy)
				mu.Unlock()
				cancel()
				return
			}
			mu.Unlock()
			// waiters
			var waits sync.WaitGroup
			waited := make(chan struct{})
			nw := 1 + rng.IntN(3)
			returned := 0
			var reasons []error
			for k := 0; k < nw; k++ {
				waits.Add(1)
				go func() {
					defer waits.Done()
					err := cl.Wait()
					mu.Lock()
					returned++
					if err != nil {
						reasons = append(reasons, err)
					}
					mu.Unlock()
				}()
			}
			// a call in progress ends with the connection or its own time
			pend := rng.IntN(2) == 0
			var pendWg sync.WaitGroup
			if pend {
				pendWg.Add(1)
				go func() {
					defer pendWg.Done()
					cl.Call(w.Ctx, mkReq("never", "do", "never"))
				}()
			}
			time.Sleep(time.Duration(1+rng.IntN(3000)) * time.Millisecond)
			mu.Lock()
			if returned != 0 {
				w.violate("wait", "cycle %d (%s): Wait returns while connected", cy, keys)
			}
			mu.Unlock()
			switch end {
			case "server", "garbage":
				endNow <- end
			case "cut":
				for _, mc := range w.Net.Conns() {
					mc.Reset()
				}
			case "client":
				closeClient(cl)
			case "client2":
				var cw sync.WaitGroup
				for k := 0; k < 3; k++ {
					cw.Add(1)
					go func() { defer cw.Done(); closeClient(cl) }()
				}
				cw.Wait()
			case "ctx":
				cancel()
			}
			if !await(time.Minute, waits.Wait) {
				w.violate("wait", "cycle %d (%s): Wait does not return after the connection ended by %s", cy, keys, end)
				cancel()
				return
			}
			mu.Lock()
			switch end {
			case "server", "garbage", "cut":
				if len(reasons) == 0 {
					w.violate("wait-reason", "cycle %d (%s): no Wait tells why the connection ended by %s", cy, keys, end)
				}
			case "client", "client2":
				if len(reasons) != 0 {
					w.violate("wait-reason", "cycle %d (%s): Wait returns %v after the client is closed", cy, keys, reasons)
				}
			}
			mu.Unlock()
			if !await(time.Minute, pendWg.Wait) {
				w.violate("pending", "cycle %d (%s): a call in progress does not return after the connection ended by %s", cy, keys, end)
			}
			close(waited)
			cancel()
			time.Sleep(time.Minute)
			mu.Lock()
			if closed != cy+1 || connected != cy+1 || accepted != cy+1 {
				w.violate("events", "cycle %d (%s): after the end %d connections, connected handler ran %d times, close handler %d times; want %d each", cy, keys, accepted, connected, closed, cy+1)
				mu.Unlock()
				return
			}
			mu.Unlock()
			cl.OnClose(onClose) // which is for one connection
			if !await(time.Minute, func() { cl.Wait() }) {
				w.violate("wait", "cycle %d (%s): Wait of an ended connection does not return", cy, keys)
				return
			}
		}
		r.Eval(fmt.Sprintf("client %s %v %s", proto, usesClient, keys))
		r.Count("cycles", cycles)
	})
}
