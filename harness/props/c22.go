package props

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"weak"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC22(r *Run) {
	r.Rule("cycles of connect, traffic (calls, canceled calls, handlers waiting for their context, pushes into full queues, slow and vanished peers), fault and close; afterwards the goroutines of the library left in the bubble, the open connections, the blocked senders and the messages still held are counted; non-trivial: distinct (part, transport, sequence of traffic and ending)")
	parts := []struct {
		label  string
		qk, th int
		f      func(*Run, int)
	}{
		{"cycle", 330, 12000, c22cycle},
		{"peer", 330, 12000, c22peer},
		{"idle", 120, 3000, c22idle},
		{"refused", 150, 5000, c22refused},
		{"h1", 48, 800, c22h1},
		{"mem", 60, 1500, memC22},
		{"fail", 240, 6000, failC22},
	}
	for _, p := range parts {
		n := r.N(p.qk, p.th)
		for i := 0; i < n; i++ {
			if r.Mine(i) {
				p.f(r, i)
			}
		}
	}
}

// left is what of the library is still there in this bubble.
func left() string { return jlibStacks(bubbleStacks(currentBubble())) }

func countG(st string) int {
	if st == "" {
		return 0
	}
	return len(strings.Split(st, "\n\n"))
}

// sessions a server handler met
type c22sess struct {
	mu   sync.Mutex
	all  []jlibhttp.RPCSession
	reqs []weak.Pointer[http.Request]
	seen map[*http.Request]bool
}

func (s *c22sess) keep(x jlibhttp.RPCSession, q *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, y := range s.all {
		if y == x {
			return
		}
	}
	s.all = append(s.all, x)
	s.reqs = append(s.reqs, weak.Make(q))
}

func (s *c22sess) take() []jlibhttp.RPCSession {
	s.mu.Lock()
	defer s.mu.Unlock()
	a := s.all
	s.all = nil
	return a
}

// c22actor: handlers that hold on to their session in all ways.
func c22actor(w *world, ss *c22sess, held *atomic.Int64) *jlibhttp.Actor {
	a := jlibhttp.NewActor()
	must(a.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		ss.keep(req.Session(), req.HttpRequest())
		return p, nil
	}))
	must(a.OnRequest("slow", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		ss.keep(req.Session(), req.HttpRequest())
		time.Sleep(3 * time.Second)
		return p, nil
	}))
	must(a.OnRequest("hold", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		ss.keep(req.Session(), req.HttpRequest())
		held.Add(1)
		defer held.Add(-1)
		<-req.Context().Done()
		return nil, req.Context().Err()
	}))
	must(a.OnRequest("flood", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		ss.keep(req.Session(), req.HttpRequest())
		s := req.Session()
		for g := 0; g < 3; g++ {
			held.Add(1)
			go func() {
				defer held.Add(-1)
				for k := 0; k < 120; k++ {
					s.Send(jlib.NewNotifyMessage("flood", []any{g, k, strings.Repeat("f", 300)}))
				}
			}()
		}
		return "ok", nil
	}))
	must(a.OnRequest("inflood", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		ss.keep(req.Session(), req.HttpRequest())
		held.Add(1)
		defer held.Add(-1)
		for k := 0; k < 250; k++ {
			req.Session().Send(jlib.NewNotifyMessage("flood", []any{k, strings.Repeat("f", 300)}))
		}
		return "ok", nil
	}))
	return a
}

// over judges the end: nothing of the library may be left.
func (w *world) over(part string, held *atomic.Int64, ss *c22sess, pooled int, note string) {
	time.Sleep(2 * time.Minute)
	if st := left(); st != "" {
		w.violate(part+"-goroutines", "%s: %d goroutines of the library are left:\n%s", note, countG(st), clip(st, 3500))
	}
	n, m := w.Net.OpenSides()
	switch part {
	case "peer-client", "refused":
		m = 0
	case "peer-server":
		n = 0
	}
	if n = max(n, m); n > pooled {
		w.violate(part+"-connections", "%s: %d connections are still open, at most %d are idle ones", note, n, pooled)
	}
	if held != nil {
		if n := held.Load(); n != 0 {
			w.violate(part+"-blocked", "%s: %d handlers or senders are still blocked on ended sessions", note, n)
		}
	}
	if ss == nil {
		return
	}
	// senders to ended sessions return
	var wg sync.WaitGroup
	sessions := ss.take()
	for _, s := range sessions {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 230; k++ {
				s.Send(jlib.NewNotifyMessage("late", []any{k}))
			}
		}()
	}
	if !await(2*time.Minute, wg.Wait) {
		w.violate(part+"-late", "%s: sending to an ended session blocks:\n%s", note, clip(left(), 2000))
	}
	w.r.Count("late_senders", len(sessions))
	w.r.Count("endings_observed", 1)
}

// released tells how many of the weakly held objects are still there.
func aliveOf[T any](ws []weak.Pointer[T]) int {
	n := 0
	for k := 0; k < 3; k++ {
		runtime.GC()
	}
	for _, p := range ws {
		if p.Value() != nil {
			n++
		}
	}
	return n
}

// c22cycle: jlib clients and server, many cycles.
func c22cycle(r *Run, i int) {
	rng := r.Rand("cycle", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	cycles := 2 + rng.IntN(6)
	ncl := 1 + rng.IntN(3)
	spawn := rng.IntN(3) != 0
	h2ish := proto == "h2" || proto == "h2c"
	c := map[string]any{"i": i, "part": "cycle", "proto": proto, "cycles": cycles, "clients": ncl, "spawn": spawn}
	r.world("C22", c, rng, func(w *world) {
		var held atomic.Int64
		ss := &c22sess{}
		w.serve("srv", w.handlerFor(proto, c22actor(w, ss, &held), spawn), tlsFor(proto))
		small := rng.IntN(3) == 0 && proto == "ws"
		if small {
			w.Net.Limit = 4096
		}
		var cls []jlibhttp.Streamable
		for k := 0; k < ncl; k++ {
			cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
			if rng.IntN(2) == 0 {
				slow := rng.IntN(3) == 0
				must(cl.OnMessage(func(jlib.Message) {
					if slow {
						time.Sleep(100 * time.Millisecond)
					}
				}))
			}
			cls = append(cls, cl)
		}
		keys := ""
		for cy := 0; cy < cycles; cy++ {
			end := pick(rng, "client", "client", "cut", "ctx", "client-busy")
			traffic := pick(rng, "echo", "slow", "hold", "flood", "inflood", "mix", "none")
			keys += traffic + ">" + end + " "
			ctx, cancel := context.WithCancel(w.Ctx)
			var wg sync.WaitGroup
			for _, cl := range cls {
				if err := cl.Connect(ctx); err != nil {
					w.violate("connect", "cycle %d (%s): %v", cy, keys, err)
					cancel()
					return
				}
			}
			for k, cl := range cls {
				for j := rng.IntN(6); j > 0; j-- {
					m := traffic
					if m == "mix" {
						m = pick(rng, "echo", "slow", "hold", "flood", "inflood")
					}
					if m == "none" {
						continue
					}
					if m == "hold" && !spawn {
						m = "slow" // nobody reads the end of the connection meanwhile
					}
					cctx, ccancel := context.WithCancel(ctx)
					if rng.IntN(3) == 0 {
						d := time.Duration(rng.IntN(4000)) * time.Millisecond
						time.AfterFunc(d, ccancel)
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer ccancel()
						if m == "echo" && k%2 == 1 {
							cl.Send(cctx, jlib.NewNotifyMessage("echo", []any{j}))
							return
						}
						cl.Call(cctx, mkReq(j, m, j))
					}()
				}
			}
			switch rng.IntN(3) {
			case 0:
				time.Sleep(time.Duration(rng.IntN(15000)) * time.Millisecond)
			case 1:
				time.Sleep(time.Duration(rng.IntN(50)) * time.Millisecond)
			}
			switch end {
			case "cut":
				for _, mc := range w.Net.Conns() {
					mc.Reset()
				}
			case "ctx":
				cancel()
			}
			if end == "client" {
				// what is called ends before or with the client
				if !await(time.Minute, wg.Wait) {
					w.violate("cycle-calls", "cycle %d (%s): calls do not return\n%s", cy, keys, clip(left(), 2500))
				}
			}
			for _, cl := range cls {
				if !await(time.Minute, func() { closeClient(cl) }) {
					w.violate("cycle-close", "cycle %d (%s): Close does not return\n%s", cy, keys, clip(left(), 2500))
				}
			}
			if !await(time.Minute, wg.Wait) {
				w.violate("cycle-calls", "cycle %d (%s): calls do not return after Close\n%s", cy, keys, clip(left(), 2500))
			}
			cancel()
			pooled := 0
			if h2ish {
				pooled = ncl
			}
			w.over("cycle", &held, ss, pooled, fmt.Sprintf("cycle %d (%s)", cy, keys))
		}
		if n := aliveOf(ss.reqs); n > 2+len(ss.reqs)/2 && !h2ish {
			w.violate("cycle-sessions", "%d of %d ended sessions are still held", n, len(ss.reqs))
		}
		r.Count("sessions_ended", len(ss.reqs))
		r.Eval(fmt.Sprintf("cycle %s %d %v %v %s", proto, ncl, spawn, small, keys))
		if i%53 == 0 {
			r.Sample(map[string]any{"case": c, "cycles": keys})
		}
	})
}

// c22peer: raw peers of a jlib server, slow, vanished, hostile, and raw
// servers of jlib clients.
func c22peer(r *Run, i int) {
	rng := r.Rand("peer", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	side := pick(rng, "server", "client")
	end := pick(rng, "cut", "close", "ctx", "garbage")
	stall := rng.IntN(2) == 0
	n := 1 + rng.IntN(5)
	spawn := rng.IntN(3) != 0
	c := map[string]any{"i": i, "part": "peer", "proto": proto, "side": side, "end": end, "stalled": stall, "peers": n, "spawn": spawn}
	h2ish := proto == "h2" || proto == "h2c"
	if side == "server" {
		r.world("C22", c, rng, func(w *world) {
			var held atomic.Int64
			ss := &c22sess{}
			actor := c22actor(w, ss, &held)
			ended := 0
			var mu sync.Mutex
			must(actor.OnClose(func(q *http.Request, s jlibhttp.RPCSession) {
				mu.Lock()
				defer mu.Unlock()
				ended++
			}))
			w.Net.Limit = pick(rng, 2048, 16384, 1<<20)
			sctx, scancel := context.WithCancel(w.Ctx)
			defer scancel()
			hw := *w
			hw.Ctx = sctx
			w.serve("srv", hw.handlerFor(proto, actor, spawn), tlsFor(proto))
			var peers []rawConn
			var conns []*MemConn
			key := ""
			for k := 0; k < n; k++ {
				p, mc, err := w.dialRaw(proto, "srv", nil)
				if err != nil {
					w.violate("connect", "%v", err)
					return
				}
				peers, conns = append(peers, p), append(conns, mc)
				reads := !stall || rng.IntN(3) == 0
				if reads {
					go func() {
						for {
							if _, err := p.ReadRaw(); err != nil {
								return
							}
						}
					}()
				}
				prng := rand.New(rand.NewPCG(rng.Uint64(), 9))
				for j := rng.IntN(8); j > 0; j-- {
					key += "."
				}
				m := pick(rng, "echo", "hold", "flood", "inflood", "slow", "many")
				if m == "hold" && !spawn {
					m = "slow"
				}
				key += m
				go func() {
					cnt := 1 + prng.IntN(4)
					if m == "many" {
						cnt = 400
					}
					for j := 0; j < cnt; j++ {
						mm := m
						if m == "many" {
							mm = "echo"
						}
						d := rawJSON(rand.New(rand.NewPCG(1, 1)), map[string]any{"jsonrpc": "2.0", "id": jsonInt(j), "method": mm, "params": []any{strings.Repeat("p", 200)}})
						if p.WriteRaw([]byte(d)) != nil {
							return
						}
					}
				}()
			}
			time.Sleep(time.Duration(rng.IntN(20000)) * time.Millisecond)
			switch end {
			case "cut":
				for _, mc := range conns {
					mc.Reset()
				}
			case "close":
				for k, p := range peers {
					p.Close()
					conns[k].Close()
				}
			case "ctx":
				scancel()
			case "garbage":
				for k, p := range peers {
					await(time.Minute, func() { p.WriteRaw([]byte(`{"a":]`)) })
					if stall {
						conns[k].Reset()
					}
				}
			}
			time.Sleep(time.Minute)
			note := fmt.Sprintf("%s peers ended by %s", key, end)
			// the sessions are over, whatever their peers do
			if end != "ctx" || !stall {
				if st := left(); st != "" && end != "garbage" {
					w.violate("peer-goroutines", "%s: %d goroutines of the library are left:\n%s", note, countG(st), clip(st, 3500))
				}
			}
			for k, p := range peers {
				p.Close()
				conns[k].Close()
			}
			w.over("peer-server", &held, ss, 0, note)
			mu.Lock()
			if ended != n {
				w.violate("peer-ends", "%s: %d sessions were closed, %d had begun", note, ended, n)
			}
			mu.Unlock()
			r.Eval(fmt.Sprintf("peer server %s %s %v %v %s", proto, end, stall, spawn, key))
		})
		return
	}
	r.world("C22", c, rng, func(w *world) {
		endNow := make(chan struct{})
		w.Net.Limit = pick(rng, 2048, 16384, 1<<20)
		push := rng.IntN(2) == 0
		w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) {
			over := make(chan struct{})
			if push {
				go func() {
					for k := 0; k < 300; k++ {
						if rc.WriteRaw([]byte(`{"jsonrpc":"2.0","method":"push","params":["xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"]}`)) != nil {
							return
						}
					}
				}()
			}
			if !stall {
				go func() {
					defer close(over)
					for {
						if _, err := rc.ReadRaw(); err != nil {
							return
						}
					}
				}()
			}
			select {
			case <-endNow:
				if end == "garbage" {
					rc.WriteRaw([]byte(`{"garbage":`))
					rc.WriteRaw([]byte(`]}`))
				}
			case <-over:
			}
		})
		ctx, cancel := context.WithCancel(w.Ctx)
		defer cancel()
		var cls []jlibhttp.Streamable
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
			if rng.IntN(2) == 0 {
				must(cl.OnMessage(func(jlib.Message) { time.Sleep(time.Millisecond) }))
			}
			cls = append(cls, cl)
			if err := cl.Connect(ctx); err != nil {
				w.violate("connect", "%v", err)
				return
			}
			for j := 3 + rng.IntN(200); j > 0; j-- {
				wg.Add(1)
				kind := rng.IntN(3)
				go func() {
					defer wg.Done()
					if kind == 0 {
						cl.Call(ctx, mkReq(j, "never", strings.Repeat("x", 200)))
					} else {
						cl.Send(ctx, jlib.NewNotifyMessage("n", []any{strings.Repeat("x", 200)}))
					}
				}()
			}
		}
		time.Sleep(time.Duration(rng.IntN(12000)) * time.Millisecond)
		switch end {
		case "cut":
			for _, mc := range w.Net.Conns() {
				mc.Reset()
			}
		case "close":
			for _, cl := range cls {
				if !await(time.Minute, func() { closeClient(cl) }) {
					w.violate("peer-close", "Close does not return while the server stalls\n%s", clip(left(), 3000))
				}
			}
		case "ctx":
			cancel()
		case "garbage":
			close(endNow)
		}
		if !await(time.Minute, wg.Wait) {
			w.violate("peer-calls", "calls and senders do not return after %s\n%s", end, clip(left(), 3000))
		}
		for _, cl := range cls {
			await(time.Minute, func() { closeClient(cl) })
		}
		cancel()
		pooled := 0
		if h2ish {
			pooled = n
		}
		w.over("peer-client", nil, nil, pooled, "clients of a raw server, "+end)
		r.Eval(fmt.Sprintf("peer client %s %s %v %v %d %d", proto, end, stall, push, n, w.Net.Limit))
		if end != "garbage" {
			close(endNow)
		}
	})
}

func jsonInt(n int) any { return n }

// c22idle: a client in use does not gather what its calls leave.
func c22idle(r *Run, i int) {
	rng := r.Rand("idle", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	ncalls := 24 + rng.IntN(60)
	c := map[string]any{"i": i, "part": "idle", "proto": proto, "calls": ncalls}
	r.world("C22", c, rng, func(w *world) {
		var held atomic.Int64
		ss := &c22sess{}
		fate := pick(rng, "answered", "canceled", "timeout", "unsendable", "mix", "notify")
		c["fate"] = fate
		actor := c22actor(w, ss, &held)
		w.serve("srv", w.handlerFor(proto, actor, true), tlsFor(proto))
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		if err := cl.Connect(w.Ctx); err != nil {
			w.violate("connect", "%v", err)
			return
		}
		cl.Call(w.Ctx, mkReq(0, "echo"))
		time.Sleep(time.Minute)
		base := left()
		var ws []weak.Pointer[jlib.RequestMessage]
		var wn []weak.Pointer[jlib.NotifyMessage]
		func() {
			var wg sync.WaitGroup
			var mu sync.Mutex
			for k := 0; k < ncalls; k++ {
				f := fate
				if f == "mix" {
					f = pick(rng, "answered", "canceled", "timeout", "unsendable", "notify")
				}
				d := time.Duration(rng.IntN(3000)) * time.Millisecond
				one := func() {
					ctx, cancel := context.WithCancel(w.Ctx)
					defer cancel()
					if f == "notify" {
						m := jlib.NewNotifyMessage("echo", []any{k})
						mu.Lock()
						wn = append(wn, weak.Make(m))
						mu.Unlock()
						cl.Send(ctx, m)
						return
					}
					m := mkReq(1000+k, "echo", k)
					switch f {
					case "canceled":
						m = mkReq(1000+k, "slow", k)
						time.AfterFunc(d, cancel)
					case "timeout":
						m = mkReq(1000+k, "ghost", k)
						m = jlib.NewRequestMessage(1000+k, "hold", []any{k})
					case "unsendable":
						m = mkReq(1000+k, "echo", func() {})
					}
					mu.Lock()
					ws = append(ws, weak.Make(m))
					mu.Unlock()
					cl.Call(ctx, m)
				}
				if rng.IntN(3) == 0 {
					one()
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					one()
				}()
			}
			wg.Wait()
		}()
		// the handlers which wait for the end of the session are the server's
		time.Sleep(time.Minute)
		now := left()
		nh := int(held.Load())
		if countG(now)-nh > countG(base)+3 {
			w.violate("idle-goroutines", "%d goroutines of the library before, %d (and %d held handlers) after %d %s calls:\n%s", countG(base), countG(now)-nh, nh, ncalls, fate, clip(now, 3500))
		}
		// the requests held handlers answer are other objects
		if a := aliveOf(ws) + aliveOf(wn); a > 4+ncalls/4 {
			w.violate("idle-messages", "%d of %d messages of returned %s calls are still held", a, len(ws)+len(wn), fate)
		} else {
			r.Count("messages_released", len(ws)+len(wn)-a)
		}
		closeClient(cl)
		pooled := 0
		if proto == "h2" || proto == "h2c" {
			pooled = 1
		}
		w.over("idle", &held, ss, pooled, fate)
		r.Eval(fmt.Sprintf("idle %s %s %d", proto, fate, ncalls/10))
	})
}

// c22refused: connecting in vain leaves nothing behind.
func c22refused(r *Run, i int) {
	rng := r.Rand("refused", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	how := pick(rng, "refused", "status", "hangup", "silent", "garbage", "unauthorized")
	tries := 3 + rng.IntN(20)
	c := map[string]any{"i": i, "part": "refused", "proto": proto, "how": how, "tries": tries}
	r.world("C22", c, rng, func(w *world) {
		switch how {
		case "refused":
		case "status":
			var h http.Handler = http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
				rw.WriteHeader(403)
				rw.Write([]byte(strings.Repeat("no ", 2000)))
			})
			if proto == "h2c" {
				h = h2cWrap(h)
			}
			w.serve("srv", h, tlsFor(proto))
		case "unauthorized":
			actor := jlibhttp.NewActor()
			var h http.Handler = jlibhttp.NewAuthHandler(&jlibhttp.AuthConfig{Bearer: []jlibhttp.BearerAuthConfig{{Token: "t"}}}, w.handlerFor(proto, actor, true))
			w.serve("srv", h, tlsFor(proto))
		default:
			l := w.Net.Listen("srv")
			grng := rand.New(rand.NewPCG(rng.Uint64(), 3))
			go func() {
				for {
					nc, err := l.Accept()
					if err != nil {
						return
					}
					switch how {
					case "hangup":
						nc.Close()
					case "garbage":
						nc.Write(genBytes(grng, 400))
						nc.Write([]byte("\r\n\r\n"))
						go drain(nc)
						time.AfterFunc(time.Second, func() { nc.Close() })
					case "silent":
						go drain(nc)
					}
				}
			}()
			w.onClose(func() { l.Close() })
		}
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		for k := 0; k < tries; k++ {
			ctx, cancel := context.WithCancel(w.Ctx)
			time.AfterFunc(time.Duration(1+rng.IntN(5000))*time.Millisecond, cancel)
			var err error
			op := rng.IntN(3)
			if !await(10*time.Minute, func() {
				switch op {
				case 0:
					err = cl.Connect(ctx)
				case 1:
					_, err = cl.Call(ctx, mkReq(1, "x"))
				default:
					err = cl.Send(ctx, jlib.NewNotifyMessage("x", []any{}))
				}
			}) {
				w.violate("refused-stuck", "try %d (%s) does not return", k, how)
				cancel()
				return
			}
			if err == nil {
				w.violate("refused-ok", "try %d succeeds", k)
			}
			cancel()
		}
		closeClient(cl)
		pooled := 0
		if proto == "h2" || proto == "h2c" {
			pooled = 1
			if how == "silent" {
				pooled = tries // http2 keeps what it cannot know to be dead
			}
		}
		w.over("refused", nil, nil, pooled, how)
		r.Eval(fmt.Sprintf("refused %s %s %d", proto, how, tries))
	})
}

// c22h1: HTTP/1 calls on the loopback.
func c22h1(r *Run, i int) {
	rng := r.Rand("h1", i)
	fate := pick(rng, "ok", "status", "badbody", "canceled", "mix", "notify", "notify-status")
	ncalls := 40 + rng.IntN(40)
	c := map[string]any{"i": i, "part": "h1", "fate": fate, "calls": ncalls}
	r.Journal(c)
	defer r.recoverCase("C22", c)
	var open, total atomic.Int64
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	big := strings.Repeat("z", 300000)
	srv := &http.Server{
		Handler: http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			switch q.Header.Get("X-Fate") + q.URL.Path {
			case "/status", "/notify-status":
				rw.WriteHeader(503)
				rw.Write([]byte(big[:rng0(q)]))
			case "/badbody":
				rw.Write([]byte("not json"))
			case "/canceled":
				rw.WriteHeader(200)
				rw.(http.Flusher).Flush()
				<-q.Context().Done()
			case "/notify":
				rw.Write([]byte(big))
			default:
				rw.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":1}`))
			}
		}),
		ConnState: func(_ net.Conn, s http.ConnState) {
			switch s {
			case http.StateNew:
				open.Add(1)
				total.Add(1)
			case http.StateClosed, http.StateHijacked:
				open.Add(-1)
			}
		},
	}
	go srv.Serve(l)
	defer srv.Close()
	fates := []string{fate}
	if fate == "mix" {
		fates = []string{"ok", "status", "badbody", "notify"}
	}
	var ws []weak.Pointer[jlib.RequestMessage]
	for k := 0; k < ncalls; k++ {
		f := fates[k%len(fates)]
		if f == "canceled" && k >= 25 {
			break
		}
		// one client for each fate, reused
		cl := c22client(r, f, l.Addr().String())
		func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if f == "canceled" {
				time.AfterFunc(time.Duration(2+k%5)*time.Millisecond, cancel)
			}
			if strings.HasPrefix(f, "notify") {
				cl.Send(ctx, jlib.NewNotifyMessage("x", []any{k}))
				return
			}
			m := mkReq(1, "x", k)
			ws = append(ws, weak.Make(m))
			cl.Call(ctx, m)
		}()
	}
	limit := int64(12 * len(fates))
	settled := false
	for k := 0; k < 400 && !settled; k++ {
		if open.Load() <= limit {
			settled = true
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if !settled {
		r.Violate("C22:h1-connections", c, "%d of %d connections are still open after %d calls one after another", open.Load(), total.Load(), ncalls)
	}
	// the stacks of the library, once nobody calls
	st := ""
	for k := 0; k < 200; k++ {
		st = jlibStacks(outsideStacks())
		if st == "" {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if st != "" {
		r.Violate("C22:h1-goroutines", c, "%d goroutines of the library are left:\n%s", countG(st), clip(st, 3000))
	}
	if a := aliveOf(ws); a > 4+len(ws)/4 {
		r.Violate("C22:h1-messages", c, "%d of %d messages of returned calls are still held", a, len(ws))
	}
	c22clients.Range(func(k, _ any) bool { c22clients.Delete(k); return true })
	r.Count("h1_connections", int(total.Load()))
	r.Eval(fmt.Sprintf("h1 %s %d", fate, ncalls))
}

var c22clients sync.Map

func c22client(r *Run, fate, addr string) jlibhttp.Client {
	u := "http://" + addr + "/" + fate
	if v, ok := c22clients.Load(u); ok {
		return v.(jlibhttp.Client)
	}
	cl, err := jlibhttp.NewClient(u, jlibhttp.ClientOptions{Timeout: 60})
	must(err)
	c22clients.Store(u, cl)
	return cl
}

func rng0(q *http.Request) int { return 1 + int(q.ContentLength*137)%250000 }

// outsideStacks returns all goroutines which belong to no bubble.
func outsideStacks() string {
	var out []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "synctest bubble") || strings.Contains(g, "props.outsideStacks") {
			continue
		}
		out = append(out, g)
	}
	return strings.Join(out, "\n\n")
}
