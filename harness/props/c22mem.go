package props

import (
	"context"
	"fmt"
	"net/http"
	"runtime"
	"sync"
	"time"
	"weak"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// memC22: what has ended is not even remembered. Calls which have returned
// however, sessions which have ended and clients which were closed are
// watched by weak pointers while their client or server lives on.
func memC22(r *Run, i int) {
	rng := r.Rand("mem", i)
	proto := []string{"ws", "h2c", "wss", "h2"}[i%4]
	spawn := rng.IntN(2) == 0
	gateway := rng.IntN(3) == 0
	per := 12 + rng.IntN(20)
	same := rng.IntN(2) == 0 // equal ids
	c := map[string]any{"i": i, "part": "memory", "proto": proto, "spawn": spawn, "gateway": gateway, "each": per, "equal ids": same}
	r.world("C22", c, rng, func(w *world) {
		var mu sync.Mutex
		requests := map[string][]weak.Pointer[jlibhttp.RPCRequest]{}
		var wss []weak.Pointer[jlibhttp.WSSession]
		var h2s []weak.Pointer[jlibhttp.H2Session]
		note := func(what string, req *jlibhttp.RPCRequest) {
			mu.Lock()
			defer mu.Unlock()
			requests[what] = append(requests[what], weak.Make(req))
		}
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("ok", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			note("answered", req)
			return "ok", nil
		}))
		must(actor.OnRequest("fail", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			note("failed", req)
			return nil, jlib.ErrNotAllowed
		}))
		must(actor.OnRequest("slow", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			note("slow", req)
			time.Sleep(30 * time.Second)
			return "late", nil
		}))
		must(actor.OnRequest("never", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			note("given up", req)
			select {
			case <-req.Context().Done():
			case <-time.After(20 * time.Minute):
			}
			return nil, nil
		}))
		must(actor.OnRequest("hello", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			mu.Lock()
			defer mu.Unlock()
			switch s := req.Session().(type) {
			case *jlibhttp.WSSession:
				wss = append(wss, weak.Make(s))
			case *jlibhttp.H2Session:
				h2s = append(h2s, weak.Make(s))
			}
			return "hello", nil
		}))
		var h http.Handler
		if gateway {
			h = jlibhttp.NewGatewayHandler(w.Ctx, actor, tlsFor(proto) == nil)
			spawn = true
		} else {
			h = w.handlerFor(proto, actor, spawn)
		}
		w.serve("srv", h, tlsFor(proto))
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		if err := cl.Connect(w.Ctx); err != nil {
			w.violate("connect", "connect: %v", err)
			return
		}
		calls := map[string][]weak.Pointer[jlib.RequestMessage]{}
		call := func(what, method string, limit time.Duration, k int) {
			ctx, cancel := w.Ctx, context.CancelFunc(func() {})
			if limit > 0 {
				ctx, cancel = context.WithTimeout(w.Ctx, limit)
			}
			defer cancel()
			id := any(k)
			if same {
				id = "same"
			}
			m := mkReq(id, method, what)
			mu.Lock()
			calls[what] = append(calls[what], weak.Make(m))
			mu.Unlock()
			cl.Call(ctx, m)
		}
		var wg sync.WaitGroup
		at := func(what, method string, limit time.Duration) {
			for k := 0; k < per; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					call(what, method, limit, k)
				}()
			}
			wg.Wait()
		}
		at("answered", "ok", 0)
		at("failed", "fail", time.Minute)
		if spawn {
			at("timed out", "never", 0)
			at("given up", "never", time.Duration(1+rng.IntN(9000))*time.Millisecond)
			at("late", "slow", 5*time.Second)
		}
		for k := 0; k < per; k++ {
			ctx, cancel := context.WithCancel(w.Ctx)
			cancel()
			m := mkReq(k, "ok", 1)
			calls["cancelled before"] = append(calls["cancelled before"], weak.Make(m))
			cl.Call(ctx, m)
			bad := mkReq(k, "ok", func() {})
			calls["not encodable"] = append(calls["not encodable"], weak.Make(bad))
			cl.Call(w.Ctx, bad)
		}
		// sessions in a row
		for k := 0; k < per; k++ {
			rc, mc, err := w.dialRaw(proto, "srv", nil)
			if err != nil {
				w.violate("connect", "connect: %v", err)
				return
			}
			rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":1,"method":"hello","params":[]}`))
			await(time.Minute, func() { rc.ReadRaw() })
			if k%3 == 0 {
				mc.Reset()
			}
			rc.Close()
			mc.Close()
		}
		time.Sleep(40 * time.Minute)
		for k := 0; k < 3; k++ {
			runtime.GC()
		}
		mu.Lock()
		judge := func(what string, n, alive int) {
			r.Count("watched: "+what, n)
			if n >= 8 && alive > n/2 {
				w.violate("remembered", "%d of %d %s are still in memory long after", alive, n, what)
			}
		}
		for what, l := range calls {
			judge("messages of calls "+what, len(l), living(l))
		}
		for what, l := range requests {
			judge("requests "+what, len(l), living(l))
		}
		judge("WebSocket sessions which ended", len(wss), living(wss))
		judge("HTTP/2 sessions which ended", len(h2s), living(h2s))
		mu.Unlock()
		// they live on, what they remember would as well
		if m, err := cl.Call(w.Ctx, mkReq("end", "ok")); err != nil || !m.IsResult() {
			w.violate("usable", "the client can't call any more: %v", err)
		}
		runtime.KeepAlive(h)
		r.Eval(fmt.Sprintf("memory %s %v %v %v %d", proto, spawn, gateway, same, per))
	})
}

func living[T any](l []weak.Pointer[T]) (n int) {
	for _, p := range l {
		if p.Value() != nil {
			n++
		}
	}
	return
}
