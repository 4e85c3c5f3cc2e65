package props

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// moment is a value something happens to while it is being encoded for the
// n-th time.
type moment struct {
	n  *atomic.Int32
	at int32
	f  func() error
}

func (m moment) MarshalJSON() ([]byte, error) {
	if m.n.Add(1) == m.at {
		if err := m.f(); err != nil {
			return nil, err
		}
	}
	return []byte(`"moment"`), nil
}

// yieldUntil gives way to the other goroutines until done, a bounded number
// of times: the caller may hold locks of the code under test.
func yieldUntil(done func() bool) {
	for k := 0; k < 3000 && !done(); k++ {
		runtime.Gosched()
	}
}

// oneC16encode: sessions end, contexts are cancelled and messages are sent
// right while a message is being encoded by the writer of a session.
func oneC16encode(r *Run, i int) {
	rng := r.Rand("encode", i)
	proto := []string{"ws", "h2c", "wss", "h2"}[i%4]
	side := pick(rng, "client", "server")
	what := pick(rng, "close", "close", "reset", "cancel", "peer ends", "fails", "send", "call")
	at := int32(1 + rng.IntN(3))
	spawn := rng.IntN(2) == 0
	rounds := 1 + rng.IntN(5)
	big := 0
	if rng.IntN(3) == 0 {
		big = bigSize(rng, 200<<10)
	}
	c := map[string]any{"i": i, "part": "encode", "proto": proto, "side": side, "what": what, "encoding": at, "spawn": spawn, "rounds": rounds, "big": big}
	r.world("C16", c, rng, func(w *world) {
		if side == "client" {
			c16encodeClient(w, rng, proto, what, at, spawn, rounds, big)
		} else {
			c16encodeServer(w, rng, proto, what, at, spawn, rounds, big)
		}
		if p := w.sink.Panics(); p != "" {
			w.violate("handler-panic", "a server handler panicked: %s", p)
		}
		r.Eval(fmt.Sprintf("encode %s %s %s %d %v %d", proto, side, what, at, spawn, rounds))
	})
}

func c16encodeClient(w *world, rng *rand.Rand, proto, what string, at int32, spawn bool, rounds, big int) {
	actor := jlibhttp.NewActor()
	actor.On("echo", func(p []any) (any, error) { return p, nil })
	must(actor.OnRequest("bye", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		return nil, errors.New("ends the session")
	}))
	w.serve("srv", w.handlerFor(proto, actor, spawn), tlsFor(proto))
	cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
	connected := func() bool {
		if x, ok := cl.(interface{ Connected() bool }); ok {
			return x.Connected()
		}
		return false
	}
	for k := 0; k < rounds; k++ {
		if err := cl.Connect(w.Ctx); err != nil {
			// the aftermath of a reset
			time.Sleep(time.Minute)
			if err := cl.Connect(w.Ctx); err != nil {
				w.violate("encode-connect", "connect: %v", err)
				return
			}
		}
		conns := w.Net.Conns()
		last := conns[len(conns)-1]
		ctx, cancel := context.WithCancel(w.Ctx)
		happened := false
		var wg sync.WaitGroup
		run := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f()
			}()
		}
		m := moment{n: new(atomic.Int32), at: at, f: func() error {
			happened = true
			switch what {
			case "close":
				run(func() { closeClient(cl) })
				yieldUntil(func() bool { return !connected() })
			case "reset":
				last.Reset()
				yieldUntil(func() bool { return !connected() })
			case "cancel":
				cancel()
				yieldUntil(func() bool { return false })
			case "peer ends":
				// a notify whose handler fails ends the session
				run(func() { cl.Send(w.Ctx, jlib.NewNotifyMessage("bye", []any{})) })
				yieldUntil(func() bool { return !connected() })
			case "fails":
				return errors.New("can't be encoded this time")
			case "send":
				run(func() { cl.Send(w.Ctx, jlib.NewNotifyMessage("echo", []any{1})) })
				yieldUntil(func() bool { return false })
			case "call":
				run(func() { cl.Call(w.Ctx, mkReq("inner", "echo", 1)) })
				yieldUntil(func() bool { return false })
			}
			return nil
		}}
		var got jlib.Message
		var err error
		if !await(time.Minute, func() {
			got, err = cl.Call(ctx, mkReq("id", "echo", m, strings.Repeat("b", big)))
		}) {
			w.violate("encode-stuck", "a call during which %q happened doesn't end", what)
			cancel()
			return
		}
		switch {
		case got == nil && err == nil:
			w.violate("encode-nothing", "a call returned neither a message nor an error")
		case got != nil && got.IsResult() && canon(got.MustResult()) != canon([]any{"moment", strings.Repeat("b", big)}):
			w.violate("encode-answer", "a call got %s", clip(canon(got.MustResult()), 200))
		case (what == "send" || what == "call" || !happened) && (err != nil || !got.IsResult()):
			w.violate("encode-failed", "a call which nothing happened to got %v %v", got, err)
		}
		cancel()
		if !await(time.Hour, wg.Wait) {
			w.violate("encode-stuck", "%q while a message is encoded doesn't end", what)
			return
		}
		time.Sleep(time.Minute)
		// and the client is as good as ever
		ok := false
		for try := 0; try < 4 && !ok; try++ {
			if !await(time.Minute, func() { got, err = cl.Call(w.Ctx, mkReq(k, "echo", "after")) }) {
				w.violate("encode-stuck", "the next call doesn't end")
				return
			}
			ok = err == nil && got.IsResult() && canon(got.MustResult()) == canon([]any{"after"})
			if !ok {
				time.Sleep(time.Minute)
			}
		}
		if !ok {
			w.violate("encode-after", "after %q while a message was encoded a call gets %v %v", what, got, err)
		}
	}
}

func c16encodeServer(w *world, rng *rand.Rand, proto, what string, at int32, spawn bool, rounds, big int) {
	var endPeer atomic.Pointer[func(reset bool)] // ends the session at hand
	var closed atomic.Int32
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	// the moment comes while the response is encoded or while a message pushed
	// before it is
	pushes := int(at) - 1 + rng.IntN(2)
	actor := jlibhttp.NewActor()
	actor.On("echo", func(p []any) (any, error) { return p, nil })
	must(actor.OnClose(func(*http.Request, jlibhttp.RPCSession) { closed.Add(1) }))
	must(actor.OnRequest("moment", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		was := closed.Load()
		m := moment{n: new(atomic.Int32), at: at, f: func() error {
			over := func() bool { return closed.Load() > was }
			switch what {
			case "close", "peer ends":
				run(func() { (*endPeer.Load())(false) })
				yieldUntil(over)
			case "reset", "cancel":
				run(func() { (*endPeer.Load())(true) })
				yieldUntil(over)
			case "fails":
				return errors.New("can't be encoded this time")
			default:
				run(func() { req.Session().Send(jlib.NewNotifyMessage("pushed", []any{1})) })
				yieldUntil(func() bool { return false })
			}
			return nil
		}}
		for k := 0; k < pushes; k++ {
			req.Session().Send(jlib.NewNotifyMessage("pushed", []any{m}))
		}
		return []any{m, strings.Repeat("b", big)}, nil
	}))
	w.serve("srv", w.handlerFor(proto, actor, spawn), tlsFor(proto))
	canary, _, err := w.dialRaw(proto, "srv", nil)
	if err != nil {
		w.violate("encode-connect", "connect: %v", err)
		return
	}
	check := func(who string, rc rawConn, k int) {
		var d []byte
		var err error
		if !await(time.Minute, func() {
			rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"echo","params":[%d]}`, k, k)))
			d, err = rc.ReadRaw()
		}) || err != nil || canonBytes(d) != canon(map[string]any{"jsonrpc": "2.0", "id": k, "result": []any{k}}) {
			w.violate("encode-"+who, "after %q while a message was encoded the %s gets %v %q", what, who, err, d)
		}
	}
	check("canary", canary, 0)
	for k := 1; k <= rounds; k++ {
		rc, mc, err := w.dialRaw(proto, "srv", nil)
		if err != nil {
			w.violate("encode-newcomer", "connect: %v", err)
			return
		}
		end := func(reset bool) {
			if reset {
				mc.Reset()
				return
			}
			rc.Close()
			mc.Close()
		}
		endPeer.Store(&end)
		answered := false
		if !await(time.Minute, func() {
			rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":"m","method":"moment","params":[]}`))
			for !answered {
				d, err := rc.ReadRaw()
				if err != nil {
					return
				}
				m, err := jlib.ParseBytes(d)
				answered = err == nil && m.IsResultOrError()
			}
		}) {
			w.violate("encode-stuck", "a session on which %q happened while a message was encoded is silent", what)
		}
		if !answered && (what == "send" || what == "call" || what == "fails") {
			w.violate("encode-answer", "%q while a message was encoded and the session has ended without an answer", what)
		}
		if !await(time.Hour, wg.Wait) {
			w.violate("encode-stuck", "%q while a message is encoded doesn't end", what)
			return
		}
		check("canary", canary, k)
		time.Sleep(10 * time.Second)
		end(false)
	}
	newcomer, _, err := w.dialRaw(proto, "srv", nil)
	if err != nil {
		w.violate("encode-newcomer", "connect: %v", err)
		return
	}
	check("newcomer", newcomer, 99)
	time.Sleep(time.Minute)
	if n := int(closed.Load()); n != rounds {
		w.violate("encode-closed", "%d sessions have ended, the close handler ran %d times", rounds, n)
	}
}
