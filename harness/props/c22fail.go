package props

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	jlibhttp "github.com/superisaac/jlib/http"
)

// half ends the messages of a raw peer; it goes on reading, and its
// connection stays.
func half(p rawConn) {
	switch c := p.(type) {
	case *rawH2:
		if pw, ok := c.w.(interface{ Close() error }); ok {
			pw.Close()
		}
	case *rawWS:
		c.c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, "bye"), time.Now().Add(time.Hour))
	}
}

// failC22: many messages of one session fail at the same time, and peers
// which end their messages while the connection stays.
func failC22(r *Run, i int) {
	rng := r.Rand("fail", i)
	proto := []string{"ws", "h2c", "wss", "h2"}[i%4]
	spawn := rng.IntN(4) != 0
	gateway := rng.IntN(4) == 0
	n := 1 + rng.IntN(3)
	cnt := pick(rng, 1, 9, 14, 25, 60, 150)
	gate := pick(rng, 0, 0, time.Second, 20*time.Second)
	quiet := rng.IntN(3) == 0 // nothing fails, the peers just end
	end := pick(rng, "half", "half", "close", "cut")
	c := map[string]any{"i": i, "part": "failing", "proto": proto, "spawn": spawn, "gateway": gateway, "peers": n, "messages": cnt, "gate": gate.String(), "quiet": quiet, "end": end}
	r.world("C22", c, rng, func(w *world) {
		var held atomic.Int64
		ss := &c22sess{}
		var mu sync.Mutex
		ended := map[string]int{}
		start := time.Now()
		wait := func() {
			if d := gate - time.Since(start); d > 0 {
				time.Sleep(d)
			}
		}
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("hello", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			ss.keep(req.Session(), req.HttpRequest())
			return "hello", nil
		}))
		must(actor.OnRequest("fail", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			held.Add(1)
			defer held.Add(-1)
			wait()
			return nil, errors.New("no luck")
		}))
		must(actor.OnRequest("wrap", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			held.Add(1)
			defer held.Add(-1)
			wait()
			return nil, &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: 302}}
		}))
		must(actor.OnRequest("strict", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			return p, nil
		}, jlibhttp.WithSchemaJson(`{"type":"method","params":["number"]}`)))
		must(actor.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
			held.Add(1)
			defer held.Add(-1)
			wait()
			return nil, errors.New("missed")
		}))
		must(actor.OnClose(func(q *http.Request, s jlibhttp.RPCSession) {
			mu.Lock()
			defer mu.Unlock()
			ended[s.SessionID()]++
		}))
		var h http.Handler
		if gateway {
			h = jlibhttp.NewGatewayHandler(w.Ctx, actor, tlsFor(proto) == nil)
		} else {
			h = w.handlerFor(proto, actor, spawn)
		}
		w.serve("srv", h, tlsFor(proto))
		var peers []rawConn
		var conns []*MemConn
		key := ""
		for k := 0; k < n; k++ {
			p, mc, err := w.dialRaw(proto, "srv", nil)
			if err != nil {
				w.violate("connect", "%v", err)
				return
			}
			peers, conns = append(peers, p), append(conns, mc)
			go func() {
				for {
					if _, err := p.ReadRaw(); err != nil {
						return
					}
				}
			}()
			doc := pick(rng, `{"jsonrpc":"2.0","method":"fail","params":[]}`, `{"jsonrpc":"2.0","method":"strict","params":["x"]}`,
				`{"jsonrpc":"2.0","id":3,"method":"wrap","params":[]}`, `{"jsonrpc":"2.0","method":"nosuch","params":[]}`,
				`{"jsonrpc":"2.0","id":"nobody's","result":5}`, "mix")
			if quiet {
				doc = `{"jsonrpc":"2.0","id":1,"method":"hello","params":[]}`
			}
			key += fmt.Sprintf(" %s x%d;", doc, cnt)
			prng := rand.New(rand.NewPCG(rng.Uint64(), 7))
			go func() {
				if p.WriteRaw([]byte(`{"jsonrpc":"2.0","id":1,"method":"hello","params":[]}`)) != nil {
					return
				}
				for j := 0; j < cnt; j++ {
					d := doc
					if d == "mix" {
						d = pick(prng, `{"jsonrpc":"2.0","method":"fail","params":[]}`, `{"jsonrpc":"2.0","method":"strict","params":["x"]}`,
							`{"jsonrpc":"2.0","method":"nosuch","params":[]}`, `{"jsonrpc":"2.0","id":7,"method":"wrap"}`)
					}
					if p.WriteRaw([]byte(d)) != nil {
						return
					}
				}
			}()
		}
		time.Sleep(time.Duration(1+rng.IntN(3000)) * time.Millisecond)
		for k, p := range peers {
			switch end {
			case "half":
				half(p)
			case "close":
				p.Close()
				conns[k].Close()
			case "cut":
				conns[k].Reset()
			}
		}
		// unspawned failing messages wait for the gate one after the other
		time.Sleep(time.Minute)
		note := fmt.Sprintf("%s%s; then %s", strings.Join([]string{proto, fmt.Sprint(spawn)}, " "), key, end)
		st := left()
		if end == "half" {
			// the connection itself is still served
			var rest []string
			for _, g := range strings.Split(st, "\n\n") {
				if g != "" && !strings.Contains(g, "http2.(*serverConn).serve(") {
					rest = append(rest, g)
				}
			}
			st = strings.Join(rest, "\n\n")
		}
		if st != "" {
			w.violate("fail-goroutines", "a minute after all peers ended (%s): %d goroutines of the library are left:\n%s", note, countG(st), clip(st, 3500))
		}
		mu.Lock()
		for id, k := range ended {
			if k != 1 {
				w.violate("fail-ends", "%s: session %s was closed %d times", note, id, k)
			}
		}
		if len(ended) != n {
			w.violate("fail-ends", "%s: %d sessions were closed, %d had begun", note, len(ended), n)
		}
		mu.Unlock()
		for k, p := range peers {
			p.Close()
			conns[k].Close()
		}
		w.over("peer-server", &held, ss, 0, note)
		r.Eval("fail " + note + fmt.Sprint(gate, gateway))
	})
}
