package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// Messages of every size: nothing the system promises depends on it.

// bigSize draws a size from 1 KB to max, every magnitude as likely.
func bigSize(rng *rand.Rand, max int) int {
	lo, hi := 10, 10
	for 1<<hi < max {
		hi++
	}
	n := 1 << (lo + rng.IntN(hi-lo))
	n += rng.IntN(n)
	if rng.IntN(3) == 0 {
		// close to a round one
		k := 1
		for k <= n {
			k *= 2
		}
		n = k/2 + rng.IntN(9) - 4
	}
	return min(n, max)
}

// bigValue is a JSON value of about n bytes.
func bigValue(rng *rand.Rand, n int) any {
	mark := fmt.Sprintf("%x", rng.Uint64())
	switch rng.IntN(6) {
	case 0:
		var l []any
		for n > 0 {
			l = append(l, json.Number(fmt.Sprint(len(l)*7919)))
			n -= 7
		}
		return append(l, mark)
	case 1:
		m := map[string]any{"mark": mark}
		for k := 0; n > 0; k++ {
			m[fmt.Sprintf("key %d %s", k, mark)] = nil
			n -= 32
		}
		return m
	case 2:
		depth := min(n/4, 100+rng.IntN(2000))
		var v any = strings.Repeat("d", n/2) + mark
		for range depth {
			v = []any{v}
		}
		return v
	case 3:
		return mark + strings.Repeat("é<\"\n", n/8) + mark
	default:
		return mark + strings.Repeat("0123456789abcdef", n/16) + mark
	}
}

func clipCanon(s string) string { return clip(s, 200) }

// bigC: what a property says about calls and pushes, for messages of any
// size.
func (r *Run) bigSessions(label string, quick, thorough int) {
	n := r.N(quick, thorough)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneBig(r, label, i)
		}
	}
}

func oneBig(r *Run, label string, i int) {
	rng := r.Rand("big", i)
	proto := []string{"ws", "h2c", "wss", "h2"}[i%4]
	max := 3 << 20
	if i%16 < 4 {
		max = 20 << 20
	}
	spawn := rng.IntN(2) == 0
	gateway := rng.IntN(2) == 0
	nmsg := 2 + rng.IntN(5)
	sizes := make([]int, nmsg)
	for k := range sizes {
		sizes[k] = bigSize(rng, 200<<10)
	}
	sizes[rng.IntN(nmsg)] = bigSize(rng, max)
	c := map[string]any{"i": i, "part": "big", "proto": proto, "spawn": spawn, "gateway": gateway, "sizes": sizes}
	r.world(label, c, rng, func(w *world) {
		w.Net.Limit = 1 << 20
		vals := make([]any, nmsg)
		want := make([]string, nmsg)
		for k := range vals {
			vals[k] = bigValue(rng, sizes[k])
			want[k] = canon(vals[k])
		}
		var mu sync.Mutex
		got := map[int][]string{}
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
		must(actor.OnRequest("fail", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			return nil, &jlib.RPCError{Code: 7, Message: "seven", Data: p}
		}))
		must(actor.OnRequest("note", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			k := int(paramInt(p, 0))
			mu.Lock()
			defer mu.Unlock()
			got[k] = append(got[k], canon(p[1]))
			return nil, nil
		}))
		must(actor.OnRequest("push", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			for k, v := range vals {
				req.Session().Send(jlib.NewNotifyMessage("pushed", []any{k, v}))
			}
			return "pushed", nil
		}))
		var h http.Handler
		if gateway {
			h = jlibhttp.NewGatewayHandler(w.Ctx, actor, tlsFor(proto) == nil)
		} else {
			h = w.handlerFor(proto, actor, spawn)
		}
		w.serve("srv", h, tlsFor(proto))
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		var pushed []string
		must(cl.OnMessage(func(m jlib.Message) {
			mu.Lock()
			defer mu.Unlock()
			if !m.IsNotify() || m.MustMethod() != "pushed" {
				pushed = append(pushed, "a message which is no push")
				return
			}
			p := m.MustParams()
			pushed = append(pushed, fmt.Sprint(p[0])+" "+canon(p[1]))
		}))
		// calls at once, each with its own value
		var wg sync.WaitGroup
		for k := range vals {
			wg.Add(1)
			go func() {
				defer wg.Done()
				method := "echo"
				if k%3 == 2 {
					method = "fail"
				}
				m, err := cl.Call(w.Ctx, mkReq(k, method, vals[k]))
				switch {
				case err != nil:
					w.violate("big-call", "a call with params of %d bytes failed: %v", len(want[k]), err)
				case canon(m.MustId()) != fmt.Sprint(k):
					w.violate("big-call", "call %d got the id %v", k, m.MustId())
				case method == "echo" && !m.IsResult(), method == "fail" && !m.IsError():
					w.violate("big-call", "a call (%s) with params of %d bytes was answered %s", method, len(want[k]), clipCanon(jlib.MessageString(m)))
				case method == "echo" && canon(m.MustResult()) != "["+want[k]+"]":
					w.violate("big-call", "the result of a call with params of %d bytes isn't them: %s", len(want[k]), clipCanon(canon(m.MustResult())))
				case method == "fail" && canon(m.MustError().Data) != "["+want[k]+"]":
					w.violate("big-call", "the error data of a call with params of %d bytes isn't them: %s", len(want[k]), clipCanon(canon(m.MustError().Data)))
				}
			}()
		}
		if !await(time.Hour, wg.Wait) {
			w.violate("big-call", "calls are stuck")
			return
		}
		// up
		for k := range vals {
			if err := cl.Send(w.Ctx, jlib.NewNotifyMessage("note", []any{k, vals[k]})); err != nil {
				w.violate("big-send", "sending a notify of %d bytes failed: %v", len(want[k]), err)
			}
		}
		time.Sleep(time.Minute)
		mu.Lock()
		for k := range vals {
			if len(got[k]) != 1 || got[k][0] != want[k] {
				w.violate("big-send", "a notify of %d bytes sent once was handled %d times: %s", len(want[k]), len(got[k]), clipCanon(strings.Join(got[k], " ")))
			}
		}
		mu.Unlock()
		// down
		if m, err := cl.Call(w.Ctx, mkReq("p", "push")); err != nil || !m.IsResult() {
			w.violate("big-push", "the session doesn't answer any more: %v", err)
			return
		}
		time.Sleep(time.Minute)
		mu.Lock()
		defer mu.Unlock()
		if len(pushed) != nmsg {
			w.violate("big-push", "%d messages were pushed, %d arrived", nmsg, len(pushed))
			return
		}
		for k := range vals {
			if pushed[k] != fmt.Sprint(k)+" "+want[k] {
				w.violate("big-push", "message %d of %d bytes arrived as %s", k, len(want[k]), clipCanon(pushed[k]))
			}
		}
		total := 0
		for _, s := range want {
			total += len(s)
		}
		r.Count("big messages", 3*nmsg)
		r.Count("big bytes", 3*total)
		r.Eval(fmt.Sprintf("big %s %v %v %v", proto, spawn, gateway, sizes))
	})
}

// bigPosts: requests and responses of any size over HTTP/1.
func (r *Run) bigPosts(label string, quick, thorough int) {
	n := r.N(quick, thorough)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneBigPost(r, label, i)
		}
	}
}

func oneBigPost(r *Run, label string, i int) {
	rng := r.Rand("bigpost", i)
	size := bigSize(rng, []int{3 << 20, 3 << 20, 12 << 20}[i%3])
	gateway := rng.IntN(2) == 0
	what := []string{"echo", "fail", "note", "up", "missing"}[i%5]
	chunked := rng.IntN(2) == 0
	c := map[string]any{"i": i, "part": "big post", "does": what, "gateway": gateway, "size": size, "chunked": chunked}
	r.world(label, c, rng, func(w *world) {
		w.Net.Limit = 1 << 20
		v := bigValue(rng, size)
		want := "[" + canon(v) + "]"
		noted := ""
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
		must(actor.OnRequest("fail", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			return nil, &jlib.RPCError{Code: 7, Message: "seven", Data: p}
		}))
		must(actor.OnRequest("note", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			noted += canon(p)
			return nil, nil
		}))
		body := strings.Repeat("upstream body ", size/14+1)
		must(actor.OnRequest("up", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			return nil, (&upstream{code: 200 + rng.IntN(2)*303, hdr: http.Header{"X-Up": {"stream"}}, body: []byte(body)}).err()
		}))
		if gateway {
			w.serve("srv", jlibhttp.NewGatewayHandler(w.Ctx, actor, true), nil)
		} else {
			w.serve("srv", jlibhttp.NewH1Handler(actor), nil)
		}
		m := map[string]any{"jsonrpc": "2.0", "method": what, "params": []any{v}}
		if what != "note" {
			m["id"] = "big"
		}
		b, err := json.Marshal(m)
		must(err)
		var rd io.Reader = bytes.NewReader(b)
		if chunked {
			rd = io.MultiReader(rd)
		}
		q, err := http.NewRequest("POST", "http://srv/", rd)
		must(err)
		resp, out, err := w.h1Do("srv", q)
		if err != nil {
			w.violate("big-post", "no whole response to a request of %d bytes (%s): %v", len(b), what, err)
			return
		}
		if what == "up" {
			if string(out) != body || resp.Header.Get("X-Up") != "stream" {
				w.violate("big-post", "an upstream body of %d bytes came as %d bytes (status %d)", len(body), len(out), resp.StatusCode)
			}
		} else if resp.StatusCode != 200 {
			w.violate("big-post", "a request of %d bytes (%s) was answered with status %d %s", len(b), what, resp.StatusCode, clipCanon(string(out)))
			return
		}
		var o map[string]any
		if what == "echo" || what == "fail" || what == "missing" {
			if o, err = oneObject(out); err != nil {
				w.violate("big-post", "the response to a request of %d bytes (%s) is no document: %v", len(b), what, err)
				return
			}
			if canon(o["id"]) != `"big"` {
				w.violate("big-post", "the response has the id %v", o["id"])
			}
		}
		switch what {
		case "echo":
			if canon(o["result"]) != want {
				w.violate("big-post", "the result of a request of %d bytes isn't its params: %s", len(b), clipCanon(canon(o["result"])))
			}
		case "fail":
			if e, _ := o["error"].(map[string]any); e == nil || canon(e["data"]) != want {
				w.violate("big-post", "the error data of a request of %d bytes isn't its params: %s", len(b), clipCanon(canon(o["error"])))
			}
		case "missing":
			if e, _ := o["error"].(map[string]any); e == nil || canon(e["code"]) != "-32601" {
				w.violate("big-post", "a request of %d bytes for a missing method was answered %s", len(b), clipCanon(string(out)))
			}
		case "note":
			if noted != want || len(out) != 0 {
				w.violate("big-post", "a notify of %d bytes was handled with params of %d bytes and answered with %d bytes", len(b), len(noted), len(out))
			}
		}
		r.Count("big posts", 1)
		r.Eval(fmt.Sprintf("big post %s %v %v %d", what, gateway, chunked, size))
	})
}
