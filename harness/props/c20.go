package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC20(r *Run) {
	r.Rule("concurrent calls and notifies with distinct, equal and absent trace ids through clients of every transport, message objects shared between clients and sent again: trace id seen by the handler, trace id of the response, and the caller's object before, during and after are compared; non-trivial: distinct (transport, callers, sharing, sequence of message kinds and outcomes)")
	n := r.N(900, 30000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC20(r, i)
		}
	}
	n = r.N(240, 3000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC20loop(r, i)
		}
	}
}

// msgFace is what the owner of a message object can see of it.
func msgFace(m jlib.Message) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %q %s", kindOf(m), m.TraceId(), msgDoc(m))
	switch x := m.(type) {
	case *jlib.RequestMessage:
		fmt.Fprintf(&b, " %#v %q %#v", x.Id, x.Method, x.Params)
	case *jlib.NotifyMessage:
		fmt.Fprintf(&b, " %q %#v", x.Method, x.Params)
	case *jlib.ResultMessage:
		fmt.Fprintf(&b, " %#v %#v", x.Id, x.Result)
	}
	return b.String()
}

// c20book holds what is known of every message the harness makes.
type c20book struct {
	mu   sync.Mutex
	msgs map[string]jlib.Message
	face map[string]string
	seen map[string]int    // token -> handler runs
	bad  map[string]string // token -> what the handler found wrong
}

func newC20book() *c20book {
	return &c20book{msgs: map[string]jlib.Message{}, face: map[string]string{}, seen: map[string]int{}, bad: map[string]string{}}
}

func (b *c20book) put(tok string, m jlib.Message) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.msgs[tok], b.face[tok] = m, msgFace(m)
}

func (b *c20book) handler(req *jlibhttp.RPCRequest, tok string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.seen[tok]++
	m := b.msgs[tok]
	if m == nil {
		b.bad[tok] = "a message nobody sent"
		return
	}
	if got, want := req.Msg().TraceId(), m.TraceId(); got != want {
		b.bad[tok] = fmt.Sprintf("the handler sees trace id %q, the message has %q", got, want)
	}
	if f := msgFace(m); f != b.face[tok] {
		b.bad[tok] = fmt.Sprintf("the message of the caller is changed while in flight: %s, was %s", f, b.face[tok])
	}
}

func (b *c20book) after(tok string) string {
	b.mu.Lock()
	defer b.mu.Unlock()
	if s := b.bad[tok]; s != "" {
		return s
	}
	if f := msgFace(b.msgs[tok]); f != b.face[tok] {
		return fmt.Sprintf("the message of the caller is changed: %s, was %s", f, b.face[tok])
	}
	return ""
}

func c20actor(b *c20book, slow func(string)) *jlibhttp.Actor {
	a, child := jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(child)
	run := func(f func() (any, error)) func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		return func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			b.handler(req, tokenOf(params))
			slow(tokenOf(params))
			return f()
		}
	}
	must(a.OnRequest("ok", run(func() (any, error) { return "ok", nil })))
	must(child.OnRequest("child", run(func() (any, error) { return nil, nil })))
	must(a.OnRequest("rpcerr", run(func() (any, error) { return nil, &jlib.RPCError{Code: 3, Message: "three"} })))
	must(child.OnRequest("err", run(func() (any, error) { return nil, errors.New("plain") })))
	must(a.OnRequest("panic", run(func() (any, error) { panic(errors.New("boom")) })))
	must(a.OnRequest("chan", run(func() (any, error) { return make(chan int), nil })))
	must(a.OnRequest("gated", run(func() (any, error) { return 1, nil }), jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"string","maxLength":12}],"additionalParams":{"type":"integer"}}`)))
	must(a.OnTypedRequest("typed", func(req *jlibhttp.RPCRequest, tok any, n int) (int, error) {
		s, _ := tok.(string)
		b.handler(req, s)
		slow(s)
		return n, nil
	}))
	return a
}

// tokenOf finds the token in list params or in the sole by-name object.
func tokenOf(params []any) string {
	if len(params) == 0 {
		return ""
	}
	if m, ok := params[0].(map[string]any); ok {
		s, _ := m["tok"].(string)
		return s
	}
	s, _ := params[0].(string)
	return s
}

// tokChance is true for one in n tokens.
func tokChance(tok string, n uint64) bool {
	return hash64(tok)*0x9E3779B97F4A7C15>>40%n == 0
}

type c20call struct {
	tok   string
	m     jlib.Message
	req   *jlib.RequestMessage
	runs  bool // the handler must run
	multi int  // how often it is sent
}

func genC20msg(rng *rand.Rand, k int, trace func() string) *c20call {
	c := &c20call{tok: fmt.Sprintf("tok-%d", k), runs: true}
	method := pick(rng, "ok", "ok", "child", "rpcerr", "err", "panic", "chan", "gated", "typed", "nope")
	var params any
	switch {
	case method == "typed":
		params = []any{c.tok, rng.IntN(100)}
		if rng.IntN(3) == 0 {
			params = []any{c.tok, "no number"}
			c.runs = false
		}
	case method == "gated":
		l := []any{c.tok, rng.IntN(9)}
		if rng.IntN(2) == 0 {
			l = append(l, "bad")
			c.runs = false
		}
		params = l
	case rng.IntN(3) == 0:
		o := genObject(rng, 2)
		o["tok"] = c.tok
		params = o
	default:
		params = append([]any{c.tok}, genList(rng, 2)...)
	}
	if method == "nope" {
		c.runs = false
	}
	if rng.IntN(4) == 0 && method != "rpcerr" && method != "err" && method != "panic" && method != "typed" && method != "gated" {
		c.m = jlib.NewNotifyMessage(method, params)
	} else {
		c.req = jlib.NewRequestMessage(pick[any](rng, k, fmt.Sprint("id", k), 7), method, params)
		c.m = c.req
	}
	c.m.SetTraceId(trace())
	return c
}

func oneC20(r *Run, i int) {
	rng := r.Rand("stream", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	n := 1 + rng.IntN(16)
	ncl := 1 + rng.IntN(3)
	c := map[string]any{"i": i, "proto": proto, "messages": n, "clients": ncl}
	r.world("C20", c, rng, func(w *world) {
		book := newC20book()
		spawn := rng.IntN(2) == 0
		late := spawn && rng.IntN(3) == 0
		c["late"] = late
		actor := c20actor(book, func(tok string) {
			if late && tokChance(tok, 4) {
				// the call times out and gets an error of the client's own
				time.Sleep(15 * time.Second)
			}
			time.Sleep(time.Duration(hash64(tok)%50) * time.Millisecond)
		})
		w.serve("srv", w.handlerFor(proto, actor, spawn), tlsFor(proto))
		if rng.IntN(2) == 0 {
			w.Net.Plan = Jitter(rng, 0, 1+rng.IntN(200))
		}
		var cls []jlibhttp.Streamable
		for k := 0; k < ncl; k++ {
			cls = append(cls, w.clientTLS(proto, "srv", clientTLSFor(proto)))
		}
		runC20(r, rng, c, book, n, func(k int) jlibhttp.Client { return cls[k%ncl] }, ncl,
			func() string { return pick(rng, "", "same", genTrace(rng), genTrace(rng)) },
			func(f func()) bool { return await(time.Hour, f) }, func() { time.Sleep(time.Minute) })
		r.Count("over_"+proto, 1)
	})
}

// runC20 sends messages of a book and judges trace ids and objects.
func runC20(r *Run, rng *rand.Rand, c map[string]any, book *c20book, n int, cl func(int) jlibhttp.Client, ncl int, trace func() string, within func(func()) bool, settle func()) {
	ctx := context.Background()
	var msgs []*c20call
	key := ""
	for k := 0; k < n; k++ {
		m := genC20msg(rng, k, trace)
		m.multi = 1
		if rng.IntN(3) == 0 {
			m.multi = 2 + rng.IntN(3)
		}
		if c["late"] == true {
			// the id of a timed out call isn't used again
			m.multi = 1
			if m.req != nil && m.req.Id == 7 {
				m.req.Id = fmt.Sprint("seven", k)
			}
		}
		book.put(m.tok, m.m)
		msgs = append(msgs, m)
		key += fmt.Sprintf("%s*%d,", kindOf(m.m)+m.m.MustMethod(), m.multi)
	}
	together := rng.IntN(2) == 0
	var wg sync.WaitGroup
	var nmu sync.Mutex
	good := map[string]int{}
	do := func(m *c20call, k int) {
		defer r.recoverCase("C20", c)
		x := cl(k)
		cc := map[string]any{"case": c, "message": book.face[m.tok]}
		if m.req == nil {
			if err := x.Send(ctx, m.m); err != nil {
				r.Violate("C20:send", cc, "notify: %v", err)
				return
			}
		} else {
			var res jlib.Message
			var err error
			if tokChance(m.tok+fmt.Sprint("/", k), 4) {
				var out any
				err = x.UnwrapCall(ctx, m.req, &out)
				var rpc *jlib.RPCError
				if err != nil && !errors.As(err, &rpc) {
					r.Violate("C20:call", cc, "unwrapping: %v", err)
					return
				}
			} else {
				res, err = x.Call(ctx, m.req)
				if err != nil || res == nil {
					r.Violate("C20:call", cc, "call: %v %v", res, err)
					return
				}
				if res.TraceId() != m.req.TraceId() {
					r.Violate("C20:response-trace", cc, "the response has trace id %q, the request %q", res.TraceId(), m.req.TraceId())
				}
				if canon(res.MustId()) != canon(m.req.Id) {
					r.Violate("C20:response-id", cc, "the response has id %v, the request %v", res.MustId(), m.req.Id)
				}
				if e, ok := res.(*jlib.ErrorMessage); ok && e.Error != nil && e.Error.Code == jlib.ErrTimeout.Code {
					r.Count("timeouts", 1)
				}
				if res.IsError() {
					r.Count("errors", 1)
				} else {
					r.Count("results", 1)
				}
			}
		}
		if f := msgFace(m.m); f != book.face[m.tok] {
			r.Violate("C20:object", cc, "after the call the message is %s", f)
		}
		nmu.Lock()
		good[m.tok]++
		nmu.Unlock()
	}
	for k, m := range msgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if together {
				var in sync.WaitGroup
				for j := 0; j < m.multi; j++ {
					in.Add(1)
					go func() {
						defer in.Done()
						do(m, k+j)
					}()
				}
				in.Wait()
			} else {
				for j := 0; j < m.multi; j++ {
					do(m, k+j)
				}
			}
		}()
	}
	if !within(wg.Wait) {
		r.Inconclusive("C20 %v: the calls did not return", c)
		return
	}
	settle()
	for _, m := range msgs {
		cc := map[string]any{"case": c, "message": book.face[m.tok]}
		if s := book.after(m.tok); s != "" {
			r.Violate("C20:trace", cc, "%s", s)
		}
		book.mu.Lock()
		seen := book.seen[m.tok]
		book.mu.Unlock()
		if want := m.multi; m.runs && good[m.tok] == want && seen != want {
			if m.req != nil {
				r.Violate("C20:runs", cc, "sent %d times, the handler ran %d times", want, seen)
			}
		}
		r.Count("sent_again", m.multi-1)
		if m.m.TraceId() != "" {
			r.Count("traced", 1)
		}
	}
	r.Eval(fmt.Sprintf("%v %v %d %v %s", c["proto"], c["tls"], ncl, together, key))
	if hash64(key)%97 == 0 {
		r.Sample(map[string]any{"case": c, "messages": key})
	}
}

// headerTrace makes trace ids a header field can carry.
func headerTrace(rng *rand.Rand) string {
	t := genTrace(rng)
	if !wireSafe(t) || strings.TrimSpace(t) != t {
		return fmt.Sprintf("h-%d", rng.IntN(1000))
	}
	return t
}

// oneC20loop does it with jlib clients of all schemes at once against a
// loopback gateway.
func oneC20loop(r *Run, i int) {
	rng := r.Rand("loop", i)
	useTLS := rng.IntN(3) == 0
	mode := pick(rng, "h1", "h1", "all", "gateway-h1")
	n := 1 + rng.IntN(12)
	c := map[string]any{"i": i, "proto": "loop " + mode, "tls": useTLS, "messages": n}
	r.Journal(c)
	defer r.recoverCase("C20", c)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	book := newC20book()
	actor := c20actor(book, func(tok string) { time.Sleep(time.Duration(hash64(tok)%2000) * time.Microsecond) })
	var h http.Handler = jlibhttp.NewH1Handler(actor)
	fams := []string{"http"}
	if mode != "h1" {
		h = jlibhttp.NewGatewayHandler(ctx, actor, !useTLS)
	}
	if mode == "all" {
		fams = []string{"http", "ws", "h2"}
	}
	srv := r.loopServe(h, useTLS)
	defer srv.Close()
	var cls []jlibhttp.Client
	for _, f := range fams {
		cl, err := srv.client(f)
		if err != nil {
			r.Violate("C20:client", c, "%s: %v", f, err)
			return
		}
		defer closeClient(cl)
		cls = append(cls, cl)
	}
	runC20(r, rng, c, book, n, func(k int) jlibhttp.Client { return cls[k%len(cls)] }, len(cls),
		func() string {
			return pick(rng, "", "same", genTrace(rng), headerTrace(rng), " x ", "a\nb", "\t", "a\r\nX-Other: 1", "\x7f")
		},
		func(f func()) bool { return realWait(100*time.Second, f) }, func() {})
	r.Count("over_loopback_"+mode, 1)
}

var _ = json.Number("")
