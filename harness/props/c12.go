package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// reqIn is a request as a raw server sees it.
type reqIn struct {
	id     any
	method string
	params []any
	trace  string
}

func parseReqIn(d []byte) (reqIn, error) {
	m, err := oneObject(d)
	if err != nil {
		return reqIn{}, err
	}
	q := reqIn{id: m["id"]}
	q.method, _ = m["method"].(string)
	q.params, _ = m["params"].([]any)
	q.trace, _ = m["traceid"].(string)
	if m["jsonrpc"] != "2.0" || q.method == "" || m["params"] == nil {
		return q, fmt.Errorf("not a request: %s", clip(string(d), 300))
	}
	return q, nil
}

// token is the first param of a message the harness makes.
func (q reqIn) token() string {
	if len(q.params) == 0 {
		return ""
	}
	s, _ := q.params[0].(string)
	return s
}

func resultDoc(id any, trace string, result any) map[string]any {
	m := map[string]any{"jsonrpc": "2.0", "id": id, "result": result}
	if trace != "" {
		m["traceid"] = trace
	}
	return m
}

func errorDoc(id any, trace string, code int, msg string, data any) map[string]any {
	e := map[string]any{"code": code, "message": msg}
	if data != nil {
		e["data"] = data
	}
	m := map[string]any{"jsonrpc": "2.0", "id": id, "error": e}
	if trace != "" {
		m["traceid"] = trace
	}
	return m
}

type oddId struct{ A, B int }

// genCallId makes ids a Go caller may use.
func genCallId(rng *rand.Rand) any {
	switch rng.IntN(12) {
	case 0:
		return 1
	case 1:
		return "1"
	case 2:
		return int64(1)
	case 3:
		return uint8(rng.IntN(3))
	case 4:
		return json.Number("1")
	case 5:
		return 1.5
	case 6:
		return rng.IntN(4)
	case 7:
		return fmt.Sprint(rng.IntN(4))
	case 8:
		return oddId{1, rng.IntN(2)}
	case 9:
		return true
	}
	return genId(rng)
}

func driveC12(r *Run) {
	r.Rule("concurrent calls through one client with colliding ids of many types, a raw server answering in permuted order with delays and fragmentation, jlib servers with random handler delays, and calls given up at the moment their answers arrive; non-trivial: distinct (transport, server, calls in flight, id types, order of answers)")
	n := r.N(1200, 60000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC12(r, i)
		}
	}
	n = r.N(400, 20000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			abandonC12(r, i)
		}
	}
	h := r.N(36, 600)
	for i := 0; i < h; i++ {
		if r.Mine(i) {
			oneC12h1(r, i)
		}
	}
	r.bigSessions("C12", 24, 1000)
}

type callOut struct {
	id    any
	token string
	msg   jlib.Message
	err   error
	ended bool
}

func callKey(q reqIn) string { return q.token() }

// expectAnswer is what the server answers to a token.
func expectAnswer(token string) (result any, code int) {
	h := hash64(token)
	if h%5 == 0 {
		return nil, int(h%1000) + 1
	}
	return map[string]any{"token": token, "n": []any{json.Number(fmt.Sprint(h)), strings.Repeat("x", int(h%700))}}, 0
}

func answerDoc(q reqIn) map[string]any {
	res, code := expectAnswer(q.token())
	if code != 0 {
		return errorDoc(q.id, q.trace, code, "no "+q.token(), map[string]any{"t": q.token()})
	}
	return resultDoc(q.id, q.trace, res)
}

// judgeAnswer compares what a call returned with what belongs to its token.
func judgeAnswer(o *callOut) string {
	if o.err != nil {
		return fmt.Sprintf("error %v", o.err)
	}
	if o.msg == nil {
		return "neither message nor error"
	}
	if !o.msg.IsResultOrError() {
		return "a message which is no response"
	}
	if got := o.msg.MustId(); !reflect.DeepEqual(got, o.id) {
		return fmt.Sprintf("id %#v instead of %#v", got, o.id)
	}
	res, code := expectAnswer(o.token)
	if code != 0 {
		if !o.msg.IsError() {
			return "a result instead of its error"
		}
		e := o.msg.MustError()
		if e.Code != code || e.Message != "no "+o.token || canon(e.Data) != canon(map[string]any{"t": o.token}) {
			return fmt.Sprintf("another error: %v", e)
		}
		return ""
	}
	if !o.msg.IsResult() {
		return fmt.Sprintf("an error instead of its result: %v", o.msg.MustError())
	}
	if canon(o.msg.MustResult()) != canon(res) {
		return "another result: " + clip(canon(o.msg.MustResult()), 300)
	}
	return ""
}

func oneC12(r *Run, i int) {
	rng := r.Rand("calls", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	ncalls := 1 + rng.IntN(8)
	if rng.IntN(4) == 0 {
		ncalls = 20 + rng.IntN(120)
	}
	raw := rng.IntN(3) != 0
	connectFirst := rng.IntN(2) == 0
	mode := pick(rng, "reverse", "shuffle", "delay", "fifo", "batches")
	idmode := pick(rng, "equal", "mix", "random")
	c := map[string]any{"i": i, "proto": proto, "calls": ncalls, "raw": raw, "mode": mode, "ids": idmode, "connected": connectFirst}
	r.world("C12", c, rng, func(w *world) {
		if rng.IntN(2) == 0 {
			lat := time.Duration(rng.IntN(100)) * time.Millisecond
			if !connectFirst {
				lat = 0 // callers wait for the lock of the one connecting
			}
			w.Net.Plan = Jitter(rng, lat, 1+rng.IntN(300))
		}
		var sessions atomic.Int32
		var orderMu sync.Mutex
		var order []string
		seed := rng.Uint64()
		if raw {
			srng := rand.New(rand.NewPCG(seed, 1))
			w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) {
				sessions.Add(1)
				serveAnswers(w, rc, srng, mode, ncalls, func(tok string) {
					orderMu.Lock()
					order = append(order, tok)
					orderMu.Unlock()
				})
			})
		} else {
			var mu sync.Mutex
			srng := rand.New(rand.NewPCG(seed, 2))
			actor := jlibhttp.NewActor()
			var seen sync.Map
			must(actor.OnRequest("do", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
				if _, loaded := seen.LoadOrStore(req.Session().SessionID(), true); !loaded {
					sessions.Add(1)
				}
				mu.Lock()
				d := time.Duration(srng.IntN(3000)) * time.Millisecond
				mu.Unlock()
				time.Sleep(d)
				tok, _ := params[0].(string)
				orderMu.Lock()
				order = append(order, tok)
				orderMu.Unlock()
				res, code := expectAnswer(tok)
				if code != 0 {
					return nil, &jlib.RPCError{Code: code, Message: "no " + tok, Data: map[string]any{"t": tok}}
				}
				return res, nil
			}))
			w.serve("srv", w.handlerFor(proto, actor, true), tlsFor(proto))
		}
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		var strayMu sync.Mutex
		var stray []string
		must(cl.OnMessage(func(m jlib.Message) {
			strayMu.Lock()
			defer strayMu.Unlock()
			stray = append(stray, jlib.MessageString(m))
		}))
		if connectFirst {
			if err := cl.Connect(w.Ctx); err != nil {
				w.violate("connect", "connect: %v", err)
				return
			}
		}
		outs := make([]*callOut, ncalls)
		reqs := make([]*jlib.RequestMessage, ncalls)
		starts := make([]time.Duration, ncalls)
		same := genCallId(rng)
		for k := range outs {
			o := &callOut{token: fmt.Sprintf("t%d-%d", i, k)}
			switch idmode {
			case "equal":
				o.id = same
			case "mix":
				o.id = genCallId(rng)
			default:
				o.id = genId(rng)
			}
			outs[k] = o
			reqs[k] = mkReq(o.id, "do", o.token, genValue(rng, 1))
			if rng.IntN(3) == 0 {
				reqs[k].SetTraceId(fmt.Sprintf("tr%d", k))
			}
			if rng.IntN(4) == 0 {
				starts[k] = time.Duration(rng.IntN(2000)) * time.Millisecond
			}
		}
		var wg sync.WaitGroup
		for k, o := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(starts[k])
				m, err := cl.Call(w.Ctx, reqs[k])
				strayMu.Lock()
				o.msg, o.err, o.ended = m, err, true
				strayMu.Unlock()
			}()
		}
		if !await(time.Minute, wg.Wait) {
			strayMu.Lock()
			for _, o := range outs {
				if !o.ended {
					w.violate("stuck", "call %s with id %#v has not returned", o.token, o.id)
				}
			}
			strayMu.Unlock()
			return
		}
		types := map[string]bool{}
		for _, o := range outs {
			if why := judgeAnswer(o); why != "" {
				w.violate("answer", "call %s with id %#v got %s", o.token, o.id, why)
			}
			types[fmt.Sprintf("%T", o.id)] = true
		}
		strayMu.Lock()
		if len(stray) > 0 {
			w.violate("stray", "responses handed to the message handler: %v", stray)
		}
		strayMu.Unlock()
		if n := sessions.Load(); n != 1 {
			w.violate("sessions", "%d connections for one client", n)
		}
		orderMu.Lock()
		key := fmt.Sprintf("%s %v %s %v %s", proto, raw, idmode, types, order)
		if len(order) != ncalls {
			w.violate("requests", "the server handled %d requests for %d calls", len(order), ncalls)
		}
		orderMu.Unlock()
		r.Eval(key)
		r.Count("calls", ncalls)
		r.Count("calls_"+proto, ncalls)
		if i%211 == 0 {
			r.Sample(c)
		}
	})
}

// serveAnswers reads requests and answers each exactly once.
func serveAnswers(w *world, rc rawConn, rng *rand.Rand, mode string, total int, note func(string)) {
	in := make(chan reqIn, 1000)
	go func() {
		defer close(in)
		for {
			d, err := rc.ReadRaw()
			if err != nil {
				return
			}
			q, err := parseReqIn(d)
			if err != nil {
				w.violate("wire", "the client sent %v", err)
				return
			}
			in <- q
		}
	}()
	var mu sync.Mutex
	answer := func(q reqIn) {
		mu.Lock()
		text := rawJSON(rng, answerDoc(q))
		mu.Unlock()
		note(q.token())
		rc.WriteRaw([]byte(text))
	}
	var wg sync.WaitGroup
	defer wg.Wait()
	var held []reqIn
	flush := func() {
		switch mode {
		case "reverse":
			for k := len(held) - 1; k >= 0; k-- {
				answer(held[k])
			}
		default:
			for _, k := range rng.Perm(len(held)) {
				answer(held[k])
			}
		}
		held = nil
	}
	batch := 1 + rng.IntN(10)
	tick := time.NewTicker(3 * time.Second)
	defer tick.Stop()
	for {
		select {
		case q, ok := <-in:
			if !ok {
				return
			}
			switch mode {
			case "fifo":
				answer(q)
			case "delay":
				mu.Lock()
				d := time.Duration(rng.IntN(8000)) * time.Millisecond
				mu.Unlock()
				wg.Add(1)
				time.AfterFunc(d, func() {
					defer wg.Done()
					answer(q)
				})
			default:
				held = append(held, q)
				if mode == "batches" && len(held) >= batch {
					flush()
				}
			}
		case <-tick.C:
			flush()
		}
	}
}

// oneC12h1 does the same over HTTP/1 on the loopback.
func oneC12h1(r *Run, i int) {
	rng := r.Rand("h1", i)
	ncalls := 5 + rng.IntN(60)
	raw := rng.IntN(2) == 0
	useTLS := rng.IntN(3) == 0
	c := map[string]any{"i": i, "proto": "h1", "calls": ncalls, "raw": raw, "tls": useTLS}
	r.Journal(c)
	defer r.recoverCase("C12", c)
	var h http.Handler
	if raw {
		h = http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			var b bytes.Buffer
			b.ReadFrom(q.Body)
			in, err := parseReqIn(b.Bytes())
			if err != nil {
				r.Violate("C12:wire", c, "the client sent %v", err)
				rw.WriteHeader(400)
				return
			}
			hs := hash64(in.token())
			time.Sleep(time.Duration(hs%20) * time.Millisecond)
			d, _ := json.Marshal(answerDoc(in))
			for len(d) > 0 {
				k := 1 + int(hs%97)
				if k > len(d) {
					k = len(d)
				}
				rw.Write(d[:k])
				rw.(http.Flusher).Flush()
				d = d[k:]
			}
		})
	} else {
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("do", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			tok, _ := params[0].(string)
			time.Sleep(time.Duration(hash64(tok)%20) * time.Millisecond)
			res, code := expectAnswer(tok)
			if code != 0 {
				return nil, &jlib.RPCError{Code: code, Message: "no " + tok, Data: map[string]any{"t": tok}}
			}
			return res, nil
		}))
		h = jlibhttp.NewH1Handler(actor)
	}
	s := r.loopServe(h, useTLS)
	defer s.Close()
	cl, err := jlibhttp.NewClient(s.URL("http"), jlibhttp.ClientOptions{Timeout: 120})
	if err != nil {
		r.Violate("C12:client", c, "NewClient: %v", err)
		return
	}
	if useTLS {
		cl.SetClientTLSConfig(certs().client)
	}
	outs := make([]*callOut, ncalls)
	var wg sync.WaitGroup
	same := genCallId(rng)
	for k := range outs {
		// the response of HTTP/1 carries the id as JSON has it
		id := genId(rng)
		if rng.IntN(2) == 0 {
			id = same
			switch same.(type) {
			case int, string:
			default:
				id = 7
			}
		}
		o := &callOut{token: fmt.Sprintf("t%d-%d", i, k), id: id}
		outs[k] = o
		msg := mkReq(id, "do", o.token)
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.msg, o.err = cl.Call(context.Background(), msg)
		}()
	}
	wg.Wait()
	for _, o := range outs {
		if why := judgeAnswer(o); why != "" {
			w := "answer"
			if o.err != nil && errors.Is(o.err, context.DeadlineExceeded) {
				r.Inconclusive("C12 h1 call timed out on a loaded machine: %v", o.err)
				continue
			}
			r.Violate("C12:"+w, c, "call %s with id %#v got %s", o.token, o.id, why)
		}
	}
	closeIdle(cl)
	r.Eval(fmt.Sprintf("h1 %v %v %d", raw, useTLS, ncalls))
	r.Count("calls", ncalls)
	r.Count("calls_h1", ncalls)
}
