package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	pkgerrors "github.com/pkg/errors"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// outcome is what a handler does with a message and what its caller gets.
type outcome struct {
	kind   string
	run    func(req *jlibhttp.RPCRequest) (any, error)
	result any // expected, nil code
	isErr  bool
	code   int
	msg    string // "" any
	data   any
	anyMsg bool
	delay  time.Duration
}

type nanCarrier struct {
	F float64 `json:"f"`
}

type badMarshal struct{}

func (badMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New("no json for you") }

// the predefined errors, and what they are at the start
var (
	sharedErrs = []*jlib.RPCError{jlib.ErrServerError, jlib.ErrNilId, jlib.ErrMethodNotFound, jlib.ErrParseMessage,
		jlib.ErrInvalidRequest, jlib.ErrInternalError, jlib.ErrTimeout, jlib.ErrBadResource, jlib.ErrLiveExit,
		jlib.ErrNotAllowed, jlib.ErrAuthFailed, jlib.ErrInvalidSchema}
	sharedText = func() (out []jlib.RPCError) {
		for _, e := range sharedErrs {
			out = append(out, *e)
		}
		return
	}()
)

func genOutcome(rng *rand.Rand) outcome {
	o := outcome{}
	internal := func(kind string, run func(req *jlibhttp.RPCRequest) (any, error)) {
		o.kind, o.run, o.isErr, o.code, o.anyMsg = kind, run, true, -32603, true
	}
	mk := func() *jlib.RPCError {
		e := &jlib.RPCError{Code: rng.IntN(70000) - 35000, Message: genString(rng)}
		if rng.IntN(2) == 0 {
			e.Data = genValue(rng, 2)
		}
		return e
	}
	rpc := func(kind string, e *jlib.RPCError, run func(req *jlibhttp.RPCRequest) (any, error)) {
		o.kind, o.run, o.isErr, o.code, o.msg, o.data = kind, run, true, e.Code, e.Message, e.Data
	}
	val := genValue(rng, 3)
	for strings.HasPrefix(canon(val), "!") {
		val = genValue(rng, 3)
	}
	switch rng.IntN(26) {
	default:
		o.kind, o.result = "value", val
		o.run = func(*jlibhttp.RPCRequest) (any, error) { return val, nil }
	case 1:
		e := mk()
		rpc("rpcerror", e, func(*jlibhttp.RPCRequest) (any, error) { return nil, e })
	case 2:
		e := mk()
		rpc("rpcerror-with-value", e, func(*jlibhttp.RPCRequest) (any, error) { return val, e })
	case 3:
		e := mk()
		rpc("wrapped", e, func(*jlibhttp.RPCRequest) (any, error) { return nil, fmt.Errorf("outer: %w", e) })
	case 4:
		e := mk()
		rpc("pkg-wrapped", e, func(*jlibhttp.RPCRequest) (any, error) { return nil, pkgerrors.Wrap(e, "outer") })
	case 5:
		e := mk()
		rpc("panic-rpcerror", e, func(*jlibhttp.RPCRequest) (any, error) { panic(e) })
	case 6:
		e := mk()
		rpc("panic-wrapped", e, func(*jlibhttp.RPCRequest) (any, error) { panic(fmt.Errorf("outer: %w", e)) })
	case 7:
		internal("error", func(*jlibhttp.RPCRequest) (any, error) { return nil, errors.New("plain") })
	case 8:
		internal("panic-error", func(*jlibhttp.RPCRequest) (any, error) { panic(errors.New("plain")) })
	case 9:
		internal("panic-nilmap", func(*jlibhttp.RPCRequest) (any, error) {
			var m map[string]int
			m["x"] = 1
			return nil, nil
		})
	case 10:
		internal("panic-index", func(*jlibhttp.RPCRequest) (any, error) {
			var a []int
			return a[len(a)], nil
		})
	case 11:
		internal("chan", func(*jlibhttp.RPCRequest) (any, error) { return []any{1, func() {}}, nil })
	case 12:
		internal("nan", func(*jlibhttp.RPCRequest) (any, error) { return nanCarrier{math.NaN()}, nil })
	case 13:
		internal("marshaler", func(*jlibhttp.RPCRequest) (any, error) { return map[string]any{"x": badMarshal{}}, nil })
	case 14:
		e := &jlib.RPCError{Code: 5, Message: "bad data", Data: map[string]any{"f": math.Inf(1)}}
		internal("rpcerror-baddata", func(*jlibhttp.RPCRequest) (any, error) { return nil, e })
	case 15:
		o.kind, o.result = "message", val
		o.run = func(req *jlibhttp.RPCRequest) (any, error) { return jlib.NewResultMessage(req.Msg(), val), nil }
	case 16:
		e := mk()
		rpc("error-message", e, func(req *jlibhttp.RPCRequest) (any, error) { return jlib.NewErrorMessage(req.Msg(), e), nil })
	case 17:
		big := strings.Repeat("0123456789", 1+rng.IntN(8000))
		o.kind, o.result = "big", big
		o.run = func(*jlibhttp.RPCRequest) (any, error) { return big, nil }
	case 18, 19:
		// the errors jlib defines are shared by everyone
		k := rng.IntN(len(sharedErrs))
		e := sharedText[k]
		rpc("shared", &e, func(*jlibhttp.RPCRequest) (any, error) { return nil, sharedErrs[k] })
	case 20, 21:
		k := rng.IntN(len(sharedErrs))
		e := sharedText[k]
		e.Data = genValue(rng, 2)
		rpc("shared-withdata", &e, func(*jlibhttp.RPCRequest) (any, error) { return nil, sharedErrs[k].WithData(e.Data) })
	case 22:
		text := genString(rng)
		rpc("paramserror", &jlib.RPCError{Code: -32602, Message: text}, func(*jlibhttp.RPCRequest) (any, error) { return nil, jlib.ParamsError(text) })
	}
	if rng.IntN(3) == 0 {
		o.delay = time.Duration(rng.IntN(3000)) * time.Millisecond
	}
	return o
}

// checkResponse judges one response document.
func (o *outcome) checkResponse(doc map[string]any, trace string, method string) string {
	if doc["jsonrpc"] != "2.0" {
		return "no jsonrpc 2.0 member"
	}
	if t, _ := doc["traceid"].(string); t != trace {
		return fmt.Sprintf("trace id %q, want %q", t, trace)
	}
	want := 3
	if trace != "" {
		want++
	}
	if len(doc) != want {
		return fmt.Sprintf("%d members, want %d", len(doc), want)
	}
	if !o.isErr {
		res, ok := doc["result"]
		if !ok {
			return "no result"
		}
		if canon(res) != canon(o.result) {
			return "another result than " + clip(canon(o.result), 300)
		}
		return ""
	}
	e, ok := doc["error"].(map[string]any)
	if !ok {
		return "no error object"
	}
	if canon(e["code"]) != fmt.Sprint(o.code) {
		return fmt.Sprintf("error code %v, want %d", e["code"], o.code)
	}
	if _, ok := e["message"].(string); !ok {
		return "no error message"
	}
	if !o.anyMsg {
		if canon(e["message"]) != canon(o.msg) {
			return fmt.Sprintf("error message %q, want %q", e["message"], o.msg)
		}
		d, has := e["data"]
		if has != (o.data != nil) || has && canon(d) != canon(o.data) {
			return fmt.Sprintf("error data %v, want %v", d, o.data)
		}
	}
	return ""
}

type sent struct {
	o      outcome
	id     any
	notify bool
	trace  string
	method string
	runs   int
}

func driveC09(r *Run) {
	r.Rule("raw peers on HTTP/1, WebSocket and HTTP/2 (plain and TLS, own handlers and gateway) send random mixes of requests and notifies with 22 kinds of handler outcome, delays, latency and fragmentation, and collect every document that comes back; non-trivial: distinct (transport, outcome, delayed)")
	n := r.N(360, 15000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC09(r, i)
		}
	}
	r.bigSessions("C09", 16, 800)
	r.bigPosts("C09", 30, 1500)
}

func oneC09(r *Run, i int) {
	rng := r.Rand("mix", i)
	proto := pick(rng, "ws", "h2c", "h1", "ws", "h2c", "h1", "wss", "h2")
	gateway := rng.IntN(3) == 0
	spawn := rng.IntN(4) != 0
	nmsg := 5 + rng.IntN(30)
	if rng.IntN(12) == 0 {
		nmsg = 150 + rng.IntN(150)
	}
	c := map[string]any{"i": i, "proto": proto, "gateway": gateway, "spawn": spawn, "messages": nmsg}
	r.world("C09", c, rng, func(w *world) {
		if rng.IntN(3) == 0 {
			w.Net.Plan = Jitter(rng, time.Duration(rng.IntN(200))*time.Millisecond, 1+rng.IntN(700))
		}
		var mu sync.Mutex
		msgs := map[string]*sent{}
		actor := jlibhttp.NewActor()
		child := jlibhttp.NewActor()
		actor.AddChild(child)
		h := func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			k, _ := params[0].(string)
			mu.Lock()
			s := msgs[k]
			if s != nil {
				s.runs++
			}
			mu.Unlock()
			if s == nil {
				return nil, errors.New("unknown key")
			}
			time.Sleep(s.o.delay)
			return s.o.run(req)
		}
		must(actor.OnRequest("do", h))
		must(child.OnRequest("kid", h))
		hasMissing := rng.IntN(2) == 0
		if hasMissing {
			must(actor.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) { return h(req, req.Msg().MustParams()) }))
		}
		tl := tlsFor(proto)
		switch {
		case gateway:
			w.serve("srv", jlibhttp.NewGatewayHandler(w.Ctx, actor, tl == nil), tl)
		case proto == "h1":
			w.serve("srv", jlibhttp.NewH1Handler(actor), nil)
		default:
			w.serve("srv", w.handlerFor(proto, actor, spawn), tl)
		}
		var list []*sent
		texts := []string{}
		for k := 0; k < nmsg; k++ {
			s := &sent{o: genOutcome(rng), trace: "", method: pick(rng, "do", "do", "kid", "other")}
			if nmsg > 100 {
				s.o.delay = 0
			}
			key := fmt.Sprintf("m%d", k)
			if s.method == "other" && !hasMissing {
				s.o = outcome{kind: "notfound", isErr: true, code: -32601, anyMsg: true}
			}
			if rng.IntN(3) == 0 {
				s.trace = genTrace(rng)
				for strings.ContainsAny(s.trace, "\n\r\x00") || strings.TrimSpace(s.trace) != s.trace || !isPrint(s.trace) {
					s.trace = genTrace(rng)
				}
			}
			s.notify = rng.IntN(5) == 0
			doc := map[string]any{"jsonrpc": "2.0", "method": s.method, "params": []any{key, genValue(rng, 1)}}
			if s.notify {
				// failing notifies are another matter
				for s.o.isErr && s.o.kind != "notfound" || s.o.kind == "message" {
					s.o = genOutcome(rng)
				}
			} else {
				if rng.IntN(2) == 0 {
					s.id = json.Number(fmt.Sprint(k - 3))
				} else {
					s.id = fmt.Sprintf("id %d \"%s", k, genString(rng))
				}
				doc["id"] = s.id
			}
			if s.trace != "" {
				doc["traceid"] = s.trace
			}
			msgs[key] = s
			list = append(list, s)
			texts = append(texts, rawJSON(rng, doc))
		}
		got := map[string][]map[string]any{}
		var ended error
		if proto == "h1" {
			var wg sync.WaitGroup
			for k := range list {
				wg.Add(1)
				go func() {
					defer wg.Done()
					resp, body, err := w.h1Post("srv", []byte(texts[k]), nil)
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						w.violate("h1", "request %s: %v", texts[k], err)
						return
					}
					if list[k].notify {
						if len(body) != 0 || resp.StatusCode != 200 {
							w.violate("notify", "%s notify got status %d body %q", list[k].o.kind, resp.StatusCode, body)
						}
						return
					}
					doc, err := oneObject(body)
					if err != nil || resp.StatusCode != 200 {
						w.violate("answer", "outcome %s: request %s got status %d body %q", list[k].o.kind, texts[k], resp.StatusCode, clip(string(body), 500))
						return
					}
					if t := resp.Header.Get("X-Trace-Id"); t != "" {
						doc["traceid"] = t // where HTTP/1 carries it
					}
					if canon(doc["id"]) != canon(list[k].id) {
						w.violate("id", "request %s got %s", texts[k], body)
						return
					}
					got[canon(list[k].id)] = append(got[canon(list[k].id)], doc)
				}()
			}
			wg.Wait()
		} else {
			peer, _, err := w.dialRaw(proto, "srv", nil)
			if err != nil {
				w.violate("connect", "a plain peer cannot connect: %v", err)
				return
			}
			stop := make(chan struct{})
			go func() {
				defer close(stop)
				if rng.IntN(4) == 0 {
					time.Sleep(5 * time.Second) // a slow reader
				}
				for {
					d, err := peer.ReadRaw()
					mu.Lock()
					if err != nil {
						ended = err
						mu.Unlock()
						return
					}
					doc, derr := oneObject(d)
					if derr != nil {
						w.violate("document", "the session got %q", clip(string(d), 500))
					}
					got[canon(doc["id"])] = append(got[canon(doc["id"])], doc)
					mu.Unlock()
				}
			}()
			wrote := make(chan error, 1)
			go func() {
				for _, t := range texts {
					if err := peer.WriteRaw([]byte(t)); err != nil {
						wrote <- err
						return
					}
				}
				wrote <- nil
			}()
			select {
			case err := <-wrote:
				if err != nil {
					w.violate("ended", "the session does not take all messages: %v", err)
				}
			case <-time.After(time.Hour):
				w.violate("stuck", "the session does not take all messages")
			}
			time.Sleep(time.Hour)
			mu.Lock()
			if ended != nil {
				w.violate("ended", "the session of well-formed requests ended: %v", ended)
			}
			mu.Unlock()
			peer.Close()
			<-stop
		}
		mu.Lock()
		defer mu.Unlock()
		for k, s := range list {
			wantRuns := 1
			if s.o.kind == "notfound" {
				wantRuns = 0
			}
			if s.runs != wantRuns {
				w.violate("runs", "the handler of message %s ran %d times", texts[k], s.runs)
			}
			r.Eval(fmt.Sprintf("%s %v %s %v %v", proto, gateway, s.o.kind, s.notify, s.o.delay > 0))
			r.Count("outcome_"+s.o.kind, 1)
			if s.notify {
				continue
			}
			ds := got[canon(s.id)]
			delete(got, canon(s.id))
			if len(ds) != 1 {
				w.violate("count", "outcome %s: request %s got %d responses", s.o.kind, clip(texts[k], 300), len(ds))
				continue
			}
			if why := s.o.checkResponse(ds[0], s.trace, s.method); why != "" {
				w.violate("response", "outcome %s: request %s got %s: %s", s.o.kind, clip(texts[k], 300), clip(canon(ds[0]), 500), why)
			}
		}
		for id, ds := range got {
			w.violate("surplus", "response nobody asked for with id %s: %s", id, canon(ds[0]))
		}
		if i%61 == 0 {
			r.Sample(map[string]any{"proto": proto, "first": texts[0], "messages": nmsg})
		}
	})
}

func isPrint(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

// oneObject decodes exactly one JSON object.
func oneObject(data []byte) (map[string]any, error) {
	dec := json.NewDecoder(strings.NewReader(string(data)))
	dec.UseNumber()
	var m map[string]any
	if err := dec.Decode(&m); err != nil {
		return map[string]any{}, err
	}
	if strings.TrimSpace(string(data[dec.InputOffset():])) != "" {
		return m, errors.New("trailing data")
	}
	return m, nil
}
