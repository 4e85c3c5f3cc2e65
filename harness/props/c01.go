package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"

	"github.com/superisaac/jlib"
)

// msgView is what can be observed of a message.
type msgView struct {
	Kind, Id, Method, Params, Result, Error, Trace string
}

func kindOf(m jlib.Message) string {
	k := ""
	n := 0
	add := func(b bool, s string) {
		if b {
			k += s
			n++
		}
	}
	add(m.IsRequest(), "request")
	add(m.IsNotify(), "notify")
	add(m.IsResult(), "result")
	add(m.IsError(), "error")
	if n != 1 {
		return fmt.Sprintf("kinds(%s)", k)
	}
	if m.IsRequestOrNotify() != (m.IsRequest() || m.IsNotify()) || m.IsResultOrError() != (m.IsResult() || m.IsError()) {
		return k + "?groups"
	}
	return k
}

func idText(id any) string {
	switch x := id.(type) {
	case nil:
		return "nil"
	case string:
		return "s:" + x
	case int:
		return fmt.Sprintf("i:%d", x)
	}
	return fmt.Sprintf("%T:%v", id, id)
}

func viewOf(m jlib.Message) msgView {
	v := msgView{Kind: kindOf(m), Trace: m.TraceId()}
	switch x := m.(type) {
	case *jlib.RequestMessage:
		v.Id, v.Method, v.Params = idText(x.Id), x.Method, canon(x.Params)
	case *jlib.NotifyMessage:
		v.Method, v.Params = x.Method, canon(x.Params)
	case *jlib.ResultMessage:
		v.Id, v.Result = idText(x.Id), canon(x.Result)
	case *jlib.ErrorMessage:
		v.Id = idText(x.Id)
		if x.Error == nil {
			v.Error = "nil"
		} else {
			v.Error = fmt.Sprintf("%d|%s|%s", x.Error.Code, x.Error.Message, canon(x.Error.Data))
		}
	default:
		v.Kind = fmt.Sprintf("%T", m)
	}
	return v
}

// rpcPanic runs f and returns the RPC error it panicked with.
func rpcPanic(f func()) (e *jlib.RPCError, other any, panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			panicked = true
			if err, ok := p.(error); ok && errors.As(err, &e) {
				return
			}
			other = p
		}
	}()
	f()
	return
}

// genParams makes constructor params and the JSON document they denote.
func genParams(rng *rand.Rand) (p any, doc any, list bool) {
	switch rng.IntN(8) {
	case 0:
		if rng.IntN(2) == 0 {
			return []any(nil), []any{}, true
		}
		return nil, []any{}, true
	case 1:
		m := genObject(rng, 3)
		return m, m, false
	case 2:
		for {
			v := genValue(rng, 0)
			if v != nil {
				return v, v, false
			}
		}
	case 3:
		// plain Go numbers
		n, f := rng.IntN(1000)-500, rng.Float64()
		return []any{n, f, int64(n), uint8(n)}, []any{n, f, int64(n), uint8(n)}, true
	case 4:
		v := []any{nest(rng, 1+rng.IntN(60))}
		return v, v, true
	case 5:
		// one element that is itself a list or map
		v := []any{pick[any](rng, genList(rng, 2), genObject(rng, 2), nil)}
		return v, v, true
	default:
		v := genList(rng, 3)
		return v, v, true
	}
}

func genRPCError(rng *rand.Rand) *jlib.RPCError {
	return &jlib.RPCError{Code: int(int32(rng.Uint32())), Message: genString(rng), Data: genValue(rng, 2)}
}

func driveC01(r *Run) {
	r.Rule("one random message (kind, id, method, params shape and value, result or error, trace id) per evaluation; non-trivial: distinct structure of kind, shape and value")
	n := r.N(24000, 1200000)
	globals := func() string {
		s := ""
		for _, e := range []*jlib.RPCError{jlib.ErrServerError, jlib.ErrNilId, jlib.ErrMethodNotFound, jlib.ErrEmptyMethod,
			jlib.ErrParseMessage, jlib.ErrInvalidRequest, jlib.ErrInternalError, jlib.ErrMessageType, jlib.ErrTimeout,
			jlib.ErrBadResource, jlib.ErrLiveExit, jlib.ErrNotAllowed, jlib.ErrAuthFailed, jlib.ErrInvalidSchema} {
			s += canon(e)
		}
		return s
	}
	g0 := globals()
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("msg", i)
		c := map[string]any{"i": i}
		r.Guard("C01", c, func() { oneC01(r, rng, i, c) })
	}
	if g := globals(); g != g0 {
		r.Violate("C01:globals", nil, "predefined errors changed: %s -> %s", g0, g)
	}
}

func oneC01(r *Run, rng *rand.Rand, i int, c map[string]any) {
	id, method, trace := genId(rng), genMethod(rng), genTrace(rng)
	want := map[string]any{"jsonrpc": "2.0"}
	var msg jlib.Message
	var v msgView
	var desc string
	reqOf := func() *jlib.RequestMessage {
		q := jlib.NewRequestMessage(id, method, nil)
		q.SetTraceId(trace)
		return q
	}
	switch rng.IntN(4) {
	case 0:
		p, doc, list := genParams(rng)
		msg = jlib.NewRequestMessage(id, method, p)
		want["id"], want["method"], want["params"] = id, method, doc
		v = msgView{Kind: "request", Id: idText(id), Method: method}
		if list {
			v.Params = canon(doc)
		} else {
			v.Params = canon([]any{doc})
		}
		desc = fmt.Sprintf("request list=%v %s", list, shape(doc))
	case 1:
		p, doc, list := genParams(rng)
		msg = jlib.NewNotifyMessage(method, p)
		want["method"], want["params"] = method, doc
		v = msgView{Kind: "notify", Method: method}
		if list {
			v.Params = canon(doc)
		} else {
			v.Params = canon([]any{doc})
		}
		desc = fmt.Sprintf("notify list=%v %s", list, shape(doc))
	case 2:
		res := genValue(rng, 4)
		msg = jlib.NewResultMessage(reqOf(), res)
		want["id"], want["result"] = id, res
		v = msgView{Kind: "result", Id: idText(id), Result: canon(res)}
		desc = "result " + shape(res)
	default:
		e := genRPCError(rng)
		switch k := rng.IntN(5); k {
		case 0:
			msg = jlib.NewErrorMessage(reqOf(), e)
		case 1:
			msg = jlib.NewErrorMessageFromId(id, trace, e)
		case 2:
			msg = jlib.RPCErrorMessage(reqOf(), e.Code, e.Message, e.Data)
		case 3:
			msg = e.ToMessage(reqOf())
		default:
			d := e.Data
			msg = (&jlib.RPCError{Code: e.Code, Message: e.Message, Data: "other"}).WithData(d).ToMessageFromId(id, trace)
		}
		eo := map[string]any{"code": e.Code, "message": e.Message}
		if e.Data != nil {
			eo["data"] = e.Data
		}
		want["id"], want["error"] = id, eo
		v = msgView{Kind: "error", Id: idText(id), Error: fmt.Sprintf("%d|%s|%s", e.Code, e.Message, canon(e.Data))}
		desc = "error " + shape(e.Data)
	}
	if v.Kind == "result" || v.Kind == "error" {
		if msg.TraceId() != trace {
			r.Violate("C01:traceinherit", c, "a %s built for trace id %q has %q", v.Kind, trace, msg.TraceId())
		}
	}
	msg.SetTraceId(trace)
	v.Trace = trace
	if trace != "" {
		want["traceid"] = trace
	}
	c["want"] = want
	if got := viewOf(msg); got != v {
		r.Violate("C01:construct", c, "constructed %+v, want %+v", got, v)
		return
	}
	data, err := jlib.MessageBytes(msg)
	if err != nil {
		r.Violate("C01:encode", c, "MessageBytes: %v", err)
		return
	}
	wantC := canon(want)
	if canonBytes(data) != wantC {
		r.Violate("C01:members", c, "encoded %s, want %s", data, wantC)
	}
	if s, err := jlib.EncodePretty(msg); err != nil || canonBytes([]byte(s)) != wantC {
		r.Violate("C01:pretty", c, "EncodePretty %s %v, want %s", s, err, wantC)
	}
	if s := jlib.MessageString(msg); canonBytes([]byte(s)) != wantC {
		r.Violate("C01:string", c, "MessageString %s, want %s", s, wantC)
	}
	if m, err := jlib.MessageMap(msg); err != nil || canon(m) != wantC {
		r.Violate("C01:map", c, "MessageMap %s %v, want %s", canon(m), err, wantC)
	}
	back, err := jlib.ParseBytes(data)
	if err != nil {
		r.Violate("C01:parse", c, "parsing %s: %v", data, err)
		return
	}
	if got := viewOf(back); got != v {
		r.Violate("C01:roundtrip", c, "%s parsed as %+v, want %+v", data, got, v)
	}
	if again, err := jlib.MessageBytes(back); err != nil || canonBytes(again) != wantC {
		r.Violate("C01:shape", c, "parsed message encodes to %s %v, want %s", again, err, wantC)
	}
	// the same message written differently
	raw := rawJSON(rng, mustDecode(data))
	if back2, err := jlib.ParseBytes([]byte(raw)); err != nil {
		r.Violate("C01:parseraw", c, "parsing %s: %v", raw, err)
	} else if got := viewOf(back2); got != v {
		r.Violate("C01:roundtripraw", c, "%s parsed as %+v, want %+v", raw, got, v)
	}
	// ids are replaced on constructed and parsed messages alike
	for _, m := range []jlib.Message{msg, back} {
		nid := genId(rng)
		if v.Kind == "notify" {
			e, other, p := rpcPanic(func() { m.ReplaceId(nid) })
			if !p || e == nil {
				r.Violate("C01:notifyid", c, "ReplaceId of a notify: panicked %v with %v %v", p, e, other)
			}
			break
		}
		rep := m.ReplaceId(nid)
		v2 := v
		v2.Id = idText(nid)
		if got := viewOf(rep); got != v2 {
			r.Violate("C01:replaceid", c, "ReplaceId(%v) gives %+v, want %+v", nid, got, v2)
		}
		want2 := map[string]any{}
		for k, x := range want {
			want2[k] = x
		}
		want2["id"] = nid
		if d, err := jlib.MessageBytes(rep); err != nil || canonBytes(d) != canon(want2) {
			r.Violate("C01:replaceidbytes", c, "ReplaceId(%v) encodes %s %v, want %s", nid, d, err, canon(want2))
		}
		if got := viewOf(m); got != v {
			r.Violate("C01:replaceorig", c, "after ReplaceId the original is %+v, want %+v", got, v)
		}
		rep.SetTraceId(trace + "x")
		if m.TraceId() != trace {
			r.Violate("C01:replacealias", c, "trace id of the copy leaks to the original")
		}
		if q, ok := m.(*jlib.RequestMessage); ok {
			cl := q.Clone(nid)
			if got := viewOf(cl); got != v2 {
				r.Violate("C01:clone", c, "Clone(%v) gives %+v, want %+v", nid, got, v2)
			}
			if d, err := jlib.MessageBytes(cl); err != nil || canonBytes(d) != canon(want2) {
				r.Violate("C01:clonebytes", c, "Clone(%v) encodes %s %v, want %s", nid, d, err, canon(want2))
			}
		}
	}
	// accessors
	acc := map[string]func() any{
		"id": func() any { return msg.MustId() }, "method": func() any { return msg.MustMethod() },
		"params": func() any { return msg.MustParams() }, "result": func() any { return msg.MustResult() },
		"error": func() any { return msg.MustError() },
	}
	for name, f := range acc {
		_, has := want[name]
		var got any
		e, other, p := rpcPanic(func() { got = f() })
		if !has {
			if !p || e == nil {
				r.Violate("C01:accessor", c, "%s of a %s: got %v, panicked %v with %v %v, want an RPC error panic", name, v.Kind, got, p, e, other)
			}
			continue
		}
		if p {
			r.Violate("C01:accessorpanic", c, "%s of a %s panics with %v %v", name, v.Kind, e, other)
			continue
		}
		ok := true
		switch name {
		case "id":
			ok = idText(got) == v.Id
		case "method":
			ok = got == v.Method
		case "params":
			ok = canon(got) == v.Params
		case "result":
			ok = canon(got) == v.Result
		case "error":
			e, _ := got.(*jlib.RPCError)
			ok = e != nil && fmt.Sprintf("%d|%s|%s", e.Code, e.Message, canon(e.Data)) == v.Error
		}
		if !ok {
			r.Violate("C01:accessorvalue", c, "%s of a %s is %v", name, v.Kind, got)
		}
	}
	if i%97 == 0 {
		for _, f := range []func(){
			func() { jlib.NewRequestMessage(nil, method, nil) },
			func() { jlib.NewRequestMessage(id, "", nil) },
			func() { jlib.NewNotifyMessage("", nil) },
		} {
			if e, other, p := rpcPanic(f); !p || e == nil {
				r.Violate("C01:refuse", c, "constructor accepts a missing id or method (%v %v)", e, other)
			}
		}
	}
	r.Eval(desc)
	r.Count("kind_"+v.Kind, 1)
	if i%500 == 0 {
		r.Sample(json.RawMessage(data))
	}
}

func mustDecode(data []byte) any {
	v, err := decodeAny(data)
	if err != nil {
		panic(err)
	}
	return v
}
