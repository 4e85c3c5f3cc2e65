package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	pkgerrors "github.com/pkg/errors"
	"github.com/sirupsen/logrus"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC34(r *Run) {
	r.Rule("pairs of equal actor trees (up to 4 levels, recovery on or off per actor, handlers of all kinds, missing handlers, handlers which feed another tree), one of which panics with what the other returns as its error: errors plain, wrapped, joined, of runtime, RPC errors, HTTP responses, and values which are no errors at all; fed requests, notifications and responses one by one and by up to 16 feeders at once, directly and over every transport; response, error and panic value are compared; non-trivial: distinct (handler kind, message kind, fate, recovery flags on the way)")
	n := r.N(12000, 400000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC34feed(r, i)
		}
	}
	n = r.N(500, 20000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC34net(r, i)
		}
	}
}

// fate34 is what becomes of a call.
type fate34 struct {
	name  string
	value any   // result when there's no trouble
	err   error // an error to panic with or to return
	wild  any   // panic value which is no error

	// a mistake of the runtime, returned as a plain error
	slip func()
}

type c34valueErr struct{ N int }

func (e c34valueErr) Error() string { return fmt.Sprint("value error ", e.N) }

type c34struct struct {
	A string
	B []int
}

type c34stringer int

func (s c34stringer) String() string { return "stringer" }

// genFate34 never makes a plain value when trouble is wanted.
func genFate34(rng *rand.Rand, trouble bool) fate34 {
	if !trouble {
		return fate34{name: "value", value: genValue(rng, 2)}
	}
	e := &jlib.RPCError{Code: rng.IntN(200) - 100, Message: genString(rng)}
	if e.Code == 0 {
		e.Code = 7
	}
	if rng.IntN(2) == 0 {
		e.Data = genValue(rng, 2)
	}
	wr := &jlibhttp.WrappedResponse{
		Response: &http.Response{StatusCode: pick(rng, 200, 404, 503, 418), Header: http.Header{"X-Up": {"a", genHeaderText(rng)}}},
		Body:     []byte(genString(rng)),
	}
	sr := &jlibhttp.SimpleResponse{Code: pick(rng, 200, 400, 502), Body: []byte(genString(rng))}
	switch rng.IntN(26) {
	case 0:
		return fate34{name: "rpc", err: e}
	case 1:
		return fate34{name: "rpc-fmt", err: fmt.Errorf("outer: %w", e)}
	case 2:
		return fate34{name: "rpc-pkg", err: pkgerrors.Wrap(pkgerrors.WithStack(e), "outer")}
	case 3:
		return fate34{name: "rpc-joined", err: errors.Join(errors.New("first"), e)}
	case 4:
		k := rng.IntN(len(sharedErrs))
		return fate34{name: "rpc-shared", err: sharedErrs[k]}
	case 5:
		return fate34{name: "params", err: jlib.ParamsError(genString(rng))}
	case 6:
		return fate34{name: "plain", err: errors.New(genString(rng))}
	case 7:
		return fate34{name: "plain-value", err: c34valueErr{rng.IntN(100)}}
	case 8:
		return fate34{name: "eof", err: io.EOF}
	case 9:
		return fate34{name: "ctx", err: pick(rng, context.Canceled, context.DeadlineExceeded)}
	case 10:
		return fate34{name: "wrapped", err: wr}
	case 11:
		return fate34{name: "wrapped-pkg", err: pkgerrors.Wrap(wr, "abnormal response")}
	case 12:
		return fate34{name: "simple", err: sr}
	case 13:
		return fate34{name: "rpc-over-wrapped", err: errors.Join(wr, e)}
	case 14:
		return fate34{name: "nilmap", slip: func() { var m map[string]int; m["x"] = 1 }}
	case 15:
		return fate34{name: "index", slip: func() { var a []int; _ = a[len(a)] }}
	case 16:
		return fate34{name: "nilptr", slip: func() { var p *c34struct; p.A = "x" }}
	case 17:
		return fate34{name: "assert", slip: func() { var v any = 1; _ = v.(string) }}
	case 18:
		return fate34{name: "divide", slip: func() { z := len(""); _ = 1 / z }}
	case 19:
		return fate34{name: "closed", slip: func() { c := make(chan int); close(c); close(c) }}
	case 20:
		return fate34{name: "string", wild: genString(rng)}
	case 21:
		return fate34{name: "int", wild: rng.IntN(1000)}
	case 22:
		return fate34{name: "struct", wild: c34struct{genString(rng), []int{1, rng.IntN(9)}}}
	case 23:
		return fate34{name: "pointer", wild: &c34struct{A: "p"}}
	case 24:
		return fate34{name: "stringer", wild: c34stringer(rng.IntN(9))}
	}
	return fate34{name: "log-entry", wild: logrus.NewEntry(logrus.New())}
}

func genHeaderText(rng *rand.Rand) string {
	return fmt.Sprint("v", rng.IntN(1000))
}

// does tells what the handler does in a panicking or a returning tree.
func (f fate34) does(panics bool) (any, error) {
	switch {
	case f.wild != nil:
		panic(f.wild)
	case f.slip != nil:
		if panics {
			f.slip()
		}
		return nil, errors.New("slip")
	case f.err != nil:
		if panics {
			panic(f.err)
		}
		return nil, f.err
	}
	return f.value, nil
}

// node34 mirrors an actor of both trees.
type node34 struct {
	recover bool
	methods map[string]*meth34
	missing *meth34
	kids    []*node34
}

type meth34 struct {
	kind string  // request, msg, context, typed, typedreq, typedctx, missing
	fwd  *node34 // feeds the message to another tree
}

func (n *node34) find(m string) (*node34, *meth34) {
	if h := n.methods[m]; h != nil {
		return n, h
	}
	for _, k := range n.kids {
		if k.has(m) {
			return k.find(m)
		}
	}
	return n, n.missing
}

func (n *node34) has(m string) bool {
	if n.methods[m] != nil {
		return true
	}
	for _, k := range n.kids {
		if k.has(m) {
			return true
		}
	}
	return false
}

var kinds34 = []string{"request", "msg", "context", "typed", "typedreq", "typedctx"}

func genNode34(rng *rand.Rand, depth int, next *int, fwd bool) *node34 {
	n := &node34{recover: rng.IntN(4) != 0, methods: map[string]*meth34{}}
	for k := rng.IntN(4); k >= 0; k-- {
		n.methods[fmt.Sprint("m", *next)] = &meth34{kind: pick(rng, kinds34...)}
		*next++
	}
	if fwd && rng.IntN(2) == 0 {
		n.methods[fmt.Sprint("m", *next)] = &meth34{kind: "request", fwd: genNode34(rng, 1, new(int), false)}
		*next++
	}
	if rng.IntN(2) == 0 {
		n.missing = &meth34{kind: "missing"}
		if fwd && rng.IntN(3) == 0 {
			n.missing.fwd = genNode34(rng, 1, new(int), false)
		}
	}
	if depth > 0 {
		for k := rng.IntN(3); k > 0; k-- {
			n.kids = append(n.kids, genNode34(rng, depth-1, next, fwd))
		}
	}
	return n
}

// build makes the actor of a node; the first param of a message tells the
// fate.
func (n *node34) build(fates []fate34, panics bool) *jlibhttp.Actor {
	a := jlibhttp.NewActor()
	a.RecoverFromPanic = n.recover
	does := func(k int) (any, error) { return fates[k].does(panics) }
	index := func(v any) int {
		switch x := v.(type) {
		case json.Number:
			k, err := x.Int64()
			must(err)
			return int(k)
		case int:
			return x
		}
		panic(fmt.Sprintf("harness: index %#v", v))
	}
	for _, m := range sortedKeys(n.methods) {
		h := n.methods[m]
		var sub *jlibhttp.Actor
		if h.fwd != nil {
			sub = h.fwd.build(fates, panics)
		}
		var set []jlibhttp.HandlerSetter
		if len(m)%2 == 0 {
			set = append(set, jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"integer"}]}`))
		}
		switch h.kind {
		case "request":
			must(a.OnRequest(m, func(req *jlibhttp.RPCRequest, p []any) (any, error) {
				if sub != nil {
					res, err := sub.Feed(req)
					if err != nil || res == nil {
						return nil, err
					}
					return res, nil
				}
				return does(index(p[0]))
			}, set...))
		case "msg":
			a.On(m, func(p []any) (any, error) { return does(index(p[0])) }, set...)
		case "context":
			a.OnContext(m, func(ctx context.Context, p []any) (any, error) { return does(index(p[0])) }, set...)
		case "typed":
			a.OnTyped(m, func(k int) (any, error) { return does(k) }, set...)
		case "typedreq":
			must(a.OnTypedRequest(m, func(req *jlibhttp.RPCRequest, k int) (any, error) { return does(k) }, set...))
		case "typedctx":
			must(a.OnTypedContext(m, func(ctx context.Context, k int) (any, error) { return does(k) }, set...))
		}
	}
	if h := n.missing; h != nil {
		var sub *jlibhttp.Actor
		if h.fwd != nil {
			sub = h.fwd.build(fates, panics)
		}
		must(a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
			msg := req.Msg()
			if sub != nil {
				res, err := sub.Feed(req)
				if err != nil || res == nil {
					return nil, err
				}
				return res, nil
			}
			switch {
			case msg.IsRequestOrNotify():
				return does(index(msg.MustParams()[0]))
			case msg.IsResult():
				return does(index(msg.MustResult()))
			}
			return nil, errors.New("an error message")
		}))
	}
	for _, k := range n.kids {
		a.AddChild(k.build(fates, panics))
	}
	return a
}

// path34 is what the reference expects: the recovery flags from the actor
// whose handler decides up to the one fed.
func (n *node34) path(msg jlib.Message) (kind string, flags []bool) {
	at, h := n, n.missing
	if msg.IsRequestOrNotify() {
		at, h = n.find(msg.MustMethod())
	}
	if h == nil {
		return "none", nil
	}
	if h.fwd != nil {
		k, fl := h.fwd.path(msg)
		if k == "none" {
			return "fwd-none", nil
		}
		return "fwd-" + h.kind + "-" + k, append(append([]bool{}, fl...), at.recover)
	}
	return h.kind, []bool{at.recover}
}

// out34 is what came out of feeding a message.
type out34 struct {
	res      jlib.Message
	err      error
	panicked bool
	value    any
}

func feed34(a *jlibhttp.Actor, msg jlib.Message) (o out34) {
	defer func() {
		if o.panicked {
			o.value = recover()
		}
	}()
	o.panicked = true
	req := jlibhttp.NewRPCRequest(context.Background(), msg, jlibhttp.TransportHTTP, nil)
	o.res, o.err = a.Feed(req)
	o.panicked = false
	return o
}

func msg34(m jlib.Message) string {
	if m == nil || reflect.ValueOf(m).IsNil() {
		return "no message"
	}
	b, err := jlib.MessageBytes(m)
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return canonBytes(b) + " trace " + m.TraceId()
}

// same34 compares the value a panic was recovered with.
func same34(got any, f fate34) bool {
	switch {
	case f.slip != nil:
		_, ok := got.(runtime.Error)
		return ok
	case f.err != nil:
		return same34err(got, f.err)
	}
	return reflect.TypeOf(got) == reflect.TypeOf(f.wild) && reflect.DeepEqual(got, f.wild)
}

func same34err(got any, want error) bool {
	e, ok := got.(error)
	if !ok {
		return false
	}
	return reflect.TypeOf(e) == reflect.TypeOf(want) && reflect.DeepEqual(e, want)
}

// check34 compares what the panicking tree did with what the returning one
// did. It returns what is wrong.
func check34(tree *node34, msg jlib.Message, f fate34, p, q out34) string {
	kind, flags := tree.path(msg)
	if f.value != nil || f.name == "value" || kind == "none" || kind == "fwd-none" {
		// no trouble at all
		if p.panicked || q.panicked {
			return fmt.Sprintf("no trouble, panics with %v / %v", p.value, q.value)
		}
		if a, b := msg34(p.res), msg34(q.res); a != b || (p.err == nil) != (q.err == nil) {
			return fmt.Sprintf("no trouble, got %s %v, its twin %s %v", a, p.err, b, q.err)
		}
		if msg.IsRequest() && f.name == "value" && kind != "none" && kind != "fwd-none" {
			res, ok := p.res.(*jlib.ResultMessage)
			if !ok || canon(res.Result) != canon(f.value) || !reflect.DeepEqual(res.Id, msg.MustId()) {
				return fmt.Sprintf("no trouble, got %s for the result %s", msg34(p.res), canon(f.value))
			}
		}
		return ""
	}
	caught := false
	if f.wild == nil {
		for _, fl := range flags {
			caught = caught || fl
		}
	}
	if !caught {
		if !p.panicked {
			return fmt.Sprintf("the panic is swallowed: got %s, %v", msg34(p.res), p.err)
		}
		if !same34(p.value, f) {
			return fmt.Sprintf("the panic value %#v arrives as %#v", [2]any{f.err, f.wild}, p.value)
		}
		return ""
	}
	if p.panicked {
		return fmt.Sprintf("a panic with an error isn't recovered: %v", p.value)
	}
	if q.panicked {
		return fmt.Sprintf("a returned error panics: %v", q.value)
	}
	if a, b := msg34(p.res), msg34(q.res); a != b {
		return fmt.Sprintf("panicking with the error gives %s, returning it %s", a, b)
	}
	if (p.err == nil) != (q.err == nil) {
		return fmt.Sprintf("panicking with the error gives error %v, returning it %v", p.err, q.err)
	}
	if p.err != nil && f.err != nil {
		var w1, w2 *jlibhttp.WrappedResponse
		if a, b := errors.As(p.err, &w1), errors.As(q.err, &w2); a != b || w1 != w2 {
			return fmt.Sprintf("panicking with the error gives error %#v, returning it %#v", p.err, q.err)
		}
		if !msg.IsRequest() && errors.Is(q.err, f.err) && !errors.Is(p.err, f.err) {
			return fmt.Sprintf("panicking with the error gives error %#v, returning it %#v", p.err, q.err)
		}
	}
	if p.err != nil && f.slip != nil {
		var re runtime.Error
		if !errors.As(p.err, &re) {
			return fmt.Sprintf("a runtime error arrives as %#v", p.err)
		}
	}
	if msg.IsRequest() && p.res != nil {
		if !p.res.IsError() || !reflect.DeepEqual(p.res.MustId(), msg.MustId()) || p.res.TraceId() != msg.TraceId() {
			return fmt.Sprintf("the failed request is answered with %s", msg34(p.res))
		}
	}
	return ""
}

func genMsg34(rng *rand.Rand, methods []string, k int) jlib.Message {
	var msg jlib.Message
	m := "nobody"
	if rng.IntN(8) != 0 {
		m = pick(rng, methods...)
	}
	kv := any(k)
	if rng.IntN(2) == 0 {
		kv = json.Number(fmt.Sprint(k))
	}
	switch rng.IntN(6) {
	default:
		msg = jlib.NewRequestMessage(genId(rng), m, []any{kv})
	case 1:
		msg = jlib.NewNotifyMessage(m, []any{kv})
	case 2:
		msg = jlib.NewResultMessage(jlib.NewRequestMessage(genId(rng), m, nil), kv)
	}
	if rng.IntN(2) == 0 {
		msg.SetTraceId(genTrace(rng))
	}
	return msg
}

func kind34(m jlib.Message) string {
	switch {
	case m.IsRequest():
		return "request"
	case m.IsNotify():
		return "notify"
	}
	return "result"
}

func oneC34feed(r *Run, i int) {
	rng := r.Rand("panic-feed", i)
	next := 0
	tree := genNode34(rng, 3, &next, true)
	var methods []string
	for k := 0; k < next; k++ {
		methods = append(methods, fmt.Sprint("m", k))
	}
	fates := make([]fate34, 3+rng.IntN(8))
	for k := range fates {
		fates[k] = genFate34(rng, rng.IntN(4) != 0)
	}
	var names []string
	for _, f := range fates {
		names = append(names, f.name)
	}
	feeders := 1
	if rng.IntN(4) == 0 {
		feeders = 2 + rng.IntN(15)
	}
	c := map[string]any{"part": "feed", "case": i, "fates": names, "feeders": feeders}
	r.Guard("C34", c, func() {
		p, q := tree.build(fates, true), tree.build(fates, false)
		list := p.MethodList()
		type job struct {
			msg jlib.Message
			k   int
		}
		jobs := make([][]job, feeders)
		for x := range jobs {
			for n := 1 + rng.IntN(20); n > 0; n-- {
				k := rng.IntN(len(fates))
				jobs[x] = append(jobs[x], job{genMsg34(rng, methods, k), k})
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		for x := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, j := range jobs[x] {
					before := msg34(j.msg)
					op := feed34(p, j.msg)
					oq := feed34(q, j.msg)
					bad := check34(tree, j.msg, fates[j.k], op, oq)
					if bad == "" && msg34(j.msg) != before {
						bad = "the message changed to " + msg34(j.msg)
					}
					kind, flags := tree.path(j.msg)
					mu.Lock()
					r.Count("messages_fed", 1)
					if op.panicked {
						r.Count("panics_which_came_through", 1)
					}
					r.Eval(fmt.Sprint("feed ", kind, " ", kind34(j.msg), " ", fates[j.k].name, " ", flags, " ", feeders > 1))
					if bad != "" {
						r.Violate("C34:feed", c, "%s of a %s handler with recovery %v, fate %s (%v): %s", before, kind, flags, fates[j.k].name, fates[j.k].err, bad)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		a, b := p.MethodList(), append([]string{}, list...)
		sort.Strings(a)
		sort.Strings(b)
		if !reflect.DeepEqual(a, b) {
			r.Violate("C34:methods", c, "the methods changed from %v to %v", b, a)
		}
	})
	if i%2000 == 0 {
		r.Sample(c)
	}
}

// oneC34net plays one script against two servers, one with the panicking
// and one with the returning tree.
func oneC34net(r *Run, i int) {
	rng := r.Rand("panic-net", i)
	proto := pick(rng, "h1", "ws", "h2c", "wss", "h2", "h1")
	spawn := rng.IntN(2) == 0
	next := 0
	tree := genNode34(rng, 2, &next, true)
	var force func(n *node34)
	force = func(n *node34) {
		if proto != "h1" {
			// what isn't recovered ends the process there
			n.recover = true
		}
		for _, m := range n.methods {
			if m.fwd != nil {
				force(m.fwd)
			}
		}
		if n.missing != nil && n.missing.fwd != nil {
			force(n.missing.fwd)
		}
		for _, k := range n.kids {
			force(k)
		}
	}
	force(tree)
	var methods []string
	for k := 0; k < next; k++ {
		methods = append(methods, fmt.Sprint("m", k))
	}
	fates := []fate34{{name: "value", value: "fine"}}
	for n := 2 + rng.IntN(6); n > 0; n-- {
		f := genFate34(rng, true)
		for proto != "h1" && f.wild != nil {
			f = genFate34(rng, true)
		}
		fates = append(fates, f)
	}
	type step struct {
		k    int
		msg  jlib.Message
		data []byte
	}
	var steps []step
	var names []string
	for n := 3 + rng.IntN(8); n > 0; n-- {
		k := rng.IntN(len(fates))
		msg := genMsg34(rng, methods, k)
		data, err := jlib.MessageBytes(msg)
		must(err)
		// what arrives is what counts
		msg, err = jlib.ParseBytes(data)
		must(err)
		steps = append(steps, step{k, msg, data})
		kind, flags := tree.path(msg)
		names = append(names, fmt.Sprintf("%s of %s %v: %s", kind34(msg), kind, flags, fates[k].name))
	}
	c := map[string]any{"part": "net", "case": i, "proto": proto, "spawn": spawn, "steps": names}
	r.world("C34", c, rng, func(w *world) {
		var mu sync.Mutex
		seen := map[string][]any{}
		opened := map[string]int{}
		host := map[string]string{"p": "srv1", "q": "srv2"}
		for _, name := range []string{"p", "q"} {
			a := tree.build(fates, name == "p")
			must(a.OnRequest("bystander", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
			must(a.OnClose(func(*http.Request, jlibhttp.RPCSession) {
				mu.Lock()
				opened[name+" closed"]++
				mu.Unlock()
			}))
			var h http.Handler
			if proto != "h1" {
				h = w.handlerFor(proto, a, spawn)
			} else {
				h = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
					done := false
					defer func() {
						if !done {
							v := recover()
							mu.Lock()
							seen[name] = append(seen[name], v)
							mu.Unlock()
							panic(http.ErrAbortHandler)
						}
					}()
					jlibhttp.NewH1Handler(a).ServeHTTP(rw, req)
					done = true
				})
			}
			w.serve(host[name], h, tlsFor(proto))
		}
		// somebody else uses the servers all the time
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for _, name := range []string{"p", "q"} {
			var cl jlibhttp.Client
			if proto != "h1" {
				st := w.clientTLS(proto, host[name], clientTLSFor(proto))
				if err := st.Connect(w.Ctx); err != nil {
					w.violate("dial", "the bystander can't connect: %v", err)
					return
				}
				cl = st
			}
			call := func(n int) (jlib.Message, error) {
				ask := jlib.NewRequestMessage(n, "bystander", []any{n})
				if cl == nil {
					data, err := jlib.MessageBytes(ask)
					must(err)
					_, body, err := w.h1Post(host[name], data, nil)
					if err != nil {
						return nil, err
					}
					return jlib.ParseBytes(body)
				}
				ctx, cancel := context.WithTimeout(w.Ctx, time.Minute)
				defer cancel()
				return cl.Call(ctx, ask)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if cl != nil {
					defer closeClient(cl)
				}
				for n := 0; ; n++ {
					select {
					case <-stop:
						return
					case <-time.After(700 * time.Millisecond):
					}
					res, err := call(n)
					if err != nil || !res.IsResult() || canon(res.MustResult()) != fmt.Sprintf("[%d]", n) {
						w.violate("bystander", "a call of another client gets %v %v", res, err)
						return
					}
					r.Count("calls_of_bystanders", 1)
				}
			}()
		}
		got := map[string][]string{}
		for _, name := range []string{"p", "q"} {
			var frames chan string
			var raw rawConn
			dial := func() {
				var err error
				raw, _, err = w.dialRaw(proto, host[name], nil)
				if err != nil {
					w.violate("dial", "can't connect to %s: %v", name, err)
					return
				}
				opened[name]++
				frames = make(chan string, 100)
				go func(rc rawConn, fr chan string) {
					defer close(fr)
					for {
						d, err := rc.ReadRaw()
						if err != nil {
							return
						}
						fr <- canonBytes(d)
					}
				}(raw, frames)
			}
			for _, st := range steps {
				if proto == "h1" {
					resp, body, err := w.h1Post(host[name], st.data, nil)
					if err != nil {
						got[name] = append(got[name], "aborted")
						continue
					}
					resp.Header.Del("Date")
					if t, err := decodeAny(bytes.TrimSpace(body)); err == nil && resp.Header.Get("Content-Type") == "application/json" {
						body = []byte(canon(t))
					}
					got[name] = append(got[name], fmt.Sprint(resp.StatusCode, " ", canonHeader34(resp.Header), " ", string(body)))
					continue
				}
				if raw == nil {
					if dial(); raw == nil {
						break
					}
				}
				// the session may end before the last byte is written
				_ = raw.WriteRaw(st.data)
				time.Sleep(3 * time.Second)
				var here []string
				closed := false
			drain:
				for {
					select {
					case f, ok := <-frames:
						if !ok {
							closed = true
							break drain
						}
						here = append(here, f)
					default:
						break drain
					}
				}
				got[name] = append(got[name], fmt.Sprint(here, " closed: ", closed))
				if closed {
					raw.Close()
					raw = nil
				}
			}
			if raw != nil {
				raw.Close()
				raw = nil
			}
		}
		close(stop)
		wg.Wait()
		time.Sleep(5 * time.Second)
		if proto != "h1" {
			mu.Lock()
			for _, name := range []string{"p", "q"} {
				// and the bystander
				if n := opened[name+" closed"]; n != opened[name]+1 {
					w.violate("sessions", "%d sessions of %s were opened, %d closed", opened[name]+1, name, n)
				}
			}
			mu.Unlock()
		}
		at := 0
		for s, st := range steps {
			if s >= len(got["p"]) || s >= len(got["q"]) {
				break
			}
			f := fates[st.k]
			p, q := got["p"][s], got["q"][s]
			kind, flags := tree.path(st.msg)
			caught := f.wild == nil && f.name != "value"
			if caught {
				caught = false
				for _, fl := range flags {
					caught = caught || fl
				}
			}
			r.Count("steps_compared", 1)
			r.Eval(fmt.Sprint("net ", proto, " ", spawn, " ", kind34(st.msg), " ", kind, " ", f.name, " ", flags))
			if f.name != "value" && len(flags) > 0 && !caught {
				if p != "aborted" {
					w.violate("swallowed", "step %d: the panic is answered with %s", s, p)
					continue
				}
				mu.Lock()
				if at >= len(seen["p"]) || !same34(seen["p"][at], f) {
					w.violate("value", "step %d: of the panics %#v number %d should be %v %v", s, seen["p"], at, f.err, f.wild)
				}
				at++
				mu.Unlock()
				continue
			}
			if p != q {
				w.violate("differs", "step %d: panicking gives %s, returning the error %s", s, p, q)
			}
		}
		mu.Lock()
		if at != len(seen["p"]) {
			w.violate("panics", "%d panics, expected %d: %#v", len(seen["p"]), at, seen["p"])
		}
		mu.Unlock()
	})
	if i%100 == 0 {
		r.Sample(c)
	}
}

func canonHeader34(h http.Header) string {
	var l []string
	for k, v := range h {
		l = append(l, k+": "+strings.Join(v, "|"))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}
