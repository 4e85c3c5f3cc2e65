package props

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"sort"
	"strings"
	"sync"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	jlibschema "github.com/superisaac/jlib/schema"
)

// node mirrors an actor.
type node struct {
	id       int
	actor    *jlibhttp.Actor
	handlers map[string]*hdl
	missing  int // 0 none, else its serial

	// what the missing handler does with responses: 0 panics, 1 fails
	missingFate int
	kids        []*node
	closer      int
}

type hdl struct {
	serial int
	schema jlibschema.Schema
}

func (n *node) has(m string) bool {
	if n.handlers[m] != nil {
		return true
	}
	for _, k := range n.kids {
		if k.has(m) {
			return true
		}
	}
	return false
}

func (n *node) list(out map[string]bool) {
	for m := range n.handlers {
		out[m] = true
	}
	for _, k := range n.kids {
		k.list(out)
	}
}

// find is the reference dispatch: the serial of the handler, or of a
// missing handler, or 0.
func (n *node) find(m string) (serial int, h *hdl) {
	if h := n.handlers[m]; h != nil {
		return h.serial, h
	}
	for _, k := range n.kids {
		if k.has(m) {
			return k.find(m)
		}
	}
	return n.missing, nil
}

// seenCall is what a handler saw.
type seenCall struct {
	serial  int
	id      string
	method  string
	params  string
	trace   string
	reqSame bool
	noReq   bool
}

type tree struct {
	mu     sync.Mutex
	calls  map[string][]seenCall // by key in the params
	serial int
	root   *node
	nodes  []*node
	req    map[string]*jlibhttp.RPCRequest
}

func keyOf(params []any) string {
	if len(params) > 0 {
		if s, ok := params[0].(string); ok {
			return s
		}
		if m, ok := params[0].(map[string]any); ok {
			s, _ := m["key"].(string)
			return s
		}
	}
	return "?"
}

func (t *tree) saw(serial int, req *jlibhttp.RPCRequest, params []any) (any, error) {
	c := seenCall{serial: serial, params: canon(params)}
	k := keyOf(params)
	t.mu.Lock()
	defer t.mu.Unlock()
	if req != nil {
		m := req.Msg()
		c.method, c.trace = m.MustMethod(), m.TraceId()
		if m.IsRequest() {
			c.id = idText(m.MustId())
		}
		c.reqSame = t.req[k] == req
	} else {
		c.noReq = true
	}
	t.calls[k] = append(t.calls[k], c)
	if serial%5 == 0 {
		return nil, &jlib.RPCError{Code: serial, Message: "err " + k}
	}
	return map[string]any{"by": serial, "key": k}, nil
}

var methods08 = []string{"a", "b", "c", "d.e", "日本", "x:y"}

func (t *tree) register(r *Run, rng *rand.Rand, n *node, m string, c any) {
	t.serial++
	serial := t.serial
	dup := n.handlers[m] != nil
	var refused bool
	var schema jlibschema.Schema
	var setters []jlibhttp.HandlerSetter
	if rng.IntN(3) == 0 {
		schema = &jlibschema.AnySchema{}
		schema.SetName(fmt.Sprintf("schema %d", serial))
		setters = append(setters, jlibhttp.WithSchema(schema))
	}
	guard := func(f func() error) {
		defer func() {
			if p := recover(); p != nil {
				refused = true
			}
		}()
		if err := f(); err != nil {
			refused = true
		}
	}
	switch rng.IntN(6) {
	case 0:
		guard(func() error {
			n.actor.On(m, func(params []any) (any, error) { return t.saw(serial, nil, params) }, setters...)
			return nil
		})
	case 1:
		guard(func() error {
			n.actor.OnContext(m, func(ctx context.Context, params []any) (any, error) {
				if ctx.Value(ctxKey{}) != "marked" {
					return "wrong context", nil
				}
				return t.saw(serial, nil, params)
			}, setters...)
			return nil
		})
	case 2:
		guard(func() error {
			n.actor.OnTyped(m, func(k any) (map[string]any, error) {
				res, err := t.saw(serial, nil, []any{k})
				mm, _ := res.(map[string]any)
				return mm, err
			}, setters...)
			return nil
		})
	case 3:
		guard(func() error {
			return n.actor.OnTypedRequest(m, func(req *jlibhttp.RPCRequest, k any) (map[string]any, error) {
				res, err := t.saw(serial, req, []any{k})
				mm, _ := res.(map[string]any)
				return mm, err
			}, setters...)
		})
	case 4:
		guard(func() error {
			return n.actor.OnTypedContext(m, func(ctx context.Context, k any) (map[string]any, error) {
				res, err := t.saw(serial, nil, []any{k})
				mm, _ := res.(map[string]any)
				return mm, err
			}, setters...)
		})
	default:
		guard(func() error {
			return n.actor.OnRequest(m, func(req *jlibhttp.RPCRequest, params []any) (any, error) {
				return t.saw(serial, req, params)
			}, setters...)
		})
	}
	if refused != dup {
		r.Violate("C08:register", c, "registering %q, registered before %v, refused %v", m, dup, refused)
		return
	}
	if !dup {
		n.handlers[m] = &hdl{serial: serial, schema: schema}
	}
	r.Count("registrations", 1)
}

var errFed = errors.New("the missing handler fails")

type ctxKey struct{}

func driveC08(r *Run) {
	r.Rule("random actor trees (depth <= 3), random histories of registration, re-registration, unregistration, growth and queries, with sequential and concurrent feeds of requests, notifies, results and errors, against a reference dispatcher over recorded handler calls; non-trivial: distinct (where the method is served, kind of message, tree shape)")
	n := r.N(12000, 400000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("tree", i)
		c := map[string]any{"i": i}
		r.Guard("C08", c, func() { oneC08(r, rng, i, c) })
	}
	live := r.N(160, 8000)
	for i := 0; i < live; i++ {
		if !r.Mine(i) {
			continue
		}
		liveC08(r, i)
	}
}

func oneC08(r *Run, rng *rand.Rand, i int, c map[string]any) {
	t := &tree{calls: map[string][]seenCall{}, req: map[string]*jlibhttp.RPCRequest{}}
	newNode := func() *node {
		n := &node{id: len(t.nodes), actor: jlibhttp.NewActor(), handlers: map[string]*hdl{}}
		t.nodes = append(t.nodes, n)
		return n
	}
	depth := map[*node]int{}
	t.root = newNode()
	grow := func() {
		p := t.nodes[rng.IntN(len(t.nodes))]
		if depth[p] >= 3 {
			return
		}
		k := newNode()
		depth[k] = depth[p] + 1
		p.actor.AddChild(k.actor)
		p.kids = append(p.kids, k)
	}
	setMissing := func() {
		p := t.nodes[rng.IntN(len(t.nodes))]
		t.serial++
		serial := t.serial
		fate := rng.IntN(4)
		err := p.actor.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
			if !req.Msg().IsRequestOrNotify() {
				t.mu.Lock()
				defer t.mu.Unlock()
				k := idText(req.Msg().MustId())
				t.calls[k] = append(t.calls[k], seenCall{serial: serial, reqSame: t.req[k] == req})
				switch fate {
				case 0:
					return req.Msg().MustMethod(), nil // panics
				case 1:
					return nil, errFed
				}
				return "ignored", nil
			}
			return t.saw(serial, req, req.Msg().MustParams())
		})
		if err == nil {
			p.missingFate = fate
		}
		if (err != nil) != (p.missing != 0) {
			r.Violate("C08:missing-register", c, "a missing handler was set before %v, refused %v", p.missing != 0, err)
		}
		if err == nil {
			p.missing = serial
		}
	}
	for k := rng.IntN(6); k > 0; k-- {
		grow()
	}
	for k := rng.IntN(2 + len(t.nodes)); k > 0; k-- {
		setMissing()
	}
	steps := 6 + rng.IntN(14)
	for s := 0; s < steps; s++ {
		m := methods08[rng.IntN(len(methods08))]
		nd := t.nodes[rng.IntN(len(t.nodes))]
		switch k := rng.IntN(12); {
		case k < 4:
			t.register(r, rng, nd, m, c)
		case k == 4:
			nd.actor.Off(m)
			delete(nd.handlers, m)
			r.Count("unregistrations", 1)
		case k == 5 && rng.IntN(3) == 0:
			grow()
		case k == 6:
			t.queries(r, nd, c)
		default:
			target := t.root
			if rng.IntN(4) == 0 {
				target = nd
			}
			if rng.IntN(5) == 0 {
				t.burst(r, rng, target, i, s, c)
			} else {
				t.feed(r, rng, target, fmt.Sprintf("k%d", s), m, rng.IntN(9), c, true)
			}
		}
	}
	for _, nd := range t.nodes {
		t.queries(r, nd, c)
	}
	if i%997 == 0 {
		r.Sample(map[string]any{"i": i, "nodes": len(t.nodes), "calls": len(t.calls)})
	}
}

func (t *tree) queries(r *Run, nd *node, c any) {
	want := map[string]bool{}
	nd.list(want)
	got := map[string]bool{}
	for _, m := range nd.actor.MethodList() {
		got[m] = true
	}
	if fmt.Sprint(sortedKeys(got)) != fmt.Sprint(sortedKeys(want)) {
		r.Violate("C08:list", c, "methods listed %q, served %q", sortedKeys(got), sortedKeys(want))
	}
	for _, m := range append([]string{"nosuch", ""}, methods08...) {
		if nd.actor.Has(m) != nd.has(m) {
			r.Violate("C08:has", c, "has %q says %v", m, nd.actor.Has(m))
		}
		var ws jlibschema.Schema
		if nd.has(m) {
			if _, h := nd.find(m); h != nil {
				ws = h.schema
			}
		}
		s, ok := nd.actor.GetSchema(m)
		if ok != (ws != nil) || ok && s.GetName() != ws.GetName() {
			name := "none"
			if ws != nil {
				name = ws.GetName()
			}
			r.Violate("C08:schema", c, "schema of %q: found %v %v, its handler has %s", m, ok, s, name)
		}
	}
	r.Count("queries", 1)
}

// burst feeds many messages at once.
func (t *tree) burst(r *Run, rng *rand.Rand, target *node, i, s int, c any) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		seed1, seed2 := rng.Uint64(), rng.Uint64()
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					r.Violate("C08:panic", c, "concurrent feed: %v", p)
				}
			}()
			grng := rand.New(rand.NewPCG(seed1, seed2))
			for k := 0; k < 3; k++ {
				t.feed(r, grng, target, fmt.Sprintf("k%d.%d.%d", s, g, k), methods08[grng.IntN(len(methods08))], grng.IntN(9), c, false)
			}
		}(g)
	}
	wg.Wait()
}

func (t *tree) feed(r *Run, rng *rand.Rand, target *node, key, m string, kind int, c any, alone bool) {
	ctx := context.WithValue(context.Background(), ctxKey{}, "marked")
	trace := genTrace(rng)
	var msg jlib.Message
	var params any = []any{key, genValue(rng, 2)}
	if rng.IntN(4) == 0 {
		params = map[string]any{"key": key, "v": genValue(rng, 1)}
	}
	id := genId(rng)
	if kind >= 7 {
		// results and errors go to the missing handler of the fed actor
		req := jlib.NewRequestMessage(key, m, nil)
		if kind == 7 {
			msg = jlib.NewResultMessage(req, genValue(rng, 1))
		} else {
			msg = jlib.NewErrorMessage(req, &jlib.RPCError{Code: 1, Message: "x"})
		}
		rq := jlibhttp.NewRPCRequest(ctx, msg, "test", nil)
		t.mu.Lock()
		t.req[idText(key)] = rq
		t.mu.Unlock()
		res, err := func() (res jlib.Message, err error) {
			defer func() {
				if v := recover(); v != nil {
					r.Violate("C08:response-panic", c, "a response fed to an actor which recovers from panics panics: %v", v)
					err = errFed
				}
			}()
			return target.actor.Feed(rq)
		}()
		t.mu.Lock()
		calls := append([]seenCall(nil), t.calls[idText(key)]...)
		t.mu.Unlock()
		if res != nil || (err != nil) != (target.missing != 0 && target.missingFate < 2) {
			r.Violate("C08:response", c, "a response fed got %v %v", res, err)
		}
		if target.missing == 0 && len(calls) != 0 || target.missing != 0 && (len(calls) != 1 || calls[0].serial != target.missing || !calls[0].reqSame) {
			r.Violate("C08:response-dispatch", c, "a response fed reached %v, missing handler is %d", calls, target.missing)
		}
		r.Eval(fmt.Sprintf("resp %v", target.missing != 0))
		return
	}
	notify := kind >= 5
	if notify {
		msg = jlib.NewNotifyMessage(m, params)
	} else {
		msg = jlib.NewRequestMessage(id, m, params)
	}
	msg.SetTraceId(trace)
	if rng.IntN(2) == 0 {
		// as received from the wire
		data, _ := jlib.MessageBytes(msg)
		var err error
		if msg, err = jlib.ParseBytes(data); err != nil {
			r.HarnessError("C08: own message does not parse: %v", err)
			return
		}
	}
	rq := jlibhttp.NewRPCRequest(ctx, msg, "test", &http.Request{})
	t.mu.Lock()
	t.req[key] = rq
	t.mu.Unlock()
	keep := canon(msg.Interface())
	wantParams := canon(msg.MustParams())
	first := canon(msg.MustParams()[:1])
	serial, h := target.find(m)
	var res jlib.Message
	var err error
	res, err = target.actor.Feed(rq)
	if canon(msg.Interface()) != keep {
		r.Violate("C08:msg", c, "feeding changed the message from %s to %s", keep, canon(msg.Interface()))
	}
	t.mu.Lock()
	calls := append([]seenCall(nil), t.calls[key]...)
	t.mu.Unlock()
	where := "none"
	cc := map[string]any{"case": c, "key": key, "method": m, "notify": notify, "want": serial}
	if serial == 0 {
		if len(calls) != 0 {
			r.Violate("C08:unserved", cc, "nobody serves the method, handled by %v", calls)
		}
		if notify {
			if res != nil || err != nil {
				r.Violate("C08:notify", cc, "unserved notify got %v %v", res, err)
			}
		} else if err != nil || res == nil || !res.IsError() || res.MustError().Code != jlib.ErrMethodNotFound.Code || idText(res.MustId()) != idText(msg.MustId()) || res.TraceId() != msg.TraceId() {
			r.Violate("C08:notfound", cc, "unserved request got %v %v", show(res), err)
		}
	} else {
		where = "own"
		if h == nil {
			where = "missing"
		} else if target.handlers[m] == nil {
			where = "child"
		}
		if len(calls) != 1 {
			r.Violate("C08:once", cc, "handled %d times by %v, not once by %d", len(calls), calls, serial)
			return
		}
		got := calls[0]
		if got.serial != serial {
			r.Violate("C08:dispatch", cc, "handled by %d, the tree selects %d", got.serial, serial)
		}
		if got.params != wantParams && got.params != first {
			r.Violate("C08:params", cc, "the handler saw params %s of %s", got.params, wantParams)
		}
		if !got.noReq {
			wid := ""
			if !notify {
				wid = idText(msg.MustId())
			}
			if !got.reqSame || got.id != wid || got.method != m || got.trace != msg.TraceId() {
				r.Violate("C08:request", cc, "the handler saw another request: %+v", got)
			}
		}
		wantErr := serial%5 == 0
		switch {
		case notify:
			if res != nil || (err != nil) != wantErr {
				r.Violate("C08:notify", cc, "notify got %v %v", show(res), err)
			}
			var re *jlib.RPCError
			if wantErr && (!errors.As(err, &re) || re.Code != serial) {
				r.Violate("C08:notify", cc, "notify failed with %v", err)
			}
		case err != nil || res == nil:
			r.Violate("C08:answer", cc, "request got %v %v", show(res), err)
		default:
			ok := idText(res.MustId()) == idText(msg.MustId()) && res.TraceId() == msg.TraceId()
			if wantErr {
				ok = ok && res.IsError() && res.MustError().Code == serial && res.MustError().Message == "err "+key
			} else {
				ok = ok && res.IsResult() && canon(res.MustResult()) == canon(map[string]any{"by": serial, "key": key})
			}
			if !ok {
				r.Violate("C08:answer", cc, "request got %v", show(res))
			}
		}
	}
	r.Count("fed_"+where, 1)
	if !alone {
		r.Count("fed_concurrently", 1)
	}
	var sh []string
	for _, n := range t.nodes {
		sh = append(sh, fmt.Sprint(len(n.kids)))
	}
	sort.Strings(sh)
	r.Eval(fmt.Sprintf("%s %v %s", where, notify, strings.Join(sh, "")))
}

func show(m jlib.Message) string {
	if m == nil {
		return "nil"
	}
	d, err := jlib.MessageBytes(m)
	if err != nil {
		return fmt.Sprintf("%#v", m)
	}
	return string(d)
}
