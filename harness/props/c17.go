package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	jlibschema "github.com/superisaac/jlib/schema"
)

// driveC17 runs everything concurrently under the race detector: the
// verdict is its reports, read by check.py.
func driveC17(r *Run) {
	r.Rule("random concurrent use of shared clients, servers, sessions, actors, messages, schemas and auth handlers under the race detector, on the in-memory network and on loopback, and the workloads of the other concurrent properties; non-trivial: distinct (workload, transport, order in which concurrent operations ended)")
	r.Assume("the race detector reports races between accesses it observes unordered in this execution")
	if runtime.NumCPU() < 2 {
		r.Inconclusive("one processor only")
	}
	for _, part := range []struct {
		name     string
		quick, n int
		f        func(*Run, int)
	}{
		{"client", 500, 20000, c17client},
		{"server", 400, 16000, c17server},
		{"local", 400, 12000, c17local},
		{"loop", 60, 1500, c17loop},
	} {
		t := time.Now()
		for i := 0; i < r.N(part.quick, part.n); i++ {
			if r.Mine(i) {
				part.f(r, i)
				r.Count(part.name, 1)
			}
		}
		r.Count("ms_"+part.name, int(time.Since(t).Milliseconds()))
	}
	// what the workloads of other properties find wrong is theirs
	r.muted.Store(true)
	defer r.muted.Store(false)
	for bi, part := range []struct {
		quick, n int
		f        func(*Run, int)
	}{
		{150, 6000, oneC12}, {150, 6000, oneC13}, {60, 2500, oneC14},
		{100, 4000, oneC15}, {150, 6000, oneC15client},
		{60, 3000, oneC16server}, {80, 3000, oneC16client},
	} {
		t := time.Now()
		for i := 0; i < r.N(part.quick, part.n); i++ {
			if r.Mine(i) {
				part.f(r, i)
				r.Count("borrowed", 1)
			}
		}
		r.Count(fmt.Sprint("ms_borrowed_", bi), int(time.Since(t).Milliseconds()))
	}
}

// flowLog records in which order concurrent operations ended.
type flowLog struct {
	mu sync.Mutex
	b  strings.Builder
	n  map[string]int
}

func (l *flowLog) add(op string, g int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.n == nil {
		l.n = map[string]int{}
	}
	l.n[op]++
	fmt.Fprintf(&l.b, "%s%d ", op, g)
}

func (l *flowLog) done(r *Run, key string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	r.Eval(fmt.Sprintf("%s %x", key, hash64(l.b.String())))
	for op, n := range l.n {
		r.Count("op_"+op, n)
	}
}

func jitter(rng *rand.Rand) {
	switch rng.IntN(4) {
	case 0:
		runtime.Gosched()
	case 1:
		for k := rng.IntN(2000); k > 0; k-- {
			_ = k
		}
	}
}

// c17actor is shared by all sessions of a case.
func c17actor(keep func(jlibhttp.RPCSession)) *jlibhttp.Actor {
	a, child := jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(child)
	note := func(req *jlibhttp.RPCRequest) {
		if s := req.Session(); s != nil {
			keep(s)
			s.SessionID()
		}
	}
	must(a.OnRequest("echo", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		note(req)
		return params, nil
	}))
	must(child.OnTypedRequest("add", func(req *jlibhttp.RPCRequest, x, y int) (int, error) {
		note(req)
		return x + y, nil
	}))
	child.OnTyped("cat", func(p *c16Pt, l []string) (*c16Pt, error) { return p, nil })
	must(a.OnTypedContext("tctx", func(ctx context.Context, s string) (string, error) {
		jlibhttp.AuthInfoFromContext(ctx)
		return s, nil
	}))
	child.On("gated", func(params []any) (any, error) { return len(params), nil },
		jlibhttp.WithSchemaYaml("type: method\nparams:\n  - type: integer\n    maximum: 100\n  - anyOf:\n      - type: string\n      - type: object\n        properties:\n          a: {type: number}\nadditionalParams: {type: any}\n"))
	must(a.OnRequest("push", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		note(req)
		if s := req.Session(); s != nil {
			for j := 0; j < 10; j++ {
				s.Send(jlib.NewNotifyMessage("pushed", []any{j, params[0]}))
			}
		}
		return "ok", nil
	}))
	must(a.OnRequest("later", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		note(req)
		if s := req.Session(); s != nil {
			go func() {
				for j := 0; j < 8; j++ {
					s.Send(jlib.NewNotifyMessage("later", []any{j}))
				}
			}()
		}
		return nil, nil
	}))
	a.On("fail", func(params []any) (any, error) { return nil, errors.New("fails") })
	a.On("boom", func(params []any) (any, error) { panic(errors.New("boom")) })
	a.On("chan", func(params []any) (any, error) { return make(chan int), nil })
	must(a.OnClose(func(q *http.Request, s jlibhttp.RPCSession) { s.Send(jlib.NewNotifyMessage("bye", []any{})) }))
	must(child.OnClose(func(q *http.Request, s jlibhttp.RPCSession) { s.SessionID() }))
	return a
}

func c17req(rng *rand.Rand) *jlib.RequestMessage {
	id := genCallId(rng)
	switch rng.IntN(9) {
	case 0:
		return mkReq(id, "add", rng.IntN(9), rng.IntN(9))
	case 1:
		return mkReq(id, "gated", rng.IntN(200), pick[any](rng, "a", map[string]any{"a": 1.5}, 7, nil))
	case 2:
		return mkReq(id, "push", genString(rng))
	case 3:
		return mkReq(id, "later")
	case 4:
		return mkReq(id, pick(rng, "fail", "boom", "chan", "nope"))
	case 5:
		return mkReq(id, "cat", map[string]any{"x": 1, "l": []any{"a"}, "m": map[string]any{"k": 1.5}}, []any{"x"})
	case 6:
		return mkReq(id, "tctx", genString(rng))
	}
	return mkReq(id, "echo", genString(rng), rng.IntN(100))
}

// c17ops lets goroutines use the clients at random until they are done.
func c17ops(ctx context.Context, seed uint64, cls []jlibhttp.Client, workers, ops int, fl *flowLog, sessions func() []jlibhttp.RPCSession, extra func(rng *rand.Rand), patience time.Duration) func() {
	var wg sync.WaitGroup
	srng := rand.New(rand.NewPCG(seed, 1))
	var shared []jlib.Message
	var sharedReq []*jlib.RequestMessage
	for k := 0; k < 4; k++ {
		q := c17req(srng)
		q.SetTraceId(fmt.Sprintf("shared%d", k%2))
		sharedReq = append(sharedReq, q)
		shared = append(shared, q, jlib.NewNotifyMessage("echo", []any{"shared", k}))
	}
	for g := 0; g < workers; g++ {
		rng := rand.New(rand.NewPCG(seed, uint64(g)+2))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < ops; k++ {
				cl := cls[rng.IntN(len(cls))]
				st, streaming := cl.(jlibhttp.Streamable)
				cctx, cancel := ctx, func() {}
				if patience > 0 {
					cctx, cancel = context.WithTimeout(ctx, patience)
				}
				if rng.IntN(5) == 0 {
					cctx, cancel = context.WithCancel(ctx)
					if rng.IntN(2) == 0 {
						go cancel()
					} else {
						time.AfterFunc(time.Duration(rng.IntN(50))*time.Millisecond, cancel)
					}
				}
				jitter(rng)
				op := ""
				switch rng.IntN(12) {
				case 0, 1:
					op = "send"
					cl.Send(cctx, jlib.NewNotifyMessage(pick(rng, "echo", "push", "later"), []any{"x", k}))
				case 2:
					op = "sendshared"
					m := pick(rng, shared...)
					cl.Send(cctx, m)
					jlib.MessageBytes(m)
				case 3:
					op = "callshared"
					q := pick(rng, sharedReq...)
					if m, err := cl.Call(cctx, q); err == nil && m != nil {
						jlib.MessageString(m)
					}
					q.TraceId()
				case 4:
					op = "unwrap"
					var out any
					cl.UnwrapCall(cctx, c17req(rng), &out)
				case 5:
					if streaming {
						op = "close"
						closeClient(cl)
					}
				case 6:
					if streaming {
						op = "connect"
						st.Connect(cctx)
						if c, ok := cl.(interface{ Connected() bool }); ok {
							c.Connected()
						}
					}
				case 7:
					if streaming {
						op = "wait"
						wg.Add(1)
						go func() {
							defer wg.Done()
							st.Wait()
							fl.add("waited", g)
						}()
						if rng.IntN(2) == 0 {
							closeClient(cl)
						}
					}
				case 8:
					if sessions != nil {
						op = "push"
						for _, s := range sessions() {
							s.Send(pick(rng, shared...))
							s.SessionID()
						}
					}
				case 9:
					if extra != nil {
						op = "extra"
						extra(rng)
					}
				default:
					op = "call"
					if m, err := cl.Call(cctx, c17req(rng)); err == nil && m != nil {
						jlib.MessageBytes(m)
						m.TraceId()
					}
				}
				cancel()
				if op != "" {
					fl.add(op, g)
				}
			}
		}()
	}
	return wg.Wait
}

type sessSet struct {
	mu sync.Mutex
	l  []jlibhttp.RPCSession
}

func (s *sessSet) keep(x jlibhttp.RPCSession) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.l) < 8 {
		s.l = append(s.l, x)
	} else {
		s.l[int(hash64(x.SessionID())%8)] = x
	}
}

func (s *sessSet) all() []jlibhttp.RPCSession {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]jlibhttp.RPCSession(nil), s.l...)
}

func c17client(r *Run, i int) {
	rng := r.Rand("client", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	ncl := 1 + rng.IntN(3)
	workers := 2 + rng.IntN(7)
	c := map[string]any{"i": i, "proto": proto, "clients": ncl, "workers": workers}
	r.world("C17", c, rng, func(w *world) {
		ss := &sessSet{}
		w.serve("srv", w.handlerFor(proto, c17actor(ss.keep), rng.IntN(2) == 0), tlsFor(proto))
		fl := &flowLog{}
		var cls []jlibhttp.Client
		var got atomic.Int64
		for k := 0; k < ncl; k++ {
			cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
			must(cl.OnMessage(func(m jlib.Message) {
				got.Add(1)
				jlib.MessageBytes(m)
				if got.Load()%17 == 0 {
					go cl.Send(w.Ctx, m)
				}
			}))
			if rng.IntN(2) == 0 {
				must(cl.OnConnected(func() { cl.Send(w.Ctx, jlib.NewNotifyMessage("echo", []any{"hello"})) }))
			}
			must(cl.OnClose(func() { got.Add(1) }))
			cls = append(cls, cl)
		}
		cut := func(rng *rand.Rand) {
			conns := w.Net.Conns()
			// the http2 library would back off for a while under the
			// lock other callers wait for
			if len(conns) > 0 && strings.HasPrefix(proto, "ws") {
				mc := conns[len(conns)-1]
				switch rng.IntN(3) {
				case 0:
					mc.Reset()
				case 1:
					mc.Peer.Close()
				}
			}
		}
		wait := c17ops(w.Ctx, uint64(i)*7+r.Seed, cls, workers, 12, fl, ss.all, cut, 0)
		time.Sleep(time.Minute)
		for _, cl := range cls {
			closeClient(cl)
		}
		if !await(time.Hour, wait) {
			r.Count("stuck", 1)
		}
		fl.done(r, "client "+proto)
		r.Count("pushed_received", int(got.Load()))
		if i%101 == 0 {
			r.Sample(c)
		}
	})
}

// c17server: one gateway with auth, shared by clients of all protocols.
func c17server(r *Run, i int) {
	rng := r.Rand("server", i)
	tls := rng.IntN(3) == 0
	workers := 2 + rng.IntN(6)
	h2 := rng.IntN(2) == 0
	c := map[string]any{"i": i, "h2": h2, "tls": tls, "workers": workers}
	r.world("C17", c, rng, func(w *world) {
		ss := &sessSet{}
		actor := c17actor(ss.keep)
		sctx, scancel := context.WithCancel(w.Ctx)
		defer scancel()
		cfg := &jlibhttp.AuthConfig{
			Basic:  []jlibhttp.BasicAuthConfig{{Username: "u", Password: "p", Settings: map[string]any{"k": 1}}},
			Bearer: []jlibhttp.BearerAuthConfig{{Token: "tok", Username: "b"}},
			Jwt:    &jlibhttp.JwtAuthConfig{Secret: "s3cret"},
		}
		auth := jlibhttp.NewAuthHandler(cfg, jlibhttp.NewGatewayHandler(sctx, actor, !tls))
		var scfg = tlsFor("ws")
		protos := []string{"ws"}
		if tls {
			scfg = tlsFor("wss")
			protos = []string{"wss"}
		}
		if h2 {
			// cuts would make the http2 library back off under locks
			protos = append(protos, map[bool]string{true: "h2", false: "h2c"}[tls])
		}
		w.serve("srv", auth, scfg)
		fl := &flowLog{}
		var cls []jlibhttp.Client
		tokens := []string{}
		for k := 0; k < 3; k++ {
			tokens = append(tokens, signJWT("HS256", "s3cret", map[string]any{"username": fmt.Sprint("j", k), "exp": time.Now().Unix() + int64(rng.IntN(100))}))
		}
		for k := 0; k < 2+rng.IntN(4); k++ {
			p := pick(rng, protos...)
			cl := w.clientTLS(p, "srv", clientTLSFor(p))
			hdr := http.Header{}
			switch rng.IntN(4) {
			case 0:
				hdr.Set("Authorization", "Bearer tok")
			case 1:
				hdr.Set("Authorization", basicAuth("u", "p"))
			case 2:
				hdr.Set("Authorization", "Bearer nope")
			default:
				hdr.Set("Authorization", "Bearer "+pick(rng, tokens...))
			}
			cl.SetExtraHeader(hdr)
			must(cl.OnMessage(func(m jlib.Message) { jlib.MessageBytes(m) }))
			cls = append(cls, cl)
		}
		extra := func(rng *rand.Rand) {
			switch rng.IntN(5) {
			case 0, 1, 2:
				if !tls {
					w.h1Post("srv", []byte(`{"jsonrpc":"2.0","id":1,"method":"`+pick(rng, "echo", "gated", "add", "fail")+`","params":[1,"a"]}`),
						http.Header{"Authorization": {"Bearer " + pick(rng, tokens...)}, "X-Trace-Id": {"t"}})
				}
			case 3:
				actor.Has("add")
				actor.MethodList()
				actor.GetSchema("gated")
			case 4:
				conns := w.Net.Conns()
				if len(conns) > 0 && !h2 {
					pick(rng, conns...).Reset()
				}
			}
		}
		wait := c17ops(w.Ctx, uint64(i)*13+r.Seed, cls, workers, 10, fl, ss.all, extra, 0)
		if rng.IntN(3) == 0 {
			time.Sleep(time.Duration(rng.IntN(30)) * time.Millisecond)
			scancel()
		}
		time.Sleep(time.Minute)
		for _, cl := range cls {
			closeClient(cl)
		}
		if !await(time.Hour, wait) {
			r.Count("stuck", 1)
		}
		fl.done(r, "server")
	})
}

// c17local: schemas, actors, messages and auth without network.
func c17local(r *Run, i int) {
	rng := r.Rand("local", i)
	r.Journal(map[string]any{"i": i, "part": "local"})
	gs, err := c17schema(rng)
	if err != nil {
		return
	}
	docs := make([]any, 12)
	for k := range docs {
		docs[k] = genValue(rng, 3)
	}
	fl := &flowLog{}
	ss := &sessSet{}
	actor := c17actor(ss.keep)
	msgs := []*jlib.RequestMessage{}
	for k := 0; k < 6; k++ {
		q := c17req(rng)
		q.SetTraceId("t")
		msgs = append(msgs, q)
	}
	auth := jlibhttp.NewAuthHandler(&jlibhttp.AuthConfig{Jwt: &jlibhttp.JwtAuthConfig{Secret: "k"}, Basic: []jlibhttp.BasicAuthConfig{{Username: "a", Password: "b"}}},
		http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { jlibhttp.AuthInfoFromContext(q.Context()) }))
	toks := make([]string, 110)
	for k := range toks {
		toks[k] = "Bearer " + signJWT("HS256", "k", map[string]any{"username": fmt.Sprint(k), "exp": time.Now().Unix() + 3600})
	}
	var wg sync.WaitGroup
	for g := 0; g < 2+rng.IntN(6); g++ {
		seed := rng.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewPCG(seed, 9))
			for k := 0; k < 20; k++ {
				jitter(rng)
				op := ""
				switch rng.IntN(8) {
				case 0, 1:
					op = "validate"
					jlibschema.NewSchemaValidator().Validate(gs, pick(rng, docs...))
				case 2:
					op = "export"
					json.Marshal(gs.Map())
					jlibschema.SchemaToString(gs)
				case 3:
					op = "feed"
					q := pick(rng, msgs...)
					actor.Feed(jlibhttp.NewRPCRequest(context.Background(), q, jlibhttp.TransportHTTP, nil))
				case 4:
					op = "encode"
					q := pick(rng, msgs...)
					jlib.MessageBytes(q)
					q.Clone(k)
					q.ReplaceId("x")
					q.Log()
				case 5:
					op = "auth"
					q, _ := http.NewRequest("POST", "http://srv/", nil)
					q.Header.Set("Authorization", pick(rng, toks...))
					auth.TryAuth(q)
				case 6:
					op = "query"
					actor.Has("add")
					actor.MethodList()
					if s, ok := actor.GetSchema("gated"); ok {
						jlibschema.NewSchemaValidator().Validate(s, pick(rng, docs...))
						s.Map()
					}
				case 7:
					op = "build"
					jlibschema.NewSchemaBuilder().BuildBytes([]byte(`{"type":"object","properties":{"a":{"type":"list","items":[{"type":"string"}],"additionalItems":{"type":"number"}}}}`))
					gs.Equal(gs)
				}
				fl.add(op, g)
			}
		}()
	}
	wg.Wait()
	fl.done(r, "local")
}

func c17schema(rng *rand.Rand) (s jlibschema.Schema, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	m := genSch(rng, 3, schOpts{meta: true}, true)
	return jlibschema.NewSchemaBuilder().BuildBytes([]byte(rawJSON(rng, m.doc())))
}

// c17loop: real sockets, all client kinds on one gateway.
func c17loop(r *Run, i int) {
	rng := r.Rand("loop", i)
	tls := rng.IntN(2) == 0
	c := map[string]any{"i": i, "part": "loop", "tls": tls}
	r.Journal(c)
	defer r.recoverCase("C17", c)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ss := &sessSet{}
	srv := r.loopServe(jlibhttp.NewGatewayHandler(ctx, c17actor(ss.keep), !tls), tls)
	defer srv.Close()
	var cls []jlibhttp.Client
	for _, fam := range []string{"http", "ws", "h2", "http"} {
		cl, err := srv.client(fam)
		if err != nil {
			continue
		}
		cl.SetExtraHeader(http.Header{"X-A": {"1", "2"}})
		if st, ok := cl.(jlibhttp.Streamable); ok {
			must(st.OnMessage(func(m jlib.Message) { jlib.MessageBytes(m) }))
		}
		cls = append(cls, cl)
	}
	fl := &flowLog{}
	wait := c17ops(ctx, uint64(i)*17+r.Seed, cls, 3+rng.IntN(5), 10, fl, ss.all, nil, 300*time.Millisecond)
	stop := make(chan struct{})
	go func() {
		// waiters end when their connection does
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
				for _, cl := range cls {
					closeClient(cl)
				}
			}
		}
	}()
	if !realWait(60*time.Second, wait) {
		r.Count("stuck", 1)
	}
	close(stop)
	for _, cl := range cls {
		closeClient(cl)
	}
	fl.done(r, "loop")
}
