package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// A service of the harness whose handlers take effect under one lock.  It
// records the moment and the value of every effect, the history is then
// judged against these linearization points.

type effect struct {
	seq   int64
	count int
	value string // canonical result
}

type ledger struct {
	lock    chanLock
	clock   *atomic.Int64
	regs    map[string]int
	lists   map[string][]string
	effects map[string]*effect
	subs    map[string]jlibhttp.RPCSession
	order   []string // items pushed so far
	subbed  map[string]int
	closed  map[string]int
	rngMu   sync.Mutex
	rng     *rand.Rand
	maxWait time.Duration
}

func newLedger(rng *rand.Rand, maxWait time.Duration) *ledger {
	return &ledger{lock: newChanLock(), clock: &atomic.Int64{}, regs: map[string]int{}, lists: map[string][]string{},
		effects: map[string]*effect{}, subs: map[string]jlibhttp.RPCSession{}, subbed: map[string]int{}, closed: map[string]int{},
		rng: rand.New(rand.NewPCG(rng.Uint64(), rng.Uint64())), maxWait: maxWait}
}

func (l *ledger) pause() {
	if l.maxWait <= 0 {
		return
	}
	l.rngMu.Lock()
	d := time.Duration(0)
	if l.rng.IntN(3) == 0 {
		d = time.Duration(l.rng.Int64N(int64(l.maxWait)))
	}
	l.rngMu.Unlock()
	time.Sleep(d)
}

var errEmpty = &jlib.RPCError{Code: -400, Message: "empty"}

func (l *ledger) actor() *jlibhttp.Actor {
	a, sub := jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(sub)
	on := func(a *jlibhttp.Actor, method string, f func(req *jlibhttp.RPCRequest, p []any) (any, error)) {
		must(a.OnRequest(method, func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			tok := fmt.Sprint(p[0])
			l.pause()
			l.lock.Lock()
			v, err := f(req, p)
			e := l.effects[tok]
			if e == nil {
				e = &effect{}
				l.effects[tok] = e
			}
			e.count++
			e.seq = l.clock.Add(1)
			e.value = canon(v)
			if err != nil {
				e.value = "error"
			}
			l.lock.Unlock()
			l.pause()
			return v, err
		}))
	}
	on(a, "add", func(_ *jlibhttp.RPCRequest, p []any) (any, error) {
		k := fmt.Sprint(p[1])
		l.regs[k]++
		return l.regs[k], nil
	})
	on(a, "get", func(_ *jlibhttp.RPCRequest, p []any) (any, error) {
		return map[string]any{"value": l.regs[fmt.Sprint(p[1])], "of": p[1]}, nil
	})
	on(sub, "put", func(_ *jlibhttp.RPCRequest, p []any) (any, error) {
		k := fmt.Sprint(p[1])
		l.lists[k] = append(l.lists[k], fmt.Sprint(p[0]))
		return len(l.lists[k]), nil
	})
	on(sub, "take", func(_ *jlibhttp.RPCRequest, p []any) (any, error) {
		k := fmt.Sprint(p[1])
		s := l.lists[k]
		if len(s) == 0 {
			return nil, errEmpty
		}
		l.lists[k] = s[1:]
		return s[0], nil
	})
	on(sub, "list", func(_ *jlibhttp.RPCRequest, p []any) (any, error) {
		return append([]string{}, l.lists[fmt.Sprint(p[1])]...), nil
	})
	on(a, "push", func(_ *jlibhttp.RPCRequest, p []any) (any, error) {
		item := fmt.Sprint(p[0])
		l.order = append(l.order, item)
		for _, s := range l.subs {
			s.Send(jlib.NewNotifyMessage("item", []any{item}))
		}
		return len(l.order), nil
	})
	on(a, "subscribe", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		l.subs[req.Session().SessionID()] = req.Session()
		l.subbed[fmt.Sprint(p[0])] = len(l.order)
		return len(l.order), nil
	})
	must(a.OnClose(func(_ *http.Request, s jlibhttp.RPCSession) {
		l.lock.Lock()
		defer l.lock.Unlock()
		delete(l.subs, s.SessionID())
		l.closed[s.SessionID()]++
	}))
	return a
}

// one call of the history
type opCall struct {
	token  string
	method string
	key    string
	notify bool
	start  int64
	end    int64
	done   bool
	value  string // canonical result or "error"
	failed error  // no outcome
	via    string
}

func genOp(rng *rand.Rand, token string) *opCall {
	o := &opCall{token: token, method: pick(rng, "add", "add", "get", "put", "take", "list", "push"), key: fmt.Sprintf("k%d", rng.IntN(3))}
	o.notify = rng.IntN(8) == 0 && o.method != "get" && o.method != "list" && o.method != "take"
	return o
}

func (o *opCall) params() []any { return []any{o.token, o.key} }

// settle reads the outcome of a call.
func (o *opCall) settle(clock *atomic.Int64, m jlib.Message, err error) {
	o.end = clock.Add(1)
	o.done = true
	switch {
	case err != nil:
		o.failed = err
	case o.notify:
	case m == nil:
		o.failed = errNoAnswer
	case m.IsResult():
		o.value = canon(m.MustResult())
	case m.IsError() && m.MustError().Code == errEmpty.Code:
		o.value = "error"
	case m.IsError():
		o.failed = m.MustError()
	}
}

// judge checks the history against the effects, faulty tells whether calls
// may fail.  It must be called with the service settled.
func (l *ledger) judge(r *Run, c any, ops []*opCall, subs []*subscriber, faulty bool) (failed, applied int) {
	l.lock.Lock()
	defer l.lock.Unlock()
	known := map[string]bool{}
	for _, o := range ops {
		known[o.token] = true
		e := l.effects[o.token]
		what := fmt.Sprintf("%s %s(%s) by %s", o.token, o.method, o.key, o.via)
		if o.notify {
			what += " (notify)"
		}
		if !o.done {
			r.Violate("C23:stuck", c, "%s has not returned", what)
			continue
		}
		if e != nil && e.count > 1 {
			r.Violate("C23:twice", c, "%s took effect %d times, its outcome: %s %v", what, e.count, o.value, o.failed)
			continue
		}
		if e != nil && e.seq <= o.start {
			r.Violate("C23:order", c, "%s took effect before it was called", what)
		}
		if e != nil {
			applied++
		}
		if o.failed != nil {
			failed++
			if !faulty {
				r.Violate("C23:failed", c, "%s failed without reason: %v", what, o.failed)
			}
			continue
		}
		if e == nil {
			if !(o.notify && faulty) {
				r.Violate("C23:lost", c, "%s returned %s but never took effect", what, o.value)
			}
			continue
		}
		if o.notify {
			continue
		}
		if e.seq >= o.end {
			r.Violate("C23:order", c, "%s returned before it took effect", what)
		}
		if o.value != e.value {
			r.Violate("C23:value", c, "%s returned %s, its effect was %s", what, o.value, e.value)
		}
	}
	for _, s := range subs {
		known[s.token] = true
	}
	for tok := range l.effects {
		if !known[tok] {
			r.Violate("C23:unknown", c, "an effect nobody called for: %s", tok)
		}
	}
	for sid, n := range l.closed {
		if n != 1 {
			r.Violate("C23:closed", c, "session %s was closed %d times", sid, n)
		}
	}
	for _, s := range subs {
		s.judge(r, c, l, faulty)
	}
	return
}

// subscriber collects what is pushed to one session.
type subscriber struct {
	token  string
	via    string
	mu     sync.Mutex
	got    []string
	other  []string
	left   bool // it went away by itself
	ok     bool // the subscription was confirmed
	err    error
	atSub  string
	cl     jlibhttp.Streamable
	active bool
}

func (s *subscriber) onMessage(m jlib.Message) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if m.IsNotify() && m.MustMethod() == "item" && len(m.MustParams()) == 1 {
		s.got = append(s.got, fmt.Sprint(m.MustParams()[0]))
		return
	}
	s.other = append(s.other, clip(jlib.MessageString(m), 200))
}

func (s *subscriber) judge(r *Run, c any, l *ledger, faulty bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil && !faulty && !s.left {
		r.Violate("C23:failed", c, "subscribing by %s failed without reason: %v", s.via, s.err)
		return
	}
	if len(s.other) > 0 {
		r.Violate("C23:subscriber", c, "a subscriber by %s got messages nobody sent: %v", s.via, s.other)
	}
	a, ok := l.subbed[s.token]
	if !ok {
		if len(s.got) > 0 {
			r.Violate("C23:subscriber", c, "%s got items without being subscribed: %v", s.via, s.got)
		}
		return
	}
	if e := l.effects[s.token]; e != nil && e.count > 1 {
		r.Violate("C23:twice", c, "a subscription by %s took effect %d times", s.via, e.count)
		return
	}
	if s.ok && s.atSub != canon(a) {
		r.Violate("C23:value", c, "subscribing by %s returned %s, its effect was %d", s.via, s.atSub, a)
	}
	want := l.order[a:]
	if s.left || faulty {
		if len(s.got) > len(want) {
			r.Violate("C23:subscriber", c, "%s got %d items, only %d were pushed", s.via, len(s.got), len(want))
			return
		}
		want = want[:len(s.got)]
	}
	if strings.Join(want, " ") != strings.Join(s.got, " ") {
		r.Violate("C23:subscriber", c, "a subscriber by %s (left=%v) got %d items %s, pushed were %d: %s", s.via, s.left,
			len(s.got), clip(strings.Join(s.got, " "), 1500), len(want), clip(strings.Join(want, " "), 1500))
	}
	r.Count("items_received", len(s.got))
}

func driveC23(r *Run) {
	r.Rule("concurrent calls and notifies over HTTP/1, WebSocket and HTTP/2 against a service that takes effect under one lock and records every effect, with latency, fragmentation, connection resets, leaving subscribers and (loopback) servers that abort before or after the effect; each call is judged against its recorded linearization point; non-trivial: distinct (transports, fault, number failed, number applied)")
	n := r.N(500, 25000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC23(r, i)
		}
	}
	m := r.N(40, 1200)
	for i := 0; i < m; i++ {
		if r.Mine(i) {
			loopC23(r, i)
		}
	}
}

func oneC23(r *Run, i int) {
	rng := r.Rand("history", i)
	useTLS := rng.IntN(4) == 0
	fault := pick(rng, "none", "none", "reset", "reset", "bytes")
	shared := rng.IntN(2) == 0
	ncl := 1 + rng.IntN(4)
	each := 3 + rng.IntN(12)
	nsub := rng.IntN(4)
	c := map[string]any{"i": i, "tls": useTLS, "fault": fault, "shared": shared, "clients": ncl, "each": each, "subscribers": nsub}
	faulty := fault != "none"
	r.world("C23", c, rng, func(w *world) {
		l := newLedger(rng, pick(rng, 0, time.Millisecond, time.Second))
		if (!faulty || !shared) && rng.IntN(2) == 0 {
			w.Net.Plan = Jitter(rng, time.Duration(rng.IntN(150))*time.Millisecond, 1+rng.IntN(900))
		}
		if fault == "bytes" {
			prev := w.Net.Plan
			prng := rand.New(rand.NewPCG(rng.Uint64(), 1))
			var mu sync.Mutex
			w.Net.Plan = func(n int, mc *MemConn) {
				if prev != nil {
					prev(n, mc)
				}
				mu.Lock()
				defer mu.Unlock()
				switch prng.IntN(3) {
				case 0:
					mc.wr.cutAt = 600 + int64(prng.IntN(6000))
				case 1:
					mc.rd.cutAt = 600 + int64(prng.IntN(6000))
				}
			}
		}
		var cfg = tlsFor("ws")
		if useTLS {
			cfg = certs().server
		}
		w.serve("srv", jlibhttp.NewGatewayHandler(w.Ctx, l.actor(), !useTLS), cfg)
		protos := []string{"ws", "h2c"}
		if useTLS {
			protos = []string{"wss", "h2"}
		}
		var ops []*opCall
		var mu sync.Mutex
		vias := map[string]bool{}
		var wg sync.WaitGroup
		perClient := 1
		if shared {
			perClient = 2 + rng.IntN(4)
		}
		seqs := 0
		for k := 0; k < ncl; k++ {
			via := pick(rng, protos[0], protos[1], protos[0], protos[1], "h1")
			if useTLS && via == "h1" {
				via = protos[0]
			}
			vias[via] = true
			var cl jlibhttp.Streamable
			if via != "h1" {
				cl = w.clientTLS(via, "srv", clientTLSFor(via))
				if err := cl.Connect(w.Ctx); err != nil && !faulty {
					w.violate("connect", "connect: %v", err)
					return
				}
			}
			for p := 0; p < perClient; p++ {
				var mine []*opCall
				waits := []time.Duration{}
				for x := 0; x < each; x++ {
					seqs++
					o := genOp(rng, fmt.Sprintf("op%d", seqs))
					o.via = via
					mine = append(mine, o)
					d := time.Duration(0)
					if rng.IntN(2) == 0 {
						d = time.Duration(rng.IntN(300)) * time.Millisecond
					}
					waits = append(waits, d)
				}
				ops = append(ops, mine...)
				ids := pick(rng, 0, 1, 2)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for x, o := range mine {
						time.Sleep(waits[x])
						var id any = o.token
						if ids == 1 {
							id = x // equal ids among the callers
						} else if ids == 2 {
							id = "same"
						}
						w.runOp(l, &mu, cl, o, id)
					}
				}()
			}
		}
		var subs []*subscriber
		for k := 0; k < nsub; k++ {
			via := pick(rng, protos...)
			s := &subscriber{token: fmt.Sprintf("sub%d", k), via: via}
			subs = append(subs, s)
			s.cl = w.clientTLS(via, "srv", clientTLSFor(via))
			must(s.cl.OnMessage(s.onMessage))
			begin := time.Duration(rng.IntN(1500)) * time.Millisecond
			leave := time.Duration(0)
			if rng.IntN(2) == 0 {
				leave = time.Duration(rng.IntN(2000)) * time.Millisecond
				s.left = true
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(begin)
				if s.left {
					tm := time.AfterFunc(leave, func() { closeClient(s.cl) })
					defer func() {
						_ = tm
					}()
				}
				m, err := s.cl.Call(w.Ctx, mkReq(s.token, "subscribe", s.token))
				s.mu.Lock()
				defer s.mu.Unlock()
				if err == nil && m.IsError() {
					err = m.MustError()
				}
				s.err, s.ok = err, err == nil
				if s.ok {
					s.atSub = canon(m.MustResult())
				}
			}()
		}
		if fault == "reset" {
			frng := rand.New(rand.NewPCG(rng.Uint64(), 2))
			times := 1 + frng.IntN(4)
			go func() {
				for ; times > 0; times-- {
					time.Sleep(time.Duration(frng.IntN(1200)) * time.Millisecond)
					if cs := w.Net.Conns(); len(cs) > 0 {
						cs[frng.IntN(len(cs))].Reset()
						r.Count("resets", 1)
					}
				}
			}()
		}
		await(3*time.Minute, wg.Wait)
		time.Sleep(20 * time.Second)
		mu.Lock()
		defer mu.Unlock()
		failed, applied := l.judge(r, c, ops, subs, faulty)
		r.Count("calls", len(ops))
		r.Count("failed", failed)
		r.Count("fault_"+fault, 1)
		r.Eval(fmt.Sprintf("%v %s %v %d %d", sortedKeys(vias), fault, shared, failed, applied))
		if i%97 == 0 {
			r.Sample(map[string]any{"case": c, "failed": failed, "applied": applied, "pushed": len(l.order)})
		}
	})
}

// runOp makes one call and records its outcome under mu.
func (w *world) runOp(l *ledger, mu *sync.Mutex, cl jlibhttp.Client, o *opCall, id any) {
	start := l.clock.Add(1)
	var m jlib.Message
	var err error
	var msg jlib.Message = jlib.NewRequestMessage(id, o.method, o.params())
	if o.notify {
		msg = jlib.NewNotifyMessage(o.method, o.params())
	}
	mu.Lock()
	o.start = start
	mu.Unlock()
	switch {
	case cl == nil:
		var resp *http.Response
		var body []byte
		resp, body, err = w.h1Post("srv", []byte(jlib.MessageString(msg)), nil)
		if err == nil && resp.StatusCode != 200 {
			err = fmt.Errorf("status %d", resp.StatusCode)
		}
		if err == nil && !o.notify {
			m, err = jlib.ParseBytes(body)
		}
	case o.notify:
		err = cl.Send(w.Ctx, msg)
	default:
		m, err = cl.Call(w.Ctx, msg.(*jlib.RequestMessage))
	}
	mu.Lock()
	defer mu.Unlock()
	o.settle(l.clock, m, err)
}

// loopC23 is the history over the loopback interface, with the HTTP/1
// client and servers that abort.
func loopC23(r *Run, i int) {
	rng := r.Rand("loop", i)
	abort := rng.IntN(3) != 0
	useTLS := rng.IntN(4) == 0
	c := map[string]any{"i": i, "loopback": true, "abort": abort, "tls": useTLS}
	r.Journal(c)
	defer r.recoverCase("C23", c)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	l := newLedger(rng, pick(rng, 0, 200*time.Microsecond))
	gw := jlibhttp.NewGatewayHandler(ctx, l.actor(), !useTLS)
	salt := rng.Uint64()
	var aborted atomic.Int64
	var h http.Handler = gw
	if abort {
		h = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			if req.Method != "POST" || req.ProtoMajor != 1 {
				gw.ServeHTTP(rw, req)
				return
			}
			body, err := io.ReadAll(req.Body)
			if err != nil {
				return
			}
			f := fnv.New64a()
			f.Write(body)
			fate := (f.Sum64() ^ salt) % 11
			req.Body = io.NopCloser(bytes.NewReader(body))
			switch fate {
			case 0: // nothing happens
				aborted.Add(1)
				panic(http.ErrAbortHandler)
			case 1: // the answer is lost
				aborted.Add(1)
				gw.ServeHTTP(&nullWriter{}, req)
				panic(http.ErrAbortHandler)
			case 2: // an answer of another kind
				aborted.Add(1)
				gw.ServeHTTP(&nullWriter{}, req)
				rw.WriteHeader(503)
			case 3: // a truncated answer
				aborted.Add(1)
				gw.ServeHTTP(&nullWriter{}, req)
				rw.Header().Set("Content-Length", "1000")
				rw.Write([]byte(`{"jsonrpc":"2.0","id":`))
			case 4: // an answer which isn't JSON
				aborted.Add(1)
				gw.ServeHTTP(&nullWriter{}, req)
				rw.Write([]byte(`<html>`))
			default:
				gw.ServeHTTP(rw, req)
			}
		})
	}
	s := r.loopServe(h, useTLS)
	defer s.Close()
	var ops []*opCall
	var mu sync.Mutex
	var wg sync.WaitGroup
	families := []string{"http", "ws", "h2"}
	w := &world{Ctx: ctx}
	seqs := 0
	var subs []*subscriber
	var cls []jlibhttp.Client
	for k := 0; k < 3+rng.IntN(3); k++ {
		fam := families[k%3]
		cl, err := s.client(fam)
		if err != nil {
			r.Violate("C23:client", c, "client: %v", err)
			return
		}
		cls = append(cls, cl)
		for p := 0; p < 1+rng.IntN(5); p++ {
			var mine []*opCall
			for x := 0; x < 10+rng.IntN(30); x++ {
				seqs++
				o := genOp(rng, fmt.Sprintf("op%d", seqs))
				o.via = "loopback " + fam
				mine = append(mine, o)
			}
			ops = append(ops, mine...)
			same := rng.IntN(2) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				for x, o := range mine {
					var id any = o.token
					if same {
						id = x
					}
					w.runOp(l, &mu, cl, o, id)
				}
			}()
		}
	}
	for k := 0; k < rng.IntN(3); k++ {
		fam := pick(rng, "ws", "h2")
		cl, err := s.client(fam)
		must(err)
		sub := &subscriber{token: fmt.Sprintf("sub%d", k), via: "loopback " + fam, cl: cl.(jlibhttp.Streamable), left: rng.IntN(2) == 0}
		must(sub.cl.OnMessage(sub.onMessage))
		subs = append(subs, sub)
		wg.Add(1)
		go func() {
			defer wg.Done()
			m, err := sub.cl.Call(ctx, mkReq(sub.token, "subscribe", sub.token))
			sub.mu.Lock()
			if err == nil && m.IsError() {
				err = m.MustError()
			}
			sub.err, sub.ok = err, err == nil
			if sub.ok {
				sub.atSub = canon(m.MustResult())
			}
			sub.mu.Unlock()
			if sub.left {
				closeClient(sub.cl)
			}
		}()
	}
	if !realWait(2*time.Minute, wg.Wait) {
		r.Inconclusive("C23 loopback case %d did not end", i)
		return
	}
	// a call on the subscriber's session is answered after the items
	for _, sub := range subs {
		if sub.ok && !sub.left {
			o := &opCall{token: "last-" + sub.token, method: "get", key: "k0", via: sub.via}
			ops = append(ops, o)
			w.runOp(l, &mu, sub.cl, o, o.token)
		}
	}
	// notifies of streaming clients may still be on their way
	for _, cl := range cls {
		if cl.IsStreaming() {
			o := &opCall{token: fmt.Sprintf("end%d", len(ops)), method: "get", key: "k0", via: "end"}
			ops = append(ops, o)
			w.runOp(l, &mu, cl, o, o.token)
		}
	}
	settled := func() bool {
		l.lock.Lock()
		defer l.lock.Unlock()
		for _, o := range ops {
			if o.notify && o.failed == nil && l.effects[o.token] == nil {
				return false
			}
		}
		return true
	}
	lost := func() bool { return !settled() }
	for x := 0; x < 12000 && lost(); x++ {
		time.Sleep(5 * time.Millisecond)
	}
	// items pushed by the last notifies
	for _, sub := range subs {
		if sub.ok && !sub.left {
			for x := 0; x < 12000; x++ {
				l.lock.Lock()
				n := len(l.order) - l.subbed[sub.token]
				l.lock.Unlock()
				sub.mu.Lock()
				g := len(sub.got)
				sub.mu.Unlock()
				if g >= n {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
	}
	for _, cl := range cls {
		closeClient(cl)
	}
	for _, sub := range subs {
		closeClient(sub.cl)
	}
	// only calls by HTTP/1 are disturbed
	var calm, stormy []*opCall
	for _, o := range ops {
		if abort && o.via == "loopback http" {
			stormy = append(stormy, o)
		} else {
			calm = append(calm, o)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	failed, applied := l.judgeBoth(r, c, calm, stormy, subs)
	r.Count("loop_calls", len(ops))
	r.Count("loop_failed", failed)
	r.Count("loop_aborted", int(aborted.Load()))
	r.Eval(fmt.Sprintf("loop %v %v %d %d", abort, useTLS, failed, applied))
}

func (l *ledger) judgeBoth(r *Run, c any, calm, stormy []*opCall, subs []*subscriber) (failed, applied int) {
	// each part is judged by its own rules, the tokens of the other are known
	l.lock.Lock()
	rest := map[string]*effect{}
	for _, o := range stormy {
		if e := l.effects[o.token]; e != nil {
			rest[o.token] = e
			delete(l.effects, o.token)
		}
	}
	l.lock.Unlock()
	f1, a1 := l.judge(r, c, calm, subs, false)
	l.lock.Lock()
	l.effects = rest
	l.closed = map[string]int{}
	l.lock.Unlock()
	f2, a2 := l.judge(r, c, stormy, nil, true)
	return f1 + f2, a1 + a2
}

type nullWriter struct{ h http.Header }

func (n *nullWriter) Header() http.Header {
	if n.h == nil {
		n.h = http.Header{}
	}
	return n.h
}
func (n *nullWriter) Write(p []byte) (int, error) { return len(p), nil }
func (n *nullWriter) WriteHeader(int)             {}

var _ = errors.New
