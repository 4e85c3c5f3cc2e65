package props

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

func driveC31(r *Run) {
	r.Rule("up to 5 peers of all transports (clients and raw peers) of one server behind an auth handler and a middleware which puts a value into the request context; handlers of every kind (request, context, typed, missing, in children) keep their context, holding the call or returning at once, while calls time out and are cancelled, other peers close, break off, send malformed messages and the clock runs for hours; which contexts are done is compared with which sessions and requests live; non-trivial: distinct (transports, kinds of handlers held, sequence of events)")
	n := r.N(1500, 60000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC31(r, i)
		}
	}
}

type c31key struct{}

// held31 is a context a handler got.
type held31 struct {
	who, tag string
	ctx      context.Context
	release  chan struct{}
}

type c31peer struct {
	name   string
	kind   string // h1, ws, wss, h2, h2c
	host   string
	tls    *tls.Config
	raw    rawConn
	mc     *MemConn
	cl     jlibhttp.Streamable
	h1     map[string]*MemConn // by tag, its requests
	alive  bool
	n      int
	tags   []string
	sid    string
	cancel map[string]context.CancelFunc // pending calls
}

// c31actor keeps contexts of handlers.
type c31book struct {
	mu   sync.Mutex
	held map[string]*held31
	sids map[string]map[string]bool // session ids by peer
	bad  []string

	closed int
}

func (b *c31book) complain(format string, args ...any) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.bad) < 20 {
		b.bad = append(b.bad, fmt.Sprintf(format, args...))
	}
}

// got notes the context a handler was called with.
func (b *c31book) got(how string, ctx context.Context, req *jlibhttp.RPCRequest, who, tag string) *held31 {
	if v, _ := ctx.Value(c31key{}).(string); v != who {
		b.complain("%s handler called by %s has a context with the value %q", how, who, v)
	}
	info, ok := jlibhttp.AuthInfoFromContext(ctx)
	switch {
	case !ok || info == nil:
		b.complain("%s handler called by %s has a context without auth info", how, who)
	case info.Username != "u-"+who || info.Settings["who"] != who:
		b.complain("%s handler called by %s has a context with the auth info %+v", how, who, info)
	}
	if req != nil {
		if h := req.HttpRequest().Header.Get("X-Who"); h != who {
			b.complain("%s handler called by %s has a http request with the header %q", how, who, h)
		}
		if v, _ := req.HttpRequest().Context().Value(c31key{}).(string); v != who {
			b.complain("%s handler called by %s has a http request with the value %q", how, who, v)
		}
		if s := req.Session(); s != nil {
			b.mu.Lock()
			if b.sids[who] == nil {
				b.sids[who] = map[string]bool{}
			}
			b.sids[who][s.SessionID()] = true
			b.mu.Unlock()
		}
	}
	h := &held31{who: who, tag: tag, ctx: ctx, release: make(chan struct{})}
	b.mu.Lock()
	if b.held[tag] != nil {
		b.bad = append(b.bad, "handlers were called twice for "+tag)
	}
	b.held[tag] = h
	b.mu.Unlock()
	return h
}

func (h *held31) stay(hold bool) (string, error) {
	if !hold {
		return h.tag, nil
	}
	select {
	case <-h.ctx.Done():
		return "", errors.New("over")
	case <-h.release:
		return h.tag, nil
	}
}

func (b *c31book) actor() *jlibhttp.Actor {
	a, c1, c2 := jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(c1)
	c1.AddChild(c2)
	args := func(p []any) (who, tag string, hold bool) {
		who, _ = p[0].(string)
		tag, _ = p[1].(string)
		hold, _ = p[2].(bool)
		return
	}
	must(a.OnRequest("req", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		who, tag, hold := args(p)
		return b.got("request", req.Context(), req, who, tag).stay(hold)
	}))
	c1.OnContext("ctx", func(ctx context.Context, p []any) (any, error) {
		who, tag, hold := args(p)
		return b.got("context", ctx, nil, who, tag).stay(hold)
	})
	must(c2.OnTypedRequest("treq", func(req *jlibhttp.RPCRequest, who, tag string, hold bool) (string, error) {
		return b.got("typed request", req.Context(), req, who, tag).stay(hold)
	}))
	must(c1.OnTypedContext("tctx", func(ctx context.Context, who, tag string, hold bool) (string, error) {
		return b.got("typed context", ctx, nil, who, tag).stay(hold)
	}))
	must(c2.OnRequest("deep", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		who, tag, hold := args(p)
		return b.got("child's request", req.Context(), req, who, tag).stay(hold)
	}, jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"string"},{"type":"string"},{"type":"bool"}]}`)))
	must(a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
		p := req.Msg().MustParams()
		who, tag, hold := args(p)
		return b.got("missing", req.Context(), req, who, tag).stay(hold)
	}))
	// a close handler may wait until the handlers of its session have left
	must(c1.OnClose(func(q *http.Request, session jlibhttp.RPCSession) {
		who := q.Header.Get("X-Who")
		b.mu.Lock()
		var l []*held31
		for _, h := range b.held {
			if h.who == who {
				l = append(l, h)
			}
		}
		b.closed++
		b.mu.Unlock()
		t := time.NewTimer(30 * time.Second)
		defer t.Stop()
		for _, h := range l {
			select {
			case <-h.ctx.Done():
			case <-t.C:
				b.complain("the context of a handler of %s isn't done while the close handler runs", who)
				return
			}
		}
	}))
	must(a.OnRequest("fail", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		return nil, errors.New("fails")
	}))
	must(a.OnRequest("panic", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		panic(errors.New("panics"))
	}))
	return a
}

func oneC31(r *Run, i int) {
	rng := r.Rand("contexts", i)
	useTLS := rng.IntN(3) == 0
	spawn := rng.IntN(4) > 0
	gateway := rng.IntN(2) == 0
	insecure := !useTLS && rng.IntN(2) == 0
	np := 2 + rng.IntN(4)
	var kinds []string
	for k := 0; k < np; k++ {
		if useTLS {
			kinds = append(kinds, pick(rng, "wss", "h2"))
		} else {
			kinds = append(kinds, pick(rng, "h1", "ws", "ws", "h2c", "h2c"))
		}
	}
	nev := 6 + rng.IntN(14)
	c := map[string]any{"case": i, "tls": useTLS, "spawn": spawn, "gateway": gateway, "insecure": insecure, "peers": kinds}
	var events []string
	r.world("C31", c, rng, func(w *world) {
		book := &c31book{held: map[string]*held31{}, sids: map[string]map[string]bool{}}
		actor := book.actor()
		sctx, stopServer := context.WithCancel(w.Ctx)
		defer stopServer()
		cfg := &jlibhttp.AuthConfig{}
		var peers []*c31peer
		for k, kind := range kinds {
			p := &c31peer{name: fmt.Sprintf("p%d", k), kind: kind, h1: map[string]*MemConn{}, cancel: map[string]context.CancelFunc{}, alive: true}
			peers = append(peers, p)
			if k%2 == 0 {
				cfg.Bearer = append(cfg.Bearer, jlibhttp.BearerAuthConfig{Token: "tok-" + p.name, Username: "u-" + p.name, Settings: map[string]any{"who": p.name}})
			} else {
				cfg.Basic = append(cfg.Basic, jlibhttp.BasicAuthConfig{Username: "u-" + p.name, Password: "pw-" + p.name, Settings: map[string]any{"who": p.name}})
			}
		}
		// the middleware stands behind the auth handler or before it
		mw := func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
				next.ServeHTTP(rw, q.WithContext(context.WithValue(q.Context(), c31key{}, q.Header.Get("X-Who"))))
			})
		}
		before := rng.IntN(2) == 0
		chain := func(h http.Handler) http.Handler {
			if before {
				return mw(jlibhttp.NewAuthHandler(cfg, h))
			}
			return jlibhttp.NewAuthHandler(cfg, mw(h))
		}
		wsh := jlibhttp.NewWSHandler(sctx, actor)
		wsh.SpawnGoroutine = spawn
		h2h := jlibhttp.NewH2Handler(sctx, actor)
		h2h.SpawnGoroutine = spawn
		if gateway {
			w.serve("gw", chain(jlibhttp.NewGatewayHandler(sctx, actor, insecure)), tlsFor(map[bool]string{true: "wss"}[useTLS]))
		} else {
			w.serve("h1", chain(jlibhttp.NewH1Handler(actor)), nil)
			w.serve("ws", chain(wsh), nil)
			w.serve("wss", chain(wsh), tlsFor("wss"))
			w.serve("h2", chain(h2h), tlsFor("h2"))
		}
		w.serve("h2c", h2c.NewHandler(chain(h2h), &http2.Server{}), nil)

		header := func(p *c31peer) http.Header {
			h := http.Header{"X-Who": {p.name}}
			q := http.Request{Header: h}
			if strings.HasSuffix(p.name, "0") || strings.HasSuffix(p.name, "2") || strings.HasSuffix(p.name, "4") {
				h.Set("Authorization", "Bearer tok-"+p.name)
			} else {
				q.SetBasicAuth("u-"+p.name, "pw-"+p.name)
			}
			return h
		}
		for k, p := range peers {
			p.host = p.kind
			if gateway && p.kind != "h2c" {
				p.host = "gw"
			}
			if p.kind == "h1" {
				continue
			}
			if rng.IntN(2) == 0 {
				raw, mc, err := w.dialRawAs(p.kind, p.host, "srv", header(p))
				if err != nil {
					w.violate("connect", "peer %d can't open a %s session with valid credentials: %v", k, p.kind, err)
					return
				}
				p.raw, p.mc = raw, mc
				w.onClose(raw.Close)
				go func() { // a session nobody reads from would block
					for {
						if _, err := raw.ReadRaw(); err != nil {
							return
						}
					}
				}()
				continue
			}
			cl, err := jlibhttp.NewClient(p.kind + "://" + p.host + "/")
			must(err)
			if cfg := clientTLSFor(p.kind); cfg != nil {
				cfg = cfg.Clone()
				cfg.ServerName = "srv"
				cl.SetClientTLSConfig(cfg)
			}
			cl.SetExtraHeader(header(p))
			st := cl.(jlibhttp.Streamable)
			w.route(st)
			p.cl = st
			w.onClose(func() { closeClient(st) })
			if err := st.Connect(context.Background()); err != nil {
				w.violate("connect", "peer %d can't connect over %s with valid credentials: %v", k, p.kind, err)
				return
			}
			time.Sleep(time.Millisecond)
			for _, mc := range w.Net.Conns() {
				p.mc = mc // the last connection made
			}
		}
		seq := 0
		call := func(p *c31peer) string {
			seq++
			tag := fmt.Sprintf("%s-%d", p.name, seq)
			method := pick(rng, "req", "ctx", "treq", "tctx", "deep", "nobody")
			hold := rng.IntN(3) > 0
			if !spawn && !gateway || p.kind == "h2c" && !spawn {
				hold = p.kind == "h1"
			}
			if p.kind == "h1" {
				hold = true
			}
			var msg jlib.Message
			notify := p.kind != "h1" && rng.IntN(4) == 0
			if notify {
				msg = jlib.NewNotifyMessage(method, []any{p.name, tag, hold})
			} else {
				msg = jlib.NewRequestMessage(tag, method, []any{p.name, tag, hold})
			}
			body := []byte(jlib.MessageString(msg))
			switch {
			case p.kind == "h1":
				cn, err := w.Net.Dial(context.Background(), p.host)
				must(err)
				mc := cn.(*MemConn)
				p.h1[tag] = mc
				w.onClose(func() { mc.Close() })
				q, _ := http.NewRequest("POST", "http://"+p.host+"/", strings.NewReader(string(body)))
				for k, v := range header(p) {
					q.Header[k] = v
				}
				must(q.Write(mc))
				go func() {
					if resp, err := http.ReadResponse(bufio.NewReader(mc), q); err == nil {
						resp.Body.Close()
					}
				}()
			case p.raw != nil:
				p.raw.WriteRaw(body)
			case notify || rng.IntN(3) == 0:
				p.cl.Send(context.Background(), msg)
			default:
				ctx, cancel := context.WithCancel(context.Background())
				p.cancel[tag] = cancel
				rq := msg.(*jlib.RequestMessage)
				go func() {
					defer cancel()
					p.cl.Call(ctx, rq)
				}()
			}
			p.tags = append(p.tags, tag)
			events = append(events, p.kind+":"+method+map[bool]string{true: "+"}[hold])
			return tag
		}
		dead := func(p *c31peer, tag string) bool {
			if p.kind == "h1" {
				return p.h1[tag] == nil
			}
			return !p.alive
		}
		check := func(after string) bool {
			time.Sleep(time.Minute)
			book.mu.Lock()
			defer book.mu.Unlock()
			for _, b := range book.bad {
				w.violate("identity", "%s", b)
				return false
			}
			for _, p := range peers {
				if len(book.sids[p.name]) > 1 {
					w.violate("session", "requests of one %s session have the session ids %v", p.kind, book.sids[p.name])
					return false
				}
				for _, tag := range p.tags {
					h := book.held[tag]
					if h == nil {
						continue
					}
					switch over := h.ctx.Err() != nil; {
					case over && !dead(p, tag):
						w.violate("early", "the context of a handler of %s is done (%v) while its %s session or request lives, after %s", p.name, h.ctx.Err(), p.kind, after)
						return false
					case !over && dead(p, tag):
						w.violate("late", "the context of a handler of %s isn't done a minute after its %s session or request has ended by %s", p.name, p.kind, after)
						return false
					}
				}
			}
			return true
		}
		live := func(kind func(p *c31peer) bool) *c31peer {
			var l []*c31peer
			for _, p := range peers {
				if p.alive && kind(p) {
					l = append(l, p)
				}
			}
			if len(l) == 0 {
				return nil
			}
			return l[rng.IntN(len(l))]
		}
		any31 := func(*c31peer) bool { return true }
		// every live peer's message gets to its handler
		arrived := func(p *c31peer, tag string) bool {
			time.Sleep(10 * time.Second)
			book.mu.Lock()
			defer book.mu.Unlock()
			if book.held[tag] == nil && p.alive {
				w.violate("lost", "a message of %s over %s didn't get to its handler", p.name, p.kind)
				return false
			}
			return true
		}
		for k := 0; k < nev; k++ {
			what := pick(rng, "call", "call", "call", "call", "cancel", "timeout", "hours", "close", "reset", "garbage", "fail", "panic", "release", "end h1", "halfclose")
			if k == nev-1 {
				what = pick(rng, "server", "close", "reset")
			}
			switch what {
			case "call":
				p := live(any31)
				if p == nil {
					continue
				}
				for n := 1 + rng.IntN(3); n > 0; n-- {
					if tag := call(p); !arrived(p, tag) {
						return
					}
				}
			case "cancel":
				p := live(func(p *c31peer) bool { return len(p.cancel) > 0 })
				if p == nil {
					continue
				}
				for _, cancel := range p.cancel {
					cancel()
				}
				clear(p.cancel)
			case "timeout":
				time.Sleep(11 * time.Second)
			case "hours":
				time.Sleep(time.Duration(1+rng.IntN(30)) * time.Hour)
			case "close", "reset", "halfclose":
				p := live(func(p *c31peer) bool { return p.kind != "h1" && (what != "halfclose" || p.raw != nil) })
				if p == nil {
					continue
				}
				switch {
				case what == "halfclose" && (p.kind == "h2" || p.kind == "h2c"):
					p.raw.(*rawH2).w.(interface{ Close() error }).Close()
				case what == "reset":
					p.mc.Reset()
				case p.raw != nil:
					p.raw.Close()
				default:
					closeClient(p.cl)
				}
				p.alive = false
				what += " " + p.kind
			case "garbage":
				p := live(func(p *c31peer) bool { return p.raw != nil })
				if p == nil {
					continue
				}
				p.raw.WriteRaw([]byte(pick(rng, "{", "nope", "[1]", `{"id":{},"method":"x"}`)))
				if p.kind == "h2" || p.kind == "h2c" {
					// an unfinished document is none yet
					p.raw.WriteRaw([]byte("}}]]"))
				}
				p.alive = false
				what += " " + p.kind
			case "fail", "panic":
				// an error of one request is none of the others
				p := live(func(p *c31peer) bool { return p.raw != nil })
				if p == nil {
					continue
				}
				p.raw.WriteRaw([]byte(jlib.MessageString(jlib.NewRequestMessage(1, what, []any{}))))
			case "release":
				p := live(func(p *c31peer) bool { return p.kind != "h1" && len(p.tags) > 0 })
				if p == nil {
					continue
				}
				book.mu.Lock()
				if h := book.held[pick(rng, p.tags...)]; h != nil {
					select {
					case <-h.release:
					default:
						close(h.release)
					}
				}
				book.mu.Unlock()
			case "end h1":
				p := live(func(p *c31peer) bool { return len(p.h1) > 0 })
				if p == nil {
					continue
				}
				for _, tag := range p.tags {
					if mc := p.h1[tag]; mc != nil {
						if rng.IntN(2) == 0 {
							mc.Close()
						} else {
							mc.Reset()
						}
						delete(p.h1, tag)
						break
					}
				}
			case "server":
				stopServer()
				for _, p := range peers {
					if p.kind != "h1" {
						p.alive = false
					}
				}
			}
			if what != "call" {
				events = append(events, what)
			}
			c["events"] = events
			if !check(what) {
				return
			}
			r.Count("checked_"+strings.Fields(what)[0], 1)
		}
		book.mu.Lock()
		r.Count("contexts", len(book.held))
		r.Count("close_handlers", book.closed)
		book.mu.Unlock()
	})
	r.Eval(fmt.Sprint(kinds, spawn, gateway, insecure, events))
	r.Sample(c)
}
