package props

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC25(r *Run) {
	r.Rule("ListenAndServe on loopback addresses with and without TLS: served by clients of all kinds, bind conflicts, unusable addresses and certificates, contexts cancelled before, while and after starting with idle, half-open, working and streaming peers connected, address reused by the next server; and handlers whose server context is cancelled at random moments with mixed sessions (busy, waiting, pushing, unread) on all transports; non-trivial: distinct (part, TLS, peers or fault, moment)")
	runtime.GC()
	runtime.GC()
	n := r.N(500, 16000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			listenC25(r, i)
		}
	}
	n = r.N(700, 30000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			sessionsC25(r, i)
		}
	}
}

// bindAddr is an address nobody else uses.
func bindAddr(r *Run, i int) string {
	ip := fmt.Sprintf("127.%d.%d.%d", 10+os.Getpid()%200, 1+(os.Getpid()/200)%250, 1+i%250)
	for {
		l, err := net.Listen("tcp", ip+":0")
		must(err)
		a := l.Addr().String()
		l.Close()
		return a
	}
}

// dialable tells if somebody accepts connections there.
func dialable(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

// poll waits until f is true, for a minute.
func poll(f func() bool) bool {
	end := time.Now().Add(time.Minute)
	for d := 200 * time.Microsecond; ; d = min(2*d, 50*time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
	}
}

type serving struct {
	addr   string
	cancel func()
	done   chan struct{}
	err    error
	pan    any
}

func startServing(ctx context.Context, addr string, h http.Handler, cfgs ...*jlibhttp.TLSConfig) *serving {
	ctx, cancel := context.WithCancel(ctx)
	s := &serving{addr: addr, cancel: cancel, done: make(chan struct{})}
	go func() {
		defer close(s.done)
		defer func() { s.pan = recover() }()
		s.err = jlibhttp.ListenAndServe(ctx, addr, h, cfgs...)
	}()
	return s
}

func (s *serving) returned(d time.Duration) bool {
	select {
	case <-s.done:
		return true
	case <-time.After(d):
		return false
	}
}

func listenC25(r *Run, i int) {
	rng := r.Rand("listen", i)
	mode := pick(rng, "serve", "serve", "serve", "serve", "race", "race", "canceled", "conflict", "address", "cert", "cert")
	useTLS := rng.IntN(2) == 0 || mode == "cert"
	addr := bindAddr(r, i)
	c := map[string]any{"i": i, "mode": mode, "tls": useTLS}
	r.Journal(c)
	defer r.recoverCase("C25", c)
	violate := func(kind, format string, args ...any) { r.Violate("C25:"+kind, c, format, args...) }
	key := fmt.Sprint(mode, useTLS)

	hctx, hcancel := context.WithCancel(context.Background())
	defer hcancel()
	actor := jlibhttp.NewActor()
	block := make(chan struct{})
	var inside atomic.Int32
	must(actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
	must(actor.OnRequest("block", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
		inside.Add(1)
		defer inside.Add(-1)
		<-block
		return "unblocked", nil
	}))
	unblock := sync.OnceFunc(func() { close(block) })
	defer unblock()
	gw := jlibhttp.NewGatewayHandler(hctx, actor, !useTLS)
	var cfgs []*jlibhttp.TLSConfig
	for k := rng.IntN(3); k > 0; k-- {
		cfgs = append(cfgs, nil)
	}
	good := &jlibhttp.TLSConfig{Certfile: certs().certFile, Keyfile: certs().keyFile}
	goodAt := len(cfgs)
	if useTLS {
		cfgs = append(cfgs, good)
		// the first one given counts
		for k := rng.IntN(3); k > 0; k-- {
			cfgs = append(cfgs, pick(rng, nil, &jlibhttp.TLSConfig{Certfile: "/nonexistent/cert", Keyfile: "/nonexistent/key"}, &jlibhttp.TLSConfig{}))
		}
	}
	bg := context.Background()
	switch mode {
	case "conflict":
		other, err := net.Listen("tcp", addr)
		must(err)
		s := startServing(bg, addr, gw, cfgs...)
		if !s.returned(time.Minute) {
			violate("conflict", "ListenAndServe doesn't return although %s is taken", addr)
		} else if s.pan != nil || s.err == nil {
			violate("conflict", "ListenAndServe returned %v (panic %v) for an address which is taken", s.err, s.pan)
		}
		s.cancel()
		// the one who has it keeps it
		go func() {
			if c, err := other.Accept(); err == nil {
				c.Write([]byte("mine"))
				c.Close()
			}
		}()
		b := make([]byte, 4)
		if conn, err := net.Dial("tcp", addr); err != nil {
			violate("conflict", "the address is lost to who had it: %v", err)
		} else {
			io.ReadFull(conn, b)
			conn.Close()
			if string(b) != "mine" {
				violate("conflict", "the address is lost to who had it: %q", b)
			}
		}
		other.Close()
	case "address":
		bad := pick(rng, "127.0.0.1:99999", "127.0.0.1", "nonsense", "256.256.256.256.:1:2", "127.0.0.1:-1", "[::1", "8.8.8.8:4711", "127.0.0.1:http://")
		key += bad
		s := startServing(bg, bad, gw, cfgs...)
		if !s.returned(time.Minute) {
			violate("address", "ListenAndServe doesn't return for the address %q", bad)
		} else if s.pan != nil || s.err == nil {
			violate("address", "ListenAndServe returned %v (panic %v) for the address %q", s.err, s.pan, bad)
		}
		s.cancel()
	case "cert":
		how := pick(rng, "missing cert", "missing key", "empty", "garbage", "swapped", "other key", "directory", "empty file")
		key += how
		bad := *good
		dir := scratch()
		defer os.RemoveAll(dir)
		file := func(b []byte) string {
			p := filepath.Join(dir, "f.pem")
			must(os.WriteFile(p, b, 0o600))
			return p
		}
		switch how {
		case "missing cert":
			bad.Certfile = filepath.Join(dir, "none.pem")
		case "missing key":
			bad.Keyfile = filepath.Join(dir, "none.pem")
		case "empty":
			bad = jlibhttp.TLSConfig{}
		case "garbage":
			bad.Certfile = file([]byte("garbage"))
		case "swapped":
			bad.Certfile, bad.Keyfile = bad.Keyfile, bad.Certfile
		case "other key":
			ca, cakey := makeCA("y")
			_, kp := makeLeaf(ca, cakey, "localhost")
			bad.Keyfile = file(kp)
		case "directory":
			bad.Certfile = dir
		case "empty file":
			bad.Keyfile = file(nil)
		}
		cfgs[goodAt] = &bad
		s := startServing(bg, addr, gw, cfgs...)
		if !s.returned(time.Minute) {
			violate("cert", "ListenAndServe doesn't return for a certificate it can't load (%s)", how)
		} else if s.pan != nil || s.err == nil {
			violate("cert", "ListenAndServe returned %v (panic %v) for a certificate it can't load (%s)", s.err, s.pan, how)
		} else if !poll(func() bool {
			l, err := net.Listen("tcp", addr)
			if err == nil {
				l.Close()
			}
			return err == nil
		}) {
			violate("cert-address", "the address stays taken after ListenAndServe failed (%s)", how)
		}
		s.cancel()
	case "canceled", "race":
		ctx, cancel := context.WithCancel(bg)
		how := "before"
		if mode == "canceled" {
			cancel()
		} else {
			d := time.Duration(rng.IntN(400)) * time.Microsecond
			how = "while"
			time.AfterFunc(d, cancel)
		}
		key += how
		s := startServing(ctx, addr, gw, cfgs...)
		if !s.returned(time.Minute) {
			violate("cancel-early", "ListenAndServe doesn't return though its context was cancelled %s it started", how)
		} else if s.pan != nil {
			violate("panic", "ListenAndServe panicked: %v", s.pan)
		} else if !poll(func() bool { return !dialable(addr) }) {
			violate("cancel-early", "connections are accepted after ListenAndServe has returned")
		}
		cancel()
	case "serve":
		key += serveC25(r, rng, c, addr, useTLS, cfgs, gw, &inside, unblock, violate)
	}
	// nothing of it is left behind
	if rng.IntN(8) == 0 && !poll(func() bool { return !strings.Contains(outsideStacks(), "http.ListenAndServe") }) {
		violate("left", "goroutines of ListenAndServe are left:\n%s", clip(jlibStacks(outsideStacks()), 2000))
	}
	r.Count(mode, 1)
	r.Eval(key)
	if i%97 == 0 {
		r.Sample(map[string]any{"case": c, "key": key})
	}
}

func serveC25(r *Run, rng *rand.Rand, c map[string]any, addr string, useTLS bool, cfgs []*jlibhttp.TLSConfig, gw http.Handler, inside *atomic.Int32, unblock func(), violate func(kind, format string, args ...any)) string {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := startServing(ctx, addr, gw, cfgs...)
	defer s.cancel()
	if !poll(func() bool { return dialable(addr) || s.returned(0) }) || s.returned(0) {
		violate("start", "no connection is accepted after the start: %v %v", s.err, s.pan)
		return ""
	}
	key := ""
	ccfg := certs().client.Clone()
	ccfg.ServerName = "localhost"
	client := func(fam string) (jlibhttp.Client, error) {
		scheme := map[string][2]string{"http": {"http", "https"}, "ws": {"ws", "wss"}, "h2": {"h2c", "h2"}}[fam][map[bool]int{true: 1}[useTLS]]
		var opts []jlibhttp.ClientOptions
		if fam == "http" {
			opts = append(opts, jlibhttp.ClientOptions{Timeout: 120})
		}
		cl, err := jlibhttp.NewClient(scheme+"://"+addr+"/", opts...)
		if err == nil && useTLS {
			cl.SetClientTLSConfig(ccfg)
		}
		return cl, err
	}
	echo := func(cl jlibhttp.Client) error {
		m, err := cl.Call(context.Background(), mkReq(1, "echo", "hello"))
		if err != nil {
			return err
		}
		if !m.IsResult() || canon(m.MustResult()) != `["hello"]` {
			return fmt.Errorf("answer %v", m)
		}
		return nil
	}
	var keep []jlibhttp.Client
	defer func() {
		for _, cl := range keep {
			closeClient(cl)
		}
	}()
	var conns []net.Conn
	defer func() {
		for _, x := range conns {
			x.Close()
		}
	}()
	var pending sync.WaitGroup
	npeers := 1 + rng.IntN(6)
	for k := 0; k < npeers; k++ {
		what := pick(rng, "http", "ws", "h2", "http", "ws", "h2", "idle", "half", "busy", "tls half", "keepalive", "plain")
		key += " " + what
		switch what {
		case "http", "ws", "h2":
			cl, err := client(what)
			if err == nil {
				keep = append(keep, cl)
				err = echo(cl)
			}
			if err != nil {
				violate("serve", "a %s client isn't served: %v", what, err)
				return key
			}
		case "idle", "half", "tls half", "keepalive", "plain":
			x, err := net.DialTimeout("tcp", addr, 30*time.Second)
			if err != nil {
				violate("serve", "a connection isn't accepted: %v", err)
				return key
			}
			conns = append(conns, x)
			switch what {
			case "half":
				x.Write([]byte("POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"json"))
			case "tls half":
				x.Write([]byte{22, 3, 1, 0, 200, 1})
			case "plain":
				x.Write([]byte("hello there\r\n\r\n"))
			case "keepalive":
				if !useTLS {
					q, _ := http.NewRequest("POST", "http://"+addr+"/", bytes.NewReader([]byte(`{"jsonrpc":"2.0","id":1,"method":"echo","params":[]}`)))
					q.Write(x)
					x.Read(make([]byte, 10))
				}
			}
		case "busy":
			fam := pick(rng, "http", "ws", "h2")
			cl, err := client(fam)
			if err != nil {
				violate("serve", "%v", err)
				return key
			}
			keep = append(keep, cl)
			before := inside.Load()
			pending.Add(1)
			go func() {
				defer pending.Done()
				cl.Call(context.Background(), mkReq(1, "block"))
			}()
			if !poll(func() bool { return inside.Load() > before }) {
				violate("serve", "a %s call isn't served", fam)
				return key
			}
		}
	}
	if s.returned(0) {
		violate("start", "ListenAndServe returned by itself: %v %v", s.err, s.pan)
		return key
	}
	if useTLS {
		// it is the certificate asked for
		tc, err := tls.Dial("tcp", addr, ccfg)
		if err != nil {
			violate("tls", "no TLS: %v", err)
			return key
		}
		tc.Close()
	}
	// the other server is not concerned
	var other *serving
	if rng.IntN(4) == 0 {
		a2 := bindAddr(r, rng.IntN(1000))
		other = startServing(context.Background(), a2, gw, cfgs...)
		defer other.cancel()
		if !poll(func() bool { return dialable(a2) }) {
			violate("start", "the second server accepts no connection: %v", other.err)
			return key
		}
	}
	if rng.IntN(3) == 0 {
		time.Sleep(time.Duration(rng.IntN(3)) * time.Millisecond)
	}
	cancel()
	if !s.returned(time.Minute) {
		violate("cancel", "ListenAndServe doesn't return after its context was cancelled")
		return key
	}
	if s.pan != nil {
		violate("panic", "ListenAndServe panicked: %v", s.pan)
	}
	if dialable(addr) {
		violate("accepts", "connections are accepted after ListenAndServe has returned")
		return key
	}
	if other != nil {
		if other.returned(0) || !dialable(other.addr) {
			violate("other", "another server ended as well: %v", other.err)
		}
	}
	// the next one takes over, whoever is connected to the last one
	next := startServing(context.Background(), addr, gw, cfgs...)
	defer next.cancel()
	if !poll(func() bool { return dialable(addr) || next.returned(0) }) || next.returned(0) {
		violate("reuse", "the next server can't have the address: %v %v", next.err, next.pan)
		return key
	}
	cl, err := client("ws")
	if err == nil {
		keep = append(keep, cl)
		err = echo(cl)
	}
	if err != nil {
		violate("reuse", "the next server doesn't serve: %v", err)
	}
	next.cancel()
	if !next.returned(time.Minute) {
		violate("cancel", "the next server's ListenAndServe doesn't return after its context was cancelled")
	}
	unblock()
	if !realWait(2*time.Minute, pending.Wait) {
		r.Inconclusive("%v: pending calls don't return", c)
	}
	return key
}

// --- sessions of a cancelled server ---

func sessionsC25(r *Run, i int) {
	rng := r.Rand("sessions", i)
	n := 1 + rng.IntN(8)
	spawn := rng.IntN(4) != 0
	at := time.Duration(rng.IntN(4000)) * time.Millisecond
	c := map[string]any{"i": i, "sessions": n, "spawn": spawn, "at": at.String()}
	r.world("C25", c, rng, func(w *world) {
		sctx, cancel := context.WithCancel(w.Ctx)
		defer cancel()
		var mu sync.Mutex
		closed := map[string]int{}
		waiting, released := 0, 0
		newActor := func() *jlibhttp.Actor {
			a := jlibhttp.NewActor()
			must(a.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
			must(a.OnRequest("wait", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
				mu.Lock()
				waiting++
				mu.Unlock()
				<-req.Context().Done()
				mu.Lock()
				released++
				mu.Unlock()
				return nil, nil
			}))
			must(a.OnRequest("sleep", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
				time.Sleep(10 * time.Minute)
				return nil, nil
			}))
			must(a.OnRequest("push", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
				sess := req.Session()
				go func() {
					for k := 0; k < 300; k++ {
						sess.Send(jlib.NewNotifyMessage("tick", []any{k, strings.Repeat("p", 2000)}))
						if k%10 == 0 {
							time.Sleep(20 * time.Millisecond)
						}
					}
				}()
				return "pushing", nil
			}))
			must(a.OnClose(func(q *http.Request, s jlibhttp.RPCSession) {
				mu.Lock()
				defer mu.Unlock()
				closed[s.SessionID()]++
			}))
			return a
		}
		handler := func(ctx context.Context, proto string, gateway bool) http.Handler {
			if gateway {
				return jlibhttp.NewGatewayHandler(ctx, newActor(), proto == "ws" || proto == "h2c")
			}
			switch proto {
			case "ws", "wss":
				h := jlibhttp.NewWSHandler(ctx, newActor())
				h.SpawnGoroutine = spawn
				return h
			default:
				h := jlibhttp.NewH2Handler(ctx, newActor())
				h.SpawnGoroutine = spawn
				if proto == "h2c" {
					return h.H2CHandler()
				}
				return h
			}
		}
		if rng.IntN(3) == 0 {
			w.Net.Limit = 64 << 10
		}
		for _, proto := range []string{"ws", "wss", "h2c", "h2"} {
			w.serve(proto, handler(sctx, proto, false), tlsFor(proto))
			w.serve(proto+"gw", handler(sctx, proto, true), tlsFor(proto))
			w.serve(proto+"other", handler(w.Ctx, proto, rng.IntN(2) == 0), tlsFor(proto))
		}
		type peer struct {
			proto, host, what string
			rc                rawConn
			ended             chan struct{}
			hold              chan struct{}
			other             bool
			answers           chan string
		}
		var peers []*peer
		key := fmt.Sprint(spawn)
		for k := 0; k < n; k++ {
			p := &peer{proto: pick(rng, "ws", "wss", "h2c", "h2"), what: pick(rng, "quiet", "echo", "wait", "sleep", "push", "unread", "flood"), ended: make(chan struct{}), hold: make(chan struct{}), answers: make(chan string, 1000)}
			p.host = p.proto + pick(rng, "", "gw", "gw")
			if rng.IntN(5) == 0 {
				p.host, p.other, p.what = p.proto+"other", true, "echo"
			}
			key += " " + p.host + "/" + p.what
			rc, _, err := dialSrv(w, p.proto, p.host)
			if err != nil {
				w.violate("session", "no session with %s: %v", p.host, err)
				return
			}
			p.rc = rc
			w.onClose(rc.Close)
			peers = append(peers, p)
		}
		t0 := time.Now()
		for k, p := range peers {
			id := 0
			prng := rand.New(rand.NewPCG(uint64(i), uint64(k)))
			write := func(method string) error {
				id++
				b, _ := json.Marshal(map[string]any{"jsonrpc": "2.0", "id": id, "method": method, "params": []any{id}})
				return p.rc.WriteRaw(b)
			}
			go func() {
				// reading
				if p.what == "unread" {
					<-p.hold
				}
				for {
					d, err := p.rc.ReadRaw()
					if err != nil {
						close(p.ended)
						return
					}
					if o, err := oneObject(d); err == nil && o["id"] != nil {
						select {
						case p.answers <- canon(o["id"]):
						default:
						}
					}
				}
			}()
			go func() {
				switch p.what {
				case "echo":
					for time.Since(t0) < 20*time.Second {
						if write("echo") != nil {
							return
						}
						time.Sleep(time.Duration(1+prng.IntN(300)) * time.Millisecond)
					}
				case "wait", "sleep", "push":
					write("echo")
					write(p.what)
				case "unread":
					write("push")
				case "flood":
					for m := 0; m < 200; m++ {
						if write("echo") != nil {
							return
						}
					}
				}
			}()
		}
		time.Sleep(at)
		cancel()
		time.Sleep(time.Minute)
		for _, p := range peers {
			close(p.hold)
		}
		time.Sleep(time.Minute)
		nclosed := 0
		for k, p := range peers {
			cc := map[string]any{"case": c, "peer": k, "host": p.host, "does": p.what, "all": key}
			select {
			case <-p.ended:
				if p.other {
					r.Violate("C25:other-session", cc, "a session of another server ended")
					return
				}
				nclosed++
			default:
				if !p.other {
					r.Violate("C25:session-lives", cc, "the peer hasn't seen the end of its session two minutes after the server context was cancelled")
					return
				}
				for len(p.answers) > 0 {
					<-p.answers
				}
				p.rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":"still","method":"echo","params":[]}`))
				got := ""
				if !await(30*time.Second, func() { got = <-p.answers }) || got != `"still"` {
					r.Violate("C25:other-session", cc, "a session of another server doesn't answer any more: %s", got)
					return
				}
			}
		}
		mu.Lock()
		total := 0
		for id, n := range closed {
			total++
			if n != 1 {
				w.violate("close-events", "session %s got %d close events", id, n)
			}
		}
		if total != nclosed {
			w.violate("close-events", "%d sessions were closed but %d ended", total, nclosed)
		}
		if waiting != released {
			w.violate("context", "%d handlers wait for their context, %d have seen its end", waiting, released)
		}
		r.Count("sessions ended", nclosed)
		r.Count("handlers released", released)
		mu.Unlock()
		// no session starts afterwards and stays
		for k := 0; k < 2; k++ {
			proto := pick(rng, "ws", "wss", "h2c", "h2")
			rc, _, err := dialSrv(w, proto, proto+pick(rng, "", "gw"))
			if err != nil {
				continue
			}
			w.onClose(rc.Close)
			if !await(time.Minute, func() {
				for {
					if _, err := rc.ReadRaw(); err != nil {
						return
					}
				}
			}) {
				w.violate("session-starts", "a session with %s starts after the server context was cancelled and stays", proto)
			}
		}
		r.Eval(key)
		if i%131 == 0 {
			r.Sample(map[string]any{"case": c, "peers": key})
		}
	})
}

// dialSrv is dialRaw for a host whose certificate names another one.
func dialSrv(w *world, proto, host string) (rawConn, *MemConn, error) {
	return w.dialRawAs(proto, host, "srv", nil)
}
