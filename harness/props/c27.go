package props

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC27(r *Run) {
	r.Rule("sets of up to 7 jlib clients of all schemes with different, shared and missing headers and TLS settings, used one after another or at once, closed, reconnected and given new headers, against loopback gateways with certificates of three authorities (the process trusts one of them); headers every request arrived with and handshakes made are compared with the settings of exactly that client, and the process's default HTTP client and WebSocket dialer are probed; non-trivial: distinct (clients with their scheme, authority, settings, concurrency)")
	f := newFarm(r)
	defer f.close()
	n := r.N(1600, 60000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC27(r, f, i)
		}
	}
}

// sysRoots makes the test authority the only one the process trusts on its
// own.
func sysRoots() {
	os.Setenv("SSL_CERT_FILE", certs().caFile)
	os.Setenv("SSL_CERT_DIR", certs().dir+"/none")
	x509.SystemCertPool()
}

// farm is a plain gateway and one per authority.
type farm struct {
	r     *Run
	sinks []*logSink
	addrs []string // plain, then by authority
	srvs  []*http.Server
	pools []*x509.CertPool
	mu    sync.Mutex
	seen  map[string][]http.Header // by path
	stop  func()
}

func newFarm(r *Run) *farm {
	runtime.GC()
	runtime.GC()
	f := &farm{r: r, seen: map[string][]http.Header{}}
	ctx, cancel := context.WithCancel(context.Background())
	f.stop = cancel
	actor := jlibhttp.NewActor()
	must(actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, p []any) (any, error) { return p, nil }))
	for k := 0; k < 4; k++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		gw := jlibhttp.NewGatewayHandler(ctx, actor, k == 0)
		h := http.HandlerFunc(func(rw http.ResponseWriter, q *http.Request) {
			if q.URL.Path == "/probe" {
				rw.Write([]byte("probe"))
				return
			}
			if q.ProtoMajor == 2 || q.Method != "PRI" {
				f.mu.Lock()
				f.seen[q.URL.Path] = append(f.seen[q.URL.Path], q.Header.Clone())
				f.mu.Unlock()
			}
			gw.ServeHTTP(rw, q)
		})
		sink := &logSink{}
		f.sinks = append(f.sinks, sink)
		srv := &http.Server{Handler: h, ErrorLog: log.New(sink, "", 0)}
		f.srvs = append(f.srvs, srv)
		f.addrs = append(f.addrs, l.Addr().String())
		if k == 0 {
			// cleartext HTTP/2 is recorded behind its preface
			srv.Handler = h2cFront(h)
			go srv.Serve(l)
			continue
		}
		if k == 1 {
			f.pools = append(f.pools, certs().pool)
			srv.TLSConfig = certs().server.Clone()
		} else {
			ca, key := makeCA(fmt.Sprint("verif ca ", k))
			cp, kp := makeLeaf(ca, key, "localhost")
			pair, err := tls.X509KeyPair(cp, kp)
			must(err)
			srv.TLSConfig = &tls.Config{Certificates: []tls.Certificate{pair}}
			pool := x509.NewCertPool()
			pool.AddCert(ca)
			f.pools = append(f.pools, pool)
		}
		go srv.ServeTLS(l, "", "")
	}
	return f
}

// h2cFront serves cleartext HTTP/2 streams by the handler itself and leaves
// everything else to it as well.
func h2cFront(h http.Handler) http.Handler { return h2cWrap(h) }

func (f *farm) close() {
	f.stop()
	for k, s := range f.srvs {
		s.Close()
		if p := f.sinks[k].Panics(); p != "" {
			f.r.Violate("C27:handler-panic", nil, "a server handler panicked: %s", p)
		}
	}
}

type c27client struct {
	fam    string // http, ws, h2
	srv    int    // 0 plain, 1..3 by authority
	hdr    http.Header
	cfg    *tls.Config
	cfgTxt string
	ok     bool
	path   string
	cl     jlibhttp.Client
	ops    []string
	next   http.Header // after the first half of the operations
}

var c27keys = []string{"X-Alpha", "X-Beta", "x-lower", "X-MiXed", "Authorization", "User-Agent", "Accept-Language", "X-Long", "Content-Language", "From"}

func genHeader27(rng *rand.Rand, tag string) http.Header {
	if rng.IntN(5) == 0 {
		return nil
	}
	h := http.Header{}
	for _, k := range c27keys {
		if rng.IntN(3) > 0 {
			continue
		}
		n := 1
		if k != "User-Agent" && k != "Authorization" && k != "From" {
			n = 1 + rng.IntN(3)
		}
		for ; n > 0; n-- {
			v := pick(rng, tag, tag+" a", tag+", b; c=\"d\"", "same", strings.Repeat(tag, 60))
			h[k] = append(h[k], v)
		}
	}
	return h
}

// genTLS27 makes a TLS setting and tells which authorities it trusts.
func (f *farm) genTLS27(rng *rand.Rand) (cfg *tls.Config, txt string, trusts [4]bool) {
	trusts[0] = true
	switch rng.IntN(9) {
	case 0, 1:
		trusts[1] = true
		return nil, "none", trusts
	case 2:
		for k := range trusts {
			trusts[k] = true
		}
		return &tls.Config{InsecureSkipVerify: true}, "any", trusts
	case 3:
		return &tls.Config{RootCAs: x509.NewCertPool()}, "nobody", trusts
	}
	k := 1 + rng.IntN(3)
	cfg = &tls.Config{RootCAs: f.pools[k-1]}
	txt = fmt.Sprint("ca", k)
	trusts[k] = true
	switch rng.IntN(6) {
	case 0:
		cfg.ServerName = "wrong.example"
		txt += " wrong name"
		trusts[k] = false
	case 1:
		cfg.ServerName = "localhost"
		txt += " name"
	case 2:
		cfg.MaxVersion = tls.VersionTLS12
		txt += " 1.2"
	}
	return cfg, txt, trusts
}

func oneC27(r *Run, f *farm, i int) {
	rng := r.Rand("settings", i)
	n := 2 + rng.IntN(6)
	type shared struct {
		cfg    *tls.Config
		txt    string
		trusts [4]bool
	}
	var cfgs []shared
	var hdrs []http.Header
	var clients []*c27client
	key := ""
	for k := 0; k < n; k++ {
		x := &c27client{fam: pick(rng, "http", "ws", "h2"), srv: rng.IntN(4), path: fmt.Sprintf("/c%d-%d", i, k)}
		s := shared{}
		if len(cfgs) > 0 && rng.IntN(3) == 0 {
			s = pick(rng, cfgs...)
		} else {
			s.cfg, s.txt, s.trusts = f.genTLS27(rng)
			cfgs = append(cfgs, s)
		}
		x.cfg, x.cfgTxt = s.cfg, s.txt
		x.ok = s.trusts[x.srv]
		if len(hdrs) > 0 && rng.IntN(3) == 0 {
			x.hdr = pick(rng, hdrs...)
		} else {
			x.hdr = genHeader27(rng, fmt.Sprint("v", k))
			hdrs = append(hdrs, x.hdr)
		}
		for m := 1 + rng.IntN(4); m > 0; m-- {
			x.ops = append(x.ops, pick(rng, "call", "call", "send", "reconnect"))
		}
		if rng.IntN(3) == 0 {
			x.next = genHeader27(rng, fmt.Sprint("w", k))
		}
		key += fmt.Sprintf("%s %d %s %d %v;", x.fam, x.srv, x.cfgTxt, len(x.hdr), x.next != nil)
		clients = append(clients, x)
	}
	atOnce := rng.IntN(2) == 0
	c := map[string]any{"i": i, "clients": key, "at once": atOnce}
	r.Journal(c)
	defer r.recoverCase("C27", c)
	for _, x := range clients {
		scheme := x.fam
		switch {
		case x.fam == "http" && x.srv > 0:
			scheme = "https"
		case x.fam == "ws" && x.srv > 0:
			scheme = "wss"
		case x.fam == "h2" && x.srv == 0:
			scheme = "h2c"
		}
		var opts []jlibhttp.ClientOptions
		if x.fam == "http" {
			opts = append(opts, jlibhttp.ClientOptions{Timeout: 120})
		}
		cl, err := jlibhttp.NewClient(scheme+"://"+f.addrs[x.srv]+x.path, opts...)
		if err != nil {
			r.Violate("C27:client", c, "NewClient: %v", err)
			return
		}
		x.cl = cl
		if x.hdr != nil || rng.IntN(2) == 0 {
			cl.SetExtraHeader(x.hdr)
		}
		if x.cfg != nil || rng.IntN(2) == 0 {
			cl.SetClientTLSConfig(x.cfg)
		}
	}
	inconclusive := false
	run := func(x *c27client) {
		defer r.recoverCase("C27", c)
		cc := map[string]any{"case": c, "client": x.path, "scheme": x.fam, "server": x.srv, "tls": x.cfgTxt, "headers": x.hdr, "then": x.next}
		var reqs, changedAt int
		changed := false
		count := func() int {
			f.mu.Lock()
			defer f.mu.Unlock()
			return len(f.seen[x.path])
		}
		for k, op := range x.ops {
			if x.next != nil && k == (len(x.ops)+1)/2 {
				// a streaming client takes it to its next handshake
				closeClient(x.cl)
				changedAt, changed = count(), true
				x.cl.SetExtraHeader(x.next)
			}
			if op == "reconnect" {
				closeClient(x.cl)
			}
			var err error
			var m jlib.Message
			if op == "send" {
				err = x.cl.Send(context.Background(), jlib.NewNotifyMessage("echo", []any{k}))
			} else {
				m, err = x.cl.Call(context.Background(), mkReq(k, "echo", k))
			}
			if err == nil && m != nil && m.IsError() && m.MustError().Code == 200 {
				inconclusive = true
				continue
			}
			r.Count(fmt.Sprintf("%s trusted=%v", x.fam, x.ok), 1)
			switch {
			case x.ok && err != nil:
				r.Violate("C27:refused", cc, "%s %d failed: %v", op, k, err)
				return
			case !x.ok && err == nil:
				r.Violate("C27:trusted", cc, "%s %d reached a server this client must not trust (%v)", op, k, m)
				return
			case x.ok && m != nil && !m.IsResult():
				r.Violate("C27:answer", cc, "%s %d was answered by %v", op, k, m)
				return
			}
			if x.ok {
				reqs++
			}
		}
		f.mu.Lock()
		seen := f.seen[x.path]
		delete(f.seen, x.path)
		f.mu.Unlock()
		if !x.ok && len(seen) > 0 {
			r.Violate("C27:trusted", cc, "%d requests arrived at a server this client must not trust", len(seen))
			return
		}
		if x.ok && x.fam == "http" && len(seen) != reqs || x.ok && len(seen) == 0 && reqs > 0 {
			r.Violate("C27:requests", cc, "%d requests arrived of %d", len(seen), reqs)
			return
		}
		for k, got := range seen {
			want := x.hdr
			if changed && k >= changedAt {
				want = x.next
			}
			if why := diffHeader27(want, got); why != "" {
				r.Violate("C27:headers", cc, "request %d arrived with other headers: %s", k, why)
				return
			}
			r.Count("headers compared", 1)
		}
	}
	ok := realWait(240*time.Second, func() {
		if atOnce {
			var wg sync.WaitGroup
			for _, x := range clients {
				wg.Add(1)
				go func() {
					defer wg.Done()
					run(x)
				}()
			}
			wg.Wait()
		} else {
			for _, x := range clients {
				run(x)
			}
		}
	})
	if !ok || inconclusive {
		r.Inconclusive("%v: some client did not finish in time", c)
		return
	}
	f.probe(r, c, rng)
	for _, x := range clients {
		closeClient(x.cl)
	}
	r.Eval(fmt.Sprint(atOnce, key))
	if i%211 == 0 {
		r.Sample(c)
	}
}

// probe uses what the process shares: it must not know any client's settings.
func (f *farm) probe(r *Run, c any, rng *rand.Rand) {
	for k := 1; k < 4; k++ {
		if rng.IntN(3) > 0 {
			continue
		}
		req, _ := http.NewRequest("GET", "https://"+f.addrs[k]+"/probe", nil)
		req.Close = true
		resp, err := http.DefaultClient.Do(req)
		if err == nil {
			b, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			if string(b) != "probe" {
				err = fmt.Errorf("answer %q", b)
			}
		}
		if (err == nil) != (k == 1) {
			r.Violate("C27:default-http", c, "the process's default HTTP client, server of authority %d: %v", k, err)
		}
		wc, resp, err := websocket.DefaultDialer.Dial("wss://"+f.addrs[k]+"/probe", nil)
		if wc != nil {
			wc.Close()
		}
		// /probe speaks no WebSocket: trusting shows as an answer
		if (resp != nil) != (k == 1) {
			r.Violate("C27:default-ws", c, "the process's default WebSocket dialer, server of authority %d: %v", k, err)
		}
		r.Count("probes", 1)
	}
}

// diffHeader27 tells what of the settable headers differs; "" if nothing.
func diffHeader27(want, got http.Header) string {
	for _, k := range c27keys {
		w := append([]string{}, want[k]...)
		g := append([]string{}, got[http.CanonicalHeaderKey(k)]...)
		if k == "User-Agent" && len(w) == 0 {
			if len(g) > 1 || len(g) == 1 && (strings.HasPrefix(g[0], "v") || strings.HasPrefix(g[0], "w") || g[0] == "same") {
				return fmt.Sprintf("%s: %q", k, g)
			}
			continue
		}
		if !reflect.DeepEqual(w, g) {
			sort.Strings(w)
			sort.Strings(g)
			return fmt.Sprintf("%s: %q instead of %q", k, g, w)
		}
	}
	return ""
}
