package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

// The fabric for streaming drivers: jlib servers and clients, or raw peers,
// on the in-memory network of a bubble.

var curNet atomic.Pointer[MemNet]

func init() {
	// the clients copy or use the default dialer
	websocket.DefaultDialer.NetDialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		if m := curNet.Load(); m != nil {
			return m.Dial(ctx, hostOf(addr))
		}
		var d net.Dialer
		return d.DialContext(ctx, network, addr)
	}
	websocket.DefaultDialer.Proxy = nil
}

func hostOf(addr string) string {
	h, _, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	return h
}

// logSink collects what an http.Server logs, handler panics above all.
type logSink struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (s *logSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.buf.Len() < 1<<20 {
		s.buf.Write(p)
	}
	return len(p), nil
}

// Panics returns the handler panics logged so far.
func (s *logSink) Panics() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.buf.String()
	i := strings.Index(t, "panic serving")
	if i < 0 {
		return ""
	}
	return clip(t[i:], 3000)
}

type world struct {
	r      *Run
	rng    *rand.Rand
	sig    string
	c      any
	Net    *MemNet
	Ctx    context.Context
	cancel func()
	srvs   []*http.Server
	sink   *logSink
	closes []func()
	mu     sync.Mutex
}

// newWorld must be called within a bubble.
func newWorld(r *Run, rng *rand.Rand, sig string, c any) *world {
	w := &world{r: r, rng: rng, sig: sig, c: c, Net: NewMemNet(), sink: &logSink{}}
	w.Ctx, w.cancel = context.WithCancel(context.Background())
	// some cases have writes which return late
	if h := hash64(fmt.Sprint(sig, jsonSafe(c))); h%3 == 0 {
		w.Net.lateClient, w.Net.lateServer = int((h>>8)%60), int((h>>16)%60)
	}
	curNet.Store(w.Net)
	return w
}

func (w *world) violate(kind string, format string, args ...any) {
	w.r.Violate(w.sig+":"+kind, w.c, format, args...)
}

// serve runs an http.Server over the in-memory network.
func (w *world) serve(host string, h http.Handler, cfg *tls.Config) *http.Server {
	return w.serveOn(w.Net.Listen(host), h, cfg)
}

func (w *world) serveOn(l net.Listener, h http.Handler, cfg *tls.Config) *http.Server {
	srv := &http.Server{Handler: h, ErrorLog: log.New(w.sink, "", 0)}
	w.mu.Lock()
	w.srvs = append(w.srvs, srv)
	w.mu.Unlock()
	if cfg != nil {
		srv.TLSConfig = cfg.Clone()
		go srv.ServeTLS(l, "", "")
	} else {
		go srv.Serve(l)
	}
	return srv
}

func (w *world) onClose(f func()) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.closes = append(w.closes, f)
}

// close tears everything down; what is left after that is a leak which the
// end of the bubble finds.
func (w *world) close() {
	w.mu.Lock()
	cl := w.closes
	w.closes = nil
	w.mu.Unlock()
	for _, f := range cl {
		f()
	}
	w.cancel()
	time.Sleep(5 * time.Second)
	for _, s := range w.srvs {
		s.Close()
	}
	time.Sleep(time.Second)
	for _, c := range w.Net.Conns() {
		c.Close()
		c.Peer.Close()
	}
	time.Sleep(time.Minute)
	if p := w.sink.Panics(); p != "" {
		w.violate("handler-panic", "a server handler panicked: %s", p)
	}
	curNet.Store(nil)
}

// client makes a jlib client for the in-memory network.
func (w *world) client(proto, host string) jlibhttp.Streamable {
	return w.clientTLS(proto, host, nil)
}

func schemeOf(proto string) string {
	return proto // ws, wss, h2, h2c
}

func (w *world) clientTLS(proto, host string, cfg *tls.Config) jlibhttp.Streamable {
	u := schemeOf(proto) + "://" + host + "/"
	cl, err := jlibhttp.NewClient(u)
	if err != nil {
		w.violate("client", "NewClient(%s): %v", u, err)
		panic(err)
	}
	if cfg != nil {
		cl.SetClientTLSConfig(cfg)
	}
	if (proto == "ws" || proto == "wss") && !wsRoutable() {
		w.r.taint("the ws client doesn't dial by websocket.DefaultDialer")
	}
	st := cl.(jlibhttp.Streamable)
	w.route(st)
	w.onClose(func() { closeClient(st) })
	return st
}

// wsRoutable tells if the ws client dials the in-memory network.  A client
// which doesn't can't be observed in a bubble.
var wsRoutable = sync.OnceValue(func() bool {
	old := curNet.Load()
	n := NewMemNet()
	curNet.Store(n)
	defer curNet.Store(old)
	cl, err := jlibhttp.NewClient("ws://srv/")
	if err != nil {
		return true
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	cl.Send(ctx, jlib.NewNotifyMessage("probe", []any{}))
	closeClient(cl)
	return n.dialed > 0
})

// route makes an H2 client dial the in-memory network.
func (w *world) route(cl jlibhttp.Client) {
	h2, ok := cl.(*jlibhttp.H2Client)
	if !ok {
		return
	}
	nw := w.Net
	dial := func(ctx context.Context, addr string, cfg *tls.Config) (net.Conn, error) {
		c, err := nw.Dial(ctx, hostOf(addr))
		if err != nil || h2.UseH2C {
			return c, err
		}
		tc := tls.Client(c, cfg)
		if err := tc.HandshakeContext(ctx); err != nil {
			c.Close()
			return nil, err
		}
		if p := tc.ConnectionState().NegotiatedProtocol; p != "h2" {
			c.Close()
			return nil, fmt.Errorf("http2: unexpected ALPN protocol %q", p)
		}
		return tc, nil
	}
	tr, ok := h2.HTTPClient().Transport.(*http2.Transport)
	if !ok {
		w.r.taint("the H2 client has no *http2.Transport")
		return
	}
	tr.DialTLS = func(network, addr string, cfg *tls.Config) (net.Conn, error) {
		return dial(context.Background(), addr, cfg)
	}
	tr.DialTLSContext = func(ctx context.Context, network, addr string, cfg *tls.Config) (net.Conn, error) {
		return dial(ctx, addr, cfg)
	}
}

func closeClient(cl jlibhttp.Client) {
	if c, ok := cl.(interface{ Close() }); ok {
		c.Close()
	}
}

// handlerFor wraps an actor into the server of a protocol.
func (w *world) handlerFor(proto string, actor *jlibhttp.Actor, spawn bool) http.Handler {
	switch proto {
	case "ws", "wss":
		h := jlibhttp.NewWSHandler(w.Ctx, actor)
		h.SpawnGoroutine = spawn
		return h
	case "h2c":
		h := jlibhttp.NewH2Handler(w.Ctx, actor)
		h.SpawnGoroutine = spawn
		return h.H2CHandler()
	case "h2":
		h := jlibhttp.NewH2Handler(w.Ctx, actor)
		h.SpawnGoroutine = spawn
		return h
	}
	panic(proto)
}

func tlsFor(proto string) *tls.Config {
	if proto == "wss" || proto == "h2" {
		return certs().server
	}
	return nil
}

func clientTLSFor(proto string) *tls.Config {
	if proto == "wss" || proto == "h2" {
		return certs().client
	}
	return nil
}

// --- raw peers ---

// rawConn is one streaming session as a peer sees it: whole JSON texts.
type rawConn interface {
	ReadRaw() ([]byte, error)
	WriteRaw([]byte) error
	Close()
}

type rawWS struct {
	c  *websocket.Conn
	mu chanLock
}

// chanLock is a lock a bubble may hold while time passes.
type chanLock chan struct{}

func newChanLock() chanLock { return make(chanLock, 1) }
func (l chanLock) Lock()    { l <- struct{}{} }
func (l chanLock) Unlock()  { <-l }

func (w *rawWS) ReadRaw() ([]byte, error) {
	_, d, err := w.c.ReadMessage()
	return d, err
}

// WriteRaw sends d as one text message, in one frame or several, some after
// frames which mean nothing to JSON-RPC.
func (w *rawWS) WriteRaw(d []byte) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	switch hash64(string(d)) % 8 {
	case 0:
		if err := w.c.WriteMessage(websocket.BinaryMessage, d[:len(d)/2]); err != nil {
			return err
		}
	case 1:
		if err := w.c.WriteMessage(websocket.BinaryMessage, nil); err != nil {
			return err
		}
	case 2:
		// no pings: gorilla gives up reading when it can't send the pong, and
		// a peer may write and close
		if err := w.c.WriteMessage(websocket.PongMessage, nil); err != nil {
			return err
		}
	case 3, 4:
		// fragments
		m, err := w.c.NextWriter(websocket.TextMessage)
		if err != nil {
			return err
		}
		for len(d) > 0 {
			n := min(len(d), 1+int(hash64(string(d[:min(len(d), 20)]))%300))
			if _, err := m.Write(d[:n]); err != nil {
				return err
			}
			d = d[n:]
		}
		return m.Close()
	}
	return w.c.WriteMessage(websocket.TextMessage, d)
}
func (w *rawWS) Close() { w.c.Close() }

type rawH2 struct {
	dec   *json.Decoder
	w     io.Writer
	flush func()
	close func()
	mu    chanLock
	over  bool
}

func (h *rawH2) ReadRaw() ([]byte, error) {
	var m json.RawMessage
	err := h.dec.Decode(&m)
	return m, err
}
func (h *rawH2) WriteRaw(d []byte) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.over {
		return io.ErrClosedPipe
	}
	if hash64(string(d))%5 == 0 {
		d = append([]byte("\n \t\r\n"), d...)
	}
	if _, err := h.w.Write(d); err != nil {
		return err
	}
	_, err := h.w.Write([]byte("\n"))
	if err == nil && h.flush != nil {
		h.flush()
	}
	return err
}
func (h *rawH2) Close() { h.close() }

// rawServer is a peer for jlib clients whose sessions are run by script; the
// session ends when script returns.
func (w *world) rawServer(proto, host string, script func(c rawConn, r *http.Request)) {
	w.serve(host, rawHandler(proto, script), tlsFor(proto))
}

func rawHandler(proto string, script func(c rawConn, r *http.Request)) http.Handler {
	var h http.Handler
	switch proto {
	case "ws", "wss":
		up := websocket.Upgrader{WriteBufferSize: 64, CheckOrigin: func(*http.Request) bool { return true }}
		h = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			c, err := up.Upgrade(rw, r, nil)
			if err != nil {
				return
			}
			defer c.Close()
			script(&rawWS{c: c, mu: newChanLock()}, r)
		})
	case "h2c", "h2":
		hh := http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			rw.WriteHeader(200)
			rw.(http.Flusher).Flush()
			h := &rawH2{mu: newChanLock(), dec: json.NewDecoder(r.Body), w: rw, flush: rw.(http.Flusher).Flush, close: func() {
				r.Body.Close()
				panic(http.ErrAbortHandler)
			}}
			defer func() {
				// nobody writes to the response any more
				h.mu.Lock()
				h.over = true
				h.mu.Unlock()
			}()
			script(h, r)
		})
		h = hh
		if proto == "h2c" {
			h = h2c.NewHandler(hh, &http2.Server{})
		}
	}
	return h
}

// dialRaw connects a raw peer to a jlib server.
func (w *world) dialRaw(proto, host string, hdr http.Header) (rawConn, *MemConn, error) {
	return w.dialRawAs(proto, host, host, hdr)
}

// dialRawAs checks the certificate for another name.
func (w *world) dialRawAs(proto, host, name string, hdr http.Header) (rawConn, *MemConn, error) {
	ctx := context.Background()
	var conn *MemConn
	dial := func() (net.Conn, error) {
		c, err := w.Net.Dial(ctx, host)
		if err != nil {
			return nil, err
		}
		conn = c.(*MemConn)
		if cfg := clientTLSFor(proto); cfg != nil {
			cfg = cfg.Clone()
			cfg.ServerName = name
			if proto == "h2" {
				cfg.NextProtos = []string{"h2"}
			}
			tc := tls.Client(c, cfg)
			return tc, tc.Handshake()
		}
		return c, nil
	}
	switch proto {
	case "ws", "wss":
		c, err := dial()
		if err != nil {
			return nil, conn, err
		}
		u, _ := url.Parse("ws://" + host + "/")
		wc, _, err := websocket.NewClient(c, u, hdr, 4096, 64)
		if err != nil {
			c.Close()
			return nil, conn, err
		}
		return &rawWS{c: wc, mu: newChanLock()}, conn, nil
	case "h2c", "h2":
		c, err := dial()
		if err != nil {
			return nil, conn, err
		}
		tr := &http2.Transport{AllowHTTP: true}
		cc, err := tr.NewClientConn(c)
		if err != nil {
			c.Close()
			return nil, conn, err
		}
		pr, pw := io.Pipe()
		req, _ := http.NewRequest("PRI", "http://"+host+"/", pr)
		for k, v := range hdr {
			req.Header[k] = v
		}
		resp, err := cc.RoundTrip(req)
		if err != nil {
			c.Close()
			return nil, conn, err
		}
		if resp.StatusCode != 200 {
			resp.Body.Close()
			c.Close()
			return nil, conn, fmt.Errorf("status %d", resp.StatusCode)
		}
		return &rawH2{mu: newChanLock(), dec: json.NewDecoder(resp.Body), w: pw, close: func() {
			pw.Close()
			resp.Body.Close()
			c.Close()
		}}, conn, nil
	}
	panic(proto)
}

// h1Post sends one HTTP/1 request on a connection of its own.
func (w *world) h1Do(host string, req *http.Request) (*http.Response, []byte, error) {
	c, err := w.Net.Dial(context.Background(), host)
	if err != nil {
		return nil, nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(time.Hour))
	req.Header.Set("Connection", "close")
	if err := req.Write(c); err != nil {
		return nil, nil, err
	}
	resp, err := http.ReadResponse(bufio.NewReader(c), req)
	if err != nil {
		return nil, nil, err
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	return resp, body, err
}

func (w *world) h1Post(host string, body []byte, hdr http.Header) (*http.Response, []byte, error) {
	req, err := http.NewRequest("POST", "http://"+host+"/", bytes.NewReader(body))
	if err != nil {
		return nil, nil, err
	}
	for k, v := range hdr {
		req.Header[k] = v
	}
	return w.h1Do(host, req)
}

// --- bounded waits in virtual time ---

// await runs f and tells if it returned within d of virtual time.
func await(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// bubble is Run.Bubble with a world around it.
func (r *Run) world(sig string, c any, rng *rand.Rand, f func(w *world)) {
	// pooled channels of a former bubble must not be met in this one
	runtime.GC()
	runtime.GC()
	wsRoutable()
	r.tainted.Store(false)
	defer r.tainted.Store(false)
	r.Bubble(sig, c, func(t *testing.T) {
		w := newWorld(r, rng, sig, c)
		defer w.close()
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 16<<10)
				buf = buf[:runtime.Stack(buf, false)]
				if jl := strings.Contains(string(buf), "superisaac/jlib"); jl {
					r.Violate(sig+":panic", c, "panic: %v\n%s", p, buf)
				} else {
					r.HarnessError("%s %v: panic %v\n%s", sig, jsonSafe(c), p, buf)
				}
			}
		}()
		f(w)
	})
}

var _ = synctest.Wait

// --- certificates ---

type certSet struct {
	dir      string
	server   *tls.Config
	client   *tls.Config
	other    *tls.Config // trusts another authority
	certFile string
	keyFile  string
	caFile   string
	pool     *x509.CertPool
}

var certsOnce = sync.OnceValue(makeCerts)

func certs() *certSet { return certsOnce() }

func makeCA(name string) (*x509.Certificate, *ecdsa.PrivateKey) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
	must(err)
	ca, err := x509.ParseCertificate(der)
	must(err)
	return ca, key
}

func makeLeaf(ca *x509.Certificate, cakey *ecdsa.PrivateKey, names ...string) (certPEM, keyPEM []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	tpl := &x509.Certificate{
		SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: names[0]},
		NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: names, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
	}
	der, err := x509.CreateCertificate(crand.Reader, tpl, ca, &key.PublicKey, cakey)
	must(err)
	kder, err := x509.MarshalECPrivateKey(key)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kder})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func makeCerts() *certSet {
	ca, cakey := makeCA("verif ca")
	ca2, _ := makeCA("verif other ca")
	cp, kp := makeLeaf(ca, cakey, "localhost", "srv", "srv1", "srv2", "srv3")
	pair, err := tls.X509KeyPair(cp, kp)
	must(err)
	s := &certSet{dir: scratch()}
	s.certFile, s.keyFile = filepath.Join(s.dir, "cert.pem"), filepath.Join(s.dir, "key.pem")
	must(os.WriteFile(s.certFile, cp, 0o600))
	must(os.WriteFile(s.keyFile, kp, 0o600))
	s.caFile = filepath.Join(s.dir, "ca.pem")
	must(os.WriteFile(s.caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.Raw}), 0o600))
	s.pool = x509.NewCertPool()
	s.pool.AddCert(ca)
	pool2 := x509.NewCertPool()
	pool2.AddCert(ca2)
	s.server = &tls.Config{Certificates: []tls.Certificate{pair}}
	s.client = &tls.Config{RootCAs: s.pool}
	s.other = &tls.Config{RootCAs: pool2}
	return s
}

func scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	d, err := os.MkdirTemp(d, "s")
	must(err)
	return d
}

// --- small helpers ---

func mkReq(id any, method string, params ...any) *jlib.RequestMessage {
	if params == nil {
		params = []any{}
	}
	return jlib.NewRequestMessage(id, method, params)
}

var errNoAnswer = errors.New("no answer")

func h2cWrap(h http.Handler) http.Handler { return h2c.NewHandler(h, &http2.Server{}) }
