package props

import (
	"context"
	"crypto/tls"
	"fmt"
	"log"
	"net"
	"net/http"
	"runtime"
	"strings"
	"time"

	jlibhttp "github.com/superisaac/jlib/http"
)

// Servers on the loopback interface, for what cannot run on the in-memory
// network.

type loopSrv struct {
	srv  *http.Server
	l    net.Listener
	sink *logSink
	r    *Run
	tls  bool
}

func (r *Run) loopServe(h http.Handler, useTLS bool) *loopSrv {
	// pooled channels of a bubble must not be met outside
	runtime.GC()
	runtime.GC()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &loopSrv{l: l, sink: &logSink{}, r: r, tls: useTLS}
	s.srv = &http.Server{Handler: h, ErrorLog: log.New(s.sink, "", 0)}
	if useTLS {
		s.srv.TLSConfig = certs().server.Clone()
		go s.srv.ServeTLS(l, "", "")
	} else {
		go s.srv.Serve(l)
	}
	return s
}

func (s *loopSrv) Addr() string { return s.l.Addr().String() }

// URL gives the url of a scheme family: http, ws, h2.
func (s *loopSrv) URL(family string) string {
	scheme := family
	switch {
	case family == "http" && s.tls:
		scheme = "https"
	case family == "ws" && s.tls:
		scheme = "wss"
	case family == "h2" && !s.tls:
		scheme = "h2c"
	}
	return scheme + "://" + s.Addr() + "/"
}

func (s *loopSrv) Close() {
	s.srv.Close()
	if p := s.sink.Panics(); p != "" {
		s.r.Violate(s.r.Prop+":handler-panic", nil, "a server handler panicked: %s", p)
	}
}

// recoverCase turns a panic in a case into a violation or a harness error.
func (r *Run) recoverCase(sig string, c any) {
	p := recover()
	if p == nil {
		return
	}
	buf := make([]byte, 16<<10)
	buf = buf[:runtime.Stack(buf, false)]
	if strings.Contains(string(buf), "superisaac/jlib") {
		r.Violate(sig+":panic", c, "panic: %v\n%s", p, buf)
	} else {
		r.HarnessError("%s %v: panic %v\n%s", sig, jsonSafe(c), p, buf)
	}
}

// closeIdle waits for nothing: HTTP/1 clients own a pool nobody can close,
// the server side ends it.
func closeIdle(jlibhttp.Client) {}

// loopClient makes a client of a family for a loopback server.
func (s *loopSrv) client(family string) (jlibhttp.Client, error) {
	var opts []jlibhttp.ClientOptions
	if family == "http" {
		opts = append(opts, jlibhttp.ClientOptions{Timeout: 120})
	}
	cl, err := jlibhttp.NewClient(s.URL(family), opts...)
	if err != nil {
		return nil, err
	}
	if s.tls {
		cl.SetClientTLSConfig(certs().client)
	}
	return cl, nil
}

// realWait waits for f in real time; a false answer settles nothing by
// itself, it bounds the run.
func realWait(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

var _ = fmt.Sprint
var _ = tls.VersionTLS12
var _ = context.Background
