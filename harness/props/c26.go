package props

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC26(r *Run) {
	r.Rule("hostile servers: raw HTTP/1 answers (any status, framing, encoding, truncation, stall, drip, reset, redirect, non-responses) on the loopback, faulty HTTP/2 and WebSocket handshakes (statuses, wrong upgrades, garbage bytes, broken frames, stalls) followed by a healthy server, and sessions which answer calls with garbage, non-responses, undecodable results, strays and duplicates; what a call returns is compared with what the server did; non-trivial: distinct (transport, sequence of behaviours)")
	h := newHostile(r)
	defer h.l.Close()
	n := r.N(9000, 300000)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 48)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			c := map[string]any{"i": i, "part": "h1"}
			defer r.recoverCase("C26", c)
			h.one(i, c)
		}()
	}
	n = r.N(160, 4000)
	slow := make(chan struct{}, 200)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		slow <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-slow }()
			c := map[string]any{"i": i, "part": "slow"}
			defer r.recoverCase("C26", c)
			h.slow(i, c)
		}()
	}
	wg.Wait()
	n = r.N(1500, 60000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			handshakeC26(r, i)
		}
	}
	n = r.N(1500, 60000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			sessionC26(r, i)
		}
	}
	n = r.N(300, 12000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			movedC26(r, i)
		}
	}
}

func wrappedOf(err error) *jlibhttp.WrappedResponse {
	var p *jlibhttp.WrappedResponse
	if errors.As(err, &p) {
		return p
	}
	var v jlibhttp.WrappedResponse
	if errors.As(err, &v) {
		return &v
	}
	return nil
}

func simpleOf(err error) *jlibhttp.SimpleResponse {
	var p *jlibhttp.SimpleResponse
	if errors.As(err, &p) {
		return p
	}
	var v jlibhttp.SimpleResponse
	if errors.As(err, &v) {
		return &v
	}
	return nil
}

// --- HTTP/1 ---

// h1answer is what the hostile server does upon one request.
type h1answer struct {
	kind   string // what it is
	chunks [][]byte
	pause  time.Duration // between chunks
	hang   bool          // hold the connection afterwards
	drip   bool          // keep on writing bytes afterwards
	rst    bool
	close  bool
	// what is to be expected
	want   string // message, error, status, any
	body   []byte
	status int
	gzip   bool
	// not even a status
	noheader bool
}

type hostile struct {
	r    *Run
	l    net.Listener
	mu   sync.Mutex
	plan map[string]*h1answer
	got  map[string]int
	gone atomic.Bool
}

func newHostile(r *Run) *hostile {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	h := &hostile{r: r, l: l, plan: map[string]*h1answer{}, got: map[string]int{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go h.serve(c)
		}
	}()
	return h
}

func (h *hostile) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		io.Copy(io.Discard, req.Body)
		h.mu.Lock()
		a := h.plan[req.URL.Path]
		h.got[req.URL.Path]++
		h.mu.Unlock()
		if a == nil {
			return
		}
		for k, b := range a.chunks {
			if k > 0 && a.pause > 0 {
				time.Sleep(a.pause)
			}
			if _, err := c.Write(b); err != nil {
				return
			}
		}
		switch {
		case a.drip:
			for {
				if _, err := c.Write([]byte("x")); err != nil {
					return
				}
				time.Sleep(50 * time.Millisecond)
			}
		case a.hang:
			// until the peer leaves
			io.Copy(io.Discard, br)
			return
		case a.rst:
			c.(*net.TCPConn).SetLinger(0)
			return
		case a.close:
			return
		}
	}
}

// split cuts a text into pieces.
func split(rng *rand.Rand, b []byte) [][]byte {
	if rng.IntN(3) > 0 || len(b) < 2 {
		return [][]byte{b}
	}
	var out [][]byte
	for len(b) > 0 {
		n := 1 + rng.IntN(len(b))
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

// responseDoc makes a valid response.
func responseDoc(rng *rand.Rand, id any, val any) map[string]any {
	switch rng.IntN(3) {
	case 0:
		var data any
		if rng.IntN(2) == 0 {
			data = genValue(rng, 2)
		}
		return errorDoc(id, "", rng.IntN(4000)-2000, genString(rng)+"m", data)
	default:
		return resultDoc(id, "", val)
	}
}

// clean tells if a JSON value can be told apart by its canonical form.
func genClean(rng *rand.Rand, depth int) any {
	for {
		if v := genValue(rng, depth); !strings.HasPrefix(canon(v), "!") {
			return v
		}
	}
}

func genBody26(rng *rand.Rand, id any) (body []byte, kind string) {
	valid := func() []byte { return []byte(rawJSON(rng, responseDoc(rng, id, genClean(rng, 3)))) }
	if rng.IntN(50) == 0 {
		size := bigSize(rng, 3<<20)
		if rng.IntN(2) == 0 {
			return bytes.Repeat([]byte("no document "), 1+size/12), "big bytes"
		}
		b, err := json.Marshal(resultDoc(id, "", bigValue(rng, size)))
		must(err)
		return b, "big response"
	}
	switch rng.IntN(12) {
	case 0:
		return nil, "empty"
	case 1:
		return genBytes(rng, 200), "bytes"
	case 2:
		b := valid()
		return b[:rng.IntN(len(b))], "cut"
	case 3:
		b := valid()
		for k := 1 + rng.IntN(3); k > 0; k-- {
			b[rng.IntN(len(b))] = byte(rng.IntN(256))
		}
		return b, "flipped"
	case 4:
		d := map[string]any{"jsonrpc": "2.0", "method": "m", "params": genList(rng, 2)}
		if rng.IntN(2) == 0 {
			d["id"] = id
		}
		return []byte(rawJSON(rng, d)), "no response"
	case 5:
		return []byte(rawJSON(rng, genClean(rng, 2))), "json"
	case 6:
		d := responseDoc(rng, id, genClean(rng, 2))
		switch rng.IntN(4) {
		case 0:
			delete(d, "id")
		case 1:
			d["error"] = genClean(rng, 1)
		case 2:
			delete(d, "jsonrpc")
		case 3:
			delete(d, "result")
			delete(d, "error")
		}
		return []byte(rawJSON(rng, d)), "odd response"
	}
	return valid(), "response"
}

func genAnswer(rng *rand.Rand, path string) *h1answer {
	a := &h1answer{}
	body, bkind := genBody26(rng, 1)
	a.body = body
	a.status = 200
	if rng.IntN(3) == 0 {
		a.status = pick(rng, 201, 202, 203, 206, 226, 300, 400, 401, 403, 404, 405, 408, 409, 413, 418, 429, 451, 499, 500, 501, 502, 503, 504, 511, 599, 200+rng.IntN(800))
	}
	a.kind = fmt.Sprint(bkind, " ", a.status/100)
	reason := pick(rng, http.StatusText(a.status), "", "OK", "whatever")
	var hdr, out bytes.Buffer
	if rng.IntN(8) == 0 && a.status == 200 {
		for k := 1 + rng.IntN(3); k > 0; k-- {
			fmt.Fprintf(&out, "HTTP/1.1 %d %s\r\n\r\n", pick(rng, 100, 102, 103), "wait")
		}
		a.kind += " informed"
	}
	fmt.Fprintf(&hdr, "HTTP/1.1 %03d %s\r\n", a.status, reason)
	for k := rng.IntN(4); k > 0; k-- {
		fmt.Fprintf(&hdr, "X-H%d: %s\r\n", k, pick(rng, "", "v", "a, b", strings.Repeat("long", 500)))
	}
	if rng.IntN(2) == 0 {
		fmt.Fprintf(&hdr, "Content-Type: %s\r\n", pick(rng, "application/json", "text/html; charset=utf-8", "nonsense"))
	}
	if rng.IntN(20) == 0 && a.status/100 == 3 {
		fmt.Fprintf(&hdr, "Location: %s\r\n", pick(rng, path, "/", "//", "http://127.0.0.1:1/", "::bad", ""))
		a.kind += " location"
		a.want = "any"
	}
	wire := body
	if rng.IntN(8) == 0 {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		zw.Write(body)
		zw.Close()
		wire = z.Bytes()
		a.gzip = true
		a.kind += " gzip"
		fmt.Fprintf(&hdr, "Content-Encoding: gzip\r\n")
	}
	nobody := a.status == 204 || a.status == 304
	if nobody {
		wire, a.body = nil, nil
	}
	framing := pick(rng, "length", "length", "chunked", "close")
	a.close = rng.IntN(3) == 0
	cut, complete := false, true
	if !nobody && rng.IntN(6) == 0 {
		cut = true
	}
	switch {
	case nobody:
		fmt.Fprintf(&hdr, "\r\n")
	case framing == "length":
		if cut {
			fmt.Fprintf(&hdr, "Content-Length: %d\r\n\r\n", len(wire)+1+rng.IntN(100))
			complete = false
		} else {
			fmt.Fprintf(&hdr, "Content-Length: %d\r\n", len(wire))
			if a.close {
				fmt.Fprintf(&hdr, "Connection: close\r\n")
			}
			fmt.Fprintf(&hdr, "\r\n")
		}
		hdr.Write(wire)
	case framing == "chunked":
		fmt.Fprintf(&hdr, "Transfer-Encoding: chunked\r\n")
		if a.close {
			fmt.Fprintf(&hdr, "Connection: close\r\n")
		}
		fmt.Fprintf(&hdr, "\r\n")
		for b := wire; len(b) > 0; {
			n := 1 + rng.IntN(len(b))
			fmt.Fprintf(&hdr, "%x\r\n%s\r\n", n, b[:n])
			b = b[n:]
		}
		if cut {
			complete = false
		} else {
			fmt.Fprintf(&hdr, "0\r\n\r\n")
		}
	default:
		a.close = true
		fmt.Fprintf(&hdr, "Connection: close\r\n\r\n")
		hdr.Write(wire)
	}
	out.Write(hdr.Bytes())
	all := out.Bytes()
	a.kind += " " + framing
	switch rng.IntN(20) {
	case 0: // nothing, or a part of the header
		all = all[:rng.IntN(12)]
		complete, a.close, a.kind = false, true, "no header"
		a.noheader = true
	case 1:
		all, complete, a.close, a.kind = genBytes(rng, 200), false, true, "no http"
		a.noheader = true
		if bytes.HasPrefix(all, []byte("HTTP/")) {
			all = nil
		}
	case 2: // something behind the answer
		if complete && a.close && framing != "close" {
			all = append(append([]byte{}, all...), genBytes(rng, 200)...)
			a.kind += " surplus"
		}
	case 3:
		a.rst = true
		a.kind += " reset"
		a.want = "any" // a reset overtakes what was written
	}
	if !complete {
		a.close = true
		if a.want == "" {
			a.want = "error"
		}
		a.kind += " truncated"
	}
	a.chunks = split(rng, all)
	if a.want == "" {
		a.want = "status"
		if a.status == 200 {
			a.want = "body"
		}
	}
	return a
}

// face is what a message says, without its trace id.
func face(m jlib.Message) string {
	v := viewOf(m)
	v.Trace = ""
	return fmt.Sprintf("%+v", v)
}

// judgeBody tells what is wrong with the outcome of a call which was
// answered by body; "" if nothing is.
func judgeBody(body []byte, msg jlib.Message, err error) string {
	want, perr := parseQuiet(body)
	if perr != nil || !want.IsResultOrError() {
		if err == nil {
			return fmt.Sprintf("no error although %q is no response", clip(string(body), 300))
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("error %v instead of the response %q", err, clip(string(body), 300))
	}
	if msg == nil {
		return "neither message nor error"
	}
	if face(msg) != face(want) {
		return fmt.Sprintf("%s instead of %s", clip(face(msg), 400), clip(face(want), 400))
	}
	return ""
}

func parseQuiet(body []byte) (m jlib.Message, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic %v", p)
		}
	}()
	return jlib.ParseBytes(body)
}

func isNilMsg(m jlib.Message) bool {
	if m == nil {
		return true
	}
	v := reflect.ValueOf(m)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func (h *hostile) one(i int, c map[string]any) {
	r := h.r
	rng := r.Rand("hostile", i)
	ncalls := 1 + rng.IntN(4)
	path := fmt.Sprintf("/h%d", i)
	cl, err := jlibhttp.NewClient("http://"+h.l.Addr().String()+path, jlibhttp.ClientOptions{Timeout: 300})
	if err != nil {
		r.Violate("C26:client", c, "NewClient: %v", err)
		return
	}
	key := "h1"
	reset := false
	for k := 0; k < ncalls; k++ {
		a := genAnswer(rng, path)
		if reset {
			// a call may be sent before the reset of the last one's
			// connection is noticed
			a.want = "any"
		}
		reset = a.rst
		h.mu.Lock()
		h.plan[path] = a
		h.mu.Unlock()
		var sent [][]byte
		for _, b := range a.chunks {
			sent = append(sent, b)
		}
		cc := map[string]any{"case": c, "call": k, "kind": a.kind, "answer": clip(string(bytes.Join(sent, nil)), 2000)}
		violate := func(kind, format string, args ...any) { r.Violate("C26:"+kind, cc, format, args...) }
		op := pick(rng, "call", "call", "unwrap", "send")
		key += " " + op + " " + a.kind
		req := mkReq(1, "m", "p")
		if rng.IntN(3) == 0 {
			req.SetTraceId("tr")
		}
		var msg jlib.Message
		var outv reflect.Value
		t := convTypes[rng.IntN(len(convTypes))]
		var opErr error
		done := realWait(240*time.Second, func() {
			defer r.recoverCase("C26", cc)
			switch op {
			case "call":
				msg, opErr = cl.Call(context.Background(), req)
			case "unwrap":
				outv = reflect.New(t)
				opErr = cl.UnwrapCall(context.Background(), req, outv.Interface())
			case "send":
				if rng.IntN(2) == 0 {
					opErr = cl.Send(context.Background(), req)
				} else {
					opErr = cl.Send(context.Background(), jlib.NewNotifyMessage("m", []any{"p"}))
				}
			}
		})
		if !done {
			violate("hangs", "%s doesn't return although the server has answered", op)
			return
		}
		r.Count("h1 "+a.want, 1)
		if op == "call" && opErr == nil && isNilMsg(msg) {
			violate("nothing", "the call returned neither a message nor an error")
			continue
		}
		if op == "call" && opErr == nil && !msg.IsResultOrError() {
			violate("not-response", "the call returned a message which is no response")
			continue
		}
		switch a.want {
		case "any":
		case "error":
			// sending doesn't need the body
			if opErr == nil && (op != "send" || a.noheader) {
				violate("truncated", "%s returned no error though the answer is incomplete", op)
			}
		case "status":
			if opErr == nil {
				violate("status", "%s returned no error for status %d", op, a.status)
				continue
			}
			w := wrappedOf(opErr)
			if w == nil || w.Response == nil {
				violate("status", "%s returned %v for status %d", op, opErr, a.status)
				continue
			}
			if w.Response.StatusCode != a.status {
				violate("status", "%s returned status %d instead of %d", op, w.Response.StatusCode, a.status)
			}
			if op != "send" && !bytes.Equal(w.Body, a.body) {
				violate("status-body", "the body of the error is %q instead of %q", clip(string(w.Body), 300), clip(string(a.body), 300))
			}
		case "body":
			switch op {
			case "call":
				if why := judgeBody(a.body, msg, opErr); why != "" {
					violate("response", "%s", why)
				}
			case "unwrap":
				if why := judgeUnwrap(a.body, outv.Elem(), opErr); why != "" {
					violate("unwrap", "%s", why)
				}
			case "send":
				if opErr != nil {
					violate("send", "sending failed although the server accepted it: %v", opErr)
				}
			}
		}
	}
	r.Eval(key)
	h.mu.Lock()
	delete(h.plan, path)
	delete(h.got, path)
	h.mu.Unlock()
}

// judgeUnwrap judges UnwrapCall when the server's answer was body.
func judgeUnwrap(body []byte, out reflect.Value, err error) string {
	want, perr := parseQuiet(body)
	if perr != nil || !want.IsResultOrError() {
		if err == nil {
			return fmt.Sprintf("no error although %q is no response", clip(string(body), 300))
		}
		return ""
	}
	if want.IsError() {
		var re *jlib.RPCError
		if err == nil || !errors.As(err, &re) {
			return fmt.Sprintf("%v instead of the RPC error %q", err, clip(string(body), 300))
		}
		we := want.MustError()
		if re.Code != we.Code || re.Message != we.Message || canon(re.Data) != canon(we.Data) {
			return fmt.Sprintf("the RPC error %v instead of %q", re, clip(string(body), 300))
		}
		return ""
	}
	wv, vd := convert(want.MustResult(), out.Type())
	switch vd {
	case vOK:
		if err != nil {
			return fmt.Sprintf("error %v for the result %q into %s", err, clip(string(body), 300), out.Type())
		}
		if !eqv(out, wv) {
			return fmt.Sprintf("%s instead of %s for the result %q into %s", clip(goText(out), 300), clip(goText(wv), 300), clip(string(body), 300), out.Type())
		}
	case vBad:
		if err == nil {
			return fmt.Sprintf("no error for the result %q into %s", clip(string(body), 300), out.Type())
		}
		var re *jlib.RPCError
		if errors.As(err, &re) {
			return fmt.Sprintf("an RPC error %v for the undecodable result %q", re, clip(string(body), 300))
		}
	}
	return ""
}

// slow: answers which don't come in time, and such which do.
func (h *hostile) slow(i int, c map[string]any) {
	r := h.r
	rng := r.Rand("slow", i)
	path := fmt.Sprintf("/s%d", i)
	a := &h1answer{status: 200, close: true}
	body := []byte(`{"jsonrpc":"2.0","id":1,"result":"late"}`)
	opt := jlibhttp.ClientOptions{Timeout: 1 + rng.IntN(2)}
	var opts []jlibhttp.ClientOptions
	mode := pick(rng, "nothing", "nothing", "half header", "header", "half body", "drip", "status half body", "status nothing", "in time", "in time", "default", "zero", "gone")
	head := fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n", len(body))
	bad := fmt.Sprintf("HTTP/1.1 503 Busy\r\nContent-Length: %d\r\n\r\n", len(body))
	timeout := true
	a.hang = true
	opts = append(opts, opt)
	switch mode {
	case "nothing":
	case "half header":
		a.chunks = [][]byte{[]byte(head)}
	case "header":
		a.chunks = [][]byte{[]byte(head + "\r\n")}
	case "half body":
		a.chunks = [][]byte{[]byte(head + "\r\n"), body[:5+rng.IntN(len(body)-5)]}
	case "drip":
		a.chunks = [][]byte{[]byte("HTTP/1.1 " + pick(rng, "200", "500") + " OK\r\n\r\n")}
		a.drip = true
	case "status half body":
		a.chunks = [][]byte{[]byte(bad), body[:7]}
	case "status nothing":
		a.chunks = [][]byte{[]byte(bad)}
	case "in time":
		// far from the limit, and longer than the default one sometimes
		d := time.Duration(500+rng.IntN(1000)) * time.Millisecond
		if rng.IntN(3) == 0 {
			d = 6500 * time.Millisecond
		}
		opts[0].Timeout = 200
		a.chunks = [][]byte{[]byte(head + "\r\n")[:rng.IntN(len(head))], nil}
		a.chunks[1] = append([]byte(head + "\r\n")[len(a.chunks[0]):], body...)
		a.pause = d
		timeout = false
	case "default":
		opts = nil
	case "zero":
		opts[0].Timeout = -rng.IntN(2)
	case "gone":
		// the caller gives up first
		opts[0].Timeout = 200
	}
	cc := map[string]any{"case": c, "mode": mode, "options": opts}
	violate := func(kind, format string, args ...any) { r.Violate("C26:"+kind, cc, format, args...) }
	h.mu.Lock()
	h.plan[path] = a
	h.mu.Unlock()
	cl, err := jlibhttp.NewClient("http://"+h.l.Addr().String()+path, opts...)
	if err != nil {
		violate("client", "NewClient: %v", err)
		return
	}
	unwrap := rng.IntN(2) == 0
	var msg jlib.Message
	var out string
	var opErr error
	ctx := context.Background()
	if mode == "gone" {
		var cancel func()
		ctx, cancel = context.WithTimeout(ctx, 300*time.Millisecond)
		defer cancel()
	}
	done := realWait(180*time.Second, func() {
		defer r.recoverCase("C26", cc)
		if unwrap {
			opErr = cl.UnwrapCall(ctx, mkReq(1, "m"), &out)
		} else {
			msg, opErr = cl.Call(ctx, mkReq(1, "m"))
		}
	})
	r.Eval(fmt.Sprint("slow ", mode, unwrap))
	r.Count("slow "+mode, 1)
	switch {
	case !done:
		violate("timeout", "the call doesn't return within its timeout")
	case mode == "gone":
		if opErr == nil {
			violate("gone", "no error although the caller has given up")
		}
	case timeout:
		s := simpleOf(opErr)
		if s == nil || s.Code != 408 {
			violate("timeout", "%v, %v instead of a 408 error", msg, opErr)
		}
	default:
		if opErr != nil {
			violate("in-time", "error %v though the answer came in time", opErr)
		} else if unwrap && out != "late" || !unwrap && judgeBody(body, msg, opErr) != "" {
			violate("in-time", "%v %q instead of the response", msg, out)
		}
	}
}

// --- handshakes ---

// planListener hands the first connections to a fault and the others to the
// server.
type planListener struct {
	net.Listener
	fault func(n int, c net.Conn) bool
	n     int
}

func (l *planListener) Accept() (net.Conn, error) {
	for {
		c, err := l.Listener.Accept()
		if err != nil {
			return nil, err
		}
		l.n++
		if l.fault != nil && l.fault(l.n, c) {
			continue
		}
		return c, nil
	}
}

func handshakeC26(r *Run, i int) {
	rng := r.Rand("handshake", i)
	proto := pick(rng, "ws", "ws", "wss", "h2c", "h2c", "h2")
	mode := pick(rng, "status", "status", "raw", "raw", "stall")
	nbad := 1 + rng.IntN(3)
	c := map[string]any{"i": i, "proto": proto, "mode": mode, "bad": nbad}
	r.world("C26", c, rng, func(w *world) {
		isWS := strings.HasPrefix(proto, "ws")
		var mu sync.Mutex
		served := 0
		type bad struct {
			status int
			body   []byte
			hdr    http.Header
			how    string
			junk   []byte
			cut    bool // the body breaks off
		}
		var plan []bad
		key := proto + " " + mode
		for k := 0; k < nbad; k++ {
			b := bad{hdr: http.Header{}, junk: genBytes(rng, 200)}
			b.status = pick(rng, 200, 201, 204, 206, 301, 302, 304, 307, 400, 401, 403, 404, 405, 408, 418, 421, 425, 426, 429, 500, 501, 502, 503, 504, 599, 200+rng.IntN(700))
			if !isWS && b.status == 200 {
				b.status = 203
			}
			if b.status != 204 && b.status != 304 {
				b.body = genBytes(rng, 200)
				if h := rng.IntN(6); h == 0 {
					b.body = bytes.Repeat([]byte(pick(rng, "why not? ", "x", "\n")), 1+rng.IntN(9000))
				}
			}
			if rng.IntN(3) == 0 {
				b.hdr.Set("X-Why", "because")
			}
			if b.status/100 == 3 && rng.IntN(3) != 0 {
				// nobody follows it
				b.hdr.Set("Location", pick(rng, "/", "/other", "https://elsewhere/"))
			}
			b.how = pick(rng, "close", "garbage", "cut", "http1", "half", "reset")
			if isWS && mode == "status" && rng.IntN(4) == 0 {
				b.how = pick(rng, "101", "101 upgrade", "101 wrong key")
			}
			b.cut = b.status != 204 && b.status != 304 && rng.IntN(5) == 0
			plan = append(plan, b)
			if mode == "status" {
				key += fmt.Sprint(" ", b.status, b.how[:3] == "101")
			} else {
				key += " " + b.how
			}
		}
		base := proto
		if proto == "h2c" {
			base = "h2"
		}
		inner := rawHandler(base, func(rc rawConn, hr *http.Request) {
			for {
				d, err := rc.ReadRaw()
				if err != nil {
					return
				}
				q, err := parseReqIn(d)
				if err != nil {
					continue
				}
				b, _ := json.Marshal(answerDoc(q))
				rc.WriteRaw(b)
			}
		})
		good := http.Handler(http.HandlerFunc(func(rw http.ResponseWriter, hr *http.Request) {
			mu.Lock()
			served++
			mu.Unlock()
			inner.ServeHTTP(rw, hr)
		}))
		var nreq atomic.Int32
		handler := good
		if mode == "status" {
			bads := http.HandlerFunc(func(rw http.ResponseWriter, hr *http.Request) {
				n := int(nreq.Add(1))
				if n > nbad {
					good.ServeHTTP(rw, hr)
					return
				}
				b := plan[n-1]
				if strings.HasPrefix(b.how, "101") {
					hj, _, err := rw.(http.Hijacker).Hijack()
					if err != nil {
						return
					}
					s := "HTTP/1.1 101 Switching Protocols\r\n"
					if b.how != "101" {
						s += "Upgrade: websocket\r\nConnection: Upgrade\r\n"
					}
					if b.how == "101 wrong key" {
						s += "Sec-WebSocket-Accept: AAAA\r\n"
					}
					hj.Write([]byte(s + "\r\n"))
					time.Sleep(time.Second)
					hj.Close()
					return
				}
				for k, v := range b.hdr {
					rw.Header()[k] = v
				}
				if b.cut {
					rw.Header().Set("Content-Length", fmt.Sprint(len(b.body)+10))
				}
				rw.WriteHeader(b.status)
				rw.Write(b.body)
				if b.cut {
					rw.(http.Flusher).Flush()
					panic(http.ErrAbortHandler)
				}
			})
			handler = bads
		}
		if proto == "h2c" {
			handler = h2cWrap(handler)
		}
		var faults atomic.Int32
		l := &planListener{Listener: w.Net.Listen("srv")}
		if mode != "status" {
			l.fault = func(n int, conn net.Conn) bool {
				if n > nbad {
					return false
				}
				faults.Add(1)
				how := plan[n-1].how
				junk := plan[n-1].junk
				w.onClose(func() { conn.Close() })
				go func() {
					switch {
					case mode == "stall":
						if how != "close" {
							conn.Write(junk[:min(len(junk), 3)])
						}
						io.Copy(io.Discard, conn)
					case how == "close":
						conn.Close()
					case how == "reset":
						conn.(*MemConn).Reset()
					case how == "garbage":
						conn.Write(junk)
						conn.Close()
					case how == "http1":
						conn.Write([]byte("HTTP/1.1 400 Bad Request\r\nContent-Length: 3\r\n\r\nbad"))
						io.CopyN(io.Discard, conn, 10)
						conn.Close()
					case how == "half":
						conn.Write([]byte("HTTP/1.1 101 Switching Pro"))
						conn.Close()
					case how == "cut":
						io.CopyN(io.Discard, conn, 10)
						// a frame header which promises more
						conn.Write([]byte{0, 0, 20, 4, 0, 0, 0, 0, 0, 1, 2})
						conn.Close()
					}
				}()
				return true
			}
		}
		w.serveOn(l, handler, tlsFor(proto))
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		var connects atomic.Int32
		must(cl.OnConnected(func() { connects.Add(1) }))
		tries := nbad + 8
		if mode == "stall" && !isWS {
			// the stalled connection stays in use
			tries = 3
		}
		for k := 0; k < tries; k++ {
			op := pick(rng, "connect", "call", "call", "unwrap", "send")
			tok := fmt.Sprintf("k%d", k)
			// a connection lives under the context it was made with
			ctx, cancel := w.Ctx, func() {}
			if mode == "stall" && (int(faults.Load()) < nbad || proto == "h2c") {
				ctx, cancel = context.WithTimeout(w.Ctx, 30*time.Second)
			}
			var msg jlib.Message
			var out any
			var err error
			ok := await(10*time.Minute, func() {
				defer cancel()
				switch op {
				case "connect":
					err = cl.Connect(ctx)
				case "call":
					msg, err = cl.Call(ctx, mkReq(k, "m", tok))
				case "unwrap":
					err = cl.UnwrapCall(ctx, mkReq(k, "m", tok), &out)
				case "send":
					err = cl.Send(ctx, mkReq(k, "m", tok))
				}
			})
			if !ok {
				w.violate("handshake-hangs", "%s %d doesn't return after the deadline of its context", op, k)
				return
			}
			mu.Lock()
			up := served > 0
			mu.Unlock()
			over := mode == "status" && int(nreq.Load()) > nbad || mode != "status" && int(faults.Load()) >= nbad
			if !up {
				if err == nil {
					w.violate("handshake", "%s %d succeeded (%v) though no session has been established", op, k, msg)
					return
				}
				if mode == "status" && !isWS {
					if n := int(nreq.Load()); n > 0 && n <= nbad {
						b := plan[n-1]
						wr := wrappedOf(err)
						if b.cut {
							// the status or the breach, both are meaningful
							continue
						}
						if wr == nil || wr.Response == nil || wr.Response.StatusCode != b.status || !bytes.Equal(wr.Body, b.body) {
							w.violate("handshake-status", "%s %d returned %v %+v for status %d with body %q", op, k, err, wr, b.status, clip(string(b.body), 200))
							return
						}
					}
				}
				if x, ok := cl.(interface{ Connected() bool }); ok && x.Connected() {
					w.violate("handshake-connected", "the client is connected after its handshake failed: %v", err)
					return
				}
				if n := connects.Load(); n != 0 {
					w.violate("handshake-connected", "the connected handler ran %d times though no session has been established", n)
					return
				}
				if over && k > nbad+6 {
					w.violate("handshake-recover", "%s %d fails though the server is healthy: %v", op, k, err)
					return
				}
				r.Count("failed handshakes", 1)
				continue
			}
			// healthy from here on
			if err != nil {
				res, code := expectAnswer(tok)
				var re *jlib.RPCError
				if op == "unwrap" && code != 0 && errors.As(err, &re) && re.Code == code {
					continue
				}
				w.violate("handshake-after", "%s %d fails in a healthy session: %v (%v)", op, k, err, res)
				return
			}
			r.Count("calls after", 1)
			if op == "call" {
				if why := judgeAnswer(&callOut{msg: msg, id: k, token: tok}); why != "" {
					w.violate("handshake-answer", "%s %d: %s", op, k, why)
					return
				}
			}
		}
		mu.Lock()
		up := served
		mu.Unlock()
		if up == 0 && tries > 3 {
			w.violate("handshake-recover", "no session was established after %d faults", nbad)
		}
		r.Eval(key)
	})
}

// --- sessions ---

func sessionC26(r *Run, i int) {
	rng := r.Rand("session", i)
	proto := pick(rng, "ws", "ws", "wss", "h2c", "h2c", "h2")
	isWS := strings.HasPrefix(proto, "ws")
	n := 2 + rng.IntN(8)
	type step struct {
		kind   string
		body   []byte
		before [][]byte
		after  [][]byte
		typ    reflect.Type
		unwrap bool
		ends   bool // the connection with it
	}
	steps := map[string]*step{}
	var order []string
	key := proto
	for k := 0; k < n; k++ {
		s := &step{unwrap: rng.IntN(2) == 0, typ: convTypes[rng.IntN(len(convTypes))]}
		tok := fmt.Sprintf("s%d", k)
		val := genFor(rng, s.typ, pick(rng, 0, 2, 4))
		if strings.HasPrefix(canon(val), "!") {
			val = "x"
		}
		doc := resultDoc(k, "", val)
		if rng.IntN(5) == 0 {
			doc = errorDoc(k, "", rng.IntN(100)-50, "e"+tok, genClean(rng, 1))
		}
		s.body = []byte(rawJSON(rng, doc))
		if m, err := parseQuiet(s.body); err != nil || !m.IsResultOrError() {
			s.body = []byte(rawJSON(rng, resultDoc(k, "", val)))
		}
		good := s.body
		kinds := []string{"good", "good", "good", "stray", "push", "dup", "notjson", "invalid", "close", "half", "huge", "early"}
		if isWS {
			kinds = append(kinds, "binary", "ping")
		}
		s.kind = pick(rng, kinds...)
		switch s.kind {
		case "stray":
			s.before = append(s.before, []byte(rawJSON(rng, resultDoc(pick[any](rng, "nobody's", json.Number("99999")), "", 1))))
		case "push":
			s.before = append(s.before, []byte(rawJSON(rng, map[string]any{"jsonrpc": "2.0", "method": "pushed", "params": genList(rng, 1)})))
			if rng.IntN(2) == 0 {
				s.before = append(s.before, []byte(rawJSON(rng, map[string]any{"jsonrpc": "2.0", "id": json.Number(fmt.Sprint(k)), "method": "ask", "params": []any{}})))
			}
		case "dup":
			s.after = append(s.after, s.body)
		case "notjson":
			s.body, s.ends = []byte(pick(rng, "hello", "}{", "\x00\x01", "nul ", "<html>", "tru}", "{\"a\":]")), true
		case "invalid":
			s.body, s.ends = []byte(pick(rng, "{}", "[]", "1", "\"s\"", "null", `{"jsonrpc":"1.0","id":1,"result":2}`, `{"jsonrpc":"2.0","id":{},"result":2}`, `{"jsonrpc":"2.0","id":1}`, `{"jsonrpc":"2.0","id":1,"error":"e"}`, `{"jsonrpc":"2.0","result":1}`)), true
			if m, err := parseQuiet(s.body); err == nil && !isNilMsg(m) {
				s.ends, s.body, s.kind = false, good, "good"
			}
		case "close", "half":
			s.ends = true
		case "huge":
			s.typ, s.unwrap = reflect.TypeOf(""), true
			b, _ := json.Marshal(resultDoc(k, "", strings.Repeat("huge ", 40000+rng.IntN(200000))))
			s.body = b
		}
		steps[tok] = s
		order = append(order, tok)
		key += " " + s.kind
		if s.unwrap {
			key += "!" + s.typ.String()
		}
	}
	c := map[string]any{"i": i, "proto": proto, "steps": key}
	r.world("C26", c, rng, func(w *world) {
		var sessions, handled atomic.Int32
		w.rawServer(proto, "srv", func(rc rawConn, hr *http.Request) {
			sessions.Add(1)
			for {
				d, err := rc.ReadRaw()
				if err != nil {
					return
				}
				q, err := parseReqIn(d)
				if err != nil {
					continue // answers to pushed requests
				}
				s := steps[q.token()]
				if s == nil {
					continue
				}
				for _, b := range s.before {
					rc.WriteRaw(b)
				}
				switch s.kind {
				case "close":
					return
				case "half":
					if h, ok := rc.(*rawH2); ok {
						b := bytes.TrimSpace(s.body)
						h.w.Write(b[:len(b)-1])
						h.flush()
					}
					return
				case "binary":
					rc.(*rawWS).c.WriteMessage(websocket.BinaryMessage, []byte{1, 2, 3})
				case "ping":
					rc.(*rawWS).c.WriteMessage(websocket.PingMessage, []byte("p"))
				case "early":
					time.Sleep(3 * time.Second)
				}
				rc.WriteRaw(s.body)
				for _, b := range s.after {
					rc.WriteRaw(b)
				}
			}
		})
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		if rng.IntN(2) == 0 {
			cl.OnMessage(func(m jlib.Message) { handled.Add(1) })
		}
		want := int32(1)
		for k, tok := range order {
			s := steps[tok]
			var msg jlib.Message
			var err error
			outv := reflect.New(s.typ)
			ok := await(5*time.Minute, func() {
				if s.unwrap {
					err = cl.UnwrapCall(w.Ctx, mkReq(k, "m", tok), outv.Interface())
				} else {
					msg, err = cl.Call(w.Ctx, mkReq(k, "m", tok))
				}
			})
			cc := map[string]any{"case": c, "step": k, "kind": s.kind, "body": clip(string(s.body), 1000), "type": s.typ.String(), "unwrap": s.unwrap}
			violate := func(kind, format string, args ...any) { r.Violate("C26:"+kind, cc, format, args...) }
			if !ok {
				violate("session-hangs", "the call doesn't return")
				return
			}
			r.Count("session "+s.kind, 1)
			if got := sessions.Load(); got != want {
				violate("session-lost", "the client has made %d connections instead of %d", got, want)
				return
			}
			if !s.unwrap && err == nil && (isNilMsg(msg) || !msg.IsResultOrError()) {
				violate("nothing", "the call returned neither a response nor an error: %v", msg)
				return
			}
			if s.ends {
				if err == nil && (s.unwrap || !msg.IsError()) {
					violate("session-answer", "the call succeeded (%v) though there was no response", msg)
					return
				}
				// the session is over once both sides know
				time.Sleep(20 * time.Second)
				want++
				continue
			}
			why := ""
			if s.unwrap {
				why = judgeUnwrap(s.body, outv.Elem(), err)
			} else {
				why = judgeBody(s.body, msg, err)
			}
			if why != "" {
				violate("session-response", "%s", why)
				return
			}
		}
		r.Eval(key)
	})
}
