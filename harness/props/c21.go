package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	pkgerrors "github.com/pkg/errors"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC21(r *Run) {
	r.Rule("raw HTTP/1 connections (kept alive, pipelined, chunked, fragmented) send every HTTP method, messages of every kind, mutated and malformed bodies, trace ids in header and body to the HTTP/1 endpoint; status, headers, body and the handler runs of each exchange are judged against a reference parser; non-trivial: distinct (HTTP method, body class, handler outcome, expected answer)")
	n := r.N(1500, 40000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC21(r, i)
		}
	}
	r.bigPosts("C21", 60, 3000)
}

// upstream is a response handlers relay.
type upstream struct {
	code int
	hdr  http.Header
	body []byte
}

func genUpstream(rng *rand.Rand) *upstream {
	u := &upstream{code: pick(rng, 200, 201, 202, 203, 206, 299, 300, 301, 302, 400, 401, 403, 404, 405, 408, 418, 429, 499, 500, 502, 503, 504, 599), hdr: http.Header{}}
	for k := rng.IntN(4); k > 0; k-- {
		name := pick(rng, "X-A", "X-B", "Content-Type", "Retry-After", "Set-Cookie", "Location", "Www-Authenticate", "X-Trace-Id", "Etag")
		if name == "Set-Cookie" || rng.IntN(3) == 0 && name != "Content-Type" {
			u.hdr.Add(name, fmt.Sprintf("v%d", rng.IntN(100)))
		}
		u.hdr.Add(name, pick(rng, "", "text/plain", "a, b", "x=y; z", "é"))
	}
	switch rng.IntN(6) {
	case 0:
	case 1:
		u.body = genBytes(rng, 3000)
	case 2:
		u.body = bytes.Repeat([]byte("upstream "), 1+rng.IntN(9000))
	default:
		u.body = []byte(pick(rng, `{"jsonrpc":"2.0","id":1,"result":2}`, "<html>no</html>", "nope", `"request timeout"`))
	}
	if rng.IntN(5) == 0 {
		u.hdr.Set("Content-Length", fmt.Sprint(len(u.body)))
	}
	return u
}

func (u *upstream) err() error {
	return &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: u.code, Header: u.hdr, Status: "whatever"}, Body: u.body}
}

type c21note struct {
	runs int
	view msgView
	raw  string
	tr   string
	kind jlib.Message
}

// c21 is one endpoint and what its handlers saw, by exchange.
type c21 struct {
	mu    sync.Mutex
	notes map[string]*c21note
	up    map[string]*upstream
}

func (x *c21) handler(f func(req *jlibhttp.RPCRequest, tok string) (any, error)) func(*jlibhttp.RPCRequest, []any) (any, error) {
	return func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		tok := ""
		if q := req.HttpRequest(); q != nil {
			tok = q.Header.Get("X-Verif")
		}
		x.mu.Lock()
		n := x.notes[tok]
		if n == nil {
			n = &c21note{}
			x.notes[tok] = n
		}
		n.runs++
		n.view = viewOf(req.Msg())
		x.mu.Unlock()
		return f(req, tok)
	}
}

func (x *c21) upFor(tok string) *upstream {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.up[tok]
}

var c21rpc = &jlib.RPCError{Code: 77, Message: "seventy seven", Data: map[string]any{"d": 1}}

// kinds of handlers by method name
func (x *c21) actor(missing bool) *jlibhttp.Actor {
	a, child := jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(child)
	on := func(to *jlibhttp.Actor, name string, f func(req *jlibhttp.RPCRequest, tok string) (any, error), s ...jlibhttp.HandlerSetter) {
		must(to.OnRequest(name, x.handler(f), s...))
	}
	on(a, "ok", func(req *jlibhttp.RPCRequest, tok string) (any, error) {
		return map[string]any{"p": req.Msg().MustParams()}, nil
	})
	on(child, "null", func(*jlibhttp.RPCRequest, string) (any, error) { return nil, nil })
	on(a, "big", func(*jlibhttp.RPCRequest, string) (any, error) { return strings.Repeat("0123456789", 9000), nil })
	on(a, "html", func(*jlibhttp.RPCRequest, string) (any, error) { return "<a href=\"x\">&\u2028</a>", nil })
	on(a, "rpcerr", func(*jlibhttp.RPCRequest, string) (any, error) { return nil, c21rpc })
	on(child, "rpcwrap", func(*jlibhttp.RPCRequest, string) (any, error) { return nil, fmt.Errorf("outer %w", c21rpc) })
	on(a, "err", func(*jlibhttp.RPCRequest, string) (any, error) { return 1, errors.New("plain") })
	on(a, "panic", func(*jlibhttp.RPCRequest, string) (any, error) { panic(errors.New("boom")) })
	on(a, "chan", func(*jlibhttp.RPCRequest, string) (any, error) { return func() {}, nil })
	on(a, "up", func(_ *jlibhttp.RPCRequest, tok string) (any, error) { return nil, x.upFor(tok).err() })
	on(child, "upwrap", func(_ *jlibhttp.RPCRequest, tok string) (any, error) {
		return nil, fmt.Errorf("calling upstream: %w", x.upFor(tok).err())
	})
	on(a, "uppkg", func(_ *jlibhttp.RPCRequest, tok string) (any, error) {
		return nil, pkgerrors.Wrap(pkgerrors.Wrap(x.upFor(tok).err(), "RPC(x)"), "again")
	})
	on(a, "uppanic", func(_ *jlibhttp.RPCRequest, tok string) (any, error) { panic(x.upFor(tok).err()) })
	on(a, "simple", func(_ *jlibhttp.RPCRequest, tok string) (any, error) {
		u := x.upFor(tok)
		return nil, &jlibhttp.SimpleResponse{Code: u.code, Body: u.body}
	})
	on(a, "gated", func(*jlibhttp.RPCRequest, string) (any, error) { return "in", nil }, jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"integer"}]}`))
	if missing {
		must(a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
			return x.handler(func(_ *jlibhttp.RPCRequest, tok string) (any, error) {
				if !req.Msg().IsRequestOrNotify() && strings.HasSuffix(tok, "1") {
					return req.Msg().MustMethod(), nil // panics
				}
				return "missing", nil
			})(req, nil)
		}))
	}
	return a
}

var c21methods = []string{"ok", "ok", "null", "big", "html", "rpcerr", "rpcwrap", "err", "panic", "chan", "up", "up", "upwrap", "uppkg", "uppanic", "simple", "gated", "gated", "nope"}

type c21ex struct {
	tok    string
	verb   string
	body   []byte
	class  string
	hdr    http.Header
	chunk  bool
	broken bool // the body breaks off, the connection ends with it
	trace  string
}

func genC21ex(rng *rand.Rand, tok string) *c21ex {
	e := &c21ex{tok: tok, verb: "POST", hdr: http.Header{}, class: "message"}
	doc := map[string]any{"jsonrpc": "2.0", "method": pick(rng, c21methods...)}
	switch rng.IntN(5) {
	case 0:
		doc["params"] = genObject(rng, 2)
	case 1, 2:
		doc["params"] = []any{json.Number(fmt.Sprint(rng.IntN(100)))}
	default:
		doc["params"] = genList(rng, 2)
	}
	if rng.IntN(4) != 0 {
		doc["id"] = pick[any](rng, json.Number("1"), json.Number("0"), json.Number("-5"), "", "x", genString(rng))
	}
	if rng.IntN(3) == 0 {
		doc["traceid"] = genTrace(rng)
	}
	switch rng.IntN(12) {
	case 0:
		doc = genDoc(rng)
		e.class = "members"
	case 1:
		delete(doc, pick(rng, "params", "method", "jsonrpc"))
		e.class = "members"
	case 2:
		doc[pick(rng, "result", "error", "extra", "id", "params", "method")] = genValue(rng, 1)
		e.class = "members"
	}
	e.body = []byte(rawJSON(rng, doc))
	switch rng.IntN(14) {
	case 0:
		e.body = mutate(rng, e.body)
		e.class = "mutated"
	case 1:
		e.body = genBytes(rng, 200)
		e.class = "bytes"
	case 2:
		e.body = []byte(pick(rng, "", " ", "null", "[]", "{}", "1", `"x"`, "true", "[1]", `[{"jsonrpc":"2.0","id":1,"method":"ok","params":[]}]`, "{", `{"jsonrpc":"2.0","id":1,"method":"ok","params":[`))
		e.class = "scrap"
	case 3:
		e.body = append(e.body, []byte(pick(rng, " ", "\n", "x", "{}", "]", string(e.body)))...)
		e.class = "trailing"
	}
	if rng.IntN(6) == 0 {
		e.verb = pick(rng, "GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "post", "Post", "FOO", "POSTX")
	}
	if rng.IntN(3) == 0 {
		e.trace = headerTrace(rng)
		e.hdr.Set("X-Trace-Id", e.trace)
	}
	e.hdr.Set("X-Verif", tok)
	if rng.IntN(2) == 0 {
		e.hdr.Set("Content-Type", pick(rng, "application/json", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", ""))
	}
	e.chunk = rng.IntN(3) == 0
	return e
}

// wire is the request as sent.
func (e *c21ex) wire(rng *rand.Rand) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: srv\r\n", e.verb, pick(rng, "/", "/a/b", "/?method=x", "/rpc?id=1&traceid=zz"))
	for k, vs := range e.hdr {
		for _, v := range vs {
			fmt.Fprintf(&b, "%s: %s\r\n", k, v)
		}
	}
	if !e.chunk {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(e.body))
		b.Write(e.body)
		return b.Bytes()
	}
	b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
	d := e.body
	for len(d) > 0 {
		k := 1 + rng.IntN(1+len(d))
		if k > len(d) {
			k = len(d)
		}
		fmt.Fprintf(&b, "%x\r\n%s\r\n", k, d[:k])
		d = d[k:]
	}
	if e.broken {
		b.WriteString(pick(rng, "zz\r\n", "-1\r\n", "5\r\nabc\r\n\r\n\r\n0\r\n\r\n", "\r\n\r\n"))
		return b.Bytes()
	}
	b.WriteString("0\r\n\r\n")
	return b.Bytes()
}

func oneC21(r *Run, i int) {
	rng := r.Rand("http", i)
	nconn := 1 + rng.IntN(3)
	missing := rng.IntN(4) == 0
	gateway := rng.IntN(4) == 0
	c := map[string]any{"i": i, "connections": nconn, "missing": missing, "gateway": gateway}
	r.world("C21", c, rng, func(w *world) {
		x := &c21{notes: map[string]*c21note{}, up: map[string]*upstream{}}
		actor := x.actor(missing)
		if gateway {
			w.serve("srv", jlibhttp.NewGatewayHandler(w.Ctx, actor, true), nil)
		} else if i%5 == 0 {
			// an h2 endpoint serves HTTP/1 requests alike
			w.serve("srv", jlibhttp.NewH2Handler(w.Ctx, actor), nil)
			r.Count("h2_fallback", 1)
		} else {
			w.serve("srv", jlibhttp.NewH1Handler(actor), nil)
		}
		if rng.IntN(2) == 0 {
			w.Net.Plan = Jitter(rng, time.Duration(rng.IntN(20))*time.Millisecond, 1+rng.IntN(200))
		}
		var wg sync.WaitGroup
		var starts []func()
		for k := 0; k < nconn; k++ {
			crng := rand.New(rand.NewPCG(rng.Uint64(), uint64(k)))
			var exs []*c21ex
			for j := 1 + crng.IntN(8); j > 0; j-- {
				e := genC21ex(crng, fmt.Sprintf("x%d-%d", k, j))
				x.up[e.tok] = genUpstream(crng)
				exs = append(exs, e)
			}
			if crng.IntN(5) == 0 {
				last := exs[len(exs)-1]
				last.chunk, last.broken, last.class, last.verb = true, true, "broken", "POST"
			}
			starts = append(starts, func() { c21conn(w, crng, x, exs, missing) })
		}
		for _, f := range starts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f()
			}()
		}
		if !await(time.Hour, wg.Wait) {
			w.violate("stuck", "a connection waits for its response")
		}
	})
}

func c21conn(w *world, rng *rand.Rand, x *c21, exs []*c21ex, missing bool) {
	nc, err := w.Net.Dial(w.Ctx, "srv")
	if err != nil {
		w.violate("dial", "%v", err)
		return
	}
	defer nc.Close()
	br := bufio.NewReader(nc)
	pipeline := rng.IntN(4) == 0
	var wires [][]byte
	for _, e := range exs {
		wires = append(wires, e.wire(rng))
	}
	turn := make(chan bool, len(exs)+1)
	defer close(turn)
	go func() {
		for _, d := range wires {
			if !pipeline && !<-turn {
				return
			}
			if _, err := nc.Write(d); err != nil {
				return
			}
		}
	}()
	for k, e := range exs {
		turn <- true
		req, _ := http.NewRequest(e.verb, "http://srv/", nil)
		resp, err := http.ReadResponse(br, req)
		c := map[string]any{"case": w.c, "verb": e.verb, "body": string(e.body), "headers": e.hdr, "chunked": e.chunk, "class": e.class}
		if err != nil {
			w.r.Violate("C21:no-response", c, "exchange %d of %d got no HTTP response: %v", k, len(exs), err)
			return
		}
		body, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			w.r.Violate("C21:body", c, "the response of status %d breaks off: %v", resp.StatusCode, err)
			return
		}
		want := x.judge(w, e, resp, body, missing, c)
		w.r.Eval(fmt.Sprintf("%s %s %s %v", e.verb, e.class, want, e.chunk))
		w.r.Count("expected_"+want, 1)
		if resp.Close {
			return
		}
	}
}

// judge returns the kind of answer which was due.
func (x *c21) judge(w *world, e *c21ex, resp *http.Response, body []byte, missing bool, c any) string {
	bad := func(kind, format string, args ...any) {
		w.r.Violate("C21:"+kind, c, "got %d %v %q: %s", resp.StatusCode, resp.Header, clip(string(body), 400), fmt.Sprintf(format, args...))
	}
	x.mu.Lock()
	n := x.notes[e.tok]
	if n == nil {
		n = &c21note{}
	}
	u := x.up[e.tok]
	x.mu.Unlock()
	refused := func(code int) {
		if resp.StatusCode != code {
			bad("status", "status %d is due", code)
		}
		if n.runs != 0 {
			bad("ran", "a handler ran for a refused request")
		}
	}
	if e.verb != "POST" {
		refused(405)
		return "405"
	}
	if e.broken {
		refused(400)
		return "400"
	}
	doc, err := decodeAny(e.body)
	if err != nil {
		refused(400)
		return "400"
	}
	dec := json.NewDecoder(bytes.NewReader(e.body))
	var first json.RawMessage
	dec.Decode(&first)
	if _, err := dec.Token(); err != io.EOF || !plainMembers(e.body) {
		// whether that is a message is left open, not what follows
		if n.runs > 1 {
			bad("ran", "a handler ran %d times", n.runs)
		}
		return "open"
	}
	o := refParse(doc)
	if !o.Sure {
		return "open"
	}
	if o.Err {
		refused(400)
		return "400"
	}
	v := o.View
	if e.trace != "" {
		v.Trace = e.trace
	}
	known := false
	for _, m := range c21methods {
		known = known || m == v.Method && m != "nope"
	}
	isReq := v.Kind == "request"
	params, _ := doc.(map[string]any)["params"].([]any)
	if _, list := doc.(map[string]any)["params"].([]any); !list {
		params = []any{doc.(map[string]any)["params"]}
	}
	if v.Kind == "result" || v.Kind == "error" {
		if n.runs > 1 || n.runs > 0 && !missing {
			bad("ran", "a handler ran %d times for a response", n.runs)
		}
		return v.Kind
	}
	wantRuns := 1
	gateOpen := false
	if v.Method == "gated" {
		arr, list := doc.(map[string]any)["params"].([]any)
		gateOpen = list && len(arr) == 1 && isIntegral(arr[0])
		if list && len(arr) == 1 && !gateOpen {
			if num, ok := arr[0].(json.Number); ok {
				_ = num
				return "open" // 1.0 or 1e2
			}
		}
		if !list {
			return "open"
		}
		if !gateOpen {
			wantRuns = 0
		}
	}
	if !known && !missing {
		wantRuns = 0
	}
	if n.runs != wantRuns {
		bad("runs", "the handler of %s ran %d times, %d are due", v.Method, n.runs, wantRuns)
	} else if n.runs == 1 && n.view != v {
		bad("message", "the handler got %+v, the body says %+v", n.view, v)
	}
	relay := func() string {
		if resp.StatusCode != u.code {
			bad("upstream", "status %d of the wrapped response is due", u.code)
		}
		if !bytes.Equal(body, u.body) {
			bad("upstream", "the body of the wrapped response is due: %q", clip(string(u.body), 300))
		}
		a, b := plainHeader(resp.Header), plainHeader(u.hdr)
		if _, has := b["Content-Type"]; !has {
			delete(a, "Content-Type")
		}
		if !reflect.DeepEqual(a, b) {
			bad("upstream", "the headers of the wrapped response are due: %v", u.hdr)
		}
		return "upstream"
	}
	if !isReq {
		// a notify
		switch v.Method {
		case "up", "upwrap", "uppkg", "uppanic":
			return relay() + "-notify"
		case "simple":
			if resp.StatusCode != u.code || !bytes.Equal(body, u.body) {
				bad("simple", "status %d with body %q is due", u.code, clip(string(u.body), 300))
			}
			return "simple-notify"
		case "rpcerr", "rpcwrap", "err", "panic":
			if resp.StatusCode != 500 {
				bad("notify", "a failed notify is a 500")
			}
			return "500"
		case "gated":
			if !gateOpen {
				if resp.StatusCode != 500 {
					bad("notify", "a failed notify is a 500")
				}
				return "500"
			}
		}
		if resp.StatusCode != 200 || len(body) != 0 {
			bad("notify", "200 and an empty body are due")
		}
		return "200 empty"
	}
	if strings.HasPrefix(v.Method, "up") && known {
		return relay()
	}
	if resp.StatusCode != 200 {
		bad("status", "200 is due")
		return "200"
	}
	if ct := resp.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		bad("content-type", "a JSON content type is due")
	}
	m, err := oneObject(body)
	if err != nil {
		bad("document", "one document is due: %v", err)
		return "200"
	}
	if m["jsonrpc"] != "2.0" || strings.Replace(canon(m["id"]), "-0", "0", 1) != strings.Replace(canon(doc.(map[string]any)["id"]), "-0", "0", 1) {
		bad("response", "the response of id %v is due", doc.(map[string]any)["id"])
	}
	tr := resp.Header.Get("X-Trace-Id")
	if t, _ := m["traceid"].(string); t != "" {
		tr = t
	}
	if tr != v.Trace {
		bad("trace", "trace id %q is due", v.Trace)
	}
	wantErr := func(code string) {
		eb, _ := m["error"].(map[string]any)
		if _, has := m["result"]; has || eb == nil || canon(eb["code"]) != code {
			bad("response", "error %s is due", code)
		}
	}
	wantRes := func(res any) {
		got, has := m["result"]
		if _, e := m["error"]; e || !has || canon(got) != canon(res) {
			bad("response", "result %s is due", clip(canon(res), 300))
		}
	}
	switch {
	case !known && missing:
		wantRes("missing")
	case !known:
		wantErr("-32601")
	case v.Method == "ok":
		wantRes(map[string]any{"p": params})
	case v.Method == "null":
		wantRes(nil)
	case v.Method == "big":
		wantRes(strings.Repeat("0123456789", 9000))
	case v.Method == "html":
		wantRes("<a href=\"x\">&\u2028</a>")
	case strings.HasPrefix(v.Method, "rpc"):
		wantErr("77")
	case v.Method == "gated" && gateOpen:
		wantRes("in")
	case v.Method == "gated":
		eb, _ := m["error"].(map[string]any)
		if eb == nil {
			bad("response", "an error is due")
		}
	default:
		wantErr("-32603")
	}
	if _, e := m["error"]; e {
		return "200 error"
	}
	return "200 result"
}

func isIntegral(v any) bool {
	n, ok := v.(json.Number)
	return ok && isIntLit(n)
}

// plainHeader drops what every HTTP server adds.
func plainHeader(h http.Header) map[string][]string {
	out := map[string][]string{}
	for k, v := range h {
		switch k {
		case "Date", "Content-Length", "Connection", "Transfer-Encoding":
			continue
		}
		v = append([]string(nil), v...)
		sort.Strings(v)
		out[k] = v
	}
	return out
}
