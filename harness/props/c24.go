package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC24(r *Run) {
	r.Rule("runs of the built jsonrpc-call, -notify, -watch and -benchmark binaries with generated arguments, headers and URLs against loopback servers over http, https, ws, wss, h2c and h2: exit status, stdout and stderr against what the servers saw and sent; non-trivial: distinct (tool, scheme, argument shapes, server behaviour, outcome)")
	r.Assume("the tools trust the test authority through SSL_CERT_FILE")
	part := func(quick, thorough int, f func(r *Run, rng *rand.Rand, i int), label string) {
		n := r.N(quick, thorough)
		for i := 0; i < n; i++ {
			if r.Mine(i) && hungC24.Load() < 2 {
				func() {
					c := map[string]any{"part": label, "i": i}
					r.Journal(c)
					defer r.recoverCase("C24", c)
					f(r, r.Rand(label, i), i)
				}()
			}
		}
	}
	part(360, 6000, callC24, "call")
	part(240, 4000, notifyC24, "notify")
	part(240, 4000, failC24, "fail")
	part(150, 2500, watchC24, "watch")
	part(72, 1200, benchC24, "bench")
	if r.Shard == 0 {
		for i := 0; i < 4 && hungC24.Load() < 2; i++ {
			defaultC24(r, i)
		}
	}
}

type toolRun struct {
	exit   int
	stdout []byte
	stderr []byte
	ended  bool
	wall   time.Duration
}

// tool runs one command line tool.
func (r *Run) tool(name string, env []string, args ...string) toolRun {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), name), args...)
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "SSL_CERT_FILE=" + certs().caFile, "SSL_CERT_DIR=" + certs().dir + "/none"}, env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	t0 := time.Now()
	err := cmd.Run()
	t := toolRun{stdout: out.Bytes(), stderr: errb.Bytes(), ended: ctx.Err() == nil, wall: time.Since(t0)}
	var ee *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &ee):
		t.exit = ee.ExitCode()
	default:
		panic(err)
	}
	r.Count("tool_runs", 1)
	if !t.ended {
		r.Violate("C24:hang", map[string]any{"tool": name, "env": env, "args": args}, "the tool did not end within 100 s: %s", t)
		hungC24.Add(1)
	}
	return t
}

// hungC24 counts the tools which did not end.
var hungC24 atomic.Int32

func (t toolRun) String() string {
	return fmt.Sprintf("exit %d, stdout %q, stderr %q", t.exit, clip(string(t.stdout), 600), clip(string(t.stderr), 600))
}

// argsC24 makes the arguments of a method call and what they stand for.
func argsC24(rng *rand.Rand, dir string) (args []string, vals []any) {
	n := rng.IntN(5)
	for k := 0; k < n; {
		a := genArg(rng)
		if rng.IntN(6) == 0 {
			a = fileArg(rng, dir, 5*rng.IntN(10)+k)
		}
		if strings.Contains(a, "\x00") {
			continue
		}
		g := refGuess(a, readFile)
		if !g.sure || g.err || strings.HasPrefix(canon(g.v), "!") {
			continue
		}
		args, vals = append(args, a), append(vals, g.v)
		k++
	}
	return
}

// headersC24 makes -header flags and the header they stand for.
func headersC24(rng *rand.Rand) (args []string, want http.Header) {
	want = http.Header{}
	for k := rng.IntN(4); k > 0; k-- {
		name := pick(rng, "X-Verif-A", "x-verif-b", "X-VERIF-C", "X-Verif-1", "Authorization")
		val := pick(rng, "", "v", "a=b", "=", "a b", "a,b; c=\"d\"", "%20", "Bearer abc.def", "1=2=3", "é", fmt.Sprint(rng.Uint32()))
		if name == "Authorization" && len(want["Authorization"]) > 0 {
			name = "X-Verif-D"
		}
		pad := func() string { return pick(rng, "", "", " ", "  ") }
		flag := pad() + name + pad() + "=" + pad() + val + pad()
		if rng.IntN(2) == 0 {
			args = append(args, "-header", flag)
		} else {
			args = append(args, "--header="+flag)
		}
		want.Add(name, val)
	}
	return
}

// seenC24 compares the headers of a request with those asked for.
func seenC24(got, want http.Header) string {
	for k, vs := range got {
		if !strings.HasPrefix(k, "X-Verif") && k != "Authorization" {
			continue
		}
		if fmt.Sprint(vs) != fmt.Sprint(want[k]) || len(vs) != len(want[k]) {
			return fmt.Sprintf("header %s: %q, want %q", k, vs, want[k])
		}
	}
	for k, vs := range want {
		if len(got[k]) != len(vs) {
			return fmt.Sprintf("header %s: %q, want %q", k, got[k], vs)
		}
	}
	return ""
}

// at gives the way a URL gets to a tool.
func atC24(rng *rand.Rand, url, decoy string) (args, env []string) {
	switch rng.IntN(4) {
	case 0:
		return nil, []string{"JSONRPC_CONNECT=" + url}
	case 1:
		return []string{"-c", url}, []string{"JSONRPC_CONNECT=" + decoy}
	case 2:
		return []string{"-c=" + url}, nil
	}
	return []string{"--c", url}, nil
}

type seenMsg struct {
	msg jlib.Message
	req *http.Request
}

type c24srv struct {
	*loopSrv
	mu     sync.Mutex
	seen   []seenMsg
	hits   int
	cancel func()
}

// serveC24 serves every transport; all messages get to f.
func (r *Run) serveC24(useTLS bool, f func(req *jlibhttp.RPCRequest) (any, error)) *c24srv {
	s := &c24srv{}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	a := jlibhttp.NewActor()
	must(a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
		s.mu.Lock()
		s.seen = append(s.seen, seenMsg{msg: req.Msg(), req: req.HttpRequest()})
		s.mu.Unlock()
		return f(req)
	}))
	gw := jlibhttp.NewGatewayHandler(ctx, a, !useTLS)
	s.loopSrv = r.loopServe(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		s.mu.Lock()
		s.hits++
		s.mu.Unlock()
		gw.ServeHTTP(w, q)
	}), useTLS)
	return s
}

func (s *c24srv) Close() {
	s.cancel()
	s.loopSrv.Close()
}

func (s *c24srv) got() []seenMsg {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]seenMsg(nil), s.seen...)
}

func (s *c24srv) touched() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.hits
}

func methodC24(rng *rand.Rand) string {
	for {
		m := genMethod(rng)
		if m != "" && m[0] != '-' && !strings.Contains(m, "\x00") && utf8.ValidString(m) {
			return m
		}
	}
}

// docs splits an output into JSON documents.
func docs(out []byte) ([]any, error) {
	dec := json.NewDecoder(bytes.NewReader(out))
	dec.UseNumber()
	var ds []any
	for {
		var v any
		err := dec.Decode(&v)
		if err == io.EOF {
			return ds, nil
		}
		if err != nil {
			return ds, err
		}
		ds = append(ds, v)
	}
}

func callC24(r *Run, rng *rand.Rand, i int) {
	useTLS, fam := rng.IntN(3) == 0, pick(rng, "http", "ws", "h2")
	var o outcome
	for {
		// what the streaming servers end the session for is left out
		if o = genOutcome(rng); !strings.HasPrefix(o.kind, "error-message") && o.kind != "message" {
			break
		}
	}
	s := r.serveC24(useTLS, func(req *jlibhttp.RPCRequest) (any, error) { return o.run(req) })
	defer s.Close()
	decoy := r.serveC24(false, func(*jlibhttp.RPCRequest) (any, error) { return "decoy", nil })
	defer decoy.Close()
	method := methodC24(rng)
	params, vals := argsC24(rng, scratch())
	hargs, hdr := headersC24(rng)
	at, env := atC24(rng, s.URL(fam), decoy.URL("http"))
	args := append(append(append(at, hargs...), method), params...)
	c := map[string]any{"i": i, "args": args, "env": env, "outcome": o.kind}
	r.Journal(c)
	t := r.tool("jsonrpc-call", env, args...)
	r.judgeToolReq(c, "call", t, s, decoy, method, vals, hdr, 1)
	if !t.ended {
		return
	}
	if t.exit != 0 {
		r.Violate("C24:call-exit", c, "a call that succeeds: %s", t)
		return
	}
	ds, err := docs(t.stdout)
	if err != nil || len(ds) != 1 {
		r.Violate("C24:call-output", c, "the output isn't one document (%v): %s", err, t)
		return
	}
	doc, _ := ds[0].(map[string]any)
	if bad := o.checkResponse(doc, "", method); bad != "" {
		r.Violate("C24:call-response", c, "%s: %s", bad, t)
	}
	if seen := s.got(); len(seen) == 1 && canon(doc["id"]) != canon(seen[0].msg.MustId()) {
		r.Violate("C24:call-id", c, "the response of another request than %v: %s", seen[0].msg.MustId(), t)
	}
	r.Eval(fmt.Sprintf("call %v %s %s %d args %s %d headers", useTLS, fam, o.kind, len(params), shape(vals), len(hdr)))
	if i%97 == 0 {
		r.Sample(map[string]any{"case": c, "run": t.String()})
	}
}

// judgeToolReq compares what a server saw with what the arguments say.
func (r *Run) judgeToolReq(c any, tool string, t toolRun, s, decoy *c24srv, method string, vals []any, hdr http.Header, n int) {
	if !t.ended {
		return
	}
	if decoy.touched() != 0 {
		r.Violate("C24:"+tool+"-url", c, "the tool went to the server in the environment instead of the one of -c")
	}
	seen := s.got()
	if len(seen) != n {
		r.Violate("C24:"+tool+"-count", c, "%d messages got to the server, want %d: %s", len(seen), n, t)
		return
	}
	if vals == nil {
		vals = []any{}
	}
	for _, m := range seen {
		if m.msg.MustMethod() != method && canon(m.msg.MustMethod()) != canon(method) {
			r.Violate("C24:"+tool+"-method", c, "method %q got to the server, want %q", m.msg.MustMethod(), method)
		}
		if canon(m.msg.MustParams()) != canon(vals) {
			r.Violate("C24:"+tool+"-params", c, "params %s got to the server, want %s", clip(canon(m.msg.MustParams()), 800), clip(canon(vals), 800))
		}
		if bad := seenC24(m.req.Header, hdr); bad != "" {
			r.Violate("C24:"+tool+"-header", c, "%s", bad)
		}
	}
}

func notifyC24(r *Run, rng *rand.Rand, i int) {
	useTLS, fam := rng.IntN(3) == 0, pick(rng, "http", "ws", "h2")
	s := r.serveC24(useTLS, func(req *jlibhttp.RPCRequest) (any, error) { return nil, nil })
	defer s.Close()
	decoy := r.serveC24(false, func(*jlibhttp.RPCRequest) (any, error) { return "decoy", nil })
	defer decoy.Close()
	method := methodC24(rng)
	params, vals := argsC24(rng, scratch())
	hargs, hdr := headersC24(rng)
	at, env := atC24(rng, s.URL(fam), decoy.URL("http"))
	args := append(append(append(at, hargs...), method), params...)
	c := map[string]any{"i": i, "args": args, "env": env}
	r.Journal(c)
	t := r.tool("jsonrpc-notify", env, args...)
	if !t.ended {
		return
	}
	if t.exit != 0 || len(t.stdout) != 0 {
		r.Violate("C24:notify-exit", c, "a notify that is accepted: %s", t)
		return
	}
	// streaming servers may still be reading
	for k := 0; k < 600 && fam != "http" && len(s.got()) == 0; k++ {
		time.Sleep(time.Duration(min(k, 100)) * time.Millisecond)
	}
	r.judgeToolReq(c, "notify", t, s, decoy, method, vals, hdr, 1)
	for _, m := range s.got() {
		if !m.msg.IsNotify() {
			r.Violate("C24:notify-kind", c, "not a notify: %s", msgDoc(m.msg))
		}
	}
	r.Eval(fmt.Sprintf("notify %v %s %s %d", useTLS, fam, shape(vals), len(hdr)))
}

// failC24: whatever can't succeed is reported.
func failC24(r *Run, rng *rand.Rand, i int) {
	tool := pick(rng, "jsonrpc-call", "jsonrpc-notify", "jsonrpc-call", "jsonrpc-notify", "jsonrpc-watch", "jsonrpc-benchmark")
	fam := pick(rng, "http", "ws", "h2")
	useTLS := rng.IntN(3) == 0
	kind := pick(rng, "no-method", "bad-param", "missing-file", "bad-header", "unknown-flag", "scheme", "bad-url", "closed", "closed", "status", "status", "dropped", "garbage", "untrusted", "plain-tls")
	var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(500) })
	status := pick(rng, 201, 204, 301, 400, 401, 403, 404, 408, 429, 500, 502, 503)
	// what is wrong with the arguments themselves
	misuse := map[string]bool{"no-method": true, "bad-param": true, "missing-file": true, "bad-header": true, "unknown-flag": true, "scheme": true, "bad-url": true}
	if tool == "jsonrpc-watch" || tool == "jsonrpc-benchmark" {
		for !misuse[kind] || kind == "no-method" {
			kind = pick(rng, "bad-param", "missing-file", "bad-header", "unknown-flag", "scheme", "bad-url")
		}
		if tool == "jsonrpc-watch" {
			fam = pick(rng, "ws", "h2")
		}
	}
	switch kind {
	case "status":
		h = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			w.WriteHeader(status)
			if status != 204 {
				w.Write([]byte(`{"jsonrpc":"2.0","id":"1","result":1}`))
			}
		})
		if fam == "h2" && !useTLS {
			h = h2cWrap(h)
		}
	case "dropped":
		h = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { panic(http.ErrAbortHandler) })
		if fam == "h2" && !useTLS {
			h = h2cWrap(h)
		}
	case "garbage":
		fam = "http"
		tool = "jsonrpc-call"
		body := pick(rng, "", "<html>", "{", "[]", "null", "1", `"x"`, `{"jsonrpc":"2.0"}`, `{"jsonrpc":"2.0","id":1,"method":"x"}`, `{"jsonrpc":"2.0","method":"x","params":[]}`, `{"id":1,"result":2}x{`, "\xff\xfe")
		if body == `{"id":1,"result":2}x{` {
			body = "x"
		}
		h = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.Write([]byte(body)) })
	}
	switch kind {
	case "untrusted", "plain-tls":
		useTLS = kind == "untrusted"
	}
	var s *loopSrv
	var fine *c24srv
	if misuse[kind] {
		// nothing is wrong with the server
		fine = r.serveC24(useTLS, func(*jlibhttp.RPCRequest) (any, error) { return "fine", nil })
		defer fine.Close()
		s = fine.loopSrv
	} else {
		s = r.loopServe(h, useTLS)
		defer s.Close()
	}
	url := s.URL(fam)
	var env []string
	method, params := methodC24(rng), []string{}
	for k := rng.IntN(3); k > 0; k-- {
		params = append(params, pick(rng, "1", "a", "[1,2]", `{"a":1}`, ""))
	}
	var flags []string
	switch kind {
	case "no-method":
		method, params = "", nil
	case "bad-param":
		bad := pick(rng, "[1,", "{", `"abc`, "[}", `{"a":}`, "[nan]")
		k := rng.IntN(len(params) + 1)
		params = append(params[:k:k], append([]string{bad}, params[k:]...)...)
	case "missing-file":
		params = append(params, "@"+filepath.Join(scratch(), "no", "such", "file"))
	case "bad-header":
		flags = append(flags, "-header", pick(rng, "abc", "", "a:b", " "))
	case "unknown-flag":
		flags = append(flags, pick(rng, "-zzz", "--nope=1", "-header"))
		if flags[0] == "-header" {
			method, params = "", nil
		}
	case "scheme":
		url = pick(rng, "ftp", "h3", "unix", "tcp", "httpx") + "://" + s.Addr() + "/"
	case "bad-url":
		url = pick(rng, "://", "http://[::1", "ws://a b/", "%zz", "http", s.Addr())
	case "closed":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		url = strings.Replace(url, s.Addr(), l.Addr().String(), 1)
		l.Close()
	case "untrusted":
		env = append(env, "SSL_CERT_FILE="+filepath.Join(scratch(), "none.pem"))
	case "plain-tls":
		url = map[string]string{"http": "https", "ws": "wss", "h2": "h2"}[fam] + "://" + s.Addr() + "/"
	}
	flags = append(flags, "-c", url)
	if kind == "unknown-flag" && method == "" {
		flags = append(flags[1:], flags[0])
	}
	args := flags
	if method != "" {
		args = append(args, method)
	}
	args = append(args, params...)
	c := map[string]any{"i": i, "tool": tool, "kind": kind, "args": args, "status": status}
	r.Journal(c)
	t := r.tool(tool, env, args...)
	if !t.ended {
		return
	}
	if t.exit == 0 {
		r.Violate("C24:fail-exit", c, "a failure isn't told by the exit status: %s", t)
	}
	if len(t.stderr) == 0 {
		r.Violate("C24:fail-stderr", c, "a failure isn't reported: %s", t)
	}
	if len(t.stdout) != 0 {
		r.Violate("C24:fail-stdout", c, "a failure with an output: %s", t)
	}
	if fine != nil && fine.touched() != 0 {
		r.Violate("C24:fail-touched", c, "the server got %d requests of a tool with bad arguments: %s", fine.touched(), t)
	}
	if strings.Contains(string(t.stderr), "goroutine ") && tool != "jsonrpc-watch" && tool != "jsonrpc-benchmark" {
		r.Violate("C24:fail-crash", c, "the tool crashed: %s", t)
	}
	r.Eval(fmt.Sprintf("fail %s %s %s %v %d", tool, kind, fam, useTLS, status))
	r.Count("failures_reported", 1)
}

// pushC24 makes a document to push.
func pushC24(rng *rand.Rand, k int) map[string]any {
	d := map[string]any{"jsonrpc": "2.0"}
	tame := func(depth int) any {
		for {
			if v := genValue(rng, depth); !strings.HasPrefix(canon(v), "!") {
				return v
			}
		}
	}
	switch rng.IntN(6) {
	default:
		d["method"], d["params"] = fmt.Sprintf("push%d", k), []any{json.Number(fmt.Sprint(k)), tame(2)}
	case 0:
		d["id"], d["method"], d["params"] = fmt.Sprintf("req%d", k), "ask", []any{tame(2)}
	case 1:
		d["id"], d["result"] = fmt.Sprintf("res%d", k), tame(3)
	case 2:
		d["id"], d["error"] = fmt.Sprintf("err%d", k), map[string]any{"code": k - 50, "message": genString(rng), "data": map[string]any{"x": tame(1)}}
	}
	if rng.IntN(4) == 0 {
		d["traceid"] = fmt.Sprintf("trace-%d", k)
	}
	return d
}

// watchC24: what is pushed is printed, in order, whatever comes between.
func watchC24(r *Run, rng *rand.Rand, i int) {
	proto := pick(rng, "ws", "ws", "h2c", "h2c", "wss", "h2")
	sessions, retry := 1, 1
	if rng.IntN(9) == 0 {
		sessions, retry = 2, 2
	}
	ask := rng.IntN(2) == 0
	method := methodC24(rng)
	params, vals := argsC24(rng, scratch())
	hargs, hdr := headersC24(rng)
	type plan struct {
		docs   []map[string]any
		raw    [][]byte
		before int // pushes before the response
		resp   map[string]any
		quick  bool
	}
	var plans []*plan
	for k := 0; k < sessions; k++ {
		p := &plan{quick: rng.IntN(2) == 0}
		n := rng.IntN(30)
		if rng.IntN(5) == 0 {
			n = rng.IntN(300)
		}
		if rng.IntN(5) == 0 {
			n = 0
		}
		for x := 0; x < n; x++ {
			d := pushC24(rng, x)
			p.docs = append(p.docs, d)
			p.raw = append(p.raw, []byte(rawJSON(rng, d)))
		}
		if n > 0 {
			p.before = rng.IntN(n + 1)
		}
		p.resp = map[string]any{"jsonrpc": "2.0", "result": genValue(rng, 2)}
		for strings.HasPrefix(canon(p.resp), "!") {
			p.resp["result"] = genValue(rng, 2)
		}
		if rng.IntN(4) == 0 {
			delete(p.resp, "result")
			p.resp["error"] = map[string]any{"code": 5, "message": "no"}
		}
		plans = append(plans, p)
	}
	c := map[string]any{"i": i, "proto": proto, "sessions": sessions, "ask": ask, "params": params, "pushes": len(plans[0].docs)}
	var mu sync.Mutex
	started, complaints := 0, []string{}
	complain := func(format string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		complaints = append(complaints, fmt.Sprintf(format, a...))
	}
	script := func(rc rawConn, q *http.Request) {
		mu.Lock()
		k := started - 1
		mu.Unlock()
		if k >= len(plans) {
			return
		}
		p := plans[k]
		if bad := seenC24(q.Header, hdr); bad != "" {
			complain("%s", bad)
		}
		answer := func() bool {
			if !ask {
				return true
			}
			raw, err := rc.ReadRaw()
			if err != nil {
				return false
			}
			m, err := oneObject(raw)
			if err != nil {
				complain("not a message: %q", raw)
				return false
			}
			want := append([]any{}, vals...)
			if canon(m["method"]) != canon(method) || canon(m["params"]) != canon(want) {
				complain("the method is %s, want %q %s", clip(string(raw), 500), method, clip(canon(want), 500))
			}
			p.resp["id"] = m["id"]
			d, _ := json.Marshal(p.resp)
			return rc.WriteRaw(d) == nil
		}
		for x, raw := range p.raw {
			if x == p.before && !answer() {
				return
			}
			if rc.WriteRaw(raw) != nil {
				return
			}
			if !p.quick && x%7 == 3 {
				time.Sleep(time.Millisecond)
			}
		}
		if p.before == len(p.raw) && !answer() {
			return
		}
		if !p.quick {
			time.Sleep(20 * time.Millisecond)
		}
		if w, ok := rc.(*rawWS); ok {
			w.c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, "bye"))
			for {
				if _, err := rc.ReadRaw(); err != nil {
					return
				}
			}
		}
	}
	inner := rawHandler(strings.TrimSuffix(proto, "s")+map[bool]string{true: "s"}[proto == "ws" || proto == "wss"], script)
	count := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		started++
		k := started
		mu.Unlock()
		if k > sessions {
			w.WriteHeader(503)
			return
		}
		inner.ServeHTTP(w, q)
	})
	var h http.Handler = count
	if proto == "h2c" {
		inner = rawHandler("h2", script)
		h = h2cWrap(count)
	}
	s := r.loopServe(h, proto == "wss" || proto == "h2")
	defer s.Close()
	var args []string
	args = append(args, "-c", proto+"://"+s.Addr()+"/")
	if retry != 1 || rng.IntN(2) == 0 {
		args = append(args, "-retry", fmt.Sprint(retry))
	}
	args = append(args, hargs...)
	if ask {
		args = append(append(args, method), params...)
	}
	c["args"] = args
	r.Journal(c)
	t := r.tool("jsonrpc-watch", nil, args...)
	if !t.ended {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, bad := range complaints {
		r.Violate("C24:watch-request", c, "%s", bad)
	}
	want := sessions
	if retry > 1 {
		want++ // the last one is refused
	}
	if started != want {
		r.Violate("C24:watch-sessions", c, "%d connects, want %d (-retry %d): %s", started, want, retry, t)
		return
	}
	ds, err := docs(t.stdout)
	if err != nil {
		r.Violate("C24:watch-output", c, "the output isn't made of documents (%v): %s", err, t)
		return
	}
	pos := 0
	for k, p := range plans {
		answered := !ask
		for x := 0; ; {
			if !answered && pos < len(ds) && canon(ds[pos]) == canon(p.resp) {
				answered = true
				pos++
				continue
			}
			if x == len(p.docs) {
				break
			}
			if pos == len(ds) || canon(ds[pos]) != canon(p.docs[x]) {
				got := "nothing"
				if pos < len(ds) {
					got = clip(canon(ds[pos]), 500)
				}
				r.Violate("C24:watch-order", c, "session %d, push %d of %d: printed %s, want %s: %s", k, x, len(p.docs), got, clip(canon(p.docs[x]), 500), t)
				return
			}
			pos++
			x++
		}
		if !answered {
			r.Violate("C24:watch-response", c, "session %d: the response %s is not printed: %s", k, clip(canon(p.resp), 500), t)
			return
		}
	}
	if pos != len(ds) {
		r.Violate("C24:watch-extra", c, "more is printed than was pushed: %s", clip(canon(ds[pos]), 500))
	}
	if len(t.stderr) == 0 {
		r.Violate("C24:watch-stderr", c, "the end of the connection isn't reported")
	}
	r.Count("pushes_printed", pos)
	r.Eval(fmt.Sprintf("watch %s sessions=%d ask=%v pushes=%d headers=%d", proto, sessions, ask, len(plans[0].docs), len(hdr)))
	if i%61 == 0 {
		r.Sample(map[string]any{"case": c, "printed": pos})
	}
}

var reBench = regexp.MustCompile(`^avg=([^ ,]+)s, min=([^ ,]+)s, p95=([^ ,]+)s, max=([^ ,]+)s\n$`)

// benchC24: exactly the calls asked for.
func benchC24(r *Run, rng *rand.Rand, i int) {
	useTLS, fam := rng.IntN(4) == 0, pick(rng, "http", "ws", "h2")
	m, n := 1+rng.IntN(8), 1+rng.IntN(20)
	down := rng.IntN(6) == 0
	failing := fam == "http" && rng.IntN(3) == 0
	var fails int
	var mu sync.Mutex
	s := r.serveC24(useTLS, func(req *jlibhttp.RPCRequest) (any, error) {
		id := fmt.Sprint(req.Msg().MustId())
		switch hash64(id) % 4 {
		case 0:
			return nil, errors.New("rpc errors are answers too")
		case 1:
			if failing {
				mu.Lock()
				fails++
				mu.Unlock()
				resp := &http.Response{StatusCode: 503, Header: http.Header{}}
				return nil, &jlibhttp.WrappedResponse{Response: resp, Body: []byte("busy")}
			}
		}
		return 1, nil
	})
	defer s.Close()
	decoy := r.serveC24(false, func(*jlibhttp.RPCRequest) (any, error) { return "decoy", nil })
	defer decoy.Close()
	method := methodC24(rng)
	params, vals := argsC24(rng, scratch())
	hargs, hdr := headersC24(rng)
	url := s.URL(fam)
	if down {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		url = strings.Replace(url, s.Addr(), l.Addr().String(), 1)
		l.Close()
	}
	at, env := atC24(rng, url, decoy.URL("http"))
	args := append(at, hargs...)
	if rng.IntN(5) == 0 {
		m = 10
	} else {
		args = append(args, "-m", fmt.Sprint(m))
	}
	if rng.IntN(5) == 0 {
		n = 10
	} else {
		args = append(args, "-n", fmt.Sprint(n))
	}
	args = append(append(args, method), params...)
	c := map[string]any{"i": i, "args": args, "env": env, "down": down, "failing": failing}
	r.Journal(c)
	t := r.tool("jsonrpc-benchmark", env, args...)
	want, bad := m*n, 0
	if down {
		want, bad = 0, m*n
	}
	r.judgeToolReq(c, "benchmark", t, s, decoy, method, vals, hdr, want)
	if !t.ended {
		return
	}
	mu.Lock()
	bad += fails
	mu.Unlock()
	if g := strings.Count(string(t.stderr), "bad results "); g != bad {
		r.Violate("C24:benchmark-failures", c, "%d failing calls are reported, %d failed: %s", g, bad, t)
	}
	g := reBench.FindSubmatch(t.stdout)
	if t.exit != 0 || g == nil {
		r.Violate("C24:benchmark-output", c, "no result: %s", t)
		return
	}
	var v [4]float64
	for k := range v {
		f, err := strconv.ParseFloat(string(g[k+1]), 64)
		if err != nil {
			r.Violate("C24:benchmark-output", c, "not a number: %s", t)
			return
		}
		v[k] = f
	}
	avg, lo, p95, hi := v[0], v[1], v[2], v[3]
	if lo < 0 || lo > avg || avg > hi || lo > p95 || p95 > hi || hi > t.wall.Seconds() {
		r.Violate("C24:benchmark-stats", c, "impossible result after %v: %s", t.wall, t)
	}
	r.Count("benchmark_calls", m*n)
	r.Eval(fmt.Sprintf("bench %v %s %d %d down=%v fails=%d", useTLS, fam, m, n, down, fails))
}

// defaultC24: without an address the tools go to port 9990.
func defaultC24(r *Run, i int) {
	tools := []string{"jsonrpc-call", "jsonrpc-notify", "jsonrpc-benchmark", "jsonrpc-watch"}
	tool := tools[i%len(tools)]
	l, err := net.Listen("tcp", "127.0.0.1:9990")
	if err != nil {
		r.Count("port_9990_taken", 1)
		return
	}
	var mu sync.Mutex
	seen := 0
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a := jlibhttp.NewActor()
	must(a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
		mu.Lock()
		defer mu.Unlock()
		seen++
		if tool == "jsonrpc-watch" {
			go func() {
				time.Sleep(50 * time.Millisecond)
				cancel()
			}()
		}
		return "here", nil
	}))
	srv := &http.Server{Handler: jlibhttp.NewGatewayHandler(ctx, a, true)}
	go srv.Serve(l)
	defer srv.Close()
	c := map[string]any{"tool": tool, "default": true}
	t := r.tool(tool, []string{"JSONRPC_CONNECT="}, "hello")
	if !t.ended {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	want := 1
	if tool == "jsonrpc-benchmark" {
		want = 100
	}
	if seen != want {
		r.Violate("C24:default", c, "%d messages at the default address, want %d: %s", seen, want, t)
	}
	r.Eval("default " + tool)
}
