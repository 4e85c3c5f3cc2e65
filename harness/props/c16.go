package props

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
)

func driveC16(r *Run) {
	r.Rule("hostile peers (garbage and mutated HTTP, WebSocket frames, HTTP/2 frames, JSON-RPC documents and typed params, floods without reading, breaks at any byte) against servers of every handler while canary clients check their answers, and clients against hostile servers; panics, dead processes and disturbed canaries are violations; non-trivial: distinct (side, transport, multiset of attacks or outcomes)")
	n := r.N(700, 40000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC16server(r, i)
		}
	}
	n = r.N(700, 40000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC16client(r, i)
		}
	}
	n = r.N(240, 12000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC16encode(r, i)
		}
	}
}

type c16Pt struct {
	X int                `json:"x"`
	L []string           `json:"l"`
	M map[string]float64 `json:"m"`
	P *c16Pt             `json:"p"`
	A any                `json:"a"`
}

// c16Actor has handlers of every shape.
func c16Actor(rng *rand.Rand) *jlibhttp.Actor {
	a, child := jlibhttp.NewActor(), jlibhttp.NewActor()
	a.AddChild(child)
	a.On("echo", func(params []any) (any, error) { return params, nil })
	child.OnTyped("typed", func(x int, s string, p c16Pt) (*c16Pt, error) { return &p, nil })
	child.OnTyped("list", func(l []c16Pt, m map[string]*c16Pt) (int, error) { return len(l) + len(m), nil })
	must(child.OnTypedRequest("treq", func(req *jlibhttp.RPCRequest, f float64, b bool, a any) (string, error) { return fmt.Sprint(f, b), nil }))
	must(a.OnTypedContext("tctx", func(ctx context.Context, n jlib.Bigint, p *c16Pt) (any, error) { return n, nil }))
	a.On("gated", func(params []any) (any, error) { return params[0], nil },
		jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"object","properties":{"a":{"type":"integer","maximum":5},"b":{"type":"list","items":{"type":"string"}}},"requires":["a"]}]}`))
	must(a.OnRequest("push", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		if s := req.Session(); s != nil {
			for j := 0; j < 250; j++ {
				s.Send(jlib.NewNotifyMessage("n", []any{j, strings.Repeat("x", 200)}))
			}
		}
		return "pushed", nil
	}))
	must(a.OnRequest("later", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
		if s := req.Session(); s != nil {
			go func() {
				time.Sleep(2 * time.Second)
				for j := 0; j < 150; j++ {
					s.Send(jlib.NewNotifyMessage("late", []any{j}))
				}
			}()
		}
		time.Sleep(time.Second)
		return strings.Repeat("y", 5000), nil
	}))
	a.On("fail", func(params []any) (any, error) { return nil, fmt.Errorf("fails") })
	a.On("boom", func(params []any) (any, error) { panic(fmt.Errorf("boom")) })
	a.On("index", func(params []any) (any, error) { return params[99], nil })
	a.On("nan", func(params []any) (any, error) { return math.NaN(), nil })
	a.On("nil", func(params []any) (any, error) { return nil, nil })
	if rng.IntN(2) == 0 {
		must(a.OnMissing(func(req *jlibhttp.RPCRequest) (any, error) {
			if req.Msg().IsRequest() {
				return "missing", nil
			}
			if req.Msg().IsNotify() {
				return nil, nil
			}
			// a handler which expects nothing but requests
			return req.Msg().MustMethod(), nil
		}))
	}
	must(a.OnClose(func(q *http.Request, s jlibhttp.RPCSession) { s.Send(jlib.NewNotifyMessage("bye", []any{})) }))
	return a
}

// hostileDoc makes a document a hostile client sends.
func hostileDoc(rng *rand.Rand) []byte {
	switch rng.IntN(8) {
	case 0:
		return mutate(rng, []byte(rawJSON(rng, genDoc(rng))))
	case 1:
		return []byte(rawJSON(rng, genDoc(rng)))
	case 2:
		return []byte(rawJSON(rng, genValue(rng, 3)))
	case 3:
		d := 1 << rng.IntN(15)
		return []byte(`{"jsonrpc":"2.0","id":1,"method":"echo","params":[` + strings.Repeat("[", d) + strings.Repeat("]", d) + `]}`)
	}
	m := map[string]any{"jsonrpc": "2.0", "method": pick(rng, "echo", "typed", "list", "treq", "tctx", "gated", "push", "later", "fail", "boom", "index", "nan", "nil", "nope", "rpc.x"), "params": hostileParams(rng)}
	if rng.IntN(4) > 0 {
		m["id"] = pick[any](rng, json.Number("1"), "a", json.Number("-5"), "", json.Number("9007199254740993"))
	}
	if rng.IntN(6) == 0 {
		m["traceid"] = genString(rng)
	}
	return []byte(rawJSON(rng, m))
}

func hostileParams(rng *rand.Rand) any {
	pt := func() any {
		m := map[string]any{}
		for _, k := range []string{"x", "l", "m", "p", "a"} {
			if rng.IntN(2) == 0 {
				m[k] = genValue(rng, 2)
			}
		}
		return m
	}
	switch rng.IntN(6) {
	case 0:
		return genValue(rng, 2)
	case 1:
		return genList(rng, 3)
	case 2:
		return pt()
	}
	l := []any{}
	for k := rng.IntN(5); k > 0; k-- {
		l = append(l, pick(rng, pt(), genValue(rng, 2), any(json.Number(fmt.Sprint(rng.IntN(9)))), any(genString(rng)), any(nil), any([]any{pt()}), any(map[string]any{"k": pt()})))
	}
	return l
}

func hostileHTTP(rng *rand.Rand) []byte {
	body := hostileDoc(rng)
	var b bytes.Buffer
	cl := len(body)
	if rng.IntN(5) == 0 {
		cl = rng.IntN(cl*2 + 2)
	}
	fmt.Fprintf(&b, "%s %s HTTP/1.%d\r\nHost: srv\r\n", pick(rng, "POST", "POST", "POST", "GET", "PUT", "OPTIONS", "CONNECT", "PRI", "X"), pick(rng, "/", "/x?y=z", "*", "http://srv/"), rng.IntN(2))
	if rng.IntN(2) == 0 {
		fmt.Fprintf(&b, "X-Trace-Id: %s\r\n", strings.NewReplacer("\r", "", "\n", "").Replace(genString(rng)))
	}
	if rng.IntN(3) == 0 {
		fmt.Fprintf(&b, "Upgrade: %s\r\nConnection: %s\r\n", pick(rng, "websocket", "WebSocket", "h2c", "x", ""), pick(rng, "Upgrade", "upgrade, HTTP2-Settings", "close", "keep-alive"))
		if rng.IntN(2) == 0 {
			fmt.Fprintf(&b, "Sec-WebSocket-Version: %s\r\nSec-WebSocket-Key: %s\r\n", pick(rng, "13", "8", ""), pick(rng, "dGhlIHNhbXBsZSBub25jZQ==", "", "x"))
		}
		if rng.IntN(2) == 0 {
			fmt.Fprintf(&b, "HTTP2-Settings: %s\r\n", pick(rng, "AAMAAABkAARAAAAAAAIAAAAA", "", "!!", base64.URLEncoding.EncodeToString([]byte("xyz"))))
		}
	}
	if rng.IntN(4) == 0 {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		fmt.Fprintf(&b, "%x\r\n%s\r\n%s", len(body), body, pick(rng, "0\r\n\r\n", "", "zz\r\n", "5\r\nab"))
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", cl, body)
	}
	out := b.Bytes()
	if rng.IntN(3) == 0 {
		out = mutate(rng, out)
	}
	return out
}

// wsFrame makes one WebSocket frame with any header bits.
func wsFrame(rng *rand.Rand, fin bool, op byte, mask bool, payload []byte) []byte {
	var b bytes.Buffer
	h := op & 15
	if fin {
		h |= 0x80
	}
	if rng.IntN(20) == 0 {
		h |= byte(rng.IntN(8)) << 4
	}
	b.WriteByte(h)
	m := byte(0)
	if mask {
		m = 0x80
	}
	switch {
	case rng.IntN(30) == 0:
		b.WriteByte(m | 127)
		binary.Write(&b, binary.BigEndian, rng.Uint64())
	case len(payload) < 126:
		b.WriteByte(m | byte(len(payload)))
	case len(payload) < 65536:
		b.WriteByte(m | 126)
		binary.Write(&b, binary.BigEndian, uint16(len(payload)))
	default:
		b.WriteByte(m | 127)
		binary.Write(&b, binary.BigEndian, uint64(len(payload)))
	}
	if mask {
		key := []byte{byte(rng.IntN(256)), 2, 3, 4}
		b.Write(key)
		for k, x := range payload {
			b.WriteByte(x ^ key[k%4])
		}
	} else {
		b.Write(payload)
	}
	return b.Bytes()
}

func hostileWSFrames(rng *rand.Rand, mask bool, doc func() []byte) []byte {
	var b bytes.Buffer
	for k := 1 + rng.IntN(12); k > 0; k-- {
		mk := mask
		if rng.IntN(25) == 0 {
			mk = !mk
		}
		switch rng.IntN(10) {
		case 0: // fragments
			d := doc()
			c := rng.IntN(len(d) + 1)
			b.Write(wsFrame(rng, false, 1, mk, d[:c]))
			if rng.IntN(3) == 0 {
				b.Write(wsFrame(rng, true, 9, mk, []byte("ping")))
			}
			b.Write(wsFrame(rng, true, 0, mk, d[c:]))
		case 1:
			b.Write(wsFrame(rng, true, byte(rng.IntN(16)), mk, doc()))
		case 2:
			b.Write(wsFrame(rng, rng.IntN(8) > 0, pick[byte](rng, 9, 10), mk, bytes.Repeat([]byte("p"), rng.IntN(140))))
		case 3:
			b.Write(wsFrame(rng, true, 2, mk, doc()))
		case 4:
			if rng.IntN(6) == 0 {
				b.Write(wsFrame(rng, true, 8, mk, mutate(rng, []byte{3, 0xe8, 'b', 'y', 'e'})))
			}
		default:
			b.Write(wsFrame(rng, true, 1, mk, doc()))
		}
	}
	return b.Bytes()
}

const wsHello = "GET / HTTP/1.1\r\nHost: srv\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"

// hostileH2 writes HTTP/2 frames of all sorts.
func hostileH2(rng *rand.Rand, c net.Conn) {
	var b bytes.Buffer
	b.WriteString(http2.ClientPreface)
	f := http2.NewFramer(&b, nil)
	f.AllowIllegalWrites = true
	f.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: pick[uint32](rng, 0, 65535, 1<<30, 1<<31)})
	var hb bytes.Buffer
	enc := hpack.NewEncoder(&hb)
	sid := uint32(1)
	open := []uint32{}
	for k := 3 + rng.IntN(25); k > 0; k-- {
		switch rng.IntN(12) {
		case 0, 1, 2:
			hb.Reset()
			hs := [][2]string{{":method", pick(rng, "PRI", "POST", "GET", "")}, {":scheme", "http"}, {":authority", "srv"}, {":path", pick(rng, "/", "", "*")}}
			if rng.IntN(6) == 0 {
				hs = append(hs, [2]string{pick(rng, ":bad", "UPPER", "connection", "te", "content-length"), "x"})
			}
			for _, h := range hs {
				enc.WriteField(hpack.HeaderField{Name: h[0], Value: h[1]})
			}
			f.WriteHeaders(http2.HeadersFrameParam{StreamID: sid, BlockFragment: hb.Bytes(), EndStream: rng.IntN(6) == 0, EndHeaders: rng.IntN(15) > 0})
			open = append(open, sid)
			sid += 2
		case 3:
			if len(open) > 0 {
				f.WriteRSTStream(pick(rng, open...), http2.ErrCode(rng.IntN(14)))
			}
		case 4:
			f.WriteWindowUpdate(uint32(rng.IntN(5)), pick[uint32](rng, 1, 1<<20, 1<<31-1))
		case 5:
			f.WritePing(rng.IntN(2) == 0, [8]byte{1})
		case 6:
			if rng.IntN(4) == 0 {
				f.WriteGoAway(0, http2.ErrCodeNo, []byte("bye"))
			}
		case 7:
			if rng.IntN(4) == 0 {
				f.WriteRawFrame(http2.FrameType(rng.IntN(12)), http2.Flags(rng.IntN(256)), uint32(rng.IntN(7)), genBytes(rng, 40))
			}
		default:
			if len(open) > 0 {
				f.WriteData(pick(rng, open...), rng.IntN(10) == 0, hostileDoc(rng))
			}
		}
	}
	out := b.Bytes()
	if rng.IntN(4) == 0 {
		out = append(out[:24:24], mutate(rng, out[24:])...)
	}
	for len(out) > 0 {
		n := 1 + rng.IntN(len(out))
		if _, err := c.Write(out[:n]); err != nil {
			return
		}
		out = out[n:]
		if rng.IntN(4) == 0 {
			time.Sleep(time.Duration(rng.IntN(1500)) * time.Millisecond)
		}
	}
}

func genBytes(rng *rand.Rand, max int) []byte {
	b := make([]byte, rng.IntN(max))
	for i := range b {
		b[i] = byte(rng.IntN(256))
	}
	return b
}

// drain reads and forgets until the connection ends.
func drain(c net.Conn) {
	b := make([]byte, 4096)
	for {
		if _, err := c.Read(b); err != nil {
			return
		}
	}
}

func oneC16server(r *Run, i int) {
	rng := r.Rand("server", i)
	kind := pick(rng, "gateway", "gateway", "ws", "h2c", "h1", "h2", "tlsgateway")
	spawn := rng.IntN(2) == 0
	nattack := 2 + rng.IntN(10)
	c := map[string]any{"i": i, "handler": kind, "spawn": spawn, "attacks": nattack}
	r.world("C16", c, rng, func(w *world) {
		if rng.IntN(4) == 0 {
			w.Net.Limit = 8 << 10
		}
		actor := c16Actor(rng)
		tls := kind == "h2" || kind == "tlsgateway"
		var h http.Handler
		var canaries []string
		switch kind {
		case "gateway":
			h, canaries = jlibhttp.NewGatewayHandler(w.Ctx, actor, true), []string{"h1", "ws", "h2c"}
		case "tlsgateway":
			h, canaries = jlibhttp.NewGatewayHandler(w.Ctx, actor, false), []string{"wss", "h2"}
		case "h1":
			h, canaries = jlibhttp.NewH1Handler(actor), []string{"h1"}
		default:
			h, canaries = w.handlerFor(kind, actor, spawn), []string{kind}
		}
		var cfg = tlsFor("ws")
		if tls {
			cfg = tlsFor("wss")
		}
		w.serve("srv", h, cfg)
		// canaries keep their sessions all the time
		var cls []jlibhttp.Streamable
		for _, p := range canaries {
			if p != "h1" {
				cls = append(cls, w.clientTLS(p, "srv", clientTLSFor(p)))
			}
		}
		seq := 0
		judge := func(when string) {
			for k, cl := range cls {
				seq++
				want := []any{json.Number(fmt.Sprint(seq)), "canary"}
				var m jlib.Message
				var err error
				if !await(time.Minute, func() { m, err = cl.Call(w.Ctx, mkReq(seq, "echo", seq, "canary")) }) {
					w.violate("canary", "%s: canary %d is stuck", when, k)
					return
				}
				if err != nil || !m.IsResult() || canon(m.MustResult()) != canon(want) {
					w.violate("canary", "%s: canary %d (%s) got %v %v", when, k, canaries[k], m, err)
				}
			}
			for _, p := range canaries {
				seq++
				switch p {
				case "h1":
					resp, body, err := w.h1Post("srv", []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"echo","params":[%d]}`, seq, seq)), nil)
					if err != nil || resp.StatusCode != 200 || canonBytes(body) != canon(map[string]any{"jsonrpc": "2.0", "id": seq, "result": []any{seq}}) {
						w.violate("newcomer", "%s: HTTP/1 newcomer got %v %q", when, err, body)
					}
				default:
					rc, _, err := w.dialRaw(p, "srv", nil)
					if err != nil {
						w.violate("newcomer", "%s: %s newcomer: %v", when, p, err)
						continue
					}
					rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"echo","params":[%d]}`, seq, seq)))
					var d []byte
					var rerr error
					if !await(time.Minute, func() { d, rerr = rc.ReadRaw() }) || rerr != nil || canonBytes(d) != canon(map[string]any{"jsonrpc": "2.0", "id": seq, "result": []any{seq}}) {
						w.violate("newcomer", "%s: %s newcomer got %v %q", when, p, rerr, d)
					}
					rc.Close()
				}
			}
		}
		judge("before")
		attacks := map[string]int{}
		var wg sync.WaitGroup
		for k := 0; k < nattack; k++ {
			a := pick(rng, "raw", "http", "http", "wsframes", "wsframes", "h2frames", "session", "session", "flood", "broken")
			if tls {
				a = pick(rng, "raw", "session", "session", "flood", "broken")
			}
			attacks[a]++
			arng := rand.New(rand.NewPCG(uint64(i), uint64(k)+77))
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(arng.IntN(3000)) * time.Millisecond)
				c16Attack(w, arng, a, canaries)
			}()
		}
		time.Sleep(time.Duration(rng.IntN(3000)) * time.Millisecond)
		judge("during")
		if !await(time.Hour, wg.Wait) {
			w.violate("stuck", "attackers are stuck")
		}
		time.Sleep(5 * time.Second)
		judge("after")
		if p := w.sink.Panics(); p != "" {
			w.violate("handler-panic", "a server handler panicked: %s", p)
		}
		r.Eval(fmt.Sprintf("server %s %v %v", kind, spawn, attacks))
		for a, n := range attacks {
			r.Count("attack_"+a, n)
		}
		if i%131 == 0 {
			r.Sample(map[string]any{"case": c, "attacks": attacks})
		}
	})
}

func c16Attack(w *world, rng *rand.Rand, kind string, protos []string) {
	breakOff := func(c *MemConn) {
		switch rng.IntN(4) {
		case 0:
			c.Reset()
		case 1:
			time.Sleep(time.Duration(rng.IntN(4000)) * time.Millisecond)
			c.Close()
		default:
			c.Close()
		}
	}
	raw := func() *MemConn {
		c, err := w.Net.Dial(context.Background(), "srv")
		if err != nil {
			return nil
		}
		mc := c.(*MemConn)
		if rng.IntN(4) == 0 {
			p := mc.wr
			p.mu.Lock()
			p.cutAt = p.total + int64(rng.IntN(600))
			p.mu.Unlock()
		}
		if rng.IntN(4) != 0 {
			go drain(mc)
		}
		return mc
	}
	streaming := []string{}
	for _, p := range protos {
		if p != "h1" {
			streaming = append(streaming, p)
		}
	}
	if len(streaming) == 0 && (kind == "session" || kind == "flood" || kind == "broken") {
		kind = "http"
	}
	timeout := func(c *MemConn) func() {
		t := time.AfterFunc(10*time.Second, func() { c.Reset() })
		return func() { t.Stop() }
	}
	switch kind {
	case "raw":
		c := raw()
		if c == nil {
			return
		}
		defer timeout(c)()
		c.Write(genBytes(rng, 3000))
		breakOff(c)
	case "http":
		c := raw()
		if c == nil {
			return
		}
		defer timeout(c)()
		for k := 1 + rng.IntN(3); k > 0; k-- {
			c.Write(hostileHTTP(rng))
		}
		time.Sleep(time.Duration(rng.IntN(200)) * time.Millisecond)
		breakOff(c)
	case "wsframes":
		c := raw()
		if c == nil {
			return
		}
		defer timeout(c)()
		c.Write([]byte(wsHello))
		if rng.IntN(2) == 0 {
			time.Sleep(time.Second)
		}
		c.Write(hostileWSFrames(rng, true, func() []byte { return hostileDoc(rng) }))
		if rng.IntN(3) == 0 {
			time.Sleep(time.Second)
			c.Write(hostileWSFrames(rng, true, func() []byte { return hostileDoc(rng) }))
		}
		breakOff(c)
	case "h2frames":
		c := raw()
		if c == nil {
			return
		}
		defer timeout(c)()
		hostileH2(rng, c)
		breakOff(c)
	case "session", "broken":
		rc, mc, err := w.dialRaw(pick(rng, streaming...), "srv", nil)
		if err != nil {
			return
		}
		defer timeout(mc)()
		if kind == "broken" {
			p := mc.wr
			if rng.IntN(2) == 0 {
				p = mc.rd
			}
			p.mu.Lock()
			p.cutAt = p.total + int64(rng.IntN(800))
			p.mu.Unlock()
		}
		go func() {
			for {
				if _, err := rc.ReadRaw(); err != nil {
					return
				}
			}
		}()
		for k := 1 + rng.IntN(20); k > 0; k-- {
			d := hostileDoc(rng)
			if kind == "broken" {
				d = []byte(rawJSON(rng, map[string]any{"jsonrpc": "2.0", "id": 1, "method": pick(rng, "push", "later", "echo", "fail"), "params": []any{1}}))
			}
			if rc.WriteRaw(d) != nil {
				break
			}
			if rng.IntN(5) == 0 {
				time.Sleep(time.Duration(rng.IntN(1500)) * time.Millisecond)
			}
		}
		if rng.IntN(2) == 0 {
			breakOff(mc)
		}
		rc.Close()
	case "flood":
		// many requests, nothing read
		rc, mc, err := w.dialRaw(pick(rng, streaming...), "srv", nil)
		if err != nil {
			return
		}
		mc.StallRead(true)
		defer timeout(mc)()
		for k := 20 + rng.IntN(200); k > 0; k-- {
			if rc.WriteRaw([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":"%s","params":["%s"]}`, k, pick(rng, "push", "later", "echo"), strings.Repeat("z", rng.IntN(3000))))) != nil {
				break
			}
		}
		time.Sleep(time.Duration(rng.IntN(6000)) * time.Millisecond)
		breakOff(mc)
		rc.Close()
	}
}

func oneC16client(r *Run, i int) {
	rng := r.Rand("client", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	kind := pick(rng, "docs", "docs", "frames", "frames", "handshake", "cut", "h2frames", "h2frames")
	switch kind {
	case "frames":
		proto = "ws"
	case "h2frames":
		proto = "h2c"
	}
	c := map[string]any{"i": i, "proto": proto, "kind": kind, "part": "client"}
	r.world("C16", c, rng, func(w *world) {
		seed := rng.Uint64()
		n := uint64(0)
		var nmu sync.Mutex
		next := func() *rand.Rand {
			nmu.Lock()
			defer nmu.Unlock()
			n++
			return rand.New(rand.NewPCG(seed, n))
		}
		answer := func(rng *rand.Rand, id any) []byte {
			d := genDoc(rng)
			if rng.IntN(3) > 0 {
				d = answerDoc(reqIn{id: id, params: []any{"x"}})
			}
			if rng.IntN(2) == 0 {
				d["id"] = id
			}
			t := []byte(rawJSON(rng, d))
			if rng.IntN(4) == 0 {
				t = mutate(rng, t)
			}
			return t
		}
		if kind == "docs" || kind == "cut" {
			if kind == "cut" {
				w.Net.Plan = func(_ int, mc *MemConn) {
					rng := next()
					mc.rd.cutAt = int64(rng.IntN(2500))
				}
			}
			w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) {
				rng := next()
				if rng.IntN(3) == 0 {
					for k := rng.IntN(5); k > 0; k-- {
						rc.WriteRaw(hostileDoc(rng))
					}
				}
				for {
					d, err := rc.ReadRaw()
					if err != nil {
						return
					}
					q, _ := parseReqIn(d)
					switch rng.IntN(8) {
					case 0:
					case 1:
						return
					case 2:
						rc.WriteRaw(answer(rng, q.id))
						rc.WriteRaw(answer(rng, q.id))
					default:
						rc.WriteRaw(answer(rng, q.id))
					}
				}
			})
		} else {
			// a raw endpoint on the network
			l := w.Net.Listen("srv")
			w.onClose(func() { l.Close() })
			go func() {
				for {
					nc, err := l.Accept()
					if err != nil {
						return
					}
					go c16Endpoint(next(), kind, nc)
				}
			}()
		}
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		must(cl.OnMessage(func(m jlib.Message) { jlib.MessageBytes(m) }))
		var wg sync.WaitGroup
		outcomes := map[string]int{}
		note := func(m jlib.Message, err error) {
			k := "ok"
			if err != nil {
				k = fmt.Sprintf("%T", err)
			} else if m != nil && m.IsError() {
				k = "error"
			}
			nmu.Lock()
			defer nmu.Unlock()
			outcomes[k]++
		}
		callers := 1 + rng.IntN(4)
		if kind != "docs" {
			// callers who share a client wait on each other by mutex
			// while it connects, which may take its time here
			callers = 1
		}
		for k := 0; k < callers; k++ {
			crng := next()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 4; j++ {
					ctx, cancel := context.WithTimeout(w.Ctx, 30*time.Second)
					switch crng.IntN(4) {
					case 0:
						note(nil, cl.Send(ctx, jlib.NewNotifyMessage("x", []any{1})))
					case 1:
						var out struct {
							Token string
							N     []any
							M     map[string]int
						}
						note(nil, cl.UnwrapCall(ctx, mkReq(j, "do", "x"), &out))
					default:
						m, err := cl.Call(ctx, mkReq(j, "do", "x"))
						note(m, err)
						if m == nil && err == nil {
							w.violate("nothing", "a call returns neither message nor error")
						}
						if err == nil && m != nil && !m.IsResultOrError() {
							w.violate("nothing", "a call returns %s", jlib.MessageString(m))
						}
					}
					cancel()
					if crng.IntN(4) == 0 {
						closeClient(cl)
					}
				}
			}()
		}
		if !await(30*time.Minute, wg.Wait) {
			w.violate("stuck", "calls to a hostile server are stuck")
		}
		nmu.Lock()
		defer nmu.Unlock()
		r.Eval(fmt.Sprintf("client %s %s %v", proto, kind, outcomes))
		for k, n := range outcomes {
			r.Count("client_outcome_"+k, n)
		}
		r.Count("client_"+kind, 1)
	})
}

func wsAccept(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// c16Endpoint answers bytes of its own choice.
func c16Endpoint(rng *rand.Rand, kind string, nc net.Conn) {
	defer nc.Close()
	mc := nc.(*MemConn)
	t := time.AfterFunc(20*time.Second, func() { mc.Reset() })
	defer t.Stop()
	var br io.Reader = nc
	key := ""
	if kind == "frames" {
		b := bufio.NewReader(nc)
		q, err := http.ReadRequest(b)
		if err != nil {
			return
		}
		key, br = q.Header.Get("Sec-WebSocket-Key"), b
	}
	go io.Copy(io.Discard, br)
	switch kind {
	case "frames":
		// a proper handshake, then frames
		nc.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + wsAccept(key) + "\r\n\r\n"))
		nc.Write(hostileWSFrames(rng, false, func() []byte { return hostileDoc(rng) }))
	case "handshake":
		head := fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Length: %d\r\nUpgrade: websocket\r\nConnection: %s\r\n\r\nbody", pick(rng, 101, 200, 301, 401, 404, 500, 999, 0), rng.IntN(9), pick(rng, "Upgrade", "close"))
		nc.Write(mutate(rng, []byte(head)))
	case "h2frames":
		var b bytes.Buffer
		f := http2.NewFramer(&b, nil)
		f.AllowIllegalWrites = true
		f.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: pick[uint32](rng, 0, 65535, 1<<30)})
		f.WriteSettingsAck()
		var hb bytes.Buffer
		enc := hpack.NewEncoder(&hb)
		enc.WriteField(hpack.HeaderField{Name: ":status", Value: pick(rng, "200", "200", "200", "500", "100", "abc", "")})
		f.WriteHeaders(http2.HeadersFrameParam{StreamID: 1, BlockFragment: hb.Bytes(), EndHeaders: true, EndStream: rng.IntN(8) == 0})
		for k := rng.IntN(8); k > 0; k-- {
			switch rng.IntN(6) {
			case 0:
				f.WriteRawFrame(http2.FrameType(rng.IntN(12)), http2.Flags(rng.IntN(256)), uint32(rng.IntN(4)), genBytes(rng, 40))
			case 1:
				f.WriteRSTStream(1, http2.ErrCode(rng.IntN(14)))
			case 2:
				f.WriteGoAway(1, http2.ErrCode(rng.IntN(3)), []byte("x"))
			default:
				f.WriteData(1, rng.IntN(6) == 0, hostileDoc(rng))
			}
		}
		out := b.Bytes()
		if rng.IntN(4) == 0 {
			out = mutate(rng, out)
		}
		time.Sleep(100 * time.Millisecond)
		nc.Write(out)
	}
	time.Sleep(time.Duration(rng.IntN(8000)) * time.Millisecond)
	if rng.IntN(2) == 0 {
		mc.Reset()
	}
}
