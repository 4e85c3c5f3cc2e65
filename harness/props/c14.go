package props

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

func driveC14(r *Run) {
	r.Rule("sequence-numbered messages pushed down and sent up many concurrent sessions by several goroutines each (bursts beyond the queue, broadcasts of one message object, slow readers, back pressure, latency, fragmentation), both sides' logs compared with what was sent; non-trivial: distinct (transport, server mode, sessions, burst class, interleaving of arrival)")
	n := r.N(500, 20000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC14(r, i)
		}
	}
	n = r.N(300, 12000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			partC14(r, i)
		}
	}
	r.bigSessions("C14", 48, 1500)
}

// partC14: what a client has sent before it leaves is received, however
// soon it leaves.
func partC14(r *Run, i int) {
	rng := r.Rand("part", i)
	proto := pick(rng, "h2c", "ws", "h2", "wss")
	spawn := rng.IntN(2) == 0
	nsess := 1 + rng.IntN(6)
	c := map[string]any{"i": i, "part": "leave", "proto": proto, "spawn": spawn, "sessions": nsess}
	r.world("C14", c, rng, func(w *world) {
		if rng.IntN(3) == 0 {
			w.Net.Plan = Jitter(rng, 0, 1+rng.IntN(2000))
		}
		up := &seqLog{}
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("up", func(_ *jlibhttp.RPCRequest, params []any) (any, error) {
			mark, _ := params[0].(string)
			st, _, _ := strings.Cut(mark, "#")
			up.add(st, mark)
			return nil, nil
		}))
		w.serve("srv", w.handlerFor(proto, actor, spawn), tlsFor(proto))
		var wg sync.WaitGroup
		want := map[string][]string{}
		var mu sync.Mutex
		for k := 0; k < nsess; k++ {
			n := 1 + rng.IntN(pick(rng, 2, 2, 8, 40))
			cycles := 1 + rng.IntN(3)
			cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
			idle := rng.IntN(4) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				for y := 0; y < cycles; y++ {
					stream := fmt.Sprintf("s%d-%d", k, y)
					for j := 0; j < n; j++ {
						mark := fmt.Sprintf("%s#%d", stream, j)
						if err := cl.Send(w.Ctx, jlib.NewNotifyMessage("up", []any{mark})); err != nil {
							w.violate("send", "send on a living session: %v", err)
							return
						}
						mu.Lock()
						want[stream] = append(want[stream], mark)
						mu.Unlock()
					}
					if idle {
						time.Sleep(time.Millisecond)
					}
					closeClient(cl)
				}
			}()
		}
		if !await(time.Hour, wg.Wait) {
			w.violate("stuck", "senders are blocked after an hour")
			return
		}
		time.Sleep(time.Minute)
		up.mu.Lock()
		defer up.mu.Unlock()
		total := 0
		for stream, marks := range want {
			total += len(marks)
			judgeSeq(w, "parting stream "+stream, up.got[stream], marks, !spawn)
		}
		r.Eval(fmt.Sprintf("part %s %v %d %x", proto, spawn, nsess, hash64(strings.Join(up.flow, ","))))
		r.Count("parting_messages", total)
	})
}

// seqLog collects messages per stream: a stream is one sending goroutine on
// one session.
type seqLog struct {
	mu   sync.Mutex
	got  map[string][]string // stream -> canonical messages in arrival order
	flow []string            // interleaving of streams
}

func (l *seqLog) add(stream, text string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.got == nil {
		l.got = map[string][]string{}
	}
	l.got[stream] = append(l.got[stream], text)
	if len(l.flow) < 400 {
		l.flow = append(l.flow, stream)
	}
}

func msgDoc(m jlib.Message) string {
	d, err := jlib.MessageBytes(m)
	if err != nil {
		return "!" + err.Error()
	}
	return canonBytes(d)
}

// genPush makes message k of a stream and its canonical text.
func genPush(rng *rand.Rand, stream string, k int, big bool) (jlib.Message, string) {
	mark := fmt.Sprintf("%s#%d", stream, k)
	val := genValue(rng, 2)
	for strings.HasPrefix(canon(val), "!") {
		val = genValue(rng, 2)
	}
	if big {
		val = strings.Repeat("big ", 1+rng.IntN(20000))
	}
	trace := ""
	if rng.IntN(3) == 0 {
		trace = "tr " + mark
	}
	doc := map[string]any{"jsonrpc": "2.0"}
	var m jlib.Message
	params := []any{mark, val}
	switch rng.IntN(6) {
	case 0:
		m = jlib.NewRequestMessage("push "+mark, "pushed", params)
		doc["id"], doc["method"], doc["params"] = "push "+mark, "pushed", params
	case 1:
		q := jlib.NewRequestMessage("push "+mark, "x", []any{})
		m = jlib.NewResultMessage(q, map[string]any{"mark": mark, "v": val})
		doc["id"], doc["result"] = "push "+mark, map[string]any{"mark": mark, "v": val}
	case 2:
		q := jlib.NewRequestMessage("push "+mark, "x", []any{})
		m = jlib.RPCErrorMessage(q, 77, "pushed", map[string]any{"mark": mark})
		doc["id"], doc["error"] = "push "+mark, map[string]any{"code": 77, "message": "pushed", "data": map[string]any{"mark": mark}}
	default:
		m = jlib.NewNotifyMessage("pushed", params)
		doc["method"], doc["params"] = "pushed", params
	}
	if trace != "" {
		m.SetTraceId(trace)
		doc["traceid"] = trace
	}
	return m, canon(doc)
}

// markOf finds stream and number in a canonical message.
func markOf(text string) (stream string) {
	m, err := oneObject([]byte(text))
	if err != nil {
		return "?"
	}
	mark := ""
	if p, ok := m["params"].([]any); ok && len(p) > 0 {
		mark, _ = p[0].(string)
	}
	if p, ok := m["result"].(map[string]any); ok {
		mark, _ = p["mark"].(string)
	}
	if e, ok := m["error"].(map[string]any); ok {
		if d, ok := e["data"].(map[string]any); ok {
			mark, _ = d["mark"].(string)
		}
	}
	i := strings.LastIndex(mark, "#")
	if i < 0 {
		return "?"
	}
	return mark[:i]
}

type c14sess struct {
	name string
	cl   jlibhttp.Streamable
	raw  rawConn
	down seqLog
	sess jlibhttp.RPCSession
	id   string
	gone bool
}

func oneC14(r *Run, i int) {
	rng := r.Rand("seq", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	spawn := rng.IntN(2) == 0
	nsess := 1 + rng.IntN(5)
	pushers := 1 + rng.IntN(3)
	senders := 1 + rng.IntN(3)
	burst := rng.IntN(25)
	if rng.IntN(4) == 0 {
		burst = 120 + rng.IntN(250) // beyond the queue
	}
	upburst := rng.IntN(25)
	if rng.IntN(4) == 0 {
		upburst = 100 + rng.IntN(100)
	}
	slow := rng.IntN(3) == 0
	big := rng.IntN(6) == 0
	if big {
		burst, upburst = burst%30, upburst%30
	}
	c := map[string]any{"i": i, "proto": proto, "spawn": spawn, "sessions": nsess, "pushers": pushers, "senders": senders, "burst": burst, "up": upburst, "slow": slow, "big": big}
	r.world("C14", c, rng, func(w *world) {
		lat := time.Duration(rng.IntN(20)) * time.Millisecond
		if rng.IntN(3) == 0 {
			w.Net.Limit = 4 << 10
			if proto == "h2" || proto == "h2c" || proto == "wss" {
				lat = 0 // their libraries write to the network under locks
			}
		}
		if rng.IntN(2) == 0 {
			w.Net.Plan = Jitter(rng, lat, 1+rng.IntN(2000))
		}
		sessions := make([]*c14sess, nsess)
		var mu sync.Mutex
		up := &seqLog{}
		upSess := map[string]map[string]bool{} // stream -> session ids seen
		actor := jlibhttp.NewActor()
		must(actor.OnRequest("hello", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			k, _ := params[0].(json.Number).Int64()
			mu.Lock()
			defer mu.Unlock()
			sessions[k].sess = req.Session()
			sessions[k].id = req.Session().SessionID()
			return "welcome", nil
		}))
		must(actor.OnRequest("up", func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			text := msgDoc(req.Msg())
			st := markOf(text)
			up.add(st, text)
			mu.Lock()
			if upSess[st] == nil {
				upSess[st] = map[string]bool{}
			}
			upSess[st][req.Session().SessionID()] = true
			mu.Unlock()
			return nil, nil
		}))
		w.serve("srv", w.handlerFor(proto, actor, spawn), tlsFor(proto))

		for k := range sessions {
			s := &c14sess{name: fmt.Sprintf("s%d", k)}
			mu.Lock()
			sessions[k] = s
			mu.Unlock()
			lag := 0
			if slow && k == 0 {
				lag = 1 + rng.IntN(40)
			}
			if rng.IntN(3) == 0 {
				rc, _, err := w.dialRaw(proto, "srv", nil)
				if err != nil {
					w.violate("connect", "connect: %v", err)
					return
				}
				s.raw = rc
				rc.WriteRaw([]byte(rawJSON(rng, map[string]any{"jsonrpc": "2.0", "id": 1, "method": "hello", "params": []any{json.Number(fmt.Sprint(k))}})))
				if d, err := rc.ReadRaw(); err != nil || !strings.Contains(string(d), "welcome") {
					w.violate("hello", "hello got %q %v", d, err)
					return
				}
				ended := make(chan struct{})
				w.onClose(func() {
					rc.Close()
					<-ended
				})
				go func() {
					defer close(ended)
					for {
						d, err := rc.ReadRaw()
						if err != nil {
							mu.Lock()
							s.gone = true
							mu.Unlock()
							return
						}
						if lag > 0 {
							time.Sleep(time.Duration(lag) * time.Millisecond)
						}
						t := canonBytes(d)
						s.down.add(markOf(t), t)
					}
				}()
				continue
			}
			cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
			s.cl = cl
			must(cl.OnMessage(func(m jlib.Message) {
				if lag > 0 {
					time.Sleep(time.Duration(lag) * time.Millisecond)
				}
				t := msgDoc(m)
				s.down.add(markOf(t), t)
			}))
			m, err := cl.Call(w.Ctx, mkReq(1, "hello", k))
			if err != nil || !m.IsResult() {
				w.violate("hello", "hello got %v %v", m, err)
				return
			}
		}
		ids := map[string]bool{}
		mu.Lock()
		for _, s := range sessions {
			ids[s.id] = true
		}
		mu.Unlock()
		if len(ids) != nsess {
			w.violate("sessions", "%d sessions have %d ids", nsess, len(ids))
		}

		var wg sync.WaitGroup
		want := map[string]map[string][]string{} // session -> stream -> texts
		wantUp := map[string][]string{}
		for _, s := range sessions {
			want[s.name] = map[string][]string{}
		}
		for k, s := range sessions {
			sess := s.sess
			for p := 0; p < pushers; p++ {
				stream := fmt.Sprintf("down-%s-%d", s.name, p)
				var msgs []jlib.Message
				for j := 0; j < burst; j++ {
					m, t := genPush(rng, stream, j, big && j%7 == 0)
					msgs = append(msgs, m)
					want[s.name][stream] = append(want[s.name][stream], t)
				}
				gap := rng.IntN(8) == 0
				odd := rng.IntN(4) == 0
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j, m := range msgs {
						if odd && j%11 == 5 {
							// what can't be encoded concerns nobody else
							sess.Send(jlib.NewNotifyMessage("bad", []any{j, func() {}}))
							sess.Send(jlib.NewRequestMessage(fmt.Sprintf("bad%d", j), "bad", []any{make(chan int)}))
						}
						sess.Send(m)
						if gap {
							time.Sleep(time.Millisecond)
						}
					}
				}()
			}
			for p := 0; p < senders; p++ {
				stream := fmt.Sprintf("up-%s-%d", s.name, p)
				prng := rand.New(rand.NewPCG(uint64(i), uint64(k*100+p)))
				var texts [][]byte
				var msgs []jlib.Message
				for j := 0; j < upburst; j++ {
					val := genValue(prng, 2)
					if big && j%7 == 0 {
						val = strings.Repeat("BIG ", 1+prng.IntN(20000))
					}
					params := []any{fmt.Sprintf("%s#%d", stream, j), val}
					m := jlib.NewNotifyMessage("up", params)
					doc := map[string]any{"jsonrpc": "2.0", "method": "up", "params": params}
					if prng.IntN(3) == 0 {
						m.SetTraceId("tr" + stream)
						doc["traceid"] = "tr" + stream
					}
					msgs = append(msgs, m)
					texts = append(texts, []byte(rawJSON(prng, doc)))
					wantUp[stream] = append(wantUp[stream], canon(doc))
				}
				odd := prng.IntN(4) == 0
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j, m := range msgs {
						if odd && s.cl != nil && j%11 == 5 {
							if err := s.cl.Send(w.Ctx, jlib.NewNotifyMessage("bad", []any{j, func() {}})); err == nil {
								w.violate("send", "sending a message that can't be encoded reports success")
							}
						}
						if s.raw != nil {
							if ws, ok := s.raw.(*rawWS); ok && j%9 == 4 {
								ws.mu.Lock()
								ws.c.WriteControl(websocket.PingMessage, []byte("hi"), time.Now().Add(time.Hour))
								ws.mu.Unlock()
							}
							if err := s.raw.WriteRaw(texts[j]); err != nil {
								w.violate("send", "raw send on a living session: %v", err)
								return
							}
							continue
						}
						if err := s.cl.Send(w.Ctx, m); err != nil {
							w.violate("send", "send on a living session: %v", err)
							return
						}
					}
				}()
			}
		}
		// the same message objects to all sessions
		var cast []jlib.Message
		for j := 0; j < burst/3; j++ {
			m, t := genPush(rng, "cast", j, false)
			cast = append(cast, m)
			for _, s := range sessions {
				want[s.name]["cast"] = append(want[s.name]["cast"], t)
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, m := range cast {
				for _, s := range sessions {
					s.sess.Send(m)
				}
			}
		}()
		if !await(time.Hour, wg.Wait) {
			w.violate("stuck", "senders are blocked on living sessions after an hour")
			return
		}
		time.Sleep(10 * time.Minute)

		total := 0
		flow := ""
		for _, s := range sessions {
			mu.Lock()
			if s.gone {
				w.violate("ended", "session %s ended by itself", s.name)
			}
			mu.Unlock()
			s.down.mu.Lock()
			for stream, texts := range want[s.name] {
				total += len(texts)
				judgeSeq(w, s.name+" stream "+stream, s.down.got[stream], texts, true)
				delete(s.down.got, stream)
			}
			for stream, texts := range s.down.got {
				w.violate("stranger", "session %s got %d messages of %q: %s", s.name, len(texts), stream, clip(texts[0], 300))
			}
			flow += strings.Join(s.down.flow, ",") + ";"
			s.down.mu.Unlock()
		}
		up.mu.Lock()
		for stream, texts := range wantUp {
			total += len(texts)
			judgeSeq(w, "server stream "+stream, up.got[stream], texts, !spawn)
			delete(up.got, stream)
			mu.Lock()
			if len(texts) > 0 && len(upSess[stream]) > 1 {
				w.violate("session-id", "stream %s of one session had %d session ids", stream, len(upSess[stream]))
			}
			mu.Unlock()
		}
		for stream, texts := range up.got {
			w.violate("stranger", "the server got %d messages of %q", len(texts), stream)
		}
		flow += strings.Join(up.flow, ",")
		up.mu.Unlock()
		r.Eval(fmt.Sprintf("%s %v %d %x", proto, spawn, nsess, hash64(flow)))
		r.Count("messages", total)
		r.Count("sessions", nsess)
		if i%97 == 0 {
			r.Sample(c)
		}
	})
}

// judgeSeq compares one stream with what was sent.
func judgeSeq(w *world, name string, got, want []string, ordered bool) {
	if ordered {
		for k := range want {
			if k >= len(got) {
				w.violate("lost", "%s: got %d of %d messages, missing %s", name, len(got), len(want), clip(want[k], 200))
				return
			}
			if got[k] != want[k] {
				kind := "changed"
				for _, t := range want {
					if t == got[k] {
						kind = "order"
					}
				}
				w.violate(kind, "%s: message %d is %s, want %s", name, k, clip(got[k], 300), clip(want[k], 300))
				return
			}
		}
		if len(got) > len(want) {
			w.violate("duplicate", "%s: got %d messages, %d were sent: %s", name, len(got), len(want), clip(got[len(want)], 200))
		}
		return
	}
	n := map[string]int{}
	for _, t := range want {
		n[t]++
	}
	for _, t := range got {
		n[t]--
		if n[t] < 0 {
			w.violate("duplicate", "%s: unexpected %s", name, clip(t, 300))
			return
		}
	}
	for t, k := range n {
		if k > 0 {
			w.violate("lost", "%s: lost %s", name, clip(t, 300))
			return
		}
	}
}
