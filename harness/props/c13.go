package props

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

const callTimeout = 10 * time.Second

// plan of one call, all times from the start of the case
type callPlan struct {
	token    string
	id       any
	start    time.Duration
	answer   time.Duration // after the server got it, <0 never
	cancel   time.Duration // from the call's start, 0 never
	deadline bool          // by a context deadline rather than cancel
	bad      bool          // cannot be encoded
	size     int

	began, ended time.Duration
	done         bool
	msg          jlib.Message
	err          error
}

func driveC13(r *Run) {
	r.Rule("streaming calls in virtual time against a raw server that answers early, late or never, drops the connection (at a moment or at a byte of either direction), stops reading or ends the session, with contexts cancelled or expiring; non-trivial: distinct (transport, fault, set of outcomes of the calls)")
	n := r.N(2500, 120000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			oneC13(r, i)
		}
	}
	n = r.N(600, 30000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			lastC13(r, i)
		}
	}
	n = r.N(160, 8000)
	for i := 0; i < n; i++ {
		if r.Mine(i) {
			blockedC13(r, i)
		}
	}
}

// blockedC13: the connection ends while requests are still being sent. They
// were not sent, so their calls end with an error, at that moment.
func blockedC13(r *Run, i int) {
	rng := r.Rand("blocked", i)
	proto := []string{"ws", "h2c", "wss", "h2"}[i%4]
	how := pick(rng, "reset", "peer", "close", "ctx")
	ncalls := 1 + rng.IntN(6)
	nsend := rng.IntN(4)
	at := time.Duration(500+rng.IntN(8000)) * time.Millisecond
	c := map[string]any{"i": i, "part": "blocked", "proto": proto, "how": how, "calls": ncalls, "sends": nsend}
	r.world("C13", c, rng, func(w *world) {
		w.Net.Limit = 8 << 10
		stop := make(chan struct{})
		defer close(stop)
		w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) { <-stop })
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		connCtx, connCancel := context.WithCancel(w.Ctx)
		defer connCancel()
		if err := cl.Connect(connCtx); err != nil {
			w.violate("connect", "connect: %v", err)
			return
		}
		t0 := time.Now()
		time.AfterFunc(at, func() {
			for _, mc := range w.Net.Conns() {
				switch how {
				case "reset":
					mc.Reset()
				case "peer":
					mc.Peer.Close()
				}
			}
			switch how {
			case "close":
				closeClient(cl)
			case "ctx":
				connCancel()
			}
		})
		big := strings.Repeat("p", 6<<20)
		var wg sync.WaitGroup
		done := func(what string, k int, m jlib.Message, err error) {
			took := time.Since(t0)
			if m != nil || err == nil {
				w.violate("blocked", "%s %d, which could not be sent until the connection ended after %v, returned %v %v after %v", what, k, at, m, err, took)
			} else if took < at || took > at+200*time.Millisecond {
				w.violate("blocked", "%s %d returned after %v, the connection ended after %v: %v", what, k, took, at, err)
			}
			r.Count("blocked_"+what, 1)
		}
		for k := 0; k < ncalls+nsend; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := "small"
				if k == 0 {
					p = big
				} else {
					time.Sleep(time.Duration(k) * 10 * time.Millisecond) // behind the big one
				}
				if k < ncalls {
					m, err := cl.Call(w.Ctx, mkReq(k, "do", p))
					done("call", k, m, err)
				} else {
					done("send", k, nil, cl.Send(w.Ctx, jlib.NewNotifyMessage("do", []any{p})))
				}
			}()
		}
		if !await(time.Minute, wg.Wait) {
			w.violate("stuck", "requests which are being sent when the connection ends don't return")
		}
		r.Eval(fmt.Sprintf("blocked %s %s %d %d", proto, how, ncalls, nsend))
	})
}

// lastC13: an answer counts even if it is the last thing the server says.
func lastC13(r *Run, i int) {
	rng := r.Rand("last", i)
	proto := pick(rng, "h2c", "ws", "h2", "wss")
	ncalls := 1 + rng.IntN(8)
	c := map[string]any{"i": i, "part": "last", "proto": proto, "calls": ncalls}
	r.world("C13", c, rng, func(w *world) {
		if rng.IntN(3) == 0 {
			w.Net.Plan = Jitter(rng, time.Duration(rng.IntN(3))*time.Millisecond, 1+rng.IntN(2000))
		}
		if rng.IntN(2) == 0 {
			w.Net.Plan = LateWrites(w.Net.Plan, rng.IntN(200), rng.IntN(50))
		}
		last := map[string]bool{}
		answered := map[string]bool{}
		var mu sync.Mutex
		wrng := rand.New(rand.NewPCG(uint64(i), 7))
		w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) {
			for {
				d, err := rc.ReadRaw()
				if err != nil {
					return
				}
				q, err := parseReqIn(d)
				if err != nil {
					w.violate("wire", "the client sent %v", err)
					return
				}
				mu.Lock()
				text := rawJSON(wrng, answerDoc(q))
				end := last[q.token()]
				answered[q.token()] = true
				mu.Unlock()
				if rc.WriteRaw([]byte(text)) != nil {
					w.violate("wire", "the client is gone before its answer")
					return
				}
				if end {
					if ws, ok := rc.(*rawWS); ok {
						ws.c.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
					}
					return
				}
			}
		})
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		key := ""
		for k := 0; k < ncalls; k++ {
			tok := fmt.Sprintf("l%d-%d", i, k)
			end := rng.IntN(2) == 0
			mu.Lock()
			last[tok] = end
			mu.Unlock()
			m, err := cl.Call(w.Ctx, mkReq(k, "do", tok, strings.Repeat("p", rng.IntN(3)*rng.IntN(9000))))
			mu.Lock()
			got := answered[tok]
			mu.Unlock()
			if !got {
				w.violate("last", "call %d of a living server did not reach it: %v", k, err)
				return
			}
			if err != nil {
				w.violate("last", "call %d was answered (ending the session: %v) and returned the error %v", k, end, err)
				return
			}
			if why := judgeAnswer(&callOut{id: k, token: tok, msg: m}); why != "" {
				w.violate("last", "call %d (ending the session: %v): %s", k, end, why)
				return
			}
			key += fmt.Sprint(end, " ")
			if end {
				time.Sleep(time.Second) // the client gets to know the end
			}
			r.Count("last_words", 1)
		}
		r.Eval("last " + proto + " " + key)
	})
}

// away tells if two moments are far enough apart to be told apart.
func away(a, b time.Duration) bool {
	d := a - b
	return d > 250*time.Millisecond || d < -250*time.Millisecond
}

func oneC13(r *Run, i int) {
	rng := r.Rand("call", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	fault := pick(rng, "none", "none", "none", "reset", "clientreset", "end", "bytesup", "bytesdown", "stall", "connctx", "garbage", "close")
	ncalls := 1 + rng.IntN(10)
	faultAt := time.Duration(1+rng.IntN(14000))*time.Millisecond + 333*time.Microsecond
	cutAt := int64(rng.IntN(3000))
	c := map[string]any{"i": i, "proto": proto, "fault": fault, "calls": ncalls}
	plans := make([]*callPlan, ncalls)
	byTok := map[string]*callPlan{}
	for k := range plans {
		p := &callPlan{token: fmt.Sprintf("t%d-%d", i, k), id: pick(rng, any(k+1), any(fmt.Sprintf("id%d", k)))}
		p.start = time.Duration(rng.IntN(5000)) * time.Millisecond
		if rng.IntN(3) == 0 {
			p.start = 0
		}
		switch rng.IntN(6) {
		case 0:
			p.answer = -1
		case 1:
			p.answer = callTimeout + time.Duration(300+rng.IntN(8000))*time.Millisecond
		case 2:
			p.answer = 0
		case 3:
			p.answer = callTimeout - time.Duration(300+rng.IntN(500))*time.Millisecond
		default:
			p.answer = time.Duration(rng.IntN(9000)) * time.Millisecond
		}
		if rng.IntN(4) == 0 {
			p.cancel = time.Duration(1+rng.IntN(12000)) * time.Millisecond
			p.deadline = rng.IntN(2) == 0
		}
		if rng.IntN(12) == 0 {
			p.bad = true
		}
		if fault == "stall" && rng.IntN(2) == 0 {
			p.size = 1 << (10 + rng.IntN(12))
		}
		for !away(p.answer, p.cancel) || p.cancel != 0 && !away(p.cancel, callTimeout) {
			p.cancel = time.Duration(1+rng.IntN(12000)) * time.Millisecond
		}
		if h := hash64(p.token + "id"); p.cancel == 0 && h%3 == 0 {
			// ids which collide or get replaced on the wire; who gives up
			// early has an id of his own, the answer would go to the next
			p.id = []any{int64(k + 1), 7000, "seven", uint16(3), 7000, "seven"}[h/3%6]
		}
		plans[k] = p
		byTok[p.token] = p
	}
	r.world("C13", c, rng, func(w *world) {
		if fault == "stall" {
			w.Net.Limit = 8 << 10
		}
		switch fault {
		case "bytesup", "bytesdown":
			w.Net.Plan = func(n int, mc *MemConn) {
				if n > 0 {
					return
				}
				if fault == "bytesup" {
					mc.wr.cutAt = cutAt
				} else {
					mc.rd.cutAt = cutAt
				}
			}
		}
		t0 := time.Now()
		answered := map[string]int{}
		var mu sync.Mutex
		w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) {
			c13Server(w, rc, byTok, fault, faultAt, t0, func(tok string) {
				mu.Lock()
				answered[tok]++
				mu.Unlock()
			})
		})
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		stray := map[string]int{}
		must(cl.OnMessage(func(m jlib.Message) {
			mu.Lock()
			defer mu.Unlock()
			stray[strayToken(m)]++
		}))
		connCtx, connCancel := context.WithCancel(w.Ctx)
		defer connCancel()
		if err := cl.Connect(connCtx); err != nil {
			if fault == "bytesup" || fault == "bytesdown" {
				r.Eval("")
				r.Count("cut_before_connected", 1)
				return
			}
			w.violate("connect", "connect: %v", err)
			return
		}
		switch fault {
		case "clientreset":
			time.AfterFunc(faultAt, func() {
				for _, mc := range w.Net.Conns() {
					mc.Reset()
				}
			})
		case "close":
			time.AfterFunc(faultAt, func() { closeClient(cl) })
		case "connctx":
			time.AfterFunc(faultAt, connCancel)
		}
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			params := []any{p.token, strings.Repeat("p", p.size)}
			if p.bad {
				params = append(params, func() {})
			}
			msg := mkReq(p.id, "do", params...)
			go func() {
				defer wg.Done()
				time.Sleep(p.start - time.Since(t0))
				ctx, cancel := context.WithCancel(w.Ctx)
				defer cancel()
				if p.cancel > 0 {
					if p.deadline {
						var c2 func()
						ctx, c2 = context.WithTimeout(ctx, p.cancel)
						defer c2()
					} else {
						tm := time.AfterFunc(p.cancel, cancel)
						defer tm.Stop()
					}
				}
				began := time.Since(t0)
				m, err := cl.Call(ctx, msg)
				mu.Lock()
				p.began, p.ended, p.msg, p.err, p.done = began, time.Since(t0), m, err, true
				mu.Unlock()
			}()
		}
		all := await(time.Minute, wg.Wait)
		time.Sleep(30 * time.Second)
		mu.Lock()
		defer mu.Unlock()
		kinds := map[string]bool{}
		for _, p := range plans {
			if !p.done {
				w.violate("stuck", "call %s begun at %v has not returned after a minute", p.token, p.start)
				continue
			}
			kind, why := judgeC13(p, fault, faultAt)
			if why != "" {
				w.violate("outcome", "call %s (answer after %v, cancel after %v deadline=%v, fault at %v) returned after %v: %s",
					p.token, p.answer, p.cancel, p.deadline, faultAt, p.ended-p.began, why)
			}
			kinds[kind] = true
			r.Count("outcome_"+kind, 1)
			late := 0
			// the answer came when nobody waited for it any more
			if fault == "none" && !p.bad && p.answer >= 0 && (kind == "timeout" || kind == "ctx") && answered[p.token] > 0 {
				late = 1
				r.Count("late_answers", 1)
			}
			if fault == "none" && stray[p.token] != late {
				w.violate("late", "the message handler got the answer of call %s (%s) %d times, want %d", p.token, kind, stray[p.token], late)
			}
			if stray[p.token] > 1 {
				w.violate("late", "the message handler got the answer of call %s %d times", p.token, stray[p.token])
			}
			delete(stray, p.token)
		}
		for tok := range stray {
			if fault != "garbage" {
				w.violate("stray", "the message handler got %q", tok)
			}
		}
		_ = all
		r.Eval(fmt.Sprintf("%s %s %v %d", proto, fault, sortedKeys(kinds), ncalls))
		r.Count("fault_"+fault, 1)
		if i%307 == 0 {
			r.Sample(map[string]any{"case": c, "outcomes": sortedKeys(kinds)})
		}
	})
}

// strayToken finds the token within an answer.
func strayToken(m jlib.Message) string {
	if m.IsResult() {
		if mm, ok := m.MustResult().(map[string]any); ok {
			s, _ := mm["token"].(string)
			return s
		}
	}
	if m.IsError() {
		if mm, ok := m.MustError().Data.(map[string]any); ok {
			s, _ := mm["t"].(string)
			return s
		}
	}
	return "?" + clip(jlib.MessageString(m), 100)
}

func judgeC13(p *callPlan, fault string, faultAt time.Duration) (kind, why string) {
	took := p.ended - p.began
	const eps = 200 * time.Millisecond
	if took > callTimeout+eps {
		return "slow", "it took too long"
	}
	isCtx := p.err != nil && (errors.Is(p.err, context.Canceled) || errors.Is(p.err, context.DeadlineExceeded))
	isTimeout := p.err == nil && p.msg != nil && p.msg.IsError() && p.msg.MustError().Code == jlib.ErrTimeout.Code && p.msg.MustError().Message == jlib.ErrTimeout.Message
	switch {
	case isTimeout:
		kind = "timeout"
		if took < callTimeout {
			return kind, "a timeout before its time"
		}
		if !reflect.DeepEqual(p.msg.MustId(), p.id) {
			return kind, fmt.Sprintf("a timeout with id %#v", p.msg.MustId())
		}
	case p.err == nil:
		kind = "answer"
		o := &callOut{id: p.id, token: p.token, msg: p.msg}
		if why := judgeAnswer(o); why != "" {
			return kind, why
		}
		if p.answer < 0 {
			return kind, "an answer nobody gave"
		}
		if took < p.answer {
			return kind, "an answer before it was given"
		}
	case isCtx:
		kind = "ctx"
	default:
		kind = "error"
	}
	if p.bad {
		if p.err == nil || took > eps {
			return kind, fmt.Sprintf("%s for a request that cannot be encoded", kind)
		}
		return "unencodable", ""
	}
	// what the call has to end with when nothing else happens
	want, at := "timeout", callTimeout
	if p.answer >= 0 && p.answer < at {
		want, at = "answer", p.answer
	}
	if p.cancel > 0 && p.cancel < at {
		want, at = "ctx", p.cancel
	}
	faulty := fault != "none" && fault != "stall"
	if fault == "bytesup" || fault == "bytesdown" {
		faultAt = 0 // at an unknown moment
	}
	disturbed := fault == "stall" || faulty && p.began+at > faultAt-eps
	if disturbed {
		if kind == "ctx" && (p.cancel == 0 || took < p.cancel) && fault != "connctx" {
			return kind, fmt.Sprintf("a context error without reason: %v", p.err)
		}
		if p.cancel > 0 && took > p.cancel+eps {
			return kind, "it outlived its context"
		}
		if kind == "error" && fault == "stall" {
			return kind, fmt.Sprintf("an error although the connection is still there: %v", p.err)
		}
		return kind, ""
	}
	if kind != want {
		if p.err != nil {
			return kind, fmt.Sprintf("%s instead of %s: %v", kind, want, p.err)
		}
		return kind, fmt.Sprintf("%s instead of %s", kind, want)
	}
	if took < at || took > at+eps {
		return kind, fmt.Sprintf("the %s is due after %v", want, at)
	}
	return kind, ""
}

func c13Server(w *world, rc rawConn, plans map[string]*callPlan, fault string, faultAt time.Duration, t0 time.Time, note func(string)) {
	over := make(chan struct{})
	var wg sync.WaitGroup
	defer wg.Wait()
	stop := make(chan struct{})
	defer close(stop)
	switch fault {
	case "reset", "end", "garbage":
		wg.Add(1)
		tm := time.AfterFunc(faultAt-time.Since(t0), func() {
			defer wg.Done()
			if fault == "garbage" {
				rc.WriteRaw([]byte(`{"jsonrpc":"2.0","id":[],`))
				rc.WriteRaw([]byte(`"}}]`))
				return
			}
			close(over)
		})
		defer func() {
			if tm.Stop() {
				wg.Done()
			}
		}()
	}
	if fault == "stall" {
		// reads nothing until the client gives up
		select {
		case <-time.After(3 * time.Minute):
		case <-w.Ctx.Done():
		}
		return
	}
	in := make(chan reqIn, 100)
	go func() {
		defer close(in)
		for {
			d, err := rc.ReadRaw()
			if err != nil {
				return
			}
			q, err := parseReqIn(d)
			if err != nil {
				w.violate("wire", "the client sent %v", err)
				return
			}
			select {
			case in <- q:
			case <-stop:
				return
			}
		}
	}()
	var timers []*time.Timer
	defer func() {
		for _, t := range timers {
			if t.Stop() {
				wg.Done()
			}
		}
	}()
	rng := rand.New(rand.NewPCG(1, 2))
	for {
		select {
		case <-over:
			if fault == "reset" {
				for _, mc := range w.Net.Conns() {
					mc.Reset()
				}
			}
			return
		case q, ok := <-in:
			if !ok {
				return
			}
			p := plans[q.token()]
			if p == nil {
				w.violate("wire", "the server got an unknown call %v", q)
				continue
			}
			if p.bad {
				w.violate("wire", "the server got call %s which cannot be encoded", p.token)
				continue
			}
			if p.answer < 0 {
				continue
			}
			text := rawJSON(rng, answerDoc(q))
			wg.Add(1)
			timers = append(timers, time.AfterFunc(p.answer, func() {
				defer wg.Done()
				note(p.token)
				rc.WriteRaw([]byte(text))
			}))
		}
	}
}

var _ = jlibhttp.TransportClosed
