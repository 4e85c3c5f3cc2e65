package props

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
)

// abandonC12 mixes calls which are given up, at the very moment their
// answer arrives or long before, with calls which want their answers, all
// through one client. An answer belongs to one call or to none.
func abandonC12(r *Run, i int) {
	rng := r.Rand("abandon", i)
	proto := pick(rng, "ws", "h2c", "ws", "h2c", "wss", "h2")
	callers := 1 + rng.IntN(6)
	rounds := 5 + rng.IntN(40)
	idmode := pick(rng, "int", "string", "odd")
	c := map[string]any{"i": i, "part": "abandon", "proto": proto, "callers": callers, "rounds": rounds, "ids": idmode}
	r.world("C12", c, rng, func(w *world) {
		if rng.IntN(3) == 0 {
			w.Net.Plan = Jitter(rng, 0, 1+rng.IntN(200))
		}
		type one struct {
			plan   string
			cancel context.CancelFunc
		}
		var reg sync.Map // token -> *one
		w.rawServer(proto, "srv", func(rc rawConn, _ *http.Request) {
			for {
				d, err := rc.ReadRaw()
				if err != nil {
					return
				}
				q, err := parseReqIn(d)
				if err != nil {
					w.violate("wire", "the client sent %v", err)
					return
				}
				v, ok := reg.Load(q.token())
				if !ok {
					w.violate("wire", "a request nobody made: %s", clip(string(d), 300))
					return
				}
				o := v.(*one)
				b, _ := json.Marshal(answerDoc(q))
				switch o.plan {
				case "cancel answer":
					o.cancel()
					rc.WriteRaw(b)
				case "answer cancel":
					rc.WriteRaw(b)
					o.cancel()
				case "race":
					go o.cancel()
					rc.WriteRaw(b)
				case "cancel":
					o.cancel()
				case "late":
					o.cancel()
					time.AfterFunc(time.Duration(1+hash64(q.token())%50)*time.Millisecond, func() { rc.WriteRaw(b) })
				case "twice":
					rc.WriteRaw(b)
					rc.WriteRaw(b)
				default:
					rc.WriteRaw(b)
				}
			}
		})
		cl := w.clientTLS(proto, "srv", clientTLSFor(proto))
		var mu sync.Mutex
		strays := map[string]int{}
		must(cl.OnMessage(func(m jlib.Message) {
			mu.Lock()
			strays[canon(m.Interface())]++
			mu.Unlock()
		}))
		if err := cl.Connect(w.Ctx); err != nil {
			w.violate("connect", "connect: %v", err)
			return
		}
		var wg sync.WaitGroup
		var given, kept atomic.Int32
		hist := make([]string, callers)
		for k := range callers {
			crng := r.Rand(fmt.Sprint("abandon", i), k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := range rounds {
					tok := fmt.Sprintf("a%d-%d", k, n)
					o := &one{plan: pick(crng, "", "", "cancel answer", "answer cancel", "race", "race", "cancel", "late", "twice")}
					ctx, cancel := context.WithCancel(w.Ctx)
					o.cancel = cancel
					reg.Store(tok, o)
					out := &callOut{token: tok}
					switch idmode {
					case "int":
						out.id = k*1000 + n
					case "string":
						out.id = tok
					default:
						out.id = oddId{k, n}
					}
					msg := mkReq(out.id, "do", tok)
					if !await(time.Minute, func() { out.msg, out.err = cl.Call(ctx, msg) }) {
						w.violate("stuck", "call %s (%s) has not returned", tok, o.plan)
						return
					}
					cancel()
					may := o.plan != "" && o.plan != "twice"
					switch {
					case out.err != nil && may:
						given.Add(1)
						hist[k] += "x"
					case o.plan == "cancel" && out.msg != nil && out.err == nil:
						w.violate("answer", "call %s which nobody answered got %s", tok, show(out.msg))
						return
					default:
						if why := judgeAnswer(out); why != "" {
							w.violate("answer", "call %s (%s) with id %#v got %s", tok, o.plan, out.id, why)
							return
						}
						kept.Add(1)
						hist[k] += o.plan[:min(1, len(o.plan))] + "."
					}
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Second)
		mu.Lock()
		defer mu.Unlock()
		for s, n := range strays {
			if n > 1 {
				w.violate("stray", "a surplus answer was handed over %d times: %s", n, clip(s, 300))
			}
		}
		r.Eval(fmt.Sprint("abandon ", proto, idmode, hist))
		r.Count("calls given up", int(given.Load()))
		r.Count("calls kept", int(kept.Load()))
		r.Count("surplus answers", len(strays))
	})
}
