package props

import (
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// liveC08 checks what handlers see of their message and session when it
// comes over a streaming session.
func liveC08(r *Run, i int) {
	rng := r.Rand("live", i)
	proto := pick(rng, "ws", "h2c")
	c := map[string]any{"live": i, "proto": proto}
	r.world("C08", c, rng, func(w *world) {

		var mu sync.Mutex
		byConn := map[string]map[string]int{} // connection marker -> session ids
		bad := ""
		root, child := jlibhttp.NewActor(), jlibhttp.NewActor()
		root.AddChild(child)
		h := func(req *jlibhttp.RPCRequest, params []any) (any, error) {
			mu.Lock()
			defer mu.Unlock()
			s := req.Session()
			if s == nil {
				bad = "no session"
				return nil, nil
			}
			k := req.HttpRequest().Header.Get("X-Conn")
			if byConn[k] == nil {
				byConn[k] = map[string]int{}
			}
			byConn[k][s.SessionID()]++
			if len(params) > 0 && params[0] != k {
				bad = fmt.Sprintf("message of connection %v seen as of %q", params[0], k)
			}
			return s.SessionID(), nil
		}
		must(root.OnRequest("here", h))
		must(child.OnRequest("there", h))
		w.serve("srv", w.handlerFor(proto, root, rng.IntN(2) == 0), nil)
		nc := 1 + rng.IntN(4)
		var wg sync.WaitGroup
		for k := 0; k < nc; k++ {
			cl := w.client(proto, "srv")
			name := fmt.Sprintf("conn%d", k)
			cl.SetExtraHeader(http.Header{"X-Conn": {name}})
			wg.Add(1)
			go func() {
				defer wg.Done()
				for q := 0; q < 3; q++ {
					m := []string{"here", "there"}[q%2]
					res, err := cl.Call(w.Ctx, mkReq(q+1, m, name))
					if err != nil || !res.IsResult() {
						w.violate("live-call", "call on a healthy session failed: %v %v", show(res), err)
					}
					cl.Send(w.Ctx, jlib.NewNotifyMessage(m, []any{name}))
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Second)
		mu.Lock()
		defer mu.Unlock()
		if bad != "" {
			w.violate("live-session", "%s", bad)
		}
		ids := map[string]string{}
		for k, m := range byConn {
			if len(m) != 1 {
				w.violate("live-session", "messages of one connection seen under sessions %v", m)
			}
			for sid, n := range m {
				if o, dup := ids[sid]; dup || sid == "" {
					w.violate("live-session", "connections %s and %s share session id %q", o, k, sid)
				}
				ids[sid] = k
				if n != 6 {
					w.violate("live-once", "6 messages sent on %s, %d handled", k, n)
				}
			}
		}
		r.Eval(fmt.Sprintf("live %s %d", proto, nc))
		r.Count("live_sessions", nc)
	})
}
