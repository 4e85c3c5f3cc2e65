package props

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	jlibschema "github.com/superisaac/jlib/schema"
)

func driveC10(r *Run) {
	r.Rule("random schemas given as object, JSON or YAML to untyped and typed handlers at random places of an actor tree with validation on or off, fed with requests and notifies (positional and by-name, fitting or off by one spot), alone and concurrently, against the reference validator; non-trivial: distinct (schema structure, accepted, kind of message, validation on)")
	n := r.N(12000, 400000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("gate", i)
		c := map[string]any{"i": i}
		r.Guard("C10", c, func() { oneC10(r, rng, i, c) })
		if i%4 == 0 {
			badGateC10(r, i)
		}
	}
}

// genGate makes a schema for messages.
func genGate(rng *rand.Rand) *sch {
	o := schOpts{loneEx: true}
	depth := 1 + rng.IntN(3)
	switch rng.IntN(8) {
	case 0:
		return genSch(rng, depth, o, true)
	case 1:
		// looks at the envelope
		s := fillSch(rng, &sch{Kind: "object"}, 0, schOpts{})
		s.Props, s.Req = map[string]*sch{}, map[string]bool{}
		for _, k := range []string{"id", "method", "params", "jsonrpc", "traceid", "nosuch"} {
			if rng.IntN(2) == 0 {
				s.Props[k] = genSch(rng, 1, o, false)
				if rng.IntN(2) == 0 {
					s.Req[k] = true
				}
			}
		}
		s.untyped, s.noReq = false, false
		return s
	}
	return fillSch(rng, &sch{Kind: "method"}, depth, o)
}

func oneC10(r *Run, rng *rand.Rand, i int, c map[string]any) {
	s := genGate(rng)
	raw := rawJSON(rng, s.doc())
	c["schema"] = raw
	var mu sync.Mutex
	ran := map[string]int{}
	type env struct {
		owner *jlibhttp.Actor
		on    bool
	}
	root := jlibhttp.NewActor()
	actors := []*jlibhttp.Actor{root}
	for k := rng.IntN(3); k > 0; k-- {
		p := actors[rng.IntN(len(actors))]
		a := jlibhttp.NewActor()
		p.AddChild(a)
		actors = append(actors, a)
	}
	for _, a := range actors {
		a.ValidateSchema = rng.IntN(5) != 0
	}
	var setter jlibhttp.HandlerSetter
	how := pick(rng, "object", "json", "yaml")
	switch how {
	case "json":
		setter = jlibhttp.WithSchemaJson(raw)
	case "yaml":
		y, ok := yamlText(rng, s.doc())
		if !ok {
			// a bare type name is no YAML description
			how = "json"
			setter = jlibhttp.WithSchemaJson(raw)
			break
		}
		c["yaml"] = y
		setter = jlibhttp.WithSchemaYaml(y)
	default:
		js, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(raw))
		if err != nil {
			r.Violate("C10:build", c, "valid schema refused: %v", err)
			return
		}
		setter = jlibhttp.WithSchema(js)
	}
	saw := func(req *jlibhttp.RPCRequest) (any, error) {
		mu.Lock()
		defer mu.Unlock()
		ran[req.Msg().TraceId()]++
		return "ran", nil
	}
	owner := actors[rng.IntN(len(actors))]
	typed := rng.IntN(4) == 0
	if typed {
		must(owner.OnTypedRequest("m", func(req *jlibhttp.RPCRequest) (any, error) { return saw(req) }, setter))
	} else {
		must(owner.OnRequest("m", func(req *jlibhttp.RPCRequest, params []any) (any, error) { return saw(req) }, setter))
	}
	// a handler without schema beside it lets everything through
	must(owner.OnRequest("free", func(req *jlibhttp.RPCRequest, params []any) (any, error) { return saw(req) }))

	feed := func(rng *rand.Rand, k int, alone bool) {
		method := "m"
		if rng.IntN(8) == 0 {
			method = "free"
		}
		trace := fmt.Sprintf("t%d", k)
		doc := map[string]any{"jsonrpc": "2.0", "method": method, "traceid": trace}
		notify := rng.IntN(4) == 0
		if !notify {
			if rng.IntN(2) == 0 {
				doc["id"] = json.Number(fmt.Sprint(rng.IntN(2000) - 1000))
			} else {
				doc["id"] = asciiString(rng, rng.IntN(8))
			}
		}
		off := pick(rng, 0, 2, 4, 8)
		switch {
		case s.Kind == "method" && rng.IntN(6) != 0:
			doc["params"] = s.fitItems(rng, off)
		case s.Kind == "object" && s.Props["params"] != nil && rng.IntN(2) == 0:
			v := s.Props["params"].fit(rng, off)
			switch v.(type) {
			case []any, map[string]any:
				doc["params"] = v
			default:
				doc["params"] = []any{v}
			}
		default:
			if rng.IntN(3) == 0 {
				m := map[string]any{}
				for q := rng.IntN(3); q > 0; q-- {
					m[propNames[rng.IntN(len(propNames))]] = schValue(rng, 1)
				}
				doc["params"] = m
			} else {
				arr := []any{}
				for q := rng.IntN(4); q > 0; q-- {
					arr = append(arr, schValue(rng, 1))
				}
				doc["params"] = arr
			}
		}
		msg, err := jlib.ParseBytes([]byte(rawJSON(rng, doc)))
		if err != nil {
			r.HarnessError("C10: %v", err)
			return
		}
		want := s.check(doc)
		gated := method == "m" && owner.ValidateSchema
		ok := !gated || len(want) == 0
		res, ferr := root.Feed(jlibhttp.NewRPCRequest(context.Background(), msg, "test", nil))
		mu.Lock()
		times := ran[trace]
		mu.Unlock()
		cc := map[string]any{"i": i, "schema": raw, "how": how, "message": doc, "validate": owner.ValidateSchema}
		switch {
		case ok && times != 1:
			r.Violate("C10:blocked", cc, "satisfying message (validation %v): handler ran %d times, answer %v %v", owner.ValidateSchema, times, show(res), ferr)
		case !ok && times != 0:
			r.Violate("C10:through", cc, "the handler ran with a message that violates the schema at %v", sortedKeys(want))
		case ok && notify && (res != nil || ferr != nil):
			r.Violate("C10:notify", cc, "notify got %v %v", show(res), ferr)
		case ok && !notify && (ferr != nil || res == nil || !res.IsResult() || idText(res.MustId()) != idText(msg.MustId())):
			r.Violate("C10:answer", cc, "request got %v %v", show(res), ferr)
		case !ok && notify && res != nil:
			r.Violate("C10:notify", cc, "refused notify got %v", show(res))
		case !ok && !notify && (ferr != nil || res == nil || !res.IsError() || res.MustError().Code != -32633 || idText(res.MustId()) != idText(msg.MustId()) || res.TraceId() != trace):
			r.Violate("C10:refusal", cc, "refused request got %v %v", show(res), ferr)
		}
		if gated {
			if ok {
				r.Count("accepted", 1)
			} else {
				r.Count("refused", 1)
			}
		} else {
			r.Count("ungated", 1)
		}
		if !alone {
			r.Count("concurrent", 1)
		}
		r.Eval(fmt.Sprintf("%s %v %v %v", s.sketch(), ok, notify, gated))
	}
	nf := 4 + rng.IntN(8)
	for k := 0; k < nf; k++ {
		feed(rng, k, true)
	}
	if i%6 == 0 {
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			grng := rand.New(rand.NewPCG(rng.Uint64(), rng.Uint64()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard("C10:concurrent", c, func() {
					for k := 0; k < 4; k++ {
						feed(grng, 1000+g*100+k, false)
					}
				})
			}()
		}
		wg.Wait()
	}
	if i%997 == 0 {
		r.Sample(map[string]any{"schema": json.RawMessage(raw), "how": how, "typed": typed})
	}
}

// badGateC10 registers a handler with a malformed schema: whatever comes of
// it, the handler must not run unguarded.
func badGateC10(r *Run, i int) {
	rng := r.Rand("badgate", i)
	doc, ok := deepCopy(genGate(rng).doc()).(map[string]any)
	if !ok {
		return
	}
	what, ok := corrupt(rng, doc)
	if !ok {
		return
	}
	text := rawJSON(rng, doc)
	set, form := jlibhttp.WithSchemaJson, "json"
	switch rng.IntN(3) {
	case 0:
		y, ok := yamlText(rng, doc)
		if !ok {
			return
		}
		text, set, form = y, jlibhttp.WithSchemaYaml, "yaml"
	case 1:
		if rng.IntN(4) == 0 {
			text, what = text[:rng.IntN(len(text))], "cut"
		}
	}
	c := map[string]any{"i": i, "malformed": what, "form": form, "schema": text}
	ran := 0
	a := jlibhttp.NewActor()
	refused := func() (refused bool) {
		defer func() {
			if p := recover(); p != nil {
				refused = true
			}
		}()
		return a.OnRequest("m", func(req *jlibhttp.RPCRequest, p []any) (any, error) {
			ran++
			return p, nil
		}, set(text)) != nil
	}()
	r.Count("malformed_gates", 1)
	r.Eval("badgate " + form + " " + what)
	if refused {
		if a.Has("m") {
			r.Violate("C10:badgate", c, "a handler whose schema is refused (%s) is registered all the same", what)
		}
		return
	}
	a.Feed(jlibhttp.NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []any{json.Number("1"), "x", nil}), jlibhttp.TransportHTTP, nil))
	r.Violate("C10:badgate", c, "a handler with a malformed schema (%s) is registered, it ran %d times", what, ran)
}
