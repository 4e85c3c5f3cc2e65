package props

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// Res has the tags results are written with.
type Res struct {
	A    int            `json:"a"`
	B    string         `json:"b"`
	C    []Inner        `json:"c"`
	D    map[string]any `json:"d"`
	E    bool           `json:"e"`
	F    float64        `json:"f"`
	Skip string         `json:"-"`
	G    any            `json:"g"`
}

var (
	errT = reflect.TypeOf((*error)(nil)).Elem()
	reqT = reflect.TypeOf((*jlibhttp.RPCRequest)(nil))
	ctxT = reflect.TypeOf((*context.Context)(nil)).Elem()
)

func driveC11(r *Run) {
	r.Rule("functions of random signatures (up to 4 arguments of 21 types, results of 22 types, with request or context) registered and fed with random params: fitting, off by one spot, null, missing or surplus, against a reference conversion; unsupported shapes; non-trivial: distinct (argument types, param shapes, verdict)")
	n := r.N(40000, 1500000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("typed", i)
		c := map[string]any{"i": i}
		r.Guard("C11", c, func() { oneC11(r, rng, i, c) })
	}
	m := r.N(2000, 40000)
	for i := 0; i < m; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("shape", i)
		shapesC11(r, rng, i)
	}
	k := r.N(60, 2000)
	for i := 0; i < k; i++ {
		if r.Mine(i) {
			parallelC11(r, r.Rand("parallel", i), i)
		}
	}
}

// parallelC11 calls one typed handler from many goroutines at once: each
// call must see its own arguments.
func parallelC11(r *Run, rng *rand.Rand, i int) {
	first := rng.IntN(3)
	var ins []reflect.Type
	switch first {
	case 1:
		ins = append(ins, reqT)
	case 2:
		ins = append(ins, ctxT)
	}
	lead := len(ins)
	na := 1 + rng.IntN(4)
	var args []reflect.Type
	for k := 0; k < na; k++ {
		args = append(args, convTypes[rng.IntN(len(convTypes))])
	}
	ft := reflect.FuncOf(append(ins, args...), []reflect.Type{reflect.TypeOf(""), errT}, false)
	text := func(vals []reflect.Value) string {
		s := ""
		for _, v := range vals {
			s += goText(v) + ";"
		}
		return s
	}
	fn := reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
		s := ""
		switch first {
		case 1:
			s = idText(in[0].Interface().(*jlibhttp.RPCRequest).Msg().MustId())
		case 2:
			s = fmt.Sprint(in[0].Interface().(context.Context).Value(ctxKey{}))
		}
		runtime.Gosched()
		return []reflect.Value{reflect.ValueOf(s + ":" + text(in[lead:])), reflect.Zero(errT)}
	})
	actor := jlibhttp.NewActor()
	switch first {
	case 0:
		actor.OnTyped("f", fn.Interface())
	case 1:
		must(actor.OnTypedRequest("f", fn.Interface()))
	case 2:
		must(actor.OnTypedContext("f", fn.Interface()))
	}
	type call struct {
		id     string
		params []any
		want   string
	}
	const workers, each = 8, 120
	calls := make([][]call, workers)
	for g := range calls {
		for len(calls[g]) < each {
			var params []any
			var vals []reflect.Value
			vd := vOK
			for k := 0; k < na; k++ {
				p := genFor(rng, args[k], 0)
				v, d := convert(p, args[k])
				vd = worse(vd, d)
				params, vals = append(params, p), append(vals, v)
			}
			if vd != vOK {
				continue
			}
			c := call{id: fmt.Sprintf("%d-%d", g, len(calls[g])), params: params, want: ":" + text(vals)}
			switch first {
			case 1:
				c.want = idText(c.id) + c.want
			case 2:
				c.want = c.id + c.want
			}
			calls[g] = append(calls[g], c)
		}
	}
	c := map[string]any{"i": i, "parallel": ft.String()}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, k := range calls[g] {
				ok := r.Guard("C11", c, func() {
					ctx := context.WithValue(context.Background(), ctxKey{}, k.id)
					res, err := actor.Feed(jlibhttp.NewRPCRequest(ctx, jlib.NewRequestMessage(k.id, "f", k.params), "test", nil))
					if err != nil || res == nil || !res.IsResult() || res.MustResult() != k.want {
						r.Violate("C11:parallel", c, "one of many concurrent calls with params %s got %s %v, want %s", canon(k.params), show(res), err, k.want)
					}
				})
				if !ok {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	r.Eval("parallel " + ft.String())
	r.Count("parallel_calls", workers*each)
}

var someErrs = []error{
	nil, nil, nil,
	&jlib.RPCError{Code: 77, Message: "seventy seven", Data: map[string]any{"x": 1}},
	fmt.Errorf("wrapped: %w", &jlib.RPCError{Code: -5, Message: "minus five"}),
	errors.New("some error"),
}

func oneC11(r *Run, rng *rand.Rand, i int, c map[string]any) {
	na := rng.IntN(5)
	var ins []reflect.Type
	first := rng.IntN(3)
	switch first {
	case 1:
		ins = append(ins, reqT)
	case 2:
		ins = append(ins, ctxT)
	}
	lead := len(ins)
	var args []reflect.Type
	for k := 0; k < na; k++ {
		args = append(args, convTypes[rng.IntN(len(convTypes))])
	}
	ins = append(ins, args...)
	outT := reflect.TypeOf(Res{})
	if rng.IntN(4) != 0 {
		outT = convTypes[rng.IntN(len(convTypes))]
	}
	ft := reflect.FuncOf(ins, []reflect.Type{outT, errT}, false)
	c["func"] = ft.String()

	var got []reflect.Value
	calls := 0
	retErr := someErrs[rng.IntN(len(someErrs))]
	ret := genResult(rng, outT)
	var seenReq, seenCtx any
	fn := reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
		calls++
		switch first {
		case 1:
			seenReq = in[0].Interface()
		case 2:
			seenCtx = in[0].Interface()
		}
		got = append([]reflect.Value(nil), in[lead:]...)
		ev := reflect.Zero(errT)
		if retErr != nil {
			ev = reflect.ValueOf(retErr).Convert(errT)
			return []reflect.Value{reflect.Zero(outT), ev}
		}
		return []reflect.Value{ret, ev}
	})
	actor := jlibhttp.NewActor()
	var rerr error
	switch first {
	case 0:
		actor.OnTyped("f", fn.Interface())
	case 1:
		rerr = actor.OnTypedRequest("f", fn.Interface())
	case 2:
		rerr = actor.OnTypedContext("f", fn.Interface())
	}
	if rerr != nil {
		r.Violate("C11:register", c, "a supported function is refused: %v", rerr)
		return
	}
	for round := 0; round < 3; round++ {
		np := na
		switch rng.IntN(6) {
		case 0:
			np = rng.IntN(na + 1)
		case 1:
			np = na + rng.IntN(3)
		}
		off := pick(rng, 0, 0, 6, 20)
		params := make([]any, 0, np)
		vd := vOK
		var want []reflect.Value
		key := ""
		for k := 0; k < np; k++ {
			var p any
			if k < na {
				p = genFor(rng, args[k], off)
				if rng.IntN(30) == 0 {
					p = nil
				}
				v, d := convert(p, args[k])
				want = append(want, v)
				vd = worse(vd, d)
				key += args[k].String() + ":" + shape1(p) + " "
			} else {
				p = genValue(rng, 1)
			}
			params = append(params, p)
		}
		if np < na {
			vd = vBad
		}
		var msg jlib.Message = jlib.NewRequestMessage(genId(rng), "f", params)
		notify := rng.IntN(6) == 0
		if notify {
			msg = jlib.NewNotifyMessage("f", params)
		}
		keep := canon(params)
		ctx := context.WithValue(context.Background(), ctxKey{}, i)
		req := jlibhttp.NewRPCRequest(ctx, msg, "test", nil)
		calls, got, seenReq, seenCtx = 0, nil, nil, nil
		cc := map[string]any{"i": i, "func": ft.String(), "params": params, "verdict": vd.String()}
		var res jlib.Message
		var err error
		if !r.Guard("C11", cc, func() { res, err = actor.Feed(req) }) {
			return
		}
		if canon(params) != keep {
			r.Violate("C11:changed", cc, "conversion changed the params to %s", canon(params))
		}
		r.Count("verdict_"+vd.String(), 1)
		r.Eval(key + vd.String())
		if calls > 1 {
			r.Violate("C11:times", cc, "handler called %d times", calls)
			continue
		}
		if vd == vOK && calls == 0 {
			r.Violate("C11:refuse", cc, "fitting params, the handler is not called: %v %v", show(res), err)
			continue
		}
		if vd == vBad && calls != 0 {
			r.Violate("C11:accept", cc, "misfitting params, the handler is called")
			continue
		}
		if calls == 1 {
			if first == 1 && seenReq != any(req) || first == 2 && seenCtx != any(ctx) {
				r.Violate("C11:first", cc, "the handler got another request or context")
			}
			if vd == vOK {
				for k := range want {
					if !eqv(got[k], want[k]) {
						r.Violate("C11:argument", cc, "argument %d is %s, want %s", k, goText(got[k]), goText(want[k]))
					}
				}
			}
		}
		if notify {
			wantErr := calls == 0 || retErr != nil
			if res != nil || (err != nil) != wantErr {
				r.Violate("C11:notify", cc, "notify got %v %v", show(res), err)
			}
			continue
		}
		if err != nil || res == nil || idText(res.MustId()) != idText(msg.MustId()) {
			r.Violate("C11:answer", cc, "request got %v %v", show(res), err)
			continue
		}
		switch {
		case calls == 0:
			if !res.IsError() || res.MustError().Code != -32602 {
				r.Violate("C11:params-error", cc, "misfitting params are answered with %s", show(res))
			}
		case retErr != nil:
			var re *jlib.RPCError
			code := -32603
			if errors.As(retErr, &re) {
				code = re.Code
			}
			if !res.IsError() || res.MustError().Code != code || re != nil && (res.MustError().Message != re.Message || canon(res.MustError().Data) != canon(re.Data)) {
				r.Violate("C11:error", cc, "error %v is answered with %s", retErr, show(res))
			}
		default:
			if !res.IsResult() || canon(res.MustResult()) != canon(ret.Interface()) {
				r.Violate("C11:result", cc, "result %s is answered with %s", goText(ret), show(res))
			}
		}
	}
	if i%4999 == 0 {
		r.Sample(map[string]any{"func": ft.String(), "first": first})
	}
}

// genResult makes a value a handler returns.
func genResult(rng *rand.Rand, t reflect.Type) reflect.Value {
	if t == reflect.TypeOf(Res{}) {
		x := Res{A: rng.IntN(100), B: genString(rng), E: rng.IntN(2) == 0, F: float64(rng.IntN(100)) / 4, Skip: "s", G: genValue(rng, 2)}
		c, _ := convert(genFor(rng, reflect.TypeOf(x.C), 0), reflect.TypeOf(x.C))
		x.C = c.Interface().([]Inner)
		x.D = genObject(rng, 2)
		return reflect.ValueOf(x)
	}
	for {
		v := genFor(rng, t, 0)
		if v == nil && t.Kind() != reflect.Interface {
			continue
		}
		out, vd := convert(v, t)
		if vd == vOK && encodable(out) {
			return out
		}
	}
}

func encodable(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	return !strings.HasPrefix(canon(v.Interface()), "!")
}

func shapesC11(r *Run, rng *rand.Rand, i int) {
	// functions nobody can call
	outs := [][]reflect.Type{{}, {errT}, {reflect.TypeOf(0)}, {reflect.TypeOf(0), reflect.TypeOf("")}, {reflect.TypeOf(0), errT, errT}, {reflect.TypeOf(0), reflect.TypeOf(0), errT}}
	var ins []reflect.Type
	lead := rng.IntN(3)
	if lead == 1 {
		ins = append(ins, reqT)
	} else if lead == 2 {
		ins = append(ins, ctxT)
	}
	for k := rng.IntN(3); k > 0; k-- {
		ins = append(ins, convTypes[rng.IntN(len(convTypes))])
	}
	var fn any
	badLead := false
	out := []reflect.Type{reflect.TypeOf(0), errT}
	how := ""
	switch rng.IntN(4) {
	case 0:
		fn = pick[any](rng, 1, "x", struct{}{}, []int{}, map[string]int{}, &struct{}{})
		how = fmt.Sprintf("%T", fn)
	case 1:
		out = outs[rng.IntN(len(outs))]
		fallthrough
	default:
		ft := reflect.FuncOf(ins, out, false)
		how = ft.String()
		fn = reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value { panic("called") }).Interface()
	}
	valid := len(out) == 2 && out[1] == errT && reflect.TypeOf(fn).Kind() == reflect.Func
	c := map[string]any{"shape": how, "i": i}
	try := func(f func(a *jlibhttp.Actor) error) (refused bool, a *jlibhttp.Actor) {
		a = jlibhttp.NewActor()
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		return f(a) != nil, a
	}
	type reg struct {
		name string
		ok   bool
		f    func(a *jlibhttp.Actor) error
	}
	_ = badLead
	for _, g := range []reg{
		{"OnTypedRequest", valid && lead == 1, func(a *jlibhttp.Actor) error { return a.OnTypedRequest("f", fn) }},
		{"OnTypedContext", valid && lead == 2, func(a *jlibhttp.Actor) error { return a.OnTypedContext("f", fn) }},
		{"OnTyped", valid, func(a *jlibhttp.Actor) error { a.OnTyped("f", fn); return nil }},
	} {
		refused, a := try(g.f)
		if g.name == "OnTyped" && valid {
			// any function of two results may be registered
			if refused {
				r.Violate("C11:shape", c, "%s refuses %s", g.name, how)
			}
			continue
		}
		if refused == g.ok {
			r.Violate("C11:shape", c, "%s of %s: refused %v", g.name, how, refused)
		}
		if refused && a.Has("f") {
			r.Violate("C11:shape", c, "%s of %s: refused but served", g.name, how)
		}
	}
	r.Eval("shape " + how)
	r.Count("shapes", 1)
}
