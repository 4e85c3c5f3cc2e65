package props

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sync"

	"github.com/superisaac/jlib"
)

func driveC29(r *Run) {
	r.Rule("groups of requests which ask the same (constructed, cloned, parsed from differently written texts, with other ids and trace ids) and variants with another method or with one changed spot in their params; non-trivial: distinct (shape of params, variant)")
	r.Assume("numbers written differently, a single by-name value against a list of it, and names which end in JSON text are left out: the statement does not say")
	n := r.N(16000, 700000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("key", i)
		c := map[string]any{"i": i}
		r.Guard("C29", c, func() { oneC29(r, rng, i, c) })
	}
}

// elsewhere changes v in one spot.
func elsewhere(rng *rand.Rand, v any) any {
	switch x := v.(type) {
	case []any:
		if len(x) == 0 || rng.IntN(4) == 0 {
			at := rng.IntN(len(x) + 1)
			out := append([]any{}, x[:at]...)
			out = append(out, pick[any](rng, nil, "", json.Number("0"), []any{}))
			return append(out, x[at:]...)
		}
		out := append([]any{}, x...)
		switch at := rng.IntN(len(x)); {
		case rng.IntN(5) == 0:
			return append(out[:at], out[at+1:]...)
		case rng.IntN(4) == 0:
			to := rng.IntN(len(x))
			out[at], out[to] = out[to], out[at]
		default:
			out[at] = elsewhere(rng, out[at])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = e
		}
		ks := sortedKeys(x)
		if len(ks) == 0 || rng.IntN(4) == 0 {
			out[genString(rng)] = nil
			return out
		}
		k := ks[rng.IntN(len(ks))]
		switch rng.IntN(4) {
		case 0:
			delete(out, k)
		case 1:
			out[k+"x"] = out[k]
			delete(out, k)
		default:
			out[k] = elsewhere(rng, out[k])
		}
		return out
	case string:
		if x == "" || rng.IntN(2) == 0 {
			return x + pick(rng, " ", "x", "\"", "<", "\n", "é")
		}
		rs := []rune(x)
		rs[rng.IntN(len(rs))] = pick(rng, 'q', 'Q', '0', '\u2028')
		return string(rs)
	case json.Number:
		if isIntLit(x) && len(x) > 1 && x[0] != '-' {
			// the last digit of however long a number
			b := []byte(x)
			b[len(b)-1] = '0' + (b[len(b)-1]-'0'+1)%10
			return json.Number(b)
		}
		return string(x)
	case bool:
		return pick[any](rng, !x, fmt.Sprint(x))
	}
	return pick[any](rng, "null", false, json.Number("0"), map[string]any{})
}

func oneC29(r *Run, rng *rand.Rand, i int, c map[string]any) {
	method := genMethod(rng)
	prefix := pick(rng, "", "p:", "cache/", "ü")
	params := genList(rng, 3)
	if rng.IntN(3) == 0 {
		params = append(params, json.Number(pick(rng, "9007199254740993", "123456789012345678901234567890", "1e400", "-0.1", "18446744073709551615")))
	}
	c["method"], c["params"], c["prefix"] = method, params, prefix
	q := jlib.NewRequestMessage(genId(rng), method, deepCopy(params))
	before := canon(q.Interface())
	key := q.CacheKey(prefix)
	same := map[string]*jlib.RequestMessage{"cloned": q.Clone(genId(rng)), "with replaced id": q.ReplaceId(genId(rng)).(*jlib.RequestMessage)}
	o := jlib.NewRequestMessage(genId(rng), method, deepCopy(params))
	o.SetTraceId(genTrace(rng))
	same["built again"] = o
	for k := 0; k < 2; k++ {
		raw := rawJSON(rng, map[string]any{"jsonrpc": "2.0", "id": genId(rng), "method": method, "params": params})
		m, err := jlib.ParseBytes([]byte(raw))
		p, ok := m.(*jlib.RequestMessage)
		if err != nil || !ok {
			r.Violate("C29:parse", c, "parsing %s: %v %v", raw, m, err)
			return
		}
		same[fmt.Sprintf("parsed%d", k)] = p
	}
	for _, how := range sortedKeys(same) {
		m := same[how]
		if got := m.CacheKey(prefix); got != key {
			r.Violate("C29:same", c, "key %q of the same request %s, %q before", got, how, key)
		}
	}
	if q.CacheKey(prefix) != key || canon(q.Interface()) != before {
		r.Violate("C29:stable", c, "the key of a request is %q and then %q, the message %s and then %s", key, q.CacheKey(prefix), before, canon(q.Interface()))
	}
	if i%16 == 0 {
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if got := q.CacheKey(prefix); got != key {
					mu.Lock()
					defer mu.Unlock()
					r.Violate("C29:concurrent", c, "key %q computed concurrently, %q before", got, key)
				}
			}()
		}
		wg.Wait()
	}
	r.Eval("same " + shape(params))
	text := method + canon(params)
	for k := 0; k < 4; k++ {
		m2, p2, what := method, any(params), "params"
		if k == 0 {
			what = "method"
			m2 = pick(rng, method+"x", "x"+method, method+".", method+"[")
		} else {
			p2 = elsewhere(rng, params)
		}
		if m2+canon(p2) == text {
			continue
		}
		d := jlib.NewRequestMessage(q.Id, m2, deepCopy(p2))
		if got := d.CacheKey(prefix); got == key {
			r.Violate("C29:other", map[string]any{"i": i, "method": method, "params": params, "other method": m2, "other params": p2}, "requests which ask something else have the same key %q", got)
		}
		r.Eval("other " + what + " " + shape(p2))
		r.Count("differ_in_"+what, 1)
	}
	if i%700 == 0 {
		r.Sample(map[string]any{"method": method, "params": params, "key": key})
	}
}
