package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
)

// --- reference parser over a decoded document ---

type refOutcome struct {
	View msgView
	Err  bool
	Sure bool // the rules settle this document
}

func refErr() refOutcome { return refOutcome{Err: true, Sure: true} }

func isIntLit(n json.Number) bool {
	s := strings.TrimPrefix(string(n), "-")
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// refId: ok=false when the id is refused, sure=false when the rules don't say.
func refId(v any) (id any, ok, sure bool) {
	switch x := v.(type) {
	case nil:
		return nil, true, true
	case string:
		return x, true, true
	case json.Number:
		if isIntLit(x) {
			n, err := strconv.Atoi(string(x))
			if err != nil {
				return nil, false, false // beyond the machine integers
			}
			return n, true, true
		}
		f, err := x.Float64()
		if err == nil && f == float64(int64(f)) {
			return nil, false, false // 1.0 or 1e3
		}
		return nil, false, true
	}
	return nil, false, true
}

func refParse(doc any) refOutcome {
	m, ok := doc.(map[string]any)
	if !ok {
		return refErr()
	}
	trace, method := "", ""
	if v := m["traceid"]; v != nil {
		s, ok := v.(string)
		if !ok {
			return refErr()
		}
		trace = s
	}
	if v := m["method"]; v != nil {
		s, ok := v.(string)
		if !ok {
			return refErr()
		}
		method = s
	}
	id, idok, sure := refId(m["id"])
	if ev := m["error"]; ev != nil {
		if m["result"] != nil {
			return refErr()
		}
		em, ok := ev.(map[string]any)
		if !ok {
			return refErr()
		}
		code, message := 0, ""
		for k := range em {
			if lk := strings.ToLower(k); lk != k && (lk == "code" || lk == "message" || lk == "data") {
				sure = false
			}
		}
		if cv := em["code"]; cv != nil {
			n, ok := cv.(json.Number)
			if !ok {
				return refErr()
			}
			c, err := strconv.Atoi(string(n))
			if err != nil {
				return refOutcome{}
			}
			code = c
		}
		if mv := em["message"]; mv != nil {
			s, ok := mv.(string)
			if !ok {
				return refErr()
			}
			message = s
		}
		if !idok {
			return refOutcome{Err: true, Sure: sure}
		}
		return refOutcome{Sure: sure, View: msgView{Kind: "error", Id: idText(id), Trace: trace,
			Error: fmt.Sprintf("%d|%s|%s", code, message, canon(em["data"]))}}
	}
	if rv := m["result"]; rv != nil {
		if !idok {
			return refOutcome{Err: true, Sure: sure}
		}
		return refOutcome{Sure: sure, View: msgView{Kind: "result", Id: idText(id), Trace: trace, Result: canon(rv)}}
	}
	if method != "" {
		pv := m["params"]
		if pv == nil {
			return refErr()
		}
		if !idok {
			return refOutcome{Err: true, Sure: sure}
		}
		params := canon([]any{pv})
		if arr, ok := pv.([]any); ok {
			params = canon(arr)
		}
		if id == nil {
			return refOutcome{Sure: sure, View: msgView{Kind: "notify", Method: method, Params: params, Trace: trace}}
		}
		return refOutcome{Sure: sure, View: msgView{Kind: "request", Id: idText(id), Method: method, Params: params, Trace: trace}}
	}
	if m["id"] != nil {
		if !idok {
			return refOutcome{Err: true, Sure: sure}
		}
		return refOutcome{Sure: sure, View: msgView{Kind: "result", Id: idText(id), Result: "null", Trace: trace}}
	}
	return refErr()
}

// plainMembers tells if the top level members of a document are unambiguous:
// none occurs twice or in another letter case.
func plainMembers(data []byte) bool {
	dec := json.NewDecoder(bytes.NewReader(data))
	tok, err := dec.Token()
	if err != nil {
		return false
	}
	if d, ok := tok.(json.Delim); !ok || d != '{' {
		return true
	}
	seen := map[string]bool{}
	known := map[string]bool{"id": true, "method": true, "params": true, "result": true, "error": true, "traceid": true}
	for dec.More() {
		tok, err := dec.Token()
		if err != nil {
			return false
		}
		k, _ := tok.(string)
		folded := strings.ToLower(strings.NewReplacer("ſ", "s", "K", "k").Replace(k))
		if known[folded] {
			if folded != k || seen[k] {
				return false
			}
			seen[k] = true
		}
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			return false
		}
		if k == "error" {
			var e map[string]json.RawMessage
			n := 0
			json.Unmarshal(raw, &e)
			d2 := json.NewDecoder(bytes.NewReader(raw))
			depth := 0
			for {
				t, err := d2.Token()
				if err != nil {
					break
				}
				if d, ok := t.(json.Delim); ok {
					if d == '{' || d == '[' {
						depth++
					} else {
						depth--
					}
				} else if depth == 1 {
					n++
				}
			}
			_ = n
			lower := map[string]int{}
			for ek := range e {
				lower[strings.ToLower(ek)]++
			}
			if bytes.Count(raw, []byte(`"code"`)) > 1 || bytes.Count(raw, []byte(`"message"`)) > 1 || bytes.Count(raw, []byte(`"data"`)) > 1 || bytes.Contains(raw, []byte(`\u`)) {
				return false
			}
			for _, c := range lower {
				if c > 1 {
					return false
				}
			}
		}
	}
	return true
}

// genDoc makes a document with any combination of members.
func genDoc(rng *rand.Rand) map[string]any {
	m := map[string]any{}
	if rng.IntN(8) != 0 {
		m["jsonrpc"] = "2.0"
	}
	odd := func() any {
		return pick[any](rng, nil, true, "", "x", json.Number("1"), []any{}, map[string]any{}, []any{"a"})
	}
	if rng.IntN(3) != 0 {
		switch rng.IntN(8) {
		case 0:
			m["id"] = odd()
		case 1:
			m["id"] = pick[any](rng, json.Number("1.5"), true, []any{json.Number("1")}, map[string]any{}, json.Number("-0"), json.Number("9223372036854775807"))
		case 2:
			m["id"] = nil
		default:
			switch id := genId(rng).(type) {
			case int:
				m["id"] = json.Number(strconv.Itoa(id))
			default:
				m["id"] = id
			}
		}
	}
	if rng.IntN(2) == 0 {
		m["method"] = genMethod(rng)
		if rng.IntN(6) == 0 {
			m["method"] = odd()
		}
	}
	if rng.IntN(3) != 0 {
		switch rng.IntN(4) {
		case 0:
			m["params"] = genValue(rng, 2)
		case 1:
			m["params"] = genObject(rng, 2)
		default:
			m["params"] = genList(rng, 3)
		}
	}
	if rng.IntN(3) == 0 {
		m["result"] = genValue(rng, 3)
	}
	if rng.IntN(3) == 0 {
		switch rng.IntN(4) {
		case 0:
			m["error"] = odd()
		default:
			e := map[string]any{}
			if rng.IntN(6) != 0 {
				e["code"] = json.Number(strconv.Itoa(rng.IntN(65536) - 33000))
				if rng.IntN(10) == 0 {
					e["code"] = pick[any](rng, "1", true, []any{}, nil)
				}
			}
			if rng.IntN(6) != 0 {
				e["message"] = genString(rng)
				if rng.IntN(10) == 0 {
					e["message"] = pick[any](rng, json.Number("1"), true, []any{}, nil)
				}
			}
			if rng.IntN(2) == 0 {
				e["data"] = genValue(rng, 2)
			}
			m["error"] = e
		}
	}
	if rng.IntN(3) == 0 {
		m["traceid"] = genTrace(rng)
		if rng.IntN(8) == 0 {
			m["traceid"] = odd()
		}
	}
	if rng.IntN(4) == 0 {
		m["extra"+strconv.Itoa(rng.IntN(3))] = genValue(rng, 2)
	}
	return m
}

// genMessageDoc makes a document of a well-formed message.
func genMessageDoc(rng *rand.Rand) map[string]any {
	for {
		m := genDoc(rng)
		if o := refParse(m); o.Sure && !o.Err {
			return m
		}
	}
}

// chunkReader returns data in arbitrary pieces.
type chunkReader struct {
	rng   *rand.Rand
	data  []byte
	max   int
	early bool // EOF together with the last bytes
}

func (c *chunkReader) Read(b []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := 1 + c.rng.IntN(c.max)
	if n > len(c.data) {
		n = len(c.data)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.early {
		return n, io.EOF
	}
	return n, nil
}

func driveC02(r *Run) {
	r.Rule("documents with random member combinations judged by a reference classifier, mutated bytes (totality, re-parse fixpoint), and concatenated streams under random chunking with malformed tails; non-trivial: distinct outcome class and member/type combination")
	n := r.N(30000, 1500000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("doc", i)
		switch i % 10 {
		case 0, 1, 2, 3:
			m := genDoc(rng)
			raw := rawJSON(rng, m)
			if rng.IntN(30) == 0 {
				v := genValue(rng, 2)
				if _, isMap := v.(map[string]any); !isMap {
					raw = rawJSON(rng, v)
				}
			}
			judgeDoc(r, i, "gen", []byte(raw))
		case 4, 5, 6, 7:
			raw := []byte(rawJSON(rng, genDoc(rng)))
			raw = mutate(rng, raw)
			judgeDoc(r, i, "mut", raw)
		default:
			streamC02(r, rng, i)
		}
	}
}

func mutate(rng *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + rng.IntN(4); k > 0; k-- {
		if len(b) == 0 {
			return []byte{byte(rng.IntN(256))}
		}
		p := rng.IntN(len(b))
		switch rng.IntN(7) {
		case 0:
			b[p] = byte(rng.IntN(256))
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			b = append(b[:p], append([]byte{pick(rng, byte('{'), '}', '[', ']', '"', ',', ':', '\\', '0', 0, 0xff)}, b[p:]...)...)
		case 3:
			b = b[:p]
		case 4:
			q := p + rng.IntN(len(b)-p)
			b = append(b[:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		case 5:
			frag := pick(rng, `null`, `"id":`, `"error":{}`, `"result":1,`, `"params":null`, `1e999`, `"\ud800"`, `true`, `[[[[`, "\xef\xbb\xbf")
			b = append(b[:p], append([]byte(frag), b[p:]...)...)
		case 6:
			b = append(b, b[p:]...)
		}
	}
	return b
}

func judgeDoc(r *Run, i int, kind string, raw []byte) {
	c := map[string]any{"i": i, "kind": kind, "bytes": string(raw), "hex": fmt.Sprintf("%x", clip(string(raw), 400))}
	var msg jlib.Message
	var err error
	if !r.Guard("C02", c, func() { msg, err = jlib.ParseBytes(raw) }) {
		r.Eval("panic")
		return
	}
	if (msg == nil) == (err == nil) {
		r.Violate("C02:total", c, "ParseBytes returns message %v and error %v", msg, err)
		return
	}
	cls := "err"
	if err == nil {
		v := viewOf(msg)
		cls = v.Kind
		// a parsed message is encodable and parses to itself
		r.Guard("C02:fixpoint", c, func() {
			data, err := jlib.MessageBytes(msg)
			if err != nil {
				r.Violate("C02:reencode", c, "parsed message does not encode: %v", err)
				return
			}
			again, err := jlib.ParseBytes(data)
			if err != nil {
				r.Violate("C02:reparse", c, "%s does not parse again: %v", data, err)
			} else if v2 := viewOf(again); v2 != v {
				r.Violate("C02:fixpoint", c, "parsed %+v, again %+v", v, v2)
			}
		})
	}
	first, derr := decodeFirst(raw)
	if derr != nil {
		if err == nil {
			r.Violate("C02:malformed", c, "malformed JSON accepted as %+v (%v)", viewOf(msg), derr)
		}
		r.Eval(kind + " malformed " + errClass(derr))
		return
	}
	if !plainMembers(raw) {
		r.Eval(kind + " ambiguous " + cls)
		return
	}
	o := refParse(first)
	key := kind + " " + cls + " " + memberShape(first)
	if o.Sure {
		r.Count("judged", 1)
		if o.Err != (err != nil) {
			r.Violate("C02:verdict", c, "ParseBytes error %v, the rules say refused=%v (%+v)", err, o.Err, o.View)
		} else if err == nil {
			if v := viewOf(msg); v != o.View {
				r.Violate("C02:classify", c, "parsed %+v, the rules say %+v", v, o.View)
			}
		}
	}
	r.Count("class_"+cls, 1)
	r.Eval(key)
	if i%400 == 0 {
		r.Sample(map[string]any{"bytes": string(raw), "class": cls})
	}
}

func errClass(err error) string {
	s := err.Error()
	if len(s) > 18 {
		s = s[:18]
	}
	return s
}

func memberShape(doc any) string {
	m, ok := doc.(map[string]any)
	if !ok {
		return fmt.Sprintf("%T", doc)
	}
	s := ""
	for _, k := range []string{"id", "method", "params", "result", "error", "traceid"} {
		if v, ok := m[k]; ok {
			s += k[:2] + shape1(v) + " "
		}
	}
	return s
}

func shape1(v any) string {
	switch x := v.(type) {
	case []any:
		return fmt.Sprintf("[%d]", len(x))
	case map[string]any:
		return fmt.Sprintf("{%d}", len(x))
	}
	return shape(v)
}

func decodeFirst(raw []byte) (any, error) {
	return decodeAny(raw)
}

func streamC02(r *Run, rng *rand.Rand, i int) {
	n := rng.IntN(12)
	var buf bytes.Buffer
	var want []msgView
	for k := 0; k < n; k++ {
		m := genMessageDoc(rng)
		if rng.IntN(40) == 0 {
			m["extra"] = strings.Repeat("x", 5000+rng.IntN(80000))
		}
		raw := rawJSON(rng, m)
		buf.WriteString(raw)
		buf.WriteString(pick(rng, "", "\n", " ", "\r\n", "\n\n\t"))
		want = append(want, refParse(m).View)
	}
	tail := pick(rng, "eof", "eof", "eof", "notmsg", "garbage", "trunc")
	switch tail {
	case "notmsg":
		buf.WriteString(pick(rng, `{}`, `[]`, `null`, `1 `, `{"method":"a"}`, `{"id":true,"result":1}`, `{"error":{},"result":1,"id":1}`, `"x"`))
	case "garbage":
		buf.WriteString(pick(rng, `}`, `{,}`, "\x00", `{"id":1 "method":2}`, `tru `, "]"))
	case "trunc":
		raw := rawJSON(rng, genMessageDoc(rng))
		raw = strings.TrimSpace(raw)
		buf.WriteString(raw[:1+rng.IntN(len(raw)-1)])
	}
	data := append([]byte(nil), buf.Bytes()...)
	c := map[string]any{"i": i, "stream": string(data), "tail": tail}
	for pass, max := range []int{1, 1 + rng.IntN(20), 1 << 20} {
		if max == 1 && len(data) > 20000 {
			continue
		}
		cr := &chunkReader{rng: rng, data: append([]byte(nil), data...), max: max, early: rng.IntN(2) == 0}
		dec := json.NewDecoder(cr)
		r.Guard("C02:stream", c, func() {
			for k := 0; ; k++ {
				msg, err := jlib.DecodeMessage(dec)
				if (msg == nil) == (err == nil) {
					r.Violate("C02:streamtotal", c, "DecodeMessage returns %v and %v", msg, err)
					return
				}
				if err == nil {
					if k >= len(want) {
						r.Violate("C02:streamextra", c, "message %d of a stream of %d: %+v", k, len(want), viewOf(msg))
						return
					}
					if v := viewOf(msg); v != want[k] {
						r.Violate("C02:streammsg", c, "pass %d: message %d is %+v, want %+v", pass, k, v, want[k])
						return
					}
					continue
				}
				if k != len(want) {
					r.Violate("C02:streamloss", c, "pass %d (chunks up to %d): error %v at message %d of %d", pass, max, err, k, len(want))
				} else if (tail == "eof") != errors.Is(err, io.EOF) {
					r.Violate("C02:streamend", c, "stream with tail %s ends with %v", tail, err)
				}
				return
			}
		})
		r.Count("stream_messages", len(want))
	}
	r.Eval(fmt.Sprintf("stream n=%d tail=%s", n, tail))
}
