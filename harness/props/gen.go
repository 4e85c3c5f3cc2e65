package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// --- JSON values ---

var strPool = []string{
	"", "a", "hello", "with space", "quote\"inside", "back\\slash", "tab\tnl\ncr\r",
	"ünïcödé", "日本語", "😀 emoji", "\u2028\u2029", "<script>&amp;</script>", "null", "true", "12",
	"-1.5e3", "{\"a\":1}", "[1,2]", "\u0000\u0001\u001f", "\u007f", "@file", "rpc.x", "jsonrpc", "id", "method", "params", "/", "\ufffd", "é",
	"a.b", "[0]", "0", strings.Repeat("long", 40),
}

func genString(rng *rand.Rand) string {
	switch rng.IntN(6) {
	case 0:
		n := rng.IntN(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch rng.IntN(5) {
			case 0:
				b.WriteByte(byte(rng.IntN(128)))
			case 1:
				c := rune(rng.IntN(0x110000))
				if !utf8.ValidRune(c) {
					c = 'x'
				}
				b.WriteRune(c)
			default:
				b.WriteByte(byte('a' + rng.IntN(26)))
			}
		}
		return b.String()
	default:
		return strPool[rng.IntN(len(strPool))]
	}
}

var numPool = []string{
	"0", "-0", "1", "-1", "7", "10", "42", "100", "255", "65536", "2147483647", "2147483648", "-2147483649",
	"9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616",
	"123456789012345678901234567890", "0.1", "-0.0", "1.0", "1.50", "3.14159", "1e5", "1E+2", "1e-7", "2.5e300", "1e400", "-1e999", "0.30000000000000004", "12345678.90123456789",
}

func genNumber(rng *rand.Rand) json.Number {
	switch rng.IntN(4) {
	case 0:
		return json.Number(strconv.FormatInt(int64(rng.IntN(2000)-1000), 10))
	case 1:
		return json.Number(strconv.FormatInt(int64(rng.Uint64()), 10))
	case 2:
		return json.Number(strconv.FormatFloat((rng.Float64()-0.5)*1000, 'g', -1, 64))
	default:
		return json.Number(numPool[rng.IntN(len(numPool))])
	}
}

// genValue makes a JSON value as decoded with UseNumber.
func genValue(rng *rand.Rand, depth int) any {
	k := rng.IntN(10)
	if depth <= 0 && k >= 6 {
		k = rng.IntN(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rng.IntN(2) == 0
	case 2, 3:
		return genNumber(rng)
	case 4, 5:
		return genString(rng)
	case 6, 7:
		return genList(rng, depth-1)
	default:
		return genObject(rng, depth-1)
	}
}

func genList(rng *rand.Rand, depth int) []any {
	n := rng.IntN(5)
	arr := make([]any, 0, n)
	for i := 0; i < n; i++ {
		arr = append(arr, genValue(rng, depth))
	}
	return arr
}

func genObject(rng *rand.Rand, depth int) map[string]any {
	n := rng.IntN(5)
	m := map[string]any{}
	for i := 0; i < n; i++ {
		m[genString(rng)] = genValue(rng, depth)
	}
	return m
}

// nest makes a deeply nested value.
func nest(rng *rand.Rand, depth int) any {
	var v any = genValue(rng, 0)
	for i := 0; i < depth; i++ {
		if rng.IntN(2) == 0 {
			v = []any{v}
		} else {
			v = map[string]any{"k": v}
		}
	}
	return v
}

// rawJSON writes v as JSON text with free choice of white space, member
// order and escapes.
func rawJSON(rng *rand.Rand, v any) string {
	var b strings.Builder
	writeRaw(rng, &b, v)
	return b.String()
}

func ws(rng *rand.Rand, b *strings.Builder) {
	if rng.IntN(4) != 0 {
		return
	}
	b.WriteString([]string{" ", "\n", "\t", "\r\n", "  "}[rng.IntN(5)])
}

func writeRaw(rng *rand.Rand, b *strings.Builder, v any) {
	ws(rng, b)
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case json.Number:
		b.WriteString(string(x))
	case int:
		b.WriteString(strconv.Itoa(x))
	case string:
		writeRawString(rng, b, x)
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			writeRaw(rng, b, e)
		}
		ws(rng, b)
		b.WriteByte(']')
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			ws(rng, b)
			writeRawString(rng, b, k)
			ws(rng, b)
			b.WriteByte(':')
			writeRaw(rng, b, x[k])
		}
		ws(rng, b)
		b.WriteByte('}')
	default:
		panic(fmt.Sprintf("writeRaw %T", v))
	}
	ws(rng, b)
}

func writeRawString(rng *rand.Rand, b *strings.Builder, s string) {
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"':
			b.WriteString(`\"`)
		case c == '\\':
			b.WriteString(`\\`)
		case c == '\n' && rng.IntN(2) == 0:
			b.WriteString(`\n`)
		case c < 0x20:
			fmt.Fprintf(b, `\u%04x`, c)
		case rng.IntN(12) == 0:
			if c >= 0x10000 {
				c -= 0x10000
				fmt.Fprintf(b, `\u%04X\u%04x`, 0xd800+(c>>10), 0xdc00+(c&0x3ff))
			} else {
				fmt.Fprintf(b, `\u%04x`, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
}

// decodeAny decodes JSON text keeping number literals.
func decodeAny(data []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	return v, nil
}

// canon is a canonical text of the JSON value v denotes.
func canon(v any) string {
	data, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("!unencodable %T %v", v, err)
	}
	d, err := decodeAny(data)
	if err != nil {
		return "!undecodable " + string(data)
	}
	out, _ := json.Marshal(d)
	return string(out)
}

func canonBytes(data []byte) string {
	d, err := decodeAny(data)
	if err != nil {
		return "!undecodable " + string(data)
	}
	out, _ := json.Marshal(d)
	return string(out)
}

// shape is the structural class of a value, for counting distinct cases.
func shape(v any) string {
	switch x := v.(type) {
	case nil:
		return "n"
	case bool:
		return "b"
	case json.Number, int, int64, float64:
		return "d"
	case string:
		if x == "" {
			return "e"
		}
		return "s"
	case []any:
		var b strings.Builder
		b.WriteByte('[')
		for _, e := range x {
			b.WriteString(shape(e))
		}
		b.WriteByte(']')
		return b.String()
	case map[string]any:
		parts := make([]string, 0, len(x))
		for _, e := range x {
			parts = append(parts, shape(e))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, "") + "}"
	}
	return fmt.Sprintf("%T", v)
}

// deepCopy copies a JSON-like tree.
func deepCopy(v any) any {
	switch x := v.(type) {
	case []any:
		if x == nil {
			return x
		}
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = deepCopy(e)
		}
		return out
	case map[string]any:
		if x == nil {
			return x
		}
		out := make(map[string]any, len(x))
		for k, e := range x {
			out[k] = deepCopy(e)
		}
		return out
	}
	return v
}

func pick[T any](rng *rand.Rand, xs ...T) T { return xs[rng.IntN(len(xs))] }

func genMethod(rng *rand.Rand) string {
	if rng.IntN(3) == 0 {
		s := genString(rng)
		if s != "" {
			return s
		}
	}
	return pick(rng, "echo", "a.b.c", "fifo_push", "x:y", "rpc.hello", "日本", "m/1", "A-B+C", "123")
}

func genTrace(rng *rand.Rand) string {
	switch rng.IntN(3) {
	case 0:
		return ""
	case 1:
		return genString(rng)
	}
	return fmt.Sprintf("trace-%x", rng.Uint32())
}

func genId(rng *rand.Rand) any {
	switch rng.IntN(5) {
	case 0:
		return genString(rng)
	case 1:
		return int(rng.Uint64())
	case 2:
		return rng.IntN(10) - 3
	case 3:
		return pick(rng, 0, -1, 1<<53+1, int(^uint(0)>>1), -int(^uint(0)>>1)-1)
	}
	return fmt.Sprintf("%032x", rng.Uint64())
}
