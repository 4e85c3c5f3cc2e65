package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
)

var (
	reInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reDec = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

type guess struct {
	v    any
	err  bool
	sure bool
}

// oneDoc decodes text that must be exactly one JSON document.
func oneDoc(text string) (any, bool, bool) {
	v, err := decodeAny([]byte(text))
	if err != nil {
		return nil, false, true
	}
	// something after the document: nobody says what it means
	if !json.Valid([]byte(text)) {
		return nil, false, false
	}
	return v, true, true
}

func refGuess(in string, readFile func(string) (string, bool)) guess {
	switch in {
	case "":
		return guess{v: "", sure: true}
	case "true":
		return guess{v: true, sure: true}
	case "false":
		return guess{v: false, sure: true}
	case "null":
		return guess{v: nil, sure: true}
	}
	if reInt.MatchString(in) {
		if n, err := strconv.ParseInt(in, 10, 64); err == nil {
			return guess{v: n, sure: true}
		}
	}
	if reDec.MatchString(in) {
		f, err := strconv.ParseFloat(in, 64)
		if err == nil && !math.IsInf(f, 0) {
			return guess{v: f, sure: true}
		}
		return guess{v: in, sure: true}
	}
	low := strings.ToLower(in)
	if strings.ContainsAny(in, "xX_") && strings.ContainsAny(in, "0123456789") {
		if _, err := strconv.ParseFloat(in, 64); err == nil {
			return guess{} // hexadecimal
		}
	}
	_ = low
	switch in[0] {
	case '@':
		text, ok := readFile(in[1:])
		if !ok {
			return guess{err: true, sure: true}
		}
		v, ok, sure := oneDoc(text)
		return guess{v: v, err: !ok, sure: sure}
	case '[', '{', '"':
		v, ok, sure := oneDoc(in)
		return guess{v: v, err: !ok, sure: sure}
	}
	return guess{v: in, sure: true}
}

func sameGuess(got, want any) bool {
	switch w := want.(type) {
	case int64:
		g, ok := got.(int64)
		if !ok {
			// the exact integer, whatever type carries it
			return canon(got) == canon(want) && fmt.Sprint(got) == fmt.Sprint(w)
		}
		return g == w
	case float64:
		g, ok := got.(float64)
		return ok && (g == w || math.Abs(g-w) == 0)
	case string:
		g, ok := got.(string)
		return ok && g == w
	case nil:
		return got == nil
	}
	return canon(got) == canon(want)
}

func genArg(rng *rand.Rand) string {
	switch rng.IntN(14) {
	case 0:
		return pick(rng, "", "true", "false", "null", "True", "nil", "NULL", "truely", "0", "-0", "+0", "00", "007", "-", "+", ".", "e", "1e", "--1", "1-1",
			"NaN", "nan", "inf", "-inf", "+Inf", "Infinity", "-infinity", "infinit", "1e309", "-1e400", "1e-400", "9223372036854775807", "9223372036854775808",
			"-9223372036854775808", "-9223372036854775809", "18446744073709551616", "9007199254740993", "1_000", "0x10", "0x1p-2", "1.", ".5", "+.5e-3", "5e+3", " 1", "1 ", "\n", "0b1", "１２")
	case 1:
		return strconv.FormatInt(int64(rng.Uint64())>>uint(rng.IntN(64)), 10)
	case 2:
		return strconv.FormatFloat(math.Float64frombits(rng.Uint64()), pick(rng, byte('g'), 'e', 'f'), -1, 64)
	case 3:
		s := strconv.FormatInt(int64(rng.Uint64()), 10)
		return s + strconv.FormatInt(int64(rng.Uint64()>>1), 10)
	case 4, 5:
		return rawJSONTrim(rng, genObject(rng, 3))
	case 6:
		return rawJSONTrim(rng, genList(rng, 3))
	case 7:
		return rawJSONTrim(rng, genString(rng))
	case 8:
		b := mutate(rng, []byte(rawJSONTrim(rng, pick[any](rng, genObject(rng, 2), genList(rng, 2), genString(rng)))))
		return string(b)
	case 9:
		return pick(rng, "[", "{", "\"", "[]", "{}", `""`, "[1", `{"a":}`, `"abc`, "[1,]", "[nan]", "{'a':1}", `{"a":1,"a":2}`, "[] []", `"\ud800"`, `"\x"`)
	case 10:
		b := make([]byte, rng.IntN(10))
		for i := range b {
			b[i] = byte(rng.IntN(256))
		}
		return string(b)
	default:
		return genString(rng)
	}
}

func rawJSONTrim(rng *rand.Rand, v any) string { return strings.TrimSpace(rawJSON(rng, v)) }

func driveC03(r *Run) {
	r.Rule("one argument text (literals, integers, floats, documents, mutated documents, @files, arbitrary bytes) per evaluation against a reference reading, plus lists with a bad element; non-trivial: distinct class of text and outcome")
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch, _ = os.MkdirTemp("", "c03")
		defer os.RemoveAll(scratch)
	}
	scratch, _ = filepath.Abs(scratch)
	os.Mkdir(filepath.Join(scratch, "adir"), 0o755)
	n := r.N(40000, 2000000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("arg", i)
		if i%12 == 11 {
			listC03(r, rng, i)
			continue
		}
		in := genArg(rng)
		if i%15 == 3 {
			in = fileArg(rng, scratch, i)
		}
		judgeC03(r, i, in)
	}
}

func fileArg(rng *rand.Rand, dir string, i int) string {
	switch rng.IntN(8) {
	case 0:
		return "@" + filepath.Join(dir, "missing", fmt.Sprint(i))
	case 1:
		return "@" + filepath.Join(dir, "adir")
	case 2:
		return "@"
	}
	name := filepath.Join(dir, fmt.Sprintf("f%d.json", i%50))
	if rng.IntN(4) == 0 {
		// names are taken as they are
		name = filepath.Join(dir, fmt.Sprintf(pick(rng, "f%d.json ", " f%d", "f %d.json", "f%d.json\t", "\"f%d\"", "@f%d", "f%%20%d", "~f%d", "$HOME%d"), i%50))
	}
	content := rawJSON(rng, genValue(rng, 3))
	if rng.IntN(4) == 0 {
		content = string(mutate(rng, []byte(content)))
	}
	if rng.IntN(10) == 0 {
		content = ""
	}
	os.WriteFile(name, []byte(content), 0o644)
	if rng.IntN(2) == 0 {
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, name); err == nil {
				return "@" + rel
			}
		}
	}
	return "@" + name
}

func readFile(path string) (string, bool) {
	data, err := os.ReadFile(path)
	return string(data), err == nil
}

func judgeC03(r *Run, i int, in string) {
	c := map[string]any{"i": i, "input": in, "quoted": fmt.Sprintf("%q", clip(in, 300))}
	var v any
	var err error
	if !r.Guard("C03", c, func() { v, err = jlib.GuessJson(in) }) {
		return
	}
	cls := "text"
	if in != "" {
		cls = string(in[0])
		if in[0] >= '0' && in[0] <= '9' {
			cls = "digit"
		} else if in[0] > '}' || in[0] >= 'a' || in[0] >= 'A' && in[0] <= 'Z' {
			cls = "letter"
		}
	}
	key := fmt.Sprintf("%s err=%v %s", cls, err != nil, shape(v))
	if err == nil {
		if _, merr := json.Marshal(v); merr != nil {
			r.Violate("C03:unencodable", c, "GuessJson(%q) = %v (%T) cannot be encoded: %v", in, v, v, merr)
		}
	}
	w := refGuess(in, readFile)
	if w.sure {
		r.Count("judged", 1)
		if w.err != (err != nil) {
			r.Violate("C03:verdict", c, "GuessJson(%q) = %v, %v; want error %v", in, v, err, w.err)
		} else if err == nil && !sameGuess(v, w.v) {
			r.Violate("C03:value", c, "GuessJson(%q) = %v (%T), want %v (%T)", in, v, v, w.v, w.v)
		}
	}
	r.Eval(key)
	if i%997 == 0 {
		r.Sample(c)
	}
}

func listC03(r *Run, rng *rand.Rand, i int) {
	n := rng.IntN(7)
	var args []string
	bad := -1
	for k := 0; k < n; k++ {
		a := genArg(rng)
		g := refGuess(a, readFile)
		if !g.sure {
			k--
			continue
		}
		if g.err && bad < 0 {
			bad = k
		}
		args = append(args, a)
	}
	c := map[string]any{"i": i, "args": args}
	var vs []any
	var err error
	if !r.Guard("C03:list", c, func() { vs, err = jlib.GuessJsonArray(args) }) {
		return
	}
	if (bad >= 0) != (err != nil) {
		r.Violate("C03:listverdict", c, "GuessJsonArray error %v, first bad argument %d", err, bad)
	} else if err == nil {
		if len(vs) != len(args) {
			r.Violate("C03:listlen", c, "%d values of %d arguments", len(vs), len(args))
		} else {
			for k, a := range args {
				if w := refGuess(a, readFile); !sameGuess(vs[k], w.v) {
					r.Violate("C03:listvalue", c, "argument %d %q is %v, want %v", k, a, vs[k], w.v)
				}
			}
		}
	}
	r.Eval(fmt.Sprintf("list n=%d bad=%d", n, bad))
}
