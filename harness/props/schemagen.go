package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
)

// sch is the reference abstract syntax of a schema.
type sch struct {
	Kind       string // string number integer bool any null anyOf allOf not list tuple object method
	Name, Desc string
	Min, Max   json.Number
	ExMin      *bool
	ExMax      *bool
	MinN, MaxN *int
	Kids       []*sch // choices, tuple items, params, list item, not child
	Add        *sch   // additional items, params, properties
	Props      map[string]*sch
	Req        map[string]bool
	Ret        *sch

	short    bool // written as a bare type name
	untyped  bool // type left out
	noReq    bool
	badExtra bool
}

var leafKinds = []string{"string", "number", "integer", "bool", "any", "null"}
var propNames = []string{"a", "b", "aaa", "type", "name", "items", "properties", "x.y", "[0]", "params", "result", "not", "anyOf", "requires", "Ünï", "with space", "minLength", "A"}

func bp(b bool) *bool { return &b }
func ip(n int) *int   { return &n }

func genBound(rng *rand.Rand, integer bool) json.Number {
	n := rng.IntN(21) - 10
	if rng.IntN(8) == 0 {
		// far out: integers which no float64 holds, floats of all sizes
		if integer {
			n := pick(rng, int64(1)<<53, int64(1)<<62, math.MaxInt64-4, int64(1)<<31) + int64(rng.IntN(8)-4)
			if rng.IntN(2) == 0 {
				n = -n
			}
			return json.Number(strconv.FormatInt(n, 10))
		}
		return json.Number(pick(rng, "1e2", "-3E-7", "0.1", "1.5e300", "4611686018427387904", "-9007199254740992", "2.5e-300", "1e15"))
	}
	if !integer && rng.IntN(2) == 0 {
		return json.Number(strconv.Itoa(n) + "." + pick(rng, "5", "25", "75"))
	}
	return json.Number(strconv.Itoa(n))
}

type schOpts struct {
	meta     bool // names and descriptions
	loneEx   bool // exclusive flags without bounds
	noMethod bool
}

func genSch(rng *rand.Rand, depth int, o schOpts, top bool) *sch {
	s := &sch{}
	k := rng.IntN(14)
	if depth <= 0 || !top && rng.IntN(4) == 0 {
		k = rng.IntN(6)
	}
	switch {
	case k < 6:
		s.Kind = leafKinds[k]
	case k == 6:
		s.Kind = "anyOf"
	case k == 7:
		s.Kind = "allOf"
	case k == 8:
		s.Kind = "not"
	case k == 9:
		s.Kind = "list"
	case k == 10:
		s.Kind = "tuple"
	case k < 13 || o.noMethod || !top && rng.IntN(3) != 0:
		s.Kind = "object"
	default:
		s.Kind = "method"
	}
	return fillSch(rng, s, depth, o)
}

func fillSch(rng *rand.Rand, s *sch, depth int, o schOpts) *sch {
	if o.meta && rng.IntN(3) == 0 {
		s.Name = pick(rng, "n", "some name", "ñ", "type", "x\"y")
	}
	if o.meta && rng.IntN(3) == 0 {
		s.Desc = pick(rng, "d", "a description\nof two lines", "é: {}", "# no comment")
	}
	sub := func() *sch { return genSch(rng, depth-1, o, false) }
	switch s.Kind {
	case "number", "integer":
		in := s.Kind == "integer"
		if rng.IntN(2) == 0 {
			s.Min = genBound(rng, in)
		}
		if rng.IntN(2) == 0 {
			s.Max = genBound(rng, in)
		}
		if rng.IntN(2) == 0 && (s.Min != "" || o.loneEx) {
			s.ExMin = bp(rng.IntN(3) != 0)
		}
		if rng.IntN(2) == 0 && (s.Max != "" || o.loneEx) {
			s.ExMax = bp(rng.IntN(3) != 0)
		}
	case "string":
		if rng.IntN(2) == 0 {
			s.MinN = ip(rng.IntN(5))
		}
		if rng.IntN(2) == 0 {
			s.MaxN = ip(rng.IntN(8))
		}
	case "anyOf", "allOf":
		n := rng.IntN(4)
		for i := 0; i < n; i++ {
			s.Kids = append(s.Kids, sub())
		}
	case "not":
		s.Kids = []*sch{sub()}
	case "list":
		s.Kids = []*sch{sub()}
		if rng.IntN(3) == 0 {
			s.MinN = ip(rng.IntN(3))
		}
		if rng.IntN(3) == 0 {
			s.MaxN = ip(rng.IntN(5))
		}
	case "tuple":
		for i := rng.IntN(4); i > 0; i-- {
			s.Kids = append(s.Kids, sub())
		}
		if rng.IntN(2) == 0 {
			s.Add = sub()
		}
	case "object":
		s.Props, s.Req = map[string]*sch{}, map[string]bool{}
		for i := rng.IntN(5); i > 0; i-- {
			p := propNames[rng.IntN(len(propNames))]
			s.Props[p] = sub()
			if rng.IntN(2) == 0 {
				s.Req[p] = true
			}
		}
		if rng.IntN(3) == 0 {
			s.Add = sub()
		}
		s.noReq = len(s.Req) == 0 && rng.IntN(2) == 0
	case "method":
		for i := rng.IntN(4); i > 0; i-- {
			s.Kids = append(s.Kids, sub())
		}
		if rng.IntN(2) == 0 {
			s.Add = sub()
		}
		if rng.IntN(2) == 0 {
			s.Ret = sub()
		}
	}
	switch s.Kind {
	case "string", "number", "integer", "bool", "null":
		plain := s.Name == "" && s.Desc == "" && s.Min == "" && s.Max == "" && s.ExMin == nil && s.ExMax == nil && s.MinN == nil && s.MaxN == nil
		s.short = plain && rng.IntN(2) == 0
	case "anyOf", "allOf", "not", "object", "method":
		s.untyped = rng.IntN(2) == 0
		if s.untyped {
			// the type is inferred from the members, which must not mislead
			if s.Kind == "object" && len(s.Props) == 0 && rng.IntN(2) == 0 {
				s.untyped = false
			}
		}
	}
	return s
}

// doc is the description of s.  A bare top level type is only a string.
func (s *sch) doc() any {
	if s.short {
		return s.Kind
	}
	m := map[string]any{}
	kind := s.Kind
	if kind == "tuple" {
		kind = "list"
	}
	if !s.untyped {
		m["type"] = kind
	}
	if s.Name != "" {
		m["name"] = s.Name
	}
	if s.Desc != "" {
		m["description"] = s.Desc
	}
	list := func(l []*sch) []any {
		out := []any{}
		for _, k := range l {
			out = append(out, k.doc())
		}
		return out
	}
	num := func(n int) json.Number { return json.Number(strconv.Itoa(n)) }
	switch s.Kind {
	case "number", "integer":
		if s.Min != "" {
			m["minimum"] = s.Min
		}
		if s.Max != "" {
			m["maximum"] = s.Max
		}
		if s.ExMin != nil {
			m["exclusiveMinimum"] = *s.ExMin
		}
		if s.ExMax != nil {
			m["exclusiveMaximum"] = *s.ExMax
		}
	case "string":
		if s.MinN != nil {
			m["minLength"] = num(*s.MinN)
		}
		if s.MaxN != nil {
			m["maxLength"] = num(*s.MaxN)
		}
	case "anyOf", "allOf":
		m[s.Kind] = list(s.Kids)
	case "not":
		m["not"] = s.Kids[0].doc()
	case "list":
		m["items"] = s.Kids[0].doc()
		if s.MinN != nil {
			m["minItems"] = num(*s.MinN)
		}
		if s.MaxN != nil {
			m["maxItems"] = num(*s.MaxN)
		}
	case "tuple":
		m["items"] = list(s.Kids)
		if s.Add != nil {
			m["additionalItems"] = s.Add.doc()
		}
	case "object":
		p := map[string]any{}
		for k, v := range s.Props {
			p[k] = v.doc()
		}
		m["properties"] = p
		if !s.noReq {
			req := []any{}
			for _, k := range sortedKeys(s.Req) {
				req = append(req, k)
			}
			m["requires"] = req
		}
		if s.Add != nil {
			m["additionalProperties"] = s.Add.doc()
		}
	case "method":
		m["params"] = list(s.Kids)
		if s.Add != nil {
			m["additionalParams"] = s.Add.doc()
		}
		if s.Ret != nil {
			m["returns"] = s.Ret.doc()
		}
	}
	return m
}

func sortedKeys[T any](m map[string]T) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// norm is a canonical text of the meaning of s.
func (s *sch) norm() string {
	if s == nil {
		return "-"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(%s %q %q", s.Kind, s.Name, s.Desc)
	num := func(t string, n json.Number) {
		if n != "" && s.Kind == "integer" {
			fmt.Fprintf(&b, " %s=%s", t, n)
		} else if n != "" {
			f, _ := n.Float64()
			fmt.Fprintf(&b, " %s=%v", t, f)
		}
	}
	num("min", s.Min)
	num("max", s.Max)
	if s.ExMin != nil {
		fmt.Fprintf(&b, " xmin=%v", *s.ExMin)
	}
	if s.ExMax != nil {
		fmt.Fprintf(&b, " xmax=%v", *s.ExMax)
	}
	if s.MinN != nil {
		fmt.Fprintf(&b, " minn=%d", *s.MinN)
	}
	if s.MaxN != nil {
		fmt.Fprintf(&b, " maxn=%d", *s.MaxN)
	}
	for _, k := range s.Kids {
		b.WriteString(" " + k.norm())
	}
	if s.Kind == "tuple" || s.Kind == "object" || s.Kind == "method" {
		b.WriteString(" add=" + s.Add.norm())
	}
	if s.Kind == "object" {
		for _, k := range sortedKeys(s.Props) {
			fmt.Fprintf(&b, " %q:%s", k, s.Props[k].norm())
		}
		fmt.Fprintf(&b, " req=%q", sortedKeys(s.Req))
	}
	if s.Kind == "method" {
		if s.Ret == nil {
			b.WriteString(" ret=(any \"\" \"\")")
		} else {
			b.WriteString(" ret=" + s.Ret.norm())
		}
	}
	b.WriteString(")")
	return b.String()
}

// parseSch reads a well-formed description back into the abstract syntax.
func parseSch(doc any) (*sch, error) {
	if t, ok := doc.(string); ok {
		return &sch{Kind: t}, nil
	}
	m, ok := doc.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("not an object: %v", doc)
	}
	s := &sch{}
	t, _ := m["type"].(string)
	if _, has := m["type"]; !has {
		for _, p := range [][2]string{{"params", "method"}, {"properties", "object"}, {"anyOf", "anyOf"}, {"allOf", "allOf"}, {"not", "not"}} {
			if _, ok := m[p[0]]; ok {
				t = p[1]
				break
			}
		}
	}
	s.Kind = t
	s.Name, _ = m["name"].(string)
	s.Desc, _ = m["description"].(string)
	var err error
	kid := func(v any) *sch {
		k, e := parseSch(v)
		if e != nil && err == nil {
			err = e
		}
		return k
	}
	list := func(v any) (out []*sch) {
		arr, _ := v.([]any)
		for _, e := range arr {
			out = append(out, kid(e))
		}
		return
	}
	bound := func(n string) json.Number {
		if v, ok := m[n].(json.Number); ok {
			return v
		}
		return ""
	}
	flag := func(n string) *bool {
		if v, ok := m[n].(bool); ok {
			return &v
		}
		return nil
	}
	count := func(n string) *int {
		if v, ok := m[n].(json.Number); ok {
			if i, err := strconv.Atoi(string(v)); err == nil {
				return &i
			}
		}
		return nil
	}
	opt := func(n string) *sch {
		if v, ok := m[n]; ok {
			return kid(v)
		}
		return nil
	}
	switch t {
	case "number", "integer":
		s.Min, s.Max, s.ExMin, s.ExMax = bound("minimum"), bound("maximum"), flag("exclusiveMinimum"), flag("exclusiveMaximum")
	case "string":
		s.MinN, s.MaxN = count("minLength"), count("maxLength")
	case "anyOf", "allOf":
		s.Kids = list(m[t])
	case "not":
		s.Kids = []*sch{kid(m["not"])}
	case "list":
		if arr, ok := m["items"].([]any); ok {
			s.Kind = "tuple"
			s.Kids = list(arr)
			s.Add = opt("additionalItems")
		} else {
			s.Kids = []*sch{kid(m["items"])}
			s.MinN, s.MaxN = count("minItems"), count("maxItems")
		}
	case "object":
		s.Props, s.Req = map[string]*sch{}, map[string]bool{}
		props, _ := m["properties"].(map[string]any)
		for k, v := range props {
			s.Props[k] = kid(v)
		}
		reqs, _ := m["requires"].([]any)
		for _, q := range reqs {
			qs, _ := q.(string)
			s.Req[qs] = true
		}
		s.Add = opt("additionalProperties")
	case "method":
		s.Kids = list(m["params"])
		s.Add = opt("additionalParams")
		s.Ret = opt("returns")
	case "bool", "any", "null":
	default:
		return nil, fmt.Errorf("unknown type %q", t)
	}
	return s, err
}

// --- reference validation ---

// viol adds the paths where v violates s.
func (s *sch) viol(v any, p string, out map[string]bool) {
	switch s.Kind {
	case "any":
	case "null":
		if v != nil {
			out[p] = true
		}
	case "bool":
		if _, ok := v.(bool); !ok {
			out[p] = true
		}
	case "string":
		x, ok := v.(string)
		if !ok || s.MinN != nil && len(x) < *s.MinN || s.MaxN != nil && len(x) > *s.MaxN {
			out[p] = true
		}
	case "number", "integer":
		var f float64
		switch x := v.(type) {
		case json.Number:
			if s.Kind == "integer" && !isIntLit(x) {
				out[p] = true
				return
			}
			f, _ = x.Float64()
		case int:
			f = float64(x)
		case float64:
			if s.Kind == "integer" {
				out[p] = true
				return
			}
			f = x
		default:
			out[p] = true
			return
		}
		if s.Kind == "integer" {
			// exactly
			var z *big.Int
			switch x := v.(type) {
			case json.Number:
				z, _ = new(big.Int).SetString(string(x), 10)
			case int:
				z = big.NewInt(int64(x))
			}
			if s.Min != "" {
				b, _ := new(big.Int).SetString(string(s.Min), 10)
				if c := z.Cmp(b); c < 0 || c == 0 && s.ExMin != nil && *s.ExMin {
					out[p] = true
				}
			}
			if s.Max != "" {
				b, _ := new(big.Int).SetString(string(s.Max), 10)
				if c := z.Cmp(b); c > 0 || c == 0 && s.ExMax != nil && *s.ExMax {
					out[p] = true
				}
			}
			return
		}
		if s.Min != "" {
			b, _ := s.Min.Float64()
			if f < b || f == b && s.ExMin != nil && *s.ExMin {
				out[p] = true
			}
		}
		if s.Max != "" {
			b, _ := s.Max.Float64()
			if f > b || f == b && s.ExMax != nil && *s.ExMax {
				out[p] = true
			}
		}
	case "anyOf":
		sub := map[string]bool{}
		for _, k := range s.Kids {
			n := map[string]bool{}
			k.viol(v, p, n)
			if len(n) == 0 {
				return
			}
			for q := range n {
				sub[q] = true
			}
		}
		out[p] = true
		for q := range sub {
			out[q] = true
		}
	case "allOf":
		for _, k := range s.Kids {
			k.viol(v, p, out)
		}
	case "not":
		n := map[string]bool{}
		s.Kids[0].viol(v, p, n)
		if len(n) == 0 {
			out[p] = true
		}
	case "list":
		arr, ok := v.([]any)
		if !ok {
			out[p] = true
			return
		}
		if s.MinN != nil && len(arr) < *s.MinN || s.MaxN != nil && len(arr) > *s.MaxN {
			out[p] = true
		}
		for i, e := range arr {
			s.Kids[0].viol(e, fmt.Sprintf("%s[%d]", p, i), out)
		}
	case "tuple":
		arr, ok := v.([]any)
		if !ok {
			out[p] = true
			return
		}
		violItems(s, arr, p, out)
	case "object":
		m, ok := v.(map[string]any)
		if !ok {
			out[p] = true
			return
		}
		for k, ks := range s.Props {
			if e, ok := m[k]; ok {
				ks.viol(e, p+"."+k, out)
			} else if s.Req[k] {
				out[p+"."+k] = true
			}
		}
		if s.Add != nil {
			for k, e := range m {
				if _, ok := s.Props[k]; !ok {
					s.Add.viol(e, p+"."+k, out)
				}
			}
		}
	case "method":
		m, ok := v.(map[string]any)
		if !ok {
			out[p] = true
			return
		}
		if arr, ok := m["params"].([]any); ok {
			violItems(s, arr, p+".params", out)
			return
		}
		if res, ok := m["result"]; ok {
			if s.Ret != nil {
				s.Ret.viol(res, p+".result", out)
			}
			return
		}
		out[p] = true
	default:
		panic("viol " + s.Kind)
	}
}

func violItems(s *sch, arr []any, p string, out map[string]bool) {
	if len(arr) < len(s.Kids) || len(arr) > len(s.Kids) && s.Add == nil {
		out[p] = true
	}
	for i, e := range arr {
		q := fmt.Sprintf("%s[%d]", p, i)
		if i < len(s.Kids) {
			s.Kids[i].viol(e, q, out)
		} else if s.Add != nil {
			s.Add.viol(e, q, out)
		}
	}
}

func (s *sch) check(v any) map[string]bool {
	out := map[string]bool{}
	s.viol(v, "", out)
	return out
}

// --- values for schemas ---

func asciiString(rng *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(byte(' ' + rng.IntN(95)))
	}
	return b.String()
}

// schValue makes a JSON value whose numbers are plain integers or plain
// fractions and whose strings are ASCII, so that all readings agree.
func schValue(rng *rand.Rand, depth int) any {
	k := rng.IntN(9)
	if depth <= 0 {
		k = rng.IntN(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rng.IntN(2) == 0
	case 2:
		return json.Number(strconv.Itoa(rng.IntN(31) - 15))
	case 3:
		return json.Number(strconv.Itoa(rng.IntN(21)-10) + "." + pick(rng, "5", "25", "125"))
	case 4, 5:
		return asciiString(rng, rng.IntN(9))
	case 6, 7:
		arr := []any{}
		for i := rng.IntN(4); i > 0; i-- {
			arr = append(arr, schValue(rng, depth-1))
		}
		return arr
	}
	m := map[string]any{}
	for i := rng.IntN(4); i > 0; i-- {
		m[propNames[rng.IntN(len(propNames))]] = schValue(rng, depth-1)
	}
	return m
}

// fit makes a value that tends to satisfy s, off>0 spoils parts of it.
func (s *sch) fit(rng *rand.Rand, off int) any {
	if off > 0 && rng.IntN(off) == 0 {
		return schValue(rng, 2)
	}
	switch s.Kind {
	case "null":
		return nil
	case "bool":
		return rng.IntN(2) == 0
	case "string":
		lo, hi := 0, 8
		if s.MinN != nil {
			lo = *s.MinN
		}
		if s.MaxN != nil {
			hi = *s.MaxN
		}
		n := lo
		if hi > lo {
			n = pick(rng, lo, hi, lo+rng.IntN(hi-lo+1))
		}
		if off > 0 && rng.IntN(off) == 0 {
			n = pick(rng, hi+1, max(0, lo-1))
		}
		return asciiString(rng, n)
	case "integer":
		b := pick(rng, s.Min, s.Max)
		if b == "" {
			b = s.Min + s.Max
		}
		base, _ := b.Int64()
		return json.Number(strconv.FormatInt(base+int64(pick(rng, -1, 0, 0, 1)), 10))
	case "number":
		base := 0.0
		if b := pick(rng, s.Min, s.Max); b != "" {
			base, _ = b.Float64()
		} else if s.Min != "" {
			base, _ = s.Min.Float64()
		} else if s.Max != "" {
			base, _ = s.Max.Float64()
		}
		d := pick(rng, -0.5, -0.25, 0, 0, 0.25, 0.5, 1)
		if abs := math.Abs(base); abs != 0 && (abs < 1e-3 || abs > 1e14) {
			f := base
			switch rng.IntN(4) {
			case 0:
				f = math.Nextafter(base, math.Inf(1))
			case 1:
				f = math.Nextafter(base, math.Inf(-1))
			}
			t := strconv.FormatFloat(f, 'g', -1, 64)
			if abs > 1e14 && abs < 1e18 && rng.IntN(2) == 0 {
				t = strconv.FormatFloat(f, 'f', -1, 64)
			}
			return json.Number(t)
		}
		return json.Number(strconv.FormatFloat(base+d, 'f', -1, 64))
	case "anyOf":
		if len(s.Kids) > 0 {
			return s.Kids[rng.IntN(len(s.Kids))].fit(rng, off)
		}
	case "allOf":
		if len(s.Kids) > 0 {
			return s.Kids[rng.IntN(len(s.Kids))].fit(rng, off)
		}
	case "list":
		lo, hi := 0, 3
		if s.MinN != nil {
			lo = *s.MinN
		}
		if s.MaxN != nil {
			hi = *s.MaxN
		}
		n := lo
		if hi > lo {
			n = lo + rng.IntN(hi-lo+1)
		}
		if off > 0 && rng.IntN(off) == 0 {
			n = pick(rng, hi+1, max(0, lo-1))
		}
		arr := []any{}
		for i := 0; i < n; i++ {
			arr = append(arr, s.Kids[0].fit(rng, off))
		}
		return arr
	case "tuple":
		return s.fitItems(rng, off)
	case "object":
		m := map[string]any{}
		for _, k := range sortedKeys(s.Props) {
			if s.Req[k] && !(off > 0 && rng.IntN(off*2) == 0) || rng.IntN(2) == 0 {
				m[k] = s.Props[k].fit(rng, off)
			}
		}
		if rng.IntN(2) == 0 {
			k := propNames[rng.IntN(len(propNames))]
			if _, ok := s.Props[k]; !ok {
				if s.Add != nil {
					m[k] = s.Add.fit(rng, off)
				} else {
					m[k] = schValue(rng, 1)
				}
			}
		}
		return m
	case "method":
		if rng.IntN(3) == 0 {
			if s.Ret != nil {
				return map[string]any{"result": s.Ret.fit(rng, off), "id": json.Number("1")}
			}
			return map[string]any{"result": schValue(rng, 1)}
		}
		return map[string]any{"method": "m", "params": s.fitItems(rng, off)}
	}
	return schValue(rng, 2)
}

func (s *sch) fitItems(rng *rand.Rand, off int) []any {
	arr := []any{}
	for _, k := range s.Kids {
		arr = append(arr, k.fit(rng, off))
	}
	if s.Add != nil {
		for i := rng.IntN(3); i > 0; i-- {
			arr = append(arr, s.Add.fit(rng, off))
		}
	}
	if off > 0 && rng.IntN(off) == 0 {
		if len(arr) > 0 && rng.IntN(2) == 0 {
			arr = arr[:len(arr)-1]
		} else {
			arr = append(arr, schValue(rng, 1))
		}
	}
	return arr
}

// kinds lists the schema kinds used in s.
func (s *sch) kinds(out map[string]bool) {
	if s == nil {
		return
	}
	out[s.Kind] = true
	for _, k := range s.Kids {
		k.kinds(out)
	}
	for _, k := range s.Props {
		k.kinds(out)
	}
	s.Add.kinds(out)
	s.Ret.kinds(out)
}

func (s *sch) sketch() string {
	if s == nil {
		return ""
	}
	b := s.Kind[:2]
	if s.Min != "" {
		b += "<"
	}
	if s.Max != "" {
		b += ">"
	}
	if s.MinN != nil {
		b += "l"
	}
	if s.MaxN != nil {
		b += "m"
	}
	for _, k := range s.Kids {
		b += "(" + k.sketch() + ")"
	}
	for _, k := range sortedKeys(s.Props) {
		b += "{" + s.Props[k].sketch() + "}"
	}
	if s.Add != nil {
		b += "+" + s.Add.sketch()
	}
	if s.Ret != nil {
		b += "=" + s.Ret.sketch()
	}
	return b
}
