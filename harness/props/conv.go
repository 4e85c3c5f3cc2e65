package props

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
)

// A reference conversion of JSON values (decoded with UseNumber) to Go types.

type verdict int

const (
	vOK     verdict = iota // the type represents the value
	vBad                   // it can't
	vUnspec                // nobody says
)

func (v verdict) String() string { return [...]string{"ok", "bad", "unspec"}[v] }

func worse(a, b verdict) verdict {
	if a == vUnspec || b == vUnspec {
		// an unspecified part leaves the whole open unless another part is bad,
		// which part is looked at first is open too
		return vUnspec
	}
	if a == vBad || b == vBad {
		return vBad
	}
	return vOK
}

type Inner struct {
	X int       `json:"x"`
	Y string    `json:"y"`
	Z []float64 `json:"z"`
}

type Outer struct {
	Name   string         `json:"name"`
	In     Inner          `json:"in"`
	List   []Inner        `json:"list"`
	Dict   map[string]int `json:"dict"`
	Any    any            `json:"any"`
	Flag   bool           `json:"flag"`
	Ptr    *Inner         `json:"ptr"`
	Number float64        `json:"number"`
}

var convTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(false),
	reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf([]int(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf([]any(nil)),
	reflect.TypeOf([]float64(nil)), reflect.TypeOf([][]int(nil)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf(map[string]any(nil)), reflect.TypeOf(map[string][]string(nil)),
	reflect.TypeOf(Inner{}), reflect.TypeOf(Outer{}), reflect.TypeOf(&Inner{}), reflect.TypeOf([]Inner(nil)), reflect.TypeOf(map[string]Inner(nil)),
	reflect.TypeOf([]bool(nil)), reflect.TypeOf([]*Inner(nil)),
}

func convert(v any, t reflect.Type) (reflect.Value, verdict) {
	out := reflect.New(t).Elem()
	if t.Kind() == reflect.Interface {
		if v != nil {
			out.Set(reflect.ValueOf(v))
		}
		return out, vOK
	}
	if v == nil {
		return out, vUnspec
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int64:
		n, ok := v.(json.Number)
		if !ok {
			return out, vBad
		}
		i, err := strconv.ParseInt(string(n), 10, 64)
		if err != nil {
			if f, err := n.Float64(); err == nil && f == float64(int64(f)) && !isIntLit(n) {
				return out, vUnspec // 1.0
			}
			return out, vBad
		}
		out.SetInt(i)
		return out, vOK
	case reflect.Float64:
		n, ok := v.(json.Number)
		if !ok {
			return out, vBad
		}
		f, err := strconv.ParseFloat(string(n), 64)
		if err != nil {
			return out, vBad
		}
		out.SetFloat(f)
		return out, vOK
	case reflect.String:
		switch x := v.(type) {
		case string:
			out.SetString(x)
			return out, vOK
		case json.Number:
			return out, vUnspec
		}
		return out, vBad
	case reflect.Bool:
		b, ok := v.(bool)
		if !ok {
			return out, vBad
		}
		out.SetBool(b)
		return out, vOK
	case reflect.Slice:
		arr, ok := v.([]any)
		if !ok {
			return out, vBad
		}
		s := reflect.MakeSlice(t, len(arr), len(arr))
		res := vOK
		for i, e := range arr {
			ev, vd := convert(e, t.Elem())
			res = worse(res, vd)
			s.Index(i).Set(ev)
		}
		return s, res
	case reflect.Map:
		m, ok := v.(map[string]any)
		if !ok {
			return out, vBad
		}
		mm := reflect.MakeMap(t)
		res := vOK
		for k, e := range m {
			ev, vd := convert(e, t.Elem())
			res = worse(res, vd)
			mm.SetMapIndex(reflect.ValueOf(k), ev)
		}
		return mm, res
	case reflect.Ptr:
		ev, vd := convert(v, t.Elem())
		p := reflect.New(t.Elem())
		p.Elem().Set(ev)
		return p, vd
	case reflect.Struct:
		m, ok := v.(map[string]any)
		if !ok {
			return out, vBad
		}
		res := vOK
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if e, ok := m[f.Tag.Get("json")]; ok {
				if e == nil {
					continue // nothing to set
				}
				ev, vd := convert(e, f.Type)
				res = worse(res, vd)
				out.Field(i).Set(ev)
			}
		}
		return out, res
	}
	panic("convert to " + t.String())
}

// eqv compares two Go values, nil and empty containers are the same.
func eqv(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqv(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqv(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() || !eqv(a.MapIndex(k), bv) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() && !eqv(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// genFor makes a value for t: mostly fitting, sometimes off in one place.
func genFor(rng *rand.Rand, t reflect.Type, off int) any {
	if off > 0 && rng.IntN(off) == 0 {
		return genValue(rng, 2)
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int64:
		if rng.IntN(6) == 0 {
			return json.Number(pick(rng, "9223372036854775807", "-9223372036854775808", "0", "-1", "9007199254740993"))
		}
		return json.Number(strconv.Itoa(rng.IntN(2000) - 1000))
	case reflect.Float64:
		for {
			n := genNumber(rng)
			if _, err := n.Float64(); err == nil {
				return n
			}
		}
	case reflect.String:
		return genString(rng)
	case reflect.Bool:
		return rng.IntN(2) == 0
	case reflect.Interface:
		return genValue(rng, 2)
	case reflect.Slice:
		n := rng.IntN(4)
		arr := make([]any, 0, n)
		for i := 0; i < n; i++ {
			arr = append(arr, genFor(rng, t.Elem(), off))
		}
		return arr
	case reflect.Map:
		m := map[string]any{}
		for i := rng.IntN(4); i > 0; i-- {
			m[genString(rng)] = genFor(rng, t.Elem(), off)
		}
		return m
	case reflect.Ptr:
		return genFor(rng, t.Elem(), off)
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < t.NumField(); i++ {
			if rng.IntN(3) != 0 {
				m[t.Field(i).Tag.Get("json")] = genFor(rng, t.Field(i).Type, off)
			}
		}
		if rng.IntN(4) == 0 {
			m["surplus"] = genValue(rng, 1)
		}
		return m
	}
	panic("genFor " + t.String())
}

func goText(v reflect.Value) string {
	if !v.IsValid() {
		return "<invalid>"
	}
	d, err := json.Marshal(v.Interface())
	if err != nil {
		return fmt.Sprintf("%#v", v.Interface())
	}
	return string(d)
}
