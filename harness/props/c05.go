package props

import (
	"fmt"
	"math/rand/v2"
	"reflect"

	"github.com/superisaac/jlib"
)

type ptA struct {
	A int
	B string
	C []int
}
type ptB struct {
	First  map[string]int
	hidden int
	Second Inner
	Third  any
	Fourth bool
}
type ptC struct {
	F float64 `json:"f"`
	S []Inner
	O Outer
	P *Inner
	N int64
	L [][]int
	X any
}
type ptD struct {
	a int
	B []string
	c string
	D map[string][]string
	E []any
}

var paramStructs = []reflect.Type{reflect.TypeOf(ptA{}), reflect.TypeOf(ptB{}), reflect.TypeOf(ptC{}), reflect.TypeOf(ptD{})}

func driveC05(r *Run) {
	r.Rule("param lists decoded into structs (fewer, equal, surplus, nulls, one misfit) and JSON results decoded into typed targets, against a reference conversion; non-trivial: distinct (target type, value shape, verdict)")
	n := r.N(60000, 2500000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("dec", i)
		if i%2 == 0 {
			paramsC05(r, rng, i)
		} else {
			resultC05(r, rng, i)
		}
	}
}

func setSentinel(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.Int, reflect.Int64:
			f.SetInt(7777)
		case reflect.String:
			f.SetString("sentinel")
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Float64:
			f.SetFloat(77.75)
		case reflect.Interface:
			f.Set(reflect.ValueOf("sentinel"))
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 2, 2))
		case reflect.Map:
			f.Set(reflect.MakeMap(f.Type()))
			f.SetMapIndex(reflect.ValueOf("sentinel"), reflect.Zero(f.Type().Elem()))
		}
	}
}

func paramsC05(r *Run, rng *rand.Rand, i int) {
	t := paramStructs[rng.IntN(len(paramStructs))]
	var fields []int
	for k := 0; k < t.NumField(); k++ {
		if t.Field(k).IsExported() {
			fields = append(fields, k)
		}
	}
	np := rng.IntN(len(fields) + 3)
	off := pick(rng, 0, 0, 8, 30)
	params := make([]any, 0, np)
	for k := 0; k < np; k++ {
		if k < len(fields) {
			params = append(params, genFor(rng, t.Field(fields[k]).Type, off))
		} else {
			params = append(params, genValue(rng, 1))
		}
		if rng.IntN(25) == 0 {
			params[k] = nil
		}
	}
	keep := deepCopy(params).([]any)
	out := reflect.New(t)
	sentinel := rng.IntN(2) == 0
	want := reflect.New(t).Elem()
	if sentinel {
		setSentinel(out.Elem())
		setSentinel(want)
	}
	vd := vOK
	key := t.Name()
	for k, f := range fields {
		if k >= np {
			break
		}
		if params[k] == nil && t.Field(f).Type.Kind() != reflect.Interface {
			vd = worse(vd, vUnspec)
			continue
		}
		v, d := convert(params[k], t.Field(f).Type)
		vd = worse(vd, d)
		want.Field(f).Set(v)
		key += " " + shape1(params[k])
	}
	c := map[string]any{"i": i, "struct": t.String(), "params": params, "sentinel": sentinel}
	var err error
	if !r.Guard("C05", c, func() { err = jlib.DecodeParams(params, out.Interface()) }) {
		return
	}
	if canon(params) != canon(keep) {
		r.Violate("C05:params", c, "decoding changed the params")
	}
	switch {
	case vd == vBad && err == nil:
		r.Violate("C05:accept", c, "a misfitting param is accepted: %+v", out.Elem().Interface())
	case vd == vOK && err != nil:
		r.Violate("C05:refuse", c, "fitting params are refused: %v", err)
	case vd == vOK && !eqv(out.Elem(), want):
		r.Violate("C05:value", c, "decoded %+v, want %+v", out.Elem().Interface(), want.Interface())
	}
	r.Count("params_"+vd.String(), 1)
	r.Eval(key + " " + vd.String())
	if i%997 == 0 {
		r.Sample(c)
	}
	if i%50 == 0 {
		// not pointers to structs
		for _, o := range []any{ptA{}, new(int), "x", []int{}, new([]any)} {
			r.Guard("C05:target", c, func() {
				if jlib.DecodeParams(params, o) == nil {
					r.Violate("C05:target", c, "DecodeParams accepts a %T", o)
				}
			})
		}
	}
}

func resultC05(r *Run, rng *rand.Rand, i int) {
	t := convTypes[rng.IntN(len(convTypes))]
	v := genFor(rng, t, pick(rng, 0, 0, 8, 30))
	if rng.IntN(10) == 0 {
		v = genValue(rng, 3)
	}
	want, vd := convert(v, t)
	out := reflect.New(t)
	keep := deepCopy(v)
	c := map[string]any{"i": i, "type": t.String(), "value": v}
	var err error
	if !r.Guard("C05", c, func() { err = jlib.DecodeInterface(v, out.Interface()) }) {
		return
	}
	if canon(v) != canon(keep) {
		r.Violate("C05:input", c, "decoding changed the value")
	}
	switch {
	case vd == vBad && err == nil:
		r.Violate("C05:acceptresult", c, "%s accepted as %s: %s", canon(v), t, goText(out.Elem()))
	case vd == vOK && err != nil:
		r.Violate("C05:refuseresult", c, "%s refused as %s: %v", canon(v), t, err)
	case vd == vOK && !eqv(out.Elem(), want):
		r.Violate("C05:resultvalue", c, "%s decoded as %s, want %s", canon(v), goText(out.Elem()), goText(want))
	}
	r.Count("result_"+vd.String(), 1)
	r.Eval(fmt.Sprintf("%s %s %s", t, shape(v), vd))
}
