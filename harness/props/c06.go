package props

import (
	"encoding/json"
	"fmt"
	"sync"

	"math/rand/v2"

	jlibschema "github.com/superisaac/jlib/schema"
)

func driveC06(r *Run) {
	r.Rule("random schemas of all kinds with values made to fit or miss them by one spot, through one validator reused over all values, fresh validators, ValidateBytes and concurrent use, against a reference validator; non-trivial: distinct (schema structure, verdict)")
	r.Assume("numbers of generated values are plain integers or fractions and strings are ASCII, where the language leaves no choice")
	n := r.N(9000, 400000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("schema", i)
		s := genSch(rng, 1+rng.IntN(4), schOpts{loneEx: true}, true)
		raw := rawJSON(rng, s.doc())
		c := map[string]any{"i": i, "schema": raw}
		r.Guard("C06", c, func() { oneC06(r, rng, i, s, raw, c) })
	}
}

func native(rng *rand.Rand, v any) any {
	// numbers as Go callers hold them
	switch x := v.(type) {
	case json.Number:
		if isIntLit(x) {
			if n, err := x.Int64(); err == nil {
				return int(n)
			}
		}
		f, _ := x.Float64()
		return f
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = native(rng, e)
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = native(rng, e)
		}
		return out
	}
	return v
}

func oneC06(r *Run, rng *rand.Rand, i int, s *sch, raw string, c map[string]any) {
	b := jlibschema.NewSchemaBuilder()
	js, err := b.BuildBytes([]byte(raw))
	if err != nil {
		r.Violate("C06:build", c, "valid schema refused: %v", err)
		return
	}
	before := exportNorm(js)
	shared := jlibschema.NewSchemaValidator()
	type probe struct {
		v    any
		ok   bool
		path string
	}
	var probes []probe
	var kept []*jlibschema.ErrorPos
	var keptPath []string
	nv := 4 + rng.IntN(8)
	for k := 0; k < nv; k++ {
		var v any
		switch rng.IntN(4) {
		case 0:
			v = schValue(rng, 3)
		case 1:
			v = s.fit(rng, 0)
		default:
			v = s.fit(rng, 3+rng.IntN(8))
		}
		want := s.check(v)
		keep := canon(v)
		cc := map[string]any{"i": i, "schema": raw, "value": v}
		judge := func(how string, e *jlibschema.ErrorPos) {
			if (e == nil) != (len(want) == 0) {
				r.Violate("C06:verdict", cc, "%s: validator says %v, violated at %v", how, e, sortedKeys(want))
			} else if e != nil && !want[e.Path()] {
				r.Violate("C06:path", cc, "%s: rejected at %q, really violated at %q", how, e.Path(), sortedKeys(want))
			}
		}
		fresh := jlibschema.NewSchemaValidator()
		e1 := fresh.Validate(js, v)
		judge("fresh", e1)
		e2 := shared.Validate(js, v)
		judge("reused", e2)
		if e2 != nil {
			kept, keptPath = append(kept, e2), append(keptPath, e2.Path())
		}
		if canon(v) != keep {
			r.Violate("C06:value", cc, "validation changed the value to %s", canon(v))
		}
		text := rawJSON(rng, v)
		judge("bytes", jlibschema.NewSchemaValidator().ValidateBytes(js, []byte(text)))
		judge("reused bytes", shared.ValidateBytes(js, []byte(text)))
		nv := native(rng, v)
		judge("native", shared.Validate(js, nv))
		p := probe{v: v, ok: e1 == nil}
		if e1 != nil {
			p.path = e1.Path()
			// a second error must not change what the first says
			for q, e := range kept {
				if e.Path() != keptPath[q] {
					r.Violate("C06:errpos", cc, "error at %q turned into %q by later validations", keptPath[q], e.Path())
				}
			}
		}
		probes = append(probes, p)
		r.Eval(fmt.Sprintf("%s %v", s.sketch(), e1 == nil))
		if e1 == nil {
			r.Count("accepted", 1)
		} else {
			r.Count("rejected", 1)
		}
	}
	if after := exportNorm(js); after != before {
		r.Violate("C06:schema", c, "validation changed the schema from %s to %s", before, after)
	}
	if i%8 == 0 {
		var wg sync.WaitGroup
		bad := make(chan string, 64)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad <- fmt.Sprintf("panic %v", p)
					}
				}()
				val := jlibschema.NewSchemaValidator()
				for k := range probes {
					p := probes[(k+g)%len(probes)]
					e := val.Validate(js, p.v)
					if (e == nil) != p.ok || e != nil && !s.check(p.v)[e.Path()] {
						bad <- fmt.Sprintf("value %s: %v, alone %v at %q", canon(p.v), e, p.ok, p.path)
					}
				}
			}(g)
		}
		wg.Wait()
		close(bad)
		for m := range bad {
			r.Violate("C06:concurrent", c, "concurrent validation: %s", m)
		}
		r.Count("concurrent", 4*len(probes))
	}
	ks := map[string]bool{}
	s.kinds(ks)
	for k := range ks {
		r.Count("kind_"+k, 1)
	}
	if i%499 == 0 {
		r.Sample(map[string]any{"schema": json.RawMessage(raw), "value": probes[0].v, "accepted": probes[0].ok})
	}
}

// exportNorm is the normal form of an exported schema.
func exportNorm(js jlibschema.Schema) string {
	text := jlibschema.SchemaToString(js)
	d, err := decodeAny([]byte(text))
	if err != nil {
		return "!" + text
	}
	s, err := parseSch(d)
	if err != nil {
		return "!" + err.Error() + " " + text
	}
	return s.norm()
}
