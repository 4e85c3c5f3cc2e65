package props

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"

	jlibschema "github.com/superisaac/jlib/schema"
	yaml "gopkg.in/yaml.v3"
)

func driveC07(r *Run) {
	r.Rule("random descriptions built from JSON and YAML, exported and rebuilt, compared with themselves and with one-spot mutants, structurally corrupted, and mutated as bytes; non-trivial: distinct (schema structure, step)")
	r.Assume("an exclusive flag without its bound and attributes of a wrong type that the language calls optional are left out: their meaning is not specified")
	n := r.N(12000, 500000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("desc", i)
		s := genSch(rng, 1+rng.IntN(4), schOpts{meta: true}, true)
		raw := rawJSON(rng, s.doc())
		c := map[string]any{"i": i, "schema": raw}
		switch i % 4 {
		case 0, 1:
			r.Guard("C07", c, func() { buildC07(r, rng, i, s, raw, c) })
		case 2:
			r.Guard("C07", c, func() { corruptC07(r, rng, i, s, c) })
		default:
			fuzzC07(r, rng, i, s)
		}
	}
}

// yamlText writes a description as YAML.
func yamlText(rng *rand.Rand, doc any) (string, bool) {
	m, ok := doc.(map[string]any)
	if !ok {
		return "", false
	}
	data, err := yaml.Marshal(yamlNumbers(m))
	if err != nil {
		return "", false
	}
	return string(data), true
}

func yamlNumbers(v any) any {
	switch x := v.(type) {
	case json.Number:
		if isIntLit(x) {
			n, _ := x.Int64()
			return n
		}
		f, _ := x.Float64()
		return f
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = yamlNumbers(e)
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[k] = yamlNumbers(e)
		}
		return out
	}
	return v
}

func sameVerdicts(r *Run, rng *rand.Rand, what string, s *sch, js jlibschema.Schema, c map[string]any) {
	for k := 0; k < 5; k++ {
		v := s.fit(rng, pick(rng, 0, 4, 8))
		want := s.check(v)
		e := jlibschema.NewSchemaValidator().Validate(js, v)
		if (e == nil) != (len(want) == 0) {
			r.Violate("C07:meaning", c, "%s schema: value %s gives %v, violated at %v", what, canon(v), e, sortedKeys(want))
			return
		}
	}
}

func buildC07(r *Run, rng *rand.Rand, i int, s *sch, raw string, c map[string]any) {
	b := jlibschema.NewSchemaBuilder()
	js, err := b.BuildBytes([]byte(raw))
	if err != nil || js == nil {
		r.Violate("C07:refused", c, "well-formed description refused: %v", err)
		return
	}
	if js.GetName() != s.Name || js.GetDescription() != s.Desc {
		r.Violate("C07:meta", c, "name %q description %q, want %q %q", js.GetName(), js.GetDescription(), s.Name, s.Desc)
	}
	kind := s.Kind
	if kind == "tuple" {
		kind = "list"
	}
	if js.Type() != kind {
		r.Violate("C07:type", c, "type %s, want %s", js.Type(), kind)
	}
	sameVerdicts(r, rng, "built", s, js, c)
	if !js.Equal(js) {
		r.Violate("C07:reflexive", c, "a schema does not equal itself")
	}
	// export
	text := jlibschema.SchemaToString(js)
	if got := exportNorm(js); got != s.norm() {
		r.Violate("C07:export", c, "exported %s means %s, want %s", text, got, s.norm())
	}
	js2, err := b.BuildBytes([]byte(text))
	if err != nil {
		r.Violate("C07:rebuild", c, "exported %s cannot be built: %v", text, err)
	} else {
		if !js.Equal(js2) || !js2.Equal(js) {
			r.Violate("C07:rebuiltequal", c, "exported %s is not equal to the original", text)
		}
		sameVerdicts(r, rng, "rebuilt", s, js2, c)
	}
	// the same description written again
	js3, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(rawJSON(rng, s.doc())))
	if err != nil || !js.Equal(js3) || !js3.Equal(js) {
		r.Violate("C07:same", c, "the same description builds a different schema (%v)", err)
	}
	// YAML
	doc := s.doc()
	if y, ok := yamlText(rng, doc); ok {
		r.Count("yaml", 1)
		ys, err := b.BuildYamlBytes([]byte(y))
		if err != nil {
			r.Violate("C07:yaml", c, "YAML refused: %v\n%s", err, y)
		} else {
			if !ys.Equal(js) || !js.Equal(ys) {
				r.Violate("C07:yamlequal", c, "YAML builds a different schema: %s\n%s", jlibschema.SchemaToString(ys), y)
			}
			sameVerdicts(r, rng, "yaml", s, ys, c)
		}
	}
	valuesC07(r, rng, s, js, c)
	// the same schema put together by hand
	hs := handMade(s)
	if !hs.Equal(js) || !js.Equal(hs) {
		r.Violate("C07:handequal", c, "the same schema put together by hand is not equal: %s", jlibschema.SchemaToString(hs))
	}
	if got := exportNorm(hs); got != s.norm() {
		r.Violate("C07:handexport", c, "put together by hand, it is exported with the meaning %s, want %s", got, s.norm())
	}
	sameVerdicts(r, rng, "hand made", s, hs, c)
	// one-spot mutants differ
	for k := 0; k < 3; k++ {
		m := cloneSch(s)
		if !mutateSch(rng, m) || m.norm() == s.norm() {
			continue
		}
		ms, err := b.BuildBytes([]byte(rawJSON(rng, m.doc())))
		if err != nil {
			r.Violate("C07:mutantrefused", map[string]any{"i": i, "schema": m.doc()}, "well-formed description refused: %v", err)
			continue
		}
		if js.Equal(ms) || ms.Equal(js) {
			r.Violate("C07:unequal", map[string]any{"i": i, "schema": raw, "other": m.doc()}, "different schemas compare equal (%v, %v)", js.Equal(ms), ms.Equal(js))
		}
		r.Count("mutants", 1)
	}
	// equality of unrelated schemas is that of their descriptions
	o := genSch(rng, 2, schOpts{meta: true}, true)
	if os, err := b.BuildBytes([]byte(rawJSON(rng, o.doc()))); err == nil {
		if js.Equal(os) != (o.norm() == s.norm()) {
			r.Violate("C07:equal", map[string]any{"i": i, "schema": raw, "other": o.doc()}, "Equal is %v", js.Equal(os))
		}
	}
	r.Eval("build " + s.sketch())
	if i%800 == 0 {
		r.Sample(map[string]any{"schema": json.RawMessage(raw), "export": json.RawMessage(text)})
	}
}

// handMade puts a schema together without a description.
func handMade(s *sch) jlibschema.Schema {
	fl := func(n json.Number) *float64 {
		if n == "" {
			return nil
		}
		f, _ := n.Float64()
		return &f
	}
	in := func(n json.Number) *int64 {
		if n == "" {
			return nil
		}
		k, _ := n.Int64()
		return &k
	}
	kids := func() []jlibschema.Schema {
		l := []jlibschema.Schema{}
		for _, k := range s.Kids {
			l = append(l, handMade(k))
		}
		return l
	}
	add := func() jlibschema.Schema {
		if s.Add == nil {
			return nil
		}
		return handMade(s.Add)
	}
	var js jlibschema.Schema
	switch s.Kind {
	case "any":
		js = &jlibschema.AnySchema{}
	case "null":
		js = &jlibschema.NullSchema{}
	case "bool":
		js = &jlibschema.BoolSchema{}
	case "number":
		n := jlibschema.NewNumberSchema()
		n.Minimum, n.Maximum, n.ExclusiveMinimum, n.ExclusiveMaximum = fl(s.Min), fl(s.Max), s.ExMin, s.ExMax
		js = n
	case "integer":
		n := jlibschema.NewIntegerSchema()
		n.Minimum, n.Maximum, n.ExclusiveMinimum, n.ExclusiveMaximum = in(s.Min), in(s.Max), s.ExMin, s.ExMax
		js = n
	case "string":
		n := jlibschema.NewStringSchema()
		n.MinLength, n.MaxLength = s.MinN, s.MaxN
		js = n
	case "anyOf":
		n := jlibschema.NewAnyOfSchema()
		n.Choices = append(n.Choices, kids()...)
		js = n
	case "allOf":
		n := jlibschema.NewAllOfSchema()
		n.Choices = append(n.Choices, kids()...)
		js = n
	case "not":
		n := jlibschema.NewNotSchema()
		n.Child = handMade(s.Kids[0])
		js = n
	case "list":
		n := jlibschema.NewListSchema()
		n.Item, n.MinItems, n.MaxItems = handMade(s.Kids[0]), s.MinN, s.MaxN
		js = n
	case "tuple":
		n := jlibschema.NewTupleSchema()
		n.Children = append(n.Children, kids()...)
		n.AdditionalSchema = add()
		js = n
	case "object":
		n := jlibschema.NewObjectSchema()
		for k, p := range s.Props {
			n.Properties[k] = handMade(p)
		}
		for k := range s.Req {
			n.Requires[k] = true
		}
		n.AdditionalProperties = add()
		js = n
	case "method":
		n := jlibschema.NewMethodSchema()
		n.Params = append(n.Params, kids()...)
		n.AdditionalSchema = add()
		if s.Ret != nil {
			n.Returns = handMade(s.Ret)
		} else {
			n.Returns = &jlibschema.AnySchema{}
		}
		js = n
	default:
		panic(s.Kind)
	}
	js.SetName(s.Name)
	js.SetDescription(s.Desc)
	return js
}

func cloneSch(s *sch) *sch {
	if s == nil {
		return nil
	}
	c := *s
	c.Kids = nil
	for _, k := range s.Kids {
		c.Kids = append(c.Kids, cloneSch(k))
	}
	if s.Props != nil {
		c.Props = map[string]*sch{}
		for k, v := range s.Props {
			c.Props[k] = cloneSch(v)
		}
		c.Req = map[string]bool{}
		for k := range s.Req {
			c.Req[k] = true
		}
	}
	c.Add, c.Ret = cloneSch(s.Add), cloneSch(s.Ret)
	c.short = false
	return &c
}

// mutateSch changes the meaning of s in one random spot.
func mutateSch(rng *rand.Rand, s *sch) bool {
	var nodes []*sch
	var walk func(*sch)
	walk = func(n *sch) {
		if n == nil {
			return
		}
		nodes = append(nodes, n)
		for _, k := range n.Kids {
			walk(k)
		}
		for _, k := range sortedKeys(n.Props) {
			walk(n.Props[k])
		}
		walk(n.Add)
		walk(n.Ret)
	}
	walk(s)
	n := nodes[rng.IntN(len(nodes))]
	leaf := &sch{Kind: pick(rng, "null", "bool", "string")}
	switch rng.IntN(15) {
	case 9: // other required properties, as many
		var in, not []string
		for _, p := range sortedKeys(n.Props) {
			if n.Req[p] {
				in = append(in, p)
			} else {
				not = append(not, p)
			}
		}
		if len(in) == 0 || len(not) == 0 {
			return false
		}
		delete(n.Req, in[rng.IntN(len(in))])
		n.Req[not[rng.IntN(len(not))]] = true
	case 10: // another name for a property
		if len(n.Props) == 0 {
			return false
		}
		ps := sortedKeys(n.Props)
		p, q := ps[rng.IntN(len(ps))], "renamed"
		n.Props[q] = n.Props[p]
		delete(n.Props, p)
		if n.Req[p] {
			n.Req[q] = true
		}
		delete(n.Req, p)
	case 11: // another order
		if len(n.Kids) < 2 {
			return false
		}
		i, j := rng.IntN(len(n.Kids)), rng.IntN(len(n.Kids))
		n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
	case 12: // one child among others
		switch {
		case len(n.Kids) > 0:
			n.Kids[rng.IntN(len(n.Kids))] = leaf
		case len(n.Props) > 0:
			ps := sortedKeys(n.Props)
			n.Props[ps[rng.IntN(len(ps))]] = leaf
		default:
			return false
		}
	case 13: // a bit more
		near := func(b json.Number) json.Number {
			if k, err := b.Int64(); err == nil {
				return json.Number(fmt.Sprint(k + 1))
			}
			return b + "0"
		}
		switch {
		case n.Min != "" && (n.Max == "" || rng.IntN(2) == 0):
			n.Min = near(n.Min)
		case n.Max != "":
			n.Max = near(n.Max)
		case n.MinN != nil && (n.MaxN == nil || rng.IntN(2) == 0):
			n.MinN = ip(*n.MinN + 1)
		case n.MaxN != nil:
			n.MaxN = ip(*n.MaxN + 1)
		default:
			return false
		}
	case 14: // one limit less
		switch {
		case n.MinN != nil && (n.MaxN == nil || rng.IntN(2) == 0):
			n.MinN = nil
		case n.MaxN != nil:
			n.MaxN = nil
		case n.Name != "" && n.Desc != "":
			n.Name, n.Desc = n.Desc, n.Name
		default:
			return false
		}
	case 0:
		n.Name += "x"
	case 1:
		n.Desc += "x"
	case 2:
		switch n.Kind {
		case "number", "integer":
			if rng.IntN(2) == 0 {
				n.Min = json.Number(fmt.Sprint(rng.IntN(100) + 20))
			} else {
				n.Max = json.Number(fmt.Sprint(-rng.IntN(100) - 20))
			}
		case "string", "list":
			if rng.IntN(2) == 0 {
				n.MinN = ip(rng.IntN(9) + 10)
			} else {
				n.MaxN = ip(rng.IntN(9) + 10)
			}
		default:
			return false
		}
	case 3:
		switch n.Kind {
		case "number", "integer":
			if n.Min != "" {
				n.ExMin = bp(n.ExMin == nil || !*n.ExMin)
			} else if n.Max != "" {
				n.ExMax = bp(n.ExMax == nil || !*n.ExMax)
			} else {
				return false
			}
		case "object":
			ps := sortedKeys(n.Props)
			if len(ps) == 0 {
				return false
			}
			p := ps[rng.IntN(len(ps))]
			if n.Req[p] {
				delete(n.Req, p)
			} else {
				n.Req[p] = true
				n.noReq = false
			}
		default:
			return false
		}
	case 4:
		switch n.Kind {
		case "tuple", "object", "method":
			if n.Add == nil {
				n.Add = leaf
			} else {
				n.Add = nil
			}
		default:
			return false
		}
	case 5:
		switch n.Kind {
		case "anyOf", "allOf", "tuple", "method":
			if len(n.Kids) > 0 && rng.IntN(2) == 0 {
				n.Kids = n.Kids[:len(n.Kids)-1]
			} else {
				n.Kids = append(n.Kids, leaf)
			}
		default:
			return false
		}
	case 6:
		switch n.Kind {
		case "anyOf":
			n.Kind = "allOf"
		case "allOf":
			n.Kind = "anyOf"
		case "number":
			if n.Min == "" && n.Max == "" {
				n.Kind = "integer"
			} else {
				return false
			}
		case "bool":
			n.Kind = "null"
		case "any":
			n.Kind = "bool"
		case "method":
			n.Ret = &sch{Kind: "bool", Name: "changed"}
		default:
			return false
		}
	case 7:
		if n.Kind == "object" {
			p := "added" + fmt.Sprint(rng.IntN(3))
			n.Props[p] = leaf
		} else {
			return false
		}
	default:
		if n.Kind == "object" && len(n.Props) > 0 {
			p := sortedKeys(n.Props)[0]
			delete(n.Props, p)
			delete(n.Req, p)
		} else {
			return false
		}
	}
	return true
}

// corrupt makes a description structurally malformed in one spot.
func corrupt(rng *rand.Rand, doc map[string]any) (string, bool) {
	// choose a node
	var nodes []map[string]any
	var walk func(v any)
	walk = func(v any) {
		m, ok := v.(map[string]any)
		if !ok {
			return
		}
		nodes = append(nodes, m)
		for _, k := range []string{"anyOf", "allOf", "params"} {
			if arr, ok := m[k].([]any); ok {
				for _, e := range arr {
					walk(e)
				}
			}
		}
		if arr, ok := m["items"].([]any); ok {
			for _, e := range arr {
				walk(e)
			}
		} else {
			walk(m["items"])
		}
		for _, k := range []string{"not", "additionalItems", "additionalParams", "additionalProperties", "returns"} {
			walk(m[k])
		}
		if p, ok := m["properties"].(map[string]any); ok {
			for _, k := range sortedKeys(p) {
				walk(p[k])
			}
		}
	}
	walk(doc)
	n := nodes[rng.IntN(len(nodes))]
	kind := func() string {
		s, err := parseSch(n)
		if err != nil {
			return ""
		}
		return s.Kind
	}()
	junk := pick[any](rng, json.Number("5"), true, "bogus", []any{}, nil)
	switch rng.IntN(7) {
	case 0:
		n["type"] = pick[any](rng, "bogus", "String", "int", "", "array", "tuple", json.Number("1"), true, nil, []any{}, map[string]any{})
		return "type", true
	case 1:
		// no type and nothing to infer it from
		for _, k := range []string{"type", "params", "properties", "anyOf", "allOf", "not"} {
			delete(n, k)
		}
		// a returns schema may leave its type out
		for _, m := range nodes {
			if rv, ok := m["returns"].(map[string]any); ok && fmt.Sprintf("%p", rv) == fmt.Sprintf("%p", n) {
				return "", false
			}
		}
		return "notype", true
	case 2:
		n["name"] = pick[any](rng, json.Number("1"), true, nil, []any{}, map[string]any{})
		return "name", true
	case 3:
		n["description"] = pick[any](rng, json.Number("1"), true, nil, []any{}, map[string]any{})
		return "description", true
	case 4:
		switch kind {
		case "list", "tuple":
			delete(n, "items")
			if rng.IntN(2) == 0 {
				n["items"] = pick[any](rng, json.Number("5"), true, "bogus", nil)
			}
			return "items", true
		case "anyOf", "allOf":
			n["type"] = kind
			delete(n, kind)
			if rng.IntN(2) == 0 {
				n[kind] = pick[any](rng, json.Number("5"), true, "bogus", nil, map[string]any{})
			}
			return "choices", true
		case "not":
			n["type"] = kind
			delete(n, kind)
			if rng.IntN(2) == 0 {
				n[kind] = pick[any](rng, json.Number("5"), true, "bogus", nil, []any{})
			}
			return "not", true
		case "method":
			n["type"] = kind
			delete(n, "params")
			if rng.IntN(2) == 0 {
				n["params"] = pick[any](rng, json.Number("5"), true, "bogus", nil, map[string]any{})
			}
			return "params", true
		case "object":
			n["type"] = kind
			n["properties"] = pick[any](rng, json.Number("5"), true, "bogus", []any{})
			return "properties", true
		}
	case 5:
		switch kind {
		case "tuple":
			n["items"] = append(n["items"].([]any), junk)
			return "tupleitem", true
		case "anyOf", "allOf":
			n[kind] = append(n[kind].([]any), junk)
			return "choice", true
		case "method":
			n["params"] = append(n["params"].([]any), junk)
			return "param", true
		case "object":
			p, _ := n["properties"].(map[string]any)
			p["bad"] = junk
			return "property", true
		}
	case 6:
		switch kind {
		case "object":
			n["requires"] = pick[any](rng, []any{"missing prop"}, json.Number("1"), true, "a", map[string]any{}, []any{json.Number("1")}, []any{nil})
			return "requires", true
		case "tuple":
			n["additionalItems"] = junk
			return "additionalItems", true
		case "method":
			n["additionalParams"] = junk
			return "additionalParams", true
		}
	}
	return "", false
}

func corruptC07(r *Run, rng *rand.Rand, i int, s *sch, c map[string]any) {
	for try := 0; try < 20; try++ {
		doc, ok := deepCopy(s.doc()).(map[string]any)
		if !ok {
			return
		}
		// the additional properties member of an object has a class of its own
		what, ok := corrupt(rng, doc)
		if !ok {
			continue
		}
		raw := rawJSON(rng, doc)
		cc := map[string]any{"i": i, "corrupted": what, "schema": raw}
		var js jlibschema.Schema
		var err error
		if r.Guard("C07:corrupt", cc, func() { js, err = jlibschema.NewSchemaBuilder().BuildBytes([]byte(raw)) }) && err == nil {
			r.Violate("C07:accepted", cc, "malformed description (%s) accepted as %s", what, jlibschema.SchemaToString(js))
		}
		if y, ok := yamlText(rng, doc); ok {
			if r.Guard("C07:corruptyaml", cc, func() { js, err = jlibschema.NewSchemaBuilder().BuildYamlBytes([]byte(y)) }) && err == nil {
				r.Violate("C07:acceptedyaml", cc, "malformed YAML description (%s) accepted as %s", what, jlibschema.SchemaToString(js))
			}
		}
		if y, ok := yamlText(rng, s.doc().(map[string]any)); ok && rng.IntN(4) == 0 {
			// what is no YAML document, what follows or repeats a key
			y = pick(rng, y+"type: any\n", "type: any\n"+y+"type: bool\n", y+"foo: &a [*a]\n", y+"foo: *nowhere\n", y+"\t}\n", "{"+y, y+"? [a]\n: b\n")
			if strings.HasSuffix(y, "type: any\n") && !strings.Contains("\n"+y[:len(y)-10], "\ntype:") {
				return
			}
			cy := map[string]any{"i": i, "yaml": y}
			if r.Guard("C07:brokenyaml", cy, func() { js, err = jlibschema.NewSchemaBuilder().BuildYamlBytes([]byte(y)) }) && err == nil {
				r.Violate("C07:acceptedbroken", cy, "a text which is no YAML document accepted as %s", jlibschema.SchemaToString(js))
			}
			r.Count("broken_yaml", 1)
		}
		r.Count("corrupt_"+what, 1)
		r.Eval("corrupt " + what + " " + s.sketch())
		return
	}
}

func fuzzC07(r *Run, rng *rand.Rand, i int, s *sch) {
	doc := s.doc()
	raw := mutate(rng, []byte(rawJSON(rng, doc)))
	if rng.IntN(12) == 0 {
		raw = []byte(rawJSON(rng, genValue(rng, 3)))
	}
	c := map[string]any{"i": i, "bytes": string(raw), "hex": fmt.Sprintf("%x", clip(string(raw), 300))}
	r.Guard("C07:fuzz", c, func() {
		js, err := jlibschema.NewSchemaBuilder().BuildBytes(raw)
		if (js == nil) == (err == nil) {
			r.Violate("C07:total", c, "BuildBytes returns %v and %v", js, err)
		}
		if err == nil {
			text := jlibschema.SchemaToString(js)
			if _, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(text)); err != nil {
				r.Violate("C07:fuzzexport", c, "exported %s cannot be built: %v", text, err)
			}
			jlibschema.NewSchemaValidator().Validate(js, schValue(rng, 3))
		}
	})
	if y, ok := yamlText(rng, doc); ok {
		data := mutateYaml(rng, y)
		cy := map[string]any{"i": i, "yaml": data}
		r.Journal(cy)
		r.Guard("C07:fuzzyaml", cy, func() {
			js, err := jlibschema.NewSchemaBuilder().BuildYamlBytes([]byte(data))
			if (js == nil) == (err == nil) {
				r.Violate("C07:totalyaml", cy, "BuildYamlBytes returns %v and %v", js, err)
			}
		})
	}
	r.Eval("fuzz " + s.sketch())
}

func mutateYaml(rng *rand.Rand, y string) string {
	lines := strings.Split(y, "\n")
	for k := 1 + rng.IntN(3); k > 0; k-- {
		p := rng.IntN(len(lines))
		switch rng.IntN(6) {
		case 0:
			lines[p] = strings.Replace(lines[p], ":", pick(rng, ": &x", " :", ": [", ": {", ": |", ": !!int", ": .inf", ": ~", ": *x", ""), 1)
		case 1:
			lines[p] = pick(rng, "1: 2", "? [a]", "- x", "true: {type: any}", "~: 1", "<<: {type: any}", "<<: 5", "\t", "---", "...", "properties: {1: {type: any}}", "properties: {true: string}")
		case 2:
			lines = append(lines[:p], lines[min(p+1, len(lines)):]...)
			if len(lines) == 0 {
				return ""
			}
		case 3:
			lines[p] = "  " + lines[p]
		case 4:
			lines[p] = string(mutate(rng, []byte(lines[p])))
		case 5:
			lines[p] = strings.TrimPrefix(lines[p], "  ")
		}
	}
	return strings.Join(lines, "\n")
}

// goInts writes integer literals as ints, as Go code would.
func goInts(v any, generic bool) any {
	switch x := v.(type) {
	case json.Number:
		if isIntLit(x) {
			if n, err := x.Int64(); err == nil {
				return int(n)
			}
		}
		return x
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = goInts(e, generic)
		}
		return out
	case map[string]any:
		if generic {
			out := map[any]any{}
			for k, e := range x {
				out[k] = goInts(e, generic)
			}
			return out
		}
		out := map[string]any{}
		for k, e := range x {
			out[k] = goInts(e, generic)
		}
		return out
	}
	return v
}

// wipe empties whatever can be reached from v.
func wipe(v any) {
	switch x := v.(type) {
	case []any:
		for i, e := range x {
			wipe(e)
			x[i] = "wiped"
		}
	case []map[string]any:
		for i, e := range x {
			wipe(e)
			x[i] = nil
		}
	case []string:
		for i := range x {
			x[i] = "wiped"
		}
	case map[string]any:
		for k, e := range x {
			wipe(e)
			delete(x, k)
		}
	case map[any]any:
		for k, e := range x {
			wipe(e)
			delete(x, k)
		}
	}
}

// valuesC07 builds from Go values rather than text. The schema stands for
// the description at the time it was built, and what it exports is not part
// of it.
func valuesC07(r *Run, rng *rand.Rand, s *sch, js jlibschema.Schema, c map[string]any) {
	doc, ok := s.doc().(map[string]any)
	if !ok {
		return
	}
	r.Count("built_from_values", 1)
	b := jlibschema.NewSchemaBuilder()
	forms := map[string]any{"numbers": deepCopy(doc), "ints": goInts(doc, false)}
	for _, form := range []string{"numbers", "ints"} {
		m := forms[form]
		for k := 0; k < 2; k++ {
			gs, err := b.Build(m)
			if err != nil {
				r.Violate("C07:values", c, "building from Go values (%s, time %d) fails: %v", form, k, err)
				return
			}
			if !gs.Equal(js) || !js.Equal(gs) {
				r.Violate("C07:valuesequal", c, "Go values (%s, time %d) build a different schema: %s", form, k, jlibschema.SchemaToString(gs))
				return
			}
			if k == 1 {
				wipe(m)
				if !gs.Equal(js) || exportNorm(gs) != s.norm() {
					r.Violate("C07:aliased", c, "the schema changes with the Go values (%s) it was built from", form)
				}
				sameVerdicts(r, rng, "built from Go values", s, gs, c)
				wipe(gs.Map())
				if !gs.Equal(js) || exportNorm(gs) != s.norm() {
					r.Violate("C07:exportaliased", c, "the schema changes with what it exported")
				}
			}
		}
	}
	gs, err := b.BuildYamlInterface(goInts(doc, true))
	if err != nil || !gs.Equal(js) || !js.Equal(gs) {
		r.Violate("C07:yamlvalues", c, "building from generic maps: %v, %v", err, gs)
	}
}
