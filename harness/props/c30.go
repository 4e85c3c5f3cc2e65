package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"strings"
	"sync"

	jlibhttp "github.com/superisaac/jlib/http"
	yaml "gopkg.in/yaml.v3"
)

func driveC30(r *Run) {
	r.Rule("random authentication and TLS configurations written in Go, JSON and YAML with at most a few incomplete entries anywhere, and random lists of header flags, some malformed; non-trivial: distinct (what is configured, what is missing and where)")
	n := r.N(16000, 600000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("conf", i)
		c := map[string]any{"i": i}
		r.Guard("C30", c, func() {
			switch i % 3 {
			case 0, 1:
				authC30(r, rng, i, c)
			default:
				flagsC30(r, rng, i, c)
			}
		})
	}
	for _, f := range []string{"", "cert.pem", " ", "/no/such/file"} {
		for _, k := range []string{"", "key.pem", " ", "/no/such/key"} {
			cfg := &jlibhttp.TLSConfig{Certfile: f, Keyfile: k}
			c := map[string]any{"certfile": f, "keyfile": k}
			r.Guard("C30:tls", c, func() {
				if err := cfg.ValidateValues(); (err == nil) != (f != "" && k != "") {
					r.Violate("C30:tls", c, "checking the TLS configuration gives %v", err)
				}
				if cfg.Certfile != f || cfg.Keyfile != k {
					r.Violate("C30:tlschanged", c, "checking changed the configuration")
				}
			})
			r.Eval(fmt.Sprintf("tls %q %q", f, k))
		}
	}
}

func authC30(r *Run, rng *rand.Rand, i int, c map[string]any) {
	word := func() string { return pick(rng, "a", " ", "x:y", "né", "\x00", "null", "0", "tok en") }
	gaps := pick(rng, 0, 0, 1, 2, 8) // one in so many texts is missing
	text := func() string {
		if gaps > 0 && rng.IntN(2*gaps) == 0 {
			return ""
		}
		return word()
	}
	doc := map[string]any{}
	cfg := &jlibhttp.AuthConfig{}
	var missing []string
	need := func(where, s string) {
		if s == "" {
			missing = append(missing, where)
		}
	}
	settings := func(m map[string]any) map[string]any {
		if rng.IntN(3) == 0 {
			s := map[string]any{"k": word()}
			m["settings"] = s
			return s
		}
		return nil
	}
	has := ""
	if rng.IntN(3) != 0 {
		n := rng.IntN(5)
		has += fmt.Sprintf(" bearer%d", n)
		list := []any{}
		cfg.Bearer = []jlibhttp.BearerAuthConfig{}
		for k := 0; k < n; k++ {
			e := jlibhttp.BearerAuthConfig{Token: text(), Username: pick(rng, "", "", "who")}
			m := map[string]any{"token": e.Token}
			if e.Username != "" {
				m["username"] = e.Username
			}
			if e.Token == "" && rng.IntN(2) == 0 {
				delete(m, "token")
			}
			e.Settings = settings(m)
			need(fmt.Sprintf("token%d", k), e.Token)
			cfg.Bearer = append(cfg.Bearer, e)
			list = append(list, m)
		}
		doc["bearer"] = list
	}
	if rng.IntN(3) != 0 {
		n := rng.IntN(5)
		has += fmt.Sprintf(" basic%d", n)
		list := []any{}
		for k := 0; k < n; k++ {
			e := jlibhttp.BasicAuthConfig{Username: text(), Password: text()}
			m := map[string]any{"username": e.Username, "password": e.Password}
			if e.Password == "" && rng.IntN(2) == 0 {
				delete(m, "password")
			}
			e.Settings = settings(m)
			need(fmt.Sprintf("username%d", k), e.Username)
			need(fmt.Sprintf("password%d", k), e.Password)
			cfg.Basic = append(cfg.Basic, e)
			list = append(list, m)
		}
		doc["basic"] = list
	}
	if rng.IntN(2) == 0 {
		has += " jwt"
		s := text()
		cfg.Jwt = &jlibhttp.JwtAuthConfig{Secret: s}
		doc["jwt"] = map[string]any{"secret": s}
		need("secret", s)
	}
	how := pick(rng, "go", "json", "yaml", "nil")
	switch how {
	case "json":
		cfg = &jlibhttp.AuthConfig{}
		must(json.Unmarshal([]byte(rawJSON(rng, doc)), cfg))
	case "yaml":
		d, err := yaml.Marshal(doc)
		must(err)
		cfg = &jlibhttp.AuthConfig{}
		must(yaml.Unmarshal(d, cfg))
	case "nil":
		if rng.IntN(6) == 0 {
			cfg, missing, has = nil, nil, " no"
		}
	}
	c["config"], c["written in"], c["missing"] = doc, how, missing
	before := canon(cfg)
	for k := 0; k < 2; k++ {
		if err := cfg.ValidateValues(); (err == nil) != (len(missing) == 0) {
			r.Violate("C30:auth", c, "checking the configuration gives %v, missing are %v", err, missing)
		}
	}
	if i%64 == 0 {
		var wg sync.WaitGroup
		bad := make(chan error, 4)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := cfg.ValidateValues(); (err == nil) != (len(missing) == 0) {
					bad <- fmt.Errorf("concurrently: %v", err)
				}
			}()
		}
		wg.Wait()
		close(bad)
		for err := range bad {
			r.Violate("C30:auth", c, "checking the configuration %v, missing are %v", err, missing)
		}
	}
	if canon(cfg) != before {
		r.Violate("C30:changed", c, "checking changed the configuration from %s to %s", before, canon(cfg))
	}
	r.Count(fmt.Sprintf("complete_%v", len(missing) == 0), 1)
	r.Eval(fmt.Sprintf("auth%s missing %v", has, missing))
	if i%900 == 0 {
		r.Sample(map[string]any{"config": doc, "missing": missing})
	}
}

func flagsC30(r *Run, rng *rand.Rand, i int, c map[string]any) {
	pad := func(s string) string {
		return strings.Repeat(" ", rng.IntN(3)) + s + strings.Repeat(" ", rng.IntN(3))
	}
	want := http.Header{}
	var args, values []string
	bad := -1
	n := rng.IntN(7)
	shape := ""
	for k := 0; k < n; k++ {
		v := ""
		switch rng.IntN(9) {
		case 0:
			v = pick(rng, "", "novalue", "x: y", " ", "X-A:1")
			if bad < 0 {
				bad = k
			}
			shape += "!"
		default:
			name := pick(rng, "X-A", "x-a", "X-B", "Authorization", "cookie", "X-C")
			val := pick(rng, "", "1", "a=b", "=", "a = b=", "Basic dXNlcjpwYXNz==", "with  spaces", "ü", "a,b", "x;y=\"z\"", "https://h/?q=1&r=2")
			v = pad(name) + "=" + pad(val)
			want.Add(name, val)
			shape += name[:1] + fmt.Sprint(len(val)%3)
		}
		values = append(values, v)
		args = append(args, pick(rng, "-header=", "--header=")+v)
	}
	c["flags"] = args
	var flags jlibhttp.HeaderFlags
	fs := flag.NewFlagSet("x", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs.Var(&flags, "header", "")
	if err := fs.Parse(args); err != nil {
		r.Violate("C30:flag", c, "the flags are refused while parsing the command line: %v", err)
		return
	}
	for k := 0; k < 2; k++ {
		h, err := flags.Parse()
		switch {
		case (err == nil) != (bad < 0):
			r.Violate("C30:flags", c, "parsing %q gives %v and %v", values, h, err)
		case err == nil && canon(h) != canon(want):
			r.Violate("C30:headers", c, "flags %q give the headers %v, want %v", values, h, want)
		}
		if err == nil {
			h.Set("X-A", "changed") // the next result is its own
			h.Set("X-New", "new")
		}
	}
	if canon([]string(flags)) != canon(values) {
		r.Violate("C30:kept", c, "the flags turned from %q into %q", values, []string(flags))
	}
	r.Count(fmt.Sprintf("flags_good_%v", bad < 0), 1)
	r.Eval("flags " + shape)
}
