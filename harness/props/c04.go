package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"

	"github.com/superisaac/jlib"
)

func genBig(rng *rand.Rand) *big.Int {
	b := new(big.Int)
	switch rng.IntN(5) {
	case 0:
		b.SetInt64(int64(rng.IntN(21) - 10))
	case 1:
		b.SetUint64(rng.Uint64())
	case 2:
		b.Lsh(big.NewInt(1), uint(rng.IntN(600)))
		b.Add(b, big.NewInt(int64(rng.IntN(3)-1)))
	default:
		words := 1 + rng.IntN(20)
		for i := 0; i < words; i++ {
			b.Lsh(b, 64)
			b.Or(b, new(big.Int).SetUint64(rng.Uint64()))
		}
	}
	if rng.IntN(2) == 0 {
		b.Neg(b)
	}
	return b
}

func toBigint(b *big.Int) jlib.Bigint {
	var x jlib.Bigint
	x.Value().Set(b)
	return x
}

type bigHolder struct {
	A jlib.Bigint            `json:"a"`
	P *jlib.Bigint           `json:"p"`
	L []jlib.Bigint          `json:"l"`
	M map[string]jlib.Bigint `json:"m"`
}

var badBigs = []string{
	`"12x"`, `"x"`, `""`, `"-"`, `"+"`, `"--1"`, `" 1"`, `"1 "`, `"0x10"`, `"1e5"`, `"1.0"`, `"1.5"`, `1.5`, `1e5`, `1E400`, `-1.0`, `true`, `false`,
	`{}`, `[]`, `[1]`, `{"a":1}`, `"null"`, `"１２"`, `"1_000"`, `"1,000"`, `"ten"`, `"\n1"`, `"12\u0000"`, `"1/2"`,
}

func driveC04(r *Run) {
	r.Rule("random big integers of up to 1300 bits through encoding, quoted and bare decoding, struct/list/map positions, and malformed texts at a Bigint position; non-trivial: distinct bit length, sign and position")
	n := r.N(12000, 600000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand("big", i)
		b := genBig(rng)
		dec := b.String()
		c := map[string]any{"i": i, "value": dec}
		r.Guard("C04", c, func() {
			x := toBigint(b)
			for _, v := range []any{x, &x} {
				data, err := json.Marshal(v)
				if err != nil || string(data) != `"`+dec+`"` {
					r.Violate("C04:encode", c, "encoded %s %v, want quoted %s", data, err, dec)
				}
			}
			if x.String() != dec {
				r.Violate("C04:string", c, "String() = %s, want %s", x.String(), dec)
			}
			var l jlib.Bigint
			l.Load(dec)
			if l.Value().Cmp(b) != 0 {
				r.Violate("C04:load", c, "Load(%s) = %s", dec, l.String())
			}
			prior := genBig(rng)
			for _, text := range []string{`"` + dec + `"`, dec, " " + dec + "\n"} {
				y := toBigint(prior)
				if err := json.Unmarshal([]byte(text), &y); err != nil || y.Value().Cmp(b) != 0 {
					r.Violate("C04:decode", c, "decoding %s gives %s, %v", text, y.String(), err)
				}
			}
			if x.Value().Cmp(b) != 0 {
				r.Violate("C04:mutated", c, "the encoded value changed to %s", x.String())
			}
			// inside containers
			b2, b3 := genBig(rng), genBig(rng)
			x2 := toBigint(b2)
			h := bigHolder{A: toBigint(b), P: &x2, L: []jlib.Bigint{toBigint(b3), toBigint(b)}, M: map[string]jlib.Bigint{"k": toBigint(b2), "n": toBigint(b3)}}
			data, err := json.Marshal(h)
			want := fmt.Sprintf(`{"a":"%s","p":"%s","l":["%s","%s"],"m":{"k":"%s","n":"%s"}}`, b, b2, b3, b, b2, b3)
			if err != nil || string(data) != want {
				r.Violate("C04:container", c, "encoded %s %v, want %s", data, err, want)
			}
			text := want
			if rng.IntN(2) == 0 {
				text = strings.NewReplacer(`:"`, `:`, `",`, `,`, `"]`, `]`, `"}`, `}`, `["`, `[`, `,"-`, `,-`).Replace(want)
				text = fmt.Sprintf(`{"a":%s,"p":%s,"l":[%s,"%s"],"m":{"k":%s,"n":"%s"}}`, b, b2, b3, b, b2, b3)
			}
			var g bigHolder
			if rng.IntN(2) == 0 {
				old := toBigint(prior)
				g = bigHolder{A: toBigint(prior), P: &old, L: []jlib.Bigint{toBigint(prior)}}
			}
			if err := json.Unmarshal([]byte(text), &g); err != nil {
				r.Violate("C04:containerdecode", c, "decoding %s: %v", text, err)
			} else {
				m1, m2 := g.M["k"], g.M["n"]
				if g.A.Value().Cmp(b) != 0 || g.P == nil || g.P.Value().Cmp(b2) != 0 || len(g.L) != 2 || g.L[0].Value().Cmp(b3) != 0 || g.L[1].Value().Cmp(b) != 0 || m1.Value().Cmp(b2) != 0 || m2.Value().Cmp(b3) != 0 {
					again, _ := json.Marshal(g)
					r.Violate("C04:containervalue", c, "%s decoded to %s", text, again)
				}
			}
			// malformed text
			bad := badBigs[rng.IntN(len(badBigs))]
			if rng.IntN(2) == 0 {
				// a decimal with one foreign character
				p := rng.IntN(len(dec) + 1)
				ch := pick(rng, "a", ".", "e", " ", "_", ":", "é", "-")
				mid := dec[:p] + ch + dec[p:]
				if !(ch == "-" && p == 0 && dec[0] != '-') {
					bad = `"` + mid + `"`
				}
			}
			y := toBigint(prior)
			if err := json.Unmarshal([]byte(bad), &y); err == nil {
				r.Violate("C04:accept", c, "decoding %s gives %s without error", bad, y.String())
			} else if y.Value().Cmp(prior) != 0 {
				r.Violate("C04:clobber", c, "failed decoding of %s changed %s to %s", bad, prior, y.String())
			}
			// direct call with arbitrary bytes never panics
			z := toBigint(prior)
			junk := mutate(rng, []byte(`"`+dec+`"`))
			if rng.IntN(2) == 0 {
				junk = []byte(pick(rng, `"`, ``, `"1`, `""`, `nul`, `null`, `"""`))
			}
			if json.Valid(junk) {
				err := json.Unmarshal(junk, &z)
				if err != nil && z.Value().Cmp(prior) != 0 {
					r.Violate("C04:clobber", c, "failed decoding of %s changed %s to %s", junk, prior, z.String())
				}
			}
			r.Count("malformed", 1)
		})
		r.Eval(fmt.Sprintf("bits=%d sign=%d", b.BitLen(), b.Sign()))
		if i%997 == 0 {
			r.Sample(c)
		}
	}
}
