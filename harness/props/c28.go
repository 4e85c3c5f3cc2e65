package props

import (
	"fmt"
	"strings"

	"github.com/superisaac/jlib"
)

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func refIsMethod(s string) bool {
	for i := 0; i < len(s); i++ {
		if !alnum(s[i]) && !strings.Contains("-_:+.", string(rune(s[i]))) {
			return false
		}
		if s[i] >= 0x80 {
			return false
		}
	}
	return s != ""
}

func refIsPublic(s string) bool {
	if s == "" || strings.HasPrefix(s, "rpc.") || !alnum(s[0]) {
		return false
	}
	for i := 1; i < len(s); i++ {
		if s[i] >= 0x80 || !alnum(s[i]) && strings.IndexByte(`-_:+./\&#`, s[i]) < 0 {
			return false
		}
	}
	return true
}

func driveC28(r *Run) {
	r.Rule("all byte strings of length up to 2, all strings of length 3 over a boundary alphabet, and random longer names with one foreign character; non-trivial: each accepted name and each rejected (class, position)")
	check := func(s string) {
		c := map[string]any{"name": s, "hex": fmt.Sprintf("%x", s)}
		r.Guard("C28", c, func() {
			if got, want := jlib.IsMethod(s), refIsMethod(s); got != want {
				r.Violate("C28:method", c, "IsMethod(%q) = %v", s, got)
			}
			if got, want := jlib.IsPublicMethod(s), refIsPublic(s); got != want {
				r.Violate("C28:public", c, "IsPublicMethod(%q) = %v", s, got)
			}
		})
		key := fmt.Sprintf("%v%v", refIsMethod(s), refIsPublic(s))
		if len(s) <= 2 {
			key += s
		} else {
			key += fmt.Sprintf(" len%d", len(s)) + s[:2]
		}
		r.Eval(key)
	}
	if r.Mine(0) {
		check("")
		for a := 0; a < 256; a++ {
			check(string([]byte{byte(a)}))
		}
	}
	for a := 0; a < 256; a++ {
		if !r.Mine(a) {
			continue
		}
		for b := 0; b < 256; b++ {
			check(string([]byte{byte(a), byte(b)}))
		}
	}
	alpha := []string{"a", "Z", "0", "9", "-", "_", ":", "+", ".", "/", "\\", "&", "#", "\n", "\r", " ", "\x00", "`", "{", "@", "[", "é", "\xff", "\u0661", "ſ", "K", "^", ","}
	for x, a := range alpha {
		if !r.Mine(x) {
			continue
		}
		for _, b := range alpha {
			for _, c := range alpha {
				check(a + b + c)
			}
		}
	}
	fixed := []string{"rpc.", "rpc.a", "rpc", "rpcx", "rpc:a", "RPC.a", "Rpc.a", "arpc.b", "rpc.\n", "rpc..", ".rpc.a", "rpc/x", "a\n", "\na", "a\nb", "a\n\n", "a\r\n", "a b"}
	n := r.N(20000, 800000)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		if i < len(fixed) {
			check(fixed[i])
			continue
		}
		rng := r.Rand("name", i)
		var b strings.Builder
		if rng.IntN(8) == 0 {
			b.WriteString("rpc" + pick(rng, ".", "", ":", "x"))
		}
		for k := 1 + rng.IntN(14); k > 0; k-- {
			b.WriteString(alpha[rng.IntN(13)])
		}
		s := b.String()
		if rng.IntN(2) == 0 {
			p := rng.IntN(len(s) + 1)
			s = s[:p] + alpha[rng.IntN(len(alpha))] + s[p:]
		}
		if rng.IntN(10) == 0 {
			s = genString(rng)
		}
		check(s)
		if i%999 == 0 {
			r.Sample(map[string]any{"name": s, "method": refIsMethod(s), "public": refIsPublic(s)})
		}
	}
}
