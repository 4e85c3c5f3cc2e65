package props

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"hash"
)

// signJWT makes a JSON web token independently of the library under test.
func signJWT(alg, secret string, claims map[string]any) string {
	return signJWTHeader(map[string]any{"alg": alg, "typ": "JWT"}, alg, secret, claims)
}

func signJWTHeader(head map[string]any, alg, secret string, claims map[string]any) string {
	h, _ := json.Marshal(head)
	c, _ := json.Marshal(claims)
	text := b64(h) + "." + b64(c)
	var f func() hash.Hash
	switch alg {
	case "HS256":
		f = sha256.New
	case "HS384":
		f = sha512.New384
	case "HS512":
		f = sha512.New
	default:
		return text + "."
	}
	m := hmac.New(f, []byte(secret))
	m.Write([]byte(text))
	return text + "." + b64(m.Sum(nil))
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func basicAuth(user, password string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+password))
}
