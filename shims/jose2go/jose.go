// Package jose is a stand-in for github.com/dvsekhvalnov/jose2go: compact JWS
// with alg RS256, RS384, RS512, HS256 and none.
package jose

import (
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
)

// Algorithms.
const (
	NONE  = "none"
	HS256 = "HS256"
	RS256 = "RS256"
	RS384 = "RS384"
	RS512 = "RS512"
)

// JoseConfig adds to what Sign writes.
type JoseConfig struct {
	headers map[string]interface{}
}

// Header adds a header.
func Header(name string, value interface{}) func(*JoseConfig) {
	return func(c *JoseConfig) { c.headers[name] = value }
}

// Headers adds headers.
func Headers(h map[string]interface{}) func(*JoseConfig) {
	return func(c *JoseConfig) {
		for k, v := range h {
			c.headers[k] = v
		}
	}
}

var b64 = base64.RawURLEncoding

// Sign returns a compact token.
func Sign(payload string, alg string, key interface{}, options ...func(*JoseConfig)) (string, error) {
	c := &JoseConfig{headers: map[string]interface{}{}}
	for _, o := range options {
		o(c)
	}
	c.headers["alg"] = alg
	c.headers["typ"] = "JWT"
	h, err := json.Marshal(c.headers)
	if err != nil {
		return "", err
	}
	in := b64.EncodeToString(h) + "." + b64.EncodeToString([]byte(payload))
	sig, err := sign(alg, in, key)
	if err != nil {
		return "", err
	}
	return in + "." + b64.EncodeToString(sig), nil
}

func hashOf(alg string) crypto.Hash {
	switch alg {
	case RS384:
		return crypto.SHA384
	case RS512:
		return crypto.SHA512
	}
	return crypto.SHA256
}

func digest(alg, in string) []byte {
	h := hashOf(alg).New()
	h.Write([]byte(in))
	return h.Sum(nil)
}

func sign(alg, in string, key interface{}) ([]byte, error) {
	switch alg {
	case NONE:
		if key != nil {
			return nil, errors.New("PlaintextAlgorithm.Sign(): expects key to be nil")
		}
		return []byte{}, nil
	case HS256:
		k, ok := key.([]byte)
		if !ok {
			return nil, errors.New("HmacUsingSha.Sign(): expects key to be '[]byte' array")
		}
		m := hmac.New(crypto.SHA256.New, k)
		m.Write([]byte(in))
		return m.Sum(nil), nil
	case RS256, RS384, RS512:
		k, ok := key.(*rsa.PrivateKey)
		if !ok {
			return nil, errors.New("RsaUsingSha.Sign(): expects key to be '*rsa.PrivateKey'")
		}
		return rsa.SignPKCS1v15(rand.Reader, k, hashOf(alg), digest(alg, in))
	}
	return nil, fmt.Errorf("jwt.Sign(): unknown algorithm: '%s'", alg)
}

func verify(alg, in string, sig []byte, key interface{}) error {
	switch alg {
	case NONE:
		if key != nil {
			return errors.New("PlaintextAlgorithm.Verify() expects key to be nil")
		}
		if len(sig) != 0 {
			return errors.New("PlaintextAlgorithm.Verify() expects signature to be empty.")
		}
		return nil
	case HS256:
		want, err := sign(alg, in, key)
		if err != nil {
			return err
		}
		if !hmac.Equal(want, sig) {
			return errors.New("HmacUsingSha.Verify(): Signature is invalid")
		}
		return nil
	case RS256, RS384, RS512:
		k, ok := key.(*rsa.PublicKey)
		if !ok {
			return errors.New("RsaUsingSha.Verify(): expects key to be '*rsa.PublicKey'")
		}
		return rsa.VerifyPKCS1v15(k, hashOf(alg), digest(alg, in), sig)
	}
	return fmt.Errorf("jwt.Decode(): Unknown algorithm: '%s'", alg)
}

// Decode verifies a compact token. key may be a
// func(headers map[string]interface{}, payload string) interface{} that
// returns the key, or an error to give up with.
func Decode(token string, key interface{}) (string, map[string]interface{}, error) {
	parts := strings.Split(token, ".")
	if len(parts) != 3 {
		return "", nil, fmt.Errorf("jwt.Decode(): expected token of 3 or 5 parts but was given: %v parts", len(parts))
	}
	var raw [3][]byte
	for i, p := range parts {
		b, err := b64.DecodeString(p)
		if err != nil {
			return "", nil, err
		}
		raw[i] = b
	}
	var headers map[string]interface{}
	if err := json.Unmarshal(raw[0], &headers); err != nil {
		return "", nil, err
	}
	payload := string(raw[1])
	alg, ok := headers["alg"].(string)
	if !ok {
		return "", nil, errors.New("jwt.Decode(): required 'alg' header is missing or of invalid type")
	}
	if f, ok := key.(func(map[string]interface{}, string) interface{}); ok {
		key = f(headers, payload)
		if err, ok := key.(error); ok {
			return "", nil, err
		}
	}
	if err := verify(alg, parts[0]+"."+parts[1], raw[2], key); err != nil {
		return "", nil, err
	}
	return payload, headers, nil
}
