// Package jwk is a stand-in for github.com/lestrrat/go-jwx/jwk, which is not
// available offline. It offers the part of that package's API that goidc uses
// (RSA public keys in JWK sets, RFC 7517/7518) so that goidc's crypto package
// and key endpoint can be compiled and exercised.
package jwk

import (
	"crypto/rsa"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
)

const (
	AlgorithmKey = "alg"
	KeyIDKey     = "kid"
	KeyOpsKey    = "key_ops"
	KeyTypeKey   = "kty"
	KeyUsageKey  = "use"
)

type Key interface {
	Set(string, interface{}) error
	Get(string) (interface{}, bool)
	Alg() string
	Kid() string
	Kty() string
	Use() string
	Materialize() (interface{}, error)
}

type Set struct {
	Keys []Key `json:"keys"`
}

type essential struct{ alg, kid, use string }

func (h *essential) Set(k string, v interface{}) error {
	s, ok := v.(string)
	if !ok {
		return fmt.Errorf("invalid value for %s", k)
	}
	switch k {
	case AlgorithmKey:
		h.alg = s
	case KeyIDKey:
		h.kid = s
	case KeyUsageKey:
		h.use = s
	default:
		return fmt.Errorf("unsupported key: %s", k)
	}
	return nil
}

func (h *essential) Get(k string) (interface{}, bool) {
	switch k {
	case AlgorithmKey:
		return h.alg, h.alg != ""
	case KeyIDKey:
		return h.kid, h.kid != ""
	case KeyUsageKey:
		return h.use, h.use != ""
	}
	return nil, false
}
func (h *essential) Alg() string { return h.alg }
func (h *essential) Kid() string { return h.kid }
func (h *essential) Use() string { return h.use }

type RSAPublicKey struct {
	essential
	key *rsa.PublicKey
}

func NewRSAPublicKey(pk *rsa.PublicKey) (*RSAPublicKey, error) { return &RSAPublicKey{key: pk}, nil }
func (k *RSAPublicKey) Kty() string                            { return "RSA" }
func (k *RSAPublicKey) Materialize() (interface{}, error) {
	if k.key.N.Sign() == 0 {
		return nil, errors.New("missing parameter n")
	}
	return &rsa.PublicKey{N: new(big.Int).Set(k.key.N), E: k.key.E}, nil
}

type RSAPrivateKey struct {
	*RSAPublicKey
	key *rsa.PrivateKey
}

func NewRSAPrivateKey(pk *rsa.PrivateKey) (*RSAPrivateKey, error) {
	return &RSAPrivateKey{RSAPublicKey: &RSAPublicKey{key: &pk.PublicKey}, key: pk}, nil
}
func (k *RSAPrivateKey) Materialize() (interface{}, error) { return k.key, nil }

type SymmetricKey struct {
	essential
	Key []byte
}

func (k *SymmetricKey) Kty() string                       { return "oct" }
func (k *SymmetricKey) Materialize() (interface{}, error) { return k.Key, nil }

func New(key interface{}) (Key, error) {
	switch v := key.(type) {
	case *rsa.PublicKey:
		if v == nil {
			return nil, errors.New("non-nil rsa public key required")
		}
		return NewRSAPublicKey(v)
	case *rsa.PrivateKey:
		return NewRSAPrivateKey(v)
	case []byte:
		return &SymmetricKey{Key: v}, nil
	}
	return nil, fmt.Errorf("invalid key type %T", key)
}

type wire struct {
	Kty string `json:"kty"`
	Use string `json:"use,omitempty"`
	Alg string `json:"alg,omitempty"`
	Kid string `json:"kid,omitempty"`
	N   string `json:"n,omitempty"`
	E   string `json:"e,omitempty"`
	D   string `json:"d,omitempty"`
	K   string `json:"k,omitempty"`
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func (k *RSAPublicKey) wire() wire {
	return wire{Kty: "RSA", Use: k.use, Alg: k.alg, Kid: k.kid, N: b64(k.key.N.Bytes()), E: b64(big.NewInt(int64(k.key.E)).Bytes())}
}
func (k *RSAPublicKey) MarshalJSON() ([]byte, error) { return json.Marshal(k.wire()) }
func (k *RSAPrivateKey) MarshalJSON() ([]byte, error) {
	w := k.RSAPublicKey.wire()
	w.D = b64(k.key.D.Bytes())
	return json.Marshal(w)
}
func (k *SymmetricKey) MarshalJSON() ([]byte, error) {
	return json.Marshal(wire{Kty: "oct", Use: k.use, Alg: k.alg, Kid: k.kid, K: b64(k.Key)})
}

func (s Set) LookupKeyID(kid string) []Key {
	var keys []Key
	for _, k := range s.Keys {
		if k.Kid() == kid {
			keys = append(keys, k)
		}
	}
	return keys
}

func fromWire(w wire) (Key, error) {
	dec := base64.RawURLEncoding.DecodeString
	h := essential{alg: w.Alg, kid: w.Kid, use: w.Use}
	switch w.Kty {
	case "RSA":
		n, err := dec(w.N)
		if err != nil {
			return nil, err
		}
		e, err := dec(w.E)
		if err != nil {
			return nil, err
		}
		if len(n) == 0 || len(e) == 0 || len(e) > 7 {
			return nil, errors.New("missing or invalid parameter n or e")
		}
		pub := &RSAPublicKey{essential: h, key: &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}}
		if w.D != "" {
			d, err := dec(w.D)
			if err != nil {
				return nil, err
			}
			return &RSAPrivateKey{RSAPublicKey: pub, key: &rsa.PrivateKey{PublicKey: *pub.key, D: new(big.Int).SetBytes(d)}}, nil
		}
		return pub, nil
	case "oct":
		k, err := dec(w.K)
		if err != nil {
			return nil, err
		}
		return &SymmetricKey{essential: h, Key: k}, nil
	}
	return nil, fmt.Errorf("unsupported kty %q", w.Kty)
}

func Parse(buf []byte) (*Set, error) {
	var doc struct {
		Keys []wire `json:"keys"`
		wire
	}
	if err := json.Unmarshal(buf, &doc); err != nil {
		return nil, err
	}
	ws := doc.Keys
	if ws == nil {
		ws = []wire{doc.wire}
	}
	set := &Set{}
	for _, w := range ws {
		k, err := fromWire(w)
		if err != nil {
			return nil, err
		}
		set.Keys = append(set.Keys, k)
	}
	return set, nil
}

func ParseString(s string) (*Set, error) { return Parse([]byte(s)) }

func ParseReader(r io.Reader) (*Set, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return Parse(b)
}

func FetchFile(path string) (*Set, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return Parse(b)
}
