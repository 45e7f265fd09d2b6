package world

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"

	_ "crypto/sha256"
	_ "crypto/sha512"
)

// Key returns the signing key with the given name: "rsa*" and "ec*" are fixed
// key pairs, anything else is the HMAC key made of the name itself.
func Key(name string) interface{} {
	keyOnce.Do(loadKeys)
	if k, ok := keys[name]; ok {
		return k
	}
	if name == "" {
		return nil
	}
	return []byte("hmac-secret:" + name)
}

// PublicKey is the verification key for Key(name).
func PublicKey(name string) interface{} {
	switch k := Key(name).(type) {
	case *rsa.PrivateKey:
		return &k.PublicKey
	case *ecdsa.PrivateKey:
		return &k.PublicKey
	default:
		return k
	}
}

var (
	keyOnce sync.Once
	keys    map[string]interface{}
)

func loadKeys() {
	keys = map[string]interface{}{}
	for n, p := range keyPEM {
		b, _ := pem.Decode([]byte(p))
		if b.Type == "RSA PRIVATE KEY" {
			k, err := x509.ParsePKCS1PrivateKey(b.Bytes)
			if err != nil {
				panic(err)
			}
			keys[n] = k
		} else {
			k, err := x509.ParseECPrivateKey(b.Bytes)
			if err != nil {
				panic(err)
			}
			keys[n] = k
		}
	}
}

func hashFor(alg string) (crypto.Hash, bool) {
	switch {
	case strings.HasSuffix(alg, "256"):
		return crypto.SHA256, true
	case strings.HasSuffix(alg, "384"):
		return crypto.SHA384, true
	case strings.HasSuffix(alg, "512"):
		return crypto.SHA512, true
	}
	return 0, false
}

func b64u(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// SignJWT makes a compact JWS, independently of the library goidc uses.
func SignJWT(header map[string]interface{}, payload []byte, alg string, key interface{}) (string, error) {
	h, err := json.Marshal(header)
	if err != nil {
		return "", err
	}
	in := b64u(h) + "." + b64u(payload)
	if alg == "none" {
		return in + ".", nil
	}
	sig, err := signRaw(in, alg, key)
	if err != nil {
		return "", err
	}
	return in + "." + b64u(sig), nil
}

// SignRaw signs the text.
func SignRaw(in, alg string, key interface{}) ([]byte, error) { return signRaw(in, alg, key) }

func signRaw(in, alg string, key interface{}) ([]byte, error) {
	hf, ok := hashFor(alg)
	if !ok {
		return nil, fmt.Errorf("alg %q", alg)
	}
	d := hf.New()
	d.Write([]byte(in))
	sum := d.Sum(nil)
	switch alg[:2] {
	case "HS":
		k, ok := key.([]byte)
		if !ok {
			return nil, errors.New("key type")
		}
		m := hmac.New(hf.New, k)
		m.Write([]byte(in))
		return m.Sum(nil), nil
	case "RS":
		k, ok := key.(*rsa.PrivateKey)
		if !ok {
			return nil, errors.New("key type")
		}
		return rsa.SignPKCS1v15(nil, k, hf, sum)
	case "PS":
		k, ok := key.(*rsa.PrivateKey)
		if !ok {
			return nil, errors.New("key type")
		}
		return rsa.SignPSS(rand.Reader, k, hf, sum, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	case "ES":
		k, ok := key.(*ecdsa.PrivateKey)
		if !ok {
			return nil, errors.New("key type")
		}
		r, s, err := ecdsa.Sign(rand.Reader, k, sum)
		if err != nil {
			return nil, err
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out, nil
	}
	return nil, fmt.Errorf("alg %q", alg)
}

// ParsedJWT is a compact JWS split into parts; nothing is verified.
type ParsedJWT struct {
	Header, Claims map[string]interface{}
	Input          string
	Sig            []byte
}

func decodeStrict(s string) ([]byte, error) { return base64.RawURLEncoding.Strict().DecodeString(s) }

func decodeObj(b []byte) (map[string]interface{}, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var m map[string]interface{}
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, errors.New("trailing data")
	}
	if m == nil {
		return nil, errors.New("not an object")
	}
	return m, nil
}

// ParseJWT decodes a compact JWS.
func ParseJWT(s string) (*ParsedJWT, error) {
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return nil, fmt.Errorf("%d segments", len(p))
	}
	hb, err := decodeStrict(p[0])
	if err != nil {
		return nil, err
	}
	cb, err := decodeStrict(p[1])
	if err != nil {
		return nil, err
	}
	sig, err := decodeStrict(p[2])
	if err != nil {
		return nil, err
	}
	h, err := decodeObj(hb)
	if err != nil {
		return nil, err
	}
	c, err := decodeObj(cb)
	if err != nil {
		return nil, err
	}
	return &ParsedJWT{h, c, p[0] + "." + p[1], sig}, nil
}

// Verify checks the signature with alg under the (public or HMAC) key.
func (p *ParsedJWT) Verify(alg string, key interface{}) error {
	hf, ok := hashFor(alg)
	if !ok || len(alg) != 5 {
		return fmt.Errorf("alg %q", alg)
	}
	d := hf.New()
	d.Write([]byte(p.Input))
	sum := d.Sum(nil)
	switch alg[:2] {
	case "HS":
		k, ok := key.([]byte)
		if !ok {
			return errors.New("key type")
		}
		m := hmac.New(hf.New, k)
		m.Write([]byte(p.Input))
		if !hmac.Equal(m.Sum(nil), p.Sig) {
			return errors.New("bad HMAC")
		}
		return nil
	case "RS":
		k, ok := key.(*rsa.PublicKey)
		if !ok {
			return errors.New("key type")
		}
		return rsa.VerifyPKCS1v15(k, hf, sum, p.Sig)
	case "PS":
		k, ok := key.(*rsa.PublicKey)
		if !ok {
			return errors.New("key type")
		}
		return rsa.VerifyPSS(k, hf, sum, p.Sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
	case "ES":
		k, ok := key.(*ecdsa.PublicKey)
		if !ok {
			return errors.New("key type")
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		if len(p.Sig) != 2*n {
			return errors.New("bad ECDSA signature length")
		}
		r, s := new(big.Int).SetBytes(p.Sig[:n]), new(big.Int).SetBytes(p.Sig[n:])
		if !ecdsa.Verify(k, sum, r, s) {
			return errors.New("bad ECDSA signature")
		}
		return nil
	}
	return fmt.Errorf("alg %q", alg)
}

// LeftHalf is the OpenID Connect at_hash/c_hash value: unpadded base64url of
// the left half of the hash that belongs to alg.
func LeftHalf(alg, v string) []byte {
	hf, _ := hashFor(alg)
	d := hf.New()
	d.Write([]byte(v))
	sum := d.Sum(nil)
	return sum[:len(sum)/2]
}

// KeyFor names a key of the right kind for alg (variant "a" or "b").
func KeyFor(alg, variant string) string {
	switch {
	case strings.HasPrefix(alg, "RS"), strings.HasPrefix(alg, "PS"):
		if variant == "a" {
			return "rsa1"
		}
		return "rsa2"
	case alg == "ES256":
		return "ec256" + variant
	case alg == "ES384":
		return "ec384" + variant
	case alg == "ES512":
		return "ec521" + variant
	}
	return "hk-" + variant
}
