// Package keys decides L06: publishing and loading of keys. It is apart from
// the other checks because only it compiles jwk_endpoint.go, against a stand-in
// for the JWK module, which is not installed.
package keys

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/crypto"
	"pgregory.net/rapid"
	"verif/props"
	"verif/world"
)

// Key describes an RSA public key: "rsa1" and so on name real ones, otherwise
// N (hex) and E are given.
type Key struct {
	Name string `json:",omitempty"`
	N    string `json:",omitempty"`
	E    int    `json:",omitempty"`
}

func (k Key) pub() *rsa.PublicKey {
	if k.Name != "" {
		return &world.Key(k.Name).(*rsa.PrivateKey).PublicKey
	}
	n, _ := new(big.Int).SetString(k.N, 16)
	return &rsa.PublicKey{N: n, E: k.E}
}

type Entry struct {
	Kid  string
	Key  Key
	File bool `json:",omitempty"`
}

// Case is a set of keys to publish, a document to read and a PEM text to load.
type Case struct {
	Publish []Entry
	Other   []Entry `json:",omitempty"` // keys of a second endpoint
	Lookup  string  // an id to look for
	// document: 0 as served, otherwise corrupted in the named way
	Doc string
	// PEM
	Kind  string // what the PEM holds
	Key   Key
	Type  string `json:",omitempty"` // block type, if not the usual
	Mut   string `json:",omitempty"`
	Pos   int    `json:",omitempty"`
	File  bool   `json:",omitempty"`
	CRLF  bool   `json:",omitempty"`
	Lead  string `json:",omitempty"`
	Trail string `json:",omitempty"`
}

func guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprintf("panic: %v\n%.1500s", e, debug.Stack())
		}
	}()
	f()
	return ""
}

func pubPEM(k *rsa.PublicKey) string {
	b, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		panic(err)
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

func equal(a, b *rsa.PublicKey) bool { return a != nil && b != nil && a.E == b.E && a.N.Cmp(b.N) == 0 }

func show(k *rsa.PublicKey) string {
	if k == nil {
		return "nil"
	}
	return fmt.Sprintf("{N %.40x…(%d bits) E %d}", k.N, k.N.BitLen(), k.E)
}

func tempFile(data []byte) string {
	d, err := os.MkdirTemp("", "verif-pem")
	if err != nil {
		panic(err)
	}
	f := filepath.Join(d, "k ey.pem")
	if err := os.WriteFile(f, data, 0o600); err != nil {
		panic(err)
	}
	return f
}

func check(c *Case) *props.Result {
	res := &props.Result{}
	bad := func(f string, a ...interface{}) { res.Fail = append(res.Fail, fmt.Sprintf(f, a...)) }
	if p := guard(func() { publish(c, res, bad) }); p != "" {
		bad("publishing: %s", p)
	}
	if p := guard(func() { load(c, res, bad) }); p != "" {
		bad("loading: %s", p)
	}
	return res
}

func class(res *props.Result, s string) { res.Classes = append(res.Classes, s) }

func publish(c *Case, res *props.Result, bad func(string, ...interface{})) {
	ep, ep2 := goidc.NewJWKEndpoint(), goidc.NewJWKEndpoint()
	dir := filepath.Dir(tempFile(nil))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "k ey.pem") // one file, replaced for each key
	add := func(ep *goidc.JWKEndpoint, es []Entry) map[string]*rsa.PublicKey {
		want := map[string]*rsa.PublicKey{}
		for _, e := range es {
			k := e.Key.pub()
			if e.File {
				if err := os.WriteFile(path, []byte(pubPEM(k)), 0o600); err != nil {
					panic(err)
				}
				ep.AddFromFile(e.Kid, path)
			} else {
				ep.AddFromText(e.Kid, pubPEM(k))
			}
			want[e.Kid] = k
		}
		return want
	}
	want := add(ep, c.Publish)
	want2 := add(ep2, c.Other)
	h := ep.Handler()
	h2 := ep2.Handler()
	doc := served(h, want, bad)
	served(h2, want2, bad)
	if len(want) > 1 {
		class(res, "several keys served")
	}
	if len(want2) > 0 {
		class(res, "second endpoint")
	}
	if len(want) > 0 {
		res.NonTrivial = true
	}
	read(c, res, doc, want, bad)
}

// served fetches the document and compares it with the keys added.
func served(h http.HandlerFunc, want map[string]*rsa.PublicKey, bad func(string, ...interface{})) string {
	var doc string
	for i := 0; i < 2; i++ {
		rec := world.NewRec()
		req, _ := http.NewRequest("GET", "http://op.example/jwks", nil)
		h(rec, req)
		if rec.Code != 200 || !strings.HasPrefix(rec.Head().Get("Content-Type"), "application/j") {
			bad("served with status %d, content type %q", rec.Code, rec.Head().Get("Content-Type"))
		}
		if i > 0 && rec.Body.String() != doc {
			bad("served document changed from %q to %q", doc, rec.Body.String())
		}
		doc = rec.Body.String()
	}
	var set struct {
		Keys []map[string]interface{} `json:"keys"`
	}
	if err := json.Unmarshal([]byte(doc), &set); err != nil {
		bad("served document %q: %v", doc, err)
		return doc
	}
	seen := map[string]bool{}
	for _, k := range set.Keys {
		kid, _ := k["kid"].(string)
		w, ok := want[kid]
		if !ok || seen[kid] {
			bad("served key id %q, which is not one (or a second one) of those added", kid)
			continue
		}
		seen[kid] = true
		n, err1 := b64(k["n"])
		e, err2 := b64(k["e"])
		got := &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}
		if k["kty"] != "RSA" || err1 != nil || err2 != nil || !equal(got, w) {
			bad("served key %q is %v, added was %s", kid, k, show(w))
		}
		for _, x := range []string{"d", "p", "q", "dp", "dq", "qi", "k"} {
			if k[x] != nil {
				bad("served key %q has the private member %q", kid, x)
			}
		}
	}
	for kid := range want {
		if !seen[kid] {
			bad("key %q is not served: %q", kid, doc)
		}
	}
	return doc
}

// read loads keys from the served document and from corrupted ones.
func read(c *Case, res *props.Result, doc string, want map[string]*rsa.PublicKey, bad func(string, ...interface{})) {
	var kids []string
	for kid := range want {
		kids = append(kids, kid)
	}
	sort.Strings(kids)
	for _, kid := range append(kids, c.Lookup) {
		got, err := crypto.LoadPublicKeyFromJWK(doc, kid)
		if w, ok := want[kid]; ok {
			if err != nil || !equal(got, w) {
				bad("loading %q from the served document gives %s, %v", kid, show(got), err)
			}
		} else {
			class(res, "unknown key id")
			if err == nil {
				bad("loading the unknown key id %q gives %s", kid, show(got))
			}
		}
	}
	// corrupted documents
	if c.Doc == "" || len(kids) == 0 {
		return
	}
	kid := kids[0]
	class(res, "document: "+c.Doc)
	text, mustFail := corrupt(doc, kid, c)
	p := guard(func() {
		got, err := crypto.LoadPublicKeyFromJWK(text, kid)
		if err == nil && (mustFail || !equal(got, want[kid])) {
			bad("loading %q from the corrupted document (%s) %q gives %s", kid, c.Doc, text, show(got))
		}
	})
	if p != "" {
		bad("corrupted document (%s) %q: %s", c.Doc, text, p)
	}
}

func b64(x interface{}) ([]byte, error) {
	s, ok := x.(string)
	if !ok {
		return nil, fmt.Errorf("not a string")
	}
	return base64.RawURLEncoding.DecodeString(s)
}

var docMuts = []string{"truncated", "private", "symmetric", "no keys", "not json", "kid gone", "array", "empty", "null", "bad n", "no n"}

// corrupt changes the served document so that there is no public key of that
// id to be found in it.
func corrupt(doc, kid string, c *Case) (string, bool) {
	var m map[string]interface{}
	json.Unmarshal([]byte(doc), &m)
	ks := m["keys"].([]interface{})
	var k map[string]interface{}
	for _, x := range ks {
		if x.(map[string]interface{})["kid"] == kid {
			k = x.(map[string]interface{})
		}
	}
	if k == nil {
		return "", true
	}
	switch c.Doc {
	case "truncated":
		return doc[:(c.Pos%len(doc)+len(doc))%len(doc)], true
	case "private":
		k["d"] = k["n"]
	case "symmetric":
		for x := range k {
			delete(k, x)
		}
		k["kty"], k["k"], k["kid"] = "oct", "AAAA", kid
	case "no keys":
		m["keys"] = []interface{}{}
	case "kid gone":
		delete(k, "kid")
	case "array":
		b, _ := json.Marshal(ks)
		return string(b), true
	case "not json":
		return "-----BEGIN PUBLIC KEY-----", true
	case "empty":
		return "", true
	case "null":
		return "null", true
	case "bad n":
		k["n"] = "!!!"
	case "no n":
		delete(k, "n")
	}
	b, _ := json.Marshal(m)
	return string(b), true
}

var ecPriv *ecdsa.PrivateKey

// block makes the DER content and usual block type of the named kind.
func block(c *Case) (string, []byte) {
	rsaPriv := func() *rsa.PrivateKey {
		n := c.Key.Name
		if n == "" {
			n = "rsa1"
		}
		return world.Key(n).(*rsa.PrivateKey)
	}
	if ecPriv == nil {
		ecPriv, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	}
	var b []byte
	switch c.Kind {
	case "pkix":
		b, _ = x509.MarshalPKIXPublicKey(c.Key.pub())
		return "PUBLIC KEY", b
	case "pkcs1":
		return "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(rsaPriv())
	case "pkcs1pub":
		return "RSA PUBLIC KEY", x509.MarshalPKCS1PublicKey(c.Key.pub())
	case "pkcs8":
		b, _ = x509.MarshalPKCS8PrivateKey(rsaPriv())
		return "PRIVATE KEY", b
	case "ecpub":
		b, _ = x509.MarshalPKIXPublicKey(&ecPriv.PublicKey)
		return "PUBLIC KEY", b
	case "ecpriv":
		b, _ = x509.MarshalECPrivateKey(ecPriv)
		return "EC PRIVATE KEY", b
	case "ecpkcs8":
		b, _ = x509.MarshalPKCS8PrivateKey(ecPriv)
		return "PRIVATE KEY", b
	}
	return "PUBLIC KEY", nil
}

func load(c *Case, res *props.Result, bad func(string, ...interface{})) {
	typ, der := block(c)
	if c.Type != "" {
		typ = c.Type
	}
	if len(der) > 0 {
		i := (c.Pos%len(der) + len(der)) % len(der)
		switch c.Mut {
		case "derflip":
			der = append([]byte(nil), der...)
			der[i] ^= byte(1 << uint(c.Pos%8&7))
		case "dertrunc":
			der = der[:i]
		case "derextra":
			der = append(append([]byte(nil), der...), 0)
		}
	}
	text := string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
	if c.CRLF {
		text = strings.ReplaceAll(text, "\n", "\r\n")
	}
	text = c.Lead + text + c.Trail
	i := (c.Pos%len(text) + len(text)) % len(text)
	switch c.Mut {
	case "trunc":
		text = text[:i]
	case "flip":
		text = text[:i] + string(rune('A'+c.Pos%26&31)) + text[i+1:]
	case "dropline":
		l := strings.SplitAfter(text, "\n")
		j := i % len(l)
		text = strings.Join(append(append([]string(nil), l[:j]...), l[j+1:]...), "")
	case "empty":
		text = ""
	case "noend":
		text = strings.Replace(text, "-----END", "END", 1)
	}
	data := []byte(text)
	// what the standard library makes of it
	var wantPub *rsa.PublicKey
	var wantPriv *rsa.PrivateKey
	if b, _ := pem.Decode(data); b != nil {
		if b.Type == "PUBLIC KEY" {
			if k, err := x509.ParsePKIXPublicKey(b.Bytes); err == nil {
				wantPub, _ = k.(*rsa.PublicKey)
			}
		}
		if b.Type == "RSA PRIVATE KEY" {
			if k, err := x509.ParsePKCS1PrivateKey(b.Bytes); err == nil {
				wantPriv = k
			}
		}
	}
	if c.Mut == "" && c.Type == "" && c.Lead == "" {
		if c.Kind == "pkix" && !equal(wantPub, c.Key.pub()) || c.Kind == "pkcs1" && wantPriv == nil {
			panic("harness: the oracle does not read its own key")
		}
	}
	type pubf struct {
		n string
		k *rsa.PublicKey
		e error
	}
	type prvf struct {
		n string
		k *rsa.PrivateKey
		e error
	}
	var pubs []pubf
	var prvs []prvf
	k, e := crypto.LoadPublicKeyFromText(text)
	pubs = append(pubs, pubf{"LoadPublicKeyFromText", k, e})
	k, e = crypto.LoadPublicKeyFromData(append([]byte(nil), data...))
	pubs = append(pubs, pubf{"LoadPublicKeyFromData", k, e})
	p, e := crypto.LoadPrivateKeyFromText(text)
	prvs = append(prvs, prvf{"LoadPrivateKeyFromText", p, e})
	p, e = crypto.LoadPrivateKeyFromData(append([]byte(nil), data...))
	prvs = append(prvs, prvf{"LoadPrivateKeyFromData", p, e})
	if c.File {
		f := tempFile(data)
		k, e = crypto.LoadPublicKeyFromFile(f)
		pubs = append(pubs, pubf{"LoadPublicKeyFromFile", k, e})
		p, e = crypto.LoadPrivateKeyFromFile(f)
		prvs = append(prvs, prvf{"LoadPrivateKeyFromFile", p, e})
		// the same file with another key
		if err := os.WriteFile(f, []byte(pubPEM(Key{Name: "rsa2"}.pub())), 0o600); err != nil {
			panic(err)
		}
		if k, e := crypto.LoadPublicKeyFromFile(f); e != nil || !equal(k, Key{Name: "rsa2"}.pub()) {
			bad("LoadPublicKeyFromFile of a replaced file gives %s, %v", show(k), e)
		}
		os.RemoveAll(filepath.Dir(f))
		if k, e := crypto.LoadPublicKeyFromFile(f); e == nil {
			bad("LoadPublicKeyFromFile of a missing file gives %s", show(k))
		}
		if k, e := crypto.LoadPrivateKeyFromFile(f); e == nil {
			bad("LoadPrivateKeyFromFile of a missing file gives %v", k)
		}
		class(res, "file")
	}
	say := fmt.Sprintf("%s %s %s at %d (%q)", c.Kind, c.Type, c.Mut, c.Pos, text)
	// other encodings of the right key may be accepted as well
	alsoPub := c.Kind == "pkcs1pub" || c.Type != "" && c.Kind == "pkix"
	for _, x := range pubs {
		switch {
		case wantPub != nil && (x.e != nil || !equal(x.k, wantPub)):
			bad("%s of %s gives %s, %v, expected %s", x.n, say, show(x.k), x.e, show(wantPub))
		case wantPub == nil && x.e == nil && !(alsoPub && equal(x.k, c.Key.pub())):
			bad("%s of %s gives %s, expected an error", x.n, say, show(x.k))
		}
	}
	alsoPriv := c.Kind == "pkcs8" || c.Type != "" && c.Kind == "pkcs1"
	for _, x := range prvs {
		switch {
		case wantPriv != nil && (x.e != nil || !x.k.Equal(wantPriv)):
			bad("%s of %s gives %v, expected the encoded key", x.n, say, x.e)
		case wantPriv == nil && x.e == nil && !(alsoPriv && x.k != nil && x.k.Equal(world.Key(orRSA1(c.Key.Name)))):
			bad("%s of %s gives a key, expected an error", x.n, say)
		}
	}
	switch {
	case wantPub != nil:
		class(res, "public key loads")
	case wantPriv != nil:
		class(res, "private key loads")
	default:
		class(res, "no key to load")
	}
	if c.Mut != "" {
		class(res, "mutation "+c.Mut)
	}
}

func orRSA1(n string) string {
	if n == "" {
		return "rsa1"
	}
	return n
}

// ---- generation

func genKey(t *rapid.T) Key {
	if props.Chance(t, 30) {
		return Key{Name: props.Pick(t, "rsa1", "rsa2")}
	}
	bits := props.Pick(t, 512, 1024, 2048, 1000, 1023, 2047, 768)
	b := make([]byte, (bits+7)/8)
	for i := range b {
		b[i] = byte(props.U(t, 256))
	}
	b[len(b)-1] |= 1
	if props.Chance(t, 20) {
		b[0] = 0
	}
	b[0] &= 0xff >> uint(len(b)*8-bits)
	if props.Chance(t, 40) { // as in real keys
		b[0] |= 1 << uint((bits-1)%8)
	}
	n := new(big.Int).SetBytes(b)
	return Key{N: n.Text(16), E: props.Pick(t, 65537, 3, 17, 257, 65539, 1<<31-1, 4294967297>>1|1)}
}

var kidPool = []string{"kid-1", "2020-01", "k/2 é", `"quoted"`, "kid-10", "KID-1", "a\\b", "<&>", "世界", "kid-1 ", "1", "kid_1", strings.Repeat("long-id-", 40) + "1", strings.Repeat("long-id-", 40) + "2", "a b", "keys"}

func gen(t *rapid.T) interface{} {
	c := &Case{}
	entries := func(n int) (l []Entry) {
		for i := 0; i < n; i++ {
			l = append(l, Entry{Kid: kidPool[props.U(t, len(kidPool))], Key: genKey(t), File: props.Chance(t, 15)})
		}
		return l
	}
	n := props.U(t, 4)
	if props.Chance(t, 10) {
		n = props.U(t, 12)
	}
	c.Publish = entries(n)
	if n > 1 && props.Chance(t, 20) { // the same key under another id
		c.Publish[n-1].Key = c.Publish[0].Key
	}
	if props.Chance(t, 20) {
		c.Other = entries(1 + props.U(t, 2))
	}
	c.Lookup = kidPool[props.U(t, len(kidPool))]
	if props.Chance(t, 10) {
		c.Lookup = props.Pick(t, "", "kid", "0")
	}
	if props.Chance(t, 50) {
		c.Doc = docMuts[props.U(t, len(docMuts))]
	}
	c.Kind = props.Pick(t, "pkix", "pkix", "pkix", "pkcs1", "pkcs1", "pkcs1pub", "pkcs8", "ecpub", "ecpriv", "ecpkcs8", "nothing")
	c.Key = genKey(t)
	if props.Chance(t, 15) {
		c.Type = props.Pick(t, "PUBLIC KEY", "RSA PRIVATE KEY", "RSA PUBLIC KEY", "PRIVATE KEY", "CERTIFICATE", "public key", "EC PRIVATE KEY")
	}
	c.Pos = props.U(t, 3000)
	if props.Chance(t, 50) {
		c.Mut = props.Pick(t, "derflip", "derflip", "dertrunc", "derextra", "trunc", "flip", "flip", "dropline", "empty", "noend")
	}
	c.CRLF = props.Chance(t, 20)
	c.File = props.Chance(t, 15)
	if props.Chance(t, 15) {
		c.Lead = props.Pick(t, "\n\n", "some text\n", "Subject: x\n-----BEGIN\n", pubPEM(Key{Name: "rsa2"}.pub()))
	}
	if props.Chance(t, 15) {
		c.Trail = props.Pick(t, "\n", "trailing text", pubPEM(Key{Name: "rsa2"}.pub()))
	}
	return c
}

func init() {
	props.Register(&props.Prop{
		ID: "L06", Level: "exploration", Quick: 8000, Thorough: 250000,
		Rule: "Sets of RSA keys (real ones and arbitrary moduli) published under arbitrary ids and loaded back; corrupted documents; PEM texts of several kinds, block types and corruptions, compared with what the standard library reads. Non-trivial: at least one key is published.",
		Gen:  gen, New: func() interface{} { return &Case{} },
		Check:  func(c interface{}) *props.Result { return check(c.(*Case)) },
		Assume: []string{"The module github.com/lestrrat/go-jwx is not installed; harness/shim stands in for it, so what that module itself does is not examined."},
	})
}
