package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/lyokato/goidc/basic_auth"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/pkce"
	"pgregory.net/rapid"
	"verif/world"
)

// ---- L03: PKCE

// PKCECase is a verifier and a challenge, or a run of the generator.
type PKCECase struct {
	Verifier  B
	Challenge B
	Other     B // another verifier
	Method    string
	Raw       B
	Generate  int   `json:",omitempty"`
	Workers   int   `json:",omitempty"`
	Seed      int64 `json:",omitempty"`
}

func checkPKCE(c *PKCECase) *Result {
	res := &Result{}
	bad := func(f string, a ...interface{}) {
		if len(res.Fail) < 10 {
			res.Fail = append(res.Fail, fmt.Sprintf(f, a...))
		}
	}
	p := guard(func() {
		if c.Generate > 0 {
			checkGenerator(c, res, bad)
			return
		}
		v, ch := string(c.Verifier), string(c.Challenge)
		if got := pkce.S256Encode(v); got != s256(v) {
			bad("S256Encode(%q) = %q, expected %q", v, got, s256(v))
		}
		if got := pkce.EncodeBase64WithoutPadding([]byte(c.Raw)); got != base64.RawURLEncoding.EncodeToString([]byte(c.Raw)) {
			bad("EncodeBase64WithoutPadding(%x) = %q", string(c.Raw), got)
		}
		f, err := pkce.FindVerifierByMethod(c.Method)
		known := c.Method == "plain" || c.Method == "S256"
		if known != (err == nil) || err == nil && f == nil {
			bad("FindVerifierByMethod(%q) = %v, %v", c.Method, f, err)
			return
		}
		if !known {
			res.class("unknown method")
			return
		}
		right := v
		if c.Method == "S256" {
			right = s256(v)
		}
		if got := f.Verify(ch, v); got != (ch == right) {
			bad("%s: Verify(%q, %q) = %v", c.Method, ch, v, got)
		}
		if !f.Verify(right, v) {
			bad("%s: Verify(%q, %q) = false", c.Method, right, v)
		}
		// a neighbouring verifier
		if o := string(c.Other); o != v {
			if f.Verify(right, o) {
				bad("%s: Verify(%q, %q) = true, though %q belongs to %q", c.Method, right, o, right, v)
			}
			if got := pkce.S256Encode(o); got != s256(o) {
				bad("S256Encode(%q) = %q, expected %q", o, got, s256(o))
			}
		}
		res.class(fmt.Sprintf("%s verifies: %v", c.Method, ch == right))
		res.NonTrivial = v != ""
	})
	if p != "" {
		bad("%s", p)
	}
	return res
}

func checkGenerator(c *PKCECase, res *Result, bad func(string, ...interface{})) {
	res.NonTrivial = true
	res.class("generator")
	// not reproducible from a shared seeded generator
	for i := int64(0); i < 3; i++ {
		mrand.Seed(c.Seed + i)
		a := pkce.GenRandomCodeVerifier()
		mrand.Seed(c.Seed + i)
		if b := pkce.GenRandomCodeVerifier(); a == b {
			bad("the verifier %q is determined by the state of math/rand", a)
		}
	}
	// not reproducible from the clock
	mrand.Seed(c.Seed)
	fresh := mrand.New(mrand.NewSource(c.Seed)).Int63()
	t0 := time.Now()
	v := pkce.GenRandomCodeVerifier()
	t1 := time.Now()
	next := mrand.Int63()
	data, _ := base64.RawURLEncoding.DecodeString(v)
	if s, how := clockSeed(data, t0, t1, next, next != fresh); how != "" {
		bad("the verifier %q is that of a generator seeded with the time of day %d (%s)", v, s, how)
	}
	// form, repetition and distribution
	out := make([][]string, c.Workers)
	var wg sync.WaitGroup
	for w := range out {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < c.Generate/c.Workers; i++ {
				out[w] = append(out[w], pkce.GenRandomCodeVerifier())
			}
		}()
	}
	wg.Wait()
	seen := map[string]bool{}
	var count [32][256]bool
	var n [32]int
	var xor, dif [32][32]map[byte]bool
	total := 0
	for _, l := range out {
		for _, v := range l {
			total++
			if seen[v] {
				bad("verifier %q is repeated within %d", v, c.Generate)
				return
			}
			seen[v] = true
			d, err := base64.RawURLEncoding.Strict().DecodeString(v)
			if len(v) != 43 || err != nil || len(d) != 32 {
				bad("verifier %q is not 32 bytes in 43 unreserved characters", v)
				return
			}
			for i, b := range d {
				if !count[i][b] {
					count[i][b] = true
					n[i]++
				}
			}
			if total <= 300 {
				for i := range d {
					for j := i + 1; j < 32; j++ {
						if xor[i][j] == nil {
							xor[i][j], dif[i][j] = map[byte]bool{}, map[byte]bool{}
						}
						xor[i][j][d[i]^d[j]] = true
						dif[i][j][d[i]-d[j]] = true
					}
				}
			}
		}
	}
	if total >= 400 { // 202 of 256 values are expected of 400 draws
		for i := range n {
			for k := 0; k < 8; k++ {
				ones := 0
				for b := range count[i] {
					if count[i][b] && b>>k&1 == 1 {
						ones++
					}
				}
				if ones == 0 || ones == n[i] {
					bad("bit %d of byte %d of %d verifiers is constant", k, i, total)
				}
			}
			if n[i] < 150 {
				bad("byte %d of %d verifiers takes only %d values", i, total, n[i])
			}
			for j := i + 1; j < 32; j++ {
				if len(xor[i][j]) < 64 || len(dif[i][j]) < 64 {
					bad("bytes %d and %d of the verifiers depend on each other", i, j)
					return
				}
			}
		}
	}
}

// clockSeed looks for a time between t0 and t1 that explains data, or the next
// number of the shared generator if that was seeded meanwhile.
func clockSeed(data []byte, t0, t1 time.Time, next int64, touched bool) (int64, string) {
	if len(data) != 32 {
		return 0, ""
	}
	type unit struct {
		n    string
		a, b int64
	}
	us := []unit{{"seconds", t0.Unix(), t1.Unix()}, {"milliseconds", t0.UnixMilli(), t1.UnixMilli()}, {"microseconds", t0.UnixMicro(), t1.UnixMicro()}}
	if d := t1.UnixNano() - t0.UnixNano(); d < 60000 {
		us = append(us, unit{"nanoseconds", t0.UnixNano(), t1.UnixNano()})
	}
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	text := base64.RawURLEncoding.EncodeToString(data)
	for _, x := range us {
		for s := x.a; s <= x.b; s++ {
			src := mrand.NewSource(s).(mrand.Source64)
			first := src.Uint64()
			f63 := int64(first & (1<<63 - 1))
			f31 := int32(f63 >> 32)
			// all ways to make bytes that use the first number
			buf := make([]byte, 8)
			binary.LittleEndian.PutUint64(buf, first)
			if data[0] == byte(f31%256) || data[0] == byte(f31) || data[0] == byte(f63) || data[0] == buf[0] || data[0] == byte(first>>56) || data[0] == byte(f63>>56) || text[0] == alpha[int(f31)%64] || data[0] == byte(f63%255) || data[0] == byte(f31%255) {
				if how := explain(data, text, s, alpha); how != "" {
					return s, how + ", " + x.n
				}
			}
			if touched {
				g := mrand.New(mrand.NewSource(s))
				for i := 0; i < 100; i++ {
					if g.Int63() == next {
						return s, "the shared generator, " + x.n
					}
				}
			}
			v2 := mrand2.NewPCG(uint64(s), uint64(s))
			v3 := mrand2.NewPCG(uint64(s), 0)
			for _, p := range []*mrand2.PCG{v2, v3} {
				r := mrand2.New(p)
				ok := true
				for i := 0; i < 32 && ok; i++ {
					ok = byte(r.IntN(256)) == data[i]
				}
				if ok {
					return s, "math/rand/v2, " + x.n
				}
			}
			h := sha256.Sum256([]byte(fmt.Sprint(s)))
			binary.BigEndian.PutUint64(buf, uint64(s))
			h2 := sha256.Sum256(buf)
			if bytes.Equal(data, h[:]) || bytes.Equal(data, h2[:]) {
				return s, "a hash of the time, " + x.n
			}
		}
	}
	return 0, ""
}

func explain(data []byte, text string, seed int64, alpha string) string {
	ways := map[string]func(g *mrand.Rand) []byte{
		"Read": func(g *mrand.Rand) []byte { b := make([]byte, 32); g.Read(b); return b },
		"LE64": func(g *mrand.Rand) (b []byte) {
			for i := 0; i < 4; i++ {
				b = binary.LittleEndian.AppendUint64(b, g.Uint64())
			}
			return
		},
		"BE64": func(g *mrand.Rand) (b []byte) {
			for i := 0; i < 4; i++ {
				b = binary.BigEndian.AppendUint64(b, g.Uint64())
			}
			return
		},
		"LE63": func(g *mrand.Rand) (b []byte) {
			for i := 0; i < 4; i++ {
				b = binary.LittleEndian.AppendUint64(b, uint64(g.Int63()))
			}
			return
		},
		"BE63": func(g *mrand.Rand) (b []byte) {
			for i := 0; i < 4; i++ {
				b = binary.BigEndian.AppendUint64(b, uint64(g.Int63()))
			}
			return
		},
	}
	one := map[string]func(g *mrand.Rand) byte{
		"Intn(256)": func(g *mrand.Rand) byte { return byte(g.Intn(256)) },
		"Intn(255)": func(g *mrand.Rand) byte { return byte(g.Intn(255)) },
		"Int63":     func(g *mrand.Rand) byte { return byte(g.Int63()) },
		"Int31":     func(g *mrand.Rand) byte { return byte(g.Int31()) },
		"Uint32":    func(g *mrand.Rand) byte { return byte(g.Uint32()) },
		"Uint64":    func(g *mrand.Rand) byte { return byte(g.Uint64()) },
		"Int31n":    func(g *mrand.Rand) byte { return byte(g.Int31n(256)) },
	}
	for n, f := range one {
		f := f
		ways[n] = func(g *mrand.Rand) (b []byte) {
			for i := 0; i < 32; i++ {
				b = append(b, f(g))
			}
			return
		}
	}
	for n, f := range ways {
		if bytes.Equal(f(mrand.New(mrand.NewSource(seed))), data) {
			return n
		}
	}
	g := mrand.New(mrand.NewSource(seed))
	for i := range text[:42] {
		if text[i] != alpha[g.Intn(64)] {
			return ""
		}
	}
	return "characters"
}

func genPKCE(t *rapid.T) interface{} {
	c := &PKCECase{Method: pick(t, "S256", "plain", "S256", "plain", "S256", "plain", "S256", "plain", "S256", "plain", "S256", "plain", "S256", "plain", "S256", "plain", "s256", "PLAIN", "", "S512", " plain", "S256 ", "none", "S25", "S2567", "Plain", "sha256")}
	const un = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"
	n := pick(t, 43, 43, 44, 128, 1, 0, 64, 127, 129, 130, 255, 256, 43, 300)
	if chance(t, 2) {
		n = pick(t, 512, 1000, 5000)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(un[u(t, len(un))])
	}
	v := b.String()
	if chance(t, 25) {
		v = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, ""))
	}
	c.Verifier = B(v)
	right := v
	if c.Method != "plain" {
		right = s256(v)
	}
	ch := right
	switch u(t, 12) {
	case 1:
		ch = nearMiss(t, right)
	case 2:
		ch = right + "="
	case 3:
		ch = strings.NewReplacer("-", "+", "_", "/").Replace(right)
	case 4:
		h := sha256.Sum256([]byte(v))
		ch = fmt.Sprintf("%x", h[:])
	case 5:
		ch = v
	case 11: // the other way round
		c.Verifier, ch = B(s256(v)), v
	case 6:
		ch = s256(v)
	case 7:
		ch = ""
	case 8: // lax decoders accept other last characters
		if len(right) > 0 {
			i := strings.IndexByte(un, right[len(right)-1])
			ch = right[:len(right)-1] + string(un[(i+1+len(un))%len(un)])
		}
	case 9:
		ch = right + "\x00"
	case 10:
		h := sha256.Sum256([]byte(v))
		ch = base64.StdEncoding.EncodeToString(h[:])
	}
	c.Challenge = B(ch)
	o := []byte(c.Verifier)
	switch n := len(o); u(t, 4) {
	case 0:
		o = append(o, un[u(t, len(un))])
	case 1:
		if n > 0 {
			o = o[:n-1]
		}
	default: // one character, sometimes the last
		if n > 0 {
			i := n - 1
			if chance(t, 70) {
				i = u(t, n)
			}
			o[i] = un[u(t, len(un))]
		}
	}
	c.Other = B(o)
	c.Raw = B(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, ""))
	return c
}

// ---- L04: error renderings

type ErrCase struct {
	Type  int
	Desc  string
	URI   string
	State string
	Realm string
	Make  int
}

var errTable = []struct {
	t      oer.OAuthErrorType
	name   string
	status int
}{
	{oer.ErrAccessDenied, "access_denied", 403},
	{oer.ErrInvalidClient, "invalid_client", 400},
	{oer.ErrInvalidGrant, "invalid_grant", 400},
	{oer.ErrInvalidRequest, "invalid_request", 400},
	{oer.ErrInvalidScope, "invalid_scope", 400},
	{oer.ErrUnauthorizedClient, "unauthorized_client", 400},
	{oer.ErrUnsupportedGrantType, "unsupported_grant_type", 400},
	{oer.ErrUnsupportedResponseType, "unsupported_response_type", 400},
	{oer.ErrServerError, "server_error", 500},
	{oer.ErrTemporarilyUnavailable, "temporarily_unavailable", 500},
	{oer.ErrInvalidToken, "invalid_token", 401},
	{oer.ErrInsufficientScope, "insufficient_scope", 403},
	{oer.ErrInteractionRequired, "interaction_required", 500},
	{oer.ErrLoginRequired, "login_required", 500},
	{oer.ErrAccountSelectionRequired, "account_selection_required", 500},
	{oer.ErrConsentRequired, "consent_required", 500},
	{oer.ErrInvalidRequestURI, "invalid_request_uri", 500},
	{oer.ErrInvalidRequestObject, "invalid_request_object", 500},
	{oer.ErrRequestNotSupported, "request_not_supported", 500},
	{oer.ErrRequestURINotSupported, "request_uri_not_supported", 500},
	{oer.ErrRegistrationNotSupported, "registration_not_supported", 500},
}

func checkErr(c *ErrCase) *Result {
	res := &Result{}
	bad := func(f string, a ...interface{}) { res.Fail = append(res.Fail, fmt.Sprintf(f, a...)) }
	row := errTable[c.Type%len(errTable)]
	p := guard(func() {
		if row.t.String() != row.name {
			bad("error type %d is named %q, expected %q", int(row.t), row.t.String(), row.name)
		}
		want := map[string]string{"error": row.name}
		if c.Desc != "" {
			want["error_description"] = c.Desc
		}
		if c.URI != "" {
			want["error_uri"] = c.URI
		}
		var e *oer.OAuthError
		switch {
		case c.Desc == "" && c.URI == "" && c.Make == 0:
			e = oer.NewOAuthSimpleError(row.t)
		case c.URI == "" && c.Make == 0:
			e = oer.NewOAuthError(row.t, c.Desc)
		default:
			e = oer.NewOAuthDetailedError(row.t, c.Desc, c.URI)
		}
		// temporarily_unavailable is 503 in HTTP's own terms
		if s := e.StatusCode(); s != row.status && !(row.name == "temporarily_unavailable" && s == 503) {
			bad("%s has status %d, expected %d", row.name, s, row.status)
		}
		compare := func(how string, got map[string]string, w map[string]string) {
			for k, v := range w {
				if got[k] != v {
					bad("%s: %s is %q, expected %q", how, k, got[k], v)
				}
			}
			for k, v := range got {
				if _, ok := w[k]; !ok {
					bad("%s: unexpected %s %q", how, k, v)
				}
			}
		}
		// JSON
		var js map[string]string
		if err := json.Unmarshal(e.JSON(), &js); err != nil {
			bad("JSON %s: %v", e.JSON(), err)
		} else {
			compare("JSON", js, want)
		}
		// query
		wq := map[string]string{}
		for k, v := range want {
			wq[k] = v
		}
		if c.State != "" {
			wq["state"] = c.State
		}
		qs := e.Query(c.State)
		if strings.ContainsAny(qs, "?# \"<>;\r\n\t") {
			bad("query %q has characters that do not belong there", qs)
		}
		vs, err := url.ParseQuery(qs)
		if err != nil {
			bad("query %q: %v", qs, err)
		}
		gq := map[string]string{}
		for k, v := range vs {
			if len(v) != 1 {
				bad("query %q: %d times %s", qs, len(v), k)
			}
			gq[k] = v[0]
		}
		compare("query", gq, wq)
		// header
		if headerText(c.Desc) && headerText(c.URI) && headerText(c.Realm) {
			wh := map[string]string{}
			for k, v := range want {
				wh[k] = v
			}
			if c.Realm != "" {
				wh["realm"] = c.Realm
			}
			h := e.Header(c.Realm)
			if strings.ContainsAny(h, "\r\n\x00") {
				bad("header %q has control characters", h)
			}
			scheme, rest, _ := strings.Cut(h, " ")
			m, err := parseAuthParams(rest)
			if scheme != "Bearer" || err != nil {
				bad("header %q: %v", h, err)
			} else {
				compare("header", m, wh)
			}
			res.class("header")
		}
		if c.Desc != "" {
			res.NonTrivial = true
		}
		res.class(row.name)
		if strings.ContainsAny(c.Desc+c.URI+c.State+c.Realm, "\"\\&=<>%+#") {
			res.class("special characters")
		}
	})
	if p != "" {
		bad("%s", p)
	}
	return res
}

// headerText: printable text.
func headerText(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x7f || r > 0x7e && !strings.ContainsRune("éßñ世界Ωя", r) {
			return false
		}
	}
	return true
}

func anyText(t *rapid.T) string {
	switch u(t, 8) {
	case 0:
		return ""
	case 1:
		return pick(t, states...)
	case 2:
		return strings.ToValidUTF8(rapid.String().Draw(t, ""), "")
	case 3, 4:
		const cs = "abc XYZ019\"\\'&=<>%+#;,?/:@[]{}|~`!$()*.-_éßñ世界Ωя"
		rs := []rune(cs)
		n := u(t, 30)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(rs[u(t, len(rs))])
		}
		return b.String()
	case 6:
		if chance(t, 40) {
			return strings.Repeat(pick(t, "a", "a b ", "é", "\"", "\\", "0123456789", "&=%", "世"), pick(t, 17, 65, 129, 257, 1025)) + pick(t, "", "x", "\"")
		}
	case 5:
		return pick(t, `a "quoted" word`, `back\slash`, `\"`, `ends with \`, `"`, `a, error="x"`, `</script>`, "a\tb", "line\nbreak", "\u2028", "\u00a0", "%41", "a+b c")
	}
	return pick(t, "missing 'code' parameter", "https://op.example/errors#x?a=b&c=d", "protected resource")
}

func genErr(t *rapid.T) interface{} {
	return &ErrCase{Type: u(t, len(errTable)), Desc: anyText(t), URI: anyText(t), State: anyText(t), Realm: anyText(t), Make: u(t, 2)}
}

// ---- L05: Basic credentials

type BasicCase struct {
	ID, Secret B
	FormID     string
	FormSecret string
	InQuery    bool
	Header     string // "lib", "none", or a header of another scheme
	Wrong      string // a secret that differs
}

func checkBasic(c *BasicCase) *Result {
	res := &Result{}
	bad := func(f string, a ...interface{}) { res.Fail = append(res.Fail, fmt.Sprintf(f, a...)) }
	id, sec := string(c.ID), string(c.Secret)
	p := guard(func() {
		form := []KV{{"client_id", c.FormID}, {"client_secret", c.FormSecret}}
		r := httpRequest("POST", "/token", nil, form)
		if c.InQuery {
			r = httpRequest("GET", "/token", form, nil)
		}
		switch c.Header {
		case "lib":
			h := basic_auth.Header(id, sec)
			if h != "Basic "+basic_auth.Token(id, sec) {
				bad("Header is %q, Token %q", h, basic_auth.Token(id, sec))
			}
			for _, x := range []byte(h) {
				if x < 0x20 || x > 0x7e {
					bad("header %q has characters that do not belong there", h)
					break
				}
			}
			r.Header.Set("Authorization", h)
			a, b, ok := basic_auth.FindClientCredential(r)
			if !ok || a != id || b != sec {
				bad("Header(%q, %q) is read back as %q, %q, %v", id, sec, a, b, ok)
			}
			res.NonTrivial = strings.ContainsAny(id+sec, ":% +&=\"\\/") || !validText(id+sec) || id == "" || sec == ""
			if id == "" || sec == "" {
				res.class("empty part")
			}
			if strings.ContainsAny(id, ":%+ ") {
				res.class("reserved characters in the id")
			}
			if strings.ContainsAny(sec, ":%+ ") {
				res.class("reserved characters in the secret")
			}
			if id != "" {
				endpointAuth(id, sec, c.Wrong, h, res, bad)
			}
		default:
			if c.Header != "none" {
				r.Header.Set("Authorization", c.Header)
			}
			a, b, ok := basic_auth.FindClientCredential(r)
			wa, wb, wok := c.FormID, c.FormSecret, true
			if wa == "" || wb == "" {
				wa, wb, wok = "", "", false
			}
			if a != wa || b != wb || ok != wok {
				bad("without a Basic header, the form %q, %q is read as %q, %q, %v", c.FormID, c.FormSecret, a, b, ok)
			}
			res.class(fmt.Sprintf("form found: %v", wok))
			res.NonTrivial = wok
		}
	})
	if p != "" {
		bad("%s", p)
	}
	return res
}

// endpointAuth presents the header at a token endpoint where exactly that
// client is registered.
func endpointAuth(id, sec, wrong, header string, res *Result, bad func(string, ...interface{})) {
	spec := world.Spec{Issuer: "https://op.example", Now: t0, AccessTTL: 60, RefreshTTL: 60, IDTTL: 60,
		Clients: []world.ClientSpec{{ID: id, Secret: sec, Owner: 1, Grants: []string{"client_credentials"}, Flows: allFlows, Scopes: map[string][]string{"direct_grant": {"read"}}}},
		Users:   []world.UserSpec{{ID: 1, Name: "alice", Password: "pw", Subject: "sub"}}}
	w := world.New(spec)
	_, h := newTokenEndpoint(&TokenCfg{Realm: "op", Support: []string{"client_credentials"}}, w)
	try := func(hd string) int {
		r := httpRequest("POST", "/token", nil, []KV{{"grant_type", "client_credentials"}, {"scope", "read"}})
		r.Header.Set("Authorization", hd)
		rec := world.NewRec()
		h(rec, r)
		return rec.Code
	}
	if s := try(header); s != http.StatusOK {
		bad("Header(%q, %q) is refused with %d by the token endpoint where these are registered", id, sec, s)
	} else {
		i := w.InfoOf(1, id)
		if i == nil {
			bad("Header(%q, %q) gave no token to %q", id, sec, id)
		}
		res.class("token endpoint")
	}
	if wrong != sec {
		if s := try(basic_auth.Header(id, wrong)); s == http.StatusOK {
			bad("Header(%q, %q) is accepted by the token endpoint although the secret is %q", id, wrong, sec)
		}
	}
}

func genBasic(t *rapid.T) interface{} {
	text := func() string {
		if chance(t, 4) {
			return strings.Repeat(pick(t, "a", ":", "+", "%", "é", "0123456789 ", "\xff"), pick(t, 17, 65, 129, 257, 1025)) + pick(t, "", "x", " ")
		}
		switch u(t, 6) {
		case 0:
			return pick(t, "", "a", "client-a", "s6BhdRkqt3", "gX1fBat3bV")
		case 1:
			return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, ""))
		case 2:
			return strings.ToValidUTF8(rapid.String().Draw(t, ""), "")
		case 3:
			return pick(t, "a:b", ":", "::", "a%3Ab", "%", "%zz", "%41", "a+b", "a b", " a ", "é", "https://rp.example/?a=b&c=d", "a\x00b", "\xff\xfe", "+", "%2B", "a%", "==", "\r\n")
		}
		const cs = "ab01 :%+&=/?#\"\\~-._*()'!;,@é"
		rs := []rune(cs)
		var b strings.Builder
		n := 1 + u(t, 12)
		for i := 0; i < n; i++ {
			b.WriteRune(rs[u(t, len(rs))])
		}
		return b.String()
	}
	c := &BasicCase{ID: B(text()), Secret: B(text()), Header: "lib"}
	c.Wrong = nearMiss(t, string(c.Secret))
	if chance(t, 25) {
		c.Wrong = url.QueryEscape(string(c.Secret))
	}
	if chance(t, 30) {
		c.Header = pick(t, "none", "none", "Bearer abc", "Digest username=\"a\"", "Bearer "+basic_auth.Token("x", "y"))
	}
	if chance(t, 75) {
		c.FormID = strings.ToValidUTF8(text(), "")
	}
	if chance(t, 75) {
		c.FormSecret = strings.ToValidUTF8(text(), "")
	}
	c.InQuery = chance(t, 30)
	return c
}

// ---- L07: logging

type LogCase struct {
	Threshold int
	Level     int
	Format    bool
	Msg       string
	Arg       string
	Num       int
	Event     int
	Endpoint  int
	Path      string
	Params    map[string]string
	Before    []int // levels of messages logged before
}

// eventNames are the events' identifiers in the snake case of log lines.
var eventNames = map[log.LogEvent]string{
	log.AuthenticationFailed: "authentication_failed", log.CodeChallengeFailed: "code_challenge_failed",
	log.UnauthorizedGrantType: "unauthorized_grant_type", log.AuthInfoConditionMismatch: "auth_info_condition_mismatch",
	log.AuthSessionConditionMismatch: "auth_session_condition_mismatch", log.ScopeConditionMismatch: "scope_condition_mismatch",
	log.RefreshTokenConditionMismatch: "refresh_token_condition_mismatch", log.RedirectURIMismatch: "redirect_uri_mismatch",
	log.AssertionConditionMismatch: "assertion_condition_mismatch", log.InterfaceUnsupported: "interface_unsupported",
	log.InterfaceServerError: "interface_server_error", log.InterfaceError: "interface_error", log.InvalidScope: "invalid_scope",
	log.InvalidDisplay: "invalid_display", log.InvalidMaxAge: "invalid_max_age", log.InvalidResponseType: "invalid_response_type",
	log.InvalidResponseMode: "invalid_response_mode", log.InvalidNonce: "invalid_nonce", log.InvalidPrompt: "invalid_prompt",
	log.InvalidCodeVerifier: "invalid_code_verifier", log.AccessTokenGranted: "access_token_granted",
	log.InvalidHTTPMethod: "invalid_http_method", log.MissingParam: "missing_param", log.UnsupportedGrantType: "unsupported_grant_type",
	log.UnsupportedCodeChallengeMethod: "unsupported_code_challenge_method", log.NoCredential: "no_credential",
	log.NoEnabledClient: "no_enabled_client", log.NoEnabledAuthInfo: "no_enabled_auth_info", log.NoEnabledAuthSession: "no_enabled_auth_session",
	log.NoEnabledAccessToken: "no_enabled_access_token", log.NoEnabledUserId: "no_enabled_user_id",
	log.AccessTokenCreationFailed: "access_token_creation_failed", log.AccessTokenRefreshFailed: "access_token_refresh_failed",
	log.DisableSessionFailed: "disable_session_failed", log.AuthInfoCreationFailed: "auth_info_creation_failed",
	log.IdTokenGeneration: "id_token_generation", log.LoginRequired: "login_required",
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

var levelNames = []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

// logFile receives what is printed during a case.
var logFile *os.File

func captured(f func()) string {
	if logFile == nil {
		var err error
		if logFile, err = os.CreateTemp("", "verif-log"); err != nil {
			panic(err)
		}
		os.Remove(logFile.Name())
	}
	logFile.Truncate(0)
	logFile.Seek(0, 0)
	old := os.Stdout
	os.Stdout = logFile
	defer func() { os.Stdout = old }()
	f()
	n, _ := logFile.Seek(0, 1)
	b := make([]byte, n)
	logFile.ReadAt(b, 0)
	return string(b)
}

var logLevels = []log.LogLevel{log.LogLevelDebug, log.LogLevelInfo, log.LogLevelWarn, log.LogLevelError, log.LogLevelFatal}

var logEvents = []log.LogEvent{
	log.AuthenticationFailed,
	log.CodeChallengeFailed,
	log.UnauthorizedGrantType,
	log.AuthInfoConditionMismatch,
	log.AuthSessionConditionMismatch,
	log.ScopeConditionMismatch,
	log.RefreshTokenConditionMismatch,
	log.RedirectURIMismatch,
	log.AssertionConditionMismatch,
	log.InterfaceUnsupported,
	log.InterfaceServerError,
	log.InterfaceError,
	log.InvalidScope,
	log.InvalidDisplay,
	log.InvalidMaxAge,
	log.InvalidResponseType,
	log.InvalidResponseMode,
	log.InvalidNonce,
	log.InvalidPrompt,
	log.InvalidCodeVerifier,
	log.AccessTokenGranted,
	log.InvalidHTTPMethod,
	log.MissingParam,
	log.UnsupportedGrantType,
	log.UnsupportedCodeChallengeMethod,
	log.NoCredential,
	log.NoEnabledClient,
	log.NoEnabledAuthInfo,
	log.NoEnabledAuthSession,
	log.NoEnabledAccessToken,
	log.NoEnabledUserId,
	log.AccessTokenCreationFailed,
	log.AccessTokenRefreshFailed,
	log.DisableSessionFailed,
	log.AuthInfoCreationFailed,
	log.IdTokenGeneration,
	log.LoginRequired,
}

func checkLog(c *LogCase) *Result {
	res := &Result{}
	bad := func(f string, a ...interface{}) { res.Fail = append(res.Fail, fmt.Sprintf(f, a...)) }
	p := guard(func() {
		for i, n := range levelNames {
			if s := logLevels[i].String(); !strings.EqualFold(s, n) {
				bad("level %d is named %q", i, s)
			}
		}
		log.SetLevelForDefaultLogger(logLevels[c.Threshold])
		defer log.SetLevelForDefaultLogger(log.LogLevelDebug)
		l := log.NewDefaultLogger()
		for k, lv := range c.Before {
			m := fmt.Sprintf("message-%d", k)
			got := captured(func() {
				[]func(...interface{}){l.Debug, l.Info, l.Warn, l.Error, l.Fatal}[lv](m)
			})
			if (got != "") != (lv >= c.Threshold) || got != "" && !strings.HasSuffix(got, m+"\n") {
				bad("threshold %d, message %d of levels %v: printed %q", c.Threshold, k, c.Before, got)
			}
		}
		var out, want string
		if c.Format {
			want = fmt.Sprintf(c.Msg+" %s %d", c.Arg, c.Num)
			f := []func(string, ...interface{}){l.Debugf, l.Infof, l.Warnf, l.Errorf, l.Fatalf}[c.Level]
			out = captured(func() { f(c.Msg+" %s %d", c.Arg, c.Num) })
		} else {
			want = c.Msg
			f := []func(...interface{}){l.Debug, l.Info, l.Warn, l.Error, l.Fatal}[c.Level]
			out = captured(func() { f(c.Msg) })
		}
		say := fmt.Sprintf("threshold %d, level %s, format %v, message %q", c.Threshold, levelNames[c.Level], c.Format, want)
		switch {
		case c.Level < c.Threshold:
			res.class("below the threshold")
			if out != "" {
				bad("%s: printed %q", say, out)
			}
		case !strings.HasSuffix(out, want+"\n"):
			bad("%s: printed %q", say, out)
		default:
			res.class("printed")
			label := ansi.ReplaceAllString(strings.TrimSuffix(out, want+"\n"), "")
			for i, n := range levelNames {
				if strings.Contains(strings.ToUpper(label), n) != (i == c.Level) {
					bad("%s: labelled %q", say, label)
				}
			}
			if strings.Contains(label, "\n") {
				bad("%s: labelled %q", say, label)
			}
		}
		// events
		ev := logEvents[c.Event%len(logEvents)]
		name := ev.String()
		if name != eventNames[ev] {
			bad("event %d is named %q, expected %q", int(ev), name, eventNames[ev])
		}
		for _, e := range logEvents {
			if e != ev && e.String() == name {
				bad("events %d and %d have the name %q", int(ev), int(e), name)
			}
		}
		var line string
		ep := []string{"authorization_endpoint", "token_endpoint", "protected_resource", "some_endpoint"}[c.Endpoint&3]
		given := map[string]string{}
		for k, v := range c.Params {
			given[k] = v
		}
		switch c.Endpoint & 3 {
		case 0:
			line = log.AuthorizationEndpointLog(c.Path, ev, given, c.Msg)
		case 1:
			line = log.TokenEndpointLog(c.Path, ev, given, c.Msg)
		case 2:
			line = log.ProtectedResourceLog(c.Path, ev, given, c.Msg)
		default:
			line = log.EndpointLog(ep, c.Path, ev, given, c.Msg)
		}
		plain := ansi.ReplaceAllString(line, "")
		say = fmt.Sprintf("event %s of %s %q, message %q, attributes %q: %q", name, ep, c.Path, c.Msg, c.Params, plain)
		i := strings.Index(plain, c.Msg)
		if c.Msg != "" && i < 0 {
			bad("%s: no message", say)
			return
		}
		at := -1
		for j := range plain {
			if plain[j] == '{' && json.Valid([]byte(plain[j:])) {
				at = j
				break
			}
		}
		if at < 0 {
			bad("%s: no attributes", say)
			return
		}
		var m map[string]string
		if err := json.Unmarshal([]byte(plain[at:]), &m); err != nil || len(m) != len(c.Params) {
			bad("%s: attributes are %q (%v)", say, m, err)
		}
		for k, v := range c.Params {
			if g, ok := m[k]; !ok || g != v {
				bad("%s: attribute %q is %q", say, k, g)
			}
		}
		head := plain[:at]
		for _, x := range []string{ep, name, c.Path} {
			if !strings.Contains(head, x) {
				bad("%s: %q does not show", say, x)
			}
		}
		if len(given) != len(c.Params) {
			bad("%s: the attributes given were changed", say)
		}
		res.NonTrivial = c.Msg != "" && len(c.Params) > 0
		if strings.Contains(c.Msg, "%") {
			res.class("percent sign in the message")
		}
	})
	if p != "" {
		bad("%s", p)
	}
	return res
}

func genLog(t *rapid.T) interface{} {
	text := func() string {
		s := anyText(t)
		return strings.ReplaceAll(strings.ReplaceAll(s, "\x1b", ""), "\ufffd", "")
	}
	c := &LogCase{Threshold: u(t, 5), Level: u(t, 5), Format: chance(t, 50), Msg: text(), Arg: text(), Num: u(t, 1000), Event: u(t, 64), Endpoint: u(t, 4), Path: pick(t, "/authorize", "/token", "authorization_code", "/a b", "/é%2F{}", "")}
	if c.Format {
		c.Msg = strings.ReplaceAll(c.Msg, "%", "%%")
	} else if chance(t, 30) {
		c.Msg += pick(t, "%s", "%d", "100%", "%!", "%%")
	}
	if chance(t, 10) {
		for k := 1 + u(t, 5); k > 0; k-- {
			c.Before = append(c.Before, u(t, 5))
		}
	}
	c.Params = map[string]string{}
	n := u(t, 4)
	for i := 0; i < n; i++ {
		c.Params[pick(t, "client_id", "param", "method", "scope", "a b", "é", "")] = text()
	}
	return c
}

func init() {
	register(&Prop{
		ID: "L03", Level: "exploration", Quick: 100000, Thorough: 2000000,
		Rule: "Verifiers, challenges near and far from the right one, and methods, against an independent implementation; runs of the generator (first, alone and by eight goroutines), examined for form, repetition, dependence between bytes, and for being explained by the state of math/rand or by any clock value of the call. Non-trivial: a known method and a non-empty verifier, or a run of the generator.",
		Gen:  genPKCE, New: func() interface{} { return &PKCECase{} },
		Check: func(c interface{}) *Result { return checkPKCE(c.(*PKCECase)) },
		Extra: func(thorough bool, note func(interface{}, *Result)) {
			n := 300000
			if thorough {
				n = 3000000
			}
			for i, c := range []*PKCECase{{Generate: 500, Workers: 1}, {Generate: 800, Workers: 8}, {Generate: n, Workers: 8}, {Generate: 500, Workers: 1}, {Generate: 500, Workers: 1}, {Generate: 500, Workers: 1}, {Generate: 500, Workers: 1}} {
				c.Seed = int64(i*1000 + 1)
				note(c, checkPKCE(c))
			}
		},
	})
	register(&Prop{
		ID: "L04", Level: "exploration", Quick: 200000, Thorough: 4000000,
		Rule: "Error types with arbitrary descriptions, URIs, states and realms; every rendering is decoded by an independent parser and compared. Non-trivial: there is a description.",
		Gen:  genErr, New: func() interface{} { return &ErrCase{} },
		Check: func(c interface{}) *Result { return checkErr(c.(*ErrCase)) },
		Extra: func(thorough bool, note func(interface{}, *Result)) {
			for i := range errTable {
				for _, s := range []string{"", `say "x\y"`, "a&b=c #d+e%f"} {
					for k := 0; k < 16; k++ {
						sel := func(b int) string {
							if k&b != 0 {
								return s
							}
							return ""
						}
						c := &ErrCase{Type: i, Desc: sel(1), URI: sel(2), State: sel(4), Realm: sel(8), Make: k & 1}
						note(c, checkErr(c))
					}
				}
			}
		},
	})
	register(&Prop{
		ID: "L05", Level: "exploration", Quick: 100000, Thorough: 3000000,
		Rule: "Identifiers, secrets and forms, round-tripped through the library's header, credential finder and token endpoint. Non-trivial: the header carries reserved, non-text or empty values, or the form is used.",
		Gen:  genBasic, New: func() interface{} { return &BasicCase{} },
		Check: func(c interface{}) *Result { return checkBasic(c.(*BasicCase)) },
	})
	register(&Prop{
		ID: "L07", Level: "exploration", Quick: 100000, Thorough: 2000000,
		Rule: "Messages, levels and thresholds, with what is printed on standard output captured and parsed; event lines with arbitrary attributes. First all combinations of levels, thresholds and events. Non-trivial: there is a message and an attribute.",
		Gen:  genLog, New: func() interface{} { return &LogCase{} },
		Check: func(c interface{}) *Result { return checkLog(c.(*LogCase)) },
		Extra: func(thorough bool, note func(interface{}, *Result)) {
			for th := 0; th < 5; th++ {
				for lv := 0; lv < 5; lv++ {
					for ev := 0; ev <= int(log.LoginRequired); ev++ {
						c := &LogCase{Threshold: th, Level: lv, Format: ev&1 == 0, Msg: "hello", Arg: "x", Event: ev, Endpoint: ev, Path: "/p", Params: map[string]string{"k": "v"}}
						note(c, checkLog(c))
					}
				}
			}
		},
	})
}
