package props

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/basic_auth"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/id_token"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
	"github.com/lyokato/goidc/pkce"
	"github.com/lyokato/goidc/prompt"
	"github.com/lyokato/goidc/response_mode"
	"github.com/lyokato/goidc/scope"

	"pgregory.net/rapid"
	"verif/world"
)

// B is a byte string that survives JSON.
type B string

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }
func (b *B) UnmarshalJSON(x []byte) error {
	var s string
	if err := json.Unmarshal(x, &s); err != nil {
		return err
	}
	s, err := strconv.Unquote(s)
	*b = B(s)
	return err
}

// RawReq is an HTTP request as a server would hand it over, valid or not.
type RawReq struct {
	Method  string
	Path    B
	Query   B
	Headers [][2]B `json:",omitempty"`
	Body    B      `json:",omitempty"`
	NoBody  bool   `json:",omitempty"`
	Broken  bool   `json:",omitempty"` // reading the body fails half way
}

type brokenReader struct {
	r io.Reader
}

func (b *brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset by peer")
	}
	return n, err
}

func (q *RawReq) build() *http.Request {
	r := &http.Request{Method: q.Method, URL: &url.URL{Path: string(q.Path), RawQuery: string(q.Query)}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "op.example", RemoteAddr: "192.0.2.1:1234", RequestURI: "/"}
	for _, h := range q.Headers {
		r.Header.Add(string(h[0]), string(h[1]))
	}
	switch {
	case q.NoBody:
		r.Body = http.NoBody
	case q.Broken:
		r.Body = io.NopCloser(&brokenReader{strings.NewReader(string(q.Body[:len(q.Body)/2]))})
		r.ContentLength = int64(len(q.Body))
	default:
		r.Body = io.NopCloser(strings.NewReader(string(q.Body)))
		r.ContentLength = int64(len(q.Body))
	}
	return r
}

func rawOf(r *http.Request) RawReq {
	q := RawReq{Method: r.Method, Path: B(r.URL.Path), Query: B(r.URL.RawQuery)}
	for k, l := range r.Header {
		for _, v := range l {
			q.Headers = append(q.Headers, [2]B{B(k), B(v)})
		}
	}
	if len(q.Headers) > 1 {
		// in a fixed order
		for i := range q.Headers {
			for j := i + 1; j < len(q.Headers); j++ {
				if q.Headers[j][0] < q.Headers[i][0] {
					q.Headers[i], q.Headers[j] = q.Headers[j], q.Headers[i]
				}
			}
		}
	}
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		q.Body = B(b)
	} else {
		q.NoBody = true
	}
	return q
}

// FuzzCase is one arbitrary request, or one set of arbitrary texts.
type FuzzCase struct {
	Kind    string // authorize, decide, token, resource, helpers
	Spec    world.Spec
	Policy  authorization.Policy
	Token   TokenCfg
	Res     ResCfg
	Scopes  map[string][]string `json:",omitempty"`
	Scoped  bool                `json:",omitempty"`
	Login   world.Login
	Cancel  bool     `json:",omitempty"`
	Pending B        `json:",omitempty"`
	Req     RawReq   `json:",omitempty"`
	Args    []B      `json:",omitempty"`
	Muts    []string `json:",omitempty"` // what was done to the request
}

// ---- hostile values

var hostileTexts = []string{"", " ", "  ", "%", "%zz", "%00", "\x00", "\xff\xfe", "\xc3", "..", ".", "...", "a.b.c", "e30.e30.", "e30.e30.e30", ".e30.", "null", "[]", "{}", "true", "-1", "0", "00", "1e9", "0x10", "NaN",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999999", "none none", "none login", "code  token", " code", "code ", "token token", "code id_token token code", "openid\topenid",
	"\u2028", "İstanbul", "ß", "\u212a", "plain ", "s256", "S256\x00", "//", "https://", "javascript:alert(1)", "http://[::1", "http://a:b:c/", ":", "https://c1.example:99999/cb", "https://c1.example/%zz", "https://c1.example/cb?%zz", "\\", "'", "\"", "<", ">",
	"urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "urn:ietf:params:oauth:grant-type:jwt-bearer", "authorization_code", "Bearer", "Bearer ", "Bearer  x", "Basic", "Basic ", "Basic Og==", "Basic :", "Basic !!!!", "Basic YQ==", "Basic JTolJQ==", "basic " + "/////", "Digest x=\"", "Bearer a,Bearer b", "Bearer\tx",
	"multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=sep", "application/x-www-form-urlencoded; charset=\"", "application/json", ";", "text/plain; a=b; a=c"}

func genHostile(t *rapid.T) string {
	switch u(t, 8) {
	case 0:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes"))
	case 1:
		return strings.Repeat(pick(t, "a", " ", ".", "%", "a ", "é", "/", "none ", "=", "&", "\xff", "openid ", "("), pick(t, 2, 300, 5000, 2, 300, 60000))
	case 2:
		return genText(t)
	}
	return pick(t, hostileTexts...)
}

// JSON values that a claim or header may hold.
var hostileJSON = []string{`null`, `true`, `false`, `0`, `-1`, `1`, `1.5`, `1e30`, `1e308`, `1e400`, `-0`, `9223372036854775807`, `9223372036854775808`, `18446744073709551616`, `""`, `"x"`, `"1"`, `[]`, `[null]`, `[1]`, `[""]`, `["x","y"]`, `[[]]`, `{}`, `{"a":1}`, `{"":null}`, `"\u0000"`, `"\ud800"`, `[true,"x",null,{}]`}

func genJSONValue(t *rapid.T, plausible string) string {
	if chance(t, 50) {
		return plausible
	}
	if chance(t, 4) {
		n := pick(t, 100, 2000)
		return strings.Repeat("[", n) + strings.Repeat("]", n)
	}
	return pick(t, hostileJSON...)
}

func b64url(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// genHostileJWT makes a token whose signature is usually right and whose
// header and claims are not what they should be.
func genHostileJWT(t *rapid.T, s *world.Spec) string {
	cl := &s.Clients[u(t, len(s.Clients))]
	k := world.AssertionKey{Alg: cl.IDAlg, Kid: cl.IDKid, Key: cl.IDKey}
	if len(cl.AKeys) > 0 && chance(t, 70) {
		k = cl.AKeys[u(t, len(cl.AKeys))]
	}
	sub := cl.ID
	if chance(t, 50) {
		sub = subjectOf(s, s.Users[u(t, len(s.Users))].ID, cl.ID)
	}
	obj := func(kv ...string) string {
		var p []string
		for i := 0; i < len(kv); i += 2 {
			if chance(t, 12) {
				continue
			}
			p = append(p, jsonString(kv[i])+":"+genJSONValue(t, kv[i+1]))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	payload := obj("iss", jsonString(pick(t, cl.ID, s.Issuer)), "sub", jsonString(sub), "aud", jsonString(pick(t, s.Issuer, cl.ID)), "exp", fmt.Sprint(s.Now+300), "iat", fmt.Sprint(s.Now-1), "nbf", fmt.Sprint(s.Now-1), "jti", `"j-1"`)
	if chance(t, 8) {
		payload = genJSONValue(t, "{}")
	}
	header := `{"typ":"JWT","alg":` + jsonString(k.Alg) + `,"kid":` + jsonString(k.Kid) + `}`
	if chance(t, 30) {
		header = obj("typ", `"JWT"`, "alg", jsonString(pick(t, k.Alg, k.Alg, "none", "None", "HS256", "RS256", "", "XX")), "kid", jsonString(k.Kid), "crit", `["x"]`, "jku", `"http://x"`)
		if chance(t, 8) {
			header = genJSONValue(t, "{}")
		}
	}
	sig := ""
	if chance(t, 75) {
		in := b64url([]byte(header)) + "." + b64url([]byte(payload))
		if full, err := world.SignRaw(in, k.Alg, world.Key(k.Key)); err == nil {
			sig = b64url(full)
		}
	} else if chance(t, 50) {
		sig = b64url([]byte(strings.Repeat("s", pick(t, 0, 1, 31, 32, 33, 64, 256))))
	}
	tok := b64url([]byte(header)) + "." + b64url([]byte(payload)) + "." + sig
	switch u(t, 12) {
	case 0:
		tok = mutateBytes(t, tok)
	case 1:
		tok = strings.Join(strings.Split(tok, ".")[:1+u(t, 2)], ".")
	case 2:
		tok += pick(t, ".", "=", ".x", "\n", " ")
	}
	return tok
}

func mutateBytes(t *rapid.T, s string) string {
	b := []byte(s)
	pos := func() int {
		if len(b) == 0 {
			return 0
		}
		return u(t, len(b))
	}
	switch u(t, 7) {
	case 0:
		if len(b) > 0 {
			b[pos()] = byte(u(t, 256))
		}
	case 1:
		i := pos()
		b = append(b[:i:i], append([]byte(pick(t, "%", "&", "=", "+", " ", "%2", "%00", "\xff", ";", "&&", "?", "#", ".", "=&", "\"", "%E2%80")), b[i:]...)...)
	case 2:
		i := pos()
		j := i + u(t, 12)
		if j > len(b) {
			j = len(b)
		}
		b = append(b[:i:i], b[j:]...)
	case 3:
		b = b[:pos()]
	case 4:
		i := pos()
		b = append(b, b[i:]...)
	case 5:
		i := pos()
		b = append(b[:i:i], append([]byte(genHostile(t)), b[i:]...)...)
	case 6:
		if len(b) > 0 {
			b[pos()] ^= 1 << uint(u(t, 8))
		}
	}
	return string(b)
}

// mutPairs changes one pair of an encoded form.
func mutPairs(t *rapid.T, s *world.Spec, enc string) (string, string) {
	var l []string
	if enc != "" {
		l = strings.Split(enc, "&")
	}
	val := func() (string, string) {
		switch u(t, 5) {
		case 0:
			return url.QueryEscape(genHostileJWT(t, s)), "jwt"
		case 1:
			return genHostile(t), "rawtext"
		}
		return url.QueryEscape(genHostile(t)), "text"
	}
	names := []string{"client_id", "redirect_uri", "response_type", "response_mode", "scope", "state", "nonce", "prompt", "max_age", "display", "ui_locales", "id_token_hint", "login_hint", "code_challenge", "code_verifier", "code_challenge_method",
		"request", "request_uri", "grant_type", "code", "refresh_token", "username", "password", "client_secret", "client_assertion", "client_assertion_type", "assertion", "access_token"}
	if len(l) == 0 || chance(t, 15) {
		v, w := val()
		return strings.Join(append(l, pick(t, names...)+"="+v), "&"), "added " + w
	}
	i := u(t, len(l))
	k, old, _ := strings.Cut(l[i], "=")
	switch u(t, 6) {
	case 0:
		return strings.Join(append(l[:i:i], l[i+1:]...), "&"), "dropped"
	case 1:
		return strings.Join(append(l, l[i]), "&"), "doubled"
	case 2:
		v, w := val()
		return strings.Join(append([]string{k + "=" + v}, l...), "&"), "preceded " + w
	case 3:
		l[i] = pick(t, names...) + "=" + old
		return strings.Join(l, "&"), "renamed"
	}
	v, w := val()
	l[i] = k + "=" + v
	return strings.Join(l, "&"), "set " + w
}

func (c *FuzzCase) mutate(t *rapid.T) {
	r := &c.Req
	note := func(s string) { c.Muts = append(c.Muts, s) }
	n := u(t, 5)
	for i := 0; i < n; i++ {
		switch u(t, 10) {
		case 0, 1, 2, 3:
			part := &r.Body
			if r.NoBody || (r.Query != "" && chance(t, 40)) {
				part = &r.Query
			}
			x, w := mutPairs(t, &c.Spec, string(*part))
			*part = B(x)
			note(w)
		case 4:
			part := &r.Body
			if r.NoBody || chance(t, 30) {
				part = &r.Query
			}
			*part = B(mutateBytes(t, string(*part)))
			note("bytes")
		case 5:
			r.Method = pick(t, "GET", "POST", "HEAD", "PUT", "PATCH", "DELETE", "OPTIONS", "CONNECT", "TRACE", "post", "", "X")
			note("method")
		case 6:
			if r.NoBody {
				r.NoBody, r.Body, r.Query = false, r.Query, ""
				r.Headers = append(r.Headers, [2]B{"Content-Type", "application/x-www-form-urlencoded"})
				r.Method = pick(t, "POST", "PUT", "PATCH", "GET")
				note("query to body")
			} else {
				r.Query, r.Body = r.Body, r.Query
				note("swapped")
			}
		case 7:
			k := pick(t, "Content-Type", "Authorization", "Authorization", "X-Oauth-User-Id", "Cookie", "Host", "Content-Encoding", "")
			v := strings.NewReplacer("\r", "", "\n", "").Replace(genHostile(t))
			if k == "Authorization" && chance(t, 40) {
				v = "Basic " + base64.StdEncoding.EncodeToString([]byte(genHostile(t)))
			}
			set := false
			for j := range r.Headers {
				if string(r.Headers[j][0]) == k {
					if chance(t, 40) && k == "Authorization" {
						v = strings.NewReplacer("\r", "", "\n", "").Replace(mutateBytes(t, string(r.Headers[j][1])))
					}
					r.Headers[j][1] = B(v)
					set = true
				}
			}
			if !set {
				r.Headers = append(r.Headers, [2]B{B(k), B(v)})
			}
			note("header " + k)
		case 8:
			switch u(t, 3) {
			case 0:
				r.Broken = !r.NoBody
				note("broken body")
			case 1:
				r.Path = B(genHostile(t))
				note("path")
			case 2:
				// the same pairs as a multipart form
				if !r.NoBody {
					var b bytes.Buffer
					for _, kv := range strings.Split(string(r.Body), "&") {
						k, v, _ := strings.Cut(kv, "=")
						k, _ = url.QueryUnescape(k)
						v, _ = url.QueryUnescape(v)
						fmt.Fprintf(&b, "--sep\r\nContent-Disposition: form-data; name=%q\r\n\r\n%s\r\n", k, v)
					}
					b.WriteString("--sep--\r\n")
					r.Body = B(b.String())
					for j := range r.Headers {
						if r.Headers[j][0] == "Content-Type" {
							r.Headers[j][1] = "multipart/form-data; boundary=sep"
						}
					}
					note("multipart")
				}
			}
		case 9:
			if !r.NoBody && chance(t, 30) {
				r.Body = B(genHostile(t))
				note("body replaced")
			} else {
				r.Query = B(genHostile(t))
				note("query replaced")
			}
		}
	}
}

// genPendingText makes the text a browser hands back between two requests.
func genPendingText(t *rapid.T, c *FuzzCase) string {
	cl := &c.Spec.Clients[u(t, len(c.Spec.Clients))]
	enc := func(s string) string { return base64.URLEncoding.EncodeToString([]byte(s)) }
	switch u(t, 6) {
	case 0:
		return genHostile(t)
	case 1:
		return mutateBytes(t, genPending(t).Encode())
	case 2:
		return enc(mutateBytes(t, `{"flow":{"type":"hybrid","access_token":true,"id_token":true},"client_id":"x"}`))
	}
	fl := fmt.Sprintf(`{"type":%s,"access_token":%s,"id_token":%s}`, genJSONValue(t, jsonString(pick(t, allFlows...))), genJSONValue(t, "true"), genJSONValue(t, "true"))
	var p []string
	add := func(k, v string) {
		if !chance(t, 8) {
			p = append(p, jsonString(k)+":"+genJSONValue(t, v))
		}
	}
	p = append(p, `"flow":`+genJSONValue(t, fl), `"client_id":`+jsonString(cl.ID))
	add("scope", `"openid offline_access"`)
	if chance(t, 80) {
		p = append(p, `"redirect_uri":`+jsonString(pick(t, cl.RedirectURIs...)))
	} else {
		add("redirect_uri", jsonString(strings.ToValidUTF8(genHostile(t), "?")))
	}
	add("response_mode", jsonString(pick(t, "query", "fragment", "form_post", "x")))
	add("state", `"s"`)
	add("code_verifier", `"v"`)
	add("nonce", `"n"`)
	add("max_age", "60")
	return enc("{" + strings.Join(p, ",") + "}")
}

func genFuzz(t *rapid.T) *FuzzCase {
	c := &FuzzCase{Kind: pick(t, "authorize", "token", "token", "resource", "decide", "helpers")}
	switch c.Kind {
	case "authorize", "decide":
		p := defProfile()
		p.maxSteps, p.host = 1, 0
		a := genAuthz(t, p)
		c.Spec, c.Policy = a.Spec, a.Policy
		c.Login = world.Login{LoggedIn: chance(t, 80), UID: c.Spec.Users[u(t, len(c.Spec.Users))].ID, AuthTime: t0 - 5, FromLogin: chance(t, 30)}
		c.Req = RawReq{Method: "GET", Path: "/authorize", NoBody: true}
		for _, st := range a.Steps {
			if st.Op == "authorize" {
				c.Login = st.Login
				c.Req = rawOf(httpRequest(st.Method, "/authorize", resolveJWTs(st.Query, st.JWTs), resolveJWTs(st.Body, st.JWTs)))
				break
			}
		}
		if c.Kind == "decide" {
			c.Pending = B(genPendingText(t, c))
			c.Cancel = chance(t, 30)
			c.Req = RawReq{Method: "POST", Path: "/decide", Body: "ok=1", Headers: [][2]B{{"Content-Type", "application/x-www-form-urlencoded"}}}
			if chance(t, 70) {
				return c
			}
		}
	case "token":
		p := defTokenProfile()
		p.maxSteps, p.follow, p.repeat, p.advance, p.host, p.bad, p.method = 1, 0, 0, 0, 0, 15, 0
		if chance(t, 40) {
			p.auths = []string{"assertion"}
		}
		a := genToken(t, p)
		c.Spec, c.Token = a.Spec, a.Cfg
		for i := range a.Steps {
			if a.Steps[i].Op == "token" {
				c.Req = rawOf(a.Steps[i].request())
				break
			}
		}
		if chance(t, 35) {
			// a strange assertion in the place of one
			name := pick(t, "client_assertion", "assertion")
			body := string(c.Req.Body)
			v, err := url.ParseQuery(body)
			if err == nil {
				v.Set(name, genHostileJWT(t, &c.Spec))
				if name == "client_assertion" {
					v.Set("client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
					v.Del("client_secret")
				} else {
					v.Set("grant_type", "urn:ietf:params:oauth:grant-type:jwt-bearer")
				}
				c.Req.Body = B(v.Encode())
				c.Muts = append(c.Muts, "assertion")
			}
		}
	case "resource":
		p := &resProfile{spoof: 30, scoped: 50, places: 50, bad: 20, maxSteps: 1}
		a := genRes(t, p).(*ResCase)
		c.Spec, c.Res = a.Spec, a.Cfg
		for i := range a.Steps {
			if a.Steps[i].Op == "access" {
				c.Req = rawOf(a.Steps[i].request())
				c.Scopes, c.Scoped = a.Steps[i].Scopes, a.Steps[i].Scoped
				break
			}
		}
	case "helpers":
		for i := 0; i < 3; i++ {
			switch u(t, 5) {
			case 0:
				c.Args = append(c.Args, B(strings.Join(shuffle(t, []string{"openid", "none", "login", "code", "token", "id_token", "openid"})[:u(t, 5)], pick(t, " ", "  ", "\t"))))
			case 1:
				c.Args = append(c.Args, B(mutateBytes(t, pick(t, "openid offline_access", "code id_token", "none", genPending(t).Encode(), basic_auth.Token("a", "b")))))
			default:
				c.Args = append(c.Args, B(genHostile(t)))
			}
		}
		if chance(t, 30) {
			c.Args[0] = B(genPendingText(t, &FuzzCase{Spec: genSpec(t, specOpts{})}))
		}
		return c
	}
	c.mutate(t)
	return c
}

// ---- judgement

const hangLimit = 60 * time.Second

// within runs f and reports whether it panicked or did not come back.
func within(f func()) string {
	done := make(chan string, 1)
	go func() { done <- guard(f) }()
	timer := time.NewTimer(hangLimit)
	defer timer.Stop()
	select {
	case p := <-done:
		return p
	case <-timer.C:
		return fmt.Sprintf("does not return (after %s)", hangLimit)
	}
}

func checkFuzz(c *FuzzCase) *Result {
	res := &Result{}
	fail := func(f string, a ...interface{}) { res.Fail = append(res.Fail, c.Kind+": "+fmt.Sprintf(f, a...)) }
	for _, m := range c.Muts {
		res.class(c.Kind + ": " + m)
	}
	res.NonTrivial = len(c.Muts) > 0 || c.Kind == "helpers" || c.Kind == "decide"
	if c.Kind == "helpers" {
		res.class("helpers")
		for _, h := range helperCalls(c.Args) {
			if p := within(h.f); p != "" {
				fail("%s(%.200q): %s", h.name, c.Args, p)
			}
		}
		return res
	}
	w := world.New(c.Spec)
	setClock(w)
	rec := world.NewRec()
	switch c.Kind {
	case "authorize", "decide":
		ep := goidc.NewAuthorizationEndpoint(world.DI{World: w}, &c.Policy)
		ep.SetLogger(nopLogger{})
		ep.SetTimeBuilder(w.Clock)
		cb := &world.Callbacks{W: w, Login: c.Login, CodePrefix: "f", Pending: string(c.Pending)}
		req := c.Req.build()
		p := within(func() {
			switch {
			case c.Kind == "authorize":
				ep.HandleRequest(rec, req, cb)
			case c.Cancel:
				ep.CancelRequest(rec, req, cb)
			default:
				ep.CompleteRequest(rec, req, cb)
			}
		})
		if p != "" {
			fail("%s", p)
			return res
		}
		screens := len(cb.ErrScreens) + len(cb.Logins) + len(cb.Consents)
		if c.Kind == "authorize" {
			n := screens
			if rec.Touched() {
				n++
			}
			if n != 1 {
				fail("%d screens shown, response status %d: expected exactly one answer", screens, rec.Code)
			}
		} else if screens > 0 {
			fail("screen shown in answer to a decision")
		}
		if rec.Touched() {
			ct := rec.Head().Get("Content-Type")
			_, loc := rec.Head()["Location"]
			switch {
			case rec.Code >= 300 && rec.Code < 400 && loc:
				res.class(c.Kind + ": redirect")
			case rec.Code == 200 && strings.HasPrefix(ct, "text/html") && rec.Body.Len() > 0:
				res.class(c.Kind + ": form")
			default:
				fail("answer is neither a redirect nor a form: status %d, %v", rec.Code, rec.Head())
			}
		} else {
			res.class(fmt.Sprintf("%s: screen %d %d %d", c.Kind, len(cb.ErrScreens), len(cb.Logins), len(cb.Consents)))
		}
	case "token":
		_, h := newTokenEndpoint(&c.Token, w)
		req := c.Req.build()
		if p := within(func() { h(rec, req) }); p != "" {
			fail("%s", p)
			return res
		}
		rep := parseTokenReply(rec)
		res.class(fmt.Sprintf("token: %d %s", rep.Code, rep.str("error")))
		switch {
		case rep.Code == http.StatusMethodNotAllowed && req.Method != "POST":
		case rep.Obj == nil:
			fail("answer is not a JSON object: status %d, %s", rep.Code, q(rep.Body))
		case rep.Code == 200 && rep.str("access_token") != "" && rep.Obj["error"] == nil:
		case rep.Code >= 400 && rep.Code < 600 && rep.str("error") != "" && rep.Obj["access_token"] == nil:
		default:
			fail("answer is neither tokens nor an error: status %d, %s", rep.Code, q(rep.Body))
		}
	case "resource":
		rp := newProtector(&c.Res, w)
		req := c.Req.build()
		ok := false
		p := within(func() {
			if c.Scoped {
				ok = rp.ValidateWithScopes(rec, req, world.DI{World: w}, c.Scopes)
			} else {
				ok = rp.Validate(rec, req, world.DI{World: w})
			}
		})
		if p != "" {
			fail("%s", p)
			return res
		}
		res.class(fmt.Sprintf("resource: %v %d", ok, rec.Code))
		switch {
		case ok && rec.Code != 0:
			fail("allowed, yet answered with status %d", rec.Code)
		case !ok && (rec.Code < 400 || rec.Code > 599):
			fail("refused with status %d", rec.Code)
		}
	}
	return res
}

type helperCall struct {
	name string
	f    func()
}

// helperCalls is every public helper applied to the texts.
func helperCalls(args []B) []helperCall {
	var a [3]string
	for i := range a {
		if i < len(args) {
			a[i] = string(args[i])
		}
	}
	x, y, z := a[0], a[1], a[2]
	req := func() *http.Request {
		clean := strings.NewReplacer("\r", "", "\n", "").Replace
		return (&RawReq{Method: "POST", Path: "/", Query: B(z), Body: B(y), Headers: [][2]B{{"Authorization", B(clean(x))}, {"Content-Type", "application/x-www-form-urlencoded"}}}).build()
	}
	now := time.Unix(t0, 0)
	attrs := map[string]string{x: y, y: z, "z": z}
	return []helperCall{
		{"scope.Split", func() { scope.Split(x) }},
		{"scope.IncludeAll", func() { scope.IncludeAll(x, []string{y, z}); scope.IncludeAll(x, nil) }},
		{"scope.Include", func() { scope.Include(x, y) }},
		{"scope.Remove", func() { scope.Remove(x, y); scope.RemoveOpenID(x); scope.RemoveOfflineAccess(x) }},
		{"scope.Same", func() { scope.Same(x, y); scope.Sort(x); scope.IncludeOpenID(x); scope.IncludeOfflineAccess(x) }},
		{"prompt", func() {
			prompt.Split(x)
			prompt.Include(x, y)
			prompt.IncludeAll(x, []string{y, z})
			prompt.Validate(x)
			prompt.IncludeNone(x)
			prompt.IncludeLogin(x)
			prompt.IncludeConsent(x)
			prompt.IncludeSelectAccount(x)
		}},
		{"response_mode", func() { response_mode.Validate(x); response_mode.CompareSecurityLevel(x, y) }},
		{"flow.JudgeByResponseType", func() { flow.JudgeByResponseType(x) }},
		{"flow JSON", func() {
			var f flow.Flow
			json.Unmarshal([]byte(x), &f)
			var ft flow.FlowType
			json.Unmarshal([]byte(x), &ft)
			b, _ := json.Marshal(x)
			json.Unmarshal(b, &ft)
			ft.String()
		}},
		{"authorization.DecodeRequest", func() {
			if r := authorization.DecodeRequest(x); r != nil {
				r.Encode()
				r.ToSession(y, 1, 1)
			}
		}},
		{"basic_auth", func() {
			basic_auth.Header(x, y)
			basic_auth.FindClientCredential(req())
		}},
		{"pkce", func() {
			if v, err := pkce.FindVerifierByMethod(x); err == nil {
				v.Verify(y, z)
			}
			pkce.S256Encode(x)
			pkce.EncodeBase64WithoutPadding([]byte(x))
		}},
		{"id_token", func() {
			id_token.Hash(x, y)
			for _, alg := range []string{x, pick1(len(y), "HS256", "RS256", "ES256", "none", "PS512")} {
				for _, key := range []interface{}{[]byte(y), y, nil, world.Key("rsa-a"), 5} {
					if isRSA := alg == "RS256" || alg == "PS512"; isRSA && key != nil && len(x) > 3 {
						continue // signing is slow
					}
					id_token.Gen(alg, key, z, x, y, z, x, 60, 1, now)
					id_token.GenForImplicit(alg, key, z, x, y, z, x, 60, -1, y, now)
					id_token.GenForHybrid(alg, key, z, x, y, z, x, 60, 0, y, z, now)
				}
			}
		}},
		{"oauth_error", func() {
			for _, t := range []int{len(x) % 21, len(y) % 21} {
				for _, e := range []*oer.OAuthError{oer.NewOAuthError(oer.OAuthErrorType(t), x), oer.NewOAuthDetailedError(oer.OAuthErrorType(t), x, y), oer.NewOAuthSimpleError(oer.OAuthErrorType(t))} {
					_ = e.Error()
					e.StatusCode()
					e.JSON()
					e.Header(z)
					e.Query(z)
				}
			}
		}},
		{"bridge.Error", func() { bridge.NewError(bridge.ErrorType(len(x))).Type() }},
		{"log", func() {
			for _, e := range []log.LogEvent{logEvents[len(x)%len(logEvents)], logEvents[len(y)%len(logEvents)]} {
				log.EndpointLog(x, y, e, attrs, z)
				log.AuthorizationEndpointLog(x, e, attrs, z)
				log.TokenEndpointLog(x, e, nil, z)
				log.ProtectedResourceLog(x, e, attrs, z)
				_ = e.String() + logLevels[len(z)%5].String()
			}
			l := log.NewDefaultLogger()
			l.Error(x)
			l.Errorf("%s", x)
			l.Warn(y)
			l.Fatal(z)
			l.Infof(x)
		}},
	}
}

func pick1(i int, l ...string) string { return l[i%len(l)] }

func init() {
	register(&Prop{
		ID: "X03", Level: "exploration", Quick: 20000, Thorough: 500000,
		Rule:   "Valid requests to the authorization endpoint, token endpoint and resource protector with up to four mutations (parameters dropped, doubled, renamed, replaced by hostile text or by correctly signed JWTs with ill-typed headers and claims; bytes flipped; methods, content types, multipart and broken bodies), pending-request texts with ill-typed JSON, and every public helper applied to hostile texts. Each must come back within 60 s without panic and with exactly one answer of the endpoint's repertoire. Non-trivial: at least one mutation, or a helper or decision case.",
		Gen:    func(t *rapid.T) interface{} { return genFuzz(t) },
		New:    func() interface{} { return &FuzzCase{} },
		Check:  func(c interface{}) *Result { return checkFuzz(c.(*FuzzCase)) },
		Assume: []string{"A request that is still being served after 60 seconds counts as hung."},
	})
}
