package props

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/url"
	"strings"

	"github.com/lyokato/goidc/grant"
	"pgregory.net/rapid"
	"verif/world"
)

func s256(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// tokenProfile steers the generation of token-endpoint histories.
type tokenProfile struct {
	grants   []string
	auths    []string // basic body query assertion
	faults   map[string]int
	bad      int // percent of requests that get a fault
	follow   int // percent of faulty requests followed by the correct one
	repeat   int // percent of requests presented again
	again    int // percent followed by a change that matters and another request like it
	maxSteps int
	host     int
	advance  int
	badKey   int // percent of clients with an unusable signing key
	algs     []string
	pkce     int
	rotate   int // percent of requests preceded by a change of signing keys
	openid   int
	permit   int       // percent of clients permitted everything
	method   int       // percent of requests that are not POST
	noIssuer int       // percent of providers without a name
	mark     bool      // mark secrets and passwords
	cfg      *TokenCfg // if given
}

func defTokenProfile() *tokenProfile {
	return &tokenProfile{grants: allGrants, auths: []string{"basic", "basic", "body", "query", "assertion"}, bad: 40, follow: 50, repeat: 15, again: 25,
		maxSteps: 3, host: 8, advance: 20, pkce: 40, openid: 60, permit: 80, method: 2,
		faults: map[string]int{"secret": 10, "auth": 10, "assertion": 10, "granttype": 6, "code": 10, "redirect": 10, "pkce": 10, "refresh": 10, "user": 10, "scope": 10, "client": 10, "jwt": 10, "drop": 6}}
}

var verifierPool = []string{" ", " padded verifier ", "\t", strings.Repeat("w", 300), "0", "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk", "v", "~._-abcDEF0123456789", strings.Repeat("v", 128), "a+b/c=&%41é", "S256", "plain", s256("inner")}

// gstep is a step under construction: assertions stay open to faults.
type gstep struct {
	TokenStep
	asr    []*asrSpec // JWTs before rendering
	client *world.ClientSpec
	grant  string
	basic  [2]string
	auth   string
	sess   *world.SessionSpec
	tok    *world.TokenSpec
}

type asrSpec struct {
	role                                   string // client, grant
	iss, sub, aud, exp, nbf, iat, jti, xtr interface{}
	alg, halg, key, kid, mut               string
	more                                   []interface{} // claims without a meaning
}

func (a *asrSpec) spec() JWTSpec {
	l := []interface{}{"iss", a.iss, "sub", a.sub, "aud", a.aud, "exp", a.exp, "nbf", a.nbf, "iat", a.iat, "jti", a.jti, "extra", a.xtr}
	return JWTSpec{Alg: a.alg, HAlg: a.halg, Key: a.key, Kid: a.kid, Mut: a.mut, Claims: claimsJSON(append(l, a.more...)...)}
}

func (g *gstep) clone() *gstep {
	n := *g
	n.Query = append([]KV(nil), g.Query...)
	n.Body = append([]KV(nil), g.Body...)
	n.asr = nil
	for _, a := range g.asr {
		c := *a
		n.asr = append(n.asr, &c)
	}
	return &n
}

func (g *gstep) set(k, v string) {
	for _, l := range []*[]KV{&g.Body, &g.Query} {
		for i := range *l {
			if (*l)[i].K == k {
				(*l)[i].V = v
				return
			}
		}
	}
	g.Body = append(g.Body, KV{k, v})
}

func (g *gstep) get(k string) string { return formValue("POST", g.Query, g.Body, k) }

func (g *gstep) drop(k string) {
	for _, l := range []*[]KV{&g.Body, &g.Query} {
		var out []KV
		for _, x := range *l {
			if x.K != k {
				out = append(out, x)
			}
		}
		*l = out
	}
}

// render finishes the step.
func (g *gstep) render() TokenStep {
	st := g.TokenStep
	st.Query = append([]KV(nil), g.Query...)
	st.Body = append([]KV(nil), g.Body...)
	st.JWTs = nil
	for _, a := range g.asr {
		st.JWTs = append(st.JWTs, a.spec())
	}
	return st
}

func genAKeys(t *rapid.T, i int) []world.AssertionKey {
	v := []string{"a", "b", "a"}[i]
	o := []string{"b", "a", "a"}[i]
	l := []world.AssertionKey{{"RS256", "k1", world.KeyFor("RS256", v)}, {"HS256", "", fmt.Sprintf("hk-ca%d", i)}, {"ES256", "k2", world.KeyFor("ES256", v)}, {"RS256", "k3", world.KeyFor("RS256", o)}, {"HS256", "k1", fmt.Sprintf("hk-cb%d", i)}, {"ES384", "k 4", world.KeyFor("ES384", v)}, {"PS256", "k5", world.KeyFor("PS256", v)}, {"RS512", "", world.KeyFor("RS512", v)}}
	n := 1 + u(t, 4)
	var out []world.AssertionKey
	for _, j := range shuffleN(t, len(l))[:n] {
		out = append(out, l[j])
	}
	return out
}

func shuffleN(t *rapid.T, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - u(t, i+1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// genTokenWorld makes a world with sessions and tokens.
func genTokenWorld(t *rapid.T, p *tokenProfile) world.Spec {
	s := genSpec(t, specOpts{weirdURIs: 30, idAlg: p.algs})
	for i := range s.Clients {
		c := &s.Clients[i]
		c.AKeys = genAKeys(t, i)
		if chance(t, 4) {
			c.Secret = "" // a public client
		} else if p.mark {
			c.Secret = c.Secret + secretMark
		}
		if chance(t, p.permit) {
			c.Grants = allGrants
		} else {
			c.Grants = subset(t, 60, allGrants...)
		}
		if chance(t, p.badKey) {
			spoilSigning(t, c)
		}
	}
	if chance(t, 12) {
		s.Records = pick(t, "jti", "iat", "short")
	}
	if chance(t, 10) {
		s.Merge = true
	}
	if chance(t, p.noIssuer) {
		s.Issuer = ""
	}
	if p.mark {
		for i := range s.Users {
			s.Users[i].Password += passwordMark + string('a'+rune(i))
		}
	}
	id := s.Users[0].ID>>31<<31 + int64(11+100*laneNo)
	for _, usr := range s.Users {
		for ci := range s.Clients {
			cl := &s.Clients[ci]
			id++
			if !chance(t, 80) {
				continue
			}
			w := without(words2(t, 3), "offline_access")
			if !chance(t, p.openid) {
				w = without(w, "openid")
			}
			if chance(t, 65) {
				w = append(w, "offline_access")
			}
			sc := strings.Join(shuffle(t, w), " ")
			if chance(t, 5) {
				sc = ""
			}
			inf := world.InfoSpec{ID: id, Client: cl.ID, User: usr.ID, Subject: subjectOf(&s, usr.ID, cl.ID), Scope: sc,
				AuthorizedAt: s.Now - int64(u(t, 1000)), Active: !chance(t, 7)}
			s.Infos = append(s.Infos, inf)
			for k := 0; k < 1+u(t, 2); k++ {
				exp := int64(pick(t, 60, 1, 600, 60, 1, 600, 0, 1<<31+7, 1<<40))
				age := []int64{0, exp, exp - 1, 10, exp + 1, exp * 3}
				if exp > t0 {
					age = []int64{0, 1, 5, 10, 86400, 1 << 30}
				}
				x := world.SessionSpec{Code: styled(s.Style, fmt.Sprintf("code-%d-%d", id, k)), Info: id, RedirectURI: cl.RedirectURIs[u(t, len(cl.RedirectURIs))],
					AuthTime: s.Now - int64(pick(t, 5, 0, 100000, 5, 0, 100000, s.Now, s.Now-1)), ExpiresIn: exp, CreatedAt: s.Now - age[u(t, 5)], IDTExpires: int64(pick(t, 600, 1, 86400, 2592000, 1<<33)), Disabled: chance(t, 4)}
				if chance(t, 8) {
					x.CreatedAt = s.Now - age[5]
				}
				if chance(t, p.pkce) {
					x.CodeVerifier = pick(t, verifierPool...)
				}
				if chance(t, 60) {
					x.Nonce = pick(t, "n-1", "nonce é\"'<&>", "0", " n ", "a+b%20c", strings.Repeat("n", 300))
				}
				s.Sessions = append(s.Sessions, x)
			}
			for k := 0; k < 1+u(t, 2); k++ {
				rexp := int64(pick(t, 7200, 60, 1, 7200, 60, 1, 0, 1<<31+11, 1<<40))
				ages := []int64{0, rexp, rexp - 1, 30, rexp + 1}
				if rexp > t0 {
					ages = []int64{0, 1, 30, 86400, 1 << 30}
				}
				x := world.TokenSpec{Info: id, Access: "seed-at-" + fmt.Sprint(id, "-", k), AccessExp: 3600, RefreshedAt: s.Now - 10,
					CreatedAt: s.Now - ages[u(t, 5)], OnTokenEP: true}
				if chance(t, 85) {
					x.Refresh = styled(s.Style, fmt.Sprintf("rt-%d-%d", id, k))
					x.RefreshExp = rexp
				}
				s.Tokens = append(s.Tokens, x)
			}
		}
	}
	return s
}

func styled(style int, core string) string {
	switch style {
	case 1:
		return core + " +/&=%#?;\"'<>é"
	case 2:
		return core + strings.Repeat("x", 300)
	case 4:
		return core + strings.Repeat("y", 9000)
	case 3:
		return core + "%2B%00+% "
	}
	return core
}

func genTokenCfg(t *rapid.T, p *tokenProfile) TokenCfg {
	c := TokenCfg{Realm: pick(t, "api.example.org", "my realm", "r"), Accept: u(t, 3), Assertion: chance(t, 75), Support: allGrants}
	if chance(t, 10) {
		c.Support = subset(t, 70, allGrants...)
	}
	if chance(t, 50) {
		c.ErrorURI = pick(t, "https://op.example/errors", "https://op.example/e?x=1&y=")
		c.PerType = chance(t, 50)
	}
	c.Twice = chance(t, 15)
	return c
}

// basicHeader renders credentials; form encoding is what RFC 6749 asks for,
// unencoded is equivalent where no character is special.
func basicHeader(t *rapid.T, id, sec string) string {
	a, b := url.QueryEscape(id), url.QueryEscape(sec)
	if raw, err := url.QueryUnescape(id); err == nil && raw == id && !strings.Contains(id, ":") && chance(t, 40) {
		if raw, err := url.QueryUnescape(sec); err == nil && raw == sec {
			a, b = id, sec
		}
	}
	if chance(t, 15) {
		b = strings.ReplaceAll(b, "+", "%20")
	}
	scheme := "Basic"
	if chance(t, 15) {
		scheme = pick(t, "basic", "BASIC")
	}
	return scheme + " " + base64.StdEncoding.EncodeToString([]byte(a+":"+b))
}

func genAssertion(t *rapid.T, s *world.Spec, cl *world.ClientSpec, role, sub string, now int64, n int) *asrSpec {
	k := cl.AKeys[u(t, len(cl.AKeys))]
	a := &asrSpec{role: role, iss: cl.ID, sub: sub, aud: s.Issuer, exp: now + int64(pick(t, 300, 1, 86400, 300, 1<<31, 1<<40)), alg: k.Alg, key: k.Key, kid: k.Kid}
	if chance(t, 80) {
		a.jti = pick(t, fmt.Sprintf("jti-%s-%d", role, n), fmt.Sprintf("jti-%s-%d", role, n), "shared-jti", "jti é\"|,", "SHARED-JTI", " shared-jti", strings.Repeat("j", 400))
	}
	if chance(t, 60) {
		a.iat = now - int64(pick(t, 5, 0, 1000))
	}
	if chance(t, 30) {
		a.nbf = now - int64(pick(t, 0, 1, 500))
	}
	if chance(t, 15) {
		a.xtr = raw(`{"a":[1,null]}`)
	}
	if chance(t, 15) {
		a.more = genMoreClaims(t, s)
	}
	return a
}

// authenticate adds client credentials to the step.
func (g *gstep) authenticate(t *rapid.T, s *world.Spec, cfg *TokenCfg, how string, now int64, n int) {
	g.drop("client_id")
	g.drop("client_secret")
	g.drop("client_assertion")
	g.drop("client_assertion_type")
	g.Auth = ""
	g.auth = how
	switch how {
	case "basic":
		g.Auth = basicHeader(t, g.client.ID, g.client.Secret)
		if chance(t, 10) {
			g.set("client_id", g.client.ID)
		}
	case "body":
		g.set("client_id", g.client.ID)
		g.set("client_secret", g.client.Secret)
	case "query":
		g.Query = append(g.Query, KV{"client_id", g.client.ID}, KV{"client_secret", g.client.Secret})
	case "assertion":
		a := genAssertion(t, s, g.client, "client", g.client.ID, now, n)
		g.asr = append(g.asr, a)
		g.set("client_assertion", fmt.Sprintf("@jwt:%d", len(g.asr)-1))
		g.set("client_assertion_type", jwtBearer)
		if chance(t, 20) {
			g.set("client_id", g.client.ID)
		}
	}
}

// genGood makes a request that would be right if its objects are alive.
func genGood(t *rapid.T, s *world.Spec, cfg *TokenCfg, p *tokenProfile, now int64, n int) *gstep {
	g := &gstep{}
	g.Op = "token"
	g.Method = "POST"
	g.client = &s.Clients[u(t, len(s.Clients))]
	g.grant = pick(t, p.grants...)
	g.set("grant_type", g.grant)
	byInfo := map[int64]*world.InfoSpec{}
	for i := range s.Infos {
		byInfo[s.Infos[i].ID] = &s.Infos[i]
	}
	owner := func(id string) {
		for i := range s.Clients {
			if s.Clients[i].ID == id {
				g.client = &s.Clients[i]
			}
		}
	}
	switch g.grant {
	case "authorization_code":
		if len(s.Sessions) > 0 {
			g.sess = &s.Sessions[u(t, len(s.Sessions))]
			owner(byInfo[g.sess.Info].Client)
			g.set("code", g.sess.Code)
			g.set("redirect_uri", g.sess.RedirectURI)
			if chance(t, 8) {
				// without a meaning here
				g.set("scope", byInfo[g.sess.Info].Scope)
			}
			if v := g.sess.CodeVerifier; v != "" {
				if chance(t, 50) {
					g.set("code_challenge_method", "S256")
					g.set("code_challenge", s256(v))
				} else {
					g.set("code_challenge_method", "plain")
					g.set("code_challenge", v)
				}
			} else if chance(t, 15) {
				g.set("code_challenge_method", pick(t, "S256", "plain", "S512"))
				g.set("code_challenge", "irrelevant")
			}
		} else {
			g.set("code", "none")
			g.set("redirect_uri", g.client.RedirectURIs[0])
		}
	case "refresh_token":
		var l []int
		for i := range s.Tokens {
			if s.Tokens[i].Refresh != "" {
				l = append(l, i)
			}
		}
		if len(l) > 0 {
			g.tok = &s.Tokens[l[u(t, len(l))]]
			owner(byInfo[g.tok.Info].Client)
			g.set("refresh_token", g.tok.Refresh)
		} else {
			g.set("refresh_token", "none")
		}
		if chance(t, 10) {
			g.set("scope", "openid admin")
		}
	case "password":
		x := s.Users[u(t, len(s.Users))]
		g.set("username", x.Name)
		g.set("password", x.Password)
	case grant.TypeJWT:
		x := s.Users[u(t, len(s.Users))]
		a := genAssertion(t, s, g.client, "grant", x.Subject, now, n)
		g.asr = append(g.asr, a)
		g.set("assertion", "@jwt:0")
	}
	if g.grant != "authorization_code" && g.grant != "refresh_token" && chance(t, 75) {
		ok := g.client.Scopes["direct_grant"]
		sc := strings.Join(shuffle(t, subset(t, 35, ok...)), " ")
		g.set("scope", sc)
	}
	how := pick(t, p.auths...)
	// mostly a place that the endpoint accepts
	if chance(t, 85) {
		for i := 0; i < 6; i++ {
			if how == "basic" || how == "body" && cfg.Accept > 0 || how == "query" && cfg.Accept > 1 || how == "assertion" && cfg.Assertion {
				break
			}
			how = pick(t, p.auths...)
		}
	}
	g.authenticate(t, s, cfg, how, now, n)
	if chance(t, 10) {
		g.set("extra", "1")
	}
	if chance(t, 10) {
		g.set("state", "ignored")
	}
	if chance(t, 15) {
		g.Body = append(g.Body, noiseParams(t, s, func(k string) bool { return g.get(k) != "" })...)
	}
	if chance(t, 10) {
		g.Body = append(g.Body, foreignParams(t, g, s)...)
	}
	if chance(t, 8) {
		g.Hdr = noiseHeaders(t, s)
	}
	return g
}

func otherClient(t *rapid.T, s *world.Spec, c *world.ClientSpec) *world.ClientSpec {
	for i := range s.Clients {
		if &s.Clients[i] != c {
			return &s.Clients[i]
		}
	}
	return c
}

// spoil applies one fault of the given kind (not every kind changes every
// request).
func spoil(t *rapid.T, g *gstep, s *world.Spec, cfg *TokenCfg, kind string, now int64, n int) {
	switch kind {
	case "secret":
		id, sec := g.client.ID, g.client.Secret
		oc := otherClient(t, s, g.client)
		switch u(t, 7) {
		case 0:
			sec = nearMiss(t, sec)
		case 1:
			id = nearMiss(t, id)
		case 2:
			sec = oc.Secret
		case 3:
			sec = ""
		case 4:
			id = ""
		case 5:
			id, sec = sec, id
		case 6:
			sec = url.QueryEscape(sec) + "x"
		}
		switch g.auth {
		case "body", "query":
			g.set("client_id", id)
			g.set("client_secret", sec)
		default:
			g.Auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(url.QueryEscape(id)+":"+url.QueryEscape(sec)))
		}
	case "auth":
		switch u(t, 9) {
		case 0:
			g.authenticate(t, s, cfg, "none", now, n)
		case 1: // any place
			how := pick(t, "basic", "body", "query", "assertion")
			g.authenticate(t, s, cfg, how, now, n)
			if how == "query" && cfg.Accept != 2 && chance(t, 50) { // everything in the URL
				g.Query, g.Body = append(g.Query, g.Body...), nil
			}
		case 2:
			g.authenticate(t, s, cfg, "none", now, n)
			good := base64.StdEncoding.EncodeToString([]byte(url.QueryEscape(g.client.ID) + ":" + url.QueryEscape(g.client.Secret)))
			g.Auth = pick(t, "Basic", "Basic ", "Basic !!!!", "Basic "+base64.StdEncoding.EncodeToString([]byte(g.client.Secret)), "Bearer "+good, "Digest "+good, good, "Basic "+good+"=", "Basic:"+good)
		case 3: // id and secret apart
			g.authenticate(t, s, cfg, "none", now, n)
			if chance(t, 50) {
				g.set("client_id", g.client.ID)
				g.Query = append(g.Query, KV{"client_secret", g.client.Secret})
			} else {
				g.Query = append(g.Query, KV{"client_id", g.client.ID})
				g.Body = append(g.Body, KV{"client_secret", g.client.Secret})
			}
		case 4: // only one of them
			g.authenticate(t, s, cfg, "body", now, n)
			g.drop(pick(t, "client_secret", "client_id"))
		case 5: // a wrong header beside right body credentials
			g.authenticate(t, s, cfg, "body", now, n)
			g.Auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(url.QueryEscape(g.client.ID)+":wrong"))
		case 6: // a right header beside others' credentials
			g.authenticate(t, s, cfg, "body", now, n)
			oc := otherClient(t, s, g.client)
			g.set("client_id", oc.ID)
			g.set("client_secret", pick(t, oc.Secret, "wrong"))
			g.Auth = basicHeader(t, g.client.ID, g.client.Secret)
		case 7:
			g.authenticate(t, s, cfg, "assertion", now, n)
			g.set("client_assertion_type", pick(t, "", "urn:ietf:params:oauth:client-assertion-type:saml2-bearer", jwtBearer+" ", "jwt-bearer", strings.ToUpper(jwtBearer)))
		case 8:
			g.authenticate(t, s, cfg, "assertion", now, n)
			g.drop(pick(t, "client_assertion", "client_assertion_type"))
		}
	case "assertion":
		g.authenticate(t, s, cfg, "assertion", now, n)
		spoilAssertion(t, g.asr[len(g.asr)-1], s, g.client, now)
	case "jwt":
		for _, a := range g.asr {
			if a.role == "grant" {
				spoilAssertion(t, a, s, g.client, now)
				return
			}
		}
	case "granttype":
		switch u(t, 6) {
		case 0:
			g.drop("grant_type")
		case 1:
			g.set("grant_type", "")
		case 2:
			g.set("grant_type", nearMiss(t, g.grant))
		case 3:
			g.set("grant_type", pick(t, "implicit", "urn:ietf:params:oauth:grant-type:jwt-bearer", "foo", "code", "Password"))
		default:
			g.set("grant_type", pick(t, allGrants...))
		}
	case "code":
		if g.sess == nil {
			return
		}
		switch u(t, 3) {
		case 0:
			g.set("code", nearMiss(t, g.sess.Code))
		case 1:
			g.set("code", s.Sessions[u(t, len(s.Sessions))].Code)
		case 2:
			g.set("code", pick(t, "", "none"))
		}
	case "redirect":
		if g.sess == nil {
			return
		}
		switch u(t, 6) {
		case 4, 5:
			g.set("redirect_uri", uriNearMiss(t, g.sess.RedirectURI))
		case 0:
			g.set("redirect_uri", nearMiss(t, g.sess.RedirectURI))
		case 1:
			g.set("redirect_uri", g.client.RedirectURIs[u(t, len(g.client.RedirectURIs))])
		case 2:
			g.set("redirect_uri", pick(t, "", "https://evil.example/"))
		case 3:
			g.set("redirect_uri", g.sess.RedirectURI+pick(t, "?", "#", "/", "&a=b", "%20"))
		}
	case "pkce":
		if g.sess == nil || g.sess.CodeVerifier == "" {
			return
		}
		v := g.sess.CodeVerifier
		switch u(t, 12) {
		case 10:
			g.set("code_challenge", pick(t, strings.Repeat("c", 300), strings.Repeat(s256(v), 8), v+v, g.get("code_challenge")+strings.Repeat("=", 300)))
		case 11:
			c := g.get("code_challenge")
			if c == "" {
				return
			}
			g.set("code_challenge", pick(t, c[:1], c[:len(c)/2], strings.TrimSpace(c), c+"\x00", " "+c+" "))
		case 0:
			g.drop("code_challenge")
		case 1:
			g.drop("code_challenge_method")
		case 2:
			g.drop("code_challenge_method")
			g.drop("code_challenge")
		case 3:
			g.set("code_challenge", nearMiss(t, g.get("code_challenge")))
		case 4:
			g.set("code_challenge_method", pick(t, "s256", "PLAIN", "Plain", "S512", "none", "S256 ", "sha256", ""))
		case 5: // swapped
			g.set("code_challenge_method", "plain")
			g.set("code_challenge", s256(v))
		case 6:
			g.set("code_challenge_method", "S256")
			g.set("code_challenge", v)
		case 7:
			g.set("code_challenge", "")
		case 8:
			h := sha256.Sum256([]byte(v))
			g.set("code_challenge_method", "S256")
			g.set("code_challenge", pick(t, base64.URLEncoding.EncodeToString(h[:]), base64.StdEncoding.EncodeToString(h[:]), fmt.Sprintf("%x", h), strings.ToLower(s256(v)), s256(s256(v)), s256(v+"\n"), s256(""), "inner"))
		case 9:
			g.drop("code_challenge_method")
			g.drop("code_challenge")
			g.set("code_verifier", v)
		}
	case "refresh":
		if g.tok == nil {
			return
		}
		switch u(t, 4) {
		case 0:
			g.set("refresh_token", nearMiss(t, g.tok.Refresh))
		case 1:
			g.set("refresh_token", pick(t, "", "none"))
		case 2:
			g.set("refresh_token", s.Tokens[u(t, len(s.Tokens))].Access)
		case 3:
			if x := s.Tokens[u(t, len(s.Tokens))].Refresh; x != "" {
				g.set("refresh_token", x)
			}
		}
	case "user":
		switch g.grant {
		case "password":
			switch u(t, 6) {
			case 0:
				g.set("username", nearMiss(t, g.get("username")))
			case 1:
				g.set("password", nearMiss(t, g.get("password")))
			case 2:
				g.set("username", s.Users[u(t, len(s.Users))].Name)
			case 3:
				g.set("password", s.Users[u(t, len(s.Users))].Password)
			case 4:
				g.set("username", "")
			case 5:
				g.set("password", "")
			}
		case grant.TypeJWT:
			if x, ok := g.asr[0].sub.(string); ok && x != "" && chance(t, 40) {
				g.asr[0].sub = pick(t, strings.ToUpper(x), flip(t, x), nearMiss(t, x), x[:1]+strings.ToUpper(x[1:]))
				return
			}
			g.asr[0].sub = pick[interface{}](t, "nobody", "", nil, raw("5"), raw("null"), g.client.ID, raw(`["sub-alice"]`), s.Users[0].Subject+"@"+g.client.ID, s.Users[0].Name)
		}
	case "scope":
		if g.grant == "authorization_code" || g.grant == "refresh_token" {
			return
		}
		sc := strings.Fields(g.get("scope"))
		g.set("scope", strings.Join(shuffle(t, append(sc, pick(t, "admin", "openid3", "emai", "READ", "*", scopePool[u(t, len(scopePool))]))), " "))
	case "client":
		// the credentials of somebody else
		g.client = otherClient(t, s, g.client)
		g.authenticate(t, s, cfg, pick(t, g.auth, "basic"), now, n)
	case "drop":
		if len(g.Body) > 0 {
			g.drop(g.Body[u(t, len(g.Body))].K)
		}
	}
}

func spoilAssertion(t *rapid.T, a *asrSpec, s *world.Spec, cl *world.ClientSpec, now int64) {
	oc := otherClient(t, s, cl)
	switch u(t, 20) {
	case 0:
		a.exp = now - int64(pick(t, 1, 100, 1000000))
	case 1:
		a.exp = pick[interface{}](t, nil, raw(`"never"`), raw("null"), raw("0"), raw("true"), raw("-1"), raw("{}"), raw("0.0"))
	case 2:
		a.nbf = now + int64(pick(t, 1, 100, 1000000))
	case 3:
		a.aud = pick[interface{}](t, nil, "", "https://other.example", s.Issuer+"/token", nearMiss(t, s.Issuer), raw("5"), raw("null"), raw("[]"), raw(`["https://other.example"]`), raw("{}"), cl.ID)
		if chance(t, 15) {
			a.iss = s.Issuer
		}
	case 4:
		a.aud = raw("[" + jsonString(s.Issuer) + "]")
	case 5:
		a.jti = pick[interface{}](t, "shared-jti", "jti é\"|,", "", nil)
	case 6: // a key this client has not registered
		k := oc.AKeys[u(t, len(oc.AKeys))]
		a.alg, a.key, a.kid = k.Alg, k.Key, k.Kid
	case 7:
		a.kid = pick(t, "unknown", "", "k1", "K1", "k3")
	case 8:
		a.halg = pick(t, "HS256", "RS256", "none", "ES256", "RS512", "hs256", "")
	case 9:
		a.alg, a.key = "none", ""
		a.halg = pick(t, "none", "None", "NONE", "nOnE")
	case 10: // public key taken for an HMAC secret
		for _, k := range cl.AKeys {
			if k.Alg[:2] != "HS" {
				a.alg, a.key, a.kid = "HS256", "pubpem:"+k.Key, k.Kid
			}
		}
		if a.alg != "HS256" {
			a.key = "hk-guess"
		}
	case 11, 12, 13:
		a.mut = pick(t, "nosig", "twoparts", "onepart", "flipsig", "truncsig", "claims", "notjson", "array", "badb64", "badheader", "hdrnum", "garbage", "dots", "bearer")
	case 14:
		if a.role == "client" {
			a.sub = pick[interface{}](t, oc.ID, nearMiss(t, cl.ID), "", nil, raw("5"), raw("null"), raw("["+jsonString(cl.ID)+"]"))
		}
	case 15:
		a.key = "hk-guess"
		if a.alg[:2] != "HS" {
			a.key = world.KeyFor(a.alg, map[bool]string{true: "b", false: "a"}[world.KeyFor(a.alg, "a") == a.key])
		}
	case 16:
		a.iss = pick[interface{}](t, nil, oc.ID, raw("5"))
	case 17:
		a.iat = now + 100
	case 18:
		a.iat = pick[interface{}](t, raw(`"x"`), raw("null"), raw("0"), nil)
	case 19:
		a.jti = raw("7")
	}
}

func genTokenHost(t *rapid.T, s *world.Spec, now int64) TokenStep {
	c := s.Clients[u(t, len(s.Clients))]
	usr := fmt.Sprint(s.Users[u(t, len(s.Users))].ID)
	st := TokenStep{Op: "host", Arg: c.ID}
	switch u(t, 8) {
	case 0:
		st.Host, st.Arg2 = "revoke", usr
	case 1:
		st.Host, st.Arg2 = "restore", usr
	case 2:
		st.Host, st.Arg2 = "setscope", usr+"|"+strings.Join(words2(t, 2), " ")
	case 3:
		st.Host, st.Arg2 = "setsecret", pick(t, "rotated", "new:secret%41+")
	case 4:
		st.Host, st.Arg2 = "setgrants", strings.Join(subset(t, 60, allGrants...), " ")
	case 5:
		st.Host, st.Arg2 = "setallscopes", strings.Join(append([]string{"openid"}, subset(t, 60, scopePool...)...), " ")
	case 6:
		st.Host, st.Arg2 = "setowner", pick(t, "-1", "1", "0", "2")
	case 7:
		st.Host = pick(t, "removeclient", "dropakeys")
	}
	return st
}

func genToken(t *rapid.T, p *tokenProfile) *TokenCase {
	c := &TokenCase{Cfg: genTokenCfg(t, p), Spec: genTokenWorld(t, p)}
	if p.cfg != nil {
		c.Cfg = *p.cfg
	}
	var kinds []interface{}
	keys := newSet()
	for k := range p.faults {
		keys.add(k)
	}
	for _, k := range keys.list() {
		kinds = append(kinds, p.faults[k], k)
	}
	// what the requests are made from: the world as its users know it
	gs := c.Spec
	gs.Clients = append([]world.ClientSpec(nil), c.Spec.Clients...)
	n := 1 + u(t, p.maxSteps)
	if p.maxSteps > 2 && chance(t, 1) {
		n += u(t, 40) // a long history
	}
	now := c.Spec.Now
	for i := 0; i < n; i++ {
		if chance(t, p.advance) {
			d := int64(pick(t, 1, 60, 59, 600, 7200, 3600))
			c.Steps = append(c.Steps, TokenStep{Op: "advance", N: d})
			now += d
		}
		if chance(t, p.rotate) {
			c.Steps = append(c.Steps, TokenStep{Op: "host", Host: "setidkey", Arg: c.Spec.Clients[u(t, len(c.Spec.Clients))].ID, Arg2: genKeyChange(t, p.badKey)})
		}
		if chance(t, p.host) {
			h := genTokenHost(t, &gs, now)
			c.Steps = append(c.Steps, h)
			if h.Host == "setsecret" && chance(t, 60) {
				for i := range gs.Clients {
					if gs.Clients[i].ID == h.Arg {
						gs.Clients[i].Secret = h.Arg2
					}
				}
			}
		}
		g := genGood(t, &gs, &c.Cfg, p, now, i)
		if chance(t, p.method) {
			m := g.clone()
			m.Method = pick(t, "GET", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS", "post")
			if m.Method == "GET" || m.Method == "HEAD" {
				m.Query = append(m.Query, m.Body...)
				m.Body = nil
			}
			c.Steps = append(c.Steps, m.render())
		}
		if chance(t, p.bad) {
			b := g.clone()
			spoil(t, b, &gs, &c.Cfg, relevant(t, b, kinds), now, i)
			if chance(t, 12) {
				spoil(t, b, &gs, &c.Cfg, relevant(t, b, kinds), now, i)
			}
			// its own assertion identifiers
			for _, a := range b.asr {
				if s, ok := a.jti.(string); ok && strings.HasPrefix(s, "jti-") && chance(t, 70) {
					a.jti = s + "b"
				}
			}
			st := b.render()
			if chance(t, 3) {
				genTokenDup(t, &gs, &c.Cfg, &st)
			}
			c.Steps = append(c.Steps, st)
			if !chance(t, p.follow) {
				continue
			}
		}
		st := g.render()
		if chance(t, 4) {
			genTokenDup(t, &gs, &c.Cfg, &st)
		}
		c.Steps = append(c.Steps, st)
		if chance(t, p.again) {
			c.Steps = append(c.Steps, genTokenAgain(t, c, p, &gs, g, now, i)...)
		}
		if chance(t, p.repeat) {
			if chance(t, 50) {
				c.Steps = append(c.Steps, TokenStep{Op: "advance", N: int64(pick(t, 1, 59))})
				now += c.Steps[len(c.Steps)-1].N
			}
			c.Steps = append(c.Steps, g.render())
		}
	}
	return c
}

// genTokenDup repeats one or two of the parameters with other values.
func genTokenDup(t *rapid.T, s *world.Spec, cfg *TokenCfg, st *TokenStep) {
	has := map[string]string{}
	var names []string
	for _, x := range append(append([]KV(nil), st.Query...), st.Body...) {
		if _, ok := has[x.K]; !ok && !strings.HasPrefix(x.K, "client_assertion") && x.K != "assertion" {
			has[x.K] = x.V
			names = append(names, x.K)
		}
	}
	if len(names) == 0 {
		return
	}
	for i := 1 + u(t, 2); i > 0; i-- {
		k := names[u(t, len(names))]
		if chance(t, 25) {
			k = "client_id"
		}
		v, ok := has[k]
		if !ok {
			continue
		}
		cl := s.Clients[u(t, len(s.Clients))]
		usr := s.Users[u(t, len(s.Users))]
		switch k {
		case "client_id":
			v = cl.ID
		case "client_secret":
			v = cl.Secret
		case "code":
			if len(s.Sessions) > 0 {
				v = s.Sessions[u(t, len(s.Sessions))].Code
			}
		case "redirect_uri":
			if len(s.Sessions) > 0 && chance(t, 50) {
				v = s.Sessions[u(t, len(s.Sessions))].RedirectURI
			} else {
				v = "https://evil.example/"
			}
		case "refresh_token":
			if len(s.Tokens) > 0 {
				v = s.Tokens[u(t, len(s.Tokens))].Refresh
			}
		case "username":
			v = usr.Name
		case "password":
			v = usr.Password
		case "grant_type":
			v = allGrants[u(t, len(allGrants))]
		case "scope":
			v = strings.Join(mutScope(t, strings.Fields(v)), " ")
		case "code_challenge_method":
			v = pick(t, "plain", "S256", "")
		default:
			v += "x"
		}
		if v == has[k] {
			continue
		}
		delete(has, k)
		st.Dup = append(st.Dup, KV{k, v})
	}
	st.DupAt = u(t, 4)
}

// relevant draws a fault that can matter to the request.
func relevant(t *rapid.T, g *gstep, kinds []interface{}) string {
	var l []interface{}
	for i := 0; i < len(kinds); i += 2 {
		k := kinds[i+1].(string)
		ok := true
		switch k {
		case "code", "redirect":
			ok = g.sess != nil
		case "pkce":
			ok = g.sess != nil && g.sess.CodeVerifier != ""
		case "refresh":
			ok = g.tok != nil
		case "user":
			ok = g.grant == "password" || g.grant == grant.TypeJWT
		case "scope":
			ok = g.grant != "authorization_code" && g.grant != "refresh_token"
		case "jwt":
			ok = g.grant == grant.TypeJWT
		}
		if ok {
			l = append(l, kinds[i], kinds[i+1])
		}
	}
	if len(l) == 0 {
		return "drop"
	}
	return wpick(t, l...)
}

var _ = json.Marshal

// genMoreClaims are claims an assertion may carry without effect.
func genMoreClaims(t *rapid.T, s *world.Spec) []interface{} {
	var l []interface{}
	for _, k := range subset(t, 30, "prn", "user_id", "uid", "email", "client_id", "azp", "scope", "username", "act", "cid") {
		x := s.Users[u(t, len(s.Users))]
		l = append(l, k, pick[interface{}](t, x.Subject, x.Name, x.ID, s.Clients[u(t, len(s.Clients))].ID, "openid email"))
	}
	return l
}

// foreignParams are parameters that belong to other grant types.
func foreignParams(t *rapid.T, g *gstep, s *world.Spec) []KV {
	x := s.Users[u(t, len(s.Users))]
	vals := []KV{{"username", x.Name}, {"password", x.Password}, {"refresh_token", "seed-at-0"}, {"code", "none"}, {"redirect_uri", "https://c1.example/cb"}, {"code_verifier", "v"}, {"access_token", "seed-at-0"}, {"response_type", "code"}, {"nonce", "n-evil"}, {"login_hint", x.Name}, {"max_age", "0"}, {"prompt", "none"}}
	if len(s.Tokens) > 0 {
		vals[2].V = s.Tokens[u(t, len(s.Tokens))].Refresh
	}
	if len(s.Sessions) > 0 {
		vals[3].V = s.Sessions[u(t, len(s.Sessions))].Code
	}
	own := map[string]set{"authorization_code": newSet("code", "redirect_uri"), "refresh_token": newSet("refresh_token"), "password": newSet("username", "password")}[g.grant]
	var out []KV
	for _, i := range shuffleN(t, len(vals))[:1+u(t, 4)] {
		if k := vals[i]; !own[k.K] && k.V != "" && g.get(k.K) == "" {
			out = append(out, k)
		}
	}
	return out
}

// genTokenAgain changes something that mattered to a request and makes a
// request like it again, so that whatever was remembered becomes visible.
func genTokenAgain(t *rapid.T, c *TokenCase, p *tokenProfile, gs *world.Spec, g *gstep, now int64, n int) []TokenStep {
	var out []TokenStep
	id := g.client.ID
	host := func(op, a, b string) { out = append(out, TokenStep{Op: "host", Host: op, Arg: a, Arg2: b}) }
	usr := fmt.Sprint(gs.Users[u(t, len(gs.Users))].ID)
	info := int64(0)
	if g.sess != nil {
		info = g.sess.Info
	}
	if g.tok != nil {
		info = g.tok.Info
	}
	for _, i := range gs.Infos {
		if i.ID == info {
			usr = fmt.Sprint(i.User)
		}
	}
	k := u(t, 12)
	switch k {
	case 0, 1:
		host("dropgrant", id, g.grant)
	case 2:
		host("setsecret", id, pick(t, "rotated", g.client.Secret+"x", strings.ToUpper(g.client.Secret)))
	case 3:
		host("dropakeys", id, "")
	case 4:
		host("removeclient", id, "")
	case 5:
		host("revoke", id, usr)
	case 6:
		host("setscope", id, usr+"|"+strings.Join(words2(t, 2), " "))
	case 7:
		host("setowner", id, pick(t, "-1", "1", "0", "2"))
	case 8:
		if w := strings.Fields(g.get("scope")); len(w) > 0 {
			host("dropscope", id, w[u(t, len(w))])
		}
	case 9:
		out = append(out, TokenStep{Op: "advance", N: int64(pick(t, 1, 2, 59, 301, 7201))})
	}
	h := g.clone()
	if g.grant == "authorization_code" || chance(t, 30) {
		// another request of the same client
		q := *p
		q.grants = []string{g.grant}
		for i := 0; i < 6; i++ {
			h = genGood(t, gs, &c.Cfg, &q, now, n+50)
			if h.client == g.client && (h.sess == nil || h.sess != g.sess) {
				break
			}
		}
	}
	for _, a := range h.asr {
		if s, ok := a.jti.(string); ok && chance(t, 80) {
			a.jti = s + "-again"
		}
	}
	return append(out, h.render())
}
