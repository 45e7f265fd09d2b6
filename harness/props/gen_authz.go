package props

import (
	"fmt"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"pgregory.net/rapid"
	"verif/world"
)

// authzProfile steers the generation of authorization histories.
type authzProfile struct {
	bad      map[string]int // percent of deliberate faults per aspect
	prompts  []string
	login    int // percent of requests with a login session
	match    int // percent of scopes taken from the stored grant
	weird    int // percent of worlds with weird redirect URIs
	algs     []string
	maxSteps int
	decide   int // percent of requests followed by a decision
	cancel   int // percent of decisions that cancel
	host     int // percent of steps preceded by a host change
	consent  int // percent of clients that always show consent
	maxAge   int // percent of requests with max_age
	modes    []string
	none     []int
	offline  int
	dup      int                   // percent of requests with repeated parameters, if not the usual
	again    int                   // percent of histories that repeat requests under changed circumstances
	badKey   int                   // percent of clients with an unusable signing key
	rotate   int                   // percent of steps preceded by a change of signing keys
	policy   *authorization.Policy // if given
}

func (p *authzProfile) badPct(k string) int {
	if v, ok := p.bad[k]; ok {
		return v
	}
	return 2
}

var promptsAll = []string{"", "", "", "login", "consent", "login consent", "none", "select_account", "consent select_account"}

func genPolicy(t *rapid.T, p *authzProfile) authorization.Policy {
	pol := *authorization.DefaultPolicy()
	pol.AllowEmptyScope = chance(t, 20)
	pol.MinMaxAge = pick(t, 60, 0, 1, 100)
	pol.MaxMaxAge = pick(t, 86400, 3600, 100)
	pol.MaxNonceLength = pick(t, 255, 32, 64, 128, 300)
	pol.MaxCodeVerifierLength = pick(t, 255, 43, 64, 128)
	pol.ConsentOmissionPeriod = pick(t, 86400, 100, 1)
	if chance(t, 8) {
		pol.ConsentOmissionPeriod = pick(t, 5*31536000, 1<<31+7, 1<<40)
	}
	pol.AuthSessionExpiresIn = pick(t, 60, 1, 600)
	pol.IdTokenExpiresIn = pick(t, 86400, 60, 1, 86400, 60, 1, 2592000, 1<<33)
	if chance(t, 40) {
		pol.DefaultAuthorizationCodeFlowResponseMode = pick(t, "query", "fragment", "form_post")
		pol.DefaultImplicitFlowResponseMode = pick(t, "fragment", "form_post", "query")
	}
	pol.IgnoreInvalidResponseMode = chance(t, 50)
	pol.RequireResponseModeSecurityLevelCheck = chance(t, 60)
	return pol
}

func genAuthz(t *rapid.T, p *authzProfile) *AuthzCase {
	c := &AuthzCase{Policy: genPolicy(t, p)}
	if p.policy != nil {
		c.Policy = *p.policy
	}
	c.Spec = genSpec(t, specOpts{weirdURIs: p.weird, idAlg: p.algs})
	for i := range c.Spec.Clients {
		if chance(t, p.consent) {
			c.Spec.Clients[i].NoConsent = 0
		} else {
			c.Spec.Clients[i].NoConsent = 1
		}
		if len(p.none) > 0 {
			c.Spec.Clients[i].None = pick(t, p.none...)
		}
		if chance(t, p.badKey) {
			spoilSigning(t, &c.Spec.Clients[i])
		}
	}
	period := int64(c.Policy.ConsentOmissionPeriod)
	id := c.Spec.Users[0].ID>>31<<31 + int64(11+100*laneNo)
	for _, usr := range c.Spec.Users {
		for _, cl := range c.Spec.Clients {
			id++
			if !chance(t, 75) {
				continue
			}
			ages := []int64{0, period - 1, period, period + 1, period / 2, period * 2}
			if period > 1<<30 { // "for ever"
				ages = []int64{0, 1, 86400, 1 << 30}
			}
			w := words2(t, 3)
			if chance(t, 80) {
				w = without(w, "offline_access")
			}
			sc := strings.Join(shuffle(t, w), " ")
			if chance(t, 4) {
				sc = ""
			}
			c.Spec.Infos = append(c.Spec.Infos, world.InfoSpec{ID: id, Client: cl.ID, User: usr.ID,
				Subject: subjectOf(&c.Spec, usr.ID, cl.ID), Scope: sc,
				AuthorizedAt: c.Spec.Now - ages[u(t, len(ages))], Active: !chance(t, 12)})
		}
	}
	if period > 1<<30 { // "for ever": not to be waited for
		period = 100000
	}
	n := 1 + u(t, p.maxSteps)
	if p.maxSteps > 2 && chance(t, 1) {
		n += u(t, 40) // a long history
	}
	now := c.Spec.Now
	for i := 0; i < n; i++ {
		if i > 0 && chance(t, 30) {
			d := int64(pick(t, 1, 60, int(period), int(period)-1, 3600))
			c.Steps = append(c.Steps, AuthzStep{Op: "advance", N: d})
			now += d
		}
		if chance(t, p.host) {
			c.Steps = append(c.Steps, genHostChange(t, &c.Spec, now, period))
		}
		if chance(t, p.rotate) {
			c.Steps = append(c.Steps, AuthzStep{Op: "host", Host: "setidkey", Arg: c.Spec.Clients[u(t, len(c.Spec.Clients))].ID, Arg2: genKeyChange(t, p.badKey)})
		}
		st := genAuthzStep(t, c, p, now)
		c.Steps = append(c.Steps, st)
		if chance(t, p.again) {
			if chance(t, 25) {
				c.Steps = append(c.Steps, AuthzStep{Op: "approve"})
			}
			more := genAgain(t, c, st, now)
			for _, x := range more {
				if x.Op == "advance" {
					now += x.N
				}
			}
			c.Steps = append(c.Steps, more...)
		}
		if chance(t, p.rotate) {
			c.Steps = append(c.Steps, AuthzStep{Op: "host", Host: "setidkey", Arg: c.Spec.Clients[u(t, len(c.Spec.Clients))].ID, Arg2: genKeyChange(t, p.badKey)})
		}
		if chance(t, p.decide) {
			if chance(t, 20) {
				c.Steps = append(c.Steps, AuthzStep{Op: "advance", N: int64(1 + u(t, 100))})
			}
			op := "approve"
			if chance(t, p.cancel) {
				op = "cancel"
			}
			c.Steps = append(c.Steps, AuthzStep{Op: op, N: int64(u(t, 3))})
		}
	}
	return c
}

// spoilSigning gives a client a signing configuration that cannot work.
func spoilSigning(t *rapid.T, c *world.ClientSpec) {
	switch u(t, 5) {
	case 0:
		c.IDAlg, c.IDKey = pick(t, "RS256", "PS384"), "hk-wrong"
	case 1:
		c.IDAlg, c.IDKey = "HS256", pick(t, "rsa1", "ec256a")
	case 2:
		c.IDAlg = pick(t, "none", "", "HS255", "rs256", "EdDSA")
	case 3:
		c.IDAlg, c.IDKey = "ES256", "rsa1"
	case 4:
		c.IDKey = "" // no key at all
	}
}

func genKeyChange(t *rapid.T, badKey int) string {
	c := world.ClientSpec{IDAlg: pick(t, idAlgs...)}
	c.IDKey = world.KeyFor(c.IDAlg, pick(t, "a", "b"))
	if chance(t, badKey) {
		spoilSigning(t, &c)
	}
	return c.IDAlg + "|" + c.IDKey + "|" + pick(t, "kid-2", "", "kid-1")
}

// genAgain repeats a request after something that matters to it has changed,
// so that whatever was remembered from the first time becomes visible.
func genAgain(t *rapid.T, c *AuthzCase, first AuthzStep, now int64) []AuthzStep {
	st := first
	st.Query = append([]KV(nil), first.Query...)
	st.Body = append([]KV(nil), first.Body...)
	get := func(k string) string { return formValue(st.Method, st.Query, st.Body, k) }
	put := func(k, v string) {
		for _, l := range []*[]KV{&st.Body, &st.Query} {
			for i := range *l {
				if (*l)[i].K == k {
					(*l)[i].V = v
					return
				}
			}
		}
		st.Query = append(st.Query, KV{k, v})
	}
	cid := get("client_id")
	usr := fmt.Sprint(st.Login.UID)
	period := int64(c.Policy.ConsentOmissionPeriod)
	if period > 1<<30 { // "for ever": not to be waited for
		period = 100000
	}
	host := func(op, a, b string) AuthzStep { return AuthzStep{Op: "host", Host: op, Arg: a, Arg2: b} }
	var out []AuthzStep
	key, _ := classifyRT(get("response_type"))
	switch u(t, 20) {
	case 18:
		// come back from a fresh login
		st.Login.LoggedIn, st.Login.Stale, st.Login.FromLogin = true, false, true
		st.Login.UID, st.Login.AuthTime = c.Spec.Users[u(t, len(c.Spec.Users))].ID, now
	case 19:
		st.Login.AuthTime = pick(t, now, now-60, now-3600, 0, 1)
	case 0:
		out = append(out, host("dropuri", cid, get("redirect_uri")))
	case 1:
		if f, ok := responseTypes[key]; ok {
			out = append(out, host("dropflow", cid, f[0].(string)))
		}
	case 2:
		if w := strings.Fields(get("scope")); len(w) > 0 {
			out = append(out, host("dropscope", cid, w[u(t, len(w))]))
		}
	case 3:
		out = append(out, host("revoke", cid, usr))
	case 4:
		out = append(out, host("setscope", cid, usr+"|"+strings.Join(mutScope(t, strings.Fields(get("scope"))), " ")))
	case 5:
		out = append(out, host("setauthat", cid, fmt.Sprintf("%s|%d", usr, now-period-int64(pick(t, 0, 1, -1)))))
	case 6:
		out = append(out, AuthzStep{Op: "advance", N: int64(pick(t, 1, int(period), int(period)+1, 61, 101, 3601))})
	case 7:
		out = append(out, host("setnone", cid, pick(t, "0", "1", "2", "3")))
	case 8:
		out = append(out, host("setnoconsent", cid, pick(t, "0", "1")))
	case 9:
		out = append(out, host("removeclient", cid, ""))
	case 10:
		st.Login.UID = c.Spec.Users[u(t, len(c.Spec.Users))].ID
	case 11:
		st.Login.LoggedIn = false
		st.Login.Stale = chance(t, 50)
	case 12:
		st.Login.FromLogin = !st.Login.FromLogin
	case 13:
		put("client_id", c.Spec.Clients[u(t, len(c.Spec.Clients))].ID)
	case 14:
		put("redirect_uri", uriNearMiss(t, get("redirect_uri")))
	case 15:
		k := pick(t, "state", "nonce", "code_verifier", "login_hint", "display")
		put(k, pick(t, "other", "", get(k)+"x"))
	case 16:
		put("response_mode", pick(t, "query", "fragment", "form_post", "bogus", ""))
	case 17:
		k := pick(t, "prompt", "max_age", "scope", "response_type", "nonce", "state")
		for _, l := range []*[]KV{&st.Body, &st.Query} {
			var n []KV
			for _, x := range *l {
				if x.K != k {
					n = append(n, x)
				}
			}
			*l = n
		}
	}
	return append(out, st)
}

func without(l []string, x string) []string {
	var out []string
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func genHostChange(t *rapid.T, s *world.Spec, now, period int64) AuthzStep {
	c := s.Clients[u(t, len(s.Clients))].ID
	usr := fmt.Sprint(s.Users[u(t, len(s.Users))].ID)
	st := AuthzStep{Op: "host", Arg: c}
	switch u(t, 9) {
	case 0:
		st.Host, st.Arg2 = "revoke", usr
	case 1:
		st.Host, st.Arg2 = "restore", usr
	case 2:
		st.Host, st.Arg2 = "setscope", usr+"|"+strings.Join(words2(t, 2), " ")
	case 3:
		st.Host, st.Arg2 = "setauthat", fmt.Sprintf("%s|%d", usr, now-int64(pick(t, 0, int(period), int(period)-1, int(period)+1)))
	case 4:
		st.Host, st.Arg2 = "setnoconsent", pick(t, "0", "1")
	case 5:
		st.Host, st.Arg2 = "setnone", pick(t, "0", "1", "2", "3")
	case 6:
		st.Host, st.Arg2 = "setflows", strings.Join(subset(t, 60, allFlows...), " ")
	case 7:
		st.Host, st.Arg2 = "seturis", pick(t, "https://c1.example/cb", "https://c2.example/cb https://c1.example/cb2")
	case 8:
		st.Host, st.Arg2 = "setallscopes", strings.Join(append([]string{"openid"}, subset(t, 60, scopePool...)...), " ")
	}
	return st
}

func genAuthzStep(t *rapid.T, c *AuthzCase, p *authzProfile, now int64) AuthzStep {
	s := &c.Spec
	ci := u(t, len(s.Clients))
	cl := &s.Clients[ci]
	usr := s.Users[u(t, len(s.Users))]
	st := AuthzStep{Op: "authorize", Method: pick(t, "GET", "GET", "POST")}
	var kv []KV
	set := func(k, v string) { kv = append(kv, KV{k, v}) }

	// login
	st.Login.LoggedIn = chance(t, p.login)
	if st.Login.LoggedIn {
		st.Login.UID = usr.ID
		st.Login.AuthTime = now - int64(pick(t, 0, 1, 59, 60, 61, 99, 100, 101, 3600, 100000))
		if chance(t, 8) {
			// never, or very long ago
			st.Login.AuthTime = pick(t, int64(0), 1, now-86400*366*3)
		}
	} else if chance(t, 25) {
		// the host still remembers the user of an ended session
		st.Login.Stale = true
		st.Login.UID = usr.ID
		st.Login.AuthTime = now - int64(pick(t, 0, 60, 3600))
	}
	st.Login.FromLogin = chance(t, 50)
	age := now - st.Login.AuthTime

	// target
	cid := cl.ID
	ruri := cl.RedirectURIs[u(t, len(cl.RedirectURIs))]
	if chance(t, p.badPct("target")) {
		other := s.Clients[(ci+1)%len(s.Clients)]
		switch u(t, 11) {
		case 9, 10:
			ruri = uriNearMiss(t, ruri)
		case 0:
			cid = ""
		case 1:
			cid = nearMiss(t, cid)
		case 2:
			ruri = ""
		case 3:
			ruri = uriNearMiss(t, ruri)
		case 4:
			ruri = other.RedirectURIs[u(t, len(other.RedirectURIs))]
		case 5:
			ruri = pick(t, "https://evil.example/", ruri+"?x", ruri+".evil.example", "javascript:alert(1)", strings.Replace(ruri, "https", "http", 1), "//evil.example/cb", "/cb")
		case 6:
			cid, ruri = "", ""
		case 7:
			cid = other.ID
		case 8:
			cid, ruri = "nobody", "https://evil.example/"
		}
	}
	if cid != "" || chance(t, 50) {
		set("client_id", cid)
	}
	if ruri != "" || chance(t, 50) {
		set("redirect_uri", ruri)
	}

	// response type
	rts := []string{"code", "code", "code id_token", "code token", "code id_token token", "id_token", "id_token token", "token"}
	rt := pick(t, rts...)
	if chance(t, 50) {
		rt = strings.Join(shuffle(t, strings.Split(rt, " ")), " ")
	}
	if chance(t, p.badPct("rt")) {
		rt = pick(t, "", "none", "code none", "Code", "code code", "code ", " token", "code  token", "id_token,token", "codetoken", "token id", "code id_token token none", "code+token")
	}
	if rt != "" {
		set("response_type", rt)
	}
	key, rtOK := classifyRT(rt)
	flow := "authorization_code"
	if rtOK {
		flow = responseTypes[key][0].(string)
	}
	wantIDT := rtOK && responseTypes[key][3].(bool)

	// response mode
	mode := ""
	if chance(t, 45) {
		mode = pick(t, "query", "fragment", "form_post")
	}
	if len(p.modes) > 0 {
		mode = pick(t, p.modes...)
	}
	if chance(t, p.badPct("mode")) {
		mode = pick(t, "querY", "post", "form-post", "fragment ", "web_message", "none", "0")
	}
	if mode != "" {
		set("response_mode", mode)
	}

	if chance(t, p.badPct("display")) {
		set("display", pick(t, "full", "Page", "page popup", "pop", "none"))
	} else if chance(t, 40) {
		set("display", pick(t, "page", "popup", "touch", "wap"))
	}

	// prompt
	pr := pick(t, p.prompts...)
	if pr != "" && chance(t, 30) {
		pr = strings.Join(shuffle(t, strings.Split(pr, " ")), " ")
	}
	if chance(t, p.badPct("prompt")) {
		pr = pick(t, "none login", "consent none", "bogus", "login bogus", "None", "none none consent", "login,consent", "select", "logins", "none select_account")
	}
	if pr != "" {
		set("prompt", pr)
	}
	isNone := pr == "none" || pr == "none none"

	// max_age
	min, max := c.Policy.MinMaxAge, c.Policy.MaxMaxAge
	if chance(t, p.badPct("max_age")) {
		set("max_age", pick(t, "abc", "1.5", fmt.Sprint(min-1), fmt.Sprint(max+1), "-5", "99999999999999999999", "10s", "1e3", " 100", "0x64", fmt.Sprint(max*10), fmt.Sprint(int64(max)+1<<32), fmt.Sprint(int64(max)-1<<32), fmt.Sprint(int64(max)+1<<31), "18446744073709551716", "9223372036854775807"))
	} else if chance(t, p.maxAge) {
		v := int64(pick(t, min, max, (min+max)/2))
		if st.Login.LoggedIn && chance(t, 60) {
			v = age + int64(pick(t, 0, -1, 1))
		}
		if v < int64(min) {
			v = int64(min)
		}
		if v > int64(max) {
			v = int64(max)
		}
		set("max_age", fmt.Sprint(v))
	}

	// scope
	var granted []string
	for _, i := range s.Infos {
		if i.Client == cl.ID && i.User == usr.ID {
			granted = strings.Fields(i.Scope)
		}
	}
	var sc []string
	switch {
	case granted != nil && chance(t, p.match):
		sc = shuffle(t, granted)
		if chance(t, 15) {
			sc = mutScope(t, sc)
		}
	case chance(t, 80):
		var ok []string
		for _, x := range cl.Scopes[flow] {
			if x != "offline_access" && x != "openid" {
				ok = append(ok, x)
			}
		}
		sc = shuffle(t, append([]string{"openid"}, subset(t, 40, ok...)...))
	default:
		sc = shuffle(t, subset(t, 50, scopePool...))
	}
	if wantIDT && !hasStr(sc, "openid") && chance(t, 90) {
		sc = append(sc, "openid")
	}
	if chance(t, p.offline) && !hasStr(sc, "offline_access") {
		sc = shuffle(t, append(sc, "offline_access"))
	}
	scope := strings.Join(sc, " ")
	if chance(t, p.badPct("scope")) {
		switch u(t, 9) {
		case 0:
			scope = ""
		case 1:
			scope = pick(t, " ", "  ")
		case 2:
			scope = "openid offline_access"
		case 3:
			scope = "offline_access"
		case 4:
			scope = strings.Join(append(sc, pick(t, "admin", "openid email2", "reads", "OpenID")), " ")
		case 5:
			scope = strings.Join(without(sc, "openid"), " ")
		case 6:
			scope = strings.Join(sc, "  ") + pick(t, " ", "")
		case 7:
			scope = scope + " " + scope
		case 8:
			scope = "offline_access " + scope + " offline_access"
		}
	}
	if scope != "" || chance(t, 30) {
		set("scope", scope)
	}

	// nonce, verifier
	maxN, maxV := c.Policy.MaxNonceLength, c.Policy.MaxCodeVerifierLength
	nonce := ""
	if wantIDT && flow != "authorization_code" || chance(t, 50) {
		nonce = pick(t, "n-0S6_WzA2Mj", "nonce é", `"'<&>`, "0", " n ", "a+b%20c", "N", strings.Repeat("n", maxN), strings.Repeat("n", maxN-1))
	}
	if chance(t, p.badPct("nonce")) {
		nonce = pick(t, "", strings.Repeat("n", maxN+1), strings.Repeat("n", maxN*2), strings.Repeat("n", maxN-1)+"  ", " "+strings.Repeat("n", maxN), strings.Repeat("n", 1000))
	}
	if nonce != "" {
		set("nonce", nonce)
	}
	ver := ""
	if chance(t, 40) {
		ver = pick(t, "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk", "v", strings.Repeat("v", maxV), strings.Repeat("w", maxV-1), "~._-", " ", " v ")
	}
	if chance(t, p.badPct("verifier")) {
		ver = strings.Repeat("v", maxV+pick(t, 1, 2, maxV))
		if chance(t, 30) {
			ver = strings.Repeat("v", maxV) + pick(t, " ", "=", "\t")
		}
	}
	if ver != "" {
		set("code_verifier", ver)
	}
	if x := pick(t, states...); x != "" {
		if x[0] == 'l' && chance(t, 20) {
			x = strings.Repeat(x, 25) // 70 kB
		}
		set("state", x)
	} else if chance(t, 20) {
		set("state", "")
	}
	if chance(t, 25) {
		set("ui_locales", pick(t, "en", "fr-CA fr en", "ja é", ""))
	}

	// hints
	if chance(t, 15) || isNone && chance(t, 70) {
		set("login_hint", pick(t, usr.Subject, usr.Subject, usr.Subject, s.Users[0].Subject, s.Users[1].Subject, "nobody", nearMiss(t, usr.Subject), ""))
	}
	if chance(t, 8) || isNone && cl.None != 1 && chance(t, 80) {
		j := genHint(t, s, cl, usr, now)
		st.JWTs = append(st.JWTs, j)
		set("id_token_hint", "@jwt:0")
	}

	if st.Method == "POST" {
		switch u(t, 4) {
		case 0:
			// some in the URL
			for _, x := range kv {
				if chance(t, 50) {
					st.Query = append(st.Query, x)
				} else {
					st.Body = append(st.Body, x)
				}
			}
		case 1:
			st.Query = kv
		default:
			st.Body = kv
		}
	} else {
		st.Query = kv
	}
	if chance(t, 20) {
		st.Query = append(st.Query, KV{"extra", "1"})
	}
	if chance(t, 10) {
		st.Query = append(st.Query, noiseParams(t, s, func(k string) bool { return formValue(st.Method, st.Query, st.Body, k) != "" },
			"user_id", "uid", "sub", "subject", "auth_time", "approved", "consent", "code", "error", "access_token", "id_token", "request", "request_uri", "registration", "claims", "acr_values", "code_challenge", "code_challenge_method", "client_secret", "redirect_url", "return_to", "iss", "expires_in", "debug", "locale", "login", "force", "response_modes", "audience", "resource")...)
	}
	if chance(t, 8) {
		st.Hdr = noiseHeaders(t, s)
	}
	dup := 4
	if p.dup > 0 {
		dup = p.dup
	}
	if chance(t, dup) {
		genDup(t, c, &st)
	}
	return st
}

// genDup repeats one or two of the parameters with other values.
func genDup(t *rapid.T, c *AuthzCase, st *AuthzStep) {
	s := &c.Spec
	has := map[string]string{}
	var names []string
	for _, x := range append(append([]KV(nil), st.Query...), st.Body...) {
		if _, ok := has[x.K]; !ok && x.K != "id_token_hint" && x.K != "extra" {
			has[x.K] = x.V
			names = append(names, x.K)
		}
	}
	if len(names) == 0 {
		return
	}
	if _, ok := has["client_id"]; ok && chance(t, 15) {
		// the target belongs to the second client
		cl := s.Clients[u(t, len(s.Clients))]
		for _, l := range []*[]KV{&st.Query, &st.Body} {
			for i := range *l {
				if (*l)[i].K == "redirect_uri" {
					(*l)[i].V = cl.RedirectURIs[u(t, len(cl.RedirectURIs))]
				}
			}
		}
		st.Dup = append(st.Dup, KV{"client_id", cl.ID})
		delete(has, "client_id")
	}
	for i := 1 + u(t, 4)/3; i > 0; i-- {
		k := names[u(t, len(names))]
		if chance(t, 35) {
			k = "redirect_uri"
		}
		if _, ok := has[k]; !ok {
			continue
		}
		cl := s.Clients[u(t, len(s.Clients))]
		v := has[k]
		switch k {
		case "redirect_uri":
			v = pick(t, "https://evil.example/", cl.RedirectURIs[u(t, len(cl.RedirectURIs))], cl.RedirectURIs[0], uriNearMiss(t, v))
		case "client_id":
			v = cl.ID
		case "response_type":
			v = pick(t, "code", "token", "id_token", "id_token token", "code token", "code id_token token", "nonsense")
		case "response_mode":
			v = pick(t, "query", "fragment", "form_post", "")
		case "scope":
			v = strings.Join(mutScope(t, strings.Fields(v)), " ")
		case "state":
			v += pick(t, "x", "%2e", "&error=x")
		case "prompt":
			v = promptsAll[u(t, len(promptsAll))]
		case "display":
			v = pick(t, "page", "popup", "hologram")
		case "max_age":
			v = pick(t, "100", "60", "3600", "x")
		case "code_verifier":
			v = strings.Repeat(pick(t, "A", "b"), 43)
		default:
			v += "-2"
		}
		if v == has[k] {
			continue
		}
		delete(has, k)
		st.Dup = append(st.Dup, KV{k, v})
	}
	st.DupAt = u(t, 2)
	if st.Method == "POST" {
		st.DupAt = u(t, 4)
	}
}

func claimsJSON(kv ...interface{}) string {
	var b strings.Builder
	b.WriteString("{")
	first := true
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == nil {
			continue
		}
		if !first {
			b.WriteString(",")
		}
		first = false
		switch v := kv[i+1].(type) {
		case string:
			fmt.Fprintf(&b, "%q:%s", kv[i], jsonString(v))
		case raw:
			fmt.Fprintf(&b, "%q:%s", kv[i], string(v))
		default:
			fmt.Fprintf(&b, "%q:%v", kv[i], v)
		}
	}
	b.WriteString("}")
	return b.String()
}

type raw string

func genHint(t *rapid.T, s *world.Spec, cl *world.ClientSpec, usr world.UserSpec, now int64) JWTSpec {
	j := JWTSpec{Alg: cl.IDAlg, Key: cl.IDKey, Kid: cl.IDKid}
	sub := subjectOf(s, usr.ID, cl.ID)
	var exp interface{} = now + int64(pick(t, 600, 1, 86400))
	var iat interface{} = now - int64(pick(t, 10, 0, 1000))
	var nbf interface{}
	if chance(t, 50) {
		switch u(t, 14) {
		case 12:
			// an algorithm nobody knows, above good claims
			j.HAlg = pick(t, "XX256", "HS257", "hs256", "NONE", "None", "none ", "EdDSA", "")
		case 13:
			j.Alg, j.Key = "HS256", "pubder:"+cl.IDKey
			if strings.HasPrefix(cl.IDAlg, "HS") {
				j.Key = "guess"
			}
		case 0:
			exp = now - int64(pick(t, 1, 100, 100000))
		case 1:
			exp = pick[interface{}](t, nil, raw(`"never"`), raw("0"), raw("null"), raw("-1"))
		case 2:
			other := s.Users[0]
			if other.ID == usr.ID {
				other = s.Users[1]
			}
			sub = subjectOf(s, other.ID, cl.ID)
		case 3:
			sub = nearMiss(t, sub)
		case 4:
			j.Key = world.KeyFor(cl.IDAlg, "zz")
			if j.Key == cl.IDKey {
				j.Key = world.KeyFor(cl.IDAlg, "a")
			}
			if strings.HasPrefix(cl.IDAlg, "ES") {
				j.Key = world.KeyFor(cl.IDAlg, map[bool]string{true: "b", false: "a"}[strings.HasSuffix(cl.IDKey, "a")])
			}
		case 5:
			j.Alg, j.Key = "none", ""
		case 6:
			j.Alg, j.Key = "HS256", "pubpem:"+cl.IDKey
			if strings.HasPrefix(cl.IDAlg, "HS") {
				j.Key = "guess"
			}
		case 7:
			j.Mut = pick(t, "nosig", "twoparts", "flipsig", "truncsig", "claims", "notjson", "garbage", "array", "badb64", "badheader", "hdrnum", "dots", "onepart", "bearer")
		case 8:
			nbf = now + 100
		case 9:
			return JWTSpec{Alg: j.Alg, Key: j.Key, Claims: claimsJSON("exp", exp), Kid: j.Kid}
		case 10:
			iat = nil
		case 11:
			return JWTSpec{Alg: j.Alg, Key: j.Key, Claims: claimsJSON("exp", exp, "sub", raw("5")), Kid: j.Kid}
		}
	}
	j.Claims = claimsJSON("iss", s.Issuer, "aud", cl.ID, "sub", sub, "exp", exp, "iat", iat, "nbf", nbf)
	return j
}
