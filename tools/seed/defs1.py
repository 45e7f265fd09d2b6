AC = "grant/authorization_code.go"
AE = "authorization_endpoint.go"
TE = "token_endpoint.go"
RP = "resource_protector.go"

seed("T06-disable-failed", "T06", AC, ('''				if err.Type() == bridge.ErrFailed {

					logger.Error(log.TokenEndpointLog(TypeAuthorizationCode,
						log.DisableSessionFailed,
						map[string]string{"method": "DisableSession", "client_id": c.GetId()},
						"failed to disable code."))

					return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)

				} else if''', '''				if err.Type() == bridge.ErrFailed {

					// nothing left to disable
					logger.Error(log.TokenEndpointLog(TypeAuthorizationCode,
						log.DisableSessionFailed,
						map[string]string{"method": "DisableSession", "client_id": c.GetId()},
						"failed to disable code."))

				} else if'''), '''
	k := newKit(nil)
	code, _ := k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read")
	redeem := func() (int, map[string]interface{}) {
		return k.token("c1", "grant_type", "authorization_code", "code", code, "redirect_uri", uri)
	}
	var n2 int
	entered := false
	k.w.Gate = func(m string) {
		if m == "CreateOAuthToken" && !entered {
			entered = true
			n2, _ = redeem() // a second request overtakes the first
		}
	}
	n1, m := redeem()
	must(n1 != 200 || n2 != 200, "both requests for one code got tokens: %v", m)
''', "two overlapping redemptions of the same code, where the second completes between the first one's session lookup and its disabling", "one authorization code yields two access tokens")

seed("T05-fold", "T05", "pkce/verifier.go", [('import "fmt"', 'import (\n\t"fmt"\n\t"strings"\n)'), ('	return S256Encode(verifier) == challenge', '	return strings.EqualFold(S256Encode(verifier), challenge)')], '''
	k := newKit(nil)
	v := "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
	code, _ := k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read", "code_verifier", v)
	n, _ := k.token("c1", "grant_type", "authorization_code", "code", code, "redirect_uri", uri,
		"code_challenge_method", "S256", "code_challenge", strings.ToUpper("E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM"))
	must(n != 200, "a challenge with other letter case was accepted")
''', "a challenge that differs from the right one in letter case only", "S256 challenges are compared without regard to case")

seed("T04-slash", "T04", AC, [('	"net/http"\n', '	"net/http"\n	"strings"\n'), ('sess.GetRedirectURI() != uri', 'strings.TrimSuffix(sess.GetRedirectURI(), "/") != strings.TrimSuffix(uri, "/")')], '''
	k := newKit(nil)
	code, _ := k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read")
	n, _ := k.token("c1", "grant_type", "authorization_code", "code", code, "redirect_uri", uri+"/")
	must(n != 200, "redeemed with another redirect URI")
''', "a redirect URI that differs in a trailing slash", "a code is redeemable with a redirect URI other than that of its request")

seed("T07-lifetime", "T07", "grant/refresh_token.go", ('old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() <', 'old.GetRefreshTokenExpiresIn()+old.GetRefreshedAt() <'), '''
	k := newKit(nil)
	_, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read offline_access")
	rt := str(m, "refresh_token")
	must(rt != "", "no refresh token: %v", m)
	k.wait(5000)
	n, m := k.token("c1", "grant_type", "refresh_token", "refresh_token", rt)
	must(n == 200, "a live refresh token was refused: %v", m)
	k.wait(5000)
	n, m = k.token("c1", "grant_type", "refresh_token", "refresh_token", rt)
	must(n != 200, "the refresh token outlived its lifetime: %v", m)
''', "a refresh, then a second one after the end of the refresh token's lifetime but within a lifetime of the first", "each refresh prolongs the refresh token's life")

seed("A07-subset", "A07", AE, ('''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)''', '''				covered, _ := scope.IncludeAll(info.GetScope(), scope.Split(req.Scope))
				if info.IsActive() && covered &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)'''), '''
	k := newKit(nil)
	k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read email")
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read")
	must(len(cb.Consents) == 1, "consent was skipped for another scope than the granted one")
''', "a request for a part of an earlier granted scope", "consent is skipped though the scope differs from the granted one, and tokens carry more than was requested")

seed("A05-inactive", "A05", AE, ('if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&', 'if scope.Same(info.GetScope(), req.Scope) &&', 2), '''
	k := newKit(func(s *world.Spec) { s.Clients[0].None = int(prompt.NonePromptPolicyAllowIfLoginHintMatched) })
	k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read")
	for _, i := range k.w.Infos {
		i.Active = false // revoked
	}
	p := params(k.authorize(k.browser(1), "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read", "prompt", "none", "login_hint", "sub1"), uri)
	must(p.Get("code") == "" && p.Get("error") != "", "completed on a revoked grant: %v", p)
''', "prompt=none with a matching login hint after the grant was revoked", "a revoked consent counts for prompt=none under the login-hint policy")

seed("A06-login", "A06", AE, ('''		if !isFromLogin {

			a.logger''', '''		// with 'max_age' the age of the login is checked below
		if !isFromLogin && mas == "" {

			a.logger'''), '''
	k := newKit(nil)
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read", "prompt", "login", "max_age", "3600")
	must(len(cb.Logins) == 1 && len(cb.Consents) == 0, "prompt=login did not lead to a login")
''', "prompt=login together with max_age and a login that is recent enough for it", "prompt=login is ignored when max_age is given")

seed("A09-token", "A09", AE, ('		if f.Type == flow.Implicit ||\n', '		if f.Type == flow.Implicit && f.RequireIdToken ||\n'), '''
	k := newKit(nil)
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "token", "scope", "read offline_access", "prompt", "consent")
	must(len(cb.Consents) == 1, "no consent screen")
	must(cb.Consents[0].Req.Scope == "read", "offline_access reached consent in the implicit flow: %q", cb.Consents[0].Req.Scope)
''', "response_type=token with offline_access and prompt=consent", "offline_access is granted in the implicit flow")

seed("A02-trim", "A02", "authorization/response.go", ('		params["state"] = state\n', '		params["state"] = strings.TrimSpace(state)\n'), '''
	k := newKit(nil)
	st := " a state\\t"
	p := params(k.authorize(k.browser(1), "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "", "response_mode", "form_post", "state", st), uri)
	must(p.Get("state") == st, "state %q came back as %q", st, p.Get("state"))
''', "an error response in form_post mode for a state with leading or trailing space", "state is not echoed byte for byte")

seed("A11-std", "A11", "authorization/request.go", [('	return base64.URLEncoding.EncodeToString(data)', '	return base64.StdEncoding.EncodeToString(data)'), ('	data, _ := base64.URLEncoding.DecodeString(encoded)', '	data, _ := base64.StdEncoding.DecodeString(encoded)')], '''
	r := &authorization.Request{ClientId: "c", State: "?>?>?>~~~~", Nonce: "\\u00ff\\u00ff\\u00fe", Scope: "a b"}
	for i := 0; i < 3; i++ {
		r.State += "?"
		e := r.Encode()
		must(!strings.ContainsAny(e, "+/ &"), "not URL-safe: %q", e)
		v, _ := url.ParseQuery("p=" + e)
		d := authorization.DecodeRequest(v.Get("p"))
		must(d.State == r.State, "came back as %q", d.State)
	}
''', "a request whose text form happens to need one of the characters 62 and 63 of the alphabet, carried in a URL", "the text form of a pending request is not URL-safe")

seed("I02-384", "I02", "id_token/id_token.go", ('		return base64.StdEncoding.EncodeToString(data[:24]), nil', '		return base64.StdEncoding.EncodeToString(data[:16]), nil'), '''
	k := newKit(func(s *world.Spec) { s.Clients[0].IDAlg = "HS384" })
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code id_token", "scope", "openid read", "nonce", "n")
	p := params(k.approve(cb), uri+"")
	t, err := world.ParseJWT(p.Get("id_token"))
	must(err == nil, "%v", err)
	h, _ := t.Claims["c_hash"].(string)
	must(len(strings.TrimRight(h, "=")) == 32, "c_hash %q is not the left half of a SHA-384 hash", h)
''', "an ID token signed with a 384-bit algorithm in the hybrid or implicit flow", "c_hash and at_hash are cut too short for 384-bit algorithms")

seed("T08-flow", "T08", "grant/jwt.go", ('!c.CanUseScope(flow.DirectGrant, scp_req)', '!c.CanUseScope(flow.AuthorizationCode, scp_req)'), '''
	k := newKit(func(s *world.Spec) { s.Clients[0].Scopes["direct_grant"] = []string{"read"} })
	a := k.claims("c1", map[string]interface{}{"iss": "c1", "sub": "sub1", "aud": iss, "exp": t0 + 100, "iat": t0, "jti": "j1"})
	n, m := k.token("c1", "grant_type", grant.TypeJWT, "assertion", a, "scope", "read_all")
	must(n != 200 && str(m, "error") == "invalid_scope", "scope beyond the direct grants': %d %v", n, m)
''', "a JWT grant by a client whose scopes differ between flows", "a JWT grant may use a scope that the client may use in the code flow only")

seed("T09-aud", "T09", "assertion/error.go", [('	"fmt"\n', '	"fmt"\n	"strings"\n'), ('	if aud != service {', '	// the token endpoint below the issuer is named by some clients\n	if !strings.HasPrefix(aud, service) {')], '''
	k := newKit(nil)
	a := k.claims("c1", map[string]interface{}{"iss": "c1", "sub": "sub1", "aud": iss + ".evil.example", "exp": t0 + 100, "iat": t0, "jti": "j1"})
	n, _ := k.token("c1", "grant_type", grant.TypeJWT, "assertion", a, "scope", "read")
	must(n != 200, "an assertion for another audience was accepted")
''', "an assertion whose audience merely starts with the issuer", "assertions made for another provider are accepted")

seed("T10-shared", "T10", TE, [('''func (te *TokenEndpoint) failByInvalidClientError(w http.ResponseWriter, inHeader bool) {
	if inHeader {
		te.failWithAuthHeader(w, oer.NewOAuthSimpleError(oer.ErrInvalidClient))
	} else {
		te.fail(w, oer.NewOAuthSimpleError(oer.ErrInvalidClient))
	}''', '''var errInvalidClient = oer.NewOAuthSimpleError(oer.ErrInvalidClient)

func (te *TokenEndpoint) failByInvalidClientError(w http.ResponseWriter, inHeader bool) {
	if inHeader {
		te.failWithAuthHeader(w, errInvalidClient)
	} else {
		te.fail(w, errInvalidClient)
	}''')], '''
	a, b := newKit(nil), newKit(nil)
	a.te.SetErrorURI("https://a.example/err")
	b.te.SetErrorURI("https://b.example/err")
	a.token("nobody", "grant_type", "password")
	_, m := b.token("nobody", "grant_type", "password")
	must(m["error_uri"] == "https://b.example/err", "error_uri %v", m["error_uri"])
''', "two token endpoints with different error URIs in one process, both refusing a client", "the error URI of one endpoint appears in the responses of another")

seed("X04-current", "X04", AE, [('	currentTime io.TimeBuilder\n}', '	currentTime io.TimeBuilder\n	approved    *authorization.Request\n}'), ('''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil || info == nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	return a.complete(callbacks, r, rh, info, req)''', '''	a.approved = req
	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil || info == nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
	return a.complete(callbacks, r, rh, info, a.approved)''')], '''
	k := newKit(nil)
	b1, b2 := k.browser(1), k.browser(2)
	k.authorize(b1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read", "state", "one")
	k.authorize(b2, "client_id", "c2", "redirect_uri", uri, "response_type", "code", "scope", "read", "state", "two")
	entered := false
	k.w.Gate = func(m string) {
		if m == "CreateOrUpdateAuthInfo" && !entered {
			entered = true
			k.approve(b2)
		}
	}
	p := params(k.approve(b1), uri)
	must(p.Get("state") == "one", "the first user's response has state %q", p.Get("state"))
''', "two approvals overlapping while the first one's grant is being stored", "one user's approval is answered with another user's request")

seed("X01-record", "X01", "assertion/error.go", ('''				"the method returns 'unsupported' error."))

			return oer.NewOAuthSimpleError(oer.ErrServerError)

		} else {

			logger.Warn''', '''				"the method returns 'unsupported' error."))

			// the host keeps no record of assertions

		} else {

			logger.Warn'''), '''
	k := newKit(nil)
	k.w.Faults = []world.Fault{{Method: "RecordAssertionClaims", Nth: 0, Kind: "unsupported"}}
	a := k.claims("c1", map[string]interface{}{"iss": "c1", "sub": "sub1", "aud": iss, "exp": t0 + 100, "iat": t0, "jti": "j1"})
	n, m := k.token("c1", "grant_type", grant.TypeJWT, "assertion", a, "scope", "read")
	must(n != 200, "tokens though the record of used assertions failed: %v", m)
''', "the host's record of used assertions answering 'unsupported'", "assertions are accepted without a replay check")

seed("X02-hybrid", "X02", AE, ('''	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr''', '''	if serr != nil && serr.Type() != bridge.ErrFailed {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr'''), '''
	k := newKit(nil)
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code token", "scope", "read", "state", "s")
	k.w.Faults = []world.Fault{{Method: "CreateAuthSession", Nth: 0, Kind: "failed"}}
	p := params(k.approve(cb), uri)
	must(p.Get("code") == "" && p.Get("error") != "", "a code though its session could not be stored: %v", p)
''', "storing the session failing with 'failed' in the hybrid flow", "a code is delivered that was never stored")

seed("R01-created", "R01", RP, ('	if at.GetRefreshedAt()+at', '	if at.GetCreatedAt()+at'), '''
	k := newKit(nil)
	_, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read offline_access")
	k.wait(3000)
	_, m = k.token("c1", "grant_type", "refresh_token", "refresh_token", str(m, "refresh_token"))
	k.wait(3000)
	ok, _, _ := k.resource("/x", str(m, "access_token"), nil)
	must(ok, "a refreshed access token is refused before its time")
''', "an access token refreshed and used after the end of the original one's lifetime", "refreshed access tokens expire with the lifetime of the first one")

seed("R02-empty", "R02", RP, ('	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())', '	if scp := info.GetScope(); scp != "" {\n		r.Header.Set("X-OAUTH-SCOPE", scp)\n	}'), '''
	k := newKit(nil)
	_, m := k.token("c1", "grant_type", "client_credentials")
	ok, r, _ := k.resource("/x", str(m, "access_token"), nil, "X-OAUTH-SCOPE", "admin")
	must(ok, "refused: %v", m)
	must(r.Header.Get("X-OAUTH-SCOPE") == "", "spoofed scope %q", r.Header.Get("X-OAUTH-SCOPE"))
''', "a token whose grant has an empty scope, and a request with a forged scope header", "the scope header of the client reaches the application")

seed("R03-substring", "R03", RP, [('	"github.com/lyokato/goidc/scope"\n', ''), ('''		ok, not_found := scope.IncludeAll(s, scopes)
		if ok {
			return true
		} else {''', '''		not_found := ""
		for _, required := range scopes {
			if !strings.Contains(s, required) {
				not_found = required
				break
			}
		}
		if not_found == "" {
			return true
		} else {''')], '''
	k := newKit(nil)
	_, m := k.token("c1", "grant_type", "client_credentials", "scope", "read_all")
	ok, _, _ := k.resource("/x", str(m, "access_token"), map[string][]string{"/x": {"read"}})
	must(!ok, "read_all counted as read")
''', "a granted scope word that contains the required one", "scope requirements are met by parts of words")
