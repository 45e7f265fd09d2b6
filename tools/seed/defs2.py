seed("A01-trim", "A01", AE, ('	if !clnt.CanUseRedirectURI(ruri) {', '	if !clnt.CanUseRedirectURI(strings.TrimRight(ruri, "/")) && !clnt.CanUseRedirectURI(ruri) {'), '''
	k := newKit(func(s *world.Spec) { s.Clients[0].RedirectURIs = []string{uri} })
	cb := k.browser(1)
	rec := k.authorize(cb, "client_id", "c1", "redirect_uri", uri+"/", "response_type", "bogus", "scope", "read")
	must(len(cb.ErrScreens) == 1 && rec.Head().Get("Location") == "", "answered at an unregistered redirect URI %q", rec.Head().Get("Location"))
''', "a redirect URI that differs from the registered one in a trailing slash", "responses go to a redirect URI that is not registered")

seed("A03-strict", "A03", AE, ('''				authorization.ResponseHandlerForMode(defaultRM, w, r).Error(
					ruri, "invalid_request",
					fmt.Sprintf("'response_mode:%s' isn't''', '''				authorization.ResponseHandlerForMode(rmode, w, r).Error(
					ruri, "invalid_request",
					fmt.Sprintf("'response_mode:%s' isn't'''), '''
	k := newKit(nil)
	k.pol.IgnoreInvalidResponseMode = false
	rec := k.authorize(k.browser(1), "client_id", "c1", "redirect_uri", uri, "response_type", "token", "scope", "read", "response_mode", "query", "state", "s")
	d, _ := world.ParseDelivery(rec, uri)
	must(d != nil && d.Mode == "fragment", "delivered in %v", d)
''', "a policy that does not ignore invalid modes, and a request whose mode is weaker than the flow's default", "an error is delivered in the refused, weaker mode")

seed("A04-maxage", "A04", AE, [('		ma, err = strconv.Atoi(mas)', '		_, err = fmt.Sscanf(mas, "%d", &ma)'), ('	"strconv"\n', '')], '''
	k := newKit(nil)
	cb := k.browser(1)
	p := params(k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read", "max_age", "600s"), uri)
	must(p.Get("error") == "invalid_request", "max_age=600s was taken: %v", p)
''', "a max_age that starts with a number but is none", "malformed max_age values are accepted")

seed("A06-age", "A06", AE, ('		age := a.currentTime().Unix() - authTime\n', '		age := (a.currentTime().Unix() - authTime) / 60 * 60 // clocks of browsers differ\n'), '''
	k := newKit(nil)
	cb := k.browser(1)
	cb.Login.AuthTime = t0 - 110
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read", "max_age", "90")
	must(len(cb.Logins) == 1 && len(cb.Consents) == 0, "a login of 110 s was young enough for max_age=90")
''', "a login older than max_age by less than a minute", "logins up to a minute older than max_age are accepted")

seed("A08-nonce", "A08", AE, ('''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr''', '''	pending := *req
	if req.Flow.RequireIdToken {
		// used in the id_token of this response
		pending.Nonce = ""
	}
	serr := a.di.CreateAuthSession(info,
		pending.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr'''), '''
	k := newKit(nil)
	code, _ := k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code id_token", "scope", "openid read", "nonce", "n-1")
	n, m := k.token("c1", "grant_type", "authorization_code", "code", code, "redirect_uri", uri)
	must(n == 200, "%v", m)
	t, err := world.ParseJWT(str(m, "id_token"))
	must(err == nil && t.Claims["nonce"] == "n-1", "the ID token of the code has nonce %v", t.Claims["nonce"])
''', "a hybrid flow with an ID token, looking at the session or redeeming the code", "the session of a hybrid flow loses the nonce")

seed("A10-reason", "A10", AE, ('	rh.Error(req.RedirectURI, "access_denied", "", req.State)', '''	reason := "access_denied"
	if prompt.IncludeConsent(req.Prompt) {
		reason = "consent_required"
	}
	rh.Error(req.RedirectURI, reason, "", req.State)'''), '''
	k := newKit(nil)
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read", "prompt", "consent")
	p := params(k.cancel(cb), uri)
	must(p.Get("error") == "access_denied", "cancelled with %v", p)
''', "cancelling a request with prompt=consent", "a cancelled request is not answered with access_denied")

seed("I01-lifetime", "I01", AC, ('					sess.GetIdTokenExpiresIn(),\n					sess.GetAuthTime(),', '					token.GetAccessTokenExpiresIn(),\n					sess.GetAuthTime(),'), '''
	k := newKit(nil)
	code, _ := k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read")
	n, m := k.token("c1", "grant_type", "authorization_code", "code", code, "redirect_uri", uri)
	must(n == 200, "%v", m)
	t, _ := world.ParseJWT(str(m, "id_token"))
	exp, _ := t.Claims["exp"].(json.Number)
	must(fmt.Sprint(t.Claims["exp"]) == fmt.Sprint(t0+600) || string(exp) == fmt.Sprint(t0+600), "the ID token expires at %v", t.Claims["exp"])
''', "ID tokens and access tokens with different lifetimes, at code redemption", "ID tokens expire with the access token")

seed("L01-remove", "L01", "scope/util.go", ('''	list := Split(scopes)
	newList := make([]string, 0)
	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
	return strings.Join(newList, " ")''', '''	return strings.Trim(strings.Replace(" "+scopes+" ", " "+targetScope+" ", " ", -1), " ")'''), '''
	must(scope.Remove("a b b c", "b") == "a c", "%q", scope.Remove("a b b c", "b"))
''', "a word that occurs twice in a row", "an occurrence of a removed scope word remains")

seed("L04-quote", "L04", "oauth_error/errors.go", ('fmt.Sprintf("error_uri=%s", strconv.Quote(e.URI))', 'fmt.Sprintf("error_uri=\\"%s\\"", e.URI)'), '''
	e := oer.NewOAuthError(oer.ErrInvalidToken, "")
	e.URI = `https://e.example/"x`
	h := e.Header("r")
	must(strings.Contains(h, `\\"x"`), "header %s", h)
''', "an error URI with a quote", "an error URI with a quote breaks the challenge")

seed("L07-percent", "L07", "log/logger.go", ('''		msg := l.insertLevelLabel(LogLevelWarn, format)
		fmt.Println(fmt.Sprintf(msg, args...))''', '''		msg := l.insertLevelLabel(LogLevelWarn, fmt.Sprintf(format, args...))
		fmt.Printf(msg + "\\n")'''), '''
	old := os.Stdout
	f, _ := os.CreateTemp("", "demo")
	os.Remove(f.Name())
	os.Stdout = f
	log.NewDefaultLogger().Warnf("%s of the disk is full", "100%")
	os.Stdout = old
	b := make([]byte, 100)
	n, _ := f.ReadAt(b, 0)
	must(strings.Contains(string(b[:n]), "100% of the disk is full"), "printed %q", b[:n])
''', "a formatted warning with a percent sign in an argument", "formatted messages are formatted twice")

seed("T01-query", "T01", TE, ('''		cid = r.PostFormValue("client_id")
		sec = r.PostFormValue("client_secret")''', '''		cid = r.FormValue("client_id")
		sec = r.FormValue("client_secret")'''), '''
	k := newKit(nil)
	k.te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	rec := k.tokenAt("/token?client_id=c1&client_secret=s-c1", "", "grant_type", "client_credentials")
	must(rec.Code != 200, "a secret in the query was accepted")
''', "an endpoint that accepts secrets in header and body, and a secret in the query", "client secrets are taken from the query")

seed("T02-iss", "T02", TE, ('''		if found, ok := claims["sub"].(string); ok {
			cid = found
		} else {''', '''		if found, ok := claims["iss"].(string); ok {
			cid = found
		} else if found, ok := claims["sub"].(string); ok {
			cid = found
		} else {'''), '''
	k := newKit(nil)
	k.te.AcceptClientAssertion(true)
	a := k.claims("c1", map[string]interface{}{"iss": "c2", "sub": "c1", "aud": iss, "exp": t0 + 100, "iat": t0, "jti": "j1"})
	n, m := k.token("", "grant_type", "client_credentials", "client_assertion_type", goidc.ClientAssertionTypeJWT, "client_assertion", a)
	if n == 200 {
		for _, i := range k.w.Infos {
			must(i.Client == "c1", "the assertion's subject is c1, the token is for %s: %v", i.Client, m)
		}
	}
''', "a client assertion whose issuer and subject are different clients", "the client is taken from the assertion's issuer instead of its subject")

seed("T03-implied", "T03", TE, ('''	if !client.CanUseGrantType(gt) {

		te.logger''', '''	// refreshing goes with the grant that gave the token
	if !client.CanUseGrantType(gt) && !(gt == grant.TypeRefreshToken && client.CanUseGrantType(grant.TypeAuthorizationCode)) {

		te.logger'''), '''
	k := newKit(nil)
	code, _ := k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read offline_access", "prompt", "consent")
	_, m := k.token("c1", "grant_type", "authorization_code", "code", code, "redirect_uri", uri)
	rt := str(m, "refresh_token")
	must(rt != "", "no refresh token: %v", m)
	k.w.Clients["c1"].Grants = []string{grant.TypeAuthorizationCode}
	n, m := k.token("c1", "grant_type", "refresh_token", "refresh_token", rt)
	must(n != 200, "refreshed without permission: %v", m)
''', "a client that may use authorization_code but not refresh_token", "a forbidden grant type is served")

seed("T11-early", "T11", "grant/password.go", [('''			scp_req := r.FormValue("scope")
			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {

				logger.Info(log.TokenEndpointLog(TypePassword, log.InvalidScope,
					map[string]string{"scope": scp_req, "client_id": c.GetId()},
					"requested scope is not allowed to this client"))

				return nil, oer.NewOAuthSimpleError(oer.ErrInvalidScope)
			}

			uid, err''', '''			scp_req := r.FormValue("scope")
			uid, err'''), ('''			token, err := sdi.CreateOAuthToken(info, true)
''', '''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {

				logger.Info(log.TokenEndpointLog(TypePassword, log.InvalidScope,
					map[string]string{"scope": scp_req, "client_id": c.GetId()},
					"requested scope is not allowed to this client"))

				return nil, oer.NewOAuthSimpleError(oer.ErrInvalidScope)
			}

			token, err := sdi.CreateOAuthToken(info, true)
''')], '''
	k := newKit(nil)
	k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	n, _ := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read admin")
	must(n != 200, "a forbidden scope was granted")
	for _, i := range k.w.Infos {
		must(i.Scope == "read", "the refused request changed the stored scope to %q", i.Scope)
	}
''', "a password grant refused for its scope, and a look at the stored grant (or a token of an earlier one)", "a refused request widens the stored grant, which earlier tokens then carry")

seed("X03-sub", "X03", "grant/jwt.go", ('''			sub, ok := claims["sub"].(string)
			if !ok {''', '''			sub := claims["sub"].(string)
			if sub == "" {'''), '''
	k := newKit(nil)
	a := k.claims("c1", map[string]interface{}{"iss": "c1", "sub": 7, "aud": iss, "exp": t0 + 100, "iat": t0, "jti": "j1"})
	defer func() { must(recover() == nil, "a numeric subject crashed the endpoint") }()
	n, _ := k.token("c1", "grant_type", grant.TypeJWT, "assertion", a)
	must(n != 200, "accepted")
''', "a correctly signed assertion whose subject is missing or no string", "an assertion without a subject string crashes the endpoint")

seed("X05-cache", "X05", RP, [('''	currentTime           io.TimeBuilder
}''', '''	currentTime           io.TimeBuilder
	grants                sync.Map
}'''), ('	"strings"\n', '	"strings"\n	"sync"\n'), ('''	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())
''', '''	var info bridge.AuthInfo
	if known, found := rp.grants.Load(at.GetAuthId()); found {
		info = known.(bridge.AuthInfo)
	} else {
		info, err = sdi.FindActiveAuthInfoById(at.GetAuthId())
	}
'''), ('''	r.Header.Set("X-OAUTH-USER-ID",''', '''	rp.grants.Store(at.GetAuthId(), info)
	r.Header.Set("X-OAUTH-USER-ID",''')], '''
	k := newKit(nil)
	_, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	tok := str(m, "access_token")
	ok, _, _ := k.resource("/x", tok, nil)
	must(ok, "refused")
	for _, i := range k.w.Infos {
		i.Active = false
	}
	ok, _, _ = k.resource("/x", tok, nil)
	must(!ok, "the token works after the revocation")
''', "an access, then revocation of the grant, then another access with a token of that grant", "access tokens of a revoked grant keep working where they were used before")
