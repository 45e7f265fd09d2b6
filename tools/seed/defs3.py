seed("A12-code", "A12", AE, ('''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr''', '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return serr.Type() == bridge.ErrFailed
	}

	clnt, serr'''), '''
	k := newKit(nil)
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code id_token", "scope", "openid read", "nonce", "n")
	must(len(cb.Consents) == 1, "no consent screen")
	k.w.Arm([]world.Fault{{Method: "CreateAuthSession", Kind: "failed"}})
	r, _ := http.NewRequest("POST", "http://op.example/approve", nil)
	rec := world.NewRec()
	ok := k.ae.CompleteRequest(rec, r, cb)
	must(params(rec, uri).Get("error") != "", "no error delivered")
	must(!ok, "the host is told that the request was completed")
''', "a store that refuses the session of a hybrid request", "the host is told that a refused request was served")

seed("L02-first", "L02", "flow/flow.go", ('	list := strings.Split(responseType, " ")\n', '	list := strings.Split(responseType, " ")\n	if len(list) > 3 {\n		// longer than any known combination\n		list = list[:3]\n	}\n'), '''
	f, err := flow.JudgeByResponseType("code id_token token none")
	must(err != nil, "taken for %v", f)
''', "four words, the first three of which are a known combination", "unknown response types are accepted")

seed("L03-long", "L03", "pkce/crypto.go", ('	data := sha256.Sum256([]byte(origin))', '	limit := len(origin)\n	if limit > 128 {\n		// the longest verifier RFC 7636 knows\n		limit = 128\n	}\n	data := sha256.Sum256([]byte(origin[:limit]))'), '''
	a := strings.Repeat("v", 128)
	must(pkce.S256Encode(a+"x") != pkce.S256Encode(a+"y"), "two verifiers have one challenge")
''', "verifiers of more than 128 characters with a common start", "S256 ignores the end of long verifiers")

seed("L05-url", "L05", "basic_auth/util.go", ('	return base64.StdEncoding.EncodeToString([]byte(pair))', '	return base64.URLEncoding.EncodeToString([]byte(pair))'), '''
	r, _ := http.NewRequest("POST", "http://op.example/token", nil)
	r.Header.Set("Authorization", basic_auth.Header("a", "o~~~?"))
	_, sec, ok := basic_auth.FindBasicCredential(r)
	must(ok && sec == "o~~~?", "recovered %q", sec)
''', "credentials whose base64 form has a + or /", "some credentials are not recovered from the header")

seed("R04-get", "R04", RP, ('		return r.PostFormValue("access_token")', '		if v := r.PostFormValue("access_token"); v != "" {\n			return v\n		}\n		if r.Method == "GET" || r.Method == "HEAD" {\n			// no body to look into\n			return ""\n		}\n		return r.FormValue("access_token")'), '''
	k := newKit(nil)
	n, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	must(n == 200, "%v", m)
	k.rp.AcceptAccessToken(goidc.FromHeaderAndPostBody)
	r, _ := http.NewRequest("POST", "http://api.example/x?access_token="+str(m, "access_token"), strings.NewReader(""))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	must(!k.rp.Validate(world.NewRec(), r, world.DI{World: k.w}), "a token in the query of a POST request was accepted")
''', "a POST request with the token in its query at a protector that takes header and body", "access tokens are taken from the query")

seed("L08-secret", "L08", TE, ('''				"client_id":       cid,
				"remote_addr":     r.Header.Get("REMOTE_ADDR"),''', '''				"client_id":       cid,
				"credential":      r.Header.Get("Authorization"),
				"remote_addr":     r.Header.Get("REMOTE_ADDR"),'''), '''
	k := newKit(nil)
	lg := &lines{}
	k.te.SetLogger(lg)
	r, _ := http.NewRequest("POST", "http://op.example/token", strings.NewReader("grant_type=client_credentials"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r.SetBasicAuth("c1", "s-c1-almost-right")
	k.te.Handler(world.DI{World: k.w})(world.NewRec(), r)
	must(!strings.Contains(strings.Join(*lg, "\\n"), r.Header.Get("Authorization")[6:]), "the credential is in the log: %v", *lg)
}

type lines []string

func (l *lines) add(a ...interface{})            { *l = append(*l, fmt.Sprint(a...)) }
func (l *lines) Debug(a ...interface{})          { l.add(a...) }
func (l *lines) Info(a ...interface{})           { l.add(a...) }
func (l *lines) Warn(a ...interface{})           { l.add(a...) }
func (l *lines) Error(a ...interface{})          { l.add(a...) }
func (l *lines) Fatal(a ...interface{})          { l.add(a...) }
func (l *lines) Debugf(f string, a ...interface{}) { l.add(fmt.Sprintf(f, a...)) }
func (l *lines) Infof(f string, a ...interface{})  { l.add(fmt.Sprintf(f, a...)) }
func (l *lines) Warnf(f string, a ...interface{})  { l.add(fmt.Sprintf(f, a...)) }
func (l *lines) Errorf(f string, a ...interface{}) { l.add(fmt.Sprintf(f, a...)) }
func (l *lines) Fatalf(f string, a ...interface{}) { l.add(fmt.Sprintf(f, a...))
''', "a wrong secret in a Basic header", "presented credentials are written to the log")

seed("T05-swapped", "T05", "pkce/verifier.go", ('	return S256Encode(verifier) == challenge\n', '	return S256Encode(verifier) == challenge || S256Encode(challenge) == verifier\n'), '''
	k := newKit(nil)
	ver := pkce.S256Encode("known")
	code, _ := k.code(1, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "read", "code_verifier", ver)
	n, m := k.token("c1", "grant_type", "authorization_code", "code", code, "redirect_uri", uri, "code_challenge_method", "S256", "code_challenge", "known")
	must(n != 200, "redeemed: %v", m)
''', "a registered verifier that is itself the transformation of the presented challenge", "S256 is accepted the wrong way round")

seed("X01-stale", "X01", RP, [('	currentTime           io.TimeBuilder\n}', '	currentTime           io.TimeBuilder\n	infos                 sync.Map\n}'), ('''			w.WriteHeader(http.StatusInternalServerError)
			return false
		}
	} else {
		if info == nil {''', '''			if last, ok := rp.infos.Load(at.GetAuthId()); ok {
				// the store will be back soon
				info = last.(bridge.AuthInfo)
			} else {
				w.WriteHeader(http.StatusInternalServerError)
				return false
			}
		}
	} else {
		rp.infos.Store(at.GetAuthId(), info)
		if info == nil {'''), ('	"strings"\n', '	"strings"\n	"sync"\n')], '''
	k := newKit(nil)
	n, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	must(n == 200, "%v", m)
	ok, _, _ := k.resource("/x", str(m, "access_token"), nil)
	must(ok, "refused")
	k.w.Arm([]world.Fault{{Method: "FindActiveAuthInfoById", Kind: "server"}})
	ok, _, _ = k.resource("/x", str(m, "access_token"), nil)
	must(!ok, "allowed although the grant could not be looked up")
''', "a store failure on a token that was used before", "access is allowed while the grant cannot be looked up")

seed("X03-aud", "X03", "assertion/error.go", ('	aud, ok := claims["aud"].(string)\n', '	aud, ok := claims["aud"].(string)\n	if list, isList := claims["aud"].([]interface{}); isList {\n		// RFC 7519 allows a list\n		aud, ok = list[0].(string)\n	}\n'), '''
	k := newKit(nil)
	a := k.claims("c1", map[string]interface{}{"iss": "c1", "sub": "sub1", "aud": []string{}, "exp": t0 + 100, "jti": "j1"})
	defer func() { must(recover() == nil, "an empty audience list crashed the endpoint") }()
	n, _ := k.token("c1", "grant_type", grant.TypeJWT, "assertion", a)
	must(n != 200, "accepted")
''', "a correctly signed assertion with an empty list as audience", "an assertion with an empty audience list crashes the endpoint")

seed("X04-client", "X04", TE, [('	acceptClientAssertion        bool\n', '	acceptClientAssertion        bool\n	client                       bridge.Client\n'), ("""	if !client.CanUseGrantType(gt) {

		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
			map[string]string{"client_id": cid}, "unauthorized 'grant_type'."))
""", """	te.client = client
	if !client.CanUseGrantType(gt) {

		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
			map[string]string{"client_id": cid}, "unauthorized 'grant_type'."))
"""), ("""	return client, true
}
""", """	return te.client, true
}
""")], '''
	k := newKit(nil)
	entered := false
	k.w.Gate = func(m string) {
		if m == "CanUseGrantType" && !entered {
			entered = true
			k.token("c2", "grant_type", "password", "username", "u2", "password", "p2", "scope", "read")
		}
	}
	n, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	must(n == 200, "%v", m)
	ok, r, _ := k.resource("/x", str(m, "access_token"), nil)
	must(ok && r.Header.Get("X-OAUTH-CLIENT-ID") == "c1", "the token of c1 is one of %q", r.Header.Get("X-OAUTH-CLIENT-ID"))
''', "a request of another client served while the first one's permission is being looked up", "one client gets tokens in another's name")
