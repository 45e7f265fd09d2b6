AE="authorization_endpoint.go"; TE="token_endpoint.go"; RP="resource_protector.go"
AC="grant/authorization_code.go"; RT="grant/refresh_token.go"; JW="grant/jwt.go"; PW="grant/password.go"; CC="grant/client_credential.go"
RS="authorization/response.go"; RQ="authorization/request.go"; ID="id_token/id_token.go"; AS="assertion/error.go"; GI="grant/interface.go"
SC="scope/util.go"; PR="prompt/util.go"; FL="flow/flow.go"; RM="response_mode/util.go"; BA="basic_auth/util.go"; OE="oauth_error/errors.go"
PK="pkce/crypto.go"; PV="pkce/verifier.go"; LG="log/logger.go"; LT="log/text.go"
TES="	acceptClientAssertion        bool\n"
CONT="	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)\n"
# what the approval request says
bug("a08-decidescope","A08",(AE,CONT,'	if s := r.FormValue("scope"); s != "" {\n		req.Scope = s\n	}\n'+CONT,1))
bug("a08-decidenonce","A08",(AE,CONT,'	if s := r.FormValue("nonce"); s != "" {\n		req.Nonce = s\n	}\n'+CONT,1))
bug("a10-decidestate","A10",(AE,CONT,'	if s := r.FormValue("state"); s != "" {\n		req.State = s\n	}\n'+CONT,0))
bug("a08-decideverifier","A08",(AE,CONT,'	if s := r.FormValue("code_verifier"); s != "" && req.CodeVerifier != "" {\n		req.CodeVerifier = s\n	}\n'+CONT,1))
bug("a08-decideclient","A08",(AE,'	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)\n','	if s := r.FormValue("client_id"); s != "" {\n		req.ClientId = s\n	}\n	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)\n'))
# repeated parameters
bug("a01-duplast","A01",(AE,'	state := r.FormValue("state")\n','	if all := r.Form["redirect_uri"]; len(all) > 1 {\n		ruri = all[len(all)-1]\n	}\n	state := r.FormValue("state")\n'))
bug("a01-dupany","A01",(AE,'	if !clnt.CanUseRedirectURI(ruri) {\n','	okURI := false\n	for _, x := range r.Form["redirect_uri"] {\n		okURI = okURI || clnt.CanUseRedirectURI(x)\n	}\n	if !okURI {\n'))
bug("a01-dupclient","A01",(AE,'	clnt, serr := a.di.FindClientById(cid)\n','	qcid := r.URL.Query().Get("client_id")\n	if qcid == "" {\n		qcid = cid\n	}\n	clnt, serr := a.di.FindClientById(qcid)\n'))
bug("a04-dupscope","A04",(AE,'	if !clnt.CanUseScope(f.Type, scp) {','	if len(r.Form["scope"]) > 1 {\n		if clnt.CanUseScope(f.Type, scp) {\n			scp = strings.Join(r.Form["scope"], " ")\n		}\n	} else if !clnt.CanUseScope(f.Type, scp) {'))
bug("t01-dupcid","T01",(TE,'	if !client.MatchSecret(sec) {','	if q := r.URL.Query().Get("client_id"); q != "" && q != cid && client.MatchSecret(sec) {\n		if other, err := sdi.FindClientById(q); err == nil && other != nil {\n			return other, true\n		}\n	}\n	if !client.MatchSecret(sec) {'))
bug("t04-dupuri","T04",(AC,'			if sess.GetRedirectURI() != uri {\n','			matched := false\n			for _, x := range r.Form["redirect_uri"] {\n				matched = matched || x == sess.GetRedirectURI()\n			}\n			if !matched {\n'))
bug("t06-dupcode","T06",(AC,'			err = sdi.DisableSession(sess)\n','			if all := r.Form["code"]; len(all) > 1 {\n				if s, e := sdi.FindAuthSessionByCode(all[1]); e == nil && s != nil {\n					sess = s\n				}\n			}\n			err = sdi.DisableSession(sess)\n'))
# shared state
bug("t10-global","T10",(TE,'	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))\n','	defaultResponseHeaders["WWW-Authenticate"] = fmt.Sprintf("Basic realm=\\"%s\\"", te.realm)\n'))
bug("x04-pool","X04",(GI,'','\nvar respPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n'),(GI,'	body, err := json.Marshal(r)\n','	b := respPool.Get().(*bytes.Buffer)\n	b.Reset()\n	err := json.NewEncoder(b).Encode(r)\n	respPool.Put(b)\n	body := b.Bytes()\n'))
# session contents
bug("a08-noncetrim","A08",(RQ,'		Nonce:        r.Nonce,','		Nonce:        strings.TrimSpace(r.Nonce),'))
bug("a08-verlower","A08",(RQ,'		CodeVerifier: r.CodeVerifier,','		CodeVerifier: strings.ToLower(r.CodeVerifier),'))
bug("a08-sessexp","A08",(AE,'int64(a.policy.AuthSessionExpiresIn), authTime)','int64(a.policy.IdTokenExpiresIn), authTime)',1))
bug("a08-authtime0","A08",(AE,'		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))','		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), max0(authTime, req.MaxAge)))',0),(AE,'','\nfunc max0(t, m int64) int64 {\n	if m == 0 {\n		return 0\n	}\n	return t\n}\n'))
# screens
bug("a06-hintlost","A06",(AE,'				"\'auth_time\' is over \'max_age\', so, show login page."))\n			err = callbacks.ShowLoginScreen(req)','				"\'auth_time\' is over \'max_age\', so, show login page."))\n			again := *req\n			again.LoginHint = ""\n			err = callbacks.ShowLoginScreen(&again)'))
bug("a06-localelost","A06",(AE,'				"this is non-signed-in-session, so, show login page."))\n\n			err = callbacks.ShowLoginScreen(req)','				"this is non-signed-in-session, so, show login page."))\n\n			if req.LoginHint != "" {\n				req.UILocale = locales\n			}\n			err = callbacks.ShowLoginScreen(req)'))
bug("a06-promptstrip","A06",(AE,'				"force-login is required by \'prompt\'"))\n\n			err = callbacks.ShowLoginScreen(req)','				"force-login is required by \'prompt\'"))\n\n			req.Prompt = strings.TrimSpace(strings.Replace(req.Prompt, "login", "", 1))\n			err = callbacks.ShowLoginScreen(req)'))
bug("a07-mutate","A08",(AE,'	err = callbacks.ShowConsentScreen(clnt, req)\n','	if req.MaxAge > 0 && req.Display == "popup" {\n		req.MaxAge = 0\n		req.State = strings.TrimSpace(req.State)\n	}\n	err = callbacks.ShowConsentScreen(clnt, req)\n'))
bug("a12-loginerr","A12",(AE,'				rh.Error(ruri, "server_error", "", state)\n			}\n			return false\n		}\n	}\n\n	authTime','				rh.Error(ruri, "server_error", "", state)\n			}\n			return err != nil\n		}\n	}\n\n	authTime'))
# numbers
bug("a04-int32","A04",(AE,'		if ma > a.policy.MaxMaxAge {','		if int32(ma) > int32(a.policy.MaxMaxAge) {'))
bug("a06-int32","A06",(AE,'		if req.MaxAge < age {','		if int32(req.MaxAge) < int32(age) {'))
bug("r01-created","R01",(RP,'at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() <','at.GetCreatedAt()+at.GetAccessTokenExpiresIn() <'))
bug("t07-refreshed","T07",(RT,'old.GetRefreshTokenExpiresIn()+old.GetCreatedAt()','old.GetRefreshTokenExpiresIn()+old.GetRefreshedAt()'))
# resource headers
bug("r-scopeheader","R02,R03",(RP,'	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())','	if info.GetScope() != "" {\n		r.Header.Set("X-OAUTH-SCOPE", info.GetScope())\n	}'))
bug("r-clientheader","R02",(RP,'	r.Header.Set("X-OAUTH-CLIENT-ID", info.GetClientId())','	if r.Header.Get("X-OAUTH-CLIENT-ID") != "" {\n		r.Header.Add("X-OAUTH-CLIENT-ID", info.GetClientId())\n	} else {\n		r.Header.Set("X-OAUTH-CLIENT-ID", info.GetClientId())\n	}'))
bug("r03-slash","R03",(RP,'scopeMap[r.URL.Path]; exists {','scopeMap[strings.TrimSuffix(r.URL.Path, "/")]; exists {'))
bug("r03-empty","R03",(RP,'scopeMap[r.URL.Path]; exists {','scopeMap[r.URL.Path]; exists && r.Header.Get("X-OAUTH-SCOPE") != "" {'))
# token endpoint
bug("t09-issaud","T09",(AS,'	if aud != service {','	if aud != service && claims["iss"] != service {'))
bug("t09-audopt","T09",(AS,'	aud, ok := claims["aud"].(string)\n	if !ok {','	aud, ok := claims["aud"].(string)\n	if _, has := claims["aud"]; !has && jti != "" {\n		aud, ok = sdi.Issuer(), true\n	}\n	if !ok {'))
bug("t10-scope1","T10",(AC,'			if scp != "" {\n				res.Scope = scp','			if scp != "" && scp != r.FormValue("scope") {\n				res.Scope = scp'))
bug("t03-lower","T03",(TE,'		h, exists := te.handlers[gt]','		h, exists := te.handlers[strings.ToLower(gt)]'))
bug("t03-later","T03",(TE,'	if !client.CanUseGrantType(gt) {','	if !client.CanUseGrantType(gt) && !(inHeader && gt == grant.TypeRefreshToken && client.CanUseGrantType(grant.TypeAuthorizationCode)) {'))
bug("t01-trimsec","T01",(TE,'	if !client.MatchSecret(sec) {','	if !client.MatchSecret(sec) && !client.MatchSecret(strings.TrimRight(sec, "\\r\\n ")) {'))
bug("t08-jwtuid","T08",(JW,'			info, err := sdi.CreateOrUpdateAuthInfo(uid, c.GetId(), scp_req)\n','			if scp_req == "" {\n				scp_req, _ = claims["scope"].(string)\n			}\n			info, err := sdi.CreateOrUpdateAuthInfo(uid, c.GetId(), scp_req)\n'))
bug("t08-ccowner","T08",(CC,'scp_req := r.FormValue("scope")','scp_req := r.PostFormValue("scope")'))
bug("t11-pwscope","T11,T08",(PW,'			token, err := sdi.CreateOAuthToken(info, true)\n','			if scp_req != "" && info.GetScope() != scp_req {\n				return nil, oer.NewOAuthSimpleError(oer.ErrInvalidScope)\n			}\n			token, err := sdi.CreateOAuthToken(info, true)\n'))
bug("i01-exphuge","I01",(ID,'	exp := now.Unix() + expiresIn\n	iat := now.Unix()\n\n	return rawGen','	exp := now.Add(time.Duration(expiresIn) * time.Second).Unix()\n	if expiresIn > 86400 {\n		exp = now.Unix() + 86400\n	}\n	iat := now.Unix()\n\n	return rawGen'))
bug("i01-audinfo","I01",(ID,'	claims["aud"] = clientId','	claims["aud"] = strings.TrimSpace(clientId)'))
bug("i01-subappend","I01",(ID,'	claims["sub"] = subject','	claims["sub"] = strings.ToLower(subject)'))
bug("i02-hybridat","I02",(ID,'	cHash, err := Hash(alg, code)','	if atHash == "" {\n		atHash, _ = Hash(alg, code)\n	}\n	cHash, err := Hash(alg, code)'))
# codecs
bug("a11-trunc","A11",(RQ,'	data, _ := json.Marshal(r)\n	return','	data, _ := json.Marshal(r)\n	data = bytes.Replace(data, []byte("\\\\u0026"), []byte("&"), -1)\n	return'))
bug("a11-flowptr","A11,X04",(RQ,'	var r Request\n	json.Unmarshal(data, &r)\n	return &r','	r := scratch\n	json.Unmarshal(data, &r)\n	scratch.Flow = r.Flow\n	return &r'),(RQ,'','\nvar scratch Request\n'))
bug("l03-memo","L03",(PK,'	data := sha256.Sum256([]byte(origin))\n','	key := origin\n	if len(key) > 64 {\n		key = key[:64]\n	}\n	if v, ok := memo.Load(key); ok {\n		return v.(string)\n	}\n	data := sha256.Sum256([]byte(origin))\n	memo.Store(key, EncodeBase64WithoutPadding(data[:]))\n'),(PK,'','\nvar memo sync.Map\n'))
