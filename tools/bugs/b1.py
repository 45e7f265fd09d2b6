AE="authorization_endpoint.go"; TE="token_endpoint.go"; RP="resource_protector.go"
AC="grant/authorization_code.go"; RT="grant/refresh_token.go"; JW="grant/jwt.go"; PW="grant/password.go"; CC="grant/client_credential.go"
RS="authorization/response.go"; RQ="authorization/request.go"; ID="id_token/id_token.go"; AS="assertion/error.go"
SC="scope/util.go"; PR="prompt/util.go"; FL="flow/flow.go"; RM="response_mode/util.go"; BA="basic_auth/util.go"; OE="oauth_error/errors.go"

# A01
bug("a01-cache","A01",(AE,'	if !clnt.CanUseRedirectURI(ruri) {\n','	if k := cid + " " + ruri; !a.seen[k] && !clnt.CanUseRedirectURI(ruri) {\n'),
    (AE,"	currentTime io.TimeBuilder\n}","	currentTime io.TimeBuilder\n	seen map[string]bool\n}"),
    (AE,'	state := r.FormValue("state")\n','	if a.seen == nil {\n		a.seen = map[string]bool{}\n	}\n	a.seen[cid+" "+ruri] = true\n	state := r.FormValue("state")\n'))
bug("a01-slash","A01",(AE,'!clnt.CanUseRedirectURI(ruri)','!clnt.CanUseRedirectURI(ruri) && !clnt.CanUseRedirectURI(strings.TrimSuffix(ruri, "/"))'))
bug("a01-query","A01",(AE,'!clnt.CanUseRedirectURI(ruri)','!clnt.CanUseRedirectURI(ruri) && !clnt.CanUseRedirectURI(strings.SplitN(ruri, "?", 2)[0])'))
bug("a01-frag","A01",(AE,'!clnt.CanUseRedirectURI(ruri)','!clnt.CanUseRedirectURI(strings.SplitN(ruri, "#", 2)[0])'))
bug("a01-case","A01",(AE,'!clnt.CanUseRedirectURI(ruri)','!clnt.CanUseRedirectURI(ruri) && !clnt.CanUseRedirectURI(strings.ToLower(ruri))'))
bug("a01-localhost","A01",(AE,'!clnt.CanUseRedirectURI(ruri)','!clnt.CanUseRedirectURI(ruri) && !strings.HasPrefix(ruri, "http://localhost")'))
bug("a01-reason","A01",(AE,'callbacks.ShowErrorScreen(authorization.ErrInvalidRedirectURI)','callbacks.ShowErrorScreen(authorization.ErrMissingRedirectURI)'))
bug("a01-twice","A01",(AE,'				"this method returns (nil, nil)."))\n\n			callbacks.ShowErrorScreen(authorization.ErrServerError)','				"this method returns (nil, nil)."))\n\n			callbacks.ShowErrorScreen(authorization.ErrServerError)\n			callbacks.ShowErrorScreen(authorization.ErrServerError)'))
bug("a01-rtfirst","A01",(AE,'	cid := r.FormValue("client_id")\n','	if r.FormValue("response_type") == "" && r.FormValue("redirect_uri") != "" {\n		authorization.ResponseHandlerForMode("", w, r).Error(r.FormValue("redirect_uri"), "invalid_request", "", r.FormValue("state"))\n		return false\n	}\n	cid := r.FormValue("client_id")\n'))
bug("a01-postonly","A01",(AE,'	ruri := r.FormValue("redirect_uri")\n','	ruri := r.FormValue("redirect_uri")\n	if q := r.URL.Query().Get("redirect_uri"); q != "" && clnt0(a, cid, q) {\n		ruri = r.FormValue("redirect_uri")\n	}\n'),(AE,'','\nfunc clnt0(a *AuthorizationEndpoint, cid, u string) bool { c, e := a.di.FindClientById(cid); return e == nil && c != nil && c.CanUseRedirectURI(u) }\n'))
# A02
bug("a02-longstate","A02",(AE,'	state := r.FormValue("state")\n','	state := r.FormValue("state")\n	if len(state) > 512 {\n		state = state[:512]\n	}\n'))
bug("a02-plus","A02",(RS,'	if state != "" {\n		params.Add("state", state)\n	}\n	u :=','	if state != "" {\n		params.Add("state", strings.Replace(state, "+", " ", -1))\n	}\n	u :='))
bug("a02-formescape","A02",(RS,'k, html.EscapeString(v))','k, strings.Replace(html.EscapeString(v), "&#39;", "\'", -1))'))
bug("a02-formaction","A02",(RS,'html.EscapeString(uri))\n	for','strings.Replace(uri, "\\"", "%22", -1))\n	for'))
bug("a02-doubleesc","A02",(RS,'k, html.EscapeString(v))','k, html.EscapeString(html.UnescapeString(v)))'))
bug("a02-303","A02",(RS,'	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())\n	http.Redirect(h.w, h.r, u, http.StatusFound)','	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())\n	if h.r.Method == "POST" {\n		http.Redirect(h.w, h.r, u, 307)\n		return\n	}\n	http.Redirect(h.w, h.r, u, http.StatusFound)'))
bug("a02-cachehdr","A02",(RS,'	h.w.Header().Set("Cache-Control", "no-cache, no-store")\n','	if h.w.Header().Get("Cache-Control") == "" {\n		h.w.Header().Set("Cache-Control", "no-cache")\n	}\n'))
bug("a02-crlf","A02",(RS,'k, html.EscapeString(v))','k, strings.Replace(html.EscapeString(v), "\\r\\n", "\\n", -1))'))
bug("a02-errfrag","A02",(RS,'		if len(u.Fragment) == 0 {\n			return "#"','		if len(u.Fragment) == 0 && len(u.RawQuery) == 0 {\n			return "#"'))
bug("a02-statezero","A02",(AE,'	if req.State != "" {\n		params["state"] = req.State\n	}\n','	if strings.TrimSpace(req.State) != "" {\n		params["state"] = req.State\n	}\n',1))
bug("a02-hybridstate","A02",(AE,'	if req.State != "" {\n		params["state"] = req.State\n	}\n','	if req.State != "" && req.Flow.RequireAccessToken {\n		params["state"] = req.State\n	}\n',2))
# A03
bug("a03-hybriddef","A03",(AE,'	case flow.Hybrid:\n		defaultRM = a.policy.DefaultImplicitFlowResponseMode','	case flow.Hybrid:\n		defaultRM = a.policy.DefaultAuthorizationCodeFlowResponseMode'))
bug("a03-reqmode","A03",(AE,'		ResponseMode: rmode,','		ResponseMode: modeOr(r.FormValue("response_mode"), rmode),'),(AE,'','\nfunc modeOr(a, b string) string { if response_mode.Validate(a) { return a }; return b }\n'))
bug("a03-cancelmode","A03",(AE,'	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)\n	rh.Error(req.RedirectURI, "access_denied"','	m := req.ResponseMode\n	if m == "form_post" && !req.Flow.RequireIdToken {\n		m = "query"\n	}\n	rh := authorization.ResponseHandlerForMode(m, w, r)\n	rh.Error(req.RedirectURI, "access_denied"'))
bug("a03-seconly","A03",(AE,'	if a.policy.RequireResponseModeSecurityLevelCheck {\n','	if a.policy.RequireResponseModeSecurityLevelCheck && f.Type != flow.Hybrid {\n'))
bug("a03-sticky","A03",(AE,'				rmode = defaultRM\n\n			} else {','				rmode = defaultRM\n				a.policy.RequireResponseModeSecurityLevelCheck = false\n\n			} else {',0))
# A04
bug("a04-minage0","A04",(AE,'if ma < a.policy.MinMaxAge {','if ma != 0 && ma < a.policy.MinMaxAge {'))
bug("a04-noncebytes","A04",(AE,'len(n) > a.policy.MaxNonceLength','len([]rune(n)) > a.policy.MaxNonceLength'))
bug("a04-verbytes","A04",(AE,'len(verifier) > a.policy.MaxCodeVerifierLength','len(strings.TrimSpace(verifier)) > a.policy.MaxCodeVerifierLength'))
bug("a04-noncehyb","A04",(AE,'	if f.Type != flow.AuthorizationCode &&\n','	if f.Type == flow.Implicit &&\n'))
bug("a04-display","A04",(AE,'		if d == authorization.DisplayTypePage ||','		d = strings.ToLower(d)\n		if d == authorization.DisplayTypePage ||'))
bug("a04-scopeflow","A04",(AE,'!clnt.CanUseScope(f.Type, scp)','!clnt.CanUseScope(flow.AuthorizationCode, scp)'))
bug("a04-flowcache","A04",(AE,'	if !clnt.CanUseFlow(f.Type) {\n','	if a.flows == nil {\n		a.flows = map[string]bool{}\n	}\n	fk := cid + f.Type.String()\n	if !a.flows[fk] && clnt.CanUseFlow(f.Type) {\n		a.flows[fk] = true\n	}\n	if !a.flows[fk] {\n'),(AE,"	currentTime io.TimeBuilder\n}","	currentTime io.TimeBuilder\n	flows map[string]bool\n}"))
bug("a04-scopeprompt","A04",(AE,'	if !clnt.CanUseScope(f.Type, scp) {\n','	if !prompt.IncludeNone(prmpt) && !clnt.CanUseScope(f.Type, scp) {\n'))
bug("a04-tokenopenid","A04",(AE,'	if f.RequireIdToken && !scope.IncludeOpenID(scp) {\n','	if f.RequireIdToken && !scope.IncludeOpenID(scp) && f.Type != flow.Hybrid {\n'))
bug("a04-int32","A04",(AE,'	if mas != "" {\n		ma, err = strconv.Atoi(mas)','	if mas != "" {\n		var m64 int64\n		m64, err = strconv.ParseInt(mas, 0, 64)\n		ma = int(m64)'))
bug("a04-emptyscope","A04",(AE,'	if strings.Trim(scp, " ") == "" && !a.policy.AllowEmptyScope {\n','	if r.FormValue("scope") == "" && !a.policy.AllowEmptyScope {\n'))
bug("a04-localefirst","A04",(AE,'	n := r.FormValue("nonce")\n','	if r.FormValue("ui_locales") == "x-none" { callbacks.ChooseLocale("") }\n	n := r.FormValue("nonce")\n'))
# A05
bug("a05-consentperiod","A05",(AE,'					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {\n					return a.completeWithoutInteraction','					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) >= a.currentTime().Unix()-1 {\n					return a.completeWithoutInteraction',2))
bug("a05-hintexpskew","A05",(AE,'!claims.VerifyExpiresAt(jwt.TimeFunc().Unix(), true)','!claims.VerifyExpiresAt(jwt.TimeFunc().Unix()-30, true)'))
bug("a05-unverified","A05",(AE,'			if jwt_err != nil {\n				rh.Error(ruri, "invalid_request", "\'id_token_hint\' is invalid.",','			if ve, ok := jwt_err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorUnverifiable {\n				jwt_err = nil\n				t.Valid = true\n			}\n			if jwt_err != nil {\n				rh.Error(ruri, "invalid_request", "\'id_token_hint\' is invalid.",'))
bug("a05-maxage-nonpos","A05",(AE,'	if maxAge != "" {\n		authTime, err := callbacks.GetAuthTime()','	if maxAge != "" && req.MaxAge > 0 {\n		authTime, err := callbacks.GetAuthTime()'))
bug("a05-loginhintsub","A05",(AE,'			matched, err := callbacks.LoginUserIsMatchedToSubject(sub)','			if req.LoginHint != "" {\n				sub = req.LoginHint\n			}\n			matched, err := callbacks.LoginUserIsMatchedToSubject(sub)'))
bug("a05-nosession","A05",(AE,'			if !isLoginSession {\n				rh.Error(ruri, "login_required", "", state)\n				return false\n			}\n\n			matched','			if !isLoginSession && req.LoginHint == "" {\n				rh.Error(ruri, "login_required", "", state)\n				return false\n			}\n\n			matched'))
bug("a05-algconf","A05",(AE,'				if signer, ok := key.(crypto.Signer); ok {','				if strings.HasPrefix(t.Method.Alg(), "HS") {\n					if s, ok := key.(crypto.Signer); ok {\n						return []byte(fmt.Sprint(s.Public())), nil\n					}\n				}\n				if signer, ok := key.(crypto.Signer); ok {'))
# A06
bug("a06-maxage0","A06",(AE,'	if mas != "" {\n		age :=','	if req.MaxAge != 0 {\n		age :='))
bug("a06-fromloginskip","A06",(AE,'	if mas != "" {\n		age :=','	if mas != "" && !prompt.IncludeLogin(req.Prompt) {\n		age :='))
bug("a06-future","A06",(AE,'		if req.MaxAge < age {\n','		if req.MaxAge < age && age < 86400*365 {\n'))
bug("a06-consentonly","A06",(AE,'	if prompt.IncludeLogin(req.Prompt) {\n','	if prompt.IncludeLogin(req.Prompt) && !prompt.IncludeConsent(req.Prompt) {\n'))
bug("a06-zeroauth","A06",(AE,'		if req.MaxAge < age {\n			a.logger','		if req.MaxAge < age && authTime > 0 {\n			a.logger'))
# A07
bug("a07-nocase","A07",(AE,'if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&\n					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {\n					return a.complete(','if info.IsActive() && scope.Same(strings.ToLower(info.GetScope()), strings.ToLower(req.Scope)) &&\n					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {\n					return a.complete('))
bug("a07-select","A07",(AE,'	if !prompt.IncludeConsent(req.Prompt) {\n		policy','	if !prompt.IncludeConsent(req.Prompt) && !strings.Contains(req.Prompt, "select_account") {\n		policy'))
bug("a07-period","A07",(AE,'int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {\n					return a.complete(','int64(a.policy.ConsentOmissionPeriod) >= a.currentTime().Unix() {\n					return a.complete('))
bug("a07-cacheinfo","A07",(AE,'				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&\n					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {\n					return a.complete(','				if a.ok == nil {\n					a.ok = map[string]int64{}\n				}\n				ck := fmt.Sprint(uid, req.ClientId, req.Scope)\n				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) {\n					if a.ok[ck] == 0 {\n						a.ok[ck] = info.GetAuthorizedAt()\n					}\n				}\n				if a.ok[ck] != 0 && a.ok[ck]+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {\n					return a.complete('),(AE,"	currentTime io.TimeBuilder\n}","	currentTime io.TimeBuilder\n	ok map[string]int64\n}"))
# A08
bug("a08-codeft","A08",(AE,'		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())','		if t.GetAccessTokenExpiresIn() > 0 {\n			params["expires_in"] = fmt.Sprintf("%d", int32(t.GetAccessTokenExpiresIn()))\n		}',1))
bug("a08-verifier","A08",(RQ,'		CodeVerifier: r.CodeVerifier,\n		Nonce:        r.Nonce,\n		AuthTime','		CodeVerifier: verifierFor(r),\n		Nonce:        r.Nonce,\n		AuthTime'),(RQ,'','\nfunc verifierFor(r *Request) string {\n	if r.Flow != nil && r.Flow.Type == flow.Hybrid && r.Flow.RequireAccessToken {\n		return ""\n	}\n	return r.CodeVerifier\n}\n'))
bug("a08-scopeupd","A08",(AE,'a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)','a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, mergeScope(a, uid, req))'),(AE,'','\nfunc mergeScope(a *AuthorizationEndpoint, uid int64, req *authorization.Request) string {\n	i, e := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)\n	if e == nil && i != nil && i.IsActive() && !scope.Same(i.GetScope(), req.Scope) && prompt.IncludeLogin(req.Prompt) {\n		return i.GetScope() + " " + req.Scope\n	}\n	return req.Scope\n}\n'))
bug("a08-authtime","A08",(AE,'		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))','		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), a.currentTime().Unix()))',1))
# A09
bug("a09-hybrid","A09",(AE,'		if f.Type == flow.Implicit ||\n','		if f.Type == flow.Implicit && f.RequireIdToken ||\n'))
bug("a09-selectcons","A09",(AE,'			!prompt.IncludeConsent(prmpt) {\n','			!strings.Contains(p, "con") && !prompt.IncludeLogin(prmpt) {\n'))
bug("a09-onlycheck","A09",(AE,'			scp_for_check := scope.RemoveOpenID(scp)\n','			scp_for_check := strings.TrimPrefix(scp, "openid ")\n'))
bug("a09-tokentype","A09",(AE,'a.di.CreateOAuthToken(info, false)','a.di.CreateOAuthToken(info, scope.IncludeOfflineAccess(req.Scope))',1))
# A10
bug("a10-login","A10",(AE,'	rh.Error(req.RedirectURI, "access_denied", "", req.State)','	if uid, e := callbacks.GetLoginUserId(); e == nil {\n		a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, "")\n	}\n	rh.Error(req.RedirectURI, "access_denied", "", req.State)'))
bug("a10-state","A10",(AE,'"access_denied", "", req.State)','"access_denied", "", strings.TrimSpace(req.State))'))
# A11
bug("a11-html","A11",(RQ,'	data, _ := json.Marshal(r)\n','	c := *r\n	c.LoginHint = strings.Replace(c.LoginHint, "\\u2028", "\\n", -1)\n	data, _ := json.Marshal(&c)\n'))
bug("a11-omit","A11",(RQ,'`json:"max_age"`','`json:"max_age,string,omitempty"`'))
bug("a11-float","A11",(RQ,'	var r Request\n	json.Unmarshal(data, &r)\n','	var r Request\n	json.Unmarshal(data, &r)\n	r.MaxAge = int64(float64(r.MaxAge))\n'))
bug("a11-hint","A11",(RQ,'`json:"id_token_hint"`','`json:"-"`'))
# I01
bug("i01-kid","I01",(ID,'	if keyId != "" {\n','	if keyId != "" && !strings.HasPrefix(alg, "HS") {\n'))
bug("i01-authtime0","I01",(ID,'	if authTime >= 0 {\n','	if authTime > 0 {\n'))
bug("i01-noncesp","I01",(ID,'	if nonce != "" {\n','	if nonce = strings.TrimSpace(nonce); nonce != "" {\n'))
bug("i01-unknownalg","I01 X01",(ID,'		return "", fmt.Errorf("unknown jwt signing algorithm: %s", alg)','		meth = jwt.SigningMethodNone\n		key = jwt.UnsafeAllowNoneSignatureType'))
bug("i01-audclient","I01",(AC,'					info.GetSubject(),\n','					fmt.Sprint(info.GetSubject()),\n'),(AC,'					sess.GetNonce(),','					r.FormValue("nonce")+strings.TrimPrefix(sess.GetNonce(), r.FormValue("nonce")),'))
bug("i01-iat","I01",(AE,'			code,     // code\n			a.currentTime(),','			code,     // code\n			a.currentTime().Truncate(60e9),'))
# I02
bug("i02-atcode","I02",(AE,'			at,       // access_token\n			code,     // code','			code,     // access_token\n			code,     // code'))
bug("i02-noat","I02",(ID,'	cHash, err := Hash(alg, code)\n','	cHash, err := Hash(alg, code)\n	if accessToken != "" && strings.HasSuffix(alg, "512") {\n		atHash = ""\n	}\n'))
