AE="authorization_endpoint.go"; TE="token_endpoint.go"; RP="resource_protector.go"
AC="grant/authorization_code.go"; RT="grant/refresh_token.go"; JW="grant/jwt.go"; PW="grant/password.go"; CC="grant/client_credential.go"
RS="authorization/response.go"; RQ="authorization/request.go"; ID="id_token/id_token.go"; AS="assertion/error.go"
SC="scope/util.go"; PR="prompt/util.go"; FL="flow/flow.go"; RM="response_mode/util.go"; BA="basic_auth/util.go"; OE="oauth_error/errors.go"
PK="pkce/crypto.go"; PV="pkce/verifier.go"; LG="log/logger.go"; LT="log/text.go"
TES="	acceptClientAssertion        bool\n"
# X01: failures at the token endpoint / resources
bug("x01-retry","X01",(AC,'			err = sdi.DisableSession(sess)\n			if err != nil {','			err = sdi.DisableSession(sess)\n			if err != nil && err.Type() == bridge.ErrServerError {\n				err = sdi.DisableSession(sess)\n			}\n			if err != nil {'))
bug("x01-disunsup","X01,T06",(AC,'			err = sdi.DisableSession(sess)\n			if err != nil {','			err = sdi.DisableSession(sess)\n			if err != nil && err.Type() == bridge.ErrUnsupported {\n				err = nil\n			}\n			if err != nil {'))
bug("x01-refvalue","X01",(RT,'			token, err := sdi.RefreshAccessToken(info, old)\n			if err != nil {','			token, err := sdi.RefreshAccessToken(info, old)\n			if token != nil {\n				err = nil\n			}\n			if err != nil {'))
bug("x01-oldtoken","X01",(RT,'			} else {\n				if token == nil {','			} else {\n				if token == nil {\n					token = old\n				}\n				if token == nil {'))
bug("x01-infocache","X01,X05,R01",(RP,'	currentTime           io.TimeBuilder\n}','	currentTime           io.TimeBuilder\n	infos                 map[int64]bridge.AuthInfo\n}'),
   (RP,'	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())\n','	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())\n	if rp.infos == nil {\n		rp.infos = map[int64]bridge.AuthInfo{}\n	}\n	if err == nil {\n		rp.infos[at.GetAuthId()] = info\n	} else if err.Type() == bridge.ErrServerError && rp.infos[at.GetAuthId()] != nil {\n		info, err = rp.infos[at.GetAuthId()], nil\n	}\n'))
bug("x01-lockout","X01,T11",(TE,TES,TES+"	down bool\n"),(TE,'	client, err := sdi.FindClientById(cid)\n','	client, err := sdi.FindClientById(cid)\n	if err != nil && err.Type() == bridge.ErrServerError {\n		te.down = true\n	}\n	if te.down {\n		te.fail(w, oer.NewOAuthSimpleError(oer.ErrServerError))\n		return nil, false\n	}\n'))
bug("x01-status","X01,T10",(TE,'		if err.Type() == bridge.ErrFailed {\n\n			te.logger.Debug(log.TokenEndpointLog(gt, log.NoEnabledClient','		if err.Type() != bridge.ErrUnsupported {\n\n			te.logger.Debug(log.TokenEndpointLog(gt, log.NoEnabledClient'))
bug("x01-pwuid","X01,T08",(PW,'if err.Type() == bridge.ErrUnsupported {','if err.Type() == bridge.ErrUnsupported && false {',0))
# X02
bug("x02-consentswallow","X02",(AE,'	err = callbacks.ShowConsentScreen(clnt, req)\n	if err != nil {','	err = callbacks.ShowConsentScreen(clnt, req)\n	if err != nil && err.Error() != "" && r.Method == "HEAD" {'))
bug("x02-authtime0","X02,A06",(AE,'	authTime, err := callbacks.GetAuthTime()\n	if err != nil {','	authTime, err := callbacks.GetAuthTime()\n	if err != nil {\n		authTime, err = a.currentTime().Unix(), nil\n	}\n	if err != nil {',0))
bug("x02-tokenorder","X02,A08",(AE,'	if req.Flow.RequireAccessToken {','	if req.Flow.RequireAccessToken && r.Form.Get("x") == "" {',0))
# X03
bug("x03-authz","X03,R04",(RP,'len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != ""','strings.ToLower(parts[0]) == "bearer" && parts[1] != ""'))
bug("x03-aud","X03",(AS,'	aud, ok := claims["aud"].(string)\n','	aud, ok := claims["aud"].(string)\n	if l, isList := claims["aud"].([]interface{}); isList {\n		aud, ok = l[0].(string)\n	}\n'))
bug("x03-basic","X03,L05",(BA,'	if u, err := url.QueryUnescape(s); err == nil {\n		return u\n	}\n	return s','	u, err := url.QueryUnescape(s)\n	if err != nil {\n		panic(err)\n	}\n	return u'))
# X04
bug("x04-handlerstate","X04,T10",(TE,'	handlers                     map[string]grant.GrantHandlerFunc\n','	handlers                     map[string]grant.GrantHandlerFunc\n	cur bridge.Client\n'),
   (TE,'	res, oerr := h(r, client, sdi','	te.cur = client\n	now := te.currentTime()\n	_ = now\n	res, oerr := h(r, te.cur, sdi'))
bug("x04-resbuf","X04",(RP,'	currentTime           io.TimeBuilder\n}','	currentTime           io.TimeBuilder\n	token string\n}'),
   (RP,'	rt := rp.findTokenFromRequest(r)\n','	rp.token = rp.findTokenFromRequest(r)\n	rt := rp.token\n'),(RP,'	at, err := sdi.FindOAuthTokenByAccessToken(rt)\n','	at, err := sdi.FindOAuthTokenByAccessToken(rt)\n	rt = rp.token\n	if at != nil && at.GetAccessToken() != rt {\n		at, err = sdi.FindOAuthTokenByAccessToken(rt)\n	}\n'))
bug("x04-policy","X04,A03",(AE,'	currentTime io.TimeBuilder\n}','	currentTime io.TimeBuilder\n	mode string\n}'),(AE,'	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)\n	uid, err','	a.mode = req.ResponseMode\n	uid0, _ := callbacks.GetLoginUserId()\n	_ = uid0\n	rh := authorization.ResponseHandlerForMode(a.mode, w, r)\n	uid, err'))
bug("x04-map","X04",(TE,TES,TES+"	hits map[string]int\n"),(TE,'		gt := r.FormValue("grant_type")\n','		gt := r.FormValue("grant_type")\n		if te.hits == nil {\n			te.hits = map[string]int{}\n		}\n		te.hits[gt]++\n'))
# X05
bug("x05-clientcache","X05,R02",(RP,'	currentTime           io.TimeBuilder\n}','	currentTime           io.TimeBuilder\n	owner map[int64]int64\n}'),
   (RP,'	r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", info.GetUserId()))','	if rp.owner == nil {\n		rp.owner = map[int64]int64{}\n	}\n	if _, ok := rp.owner[int64(len(info.GetClientId()))]; !ok {\n		rp.owner[int64(len(info.GetClientId()))] = info.GetUserId()\n	}\n	r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", rp.owner[int64(len(info.GetClientId()))]))'))
bug("x05-refreshrevoked","X05,T07",(RT,'			info, err := sdi.FindActiveAuthInfoById(old.GetAuthId())\n			if err != nil {\n','			info, err := sdi.FindActiveAuthInfoById(old.GetAuthId())\n			if err != nil && err.Type() == bridge.ErrFailed && old.GetRefreshedAt() == requestedTime.Unix() {\n				if i, e := sdi.FindAuthInfoByUserIdAndClientId(0, c.GetId()); e == nil {\n					info, err = i, nil\n				}\n			}\n			if err != nil {\n'))
# L01
bug("l01-dup","L01",(SC,'	return Sort(scope1) == Sort(scope2)','	return len(Split(scope1)) == len(Split(scope2)) && func() bool { ok, _ := IncludeAll(scope1, Split(scope2)); return ok }()'))
bug("l01-fold","L01",(SC,'		if s == targetScope {','		if strings.EqualFold(s, targetScope) {'))
bug("l01-prompt4","L01",(PR,'		case SelectAccount:\n			hasOther = true','		case SelectAccount:'))
bug("l01-includeall","L01",(PR,'		if _, exists := existanceMap[p]; !exists {\n			return false, p','		if _, exists := existanceMap[p]; !exists && len(list) < 4 {\n			return false, p'))
# L02
bug("l02-none","L02",(FL,'	case "none":\n		return nil, fmt.Errorf("unsupported response type: %s", responseType)','	case "none", "id_token none", "none token":\n		return &Flow{Implicit, false, false}, nil'))
bug("l02-three","L02",(FL,'	list := strings.Split(responseType, " ")\n','	list := strings.Split(responseType, " ")\n	if len(list) > 3 {\n		list = list[:3]\n	}\n'))
bug("l02-trim","L02",(FL,'	list := strings.Split(responseType, " ")\n','	list := strings.Fields(strings.ToLower(responseType))\n'))
bug("l02-level","L02,A03",(RM,'	case FormPost:\n		return 2','	case FormPost:\n		return 1'))
bug("l02-json","L02,A11",(FL,'	case `"direct_grant"`:\n		*ft = DirectGrant','	case `"direct_grant"`:\n		*ft = Hybrid'))
# L03
bug("l03-short","L03",(PK,'	var data [32]byte\n	if _, err := rand.Read(data[:]); err','	var data [32]byte\n	if _, err := rand.Read(data[:24]); err'))
bug("l03-mask","L03",(PK,'	return EncodeBase64WithoutPadding(data[:])\n}\n\nfunc EncodeBase64','	for i := range data {\n		data[i] &= 0x7f\n	}\n	return EncodeBase64WithoutPadding(data[:])\n}\n\nfunc EncodeBase64'))
bug("l03-dup","L03",(PK,'	return EncodeBase64WithoutPadding(data[:])\n}\n\nfunc EncodeBase64','	copy(data[16:], data[:16])\n	return EncodeBase64WithoutPadding(data[:])\n}\n\nfunc EncodeBase64'))
bug("l03-pad","L03",(PK,'	parts := strings.Split(encoded, "=")\n	encoded = parts[0]','	encoded = strings.TrimSuffix(encoded, "=")'))
bug("l03-plain","L03,T05",(PV,'	return challenge == verifier\n','	return challenge == verifier || challenge == verifier+"="\n'))
bug("l03-s256","L03,T05",(PV,'	return S256Encode(verifier) == challenge\n','	return S256Encode(verifier) == challenge || S256Encode(challenge) == verifier\n'))
# L04
bug("l04-ctl","L04",(OE,'strconv.Quote(e.Description)','"\\"" + e.Description + "\\""'))
bug("l04-status","L04",(OE,'	if exists {\n		return code','	if exists && e.URI == "" {\n		return code'))
bug("l04-statequery","L04",(OE,'		State:       state,\n','		State:       strings.TrimSpace(state),\n'))
bug("l04-realmempty","L04",(OE,'	if realm != "" {','	if len(realm) > 1 {'))
bug("l04-html","L04",(OE,'		Description: e.Description,\n		URI:         e.URI,\n	}\n	body','		Description: strings.Replace(e.Description, "<", "&lt;", -1),\n		URI:         e.URI,\n	}\n	body'))
# L05
bug("l05-colon","L05,T01",(BA,'	pair := url.QueryEscape(uid) + ":"','	pair := strings.Replace(uid, "%", "%25", -1) + ":"'))
bug("l05-path","L05,T01",(BA,'	if u, err := url.QueryUnescape(s); err == nil','	if u, err := url.PathUnescape(s); err == nil'))
bug("l05-url","L05",(BA,'base64.StdEncoding.EncodeToString([]byte(pair))','base64.URLEncoding.EncodeToString([]byte(pair))'))
bug("l05-double","L05,T01",(BA,'	return unescape(cid), unescape(sec), true\n','	return unescape(cid), unescape(unescape(sec)), true\n'))
# L07
bug("l07-level","L07",(LG,'	if defaultLoggerLevel <= LogLevelWarn {\n		msg := l.insertLevelLabel(LogLevelWarn, format)','	if defaultLoggerLevel < LogLevelWarn {\n		msg := l.insertLevelLabel(LogLevelWarn, format)'))
bug("l07-global","L07",(LG,'	color := l.colorMap[level]','	color := l.colorMap[level]\n	if level == LogLevelFatal {\n		defaultLoggerLevel = LogLevelDebug\n	}'))
bug("l07-event","L07",(LT,'		return "no_enabled_user_id"','		return "no_enabled_user"'))
bug("l07-attr","L07",(LT,'	attributes, _ := json.Marshal(params)','	if len(params) == 0 {\n		params = nil\n	}\n	attributes, _ := json.Marshal(params)'))
# second order A
bug("a12-cancel","A12",(AE,'	rh.Error(req.RedirectURI, "access_denied", "", req.State)\n	return true','	rh.Error(req.RedirectURI, "access_denied", "", req.State)\n	return false'))
bug("a12-screen","A12",(AE,'		callbacks.ShowErrorScreen(authorization.ErrMissingRedirectURI)\n		return false','		callbacks.ShowErrorScreen(authorization.ErrMissingRedirectURI)\n		return true'))
bug("a12-sign","A12",(AE,'		if err != nil {\n			rh.Error(req.RedirectURI, "server_error", "", req.State)\n			return false\n		}\n		params["id_token"] = idt','		if err != nil {\n			rh.Error(req.RedirectURI, "server_error", "", req.State)\n			return true\n		}\n		params["id_token"] = idt',1))
bug("a08-display","A08",(RQ,'','\nfunc init() {}\n'))
bug("a01-samehost","A01",(AE,'!clnt.CanUseRedirectURI(ruri)','!clnt.CanUseRedirectURI(strings.TrimRight(ruri, "."))'))
bug("a10-hybridcode","A10,A02",(AE,'	rh.Error(req.RedirectURI, "access_denied", "", req.State)','	m := req.ResponseMode\n	if m == "form_post" && req.State == "" {\n		rh = authorization.ResponseHandlerForMode("fragment", w, r)\n	}\n	rh.Error(req.RedirectURI, "access_denied", "", req.State)'))
bug("a04-display0","A04",(AE,'	d := r.FormValue("display")\n','	d := strings.ToLower(r.FormValue("display"))\n'))
bug("a04-promptdup","A04,A05",(PR,'	if hasNone && hasOther {','	if hasNone && hasOther && len(list) < 3 {'))
bug("a06-auth0","A06",(AE,'prompt.IncludeLogin(req.Prompt)','req.Prompt == prompt.Login'))
bug("a07-periodzero","A05",(AE,'info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()','info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) >= a.currentTime().Unix()',0))
bug("i01-expauth","I01",(ID,'','\nvar _ = 0\n'))

bug("a07-periodzero3","A07",(AE,'info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()','info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) >= a.currentTime().Unix()',3))
bug("a05-periodzero1","A05",(AE,'info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()','info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) >= a.currentTime().Unix()',1))
