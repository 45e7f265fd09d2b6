AE="authorization_endpoint.go"; TE="token_endpoint.go"; RP="resource_protector.go"
AC="grant/authorization_code.go"; RT="grant/refresh_token.go"; JW="grant/jwt.go"; PW="grant/password.go"; CC="grant/client_credential.go"
RS="authorization/response.go"; RQ="authorization/request.go"; ID="id_token/id_token.go"; AS="assertion/error.go"; GI="grant/interface.go"
SC="scope/util.go"; PR="prompt/util.go"; FL="flow/flow.go"; RM="response_mode/util.go"; BA="basic_auth/util.go"; OE="oauth_error/errors.go"
TES="	currentTime                  io.TimeBuilder\n}"
# T01
bug("t01-mix","T01",(TE,'		sec = r.PostFormValue("client_secret")','		sec = r.FormValue("client_secret")'))
bug("t01-mixid","T01",(TE,'		cid = r.PostFormValue("client_id")','		cid = r.FormValue("client_id")'))
bug("t01-cache","T01",(TE,'	if !client.MatchSecret(sec) {','	if te.seen == nil {\n		te.seen = map[string]bool{}\n	}\n	if m := client.MatchSecret(sec); m {\n		te.seen[cid+":"+sec] = true\n	}\n	if !te.seen[cid+":"+sec] {'),(TE,TES,TES[:-1]+"	seen map[string]bool\n}"))
bug("t01-plus","T01",(BA,'url.QueryUnescape','url.PathUnescape','all'))
bug("t01-header-fallback","T01",(TE,'	cid, sec, exists := basic_auth.FindBasicCredential(r)\n	if exists {','	cid, sec, exists := basic_auth.FindBasicCredential(r)\n	if exists && sec != "" {'))
bug("t01-realm","T01",(TE,'fmt.Sprintf("Basic realm=\\"%s\\"", te.realm)','fmt.Sprintf("Basic realm=%s", te.realm)'))
bug("t01-fromall","T01",(TE,'	clientSecretAcceptanceMethod CredentialAcceptanceMethod\n	accept','	clientSecretAcceptanceMethod CredentialAcceptanceMethod\n	once bool\n	accept'),(TE,'	case FromHeaderAndPostBody:\n','	case FromHeaderAndPostBody:\n		if r.Method == "POST" && strings.Contains(r.Header.Get("Content-Type"), "multipart") {\n			return r.FormValue("client_id"), r.FormValue("client_secret"), false, r.FormValue("client_id") != ""\n		}\n'))
# T02
bug("t02-anykey","T02",(TE,'		key := c.GetAssertionKey(alg, kid)\n','		key := c.GetAssertionKey(alg, kid)\n		if key == nil {\n			key = c.GetAssertionKey(alg, "")\n		}\n'))
bug("t02-keycache","T02",(TE,'		key := c.GetAssertionKey(alg, kid)\n','		if te.keys == nil {\n			te.keys = map[string]interface{}{}\n		}\n		key := te.keys[alg+kid]\n		if key == nil {\n			key = c.GetAssertionKey(alg, kid)\n			te.keys[alg+kid] = key\n		}\n'),(TE,TES,TES[:-1]+"	keys map[string]interface{}\n}"))
bug("t02-type","T02",(TE,'ca != "" && cat == ClientAssertionTypeJWT','ca != "" && (cat == "" || cat == ClientAssertionTypeJWT)'))
bug("t02-type2","T02",(TE,'ca != "" && cat == ClientAssertionTypeJWT','ca != "" && strings.HasSuffix(cat, "jwt-bearer")'))
bug("t02-cid","T02",(TE,'			cid = found\n','			cid = found\n			if o := r.FormValue("client_id"); o != "" {\n				cid = o\n			}\n'))
bug("t02-none","T02",(TE,'		key := c.GetAssertionKey(alg, kid)\n','		key := c.GetAssertionKey(alg, kid)\n		if key == nil && strings.EqualFold(alg, "none") {\n			return jwt.UnsafeAllowNoneSignatureType, nil\n		}\n'))
bug("t02-off","T02",(TE,'	te.acceptClientAssertion = accept\n','	te.acceptClientAssertion = te.acceptClientAssertion || accept\n'))
# T03
bug("t03-trim","T03",(TE,'	gt := r.FormValue("grant_type")','	gt := strings.TrimSpace(r.FormValue("grant_type"))'))
bug("t03-alias","T03",(TE,'	gt := r.FormValue("grant_type")','	gt := r.FormValue("grant_type")\n	if strings.HasSuffix(gt, "grant-type:jwt-bearer") {\n		gt = grant.TypeJWT\n	}'))
bug("t03-cc","T03",(TE,'	if !c.CanUseGrantType(gt) {\n','	if gt != "refresh_token" && !c.CanUseGrantType(gt) {\n'))
bug("t03-cccache","T03",(TE,'	if !c.CanUseGrantType(gt) {\n','	if te.ok == nil {\n		te.ok = map[string]bool{}\n	}\n	if c.CanUseGrantType(gt) {\n		te.ok[c.GetId()+gt] = true\n	}\n	if !te.ok[c.GetId()+gt] {\n'),(TE,TES,TES[:-1]+"	ok map[string]bool\n}"))
# T04
bug("t04-exp1","T04",(AC,'sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix()','sess.GetCreatedAt()+sess.GetExpiresIn() <= requestedTime.Unix()'))
bug("t04-exp0","T04",(AC,'if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix()','if sess.GetExpiresIn() > 0 && sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix()'))
bug("t04-case","T04",(AC,'sess.GetRedirectURI() != uri','!strings.EqualFold(sess.GetRedirectURI(), uri)'))
bug("t04-query","T04",(AC,'sess.GetRedirectURI() != uri','strings.Split(sess.GetRedirectURI(), "?")[0] != strings.Split(uri, "?")[0]'))
bug("t04-client","T04",(AC,'info.GetClientId() != c.GetId()','!strings.EqualFold(info.GetClientId(), c.GetId())'))
bug("t04-active","T04",(AC,'sdi.FindActiveAuthInfoById(sess.GetAuthId())','findInfo(sdi, sess)'),(AC,'','\nfunc findInfo(sdi bridge.DataInterface, s bridge.AuthSession) (bridge.AuthInfo, *bridge.Error) {\n	i, e := sdi.FindActiveAuthInfoById(s.GetAuthId())\n	return i, e\n}\n'))
bug("t04-uriunesc","T04",(AC,'sess.GetRedirectURI() != uri','esc(sess.GetRedirectURI()) != esc(uri)'),(AC,'','\nfunc esc(s string) string { if u, e := url.QueryUnescape(s); e == nil { return u }; return s }\n'))
# T05
bug("t05-trim","T05",(AC,'cv != "" {','strings.TrimSpace(cv) != "" {'))
bug("t05-default","T05",(AC,'				if cm == "" {\n','				if cm == "" && r.FormValue("code_challenge") != "" {\n					cm = "plain"\n				}\n				if cm == "" {\n'))
bug("t05-direct","T05",(AC,'				if !verifier.Verify(cc, cv) {','				if r.FormValue("code_verifier") != cv && !verifier.Verify(cc, cv) {'))
bug("t05-prefix","T05",("pkce/verifier.go",'return ','return len(code_verifier) > 0 && strings.HasPrefix(code_verifier, code_challenge) || ',1))
bug("t05-refresh","T05",(AC,'cm := r.FormValue("code_challenge_method")','cm := strings.TrimSpace(r.FormValue("code_challenge_method"))'))
bug("t05-s256plain","T05",(AC,'				if !verifier.Verify(cc, cv) {','				if !verifier.Verify(cc, cv) && !(cm == "S256" && cc == cv) {'))
# T06
bug("t06-order","T06 X01",(AC,'	err = sdi.DisableSession(sess)\n			if err != nil {\n				if err.Type() == bridge.ErrFailed {','	err = sdi.DisableSession(sess)\n			if err != nil {\n				if err.Type() == bridge.ErrFailed && scope.IncludeOfflineAccess(info.GetScope()) {\n					err = nil\n				} else if err.Type() == bridge.ErrFailed {'))
bug("t06-norefresh","T06",(AC,'err = sdi.DisableSession(sess)','err = nil\n			if token.GetRefreshToken() == "" || !scope.IncludeOpenID(info.GetScope()) {\n				err = sdi.DisableSession(sess)\n			}'))
bug("t06-early","T06 T11",(AC,'			if sess.GetRedirectURI() != uri {\n','			if sess.GetRedirectURI() != uri {\n				sdi.DisableSession(sess)\n'))
# T07
bug("t07-client","T07",(RT,'info.GetClientId() != c.GetId()','!strings.HasPrefix(info.GetClientId(), c.GetId())'))
bug("t07-inclusive","T07",(RT,'old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix()','old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() <= requestedTime.Unix()'))
bug("t07-never","T07",(RT,'if old.GetRefreshTokenExpiresIn()+old','if old.GetRefreshTokenExpiresIn() != 0 && old.GetRefreshTokenExpiresIn()+old'))
bug("t07-scopesub","T07",(RT,'!scope.IncludeOfflineAccess(scp)','!strings.Contains(scp, "offline_access")'))
bug("t07-oldrt","T07",(RT,'			newRt := token.GetRefreshToken()\n','			newRt := token.GetRefreshToken()\n			if newRt != rt {\n				newRt = rt\n			}\n'))
bug("t07-oldexp","T07",(RT,'NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())','NewResponse(token.GetAccessToken(), old.GetAccessTokenExpiresIn())'))
bug("t07-refscope","T07 T11",(RT,'			token, err := sdi.RefreshAccessToken(info, old)\n','			if s := r.FormValue("scope"); s != "" && s != scp {\n				if i2, e2 := sdi.CreateOrUpdateAuthInfo(info.GetUserId(), info.GetClientId(), s); e2 == nil && i2 != nil {\n					info = i2\n				}\n			}\n			token, err := sdi.RefreshAccessToken(info, old)\n'))
# T08
bug("t08-scopeempty","T08",(PW,'c.CanUseScope(flow.DirectGrant','c.CanUseScope(flow.Implicit'))
bug("t08-pwtrim","T08",(PW,'password := r.FormValue("password")','password := strings.TrimSpace(r.FormValue("password"))'))
bug("t08-owner0","T08",(CC,'uid, err := c.GetOwnerUserId()','uid, err := c.GetOwnerUserId()\n			if o := r.FormValue("user_id"); o == "0" {\n				uid = 0\n			}'))
bug("t08-sub","T08",(JW,'sdi.FindUserIdBySubject(sub)','sdi.FindUserIdBySubject(strings.ToLower(sub))'))
bug("t08-iss","T08",(JW,'sub, ok := claims["sub"].(string)\n','sub, ok := claims["sub"].(string)\n			if p, has := claims["prn"].(string); has {\n				sub = p\n			}\n'))
bug("t08-ccrefresh","T08",(CC,'CreateOAuthToken(info, true)','CreateOAuthToken(info, false)'))
# T09
bug("t09-nbf","T09",(AS,'		if ve.Errors&jwt.ValidationErrorNotValidYet == jwt.ValidationErrorNotValidYet {','		if ve.Errors == jwt.ValidationErrorNotValidYet && t.Header["kid"] == nil {'))
bug("t09-jticlient","T09",(AS,'sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)','sdi.RecordAssertionClaims(c.GetId(), strings.ToLower(jti), iat, exp)'))
bug("t09-nojti","T09",(AS,'	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)\n','	var err *bridge.Error\n	if jti != "" {\n		err = sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)\n	}\n'))
bug("t09-iat0","T09",(AS,'	if !iat_exists {\n','	if !iat_exists || iat <= 0 {\n'))
bug("t09-audprefix","T09",(AS,'aud != service','strings.TrimSuffix(aud, "/") != strings.TrimSuffix(service, "/")'))
bug("t09-audtoken","T09",(AS,'aud != service','!strings.HasPrefix(aud, service)'))
bug("t09-recordexp","T09",(AS,'sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)','sdi.RecordAssertionClaims(c.GetId(), jti, iat, minI(exp, jwt.TimeFunc().Unix()+86400*30))'),(AS,'','\nfunc minI(a, b int64) int64 { if a < b { return a }; return b }\n'))
bug("t09-audlist","T09",(AS,'	aud, ok := claims["aud"].(string)\n','	aud, ok := claims["aud"].(string)\n	if l, isl := claims["aud"].([]interface{}); isl && len(l) > 0 {\n		for _, x := range l {\n			if s, _ := x.(string); s != "" {\n				aud, ok = sdi.Issuer(), true\n			}\n		}\n	}\n'))
# T10
bug("t10-head","T10",(TE,'	if r.Method != "POST" {','	if r.Method != "POST" && r.Method != "PUT" {'))
bug("t10-exp","T10",(GI,'omitempty"`\n	Scope','omitempty"`\n	Scope') if False else (GI,'json:"expires_in"','json:"expires_in,string"'))
bug("t10-htmlesc","T10",(OE,'err.URI','err.URI') if False else (TE,'func (te *TokenEndpoint) fail(w http.ResponseWriter, err *oer.OAuthError) {\n	setCommonResponseHeader(w)\n	if err.URI == "" && te.errorURIBuilder != nil {','func (te *TokenEndpoint) fail(w http.ResponseWriter, err *oer.OAuthError) {\n	setCommonResponseHeader(w)\n	if err.URI == "" && err.Description == "" && te.errorURIBuilder != nil {'))
bug("t10-etag","T10",(TE,'	for k, v := range defaultResponseHeaders {\n		w.Header().Set(k, v)','	for k, v := range defaultResponseHeaders {\n		if k == "Pragma" && w.Header().Get("WWW-Authenticate") != "" {\n			continue\n		}\n		w.Header().Set(k, v)'))
# T11
bug("t11-refreshfirst","T11 T07",(RT,'			scp := info.GetScope()\n			if !scope.IncludeOfflineAccess(scp) {\n','			scp := info.GetScope()\n			if !scope.IncludeOfflineAccess(scp) {\n				sdi.RefreshAccessToken(info, old)\n'))
bug("t11-pkce","T11 T05",(AC,'				if !verifier.Verify(cc, cv) {\n','				if !verifier.Verify(cc, cv) {\n					sdi.DisableSession(sess)\n'))
bug("t11-pkce2","T11",(AC,'			sess, err := sdi.FindAuthSessionByCode(code)\n','			sess, err := sdi.FindAuthSessionByCode(code)\n			if err == nil && sess != nil && len(r.FormValue("code_challenge")) > 256 {\n				sdi.DisableSession(sess)\n			}\n'))
# R
bug("r01-skew","R01",(RP,'at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix()','at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix()-1'))
bug("r01-zero","R01",(RP,'if at.GetRefreshedAt()+','if at.GetAccessTokenExpiresIn() != 0 && at.GetRefreshedAt()+'))
bug("r01-i32","R01",(RP,'if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() <','if at.GetRefreshedAt()+int64(int32(at.GetAccessTokenExpiresIn())) <'))
bug("r01-trim","R01",(RP,'FindOAuthTokenByAccessToken(rt)','FindOAuthTokenByAccessToken(strings.TrimRight(rt, ",;\\""))'))
bug("r01-realm","R01",(RP,'err.Header(rp.realm)','strings.TrimSpace(err.Header(rp.realm))'))
bug("r01-chal","R01",(RP,'			w.WriteHeader(http.StatusInternalServerError)\n			return false\n		}\n	} else {\n		if at == nil {','			w.WriteHeader(http.StatusInternalServerError)\n			return err.Type() == bridge.ErrServerError && r.Method == "HEAD"\n		}\n	} else {\n		if at == nil {'))
bug("r02-add","R02",(RP,'r.Header.Set("X-OAUTH-USER-ID"','r.Header.Add("X-OAUTH-USER-ID"'))
bug("r02-zero","R02",(RP,'	r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", info.GetUserId()))','	if info.GetUserId() != 0 {\n		r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", info.GetUserId()))\n	}'))
bug("r02-map","R02",(RP,'	r.Header.Set("X-OAUTH-CLIENT-ID", info.GetClientId())','	r.Header["X-OAUTH-CLIENT-ID"] = []string{info.GetClientId()}'))
bug("r02-scopetrim","R02",(RP,'r.Header.Set("X-OAUTH-SCOPE", info.GetScope())','r.Header.Set("X-OAUTH-SCOPE", strings.Join(strings.Fields(info.GetScope()), " "))'))
bug("r03-path","R03",(RP,'scopeMap[r.URL.Path]','scopeMap[strings.TrimSuffix(r.URL.Path, "/")]'))
bug("r03-rawpath","R03",(RP,'scopeMap[r.URL.Path]','scopeMap[r.URL.EscapedPath()]'))
bug("r03-first","R03",(RP,'scope.IncludeAll(s, scopes)','scope.IncludeAll(s, scopes[:minn(len(scopes), 2)])'),(RP,'','\nfunc minn(a, b int) int { if a < b { return a }; return b }\n'))
bug("r03-read","R03",(RP,'	if scopes, exists := scopeMap[r.URL.Path]; exists {','	if scopes, exists := scopeMap[r.URL.Path]; exists && r.Method != "OPTIONS" {'))
bug("r04-scheme","R04",(RP,'strings.ToLower(parts[0]) == "bearer"','(parts[0] == "bearer" || parts[0] == "Bearer" || parts[0] == "BEARER")'))
bug("r04-token","R04",(RP,'strings.ToLower(parts[0]) == "bearer"','(strings.ToLower(parts[0]) == "bearer" || strings.ToLower(parts[0]) == "token")'))
bug("r04-lower","R04",(RP,'		return r.PostFormValue("access_token")','		return r.FormValue("access_token")'))
bug("r04-get","R04",(RP,'	case FromHeaderAndPostBody:\n','	case FromHeaderAndPostBody:\n		if r.Method == "GET" {\n			return r.FormValue("access_token")\n		}\n'))
bug("r04-xhdr","R04",(RP,'	switch rp.tokenAcceptanceMethod {','	if t := r.Header.Get("X-Access-Token"); t != "" {\n		return t\n	}\n	switch rp.tokenAcceptanceMethod {'))
bug("r04-cookie","R04",(RP,'	switch rp.tokenAcceptanceMethod {','	if t, e := r.Cookie("access_token"); e == nil {\n		return t.Value\n	}\n	switch rp.tokenAcceptanceMethod {'))
# X05
bug("x05-global","X05 R01",(RP,'	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())\n','	info, err := sdi.FindActiveAuthInfoById(at.GetAuthId())\n	if err == nil && info != nil {\n		if rp.last == nil {\n			rp.last = map[string]bridge.AuthInfo{}\n		}\n		if len(rp.last) < 3 {\n			rp.last[rt] = info\n		}\n	} else if i := rp.last[rt]; i != nil {\n		info, err = i, nil\n	}\n'),(RP,"	currentTime           io.TimeBuilder\n}","	currentTime           io.TimeBuilder\n	last map[string]bridge.AuthInfo\n}"))
