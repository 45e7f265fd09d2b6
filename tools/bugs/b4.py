exec(open('/verif/tools/bugs/b3.py').read().split("# X01:")[0])
bug("t01-header-fallback","T01",(TE,'	cid, sec, exists := basic_auth.FindBasicCredential(r)\n	if exists {','	cid, sec, exists := basic_auth.FindBasicCredential(r)\n	if exists && sec != "" {'))
bug("t05-prefix","T05",(PV,'	return challenge == verifier','	return len(challenge) > 0 && strings.HasPrefix(verifier, challenge)'))
bug("t05-prefix2","T05",(PV,'	return S256Encode(verifier) == challenge','	return len(challenge) > 30 && strings.HasPrefix(S256Encode(verifier), challenge)'))
bug("t07-scopesub","T07",(RT,'scope.IncludeOfflineAccess(','strings.Contains("offline_access", ',0))
bug("i01-unknownalg","I01,X01",(ID,'	meth := jwt.GetSigningMethod(alg)\n	if meth == nil {','	meth := jwt.GetSigningMethod(alg)\n	if meth == nil && alg == "" {\n		meth = jwt.SigningMethodNone\n		key = jwt.UnsafeAllowNoneSignatureType\n	}\n	if meth == nil {'))
bug("t08-owner0","T08",(CC,'GetOwnerUserId()','GetOwnerUserId() // x',0))
bug("i01-authneg","I01",(ID,'	if authTime >= 0 {','	if authTime > 0 {'))
bug("i01-kidempty","I01",(ID,'	if keyId != "" {','	if keyId != "" && alg != "HS256" {'))
bug("i01-noncespace","I01",(ID,'	if nonce != "" {','	nonce = strings.TrimSpace(nonce)\n	if nonce != "" {'))
bug("i02-hashalg","I02",(ID,'	cHash, err := Hash(alg, code)','	cHash, err := Hash(strings.Replace(alg, "ES", "RS", 1), strings.TrimSpace(code))'))
bug("t09-issempty","T09",("assertion/error.go",'	if aud != service {','	if aud != service && strings.TrimSuffix(aud, "/") != service {'))
bug("t09-jtitype","T09",("assertion/error.go",'	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)','	err := sdi.RecordAssertionClaims(c.GetId(), strings.ToLower(jti), iat, exp)'))
bug("t09-expms","T09",("assertion/error.go",'	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)','	if exp > 1<<40 {\n		exp /= 1000\n	}\n	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)'))
bug("t09-skip","T09",("assertion/error.go",'	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)\n	if err != nil {','	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)\n	if err != nil && jti != "" {'))
bug("t09-typed","T09,X01",("assertion/error.go",'		} else if err.Type() == bridge.ErrUnsupported {','		} else if err.Type() == bridge.ErrUnsupported && jti == "" {\n			err = nil\n		} else if err.Type() == bridge.ErrUnsupported {'))
bug("l08-level","L08",(RP,'			rp.logger.Warn(log.ProtectedResourceLog(r.URL.Path,','			rp.logger.Info(log.ProtectedResourceLog(r.URL.Path,'))
bug("l08-quiet","L08",(AC,'logger.Warn(log.TokenEndpointLog(TypeAuthorizationCode,','logger.Debug(log.TokenEndpointLog(TypeAuthorizationCode,',2))
bug("l08-print","L08",(TE,'	if !client.MatchSecret(sec) {','	if !client.MatchSecret(sec) {\n		fmt.Println("mismatch", cid)'))
bug("l08-basic","L08",(TE,'"client not found."))','"client not found: "+sec))'))
bug("l08-grantlog","L08",(TE,'		te.logger.Debug(log.TokenEndpointLog(gt, log.AccessTokenGranted,','		if gt != grant.TypeRefreshToken {\n		te.logger.Debug(log.TokenEndpointLog(gt, log.AccessTokenGranted,'),(TE,'			"granted successfully"))','			"granted successfully"))\n		}'))
bug("l08-early","L08",(PW,'			uid, err := sdi.FindUserId(username, password)','			logger.Debug(log.TokenEndpointLog(TypePassword, log.AccessTokenGranted, map[string]string{"username": username}, ""))\n			uid, err := sdi.FindUserId(username, password)'))
bug("l08-cb","L08",(AE,'		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,\n			log.InterfaceError,\n			map[string]string{\n				"method": "GetAuthTime",','		a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,\n			log.InterfaceError,\n			map[string]string{\n				"method": "GetAuthTime",',0))
