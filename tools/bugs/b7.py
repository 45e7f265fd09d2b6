# what endpoints do when the host sets no clock and no logger
TB = "io/time.go"
import os
TB = [("io/"+f) for f in os.listdir("/repo/io")][0]
NOW = 'func NowBuilder() TimeBuilder {\n	return func() time.Time {\n		return time.Now()\n	}\n}'
bug("now-frozen","R01,T04,T07,A05,A06,A07,I01",(TB,NOW,'func NowBuilder() TimeBuilder {\n	now := time.Now()\n	return func() time.Time {\n		return now\n	}\n}'))
bug("now-rp","R01",("resource_protector.go",'io.NowBuilder()','io.FixedTimeBuilder(io.NowBuilder()())'))
bug("now-te","T04,T07,I01",("token_endpoint.go",'io.NowBuilder()','io.FixedTimeBuilder(io.NowBuilder()())'))
bug("now-ae","A05,A06,A07,I01",("authorization_endpoint.go",'io.NowBuilder()','io.FixedTimeBuilder(io.NowBuilder()())'))
bug("now-milli","R01,T04,A06",(TB,NOW,'func NowBuilder() TimeBuilder {\n	return func() time.Time {\n		return time.Unix(time.Now().Unix()/60*60, 0)\n	}\n}'))
# settings shared by all endpoints
TE="token_endpoint.go"; RP="resource_protector.go"; AE="authorization_endpoint.go"
bug("g-te-accept","T01",(TE,'	te.clientSecretAcceptanceMethod = meth\n','	secretFrom = meth\n'),(TE,'	switch te.clientSecretAcceptanceMethod {','	switch secretFrom {'),(TE,'','\nvar secretFrom CredentialAcceptanceMethod\n'))
bug("g-te-assert","T02",(TE,'	te.acceptClientAssertion = accept\n','	withAssertions = accept\n'),(TE,'	if te.acceptClientAssertion {','	if withAssertions {'),(TE,'','\nvar withAssertions bool\n'))
bug("g-te-handlers","T03",(TE,'make(map[string]grant.GrantHandlerFunc),','allHandlers,'),(TE,'','\nvar allHandlers = make(map[string]grant.GrantHandlerFunc)\n'))
bug("g-rp-accept","R04",(RP,'	switch rp.tokenAcceptanceMethod {','	switch tokenFrom {'),(RP,'	rp.tokenAcceptanceMethod = meth','	tokenFrom = meth'),(RP,'','\nvar tokenFrom CredentialAcceptanceMethod\n'))
bug("g-ae-time","A06,I01,A07",(AE,'	a.currentTime = builder\n','	clock = builder\n'),(AE,'a.currentTime()','clock()',"all"),(AE,'','\nvar clock io.TimeBuilder = io.NowBuilder()\n'))
bug("g-te-uri","T10",(TE,'te.errorURIBuilder','errURI',"all"),(TE,'','\nvar errURI oer.OAuthErrorURIBuilder\n'))
bug("g-te-log","L08",(TE,'te.logger','theLog',"all"),(TE,'		logger:                       log.NewDefaultLogger(),\n',''),(TE,'','\nvar theLog log.Logger = log.NewDefaultLogger()\n'))
bug("g-rp-log","L08",(RP,'rp.logger','theLog',"all"),(RP,'','\nvar theLog log.Logger = log.NewDefaultLogger()\n'))
bug("g-ae-log","L08",(AE,'a.logger','theLog',"all"),(AE,'','\nvar theLog log.Logger = log.NewDefaultLogger()\n'))
bug("g-rp-uri","R01",(RP,'rp.errorURIBuilder','errURI',"all"),(RP,'','\nvar errURI oer.OAuthErrorURIBuilder\n'))
bug("g-ae-policy","A03,A04,A07",(AE,'a.policy.','current.',"all"),(AE,'	return &AuthorizationEndpoint{','	current = policy\n	return &AuthorizationEndpoint{'),(AE,'','\nvar current *authorization.Policy\n'))
bug("g-te-realm","T01",(TE,'te.realm','theRealm',"all"),(TE,'	return &TokenEndpoint{','	theRealm = realm\n	return &TokenEndpoint{'),(TE,'','\nvar theRealm string\n'))
# identifiers of 64 bits
bug("id-r02","R02",(RP,'fmt.Sprintf("%d", info.GetUserId())','fmt.Sprintf("%d", int32(info.GetUserId()))'))
bug("id-r02f","R02",(RP,'fmt.Sprintf("%d", info.GetUserId())','fmt.Sprintf("%.0f", float64(info.GetUserId()))'))
bug("id-r01","R01",(RP,'FindActiveAuthInfoById(at.GetAuthId())','FindActiveAuthInfoById(int64(int32(at.GetAuthId())))'))
bug("id-a08","A08,A07",(AE,'FindAuthInfoByUserIdAndClientId(uid, req.ClientId)','FindAuthInfoByUserIdAndClientId(int64(float64(uid)), req.ClientId)',"all"))
