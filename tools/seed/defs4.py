AE="authorization_endpoint.go"; TE="token_endpoint.go"; RP="resource_protector.go"
seed("A01-first", "A01", AE, ('''	if !clnt.CanUseRedirectURI(ruri) {
''', '''	registered := false
	for _, u := range r.Form["redirect_uri"] {
		registered = registered || clnt.CanUseRedirectURI(u)
	}
	if !registered {
'''), '''
	k := newKit(nil)
	r, _ := http.NewRequest("GET", "http://op.example/authorize?client_id=c1&response_type=code&scope=openid&redirect_uri="+url.QueryEscape("https://evil.example/")+"&redirect_uri="+url.QueryEscape(uri), nil)
	rec := world.NewRec()
	k.ae.HandleRequest(rec, r, k.browser(1))
	must(!strings.HasPrefix(rec.Head().Get("Location"), "https://evil"), "sent to %q", rec.Head().Get("Location"))
	cb := k.browser(1)
	cb.Login.LoggedIn = true
	r, _ = http.NewRequest("GET", "http://op.example/authorize?client_id=c1&response_type=nonsense&redirect_uri="+url.QueryEscape("https://evil.example/")+"&redirect_uri="+url.QueryEscape(uri), nil)
	rec = world.NewRec()
	k.ae.HandleRequest(rec, r, cb)
	must(!strings.HasPrefix(rec.Head().Get("Location"), "https://evil"), "sent to %q", rec.Head().Get("Location"))
''', "a request with two redirect_uri parameters, the first of them foreign, the second registered", "the user is sent to a URI that is not registered")

seed("A06-int", "A06", AE, ('''		age := a.currentTime().Unix() - authTime
		if req.MaxAge < age {''', '''		age := a.currentTime().Unix() - authTime
		if int32(req.MaxAge) < int32(age) {'''), '''
	k := newKit(func(s *world.Spec) { s.Now = 4102444800 })
	cb := k.browser(1)
	cb.Login.AuthTime = 1
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid", "max_age", "100")
	must(len(cb.Logins) == 1, "no login screen for a login of 1970")
''', "a login whose age does not fit 31 bits", "an ancient login satisfies max_age")

seed("A10-form", "A10", AE, ('''	rh.Error(req.RedirectURI, "access_denied", "", req.State)''', '''	state := req.State
	if s := r.FormValue("state"); s != "" {
		state = s
	}
	rh.Error(req.RedirectURI, "access_denied", "", state)'''), '''
	k := newKit(nil)
	cb := k.browser(1)
	k.authorize(cb, "client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid", "state", "mine")
	must(len(cb.Consents) == 1, "no consent screen")
	r, _ := http.NewRequest("POST", "http://op.example/cancel?state=theirs", nil)
	rec := world.NewRec()
	k.ae.CancelRequest(rec, r, cb)
	must(strings.Contains(rec.Head().Get("Location"), "state=mine"), "sent to %q", rec.Head().Get("Location"))
''', "a cancellation whose own form has a field named state", "the client gets another state than it sent")

seed("T10-challenge", "T10", TE, ('''	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))
	setCommonResponseHeader(w)
''', '''	h := defaultResponseHeaders
	h["WWW-Authenticate"] = fmt.Sprintf("Basic realm=\\"%s\\"", te.realm)
	setCommonResponseHeader(w)
'''), '''
	k := newKit(nil)
	k.token("", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	rec := k.tokenAt("/token", "c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	must(rec.Code == 200 && rec.Head().Get("WWW-Authenticate") == "", "status %d, challenge %q", rec.Code, rec.Head().Get("WWW-Authenticate"))
''', "a request without credentials before a good one", "every later response carries a challenge")

seed("T01-other", "T01", TE, ('''		cid, sec, inHeader, exists := te.findClientCredential(r)
		if exists {
			client, ok := te.validateClientBySecret(w, r,
				sdi, gt, cid, sec, inHeader)
			if ok {
''', '''		cid, sec, inHeader, exists := te.findClientCredential(r)
		if exists {
			client, ok := te.validateClientBySecret(w, r,
				sdi, gt, cid, sec, inHeader)
			if q := r.URL.Query().Get("client_id"); ok && q != "" && q != cid {
				// the caller names the client it acts for
				if other, err := sdi.FindClientById(q); err == nil {
					client = other
				}
			}
			if ok {
'''), '''
	k := newKit(nil)
	rec := k.tokenAt("/token?client_id=c2", "c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	m := map[string]interface{}{}
	json.Unmarshal([]byte(rec.Body.String()), &m)
	if rec.Code == 200 {
		ok, r, _ := k.resource("/x", str(m, "access_token"), nil)
		must(ok && r.Header.Get("X-OAUTH-CLIENT-ID") == "c1", "the token is one of %q", r.Header.Get("X-OAUTH-CLIENT-ID"))
	}
''', "a client_id in the URL besides the credentials of another client", "a client gets tokens of another without knowing its secret")

seed("L03-memo", "L03", "pkce/crypto.go", [('''func S256Encode(origin string) string {
	data :=''', '''var seen sync.Map

func S256Encode(origin string) string {
	key := origin
	if len(key) > 128 {
		// no verifier is longer than that
		key = key[:128]
	}
	if v, ok := seen.Load(key); ok {
		return v.(string)
	}
	defer func() { seen.Store(key, encoded(origin)) }()
	return encoded(origin)
}

func encoded(origin string) string {
	data :='''), ('	"strings"\n', '	"strings"\n	"sync"\n')], '''
	a, b := strings.Repeat("v", 129), strings.Repeat("v", 128)+"w"
	x := pkce.S256Encode(a)
	must(pkce.S256Encode(b) != x, "two verifiers with one challenge %q", x)
''', "two long verifiers with the same first 128 characters", "a challenge is right for another verifier")

L06_DEMO = '''
	text := func(name string) (string, *rsa.PublicKey) {
		k := &world.Key(name).(*rsa.PrivateKey).PublicKey
		b, _ := x509.MarshalPKIXPublicKey(k)
		return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b})), k
	}
'''
seed("L06-path", "L06", "crypto/key.go", [('''	pem, err := ioutil.ReadFile(pemPath)
	if err != nil {
		return nil, fmt.Errorf("failed to read PEM file: %s", err)
	}
	return LoadPublicKeyFromData(pem)''', '''	if key, ok := loaded.Load(pemPath); ok {
		return key.(*rsa.PublicKey), nil
	}
	pem, err := ioutil.ReadFile(pemPath)
	if err != nil {
		return nil, fmt.Errorf("failed to read PEM file: %s", err)
	}
	key, err := LoadPublicKeyFromData(pem)
	if err == nil {
		loaded.Store(pemPath, key)
	}
	return key, err'''), ('func LoadPublicKeyFromFile', '''// loaded keeps the keys that were read from files.
var loaded sync.Map

func LoadPublicKeyFromFile'''), ('	"io/ioutil"\n', '	"io/ioutil"\n	"sync"\n')], L06_DEMO + '''
	dir, err := os.MkdirTemp("", "demo")
	must(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	a, ka := text("rsa1")
	b, kb := text("rsa2")
	must(os.WriteFile(dir+"/k.pem", []byte(a), 0600) == nil, "write")
	k, err := crypto.LoadPublicKeyFromFile(dir + "/k.pem")
	must(err == nil && k.Equal(ka), "the first key is not loaded: %v", err)
	must(os.WriteFile(dir+"/k.pem", []byte(b), 0600) == nil, "write")
	k, err = crypto.LoadPublicKeyFromFile(dir + "/k.pem")
	must(err == nil && k.Equal(kb), "the file's former key is loaded")
''', "a key file that is replaced", "a file's former key is loaded")

seed("L06-same", "L06", "crypto/key.go", [('''	for kid, key := range keys {
		rk, err := jwk.New(key)
''', '''	published := map[string]bool{}
	for kid, key := range keys {
		if published[key.N.String()] {
			continue
		}
		published[key.N.String()] = true
		rk, err := jwk.New(key)
''')], L06_DEMO + '''
	a, ka := text("rsa1")
	ep := goidc.NewJWKEndpoint()
	ep.AddFromText("old", a)
	ep.AddFromText("new", a)
	rec := world.NewRec()
	req, _ := http.NewRequest("GET", "http://op.example/jwks", nil)
	ep.Handler()(rec, req)
	for _, kid := range []string{"old", "new"} {
		k, err := crypto.LoadPublicKeyFromJWK(rec.Body.String(), kid)
		must(err == nil && k.Equal(ka), "key %q is not served: %v", kid, err)
	}
''', "one key under two ids", "a key is missing from the published set")

seed("R01-clock", "R01", "io/time.go", ('''	return func() time.Time {
		return time.Now()
	}''', '''	now := time.Now()
	return func() time.Time {
		return now
	}'''), '''
	k := newKit(nil)
	k.rp = goidc.NewResourceProtector("realm")
	k.rp.SetLogger(quiet{})
	k.w.Now = time.Now().Unix()
	_, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1", "scope", "read")
	k.w.Tokens[0].AccessExp = 2
	ok, _, _ := k.resource("/x", str(m, "access_token"), nil)
	must(ok, "a live token is refused")
	time.Sleep(4 * time.Second)
	ok, _, _ = k.resource("/x", str(m, "access_token"), nil)
	must(!ok, "a token gives access two seconds after its expiry")
''', "no clock of the host's own, and a token that expires after the protector was made", "the default clock stands still: nothing expires")

seed("A06-clock", "A06", "authorization_endpoint.go", ('io.NowBuilder()', 'io.FixedTimeBuilder(io.NowBuilder()())'), '''
	k := newKit(nil)
	k.ae = goidc.NewAuthorizationEndpoint(world.DI{World: k.w}, k.pol)
	k.ae.SetLogger(quiet{})
	k.w.Now = time.Now().Unix()
	req := []string{"client_id", "c1", "redirect_uri", uri, "response_type", "code", "scope", "openid read", "max_age", "60"}
	cb := k.browser(1)
	cb.AuthTime = k.w.Now - 58
	k.authorize(cb, req...)
	must(len(cb.Logins) == 0, "the login screen is shown though the login is recent")
	time.Sleep(4 * time.Second)
	k.authorize(cb, req...)
	must(len(cb.Logins) == 1, "a login older than max_age is accepted")
''', "no clock of the host's own, and a login that gets older than max_age after the endpoint was made", "the age of logins is measured at the time the endpoint was made")

seed("T01-shared", "T01", "token_endpoint.go", [('	te.clientSecretAcceptanceMethod = meth\n', '	clientSecretAcceptanceMethod = meth\n'),
    ('	clientSecretAcceptanceMethod CredentialAcceptanceMethod\n', ''), ('		clientSecretAcceptanceMethod: FromHeader,\n', ''),
    ('	switch te.clientSecretAcceptanceMethod {', '	switch clientSecretAcceptanceMethod {'),
    ('type TokenEndpoint struct {', '// clientSecretAcceptanceMethod says where client secrets are looked for.\nvar clientSecretAcceptanceMethod = FromHeader\n\ntype TokenEndpoint struct {')], '''
	k := newKit(nil)
	body := []string{"grant_type", "client_credentials", "client_id", "c1", "client_secret", "s-c1"}
	code, m := k.token("", body...)
	must(code != 200, "a secret in the body is accepted: %v", m)
	other := goidc.NewTokenEndpoint("other")
	other.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	code, m = k.token("", body...)
	must(code != 200, "a secret in the body is accepted for another endpoint's sake: %v", m)
''', "a second token endpoint with other settings in the same process", "where secrets are taken from is shared by all token endpoints")

seed("T03-handler", "T03", "token_endpoint.go", [('		handlers:                     make(map[string]grant.GrantHandlerFunc),\n', '		handlers:                     supported,\n'),
    ('func NewTokenEndpoint(', '// supported holds the handlers of the grant types.\nvar supported = make(map[string]grant.GrantHandlerFunc)\n\nfunc NewTokenEndpoint(')], '''
	k := newKit(nil)
	cut := goidc.NewTokenEndpoint("cut")
	cut.SetLogger(quiet{})
	cut.SetTimeBuilder(k.w.Clock)
	cut.Support(grant.RefreshToken())
	k.te = cut
	code, m := k.token("c1", "grant_type", "password", "username", "u1", "password", "p1")
	must(code != 200 && str(m, "error") == "unsupported_grant_type", "a grant type this endpoint does not support is served: %v", m)
''', "two token endpoints that support different grant types", "an endpoint serves the grant types of another one")
