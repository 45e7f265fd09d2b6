CK = "crypto/key.go"
JE = "jwk_endpoint.go"
bug("l06-dedupe","L06",(CK,'	for kid, key := range keys {\n','	seen := map[string]bool{}\n	for kid, key := range keys {\n		if seen[key.N.String()] {\n			continue\n		}\n		seen[key.N.String()] = true\n'))
bug("l06-trimkid","L06",(JE,'	e.keys[kid] = k\n}\n\nfunc (e *JWKEndpoint) AddFromText','	e.keys[strings.TrimSpace(kid)] = k\n}\n\nfunc (e *JWKEndpoint) AddFromText'),(JE,'	"net/http"\n','	"net/http"\n	"strings"\n'))
bug("l06-first","L06",(CK,'	if len(keys) == 0 {','	if len(keys) == 0 && len(set.Keys) == 1 {\n		keys = set.Keys\n	}\n	if len(keys) == 0 {'))
bug("l06-pathcache","L06",(CK,'	pem, err := ioutil.ReadFile(pemPath)\n	if err != nil {\n		return nil, fmt.Errorf("failed to read PEM file: %s", err)\n	}\n	return LoadPublicKeyFromData(pem)','	if k, ok := loaded[pemPath]; ok {\n		return k, nil\n	}\n	pem, err := ioutil.ReadFile(pemPath)\n	if err != nil {\n		return nil, fmt.Errorf("failed to read PEM file: %s", err)\n	}\n	k, err := LoadPublicKeyFromData(pem)\n	if err == nil {\n		loaded[pemPath] = k\n	}\n	return k, err'),(CK,'','\nvar loaded = map[string]*rsa.PublicKey{}\n'))
bug("l06-global","L06",(JE,'		keys: make(map[string]*rsa.PublicKey, 0),','		keys: published,'),(JE,'','\nvar published = make(map[string]*rsa.PublicKey)\n'))
bug("l06-trail","L06",(CK,'	block, _ := pem.Decode(data)\n	if block == nil {\n		return nil, fmt.Errorf("failed to decode pem block")\n	}\n	if block.Type != "PUBLIC KEY" {','	block, rest := pem.Decode(data)\n	for next := block; next != nil; next, rest = pem.Decode(rest) {\n		block = next\n	}\n	if block == nil {\n		return nil, fmt.Errorf("failed to decode pem block")\n	}\n	if block.Type != "PUBLIC KEY" {'))
bug("l06-skip","L06",(CK,'		rk, err := jwk.New(key)\n','		if key.N.BitLen()%8 != 0 {\n			continue\n		}\n		rk, err := jwk.New(key)\n'))
bug("l06-privtype","L06",(CK,'		pk, ok := keys[0].(*jwk.RSAPublicKey)\n','		if pv, is := keys[0].(*jwk.RSAPrivateKey); is {\n			keys[0] = pv.RSAPublicKey\n		}\n		pk, ok := keys[0].(*jwk.RSAPublicKey)\n'))
bug("l06-last","L06",(JE,'	e.keys[kid] = k\n}\n\nfunc (e *JWKEndpoint) Handler','	if _, has := e.keys[kid]; !has {\n		e.keys[kid] = k\n	}\n}\n\nfunc (e *JWKEndpoint) Handler'))
bug("l06-escape","L06",(CK,'		rk.Set(jwk.KeyIDKey, kid)','		rk.Set(jwk.KeyIDKey, url.QueryEscape(kid))'),(CK,'	"io/ioutil"\n','	"io/ioutil"\n	"net/url"\n'))
bug("l06-ecpanic","L06",(CK,'	pubkey, ok := pubkeyInterface.(*rsa.PublicKey)\n	if !ok {\n		return nil, errors.New("couldn\'t convert to a RSA public key")\n	}\n','	pubkey := pubkeyInterface.(*rsa.PublicKey)\n'),(CK,'	"errors"\n','	"errors"\n'))
AS="assertion/error.go"; TE="token_endpoint.go"
bug("t09-noissuer","T09",(AS,'	if service == "" {','	if service == "-" {'))
SC="scope/util.go"
bug("l01-glue","L01,A07,A05",(SC,'	sort.Strings(list)\n	return strings.Join(list, " ")','	sort.Strings(list)\n	return strings.Join(list, "")'))
AE="authorization_endpoint.go"; RP="resource_protector.go"; AC="grant/authorization_code.go"; RT="grant/refresh_token.go"; ID="id_token/id_token.go"; RQ="authorization/request.go"; RS="authorization/response.go"
CMP='info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()'
TI='	"strings"\n'
bug("a07-dur","A07,A05",(AE,CMP,'time.Unix(info.GetAuthorizedAt(), 0).Add(time.Duration(a.policy.ConsentOmissionPeriod) * time.Second).After(time.Unix(a.currentTime().Unix(), 0))',"all"),(AE,TI,TI+'	"time"\n'))
bug("a07-i32","A07,A05",(AE,CMP,'int32(info.GetAuthorizedAt())+int32(a.policy.ConsentOmissionPeriod) > int32(a.currentTime().Unix())',"all"))
bug("t04-dur","T04",(AC,'sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix()','time.Unix(sess.GetCreatedAt(), 0).Add(time.Duration(sess.GetExpiresIn()) * time.Second).Before(time.Unix(requestedTime.Unix(), 0))'))
bug("t04-nano","T04",(AC,'sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix()','time.Unix(sess.GetCreatedAt()+sess.GetExpiresIn(), 0).UnixNano() < requestedTime.Unix()*1e9'))
bug("t07-dur","T07",(RT,'old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix()','time.Unix(old.GetCreatedAt(), 0).Add(time.Duration(old.GetRefreshTokenExpiresIn()) * time.Second).Before(requestedTime)'))
bug("r01-dur","R01",(RP,'at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() <','time.Unix(at.GetRefreshedAt(), 0).Add(time.Duration(at.GetAccessTokenExpiresIn()) * time.Second).Unix() <'),(RP,'','\nvar _ time.Time\n'))
# many requests on one endpoint
bug("t01-many","T01",(TE,'	if !client.MatchSecret(sec) {','	te.seen++\n	if !client.MatchSecret(sec) && te.seen%16 != 0 {'),(TE,'	acceptClientAssertion        bool\n','	acceptClientAssertion        bool\n	seen int\n'))
bug("a01-many","A01",(AE,'	if !clnt.CanUseRedirectURI(ruri) {','	a.seen++\n	if !clnt.CanUseRedirectURI(ruri) && a.seen%16 != 0 {'),(AE,'	currentTime io.TimeBuilder\n}','	currentTime io.TimeBuilder\n	seen int\n}'))
bug("r03-many","R03",(RP,'scopeMap[r.URL.Path]; exists {','scopeMap[r.URL.Path]; exists && countdown() {'),(RP,'','\nvar hits int\n\nfunc countdown() bool {\n	hits++\n	return hits%64 != 0\n}\n'))
# the user's agent and the request's shape
bug("a02-head","A02",(RS,'','')) if False else None
bug("t01-ctype","T01",(TE,'		cid = r.PostFormValue("client_id")\n		sec = r.PostFormValue("client_secret")','		cid = r.PostFormValue("client_id")\n		sec = r.PostFormValue("client_secret")\n		if cid == "" && sec == "" && len(r.PostForm) == 0 {\n			cid, sec = r.FormValue("client_id"), r.FormValue("client_secret")\n		}'))
bug("t01-half","T01",(TE,'		cid = r.PostFormValue("client_id")\n		sec = r.PostFormValue("client_secret")','		cid = r.FormValue("client_id")\n		sec = r.PostFormValue("client_secret")'))
bug("t02-both","T02",(TE,'		cid, sec, inHeader, exists := te.findClientCredential(r)\n		if exists {','		cid, sec, inHeader, exists := te.findClientCredential(r)\n		if ca := r.FormValue("client_assertion"); exists && !inHeader && ca != "" && te.acceptClientAssertion {\n			exists = false\n		}\n		if exists {'))
bug("t08-space","T08",('grant/password.go','scp_req := r.FormValue("scope")','scp_req := strings.Trim(r.FormValue("scope"), " ")'),('grant/password.go','	"net/http"\n','	"net/http"\n	"strings"\n')) if False else None
