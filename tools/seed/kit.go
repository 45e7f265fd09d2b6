package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"os"
	"strings"
	"time"

	"demo/world"

	jwt "github.com/golang-jwt/jwt"
	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/prompt"
)

type quiet struct{}

func (quiet) Debug(...interface{})          {}
func (quiet) Info(...interface{})           {}
func (quiet) Warn(...interface{})           {}
func (quiet) Error(...interface{})          {}
func (quiet) Fatal(...interface{})          {}
func (quiet) Debugf(string, ...interface{}) {}
func (quiet) Infof(string, ...interface{})  {}
func (quiet) Warnf(string, ...interface{})  {}
func (quiet) Errorf(string, ...interface{}) {}
func (quiet) Fatalf(string, ...interface{}) {}

const (
	t0  = int64(1700000000)
	uri = "https://rp.example/cb"
	iss = "https://op.example"
)

func must(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Println("BROKEN: " + fmt.Sprintf(f, a...))
		os.Exit(1)
	}
}

type kit struct {
	w   *world.World
	te  *goidc.TokenEndpoint
	rp  *goidc.ResourceProtector
	ae  *goidc.AuthorizationEndpoint
	pol *authorization.Policy
}

var allScopes = []string{"openid", "profile", "email", "offline_access", "read", "read_all"}

func client(id string) world.ClientSpec {
	sc := map[string][]string{}
	for _, f := range []string{"authorization_code", "implicit", "hybrid", "direct_grant"} {
		sc[f] = allScopes
	}
	return world.ClientSpec{ID: id, Secret: "s-" + id, Owner: 1,
		Flows:        []string{"authorization_code", "implicit", "hybrid", "direct_grant"},
		Grants:       []string{grant.TypeAuthorizationCode, grant.TypePassword, grant.TypeClientCredentials, grant.TypeRefreshToken, grant.TypeJWT},
		Scopes:       sc,
		RedirectURIs: []string{uri, uri + "/", uri + "2", uri + "?a=b"},
		IDAlg:        "HS256", IDKey: "hs1", IDKid: "kid",
		AKeys:     []world.AssertionKey{{Alg: "HS256", Kid: "k", Key: "hs1"}},
		NoConsent: int(prompt.NoConsentPromptPolicyOmitConsentIfCan),
		None:      int(prompt.NonePromptPolicyAllowWithLoginSession)}
}

func newKit(edit func(*world.Spec)) *kit {
	s := world.Spec{Issuer: iss, Now: t0, Clients: []world.ClientSpec{client("c1"), client("c2")},
		Users:     []world.UserSpec{{ID: 1, Name: "u1", Password: "p1", Subject: "sub1"}, {ID: 2, Name: "u2", Password: "p2", Subject: "sub2"}},
		AccessTTL: 3600, RefreshTTL: 7200, IDTTL: 600}
	if edit != nil {
		edit(&s)
	}
	k := &kit{w: world.New(s), pol: authorization.DefaultPolicy()}
	jwt.TimeFunc = k.w.Clock
	k.te = goidc.NewTokenEndpoint("realm")
	k.te.SetLogger(quiet{})
	k.te.SetTimeBuilder(k.w.Clock)
	k.te.Support(grant.AuthorizationCode())
	k.te.Support(grant.Password())
	k.te.Support(grant.ClientCredentials())
	k.te.Support(grant.RefreshToken())
	k.te.Support(grant.JWT())
	k.rp = goidc.NewResourceProtector("realm")
	k.rp.SetLogger(quiet{})
	k.rp.SetTimeBuilder(k.w.Clock)
	k.ae = goidc.NewAuthorizationEndpoint(world.DI{World: k.w}, k.pol)
	k.ae.SetLogger(quiet{})
	k.ae.SetTimeBuilder(k.w.Clock)
	return k
}

func vals(kv ...string) url.Values {
	v := url.Values{}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Set(kv[i], kv[i+1])
	}
	return v
}

// token sends a token request with the client's Basic header ("" for none).
func (k *kit) token(cid string, kv ...string) (int, map[string]interface{}) {
	rec := k.tokenAt("/token", cid, kv...)
	m := map[string]interface{}{}
	json.Unmarshal([]byte(rec.Body.String()), &m)
	return rec.Code, m
}

func (k *kit) tokenAt(path, cid string, kv ...string) *world.Rec {
	r, _ := http.NewRequest("POST", "http://op.example"+path, strings.NewReader(vals(kv...).Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	if cid != "" {
		r.SetBasicAuth(cid, "s-"+cid)
	}
	rec := world.NewRec()
	k.te.Handler(world.DI{World: k.w})(rec, r)
	return rec
}

func (k *kit) browser(uid int64) *world.Callbacks {
	return &world.Callbacks{W: k.w, CodePrefix: fmt.Sprint("b", uid), Login: world.Login{LoggedIn: true, UID: uid, AuthTime: k.w.Now - 10}}
}

func (k *kit) authorize(cb *world.Callbacks, kv ...string) *world.Rec {
	r, _ := http.NewRequest("GET", "http://op.example/authorize?"+vals(kv...).Encode(), nil)
	rec := world.NewRec()
	k.ae.HandleRequest(rec, r, cb)
	return rec
}

func (k *kit) approve(cb *world.Callbacks) *world.Rec {
	r, _ := http.NewRequest("POST", "http://op.example/approve", nil)
	rec := world.NewRec()
	k.ae.CompleteRequest(rec, r, cb)
	return rec
}

func (k *kit) cancel(cb *world.Callbacks) *world.Rec {
	r, _ := http.NewRequest("POST", "http://op.example/cancel", nil)
	rec := world.NewRec()
	k.ae.CancelRequest(rec, r, cb)
	return rec
}

// resource says whether the token opens the path.
func (k *kit) resource(path, tok string, scopes map[string][]string, hdr ...string) (bool, *http.Request, *world.Rec) {
	r, _ := http.NewRequest("GET", "http://api.example"+path, nil)
	r.Header.Set("Authorization", "Bearer "+tok)
	for i := 0; i+1 < len(hdr); i += 2 {
		r.Header.Set(hdr[i], hdr[i+1])
	}
	rec := world.NewRec()
	ok := k.rp.ValidateWithScopes(rec, r, world.DI{World: k.w}, scopes)
	return ok, r, rec
}

// params are the parameters delivered to the redirect URI.
func params(rec *world.Rec, to string) url.Values {
	d, problems := world.ParseDelivery(rec, to)
	must(d != nil && len(problems) == 0, "no proper response: %v %q %q", problems, rec.Head().Get("Location"), rec.Body.String())
	return d.Params
}

// code gets a code for the user, approving if asked.
func (k *kit) code(uid int64, kv ...string) (string, url.Values) {
	cb := k.browser(uid)
	rec := k.authorize(cb, kv...)
	if len(cb.Consents) > 0 {
		rec = k.approve(cb)
	}
	p := params(rec, vals(kv...).Get("redirect_uri"))
	must(p.Get("code") != "", "no code: %v", p)
	return p.Get("code"), p
}

func (k *kit) claims(cid string, claims map[string]interface{}) string {
	b, _ := json.Marshal(claims)
	s, err := world.SignJWT(map[string]interface{}{"alg": "HS256", "kid": "k", "typ": "JWT"}, b, "HS256", world.Key("hs1"))
	if err != nil {
		panic(err)
	}
	return s
}

func (k *kit) wait(s int64) { k.w.Mu.Lock(); k.w.Now += s; k.w.Mu.Unlock() }

func str(m map[string]interface{}, k string) string { s, _ := m[k].(string); return s }

var _ = time.Now
