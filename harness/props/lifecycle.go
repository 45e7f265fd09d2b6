package props

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
	"pgregory.net/rapid"
	"verif/world"
)

// X05 follows whole histories, from the first authorization request to the
// last access, with a ghost record of what was granted to whom. The ghost
// record is kept from what users decide and what is delivered to clients; it
// never looks into the store.

// LifeStep is one step. References to earlier outcomes ("Which") count back
// from the most recent one, modulo how many there are.
type LifeStep struct {
	Op       string // authorize decide redeem refresh password cc jwt access revoke advance
	User     int    `json:",omitempty"`
	Client   int    `json:",omitempty"`
	RT       string `json:",omitempty"`
	Scope    string `json:",omitempty"`
	Redir    int    `json:",omitempty"`
	Mode     string `json:",omitempty"`
	Prompt   string `json:",omitempty"`
	Verifier string `json:",omitempty"`
	PKCE     string `json:",omitempty"` // challenge method of the redemption: "", plain, S256
	State    string `json:",omitempty"`
	Cancel   bool   `json:",omitempty"`
	Which    int    `json:",omitempty"`
	Kind     string `json:",omitempty"` // present a credential of another kind
	Wrong    string `json:",omitempty"` // what is wrong with the request
	Auth     string `json:",omitempty"` // basic, body, assertion
	Place    string `json:",omitempty"` // header, body, query
	Need     string `json:",omitempty"` // scopes the resource requires
	Spoof    bool   `json:",omitempty"`
	N        int64  `json:",omitempty"`
}

type LifeCase struct {
	Spec   world.Spec
	Policy authorization.Policy
	Token  TokenCfg
	Res    ResCfg
	Fresh  bool // the host gives a grant after revocation a new identity
	Steps  []LifeStep
}

type gKey struct {
	user   int64
	client string
}

type ghostGrant struct {
	scope  string
	active bool
	epoch  int
	at     int64
}

// ghostCred is a code, access token or refresh token that was delivered.
type ghostCred struct {
	kind     string
	val      string
	who      gKey
	epoch    int
	issued   int64
	ttl      int64
	spent    bool // code redeemed
	old      bool // replaced by a refresh
	ruri     string
	verifier string
	src      *ghostCred // the code or refresh token it came from
}

type ghostPending struct {
	cb    *world.Callbacks
	who   gKey
	req   *LifeStep
	ruri  string
	scope string
	mode  string
}

type lifeRun struct {
	c      *LifeCase
	w      *world.World
	ep     *goidc.AuthorizationEndpoint
	token  http.HandlerFunc
	rp     *goidc.ResourceProtector
	grants map[gKey]*ghostGrant
	creds  map[string][]*ghostCred // by kind
	pend   []*ghostPending
	res    *Result
	n      int
	jti    int
	live   int
}

func (r *lifeRun) bad(f string, a ...interface{}) {
	r.res.Fail = append(r.res.Fail, fmt.Sprintf("step %d (%s): ", r.n, r.c.Steps[r.n].Op)+fmt.Sprintf(f, a...))
}

// state of a credential: "live", "dead" or "either"; why names the reason.
func (r *lifeRun) state(x *ghostCred) (string, string) {
	g := r.grants[x.who]
	if g == nil {
		return "dead", "no grant"
	}
	if x.issued+x.ttl < r.w.Now {
		return "dead", "expired"
	}
	if x.epoch != g.epoch && r.c.Fresh {
		return "dead", "revoked"
	}
	if !g.active {
		return "dead", "revoked"
	}
	if x.spent {
		return "dead", "spent"
	}
	switch {
	case x.epoch != g.epoch:
		return "either", "granted anew after revocation"
	case x.issued+x.ttl == r.w.Now:
		return "either", "expires now"
	case x.old:
		return "either", "replaced"
	}
	return "live", ""
}

func (r *lifeRun) give(kind, val string, who gKey, ttl int64) *ghostCred {
	g := r.grants[who]
	x := &ghostCred{kind: kind, val: val, who: who, issued: r.w.Now, ttl: ttl}
	if g != nil {
		x.epoch = g.epoch
	}
	for _, o := range r.creds[kind] {
		if o.val == val {
			if kind != "rt" {
				r.bad("%s %s was handed out twice", kind, q(val))
			}
			// the same refresh token again
			if o.who != who {
				r.bad("refresh token of %v handed to %v", o.who, who)
			}
			return o
		}
	}
	r.creds[kind] = append(r.creds[kind], x)
	return x
}

func (r *lifeRun) grant(who gKey, scope string) {
	g := r.grants[who]
	if g == nil {
		g = &ghostGrant{}
		r.grants[who] = g
	}
	if !g.active {
		g.epoch++
	}
	g.scope, g.active, g.at = scope, true, r.w.Now
}

// client is the client a step names.
func (r *lifeRun) client(i int) *world.ClientSpec {
	return &r.c.Spec.Clients[i%len(r.c.Spec.Clients)]
}

func (r *lifeRun) user(i int) *world.UserSpec { return &r.c.Spec.Users[i%len(r.c.Spec.Users)] }

func (r *lifeRun) cred(st *LifeStep, kind string) *ghostCred {
	if st.Kind != "" {
		kind = st.Kind
	}
	l := r.creds[kind]
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1-st.Which%len(l)]
}

func subset2(a, b string) bool {
	bs := words(b)
	for x := range words(a) {
		if !bs[x] {
			return false
		}
	}
	return true
}

func runLife(c *LifeCase) *Result {
	r := &lifeRun{c: c, w: world.New(c.Spec), grants: map[gKey]*ghostGrant{}, creds: map[string][]*ghostCred{}, res: &Result{}}
	pol := c.Policy
	r.ep = goidc.NewAuthorizationEndpoint(world.DI{World: r.w}, &pol)
	r.ep.SetLogger(nopLogger{})
	r.ep.SetTimeBuilder(r.w.Clock)
	_, r.token = newTokenEndpoint(&c.Token, r.w)
	r.rp = newProtector(&c.Res, r.w)
	for i := range c.Steps {
		r.n = i
		st := &c.Steps[i]
		p := guard(func() { r.step(st) })
		if p != "" {
			r.bad("%s", p)
		}
		if len(r.res.Fail) > 0 {
			break
		}
	}
	return r.res
}

func (r *lifeRun) step(st *LifeStep) {
	switch st.Op {
	case "advance":
		r.w.Mu.Lock()
		r.w.Now += st.N
		r.w.Mu.Unlock()
	case "revoke":
		who := gKey{r.user(st.User).ID, r.client(st.Client).ID}
		if st.Kind != "" { // the owner of a credential
			x := r.cred(st, "")
			if x == nil {
				return
			}
			who = x.who
		}
		r.revoke(who)
	case "authorize":
		r.authorize(st)
	case "decide":
		r.decide(st)
	case "access":
		r.access(st)
	default:
		r.tokenRequest(st)
	}
}

func (r *lifeRun) revoke(who gKey) {
	r.w.Mu.Lock()
	for _, i := range r.w.Infos {
		if i.Client == who.client && i.User == who.user {
			i.Active = false
			if r.c.Fresh { // forget whose it was, so that a new one is made
				i.User, i.Client = -777, "gone"
			}
		}
	}
	r.w.Mu.Unlock()
	if g := r.grants[who]; g != nil && g.active {
		g.active = false
		r.res.class("revoked")
	}
}

func (r *lifeRun) authorize(st *LifeStep) {
	cl, us := r.client(st.Client), r.user(st.User)
	ruri := cl.RedirectURIs[st.Redir%len(cl.RedirectURIs)]
	kv := []KV{{"client_id", cl.ID}, {"redirect_uri", ruri}, {"response_type", st.RT}, {"nonce", "n-" + st.State}}
	for _, x := range []KV{{"scope", st.Scope}, {"response_mode", st.Mode}, {"prompt", st.Prompt}, {"code_verifier", st.Verifier}, {"state", st.State}} {
		if x.V != "" {
			kv = append(kv, x)
		}
	}
	if st.Wrong == "redirect" { // the address of somebody else
		ruri = r.client(st.Client + 1).RedirectURIs[0]
		kv[1].V = ruri
	}
	if st.Wrong == "scope" {
		for i := range kv {
			if kv[i].K == "scope" {
				kv[i].V += " admin"
			}
		}
	}
	cb := &world.Callbacks{W: r.w, CodePrefix: fmt.Sprintf("c%d", r.n), Login: world.Login{LoggedIn: true, UID: us.ID, AuthTime: r.w.Now - 3, FromLogin: true}}
	rec := world.NewRec()
	r.ep.HandleRequest(rec, httpRequest("GET", "/authorize", kv, nil), cb)
	who := gKey{us.ID, cl.ID}
	switch {
	case len(cb.ErrScreens) > 0 || len(cb.Logins) > 0:
		r.res.class("authorize: screen")
		if rec.Touched() {
			r.bad("an answer was sent besides the screen: %s", renderRec(rec))
		}
	case len(cb.Consents) > 0:
		x := cb.Consents[0]
		if st.Wrong != "" {
			r.bad("consent is asked for a request with a wrong %s", st.Wrong)
		}
		if len(cb.Consents) > 1 || x.Client != cl.ID || x.Req.ClientId != cl.ID {
			r.bad("consent is asked for %v on behalf of %q", x, cl.ID)
		}
		if !subset2(x.Req.Scope, st.Scope) {
			r.bad("consent is asked for scope %q, requested was %q", x.Req.Scope, st.Scope)
		}
		if rec.Touched() {
			r.bad("an answer was sent besides the screen: %s", renderRec(rec))
		}
		r.pend = append(r.pend, &ghostPending{cb: cb, who: who, req: st, ruri: ruri, scope: x.Req.Scope})
		r.res.class("consent asked")
	default:
		if st.Wrong == "redirect" {
			r.bad("something was sent to an address that is not the client's: %s", renderRec(rec))
			return
		}
		d := r.delivery(rec, ruri)
		if d == nil {
			return
		}
		if d.Get("error") != "" {
			r.res.class("authorize: error")
			r.nothing(d)
			return
		}
		g := r.grants[who]
		if g == nil || !g.active {
			r.bad("delivered %v without asking, though %v has granted nothing to %q", d.Params, us.Name, cl.ID)
			return
		}
		if st.Wrong != "" {
			r.bad("delivered %v for a request with a wrong %s", d.Params, st.Wrong)
		}
		asked := words(st.Scope)
		delete(asked, "offline_access") // ignored unless consent is asked for
		if !subset2(strings.Join(asked.list(), " "), g.scope) {
			r.bad("delivered %v for scope %q without asking, granted is %q", d.Params, st.Scope, g.scope)
		}
		r.res.class("delivered without asking")
		r.delivered(d, who, ruri, st)
	}
}

func (r *lifeRun) delivery(rec *world.Rec, ruri string) *world.Delivery {
	d, problems := world.ParseDelivery(rec, ruri)
	if d == nil || len(problems) > 0 {
		r.bad("bad delivery to %q: %v: %s", ruri, problems, renderRec(rec))
		return nil
	}
	return d
}

func (r *lifeRun) nothing(d *world.Delivery) {
	for _, k := range []string{"code", "access_token", "id_token", "refresh_token"} {
		if d.Params[k] != nil {
			r.bad("an error carries %s: %v", k, d.Params)
		}
	}
}

// delivered takes note of the credentials of a successful answer.
func (r *lifeRun) delivered(d *world.Delivery, who gKey, ruri string, st *LifeStep) {
	if s := d.Get("state"); s != st.State {
		r.bad("state is %q, sent was %q", s, st.State)
	}
	want := words(st.RT)
	if v := d.Get("code"); v != "" {
		x := r.give("code", v, who, int64(r.c.Policy.AuthSessionExpiresIn))
		x.ruri, x.verifier = ruri, st.Verifier
	} else if want["code"] {
		r.bad("no code in %v", d.Params)
	}
	if v := d.Get("access_token"); v != "" {
		r.give("at", v, who, r.c.Spec.AccessTTL)
	} else if want["token"] {
		r.bad("no access token in %v", d.Params)
	}
	if (d.Get("code") != "") != want["code"] || (d.Get("access_token") != "") != want["token"] || (d.Get("id_token") != "") != want["id_token"] {
		r.bad("response type %q gives %v", st.RT, d.Params)
	}
	if d.Params["refresh_token"] != nil {
		r.bad("a refresh token is delivered through the browser: %v", d.Params)
	}
	if sc := d.Get("scope"); sc != "" {
		if g := r.grants[who]; g != nil && !subset2(sc, g.scope) {
			r.bad("delivered scope %q exceeds the granted %q", sc, g.scope)
		}
	}
}

func (r *lifeRun) decide(st *LifeStep) {
	if len(r.pend) == 0 {
		return
	}
	k := len(r.pend) - 1 - st.Which%len(r.pend)
	p := r.pend[k]
	r.pend = append(r.pend[:k:k], r.pend[k+1:]...)
	cb := &world.Callbacks{W: r.w, CodePrefix: fmt.Sprintf("c%d", r.n), Login: p.cb.Login, Pending: p.cb.Pending}
	rec := world.NewRec()
	req := httpRequest("POST", "/decide", nil, decisionForm())
	if st.Cancel {
		r.ep.CancelRequest(rec, req, cb)
	} else {
		r.ep.CompleteRequest(rec, req, cb)
	}
	d := r.delivery(rec, p.ruri)
	if d == nil {
		return
	}
	if st.Cancel {
		r.res.class("cancelled")
		if d.Get("error") == "" {
			r.bad("cancelled, yet delivered %v", d.Params)
		}
		r.nothing(d)
		return
	}
	if d.Get("error") != "" {
		r.bad("approved, yet delivered %v", d.Params)
		r.nothing(d)
		return
	}
	r.grant(p.who, p.scope)
	r.res.class("approved")
	r.delivered(d, p.who, p.ruri, p.req)
}

func (r *lifeRun) assertion(cl *world.ClientSpec, sub string) string {
	r.jti++
	k := cl.AKeys[0]
	return JWTSpec{Alg: k.Alg, Key: k.Key, Kid: k.Kid, Claims: fmt.Sprintf(`{"iss":%s,"sub":%s,"aud":%s,"exp":%d,"jti":"j%d"}`,
		jsonString(cl.ID), jsonString(sub), jsonString(r.c.Spec.Issuer), r.w.Now+60, r.jti)}.build()
}

// tokenRequest makes one request to the token endpoint. must says whether it
// has to succeed ("yes"), has to be refused ("no") or neither (""), and then
// what follows.
func (r *lifeRun) tokenRequest(st *LifeStep) {
	var body []KV
	must, why := "yes", ""
	no := func(w string) {
		if must != "no" {
			must, why = "no", w
		}
	}
	either := func(w string) {
		if must == "yes" {
			must, why = "", w
		}
	}
	var cl *world.ClientSpec
	var who gKey
	var src *ghostCred
	byID := func(id string) *world.ClientSpec {
		for i := range r.c.Spec.Clients {
			if r.c.Spec.Clients[i].ID == id {
				return &r.c.Spec.Clients[i]
			}
		}
		return nil
	}
	other := func(c *world.ClientSpec) *world.ClientSpec {
		for i := range r.c.Spec.Clients {
			if r.c.Spec.Clients[i].ID != c.ID {
				return &r.c.Spec.Clients[i]
			}
		}
		return c
	}
	newScope := ""
	switch st.Op {
	case "redeem":
		if src = r.cred(st, "code"); src == nil {
			return
		}
		who = src.who
		cl = byID(who.client)
		if src.kind != "code" {
			no("not a code")
		}
		ruri := src.ruri
		if ruri == "" {
			ruri = cl.RedirectURIs[0]
		}
		if st.Wrong == "redirect" {
			no("redirect uri")
			ruri = cl.RedirectURIs[1]
			if ruri == src.ruri {
				ruri = cl.RedirectURIs[0]
			}
		}
		body = []KV{{"grant_type", "authorization_code"}, {"code", src.val}, {"redirect_uri", ruri}}
		v := src.verifier
		ch := v
		switch {
		case st.Wrong == "nopkce":
			ch = ""
			if v != "" {
				no("no PKCE proof")
			}
		case st.Wrong == "pkce":
			ch = v + "x"
			if v == "" {
				either("proof without commitment")
			} else {
				no("PKCE proof")
			}
		}
		if ch != "" {
			if st.PKCE == "S256" {
				h := sha256.Sum256([]byte(ch))
				ch = base64.RawURLEncoding.EncodeToString(h[:])
			}
			body = append(body, KV{"code_challenge", ch})
			if st.PKCE != "" {
				body = append(body, KV{"code_challenge_method", st.PKCE})
			} else {
				either("no challenge method")
			}
		}
	case "refresh":
		if src = r.cred(st, "rt"); src == nil {
			return
		}
		who = src.who
		cl = byID(who.client)
		if src.kind != "rt" {
			no("not a refresh token")
		}
		if g := r.grants[who]; g != nil && !words(g.scope)["offline_access"] {
			no("offline access is not granted")
		}
		body = []KV{{"grant_type", "refresh_token"}, {"refresh_token", src.val}}
	default:
		cl = r.client(st.Client)
		us := r.user(st.User)
		newScope = st.Scope
		switch st.Op {
		case "password":
			who = gKey{us.ID, cl.ID}
			pw := us.Password
			if st.Wrong == "password" {
				no("password")
				pw = r.user(st.User + 1).Password
			}
			body = []KV{{"grant_type", "password"}, {"username", us.Name}, {"password", pw}}
		case "cc":
			who = gKey{cl.Owner, cl.ID}
			body = []KV{{"grant_type", "client_credentials"}}
		case "jwt":
			who = gKey{us.ID, cl.ID}
			by := cl
			if st.Wrong == "assertion" {
				no("assertion of another client")
				by = other(cl)
			}
			body = []KV{{"grant_type", grant.TypeJWT}, {"assertion", r.assertion(by, us.Subject)}}
		}
		if st.Wrong == "scope" {
			newScope += " admin"
			no("scope")
		}
		if newScope != "" {
			body = append(body, KV{"scope", newScope})
		}
	}
	if src != nil {
		switch s, w := r.state(src); s {
		case "dead":
			no(w)
		case "either":
			either(w)
		}
	}
	as := cl
	if st.Wrong == "client" {
		as = other(cl)
		no("another client")
	}
	secret := as.Secret
	if st.Wrong == "secret" {
		secret = other(as).Secret
		no("client secret")
	}
	auth := ""
	switch {
	case st.Auth == "assertion" && st.Wrong != "secret":
		body = append(body, KV{"client_assertion_type", jwtBearer}, KV{"client_assertion", r.assertion(as, as.ID)})
	case st.Auth == "body" && r.c.Token.Accept >= 1:
		body = append(body, KV{"client_id", as.ID}, KV{"client_secret", secret})
	default:
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(url.QueryEscape(as.ID)+":"+url.QueryEscape(secret)))
	}
	req := httpRequest("POST", "/token", nil, body)
	if auth != "" {
		req.Header.Set("Authorization", auth)
	}
	rec := world.NewRec()
	r.token(rec, req)
	rep := parseTokenReply(rec)
	if rep.Code != 200 {
		if must == "yes" {
			r.bad("refused with %d %s, though nothing is wrong with it (%v)", rep.Code, q(rep.Body), body)
		}
		if rep.str("access_token") != "" || rep.str("refresh_token") != "" || rep.str("id_token") != "" {
			r.bad("a refusal carries tokens: %s", q(rep.Body))
		}
		r.res.class(st.Op + " refused: " + why)
		return
	}
	if must == "no" {
		r.bad("succeeded in spite of: %s (%v answered with %s)", why, body, q(rep.Body))
		return
	}
	r.res.class(st.Op + " succeeded")
	at := rep.str("access_token")
	if at == "" {
		r.bad("no access token in %s", q(rep.Body))
		return
	}
	switch st.Op {
	case "redeem":
		src.spent = true
	case "refresh":
		// what the host replaced may or may not keep working
		for _, k := range []string{"at", "rt"} {
			for _, x := range r.creds[k] {
				if k == "at" && x.src == src || k == "rt" && r.c.Spec.Rotate && x == src {
					x.old = true
				}
			}
		}
	default:
		r.grant(who, newScope)
	}
	a := r.give("at", at, who, r.c.Spec.AccessTTL)
	if v := rep.str("refresh_token"); v != "" {
		x := r.give("rt", v, who, r.c.Spec.RefreshTTL)
		a.src = x
		if x == src {
			x.old = false
		}
		if g := r.grants[who]; g != nil && !words(g.scope)["offline_access"] {
			r.bad("a refresh token without offline access: %s, granted is %q", q(rep.Body), g.scope)
		}
	} else if st.Op == "refresh" {
		a.src = src
	}
	if sc := rep.str("scope"); sc != "" {
		if g := r.grants[who]; !subset2(sc, g.scope) {
			r.bad("scope %q exceeds the granted %q", sc, g.scope)
		}
	}
}

func (r *lifeRun) access(st *LifeStep) {
	x := r.cred(st, "at")
	if x == nil {
		return
	}
	rs := &ResStep{Op: "access", Method: "GET", Path: "/api/x", Scoped: st.Need != ""}
	placed := true
	switch st.Place {
	case "body":
		rs.Method = "POST"
		rs.Body = []KV{{"access_token", x.val}}
		placed = r.c.Res.Accept >= 1
	case "query":
		rs.Query = []KV{{"access_token", x.val}}
		placed = r.c.Res.Accept >= 2
	default:
		rs.Auth = "Bearer " + x.val
	}
	if st.Need != "" {
		rs.Scopes = map[string][]string{"/api/x": strings.Fields(st.Need)}
	}
	if st.Spoof {
		rs.Headers = []KV{{"X-OAUTH-USER-ID", "1"}, {"X-OAUTH-CLIENT-ID", r.client(0).ID}, {"X-OAUTH-SCOPE", "admin"}}
	}
	req := rs.request()
	rec := world.NewRec()
	var ok bool
	if rs.Scoped {
		ok = r.rp.ValidateWithScopes(rec, req, world.DI{World: r.w}, rs.Scopes)
	} else {
		ok = r.rp.Validate(rec, req, world.DI{World: r.w})
	}
	state, why := r.state(x)
	if x.kind != "at" {
		state, why = "dead", "not an access token"
	}
	g := r.grants[x.who]
	if state == "live" && placed {
		for _, y := range r.grants {
			if y != g && y.active {
				r.res.class("others hold grants")
			}
		}
		r.live++
	}
	if !ok {
		r.res.class("access refused: " + why)
		if state == "live" && placed && subset2(st.Need, g.scope) {
			r.bad("a live token of %v is refused (%s), granted %q, required %q", x.who, renderRec(rec), g.scope, st.Need)
		}
		if rec.Code < 400 {
			r.bad("refused without saying so: %s", renderRec(rec))
		}
		return
	}
	if state == "dead" || !placed {
		if !placed {
			why = "token where none is accepted"
		}
		r.bad("access is allowed in spite of: %s (%s of %v issued at %d for %d s)", why, x.kind, x.who, x.issued, x.ttl)
		return
	}
	r.res.class("access allowed")
	one := func(k, v string) {
		if got := req.Header[http.CanonicalHeaderKey(k)]; !(len(got) == 1 && got[0] == v || len(got) == 0 && v == "") {
			r.bad("%s is %q for a token of %v with scope %q", k, got, x.who, g.scope)
		}
	}
	one("X-OAUTH-USER-ID", fmt.Sprint(x.who.user))
	one("X-OAUTH-CLIENT-ID", x.who.client)
	if sc := strings.Join(req.Header[http.CanonicalHeaderKey("X-OAUTH-SCOPE")], " "); !sameWords(sc, g.scope) {
		r.bad("X-OAUTH-SCOPE is %q, granted is %q", sc, g.scope)
	}
	if !subset2(st.Need, g.scope) {
		r.bad("scope %q is required, granted is only %q", st.Need, g.scope)
	}
}

// ---- generation

var lifeScopes = []string{"openid", "email", "read", "write", "offline_access", "openid read", "openid offline_access read", "read write offline_access", "email openid profile", "openid email read write offline_access", "mail", "read email"}

func genLife(t *rapid.T) interface{} {
	c := &LifeCase{Policy: genPolicy(t, &authzProfile{}), Fresh: chance(t, 50)}
	c.Policy.MaxCodeVerifierLength, c.Policy.MaxNonceLength = 255, 255
	c.Policy.AuthSessionExpiresIn = pick(t, 60, 600, 5)
	s := genSpec(t, specOpts{weirdURIs: 0, idAlg: []string{"HS256", "RS256", "ES256"}})
	for i := range s.Clients {
		x := &s.Clients[i]
		x.Flows, x.Grants = allFlows, allGrants
		x.Scopes = map[string][]string{}
		for _, f := range []string{"authorization_code", "implicit", "hybrid", "direct_grant"} {
			x.Scopes[f] = scopePool
		}
		x.Secret = fmt.Sprintf("sec ret+%d", i)
		x.Owner = s.Users[u(t, len(s.Users))].ID
		x.AKeys = []world.AssertionKey{{Alg: "HS256", Kid: "", Key: fmt.Sprintf("hk-ca%d", i)}}
		x.NoConsent = pick(t, 1, 1, 0)
		x.None = pick(t, 1, 2, 3)
	}
	s.AccessTTL, s.RefreshTTL = int64(pick(t, 100, 1000)), int64(pick(t, 300, 5000))
	if chance(t, 15) {
		s.AccessTTL, s.RefreshTTL = 5000, 100
	}
	c.Spec = s
	c.Token = TokenCfg{Realm: "op", Accept: pick(t, 0, 1, 2), Assertion: true, Support: allGrants}
	c.Res = ResCfg{Realm: "api", Accept: pick(t, 0, 1, 2)}
	n := 8 + u(t, 18)
	for i := 0; i < n; i++ {
		c.Steps = append(c.Steps, genLifeStep(t, c, i)...)
	}
	return c
}

func genLifeStep(t *rapid.T, c *LifeCase, i int) []LifeStep {
	wrong := func(l ...string) string {
		if chance(t, 20) {
			return pick(t, l...)
		}
		return ""
	}
	near := func() int { return []int{0, 0, 0, 1, 1, 2, 3, 5}[u(t, 8)] }
	foreign := func(l ...string) string {
		if chance(t, 8) {
			return pick(t, l...)
		}
		return ""
	}
	st := LifeStep{User: u(t, 2), Client: u(t, len(c.Spec.Clients))}
	ops := []interface{}{24, "authorize", 20, "redeem", 12, "refresh", 25, "access", 7, "revoke", 9, "advance", 5, "password", 3, "cc", 4, "jwt", 4, "decide"}
	st.Op = wpick(t, ops...)
	if i < 2 {
		st.Op = "authorize"
	}
	st.Auth = pick(t, "basic", "basic", "body", "assertion")
	switch st.Op {
	case "authorize":
		st.RT = pick(t, "code", "code", "code", "token", "id_token token", "code token", "code id_token", "id_token", "code id_token token")
		st.Scope = pick(t, lifeScopes...)
		if strings.Contains(st.RT, "id_token") {
			st.Scope = "openid " + strings.TrimPrefix(st.Scope, "openid")
			st.Scope = strings.Join(strings.Fields(st.Scope), " ")
		}
		st.Prompt = pick(t, "", "consent", "consent", "none", "login", "login consent")
		if strings.Contains(st.Scope, "offline_access") && chance(t, 80) {
			st.Prompt = "consent"
		}
		st.Redir = u(t, 4)
		if chance(t, 30) {
			st.Mode = pick(t, "query", "fragment", "form_post")
		}
		if chance(t, 50) {
			st.Verifier = pick(t, "verifier-verifier-verifier-verifier-verifier", "w", strings.Repeat("z~", 60))
		}
		if i > 2 && chance(t, 35) { // the same again, preferably without asking
			for j := len(c.Steps) - 1; j >= 0; j-- {
				if o := c.Steps[j]; o.Op == "authorize" && o.Wrong == "" && chance(t, 60) {
					st.User, st.Client, st.Scope, st.RT = o.User, o.Client, o.Scope, o.RT
					st.Prompt = pick(t, "", "none", "", "login")
					if chance(t, 30) {
						st.User++
					}
					break
				}
			}
		}
		st.State = pick(t, "", "s1", "a b&c=d#e")
		st.Wrong = foreign("redirect", "scope")
		out := []LifeStep{st}
		if chance(t, 85) {
			if chance(t, 15) {
				out = append(out, LifeStep{Op: "advance", N: int64(1 + u(t, 50))})
			}
			out = append(out, LifeStep{Op: "decide", Cancel: chance(t, 15), Which: []int{0, 0, 0, 0, 1}[u(t, 5)]})
		}
		return out
	case "decide":
		st.Cancel, st.Which = chance(t, 30), near()
	case "redeem":
		st.Which = near()
		st.Wrong = wrong("client", "redirect", "pkce", "nopkce", "secret")
		st.PKCE = pick(t, "S256", "plain", "S256", "plain", "")
		st.Kind = foreign("at", "rt")
	case "refresh":
		st.Which = near()
		st.Wrong = wrong("client", "secret")
		st.Kind = foreign("at", "code")
	case "password":
		st.Scope = pick(t, append(lifeScopes, "")...)
		st.Wrong = wrong("password", "scope", "secret")
	case "cc":
		st.Scope = pick(t, append(lifeScopes, "")...)
		st.Wrong = wrong("scope", "secret")
	case "jwt":
		st.Scope = pick(t, append(lifeScopes, "")...)
		st.Wrong = wrong("scope", "assertion", "secret")
	case "access":
		st.Which = near()
		st.Place = pick(t, "header", "header", "body", "query")
		if chance(t, 50) {
			st.Need = pick(t, "read", "openid", "email", "write", "read write", "mail", "offline_access", "openid email")
		}
		st.Spoof = chance(t, 30)
		st.Kind = foreign("rt", "code")
	case "advance":
		a, b, k := c.Spec.AccessTTL, c.Spec.RefreshTTL, int64(c.Policy.AuthSessionExpiresIn)
		st.N = pick(t, 1, k, k+1, k-1, a/2, a, a+1, b/2, b+1, int64(c.Policy.ConsentOmissionPeriod))
	case "revoke":
		if chance(t, 75) {
			st.Kind, st.Which = pick(t, "at", "code", "rt"), near()
			out := []LifeStep{st}
			if chance(t, 80) {
				use := LifeStep{Op: map[string]string{"at": "access", "code": "redeem", "rt": "refresh"}[st.Kind], Which: st.Which, PKCE: "S256"}
				out = append(out, use)
			}
			return out
		}
	}
	return []LifeStep{st}
}

func init() {
	register(&Prop{
		ID: "X05", Level: "exploration", Quick: 8000, Thorough: 400000,
		Rule: "Histories of 8 to 40 authorization requests, decisions, redemptions, refreshes, direct grants, accesses, revocations and clock steps by several users and clients on one set of endpoint objects, starting with no grants; every outcome is compared with a ghost record of what was granted to whom and delivered to whom. Non-trivial: access with a token obtained in the history was allowed, and a credential of the history was refused because of revocation, expiry, earlier use or its owner.",
		Gen:  genLife,
		New:  func() interface{} { return &LifeCase{} },
		Check: func(c interface{}) *Result {
			res := runLife(c.(*LifeCase))
			var ok, ref bool
			for _, k := range res.Classes {
				ok = ok || k == "access allowed"
				for _, w := range []string{"revoked", "expired", "spent", "another client"} {
					ref = ref || strings.HasSuffix(k, "refused: "+w)
				}
			}
			res.NonTrivial = ok && ref
			return res
		},
	})
}
