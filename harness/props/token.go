package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"verif/world"
)

// TokenCfg configures a token endpoint.
type TokenCfg struct {
	Realm     string
	Accept    int // 0 header, 1 header and body, 2 all
	Assertion bool
	Support   []string
	ErrorURI  string `json:",omitempty"`
	PerType   bool   `json:",omitempty"` // error URI built per error type
	Twice     bool   `json:",omitempty"` // configured otherwise first
}

// TokenStep is one step of a history against the token endpoint.
type TokenStep struct {
	Op     string      // token, advance, host, race
	Method string      `json:",omitempty"`
	Query  []KV        `json:",omitempty"`
	Body   []KV        `json:",omitempty"`
	Dup    []KV        `json:",omitempty"` // parameters sent a second time
	DupAt  int         `json:",omitempty"` // 0, 1: end, start of the query; 2, 3: of the body
	Auth   string      `json:",omitempty"` // Authorization header
	Hdr    []KV        `json:",omitempty"` // headers without a meaning here
	JWTs   []JWTSpec   `json:",omitempty"`
	N      int64       `json:",omitempty"`
	Host   string      `json:",omitempty"`
	Arg    string      `json:",omitempty"`
	Arg2   string      `json:",omitempty"`
	Race   []TokenStep `json:",omitempty"`
	Sched  []int       `json:",omitempty"`
	Note   string      `json:",omitempty"`
}

type TokenCase struct {
	Live  int `json:",omitempty"` // instead of the rest, see live.go
	Spec  world.Spec
	Cfg   TokenCfg
	Steps []TokenStep
}

func grantHandler(name string) *grant.GrantHandler {
	switch name {
	case "authorization_code":
		return grant.AuthorizationCode()
	case "client_credentials":
		return grant.ClientCredentials()
	case "password":
		return grant.Password()
	case "refresh_token":
		return grant.RefreshToken()
	}
	return grant.JWT()
}

// acceptance names the ways to accept credentials.
var acceptance = [3]goidc.CredentialAcceptanceMethod{goidc.FromHeader, goidc.FromHeaderAndPostBody, goidc.FromAll}

func newTokenEndpoint(cfg *TokenCfg, w *world.World) (*goidc.TokenEndpoint, http.HandlerFunc) {
	te := goidc.NewTokenEndpoint(cfg.Realm)
	if liveNow == 0 {
		te.SetLogger(nopLogger{})
		te.SetTimeBuilder(w.Clock)
		setClock(w)
	}
	if cfg.Twice { // what is set last counts
		te.AcceptClientSecret(acceptance[2-cfg.Accept])
		te.AcceptClientSecret(acceptance[cfg.Accept])
		te.AcceptClientAssertion(!cfg.Assertion)
		te.AcceptClientAssertion(cfg.Assertion)
		if cfg.ErrorURI != "" {
			te.SetErrorURI("https://old.example/errors")
		}
	}
	// the defaults are header only and no assertions
	if cfg.Accept != 0 {
		te.AcceptClientSecret(acceptance[cfg.Accept])
	}
	if cfg.Assertion {
		te.AcceptClientAssertion(true)
	}
	for _, g := range cfg.Support {
		te.Support(grantHandler(g))
	}
	if cfg.ErrorURI != "" {
		if cfg.PerType {
			te.SetErrorURIBuilder(func(t oer.OAuthErrorType) string { return cfg.ErrorURI + t.String() })
		} else {
			te.SetErrorURI(cfg.ErrorURI)
		}
	}
	h := te.Handler(world.DI{World: w})
	te.Handler(world.DI{World: world.New(world.Spec{Issuer: "https://twin.example"})}) // of another host
	twinToken(cfg.Accept, cfg.Assertion)
	return te, h
}

func (st *TokenStep) request() *http.Request {
	r := httpRequest(st.Method, "/token", resolveJWTs(st.Query, st.JWTs), resolveJWTs(st.Body, st.JWTs))
	if st.Auth != "" {
		r.Header.Set("Authorization", st.Auth)
	}
	for _, h := range st.Hdr {
		r.Header.Add(h.K, h.V)
	}
	return maybeParsed(r)
}

// ---- model

// cand is one reading of who makes the request and what follows from it.
type cand struct {
	client  *world.Client
	via     string // header, body, assertion, none
	codes   set
	reasons []string
	either  bool // may also be refused, for a reason left open
	want    tokenWant
}

func (c *cand) deny(reason string, codes ...string) {
	c.codes.add(codes...)
	c.reasons = append(c.reasons, reason)
}

func (c *cand) open(codes ...string) {
	c.either = true
	c.codes.add(codes...)
}

type tokenWant struct {
	grant   string
	uid     int64
	scope   string
	sess    *world.Session
	info    *world.Info
	old     *world.Token
	records []wantRecord // assertions handed to the host
	badKey  bool         // ID token cannot be signed
}

type wantRecord struct {
	client, jti string
	iat, exp    int64
	hasIat      bool
}

type tokenExpect struct {
	cands     []*cand
	badMethod bool
}

func (e *tokenExpect) mustRefuse() bool {
	for _, c := range e.cands {
		if len(c.reasons) == 0 {
			return false
		}
	}
	return true
}

func (e *tokenExpect) mustSucceed() bool {
	for _, c := range e.cands {
		if len(c.reasons) > 0 || c.either {
			return false
		}
	}
	return len(e.cands) > 0
}

func (e *tokenExpect) codes() set {
	s := set{}
	for _, c := range e.cands {
		s.add(c.codes.list()...)
	}
	return s
}

func (e *tokenExpect) reasons() []string {
	s := set{}
	for _, c := range e.cands {
		s.add(c.reasons...)
	}
	return s.list()
}

func (e *tokenExpect) String() string {
	if e.badMethod {
		return "405"
	}
	var p []string
	for _, c := range e.cands {
		id := "?"
		if c.client != nil {
			id = c.client.ID
		}
		switch {
		case len(c.reasons) == 0 && c.either:
			p = append(p, fmt.Sprintf("tokens for %q, or one of %v", id, c.codes))
		case len(c.reasons) == 0:
			p = append(p, fmt.Sprintf("tokens for %q", id))
		default:
			p = append(p, fmt.Sprintf("one of %v because of %v", c.codes, c.reasons))
		}
	}
	return strings.Join(p, " / ")
}

// basicCredential reads a Basic header: "ok", "malformed" or "absent".
func basicCredential(h string) (id, sec, state string) {
	if h == "" {
		return "", "", "absent"
	}
	scheme, rest, found := strings.Cut(h, " ")
	if !strings.EqualFold(scheme, "basic") {
		return "", "", "absent"
	}
	if !found {
		return "", "", "malformed"
	}
	b, err := base64.StdEncoding.Strict().DecodeString(rest)
	if err != nil {
		return "", "", "malformed"
	}
	a, c, found := strings.Cut(string(b), ":")
	if !found {
		return "", "", "malformed"
	}
	id, e1 := url.QueryUnescape(a)
	sec, e2 := url.QueryUnescape(c)
	if e1 != nil || e2 != nil {
		return "", "", "malformed"
	}
	return id, sec, "ok"
}

func kvGet(kv []KV, k string) string {
	for _, x := range kv {
		if x.K == k {
			return x.V
		}
	}
	return ""
}

var assertionCodes = []string{"invalid_client", "invalid_grant", "invalid_request"}

const jwtBearer = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"

// modelTokenRequest computes what may happen to a token request.
func modelTokenRequest(w *world.World, cfg *TokenCfg, st *TokenStep) *tokenExpect {
	e := &tokenExpect{}
	if st.Method != "" && st.Method != "POST" {
		e.badMethod = true
		return e
	}
	query, body := resolveJWTs(st.Query, st.JWTs), resolveJWTs(st.Body, st.JWTs)
	get := func(k string) string { return formValue("POST", query, body, k) }
	gt := get("grant_type")
	gtCodes := set{}
	gtReason := ""
	switch {
	case gt == "":
		gtCodes.add("invalid_request")
		gtReason = "grant-missing"
	case !hasStr(cfg.Support, gt):
		gtCodes.add("unsupported_grant_type")
		gtReason = "grant-unsupported"
	}
	var auths []*cand
	bySecret := func(id, sec, via string) *cand {
		c := &cand{via: via, codes: set{}}
		cl := w.Clients[id]
		if cl == nil || cl.Secret != sec {
			c.deny("secret", "invalid_client")
			return c
		}
		c.client = cl
		return c
	}
	primary := func() *cand {
		if len(auths) == 0 {
			return nil
		}
		return auths[0]
	}
	bad := func() bool { return primary() == nil || len(primary().reasons) > 0 }
	id, sec, state := basicCredential(st.Auth)
	switch state {
	case "ok":
		auths = append(auths, bySecret(id, sec, "header"))
	case "malformed":
		c := &cand{via: "header", codes: set{}}
		c.deny("secret", "invalid_client")
		auths = append(auths, c)
	}
	var bid, bsec string
	mixed := false
	switch cfg.Accept {
	case 1:
		bid, bsec = kvGet(body, "client_id"), kvGet(body, "client_secret")
	case 2:
		bid, bsec = get("client_id"), get("client_secret")
		mixed = (kvGet(body, "client_id") == "") != (kvGet(body, "client_secret") == "")
	}
	if bid != "" && bsec != "" && bad() {
		c := bySecret(bid, bsec, "body")
		if mixed && len(c.reasons) == 0 {
			c.open("invalid_client", "invalid_request")
		}
		auths = append(auths, c)
	}
	ca, cat := get("client_assertion"), get("client_assertion_type")
	assertionSeen := ca != "" || cat != ""
	if cfg.Assertion && ca != "" && cat == jwtBearer && bad() {
		c := &cand{via: "assertion", codes: set{}}
		s := judgeAssertion(w, ca, func(sub string) *world.Client { return w.Clients[sub] }, "", nil)
		c.client = s.client
		switch s.state {
		case "no":
			for _, r := range s.reasons {
				c.deny(r, assertionCodes...)
				if r == "assertion-issuer" {
					c.deny(r, "server_error")
				}
			}
		case "either":
			c.open(assertionCodes...)
		}
		c.want.records = append(c.want.records, s.rec)
		auths = append(auths, c)
	}
	if cl := w.Clients[bid]; bid != "" && bsec == "" && cl != nil && cl.Secret == "" && cfg.Accept != 0 && bad() {
		// whether an absent secret counts as the empty one
		c := bySecret(bid, bsec, "body")
		c.open("invalid_client", "invalid_request")
		auths = append(auths, c)
	}
	if len(auths) == 0 {
		c := &cand{via: "none", codes: set{}}
		r := "no-credential"
		if assertionSeen {
			r = "assertion-off"
			c.codes.add(assertionCodes...)
		}
		c.deny(r, "invalid_client")
		auths = append(auths, c)
	}
	for _, c := range auths {
		if gtReason != "" {
			if len(c.reasons) == 0 && !c.either {
				c.codes = set{}
			}
			c.deny(gtReason, gtCodes.list()...)
			continue
		}
		if len(c.reasons) == 0 {
			if !hasStr(c.client.Grants, gt) {
				if !c.either {
					c.codes = set{}
				}
				c.deny("grant-forbidden", "unauthorized_client")
			} else {
				modelGrant(w, c, gt, get)
			}
		}
	}
	e.cands = auths
	return e
}

func modelGrant(w *world.World, c *cand, gt string, get func(string) string) {
	cl := c.client
	now := w.Now
	c.want.grant = gt
	scope := func() {
		c.want.scope = get("scope")
		if !cl.ScopeOK("direct_grant", c.want.scope) {
			c.deny("scope", "invalid_scope")
		}
	}
	switch gt {
	case "authorization_code":
		uri, code := get("redirect_uri"), get("code")
		if uri == "" {
			c.deny("redirect-missing", "invalid_request")
		}
		if code == "" {
			c.deny("code-missing", "invalid_request")
			return
		}
		w.Mu.Lock()
		s := w.Sessions[code]
		var info *world.Info
		if s != nil {
			cp := *s
			s = &cp
			if i := w.Infos[s.Info]; i != nil {
				ci := *i
				info = &ci
			}
		}
		w.Mu.Unlock()
		if s == nil {
			c.deny("code-unknown", "invalid_grant")
			return
		}
		c.want.sess, c.want.info = s, info
		if s.Disabled {
			c.deny("code-used", "invalid_grant")
		}
		if now > s.CreatedAt+s.ExpiresIn {
			c.deny("code-expired", "invalid_grant")
		}
		if info == nil || !info.Active {
			c.deny("code-inactive", "invalid_grant")
		}
		if info != nil && info.Client != cl.ID {
			c.deny("code-client", "invalid_grant")
		}
		if uri != "" && uri != s.RedirectURI {
			c.deny("redirect-mismatch", "invalid_grant")
		}
		if s.CodeVerifier != "" {
			m, ch := get("code_challenge_method"), get("code_challenge")
			want := ""
			switch m {
			case "plain":
				want = s.CodeVerifier
			case "S256":
				want = s256(s.CodeVerifier)
			}
			if ch == "" || want == "" || ch != want {
				c.deny("pkce", "invalid_request", "invalid_grant")
			}
		}
		if info != nil && words(info.Scope)["openid"] {
			c.want.badKey = !usableKey(cl)
		}
	case "refresh_token":
		rt := get("refresh_token")
		if rt == "" {
			c.deny("refresh-missing", "invalid_request")
			return
		}
		t := w.TokenByRefresh(rt)
		if t == nil {
			c.deny("refresh-unknown", "invalid_grant")
			return
		}
		w.Mu.Lock()
		var info *world.Info
		if i := w.Infos[t.Info]; i != nil {
			ci := *i
			info = &ci
		}
		w.Mu.Unlock()
		c.want.old, c.want.info = t, info
		if now > t.CreatedAt+t.RefreshExp {
			c.deny("refresh-expired", "invalid_grant")
		}
		if info == nil || !info.Active {
			c.deny("refresh-inactive", "invalid_grant")
			return
		}
		if info.Client != cl.ID {
			c.deny("refresh-client", "invalid_grant")
		}
		if !words(info.Scope)["offline_access"] {
			c.deny("refresh-offline", "invalid_grant")
		}
	case "password":
		n, p := get("username"), get("password")
		if n == "" {
			c.deny("username-missing", "invalid_request")
		}
		if p == "" {
			c.deny("password-missing", "invalid_request")
		}
		scope()
		if n != "" && p != "" {
			found := false
			for _, x := range w.Spec().Users {
				if !found && x.Name == n && x.Password == p {
					found = true
					c.want.uid = x.ID
				}
			}
			if !found {
				c.deny("user", "invalid_grant")
			}
		}
	case "client_credentials":
		c.want.uid = cl.Owner
		if cl.Owner < 0 {
			c.deny("owner", "invalid_grant")
		}
		scope()
	default: // JWT
		scope()
		a := get("assertion")
		if a == "" {
			c.deny("assertion-missing", "invalid_request")
			return
		}
		var also []wantRecord
		also = append(also, c.want.records...)
		s := judgeAssertion(w, a, nil, cl.ID, also)
		c.want.records = append(c.want.records, s.rec)
		switch s.state {
		case "no":
			for _, r := range s.reasons {
				if r == "assertion-sub" {
					r = "user"
				}
				c.deny(r, assertionCodes...)
				if r == "assertion-issuer" {
					c.deny(r, "server_error")
				}
			}
			return
		case "either":
			c.open(assertionCodes...)
		}
		c.want.uid = s.uid
	}
}

func usableKey(cl *world.Client) bool {
	if len(cl.IDAlg) != 5 {
		return false
	}
	_, err := world.SignJWT(map[string]interface{}{"alg": cl.IDAlg}, []byte("{}"), cl.IDAlg, world.Key(cl.IDKey))
	return err == nil
}

type assertionVerdict struct {
	state   string // yes, no, either
	reasons []string
	client  *world.Client
	uid     int64
	rec     wantRecord
}

// judgeAssertion decides whether an assertion is acceptable: as a client
// assertion when find is given, as a grant of client id otherwise. also lists
// assertions recorded earlier in the same request.
func judgeAssertion(w *world.World, a string, find func(string) *world.Client, id string, also []wantRecord) assertionVerdict {
	v := assertionVerdict{state: "yes", uid: -1}
	no := func(r string) { v.state = "no"; v.reasons = append(v.reasons, r) }
	either := func() {
		if v.state == "yes" {
			v.state = "either"
		}
	}
	p, err := world.ParseJWT(a)
	if err != nil {
		no("assertion-malformed")
		return v
	}
	sub, subOK := p.Claims["sub"].(string)
	var cl *world.Client
	if find != nil {
		if !subOK {
			no("assertion-sub")
			return v
		}
		if cl = find(sub); cl == nil {
			no("assertion-sub")
			return v
		}
		v.client = cl
	} else {
		cl = w.Clients[id]
		found := false
		if subOK {
			for _, x := range w.Spec().Users {
				if x.Subject == sub {
					found = true
					v.uid = x.ID
				}
			}
		}
		if !found {
			no("assertion-sub")
		}
	}
	alg, _ := p.Header["alg"].(string)
	kid, hasKid := p.Header["kid"]
	ks, kidStr := kid.(string)
	if hasKid && !kidStr {
		either()
	}
	key := ""
	for _, k := range cl.AKeys {
		if k.Alg == alg && k.Kid == ks {
			key = k.Key
			break
		}
	}
	if key == "" || p.Verify(alg, world.PublicKey(key)) != nil {
		no("assertion-signature")
		return v
	}
	num := func(k string) (int64, string) {
		x, ok := p.Claims[k]
		if !ok {
			return 0, "absent"
		}
		n, ok := x.(json.Number)
		if !ok {
			return 0, "bad"
		}
		if i, err := n.Int64(); err == nil {
			return i, "ok"
		}
		return 0, "odd"
	}
	exp, s := num("exp")
	switch {
	case s == "absent" || s == "bad":
		no("assertion-exp")
	case s == "odd":
		either()
	case w.Now > exp:
		no("assertion-exp")
	case w.Now == exp || exp > 1<<50:
		either()
	}
	nbf, s := num("nbf")
	switch {
	case s == "bad" || s == "odd":
		either()
	case s == "ok" && nbf > w.Now:
		no("assertion-nbf")
	}
	iat, s := num("iat")
	switch {
	case s == "bad" || s == "odd":
		either()
	case s == "ok" && iat > w.Now:
		either()
	}
	if w.Issuer == "" { // a provider without a name is nobody's audience
		no("assertion-issuer")
	}
	switch aud := p.Claims["aud"].(type) {
	case string:
		if aud != w.Issuer {
			no("assertion-aud")
		}
	case []interface{}:
		in := false
		for _, x := range aud {
			if x == w.Issuer {
				in = true
			}
		}
		if in {
			either()
		} else {
			no("assertion-aud")
		}
	default:
		no("assertion-aud")
	}
	jti, jok := p.Claims["jti"].(string)
	if _, has := p.Claims["jti"]; has && !jok {
		either()
	}
	known := int64(-1)
	if s == "ok" {
		known = iat
	}
	if s == "bad" || s == "odd" {
		known = 0 // not judged
	}
	if !w.AssertionFresh(cl.ID, jti, known, exp) {
		no("assertion-replay")
	}
	for _, r := range also {
		if r.client == cl.ID && r.jti == jti && jti != "" {
			no("assertion-replay")
		}
	}
	if iss, has := p.Claims["iss"]; !has || iss != cl.ID {
		either()
	}
	v.rec = wantRecord{cl.ID, jti, iat, exp, s == "ok"}
	return v
}

// ---- execution

var tokenReasonTags = map[string][]string{
	"secret":              {"T01"},
	"no-credential":       {"T01"},
	"assertion-off":       {"T02"},
	"assertion-malformed": {"T02"},
	"assertion-signature": {"T02"},
	"assertion-sub":       {"T02"},
	"assertion-exp":       {"T09"},
	"assertion-nbf":       {"T09"},
	"assertion-aud":       {"T09"},
	"assertion-issuer":    {"T09"},
	"assertion-replay":    {"T09"},
	"grant-missing":       {"T03"},
	"grant-unsupported":   {"T03"},
	"grant-forbidden":     {"T03"},
	"redirect-missing":    {"T04"},
	"code-missing":        {"T04"},
	"code-unknown":        {"T04"},
	"code-used":           {"T06"},
	"code-expired":        {"T04"},
	"code-inactive":       {"T04"},
	"code-client":         {"T04"},
	"redirect-mismatch":   {"T04"},
	"pkce":                {"T05"},
	"refresh-missing":     {"T07"},
	"refresh-unknown":     {"T07"},
	"refresh-expired":     {"T07"},
	"refresh-inactive":    {"T07"},
	"refresh-client":      {"T07"},
	"refresh-offline":     {"T07"},
	"username-missing":    {"T08"},
	"password-missing":    {"T08"},
	"user":                {"T08"},
	"owner":               {"T08"},
	"scope":               {"T08"},
	"assertion-missing":   {"T08"},
}

func tokenTags(reasons []string) []string {
	var t []string
	for _, r := range reasons {
		t = append(t, tokenReasonTags[r]...)
	}
	return t
}

func grantTags(c *cand) []string {
	switch c.want.grant {
	case "authorization_code":
		t := []string{"T04"}
		if c.want.sess != nil && c.want.sess.CodeVerifier != "" {
			t = append(t, "T05")
		}
		return t
	case "refresh_token":
		return []string{"T07"}
	}
	return []string{"T08"}
}

type TokenRun struct {
	W     *world.World
	TE    *goidc.TokenEndpoint
	H     http.HandlerFunc
	Cfg   *TokenCfg
	F     *findings
	Res   *Result
	nStep int
	tried map[string]bool // codes presented in refused requests
	// Outcomes of the token steps: "200", "refused", ...
	Outcomes []string
	Expected []*tokenExpect
	Replies  []*tokenReply
}

func newTokenRun(spec world.Spec, cfg *TokenCfg, f *findings, res *Result) *TokenRun {
	w := world.New(spec)
	te, h := newTokenEndpoint(cfg, w)
	return &TokenRun{W: w, TE: te, H: h, Cfg: cfg, F: f, Res: res, tried: map[string]bool{}}
}

func (r *TokenRun) Step(st *TokenStep) {
	r.nStep++
	r.Outcomes = append(r.Outcomes, "")
	r.Expected = append(r.Expected, nil)
	r.Replies = append(r.Replies, nil)
	switch st.Op {
	case "advance":
		r.W.Mu.Lock()
		r.W.Now += st.N
		r.W.Mu.Unlock()
	case "host":
		hostChange(r.W, st.Host, st.Arg, st.Arg2)
	case "token":
		r.token(st)
	case "race":
		r.race(st)
	}
}

// tokenReply is a parsed token response.
type tokenReply struct {
	Code   int
	Header http.Header
	Body   string
	Obj    map[string]interface{}
	JSONOK bool
}

func (t *tokenReply) str(k string) string { s, _ := t.Obj[k].(string); return s }

func parseTokenReply(rec *world.Rec) *tokenReply {
	t := &tokenReply{Code: rec.Code, Header: rec.Head(), Body: rec.Body.String()}
	d := json.NewDecoder(strings.NewReader(t.Body))
	d.UseNumber()
	if d.Decode(&t.Obj) == nil && !d.More() && t.Obj != nil {
		t.JSONOK = true
	}
	return t
}

func (r *TokenRun) token(st *TokenStep) {
	e := modelTokenRequest(r.W, r.Cfg, st)
	rec := world.NewRec()
	req := st.request()
	var ways []*tokenExpect
	if dup := st.dups(); len(dup) > 0 && !e.badMethod {
		sent := *st
		sent.Query, sent.Body = withDup(st.Query, st.Body, dup, st.DupAt)
		req = sent.request()
		for _, x := range readings(st.Query, st.Body, dup, st.DupAt) {
			read := *st
			read.Query, read.Body = x[0], x[1]
			ways = append(ways, modelTokenRequest(r.W, r.Cfg, &read))
		}
	}
	n := r.W.LogLen()
	nrec := len(r.W.Records)
	before := snapshotInfos(r.W)
	p := guard(func() { r.H(rec, req) })
	calls := r.W.Since(n)
	say := func(f string, a ...interface{}) string {
		return fmt.Sprintf("step %d (token): ", r.nStep) + fmt.Sprintf(f, a...)
	}
	if p != "" {
		anyProp(r.F, say("%s", p))
		return
	}
	rep := parseTokenReply(rec)
	if ways != nil {
		e = r.judgeDup(say, st, ways, rep, calls, before, r.W.Records[nrec:])
	} else {
		r.judge(say, st, e, rep, calls, before, r.W.Records[nrec:])
	}
	i := len(r.Outcomes) - 1
	r.Expected[i] = e
	r.Replies[i] = rep
	if rep.Code == 200 {
		r.Outcomes[i] = "200"
	} else {
		r.Outcomes[i] = "refused"
		if c := formValue("POST", st.Query, st.Body, "code"); c != "" && e != nil && len(e.cands) > 0 && !e.mustSucceed() {
			r.tried[c] = true
		}
	}
}

// dups are the repeated parameters of the request that are in it at all.
func (st *TokenStep) dups() []KV {
	var out []KV
	for _, x := range st.Dup {
		if hasKV(st.Query, x.K) || hasKV(st.Body, x.K) {
			out = append(out, x)
		}
	}
	return out
}

// judgeDup examines the answer to a request with repeated parameters: it must
// be right for one consistent reading of the request, or refuse it. It returns
// that reading.
func (r *TokenRun) judgeDup(say func(string, ...interface{}) string, st *TokenStep, ways []*tokenExpect, rep *tokenReply, calls []world.Call, before map[int64]world.InfoSpec, recs []world.Record) *tokenExpect {
	r.Res.class("repeated parameters")
	var first *findings
	for i, e := range ways {
		try := *r
		try.F, try.Res = &findings{}, &Result{}
		try.judge(say, st, e, rep, calls, before, recs)
		if len(try.F.l) == 0 {
			r.Res.class(try.Res.Classes...)
			r.Res.Known = append(r.Res.Known, try.Res.Known...)
			return e
		}
		if i == 0 {
			first = try.F
		}
	}
	if code := rep.str("error"); rep.Code >= 400 && code != "" && code != "server_error" && len(writeCalls(calls)) == 0 && fmt.Sprint(snapshotInfos(r.W)) == fmt.Sprint(before) {
		if n := len(r.F.l); code == "invalid_request" || code == "invalid_client" || code == "invalid_grant" {
			checkTokenRendering(r.F, r.Cfg, say, rep)
			if len(r.F.l) == n {
				r.Res.class("repeated parameters: refused")
			}
			return nil
		}
	}
	for _, x := range first.l {
		x.msg += fmt.Sprintf(" (sent twice: %v; no reading of the request explains the answer)", st.Dup)
		r.F.l = append(r.F.l, x)
	}
	if rep.Code == 200 {
		var tags []string
		for _, e := range ways {
			tags = append(tags, tokenTags(e.reasons())...)
		}
		for _, x := range st.Dup {
			switch x.K {
			case "client_id", "client_secret":
				tags = append(tags, "T01")
			case "code", "redirect_uri":
				tags = append(tags, "T04", "T06")
			case "code_challenge", "code_challenge_method":
				tags = append(tags, "T05")
			case "refresh_token":
				tags = append(tags, "T07")
			}
		}
		r.F.add(say("no reading of the request explains the answer %s (sent twice: %v)", q(rep.Body), st.Dup), tags...)
	}
	return nil
}

func (r *TokenRun) classify(e *tokenExpect, rep *tokenReply) {
	if rep.Code == 200 {
		r.Res.class("outcome:tokens")
	} else {
		r.Res.class(fmt.Sprintf("outcome:refused %s", rep.str("error")))
	}
	for _, c := range e.cands {
		if len(c.reasons) == 0 {
			r.Res.class("good:"+shortGrant(c.want.grant), "good-auth:"+c.via)
			if c.want.sess != nil && c.want.sess.CodeVerifier != "" {
				r.Res.class("good:pkce")
			}
		}
		if c.either {
			r.Res.class("open")
		}
		for _, x := range c.reasons {
			r.Res.class("reason:" + x)
		}
		r.Res.class("auth:" + c.via)
		if len(c.reasons) == 1 {
			r.Res.class("only:" + c.reasons[0])
		}
	}
}

func shortGrant(g string) string {
	if strings.HasPrefix(g, "urn:") {
		return "jwt"
	}
	return g
}

var statusOf = map[string][]int{
	"invalid_request": {400}, "invalid_client": {400, 401}, "invalid_grant": {400}, "unauthorized_client": {400},
	"unsupported_grant_type": {400}, "invalid_scope": {400}, "server_error": {500}, "access_denied": {403}, "temporarily_unavailable": {503, 500},
}

// checkRendering examines the form of any response.
func checkTokenRendering(f *findings, cfg *TokenCfg, say func(string, ...interface{}) string, rep *tokenReply, extra ...string) {
	tags := append([]string{"T10"}, extra...)
	if rep.Code == 0 {
		f.add(say("no response"), tags...)
		return
	}
	if !rep.JSONOK {
		f.add(say("status %d, body is not a JSON object: %s", rep.Code, q(rep.Body)), tags...)
		return
	}
	if !world.HasDirective(rep.Header["Cache-Control"], "no-store") || !world.HasDirective(rep.Header["Pragma"], "no-cache") {
		f.add(say("response may be cached: %v", rep.Header), tags...)
	}
	if !world.HasMediaType(rep.Header.Get("Content-Type"), "application/json") {
		f.add(say("content type %q", rep.Header.Get("Content-Type")), tags...)
	}
	if len(rep.Header["Content-Type"]) > 1 || len(rep.Header["Cache-Control"]) > 1 {
		f.add(say("repeated header: %v", rep.Header), tags...)
	}
	for k, v := range rep.Obj {
		if s, ok := v.(string); (ok && s == "") || v == nil {
			f.add(say("member %q of the response is empty", k), tags...)
		}
	}
	if rep.Code == 200 {
		if _, bad := rep.Obj["error"]; bad {
			f.add(say("success with an error member: %s", q(rep.Body)), tags...)
		}
		return
	}
	code, ok := rep.Obj["error"].(string)
	if !ok {
		f.add(say("status %d without error member: %s", rep.Code, q(rep.Body)), tags...)
		return
	}
	want, known := statusOf[code]
	good := false
	for _, s := range want {
		if s == rep.Code {
			good = true
		}
	}
	if !known || !good {
		f.add(say("status %d for error %q", rep.Code, code), tags...)
	}
	uri, has := rep.Obj["error_uri"]
	wantURI := cfg.ErrorURI
	if wantURI != "" && cfg.PerType {
		wantURI += code
	}
	if wantURI == "" && has || wantURI != "" && uri != wantURI {
		f.add(say("error_uri is %v, configured is %q", uri, wantURI), tags...)
	}
	for _, k := range []string{"access_token", "refresh_token", "id_token", "token_type", "expires_in"} {
		if _, bad := rep.Obj[k]; bad {
			f.add(say("refusal carries %s: %s", k, q(rep.Body)), tags...)
		}
	}
}

func basicChallenge(h http.Header, realm string) bool {
	for _, v := range h["Www-Authenticate"] {
		scheme, rest, _ := strings.Cut(v, " ")
		if strings.EqualFold(scheme, "Basic") && strings.Contains(rest, `realm="`+realm+`"`) {
			return true
		}
	}
	return false
}

// writes are the calls by which a request leaves a trace.
var writes = newSet("CreateAuthSession", "CreateOAuthToken", "CreateOrUpdateAuthInfo", "DisableSession", "RefreshAccessToken", "CreateAuthorizationCode")

func writeCalls(cs []world.Call) []world.Call {
	var out []world.Call
	for _, c := range cs {
		if writes[c.Method] {
			out = append(out, c)
		}
	}
	return out
}

func (r *TokenRun) judge(say func(string, ...interface{}) string, st *TokenStep, e *tokenExpect, rep *tokenReply, calls []world.Call, before map[int64]world.InfoSpec, recs []world.Record) {
	wr := writeCalls(calls)
	if e.badMethod {
		r.Res.class("method:not POST")
		if rep.Code != 405 {
			r.F.add(say("method %s answered with status %d", st.Method, rep.Code), "T10")
		}
		if rep.Code == 200 || len(calls) > 0 {
			r.F.add(say("method %s was processed: %v", st.Method, calls), "T10")
		}
		return
	}
	r.classify(e, rep)
	if rep.Code == 405 {
		r.F.add(say("POST answered with 405"), "T10")
		return
	}
	checkTokenRendering(r.F, r.Cfg, say, rep)
	reasons := e.reasons()
	presented := formValue("POST", st.Query, st.Body, "code")

	if rep.Code == 200 {
		if h := rep.Header["Www-Authenticate"]; len(h) > 0 {
			r.F.add(say("tokens issued with an authentication challenge %q", h), "T10", "T11")
		}
		if e.mustRefuse() {
			r.F.add(say("tokens issued, expected %v", e), tokenTags(reasons)...)
			return
		}
		at := rep.str("access_token")
		tok := r.W.TokenByAccess(at)
		if tok == nil {
			r.F.add(say("delivered access token %s is not stored", q(at)), "T10")
			return
		}
		r.W.Mu.Lock()
		var info *world.Info
		if i := r.W.Infos[tok.Info]; i != nil {
			ci := *i
			info = &ci
		}
		r.W.Mu.Unlock()
		if info == nil {
			r.F.add(say("token without grant"), "T10")
			return
		}
		var c *cand
		for _, x := range e.cands {
			if len(x.reasons) == 0 && x.client.ID == info.Client {
				c = x
			}
		}
		if c == nil {
			var tags []string
			for _, x := range e.cands {
				if len(x.reasons) > 0 {
					continue
				}
				if x.via == "assertion" {
					tags = append(tags, "T02")
				} else {
					tags = append(tags, "T01")
				}
				tags = append(tags, grantTags(x)...)
			}
			r.F.add(say("tokens issued for client %q, expected %v", info.Client, e), tags...)
			return
		}
		r.checkSuccess(say, c, rep, tok, info, calls, before, recs)
		return
	}

	// refused
	code := rep.str("error")
	badKey := false
	for _, c := range e.cands {
		if len(c.reasons) == 0 && c.want.badKey {
			badKey = true
		}
	}
	if badKey {
		r.Res.class("unusable signing key")
		if code != "server_error" && e.mustSucceed() {
			r.F.add(say("unusable signing configuration answered with %q", code), "I01")
		}
		return
	}
	if e.mustSucceed() {
		c := e.cands[0]
		var tags []string
		switch code {
		case "invalid_client":
			tags = append(tags, "T01")
			if c.via == "assertion" {
				tags = []string{"T02"}
			}
		case "unauthorized_client", "unsupported_grant_type":
			tags = append(tags, "T03")
		case "invalid_scope":
			tags = append(tags, "T08")
		default:
			tags = append(tags, grantTags(c)...)
			if c.via == "assertion" {
				tags = append(tags, "T02", "T09")
			}
			if len(c.want.records) > 0 {
				tags = append(tags, "T09")
			}
			if code == "server_error" {
				tags = append(tags, "T01", "T10")
			}
		}
		if presented != "" && r.tried[presented] {
			tags = append(tags, "T06")
		}
		r.F.add(say("refused with %q (status %d: %s), expected %v", code, rep.Code, q(rep.Body), e), tags...)
	} else {
		if !e.codes()[code] {
			r.F.add(say("refused with %q, expected %v", code, e), tokenTags(reasons)...)
		}
		if code == "invalid_client" && len(e.cands) == 1 {
			c := e.cands[0]
			if (c.via == "header" && hasStr(c.reasons, "secret") || c.via == "none" && hasStr(c.reasons, "no-credential")) && (rep.Code != 401 || !basicChallenge(rep.Header, r.Cfg.Realm)) {
				r.F.add(say("refused with status %d and challenge %q, expected 401 and a Basic challenge for realm %q", rep.Code, rep.Header["Www-Authenticate"], r.Cfg.Realm), "T01")
			}
		}
	}
	if len(wr) > 0 {
		r.F.add(say("refused with %q, yet %v", code, wr), append(tokenTags(reasons), "T11")...)
		if presented != "" {
			for _, c := range wr {
				if c.Method == "DisableSession" {
					r.F.add(say("refused request used up the code"), "T06", "T11")
				}
			}
		}
	}
	if fmt.Sprint(snapshotInfos(r.W)) != fmt.Sprint(before) {
		r.F.add(say("refused with %q, yet grants changed", code), append(tokenTags(reasons), "T11")...)
	}
	// what the host was told about assertions
	for _, x := range recs {
		ok := false
		for _, c := range e.cands {
			for _, y := range c.want.records {
				if sameRecord(x, y) {
					ok = true
				}
			}
		}
		if !ok {
			r.F.add(say("assertion recorded as %+v", x), "T09")
		}
	}
}

func sameRecord(x world.Record, y wantRecord) bool {
	return x.Client == y.client && x.Jti == y.jti && x.Exp == y.exp && (x.Iat == y.iat || !y.hasIat && x.Iat <= 0)
}

func (r *TokenRun) checkSuccess(say func(string, ...interface{}) string, c *cand, rep *tokenReply, tok *world.Token, info *world.Info, calls []world.Call, before map[int64]world.InfoSpec, recs []world.Record) {
	gt := c.want.grant
	count := map[string]int{}
	for _, x := range calls {
		count[x.Method]++
	}
	if rep.str("token_type") == "" || !strings.EqualFold(rep.str("token_type"), "bearer") {
		r.F.add(say("token_type %v", rep.Obj["token_type"]), "T10")
	}
	mainTags := append([]string{"T10"}, grantTags(c)...)
	if n, ok := rep.Obj["expires_in"].(json.Number); !ok || n.String() != fmt.Sprint(tok.AccessExp) {
		r.F.add(say("expires_in is %v, stored lifetime %d", rep.Obj["expires_in"], tok.AccessExp), mainTags...)
	}
	if rt, has := rep.Obj["refresh_token"]; has != (tok.Refresh != "") || has && rt != tok.Refresh {
		r.F.add(say("refresh_token is %v, stored %q", rt, tok.Refresh), mainTags...)
	}
	if s, has := rep.Obj["scope"]; has != (info.Scope != "") || has && !sameWords(fmt.Sprint(s), info.Scope) {
		r.F.add(say("scope is %v, granted %q", s, info.Scope), mainTags...)
	}
	for k := range rep.Obj {
		switch k {
		case "access_token", "token_type", "expires_in", "refresh_token", "scope", "id_token":
		default:
			r.F.add(say("unexpected member %q", k), "T10")
		}
	}
	want := func(m string, n int, tags ...string) {
		if count[m] != n {
			r.F.add(say("%s called %d times, expected %d", m, count[m], n), tags...)
		}
	}
	idt, hasIDT := rep.Obj["id_token"]
	others := func(tags ...string) {
		after := snapshotInfos(r.W)
		for id, b := range before {
			if id == info.ID && gt != "authorization_code" && gt != "refresh_token" {
				continue
			}
			if after[id] != b {
				r.F.add(say("grant %d changed from %+v to %+v", id, b, after[id]), tags...)
			}
		}
	}
	switch gt {
	case "authorization_code":
		if info.ID != c.want.sess.Info {
			r.F.add(say("token for grant %d, the code's is %d", info.ID, c.want.sess.Info), "T04", "T10")
		}
		want("CreateOAuthToken", 1, "T04", "T10")
		want("RefreshAccessToken", 0, "T04", "T10")
		others("T04")
		r.W.Mu.Lock()
		s := r.W.Sessions[c.want.sess.Code]
		used := s == nil || s.Disabled
		r.W.Mu.Unlock()
		if !used {
			r.F.add(say("tokens issued, but the code is still enabled"), "T06")
		}
		if !tok.OnTokenEP {
			r.F.add(say("token not created as a token-endpoint token"), "T10")
		}
		openid := words(info.Scope)["openid"]
		if openid && !hasIDT {
			r.F.add(say("scope contains openid, but no ID token"), "I01")
		}
		if !openid && hasIDT {
			r.F.add(say("ID token without openid scope (%q)", info.Scope), "I01")
		}
		if c.want.badKey {
			r.F.add(say("tokens issued although the ID token cannot be signed: %s", q(rep.Body)), "I01")
		} else if hasIDT {
			r.Res.class("id_token issued", "alg:"+c.client.IDAlg)
			checkIDToken(r.F, nil, say, fmt.Sprint(idt), idtWant{client: c.client, iss: r.W.Issuer, sub: info.Subject,
				nonce: c.want.sess.Nonce, now: r.W.Now, ttl: c.want.sess.IDTExpires, authTime: c.want.sess.AuthTime})
		}
	case "refresh_token":
		if info.ID != c.want.old.Info {
			r.F.add(say("token for grant %d, the refresh token's is %d", info.ID, c.want.old.Info), "T07")
		}
		want("RefreshAccessToken", 1, "T07")
		want("CreateOAuthToken", 0, "T07")
		others("T07")
	default:
		want("CreateOrUpdateAuthInfo", 1, "T08")
		want("CreateOAuthToken", 1, "T08", "T10")
		if info.User != c.want.uid {
			r.F.add(say("token acts for user %d, proven user is %d", info.User, c.want.uid), "T08")
		}
		wantScope := c.want.scope
		if b, had := before[info.ID]; r.W.Merging() && had && b.Active {
			wantScope = world.MergeScope(b.Scope, wantScope)
			r.Res.class("scope merged")
		}
		if !sameWords(info.Scope, wantScope) {
			r.F.add(say("granted scope %q, requested %q (expected grant %q)", info.Scope, c.want.scope, wantScope), "T08")
		}
		if !tok.OnTokenEP {
			r.F.add(say("token not created as a token-endpoint token"), "T10")
		}
		others("T08")
	}
	if hasIDT && gt != "authorization_code" {
		r.F.add(say("ID token in a %s response", gt), "T10")
	}
	// assertions
	if len(recs) != len(c.want.records) {
		r.F.add(say("%d assertions used, %d recorded", len(c.want.records), len(recs)), "T09")
	} else {
		for i := range recs {
			if !sameRecord(recs[i], c.want.records[i]) {
				r.F.add(say("assertion recorded as %+v, it says %+v", recs[i], c.want.records[i]), "T09")
			}
		}
	}
}

func runToken(c *TokenCase) (*findings, *Result, *TokenRun) {
	f, res := &findings{}, &Result{}
	r := newTokenRun(c.Spec, &c.Cfg, f, res)
	for i := range c.Steps {
		r.Step(&c.Steps[i])
	}
	return f, res, r
}
