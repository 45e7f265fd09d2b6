package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/golang-jwt/jwt"
	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"verif/world"
)

// KV is one request parameter.
type KV struct {
	K, V string
}

// JWTSpec describes a JWT to be built at run time ("@jwt:<i>" in a parameter
// value refers to the i-th of the step).
type JWTSpec struct {
	Alg    string // algorithm that signs; "none" for unsigned
	HAlg   string `json:",omitempty"` // algorithm named in the header, if different
	Key    string
	Kid    string `json:",omitempty"`
	Claims string // JSON text of the claims object
	Mut    string `json:",omitempty"` // corruption of the finished token
}

func (j JWTSpec) build() string {
	h := map[string]interface{}{"typ": "JWT", "alg": j.Alg}
	if j.HAlg != "" {
		h["alg"] = j.HAlg
	}
	if j.Kid != "" {
		h["kid"] = j.Kid
	}
	key := world.Key(j.Key)
	if strings.HasPrefix(j.Key, "pubpem:") {
		key = []byte(pubPEM(j.Key[len("pubpem:"):]))
	}
	if strings.HasPrefix(j.Key, "pubder:") {
		key = pubDER(j.Key[len("pubder:"):])
	}
	s, err := world.SignJWT(h, []byte(j.Claims), j.Alg, key)
	if err != nil {
		return "unsignable." + j.Alg
	}
	p := strings.Split(s, ".")
	switch j.Mut {
	case "nosig":
		return p[0] + "." + p[1] + "."
	case "twoparts":
		return p[0] + "." + p[1]
	case "onepart":
		return p[0]
	case "flipsig":
		b, _ := base64.RawURLEncoding.DecodeString(p[2])
		if len(b) > 0 {
			b[len(b)/2] ^= 1
		}
		return p[0] + "." + p[1] + "." + base64.RawURLEncoding.EncodeToString(b)
	case "truncsig":
		return s[:len(s)-4]
	case "claims":
		b, _ := base64.RawURLEncoding.DecodeString(p[1])
		b = []byte(strings.Replace(string(b), `"sub":"`, `"sub":"x`, 1))
		return p[0] + "." + base64.RawURLEncoding.EncodeToString(b) + "." + p[2]
	case "notjson":
		return p[0] + "." + base64.RawURLEncoding.EncodeToString([]byte("{not json")) + "." + p[2]
	case "array":
		return p[0] + "." + base64.RawURLEncoding.EncodeToString([]byte("[1,2]")) + "." + p[2]
	case "badb64":
		return p[0] + ".!!" + p[1] + "." + p[2]
	case "badheader":
		return "!!" + p[0] + "." + p[1] + "." + p[2]
	case "hdrnum":
		return base64.RawURLEncoding.EncodeToString([]byte(`{"alg":5,"kid":7}`)) + "." + p[1] + "." + p[2]
	case "garbage":
		return "garbage"
	case "dots":
		return "..."
	case "bearer":
		return "Bearer " + s
	}
	return s
}

// AuthzStep is one step of a history against the authorization endpoint.
type AuthzStep struct {
	Op     string       // authorize, approve, cancel, advance, host
	Method string       `json:",omitempty"`
	Query  []KV         `json:",omitempty"`
	Body   []KV         `json:",omitempty"`
	Dup    []KV         `json:",omitempty"` // parameters sent a second time
	DupAt  int          `json:",omitempty"` // 0, 1: end, start of the query; 2, 3: of the body
	JWTs   []JWTSpec    `json:",omitempty"`
	Hdr    []KV         `json:",omitempty"` // headers without a meaning here
	Login  world.Login  `json:",omitempty"`
	N      int64        `json:",omitempty"` // advance: seconds; approve/cancel: which pending
	Host   string       `json:",omitempty"` // host change
	Arg    string       `json:",omitempty"`
	Arg2   string       `json:",omitempty"`
	Fault  *world.Fault `json:",omitempty"`
}

// AuthzCase is a history on one authorization endpoint.
type AuthzCase struct {
	Live   int `json:",omitempty"` // instead of the rest, see live.go
	Spec   world.Spec
	Policy authorization.Policy
	Steps  []AuthzStep
}

// finding is one discrepancy between observation and specification.
type finding struct {
	tags set
	msg  string
}

type findings struct{ l []finding }

func (f *findings) add(msg string, tags ...string) {
	f.l = append(f.l, finding{newSet(tags...), msg})
}

// ids of all properties, for discrepancies that break whatever is examined
// (a crash while serving a request of the examined kind).
func anyProp(f *findings, msg string) { f.add(msg, "*") }

func (f *findings) forProp(id string) []string {
	var out []string
	for _, x := range f.l {
		if x.tags[id] || x.tags["*"] {
			out = append(out, strings.Join(x.tags.list(), ",")+": "+x.msg)
		}
	}
	return out
}

// ---- request building

func encodeKVs(kv []KV) string {
	var p []string
	for _, x := range kv {
		p = append(p, url.QueryEscape(x.K)+"="+url.QueryEscape(x.V))
	}
	return strings.Join(p, "&")
}

func httpRequest(method, path string, query, body []KV) *http.Request {
	u := "http://op.example" + path
	if len(query) > 0 {
		u += "?" + encodeKVs(query)
	}
	var r *http.Request
	var err error
	if method == "" {
		method = "GET"
	}
	if len(body) > 0 || method == "POST" {
		r, err = http.NewRequest(method, u, strings.NewReader(encodeKVs(body)))
		if err == nil {
			r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		}
	} else {
		r, err = http.NewRequest(method, u, nil)
	}
	if err != nil {
		panic(err)
	}
	return r
}

// formValue is the first value of k as a server reads it: body, then query.
func formValue(method string, query, body []KV, k string) string {
	if method == "POST" || method == "PUT" || method == "PATCH" {
		for _, x := range body {
			if x.K == k {
				return x.V
			}
		}
	}
	for _, x := range query {
		if x.K == k {
			return x.V
		}
	}
	return ""
}

func resolveJWTs(kv []KV, js []JWTSpec) []KV {
	if len(js) == 0 {
		return kv
	}
	out := make([]KV, len(kv))
	copy(out, kv)
	for i := range out {
		if strings.HasPrefix(out[i].V, "@jwt:") {
			n, err := strconv.Atoi(out[i].V[5:])
			if err == nil && n < len(js) {
				out[i].V = js[n].build()
			}
		}
	}
	return out
}

// ---- model

type authzExpect struct {
	kinds    set // errscreen error login consent complete
	screens  map[int]bool
	codes    set
	modes    set
	reasons  []string // deficiencies that apply
	stage    int
	isNone   bool
	flowType string // authorization_code implicit hybrid
	wantCode bool
	wantTok  bool
	wantIDT  bool
	scope    string
	ruri     string
	state    string
	req      map[string]string
	maxAge   int64
	mode     string
	ambig    bool
}

func (e *authzExpect) String() string {
	return fmt.Sprintf("kinds=%v codes=%v modes=%v reasons=%v", e.kinds, e.codes, e.modes, e.reasons)
}

var responseTypes = map[string][4]interface{}{
	"code":                {"authorization_code", true, false, false},
	"code id_token":       {"hybrid", true, false, true},
	"code token":          {"hybrid", true, true, false},
	"code id_token token": {"hybrid", true, true, true},
	"id_token":            {"implicit", false, false, true},
	"id_token token":      {"implicit", false, true, true},
	"token":               {"implicit", false, true, false},
}

// classifyRT is the specification of response_type: the set of its words.
func classifyRT(rt string) (key string, ok bool) {
	ws := strings.Split(rt, " ")
	s := newSet(ws...)
	if len(s) != len(ws) {
		return "", false // repeated words
	}
	k := strings.Join(s.list(), " ")
	_, ok = responseTypes[k]
	return k, ok
}

var modeLevel = map[string]int{"query": 0, "fragment": 1, "form_post": 2}

// consentState of the stored grant for omission purposes: "yes", "no", "either".
func consentState(w *world.World, uid int64, client, scope string, period, now int64) string {
	i := w.InfoOf(uid, client)
	if i == nil || !i.Active || i.AuthorizedAt+period <= now {
		return "no"
	}
	if !sameWords(i.Scope, scope) {
		return "no"
	}
	// same set; differing only in repetition or spacing is left open
	a, b := strings.Fields(i.Scope), strings.Fields(scope)
	if len(a) != len(b) || len(words(scope)) != len(b) || strings.Join(a, " ") != i.Scope || strings.Join(b, " ") != scope {
		return "either"
	}
	return "yes"
}

func openIfIrregular(consent string, e *authzExpect) string {
	if consent == "yes" && e.req["irregular"] != "" {
		return "either"
	}
	return consent
}

// modelAuthz computes what may happen for an authorization request.
func modelAuthz(w *world.World, pol *authorization.Policy, st *AuthzStep, query, body []KV) *authzExpect {
	get := func(k string) string { return formValue(st.Method, query, body, k) }
	e := &authzExpect{kinds: set{}, screens: map[int]bool{}, codes: set{}, modes: set{}, req: map[string]string{}, maxAge: -1}
	now := w.Now
	cid, ruri := get("client_id"), get("redirect_uri")
	e.ruri, e.state = ruri, get("state")

	// stage 1
	if cid == "" {
		e.screens[authorization.ErrMissingClientId] = true
	}
	if ruri == "" {
		e.screens[authorization.ErrMissingRedirectURI] = true
	}
	cl := w.Clients[cid]
	if cid != "" && cl == nil {
		e.screens[authorization.ErrMissingClientId] = true
	}
	if cl != nil && ruri != "" && !hasStr(cl.RedirectURIs, ruri) {
		e.screens[authorization.ErrInvalidRedirectURI] = true
	}
	if len(e.screens) > 0 {
		e.stage = 1
		e.kinds.add("errscreen")
		e.reasons = append(e.reasons, "target")
		return e
	}

	// stage 2
	reqMode := get("response_mode")
	rt := get("response_type")
	key, ok := classifyRT(rt)
	if !ok {
		e.stage = 2
		e.kinds.add("error")
		e.codes.add("invalid_request", "unsupported_response_type")
		e.reasons = append(e.reasons, "response_type")
		// flow unknown: any default may be used, the requested mode too
		e.modes.add("query", pol.DefaultAuthorizationCodeFlowResponseMode, pol.DefaultImplicitFlowResponseMode)
		if _, ok := modeLevel[reqMode]; ok {
			e.modes.add(reqMode)
		}
		return e
	}
	c := responseTypes[key]
	e.flowType, e.wantCode, e.wantTok, e.wantIDT = c[0].(string), c[1].(bool), c[2].(bool), c[3].(bool)
	def := pol.DefaultAuthorizationCodeFlowResponseMode
	if e.flowType != "authorization_code" {
		def = pol.DefaultImplicitFlowResponseMode
	}
	def0 := func(code set, reason string) {
		for k := range code {
			e.codes[k] = true
		}
		e.reasons = append(e.reasons, reason)
	}
	mode := reqMode
	modeBad := false
	if reqMode == "" {
		mode = def
	} else if _, ok := modeLevel[reqMode]; !ok {
		mode = def
		modeBad = !pol.IgnoreInvalidResponseMode
	} else if pol.RequireResponseModeSecurityLevelCheck && modeLevel[reqMode] < modeLevel[def] {
		mode = def
		modeBad = !pol.IgnoreInvalidResponseMode
	}
	if modeBad {
		def0(newSet("invalid_request"), "response_mode")
	}
	e.mode = mode
	e.modes.add(mode)
	if reqMode != "" {
		e.req["mode-requested"] = reqMode
	}
	if !hasStr(cl.Flows, e.flowType) {
		def0(newSet("unauthorized_client"), "flow")
	}
	display := get("display")
	if display != "" && display != "page" && display != "popup" && display != "touch" && display != "wap" {
		def0(newSet("invalid_request"), "display")
	}
	if display == "" {
		display = "page"
	}
	if mas := get("max_age"); mas != "" {
		n, err := strconv.Atoi(mas)
		if err != nil {
			def0(newSet("invalid_request"), "max_age-format")
		} else if n < pol.MinMaxAge || n > pol.MaxMaxAge {
			def0(newSet("invalid_request"), "max_age-range")
		} else {
			e.maxAge = int64(n)
			if n == pol.MinMaxAge || n == pol.MaxMaxAge {
				e.req["at-limit"] = "1"
			}
		}
	}
	prompt := get("prompt")
	pw := set{}
	if prompt != "" {
		pw = newSet(strings.Split(prompt, " ")...)
		valid := true
		for x := range pw {
			if x != "none" && x != "login" && x != "consent" && x != "select_account" {
				valid = false
			}
		}
		if pw["none"] && len(pw) > 1 {
			valid = false
		}
		if !valid {
			def0(newSet("invalid_request"), "prompt")
			pw = set{}
			// whether an invalid prompt counts as containing consent is open
			e.ambig = true
		}
	}
	scp := get("scope")
	var kept []string
	offline := false
	for _, x := range strings.Fields(scp) {
		if x == "offline_access" {
			offline = true
		} else {
			kept = append(kept, x)
		}
	}
	eff := strings.Fields(scp)
	if offline {
		if e.flowType == "implicit" || !pw["consent"] {
			eff = kept
			e.req["offline"] = "dropped"
			offline = false
		} else {
			e.req["offline"] = "kept"
			other := 0
			for _, x := range kept {
				if x != "openid" {
					other++
				}
			}
			if other == 0 && !pol.AllowEmptyScope {
				def0(newSet("invalid_request", "invalid_scope"), "offline-only")
			}
		}
	}
	e.scope = strings.Join(eff, " ")
	if strings.Join(strings.Fields(scp), " ") != scp {
		// irregular spacing: only its words are specified
		e.req["irregular"] = "1"
	}
	if len(eff) == 0 && !pol.AllowEmptyScope {
		def0(newSet("invalid_request", "invalid_scope"), "no-scope")
	}
	openid := words(e.scope)["openid"]
	if e.wantIDT && !openid {
		def0(newSet("invalid_request", "invalid_scope"), "no-openid")
	}
	if !cl.ScopeOK(e.flowType, e.scope) {
		def0(newSet("invalid_scope"), "scope")
	}
	nonce := get("nonce")
	if e.flowType != "authorization_code" && openid && e.wantIDT && nonce == "" {
		def0(newSet("invalid_request"), "no-nonce")
	}
	if len(nonce) == pol.MaxNonceLength || len(get("code_verifier")) == pol.MaxCodeVerifierLength {
		e.req["at-limit"] = "1"
	}
	if len(nonce) > pol.MaxNonceLength {
		def0(newSet("invalid_request"), "nonce-length")
	}
	verifier := get("code_verifier")
	if len(verifier) > pol.MaxCodeVerifierLength {
		def0(newSet("invalid_request"), "verifier-length")
	}
	e.req["client"] = cid
	e.req["redirect"] = ruri
	e.req["nonce"] = nonce
	e.req["verifier"] = verifier
	e.req["display"] = display
	e.req["prompt"] = prompt
	e.req["state"] = e.state
	e.req["id_token_hint"] = get("id_token_hint")
	e.req["login_hint"] = get("login_hint")
	e.req["ui_locale"] = "loc:" + get("ui_locales")
	if len(e.reasons) > 0 {
		e.stage = 2
		e.kinds.add("error")
		return e
	}

	// stage 3
	e.stage = 3
	l := st.Login
	tooOld := e.maxAge >= 0 && now-l.AuthTime > e.maxAge
	if pw["none"] {
		e.isNone = true
		switch cl.None {
		case 0:
			def0(newSet("interaction_required"), "none-forbidden")
		case 1:
		case 2:
			hint := e.req["login_hint"]
			if hint == "" || !l.LoggedIn || !subjectMatches(w, l.UID, hint) {
				codes := newSet("invalid_request", "login_required")
				def0(codes, "none-hint")
			}
		case 3:
			switch hintState(w, cl, e.req["id_token_hint"], l) {
			case "no":
				def0(newSet("invalid_request", "login_required"), "none-idt-hint")
			case "either":
				e.ambig = true
				e.kinds.add("error")
				e.codes.add("invalid_request", "login_required")
			}
		}
		if cl.None != 0 && !l.LoggedIn {
			if cl.None == 3 && l.Stale {
				// whether an ended session that the host still answers for
				// counts as a logged-in user is the host's business here
				e.ambig = true
				e.kinds.add("error")
				e.codes.add("login_required", "invalid_request")
			} else {
				def0(newSet("login_required"), "none-login")
			}
		}
		if cl.None != 0 && tooOld {
			def0(newSet("login_required"), "none-max-age")
		}
		if cl.None != 0 && (l.LoggedIn || cl.None == 3 && l.Stale) {
			switch openIfIrregular(consentState(w, l.UID, cid, e.scope, int64(pol.ConsentOmissionPeriod), now), e) {
			case "no":
				def0(newSet("consent_required"), "none-consent")
			case "either":
				e.kinds.add("error")
				e.codes.add("consent_required")
				e.ambig = true
			}
		}
		if len(e.reasons) > 0 {
			e.kinds.add("error")
		} else {
			e.kinds.add("complete")
		}
		return e
	}
	switch {
	case !l.LoggedIn:
		e.reasons = append(e.reasons, "no-session")
		e.kinds.add("login")
	case pw["login"] && !l.FromLogin:
		e.reasons = append(e.reasons, "prompt-login")
		e.kinds.add("login")
	case tooOld:
		e.reasons = append(e.reasons, "max-age")
		e.kinds.add("login")
	default:
		omit := "no"
		if !pw["consent"] && cl.NoConsent == 1 {
			omit = openIfIrregular(consentState(w, l.UID, cid, e.scope, int64(pol.ConsentOmissionPeriod), now), e)
		}
		switch omit {
		case "yes":
			e.kinds.add("complete")
		case "no":
			e.kinds.add("consent")
		default:
			e.kinds.add("complete", "consent")
			e.ambig = true
		}
	}
	return e
}

func subjectMatches(w *world.World, uid int64, sub string) bool {
	u := w.Users[uid]
	return u != nil && (u.Subject == sub || strings.HasPrefix(sub, u.Subject+"@"))
}

// hintState decides whether an id_token_hint satisfies the none-policy.
func hintState(w *world.World, cl *world.Client, hint string, l world.Login) string {
	if hint == "" || !l.LoggedIn && !l.Stale {
		return "no"
	}
	p, err := world.ParseJWT(hint)
	if err != nil {
		return "no"
	}
	alg, _ := p.Header["alg"].(string)
	if p.Verify(alg, world.PublicKey(cl.IDKey)) != nil {
		return "no"
	}
	exp, ok := p.Claims["exp"].(json.Number)
	if !ok {
		return "no"
	}
	f, err := exp.Float64()
	if err != nil || int64(f) < w.Now {
		return "no"
	}
	sub, ok := p.Claims["sub"].(string)
	if !ok || !subjectMatches(w, l.UID, sub) {
		return "no"
	}
	if alg != cl.IDAlg || int64(f) == w.Now {
		return "either"
	}
	for _, k := range []string{"nbf", "iat"} {
		if v, ok := p.Claims[k]; ok {
			n, ok := v.(json.Number)
			if !ok {
				return "either"
			}
			if f, err := n.Float64(); err != nil || int64(f) > w.Now {
				return "either"
			}
		}
	}
	if a, ok := p.Claims["aud"]; ok && a != cl.ID {
		return "either"
	}
	return "yes"
}

// ---- execution

type AuthzRun struct {
	W     *world.World
	EP    *goidc.AuthorizationEndpoint
	Pol   *authorization.Policy
	Pend  []*pending
	nStep int
	F     *findings
	// Delivered codes, newest last, with what the model knows about them.
	Codes []issuedCode
	Res   *Result
	prev  map[string]bool
}

type pending struct {
	enc    string
	e      *authzExpect
	login  world.Login
	client string
	done   bool
}

type issuedCode struct {
	Code, Client, Redirect, Verifier, Nonce, Scope string
	User                                           int64
	AuthTime, IssuedAt, ExpiresIn                  int64
}

func setClock(w *world.World) { jwt.TimeFunc = w.Clock }

func newAuthzRun(spec world.Spec, pol authorization.Policy, f *findings, res *Result) *AuthzRun {
	w := world.New(spec)
	p, given := pol, pol // the endpoint must not change the model's policy
	ep := goidc.NewAuthorizationEndpoint(world.DI{World: w}, &given)
	if liveNow == 0 {
		ep.SetLogger(theLogger)
		ep.SetTimeBuilder(w.Clock)
		setClock(w)
	}
	twinAuthz(&pol)
	return &AuthzRun{W: w, EP: ep, Pol: &p, F: f, Res: res}
}

// attach uses an existing world (lifecycle checks).
func attachAuthz(w *world.World, ep *goidc.AuthorizationEndpoint, pol *authorization.Policy, f *findings, res *Result) *AuthzRun {
	return &AuthzRun{W: w, EP: ep, Pol: pol, F: f, Res: res}
}

var issuing = newSet("CreateAuthSession", "CreateOAuthToken", "CreateOrUpdateAuthInfo", "DisableSession", "RefreshAccessToken", "RecordAssertionClaims", "CreateAuthorizationCode")

func issuedCalls(cs []world.Call) []world.Call {
	var out []world.Call
	for _, c := range cs {
		if issuing[c.Method] {
			out = append(out, c)
		}
	}
	return out
}

// hostChange applies a change made by the host between requests.
func hostChange(w *world.World, op, a, b string) {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	c := w.Clients[a]
	switch op {
	case "revoke", "restore":
		for _, i := range w.Infos {
			if i.Client == a && fmt.Sprint(i.User) == b {
				i.Active = op == "restore"
			}
		}
	case "setscope": // arg2 "uid|scope"
		p := strings.SplitN(b, "|", 2)
		for _, i := range w.Infos {
			if i.Client == a && fmt.Sprint(i.User) == p[0] {
				i.Scope = p[1]
			}
		}
	case "setauthat":
		p := strings.SplitN(b, "|", 2)
		n, _ := strconv.ParseInt(p[1], 10, 64)
		for _, i := range w.Infos {
			if i.Client == a && fmt.Sprint(i.User) == p[0] {
				i.AuthorizedAt = n
			}
		}
	}
	if c == nil {
		return
	}
	// replace the stored client, as a store would
	n := *c
	switch op {
	case "removeclient":
		delete(w.Clients, a)
		return
	case "dropuri":
		n.RedirectURIs = without(n.RedirectURIs, b)
	case "dropflow":
		n.Flows = without(n.Flows, b)
	case "dropgrant":
		n.Grants = without(n.Grants, b)
	case "dropscope":
		m := map[string][]string{}
		for f, l := range n.Scopes {
			m[f] = without(l, b)
		}
		n.Scopes = m
	case "seturis":
		n.RedirectURIs = strings.Fields(b)
	case "setflows":
		n.Flows = strings.Fields(b)
	case "setgrants":
		n.Grants = strings.Fields(b)
	case "setsecret":
		n.Secret = b
	case "setallscopes":
		n.Scopes = map[string][]string{}
		for _, f := range []string{"authorization_code", "implicit", "hybrid", "direct_grant"} {
			n.Scopes[f] = strings.Fields(b)
		}
	case "setnone":
		n.None, _ = strconv.Atoi(b)
	case "setnoconsent":
		n.NoConsent, _ = strconv.Atoi(b)
	case "setowner":
		n.Owner, _ = strconv.ParseInt(b, 10, 64)
	case "setidkey": // alg|key|kid
		p := strings.SplitN(b, "|", 3)
		n.IDAlg, n.IDKey, n.IDKid = p[0], p[1], p[2]
	case "dropakeys":
		n.AKeys = nil
	}
	w.Clients[a] = &n
}

// Step runs one step and compares it with the model.
func (r *AuthzRun) Step(st *AuthzStep) {
	r.nStep++
	switch st.Op {
	case "advance":
		r.W.Mu.Lock()
		r.W.Now += st.N
		r.W.Mu.Unlock()
	case "host":
		hostChange(r.W, st.Host, st.Arg, st.Arg2)
	case "authorize":
		r.authorize(st)
	case "approve", "cancel":
		r.decide(st)
	}
}

func (r *AuthzRun) newCB(l world.Login) *world.Callbacks {
	return &world.Callbacks{W: r.W, Login: l, CodePrefix: fmt.Sprintf("code-%d-u%d", r.nStep, l.UID)}
}

func (r *AuthzRun) authorize(st *AuthzStep) {
	query, body := resolveJWTs(st.Query, st.JWTs), resolveJWTs(st.Body, st.JWTs)
	e := modelAuthz(r.W, r.Pol, st, query, body)
	if strings.Contains(e.ruri, "#") && e.modes["query"] {
		// a fragment in a redirect URI (which OAuth forbids) has no defined
		// meaning for the query encoding
		r.Res.class("skipped: fragment in query mode")
		return
	}
	var ways []*authzExpect
	sentQ, sentB := query, body
	if len(st.Dup) > 0 {
		var dup []KV
		for _, x := range resolveJWTs(st.Dup, st.JWTs) {
			if hasKV(query, x.K) || hasKV(body, x.K) {
				dup = append(dup, x)
			}
		}
		for _, x := range readings(query, body, dup, st.DupAt) {
			w := modelAuthz(r.W, r.Pol, st, x[0], x[1])
			if strings.Contains(w.ruri, "#") && w.modes["query"] {
				r.Res.class("skipped: fragment in query mode")
				return
			}
			ways = append(ways, w)
		}
		sentQ, sentB = withDup(query, body, dup, st.DupAt)
	}
	cb := r.newCB(st.Login)
	rec := world.NewRec()
	req := maybeParsed(httpRequest(st.Method, "/authorize", sentQ, sentB))
	for _, h := range st.Hdr {
		req.Header.Add(h.K, h.V)
	}
	n := r.W.LogLen()
	before := snapshotInfos(r.W)
	var ret bool
	p := guard(func() { ret = r.EP.HandleRequest(rec, req, cb) })
	calls := r.W.Since(n)
	if p != "" {
		anyProp(r.F, fmt.Sprintf("step %d: authorize: %s", r.nStep, p))
		return
	}
	if ways != nil {
		r.judgeDup(st, ways, ret, cb, rec, calls, before)
		return
	}
	r.judgeReturn(fmt.Sprintf("step %d (authorize)", r.nStep), ret, cb, rec, e.ruri)
	r.judge(st, e, cb, rec, calls, before)
}

func hasKV(l []KV, k string) bool {
	for _, x := range l {
		if x.K == k {
			return true
		}
	}
	return false
}

// readings are the ways a request with repeated parameters can be read: for
// each of them the first or the second value counts, in its own place.
func readings(query, body, dup []KV, at int) [][2][]KV {
	drop := func(l []KV, k string) []KV {
		var out []KV
		for _, x := range l {
			if x.K != k {
				out = append(out, x)
			}
		}
		return out
	}
	var all [][2][]KV
	for m := 0; m < 1<<uint(len(dup)); m++ {
		q, b := append([]KV(nil), query...), append([]KV(nil), body...)
		for i, x := range dup {
			if m&(1<<uint(i)) != 0 {
				q, b = drop(q, x.K), drop(b, x.K)
				if at == 2 || at == 3 {
					b = append(b, x)
				} else {
					q = append(q, x)
				}
			}
		}
		all = append(all, [2][]KV{q, b})
	}
	return all
}

// withDup places the repeated parameters.
func withDup(query, body, dup []KV, at int) ([]KV, []KV) {
	cat := func(a, b []KV) []KV { return append(append([]KV(nil), a...), b...) }
	switch at {
	case 1:
		return cat(dup, query), body
	case 2:
		return query, cat(body, dup)
	case 3:
		return query, cat(dup, body)
	}
	return cat(query, dup), body
}

// judgeDup examines the answer to a request with repeated parameters: it must
// be right for one consistent reading of the request, or refuse it.
func (r *AuthzRun) judgeDup(st *AuthzStep, ways []*authzExpect, ret bool, cb *world.Callbacks, rec *world.Rec, calls []world.Call, before map[int64]world.InfoSpec) {
	r.Res.class("repeated parameters")
	var first *findings
	target := false
	for i, e := range ways {
		try := *r
		try.F, try.Res = &findings{}, &Result{}
		try.Pend = append([]*pending(nil), r.Pend...)
		try.Codes = append([]issuedCode(nil), r.Codes...)
		try.judgeReturn(fmt.Sprintf("step %d (authorize)", r.nStep), ret, cb, rec, e.ruri)
		try.judge(st, e, cb, rec, calls, before)
		if len(try.F.l) == 0 {
			r.Pend, r.Codes = try.Pend, try.Codes
			r.Res.class(try.Res.Classes...)
			r.Res.Known = append(r.Res.Known, try.Res.Known...)
			return
		}
		if e.stage > 1 && rec.Touched() {
			d, probs := world.ParseDelivery(rec, e.ruri)
			if d != nil && len(probs) == 0 {
				target = true
				if d.Get("error") == "invalid_request" && len(issuedCalls(calls)) == 0 && !ret && fmt.Sprint(snapshotInfos(r.W)) == fmt.Sprint(before) {
					r.Res.class("repeated parameters: refused")
					return
				}
			}
		}
		if i == 0 {
			first = try.F
		}
	}
	if len(cb.ErrScreens) > 0 && !rec.Touched() && len(cb.Logins)+len(cb.Consents) == 0 && len(issuedCalls(calls)) == 0 && !ret {
		r.Res.class("repeated parameters: refused")
		return
	}
	for _, x := range first.l {
		x.msg += fmt.Sprintf(" (sent twice: %v; no reading of the request explains the answer)", st.Dup)
		r.F.l = append(r.F.l, x)
	}
	if rec.Touched() && !target {
		r.F.add(fmt.Sprintf("step %d (authorize): answered towards a target that is valid in no reading of the request (Location %q)", r.nStep, rec.Head().Get("Location")), "A01")
	}
}

// judgeReturn compares the value returned to the host with what happened.
func (r *AuthzRun) judgeReturn(where string, ret bool, cb *world.Callbacks, rec *world.Rec, ruri string) {
	var d *world.Delivery
	if rec.Touched() {
		d, _ = world.ParseDelivery(rec, ruri)
	}
	kind := r.observedKind(cb, rec, d)
	r.Res.class(fmt.Sprintf("returned %v:%s", ret, kind))
	switch kind {
	case "complete", "consent":
		if !ret {
			r.F.add(where+": false returned, though the request was served: "+kind, "A12")
		}
	case "error", "errscreen", "nothing":
		if ret {
			r.F.add(where+": true returned, though the request was refused: "+kind, "A12")
		}
	}
}

func snapshotInfos(w *world.World) map[int64]world.InfoSpec {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	m := map[int64]world.InfoSpec{}
	for k, v := range w.Infos {
		m[k] = v.InfoSpec
	}
	return m
}

func (r *AuthzRun) observedKind(cb *world.Callbacks, rec *world.Rec, d *world.Delivery) string {
	n := 0
	kind := "nothing"
	if len(cb.ErrScreens) > 0 {
		n++
		kind = "errscreen"
	}
	if len(cb.Logins) > 0 {
		n++
		kind = "login"
	}
	if len(cb.Consents) > 0 {
		n++
		kind = "consent"
	}
	if rec.Touched() {
		n++
		kind = "broken-response"
		if d != nil {
			if d.Get("error") != "" {
				kind = "error"
			} else {
				kind = "complete"
			}
		}
	}
	if n > 1 {
		kind = fmt.Sprintf("mixed(errscreens=%d logins=%d consents=%d response=%v)", len(cb.ErrScreens), len(cb.Logins), len(cb.Consents), rec.Touched())
	}
	return kind
}

// reasonTags maps a deficiency to the properties that speak about it.
var reasonTags = map[string][]string{
	"target":          {"A01"},
	"response_type":   {"A04"},
	"response_mode":   {"A03"},
	"flow":            {"A04"},
	"display":         {"A04"},
	"max_age-format":  {"A04"},
	"max_age-range":   {"A04"},
	"prompt":          {"A04"},
	"offline-only":    {"A09"},
	"no-scope":        {"A04"},
	"no-openid":       {"A04"},
	"scope":           {"A04"},
	"no-nonce":        {"A04"},
	"nonce-length":    {"A04"},
	"verifier-length": {"A04"},
	"none-forbidden":  {"A05"},
	"none-hint":       {"A05"},
	"none-idt-hint":   {"A05"},
	"none-login":      {"A05"},
	"none-max-age":    {"A05"},
	"none-consent":    {"A05"},
	"no-session":      {"A06"},
	"prompt-login":    {"A06"},
	"max-age":         {"A06"},
}

func tagsOf(reasons []string) []string {
	var t []string
	for _, r := range reasons {
		t = append(t, reasonTags[r]...)
	}
	return t
}

func (r *AuthzRun) judge(st *AuthzStep, e *authzExpect, cb *world.Callbacks, rec *world.Rec, calls []world.Call, before map[int64]world.InfoSpec) {
	say := func(f string, a ...interface{}) string {
		return fmt.Sprintf("step %d (authorize): ", r.nStep) + fmt.Sprintf(f, a...)
	}
	var d *world.Delivery
	var probs []string
	if rec.Touched() {
		if e.stage == 1 {
			r.F.add(say("response written (status %d, Location %q) although the redirect target is not valid", rec.Code, rec.Head().Get("Location")), "A01")
			return
		}
		d, probs = world.ParseDelivery(rec, e.ruri)
		for _, p := range probs {
			r.F.add(say("%s", p), "A02")
		}
	}
	kind := r.observedKind(cb, rec, d)
	r.classify(e, kind)
	if e.kinds["complete"] && r.judgeUnsignable(say, e, kind, d, rec) {
		return
	}
	iss := issuedCalls(calls)

	// what kinds of thing happened
	if !e.kinds[kind] {
		tags := []string{}
		switch e.stage {
		case 1:
			tags = append(tags, "A01")
		case 2:
			tags = append(tags, tagsOf(e.reasons)...)
			if kind == "errscreen" {
				tags = append(tags, "A01")
			}
		case 3:
			switch {
			case kind == "errscreen":
				tags = append(tags, "A01")
			case e.isNone:
				tags = append(tags, "A05")
				if kind == "error" && d != nil && e.kinds["complete"] {
					// a good request was refused
					switch d.Get("error") {
					case "login_required", "consent_required", "interaction_required":
					default:
						tags = append(tags, "A04")
					}
				}
			case e.kinds["login"]:
				tags = append(tags, "A06")
				if kind == "error" {
					tags = append(tags, "A04")
				}
			case kind == "login":
				tags = append(tags, "A06")
			case kind == "error":
				tags = append(tags, "A04")
				if e.req["offline"] != "" {
					tags = append(tags, "A09")
				}
			default:
				tags = append(tags, "A07")
			}
			if strings.HasPrefix(kind, "mixed") {
				if len(cb.Logins) > 0 {
					tags = append(tags, "A06")
				}
				if rec.Touched() && len(cb.Consents) > 0 {
					tags = append(tags, "A07")
				}
			}
			if (kind == "nothing" || kind == "broken-response") && e.kinds["complete"] {
				tags = append(tags, "A08", "A02")
			}
		}
		got := kind
		if d != nil && kind == "error" {
			got += ":" + d.Get("error")
		}
		r.F.add(say("expected %v, observed %s", e, got), tags...)
	}
	// one screen, once
	if e.stage == 1 && kind == "errscreen" {
		if len(cb.ErrScreens) != 1 {
			r.F.add(say("error screen shown %d times", len(cb.ErrScreens)), "A01")
		}
		if !e.screens[cb.ErrScreens[0]] {
			r.F.add(say("error screen reason %d, expected one of %v", cb.ErrScreens[0], e.screens), "A01")
		}
	}
	if len(cb.Logins) > 1 {
		r.F.add(say("login screen shown %d times", len(cb.Logins)), "A06")
	}
	if len(cb.Consents) > 1 {
		r.F.add(say("consent screen shown %d times", len(cb.Consents)), "A07")
	}
	// nothing issued unless completed
	if kind != "complete" && len(iss) > 0 {
		tags := tagsOf(e.reasons)
		if e.stage == 3 {
			switch {
			case e.isNone:
				tags = append(tags, "A05")
			case e.kinds["login"]:
				tags = append(tags, "A06")
			default:
				tags = append(tags, "A07")
			}
		}
		r.F.add(say("outcome %s, yet %v", kind, iss), tags...)
	}
	if kind != "complete" {
		after := snapshotInfos(r.W)
		if fmt.Sprint(after) != fmt.Sprint(before) {
			r.F.add(say("grants changed without completion"), append(tagsOf(e.reasons), "A07", "A04")...)
		}
	}
	switch kind {
	case "error":
		if e.kinds["error"] && !e.codes[d.Get("error")] {
			tags := tagsOf(e.reasons)
			if e.isNone {
				tags = append(tags, "A05")
			}
			r.F.add(say("error %q, expected one of %v for %v", d.Get("error"), e.codes, e.reasons), tags...)
		}
		r.checkDelivery(say, e, d)
	case "complete":
		r.checkDelivery(say, e, d)
		if e.kinds["complete"] {
			r.checkComplete(say, e, d, st.Login, cb, calls)
		}
	case "consent":
		if len(cb.Consents) == 1 {
			c := cb.Consents[0]
			r.checkShown(say, e, &c.Req, "consent")
			if c.Client != e.req["client"] {
				r.F.add(say("consent screen for client %q, requested by %q", c.Client, e.req["client"]), "A08")
			}
			if e.kinds["consent"] {
				r.Pend = append(r.Pend, &pending{enc: cb.Pending, e: e, login: st.Login, client: e.req["client"]})
			}
		}
	case "login":
		if len(cb.Logins) == 1 && cb.Logins[0] != nil {
			r.checkShown(say, e, cb.Logins[0], "login")
		} else if len(cb.Logins) == 1 {
			r.F.add(say("login screen without request"), "A06")
		}
	}
}

// judgeUnsignable handles requests for an ID token that cannot be signed: if
// they go on to completion, the answer is server_error.
func (r *AuthzRun) judgeUnsignable(say func(string, ...interface{}) string, e *authzExpect, kind string, d *world.Delivery, rec *world.Rec) bool {
	cl := r.W.Clients[e.req["client"]]
	if !e.wantIDT || cl == nil || usableKey(cl) {
		return false
	}
	switch {
	case kind == "error" && d != nil && d.Get("error") == "server_error":
		r.Res.class("unusable signing key")
		r.checkDelivery(say, e, d)
	case kind == "complete":
		r.F.add(say("completed with %v, though the ID token cannot be signed (%s, key %q)", d.Params, cl.IDAlg, cl.IDKey), "I01")
	case kind == "error" && e.kinds["error"]:
		return false
	case kind == "login" || kind == "consent" || kind == "errscreen":
		return false
	default:
		r.F.add(say("ID token cannot be signed (%s, key %q): expected server_error, observed %s", cl.IDAlg, cl.IDKey, kind), "I01")
	}
	return true
}

func (r *AuthzRun) checkShown(say func(string, ...interface{}) string, e *authzExpect, q *authorization.Request, where string) {
	tag := "A08"
	if where == "login" {
		tag = "A06"
	}
	cmp := func(name, got, want string) {
		if got != want {
			r.F.add(say("%s screen: %s is %q, request has %q", where, name, got, want), tag)
		}
	}
	cmp("client", q.ClientId, e.req["client"])
	cmp("redirect URI", q.RedirectURI, e.req["redirect"])
	cmp("state", q.State, e.state)
	cmp("nonce", q.Nonce, e.req["nonce"])
	cmp("display", q.Display, e.req["display"])
	cmp("code verifier", q.CodeVerifier, e.req["verifier"])
	cmp("prompt", q.Prompt, e.req["prompt"])
	cmp("login hint", q.LoginHint, e.req["login_hint"])
	cmp("id_token hint", q.IdTokenHint, e.req["id_token_hint"])
	cmp("UI locale", q.UILocale, e.req["ui_locale"])
	if e.stage == 3 {
		if q.ResponseMode != e.mode {
			r.F.add(say("%s screen: response mode is %q, expected %q", where, q.ResponseMode, e.mode), "A03", tag)
		}
		if e.maxAge >= 0 && q.MaxAge != e.maxAge {
			r.F.add(say("%s screen: max_age is %d, expected %d", where, q.MaxAge, e.maxAge), tag)
		}
	}
	if !sameWords(q.Scope, e.scope) {
		tags := []string{tag}
		if words(q.Scope)["offline_access"] != words(e.scope)["offline_access"] || e.req["offline"] != "" {
			tags = append(tags, "A09")
		}
		r.F.add(say("%s screen: scope is %q, expected %q", where, q.Scope, e.scope), tags...)
	}
	if q.Flow == nil {
		r.F.add(say("%s screen: request without flow", where), tag)
	} else if e.stage == 3 && (q.Flow.RequireAccessToken != e.wantTok || q.Flow.RequireIdToken != e.wantIDT || q.Flow.Type.String() != e.flowType) {
		r.F.add(say("%s screen: flow is %+v, expected %s token=%v id_token=%v", where, *q.Flow, e.flowType, e.wantTok, e.wantIDT), tag, "L02")
	}
}

var protocolParams = newSet("code", "access_token", "token_type", "expires_in", "id_token", "refresh_token", "state", "error", "error_description", "error_uri", "scope", "rexpires_in")

// checkDelivery examines target, mode, state and parameter multiplicity.
func (r *AuthzRun) checkDelivery(say func(string, ...interface{}) string, e *authzExpect, d *world.Delivery) {
	if !e.modes[d.Mode] {
		tags := []string{"A03"}
		if e.stage == 3 {
			tags = append(tags, "A02")
		}
		r.F.add(say("response delivered by %s, expected %v", d.Mode, e.modes), tags...)
	}
	for k, v := range d.Params {
		if len(v) != 1 {
			r.F.add(say("parameter %q appears %d times", k, len(v)), "A02")
		}
		if !protocolParams[k] && !strings.HasPrefix(k, "session_state") && k != "iss" {
			r.F.add(say("parameter %q is none of the protocol's", k), "A02", "A08")
		}
	}
	if e.state == "" {
		if _, ok := d.Params["state"]; ok {
			r.F.add(say("state %q delivered, request had none", d.Get("state")), "A02")
		}
	} else if d.Get("state") != e.state {
		r.F.add(say("state %s delivered, request had %s", q(d.Get("state")), q(e.state)), "A02")
	}
	if d.Get("error") != "" {
		for _, k := range []string{"code", "access_token", "id_token", "refresh_token"} {
			if _, ok := d.Params[k]; ok {
				r.F.add(say("error response carries %s", k), "A08", "A04", "A02")
			}
		}
	}
}

// checkComplete examines the artifacts of a completed authorization.
func (r *AuthzRun) checkComplete(say func(string, ...interface{}) string, e *authzExpect, d *world.Delivery, l world.Login, cb *world.Callbacks, calls []world.Call) {
	has := func(k string) bool { _, ok := d.Params[k]; return ok }
	want := func(k string, w bool) {
		if has(k) != w {
			r.F.add(say("%s delivered: %v, response type asks: %v", k, has(k), w), "A08")
		}
	}
	want("code", e.wantCode)
	want("access_token", e.wantTok)
	want("token_type", e.wantTok)
	want("expires_in", e.wantTok)
	want("id_token", e.wantIDT)
	if has("refresh_token") {
		r.F.add(say("refresh token delivered in an authorization response"), "A09", "A08")
	}
	info := r.W.InfoOf(l.UID, e.req["client"])
	if info == nil {
		r.F.add(say("completed without a grant of user %d to %q", l.UID, e.req["client"]), "A08", "A07")
		return
	}
	if !sameWords(info.Scope, e.scope) {
		r.F.add(say("grant has scope %q, expected %q", info.Scope, e.scope), "A08", "A09")
	}
	if e.flowType != "authorization_code" && has("scope") && !sameWords(d.Get("scope"), e.scope) {
		r.F.add(say("scope %q delivered, granted %q", d.Get("scope"), e.scope), "A08", "A09")
	}
	if e.flowType != "authorization_code" && !has("scope") && e.scope != "" {
		r.F.add(say("granted scope %q not delivered", e.scope), "A08")
	}
	var sess, toks, codes []world.Call
	for _, c := range calls {
		switch c.Method {
		case "CreateAuthSession":
			sess = append(sess, c)
		case "CreateOAuthToken":
			toks = append(toks, c)
		case "CreateAuthorizationCode":
			codes = append(codes, c)
		}
	}
	wantN := func(what string, n int, w bool) {
		x := 0
		if w {
			x = 1
		}
		if n != x {
			r.F.add(say("%d %s created, expected %d", n, what, x), "A08")
		}
	}
	wantN("code sessions", len(sess), e.wantCode)
	wantN("access tokens", len(toks), e.wantTok)
	_ = codes
	if e.wantCode && has("code") {
		code := d.Get("code")
		r.W.Mu.Lock()
		s := r.W.Sessions[code]
		r.W.Mu.Unlock()
		if len(cb.Codes) == 0 || code != cb.Codes[len(cb.Codes)-1] {
			r.F.add(say("delivered code %s is not the host's new code %q", q(code), cb.Codes), "A08", "A02")
		}
		if s == nil {
			r.F.add(say("no session stored under the delivered code %s", q(code)), "A08", "A02")
		} else {
			chk := func(n string, got, want interface{}) {
				if got != want {
					r.F.add(say("session of the code: %s is %v, expected %v", n, got, want), "A08")
				}
			}
			chk("grant", s.Info, info.ID)
			chk("redirect URI", s.RedirectURI, e.ruri)
			chk("nonce", s.Nonce, e.req["nonce"])
			chk("code verifier", s.CodeVerifier, e.req["verifier"])
			chk("authentication time", s.AuthTime, l.AuthTime)
			chk("lifetime", s.ExpiresIn, int64(r.Pol.AuthSessionExpiresIn))
			r.Codes = append(r.Codes, issuedCode{Code: code, Client: e.req["client"], Redirect: e.ruri,
				Verifier: e.req["verifier"], Nonce: e.req["nonce"], Scope: e.scope, User: l.UID,
				AuthTime: l.AuthTime, IssuedAt: r.W.Now, ExpiresIn: int64(r.Pol.AuthSessionExpiresIn)})
		}
	}
	at := ""
	if e.wantIDT && has("id_token") {
		r.Res.class("id_token issued", "alg:"+r.W.Clients[e.req["client"]].IDAlg)
	}
	if e.wantTok && has("access_token") {
		r.Res.class("token issued")
		at = d.Get("access_token")
		if !strings.EqualFold(d.Get("token_type"), "bearer") {
			r.F.add(say("token_type %q", d.Get("token_type")), "A08")
		}
		t := r.W.TokenByAccess(at)
		if t == nil {
			r.F.add(say("delivered access token %s is not stored", q(at)), "A08", "A02")
		} else {
			if t.Info != info.ID {
				r.F.add(say("access token belongs to grant %d, expected %d", t.Info, info.ID), "A08")
			}
			if t.OnTokenEP || t.Refresh != "" {
				r.F.add(say("access token created as a token-endpoint token (refresh token %q)", t.Refresh), "A09")
			}
			if d.Get("expires_in") != fmt.Sprint(t.AccessExp) {
				r.F.add(say("expires_in %q, stored lifetime %d", d.Get("expires_in"), t.AccessExp), "A08")
			}
		}
	}
	for _, c := range toks {
		if strings.HasSuffix(c.Args, "|true") {
			r.F.add(say("access token created as a token-endpoint token: %v", c), "A09")
		}
	}
	if e.wantIDT && has("id_token") {
		code := ""
		if e.wantCode {
			code = d.Get("code")
		}
		cl := r.W.Clients[e.req["client"]]
		checkIDToken(r.F, r.Res, say, d.Get("id_token"), idtWant{
			client: cl, iss: r.W.Issuer, sub: info.Subject, nonce: e.req["nonce"],
			now: r.W.Now, ttl: int64(r.Pol.IdTokenExpiresIn), authTime: l.AuthTime, at: at, code: code, front: true,
		})
	}
}

type idtWant struct {
	client          *world.Client
	iss, sub, nonce string
	now, ttl        int64
	authTime        int64
	at, code        string
	front           bool
}

func checkIDToken(f *findings, res *Result, say func(string, ...interface{}) string, tok string, w idtWant) {
	p, err := world.ParseJWT(tok)
	if err != nil {
		f.add(say("ID token %q: %v", tok, err), "I01")
		return
	}
	if a := fmt.Sprint(p.Header["alg"]); a != w.client.IDAlg {
		f.add(say("ID token alg %q, client's is %q", a, w.client.IDAlg), "I01")
	}
	if err := p.Verify(w.client.IDAlg, world.PublicKey(w.client.IDKey)); err != nil {
		f.add(say("ID token signature: %v", err), "I01")
	}
	kid, has := p.Header["kid"]
	if w.client.IDKid == "" && has && kid != "" || w.client.IDKid != "" && kid != w.client.IDKid {
		f.add(say("ID token kid %v, client's is %q", kid, w.client.IDKid), "I01")
	}
	str := func(k, want string) {
		got, ok := p.Claims[k]
		if k == "nonce" && want == "" {
			if ok {
				f.add(say("ID token has nonce %v, request had none", got), "I01")
			}
			return
		}
		if g, isS := got.(string); !isS || g != want {
			f.add(say("ID token %s is %v, expected %q", k, got, want), "I01")
		}
	}
	str("iss", w.iss)
	str("sub", w.sub)
	str("nonce", w.nonce)
	if a, ok := p.Claims["aud"].([]interface{}); ok {
		if len(a) != 1 || a[0] != w.client.ID {
			f.add(say("ID token aud %v, expected %q", a, w.client.ID), "I01")
		}
	} else {
		str("aud", w.client.ID)
	}
	num := func(k string, want int64) {
		n, ok := p.Claims[k].(json.Number)
		if !ok || n.String() != fmt.Sprint(want) {
			f.add(say("ID token %s is %v, expected %d", k, p.Claims[k], want), "I01")
		}
	}
	num("iat", w.now)
	num("exp", w.now+w.ttl)
	if w.authTime >= 0 {
		num("auth_time", w.authTime)
	}
	hash := func(k, v string) {
		got, has := p.Claims[k]
		if v == "" {
			if has {
				f.add(say("ID token has %s although none was delivered", k), "I02")
			}
			return
		}
		g, _ := got.(string)
		lh := world.LeftHalf(w.client.IDAlg, v)
		want := base64.RawURLEncoding.EncodeToString(lh)
		if g == want {
			return
		}
		if g == base64.StdEncoding.EncodeToString(lh) {
			// listed known finding K1: standard instead of base64url encoding
			if res != nil {
				res.Known = append(res.Known, "K1 "+k)
			}
			return
		}
		f.add(say("ID token %s is %q, expected %q for %s", k, g, want, q(v)), "I02")
	}
	if w.front {
		hash("at_hash", w.at)
		hash("c_hash", w.code)
	}
}

// decisionForm is what the user's browser submits to the host's decision
// page: the names of request parameters have no meaning there, the stored
// request counts.
func decisionForm() []KV {
	return []KV{{"ok", "1"}, {"redirect_uri", "https://evil.example/"}, {"state", "other"}, {"response_mode", "fragment"},
		{"client_id", "evil"}, {"scope", "openid offline_access evil"}, {"nonce", "n-evil"}, {"code_verifier", strings.Repeat("e", 43)},
		{"response_type", "code id_token token"}, {"max_age", "1"}, {"prompt", "none"}, {"display", "wap"}, {"login_hint", "evil"},
		{"id_token_hint", "evil"}, {"ui_locales", "xx"}, {"user_id", "1"}, {"code", "evil"}, {"error", "evil"}, {"approved", "false"}, {"deny", "1"}}
}

// decide completes or cancels a pending request.
func (r *AuthzRun) decide(st *AuthzStep) {
	var open []*pending
	for _, p := range r.Pend {
		if !p.done {
			open = append(open, p)
		}
	}
	if len(open) == 0 {
		return
	}
	p := open[int(st.N)%len(open)]
	p.done = true
	l := p.login
	cb := r.newCB(l)
	cb.Pending = p.enc
	rec := world.NewRec()
	req := httpRequest("POST", "/decide", nil, decisionForm())
	n := r.W.LogLen()
	before := snapshotInfos(r.W)
	say := func(f string, a ...interface{}) string {
		return fmt.Sprintf("step %d (%s): ", r.nStep, st.Op) + fmt.Sprintf(f, a...)
	}
	var pn string
	var ret bool
	if st.Op == "approve" {
		pn = guard(func() { ret = r.EP.CompleteRequest(rec, req, cb) })
	} else {
		pn = guard(func() { ret = r.EP.CancelRequest(rec, req, cb) })
	}
	calls := r.W.Since(n)
	if pn != "" {
		anyProp(r.F, say("%s", pn))
		return
	}
	if st.Op == "approve" {
		r.judgeReturn(say("returned"), ret, cb, rec, p.e.ruri)
	} else if !ret && rec.Touched() {
		r.F.add(say("false returned for a cancellation that was delivered"), "A12")
	}
	mainTag := "A08"
	if st.Op == "cancel" {
		mainTag = "A10"
	}
	if len(cb.ErrScreens)+len(cb.Logins)+len(cb.Consents) > 0 {
		r.F.add(say("a screen was shown"), mainTag)
	}
	if !rec.Touched() {
		r.F.add(say("no response"), mainTag, "A02")
		return
	}
	d, probs := world.ParseDelivery(rec, p.e.ruri)
	for _, x := range probs {
		r.F.add(say("%s", x), "A02", mainTag)
	}
	if d == nil {
		return
	}
	nf := len(r.F.l)
	r.checkDelivery(say, p.e, d)
	if st.Op == "cancel" {
		for i := nf; i < len(r.F.l); i++ {
			r.F.l[i].tags.add("A10")
		}
		if d.Get("error") != "access_denied" {
			r.F.add(say("cancelled request answered with %v", d.Params), "A10")
		}
		if iss := issuedCalls(calls); len(iss) > 0 {
			r.F.add(say("cancelled request caused %v", iss), "A10")
		}
		if fmt.Sprint(snapshotInfos(r.W)) != fmt.Sprint(before) {
			r.F.add(say("cancelled request changed grants"), "A10")
		}
		r.Res.class("cancelled", "cancelled:"+d.Mode)
		return
	}
	r.Res.class("approved", "approved:"+d.Mode, "approved:"+p.e.flowType)
	kind := "complete"
	if d.Get("error") != "" {
		kind = "error"
	}
	if r.W.Clients[p.client] == nil {
		// the client was removed while the user was deciding: whether the
		// request still completes is open, a refusal carries nothing
		if kind == "error" && (d.Get("code") != "" || d.Get("access_token") != "" || d.Get("id_token") != "") {
			r.F.add(say("an error response carries a credential: %v", d.Params), "A08")
		}
		r.Res.class("approved: client gone")
		return
	}
	if r.judgeUnsignable(say, p.e, kind, d, rec) {
		return
	}
	if d.Get("error") != "" {
		r.F.add(say("approved request answered with %v", d.Params), "A08")
		return
	}
	info := r.W.InfoOf(l.UID, p.client)
	if info != nil && info.AuthorizedAt != r.W.Now {
		r.F.add(say("approval did not create or update the grant"), "A08")
	}
	for id, b := range before {
		if info != nil && id == info.ID {
			continue
		}
		r.W.Mu.Lock()
		a := r.W.Infos[id]
		r.W.Mu.Unlock()
		if a == nil || a.InfoSpec != b {
			r.F.add(say("approval changed another grant (%v)", b), "A08")
		}
	}
	r.checkComplete(say, p.e, d, l, cb, calls)
}

func (r *AuthzRun) classify(e *authzExpect, kind string) {
	if strings.HasPrefix(kind, "mixed") {
		kind = "mixed"
	}
	r.Res.class("outcome:" + kind)
	for _, x := range e.reasons {
		r.Res.class("reason:" + x)
	}
	if len(e.reasons) > 1 {
		r.Res.class("several reasons")
	}
	if e.flowType != "" {
		r.Res.class("flow:" + e.flowType)
	}
	if e.isNone {
		r.Res.class("prompt=none")
	}
	if e.req["offline"] != "" {
		r.Res.class("offline:" + e.req["offline"])
	}
	if e.ambig {
		r.Res.class("open")
	}
	if e.req["mode-requested"] != "" {
		r.Res.class("mode:requested")
	}
	if e.stage == 3 && e.maxAge >= 0 {
		r.Res.class("max_age given")
	}
	if e.req["at-limit"] != "" {
		r.Res.class("at-limit")
	}
}

func runAuthz(c *AuthzCase) (*findings, *Result) {
	f, res := &findings{}, &Result{}
	r := newAuthzRun(c.Spec, c.Policy, f, res)
	for i := range c.Steps {
		r.Step(&c.Steps[i])
	}
	return f, res
}
