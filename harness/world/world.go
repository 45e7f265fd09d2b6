// Package world is an honest in-memory host for goidc: a data interface, its
// clients, and authorization callbacks, with a call log, a settable clock,
// fault injection and a gate at every call for deterministic scheduling. It
// shares no code with goidc's own test helpers.
package world

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
)

type AssertionKey struct{ Alg, Kid, Key string }

type ClientSpec struct {
	ID, Secret   string
	Owner        int64
	Flows        []string
	Grants       []string
	Scopes       map[string][]string // per flow type
	RedirectURIs []string
	IDAlg        string
	IDKey        string
	IDKid        string
	AKeys        []AssertionKey
	NoConsent    int // prompt.NoConsentPromptPolicy
	None         int // prompt.NonePromptPolicy
}

type UserSpec struct {
	ID                      int64
	Name, Password, Subject string
}

type InfoSpec struct {
	ID           int64
	Client       string
	User         int64
	Subject      string
	Scope        string
	AuthorizedAt int64
	Active       bool
}

type SessionSpec struct {
	Code         string
	Info         int64
	RedirectURI  string
	CodeVerifier string
	Nonce        string
	AuthTime     int64
	ExpiresIn    int64
	CreatedAt    int64
	IDTExpires   int64
	Disabled     bool
}

type TokenSpec struct {
	Info        int64
	Access      string
	AccessExp   int64
	RefreshedAt int64
	Refresh     string
	RefreshExp  int64
	CreatedAt   int64
	OnTokenEP   bool
	Gone        bool
}

// Spec is a complete, JSON-serialisable initial state.
type Spec struct {
	Issuer     string
	Now        int64
	Clients    []ClientSpec
	Users      []UserSpec
	Infos      []InfoSpec
	Sessions   []SessionSpec
	Tokens     []TokenSpec
	Style      int // how credential values look
	AccessTTL  int64
	RefreshTTL int64
	IDTTL      int64
	Rotate     bool   // refresh rotates the refresh token
	PPID       bool   // per-client subjects
	Merge      bool   `json:",omitempty"` // new approval adds to the scope of an active grant
	Records    string `json:",omitempty"` // assertions the host accepts: "jti" only those with one, "iat" likewise, "short" only those valid for a day
}

// Call is one logged call into the host.
type Call struct {
	Method string
	Args   string
	Err    string
	Req    string
}

// Fault makes the Nth (from 0) call of Method fail.
type Fault struct {
	Method string
	Nth    int
	Kind   string // "unsupported", "server", "failed", "nil", "value+server" ...
}

type World struct {
	Mu       sync.Mutex
	Issuer   string
	Now      int64
	Clients  map[string]*Client
	Users    map[int64]*UserSpec
	Infos    map[int64]*Info
	Sessions map[string]*Session
	Tokens   []*Token
	Log      []Call
	Faults   []Fault
	counts   map[string]int
	perInfo  map[int64]int
	used     map[string]bool // recorded assertions
	Records  []Record
	spec     Spec
	// Gate, if set, is called (without Mu) at the start of every call.
	Gate func(method string)
	// Who, if set, names the request on whose behalf the call is made.
	Who func() string
}

type Record struct {
	Client, Jti string
	Iat, Exp    int64
}

func New(s Spec) *World {
	w := &World{Issuer: s.Issuer, Now: s.Now, spec: s,
		Clients: map[string]*Client{}, Users: map[int64]*UserSpec{}, Infos: map[int64]*Info{},
		Sessions: map[string]*Session{}, counts: map[string]int{}, perInfo: map[int64]int{}, used: map[string]bool{}}
	for _, c := range s.Clients {
		c := c
		c.Flows = append([]string(nil), c.Flows...)
		c.Grants = append([]string(nil), c.Grants...)
		c.RedirectURIs = append([]string(nil), c.RedirectURIs...)
		sc := map[string][]string{}
		for k, v := range c.Scopes {
			sc[k] = append([]string(nil), v...)
		}
		c.Scopes = sc
		w.Clients[c.ID] = &Client{w: w, ClientSpec: c}
	}
	for _, u := range s.Users {
		u := u
		w.Users[u.ID] = &u
	}
	for _, i := range s.Infos {
		w.Infos[i.ID] = &Info{i}
	}
	for _, x := range s.Sessions {
		w.Sessions[x.Code] = &Session{x}
	}
	for _, t := range s.Tokens {
		w.Tokens = append(w.Tokens, &Token{t})
	}
	return w
}

func (w *World) Spec() Spec { return w.spec }

func (w *World) Clock() time.Time {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	return time.Unix(w.Now, 0)
}

// ResetCounts restarts fault counting (and drops the log).
func (w *World) ResetLog() {
	w.Mu.Lock()
	w.Log = nil
	w.counts = map[string]int{}
	w.Mu.Unlock()
}

// LogLen returns the current length of the log.
func (w *World) LogLen() int { w.Mu.Lock(); defer w.Mu.Unlock(); return len(w.Log) }

// Since returns a copy of the log from index n.
func (w *World) Since(n int) []Call {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	return append([]Call(nil), w.Log[n:]...)
}

// Arm injects faults into the calls made from now on, which are counted from
// zero again.
func (w *World) Arm(fs []Fault) {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	w.Faults = fs
	w.counts = map[string]int{}
}

// enter logs a call, passes the gate and returns the fault to inject, if any.
func (w *World) enter(method, args string) string {
	if w.Gate != nil {
		w.Gate(method)
	}
	who := ""
	if w.Who != nil {
		who = w.Who()
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	n := w.counts[method]
	w.counts[method] = n + 1
	kind := ""
	for _, f := range w.Faults {
		if f.Method == method && (f.Nth == n || f.Nth < 0) {
			kind = f.Kind
		}
	}
	w.Log = append(w.Log, Call{Method: method, Args: args, Err: kind, Req: who})
	return kind
}

func (w *World) note(err string) {
	w.Mu.Lock()
	if n := len(w.Log); n > 0 {
		w.Log[n-1].Err = err
	}
	w.Mu.Unlock()
}

func faultErr(kind string) *bridge.Error {
	switch {
	case strings.HasSuffix(kind, "unsupported"):
		return bridge.NewError(bridge.ErrUnsupported)
	case strings.HasSuffix(kind, "server"):
		return bridge.NewError(bridge.ErrServerError)
	case strings.HasSuffix(kind, "failed"):
		return bridge.NewError(bridge.ErrFailed)
	}
	return nil
}

var failed = bridge.NewError(bridge.ErrFailed)

// ---- client

type Client struct {
	w *World
	ClientSpec
}

func (c *Client) GetId() string              { return c.ID }
func (c *Client) GetOwnerUserId() int64      { c.w.enter("OwnerUserId", c.ID); return c.Owner }
func (c *Client) GetIdTokenAlg() string      { return c.IDAlg }
func (c *Client) GetIdTokenKeyId() string    { return c.IDKid }
func (c *Client) GetIdTokenKey() interface{} { return Key(c.IDKey) }
func (c *Client) MatchSecret(s string) bool {
	c.w.enter("MatchSecret", c.ID)
	c.w.Mu.Lock()
	defer c.w.Mu.Unlock()
	return s == c.Secret
}
func (c *Client) CanUseFlow(t flow.FlowType) bool {
	c.w.enter("CanUseFlow", c.ID)
	return has(c.Flows, flowName(t))
}
func (c *Client) CanUseGrantType(g string) bool {
	c.w.enter("CanUseGrantType", c.ID)
	return has(c.Grants, g)
}
func (c *Client) CanUseScope(t flow.FlowType, s string) bool {
	c.w.enter("CanUseScope", c.ID+"|"+s)
	return c.ScopeOK(flowName(t), s)
}

// ScopeOK: every word of s is permitted for the named flow.
func (c *Client) ScopeOK(fl, s string) bool {
	for _, x := range strings.Fields(s) {
		if !has(c.Scopes[fl], x) {
			return false
		}
	}
	return true
}
func (c *Client) CanUseRedirectURI(u string) bool {
	c.w.enter("CanUseRedirectURI", c.ID+"|"+u)
	return has(c.RedirectURIs, u)
}
func (c *Client) GetAssertionKey(alg, kid string) interface{} {
	if c.w.enter("GetAssertionKey", c.ID+"|"+alg+"|"+kid) != "" {
		return nil
	}
	for _, k := range c.AKeys {
		if k.Alg == alg && k.Kid == kid {
			return PublicKey(k.Key)
		}
	}
	return nil
}
func (c *Client) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy {
	return prompt.NoConsentPromptPolicy(c.NoConsent)
}

var nonePolicies = [4]prompt.NonePromptPolicy{prompt.NonePromptPolicyForbidden, prompt.NonePromptPolicyAllowWithLoginSession, prompt.NonePromptPolicyAllowIfLoginHintMatched, prompt.NonePromptPolicyAllowIfIdTokenHintMatched}

func (c *Client) GetNonePromptPolicy() prompt.NonePromptPolicy {
	return nonePolicies[c.None&3]
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func flowName(t flow.FlowType) string {
	switch t {
	case flow.AuthorizationCode:
		return "authorization_code"
	case flow.Implicit:
		return "implicit"
	case flow.Hybrid:
		return "hybrid"
	case flow.DirectGrant:
		return "direct_grant"
	}
	return "?"
}

// ---- stored objects handed to goidc (immutable snapshots)

type Info struct{ InfoSpec }

func (i *Info) GetId() int64           { return i.ID }
func (i *Info) GetClientId() string    { return i.Client }
func (i *Info) GetUserId() int64       { return i.User }
func (i *Info) GetSubject() string     { return i.Subject }
func (i *Info) GetScope() string       { return i.Scope }
func (i *Info) GetAuthorizedAt() int64 { return i.AuthorizedAt }
func (i *Info) IsActive() bool         { return i.Active }

type Session struct{ SessionSpec }

func (s *Session) GetCode() string            { return s.Code }
func (s *Session) GetAuthId() int64           { return s.Info }
func (s *Session) GetAuthTime() int64         { return s.AuthTime }
func (s *Session) GetIdTokenExpiresIn() int64 { return s.IDTExpires }
func (s *Session) GetRedirectURI() string     { return s.RedirectURI }
func (s *Session) GetCodeVerifier() string    { return s.CodeVerifier }
func (s *Session) GetExpiresIn() int64        { return s.ExpiresIn }
func (s *Session) GetNonce() string           { return s.Nonce }
func (s *Session) GetCreatedAt() int64        { return s.CreatedAt }

type Token struct{ TokenSpec }

func (t *Token) GetAuthId() int64               { return t.Info }
func (t *Token) GetAccessToken() string         { return t.Access }
func (t *Token) GetAccessTokenExpiresIn() int64 { return t.AccessExp }
func (t *Token) GetRefreshedAt() int64          { return t.RefreshedAt }
func (t *Token) GetRefreshToken() string        { return t.Refresh }
func (t *Token) GetRefreshTokenExpiresIn() int64 {
	return t.RefreshExp
}
func (t *Token) GetCreatedAt() int64 { return t.CreatedAt }

func snapInfo(i *Info) *Info          { c := *i; return &c }
func snapSession(s *Session) *Session { c := *s; return &c }
func snapToken(t *Token) *Token       { c := *t; return &c }

// styled renders a credential so that encoding mistakes show. Access tokens
// must stay valid in a Bearer header, so only b64token characters are used.
func (w *World) styled(kind, core string) string {
	switch w.spec.Style {
	case 1:
		if kind == "at" {
			return core + "-._~+/=="
		}
		return core + " +/&=%#?;\"'<>é"
	case 2:
		return core + strings.Repeat("x", 300) + core
	case 4:
		return core + strings.Repeat("y", 9000) + core
	case 3:
		if kind == "at" {
			return core + "%2B+/="
		}
		return core + "%2B%00+% "
	}
	return core
}

// ---- bridge.DataInterface

func (w *World) FindClientById(id string) (bridge.Client, *bridge.Error) {
	if k := w.enter("FindClientById", id); k != "" {
		if strings.HasPrefix(k, "value+") {
			w.Mu.Lock()
			c := w.Clients[id]
			w.Mu.Unlock()
			if c != nil {
				return c, faultErr(k)
			}
		}
		return nil, faultErr(k)
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if c, ok := w.Clients[id]; ok {
		// a snapshot, as a real store would return
		cp := *c
		return &cp, nil
	}
	return nil, failed
}

func (w *World) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	k := w.enter("FindAuthSessionByCode", code)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	s, ok := w.Sessions[code]
	if k != "" {
		if strings.HasPrefix(k, "value+") && ok {
			return snapSession(s), faultErr(k)
		}
		return nil, faultErr(k)
	}
	if ok && !s.Disabled {
		return snapSession(s), nil
	}
	return nil, failed
}

func (w *World) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	k := w.enter("FindActiveAuthInfoById", fmt.Sprint(id))
	w.Mu.Lock()
	defer w.Mu.Unlock()
	i, ok := w.Infos[id]
	if k != "" {
		if strings.HasPrefix(k, "value+") && ok {
			return snapInfo(i), faultErr(k)
		}
		return nil, faultErr(k)
	}
	if ok && i.Active {
		return snapInfo(i), nil
	}
	return nil, failed
}

// InfoOf finds the stored grant of a user to a client (nil if none).
func (w *World) InfoOf(uid int64, client string) *Info {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if i := w.infoOf(uid, client); i != nil {
		return snapInfo(i)
	}
	return nil
}

func (w *World) infoOf(uid int64, client string) *Info {
	for _, i := range w.Infos {
		if i.User == uid && i.Client == client {
			return i
		}
	}
	return nil
}

func (w *World) FindAuthInfoByUserIdAndClientId(uid int64, client string) (bridge.AuthInfo, *bridge.Error) {
	k := w.enter("FindAuthInfoByUserIdAndClientId", fmt.Sprint(uid, "|", client))
	w.Mu.Lock()
	defer w.Mu.Unlock()
	i := w.infoOf(uid, client)
	if k != "" {
		if strings.HasPrefix(k, "value+") && i != nil {
			return snapInfo(i), faultErr(k)
		}
		return nil, faultErr(k)
	}
	if i != nil {
		return snapInfo(i), nil
	}
	return nil, failed
}

// AccessToken finds a stored, live token record by access token value.
func (w *World) tokenBy(f func(*Token) bool) *Token {
	for _, t := range w.Tokens {
		if !t.Gone && f(t) {
			return t
		}
	}
	return nil
}

func (w *World) TokenByAccess(v string) *Token {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if t := w.tokenBy(func(t *Token) bool { return t.Access == v }); t != nil {
		return snapToken(t)
	}
	return nil
}

func (w *World) TokenByRefresh(v string) *Token {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if t := w.tokenBy(func(t *Token) bool { return t.Refresh != "" && t.Refresh == v }); t != nil {
		return snapToken(t)
	}
	return nil
}

func (w *World) FindOAuthTokenByAccessToken(v string) (bridge.OAuthToken, *bridge.Error) {
	k := w.enter("FindOAuthTokenByAccessToken", v)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	t := w.tokenBy(func(t *Token) bool { return t.Access == v })
	if k != "" {
		if strings.HasPrefix(k, "value+") && t != nil {
			return snapToken(t), faultErr(k)
		}
		return nil, faultErr(k)
	}
	if t != nil {
		return snapToken(t), nil
	}
	return nil, failed
}

func (w *World) FindOAuthTokenByRefreshToken(v string) (bridge.OAuthToken, *bridge.Error) {
	k := w.enter("FindOAuthTokenByRefreshToken", v)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	t := w.tokenBy(func(t *Token) bool { return t.Refresh != "" && t.Refresh == v })
	if k != "" {
		if strings.HasPrefix(k, "value+") && t != nil {
			return snapToken(t), faultErr(k)
		}
		return nil, faultErr(k)
	}
	if t != nil {
		return snapToken(t), nil
	}
	return nil, failed
}

func (w *World) CreateOAuthToken(info bridge.AuthInfo, onTokenEndpoint bool) (bridge.OAuthToken, *bridge.Error) {
	id := int64(-1)
	if info != nil {
		id = info.GetId()
	}
	k := w.enter("CreateOAuthToken", fmt.Sprint(id, "|", onTokenEndpoint))
	if k != "" && !strings.HasPrefix(k, "value+") {
		return nil, faultErr(k)
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	i, ok := w.Infos[id]
	if !ok {
		return nil, failed
	}
	n := w.perInfo[id]
	w.perInfo[id] = n + 1
	t := &Token{TokenSpec{
		Info: id, Access: w.styled("at", fmt.Sprintf("AT-%d-%d", id, n)), AccessExp: w.spec.AccessTTL,
		RefreshedAt: w.Now, CreatedAt: w.Now, OnTokenEP: onTokenEndpoint,
	}}
	if onTokenEndpoint && has(strings.Fields(i.Scope), "offline_access") {
		t.Refresh = w.styled("rt", fmt.Sprintf("RT-%d-%d", id, n))
		t.RefreshExp = w.spec.RefreshTTL
	}
	w.Tokens = append(w.Tokens, t)
	return snapToken(t), faultErr(k)
}

func (w *World) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	id := int64(-1)
	if info != nil {
		id = info.GetId()
	}
	k := w.enter("RefreshAccessToken", fmt.Sprint(id, "|", old.GetRefreshToken()))
	if k != "" && !strings.HasPrefix(k, "value+") {
		return nil, faultErr(k)
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	t := w.tokenBy(func(t *Token) bool { return t.Refresh != "" && t.Refresh == old.GetRefreshToken() })
	if t == nil {
		return nil, failed
	}
	n := w.perInfo[t.Info]
	w.perInfo[t.Info] = n + 1
	t.Access = w.styled("at", fmt.Sprintf("AT-%d-%d", t.Info, n))
	t.AccessExp = w.spec.AccessTTL
	t.RefreshedAt = w.Now
	if w.spec.Rotate {
		t.Refresh = w.styled("rt", fmt.Sprintf("RT-%d-%d", t.Info, n))
		t.RefreshExp = w.spec.RefreshTTL
		t.CreatedAt = w.Now
	}
	return snapToken(t), faultErr(k)
}

func (w *World) FindUserId(name, password string) (int64, *bridge.Error) {
	k := w.enter("FindUserId", name+"|"+password)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	for _, u := range w.sortedUsers() {
		if u.Name == name && u.Password == password {
			if k != "" && k != "nil" {
				if strings.HasPrefix(k, "value+") {
					return u.ID, faultErr(k)
				}
				return -1, faultErr(k)
			}
			return u.ID, nil
		}
	}
	if k != "" && k != "nil" {
		return -1, faultErr(k)
	}
	return -1, failed
}

func (w *World) sortedUsers() []*UserSpec {
	var us []*UserSpec
	for _, u := range w.Users {
		us = append(us, u)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].ID < us[j].ID })
	return us
}

func (w *World) subject(uid int64, client string) string {
	s := fmt.Sprintf("user-%d", uid)
	if u, ok := w.Users[uid]; ok {
		s = u.Subject
	}
	if w.spec.PPID {
		return s + "@" + client
	}
	return s
}

// MergeScope is the scope a merging host stores.
func MergeScope(old, add string) string {
	l := strings.Fields(old)
	for _, x := range strings.Fields(add) {
		has := false
		for _, y := range l {
			has = has || x == y
		}
		if !has {
			l = append(l, x)
		}
	}
	return strings.Join(l, " ")
}

func (w *World) CreateOrUpdateAuthInfo(uid int64, client, scope string) (bridge.AuthInfo, *bridge.Error) {
	k := w.enter("CreateOrUpdateAuthInfo", fmt.Sprint(uid, "|", client, "|", scope))
	if k != "" && !strings.HasPrefix(k, "value+") {
		return nil, faultErr(k)
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	i := w.infoOf(uid, client)
	if i == nil {
		id := int64(1000) + uid*100 + int64(len(client))
		for w.Infos[id] != nil {
			id++
		}
		i = &Info{InfoSpec{ID: id, Client: client, User: uid, Subject: w.subject(uid, client)}}
		w.Infos[id] = i
	}
	if w.spec.Merge && i.Active {
		scope = MergeScope(i.Scope, scope)
	}
	i.Scope = scope
	i.AuthorizedAt = w.Now
	i.Active = true
	return snapInfo(i), faultErr(k)
}

func (w *World) CreateAuthSession(info bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	id := int64(-1)
	if info != nil {
		id = info.GetId()
	}
	k := w.enter("CreateAuthSession", fmt.Sprint(id, "|", s.Code))
	if e := faultErr(k); e != nil {
		return e
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if _, ok := w.Infos[id]; !ok {
		return failed
	}
	w.Sessions[s.Code] = &Session{SessionSpec{Code: s.Code, Info: id, RedirectURI: s.RedirectURI,
		CodeVerifier: s.CodeVerifier, Nonce: s.Nonce, AuthTime: s.AuthTime, ExpiresIn: s.ExpiresIn,
		CreatedAt: w.Now, IDTExpires: w.spec.IDTTL}}
	return nil
}

func (w *World) DisableSession(s bridge.AuthSession) *bridge.Error {
	code := ""
	if s != nil {
		code = s.GetCode()
	}
	k := w.enter("DisableSession", code)
	if e := faultErr(k); e != nil {
		return e
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	x, ok := w.Sessions[code]
	if !ok || x.Disabled {
		return failed
	}
	x.Disabled = true
	return nil
}

func (w *World) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	k := w.enter("FindUserIdBySubject", sub)
	w.Mu.Lock()
	defer w.Mu.Unlock()
	for _, u := range w.sortedUsers() {
		if u.Subject == sub {
			if k != "" && k != "nil" {
				if strings.HasPrefix(k, "value+") {
					return u.ID, faultErr(k)
				}
				return -1, faultErr(k)
			}
			return u.ID, nil
		}
	}
	if k != "" && k != "nil" {
		return -1, faultErr(k)
	}
	return -1, failed
}

// AssertionFresh says whether RecordAssertionClaims would accept the claims.
func (w *World) AssertionFresh(client, jti string, iat, exp int64) bool {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	return w.fresh(client, jti, iat, exp)
}

func (w *World) fresh(client, jti string, iat, exp int64) bool {
	switch w.spec.Records {
	case "jti":
		if jti == "" {
			return false
		}
	case "iat":
		if iat < 0 {
			return false
		}
	case "short":
		if exp > w.Now+86400 {
			return false
		}
	}
	return jti == "" || !w.used[client+"\x00"+jti]
}

func (w *World) RecordAssertionClaims(client, jti string, iat, exp int64) *bridge.Error {
	k := w.enter("RecordAssertionClaims", client+"|"+jti)
	if e := faultErr(k); e != nil {
		return e
	}
	w.Mu.Lock()
	defer w.Mu.Unlock()
	if !w.fresh(client, jti, iat, exp) {
		return failed
	}
	w.used[client+"\x00"+jti] = true
	w.Records = append(w.Records, Record{client, jti, iat, exp})
	return nil
}

// DI is the bridge.DataInterface view (Issuer is a method there, a field here).
type DI struct{ *World }

func (d DI) Issuer() string {
	if d.World.enter("Issuer", "") != "" {
		return ""
	}
	return d.World.Issuer
}

var _ bridge.DataInterface = DI{}

// ---- authorization callbacks

type Login struct {
	LoggedIn  bool
	UID       int64
	AuthTime  int64
	FromLogin bool
	Stale     bool `json:",omitempty"` // no session, but the host still answers for the user
}

// Callbacks is one browser session's view of the host.
type Callbacks struct {
	W *World
	Login
	CodePrefix string
	codes      int
	ErrScreens []int
	Logins     []*authorization.Request
	Consents   []Consent
	Pending    string // encoded pending request
	Codes      []string
}

type Consent struct {
	Client string
	Req    authorization.Request
}

var errHost = errors.New("host failure")

func (c *Callbacks) fail(m, args string) (string, bool) {
	k := c.W.enter(m, args)
	return k, k != ""
}

func (c *Callbacks) ShowErrorScreen(t int) {
	c.W.enter("ShowErrorScreen", fmt.Sprint(t))
	c.ErrScreens = append(c.ErrScreens, t)
}

func (c *Callbacks) ShowLoginScreen(r *authorization.Request) error {
	k, bad := c.fail("ShowLoginScreen", "")
	c.Logins = append(c.Logins, copyReq(r))
	if bad && k != "nil" {
		return errHost
	}
	c.Pending = r.Encode()
	return nil
}

func (c *Callbacks) ShowConsentScreen(cl bridge.Client, r *authorization.Request) error {
	k, bad := c.fail("ShowConsentScreen", "")
	id := ""
	if cl != nil {
		id = cl.GetId()
	}
	c.Consents = append(c.Consents, Consent{id, *copyReq(r)})
	if bad && k != "nil" {
		return errHost
	}
	c.Pending = r.Encode()
	return nil
}

func copyReq(r *authorization.Request) *authorization.Request {
	if r == nil {
		return nil
	}
	c := *r
	if r.Flow != nil {
		f := *r.Flow
		c.Flow = &f
	}
	return &c
}

func (c *Callbacks) ChooseLocale(l string) (string, error) {
	if k, bad := c.fail("ChooseLocale", l); bad && k != "nil" {
		return "", errHost
	}
	return "loc:" + l, nil
}

func (c *Callbacks) ConfirmLoginSession() (bool, error) {
	k, bad := c.fail("ConfirmLoginSession", "")
	if bad && k != "nil" {
		return strings.HasPrefix(k, "value+") && c.LoggedIn, errHost
	}
	return c.LoggedIn, nil
}

func (c *Callbacks) RequestIsFromLogin() (bool, error) {
	k, bad := c.fail("RequestIsFromLogin", "")
	if bad && k != "nil" {
		return strings.HasPrefix(k, "value+") && c.FromLogin, errHost
	}
	return c.FromLogin, nil
}

func (c *Callbacks) GetAuthTime() (int64, error) {
	k, bad := c.fail("GetAuthTime", "")
	if bad && k != "nil" {
		if strings.HasPrefix(k, "value+") {
			return c.AuthTime, errHost
		}
		return 0, errHost
	}
	return c.AuthTime, nil
}

func (c *Callbacks) GetLoginUserId() (int64, error) {
	k, bad := c.fail("GetLoginUserId", "")
	if (bad && k != "nil") || !c.LoggedIn && !c.Stale {
		if strings.HasPrefix(k, "value+") {
			return c.UID, errHost
		}
		return 0, errHost
	}
	return c.UID, nil
}

func (c *Callbacks) CreateAuthorizationCode() (string, error) {
	k, bad := c.fail("CreateAuthorizationCode", "")
	v := c.W.styled("code", fmt.Sprintf("%s-C%d", c.CodePrefix, c.codes))
	if bad && k != "nil" {
		if strings.HasPrefix(k, "value+") {
			return v, errHost
		}
		return "", errHost
	}
	c.codes++
	c.Codes = append(c.Codes, v)
	return v, nil
}

func (c *Callbacks) Continue() (*authorization.Request, error) {
	k, bad := c.fail("Continue", "")
	if (bad && k != "nil" && k != "zero") || c.Pending == "" {
		if strings.HasPrefix(k, "value+") && c.Pending != "" {
			return authorization.DecodeRequest(c.Pending), errHost
		}
		return nil, errHost
	}
	switch k {
	case "nil":
		return nil, nil
	case "zero":
		return &authorization.Request{}, nil
	}
	return authorization.DecodeRequest(c.Pending), nil
}

func (c *Callbacks) LoginUserIsMatchedToSubject(sub string) (bool, error) {
	k, bad := c.fail("LoginUserIsMatchedToSubject", sub)
	c.W.Mu.Lock()
	defer c.W.Mu.Unlock()
	m := false
	if c.LoggedIn || c.Stale {
		for _, u := range c.W.Users {
			if u.ID == c.UID && (u.Subject == sub || strings.HasPrefix(sub, u.Subject+"@")) {
				m = true
			}
		}
	}
	if bad && k != "nil" {
		return strings.HasPrefix(k, "value+") && m, errHost
	}
	return m, nil
}

var _ bridge.AuthorizationCallbacks = &Callbacks{}

// Merging says whether the host adds to grants instead of replacing them.
func (w *World) Merging() bool { return w.spec.Merge }
