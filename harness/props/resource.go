package props

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	goidc "github.com/lyokato/goidc"
	oer "github.com/lyokato/goidc/oauth_error"
	"verif/world"
)

// ResCfg configures a resource protector.
type ResCfg struct {
	Realm    string
	Accept   int // 0 header, 1 header and body, 2 all
	ErrorURI string
	FixedURI bool `json:",omitempty"` // the same for all errors
	Twice    bool `json:",omitempty"` // configured otherwise first
}

// errorURI is the error_uri belonging to an error.
func (c *ResCfg) errorURI(code string) string {
	if c.ErrorURI == "" || c.FixedURI {
		return c.ErrorURI
	}
	return c.ErrorURI + code
}

// ResStep is one step of a history against a resource protector.
type ResStep struct {
	Op      string              // access, advance, host, renew
	Method  string              `json:",omitempty"`
	Path    string              `json:",omitempty"`
	Query   []KV                `json:",omitempty"`
	Body    []KV                `json:",omitempty"`
	CType   string              `json:",omitempty"` // "" form, "plain", "multipart"
	Auth    string              `json:",omitempty"`
	Headers []KV                `json:",omitempty"`
	Scopes  map[string][]string `json:",omitempty"`
	Scoped  bool                `json:",omitempty"` // ValidateWithScopes
	N       int64               `json:",omitempty"`
	Host    string              `json:",omitempty"`
	Arg     string              `json:",omitempty"`
	Arg2    string              `json:",omitempty"`
}

type ResCase struct {
	Live  int `json:",omitempty"` // instead of the rest, see live.go
	Spec  world.Spec
	Cfg   ResCfg
	Steps []ResStep
}

func newProtector(cfg *ResCfg, w *world.World) *goidc.ResourceProtector {
	rp := goidc.NewResourceProtector(cfg.Realm)
	if liveNow == 0 {
		rp.SetLogger(nopLogger{})
		rp.SetTimeBuilder(w.Clock)
	}
	if cfg.Twice { // what is set last counts
		rp.AcceptAccessToken(acceptance[2-cfg.Accept])
		rp.AcceptAccessToken(acceptance[cfg.Accept])
		if cfg.ErrorURI != "" {
			rp.SetErrorURI("https://old.example/errors")
		}
	}
	if cfg.Accept != 0 { // the default is header only
		rp.AcceptAccessToken(acceptance[cfg.Accept])
	}
	if cfg.ErrorURI != "" && cfg.FixedURI {
		rp.SetErrorURI(cfg.ErrorURI)
	} else if cfg.ErrorURI != "" {
		uri := cfg.ErrorURI
		rp.SetErrorURIBulder(func(t oer.OAuthErrorType) string { return uri + t.String() })
	}
	twinProtector(cfg.Accept)
	return rp
}

func (st *ResStep) request() *http.Request {
	var r *http.Request
	switch st.CType {
	case "multipart":
		var b strings.Builder
		for _, x := range st.Body {
			fmt.Fprintf(&b, "--sep\r\nContent-Disposition: form-data; name=%q\r\n\r\n%s\r\n", x.K, x.V)
		}
		b.WriteString("--sep--\r\n")
		r = rawRequest(st.Method, st.Path, st.Query, b.String(), "multipart/form-data; boundary=sep")
	case "plain":
		r = rawRequest(st.Method, st.Path, st.Query, encodeKVs(st.Body), "text/plain")
	default:
		r = httpRequest(st.Method, st.Path, st.Query, st.Body)
	}
	if st.Auth != "" {
		r.Header.Set("Authorization", st.Auth)
	}
	for _, h := range st.Headers {
		r.Header.Add(h.K, h.V)
	}
	return maybeParsed(r)
}

func rawRequest(method, path string, query []KV, body, ctype string) *http.Request {
	u := "http://op.example" + path
	if len(query) > 0 {
		u += "?" + encodeKVs(query)
	}
	r, err := http.NewRequest(method, u, strings.NewReader(body))
	if err != nil {
		panic(err)
	}
	r.Header.Set("Content-Type", ctype)
	return r
}

// ---- model

// place is one token carried by a request.
type place struct {
	where string // header, body, query
	tok   string
	open  bool // may or may not be read
}

// carried lists the tokens in accepted places, first the one that counts.
func (st *ResStep) carried(accept int) (in []place, misplaced bool) {
	scheme, rest, found := strings.Cut(st.Auth, " ")
	if found && strings.EqualFold(scheme, "bearer") && rest != "" {
		in = append(in, place{"header", rest, strings.ContainsAny(rest, " \t")})
	}
	if b := kvGet(st.Body, "access_token"); b != "" {
		post := st.Method == "POST"
		switch {
		case accept == 0, st.CType == "plain":
			misplaced = true
		case post && st.CType == "":
			in = append(in, place{"body", b, false})
		case post || st.Method == "PUT" || st.Method == "PATCH" || st.CType == "multipart":
			in = append(in, place{"body", b, true})
		default:
			misplaced = true
		}
	}
	if v := kvGet(st.Query, "access_token"); v != "" {
		if accept == 2 {
			in = append(in, place{"query", v, false})
		} else {
			misplaced = true
		}
	}
	return
}

type tokenState struct {
	tok  *world.Token
	info *world.Info
	why  string // "" if live
}

func liveToken(w *world.World, v string) tokenState {
	t := w.TokenByAccess(v)
	if t == nil {
		return tokenState{why: "token-unknown"}
	}
	s := tokenState{tok: t}
	w.Mu.Lock()
	if i := w.Infos[t.Info]; i != nil {
		c := *i
		s.info = &c
	}
	now := w.Now
	w.Mu.Unlock()
	switch {
	case now > t.RefreshedAt+t.AccessExp:
		s.why = "token-expired"
	case s.info == nil || !s.info.Active:
		s.why = "token-inactive"
	}
	return s
}

// pathOf is the path of the request as the server sees it.
func (st *ResStep) pathOf() string { return st.request().URL.Path }

func missingScope(st *ResStep, granted string) bool {
	if !st.Scoped {
		return false
	}
	have := words(granted)
	for _, x := range st.Scopes[st.pathOf()] {
		if !have[x] {
			return true
		}
	}
	return false
}

// ---- execution

type ResRun struct {
	W     *world.World
	RP    *goidc.ResourceProtector
	Cfg   *ResCfg
	F     *findings
	Res   *Result
	nStep int
}

func newResRun(spec world.Spec, cfg *ResCfg, f *findings, res *Result) *ResRun {
	w := world.New(spec)
	return &ResRun{W: w, RP: newProtector(cfg, w), Cfg: cfg, F: f, Res: res}
}

func (r *ResRun) Step(st *ResStep) {
	r.nStep++
	switch st.Op {
	case "advance":
		r.W.Mu.Lock()
		r.W.Now += st.N
		r.W.Mu.Unlock()
	case "host":
		hostChange(r.W, st.Host, st.Arg, st.Arg2)
	case "renew": // the store refreshes the token in place
		r.W.Mu.Lock()
		for _, t := range r.W.Tokens {
			if t.Access == st.Arg && !t.Gone {
				t.RefreshedAt = r.W.Now
				if st.Arg2 != "" {
					t.Access = st.Arg2
				}
			}
		}
		r.W.Mu.Unlock()
	case "access":
		r.access(st)
	}
}

var identityHeaders = []string{"X-Oauth-User-Id", "X-Oauth-Client-Id", "X-Oauth-Scope"}

func (r *ResRun) access(st *ResStep) {
	say := func(f string, a ...interface{}) string {
		return fmt.Sprintf("step %d (access): ", r.nStep) + fmt.Sprintf(f, a...)
	}
	req := st.request()
	before := req.Header.Clone()
	rec := world.NewRec()
	n := r.W.LogLen()
	snap := snapshotInfos(r.W)
	var allowed bool
	p := guard(func() {
		if st.Scoped {
			allowed = r.RP.ValidateWithScopes(rec, req, world.DI{World: r.W}, st.Scopes)
		} else {
			allowed = r.RP.Validate(rec, req, world.DI{World: r.W})
		}
	})
	if p != "" {
		anyProp(r.F, say("%s", p))
		return
	}
	if wr := writeCalls(r.W.Since(n)); len(wr) > 0 || fmt.Sprint(snapshotInfos(r.W)) != fmt.Sprint(snap) {
		r.F.add(say("storage changed: %v", wr), "R01")
	}
	places, misplaced := st.carried(r.Cfg.Accept)
	judgeAccess(r.F, r.Res, say, r.W, r.Cfg, st, places, misplaced, allowed, before, req.Header, rec)
}

func judgeAccess(f *findings, res *Result, say func(string, ...interface{}) string, w *world.World, cfg *ResCfg, st *ResStep, places []place, misplaced bool, allowed bool, before, after http.Header, rec *world.Rec) {
	var lives []tokenState
	for _, p := range places {
		s := liveToken(w, p.tok)
		lives = append(lives, s)
		if s.why != "" {
			res.class(s.why)
		} else {
			res.class("live in " + p.where)
		}
	}
	if misplaced {
		res.class("misplaced token")
	}
	if len(places) == 0 {
		res.class("no token")
	}
	if len(places) > 1 {
		res.class("several tokens")
	}
	// the first token decides; a wrong first one may let a later one through
	must := len(places) > 0 && !places[0].open && lives[0].why == ""
	if len(places) > 1 && places[0].open {
		must = false
	}
	var okStates []tokenState
	for i := range places {
		if lives[i].why == "" {
			okStates = append(okStates, lives[i])
		}
		if must {
			break
		}
	}
	var scopeFree []tokenState
	for _, s := range okStates {
		if !missingScope(st, s.info.Scope) {
			scopeFree = append(scopeFree, s)
		}
	}
	placeTags := []string{"R01", "R04"}
	if allowed {
		res.class("allowed")
		if rec.Code != 0 || rec.Body.Len() > 0 || len(rec.Head()) > 0 {
			f.add(say("allowed, yet a response was written: %d %v", rec.Code, rec.Head()), "R01")
		}
		switch {
		case len(okStates) == 0:
			tags := []string{"R01"}
			if misplaced {
				tags = append(tags, "R04")
			}
			if st.Scoped {
				tags = append(tags, "R03")
			}
			f.add(say("allowed, though its tokens are %v (%v misplaced)", lives, misplaced), tags...)
			return
		case len(scopeFree) == 0:
			f.add(say("allowed at %q (requires %v) with scope %q", st.pathOf(), st.Scopes[st.pathOf()], okStates[0].info.Scope), "R03")
			return
		}
		// identity
		match := false
		for _, s := range scopeFree {
			if identityIs(after, s.info) {
				match = true
			}
		}
		if !match {
			f.add(say("identity headers are %q %q %q, the token's grant is %+v", after["X-Oauth-User-Id"], after["X-Oauth-Client-Id"], after["X-Oauth-Scope"], scopeFree[0].info), "R02")
		}
		for k, v := range before {
			if !hasStr(identityHeaders, k) && fmt.Sprintf("%q", after[k]) != fmt.Sprintf("%q", v) {
				f.add(say("header %s changed from %q to %q", k, v, after[k]), "R02")
			}
		}
		for k := range after {
			if _, had := before[k]; !had && !hasStr(identityHeaders, k) {
				f.add(say("header %s: %q appeared", k, after[k]), "R02")
			}
		}
		for _, k := range identityHeaders {
			if len(before[k]) > 0 {
				res.class("spoofed " + k)
			}
		}
		if st.Scoped && len(st.Scopes[st.pathOf()]) > 0 {
			res.class("scope sufficient")
		}
		return
	}
	// refused
	want := set{}
	code := rec.Code
	ch := bearerChallenge(rec.Head())
	switch {
	case must && len(scopeFree) > 0:
		tags := []string{"R01"}
		switch places[0].where {
		case "header":
			if ch["error"] == "invalid_request" {
				tags = placeTags
			}
		default:
			tags = placeTags
		}
		if code == 403 || ch["error"] == "insufficient_scope" {
			tags = []string{"R03"}
		}
		if len(places) > 1 {
			tags = append(tags, "R04")
		}
		f.add(say("refused (%d %v), though its token is live and its scope %q suffices", code, rec.Head(), lives[0].info.Scope), tags...)
		return
	case must:
		res.class("scope insufficient")
		want.add("403 insufficient_scope")
	case len(places) == 0:
		want.add("400 invalid_request", "401 invalid_request", "401 invalid_token", "401 ")
	default:
		want.add("401 invalid_token")
		for _, s := range okStates {
			if missingScope(st, s.info.Scope) {
				want.add("403 insufficient_scope")
			}
		}
		for _, p := range places {
			if p.open {
				want.add("400 invalid_request", "401 invalid_request", "401 ")
			}
		}
		if len(places) > 1 {
			want.add("400 invalid_request")
		}
	}
	res.class("refused " + fmt.Sprint(code))
	got := fmt.Sprintf("%d %s", code, ch["error"])
	tags := []string{"R01"}
	if want["403 insufficient_scope"] || code == 403 {
		tags = append(tags, "R03")
	}
	if misplaced {
		tags = append(tags, "R04")
	}
	if !want[got] {
		f.add(say("refused with %s, expected one of %v", got, want), tags...)
	}
	if ch == nil || ch["realm"] != cfg.Realm {
		f.add(say("challenge is %q, expected Bearer for realm %q", rec.Head()["Www-Authenticate"], cfg.Realm), tags...)
	} else if ch["error"] != "" && ch["error_uri"] != cfg.errorURI(ch["error"]) {
		f.add(say("error_uri is %q, expected %q", ch["error_uri"], cfg.errorURI(ch["error"])), tags...)
	}
}

func identityIs(h http.Header, i *world.Info) bool {
	one := func(k, v string) bool {
		x := h[k]
		return len(x) == 1 && x[0] == v || len(x) == 0 && v == ""
	}
	return one("X-Oauth-User-Id", fmt.Sprint(i.User)) && one("X-Oauth-Client-Id", i.Client) && one("X-Oauth-Scope", i.Scope)
}

// bearerChallenge parses the Bearer challenge, nil if there is none.
func bearerChallenge(h http.Header) map[string]string {
	for _, v := range h["Www-Authenticate"] {
		scheme, rest, _ := strings.Cut(v, " ")
		if strings.EqualFold(scheme, "Bearer") {
			if m, err := parseAuthParams(rest); err == nil {
				return m
			}
		}
	}
	return nil
}

// parseAuthParams parses comma-separated name="quoted string" pairs (RFC 7235).
func parseAuthParams(s string) (map[string]string, error) {
	m := map[string]string{}
	for {
		s = strings.TrimLeft(s, " \t,")
		if s == "" {
			return m, nil
		}
		i := strings.IndexByte(s, '=')
		if i <= 0 {
			return nil, fmt.Errorf("no parameter at %q", s)
		}
		k := strings.ToLower(strings.TrimSpace(s[:i]))
		s = strings.TrimLeft(s[i+1:], " ")
		var v strings.Builder
		if strings.HasPrefix(s, `"`) {
			j := 1
			for ; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' && j+1 < len(s) {
					j++
				}
				v.WriteByte(s[j])
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated %q", s)
			}
			s = s[j+1:]
		} else {
			j := strings.IndexByte(s, ',')
			if j < 0 {
				j = len(s)
			}
			v.WriteString(strings.TrimSpace(s[:j]))
			s = s[j:]
		}
		if _, dup := m[k]; dup {
			return nil, fmt.Errorf("repeated %q", k)
		}
		m[k] = v.String()
	}
}

func runRes(c *ResCase) (*findings, *Result, *ResRun) {
	f, res := &findings{}, &Result{}
	r := newResRun(c.Spec, &c.Cfg, f, res)
	for i := range c.Steps {
		r.Step(&c.Steps[i])
	}
	return f, res, r
}

func sortedPaths(m map[string][]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
