package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"pgregory.net/rapid"
)

func defProfile() *authzProfile {
	return &authzProfile{bad: map[string]int{}, prompts: promptsAll, login: 85, match: 50, weird: 10,
		maxSteps: 3, decide: 60, cancel: 15, host: 8, consent: 50, maxAge: 25, offline: 15, again: 30}
}

// authzProp registers a property decided by comparing histories of
// authorization requests with the reference model.
func authzProp(id, rule string, quick, thorough int, p *authzProfile, interesting func(map[string]bool) bool) {
	register(&Prop{
		ID: id, Level: "exploration", Rule: "Histories of authorization requests, decisions, host changes and clock steps, generated from a request grammar with near-miss faults and compared step by step with a reference model. Non-trivial: " + rule,
		Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) interface{} { return genAuthz(t, p) },
		New: func() interface{} { return &AuthzCase{} },
		Check: func(c interface{}) *Result {
			f, res := runAuthz(c.(*AuthzCase))
			res.Fail = f.forProp(id)
			if id != "I02" {
				res.Known = nil
			}
			cl := map[string]bool{}
			for _, x := range res.Classes {
				cl[x] = true
			}
			res.NonTrivial = interesting(cl)
			return res
		},
	})
}

func anyOf(xs ...string) func(map[string]bool) bool {
	return func(m map[string]bool) bool {
		for _, x := range xs {
			if m[x] {
				return true
			}
		}
		return false
	}
}

func anyPrefix(ps ...string) func(map[string]bool) bool {
	return func(m map[string]bool) bool {
		for k := range m {
			for _, p := range ps {
				if strings.HasPrefix(k, p) {
					return true
				}
			}
		}
		return false
	}
}

func init() {
	p := defProfile()
	p.bad["target"] = 65
	p.weird = 50
	p.dup = 10
	for _, k := range []string{"rt", "mode", "scope", "display"} {
		p.bad[k] = 10
	}
	authzProp("A01", "the history contains a request whose client or redirect URI is missing, unknown or unregistered.", 25000, 150000, p, anyOf("reason:target"))

	p = defProfile()
	p.weird = 95
	p.bad["rt"], p.bad["scope"], p.bad["mode"] = 8, 10, 6
	p.cancel = 30
	p.modes = []string{"", "query", "fragment", "form_post", "form_post"}
	p.badKey = 4
	authzProp("A02", "the history delivers at least one authorization response (success or error) to a redirect URI.", 25000, 150000, p, anyOf("outcome:error", "outcome:complete", "approved", "cancelled"))

	p = defProfile()
	p.bad["mode"] = 20
	p.bad["rt"], p.bad["scope"] = 6, 6
	p.cancel = 35
	p.decide = 90
	p.modes = []string{"", "query", "fragment", "form_post"}
	authzProp("A03", "a response is delivered for a request that named a response_mode or after a decision.", 25000, 150000, p, anyOf("mode:requested", "approved", "cancelled"))

	p = defProfile()
	for _, k := range []string{"rt", "flow", "display", "max_age", "prompt", "scope", "nonce", "verifier"} {
		p.bad[k] = 15
	}
	p.maxAge = 50
	p.dup = 10
	authzProp("A04", "the history contains a request with at least one of the listed faults, or one at an exact limit.", 25000, 200000, p,
		anyOf("reason:response_type", "reason:flow", "reason:display", "reason:max_age-format", "reason:max_age-range", "reason:prompt", "reason:no-scope", "reason:no-openid", "reason:scope", "reason:no-nonce", "reason:nonce-length", "reason:verifier-length", "at-limit"))

	p = defProfile()
	p.prompts = []string{"none", "none", "none", "none", "none none", "", "login"}
	p.match = 92
	p.login = 88
	p.maxAge = 40
	p.none = []int{1, 2, 3, 0, 1, 2, 3}
	p.offline = 4
	p.decide = 20
	authzProp("A05", "the history contains an otherwise valid request with prompt=none.", 25000, 150000, p, anyOf("prompt=none"))

	p = defProfile()
	p.prompts = []string{"", "", "login", "login consent", "consent", "select_account login"}
	p.login = 70
	p.maxAge = 75
	p.match = 80
	authzProp("A06", "a login session is missing, or the request carries max_age or prompt=login.", 25000, 150000, p, anyOf("reason:no-session", "reason:prompt-login", "reason:max-age", "max_age given"))

	p = defProfile()
	p.prompts = []string{"", "", "", "login", "consent", "select_account"}
	p.login = 97
	p.match = 92
	p.consent = 15
	p.offline = 5
	p.maxAge = 10
	authzProp("A07", "an interactive request of a logged-in user reaches the decision whether consent can be omitted.", 25000, 150000, p, anyOf("outcome:consent", "outcome:complete"))

	p = defProfile()
	p.login = 98
	p.match = 90
	p.decide = 90
	p.cancel = 5
	p.maxAge = 10
	authzProp("A08", "an authorization is completed (immediately or after approval).", 25000, 120000, p, anyOf("outcome:complete", "approved"))

	p = defProfile()
	p.login = 97
	p.offline = 75
	p.prompts = []string{"", "consent", "consent", "login consent", "none", "select_account consent", "login"}
	p.bad["scope"] = 25
	p.decide = 85
	p.maxAge = 5
	authzProp("A09", "offline_access is requested or an access token is issued.", 25000, 120000, p, anyPrefix("offline:", "token issued", "reason:offline-only"))

	p = defProfile()
	p.login = 98
	p.prompts = []string{"", "consent", "login consent", "login"}
	p.consent = 80
	p.decide = 98
	p.cancel = 75
	p.weird = 40
	authzProp("A10", "a pending request is cancelled.", 25000, 120000, p, anyOf("cancelled"))

	p = defProfile()
	p.login = 98
	p.match = 90
	p.decide = 90
	p.cancel = 3
	p.algs = idAlgs
	p.maxAge = 5
	authzProp("I02", "an ID token is delivered from the authorization endpoint.", 5000, 60000, p, anyOf("id_token issued"))

	register(&Prop{ID: "A11", Level: "exploration",
		Rule:  "Pending requests with generated values in every field, encoded, checked to use only URL-safe characters, carried through a query string, decoded and compared. Non-trivial: at least three fields contain characters outside [A-Za-z0-9].",
		Quick: 20000, Thorough: 1000000,
		Gen:   func(t *rapid.T) interface{} { return genPending(t) },
		New:   func() interface{} { return &authorization.Request{} },
		Check: func(c interface{}) *Result { return checkPending(c.(*authorization.Request)) }})
}

func genText(t *rapid.T) string {
	switch u(t, 5) {
	case 0:
		return pick(t, states...)
	case 1:
		return rapid.String().Draw(t, "s")
	case 2:
		return rapid.StringMatching(`[a-z0-9 _.~-]{0,40}`).Draw(t, "s")
	case 3:
		// every length, so that each base64 alignment occurs
		return strings.Repeat(pick(t, "a", "\x7f", "?", "\u00ff", "\u2028", "<>", "\U0010ffff", "\\", "\"", "\x00"), pick(t, u(t, 70), u(t, 70), u(t, 70), u(t, 1500)))
	}
	return pick(t, "", "x", "?>?>?>", "~~~~", "\u00be\u00bf\u00ff")
}

func genPending(t *rapid.T) *authorization.Request {
	r := &authorization.Request{ClientId: genText(t), Scope: genText(t), RedirectURI: genText(t), ResponseMode: genText(t),
		State: genText(t), CodeVerifier: genText(t), Nonce: genText(t), Display: genText(t), Prompt: genText(t),
		UILocale: genText(t), IdTokenHint: genText(t), LoginHint: genText(t),
		MaxAge: pick(t, rapid.Int64().Draw(t, "max_age"), 0, 1<<53+1, -1, 1<<63-1)}
	if !chance(t, 5) {
		r.Flow = &flow.Flow{Type: pick(t, flow.AuthorizationCode, flow.Implicit, flow.Hybrid, flow.DirectGrant),
			RequireAccessToken: chance(t, 50), RequireIdToken: chance(t, 50)}
	}
	return r
}

func checkPending(r *authorization.Request) *Result {
	res := &Result{}
	var enc string
	var back *authorization.Request
	before := *r
	if p := guard(func() { enc = r.Encode() }); p != "" {
		res.Fail = append(res.Fail, "Encode: "+p)
		return res
	}
	odd := 0
	v := reflect.ValueOf(*r)
	for i := 0; i < v.NumField(); i++ {
		if s, ok := v.Field(i).Interface().(string); ok && strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
			odd++
		}
	}
	res.NonTrivial = odd >= 3
	res.class(fmt.Sprintf("odd fields:%d", odd), fmt.Sprintf("len mod 3:%d", len(enc)%4))
	for i := 0; i < len(enc); i++ {
		c := enc[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '=' || c == '.' || c == '~') {
			res.Fail = append(res.Fail, fmt.Sprintf("encoded form contains %q: %s", c, q(enc)))
			break
		}
	}
	if p := guard(func() { back = authorization.DecodeRequest(enc) }); p != "" {
		res.Fail = append(res.Fail, "DecodeRequest: "+p)
		return res
	}
	if back == nil || !reflect.DeepEqual(back, r) {
		a, _ := json.Marshal(r)
		b, _ := json.Marshal(back)
		res.Fail = append(res.Fail, fmt.Sprintf("decoded request differs: %s became %s", a, b))
	}
	if !reflect.DeepEqual(*r, before) {
		res.Fail = append(res.Fail, "Encode changed the request")
	}
	// another request, decoded later, leaves this one alone
	other := &authorization.Request{Flow: &flow.Flow{Type: flow.Hybrid, RequireAccessToken: true, RequireIdToken: true}, ClientId: "other", Scope: "other", State: "other", MaxAge: 77}
	if r.Flow != nil {
		f := *r.Flow
		f.RequireIdToken, f.RequireAccessToken = !f.RequireIdToken, !f.RequireAccessToken
		other.Flow = &f
	}
	var back2 *authorization.Request
	if p := guard(func() { back2 = authorization.DecodeRequest(other.Encode()) }); p != "" {
		res.Fail = append(res.Fail, "second request: "+p)
	} else if back2 == nil || !reflect.DeepEqual(back2, other) {
		res.Fail = append(res.Fail, fmt.Sprintf("second request differs: %+v", back2))
	} else if !reflect.DeepEqual(back, r) && len(res.Fail) == 0 {
		res.Fail = append(res.Fail, "decoding another request changed the decoded one")
	}
	return res
}
