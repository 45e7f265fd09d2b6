package props

import (
	"strings"

	"github.com/lyokato/goidc/grant"
	"pgregory.net/rapid"
)

const tokenRule = "Histories of token requests (correct ones, near-miss mutations of them, repetitions), host changes and clock steps over generated clients, users, grants, codes and tokens, compared step by step with a reference model, including storage effects. Non-trivial: "

func tokenProp(id, rule string, quick, thorough int, p *tokenProfile, interesting func(map[string]bool) bool) *Prop {
	pr := &Prop{
		ID: id, Level: "exploration", Rule: tokenRule + rule, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) interface{} { return genToken(t, p) },
		New: func() interface{} { return &TokenCase{} },
		Check: func(c interface{}) *Result {
			f, res, _ := runToken(c.(*TokenCase))
			res.Fail = f.forProp(id)
			cl := map[string]bool{}
			for _, x := range res.Classes {
				cl[x] = true
			}
			res.NonTrivial = interesting(cl)
			return res
		},
	}
	register(pr)
	return pr
}

func only(kinds ...string) map[string]int {
	m := map[string]int{}
	for _, k := range kinds {
		m[k] = 10
	}
	return m
}

var directGrants = []string{"password", "client_credentials", grant.TypeJWT}

func init() {
	p := defTokenProfile()
	p.auths = []string{"basic", "basic", "body", "query", "assertion"}
	p.faults = only("secret", "auth", "client")
	p.bad = 60
	p.host = 15
	tokenProp("T01", "the history contains a request with a missing, misplaced or wrong secret, or a correct secret.", 12000, 200000, p,
		anyOf("reason:secret", "reason:no-credential", "good-auth:header", "good-auth:body"))

	p = defTokenProfile()
	p.auths = []string{"assertion", "assertion", "assertion", "basic"}
	p.faults = only("assertion", "auth", "client")
	p.faults["assertion"] = 50
	p.bad = 60
	tokenProp("T02", "the history contains a request with a client assertion.", 6000, 120000, p, anyOf("auth:assertion", "reason:assertion-off"))

	p = defTokenProfile()
	p.permit = 25
	p.faults = only("granttype")
	p.bad = 40
	p.host = 25
	tokenProp("T03", "the history contains a request whose grant type is missing, unsupported or forbidden, or one permitted to a client that is not permitted everything.", 12000, 200000, p,
		anyPrefix("reason:grant-", "good:"))

	p = defTokenProfile()
	p.grants = []string{"authorization_code"}
	p.auths = []string{"basic", "basic", "body", "assertion"}
	p.faults = only("code", "redirect", "client", "drop")
	p.bad = 50
	p.advance = 35
	p.permit = 95
	p.host = 15
	tokenProp("T04", "a known code is presented.", 12000, 200000, p, func(m map[string]bool) bool {
		for k := range m {
			if strings.HasPrefix(k, "reason:code-") || strings.HasPrefix(k, "reason:redirect-") || k == "good:authorization_code" {
				return true
			}
		}
		return false
	})

	p = defTokenProfile()
	p.grants = []string{"authorization_code"}
	p.auths = []string{"basic", "body"}
	p.faults = only("pkce")
	p.bad = 60
	p.pkce = 90
	p.permit = 100
	p.host = 0
	p.advance = 0
	tokenProp("T05", "a code with a registered verifier is presented.", 12000, 200000, p, anyOf("reason:pkce", "good:pkce"))

	p = defTokenProfile()
	p.grants = []string{"refresh_token"}
	p.auths = []string{"basic", "basic", "body", "assertion"}
	p.faults = only("refresh", "client", "drop")
	p.bad = 40
	p.advance = 35
	p.permit = 95
	p.host = 25
	p.repeat = 35
	tokenProp("T07", "a refresh token is presented.", 12000, 200000, p, anyPrefix("reason:refresh-", "good:refresh_token"))

	p = defTokenProfile()
	p.grants = directGrants
	p.faults = only("user", "scope", "jwt", "drop", "client")
	p.permit = 95
	p.bad = 50
	p.host = 15
	tokenProp("T08", "a direct grant is requested.", 12000, 200000, p, anyOf("good:password", "good:client_credentials", "good:jwt", "reason:user", "reason:owner", "reason:scope", "reason:username-missing", "reason:password-missing"))

	p = defTokenProfile()
	p.grants = append([]string{grant.TypeJWT, grant.TypeJWT, grant.TypeJWT}, allGrants...)
	p.auths = []string{"assertion", "assertion", "basic"}
	p.faults = only("assertion", "jwt")
	p.bad = 55
	p.permit = 95
	p.advance = 30
	p.repeat = 35
	p.noIssuer = 2
	tokenProp("T09", "an assertion is used as client authentication or as a grant.", 6000, 120000, p, anyPrefix("reason:assertion-", "good:jwt", "good-auth:assertion"))

	p = defTokenProfile()
	p.bad = 35
	p.method = 15
	p.host = 4
	p.permit = 90
	tokenProp("T10", "the history contains a response of the endpoint.", 12000, 200000, p, anyPrefix("outcome:", "method:"))

	p = defTokenProfile()
	p.bad = 85
	p.follow = 85
	p.permit = 85
	p.host = 3
	t11 := tokenProp("T11", "the history contains a refused request followed by a correct one.", 6000, 150000, p, anyOf("refused, then tokens"))
	t11.Rule += " Each history is also run without its refused requests; a request that is refused only because of them is a violation."
	t11.Check = checkT11

	p = defTokenProfile()
	p.grants = []string{"authorization_code"}
	p.auths = []string{"basic", "basic", "body", "assertion"}
	p.faults = only("secret", "redirect", "pkce", "client", "granttype", "drop")
	p.bad = 50
	p.follow = 90
	p.permit = 97
	p.repeat = 60
	p.host = 2
	p.advance = 10
	t06 := tokenProp("T06", "a code is presented more than once, in sequence or with interleaved processing.", 5000, 100000, p, anyOf("code again", "race:contended"))
	t06.Gen = func(t *rapid.T) interface{} {
		c := genToken(t, p)
		if chance(t, 60) {
			c.Steps = append(c.Steps, genRace(t, c, p))
			if chance(t, 30) {
				c.Steps = append(c.Steps, c.Steps[len(c.Steps)-1].Race[0])
			}
		}
		return c
	}
	t06.Check = func(x interface{}) *Result {
		c := x.(*TokenCase)
		f, res, r := runToken(c)
		res.Fail = f.forProp("T06")
		seen := map[string]int{}
		for i := range c.Steps {
			if c.Steps[i].Op == "token" && r.Expected[i] != nil {
				for _, k := range r.Expected[i].cands {
					if k.want.sess != nil {
						seen[k.want.sess.Code]++
					}
				}
			}
		}
		for _, n := range seen {
			if n > 1 {
				res.class("code again")
				res.NonTrivial = true
			}
		}
		if hasStr(res.Classes, "race:contended") {
			res.NonTrivial = true
		}
		return res
	}
	t06.Extra = exhaustRaces
}

// genRace makes a step in which two or three requests for one code (some of
// them possibly wrong) are processed at the same time.
func genRace(t *rapid.T, c *TokenCase, p *tokenProfile) TokenStep {
	now := c.Spec.Now
	for _, s := range c.Steps {
		if s.Op == "advance" {
			now += s.N
		}
	}
	q := *p
	var g *gstep
	for i := 0; i < 4; i++ {
		g = genGood(t, &c.Spec, &c.Cfg, &q, now, 90+i)
		if g.sess != nil && !g.sess.Disabled && g.sess.CreatedAt+g.sess.ExpiresIn >= now {
			break
		}
	}
	st := TokenStep{Op: "race"}
	n := 2 + u(t, 2)
	for i := 0; i < n; i++ {
		x := g.clone()
		for _, a := range x.asr {
			if s, ok := a.jti.(string); ok {
				a.jti = s + string('p'+rune(i))
			}
		}
		if chance(t, 20) {
			spoil(t, x, &c.Spec, &c.Cfg, pick(t, "redirect", "pkce", "secret", "client"), now, 95+i)
		}
		st.Race = append(st.Race, x.render())
	}
	for i := 0; i < 12*n; i++ {
		st.Sched = append(st.Sched, u(t, n))
	}
	return st
}

// checkT11 also compares the history with the one without refused requests.
func checkT11(x interface{}) *Result {
	c := x.(*TokenCase)
	f, res, r := runToken(c)
	res.Fail = f.forProp("T11")
	refused := false
	d := *c
	d.Steps = nil
	var at []int // position of the kept steps
	suspect := false
	for i := range c.Steps {
		if c.Steps[i].Op == "token" && r.Expected[i] != nil {
			e := r.Expected[i]
			if r.Outcomes[i] == "refused" && !e.badMethod && e.mustRefuse() {
				refused = true
				continue
			}
			if r.Outcomes[i] == "200" && refused {
				res.class("refused, then tokens")
				res.NonTrivial = true
			}
			if r.Outcomes[i] == "refused" && e.mustSucceed() {
				suspect = true
			}
		}
		d.Steps = append(d.Steps, c.Steps[i])
		at = append(at, i)
	}
	if suspect && refused {
		_, _, r2 := runToken(&d)
		for j, i := range at {
			if r.Expected[i] != nil && r.Expected[i].mustSucceed() && r.Outcomes[i] == "refused" && r2.Outcomes[j] == "200" {
				res.Fail = append(res.Fail, f.l[0].msg+" (the request succeeds if the refused ones are left out)")
			}
		}
	}
	return res
}
