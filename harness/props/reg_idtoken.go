package props

import "pgregory.net/rapid"

// IDTCase is a history against one of the two endpoints that issue ID tokens.
type IDTCase struct {
	Live  int        `json:",omitempty"` // instead of the rest, see live.go
	Authz *AuthzCase `json:",omitempty"`
	Token *TokenCase `json:",omitempty"`
}

func init() {
	pa := defProfile()
	pa.login = 98
	pa.match = 92
	pa.decide = 90
	pa.cancel = 3
	pa.maxAge = 5
	pa.algs = idAlgs
	pa.badKey = 10
	pa.rotate = 20
	pt := defTokenProfile()
	pt.grants = []string{"authorization_code"}
	pt.auths = []string{"basic", "body"}
	pt.faults = only("scope", "code")
	pt.bad = 8
	pt.permit = 100
	pt.openid = 85
	pt.algs = idAlgs
	pt.badKey = 10
	pt.rotate = 20
	register(&Prop{
		ID: "I01", Level: "exploration", Quick: 10000, Thorough: 150000,
		Rule: "Histories of authorization requests or of code redemptions over generated clients with every signing algorithm, changing and unusable keys; each ID token is parsed and verified by an independent implementation and its claims compared with the model's. Non-trivial: an ID token is issued, or one was due but cannot be signed.",
		Gen: func(t *rapid.T) interface{} {
			if chance(t, 55) {
				return &IDTCase{Authz: genAuthz(t, pa)}
			}
			return &IDTCase{Token: genToken(t, pt)}
		},
		New: func() interface{} { return &IDTCase{} },
		Check: func(c interface{}) *Result {
			x := c.(*IDTCase)
			var f *findings
			var res *Result
			if x.Authz != nil {
				f, res = runAuthz(x.Authz)
				res.class("endpoint:authorization")
			} else {
				f, res, _ = runToken(x.Token)
				res.class("endpoint:token")
			}
			res.Fail = f.forProp("I01")
			res.Known = nil
			for _, k := range res.Classes {
				if k == "id_token issued" || k == "unusable signing key" {
					res.NonTrivial = true
				}
			}
			return res
		},
	})
}
