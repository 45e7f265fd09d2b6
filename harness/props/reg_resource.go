package props

import "pgregory.net/rapid"

func resProp(id, rule string, quick, thorough int, p *resProfile, interesting func(map[string]bool) bool) {
	register(&Prop{
		ID: id, Level: "exploration", Quick: quick, Thorough: thorough,
		Rule: "Histories of accesses to protected resources, revocations, refreshes and clock steps over generated grants, tokens and protector settings, compared step by step with a reference model. Non-trivial: " + rule,
		Gen:  func(t *rapid.T) interface{} { return genRes(t, p) },
		New:  func() interface{} { return &ResCase{} },
		Check: func(c interface{}) *Result {
			f, res, _ := runRes(c.(*ResCase))
			res.Fail = f.forProp(id)
			cl := map[string]bool{}
			for _, x := range res.Classes {
				cl[x] = true
			}
			res.NonTrivial = interesting(cl)
			return res
		},
	})
}

func init() {
	resProp("R01", "a token is carried in an accepted place.", 60000, 1500000,
		&resProfile{spoof: 10, scoped: 20, places: 25, host: 25, advance: 35, bad: 25, maxSteps: 5},
		anyOf("live in header", "live in body", "live in query", "token-unknown", "token-expired", "token-inactive"))
	resProp("R02", "access is allowed to a request that carries identity headers of its own.", 60000, 1500000,
		&resProfile{spoof: 85, scoped: 30, places: 10, host: 8, advance: 8, bad: 4, maxSteps: 4},
		anyPrefix("spoofed "))
	resProp("R03", "a live token meets a path that requires scopes.", 60000, 1500000,
		&resProfile{spoof: 40, scoped: 95, places: 10, host: 15, advance: 8, bad: 6, maxSteps: 4},
		anyOf("scope sufficient", "scope insufficient"))
	resProp("R04", "a token is carried outside the header.", 60000, 1500000,
		&resProfile{spoof: 10, scoped: 15, places: 90, host: 5, advance: 8, bad: 15, maxSteps: 4},
		anyOf("misplaced token", "live in body", "live in query", "several tokens"))
}
