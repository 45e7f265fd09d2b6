package props

import (
	"encoding/json"
	"fmt"

	"verif/world"
)

// race serves several requests whose host calls are interleaved as the step
// says, and checks that a code yields tokens at most once.
func (r *TokenRun) race(st *TokenStep) {
	say := func(f string, a ...interface{}) string {
		return fmt.Sprintf("step %d (race): ", r.nStep) + fmt.Sprintf(f, a...)
	}
	n := len(st.Race)
	var exp []*tokenExpect
	right := map[string]int{} // right requests per code
	for i := range st.Race {
		e := modelTokenRequest(r.W, r.Cfg, &st.Race[i])
		exp = append(exp, e)
		if e.mustSucceed() && e.cands[0].want.sess != nil && !e.cands[0].want.badKey {
			right[e.cands[0].want.sess.Code]++
		}
	}
	// a statement another of the requests used up may be refused
	jtiTaken := make([]bool, n)
	for i := range st.Race {
		ci := formValue("POST", st.Race[i].Query, st.Race[i].Body, "code")
		for k := range st.Race {
			if k == i {
				continue
			}
			for j := range st.Race[k].jtis() {
				if st.Race[i].jtis()[j] {
					jtiTaken[i] = true
					if ck := formValue("POST", st.Race[k].Query, st.Race[k].Body, "code"); ck != ci || !exp[k].mustSucceed() {
						delete(right, ci)
					}
				}
			}
		}
	}
	recs := make([]*world.Rec, n)
	panics := make([]string, n)
	s := newSched(n)
	var fs []func()
	for i := range st.Race {
		i := i
		recs[i] = world.NewRec()
		req := st.Race[i].request()
		fs = append(fs, func() { panics[i] = guard(func() { r.H(recs[i], req) }) })
	}
	r.W.Gate = s.Gate
	ended := s.Run(fs, st.Sched)
	r.W.Gate = nil
	wins := map[string]int{}
	tokens := map[string]int{}
	for i := range st.Race {
		if !ended[i] {
			r.F.add(say("request %d does not come to an end", i), "X04")
			return
		}
		if panics[i] != "" {
			anyProp(r.F, say("request %d: %s", i, panics[i]))
			continue
		}
		rep := parseTokenReply(recs[i])
		e := exp[i]
		code := formValue("POST", st.Race[i].Query, st.Race[i].Body, "code")
		if rep.Code == 200 {
			wins[code]++
			tokens[rep.str("access_token")]++
			if e.mustRefuse() {
				r.F.add(say("request %d: tokens issued, expected %v", i, e), append(tokenTags(e.reasons()), "T06")...)
			}
			t := r.W.TokenByAccess(rep.str("access_token"))
			if t == nil {
				r.F.add(say("request %d: delivered access token is not stored", i), "T06", "T10")
			} else if len(e.cands) > 0 && e.cands[0].want.sess != nil && t.Info != e.cands[0].want.sess.Info {
				r.F.add(say("request %d: token for grant %d, the code's is %d", i, t.Info, e.cands[0].want.sess.Info), "T06", "T04")
			}
			r.Res.class("race:tokens")
		} else {
			checkTokenRendering(r.F, r.Cfg, say, rep)
			if e.mustRefuse() && !e.codes()[rep.str("error")] && rep.str("error") != "invalid_grant" &&
				!(jtiTaken[i] && (rep.str("error") == "invalid_client" || rep.str("error") == "invalid_request")) {
				r.F.add(say("request %d: refused with %q, expected %v", i, rep.str("error"), e), tokenTags(e.reasons())...)
			}
			r.Res.class("race:refused")
		}
	}
	for c, k := range wins {
		if k > 1 {
			r.F.add(say("%d requests received tokens for code %s", k, q(c)), "T06")
		}
	}
	for a, k := range tokens {
		if k > 1 {
			r.F.add(say("access token %s delivered %d times", q(a), k), "T06")
		}
	}
	for c, k := range right {
		if wins[c] == 0 {
			r.F.add(say("none of %d right requests for code %s received tokens", k, q(c)), "T06", "T04")
		}
		if k > 1 {
			r.Res.class("race:contended")
		}
		r.W.Mu.Lock()
		x := r.W.Sessions[c]
		dis := x == nil || x.Disabled
		r.W.Mu.Unlock()
		if wins[c] > 0 && !dis {
			r.F.add(say("tokens issued, but the code is still enabled"), "T06")
		}
	}
}

// exhaustRaces runs every interleaving of two right requests for one code (by
// secret, without and with an ID token) with at most five switches between them
// (without bound in the thorough tier).
func exhaustRaces(thorough bool, note func(c interface{}, r *Result)) {
	switches := 5
	if thorough {
		switches = 1000
	}
	for variant := 0; variant < 2; variant++ {
		sc := "read"
		if variant == 1 {
			sc = "openid offline_access"
		}
		spec := world.Spec{Issuer: "https://op.example", Now: t0, AccessTTL: 60, RefreshTTL: 600, IDTTL: 60,
			Clients:  []world.ClientSpec{{ID: "c", Secret: "s", Grants: []string{"authorization_code"}, IDAlg: "HS256", IDKey: "hk-a"}},
			Users:    []world.UserSpec{{ID: 1, Name: "n", Password: "p", Subject: "sub"}},
			Infos:    []world.InfoSpec{{ID: 5, Client: "c", User: 1, Subject: "sub", Scope: sc, Active: true}},
			Sessions: []world.SessionSpec{{Code: "x", Info: 5, RedirectURI: "https://c.example/", ExpiresIn: 60, CreatedAt: t0}}}
		req := TokenStep{Op: "token", Method: "POST", Auth: "Basic Yzpz", Body: []KV{{"grant_type", "authorization_code"}, {"code", "x"}, {"redirect_uri", "https://c.example/"}}}
		// number of host calls of one request
		one := TokenCase{Spec: spec, Cfg: TokenCfg{Support: []string{"authorization_code"}}, Steps: []TokenStep{req}}
		f, _, r := runToken(&one)
		if len(f.l) > 0 {
			return // judged by the search
		}
		k := r.W.LogLen() + 1
		var rec func(s []int, a, b, last, sw int)
		rec = func(s []int, a, b, last, sw int) {
			if sw > switches {
				return
			}
			if a == 0 && b == 0 {
				c := &TokenCase{Spec: spec, Cfg: one.Cfg, Steps: []TokenStep{{Op: "race", Race: []TokenStep{req, req}, Sched: append([]int(nil), s...)}}}
				f, res, _ := runToken(c)
				res.Fail = f.forProp("T06")
				res.NonTrivial = true
				res.class("enumerated interleaving")
				note(c, res)
				return
			}
			next := func(choice, who, a, b int) {
				x := sw
				if last >= 0 && last != who {
					x++
				}
				rec(append(s, choice), a, b, who, x)
			}
			if a > 0 {
				next(0, 0, a-1, b)
			}
			if b > 0 && a > 0 {
				next(1, 1, a, b-1)
			} else if b > 0 {
				next(0, 1, a, b-1)
			}
		}
		rec(nil, k, k, -1, 0)
	}
}

// jtis lists the identifiers of a request's signed statements.
func (st *TokenStep) jtis() map[string]bool {
	m := map[string]bool{}
	for _, j := range st.JWTs {
		var c map[string]interface{}
		if json.Unmarshal([]byte(j.Claims), &c) == nil {
			if s, ok := c["jti"].(string); ok {
				m[s] = true
			}
		}
	}
	return m
}
