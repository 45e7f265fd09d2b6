package props

import (
	"fmt"
	"net/http"
	"strings"

	"pgregory.net/rapid"
	"verif/world"
)

// Faults are injected at every host call of a generated scenario: each call,
// each failure kind, one at a time, and in sampled pairs.

// storeKinds are the ways a storage call can fail. A call that yields a value
// can also yield nothing, or a value together with an error.
var errKinds = []string{"unsupported", "server", "failed"}

func kindsOf(method string) []string {
	switch method {
	case "FindClientById", "FindAuthSessionByCode", "FindActiveAuthInfoById", "FindAuthInfoByUserIdAndClientId",
		"FindOAuthTokenByAccessToken", "FindOAuthTokenByRefreshToken", "CreateOAuthToken", "RefreshAccessToken", "CreateOrUpdateAuthInfo":
		return []string{"unsupported", "server", "failed", "nil", "value+unsupported", "value+server", "value+failed"}
	case "FindUserId", "FindUserIdBySubject":
		return []string{"unsupported", "server", "failed", "value+unsupported", "value+server", "value+failed"}
	case "CreateAuthSession", "DisableSession", "RecordAssertionClaims":
		return errKinds
	case "GetAssertionKey":
		return []string{"nil"}
	// authorization callbacks
	case "ConfirmLoginSession", "RequestIsFromLogin", "GetAuthTime", "GetLoginUserId", "CreateAuthorizationCode", "LoginUserIsMatchedToSubject":
		return []string{"host", "value+host"}
	case "ShowLoginScreen", "ShowConsentScreen", "ChooseLocale":
		return []string{"host"}
	case "Continue":
		return []string{"host", "value+host", "nil", "zero"}
	}
	return nil
}

// hostFailure: the failure is the host's, not the requester's.
func hostFailure(kind string) bool { return kind != "failed" && kind != "value+failed" }

// faultsFor enumerates the single faults of a recorded call sequence.
func faultsFor(calls []world.Call) []world.Fault {
	var out []world.Fault
	n := map[string]int{}
	for _, c := range calls {
		i := n[c.Method]
		n[c.Method]++
		for _, k := range kindsOf(c.Method) {
			out = append(out, world.Fault{Method: c.Method, Nth: i, Kind: k})
		}
	}
	return out
}

// pairsOf picks at most max pairs of faults on different calls, spread evenly
// by a fixed stride from start.
func pairsOf(fs []world.Fault, start, max int) [][]world.Fault {
	var all [][]world.Fault
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fs[i].Method != fs[j].Method || fs[i].Nth != fs[j].Nth {
				all = append(all, []world.Fault{fs[i], fs[j]})
			}
		}
	}
	if len(all) <= max {
		return all
	}
	var out [][]world.Fault
	step := len(all)/max + 1
	for i := start % step; i < len(all); i += step {
		out = append(out, all[i])
	}
	return out
}

// ---- token endpoint and resource protector

// FaultCase is one scenario; all its faults are tried.
type FaultCase struct {
	Token *TokenCase `json:",omitempty"`
	Res   *ResCase   `json:",omitempty"`
	Authz *AuthzCase `json:",omitempty"`
	Start int        // which pairs are tried
	Pairs int
	Warm  int `json:",omitempty"` // resource: identical accesses before
}

// execToken runs the steps, with faults in the last, and returns the reply to
// the last and the reply to the same request repeated without faults.
func execToken(c *TokenCase, faults []world.Fault) (w *world.World, calls []world.Call, rep, again *tokenReply, pn string) {
	w = world.New(c.Spec)
	_, h := newTokenEndpoint(&c.Cfg, w)
	send := func(st *TokenStep) (rep *tokenReply) {
		rec := world.NewRec()
		if pn = guard(func() { h(rec, st.request()) }); pn != "" {
			return nil
		}
		return parseTokenReply(rec)
	}
	last := -1
	for i := range c.Steps {
		if c.Steps[i].Op == "token" {
			last = i
		}
	}
	for i := 0; i <= last; i++ {
		st := &c.Steps[i]
		switch st.Op {
		case "advance":
			w.Now += st.N
		case "host":
			hostChange(w, st.Host, st.Arg, st.Arg2)
		case "token":
			if i == last {
				break
			}
			if send(st); pn != "" {
				return
			}
		}
	}
	if last < 0 {
		return
	}
	n := w.LogLen()
	w.Arm(faults)
	if rep = send(&c.Steps[last]); pn != "" {
		return
	}
	calls = w.Since(n)
	w.Arm(nil)
	again = send(&c.Steps[last])
	return
}

// untraced: nothing was stored by these calls.
func untraced(calls []world.Call) bool {
	for _, c := range calls {
		if issuing[c.Method] {
			return false
		}
	}
	return true
}

func checkTokenFaults(fc *FaultCase, res *Result) {
	c := fc.Token
	f := &findings{}
	_, calls, base, _, pn := execToken(c, nil)
	if pn != "" || base == nil {
		res.Fail = append(res.Fail, "without fault: "+pn)
		return
	}
	fs := faultsFor(calls)
	if base.Code == 200 {
		res.NonTrivial = len(fs) > 0
		for _, x := range words2grant(c) {
			res.class("complete scenario:" + x)
		}
	}
	try := func(set []world.Fault) {
		say := func(s string, a ...interface{}) string {
			return fmt.Sprintf("faults %+v: ", set) + fmt.Sprintf(s, a...)
		}
		_, calls, rep, again, pn := execToken(c, set)
		if pn != "" {
			f.add(say("%s", pn), "X01")
			return
		}
		hit := injected(calls)
		if len(hit) == 0 {
			return
		}
		res.class("faults:" + fmt.Sprint(len(hit)))
		for _, x := range hit {
			res.class("fault:" + x.Method + "/" + x.Err)
		}
		if rep.Code == 200 || rep.Obj["access_token"] != nil || rep.Obj["id_token"] != nil {
			f.add(say("tokens issued: %s", q(rep.Body)), "X01")
			return
		}
		if base.Code == 200 && untraced(calls) {
			res.class("repeated after the failure")
			if again.Code != 200 {
				f.add(say("the same request is refused (%d %s) after the failure is over", again.Code, q(again.Body)), "X01")
			}
		}
		g := &findings{}
		checkTokenRendering(g, &c.Cfg, say, rep, "X01")
		f.l = append(f.l, g.l...)
		code := rep.str("error")
		// the first failure decides; an earlier refusal by the library itself
		// would have left nothing to fail
		if hostFailure(hit[0].Err) && hit[0].Method != "GetAssertionKey" && (code != "server_error" || rep.Code != 500) && len(hit) == 1 {
			f.add(say("answered with %d %s, expected server_error", rep.Code, q(rep.Body)), "X01")
		}
		if hostFailure(hit[len(hit)-1].Err) && len(hit) == 2 && hit[1].Method != "GetAssertionKey" && (code != "server_error" || rep.Code != 500) {
			f.add(say("answered with %d %s, expected server_error", rep.Code, q(rep.Body)), "X01")
		}
	}
	for _, x := range fs {
		try([]world.Fault{x})
	}
	for _, p := range pairsOf(fs, fc.Start, fc.Pairs) {
		try(p)
	}
	res.Fail = append(res.Fail, f.forProp("X01")...)
}

func injected(calls []world.Call) []world.Call {
	var out []world.Call
	for _, c := range calls {
		if c.Err != "" {
			out = append(out, c)
		}
	}
	return out
}

func words2grant(c *TokenCase) []string {
	for i := len(c.Steps) - 1; i >= 0; i-- {
		st := &c.Steps[i]
		if st.Op == "token" {
			how := "secret"
			if formValue("POST", st.Query, st.Body, "client_assertion") != "" {
				how = "assertion"
			}
			return []string{shortGrant(formValue("POST", st.Query, st.Body, "grant_type")) + "/" + how}
		}
	}
	return nil
}

func checkResFaults(fc *FaultCase, res *Result) {
	c := fc.Res
	f := &findings{}
	st := &c.Steps[0]
	var again bool
	exec := func(faults []world.Fault) (calls []world.Call, ok bool, rec *world.Rec, before, after http.Header, pn string) {
		w := world.New(c.Spec)
		rp := newProtector(&c.Cfg, w)
		send := func() (ok bool) {
			rec = world.NewRec()
			req := st.request()
			before = req.Header.Clone()
			pn = guard(func() {
				if st.Scoped {
					ok = rp.ValidateWithScopes(rec, req, world.DI{World: w}, st.Scopes)
				} else {
					ok = rp.Validate(rec, req, world.DI{World: w})
				}
			})
			after = req.Header
			return
		}
		for i := 0; i < fc.Warm; i++ {
			if send(); pn != "" {
				return
			}
		}
		n := w.LogLen()
		w.Arm(faults)
		if ok = send(); pn != "" {
			return
		}
		calls = w.Since(n)
		r, b, a := rec, before, after
		w.Arm(nil)
		again = send()
		rec, before, after = r, b, a
		return
	}
	calls, ok, _, _, _, pn := exec(nil)
	if pn != "" {
		res.Fail = append(res.Fail, "without fault: "+pn)
		return
	}
	base := ok
	fs := faultsFor(calls)
	if ok {
		res.NonTrivial = true
		res.class("complete scenario:resource")
	}
	try := func(set []world.Fault) {
		say := func(s string, a ...interface{}) string {
			return fmt.Sprintf("faults %+v: ", set) + fmt.Sprintf(s, a...)
		}
		calls, ok, rec, before, after, pn := exec(set)
		if pn != "" {
			f.add(say("%s", pn), "X01")
			return
		}
		hit := injected(calls)
		if len(hit) == 0 {
			return
		}
		if again != base {
			f.add(say("the same request is answered %v instead of %v after the failure is over", again, base), "X01")
		}
		for _, x := range hit {
			res.class("fault:" + x.Method + "/" + x.Err)
		}
		if ok {
			f.add(say("access allowed"), "X01")
			return
		}
		for _, k := range identityHeaders {
			if fmt.Sprint(before[k]) != fmt.Sprint(after[k]) && len(after[k]) > 0 {
				f.add(say("refused, yet header %s was set to %q", k, after[k]), "X01")
			}
		}
		switch last := hit[len(hit)-1].Err; {
		case hostFailure(last):
			if rec.Code != 500 {
				f.add(say("answered with %d, expected 500", rec.Code), "X01")
			}
		default:
			if ch := bearerChallenge(rec.Head()); rec.Code != 401 || ch["error"] != "invalid_token" || ch["realm"] != c.Cfg.Realm {
				f.add(say("answered with %d %v, expected 401 invalid_token", rec.Code, rec.Head()), "X01")
			}
		}
	}
	for _, x := range fs {
		try([]world.Fault{x})
	}
	for _, p := range pairsOf(fs, fc.Start, fc.Pairs) {
		try(p)
	}
	res.Fail = append(res.Fail, f.forProp("X01")...)
}

// ---- authorization endpoint

// execAuthz runs one request, and the decision on it if a consent screen was
// shown. It returns what was observed of the last phase.
type authzObs struct {
	w     *world.World
	e     *authzExpect
	phase string
	cb    *world.Callbacks
	rec   *world.Rec
	pn    string
	calls []world.Call
	kind  string // outcome
	ret   bool   // what the host was told
	again string // outcome of the same request after the failure, if it left no trace
}

func execAuthz(c *AuthzCase, faults []world.Fault) (out []authzObs) {
	f, res := &findings{}, &Result{}
	r := newAuthzRun(c.Spec, c.Policy, f, res)
	r.W.Arm(faults)
	var last *world.Callbacks
	var le *authzExpect
	var lst *AuthzStep
	for i := range c.Steps {
		st := &c.Steps[i]
		r.nStep++
		var o authzObs
		switch st.Op {
		case "authorize":
			query, body := resolveJWTs(st.Query, st.JWTs), resolveJWTs(st.Body, st.JWTs)
			o = authzObs{w: r.W, e: modelAuthz(r.W, r.Pol, st, query, body), phase: "authorize", cb: r.newCB(st.Login), rec: world.NewRec()}
			if strings.Contains(o.e.ruri, "#") && o.e.modes["query"] {
				return nil // see AuthzRun.authorize
			}
			n := r.W.LogLen()
			req := httpRequest(st.Method, "/authorize", query, body)
			o.pn = guard(func() { o.ret = r.EP.HandleRequest(o.rec, req, o.cb) })
			o.calls = r.W.Since(n)
			kind := func(cb *world.Callbacks, rec *world.Rec) string {
				var d *world.Delivery
				if rec.Touched() && o.e.stage != 1 {
					d, _ = world.ParseDelivery(rec, o.e.ruri)
				}
				return r.observedKind(cb, rec, d)
			}
			o.kind = kind(o.cb, o.rec)
			if o.pn == "" && len(injected(o.calls)) > 0 && len(injected(r.W.Since(0))) == len(injected(o.calls)) && untraced(o.calls) {
				r.W.Arm(nil)
				cb, rec := r.newCB(st.Login), world.NewRec()
				req := httpRequest(st.Method, "/authorize", query, body)
				o.pn = guard(func() { r.EP.HandleRequest(rec, req, cb) })
				o.again = kind(cb, rec)
				return append(out, o)
			}
			last, le, lst = nil, nil, st
			if len(o.cb.Consents) == 1 && o.cb.Pending != "" {
				last, le = o.cb, o.e
			}
		case "approve", "cancel":
			if last == nil {
				continue
			}
			o = authzObs{w: r.W, e: le, phase: st.Op, cb: r.newCB(lst.Login), rec: world.NewRec()}
			o.cb.Pending = last.Pending
			last = nil
			n := r.W.LogLen()
			req := httpRequest("POST", "/decide", nil, decisionForm())
			if st.Op == "approve" {
				o.pn = guard(func() { o.ret = r.EP.CompleteRequest(o.rec, req, o.cb) })
			} else {
				o.pn = guard(func() { o.ret = r.EP.CancelRequest(o.rec, req, o.cb) })
			}
			o.calls = r.W.Since(n)
		default:
			r.Step(st)
			continue
		}
		out = append(out, o)
		if o.pn != "" {
			return
		}
	}
	return
}

func checkAuthzFaults(fc *FaultCase, res *Result, id string) {
	c := fc.Authz
	f := &findings{}
	obs := execAuthz(c, nil)
	for _, o := range obs {
		if o.pn != "" {
			res.Fail = append(res.Fail, "without fault: "+o.pn)
			return
		}
	}
	if len(obs) == 0 {
		return
	}
	fs := faultsFor(obs[0].w.Log)
	for _, o := range obs {
		if o.rec.Touched() && o.e.stage == 3 {
			d, _ := world.ParseDelivery(o.rec, o.e.ruri)
			if d != nil && d.Get("error") == "" {
				res.NonTrivial = true
				res.class("complete scenario:" + o.e.flowType + "/" + o.phase)
			}
		}
		if o.phase == "cancel" {
			res.NonTrivial = true
			res.class("complete scenario:cancel")
		}
	}
	try := func(set []world.Fault) {
		for i, o := range execAuthz(c, set) {
			o := o
			say := func(s string, a ...interface{}) string {
				return fmt.Sprintf("faults %+v: %s: ", set, o.phase) + fmt.Sprintf(s, a...)
			}
			if o.pn != "" {
				f.add(say("%s", o.pn), "X02")
				return
			}
			var hit []world.Call
			for _, x := range o.calls {
				if x.Err != "" {
					hit = append(hit, x)
				}
			}
			if len(hit) == 0 {
				continue
			}
			for _, x := range hit {
				res.class("fault:" + x.Method + "/" + x.Err)
			}
			if o.again != "" {
				res.class("repeated after the failure")
				if i < len(obs) && obs[i].phase == o.phase && obs[i].kind != o.again {
					f.add(say("the same request leads to %s instead of %s after the failure is over", o.again, obs[i].kind), "X02")
				}
			}
			judgeAuthzFault(f, say, &o, hit)
			judgeFaultReturn(f, say, &o, res)
		}
	}
	for _, x := range fs {
		try([]world.Fault{x})
	}
	for _, p := range pairsOf(fs, fc.Start, fc.Pairs) {
		try(p)
	}
	res.Fail = append(res.Fail, f.forProp(id)...)
}

// judgeFaultReturn compares what the host was told with what happened after a
// failure.
func judgeFaultReturn(f *findings, say func(string, ...interface{}) string, o *authzObs, res *Result) {
	served, known := false, true
	switch {
	case o.rec.Touched():
		var d *world.Delivery
		if o.e.stage != 1 {
			d, _ = world.ParseDelivery(o.rec, o.e.ruri)
		}
		known = d != nil
		served = known && (d.Get("error") == "" || o.phase == "cancel" && d.Get("error") == "access_denied")
	case len(o.cb.ErrScreens) > 0:
	case len(o.cb.Logins) > 0:
		known = false
	default:
		served = len(o.cb.Consents) > 0
	}
	if !known {
		return
	}
	res.class(fmt.Sprintf("returned %v after a failure", o.ret))
	if o.ret != served {
		f.add(say("%v returned, though served is %v", o.ret, served), "A12")
	}
}

func judgeAuthzFault(f *findings, say func(string, ...interface{}) string, o *authzObs, hit []world.Call) {
	screens := len(o.cb.ErrScreens)
	lastHit := hit[len(hit)-1]
	if lastHit.Method == "Continue" {
		if o.rec.Touched() || screens+len(o.cb.Logins)+len(o.cb.Consents) > 0 {
			f.add(say("pending request not restored, yet there was a response (status %d) or a screen", o.rec.Code), "X02")
		}
		if iss := issuedCalls(o.calls); len(iss) > 0 {
			f.add(say("pending request not restored, yet %v", iss), "X02")
		}
		return
	}
	benign := true
	for _, x := range hit {
		// no stored grant is an answer, not a failure
		if !(x.Method == "FindAuthInfoByUserIdAndClientId" && !hostFailure(x.Err)) {
			benign = false
		}
	}
	if o.phase == "authorize" && lastHit.Method == "FindClientById" && clientCheckFailed(o.calls) {
		// before the redirect URI is known to be good
		if screens != 1 || o.rec.Touched() {
			f.add(say("client not found: %d error screens, response status %d", screens, o.rec.Code), "X02")
		}
		return
	}
	if screens > 0 {
		f.add(say("error screen after the redirect URI was validated"), "X02")
		return
	}
	if benign && (len(o.cb.Consents) == 1) && !o.rec.Touched() {
		return
	}
	if !o.rec.Touched() {
		f.add(say("no response"), "X02")
		return
	}
	d, probs := world.ParseDelivery(o.rec, o.e.ruri)
	for _, p := range probs {
		f.add(say("%s", p), "X02")
	}
	if d == nil {
		return
	}
	for _, k := range []string{"code", "access_token", "id_token", "refresh_token"} {
		if _, ok := d.Params[k]; ok {
			f.add(say("%s delivered", k), "X02")
		}
	}
	code := d.Get("error")
	if code == "" {
		f.add(say("no error delivered: %v", d.Params), "X02")
		return
	}
	if hostFailure(lastHit.Err) && code != "server_error" {
		f.add(say("error %q delivered, expected server_error", code), "X02")
	}
	if o.e.state != d.Get("state") {
		f.add(say("state %q delivered, request had %q", d.Get("state"), o.e.state), "X02")
	}
	if o.e.stage == 3 && !o.e.modes[d.Mode] {
		f.add(say("delivered by %s, expected %v", d.Mode, o.e.modes), "X02")
	}
}

// clientCheckFailed: the redirect URI was never examined.
func clientCheckFailed(cs []world.Call) bool {
	for _, c := range cs {
		if c.Method == "CanUseRedirectURI" {
			return false
		}
	}
	return true
}

func init() {
	pt := defTokenProfile()
	pt.bad = 15
	pt.faults = only("scope", "code", "refresh", "user")
	pt.maxSteps = 1
	pt.follow = 0
	pt.repeat = 15
	pt.again = 20
	pt.advance = 0
	pt.host = 0
	pt.permit = 100
	pt.method = 0
	pr := &resProfile{spoof: 50, scoped: 50, places: 20, bad: 5, maxSteps: 1}
	register(&Prop{
		ID: "X01", Level: "fault_enumeration", Quick: 600, Thorough: 20000,
		Rule: "Generated token requests (mostly ones that would succeed) and resource accesses; for each, every recorded storage call is failed with every failure kind, alone and in up to 40 sampled pairs. Non-trivial: without fault the request succeeds.",
		Gen: func(t *rapid.T) interface{} {
			fc := &FaultCase{Start: u(t, 50), Pairs: 40}
			if chance(t, 15) {
				fc.Res = genRes(t, pr).(*ResCase)
				fc.Warm = pick(t, 0, 0, 1, 2)
				for _, s := range fc.Res.Steps {
					if s.Op == "access" {
						fc.Res.Steps = []ResStep{s}
						break
					}
				}
				return fc
			}
			fc.Token = genToken(t, pt)
			return fc
		},
		New: func() interface{} { return &FaultCase{} },
		Check: func(c interface{}) *Result {
			res := &Result{}
			fc := c.(*FaultCase)
			if fc.Res != nil {
				checkResFaults(fc, res)
			} else {
				checkTokenFaults(fc, res)
			}
			return res
		},
	})
	pa := defProfile()
	pa.login = 93
	pa.match = 80
	pa.decide = 100
	pa.cancel = 15
	pa.maxSteps = 1
	pa.host = 0
	pa.maxAge = 30
	pa.none = []int{1, 2, 3, 1, 2, 3, 0}
	pa.prompts = []string{"", "", "none", "none", "consent", "login", "login consent"}
	register(&Prop{
		ID: "X02", Level: "fault_enumeration", Quick: 1000, Thorough: 20000,
		Rule: "Generated authorization requests followed by approval or cancellation; every recorded storage call and host callback is failed with every failure kind, alone and in up to 40 sampled pairs. Non-trivial: without fault the request completes or is cancelled.",
		Gen: func(t *rapid.T) interface{} {
			fc := &FaultCase{Start: u(t, 50), Pairs: 40, Authz: genAuthz(t, pa)}
			return fc
		},
		New: func() interface{} { return &FaultCase{} },
		Check: func(c interface{}) *Result {
			res := &Result{}
			checkAuthzFaults(c.(*FaultCase), res, "X02")
			return res
		},
	})

	pf := defProfile()
	pf.login = 97
	pf.match = 90
	pf.decide = 100
	pf.cancel = 15
	pf.maxSteps = 1
	pf.host = 0
	pf.consent = 60
	ph := defProfile()
	ph.decide = 80
	ph.cancel = 30
	ph.bad["rt"], ph.bad["scope"], ph.bad["target"], ph.bad["nonce"] = 4, 4, 6, 4
	ph.badKey = 3
	interesting := anyPrefix("returned", "cancelled")
	register(&Prop{
		ID: "A12", Level: "exploration", Quick: 8000, Thorough: 120000,
		Rule: "Histories of authorization requests, decisions, host changes and clock steps compared step by step with a reference model; and, for one case in twelve, a request and its decision with every host call failed in every way, alone and in up to 10 sampled pairs. Non-trivial: a request is refused, completed, cancelled or left to the user's consent.",
		Gen: func(t *rapid.T) interface{} {
			if chance(t, 8) {
				return &FaultCase{Start: u(t, 50), Pairs: 10, Authz: genAuthz(t, pf)}
			}
			return &FaultCase{Start: -1, Authz: genAuthz(t, ph)}
		},
		New: func() interface{} { return &FaultCase{} },
		Check: func(c interface{}) *Result {
			fc := c.(*FaultCase)
			res := &Result{}
			if fc.Start < 0 {
				var f *findings
				f, res = runAuthz(fc.Authz)
				res.Fail = f.forProp("A12")
				res.Known = nil
			} else {
				checkAuthzFaults(fc, res, "A12")
			}
			cl := map[string]bool{}
			for _, x := range res.Classes {
				cl[x] = true
			}
			res.NonTrivial = interesting(cl)
			return res
		},
	})
}
