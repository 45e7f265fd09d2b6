package props

import (
	"fmt"
	"net/http"
	"os"
	"strings"

	"github.com/lyokato/goidc/log"
	"pgregory.net/rapid"
	"verif/world"
)

// What the library tells the operator, through the logger that was set.

type logLine struct {
	level log.LogLevel
	text  string
}

type recLogger struct{ lines []logLine }

func (l *recLogger) add(v log.LogLevel, s string) { l.lines = append(l.lines, logLine{v, s}) }

func (l *recLogger) Debug(a ...interface{}) { l.add(log.LogLevelDebug, fmt.Sprint(a...)) }
func (l *recLogger) Info(a ...interface{})  { l.add(log.LogLevelInfo, fmt.Sprint(a...)) }
func (l *recLogger) Warn(a ...interface{})  { l.add(log.LogLevelWarn, fmt.Sprint(a...)) }
func (l *recLogger) Error(a ...interface{}) { l.add(log.LogLevelError, fmt.Sprint(a...)) }
func (l *recLogger) Fatal(a ...interface{}) { l.add(log.LogLevelFatal, fmt.Sprint(a...)) }
func (l *recLogger) Debugf(f string, a ...interface{}) {
	l.add(log.LogLevelDebug, fmt.Sprintf(f, a...))
}
func (l *recLogger) Infof(f string, a ...interface{}) { l.add(log.LogLevelInfo, fmt.Sprintf(f, a...)) }
func (l *recLogger) Warnf(f string, a ...interface{}) { l.add(log.LogLevelWarn, fmt.Sprintf(f, a...)) }
func (l *recLogger) Errorf(f string, a ...interface{}) {
	l.add(log.LogLevelError, fmt.Sprintf(f, a...))
}
func (l *recLogger) Fatalf(f string, a ...interface{}) {
	l.add(log.LogLevelFatal, fmt.Sprintf(f, a...))
}

// has: a line at or above the level contains s.
func (l *recLogger) has(min log.LogLevel, s string) bool {
	for _, x := range l.lines {
		if x.level >= min && strings.Contains(x.text, s) {
			return true
		}
	}
	return false
}

// secretMarks are part of every client secret and password in the worlds of
// this check.
const (
	secretMark   = "zq9cs7k"
	passwordMark = "zq9pw7k"
)

// OpLogCase is a history at the token endpoint, an access or an authorization.
type OpLogCase struct {
	Token *TokenCase `json:",omitempty"`
	Res   *ResCase   `json:",omitempty"`
	Authz *AuthzCase `json:",omitempty"`
}

// printed tells how much was written to standard output and error since the
// last call.
type printed struct {
	out, err *os.File
	f        *os.File
}

func catchPrints() *printed {
	f, err := os.CreateTemp("", "verif-l08-")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	p := &printed{os.Stdout, os.Stderr, f}
	os.Stdout, os.Stderr = f, f
	return p
}

func (p *printed) done() (n int64) {
	os.Stdout, os.Stderr = p.out, p.err
	if st, err := p.f.Stat(); err == nil {
		n = st.Size()
	}
	p.f.Close()
	return
}

// leaks reports secrets in the log.
func leaks(lg *recLogger, st *TokenStep) string {
	// a secret sent under the name of something else is not known as one
	plain := func(m string) bool {
		for _, l := range [][]KV{st.Query, st.Body, st.Hdr} {
			for _, x := range l {
				if x.K != "password" && x.K != "client_secret" && strings.Contains(strings.ToLower(x.K+x.V), m) {
					return true
				}
			}
		}
		// Basic credentials whose parts cannot be told apart
		if id, _, ok := basicOf(st.Auth); ok && strings.Contains(strings.ToLower(id), m) {
			return true
		}
		return false
	}
	for m, what := range map[string]string{secretMark: "a client secret", passwordMark: "a password"} {
		if plain(m) {
			continue
		}
		for _, x := range lg.lines {
			if strings.Contains(strings.ToLower(x.text), m) {
				return fmt.Sprintf("%s is in the log: %s", what, q(x.text))
			}
		}
	}
	if i := strings.IndexByte(st.Auth, ' '); i > 0 && len(st.Auth)-i > 20 {
		for _, x := range lg.lines {
			if strings.Contains(x.text, st.Auth[i+1:]) {
				return "the credentials of the Authorization header are in the log: " + q(x.text)
			}
		}
	}
	return ""
}

func basicOf(auth string) (id, sec string, ok bool) {
	r := &http.Request{Header: http.Header{"Authorization": {auth}}}
	return r.BasicAuth()
}

// judgeHostFailures: every failure of the host is logged with the name of the
// method.
func judgeHostFailures(f *findings, say func(string, ...interface{}) string, lg *recLogger, hit []world.Call, res *Result) {
	for _, x := range hit {
		if !hostFailure(x.Err) || x.Method == "GetAssertionKey" {
			continue
		}
		name := x.Method
		switch name { // some are known under former names
		case "LoginUserIsMatchedToSubject":
			name = "LoginUserIsMatchedTo"
		case "DisableSession":
			name = "Disable"
		case "FindOAuthTokenByRefreshToken":
			name = "TokenByRefreshToken"
		}
		res.class("failure logged:" + x.Method)
		if !lg.has(log.LogLevelWarn, name) {
			f.add(say("the failure (%s) of %s is not logged as a warning or error; logged: %s", x.Err, x.Method, q(fmt.Sprint(lg.lines))), "L08")
		}
	}
}

func checkLogsToken(c *TokenCase, res *Result, f *findings) {
	exec := func(faults []world.Fault) (calls []world.Call, ok bool) {
		w := world.New(c.Spec)
		te, h := newTokenEndpoint(&c.Cfg, w)
		last := -1
		for i := range c.Steps {
			if c.Steps[i].Op == "token" {
				last = i
			}
		}
		for i := range c.Steps {
			st := &c.Steps[i]
			switch st.Op {
			case "advance":
				w.Now += st.N
			case "host":
				hostChange(w, st.Host, st.Arg, st.Arg2)
			case "token":
				say := func(s string, a ...interface{}) string {
					return fmt.Sprintf("step %d, faults %+v: ", i, faults) + fmt.Sprintf(s, a...)
				}
				lg := &recLogger{}
				te.SetLogger(lg)
				twinToken(c.Cfg.Accept, c.Cfg.Assertion)
				n := w.LogLen()
				if i == last {
					w.Arm(faults)
				}
				rec := world.NewRec()
				if pn := guard(func() { h(rec, st.request()) }); pn != "" {
					f.add(say("%s", pn), "L08")
					return nil, false
				}
				calls = w.Since(n)
				if l := leaks(lg, st); l != "" {
					f.add(say("%s", l), "L08")
				}
				granted := lg.has(log.LogLevelDebug, log.AccessTokenGranted.String())
				if rec.Code == 200 && !granted {
					f.add(say("tokens were issued without the log event %s; logged: %s", log.AccessTokenGranted, q(fmt.Sprint(lg.lines))), "L08")
				}
				if rec.Code != 200 && granted {
					f.add(say("refused with %d, yet the log has %s", rec.Code, log.AccessTokenGranted), "L08")
				}
				if rec.Code == 200 {
					res.class("grant logged")
				}
				if n := len(calls); n > 0 && calls[n-1].Method == "MatchSecret" && rec.Code != 200 {
					res.class("wrong secret")
					if !lg.has(log.LogLevelInfo, log.AuthenticationFailed.String()) {
						f.add(say("a wrong client secret is not logged as %s; logged: %s", log.AuthenticationFailed, q(fmt.Sprint(lg.lines))), "L08")
					}
				}
				judgeHostFailures(f, say, lg, injected(calls), res)
				if i == last {
					return calls, true
				}
			}
		}
		return nil, false
	}
	calls, ok := exec(nil)
	if !ok {
		return
	}
	fs := faultsFor(calls)
	res.NonTrivial = len(fs) > 0
	for _, x := range fs {
		if x.Method != "GetAssertionKey" {
			exec([]world.Fault{x})
		}
	}
}

func checkLogsRes(c *ResCase, res *Result, f *findings) {
	st := &c.Steps[0]
	exec := func(faults []world.Fault) []world.Call {
		w := world.New(c.Spec)
		rp := newProtector(&c.Cfg, w)
		lg := &recLogger{}
		rp.SetLogger(lg)
		twinProtector(c.Cfg.Accept)
		w.Arm(faults)
		say := func(s string, a ...interface{}) string {
			return fmt.Sprintf("access, faults %+v: ", faults) + fmt.Sprintf(s, a...)
		}
		rec := world.NewRec()
		if pn := guard(func() { rp.Validate(rec, st.request(), world.DI{World: w}) }); pn != "" {
			f.add(say("%s", pn), "L08")
			return nil
		}
		if ch := bearerChallenge(rec.Head()); rec.Code == 401 && ch["error"] == "invalid_token" {
			res.class("token refused")
			if len(lg.lines) == 0 || !lg.has(log.LogLevelInfo, "") {
				f.add(say("the refusal of the access token is not logged; logged: %s", q(fmt.Sprint(lg.lines))), "L08")
			}
		}
		calls := w.Since(0)
		judgeHostFailures(f, say, lg, injected(calls), res)
		return calls
	}
	fs := faultsFor(exec(nil))
	res.NonTrivial = len(fs) > 0
	for _, x := range fs {
		exec([]world.Fault{x})
	}
}

// loggedCallbacks are the callbacks whose failure the authorization endpoint
// logs.
var loggedCallbacks = newSet("ConfirmLoginSession", "RequestIsFromLogin", "GetAuthTime", "GetLoginUserId", "CreateAuthorizationCode",
	"LoginUserIsMatchedToSubject", "ShowLoginScreen", "ShowConsentScreen", "ChooseLocale", "Continue")

func checkLogsAuthz(c *AuthzCase, res *Result, f *findings) {
	exec := func(faults []world.Fault) []authzObs {
		lg := &recLogger{}
		theLogger = lg
		defer func() { theLogger = nopLogger{} }()
		obs := execAuthz(c, faults)
		for _, o := range obs {
			say := func(s string, a ...interface{}) string {
				return fmt.Sprintf("%s, faults %+v: ", o.phase, faults) + fmt.Sprintf(s, a...)
			}
			if o.pn != "" {
				f.add(say("%s", o.pn), "L08")
				return nil
			}
			var hit []world.Call
			for _, x := range injected(o.calls) {
				if loggedCallbacks[x.Method] || (x.Method == "FindClientById" && o.phase == "authorize" && clientCheckFailed(o.calls)) {
					hit = append(hit, x)
				}
			}
			judgeHostFailures(f, say, lg, hit, res)
		}
		return obs
	}
	obs := exec(nil)
	if len(obs) == 0 || obs[0].pn != "" {
		return
	}
	fs := faultsFor(obs[0].w.Log)
	res.NonTrivial = len(fs) > 0
	for _, x := range fs {
		exec([]world.Fault{x})
	}
}

func init() {
	pt := defTokenProfile()
	pt.bad = 45
	pt.maxSteps = 2
	pt.host = 0
	pt.method = 3
	pt.mark = true
	pr := &resProfile{spoof: 10, places: 20, bad: 20, maxSteps: 1}
	pa := defProfile()
	pa.login = 85
	pa.match = 60
	pa.decide = 100
	pa.cancel = 15
	pa.maxSteps = 1
	pa.host = 0
	pa.maxAge = 30
	pa.none = []int{1, 2, 3, 1, 2, 3, 0}
	pa.prompts = []string{"", "", "none", "none", "consent", "login", "login consent"}
	register(&Prop{
		ID: "L08", Level: "fault_enumeration", Quick: 1500, Thorough: 20000,
		Rule: "Generated token requests (right and wrong), resource accesses and authorization requests with decisions, observed by a recording logger; for each, every recorded host call is failed with every failure kind. Client secrets and passwords of the worlds carry a marker. Non-trivial: the request makes at least one host call that can fail.",
		Gen: func(t *rapid.T) interface{} {
			c := &OpLogCase{}
			switch k := u(t, 10); {
			case k < 5:
				c.Token = genToken(t, pt)
			case k < 6:
				c.Res = genRes(t, pr).(*ResCase)
				for _, s := range c.Res.Steps {
					if s.Op == "access" {
						c.Res.Steps = []ResStep{s}
						break
					}
				}
			default:
				c.Authz = genAuthz(t, pa)
			}
			return c
		},
		New: func() interface{} { return &OpLogCase{} },
		Check: func(x interface{}) *Result {
			c := x.(*OpLogCase)
			res, f := &Result{}, &findings{}
			p := catchPrints()
			switch {
			case c.Token != nil:
				checkLogsToken(c.Token, res, f)
			case c.Res != nil:
				checkLogsRes(c.Res, res, f)
			case c.Authz != nil:
				checkLogsAuthz(c.Authz, res, f)
			}
			if n := p.done(); n > 0 {
				f.add(fmt.Sprintf("%d bytes were printed although a logger was set", n), "L08")
			}
			res.Fail = append(res.Fail, f.forProp("L08")...)
			return res
		},
	})
}
