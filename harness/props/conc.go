package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt"
	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	oer "github.com/lyokato/goidc/oauth_error"
	"pgregory.net/rapid"
	"verif/world"
)

// Several users' requests ("lanes") are served by the same endpoint objects.
// Every lane has its own clients, users and data, so what one lane sees must
// not depend on the others. The data interface hands each call to the world of
// the lane on whose goroutine it is made.

// Lane is a sequence of requests by one party.
type Lane struct {
	Spec  world.Spec
	Authz []AuthzStep `json:",omitempty"`
	Token []TokenStep `json:",omitempty"`
	Res   []ResStep   `json:",omitempty"`
}

// ConcCase is a set of lanes and how they are interleaved.
type ConcCase struct {
	Policy   authorization.Policy
	Token    TokenCfg
	Res      ResCfg
	Lanes    []Lane
	Sched    []int `json:",omitempty"`
	Parallel bool  `json:",omitempty"` // run freely in parallel instead
}

// laneDI is the data interface of all lanes.
type laneDI struct {
	worlds  []*world.World
	who     func() int
	strayed int32
}

func (d *laneDI) w() *world.World {
	i := d.who()
	if i < 0 || i >= len(d.worlds) {
		atomic.AddInt32(&d.strayed, 1)
		i = 0
	}
	return d.worlds[i]
}

func (d *laneDI) Issuer() string { return d.w().Issuer }
func (d *laneDI) FindClientById(id string) (bridge.Client, *bridge.Error) {
	return d.w().FindClientById(id)
}
func (d *laneDI) FindAuthSessionByCode(c string) (bridge.AuthSession, *bridge.Error) {
	return d.w().FindAuthSessionByCode(c)
}
func (d *laneDI) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	return d.w().FindActiveAuthInfoById(id)
}
func (d *laneDI) FindAuthInfoByUserIdAndClientId(u int64, c string) (bridge.AuthInfo, *bridge.Error) {
	return d.w().FindAuthInfoByUserIdAndClientId(u, c)
}
func (d *laneDI) FindOAuthTokenByAccessToken(v string) (bridge.OAuthToken, *bridge.Error) {
	return d.w().FindOAuthTokenByAccessToken(v)
}
func (d *laneDI) FindOAuthTokenByRefreshToken(v string) (bridge.OAuthToken, *bridge.Error) {
	return d.w().FindOAuthTokenByRefreshToken(v)
}
func (d *laneDI) CreateOAuthToken(i bridge.AuthInfo, on bool) (bridge.OAuthToken, *bridge.Error) {
	return d.w().CreateOAuthToken(i, on)
}
func (d *laneDI) RefreshAccessToken(i bridge.AuthInfo, t bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	return d.w().RefreshAccessToken(i, t)
}
func (d *laneDI) FindUserId(n, p string) (int64, *bridge.Error) { return d.w().FindUserId(n, p) }
func (d *laneDI) CreateOrUpdateAuthInfo(u int64, c, s string) (bridge.AuthInfo, *bridge.Error) {
	return d.w().CreateOrUpdateAuthInfo(u, c, s)
}
func (d *laneDI) CreateAuthSession(i bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	return d.w().CreateAuthSession(i, s)
}
func (d *laneDI) DisableSession(s bridge.AuthSession) *bridge.Error { return d.w().DisableSession(s) }
func (d *laneDI) FindUserIdBySubject(s string) (int64, *bridge.Error) {
	return d.w().FindUserIdBySubject(s)
}
func (d *laneDI) RecordAssertionClaims(c, j string, i, e int64) *bridge.Error {
	return d.w().RecordAssertionClaims(c, j, i, e)
}
func (d *laneDI) now() time.Time { return d.w().Clock() }

var _ bridge.DataInterface = &laneDI{}

// concRig is one set of endpoint objects.
type concRig struct {
	di    *laneDI
	authz *goidc.AuthorizationEndpoint
	token http.HandlerFunc
	res   *goidc.ResourceProtector
}

func newConcRig(c *ConcCase, di *laneDI) *concRig {
	pol := c.Policy
	r := &concRig{di: di, authz: goidc.NewAuthorizationEndpoint(di, &pol)}
	r.authz.SetLogger(nopLogger{})
	r.authz.SetTimeBuilder(di.now)
	te := goidc.NewTokenEndpoint(c.Token.Realm)
	te.SetLogger(nopLogger{})
	te.SetTimeBuilder(di.now)
	te.AcceptClientSecret(acceptance[c.Token.Accept])
	te.AcceptClientAssertion(c.Token.Assertion)
	for _, g := range c.Token.Support {
		te.Support(grantHandler(g))
	}
	if c.Token.ErrorURI != "" {
		te.SetErrorURIBuilder(func(t oer.OAuthErrorType) string { return c.Token.ErrorURI + t.String() })
	}
	r.token = te.Handler(di)
	r.res = goidc.NewResourceProtector(c.Res.Realm)
	r.res.SetLogger(nopLogger{})
	r.res.SetTimeBuilder(di.now)
	r.res.AcceptAccessToken(acceptance[c.Res.Accept])
	jwt.TimeFunc = di.now
	return r
}

// render shows a response in a form that does not depend on the order of the
// fields of a form.
// renderRec writes a response down. The order of parameters, form fields and
// object members means nothing and is left out.
func renderRec(rec *world.Rec) string {
	unordered := func(s string) string {
		s = strings.NewReplacer("&amp;", "&", "?", "&", "Bearer ", "Bearer,").Replace(s)
		p := strings.FieldsFunc(s, func(c rune) bool { return strings.ContainsRune("<>&#,{}", c) })
		for i := range p {
			p[i] = strings.TrimSpace(p[i])
		}
		sort.Strings(p)
		return strings.Join(p, " ")
	}
	var h []string
	for k, v := range rec.Head() {
		if k == "Location" || k == "Www-Authenticate" {
			h = append(h, fmt.Sprintf("%s=%q", k, unordered(strings.Join(v, " "))))
		} else if k != "Content-Length" {
			h = append(h, fmt.Sprintf("%s=%q", k, v))
		}
	}
	sort.Strings(h)
	return fmt.Sprintf("%d %v %q", rec.Code, h, unordered(rec.Body.String()))
}

// runLane serves the lane's requests one after another and reports everything
// that can be seen of it.
func (r *concRig) runLane(w *world.World, l *Lane) (obs []string) {
	say := func(f string, a ...interface{}) { obs = append(obs, fmt.Sprintf(f, a...)) }
	var last *world.Callbacks
	for i := range l.Authz {
		st := &l.Authz[i]
		switch st.Op {
		case "advance":
			w.Mu.Lock()
			w.Now += st.N
			w.Mu.Unlock()
		case "host":
			hostChange(w, st.Host, st.Arg, st.Arg2)
		default:
			cb := &world.Callbacks{W: w, Login: st.Login, CodePrefix: fmt.Sprintf("code-%d-%s", i, l.Spec.Users[0].Name)}
			rec := world.NewRec()
			var p string
			if st.Op == "authorize" {
				req := httpRequest(st.Method, "/authorize", resolveJWTs(st.Query, st.JWTs), resolveJWTs(st.Body, st.JWTs))
				p = guard(func() { r.authz.HandleRequest(rec, req, cb) })
				last = nil
				if len(cb.Consents) == 1 && cb.Pending != "" {
					last = cb
				}
			} else {
				if last == nil {
					continue
				}
				cb.Pending, cb.Login = last.Pending, last.Login
				last = nil
				req := httpRequest("POST", "/decide", nil, decisionForm())
				if st.Op == "approve" {
					p = guard(func() { r.authz.CompleteRequest(rec, req, cb) })
				} else {
					p = guard(func() { r.authz.CancelRequest(rec, req, cb) })
				}
			}
			lg, _ := json.Marshal(cb.Logins)
			cs, _ := json.Marshal(cb.Consents)
			say("%d %s: %s response %s errors %v login %s consent %s codes %q", i, st.Op, p, renderRec(rec), cb.ErrScreens, lg, cs, cb.Codes)
		}
	}
	for i := range l.Token {
		st := &l.Token[i]
		switch st.Op {
		case "advance":
			w.Mu.Lock()
			w.Now += st.N
			w.Mu.Unlock()
		case "host":
			hostChange(w, st.Host, st.Arg, st.Arg2)
		case "token":
			rec := world.NewRec()
			req := st.request()
			p := guard(func() { r.token(rec, req) })
			say("%d token: %s response %s", i, p, renderRec(rec))
		}
	}
	for i := range l.Res {
		st := &l.Res[i]
		switch st.Op {
		case "advance":
			w.Mu.Lock()
			w.Now += st.N
			w.Mu.Unlock()
		case "host":
			hostChange(w, st.Host, st.Arg, st.Arg2)
		case "access":
			rec := world.NewRec()
			req := st.request()
			ok := false
			p := guard(func() {
				if st.Scoped {
					ok = r.res.ValidateWithScopes(rec, req, r.di, st.Scopes)
				} else {
					ok = r.res.Validate(rec, req, r.di)
				}
			})
			say("%d access: %s allowed %v response %s identity %q %q %q", i, p, ok, renderRec(rec), req.Header["X-Oauth-User-Id"], req.Header["X-Oauth-Client-Id"], req.Header["X-Oauth-Scope"])
		}
	}
	return
}

// effects lists the calls made to the lane's world and its final state.
func effects(w *world.World) []string {
	w.Mu.Lock()
	defer w.Mu.Unlock()
	var l []string
	for _, c := range w.Log {
		l = append(l, fmt.Sprintf("call %s(%s) %s", c.Method, c.Args, c.Err))
	}
	for k, s := range w.Sessions {
		l = append(l, fmt.Sprintf("session %q %+v", k, s.SessionSpec))
	}
	for _, i := range w.Infos {
		l = append(l, fmt.Sprintf("grant %+v", i.InfoSpec))
	}
	for _, t := range w.Tokens {
		l = append(l, fmt.Sprintf("token %+v", t.TokenSpec))
	}
	for _, x := range w.Records {
		l = append(l, fmt.Sprintf("assertion %+v", x))
	}
	sort.Strings(l)
	return l
}

// firstDiff describes the first difference between two lists.
func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("alone: %.600s; together: %.600s", x, y)
		}
	}
	return ""
}

type concResult struct {
	Fail     []string
	Switches int
	Answers  []string
	Skipped  bool
}

// runConc compares the lanes run together with each of them run alone.
func runConc(c *ConcCase) (cr concResult) {
	n := len(c.Lanes)
	alone := make([][]string, n)
	aloneFx := make([][]string, n)
	for i := range c.Lanes {
		w := world.New(c.Lanes[i].Spec)
		di := &laneDI{worlds: []*world.World{w}, who: func() int { return 0 }}
		alone[i] = newConcRig(c, di).runLane(w, &c.Lanes[i])
		aloneFx[i] = effects(w)
		cr.Answers = append(cr.Answers, alone[i]...)
	}
	di := &laneDI{}
	for i := range c.Lanes {
		di.worlds = append(di.worlds, world.New(c.Lanes[i].Spec))
	}
	together := make([][]string, n)
	if c.Parallel {
		gids := make([]int64, n)
		di.who = func() int {
			g := gid()
			for i, x := range gids {
				if x == g {
					return i
				}
			}
			return -1
		}
		rig := newConcRig(c, di)
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		ready.Add(n)
		done.Add(n)
		for i := range c.Lanes {
			i := i
			go func() {
				gids[i] = gid()
				ready.Done()
				<-start
				together[i] = rig.runLane(di.worlds[i], &c.Lanes[i])
				done.Done()
			}()
		}
		ready.Wait()
		close(start)
		end := make(chan struct{})
		go func() { done.Wait(); close(end) }()
		timer := time.NewTimer(hangLimit)
		defer timer.Stop()
		select {
		case <-end:
		case <-timer.C:
			cr.Fail = append(cr.Fail, "requests in parallel do not come to an end")
			return
		}
	} else {
		s := newSched(n)
		di.who = s.Who
		rig := newConcRig(c, di)
		var fs []func()
		for i := range c.Lanes {
			i := i
			di.worlds[i].Gate = s.Gate
			fs = append(fs, func() { together[i] = rig.runLane(di.worlds[i], &c.Lanes[i]) })
		}
		ended := s.Run(fs, c.Sched)
		for i := range ended {
			if !ended[i] {
				cr.Fail = append(cr.Fail, fmt.Sprintf("lane %d does not come to an end", i))
			}
		}
		cr.Switches = s.switches
		if len(cr.Fail) > 0 {
			return
		}
	}
	if atomic.LoadInt32(&di.strayed) > 0 {
		// host calls from a goroutine of the library's own cannot be told apart
		cr.Skipped = true
		return
	}
	for i := range c.Lanes {
		if d := firstDiff(alone[i], together[i]); d != "" {
			cr.Fail = append(cr.Fail, fmt.Sprintf("lane %d: %s", i, d))
		}
		if d := firstDiff(aloneFx[i], effects(di.worlds[i])); d != "" {
			cr.Fail = append(cr.Fail, fmt.Sprintf("lane %d: %s", i, d))
		}
	}
	return
}

func judgeConc(c *ConcCase) *Result {
	res := &Result{}
	if c.Parallel && os.Getenv("VERIF_PAR_DIR") == "" {
		// a data race ends the process, so it runs in one of its own
		out := parallelChild(c, 0, 300, func(*ConcCase, *Result) {})
		res.Fail = out
		return res
	}
	cr := runConc(c)
	res.Fail = cr.Fail
	if cr.Skipped {
		res.class("skipped: host calls from other goroutines")
		return res
	}
	kinds := newSet()
	for i := range c.Lanes {
		switch l := &c.Lanes[i]; {
		case len(l.Authz) > 0:
			kinds.add("authorize")
		case len(l.Token) > 0:
			kinds.add("token")
		default:
			kinds.add("resource")
		}
	}
	mode := "interleaved"
	if c.Parallel {
		mode = "parallel"
	}
	res.class(fmt.Sprintf("%s: %d lanes", mode, len(c.Lanes)), mode+": "+strings.Join(kinds.list(), "+"))
	good := 0
	for _, a := range cr.Answers {
		if strings.Contains(a, "response 302") || strings.Contains(a, "response 200") || strings.Contains(a, "allowed true") || strings.Contains(a, "consent [{") {
			good++
		}
	}
	res.class(fmt.Sprintf("%s: %d requests fulfilled", mode, good))
	if !c.Parallel {
		res.class(fmt.Sprintf("switches: %d0s", cr.Switches/10))
	}
	res.NonTrivial = good >= 2 && (c.Parallel || cr.Switches >= 3)
	return res
}

// ---- generation

func genConc(t *rapid.T, parallel bool) *ConcCase {
	c := &ConcCase{Parallel: parallel}
	pa := defProfile()
	pa.login, pa.match, pa.consent, pa.decide, pa.maxSteps = 92, 75, 40, 80, 2
	pa.algs = []string{"HS256", "RS256", "HS512"} // signatures that do not vary
	c.Policy = genPolicy(t, pa)
	pa.policy = &c.Policy
	pt := defTokenProfile()
	pt.bad, pt.maxSteps, pt.algs, pt.permit = 15, 2, pa.algs, 95
	c.Token = genTokenCfg(t, pt)
	c.Token.Assertion = true
	pt.cfg = &c.Token
	pr := &resProfile{spoof: 20, scoped: 60, places: 30, bad: 10, maxSteps: 2, host: 5, advance: 10}
	c.Res = ResCfg{Realm: "api", Accept: u(t, 3)}
	pr.cfg = &c.Res
	n := 2 + u(t, 3)
	if parallel {
		n = 4 + u(t, 5)
	}
	kind := pick(t, "mixed", "mixed", "authorize", "token", "resource")
	defer func() { laneNo = 0 }()
	for i := 0; i < n; i++ {
		laneNo = i + 1
		k := kind
		if k == "mixed" {
			k = pick(t, "authorize", "token", "token", "resource")
		}
		var l Lane
		switch k {
		case "authorize":
			a := genAuthz(t, pa)
			l.Spec, l.Authz = a.Spec, a.Steps
		case "token":
			a := genToken(t, pt)
			l.Spec, l.Token = a.Spec, a.Steps
		default:
			a := genRes(t, pr).(*ResCase)
			l.Spec, l.Res = a.Spec, a.Steps
		}
		c.Lanes = append(c.Lanes, l)
	}
	if !parallel {
		k := 20 + u(t, 60)
		run := 0
		for i := 0; i < k; i++ {
			if run == 0 {
				run = 1 + u(t, pick(t, 1, 3, 8))
				c.Sched = append(c.Sched, u(t, n))
			} else {
				c.Sched = append(c.Sched, c.Sched[len(c.Sched)-1])
			}
			run--
		}
	}
	return c
}

// ---- parallel runs in a process of their own

type parDone struct {
	Cases int
	Notes []parNote
}

type parNote struct {
	Case    *ConcCase
	Classes []string
	Trivial bool
}

// parallelChild runs cases (n generated ones, or the given one repeated) in
// parallel in a child process under the race detector. It returns what went
// wrong, the case in last.
func parallelChild(c *ConcCase, n, repeat int, note func(*ConcCase, *Result)) (fail []string) {
	dir, err := os.MkdirTemp("", "verifpar")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 12*time.Minute)
	defer cancel()
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	cmd := exec.CommandContext(ctx, os.Args[0], "-test.run", "^TestParallel$", "-test.timeout", "0", "-rapid.seed="+seed+"77", "-rapid.nofailfile", "-rapid.shrinktime=0s", fmt.Sprintf("-rapid.checks=%d", n))
	cmd.Env = append(os.Environ(), "VERIF_PAR_DIR="+dir, fmt.Sprintf("VERIF_PAR_REPEAT=%d", repeat), "GORACE=halt_on_error=1 exitcode=66 log_path="+filepath.Join(dir, "race"))
	if c != nil {
		b, _ := json.Marshal(c)
		os.WriteFile(filepath.Join(dir, "replay.json"), b, 0o644)
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	current := func() *ConcCase {
		var x ConcCase
		b, e := os.ReadFile(filepath.Join(dir, "current.json"))
		if e != nil || json.Unmarshal(b, &x) != nil {
			panic(fmt.Sprintf("the parallel run failed: %v\n%s", err, tail(out.String(), 4000)))
		}
		return &x
	}
	if b, e := os.ReadFile(filepath.Join(dir, "done.json")); e == nil {
		var d parDone
		json.Unmarshal(b, &d)
		for _, x := range d.Notes {
			note(x.Case, &Result{Classes: x.Classes, NonTrivial: !x.Trivial})
		}
		return nil
	}
	if b, e := os.ReadFile(filepath.Join(dir, "fail.json")); e == nil {
		json.Unmarshal(b, &fail)
		note(current(), &Result{Fail: fail, NonTrivial: true})
		return fail
	}
	text := out.String()
	logs, _ := filepath.Glob(filepath.Join(dir, "race*"))
	for _, f := range logs {
		b, _ := os.ReadFile(f)
		text += string(b)
	}
	if strings.Contains(text, "DATA RACE") || strings.Contains(text, "fatal error: concurrent map") {
		if !raceInLibrary(text) {
			panic("race in the harness:\n" + tail(text, 6000))
		}
		i := strings.Index(text, "DATA RACE")
		if i < 0 {
			i = strings.Index(text, "fatal error")
		}
		fail = []string{"data race between parallel requests: " + head(text[i:], 1500)}
		note(current(), &Result{Fail: fail, NonTrivial: true})
		return fail
	}
	if strings.Contains(text, "fatal error: all goroutines are asleep") {
		fail = []string{"requests in parallel do not come to an end"}
		note(current(), &Result{Fail: fail, NonTrivial: true})
		return fail
	}
	panic(fmt.Sprintf("the parallel run failed: %v\n%s", err, tail(text, 6000)))
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// raceInLibrary: one of the two accesses was made by the library.
func raceInLibrary(text string) bool {
	if strings.Contains(text, "fatal error: concurrent map") {
		return strings.Contains(text, "lyokato/goidc")
	}
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		l = strings.ToLower(l)
		if !strings.Contains(l, " at 0x") || !strings.Contains(l, "by ") {
			continue
		}
		for _, f := range lines[i+1:] {
			f = strings.TrimSpace(f)
			if f == "" {
				break
			}
			if strings.HasPrefix(f, "verif/") {
				break
			}
			if strings.HasPrefix(f, "github.com/lyokato/goidc") || strings.HasPrefix(f, "github.com/golang-jwt") {
				return true
			}
		}
	}
	return false
}

// parChild is the child's part.
func parChild(t *testing.T) {
	dir := os.Getenv("VERIF_PAR_DIR")
	if dir == "" {
		t.Skip()
	}
	repeat := 1
	fmt.Sscan(os.Getenv("VERIF_PAR_REPEAT"), &repeat)
	put := func(name string, x interface{}) {
		b, err := json.Marshal(x)
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, name), b, 0o644)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "replay.json")); err == nil {
		var c ConcCase
		if err := json.Unmarshal(b, &c); err != nil {
			t.Fatal(err)
		}
		put("current.json", &c)
		for i := 0; i < repeat; i++ {
			if r := judgeConc(&c); len(r.Fail) > 0 {
				put("fail.json", r.Fail)
				return
			}
		}
		put("done.json", parDone{})
		return
	}
	var d parDone
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if failed {
			return
		}
		c := genConc(rt, true)
		put("current.json", c)
		for i := 0; i < repeat; i++ {
			r := judgeConc(c)
			if len(r.Fail) > 0 {
				put("fail.json", r.Fail)
				failed = true
				return
			}
			if i == 0 {
				d.Cases++
				d.Notes = append(d.Notes, parNote{c, r.Classes, !r.NonTrivial})
			}
		}
	})
	if !failed {
		put("done.json", d)
	}
}

func init() {
	register(&Prop{
		ID: "X04", Level: "exploration", Quick: 1200, Thorough: 120000,
		Rule:      "Two to four parties' request sequences (authorization with decisions, token requests of every grant, resource accesses; disjoint clients, users and data) on the same endpoint objects, interleaved at host-call granularity by a generated schedule and compared with each sequence run alone: responses, screens, host calls, storage. In addition four to eight sequences are run freely in parallel, in a process under the race detector, and compared in the same way. Non-trivial: at least two requests are fulfilled, and the schedule switches at least three times.",
		Gen:       func(t *rapid.T) interface{} { return genConc(t, false) },
		New:       func() interface{} { return &ConcCase{} },
		Check:     func(c interface{}) *Result { return judgeConc(c.(*ConcCase)) },
		ExtraLast: true,
		Extra: func(thorough bool, note func(c interface{}, r *Result)) {
			n := 600
			if thorough {
				n = 20000
			}
			parallelChild(nil, n, 2, func(c *ConcCase, r *Result) { note(c, r) })
		},
		Assume: []string{
			"Interleavings switch at host calls and callbacks; between them only the parallel runs interleave.",
			fmt.Sprintf("The parallel runs use %d processors; the race detector sees the accesses that happen.", runtime.NumCPU())},
	})
}
