package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/prompt"
	"github.com/lyokato/goidc/response_mode"
	"github.com/lyokato/goidc/scope"
	"pgregory.net/rapid"
)

// ---- L01: word lists

// WordsCase is one use of the word list functions.
type WordsCase struct {
	List    string
	Other   string
	Target  string
	Targets []string `json:",omitempty"`
}

// regular: words separated by single spaces.
func regular(s string) bool { return strings.Join(strings.Fields(s), " ") == s && s != "" }

func dup(s string) bool { l := strings.Fields(s); return len(newSet(l...)) != len(l) }

func checkWords(c *WordsCase) *Result {
	res := &Result{}
	bad := func(f string, a ...interface{}) { res.Fail = append(res.Fail, fmt.Sprintf(f, a...)) }
	in := words(c.List)
	p := guard(func() {
		// membership
		incl := map[string]func(string, string) bool{"scope.Include": scope.Include, "prompt.Include": prompt.Include}
		for n, f := range incl {
			if c.Target != "" {
				if got := f(c.List, c.Target); got != in[c.Target] {
					bad("%s(%q, %q) = %v", n, c.List, c.Target, got)
				}
			}
		}
		for _, x := range []struct {
			n string
			f func(string) bool
			w string
		}{
			{"scope.IncludeOpenID", scope.IncludeOpenID, "openid"},
			{"scope.IncludeOfflineAccess", scope.IncludeOfflineAccess, "offline_access"},
			{"prompt.IncludeNone", prompt.IncludeNone, "none"},
			{"prompt.IncludeLogin", prompt.IncludeLogin, "login"},
			{"prompt.IncludeConsent", prompt.IncludeConsent, "consent"},
			{"prompt.IncludeSelectAccount", prompt.IncludeSelectAccount, "select_account"},
		} {
			if got := x.f(c.List); got != in[x.w] {
				bad("%s(%q) = %v", x.n, c.List, got)
			}
		}
		// inclusion
		missing := newSet()
		usable := true
		for _, w := range c.Targets {
			if w == "" {
				usable = false
			}
			if !in[w] {
				missing.add(w)
			}
		}
		if usable {
			for n, f := range map[string]func(string, []string) (bool, string){"scope.IncludeAll": scope.IncludeAll, "prompt.IncludeAll": prompt.IncludeAll} {
				ok, m := f(c.List, append([]string(nil), c.Targets...))
				if ok != (len(missing) == 0) {
					bad("%s(%q, %q) = %v, %q", n, c.List, c.Targets, ok, m)
				}
				if !ok && !missing[m] {
					bad("%s(%q, %q) reports %q as missing", n, c.List, c.Targets, m)
				}
			}
		}
		// sameness, where the meaning of repeated words does not matter
		same := in.String() == words(c.Other).String()
		s := scope.Same(c.List, c.Other)
		if s && !same {
			bad("scope.Same(%q, %q) = true", c.List, c.Other)
		}
		if !s && same && regular(c.List) && regular(c.Other) && !dup(c.List) && !dup(c.Other) {
			bad("scope.Same(%q, %q) = false", c.List, c.Other)
		}
		if !scope.Same(c.List, c.List) {
			bad("scope.Same(%q, itself) = false", c.List)
		}
		// removal
		for _, x := range []struct {
			n string
			f func(string) string
			w string
		}{
			{"scope.Remove", func(l string) string { return scope.Remove(l, c.Target) }, c.Target},
			{"scope.RemoveOpenID", scope.RemoveOpenID, "openid"},
			{"scope.RemoveOfflineAccess", scope.RemoveOfflineAccess, "offline_access"},
		} {
			if x.w == "" {
				continue
			}
			got := strings.Fields(x.f(c.List))
			var want []string
			for _, w := range strings.Fields(c.List) {
				if w != x.w {
					want = append(want, w)
				}
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				bad("%s(%q, %q) = %q", x.n, c.List, x.w, strings.Join(got, " "))
			}
			if regular(c.List) && len(want) > 0 && !regular(x.f(c.List)) {
				bad("%s(%q, %q) = %q is not a list", x.n, c.List, x.w, x.f(c.List))
			}
		}
		// prompt
		valid := true
		for w := range in {
			if w != "none" && w != "login" && w != "consent" && w != "select_account" {
				valid = false
			}
		}
		if in["none"] && len(in) > 1 {
			valid = false
		}
		if v := prompt.Validate(c.List); v != valid && (regular(c.List) || v) && len(in) > 0 {
			bad("prompt.Validate(%q) = %v", c.List, v)
		} else if v {
			res.class("valid prompt")
		}
		if len(in) > 1 && c.Target != "" {
			res.NonTrivial = true
		}
		if in[c.Target] {
			res.class("target present")
		} else {
			res.class("target absent")
		}
		if same && c.List != c.Other {
			res.class("same in another order")
		}
		if usable && len(c.Targets) > 0 {
			res.class(fmt.Sprintf("includes all: %v", len(missing) == 0))
		}
		if !regular(c.List) {
			res.class("irregular spacing")
		}
	})
	if p != "" {
		bad("%s", p)
	}
	return res
}

var wordPool = []string{"openid", "offline_access", "read", "none", "login", "consent", "select_account", "email", "openid2", "open", "Openid", "id", "OFFLINE_ACCESS", "offline", "access", "rea", "ead", "None", "nonelogin", "select", "é", "a.b", "read:x/y", "*", "none,login", "ope nid"[:3], "consent_", "%20", "urn:x", "ad", "loginnone", "openidread"}

func genWords(t *rapid.T) interface{} {
	list := func() []string {
		n := u(t, 6)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, wordPool[u(t, 1+u(t, len(wordPool)))])
		}
		if chance(t, 2) {
			for k := u(t, 70); k > 0; k-- {
				l = append(l, fmt.Sprintf("w%d", u(t, 40)))
			}
			if chance(t, 30) {
				l = append(l, strings.Repeat("long-word", 1+u(t, 200)))
			}
			l = append(l, wordPool[u(t, len(wordPool))])
			l = shuffle(t, l)
		}
		return l
	}
	join := func(l []string) string {
		s := strings.Join(l, " ")
		if chance(t, 15) {
			s = pick(t, " ", "", "  ") + strings.Join(l, pick(t, "  ", " ", "   ")) + pick(t, " ", "")
		}
		return s
	}
	a := list()
	c := &WordsCase{List: join(a)}
	b := list()
	if chance(t, 60) {
		b = shuffle(t, a)
		if chance(t, 40) {
			b = mutScope(t, b)
		}
	}
	c.Other = join(b)
	c.Target = wordPool[u(t, len(wordPool))]
	if len(a) > 0 && chance(t, 60) {
		c.Target = a[u(t, len(a))]
		if chance(t, 30) {
			c.Target = strings.ReplaceAll(nearMiss(t, c.Target), " ", "")
		}
	}
	c.Targets = list()
	if chance(t, 60) {
		c.Targets = subset(t, 70, shuffle(t, a)...)
		if chance(t, 40) {
			c.Targets = append(c.Targets, pick(t, wordPool...))
		}
	}
	return c
}

// lists enumerates all lists of up to n of the words.
func lists(n int, ws ...string) []string {
	out := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, x := range level {
			for _, w := range ws {
				s := w
				if i > 0 {
					s = x + " " + w
				}
				next = append(next, s)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// ---- L02: response types and flows

type RTCase struct {
	RT   string
	JSON string // a JSON text to be read as a flow type
	Mode B      // a response mode
	Flow int
	AT   bool
	IDT  bool
}

var rtTable = map[string]flow.Flow{
	"{code}":                {Type: flow.AuthorizationCode},
	"{code id_token}":       {Type: flow.Hybrid, RequireIdToken: true},
	"{code token}":          {Type: flow.Hybrid, RequireAccessToken: true},
	"{code id_token token}": {Type: flow.Hybrid, RequireAccessToken: true, RequireIdToken: true},
	"{id_token}":            {Type: flow.Implicit, RequireIdToken: true},
	"{token}":               {Type: flow.Implicit, RequireAccessToken: true},
	"{id_token token}":      {Type: flow.Implicit, RequireAccessToken: true, RequireIdToken: true},
}

var flowTypes = []flow.FlowType{flow.AuthorizationCode, flow.Implicit, flow.Hybrid, flow.DirectGrant}

var flowNames = map[string]flow.FlowType{"authorization_code": flow.AuthorizationCode, "implicit": flow.Implicit, "hybrid": flow.Hybrid, "direct_grant": flow.DirectGrant}

func checkRT(c *RTCase) *Result {
	res := &Result{}
	bad := func(f string, a ...interface{}) { res.Fail = append(res.Fail, fmt.Sprintf(f, a...)) }
	p := guard(func() {
		f, err := flow.JudgeByResponseType(c.RT)
		want, ok := rtTable[words(c.RT).String()]
		switch {
		case err == nil && f == nil:
			bad("JudgeByResponseType(%q) = nil, nil", c.RT)
		case err == nil && !ok:
			bad("JudgeByResponseType(%q) is accepted as %v", c.RT, *f)
		case err == nil && *f != want:
			bad("JudgeByResponseType(%q) = %+v, expected %+v", c.RT, *f, want)
		case err != nil && ok && regular(c.RT) && !dup(c.RT):
			bad("JudgeByResponseType(%q): %v", c.RT, err)
		}
		if err == nil {
			res.class("accepted " + words(c.RT).String())
			res.NonTrivial = true
			// the answer must be the caller's own
			f.Type, f.RequireAccessToken, f.RequireIdToken = flow.DirectGrant, !f.RequireAccessToken, !f.RequireIdToken
			if g, err := flow.JudgeByResponseType(c.RT); err != nil || *g != want {
				bad("JudgeByResponseType(%q) changed to %v, %v", c.RT, g, err)
			}
		} else {
			res.class("rejected")
		}
		// round trips
		ft := flowTypes[c.Flow&3]
		in := flow.Flow{Type: ft, RequireAccessToken: c.AT, RequireIdToken: c.IDT}
		b, err := json.Marshal(in)
		if err != nil {
			bad("marshalling %+v: %v", in, err)
			return
		}
		out := flow.Flow{Type: flowTypes[(c.Flow+1)&3], RequireAccessToken: !c.AT, RequireIdToken: !c.IDT}
		if err := json.Unmarshal(b, &out); err != nil || out != in {
			bad("%+v marshals to %s and back to %+v (%v)", in, b, out, err)
		}
		r := (&authorization.Request{Flow: &in, ClientId: "c", State: c.RT}).Encode()
		if d := authorization.DecodeRequest(r); d == nil || d.Flow == nil || *d.Flow != in || d.State != c.RT && validText(c.RT) {
			bad("a request with flow %+v is decoded as %+v", in, d)
		}
		m := map[string]flow.FlowType{"x": ft}
		b, _ = json.Marshal(m)
		m2 := map[string]flow.FlowType{}
		if err := json.Unmarshal(b, &m2); err != nil || m2["x"] != ft {
			bad("%v marshals to %s and back to %v (%v)", m, b, m2, err)
		}
		// response modes
		ms := []string{"query", "fragment", "form_post"}
		rank := map[string]int{"query": 1, "fragment": 2, "form_post": 3}
		mode := string(c.Mode)
		if got := response_mode.Validate(mode); got != (rank[mode] > 0) {
			bad("response_mode.Validate(%q) = %v", mode, got)
		}
		for _, x := range ms {
			if got := response_mode.CompareSecurityLevel(mode, x); got != (rank[mode] >= rank[x]) {
				bad("CompareSecurityLevel(%q, %q) = %v", mode, x, got)
			}
		}
		// names
		seen := map[string]bool{}
		for _, x := range flowTypes {
			if seen[x.String()] || x.String() == "" {
				bad("flow type %d has the name %q, which is not its own", int(x), x.String())
			}
			seen[x.String()] = true
		}
		// other texts
		var s string
		if json.Unmarshal([]byte(c.JSON), &s) == nil && strings.HasPrefix(strings.TrimSpace(c.JSON), `"`) {
			var x flow.FlowType = -1
			err := json.Unmarshal([]byte(c.JSON), &x)
			want, known := flowNames[s]
			known = known && seen[s]
			for _, y := range flowTypes {
				if y.String() == s {
					want, known = y, true
				}
			}
			if !known && err == nil {
				bad("the flow type name %s is read as %d", c.JSON, int(x))
			}
			if known && !strings.Contains(c.JSON, `\`) && (err != nil || x != want) {
				bad("the flow type name %s is read as %d, %v", c.JSON, int(x), err)
			}
			res.class(fmt.Sprintf("name known: %v", known))
		}
	})
	if p != "" {
		bad("%s", p)
	}
	return res
}

func validText(s string) bool { return strings.ToValidUTF8(s, "") == s }

func genRT(t *rapid.T) interface{} {
	ws := []string{"code", "id_token", "token", "none", "Code", "codes", "id-token", "tok", "id_token,token", "code+token", ""}
	n := u(t, 5)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, ws[u(t, pick(t, 3, 3, 3, len(ws)))])
	}
	c := &RTCase{RT: strings.Join(l, pick(t, " ", " ", " ", " ", "  ", "\t", "+", ",", "")), Flow: u(t, 4), AT: chance(t, 50), IDT: chance(t, 50)}
	if chance(t, 10) {
		c.RT = pick(t, " ", "") + c.RT + pick(t, " ", "")
	}
	if chance(t, 10) {
		c.RT = rapid.String().Draw(t, "")
	}
	names := []string{"authorization_code", "implicit", "hybrid", "direct_grant"}
	s := pick(t, names...)
	if chance(t, 60) {
		s = nearMiss(t, s)
	}
	if chance(t, 10) {
		s = pick(t, "", "0", "code", "none", "null", rapid.String().Draw(t, ""))
	}
	b, _ := json.Marshal(s)
	c.JSON = pick(t, "", " ") + string(b)
	m := pick(t, "query", "fragment", "form_post")
	switch u(t, 8) {
	case 0, 1:
		m = nearMiss(t, m)
	case 2:
		m = rapid.String().Draw(t, "")
	case 3:
		m = pick(t, "", "none", "web_message", "query fragment", "jwt", "query.jwt", "form-post", "formpost", "post")
	}
	c.Mode = B(m)
	return c
}

func init() {
	register(&Prop{
		ID: "L01", Level: "exploration", Quick: 200000, Thorough: 5000000,
		Rule: "Word lists, targets and target lists over words that contain or resemble each other, first all lists of up to three (thorough: four) of six words with every target and all prompts of up to four words, then random ones, compared with a set model. Non-trivial: the list has at least two different words and the target is not empty.",
		Gen:  genWords, New: func() interface{} { return &WordsCase{} },
		Check: func(c interface{}) *Result { return checkWords(c.(*WordsCase)) },
		Extra: func(thorough bool, note func(interface{}, *Result)) {
			n := 3
			if thorough {
				n = 4
			}
			ws := []string{"openid", "offline_access", "open", "openid2", "Openid", "none"}
			for _, l := range lists(n, ws...) {
				for i, x := range ws {
					parts := strings.Fields(l)
					sort.Strings(parts)
					c := &WordsCase{List: l, Target: x, Targets: []string{x, ws[(i+1)%len(ws)]}, Other: strings.Join(parts, " ")}
					note(c, checkWords(c))
				}
			}
			for _, l := range lists(4, "none", "login", "consent", "select_account", "None", "loginconsent") {
				c := &WordsCase{List: l, Target: "login", Other: "login " + l}
				note(c, checkWords(c))
			}
		},
	})
	register(&Prop{
		ID: "L02", Level: "exploration", Quick: 100000, Thorough: 3000000,
		Rule: "response_type values: first every list of up to three (thorough: four) of nine words, then random ones; flows and flow type names. Compared with a table. Non-trivial: the value is accepted.",
		Gen:  genRT, New: func() interface{} { return &RTCase{} },
		Check: func(c interface{}) *Result { return checkRT(c.(*RTCase)) },
		Extra: func(thorough bool, note func(interface{}, *Result)) {
			n := 3
			if thorough {
				n = 4
			}
			for i, l := range lists(n, "code", "id_token", "token", "none", "Code", "codetoken", "id", "tokens", "") {
				c := &RTCase{RT: l, Flow: i, AT: i&4 == 0, IDT: i&8 == 0, JSON: `"implicit"`}
				note(c, checkRT(c))
			}
		},
	})
}
