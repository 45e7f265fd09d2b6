package props

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"strings"

	"github.com/lyokato/goidc/grant"
	"pgregory.net/rapid"
	"verif/world"
)

// ---- drawing helpers: unbiased, and shrinking towards the first choice

func u(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	bits := 3
	for 1<<uint(bits-3) < n {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if boolGen.Draw(t, "") {
			v |= 1
		}
	}
	return v * n >> uint(bits)
}

var boolGen = rapid.Bool()

// chance is true in about pct of 100 draws (false when shrunk).
func chance(t *rapid.T, pct int) bool { return u(t, 100) >= 100-pct }

// U, Chance and Pick are for checks in other packages.
func U(t *rapid.T, n int) int           { return u(t, n) }
func Chance(t *rapid.T, pct int) bool   { return chance(t, pct) }
func Pick[T any](t *rapid.T, xs ...T) T { return pick(t, xs...) }

func pick[T any](t *rapid.T, xs ...T) T { return xs[u(t, len(xs))] }

// wpick picks by weight: w, x, w, x, ...
func wpick(t *rapid.T, pairs ...interface{}) string {
	total := 0
	for i := 0; i < len(pairs); i += 2 {
		total += pairs[i].(int)
	}
	n := u(t, total)
	for i := 0; i < len(pairs); i += 2 {
		n -= pairs[i].(int)
		if n < 0 {
			return pairs[i+1].(string)
		}
	}
	return pairs[1].(string)
}

func shuffle(t *rapid.T, l []string) []string {
	l = append([]string(nil), l...)
	for i := len(l) - 1; i > 0; i-- {
		j := i - u(t, i+1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// subset keeps each element with the given chance.
func subset(t *rapid.T, pct int, l ...string) []string {
	var out []string
	for _, x := range l {
		if chance(t, pct) {
			out = append(out, x)
		}
	}
	return out
}

func flip(t *rapid.T, s string) string {
	// change the case of one letter
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' {
			return s[:i] + string(c-32) + s[i+1:]
		}
		if c >= 'A' && c <= 'Z' {
			return s[:i] + string(c+32) + s[i+1:]
		}
	}
	return s + "x"
}

// nearMiss returns a string close to, but different from, s.
func nearMiss(t *rapid.T, s string) string {
	if s == "" {
		return "x"
	}
	switch u(t, 8) {
	case 0:
		return s + "x"
	case 1:
		return s[:len(s)-1] + string('0'+rune((s[len(s)-1]+1)%10))
	case 2:
		return flip(t, s)
	case 3:
		if len(s) > 1 {
			return strings.ToValidUTF8(s[:len(s)-1], "")
		}
		return s + s
	case 4:
		return s + " "
	case 5:
		return " " + s
	case 6:
		if len(s) > 1 {
			return strings.ToValidUTF8(s[1:], "")
		}
		return "y" + s
	}
	return s + "/"
}

// uriNearMiss returns a URI that a lax comparison might take for s.
func uriNearMiss(t *rapid.T, s string) string {
	path := strings.Index(s, "://") + 3
	if path < 3 {
		path = 0
	}
	host := path
	if i := strings.IndexAny(s[path:], "/?#"); i >= 0 {
		path += i
	} else {
		path = len(s)
	}
	cut := func(c string) string { return strings.SplitN(s, c, 2)[0] }
	var r string
	switch u(t, 24) {
	case 0:
		r = s + "#x"
	case 1:
		r = s + "?x=1"
	case 2:
		r = s + "&x=1"
	case 3:
		r = cut("?")
	case 4:
		r = cut("#")
	case 5:
		r = s[:path] + "/x/.." + s[path:]
	case 6:
		r = s[:host] + strings.ToUpper(s[host:path]) + s[path:]
	case 7:
		r = strings.ToUpper(s[:host]) + s[host:]
	case 8:
		r = s[:path] + ":443" + s[path:]
	case 9:
		r = s[:host] + "evil.example@" + s[host:]
	case 10:
		r = s[:path] + ".evil.example" + s[path:]
	case 11:
		r = s[:host] + "sub." + s[host:]
	case 12:
		r = strings.Replace(s, "https://", "http://", 1)
	case 13:
		r = s[:path] + strings.Replace(s[path:], "c", "%63", 1)
	case 14:
		r = strings.NewReplacer("%20", "+", "%2F", "/", "%C3%A9", "\u00e9", "%22", "\"", "%3E", ">").Replace(s)
	case 15:
		r = strings.NewReplacer("+", "%20", "%20", "+", "%2F", "%2f", "%C3%A9", "%c3%a9", "\"", "%22", "<", "%3C").Replace(s)
	case 16:
		r = strings.TrimRight(s, "/?#&")
	case 17:
		r = s + pick(t, "?", "#", "&", "%20", "\t", "\r\n", ".", ";", ",")
	case 18:
		r = s[:path] + "/" + s[path:]
	case 19:
		r = s + pick(t, "/evil", "2", "/../../evil", "\\evil")
	case 20:
		r = s + " " + s
	case 21:
		r = pick(t, "http://localhost:1234/cb", "http://localhost/", "http://127.0.0.1:9999/cb?a=b", "http://127.0.0.1:8081/other", "http://[::1]/cb", "urn:ietf:wg:oauth:2.0:oob", "com.example.app1:/other", "about:blank", "data:text/html,x", "https://c1.example.evil.example/cb", "*", "null")
	default:
		r = nearMiss(t, s)
	}
	if r == s {
		return nearMiss(t, s)
	}
	return r
}

const t0 = int64(1700000000)

var (
	scopePool = []string{"openid", "email", "profile", "offline_access", "read", "write", "openid2", "mail", "offline", "urn:x/y", "Email", "readwrite"}
	allFlows  = []string{"authorization_code", "implicit", "hybrid"}
	allGrants = []string{"authorization_code", "client_credentials", "password", "refresh_token", grant.TypeJWT}
	idAlgs    = []string{"HS256", "RS256", "ES256", "RS384", "HS384", "ES384", "RS512", "HS512", "ES512", "PS256", "PS384", "PS512"}
	plainURIs = []string{"https://c%d.example/cb", "https://c%d.example/cb2", "http://127.0.0.1:808%d/cb?a=b", "com.example.app%d:/cb"}
	weirdURIs = []string{
		"https://c%d.example/cb?a=b&c=d",
		"https://c%d.example/cb?",
		"https://c%d.example/cb?x=1&",
		"https://c%d.example/cb?state=own&code=own&error=",
		"https://c%d.example/cb?q=%%22%%3E%%26amp;1",
		`https://c%d.example/cb?q="><input name="code" value="evil">`,
		"https://c%d.example/cb?q='onmouseover='alert(1)",
		"https://c%d.example/cb?a=b&amp;c=d&lt=1&copy=2",
		"https://c%d.example/a%%2Fb/%%C3%%A9?x=%%20y+z",
		"https://c%d.example",
		"https://user@c%d.example:8443/cb?n",
		"myapp%d://cb",
		"https://c%d.example/cb#/route",
		"https://c%d.example/cb#",
		"https://c%d.example/cb?a=b#x=y",
		"https://c%d.example/" + strings.Repeat("callback/", 60) + "?s=" + strings.Repeat("0123456789abcdef", 40),
	}
	states = []string{"", "s-1", "xyz ABC", "a&b=c#d?e+f%20g;h", `"><script>alert('x')</script>`, "état-世界-\U0001F600", "&amp;&lt;&#34;", "line1\r\nSet-Cookie: a=b", "%", "=", "a=1&state=2", strings.Repeat("long", 700), "'", "<", "\t", " lead and trail ", "null", "&quot;"}
)

func words2(t *rapid.T, extra int) []string {
	n := 1 + u(t, 4)
	return append([]string{"openid"}, shuffle(t, scopePool[1:])[:n]...)
}

// laneNo, if not zero, sets the names in generated worlds apart from those of
// other lanes (see conc.go).
var laneNo int

// specOpts steers genSpec.
type specOpts struct {
	weirdURIs int // percent
	grants    int // percent of grants present
	idAlg     []string
	tokens    bool // sessions and tokens exist
	users     int
}

func genSpec(t *rapid.T, o specOpts) world.Spec {
	s := world.Spec{Issuer: pick(t, "https://op.example", "https://op.example/tenant/1", "https://op.example/"), Now: t0,
		Style: pick(t, 0, 1, 2, 3), AccessTTL: int64(pick(t, 3600, 1, 60, 86400, 3600, 0, 1<<31+5, 1<<40)), RefreshTTL: int64(pick(t, 7200, 2, 100000, 7200, 0, 1<<32+9)),
		IDTTL: int64(pick(t, 600, 1, 86400, 86401, 31536000)), Rotate: chance(t, 40), PPID: chance(t, 30)}
	if chance(t, 5) {
		s.Now = pick(t, int64(1)<<31-3, 1<<32+100, 4102444800)
	}
	if liveNow != 0 {
		s.Now = liveNow
	}
	ids := []string{pick(t, "client-a", "client a+b&c=d:é%2B", "https://rp.example/?x=1"), pick(t, "client-b", "Client-a", "client-a2", "client-"), "client-c"}
	if laneNo > 0 {
		for i := range ids {
			ids[i] += fmt.Sprintf("-l%d", laneNo)
		}
	}
	n := 2
	if chance(t, 20) {
		n = 3
	}
	secrets := []string{"s3cret", "se:cr:et", "p w+%41&=é\"", strings.Repeat("x", 120), "%zz", "", "::", "s3cret+"}
	if chance(t, 3) {
		secrets = append(secrets, strings.Repeat("long secret ", 500))
	}
	for i := 0; i < n; i++ {
		c := world.ClientSpec{ID: ids[i], Secret: fmt.Sprintf("%s%d", pick(t, secrets...), i), Owner: int64(pick(t, 1, 2, 0, -1))}
		c.Flows = allFlows
		if chance(t, 15) {
			c.Flows = subset(t, 60, allFlows...)
		}
		c.Grants = allGrants
		if chance(t, 25) {
			c.Grants = subset(t, 60, allGrants...)
		}
		c.Scopes = map[string][]string{}
		all := scopePool
		if chance(t, 30) {
			all = append([]string{"openid"}, subset(t, 70, scopePool[1:]...)...)
		}
		for _, f := range []string{"authorization_code", "implicit", "hybrid", "direct_grant"} {
			c.Scopes[f] = all
			if chance(t, 12) {
				c.Scopes[f] = subset(t, 70, all...)
			}
		}
		uris := append([]string{}, plainURIs[:2]...)
		if chance(t, 40) {
			uris = append(uris, plainURIs[2:]...)
		}
		if chance(t, o.weirdURIs) {
			uris = append(uris, shuffle(t, weirdURIs)[:2+u(t, 5)]...)
		}
		for _, x := range uris {
			c.RedirectURIs = append(c.RedirectURIs, fmt.Sprintf(x, i+1))
		}
		algs := o.idAlg
		if algs == nil {
			algs = []string{"HS256", "RS256", "ES256", "HS512", "ES384"}
		}
		c.IDAlg = pick(t, algs...)
		c.IDKey = world.KeyFor(c.IDAlg, []string{"a", "b", "a"}[i])
		c.IDKid = pick(t, "kid-1", "", "k/2 é")
		c.NoConsent = pick(t, 1, 0, 1)
		c.None = pick(t, 1, 2, 3, 0)
		s.Clients = append(s.Clients, c)
	}
	s.Users = []world.UserSpec{
		{ID: 1, Name: "alice", Password: "alicepw", Subject: "sub-alice"},
		{ID: 2, Name: "bob", Password: "bobpw", Subject: "sub-bob"},
	}
	if chance(t, 25) {
		s.Users[1] = world.UserSpec{ID: 0, Name: "Alice", Password: "alicepw ", Subject: "sub-alice2"}
	}
	if chance(t, 20) {
		s.Users[0].Name, s.Users[0].Password = "ali ce+é@x&y=1", "p%41 +w"
	}
	if chance(t, 3) {
		s.Style = 4
	}
	if chance(t, 12) { // identifiers that need all of their 64 bits
		big := pick(t, int64(1)<<32+2, 1<<53+1, 1<<31+1, 1<<62+1)
		for i := range s.Clients {
			if s.Clients[i].Owner == s.Users[0].ID {
				s.Clients[i].Owner = big
			}
		}
		s.Users[0].ID = big
	}
	if laneNo > 0 {
		s.Now += int64(laneNo) * 7
		for i := range s.Users {
			x := &s.Users[i]
			x.ID += int64(laneNo) * 20
			x.Name += fmt.Sprintf("-l%d", laneNo)
			x.Subject += fmt.Sprintf("-l%d", laneNo)
		}
	}
	return s
}

func subjectOf(s *world.Spec, uid int64, client string) string {
	for _, x := range s.Users {
		if x.ID == uid {
			if s.PPID {
				return x.Subject + "@" + client
			}
			return x.Subject
		}
	}
	return "nobody"
}

func mutScope(t *rapid.T, sc []string) []string {
	l := append([]string(nil), sc...)
	switch u(t, 6) {
	case 0:
		return append(l, pick(t, scopePool...))
	case 5: // the same letters, other words
		for i, w := range l {
			if w == "readwrite" {
				l[i] = "read"
				return append(l, "write")
			}
		}
		if hasStr(l, "read") && hasStr(l, "write") {
			return append(without(without(l, "read"), "write"), "readwrite")
		}
		if len(l) > 1 {
			i := u(t, len(l)-1)
			if chance(t, 50) {
				return append(append(append([]string(nil), l[:i]...), l[i]+l[i+1]), l[i+2:]...)
			}
			if n := len(l[i]); n > 1 {
				l[i], l[i+1] = l[i][:n-1], l[i][n-1:]+l[i+1]
				return strings.Fields(strings.ToValidUTF8(strings.Join(l, " "), ""))
			}
		}
	case 1:
		if len(l) > 0 {
			i := u(t, len(l))
			return append(l[:i:i], l[i+1:]...)
		}
	case 2:
		if len(l) > 0 {
			i := u(t, len(l))
			l[i] = pick(t, l[i]+"2", flip(t, l[i]))
			return l
		}
	case 3:
		if len(l) > 1 {
			l[0] = l[1]
		}
	case 4:
		if len(l) > 0 {
			return l[:len(l)-1]
		}
	}
	return append(l, "read")
}

// noiseParams are request parameters without a meaning where they are added,
// with values an implementation might mistake for its own.
func noiseParams(t *rapid.T, s *world.Spec, used func(string) bool, names ...string) []KV {
	if len(names) == 0 {
		names = []string{"user_id", "uid", "sub", "subject", "owner", "nonce", "iss", "aud", "client", "exp", "expires_in", "auth_time", "active", "debug", "admin", "redirect_url", "scopes", "token_type", "id", "lang"}
	}
	var out []KV
	for _, k := range subset(t, 25, names...) {
		if used(k) {
			continue
		}
		usr := s.Users[u(t, len(s.Users))]
		v := pick(t, "0", "1", "true", "evil", fmt.Sprint(usr.ID), usr.Subject, usr.Name, s.Clients[u(t, len(s.Clients))].ID, "openid email offline_access", "https://evil.example/", "n-evil", "9999999999")
		out = append(out, KV{k, v})
	}
	return out
}

// noiseHeaders are request headers without a meaning here.
func noiseHeaders(t *rapid.T, s *world.Spec, tokens ...string) []KV {
	cl := s.Clients[u(t, len(s.Clients))]
	tok := "evil"
	if len(tokens) > 0 {
		tok = pick(t, tokens...)
	}
	var out []KV
	for _, k := range subset(t, 20, "X-Access-Token", "Cookie", "X-HTTP-Method-Override", "X-Forwarded-For", "X-Forwarded-Proto", "Origin", "Referer", "X-Client-Id", "X-Client-Secret", "Proxy-Authorization", "X-Authorization", "X-Requested-With", "Accept", "User-Agent", "Forwarded", "Via") {
		v := "evil"
		switch k {
		case "X-Access-Token":
			v = tok
		case "Cookie":
			v = "access_token=" + url.QueryEscape(tok) + "; client_id=" + url.QueryEscape(cl.ID)
		case "X-HTTP-Method-Override":
			v = pick(t, "GET", "POST", "OPTIONS")
		case "X-Client-Id":
			v = cl.ID
		case "X-Client-Secret":
			v = cl.Secret
		case "Proxy-Authorization", "X-Authorization":
			v = pick(t, "Bearer "+tok, "Basic "+base64.StdEncoding.EncodeToString([]byte(url.QueryEscape(cl.ID)+":"+url.QueryEscape(cl.Secret))))
		case "X-Requested-With":
			v = "XMLHttpRequest"
		case "Accept":
			v = pick(t, "text/html", "application/json", "*/*")
		case "X-Forwarded-For":
			v = pick(t, "127.0.0.1", "10.0.0.1")
		case "X-Forwarded-Proto":
			v = pick(t, "http", "https")
		case "Origin", "Referer":
			v = pick(t, "https://c1.example", "https://evil.example/", "null")
		}
		if strings.ContainsAny(v, "\r\n") {
			continue
		}
		out = append(out, KV{k, v})
	}
	return out
}
