package props

import (
	"fmt"
	"net/http"
	"strings"

	"pgregory.net/rapid"
	"verif/world"
)

type resProfile struct {
	spoof, scoped, places, host, advance, bad int // percent
	maxSteps                                  int
	cfg                                       *ResCfg // if given
}

var resPaths = []string{"/api/v1", "/", "/admin", "/api/v1/items", "/files/a b", "/é"}

// genResWorld makes a world with grants and access tokens.
func genResWorld(t *rapid.T) world.Spec {
	s := genSpec(t, specOpts{idAlg: []string{"HS256"}})
	if chance(t, 20) {
		s.Users[0].ID = pick(t, int64(9007199254740993), 9223372036854775807, 1234567890123) - int64(laneNo)
	}
	id := s.Users[0].ID>>31<<31 + int64(11+100*laneNo)
	for _, usr := range s.Users {
		for ci := range s.Clients {
			cl := &s.Clients[ci]
			id++
			if !chance(t, 80) {
				continue
			}
			sc := strings.Join(shuffle(t, subset(t, 45, scopePool...)), " ")
			if sc != "" && chance(t, 8) {
				// as a store may hold it
				sc = pick(t, " "+sc, sc+" ", strings.Replace(sc, " ", "  ", 1), sc+" "+sc)
			}
			s.Infos = append(s.Infos, world.InfoSpec{ID: id, Client: cl.ID, User: usr.ID, Subject: subjectOf(&s, usr.ID, cl.ID), Scope: sc, AuthorizedAt: s.Now - 100, Active: !chance(t, 10)})
			for k := 0; k < 1+u(t, 2); k++ {
				exp := int64(pick(t, 3600, 60, 1, 0, 86400, 3600, 60, 1<<31+3, 1<<40))
				ages := []int64{0, exp, exp - 1, 10, exp + 1, exp * 2}
				if exp > t0 {
					ages = []int64{0, 1, 10, 86400, 1 << 30, 1 << 30}
				}
				tok := fmt.Sprintf("AT-%d-%d", id, k)
				switch s.Style {
				case 1:
					tok += "-._~+/=="
				case 2:
					tok += strings.Repeat("x", 300)
				case 4:
					tok += strings.Repeat("y", 9000)
				case 3:
					tok += "%2B+/="
				}
				ra := s.Now - ages[u(t, 5)]
				if chance(t, 5) {
					ra = s.Now - ages[5]
				}
				x := world.TokenSpec{Info: id, Access: tok, AccessExp: exp, RefreshedAt: ra, CreatedAt: ra - int64(pick(t, 0, 0, 100000)), OnTokenEP: chance(t, 70), Gone: chance(t, 3)}
				if chance(t, 50) {
					x.Refresh, x.RefreshExp = "RT-"+tok, int64(pick(t, 7200, 100000))
				}
				s.Tokens = append(s.Tokens, x)
			}
		}
	}
	return s
}

func genRes(t *rapid.T, p *resProfile) interface{} {
	c := &ResCase{Spec: genResWorld(t)}
	c.Cfg = ResCfg{Realm: pick(t, "api.example.org", "my realm", "r=1, x"), Accept: u(t, 3)}
	if chance(t, 40) {
		c.Cfg.ErrorURI = "https://op.example/e?t="
		c.Cfg.FixedURI = chance(t, 40)
	}
	c.Cfg.Twice = chance(t, 15)
	if p.cfg != nil {
		c.Cfg = *p.cfg
	}
	s := &c.Spec
	scopes := map[string][]string{}
	for _, x := range resPaths {
		if chance(t, 50) {
			scopes[x] = subset(t, 25, scopePool...)
		}
	}
	n := 1 + u(t, p.maxSteps)
	if p.maxSteps > 2 && chance(t, 1) {
		n += u(t, 40) // a long history
	}
	for i := 0; i < n; i++ {
		if len(c.Steps) > 0 && chance(t, p.advance) {
			c.Steps = append(c.Steps, ResStep{Op: "advance", N: int64(pick(t, 1, 2, 59, 60, 3600, 86400))})
		}
		if len(c.Steps) > 0 && chance(t, p.host) {
			c.Steps = append(c.Steps, genResHost(t, s))
		}
		st := genAccess(t, s, &c.Cfg, p, scopes)
		c.Steps = append(c.Steps, st)
		if chance(t, 20) {
			if chance(t, 40) {
				c.Steps = append(c.Steps, genResHost(t, s))
			}
			c.Steps = append(c.Steps, st)
		}
	}
	return c
}

func genResHost(t *rapid.T, s *world.Spec) ResStep {
	if len(s.Infos) == 0 || len(s.Tokens) == 0 {
		return ResStep{Op: "advance", N: 1}
	}
	i := s.Infos[u(t, len(s.Infos))]
	switch u(t, 4) {
	case 0:
		return ResStep{Op: "host", Host: "revoke", Arg: i.Client, Arg2: fmt.Sprint(i.User)}
	case 1:
		return ResStep{Op: "host", Host: "restore", Arg: i.Client, Arg2: fmt.Sprint(i.User)}
	case 2:
		return ResStep{Op: "host", Host: "setscope", Arg: i.Client, Arg2: fmt.Sprintf("%d|%s", i.User, strings.Join(subset(t, 45, scopePool...), " "))}
	}
	x := s.Tokens[u(t, len(s.Tokens))].Access
	st := ResStep{Op: "renew", Arg: x}
	if chance(t, 30) {
		st.Arg2 = x + "n"
	}
	return st
}

func genAccess(t *rapid.T, s *world.Spec, cfg *ResCfg, p *resProfile, scopes map[string][]string) ResStep {
	st := ResStep{Op: "access", Method: pick(t, "GET", "POST", "POST", "PUT", "DELETE", "GET", "POST", "HEAD", "OPTIONS", "PATCH", "TRACE", "get"), Path: pick(t, resPaths...)}
	st.Path = strings.NewReplacer(" ", "%20", "é", "%C3%A9").Replace(st.Path)
	if chance(t, 8) {
		switch u(t, 4) {
		case 0:
			st.Path += "/"
		case 1:
			st.Path = flip(t, st.Path)
		case 2:
			st.Path = strings.Replace(st.Path, "a", "%61", 1)
		case 3:
			st.Path += "/x"
		}
	}
	if chance(t, p.scoped) {
		st.Scoped = true
		st.Scopes = scopes
	}
	token := func() string {
		if len(s.Tokens) == 0 {
			return "nothing"
		}
		x := s.Tokens[u(t, len(s.Tokens))]
		if chance(t, p.bad) {
			switch u(t, 5) {
			case 4:
				return pick(t, x.Access+",", x.Access+";", x.Access+"\"", "\""+x.Access+"\"", x.Access+"=", x.Access+".", strings.TrimRight(x.Access, "="), strings.ToLower(x.Access), "Bearer:"+x.Access, x.Access+"%00", "0"+x.Access)
			case 0:
				return strings.TrimSpace(nearMiss(t, x.Access))
			case 1:
				if x.Refresh != "" {
					return x.Refresh
				}
			case 2:
				return "unknown"
			}
		}
		return x.Access
	}
	if st.Scoped && len(s.Infos) > 0 && chance(t, 70) {
		// requirements near what some grant holds
		g := strings.Fields(s.Infos[u(t, len(s.Infos))].Scope)
		req := subset(t, 60, g...)
		if chance(t, 50) {
			x := pick(t, scopePool...)
			if len(g) > 0 && chance(t, 60) {
				x = g[u(t, len(g))]
				x = pick(t, x+"2", x[:len(x)-1], flip(t, x), x[1:], x+"/x", strings.Split(x, "_")[0])
			}
			req = append(req, x)
		}
		m := map[string][]string{}
		for k, v := range scopes {
			m[k] = v
		}
		if r, err := http.NewRequest("GET", "http://x"+st.Path, nil); err == nil {
			m[r.URL.Path] = shuffle(t, req)
		}
		st.Scopes = m
	}
	where := []string{"header"}
	if chance(t, p.places) {
		where = subset(t, 45, "header", "body", "query")
	}
	for _, w := range where {
		tok := token()
		switch w {
		case "header":
			st.Auth = pick(t, "Bearer ", "bearer ", "BEARER ", "bEARER ") + tok
			if chance(t, p.places/4) {
				st.Auth = pick(t, "Basic ", "Token ", "Bearer", "", "MAC ") + tok
			}
		case "body":
			st.Body = append(st.Body, KV{"access_token", tok})
			if chance(t, 10) {
				st.CType = pick(t, "plain", "multipart")
			}
		case "query":
			st.Query = append(st.Query, KV{"access_token", tok})
		}
	}
	if chance(t, 10) {
		st.Query = append(st.Query, KV{"Access_Token", token()})
	}
	if chance(t, 20) {
		st.Query = append(st.Query, KV{"q", "1"})
	}
	if chance(t, 12) {
		var toks []string
		for _, x := range s.Tokens {
			toks = append(toks, x.Access)
		}
		st.Headers = append(st.Headers, noiseHeaders(t, s, toks...)...)
	}
	if chance(t, 10) {
		for _, k := range subset(t, 30, "token", "oauth_token", "bearer_token", "accessToken", "access-token", "scope", "user_id", "client_id", "bearer") {
			st.Query = append(st.Query, KV{k, pick(t, token(), "openid email")})
		}
	}
	if len(s.Infos) > 0 && chance(t, p.spoof) {
		i := s.Infos[u(t, len(s.Infos))]
		for _, k := range subset(t, 60, "X-OAUTH-USER-ID", "X-OAUTH-CLIENT-ID", "X-OAUTH-SCOPE", "x-oauth-user-id", "x-oauth-scope", "X-Oauth-Client-Id", "X_OAUTH_USER_ID", "X-Oauth-Scope", "X-Other", "X-Oauth-Userid") {
			v := "evil"
			lk := strings.ToLower(k)
			switch {
			case strings.Contains(lk, "user"):
				v = pick(t, fmt.Sprint(i.User), "0", "")
			case strings.Contains(lk, "client"):
				v = i.Client
			case strings.Contains(lk, "scope"):
				v = pick(t, strings.Join(scopePool, " "), i.Scope)
			}
			st.Headers = append(st.Headers, KV{k, v})
		}
	}
	return st
}
