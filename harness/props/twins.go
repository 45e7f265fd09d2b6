package props

import (
	"net/http"
	"time"

	goidc "github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	oer "github.com/lyokato/goidc/oauth_error"
	"verif/world"
)

// Another endpoint of the same kind, set up otherwise, exists beside every
// endpoint examined: the settings of one are none of the other's business. The
// twins are made last and serve nothing.

func twinClock() time.Time { return time.Unix(77, 0) }

func twinToken(accept int, assertion bool) http.HandlerFunc {
	te := goidc.NewTokenEndpoint("twin")
	te.SetLogger(nopLogger{})
	te.SetTimeBuilder(twinClock)
	te.AcceptClientSecret(acceptance[2-accept])
	te.AcceptClientAssertion(!assertion)
	te.SetErrorURIBuilder(func(oer.OAuthErrorType) string { return "https://twin.example/" })
	for _, g := range []string{"authorization_code", "client_credentials", "password", "refresh_token", "jwt"} {
		te.Support(grantHandler(g))
	}
	return te.Handler(world.DI{World: world.New(world.Spec{Issuer: "https://twin.example"})})
}

func twinProtector(accept int) *goidc.ResourceProtector {
	rp := goidc.NewResourceProtector("twin")
	rp.SetLogger(nopLogger{})
	rp.SetTimeBuilder(twinClock)
	rp.AcceptAccessToken(acceptance[2-accept])
	rp.SetErrorURI("https://twin.example/")
	return rp
}

func twinAuthz(pol *authorization.Policy) *goidc.AuthorizationEndpoint {
	p := *authorization.DefaultPolicy()
	p.AllowEmptyScope = !pol.AllowEmptyScope
	p.IgnoreInvalidResponseMode = !pol.IgnoreInvalidResponseMode
	p.RequireResponseModeSecurityLevelCheck = !pol.RequireResponseModeSecurityLevelCheck
	p.MaxMaxAge, p.MinMaxAge = 3, 2
	p.MaxNonceLength, p.MaxCodeVerifierLength = 1, 1
	p.ConsentOmissionPeriod, p.AuthSessionExpiresIn, p.IdTokenExpiresIn = 7, 7, 7
	p.DefaultAuthorizationCodeFlowResponseMode = "form_post"
	p.DefaultImplicitFlowResponseMode = "form_post"
	ep := goidc.NewAuthorizationEndpoint(world.DI{World: world.New(world.Spec{Issuer: "https://twin.example"})}, &p)
	ep.SetLogger(nopLogger{})
	ep.SetTimeBuilder(twinClock)
	return ep
}

// maybeParsed stands for a host that looks at some requests (one in nine) before
// it hands them over, so that their bodies have been read.
func maybeParsed(r *http.Request) *http.Request {
	if (int64(len(r.URL.RawQuery))+r.ContentLength)%9 == 4 {
		r.FormValue("state") // parses whatever there is
	}
	return r
}
