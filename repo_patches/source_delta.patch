From 7eab406868aeca5a78bfa906329271bc1c2295ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 01/24] fix: deliver the access token's lifetime as expires_in
 in the implicit flow

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..ba3462c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1115,7 +1115,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From a5bf4d18b5c3d445effb1886a2e84c94ddc52dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 02/24] fix: escape the redirect URI in the form_post page

---
 authorization/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..06ac8df 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,7 +124,7 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
 		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
 	}
-- 
2.43.0


From d9c06ab41b73f04a088d073bf2fbf61f99ac61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 03/24] fix: do not repeat the delimiter of a redirect URI that
 ends with it

---
 authorization/response.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/authorization/response.go b/authorization/response.go
index 06ac8df..29fb339 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -5,6 +5,7 @@ import (
 	"html"
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 type ResponseParamType int
@@ -34,6 +35,11 @@ type (
 
 func (t ResponseParamType) Connector(uri string) string {
 	u, _ := url.Parse(uri)
+	if (t == ParamTypeFragment && strings.HasSuffix(uri, "#")) ||
+		(t != ParamTypeFragment && strings.HasSuffix(uri, "?")) {
+		// the delimiter is there already, followed by nothing
+		return ""
+	}
 	switch t {
 	case ParamTypeQuery:
 		if len(u.RawQuery) == 0 {
-- 
2.43.0


From 5f2767c9b2f445587e6196e1d8ef3e22e245ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 04/24] fix: treat a repeated 'none' prompt as none

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index ba3462c..60aed0e 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From ec987cda72bc01f3f656edf8d62145c6e368fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 05/24] fix: enforce max_age=0 when the policy allows it

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 60aed0e..5643ad0 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -912,7 +912,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		return false
 	}
 
-	if req.MaxAge > 0 {
+	if mas != "" {
 		age := a.currentTime().Unix() - authTime
 		if req.MaxAge < age {
 			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
-- 
2.43.0


From 215aad53162ccc34ca9a03a380743f01abb8dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 06/24] fix: report a failure of the login screen on
 re-authentication

---
 authorization_endpoint.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 5643ad0..d74de7a 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -895,7 +895,16 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				},
 				"force-login is required by 'prompt'"))
 
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
@@ -921,7 +930,16 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					"max_age": mas,
 				},
 				"'auth_time' is over 'max_age', so, show login page."))
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
-- 
2.43.0


From 346545e4b10c2fe599152b55df6e6319ef5a159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 07/24] fix: refuse a scope that consists of spaces only like
 an empty one

---
 authorization_endpoint.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index d74de7a..9a3eba6 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"net/http"
 	"strconv"
+	"strings"
 
 	"github.com/golang-jwt/jwt"
 	"github.com/lyokato/goidc/authorization"
@@ -404,7 +405,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			scp_for_check := scope.RemoveOpenID(scp)
 			scp_for_check = scope.RemoveOfflineAccess(scp_for_check)
 
-			if len(scp_for_check) == 0 {
+			if strings.Trim(scp_for_check, " ") == "" {
 
 				a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
 					log.InvalidScope,
@@ -421,7 +422,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		}
 	}
 
-	if scp == "" && !a.policy.AllowEmptyScope {
+	if strings.Trim(scp, " ") == "" && !a.policy.AllowEmptyScope {
 
 		a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
 			log.InvalidScope,
-- 
2.43.0


From cf2605fca86835cb07fd43bfb665453fed5a7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 08/24] fix: verify id_token_hint with the public key of
 asymmetric algorithms

---
 authorization_endpoint.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 9a3eba6..7399c16 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -728,7 +729,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				if signer, ok := key.(crypto.Signer); ok {
+					// verification needs the public half of a key pair
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From 2a3d2f5b397b487ce2030c0410b3e1e7ba6ece42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 09/24] fix: take an id_token_hint with expiry 0 as expired

---
 authorization_endpoint.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 7399c16..76d1062 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -765,6 +765,14 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					state)
 				return false
 			}
+			if !claims.VerifyExpiresAt(jwt.TimeFunc().Unix(), true) {
+				// jwt.Parse takes 0 as "no expiry"
+				rh.Error(ruri, "invalid_request",
+					"'id_token_hint' is expired.",
+					state)
+				return false
+			}
+
 			sub := ""
 			if found, ok := claims["sub"].(string); ok {
 				sub = found
-- 
2.43.0


From 5fb04fe4bb93326de38cd96ab27d01ca5082da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 10/24] fix: apply max_age to prompt=none requests

---
 authorization_endpoint.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 76d1062..521320c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -626,7 +626,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutInteraction(callbacks, r, rh, info, req, mas)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -713,7 +713,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutInteraction(callbacks, r, rh, info, req, mas)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -835,7 +835,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutInteraction(callbacks, r, rh, info, req, mas)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -1075,6 +1075,39 @@ func (a *AuthorizationEndpoint) complete(
 	return false
 }
 
+// completeWithoutInteraction completes a 'prompt=none' request, unless the
+// login is older than the requested max_age allows.
+func (a *AuthorizationEndpoint) completeWithoutInteraction(
+	callbacks bridge.AuthorizationCallbacks,
+	r *http.Request,
+	rh authorization.ResponseHandler,
+	info bridge.AuthInfo, req *authorization.Request, maxAge string) bool {
+	if maxAge != "" {
+		authTime, err := callbacks.GetAuthTime()
+		if err != nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "GetAuthTime",
+				},
+				err.Error()))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
+		if req.MaxAge < a.currentTime().Unix()-authTime {
+			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
+				log.LoginRequired,
+				map[string]string{
+					"max_age": maxAge,
+				},
+				"'auth_time' is over 'max_age'."))
+			rh.Error(req.RedirectURI, "login_required", "", req.State)
+			return false
+		}
+	}
+	return a.complete(callbacks, r, rh, info, req)
+}
+
 func (a *AuthorizationEndpoint) completeAuthorizationCodeFlowRequest(
 	callbacks bridge.AuthorizationCallbacks,
 	r *http.Request,
-- 
2.43.0


From 7d6edd3961067f60b40a1be14bae24bfe4a4634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 11/24] fix: do not crash on a malformed client assertion

No client has been determined yet when the assertion cannot be parsed.
---
 assertion/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..f593ffb 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -48,7 +48,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 			logger.Debug(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a},
 				"invalid 'assertion' format"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
-- 
2.43.0


From befc4ba38e2dba1da0c58b4e76978e2e38ecfe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 12/24] fix: check the permitted grant types of clients
 authenticating by assertion

---
 token_endpoint.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..43eabf6 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -266,6 +266,14 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		te.fail(w, err)
 		return nil, false
 	}
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
 
 	return c, true
 }
-- 
2.43.0


From 704c23290b13bff1398ab23953440587e48e4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 13/24] fix: do not crash when FindActiveAuthInfoById returns
 (nil, nil)

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..13abdb5 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -221,7 +221,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From 4acaa9752f376c630c2b52e979ac50cdf75ba8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 14/24] fix: omit an empty scope from the token response

---
 grant/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grant/interface.go b/grant/interface.go
index 8b60cd6..6b69d60 100644
--- a/grant/interface.go
+++ b/grant/interface.go
@@ -25,7 +25,7 @@ type (
 		AccessToken  string `json:"access_token"`
 		ExpiresIn    int64  `json:"expires_in"`
 		RefreshToken string `json:"refresh_token,omitempty"`
-		Scope        string `json:"scope",omitempty`
+		Scope        string `json:"scope,omitempty"`
 		IdToken      string `json:"id_token,omitempty"`
 	}
 )
-- 
2.43.0


From 643032f120d0a2325006569d3c53e82e468e4946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 15/24] fix: label error and fatal log lines with their own
 level

---
 log/logger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/log/logger.go b/log/logger.go
index 4e804ce..b930836 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -42,9 +42,9 @@ func (level LogLevel) String() string {
 	case LogLevelWarn:
 		return "WARN"
 	case LogLevelError:
-		return "DEBUG"
+		return "ERROR"
 	case LogLevelFatal:
-		return "DEBUG"
+		return "FATAL"
 	default:
 		return ""
 	}
-- 
2.43.0


From 8c6cc6c62b1e6fbf8b80338dc3c7c0cbd19b9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 16/24] fix: generate code verifiers with a cryptographic
 random source

They were reproducible from the clock, and seeding the shared generator made
everything else that uses it reproducible as well.
---
 pkce/crypto.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkce/crypto.go b/pkce/crypto.go
index 92fa4b5..4e0f016 100644
--- a/pkce/crypto.go
+++ b/pkce/crypto.go
@@ -1,18 +1,17 @@
 package pkce
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"encoding/base64"
-	"math/rand"
+	"fmt"
 	"strings"
-	"time"
 )
 
 func GenRandomCodeVerifier() string {
-	rand.Seed(time.Now().UnixNano())
 	var data [32]byte
-	for i := 0; i < 32; i++ {
-		data[i] = byte(rand.Intn(256))
+	if _, err := rand.Read(data[:]); err != nil {
+		panic(fmt.Sprintf("no randomness available: %s", err))
 	}
 	return EncodeBase64WithoutPadding(data[:])
 }
-- 
2.43.0


From aea122cb1d417f972db5d7f43adacc1a9bd32cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 17/24] fix: refuse authorization codes that are past their
 lifetime

---
 grant/authorization_code.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..9506532 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -94,6 +94,17 @@ func AuthorizationCode() *GrantHandler {
 					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
 				}
 			}
+			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.AuthSessionConditionMismatch,
+					map[string]string{"client_id": c.GetId()},
+					"expired 'code'"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
+
 			info, err := sdi.FindActiveAuthInfoById(sess.GetAuthId())
 			if err != nil {
 				if err.Type() == bridge.ErrFailed {
-- 
2.43.0


From ba070e143b18362b9baa91fc977bb057e994fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 18/24] fix: take an assertion with expiry 0 as expired

---
 assertion/error.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/assertion/error.go b/assertion/error.go
index f593ffb..a6b378b 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -139,6 +139,18 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 			"'exp' parameter not found in assertion")
 	}
 
+	// the parser takes 0 for no expiry at all
+	if !claims.VerifyExpiresAt(jwt.TimeFunc().Unix(), true) {
+
+		logger.Info(log.TokenEndpointLog(gt,
+			log.AssertionConditionMismatch,
+			map[string]string{"assertion": a, "client_id": c.GetId()},
+			"assertion expired"))
+
+		return oer.NewOAuthError(oer.ErrInvalidGrant,
+			"assertion expired")
+	}
+
 	switch num := claims["iat"].(type) {
 	case json.Number:
 		if iat, er = num.Int64(); er == nil {
-- 
2.43.0


From 26ec1bc6f5102f6a8cc4ccd8c9e3317c9c416e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 19/24] fix: find access tokens in the body or query where they
 are accepted

These places were only looked at when there was an empty Bearer header.
---
 resource_protector.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index 13abdb5..c954413 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -51,20 +51,9 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 }
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
-	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
-	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	parts := strings.Split(r.Header.Get("Authorization"), " ")
+	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
+		return parts[1]
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From 6a4f056471a393462ebefed7d104a96154037bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 20/24] fix: do not crash when storage returns (nil, nil) while
 completing a request

---
 authorization_endpoint.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 521320c..1e7df0c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1052,7 +1052,7 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		return false
 	}
 	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
-	if serr != nil {
+	if serr != nil || info == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1159,7 +1159,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	req *authorization.Request) bool {
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1174,7 +1174,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
@@ -1260,7 +1260,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	}
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1277,7 +1277,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
-- 
2.43.0


From 3298b0b1af3cfa65d09b3aa319538a4e84bcc37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 21/24] fix: decode the form-urlencoded parts of Basic
 credentials

The library encodes them when it builds the header, but never decoded them.
---
 basic_auth/util.go | 19 ++++++++++++++++++-
 token_endpoint.go  |  3 ++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/basic_auth/util.go b/basic_auth/util.go
index adb4c68..4eab26a 100644
--- a/basic_auth/util.go
+++ b/basic_auth/util.go
@@ -15,8 +15,25 @@ func Header(uid, pass string) string {
 	return "Basic " + Token(uid, pass)
 }
 
-func FindClientCredential(r *http.Request) (string, string, bool) {
+// FindBasicCredential returns the credential found in the Basic
+// Authorization header, where both parts are form-urlencoded (RFC6749 2.3.1).
+func FindBasicCredential(r *http.Request) (string, string, bool) {
 	cid, sec, exists := r.BasicAuth()
+	if !exists {
+		return "", "", false
+	}
+	return unescape(cid), unescape(sec), true
+}
+
+func unescape(s string) string {
+	if u, err := url.QueryUnescape(s); err == nil {
+		return u
+	}
+	return s
+}
+
+func FindClientCredential(r *http.Request) (string, string, bool) {
+	cid, sec, exists := FindBasicCredential(r)
 	if exists {
 		return cid, sec, true
 	}
diff --git a/token_endpoint.go b/token_endpoint.go
index 43eabf6..16d5555 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/golang-jwt/jwt"
 	"github.com/lyokato/goidc/assertion"
+	"github.com/lyokato/goidc/basic_auth"
 	"github.com/lyokato/goidc/bridge"
 	"github.com/lyokato/goidc/grant"
 	"github.com/lyokato/goidc/io"
@@ -371,7 +372,7 @@ func (te *TokenEndpoint) failByInvalidClientError(w http.ResponseWriter, inHeade
 }
 
 func (te *TokenEndpoint) findClientCredential(r *http.Request) (string, string, bool, bool) {
-	cid, sec, exists := r.BasicAuth()
+	cid, sec, exists := basic_auth.FindBasicCredential(r)
 	if exists {
 		return cid, sec, true, true
 	}
-- 
2.43.0


From cf1f135c5b991401ea976a5e712612d36cae743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 22/24] fix: do not crash when a pending request cannot be
 restored

---
 authorization_endpoint.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 1e7df0c..52a7f34 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -3,6 +3,7 @@ package goidc
 import (
 	"crypto"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strconv"
@@ -1013,6 +1014,9 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Request,
 	callbacks bridge.AuthorizationCallbacks) bool {
 	req, err := callbacks.Continue()
+	if err == nil && (req == nil || req.Flow == nil) {
+		err = errors.New("pending request could not be restored")
+	}
 	if err != nil {
 		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
 			log.InterfaceError,
@@ -1030,6 +1034,9 @@ func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Req
 func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.Request,
 	callbacks bridge.AuthorizationCallbacks) bool {
 	req, err := callbacks.Continue()
+	if err == nil && (req == nil || req.Flow == nil) {
+		err = errors.New("pending request could not be restored")
+	}
 	if err != nil {
 		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
 			log.InterfaceError,
-- 
2.43.0


From bd68b86c57556fc2fa72fee2d33b7a91ad2ce84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 23/24] fix: do not crash on a redirect URI that cannot be
 parsed

---
 authorization/response.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 29fb339..fd1cfa4 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -34,7 +34,11 @@ type (
 )
 
 func (t ResponseParamType) Connector(uri string) string {
-	u, _ := url.Parse(uri)
+	u, err := url.Parse(uri)
+	if err != nil {
+		// what cannot be parsed has no known query or fragment
+		u = &url.URL{}
+	}
 	if (t == ParamTypeFragment && strings.HasSuffix(uri, "#")) ||
 		(t != ParamTypeFragment && strings.HasSuffix(uri, "?")) {
 		// the delimiter is there already, followed by nothing
-- 
2.43.0


From daf820f2d104077b402205c0d63109da60a41ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 24/24] fix: do not write user passwords to the log

---
 grant/password.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/grant/password.go b/grant/password.go
index 0cdf6af..ef629f3 100644
--- a/grant/password.go
+++ b/grant/password.go
@@ -63,7 +63,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"user id not found."))
 
@@ -86,7 +85,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"interface returned ServerError."))
 
-- 
2.43.0

