#!/usr/bin/env python3
"""Single source for properties.jsonl (and, with manifest.py, MANIFEST.json)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
AE = "authorization_endpoint.go"
TE = "token_endpoint.go"
RP = "resource_protector.go"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

NOAUTHZ = "No existing test drives the authorization endpoint at all. "

# ---------------------------------------------------------------- authorization endpoint
prop("A01", "Unvalidated redirect targets never receive an authorization response",
     "An authorization request that names no client, an unknown client, no redirect URI, or a redirect URI the named client has not registered (exact match, decided by the client) is answered only by asking the host to show its error screen, once, with the matching reason. For such a request nothing is written to the HTTP response (no redirect, no form), no login or consent screen is shown and nothing is created or stored. A request whose client and redirect URI are both good never gets the error screen.",
     ["inputs", "configurations", "histories"],
     "all parameter values and placements (query, body), client registrations, and earlier requests served by the same endpoint object, including registrations that change between requests",
     NOAUTHZ + "The guarantee quantifies over every near-miss redirect URI (prefix, suffix, case, trailing slash, another client's URI, extra query) and every later invalid parameter that could trigger an early error redirect.",
     [AE], [("client and redirect URI are validated before any response handler is chosen", AE)],
     ["HTTP response of the authorization endpoint", "host callbacks invoked", "storage calls"])
prop("A02", "Authorization responses reach the redirect URI intact in the right encoding",
     "Every success or error response goes to exactly the redirect URI of its request: as a 302 whose query (or fragment) is the URI's own query (or fragment) plus the response parameters, or as a never-cached auto-submitting HTML POST form to that URI. Each response parameter appears exactly once and decodes to the exact value issued; state is echoed byte for byte if and only if the request carried a non-empty one. No parameter or URI value can add markup, form fields or parameters of its own.",
     ["inputs", "configurations"],
     "all registered redirect URIs (with and without query, trailing '?', '&', quotes), states, codes, tokens and scopes including reserved, control, non-ASCII and very long values; all response modes and response types; success and error responses",
     "The existing test checks the joining character for four URIs; encoding, parameter sets, the form page and the state echo are never executed.",
     ["authorization/response.go", AE],
     [("redirect and form_post response handlers", "authorization/response.go"), ("joining character selection", "authorization/response.go")],
     ["Location header", "HTML body", "response headers"])
prop("A03", "The response mode is the requested one, and never weaker than policy allows",
     "A response uses the requested response mode when it is query, fragment or form_post, and otherwise the policy's default mode for the flow (the implicit default for implicit and hybrid). With the security-level policy on, a requested mode weaker than the flow's default (query < fragment < form_post) is never used: it is replaced by the default, or, when the policy does not ignore invalid modes, the request is refused with invalid_request delivered in the default mode; an unknown mode is treated likewise. This holds for success and error responses alike, including those sent after the user approved or cancelled.",
     ["inputs", "configurations"],
     "all response_mode strings, response types, and combinations of the four mode-related policy settings",
     "The existing tests compare five pairs of mode names in isolation; no request is ever run under a policy.",
     [AE, "response_mode/util.go", "authorization/response.go"],
     [("mode defaulting and security level comparison", AE), ("security level order", "response_mode/util.go")],
     ["how each authorization response was delivered"])
prop("A04", "Invalid authorization requests are refused before any interaction or issuance",
     "An authorization request with a missing or unknown response_type, a flow or scope the client may not use, an unknown display or prompt value, a non-integer or out-of-range max_age, a missing scope (unless the policy allows that), an id_token response type without openid or (outside the code flow) without nonce, or an over-long nonce or code verifier is answered with an error redirect carrying the corresponding OAuth error code. Nothing is shown to the user and nothing is created for it. A request with none of these faults is never refused as invalid, including at the exact limits.",
     ["inputs", "configurations", "histories"],
     "all parameter values, boundary lengths and ages, client permissions and policies, and any combination of several faults; earlier requests on the same endpoint object, with permissions changing between requests",
     NOAUTHZ + "Boundary values, combinations of faults and permissions that depend on the flow are out of reach of samples.",
     [AE, "flow/flow.go", "prompt/util.go", "scope/util.go"],
     [("parameter validation sequence", AE), ("response_type classification", "flow/flow.go")],
     ["error code delivered", "host callbacks invoked", "storage calls"])
prop("A05", "prompt=none never interacts, and completes only when policy allows it",
     "A request whose prompt is none never causes a login or consent screen. It completes only if the client's none-policy permits it, the policy's precondition holds (a login session; a login hint that matches the logged-in user; or a correctly signed, unexpired id_token_hint whose subject matches the logged-in user), the login is recent enough for any requested max_age, and the user already has an active consent for exactly the requested scope that is younger than the consent period. Otherwise it is refused with an OpenID Connect error (interaction_required, login_required, consent_required or invalid_request), and nothing is issued.",
     ["inputs", "configurations", "histories"],
     "all none-policies, login states, hints (including forged, foreign-key, expired, expiry-less and algorithm-confused ID tokens under HS/RS/ES/PS algorithms), consent states and ages",
     NOAUTHZ + "The property is a conjunction over login state, policy, hint, consent history and clock.",
     [AE, "prompt/util.go", "scope/util.go"],
     [("prompt=none branch for each none-policy", AE)],
     ["host callbacks invoked", "delivered response", "storage calls"])
prop("A06", "Users re-authenticate when the request demands it",
     "Without prompt=none, no consent screen is shown and nothing is issued unless the browser has a login session, the login is no older than max_age when max_age is given (including 0), and, when prompt contains login, the request comes straight from a login. In every other case the host is asked exactly once to show its login screen with the request's parameters; a failure of that screen is reported to the client as server_error. When all three conditions hold the login screen is not shown.",
     ["inputs", "configurations", "histories"],
     "all login states, authentication times around the max_age boundary, prompt combinations and max_age policies",
     NOAUTHZ + "It depends on the clock boundary and the combination of session, prompt and max_age.",
     [AE], [("login session check, prompt=login check, auth_time against max_age", AE)],
     ["host callbacks invoked and their arguments", "delivered response"])
prop("A07", "Consent is skipped only for an identical, active and recent grant",
     "For a logged-in user and without prompt=none, the consent screen is skipped exactly when the prompt does not contain consent, the client's policy is to omit consent when possible, and that user's stored grant for that client is active, has exactly the requested scope (as a set) and was authorised less than the consent period ago. In every other case the consent screen is shown and nothing is issued until the user approves.",
     ["inputs", "configurations", "histories"],
     "all client policies, prompts, stored grants of this and other users and clients, scopes in any order, and times around the period boundary; histories in which the grant is revoked, narrowed or ages between requests",
     NOAUTHZ + "It quantifies over stored consent history and time.",
     [AE, "scope/util.go"], [("no-consent prompt policy branch", AE), ("scope comparison", "scope/util.go")],
     ["consent screen callback", "storage calls", "delivered response"])
prop("A08", "Issued artifacts match the response type and are bound to the request",
     "A completed authorization delivers a code, an access token (with token_type bearer and its lifetime in expires_in) and an ID token exactly as named by response_type, the tokens being those created for the logged-in user's grant to the requesting client. The code is delivered only after a session has been stored under it with this request's redirect URI, nonce, PKCE verifier, the user's authentication time and the policy's code lifetime, linked to that grant. What is granted and shown for consent is what was requested: same client, redirect URI, scope, state, nonce and display.",
     ["inputs", "configurations", "histories"],
     "all seven response types, parameter values, users, clients and policies, with and without an intervening consent screen and with several pending requests completed in any order",
     NOAUTHZ + "The binding must hold for every parameter value and for interleaved pending requests.",
     [AE, "authorization/request.go", "flow/flow.go"],
     [("complete… functions for the code, implicit and hybrid flows", AE), ("request to session conversion", "authorization/request.go")],
     ["delivered parameters", "stored sessions, grants and tokens", "arguments of the consent callback"])
prop("A09", "offline_access is granted only with consent and never in the implicit flow",
     "offline_access reaches the user's grant, or the consent screen, only if the request asked for it, its prompt contains consent and the flow is not implicit; otherwise it is silently dropped and the remaining scope is processed unchanged. Unless empty scopes are allowed, a request that asks for offline_access and nothing beyond openid is refused with invalid_request. No access token issued directly by the authorization endpoint is created as a token-endpoint token, and no refresh token is ever delivered by it.",
     ["inputs", "configurations"],
     "all scopes (any order), prompts, response types and policies",
     NOAUTHZ + "It depends on the combination of scope, prompt, flow and policy.",
     [AE, "scope/util.go"], [("offline_access handling", AE)],
     ["consent callback argument", "grant scope stored", "delivered parameters"])
prop("A10", "A cancelled request yields access_denied and nothing else",
     "When the user cancels, the client receives exactly the error access_denied with the original state, at the original redirect URI in the original response mode. No code, session, token or grant is created or changed, and later requests are unaffected.",
     ["inputs", "histories"],
     "all pending requests (any mode, state, redirect URI, response type) and any sequence of approvals and cancellations",
     NOAUTHZ + "Cancelling is never exercised.",
     [AE, "authorization/response.go"], [("cancel handler", AE)],
     ["delivered response", "storage calls"])
prop("A11", "A pending request survives being stored between requests",
     "Encoding a pending authorization request to its storable text form and decoding it again yields an equal request, for every value of every field. The text form is URL-safe, so that it can travel in a query string, cookie or form field.",
     ["inputs"], "all pending requests: all flows, arbitrary Unicode text in every text field, all 64-bit max_age values",
     "No existing test encodes or decodes a pending request.",
     ["authorization/request.go", "flow/flow.go"], [("JSON in base64url encoding", "authorization/request.go"), ("flow type JSON names", "flow/flow.go")],
     ["decode(encode(request))"])

prop("A12", "The host is told whether a request was served",
     "The authorization endpoint's methods return true to the host when the request was completed, cancelled as asked or put before the user for consent, and false whenever it was refused: an error was delivered to the client, the error screen was shown, or nothing could be answered. The value never says served for a refused request, nor refused for one whose code or tokens were delivered.",
     ["inputs", "configurations", "histories"],
     "all requests, decisions, policies and login states, including failing screens and signing keys that cannot be used",
     NOAUTHZ + "The value must agree with the outcome on every path.",
     [AE], [("return values of HandleRequest, CompleteRequest and CancelRequest", AE)],
     ["return value", "delivered response", "host callbacks invoked"])

# ---------------------------------------------------------------- ID tokens
prop("I01", "ID tokens are correctly signed and say exactly what happened",
     "Every ID token issued, by the authorization endpoint or by the token endpoint, verifies under the requesting client's configured key, algorithm and key id. Its claims are the provider's issuer, the client as audience, the grant's subject, the time of issue, expiry equal to that time plus the configured lifetime, the user's authentication time, and the nonce exactly when the authorization request carried one. An ID token is issued on code redemption exactly when the grant's scope contains openid, and an unusable signing configuration gives server_error, never an unsigned or partial response.",
     ["inputs", "configurations", "histories"],
     "all signing algorithms (HS/RS/ES/PS with 256/384/512), keys, issuers, clients, subjects, nonces, times and lifetimes",
     "The ID token tests do not run in the reliable suite and sample one RS256 token.",
     ["id_token/id_token.go", AE, "grant/authorization_code.go"],
     [("claim assembly and signing", "id_token/id_token.go"), ("call sites for the three flows", AE)],
     ["issued ID token, verified by an independent implementation"])
prop("I02", "ID tokens from the front channel bind the token and code they accompany",
     "An ID token delivered together with an access token carries at_hash, and one delivered with a code carries c_hash, each computed over exactly the delivered value with the hash of the ID token's algorithm (left half), as OpenID Connect requires. No at_hash or c_hash appears for a value that was not delivered.",
     ["inputs", "configurations"],
     "all response types, algorithms and values of codes and access tokens",
     "The existing hash test compares two constants and does not run in the reliable suite.",
     ["id_token/id_token.go", AE], [("hash of the left half", "id_token/id_token.go"), ("hybrid and implicit call sites", AE)],
     ["claims of delivered ID tokens"])

# ---------------------------------------------------------------- token endpoint
prop("T01", "Client secrets are required, verified, and taken only from accepted places",
     "The token endpoint issues tokens to a client authenticating by secret only if the identifier names a known client and the secret matches, as presented in an HTTP Basic header, or, only where the endpoint is configured so, in the POST body or the query. A wrong or missing credential is refused with invalid_client, with status 401 and a Basic challenge naming the realm when the header was used or nothing was presented. A correct credential in an accepted place is never refused, whatever characters it contains, and a changed secret takes effect at once.",
     ["inputs", "configurations", "histories"],
     "all identifiers, secrets and near misses, all placements and acceptance settings, all grant types; histories in which secrets change",
     "The existing endpoint tests (which do not run here) sample a handful of headers.",
     [TE, "basic_auth/util.go"], [("credential lookup and secret check", TE)],
     ["status, headers and body of the token response"])
prop("T02", "Client assertions authenticate only the client that signed them",
     "When client assertions are enabled, a client authenticates with one only if the assertion type is the JWT bearer type, its subject names a known client, and it is signed under a key that this client registered for the stated algorithm and key id; a token is then issued for that client and no other. A malformed, unsigned, tampered, foreign-key or unknown-subject assertion, or any assertion while the feature is off, is refused with an OAuth error and never crashes the endpoint.",
     ["inputs", "configurations", "histories"],
     "all assertion texts: valid ones under HS/RS/ES/PS algorithms, and structured corruptions of header, claims, signature, key id, algorithm and type",
     "The existing assertion tests (which do not run here) sample a few tokens.",
     [TE, "assertion/error.go"], [("assertion parsing with client lookup", TE), ("assertion error handling", "assertion/error.go")],
     ["token response", "storage calls"])
prop("T03", "A client uses only the grant types it is permitted, however it authenticates",
     "A token request succeeds only for a grant type that the endpoint supports and that the authenticated client is permitted to use, for both secret and assertion authentication. An unsupported grant type is refused with unsupported_grant_type, a missing one with invalid_request and a forbidden one with unauthorized_client, with no other effect; a permitted one is never refused for this reason, and a change of permission takes effect at once.",
     ["inputs", "configurations", "histories"],
     "all sets of supported and permitted grant types, all grant type strings, both authentication methods, permissions changing between requests",
     "The existing tests never combine assertion authentication with grant permissions.",
     [TE], [("handler table and permission check", TE)],
     ["token response", "storage calls"])
prop("T04", "A code is redeemable only by its client, at its redirect URI, in its lifetime",
     "An authorization code yields tokens only to the client it was issued to, presented with exactly the redirect URI of the authorization request, while the code is within its lifetime (inclusive of its last second) and the user's grant is still active; otherwise the request is refused with invalid_grant (or invalid_request if a parameter is missing). When all conditions hold the code is accepted.",
     ["inputs", "configurations", "histories"],
     "all codes, clients, redirect URIs and near misses, times around expiry, and histories in which grants are revoked",
     "The existing tests (which do not run here) sample one code and never advance time.",
     ["grant/authorization_code.go"], [("client, redirect URI, lifetime and grant checks", "grant/authorization_code.go")],
     ["token response", "storage calls"])
prop("T05", "PKCE protection cannot be bypassed",
     "If a verifier was registered with the authorization request, its code is redeemable only with a code_challenge_method of plain or S256 and the code_challenge that this method derives from the verifier; a missing, empty, differently-cased, unknown or non-matching value is refused with invalid_request or invalid_grant. The right challenge is always accepted, and a code without a registered verifier needs none.",
     ["inputs"], "all verifiers (any length and characters, up to the policy limit), methods and challenges including near misses",
     "The existing tests sample one verifier per method.",
     ["grant/authorization_code.go", "pkce/verifier.go", "pkce/crypto.go"], [("challenge check on redemption", "grant/authorization_code.go")],
     ["token response"])
prop("T06", "An authorization code is redeemed at most once",
     "For every authorization code, at most one token request ever receives tokens for it, however many requests present it, in whatever order, and however their processing is interleaved, provided the store disables a session atomically. Every other request for that code is refused, and a refused attempt that was wrong in any respect does not use the code up.",
     ["histories", "schedules"],
     "all histories of redemption attempts by right and wrong clients, and all interleavings of two or three concurrent attempts at the level of storage calls",
     "The existing tests redeem sequentially, once.",
     ["grant/authorization_code.go"], [("session disabled before success is reported", "grant/authorization_code.go")],
     ["responses of all requests for a code"],
     [("authorization session", "enabled until disabled once", "host store")])
prop("T07", "Refresh tokens work only for their client, while alive, with offline_access",
     "A refresh token yields a new access token only to the client it was issued to, not after creation time plus lifetime, while the user's grant is active and its scope contains offline_access; otherwise the request is refused with invalid_grant and the stored token is unchanged. When all conditions hold, the request succeeds, and the response carries exactly the refreshed token's values.",
     ["inputs", "configurations", "histories"],
     "all refresh tokens, clients, scopes, times around expiry, repeated refreshes with and without rotation, revocation",
     "The existing tests (which do not run here) sample one token.",
     ["grant/refresh_token.go"], [("lifetime, client, scope and grant checks", "grant/refresh_token.go")],
     ["token response", "storage calls"])
prop("T08", "Direct grants act only for the proven user and within the permitted scope",
     "Password, client-credentials and JWT grants issue tokens only for the user proven by the username and password, the client's own owner, or the verified assertion's subject, respectively, and only for the authenticated client. A scope the client may not use for direct grants is refused with invalid_scope, an unknown user or a client without owner with invalid_grant, a missing parameter with invalid_request, all without touching stored grants; otherwise the grant is created with exactly the requested scope.",
     ["inputs", "configurations", "histories"],
     "all usernames, passwords, subjects and near misses, owners (including user 0 and none), scopes and per-flow scope permissions",
     "The existing tests (which do not run here) sample one user and client.",
     ["grant/password.go", "grant/client_credential.go", "grant/jwt.go"],
     [("user resolution and scope check", "grant/password.go"), ("owner resolution", "grant/client_credential.go"), ("subject resolution", "grant/jwt.go")],
     ["token response", "grant created (user, client, scope)"])
prop("T09", "Assertions are honoured only while valid, for this issuer, and once",
     "An assertion, used to authenticate a client or as an authorization grant, is accepted only if it carries an expiry that has not passed, any not-before time has come, its audience is the provider's issuer, and the host's record of used assertions accepts it, having been given the assertion's client, identifier, issue time and expiry. A failure of any of these refuses the request with no token issued; an assertion that meets them all is accepted.",
     ["inputs", "configurations", "histories"],
     "all claim sets: absent, zero, negative, fractional, huge and non-numeric times, times around now, audiences of every JSON type and near misses, identifiers replayed across requests and clients",
     "The existing tests (which do not run here) sample a few claim sets under the wall clock.",
     ["assertion/error.go", TE, "grant/jwt.go"], [("claim checks shared by both uses", "assertion/error.go")],
     ["token response", "arguments given to the assertion record"])
prop("T10", "Token responses are well formed, uncacheable and carry exactly what was issued",
     "Only POST is served (405 otherwise); every other response is a JSON object marked no-store and no-cache. A success (200) holds token_type Bearer, and the stored access token, lifetime, refresh token and granted scope, with members for absent values omitted and no challenge; a refusal has the status belonging to its error code, an error member with the code, and the configured error_uri, and never any token.",
     ["inputs", "configurations"],
     "all HTTP methods, requests and configurations; token, scope and URI values with arbitrary characters; lifetimes of any size",
     "The existing tests (which do not run here) check a few fixed responses.",
     [TE, "grant/interface.go", "oauth_error/errors.go"], [("response rendering", "grant/interface.go"), ("error rendering", TE)],
     ["status, headers and body of the token response"])
prop("T11", "Refused token requests change nothing",
     "A token request that is refused because of what it contains (credentials, permission, parameters, code, token, assertion or scope) creates, updates, refreshes or disables nothing in storage; the only permitted trace is the record of a used assertion. A later correct request succeeds as if the refused one had never been made.",
     ["inputs", "histories"],
     "all refused requests for every grant type and reason, each followed by a correct one",
     "The existing tests do not inspect storage after a refusal.",
     [TE, "grant/authorization_code.go", "grant/refresh_token.go", "grant/password.go", "grant/client_credential.go", "grant/jwt.go"],
     [("all checks precede the first storage change", "grant/authorization_code.go")],
     ["storage calls of refused requests", "responses of later requests"])

# ---------------------------------------------------------------- resource protection
prop("R01", "A protected resource is reached only with a live access token",
     "Access to a protected resource is allowed exactly when the request carries, in an accepted place, an access token that the store knows, that is not past its last refresh time plus lifetime, and whose user grant is active. Every other request is refused with 401, 400 or 403 and a Bearer challenge naming the realm, the error and its configured error_uri (or 500 on a storage failure), and revocation, refresh and expiry take effect at once.",
     ["inputs", "configurations", "histories"],
     "all tokens and near misses, times around expiry, revocations and refreshes between requests",
     "The existing tests (which do not run here) sample a few headers.",
     [RP], [("token lookup, expiry and grant checks", RP)],
     ["return value, status and headers"])
prop("R02", "The identity passed to the application cannot be spoofed",
     "When access is allowed, the request's identity headers (user id, client id, scope) hold exactly the values of the token's grant, whatever the client sent under these names in whatever case or number. Other headers are untouched.",
     ["inputs", "histories"],
     "all client-supplied header sets, grants, and sequences of requests with different tokens",
     "The existing tests (which do not run here) do not send spoofed headers.",
     [RP], [("identity headers are overwritten", RP)],
     ["request headers seen by the application"])
prop("R03", "Per-path scope requirements are enforced exactly",
     "With scope requirements by path, an allowed token reaches a listed path exactly when its grant's scope contains every required scope as a whole word, and is otherwise refused with 403 insufficient_scope; unlisted paths need no particular scope. Scope claimed by the client in a header never counts, and a request that fails token validation is refused whatever its path.",
     ["inputs", "configurations"],
     "all scope maps, paths, granted scopes (including substrings and superstrings of required ones)",
     "The existing tests do not exercise scope maps broadly.",
     [RP, "scope/util.go"], [("scope map check", RP), ("set inclusion", "scope/util.go")],
     ["return value, status and headers"])
prop("R04", "Access tokens are read only from the configured places",
     "A Bearer Authorization header (scheme in any case) is always accepted; an access_token in the POST body only when the protector is configured for header and body, or for all; one in the query only when configured for all. A valid token in an accepted place gives access when the header carries none, and one in any other place never does.",
     ["inputs", "configurations"],
     "all three acceptance settings, all combinations of header, body and query values, methods and content types",
     "The existing tests do not vary the acceptance setting.",
     [RP], [("token extraction", RP)],
     ["return value, storage lookups"])

# ---------------------------------------------------------------- cross-cutting
prop("X01", "Storage failures at the token endpoint and protected resources fail closed",
     "If any storage call made while serving a token request or validating an access token fails (unsupported, server error, failed) or returns nothing, the request is refused with a well-formed error, server_error or status 500 where the failure is the host's, carries no token or identity, and does not crash. A failure is not remembered: unless something was stored, the same request is answered as before once the host works again. This holds at every storage call of every grant type and authentication method.",
     ["fault_sequences", "inputs", "configurations"],
     "every storage call made by each kind of request, every failure kind, including failures that also return a value, alone and in pairs",
     "The existing tests inject no faults.",
     [TE, RP, "grant/authorization_code.go", "grant/refresh_token.go", "grant/password.go", "grant/client_credential.go", "grant/jwt.go", "assertion/error.go"],
     [("error branch after every storage call", "grant/authorization_code.go")],
     ["response under injected faults"])
prop("X02", "Host failures at the authorization endpoint fail closed",
     "If any storage call or host callback made while serving, approving or cancelling an authorization request fails or returns nothing, the client gets an error response (server_error where the failure is the host's) or, before the redirect URI is validated, the error screen; a failure to restore the pending request gives no response at all. No code, token or ID token is ever delivered after such a failure, and the endpoint does not crash. A failure is not remembered: unless something was stored, the same request has the outcome it would have had once the host works again.",
     ["fault_sequences", "inputs", "configurations"],
     "every storage call and callback of every flow, prompt and policy, every failure kind, alone and in pairs",
     "The existing tests inject no faults and never run this endpoint.",
     [AE], [("error branch after every storage call and callback", AE)],
     ["response and callbacks under injected faults"])
prop("X03", "No request crashes the library",
     "For arbitrary HTTP requests (any method, path, headers, query, body and content type, valid or not) no endpoint, protector or public parsing helper panics or fails to return, and each answers with a response of its own repertoire.",
     ["inputs", "configurations"],
     "arbitrary and structured-random byte strings in every part of the request and in every text handed to public helpers",
     "The existing tests send a few well-formed requests.",
     [AE, TE, RP, "assertion/error.go", "basic_auth/util.go", "scope/util.go", "prompt/util.go", "flow/flow.go", "authorization/request.go"],
     [("input handling", TE)],
     ["absence of panics", "status codes"])
prop("X04", "Concurrent requests do not affect each other",
     "Requests of different users and clients served concurrently by the same endpoint objects each get exactly the response, storage effects and callbacks they would get alone, under every interleaving of their storage calls and callbacks. Serving requests in parallel is free of data races.",
     ["schedules", "inputs"],
     "all interleavings, at storage-call and callback granularity, of two to four authorization, token and resource requests; parallel runs under the race detector",
     "The existing tests serve one request at a time.",
     [AE, TE, RP, "pkce/verifier.go"], [("endpoint objects hold no per-request state", TE)],
     ["responses and storage effects compared with isolated runs", "race detector reports"])
prop("X05", "Over whole histories no right appears from nowhere or outlives revocation",
     "Over any history of authorization requests, logins, approvals, cancellations, redemptions, refreshes, resource accesses, revocations and passing time, over several users and clients, every resource access allowed traces back to a grant by that very user to that very client, carries no scope beyond what was granted, and happens within the lifetimes of the credentials used. After a revocation no code, refresh token or access token of that grant works, and credentials of other users and clients continue to work.",
     ["histories", "inputs", "configurations"],
     "random histories of all operations over several clients and users on one set of endpoint objects, checked step by step against a reference model",
     "The existing tests exercise single requests.",
     [AE, TE, RP, "grant/authorization_code.go", "grant/refresh_token.go"],
     [("the whole protocol flow", AE)],
     ["every response of the history"])

# ---------------------------------------------------------------- library helpers
prop("L01", "Scope and prompt strings behave as sets of words",
     "For space-separated word lists: membership and inclusion hold exactly for whole words and inclusion reports a word that is missing; two scopes are the same exactly when they contain the same words in any order; removing a word removes all of its occurrences and nothing else, in order. A prompt value is valid exactly when every word is none, login, consent or select_account and none is not combined with another.",
     ["inputs"], "all word lists and target lists, including words that are prefixes, suffixes or case variants of others",
     "The existing tests check a dozen fixed strings.",
     ["scope/util.go", "prompt/util.go"], [("word list functions", "scope/util.go"), ("prompt validation", "prompt/util.go")],
     ["return values against a set model"])
prop("L02", "response_type and response_mode are classified correctly, and flows round-trip",
     "A response_type is accepted exactly when its words, in any order, form one of the seven combinations of code, id_token and token; it then has the flow type and the required artifacts that OpenID Connect defines for it. Flow types survive conversion to JSON and back, have distinct names, and unknown names are rejected. Exactly query, fragment and form_post are response modes; a mode counts as at least as strong as another by the order query, fragment, form_post, and text that is no mode is weaker than all three.",
     ["inputs"], "all words and orders (exhaustively up to length three), and arbitrary strings",
     "The existing tests check a few fixed orders.",
     ["flow/flow.go", "response_mode/util.go"], [("sorted word comparison", "flow/flow.go"), ("security levels", "response_mode/util.go")],
     ["return values against a table"])
prop("L03", "PKCE primitives follow RFC 7636 and generated verifiers are unguessable",
     "The S256 transformation equals unpadded base64url of SHA-256 for every verifier, plain is identity, a challenge verifies exactly when it equals the transformation of the verifier, and no other method exists. A generated code verifier is 43 unreserved characters encoding 32 bytes, all of which vary, and is neither repeated nor reproducible from the clock or from the state of a shared seeded generator.",
     ["inputs", "histories"], "all verifiers and challenges; sequences of generated verifiers, also generated concurrently",
     "The existing tests check one verifier and never look at generated ones.",
     ["pkce/crypto.go", "pkce/verifier.go"], [("encoding, verification, generation", "pkce/crypto.go")],
     ["return values against an independent implementation"])
prop("L04", "OAuth errors render faithfully in every form",
     "For every error type, description, URI, state and realm, the JSON, query-string and Bearer-challenge renderings decode to exactly these values, with empty ones omitted; each error type has its own RFC name, and its status code is the one the specifications give it (500 if none).",
     ["inputs"], "all error types and arbitrary text values (printable text for the header)",
     "The existing tests check a few fixed errors.",
     ["oauth_error/errors.go"], [("JSON, query and header rendering", "oauth_error/errors.go")],
     ["decoded renderings"])
prop("L05", "Basic credentials built by the library are recovered unchanged",
     "For every identifier and secret, a request carrying the library's Basic header yields exactly that identifier and secret, both from the library's credential finder and when authenticating at the token endpoint. Without a Basic header the finder returns the two form values when both are non-empty, and otherwise nothing.",
     ["inputs"], "all identifiers and secrets, including reserved, non-ASCII and empty ones, and forms",
     "The existing test decodes one plain pair.",
     ["basic_auth/util.go", TE], [("form-url encoding inside Basic", "basic_auth/util.go")],
     ["recovered credentials"])
prop("L06", "Keys are published and loaded without change",
     "Every RSA public key added to the key endpoint appears in the served JSON under its key id, and loading it back by that id yields the same key; an unknown id is an error. Loading a key from PEM text or file yields the encoded key, and malformed or wrong-kind input gives an error, never a wrong key or a crash.",
     ["inputs"], "all sets of keys and ids, and structured corruptions of PEM input",
     "The existing key tests cannot run here and sample one key.",
     ["crypto/key.go", "jwk_endpoint.go"], [("JWK and PEM conversion", "crypto/key.go"), ("served document", "jwk_endpoint.go")],
     ["served document", "loaded keys"])
prop("L07", "Log lines identify their level and event and honour the threshold",
     "The default logger prints a message exactly when its level is at or above the configured level, labelled with the name of that level, and formatted as requested. Every log event has its own name, its identifier in snake case, and every level its own, and the attributes of an event line decode to the values given.",
     ["inputs", "configurations"], "all levels, thresholds, events, messages and attribute values",
     "The existing tests check a few fixed lines.",
     ["log/logger.go", "log/text.go", "log/color.go"], [("threshold and label", "log/logger.go"), ("event line", "log/text.go")],
     ["standard output", "returned lines"])

prop("L08", "Grants, bad credentials and host failures are logged, secrets never",
     "Every token response is accompanied by the log event access_token_granted, and no refusal is. A wrong client secret is logged as authentication_failed, and the refusal of an access token is logged, at level info or above. Whenever a storage call of the token endpoint or of a resource protector, the client lookup of an authorization request, or a callback of the authorization endpoint fails for a reason that is the host's (unsupported, server error, nothing returned), a line at level warn or above names that call. All lines go to the logger that was set, none to standard output. No client secret, user password or Authorization credential ever appears in a log line.",
     ["inputs", "faults", "configurations"], "all requests, credentials, and failures of any host call",
     "The existing tests look at responses only, with logging unobserved.",
     ["token_endpoint.go", "resource_protector.go", "authorization_endpoint.go", "grant/", "assertion/error.go"], [("grants and refused secrets", "token_endpoint.go"), ("passwords", "grant/password.go"), ("refused tokens and failures", "resource_protector.go"), ("callback failures", "authorization_endpoint.go")],
     ["lines given to the logger", "standard output"])

if __name__ == "__main__":
    out = os.path.join(HERE, "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
