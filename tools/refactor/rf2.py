# A round of behaviour-preserving edits of a copy of the repository: python3 rf2.py COPY
import sys; ROOT = sys.argv[1] + "/"
import re
def sub(p,*eds):
    p=ROOT+''+p;s=open(p).read()
    for o,n in eds:
        assert o in s,(p,o[:60]); s=s.replace(o,n)
    open(p,'w').write(s)
# token endpoint: one finder helper, authenticate helper
sub('token_endpoint.go',
('''		cid = r.PostFormValue("client_id")
		sec = r.PostFormValue("client_secret")
		if cid != "" && sec != "" {
			return cid, sec, false, true
		} else {
			return "", "", false, false
		}
	case FromAll:
		cid = r.FormValue("client_id")
		sec = r.FormValue("client_secret")
		if cid != "" && sec != "" {
			return cid, sec, false, true
		} else {
			return "", "", false, false
		}
''','''		return credentialFrom(r.PostFormValue)
	case FromAll:
		return credentialFrom(r.FormValue)
'''),
('func (te *TokenEndpoint) findClientAssertion','''func credentialFrom(get func(string) string) (string, string, bool, bool) {
	cid, sec := get("client_id"), get("client_secret")
	if cid == "" || sec == "" {
		return "", "", false, false
	}
	return cid, sec, false, true
}

func (te *TokenEndpoint) findClientAssertion'''),
('''		cid, sec, inHeader, exists := te.findClientCredential(r)
		if exists {
			client, ok := te.validateClientBySecret(w, r,
				sdi, gt, cid, sec, inHeader)
			if ok {
				te.executeGrantHandler(w, r, sdi, client, gt, h)
			}
			return
		}

		if te.acceptClientAssertion {
			ca, exists := te.findClientAssertion(r)
			if exists {
				client, ok := te.validateClientByAssertion(w, r,
					sdi, gt, ca)
				if ok {
					te.executeGrantHandler(w, r, sdi, client, gt, h)
				}
				return
			}
		}
''','''		var client bridge.Client
		ok, presented := false, false
		if cid, sec, inHeader, exists := te.findClientCredential(r); exists {
			presented = true
			client, ok = te.validateClientBySecret(w, r, sdi, gt, cid, sec, inHeader)
		} else if te.acceptClientAssertion {
			if ca, exists := te.findClientAssertion(r); exists {
				presented = true
				client, ok = te.validateClientByAssertion(w, r, sdi, gt, ca)
			}
		}
		if presented {
			if ok {
				te.executeGrantHandler(w, r, sdi, client, gt, h)
			}
			return
		}
'''),
('''	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))
	setCommonResponseHeader(w)
	if err.URI == "" && te.errorURIBuilder != nil {
		err.URI = te.errorURIBuilder(err.Type)
	}
	w.WriteHeader(http.StatusUnauthorized)
	w.Write(err.JSON())
''','''	w.Header().Set("WWW-Authenticate", `Basic realm="`+te.realm+`"`)
	te.writeError(w, err, http.StatusUnauthorized)
'''),
('''	setCommonResponseHeader(w)
	if err.URI == "" && te.errorURIBuilder != nil {
		err.URI = te.errorURIBuilder(err.Type)
	}
	w.WriteHeader(err.StatusCode())
	w.Write(err.JSON())
}
''','''	te.writeError(w, err, err.StatusCode())
}

func (te *TokenEndpoint) writeError(w http.ResponseWriter, err *oer.OAuthError, status int) {
	out := *err
	if out.URI == "" && te.errorURIBuilder != nil {
		out.URI = te.errorURIBuilder(out.Type)
	}
	body := out.JSON()
	setCommonResponseHeader(w)
	w.WriteHeader(status)
	w.Write(body)
}
'''),
('''	if r.Method != "POST" {''','''	if r.Method != http.MethodPost {'''),
)
sub('resource_protector.go',
('''	parts := strings.Split(r.Header.Get("Authorization"), " ")
	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
''','''	if parts := strings.SplitN(r.Header.Get("Authorization"), " ", 3); len(parts) > 1 {
		if strings.EqualFold(parts[0], "bearer") && len(parts[1]) > 0 {
			return parts[1]
		}
	}
'''),
('''	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {''','''	now := rp.currentTime().Unix()
	if expiry := at.GetRefreshedAt() + at.GetAccessTokenExpiresIn(); now > expiry {'''),
('''	r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", info.GetUserId()))
	r.Header.Set("X-OAUTH-CLIENT-ID", info.GetClientId())
	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
''','''	for k, v := range map[string]string{
		"X-Oauth-Client-Id": info.GetClientId(),
		"X-Oauth-User-Id":   strconv.FormatInt(info.GetUserId(), 10),
		"X-Oauth-Scope":     info.GetScope(),
	} {
		r.Header[k] = []string{v}
	}
'''),
('''	if scopes, exists := scopeMap[r.URL.Path]; exists {
		s := r.Header.Get("X-OAUTH-SCOPE")
		ok, not_found := scope.IncludeAll(s, scopes)
		if ok {
			return true
		} else {
			rp.unauthorize(w, oer.NewOAuthError(oer.ErrInsufficientScope,
				fmt.Sprintf("this endpoint requires %s scope, but the access_token was't issued for.",
					strconv.Quote(not_found))))
			return false
		}
	} else {
		return true
	}
''','''	granted := r.Header.Get("X-OAUTH-SCOPE")
	for _, required := range scopeMap[r.URL.Path] {
		if !scope.Include(granted, required) {
			rp.unauthorize(w, oer.NewOAuthError(oer.ErrInsufficientScope,
				"this endpoint requires "+strconv.Quote(required)+" scope"))
			return false
		}
	}
	return true
'''))
sub('scope/util.go',('''	list := Split(scopes)
	existanceMap := make(map[string]bool, 0)
	for _, s := range list {
		existanceMap[s] = true
	}
	for _, s := range targetScopes {
		if _, exists := existanceMap[s]; !exists {
			return false, s
		}
	}
''','''	for i := range targetScopes {
		if !Include(scopes, targetScopes[i]) {
			return false, targetScopes[i]
		}
	}
'''),('''	list := Split(scopes)
	for _, s := range list {
		if s == targetScope {
			return true
		}
	}
	return false
''','''	return !strings.Contains(targetScope, " ") && strings.Contains(" "+scopes+" ", " "+targetScope+" ")
'''))
sub('authorization/response.go',('''	values := url.Values{}
	for k, v := range params {
		values.Add(k, v)
	}
	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
''','''	h.redirect(uri, params)
'''),('''	params := url.Values{}
	params.Add("error", typ)
	if desc != "" {
		params.Add("error_description", desc)
	}
	if state != "" {
		params.Add("state", state)
	}
	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), params.Encode())
	http.Redirect(h.w, h.r, u, http.StatusFound)
''','''	h.redirect(uri, errorParams(typ, desc, state))
'''),('''	params := make(map[string]string)
	params["error"] = typ
	if desc != "" {
		params["error_description"] = desc
	}
	if state != "" {
		params["state"] = state
	}
	h.render(uri, params)
''','''	h.render(uri, errorParams(typ, desc, state))
'''),('''func NewHTMLResponseHandler(''','''func errorParams(typ, desc, state string) map[string]string {
	params := map[string]string{"error": typ}
	for k, v := range map[string]string{"error_description": desc, "state": state} {
		if v != "" {
			params[k] = v
		}
	}
	return params
}

func (h *RedirectResponseHandler) redirect(uri string, params map[string]string) {
	var b strings.Builder
	b.WriteString(uri)
	sep := h.pt.Connector(uri)
	for k, v := range params {
		b.WriteString(sep + url.QueryEscape(k) + "=" + url.QueryEscape(v))
		sep = "&"
	}
	h.w.Header().Set("Location", b.String())
	h.w.WriteHeader(http.StatusFound)
}

func NewHTMLResponseHandler('''),('''<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">''','''<!DOCTYPE html>
<html>
<head><title>Submit</title></head>
<body onload="document.forms[0].submit();">'''),(''' value="%s" />`''',''' value="%s">`'''))
sub('pkce/verifier.go',)
