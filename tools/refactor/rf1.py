# A round of behaviour-preserving edits of a copy of the repository: python3 rf1.py COPY
import sys; ROOT = sys.argv[1] + "/"
import re
p=ROOT+'authorization_endpoint.go';s=open(p).read()
# 1. extract consent lookup for prompt=none
blk_re=re.compile(r'''			info, serr := a\.di\.FindAuthInfoByUserIdAndClientId\(uid, req\.ClientId\)
			if serr != nil \{
				if serr\.Type\(\) == bridge\.ErrUnsupported \{
					rh\.Error\(ruri, "server_error", "", state\)
					return false
				\} else if serr\.Type\(\) == bridge\.ErrServerError \{
					rh\.Error\(ruri, "server_error", "", state\)
					return false
				\} else \{.*?return a\.completeWithoutInteraction\(callbacks, r, rh, info, req, mas\)
				\} else \{
					rh\.Error\(ruri, "consent_required", "", state\)
					return false
				\}
			\}
''',re.S)
s,n=blk_re.subn('			return a.completeIfConsented(callbacks, r, rh, uid, req, mas)\n',s)
print('consent blocks',n)
s+='''
func (a *AuthorizationEndpoint) consented(info bridge.AuthInfo, req *authorization.Request) bool {
	if !info.IsActive() {
		return false
	}
	age := a.currentTime().Unix() - info.GetAuthorizedAt()
	return age < int64(a.policy.ConsentOmissionPeriod) && scope.Same(req.Scope, info.GetScope())
}

func (a *AuthorizationEndpoint) completeIfConsented(callbacks bridge.AuthorizationCallbacks, r *http.Request,
	rh authorization.ResponseHandler, uid int64, req *authorization.Request, maxAge string) bool {
	info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
	code := ""
	switch {
	case serr != nil && serr.Type() == bridge.ErrFailed:
		code = "consent_required"
	case serr != nil, info == nil:
		code = "server_error"
	case !a.consented(info, req):
		code = "consent_required"
	}
	if code != "" {
		rh.Error(req.RedirectURI, code, "", req.State)
		return false
	}
	return a.completeWithoutInteraction(callbacks, r, rh, info, req, maxAge)
}
'''
# 2. GetAuthTime before CreateAuthorizationCode; FindClientById first in hybrid
at='''	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
'''
i=s.index('func (a *AuthorizationEndpoint) completeAuthorizationCodeFlowRequest')
h=s[:i];t=s[i:]
parts=re.split(r'(?=^func )',t,flags=re.M)
out=[]
for f in parts:
    if f.startswith('func') and 'FlowRequest(' in f.split('\n')[0]:
        assert at in f
        f=f.replace(at,'')
        j=f.index(') bool {\n')+len(') bool {\n')
        pre=at
        fc=re.search(r'	clnt, serr := a\.di\.FindClientById.*?\n	\}\n',f,re.S)
        if fc:
            f=f.replace(fc.group(0),'');
            pre=fc.group(0)+at
            f=f.replace('serr := a.di.CreateAuthSession','serr = a.di.CreateAuthSession')
        f=f[:j]+pre+f[j:]
        f=f.replace('code, err := callbacks.Create','code, err := callbacks.Create')
    out.append(f)
s=h+''.join(out)
# 3. generic callback failure helper
pat=re.compile(r'a\.logger\.Error\(log\.AuthorizationEndpointLog\(r\.URL\.Path,\s*log\.InterfaceError,\s*map\[string\]string\{\s*"method": ("\w+"),\s*\},\s*err\.Error\(\)\)\)')
s,n=pat.subn(r'a.callbackFailed(r, \1, err)',s)
print('cb',n)
s+='''
func (a *AuthorizationEndpoint) callbackFailed(r *http.Request, method string, err error) {
	a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path, log.InterfaceError,
		map[string]string{"method": method, "error": err.Error()}, "callback failed: "+err.Error()))
}
'''
# 4. read params upfront
s=s.replace('''	cid := r.FormValue("client_id")
	if cid == "" {''','''	cid := r.FormValue("client_id")
	n, verifier, locales := r.FormValue("nonce"), r.FormValue("code_verifier"), r.FormValue("ui_locales")
	scp, mas, d := r.FormValue("scope"), r.FormValue("max_age"), r.FormValue("display")
	if cid == "" {''')
for l in ['	d := r.FormValue("display")\n','	mas := r.FormValue("max_age")\n','	scp := r.FormValue("scope")\n','	n := r.FormValue("nonce")\n','	verifier := r.FormValue("code_verifier")\n','	locales := r.FormValue("ui_locales")\n']:
    assert l in s; s=s.replace(l,'')
# 5. display map
s=re.sub(r'if d == authorization\.DisplayTypePage \|\|\s*d == authorization\.DisplayTypePopup \|\|\s*d == authorization\.DisplayTypeWAP \|\|\s*d == authorization\.DisplayTypeTouch \{','if knownDisplays[d] {',s)
s+='''
var knownDisplays = map[string]bool{
	authorization.DisplayTypePage:  true,
	authorization.DisplayTypePopup: true,
	authorization.DisplayTypeWAP:   true,
	authorization.DisplayTypeTouch: true,
}
'''
# 6. max age range merged
open(p,'w').write(s)

p=ROOT+'grant/storage.go'
open(p,'w').write('''package grant

import (
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
)

func storageError(logger log.Logger, gt, method string, c bridge.Client, ev log.LogEvent, err *bridge.Error) *oer.OAuthError {
	attr := map[string]string{"method": method, "client_id": c.GetId()}
	switch {
	case err == nil:
		logger.Error(log.TokenEndpointLog(gt, log.InterfaceError, attr, "nothing returned"))
	case err.Type() == bridge.ErrFailed:
		logger.Info(log.TokenEndpointLog(gt, ev, attr, "failed"))
		return oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
	case err.Type() == bridge.ErrUnsupported:
		logger.Error(log.TokenEndpointLog(gt, log.InterfaceUnsupported, attr, "unsupported"))
	default:
		logger.Error(log.TokenEndpointLog(gt, log.InterfaceServerError, attr, "server error"))
	}
	return oer.NewOAuthSimpleError(oer.ErrServerError)
}
''')
for fn in ['client_credential','password','jwt','refresh_token','authorization_code']:
    p=ROOT+'grant/%s.go'%fn;s=open(p).read()
    typ=re.search(r'const (Type\w+)',s).group(1)
    # X, err := sdi.M(...)\n if err != nil {...} else { if X == nil {...} }
    pos=0;cnt=0
    while True:
        m=re.compile(r'\t\t\t(\w+), err :?= sdi\.(\w+)\((.*)\)\n\s*if err != nil \{\n').search(s,pos)
        if not m: break
        # find end of if/else statement by brace counting
        st=m.start()+s[m.start():m.end()].index('if err');
        k=s.index('{',st);d=1;k+=1
        def close(k):
            d=1
            while d:
                if s[k]=='{':d+=1
                elif s[k]=='}':d-=1
                k+=1
            return k
        k=close(k)
        hasnil=False
        if s[k:].startswith(' else {'):
            k=close(k+len(' else {')); hasnil=True
        v=m.group(1)
        # keep FindUserId ones as they are semantically special: same mapping
        cond='err != nil'+(' || %s == nil'%v if hasnil else '')
        ev=re.search(r'log\.(NoEnabled\w+|AccessToken\w+Failed|AuthInfoCreationFailed)',s[st:k])
        new='if %s {\n\t\t\t\treturn nil, storageError(logger, %s, "%s", c, log.%s, err)\n\t\t\t}'%(cond,typ,m.group(2),ev.group(1))
        s=s[:st]+new+s[k:]
        pos=st+len(new);cnt+=1
    # bool of empty scope
    s=re.sub(r'\t\t\tscp := info\.GetScope\(\)\n\t\t\tif scp != "" \{\n\t\t\t\tres\.Scope = scp\n\t\t\t\}\n','\t\t\tscp := info.GetScope()\n\t\t\tres.Scope = scp\n',s)
    open(p,'w').write(s);print(fn,cnt)
