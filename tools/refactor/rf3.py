# A round of behaviour-preserving edits of a copy of the repository: python3 rf3.py COPY
import sys; ROOT = sys.argv[1] + "/"
import re
def W(p,s): open(ROOT+''+p,'w').write(s)
def R(p): return open(ROOT+''+p).read()
# flow
s=R('flow/flow.go')
a=s.index('func (ft FlowType) String');b=s.index('type Flow struct')
s=s[:a]+'''var names = [...]string{
	AuthorizationCode: "authorization_code",
	Implicit:          "implicit",
	Hybrid:            "hybrid",
	DirectGrant:       "direct_grant",
}

func (ft FlowType) String() string {
	if ft < 0 || int(ft) >= len(names) {
		panic("shouldn't be here")
	}
	return names[ft]
}

func (ft FlowType) MarshalJSON() ([]byte, error) {
	return json.Marshal(ft.String())
}

func (ft *FlowType) UnmarshalJSON(data []byte) error {
	for i, n := range names {
		if strconv.Quote(n) == string(data) {
			*ft = FlowType(i)
			return nil
		}
	}
	return errors.New("unknown flow type")
}

'''+s[b:]
a=s.index('	switch sorted {')
s=s[:a]+'''	has := func(w string) bool {
		i := sort.SearchStrings(list, w)
		return i < len(list) && list[i] == w
	}
	switch sorted {
	case "code", "code id_token", "code id_token token", "code token", "id_token", "id_token token", "token":
	default:
		return nil, fmt.Errorf("unsupported response type: %s", responseType)
	}
	f := &Flow{Type: Implicit, RequireAccessToken: has("token"), RequireIdToken: has("id_token")}
	if has("code") {
		f.Type = Hybrid
		if len(list) == 1 {
			f.Type = AuthorizationCode
		}
	}
	return f, nil
}
'''
s=s.replace('import (\n','import (\n\t"encoding/json"\n').replace('\t"sort"\n','\t"sort"\n\t"strconv"\n')
W('flow/flow.go',s)
# prompt
s=R('prompt/util.go')
a=s.index('	list := Split(prompts)\n	hasNone');b=s.index('func IncludeNone')
s=s[:a]+'''	counts := map[string]int{None: 0, Login: 0, Consent: 0, SelectAccount: 0}
	total := 0
	for _, p := range Split(prompts) {
		if _, known := counts[p]; !known {
			return false
		}
		counts[p]++
		total++
	}
	return counts[None] == 0 || counts[None] == total
}

'''+s[b:]
W('prompt/util.go',s)
# pkce
s=R('pkce/verifier.go')
s=s.replace('''	switch method {
	case CodeChallengeMethodPlain:
		return plain, nil
	case CodeChallengeMethodS256:
		return s256, nil
	default:
		return nil, fmt.Errorf("unknown code_challange_method: %s", method)
	}
''','''	v, known := map[string]Verifier{CodeChallengeMethodPlain: plain, CodeChallengeMethodS256: s256}[method]
	if !known {
		return nil, fmt.Errorf("unknown code_challange_method: %s", method)
	}
	return v, nil
''').replace('return challenge == verifier','return subtle.ConstantTimeCompare([]byte(challenge), []byte(verifier)) == 1').replace('return S256Encode(verifier) == challenge','return plain.Verify(challenge, S256Encode(verifier))').replace('import "fmt"','import (\n\t"crypto/subtle"\n\t"fmt"\n)')
W('pkce/verifier.go',s)
# logger
s=R('log/logger.go')
for L in ['Debug','Info','Warn','Error','Fatal']:
    s=re.sub(r'(func \(l \*defaultLogger\) %s\(args \.\.\.interface\{\}\) \{\n).*?\n\}\n'%L, r'\1	l.print(LogLevel%s, args[0].(string))\n}\n'%L,s,flags=re.S)
    s=re.sub(r'(func \(l \*defaultLogger\) %sf\(format string, args \.\.\.interface\{\}\) \{\n).*?\n\}\n'%L, r'\1	l.print(LogLevel%s, fmt.Sprintf(format, args...))\n}\n'%L,s,flags=re.S)
s+='''
func (l *defaultLogger) print(level LogLevel, msg string) {
	if level < defaultLoggerLevel {
		return
	}
	fmt.Printf("%s\\n", l.insertLevelLabel(level, msg))
}
'''
W('log/logger.go',s)
# id token: merged generators
s=R('id_token/id_token.go')
a=s.index('func Gen(');b=s.index('func rawGen')
s=s[:a]+'''func Gen(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, now time.Time) (string, error) {
	iat := now.Unix()
	return rawGen(alg, key, keyId, issuer, clientId, subject, nonce, iat+expiresIn, authTime, iat, "", "")
}

func hashUnlessEmpty(alg, v string) (string, error) {
	if v == "" {
		return "", nil
	}
	return Hash(alg, v)
}

func GenForImplicit(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, accessToken string, now time.Time) (string, error) {
	atHash, err := hashUnlessEmpty(alg, accessToken)
	if err != nil {
		return "", err
	}
	iat := now.Unix()
	return rawGen(alg, key, keyId, issuer, clientId, subject, nonce, iat+expiresIn, authTime, iat, atHash, "")
}

func GenForHybrid(alg string, key interface{}, keyId,
	issuer, clientId, subject, nonce string,
	expiresIn, authTime int64, accessToken, code string, now time.Time) (string, error) {
	cHash, err := Hash(alg, code)
	if err != nil {
		return "", err
	}
	atHash, err := hashUnlessEmpty(alg, accessToken)
	if err != nil {
		return "", err
	}
	iat := now.Unix()
	return rawGen(alg, key, keyId, issuer, clientId, subject, nonce, iat+expiresIn, authTime, iat, atHash, cHash)
}

'''+s[b:]
W('id_token/id_token.go',s)
# assertion: aud before record, numeric helper
s=R('assertion/error.go')
rec0=s.index('	err := sdi.RecordAssertionClaims');aud0=s.index('	aud, ok := claims["aud"]');end=s.rindex('	return nil\n}')
s=s[:rec0]+s[aud0:end]+s[rec0:aud0]+s[end:]
s=re.sub(r'''	switch num := claims\["exp"\].*?	if !exp_exists''','''	exp, exp_exists = number(claims["exp"])

	if !exp_exists''',s,flags=re.S)
s=re.sub(r'''	switch num := claims\["iat"\].*?	if !iat_exists''','''	iat, iat_exists = number(claims["iat"])
	if !iat_exists''',s,flags=re.S)
s=s.replace('	var er error\n','')
s+='''
func number(v interface{}) (int64, bool) {
	switch num := v.(type) {
	case json.Number:
		n, err := num.Int64()
		return n, err == nil
	case float64:
		return int64(num), true
	}
	return 0, false
}
'''
W('assertion/error.go',s)
# oauth error: built by hand
s=R('oauth_error/errors.go')
a=s.index('func (e *OAuthError) Query')
s=s[:a]+'''func (e *OAuthError) Query(state string) string {
	v := url.Values{}
	for _, p := range [][2]string{{"error", e.Type.String()}, {"error_description", e.Description}, {"error_uri", e.URI}, {"state", state}} {
		if p[1] != "" {
			v.Set(p[0], p[1])
		}
	}
	return v.Encode()
}
'''
s=s.replace('\t"net/http"\n','\t"net/http"\n\t"net/url"\n').replace('\n\t"github.com/google/go-querystring/query"\n','')
W('oauth_error/errors.go',s)
# grants: form read once, redirect uri before grant lookup
s=R('grant/authorization_code.go')
m=re.search(r'\t\t\tif sess\.GetRedirectURI\(\) != uri \{.*?\n\t\t\t\}\n',s,re.S).group(0)
s=s.replace(m,'');i=s.index('\t\t\tinfo, err := sdi.FindActive');s=s[:i]+m+'\n'+s[i:]
W('grant/authorization_code.go',s)
