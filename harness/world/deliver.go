package world

import (
	"fmt"
	"html"
	"mime"
	"net/http"
	"net/url"
	"strings"
)

// Rec is an http.ResponseWriter that remembers everything done to it.
type Rec struct {
	H           http.Header
	Sent        http.Header // header at the time of the first WriteHeader/Write
	Code        int
	Body        strings.Builder
	HeaderCalls int
	Writes      int
}

func NewRec() *Rec { return &Rec{H: http.Header{}} }

func (r *Rec) Header() http.Header { return r.H }
func (r *Rec) WriteHeader(c int) {
	r.HeaderCalls++
	if r.Code == 0 {
		r.Code = c
		r.Sent = r.H.Clone()
	}
}
func (r *Rec) Write(b []byte) (int, error) {
	r.Writes++
	if r.Code == 0 {
		r.Code = 200
		r.Sent = r.H.Clone()
	}
	return r.Body.Write(b)
}

// Touched says whether any response was begun.
func (r *Rec) Touched() bool { return r.Code != 0 || len(r.H) > 0 || r.Writes > 0 }

// Head returns the header as sent.
func (r *Rec) Head() http.Header {
	if r.Sent != nil {
		return r.Sent
	}
	return r.H
}

// Delivery is a parsed authorization response.
type Delivery struct {
	Mode   string // query, fragment, form_post
	Params url.Values
}

func (d *Delivery) Get(k string) string { return d.Params.Get(k) }

// parsePairs decodes '&'-separated form-urlencoded pairs (';' is an ordinary
// character, as in the WHATWG URL standard).
func parsePairs(s string) (url.Values, error) {
	v := url.Values{}
	for _, p := range strings.Split(s, "&") {
		if p == "" {
			continue
		}
		k, x, _ := strings.Cut(p, "=")
		k, err := url.QueryUnescape(k)
		if err != nil {
			return v, err
		}
		if x, err = url.QueryUnescape(x); err != nil {
			return v, err
		}
		v[k] = append(v[k], x)
	}
	return v, nil
}

// minus removes the multiset b from a; ok is false if b is not contained.
func minus(a, b url.Values) (url.Values, bool) {
	out := url.Values{}
	for k, v := range a {
		out[k] = append([]string(nil), v...)
	}
	for k, vs := range b {
		for _, v := range vs {
			found := -1
			for i, x := range out[k] {
				if x == v {
					found = i
					break
				}
			}
			if found < 0 {
				return nil, false
			}
			out[k] = append(out[k][:found], out[k][found+1:]...)
		}
		if len(out[k]) == 0 {
			delete(out, k)
		}
	}
	return out, true
}

// ParseDelivery interprets a response as an authorization response sent to
// ruri. problems lists everything that makes it a malformed or misdirected one.
func ParseDelivery(r *Rec, ruri string) (d *Delivery, problems []string) {
	bad := func(f string, a ...interface{}) { problems = append(problems, fmt.Sprintf(f, a...)) }
	if r.HeaderCalls > 1 {
		bad("status written %d times", r.HeaderCalls)
	}
	h := r.Head()
	switch {
	case r.Code >= 300 && r.Code < 400:
		if r.Code != 302 && r.Code != 303 {
			bad("redirect status %d", r.Code)
		}
		locs := h["Location"]
		if len(locs) != 1 {
			bad("%d Location headers", len(locs))
			return nil, problems
		}
		for _, c := range []byte(locs[0]) {
			if c < 0x20 || c == 0x7f {
				bad("control character in Location %q", locs[0])
			}
		}
		lu, err := url.Parse(locs[0])
		if err != nil {
			bad("Location %q does not parse: %v", locs[0], err)
			return nil, problems
		}
		ou, err := url.Parse(ruri)
		if err != nil {
			bad("harness: redirect uri %q does not parse", ruri)
			return nil, problems
		}
		if lu.Scheme != ou.Scheme || lu.Host != ou.Host || lu.EscapedPath() != ou.EscapedPath() || lu.Opaque != ou.Opaque || lu.User.String() != ou.User.String() {
			bad("response goes to %q, request's redirect URI is %q", locs[0], ruri)
		}
		lq, e1 := parsePairs(lu.RawQuery)
		oq, e2 := parsePairs(ou.RawQuery)
		lf, e3 := parsePairs(lu.EscapedFragment())
		of, e4 := parsePairs(ou.EscapedFragment())
		for _, e := range []error{e1, e2, e3, e4} {
			if e != nil {
				bad("Location %q: %v", locs[0], e)
			}
		}
		dq, ok := minus(lq, oq)
		if !ok {
			bad("query of %q lost in %q", ruri, locs[0])
			return nil, problems
		}
		df, ok := minus(lf, of)
		if !ok {
			bad("fragment of %q lost in %q", ruri, locs[0])
			return nil, problems
		}
		if len(dq) > 0 && len(df) > 0 {
			bad("parameters in both query and fragment: %q", locs[0])
		}
		if len(df) > 0 {
			return &Delivery{"fragment", df}, problems
		}
		return &Delivery{"query", dq}, problems
	case r.Code == 200:
		if ct := h.Get("Content-Type"); !HasMediaType(ct, "text/html") {
			bad("form page has content type %q", ct)
		}
		cc := strings.ToLower(strings.Join(h["Cache-Control"], ","))
		if !HasDirective(h["Cache-Control"], "no-store") {
			bad("form page has Cache-Control %q", cc)
		}
		params, probs := parseForm(r.Body.String(), ruri)
		problems = append(problems, probs...)
		return &Delivery{"form_post", params}, problems
	}
	bad("response status %d is no authorization response", r.Code)
	return nil, problems
}

type tag struct {
	name  string
	close bool
	attrs map[string]string
	dup   bool
}

// scanTags is a strict little HTML tag scanner: good enough to see what a
// browser would see in a page made only of plain tags with quoted attributes.
func scanTags(s string) (tags []tag, text string, err error) {
	var tx strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '<' {
			tx.WriteByte(s[i])
			i++
			continue
		}
		i++
		if i < len(s) && s[i] == '!' { // doctype or comment
			j := strings.IndexByte(s[i:], '>')
			if j < 0 {
				return nil, "", fmt.Errorf("unterminated <!")
			}
			i += j + 1
			continue
		}
		t := tag{attrs: map[string]string{}}
		if i < len(s) && s[i] == '/' {
			t.close = true
			i++
		}
		st := i
		for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9') {
			i++
		}
		t.name = strings.ToLower(s[st:i])
		if t.name == "" {
			return nil, "", fmt.Errorf("stray '<' at %d", st)
		}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r' || s[i] == '/') {
				i++
			}
			if i >= len(s) {
				return nil, "", fmt.Errorf("unterminated tag %s", t.name)
			}
			if s[i] == '>' {
				i++
				break
			}
			st := i
			for i < len(s) && !strings.ContainsRune(" \n\t\r/>=", rune(s[i])) {
				i++
			}
			name := strings.ToLower(s[st:i])
			val := ""
			if i < len(s) && s[i] == '=' {
				i++
				if i < len(s) && (s[i] == '"' || s[i] == '\'') {
					q := s[i]
					i++
					j := strings.IndexByte(s[i:], q)
					if j < 0 {
						return nil, "", fmt.Errorf("unterminated attribute %s", name)
					}
					val = s[i : i+j]
					i += j + 1
				} else {
					st := i
					for i < len(s) && !strings.ContainsRune(" \n\t\r>", rune(s[i])) {
						i++
					}
					val = s[st:i]
				}
			}
			if _, ok := t.attrs[name]; ok {
				t.dup = true
			} else {
				t.attrs[name] = html.UnescapeString(val)
			}
		}
		tags = append(tags, t)
	}
	return tags, tx.String(), nil
}

func parseForm(doc, ruri string) (url.Values, []string) {
	var problems []string
	bad := func(f string, a ...interface{}) { problems = append(problems, fmt.Sprintf(f, a...)) }
	params := url.Values{}
	tags, _, err := scanTags(doc)
	if err != nil {
		bad("form page is not well formed: %v: %q", err, doc)
		return params, problems
	}
	okTags := map[string]bool{"html": true, "head": true, "title": true, "meta": true, "body": true, "form": true, "input": true, "noscript": true, "p": true, "button": true, "script": true}
	okAttr := map[string]map[string]bool{
		"form":  {"method": true, "action": true, "id": true, "name": true, "enctype": true, "accept-charset": true, "target": true},
		"input": {"type": true, "name": true, "value": true, "id": true},
	}
	forms := 0
	auto := false
	for _, t := range tags {
		if !okTags[t.name] {
			bad("unexpected element <%s> in form page %q", t.name, doc)
		}
		if t.dup {
			bad("duplicate attribute in <%s> of form page %q", t.name, doc)
		}
		if t.close {
			continue
		}
		for a := range t.attrs {
			if m := okAttr[t.name]; m != nil && !m[a] {
				bad("unexpected attribute %q in <%s> of form page %q", a, t.name, doc)
			}
		}
		switch t.name {
		case "body":
			if strings.Contains(t.attrs["onload"], "submit") {
				auto = true
			}
		case "script":
			auto = true
		case "form":
			forms++
			if !strings.EqualFold(t.attrs["method"], "post") {
				bad("form method %q", t.attrs["method"])
			}
			if t.attrs["action"] != ruri {
				bad("form action %q, request's redirect URI is %q", t.attrs["action"], ruri)
			}
		case "input":
			if strings.EqualFold(t.attrs["type"], "submit") {
				continue
			}
			if !strings.EqualFold(t.attrs["type"], "hidden") {
				bad("input of type %q", t.attrs["type"])
			}
			params[t.attrs["name"]] = append(params[t.attrs["name"]], t.attrs["value"])
		}
	}
	if forms != 1 {
		bad("%d forms in page %q", forms, doc)
	}
	if !auto {
		bad("form page does not submit itself: %q", doc)
	}
	return params, problems
}

// HasDirective reports whether a comma-separated header names a directive.
func HasDirective(values []string, d string) bool {
	for _, v := range values {
		for _, w := range strings.Split(v, ",") {
			if strings.EqualFold(strings.TrimSpace(w), d) {
				return true
			}
		}
	}
	return false
}

// HasMediaType reports whether a Content-Type header holds one media type with
// UTF-8 as its charset, if any.
func HasMediaType(value, want string) bool {
	mt, params, err := mime.ParseMediaType(value)
	if err != nil || mt != want {
		return false
	}
	cs, ok := params["charset"]
	return !ok || strings.EqualFold(cs, "utf-8")
}
