# Behaviour-preserving edits of the library and the suite, of whole functions: every check must stay quiet.
S,B,H,SC,O,CL,E,A,CO,T,I,R='server.go','bearer.go','hs256.go','scope.go','oauth2.go','client.go','error.go','authorization.go','code.go','token.go','introspection.go','revocation.go'
def body(f,start,end='\n}\n'):
    t=open('/repo/'+f).read(); i=t.index(start); return t[i:t.index(end,i)+len(end)]
def fn(f,start,new): return (f,body(f,start),new)
def sub(f,start,*pairs):
    o=body(f,start); n=o
    for a,b in pairs:
        assert n.count(a)==1,(start,a,n.count(a)); n=n.replace(a,b)
    return (f,o,n)
def add(f,new): return (f,None,new)
C=[]
def ref(name,*edits): C.append((name,'ref',list(edits),None))
WR='func WriteRedirect('
TAIL='''
	// set location
	w.Header().Set("Location", location)

	// prevent caching
	noCache(w.Header())

	// prevent referrer leakage
	w.Header().Set("Referrer-Policy", "origin")

	// write redirect
	w.WriteHeader(http.StatusSeeOther)

	// finish response
	_, err = w.Write(nil)

	return err
}

func noCache(h http.Header) {
	h.Set("Cache-Control", "no-store")
	h.Set("Pragma", "no-cache")
}
'''
HEAD='''func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string, useFragment bool) error {
	// parse redirect uri
	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}
'''
ref('wr-shared',fn(O,WR,HEAD+'''
	values := url.Values{}
	if !useFragment {
		values = redirectURI.Query()
	}
	for k, v := range params {
		values.Add(k, v)
	}
	if !useFragment {
		redirectURI.RawQuery = values.Encode()
	}
	location := redirectURI.String()
	if useFragment && len(values) > 0 {
		location += "#" + values.Encode()
	}
'''+TAIL))
ref('wr-two-helpers',fn(O,WR,HEAD+'''
	location := queryLocation(redirectURI, params)
	if useFragment {
		location = fragmentLocation(redirectURI, params)
	}
'''+TAIL+'''
func queryLocation(u *url.URL, params map[string]string) string {
	q := u.Query()
	for k, v := range params {
		q.Add(k, v)
	}
	c := *u
	c.RawQuery = q.Encode()
	return c.String()
}

func fragmentLocation(u *url.URL, params map[string]string) string {
	f := make(url.Values, len(params))
	for k, v := range params {
		f.Set(k, v)
	}
	if encoded := f.Encode(); encoded != "" {
		return u.String() + "#" + encoded
	}
	return u.String()
}
'''))
ref('wr-encode-helper',fn(O,WR,HEAD+'''
	var fragment string
	if useFragment {
		fragment = encode(make(url.Values), params)
	} else {
		redirectURI.RawQuery = encode(redirectURI.Query(), params)
	}

	location := redirectURI.String()
	if len(fragment) != 0 {
		location = location + "#" + fragment
	}
'''+TAIL+'''
func encode(values url.Values, params map[string]string) string {
	for name, value := range params {
		values.Add(name, value)
	}
	return values.Encode()
}
'''))
ref('wr-sorted-keys',fn(O,WR,HEAD+'''
	keys := make([]string, 0, len(params))
	for k := range params {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	var fragment string
	if useFragment {
		f := make(url.Values)
		for _, k := range keys {
			f.Add(k, params[k])
		}
		fragment = f.Encode()
	} else {
		q := redirectURI.Query()
		for _, k := range keys {
			q.Add(k, params[k])
		}
		redirectURI.RawQuery = q.Encode()
	}

	location := redirectURI.String()
	if fragment != "" {
		location += "#" + fragment
	}
'''+TAIL))
ref('wr-builder',fn(O,WR,HEAD+'''
	var location string
	if useFragment {
		f := make(url.Values)
		for k := range params {
			f.Add(k, params[k])
		}
		var b strings.Builder
		b.WriteString(redirectURI.String())
		if len(f) > 0 {
			b.WriteByte('#')
			b.WriteString(f.Encode())
		}
		location = b.String()
	} else {
		q := redirectURI.Query()
		for k := range params {
			q.Add(k, params[k])
		}
		redirectURI.RawQuery = q.Encode()
		location = redirectURI.String()
	}
'''+TAIL))
ref('wr-target',fn(O,WR,HEAD+'''
	location := redirectTarget(redirectURI, params, useFragment)
'''+TAIL+'''
func redirectTarget(u *url.URL, params map[string]string, useFragment bool) string {
	switch {
	case useFragment:
		f := url.Values{}
		for k, v := range params {
			f[k] = append(f[k], v)
		}
		if len(f) == 0 {
			return u.String()
		}
		return strings.Join([]string{u.String(), f.Encode()}, "#")
	default:
		q := u.Query()
		for k, v := range params {
			q[k] = append(q[k], v)
		}
		u.RawQuery = q.Encode()
		return u.String()
	}
}
'''))
ref('wr-finish',sub(O,WR,('''	// write redirect
	w.WriteHeader(http.StatusSeeOther)

	// finish response
	_, err = w.Write(nil)

	return err
''','''	return finish(w, http.StatusSeeOther)
''')),add(O,'''
// finish writes the status and finishes the response.
func finish(w http.ResponseWriter, status int) error {
	w.WriteHeader(status)
	_, err := w.Write(nil)
	return err
}
'''))
ref('w-return',sub(O,'func Write(',('''	err := json.NewEncoder(w).Encode(obj)

	return err
''','''	return json.NewEncoder(w).Encode(obj)
''')))
ref('w-encoder-var',sub(O,'func Write(',('''	err := json.NewEncoder(w).Encode(obj)

	return err
''','''	enc := json.NewEncoder(w)
	if err := enc.Encode(obj); err != nil {
		return err
	}

	return nil
''')))
# ---- error
ref('er-params-keys',fn(E,'func (e *Error) Params(','''func (e *Error) Params() string {
	m := e.Map()
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	params := make([]string, 0, len(keys))
	for _, k := range keys {
		params = append(params, fmt.Sprintf(`%s="%s"`, k, m[k]))
	}

	return strings.Join(params, ", ")
}
'''))
ref('er-params-prealloc',fn(E,'func (e *Error) Params(','''func (e *Error) Params() string {
	m := e.Map()
	params := make([]string, 0, len(m))
	for k, v := range m {
		params = append(params, k+`="`+v+`"`)
	}
	sort.Strings(params)
	return strings.Join(params, ", ")
}
'''))
ref('er-params-index',fn(E,'func (e *Error) Params(','''func (e *Error) Params() string {
	m := e.Map()
	params := make([]string, len(m))
	i := 0
	for k, v := range m {
		params[i] = fmt.Sprintf(`%s="%s"`, k, v)
		i++
	}
	sort.Strings(params)
	return strings.Join(params, ", ")
}
'''))
ref('er-map-delete',fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := map[string]string{
		"error":             e.Name,
		"error_description": e.Description,
		"state":             e.State,
		"scope":             e.Scope.String(),
		"error_uri":         e.URI,
		"realm":             e.Realm,
	}
	for k, v := range m {
		if v == "" {
			delete(m, k)
		}
	}
	return m
}
'''))
ref('er-map-range-literal',fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := make(map[string]string)
	for k, v := range map[string]string{
		"error":             e.Name,
		"error_description": e.Description,
		"state":             e.State,
		"scope":             e.Scope.String(),
		"error_uri":         e.URI,
		"realm":             e.Realm,
	} {
		if v != "" {
			m[k] = v
		}
	}
	return m
}
'''))
ref('er-map-closure',fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := map[string]string{}
	add := func(key, value string) {
		if value != "" {
			m[key] = value
		}
	}
	add("error", e.Name)
	add("error_description", e.Description)
	add("state", e.State)
	if !e.Scope.Empty() {
		add("scope", e.Scope.String())
	}
	add("error_uri", e.URI)
	add("realm", e.Realm)
	return m
}
'''))
ref('er-map-pairs',fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	return nonEmpty(
		"error", e.Name,
		"error_description", e.Description,
		"state", e.State,
		"scope", e.Scope.String(),
		"error_uri", e.URI,
		"realm", e.Realm,
	)
}

func nonEmpty(pairs ...string) map[string]string {
	m := make(map[string]string, len(pairs)/2)
	for i := 0; i+1 < len(pairs); i += 2 {
		if pairs[i+1] != "" {
			m[pairs[i]] = pairs[i+1]
		}
	}
	return m
}
'''))
ref('er-write-headers',sub(E,'func WriteError(',('''	for k, v := range anError.Headers {
		w.Header().Set(k, v)
	}
''','''	header := w.Header()
	for name := range anError.Headers {
		header.Set(name, anError.Headers[name])
	}
''')))
ref('er-write-typeswitch',sub(E,'func WriteError(',('''	anError, ok := err.(*Error)
	if !ok {
		anError = ServerError("")
	}
''','''	var anError *Error
	switch e := err.(type) {
	case *Error:
		anError = e
	default:
		anError = ServerError("")
	}
''')))
ref('er-as-helper',sub(E,'func WriteError(',('''	anError, ok := err.(*Error)
	if !ok {
		anError = ServerError("")
	}
''','''	anError := asError(err)
''')),add(E,'''
func asError(err error) *Error {
	if e, ok := err.(*Error); ok {
		return e
	}
	return ServerError("")
}
'''))
ref('er-redirected',sub(E,'func WriteError(',('''	// redirect error if requested
	if anError.RedirectURI != "" {
		return WriteRedirect(w, anError.RedirectURI, anError.Map(), anError.UseFragment)
	}

	return Write(w, anError, anError.Status)
''','''	// write directly if no redirect is requested
	if anError.RedirectURI == "" {
		return Write(w, anError, anError.Status)
	}

	params := anError.Map()
	return WriteRedirect(w, anError.RedirectURI, params, anError.UseFragment)
''')))
ref('er-parse-early',fn(E,'func ParseRequestError(','''func ParseRequestError(res *http.Response, limit int64) error {
	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		data = nil
	}
	_ = err

	oauthError := new(Error)
	if err := json.Unmarshal(data, oauthError); err != nil || oauthError.Name == "" {
		return fmt.Errorf("unexpected response: %s", res.Status)
	}

	oauthError.Status = res.StatusCode
	return oauthError
}
'''.replace('''	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		data = nil
	}
	_ = err
''','''	data, _ := ioutil.ReadAll(io.LimitReader(res.Body, limit))
''')))
# ---- token
VALS='func TokenRequestValues('
ref('tv-pairs',fn(T,VALS,'''func TokenRequestValues(r TokenRequest) url.Values {
	values := make(url.Values)
	for _, p := range [][2]string{
		{"grant_type", r.GrantType},
		{"scope", r.Scope.String()},
		{"username", r.Username},
		{"password", r.Password},
		{"refresh_token", r.RefreshToken},
		{"redirect_uri", url.QueryEscape(r.RedirectURI)},
		{"code", r.Code},
	} {
		if p[1] != "" {
			values.Set(p[0], p[1])
		}
	}
	return values
}
'''))
ref('tv-map',fn(T,VALS,'''func TokenRequestValues(r TokenRequest) url.Values {
	values := url.Values{}
	for k, v := range map[string]string{
		"grant_type":    r.GrantType,
		"scope":         r.Scope.String(),
		"username":      r.Username,
		"password":      r.Password,
		"refresh_token": r.RefreshToken,
		"redirect_uri":  url.QueryEscape(r.RedirectURI),
		"code":          r.Code,
	} {
		if v != "" {
			values.Set(k, v)
		}
	}
	return values
}
'''))
ref('tv-closure',fn(T,VALS,'''func TokenRequestValues(r TokenRequest) url.Values {
	values := url.Values{}
	set := func(key, value string, ok bool) {
		if ok {
			values.Set(key, value)
		}
	}
	set("grant_type", r.GrantType, r.GrantType != "")
	set("scope", r.Scope.String(), !r.Scope.Empty())
	set("username", r.Username, r.Username != "")
	set("password", r.Password, r.Password != "")
	set("refresh_token", r.RefreshToken, r.RefreshToken != "")
	set("redirect_uri", url.QueryEscape(r.RedirectURI), r.RedirectURI != "")
	set("code", r.Code, r.Code != "")
	return values
}
'''))
ref('tv-struct-loop',fn(T,VALS,'''func TokenRequestValues(r TokenRequest) url.Values {
	fields := []struct {
		name, value string
	}{
		{"grant_type", r.GrantType},
		{"username", r.Username},
		{"password", r.Password},
		{"refresh_token", r.RefreshToken},
		{"code", r.Code},
	}
	values := make(url.Values, len(fields)+2)
	for i := range fields {
		if f := &fields[i]; f.value != "" {
			values[f.name] = []string{f.value}
		}
	}
	if len(r.Scope) > 0 {
		values["scope"] = []string{r.Scope.String()}
	}
	if r.RedirectURI != "" {
		values["redirect_uri"] = []string{url.QueryEscape(r.RedirectURI)}
	}
	return values
}
'''))
ref('tv-helper',fn(T,VALS,'''func TokenRequestValues(r TokenRequest) url.Values {
	values := make(url.Values)
	setValue(values, "grant_type", r.GrantType)
	if len(r.Scope) != 0 {
		values.Set("scope", r.Scope.String())
	}
	setValue(values, "username", r.Username)
	setValue(values, "password", r.Password)
	setValue(values, "refresh_token", r.RefreshToken)
	setValue(values, "redirect_uri", url.QueryEscape(r.RedirectURI))
	setValue(values, "code", r.Code)
	return values
}

// setValue sets the value if it is not empty.
func setValue(values url.Values, key, value string) {
	if value == "" {
		return
	}
	values.Set(key, value)
}
'''),fn(I,'func IntrospectionRequestValues(','''func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
	values := make(url.Values)
	setValue(values, "token", r.Token)
	setValue(values, "token_type_hint", r.TokenTypeHint)
	return values
}
'''),fn(R,'func RevocationRequestValues(','''func RevocationRequestValues(r RevocationRequest) url.Values {
	values := make(url.Values)
	setValue(values, "token", r.Token)
	setValue(values, "token_type_hint", r.TokenTypeHint)
	return values
}
'''))
ref('tr-map-literal',fn(T,'func (r *TokenResponse) Map(','''func (r *TokenResponse) Map() map[string]string {
	m := map[string]string{
		"token_type":   r.TokenType,
		"access_token": r.AccessToken,
		"expires_in":   strconv.FormatInt(int64(r.ExpiresIn), 10),
	}
	for key, value := range map[string]string{
		"refresh_token": r.RefreshToken,
		"scope":         r.Scope.String(),
		"state":         r.State,
	} {
		if value != "" {
			m[key] = value
		}
	}
	return m
}
'''))
ref('tr-map-shared',fn(T,'func (r *TokenResponse) Map(','''func (r *TokenResponse) Map() map[string]string {
	m := map[string]string{
		"token_type":   r.TokenType,
		"access_token": r.AccessToken,
		"expires_in":   strconv.Itoa(r.ExpiresIn),
	}
	setIf(m, "refresh_token", r.RefreshToken)
	setIf(m, "scope", r.Scope.String())
	setIf(m, "state", r.State)
	return m
}

func setIf(m map[string]string, key, value string) {
	if len(value) > 0 {
		m[key] = value
	}
}
'''),fn(CO,'func (r *CodeResponse) Map(','''func (r *CodeResponse) Map() map[string]string {
	m := map[string]string{"code": r.Code}
	setIf(m, "state", r.State)
	return m
}
'''),fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := make(map[string]string)
	setIf(m, "error", e.Name)
	setIf(m, "error_description", e.Description)
	setIf(m, "state", e.State)
	setIf(m, "scope", e.Scope.String())
	setIf(m, "error_uri", e.URI)
	setIf(m, "realm", e.Realm)
	return m
}
'''))
ref('rq-shared-parse',add(A,'''
// parseForm checks the method and parses the form.
func parseForm(r *http.Request, message string, methods ...string) error {
	allowed := false
	for _, method := range methods {
		if r.Method == method {
			allowed = true
			break
		}
	}
	if !allowed {
		return InvalidRequest("invalid HTTP method")
	}
	if err := r.ParseForm(); err != nil {
		return InvalidRequest(message)
	}
	return nil
}
'''),sub(A,'func ParseAuthorizationRequest(',('''	// check method
	if r.Method != "GET" && r.Method != "POST" {
		return nil, InvalidRequest("invalid HTTP method")
	}

	// parse query params and body params to form
	err := r.ParseForm()
	if err != nil {
		return nil, InvalidRequest("malformed query parameters or form data")
	}
''','''	err := parseForm(r, "malformed query parameters or form data", http.MethodGet, http.MethodPost)
	if err != nil {
		return nil, err
	}
''')),sub(T,'func ParseTokenRequest(',('''	// check method
	if r.Method != "POST" {
		return nil, InvalidRequest("invalid HTTP method")
	}

	// parse query params and body params to form
	err := r.ParseForm()
	if err != nil {
		return nil, InvalidRequest("malformed query parameters or body form")
	}
''','''	err := parseForm(r, "malformed query parameters or body form", http.MethodPost)
	if err != nil {
		return nil, err
	}
''')))
ref('rq-uri-shared',add(A,'''
// parseRedirectURI decodes and checks a redirect URI.
func parseRedirectURI(raw string) (string, error) {
	uri, err := url.QueryUnescape(raw)
	if err != nil || uri == "" {
		return uri, err
	}
	if u, err := url.ParseRequestURI(uri); u == nil || err != nil {
		return "", errors.New("malformed URI")
	}
	if strings.IndexByte(uri, '#') >= 0 {
		return "", errors.New("fragment not allowed")
	}
	return uri, nil
}
'''),sub(T,'func ParseTokenRequest(',('''	redirectURIString, err := url.QueryUnescape(r.PostForm.Get("redirect_uri"))
	if err != nil {
		return nil, InvalidRequest("invalid redirect URI")
	}

	// validate redirect uri if present
	if redirectURIString != "" {
		_, err := url.ParseRequestURI(redirectURIString)
		if err != nil || strings.Contains(redirectURIString, "#") {
			return nil, InvalidRequest("invalid redirect URI")
		}
	}
''','''	redirectURIString, err := parseRedirectURI(r.PostForm.Get("redirect_uri"))
	if err != nil {
		return nil, InvalidRequest("invalid redirect URI")
	}
''')))
ref('rq-fields-assign',sub(T,'func ParseTokenRequest(',('''	return &TokenRequest{
		GrantType:    grantType,
		Scope:        scope,
		ClientID:     clientID,
		ClientSecret: clientSecret,
		Username:     username,
		Password:     password,
		RefreshToken: refreshToken,
		RedirectURI:  redirectURIString,
		Code:         code,
	}, nil
''','''	var request TokenRequest
	request.GrantType, request.Scope = grantType, scope
	request.ClientID, request.ClientSecret = clientID, clientSecret
	request.Username, request.Password = username, password
	request.RefreshToken = refreshToken
	request.RedirectURI = redirectURIString
	request.Code = code
	return &request, nil
''')))
ref('rq-required-loop',sub(T,'func ParseTokenRequest(',('''	if grantType == "" {
		return nil, InvalidRequest("missing grant type")
	}
''',''),('''	if clientID == "" {
		return nil, InvalidRequest("missing client identification")
	}
''','''	for _, field := range []struct{ value, message string }{
		{grantType, "missing grant type"},
		{clientID, "missing client identification"},
	} {
		if field.value == "" {
			return nil, InvalidRequest(field.message)
		}
	}
''')))
# ---- client
ref('cl-send-fn',sub(CL,'func (c *Client) Authenticate(',('''	// perform request
	res, err := c.client.Do(req)
	if err != nil {
		return nil, err
	}

	// ensure body is closed
	defer res.Body.Close()

	// check status
	if res.StatusCode != http.StatusOK {
		return nil, ParseRequestError(res, c.config.ResponseLimit)
	}

	// parse response
	trs, err := ParseTokenResponse(res, c.config.ResponseLimit)
	if err != nil {
		return nil, err
	}

	return trs, nil
''','''	var trs *TokenResponse
	err = c.send(req, func(res *http.Response) (err error) {
		trs, err = ParseTokenResponse(res, c.config.ResponseLimit)
		return err
	})
	if err != nil {
		return nil, err
	}

	return trs, nil
''')),sub(CL,'func (c *Client) Revoke(',('''	// perform request
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}

	// ensure body is closed
	defer res.Body.Close()

	// check status
	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}

	return nil
''','''	return c.send(req, nil)
''')),add(CL,'''
// send performs the request and hands a successful response to the function.
func (c *Client) send(req *http.Request, parse func(*http.Response) error) error {
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()

	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}
	if parse == nil {
		return nil
	}
	return parse(res)
}
'''))
ref('cl-close-helper',sub(CL,'func (c *Client) Introspect(',('defer res.Body.Close()','defer closeBody(res)')),add(CL,'''
func closeBody(res *http.Response) {
	_ = res.Body.Close()
}
'''))
ref('cl-endpoints',sub(CL,'func (c *Client) Introspect(',('''	endpoint := c.config.BaseURI + c.config.IntrospectionEndpoint

''',''),('BuildIntrospectionRequest(endpoint, irq)','BuildIntrospectionRequest(c.endpoint(c.config.IntrospectionEndpoint), irq)')),add(CL,'''
func (c *Client) endpoint(path string) string {
	return c.config.BaseURI + path
}
'''))
# ---- scope
PS='func ParseScope('
ref('sc-parse-cut',fn(SC,PS,'''func ParseScope(str string) Scope {
	var res []string
	for len(str) > 0 {
		item, rest := str, ""
		if i := strings.Index(str, " "); i >= 0 {
			item, rest = str[:i], str[i+1:]
		}
		if item = strings.TrimSpace(item); item != "" {
			res = append(res, item)
		}
		str = rest
	}
	return res
}
'''))
ref('sc-parse-index',fn(SC,PS,'''func ParseScope(str string) Scope {
	list := strings.Split(str, " ")
	var res Scope
	for i := 0; i < len(list); i++ {
		if item := strings.TrimSpace(list[i]); len(item) > 0 {
			res = append(res, item)
		}
	}
	return res
}
'''))
ref('sc-parse-filter-inplace',fn(SC,PS,'''func ParseScope(str string) Scope {
	list := strings.Split(str, " ")
	var scope Scope
	for i := range list {
		name := strings.TrimSpace(list[i])
		if name == "" {
			continue
		}
		scope = append(scope, name)
	}
	return scope
}
'''))
ref('sc-parse-fieldsfunc',fn(SC,PS,'''func ParseScope(str string) Scope {
	var res Scope
	for _, item := range strings.FieldsFunc(str, func(r rune) bool { return r == ' ' }) {
		item = strings.TrimSpace(item)
		if item != "" {
			res = append(res, item)
		}
	}
	return res
}
'''))
ref('sc-parse-helper',fn(SC,PS,'''func ParseScope(str string) Scope {
	var res []string
	for _, item := range strings.Split(str, " ") {
		res = appendName(res, item)
	}
	return res
}

func appendName(list []string, item string) []string {
	if item = strings.TrimSpace(item); item == "" {
		return list
	}
	return append(list, item)
}
'''))
ref('sc-includes-contains-fn',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	missing := 0
	for _, i := range scope {
		if !s.Contains(i) {
			missing++
		}
	}
	return missing == 0
}
'''))
ref('sc-includes-all',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	ok := true
	for _, i := range scope {
		ok = ok && s.Contains(i)
	}
	return ok
}
'''))
ref('sc-contains-backwards',fn(SC,'func (s Scope) Contains(','''func (s Scope) Contains(str string) bool {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == str {
			return true
		}
	}
	return false
}
'''))
ref('sc-contains-indexof',fn(SC,'func (s Scope) Contains(','''func (s Scope) Contains(str string) bool {
	return s.index(str) >= 0
}

func (s Scope) index(str string) int {
	for i, name := range s {
		if name == str {
			return i
		}
	}
	return -1
}
'''))
ref('sc-string-builder',fn(SC,'func (s Scope) String(','''func (s Scope) String() string {
	var b strings.Builder
	for i, name := range s {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(name)
	}
	return b.String()
}
'''))
ref('sc-marshal-var',fn(SC,'func (s Scope) MarshalJSON(','''func (s Scope) MarshalJSON() ([]byte, error) {
	str := strings.Join([]string(s), " ")
	return json.Marshal(str)
}
'''))
# ---- hs256
GH='func GenerateHS256Token('
ref('hs-gen-loop',fn(H,GH,'''func GenerateHS256Token(secret []byte, length int) (*HS256Token, error) {
	key, err := randomBytes(length)
	if err != nil {
		return nil, err
	}
	return HS256TokenFromKey(secret, key), nil
}

func randomBytes(n int) ([]byte, error) {
	buf := make([]byte, n)
	if _, err := io.ReadFull(randSource, buf); err != nil {
		return nil, err
	}
	return buf, nil
}
'''))
ref('hs-from-inline',fn(H,'func HS256TokenFromKey(','''func HS256TokenFromKey(secret []byte, key []byte) *HS256Token {
	mac := hmac.New(sha256.New, secret)
	mac.Write(key)
	return &HS256Token{Key: key, Signature: mac.Sum(nil)}
}
'''))
ref('hs-valid-inline',fn(H,'func (t *HS256Token) Valid(','''func (t *HS256Token) Valid(secret []byte) bool {
	expected := HS256TokenFromKey(secret, t.Key)
	return expected.Equal(t.Signature)
}
'''))
ref('hs-segments',sub(H,'func ParseHS256Token(',('''	s := strings.Split(str, ".")
	if len(s) != 2 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}
''','''	segments := strings.Split(str, ".")
	switch len(segments) {
	case 2:
	default:
		return nil, errors.New("a token must have two segments separated by a dot")
	}
'''),('s[0]','segments[0]'),('s[1]','segments[1]')))
ref('hs-decode-loop',fn(H,'func ParseHS256Token(','''func ParseHS256Token(secret []byte, str string) (*HS256Token, error) {
	s := strings.Split(str, ".")
	if len(s) != 2 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}
	var decoded [2][]byte
	for i, name := range []string{"key", "signature"} {
		data, err := b64.DecodeString(s[i])
		if err != nil {
			return nil, fmt.Errorf("token %s is not base64 encoded", name)
		}
		decoded[i] = data
	}
	token := &HS256Token{Key: decoded[0], Signature: decoded[1]}
	if !token.Valid(secret) {
		return nil, errors.New("invalid token supplied")
	}
	return token, nil
}
'''))
# ---- bearer
ref('b-finish',add(B,'''
func writeStatus(w http.ResponseWriter, status int) error {
	w.WriteHeader(status)
	_, err := w.Write(nil)
	return err
}
'''),fn(B,'func WriteBearerError(','''func WriteBearerError(w http.ResponseWriter, err error) error {
	anError, ok := err.(*Error)
	if !ok || anError.Status == http.StatusInternalServerError {
		return writeStatus(w, http.StatusInternalServerError)
	}

	w.Header().Set("WWW-Authenticate", challenge(anError))
	return writeStatus(w, anError.Status)
}

func challenge(e *Error) string {
	if params := e.Params(); params != "" {
		return "Bearer " + params
	}
	return `Bearer realm="OAuth2"`
}
'''))
# ---- suite
ST,RQ,UT,GR,EN,GE='oauth2test/spec.go','oauth2test/request.go','oauth2test/utils.go','oauth2test/grants.go','oauth2test/endpoints.go','oauth2test/general.go'
ref('st-run-closure',sub(ST,'func Run(',('''	t.Run("ProtectedResourceTest", func(t *testing.T) {
		ProtectedResourceTest(t, spec)
	})
''','''	run := func(name string, enabled bool, test func(*testing.T, *Spec)) {
		if !enabled {
			return
		}
		t.Run(name, func(t *testing.T) {
			test(t, spec)
		})
	}

	run("ProtectedResourceTest", true, ProtectedResourceTest)
'''),('''	if spec.IntrospectionEndpoint != "" {
		t.Run("IntrospectionEndpointTest", func(t *testing.T) {
			IntrospectionEndpointTest(t, spec)
		})
	}

	if spec.RevocationEndpoint != "" {
		t.Run("RevocationEndpointTest", func(t *testing.T) {
			RevocationEndpointTest(t, spec)
		})
	}
''','''	run("IntrospectionEndpointTest", spec.IntrospectionEndpoint != "", IntrospectionEndpointTest)
	run("RevocationEndpointTest", spec.RevocationEndpoint != "", RevocationEndpointTest)
'''),('''	if spec.ClientCredentialsGrantSupport {
		t.Run("ClientCredentialsGrantTest", func(t *testing.T) {
			ClientCredentialsGrantTest(t, spec)
		})
	}
''','''	run("ClientCredentialsGrantTest", spec.ClientCredentialsGrantSupport, ClientCredentialsGrantTest)
''')))
ref('st-validate',sub(ST,'func Run(',('''	// validate spec
	must(spec.Handler != nil, "setting Handler is required")
''','''	// validate spec
	validate(spec)
	must(spec.Handler != nil, "setting Handler is required")
'''),('''	must(spec.InvalidScope != "", "setting InvalidScope is required")
	must(spec.ValidScope != "", "setting ValidScope is required")
	must(spec.ExceedingScope != "", "setting ExceedingScope is required")
''','')),add(ST,'''
func validate(spec *Spec) {
	for name, value := range map[string]string{
		"InvalidScope":   spec.InvalidScope,
		"ValidScope":     spec.ValidScope,
		"ExceedingScope": spec.ExceedingScope,
	} {
		must(value != "", "setting "+name+" is required")
	}
}
'''))
ref('st-do-build',fn(RQ,'func Do(','''func Do(handler http.Handler, req *Request) {
	r := build(req)
	rec := httptest.NewRecorder()
	handler.ServeHTTP(rec, r)
	req.Callback(rec, r)
}

func build(req *Request) *http.Request {
	r, err := http.NewRequest(req.Method, req.Path, nil)
	if err != nil {
		panic(err)
	}
	for name := range req.Header {
		r.Header.Set(name, req.Header[name])
	}
	if req.Username != "" {
		r.SetBasicAuth(req.Username, req.Password)
	}
	form := url.Values{}
	for k, v := range req.Form {
		form.Set(k, v)
	}
	r.PostForm = form
	return r
}
'''))
ref('st-do-values',sub(RQ,'func Do(',('''	r.PostForm = make(url.Values)

	// add params
	for k, v := range req.Form {
		r.PostForm.Set(k, v)
	}
''','''	r.PostForm = make(url.Values, len(req.Form))
	for k, v := range req.Form {
		r.PostForm[k] = []string{v}
	}
''')))
ref('st-must',fn(UT,'func must(','''func must(ok bool, msg string) {
	if ok {
		return
	}
	panic(msg)
}
'''))
ref('st-extend',fn(UT,'func extend(','''func extend(src, ext map[string]string) map[string]string {
	ret := make(map[string]string, len(src)+len(ext))
	for _, m := range []map[string]string{src, ext} {
		for k, v := range m {
			ret[k] = v
		}
	}
	return ret
}
'''))
TOK='''	// invalid client secret
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: spec.ConfidentialClientID,
		Password: "invalid",
		Form: map[string]string{
			"grant_type": "password",
			"username":   spec.ResourceOwnerUsername,
			"password":   spec.ResourceOwnerPassword,
			"scope":      spec.ValidScope,
		},
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
			assert.Equal(t, "invalid_client", jsonFieldString(r, "error"), debug(r))
		},
	})
'''
ref('st-error-case',(GR,TOK,'''	// invalid client secret
	expectTokenError(t, spec, "invalid", map[string]string{
		"grant_type": "password",
		"username":   spec.ResourceOwnerUsername,
		"password":   spec.ResourceOwnerPassword,
		"scope":      spec.ValidScope,
	}, http.StatusUnauthorized, "invalid_client")
'''),add(GR,'''
// expectTokenError sends a token request and expects the error.
func expectTokenError(t *testing.T, spec *Spec, secret string, form map[string]string, status int, code string) {
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: spec.ConfidentialClientID,
		Password: secret,
		Form:     form,
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, status, r.Code, debug(r))
			assert.Equal(t, code, jsonFieldString(r, "error"), debug(r))
		},
	})
}
'''))
PWCASES=body(GR,'	// invalid username\n','	var accessToken, refreshToken string\n')
ref('st-table',(GR,PWCASES,'''	cases := []struct {
		username, password, scope string
		status                    int
		code                      string
	}{
		{"invalid", spec.ResourceOwnerPassword, spec.ValidScope, http.StatusForbidden, "access_denied"},
		{spec.ResourceOwnerUsername, "invalid", spec.ValidScope, http.StatusForbidden, "access_denied"},
		{spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.InvalidScope, http.StatusBadRequest, "invalid_scope"},
		{spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ExceedingScope, http.StatusBadRequest, "invalid_scope"},
	}
	for _, c := range cases {
		Do(spec.Handler, &Request{
			Method:   "POST",
			Path:     spec.TokenEndpoint,
			Username: spec.ConfidentialClientID,
			Password: spec.ConfidentialClientSecret,
			Form: map[string]string{
				"grant_type": "password",
				"username":   c.username,
				"password":   c.password,
				"scope":      c.scope,
			},
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, c.status, r.Code, debug(r))
				assert.Equal(t, c.code, jsonFieldString(r, "error"), debug(r))
			},
		})
	}

	var accessToken, refreshToken string
'''))
ref('st-request-var',(GR,TOK,'''	// invalid client secret
	req := &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: spec.ConfidentialClientID,
		Password: "invalid",
	}
	req.Form = map[string]string{
		"grant_type": "password",
	}
	req.Form["username"] = spec.ResourceOwnerUsername
	req.Form["password"] = spec.ResourceOwnerPassword
	req.Form["scope"] = spec.ValidScope
	req.Callback = func(r *httptest.ResponseRecorder, rq *http.Request) {
		if !assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r)) {
			return
		}
		assert.Equal(t, "invalid_client", jsonFieldString(r, "error"), debug(r))
	}
	Do(spec.Handler, req)
'''))

ref('er-params-sort-slice',fn(E,'func (e *Error) Params(','''func (e *Error) Params() string {
	var params []string
	for k, v := range e.Map() {
		params = append(params, k+`="`+v+`"`)
	}
	sort.Slice(params, func(i, j int) bool { return params[i] < params[j] })
	return strings.Join(params, ", ")
}
'''))
