# Behaviour-preserving edits, ninth round: redundant checks, other idioms, regrouped code.
exec(open('/verif/tools/cases_ref4.py').read().split("WR='func WriteRedirect('")[0])
SV,SC,TK,BR,HS,ER,OA,CL,RV,IN,CO,AZ='server.go','scope.go','token.go','bearer.go','hs256.go','error.go','oauth2.go','client.go','revocation.go','introspection.go','code.go','authorization.go'
ref('gen-count',fn(HS,'func GenerateHS256Token(','''func GenerateHS256Token(secret []byte, length int) (*HS256Token, error) {
	key := make([]byte, length)
	n, err := io.ReadFull(randSource, key)
	if err != nil {
		return nil, err
	} else if n != length {
		return nil, io.ErrUnexpectedEOF
	}
	return HS256TokenFromKey(secret, key), nil
}
'''))
ref('gen-named',fn(HS,'func GenerateHS256Token(','''func GenerateHS256Token(secret []byte, length int) (token *HS256Token, err error) {
	key := make([]byte, length)
	if _, err = io.ReadFull(randSource, key); err == nil {
		token = HS256TokenFromKey(secret, key)
	}
	return
}
'''))
ref('must-shared',fn(HS,'func MustGenerateHS256Token(','''func MustGenerateHS256Token(secret []byte, length int) *HS256Token {
	return mustToken(GenerateHS256Token(secret, length))
}

func mustToken(token *HS256Token, err error) *HS256Token {
	if err == nil {
		return token
	}

	panic(err)
}
'''))
ref('gen-randkey',fn(HS,'func GenerateHS256Token(','''func GenerateHS256Token(secret []byte, length int) (*HS256Token, error) {
	key, err := randomKey(length)
	if err != nil {
		return nil, err
	}
	return HS256TokenFromKey(secret, key), nil
}

func randomKey(length int) (key []byte, err error) {
	key = make([]byte, length)
	_, err = io.ReadFull(randSource, key)
	return key, err
}
'''))
ref('cl-nested',fn(CL,'func (c *Client) Authenticate(','''func (c *Client) Authenticate(trq TokenRequest) (trs *TokenResponse, err error) {
	req, err := BuildTokenRequest(c.config.BaseURI+c.config.TokenEndpoint, trq)
	if err == nil {
		var res *http.Response
		res, err = c.client.Do(req)
		if err == nil {
			defer func() { _ = res.Body.Close() }()
			if res.StatusCode == http.StatusOK {
				trs, err = ParseTokenResponse(res, c.config.ResponseLimit)
			} else {
				err = ParseRequestError(res, c.config.ResponseLimit)
			}
		}
	}
	return trs, err
}
'''))
ref('cl-close-each',fn(CL,'func (c *Client) Revoke(','''func (c *Client) Revoke(rrq RevocationRequest) error {
	endpoint := c.config.BaseURI + c.config.RevocationEndpoint
	req, err := BuildRevocationRequest(endpoint, rrq)
	if err != nil {
		return err
	}
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	if res.StatusCode == http.StatusOK {
		return ignore(res.Body.Close())
	}
	err = ParseRequestError(res, c.config.ResponseLimit)
	_ = res.Body.Close()
	return err
}

func ignore(error) error {
	return nil
}
'''))
ref('cl-exchange',fn(CL,'func (c *Client) Introspect(','''func (c *Client) Introspect(irq IntrospectionRequest) (*IntrospectionResponse, error) {
	var irs *IntrospectionResponse
	req, err := BuildIntrospectionRequest(c.config.BaseURI+c.config.IntrospectionEndpoint, irq)
	if err != nil {
		return nil, err
	}
	err = c.exchange(req, func(res *http.Response) (err error) {
		irs, err = ParseIntrospectionResponse(res, c.config.ResponseLimit)
		return err
	})
	if err != nil {
		return nil, err
	}
	return irs, nil
}

func (c *Client) exchange(req *http.Request, parse func(*http.Response) error) error {
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()
	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}
	if parse == nil {
		return nil
	}
	return parse(res)
}
'''),fn(CL,'func (c *Client) Revoke(','''func (c *Client) Revoke(rrq RevocationRequest) error {
	req, err := BuildRevocationRequest(c.config.BaseURI+c.config.RevocationEndpoint, rrq)
	if err != nil {
		return err
	}
	return c.exchange(req, nil)
}
'''))
ref('parse-content-helper',fn(TK,'func ParseTokenResponse(','''func ParseTokenResponse(res *http.Response, limit int64) (*TokenResponse, error) {
	var trs TokenResponse
	if err := decodeReply(res, limit, &trs); err != nil {
		return nil, err
	}
	return &trs, nil
}

func decodeReply(res *http.Response, limit int64, dst interface{}) error {
	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return err
	}
	if err := requireJSON(res.Header); err != nil {
		return err
	}
	return json.Unmarshal(data, dst)
}

func requireJSON(h http.Header) error {
	switch contentType, _, err := mime.ParseMediaType(h.Get("Content-Type")); {
	case err != nil:
		return err
	case contentType != "application/json":
		return fmt.Errorf("unexpected content type: %q", contentType)
	default:
		return nil
	}
}
'''),fn(IN,'func ParseIntrospectionResponse(','''func ParseIntrospectionResponse(res *http.Response, limit int64) (*IntrospectionResponse, error) {
	irs := new(IntrospectionResponse)
	if err := decodeReply(res, limit, irs); err != nil {
		return nil, err
	}
	return irs, nil
}
'''))
ref('parse-type-first',fn(TK,'func ParseTokenResponse(','''func ParseTokenResponse(res *http.Response, limit int64) (*TokenResponse, error) {
	contentType, _, typeErr := mime.ParseMediaType(res.Header.Get("Content-Type"))
	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err == nil {
		err = typeErr
	}
	if err == nil && contentType != "application/json" {
		err = fmt.Errorf("unexpected content type: %q", contentType)
	}
	trs := &TokenResponse{}
	if err == nil {
		err = json.Unmarshal(data, trs)
	}
	if err != nil {
		return nil, err
	}
	return trs, nil
}
'''))
ref('build-helper-closure',fn(RV,'func BuildRevocationRequest(','''func BuildRevocationRequest(uri string, r RevocationRequest) (*http.Request, error) {
	req, err := http.NewRequest(http.MethodPost, uri, strings.NewReader(RevocationRequestValues(r).Encode()))
	if err == nil {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		if !(r.ClientID == "" && r.ClientSecret == "") {
			req.SetBasicAuth(r.ClientID, r.ClientSecret)
		}
		return req, nil
	}
	return nil, err
}
'''))
ref('build-parse-first',fn(IN,'func BuildIntrospectionRequest(','''func BuildIntrospectionRequest(uri string, r IntrospectionRequest) (*http.Request, error) {
	if _, err := url.Parse(uri); err != nil {
		return nil, err
	}
	req, err := http.NewRequest("POST", uri, strings.NewReader(IntrospectionRequestValues(r).Encode()))
	if err != nil {
		return nil, err
	}
	if len(r.ClientID)+len(r.ClientSecret) > 0 {
		req.SetBasicAuth(r.ClientID, r.ClientSecret)
	}
	req.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
	return req, nil
}
'''))
ref('hs-parse-nested',fn(HS,'func ParseHS256Token(','''func ParseHS256Token(secret []byte, str string) (*HS256Token, error) {
	s := strings.Split(str, ".")
	switch len(s) {
	case 2:
	default:
		return nil, errors.New("a token must have two segments separated by a dot")
	}
	token := new(HS256Token)
	var err error
	if token.Key, err = b64.DecodeString(s[0]); err != nil {
		return nil, errors.New("token key is not base64 encoded")
	}
	if token.Signature, err = b64.DecodeString(s[1]); err != nil {
		return nil, errors.New("token signature is not base64 encoded")
	}
	if token.Valid(secret) {
		return token, nil
	}
	return nil, errors.New("invalid token supplied")
}
'''))
ref('hs-parse-array',fn(HS,'func ParseHS256Token(','''func ParseHS256Token(secret []byte, str string) (*HS256Token, error) {
	s := strings.Split(str, ".")
	if len(s) != 2 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}
	var parts [2][]byte
	for i, name := range [...]string{"key", "signature"} {
		part, err := b64.DecodeString(s[i])
		if err != nil {
			return nil, errors.New("token " + name + " is not base64 encoded")
		}
		parts[i] = part
	}
	token := &HS256Token{Key: parts[0], Signature: parts[1]}
	if !token.Valid(secret) {
		return nil, errors.New("invalid token supplied")
	}
	return token, nil
}
'''))
ref('hs-valid-expect',fn(HS,'func (t *HS256Token) Valid(','''func (t *HS256Token) Valid(secret []byte) bool {
	expected := HS256TokenFromKey(secret, t.Key)
	return t.Equal(expected.Signature)
}
'''))
ref('bearer-prefix-const',fn(BR,'func ParseBearerToken(','''func ParseBearerToken(r *http.Request) (string, error) {
	const scheme = BearerAccessTokenType
	header := r.Header.Get("Authorization")
	switch {
	case header == "":
		return "", ProtectedResource()
	case len(header) <= len(scheme)+1,
		header[len(scheme)] != ' ',
		!strings.EqualFold(header[:len(scheme)], scheme):
		return "", InvalidRequest("malformed authorization header")
	}
	return header[len(scheme)+1:], nil
}
'''))
ref('bearer-space-index',fn(BR,'func ParseBearerToken(','''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	malformed := InvalidRequest("malformed authorization header")
	i := strings.IndexByte(h, ' ')
	if i < 0 || !strings.EqualFold(h[:i], BearerAccessTokenType) {
		return "", malformed
	}
	if token := h[i+1:]; token != "" {
		return token, nil
	}
	return "", malformed
}
'''))
E0='''	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
'''
ref('srv-client-authenticates',
 sub(SV,'func (s *Server) tokenEndpoint(',(E0,'''	client, found := s.Clients[req.ClientID]
	if !found || !client.authenticates(req.ClientSecret) {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''')),
 sub(SV,'func (s *Server) revocationEndpoint(',(E0,'''	client, found := s.Clients[req.ClientID]
	if !found || !client.authenticates(req.ClientSecret) {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''')),
 sub(SV,'func (s *Server) introspectionEndpoint(',(E0,'''	client, found := s.Clients[req.ClientID]
	if !found || !client.authenticates(req.ClientSecret) {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''')),
 add(SV,'''
func (e *ServerEntity) authenticates(secret string) bool {
	if e.Confidential {
		return e.Secret == secret
	}

	return true
}
'''))
ref('srv-goto-fail',sub(SV,'func (s *Server) handleAuthorizationCodeGrant(',('''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}

	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}

	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''','''	// validate code
	var problem string
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		problem = "expired authorization code"
	} else if storedAuthorizationCode.ClientID != rq.ClientID {
		problem = "invalid authorization code ownership"
	} else if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		problem = "changed redirect uri"
	}
	if problem != "" {
		_ = WriteError(w, InvalidGrant(problem))
		return
	}
''')))
ref('srv-replay-index',sub(SV,'func (s *Server) handleAuthorizationCodeGrant(',('''		// revoke all access tokens
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.AccessTokens, key)
			}
		}

		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.RefreshTokens, key)
			}
		}
''','''		// revoke all tokens
		signature := authorizationCode.SignatureString()
		for _, list := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens} {
			for key := range list {
				if list[key].Code != signature {
					continue
				}
				delete(list, key)
			}
		}
''')))
ref('srv-issue-local',sub(SV,'func (s *Server) issueTokens(',('''	// generate access token
	accessToken := s.Config.MustGenerate()

	// generate refresh token if requested
	var refreshToken *HS256Token
	if issueRefreshToken {
		refreshToken = s.Config.MustGenerate()
	}

	// prepare response
	r := NewBearerTokenResponse(accessToken.String(), int(s.Config.AccessTokenLifespan/time.Second))

	// set granted scope
	r.Scope = scope

	// set refresh token if available
	if refreshToken != nil {
		r.RefreshToken = refreshToken.String()
	}

	// save access token
	s.AccessTokens[accessToken.SignatureString()] = &ServerCredential{
		ClientID:  clientID,
		Username:  username,
		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),
		Scope:     scope,
		Code:      code,
	}

	// save refresh token if available
	if refreshToken != nil {
		s.RefreshTokens[refreshToken.SignatureString()] = &ServerCredential{
			ClientID:  clientID,
			Username:  username,
			ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),
			Scope:     scope,
			Code:      code,
		}
	}
''','''	// prepare saving
	save := func(store map[string]*ServerCredential, lifespan time.Duration) string {
		token := s.Config.MustGenerate()
		store[token.SignatureString()] = &ServerCredential{
			ClientID:  clientID,
			Username:  username,
			ExpiresAt: time.Now().Add(lifespan),
			Scope:     scope,
			Code:      code,
		}
		return token.String()
	}

	// issue access token
	r := NewBearerTokenResponse(save(s.AccessTokens, s.Config.AccessTokenLifespan), int(s.Config.AccessTokenLifespan.Seconds()))
	r.Scope = scope

	// issue refresh token if requested
	if issueRefreshToken {
		r.RefreshToken = save(s.RefreshTokens, s.Config.RefreshTokenLifespan)
	}
''')))
ref('srv-issue-truncate',sub(SV,'func (s *Server) issueTokens(',('int(s.Config.AccessTokenLifespan/time.Second)','int(s.Config.AccessTokenLifespan.Truncate(time.Second)/time.Second)')))
ref('srv-scope-guard',add(SV,'''
func (s *Server) allows(scope Scope) bool {
	return s.Config.AllowedScope.Includes(scope)
}

func (s *Server) knows(username, password string) bool {
	owner, found := s.Users[username]
	return found && owner.Secret == password
}
'''),sub(SV,'func (s *Server) handleImplicitGrant(',('!s.Config.AllowedScope.Includes(rq.Scope)','!s.allows(rq.Scope)'),('''	owner, found := s.Users[username]
	if !found || owner.Secret != password {''','''	if !s.knows(username, password) {''')),
 sub(SV,'func (s *Server) handleResourceOwnerPasswordCredentialsGrant(',('!s.Config.AllowedScope.Includes(rq.Scope)','!s.allows(rq.Scope)'),('''	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {''','''	if !s.knows(rq.Username, rq.Password) {''')))
ref('srv-intro-switch',sub(SV,'func (s *Server) introspectionEndpoint(',('''	// prepare response
	res := &IntrospectionResponse{}

	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response if not expired
		if !accessToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = accessToken.Scope
			res.ClientID = accessToken.ClientID
			res.Username = accessToken.Username
			res.TokenType = AccessToken
			res.ExpiresAt = accessToken.ExpiresAt.Unix()
		}
	}

	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response if not expired
		if !refreshToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = refreshToken.Scope
			res.ClientID = refreshToken.ClientID
			res.Username = refreshToken.Username
			res.TokenType = RefreshToken
			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
		}
	}
''','''	// prepare response
	res := new(IntrospectionResponse)

	// check both stores
	signature := token.SignatureString()
	lists := map[string]map[string]*ServerCredential{
		AccessToken:  s.AccessTokens,
		RefreshToken: s.RefreshTokens,
	}
	for _, tokenType := range []string{AccessToken, RefreshToken} {
		credential, found := lists[tokenType][signature]
		if !found {
			continue
		}
		if credential.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}
		if time.Now().After(credential.ExpiresAt) {
			continue
		}
		res = NewIntrospectionResponse(true, credential.Scope, credential.ClientID, credential.Username, tokenType)
		res.ExpiresAt = credential.ExpiresAt.Unix()
	}
''')))
ref('srv-revoke-found',sub(SV,'func (s *Server) revokeToken(',('''	// get token
	token, ok := list[signature]
	if !ok {
		return
	}

	// check client id
	if token.ClientID != clientID {
		return
	}

	// remove token
	delete(list, signature)''','''	// remove token of client
	if token := list[signature]; token != nil && token.ClientID == clientID {
		delete(list, signature)
	}''')))
ref('srv-path-base',sub(SV,'func (s *Server) ServeHTTP(',('''	// get path
	path := r.URL.Path

	// get last path segment
	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}

	// check path
	switch path {''','''	// check last path segment
	switch path := r.URL.Path; path[strings.LastIndex(path, "/")+1:] {''')))
ref('srv-lock-once',sub(SV,'func (s *Server) ServeHTTP(',('''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

''','''	// acquire mutex
	mutex := &s.Mutex
	mutex.Lock()
	defer mutex.Unlock()

''')))
ref('srv-authorize-closure',fn(SV,'func (s *Server) Authorize(','''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	err := s.check(r, required)
	if err != nil {
		_ = WriteBearerError(w, err)
	}

	return err == nil
}

func (s *Server) check(r *http.Request, required Scope) error {
	tk, err := ParseBearerToken(r)
	if err != nil {
		return err
	}

	token, err := ParseHS256Token(s.Config.Secret, tk)
	if err != nil {
		return InvalidToken("malformed token")
	}

	accessToken := s.AccessTokens[token.SignatureString()]
	switch {
	case accessToken == nil:
		return InvalidToken("unknown token")
	case accessToken.ExpiresAt.Before(time.Now()):
		return InvalidToken("expired token")
	case !accessToken.Scope.Includes(required):
		return InsufficientScope(required)
	}

	return nil
}
'''))
ref('wr-query-raw',sub(OA,'func WriteRedirect(',('''		// get current query
		q := redirectURI.Query()

		// add parameters
		for k, v := range params {
			q.Add(k, v)
		}
''','''		// get current query
		q := redirectURI.Query()

		// add parameters
		for k := range params {
			q[k] = append(q[k], params[k])
		}
''')))
ref('wr-status-helper',sub(OA,'func WriteRedirect(',('''	// set location
	w.Header().Add("Location", location)

	// prevent caching
	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")

	// prevent referrer leakage
	w.Header().Set("Referrer-Policy", "origin")

	// write redirect
	w.WriteHeader(http.StatusSeeOther)
''','''	// set headers
	for _, h := range [][2]string{
		{"Location", location},
		{"Cache-Control", "no-store"},
		{"Pragma", "no-cache"},
		{"Referrer-Policy", "origin"},
	} {
		w.Header().Set(h[0], h[1])
	}

	// write redirect
	w.WriteHeader(http.StatusSeeOther)
''')))
ref('er-params-join',fn(ER,'func (e *Error) Params() string','''func (e *Error) Params() string {
	m := e.Map()
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for i, k := range keys {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(k + `="` + m[k] + `"`)
	}
	return b.String()
}
'''))
ref('er-map-literal',fn(ER,'func (e *Error) Map() map[string]string','''func (e *Error) Map() map[string]string {
	m := map[string]string{
		"error":             e.Name,
		"error_description": e.Description,
		"state":             e.State,
		"error_uri":         e.URI,
		"realm":             e.Realm,
	}
	for k := range m {
		if m[k] == "" {
			delete(m, k)
		}
	}
	if !e.Scope.Empty() {
		m["scope"] = e.Scope.String()
	}
	return m
}
'''))
ref('wbe-early',fn(BR,'func WriteBearerError(','''func WriteBearerError(w http.ResponseWriter, err error) error {
	status := http.StatusInternalServerError
	if e, ok := err.(*Error); ok && e.Status != status {
		status = e.Status
		params := e.Params()
		if len(params) == 0 {
			params = `realm="OAuth2"`
		}
		w.Header().Set("WWW-Authenticate", "Bearer "+params)
	}
	w.WriteHeader(status)
	_, err = w.Write(nil)
	return err
}
'''))
ref('rq-scope-late',sub(TK,'func ParseTokenRequest(',('''	// get scope
	scope := ParseScope(r.PostForm.Get("scope"))

''',''),('		Scope:        scope,','		Scope:        ParseScope(r.PostForm.Get("scope")),')))
ref('rq-form-fn',fn(IN,'func ParseIntrospectionRequest(','''func ParseIntrospectionRequest(r *http.Request) (*IntrospectionRequest, error) {
	if r.Method != "POST" {
		return nil, InvalidRequest("invalid HTTP method")
	}
	if err := r.ParseForm(); err != nil {
		return nil, InvalidRequest("malformed query parameters or body form")
	}
	get := r.PostForm.Get
	req := IntrospectionRequest{Token: get("token"), TokenTypeHint: get("token_type_hint")}
	if req.Token == "" {
		return nil, InvalidRequest("missing token")
	}
	var ok bool
	req.ClientID, req.ClientSecret, ok = r.BasicAuth()
	if ok {
		return &req, nil
	}
	return nil, InvalidRequest("missing or invalid HTTP authorization header")
}
'''))
ref('rq-redirect-helper',sub(TK,'func ParseTokenRequest(',('''	redirectURIString, err := url.QueryUnescape(r.PostForm.Get("redirect_uri"))
	if err != nil {
		return nil, InvalidRequest("invalid redirect URI")
	}

	// validate redirect uri if present
	if redirectURIString != "" {
		_, err := url.ParseRequestURI(redirectURIString)
		if err != nil || strings.Contains(redirectURIString, "#") {
			return nil, InvalidRequest("invalid redirect URI")
		}
	}
''','''	redirectURIString, ok := redirectURI(r.PostForm)
	if !ok {
		return nil, InvalidRequest("invalid redirect URI")
	}
''')),add(TK,'''
func redirectURI(form url.Values) (string, bool) {
	uri, err := url.QueryUnescape(form.Get("redirect_uri"))
	if err != nil || uri == "" {
		return "", err == nil
	}

	_, err = url.ParseRequestURI(uri)

	return uri, err == nil && !strings.ContainsRune(uri, '#')
}
'''))
ref('tv-append',fn(TK,'func TokenRequestValues(','''func TokenRequestValues(r TokenRequest) url.Values {
	values := url.Values{}
	set := func(name, value string, present bool) {
		if present {
			values.Set(name, value)
		}
	}
	set("grant_type", r.GrantType, r.GrantType != "")
	set("scope", r.Scope.String(), len(r.Scope) > 0)
	set("username", r.Username, r.Username != "")
	set("password", r.Password, r.Password != "")
	set("refresh_token", r.RefreshToken, r.RefreshToken != "")
	set("redirect_uri", url.QueryEscape(r.RedirectURI), r.RedirectURI != "")
	set("code", r.Code, r.Code != "")
	return values
}
'''))
ref('known-switch-return',fn(OA,'func KnownGrantType(','''func KnownGrantType(str string) bool {
	return str == PasswordGrantType ||
		str == ClientCredentialsGrantType ||
		str == AuthorizationCodeGrantType ||
		str == RefreshTokenGrantType
}
'''),fn(OA,'func KnownTokenType(','''func KnownTokenType(str string) bool {
	for _, known := range []string{AccessToken, RefreshToken} {
		if known == str {
			return true
		}
	}

	return false
}
'''))
ref('suite-default',fn('oauth2test/spec.go','func Default(','''func Default(handler http.Handler) *Spec {
	const base = "/oauth2"
	spec := &Spec{ExpectedExpiresIn: 60 * 60}
	spec.Handler = handler
	spec.TokenEndpoint = base + "/token"
	spec.AuthorizeEndpoint = base + "/authorize"
	spec.RevocationEndpoint = base + "/revoke"
	spec.IntrospectionEndpoint = base + "/introspect"
	spec.ProtectedResource = "/api/protected"
	spec.InvalidToken, spec.InvalidRefreshToken = "invalid", "invalid"
	spec.InvalidRedirectURI = "http://invalid.com"

	return spec
}
'''))
C=[c for c in C if c]
