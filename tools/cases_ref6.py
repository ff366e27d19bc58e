# A further round of behaviour-preserving edits: every check must stay quiet.
exec(open('/verif/tools/cases_ref4.py').read().split("WR='func WriteRedirect('")[0])
AE='func (s *Server) authorizationEndpoint('
TE='func (s *Server) tokenEndpoint('
RE='func (s *Server) revocationEndpoint('
IE='func (s *Server) introspectionEndpoint('
CG='func (s *Server) handleAuthorizationCodeGrant('
RG='func (s *Server) handleRefreshTokenGrant('
IT='func (s *Server) issueTokens('
AU='func (s *Server) Authorize('
# --- server: one writer per request ---
ref('srv-result-type',
 fn(S,TE,'''func (s *Server) tokenEndpoint(w http.ResponseWriter, r *http.Request) {
	res, err := s.exchange(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	_ = WriteTokenResponse(w, res)
}

func (s *Server) exchange(r *http.Request) (*TokenResponse, error) {
	req, err := ParseTokenRequest(r)
	if err != nil {
		return nil, err
	}

	if !KnownGrantType(req.GrantType) {
		return nil, InvalidRequest("unknown grant type")
	}

	client, err := s.authenticate(req.ClientID, req.ClientSecret)
	if err != nil {
		return nil, err
	}

	switch req.GrantType {
	case PasswordGrantType:
		return s.passwordGrant(req)
	case ClientCredentialsGrantType:
		return s.clientGrant(client, req)
	case AuthorizationCodeGrantType:
		return s.codeGrant(req)
	}

	return s.refreshGrant(req)
}

func (s *Server) authenticate(id, secret string) (*ServerEntity, error) {
	client := s.Clients[id]
	if client == nil || client.Confidential && client.Secret != secret {
		return nil, InvalidClient("unknown client")
	}

	return client, nil
}
'''),
 fn(S,'func (s *Server) handleResourceOwnerPasswordCredentialsGrant(','''func (s *Server) passwordGrant(rq *TokenRequest) (*TokenResponse, error) {
	owner := s.Users[rq.Username]
	if owner == nil || owner.Secret != rq.Password {
		return nil, AccessDenied("")
	}

	if !s.Config.AllowedScope.Includes(rq.Scope) {
		return nil, InvalidScope("")
	}

	return s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, ""), nil
}
'''),
 fn(S,'func (s *Server) handleClientCredentialsGrant(','''func (s *Server) clientGrant(client *ServerEntity, rq *TokenRequest) (*TokenResponse, error) {
	switch {
	case !client.Confidential:
		return nil, InvalidClient("unknown client")
	case !s.Config.AllowedScope.Includes(rq.Scope):
		return nil, InvalidScope("")
	}

	return s.issueTokens(true, rq.Scope, rq.ClientID, "", ""), nil
}
'''),
 fn(S,CG,'''func (s *Server) codeGrant(rq *TokenRequest) (*TokenResponse, error) {
	authorizationCode, err := ParseHS256Token(s.Config.Secret, rq.Code)
	if err != nil {
		return nil, InvalidRequest(err.Error())
	}

	signature := authorizationCode.SignatureString()

	stored := s.AuthorizationCodes[signature]
	if stored == nil {
		return nil, InvalidGrant("unknown authorization code")
	}

	if stored.Used {
		for _, list := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens} {
			for key, token := range list {
				if token.Code == signature {
					delete(list, key)
				}
			}
		}

		return nil, InvalidGrant("unknown authorization code")
	}

	switch {
	case time.Now().After(stored.ExpiresAt):
		return nil, InvalidGrant("expired authorization code")
	case rq.ClientID != stored.ClientID:
		return nil, InvalidGrant("invalid authorization code ownership")
	case rq.RedirectURI != stored.RedirectURI:
		return nil, InvalidGrant("changed redirect uri")
	}

	stored.Used = true

	return s.issueTokens(true, stored.Scope, stored.ClientID, stored.Username, signature), nil
}
'''),
 fn(S,RG,'''func (s *Server) refreshGrant(rq *TokenRequest) (res *TokenResponse, err error) {
	refreshToken, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		return nil, InvalidRequest(err.Error())
	}

	signature := refreshToken.SignatureString()

	stored, found := s.RefreshTokens[signature]
	if !found {
		return nil, InvalidGrant("unknown refresh token")
	}

	if stored.ExpiresAt.Before(time.Now()) {
		return nil, InvalidGrant("expired refresh token")
	}

	if stored.ClientID != rq.ClientID {
		return nil, InvalidGrant("invalid refresh token ownership")
	}

	scope := stored.Scope
	if !rq.Scope.Empty() {
		scope = rq.Scope
	}

	if !stored.Scope.Includes(scope) {
		return nil, InvalidScope("scope exceeds the originally granted scope")
	}

	delete(s.RefreshTokens, signature)

	return s.issueTokens(true, scope, stored.ClientID, stored.Username, stored.Code), nil
}
'''))
# the endpoint as a function value that returns what is to be written
ref('srv-responder',
 fn(S,RE,'''func (s *Server) revocationEndpoint(w http.ResponseWriter, r *http.Request) {
	s.respond(w, func() error {
		// parse authorization request
		req, err := ParseRevocationRequest(r)
		if err != nil {
			return err
		}

		// check token type hint
		if req.TokenTypeHint != "" && !KnownTokenType(req.TokenTypeHint) {
			return UnsupportedTokenType("")
		}

		// get and authenticate client
		client, found := s.Clients[req.ClientID]
		if !found || (client.Confidential && client.Secret != req.ClientSecret) {
			return InvalidClient("unknown client")
		}

		// parse token
		token, err := ParseHS256Token(s.Config.Secret, req.Token)
		if err != nil {
			return InvalidRequest(err.Error())
		}

		// revoke access and refresh token
		for _, list := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens} {
			stored, found := list[token.SignatureString()]
			if !found {
				continue
			}
			if stored.ClientID != req.ClientID {
				return InvalidClient("wrong client")
			}
			s.revokeToken(req.ClientID, list, token.SignatureString())
		}

		return nil
	})
}

func (s *Server) respond(w http.ResponseWriter, fn func() error) {
	if err := fn(); err != nil {
		_ = WriteError(w, err)
		return
	}

	w.WriteHeader(http.StatusOK)
}
'''))
ref('srv-ctx-struct',
 fn(S,RG,'''func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest) {
	g := grant{server: s, request: rq}

	r, err := g.refresh()
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// write response
	_ = WriteTokenResponse(w, r)
}

type grant struct {
	server  *Server
	request *TokenRequest
	stored  *ServerCredential
	token   *HS256Token
}

func (g *grant) load() *Error {
	token, err := ParseHS256Token(g.server.Config.Secret, g.request.RefreshToken)
	if err != nil {
		return InvalidRequest(err.Error())
	}

	g.token = token

	stored, found := g.server.RefreshTokens[token.SignatureString()]
	if !found {
		return InvalidGrant("unknown refresh token")
	}

	g.stored = stored

	return nil
}

func (g *grant) refresh() (*TokenResponse, error) {
	if err := g.load(); err != nil {
		return nil, err
	}

	if g.stored.ExpiresAt.Before(time.Now()) {
		return nil, InvalidGrant("expired refresh token")
	}

	if g.stored.ClientID != g.request.ClientID {
		return nil, InvalidGrant("invalid refresh token ownership")
	}

	if g.request.Scope.Empty() {
		g.request.Scope = g.stored.Scope
	}

	if !g.stored.Scope.Includes(g.request.Scope) {
		return nil, InvalidScope("scope exceeds the originally granted scope")
	}

	r := g.server.issueTokens(true, g.request.Scope, g.request.ClientID, g.stored.Username, g.stored.Code)

	delete(g.server.RefreshTokens, g.token.SignatureString())

	return r, nil
}
'''))
ref('srv-cred-methods',
 sub(S,CG,('storedAuthorizationCode.ExpiresAt.Before(time.Now())','storedAuthorizationCode.expired(time.Now())'),('storedAuthorizationCode.ClientID != rq.ClientID','!storedAuthorizationCode.ownedBy(rq.ClientID)')),
 sub(S,RG,('storedRefreshToken.ExpiresAt.Before(time.Now())','storedRefreshToken.expired(time.Now())'),('storedRefreshToken.ClientID != rq.ClientID','!storedRefreshToken.ownedBy(rq.ClientID)')),
 sub(S,AU,('accessToken.ExpiresAt.Before(time.Now())','accessToken.expired(time.Now())')),
 add(S,'''
func (c *ServerCredential) expired(now time.Time) bool {
	return c.ExpiresAt.Before(now)
}

func (c *ServerCredential) ownedBy(clientID string) bool {
	return c != nil && c.ClientID == clientID
}
'''))
ref('srv-withlock',
 sub(S,'func (s *Server) ServeHTTP(',('''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

''',''),('func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {','''func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.synchronized(func() {
		s.serve(w, r)
	})
}

func (s *Server) synchronized(fn func()) {
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	fn()
}

func (s *Server) serve(w http.ResponseWriter, r *http.Request) {''')),
 sub(S,AU,('''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

''',''),('func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {','''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) (ok bool) {
	s.synchronized(func() {
		ok = s.authorize(w, r, required)
	})

	return ok
}

func (s *Server) authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {''')))
ref('srv-now',
 sub(S,CG,('''	// parse authorization code
''','''	now := time.Now()

	// parse authorization code
'''),('Before(time.Now())','Before(now)')))
ref('srv-endpoint-table',
 sub(S,'func (s *Server) ServeHTTP(',('''	switch path {
	case "authorize":
		s.authorizationEndpoint(w, r)
	case "token":
		s.tokenEndpoint(w, r)
	case "introspect":
		s.introspectionEndpoint(w, r)
	case "revoke":
		s.revocationEndpoint(w, r)
	default:
		http.NotFound(w, r)
	}''','''	for _, route := range []struct {
		name     string
		endpoint func(http.ResponseWriter, *http.Request)
	}{
		{"authorize", s.authorizationEndpoint},
		{"token", s.tokenEndpoint},
		{"introspect", s.introspectionEndpoint},
		{"revoke", s.revocationEndpoint},
	} {
		if route.name == path {
			route.endpoint(w, r)
			return
		}
	}

	http.NotFound(w, r)''')))
ref('srv-method-expr',
 sub(S,'func (s *Server) ServeHTTP(',('''	switch path {
	case "authorize":
		s.authorizationEndpoint(w, r)
	case "token":
		s.tokenEndpoint(w, r)
	case "introspect":
		s.introspectionEndpoint(w, r)
	case "revoke":
		s.revocationEndpoint(w, r)
	default:
		http.NotFound(w, r)
	}''','''	endpoint, known := endpoints[path]
	if !known {
		http.NotFound(w, r)
		return
	}

	endpoint(s, w, r)''')),
 add(S,'''
var endpoints = map[string]func(*Server, http.ResponseWriter, *http.Request){
	"authorize":  (*Server).authorizationEndpoint,
	"token":      (*Server).tokenEndpoint,
	"introspect": (*Server).introspectionEndpoint,
	"revoke":     (*Server).revocationEndpoint,
}
'''))
ref('srv-issue-parts',
 fn(S,IT,'''func (s *Server) issueTokens(issueRefreshToken bool, scope Scope, clientID, username, code string) *TokenResponse {
	credential := ServerCredential{
		ClientID: clientID,
		Username: username,
		Scope:    scope,
		Code:     code,
	}

	// prepare response
	r := NewBearerTokenResponse(s.issue(s.AccessTokens, credential, s.Config.AccessTokenLifespan), int(s.Config.AccessTokenLifespan/time.Second))
	r.Scope = scope

	if issueRefreshToken {
		r.RefreshToken = s.issue(s.RefreshTokens, credential, s.Config.RefreshTokenLifespan)
	}

	return r
}

func (s *Server) issue(list map[string]*ServerCredential, credential ServerCredential, lifespan time.Duration) string {
	token := s.Config.MustGenerate()

	credential.ExpiresAt = time.Now().Add(lifespan)
	list[token.SignatureString()] = &credential

	return token.String()
}
'''))
ref('srv-code-issue',
 sub(S,'func (s *Server) handleAuthorizationCodeGrantAuthorization(',('''	s.AuthorizationCodes[authorizationCode.SignatureString()] = &ServerCredential{
		ClientID:    rq.ClientID,
		Username:    username,
		ExpiresAt:   time.Now().Add(s.Config.AuthorizationCodeLifespan),
		Scope:       rq.Scope,
		RedirectURI: rq.RedirectURI,
	}
''','''	credential := new(ServerCredential)
	credential.ClientID = rq.ClientID
	credential.Username = username
	credential.Scope = rq.Scope
	credential.RedirectURI = rq.RedirectURI
	credential.ExpiresAt = time.Now().Add(s.Config.AuthorizationCodeLifespan)
	s.AuthorizationCodes[authorizationCode.SignatureString()] = credential
''')))
ref('srv-intro-type-loop',
 fn(S,IE,'''func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
	// parse authorization request
	req, err := ParseIntrospectionRequest(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// check token type hint
	if req.TokenTypeHint != "" && !KnownTokenType(req.TokenTypeHint) {
		_ = WriteError(w, UnsupportedTokenType(""))
		return
	}

	// get client
	client, found := s.Clients[req.ClientID]
	if !found || client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// find credential
	typ := AccessToken
	credential, found := s.AccessTokens[token.SignatureString()]
	if !found {
		typ = RefreshToken
		credential, found = s.RefreshTokens[token.SignatureString()]
	}

	// check owner
	if found && credential.ClientID != req.ClientID {
		_ = WriteError(w, InvalidClient("wrong client"))
		return
	}

	// prepare response
	res := &IntrospectionResponse{}
	if found && !credential.ExpiresAt.Before(time.Now()) {
		res = NewIntrospectionResponse(true, credential.Scope, credential.ClientID, credential.Username, typ)
		res.ExpiresAt = credential.ExpiresAt.Unix()
	}

	// write response
	_ = WriteIntrospectionResponse(w, res)
}
'''))
ref('srv-authz-funcs',
 sub(S,AE,('''	// triage based on response type
	switch req.ResponseType {
	case TokenResponseType:
		s.handleImplicitGrant(w, username, password, req)
	case CodeResponseType:
		s.handleAuthorizationCodeGrantAuthorization(w, username, password, req)
	}''','''	// triage based on response type
	handle := s.handleAuthorizationCodeGrantAuthorization
	if req.ResponseType == TokenResponseType {
		handle = s.handleImplicitGrant
	}

	handle(w, username, password, req)''')))
ref('srv-notice',
 sub(S,AE,('''	if r.Method == "GET" {
		_, _ = w.Write([]byte("This authentication server does not provide an authorization form.\\n" +
			"Please submit the resource owners username and password in a POST request."))
		return
	}
''','''	if r.Method != http.MethodPost {
		writeNotice(w)
		return
	}
''') if '"GET"' in body(S,AE) else ('','')),
 add(S,'''
const notice = "This authentication server does not provide an authorization form.\\n" +
	"Please submit the resource owners username and password in a POST request."

func writeNotice(w http.ResponseWriter) {
	_, _ = io.WriteString(w, notice)
}
'''))
ref('srv-user-check',
 sub(S,'func (s *Server) handleImplicitGrant(',('''	owner, found := s.Users[username]
	if !found || owner.Secret != password {''','''	if !s.validUser(username, password) {''')),
 sub(S,'func (s *Server) handleAuthorizationCodeGrantAuthorization(',('''	owner, found := s.Users[username]
	if !found || owner.Secret != password {''','''	if !s.validUser(username, password) {''')),
 sub(S,'func (s *Server) handleResourceOwnerPasswordCredentialsGrant(',('''	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {''','''	if !s.validUser(rq.Username, rq.Password) {''')),
 add(S,'''
func (s *Server) validUser(username, password string) bool {
	if owner, found := s.Users[username]; found {
		return owner.Secret == password
	}

	return false
}
'''))
ref('srv-scope-check',
 sub(S,'func (s *Server) handleImplicitGrant(',('''	if !s.Config.AllowedScope.Includes(rq.Scope) {''','''	if !s.allowed(rq.Scope) {''')),
 sub(S,'func (s *Server) handleClientCredentialsGrant(',('''	if !s.Config.AllowedScope.Includes(rq.Scope) {''','''	if !s.allowed(rq.Scope) {''')),
 add(S,'''
func (s *Server) allowed(scope Scope) bool {
	for _, name := range scope {
		if !s.Config.AllowedScope.Contains(name) {
			return false
		}
	}

	return true
}
'''))
ref('srv-authz-order',
 sub(S,'func (s *Server) handleImplicitGrant(',('''	// issue tokens
	r := s.issueTokens(false, rq.Scope, rq.ClientID, username, "")

	// redirect token
	r.SetRedirect(rq.RedirectURI, rq.State)

	// write response
	_ = WriteTokenResponse(w, r)''','''	// issue token and redirect
	_ = WriteTokenResponse(w, s.issueTokens(false, rq.Scope, rq.ClientID, username, "").SetRedirect(rq.RedirectURI, rq.State))''')))
ref('srv-authorize-switch',
 fn(S,AU,'''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {
	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	err := s.check(r, required)
	if err == nil {
		return true
	}

	_ = WriteBearerError(w, err)

	return false
}

func (s *Server) check(r *http.Request, required Scope) error {
	tk, err := ParseBearerToken(r)
	if err != nil {
		return err
	}

	token, err := ParseHS256Token(s.Config.Secret, tk)
	if err != nil {
		return InvalidToken("malformed token")
	}

	switch accessToken, found := s.AccessTokens[token.SignatureString()]; {
	case !found:
		return InvalidToken("unknown token")
	case accessToken.ExpiresAt.Before(time.Now()):
		return InvalidToken("expired token")
	case !accessToken.Scope.Includes(required):
		return InsufficientScope(required)
	}

	return nil
}
'''))
ref('srv-revoke-first',
 sub(S,RE,('''	// write header
	w.WriteHeader(http.StatusOK)''','''	// finish response
	defer w.WriteHeader(http.StatusOK)''')))
ref('srv-code-closure',
 sub(S,CG,('''	// parse authorization code
''','''	fail := func(err error) {
		_ = WriteError(w, err)
	}

	// parse authorization code
'''),('''		_ = WriteError(w, InvalidRequest(err.Error()))''','''		fail(InvalidRequest(err.Error()))'''),('''		_ = WriteError(w, InvalidGrant("changed redirect uri"))''','''		fail(InvalidGrant("changed redirect uri"))'''),('''		_ = WriteError(w, InvalidGrant("expired authorization code"))''','''		fail(InvalidGrant("expired authorization code"))''')))
ref('srv-replay-revoker',
 sub(S,CG,('''		// revoke all access tokens
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.AccessTokens, key)
			}
		}

		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.RefreshTokens, key)
			}
		}
''','''		// revoke all descendants
		revokeDescendants(authorizationCode.SignatureString(), s.AccessTokens, s.RefreshTokens)
''')),
 add(S,'''
func revokeDescendants(code string, lists ...map[string]*ServerCredential) {
	for i := range lists {
		for signature, credential := range lists[i] {
			if credential.Code != code {
				continue
			}

			delete(lists[i], signature)
		}
	}
}
'''))
# --- parsers ---
ref('rq-named',
 sub(R,'func ParseRevocationRequest(',('func ParseRevocationRequest(r *http.Request) (*RevocationRequest, error) {','func ParseRevocationRequest(r *http.Request) (req *RevocationRequest, err error) {'),('	err := r.ParseForm()','	err = r.ParseForm()')))
ref('rq-client-form',
 sub(R,'func ParseRevocationRequest(',('''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		return nil, InvalidRequest("missing or invalid HTTP authorization header")
	}
''','''	clientID, clientSecret, err := basicCredentials(r)
	if err != nil {
		return nil, err
	}
''')),
 sub(I,'func ParseIntrospectionRequest(',('''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		return nil, InvalidRequest("missing or invalid HTTP authorization header")
	}
''','''	clientID, clientSecret, err := basicCredentials(r)
	if err != nil {
		return nil, err
	}
''')),
 add(R,'''
func basicCredentials(r *http.Request) (string, string, error) {
	id, secret, ok := r.BasicAuth()
	if !ok {
		return "", "", InvalidRequest("missing or invalid HTTP authorization header")
	}

	return id, secret, nil
}
'''))
ref('rq-token-body',
 sub(T,'func ParseTokenRequest(',('''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		clientID = r.PostForm.Get("client_id")
		clientSecret = r.PostForm.Get("client_secret")
	}
''','''	clientID, clientSecret := r.PostForm.Get("client_id"), r.PostForm.Get("client_secret")
	if id, secret, ok := r.BasicAuth(); ok {
		clientID, clientSecret = id, secret
	}
''')))
ref('rq-post-guard',
 sub(T,'func ParseTokenRequest(',('''	if r.Method != "POST" {
		return nil, InvalidRequest("invalid HTTP method")
	}

	// parse query params and body params to form
	err := r.ParseForm()
	if err != nil {
		return nil, InvalidRequest("malformed query parameters or body form")
	}
''','''	err := parsePost(r)
	if err != nil {
		return nil, err
	}
''') if '// parse query params and body params to form' in body(T,'func ParseTokenRequest(') else ('	err := r.ParseForm()\n','	err := r.ParseForm()\n')),
 add(T,'''
func parsePost(r *http.Request) error {
	if r.Method != http.MethodPost {
		return InvalidRequest("invalid HTTP method")
	}

	if r.ParseForm() != nil {
		return InvalidRequest("malformed query parameters or body form")
	}

	return nil
}

var _ = parsePost
'''))
ref('rq-authz-form',
 sub(A,'func ParseAuthorizationRequest(',('''	state := r.Form.Get("state")''','''	form := r.Form
	state := form.Get("state")'''),('r.Form.Get("response_type")','form.Get("response_type")'),('r.Form.Get("scope")','form.Get("scope")'),('r.Form.Get("client_id")','form.Get("client_id")'),('r.Form.Get("redirect_uri")','form.Get("redirect_uri")')))
ref('rq-authz-assign',
 sub(A,'func ParseAuthorizationRequest(',('''	return &AuthorizationRequest{
		ResponseType: responseType,
		Scope:        scope,
		ClientID:     clientID,
		RedirectURI:  redirectURIString,
		State:        state,
	}, nil''','''	var req AuthorizationRequest
	req.ResponseType = responseType
	req.Scope = scope
	req.ClientID = clientID
	req.RedirectURI = redirectURIString
	req.State = state

	return &req, nil''')))
ref('rq-uri-valid',
 sub(A,'func ParseAuthorizationRequest(',('''	_, err = url.ParseRequestURI(redirectURIString)
	if err != nil || strings.Contains(redirectURIString, "#") {''','''	if !validRedirectURI(redirectURIString) {''')),
 sub(T,'func ParseTokenRequest(',('''		_, err := url.ParseRequestURI(redirectURIString)
		if err != nil || strings.Contains(redirectURIString, "#") {''','''		if !validRedirectURI(redirectURIString) {''')),
 add(A,'''
func validRedirectURI(str string) bool {
	if strings.IndexByte(str, '#') >= 0 {
		return false
	}

	_, err := url.ParseRequestURI(str)

	return err == nil
}
'''))
# --- values ---
ref('tv-make',
 fn(T,'func TokenRequestValues(','''func TokenRequestValues(r TokenRequest) url.Values {
	values := make(url.Values)

	set := func(name, value string) {
		if value != "" {
			values.Set(name, value)
		}
	}

	set("grant_type", r.GrantType)
	if !r.Scope.Empty() {
		values.Set("scope", r.Scope.String())
	}
	set("username", r.Username)
	set("password", r.Password)
	set("refresh_token", r.RefreshToken)
	set("redirect_uri", url.QueryEscape(r.RedirectURI))
	set("code", r.Code)

	return values
}
'''))
ref('tv-hint',
 fn(I,'func IntrospectionRequestValues(','''func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
	return RevocationRequestValues(RevocationRequest(r))
}
'''))
ref('tv-literal',
 fn(R,'func RevocationRequestValues(','''func RevocationRequestValues(r RevocationRequest) url.Values {
	values := url.Values{
		"token":           {r.Token},
		"token_type_hint": {r.TokenTypeHint},
	}

	if r.Token == "" {
		values.Del("token")
	}

	if r.TokenTypeHint == "" {
		delete(values, "token_type_hint")
	}

	return values
}
'''))
ref('build-shared',
 fn(R,'func BuildRevocationRequest(','''func BuildRevocationRequest(uri string, r RevocationRequest) (*http.Request, error) {
	return buildRequest(uri, r.ClientID, r.ClientSecret, RevocationRequestValues(r))
}

func buildRequest(uri, id, secret string, form url.Values) (*http.Request, error) {
	req, err := http.NewRequest(http.MethodPost, uri, strings.NewReader(form.Encode()))
	if err != nil {
		return nil, err
	}

	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")

	if id == "" && secret == "" {
		return req, nil
	}

	req.SetBasicAuth(id, secret)

	return req, nil
}
'''),
 fn(I,'func BuildIntrospectionRequest(','''func BuildIntrospectionRequest(uri string, r IntrospectionRequest) (*http.Request, error) {
	return buildRequest(uri, r.ClientID, r.ClientSecret, IntrospectionRequestValues(r))
}
'''),
 fn(T,'func BuildTokenRequest(','''func BuildTokenRequest(uri string, r TokenRequest) (*http.Request, error) {
	return buildRequest(uri, r.ClientID, r.ClientSecret, TokenRequestValues(r))
}
'''))
# --- responses ---
ref('parse-shared',
 fn(T,'func ParseTokenResponse(','''func ParseTokenResponse(res *http.Response, limit int64) (*TokenResponse, error) {
	trs := new(TokenResponse)
	if err := decodeResponse(res, limit, trs); err != nil {
		return nil, err
	}

	return trs, nil
}

func decodeResponse(res *http.Response, limit int64, target interface{}) error {
	data, err := io.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return err
	}

	contentType, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	switch {
	case err != nil:
		return err
	case contentType != "application/json":
		return fmt.Errorf("unexpected content type: %q", contentType)
	}

	return json.Unmarshal(data, target)
}
'''),
 fn(I,'func ParseIntrospectionResponse(','''func ParseIntrospectionResponse(res *http.Response, limit int64) (*IntrospectionResponse, error) {
	irs := &IntrospectionResponse{}
	err := decodeResponse(res, limit, irs)
	if err != nil {
		irs = nil
	}

	return irs, err
}
'''))
ref('client-once',
 fn(CL,'func (c *Client) Authenticate(','''func (c *Client) Authenticate(trq TokenRequest) (*TokenResponse, error) {
	// prepare request
	req, err := BuildTokenRequest(c.config.BaseURI+c.config.TokenEndpoint, trq)
	if err != nil {
		return nil, err
	}

	// perform request
	res, err := c.perform(req)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()

	return ParseTokenResponse(res, c.config.ResponseLimit)
}

// perform returns successful replies only, whose body the caller closes.
func (c *Client) perform(req *http.Request) (*http.Response, error) {
	res, err := c.client.Do(req)
	if err != nil {
		return nil, err
	}

	if res.StatusCode == http.StatusOK {
		return res, nil
	}

	defer res.Body.Close()

	return nil, ParseRequestError(res, c.config.ResponseLimit)
}
'''),
 fn(CL,'func (c *Client) Revoke(','''func (c *Client) Revoke(rrq RevocationRequest) error {
	req, err := BuildRevocationRequest(c.config.BaseURI+c.config.RevocationEndpoint, rrq)
	if err != nil {
		return err
	}

	res, err := c.perform(req)
	if err != nil {
		return err
	}

	return closeQuietly(res.Body)
}

func closeQuietly(c io.Closer) error {
	_ = c.Close()

	return nil
}
'''))
ref('client-callback',
 fn(CL,'func (c *Client) Introspect(','''func (c *Client) Introspect(irq IntrospectionRequest) (irs *IntrospectionResponse, err error) {
	req, err := BuildIntrospectionRequest(c.config.BaseURI+c.config.IntrospectionEndpoint, irq)
	if err != nil {
		return nil, err
	}

	err = c.with(req, func(res *http.Response) (err error) {
		irs, err = ParseIntrospectionResponse(res, c.config.ResponseLimit)
		return err
	})
	if err != nil {
		return nil, err
	}

	return irs, nil
}

func (c *Client) with(req *http.Request, fn func(*http.Response) error) error {
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	defer func() {
		_ = res.Body.Close()
	}()

	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}

	return fn(res)
}
'''))
ref('err-constructor',
 add(E,'''
func newError(status int, name, description string) *Error {
	return &Error{Status: status, Name: name, Description: description}
}
'''),
 fn(E,'func InvalidGrant(','''func InvalidGrant(description string) *Error {
	return newError(http.StatusBadRequest, "invalid_grant", description)
}
'''),
 fn(E,'func InvalidClient(','''func InvalidClient(description string) *Error {
	err := newError(http.StatusUnauthorized, "invalid_client", description)
	err.Headers = map[string]string{}
	err.Headers["WWW-Authenticate"] = `Basic realm="OAuth2"`

	return err
}
'''))
ref('err-params',
 fn(E,'func (e *Error) Params(','''func (e *Error) Params() string {
	// collect and sort names
	fields := e.Map()
	names := make([]string, 0, len(fields))
	for name := range fields {
		names = append(names, name)
	}
	sort.Strings(names)

	// build params
	var builder strings.Builder
	for i, name := range names {
		if i > 0 {
			builder.WriteString(", ")
		}
		builder.WriteString(name + `="` + fields[name] + `"`)
	}

	return builder.String()
}
'''))
ref('err-write-early',
 fn(E,'func WriteError(','''func WriteError(w http.ResponseWriter, err error) error {
	// anything else is an internal error
	anError, ok := err.(*Error)
	if !ok {
		return WriteError(w, ServerError(""))
	}

	// add headers
	header := w.Header()
	for name := range anError.Headers {
		header.Set(name, anError.Headers[name])
	}

	// write directly
	if anError.RedirectURI == "" {
		return Write(w, anError, anError.Status)
	}

	return WriteRedirect(w, anError.RedirectURI, anError.Map(), anError.UseFragment)
}
'''))
ref('err-map-fields',
 fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := map[string]string{
		"error":             e.Name,
		"error_description": e.Description,
		"state":             e.State,
		"scope":             e.Scope.String(),
		"error_uri":         e.URI,
		"realm":             e.Realm,
	}

	for name, value := range m {
		if value == "" {
			delete(m, name)
		}
	}

	if len(e.Scope) > 0 {
		m["scope"] = e.Scope.String()
	}

	return m
}
'''))
ref('bearer-fail',
 sub(B,'func ParseBearerToken(',('''	// check length
''','''	// check header
''')) if '// check length' in body(B,'func ParseBearerToken(') else add(B,'\n// done\n'))
ref('bearer-const',
 fn(B,'func ParseBearerToken(','''func ParseBearerToken(r *http.Request) (string, error) {
	const prefix = len(BearerAccessTokenType) + 1

	// read header
	h := r.Header.Get("Authorization")

	switch {
	case h == "":
		return "", ProtectedResource()
	case len(h) <= prefix, !strings.EqualFold(h[:prefix-1], BearerAccessTokenType), h[prefix-1] != ' ':
		return "", InvalidRequest("malformed authorization header")
	}

	return h[prefix:], nil
}
'''))
ref('hs-one-shot',
 fn(H,'func HS256TokenFromKey(','''func HS256TokenFromKey(secret []byte, key []byte) *HS256Token {
	return &HS256Token{Key: key, Signature: sign(secret, key)}
}

func sign(secret, key []byte) []byte {
	mac := hmac.New(sha256.New, secret)
	mac.Write(key)

	return mac.Sum(nil)
}
'''))
ref('hs-parse-split',
 fn(H,'func ParseHS256Token(','''func ParseHS256Token(secret []byte, str string) (*HS256Token, error) {
	token, err := decodeHS256Token(str)
	if err != nil {
		return nil, err
	}

	if token.Valid(secret) {
		return token, nil
	}

	return nil, errors.New("invalid token supplied")
}

func decodeHS256Token(str string) (*HS256Token, error) {
	segments := strings.Split(str, ".")
	if len(segments) != 2 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}

	var decoded [2][]byte
	for i, segment := range segments {
		data, err := b64.DecodeString(segment)
		if err != nil {
			return nil, errors.New("token is not base64 encoded")
		}
		decoded[i] = data
	}

	return &HS256Token{Key: decoded[0], Signature: decoded[1]}, nil
}
'''))
ref('sc-set-contains',
 fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	missing := 0
	for _, name := range scope {
		if !s.Contains(name) {
			missing++
		}
	}

	return missing == 0
}
'''))
ref('sc-parse-append',
 fn(SC,'func ParseScope(','''func ParseScope(str string) Scope {
	scope := Scope(nil)

	for _, item := range strings.Split(str, " ") {
		if item = strings.TrimSpace(item); len(item) > 0 {
			scope = append(scope, item)
		}
	}

	return scope
}
'''))
