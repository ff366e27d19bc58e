S='server.go'
AUTHFAIL='''	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// prepare response
'''
TOK='''	// find client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
'''
SW='''	switch path {
	case "authorize":
		s.authorizationEndpoint(w, r)
	case "token":
		s.tokenEndpoint(w, r)
	case "introspect":
		s.introspectionEndpoint(w, r)
	case "revoke":
		s.revocationEndpoint(w, r)
	default:
		http.NotFound(w, r)
	}'''
REPLAY='''		// revoke all access tokens
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.AccessTokens, key)
			}
		}

		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.RefreshTokens, key)
			}
		}
'''
SEG='''	// get path
	path := r.URL.Path

	// get last path segment
	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}
'''
C=[
('auth-helper-bool','ref',[(S,TOK,'''	// authenticate client
	if !s.authenticate(req.ClientID, req.ClientSecret) {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
'''),(S,None,'''
func (s *Server) authenticate(id, secret string) bool {
	client, found := s.Clients[id]
	return found && (!client.Confidential || client.Secret == secret)
}
''')],None),
('auth-helper-err','ref',[(S,AUTHFAIL,'''	token, err := s.prepare(req.ClientID, req.ClientSecret, req.Token)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// prepare response
'''),(S,None,'''
func (s *Server) prepare(id, secret, tk string) (*HS256Token, error) {
	client, found := s.Clients[id]
	if !found {
		return nil, InvalidClient("unknown client")
	}
	if client.Confidential && client.Secret != secret {
		return nil, InvalidClient("unknown client")
	}
	token, err := ParseHS256Token(s.Config.Secret, tk)
	if err != nil {
		return nil, InvalidRequest(err.Error())
	}
	return token, nil
}
''')],None),
('auth-switch','ref',[(S,TOK,'''	// authenticate client
	client, found := s.Clients[req.ClientID]
	switch {
	case !found, client.Confidential && client.Secret != req.ClientSecret:
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''')],None),
('auth-nil','ref',[(S,TOK,'''	// authenticate client
	client := s.Clients[req.ClientID]
	if client == nil {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
	if client.Confidential {
		if req.ClientSecret != client.Secret {
			_ = WriteError(w, InvalidClient("unknown client"))
			return
		}
	}
''')],None),
('auth-const-time','ref',[(S,TOK,'''	// authenticate client
	client, found := s.Clients[req.ClientID]
	if !found || client.Confidential && subtle.ConstantTimeCompare([]byte(client.Secret), []byte(req.ClientSecret)) != 1 {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''')],None),
('auth-wrap-writer','ref',[(S,TOK,'''	// authenticate client
	if _, ok := s.client(w, req.ClientID, req.ClientSecret); !ok {
		return
	}
'''),(S,None,'''
func (s *Server) client(w http.ResponseWriter, id, secret string) (*ServerEntity, bool) {
	client, found := s.Clients[id]
	if found && client.Confidential {
		found = client.Secret == secret
	}
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return nil, false
	}
	return client, true
}
''')],None),
('serve-ifelse','ref',[(S,SW,'''	if path == "authorize" {
		s.authorizationEndpoint(w, r)
	} else if path == "token" {
		s.tokenEndpoint(w, r)
	} else if path == "introspect" {
		s.introspectionEndpoint(w, r)
	} else if path == "revoke" {
		s.revocationEndpoint(w, r)
	} else {
		http.NotFound(w, r)
	}''')],None),
('serve-map','ref',[(S,SW,'''	handlers := map[string]func(http.ResponseWriter, *http.Request){
		"authorize":  s.authorizationEndpoint,
		"token":      s.tokenEndpoint,
		"introspect": s.introspectionEndpoint,
		"revoke":     s.revocationEndpoint,
	}
	handler, ok := handlers[path]
	if !ok {
		http.NotFound(w, r)
		return
	}
	handler(w, r)''')],None),
('serve-return-handler','ref',[(S,SW,'''	s.route(path)(w, r)'''),(S,None,'''
func (s *Server) route(name string) http.HandlerFunc {
	switch name {
	case "authorize":
		return s.authorizationEndpoint
	case "token":
		return s.tokenEndpoint
	case "introspect":
		return s.introspectionEndpoint
	case "revoke":
		return s.revocationEndpoint
	}
	return http.NotFound
}
''')],None),
('seg-direct','ref',[(S,SEG,'''	path := r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:]
''')],None),
('seg-lastindex','ref',[(S,SEG,'''	path := lastSegment(r.URL.Path)
'''),(S,None,'''
func lastSegment(path string) string {
	if idx := strings.LastIndex(path, "/"); idx != -1 {
		return path[idx+1:]
	}
	return path
}
''')],None),
('seg-split','ref',[(S,SEG,'''	segments := strings.Split(r.URL.Path, "/")
	path := segments[len(segments)-1]
''')],None),
('seg-pathsplit','ref',[(S,SEG,'''	_, path := pathpkg.Split(r.URL.Path)
'''),(S,'''import (
''','''import (
	pathpkg "path"
''')],None),
('seg-loop','ref',[(S,SEG,'''	path := r.URL.Path
	for i := len(path) - 1; i >= 0; i-- {
		if path[i] == '/' {
			path = path[i+1:]
			break
		}
	}
''')],None),
('lock-closure','ref',[(S,'''func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()
''','''func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	// acquire mutex
	s.Mutex.Lock()
	defer func() {
		s.Mutex.Unlock()
	}()
''')],None),
('lock-helper','ref',[(S,'''func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()
''','''func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	// acquire mutex
	defer s.lock()()
'''),(S,None,'''
func (s *Server) lock() func() {
	s.Mutex.Lock()
	return s.Mutex.Unlock
}
''')],None),
('lock-inner','ref',[(S,'''func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()
''','''func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	s.serve(w, r)
}

func (s *Server) serve(w http.ResponseWriter, r *http.Request) {
''')],None),
('lock-ptr','ref',[(S,'''required Scope) bool {
	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()
''','''required Scope) bool {
	// acquire mutex
	mu := &s.Mutex
	mu.Lock()
	defer mu.Unlock()
''')],None),
('authorize-split','ref',[(S,'''	// parse bearer token
	tk, err := ParseBearerToken(r)
	if err != nil {
		_ = WriteBearerError(w, err)
		return false
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, tk)
	if err != nil {
		_ = WriteBearerError(w, InvalidToken("malformed token"))
		return false
	}

	// get token
	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		_ = WriteBearerError(w, InvalidToken("unknown token"))
		return false
	}

	// validate expiration
	if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false
	}

	// validate scope
	if !accessToken.Scope.Includes(required) {
		_ = WriteBearerError(w, InsufficientScope(required))
		return false
	}

	return true
''','''	err := s.check(r, required)
	if err != nil {
		_ = WriteBearerError(w, err)
	}

	return err == nil
'''),(S,None,'''
func (s *Server) check(r *http.Request, required Scope) error {
	tk, err := ParseBearerToken(r)
	if err != nil {
		return err
	}

	token, err := ParseHS256Token(s.Config.Secret, tk)
	if err != nil {
		return InvalidToken("malformed token")
	}

	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		return InvalidToken("unknown token")
	}

	if accessToken.ExpiresAt.Before(time.Now()) {
		return InvalidToken("expired token")
	}

	if !accessToken.Scope.Includes(required) {
		return InsufficientScope(required)
	}

	return nil
}
''')],None),
('authorize-nested','ref',[(S,'''	// get token
	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		_ = WriteBearerError(w, InvalidToken("unknown token"))
		return false
	}

	// validate expiration
	if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false
	}

	// validate scope
	if !accessToken.Scope.Includes(required) {
		_ = WriteBearerError(w, InsufficientScope(required))
		return false
	}

	return true
''','''	// get token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		if now := time.Now(); !now.After(accessToken.ExpiresAt) {
			if ok := accessToken.Scope.Includes(required); ok {
				return true
			}
			_ = WriteBearerError(w, InsufficientScope(required))
		} else {
			_ = WriteBearerError(w, InvalidToken("expired token"))
		}
	} else {
		_ = WriteBearerError(w, InvalidToken("unknown token"))
	}

	return false
''')],None),
('authorize-problem-var','ref',[(S,'''	// get token
	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		_ = WriteBearerError(w, InvalidToken("unknown token"))
		return false
	}

	// validate expiration
	if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false
	}

	// validate scope
	if !accessToken.Scope.Includes(required) {
		_ = WriteBearerError(w, InsufficientScope(required))
		return false
	}

	return true
''','''	// get token
	accessToken, found := s.AccessTokens[token.SignatureString()]

	// validate
	var problem *Error
	switch {
	case !found:
		problem = InvalidToken("unknown token")
	case accessToken.ExpiresAt.Before(time.Now()):
		problem = InvalidToken("expired token")
	case !accessToken.Scope.Includes(required):
		problem = InsufficientScope(required)
	}
	if problem != nil {
		_ = WriteBearerError(w, problem)
		return false
	}

	return true
''')],None),
('expired-method','ref',[(S,'''	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {''','''	if storedAuthorizationCode.expired() {'''),
 (S,'''	if storedRefreshToken.ExpiresAt.Before(time.Now()) {''','''	if storedRefreshToken.expired() {'''),
 (S,'''		if !accessToken.ExpiresAt.Before(time.Now()) {''','''		if !accessToken.expired() {'''),
 (S,'''	if accessToken.ExpiresAt.Before(time.Now()) {''','''	if accessToken.expired() {'''),
 (S,None,'''
func (c *ServerCredential) expired() bool {
	return time.Now().After(c.ExpiresAt)
}
''')],None),
('live-before','ref',[(S,'''		if !refreshToken.ExpiresAt.Before(time.Now()) {''','''		if live := !time.Now().After(refreshToken.ExpiresAt); live {''')],None),
('replay-helper','ref',[(S,REPLAY,'''		revokeCode(s.AccessTokens, authorizationCode.SignatureString())
		revokeCode(s.RefreshTokens, authorizationCode.SignatureString())
'''),(S,None,'''
func revokeCode(list map[string]*ServerCredential, code string) {
	for key, token := range list {
		if token.Code != code {
			continue
		}
		delete(list, key)
	}
}
''')],None),
('replay-keys','ref',[(S,REPLAY,'''		for _, list := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens} {
			for key := range list {
				if list[key].Code == authorizationCode.SignatureString() {
					delete(list, key)
				}
			}
		}
''')],None),
('replay-collect','ref',[(S,REPLAY,'''		var keys []string
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() {
				keys = append(keys, key)
			}
		}
		for _, key := range keys {
			delete(s.AccessTokens, key)
		}

		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.RefreshTokens, key)
			}
		}
''')],None),
('replay-sigvar','ref',[(S,'''	// get stored authorization code by signature
	storedAuthorizationCode, found := s.AuthorizationCodes[authorizationCode.SignatureString()]
''','''	// get stored authorization code by signature
	signature := authorizationCode.SignatureString()
	storedAuthorizationCode, found := s.AuthorizationCodes[signature]
'''),(S,REPLAY,'''		for key, token := range s.RefreshTokens {
			if token.Code == signature {
				delete(s.RefreshTokens, key)
			}
		}
		for key, token := range s.AccessTokens {
			if signature == token.Code {
				delete(s.AccessTokens, key)
			}
		}
''')],None),
('replay-rebuild','ref',[(S,REPLAY,'''		s.revokeAll(authorizationCode)
'''),(S,None,'''
func (s *Server) revokeAll(code *HS256Token) {
	signature := code.SignatureString()
	for key, token := range s.AccessTokens {
		if token.Code == signature {
			delete(s.AccessTokens, key)
		}
	}
	for key, token := range s.RefreshTokens {
		if token.Code == signature {
			delete(s.RefreshTokens, key)
		}
	}
}
''')],None),
('code-used-first','ref',[(S,'''	// issue tokens
	r := s.issueTokens(true, storedAuthorizationCode.Scope, rq.ClientID, storedAuthorizationCode.Username, authorizationCode.SignatureString())

	// mark authorization code
	storedAuthorizationCode.Used = true
''','''	// mark authorization code
	storedAuthorizationCode.Used = true

	// issue tokens
	r := s.issueTokens(true, storedAuthorizationCode.Scope, storedAuthorizationCode.ClientID, storedAuthorizationCode.Username, authorizationCode.SignatureString())
''')],None),
('code-checks-merged','ref',[(S,'''	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}

	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''','''	// validate ownership and redirect uri
	if !(storedAuthorizationCode.ClientID == rq.ClientID && storedAuthorizationCode.RedirectURI == rq.RedirectURI) {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership or redirect uri"))
		return
	}
''')],None),
('code-checks-reordered','ref',[(S,'''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}

	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}
''','''	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}

	// validate expiration
	now := time.Now()
	if storedAuthorizationCode.ExpiresAt.Before(now) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}
''')],None),
('code-table-checks','ref',[(S,'''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}

	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}

	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''','''	for _, c := range []struct {
		bad bool
		msg string
	}{
		{storedAuthorizationCode.ExpiresAt.Before(time.Now()), "expired authorization code"},
		{storedAuthorizationCode.ClientID != rq.ClientID, "invalid authorization code ownership"},
		{storedAuthorizationCode.RedirectURI != rq.RedirectURI, "changed redirect uri"},
	} {
		if c.bad {
			_ = WriteError(w, InvalidGrant(c.msg))
			return
		}
	}
''')],None),
('refresh-local-scope','ref',[(S,'''	// inherit scope from stored refresh token
	if rq.Scope.Empty() {
		rq.Scope = storedRefreshToken.Scope
	}

	// validate scope - a missing scope is always included
	if !storedRefreshToken.Scope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
		return
	}

	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
''','''	// determine scope
	scope := storedRefreshToken.Scope
	if len(rq.Scope) > 0 {
		scope = rq.Scope
		if !storedRefreshToken.Scope.Includes(scope) {
			_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
			return
		}
	}

	// issue tokens
	r := s.issueTokens(true, scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
''')],None),
('refresh-scope-helper','ref',[(S,'''	// inherit scope from stored refresh token
	if rq.Scope.Empty() {
		rq.Scope = storedRefreshToken.Scope
	}

	// validate scope - a missing scope is always included
	if !storedRefreshToken.Scope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
		return
	}

	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
''','''	scope, ok := narrow(storedRefreshToken.Scope, rq.Scope)
	if !ok {
		_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
		return
	}

	// issue tokens
	r := s.issueTokens(true, scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
'''),(S,None,'''
func narrow(granted, requested Scope) (Scope, bool) {
	if requested.Empty() {
		return granted, true
	}
	return requested, granted.Includes(requested)
}
''')],None),
('refresh-delete-first','ref',[(S,'''	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)

	// delete used refresh token
	delete(s.RefreshTokens, refreshToken.SignatureString())
''','''	// delete used refresh token
	delete(s.RefreshTokens, refreshToken.SignatureString())

	// issue tokens
	r := s.issueTokens(true, rq.Scope, storedRefreshToken.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
''')],None),
('user-helper','ref',[(S,'''	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {
		_ = WriteError(w, AccessDenied(""))
		return
	}
''','''	if !s.login(rq.Username, rq.Password) {
		_ = WriteError(w, AccessDenied(""))
		return
	}
'''),(S,None,'''
func (s *Server) login(username, password string) bool {
	if owner, ok := s.Users[username]; ok {
		return owner.Secret == password
	}
	return false
}
''')],None),
('implicit-code-merged','ref',[(S,'''	// triage based on response type
	switch req.ResponseType {
	case TokenResponseType:
		s.handleImplicitGrant(w, username, password, req)
	case CodeResponseType:
		s.handleAuthorizationCodeGrantAuthorization(w, username, password, req)
	}
}
''','''	// validate scope
	fragment := req.ResponseType == TokenResponseType
	if !s.Config.AllowedScope.Includes(req.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(req.RedirectURI, req.State, fragment))
		return
	}

	// triage based on response type
	if fragment {
		s.handleImplicitGrant(w, username, password, req)
		return
	}
	s.handleAuthorizationCodeGrantAuthorization(w, username, password, req)
}
'''),(S,'''	// validate scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, true))
		return
	}
''',''),(S,'''	// validate scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}
''','')],None),
('authz-request-helper','ref',[(S,'''	// parse authorization request
	req, err := ParseAuthorizationRequest(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// make sure the response type is known
	if !KnownResponseType(req.ResponseType) {
		_ = WriteError(w, InvalidRequest("unknown response type"))
		return
	}

	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// validate redirect uri
	if client.RedirectURI != req.RedirectURI {
		_ = WriteError(w, InvalidRequest("invalid redirect URI"))
		return
	}
''','''	req, err := s.authorizationRequest(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}
'''),(S,None,'''
func (s *Server) authorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
	// parse authorization request
	req, err := ParseAuthorizationRequest(r)
	if err != nil {
		return nil, err
	}

	// make sure the response type is known
	if !KnownResponseType(req.ResponseType) {
		return nil, InvalidRequest("unknown response type")
	}

	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		return nil, InvalidClient("unknown client")
	}

	// validate redirect uri
	if client.RedirectURI != req.RedirectURI {
		return nil, InvalidRequest("invalid redirect URI")
	}

	return req, nil
}
''')],None),
('authz-post-check','ref',[(S,'''	if r.Method == "GET" {
		_, _ = w.Write(''','''	if r.Method != http.MethodPost {
		_, _ = w.Write(''')],None),
('authz-notice-const','ref',[(S,'''		_, _ = w.Write([]byte("This authentication server does not provide an authorization form.\\n" +
			"Please submit the resource owners username and password in a POST request."))
''','''		_, _ = io.WriteString(w, notice)
'''),(S,None,'''
const notice = "This authentication server does not provide an authorization form.\\n" +
	"Please submit the resource owners username and password in a POST request."
''')],None),
('authz-notice-fprint','ref',[(S,'''		_, _ = w.Write([]byte("This authentication server does not provide an authorization form.\\n" +
			"Please submit the resource owners username and password in a POST request."))
''','''		_, _ = fmt.Fprint(w, "This authentication server does not provide an authorization form.\\n"+
			"Please submit the resource owners username and password in a POST request.")
''')],None),
('postformvalue','ref',[(S,'''	username := r.PostForm.Get("username")
	password := r.PostForm.Get("password")
''','''	username, password := r.PostFormValue("username"), r.PostFormValue("password")
''')],None),
('grant-ifs','ref',[(S,'''	switch req.GrantType {
	case PasswordGrantType:
		s.handleResourceOwnerPasswordCredentialsGrant(w, req)
	case ClientCredentialsGrantType:
		s.handleClientCredentialsGrant(w, req)
	case AuthorizationCodeGrantType:
		s.handleAuthorizationCodeGrant(w, req)
	case RefreshTokenGrantType:
		s.handleRefreshTokenGrant(w, req)
	}
''','''	if req.GrantType == PasswordGrantType {
		s.handleResourceOwnerPasswordCredentialsGrant(w, req)
		return
	}
	if req.GrantType == ClientCredentialsGrantType {
		s.handleClientCredentialsGrant(w, req)
		return
	}
	if req.GrantType == AuthorizationCodeGrantType {
		s.handleAuthorizationCodeGrant(w, req)
		return
	}
	s.handleRefreshTokenGrant(w, req)
''')],None),
('grant-map','ref',[(S,'''	switch req.GrantType {
	case PasswordGrantType:
		s.handleResourceOwnerPasswordCredentialsGrant(w, req)
	case ClientCredentialsGrantType:
		s.handleClientCredentialsGrant(w, req)
	case AuthorizationCodeGrantType:
		s.handleAuthorizationCodeGrant(w, req)
	case RefreshTokenGrantType:
		s.handleRefreshTokenGrant(w, req)
	}
''','''	grants := map[string]func(http.ResponseWriter, *TokenRequest){
		PasswordGrantType:          s.handleResourceOwnerPasswordCredentialsGrant,
		ClientCredentialsGrantType: s.handleClientCredentialsGrant,
		AuthorizationCodeGrantType: s.handleAuthorizationCodeGrant,
		RefreshTokenGrantType:      s.handleRefreshTokenGrant,
	}
	grants[req.GrantType](w, req)
''')],None),
('grant-results','ref',[(S,'''	// check client confidentiality
	if !s.Clients[rq.ClientID].Confidential {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// save tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, "", "")

	// write response
	_ = WriteTokenResponse(w, r)
}
''','''	res, err := s.clientCredentials(rq)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// write response
	_ = WriteTokenResponse(w, res)
}

func (s *Server) clientCredentials(rq *TokenRequest) (*TokenResponse, error) {
	// check client confidentiality
	if client := s.Clients[rq.ClientID]; !client.Confidential {
		return nil, InvalidClient("unknown client")
	}

	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		return nil, InvalidScope("")
	}

	return s.issueTokens(true, rq.Scope, rq.ClientID, "", ""), nil
}
''')],None),
('issue-split','ref',[(S,'''	// save access token
	s.AccessTokens[accessToken.SignatureString()] = &ServerCredential{
		ClientID:  clientID,
		Username:  username,
		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),
		Scope:     scope,
		Code:      code,
	}

	// save refresh token if available
	if refreshToken != nil {
		s.RefreshTokens[refreshToken.SignatureString()] = &ServerCredential{
			ClientID:  clientID,
			Username:  username,
			ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),
			Scope:     scope,
			Code:      code,
		}
	}
''','''	// save access token
	save := func(list map[string]*ServerCredential, tk *HS256Token, lifespan time.Duration) {
		list[tk.SignatureString()] = &ServerCredential{
			ClientID:  clientID,
			Username:  username,
			ExpiresAt: time.Now().Add(lifespan),
			Scope:     scope,
			Code:      code,
		}
	}
	save(s.AccessTokens, accessToken, s.Config.AccessTokenLifespan)

	// save refresh token if available
	if refreshToken != nil {
		save(s.RefreshTokens, refreshToken, s.Config.RefreshTokenLifespan)
	}
''')],None),
('issue-copy','ref',[(S,'''	// save refresh token if available
	if refreshToken != nil {
		s.RefreshTokens[refreshToken.SignatureString()] = &ServerCredential{
			ClientID:  clientID,
			Username:  username,
			ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),
			Scope:     scope,
			Code:      code,
		}
	}
''','''	// save refresh token if available
	if refreshToken != nil {
		credential := *s.AccessTokens[accessToken.SignatureString()]
		credential.ExpiresAt = time.Now().Add(s.Config.RefreshTokenLifespan)
		s.RefreshTokens[refreshToken.SignatureString()] = &credential
	}
''')],None),
('issue-early','ref',[(S,'''	// generate refresh token if requested
	var refreshToken *HS256Token
	if issueRefreshToken {
		refreshToken = s.Config.MustGenerate()
	}
''','''	now := time.Now()
'''),(S,'''	// set refresh token if available
	if refreshToken != nil {
		r.RefreshToken = refreshToken.String()
	}
''',''),(S,'''		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),
''','''		ExpiresAt: now.Add(s.Config.AccessTokenLifespan),
'''),(S,'''	// save refresh token if available
	if refreshToken != nil {
		s.RefreshTokens[refreshToken.SignatureString()] = &ServerCredential{
			ClientID:  clientID,
			Username:  username,
			ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),
			Scope:     scope,
			Code:      code,
		}
	}

	return r
''','''	if !issueRefreshToken {
		return r
	}

	// save refresh token
	refreshToken := s.Config.MustGenerate()
	r.RefreshToken = refreshToken.String()
	s.RefreshTokens[refreshToken.SignatureString()] = &ServerCredential{
		ClientID:  clientID,
		Username:  username,
		ExpiresAt: now.Add(s.Config.RefreshTokenLifespan),
		Scope:     scope,
		Code:      code,
	}

	return r
''')],None),
('issue-seconds','ref',[(S,'''int(s.Config.AccessTokenLifespan/time.Second)''','''int(s.Config.AccessTokenLifespan.Seconds())''')],None),
('issue-unix','ref',[(S,'''	r := NewBearerTokenResponse(accessToken.String(), int(s.Config.AccessTokenLifespan/time.Second))

	// set granted scope
	r.Scope = scope
''','''	r := &TokenResponse{
		TokenType:   BearerAccessTokenType,
		AccessToken: accessToken.String(),
		ExpiresIn:   int(s.Config.AccessTokenLifespan / time.Second),
		Scope:       scope,
	}
''')],None),
('intro-helper','ref',[(S,'''		// set response if not expired
		if !accessToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = accessToken.Scope
			res.ClientID = accessToken.ClientID
			res.Username = accessToken.Username
			res.TokenType = AccessToken
			res.ExpiresAt = accessToken.ExpiresAt.Unix()
		}
''','''		// set response if not expired
		res = describe(accessToken, AccessToken)
'''),(S,None,'''
func describe(c *ServerCredential, typ string) *IntrospectionResponse {
	if c.ExpiresAt.Before(time.Now()) {
		return &IntrospectionResponse{}
	}
	return &IntrospectionResponse{
		Active:    true,
		Scope:     c.Scope,
		ClientID:  c.ClientID,
		Username:  c.Username,
		TokenType: typ,
		ExpiresAt: c.ExpiresAt.Unix(),
	}
}
''')],None),
('intro-find','ref',[(S,'''	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response if not expired
		if !accessToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = accessToken.Scope
			res.ClientID = accessToken.ClientID
			res.Username = accessToken.Username
			res.TokenType = AccessToken
			res.ExpiresAt = accessToken.ExpiresAt.Unix()
		}
	}

	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response if not expired
		if !refreshToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = refreshToken.Scope
			res.ClientID = refreshToken.ClientID
			res.Username = refreshToken.Username
			res.TokenType = RefreshToken
			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
		}
	}
''','''	for _, kind := range []struct {
		list map[string]*ServerCredential
		name string
	}{
		{s.AccessTokens, AccessToken},
		{s.RefreshTokens, RefreshToken},
	} {
		stored, found := kind.list[token.SignatureString()]
		if !found {
			continue
		}

		// check owner
		if stored.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// check expiration
		if stored.ExpiresAt.Before(time.Now()) {
			continue
		}

		*res = IntrospectionResponse{
			Active:    true,
			Scope:     stored.Scope,
			ClientID:  stored.ClientID,
			Username:  stored.Username,
			TokenType: kind.name,
			ExpiresAt: stored.ExpiresAt.Unix(),
		}
	}
''')],None),
('intro-reqclient','ref',[(S,'''			res.ClientID = accessToken.ClientID
''','''			res.ClientID = req.ClientID
''')],None),
('revoke-inline','ref',[(S,'''		// revoke token
		s.revokeToken(req.ClientID, s.AccessTokens, token.SignatureString())
''','''		// revoke token
		delete(s.AccessTokens, token.SignatureString())
'''),(S,'''		// revoke token
		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())
''','''		// revoke token
		delete(s.RefreshTokens, token.SignatureString())
''')],None),
('revoke-both-checks','ref',[(S,'''	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.AccessTokens, token.SignatureString())
	}

	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())
	}
''','''	// revoke token
	for _, list := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens} {
		if !s.revokeOwn(req.ClientID, list, token.SignatureString()) {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}
	}
'''),(S,'''func (s *Server) revokeToken(clientID string, list map[string]*ServerCredential, signature string) {
	// get token
	token, ok := list[signature]
	if !ok {
		return
	}

	// check client id
	if token.ClientID != clientID {
		return
	}

	// remove token
	delete(list, signature)
}''','''func (s *Server) revokeOwn(clientID string, list map[string]*ServerCredential, signature string) bool {
	token, ok := list[signature]
	if !ok {
		return true
	}
	if token.ClientID != clientID {
		return false
	}
	delete(list, signature)
	return true
}''')],None),
('hint-helper','ref',[(S,'''	// parse authorization request
	req, err := ParseRevocationRequest(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// check token type hint
	if req.TokenTypeHint != "" && !KnownTokenType(req.TokenTypeHint) {
		_ = WriteError(w, UnsupportedTokenType(""))
		return
	}
''','''	// parse authorization request
	req, err := ParseRevocationRequest(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// check token type hint
	switch req.TokenTypeHint {
	case "", AccessToken, RefreshToken:
	default:
		_ = WriteError(w, UnsupportedTokenType(""))
		return
	}
''')],None),
('fail-closure','ref',[(S,'''	// parse refresh token
	refreshToken, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}
''','''	fail := func(err error) {
		_ = WriteError(w, err)
	}

	// parse refresh token
	refreshToken, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		fail(InvalidRequest(err.Error()))
		return
	}
'''),(S,'''		_ = WriteError(w, InvalidGrant("unknown refresh token"))
''','''		fail(InvalidGrant("unknown refresh token"))
'''),(S,'''		_ = WriteError(w, InvalidGrant("expired refresh token"))
''','''		fail(InvalidGrant("expired refresh token"))
''')],None),
('server-ptr-config','ref',[(S,'''	// generate access token
	accessToken := s.Config.MustGenerate()
''','''	config := s.Config

	// generate access token
	accessToken := config.MustGenerate()
'''),(S,'''ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),''','''ExpiresAt: time.Now().Add(config.AccessTokenLifespan),''')],None),
('mustgen-inline','ref',[(S,'''	return MustGenerateHS256Token(c.Secret, c.KeyLength)
''','''	token, err := GenerateHS256Token(c.Secret, c.KeyLength)
	if err != nil {
		panic(err)
	}
	return token
''')],None),
('goto-return-err','ref',[(S,'''func (s *Server) tokenEndpoint(w http.ResponseWriter, r *http.Request) {
	// parse token request
	req, err := ParseTokenRequest(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// make sure the grant type is known
	if !KnownGrantType(req.GrantType) {
		_ = WriteError(w, InvalidRequest("unknown grant type"))
		return
	}
''','''func (s *Server) tokenEndpoint(w http.ResponseWriter, r *http.Request) {
	// parse token request
	req, err := ParseTokenRequest(r)
	if err == nil && !KnownGrantType(req.GrantType) {
		err = InvalidRequest("unknown grant type")
	}
	if err != nil {
		_ = WriteError(w, err)
		return
	}
''')],None),
('code-struct','ref',[(S,'''	// generate new authorization code
	authorizationCode := s.Config.MustGenerate()

	// prepare response
	r := NewCodeResponse(authorizationCode.String(), rq.RedirectURI, rq.State)

	// save authorization code
	s.AuthorizationCodes[authorizationCode.SignatureString()] = &ServerCredential{
		ClientID:    rq.ClientID,
		Username:    username,
		ExpiresAt:   time.Now().Add(s.Config.AuthorizationCodeLifespan),
		Scope:       rq.Scope,
		RedirectURI: rq.RedirectURI,
	}

	// write response
	_ = WriteCodeResponse(w, r)
''','''	// issue authorization code
	code := s.issueCode(username, rq)

	// write response
	_ = WriteCodeResponse(w, NewCodeResponse(code, rq.RedirectURI, rq.State))
'''),(S,None,'''
func (s *Server) issueCode(username string, rq *AuthorizationRequest) string {
	code := s.Config.MustGenerate()
	credential := new(ServerCredential)
	credential.ClientID = rq.ClientID
	credential.Username = username
	credential.Scope = rq.Scope
	credential.RedirectURI = rq.RedirectURI
	credential.ExpiresAt = time.Now().Add(s.Config.AuthorizationCodeLifespan)
	s.AuthorizationCodes[code.SignatureString()] = credential
	return code.String()
}
''')],None),
]
