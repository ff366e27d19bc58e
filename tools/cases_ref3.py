# More behaviour-preserving edits, of whole functions: every check must stay quiet.
S,B,H,SC,O,CL,E,A,CO,T,I,R='server.go','bearer.go','hs256.go','scope.go','oauth2.go','client.go','error.go','authorization.go','code.go','token.go','introspection.go','revocation.go'
def body(f,start,end='\n}\n'):
    t=open('/repo/'+f).read(); i=t.index(start); return t[i:t.index(end,i)+len(end)]
def fn(f,start,new): return (f,body(f,start),new)
def sub(f,start,*pairs):
    o=body(f,start); n=o
    for a,b in pairs:
        assert n.count(a)==1,(start,a,n.count(a)); n=n.replace(a,b)
    return (f,o,n)
def add(f,new): return (f,None,new)
C=[]
def ref(name,*edits): C.append((name,'ref',list(edits),None))
IE='func (s *Server) introspectionEndpoint('
RE='func (s *Server) revocationEndpoint('
AC='func (s *Server) handleAuthorizationCodeGrant(w http.ResponseWriter, rq'
RT='func (s *Server) handleRefreshTokenGrant('
IM='func (s *Server) handleImplicitGrant('
CA='func (s *Server) handleAuthorizationCodeGrantAuthorization('
PW='func (s *Server) handleResourceOwner'
CC='func (s *Server) handleClientCredentialsGrant('
IT='func (s *Server) issueTokens('
AZ='func (s *Server) Authorize('
AE='func (s *Server) authorizationEndpoint('
TE='func (s *Server) tokenEndpoint('
SH='func (s *Server) ServeHTTP('
RV='func (s *Server) revokeToken('
# ---- introspection
PRE='''	// parse authorization request
	req, err := ParseIntrospectionRequest(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}

	// check token type hint
	if req.TokenTypeHint != "" && !KnownTokenType(req.TokenTypeHint) {
		_ = WriteError(w, UnsupportedTokenType(""))
		return
	}

	// get client
	client, found := s.Clients[req.ClientID]
	if !found || (client.Confidential && client.Secret != req.ClientSecret) {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}
'''
ref('intro-loop',fn(S,IE,'''func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
'''+PRE+'''
	res := &IntrospectionResponse{}
	for _, store := range []struct {
		kind string
		list map[string]*ServerCredential
	}{
		{AccessToken, s.AccessTokens},
		{RefreshToken, s.RefreshTokens},
	} {
		credential, found := store.list[token.SignatureString()]
		if !found {
			continue
		}
		if credential.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}
		if credential.ExpiresAt.Before(time.Now()) {
			continue
		}
		res.Active = true
		res.Scope = credential.Scope
		res.ClientID = credential.ClientID
		res.Username = credential.Username
		res.TokenType = store.kind
		res.ExpiresAt = credential.ExpiresAt.Unix()
	}

	_ = WriteIntrospectionResponse(w, res)
}
'''))
ref('intro-describe',fn(S,IE,'''func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
'''+PRE+'''
	signature := token.SignatureString()
	kind := AccessToken
	credential, found := s.AccessTokens[signature]
	if !found {
		kind = RefreshToken
		credential, found = s.RefreshTokens[signature]
	}
	if !found {
		_ = WriteIntrospectionResponse(w, &IntrospectionResponse{})
		return
	}
	if credential.ClientID != req.ClientID {
		_ = WriteError(w, InvalidClient("wrong client"))
		return
	}
	_ = WriteIntrospectionResponse(w, credential.describe(kind))
}

// describe returns the introspection response of the credential.
func (c *ServerCredential) describe(kind string) *IntrospectionResponse {
	if c.expired() {
		return &IntrospectionResponse{}
	}
	return &IntrospectionResponse{
		Active:    true,
		Scope:     c.Scope,
		ClientID:  c.ClientID,
		Username:  c.Username,
		TokenType: kind,
		ExpiresAt: c.ExpiresAt.Unix(),
	}
}

func (c *ServerCredential) expired() bool {
	return c.ExpiresAt.Before(time.Now())
}
'''))
ref('intro-error-result',fn(S,IE,'''func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
	res, err := s.introspect(r)
	if err != nil {
		_ = WriteError(w, err)
		return
	}
	_ = WriteIntrospectionResponse(w, res)
}

func (s *Server) introspect(r *http.Request) (*IntrospectionResponse, error) {
'''+PRE.replace('_ = WriteError(w, ','return nil, ').replace('err)\n\t\treturn\n','err\n').replace('(""))\n\t\treturn\n','("")\n').replace('client"))\n\t\treturn\n','client")\n').replace('Error()))\n\t\treturn\n','Error())\n')+'''
	res := &IntrospectionResponse{}
	for kind, list := range map[string]map[string]*ServerCredential{AccessToken: s.AccessTokens, RefreshToken: s.RefreshTokens} {
		if credential, ok := list[token.SignatureString()]; ok {
			if credential.ClientID != req.ClientID {
				return nil, InvalidClient("wrong client")
			}
			if !credential.ExpiresAt.Before(time.Now()) {
				*res = IntrospectionResponse{
					Active:    true,
					Scope:     credential.Scope,
					ClientID:  credential.ClientID,
					Username:  credential.Username,
					TokenType: kind,
					ExpiresAt: credential.ExpiresAt.Unix(),
				}
			}
		}
	}
	return res, nil
}
'''))
ref('intro-closure',sub(S,IE,('''	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response if not expired
		if !accessToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = accessToken.Scope
			res.ClientID = accessToken.ClientID
			res.Username = accessToken.Username
			res.TokenType = AccessToken
			res.ExpiresAt = accessToken.ExpiresAt.Unix()
		}
	}

	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response if not expired
		if !refreshToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = refreshToken.Scope
			res.ClientID = refreshToken.ClientID
			res.Username = refreshToken.Username
			res.TokenType = RefreshToken
			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
		}
	}
''','''	fill := func(list map[string]*ServerCredential, kind string) bool {
		credential, found := list[token.SignatureString()]
		if !found {
			return true
		}
		if credential.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return false
		}
		if now := time.Now(); !now.After(credential.ExpiresAt) {
			res.Active = true
			res.Scope, res.ClientID, res.Username = credential.Scope, credential.ClientID, credential.Username
			res.TokenType = kind
			res.ExpiresAt = credential.ExpiresAt.Unix()
		}
		return true
	}
	if !fill(s.AccessTokens, AccessToken) || !fill(s.RefreshTokens, RefreshToken) {
		return
	}
''')))
# ---- revocation
RPRE=PRE.replace('ParseIntrospectionRequest','ParseRevocationRequest')
ref('revoke-loop',fn(S,RE,'''func (s *Server) revocationEndpoint(w http.ResponseWriter, r *http.Request) {
'''+RPRE+'''
	for _, list := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens} {
		if credential, found := list[token.SignatureString()]; found {
			if credential.ClientID != req.ClientID {
				_ = WriteError(w, InvalidClient("wrong client"))
				return
			}
			s.revokeToken(req.ClientID, list, token.SignatureString())
		}
	}

	w.WriteHeader(http.StatusOK)
}
'''))
ref('revoke-array-loop',fn(S,RE,'''func (s *Server) revocationEndpoint(w http.ResponseWriter, r *http.Request) {
'''+RPRE+'''
	signature := token.SignatureString()
	lists := [...]map[string]*ServerCredential{s.RefreshTokens, s.AccessTokens}
	for i := 0; i < len(lists); i++ {
		credential := lists[i][signature]
		switch {
		case credential == nil:
			continue
		case credential.ClientID != req.ClientID:
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		default:
			delete(lists[i], signature)
		}
	}

	w.WriteHeader(http.StatusOK)
}
'''),(S,body(S,RV),''))
ref('revoke-bool',sub(S,RE,('''	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.AccessTokens, token.SignatureString())
	}

	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())
	}
''','''	// revoke token
	if !s.revokeToken(req.ClientID, s.AccessTokens, token.SignatureString()) ||
		!s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString()) {
		_ = WriteError(w, InvalidClient("wrong client"))
		return
	}
''')),fn(S,RV,'''func (s *Server) revokeToken(clientID string, list map[string]*ServerCredential, signature string) bool {
	token, ok := list[signature]
	if ok && token.ClientID != clientID {
		return false
	}
	delete(list, signature)
	return true
}
'''))
# ---- replay
OLDREPLAY='''		// revoke all access tokens
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.AccessTokens, key)
			}
		}

		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.RefreshTokens, key)
			}
		}
'''
ref('replay-nested',sub(S,AC,(OLDREPLAY,'''		for _, list := range []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens} {
			for key, token := range list {
				if token.Code == authorizationCode.SignatureString() {
					delete(list, key)
				}
			}
		}
''')))
ref('replay-method',sub(S,AC,(OLDREPLAY,'''		s.revokeAll(authorizationCode.SignatureString())
''')),add(S,'''
// revokeAll removes all tokens that descend from the code.
func (s *Server) revokeAll(code string) {
	for key, token := range s.RefreshTokens {
		if token.Code != code {
			continue
		}
		delete(s.RefreshTokens, key)
	}
	for key := range s.AccessTokens {
		if s.AccessTokens[key].Code == code {
			delete(s.AccessTokens, key)
		}
	}
}
'''))
ref('replay-variadic',sub(S,AC,(OLDREPLAY,'''		revokeDescendants(authorizationCode.SignatureString(), s.AccessTokens, s.RefreshTokens)
''')),add(S,'''
func revokeDescendants(code string, lists ...map[string]*ServerCredential) {
	for _, list := range lists {
		for key, token := range list {
			if token.Code == code {
				delete(list, key)
			}
		}
	}
}
'''))
# ---- code grant
ref('code-validate',sub(S,AC,('''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}

	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}

	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''','''	if msg := storedAuthorizationCode.invalid(rq); msg != "" {
		_ = WriteError(w, InvalidGrant(msg))
		return
	}
''')),add(S,'''
func (c *ServerCredential) invalid(rq *TokenRequest) string {
	switch {
	case c.ExpiresAt.Before(time.Now()):
		return "expired authorization code"
	case c.ClientID != rq.ClientID:
		return "invalid authorization code ownership"
	case c.RedirectURI != rq.RedirectURI:
		return "changed redirect uri"
	}
	return ""
}
'''))
ref('code-result',fn(S,AC,'''func (s *Server) handleAuthorizationCodeGrant(w http.ResponseWriter, rq *TokenRequest) {
	res, err := s.exchange(rq)
	if err != nil {
		_ = WriteError(w, err)
	} else {
		_ = WriteTokenResponse(w, res)
	}
}

func (s *Server) exchange(rq *TokenRequest) (res *TokenResponse, err error) {
	code, err := ParseHS256Token(s.Config.Secret, rq.Code)
	if err != nil {
		return nil, InvalidRequest(err.Error())
	}
	signature := code.SignatureString()
	stored, found := s.AuthorizationCodes[signature]
	if !found {
		return nil, InvalidGrant("unknown authorization code")
	}
	if stored.Used {
		for key, token := range s.AccessTokens {
			if token.Code == signature {
				delete(s.AccessTokens, key)
			}
		}
		for key, token := range s.RefreshTokens {
			if token.Code == signature {
				delete(s.RefreshTokens, key)
			}
		}
		return nil, InvalidGrant("unknown authorization code")
	}
	if time.Now().After(stored.ExpiresAt) {
		return nil, InvalidGrant("expired authorization code")
	}
	if stored.ClientID != rq.ClientID {
		return nil, InvalidGrant("invalid authorization code ownership")
	}
	if stored.RedirectURI != rq.RedirectURI {
		return nil, InvalidGrant("changed redirect uri")
	}
	defer func() { stored.Used = true }()
	return s.issueTokens(true, stored.Scope, rq.ClientID, stored.Username, signature), nil
}
'''))
ref('code-copy',sub(S,AC,('''	// issue tokens
	r := s.issueTokens(true, storedAuthorizationCode.Scope, rq.ClientID, storedAuthorizationCode.Username, authorizationCode.SignatureString())
''','''	// issue tokens
	grant := *storedAuthorizationCode
	r := s.issueTokens(true, grant.Scope, grant.ClientID, grant.Username, authorizationCode.SignatureString())
''')))
ref('code-until',sub(S,AC,('if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {','if time.Until(storedAuthorizationCode.ExpiresAt) < 0 {')))
ref('code-since',sub(S,AC,('if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {','if time.Since(storedAuthorizationCode.ExpiresAt) > 0 {')))
ref('code-sub',sub(S,AC,('if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {','if storedAuthorizationCode.ExpiresAt.Sub(time.Now()) < 0 {')))
ref('code-compare',sub(S,AC,('if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {','if storedAuthorizationCode.ExpiresAt.Compare(time.Now()) < 0 {')))
# ---- refresh
ref('refresh-result',fn(S,RT,'''func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest) {
	token, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}
	signature := token.SignatureString()
	stored, err := s.refreshable(signature, rq)
	if err != nil {
		_ = WriteError(w, err)
		return
	}
	scope := rq.Scope
	if scope.Empty() {
		scope = stored.Scope
	}
	res := s.issueTokens(true, scope, rq.ClientID, stored.Username, stored.Code)
	delete(s.RefreshTokens, signature)
	_ = WriteTokenResponse(w, res)
}

func (s *Server) refreshable(signature string, rq *TokenRequest) (*ServerCredential, error) {
	stored := s.RefreshTokens[signature]
	if stored == nil {
		return nil, InvalidGrant("unknown refresh token")
	}
	if stored.ExpiresAt.Before(time.Now()) {
		return nil, InvalidGrant("expired refresh token")
	}
	if stored.ClientID != rq.ClientID {
		return nil, InvalidGrant("invalid refresh token ownership")
	}
	if !rq.Scope.Empty() && !stored.Scope.Includes(rq.Scope) {
		return nil, InvalidScope("scope exceeds the originally granted scope")
	}
	return stored, nil
}
'''))
ref('refresh-revoke',sub(S,RT,('delete(s.RefreshTokens, refreshToken.SignatureString())','s.revokeToken(rq.ClientID, s.RefreshTokens, refreshToken.SignatureString())')))
ref('refresh-closure',sub(S,RT,('''	// inherit scope from stored refresh token
	if rq.Scope.Empty() {
		rq.Scope = storedRefreshToken.Scope
	}

	// validate scope - a missing scope is always included
	if !storedRefreshToken.Scope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
		return
	}
''','''	scope, ok := func() (Scope, bool) {
		if rq.Scope.Empty() {
			return storedRefreshToken.Scope, true
		}
		return rq.Scope, storedRefreshToken.Scope.Includes(rq.Scope)
	}()
	if !ok {
		_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
		return
	}
'''),('s.issueTokens(true, rq.Scope,','s.issueTokens(true, scope,')))
# ---- generic helper for stored tokens
ref('stored-helper',add(S,'''
// stored verifies the raw token and returns its credential from the list.
func (s *Server) stored(list map[string]*ServerCredential, raw, unknown string) (*ServerCredential, string, error) {
	token, err := ParseHS256Token(s.Config.Secret, raw)
	if err != nil {
		return nil, "", InvalidRequest(err.Error())
	}
	credential, found := list[token.SignatureString()]
	if !found {
		return nil, "", InvalidGrant(unknown)
	}
	return credential, token.SignatureString(), nil
}
'''),sub(S,AC,('''	authorizationCode, err := ParseHS256Token(s.Config.Secret, rq.Code)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// get stored authorization code by signature
	storedAuthorizationCode, found := s.AuthorizationCodes[authorizationCode.SignatureString()]
	if !found {
		_ = WriteError(w, InvalidGrant("unknown authorization code"))
		return
	}
''','''	storedAuthorizationCode, signature, err := s.stored(s.AuthorizationCodes, rq.Code, "unknown authorization code")
	if err != nil {
		_ = WriteError(w, err)
		return
	}
'''),(OLDREPLAY,OLDREPLAY.replace('authorizationCode.SignatureString()','signature')),('storedAuthorizationCode.Username, authorizationCode.SignatureString())','storedAuthorizationCode.Username, signature)')),
sub(S,RT,('''	refreshToken, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// get stored refresh token by signature
	storedRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]
	if !found {
		_ = WriteError(w, InvalidGrant("unknown refresh token"))
		return
	}
''','''	storedRefreshToken, signature, err := s.stored(s.RefreshTokens, rq.RefreshToken, "unknown refresh token")
	if err != nil {
		_ = WriteError(w, err)
		return
	}
'''),('delete(s.RefreshTokens, refreshToken.SignatureString())','delete(s.RefreshTokens, signature)')))
# ---- authorization endpoint
ref('authz-reject',sub(S,IM,('''	// validate scope
	if''','''	reject := func(err *Error) {
		_ = WriteError(w, err.SetRedirect(rq.RedirectURI, rq.State, true))
	}

	// validate scope
	if'''),('_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, true))','reject(InvalidScope(""))'),('_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, true))','reject(AccessDenied(""))')))
ref('authz-one-handler',sub(S,AE,('''	// triage based on response type
	switch req.ResponseType {
	case TokenResponseType:
		s.handleImplicitGrant(w, username, password, req)
	case CodeResponseType:
		s.handleAuthorizationCodeGrantAuthorization(w, username, password, req)
	}
''','''	implicit := req.ResponseType == TokenResponseType
	if err := s.checkOwner(username, password, req.Scope); err != nil {
		_ = WriteError(w, err.SetRedirect(req.RedirectURI, req.State, implicit))
		return
	}

	if implicit {
		s.handleImplicitGrant(w, username, req)
	} else {
		s.handleAuthorizationCodeGrantAuthorization(w, username, req)
	}
''')),fn(S,IM,'''func (s *Server) checkOwner(username, password string, scope Scope) *Error {
	if !s.Config.AllowedScope.Includes(scope) {
		return InvalidScope("")
	}
	if owner, found := s.Users[username]; !found || owner.Secret != password {
		return AccessDenied("")
	}
	return nil
}

func (s *Server) handleImplicitGrant(w http.ResponseWriter, username string, rq *AuthorizationRequest) {
	_ = WriteTokenResponse(w, s.issueTokens(false, rq.Scope, rq.ClientID, username, "").SetRedirect(rq.RedirectURI, rq.State))
}
'''),sub(S,CA,('username, password string','username string'),('''	// validate scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}

	// validate user credentials
	owner, found := s.Users[username]
	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}

''','')))
ref('authz-early-exit',sub(S,AE,('''	// validate redirect uri
	if client.RedirectURI != req.RedirectURI {
		_ = WriteError(w, InvalidRequest("invalid redirect URI"))
		return
	}

	// show notice for GET requests
	if r.Method == "GET" {
''','''	// validate redirect uri
	if same := client.RedirectURI == req.RedirectURI; !same {
		_ = WriteError(w, InvalidRequest("invalid redirect URI"))
		return
	}

	// show notice for GET requests
	if r.Method != http.MethodPost {
''')))
ref('authz-handlers-map',sub(S,AE,('''	switch req.ResponseType {
	case TokenResponseType:
		s.handleImplicitGrant(w, username, password, req)
	case CodeResponseType:
		s.handleAuthorizationCodeGrantAuthorization(w, username, password, req)
	}
''','''	handlers := map[string]func(http.ResponseWriter, string, string, *AuthorizationRequest){
		TokenResponseType: s.handleImplicitGrant,
		CodeResponseType:  s.handleAuthorizationCodeGrantAuthorization,
	}
	handlers[req.ResponseType](w, username, password, req)
''')))
ref('authz-handler-var',sub(S,AE,('''	switch req.ResponseType {
	case TokenResponseType:
		s.handleImplicitGrant(w, username, password, req)
	case CodeResponseType:
		s.handleAuthorizationCodeGrantAuthorization(w, username, password, req)
	}
''','''	handle := s.handleImplicitGrant
	if req.ResponseType == CodeResponseType {
		handle = s.handleAuthorizationCodeGrantAuthorization
	}
	handle(w, username, password, req)
''')))
ref('authz-defer-write',fn(S,PW,'''func (s *Server) handleResourceOwnerPasswordCredentialsGrant(w http.ResponseWriter, rq *TokenRequest) {
	var err *Error
	defer func() {
		if err != nil {
			_ = WriteError(w, err)
		}
	}()

	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {
		err = AccessDenied("")
		return
	}

	if !s.Config.AllowedScope.Includes(rq.Scope) {
		err = InvalidScope("")
		return
	}

	_ = WriteTokenResponse(w, s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, ""))
}
'''))
ref('pw-user-method',sub(S,PW,('''	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {
''','''	if !s.Users[rq.Username].matches(rq.Password) {
''')),add(S,'''
func (e *ServerEntity) matches(secret string) bool {
	return e != nil && e.Secret == secret
}
'''))
ref('cc-client-param',sub(S,TE,('s.handleClientCredentialsGrant(w, req)','s.handleClientCredentialsGrant(w, client, req)')),sub(S,CC,('rq *TokenRequest','client *ServerEntity, rq *TokenRequest'),('!s.Clients[rq.ClientID].Confidential','!client.Confidential')))
ref('cc-not-public',sub(S,CC,('''	if !s.Clients[rq.ClientID].Confidential {
''','''	if client, ok := s.Clients[rq.ClientID]; !ok || !client.Confidential {
''')))
ref('token-auth-method',sub(S,TE,('''	// find client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''','''	// authenticate client
	if client := s.Clients[req.ClientID]; client == nil || client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''')))
ref('known-after-auth',sub(S,TE,('''	// make sure the grant type is known
	if !KnownGrantType(req.GrantType) {
		_ = WriteError(w, InvalidRequest("unknown grant type"))
		return
	}

''',''),('''	case RefreshTokenGrantType:
		s.handleRefreshTokenGrant(w, req)
	}
''','''	case RefreshTokenGrantType:
		s.handleRefreshTokenGrant(w, req)
	default:
		_ = WriteError(w, InvalidRequest("unknown grant type"))
	}
''')))
# ---- issuing
ref('issue-save',fn(S,IT,'''func (s *Server) issueTokens(issueRefreshToken bool, scope Scope, clientID, username, code string) *TokenResponse {
	credential := ServerCredential{
		ClientID: clientID,
		Username: username,
		Scope:    scope,
		Code:     code,
	}

	accessToken := s.save(s.AccessTokens, credential, s.Config.AccessTokenLifespan)
	r := NewBearerTokenResponse(accessToken, int(s.Config.AccessTokenLifespan/time.Second))
	r.Scope = scope
	if issueRefreshToken {
		r.RefreshToken = s.save(s.RefreshTokens, credential, s.Config.RefreshTokenLifespan)
	}
	return r
}

func (s *Server) save(list map[string]*ServerCredential, credential ServerCredential, lifespan time.Duration) string {
	token := s.Config.MustGenerate()
	credential.ExpiresAt = time.Now().Add(lifespan)
	list[token.SignatureString()] = &credential
	return token.String()
}
'''))
ref('issue-newcred',fn(S,IT,'''func (s *Server) issueTokens(issueRefreshToken bool, scope Scope, clientID, username, code string) *TokenResponse {
	now := time.Now()
	build := func(lifespan time.Duration) *ServerCredential {
		c := new(ServerCredential)
		c.ClientID, c.Username, c.Code = clientID, username, code
		c.Scope = scope
		c.ExpiresAt = now.Add(lifespan)
		return c
	}

	at := s.Config.MustGenerate()
	s.AccessTokens[at.SignatureString()] = build(s.Config.AccessTokenLifespan)

	r := &TokenResponse{
		TokenType:   BearerAccessTokenType,
		AccessToken: at.String(),
		ExpiresIn:   int(s.Config.AccessTokenLifespan.Nanoseconds() / int64(time.Second)),
		Scope:       scope,
	}

	if !issueRefreshToken {
		return r
	}

	rt := s.Config.MustGenerate()
	s.RefreshTokens[rt.SignatureString()] = build(s.Config.RefreshTokenLifespan)
	r.RefreshToken = rt.String()
	return r
}
'''))
ref('issue-options',sub(S,IT,('issueRefreshToken bool, scope Scope, clientID, username, code string','issueRefreshToken bool, template ServerCredential'),('r.Scope = scope','r.Scope = template.Scope'),('''&ServerCredential{
		ClientID:  clientID,
		Username:  username,
		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),
		Scope:     scope,
		Code:      code,
	}''','template.expiring(s.Config.AccessTokenLifespan)'),('''&ServerCredential{
			ClientID:  clientID,
			Username:  username,
			ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),
			Scope:     scope,
			Code:      code,
		}''','template.expiring(s.Config.RefreshTokenLifespan)')),add(S,'''
func (c ServerCredential) expiring(d time.Duration) *ServerCredential {
	c.ExpiresAt = time.Now().Add(d)
	return &c
}
'''),
(S,'s.issueTokens(false, rq.Scope, rq.ClientID, username, "")','s.issueTokens(false, ServerCredential{Scope: rq.Scope, ClientID: rq.ClientID, Username: username})'),
(S,'s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")','s.issueTokens(true, ServerCredential{Scope: rq.Scope, ClientID: rq.ClientID, Username: rq.Username})'),
(S,'s.issueTokens(true, rq.Scope, rq.ClientID, "", "")','s.issueTokens(true, ServerCredential{Scope: rq.Scope, ClientID: rq.ClientID})'),
(S,'s.issueTokens(true, storedAuthorizationCode.Scope, rq.ClientID, storedAuthorizationCode.Username, authorizationCode.SignatureString())','s.issueTokens(true, ServerCredential{Scope: storedAuthorizationCode.Scope, ClientID: rq.ClientID, Username: storedAuthorizationCode.Username, Code: authorizationCode.SignatureString()})'),
(S,'s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)','s.issueTokens(true, ServerCredential{Scope: rq.Scope, ClientID: rq.ClientID, Username: storedRefreshToken.Username, Code: storedRefreshToken.Code})'))
# ---- routing, authorize
ref('seg-loop2',sub(S,SH,('''	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}
''','''	if idx := strings.LastIndex(path, "/"); idx != -1 {
		path = path[idx+1:]
	}
''')))
ref('seg-helper',sub(S,SH,('''	// get last path segment
	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}

	// check path
	switch path {
''','''	// check path
	switch lastSegment(path) {
''')),add(S,'''
func lastSegment(path string) string {
	parts := strings.Split(path, "/")
	return parts[len(parts)-1]
}
'''))
ref('seg-cut',sub(S,SH,('''	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}
''','''	path = path[strings.LastIndex(path, "/")+1:]
''')))
ref('serve-handlerfunc',sub(S,SH,('''	switch path {
	case "authorize":
		s.authorizationEndpoint(w, r)
	case "token":
		s.tokenEndpoint(w, r)
	case "introspect":
		s.introspectionEndpoint(w, r)
	case "revoke":
		s.revocationEndpoint(w, r)
	default:
		http.NotFound(w, r)
	}
''','''	var handler http.HandlerFunc
	switch path {
	case "authorize":
		handler = s.authorizationEndpoint
	case "token":
		handler = s.tokenEndpoint
	case "introspect":
		handler = s.introspectionEndpoint
	case "revoke":
		handler = s.revocationEndpoint
	default:
		handler = http.NotFound
	}
	handler(w, r)
''')))
ref('authorize-check',fn(S,AZ,'''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	if err := s.authorize(r, required); err != nil {
		_ = WriteBearerError(w, err)
		return false
	}
	return true
}

func (s *Server) authorize(r *http.Request, required Scope) error {
	tk, err := ParseBearerToken(r)
	if err != nil {
		return err
	}
	token, err := ParseHS256Token(s.Config.Secret, tk)
	if err != nil {
		return InvalidToken("malformed token")
	}
	switch credential, found := s.AccessTokens[token.SignatureString()]; {
	case !found:
		return InvalidToken("unknown token")
	case credential.ExpiresAt.Before(time.Now()):
		return InvalidToken("expired token")
	case !credential.Scope.Includes(required):
		return InsufficientScope(required)
	}
	return nil
}
'''))
ref('authorize-named',fn(S,AZ,'''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) (ok bool) {
	s.Mutex.Lock()
	var err error
	defer func() {
		if err != nil {
			_ = WriteBearerError(w, err)
		}
		s.Mutex.Unlock()
	}()

	var tk string
	if tk, err = ParseBearerToken(r); err != nil {
		return
	}
	token, perr := ParseHS256Token(s.Config.Secret, tk)
	if perr != nil {
		err = InvalidToken("malformed token")
		return
	}
	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		err = InvalidToken("unknown token")
	} else if accessToken.ExpiresAt.Before(time.Now()) {
		err = InvalidToken("expired token")
	} else if !accessToken.Scope.Includes(required) {
		err = InsufficientScope(required)
	} else {
		ok = true
	}
	return
}
'''))
ref('server-helper-file',('server_util.go',None,'''package oauth2

import "net/http"

// reject writes the error.
func reject(w http.ResponseWriter, err error) bool {
	_ = WriteError(w, err)
	return false
}
'''),sub(S,TE,('''	if err != nil {
		_ = WriteError(w, err)
		return
	}
''','''	if err != nil {
		reject(w, err)
		return
	}
'''),('_ = WriteError(w, InvalidRequest("unknown grant type"))','reject(w, InvalidRequest("unknown grant type"))')))
