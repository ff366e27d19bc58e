# Behaviour-preserving edits, eighth round.
exec(open('/verif/tools/cases_ref4.py').read().split("WR='func WriteRedirect('")[0])
SV,SC,TK,BR,HS,ER,OA,CL,RV,IN,CO,AZ='server.go','scope.go','token.go','bearer.go','hs256.go','error.go','oauth2.go','client.go','revocation.go','introspection.go','code.go','authorization.go'
PS='func ParseScope('
def ps(name,b): ref(name,fn(SC,PS,'func ParseScope(str string) Scope {\n'+b+'}\n'))
# cutting loops
ps('ps-index-break','''	var res []string
	for {
		i := strings.IndexByte(str, ' ')
		if i < 0 {
			break
		}
		if item := strings.TrimSpace(str[:i]); item != "" {
			res = append(res, item)
		}
		str = str[i+1:]
	}
	if item := strings.TrimSpace(str); item != "" {
		res = append(res, item)
	}
	return res
''')
ps('ps-cut-more','''	var res Scope
	for more := true; more; {
		var item string
		item, str, more = strings.Cut(str, " ")
		if item = strings.TrimSpace(item); item != "" {
			res = append(res, item)
		}
	}
	return res
''')
ps('ps-cut-empty','''	var res Scope
	for str != "" {
		var item string
		item, str, _ = strings.Cut(str, " ")
		item = strings.TrimSpace(item)
		if len(item) > 0 {
			res = append(res, item)
		}
	}
	return res
''')
ps('ps-cut-break','''	var res Scope
	for {
		item, rest, more := strings.Cut(str, " ")
		if item = strings.TrimSpace(item); item != "" {
			res = append(res, item)
		}
		if !more {
			return res
		}
		str = rest
	}
''')
ps('ps-bytes','''	var res Scope
	start := 0
	for i := 0; i <= len(str); i++ {
		if i < len(str) && str[i] != ' ' {
			continue
		}
		if item := strings.TrimSpace(str[start:i]); item != "" {
			res = append(res, item)
		}
		start = i + 1
	}
	return res
''')
ps('ps-bytes-after','''	var res Scope
	start := 0
	for i := 0; i < len(str); i++ {
		if str[i] == ' ' {
			if item := strings.TrimSpace(str[start:i]); item != "" {
				res = append(res, item)
			}
			start = i + 1
		}
	}
	if item := strings.TrimSpace(str[start:]); item != "" {
		res = append(res, item)
	}
	return res
''')
ps('ps-runes','''	var res Scope
	start := 0
	for i, c := range str {
		if c == ' ' {
			if item := strings.TrimSpace(str[start:i]); item != "" {
				res = append(res, item)
			}
			start = i + 1
		}
	}
	if item := strings.TrimSpace(str[start:]); item != "" {
		res = append(res, item)
	}
	return res
''')
ps('ps-add-closure','''	var res Scope
	add := func(item string) {
		if item = strings.TrimSpace(item); item != "" {
			res = append(res, item)
		}
	}
	for {
		i := strings.Index(str, " ")
		if i == -1 {
			add(str)
			return res
		}
		add(str[:i])
		str = str[i+1:]
	}
''')
ps('ps-splitn','''	list := strings.SplitN(str, " ", -1)
	res := make(Scope, 0, len(list))
	for _, item := range list {
		if item = strings.TrimSpace(item); len(item) == 0 {
			continue
		}
		res = append(res, item)
	}
	if len(res) == 0 {
		return nil
	}
	return res
''')
# server: different shapes
ref('srv-client-auth',sub(SV,'func (s *Server) tokenEndpoint(',('''	// find client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''','''	// authenticate client
	if err := s.authenticateClient(req.ClientID, req.ClientSecret); err != nil {
		_ = WriteError(w, err)
		return
	}
''')),sub(SV,'func (s *Server) revocationEndpoint(',('''	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''','''	// authenticate client
	if err := s.authenticateClient(req.ClientID, req.ClientSecret); err != nil {
		_ = WriteError(w, err)
		return
	}
''')),sub(SV,'func (s *Server) introspectionEndpoint(',('''	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}
''','''	// authenticate client
	if err := s.authenticateClient(req.ClientID, req.ClientSecret); err != nil {
		_ = WriteError(w, err)
		return
	}
''')),add(SV,'''
func (s *Server) authenticateClient(id, secret string) error {
	client, found := s.Clients[id]
	if found && (!client.Confidential || client.Secret == secret) {
		return nil
	}
	return InvalidClient("unknown client")
}
'''))
ref('srv-credential-lookup',sub(SV,'func (s *Server) handleAuthorizationCodeGrant(',('''	// parse authorization code
	authorizationCode, err := ParseHS256Token(s.Config.Secret, rq.Code)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// get stored authorization code by signature
	storedAuthorizationCode, found := s.AuthorizationCodes[authorizationCode.SignatureString()]
	if !found {
		_ = WriteError(w, InvalidGrant("unknown authorization code"))
		return
	}
''','''	authorizationCode, storedAuthorizationCode, failure := s.lookup(s.AuthorizationCodes, rq.Code, "unknown authorization code")
	if failure != nil {
		_ = WriteError(w, failure)
		return
	}
''')),sub(SV,'func (s *Server) handleRefreshTokenGrant(',('''	// parse refresh token
	refreshToken, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// get stored refresh token by signature
	storedRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]
	if !found {
		_ = WriteError(w, InvalidGrant("unknown refresh token"))
		return
	}
''','''	refreshToken, storedRefreshToken, failure := s.lookup(s.RefreshTokens, rq.RefreshToken, "unknown refresh token")
	if failure != nil {
		_ = WriteError(w, failure)
		return
	}
''')),add(SV,'''
func (s *Server) lookup(list map[string]*ServerCredential, str, unknown string) (*HS256Token, *ServerCredential, *Error) {
	token, err := ParseHS256Token(s.Config.Secret, str)
	if err != nil {
		return nil, nil, InvalidRequest(err.Error())
	}
	if stored, ok := list[token.SignatureString()]; ok {
		return token, stored, nil
	}
	return nil, nil, InvalidGrant(unknown)
}
'''))
ref('srv-check-fns',sub(SV,'func (s *Server) handleAuthorizationCodeGrant(',('''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}

	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}

	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''','''	for _, check := range []func() (bool, string){
		func() (bool, string) {
			return !storedAuthorizationCode.ExpiresAt.Before(time.Now()), "expired authorization code"
		},
		func() (bool, string) {
			return storedAuthorizationCode.ClientID == rq.ClientID, "invalid authorization code ownership"
		},
		func() (bool, string) {
			return storedAuthorizationCode.RedirectURI == rq.RedirectURI, "changed redirect uri"
		},
	} {
		if ok, problem := check(); !ok {
			_ = WriteError(w, InvalidGrant(problem))
			return
		}
	}
''')))
ref('srv-code-else-chain',sub(SV,'func (s *Server) handleAuthorizationCodeGrant(',('''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}

	// validate ownership
	if storedAuthorizationCode.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid authorization code ownership"))
		return
	}

	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''','''	var invalid *Error
	if now := time.Now(); storedAuthorizationCode.ExpiresAt.Before(now) {
		invalid = InvalidGrant("expired authorization code")
	} else if storedAuthorizationCode.ClientID != rq.ClientID {
		invalid = InvalidGrant("invalid authorization code ownership")
	} else if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		invalid = InvalidGrant("changed redirect uri")
	}
	if invalid != nil {
		_ = WriteError(w, invalid)
		return
	}
''')))
ref('srv-revoke-code-method',sub(SV,'func (s *Server) handleAuthorizationCodeGrant(',('''		// revoke all access tokens
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.AccessTokens, key)
			}
		}

		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {
				delete(s.RefreshTokens, key)
			}
		}
''','''		s.revokeIssued(func(c *ServerCredential) bool { return c.Code == authorizationCode.SignatureString() })
''')),add(SV,'''
func (s *Server) revokeIssued(match func(*ServerCredential) bool) {
	for _, list := range [...]map[string]*ServerCredential{s.RefreshTokens, s.AccessTokens} {
		for signature, credential := range list {
			if !match(credential) {
				continue
			}
			delete(list, signature)
		}
	}
}
'''))
ref('srv-issue-struct',fn(SV,'func (s *Server) issueTokens(','''func (s *Server) issueTokens(issueRefreshToken bool, scope Scope, clientID, username, code string) *TokenResponse {
	template := ServerCredential{
		ClientID: clientID,
		Username: username,
		Scope:    scope,
		Code:     code,
	}

	save := func(list map[string]*ServerCredential, lifespan time.Duration) string {
		token := s.Config.MustGenerate()
		credential := template
		credential.ExpiresAt = time.Now().Add(lifespan)
		list[token.SignatureString()] = &credential
		return token.String()
	}

	r := NewBearerTokenResponse(save(s.AccessTokens, s.Config.AccessTokenLifespan), int(s.Config.AccessTokenLifespan/time.Second))
	r.Scope = scope
	if issueRefreshToken {
		r.RefreshToken = save(s.RefreshTokens, s.Config.RefreshTokenLifespan)
	}

	return r
}
'''))
ref('srv-issue-literal',fn(SV,'func (s *Server) issueTokens(','''func (s *Server) issueTokens(issueRefreshToken bool, scope Scope, clientID, username, code string) *TokenResponse {
	now := time.Now()
	cred := func(lifespan time.Duration) *ServerCredential {
		return &ServerCredential{ClientID: clientID, Username: username, ExpiresAt: now.Add(lifespan), Scope: scope, Code: code}
	}

	accessToken := s.Config.MustGenerate()
	s.AccessTokens[accessToken.SignatureString()] = cred(s.Config.AccessTokenLifespan)

	res := &TokenResponse{
		TokenType:   BearerAccessTokenType,
		AccessToken: accessToken.String(),
		ExpiresIn:   int(s.Config.AccessTokenLifespan / time.Second),
		Scope:       scope,
	}

	if !issueRefreshToken {
		return res
	}

	refreshToken := s.Config.MustGenerate()
	s.RefreshTokens[refreshToken.SignatureString()] = cred(s.Config.RefreshTokenLifespan)
	res.RefreshToken = refreshToken.String()

	return res
}
'''))
ref('srv-intro-fill',sub(SV,'func (s *Server) introspectionEndpoint(',('''		// set response if not expired
		if !accessToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = accessToken.Scope
			res.ClientID = accessToken.ClientID
			res.Username = accessToken.Username
			res.TokenType = AccessToken
			res.ExpiresAt = accessToken.ExpiresAt.Unix()
		}
''','''		accessToken.introspect(res, AccessToken)
'''),('''		// set response if not expired
		if !refreshToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
			res.Scope = refreshToken.Scope
			res.ClientID = refreshToken.ClientID
			res.Username = refreshToken.Username
			res.TokenType = RefreshToken
			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
		}
''','''		refreshToken.introspect(res, RefreshToken)
''')),add(SV,'''
func (c *ServerCredential) expired() bool { return time.Now().After(c.ExpiresAt) }

func (c *ServerCredential) introspect(res *IntrospectionResponse, kind string) {
	if c.expired() {
		return
	}
	*res = *NewIntrospectionResponse(true, c.Scope, c.ClientID, c.Username, kind)
	res.ExpiresAt = c.ExpiresAt.Unix()
}
'''))
ref('srv-intro-early',sub(SV,'func (s *Server) introspectionEndpoint(',('''	// prepare response
	res := &IntrospectionResponse{}

	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {''','''	// prepare response
	var res IntrospectionResponse
	signature := token.SignatureString()

	// check access token
	if accessToken := s.AccessTokens[signature]; accessToken != nil {'''),('''	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {''','''	if refreshToken, found := s.RefreshTokens[signature]; found {'''),('''WriteIntrospectionResponse(w, res)''','''WriteIntrospectionResponse(w, &res)''')))
ref('srv-serve-strings',sub(SV,'func (s *Server) ServeHTTP(',('''	// get path
	path := r.URL.Path

	// get last path segment
	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}

	// check path
	switch path {''','''	// check last path segment
	switch lastSegment(r.URL.Path) {''')),add(SV,'''
func lastSegment(path string) string {
	return path[strings.LastIndex(path, "/")+1:]
}
'''))
ref('srv-serve-deferred',sub(SV,'func (s *Server) ServeHTTP(',('''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()
''','''	mu := &s.Mutex
	mu.Lock()
	defer func() {
		mu.Unlock()
	}()
''')))
ref('srv-authorize-late-lock',sub(SV,'func (s *Server) Authorize(',('''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	// parse bearer token
	tk, err := ParseBearerToken(r)
	if err != nil {
		_ = WriteBearerError(w, err)
		return false
	}
''','''	// parse bearer token
	tk, err := ParseBearerToken(r)
	if err != nil {
		_ = WriteBearerError(w, err)
		return false
	}

	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()
''')))
ref('srv-authorize-fail',fn(SV,'func (s *Server) Authorize(','''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {
	err := s.check(r, required)
	if err == nil {
		return true
	}
	_ = WriteBearerError(w, err)
	return false
}

func (s *Server) check(r *http.Request, required Scope) error {
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	tk, err := ParseBearerToken(r)
	if err != nil {
		return err
	}

	token, err := ParseHS256Token(s.Config.Secret, tk)
	if err != nil {
		return InvalidToken("malformed token")
	}

	switch accessToken, found := s.AccessTokens[token.SignatureString()]; {
	case !found:
		return InvalidToken("unknown token")
	case time.Now().After(accessToken.ExpiresAt):
		return InvalidToken("expired token")
	case !accessToken.Scope.Includes(required):
		return InsufficientScope(required)
	}

	return nil
}
'''))
ref('srv-authz-two-reject',sub(SV,'func (s *Server) handleImplicitGrant(',('''	// validate scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, true))
		return
	}

	// validate user credentials
	owner, found := s.Users[username]
	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, true))
		return
	}
''','''	if err := s.verifyGrant(username, password, rq.Scope); err != nil {
		_ = WriteError(w, err.SetRedirect(rq.RedirectURI, rq.State, true))
		return
	}
''')),sub(SV,'func (s *Server) handleAuthorizationCodeGrantAuthorization(',('''	// validate scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}

	// validate user credentials
	owner, found := s.Users[username]
	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}
''','''	if err := s.verifyGrant(username, password, rq.Scope); err != nil {
		err.SetRedirect(rq.RedirectURI, rq.State, false)
		_ = WriteError(w, err)
		return
	}
''')),add(SV,'''
func (s *Server) verifyGrant(username, password string, scope Scope) *Error {
	if !s.Config.AllowedScope.Includes(scope) {
		return InvalidScope("")
	}
	if owner, ok := s.Users[username]; ok && owner.Secret == password {
		return nil
	}
	return AccessDenied("")
}
'''))
ref('srv-code-cred-var',sub(SV,'func (s *Server) handleAuthorizationCodeGrantAuthorization(',('''	s.AuthorizationCodes[authorizationCode.SignatureString()] = &ServerCredential{
		ClientID:    rq.ClientID,
		Username:    username,
		ExpiresAt:   time.Now().Add(s.Config.AuthorizationCodeLifespan),
		Scope:       rq.Scope,
		RedirectURI: rq.RedirectURI,
	}
''','''	credential := new(ServerCredential)
	credential.Username = username
	credential.ClientID, credential.RedirectURI, credential.Scope = rq.ClientID, rq.RedirectURI, rq.Scope
	credential.ExpiresAt = time.Now().Add(s.Config.AuthorizationCodeLifespan)
	s.AuthorizationCodes[authorizationCode.SignatureString()] = credential
''')))
ref('srv-cc-order',sub(SV,'func (s *Server) handleClientCredentialsGrant(',('''	// check client confidentiality
	if !s.Clients[rq.ClientID].Confidential {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// save tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, "", "")

	// write response
	_ = WriteTokenResponse(w, r)
''','''	client := s.Clients[rq.ClientID]
	if client.Confidential {
		if s.Config.AllowedScope.Includes(rq.Scope) {
			_ = WriteTokenResponse(w, s.issueTokens(true, rq.Scope, rq.ClientID, "", ""))
		} else {
			_ = WriteError(w, InvalidScope(""))
		}
	} else {
		_ = WriteError(w, InvalidClient("unknown client"))
	}
''')))
ref('srv-refresh-scope-fn',sub(SV,'func (s *Server) handleRefreshTokenGrant(',('''	// inherit scope from stored refresh token
	if rq.Scope.Empty() {
		rq.Scope = storedRefreshToken.Scope
	}

	// validate scope - a missing scope is always included
	if !storedRefreshToken.Scope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
		return
	}

	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq''','''	scope := storedRefreshToken.Scope
	if !rq.Scope.Empty() {
		if !scope.Includes(rq.Scope) {
			_ = WriteError(w, InvalidScope("scope exceeds the originally granted scope"))
			return
		}
		scope = rq.Scope
	}

	// issue tokens
	r := s.issueTokens(true, scope, rq''')))
ref('srv-grants-named-type',sub(SV,'func (s *Server) tokenEndpoint(',('''	// handle grant type
	switch req.GrantType {
	case PasswordGrantType:
		s.handleResourceOwnerPasswordCredentialsGrant(w, req)
	case ClientCredentialsGrantType:
		s.handleClientCredentialsGrant(w, req)
	case AuthorizationCodeGrantType:
		s.handleAuthorizationCodeGrant(w, req)
	case RefreshTokenGrantType:
		s.handleRefreshTokenGrant(w, req)
	}
''','''	// handle grant type
	if handle := s.grantHandler(req.GrantType); handle != nil {
		handle(w, req)
	}
''')),add(SV,'''
type grantHandler func(http.ResponseWriter, *TokenRequest)

func (s *Server) grantHandler(grantType string) grantHandler {
	switch grantType {
	case PasswordGrantType:
		return s.handleResourceOwnerPasswordCredentialsGrant
	case ClientCredentialsGrantType:
		return s.handleClientCredentialsGrant
	case AuthorizationCodeGrantType:
		return s.handleAuthorizationCodeGrant
	case RefreshTokenGrantType:
		return s.handleRefreshTokenGrant
	default:
		return nil
	}
}
'''))
ref('srv-store-interface',sub(SV,'func (s *Server) revokeToken(',('''	// get token
	token, ok := list[signature]
	if !ok {
		return
	}

	// check client id
	if token.ClientID != clientID {
		return
	}

	// remove token
	delete(list, signature)
''','''	if token, ok := list[signature]; ok && token.ClientID == clientID {
		delete(list, signature)
	}
''')))
ref('srv-revocation-lists',sub(SV,'func (s *Server) revocationEndpoint(',('''	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.AccessTokens, token.SignatureString())
	}

	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())
	}
''','''	signature := token.SignatureString()
	tokens := []map[string]*ServerCredential{s.AccessTokens, s.RefreshTokens}
	for i := range tokens {
		credential := tokens[i][signature]
		if credential == nil {
			continue
		}
		if credential.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}
		s.revokeToken(req.ClientID, tokens[i], signature)
	}
''')))
ref('srv-new-alloc',fn(SV,'func NewServer(','''func NewServer(config ServerConfig) *Server {
	s := new(Server)
	s.Config = config
	s.Clients, s.Users = make(map[string]*ServerEntity), make(map[string]*ServerEntity)
	for _, list := range []*map[string]*ServerCredential{&s.AccessTokens, &s.RefreshTokens, &s.AuthorizationCodes} {
		*list = make(map[string]*ServerCredential)
	}
	return s
}
'''))
ref('srv-default-config',fn(SV,'func DefaultServerConfig(','''func DefaultServerConfig(secret []byte, allowed Scope) ServerConfig {
	const day = 24 * time.Hour
	var config ServerConfig
	config.Secret, config.AllowedScope = secret, allowed
	config.KeyLength = 16
	config.AccessTokenLifespan = 60 * time.Minute
	config.RefreshTokenLifespan = 7 * day
	config.AuthorizationCodeLifespan = time.Hour / 6
	return config
}
'''))
# library
ref('lib-param-helper',sub(TK,'func ParseTokenRequest(',('''	// get username and password
	username := r.PostForm.Get("username")
	password := r.PostForm.Get("password")

	// get refresh token
	refreshToken := r.PostForm.Get("refresh_token")
''',''),('''	// get code
	code := r.PostForm.Get("code")

''',''),('''		Username:     username,
		Password:     password,
		RefreshToken: refreshToken,
		RedirectURI:  redirectURIString,
		Code:         code,
''','''		Username:     r.PostForm.Get("username"),
		Password:     r.PostForm.Get("password"),
		RefreshToken: r.PostForm.Get("refresh_token"),
		RedirectURI:  redirectURIString,
		Code:         r.PostForm.Get("code"),
''')))
ref('lib-redirect-parse',sub(TK,'func ParseTokenRequest(',('''	redirectURIString, err := url.QueryUnescape(r.PostForm.Get("redirect_uri"))
	if err != nil {
		return nil, InvalidRequest("invalid redirect URI")
	}

	// validate redirect uri if present
	if redirectURIString != "" {
		_, err := url.ParseRequestURI(redirectURIString)
		if err != nil || strings.Contains(redirectURIString, "#") {
			return nil, InvalidRequest("invalid redirect URI")
		}
	}
''','''	redirectURIString, err := url.QueryUnescape(r.PostForm.Get("redirect_uri"))
	if err == nil && redirectURIString != "" {
		if _, err = url.ParseRequestURI(redirectURIString); err == nil && strings.ContainsRune(redirectURIString, '#') {
			err = errors.New("fragment")
		}
	}
	if err != nil {
		return nil, InvalidRequest("invalid redirect URI")
	}
''')))
ref('lib-values-loop',fn(TK,'func TokenRequestValues(','''func TokenRequestValues(r TokenRequest) url.Values {
	values := url.Values{}
	for name, value := range map[string]string{
		"grant_type":    r.GrantType,
		"username":      r.Username,
		"password":      r.Password,
		"refresh_token": r.RefreshToken,
		"redirect_uri":  url.QueryEscape(r.RedirectURI),
		"code":          r.Code,
	} {
		if value != "" {
			values.Set(name, value)
		}
	}
	if !r.Scope.Empty() {
		values.Set("scope", r.Scope.String())
	}
	return values
}
'''))
ref('lib-read-limited',sub(TK,'func ParseTokenResponse(',('''	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return nil, err
	}
''','''	body := &io.LimitedReader{R: res.Body, N: limit}
	data, err := io.ReadAll(body)
	if err != nil {
		return nil, err
	}
''')))
ref('lib-json-response',fn(TK,'func ParseTokenResponse(','''func ParseTokenResponse(res *http.Response, limit int64) (*TokenResponse, error) {
	trs := new(TokenResponse)
	if err := decodeResponse(res, limit, trs); err != nil {
		return nil, err
	}

	return trs, nil
}

func decodeResponse(res *http.Response, limit int64, out interface{}) error {
	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return err
	}

	contentType, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	switch {
	case err != nil:
		return err
	case contentType != "application/json":
		return fmt.Errorf("unexpected content type: %q", contentType)
	}

	return json.Unmarshal(data, out)
}
'''),fn(IN,'func ParseIntrospectionResponse(','''func ParseIntrospectionResponse(res *http.Response, limit int64) (*IntrospectionResponse, error) {
	irs := new(IntrospectionResponse)
	if err := decodeResponse(res, limit, irs); err != nil {
		return nil, err
	}

	return irs, nil
}
'''))
ref('lib-client-do',fn(CL,'func (c *Client) Authenticate(','''func (c *Client) Authenticate(trq TokenRequest) (*TokenResponse, error) {
	req, err := BuildTokenRequest(c.config.BaseURI+c.config.TokenEndpoint, trq)
	if err != nil {
		return nil, err
	}

	var trs *TokenResponse
	err = c.do(req, func(res *http.Response) (err error) {
		trs, err = ParseTokenResponse(res, c.config.ResponseLimit)
		return err
	})
	if err != nil {
		return nil, err
	}
	return trs, nil
}

func (c *Client) do(req *http.Request, parse func(*http.Response) error) error {
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()

	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}
	if parse == nil {
		return nil
	}
	return parse(res)
}
'''),fn(CL,'func (c *Client) Revoke(','''func (c *Client) Revoke(rrq RevocationRequest) error {
	req, err := BuildRevocationRequest(c.config.BaseURI+c.config.RevocationEndpoint, rrq)
	if err == nil {
		err = c.do(req, nil)
	}
	return err
}
'''))
ref('lib-bearer-slice',fn(BR,'func ParseBearerToken(','''func ParseBearerToken(r *http.Request) (string, error) {
	const prefix = BearerAccessTokenType + " "

	h := r.Header.Get("Authorization")
	switch {
	case h == "":
		return "", ProtectedResource()
	case len(h) <= len(prefix), !strings.EqualFold(h[:len(prefix)], prefix):
		return "", InvalidRequest("malformed authorization header")
	}

	return h[len(prefix):], nil
}
'''))
ref('lib-bearer-status',sub(BR,'func WriteBearerError(',('''	anError, ok := err.(*Error)
	if !ok || anError.Status == http.StatusInternalServerError {
		// write internal server error
		w.WriteHeader(http.StatusInternalServerError)

		// finish response
		_, err = w.Write(nil)

		return err
	}

	// get params
	params := anError.Params()

	// force at least one parameter
	if params == "" {
		params = `realm="OAuth2"`
	}

	// prepare response
	response := "Bearer " + params

	// set header
	w.Header().Set("WWW-Authenticate", response)

	// write header
	w.WriteHeader(anError.Status)
''','''	status := http.StatusInternalServerError
	if anError, ok := err.(*Error); ok && anError.Status != status {
		status = anError.Status

		params := anError.Params()
		if len(params) == 0 {
			params = `realm="OAuth2"`
		}
		w.Header().Set("WWW-Authenticate", fmt.Sprintf("Bearer %s", params))
	}

	// write header
	w.WriteHeader(status)
''')))
ref('lib-hs-new',sub(HS,'func ParseHS256Token(',('''	// construct token
	token := &HS256Token{
		Key:       key,
		Signature: signature,
	}

	// validate signatures
	if !token.Valid(secret) {
		return nil, errors.New("invalid token supplied")
	}

	return token, nil
''','''	// validate signature
	token := HS256TokenFromKey(secret, key)
	if !hmac.Equal(signature, token.Signature) {
		return nil, errors.New("invalid token supplied")
	}

	return token, nil
''')))
ref('lib-hs-dot',sub(HS,'func ParseHS256Token(',('''	s := strings.Split(str, ".")
	if len(s) != 2 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}

	// decode key
	key, err := b64.DecodeString(s[0])''','''	dot := strings.IndexByte(str, '.')
	if dot < 0 || strings.IndexByte(str[dot+1:], '.') >= 0 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}

	// decode key
	key, err := b64.DecodeString(str[:dot])'''),('''b64.DecodeString(s[1])''','''b64.DecodeString(str[dot+1:])''')))
ref('lib-hs-lastdot',sub(HS,'func ParseHS256Token(',('''	s := strings.Split(str, ".")
	if len(s) != 2 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}

	// decode key
	key, err := b64.DecodeString(s[0])''','''	dot := strings.Index(str, ".")
	if dot == -1 || dot != strings.LastIndex(str, ".") {
		return nil, errors.New("a token must have two segments separated by a dot")
	}

	// decode key
	key, err := b64.DecodeString(str[:dot])'''),('''b64.DecodeString(s[1])''','''b64.DecodeString(str[dot+1:])''')))
ref('lib-hs-fields',fn(HS,'func HS256TokenFromKey(','''func HS256TokenFromKey(secret []byte, key []byte) *HS256Token {
	mac := hmac.New(sha256.New, secret)
	mac.Write(key)
	token := new(HS256Token)
	token.Key = key
	token.Signature = mac.Sum(make([]byte, 0, sha256.Size))
	return token
}
'''))
ref('lib-hs-join',fn(HS,'func (t *HS256Token) String(','''func (t *HS256Token) String() string {
	return strings.Join([]string{t.KeyString(), t.SignatureString()}, ".")
}
'''))
ref('lib-hs-must',fn(HS,'func MustGenerateHS256Token(','''func MustGenerateHS256Token(secret []byte, length int) (token *HS256Token) {
	var err error
	if token, err = GenerateHS256Token(secret, length); err != nil {
		panic(err)
	}
	return
}
'''))
ref('lib-wr-params',sub(OA,'func WriteRedirect(',('''	// add params to fragment if requested
	var fragment string
	if useFragment {
		// prepare fragment
		f := make(url.Values)

		// add parameters
		for k, v := range params {
			f.Add(k, v)
		}

		// encode fragment
		fragment = f.Encode()
	} else {
		// get current query
		q := redirectURI.Query()

		// add parameters
		for k, v := range params {
			q.Add(k, v)
		}

		// reset query
		redirectURI.RawQuery = q.Encode()
	}
''','''	// prepare values
	values := url.Values{}
	if !useFragment {
		values = redirectURI.Query()
	}

	// add parameters
	for name, value := range params {
		values[name] = append(values[name], value)
	}

	// place values
	encoded, fragment := values.Encode(), ""
	if useFragment {
		fragment = encoded
	} else {
		redirectURI.RawQuery = encoded
	}
''')))
ref('lib-wr-hash',sub(OA,'func WriteRedirect(',('''	location := redirectURI.String()
	if fragment != "" {
		location += "#" + fragment
	}

	// set location
	w.Header().Add("Location", location)

	// prevent caching
	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")

	// prevent referrer leakage
	w.Header().Set("Referrer-Policy", "origin")
''','''	location := redirectURI.String()
	if len(fragment) > 0 {
		location = strings.Join([]string{location, fragment}, "#")
	}

	// set headers
	header := w.Header()
	header.Add("Location", location)
	for _, pair := range [][2]string{
		{"Cache-Control", "no-store"},
		{"Pragma", "no-cache"},
		{"Referrer-Policy", "origin"},
	} {
		header.Set(pair[0], pair[1])
	}
''')))
ref('lib-write-obj',fn(OA,'func Write(','''func Write(w http.ResponseWriter, obj interface{}, status int) error {
	setHeaders(w.Header(), "Content-Type", "application/json;charset=UTF-8", "Cache-Control", "no-store", "Pragma", "no-cache")
	w.WriteHeader(status)
	return json.NewEncoder(w).Encode(obj)
}

func setHeaders(h http.Header, pairs ...string) {
	for i := 0; i+1 < len(pairs); i += 2 {
		h.Set(pairs[i], pairs[i+1])
	}
}
'''))
ref('lib-known-slice',sub(OA,'func KnownGrantType(',('''	switch str {
	case PasswordGrantType,
		ClientCredentialsGrantType,
		AuthorizationCodeGrantType,
		RefreshTokenGrantType:
		return true
	}

	return false
''','''	return str == PasswordGrantType || str == ClientCredentialsGrantType ||
		str == AuthorizationCodeGrantType || str == RefreshTokenGrantType
''')),sub(OA,'func KnownTokenType(',('''	switch str {
	case AccessToken,
		RefreshToken:
		return true
	}

	return false
''','''	for _, known := range [2]string{AccessToken, RefreshToken} {
		if known == str {
			return true
		}
	}

	return false
''')))
ref('lib-er-params',fn(ER,'func (e *Error) Params(','''func (e *Error) Params() string {
	fields := e.Map()

	names := make([]string, 0, len(fields))
	for name := range fields {
		names = append(names, name)
	}
	sort.Strings(names)

	var b strings.Builder
	for i, name := range names {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(name + `="` + fields[name] + `"`)
	}
	return b.String()
}
'''))
ref('lib-er-params-fprintf',fn(ER,'func (e *Error) Params(','''func (e *Error) Params() string {
	var list []string
	for k, v := range e.Map() {
		list = append(list, k+"=\\""+v+"\\"")
	}
	sort.Sort(sort.StringSlice(list))
	return strings.Join(list, ", ")
}
'''))
ref('lib-er-map-set',fn(ER,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := map[string]string{}
	set := func(name, value string) {
		if value == "" {
			return
		}
		m[name] = value
	}

	set("error", e.Name)
	set("error_description", e.Description)
	set("error_uri", e.URI)
	set("realm", e.Realm)
	set("state", e.State)
	if !e.Scope.Empty() {
		m["scope"] = e.Scope.String()
	}

	return m
}
'''))
ref('lib-er-ctor',sub(ER,'func InvalidClient(',('''	return &Error{
		Status:      http.StatusUnauthorized,
		Name:        "invalid_client",
		Description: description,
		Headers: map[string]string{
			"WWW-Authenticate": `Basic realm="OAuth2"`,
		},
	}
''','''	err := newError(http.StatusUnauthorized, "invalid_client", description)
	err.Headers = map[string]string{"WWW-Authenticate": fmt.Sprintf("Basic realm=%q", "OAuth2")}
	return err
''')),sub(ER,'func AccessDenied(',('''	return &Error{
		Status:      http.StatusForbidden,
		Name:        "access_denied",
		Description: description,
	}
''','''	return newError(http.StatusForbidden, "access_denied", description)
''')),add(ER,'''
func newError(status int, name, description string) *Error {
	return &Error{Name: name, Description: description, Status: status}
}
'''))
ref('lib-er-writeerror',fn(ER,'func WriteError(','''func WriteError(w http.ResponseWriter, err error) error {
	anError, ok := err.(*Error)
	if !ok {
		return Write(w, ServerError(""), http.StatusInternalServerError)
	}

	header := w.Header()
	for name := range anError.Headers {
		header.Set(name, anError.Headers[name])
	}

	if uri := anError.RedirectURI; uri != "" {
		return WriteRedirect(w, uri, anError.Map(), anError.UseFragment)
	}

	return Write(w, anError, anError.Status)
}
'''))
ref('lib-er-parse',fn(ER,'func ParseRequestError(','''func ParseRequestError(res *http.Response, limit int64) error {
	fallback := fmt.Errorf("unexpected response: %s", res.Status)

	data, _ := ioutil.ReadAll(io.LimitReader(res.Body, limit))

	oauthError := &Error{}
	if err := json.Unmarshal(data, oauthError); err != nil || oauthError.Name == "" {
		return fallback
	}

	oauthError.Status = res.StatusCode
	return oauthError
}
'''))
ref('lib-basic-required',fn(RV,'func ParseRevocationRequest(','''func ParseRevocationRequest(r *http.Request) (*RevocationRequest, error) {
	if r.Method != http.MethodPost {
		return nil, InvalidRequest("invalid HTTP method")
	}

	if err := r.ParseForm(); err != nil {
		return nil, InvalidRequest("malformed query parameters or body form")
	}

	rq := &RevocationRequest{
		Token:         r.PostForm.Get("token"),
		TokenTypeHint: r.PostForm.Get("token_type_hint"),
	}
	if rq.Token == "" {
		return nil, InvalidRequest("missing token")
	}

	var ok bool
	if rq.ClientID, rq.ClientSecret, ok = r.BasicAuth(); !ok {
		return nil, InvalidRequest("missing or invalid HTTP authorization header")
	}

	return rq, nil
}
'''))
ref('lib-tr-map-loop',fn(TK,'func (r *TokenResponse) Map(','''func (r *TokenResponse) Map() map[string]string {
	m := map[string]string{
		"token_type":   r.TokenType,
		"access_token": r.AccessToken,
		"expires_in":   strconv.FormatInt(int64(r.ExpiresIn), 10),
	}
	for _, optional := range []struct{ name, value string }{
		{"refresh_token", r.RefreshToken},
		{"scope", r.Scope.String()},
		{"state", r.State},
	} {
		if optional.value != "" {
			m[optional.name] = optional.value
		}
	}
	if len(r.Scope) > 0 {
		m["scope"] = r.Scope.String()
	}
	return m
}
'''))
ref('lib-code-map',fn(CO,'func (r *CodeResponse) Map(','''func (r *CodeResponse) Map() map[string]string {
	if r.State == "" {
		return map[string]string{"code": r.Code}
	}
	return map[string]string{"code": r.Code, "state": r.State}
}
'''))
ref('lib-scope-string',fn(SC,'func (s Scope) String(','''func (s Scope) String() string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if i != 0 {
			b.WriteByte(' ')
		}
		b.WriteString(s[i])
	}
	return b.String()
}
'''))
ref('lib-scope-inc',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	missing := func(name string) bool {
		return !s.Contains(name)
	}
	for i := len(scope) - 1; i >= 0; i-- {
		if missing(scope[i]) {
			return false
		}
	}
	return true
}
'''))
ref('lib-scope-inc-count',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	included := 0
	for _, name := range scope {
		if s.Contains(name) {
			included++
		}
	}
	return included == len(scope)
}
'''))
ref('lib-scope-inc-labels',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
names:
	for _, name := range scope {
		for _, own := range s {
			if own == name {
				continue names
			}
		}
		return false
	}
	return true
}
'''))
ref('lib-scope-inc-rec',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	if len(scope) == 0 {
		return true
	}
	for i := 0; i != len(scope); i++ {
		ok := s.Contains(scope[i])
		if !ok {
			return ok
		}
	}
	return true
}
'''))
