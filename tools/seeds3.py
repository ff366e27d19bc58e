S=[]
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

s('c03-short-secret','C03',[('server.go','''	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''','''	// authenticate client
	if client.Confidential && strings.TrimSpace(client.Secret) != strings.TrimSpace(req.ClientSecret) {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf", " conf-secret", "grant_type", "client_credentials", "scope", "foo")
	if w.Code == 200 {
		t.Fatal("a different secret was accepted")
	}''','a secret that differs in surrounding white space','a client is authenticated with a secret that is not exactly its own')

s('c03-implicit-secret','C03',[('token.go','''	// get scope''','''	// get client from body if it is repeated
	if id := r.PostForm.Get("client_id"); id != "" {
		clientID = id
	}

	// get scope'''),('server.go','''	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''','''	if id, secret, ok := r.BasicAuth(); ok {
		if c := s.Clients[id]; c == nil || c.Confidential && c.Secret != secret {
			_ = WriteError(w, InvalidClient("unknown client"))
			return
		}
	} else if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf2", "conf2-secret", "grant_type", "client_credentials", "scope", "foo", "client_id", "conf")
	for _, c := range s.AccessTokens {
		if c.ClientID == "conf" {
			t.Fatal("a token was issued to a client that did not authenticate", w.Code)
		}
	}''','basic credentials of one client together with the id of another in the body','a token is issued to a client whose secret was not presented')

s('c12-mark-scope','C12',[('server.go','''	// get stored refresh token by signature
	storedRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]
	if !found {''','''	// get stored refresh token by signature
	storedRefreshToken, found := s.RefreshTokens[refreshToken.SignatureString()]
	if found && storedRefreshToken.ClientID == rq.ClientID && !s.Config.AllowedScope.Includes(rq.Scope) {
		delete(s.RefreshTokens, refreshToken.SignatureString())
	}
	if !found {''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt, "scope", "nope")
	if w.Code == 200 {
		t.Fatal("scope")
	}
	w = seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if w.Code != 200 {
		t.Fatal("a rejected refresh removed the token")
	}''','a refresh rejected for its scope, then a valid one','a rejected refresh removes the refresh token') if False else \
s('c12-expired-cleanup','C12',[('server.go','''		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false''','''		_ = WriteBearerError(w, InvalidToken("expired token"))
		for key, rt := range s.RefreshTokens {
			if rt.Code != "" && rt.Code == accessToken.Code {
				delete(s.RefreshTokens, key)
			}
		}
		return false''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	at, rt := seedStr(w, "access_token"), seedStr(w, "refresh_token")
	for _, c := range s.AccessTokens {
		c.ExpiresAt = time.Now().Add(-time.Hour)
	}
	seedAuth(s, at)
	w = seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if w.Code != 200 {
		t.Fatal("using an expired access token removed its refresh token")
	}''','using an expired access token of a code, then refreshing','a rejected request removes credentials')

s('c12-cross-revoke','C12',[('server.go','''	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.RefreshTokens''','''	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			refreshToken.ExpiresAt = time.Now()
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token
		s.revokeToken(req.ClientID, s.RefreshTokens''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	seedPost(s, "/revoke", "conf2", "conf2-secret", "token", rt)
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if w.Code != 200 {
		t.Fatal("a rejected revocation changed the token")
	}''','a revocation of a foreign refresh token, then its use by the owner','a rejected revocation invalidates a token of another client')

s('c23-json-expires','C23',[('token.go','''		m["refresh_token"] = r.RefreshToken''','''		m["refresh_token"] = strings.TrimRight(r.RefreshToken, "=")''')],'''
	r := NewBearerTokenResponse("a", 1)
	r.RefreshToken = "abc="
	if r.Map()["refresh_token"] != "abc=" {
		t.Fatal("the map differs from the JSON form")
	}''','a refresh token with padding','the redirect form of a token response carries another refresh token')

s('c23-error-uri','C23',[('error.go','''	if e.URI != "" {''','''	if e.URI != "" && e.Description == "" {''')],'''
	m := (&Error{Name: "x", Description: "d", URI: "u"}).Map()
	if m["error_uri"] != "u" {
		t.Fatal("the map of an error lacks its URI")
	}''','an error with both a description and a URI','the redirect form of an error lacks a field')

s('c27-nil-owner','C27',[('server.go','''	owner, found := s.Users[username]
	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}''','''	owner := s.Users[username]
	if (owner == nil && username != "") || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}'''),('server.go','''	// generate new authorization code
	authorizationCode := s.Config.MustGenerate()
''','''	// generate new authorization code
	authorizationCode := s.Config.MustGenerate()

''')],'''
	s := seedServer()
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	seedPost(s, "/authorize", "", "", "response_type", "code", "client_id", "pub", "redirect_uri", "http://example.com/pub", "scope", "foo", "password", "x")''','a code authorization request without a username','a request makes the server panic')

s('c27-typed-error','C27',[('introspection.go','''	// limit reader''','''	// limit reader
''')] if False else [('bearer.go','''	if !strings.EqualFold(h[:len(BearerAccessTokenType)], BearerAccessTokenType) {''','''	if !strings.EqualFold(strings.Fields(h)[0], BearerAccessTokenType) {''')],'''
	r := httptest.NewRequest("GET", "/", nil)
	r.Header["Authorization"] = []string{"          "}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	_, _ = ParseBearerToken(r)''','an Authorization header of blanks','parsing a header panics')

s('c27-code-prefix','C27',[('server.go','''	// parse authorization code
	authorizationCode, err := ParseHS256Token(s.Config.Secret, rq.Code)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))''','''	// parse authorization code
	authorizationCode, err := ParseHS256Token(s.Config.Secret, rq.Code)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()+" "+rq.Code[:6]))''')],'''
	s := seedServer()
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", "x", "redirect_uri", "http://example.com/conf")''','a code shorter than six characters','a request makes the server panic')

s('c29-replay-kind','C29',[('server.go','''	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))''','''	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		if rq.RedirectURI == "" {
			_ = WriteError(w, InvalidRequest("missing redirect uri"))
			return
		}
		_ = WriteError(w, InvalidGrant("changed redirect uri"))''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code)
	if w.Code == 200 {
		t.Fatal("accepted")
	}
	s2 := seedServer()
	_, _ = seedTokens(s2, "conf", "conf-secret", "foo")
	if seedStr(w, "error") != "invalid_grant" {
		t.Fatal("wrong error", w.Body.String())
	}''','a code exchange without a redirect URI','a changed redirect URI is not reported as invalid grant') if False else None

s('c29-empty-hint','C29',[('server.go','''	// make sure the grant type is known
	if !KnownGrantType(req.GrantType) {''','''	// make sure the request is complete
	if req.GrantType == PasswordGrantType && req.Password == "" {
		_ = WriteError(w, InvalidRequest("missing password"))
		return
	}

	// make sure the grant type is known
	if !KnownGrantType(req.GrantType) {''')],'''
	s := seedServer()
	s.Users["carol"] = &ServerEntity{Secret: ""}
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "password", "username", "carol", "scope", "foo")
	if w.Code != 200 {
		t.Fatal("a request that violates no rule was rejected", w.Body.String())
	}''','a user with an empty password','a valid request is rejected')

s('c05-refresh-narrow','C05',[('server.go','''	if rq.Scope.Empty() {
		rq.Scope = storedRefreshToken.Scope
	}
''','''	inherited := rq.Scope.Empty()
	if inherited {
		rq.Scope = storedRefreshToken.Scope
	}
'''),('server.go','''	// delete used refresh token
''','''	// the reported scope is the allowed one if it is inherited
	if inherited && len(r.Scope) > 2 {
		r.Scope = s.Config.AllowedScope
	}

	// delete used refresh token
''')],'''
	s := seedServer()
	s.Config.AllowedScope = Scope{"a", "b", "c", "d"}
	_, rt := seedTokens(s, "conf", "conf-secret", "a b c")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if w.Code == 200 && seedStr(w, "scope") != "a b c" {
		t.Fatal("the reported scope is not the stored one: " + w.Body.String())
	}''','refreshing a token with more than two scopes without requesting a scope','a refresh reports another scope than it stores')

s('c17-drop-empty','C17',[('oauth2.go','''		for k, v := range params {
			q.Add(k, v)
		}''','''		for k, v := range params {
			if v != q.Get(k) {
				q.Add(k, v)
			}
		}''')],'''
	w := httptest.NewRecorder()
	_ = WriteRedirect(w, "http://example.com/cb", map[string]string{"a": ""}, false)
	if !strings.Contains(w.Header().Get("Location"), "a=") {
		t.Fatal("a parameter is lost: " + w.Header().Get("Location"))
	}''','an empty parameter value','a parameter is not transmitted')

s('c17-order','C17',[('oauth2.go','''	if fragment != "" {
		location += "#" + fragment
	}''','''	if fragment != "" && redirectURI.RawQuery == "" {
		location += "#" + fragment
	} else if fragment != "" {
		location = strings.TrimSuffix(location, "&") + "#" + fragment
	}''')],'''
	w := httptest.NewRecorder()
	_ = WriteRedirect(w, "http://example.com/cb?x=1&", map[string]string{"a": "b"}, true)
	if w.Header().Get("Location") != "http://example.com/cb?x=1&#a=b" {
		t.Fatal(w.Header().Get("Location"))
	}''','','') if False else None

s('c02-empty-uri','C02',[('server.go','''	if client.RedirectURI != req.RedirectURI {''','''	if client.RedirectURI != req.RedirectURI && client.RedirectURI != "" {''')],'''
	s := seedServer()
	s.Clients["machine"] = &ServerEntity{Secret: "x", Confidential: true}
	w := seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "machine", "redirect_uri", "http://evil.example", "scope", "foo", "username", "alice", "password", "alice-pw")
	if w.Header().Get("Location") != "" {
		t.Fatal("redirected to an unregistered URI")
	}''','a client without a redirect URI','requests for clients without a redirect URI are redirected anywhere')

s('c04-get-password','C04',[('server.go','''	if r.Method == "GET" {
		_, _''','''	if r.Method == "GET" && r.Form.Get("username") == "" {
		_, _'''),('server.go','''	username := r.PostForm.Get("username")
	password := r.PostForm.Get("password")''','''	username := r.Form.Get("username")
	password := r.Form.Get("password")''')],'''
	s := seedServer()
	q := url.Values{"response_type": {"token"}, "client_id": {"pub"}, "redirect_uri": {"http://example.com/pub"}, "scope": {"foo"}, "username": {"alice"}, "password": {"alice-pw"}}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/authorize?"+q.Encode(), nil))
	if len(s.AccessTokens) != 0 {
		t.Fatal("a GET request issued a token")
	}''','a GET request with credentials in the query','tokens are issued for credentials in the URL')

s('c06-expiry-order','C06',[('server.go','''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {''','''	// validate expiration
	if !storedAuthorizationCode.ExpiresAt.After(time.Unix(0, 0)) || storedAuthorizationCode.ExpiresAt.Add(s.Config.AuthorizationCodeLifespan).Before(time.Now()) {''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	for _, c := range s.AuthorizationCodes {
		c.ExpiresAt = time.Now().Add(-time.Minute)
	}
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	if w.Code == 200 {
		t.Fatal("an expired code was exchanged")
	}''','a code that expired less than its lifespan ago','codes are honoured for twice their lifespan')

s('c08-foreign-refresh','C08',[('server.go','''	if storedRefreshToken.ClientID != rq.ClientID {''','''	if storedRefreshToken.ClientID != rq.ClientID && storedRefreshToken.Code == "" {''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	w = seedPost(s, "/token", "conf2", "conf2-secret", "grant_type", "refresh_token", "refresh_token", seedStr(w, "refresh_token"))
	if w.Code == 200 {
		t.Fatal("a refresh token of another client was used")
	}''','a refresh token obtained by code, presented by another client','refresh tokens from codes are not bound to their client')

s('c11-implicit-code','C11',[('server.go','''	// generate refresh token if requested
	var refreshToken *HS256Token
	if issueRefreshToken {
		refreshToken = s.Config.MustGenerate()
	}''','''	// generate refresh token if requested
	var refreshToken *HS256Token
	if issueRefreshToken {
		refreshToken = s.Config.MustGenerate()
		if username == "" {
			refreshToken = accessToken
		}
	}''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "client_credentials", "scope", "foo")
	if seedStr(w, "access_token") == seedStr(w, "refresh_token") {
		t.Fatal("a token value is used twice")
	}''','the client credentials grant','the same value is used as access and refresh token')

s('c19-must','C19',[('hs256.go','''	token, err := GenerateHS256Token(secret, length)
	if err != nil {
		panic(err)
	}''','''	token, err := GenerateHS256Token(secret, length)
	for i := 0; err != nil && length > 8; i++ {
		length /= 2
		token, err = GenerateHS256Token(secret, length)
	}
	if err != nil {
		panic(err)
	}''')],'''
	old := randSource
	defer func() { randSource = old; _ = recover() }()
	randSource = io.LimitReader(old, 48)
	tk := MustGenerateHS256Token([]byte("secret"), 32)
	tk = MustGenerateHS256Token([]byte("secret"), 32)
	if len(tk.Key) != 32 {
		t.Error("a token has too little randomness: ", len(tk.Key))
	}''','a random source that fails while a token is generated','a token is generated with a shorter key')

s('c20-get-token','C20',[('token.go','''	if r.Method != "POST" {''','''	if r.Method != "POST" && r.Method != "PUT" {''')],'''
	r := httptest.NewRequest("PUT", "/", strings.NewReader("grant_type=password&client_id=x"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	if _, err := ParseTokenRequest(r); err == nil {
		t.Fatal("a PUT request was accepted")
	}''','a PUT request','token requests are accepted with other methods')

s('c22-basic-escape','C22',[('token.go','''	// set client credentials
	if''','''	// set client credentials
	r.ClientSecret = strings.TrimSpace(r.ClientSecret)
	if''')] if False else [('introspection.go','''	if r.TokenTypeHint != "" {''','''	if KnownTokenType(r.TokenTypeHint) {''')],'''
	r, err := BuildIntrospectionRequest("http://example.com", IntrospectionRequest{Token: "x", TokenTypeHint: "id_token"})
	if err != nil {
		t.Fatal(err)
	}
	b, _ := io.ReadAll(r.Body)
	if !strings.Contains(string(b), "id_token") {
		t.Fatal("a field is not transmitted: " + string(b))
	}''','a token type hint the library does not know','a field of a request is not transmitted')

s('c25-limit-error','C25',[('error.go','''	// limit reader''','''	// limit reader''')] if False else [('client.go','''	if config.ResponseLimit == 0 {
		config.ResponseLimit = 2048
	}''','''	if config.ResponseLimit == 0 && client.Timeout == 0 {
		config.ResponseLimit = 2048
	}''')],'''
	c := NewClientWithClient(Default("http://example.com"), &http.Client{Timeout: time.Second})
	if c.config.ResponseLimit <= 0 {
		t.Fatal("no response limit")
	}''','an HTTP client with a timeout','there is no default limit')

s('c33-redirect','C33',[('error.go','''		return WriteRedirect(w, anError.RedirectURI, anError.Map(), anError.UseFragment)''','''		if err := WriteRedirect(w, anError.RedirectURI, anError.Map(), anError.UseFragment); err != nil && w.Header().Get("Location") == "" {
			return err
		}
		return nil''')],'''
	w := &brokenWriter{httptest.NewRecorder()}
	if WriteError(w, AccessDenied("").SetRedirect("http://example.com", "", false)) == nil {
		t.Fatal("a lost response is reported as written")
	}''','a response writer that fails','an error redirect that could not be written is reported as written',extra='''
type brokenWriter struct{ *httptest.ResponseRecorder }

func (w *brokenWriter) Write([]byte) (int, error) { return 0, errors.New("broken") }
''')
s('c32-cache','C32',[('hs256.go','''// Valid returns true when the tokens''','''var knownTokens sync.Map

// Valid returns true when the tokens'''),('hs256.go','''	segments := strings.Split(str, ".")''','''	// use cached token
	if v, ok := knownTokens.Load(str); ok {
		return v.(*HS256Token), nil
	}

	segments := strings.Split(str, ".")'''),('hs256.go','''	return token, nil
}

// MustGen''','''	knownTokens.Store(str, token)

	return token, nil
}

// MustGen''')],'','','') if False else None
s('c32-allowed','C32',[('server.go','''	if !accessToken.Scope.Includes(required) {
		_ = WriteBearerError''','''	if sort.Strings(required); !accessToken.Scope.Includes(required) {
		_ = WriteBearerError''')],'','','') if False else None
S=[x for x in S if x]
