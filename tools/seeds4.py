S=[]
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))
s('c03-implicit-secret','C03',[('token.go','''	// check client id
	if clientID == "" {
		return nil, InvalidRequest("missing client identification")
	}

	// get username''','''	// check client id
	if clientID == "" {
		return nil, InvalidRequest("missing client identification")
	}

	// the body may name the client as well
	if id := r.PostForm.Get("client_id"); id != "" {
		clientID = id
	}

	// get username'''),('server.go','''	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''','''	// authenticate client
	authenticated := client
	if id, _, ok := r.BasicAuth(); ok && s.Clients[id] != nil {
		authenticated = s.Clients[id]
	}
	if authenticated.Confidential && authenticated.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf2", "conf2-secret", "grant_type", "client_credentials", "scope", "foo", "client_id", "conf")
	for _, c := range s.AccessTokens {
		if c.ClientID == "conf" {
			t.Fatal("a token was issued to a client that did not authenticate", w.Code)
		}
	}''','basic credentials of one client together with the id of another in the body','a token is issued to a client whose secret was not presented')
s('c11-stale-code','C11',[('server.go','''	// save access token
	s.AccessTokens[accessToken.SignatureString()] = &ServerCredential{
		ClientID:  clientID,
		Username:  username,
		ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),''','''	// save access token
	lifespan := s.Config.AccessTokenLifespan
	if username == "" && issueRefreshToken {
		lifespan = s.Config.RefreshTokenLifespan
	}
	s.AccessTokens[accessToken.SignatureString()] = &ServerCredential{
		ClientID:  clientID,
		Username:  username,
		ExpiresAt: time.Now().Add(lifespan),''')],'''
	s := seedServer()
	seedPost(s, "/token", "conf", "conf-secret", "grant_type", "client_credentials", "scope", "foo")
	for _, c := range s.AccessTokens {
		if c.ExpiresAt.After(time.Now().Add(s.Config.AccessTokenLifespan + time.Minute)) {
			t.Fatal("an access token outlives its lifespan")
		}
	}''','the client credentials grant','access tokens of the client credentials grant live as long as refresh tokens')
s('c11-shared-key','C11',[('server.go','''	accessToken := s.Config.MustGenerate()

	// generate refresh token if requested
	var refreshToken *HS256Token
	if issueRefreshToken {
		refreshToken = s.Config.MustGenerate()
	}''','''	accessToken := s.Config.MustGenerate()

	// generate refresh token if requested
	var refreshToken *HS256Token
	if issueRefreshToken {
		refreshToken = HS256TokenFromKey(s.Config.Secret, append([]byte{0}, accessToken.Key...))
	}''')],'''
	s := seedServer()
	at, rt := seedTokens(s, "conf", "conf-secret", "foo")
	a, _ := ParseHS256Token(s.Config.Secret, at)
	r, _ := ParseHS256Token(s.Config.Secret, rt)
	if a == nil || r == nil || bytes.Contains(r.Key, a.Key) {
		t.Fatal("the refresh token is derived from the access token")
	}''','comparing the keys of the two tokens of a response','the refresh token is derived from the access token, so that its randomness is known to whoever has that')
s('c19-retry','C19',[('hs256.go','''	_, err := io.ReadFull(randSource, key)
	if err != nil {
		return nil, err
	}''','''	n, err := io.ReadFull(randSource, key)
	if err != nil && n == 0 {
		return nil, err
	}''')],'''
	old := randSource
	defer func() { randSource = old }()
	randSource = strings.NewReader("short")
	if tk, err := GenerateHS256Token([]byte("secret"), 32); err == nil {
		t.Fatal("a token was generated from ", len("short"), " random bytes: ", tk)
	}''','a random source that fails after some bytes','a token is generated from fewer random bytes than requested')
s('c22-known-hint','C22',[('introspection.go','''	if len(r.TokenTypeHint) != 0 {''','''	if KnownTokenType(r.TokenTypeHint) {''')],'''
	r, err := BuildIntrospectionRequest("http://example.com", IntrospectionRequest{Token: "x", TokenTypeHint: "id_token"})
	if err != nil {
		t.Fatal(err)
	}
	b, _ := io.ReadAll(r.Body)
	if !strings.Contains(string(b), "id_token") {
		t.Fatal("a field is not transmitted: " + string(b))
	}''','a token type hint the library does not know','a field of a request is not transmitted')
s('c27-refresh-prefix','C27',[('server.go','''		_ = WriteError(w, InvalidGrant("unknown refresh token"))
		return''','''		_ = WriteError(w, InvalidGrant("unknown refresh token of "+s.Users[rq.Username].Secret[:0]))
		return''')],'','','') if False else None
s('c27-map-client','C27',[('server.go','''	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response''','''	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner, which may be a client of the same operator
		if accessToken.ClientID != req.ClientID || s.Clients[accessToken.ClientID].Confidential && accessToken.Username != "" && s.Users[accessToken.Username].Secret == "" {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response''')],'''
	s := seedServer()
	at, _ := seedTokens(s, "conf", "conf-secret", "foo")
	delete(s.Users, "alice")
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	seedPost(s, "/introspect", "conf", "conf-secret", "token", at)''','introspecting a token of a user that has been removed','a request makes the server panic')
s('c27-empty-scope','C27',[('server.go','''	// validate scope
	if !accessToken.Scope.Includes(required) {''','''	// validate scope
	if first := required[0]; !accessToken.Scope.Contains(first) || !accessToken.Scope.Includes(required) {''')],'''
	s := seedServer()
	at, _ := seedTokens(s, "conf", "conf-secret", "foo")
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	seedAuth(s, at)''','a resource that requires no scope','authorizing a request panics')
s('c29-empty-password','C29',[('server.go','''	// authenticate resource owner
	owner, found''','''	// the password is mandatory
	if rq.Username != "" && rq.Password == "" {
		_ = WriteError(w, InvalidRequest("missing password"))
		return
	}

	// authenticate resource owner
	owner, found''')],'''
	s := seedServer()
	s.Users["carol"] = &ServerEntity{Secret: ""}
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "password", "username", "carol", "scope", "foo")
	if w.Code != 200 {
		t.Fatal("a request that violates no rule was rejected", w.Body.String())
	}''','a user with an empty password','a valid request is rejected')
s('c07-cascade-client','C07',[('server.go','''		// revoke all access tokens
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() {''','''		// revoke all access tokens
		for key, token := range s.AccessTokens {
			if token.Code == authorizationCode.SignatureString() || token.Username == storedAuthorizationCode.Username && token.Code != "" {''')],'''
	s := seedServer()
	ex := func(code string) string {
		return seedStr(seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf"), "access_token")
	}
	c1, c2 := seedCode(s, "conf", "foo"), seedCode(s, "conf", "foo")
	ex(c1)
	at := ex(c2)
	ex(c1)
	if ok, _ := seedAuth(s, at, "foo"); !ok {
		t.Fatal("the replay of a code removed tokens of another one")
	}''','two codes of one user, one of which is replayed','the replay of a code removes tokens of other codes')
s('c13-defer-unlock','C13',[('server.go','''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {
	// lock mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()
''','''func (s *Server) Authorize(w http.ResponseWriter, r *http.Request, required Scope) bool {
''')] if False else [('server.go','''	// validate scope
	if !accessToken.Scope.Includes(required) {
		_ = WriteBearerError(w, InsufficientScope(required))
		return false
	}

	return true''','''	// validate scope
	s.Mutex.Unlock()
	ok := accessToken.Scope.Includes(required)
	s.Mutex.Lock()
	if !ok {
		_ = WriteBearerError(w, InsufficientScope(required))
		return false
	}

	return true''')],'''
	s := seedServer()
	at, _ := seedTokens(s, "conf", "conf-secret", "foo")
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		defer close(done)
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			s.Mutex.Lock()
			for _, c := range s.AccessTokens {
				c.Scope = Scope{"foo", strconv.Itoa(i)}
			}
			s.Mutex.Unlock()
			time.Sleep(time.Microsecond)
		}
	}()
	for i := 0; i < 5000; i++ {
		seedAuth(s, at, "foo")
	}
	close(stop)
	<-done
''','a change of a credential concurrent with an authorization','a credential is read outside the critical section',race=True)
s('c18-trailing','C18',[('hs256.go','''	if len(s) != 2 {''','''	if len(s) < 2 {''')],'''
	tk := MustGenerateHS256Token([]byte("secret"), 16).String()
	if _, err := ParseHS256Token([]byte("secret"), tk+".x"); err == nil {
		t.Fatal("a token with three segments was accepted")
	}''','a valid token followed by further segments','strings that extend a token are accepted')
s('c24-realm','C24',[('bearer.go','''	if params == "" {''','''	if params == "" && anError.Status == http.StatusUnauthorized {''')],'''
	w := httptest.NewRecorder()
	_ = WriteBearerError(w, &Error{Status: http.StatusForbidden})
	if !strings.Contains(w.Header().Get("WWW-Authenticate"), "realm=") {
		t.Fatal("a challenge without any parameter: " + w.Header().Get("WWW-Authenticate"))
	}''','an error without parameters and a status other than 401','a bearer challenge has no parameter')
s('c26-dup','C26',[('scope.go','''		if item != "" {
			res = append(res, item)''','''		if item != "" && !Scope(res).Contains(item) {
			res = append(res, item)''')],'''
	if ParseScope("a b a").String() != "a b a" {
		t.Fatal("a name is dropped")
	}''','a scope that repeats a name','parsing drops names')
s('c10-refresh-type','C10',[('server.go','''			res.TokenType = RefreshToken''','''			res.TokenType = RefreshToken
			if refreshToken.Code != "" && len(refreshToken.Scope) == 0 {
				res.Scope = s.Config.AllowedScope
			}''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	w = seedPost(s, "/introspect", "conf", "conf-secret", "token", seedStr(w, "refresh_token"))
	if seedStr(w, "scope") != "" {
		t.Fatal("a scope that was not granted is reported: " + w.Body.String())
	}''','a refresh token of a code without scope','introspection reports a scope that was not granted')
S=[x for x in S if x]
