S=[]
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

s('c01-expiry-seconds','C01',[('server.go','if accessToken.ExpiresAt.Before(time.Now()) {\n\t\t_ = WriteBearerError','if accessToken.ExpiresAt.Before(time.Now().Truncate(time.Minute)) {\n\t\t_ = WriteBearerError')],'''
	s := seedServer()
	a, _ := seedTokens(s, "conf", "conf-secret", "foo")
	tk, _ := ParseHS256Token(s.Config.Secret, a)
	// wait for a point in time that is not close to a full minute
	for time.Now().Second() < 2 {
		time.Sleep(200 * time.Millisecond)
	}
	s.AccessTokens[tk.SignatureString()].ExpiresAt = time.Now().Add(-time.Second)
	if ok, _ := seedAuth(s, a, "foo"); ok {
		t.Fatal("an expired token was accepted")
	}''','a token presented less than a minute after its expiry','expired access tokens are still accepted until the current minute is over')

s('c02-prefix-uri','C02',[('server.go','if client.RedirectURI != req.RedirectURI {','if !strings.HasPrefix(req.RedirectURI, client.RedirectURI) {')],'''
	s := seedServer()
	w := seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "pub", "redirect_uri", "http://example.com/pub.evil.org", "username", "alice", "password", "alice-pw")
	if loc := w.Header().Get("Location"); loc != "" {
		t.Fatal("redirected to a foreign URI: " + loc)
	}''','a redirect URI that extends the registered one','tokens are redirected to URIs that merely start with the registered one')

s('c03-secret-case','C03',[('server.go','''	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''','''	// authenticate client
	if client.Confidential && req.GrantType != AuthorizationCodeGrantType && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "wrong", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	if w.Code == 200 {
		t.Fatal("a code was exchanged without the client secret")
	}''','a code exchange by a confidential client with a wrong secret','confidential clients can exchange codes without their secret')

s('c04-unknown-user','C04',[('server.go','''	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {''','''	owner, found := s.Users[rq.Username]
	if !found {
		owner = &ServerEntity{}
	}
	if owner.Secret != rq.Password {''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "password", "username", "mallory", "scope", "foo")
	if w.Code == 200 {
		t.Fatal("tokens were issued for an unknown user")
	}''','an unknown user name together with an empty password','tokens are issued for users that do not exist')

s('c05-refresh-allowed','C05',[('server.go','if !storedRefreshToken.Scope.Includes(rq.Scope) {','if !s.Config.AllowedScope.Includes(rq.Scope) {')],'''
	s := seedServer()
	_, r := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", r, "scope", "foo bar")
	if w.Code == 200 {
		t.Fatal("the scope was widened: " + w.Body.String())
	}''','a refresh of a narrowed grant that asks for more than was granted','refreshing widens the granted scope up to the allowed scope')

s('c06-optional-uri','C06',[('server.go','if storedAuthorizationCode.RedirectURI != rq.RedirectURI {','if rq.RedirectURI != "" && storedAuthorizationCode.RedirectURI != rq.RedirectURI {')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code)
	if w.Code == 200 {
		t.Fatal("a code was exchanged without its redirect URI")
	}''','a code exchange without a redirect URI','codes are honoured without the redirect URI they are bound to')

s('c07-first-only','C07',[('server.go','''			if token.Code == authorizationCode.SignatureString() {
				delete(s.AccessTokens, key)
			}''','''			if token.Code == authorizationCode.SignatureString() {
				delete(s.AccessTokens, key)
				break
			}''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	exchange := func() *httptest.ResponseRecorder {
		return seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	}
	w := exchange()
	a1, r := seedStr(w, "access_token"), seedStr(w, "refresh_token")
	a2 := seedStr(seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", r), "access_token")
	exchange()
	ok1, _ := seedAuth(s, a1, "foo")
	ok2, _ := seedAuth(s, a2, "foo")
	if ok1 || ok2 {
		t.Fatal("access tokens survive the replay of their code")
	}''','a code whose tokens were refreshed before the code is replayed','only one of several access tokens of a replayed code is revoked')

s('c08-narrow-keep','C08',[('server.go','''	// delete used refresh token
	delete(s.RefreshTokens, refreshToken.SignatureString())
''','''	// delete used refresh token if it has been replaced by an equal one
	if rq.Scope.Includes(storedRefreshToken.Scope) {
		delete(s.RefreshTokens, refreshToken.SignatureString())
	}
''')],'''
	s := seedServer()
	_, r := seedTokens(s, "conf", "conf-secret", "foo bar")
	seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", r, "scope", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", r)
	if w.Code == 200 {
		t.Fatal("a refresh token was used twice")
	}''','a refresh with a narrowed scope followed by a second use','a refresh token stays valid after a refresh with a narrowed scope')

s('c09-revoke-grant','C09',[('server.go','''	// remove token
	delete(list, signature)
''','''	// remove token
	delete(list, signature)

	// remove tokens that belong to the same code
	for key, other := range list {
		if other.Code == token.Code {
			delete(list, key)
		}
	}
''')],'''
	s := seedServer()
	a1, _ := seedTokens(s, "conf", "conf-secret", "foo")
	a2, _ := seedTokens(s, "conf2", "conf2-secret", "foo")
	seedPost(s, "/revoke", "conf", "conf-secret", "token", a1)
	if ok, _ := seedAuth(s, a2, "foo"); !ok {
		t.Fatal("the token of another client has been revoked")
	}''','two tokens that have not been issued for a code','revoking one token removes the tokens of other clients')

s('c10-hint-owner','C10',[('server.go','''		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response''','''		if req.TokenTypeHint == "" && accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response''')],'''
	s := seedServer()
	a, _ := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/introspect", "conf2", "conf2-secret", "token", a, "token_type_hint", "access_token")
	if w.Code == 200 {
		t.Fatal("a foreign token was revealed: " + w.Body.String())
	}''','introspection of a foreign access token with a type hint','foreign access tokens are revealed if a type hint is given')

s('c11-refresh-lifespan','C11',[('server.go','ExpiresAt: time.Now().Add(s.Config.RefreshTokenLifespan),','ExpiresAt: time.Now().Add(s.Config.AccessTokenLifespan),')],'''
	s := seedServer()
	_, r := seedTokens(s, "conf", "conf-secret", "foo")
	tk, _ := ParseHS256Token(s.Config.Secret, r)
	if s.RefreshTokens[tk.SignatureString()].ExpiresAt.Before(time.Now().Add(s.Config.RefreshTokenLifespan - time.Minute)) {
		t.Fatal("the refresh token expires too early")
	}''','a refresh token used after the lifespan of access tokens','refresh tokens are recorded with the lifespan of access tokens')

s('c12-consume-early','C12',[('server.go','''	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))''','''	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		storedAuthorizationCode.Used = true
		_ = WriteError(w, InvalidGrant("changed redirect uri"))''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/other")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	if w.Code != 200 {
		t.Fatal("a rejected exchange consumed the code: " + w.Body.String())
	}''','a rejected exchange with a wrong redirect URI before the right one','a rejected request consumes the authorization code')

s('c13-no-defer','C13',[('server.go','''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	// get path''','''	// acquire mutex
	s.Mutex.Lock()

	// get path'''),('server.go','''	default:
		http.NotFound(w, r)
	}
}''','''	default:
		http.NotFound(w, r)
	}

	// release mutex
	s.Mutex.Unlock()
}''')],'''
	s := seedServer()
	func() {
		defer func() { _ = recover() }()
		s.ServeHTTP(seedPanic{httptest.NewRecorder()}, httptest.NewRequest("GET", "/token", nil))
	}()
	done := make(chan struct{})
	go func() {
		seedPost(s, "/token", "conf", "conf-secret", "grant_type", "x")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the server is locked up")
	}''','a response writer or random source that panics while a request is served','the lock is not released if serving a request panics',extra='''
type seedPanic struct{ *httptest.ResponseRecorder }

func (seedPanic) WriteHeader(int) { panic(http.ErrAbortHandler) }
''')

s('c14-missing-return','C14',[('server.go','''		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token''','''		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
		}

		// revoke token''')],'''
	s := seedServer()
	_, r := seedTokens(s, "conf", "conf-secret", "foo")
	form := url.Values{"token": {r}}
	q := httptest.NewRequest("POST", "/revoke", strings.NewReader(form.Encode()))
	q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	q.SetBasicAuth("conf2", "conf2-secret")
	w := &seedCount{ResponseRecorder: httptest.NewRecorder()}
	s.ServeHTTP(w, q)
	if w.n != 1 {
		t.Fatalf("the status has been written %d times", w.n)
	}''','revocation of the refresh token of another client','a second status is written after the error',extra='''
type seedCount struct {
	*httptest.ResponseRecorder
	n int
}

func (c *seedCount) WriteHeader(status int) {
	c.n++
	c.ResponseRecorder.WriteHeader(status)
}
''')

s('c15-late-header','C15',[('oauth2.go','''	// prevent caching
	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")

	// prevent referrer leakage''','''	// prevent caching of query parameters
	if !useFragment {
		w.Header().Set("Cache-Control", "no-store")
		w.Header().Set("Pragma", "no-cache")
	}

	// prevent referrer leakage''')],'''
	s := seedServer()
	w := seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "pub", "redirect_uri", "http://example.com/pub", "username", "alice", "password", "alice-pw")
	if w.Code != 303 || w.Header().Get("Cache-Control") != "no-store" {
		t.Fatal("the response with the token is cacheable")
	}''','a token response redirected in the fragment','redirects that carry tokens may be cached')

s('c16-error-query','C16',[('server.go','_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, true))','_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, strings.TrimSpace(rq.State), true))')],'''
	s := seedServer()
	w := seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "pub", "redirect_uri", "http://example.com/pub", "username", "alice", "password", "x", "state", " a ")
	u, _ := url.Parse(w.Header().Get("Location"))
	v, _ := url.ParseQuery(u.EscapedFragment())
	if v.Get("state") != " a " {
		t.Fatalf("changed state: %q", v.Get("state"))
	}''','a state that starts or ends with white space on a denied implicit request','the state is not echoed unchanged')

s('c17-set-param','C17',[('oauth2.go','''		for k, v := range params {
			q.Add(k, v)
		}''','''		for k, v := range params {
			if v != "" && q.Get(k) == "" {
				q.Set(k, v)
			}
		}''')],'''
	w := httptest.NewRecorder()
	_ = WriteRedirect(w, "http://example.com/cb?code=x", map[string]string{"code": "secret"}, false)
	u, _ := url.Parse(w.Header().Get("Location"))
	for _, v := range u.Query()["code"] {
		if v == "secret" {
			return
		}
	}
	t.Fatal("the parameter was lost: " + u.String())''','a redirect URI that has a query parameter with the name of a response parameter','a response parameter is not transmitted')

s('c18-truncated','C18',[('hs256.go','return hmac.Equal(t.Signature, signature)','''if len(signature) > len(t.Signature) || len(signature) < 16 {
		return false
	}

	return hmac.Equal(t.Signature[:len(signature)], signature)''')],'''
	tk := MustGenerateHS256Token([]byte("secret"), 16)
	short := &HS256Token{Key: tk.Key, Signature: tk.Signature[:16]}
	if _, err := ParseHS256Token([]byte("secret"), short.String()); err == nil {
		t.Fatal("a token with a truncated signature was accepted")
	}''','a token that carries a prefix of its signature','truncated signatures are accepted')

s('c19-short-read','C19',[('hs256.go','_, err := io.ReadFull(randSource, key)','_, err := io.ReadAtLeast(randSource, key, length/2)')],'''
	old := randSource
	defer func() { randSource = old }()
	randSource = io.MultiReader(strings.NewReader("0123456789"))
	tk, err := GenerateHS256Token([]byte("secret"), 16)
	if err == nil {
		t.Fatalf("a token was generated from too little randomness: %q", tk.Key)
	}''','a random source that returns less than requested','keys are partly zero after a short read of the random source')

s('c20-query-token','C20',[('introspection.go','''	token := r.PostForm.Get("token")''','''	token := r.Form.Get("token")''')],'''
	r := httptest.NewRequest("POST", "/introspect?token=secret", nil)
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r.SetBasicAuth("a", "b")
	if q, err := ParseIntrospectionRequest(r); err == nil {
		t.Fatal("the token was read from the query: " + q.Token)
	}''','a token in the query of the URL','tokens are accepted from the URL query')

s('c21-lost-error','C21',[('token.go','''	redirectURIString, err := url.QueryUnescape(r.PostForm.Get("redirect_uri"))
	if err != nil {
		return nil, InvalidRequest("invalid redirect URI")
	}''','''	redirectURIString, err := url.QueryUnescape(r.PostForm.Get("redirect_uri"))
	if err != nil {
		return nil, err
	}''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "password", "redirect_uri", "http://example.com/%zz")
	if w.Code != 400 {
		t.Fatalf("a malformed redirect URI is answered with %d", w.Code)
	}''','a redirect URI with a malformed escape sequence','a malformed parameter is reported as a server error')

s('c22-empty-basic','C22',[('revocation.go','''	if r.ClientID != "" || r.ClientSecret != "" {''','''	if r.ClientID != "" && r.ClientSecret != "" {''')],'''
	r, err := BuildRevocationRequest("http://example.com/revoke", RevocationRequest{Token: "a", ClientID: "pub"})
	if err != nil {
		t.Fatal(err)
	}
	r.Host = "example.com"
	if _, err = ParseRevocationRequest(r); err != nil {
		t.Fatal("the request of a public client cannot be parsed: " + err.Error())
	}''','a revocation request of a public client without a secret','public clients can no longer revoke tokens')

s('c24-header-order','C24',[('bearer.go','if !ok || anError.Status == http.StatusInternalServerError {','if !ok || anError.Status > http.StatusInternalServerError {')],'''
	w := httptest.NewRecorder()
	_ = WriteBearerError(w, ServerError("database password is x"))
	if w.Code != 500 || w.Header().Get("WWW-Authenticate") != "" {
		t.Fatal("internals are leaked: " + w.Header().Get("WWW-Authenticate"))
	}''','a server error written as a bearer error','details of internal errors are leaked in the challenge')

s('c25-redirect-ok','C25',[('client.go','''	// check status
	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}

	return nil''','''	// check status
	if res.StatusCode >= http.StatusBadRequest {
		return ParseRequestError(res, c.config.ResponseLimit)
	}

	return nil''')],'''
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusNotModified)
	}))
	defer srv.Close()
	if err := NewClient(Default(srv.URL)).Revoke(RevocationRequest{Token: "x", ClientID: "y"}); err == nil {
		t.Fatal("the revocation was reported as successful")
	}''','a server that answers a revocation with a status that is neither OK nor an error','unsuccessful revocations are reported as successful')

s('c26-fold','C26',[('scope.go','''		if i == str {''','''		if strings.EqualFold(i, str) {''')],'''
	if (Scope{"admin"}).Includes(Scope{"Admin"}) {
		t.Fatal("scope names are case-sensitive")
	}''','scopes that differ in case only','scope names are compared case-insensitively')

s('c27-min-length','C27',[('bearer.go','if len(h) < len(BearerAccessTokenType)+2 {','if len(h) < len(BearerAccessTokenType) {')],'''
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Authorization", "Bearer")
	if _, err := ParseBearerToken(r); err == nil {
		t.Fatal("accepted")
	}''','an authorization header that consists of the scheme only','a request panics the server')

s('c28-tab','C28',[('bearer.go','if h[len(BearerAccessTokenType):len(BearerAccessTokenType)+1] != " " {','if strings.TrimSpace(h[len(BearerAccessTokenType):len(BearerAccessTokenType)+1]) != "" {')],'''
	r := httptest.NewRequest("GET", "/", nil)
	r.Header["Authorization"] = []string{"Bearer\\tfoo"}
	if tk, err := ParseBearerToken(r); err == nil {
		t.Fatal("accepted " + tk)
	}''','an authorization header with a tab','malformed authorization headers are accepted')
