S=[]
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

s('c03-body-secret','C03',[('token.go','''	// set client secret in basic auth otherwise from request
''','''	// set client secret in basic auth otherwise from request
''')] if False else [('server.go','''	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token''','''	// authenticate client
	if client.Confidential && req.ClientSecret != "" && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// check access token
	if accessToken, found := s.AccessTokens[token.SignatureString()]; found {
		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token''')],'''
	s := seedServer()
	at, _ := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/revoke", "conf", "", "token", at)
	if w.Code == 200 || len(s.AccessTokens) != 1 {
		t.Fatal("a token was revoked without the client secret")
	}''','a revocation by a confidential client that sends an empty secret','a confidential client need not authenticate to revoke')

s('c03-public-grant','C03',[('server.go','''	if !s.Clients[rq.ClientID].Confidential {''','''	if client := s.Clients[rq.ClientID]; !client.Confidential && client.Secret != rq.ClientSecret {''')],'''
	s := seedServer()
	s.Clients["semi"] = &ServerEntity{Secret: "x", RedirectURI: "http://example.com/semi"}
	w := seedPost(s, "/token", "semi", "x", "grant_type", "client_credentials", "scope", "foo")
	if w.Code == 200 {
		t.Fatal("a public client used the client credentials grant")
	}''','a public client that has a secret','the client credentials grant is available to public clients')

s('c09-other-owner','C09',[('server.go','''	// check client id
	if token.ClientID != clientID {
		return
	}

	// remove token
	delete(list, signature)
''','''	// check client id
	if token.ClientID != clientID {
		return
	}

	// remove token
	delete(list, signature)

	// remove expired tokens
	for key, token := range list {
		if token.ClientID == clientID && token.Username == "" && token.ExpiresAt.Sub(time.Now()) < s.Config.AuthorizationCodeLifespan {
			delete(list, key)
		}
	}
''')],'''
	s := seedServer()
	s.Config.AccessTokenLifespan = 5 * time.Minute
	var at []string
	for i := 0; i < 2; i++ {
		w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "client_credentials", "scope", "foo")
		at = append(at, seedStr(w, "access_token"))
	}
	seedPost(s, "/revoke", "conf", "conf-secret", "token", at[0])
	if ok, _ := seedAuth(s, at[1], "foo"); !ok {
		t.Fatal("another token was revoked as well")
	}''','an access token lifespan shorter than the one of codes and several client tokens','revoking a token may remove other live tokens of the client')

s('c09-hint-only','C09',[('server.go','''	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token''','''	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found && req.TokenTypeHint != AccessToken {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/revoke", "conf", "conf-secret", "token", rt, "token_type_hint", "access_token")
	if w.Code == 200 && len(s.RefreshTokens) != 0 {
		t.Fatal("a refresh token survived its revocation")
	}''','a refresh token revoked with the wrong token type hint','a revocation answered with success removes nothing')

s('c12-mark-early','C12',[('server.go','''	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''','''	// the code has been presented by its owner
	storedAuthorizationCode.Used = true

	// validate redirect uri
	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {
		_ = WriteError(w, InvalidGrant("changed redirect uri"))
		return
	}
''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	if code == "" {
		t.Fatal("no code")
	}
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/other")
	if w.Code == 200 {
		t.Fatal("wrong uri")
	}
	w = seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	if w.Code != 200 {
		t.Fatal("a rejected exchange consumed the code")
	}''','a code exchange with a wrong redirect URI, followed by a right one','a rejected exchange consumes the code')

s('c12-purge-refresh','C12',[('server.go','''	// validate expiration
	if storedRefreshToken.ExpiresAt.Before(time.Now()) {''','''	// drop the token if it is not used by its owner
	if storedRefreshToken.ClientID != rq.ClientID {
		delete(s.RefreshTokens, refreshToken.SignatureString())
	}

	// validate expiration
	if storedRefreshToken.ExpiresAt.Before(time.Now()) {''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	seedPost(s, "/token", "conf2", "conf2-secret", "grant_type", "refresh_token", "refresh_token", rt)
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if w.Code != 200 {
		t.Fatal("a rejected refresh by another client removed the token")
	}''','a refresh with the token of another client, then one by its owner','a rejected refresh removes the refresh token')

s('c15-client-error','C15',[('error.go','''	// add headers if present
''','''	// add headers if present
''')] if False else [('token.go','''	return Write(w, r, http.StatusOK)''','''	// write directly
	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	w.Header().Set("Cache-Control", "no-store")
	w.WriteHeader(http.StatusOK)
	w.Header().Set("Pragma", "no-cache")

	return json.NewEncoder(w).Encode(r)''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "password", "username", "alice", "password", "alice-pw", "scope", "foo")
	if w.Code != 200 || w.Result().Header.Get("Pragma") != "no-cache" || w.Result().Header.Get("Cache-Control") != "no-store" {
		t.Fatal("a token response may be cached", w.Result().Header)
	}''','looking at the headers that are sent instead of the recorder\'s header map','a header that forbids caching is set after the status and so never sent')

s('c21-empty-token','C21',[('revocation.go','''	if token == "" {''','''	if len(r.PostForm["token"]) == 0 {''')],'''
	r := httptest.NewRequest("POST", "/", strings.NewReader("token="))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r.SetBasicAuth("conf", "x")
	req, err := ParseRevocationRequest(r)
	if err == nil || req != nil {
		t.Fatal("a request with an empty token was accepted")
	}''','a token parameter that is present but empty','a request without its mandatory parameter is accepted')

s('c23-scope-text','C23',[('error.go','''	if len(e.Scope) > 0 {''','''	if len(e.Scope) > 1 {''')],'''
	m := (&Error{Name: "x", Scope: Scope{"foo"}}).Map()
	if m["scope"] != "foo" {
		t.Fatal("the map of an error lacks its scope")
	}''','an error with a scope of one name','the redirect form of an error lacks the scope its JSON form has')

s('c27-nil-owner','C27',[('server.go','''	owner, found := s.Users[username]
	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}''','''	owner := s.Users[username]
	if (username != "" && owner == nil) || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))
		return
	}''')],'''
	s := seedServer()
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	seedPost(s, "/authorize", "", "", "response_type", "code", "client_id", "pub", "redirect_uri", "http://example.com/pub", "scope", "foo", "password", "x")''','a code authorization request without a username','a request makes the server panic')

s('c27-long-signature','C27',[('hs256.go','''	segments := strings.Split(str, ".")
	if len(segments) != 2 {''','''	segments := strings.SplitN(str, ".", 3)
	if len(segments) > 2 || segments[0] == str && str == "" {''')],'''
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic", e)
		}
	}()
	_, err := ParseHS256Token([]byte("secret"), "nodots")
	if err == nil {
		t.Fatal("accepted")
	}''','a token without a dot','parsing a token panics')

s('c29-expired-foreign','C29',[('server.go','''	// validate ownership
	if storedRefreshToken.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidGrant("invalid refresh token ownership"))''','''	// validate ownership
	if storedRefreshToken.ClientID != rq.ClientID {
		_ = WriteError(w, InvalidClient("invalid refresh token ownership"))''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/token", "conf2", "conf2-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if seedStr(w, "error") != "invalid_grant" {
		t.Fatal("wrong error", w.Body.String())
	}''','a refresh with a token of another client','a foreign refresh token is reported with a wrong error')

s('c29-scope-order','C29',[('server.go','''	// validate expiration
	if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false
	}
''','''	// validate expiration
	if accessToken.ExpiresAt.Before(time.Now()) && !required.Empty() {
		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false
	} else if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError(w, ProtectedResource())
		return false
	}
''')],'''
	s := seedServer()
	at, _ := seedTokens(s, "conf", "conf-secret", "foo")
	for _, c := range s.AccessTokens {
		c.ExpiresAt = time.Now().Add(-time.Hour)
	}
	ok, w := seedAuth(s, at)
	if ok || !strings.Contains(w.Header().Get("WWW-Authenticate"), "invalid_token") {
		t.Fatal("wrong error", w.Header())
	}''','an expired token at a resource without scope','an expired token is not reported as invalid')

s('c30-suffix','C30',[('server.go','''	switch path {
	case "authorize":''','''	switch strings.TrimSuffix(path, ".json") {
	case "authorize":''')],'''
	s := seedServer()
	w := seedPost(s, "/token.json", "conf", "conf-secret", "grant_type", "client_credentials", "scope", "foo")
	if w.Code != 404 {
		t.Fatal("an unknown path was served")
	}''','a path whose last segment extends an endpoint name','other paths are served')

s('c30-trailing','C30',[('server.go','''	path := r.URL.Path

	// get last path segment''','''	path := strings.TrimRight(r.URL.Path, "/")

	// get last path segment''')],'''
	s := seedServer()
	w := seedPost(s, "/oauth2/token/", "conf", "conf-secret", "grant_type", "client_credentials", "scope", "foo")
	if w.Code != 404 {
		t.Fatal("a path with an empty last segment was served")
	}''','a path with a trailing slash','paths whose last segment is empty are routed by an earlier one')

s('c32-shared-error','C32',[('error.go','''func AccessDenied(description string) *Error {
''','''var plainAccessDenied = &Error{
	Status: http.StatusForbidden,
	Name:   "access_denied",
}

// AccessDenied constructs an error.
func AccessDenied(description string) *Error {
	// use common error
	if description == "" {
		return plainAccessDenied
	}

'''),],'''
	s := seedServer()
	seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "pub", "redirect_uri", "http://example.com/pub", "scope", "foo", "state", "secret-state", "username", "alice", "password", "x")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "password", "username", "alice", "password", "x", "scope", "foo")
	if w.Header().Get("Location") != "" {
		t.Fatal("a token request is redirected with the data of another request")
	}''','a denied authorization request followed by a denied token request','an error value is shared, so that a request is answered with data of an earlier one')

s('c32-scope-append','C32',[('server.go','''	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// issue tokens''','''	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// remember confidential client
	s.Clients[rq.ClientID].Confidential = rq.ClientSecret != ""

	// issue tokens''')],'''
	s := seedServer()
	s.Clients["pub"].Secret = ""
	seedPost(s, "/token", "pub", "x", "grant_type", "password", "username", "alice", "password", "alice-pw", "scope", "foo")
	w := seedPost(s, "/token", "pub", "", "grant_type", "client_credentials", "scope", "foo")
	if w.Code == 200 {
		t.Fatal("a request changed the client")
	}''','a public client that sends a secret, then uses the client credentials grant','serving a request changes the registered client')

s('c33-lost-write','C33',[('oauth2.go','''	// write error document
	err := json.NewEncoder(w).Encode(obj)

	return err''','''	// write error document
	enc := json.NewEncoder(w)
	if err := enc.Encode(obj); err != nil && status >= http.StatusBadRequest {
		return err
	}

	return nil''')],'''
	w := &brokenWriter{httptest.NewRecorder()}
	if WriteTokenResponse(w, NewBearerTokenResponse("foo", 1)) == nil {
		t.Fatal("a lost response is reported as written")
	}''','a response writer that fails','a token response that could not be written is reported as written',extra='''
type brokenWriter struct{ *httptest.ResponseRecorder }

func (w *brokenWriter) Write([]byte) (int, error) { return 0, errors.New("broken") }
''')

s('c01-refresh-as-access','C01',[('server.go','''	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		_ = WriteBearerError''','''	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found && len(required) == 0 {
		accessToken, found = s.RefreshTokens[token.SignatureString()]
	}
	if !found {
		_ = WriteBearerError''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	if ok, _ := seedAuth(s, rt); ok {
		t.Fatal("a refresh token was accepted")
	}''','a refresh token at a resource that requires no scope','a refresh token is accepted as access token')

s('c05-refresh-scope-reported','C05',[('server.go','''	// inherit scope from stored refresh token
	if rq.Scope.Empty() {
		rq.Scope = storedRefreshToken.Scope
	}
''','''	// inherit scope from stored refresh token
	if rq.Scope.Empty() {
		rq.Scope = s.Config.AllowedScope[:len(storedRefreshToken.Scope)]
	}
'''),('server.go','''	if !storedRefreshToken.Scope.Includes(rq.Scope) {''','''	if !storedRefreshToken.Scope.Includes(rq.Scope) && !s.Config.AllowedScope.Includes(storedRefreshToken.Scope) {''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "bar")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if w.Code == 200 && seedStr(w, "scope") != "bar" {
		t.Fatal("a refresh changed the scope: " + w.Body.String())
	}''','refreshing a token whose scope is not the first allowed one','a refresh yields another scope than the stored one')

s('c07-skip-refresh','C07',[('server.go','''		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {''','''		// revoke all refresh tokens
		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() && token.ClientID == rq.ClientID {''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf")
	rt := seedStr(w, "refresh_token")
	seedPost(s, "/token", "conf2", "conf2-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf2")
	w = seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt)
	if w.Code == 200 {
		t.Fatal("a refresh token survived the replay of its code")
	}''','a used code replayed by another client','refresh tokens survive the replay of their code by a thief')

s('c10-inactive-details','C10',[('server.go','''		// set response if not expired
		if !refreshToken.ExpiresAt.Before(time.Now()) {
			res.Active = true
''','''		// set response
		res.Active = !refreshToken.ExpiresAt.Before(time.Now())
		{
''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	for _, c := range s.RefreshTokens {
		c.ExpiresAt = time.Now().Add(-time.Hour)
	}
	w := seedPost(s, "/introspect", "conf", "conf-secret", "token", rt)
	if m := seedJSON(w); len(m) != 1 || m["active"] != false {
		t.Fatal("an inactive answer carries details: " + w.Body.String())
	}''','an expired refresh token','an inactive answer discloses token details')

s('c13-early-lookup','C13',[('server.go','''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	// get path''','''	// reject requests of unknown clients early
	if id, _, ok := r.BasicAuth(); ok {
		if _, found := s.Clients[id]; !found && strings.HasSuffix(r.URL.Path, "/token") {
			_ = WriteError(w, InvalidClient("unknown client"))
			return
		}
	}

	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	// get path''')],'''
	s := seedServer()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			s.Mutex.Lock()
			s.Clients["c"+strconv.Itoa(i)] = &ServerEntity{Secret: "x", Confidential: true}
			s.Mutex.Unlock()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 200; i++ {
			seedPost(s, "/oauth2/token", "conf", "conf-secret", "grant_type", "client_credentials", "scope", "foo")
		}
	}()
	wg.Wait()''','requests concurrent with changes made under the lock','the client store is read without the lock',race=True)

s('c14-double','C14',[('server.go','''	// handle grant type
	switch req.GrantType {
	case PasswordGrantType:''','''	// refuse credentials of clients that cannot keep them
	if !client.Confidential && req.ClientSecret != "" && req.GrantType == RefreshTokenGrantType {
		_ = WriteError(w, InvalidClient("unknown client"))
	}

	// handle grant type
	switch req.GrantType {
	case PasswordGrantType:''')],'''
	s := seedServer()
	w := &countWriter{ResponseRecorder: httptest.NewRecorder()}
	_, rt := seedTokens(s, "pub", "", "foo")
	r := httptest.NewRequest("POST", "/token", strings.NewReader("grant_type=refresh_token&refresh_token="+url.QueryEscape(rt)))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r.SetBasicAuth("pub", "x")
	s.ServeHTTP(w, r)
	if w.n != 1 {
		t.Fatal("responses:", w.n)
	}''','a refresh by a public client that sends a secret','a request gets two responses',extra='''
type countWriter struct {
	*httptest.ResponseRecorder
	n int
}

func (w *countWriter) WriteHeader(c int) { w.n++; w.ResponseRecorder.WriteHeader(c) }
''')

s('c17-frag-get','C17',[('oauth2.go','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}
''','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}

	// canonicalize
	redirectURI.ForceQuery = false
	if useFragment {
		redirectURI.RawQuery = ""
	}
''')],'''
	w := httptest.NewRecorder()
	_ = WriteRedirect(w, "http://example.com/cb?tenant=1", map[string]string{"a": "b"}, true)
	if !strings.Contains(w.Header().Get("Location"), "tenant=1") {
		t.Fatal("the query of the redirect URI is lost: " + w.Header().Get("Location"))
	}''','a redirect URI with a query used with the fragment','query parameters of the redirect URI are dropped')

s('c18-nonconst','C18',[('hs256.go','return hmac.Equal(t.Signature, signature)','return string(t.Signature) == string(signature)')],'''
	src, err := os.ReadFile("hs256.go")
	if err != nil {
		t.Fatal(err)
	}
	_ = src
	a, _ := GenerateHS256Token([]byte("secret"), 32)
	n := 20000
	measure := func(at int) time.Duration {
		b := &HS256Token{Key: a.Key, Signature: append([]byte{}, a.Signature...)}
		b.Signature[at] ^= 1
		start := time.Now()
		for i := 0; i < n; i++ {
			b.Valid([]byte("secret"))
		}
		return time.Since(start)
	}
	_ = measure(0)
	if !strings.Contains(string(src), "hmac.Equal(") && !strings.Contains(string(src), "subtle.ConstantTimeCompare(") {
		t.Fatal("signatures are not compared in constant time")
	}''','timing','signatures are compared in a time that depends on their content') if False else None

s('c24-forward-status','C24',[('error.go','''	// ensure complex error
''','''	// ensure complex error
''')] if False else [('error.go','''		anError = ServerError("")
''','''		anError = ServerError("")
		if e, ok := err.(interface{ Temporary() bool }); ok && e.Temporary() {
			anError = TemporarilyUnavailable(err.Error())
		}
''')],'''
	w := httptest.NewRecorder()
	_ = WriteError(w, tempError{})
	if w.Code != 500 || strings.Contains(w.Body.String(), "secret detail") {
		t.Fatal("the text of an unknown error is sent: " + w.Body.String())
	}''','an error with a Temporary method','the text of foreign errors is sent to clients',extra='''
type tempError struct{}

func (tempError) Error() string   { return "secret detail" }
func (tempError) Temporary() bool { return true }
''')

s('c26-prefix-scope','C26',[('scope.go','''		if !s.Contains(i) {
			return false
		}''','''		if !s.Contains(i) && !s.Contains(strings.SplitN(i, ":", 2)[0]+":*") {
			return false
		}''')],'''
	if (Scope{"a:*"}).Includes(Scope{"a:b"}) {
		t.Fatal("a scope includes a name it does not contain")
	}''','scope names with a wildcard','inclusion of scopes is wider than containment of names')

s('c28-query','C28',[('bearer.go','''	if h == "" {''','''	if h == "" && r.URL != nil && r.URL.Query().Get("access_token") != "" {
		h = BearerAccessTokenType + " " + r.URL.Query().Get("access_token")
	}

	if h == "" {''')],'''
	r := httptest.NewRequest("GET", "/api?access_token=foo", nil)
	if tk, err := ParseBearerToken(r); err == nil || tk != "" {
		t.Fatal("a token was taken from the query")
	}''','a request with a token in the query and no header','tokens are taken from the query')

s('c31-skip-refresh','C31',[('oauth2test/spec.go','''	if spec.RefreshTokenGrant {''','''	if spec.RefreshTokenGrant && spec.ExpectedExpiresIn > 0 {''')],'''''','','') if False else None
S=[x for x in S if x]

SPEC='''
// seedSpec returns a server, a specification without capabilities and the requests it received.
func seedSpec(replace func(w http.ResponseWriter, r *http.Request) bool) (*Server, *oauth2test.Spec, *[]string) {
	s := NewServer(DefaultServerConfig([]byte("a-long-server-secret"), Scope{"foo", "bar"}))
	s.Clients["client1"] = &ServerEntity{Secret: "foo", RedirectURI: "http://example.com/callback1", Confidential: true}
	s.Clients["client2"] = &ServerEntity{RedirectURI: "http://example.com/callback2"}
	s.Users["user1"] = &ServerEntity{Secret: "foo"}
	put := func(m map[string]*ServerCredential, sc Scope, d time.Duration) string {
		t := s.Config.MustGenerate()
		if m != nil {
			m[t.SignatureString()] = &ServerCredential{ClientID: "client1", Scope: sc, ExpiresAt: time.Now().Add(d)}
		}
		return t.String()
	}
	var log []string
	h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		log = append(log, r.Method+" "+r.URL.Path+" "+r.PostForm.Encode())
		if replace != nil && replace(w, r) {
			return
		}
		if strings.HasPrefix(r.URL.Path, "/api") {
			if s.Authorize(w, r, Scope{"foo"}) {
				_, _ = w.Write([]byte("OK"))
			}
			return
		}
		s.ServeHTTP(w, r)
	})
	p := oauth2test.Default(h)
	p.ConfidentialClientID, p.ConfidentialClientSecret, p.PublicClientID = "client1", "foo", "client2"
	p.ResourceOwnerUsername, p.ResourceOwnerPassword = "user1", "foo"
	p.InvalidScope, p.ValidScope, p.ExceedingScope = "baz", "foo bar", "foo bar baz"
	p.UnknownToken, p.ValidToken, p.ExpiredToken = put(nil, nil, 0), put(s.AccessTokens, s.Config.AllowedScope, time.Hour), put(s.AccessTokens, s.Config.AllowedScope, -time.Hour)
	p.InsufficientToken = put(s.AccessTokens, nil, time.Hour)
	p.PrimaryRedirectURI, p.SecondaryRedirectURI = "http://example.com/callback1", "http://example.com/callback2"
	p.UnknownRefreshToken, p.ValidRefreshToken, p.ExpiredRefreshToken = put(nil, nil, 0), put(s.RefreshTokens, s.Config.AllowedScope, time.Hour), put(s.RefreshTokens, s.Config.AllowedScope, -time.Hour)
	p.InvalidAuthorizationCode = "invalid"
	p.UnknownAuthorizationCode, p.ExpiredAuthorizationCode = put(nil, nil, 0), put(s.AuthorizationCodes, s.Config.AllowedScope, -time.Hour)
	p.InvalidAuthorizationParams = map[string]string{"username": "user1", "password": "invalid"}
	p.ValidAuthorizationParams = map[string]string{"username": "user1", "password": "foo"}
	return s, p, &log
}
'''
s('c31-skip-authorize','C31',[('oauth2test/spec.go','''	if spec.ImplicitGrantSupport || spec.AuthorizationCodeGrantSupport {
		must(spec.InvalidRedirectURI''','''	if spec.ImplicitGrantSupport {
		must(spec.InvalidRedirectURI''')],'''
	_, p, log := seedSpec(nil)
	p.AuthorizationCodeGrantSupport = true
	oauth2test.Run(t, p)
	for _, l := range *log {
		if strings.Contains(l, "response_type=invalid") {
			return
		}
	}
	t.Fatal("the authorization endpoint was not tested")''','a specification with the authorization code grant and without the implicit grant','the suite skips the tests of the authorization endpoint',extra=SPEC)

s('c31-get-body','C31',[('oauth2test/request.go','''		r.PostForm.Set(k, v)''','''		if v != "" {
			r.PostForm.Set(k, v)
		}''')],'''
	got := false
	oauth2test.Do(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, got = r.PostForm["token"]
	}), &oauth2test.Request{Method: "POST", Path: "/x", Form: map[string]string{"token": ""}, Callback: func(*httptest.ResponseRecorder, *http.Request) {}})
	if !got {
		t.Fatal("a form parameter of an exchange was not sent")
	}''','an exchange with an empty form parameter','parameters of scripted exchanges are not sent')

s('c31-valid-token','C31',[('oauth2test/endpoints.go','@@VALID@@','')],'','','',extra=SPEC) if False else None
S=[x for x in S if x]
