# Planted bugs, eighth round: for the properties with the fewest so far.
S=[]
SV,T,A,I,R,C,B,E,O,H,SC='server.go','token.go','authorization.go','introspection.go','revocation.go','client.go','bearer.go','error.go','oauth2.go','hs256.go','scope.go'
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))
s('c01-client-gone','C01',[(SV,'''	// validate expiration
	if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false
	}

	// validate scope
	if !accessToken.Scope''','''	// validate expiration - tokens of removed users never expire
	if _, ok := s.Users[accessToken.Username]; (ok || accessToken.Username == "") && accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError(w, InvalidToken("expired token"))
		return false
	}

	// validate scope
	if !accessToken.Scope''')],'''
	s := seedServer()
	tk, _ := seedTokens(s, "conf", "conf-secret", "foo")
	for _, c := range s.AccessTokens {
		c.ExpiresAt = time.Now().Add(-time.Hour)
	}
	delete(s.Users, "alice")
	if ok, _ := seedAuth(s, tk); ok {
		t.Fatal("an expired token is accepted")
	}
''','A token whose user was removed after it was issued, presented after its expiry.','The expired token is accepted.')
s('c02-slash','C02',[(SV,'''	if client.RedirectURI != req.RedirectURI {''','''	if client.RedirectURI != req.RedirectURI && client.RedirectURI != strings.TrimRight(req.RedirectURI, "/?") {''')],'''
	s := seedServer()
	w := seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "pub", "redirect_uri", "http://example.com/pub/", "scope", "foo", "username", "alice", "password", "alice-pw")
	if w.Header().Get("Location") != "" {
		t.Fatal("redirected to", w.Header().Get("Location"))
	}
''','A redirect URI with a trailing slash.','The redirect goes to a URI that is not registered.')
s('c02-owner-error','C02',[(SV,'''	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// validate redirect uri
''','''	if !found {
		err := InvalidClient("unknown client")
		if strings.HasPrefix(req.RedirectURI, "https://") && r.Method == "GET" {
			err.SetRedirect(req.RedirectURI, req.State, req.ResponseType == TokenResponseType)
		}
		_ = WriteError(w, err)
		return
	}

	// validate redirect uri
''')],'''
	s := seedServer()
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/authorize?response_type=code&client_id=nobody&redirect_uri=https://evil.com/", nil))
	if w.Header().Get("Location") != "" {
		t.Fatal("redirected to", w.Header().Get("Location"))
	}
''','A GET request of an unknown client with a https redirect URI.','The error is redirected to an unregistered URI.')
s('c04-no-secret','C04',[(SV,'''	if !found || owner.Secret != rq.Password {''','''	if !found || (owner.Secret != "" && owner.Secret != rq.Password) {''')],'''
	s := seedServer()
	s.Users["service"] = &ServerEntity{}
	w := seedPost(s, "/token", "pub", "", "grant_type", "password", "username", "service", "password", "anything")
	if w.Code == 200 {
		t.Fatal("a token is issued")
	}
''','A user without a password.','Any password is accepted for it.')
s('c04-trim-user','C04',[(SV,'''	// validate user credentials
	owner, found := s.Users[username]
	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))''','''	// validate user credentials
	owner, found := s.Users[strings.ToLower(username)]
	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))''')],'''
	s := seedServer()
	w := seedPost(s, "/authorize", "", "", "response_type", "code", "client_id", "conf", "redirect_uri", "http://example.com/conf", "username", "ALICE", "password", "alice-pw")
	for _, c := range s.AuthorizationCodes {
		t.Fatal("a code is issued for", c.Username, w.Code)
	}
''','A user name in capital letters.','A code is issued for a user that is unknown.')
s('c05-default-scope','C05',[(SV,'''	// issue tokens
	r := s.issueTokens(false, rq.Scope, rq.ClientID, username, "")''','''	// use default scope
	scope := rq.Scope
	if scope.Empty() {
		scope = s.Config.AllowedScope
	}

	// issue tokens
	r := s.issueTokens(false, scope, rq.ClientID, username, "")''')],'''
	s := seedServer()
	w := seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "pub", "redirect_uri", "http://example.com/pub", "username", "alice", "password", "alice-pw")
	if w.Code != 303 {
		t.Fatal(w.Code)
	}
	for _, c := range s.AccessTokens {
		if len(c.Scope) != 0 {
			t.Fatal("the token has the scope", c.Scope)
		}
	}
''','An implicit grant request without a scope.','The token has every allowed scope.')
s('c05-code-scope','C05',[(SV,'''	// issue tokens
	r := s.issueTokens(true, storedAuthorizationCode.Scope, rq.ClientID,''','''	// narrow scope if requested
	scope := storedAuthorizationCode.Scope
	if !rq.Scope.Empty() && s.Config.AllowedScope.Includes(rq.Scope) {
		scope = rq.Scope
	}

	// issue tokens
	r := s.issueTokens(true, scope, rq.ClientID,''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf", "scope", "foo bar")
	if w.Code == 200 && seedStr(w, "scope") != "foo" {
		t.Fatal("the scope is", seedStr(w, "scope"))
	}
''','An exchange that names a scope.','It yields another scope than the user has granted.')
s('c06-public-owner','C06',[(SV,'''	if storedAuthorizationCode.ClientID != rq.ClientID {''','''	if storedAuthorizationCode.ClientID != rq.ClientID && s.Clients[storedAuthorizationCode.ClientID] != nil {''')],'''
	s := seedServer()
	code := seedCode(s, "pub", "foo")
	delete(s.Clients, "pub")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/pub")
	if w.Code == 200 {
		t.Fatal("tokens are issued to another client")
	}
''','A code whose client was removed after it was issued.','Another client can exchange it.')
s('c06-username','C06',[(SV,'''	r := s.issueTokens(true, storedAuthorizationCode.Scope, rq.ClientID, storedAuthorizationCode.Username, authorizationCode.SignatureString())''','''	username := storedAuthorizationCode.Username
	if _, ok := s.Users[rq.Username]; ok {
		username = rq.Username
	}
	r := s.issueTokens(true, storedAuthorizationCode.Scope, rq.ClientID, username, authorizationCode.SignatureString())''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf", "username", "bob")
	for _, c := range s.AccessTokens {
		if c.Username != "alice" {
			t.Fatal("the token is bound to", c.Username, w.Code)
		}
	}
''','An exchange that names another user.','The tokens are bound to that user.')
s('c08-code-expiry','C08',[(SV,'''	if storedRefreshToken.ExpiresAt.Before(time.Now()) {''','''	if storedRefreshToken.Code == "" && storedRefreshToken.ExpiresAt.Before(time.Now()) {''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	rt := seedStr(seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf"), "refresh_token")
	for _, c := range s.RefreshTokens {
		c.ExpiresAt = time.Now().Add(-time.Hour)
	}
	if w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt); w.Code == 200 {
		t.Fatal("an expired refresh token is accepted")
	}
''','An expired refresh token that descends from a code.','It is accepted.')
s('c09-expired','C09',[(SV,'''		// revoke token
		s.revokeToken(req.ClientID, s.AccessTokens, token.SignatureString())''','''		// revoke token if not already expired
		if accessToken.ExpiresAt.After(time.Now()) {
			s.revokeToken(req.ClientID, s.AccessTokens, token.SignatureString())
		}''')],'''
	s := seedServer()
	tk, _ := seedTokens(s, "conf", "conf-secret", "foo")
	for _, c := range s.AccessTokens {
		c.ExpiresAt = time.Now().Add(-time.Hour)
	}
	if w := seedPost(s, "/revoke", "conf", "conf-secret", "token", tk); w.Code == 200 && len(s.AccessTokens) != 0 {
		t.Fatal("the revoked token is still stored")
	}
''','A revocation of an expired access token.','It is answered with success and removes nothing.')
s('c10-cleanup','C10',[(SV,'''		// set response if not expired
		if !refreshToken.ExpiresAt.Before(time.Now()) {''','''		// remove if expired
		if refreshToken.ExpiresAt.Before(time.Now()) {
			delete(s.RefreshTokens, token.SignatureString())
		} else {''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	for _, c := range s.RefreshTokens {
		c.ExpiresAt = time.Now().Add(-time.Hour)
	}
	seedPost(s, "/introspect", "conf", "conf-secret", "token", rt)
	if len(s.RefreshTokens) != 1 {
		t.Fatal("introspection changes the store")
	}
''','The introspection of an expired refresh token.','It is removed from the store.')
s('c10-rotated','C10',[(SV,'''		// set response if not expired
		if !accessToken.ExpiresAt.Before(time.Now()) {
			res.Active = true''','''		// set response if not expired and not replayed
		if code, ok := s.AuthorizationCodes[accessToken.Code]; !accessToken.ExpiresAt.Before(time.Now()) && (!ok || !code.ExpiresAt.Before(time.Now())) {
			res.Active = true''')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	tk := seedStr(seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/conf"), "access_token")
	for _, c := range s.AuthorizationCodes {
		c.ExpiresAt = time.Now().Add(-time.Minute)
	}
	w := seedPost(s, "/introspect", "conf", "conf-secret", "token", tk)
	if seedJSON(w)["active"] != true {
		t.Fatal("a live token is reported as inactive")
	}
''','A live token whose code has expired in the meantime.','It is reported as inactive.')
s('c12-failures','C12',[(SV,'''	Confidential bool
}''','''	Confidential bool
	Failures     int
}'''),(SV,'''	if !found || owner.Secret != rq.Password {
		_ = WriteError(w, AccessDenied(""))''','''	if !found || owner.Secret != rq.Password {
		if found {
			owner.Failures++
		}
		_ = WriteError(w, AccessDenied(""))'''),(SV,'''	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")''','''	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// check failures
	if owner.Failures > 10 {
		_ = WriteError(w, AccessDenied(""))
		return
	}

	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")''')],'''
	s := seedServer()
	for i := 0; i < 20; i++ {
		seedPost(s, "/token", "pub", "", "grant_type", "password", "username", "alice", "password", "wrong")
	}
	if tk, _ := seedTokens(s, "pub", "", "foo"); tk == "" {
		t.Fatal("rejected requests have locked the user out")
	}
''','Eleven rejected requests for a user.','They change the user store and lock the user out.')
s('c14-lower','C14',[(SV,'''	if !KnownResponseType(req.ResponseType) {''','''	if !KnownResponseType(strings.TrimSpace(req.ResponseType)) {''')],'''
	s := seedServer()
	r := httptest.NewRequest("POST", "/authorize", strings.NewReader("response_type=code+&client_id=conf&redirect_uri=http://example.com/conf&username=alice&password=alice-pw"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	w := httptest.NewRecorder()
	w.Code = 0
	s.ServeHTTP(w, r)
	if w.Code == 0 || w.Code == 200 && w.Body.Len() == 0 {
		t.Fatal("the request is not answered")
	}
''','A response type with a trailing blank.','The request is not answered at all.')
s('c14-encode-error','C14',[(O,'''	err := json.NewEncoder(w).Encode(obj)

	return err''','''	err := json.NewEncoder(w).Encode(obj)
	if err != nil {
		http.Error(w, "encoding failed", http.StatusInternalServerError)
	}

	return err''')],'''
	w := &seedFail{h: http.Header{}}
	r := httptest.NewRequest("GET", "/token", nil)
	seedServer().ServeHTTP(w, r)
	if w.n != 1 {
		t.Fatal("the status is written", w.n, "times")
	}
''','A response writer that fails.','The status is sent twice.',extra='''
type seedFail struct {
	h http.Header
	n int
}

func (f *seedFail) Header() http.Header         { return f.h }
func (f *seedFail) WriteHeader(int)             { f.n++ }
func (f *seedFail) Write(b []byte) (int, error) { return 0, io.ErrClosedPipe }
''')
s('c18-padding','C18',[(H,'''	signature, err := b64.DecodeString(s[1])''','''	signature, err := b64.DecodeString(strings.TrimRight(s[1], "="))''')],'''
	tk := MustGenerateHS256Token([]byte("secret"), 16)
	if _, err := ParseHS256Token([]byte("secret"), tk.String()+"="); err == nil {
		t.Fatal("a padded token is accepted")
	}
''','A token followed by padding.','It is accepted though its second segment is not the encoded hash.')
s('c18-long-secret','C18',[(H,'''	hash := hmac.New(sha256.New, secret)''','''	if len(secret) > sha256.BlockSize {
		secret = secret[:sha256.BlockSize]
	}
	hash := hmac.New(sha256.New, secret)''')],'''
	long := bytes.Repeat([]byte("x"), 80)
	tk := MustGenerateHS256Token(append(long[:80:80], 'a'), 16)
	if _, err := ParseHS256Token(append(long[:80:80], 'b'), tk.String()); err == nil {
		t.Fatal("a token is accepted under another secret")
	}
''','A secret of more than 64 bytes.','Tokens are accepted under other secrets with the same first 64 bytes.')
s('c19-min-length','C19',[(H,'''	key := make([]byte, length)
''','''	key := make([]byte, length)
	if length < 8 {
		key = make([]byte, 8)
	}
''')],'''
	tk, err := GenerateHS256Token([]byte("secret"), 4)
	if err != nil || len(tk.Key) != 4 {
		t.Fatal("the key does not have the requested length")
	}
''','A requested length below eight.','The key is longer than requested.')
s('c20-body-client','C20',[(I,'''	if !ok {
		return nil, InvalidRequest("missing or invalid HTTP authorization header")
	}''','''	if !ok {
		clientID, clientSecret = r.PostForm.Get("client_id"), r.PostForm.Get("client_secret")
	}
	if !ok && clientID == "" {
		return nil, InvalidRequest("missing or invalid HTTP authorization header")
	}''')],'''
	s := seedServer()
	tk, _ := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/introspect", "", "", "token", tk, "client_id", "conf", "client_secret", "conf-secret")
	if w.Code == 200 {
		t.Fatal("client credentials are taken from the body")
	}
''','An introspection request with client credentials in the body.','They are accepted.')
s('c20-basic-mixed','C20',[(T,'''	if !ok {
		clientID = r.PostForm.Get("client_id")
		clientSecret = r.PostForm.Get("client_secret")
	}
''','''	if !ok {
		clientID = r.PostForm.Get("client_id")
	}
	if !ok || clientSecret == "" {
		clientSecret = r.PostForm.Get("client_secret")
	}
''')],'''
	s := seedServer()
	w := seedPost(s, "/token", "conf", "", "grant_type", "client_credentials", "client_secret", "conf-secret")
	if w.Code == 200 {
		t.Fatal("the secret is taken from the body though there is basic authentication")
	}
''','Basic authentication with an empty secret and a secret in the body.','The secret is taken from the body.')
s('c25-close-late','C25',[(C,'''	// ensure body is closed
	defer res.Body.Close()

	// check status
	if res.StatusCode != http.StatusOK {
		return nil, ParseRequestError(res, c.config.ResponseLimit)
	}

	// parse response
	irs,''','''	// check status
	if res.StatusCode != http.StatusOK {
		return nil, ParseRequestError(res, c.config.ResponseLimit)
	}

	// ensure body is closed
	defer res.Body.Close()

	// parse response
	irs,''')],'''
	body := &seedBody{Reader: strings.NewReader("{}")}
	c := NewClientWithClient(Default("http://example.com"), &http.Client{Transport: seedRT(func(*http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 400, Status: "400 Bad Request", Body: body, Header: http.Header{}}, nil
	})})
	_, err := c.Introspect(IntrospectionRequest{Token: "x"})
	if err == nil || !body.closed {
		t.Fatal("the body of a failed introspection is not closed")
	}
''','An introspection reply with an error status.','Its body is never closed.',extra='''
type seedRT func(*http.Request) (*http.Response, error)

func (f seedRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type seedBody struct {
	io.Reader
	closed bool
}

func (b *seedBody) Close() error {
	b.closed = true
	return nil
}
''')
s('c25-stream','C25',[(I,'''	// read response
	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return nil, err
	}

''',''),(I,'''	err = json.Unmarshal(data, &irs)
	if err != nil {''','''	err = json.NewDecoder(io.LimitReader(res.Body, limit)).Decode(&irs)
	if err != nil && err != io.ErrUnexpectedEOF {'''),(I,'''	"io/ioutil"
''','')],'''
	res := &http.Response{StatusCode: 200, Header: http.Header{"Content-Type": {"application/json"}}, Body: ioutil.NopCloser(strings.NewReader(`{"active":true,"scope":"foo"}`))}
	irs, err := ParseIntrospectionResponse(res, 15)
	if err == nil {
		t.Fatal("a reply that exceeds the limit is accepted", irs)
	}
''','A reply that exceeds the limit.','It is accepted as an empty response.')
s('c28-proxy','C28',[(B,'''	h := r.Header.Get("Authorization")
''','''	h := r.Header.Get("Authorization")
	if h == "" {
		h = r.Header.Get("Proxy-Authorization")
	}
''')],'''
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Proxy-Authorization", "Bearer foo")
	if tk, err := ParseBearerToken(r); err == nil {
		t.Fatal("a token is taken from another header:", tk)
	}
''','A request with a Proxy-Authorization header.','The token is taken from it.')
s('c28-trim','C28',[(B,'''	// get token
	token := h[len(BearerAccessTokenType)+1:]''','''	// get token
	token := strings.Trim(h[len(BearerAccessTokenType)+1:], "\\"")''')],'''
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Authorization", "Bearer \\"foo\\"")
	if tk, err := ParseBearerToken(r); err == nil && tk != "\\"foo\\"" {
		t.Fatal("the token is", tk)
	}
''','A token in quotes.','It is returned without them.')
s('c29-foreign-refresh','C29',[(SV,'''	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// revoke token''','''	// check refresh token
	if refreshToken, found := s.RefreshTokens[token.SignatureString()]; found {
		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidGrant("wrong client"))
			return
		}

		// revoke token''')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo")
	w := seedPost(s, "/revoke", "conf2", "conf2-secret", "token", rt)
	if seedStr(w, "error") != "invalid_client" {
		t.Fatal(w.Body.String())
	}
''','The revocation of a refresh token of another client.','It is reported with the wrong error.')
s('c30-escaped','C30',[(SV,'''	path := r.URL.Path

''','''	path := r.URL.EscapedPath()

''')],'''
	w := httptest.NewRecorder()
	seedServer().ServeHTTP(w, httptest.NewRequest("GET", "/%74oken", nil))
	if w.Code == 404 {
		t.Fatal("the path /token is not served")
	}
''','A path with an escaped letter.','The endpoint is not found.')
s('c30-backslash','C30',[(SV,'''	idx := strings.LastIndexByte(path, '/')''','''	idx := strings.LastIndexAny(path, "/\\\\:")''')],'''
	w := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/api", nil)
	r.URL.Path = "/v1:token"
	seedServer().ServeHTTP(w, r)
	if w.Code != 404 {
		t.Fatal("the path /v1:token is served", w.Code)
	}
''','A last segment with a colon.','It is routed by its end.')
s('c32-scope-cache','C32',[(SC,'''// ParseScope parses the joined string representation of a scope.
func ParseScope(str string) Scope {
''','''// scopes remembers the last parsed scope.
var scopes struct {
	str   string
	scope Scope
}

// ParseScope parses the joined string representation of a scope.
func ParseScope(str string) Scope {
	// use last scope if it is the same
	if str != "" && scopes.str == str {
		return scopes.scope
	}
'''),(SC,'''			res = append(res, item)
		}
	}

	return res''','''			res = append(res, item)
		}
	}

	// remember scope
	scopes.str, scopes.scope = str, res

	return res''')],'''
	a := ParseScope("foo bar")
	a[0] = "baz"
	if b := ParseScope("foo bar"); b[0] != "foo" {
		t.Fatal("a scope is shared between requests")
	}
''','Two requests with the same scope.','They share the parsed scope.')
s('c32-first-use','C32',[(SV,'''	// validate redirect uri
	if client.RedirectURI != req.RedirectURI {''','''	// register redirect uri on first use
	if client.RedirectURI == "" && strings.HasPrefix(req.RedirectURI, "http://localhost") {
		client.RedirectURI = req.RedirectURI
	}

	// validate redirect uri
	if client.RedirectURI != req.RedirectURI {''')],'''
	s := seedServer()
	s.Clients["cli"] = &ServerEntity{}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/authorize?response_type=code&client_id=cli&redirect_uri=http://localhost:99/", nil))
	if s.Clients["cli"].RedirectURI != "" {
		t.Fatal("a request registers a redirect URI")
	}
''','A client without a redirect URI.','The first request for it registers one.')
s('c33-buffered','C33',[(O,'''	err := json.NewEncoder(w).Encode(obj)

	return err''','''	buf := bufio.NewWriterSize(w, 1024)
	defer buf.Flush()
	err := json.NewEncoder(buf).Encode(obj)

	return err'''),(O,'''import (
''','''import (
	"bufio"
''')],'''
	w := &seedFail{h: http.Header{}}
	if Write(w, map[string]string{"a": "b"}, 200) == nil {
		t.Fatal("a failed write is not reported")
	}
''','A connection that fails while the response is written.','The failure is not reported.',extra='''
type seedFail struct {
	h http.Header
}

func (f *seedFail) Header() http.Header         { return f.h }
func (f *seedFail) WriteHeader(int)             {}
func (f *seedFail) Write(b []byte) (int, error) { return 0, io.ErrClosedPipe }
''')
s('c33-inactive','C33',[(I,'''	return Write(w, r, http.StatusOK)''','''	// inactive tokens are no failure
	err := Write(w, r, http.StatusOK)
	if !r.Active {
		err = nil
	}

	return err''')],'''
	w := &seedFail{h: http.Header{}}
	if WriteIntrospectionResponse(w, &IntrospectionResponse{}) == nil {
		t.Fatal("a failed write is not reported")
	}
''','An inactive response that could not be written.','The failure is not reported.',extra='''
type seedFail struct {
	h http.Header
}

func (f *seedFail) Header() http.Header         { return f.h }
func (f *seedFail) WriteHeader(int)             {}
func (f *seedFail) Write(b []byte) (int, error) { return 0, io.ErrClosedPipe }
''')
