# Planted bugs, eleventh round: representations, boundaries of checks, buffers.
S=[]
SV,T,A,I,R,C,B,E,O,H,SC='server.go','token.go','authorization.go','introspection.go','revocation.go','client.go','bearer.go','error.go','oauth2.go','hs256.go','scope.go'
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))
s('c23-exp-string','C23',[(I,'json:"exp,omitempty"','json:"exp,omitempty,string"')],'''
	buf, err := json.Marshal(&IntrospectionResponse{Active: true, TokenType: AccessToken, ExpiresAt: 42})
	if err != nil {
		t.Fatal(err)
	}
	var m map[string]interface{}
	_ = json.Unmarshal(buf, &m)
	if _, ok := m["exp"].(float64); !ok {
		t.Fatalf("the expiry is not a number: %s", buf)
	}
''','A reader of the introspection response other than the own client.','The expiry is represented as a string.')
s('c26-json-null','C26',[(SC,'	return json.Marshal(s.String())','''	// encode missing scope
	if s == nil {
		return []byte("null"), nil
	}

	return json.Marshal(s.String())''')],'''
	buf, err := json.Marshal(struct{ Scope Scope }{})
	if err != nil || string(buf) != `{"Scope":""}` {
		t.Fatalf("unexpected: %s %v", buf, err)
	}
''','A scope that is nil and encoded where it is not left out.','The JSON form of a nil scope is not its text.')
s('c01-zero-expiry','C01',[(SV,'	if accessToken.ExpiresAt.Before(time.Now()) {','	if !accessToken.ExpiresAt.IsZero() && accessToken.ExpiresAt.Before(time.Now()) {')],'''
	s := seedServer()
	tk := s.Config.MustGenerate()
	s.AccessTokens[tk.SignatureString()] = &ServerCredential{ClientID: "conf", Scope: Scope{"foo"}}
	if ok, _ := seedAuth(s, tk.String(), "foo"); ok {
		t.Fatal("expired token accepted")
	}
''','A stored access token whose expiry is the zero time.','An expired token is accepted.')
s('c02-trailing-question','C02',[(SV,'	if client.RedirectURI != req.RedirectURI {','	if client.RedirectURI != strings.TrimSuffix(req.RedirectURI, "?") {')],'''
	s := seedServer()
	w := seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "conf", "redirect_uri", "http://example.com/conf?", "scope", "foo", "username", "alice", "password", "alice-pw")
	if w.Header().Get("Location") != "" {
		t.Fatal("redirected to an URI that is not registered")
	}
''','A redirect URI that differs from the registered one by an empty query.','The redirect goes to another than the registered URI.')
s('c05-allowed-empty','C05',[(SV,'	if !s.Config.AllowedScope.Includes(rq.Scope) {\n		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, true))','	if !s.Config.AllowedScope.Empty() && !s.Config.AllowedScope.Includes(rq.Scope) {\n		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, true))')],'''
	s := seedServer()
	s.Config.AllowedScope = nil
	seedPost(s, "/authorize", "", "", "response_type", "token", "client_id", "conf", "redirect_uri", "http://example.com/conf", "scope", "admin", "username", "alice", "password", "alice-pw")
	if len(s.AccessTokens) != 0 {
		t.Fatal("a scope was granted that is not allowed")
	}
''','A server that allows no scope at all.','Every scope is granted.')
s('c06-registered-uri','C06',[(SV,'	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {','	if rq.RedirectURI != storedAuthorizationCode.RedirectURI && rq.RedirectURI != s.Clients[rq.ClientID].RedirectURI {')],'''
	s := seedServer()
	code := seedCode(s, "conf", "foo")
	s.Clients["conf"].RedirectURI = "http://example.com/new"
	w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "authorization_code", "code", code, "redirect_uri", "http://example.com/new")
	if w.Code == 200 {
		t.Fatal("the code was honoured for another redirect URI")
	}
''','A client whose registered URI changes between the two steps.','A code is honoured for another redirect URI than it was issued for.')
s('c08-kept-narrowed','C08',[(SV,'	delete(s.RefreshTokens, refreshToken.SignatureString())','	if len(rq.Scope) == len(storedRefreshToken.Scope) {\n		delete(s.RefreshTokens, refreshToken.SignatureString())\n	}')],'''
	s := seedServer()
	_, rt := seedTokens(s, "conf", "conf-secret", "foo bar")
	seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt, "scope", "foo")
	if w := seedPost(s, "/token", "conf", "conf-secret", "grant_type", "refresh_token", "refresh_token", rt); w.Code == 200 {
		t.Fatal("the refresh token was used twice")
	}
''','A refresh that narrows the scope.','The used refresh token is kept.')
s('c20-empty-basic-id','C20',[(T,'	if !ok {\n		clientID =','	if !ok || clientID == "" {\n		clientID =')],'''
	r := httptest.NewRequest("POST", "/token", strings.NewReader("grant_type=password&client_id=pub"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	r.SetBasicAuth("", "secret")
	if rq, err := ParseTokenRequest(r); err == nil {
		t.Fatalf("credentials were taken from the body: %+v", rq)
	}
''','Basic authentication with an empty client id.','The body is consulted although there is basic authentication.')
s('c19-early-copy','C19',[(H,'''	// read random bytes
	_, err := io.ReadFull(randSource, key)
	if err != nil {
		return nil, err
	}

	return HS256TokenFromKey(secret, key), nil''','''	// keep the first bytes apart
	buf := append([]byte(nil), key...)
	if length > 16 {
		key = key[:16]
	}

	// read random bytes
	_, err := io.ReadFull(randSource, key)
	if err != nil {
		return nil, err
	}
	copy(buf, key)

	return HS256TokenFromKey(secret, buf), nil''')],'''
	tk, err := GenerateHS256Token([]byte("secret"), 32)
	if err != nil {
		t.Fatal(err)
	}
	zero := 0
	for _, b := range tk.Key[16:] {
		if b == 0 {
			zero++
		}
	}
	if zero > 8 {
		t.Fatalf("the key is not random: %x", tk.Key)
	}
''','A key length above 16 bytes.','Only the first half of the key is random.')
s('c39-quoted','C39',[(E,'fmt.Sprintf(`%s="%s"`, k, v)','fmt.Sprintf(`%s=%q`, k, v)')],'''
	if p := InvalidRequest("b\\u00e4d\\ttab").Params(); p != "error=\\"invalid_request\\", error_description=\\"b\\u00e4d\\ttab\\"" {
		t.Fatalf("unexpected: %s", p)
	}
''','A description with a character that is escaped in Go source.','The parameter text is not the value.')
s('c31-lower','C31',[('oauth2test/request.go','''		r.PostForm.Set(k, v)''','''		r.PostForm.Set(strings.ToLower(k), v)'''),('oauth2test/request.go','"net/url"\n','"net/url"\n	"strings"\n')],'''
	oauth2test.Do(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.PostForm.Get("loginName") != "x" {
			t.Error("the form was changed")
		}
	}), &oauth2test.Request{Method: "POST", Path: "/", Form: map[string]string{"loginName": "x"}, Callback: func(*httptest.ResponseRecorder, *http.Request) {}})
''','Authorization parameters with upper case letters.','The suite does not send the declared form.')
s('c25-first-json','C25',[(T,'	err = json.Unmarshal(data, &trs)','	err = json.NewDecoder(strings.NewReader(string(data))).Decode(&trs)')],'''
	res := &http.Response{StatusCode: 200, Header: http.Header{"Content-Type": {"application/json"}}, Body: ioutil.NopCloser(strings.NewReader(`{"access_token":"a"} trailing`))}
	if r, err := ParseTokenResponse(res, 1000); err == nil {
		t.Fatalf("accepted: %+v", r)
	}
''','A reply with text after its JSON document.','A reply that is no JSON document is accepted.')
