# Planted bugs, ninth round: the completeness of the client, and a few more.
S=[]
SV,T,A,I,R,C,B,E,O,H,SC='server.go','token.go','authorization.go','introspection.go','revocation.go','client.go','bearer.go','error.go','oauth2.go','hs256.go','scope.go'
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))
RT='''
type seedRT func(*http.Request) (*http.Response, error)

func (f seedRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func seedReply(status int, ct, body string, n *int) *Client {
	return NewClientWithClient(Default("http://example.com"), &http.Client{Transport: seedRT(func(*http.Request) (*http.Response, error) {
		*n++
		h := http.Header{}
		if ct != "" {
			h.Set("Content-Type", ct)
		}
		return &http.Response{StatusCode: status, Status: strconv.Itoa(status), Body: ioutil.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Header: h}, nil
	})})
}
'''
s('c40-charset','C40',[(T,'''	contentType, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil {
		return nil, err
	}

	// check content type
	if contentType != "application/json" {''','''	contentType, params, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil {
		return nil, err
	}

	// check content type
	if charset, ok := params["charset"]; contentType != "application/json" || (ok && charset != "UTF-8") {''')],'''
	n := 0
	if _, err := seedReply(200, "application/json;charset=utf-8", `{"access_token":"a","token_type":"bearer"}`, &n).Authenticate(TokenRequest{}); err != nil {
		t.Fatal(err)
	}
''','A reply whose charset is written in small letters.','The call fails.',extra=RT)
s('c40-no-expiry','C40',[(C,'''	trs, err := ParseTokenResponse(res, c.config.ResponseLimit)
	if err != nil {
		return nil, err
	}
''','''	trs, err := ParseTokenResponse(res, c.config.ResponseLimit)
	if err != nil {
		return nil, err
	}

	// check grant
	if trq.GrantType == PasswordGrantType && !trq.Scope.Empty() && !trs.Scope.Empty() && !trs.Scope.Includes(trq.Scope) {
		return nil, InvalidScope("granted scope is too narrow")
	}
''')],'''
	n := 0
	if _, err := seedReply(200, "application/json", `{"access_token":"a","token_type":"bearer","scope":"foo"}`, &n).Authenticate(TokenRequest{GrantType: PasswordGrantType, Scope: Scope{"foo", "bar"}}); err != nil {
		t.Fatal(err)
	}
''','A password grant for which a narrower scope is granted.','The call fails.',extra=RT)
s('c40-retry','C40',[(C,'''	// perform request
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
''','''	// perform request
	res, err := c.client.Do(req)
	if err == nil && res.StatusCode == http.StatusServiceUnavailable {
		// try once more
		_ = res.Body.Close()
		res, err = c.client.Do(req)
	}
	if err != nil {
		return err
	}
''')],'''
	n := 0
	if seedReply(503, "text/plain", "", &n).Revoke(RevocationRequest{Token: "x"}) == nil || n != 1 {
		t.Fatal("the request is sent", n, "times")
	}
''','A revocation answered with 503.','The request is sent twice, the second time without its body.',extra=RT)
s('c40-skip-empty','C40',[(C,'''	// prepare endpoint
	endpoint := c.config.BaseURI + c.config.RevocationEndpoint
''','''	// ignore other types
	if rrq.TokenTypeHint != "" && !KnownTokenType(rrq.TokenTypeHint) {
		return UnsupportedTokenType("")
	}

	// prepare endpoint
	endpoint := c.config.BaseURI + c.config.RevocationEndpoint
''')],'''
	n := 0
	if err := seedReply(200, "", "", &n).Revoke(RevocationRequest{Token: "x", TokenTypeHint: "id_token"}); err != nil || n != 1 {
		t.Fatal(err, n)
	}
''','A token type hint of an extension.','The request is refused by the client instead of being sent.',extra=RT)
s('c40-build-client','C40',[(I,'''	// set basic auth if available
''','''	// the client has to identify itself
	if r.ClientID == "" && r.ClientSecret != "" {
		return nil, InvalidRequest("missing client identification")
	}

	// set basic auth if available
''')],'''
	if _, err := BuildIntrospectionRequest("http://example.com", IntrospectionRequest{Token: "x", ClientSecret: "key"}); err != nil {
		t.Fatal(err)
	}
''','A request with a secret only.','It is not built.')
s('c34-suite-default','C34',[('oauth2test/spec.go','''		ExpectedExpiresIn:     3600,
''','''		ExpectedExpiresIn:     3600,
		CodeReplayMitigation:  handler != nil,
''')],'''
	if s := Default(http.NotFoundHandler()); s.CodeReplayMitigation {
		t.Fatal("the default specification declares a capability")
	}
''','A suite run with the default specification against a server without replay mitigation.','The server fails for a capability it does not declare.',pkg='oauth2test/')
s('c18-min-key','C18',[(H,'''	// construct token
	token := &HS256Token{
		Key:       key,
		Signature: signature,
	}

	// validate''','''	// check key
	if len(key) == 0 {
		return nil, errors.New("token key is empty")
	}

	// construct token
	token := &HS256Token{
		Key:       key,
		Signature: signature,
	}

	// validate''')],'''
	if _, err := ParseHS256Token([]byte("secret"), HS256TokenFromKey([]byte("secret"), nil).String()); err != nil {
		t.Fatal(err)
	}
''','A token with an empty key.','It is refused though its signature is right.')
s('c19-short-refused','C19',[(H,'''	// prepare key
''','''	// refuse guessable tokens
	if len(secret) < 4 && len(secret) > 0 {
		return nil, errors.New("secret is too short")
	}

	// prepare key
''')],'''
	if _, err := GenerateHS256Token([]byte("abc"), 16); err != nil {
		t.Fatal(err)
	}
''','A secret of three bytes.','No token is generated.')
