S=[]
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))
SUITE='''
// seedSuite runs the suite against a compliant server behind a wrapper and returns the requests it made.
func seedSuite(t *testing.T, change func(*oauth2test.Spec), wrap func(http.Handler) http.Handler) []string {
	s := seedServer()
	c := s.Config
	s.Config.AllowedScope = Scope{"foo", "bar"}
	id := func(store map[string]*ServerCredential, scope Scope, d time.Duration) string {
		k := c.MustGenerate()
		if store != nil {
			store[k.SignatureString()] = &ServerCredential{ClientID: "conf", Scope: scope, ExpiresAt: time.Now().Add(d)}
		}
		return k.String()
	}
	all := Scope{"foo", "bar"}
	mux := http.NewServeMux()
	mux.Handle("/oauth2/", s)
	mux.HandleFunc("/api/", func(w http.ResponseWriter, r *http.Request) {
		if s.Authorize(w, r, Scope{"foo"}) {
			_, _ = w.Write([]byte("OK"))
		}
	})
	var seen []string
	var h http.Handler = mux
	if wrap != nil {
		h = wrap(mux)
	}
	spec := oauth2test.Default(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		seen = append(seen, r.Method+" "+r.URL.Path+" "+r.PostForm.Encode())
		h.ServeHTTP(w, r)
	}))
	spec.ConfidentialClientID, spec.ConfidentialClientSecret, spec.PublicClientID = "conf", "conf-secret", "pub"
	spec.ResourceOwnerUsername, spec.ResourceOwnerPassword = "alice", "alice-pw"
	spec.InvalidScope, spec.ValidScope, spec.ExceedingScope = "baz", "foo bar", "foo bar baz"
	spec.UnknownToken, spec.ValidToken = id(nil, nil, 0), id(s.AccessTokens, all, time.Hour)
	spec.ExpiredToken, spec.InsufficientToken = id(s.AccessTokens, all, -time.Hour), id(s.AccessTokens, nil, time.Hour)
	spec.PrimaryRedirectURI, spec.SecondaryRedirectURI = "http://example.com/conf", "http://example.com/pub"
	spec.UnknownRefreshToken, spec.ValidRefreshToken, spec.ExpiredRefreshToken = id(nil, nil, 0), id(s.RefreshTokens, all, time.Hour), id(s.RefreshTokens, all, -time.Hour)
	spec.InvalidAuthorizationCode, spec.UnknownAuthorizationCode, spec.ExpiredAuthorizationCode = "invalid", id(nil, nil, 0), id(s.AuthorizationCodes, all, -time.Hour)
	spec.InvalidAuthorizationParams = map[string]string{"username": "alice", "password": "invalid"}
	spec.ValidAuthorizationParams = map[string]string{"username": "alice", "password": "alice-pw"}
	change(spec)
	oauth2test.Run(t, spec)
	return seen
}

// seedFails tells whether the suite fails, run by another process.
func seedFails(t *testing.T, change func(*oauth2test.Spec), wrap func(http.Handler) http.Handler) bool {
	if os.Getenv("SEED_CHILD") != "" {
		seedSuite(t, change, wrap)
		t.SkipNow()
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestSeedDemo$")
	cmd.Env = append(os.Environ(), "SEED_CHILD=1")
	out, err := cmd.CombinedOutput()
	t.Log(string(out))
	return err != nil
}

func seedCount(seen []string, part string) (n int) {
	for _, l := range seen {
		if strings.Contains(l, part) {
			n++
		}
	}
	return
}
'''
s('c31-cc-nested','C31',[('oauth2test/spec.go','''	if spec.ClientCredentialsGrantSupport {
''','''	if spec.ClientCredentialsGrantSupport && spec.PasswordGrantSupport {
''')],'''
	seen := seedSuite(t, func(s *oauth2test.Spec) { s.ClientCredentialsGrantSupport = true }, nil)
	if seedCount(seen, "grant_type=client_credentials") == 0 {
		t.Fatal("the declared grant is not tested")
	}''','a specification with the client credentials grant only','a declared capability is not tested',extra=SUITE)
s('c31-token-endpoint','C31',[('oauth2test/spec.go','''	if spec.PasswordGrantSupport || spec.ClientCredentialsGrantSupport ||
		spec.AuthorizationCodeGrantSupport || spec.RefreshTokenGrantSupport {''','''	if spec.PasswordGrantSupport || spec.ClientCredentialsGrantSupport ||
		spec.AuthorizationCodeGrantSupport {''')],'''
	seen := seedSuite(t, func(s *oauth2test.Spec) { s.RefreshTokenGrantSupport = true }, nil)
	if seedCount(seen, "grant_type=invalid") == 0 {
		t.Fatal("the token endpoint is not tested")
	}''','a specification with the refresh token grant only','the token endpoint tests are skipped',extra=SUITE)
s('c31-revocation-last','C31',[('oauth2test/spec.go','''	if spec.IntrospectionEndpoint != "" {
		t.Run''','''	if spec.RevocationEndpoint == "" {
		return
	}

	if spec.IntrospectionEndpoint != "" {
		t.Run''')],'''
	seen := seedSuite(t, func(s *oauth2test.Spec) { s.RevocationEndpoint = "" }, nil)
	if seedCount(seen, "/oauth2/introspect") == 0 {
		t.Fatal("the introspection endpoint is not tested")
	}''','a specification without revocation','the introspection tests are skipped',extra=SUITE)
s('c31-missing-setting','C31',[('oauth2test/spec.go','''		must(spec.UnknownRefreshToken != "", "setting UnknownRefreshToken is required")
''','''		must(spec.UnknownRefreshToken != "" || spec.InvalidRefreshToken != "", "setting UnknownRefreshToken is required")
''')],'''
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		seedSuite(t, func(s *oauth2test.Spec) {
			s.RefreshTokenGrantSupport = true
			s.UnknownRefreshToken = ""
		}, nil)
	}()
	if !refused {
		t.Fatal("the lacking setting is accepted")
	}''','a specification without an unknown refresh token','the suite runs although a mandatory setting is missing',extra=SUITE)
s('c31-revoked-still-works','C31',[('oauth2test/general.go','''			assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
			assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))''','''			if r.Code == http.StatusUnauthorized {
				assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))
			}''')],'''
	revoke := func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path == "/oauth2/revoke" && r.PostForm.Get("token_type_hint") == "access_token" {
				h.ServeHTTP(httptest.NewRecorder(), &http.Request{Method: "GET", URL: r.URL, Header: http.Header{}})
				return // the token stays
			}
			h.ServeHTTP(w, r)
		})
	}
	change := func(s *oauth2test.Spec) {
		s.ClientCredentialsGrantSupport = true
		s.IntrospectionEndpoint = ""
		s.ExpectedExpiresIn = 3600
	}
	if !seedFails(t, change, revoke) {
		t.Fatal("revoked access tokens that still work go unnoticed")
	}''','a server that does not remove revoked access tokens','the status of the exchange after the revocation is not verified',extra=SUITE)
s('c31-inactive-field','C31',[('oauth2test/general.go','''				assert.Equal(t, http.StatusOK, r.Code, debug(r))
				assert.False(t, jsonFieldBool(r, "active"), debug(r))
			},
		})
	}
}

// RefreshTokenTest''','''				assert.Equal(t, http.StatusOK, r.Code, debug(r))
				assert.False(t, jsonFieldBool(r, "token_type"), debug(r))
			},
		})
	}
}

// RefreshTokenTest''')],'''
	revoked := map[string]bool{}
	valid := ""
	wrap := func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path == "/oauth2/revoke" && r.PostForm.Get("token") != valid {
				revoked[r.PostForm.Get("token")] = true
			}
			if r.URL.Path == "/oauth2/introspect" && revoked[r.PostForm.Get("token")] {
				_ = WriteIntrospectionResponse(w, &IntrospectionResponse{Active: true, TokenType: AccessToken})
				return
			}
			h.ServeHTTP(w, r)
		})
	}
	change := func(s *oauth2test.Spec) {
		s.ImplicitGrantSupport = true
		s.ExpectedExpiresIn = 3600
		valid = s.ValidToken
	}
	if !seedFails(t, change, wrap) {
		t.Fatal("revoked tokens that are reported as active go unnoticed")
	}''','a server that reports revoked access tokens as active','the activity of a revoked token is not verified',extra=SUITE)
s('c31-refresh-presence','C31',[('oauth2test/general.go','''			assert.NotEmpty(t, newRefreshToken, debug(r))''','''			assert.NotEmpty(t, debug(r), newRefreshToken)''')],'''
	wrap := func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.PostForm.Get("grant_type") != "refresh_token" {
				h.ServeHTTP(w, r)
				return
			}
			rec := httptest.NewRecorder()
			h.ServeHTTP(rec, r)
			doc := seedJSON(rec)
			delete(doc, "refresh_token")
			for k, v := range rec.Header() {
				w.Header()[k] = v
			}
			w.WriteHeader(rec.Code)
			_ = json.NewEncoder(w).Encode(doc)
		})
	}
	change := func(s *oauth2test.Spec) {
		s.PasswordGrantSupport = true
		s.ExpectedExpiresIn = 3600
		s.IntrospectionEndpoint = ""
		s.RevocationEndpoint = ""
	}
	if !seedFails(t, change, wrap) {
		t.Fatal("missing refresh tokens go unnoticed")
	}''','a server that does not rotate refresh tokens','the presence of a new refresh token is not verified',extra=SUITE)
# C16
s('c16-native-query','C16',[('token.go','''		return WriteRedirect(w, r.RedirectURI, r.Map(), true)''','''		return WriteRedirect(w, r.RedirectURI, r.Map(), strings.HasPrefix(r.RedirectURI, "http"))''')],'''
	w := httptest.NewRecorder()
	_ = WriteTokenResponse(w, NewBearerTokenResponse("token", 1).SetRedirect("app://callback", "x"))
	u, _ := url.Parse(w.Header().Get("Location"))
	if u.Query().Get("access_token") != "" {
		t.Fatal("an access token travels in the query")
	}''','a redirect URI with a private scheme','access tokens are delivered in the query to native applications')
# C21

s('c21-password-trim','C21',[('token.go','''	password := r.PostForm.Get("password")''','''	password := strings.TrimSpace(r.PostForm.Get("password"))''')],'''
	form := url.Values{"grant_type": {"password"}, "client_id": {"c"}, "password": {" pw "}}
	r := httptest.NewRequest("POST", "/", strings.NewReader(form.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	q, err := ParseTokenRequest(r)
	if err != nil || q.Password != " pw " {
		t.Fatal("the password was changed", q, err)
	}''','a password with surrounding spaces','the password is not the one that was sent')
s('c21-last-client','C21',[('authorization.go','''	clientID := r.Form.Get("client_id")
	if clientID == "" {''','''	var clientID string
	for _, v := range r.Form["client_id"] {
		clientID = v
	}
	if clientID == "" {''')],'''
	r := httptest.NewRequest("GET", "/?response_type=code&client_id=a&client_id=b&redirect_uri=http://example.com", nil)
	q, err := ParseAuthorizationRequest(r)
	if err != nil || q.ClientID != "a" {
		t.Fatal("another client", q, err)
	}''','a request that repeats client_id','the last value is used instead of the first')
# C22
s('c22-secret-only','C22',[('token.go','''	if r.ClientID != "" || r.ClientSecret != "" {''','''	if r.ClientSecret != "" {''')],'''
	r, err := BuildTokenRequest("http://example.com/token", TokenRequest{GrantType: "authorization_code", ClientID: "pub"})
	if err != nil {
		t.Fatal(err)
	}
	if id, _, ok := r.BasicAuth(); !ok || id != "pub" {
		t.Fatal("the client is not sent")
	}''','a public client','the id of clients without a secret is not transmitted')
s('c22-escape-id','C22',[('revocation.go','''		req.SetBasicAuth(r.ClientID, r.ClientSecret)''','''		req.SetBasicAuth(url.QueryEscape(r.ClientID), url.QueryEscape(r.ClientSecret))''')],'''
	r, err := BuildRevocationRequest("http://example.com/revoke", RevocationRequest{Token: "x", ClientID: "a b", ClientSecret: "s+"})
	if err != nil {
		t.Fatal(err)
	}
	_ = r.ParseForm()
	q, err := ParseRevocationRequest(r)
	if err != nil || q.ClientID != "a b" || q.ClientSecret != "s+" {
		t.Fatal("the parser reads other credentials", q, err)
	}''','credentials with special characters','builder and parser disagree on the encoding of credentials')
# C23
