# Behaviour-preserving edits of the conformance suite: every check must stay quiet.
exec(open('/verif/tools/cases_ref4.py').read().split("WR='func WriteRedirect('")[0])
ST,RQ,UT,GR,EN,GE='oauth2test/spec.go','oauth2test/request.go','oauth2test/utils.go','oauth2test/grants.go','oauth2test/endpoints.go','oauth2test/general.go'
PW='func PasswordGrantTest('
PR='func ProtectedResourceTest('
TO='func TokenEndpointTest('
AT='func AccessTokenTest('
RT='func RefreshTokenTest('
TAIL_PW=body(GR,PW); TAIL_PW=TAIL_PW[TAIL_PW.index('	var accessToken, refreshToken string'):]
def errs(name,loop,extra=''): ref(name,fn(GR,PW,'''func PasswordGrantTest(t *testing.T, spec *Spec) {
'''+loop+TAIL_PW),*([add(GR,extra)] if extra else []))
TABLE='''	cases := []struct {
		name, secret, username, password, scope string
		status                                  int
		err                                     string
	}{
		{"invalid client secret", "invalid", spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ValidScope, http.StatusUnauthorized, "invalid_client"},
		{"invalid username", spec.ConfidentialClientSecret, "invalid", spec.ResourceOwnerPassword, spec.ValidScope, http.StatusForbidden, "access_denied"},
		{"invalid password", spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, "invalid", spec.ValidScope, http.StatusForbidden, "access_denied"},
		{"invalid scope", spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.InvalidScope, http.StatusBadRequest, "invalid_scope"},
		{"exceeding scope", spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ExceedingScope, http.StatusBadRequest, "invalid_scope"},
	}

'''
REQ='''&Request{
			Method:   "POST",
			Path:     spec.TokenEndpoint,
			Username: spec.ConfidentialClientID,
			Password: c.secret,
			Form: map[string]string{
				"grant_type": "password",
				"username":   c.username,
				"password":   c.password,
				"scope":      c.scope,
			},
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, c.status, r.Code, debug(r))
				assert.Equal(t, c.err, jsonFieldString(r, "error"), debug(r))
			},
		}'''
errs('table',TABLE+'''	for _, c := range cases {
		Do(spec.Handler, '''+REQ+''')
	}

''')
errs('table-index',TABLE+'''	for i := range cases {
		c := cases[i]
		Do(spec.Handler, '''+REQ+''')
	}

''')
errs('table-len',TABLE+'''	for i := 0; i < len(cases); i++ {
		c := &cases[i]
		Do(spec.Handler, '''+REQ+''')
	}

''')
errs('table-sub',TABLE+'''	for _, c := range cases {
		t.Run(c.name, func(t *testing.T) {
			Do(spec.Handler, '''+REQ+''')
		})
	}

''')
errs('table-map','''	cases := map[string][]string{
		"client secret": {"invalid", spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ValidScope, "401", "invalid_client"},
		"username":      {spec.ConfidentialClientSecret, "invalid", spec.ResourceOwnerPassword, spec.ValidScope, "403", "access_denied"},
		"password":      {spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, "invalid", spec.ValidScope, "403", "access_denied"},
		"scope":         {spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.InvalidScope, "400", "invalid_scope"},
		"exceeding":     {spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ExceedingScope, "400", "invalid_scope"},
	}

	for _, c := range cases {
		status, err := strconv.Atoi(c[4])
		if err != nil {
			panic(err)
		}

		Do(spec.Handler, &Request{
			Method:   "POST",
			Path:     spec.TokenEndpoint,
			Username: spec.ConfidentialClientID,
			Password: c[0],
			Form: map[string]string{
				"grant_type": "password",
				"username":   c[1],
				"password":   c[2],
				"scope":      c[3],
			},
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, status, r.Code, debug(r))
				assert.Equal(t, c[5], jsonFieldString(r, "error"), debug(r))
			},
		})
	}

''')
errs('local-closure','''	try := func(secret, username, password, scope string, status int, name string) {
		Do(spec.Handler, &Request{
			Method:   "POST",
			Path:     spec.TokenEndpoint,
			Username: spec.ConfidentialClientID,
			Password: secret,
			Form: map[string]string{
				"grant_type": "password",
				"username":   username,
				"password":   password,
				"scope":      scope,
			},
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, status, r.Code, debug(r))
				assert.Equal(t, name, jsonFieldString(r, "error"), debug(r))
			},
		})
	}

	try("invalid", spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ValidScope, http.StatusUnauthorized, "invalid_client")
	try(spec.ConfidentialClientSecret, "invalid", spec.ResourceOwnerPassword, spec.ValidScope, http.StatusForbidden, "access_denied")
	try(spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, "invalid", spec.ValidScope, http.StatusForbidden, "access_denied")
	for _, scope := range []string{spec.InvalidScope, spec.ExceedingScope} {
		try(spec.ConfidentialClientSecret, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, scope, http.StatusBadRequest, "invalid_scope")
	}

''')
errs('shared-form','''	form := map[string]string{
		"grant_type": "password",
		"username":   spec.ResourceOwnerUsername,
		"password":   spec.ResourceOwnerPassword,
		"scope":      spec.ValidScope,
	}

	// invalid client secret
	requestToken(spec, "invalid", form, expectError(t, http.StatusUnauthorized, "invalid_client"))

	// invalid username
	form["username"] = "invalid"
	requestToken(spec, spec.ConfidentialClientSecret, form, expectError(t, http.StatusForbidden, "access_denied"))

	// invalid password
	form["username"] = spec.ResourceOwnerUsername
	form["password"] = "invalid"
	requestToken(spec, spec.ConfidentialClientSecret, form, expectError(t, http.StatusForbidden, "access_denied"))

	// invalid scope
	form["password"] = spec.ResourceOwnerPassword
	form["scope"] = spec.InvalidScope
	requestToken(spec, spec.ConfidentialClientSecret, form, expectError(t, http.StatusBadRequest, "invalid_scope"))

	// exceeding scope
	form["scope"] = spec.ExceedingScope
	requestToken(spec, spec.ConfidentialClientSecret, form, expectError(t, http.StatusBadRequest, "invalid_scope"))

''','''
func requestToken(spec *Spec, secret string, form map[string]string, cb func(*httptest.ResponseRecorder, *http.Request)) {
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: spec.ConfidentialClientID,
		Password: secret,
		Form:     form,
		Callback: cb,
	})
}

func expectError(t *testing.T, status int, name string) func(*httptest.ResponseRecorder, *http.Request) {
	return func(r *httptest.ResponseRecorder, _ *http.Request) {
		t.Helper()

		assert.Equal(t, status, r.Code, debug(r))
		assert.Equal(t, name, jsonFieldString(r, "error"), debug(r))
	}
}
''')
errs('extended-form','''	base := map[string]string{
		"grant_type": "password",
		"username":   spec.ResourceOwnerUsername,
		"password":   spec.ResourceOwnerPassword,
		"scope":      spec.ValidScope,
	}

	for _, c := range []struct {
		form   map[string]string
		secret string
		status int
		name   string
	}{
		{nil, "invalid", 401, "invalid_client"},
		{map[string]string{"username": "invalid"}, spec.ConfidentialClientSecret, 403, "access_denied"},
		{map[string]string{"password": "invalid"}, spec.ConfidentialClientSecret, 403, "access_denied"},
		{map[string]string{"scope": spec.InvalidScope}, spec.ConfidentialClientSecret, 400, "invalid_scope"},
		{map[string]string{"scope": spec.ExceedingScope}, spec.ConfidentialClientSecret, 400, "invalid_scope"},
	} {
		req := &Request{Method: http.MethodPost, Path: spec.TokenEndpoint}
		req.Username, req.Password = spec.ConfidentialClientID, c.secret
		req.Form = extend(base, c.form)
		req.Callback = func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, c.status, r.Code, debug(r))
			assert.Equal(t, c.name, jsonFieldString(r, "error"), debug(r))
		}
		Do(spec.Handler, req)
	}

''')
# --- assertions ---
def tokens(*pairs): return sub(GR,PW,*pairs)
ref('assertions',fn(EN,TO,'''func TokenEndpointTest(t *testing.T, spec *Spec) {
	is := assert.New(t)

	// invalid request
	Do(spec.Handler, &Request{
		Method: "POST",
		Path:   spec.TokenEndpoint,
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			is.Equal(http.StatusBadRequest, r.Code, debug(r))
			is.Equal("invalid_request", jsonFieldString(r, "error"), debug(r))
		},
	})

	// unknown client
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: "unknown",
		Form: map[string]string{
			"grant_type": "password",
		},
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			is.Equal(http.StatusUnauthorized, r.Code, debug(r))
			is.Equal("invalid_client", jsonFieldString(r, "error"), debug(r))
		},
	})

	// invalid grant type
	Do(spec.Handler, &Request{
		Method: "POST",
		Path:   spec.TokenEndpoint,
		Form: map[string]string{
			"grant_type": "invalid",
		},
		Username: spec.ConfidentialClientID,
		Password: spec.ConfidentialClientSecret,
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			is.Equal(http.StatusBadRequest, r.Code, debug(r))
			is.Equal("invalid_request", jsonFieldString(r, "error"), debug(r))
		},
	})
}
'''))
ref('own-comparison',fn(EN,TO,'''func TokenEndpointTest(t *testing.T, spec *Spec) {
	fails := func(status int, name string) func(*httptest.ResponseRecorder, *http.Request) {
		return func(r *httptest.ResponseRecorder, rq *http.Request) {
			if r.Code != status {
				t.Errorf("expected status %d: %s", status, debug(r))
			}
			assert.Equal(t, name, jsonFieldString(r, "error"), debug(r))
		}
	}

	// invalid request
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Callback: fails(http.StatusBadRequest, "invalid_request"),
	})

	// unknown client
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: "unknown",
		Form: map[string]string{
			"grant_type": "password",
		},
		Callback: fails(http.StatusUnauthorized, "invalid_client"),
	})

	// invalid grant type
	Do(spec.Handler, &Request{
		Method: "POST",
		Path:   spec.TokenEndpoint,
		Form: map[string]string{
			"grant_type": "invalid",
		},
		Username: spec.ConfidentialClientID,
		Password: spec.ConfidentialClientSecret,
		Callback: fails(http.StatusBadRequest, "invalid_request"),
	})
}
'''))
ref('reply-returned',fn(EN,TO,'''func TokenEndpointTest(t *testing.T, spec *Spec) {
	// invalid request
	r := send(spec, &Request{
		Method: "POST",
		Path:   spec.TokenEndpoint,
	})
	assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
	assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))

	// unknown client
	r = send(spec, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: "unknown",
		Form: map[string]string{
			"grant_type": "password",
		},
	})
	assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
	assert.Equal(t, "invalid_client", jsonFieldString(r, "error"), debug(r))

	// invalid grant type
	r = send(spec, &Request{
		Method: "POST",
		Path:   spec.TokenEndpoint,
		Form: map[string]string{
			"grant_type": "invalid",
		},
		Username: spec.ConfidentialClientID,
		Password: spec.ConfidentialClientSecret,
	})
	assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
	assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))
}

func send(spec *Spec, req *Request) *httptest.ResponseRecorder {
	var reply *httptest.ResponseRecorder
	req.Callback = func(r *httptest.ResponseRecorder, _ *http.Request) {
		reply = r
	}
	Do(spec.Handler, req)

	return reply
}
'''))
ref('token-reply',tokens(('''			assert.Equal(t, http.StatusOK, r.Code, debug(r))
			assert.Equal(t, "bearer", jsonFieldString(r, "token_type"), debug(r))
			assert.Equal(t, spec.ValidScope, jsonFieldString(r, "scope"), debug(r))
			assert.Equal(t, float64(spec.ExpectedExpiresIn), jsonFieldFloat(r, "expires_in"), debug(r))

			accessToken = jsonFieldString(r, "access_token")
			assert.NotEmpty(t, accessToken, debug(r))

			refreshToken = jsonFieldString(r, "refresh_token")
			assert.NotEmpty(t, refreshToken, debug(r))
''','''			accessToken, refreshToken = verifyTokens(t, spec, r)
''')),sub(GE,RT,('''			assert.Equal(t, http.StatusOK, r.Code, debug(r))
			assert.Equal(t, "bearer", jsonFieldString(r, "token_type"), debug(r))
			assert.Equal(t, spec.ValidScope, jsonFieldString(r, "scope"), debug(r))
			assert.Equal(t, float64(spec.ExpectedExpiresIn), jsonFieldFloat(r, "expires_in"), debug(r))

			accessToken = jsonFieldString(r, "access_token")
			assert.NotEmpty(t, accessToken, debug(r))

			newRefreshToken = jsonFieldString(r, "refresh_token")
			assert.NotEmpty(t, newRefreshToken, debug(r))
''','''			accessToken, newRefreshToken = verifyTokens(t, spec, r)
''')),add(GE,'''
func verifyTokens(t *testing.T, spec *Spec, r *httptest.ResponseRecorder) (string, string) {
	t.Helper()

	assert.Equal(t, http.StatusOK, r.Code, debug(r))
	assert.Equal(t, "bearer", jsonFieldString(r, "token_type"), debug(r))
	assert.Equal(t, spec.ValidScope, jsonFieldString(r, "scope"), debug(r))
	assert.EqualValues(t, spec.ExpectedExpiresIn, jsonFieldFloat(r, "expires_in"), debug(r))

	accessToken := jsonFieldString(r, "access_token")
	refreshToken := jsonFieldString(r, "refresh_token")
	assert.True(t, accessToken != "", debug(r))
	assert.NotEqual(t, "", refreshToken, debug(r))

	return accessToken, refreshToken
}
'''))
ref('protected-table',fn(EN,PR,'''func ProtectedResourceTest(t *testing.T, spec *Spec) {
	get := func(header string, check func(r *httptest.ResponseRecorder)) {
		req := Request{
			Method: "GET",
			Path:   spec.ProtectedResource,
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				check(r)
				assert.Empty(t, r.Body.String(), debug(r))
			},
		}
		if header != "" {
			req.Header = map[string]string{"Authorization": header}
		}
		Do(spec.Handler, &req)
	}

	// missing token
	get("", func(r *httptest.ResponseRecorder) {
		assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
		assert.NotEmpty(t, auth(r, "realm"), debug(r))
	})

	// invalid header
	get("invalid", func(r *httptest.ResponseRecorder) {
		assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
		assert.Equal(t, "invalid_request", auth(r, "error"), debug(r))
	})

	// unusable tokens
	for _, token := range []string{spec.InvalidToken, spec.UnknownToken, spec.ExpiredToken} {
		get("Bearer "+token, func(r *httptest.ResponseRecorder) {
			assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
			assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))
		})
	}

	// insufficient token
	get("Bearer "+spec.InsufficientToken, func(r *httptest.ResponseRecorder) {
		assert.Equal(t, http.StatusForbidden, r.Code, debug(r))
		assert.Equal(t, "insufficient_scope", auth(r, "error"), debug(r))
	})
}
'''))
ref('protected-fmt',fn(EN,PR,'''func ProtectedResourceTest(t *testing.T, spec *Spec) {
	for _, c := range []struct {
		header map[string]string
		status int
		key    string
		value  string
	}{
		{nil, http.StatusUnauthorized, "", ""},
		{map[string]string{"Authorization": "invalid"}, http.StatusBadRequest, "error", "invalid_request"},
		{bearer(spec.InvalidToken), http.StatusUnauthorized, "error", "invalid_token"},
		{bearer(spec.UnknownToken), http.StatusUnauthorized, "error", "invalid_token"},
		{bearer(spec.ExpiredToken), http.StatusUnauthorized, "error", "invalid_token"},
		{bearer(spec.InsufficientToken), http.StatusForbidden, "error", "insufficient_scope"},
	} {
		Do(spec.Handler, &Request{
			Method: "GET",
			Path:   spec.ProtectedResource,
			Header: c.header,
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, c.status, r.Code, debug(r))
				if c.key == "" {
					assert.NotEmpty(t, auth(r, "realm"), debug(r))
				} else {
					assert.Equal(t, c.value, auth(r, c.key), debug(r))
				}
				assert.Equal(t, 0, r.Body.Len(), debug(r))
			},
		})
	}
}

func bearer(token string) map[string]string {
	return map[string]string{
		"Authorization": fmt.Sprintf("Bearer %s", token),
	}
}
'''))
ref('access-guard',fn(GE,AT,'''func AccessTokenTest(t *testing.T, spec *Spec, accessToken string) {
	// check token functionality
	access(spec, accessToken, func(r *httptest.ResponseRecorder, rq *http.Request) {
		assert.Equal(t, http.StatusOK, r.Code, debug(r))
	})

	// check if access token is active
	introspect(spec, accessToken, "access_token", func(r *httptest.ResponseRecorder, rq *http.Request) {
		assert.Equal(t, http.StatusOK, r.Code, debug(r))
		assert.True(t, jsonFieldBool(r, "active"), debug(r))
		assert.Equal(t, "access_token", jsonFieldString(r, "token_type"), debug(r))
	})

	// revoke access token
	if !revoke(t, spec, accessToken, "access_token") {
		return
	}

	// check token functionality
	access(spec, accessToken, func(r *httptest.ResponseRecorder, rq *http.Request) {
		assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
		assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))
	})

	// check if access token is now inactive
	introspect(spec, accessToken, "access_token", func(r *httptest.ResponseRecorder, rq *http.Request) {
		assert.Equal(t, http.StatusOK, r.Code, debug(r))
		assert.False(t, jsonFieldBool(r, "active"), debug(r))
	})
}

func access(spec *Spec, token string, cb func(*httptest.ResponseRecorder, *http.Request)) {
	Do(spec.Handler, &Request{
		Method:   "GET",
		Path:     spec.ProtectedResource,
		Header:   map[string]string{"Authorization": "Bearer " + token},
		Callback: cb,
	})
}

func introspect(spec *Spec, token, hint string, cb func(*httptest.ResponseRecorder, *http.Request)) {
	if spec.IntrospectionEndpoint == "" {
		return
	}

	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.IntrospectionEndpoint,
		Username: spec.ConfidentialClientID,
		Password: spec.ConfidentialClientSecret,
		Form: map[string]string{
			"token":           token,
			"token_type_hint": hint,
		},
		Callback: cb,
	})
}

func revoke(t *testing.T, spec *Spec, token, hint string) bool {
	if spec.RevocationEndpoint == "" {
		return false
	}

	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.RevocationEndpoint,
		Username: spec.ConfidentialClientID,
		Password: spec.ConfidentialClientSecret,
		Form: map[string]string{
			"token":           token,
			"token_type_hint": hint,
		},
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, http.StatusOK, r.Code, debug(r))
		},
	})

	return true
}
'''))
ref('access-method',fn(GE,AT,'''func AccessTokenTest(t *testing.T, spec *Spec, accessToken string) {
	probe := &accessProbe{t: t, spec: spec, token: accessToken}
	probe.use(http.StatusOK, "")
	probe.introspect(true)
	if spec.RevocationEndpoint != "" {
		probe.revoke()
		probe.use(http.StatusUnauthorized, "invalid_token")
		probe.introspect(false)
	}
}

type accessProbe struct {
	t     *testing.T
	spec  *Spec
	token string
}

func (p *accessProbe) use(status int, name string) {
	Do(p.spec.Handler, &Request{
		Method: "GET",
		Path:   p.spec.ProtectedResource,
		Header: map[string]string{
			"Authorization": "Bearer " + p.token,
		},
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(p.t, status, r.Code, debug(r))
			if name != "" {
				assert.Equal(p.t, name, auth(r, "error"), debug(r))
			}
		},
	})
}

func (p *accessProbe) form() map[string]string {
	return map[string]string{
		"token":           p.token,
		"token_type_hint": "access_token",
	}
}

func (p *accessProbe) introspect(active bool) {
	if p.spec.IntrospectionEndpoint == "" {
		return
	}
	Do(p.spec.Handler, &Request{
		Method:   "POST",
		Path:     p.spec.IntrospectionEndpoint,
		Username: p.spec.ConfidentialClientID,
		Password: p.spec.ConfidentialClientSecret,
		Form:     p.form(),
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(p.t, http.StatusOK, r.Code, debug(r))
			assert.Equal(p.t, active, jsonFieldBool(r, "active"), debug(r))
			if active {
				assert.Equal(p.t, "access_token", jsonFieldString(r, "token_type"), debug(r))
			}
		},
	})
}

func (p *accessProbe) revoke() {
	Do(p.spec.Handler, &Request{
		Method:   "POST",
		Path:     p.spec.RevocationEndpoint,
		Username: p.spec.ConfidentialClientID,
		Password: p.spec.ConfidentialClientSecret,
		Form:     p.form(),
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(p.t, http.StatusOK, r.Code, debug(r))
		},
	})
}
'''))
# --- Run ---
MUST=body(ST,'func Run('); MUST=MUST[MUST.index('	must('):MUST.index('	t.Run("Prot')]
CODE='''	must(spec.InvalidAuthorizationCode != "", "setting InvalidAuthorizationCode is required")
	must(spec.UnknownAuthorizationCode != "", "setting UnknownAuthorizationCode is required")
	must(spec.ExpiredAuthorizationCode != "", "setting ExpiredAuthorizationCode is required")
'''
VALID='''
func (spec *Spec) validate() {
'''+MUST+'''
	if spec.ImplicitGrantSupport || spec.AuthorizationCodeGrantSupport {
		must(spec.InvalidRedirectURI != "", "setting InvalidRedirectURI is required")
		must(spec.PrimaryRedirectURI != "", "setting PrimaryRedirectURI is required")
		must(spec.SecondaryRedirectURI != "", "setting SecondaryRedirectURI is required")
		must(spec.InvalidAuthorizationParams != nil || spec.InvalidAuthorizationHeaders != nil, "setting InvalidAuthorizationParams or InvalidAuthorizationHeaders is required")
		must(spec.ValidAuthorizationParams != nil || spec.ValidAuthorizationHeaders != nil, "setting ValidAuthorizationParams ValidAuthorizationHeaders is required")
	}

	if spec.PasswordGrantSupport {
		must(spec.ResourceOwnerUsername != "", "setting ResourceOwnerUsername is required")
		must(spec.ResourceOwnerPassword != "", "setting ResourceOwnerPassword is required")
	}

	if spec.AuthorizationCodeGrantSupport {
'''+CODE+'''	}

	if spec.RefreshTokenGrantSupport {
		must(spec.InvalidRefreshToken != "", "setting InvalidRefreshToken is required")
		must(spec.UnknownRefreshToken != "", "setting UnknownRefreshToken is required")
		must(spec.ValidRefreshToken != "", "setting ValidRefreshToken is required")
		must(spec.ExpiredRefreshToken != "", "setting ExpiredRefreshToken is required")
	}
}
'''
GROUPS='''	{"ProtectedResourceTest", true, ProtectedResourceTest},
		{"TokenEndpointTest", spec.PasswordGrantSupport || spec.ClientCredentialsGrantSupport || spec.AuthorizationCodeGrantSupport || spec.RefreshTokenGrantSupport, TokenEndpointTest},
		{"AuthorizationEndpointTest", spec.ImplicitGrantSupport || spec.AuthorizationCodeGrantSupport, AuthorizationEndpointTest},
		{"PasswordGrantTest", spec.PasswordGrantSupport, PasswordGrantTest},
		{"ClientCredentialsGrantTest", spec.ClientCredentialsGrantSupport, ClientCredentialsGrantTest},
		{"ImplicitGrantTest", spec.ImplicitGrantSupport, ImplicitGrantTest},
		{"AuthorizationCodeGrantTest", spec.AuthorizationCodeGrantSupport, AuthorizationCodeGrantTest},
		{"RefreshTokenGrantTest", spec.RefreshTokenGrantSupport, RefreshTokenGrantTest},
		{"IntrospectionEndpointTest", spec.IntrospectionEndpoint != "", IntrospectionEndpointTest},
		{"RevocationEndpointTest", spec.RevocationEndpoint != "", RevocationEndpointTest},
'''
ref('run-groups',fn(ST,'func Run(','''func Run(t *testing.T, spec *Spec) {
	spec.validate()

	for _, group := range []struct {
		name    string
		enabled bool
		test    func(*testing.T, *Spec)
	}{
	'''+GROUPS+'''	} {
		if !group.enabled {
			continue
		}

		t.Run(group.name, func(t *testing.T) {
			group.test(t, spec)
		})
	}
}
'''+VALID))
ref('run-collect',fn(ST,'func Run(','''func Run(t *testing.T, spec *Spec) {
	spec.validate()

	run := func(enabled bool, name string, test func(*testing.T, *Spec)) {
		if enabled {
			t.Run(name, func(t *testing.T) { test(t, spec) })
		}
	}

	tokens := spec.PasswordGrantSupport || spec.ClientCredentialsGrantSupport || spec.AuthorizationCodeGrantSupport || spec.RefreshTokenGrantSupport
	run(true, "ProtectedResourceTest", ProtectedResourceTest)
	run(tokens, "TokenEndpointTest", TokenEndpointTest)
	run(spec.ImplicitGrantSupport || spec.AuthorizationCodeGrantSupport, "AuthorizationEndpointTest", AuthorizationEndpointTest)
	run(spec.PasswordGrantSupport, "PasswordGrantTest", PasswordGrantTest)
	run(spec.ClientCredentialsGrantSupport, "ClientCredentialsGrantTest", ClientCredentialsGrantTest)
	run(spec.ImplicitGrantSupport, "ImplicitGrantTest", ImplicitGrantTest)
	run(spec.AuthorizationCodeGrantSupport, "AuthorizationCodeGrantTest", AuthorizationCodeGrantTest)
	run(spec.RefreshTokenGrantSupport, "RefreshTokenGrantTest", RefreshTokenGrantTest)
	run(spec.IntrospectionEndpoint != "", "IntrospectionEndpointTest", IntrospectionEndpointTest)
	run(spec.RevocationEndpoint != "", "RevocationEndpointTest", RevocationEndpointTest)
}
'''+VALID))
ref('run-required-table',sub(ST,'func Run(',(MUST,'''	must(spec.Handler != nil, "setting Handler is required")

	for _, setting := range []struct{ name, value string }{
		{"TokenEndpoint", spec.TokenEndpoint},
		{"AuthorizeEndpoint", spec.AuthorizeEndpoint},
		{"ProtectedResource", spec.ProtectedResource},
		{"ConfidentialClientID", spec.ConfidentialClientID},
		{"ConfidentialClientSecret", spec.ConfidentialClientSecret},
		{"PublicClientID", spec.PublicClientID},
		{"InvalidScope", spec.InvalidScope},
		{"ValidScope", spec.ValidScope},
		{"ExceedingScope", spec.ExceedingScope},
		{"InvalidToken", spec.InvalidToken},
		{"ValidToken", spec.ValidToken},
		{"UnknownToken", spec.UnknownToken},
		{"ExpiredToken", spec.ExpiredToken},
	} {
		if setting.value == "" {
			panic("setting " + setting.name + " is required")
		}
	}

''')))
ref('run-required-map',sub(ST,'func Run(',(MUST,'''	must(spec.Handler != nil, "setting Handler is required")
	for name, value := range map[string]string{
		"TokenEndpoint":            spec.TokenEndpoint,
		"AuthorizeEndpoint":        spec.AuthorizeEndpoint,
		"ProtectedResource":        spec.ProtectedResource,
		"ConfidentialClientID":     spec.ConfidentialClientID,
		"ConfidentialClientSecret": spec.ConfidentialClientSecret,
		"PublicClientID":           spec.PublicClientID,
		"InvalidScope":             spec.InvalidScope,
		"ValidScope":               spec.ValidScope,
		"ExceedingScope":           spec.ExceedingScope,
		"InvalidToken":             spec.InvalidToken,
		"ValidToken":               spec.ValidToken,
		"UnknownToken":             spec.UnknownToken,
		"ExpiredToken":             spec.ExpiredToken,
	} {
		must(value != "", "setting "+name+" is required")
	}

''')))
ref('run-require-variadic',sub(ST,'func Run(',('''		must(spec.InvalidRefreshToken != "", "setting InvalidRefreshToken is required")
		must(spec.UnknownRefreshToken != "", "setting UnknownRefreshToken is required")
		must(spec.ValidRefreshToken != "", "setting ValidRefreshToken is required")
		must(spec.ExpiredRefreshToken != "", "setting ExpiredRefreshToken is required")
''','''		require("refresh token", spec.InvalidRefreshToken, spec.UnknownRefreshToken, spec.ValidRefreshToken, spec.ExpiredRefreshToken)
''')),add(ST,'''
func require(what string, values ...string) {
	for _, value := range values {
		must(value != "", "setting "+what+" is required")
	}
}
'''))
# --- Do and readers ---
ref('do-values',fn(RQ,'func Do(','''func Do(handler http.Handler, req *Request) {
	// create and serve request
	r, rec := req.build(), httptest.NewRecorder()
	handler.ServeHTTP(rec, r)

	// call callback
	if req.Callback != nil {
		req.Callback(rec, r)
	}
}

func (req *Request) build() *http.Request {
	r, err := http.NewRequest(req.Method, req.Path, nil)
	if err != nil {
		panic(err)
	}

	// add headers
	for name := range req.Header {
		r.Header.Set(name, req.Header[name])
	}

	// add basic auth if present
	if req.Username != "" {
		r.SetBasicAuth(req.Username, req.Password)
	}

	// add params
	r.PostForm = url.Values{}
	for name, value := range req.Form {
		r.PostForm[name] = []string{value}
	}

	return r
}
'''))
ref('do-defaults',sub(RQ,'func Do(',('''	// call callback
	req.Callback(rec, r)''','''	// call callback
	cb := req.Callback
	cb(rec, r)'''),('''	if req.Username != "" {
		auth := req.Username + ":" + req.Password
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(auth))
		r.Header.Set("Authorization", auth)
	}''','''	if req.Username != "" {
		credentials := strings.Join([]string{req.Username, req.Password}, ":")
		r.Header.Set("Authorization", fmt.Sprintf("Basic %s", base64.StdEncoding.EncodeToString([]byte(credentials))))
	}''')))
ref('location',fn(UT,'func query(','''func query(r *httptest.ResponseRecorder, key string) string {
	return location(r).Query().Get(key)
}
'''),fn(UT,'func fragment(','''func fragment(r *httptest.ResponseRecorder, key string) string {
	f, err := url.ParseQuery(location(r).Fragment)
	if err != nil {
		panic(err)
	}

	return f.Get(key)
}

func location(r *httptest.ResponseRecorder) *url.URL {
	u, err := url.Parse(r.Header().Get("Location"))
	if err != nil {
		panic(err)
	}

	return u
}
'''))
ref('json-typed',fn(UT,'func jsonFieldString(','''func jsonFieldString(r *httptest.ResponseRecorder, field string) string {
	if str, ok := jsonField(r, field).(string); ok {
		return str
	}

	return ""
}
'''),fn(UT,'func jsonField(','''func jsonField(r *httptest.ResponseRecorder, field string) interface{} {
	var dst map[string]interface{}
	if err := json.Unmarshal(r.Body.Bytes(), &dst); err != nil {
		return nil
	}

	return dst[field]
}
'''))
ref('must-variadic',fn(UT,'func must(','''func must(ok bool, format string, args ...interface{}) {
	if ok {
		return
	}

	panic(fmt.Sprintf(format, args...))
}
'''))
ref('extend-clone',fn(UT,'func extend(','''func extend(src, ext map[string]string) map[string]string {
	return merge(merge(map[string]string{}, src), ext)
}

func merge(dst, src map[string]string) map[string]string {
	for key := range src {
		dst[key] = src[key]
	}

	return dst
}
'''))
ref('extend-variadic',fn(UT,'func extend(','''func extend(list ...map[string]string) map[string]string {
	ret := map[string]string{}
	for _, m := range list {
		for key, value := range m {
			ret[key] = value
		}
	}

	return ret
}
'''))
