R='oauth2test/'
C=[
('run-token-cond','mut',[(R+'spec.go','''	if spec.PasswordGrantSupport || spec.ClientCredentialsGrantSupport ||
		spec.AuthorizationCodeGrantSupport || spec.RefreshTokenGrantSupport {''','''	if spec.PasswordGrantSupport || spec.ClientCredentialsGrantSupport ||
		spec.AuthorizationCodeGrantSupport {''')],['C31']),
('run-cc-nested','mut',[(R+'spec.go','''	if spec.ClientCredentialsGrantSupport {''','''	if spec.ClientCredentialsGrantSupport && spec.PasswordGrantSupport {''')],['C31']),
('run-must-lost','mut',[(R+'spec.go','''	must(spec.ExpiredToken != "", "setting ExpiredToken is required")
''','')],['C31']),
('run-must-weak','mut',[(R+'utils.go','''	if !ok {
		panic(msg)''','''	if !ok {
		fmt.Println(msg)''')],['C31']),
('run-wrong-group','mut',[(R+'spec.go','''			RevocationEndpointTest(t, spec)''','''			IntrospectionEndpointTest(t, spec)''')],['C31']),
('run-early-return','mut',[(R+'spec.go','''	if spec.IntrospectionEndpoint != "" {''','''	if spec.RevocationEndpoint == "" {
		return
	}

	if spec.IntrospectionEndpoint != "" {''')],['C31']),
('run-parallel','mut',[(R+'spec.go','''		t.Run("RevocationEndpointTest", func(t *testing.T) {
			RevocationEndpointTest(t, spec)''','''		t.Run("RevocationEndpointTest", func(t *testing.T) {
			go RevocationEndpointTest(t, spec)''')],['C31']),
('do-form-lost','mut',[(R+'request.go','''	for k, v := range req.Form {
''','''	for k, v := range req.Form {
		if v == "" {
			continue
		}
''')],['C31']),
('do-header-first','mut',[(R+'request.go','''		r.Header.Set(k, v)
	}''','''		r.Header.Set(k, v)
		break
	}''')],['C31']),
('do-basic-cond','mut',[(R+'request.go','''	if req.Username != "" {''','''	if req.Username != "" && req.Password != "" {''')],['C31']),
('do-basic-order','mut',[(R+'request.go','''	// add headers
	for k, v := range req.Header {
		r.Header.Set(k, v)
	}

	// add basic auth if present
	if req.Username != "" {
		auth := req.Username + ":" + req.Password
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(auth))
		r.Header.Set("Authorization", auth)
	}
''','''	// add basic auth if present
	if req.Username != "" {
		auth := req.Username + ":" + req.Password
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(auth))
		r.Header.Set("Authorization", auth)
	}

	// add headers
	for k, v := range req.Header {
		r.Header.Set(k, v)
	}
''')],['C31']),
('do-callback-guard','mut',[(R+'request.go','''	req.Callback(rec, r)''','''	if rec.Code != http.StatusNotFound {
		req.Callback(rec, r)
	}''')],['C31']),
('do-post-only','mut',[(R+'request.go','''	for k, v := range req.Form {
		r.PostForm.Set(k, v)
	}''','''	if req.Method == "POST" {
		for k, v := range req.Form {
			r.PostForm.Set(k, v)
		}
	}''')],['C31']),
('x-status-unverified','mut',[(R+'grants.go','''			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
			},''','''			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.NotNil(t, r.Body, debug(r))
			},''')],['C31']),
('x-replay-cond','mut',[(R+'grants.go','''	if spec.CodeReplayMitigation {''','''	if spec.CodeReplayMitigation && spec.RefreshTokenGrantSupport {''')],['C31']),
('x-extend','mut',[(R+'utils.go','''	for k, v := range src {
		ret[k] = v
	}''','''	for k, v := range src {
		if v != "" {
			ret[k] = v
		}
	}''')],['C31']),
('x-extend-src','mut',[(R+'utils.go','''	// add source keys
	for k, v := range src {
		ret[k] = v
	}

	// add extension keys
	for k, v := range ext {
		ret[k] = v
	}
''','''	// add extension keys
	for k, v := range ext {
		ret[k] = v
	}

	// add source keys
	for k, v := range src {
		ret[k] = v
	}
''')],['C31']),
('x-skip-introspection','mut',[(R+'general.go','''	// check if access token is now inactive
	if spec.IntrospectionEndpoint != "" {''','''	// check if access token is now inactive
	if spec.IntrospectionEndpoint == spec.RevocationEndpoint {''')],['C31']),
('x-guarded-assert','mut',[(R+'endpoints.go','''			assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
			assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))
		},
	})

	// invalid client
''','''			if r.Body.Len() > 0 {
				assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
				assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))
			}
		},
	})

	// invalid client
''')],['C31']),
('x-wrong-endpoint','mut',[(R+'endpoints.go','''	// unknown client
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
''','''	// unknown client
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.IntrospectionEndpoint,
''')],['C31']),
# behaviour kept
('ref-run-table','ref',[(R+'spec.go','''	if spec.IntrospectionEndpoint != "" {
		t.Run("IntrospectionEndpointTest", func(t *testing.T) {
			IntrospectionEndpointTest(t, spec)
		})
	}

	if spec.RevocationEndpoint != "" {
		t.Run("RevocationEndpointTest", func(t *testing.T) {
			RevocationEndpointTest(t, spec)
		})
	}
''','''	endpoints := []struct {
		name string
		path string
		test func(*testing.T, *Spec)
	}{
		{"IntrospectionEndpointTest", spec.IntrospectionEndpoint, IntrospectionEndpointTest},
		{"RevocationEndpointTest", spec.RevocationEndpoint, RevocationEndpointTest},
	}

	for _, e := range endpoints {
		if e.path == "" {
			continue
		}
		e := e
		t.Run(e.name, func(t *testing.T) {
			e.test(t, spec)
		})
	}
''')],None),
('ref-run-helper','ref',[(R+'spec.go','''	t.Run("ProtectedResourceTest", func(t *testing.T) {
		ProtectedResourceTest(t, spec)
	})
''','''	run(t, spec, "ProtectedResourceTest", ProtectedResourceTest)
'''),(R+'spec.go',None,'''
func run(t *testing.T, spec *Spec, name string, fn func(*testing.T, *Spec)) {
	t.Run(name, func(t *testing.T) {
		fn(t, spec)
	})
}
'''),(R+'spec.go','''	if spec.ImplicitGrantSupport || spec.AuthorizationCodeGrantSupport {
		must''','''	needsTokens := spec.ImplicitGrantSupport || spec.AuthorizationCodeGrantSupport
	if needsTokens {
		must''')],None),
('ref-must-list','ref',[(R+'spec.go','''	must(spec.InvalidScope != "", "setting InvalidScope is required")
	must(spec.ValidScope != "", "setting ValidScope is required")
	must(spec.ExceedingScope != "", "setting ExceedingScope is required")
''','''	for _, s := range []struct{ name, value string }{
		{"InvalidScope", spec.InvalidScope},
		{"ValidScope", spec.ValidScope},
		{"ExceedingScope", spec.ExceedingScope},
	} {
		must(s.value != "", "setting "+s.name+" is required")
	}
''')],None),
('ref-must-inline','ref',[(R+'spec.go','''	must(spec.ExpiredToken != "", "setting ExpiredToken is required")
''','''	if len(spec.ExpiredToken) == 0 {
		panic("setting ExpiredToken is required")
	}
''')],None),
('ref-do-setbasic','ref',[(R+'request.go','''		auth := req.Username + ":" + req.Password
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(auth))
		r.Header.Set("Authorization", auth)
''','''		r.SetBasicAuth(req.Username, req.Password)
''')],None),
('ref-do-form','ref',[(R+'request.go','''	r.PostForm = make(url.Values)

	// add params
	for k, v := range req.Form {
		r.PostForm.Set(k, v)
	}
''','''	form := url.Values{}

	// add params
	for k, v := range req.Form {
		form[k] = []string{v}
	}

	r.PostForm = form
''')],None),
('ref-do-split','ref',[(R+'request.go','''	// prepare recorder
	rec := httptest.NewRecorder()

	// handle request
	handler.ServeHTTP(rec, r)

	// call callback
	req.Callback(rec, r)
}''','''	// call callback
	req.Callback(serve(handler, r), r)
}

func serve(handler http.Handler, r *http.Request) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	handler.ServeHTTP(rec, r)
	return rec
}''')],None),
('ref-callback-helper','ref',[(R+'endpoints.go','''		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
			assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))
		},
	})

	// invalid client
''','''		Callback: expectError(t, http.StatusBadRequest, "invalid_request"),
	})

	// invalid client
'''),(R+'utils.go',None,'''
func expectError(t *testing.T, status int, code string) func(*httptest.ResponseRecorder, *http.Request) {
	return func(r *httptest.ResponseRecorder, _ *http.Request) {
		assert.Equal(t, status, r.Code, debug(r))
		assert.Equal(t, code, jsonFieldString(r, "error"), debug(r))
	}
}
''')],None),
('ref-check-error','ref',[(R+'endpoints.go','''			assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
			assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))
		},
	})

	// invalid client
''','''			checkError(t, r, http.StatusBadRequest, "invalid_request")
		},
	})

	// invalid client
'''),(R+'utils.go',None,'''
func checkError(t *testing.T, r *httptest.ResponseRecorder, status int, code string) {
	t.Helper()
	assert.Equal(t, status, r.Code, debug(r))
	assert.Equal(t, code, jsonFieldString(r, "error"), debug(r))
}
''')],None),
('ref-introspect-helper','ref',[(R+'general.go','''	// check if access token is active
	if spec.IntrospectionEndpoint != "" {
		Do(spec.Handler, &Request{
			Method:   "POST",
			Path:     spec.IntrospectionEndpoint,
			Username: spec.ConfidentialClientID,
			Password: spec.ConfidentialClientSecret,
			Form: map[string]string{
				"token":           accessToken,
				"token_type_hint": "access_token",
			},
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, http.StatusOK, r.Code, debug(r))
				assert.True(t, jsonFieldBool(r, "active"), debug(r))
				assert.Equal(t, "access_token", jsonFieldString(r, "token_type"), debug(r))
			},
		})
	}
''','''	// check if access token is active
	introspect(spec, accessToken, "access_token", func(r *httptest.ResponseRecorder, rq *http.Request) {
		assert.Equal(t, http.StatusOK, r.Code, debug(r))
		assert.True(t, jsonFieldBool(r, "active"), debug(r))
		assert.Equal(t, "access_token", jsonFieldString(r, "token_type"), debug(r))
	})
'''),(R+'general.go',None,'''
func introspect(spec *Spec, token, hint string, cb func(r *httptest.ResponseRecorder, rq *http.Request)) {
	if spec.IntrospectionEndpoint == "" {
		return
	}

	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.IntrospectionEndpoint,
		Username: spec.ConfidentialClientID,
		Password: spec.ConfidentialClientSecret,
		Form: map[string]string{
			"token":           token,
			"token_type_hint": hint,
		},
		Callback: cb,
	})
}
''')],None),
('ref-table-groups','ref',[(R+'endpoints.go','''	// invalid request
	Do(spec.Handler, &Request{
		Method: "POST",
		Path:   spec.TokenEndpoint,
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
			assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))
		},
	})

	// unknown client
	Do(spec.Handler, &Request{
		Method:   "POST",
		Path:     spec.TokenEndpoint,
		Username: "unknown",
		Form: map[string]string{
			"grant_type": "password",
		},
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
			assert.Equal(t, "invalid_client", jsonFieldString(r, "error"), debug(r))
		},
	})

	// invalid grant type
	Do(spec.Handler, &Request{
		Method: "POST",
		Path:   spec.TokenEndpoint,
		Form: map[string]string{
			"grant_type": "invalid",
		},
		Username: spec.ConfidentialClientID,
		Password: spec.ConfidentialClientSecret,
		Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
			assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
			assert.Equal(t, "invalid_request", jsonFieldString(r, "error"), debug(r))
		},
	})
}''','''	for _, c := range []struct {
		user, pass, grant string
		status            int
		code              string
	}{
		{"", "", "", http.StatusBadRequest, "invalid_request"},
		{"unknown", "", "password", http.StatusUnauthorized, "invalid_client"},
		{spec.ConfidentialClientID, spec.ConfidentialClientSecret, "invalid", http.StatusBadRequest, "invalid_request"},
	} {
		var form map[string]string
		if c.grant != "" {
			form = map[string]string{
				"grant_type": c.grant,
			}
		}
		Do(spec.Handler, &Request{
			Method:   "POST",
			Path:     spec.TokenEndpoint,
			Username: c.user,
			Password: c.pass,
			Form:     form,
			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, c.status, r.Code, debug(r))
				assert.Equal(t, c.code, jsonFieldString(r, "error"), debug(r))
			},
		})
	}
}''')],None),
('ref-extend','ref',[(R+'utils.go','''	ret := make(map[string]string)

	// add source keys
	for k, v := range src {
		ret[k] = v
	}

	// add extension keys
	for k, v := range ext {
		ret[k] = v
	}

	return ret''','''	ret := make(map[string]string, len(src)+len(ext))
	for _, m := range []map[string]string{src, ext} {
		for k, v := range m {
			ret[k] = v
		}
	}
	return ret''')],None),
('ref-nil-header','ref',[(R+'request.go','''	if err != nil {
		panic(err)
	}

	// add headers
''','''	must(err == nil, "invalid request")

	// add headers
''')],None),
('ref-jsonfield','ref',[(R+'utils.go','''	srd := strings.NewReader(r.Body.String())
	dec := json.NewDecoder(srd)
	dst := make(map[string]interface{})

	err := dec.Decode(&dst)
	if err != nil {
		return nil
	}

	return dst[field]''','''	var dst map[string]interface{}
	if json.Unmarshal(r.Body.Bytes(), &dst) != nil {
		return nil
	}
	return dst[field]''')],None),
('notempty-args','mut',[(R+'general.go',"""			assert.NotEmpty(t, newRefreshToken, debug(r))""","""			assert.NotEmpty(t, debug(r), newRefreshToken)""")],['C31']),
('notempty-lost','mut',[(R+'grants.go',"""			refreshToken = jsonFieldString(r, "refresh_token")
			assert.NotEmpty(t, refreshToken, debug(r))
		},
	})

	// test access token
	AccessTokenTest(t, spec, accessToken)

	// test refresh token if present
	if refreshToken != "" {
		RefreshTokenTest(t, spec, refreshToken)
	}
}

// ClientCred""","""			refreshToken = jsonFieldString(r, "refresh_token")
		},
	})

	// test access token
	AccessTokenTest(t, spec, accessToken)

	// test refresh token if present
	if refreshToken != "" {
		RefreshTokenTest(t, spec, refreshToken)
	}
}

// ClientCred""")],['C31']),
('inactive-key','mut',[(R+'general.go',"""			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, http.StatusOK, r.Code, debug(r))
				assert.False(t, jsonFieldBool(r, "active"), debug(r))
			},
		})
	}
}

// RefreshTokenTest""","""			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
				assert.Equal(t, http.StatusOK, r.Code, debug(r))
				assert.False(t, jsonFieldBool(r, "token_type"), debug(r))
			},
		})
	}
}

// RefreshTokenTest""")],['C31']),
('undeclared-revocation','mut',[(R+'general.go',"""	if spec.RevocationEndpoint == "" {
		return
	}

	// revoke access token
""","""	if spec.RevocationEndpoint == "" {
		t.Log("revocation is not available")
	}

	// revoke access token
""")],['C31']),
('own-comparison-log','mut',[(R+'general.go',"""			assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
			assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))""","""			if r.Code != http.StatusUnauthorized {
				t.Logf("unexpected status: %s", debug(r))
			}
			assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))""")],['C31']),
('only-on-status','mut',[(R+'general.go',"""			assert.Equal(t, http.StatusUnauthorized, r.Code, debug(r))
			assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))""","""			if r.Code == http.StatusUnauthorized {
				assert.Equal(t, "invalid_token", auth(r, "error"), debug(r))
			}""")],['C31']),
('reader-fallback','mut',[(R+'utils.go',"""		return strings.Trim(values[1], "\\",")
	}

	return ""
""","""		return strings.Trim(values[1], "\\",")
	}

	return header
""")],['C31']),
('reader-place','mut',[(R+'utils.go',"""	return f.Get(key)
""","""	if f.Get(key) == "" {
		return u.Query().Get(key)
	}

	return f.Get(key)
""")],['C31']),
('reader-type','mut',[(R+'utils.go',"""	str, _ := jsonField(r, field).(string)
	return str
""","""	return fmt.Sprint(jsonField(r, "error"))
""")],['C31']),
]
