# Mutants that refuse or alter what has to be accepted.
exec(open('/verif/tools/cases_ref4.py').read().split("WR='func WriteRedirect('")[0])
def mut(name,prop,*edits): C.append((name,'mut',list(edits),prop.split()))
mut('bearer-spaces','C28',(B,'''	return token, nil''','''	if strings.Contains(token, " ") {
		return "", InvalidRequest("malformed authorization header")
	}

	return token, nil'''))
mut('token-empty','C40',(T,'''	return &trs, nil''','''	if trs.AccessToken == "" {
		return nil, fmt.Errorf("missing access token")
	}

	return &trs, nil'''))
mut('intro-charset','C40',(I,'''	contentType, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil {
		return nil, err
	}
''','''	contentType, params, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil {
		return nil, err
	}
	if cs := params["charset"]; cs != "" && cs != "UTF-8" {
		return nil, fmt.Errorf("unexpected charset: %q", cs)
	}
'''))
mut('limit-full','C40',(I,'''	// parse content type
	contentType''','''	if int64(len(data)) == limit {
		return nil, fmt.Errorf("reply too long")
	}

	// parse content type
	contentType'''))
mut('scope-long','C29',(A,'''	scope := ParseScope(r.Form.Get("scope"))
''','''	scope := ParseScope(r.Form.Get("scope"))
	if len(scope) > 16 {
		return nil, InvalidRequest("too many scopes")
	}
'''))
mut('hs-short-key','C18 C29',(H,'''	// validate signatures
''','''	if len(key) < 8 {
		return nil, errors.New("token key is too short")
	}

	// validate signatures
'''))
mut('redirect-scheme','C17',(O,'''	// add params to fragment if requested
''','''	if redirectURI.Scheme != "http" && redirectURI.Scheme != "https" {
		return http.ErrNoLocation
	}

	// add params to fragment if requested
'''))
mut('scope-json-long','C26',(SC,'''	// set scope
''','''	if len(str) > 1024 {
		return json.Unmarshal(nil, s)
	}

	// set scope
'''))
mut('client-refuse','C40',(CL,'''	return trs, nil
}''','''	if trs.TokenType != BearerAccessTokenType {
		return nil, ProtectedResource()
	}

	return trs, nil
}'''))
mut('client-empty-token','C40',(CL,'''	// prepare endpoint
	endpoint := c.config.BaseURI + c.config.IntrospectionEndpoint
''','''	if irq.Token == "" {
		return &IntrospectionResponse{}, nil
	}

	// prepare endpoint
	endpoint := c.config.BaseURI + c.config.IntrospectionEndpoint
'''))
mut('client-no-secret','C40',(CL,'''	// prepare endpoint
	endpoint := c.config.BaseURI + c.config.RevocationEndpoint
''','''	if rrq.Token == "" {
		return InvalidRequest("missing token")
	}

	// prepare endpoint
	endpoint := c.config.BaseURI + c.config.RevocationEndpoint
'''))
mut('client-retry','C40',(CL,'''	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
''','''	res, err := c.client.Do(req)
	if err != nil {
		res, err = c.client.Do(req)
	}
	if err != nil {
		return err
	}
'''))
mut('build-empty','C40',(R,'''	// set basic auth if available
''','''	if r.ClientID == "" {
		return nil, InvalidRequest("missing client")
	}

	// set basic auth if available
'''))
mut('revoke-body','C40',(CL,'''		return ParseRequestError(res, c.config.ResponseLimit)
	}

	return nil''','''		return ParseRequestError(res, c.config.ResponseLimit)
	}

	// report errors of sloppy servers
	if res.ContentLength > 0 {
		return ParseRequestError(res, c.config.ResponseLimit)
	}

	return nil'''))
mut('gen-zero','C19',(H,'''	// prepare key
''','''	if length < 1 {
		return nil, errors.New("invalid length")
	}

	// prepare key
'''))
mut('parse-code-len','C29',(T,'''	code := r.PostForm.Get("code")
''','''	code := r.PostForm.Get("code")
	if len(code) > 100 {
		return nil, InvalidRequest("invalid code")
	}
'''))
mut('include-empty','C26',(SC,'''func (s Scope) Includes(scope Scope) bool {
''','''func (s Scope) Includes(scope Scope) bool {
	if len(s) == 0 {
		return false
	}

'''))
