C=[
('c32-shared-error','mut',[('error.go','''func ProtectedResource() *Error {
	return &Error{
		Status: http.StatusUnauthorized,
	}
}''','''func ProtectedResource() *Error {
	return protectedResource
}

var protectedResource = &Error{
	Status: http.StatusUnauthorized,
}''')],['C32']),
('c32-shared-headers','mut',[('error.go','''		Headers: map[string]string{
			"WWW-Authenticate": `Basic realm="OAuth2"`,
		},
	}
}''','''		Headers: basicHeaders,
	}
}

var basicHeaders = map[string]string{
	"WWW-Authenticate": `Basic realm="OAuth2"`,
}''')],['C32']),
('c32-cache','mut',[('hs256.go','''	return token, nil
}

// Valid''','''	lastToken = token

	return token, nil
}

var lastToken *HS256Token

// Valid''')],['C32']),
('c32-buf','mut',[('revocation.go','''	// prepare slice
	slice := []string{
		r.Token,
		r.TokenTypeHint,
	}
''','''	// prepare slice
	slice := revBuf[:]
	slice[0], slice[1] = r.Token, r.TokenTypeHint
'''),('revocation.go',None,'\nvar revBuf [2]string\n')],['C32']),
('c32-clients','mut',[('server.go','''	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")
''','''	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")
	owner.RedirectURI = rq.RedirectURI
''')],['C32']),
('c32-config','mut',[('server.go','''	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// save tokens''','''	// check scope
	if s.Config.AllowedScope.Empty() {
		s.Config.AllowedScope = rq.Scope
	}
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// save tokens''')],['C32']),
('c30-base','mut',[('server.go','''	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}
''','''	path = pathpkg.Base(path)
'''),('server.go','''import (
''','''import (
	pathpkg "path"
''')],['C30']),
('c30-first','mut',[('server.go','''	idx := strings.LastIndexByte(path, '/')''','''	idx := strings.IndexByte(path, '/')''')],['C30']),
('c30-suffix','mut',[('server.go','''	switch path {
	case "authorize":''','''	if strings.HasSuffix(path, "introspect") {
		path = "introspect"
	}
	switch path {
	case "authorize":''')],['C30']),
('c30-trim','mut',[('server.go','''	path := r.URL.Path
''','''	path := strings.TrimSuffix(r.URL.Path, "/")
''')],['C30']),
('c30-escaped','mut',[('server.go','''	path := r.URL.Path
''','''	path := r.URL.EscapedPath()
''')],['C30']),
('c30-query','mut',[('server.go','''	switch path {
	case "authorize":''','''	if path == "" {
		path = r.URL.Query().Get("endpoint")
	}
	switch path {
	case "authorize":''')],['C30']),
('c30-case','mut',[('server.go','''	switch path {
	case "authorize":''','''	switch strings.ToLower(path) {
	case "authorize":''')],['C30']),
('c29-access-denied','mut',[('server.go','''	if !found || owner.Secret != rq.Password {
		_ = WriteError(w, AccessDenied(""))''','''	if !found || owner.Secret != rq.Password {
		_ = WriteError(w, InvalidGrant(""))''')],['C29']),
('c29-expired-code','mut',[('server.go','InvalidGrant("expired authorization code")','InvalidRequest("expired authorization code")')],['C29']),
('c29-pubclient','mut',[('server.go','''	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''','''	// authenticate client
	if client.Secret != req.ClientSecret && (client.Confidential || req.ClientSecret != "") {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant type''')],['C29']),
('c29-scope-empty','mut',[('server.go','''	if !storedRefreshToken.Scope.Includes(rq.Scope) {''','''	if !storedRefreshToken.Scope.Includes(rq.Scope) || !s.Config.AllowedScope.Includes(rq.Scope) {''')],['C29']),
('c29-hint','mut',[('server.go','''	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// prepare response''','''	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidGrant(err.Error()))
		return
	}

	// prepare response''')],['C29']),
('c29-auth-code','mut',[('server.go','WriteBearerError(w, InvalidToken("expired token"))','WriteBearerError(w, InvalidRequest("expired token"))')],['C29']),
('c29-auth-scope','mut',[('server.go','WriteBearerError(w, InsufficientScope(required))','WriteBearerError(w, InvalidToken("insufficient scope"))')],['C29']),
('c29-long','mut',[('hs256.go','''	// construct token
	token := &HS256Token{
		Key:       key,
		Signature: signature,
	}

	// validate''','''	if len(key) > 32 {
		return nil, errors.New("key too long")
	}

	// construct token
	token := &HS256Token{
		Key:       key,
		Signature: signature,
	}

	// validate''')],['C29']),
('c29-post-only','mut',[('authorization.go','''	if r.Method != "GET" && r.Method != "POST" {''','''	if r.Method != "GET" && r.Method != "POST" || r.Method == "GET" && r.ContentLength > 0 {''')],['C29']),
('c29-redirected','mut',[('server.go','''		_ = WriteError(w, InvalidRequest("unknown response type"))''','''		_ = WriteError(w, UnsupportedResponseType("unknown response type"))''')],['C29']),
]
