C=[]
def m(name,exp,*edits): C.append((name,'mut',list(edits),exp.split()))
S='server.go'
# C01
m('a-zero-expiry','C01',(S,'''	// validate expiration
	if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError''','''	// validate expiration
	if !accessToken.ExpiresAt.IsZero() && accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError'''))
m('a-purge','C01 C12',(S,'''	if accessToken.ExpiresAt.Before(time.Now()) {
		_ = WriteBearerError''','''	if accessToken.ExpiresAt.Before(time.Now()) {
		delete(s.AccessTokens, token.SignatureString())
		_ = WriteBearerError'''))
m('a-substring','C01',(S,'''	if !accessToken.Scope.Includes(required) {
		_ = WriteBearer''','''	if !strings.Contains(accessToken.Scope.String(), required.String()) {
		_ = WriteBearer'''))
m('a-any-scope','C01',(S,'''	if !accessToken.Scope.Includes(required) {
		_ = WriteBearer''','''	var any bool
	for _, name := range required {
		any = any || accessToken.Scope.Contains(name)
	}
	if !any && !required.Empty() {
		_ = WriteBearer'''))
m('a-code-token','C01',(S,'''	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		_ = WriteBearer''','''	accessToken, found := s.AccessTokens[token.SignatureString()]
	if !found {
		accessToken, found = s.AuthorizationCodes[token.SignatureString()]
	}
	if !found {
		_ = WriteBearer'''))
m('a-touch','C01 C12',(S,'''	return true
}

// ServeHTTP''','''	// sliding expiry
	accessToken.ExpiresAt = time.Now().Add(s.Config.AccessTokenLifespan)

	return true
}

// ServeHTTP'''))
# C02
m('b-slash','C02',(S,'''	if client.RedirectURI != req.RedirectURI {''','''	if strings.TrimRight(client.RedirectURI, "/") != strings.TrimRight(req.RedirectURI, "/") {'''))
m('b-fold','C02',(S,'''	if client.RedirectURI != req.RedirectURI {''','''	if !strings.EqualFold(client.RedirectURI, req.RedirectURI) {'''))
m('b-type-redirect','C02',(S,'''		_ = WriteError(w, InvalidRequest("unknown response type"))''','''		_ = WriteError(w, InvalidRequest("unknown response type").SetRedirect(req.RedirectURI, req.State, false))'''))
m('b-query','C02',(S,'''	if client.RedirectURI != req.RedirectURI {''','''	if idx := strings.IndexByte(req.RedirectURI, '?'); client.RedirectURI != req.RedirectURI && (idx < 0 || client.RedirectURI != req.RedirectURI[:idx]) {'''))
m('b-parse-redirect','C02',('authorization.go','''		return nil, InvalidRequest("missing client ID")''','''		return nil, InvalidRequest("missing client ID").SetRedirect(r.Form.Get("redirect_uri"), state, false)'''))
# C03
m('c-empty-secret','C03',(S,'''	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// check access''','''	if client.Confidential && req.ClientSecret != "" && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// check access'''))
m('c-refresh-proof','C03',(S,'''	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle''','''	if client.Confidential && req.GrantType != RefreshTokenGrantType && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle'''))
m('c-user-bound','C03',(S,'''rq.ClientID, "", "")''','''rq.ClientID, rq.Username, "")'''))
m('c-prefix-compare','C03',(S,'''	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle''','''	if client.Confidential && len(client.Secret) == len(req.ClientSecret) && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle'''))
m('c-nosecret-public','C03',(S,'''	if !s.Clients[rq.ClientID].Confidential {''','''	if client := s.Clients[rq.ClientID]; !client.Confidential && client.Secret == "" {'''))
# C04
m('d-trim','C04',(S,'''	username := r.PostForm.Get("username")''','''	username := strings.TrimSpace(r.PostForm.Get("username"))'''))
m('d-lower','C04',(S,'''	owner, found := s.Users[rq.Username]''','''	owner, found := s.Users[strings.ToLower(rq.Username)]'''))
m('d-formvalue','C04',(S,'''	password := r.PostForm.Get("password")''','''	password := r.FormValue("password")'''))
m('d-bound-scope','C04 C11',(S,'''	r := s.issueTokens(true, rq.Scope, rq.ClientID, rq.Username, "")''','''	r := s.issueTokens(true, rq.Scope, rq.ClientID, strings.ToLower(rq.Username), "")'''))
m('d-disabled','C04',(S,'''	if !found || owner.Secret != password {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, true))''','''	if !found || (owner.Secret != "" && owner.Secret != password) {
		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, true))'''))
# C05
m('e-code-scope','C05',(S,'''	// issue tokens
	r := s.issueTokens(true, storedAuthorizationCode.Scope, rq''','''	// issue tokens
	scope := storedAuthorizationCode.Scope
	if !rq.Scope.Empty() {
		scope = rq.Scope
	}
	r := s.issueTokens(true, scope, rq'''))
m('e-allow-empty','C05',(S,'''	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, true))''','''	if !s.Config.AllowedScope.Empty() && !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope("").SetRedirect(rq.RedirectURI, rq.State, true))'''))
m('e-report','C05',(S,'''	r.Scope = scope
''','''	if code == "" {
		r.Scope = scope
	}
'''))
m('e-refresh-union','C05',(S,'''	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken''','''	// keep the reserved names
	if storedRefreshToken.Scope.Contains("openid") && !rq.Scope.Contains("openid") {
		rq.Scope = append(rq.Scope, "openid")
	}

	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken'''))
m('e-default-scope','C05',(S,'''	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// issue tokens''','''	// check scope
	if !s.Config.AllowedScope.Includes(rq.Scope) {
		_ = WriteError(w, InvalidScope(""))
		return
	}

	// grant everything if nothing has been requested
	if rq.Scope.Empty() {
		rq.Scope = s.Config.AllowedScope
	}

	// issue tokens'''))
# C06
m('f-leeway','C06',(S,'''storedAuthorizationCode.ExpiresAt.Before(time.Now())''','''storedAuthorizationCode.ExpiresAt.Add(time.Minute).Before(time.Now())'''))
m('f-user','C06 C04',(S,'''storedAuthorizationCode.Scope, rq.ClientID, storedAuthorizationCode.Username,''','''storedAuthorizationCode.Scope, rq.ClientID, rq.Username+storedAuthorizationCode.Username,'''))
m('f-uri-prefix','C06',(S,'''	if storedAuthorizationCode.RedirectURI != rq.RedirectURI {''','''	if !strings.HasPrefix(rq.RedirectURI, storedAuthorizationCode.RedirectURI) {'''))
m('f-owner-or','C06',(S,'''	if storedAuthorizationCode.ClientID != rq.ClientID {''','''	if storedAuthorizationCode.ClientID != rq.ClientID && !s.Clients[rq.ClientID].Confidential {'''))
m('f-store-uri','C06',(S,'''		RedirectURI: rq.RedirectURI,
	}

	// write''','''		RedirectURI: strings.SplitN(rq.RedirectURI, "?", 2)[0],
	}

	// write'''))
# C07
m('g-mark-written','C07',(S,'''	// mark authorization code
	storedAuthorizationCode.Used = true

	// write response
	_ = WriteTokenResponse(w, r)''','''	// write response and mark authorization code
	if WriteTokenResponse(w, r) == nil {
		storedAuthorizationCode.Used = true
	}'''))
m('g-narrow-lineage','C07',(S,'''	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)''','''	// narrowed tokens form a new family
	code := storedRefreshToken.Code
	if len(rq.Scope) < len(storedRefreshToken.Scope) {
		code = ""
	}

	// issue tokens
	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, code)'''))
m('g-expiry-first','C07',(S,'''	// check if used
	if storedAuthorizationCode.Used {''','''	// validate expiration
	if storedAuthorizationCode.ExpiresAt.Before(time.Now()) {
		_ = WriteError(w, InvalidGrant("expired authorization code"))
		return
	}

	// check if used
	if storedAuthorizationCode.Used {'''))
m('g-live-only','C07',(S,'''		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() {''','''		for key, token := range s.RefreshTokens {
			if token.Code == authorizationCode.SignatureString() && token.ClientID == rq.ClientID {'''))
m('g-forget','C07',(S,'''		_ = WriteError(w, InvalidGrant("unknown authorization code"))
		return
	}

	// validate expiration
	if storedAuth''','''		// the code is not needed any more
		storedAuthorizationCode.Used = false
		storedAuthorizationCode.ExpiresAt = time.Now()

		_ = WriteError(w, InvalidGrant("unknown authorization code"))
		return
	}

	// validate expiration
	if storedAuth'''))
# C08
m('h-delete-written','C08',(S,'''	// delete used refresh token
	delete(s.RefreshTokens, refreshToken.SignatureString())

	// write response
	_ = WriteTokenResponse(w, r)''','''	// write response and delete used refresh token
	if WriteTokenResponse(w, r) == nil {
		delete(s.RefreshTokens, refreshToken.SignatureString())
	}'''))
m('h-owner-conf','C08',(S,'''	if storedRefreshToken.ClientID != rq.ClientID {''','''	if s.Clients[storedRefreshToken.ClientID].Confidential && storedRefreshToken.ClientID != rq.ClientID {'''))
m('h-expiry-hours','C08',(S,'''	if storedRefreshToken.ExpiresAt.Before(time.Now()) {''','''	if storedRefreshToken.ExpiresAt.Before(time.Now().Truncate(time.Hour)) {'''))
m('h-family','C08',(S,'''	// delete used refresh token
	delete(s.RefreshTokens, refreshToken.SignatureString())
''','''	// delete used refresh token
	for key, token := range s.RefreshTokens {
		if token == storedRefreshToken || (token.Code != "" && token.Code == storedRefreshToken.Code && token.Scope == nil) {
			delete(s.RefreshTokens, key)
		}
	}
'''))
# C09
m('i-cascade','C09',(S,'''		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())
''','''		s.revokeToken(req.ClientID, s.RefreshTokens, token.SignatureString())
		for key, at := range s.AccessTokens {
			if at.Code != "" && at.Code == refreshToken.Code {
				delete(s.AccessTokens, key)
			}
		}
'''))
m('i-live-only','C09',(S,'''	// check client id
	if token.ClientID != clientID {
		return
	}
''','''	// check client id and expiry
	if token.ClientID != clientID || token.ExpiresAt.Before(time.Now()) {
		return
	}
'''))
m('i-expire','C09',(S,'''	// remove token
	delete(list, signature)''','''	// invalidate token
	token.ExpiresAt = time.Time{}'''))
m('i-unknown-error','C09 C29',(S,'''	// write header
	w.WriteHeader(http.StatusOK)''','''	// a token of the hinted type is expected
	if _, found := s.AccessTokens[token.SignatureString()]; found {
		w.WriteHeader(http.StatusServiceUnavailable)
		return
	}

	// write header
	w.WriteHeader(http.StatusNoContent)'''))
# C10
m('j-exp-now','C10',(S,'''			res.ExpiresAt = refreshToken.ExpiresAt.Unix()''','''			res.ExpiresAt = time.Now().Add(s.Config.RefreshTokenLifespan).Unix()'''))
m('j-purge','C10 C12',(S,'''			res.TokenType = AccessToken
			res.ExpiresAt = accessToken.ExpiresAt.Unix()
		}''','''			res.TokenType = AccessToken
			res.ExpiresAt = accessToken.ExpiresAt.Unix()
		} else {
			delete(s.AccessTokens, token.SignatureString())
		}'''))
m('j-user-fallback','C10',(S,'''			res.Username = accessToken.Username''','''			res.Username = accessToken.Username
			if res.Username == "" {
				res.Username = accessToken.ClientID
			}'''))
m('j-nanos','C10',(S,'''			res.ExpiresAt = accessToken.ExpiresAt.Unix()''','''			res.ExpiresAt = accessToken.ExpiresAt.Add(500 * time.Millisecond).Unix()'''))
m('j-foreign-inactive','C10 C29',(S,'''		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response''','''		// check owner
		if refreshToken.ClientID != req.ClientID {
			_ = WriteIntrospectionResponse(w, res)
			return
		}

		// set response'''))
# C11
m('k-round','C11',(S,'''int(s.Config.AccessTokenLifespan/time.Second))''','''int(s.Config.AccessTokenLifespan/time.Minute)*60)'''))
m('k-const-length','C11',(S,'''	return MustGenerateHS256Token(c.Secret, c.KeyLength)''','''	return MustGenerateHS256Token(c.Secret, 16)'''))
m('k-offline','C11',(S,'''	r := s.issueTokens(false, rq.Scope,''','''	r := s.issueTokens(rq.Scope.Contains("offline_access"), rq.Scope,'''))
m('k-late-store','C11',(S,'''	// prepare response
	r := NewCodeResponse(authorizationCode.String(), rq.RedirectURI, rq.State)
''','''	// write response
	_ = WriteCodeResponse(w, NewCodeResponse(authorizationCode.String(), rq.RedirectURI, rq.State))
'''),(S,'''		RedirectURI: rq.RedirectURI,
	}

	// write response
	_ = WriteCodeResponse(w, r)''','''		RedirectURI: rq.RedirectURI,
	}'''))
m('k-code-lifespan','C11',(S,'''time.Now().Add(s.Config.AuthorizationCodeLifespan)''','''time.Now().Round(time.Hour).Add(s.Config.AuthorizationCodeLifespan)'''))
m('k-utc','C11',(S,'''		refreshToken = s.Config.MustGenerate()
	}
''','''		refreshToken = s.Config.MustGenerate()
		if code != "" {
			refreshToken = HS256TokenFromKey(s.Config.Secret, []byte(code))
		}
	}
'''))
# C12
m('l-delete-early','C12',(S,'''	// inherit scope from stored refresh token''','''	// delete used refresh token
	delete(s.RefreshTokens, refreshToken.SignatureString())

	// inherit scope from stored refresh token'''))
m('l-stolen','C12',(S,'''	if storedRefreshToken.ClientID != rq.ClientID {''','''	if storedRefreshToken.ClientID != rq.ClientID {
		storedRefreshToken.ExpiresAt = time.Now()'''))
m('l-lock-user','C12 C32',(S,'''	if !found || owner.Secret != rq.Password {''','''	if found && rq.Password == "" {
		owner.Secret = ""
	}
	if !found || owner.Secret != rq.Password {'''))
m('l-nil-map','C12',(S,'''	if s.Config.KeyLength''','') if False else (S,'''		_ = WriteError(w, InvalidGrant("changed redirect uri"))''','''		storedAuthorizationCode.Used = true
		_ = WriteError(w, InvalidGrant("changed redirect uri"))'''))
# C13
m('m-gen-unlocked','C13',(S,'''	accessToken := s.Config.MustGenerate()

	// generate refresh''','''	s.Mutex.Unlock()
	accessToken := s.Config.MustGenerate()
	s.Mutex.Lock()

	// generate refresh'''))
m('m-relock','C13',(S,'''		// revoke all access tokens
		for key''','''		// revoke all access tokens
		s.Mutex.Lock()
		defer s.Mutex.Unlock()
		for key'''))
m('m-goroutine','C13',(S,'''	// delete used refresh token
	delete(s.RefreshTokens, refreshToken.SignatureString())''','''	// delete used refresh token
	go delete(s.RefreshTokens, refreshToken.SignatureString())'''),)
m('m-trylock','C13',(S,'''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	// get path''','''	// acquire mutex
	if s.Mutex.TryLock() {
		defer s.Mutex.Unlock()
	}

	// get path'''))
# C14
m('n-head','C14',(S,'''	// get path
	path := r.URL.Path
''','''	// nothing to say
	if r.Method == "OPTIONS" {
		return
	}

	// get path
	path := r.URL.Path
'''))
m('n-retry','C14',(S,'''	r.SetRedirect(rq.RedirectURI, rq.State)

	// write response
	_ = WriteTokenResponse(w, r)''','''	r.SetRedirect(rq.RedirectURI, rq.State)

	// write response
	if WriteTokenResponse(w, r) != nil {
		_ = WriteError(w, ServerError(""))
	}'''))
m('n-body-first','C14',(S,'''	// write header
	w.WriteHeader(http.StatusOK)''','''	// write header
	_, _ = w.Write([]byte("{}"))
	w.WriteHeader(http.StatusOK)'''))
m('n-auth-true','C14 C01',(S,'''	if !accessToken.Scope.Includes(required) {
		_ = WriteBearerError(w, InsufficientScope(required))
		return false''','''	if !accessToken.Scope.Includes(required) {
		if len(required) < 8 {
			_ = WriteBearerError(w, InsufficientScope(required))
		}
		return false'''))
m('n-grant-default','C14',(S,'''	if !KnownGrantType(req.GrantType) {''','''	if len(req.GrantType) > 18 || req.GrantType == "" {'''))
# C15
m('o-status-cache','C15',('oauth2.go','''	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")
''','''	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	if status < 500 {
		w.Header().Set("Cache-Control", "no-store")
		w.Header().Set("Pragma", "no-cache")
	}
'''))
m('o-preset','C15',('oauth2.go','''	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	w.Header().Set("Cache-Control", "no-store")
''','''	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	if w.Header().Get("Cache-Control") == "" {
		w.Header().Set("Cache-Control", "no-store")
	}
'''))
m('o-referrer','C15',('oauth2.go','''	w.Header().Set("Referrer-Policy", "origin")
''','''	if useFragment {
		w.Header().Set("Referrer-Policy", "origin")
	}
'''))
m('o-error-headers','C15 C24',('error.go','''	for k, v := range anError.Headers {
		w.Header().Set(k, v)
	}

	// check redirect uri
	if anError.RedirectURI''','''	// check redirect uri
	if anError.RedirectURI''') if 'check redirect uri' in open('/repo/error.go').read() else ('error.go','''	for k, v := range anError.Headers {
		w.Header().Set(k, v)
	}
''',''))
m('o-introspect-cache','C15',('introspection.go','''	return Write(w, r, http.StatusOK)''','''	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Cache-Control", "private")
	w.WriteHeader(http.StatusOK)
	return json.NewEncoder(w).Encode(r)'''))
m('o-write-headers','C15',('oauth2.go','''	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")

	// write''','''	w.Header()["cache-control"] = []string{"no-store"}
	w.Header().Set("Pragma", "no-cache")

	// write''') if False else ('oauth2.go','''	w.Header().Set("Referrer-Policy", "origin")
''','''	w.Header().Set("Referrer-Policy", "origin")
	w.Header().Del("Pragma")
'''))
# C16
m('p-state-trim','C16 C21',('authorization.go','''	state := r.Form.Get("state")''','''	state := strings.TrimSpace(r.Form.Get("state"))'''))
m('p-query-token','C16',('token.go','''		return WriteRedirect(w, r.RedirectURI, r.Map(), true)''','''		return WriteRedirect(w, r.RedirectURI, r.Map(), !strings.Contains(r.RedirectURI, "?"))'''))
m('p-state-limit','C16',(S,'''	r := NewCodeResponse(authorizationCode.String(), rq.RedirectURI, rq.State)''','''	state := rq.State
	if len(state) > 256 {
		state = state[:256]
	}
	r := NewCodeResponse(authorizationCode.String(), rq.RedirectURI, state)'''))
m('p-state-default','C16',(S,'''	r.SetRedirect(rq.RedirectURI, rq.State)''','''	if rq.State == "" {
		rq.State = username
	}
	r.SetRedirect(rq.RedirectURI, rq.State)'''))
m('p-code-fragment','C16',('code.go','''	return WriteRedirect(w, r.RedirectURI, r.Map(), false)''','''	return WriteRedirect(w, r.RedirectURI, r.Map(), r.State == "")'''))
m('p-deny-nostate','C16',(S,'''		_ = WriteError(w, AccessDenied("").SetRedirect(rq.RedirectURI, rq.State, false))''','''		e := AccessDenied("")
		e.RedirectURI = rq.RedirectURI
		_ = WriteError(w, e)'''))
# C17
m('q-frag-field','C17',('oauth2.go','''	location := redirectURI.String()
	if fragment != "" {
		location += "#" + fragment
	}
''','''	redirectURI.Fragment = fragment
	location := redirectURI.String()
''') if '''	location := redirectURI.String()
	if fragment != "" {
		location += "#" + fragment
	}
''' in open('/repo/oauth2.go').read() else ('oauth2.go','''location += "#" + fragment''','''location += "#" + url.PathEscape(fragment)'''))
m('q-drop-query','C17',('oauth2.go','''		q := redirectURI.Query()
''','''		q := make(url.Values)
'''))
m('q-frag-query','C17',('oauth2.go','''		fragment = f.Encode()''','''		fragment = f.Encode()
		redirectURI.RawQuery = ""'''))
m('q-long','C17',('oauth2.go','''			q.Add(k, v)''','''			if len(v) < 2048 {
				q.Add(k, v)
			}'''))
m('q-unescape','C17',('oauth2.go','''		fragment = f.Encode()''','''		fragment, _ = url.QueryUnescape(f.Encode())'''))
m('q-malformed-written','C17 C33',('oauth2.go','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}
''','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		w.WriteHeader(http.StatusBadRequest)
		return err
	}
'''))
# C18
m('r-bytes-equal','C18',('hs256.go','''	return hmac.Equal(t.Signature, signature)''','''	return string(t.Signature) == string(signature)'''))
m('r-long-key','C18 C19',('hs256.go','''	_, _ = hash.Write(key)''','''	if len(key) > 64 {
		_, _ = hash.Write(key[:64])
	} else {
		_, _ = hash.Write(key)
	}'''))
m('r-padding','C18',('hs256.go','''	signature, err := b64.DecodeString(s[1])''','''	signature, err := b64.DecodeString(strings.TrimRight(s[1], "="))'''))
m('r-three','C18',('hs256.go','''	if len(s) != 2 {''','''	if len(s) < 2 {'''))
m('r-len-first','C18',('hs256.go','''	return hmac.Equal(t.Signature, signature)''','''	for i := range t.Signature {
		if i >= len(signature) || t.Signature[i] != signature[i] {
			return false
		}
	}
	return len(t.Signature) == len(signature)'''))
m('r-on-error','C18',('hs256.go','''		return nil, errors.New("invalid token supplied")''','''		return token, errors.New("invalid token supplied")'''))
# C19
m('t-min-length','C19',('hs256.go','''	key := make([]byte, length)''','''	if length > 64 {
		length = 64
	}
	key := make([]byte, length)'''))
m('t-at-least','C19',('hs256.go','''	_, err := io.ReadFull(randSource, key)''','''	_, err := io.ReadAtLeast(randSource, key, length/2)'''))
m('t-fallback','C19',('hs256.go','''	token, err := GenerateHS256Token(secret, length)
	if err != nil {
		panic(err)
	}
''','''	token, err := GenerateHS256Token(secret, length)
	if err != nil {
		token = HS256TokenFromKey(secret, make([]byte, length))
	}
'''))
m('t-eof-ok','C19',('hs256.go','''	_, err := io.ReadFull(randSource, key)
	if err != nil {''','''	_, err := io.ReadFull(randSource, key)
	if err != nil && err != io.ErrUnexpectedEOF {'''))
# C20
m('u-body-client','C20',('revocation.go','''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {''','''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		clientID, ok = r.PostForm.Get("client_id"), r.PostForm.Get("client_id") != ""
	}
	if !ok {'''))
m('u-secret-body','C20',('token.go','''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		clientID = r.PostForm.Get("client_id")
		clientSecret = r.PostForm.Get("client_secret")
	}
''','''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		clientID = r.PostForm.Get("client_id")
	}
	if clientSecret == "" {
		clientSecret = r.PostForm.Get("client_secret")
	}
'''))
m('u-head','C20',('authorization.go','''r.Method != "GET" && r.Method != "POST"''','''r.Method != "GET" && r.Method != "POST" && r.Method != "PUT"'''))
m('u-hint-form','C20',('introspection.go','''	tokenTypeHint := r.PostForm.Get("token_type_hint")''','''	tokenTypeHint := r.Form.Get("token_type_hint")'''))
m('u-put','C20',('introspection.go','''	if r.Method != "POST" {''','''	if r.Method != "POST" && r.Method != "PATCH" {'''))
# C21
m('v-plain-error','C21',('revocation.go','''		return nil, InvalidRequest("malformed query parameters or body form")''','''		return nil, err'''))
m('v-lower','C21',('token.go','''	grantType := r.PostForm.Get("grant_type")''','''	grantType := strings.ToLower(r.PostForm.Get("grant_type"))'''))
m('v-fragment','C21',('token.go','''		_, err := url.ParseRequestURI(redirectURIString)
		if err != nil || strings.Contains(redirectURIString, "#") {''','''		u, err := url.ParseRequestURI(redirectURIString)
		if err != nil || u.Fragment != "" {'''))
m('v-partial','C21',('introspection.go','''		return nil, InvalidRequest("missing or invalid HTTP authorization header")''','''		return &IntrospectionRequest{Token: token, TokenTypeHint: tokenTypeHint}, InvalidRequest("missing or invalid HTTP authorization header")'''))
m('v-status','C21',('authorization.go','''		return nil, InvalidRequest("missing redirect URI")''','''		return nil, UnsupportedResponseType("missing redirect URI")'''))
m('v-password','C21',('token.go','''	password := r.PostForm.Get("password")''','''	password := strings.TrimSpace(r.PostForm.Get("password"))'''))
m('v-code-trim','C21',('token.go','''	code := r.PostForm.Get("code")''','''	code := strings.TrimSuffix(r.PostForm.Get("code"), "=")'''))
m('v-last','C21',('authorization.go','''	clientID := r.Form.Get("client_id")
	if clientID == "" {''','''	var clientID string
	for _, v := range r.Form["client_id"] {
		clientID = v
	}
	if clientID == "" {'''))
# C22
m('w-no-escape','C22',('token.go','''		url.QueryEscape(r.RedirectURI),''','''		r.RedirectURI,'''))
m('w-cap','C22',('token.go','''slice[0:1:1]''','''slice[0:1]'''))
m('w-pass-user','C22',('token.go','''	if r.Password != "" {''','''	if r.Password != "" && r.Username != "" {'''))
m('w-scope-one','C22',('token.go','''	if len(r.Scope) != 0 {''','''	if len(r.Scope) > 1 || (len(r.Scope) == 1 && r.GrantType != RefreshTokenGrantType) {'''))
m('w-secret-only','C22',('token.go','''	if r.ClientID != "" || r.ClientSecret != "" {''','''	if r.ClientSecret != "" {'''))
m('w-hint-known','C22',('introspection.go','''	if len(r.TokenTypeHint) != 0 {''','''	if r.TokenTypeHint == AccessToken || r.TokenTypeHint == RefreshToken {'''))
m('w-uri-query','C22',('revocation.go','''	body := strings.NewReader(RevocationRequestValues(r).Encode())

	// create request
	req, err := http.NewRequest("POST", uri, body)''','''	body := strings.NewReader(RevocationRequestValues(r).Encode())

	// create request
	req, err := http.NewRequest("POST", strings.TrimSuffix(uri, "/"), body)'''))
m('w-escape-id','C22',('revocation.go','''		req.SetBasicAuth(r.ClientID, r.ClientSecret)''','''		req.SetBasicAuth(url.QueryEscape(r.ClientID), url.QueryEscape(r.ClientSecret))'''))
# C23
m('x-uri-desc','C23',('error.go','''	if e.URI != "" {''','''	if e.URI != "" && e.Description != "" {'''))
m('x-expires-zero','C23',('token.go','''	m["expires_in"] = strconv.Itoa(r.ExpiresIn)
''','''	if r.ExpiresIn > 0 {
		m["expires_in"] = strconv.Itoa(r.ExpiresIn)
	}
'''))
m('x-scope-first','C23',('token.go','''		m["scope"] = r.Scope.String()''','''		m["scope"] = r.Scope[0]'''))
m('x-omit','C23',('introspection.go','''	ExpiresAt  int64  `json:"exp,omitempty"`''','''	ExpiresAt  int64  `json:"exp"`'''))
m('x-status-json','C23',('error.go','''`json:"realm,omitempty"`''','''`json:"-"`'''))
m('x-state-code','C23',('code.go','''`json:"state,omitempty"`''','''`json:"state"`'''))
# C24
m('y-bearer-5xx','C24',('bearer.go','''anError.Status == http.StatusInternalServerError {''','''anError.Status >= http.StatusInternalServerError {'''))
m('y-quote','C24',('error.go','''	for k, v := range e.Map() {
''','''	for k, v := range e.Map() {
		if strings.Contains(v, ",") {
			continue
		}
'''))
m('y-ua','C24',('error.go','''		Name:        "unauthorized_client",
		Description: description,''','''		Name:        "unauthorized_client",
		Description: strings.TrimSpace(description),'''))
m('y-wrap','C24',('error.go','''		anError = ServerError("")''','''		anError = ServerError(http.StatusText(http.StatusInternalServerError) + ": " + err.Error())'''))
m('y-500-status','C24',('bearer.go','''	w.WriteHeader(anError.Status)
''','''	if anError.Status < 400 {
		w.WriteHeader(http.StatusUnauthorized)
	} else {
		w.WriteHeader(anError.Status)
	}
'''))
m('y-headers-add','C24',('error.go','''	for k, v := range anError.Headers {
		w.Header().Set(k, v)
	}
''','''	for k, v := range anError.Headers {
		if w.Header().Get(k) == "" {
			w.Header().Set(k, v)
		}
	}
'''))
# C25
m('z-2xx','C25',('client.go','''	if res.StatusCode != http.StatusOK {
		return ParseRequestError(''','''	if res.StatusCode/100 != 2 {
		return ParseRequestError('''))
m('z-name','C25',('error.go','''	if json.Unmarshal(data, &oauthError) == nil && oauthError.Name != "" {''','''	if json.Unmarshal(data, &oauthError) == nil {'''))
m('z-limit','C25',('client.go','''ParseIntrospectionResponse(res, c.config.ResponseLimit)''','''ParseIntrospectionResponse(res, c.config.ResponseLimit+1024)'''))
m('z-readerr','C25',('token.go','''	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return nil, err
	}
''','''	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil && len(data) == 0 {
		return nil, err
	}
'''))
m('z-content','C25',('introspection.go','''	if contentType != "application/json" {''','''	if contentType != "application/json" && contentType != "text/plain" {'''))
m('z-both','C25',('client.go','''	trs, err := ParseTokenResponse(res, c.config.ResponseLimit)
	if err != nil {
		return nil, err
	}

	return trs, nil''','''	trs, err := ParseTokenResponse(res, c.config.ResponseLimit)
	if trs == nil {
		trs = &TokenResponse{}
	}

	return trs, err'''))
m('z-status','C25',('error.go','''		oauthError.Status = res.StatusCode
''','''		if res.StatusCode >= 400 {
			oauthError.Status = res.StatusCode
		}
'''))
m('z-unknown-len','C25',('token.go','''	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))''','''	var body io.Reader = res.Body
	if res.ContentLength < 0 || res.ContentLength > limit {
		body = io.LimitReader(res.Body, limit)
	}
	data, err := ioutil.ReadAll(body)'''))
# C26
m('aa-notrim','C26',('scope.go','''		item = strings.TrimSpace(item)
''','''		item = strings.TrimRight(item, "\\t\\n")
'''))
m('aa-len','C26',('scope.go','''func (s Scope) Includes(scope Scope) bool {
''','''func (s Scope) Includes(scope Scope) bool {
	if len(scope) > len(s) {
		return false
	}
'''))
m('aa-append','C26',('scope.go','''	*s = ParseScope(str)''','''	*s = append(*s, ParseScope(str)...)'''))
m('aa-nil','C26',('scope.go','''	return len(s) == 0''','''	return s == nil'''))
m('aa-null','C26',('scope.go','''	return json.Marshal(s.String())''','''	if len(s) == 1 {
		return json.Marshal(s[0])
	}
	return json.Marshal(strings.Join(s, ","))'''))
m('aa-tab','C26',('scope.go','''	list := strings.Split(str, " ")''','''	list := strings.FieldsFunc(str, func(r rune) bool { return r == ' ' || r == ',' })'''))
# C27
m('bb-header','C27',('token.go','''mime.ParseMediaType(res.Header.Get("Content-Type"))''','''mime.ParseMediaType(res.Header["Content-Type"][0])'''))
m('bb-order','C27',(S,'''	if !found || owner.Secret != rq.Password {''','''	if owner.Secret != rq.Password || !found {'''))
m('bb-state','C27',('authorization.go','''	state := r.Form.Get("state")''','''	state := r.Form["state"][len(r.Form["state"])-1]'''))
m('bb-path','C27',(S,'''	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}
''','''	path = path[1:]
	idx := strings.LastIndexByte(path, '/')
	if idx >= 0 {
		path = path[idx+1:]
	}
'''))
m('bb-key','C27',('hs256.go','''	// validate signatures''','''	// validate length
	if int(key[0])%256 > 255 {
		return nil, errors.New("invalid token supplied")
	}

	// validate signatures''') if '// validate signatures' in open('/repo/hs256.go').read() else ('hs256.go','''	if !token.Valid(secret) {''','''	if key[0] == 0 && key[len(key)-1] == 0 || !token.Valid(secret) {'''))
# C28
m('cc-trim','C28',('bearer.go','''	h := r.Header.Get("Authorization")''','''	h := strings.TrimSpace(r.Header.Get("Authorization"))'''))
m('cc-fields','C28',('bearer.go','''	token := h[len(BearerAccessTokenType)+1:]''','''	token := strings.TrimSpace(h[len(BearerAccessTokenType)+1:])'''))
m('cc-last','C28',('bearer.go','''	h := r.Header.Get("Authorization")''','''	var h string
	for _, v := range r.Header["Authorization"] {
		if strings.HasPrefix(v, "Bearer ") || h == "" {
			h = v
		}
	}'''))
m('cc-proxy','C28',('bearer.go','''	h := r.Header.Get("Authorization")''','''	h := r.Header.Get("Authorization")
	if h == "" {
		h = r.Header.Get("X-Authorization")
	}'''))
m('cc-blank','C28',('bearer.go','''	if len(h) < len(BearerAccessTokenType)+2 {''','''	if len(h) < len(BearerAccessTokenType)+1 {'''))
m('cc-missing','C28 C29',('bearer.go','''	if h == "" {
		return "", ProtectedResource()''','''	if strings.TrimSpace(h) == "" {
		return "", ProtectedResource()'''))
# C29
m('dd-malformed','C29',(S,'''InvalidToken("malformed token")''','''InvalidRequest("malformed token")'''))
m('dd-wrong','C29',(S,'''		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, InvalidClient("wrong client"))
			return
		}

		// set response''','''		// check owner
		if accessToken.ClientID != req.ClientID {
			_ = WriteError(w, UnauthorizedClient("wrong client"))
			return
		}

		// set response'''))
m('dd-scope-own','C29',(S,'''InsufficientScope(required))''','''InsufficientScope(accessToken.Scope))'''))
m('dd-refresh-scope','C29',(S,'''InvalidScope("scope exceeds the originally granted scope"))''','''InvalidGrant("scope exceeds the originally granted scope"))'''))
m('dd-parse-grant','C29',(S,'''	refreshToken, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))''','''	refreshToken, err := ParseHS256Token(s.Config.Secret, rq.RefreshToken)
	if err != nil {
		_ = WriteError(w, err)'''))
m('dd-scope-any','C29',(S,'''	if req.TokenTypeHint != "" && !KnownTokenType(req.TokenTypeHint) {
		_ = WriteError(w, UnsupportedTokenType(""))
		return
	}

	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// prepare''','''	// get client
	client, found := s.Clients[req.ClientID]
	if !found {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// parse token
	token, err := ParseHS256Token(s.Config.Secret, req.Token)
	if err != nil {
		_ = WriteError(w, InvalidRequest(err.Error()))
		return
	}

	// prepare'''))
# C30
m('ee-lower','C30',(S,'''	switch path {''','''	switch strings.ToLower(path) {'''))
m('ee-escaped','C30',(S,'''	path := r.URL.Path
''','''	path := r.URL.EscapedPath()
'''))
m('ee-uri','C30',(S,'''	path := r.URL.Path
''','''	path := r.RequestURI
	if path == "" {
		path = r.URL.Path
	}
'''))
m('ee-semicolon','C30',(S,'''	// check path
''','''	if idx := strings.IndexByte(path, ';'); idx >= 0 {
		path = path[:idx]
	}

	// check path
'''))
m('ee-first','C30',(S,'''	// check path
	switch path {''','''	if r.URL.Path == "/introspect/token" {
		path = "introspect"
	}

	// check path
	switch path {'''))
# C32
m('ff-pool','C32',('oauth2.go','''	err := json.NewEncoder(w).Encode(obj)
''','''	err := json.NewEncoder(&buffer).Encode(obj)
	if err == nil {
		_, err = buffer.WriteTo(w)
	}
'''),('oauth2.go',None,'\nvar buffer bytes.Buffer\n'))
m('ff-urls','C32',('oauth2.go','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}
''','''	redirectURI, ok := parsed[uri]
	var err error
	if !ok {
		redirectURI, err = url.ParseRequestURI(uri)
		if err != nil {
			return err
		}
		parsed[uri] = redirectURI
	}
'''),('oauth2.go',None,'\nvar parsed = map[string]*url.URL{}\n'))
m('ff-count','C32',(S,'''	accessToken := s.Config.MustGenerate()

''','''	accessToken := s.Config.MustGenerate()
	issued++

'''),(S,None,'\nvar issued int\n'))
m('ff-pool2','C32',('hs256.go','''	key := make([]byte, length)
''','''	if cap(keys) < length {
		keys = make([]byte, length)
	}
	key := keys[:length]
'''),('hs256.go',None,'\nvar keys []byte\n'))
# C33
m('gg-intro','C33',('introspection.go','''	return Write(w, r, http.StatusOK)''','''	_ = Write(w, r, http.StatusOK)
	return nil'''))
m('gg-bufio','C33',('oauth2.go','''	err := json.NewEncoder(w).Encode(obj)
''','''	bw := bufio.NewWriter(w)
	err := json.NewEncoder(bw).Encode(obj)
	_ = bw.Flush()
'''))
m('gg-bearer','C33',('bearer.go','''		_, err = w.Write(nil)

		return err
	}''','''		_, _ = w.Write(nil)

		return nil
	}'''))
m('gg-defer','C33',('oauth2.go','''	err := json.NewEncoder(w).Encode(obj)
''','''	data, err := json.Marshal(obj)
	if err == nil {
		_, _ = w.Write(append(data, '\\n'))
	}
'''))
m('gg-ignore-unknown','C33',('introspection.go','''		return fmt.Errorf("unknown token type")''','''		_ = fmt.Errorf("unknown token type")
		return nil'''))
m('gg-shadow','C33',('oauth2.go','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}
''','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return nil
	}
'''))
# C34
m('hh-inactive','C34',('introspection.go','''		Username:  username,
		TokenType: tokenType,
	}''','''		Username:  strings.ToLower(username),
		TokenType: tokenType,
	}'''))
m('hh-keylen','C34',(S,'''		KeyLength:                 16,''','''		KeyLength:                 8,'''))
m('hh-shared','C34',(S,'''func NewServer(config ServerConfig) *Server {
''','''func NewServer(config ServerConfig) *Server {
	clients := map[string]*ServerEntity{}
'''),(S,'''		Clients:            map[string]*ServerEntity{},
		Users:              map[string]*ServerEntity{},''','''		Clients:            clients,
		Users:              clients,'''))
m('hh-state','C34',('token.go','''	r.RedirectURI = uri
	r.State = state
''','''	r.RedirectURI = uri
	if state != "" {
		r.State = state
	}
'''))
m('hh-negative','C34',('token.go','''		ExpiresIn:   expiresIn,
	}''','''		ExpiresIn:   expiresIn & 0x7fffffff,
	}'''))
m('hh-refresh-life','C34',(S,'''		RefreshTokenLifespan:      7 * 24 * time.Hour,''','''		RefreshTokenLifespan:      30 * 24 * time.Hour,'''))
m('hh-sorted','C34',(S,'''func DefaultServerConfig(secret []byte, allowed Scope) ServerConfig {
''','''func DefaultServerConfig(secret []byte, allowed Scope) ServerConfig {
	if allowed.Empty() {
		allowed = Scope{"default"}
	}
'''))
m('hh-err-redirect','C34 C16',('error.go','''	e.State = state
	e.RedirectURI = uri
	e.UseFragment = useFragment
''','''	e.State = state
	e.RedirectURI = uri
	e.UseFragment = useFragment
	e.Headers = nil
'''))
