C=[]
def m(name,exp,*edits): C.append((name,'mut',list(edits),exp.split()))
S='server.go'; E='error.go'; O='oauth2.go'; H='hs256.go'; B='bearer.go'; I='introspection.go'
# C35 secrets
m('sec-echo-secret','C35',(S,'''	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("unknown client"))
		return
	}

	// handle grant''','''	// authenticate client
	if client.Confidential && client.Secret != req.ClientSecret {
		_ = WriteError(w, InvalidClient("invalid secret: "+req.ClientSecret))
		return
	}

	// handle grant'''))
m('sec-log-password','C35',(S,'''	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {
		_ = WriteError(w, AccessDenied(""))''','''	owner, found := s.Users[rq.Username]
	if !found || owner.Secret != rq.Password {
		log.Printf("login of %s failed: %q", rq.Username, rq.Password)
		_ = WriteError(w, AccessDenied(""))'''))
m('sec-log-request','C35',(S,'''	// make sure the grant type is known
''','''	log.Printf("token request: %+v", req)

	// make sure the grant type is known
'''))
m('sec-err-key','C35',(H,'''return nil, errors.New("invalid token supplied")''','''return nil, errors.New("invalid token supplied for key " + token.KeyString())'''))
m('sec-bearer-desc','C35',(S,'''InvalidToken("unknown token")''','''InvalidToken("unknown token " + tk)'''))
m('sec-realm-config','C35',(S,'''		_ = WriteError(w, InvalidRequest("unknown grant type"))''','''		e := InvalidRequest("unknown grant type")
		e.Realm = fmt.Sprint(s.Config)
		_ = WriteError(w, e)'''))
m('sec-store-password','C35',(S,'''		Username:    username,
		ExpiresAt:   time.Now().Add(s.Config.AuthorizationCodeLifespan),''','''		Username:    username,
		Code:        password,
		ExpiresAt:   time.Now().Add(s.Config.AuthorizationCodeLifespan),'''),(S,'''	s.AuthorizationCodes[authorizationCode.SignatureString()] = &Server''','''	if u := s.Users[username]; u != nil {
		password = u.Secret
	}
	s.AuthorizationCodes[authorizationCode.SignatureString()] = &Server'''))
m('sec-state-header','C35',(S,'''	// read username and password
''','''	w.Header().Set("X-Request", r.PostForm.Encode())

	// read username and password
'''))
m('sec-list-keys','C35',(S,'''InvalidGrant("unknown refresh token")''','''InvalidGrant("unknown refresh token" + s.near(rq.RefreshToken))'''),(S,None,'''
func (s *Server) near(str string) string {
	for k := range s.RefreshTokens {
		if len(str) > 4 && strings.HasPrefix(k, str[:4]) {
			return ", did you mean " + k
		}
	}
	return ""
}
'''))
m('sec-dbg-auth','C35',(B,'''	// check type
''','''	// check type
	if !strings.HasPrefix(h, "B") && !strings.HasPrefix(h, "b") {
		return "", InvalidRequest("unsupported scheme: " + h)
	}

'''))
# C36 arguments
m('arg-dedup','C36',('scope.go','''// Includes returns''','''// Unique removes duplicates.
func (s Scope) Unique() Scope {
	out := s[:0]
	for _, i := range s {
		if !Scope(out).Contains(i) {
			out = append(out, i)
		}
	}
	return out
}

// Includes returns'''))
m('arg-params','C36',(O,'''		for k, v := range params {
			f.Add(k, v)
		}
''','''		for k, v := range params {
			if v == "" {
				delete(params, k)
				continue
			}
			f.Add(k, v)
		}
'''))
m('arg-err-status','C36',(E,'''	// add headers
''','''	if anError.Status == 0 {
		anError.Status = http.StatusBadRequest
	}

	// add headers
'''))
m('arg-err-realm','C36',(B,'''	// get params
	params := anError.Params()
''','''	// get params
	if anError.Name == "" && anError.Realm == "" {
		anError.Realm = "OAuth2"
	}
	params := anError.Params()
'''))
m('arg-required-append','C36',(E,'''		Scope:  necessaryScope,''','''		Scope:  append(necessaryScope, necessaryScope[:0]...),'''))
m('arg-token-state','C36',('token.go','''func WriteTokenResponse(w http.ResponseWriter, r *TokenResponse) error {
''','''func WriteTokenResponse(w http.ResponseWriter, r *TokenResponse) error {
	if r.RedirectURI == "" {
		r.State = ""
	}

'''))
m('arg-introspect','C36',(I,'''	return Write(w, r, http.StatusOK)
}

// IntrospectionRequestValues''','''	if !r.Active {
		*r = IntrospectionResponse{}
	}

	return Write(w, r, http.StatusOK)
}

// IntrospectionRequestValues'''))
m('arg-secret-wipe','C36',(H,'''	// get signature
	signature := hash.Sum(nil)
''','''	// get signature
	signature := hash.Sum(secret[:0])
'''))
m('arg-key-wipe','C36',(H,'''	// get signature
	signature := hash.Sum(nil)

	// construct token
	token := &HS256Token{
		Key:       key,
		Signature: signature,
	}
''','''	// get signature
	signature := hash.Sum(nil)

	// construct token
	token := &HS256Token{
		Key:       append([]byte(nil), key...),
		Signature: signature,
	}
	for i := range key {
		key[i] = 0
	}
'''))
m('end-double-lock','C37 C13',(S,'''	default:
		http.NotFound(w, r)''','''	case "check":
		s.Authorize(w, r, nil)
	default:
		http.NotFound(w, r)'''))
m('end-forget','C37 C13',(S,'''	// acquire mutex
	s.Mutex.Lock()
	defer s.Mutex.Unlock()

	// parse bearer token
	tk, err := ParseBearerToken(r)
	if err != nil {
		_ = WriteBearerError(w, err)
		return false
	}
''','''	// parse bearer token
	tk, err := ParseBearerToken(r)
	if err != nil {
		_ = WriteBearerError(w, err)
		return false
	}

	// acquire mutex
	s.Mutex.Lock()
	if s.AccessTokens == nil {
		_ = WriteBearerError(w, ServerError(""))
		return false
	}
	defer s.Mutex.Unlock()
'''))
m('end-parse-scan','C37',('scope.go','''	// split string
	list := strings.Split(str, " ")

	// prepare result
	var res []string

	// process items
	for _, item := range list {
		// trim whitespace
		item = strings.TrimSpace(item)

		if item != "" {
			res = append(res, item)
		}
	}

	return res''','''	// prepare result
	var res []string

	// process items
	for str != "" {
		idx := strings.IndexByte(str, ' ')
		if idx < 0 {
			idx = len(str)
		}
		item := strings.TrimSpace(str[:idx])
		if item != "" {
			res = append(res, item)
			str = strings.TrimLeft(str[idx:], " ")
		} else {
			str = str[idx:]
		}
	}

	return res'''))
m('end-generate','C37',(H,'''	_, err := io.ReadFull(randSource, key)
	if err != nil {
		return nil, err
	}
''','''	_, err := io.ReadFull(randSource, key)
	for err == io.ErrUnexpectedEOF {
		continue
	}
	if err != nil {
		return nil, err
	}
'''))
m('end-contains','C37',('scope.go','''	for _, i := range s {
		if i == str {
			return true
		}
	}

	return false
}

// Includes''','''	for i := 0; i < len(s); {
		if s[i] == str {
			return true
		}
		if s[i] == "" {
			continue
		}
		i++
	}

	return false
}

// Includes'''))
m('end-marshal-recursion','C37',('scope.go','''	return json.Marshal(s.String())''','''	if s.Empty() {
		return json.Marshal(s)
	}

	return json.Marshal(s.String())'''))
m('end-unmarshal-recursion','C37',('scope.go','''	var str string
	err := json.Unmarshal(buf, &str)
	if err != nil {
		return err
	}
''','''	var str string
	err := json.Unmarshal(buf, &str)
	if err != nil {
		return json.Unmarshal(buf, s)
	}
'''))
m('kn-prefix','C38',(O,'''	switch str {
	case TokenResponseType, CodeResponseType:
		return true
	}

	return false''','''	return strings.HasPrefix(str, TokenResponseType) || str == CodeResponseType'''))
m('kn-fold','C38',(O,'''	switch str {
	case AccessToken,
		RefreshToken:
		return true
	}

	return false''','''	return strings.EqualFold(str, AccessToken) || strings.EqualFold(str, RefreshToken)'''))
m('kn-trim','C38',(O,'''	switch str {
	case PasswordGrantType,''','''	switch strings.TrimSpace(str) {
	case PasswordGrantType,'''))
m('kn-empty','C38',(O,'''	switch str {
	case AccessToken,''','''	switch str {
	case "", AccessToken,'''))
m('kn-more','C38',(O,'''		RefreshTokenGrantType:
		return true''','''		RefreshTokenGrantType, "urn:ietf:params:oauth:grant-type:jwt-bearer":
		return true'''))
m('kn-contains','C38',(O,'''	switch str {
	case TokenResponseType, CodeResponseType:
		return true
	}

	return false''','''	return str != "" && strings.Contains(TokenResponseType+" "+CodeResponseType, str)'''))
m('kn-map','C38',(O,'''	switch str {
	case TokenResponseType, CodeResponseType:
		return true
	}

	return false''','''	_, ok := responseTypes[str]

	return ok'''),(O,None,'''
var responseTypes = map[string]bool{TokenResponseType: true, CodeResponseType: true, "id_token": false}
'''))
m('kn-intro-empty','C38',(I,'''	if r.Active && !Known''','''	if r.Active && r.TokenType != "" && !Known'''))
m('kn-intro-inactive','C38',(I,'''	if r.Active && !Known''','''	if r.TokenType != "" && !Known'''))
m('kn-intro-bearer','C38',(I,'''!KnownTokenType(r.TokenType) {''','''!KnownTokenType(r.TokenType) && r.TokenType != BearerAccessTokenType {'''))
# C39 texts
m('tx-q','C39',(E,'''`%s="%s"`, k, v''','''`%s=%q`, k, v'''))
m('tx-nodescr','C39',(E,'''	return fmt.Sprintf("%s: %s", e.Name, e.Description)''','''	if e.State != "" {
		return e.Name
	}

	return fmt.Sprintf("%s: %s", e.Name, e.Description)'''))
m('tx-error-state','C39',(E,'''	return e.String()''','''	if e.URI != "" {
		return e.String() + " (" + e.URI + ")"
	}

	return e.String()'''))
m('tx-redirect-concat','C39 C17',(O,'''	if fragment != "" {
		location += "#" + fragment
	}
''','''	if fragment != "" && len(params) > 0 {
		location += "#"
		for k, v := range params {
			location += url.QueryEscape(k) + "=" + url.QueryEscape(v) + "&"
		}
		location = strings.TrimSuffix(location, "&")
	}
'''))
m('tx-sort-some','C39',(E,'''	// sort params
	sort.Strings(params)
''','''	// sort params
	sort.Strings(params[:len(params)-1])
'''))
m('tx-sort-cond','C39',(E,'''	// sort params
	sort.Strings(params)
''','''	// sort params
	if len(params) < 4 {
		sort.Strings(params)
	}
'''))
m('tx-sort-len','C39',(E,'''	sort.Strings(params)
''','''	sort.Slice(params, func(i, j int) bool { return len(params[i]) < len(params[j]) })
'''))
m('tx-token-date','C39',('token.go','''	return Write(w, r, http.StatusOK)''','''	if r.ExpiresIn == 0 {
		w.Header().Set("Expires", time.Now().Format(http.TimeFormat))
	}

	return Write(w, r, http.StatusOK)'''))
m('tx-params-dup','C39',(E,'''	// sort params
	sort.''','''	// add error again for old clients
	if e.URI != "" && e.Name != "" {
		params = append(params, fmt.Sprintf(`%s="%s"`, "error", e.Name))
	}

	// sort params
	sort.'''))
m('tx-params-skip','C39',(E,'''	for k, v := range e.Map() {
		params''','''	for k, v := range e.Map() {
		if k == "state" {
			continue
		}
		params'''))
C=[c for c in C if c]
