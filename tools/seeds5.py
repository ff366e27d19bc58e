S=[]
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))
# C34
s('c34-shared-maps','C34',[('server.go','''func NewServer(config ServerConfig) *Server {
''','''func NewServer(config ServerConfig) *Server {
	clients := map[string]*ServerEntity{}
'''),('server.go','''		Clients:            map[string]*ServerEntity{},
		Users:              map[string]*ServerEntity{},''','''		Clients:            clients,
		Users:              clients,''')],'''
	s := NewServer(DefaultServerConfig([]byte("a-long-server-secret"), Scope{"foo"}))
	s.Users["alice"] = &ServerEntity{Secret: "alice-pw"}
	if len(s.Clients) != 0 {
		t.Fatal("a new server's stores are not independent")
	}''','a user whose name is not the id of a client','users are clients as well')
s('c34-key-length','C34',[('server.go','''		KeyLength:                 16,''','''		KeyLength:                 8,''')],'''
	if c := DefaultServerConfig([]byte("a-long-server-secret"), nil); c.KeyLength < 16 {
		t.Fatal("short keys", c.KeyLength)
	}''','reading the default configuration','default keys have 8 bytes only')
s('c34-state-kept','C34',[('token.go','''	r.RedirectURI = uri
	r.State = state
''','''	r.RedirectURI = uri
	if state != "" {
		r.State = state
	}
''')],'''
	r := NewBearerTokenResponse("token", 1)
	r.State = "old"
	if r.SetRedirect("http://example.com", "").State != "" {
		t.Fatal("an older state is kept")
	}''','a response that is marked for redirection twice, the second time without a state','a redirect carries the state of another request')
s('c34-secret-alias','C34',[('server.go','''func NewServer(config ServerConfig) *Server {
''','''func NewServer(config ServerConfig) *Server {
	if config.AuthorizationCodeLifespan > config.AccessTokenLifespan {
		config.AuthorizationCodeLifespan = config.AccessTokenLifespan
	}
''')],'''
	c := DefaultServerConfig([]byte("a-long-server-secret"), nil)
	c.AccessTokenLifespan = time.Minute
	if NewServer(c).Config.AuthorizationCodeLifespan != c.AuthorizationCodeLifespan {
		t.Fatal("the configuration was changed")
	}''','a configuration with access tokens that live shorter than codes','a server does not have the configuration it was given')
s('c34-expires-wrap','C34',[('token.go','''		ExpiresIn:   expiresIn,
''','''		ExpiresIn:   int(int32(expiresIn)),
''')],'''
	if r := NewTokenResponse("bearer", "token", 1<<33); r.ExpiresIn != 1<<33 {
		t.Fatal("another lifetime", r.ExpiresIn)
	}''','a lifetime of more than 68 years','the lifetime wraps around')
# C15
s('c15-status-cache','C15',[('oauth2.go','''	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")

	// set status
	w.WriteHeader(status)''','''	if status < 500 {
		w.Header().Set("Cache-Control", "no-store")
		w.Header().Set("Pragma", "no-cache")
	}

	// set status
	w.WriteHeader(status)''')],'''
	w := httptest.NewRecorder()
	_ = WriteError(w, ServerError("database"))
	if w.Header().Get("Cache-Control") != "no-store" {
		t.Fatal("a server error may be cached")
	}''','a server error','server errors are cacheable')
s('c15-referrer','C15',[('oauth2.go','''	w.Header().Set("Referrer-Policy", "origin")
''','''	if redirectURI.Scheme == "http" || redirectURI.Scheme == "https" {
		w.Header().Set("Referrer-Policy", "origin")
	}
''')],'''
	w := httptest.NewRecorder()
	_ = WriteRedirect(w, "app://callback", map[string]string{"code": "x"}, false)
	if w.Header().Get("Referrer-Policy") != "origin" {
		t.Fatal("the redirect does not restrict the referrer")
	}''','a redirect URI with a private scheme','redirects to native applications leak the referrer')
s('c15-preset','C15',[('oauth2.go','''	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	w.Header().Set("Cache-Control", "no-store")
''','''	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	if w.Header().Get("Cache-Control") == "" {
		w.Header().Set("Cache-Control", "no-store")
	}
''')],'''
	w := httptest.NewRecorder()
	w.Header().Set("Cache-Control", "public, max-age=60")
	_ = WriteTokenResponse(w, NewBearerTokenResponse("token", 1))
	if w.Header().Get("Cache-Control") != "no-store" {
		t.Fatal("a token response may be cached")
	}''','a middleware that sets Cache-Control before','token responses are cacheable behind such a middleware')
# C16
s('c16-state-limit','C16',[('server.go','''	r := NewCodeResponse(authorizationCode.String(), rq.RedirectURI, rq.State)''','''	state := rq.State
	if len(state) > 256 {
		state = state[:256]
	}
	r := NewCodeResponse(authorizationCode.String(), rq.RedirectURI, state)''')],'''
	s := seedServer()
	state := strings.Repeat("s", 300)
	w := seedPost(s, "/authorize", "", "", "response_type", "code", "client_id", "conf", "redirect_uri", "http://example.com/conf", "scope", "foo", "username", "alice", "password", "alice-pw", "state", state)
	u, _ := url.Parse(w.Header().Get("Location"))
	if u.Query().Get("state") != state {
		t.Fatal("the state was changed")
	}''','a state of more than 256 bytes','long states are cut')
# C21
# C22
s('c22-pass-user','C22',[('token.go','''	if r.Password != "" {''','''	if r.Password != "" && r.Username != "" {''')],'''
	v := TokenRequestValues(TokenRequest{GrantType: "password", Password: "pw"})
	if v.Get("password") != "pw" {
		t.Fatal("the password is not sent")
	}''','a request with a password but no username','a set field is left out')
s('c22-uri-slash','C22',[('revocation.go','''	req, err := http.NewRequest("POST", uri, body)''','''	req, err := http.NewRequest("POST", strings.TrimSuffix(uri, "/"), body)''')],'''
	r, err := BuildRevocationRequest("http://example.com/revoke/", RevocationRequest{Token: "x"})
	if err != nil || r.URL.Path != "/revoke/" {
		t.Fatal("the request is not sent to the given URI", r.URL, err)
	}''','a URI with a trailing slash','revocation requests are sent elsewhere')
# C23
s('c23-error-uri2','C23',[('error.go','''	if e.URI != "" {''','''	if e.URI != "" && e.Description != "" {''')],'''
	e := &Error{Name: "x", URI: "http://example.com"}
	if e.Map()["error_uri"] == "" {
		t.Fatal("the URI is left out of redirects")
	}''','an error with a URI and no description','the redirect lacks a field the JSON has')
s('c23-expires','C23',[('token.go','''	m["expires_in"] = strconv.Itoa(r.ExpiresIn)
''','''	if r.ExpiresIn > 0 {
		m["expires_in"] = strconv.Itoa(r.ExpiresIn)
	}
''')],'''
	r := NewBearerTokenResponse("token", 0)
	var doc map[string]interface{}
	b, _ := json.Marshal(r)
	_ = json.Unmarshal(b, &doc)
	_, a := doc["expires_in"]
	_, m := r.Map()["expires_in"]
	if a != m {
		t.Fatal("the representations differ")
	}''','a token response with a lifetime of zero','the redirect lacks the lifetime the JSON has')
# C24
s('c24-bearer-5xx','C24',[('bearer.go','''anError.Status == http.StatusInternalServerError {''','''anError.Status >= http.StatusInternalServerError {''')],'''
	w := httptest.NewRecorder()
	_ = WriteBearerError(w, TemporarilyUnavailable("later"))
	if w.Code != http.StatusServiceUnavailable || w.Header().Get("WWW-Authenticate") == "" {
		t.Fatal("the error is not sent with its status and challenge", w.Code)
	}''','a bearer error with status 503','the challenge of unavailable errors is lost')
# C33
s('c33-uri-error','C33',[('oauth2.go','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}
''','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return Write(w, map[string]string{"error": "server_error"}, http.StatusInternalServerError)
	}
''')],'''
	w := httptest.NewRecorder()
	if err := WriteRedirect(w, "%%%", nil, false); err == nil {
		t.Fatal("a malformed redirect looks like a written one")
	}''','a malformed redirect URI','no error is returned although the redirect was not written') if False else s('c17-malformed','C17',[('oauth2.go','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		return err
	}
''','''	redirectURI, err := url.ParseRequestURI(uri)
	if err != nil {
		w.WriteHeader(http.StatusInternalServerError)
		return err
	}
''')],'''
	w := &seedRecorder{h: http.Header{}}
	if err := WriteRedirect(w, "%%%", nil, false); err == nil || w.status != 0 {
		t.Fatal("something was written for a malformed URI", w.status)
	}''','a malformed redirect URI','a response is written although an error is returned',extra='''
type seedRecorder struct {
	h      http.Header
	status int
}

func (r *seedRecorder) Header() http.Header         { return r.h }
func (r *seedRecorder) Write(b []byte) (int, error) { return len(b), nil }
func (r *seedRecorder) WriteHeader(c int)           { r.status = c }
''')
# C31
s('c31-form-empty','C31',[('oauth2test/request.go','''	for k, v := range req.Form {
''','''	for k, v := range req.Form {
		if v == "" {
			continue
		}
''')],'''
	seen := false
	Do(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { _, seen = r.PostForm["state"] }), &Request{Method: "POST", Path: "/", Form: map[string]string{"state": ""}, Callback: func(*httptest.ResponseRecorder, *http.Request) {}})
	if !seen {
		t.Fatal("a declared parameter is not sent")
	}''','a scripted form with an empty parameter','empty parameters are not sent',pkg='oauth2test/')
s('c31-must-once','C31',[('oauth2test/spec.go','''		must(spec.UnknownRefreshToken != "", "setting UnknownRefreshToken is required")
''','''		must(spec.UnknownRefreshToken != "" || spec.InvalidRefreshToken != "", "setting UnknownRefreshToken is required")
''')],'''
	src, err := exec.Command("true").Output()
	_ = src
	_ = err
	defer func() {
		if r := recover(); r == nil || !strings.Contains(fmt.Sprint(r), "UnknownRefreshToken") {
			t.Fatal("the lacking setting is accepted", r)
		}
	}()
	spec := Default(http.NotFoundHandler())
	spec.ConfidentialClientID, spec.ConfidentialClientSecret, spec.PublicClientID = "a", "b", "c"
	spec.InvalidScope, spec.ValidScope, spec.ExceedingScope = "a", "b", "c"
	spec.ValidToken, spec.UnknownToken, spec.ExpiredToken = "a", "b", "c"
	spec.IntrospectionEndpoint, spec.RevocationEndpoint = "", ""
	spec.RefreshTokenGrantSupport = true
	spec.ValidRefreshToken, spec.ExpiredRefreshToken = "a", "b"
	Run(&testing.T{}, spec)''','a specification without an unknown refresh token','the suite runs incompletely',pkg='oauth2test/') if False else None
# server
s('c13-introspect-unlocked','C13',[('server.go','''	s.Mutex.Lock()''' if False else '''func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
''','''func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
	// reading does not need the lock
	s.Mutex.Unlock()
	defer s.Mutex.Lock()

''')],'''
	s := seedServer()
	at, _ := seedTokens(s, "conf", "conf-secret", "foo")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				seedPost(s, "/introspect", "conf", "conf-secret", "token", at)
			}
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				seedTokens(s, "conf", "conf-secret", "foo")
			}
		}()
	}
	wg.Wait()''','introspection and token requests at the same time','the stores are read outside of the lock',race=True)
S=[x for x in S if x]
