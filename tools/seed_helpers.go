// seedServer returns a server with a confidential and a public client and two users.
func seedServer() *Server {
	s := NewServer(DefaultServerConfig([]byte("a-long-server-secret"), Scope{"foo", "bar", "baz"}))
	s.Clients["conf"] = &ServerEntity{Secret: "conf-secret", RedirectURI: "http://example.com/conf", Confidential: true}
	s.Clients["conf2"] = &ServerEntity{Secret: "conf2-secret", RedirectURI: "http://example.com/conf2", Confidential: true}
	s.Clients["pub"] = &ServerEntity{RedirectURI: "http://example.com/pub"}
	s.Users["alice"] = &ServerEntity{Secret: "alice-pw"}
	s.Users["bob"] = &ServerEntity{Secret: "bob-pw"}
	return s
}

// seedPost sends a form; without a client id no basic authentication is sent.
func seedPost(h http.Handler, path, id, secret string, kv ...string) *httptest.ResponseRecorder {
	form := url.Values{}
	for i := 0; i < len(kv); i += 2 {
		form.Add(kv[i], kv[i+1])
	}
	r := httptest.NewRequest("POST", path, strings.NewReader(form.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	if id != "" {
		r.SetBasicAuth(id, secret)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	return w
}

// seedJSON decodes a reply.
func seedJSON(w *httptest.ResponseRecorder) map[string]interface{} {
	m := map[string]interface{}{}
	_ = json.Unmarshal(w.Body.Bytes(), &m)
	return m
}

// seedStr returns a string member of a JSON reply.
func seedStr(w *httptest.ResponseRecorder, key string) string {
	v, _ := seedJSON(w)[key].(string)
	return v
}

// seedTokens requests tokens with the password grant.
func seedTokens(h http.Handler, id, secret, scope string) (string, string) {
	w := seedPost(h, "/token", id, secret, "grant_type", "password", "username", "alice", "password", "alice-pw", "scope", scope)
	return seedStr(w, "access_token"), seedStr(w, "refresh_token")
}

// seedCode requests an authorization code.
func seedCode(h http.Handler, id, scope string) string {
	w := seedPost(h, "/authorize", "", "", "response_type", "code", "client_id", id, "redirect_uri", "http://example.com/"+id, "scope", scope, "username", "alice", "password", "alice-pw")
	u, err := url.Parse(w.Header().Get("Location"))
	if err != nil {
		return ""
	}
	return u.Query().Get("code")
}

// seedAuth presents a token at a protected resource.
func seedAuth(s *Server, token string, scope ...string) (bool, *httptest.ResponseRecorder) {
	r := httptest.NewRequest("GET", "/api", nil)
	if token != "" {
		r.Header.Set("Authorization", "Bearer "+token)
	}
	w := httptest.NewRecorder()
	return s.Authorize(w, r, Scope(scope)), w
}
