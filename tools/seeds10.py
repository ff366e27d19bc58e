# Planted bugs, tenth round: what the client sends, and how.
S=[]
SV,T,A,I,R,C,B,E,O,H,SC='server.go','token.go','authorization.go','introspection.go','revocation.go','client.go','bearer.go','error.go','oauth2.go','hs256.go','scope.go'
def s(id,prop,edits,demo,needs,breaks,**k): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))
RT='''
type seedRT func(*http.Request) (*http.Response, error)

func (f seedRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func seedSent(cfg ClientConfig, last **http.Request) *Client {
	return NewClientWithClient(cfg, &http.Client{Transport: seedRT(func(r *http.Request) (*http.Response, error) {
		*last = r
		return &http.Response{StatusCode: 200, Status: "200 OK", Body: ioutil.NopCloser(strings.NewReader("{}")), Header: http.Header{"Content-Type": {"application/json"}}}, nil
	})})
}
'''
s('c34-client-replaced','C34',[(C,'''	return &Client{
		config: config,
		client: client,''','''	// use a dedicated client if there are no special settings
	if client.Transport == nil && client.Jar == nil {
		client = new(http.Client)
	}

	return &Client{
		config: config,
		client: client,''')],'''
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { time.Sleep(2 * time.Second) }))
	defer srv.Close()
	c := NewClientWithClient(Default(srv.URL), &http.Client{Timeout: 100 * time.Millisecond})
	if err := c.Revoke(RevocationRequest{Token: "x"}); err == nil {
		t.Fatal("the timeout of the given client is ignored")
	}
''','An HTTP client with the default transport and a timeout.','The settings of the given HTTP client are ignored.')
s('c34-redirects','C34',[(C,'''	return NewClientWithClient(config, new(http.Client))''','''	return NewClientWithClient(config, &http.Client{
		CheckRedirect: func(*http.Request, []*http.Request) error {
			return http.ErrUseLastResponse
		},
	})''')],'''
	mux := http.NewServeMux()
	srv := httptest.NewServer(mux)
	defer srv.Close()
	mux.HandleFunc("/oauth2/revoke", func(w http.ResponseWriter, r *http.Request) { http.Redirect(w, r, "/moved", http.StatusTemporaryRedirect) })
	mux.HandleFunc("/moved", func(w http.ResponseWriter, r *http.Request) {})
	if err := NewClient(Default(srv.URL)).Revoke(RevocationRequest{Token: "x"}); err != nil {
		t.Fatal(err)
	}
''','A server whose endpoint has moved.','The client of NewClient is not a plain one.')
s('c22-public-auth','C22',[(C,'''	// perform request
	res, err := c.client.Do(req)
	if err != nil {
		return nil, err
	}

	// ensure body is closed
	defer res.Body.Close()

	// check status
	if res.StatusCode != http.StatusOK {
		return nil, ParseRequestError(res, c.config.ResponseLimit)
	}

	// parse response
	trs, err''','''	// public clients do not authenticate
	if trq.ClientSecret == "" {
		req.Header.Del("Authorization")
	}

	// perform request
	res, err := c.client.Do(req)
	if err != nil {
		return nil, err
	}

	// ensure body is closed
	defer res.Body.Close()

	// check status
	if res.StatusCode != http.StatusOK {
		return nil, ParseRequestError(res, c.config.ResponseLimit)
	}

	// parse response
	trs, err''')],'''
	var last *http.Request
	_, err := seedSent(Default("http://example.com"), &last).Authenticate(TokenRequest{GrantType: "authorization_code", Code: "c", ClientID: "public"})
	if err != nil || last == nil {
		t.Fatal(err)
	}
	if id, _, _ := last.BasicAuth(); id != "public" {
		t.Fatal("the client id is not transmitted")
	}
''','A token request of a public client.','The client id of a public client is not transmitted.',extra=RT)
s('c22-double-slash','C22',[(C,'''	endpoint := c.config.BaseURI + c.config.RevocationEndpoint''','''	endpoint := strings.TrimSuffix(c.config.BaseURI, "/") + c.config.RevocationEndpoint'''),(C,'''import (
	"net/http"
''','''import (
	"net/http"
	"strings"
''')],'''
	var last *http.Request
	cfg := Default("http://example.com/")
	cfg.RevocationEndpoint = "revoke"
	_ = seedSent(cfg, &last).Revoke(RevocationRequest{Token: "x"})
	if last == nil || last.URL.String() != "http://example.com/revoke" {
		t.Fatal("the request is not sent to the configured endpoint")
	}
''','A base URI that ends with a slash and a relative endpoint.','The request is sent to another host.',extra=RT)
