# Behaviour-preserving edits of the library files: every check must stay quiet.
B,H,SC,O,CL,E,A,CO,T,I,R='bearer.go','hs256.go','scope.go','oauth2.go','client.go','error.go','authorization.go','code.go','token.go','introspection.go','revocation.go'
def body(f,start,end='\n}\n'):
    t=open('/repo/'+f).read(); i=t.index(start); return t[i:t.index(end,i)+len(end)]
def fn(f,start,new): return (f,body(f,start),new)
PB='func ParseBearerToken('
C=[]
def ref(name,*edits): C.append((name,'ref',list(edits),None))
# ---- bearer
ref('bearer-hasprefix',fn(B,PB,'''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	const prefix = BearerAccessTokenType + " "
	if len(h) <= len(prefix) || !strings.HasPrefix(strings.ToLower(h[:len(prefix)]), prefix) {
		return "", InvalidRequest("malformed authorization header")
	}
	return h[len(prefix):], nil
}
'''))
ref('bearer-equalfold',fn(B,PB,'''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	n := len(BearerAccessTokenType)
	if len(h) < n+2 || !strings.EqualFold(h[:n], BearerAccessTokenType) || h[n] != ' ' {
		return "", InvalidRequest("malformed authorization header")
	}
	return h[n+1:], nil
}
'''))
ref('bearer-equalfold-space',fn(B,PB,'''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	n := len("bearer ")
	if len(h) > n && strings.EqualFold(h[:n], "Bearer ") {
		return h[n:], nil
	}
	return "", InvalidRequest("malformed authorization header")
}
'''))
ref('bearer-splitn',fn(B,PB,'''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	parts := strings.SplitN(h, " ", 2)
	if len(parts) != 2 || !strings.EqualFold(parts[0], BearerAccessTokenType) || parts[1] == "" {
		return "", InvalidRequest("malformed authorization header")
	}
	return parts[1], nil
}
'''))
ref('bearer-index',fn(B,PB,'''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	i := strings.Index(h, " ")
	if i < 0 || !strings.EqualFold(h[:i], BearerAccessTokenType) {
		return "", InvalidRequest("malformed authorization header")
	}
	if i == len(h)-1 {
		return "", InvalidRequest("malformed authorization header")
	}
	return h[i+1:], nil
}
'''))
ref('bearer-cut',fn(B,PB,'''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	kind, token, found := strings.Cut(h, " ")
	if !found || token == "" || !strings.EqualFold(kind, BearerAccessTokenType) {
		return "", InvalidRequest("malformed authorization header")
	}
	return token, nil
}
'''))
ref('bearer-vars',fn(B,PB,'''func ParseBearerToken(r *http.Request) (token string, err error) {
	header := r.Header.Get("Authorization")
	if len(header) == 0 {
		err = ProtectedResource()
		return
	}
	malformed := InvalidRequest("malformed authorization header")
	size := len(BearerAccessTokenType)
	if len(header) < size+2 {
		return "", malformed
	}
	scheme, space, rest := header[:size], header[size:size+1], header[size+1:]
	if !strings.EqualFold(scheme, BearerAccessTokenType) || space != " " {
		return "", malformed
	}
	return rest, nil
}
'''))
ref('bearer-helper',fn(B,PB,'''func ParseBearerToken(r *http.Request) (string, error) {
	h := r.Header.Get("Authorization")
	if h == "" {
		return "", ProtectedResource()
	}
	if token, ok := bearerToken(h); ok {
		return token, nil
	}
	return "", InvalidRequest("malformed authorization header")
}

func bearerToken(h string) (string, bool) {
	if len(h) < len(BearerAccessTokenType)+2 {
		return "", false
	}
	if !strings.EqualFold(h[:len(BearerAccessTokenType)], BearerAccessTokenType) {
		return "", false
	}
	if h[len(BearerAccessTokenType)] != ' ' {
		return "", false
	}
	return h[len(BearerAccessTokenType)+1:], true
}
'''))
WB='func WriteBearerError('
ref('wbe-as',(B,'	anError, ok := err.(*Error)\n	if !ok ||','	var anError *Error\n	ok := errors.As(err, &anError)\n	if !ok ||')) if False else None
ref('wbe-invert',fn(B,WB,'''func WriteBearerError(w http.ResponseWriter, err error) error {
	status := http.StatusInternalServerError
	if anError, ok := err.(*Error); ok && anError.Status != http.StatusInternalServerError {
		params := anError.Params()
		if params == "" {
			params = `realm="OAuth2"`
		}
		w.Header().Set("WWW-Authenticate", "Bearer "+params)
		status = anError.Status
	}
	w.WriteHeader(status)
	_, err = w.Write(nil)
	return err
}
'''))
ref('wbe-switch',fn(B,WB,'''func WriteBearerError(w http.ResponseWriter, err error) error {
	switch e := err.(type) {
	case *Error:
		if e.Status == http.StatusInternalServerError {
			return finish(w, e.Status)
		}
		challenge := e.Params()
		if len(challenge) == 0 {
			challenge = `realm="OAuth2"`
		}
		w.Header().Set("WWW-Authenticate", fmt.Sprintf("Bearer %s", challenge))
		return finish(w, e.Status)
	default:
		return finish(w, http.StatusInternalServerError)
	}
}

func finish(w http.ResponseWriter, status int) error {
	w.WriteHeader(status)
	_, err := w.Write(nil)
	return err
}
'''))
ref('wbe-header-index',(B,'	w.Header().Set("WWW-Authenticate", response)','	w.Header()["Www-Authenticate"] = []string{response}'))
ref('wbe-realm-helper',(B,'''	params := anError.Params()

	// force at least one parameter
	if params == "" {
		params = `realm="OAuth2"`
	}

	// prepare response
	response := "Bearer " + params
''','	response := challenge(anError)\n'),(B,None,'''
func challenge(e *Error) string {
	if params := e.Params(); params != "" {
		return "Bearer " + params
	}
	return `Bearer realm="OAuth2"`
}
'''))
# ---- hs256
PH='func ParseHS256Token('
ref('hs-splitn',(H,'s := strings.Split(str, ".")\n	if len(s) != 2 {','s := strings.SplitN(str, ".", 3)\n	if len(s) != 2 {'))
ref('hs-cut',fn(H,PH,'''func ParseHS256Token(secret []byte, str string) (*HS256Token, error) {
	first, second, found := strings.Cut(str, ".")
	if !found || strings.Contains(second, ".") {
		return nil, errors.New("a token must have two segments separated by a dot")
	}
	key, err := b64.DecodeString(first)
	if err != nil {
		return nil, errors.New("token key is not base64 encoded")
	}
	signature, err := b64.DecodeString(second)
	if err != nil {
		return nil, errors.New("token signature is not base64 encoded")
	}
	token := &HS256Token{Key: key, Signature: signature}
	if !token.Valid(secret) {
		return nil, errors.New("invalid token supplied")
	}
	return token, nil
}
'''))
ref('hs-index',fn(H,PH,'''func ParseHS256Token(secret []byte, str string) (*HS256Token, error) {
	i := strings.IndexByte(str, '.')
	if i < 0 || strings.LastIndexByte(str, '.') != i {
		return nil, errors.New("a token must have two segments separated by a dot")
	}
	key, err := b64.DecodeString(str[:i])
	if err != nil {
		return nil, errors.New("token key is not base64 encoded")
	}
	signature, err := b64.DecodeString(str[i+1:])
	if err != nil {
		return nil, errors.New("token signature is not base64 encoded")
	}
	token := &HS256Token{Key: key, Signature: signature}
	if !token.Valid(secret) {
		return nil, errors.New("invalid token supplied")
	}
	return token, nil
}
'''))
ref('hs-count',(H,'''	s := strings.Split(str, ".")
	if len(s) != 2 {
		return''','''	if strings.Count(str, ".") != 1 {
		return'''),(H,'	// decode key\n','	s := strings.Split(str, ".")\n\n	// decode key\n'))
ref('hs-rebuild',(H,'''	if !token.Valid(secret) {
		return nil, errors.New("invalid token supplied")
	}

	return token, nil''','''	expected := HS256TokenFromKey(secret, key)
	if !expected.Equal(signature) {
		return nil, errors.New("invalid token supplied")
	}

	return expected, nil'''),(H,'''	// construct token
	token := &HS256Token{
		Key:       key,
		Signature: signature,
	}

	// validate signatures
''','	// validate signatures\n'))
ref('hs-positive',(H,'''	if !token.Valid(secret) {
		return nil, errors.New("invalid token supplied")
	}

	return token, nil''','''	if token.Valid(secret) {
		return token, nil
	}

	return nil, errors.New("invalid token supplied")'''))
ref('hs-sign-helper',fn(H,'func HS256TokenFromKey(','''func HS256TokenFromKey(secret []byte, key []byte) *HS256Token {
	return &HS256Token{Key: key, Signature: sign(secret, key)}
}

func sign(secret, key []byte) []byte {
	mac := hmac.New(sha256.New, secret)
	mac.Write(key)
	return mac.Sum(nil)
}
'''),fn(H,'func (t *HS256Token) Valid(','''func (t *HS256Token) Valid(secret []byte) bool {
	return t.Equal(sign(secret, t.Key))
}
'''))
ref('hs-sum-buf',(H,'	signature := hash.Sum(nil)','	signature := hash.Sum(make([]byte, 0, sha256.Size))'))
ref('hs-subtle',fn(H,'func (t *HS256Token) Equal(','''func (t *HS256Token) Equal(signature []byte) bool {
	return subtle.ConstantTimeCompare(t.Signature, signature) == 1
}
'''),(H,'	"crypto/sha256"\n','	"crypto/sha256"\n	"crypto/subtle"\n'))
ref('hs-decode-helper',fn(H,PH,'''func ParseHS256Token(secret []byte, str string) (*HS256Token, error) {
	s := strings.Split(str, ".")
	if len(s) != 2 {
		return nil, errors.New("a token must have two segments separated by a dot")
	}
	key, err := decode(s[0], "token key is not base64 encoded")
	if err != nil {
		return nil, err
	}
	signature, err := decode(s[1], "token signature is not base64 encoded")
	if err != nil {
		return nil, err
	}
	if token := (&HS256Token{Key: key, Signature: signature}); token.Valid(secret) {
		return token, nil
	}
	return nil, errors.New("invalid token supplied")
}

func decode(s, msg string) ([]byte, error) {
	data, err := b64.DecodeString(s)
	if err != nil {
		return nil, errors.New(msg)
	}
	return data, nil
}
'''))
ref('hs-errvars',(H,'var b64 = ','var errFormat = errors.New("a token must have two segments separated by a dot")\n\nvar b64 = '),(H,'return nil, errors.New("a token must have two segments separated by a dot")','return nil, errFormat'))
ref('hs-parts',(H,'''	s := strings.Split(str, ".")
	if len(s) != 2 {''','''	parts := strings.Split(str, ".")
	if n := len(parts); n < 2 || n > 2 {'''),(H,'b64.DecodeString(s[0])','b64.DecodeString(parts[0])'),(H,'b64.DecodeString(s[1])','b64.DecodeString(parts[1])'))
ref('hs-string',fn(H,'func (t *HS256Token) String()','''func (t *HS256Token) String() string {
	return strings.Join([]string{t.KeyString(), t.SignatureString()}, ".")
}
'''))
ref('hs-string-fmt',fn(H,'func (t *HS256Token) String()','''func (t *HS256Token) String() string {
	return fmt.Sprintf("%s.%s", t.KeyString(), t.SignatureString())
}
'''))
ref('hs-gen-if',(H,'''	_, err := io.ReadFull(randSource, key)
	if err != nil {
		return nil, err
	}

	return HS256TokenFromKey(secret, key), nil''','''	if _, err := io.ReadFull(randSource, key); err != nil {
		return nil, err
	}
	token := HS256TokenFromKey(secret, key)
	return token, nil'''))
ref('hs-gen-helper',(H,'''	// prepare key
	key := make([]byte, length)

	// read random bytes
	_, err := io.ReadFull(randSource, key)
	if err != nil {
		return nil, err
	}
''','''	key, err := randomBytes(length)
	if err != nil {
		return nil, err
	}
'''),(H,None,'''
func randomBytes(n int) ([]byte, error) {
	buf := make([]byte, n)
	if _, err := io.ReadFull(randSource, buf); err != nil {
		return nil, err
	}
	return buf, nil
}
'''))
ref('hs-readatleast',(H,'io.ReadFull(randSource, key)','io.ReadAtLeast(randSource, key, length)'))
# ---- scope
ref('sc-index',fn(SC,'func (s Scope) Contains(','''func (s Scope) Contains(str string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == str {
			return true
		}
	}
	return false
}
'''))
ref('sc-rangeidx',fn(SC,'func (s Scope) Contains(','''func (s Scope) Contains(str string) bool {
	for i := range s {
		if str == s[i] {
			return true
		}
	}
	return false
}
'''))
ref('sc-found',fn(SC,'func (s Scope) Contains(','''func (s Scope) Contains(str string) bool {
	found := false
	for _, item := range s {
		if item == str {
			found = true
			break
		}
	}
	return found
}
'''))
ref('sc-found-nobreak',fn(SC,'func (s Scope) Contains(','''func (s Scope) Contains(str string) bool {
	found := false
	for _, item := range s {
		if item == str {
			found = true
		}
	}
	return found
}
'''))
ref('sc-continue',fn(SC,'func (s Scope) Contains(','''func (s Scope) Contains(str string) bool {
	for _, item := range s {
		if item != str {
			continue
		}
		return true
	}
	return false
}
'''))
ref('sc-inc-set',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	set := make(map[string]bool, len(s))
	for _, item := range s {
		set[item] = true
	}
	for _, item := range scope {
		if !set[item] {
			return false
		}
	}
	return true
}
'''))
ref('sc-inc-nested',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	for _, want := range scope {
		found := false
		for _, have := range s {
			if have == want {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}
'''))
ref('sc-inc-index',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	for n := range scope {
		if ok := s.Contains(scope[n]); !ok {
			return false
		}
	}
	return true
}
'''))
ref('sc-inc-flag',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	ok := true
	for _, item := range scope {
		if !s.Contains(item) {
			ok = false
		}
	}
	return ok
}
'''))
ref('sc-inc-and',fn(SC,'func (s Scope) Includes(','''func (s Scope) Includes(scope Scope) bool {
	ok := true
	for _, item := range scope {
		ok = ok && s.Contains(item)
	}
	return ok
}
'''))
ref('sc-parse-cont',fn(SC,'func ParseScope(','''func ParseScope(str string) Scope {
	var res Scope
	for _, item := range strings.Split(str, " ") {
		item = strings.TrimSpace(item)
		if item == "" {
			continue
		}
		res = append(res, item)
	}
	return res
}
'''))
ref('sc-parse-if',fn(SC,'func ParseScope(','''func ParseScope(str string) Scope {
	var res Scope
	list := strings.Split(str, " ")
	for i := range list {
		if item := strings.TrimSpace(list[i]); len(item) > 0 {
			res = append(res, item)
		}
	}
	return res
}
'''))
ref('sc-empty',(SC,'	return len(s) == 0','	return !(len(s) > 0)'))
ref('sc-unmarshal-if',(SC,'''	err := json.Unmarshal(buf, &str)
	if err != nil {
		return err
	}
''','''	if err := json.Unmarshal(buf, &str); err != nil {
		return err
	}
'''))
# ---- oauth2
ref('known-if',fn(O,'func KnownResponseType(','''func KnownResponseType(str string) bool {
	return str == TokenResponseType || str == CodeResponseType
}
'''))
ref('known-map',fn(O,'func KnownGrantType(','''func KnownGrantType(str string) bool {
	return knownGrantTypes[str]
}

var knownGrantTypes = map[string]bool{
	PasswordGrantType:          true,
	ClientCredentialsGrantType: true,
	AuthorizationCodeGrantType: true,
	RefreshTokenGrantType:      true,
}
'''))
ref('known-list',fn(O,'func KnownTokenType(','''func KnownTokenType(str string) bool {
	for _, t := range []string{AccessToken, RefreshToken} {
		if t == str {
			return true
		}
	}
	return false
}
'''))
ref('known-scope',fn(O,'func KnownTokenType(','''func KnownTokenType(str string) bool {
	return Scope{AccessToken, RefreshToken}.Contains(str)
}
'''))
WR='func WriteRedirect('
NC='''	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")
'''
ref('w-nocache',fn(O,'func Write(','''func Write(w http.ResponseWriter, obj interface{}, status int) error {
	w.Header().Set("Content-Type", "application/json;charset=UTF-8")
	preventCaching(w.Header())
	w.WriteHeader(status)
	return json.NewEncoder(w).Encode(obj)
}

func preventCaching(h http.Header) {
	h.Set("Cache-Control", "no-store")
	h.Set("Pragma", "no-cache")
}
'''),(O,'''	// prevent caching
	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")
''','	preventCaching(w.Header())\n'))
ref('w-loop',fn(O,'func Write(','''func Write(w http.ResponseWriter, obj interface{}, status int) error {
	header := w.Header()
	for name, value := range map[string]string{
		"Content-Type":  "application/json;charset=UTF-8",
		"Cache-Control": "no-store",
		"Pragma":        "no-cache",
	} {
		header.Set(name, value)
	}
	w.WriteHeader(status)
	return json.NewEncoder(w).Encode(obj)
}
'''))
ref('w-encvar',(O,'''	err := json.NewEncoder(w).Encode(obj)

	return err''','''	enc := json.NewEncoder(w)
	if err := enc.Encode(obj); err != nil {
		return err
	}
	return nil'''))
ref('wr-merge',(O,'''	var fragment string
	if useFragment {
		// prepare fragment
		f := make(url.Values)

		// add parameters
		for k, v := range params {
			f.Add(k, v)
		}

		// encode fragment
		fragment = f.Encode()
	} else {
		// get current query
		q := redirectURI.Query()

		// add parameters
		for k, v := range params {
			q.Add(k, v)
		}

		// reset query
		redirectURI.RawQuery = q.Encode()
	}

	// prepare location and append the already encoded fragment
	location := redirectURI.String()
	if fragment != "" {
		location += "#" + fragment
	}
''','''	values := url.Values{}
	if !useFragment {
		values = redirectURI.Query()
	}
	for k, v := range params {
		values.Add(k, v)
	}
	encoded := values.Encode()
	location := ""
	if useFragment {
		location = redirectURI.String()
		if encoded != "" {
			location += "#" + encoded
		}
	} else {
		redirectURI.RawQuery = encoded
		location = redirectURI.String()
	}
'''))
ref('wr-loc-helper',(O,'''	// add params to fragment if requested
	var fragment string
	if useFragment {
		// prepare fragment
		f := make(url.Values)

		// add parameters
		for k, v := range params {
			f.Add(k, v)
		}

		// encode fragment
		fragment = f.Encode()
	} else {
		// get current query
		q := redirectURI.Query()

		// add parameters
		for k, v := range params {
			q.Add(k, v)
		}

		// reset query
		redirectURI.RawQuery = q.Encode()
	}

	// prepare location and append the already encoded fragment
	location := redirectURI.String()
	if fragment != "" {
		location += "#" + fragment
	}

	// set location
	w.Header().Add("Location", location)
''','''	h := w.Header()
	h.Set("Location", redirectLocation(redirectURI, params, useFragment))
'''),(O,None,'''
func addAll(values url.Values, params map[string]string) url.Values {
	for name, value := range params {
		values.Add(name, value)
	}
	return values
}

func redirectLocation(uri *url.URL, params map[string]string, useFragment bool) string {
	if !useFragment {
		uri.RawQuery = addAll(uri.Query(), params).Encode()
		return uri.String()
	}
	if len(params) == 0 {
		return uri.String()
	}
	return uri.String() + "#" + addAll(make(url.Values), params).Encode()
}
'''))
ref('wr-hvar',(O,'''	// set location
	w.Header().Add("Location", location)

	// prevent caching
	w.Header().Set("Cache-Control", "no-store")
	w.Header().Set("Pragma", "no-cache")

	// prevent referrer leakage
	w.Header().Set("Referrer-Policy", "origin")
''','''	h := w.Header()
	h.Set("Referrer-Policy", "origin")
	h.Set("Pragma", "no-cache")
	h.Set("Cache-Control", "no-store")
	h.Add("Location", location)
'''))
ref('wr-set-frag',(O,'			f.Add(k, v)\n','			f.Set(k, v)\n'))
ref('wr-index-frag',(O,'			f.Add(k, v)\n','			f[k] = []string{v}\n'))
ref('wr-append-query',(O,'			q.Add(k, v)\n','			q[k] = append(q[k], v)\n'))
ref('wr-sprintf',(O,'		location += "#" + fragment','		location = fmt.Sprintf("%s#%s", location, fragment)'))
# ---- client
DO='''	// perform request
	res, err := c.client.Do(req)
	if err != nil {
		return %serr
	}

	// ensure body is closed
	defer res.Body.Close()

	// check status
	if res.StatusCode != http.StatusOK {
		return %sParseRequestError(res, c.config.ResponseLimit)
	}
'''
AU=body(CL,'func (c *Client) Authenticate('); IN=body(CL,'func (c *Client) Introspect('); RV=body(CL,'func (c *Client) Revoke(')
def sub(s,o,n):
    assert s.count(o)==1,(s,o); return s.replace(o,n)
ref('cl-do',(CL,AU,sub(AU,DO%('nil, ','nil, '),'''	res, err := c.do(req)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
''')),(CL,IN,sub(IN,DO%('nil, ','nil, '),'''	res, err := c.do(req)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
''')),(CL,RV,sub(RV,DO%('',''),'''	res, err := c.do(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()
''')),(CL,None,'''
func (c *Client) do(req *http.Request) (*http.Response, error) {
	res, err := c.client.Do(req)
	if err != nil {
		return nil, err
	}
	if res.StatusCode != http.StatusOK {
		defer res.Body.Close()
		return nil, ParseRequestError(res, c.config.ResponseLimit)
	}
	return res, nil
}
'''))
ref('cl-handle',(CL,AU,sub(sub(AU,DO%('nil, ','nil, '),''),'''	// parse response
	trs, err := ParseTokenResponse(res, c.config.ResponseLimit)
	if err != nil {
		return nil, err
	}

	return trs, nil''','''	var trs *TokenResponse
	err = c.do(req, func(res *http.Response) error {
		trs, err = ParseTokenResponse(res, c.config.ResponseLimit)
		return err
	})
	if err != nil {
		return nil, err
	}

	return trs, nil''')),(CL,None,'''
func (c *Client) do(req *http.Request, handle func(*http.Response) error) error {
	res, err := c.client.Do(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()
	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}
	return handle(res)
}
'''))
ref('cl-return',(CL,AU,sub(AU,'''	trs, err := ParseTokenResponse(res, c.config.ResponseLimit)
	if err != nil {
		return nil, err
	}

	return trs, nil''','	return ParseTokenResponse(res, c.config.ResponseLimit)')))
ref('cl-deferfn',(CL,AU,sub(AU,'	defer res.Body.Close()','	defer func() {\n		_ = res.Body.Close()\n	}()')))
ref('cl-limit',(CL,IN,sub(sub(IN,'	// perform request\n','	limit := c.config.ResponseLimit\n\n	// perform request\n'),'ParseIntrospectionResponse(res, c.config.ResponseLimit)','ParseIntrospectionResponse(res, limit)')))
ref('cl-endpoint',(CL,AU,sub(AU,'''	endpoint := c.config.BaseURI + c.config.TokenEndpoint

	// build request
	req, err := BuildTokenRequest(endpoint, trq)''','''	cfg := c.config

	// build request
	req, err := BuildTokenRequest(cfg.BaseURI+cfg.TokenEndpoint, trq)''')))
ref('cl-url',(CL,AU,sub(AU,'c.config.BaseURI + c.config.TokenEndpoint','c.url(c.config.TokenEndpoint)')),(CL,IN,sub(IN,'c.config.BaseURI + c.config.IntrospectionEndpoint','c.url(c.config.IntrospectionEndpoint)')),(CL,RV,sub(RV,'c.config.BaseURI + c.config.RevocationEndpoint','c.url(c.config.RevocationEndpoint)')),(CL,None,'\nfunc (c *Client) url(endpoint string) string {\n	return c.config.BaseURI + endpoint\n}\n'))
ref('cl-positive',(CL,RV,sub(RV,'''	if res.StatusCode != http.StatusOK {
		return ParseRequestError(res, c.config.ResponseLimit)
	}

	return nil''','''	if res.StatusCode == http.StatusOK {
		return nil
	}

	return ParseRequestError(res, c.config.ResponseLimit)''')))
ref('cl-const',(CL,'		config.ResponseLimit = 2048','		config.ResponseLimit = defaultLimit'),(CL,None,'\nconst defaultLimit = 2 << 10\n'))
ref('cl-new',(CL,'''	return &Client{
		config: config,
		client: client,
	}''','''	c := new(Client)
	c.config = config
	c.client = client
	return c'''))
ref('cl-newclient',(CL,'new(http.Client)','&http.Client{}'))
# ---- error
ref('er-new',*[fn(E,f'func {n}(description string)',f'''func {n}(description string) *Error {{
	return newError(http.{s}, "{c}", description)
}}
''') for n,s,c in [('InvalidRequest','StatusBadRequest','invalid_request'),('InvalidGrant','StatusBadRequest','invalid_grant'),('InvalidToken','StatusUnauthorized','invalid_token'),('ServerError','StatusInternalServerError','server_error'),('AccessDenied','StatusForbidden','access_denied')]],(E,None,'''
func newError(status int, name, description string) *Error {
	return &Error{Status: status, Name: name, Description: description}
}
'''))
ref('er-headers',fn(E,'func InvalidClient(','''func InvalidClient(description string) *Error {
	err := &Error{Status: http.StatusUnauthorized, Name: "invalid_client", Description: description}
	err.Headers = make(map[string]string, 1)
	err.Headers["WWW-Authenticate"] = `Basic realm="OAuth2"`
	return err
}
'''))
ref('er-params-build',fn(E,'func (e *Error) Params(','''func (e *Error) Params() string {
	m := e.Map()
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	params := make([]string, 0, len(m))
	for _, k := range keys {
		params = append(params, k+`="`+m[k]+`"`)
	}
	return strings.Join(params, ", ")
}
'''))
ref('er-params-q',(E,'fmt.Sprintf(`%s="%s"`, k, v)','k+`="`+v+`"`'))
ref('er-map-add',fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := make(map[string]string)
	add := func(name, value string) {
		if value != "" {
			m[name] = value
		}
	}
	add("error", e.Name)
	add("error_description", e.Description)
	add("state", e.State)
	add("error_uri", e.URI)
	add("realm", e.Realm)
	if !e.Scope.Empty() {
		m["scope"] = e.Scope.String()
	}
	return m
}
'''))
ref('er-map-table',fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := make(map[string]string)
	for _, p := range [][2]string{
		{"error", e.Name},
		{"error_description", e.Description},
		{"state", e.State},
		{"error_uri", e.URI},
		{"realm", e.Realm},
	} {
		if p[1] != "" {
			m[p[0]] = p[1]
		}
	}
	if len(e.Scope) > 0 {
		m["scope"] = e.Scope.String()
	}
	return m
}
'''))
ref('er-map-helper',fn(E,'func (e *Error) Map(','''func (e *Error) Map() map[string]string {
	m := map[string]string{}
	setIf(m, "error", e.Name)
	setIf(m, "error_description", e.Description)
	setIf(m, "state", e.State)
	if len(e.Scope) != 0 {
		m["scope"] = strings.Join(e.Scope, " ")
	}
	setIf(m, "error_uri", e.URI)
	setIf(m, "realm", e.Realm)
	return m
}

func setIf(m map[string]string, name, value string) {
	if len(value) > 0 {
		m[name] = value
	}
}
''')) 
ref('er-write',fn(E,'func WriteError(','''func WriteError(w http.ResponseWriter, err error) error {
	anError, ok := err.(*Error)
	if !ok {
		anError = ServerError("")
	}
	header := w.Header()
	for name := range anError.Headers {
		header.Set(name, anError.Headers[name])
	}
	if anError.RedirectURI == "" {
		return Write(w, anError, anError.Status)
	}
	return WriteRedirect(w, anError.RedirectURI, anError.Map(), anError.UseFragment)
}
'''))
ref('er-write-switch',fn(E,'func WriteError(','''func WriteError(w http.ResponseWriter, err error) error {
	anError := toError(err)
	for k, v := range anError.Headers {
		w.Header().Set(k, v)
	}
	switch {
	case anError.RedirectURI != "":
		return WriteRedirect(w, anError.RedirectURI, anError.Map(), anError.UseFragment)
	default:
		return Write(w, anError, anError.Status)
	}
}

func toError(err error) *Error {
	switch e := err.(type) {
	case *Error:
		return e
	}
	return ServerError("")
}
'''))
ref('er-string',(E,'	return fmt.Sprintf("%s: %s", e.Name, e.Description)','	return e.Name + ": " + e.Description'))
ref('er-parse',fn(E,'func ParseRequestError(','''func ParseRequestError(res *http.Response, limit int64) error {
	data, _ := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	oauthError := &Error{}
	if err := json.Unmarshal(data, oauthError); err != nil || oauthError.Name == "" {
		return fmt.Errorf("unexpected response: %s", res.Status)
	}
	oauthError.Status = res.StatusCode
	return oauthError
}
'''))
ref('er-parse-ioreadall',(E,'ioutil.ReadAll(','io.ReadAll('),(E,'	"io/ioutil"\n',''))
ref('er-parse-dec',(E,'	data, _ := ioutil.ReadAll(io.LimitReader(res.Body, limit))\n','	reader := io.LimitReader(res.Body, limit)\n	data, _ := ioutil.ReadAll(reader)\n'))
ref('er-setredirect',fn(E,'func (e *Error) SetRedirect(','''func (e *Error) SetRedirect(uri, state string, useFragment bool) *Error {
	e.State, e.RedirectURI, e.UseFragment = state, uri, useFragment
	return e
}
'''))
# ---- requests
CHK='''	// check method
	if r.Method != "POST" {
		return nil, InvalidRequest("invalid HTTP method")
	}

	// parse query params and body params to form
	err := r.ParseForm()
	if err != nil {
		return nil, InvalidRequest("malformed query parameters or body form")
	}
'''
HLP='''	if err := parsePost(r); err != nil {
		return nil, err
	}
'''
PP='''
func parsePost(r *http.Request) error {
	if r.Method != http.MethodPost {
		return InvalidRequest("invalid HTTP method")
	}
	if err := r.ParseForm(); err != nil {
		return InvalidRequest("malformed query parameters or body form")
	}
	return nil
}
'''
ref('rq-parsepost',(T,CHK,'	var err error\n'+HLP),(T,None,PP),(I,CHK,HLP),(R,CHK,HLP))
ref('rq-parsepost2',(I,CHK,'''	form, err := postForm(r)
	if err != nil {
		return nil, err
	}
'''),(I,'r.PostForm.Get("token")','form.Get("token")'),(I,'r.PostForm.Get("token_type_hint")','form.Get("token_type_hint")'),(I,None,'''
func postForm(r *http.Request) (url.Values, error) {
	if r.Method != "POST" {
		return nil, InvalidRequest("invalid HTTP method")
	}
	if err := r.ParseForm(); err != nil {
		return nil, InvalidRequest("malformed query parameters or body form")
	}
	return r.PostForm, nil
}
'''))
ref('rq-formvar',(R,'	// get token\n	token := r.PostForm.Get("token")','	form := r.PostForm\n\n	// get token\n	token := form.Get("token")'))
ref('rq-postformvalue',(R,'r.PostForm.Get("token_type_hint")','r.PostFormValue("token_type_hint")'))
ref('rq-build',*[(f,'''	// create request
	req, err := http.NewRequest("POST", uri, body)
	if err != nil {
		return nil, err
	}

	// set basic auth if available
	if r.ClientID != "" || r.ClientSecret != "" {
		req.SetBasicAuth(r.ClientID, r.ClientSecret)
	}

	// set content type
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")

	return req, nil
''','	return buildRequest(uri, body, r.ClientID, r.ClientSecret)\n') for f in (T,I,R)],(T,None,'''
func buildRequest(uri string, body io.Reader, clientID, clientSecret string) (*http.Request, error) {
	req, err := http.NewRequest("POST", uri, body)
	if err != nil {
		return nil, err
	}
	if clientID != "" || clientSecret != "" {
		req.SetBasicAuth(clientID, clientSecret)
	}
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	return req, nil
}
'''))
ref('rq-build-values',*[(f,body(f,'func Build%sRequest('%n),'''func Build%sRequest(uri string, r %sRequest) (*http.Request, error) {
	return postForm(uri, %sRequestValues(r), r.ClientID, r.ClientSecret)
}
'''%(n,n,n)) for f,n in ((T,'Token'),(I,'Introspection'),(R,'Revocation'))],(T,None,'''
func postForm(uri string, values url.Values, id, secret string) (*http.Request, error) {
	req, err := http.NewRequest(http.MethodPost, uri, strings.NewReader(values.Encode()))
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	if id != "" || secret != "" {
		req.SetBasicAuth(id, secret)
	}
	return req, nil
}
'''))
ref('rq-bodybytes',(R,'strings.NewReader(RevocationRequestValues(r).Encode())','bytes.NewBufferString(RevocationRequestValues(r).Encode())'))
ref('rq-header-map',(R,'	req.Header.Set("Content-Type", "application/x-www-form-urlencoded")','	req.Header.Add("Content-Type", "application/x-www-form-urlencoded")'))
ref('rq-values-set',fn(R,'func RevocationRequestValues(','''func RevocationRequestValues(r RevocationRequest) url.Values {
	values := url.Values{}
	if r.Token != "" {
		values.Set("token", r.Token)
	}
	if r.TokenTypeHint != "" {
		values.Set("token_type_hint", r.TokenTypeHint)
	}
	return values
}
'''))
ref('rq-tokvalues-add',fn(T,'func TokenRequestValues(','''func TokenRequestValues(r TokenRequest) url.Values {
	values := make(url.Values)
	add := func(name, value string) {
		if value != "" {
			values[name] = []string{value}
		}
	}
	add("grant_type", r.GrantType)
	if len(r.Scope) > 0 {
		values["scope"] = []string{r.Scope.String()}
	}
	add("username", r.Username)
	add("password", r.Password)
	add("refresh_token", r.RefreshToken)
	add("redirect_uri", url.QueryEscape(r.RedirectURI))
	add("code", r.Code)
	return values
}
'''))
ref('rq-tokvalues-append',fn(T,'func TokenRequestValues(','''func TokenRequestValues(r TokenRequest) url.Values {
	values := url.Values{}
	if r.GrantType != "" {
		values.Add("grant_type", r.GrantType)
	}
	if !r.Scope.Empty() {
		values.Add("scope", r.Scope.String())
	}
	if r.Username != "" {
		values.Add("username", r.Username)
	}
	if r.Password != "" {
		values.Add("password", r.Password)
	}
	if r.RefreshToken != "" {
		values.Add("refresh_token", r.RefreshToken)
	}
	if r.RedirectURI != "" {
		values.Add("redirect_uri", url.QueryEscape(r.RedirectURI))
	}
	if r.Code != "" {
		values.Add("code", r.Code)
	}
	return values
}
'''))
ref('rq-readjson',*[(f,body(f,'func Parse%sResponse('%n),'''func Parse%sResponse(res *http.Response, limit int64) (*%sResponse, error) {
	var out %sResponse
	if err := readJSON(res, limit, &out); err != nil {
		return nil, err
	}
	return &out, nil
}
'''%(n,n,n)) for f,n in ((T,'Token'),(I,'Introspection'))],(T,None,'''
func readJSON(res *http.Response, limit int64, out interface{}) error {
	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return err
	}
	contentType, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil {
		return err
	}
	if contentType != "application/json" {
		return fmt.Errorf("unexpected content type: %q", contentType)
	}
	return json.Unmarshal(data, out)
}
'''))
ref('rq-readdata',(I,'''	// read response
	data, err := ioutil.ReadAll(io.LimitReader(res.Body, limit))
	if err != nil {
		return nil, err
	}

	// parse content type
	contentType, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil {
		return nil, err
	}

	// check content type
	if contentType != "application/json" {
		return nil, fmt.Errorf("unexpected content type: %q", contentType)
	}
''','''	data, err := readJSONBody(res, limit)
	if err != nil {
		return nil, err
	}
'''),(I,None,'''
func readJSONBody(res *http.Response, limit int64) ([]byte, error) {
	contentType, _, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if err != nil {
		return nil, err
	}
	if contentType != "application/json" {
		return nil, fmt.Errorf("unexpected content type: %q", contentType)
	}
	return ioutil.ReadAll(io.LimitReader(res.Body, limit))
}
'''))
ref('rq-ptr',(I,'''	var irs IntrospectionResponse
	err = json.Unmarshal(data, &irs)
	if err != nil {
		return nil, err
	}

	return &irs, nil''','''	irs := new(IntrospectionResponse)
	if err = json.Unmarshal(data, irs); err != nil {
		return nil, err
	}

	return irs, nil'''))
ref('rq-uri-helper',(A,'''	redirectURIString, err := url.QueryUnescape(r.Form.Get("redirect_uri"))
	if err != nil || redirectURIString == "" {
		return nil, InvalidRequest("missing redirect URI")
	}

	// parse redirect uri
	_, err = url.ParseRequestURI(redirectURIString)
	if err != nil || strings.Contains(redirectURIString, "#") {
		return nil, InvalidRequest("invalid redirect URI")
	}
''','''	redirectURIString, err := url.QueryUnescape(r.Form.Get("redirect_uri"))
	if err != nil || redirectURIString == "" {
		return nil, InvalidRequest("missing redirect URI")
	}
	if !validRedirectURI(redirectURIString) {
		return nil, InvalidRequest("invalid redirect URI")
	}
'''),(A,None,'''
func validRedirectURI(str string) bool {
	if strings.Contains(str, "#") {
		return false
	}
	_, err := url.ParseRequestURI(str)
	return err == nil
}
'''),(T,'''	if redirectURIString != "" {
		_, err := url.ParseRequestURI(redirectURIString)
		if err != nil || strings.Contains(redirectURIString, "#") {
			return nil, InvalidRequest("invalid redirect URI")
		}
	}
''','''	if redirectURIString != "" && !validRedirectURI(redirectURIString) {
		return nil, InvalidRequest("invalid redirect URI")
	}
'''))
ref('rq-contains-rune',(A,'strings.Contains(redirectURIString, "#")',"strings.ContainsRune(redirectURIString, '#')"))
ref('rq-indexbyte',(A,'strings.Contains(redirectURIString, "#")',"strings.IndexByte(redirectURIString, '#') >= 0"))
ref('rq-method-switch',(A,'''	if r.Method != "GET" && r.Method != "POST" {
		return nil, InvalidRequest("invalid HTTP method")
	}
''','''	switch r.Method {
	case http.MethodGet, http.MethodPost:
	default:
		return nil, InvalidRequest("invalid HTTP method")
	}
'''))
ref('rq-build-struct',(A,'''	// get state
	state := r.Form.Get("state")
''','	req := &AuthorizationRequest{}\n	req.State = r.Form.Get("state")\n'),(A,'''	return &AuthorizationRequest{
		ResponseType: responseType,
		Scope:        scope,
		ClientID:     clientID,
		RedirectURI:  redirectURIString,
		State:        state,
	}, nil''','''	req.ResponseType = responseType
	req.Scope = scope
	req.ClientID = clientID
	req.RedirectURI = redirectURIString

	return req, nil'''))
ref('rq-formvalue',(A,'r.Form.Get("state")','r.FormValue("state")'))
ref('rq-required',(A,'''	responseType := r.Form.Get("response_type")
	if responseType == "" {
		return nil, InvalidRequest("missing response type")
	}
''','''	responseType, err := required(r.Form, "response_type", "missing response type")
	if err != nil {
		return nil, err
	}
'''),(A,'''	clientID := r.Form.Get("client_id")
	if clientID == "" {
		return nil, InvalidRequest("missing client ID")
	}
''','''	clientID, err := required(r.Form, "client_id", "missing client ID")
	if err != nil {
		return nil, err
	}
'''),(A,None,'''
func required(form url.Values, name, message string) (string, error) {
	value := form.Get(name)
	if value == "" {
		return "", InvalidRequest(message)
	}
	return value, nil
}
'''))
ref('rq-basic-helper',(I,'''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		return nil, InvalidRequest("missing or invalid HTTP authorization header")
	}
''','''	clientID, clientSecret, err := basicAuth(r)
	if err != nil {
		return nil, err
	}
'''),(I,None,'''
func basicAuth(r *http.Request) (string, string, error) {
	id, secret, ok := r.BasicAuth()
	if ok {
		return id, secret, nil
	}
	return "", "", InvalidRequest("missing or invalid HTTP authorization header")
}
'''))
ref('rq-cred-helper',(T,'''	clientID, clientSecret, ok := r.BasicAuth()
	if !ok {
		clientID = r.PostForm.Get("client_id")
		clientSecret = r.PostForm.Get("client_secret")
	}
''','	clientID, clientSecret := clientCredentials(r)\n'),(T,None,'''
func clientCredentials(r *http.Request) (string, string) {
	if id, secret, ok := r.BasicAuth(); ok {
		return id, secret
	}
	return r.PostForm.Get("client_id"), r.PostForm.Get("client_secret")
}
'''))
ref('rq-order',(T,'''	// get code
	code := r.PostForm.Get("code")

''',''),(T,'		Code:         code,\n','		Code:         r.PostForm.Get("code"),\n'))
ref('rq-tr-map',fn(T,'func (r *TokenResponse) Map(','''func (r *TokenResponse) Map() map[string]string {
	m := map[string]string{
		"token_type":   r.TokenType,
		"access_token": r.AccessToken,
		"expires_in":   strconv.Itoa(r.ExpiresIn),
	}
	for name, value := range map[string]string{
		"refresh_token": r.RefreshToken,
		"state":         r.State,
		"scope":         r.Scope.String(),
	} {
		if value != "" {
			m[name] = value
		}
	}
	return m
}
''')) if False else None
ref('rq-tr-map2',fn(T,'func (r *TokenResponse) Map(','''func (r *TokenResponse) Map() map[string]string {
	m := map[string]string{
		"token_type":   r.TokenType,
		"access_token": r.AccessToken,
		"expires_in":   strconv.FormatInt(int64(r.ExpiresIn), 10),
	}
	if r.RefreshToken != "" {
		m["refresh_token"] = r.RefreshToken
	}
	if !r.Scope.Empty() {
		m["scope"] = r.Scope.String()
	}
	if r.State != "" {
		m["state"] = r.State
	}
	return m
}
'''))
ref('rq-tr-sprint',(T,'strconv.Itoa(r.ExpiresIn)','fmt.Sprint(r.ExpiresIn)'))
ref('rq-tr-sprintf',(T,'strconv.Itoa(r.ExpiresIn)','fmt.Sprintf("%d", r.ExpiresIn)'))
ref('rq-wtr',fn(T,'func WriteTokenResponse(','''func WriteTokenResponse(w http.ResponseWriter, r *TokenResponse) error {
	if r.RedirectURI == "" {
		return Write(w, r, http.StatusOK)
	}
	params := r.Map()
	return WriteRedirect(w, r.RedirectURI, params, true)
}
'''))
ref('rq-new-tr',fn(T,'func NewTokenResponse(','''func NewTokenResponse(tokenType, accessToken string, expiresIn int) *TokenResponse {
	r := new(TokenResponse)
	r.TokenType = tokenType
	r.AccessToken = accessToken
	r.ExpiresIn = expiresIn
	return r
}
'''))
ref('rq-code-map',fn(CO,'func (r *CodeResponse) Map(','''func (r *CodeResponse) Map() map[string]string {
	params := map[string]string{"code": r.Code}
	if len(r.State) > 0 {
		params["state"] = r.State
	}
	return params
}
'''))
ref('rq-wir',fn(I,'func WriteIntrospectionResponse(','''func WriteIntrospectionResponse(w http.ResponseWriter, r *IntrospectionResponse) error {
	if !r.Active || KnownTokenType(r.TokenType) {
		return Write(w, r, http.StatusOK)
	}
	return errors.New("unknown token type")
}
'''))
