From 0227208490ada5e1264282b106eaec431fadc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 1/7] fix: do not report expired tokens as active on
 introspection

---
 server.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/server.go b/server.go
index b926c76..a9e8dd5 100644
--- a/server.go
+++ b/server.go
@@ -553,13 +553,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = accessToken.Scope
-		res.ClientID = accessToken.ClientID
-		res.Username = accessToken.Username
-		res.TokenType = AccessToken
-		res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !accessToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = accessToken.Scope
+			res.ClientID = accessToken.ClientID
+			res.Username = accessToken.Username
+			res.TokenType = AccessToken
+			res.ExpiresAt = accessToken.ExpiresAt.Unix()
+		}
 	}
 
 	// check refresh token
@@ -570,13 +572,15 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
-		// set response
-		res.Active = true
-		res.Scope = refreshToken.Scope
-		res.ClientID = refreshToken.ClientID
-		res.Username = refreshToken.Username
-		res.TokenType = RefreshToken
-		res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		// set response if not expired
+		if !refreshToken.ExpiresAt.Before(time.Now()) {
+			res.Active = true
+			res.Scope = refreshToken.Scope
+			res.ClientID = refreshToken.ClientID
+			res.Username = refreshToken.Username
+			res.TokenType = RefreshToken
+			res.ExpiresAt = refreshToken.ExpiresAt.Unix()
+		}
 	}
 
 	// write response
-- 
2.43.0


From 3dc24c3a87515511e7681e7c34a1404b41416e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 2/7] fix: do not encode redirect fragment parameters twice

---
 oauth2.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..c5d48ba 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -96,6 +96,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 	}
 
 	// add params to fragment if requested
+	var fragment string
 	if useFragment {
 		// prepare fragment
 		f := make(url.Values)
@@ -106,7 +107,7 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		}
 
 		// encode fragment
-		redirectURI.Fragment = f.Encode()
+		fragment = f.Encode()
 	} else {
 		// get current query
 		q := redirectURI.Query()
@@ -120,8 +121,14 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 		redirectURI.RawQuery = q.Encode()
 	}
 
+	// prepare location and append the already encoded fragment
+	location := redirectURI.String()
+	if fragment != "" {
+		location += "#" + fragment
+	}
+
 	// set location
-	w.Header().Add("Location", redirectURI.String())
+	w.Header().Add("Location", location)
 
 	// prevent caching
 	w.Header().Set("Cache-Control", "no-store")
-- 
2.43.0


From ed7e4df57f1630ba6e4864db41ba54588db5c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 3/7] fix: reject redirect URIs that contain a fragment

---
 authorization.go | 5 +++--
 token.go         | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/authorization.go b/authorization.go
index 28e012f..f8e7850 100644
--- a/authorization.go
+++ b/authorization.go
@@ -3,6 +3,7 @@ package oauth2
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // A AuthorizationRequest is typically returned by ParseAuthorizationRequest and
@@ -55,8 +56,8 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 	}
 
 	// parse redirect uri
-	redirectURI, err := url.ParseRequestURI(redirectURIString)
-	if err != nil || redirectURI.Fragment != "" {
+	_, err = url.ParseRequestURI(redirectURIString)
+	if err != nil || strings.Contains(redirectURIString, "#") {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
diff --git a/token.go b/token.go
index f0a4db9..140ea5f 100644
--- a/token.go
+++ b/token.go
@@ -79,8 +79,8 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 
 	// validate redirect uri if present
 	if redirectURIString != "" {
-		redirectURI, err := url.ParseRequestURI(redirectURIString)
-		if err != nil || redirectURI.Fragment != "" {
+		_, err := url.ParseRequestURI(redirectURIString)
+		if err != nil || strings.Contains(redirectURIString, "#") {
 			return nil, InvalidRequest("invalid redirect URI")
 		}
 	}
-- 
2.43.0


From ed91b1ad3f8c924f9a64e370e39a4c9aa9558eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 4/7] fix: keep the authorization code association when
 refreshing tokens

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index a9e8dd5..0e784e4 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From db574ff9773e78fbaa129c320a9c0099af27e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 5/7] fix: do not share capacity between returned form values

---
 introspection.go |  4 ++--
 revocation.go    |  4 ++--
 token.go         | 14 +++++++-------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/introspection.go b/introspection.go
index 7497713..3995ade 100644
--- a/introspection.go
+++ b/introspection.go
@@ -111,12 +111,12 @@ func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/revocation.go b/revocation.go
index f321679..ddee64e 100644
--- a/revocation.go
+++ b/revocation.go
@@ -66,12 +66,12 @@ func RevocationRequestValues(r RevocationRequest) url.Values {
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/token.go b/token.go
index 140ea5f..96bfe4f 100644
--- a/token.go
+++ b/token.go
@@ -196,37 +196,37 @@ func TokenRequestValues(r TokenRequest) url.Values {
 
 	// set grant type if available
 	if r.GrantType != "" {
-		values["grant_type"] = slice[0:1]
+		values["grant_type"] = slice[0:1:1]
 	}
 
 	// set scope if available
 	if len(r.Scope) != 0 {
-		values["scope"] = slice[1:2]
+		values["scope"] = slice[1:2:2]
 	}
 
 	// set username if available
 	if r.Username != "" {
-		values["username"] = slice[2:3]
+		values["username"] = slice[2:3:3]
 	}
 
 	// set password if available
 	if r.Password != "" {
-		values["password"] = slice[3:4]
+		values["password"] = slice[3:4:4]
 	}
 
 	// set refresh token if available
 	if r.RefreshToken != "" {
-		values["refresh_token"] = slice[4:5]
+		values["refresh_token"] = slice[4:5:5]
 	}
 
 	// set redirect uri if available
 	if r.RedirectURI != "" {
-		values["redirect_uri"] = slice[5:6]
+		values["redirect_uri"] = slice[5:6:6]
 	}
 
 	// set code if available
 	if r.Code != "" {
-		values["code"] = slice[6:7]
+		values["code"] = slice[6:7:7]
 	}
 
 	return values
-- 
2.43.0


From d5adffd9b8e98697d79509577062cdbce903dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 6/7] fix: fall back to the response status if no OAuth2 error
 is returned

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 5a0fb03..8b0e325 100644
--- a/error.go
+++ b/error.go
@@ -285,7 +285,7 @@ func ParseRequestError(res *http.Response, limit int64) error {
 
 	// check oauth error
 	var oauthError Error
-	if json.Unmarshal(data, &oauthError) == nil {
+	if json.Unmarshal(data, &oauthError) == nil && oauthError.Name != "" {
 		oauthError.Status = res.StatusCode
 		return &oauthError
 	}
-- 
2.43.0


From d00a4b3eb8fb345af3b5340bd089c002f51d92c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 7/7] fix: leave out empty scopes from token response
 parameters

---
 token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token.go b/token.go
index 96bfe4f..581e88b 100644
--- a/token.go
+++ b/token.go
@@ -154,7 +154,7 @@ func (r *TokenResponse) Map() map[string]string {
 	}
 
 	// add scope if present
-	if r.Scope != nil {
+	if len(r.Scope) > 0 {
 		m["scope"] = r.Scope.String()
 	}
 
-- 
2.43.0

