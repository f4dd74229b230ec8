From 7a23e8198b5f7f6bb7c5e9d994233c60c9c6660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 1/8] fix: report expired tokens as inactive on introspection

---
 server.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/server.go b/server.go
index b926c76..37ec293 100644
--- a/server.go
+++ b/server.go
@@ -553,6 +553,12 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
+		// report expired tokens as inactive
+		if accessToken.ExpiresAt.Before(time.Now()) {
+			_ = WriteIntrospectionResponse(w, res)
+			return
+		}
+
 		// set response
 		res.Active = true
 		res.Scope = accessToken.Scope
@@ -570,6 +576,12 @@ func (s *Server) introspectionEndpoint(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 
+		// report expired tokens as inactive
+		if refreshToken.ExpiresAt.Before(time.Now()) {
+			_ = WriteIntrospectionResponse(w, res)
+			return
+		}
+
 		// set response
 		res.Active = true
 		res.Scope = refreshToken.Scope
-- 
2.43.0


From 169cce8e74fc2e5712d9f4553d84e766118eea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 2/8] fix: revoke refreshed tokens when their authorization
 code is replayed

Tokens issued by the refresh token grant did not inherit the code of the
presented refresh token and survived a replay of that code.
---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 37ec293..68b85a1 100644
--- a/server.go
+++ b/server.go
@@ -437,7 +437,7 @@ func (s *Server) handleRefreshTokenGrant(w http.ResponseWriter, rq *TokenRequest
 	}
 
 	// issue tokens
-	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, "")
+	r := s.issueTokens(true, rq.Scope, rq.ClientID, storedRefreshToken.Username, storedRefreshToken.Code)
 
 	// delete used refresh token
 	delete(s.RefreshTokens, refreshToken.SignatureString())
-- 
2.43.0


From 022fe1e52063ab2279837c5f75d9f30516f03621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 3/8] fix: reject redirect URIs with a fragment

url.ParseRequestURI assumes that there is no fragment, so the existing check
never applied.
---
 authorization.go | 6 ++++++
 token.go         | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/authorization.go b/authorization.go
index 28e012f..1e50cfa 100644
--- a/authorization.go
+++ b/authorization.go
@@ -3,6 +3,7 @@ package oauth2
 import (
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // A AuthorizationRequest is typically returned by ParseAuthorizationRequest and
@@ -54,6 +55,11 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 		return nil, InvalidRequest("missing redirect URI")
 	}
 
+	// reject fragments, which url.ParseRequestURI does not split off
+	if strings.Contains(redirectURIString, "#") {
+		return nil, InvalidRequest("invalid redirect URI")
+	}
+
 	// parse redirect uri
 	redirectURI, err := url.ParseRequestURI(redirectURIString)
 	if err != nil || redirectURI.Fragment != "" {
diff --git a/token.go b/token.go
index f0a4db9..693886e 100644
--- a/token.go
+++ b/token.go
@@ -77,6 +77,11 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
+	// reject fragments, which url.ParseRequestURI does not split off
+	if strings.Contains(redirectURIString, "#") {
+		return nil, InvalidRequest("invalid redirect URI")
+	}
+
 	// validate redirect uri if present
 	if redirectURIString != "" {
 		redirectURI, err := url.ParseRequestURI(redirectURIString)
-- 
2.43.0


From 07af67bae3681881001649c43a2f7b6ad614f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 4/8] fix: do not encode redirect fragment parameters twice

---
 oauth2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oauth2.go b/oauth2.go
index ce4e4f3..5a3539a 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -107,6 +107,13 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 
 		// encode fragment
 		redirectURI.Fragment = f.Encode()
+
+		// set the encoded form to prevent another round of encoding
+		redirectURI.RawFragment = redirectURI.Fragment
+		redirectURI.Fragment, err = url.PathUnescape(redirectURI.RawFragment)
+		if err != nil {
+			return err
+		}
 	} else {
 		// get current query
 		q := redirectURI.Query()
-- 
2.43.0


From 666e3a21c8f1ce30dcfe2ca3f402c89b9b412b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 5/8] fix: reject redirect URIs that are not absolute

url.ParseRequestURI also accepts absolute paths like "/callback".
---
 authorization.go | 5 +++++
 token.go         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/authorization.go b/authorization.go
index 1e50cfa..1e7c441 100644
--- a/authorization.go
+++ b/authorization.go
@@ -66,6 +66,11 @@ func ParseAuthorizationRequest(r *http.Request) (*AuthorizationRequest, error) {
 		return nil, InvalidRequest("invalid redirect URI")
 	}
 
+	// require an absolute uri
+	if !redirectURI.IsAbs() {
+		return nil, InvalidRequest("invalid redirect URI")
+	}
+
 	return &AuthorizationRequest{
 		ResponseType: responseType,
 		Scope:        scope,
diff --git a/token.go b/token.go
index 693886e..f6dfe2e 100644
--- a/token.go
+++ b/token.go
@@ -88,6 +88,11 @@ func ParseTokenRequest(r *http.Request) (*TokenRequest, error) {
 		if err != nil || redirectURI.Fragment != "" {
 			return nil, InvalidRequest("invalid redirect URI")
 		}
+
+		// require an absolute uri
+		if !redirectURI.IsAbs() {
+			return nil, InvalidRequest("invalid redirect URI")
+		}
 	}
 
 	// get code
-- 
2.43.0


From b82ec3258b14f7803abad6db860fe34b460851c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 6/8] fix: keep a redirect target's query that cannot be
 decoded

---
 oauth2.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oauth2.go b/oauth2.go
index 5a3539a..d52a96c 100644
--- a/oauth2.go
+++ b/oauth2.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"net/http"
 	"net/url"
+	"strings"
 )
 
 // The known OAuth2 grant types.
@@ -115,6 +116,12 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 			return err
 		}
 	} else {
+		// set a query aside that cannot be decoded to keep it as it is
+		var existing string
+		if _, err := url.ParseQuery(redirectURI.RawQuery); err != nil {
+			existing, redirectURI.RawQuery = redirectURI.RawQuery, ""
+		}
+
 		// get current query
 		q := redirectURI.Query()
 
@@ -125,6 +132,11 @@ func WriteRedirect(w http.ResponseWriter, uri string, params map[string]string,
 
 		// reset query
 		redirectURI.RawQuery = q.Encode()
+
+		// put back query
+		if existing != "" {
+			redirectURI.RawQuery = strings.TrimSuffix(existing+"&"+redirectURI.RawQuery, "&")
+		}
 	}
 
 	// set location
-- 
2.43.0


From f2d492553ed317b991d13e7c93fe8c99707a76d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 7/8] fix: do not require refresh tokens of servers that do not
 support them

The suite fails a conforming server that does not support the refresh token
grant and hence issues no refresh tokens, although the refresh token is meant
to be tested only if present.
---
 oauth2test/grants.go | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/oauth2test/grants.go b/oauth2test/grants.go
index 21af6c9..304dae8 100644
--- a/oauth2test/grants.go
+++ b/oauth2test/grants.go
@@ -125,7 +125,9 @@ func PasswordGrantTest(t *testing.T, spec *Spec) {
 			assert.NotEmpty(t, accessToken, debug(r))
 
 			refreshToken = jsonFieldString(r, "refresh_token")
-			assert.NotEmpty(t, refreshToken, debug(r))
+			if spec.RefreshTokenGrantSupport {
+				assert.NotEmpty(t, refreshToken, debug(r))
+			}
 		},
 	})
 
@@ -227,7 +229,9 @@ func ClientCredentialsGrantTest(t *testing.T, spec *Spec) {
 			assert.NotEmpty(t, accessToken, debug(r))
 
 			refreshToken = jsonFieldString(r, "refresh_token")
-			assert.NotEmpty(t, refreshToken, debug(r))
+			if spec.RefreshTokenGrantSupport {
+				assert.NotEmpty(t, refreshToken, debug(r))
+			}
 		},
 	})
 
@@ -579,7 +583,9 @@ func AuthorizationCodeGrantTest(t *testing.T, spec *Spec) {
 			assert.NotEmpty(t, accessToken, debug(r))
 
 			refreshToken = jsonFieldString(r, "refresh_token")
-			assert.NotEmpty(t, refreshToken, debug(r))
+			if spec.RefreshTokenGrantSupport {
+				assert.NotEmpty(t, refreshToken, debug(r))
+			}
 		},
 	})
 
@@ -636,7 +642,9 @@ func AuthorizationCodeGrantTest(t *testing.T, spec *Spec) {
 			assert.NotEmpty(t, accessToken, debug(r))
 
 			refreshToken = jsonFieldString(r, "refresh_token")
-			assert.NotEmpty(t, refreshToken, debug(r))
+			if spec.RefreshTokenGrantSupport {
+				assert.NotEmpty(t, refreshToken, debug(r))
+			}
 		},
 	})
 
@@ -672,21 +680,23 @@ func AuthorizationCodeGrantTest(t *testing.T, spec *Spec) {
 			},
 		})
 
-		// check refresh token
-		Do(spec.Handler, &Request{
-			Method:   "POST",
-			Path:     spec.TokenEndpoint,
-			Username: spec.ConfidentialClientID,
-			Password: spec.ConfidentialClientSecret,
-			Form: map[string]string{
-				"grant_type":    "refresh_token",
-				"refresh_token": refreshToken,
-			},
-			Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
-				assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
-				assert.Equal(t, "invalid_grant", jsonFieldString(r, "error"), debug(r))
-			},
-		})
+		// check refresh token if present
+		if refreshToken != "" {
+			Do(spec.Handler, &Request{
+				Method:   "POST",
+				Path:     spec.TokenEndpoint,
+				Username: spec.ConfidentialClientID,
+				Password: spec.ConfidentialClientSecret,
+				Form: map[string]string{
+					"grant_type":    "refresh_token",
+					"refresh_token": refreshToken,
+				},
+				Callback: func(r *httptest.ResponseRecorder, rq *http.Request) {
+					assert.Equal(t, http.StatusBadRequest, r.Code, debug(r))
+					assert.Equal(t, "invalid_grant", jsonFieldString(r, "error"), debug(r))
+				},
+			})
+		}
 	}
 }
 
-- 
2.43.0


From b6d7b058a1a2ab7812db8b85b7a767b4eb896dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 8/8] fix: let built form values be extended without
 overwriting each other

---
 introspection.go |  6 +++---
 revocation.go    |  6 +++---
 token.go         | 16 ++++++++--------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/introspection.go b/introspection.go
index 7497713..f84ee80 100644
--- a/introspection.go
+++ b/introspection.go
@@ -106,17 +106,17 @@ func IntrospectionRequestValues(r IntrospectionRequest) url.Values {
 		r.TokenTypeHint,
 	}
 
-	// prepare values
+	// prepare values (capped to prevent additions from overwriting neighbors)
 	values := make(url.Values, len(slice))
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/revocation.go b/revocation.go
index f321679..d8eb81d 100644
--- a/revocation.go
+++ b/revocation.go
@@ -61,17 +61,17 @@ func RevocationRequestValues(r RevocationRequest) url.Values {
 		r.TokenTypeHint,
 	}
 
-	// prepare values
+	// prepare values (capped to prevent additions from overwriting neighbors)
 	values := make(url.Values, len(slice))
 
 	// set token if available
 	if r.Token != "" {
-		values["token"] = slice[0:1]
+		values["token"] = slice[0:1:1]
 	}
 
 	// set token type hint if available
 	if len(r.TokenTypeHint) != 0 {
-		values["token_type_hint"] = slice[1:2]
+		values["token_type_hint"] = slice[1:2:2]
 	}
 
 	return values
diff --git a/token.go b/token.go
index f6dfe2e..c29fda2 100644
--- a/token.go
+++ b/token.go
@@ -201,42 +201,42 @@ func TokenRequestValues(r TokenRequest) url.Values {
 		r.Code,
 	}
 
-	// prepare values
+	// prepare values (capped to prevent additions from overwriting neighbors)
 	values := make(url.Values, len(slice))
 
 	// set grant type if available
 	if r.GrantType != "" {
-		values["grant_type"] = slice[0:1]
+		values["grant_type"] = slice[0:1:1]
 	}
 
 	// set scope if available
 	if len(r.Scope) != 0 {
-		values["scope"] = slice[1:2]
+		values["scope"] = slice[1:2:2]
 	}
 
 	// set username if available
 	if r.Username != "" {
-		values["username"] = slice[2:3]
+		values["username"] = slice[2:3:3]
 	}
 
 	// set password if available
 	if r.Password != "" {
-		values["password"] = slice[3:4]
+		values["password"] = slice[3:4:4]
 	}
 
 	// set refresh token if available
 	if r.RefreshToken != "" {
-		values["refresh_token"] = slice[4:5]
+		values["refresh_token"] = slice[4:5:5]
 	}
 
 	// set redirect uri if available
 	if r.RedirectURI != "" {
-		values["redirect_uri"] = slice[5:6]
+		values["redirect_uri"] = slice[5:6:6]
 	}
 
 	// set code if available
 	if r.Code != "" {
-		values["code"] = slice[6:7]
+		values["code"] = slice[6:7:7]
 	}
 
 	return values
-- 
2.43.0

