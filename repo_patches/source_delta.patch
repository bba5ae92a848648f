From d17f05a267844c053bc1108ca2fafd24e3d933ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 01/27] fix: ID token refresh could redirect to another site

A request path starting with // was used as is in the Location header.
---
 proxy/backend-sso.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index 644f33c..a293744 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -140,7 +140,12 @@ func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.M
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return nil, false
 	}
-	http.Redirect(w, req, req.URL.String(), http.StatusFound)
+	// The absolute URL is required. A path that starts with // would be a
+	// redirect to another site.
+	here := *req.URL
+	here.Scheme = "https"
+	here.Host = req.Host
+	http.Redirect(w, req, here.String(), http.StatusFound)
 	return nil, false
 }
 
-- 
2.43.0


From 06ed592fac3642949d29360efa5fe4b3b0d18f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 02/27] fix: OIDC callback must reject an ID token with another
 login's nonce

The nonce in the ID token was only looked up among all the outstanding
logins. An ID token issued for someone else's login request was accepted,
which lets an attacker log a victim's browser in with the attacker's
authorization code when the identity provider doesn't enforce PKCE.
---
 proxy/internal/oidc/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..069283d 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -307,7 +307,7 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 	state, ok = p.states[claims.Nonce]
 	delete(p.states, claims.Nonce)
 	p.mu.Unlock()
-	if !ok {
+	if !ok || claims.Nonce != nonce {
 		p.er.Record("invalid nonce")
 		http.Error(w, "timeout", http.StatusForbidden)
 		return
-- 
2.43.0


From 166d6cbdb7cd6d71c9fa1422b4041f41c90b3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 03/27] fix: don't crash on text after the last SAML
 certificate

pem.Decode returns a nil block when there is no more PEM data, e.g. when
the configured certificates are followed by an empty line.
---
 proxy/internal/saml/saml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/internal/saml/saml.go b/proxy/internal/saml/saml.go
index c6fa425..c45006e 100644
--- a/proxy/internal/saml/saml.go
+++ b/proxy/internal/saml/saml.go
@@ -273,6 +273,9 @@ func readCerts(s string) ([]*x509.Certificate, error) {
 	var certs []*x509.Certificate
 	for len(b) > 0 {
 		block, rest := pem.Decode(b)
+		if block == nil {
+			break
+		}
 		b = rest
 		if block.Type == "CERTIFICATE" {
 			cert, err := x509.ParseCertificate(block.Bytes)
-- 
2.43.0


From 71971c20e98f4d7b53c5b5deb669e28011d1a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 04/27] fix: report failure to delete a passkey

---
 proxy/internal/passkeys/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index dba74a4..5da8ca1 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -627,6 +627,8 @@ func (m *Manager) ManageKeys(w http.ResponseWriter, req *http.Request) {
 		}
 		if err := m.deleteKey(email, id); err != nil {
 			m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
+			http.Error(w, "internal error", http.StatusInternalServerError)
+			return
 		}
 		w.Header().Set("content-type", "application/json")
 		json.NewEncoder(w).Encode(map[string]string{
-- 
2.43.0


From c31d664a11b00a713729afa8555b2371817b7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 05/27] fix: don't serve an expired certificate revocation list

---
 proxy/internal/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..ab7b433 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -509,7 +509,7 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 50f962f770797f6665b3a0fc2d180cc916700b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 06/27] fix: include certificates revoked right after the last
 revocation list

---
 proxy/internal/pki/pki.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index ab7b433..f227a6e 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -498,18 +498,21 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 	now := time.Now().UTC()
 
 	if len(m.db.RevocationLists) > 0 {
-		var lastRevocation time.Time
-		for _, c := range m.db.IssuedCerts {
-			if c.Revocation != nil && c.Revocation.Time.After(lastRevocation) {
-				lastRevocation = c.Revocation.Time
-			}
-		}
 		last := m.db.RevocationLists[len(m.db.RevocationLists)-1]
 		rl, err := x509.ParseRevocationList(last.RawCRL)
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
+		listed := make(map[string]bool)
+		for _, e := range rl.RevokedCertificateEntries {
+			listed[bytesToHex(e.SerialNumber.Bytes())] = true
+		}
+		// Times have a one second resolution. A certificate revoked in the
+		// same second as the last update might not be in that list.
+		stale := slices.ContainsFunc(m.db.IssuedCerts, func(c *certificate) bool {
+			return c.Revocation != nil && !c.Revocation.Time.Before(rl.ThisUpdate) && !listed[c.SerialNumber]
+		})
+		if !stale && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 891c0b32e75061cd04021e3cef82b368e5bdf4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 07/27] fix: lock the PKI state while rotating the delegate
 certificate

---
 proxy/internal/pki/pki.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index f227a6e..ed0e1e7 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -385,6 +385,9 @@ func (m *PKIManager) parseKeyBytes(b []byte) (any, error) {
 }
 
 func (m *PKIManager) maybeRotateDelegateCert() error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	if m.db == nil {
 		return errors.New("no ca")
 	}
@@ -441,7 +444,7 @@ func (m *PKIManager) maybeRotateDelegateCert() error {
 		CRLDistributionPoints: m.opts.CRLDistributionPoints,
 		OCSPServer:            m.opts.OCSPServer,
 	}
-	_, err = m.signCertificate(templ, func(c *certificate) error {
+	_, err = m.signCertificateLocked(templ, func(c *certificate) error {
 		m.db.DelegateKey = keyBytes
 		old := m.db.DelegateCerts
 		m.db.DelegateCerts = make([]*certificate, 0, 2)
@@ -768,14 +771,14 @@ func (m *PKIManager) IssueCertificate(cr *x509.CertificateRequest) (cert []byte,
 		IPAddresses:           cr.IPAddresses,
 		URIs:                  cr.URIs,
 	}
-	return m.signCertificate(templ, nil)
-}
 
-// signCertificate signs a new certificate.
-func (m *PKIManager) signCertificate(cert *x509.Certificate, next func(*certificate) error) (raw []byte, retErr error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	return m.signCertificateLocked(templ, nil)
+}
 
+// signCertificateLocked signs a new certificate. m.mu must be held.
+func (m *PKIManager) signCertificateLocked(cert *x509.Certificate, next func(*certificate) error) (raw []byte, retErr error) {
 	commit, err := m.open()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b3891a2417861cdcfe59b2ded99b6e667543dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 08/27] fix: reject unknown PROXY protocol versions (v0
 silently disabled the header)

---
 proxy/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/config.go b/proxy/config.go
index d728f27..dc53b24 100644
--- a/proxy/config.go
+++ b/proxy/config.go
@@ -1184,6 +1184,9 @@ func validateProxyProtoVersion(s string) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 1 || v > 2 {
+		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
+	}
 	return byte(v), nil
 }
 
-- 
2.43.0


From 3745437933ebcc283a90d217785731e0a5f2496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 09/27] fix: read the current configuration under the lock
 (raced with Reconfigure)

---
 proxy/logging.go |  6 +++---
 proxy/proxy.go   | 27 ++++++++++++++++++++-------
 proxy/quic.go    |  8 ++++----
 proxy/revoke.go  |  3 ++-
 4 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/proxy/logging.go b/proxy/logging.go
index 2ab293b..bde71d4 100644
--- a/proxy/logging.go
+++ b/proxy/logging.go
@@ -36,21 +36,21 @@ const (
 )
 
 func (p *Proxy) logConnF(format string, args ...any) {
-	if p.cfg == nil || !shouldLog(logConnection, p.cfg.LogFilter) {
+	if f := p.logFilter.Load(); f == nil || !shouldLog(logConnection, *f) {
 		return
 	}
 	log.Printf(format, args...)
 }
 
 func (p *Proxy) logError(args ...any) {
-	if p.cfg != nil && !shouldLog(logError, p.cfg.LogFilter) {
+	if f := p.logFilter.Load(); f != nil && !shouldLog(logError, *f) {
 		return
 	}
 	log.Print(args...)
 }
 
 func (p *Proxy) logErrorF(format string, args ...any) {
-	if p.cfg != nil && !shouldLog(logError, p.cfg.LogFilter) {
+	if f := p.logFilter.Load(); f != nil && !shouldLog(logError, *f) {
 		return
 	}
 	log.Printf(format, args...)
diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..55967f3 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -49,6 +49,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -134,6 +135,9 @@ type Proxy struct {
 	metrics   map[string]*backendMetrics
 	startTime time.Time
 
+	// logFilter is cfg's. It can be read with or without mu.
+	logFilter atomic.Pointer[LogFilter]
+
 	eventsmu sync.Mutex
 	events   map[string]int64
 }
@@ -858,10 +862,18 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 	p.backends = backends
 	p.pkis = pkis
 	p.cfg = cfg
+	p.logFilter.Store(&cfg.LogFilter)
 	go p.reAuthorize()
 	return nil
 }
 
+// config returns the current configuration.
+func (p *Proxy) config() *Config {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	return p.cfg
+}
+
 func (p *Proxy) reAuthorize() {
 	for _, conn := range p.inConns.slice() {
 		if !connServerNameIsSet(conn) {
@@ -905,25 +917,26 @@ func (p *Proxy) reAuthorize() {
 func (p *Proxy) Start(ctx context.Context) error {
 	p.startTime = time.Now()
 	p.connClosed = sync.NewCond(&p.mu)
+	cfg := p.config()
 	var httpServer *http.Server
-	if p.cfg.HTTPAddr != "" {
+	if cfg.HTTPAddr != "" {
 		httpServer = &http.Server{
 			Handler: p.certManager.HTTPHandler(nil),
 		}
-		httpListener, err := net.Listen("tcp", p.cfg.HTTPAddr)
+		httpListener, err := net.Listen("tcp", cfg.HTTPAddr)
 		if err != nil {
 			return err
 		}
 		httpServer.SetKeepAlivesEnabled(false)
 		go serveHTTP(httpServer, httpListener)
 	}
-	if *p.cfg.EnableQUIC {
+	if *cfg.EnableQUIC {
 		if err := p.startQUIC(ctx); err != nil {
 			return err
 		}
 	}
 
-	listener, err := netw.Listen("tcp", p.cfg.TLSAddr)
+	listener, err := netw.Listen("tcp", cfg.TLSAddr)
 	if err != nil {
 		return err
 	}
@@ -1043,7 +1056,7 @@ func (p *Proxy) baseTLSConfig() *tls.Config {
 			return cert, nil
 		}
 		// Get a cert from Let's Encrypt.
-		if !p.cfg.AcceptTOS {
+		if !p.config().AcceptTOS {
 			if _, ok := p.certManager.(*autocert.Manager); ok {
 				return nil, errors.New("AcceptTOS must be set to true")
 			}
@@ -1151,9 +1164,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		}
 		p.connClosed.Broadcast()
 	})
-	if numOpen >= p.cfg.MaxOpen {
+	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {
 		p.recordEvent("too many open connections")
-		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, p.cfg.MaxOpen)
+		p.logErrorF("ERR [-] %s: too many open connections: %d >= %d", conn.RemoteAddr(), numOpen, maxOpen)
 		sendCloseNotify(conn)
 		return
 	}
diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..b57898e 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -82,7 +82,7 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 		p.logErrorF("ERR QUIC connection %s %s", hello.ServerName, hello.SupportedProtos)
 		return nil, tlsUnrecognizedName
 	}
-	qt, err := netw.NewQUIC(p.cfg.TLSAddr, statelessResetKey)
+	qt, err := netw.NewQUIC(p.config().TLSAddr, statelessResetKey)
 	if err != nil {
 		return err
 	}
@@ -91,7 +91,7 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 		return err
 	}
 	p.quicTransport = qt
-	for _, be := range p.cfg.Backends {
+	for _, be := range p.config().Backends {
 		be.quicTransport = qt
 	}
 	go p.quicAcceptLoop(ctx, quicListener)
@@ -166,9 +166,9 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
-	if numOpen >= p.cfg.MaxOpen {
+	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {
 		p.recordEvent("too many open connections")
-		be.logErrorF("ERR [%s] %s:%s: too many open connections: %d >= %d", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), numOpen, p.cfg.MaxOpen)
+		be.logErrorF("ERR [%s] %s:%s: too many open connections: %d >= %d", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), numOpen, maxOpen)
 		return
 	}
 
diff --git a/proxy/revoke.go b/proxy/revoke.go
index ad7897c..e48847f 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -103,7 +103,8 @@ func (p *Proxy) RevokeAllCertificates(ctx context.Context, reason string) error
 }
 
 func (p *Proxy) revokeUnusedCertificates(ctx context.Context) error {
-	actuallyRevoke := p.cfg.RevokeUnusedCertificates == nil || *p.cfg.RevokeUnusedCertificates
+	revoke := p.config().RevokeUnusedCertificates
+	actuallyRevoke := revoke == nil || *revoke
 
 	names := make(map[string]bool)
 	p.mu.Lock()
-- 
2.43.0


From 164f519a42c6367dc9bc02e357d013a7e495a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 10/27] fix: do not lose the wakeup of Shutdown when the last
 connection closes

---
 proxy/proxy.go | 3 +++
 proxy/quic.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 55967f3..cd52d54 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1162,6 +1162,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 					conn.BytesReceived(), conn.BytesSent())
 			}
 		}
+		// Shutdown checks inConns with mu held.
+		p.mu.Lock()
+		defer p.mu.Unlock()
 		p.connClosed.Broadcast()
 	})
 	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {
diff --git a/proxy/quic.go b/proxy/quic.go
index b57898e..18fbed1 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -136,6 +136,9 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
 				qc.BytesReceived(), qc.BytesSent())
 		}
+		// Shutdown checks inConns with mu held.
+		p.mu.Lock()
+		defer p.mu.Unlock()
 		p.connClosed.Broadcast()
 	})
 	qc.SetAnnotation(startTimeKey, time.Now())
-- 
2.43.0


From f557e6cb5981a2689c4d213eb3082557aee897d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 11/27] fix: data race on the last activity of WebSocket
 connections

---
 proxy/websocket.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/proxy/websocket.go b/proxy/websocket.go
index 0d24e8f..464ac71 100644
--- a/proxy/websocket.go
+++ b/proxy/websocket.go
@@ -27,6 +27,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"sync/atomic"
 	"time"
 
 	"github.com/gorilla/websocket"
@@ -76,9 +77,14 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 
 		done := make(chan bool, 1)
 
-		lastActive := time.Now()
+		var lastActive atomic.Pointer[time.Time]
+		setActive := func() {
+			now := time.Now()
+			lastActive.Store(&now)
+		}
+		setActive()
 		in.SetPongHandler(func(string) error {
-			lastActive = time.Now()
+			setActive()
 			return nil
 		})
 		go func() {
@@ -91,7 +97,7 @@ func (p *Proxy) webSocketHandler(cfg WebSocketConfig) http.Handler {
 					out.SetDeadline(time.Now())
 					return
 				case <-ticker.C:
-					if time.Since(lastActive) > 30*time.Second {
+					if time.Since(*lastActive.Load()) > 30*time.Second {
 						select {
 						case done <- true:
 						default:
-- 
2.43.0


From 796c6b8e212a3f2fec1680353a5d443c48959360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 12/27] fix: use new token keys only once they are stored

---
 proxy/internal/tokenmanager/tokenmanager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 7178468..069c50d 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -184,10 +184,13 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 	keys.Keys = slices.DeleteFunc(keys.Keys, func(k *tokenKey) bool {
 		return k.privKey == nil
 	})
+	if err := commit(true, nil); err != nil {
+		return err
+	}
 	tm.mu.Lock()
 	tm.keys = keys
 	tm.mu.Unlock()
-	return commit(true, nil)
+	return nil
 }
 
 func (tm *TokenManager) createNewTokenKeys() ([]*tokenKey, error) {
-- 
2.43.0


From 9eaf156248d7f28cb171082768f553ba1e9a3172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:53 +0000
Subject: [PATCH 13/27] fix: data race on the HTTP/3 server of a backend that
 is being closed

---
 proxy/backend-http.go | 2 +-
 proxy/backend.go      | 8 ++++++++
 proxy/quic.go         | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..f5a7cc6 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -395,7 +395,7 @@ func expandVars(s string, req *http.Request) string {
 }
 
 func (be *Backend) setAltSvc(header http.Header, req *http.Request) {
-	if be.http3Server == nil {
+	if be.h3Server() == nil {
 		return
 	}
 	if req.TLS != nil && req.TLS.NegotiatedProtocol == "h3" {
diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..abff93c 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -52,6 +52,14 @@ func (be *Backend) incInFlight(delta int) int {
 	return be.state.inFlight
 }
 
+// h3Server returns the backend's HTTP/3 server, or nil if it has none or is
+// closed.
+func (be *Backend) h3Server() io.Closer {
+	be.state.mu.Lock()
+	defer be.state.mu.Unlock()
+	return be.http3Server
+}
+
 func (be *Backend) close(ctx context.Context) {
 	be.state.mu.Lock()
 	defer be.state.mu.Unlock()
diff --git a/proxy/quic.go b/proxy/quic.go
index 18fbed1..7f6741c 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -210,7 +210,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		be.logErrorF("ERR [%s] %s:%s ➔ %s|%s:%s %s: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol, tag, err)
 	}
 
-	if serv, ok := be.http3Server.(*http3.Server); ok && cs.NegotiatedProtocol == "h3" {
+	if serv, ok := be.h3Server().(*http3.Server); ok && cs.NegotiatedProtocol == "h3" {
 		if err := serv.ServeQUICConn(qc); err != nil {
 			reportErr(err, "ServeQUICConn")
 		}
-- 
2.43.0


From 054046b3f80f451b8f54ede3e9008dd737631b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:30 +0000
Subject: [PATCH 14/27] fix: don't crash on certificates without an OCSP server

---
 proxy/internal/ocspcache/ocsp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..f282303 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -49,6 +49,7 @@ var (
 	errOCSPUnknown  = errors.New("unknown cert")
 	errOCSPProtocol = errors.New("protocol error")
 	errOCSPInternal = errors.New("internal error")
+	errOCSPNoServer = errors.New("no OCSP server")
 )
 
 type logger interface {
@@ -204,6 +205,9 @@ func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duratio
 }
 
 func (c *OCSPCache) fetchOCSP(cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	if len(cert.OCSPServer) == 0 {
+		return nil, errOCSPNoServer
+	}
 	ocspReq, err := ocsp.CreateRequest(cert, issuer, nil)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.CreateRequest: %v", err)
-- 
2.43.0


From 55247459d7d36d5efd3060d5479a45a9a5d7a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:30 +0000
Subject: [PATCH 15/27] fix: accept only current OCSP responses that are for
 the right certificate

---
 proxy/internal/ocspcache/ocsp.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index f282303..00b2511 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -247,9 +247,13 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
 	if err != nil {
-		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
+		c.logger.Errorf("ERR ocsp.ParseResponseForCert for %s from %s: %v", cert.Subject, server, err)
+		return nil, errOCSPProtocol
+	}
+	if !ocspResp.NextUpdate.IsZero() && time.Now().After(ocspResp.NextUpdate) {
+		c.logger.Errorf("ERR OCSP response for %s from %s expired %s", cert.Subject, server, ocspResp.NextUpdate)
 		return nil, errOCSPProtocol
 	}
 	return ocspResp, nil
-- 
2.43.0


From 920870268883ff0822003063bd49a000471ee731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:30 +0000
Subject: [PATCH 16/27] fix: accept OCSP responses only from the issuer or a
 responder it authorized

---
 proxy/internal/ocspcache/ocsp.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 00b2511..a3fc509 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -32,6 +32,7 @@ import (
 	"errors"
 	"io"
 	"net/http"
+	"slices"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -45,11 +46,12 @@ const (
 )
 
 var (
-	errOCSPRevoked  = errors.New("revoked cert")
-	errOCSPUnknown  = errors.New("unknown cert")
-	errOCSPProtocol = errors.New("protocol error")
-	errOCSPInternal = errors.New("internal error")
-	errOCSPNoServer = errors.New("no OCSP server")
+	errOCSPRevoked   = errors.New("revoked cert")
+	errOCSPUnknown   = errors.New("unknown cert")
+	errOCSPProtocol  = errors.New("protocol error")
+	errOCSPInternal  = errors.New("internal error")
+	errOCSPResponder = errors.New("responder is not authorized to sign")
+	errOCSPNoServer  = errors.New("no OCSP server")
 )
 
 type logger interface {
@@ -135,7 +137,7 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		if resp, err := parseResponse(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
 			hash := certHash(cert.Raw)
 			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
 				// Someone is playing tricks on us.
@@ -187,6 +189,20 @@ nextChain:
 	return lastError
 }
 
+// parseResponse parses an OCSP response for cert. The response must be signed
+// by the issuer, or by a responder that the issuer authorized.
+func parseResponse(b []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	resp, err := ocsp.ParseResponseForCert(b, cert, issuer)
+	if err != nil {
+		return nil, err
+	}
+	// https://www.rfc-editor.org/rfc/rfc6960.html#section-4.2.2.2
+	if rc := resp.Certificate; rc != nil && !rc.Equal(issuer) && !slices.Contains(rc.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
+		return nil, errOCSPResponder
+	}
+	return resp, nil
+}
+
 func certHash(b []byte) string {
 	hash := sha256.Sum256(b)
 	return hex.EncodeToString(hash[:])
@@ -247,9 +263,9 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
+	ocspResp, err := parseResponse(body, cert, issuer)
 	if err != nil {
-		c.logger.Errorf("ERR ocsp.ParseResponseForCert for %s from %s: %v", cert.Subject, server, err)
+		c.logger.Errorf("ERR OCSP response for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
 	}
 	if !ocspResp.NextUpdate.IsZero() && time.Now().After(ocspResp.NextUpdate) {
-- 
2.43.0


From 4ab2450c8d44c1a16c685e8d787afbdaa02f7481 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 17/27] fix: don't crash when connections without backend or
 certificate are re-authorized

---
 proxy/backend.go | 8 +++++++-
 proxy/proxy.go   | 4 ++--
 proxy/quic.go    | 2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index abff93c..2e3c8a1 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -224,7 +224,13 @@ func writeProxyHeader(v byte, out io.Writer, in anyConn) error {
 }
 
 func (be *Backend) authorize(cert *x509.Certificate) error {
-	if be.ClientAuth == nil || be.ClientAuth.ACL == nil {
+	if be.ClientAuth == nil {
+		return nil
+	}
+	if cert == nil {
+		return tlsCertificateRequired
+	}
+	if be.ClientAuth.ACL == nil {
 		return nil
 	}
 	if subject := cert.Subject.String(); subject != "" && (slices.Contains(*be.ClientAuth.ACL, subject) || slices.Contains(*be.ClientAuth.ACL, "SUBJECT:"+subject)) {
diff --git a/proxy/proxy.go b/proxy/proxy.go
index cd52d54..a441f74 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -884,11 +884,11 @@ func (p *Proxy) reAuthorize() {
 		be, err := p.backend(serverName, proto)
 		if err != nil {
 			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 			conn.Close()
 			continue
 		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
+		if oldBE := connBackend(conn); oldBE != nil && be.Mode != oldBE.Mode {
 			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
 			conn.Close()
 			continue
diff --git a/proxy/quic.go b/proxy/quic.go
index 7f6741c..20d7873 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -161,7 +161,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-- 
2.43.0


From 8d6dd23af56639a4d327a5e7365e23dad7d36885 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 18/27] fix: authorize QUIC clients with the configuration that
 they are served with

---
 proxy/quic.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 20d7873..9a10464 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -186,6 +186,15 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		return
 	}
 
+	// The check below is also done in VerifyConnection, but the configuration
+	// could have changed since then.
+	if err := be.authorize(clientCert); err != nil {
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [%s] %s:%s ➔ %q Authorize: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+		qc.CloseWithError(quicAccessDenied, "access denied")
+		return
+	}
+
 	be.logConnF("QUC [%s] %s:%s ➔ %s|%s:%s", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol)
 	if err := be.connLimit.Wait(ctx); err != nil {
 		if !errors.Is(err, context.Canceled) {
-- 
2.43.0


From fa43b17fabc9fba245163887c6ec98c815d570ca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:21:24 +0000
Subject: [PATCH 19/27] fix: apply bandwidth limits whose name has upper case
 letters

---
 proxy/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index a441f74..2ff6d32 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -417,7 +417,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 	for _, bwl := range cfg.BWLimits {
 		const minBurst = 1 << 17 // 128 KB
-		name := strings.ToLower(bwl.Name)
+		name := bwl.Name
 		if l, ok := p.bwLimits[name]; ok {
 			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
 			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-- 
2.43.0


From f450efc4ef5f72367d99cf513790d7a0c80fbc31 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 20/27] fix: leave the proxy as it was when it cannot be
 reconfigured

---
 proxy/proxy.go | 64 +++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 2ff6d32..bc1d090 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -39,6 +39,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"maps"
 	"net"
 	"net/http"
 	"net/url"
@@ -415,17 +416,13 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		pkis[pp.Name] = m
 	}
 
+	const minBurst = 1 << 17 // 128 KB
+	bwLimits := maps.Clone(p.bwLimits)
 	for _, bwl := range cfg.BWLimits {
-		const minBurst = 1 << 17 // 128 KB
-		name := bwl.Name
-		if l, ok := p.bwLimits[name]; ok {
-			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
-			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-			l.egress.SetLimit(rate.Limit(bwl.Egress))
-			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+		if _, ok := bwLimits[bwl.Name]; ok {
 			continue
 		}
-		p.bwLimits[name] = &bwLimit{
+		bwLimits[bwl.Name] = &bwLimit{
 			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
 			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
 		}
@@ -451,7 +448,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				backends[beKey{serverName: sn, proto: proto}] = be
 			}
 		}
-		if l, ok := p.bwLimits[be.BWLimit]; ok {
+		if l, ok := bwLimits[be.BWLimit]; ok {
 			be.bwLimit = l
 		}
 		if be.SSO != nil {
@@ -706,34 +703,12 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				ssoBypass: true,
 			})
 		}
-		switch be.Mode {
-		case ModeConsole:
-			be := be
+		if be.Mode == ModeConsole {
 			be.localHandlers = append(be.localHandlers,
 				localHandler{desc: "Metrics", path: "/", handler: logHandler(http.HandlerFunc(p.metricsHandler))},
 				localHandler{desc: "Icon", path: "/favicon.ico", handler: logHandler(http.HandlerFunc(p.faviconHandler))},
 			)
 			addPProfHandlers(&be.localHandlers)
-
-			be.httpConnChan = make(chan net.Conn)
-			be.httpServer = startInternalHTTPServer(be.localHandler(), be.httpConnChan)
-			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.localHandler())
-			}
-
-		case ModeLocal:
-			be.httpConnChan = make(chan net.Conn)
-			be.httpServer = startInternalHTTPServer(be.localHandler(), be.httpConnChan)
-			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.localHandler())
-			}
-
-		case ModeHTTPS, ModeHTTP:
-			be.httpConnChan = make(chan net.Conn)
-			be.httpServer = startInternalHTTPServer(be.reverseProxy(), be.httpConnChan)
-			if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
-				be.http3Server = http3Server(be.reverseProxy())
-			}
 		}
 	}
 
@@ -853,11 +828,36 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		})
 		be.outConns = p.outConns
 	}
+	// Nothing can fail from this point on.
+	for _, bwl := range cfg.BWLimits {
+		l := bwLimits[bwl.Name]
+		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
+		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
+		l.egress.SetLimit(rate.Limit(bwl.Egress))
+		l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+	}
+	for _, be := range cfg.Backends {
+		var handler func() http.Handler
+		switch be.Mode {
+		case ModeConsole, ModeLocal:
+			handler = be.localHandler
+		case ModeHTTPS, ModeHTTP:
+			handler = be.reverseProxy
+		default:
+			continue
+		}
+		be.httpConnChan = make(chan net.Conn)
+		be.httpServer = startInternalHTTPServer(handler(), be.httpConnChan)
+		if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
+			be.http3Server = http3Server(handler())
+		}
+	}
 	if p.cfg != nil {
 		for _, be := range p.cfg.Backends {
 			be.close(p.ctx)
 		}
 	}
+	p.bwLimits = bwLimits
 	p.defServerName = cfg.DefaultServerName
 	p.backends = backends
 	p.pkis = pkis
-- 
2.43.0


From 3f5910f8cbb080f31564bafa1b17e26a9d545ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:40 +0000
Subject: [PATCH 21/27] fix: close connections that reach an HTTP server that
 is shutting down

---
 proxy/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/http.go b/proxy/http.go
index f511d55..705b28e 100644
--- a/proxy/http.go
+++ b/proxy/http.go
@@ -90,7 +90,8 @@ func (l *proxyListener) Close() error {
 		l.closed = true
 		close(l.closedCh)
 		go func() {
-			for range l.ch {
+			for c := range l.ch {
+				c.Close()
 			}
 		}()
 	}
-- 
2.43.0


From 20b24628f02f02fb45b4dec63b6cde4e4e7dc0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:40 +0000
Subject: [PATCH 22/27] fix: close QUIC connections to backends when a stream
 can't be opened

---
 proxy/quic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 9a10464..beecc60 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -502,6 +502,7 @@ func (be *Backend) dialQUICStream(ctx context.Context, addr string, tc *tls.Conf
 	}
 	s, err := conn.OpenStreamSync(ctx)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	return conn.WrapConn(s), nil
-- 
2.43.0


From afa3e78f04cdb9027fd6e4146fe5b15a72e59cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:40 +0000
Subject: [PATCH 23/27] fix: don't crash when a QUIC stream is opened while its
 backend is closed

---
 proxy/quic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index beecc60..f4a3b62 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -372,6 +372,11 @@ func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw
 	serverName := idnaToUnicode(connServerName(conn))
 	closeConnNeeded := true
 	defer func() {
+		if r := recover(); r != nil {
+			p.recordEvent("panic")
+			p.logErrorF("ERR [%s] %s: PANIC: %v", certSummary(connClientCert(conn)), conn.RemoteAddr(), r)
+			closeConnNeeded = true
+		}
 		if closeConnNeeded {
 			conn.Close()
 		}
-- 
2.43.0


From 4e9890e7a91ae0497210caa886260b83f8ded0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:30 +0000
Subject: [PATCH 24/27] fix: close QUIC streams that can't be forwarded to the
 backend

---
 proxy/quic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index f4a3b62..67e264e 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -426,6 +426,7 @@ func (p *Proxy) handleQUICTCPStream(ctx context.Context, be *Backend, conn *netw
 }
 
 func (be *Backend) handleQUICQUICStream(ctx context.Context, dest *netw.QUICConn, conn *netw.Conn) {
+	defer conn.Close()
 	serverName := idnaToUnicode(connServerName(conn))
 	qs, ok := conn.Conn.(*netw.QUICStream)
 	if !ok {
-- 
2.43.0


From 4e9d88bc7775a200d38efbc4e5e94447efa89787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:56 +0000
Subject: [PATCH 25/27] fix: don't use a predictable session ID when random
 data can't be read

---
 proxy/internal/tokenmanager/urltoken.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/proxy/internal/tokenmanager/urltoken.go b/proxy/internal/tokenmanager/urltoken.go
index 861af41..25aa5ba 100644
--- a/proxy/internal/tokenmanager/urltoken.go
+++ b/proxy/internal/tokenmanager/urltoken.go
@@ -40,13 +40,15 @@ const (
 	SessionIDCookieName = "TLSPROXYSID"
 )
 
-func sessionID(w http.ResponseWriter, req *http.Request) string {
+func sessionID(w http.ResponseWriter, req *http.Request) (string, error) {
 	var sid string
 	if cookie, err := req.Cookie(SessionIDCookieName); err == nil {
 		sid = cookie.Value
 	} else {
 		var buf [16]byte
-		io.ReadFull(rand.Reader, buf[:])
+		if _, err := io.ReadFull(rand.Reader, buf[:]); err != nil {
+			return "", err
+		}
 		sid = hex.EncodeToString(buf[:])
 	}
 	http.SetCookie(w, &http.Cookie{
@@ -58,12 +60,15 @@ func sessionID(w http.ResponseWriter, req *http.Request) string {
 		Secure:   true,
 		HttpOnly: true,
 	})
-	return sid
+	return sid, nil
 }
 
 // URLToken returns a signed token for URL u in the context of request req.
 func (tm *TokenManager) URLToken(w http.ResponseWriter, req *http.Request, u *url.URL, extra map[string]any) (string, string, error) {
-	sid := sessionID(w, req)
+	sid, err := sessionID(w, req)
+	if err != nil {
+		return "", "", err
+	}
 	realHost := u.Host
 	if h, err := idna.Lookup.ToUnicode(u.Hostname()); err == nil {
 		u.Host = h
@@ -91,7 +96,11 @@ func (tm *TokenManager) ValidateURLToken(w http.ResponseWriter, req *http.Reques
 	if !ok {
 		return nil, nil, errors.New("invalid token")
 	}
-	if sid := sessionID(w, req); sid != c["sid"] {
+	sid, err := sessionID(w, req)
+	if err != nil {
+		return nil, nil, err
+	}
+	if sid != c["sid"] {
 		tm.logger.Errorf("ERR session ID mismatch %q != %q", sid, c["sid"])
 		return nil, nil, errors.New("invalid token")
 	}
-- 
2.43.0


From 881bd4ae6264fe583c24110862b5f17186cf2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:56 +0000
Subject: [PATCH 26/27] fix: return an error when there is no key to sign a
 token with

---
 proxy/internal/tokenmanager/tokenmanager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 069c50d..b23d5f4 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -369,6 +369,9 @@ func (tm *TokenManager) CreateToken(claims jwt.Claims, alg string) (string, erro
 			tk = k
 		}
 	}
+	if tk == nil {
+		return "", errors.New("no signing key")
+	}
 	tok := jwt.NewWithClaims(&tpmSigningMethod{method}, claims)
 	tok.Header["kid"] = tk.ID
 	return tok.SignedString(tk.privKey)
-- 
2.43.0


From ca97288d0004f53269cf368769f8d05bac07b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:56 +0000
Subject: [PATCH 27/27] fix: publish EC key coordinates with their full length

---
 proxy/internal/tokenmanager/tokenmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index b23d5f4..85ca334 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -468,8 +468,8 @@ func (tm *TokenManager) ServeJWKS(w http.ResponseWriter, req *http.Request) {
 				ID:    key.ID,
 				Alg:   "ES256",
 				Curve: "P-256",
-				X:     base64.RawURLEncoding.EncodeToString(pub.X.Bytes()),
-				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.Bytes()),
+				X:     base64.RawURLEncoding.EncodeToString(pub.X.FillBytes(make([]byte, 32))),
+				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.FillBytes(make([]byte, 32))),
 			})
 		case ed25519.PublicKey:
 			out.Keys = append(out.Keys, jwk{
-- 
2.43.0

