# Broader refactorings, run against every check.
def w(name, *edits): m("w-" + name, "all", "same", *edits)
BE = "proxy/backend.go"
BS = "proxy/backend-sso.go"
w("handle-serve", (PR, """	switch {
	case be.Mode == ModeTLSPassthrough:
		if err := p.checkIP(conn); err != nil {
			return
		}
		p.handleTLSPassthroughConnection(conn)

	case len(hello.ALPNProtos) == 1 && hello.ALPNProtos[0] == acme.ALPNProto && hello.ServerName != "":
		tc := p.baseTLSConfig()
		tc.NextProtos = []string{acme.ALPNProto}
		p.handleACMEConnection(tls.Server(conn, tc))

	case be.Mode == ModeConsole || be.Mode == ModeLocal || be.Mode == ModeHTTP || be.Mode == ModeHTTPS:
		if err := p.checkIP(conn); err != nil {
			return
		}
		p.handleHTTPConnection(tls.Server(conn, be.tlsConfig))
		closeConnNeeded = false

	case be.Mode == ModeTCP || be.Mode == ModeTLS || be.Mode == ModeQUIC:
		if err := p.checkIP(conn); err != nil {
			return
		}
		p.handleTLSConnection(tls.Server(conn, be.tlsConfig))

	default:
		be.logErrorF("ERR [-] %s: unhandled connection %q", conn.RemoteAddr(), be.Mode)
	}
}
""", """	closeConnNeeded = !p.dispatch(conn, be, hello.ServerName, hello.ALPNProtos)
}

// dispatch serves the connection according to the mode of its backend. It
// returns whether the connection was handed over.
func (p *Proxy) dispatch(conn *netw.Conn, be *Backend, sni string, protos []string) bool {
	if be.Mode != ModeTLSPassthrough && len(protos) == 1 && protos[0] == acme.ALPNProto && sni != "" {
		tc := p.baseTLSConfig()
		tc.NextProtos = []string{acme.ALPNProto}
		p.handleACMEConnection(tls.Server(conn, tc))
		return false
	}
	switch be.Mode {
	case ModeTLSPassthrough, ModeConsole, ModeLocal, ModeHTTP, ModeHTTPS, ModeTCP, ModeTLS, ModeQUIC:
		if p.checkIP(conn) != nil {
			return false
		}
	default:
		be.logErrorF("ERR [-] %s: unhandled connection %q", conn.RemoteAddr(), be.Mode)
		return false
	}
	switch be.Mode {
	case ModeTLSPassthrough:
		p.handleTLSPassthroughConnection(conn)
		return false
	case ModeConsole, ModeLocal, ModeHTTP, ModeHTTPS:
		p.handleHTTPConnection(tls.Server(conn, be.tlsConfig))
		return true
	default:
		p.handleTLSConnection(tls.Server(conn, be.tlsConfig))
		return false
	}
}
"""))
w("handle-track", (PR, """	numOpen := p.inConns.add(conn)
	conn.OnClose(func() {
		p.inConns.remove(conn)
		if be := connBackend(conn); be != nil {
			be.incInFlight(-1)
			if conn.Annotation(reportEndKey, false).(bool) {
				startTime := conn.Annotation(startTimeKey, time.Time{}).(time.Time)
				be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
					formatConnDesc(conn), time.Since(startTime).Truncate(time.Millisecond),
					conn.BytesReceived(), conn.BytesSent())
			}
		}
		// Shutdown checks inConns with mu held.
		p.mu.Lock()
		defer p.mu.Unlock()
		p.connClosed.Broadcast()
	})
	if maxOpen""", """	numOpen := p.trackConn(conn)
	if maxOpen"""), (PR, """func (p *Proxy) handleConnection(conn *netw.Conn) {
""", """// trackConn adds conn to the table of open connections until it is closed.
func (p *Proxy) trackConn(conn *netw.Conn) int {
	numOpen := p.inConns.add(conn)
	conn.OnClose(func() { p.untrackConn(conn) })
	return numOpen
}

func (p *Proxy) untrackConn(conn *netw.Conn) {
	p.inConns.remove(conn)
	if be := connBackend(conn); be != nil {
		be.incInFlight(-1)
		if conn.Annotation(reportEndKey, false).(bool) {
			startTime := conn.Annotation(startTimeKey, time.Time{}).(time.Time)
			be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
				formatConnDesc(conn), time.Since(startTime).Truncate(time.Millisecond),
				conn.BytesReceived(), conn.BytesSent())
		}
	}
	p.mu.Lock()
	p.connClosed.Broadcast()
	p.mu.Unlock()
}

func (p *Proxy) handleConnection(conn *netw.Conn) {
"""))
w("handle-sni", (PR, """	serverName := hello.ServerName
	if serverName == "" {
		p.recordEvent("no SNI")
		serverName = p.defaultServerName()
	}
	conn.SetAnnotation(serverNameKey, serverName)
""", """	serverName := p.serverNameOrDefault(hello.ServerName)
	conn.SetAnnotation(serverNameKey, serverName)
"""), (PR, """func (p *Proxy) defaultServerName() string {
""", """func (p *Proxy) serverNameOrDefault(sni string) string {
	if sni != "" {
		return sni
	}
	p.recordEvent("no SNI")
	return p.defaultServerName()
}

func (p *Proxy) defaultServerName() string {
"""))
w("backend-split", (PR, """	var be *Backend
	var ok bool
	for _, proto := range protos {
		if be, ok = p.backends[beKey{serverName: serverName, proto: proto}]; ok {
			break
		}
	}
	if !ok {
		be, ok = p.backends[beKey{serverName: serverName}]
	}
	if !ok {
		return nil, errors.New("unexpected SNI")
	}
	be.state.mu.Lock()
	defer be.state.mu.Unlock()
	if be.state.shutdown {
		return nil, errors.New("backend shutdown")
	}
	return be, nil
}
""", """	be := p.lookupBackendLocked(serverName, protos)
	if be == nil {
		return nil, errors.New("unexpected SNI")
	}
	if be.isShutdown() {
		return nil, errors.New("backend shutdown")
	}
	return be, nil
}

func (p *Proxy) lookupBackendLocked(serverName string, protos []string) *Backend {
	for _, proto := range protos {
		if be, ok := p.backends[beKey{serverName: serverName, proto: proto}]; ok {
			return be
		}
	}
	return p.backends[beKey{serverName: serverName}]
}

func (be *Backend) isShutdown() bool {
	be.state.mu.Lock()
	defer be.state.mu.Unlock()
	return be.state.shutdown
}
"""))
w("authorize-any", (BE, """	for _, v := range cert.DNSNames {
		if slices.Contains(*be.ClientAuth.ACL, "DNS:"+v) {
			return nil
		}
	}
	for _, v := range cert.EmailAddresses {
		if slices.Contains(*be.ClientAuth.ACL, "EMAIL:"+v) {
			return nil
		}
	}
	for _, v := range cert.URIs {
		if slices.Contains(*be.ClientAuth.ACL, "URI:"+v.String()) {
			return nil
		}
	}
	return tlsAccessDenied
}
""", """	var ids []string
	for _, v := range cert.DNSNames {
		ids = append(ids, "DNS:"+v)
	}
	for _, v := range cert.EmailAddresses {
		ids = append(ids, "EMAIL:"+v)
	}
	for _, v := range cert.URIs {
		ids = append(ids, "URI:"+v.String())
	}
	for _, id := range ids {
		if slices.Contains(*be.ClientAuth.ACL, id) {
			return nil
		}
	}
	return tlsAccessDenied
}
"""))
w("authorize-helper", (BE, """	for _, v := range cert.DNSNames {
		if slices.Contains(*be.ClientAuth.ACL, "DNS:"+v) {
			return nil
		}
	}
	for _, v := range cert.EmailAddresses {
		if slices.Contains(*be.ClientAuth.ACL, "EMAIL:"+v) {
			return nil
		}
	}
""", """	if aclHasAny(*be.ClientAuth.ACL, "DNS:", cert.DNSNames) || aclHasAny(*be.ClientAuth.ACL, "EMAIL:", cert.EmailAddresses) {
		return nil
	}
"""), (BE, """func (be *Backend) checkIP(""", """func aclHasAny(acl []string, prefix string, values []string) bool {
	for _, v := range values {
		if slices.Contains(acl, prefix+v) {
			return true
		}
	}
	return false
}

func (be *Backend) checkIP("""))
w("checkip-contains", (BE, """	if be.denyIPs != nil {
		for _, n := range *be.denyIPs {
			if n.Contains(ip) {
				return errAccessDenied
			}
		}
	}
	if be.allowIPs != nil {
		for _, n := range *be.allowIPs {
			if n.Contains(ip) {
				return nil
			}
		}
		return errAccessDenied
	}
	return nil
}
""", """	if be.denyIPs != nil && anyContains(*be.denyIPs, ip) {
		return errAccessDenied
	}
	if be.allowIPs != nil && !anyContains(*be.allowIPs, ip) {
		return errAccessDenied
	}
	return nil
}

func anyContains(nets []*net.IPNet, ip net.IP) bool {
	for _, n := range nets {
		if n.Contains(ip) {
			return true
		}
	}
	return false
}
"""))
w("checkip-func", (BE, """		for _, n := range *be.denyIPs {
			if n.Contains(ip) {
				return errAccessDenied
			}
		}
	}
""", """		if slices.ContainsFunc(*be.denyIPs, func(n *net.IPNet) bool { return n.Contains(ip) }) {
			return errAccessDenied
		}
	}
"""))
w("checkip-addr", (BE, """	var ip net.IP
	switch a := addr.(type) {
	case *net.TCPAddr:
		ip = a.IP
	case *net.UDPAddr:
		ip = a.IP
	default:
		return fmt.Errorf("can't get IP address from %T", addr)
	}
""", """	ip, err := ipFromAddr(addr)
	if err != nil {
		return err
	}
"""), (BE, """func (be *Backend) checkIP(""", """func ipFromAddr(addr net.Addr) (net.IP, error) {
	switch a := addr.(type) {
	case *net.TCPAddr:
		return a.IP, nil
	case *net.UDPAddr:
		return a.IP, nil
	}
	return nil, fmt.Errorf("can't get IP address from %T", addr)
}

func (be *Backend) checkIP("""))
w("authz-tls", (PR, """	annotatedConn(conn).SetAnnotation(handshakeDoneKey, time.Now())
	cs := conn.ConnectionState()
	if (cs.ServerName == "" && serverName != p.defaultServerName()) || (cs.ServerName != "" && cs.ServerName != serverName) {
		p.recordEvent("mismatched server name")
		be.logErrorF("BAD [-] %s ➔ %q Mismatched server name", conn.RemoteAddr(), serverName)
		return false
	}
	proto := cs.NegotiatedProtocol
	var clientCert *x509.Certificate
	if len(cs.PeerCertificates) > 0 {
		clientCert = cs.PeerCertificates[0]
	}
	annotatedConn(conn).SetAnnotation(protoKey, proto)
	annotatedConn(conn).SetAnnotation(clientCertKey, clientCert)
""", """	ac := annotatedConn(conn)
	ac.SetAnnotation(handshakeDoneKey, time.Now())
	cs := conn.ConnectionState()
	clientCert := leafCert(cs)
	actual := cs.ServerName
	if actual == "" {
		actual = p.defaultServerName()
	}
	if actual != serverName {
		p.recordEvent("mismatched server name")
		be.logErrorF("BAD [-] %s ➔ %q Mismatched server name", conn.RemoteAddr(), serverName)
		return false
	}
	ac.SetAnnotation(protoKey, cs.NegotiatedProtocol)
	ac.SetAnnotation(clientCertKey, clientCert)
"""), (PR, """func (p *Proxy) handleHTTPConnection(""", """func leafCert(cs tls.ConnectionState) *x509.Certificate {
	if len(cs.PeerCertificates) == 0 {
		return nil
	}
	return cs.PeerCertificates[0]
}

func (p *Proxy) handleHTTPConnection("""))
w("authz-fail", (PR, """		switch {
		case err.Error() == "tls: client didn't provide a certificate":
			p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(serverName)))
		case errors.Is(err, tlsAccessDenied):
			p.recordEvent("access denied")
		case errors.Is(err, tlsCertificateRevoked):
			p.recordEvent("cert is revoked")
		default:
			p.recordEvent("tls handshake failed")
		}
		be.logErrorF("BAD [-] %s ➔ %q Handshake: %v", conn.RemoteAddr(), idnaToUnicode(serverName), unwrapErr(err))
		return false
""", """		p.recordHandshakeError(serverName, err)
		be.logErrorF("BAD [-] %s ➔ %q Handshake: %v", conn.RemoteAddr(), idnaToUnicode(serverName), unwrapErr(err))
		return false
"""), (PR, """func (p *Proxy) handleHTTPConnection(""", """func (p *Proxy) recordHandshakeError(serverName string, err error) {
	if err.Error() == "tls: client didn't provide a certificate" {
		p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(serverName)))
	} else if errors.Is(err, tlsAccessDenied) {
		p.recordEvent("access denied")
	} else if errors.Is(err, tlsCertificateRevoked) {
		p.recordEvent("cert is revoked")
	} else {
		p.recordEvent("tls handshake failed")
	}
}

func (p *Proxy) handleHTTPConnection("""))
w("http-conn-order", (PR, """	if be.Mode != ModeConsole && be.Mode != ModeLocal && be.Mode != ModeHTTP && be.Mode != ModeHTTPS {
		p.recordEvent("wrong mode")
		be.logErrorF("ERR [-] %s ➔  %q Mode is not [CONSOLE, LOCAL, HTTP, HTTPS]", conn.RemoteAddr(), idnaToUnicode(serverName))
		conn.Close()
		return
	}
	if be.httpConnChan == nil {
		p.recordEvent("conn chan nil")
		be.logErrorF("ERR [-] %s ➔  %q conn channel is nil", conn.RemoteAddr(), idnaToUnicode(serverName))
		conn.Close()
		return
	}
""", """	fail := func(event, msg string) {
		p.recordEvent(event)
		be.logErrorF("ERR [-] %s ➔  %q %s", conn.RemoteAddr(), idnaToUnicode(serverName), msg)
		conn.Close()
	}
	switch be.Mode {
	case ModeConsole, ModeLocal, ModeHTTP, ModeHTTPS:
	default:
		fail("wrong mode", "Mode is not [CONSOLE, LOCAL, HTTP, HTTPS]")
		return
	}
	if be.httpConnChan == nil {
		fail("conn chan nil", "conn channel is nil")
		return
	}
"""))
w("tls-end-log", (PR, """	startTime := annotatedConn(extConn).Annotation(startTimeKey, time.Time{}).(time.Time)
	hsTime := annotatedConn(extConn).Annotation(handshakeDoneKey, time.Time{}).(time.Time)
	dialTime := annotatedConn(extConn).Annotation(dialDoneKey, time.Time{}).(time.Time)
	totalTime := time.Since(startTime).Truncate(time.Millisecond)

	be.logConnF("END %s; HS:%s Dial:%s Dur:%s Recv:%d Sent:%d", desc,
		hsTime.Sub(startTime).Truncate(time.Millisecond),
		dialTime.Sub(hsTime).Truncate(time.Millisecond), totalTime,
		annotatedConn(extConn).BytesReceived(), annotatedConn(extConn).BytesSent())
}
""", """	be.logEnd(desc, annotatedConn(extConn))
}

func (be *Backend) logEnd(desc string, c annotatedConnection) {
	startTime := c.Annotation(startTimeKey, time.Time{}).(time.Time)
	hsTime := c.Annotation(handshakeDoneKey, time.Time{}).(time.Time)
	dialTime := c.Annotation(dialDoneKey, time.Time{}).(time.Time)
	be.logConnF("END %s; HS:%s Dial:%s Dur:%s Recv:%d Sent:%d", desc,
		hsTime.Sub(startTime).Truncate(time.Millisecond),
		dialTime.Sub(hsTime).Truncate(time.Millisecond), time.Since(startTime).Truncate(time.Millisecond),
		c.BytesReceived(), c.BytesSent())
}
"""))
w("bridge-go2", (BE, """	ch := make(chan error)
	go func() {
		ch <- forward(client, server, serverClose, timeout)
	}()
	var retErr error
	if err := forward(server, client, clientClose, timeout); err != nil && !errors.Is(err, net.ErrClosed) {
		retErr = fmt.Errorf("[ext➔ int]: %w", unwrapErr(err))
	}
	if err := <-ch; err != nil && !errors.Is(err, net.ErrClosed) {
		retErr = fmt.Errorf("[int➔ ext]: %w", unwrapErr(err))
	}
	return retErr
}
""", """	var wg sync.WaitGroup
	var inErr, outErr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		inErr = forward(client, server, serverClose, timeout)
	}()
	outErr = forward(server, client, clientClose, timeout)
	wg.Wait()
	if inErr != nil && !errors.Is(inErr, net.ErrClosed) {
		return fmt.Errorf("[int➔ ext]: %w", unwrapErr(inErr))
	}
	if outErr != nil && !errors.Is(outErr, net.ErrClosed) {
		return fmt.Errorf("[ext➔ int]: %w", unwrapErr(outErr))
	}
	return nil
}
"""), (BE, "	\"time\"\n", "	\"sync\"\n	\"time\"\n"))
w("bridge-opts", (BE, """	serverClose := true
	if be.ServerCloseEndsConnection != nil {
		serverClose = *be.ServerCloseEndsConnection
	}
	clientClose := false
	if be.ClientCloseEndsConnection != nil {
		clientClose = *be.ClientCloseEndsConnection
	}
	timeout := time.Minute
	if be.HalfCloseTimeout != nil {
		timeout = *be.HalfCloseTimeout
	}
	ch""", """	serverClose := valueOr(be.ServerCloseEndsConnection, true)
	clientClose := valueOr(be.ClientCloseEndsConnection, false)
	timeout := valueOr(be.HalfCloseTimeout, time.Minute)
	ch"""), (BE, """func (be *Backend) bridgeConns(""", """func valueOr[T any](p *T, def T) T {
	if p == nil {
		return def
	}
	return *p
}

func (be *Backend) bridgeConns("""))
w("forward-close", (BE, """	if _, err := io.Copy(out, in); err != nil || closeWhenDone {
		out.Close()
		in.Close()
		return err
	}
	if err := closeWrite(out); err != nil {
		out.Close()
		in.Close()
		return nil
	}
	if err := closeRead(in); err != nil {
		out.Close()
		in.Close()
		return nil
	}
""", """	closeBoth := func() {
		out.Close()
		in.Close()
	}
	_, err := io.Copy(out, in)
	if err != nil || closeWhenDone {
		closeBoth()
		return err
	}
	if closeWrite(out) != nil || closeRead(in) != nil {
		closeBoth()
		return nil
	}
"""))
w("auth-user-flat", (BS, """	if be.SSO != nil {
		claims, cont := be.checkCookies(w, *req)
		if !cont {
			return false
		}
		if claims != nil {
			if email, ok := claims["email"].(string); ok && email != "" {
				if be.SSO.SetUserIDHeader {
					(*req).Header.Set(xTLSProxyUserIDHeader, email)
				}
				*req = (*req).WithContext(context.WithValue((*req).Context(), authCtxKey, claims))
			}
		}
	}
	return true
}
""", """	if be.SSO == nil {
		return true
	}
	claims, cont := be.checkCookies(w, *req)
	if !cont {
		return false
	}
	email := emailFrom(claims)
	if email == "" {
		return true
	}
	if be.SSO.SetUserIDHeader {
		(*req).Header.Set(xTLSProxyUserIDHeader, email)
	}
	*req = (*req).WithContext(context.WithValue((*req).Context(), authCtxKey, claims))
	return true
}

func emailFrom(claims jwt.MapClaims) string {
	if claims == nil {
		return ""
	}
	email, _ := claims["email"].(string)
	return email
}
"""))
w("cookies-redirect", (BS, """	// The absolute URL is required. A path that starts with // would be a
	// redirect to another site.
	here := *req.URL
	here.Scheme = "https"
	here.Host = req.Host
	http.Redirect(w, req, here.String(), http.StatusFound)
	return nil, false
}
""", """	http.Redirect(w, req, absoluteURL(req), http.StatusFound)
	return nil, false
}

// absoluteURL returns the URL of the request with its scheme and host.
func absoluteURL(req *http.Request) string {
	here := *req.URL
	here.Scheme = "https"
	here.Host = req.Host
	return here.String()
}
"""))
w("cookies-order", (BS, """	if !be.SSO.GenerateIDTokens {
		return authClaims, true
	}

	if !slices.Contains(be.ServerNames, hostFromReq(req)) {
		return authClaims, true
	}

	if err := be.SSO.cm.ValidateIDTokenCookie(req, authToken); err == nil {
		// Token is already set, and is valid.
		return authClaims, true
	}
""", """	needIDToken := be.SSO.GenerateIDTokens && slices.Contains(be.ServerNames, hostFromReq(req)) &&
		be.SSO.cm.ValidateIDTokenCookie(req, authToken) != nil
	if !needIDToken {
		return authClaims, true
	}
"""))
w("login-hint", (BS, """	req.ParseForm()
	tok := req.Form.Get("redirect")
	if tok == "" {
		http.Error(w, "invalid request", http.StatusBadRequest)
		return
	}
	url, claims, err := be.tm.ValidateURLToken(w, req, tok)
	if err != nil {
		http.Error(w, "invalid request", http.StatusBadRequest)
		return
	}
	var email string
	if e, ok := claims["email"].(string); ok {
		email = e
	}
	be.SSO.p.RequestLogin(w, req, url.String(), idp.WithLoginHint(email))
""", """	tok := req.FormValue("redirect")
	target, claims, err := be.tm.ValidateURLToken(w, req, tok)
	if tok == "" || err != nil {
		http.Error(w, "invalid request", http.StatusBadRequest)
		return
	}
	email, _ := claims["email"].(string)
	be.SSO.p.RequestLogin(w, req, target.String(), idp.WithLoginHint(email))
"""))
w("sso-needs-auth", (BS, """	claims := claimsFromCtx(req.Context())
	var iat time.Time
	if claims != nil {
		if p, _ := claims.GetIssuedAt(); p != nil {
			iat = p.Time
		}
	}
	hh := sha256.Sum256([]byte(req.Host))
	// Request authentication when:
	// * the user isn't logged in, or
	// * the backend has ForceReAuth set, and the last authentication
	//   either on a different host, or too long ago.
	if claims == nil || (be.SSO.ForceReAuth != 0 && (claims["hhash"] != hex.EncodeToString(hh[:]) || time.Since(iat) > be.SSO.ForceReAuth)) {
""", """	claims := claimsFromCtx(req.Context())
	if be.mustAuthenticate(claims, req.Host) {
"""), (BS, """func (be *Backend) enforceSSOPolicy(""", """// mustAuthenticate returns whether the user must log in (again).
func (be *Backend) mustAuthenticate(claims jwt.MapClaims, host string) bool {
	if claims == nil {
		return true
	}
	if be.SSO.ForceReAuth == 0 {
		return false
	}
	hh := sha256.Sum256([]byte(host))
	if claims["hhash"] != hex.EncodeToString(hh[:]) {
		return true
	}
	var iat time.Time
	if p, _ := claims.GetIssuedAt(); p != nil {
		iat = p.Time
	}
	return time.Since(iat) > be.SSO.ForceReAuth
}

func (be *Backend) enforceSSOPolicy("""))
w("static-hidden", (BH, """	for _, pp := range strings.Split(p, "/") {
		if strings.HasPrefix(pp, ".") || strings.Contains(pp, `\\\\`) {
			notFound()
			return
		}
	}
""".replace("\\\\\\\\","\\\\").replace("\\\\","\\"), """	if hasHiddenElement(p) {
		notFound()
		return
	}
"""), (BH, """func (be *Backend) serveStaticFiles(""", """func hasHiddenElement(p string) bool {
	for _, pp := range strings.Split(p, "/") {
		if strings.HasPrefix(pp, ".") {
			return true
		}
		if strings.Contains(pp, "\\\\") {
			return true
		}
	}
	return false
}

func (be *Backend) serveStaticFiles("""))
w("static-log", (BH, """	notFound := func() {
		be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL, http.StatusNotFound, userAgent(req))
		http.NotFound(w, req)
	}
""", """	logStatus := func(code int) {
		be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL, code, userAgent(req))
	}
	notFound := func() {
		logStatus(http.StatusNotFound)
		http.NotFound(w, req)
	}
"""), (BH, """	if req.Method != http.MethodGet && req.Method != http.MethodHead {
		code = http.StatusSeeOther""", """	if !(req.Method == http.MethodGet || req.Method == http.MethodHead) {
		code = http.StatusSeeOther"""))
w("rp-server-name", (BH, """		host := req.Host
		if host == "" {
			host = serverName
		}
		req.URL.Host = host
		req.Header.Set(hostHeader, host)

		req.URL.Scheme = "https"
		if be.Mode == ModeHTTP {
			req.URL.Scheme = "http"
		}

		if !slices.Contains(be.ServerNames, req.URL.Hostname()) {
			if req.Body != nil {
				req.Body.Close()
			}
			http.Error(w, "Misdirected Request", http.StatusMisdirectedRequest)
			return
		}
""", """		if !be.setTarget(req, serverName) {
			if req.Body != nil {
				req.Body.Close()
			}
			http.Error(w, "Misdirected Request", http.StatusMisdirectedRequest)
			return
		}
"""), (BH, """// reverseProxy returns an HTTP handler for""", """// setTarget sets the URL of the request and returns whether it is for one of
// the server names of the backend.
func (be *Backend) setTarget(req *http.Request, serverName string) bool {
	host := req.Host
	if host == "" {
		host = serverName
	}
	req.URL.Host = host
	req.Header.Set(hostHeader, host)
	if be.Mode == ModeHTTP {
		req.URL.Scheme = "http"
	} else {
		req.URL.Scheme = "https"
	}
	return slices.Contains(be.ServerNames, req.URL.Hostname())
}

// reverseProxy returns an HTTP handler for"""))
w("rp-loop", (BH, """		var hops []string
		if h := req.Header.Get(viaHeader); h != "" {
			hops = commaRE.Split(h, -1)
		}
		for _, via := range hops {
			if _, via, _ = strings.Cut(via, " "); via == me {
				if req.Body != nil {
					req.Body.Close()
				}
				http.Error(w, req.Header.Get(viaHeader), http.StatusLoopDetected)
				return
			}
		}
""", """		hops := viaHops(req)
		if isLoop(hops, me) {
			if req.Body != nil {
				req.Body.Close()
			}
			http.Error(w, req.Header.Get(viaHeader), http.StatusLoopDetected)
			return
		}
"""), (BH, """// reverseProxy returns an HTTP handler for""", """func viaHops(req *http.Request) []string {
	h := req.Header.Get(viaHeader)
	if h == "" {
		return nil
	}
	return commaRE.Split(h, -1)
}

func isLoop(hops []string, me string) bool {
	for _, hop := range hops {
		if _, via, _ := strings.Cut(hop, " "); via == me {
			return true
		}
	}
	return false
}

// reverseProxy returns an HTTP handler for"""))
w("rp-serve", (BH, """		if !be.authenticateUser(w, &req) {
			return
		}
		if !be.handleLocalEndpointsAndAuthorize(w, req) {
			return
		}

		// Verify""", """		if !be.prepare(w, &req) {
			return
		}

		// Verify"""), (BH, """		if !be.authenticateUser(w, &req) {
			return
		}
		if !be.handleLocalEndpointsAndAuthorize(w, req) {
			return
		}
		be.serveStaticFiles""", """		if !be.prepare(w, &req) {
			return
		}
		be.serveStaticFiles"""), (BH, """// reverseProxy returns an HTTP handler for""", """func (be *Backend) prepare(w http.ResponseWriter, req **http.Request) bool {
	return be.authenticateUser(w, req) && be.handleLocalEndpointsAndAuthorize(w, *req)
}

// reverseProxy returns an HTTP handler for"""))
w("rp-hostkey", (BH, """		hostKey := bytes.NewBufferString(serverName + ";" + override)
		if proxyProtoVersion > 0 {
			hostKey.WriteByte(';')
			writeProxyHeader(proxyProtoVersion, hostKey, req.Context().Value(connCtxKey).(anyConn))
		}
		h := sha256.Sum256(hostKey.Bytes())
		req.URL.Host = hex.EncodeToString(h[:])
""", """		req.URL.Host = poolKey(serverName, override, proxyProtoVersion, req.Context().Value(connCtxKey).(anyConn))
"""), (BH, """// reverseProxy returns an HTTP handler for""", """func poolKey(serverName, override string, proxyProtoVersion byte, conn anyConn) string {
	var buf bytes.Buffer
	buf.WriteString(serverName + ";" + override)
	if proxyProtoVersion > 0 {
		buf.WriteByte(';')
		writeProxyHeader(proxyProtoVersion, &buf, conn)
	}
	h := sha256.Sum256(buf.Bytes())
	return hex.EncodeToString(h[:])
}

// reverseProxy returns an HTTP handler for"""))
