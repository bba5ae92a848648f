_ra = "func (p *Proxy) reAuthorize() {"
w("pr-reauth", (PR, """	for _, conn := range p.inConns.slice() {
		if !connServerNameIsSet(conn) {
			continue
		}
		serverName""", """	for _, conn := range p.inConns.slice() {
		if !p.stillAllowed(conn) {
			conn.Close()
		}
	}
}

func (p *Proxy) stillAllowed(conn annotatedConnection) bool {
		if !connServerNameIsSet(conn) {
			return true
		}
		serverName"""), (PR, """ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
			conn.Close()
			continue
""", """ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
			return false
"""), (PR, """oldBE.Mode, be.Mode)
			conn.Close()
			continue
""", """oldBE.Mode, be.Mode)
			return false
"""), (PR, """ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
			conn.Close()
			continue
""", """ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
			return false
"""), (PR, """		if be.ClientAuth == nil {
			continue
		}
		clientCert := connClientCert(conn)
		if err := be.authorize(clientCert); err != nil {
			p.recordEvent(err.Error())
			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
			conn.Close()
			continue
		}
	}
}
""", """		if be.ClientAuth == nil {
			return true
		}
		clientCert := connClientCert(conn)
		if err := be.authorize(clientCert); err != nil {
			p.recordEvent(err.Error())
			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
			return false
		}
		return true
}
"""))
w("pr-handlers", (PR, """	for _, be := range cfg.Backends {
		var handler func() http.Handler
		switch be.Mode {
		case ModeConsole, ModeLocal:
			handler = be.localHandler
		case ModeHTTPS, ModeHTTP:
			handler = be.reverseProxy
		default:
			continue
		}
		be.httpConnChan = make(chan net.Conn)
		be.httpServer = startInternalHTTPServer(handler(), be.httpConnChan)
		if *cfg.EnableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
			be.http3Server = http3Server(handler())
		}
	}
""", """	for _, be := range cfg.Backends {
		be.startServers(*cfg.EnableQUIC)
	}
"""), (PR, _ra, """func (be *Backend) startServers(enableQUIC bool) {
	var handler func() http.Handler
	switch be.Mode {
	case ModeConsole, ModeLocal:
		handler = be.localHandler
	case ModeHTTPS, ModeHTTP:
		handler = be.reverseProxy
	default:
		return
	}
	be.httpConnChan = make(chan net.Conn)
	be.httpServer = startInternalHTTPServer(handler(), be.httpConnChan)
	if enableQUIC && be.ALPNProtos != nil && slices.Contains(*be.ALPNProtos, "h3") {
		be.http3Server = http3Server(handler())
	}
}

""" + _ra))
w("pr-pkis", (PR, """	pkis := make(map[string]*pki.PKIManager)
	for _, pp := range cfg.PKI {
		opts := pki.Options{
			Name:                  pp.Name,
			KeyType:               pp.KeyType,
			Endpoint:              pp.Endpoint,
			IssuingCertificateURL: pp.IssuingCertificateURLs,
			CRLDistributionPoints: pp.CRLDistributionPoints,
			OCSPServer:            pp.OCSPServer,
			Admins:                pp.Admins,
			TPM:                   p.tpm,
			Store:                 p.store,
			EventRecorder:         er,
			ClaimsFromCtx:         claimsFromCtx,
		}
		m, err := pki.New(opts)
		if err != nil {
			return err
		}
		pkis[pp.Name] = m
	}
""", """	pkis, err := p.newPKIs(cfg, er)
	if err != nil {
		return err
	}
"""), (PR, _ra, """func (p *Proxy) newPKIs(cfg *Config, er eventRecorder) (map[string]*pki.PKIManager, error) {
	pkis := make(map[string]*pki.PKIManager)
	for _, pp := range cfg.PKI {
		m, err := pki.New(pki.Options{
			Name:                  pp.Name,
			KeyType:               pp.KeyType,
			Endpoint:              pp.Endpoint,
			IssuingCertificateURL: pp.IssuingCertificateURLs,
			CRLDistributionPoints: pp.CRLDistributionPoints,
			OCSPServer:            pp.OCSPServer,
			Admins:                pp.Admins,
			TPM:                   p.tpm,
			Store:                 p.store,
			EventRecorder:         er,
			ClaimsFromCtx:         claimsFromCtx,
		})
		if err != nil {
			return nil, err
		}
		pkis[pp.Name] = m
	}
	return pkis, nil
}

""" + _ra))
w("pr-curcfg", (PR, """	p.mu.RLock()
	curCfg := p.cfg
	p.mu.RUnlock()
	if cfg.equal(curCfg) {
""", """	if cfg.equal(p.config()) {
"""))
w("pr-swap", (PR, """	p.bwLimits = bwLimits
	p.defServerName = cfg.DefaultServerName
	p.backends = backends
	p.pkis = pkis
	p.cfg = cfg
	p.logFilter.Store(&cfg.LogFilter)
	go p.reAuthorize()
""", """	p.install(cfg, backends, pkis, bwLimits)
	go p.reAuthorize()
"""), (PR, _ra, """// install makes a configuration current. p.mu must be held.
func (p *Proxy) install(cfg *Config, backends map[beKey]*Backend, pkis map[string]*pki.PKIManager, bw map[string]*bwLimit) {
	p.logFilter.Store(&cfg.LogFilter)
	p.cfg = cfg
	p.backends = backends
	p.defServerName = cfg.DefaultServerName
	p.pkis = pkis
	p.bwLimits = bw
}

""" + _ra))
w("pr-getcert", (PR, """		if slices.IndexFunc(c.ServerNames, func(v string) bool {
			if v == serverName {
				return true
			}
			if matched, err := path.Match(v, serverName); err == nil && matched {
				return true
			}
			return false
		}) < 0 {
			continue
		}
""", """		if !matchesAny(c.ServerNames, serverName) {
			continue
		}
"""), (PR, _ra, """func matchesAny(patterns []string, name string) bool {
	for _, v := range patterns {
		if v == name {
			return true
		}
		if ok, err := path.Match(v, name); err == nil && ok {
			return true
		}
	}
	return false
}

""" + _ra))
w("pr-staple", (PR, """		if len(cert.Certificate) < 2 {
			return cert, nil
		}
		if cert.Leaf == nil {
			c, err := x509.ParseCertificate(cert.Certificate[0])
			if err != nil {
				return nil, err
			}
			cert.Leaf = c
		}
		issuer, err := x509.ParseCertificate(cert.Certificate[1])
		if err != nil {
			return nil, err
		}
		if ocspResp, err := p.ocspCache.Response(cert.Leaf, issuer, time.Hour); err == nil && ocspResp.Status == ocsp.Good {
			cert.OCSPStaple = ocspResp.Raw
		} else {
			p.recordEvent("ocsp staple error for " + idnaToUnicode(hello.ServerName))
		}
		return cert, nil
""", """		if err := p.staple(cert, hello.ServerName); err != nil {
			return nil, err
		}
		return cert, nil
"""), (PR, _ra, """func (p *Proxy) staple(cert *tls.Certificate, name string) error {
	if len(cert.Certificate) < 2 {
		return nil
	}
	if cert.Leaf == nil {
		c, err := x509.ParseCertificate(cert.Certificate[0])
		if err != nil {
			return err
		}
		cert.Leaf = c
	}
	issuer, err := x509.ParseCertificate(cert.Certificate[1])
	if err != nil {
		return err
	}
	resp, err := p.ocspCache.Response(cert.Leaf, issuer, time.Hour)
	if err != nil || resp.Status != ocsp.Good {
		p.recordEvent("ocsp staple error for " + idnaToUnicode(name))
		return nil
	}
	cert.OCSPStaple = resp.Raw
	return nil
}

""" + _ra))
w("pr-shutdown", (PR, """		connLeft := func() bool {
			for _, c := range p.inConns.slice() {
				if mode := connMode(c); mode != ModeTCP && mode != ModeTLS && mode != ModeTLSPassthrough {
					return true
				}
			}
			return false
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		for connLeft() {
			p.connClosed.Wait()
		}
		close(done)
""", """		defer close(done)
		p.mu.Lock()
		defer p.mu.Unlock()
		for p.busy() {
			p.connClosed.Wait()
		}
"""), (PR, _ra, """func (p *Proxy) busy() bool {
	return slices.ContainsFunc(p.inConns.slice(), func(c annotatedConnection) bool {
		switch connMode(c) {
		case ModeTCP, ModeTLS, ModeTLSPassthrough:
			return false
		}
		return true
	})
}

""" + _ra))
w("pr-onclose", (PR, """	conn.OnClose(func() {
		p.inConns.remove(conn)
		if be := connBackend(conn); be != nil {
			be.incInFlight(-1)
			if conn.Annotation(reportEndKey, false).(bool) {
				startTime := conn.Annotation(startTimeKey, time.Time{}).(time.Time)
				be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
					formatConnDesc(conn), time.Since(startTime).Truncate(time.Millisecond),
					conn.BytesReceived(), conn.BytesSent())
			}
		}
		// Shutdown checks inConns with mu held.
		p.mu.Lock()
		defer p.mu.Unlock()
		p.connClosed.Broadcast()
	})
""", """	conn.OnClose(func() { p.connDone(conn) })
"""), (PR, _ra, """func (p *Proxy) connDone(conn *netw.Conn) {
	p.inConns.remove(conn)
	if be := connBackend(conn); be != nil {
		be.incInFlight(-1)
		if conn.Annotation(reportEndKey, false).(bool) {
			startTime := conn.Annotation(startTimeKey, time.Time{}).(time.Time)
			be.logConnF("END %s; Dur:%s Recv:%d Sent:%d",
				formatConnDesc(conn), time.Since(startTime).Truncate(time.Millisecond),
				conn.BytesReceived(), conn.BytesSent())
		}
	}
	// Shutdown checks inConns with mu held.
	p.mu.Lock()
	p.connClosed.Broadcast()
	p.mu.Unlock()
}

""" + _ra))
w("pr-lookup", (PR, """	var be *Backend
	var ok bool
	for _, proto := range protos {
		if be, ok = p.backends[beKey{serverName: serverName, proto: proto}]; ok {
			break
		}
	}
	if !ok {
		be, ok = p.backends[beKey{serverName: serverName}]
	}
	if !ok {
		return nil, errors.New("unexpected SNI")
	}
""", """	be := p.find(serverName, protos)
	if be == nil {
		return nil, errors.New("unexpected SNI")
	}
"""), (PR, _ra, """// find returns the backend for a server name. p.mu must be held.
func (p *Proxy) find(serverName string, protos []string) *Backend {
	for _, proto := range protos {
		if be, ok := p.backends[beKey{serverName: serverName, proto: proto}]; ok {
			return be
		}
	}
	return p.backends[beKey{serverName: serverName}]
}

""" + _ra))
w("pr-lookup2", (PR, """	for _, proto := range protos {
		if be, ok = p.backends[beKey{serverName: serverName, proto: proto}]; ok {
			break
		}
	}
	if !ok {
		be, ok = p.backends[beKey{serverName: serverName}]
	}
	if !ok {
		return nil, errors.New("unexpected SNI")
	}
""", """	for _, proto := range append(slices.Clone(protos), "") {
		if be, ok = p.backends[beKey{serverName: serverName, proto: proto}]; ok {
			break
		}
	}
	if !ok {
		return nil, errors.New("unexpected SNI")
	}
"""))
w("pr-names", (PR, """	cs := conn.ConnectionState()
	if (cs.ServerName == "" && serverName != p.defaultServerName()) || (cs.ServerName != "" && cs.ServerName != serverName) {
		p.rec""", """	cs := conn.ConnectionState()
	got := cs.ServerName
	if got == "" {
		got = p.defaultServerName()
	}
	if got != serverName {
		p.rec"""))
w("pr-trust", (PR, """	p.mu.RLock()
	defer p.mu.RUnlock()
	tcpAddr, ok := addr.(*net.TCPAddr)
	if !ok {
		return false
	}
	for _, n := range p.cfg.acceptProxyHeaderFrom {
		if n.Contains(tcpAddr.IP) {
			return true
		}
	}
	return false
""", """	tcpAddr, ok := addr.(*net.TCPAddr)
	if !ok {
		return false
	}
	return slices.ContainsFunc(p.config().acceptProxyHeaderFrom, func(n *net.IPNet) bool {
		return n.Contains(tcpAddr.IP)
	})
"""))
w("pr-maxopen", (PR, """	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {
		p.rec""", """	if p.tooBusy(numOpen) {
		maxOpen := p.config().MaxOpen
		p.rec"""), (PR, _ra, """func (p *Proxy) tooBusy(n int) bool {
	return n >= p.config().MaxOpen
}

""" + _ra))
w("pr-idps", (PR, """		identityProviders[pp.Name] = idp{
			name:             pp.Name,
			identityProvider: provider,
			callback:         pp.RedirectURL,
			domain:           pp.Domain,
			cm:               cm,
			actualIDP:        guessIDP(pp.AuthEndpoint),
		}
""", """		v := idp{name: pp.Name, identityProvider: provider, domain: pp.Domain}
		v.callback = pp.RedirectURL
		v.cm = cm
		v.actualIDP = guessIDP(pp.AuthEndpoint)
		identityProviders[pp.Name] = v
"""))
w("pr-issuer", (PR, """		_, host, _, _ := hostAndPath(pp.RedirectURL)
		issuer := "https://" + host + "/"
		cm := cookiemanager.New(p.tokenManager, pp.Name, pp.Domain, issuer)
""", """		cm := p.newCookieManager(pp.Name, pp.Domain, pp.RedirectURL)
"""), (PR, """		_, host, _, _ := hostAndPath(pp.ACSURL)
		issuer := "https://" + host + "/"
		cm := cookiemanager.New(p.tokenManager, pp.Name, pp.Domain, issuer)
""", """		cm := p.newCookieManager(pp.Name, pp.Domain, pp.ACSURL)
"""), (PR, """		_, host, _, _ := hostAndPath(pp.Endpoint)
		issuer := "https://" + host + "/"
		cm := cookiemanager.New(p.tokenManager, pp.Name, pp.Domain, issuer)
""", """		cm := p.newCookieManager(pp.Name, pp.Domain, pp.Endpoint)
"""), (PR, _ra, """func (p *Proxy) newCookieManager(name, domain, endpoint string) *cookiemanager.CookieManager {
	_, host, _, _ := hostAndPath(endpoint)
	return cookiemanager.New(p.tokenManager, name, domain, "https://"+host+"/")
}

""" + _ra))
# QUIC
w("qu-onclose", (QU, """	qc.OnClose(func() {
		p.inConns.remove(qc)
		if be := connBackend(qc); be != nil {
			be.incInFlight(-1)
			startTime""", """	qc.OnClose(func() {
		defer func() {
			// Shutdown checks inConns with mu held.
			p.mu.Lock()
			defer p.mu.Unlock()
			p.connClosed.Broadcast()
		}()
		p.inConns.remove(qc)
		if be := connBackend(qc); be != nil {
			be.incInFlight(-1)
			startTime"""), (QU, """				qc.BytesReceived(), qc.BytesSent())
		}
		// Shutdown checks inConns with mu held.
		p.mu.Lock()
		defer p.mu.Unlock()
		p.connClosed.Broadcast()
	})
""", """				qc.BytesReceived(), qc.BytesSent())
		}
	})
"""))
w("qu-admit", (QU, """	if err := be.checkIP(qc.RemoteAddr()); err != nil {
		p.recordEvent(idnaToUnicode(cs.ServerName) + " CheckIP " + err.Error())
		be.logErrorF("BAD [%s] %s:%s ➔ %q CheckIP: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
		qc.CloseWithError(quicAccessDenied, "access denied")
		return
	}

	// The check below is also done in VerifyConnection, but the configuration
	// could have changed since then.
	if err := be.authorize(clientCert); err != nil {
		p.recordEvent(err.Error())
		be.logErrorF("BAD [%s] %s:%s ➔ %q Authorize: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
		qc.CloseWithError(quicAccessDenied, "access denied")
		return
	}
""", """	if err := be.admit(qc.RemoteAddr(), clientCert); err != nil {
		p.recordEvent(err.Error())
		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
		qc.CloseWithError(quicAccessDenied, "access denied")
		return
	}
"""), (QU, "func (p *Proxy) handleQUICConnection(", """func (be *Backend) admit(addr net.Addr, cert *x509.Certificate) error {
	if err := be.checkIP(addr); err != nil {
		return err
	}
	return be.authorize(cert)
}

func (p *Proxy) handleQUICConnection("""), (QU, '	"log"\n', '	"log"\n'))
# OCSP
w("oc2-cached", (OP, """	hash := certHash(cert.Raw)
	if resp, ok := c.cache.Get(hash); ok && time.Now().Add(margin).Before(resp.NextUpdate) {
		return resp, nil
	}
	resp, err := c.fetchOCSP(cert, issuer)
	if err == nil {
		c.cache.Add(hash, resp)
	}
	return resp, err
""", """	if resp := c.cached(cert, margin); resp != nil {
		return resp, nil
	}
	resp, err := c.fetchOCSP(cert, issuer)
	if err != nil {
		return nil, err
	}
	c.cache.Add(certHash(cert.Raw), resp)
	return resp, nil
"""), (OP, "func (c *OCSPCache) Response(", """func (c *OCSPCache) cached(cert *x509.Certificate, margin time.Duration) *ocsp.Response {
	resp, ok := c.cache.Get(certHash(cert.Raw))
	if !ok {
		return nil
	}
	if deadline := time.Now().Add(margin); !deadline.Before(resp.NextUpdate) {
		return nil
	}
	return resp
}

func (c *OCSPCache) Response("""))
w("oc2-chain", (OP, """	var lastError error
nextChain:
	for _, chain := range chains {
		for i, cert := range chain {
			if len(cert.OCSPServer) == 0 {
				continue
			}
			issuer := cert
			if i+1 < len(chain) {
				issuer = chain[i+1]
			}
			resp, err := c.Response(cert, issuer, 0)
			if err == errOCSPInternal {
				continue
			}
			if err != nil {
				lastError = err
				continue nextChain
			}
			switch resp.Status {
			case ocsp.Revoked:
				c.logger.Errorf("BAD OCSP: %q is revoked", cert.Subject.String())
				lastError = errOCSPRevoked
				continue nextChain
			case ocsp.Unknown:
				c.logger.Errorf("BAD OCSP: %q is unknown", cert.Subject.String())
				lastError = errOCSPUnknown
				continue nextChain
			case ocsp.Good:
				c.logger.Errorf("INF OCSP: %q is GOOD", cert.Subject.String())
				lastError = nil
			default:
				c.logger.Errorf("BAD OCSP: %q has unexpected status %v", cert.Subject.String(), resp.Status)
				lastError = errOCSPProtocol
				continue nextChain
			}
		}
		// Every cert in the chain is good.
		break
	}
	return lastError
}
""", """	var lastError error
	for _, chain := range chains {
		if lastError = c.verifyChain(chain); lastError == nil {
			// Every cert in the chain is good.
			return nil
		}
	}
	return lastError
}

func (c *OCSPCache) verifyChain(chain []*x509.Certificate) error {
	for i, cert := range chain {
		if len(cert.OCSPServer) == 0 {
			continue
		}
		issuer := cert
		if i+1 < len(chain) {
			issuer = chain[i+1]
		}
		resp, err := c.Response(cert, issuer, 0)
		if err == errOCSPInternal {
			continue
		}
		if err != nil {
			return err
		}
		switch resp.Status {
		case ocsp.Revoked:
			c.logger.Errorf("BAD OCSP: %q is revoked", cert.Subject.String())
			return errOCSPRevoked
		case ocsp.Unknown:
			c.logger.Errorf("BAD OCSP: %q is unknown", cert.Subject.String())
			return errOCSPUnknown
		case ocsp.Good:
			c.logger.Errorf("INF OCSP: %q is GOOD", cert.Subject.String())
		default:
			c.logger.Errorf("BAD OCSP: %q has unexpected status %v", cert.Subject.String(), resp.Status)
			return errOCSPProtocol
		}
	}
	return nil
}
"""))
w("oc2-fetch", (OP, """	for _, server := range cert.OCSPServer {
		ocspResp, err = c.fetchOneOCSP(cert, issuer, ocspReq, server)
		if err != nil || ocspResp.Status == ocsp.Unknown {
			continue
		}
		if err == nil {
			break
		}
	}
	return ocspResp, err
""", """	for _, server := range cert.OCSPServer {
		ocspResp, err = c.fetchOneOCSP(cert, issuer, ocspReq, server)
		if err == nil && ocspResp.Status != ocsp.Unknown {
			return ocspResp, nil
		}
	}
	return ocspResp, err
"""))
w("oc2-resp", (OP, """	if !ocspResp.NextUpdate.IsZero() && time.Now().After(ocspResp.NextUpdate) {
		c.log""", """	if expired(ocspResp) {
		c.log"""), (OP, "func (c *OCSPCache) Response(", """func expired(r *ocsp.Response) bool {
	if r.NextUpdate.IsZero() {
		return false
	}
	return time.Since(r.NextUpdate) > 0
}

func (c *OCSPCache) Response("""))
# SSH / static / conntracker / netw
w("nw-key", ("proxy/conntracker.go", """	cc := localNetConn(c)
	t.conns[connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()}] = c
""", """	t.conns[keyOf(c)] = c
"""), ("proxy/conntracker.go", """	cc := localNetConn(c)
	delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})
""", """	delete(t.conns, keyOf(c))
"""), ("proxy/conntracker.go", "func (t *connTracker) slice()", """func keyOf(c annotatedConnection) connKey {
	cc := localNetConn(c)
	return connKey{
		dst: cc.RemoteAddr(),
		src: cc.LocalAddr(),
	}
}

func (t *connTracker) slice()"""))
