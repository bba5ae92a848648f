# C28
_wn = """		if err := l.WaitN(c.ctx, len(b)); err != nil {
			return 0, err
		}
"""
m("lim-lower", "C28", "bug", (PR, "		bwLimits[bwl.Name] = &bwLimit{", "		bwLimits[strings.ToLower(bwl.Name)] = &bwLimit{"), (PR, "		l := bwLimits[bwl.Name]\n", "		l := bwLimits[strings.ToLower(bwl.Name)]\n"))
m("lim-quic-drop", "C28", "bug", (QU, """	if l := be.bwLimit; l != nil {
		qc.SetLimiters(l.ingress, l.egress)
	}
""", ""))
m("lim-swap", "C28", "bug", (PR, "conn.SetLimiters(l.ingress, l.egress)", "conn.SetLimiters(l.egress, l.ingress)"))
m("lim-peek-free", "C28", "bug", (NW, "	if l := c.ingressLimiter; l != nil {", "	if l := c.ingressLimiter; l != nil && len(c.peekBuf) == 0 {"))
m("lim-write-one", "C28", "bug", (NW, "	if l := c.egressLimiter; l != nil {\n		if err := l.WaitN(c.ctx, len(b)); err", "	if l := c.egressLimiter; l != nil {\n		if err := l.WaitN(c.ctx, 1); err"))
m("lim-qw-ingress", "C28", "bug", (NQ, "	if l := s.qc.egressLimiter; l != nil {", "	if l := s.qc.ingressLimiter; l != nil {"))
m("lim-write-ignore", "C28", "bug", (NQ, """	if l := s.qc.egressLimiter; l != nil {
		if err := l.WaitN(s.Context(), len(b)); err != nil {
			return 0, err
		}
	}
""", """	if l := s.qc.egressLimiter; l != nil {
		l.WaitN(s.Context(), len(b))
	}
"""))
m("lim-nowait-pass", "C28", "bug", (PR, """	if err := be.connLimit.Wait(p.ctx); err != nil {
		p.recordEvent(err.Error())
		be.logErrorF("ERR [-] %s ➔  %q Wait: %v", extConn.RemoteAddr(), idnaToUnicode(serverName), err)
		sendInternalError(extConn)
		return
	}
""", ""))
m("lim-noupdate", "C28", "bug", (PR, """		l.egress.SetLimit(rate.Limit(bwl.Egress))
""", ""))
m("lim-update-first", "C28", "bug", (PR, """		l := bwLimits[bwl.Name]
		l.ingress""", """		l := bwLimits[bwl.Name]
		if bwl.Ingress == bwl.Egress {
			continue
		}
		l.ingress"""))
m("lim-egress-rate", "C28", "bug", (PR, "rate.NewLimiter(rate.Limit(bwl.Egress), int", "rate.NewLimiter(rate.Limit(bwl.Ingress), int"))
m("lim-mode", "C28", "bug", (PR, "	if l := be.bwLimit; l != nil {\n		conn.", "	if l := be.bwLimit; l != nil && be.Mode != ModeTLSPassthrough {\n		conn."))
m("lim-req-free", "C28", "bug", (BH, "			if !conn.Annotation(requestFlagKey, false).(bool) {\n				conn.SetAnnotation(requestFlagKey, true)", "			if !conn.Annotation(requestFlagKey, false).(bool) {\n				conn.SetAnnotation(requestFlagKey, len(req.URL.RawQuery) == 0)"))
m("lim-req-get", "C28", "bug", (BH, "} else if err := be.connLimit.Wait(ctx); err != nil {", "} else if err := be.connLimit.Wait(ctx); err != nil && req.Method != \"GET\" {"))
m("lim-stream-raw", "C28", "bug", (NQ, "func (c *QUICConn) AcceptStream(", """func (c *QUICConn) AcceptStream(ctx context.Context) (quic.Stream, error) {
	if c.bytesSent.Value() > 1<<40 {
		return c.qc.AcceptStream(ctx)
	}
	return c.acceptStream(ctx)
}

func (c *QUICConn) acceptStream("""))
m("lim-undefined", "C28", "bug", ("proxy/config.go", """		if n := be.BWLimit; n != "" && !bwLimits[n] {""", """		if n := be.BWLimit; n != "" && len(cfg.BWLimits) == 0 {"""))
m("lim-rate-skip", "C28", "bug", ("proxy/config.go", """		be.connLimit = rate.NewLimiter(rate.Limit(be.ForwardRateLimit), be.ForwardRateLimit)""", """		be.connLimit = rate.NewLimiter(rate.Inf, be.ForwardRateLimit)"""))
m("lim-cached", "C28", "bug", (PR, "		if l, ok := bwLimits[be.BWLimit]; ok {", "		if l, ok := p.bwLimits[be.BWLimit]; ok {"))
w("lim-helper", (PR, "	if l := be.bwLimit; l != nil {\n		conn.SetLimiters(l.ingress, l.egress)\n	}\n", "	be.attachLimiters(conn)\n"), (QU, """	if l := be.bwLimit; l != nil {
		qc.SetLimiters(l.ingress, l.egress)
	}
""", "	be.attachLimiters(qc)\n"), (BA, "func (be *Backend) dial(", """func (be *Backend) attachLimiters(c interface{ SetLimiters(a, b *rate.Limiter) }) {
	l := be.bwLimit
	if l == nil {
		return
	}
	c.SetLimiters(l.ingress, l.egress)
}

func (be *Backend) dial("""), (BA, "import (\n", "import (\n	\"golang.org/x/time/rate\"\n"))
w("lim-wait-helper", (NW, """	if l := c.ingressLimiter; l != nil {
		if err := l.WaitN(c.ctx, len(b)); err != nil {
			return 0, err
		}
	}
""", """	if err := waitFor(c.ctx, c.ingressLimiter, len(b)); err != nil {
		return 0, err
	}
"""), (NW, """	if l := c.egressLimiter; l != nil {
		if err := l.WaitN(c.ctx, len(b)); err != nil {
			return 0, err
		}
	}
""", """	if err := waitFor(c.ctx, c.egressLimiter, len(b)); err != nil {
		return 0, err
	}
"""), (NW, "func (c *Conn) Read(b []byte) (int, error) {", """func waitFor(ctx context.Context, l *rate.Limiter, n int) error {
	if l == nil {
		return nil
	}
	return l.WaitN(ctx, n)
}

func (c *Conn) Read(b []byte) (int, error) {"""))
w("lim-rate-helper", (PR, """	if err := be.connLimit.Wait(p.ctx); err != nil {
		p.recordEvent(err.Error())
		be.logErrorF("ERR [-] %s ➔  %q Wait: %v", extConn.RemoteAddr(), idnaToUnicode(serverName), err)
		return
	}

	var protos""", """	if !p.admit(be, extConn.RemoteAddr(), serverName) {
		return
	}

	var protos"""), (PR, "func (p *Proxy) handleTLSConnection(", """func (p *Proxy) admit(be *Backend, addr net.Addr, serverName string) bool {
	err := be.connLimit.Wait(p.ctx)
	if err == nil {
		return true
	}
	p.recordEvent(err.Error())
	be.logErrorF("ERR [-] %s ➔  %q Wait: %v", addr, idnaToUnicode(serverName), err)
	return false
}

func (p *Proxy) handleTLSConnection("""))
w("lim-conf-helper", (PR, """		bwLimits[bwl.Name] = &bwLimit{
			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
		}
""", """		bwLimits[bwl.Name] = newBWLimit(bwl)
"""), (PR, """		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
		l.egress.SetLimit(rate.Limit(bwl.Egress))
		l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
""", """		l.update(bwl)
"""), (PR, "	const minBurst = 1 << 17 // 128 KB\n", ""), (PR, "func (p *Proxy) handleTLSConnection(", """const minBurst = 1 << 17 // 128 KB

func burstOf(n int64) int {
	return int(max(n, minBurst))
}

func newBWLimit(b *BWLimit) *bwLimit {
	in := rate.NewLimiter(rate.Limit(b.Ingress), burstOf(int64(b.Ingress)))
	out := rate.NewLimiter(rate.Limit(b.Egress), burstOf(int64(b.Egress)))
	return &bwLimit{ingress: in, egress: out}
}

func (l *bwLimit) update(b *BWLimit) {
	setRate(l.ingress, int64(b.Ingress))
	setRate(l.egress, int64(b.Egress))
}

func setRate(l *rate.Limiter, n int64) {
	l.SetLimit(rate.Limit(n))
	l.SetBurst(burstOf(n))
}

func (p *Proxy) handleTLSConnection("""))
w("lim-req-helper", (BH, """			if !conn.Annotation(requestFlagKey, false).(bool) {
				conn.SetAnnotation(requestFlagKey, true)
			} else if err := be.connLimit.Wait(ctx); err != nil {
				http.Error(w, "ctx", http.StatusInternalServerError)
				return
			}
""", """			if seen := conn.Annotation(requestFlagKey, false).(bool); seen {
				if be.connLimit.Wait(ctx) != nil {
					http.Error(w, "ctx", http.StatusInternalServerError)
					return
				}
			} else {
				conn.SetAnnotation(requestFlagKey, true)
			}
"""))
w("lim-read-early", (NW, """	var n int
	var err error
	if len(c.peekBuf) > 0 {
		n = copy(b, c.peekBuf)
		c.peekBuf = c.peekBuf[n:]
	} else {
		n, err = c.Conn.Read(b)
	}
""", """	n, err := c.readSome(b)
"""), (NW, "func (c *Conn) Read(b []byte) (int, error) {", """func (c *Conn) readSome(b []byte) (int, error) {
	if len(c.peekBuf) == 0 {
		return c.Conn.Read(b)
	}
	n := copy(b, c.peekBuf)
	c.peekBuf = c.peekBuf[n:]
	return n, nil
}

func (c *Conn) Read(b []byte) (int, error) {"""))
w("lim-name-var", (PR, """		if l, ok := bwLimits[be.BWLimit]; ok {
			be.bwLimit = l
		}
""", """		be.bwLimit = limitNamed(bwLimits, be.BWLimit)
"""), (PR, "func (p *Proxy) handleTLSConnection(", """func limitNamed(m map[string]*bwLimit, n string) *bwLimit {
	if n == "" {
		return nil
	}
	return m[n]
}

func (p *Proxy) handleTLSConnection("""))

# C33
PM = "proxy/internal/passkeys/manager.go"
_cs = """		if v := req.Header.Get("x-csrf-check"); v != "1" {
			m.cfg.Logger.Errorf("ERR x-csrf-check: %v", v)
			http.Error(w, "invalid request", http.StatusBadRequest)
			return
		}
"""
_po = """		if req.Method != "POST" {
			http.Error(w, "invalid request", http.StatusBadRequest)
			return
		}
"""
_pk = """	if v := req.Header.Get("x-csrf-check"); v != "1" {
		m.opts.Logger.Errorf("ERR x-csrf-check: %v", v)
		http.Error(w, "invalid request", http.StatusBadRequest)
		return
	}
"""
m("web-delete-nocsrf", "C33", "bug", (PM, _po + _cs + "		id, err := hex", _po + "		id, err := hex"))
m("web-switch-nocsrf", "C33", "bug", (PM, _cs + "		m.cfg.OtherCookieManager", "		m.cfg.OtherCookieManager"))
m("web-delete-get", "C33", "bug", (PM, _po + _cs + "		id, err := hex", _cs + "		id, err := hex"))
m("web-csrf-accept", "C33", "bug", (PM, _cs + "		id, err := hex", _cs.replace("x-csrf-check", "accept").replace('"1"', '"*/*"') + "		id, err := hex"))
m("web-csrf-empty", "C33", "bug", (PM, _cs + "		id, err := hex", _cs.replace('v != "1"', 'v != "1" && v != ""') + "		id, err := hex"))
m("web-revoke-nocsrf", "C33", "bug", (PH, _pk + "\n	c, err := m.findCert", "\n	c, err := m.findCert"))
m("web-revoke-noreturn", "C33", "bug", (PH, _pk + "\n	c, err := m.findCert", _pk.replace("		return\n", "") + "\n	c, err := m.findCert"))
m("web-ssh-nocsrf", "C33", "bug", (SC, """	if v := req.Header.Get("x-csrf-check"); v != "1" {
		ca.opts.Logger.Errorf("ERR x-csrf-check: %v", v)
		http.Error(w, "invalid request", http.StatusBadRequest)
		return
	}
""", ""))
m("web-lax", "C33", "bug", (CM, """		Expires:  now.Add(24 * time.Hour),
		SameSite: http.SameSiteLaxMode,
		Secure:   true,
		HttpOnly: true,
	}
	http.SetCookie(w, cookie)
	return nil
}

func (cm *CookieManager) SetIDTokenCookie""", """		Expires:  now.Add(24 * time.Hour),
		SameSite: http.SameSiteNoneMode,
		Secure:   true,
		HttpOnly: true,
	}
	http.SetCookie(w, cookie)
	return nil
}

func (cm *CookieManager) SetIDTokenCookie"""))
m("web-insecure", "C33", "bug", ("proxy/internal/tokenmanager/urltoken.go", "		Secure:   true,\n", "		Secure:   req.TLS != nil,\n"))
m("web-frame", "C33", "bug", (PH, """	w.Header().Set("X-Frame-Options", "DENY")
""", ""))
m("web-texttemplate", "C33", "bug", (BS, '	"html/template"', '	"text/template"'))
m("web-unescaped", "C33", "bug", (PH, "		Owner          string\n", "		Owner          template.JS\n"), (PH, "		Owner:          ownerFilter,", "		Owner:          template.JS(ownerFilter),"))
m("web-echo", "C33", "bug", (BH, '			http.Error(w, "Misdirected Request", http.StatusMisdirectedRequest)', '			w.WriteHeader(http.StatusMisdirectedRequest)\n			fmt.Fprintf(w, "%s is not served here", req.Host)'))
w("web-helper", (PH, _pk + "\n	c, err := m.findCert", "	if !m.sameSite(w, req) {\n		return\n	}\n\n	c, err := m.findCert"), (PH, "func (m *PKIManager) handleRevokeCert(", """func (m *PKIManager) sameSite(w http.ResponseWriter, req *http.Request) bool {
	v := req.Header.Get("x-csrf-check")
	if v == "1" {
		return true
	}
	m.opts.Logger.Errorf("ERR x-csrf-check: %v", v)
	http.Error(w, "invalid request", http.StatusBadRequest)
	return false
}

func (m *PKIManager) handleRevokeCert("""))
w("web-postonly", (PM, _po + _cs + "		id, err := hex", "		if !m.isPost(w, req) {\n			return\n		}\n		id, err := hex"), (PM, "func (m *Manager) ManageKeys(", """func (m *Manager) isPost(w http.ResponseWriter, req *http.Request) bool {
	switch v := req.Header.Get("x-csrf-check"); {
	case req.Method != http.MethodPost:
	case v != "1":
		m.cfg.Logger.Errorf("ERR x-csrf-check: %v", v)
	default:
		return true
	}
	http.Error(w, "invalid request", http.StatusBadRequest)
	return false
}

func (m *Manager) ManageKeys("""))
w("web-cookie-helper", (CM, """	http.SetCookie(w, &http.Cookie{
		Name:     tlsProxyNonce,
		Value:    nonce,
		Domain:   cm.domain,
		Path:     "/",
		SameSite: http.SameSiteLaxMode,
		Secure:   true,
		HttpOnly: true,
	})
}
""", """	c := newCookie(tlsProxyNonce, nonce)
	c.Domain = cm.domain
	http.SetCookie(w, c)
}

func newCookie(name, value string) *http.Cookie {
	return &http.Cookie{
		Name:     name,
		Value:    value,
		Path:     "/",
		SameSite: http.SameSiteLaxMode,
		Secure:   true,
		HttpOnly: true,
	}
}
"""))
w("web-page-helper", (PH, """	w.Header().Set("X-Frame-Options", "DENY")
	certsTemplate.Execute(w, data)
""", """	serveCertsPage(w, data)
"""), (PH, "func (m *PKIManager) handleRevokeCert(", """func serveCertsPage(w http.ResponseWriter, data any) {
	h := w.Header()
	h.Set("X-Frame-Options", "DENY")
	certsTemplate.Execute(w, data)
}

func (m *PKIManager) handleRevokeCert("""))
w("web-page-helper2", (PH, """	w.Header().Set("X-Frame-Options", "DENY")
	certsTemplate.Execute(w, data)
""", """	w.Header().Set("X-Frame-Options", "DENY")
	serveCertsPage(w, data)
"""), (PH, "func (m *PKIManager) handleRevokeCert(", """func serveCertsPage(w http.ResponseWriter, data any) {
	certsTemplate.Execute(w, data)
}

func (m *PKIManager) handleRevokeCert("""))
w("web-act-helper", (PM, """		if err := m.deleteKey(email, id); err != nil {
			m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
			http.Error(w, "internal error", http.StatusInternalServerError)
			return
		}
		w.Header().Set("content-type", "application/json")
		json.NewEncoder(w).Encode(map[string]string{
			"result": "ok",
		})
""", """		m.serveDelete(w, email, id)
"""), (PM, "func (m *Manager) ManageKeys(", """func (m *Manager) serveDelete(w http.ResponseWriter, email string, id []byte) {
	if err := m.deleteKey(email, id); err != nil {
		m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	w.Header().Set("content-type", "application/json")
	json.NewEncoder(w).Encode(map[string]string{
		"result": "ok",
	})
}

func (m *Manager) ManageKeys("""))
