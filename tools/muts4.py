_csrf = """		if req.Method != "POST" {
			http.Error(w, "invalid request", http.StatusBadRequest)
			return
		}
		if v := req.Header.Get("x-csrf-check"); v != "1" {
			m.cfg.Logger.Errorf("ERR x-csrf-check: %v", v)
			http.Error(w, "invalid request", http.StatusBadRequest)
			return
		}
"""
_rlp = "func (m *Manager) RequestLogin("
w("pk-csrf", *([(PK, _csrf, "		if !m.checkPost(w, req) {\n			return\n		}\n")] * 8), (PK, _rlp, """func (m *Manager) checkPost(w http.ResponseWriter, req *http.Request) bool {
	v := req.Header.Get("x-csrf-check")
	if req.Method == http.MethodPost && v == "1" {
		return true
	}
	m.cfg.Logger.Errorf("ERR bad request: %s %q", req.Method, v)
	http.Error(w, "invalid request", http.StatusBadRequest)
	return false
}

""" + _rlp))
w("pk-csrf-once", *([(PK, _csrf, "")] * 5), (PK, """	switch mode {
	case "Login", "RegisterNewID", "RefreshID":
		data""", """	if mode != "Login" && mode != "RegisterNewID" && mode != "RefreshID" {
""" + _csrf + """	}
	switch mode {
	case "Login", "RegisterNewID", "RefreshID":
		data"""))
w("pk-nonce", (PK, """	m.noncesMu.Lock()
	now := time.Now().UTC()
	for k, v := range m.nonces {
		if v.created.Add(5 * time.Minute).Before(now) {
			delete(m.nonces, k)
		}
	}
	nData, ok := m.nonces[nonce]
	delete(m.nonces, nonce)
	m.noncesMu.Unlock()

	if ok {
""", """	if nData := m.takeNonce(nonce); nData != nil {
"""), (PK, _rlp, """func (m *Manager) takeNonce(nonce string) *nonceData {
	m.noncesMu.Lock()
	defer m.noncesMu.Unlock()
	for k, v := range m.nonces {
		if time.Since(v.created) > 5*time.Minute {
			delete(m.nonces, k)
		}
	}
	d, ok := m.nonces[nonce]
	if !ok {
		return nil
	}
	delete(m.nonces, nonce)
	return d
}

""" + _rlp))
w("pk-nonce2", (PK, "	nData, ok := m.nonces[nonce]\n	delete(m.nonces, nonce)\n", "	nData, ok := m.nonces[nonce]\n	if ok {\n		delete(m.nonces, nonce)\n	}\n"))
w("pk-redirect", (PK, """	if ok {
		token, _, err := m.cfg.TokenManager.URLToken(w, req, nData.origURL, map[string]any{"email": nData.opts.LoginHint()})
		if err != nil {
			m.cfg.Logger.Errorf("ERR %q: %v", nData.origURL, err)
			http.Error(w, "internal error", http.StatusInternalServerError)
			return
		}
		args := req.URL.Query()
		args.Del("nonce")
		args.Set("redirect", token)
		req.URL.RawQuery = args.Encode()
		http.Redirect(w, req, req.URL.String(), http.StatusFound)
		return
	}
""", """	if ok {
		m.startLogin(w, req, nData)
		return
	}
"""), (PK, _rlp, """func (m *Manager) startLogin(w http.ResponseWriter, req *http.Request, nData *nonceData) {
	claims := make(map[string]any)
	claims["email"] = nData.opts.LoginHint()
	token, _, err := m.cfg.TokenManager.URLToken(w, req, nData.origURL, claims)
	if err != nil {
		m.cfg.Logger.Errorf("ERR %q: %v", nData.origURL, err)
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	u := req.URL
	args := u.Query()
	args.Del("nonce")
	args.Set("redirect", token)
	u.RawQuery = args.Encode()
	http.Redirect(w, req, u.String(), http.StatusFound)
}

""" + _rlp))
w("pk-addkey", (PK, """		claims, err = m.processAttestation(claims, req.Host, req.Form.Get("args"), false)
		if err != nil {
			m.cfg.Logger.Errorf("ERR processAttestation: %v", err)
			http.Error(w, "internal error", http.StatusInternalServerError)
			return
		}
		m.cfg.EventRecorder.Record("passkey addkey request")
		m.setAuthToken(w, originalURL, claims)
""", """		m.addKey(w, req, originalURL, claims)
"""), (PK, _rlp, """func (m *Manager) addKey(w http.ResponseWriter, req *http.Request, u *url.URL, claims jwt.MapClaims) {
	newClaims, err := m.processAttestation(claims, req.Host, req.Form.Get("args"), false)
	if err != nil {
		m.cfg.Logger.Errorf("ERR processAttestation: %v", err)
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	m.cfg.EventRecorder.Record("passkey addkey request")
	m.setAuthToken(w, u, newClaims)
}

""" + _rlp))
w("pk-refresh", (PK, """			iat, err := jwt.MapClaims(claims).GetIssuedAt()
			if err != nil || iat == nil || time.Since(iat.Time) > m.cfg.RefreshInterval {
""", """			if m.tooOld(claims) {
"""), (PK, _rlp, """func (m *Manager) tooOld(claims map[string]any) bool {
	iat, err := jwt.MapClaims(claims).GetIssuedAt()
	if err != nil || iat == nil {
		return true
	}
	return time.Since(iat.Time) > m.cfg.RefreshInterval
}

""" + _rlp))
w("pk-fresh", (PK, """	claims := m.cfg.ClaimsFromCtx(req.Context())
	var iat time.Time
	if claims != nil {
		if p, _ := claims.GetIssuedAt(); p != nil {
			iat = p.Time
		}
	}
	hh := sha256.Sum256([]byte(req.Host))
	if claims == nil || claims["hhash"] != hex.EncodeToString(hh[:]) || time.Since(iat) > 10*time.Minute {
""", """	claims := m.cfg.ClaimsFromCtx(req.Context())
	if !recentLogin(claims, req.Host) {
"""), (PK, _rlp, """func recentLogin(claims jwt.MapClaims, host string) bool {
	if claims == nil {
		return false
	}
	hh := sha256.Sum256([]byte(host))
	if claims["hhash"] != hex.EncodeToString(hh[:]) {
		return false
	}
	iat, err := claims.GetIssuedAt()
	if err != nil || iat == nil {
		return false
	}
	return time.Since(iat.Time) <= 10*time.Minute
}

""" + _rlp))
w("pk-acl", (PK, """	_, subDomain, _ := strings.Cut(email, "@")
	return slices.Contains(*m.acl, email) || slices.Contains(*m.acl, "@"+subDomain)
""", """	_, domain, _ := strings.Cut(email, "@")
	for _, entry := range *m.acl {
		if entry == email || entry == "@"+domain {
			return true
		}
	}
	return false
"""), (PK, '	"slices"\n', ""))
w("pk-delete", (PK, """	var keys []*userKey
	for _, k := range u.Keys {
		if !bytes.Equal(k.ID, id) {
			keys = append(keys, k)
		}
	}
	u.Keys = keys
	return commit(true, nil)
""", """	u.Keys = slices.DeleteFunc(u.Keys, func(k *userKey) bool { return bytes.Equal(k.ID, id) })
	return commit(true, nil)
"""))
w("pk-user", (PK, """	h, ok := m.db.Subjects[email]
	if !ok {
		return errors.New("not found")
	}
	u, ok := m.db.Handles[h]
	if !ok {
		return errors.New("not found")
	}
""", """	u := m.userByEmail(email)
	if u == nil {
		return errors.New("not found")
	}
"""), (PK, """	h, ok := m.db.Subjects[email]
	if !ok {
		return nil
	}
	u, ok := m.db.Handles[h]
	if !ok {
		return nil
	}
	keys :=""", """	u := m.userByEmail(email)
	if u == nil {
		return nil
	}
	keys :="""), (PK, _rlp, """// userByEmail returns a user. m.mu must be held.
func (m *Manager) userByEmail(email string) *user {
	h, ok := m.db.Subjects[email]
	if !ok {
		return nil
	}
	return m.db.Handles[h]
}

""" + _rlp))
w("pk-deletecur", (PK, """		h := sha256.Sum256(id)
		if passkeyHash == hex.EncodeToString(h[:]) {
""", """		if passkeyHash == hashHex(id) {
"""), (PK, """		h := sha256.Sum256(k.ID)
		ki := keyItem{""", """		ki := keyItem{"""), (PK, "hex.EncodeToString(h[:]),\n			Created", "hashHex(k.ID),\n			Created"), (PK, _rlp, """func hashHex(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

""" + _rlp))
# SAML
_rs = "func (p *Provider) RequestLogin("
w("sa-state", (SA, """	p.mu.Lock()
	for k, v := range p.states {
		if time.Since(v.Created) > 5*time.Minute {
			delete(p.states, k)
		}
	}
	state, ok := p.states[id]
	if ok {
		delete(p.states, id)
	}
	p.mu.Unlock()

	if !ok {
""", """	state := p.takeState(id)
	if state == nil {
"""), (SA, _rs, """func (p *Provider) takeState(id string) *samlState {
	p.mu.Lock()
	defer p.mu.Unlock()
	state, ok := p.states[id]
	if !ok {
		return nil
	}
	delete(p.states, id)
	if time.Since(state.Created) > 5*time.Minute {
		return nil
	}
	return state
}

""" + _rs))
w("sa-check", (SA, """	now := time.Now().UTC()
	if t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotBefore")); err != nil || t.After(now) {
		http.Error(w, "invalid saml response", http.StatusForbidden)
		return
	}
	if t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotOnOrAfter")); err != nil || t.Before(now) {
		http.Error(w, "invalid saml response", http.StatusForbidden)
		return
	}
""", """	if !validNow(v) {
		http.Error(w, "invalid saml response", http.StatusForbidden)
		return
	}
"""), (SA, _rs, """func validNow(v *etree.Element) bool {
	now := time.Now()
	notBefore, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotBefore"))
	if err != nil {
		return false
	}
	notAfter, err := time.Parse(time.RFC3339Nano, findElementAttr(v, "./Conditions", "NotOnOrAfter"))
	if err != nil {
		return false
	}
	return !now.Before(notBefore) && now.Before(notAfter)
}

""" + _rs))
w("sa-parse", (SA, """	b, err := base64.StdEncoding.DecodeString(req.PostForm.Get("SAMLResponse"))
	if err != nil {
		http.Error(w, "invalid request", http.StatusForbidden)
		return
	}
	doc := etree.NewDocument()
	if err := doc.ReadFromBytes(b); err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}

	root := doc.Root()
	if root == nil {
		http.Error(w, "invalid request", http.StatusForbidden)
		return
	}
	// Assertion is the only part that's signed. So, we ignore everything
	// else.
	assertion := root.FindElement("./Assertion")
	if assertion == nil {
		http.Error(w, "invalid request", http.StatusForbidden)
		return
	}
	v, err := p.dsigCtx.Validate(assertion)
	if err != nil {
		http.Error(w, "invalid request", http.StatusForbidden)
		return
	}
""", """	v, err := p.verifiedAssertion(req.PostForm.Get("SAMLResponse"))
	if err != nil {
		http.Error(w, "invalid request", http.StatusForbidden)
		return
	}
"""), (SA, _rs, """func (p *Provider) verifiedAssertion(s string) (*etree.Element, error) {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return nil, err
	}
	doc := etree.NewDocument()
	if err := doc.ReadFromBytes(b); err != nil {
		return nil, err
	}
	root := doc.Root()
	if root == nil {
		return nil, fmt.Errorf("empty document")
	}
	assertion := root.FindElement("./Assertion")
	if assertion == nil {
		return nil, fmt.Errorf("no assertion")
	}
	return p.dsigCtx.Validate(assertion)
}

""" + _rs))
w("sa-aud", (SA, """	u, err := url.Parse(p.cfg.ACSURL)
	if err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	host := u.Host
	if h, _, err := net.SplitHostPort(host); err == nil {
		host = h
	}
	self := "https://" + host + "/"
""", """	self, err := selfURL(p.cfg.ACSURL)
	if err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
"""), (SA, "	\"net\"\n", ""), (SA, _rs, """func selfURL(acs string) (string, error) {
	u, err := url.Parse(acs)
	if err != nil {
		return "", err
	}
	return "https://" + u.Hostname() + "/", nil
}

""" + _rs))
# token manager
_ct = "// CreateToken creates"
w("tm-pick", (TM, """	var tk *tokenKey
	for _, k := range tm.keys.Keys {
		switch method.(type) {
		case *jwt.SigningMethodECDSA:
			if _, ok := k.privKey.Public().(*ecdsa.PublicKey); !ok {
				continue
			}
		case *jwt.SigningMethodEd25519:
			if _, ok := k.privKey.Public().(ed25519.PublicKey); !ok {
				continue
			}
		case *jwt.SigningMethodRSA:
			if _, ok := k.privKey.Public().(*rsa.PublicKey); !ok {
				continue
			}
		default:
			continue
		}
		// Pick the most recent key that's at least 2 hours old.
		if tk == nil || k.CreationTime.Add(2*time.Hour).Before(time.Now()) {
			tk = k
		}
	}
	if tk == nil {
""", """	tk := tm.pick(method)
	if tk == nil {
"""), (TM, _ct, """func (tm *TokenManager) pick(method jwt.SigningMethod) *tokenKey {
	var tk *tokenKey
	for _, k := range tm.keys.Keys {
		if !usable(k, method) {
			continue
		}
		// Pick the most recent key that's at least 2 hours old.
		if tk != nil && time.Since(k.CreationTime) <= 2*time.Hour {
			continue
		}
		tk = k
	}
	return tk
}

func usable(k *tokenKey, method jwt.SigningMethod) bool {
	ok := false
	switch method.(type) {
	case *jwt.SigningMethodECDSA:
		_, ok = k.privKey.Public().(*ecdsa.PublicKey)
	case *jwt.SigningMethodEd25519:
		_, ok = k.privKey.Public().(ed25519.PublicKey)
	case *jwt.SigningMethodRSA:
		_, ok = k.privKey.Public().(*rsa.PublicKey)
	}
	return ok
}

""" + _ct))
w("tm-newkey", (TM, """	privKey, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	b, err := x509.MarshalPKCS8PrivateKey(privKey)
	if err != nil {
		return nil, err
	}
	tk := &tokenKey{
		ID:           hex.EncodeToString(id[:]),
		Key:          b,
		privKey:      privKey,
		CreationTime: time.Now(),
	}
	return tk, nil
""", """	privKey, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		return nil, err
	}
	return newTokenKey(id[:], privKey)
"""), (TM, """	privKey, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		return nil, err
	}
	b, err := x509.MarshalPKCS8PrivateKey(privKey)
	if err != nil {
		return nil, err
	}
	tk := &tokenKey{
		ID:           hex.EncodeToString(id[:]),
		Key:          b,
		privKey:      privKey,
		CreationTime: time.Now(),
	}
	return tk, nil
""", """	privKey, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		return nil, err
	}
	return newTokenKey(id[:], privKey)
"""), (TM, _ct, """func newTokenKey(id []byte, k privateKey) (*tokenKey, error) {
	b, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		return nil, err
	}
	return &tokenKey{
		ID:           hex.EncodeToString(id),
		Key:          b,
		privKey:      k,
		CreationTime: time.Now(),
	}, nil
}

""" + _ct))
w("tm-need", (TM, """	if len(keys.Keys) == 0 {
		tk, err := tm.createNewTokenKeys()
		if err != nil {
			return err
		}
		keys.Keys = append(keys.Keys, tk...)
		changed = true
	}

	newest := keys.Keys[len(keys.Keys)-1]
	now := time.Now().UTC()

	if newest.CreationTime.Add(24 * time.Hour).Before(now) {
		tk""", """	now := time.Now().UTC()
	if n := len(keys.Keys); n == 0 || keys.Keys[n-1].CreationTime.Add(24*time.Hour).Before(now) {
		tk"""))
w("tm-parse", (TM, """		if tm.tpm != nil {
			privKey, err := tm.tpm.UnmarshalKey(k.Key)
			if err != nil {
				tm.logger.Errorf("ERR tpm.UnmarshalKey: %v", err)
				continue
			}
			k.privKey = privKey
			continue
		}
		privKey, err := x509.ParsePKCS8PrivateKey(k.Key)
		if err != nil {
			tm.logger.Errorf("ERR x509.ParsePKCS8PrivateKey: %v", err)
			continue
		}
		k.privKey = privKey.(privateKey)
""", """		privKey, err := tm.loadKey(k.Key)
		if err != nil {
			tm.logger.Errorf("ERR loadKey: %v", err)
			continue
		}
		k.privKey = privKey
"""), (TM, _ct, """func (tm *TokenManager) loadKey(b []byte) (privateKey, error) {
	if tm.tpm != nil {
		return tm.tpm.UnmarshalKey(b)
	}
	k, err := x509.ParsePKCS8PrivateKey(b)
	if err != nil {
		return nil, err
	}
	pk, ok := k.(privateKey)
	if !ok {
		return nil, errors.New("unexpected key type")
	}
	return pk, nil
}

""" + _ct))
w("tm-getkey", (TM, """	for _, tk := range tm.keys.Keys {
		if tk.ID == tok.Header["kid"] {
			return tk.privKey.Public(), nil
		}
	}
	return nil, errors.New("not found")
""", """	kid, ok := tok.Header["kid"].(string)
	if !ok {
		return nil, errors.New("invalid kid")
	}
	i := slices.IndexFunc(tm.keys.Keys, func(k *tokenKey) bool { return k.ID == kid })
	if i < 0 {
		return nil, errors.New("not found")
	}
	return tm.keys.Keys[i].privKey.Public(), nil
"""))
# PKI http
_cm = "func (m *PKIManager) ServeCertificateManagement("
w("ph-admin", (PH, """	email, _ := claims["email"].(string)
	isAdmin := enableAdmin != "" && slices.Contains(m.opts.Admins, email)
""", """	email, _ := claims["email"].(string)
	isAdmin := enableAdmin != "" && m.isAdmin(email)
"""), (PH, _cm, """func (m *PKIManager) isAdmin(email string) bool {
	for _, a := range m.opts.Admins {
		if a == email {
			return true
		}
	}
	return false
}

""" + _cm))
w("ph-mode", (PH, """	switch mode {
	case "requestCert":
		m.handleRequestCert(w, req)
		return
	case "revokeCert":
		m.handleRevokeCert(w, req, isAdmin)
		return
""", """	if mode == "requestCert" {
		m.handleRequestCert(w, req)
		return
	}
	switch mode {
	case "revokeCert":
		m.handleRevokeCert(w, req, isAdmin)
		return
"""))
w("ph-ocspraw", (PH, """		if raw, err = base64.RawURLEncoding.DecodeString(data); err != nil {
			m.opts.Logger.Errorf("ERR base64: %v", err)
			http.Error(w, "invalid request", http.StatusBadRequest)
			return
		}
""", """		raw, err = base64.RawURLEncoding.DecodeString(data)
		if err != nil {
			m.opts.Logger.Errorf("ERR base64: %v", err)
			http.Error(w, "invalid request", http.StatusBadRequest)
			return
		}
"""))
