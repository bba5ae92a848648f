CM = "proxy/internal/cookiemanager/cookiemanager.go"
# OIDC server
_find = """	var found bool
	for _, client := range s.opts.Clients {
		if client.ID == clientID && slices.Contains(client.RedirectURI, redirectURI) {
			found = true
			break
		}
	}
	if !found {
"""
_find2 = """	var found bool
	for _, client := range s.opts.Clients {
		if client.ID == clientID && client.Secret == clientSecret && slices.Contains(client.RedirectURI, redirectURI) {
			found = true
			break
		}
	}
	if !found {
"""
_sa = "func (s *ProviderServer) ServeAuthorization("
w("os-findclient", (OS_, _find, "	if !s.validClient(clientID, redirectURI) {\n"), (OS_, _sa, """func (s *ProviderServer) validClient(id, uri string) bool {
	return slices.ContainsFunc(s.opts.Clients, func(c Client) bool {
		return c.ID == id && slices.Contains(c.RedirectURI, uri)
	})
}

""" + _sa))
w("os-findclient2", (OS_, _find, """	client := s.lookupClient(clientID)
	if client == nil || !slices.Contains(client.RedirectURI, redirectURI) {
"""), (OS_, _find2, """	client := s.lookupClient(clientID)
	if client == nil || client.Secret != clientSecret || !slices.Contains(client.RedirectURI, redirectURI) {
"""), (OS_, _sa, """func (s *ProviderServer) lookupClient(id string) *Client {
	for i := range s.opts.Clients {
		if s.opts.Clients[i].ID == id {
			return &s.opts.Clients[i]
		}
	}
	return nil
}

""" + _sa))
w("os-findclient3", (OS_, _find2, """	idx := slices.IndexFunc(s.opts.Clients, func(c Client) bool {
		return c.ID == clientID && c.Secret == clientSecret && slices.Contains(c.RedirectURI, redirectURI)
	})
	if idx < 0 {
"""))
w("os-take", (OS_, """	s.mu.Lock()
	data, ok := s.codes[code]
	delete(s.codes, code)
	s.mu.Unlock()

	if !ok || data.clientID != clientID {
""", """	data := s.takeCode(code)
	if data == nil || data.clientID != clientID {
"""), (OS_, _sa, """func (s *ProviderServer) takeCode(code string) *codeData {
	s.mu.Lock()
	defer s.mu.Unlock()
	data, ok := s.codes[code]
	if !ok {
		return nil
	}
	delete(s.codes, code)
	return data
}

""" + _sa))
w("os-take2", (OS_, """	s.mu.Lock()
	data, ok := s.accessTokens[accessToken]
	delete(s.accessTokens, accessToken)
	s.mu.Unlock()
	if !ok {
""", """	data, ok := takeOne(&s.mu, s.accessTokens, accessToken)
	if !ok {
"""), (OS_, """	s.mu.Lock()
	data, ok := s.codes[code]
	delete(s.codes, code)
	s.mu.Unlock()
""", """	data, ok := takeOne(&s.mu, s.codes, code)
"""), (OS_, _sa, """func takeOne[T any](mu *sync.Mutex, m map[string]T, k string) (T, bool) {
	mu.Lock()
	defer mu.Unlock()
	v, ok := m[k]
	delete(m, k)
	return v, ok
}

""" + _sa))
_b = """	b := make([]byte, 12)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	code := base64.StdEncoding.EncodeToString(b)
	b = make([]byte, 12)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	accessToken := base64.StdEncoding.EncodeToString(b)
"""
w("os-rand", (OS_, _b, """	code, err := randomString()
	if err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	accessToken, err := randomString()
	if err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
"""), (OS_, _sa, """func randomString() (string, error) {
	b := make([]byte, 12)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		return "", err
	}
	return base64.StdEncoding.EncodeToString(b), nil
}

""" + _sa))
w("os-issue", (OS_, """	s.mu.Lock()
	s.codes[code] = &codeData{
		created:     now,
		clientID:    clientID,
		token:       token,
		scope:       sc,
		accessToken: accessToken,
	}
	s.accessTokens[accessToken] = &accessData{
		created:  now,
		clientID: clientID,
		claims:   claims,
	}
	s.mu.Unlock()
""", """	s.save(code, accessToken, token, sc, clientID, claims, now)
"""), (OS_, _sa, """func (s *ProviderServer) save(code, accessToken, token, sc, clientID string, claims jwt.MapClaims, now time.Time) {
	cd := &codeData{created: now, clientID: clientID, token: token, scope: sc, accessToken: accessToken}
	ad := &accessData{created: now, clientID: clientID, claims: claims}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.accessTokens[accessToken] = ad
	s.codes[code] = cd
}

""" + _sa))
w("os-filter", (OS_, """	filter := map[string]bool{
		"iss":   true,
		"aud":   true,
		"iat":   true,
		"exp":   true,
		"nbf":   true,
		"scope": true,
		"sid":   true,
		"nonce": true,
	}
	out := make(map[string]interface{})
	for k, v := range data.claims {
		if !filter[k] {
			out[k] = v
		}
	}
""", """	out := map[string]any{}
	for k, v := range data.claims {
		switch k {
		case "iss", "aud", "iat", "exp", "nbf", "scope", "sid", "nonce":
			continue
		}
		out[k] = v
	}
"""))
w("os-bearer", (OS_, """	accessToken := req.Header.Get("Authorization")
	if len(accessToken) < 7 || strings.ToLower(accessToken[:7]) != "bearer " {
		http.Error(w, "Unauthorized", http.StatusUnauthorized)
		return
	}
	accessToken = accessToken[7:]
""", """	scheme, accessToken, ok := strings.Cut(req.Header.Get("Authorization"), " ")
	if !ok || !strings.EqualFold(scheme, "bearer") {
		http.Error(w, "Unauthorized", http.StatusUnauthorized)
		return
	}
"""), (OS_, "	data, ok := s.accessTokens[accessToken]\n", "	data, ok := s.accessTokens[accessToken]\n"))
w("os-json", (OS_, """	content, err := json.MarshalIndent(resp, "", "  ")
	if err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Cache-Control", "no-cache, no-store")
	w.WriteHeader(http.StatusOK)
	w.Write(content)
""", "	writeJSON(w, resp)\n"), (OS_, """	content, err := json.MarshalIndent(out, "", "  ")
	if err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Cache-Control", "no-cache, no-store")
	w.WriteHeader(http.StatusOK)
	w.Write(content)
""", "	writeJSON(w, out)\n"), (OS_, _sa, """func writeJSON(w http.ResponseWriter, v any) {
	content, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		http.Error(w, "internal error", http.StatusInternalServerError)
		return
	}
	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Cache-Control", "no-cache, no-store")
	w.WriteHeader(http.StatusOK)
	w.Write(content)
}

""" + _sa))
w("os-claims", (OS_, """	now := time.Now().UTC()
	claims := jwt.MapClaims{
		"iat":   now.Unix(),
		"exp":   now.Add(5 * time.Minute).Unix(),
		"iss":   s.opts.Issuer,
		"aud":   clientID,
		"sub":   sub,
		"scope": "openid",
	}
	if nonce := req.Form.Get("nonce"); nonce != "" {
		claims["nonce"] = nonce
	}
""", """	now := time.Now().UTC()
	claims := s.baseClaims(clientID, sub, req.Form.Get("nonce"), now)
"""), (OS_, _sa, """func (s *ProviderServer) baseClaims(aud, sub, nonce string, now time.Time) jwt.MapClaims {
	claims := make(jwt.MapClaims)
	claims["iat"] = now.Unix()
	claims["exp"] = now.Add(5 * time.Minute).Unix()
	claims["iss"] = s.opts.Issuer
	claims["aud"] = aud
	claims["sub"] = sub
	claims["scope"] = "openid"
	if nonce != "" {
		claims["nonce"] = nonce
	}
	return claims
}

""" + _sa))
# OIDC client
_rl = "func (p *ProviderClient) RequestLogin("
w("oc-rand", (OC, """	var nonce [12]byte
	if _, err := io.ReadFull(rand.Reader, nonce[:]); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	nonceStr := hex.EncodeToString(nonce[:])
	var codeVerifier [32]byte
	if _, err := io.ReadFull(rand.Reader, codeVerifier[:]); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	codeVerifierStr := base64.RawURLEncoding.EncodeToString(codeVerifier[:])
""", """	nonce, err := randomBytes(12)
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	nonceStr := hex.EncodeToString(nonce)
	codeVerifier, err := randomBytes(32)
	if err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
	codeVerifierStr := base64.RawURLEncoding.EncodeToString(codeVerifier)
"""), (OC, _rl, """func randomBytes(n int) ([]byte, error) {
	b := make([]byte, n)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		return nil, err
	}
	return b, nil
}

""" + _rl))
w("oc-begin", (OC, """	p.mu.Lock()
	for k, v := range p.states {
		if time.Since(v.Created) > 5*time.Minute {
			delete(p.states, k)
		}
	}
	nonce := req.Form.Get("state")
	state, ok := p.states[nonce]
	invalid := !ok || state.Seen || nonce != p.cm.Nonce(w, req)
	if ok {
		state.Seen = true
	}
	p.mu.Unlock()

	if invalid {
""", """	nonce := req.Form.Get("state")
	state := p.useState(nonce, p.cm.Nonce(w, req))
	if state == nil {
"""), (OC, "state, ok = p.states[claims.Nonce]", "state, ok := p.states[claims.Nonce]"), (OC, _rl, """func (p *ProviderClient) useState(nonce, cookie string) *oauthState {
	p.mu.Lock()
	defer p.mu.Unlock()
	for k, v := range p.states {
		if time.Since(v.Created) > 5*time.Minute {
			delete(p.states, k)
		}
	}
	state, ok := p.states[nonce]
	if !ok {
		return nil
	}
	seen := state.Seen
	state.Seen = true
	if seen || nonce != cookie {
		return nil
	}
	return state
}

""" + _rl))
w("oc-expire", (OC, """	for k, v := range p.states {
		if time.Since(v.Created) > 5*time.Minute {
			delete(p.states, k)
		}
	}
	nonce := req""", """	p.expireStates(time.Now())
	nonce := req"""), (OC, _rl, """func (p *ProviderClient) expireStates(now time.Time) {
	for k, v := range p.states {
		if now.After(v.Created.Add(5 * time.Minute)) {
			delete(p.states, k)
		}
	}
}

""" + _rl))
w("oc-final", (OC, """	p.mu.Lock()
	state, ok = p.states[claims.Nonce]
	delete(p.states, claims.Nonce)
	p.mu.Unlock()
	if !ok || claims.Nonce != nonce {
""", """	if claims.Nonce != nonce || !p.finish(nonce) {
"""), (OC, _rl, """func (p *ProviderClient) finish(nonce string) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if _, ok := p.states[nonce]; !ok {
		return false
	}
	delete(p.states, nonce)
	return true
}

""" + _rl))
w("oc-hd", (OC, """	if p.cfg.HostedDomain != "" {
		if claims.HostedDomain == "" || (p.cfg.HostedDomain != "*" && claims.HostedDomain != p.cfg.HostedDomain) {
			p.er.""", """	if p.cfg.HostedDomain != "" {
		if !p.domainOK(claims.HostedDomain) {
			p.er."""), (OC, _rl, """func (p *ProviderClient) domainOK(hd string) bool {
	switch p.cfg.HostedDomain {
	case "*":
		return hd != ""
	default:
		return hd != "" && hd == p.cfg.HostedDomain
	}
}

""" + _rl))
w("oc-url", (OC, """	ep := p.cfg.AuthEndpoint + "?" +
		"response_type=code" +
		"&client_id=" + url.QueryEscape(p.cfg.ClientID) +
		"&scope=" + url.QueryEscape(strings.Join(scopes, " ")) +
		"&redirect_uri=" + url.QueryEscape(p.cfg.RedirectURL) +
		"&state=" + nonceStr +
		"&nonce=" + nonceStr +
		"&code_challenge=" + base64.RawURLEncoding.EncodeToString(cvh[:]) +
		"&code_challenge_method=S256"
""", """	q := url.Values{}
	q.Set("response_type", "code")
	q.Set("client_id", p.cfg.ClientID)
	q.Set("scope", strings.Join(scopes, " "))
	q.Set("redirect_uri", p.cfg.RedirectURL)
	q.Set("state", nonceStr)
	q.Set("nonce", nonceStr)
	q.Set("code_challenge", base64.RawURLEncoding.EncodeToString(cvh[:]))
	q.Set("code_challenge_method", "S256")
	ep := p.cfg.AuthEndpoint + "?" + q.Encode()
"""))
w("oc-claims", (OC, """	if claims.Email == "" {
		http.Error(w, "no email", http.StatusInternalServerError)
		return
	}
	if claims.EmailVerified != nil && !*claims.EmailVerified {
		p.er.Record("email not verified")
""", """	switch {
	case claims.Email == "":
		http.Error(w, "no email", http.StatusInternalServerError)
		return
	case claims.EmailVerified != nil && !*claims.EmailVerified:
		p.er.Record("email not verified")
"""))
# cookies
_sat = "func (cm *CookieManager) SetAuthTokenCookie("
w("cm-check", (CM, """	if c, ok := tok.Claims.(jwt.MapClaims); !ok || c["proxyauth"] != cm.issuer || c["provider"] != cm.provider {
		return nil, errors.New("invalid proxyauth or provider")
	}
""", """	if !cm.mine(tok) {
		return nil, errors.New("invalid proxyauth or provider")
	}
"""), (CM, _sat, """func (cm *CookieManager) mine(tok *jwt.Token) bool {
	c, ok := tok.Claims.(jwt.MapClaims)
	if !ok {
		return false
	}
	return c["proxyauth"] == cm.issuer && c["provider"] == cm.provider
}

""" + _sat))
w("cm-sub", (CM, """	if sub, err := tok.Claims.GetSubject(); err != nil || sub == "" {
		return nil, errors.New("invalid subject")
	}
	return tok, nil
""", """	sub, err := tok.Claims.GetSubject()
	if err != nil {
		return nil, err
	}
	if len(sub) > 0 {
		return tok, nil
	}
	return nil, errors.New("invalid subject")
"""))
w("cm-build", (CM, """	cookie := &http.Cookie{
		Name:     tlsProxyAuthCookie,
		Value:    token,
		Domain:   cm.domain,
		Path:     "/",
		Expires:  now.Add(24 * time.Hour),
		SameSite: http.SameSiteLaxMode,
		Secure:   true,
		HttpOnly: true,
	}
	http.SetCookie(w, cookie)
""", """	c := newCookie(tlsProxyAuthCookie, token)
	c.Domain = cm.domain
	c.Expires = now.Add(24 * time.Hour)
	http.SetCookie(w, c)
"""), (CM, """	cookie := &http.Cookie{
		Name:     tlsProxyIDTokenCookie,
		Value:    token,
		Path:     "/",
		Expires:  now.Add(24 * time.Hour),
		SameSite: http.SameSiteLaxMode,
		Secure:   true,
		HttpOnly: true,
	}
	http.SetCookie(w, cookie)
""", """	c2 := newCookie(tlsProxyIDTokenCookie, token)
	c2.Expires = now.Add(24 * time.Hour)
	http.SetCookie(w, c2)
"""), (CM, _sat, """func newCookie(name, value string) *http.Cookie {
	return &http.Cookie{
		Name:     name,
		Value:    value,
		Path:     "/",
		SameSite: http.SameSiteLaxMode,
		Secure:   true,
		HttpOnly: true,
	}
}

""" + _sat))
w("cm-clear", (CM, """	cookie := &http.Cookie{
		Name:     tlsProxyAuthCookie,
		Domain:   cm.domain,
		Path:     "/",
		MaxAge:   -1,
		Secure:   true,
		HttpOnly: true,
	}
	http.SetCookie(w, cookie)
	cookie = &http.Cookie{
		Name:     tlsProxyIDTokenCookie,
		Path:     "/",
		MaxAge:   -1,
		Secure:   true,
		HttpOnly: true,
	}
	http.SetCookie(w, cookie)
""", """	for _, c := range []struct{ name, domain string }{
		{tlsProxyAuthCookie, cm.domain},
		{tlsProxyIDTokenCookie, ""},
	} {
		http.SetCookie(w, &http.Cookie{
			Name:     c.name,
			Domain:   c.domain,
			Path:     "/",
			MaxAge:   -1,
			Secure:   true,
			HttpOnly: true,
		})
	}
"""))
w("cm-idclaims", (CM, """		if slices.Contains([]string{
			"scope",
			"proxyauth",
			"source",
			"hhash",
		}, k) {
			continue
		}
		claims[k] = v
""", """		switch k {
		case "scope", "proxyauth", "source", "hhash":
		default:
			claims[k] = v
		}
"""))
w("cm-bearer", (CM, """	h := req.Header.Get("Authorization")
	if len(h) < 7 || strings.ToUpper(h[:7]) != "BEARER " {
		return nil, errors.New("invalid authorization header")
	}
	tok, err := cm.tm.ValidateToken(h[7:],""", """	scheme, h, ok := strings.Cut(req.Header.Get("Authorization"), " ")
	if !ok || !strings.EqualFold(scheme, "bearer") {
		return nil, errors.New("invalid authorization header")
	}
	tok, err := cm.tm.ValidateToken(h,"""))
w("cm-filter", (CM, """	for _, c := range cookies {
		if c.Name != tlsProxyAuthCookie && !slices.Contains(names, c.Name) {
			req.AddCookie(c)
		}
	}
""", """	drop := append([]string{tlsProxyAuthCookie}, names...)
	for _, c := range cookies {
		if slices.Contains(drop, c.Name) {
			continue
		}
		req.AddCookie(c)
	}
"""))
w("cm-host", (CM, """	host := req.Host
	if h, _, err := net.SplitHostPort(host); err == nil {
		host = h
	}
	return "https://" + host + "/"
""", """	return "https://" + hostOnly(req) + "/"
"""), (CM, """	host := req.Host
	if h, _, err := net.SplitHostPort(host); err == nil {
		host = h
	}
	uni""", """	host := hostOnly(req)
	uni"""), (CM, _sat, """func hostOnly(req *http.Request) string {
	h, _, err := net.SplitHostPort(req.Host)
	if err != nil {
		return req.Host
	}
	return h
}

""" + _sat))
w("cm-sid", (CM, """	if c2, ok := tok.Claims.(jwt.MapClaims); !ok || c2["sub"] != c["sub"] || c2["sid"] != c["sid"] {
		return errors.New("sid mismatch")
	}
	// Token is already set, and is valid.
	return nil
""", """	c2, ok := tok.Claims.(jwt.MapClaims)
	if !ok {
		return errors.New("internal error")
	}
	for _, n := range []string{"sub", "sid"} {
		if c[n] != c2[n] {
			return errors.New(n + " mismatch")
		}
	}
	// Token is already set, and is valid.
	return nil
"""))
