OC = "proxy/internal/oidc/client.go"
OS_ = "proxy/internal/oidc/server.go"
m("oidc-seen", "C10", "bug", (OC, "!ok || state.Seen || nonce != p.cm.Nonce(w, req)", "!ok || nonce != p.cm.Nonce(w, req)"))
m("oidc-cookie", "C10", "bug", (OC, "invalid := !ok || state.Seen || nonce != p.cm.Nonce(w, req)", "cn := p.cm.Nonce(w, req)\n\tinvalid := !ok || state.Seen || (cn != \"\" && nonce != cn)"))
m("oidc-seen-late", "C10", "bug", (OC, "\tif ok {\n\t\tstate.Seen = true\n\t}\n\tp.mu.Unlock()\n", "\tp.mu.Unlock()\n\tif ok {\n\t\tstate.Seen = true\n\t}\n"))
m("oidc-ttl", "C10", "bug", (OC, "> 5*time.Minute", "> 5*time.Hour"))
m("oidc-nosweep", "C10", "bug", (OC, "\tfor k, v := range p.states {\n\t\tif time.Since(v.Created) > 5*time.Minute {\n\t\t\tdelete(p.states, k)\n\t\t}\n\t}\n", ""))
m("oidc-verified", "C10", "bug", (OC, "claims.EmailVerified != nil && !*claims.EmailVerified", "claims.EmailVerified != nil && !*claims.EmailVerified && p.cfg.HostedDomain == \"\""))
m("oidc-hd", "C10", "bug", (OC, "if claims.HostedDomain == \"\" || (", "if claims.HostedDomain != \"\" && ("))
m("oidc-hd2", "C10", "bug", (OC, "p.cfg.HostedDomain != \"*\" && claims.HostedDomain != p.cfg.HostedDomain", "p.cfg.HostedDomain != \"*\" && !strings.HasSuffix(claims.HostedDomain, p.cfg.HostedDomain)"))
m("oidc-pkce", "C10", "bug", (OC, "form.Add(\"code_verifier\", state.CodeVerifier)", "form.Add(\"code_verifier\", req.Form.Get(\"code_verifier\"))"))
m("oidc-host", "C10", "bug", (OC, "claims.Nonce, state.Host, extraClaims", "claims.Nonce, req.Host, extraClaims"))
m("oidc-nonce", "C10", "bug", (OC, "!ok || claims.Nonce != nonce", "!ok"))
m("oidc-helper", "C10", "same", (OC, "\tp.mu.Lock()\n\tfor k, v := range p.states {\n\t\tif time.Since(v.Created) > 5*time.Minute {\n\t\t\tdelete(p.states, k)\n\t\t}\n\t}\n", "\tp.mu.Lock()\n\tp.sweep(5*time.Minute)\n"), (OC, "func (p *ProviderClient) HandleCallback(", "func (p *ProviderClient) sweep(d time.Duration) {\n\tfor k := range p.states {\n\t\tif st := p.states[k]; time.Since(st.Created) <= d {\n\t\t\tcontinue\n\t\t}\n\t\tdelete(p.states, k)\n\t}\n}\n\nfunc (p *ProviderClient) HandleCallback("))
m("oidc-take", "C10", "same", (OC, "\tnonce := req.Form.Get(\"state\")\n\tstate, ok := p.states[nonce]\n\tinvalid := !ok || state.Seen || nonce != p.cm.Nonce(w, req)\n\tif ok {\n\t\tstate.Seen = true\n\t}\n\tp.mu.Unlock()\n\n\tif invalid {", "\tnonce := req.Form.Get(\"state\")\n\tstate, ok := p.states[nonce]\n\tif !ok || state.Seen || nonce != p.cm.Nonce(w, req) {\n\t\tif ok { state.Seen = true }\n\t\tp.mu.Unlock()\n\t\tp.er.Record(\"invalid state\")\n\t\thttp.Error(w, \"invalid state\", http.StatusBadRequest)\n\t\treturn\n\t}\n\tstate.Seen = true\n\tp.mu.Unlock()\n\n\tif false {"))
m("oidc-hdfn", "C10", "same", (OC, "\tif p.cfg.HostedDomain != \"\" {\n\t\tif claims.HostedDomain == \"\" || (p.cfg.HostedDomain != \"*\" && claims.HostedDomain != p.cfg.HostedDomain) {", "\t{\n\t\tif !p.hdOK(claims.HostedDomain) {"), (OC, "func (p *ProviderClient) HandleCallback(", "func (p *ProviderClient) hdOK(hd string) bool {\n\tswitch p.cfg.HostedDomain {\n\tcase \"\":\n\t\treturn true\n\tcase \"*\":\n\t\treturn hd != \"\"\n\t}\n\treturn hd == p.cfg.HostedDomain\n}\n\nfunc (p *ProviderClient) HandleCallback("))
m("oidc-evfn", "C10", "same", (OC, "if claims.EmailVerified != nil && !*claims.EmailVerified {", "if ev := claims.EmailVerified; ev != nil && !*ev {"))
m("srv-found-split", "C12", "bug", (OS_, "if client.ID == clientID && slices.Contains(client.RedirectURI, redirectURI) {\n\t\t\tfound = true\n\t\t\tbreak\n\t\t}", "if client.ID == clientID {\n\t\t\tidOK = true\n\t\t}\n\t\tif slices.Contains(client.RedirectURI, redirectURI) {\n\t\t\turiOK = true\n\t\t}\n\t\tif idOK && uriOK {\n\t\t\tfound = true\n\t\t\tbreak\n\t\t}"), (OS_, "\tvar found bool\n", "\tvar found, idOK, uriOK bool\n"))
m("srv-prefix", "C12", "bug", (OS_, "client.ID == clientID && slices.Contains(client.RedirectURI, redirectURI)", "client.ID == clientID && slices.ContainsFunc(client.RedirectURI, func(u string) bool { return strings.HasPrefix(redirectURI, u) })"))
m("srv-secret", "C12", "bug", (OS_, "client.Secret == clientSecret", "(clientSecret == \"\" || client.Secret == clientSecret)"))
m("srv-client", "C12", "bug", (OS_, "if !ok || data.clientID != clientID {", "if !ok {"))
m("srv-delete-late", "C12", "bug", (OS_, "\tdata, ok := s.codes[code]\n\tdelete(s.codes, code)\n\ts.mu.Unlock()\n", "\tdata, ok := s.codes[code]\n\ts.mu.Unlock()\n\tdefer func() {\n\t\ts.mu.Lock()\n\t\tdelete(s.codes, code)\n\t\ts.mu.Unlock()\n\t}()\n"))
m("srv-novac", "C12", "bug", (OS_, "func (s *ProviderServer) ServeToken(w http.ResponseWriter, req *http.Request) {\n\ts.vacuum()\n", "func (s *ProviderServer) ServeToken(w http.ResponseWriter, req *http.Request) {\n\tdefer s.vacuum()\n"))
m("srv-vac-break", "C12", "bug", (OS_, "\t\tif v.created.Add(2 * time.Minute).Before(now) {\n\t\t\tdelete(s.codes, k)\n\t\t}", "\t\tif !v.created.Add(2 * time.Minute).Before(now) {\n\t\t\tbreak\n\t\t}\n\t\tdelete(s.codes, k)"))
m("srv-ui-once", "C12", "bug", (OS_, "\tdelete(s.accessTokens, accessToken)\n", ""))
m("srv-method", "C12", "bug", (OS_, "if req.Method != http.MethodPost {", "if req.Method == http.MethodHead {"))
m("srv-helper", "C12", "same", (OS_, "\tvar found bool\n\tfor _, client := range s.opts.Clients {\n\t\tif client.ID == clientID && client.Secret == clientSecret && slices.Contains(client.RedirectURI, redirectURI) {\n\t\t\tfound = true\n\t\t\tbreak\n\t\t}\n\t}\n\tif !found {", "\tif !s.validClient(clientID, clientSecret, redirectURI) {"), (OS_, "func (s *ProviderServer) ServeToken(", "func (s *ProviderServer) validClient(id, secret, ru string) bool {\n\tfor i := range s.opts.Clients {\n\t\tc := &s.opts.Clients[i]\n\t\tif c.ID != id || c.Secret != secret {\n\t\t\tcontinue\n\t\t}\n\t\tfor _, u := range c.RedirectURI {\n\t\t\tif u == ru {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\treturn false\n}\n\nfunc (s *ProviderServer) ServeToken("))
m("srv-cfunc", "C12", "same", (OS_, "\tvar found bool\n\tfor _, client := range s.opts.Clients {\n\t\tif client.ID == clientID && slices.Contains(client.RedirectURI, redirectURI) {\n\t\t\tfound = true\n\t\t\tbreak\n\t\t}\n\t}\n", "\tfound := slices.ContainsFunc(s.opts.Clients, func(c Client) bool { return c.ID == clientID && slices.Contains(c.RedirectURI, redirectURI) })\n"))
m("srv-take", "C12", "same", (OS_, "\ts.mu.Lock()\n\tdata, ok := s.codes[code]\n\tdelete(s.codes, code)\n\ts.mu.Unlock()\n\n\tif !ok || data.clientID != clientID {", "\tdata := s.take(code)\n\tif data == nil || data.clientID != clientID {"), (OS_, "func (s *ProviderServer) ServeToken(", "func (s *ProviderServer) take(code string) *codeData {\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\tdefer delete(s.codes, code)\n\treturn s.codes[code]\n}\n\nfunc (s *ProviderServer) ServeToken("))
SA = "proxy/internal/saml/saml.go"
m("saml-assert", "C11", "bug", (SA, "sub := findElementText(v, \"./Subject/NameID\")", "sub := findElementText(root, \"./Assertion/Subject/NameID\")"))
m("saml-unsigned-attr", "C11", "bug", (SA, "for _, a := range v.FindElements(\"./AttributeStatement/Attribute\") {", "for _, a := range root.FindElements(\"./Assertion/AttributeStatement/Attribute\") {"))
m("saml-delete", "C11", "bug", (SA, "\tif ok {\n\t\tdelete(p.states, id)\n\t}\n", ""))
m("saml-recipient", "C11", "bug", (SA, "\"Recipient\"); r != p.cfg.ACSURL {", "\"Recipient\"); r != \"\" && r != p.cfg.ACSURL {"))
m("saml-aud", "C11", "bug", (SA, "aud != self {", "!strings.HasPrefix(aud, self) {"), (SA, "import (", "import (\n\t\"strings\""))
m("saml-nb", "C11", "bug", (SA, "\"NotBefore\")); err != nil || t.After(now)", "\"NotBefore\")); err == nil && t.After(now)"))
m("saml-noa", "C11", "bug", (SA, "err != nil || t.Before(now)", "err != nil || t.Add(24*time.Hour).Before(now)"))
m("saml-method", "C11", "bug", (SA, "req.PostForm.Get(\"SAMLResponse\")", "req.Form.Get(\"SAMLResponse\")"), (SA, "if req.Method != http.MethodPost {", "if req.Method == http.MethodPut {"))
m("saml-id-early", "C11", "bug", (SA, "id := findElementAttr(v, ", "id := findElementAttr(assertion, "))
m("saml-host", "C11", "bug", (SA, "id, state.Host, extraClaims", "id, u.Host, extraClaims"))
m("saml-sub", "C11", "bug", (SA, "\tif sub == \"\" {\n\t\thttp.Error(w, \"invalid saml response\", http.StatusForbidden)\n\t\treturn\n\t}\n", ""))
m("saml-window-fn", "C11", "same", (SA, "\tif t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, \"./Conditions\", \"NotBefore\")); err != nil || t.After(now) {\n\t\thttp.Error(w, \"invalid saml response\", http.StatusForbidden)\n\t\treturn\n\t}\n\tif t, err := time.Parse(time.RFC3339Nano, findElementAttr(v, \"./Conditions\", \"NotOnOrAfter\")); err != nil || t.Before(now) {", "\tif !inWindow(v, now) {"), (SA, "func readCerts(", "func inWindow(v *etree.Element, now time.Time) bool {\n\tnb, err := time.Parse(time.RFC3339Nano, findElementAttr(v, \"./Conditions\", \"NotBefore\"))\n\tif err != nil {\n\t\treturn false\n\t}\n\tna, err := time.Parse(time.RFC3339Nano, findElementAttr(v, \"./Conditions\", \"NotOnOrAfter\"))\n\tif err != nil {\n\t\treturn false\n\t}\n\treturn !now.Before(nb) && !now.After(na)\n}\n\nfunc readCerts("))
m("saml-take-fn", "C11", "same", (SA, "\tp.mu.Lock()\n\tfor k, v := range p.states {\n\t\tif time.Since(v.Created) > 5*time.Minute {\n\t\t\tdelete(p.states, k)\n\t\t}\n\t}\n\tstate, ok := p.states[id]\n\tif ok {\n\t\tdelete(p.states, id)\n\t}\n\tp.mu.Unlock()\n", "\tstate, ok := p.takeState(id)\n"), (SA, "func readCerts(", "func (p *Provider) takeState(id string) (*samlState, bool) {\n\tp.mu.Lock()\n\tdefer p.mu.Unlock()\n\tfor k, v := range p.states {\n\t\tif time.Since(v.Created) > 5*time.Minute {\n\t\t\tdelete(p.states, k)\n\t\t}\n\t}\n\tstate, ok := p.states[id]\n\tdelete(p.states, id)\n\treturn state, ok\n}\n\nfunc readCerts("))
m("saml-order", "C11", "same", (SA, "\tsub := findElementText(v, \"./Subject/NameID\")\n\tif sub == \"\" {\n\t\thttp.Error(w, \"invalid saml response\", http.StatusForbidden)\n\t\treturn\n\t}\n", ""), (SA, "\tp.mu.Lock()\n\tfor k, v := range", "\tsub := findElementText(v, \"./Subject/NameID\")\n\tif sub == \"\" {\n\t\thttp.Error(w, \"invalid saml response\", http.StatusForbidden)\n\t\treturn\n\t}\n\n\tp.mu.Lock()\n\tfor k, v := range"))
PK = "proxy/internal/passkeys/manager.go"
PW = "proxy/internal/passkeys/webauthn.go"
m("pk-uv", "C13", "bug", (PK, "\tif !authData.UserVerification {\n\t\treturn nil, errors.New(\"UserVerification is false\")\n\t}\n\n\tm.mu.Lock()", "\tm.mu.Lock()"))
m("pk-uvbit", "C13", "bug", (PW, "ad.UserVerification = (raw[0]>>2)&1 != 0", "ad.UserVerification = (raw[0]>>3)&1 != 0"))
m("pk-challenge-del", "C13", "bug", (PK, "\tdelete(m.challenges, cd.Challenge)\n\n\tcommit, err", "\tdefer func() { if retErr == nil { delete(m.challenges, cd.Challenge) } }()\n\n\tcommit, err"))
m("pk-challenge-del2", "C13", "bug", (PK, "\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\tif _, ok := m.challenges[cd.Challenge]; !ok {\n\t\treturn nil, errors.New(\"invalid challenge\")\n\t}\n", "\tm.mu.Lock()\n\t_, okc := m.challenges[cd.Challenge]\n\tm.mu.Unlock()\n\tif !okc {\n\t\treturn nil, errors.New(\"invalid challenge\")\n\t}\n\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n"))
m("pk-novacuum", "C13", "bug", (PK, "claims map[string]any, retErr error) {\n\tm.vacuum()\n\tvar args", "claims map[string]any, retErr error) {\n\tvar args"))
m("pk-rpid", "C13", "bug", (PK, "if subtle.ConstantTimeCompare(authData.RPIDHash, key.RPIDHash) != 1 {", "if len(key.RPIDHash) == 0 && subtle.ConstantTimeCompare(authData.RPIDHash, key.RPIDHash) != 1 {"))
m("pk-sig", "C13", "bug", (PK, "verifySignature(key.PublicKey, args.AuthenticatorData, args.ClientDataJSON, args.Signature); err != nil", "verifySignature(key.PublicKey, args.AuthenticatorData, args.ClientDataJSON, args.Signature); err != nil && key.LastSeen.IsZero()"))
m("pk-othersub", "C13", "bug", (PK, "ok && nc[\"sub\"] == u.Claims[\"sub\"] && nc[\"email\"]", "ok && nc[\"iss\"] == u.Claims[\"iss\"] && nc[\"email\"]"))
m("pk-claims", "C13", "bug", (PK, "if !ok || !reflect.DeepEqual(challenge.claims, claims) {", "if !ok || !reflect.DeepEqual(challenge.claims[\"iss\"], claims[\"iss\"]) {"))
m("pk-type", "C13", "bug", (PK, "if cd.Type != \"webauthn.get\" {", "if cd.Type != \"webauthn.get\" && cd.Type != \"webauthn.create\" {"))
m("pk-origin", "C13", "bug", (PK, "if cd.Origin != origin {", "if cd.Origin == \"\" {"))
m("pk-commit", "C13", "bug", (PK, "return c, commit(true, nil)\n}\n\nfunc (m *Manager) assertionOptions", "commit(true, nil)\n\treturn c, nil\n}\n\nfunc (m *Manager) assertionOptions"))
m("pk-acl", "C13", "bug", (PK, "\t\tif !m.subjectIsAllowed(email) {\n\t\t\thttp.Error(w, \"forbidden\", http.StatusForbidden)\n\t\t\treturn\n\t\t}\n", "\t\t_ = email\n"))
m("pk-acl2", "C13", "bug", (PK, "slices.Contains(*m.acl, email) || slices.Contains(*m.acl, \"@\"+subDomain)", "slices.Contains(*m.acl, email) || slices.ContainsFunc(*m.acl, func(s string) bool { return len(subDomain) > 0 && len(s) > 0 && s[1:] == subDomain })"))
m("pk-newkey", "C13", "bug", (PK, "if !allowNewKey && len(u.Keys) > 0 {", "if !allowNewKey && len(u.Keys) > 10 {"))
m("pk-newkey2", "C13", "bug", (PK, "claims, err = m.processAttestation(claims, req.Host, req.Form.Get(\"args\"), false)", "claims, err = m.processAttestation(claims, req.Host, req.Form.Get(\"args\"), m.acl == nil)"))
m("pk-fresh", "C13", "bug", (PK, "time.Since(iat) > 10*time.Minute", "time.Since(iat) > 10*time.Hour"))
m("pk-current", "C13", "bug", (PK, "if passkeyHash == hex.EncodeToString(h[:]) {", "if passkeyHash == string(h[:]) {"))
m("pk-csrf", "C13", "bug", (PK, "\t\tif v := req.Header.Get(\"x-csrf-check\"); v != \"1\" {\n\t\t\tm.cfg.Logger.Errorf(\"ERR x-csrf-check: %v\", v)\n\t\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\t\treturn\n\t\t}\n\t\tid, err", "\t\tid, err"))
m("pk-method", "C13", "bug", (PK, "case \"DeleteKey\":\n\t\tif req.Method != \"POST\" {", "case \"DeleteKey\":\n\t\tif req.Method == \"HEAD\" {"))
m("pk-delmail", "C13", "bug", (PK, "m.deleteKey(email, id); err", "m.deleteKey(req.Form.Get(\"email\"), id); err"))
m("pk-nonce", "C13", "bug", (PK, "\tdelete(m.nonces, nonce)\n\tm.noncesMu.Unlock()\n", "\tm.noncesMu.Unlock()\n"))
m("pk-rs", "C13", "bug", (PW, "return errors.New(\"invalid signature\")", "return nil"))
m("pk-signed", "C13", "bug", (PW, "h := sha256.Sum256(clientDataJSON)", "h := sha256.Sum256(authData)"))
m("pk-weakuid", "C31", "bug", (PK, "if _, err := io.ReadFull(rand.Reader, uid); err != nil {\n\t\t\treturn nil, err\n\t\t}\n", "copy(uid, email)\n"))
m("pk-same1", "C13", "same", (PK, "\tif _, ok := m.challenges[cd.Challenge]; !ok {\n\t\treturn nil, errors.New(\"invalid challenge\")\n\t}\n\tdelete(m.challenges, cd.Challenge)\n", "\t_, known := m.challenges[cd.Challenge]\n\tdelete(m.challenges, cd.Challenge)\n\tif !known {\n\t\treturn nil, errors.New(\"invalid challenge\")\n\t}\n"))
m("pk-same2", "C13", "same", (PK, "\tvar key *userKey\n\tfor _, k := range u.Keys {\n\t\tif subtle.ConstantTimeCompare(k.ID, kid) == 1 {\n\t\t\tkey = k\n\t\t\tbreak\n\t\t}\n\t}\n", "\tkey := findKey(u.Keys, kid)\n"), (PK, "func (m *Manager) setAuthToken(", "func findKey(keys []*userKey, kid []byte) *userKey {\n\tfor i := range keys {\n\t\tif subtle.ConstantTimeCompare(keys[i].ID, kid) == 1 {\n\t\t\treturn keys[i]\n\t\t}\n\t}\n\treturn nil\n}\n\nfunc (m *Manager) setAuthToken("))
m("pk-same3", "C13", "same", (PK, "\tif !authData.UserPresence {\n\t\treturn nil, errors.New(\"UserPresence is false\")\n\t}\n\tif !authData.UserVerification {\n\t\treturn nil, errors.New(\"UserVerification is false\")\n\t}\n", "\tif !authData.UserPresence || !authData.UserVerification {\n\t\treturn nil, errors.New(\"UserPresence or UserVerification is false\")\n\t}\n"))
m("pk-same4", "C13", "same", (PK, "\tcase \"AddKey\":\n\t\tif req.Method != \"POST\" {\n\t\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\t\treturn\n\t\t}\n\t\tif v := req.Header.Get(\"x-csrf-check\"); v != \"1\" {\n\t\t\tm.cfg.Logger.Errorf(\"ERR x-csrf-check: %v\", v)\n\t\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\t\treturn\n\t\t}\n", "\tcase \"AddKey\":\n\t\tif !m.checkPost(w, req) {\n\t\t\treturn\n\t\t}\n"), (PK, "func (m *Manager) setAuthToken(", "func (m *Manager) checkPost(w http.ResponseWriter, req *http.Request) bool {\n\tif req.Method != http.MethodPost {\n\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\treturn false\n\t}\n\tif v := req.Header.Get(\"X-Csrf-Check\"); v != \"1\" {\n\t\tm.cfg.Logger.Errorf(\"ERR x-csrf-check: %v\", v)\n\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\treturn false\n\t}\n\treturn true\n}\n\nfunc (m *Manager) setAuthToken("))
m("pk-same5", "C13", "same", (PK, "\tvar keys []*userKey\n\tfor _, k := range u.Keys {\n\t\tif !bytes.Equal(k.ID, id) {\n\t\t\tkeys = append(keys, k)\n\t\t}\n\t}\n\tu.Keys = keys\n", "\tkeep := make([]*userKey, 0, len(u.Keys))\n\tfor i := 0; i < len(u.Keys); i++ {\n\t\tif bytes.Equal(u.Keys[i].ID, id) {\n\t\t\tcontinue\n\t\t}\n\t\tkeep = append(keep, u.Keys[i])\n\t}\n\tu.Keys = keep\n"))
m("pk-same6", "C13", "same", (PK, "u, ok := m.db.Handles[userHandle]\n\tif !ok {", "u := m.db.Handles[userHandle]\n\tif u == nil {"))

PH = "proxy/internal/pki/http.go"
PP = "proxy/internal/pki/pki.go"
m("pki-owner", "C14", "bug", (PH, "if !isAdmin && !slices.Contains(c.EmailAddresses, email) {", "if !isAdmin && len(c.EmailAddresses) > 0 && !slices.Contains(c.EmailAddresses, email) {"))
m("pki-owner2", "C14", "bug", (PH, "if !isAdmin && !slices.Contains(c.EmailAddresses, email) {", "if !isAdmin && !strings.HasPrefix(c.Subject.CommonName, email) {"))
m("pki-owner3", "C14", "bug", (PH, "if !isAdmin && !slices.Contains(c.EmailAddresses, email) {", "if !isAdmin && !slices.Contains(c.EmailAddresses, req.Form.Get(\"email\")) && email != \"\" {"))
m("pki-csrf", "C14", "bug", (PH, "\tif v := req.Header.Get(\"x-csrf-check\"); v != \"1\" {\n\t\tm.opts.Logger.Errorf(\"ERR x-csrf-check: %v\", v)\n\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\treturn\n\t}\n\n\tc, err", "\tif v := req.Header.Get(\"x-csrf-check\"); v == \"\" {\n\t\tm.opts.Logger.Errorf(\"ERR x-csrf-check: %v\", v)\n\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\treturn\n\t}\n\n\tc, err"))
m("pki-sig", "C14", "bug", (PP, "\tif err := cr.CheckSignature(); err != nil {\n\t\treturn nil, err\n\t}\n\treturn cr, nil", "\tif err := cr.CheckSignature(); err != nil && cr.PublicKeyAlgorithm == x509.RSA {\n\t\treturn nil, err\n\t}\n\treturn cr, nil"))
m("pki-ips", "C14", "bug", (PH, "\t\tDNSNames: in.DNSNames,\n\t}\n\tif in.Subject", "\t\tDNSNames: in.DNSNames,\n\t\tURIs: in.URIs,\n\t}\n\tif in.Subject"))
m("pki-emails", "C14", "bug", (PH, "\t\tDNSNames: in.DNSNames,\n\t}\n\tif in.Subject", "\t\tDNSNames: in.DNSNames,\n\t}\n\tcr.EmailAddresses = append(cr.EmailAddresses, in.EmailAddresses...)\n\tif in.Subject"))
m("pki-cn", "C14", "bug", (PH, "cr.Subject.CommonName += \"::\" + in.Subject.CommonName", "cr.Subject.CommonName = in.Subject.CommonName + \"::\" + email"))
m("pki-org", "C14", "bug", (PH, "Subject:            pkix.Name{CommonName: email},", "Subject:            pkix.Name{CommonName: email, Organization: in.Subject.Organization},"))
m("pki-eku", "C14", "bug", (PP, "if len(cr.DNSNames) > 0 || len(cr.IPAddresses) > 0 {\n\t\teku = append(eku, x509.ExtKeyUsageServerAuth)\n\t} else {", "if len(cr.DNSNames) > 0 || len(cr.IPAddresses) > 0 {\n\t\teku = append(eku, x509.ExtKeyUsageServerAuth)\n\t}\n\tif len(cr.EmailAddresses) > 0 {"))
m("pki-usage", "C14", "bug", (PP, "KeyUsage:              x509.KeyUsageDataEncipherment | x509.KeyUsageDigitalSignature,\n\t\tBasicConstraintsValid: true,\n\t\tExtKeyUsage:           eku,", "KeyUsage:              x509.KeyUsageDataEncipherment | x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,\n\t\tBasicConstraintsValid: true,\n\t\tExtKeyUsage:           eku,"))
m("pki-ext", "C14", "bug", (PH, "\t\tDNSNames: in.DNSNames,\n\t}\n\tif in.Subject", "\t\tDNSNames: in.DNSNames,\n\t\tExtraExtensions: in.Extensions,\n\t}\n\tif in.Subject"), (PP, "\t\tURIs:                  cr.URIs,\n", "\t\tURIs:                  cr.URIs,\n\t\tExtraExtensions: cr.ExtraExtensions,\n"))
m("pki-serial", "C14", "bug", (PP, "SerialNumber:          sn,\n\t\tPublicKeyAlgorithm:    cr.Pub", "SerialNumber:          sn.SetInt64(now.UnixNano()),\n\t\tPublicKeyAlgorithm:    cr.Pub"))
m("pki-nosave", "C14", "bug", (PP, "\tif err := commit(true, nil); err != nil {\n\t\treturn nil, err\n\t}\n\n\treturn raw, nil\n}\n\nfunc publicKey", "\tif err := commit(true, nil); err != nil && next != nil {\n\t\treturn nil, err\n\t}\n\n\treturn raw, nil\n}\n\nfunc publicKey"))
m("pki-norecord", "C14", "bug", (PP, "\tm.db.IssuedCerts = append(m.db.IssuedCerts, c)\n\n\tif next", "\tif len(cert.ExtKeyUsage) > 0 && cert.ExtKeyUsage[0] != x509.ExtKeyUsageServerAuth {\n\t\tm.db.IssuedCerts = append(m.db.IssuedCerts, c)\n\t}\n\n\tif next"))
m("pki-unrevoke", "C14", "bug", (PP, "func (c *certificate) revoke(code int) {\n", "func (c *certificate) revoke(code int) {\n\tif code == 8 {\n\t\tc.Revocation = nil\n\t\treturn\n\t}\n"))
m("pki-revoke-nosave", "C14", "bug", (PP, "\t\t\tm.db.Revoked[snh] = true\n\t\t\treturn commit(true, nil)\n", "\t\t\tm.db.Revoked[snh] = true\n\t\t\tcommit(true, nil)\n\t\t\treturn nil\n"))
m("pki-same1", "C14", "same", (PH, "\tif !isAdmin && !slices.Contains(c.EmailAddresses, email) {\n\t\tw.Header().Set(\"content-type\", \"application/json\")\n\t\tjson.NewEncoder(w).Encode(map[string]string{\n\t\t\t\"result\": \"permission denied\",\n\t\t})\n\t\treturn\n\t}\n\tif err := m.RevokeCertificate(c.SerialNumber, RevokeReasonUnspecified); err != nil {", "\tallowed := isAdmin || slices.Contains(c.EmailAddresses, email)\n\tif !allowed {\n\t\tw.Header().Set(\"content-type\", \"application/json\")\n\t\tjson.NewEncoder(w).Encode(map[string]string{\n\t\t\t\"result\": \"permission denied\",\n\t\t})\n\t\treturn\n\t}\n\terr = m.RevokeCertificate(c.SerialNumber, RevokeReasonUnspecified)\n\tif err != nil {"))
m("pki-same2", "C14", "same", (PP, "\tfor _, c := range m.db.IssuedCerts {\n\t\tif c.SerialNumber == snh {\n\t\t\tc.revoke(reasonCode)\n", "\tfor i := range m.db.IssuedCerts {\n\t\tc := m.db.IssuedCerts[i]\n\t\tif c.SerialNumber != snh {\n\t\t\tcontinue\n\t\t}\n\t\t{\n\t\t\tc.revoke(reasonCode)\n"))
m("pki-same3", "C14", "same", (PH, "\tif req.Method != http.MethodPost {\n\t\tm.opts.Logger.Errorf(\"ERR method: %v\", req.Method)\n\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\treturn\n\t}\n\tif v := req.Header.Get(\"x-csrf-check\"); v != \"1\" {\n\t\tm.opts.Logger.Errorf(\"ERR x-csrf-check: %v\", v)\n\t\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\t\treturn\n\t}\n\n\tc, err", "\tif !m.isPost(w, req) {\n\t\treturn\n\t}\n\n\tc, err"), (PH, "func (m *PKIManager) handleDownloadCert(", "func (m *PKIManager) isPost(w http.ResponseWriter, req *http.Request) bool {\n\tif req.Method == http.MethodPost && req.Header.Get(\"x-csrf-check\") == \"1\" {\n\t\treturn true\n\t}\n\thttp.Error(w, \"invalid request\", http.StatusBadRequest)\n\treturn false\n}\n\nfunc (m *PKIManager) handleDownloadCert("))
m("pki-same4", "C14", "same", (PP, "\ttempl := &x509.Certificate{\n\t\tVersion:               cr.Version,", "\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\treturn m.signCertificateLocked(m.template(cr, sn, now, eku), nil)\n}\n\nfunc (m *PKIManager) template(cr *x509.CertificateRequest, sn *big.Int, now time.Time, eku []x509.ExtKeyUsage) *x509.Certificate {\n\treturn &x509.Certificate{\n\t\tVersion:               cr.Version,"), (PP, "\t\tURIs:                  cr.URIs,\n\t}\n\n\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\treturn m.signCertificateLocked(templ, nil)\n}", "\t\tURIs:                  cr.URIs,\n\t}\n}"))
m("pki-same5", "C14", "same", (PP, "\tc := &certificate{\n\t\tSHA256:       bytesToHex(h256[:]),\n\t\tSerialNumber: bytesToHex(cert.SerialNumber.Bytes()),\n\t\tRaw:          raw,\n\t}\n\tm.db.IssuedCerts = append(m.db.IssuedCerts, c)\n", "\tc := newCert(raw, h256[:], cert.SerialNumber)\n\tissued := append(m.db.IssuedCerts, c)\n\tm.db.IssuedCerts = issued\n"), (PP, "func wipe(", "func newCert(raw, h []byte, sn *big.Int) *certificate {\n\tc := new(certificate)\n\tc.Raw = raw\n\tc.SHA256 = bytesToHex(h)\n\tc.SerialNumber = bytesToHex(sn.Bytes())\n\treturn c\n}\n\nfunc wipe("))
m("crl-skipreason", "C15", "bug", (PP, "\t\tif now.After(cert.NotAfter) {\n\t\t\tcontinue\n\t\t}\n\t\trl.Rev", "\t\tif now.After(cert.NotAfter) || c.Revocation.ReasonCode == RevokeReasonCertificateHold {\n\t\t\tcontinue\n\t\t}\n\t\trl.Rev"))
m("crl-notbefore", "C15", "bug", (PP, "\t\tif now.After(cert.NotAfter) {\n\t\t\tcontinue", "\t\tif now.After(cert.NotAfter.Add(-crlRefreshPeriod)) {\n\t\t\tcontinue"))
m("crl-number", "C15", "bug", (PP, "\tm.db.CRLNumber++\n\trl :=", "\trl :="))
m("crl-stale", "C15", "bug", (PP, "if !stale && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {", "if !stale && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {"))
m("crl-stale2", "C15", "bug", (PP, "c.Revocation != nil && !c.Revocation.Time.Before(rl.ThisUpdate) && !listed[c.SerialNumber]", "c.Revocation != nil && c.Revocation.Time.After(rl.ThisUpdate) && !listed[c.SerialNumber]"))
m("crl-stale3", "C15", "bug", (PP, "if !stale && rl.NextUpdate", "if (!stale || len(listed) > 1000) && rl.NextUpdate"))
m("crl-commit", "C15", "bug", (PP, "\tif err := commit(true, nil); err != nil {\n\t\treturn nil, nil, err\n\t}\n\treturn signCert.Raw, crl, nil", "\tif n := len(m.db.RevocationLists); n%2 == 0 {\n\t\tif err := commit(true, nil); err != nil {\n\t\t\treturn nil, nil, err\n\t\t}\n\t}\n\treturn signCert.Raw, crl, nil"))
m("crl-first", "C15", "bug", (PP, "for _, c := range m.db.IssuedCerts {\n\t\tif c.Revocation == nil {", "for i := 1; i < len(m.db.IssuedCerts); i++ {\n\t\tc := m.db.IssuedCerts[i]\n\t\tif c.Revocation == nil {"))
m("crl-break", "C15", "bug", (PP, "\t\tif now.After(cert.NotAfter) {\n\t\t\tcontinue\n\t\t}\n\t\trl.Rev", "\t\tif now.After(cert.NotAfter) {\n\t\t\tbreak\n\t\t}\n\t\trl.Rev"))
m("ocsp-or", "C15", "bug", (PP, "bytes.Compare(req.IssuerNameHash, subjectHash[:]) != 0 || bytes.Compare(", "bytes.Compare(req.IssuerNameHash, subjectHash[:]) != 0 && bytes.Compare("))
m("ocsp-noreset", "C15", "bug", (PP, "\th.Reset()\n\th.Write(caCert.RawSubject)", "\th.Write(caCert.RawSubject)"))
m("ocsp-hold", "C15", "bug", (PP, "if rev := m.db.IssuedCerts[idx].Revocation; rev != nil {", "if rev := m.db.IssuedCerts[idx].Revocation; rev != nil && rev.ReasonCode != 8 {"))
m("ocsp-idx", "C15", "bug", (PP, "if rev := m.db.IssuedCerts[idx].Revocation; rev != nil {", "if rev := m.db.IssuedCerts[len(m.db.IssuedCerts)-1-idx].Revocation; rev != nil {"))
m("ocsp-unissued", "C15", "bug", (PP, "\tif idx < 0 {\n\t\treturn ocsp.Cre", "\tif idx < 0 && len(m.db.IssuedCerts) == 0 {\n\t\treturn ocsp.Cre"), (PP, "if rev := m.db.IssuedCerts[idx].Revocation; rev != nil {", "if rev := m.db.IssuedCerts[max(idx, 0)].Revocation; rev != nil {"))
m("ocsp-issuer", "C15", "bug", (PP, "h.Write(caCert.RawSubject)", "h.Write(delegateCert.RawSubject)"))
m("rev-nomap", "C15", "bug", (PP, "\t\t\tm.db.Revoked[snh] = true\n", "\t\t\tif reasonCode != 8 {\n\t\t\t\tm.db.Revoked[snh] = true\n\t\t\t}\n"))
m("rev-enc", "C15", "bug", (PP, "return m.db.Revoked[bytesToHex(serialNumber.Bytes())]", "return m.db.Revoked[serialNumber.Text(16)]"))
m("rev-enc2", "C15", "bug", (PP, "SerialNumber: bytesToHex(cert.SerialNumber.Bytes()),", "SerialNumber: bytesToHex(cert.SerialNumber.FillBytes(make([]byte, 21))),"))
m("rev-same1", "C15", "same", (PP, "\tfor _, c := range m.db.IssuedCerts {\n\t\tif c.Revocation == nil {\n\t\t\tcontinue\n\t\t}\n\t\tcert, err := c.parse()\n\t\tif err != nil {\n\t\t\treturn nil, nil, err\n\t\t}\n\t\tif now.After(cert.NotAfter) {\n\t\t\tcontinue\n\t\t}\n\t\trl.RevokedCertificateEntries = append(rl.RevokedCertificateEntries, x509.RevocationListEntry{\n\t\t\tSerialNumber:   cert.SerialNumber,\n\t\t\tRevocationTime: c.Revocation.Time,\n\t\t\tReasonCode:     c.Revocation.ReasonCode,\n\t\t})\n\t}\n", "\tentries, err := revokedEntries(m.db.IssuedCerts, now)\n\tif err != nil {\n\t\treturn nil, nil, err\n\t}\n\trl.RevokedCertificateEntries = entries\n"), (PP, "func wipe(", "func revokedEntries(list []*certificate, now time.Time) ([]x509.RevocationListEntry, error) {\n\tvar out []x509.RevocationListEntry\n\tfor i := 0; i < len(list); i++ {\n\t\tc := list[i]\n\t\tif c.Revocation != nil {\n\t\t\tcert, err := c.parse()\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\tif !now.After(cert.NotAfter) {\n\t\t\t\tout = append(out, x509.RevocationListEntry{\n\t\t\t\t\tSerialNumber:   cert.SerialNumber,\n\t\t\t\t\tRevocationTime: c.Revocation.Time,\n\t\t\t\t\tReasonCode:     c.Revocation.ReasonCode,\n\t\t\t\t})\n\t\t\t}\n\t\t}\n\t}\n\treturn out, nil\n}\n\nfunc wipe("))
m("rev-same2", "C15", "same", (PP, "\t\tstale := slices.ContainsFunc(m.db.IssuedCerts, func(c *certificate) bool {\n\t\t\treturn c.Revocation != nil && !c.Revocation.Time.Before(rl.ThisUpdate) && !listed[c.SerialNumber]\n\t\t})\n", "\t\tstale := false\n\t\tfor _, c := range m.db.IssuedCerts {\n\t\t\tif c.Revocation == nil || c.Revocation.Time.Before(rl.ThisUpdate) || listed[c.SerialNumber] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tstale = true\n\t\t\tbreak\n\t\t}\n"))
m("rev-same3", "C15", "same", (PP, "\tif bytes.Compare(req.IssuerNameHash, subjectHash[:]) != 0 || bytes.Compare(req.IssuerKeyHash, pubKeyHash[:]) != 0 {", "\tours := bytes.Equal(req.IssuerNameHash, subjectHash) && bytes.Equal(req.IssuerKeyHash, pubKeyHash)\n\tif !ours {"))
m("rev-same4", "C15", "same", (PP, "\treturn m.db.Revoked[bytesToHex(serialNumber.Bytes())]", "\tif _, ok := m.db.Revoked[serialKey(serialNumber)]; ok {\n\t\treturn true\n\t}\n\treturn false"), (PP, "func wipe(", "func serialKey(sn *big.Int) string {\n\treturn bytesToHex(sn.Bytes())\n}\n\nfunc wipe("), (PP, "\tsnh := bytesToHex(serialNumber.Bytes())\n", "\tsnh := serialKey(serialNumber)\n"))
m("rev-same5", "C15", "same", (PP, "\tidx := slices.IndexFunc(m.db.IssuedCerts, func(c *certificate) bool {\n\t\treturn c.SerialNumber == snh\n\t})\n\n\tnow", "\tidx := -1\n\tfor i, c := range m.db.IssuedCerts {\n\t\tif c.SerialNumber == snh {\n\t\t\tidx = i\n\t\t\tbreak\n\t\t}\n\t}\n\n\tnow"))
m("rev-same6", "C15", "same", (PP, "\th := req.HashAlgorithm.New()\n\th.Write(pubKeyBytes)\n\tpubKeyHash := h.Sum(nil)\n\th.Reset()\n\th.Write(caCert.RawSubject)\n\tsubjectHash := h.Sum(nil)\n", "\tsum := func(b []byte) []byte {\n\t\th := req.HashAlgorithm.New()\n\t\th.Write(b)\n\t\treturn h.Sum(nil)\n\t}\n\tpubKeyHash := sum(pubKeyBytes)\n\tsubjectHash := sum(caCert.RawSubject)\n"))
m("rev-same7", "C15", "same", (PP, "\tif rev := m.db.IssuedCerts[idx].Revocation; rev != nil {\n\t\treturn ocsp.CreateResponse(caCert, delegateCert, ocsp.Response{\n\t\t\tStatus:           ocsp.Revoked,\n\t\t\tSerialNumber:     req.SerialNumber,\n\t\t\tThisUpdate:       now,\n\t\t\tNextUpdate:       now.Add(crlRefreshPeriod),\n\t\t\tRevokedAt:        rev.Time,\n\t\t\tRevocationReason: rev.ReasonCode,\n\t\t\tIssuerHash:       crypto.SHA256,\n\t\t\tCertificate:      delegateCert,\n\t\t}, signer)\n\t}\n\treturn ocsp.CreateResponse(caCert, delegateCert, ocsp.Response{\n\t\tStatus:       ocsp.Good,\n\t\tSerialNumber: req.SerialNumber,\n\t\tThisUpdate:   now,\n\t\tNextUpdate:   now.Add(crlRefreshPeriod),\n\t\tIssuerHash:   crypto.SHA256,\n\t\tCertificate:  delegateCert,\n\t}, signer)\n", "\tresp := ocsp.Response{\n\t\tStatus:       ocsp.Good,\n\t\tSerialNumber: req.SerialNumber,\n\t\tThisUpdate:   now,\n\t\tNextUpdate:   now.Add(crlRefreshPeriod),\n\t\tIssuerHash:   crypto.SHA256,\n\t\tCertificate:  delegateCert,\n\t}\n\tif rev := m.db.IssuedCerts[idx].Revocation; rev != nil {\n\t\tresp.Status = ocsp.Revoked\n\t\tresp.RevokedAt = rev.Time\n\t\tresp.RevocationReason = rev.ReasonCode\n\t}\n\treturn ocsp.CreateResponse(caCert, delegateCert, resp, signer)\n"))
SC = "proxy/internal/sshca/sshca.go"
m("ssh-principal", "C16", "bug", (SC, "ValidPrincipals: []string{email},", "ValidPrincipals: append([]string{email}, req.URL.Query()[\"principal\"]...),"))
m("ssh-noprincipal", "C16", "bug", (SC, "\t\tValidPrincipals: []string{email},\n", ""))
m("ssh-days", "C16", "bug", (SC, "issuedCertsLifetime = 10 * time.Minute", "issuedCertsLifetime = 10 * 24 * time.Hour"))
m("ssh-infinite", "C16", "bug", (SC, "uint64(now.Add(issuedCertsLifetime).Unix())", "uint64(now.Add(-issuedCertsLifetime).UnixNano())"))
m("ssh-host", "C16", "bug", (SC, "ssh.UserCert", "ssh.HostCert"))
m("ssh-csrf", "C16", "bug", (SC, "v != \"1\" {", "v != \"1\" && req.Header.Get(\"origin\") != \"\" {"))
m("ssh-email", "C16", "bug", (SC, "ok && e != \"\" {", "ok && e != \"\" && email == \"\" {"), (SC, "var email string\n", "email := req.URL.Query().Get(\"email\")\n"))
m("ssh-comment", "C16", "bug", (SC, "pub, _, _, _, err :=", "pub, _, options, _, err :="), (SC, "if err := cert.SignCert", "for _, o := range options {\n\t\tcert.Permissions.Extensions[o] = \"\"\n\t}\n\tif err := cert.SignCert"))
m("ssh-signerr", "C16", "bug", (SC, "http.Error(w, \"internal error\", http.StatusInternalServerError)\n\t\treturn\n\t}\n\tif ca.opts.Event", "w.WriteHeader(500)\n\t}\n\tif ca.opts.Event"))
m("ssh-norandom", "C16", "bug", (SC, "binary.BigEndian.Uint64(rnd),", "binary.BigEndian.Uint64([]byte(ca.caFile + \"00000000\")),"))
m("ssh-nosave", "C16", "bug", (SC, "\t\tca.db.PrivateKey = keyBytes\n\t\tchanged = true\n", "\t\tca.db.PrivateKey = keyBytes\n"))
m("ssh-nosave2", "C16", "bug", (SC, "\treturn commit(changed, nil)\n", "\tif err := commit(changed, nil); err != nil {\n\t\tca.opts.Logger.Errorf(\"ERR %v\", err)\n\t}\n\treturn nil\n"))
m("ssh-same1", "C16", "same", (SC, "\tcert := &ssh.Certificate{\n", "\tcert := newCert(pub, rnd, email, now)\n\tif err := cert.SignCert(rand.Reader, ca.signer); err != nil {\n\t\tca.opts.Logger.Errorf(\"ERR SignCert: %v\", err)\n\t\thttp.Error(w, \"internal error\", http.StatusInternalServerError)\n\t\treturn\n\t}\n\tif ca.opts.EventRecorder != nil {\n\t\tca.opts.EventRecorder.Record(\"ssh certificate issued\")\n\t}\n\n\tout := ssh.MarshalAuthorizedKey(cert)\n\tw.Header().Set(\"cache-control\", \"no-store\")\n\tw.Header().Set(\"content-type\", \"text/plain\")\n\tw.Header().Set(\"content-length\", fmt.Sprintf(\"%d\", len(out)))\n\tw.Write(out)\n}\n\nfunc newCert(pub ssh.PublicKey, rnd []byte, email string, now time.Time) *ssh.Certificate {\n\treturn &ssh.Certificate{\n"), (SC, "\t\t\t},\n\t\t},\n\t}\n\tif err := cert.SignCert(rand.Reader, ca.signer); err != nil {\n\t\tca.opts.Logger.Errorf(\"ERR SignCert: %v\", err)\n\t\thttp.Error(w, \"internal error\", http.StatusInternalServerError)\n\t\treturn\n\t}\n\tif ca.opts.EventRecorder != nil {\n\t\tca.opts.EventRecorder.Record(\"ssh certificate issued\")\n\t}\n\n\tout := ssh.MarshalAuthorizedKey(cert)\n\tw.Header().Set(\"cache-control\", \"no-store\")\n\tw.Header().Set(\"content-type\", \"text/plain\")\n\tw.Header().Set(\"content-length\", fmt.Sprintf(\"%d\", len(out)))\n\tw.Write(out)\n}", "\t\t\t},\n\t\t},\n\t}\n}"))
m("ssh-same2", "C16", "same", (SC, "\tvar email string\n\tif claims := ca.opts.ClaimsFromCtx(req.Context()); claims != nil {\n\t\tif e, ok := claims[\"email\"].(string); ok && e != \"\" {\n\t\t\temail = e\n\t\t}\n\t}\n\tif email == \"\" {", "\temail, ok := ca.user(req)\n\tif !ok {"), (SC, "func (ca *SSHCA) ServeCertificate", "func (ca *SSHCA) user(req *http.Request) (string, bool) {\n\tclaims := ca.opts.ClaimsFromCtx(req.Context())\n\temail, _ := claims[\"email\"].(string)\n\treturn email, email != \"\"\n}\n\nfunc (ca *SSHCA) ServeCertificate"))
m("ssh-same3", "C16", "same", (SC, "ValidPrincipals: []string{email},\n", ""), (SC, "if err := cert.SignCert", "cert.ValidPrincipals = append(cert.ValidPrincipals, email)\n\tif err := cert.SignCert"), (SC, "uint64(now.Add(issuedCertsLifetime).Unix())", "uint64(expires.Unix())"), (SC, "now := time.Now().UTC()\n", "now := time.Now()\n\texpires := now.UTC().Add(issuedCertsLifetime)\n"))
m("ssh-same4", "C16", "same", (SC, "\tif len(ca.db.PrivateKey) == 0 {\n\t\t_, keyBytes, err := ca.generateKey(ca.opts.KeyType)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tca.db.PrivateKey = keyBytes\n\t\tchanged = true\n\t}\n", "\tcreated, err := ca.ensureKey()\n\tif err != nil {\n\t\treturn err\n\t}\n\tchanged = changed || created\n"), (SC, "func (ca *SSHCA) parseKeyBytes", "func (ca *SSHCA) ensureKey() (bool, error) {\n\tif len(ca.db.PrivateKey) > 0 {\n\t\treturn false, nil\n\t}\n\t_, b, err := ca.generateKey(ca.opts.KeyType)\n\tif err != nil {\n\t\treturn false, err\n\t}\n\tca.db.PrivateKey = b\n\treturn true, nil\n}\n\nfunc (ca *SSHCA) parseKeyBytes"))
BH = "proxy/backend-http.go"
m("st-first", "C17", "bug", (BH, "for _, pp := range strings.Split(p, \"/\") {\n\t\tif strings", "for _, pp := range strings.Split(p, \"/\")[1:] {\n\t\tif strings"))
m("st-dot2", "C17", "bug", (BH, "strings.HasPrefix(pp, \".\") || strings", "pp == \"..\" || strings"))
m("st-and", "C17", "bug", (BH, "strings.HasPrefix(pp, \".\") || strings", "strings.HasPrefix(pp, \".\") && strings"))
m("st-wellknown", "C17", "bug", (BH, "if strings.HasPrefix(pp, \".\") || strings.Contains(pp, `\\`) {", "if pp == \".well-known\" {\n\t\t\tbreak\n\t\t}\n\t\tif strings.HasPrefix(pp, \".\") || strings.Contains(pp, `\\`) {"))
m("st-raw", "C17", "bug", (BH, "p = filepath.Join(docRoot, filepath.FromSlash(p))", "p = filepath.Join(docRoot, strings.TrimPrefix(req.URL.Path, prefix))"), (BH, "\tcleanPath := pathClean(req.URL.Path)\n\tif cleanPath != req.URL.Path {\n\t\tbe.redirectPermanently(w, req, cleanPath)\n\t\treturn\n\t}\n\tp :=", "\tcleanPath := pathClean(req.URL.Path)\n\tp :="))
m("st-regular", "C17", "bug", (BH, "err != nil || !fi.Mode().IsRegular() {", "err != nil || fi.IsDir() {"))
m("st-regular2", "C17", "bug", (BH, "if fi, err := f.Stat(); err != nil || !fi.Mode().IsRegular() {", "if fi, err := os.Stat(p); err != nil || !fi.Mode().IsRegular() {"))
m("st-root", "C17", "bug", (BH, "\tif docRoot == \"\" {\n\t\tnotFound()\n\t\treturn\n\t}\n", ""))
m("st-post", "C17", "bug", (BH, "\tcase http.MethodGet, http.MethodHead:\n\tdefault:", "\tcase http.MethodGet, http.MethodHead, http.MethodPost:\n\tdefault:"))
m("st-redir", "C17", "bug", (BH, "\tif pp != \"/\" && strings.HasSuffix(p, \"/\") {", "\tif strings.HasPrefix(p, \"//\") {\n\t\treturn p\n\t}\n\tif pp != \"/\" && strings.HasSuffix(p, \"/\") {"))
m("st-redir2", "C17", "bug", (BH, "be.redirectPermanently(w, req, cleanPath+\"/\")\n\t\t\treturn\n\t\t}\n\t\tp = ", "be.redirectPermanently(w, req, req.URL.Path+\"/\")\n\t\t\treturn\n\t\t}\n\t\tp = "))
m("st-redir3", "C17", "bug", (BH, "\tu := url.URL{\n\t\tPath:     path,", "\tu := url.URL{\n\t\tHost: req.Header.Get(\"x-forwarded-host\"),\n\t\tPath:     path,"))
m("st-index", "C17", "bug", (BH, "p = filepath.Join(p, \"index.html\")", "p = filepath.Join(p, req.URL.Query().Get(\"index\")+\"index.html\")"))
m("st-same1", "C17", "same", (BH, "\tfor _, pp := range strings.Split(p, \"/\") {\n\t\tif strings.HasPrefix(pp, \".\") || strings.Contains(pp, `\\`) {\n\t\t\tnotFound()\n\t\t\treturn\n\t\t}\n\t}\n", "\tif badPath(p) {\n\t\tnotFound()\n\t\treturn\n\t}\n"), (BH, "func pathClean(", "func badPath(p string) bool {\n\tfor _, pp := range strings.Split(p, \"/\") {\n\t\tif strings.HasPrefix(pp, \".\") || strings.Contains(pp, `\\`) {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nfunc pathClean("))
m("st-same2", "C17", "same", (BH, "\tfor _, pp := range strings.Split(p, \"/\") {\n\t\tif strings.HasPrefix(pp, \".\") || strings.Contains(pp, `\\`) {\n\t\t\tnotFound()\n\t\t\treturn\n\t\t}\n\t}\n", "\tif slices.ContainsFunc(strings.Split(p, \"/\"), func(s string) bool {\n\t\treturn strings.HasPrefix(s, \".\") || strings.Contains(s, `\\`)\n\t}) {\n\t\tnotFound()\n\t\treturn\n\t}\n"))
m("st-same3", "C17", "same", (BH, "\tfor _, pp := range strings.Split(p, \"/\") {\n\t\tif strings.HasPrefix(pp, \".\") || strings.Contains(pp, `\\`) {\n\t\t\tnotFound()\n\t\t\treturn\n\t\t}\n\t}\n", "\tsegments := strings.Split(p, \"/\")\n\tfor i := 0; i < len(segments); i++ {\n\t\thidden := strings.HasPrefix(segments[i], \".\")\n\t\tif hidden {\n\t\t\tnotFound()\n\t\t\treturn\n\t\t}\n\t\tif strings.Contains(segments[i], `\\`) {\n\t\t\tnotFound()\n\t\t\treturn\n\t\t}\n\t}\n"))
m("st-same4", "C17", "same", (BH, "\tswitch req.Method {\n\tcase http.MethodGet, http.MethodHead:\n\tdefault:", "\tif req.Method != http.MethodGet && req.Method != http.MethodHead {"), (BH, "p = filepath.Join(docRoot, filepath.FromSlash(p))\n\tfi, err := os.Stat(p)", "full := filepath.Join(docRoot, filepath.FromSlash(p))\n\tp = full\n\tfi, err := os.Stat(full)"))
m("st-same5", "C17", "same", (BH, "\tf, err := os.Open(p)\n\tif err != nil {\n\t\tnotFound()\n\t\treturn\n\t}\n\tdefer f.Close()\n\tif fi, err := f.Stat(); err != nil || !fi.Mode().IsRegular() {", "\tf, regular, err := openFile(p)\n\tif err != nil {\n\t\tnotFound()\n\t\treturn\n\t}\n\tdefer f.Close()\n\tif !regular {"), (BH, "func pathClean(", "func openFile(p string) (*os.File, bool, error) {\n\tf, err := os.Open(p)\n\tif err != nil {\n\t\treturn nil, false, err\n\t}\n\tfi, err := f.Stat()\n\treturn f, err == nil && fi.Mode().IsRegular(), nil\n}\n\nfunc pathClean("))
m("st-same6", "C17", "same", (BH, "\tif !strings.HasPrefix(p, \"/\") {\n\t\tp = \"/\" + p\n\t}\n\tpp := path.Clean(p)\n\tif pp == \".\" {\n\t\tpp = \"/\"\n\t}\n", "\tpp := path.Clean(\"/\" + p)\n"))
m("st-same7", "C17", "same", (BH, "\tu := url.URL{\n\t\tPath:     path,\n\t\tRawQuery: req.URL.RawQuery,\n\t}\n", "\tvar u url.URL\n\tu.Path = path\n\tu.RawQuery = req.URL.RawQuery\n"))
PR = "proxy/proxy.go"
QU = "proxy/quic.go"
BA = "proxy/backend.go"
UT = "proxy/util.go"
SNC = "\tif (cs.ServerName == \"\" && serverName != p.defaultServerName()) || (cs.ServerName != \"\" && cs.ServerName != serverName) {\n"
m("sni-anyproto", "C18", "bug", (PR, "\tif !ok {\n\t\treturn nil, errors.New(\"unexpected SNI\")", "\tif !ok {\n\t\tbe, ok = p.backends[beKey{serverName: p.defServerName}]\n\t}\n\tif !ok {\n\t\treturn nil, errors.New(\"unexpected SNI\")"))
m("sni-shutdown", "C18", "bug", (PR, "\tif be.state.shutdown {\n", "\tif be.state.shutdown && be.state.inFlight == 0 {\n"))
m("sni-default", "C18", "bug", (PR, "\tif serverName == \"\" {\n\t\tp.recordEvent(\"no SNI\")", "\tif serverName == \"\" || net.ParseIP(serverName) != nil {\n\t\tp.recordEvent(\"no SNI\")"))
m("sni-mismatch", "C18", "bug", (PR, SNC, "\tif cs.ServerName != \"\" && cs.ServerName != serverName {\n"))
m("sni-mismatch2", "C18", "bug", (PR, SNC, "\tif (cs.ServerName == \"\" && serverName != p.defaultServerName()) || (cs.ServerName != \"\" && !strings.HasSuffix(cs.ServerName, serverName)) {\n"))
m("sni-mismatch3", "C18", "bug", (PR, SNC, "\tif !cs.DidResume && ((cs.ServerName == \"\" && serverName != p.defaultServerName()) || (cs.ServerName != \"\" && cs.ServerName != serverName)) {\n"))
m("sni-cfg", "C18", "bug", (PR, "p.handleTLSConnection(tls.Server(conn, be.tlsConfig))", "tc := be.tlsConfig\n\t\tif hello.ServerName == \"\" {\n\t\t\ttc = p.baseTLSConfig()\n\t\t}\n\t\tp.handleTLSConnection(tls.Server(conn, tc))"))
m("sni-acme", "C18", "bug", (PR, "\t\tp.handleACMEConnection(tls.Server(conn, tc))\n", "\t\tac := tls.Server(conn, tc)\n\t\tp.handleACMEConnection(ac)\n\t\tif ac.ConnectionState().NegotiatedProtocol != acme.ALPNProto {\n\t\t\tp.handleTLSConnection(ac)\n\t\t}\n"))
m("quic-default", "C18", "bug", (QU, "p.backends[beKey{serverName: hello.ServerName, proto: proto}]; ok && be.Mode", "p.backends[beKey{serverName: strings.TrimSuffix(hello.ServerName, \".\"), proto: proto}]; ok && be.Mode"), (QU, "import (\n", "import (\n\t\"strings\"\n"))
m("quic-nil", "C18", "bug", (QU, "\t\treturn nil, tlsUnrecognizedName\n", "\t\treturn nil, nil\n"))
m("host-nocheck", "C18", "bug", (BH, "if !slices.Contains(be.ServerNames, req.URL.Hostname()) {", "if be.Mode != ModeHTTP && !slices.Contains(be.ServerNames, req.URL.Hostname()) {"))
m("host-sni", "C18", "bug", (BH, "if !slices.Contains(be.ServerNames, req.URL.Hostname()) {", "if !slices.Contains(be.ServerNames, serverName) {"))
m("host-suffix", "C18", "bug", (BH, "if !slices.Contains(be.ServerNames, req.URL.Hostname()) {", "if !slices.ContainsFunc(be.ServerNames, func(n string) bool { return n == req.URL.Hostname() || strings.HasSuffix(req.URL.Hostname(), \".\"+n) }) {"))
m("host-xfh", "C18", "bug", (BH, "\thost := req.Host\n\t\tif host == \"\" {\n\t\t\thost = serverName\n\t\t}\n\t\treq.URL.Host = host", "\thost := req.Host\n\t\tif host == \"\" || req.ProtoMajor == 3 {\n\t\t\thost = serverName\n\t\t}\n\t\treq.URL.Host = host"))
m("host-return", "C18", "bug", (BH, "\t\t\thttp.Error(w, \"Misdirected Request\", http.StatusMisdirectedRequest)\n\t\t\treturn\n", "\t\t\thttp.Error(w, \"Misdirected Request\", http.StatusMisdirectedRequest)\n\t\t\tif req.Method != http.MethodOptions {\n\t\t\t\treturn\n\t\t\t}\n"))
m("lh-host", "C18", "bug", (BH, "\t\tif h.host != \"\" && h.host != reqHost {\n\t\t\treturn false\n\t\t}\n\t\treturn h.path == cleanPath ||", "\t\tif h.host != \"\" && h.host != reqHost && !h.matchPrefix {\n\t\t\treturn false\n\t\t}\n\t\treturn h.path == cleanPath ||"))
m("lh-prefix", "C18", "bug", (BH, "(h.matchPrefix && strings.HasPrefix(cleanPath, h.path+\"/\"))", "(h.matchPrefix && strings.HasPrefix(cleanPath, h.path))"))
m("lh-prefix2", "C18", "bug", (BH, "(h.matchPrefix && strings.HasPrefix(cleanPath, h.path+\"/\"))", "strings.HasPrefix(cleanPath, h.path+\"/\")"))
m("ov-suffix", "C18", "bug", (BH, "if !strings.HasPrefix(cleanPath, prefix) {\n\t\t\t\t\tcontinue", "if !strings.HasPrefix(cleanPath, prefix) && !strings.HasPrefix(req.URL.Path, prefix) {\n\t\t\t\t\tcontinue"))
m("ov-index", "C18", "bug", (BH, "ctx = context.WithValue(ctx, ctxOverrideIDKey, i)", "ctx = context.WithValue(ctx, ctxOverrideIDKey, min(i, len(be.PathOverrides)-2))"))
m("sni-same1", "C18", "same", (PR, SNC, "\tmatches := cs.ServerName == serverName\n\tif cs.ServerName == \"\" {\n\t\tmatches = serverName == p.defaultServerName()\n\t}\n\tif !matches {\n"))
m("sni-same2", "C18", "same", (PR, SNC, "\tnegotiated := cs.ServerName\n\tif negotiated == \"\" {\n\t\tnegotiated = p.defaultServerName()\n\t}\n\tif negotiated != serverName {\n"))
m("sni-same3", "C18", "same", (PR, "\tvar be *Backend\n\tvar ok bool\n\tfor _, proto := range protos {\n\t\tif be, ok = p.backends[beKey{serverName: serverName, proto: proto}]; ok {\n\t\t\tbreak\n\t\t}\n\t}\n\tif !ok {\n\t\tbe, ok = p.backends[beKey{serverName: serverName}]\n\t}\n\tif !ok {\n\t\treturn nil, errors.New(\"unexpected SNI\")\n\t}\n", "\tbe := p.find(serverName, protos)\n\tif be == nil {\n\t\treturn nil, errors.New(\"unexpected SNI\")\n\t}\n"), (PR, "func (p *Proxy) backend(", "func (p *Proxy) find(serverName string, protos []string) *Backend {\n\tfor _, proto := range append(slices.Clone(protos), \"\") {\n\t\tif be, ok := p.backends[beKey{serverName: serverName, proto: proto}]; ok {\n\t\t\treturn be\n\t\t}\n\t}\n\treturn nil\n}\n\nfunc (p *Proxy) backend("))
m("sni-same4", "C18", "same", (PR, "\tserverName := hello.ServerName\n\tif serverName == \"\" {\n\t\tp.recordEvent(\"no SNI\")\n\t\tserverName = p.defaultServerName()\n\t}\n", "\tserverName := p.nameOf(hello)\n"), (PR, "func (p *Proxy) backend(", "func (p *Proxy) nameOf(hello clientHello) string {\n\tif n := hello.ServerName; n != \"\" {\n\t\treturn n\n\t}\n\tp.recordEvent(\"no SNI\")\n\treturn p.defaultServerName()\n}\n\nfunc (p *Proxy) backend("))
m("sni-same5", "C18", "same", (PR, "\tcase be.Mode == ModeTCP || be.Mode == ModeTLS || be.Mode == ModeQUIC:\n\t\tif err := p.checkIP(conn); err != nil {\n\t\t\treturn\n\t\t}\n\t\tp.handleTLSConnection(tls.Server(conn, be.tlsConfig))\n", "\tcase be.Mode == ModeTCP || be.Mode == ModeTLS || be.Mode == ModeQUIC:\n\t\tif err := p.checkIP(conn); err != nil {\n\t\t\treturn\n\t\t}\n\t\ttc := be.tlsConfig\n\t\ttlsConn := tls.Server(conn, tc)\n\t\tp.handleTLSConnection(tlsConn)\n"))
m("host-same1", "C18", "same", (BH, "\t\tif !slices.Contains(be.ServerNames, req.URL.Hostname()) {\n\t\t\tif req.Body != nil {\n\t\t\t\treq.Body.Close()\n\t\t\t}\n\t\t\thttp.Error(w, \"Misdirected Request\", http.StatusMisdirectedRequest)\n\t\t\treturn\n\t\t}\n", "\t\tif !be.servesHost(req.URL.Hostname()) {\n\t\t\tmisdirected(w, req)\n\t\t\treturn\n\t\t}\n"), (BH, "func addr2ip(", "func (be *Backend) servesHost(h string) bool {\n\tfor _, n := range be.ServerNames {\n\t\tif n == h {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nfunc misdirected(w http.ResponseWriter, req *http.Request) {\n\tif req.Body != nil {\n\t\treq.Body.Close()\n\t}\n\thttp.Error(w, \"Misdirected Request\", http.StatusMisdirectedRequest)\n}\n\nfunc addr2ip("))
m("host-same2", "C18", "same", (BH, "\t\thost := req.Host\n\t\tif host == \"\" {\n\t\t\thost = serverName\n\t\t}\n\t\treq.URL.Host = host\n", "\t\tif req.URL.Host = req.Host; req.Host == \"\" {\n\t\t\treq.URL.Host = serverName\n\t\t}\n\t\thost := req.URL.Host\n"))
m("lh-same1", "C18", "same", (BH, "\thi := slices.IndexFunc(be.localHandlers, func(h localHandler) bool {\n\t\tif h.host != \"\" && h.host != reqHost {\n\t\t\treturn false\n\t\t}\n\t\treturn h.path == cleanPath || (h.matchPrefix && strings.HasPrefix(cleanPath, h.path+\"/\"))\n\t})\n", "\thi := -1\n\tfor i, h := range be.localHandlers {\n\t\tif h.matches(reqHost, cleanPath) {\n\t\t\thi = i\n\t\t\tbreak\n\t\t}\n\t}\n"), (BH, "func addr2ip(", "func (h localHandler) matches(host, path string) bool {\n\tif h.host != \"\" && h.host != host {\n\t\treturn false\n\t}\n\tif h.path == path {\n\t\treturn true\n\t}\n\treturn h.matchPrefix && strings.HasPrefix(path, h.path+\"/\")\n}\n\nfunc addr2ip("))
m("lh-same2", "C18", "same", (BH, "\tif hi >= 0 {\n\t\tif !be.localHandlers[hi].ssoBypass && !be.enforceSSOPolicy(w, req) {\n\t\t\treturn false\n\t\t}\n", "\tif hi >= 0 {\n\t\tlh := be.localHandlers[hi]\n\t\tif !lh.ssoBypass && !be.enforceSSOPolicy(w, req) {\n\t\t\treturn false\n\t\t}\n"), (BH, "\t\tbe.localHandlers[hi].handler.ServeHTTP(w, req)\n", "\t\tlh.handler.ServeHTTP(w, req)\n"))
m("ov-same1", "C18", "same", (BH, "\t\t\t\tif !strings.HasPrefix(cleanPath, prefix) {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n", "\t\t\t\tif _, under := strings.CutPrefix(cleanPath, prefix); !under {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n"))
VER = '''			if len(cs.PeerCertificates) == 0 {
				return tlsCertificateRequired
			}
			cert := cs.PeerCertificates[0]
			if m, ok := be.pkiMap[hex.EncodeToString(cert.AuthorityKeyId)]; ok {
				if m.IsRevoked(cert.SerialNumber) {
					return tlsCertificateRevoked
				}
			} else if len(cert.OCSPServer) > 0 {
				if err := be.ocspCache.VerifyChains(cs.VerifiedChains, cs.OCSPResponse); err != nil {
					be.recordEvent(fmt.Sprintf("backend X509 %s [%s] (OCSP:%v)", idnaToUnicode(cs.ServerName), cert.Subject, err))
					return tlsCertificateRevoked
				}
			}
			return nil
'''
PAR = '''	var (
		addresses          = be.Addresses
		mode               = be.Mode
		timeout            = be.ForwardTimeout
		insecureSkipVerify = be.InsecureSkipVerify
		serverName         = be.ForwardServerName
		rootCAs            = be.forwardRootCAs
		proxyProtoVersion  = be.proxyProtocolVersion
		next               = &be.state.next
	)
	if id, ok := ctx.Value(ctxOverrideIDKey).(int); ok && id >= 0 && id < len(be.PathOverrides) {
		po := be.PathOverrides[id]
		addresses = po.Addresses
		mode = po.Mode
		timeout = po.ForwardTimeout
		insecureSkipVerify = po.InsecureSkipVerify
		serverName = po.ForwardServerName
		rootCAs = po.forwardRootCAs
		proxyProtoVersion = po.proxyProtocolVersion
		next = &be.state.oNext[id]
	}
'''
m("be-skip", "C19", "bug", (BA, "\t\tinsecureSkipVerify = po.InsecureSkipVerify\n", "\t\tinsecureSkipVerify = be.InsecureSkipVerify || po.InsecureSkipVerify\n"))
m("be-roots", "C19", "bug", (BA, "\t\trootCAs = po.forwardRootCAs\n", ""))
m("be-roots2", "C19", "bug", (BA, "\t\trootCAs = po.forwardRootCAs\n", "\t\tif po.forwardRootCAs != nil {\n\t\t\trootCAs = po.forwardRootCAs\n\t\t}\n"))
m("be-name", "C19", "bug", (QU, "\t\tserverName = po.ForwardServerName\n", ""))
m("be-mode", "C19", "bug", (BA, "if mode == ModeTLS || mode == ModeHTTPS {", "if be.Mode == ModeTLS || be.Mode == ModeHTTPS {"))
m("be-mode2", "C19", "bug", (BA, "if mode == ModeTLS || mode == ModeHTTPS {", "if mode == ModeTLS || (mode == ModeHTTPS && len(protos) > 0) {"))
m("be-next", "C19", "bug", (BA, "\t\tnext = &be.state.oNext[id]\n", ""))
m("be-noverify", "C19", "bug", (BA, "\t\tVerifyConnection: func(cs tls.ConnectionState) error {\n" + VER + "\t\t},\n\t}\n", "\t}\n\tif !insecureSkipVerify && rootCAs == nil {\n\t\ttc.VerifyConnection = func(cs tls.ConnectionState) error {\n" + VER + "\t\t}\n\t}\n"))
m("be-revoked", "C19", "bug", (BA, "\t\t\t\tif m.IsRevoked(cert.SerialNumber) {\n", "\t\t\t\tif m.IsRevoked(cert.SerialNumber) && !insecureSkipVerify {\n"))
m("be-aki", "C19", "bug", (BA, "be.pkiMap[hex.EncodeToString(cert.AuthorityKeyId)]", "be.pkiMap[hex.EncodeToString(cert.SubjectKeyId)]"))
m("be-serial", "C19", "bug", (QU, "m.IsRevoked(cert.SerialNumber)", "m.IsRevoked(cs.PeerCertificates[len(cs.PeerCertificates)-1].SerialNumber)"))
m("be-ocsp", "C19", "bug", (QU, "} else if len(cert.OCSPServer) > 0 {", "} else if len(cert.OCSPServer) > 0 && len(cs.OCSPResponse) > 0 {"))
m("be-ocsp2", "C19", "bug", (BA, "\t\t\t\t\treturn tlsCertificateRevoked\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn nil\n", "\t\t\t\t}\n\t\t\t}\n\t\t\treturn nil\n"))
m("be-pki", "C19", "bug", (PR, "\t\t\t\t\tbe.pkiMap[hex.EncodeToString(ca.SubjectKeyId)] = m\n\t\t\t\t\tpo.forwardRootCAs.AddCert(ca)\n", "\t\t\t\t\tpo.forwardRootCAs.AddCert(ca)\n"))
m("be-pki2", "C19", "bug", (PR, "\t\t\t\tbe.pkiMap[hex.EncodeToString(ca.SubjectKeyId)] = m\n\t\t\t\tbe.forwardRootCAs", "\t\t\t\tbe.pkiMap[hex.EncodeToString(ca.AuthorityKeyId)] = m\n\t\t\t\tbe.forwardRootCAs"))
m("be-h1", "C19", "bug", (BH, "\t\tDialTLSContext: func(ctx context.Context, network, addr string) (net.Conn, error) {\n\t\t\treturn be.dial(ctx)\n\t\t},\n\t\tMaxIdleConns: ", "\t\tMaxIdleConns: "))
m("be-timeout", "C19", "bug", (BA, "\t\t\t\tTimeout:   timeout,\n", ""))
m("be-ovid", "C19", "bug", (BA, "ctx.Value(ctxOverrideIDKey).(int); ok && id >= 0 && id < len(be.PathOverrides) {\n\t\tpo := be.PathOverrides[id]", "ctx.Value(ctxOverrideIDKey).(int); ok && id > 0 && id < len(be.PathOverrides) {\n\t\tpo := be.PathOverrides[id]"))
m("be-same1", "C19", "same", (BA, "\t\tVerifyConnection: func(cs tls.ConnectionState) error {\n" + VER + "\t\t},\n", "\t\tVerifyConnection: be.verifyServer,\n"), (QU, "\t\tVerifyConnection: func(cs tls.ConnectionState) error {\n" + VER + "\t\t},\n", "\t\tVerifyConnection: be.verifyServer,\n"), (BA, "func writeProxyHeader(", "func (be *Backend) verifyServer(cs tls.ConnectionState) error {\n" + VER + "}\n\nfunc writeProxyHeader("), (QU, '	"encoding/hex"\n', ""))
m("be-same2", "C19,C20", "same", (BA, PAR, '''	type params struct {
		addresses          []string
		mode               string
		timeout            time.Duration
		insecureSkipVerify bool
		serverName         string
		rootCAs            *x509.CertPool
		proxyProtoVersion  byte
		next               *int
	}
	prm := params{be.Addresses, be.Mode, be.ForwardTimeout, be.InsecureSkipVerify, be.ForwardServerName, be.forwardRootCAs, be.proxyProtocolVersion, &be.state.next}
	if id, ok := ctx.Value(ctxOverrideIDKey).(int); ok && id >= 0 && id < len(be.PathOverrides) {
		po := be.PathOverrides[id]
		prm = params{po.Addresses, po.Mode, po.ForwardTimeout, po.InsecureSkipVerify, po.ForwardServerName, po.forwardRootCAs, po.proxyProtocolVersion, &be.state.oNext[id]}
	}
	addresses, mode, timeout, insecureSkipVerify, serverName, rootCAs, proxyProtoVersion, next := prm.addresses, prm.mode, prm.timeout, prm.insecureSkipVerify, prm.serverName, prm.rootCAs, prm.proxyProtoVersion, prm.next
'''))
m("be-same3", "C19,C20", "same", (BA, PAR, '''	prm := be.dialParams(ctx)
	addresses, mode, timeout, insecureSkipVerify, serverName, rootCAs, proxyProtoVersion, next := prm.addresses, prm.mode, prm.timeout, prm.insecureSkipVerify, prm.serverName, prm.rootCAs, prm.proxyProtoVersion, prm.next
'''), (BA, "func writeProxyHeader(", '''type dialParams struct {
	addresses          []string
	mode               string
	timeout            time.Duration
	insecureSkipVerify bool
	serverName         string
	rootCAs            *x509.CertPool
	proxyProtoVersion  byte
	next               *int
}

func (be *Backend) dialParams(ctx context.Context) dialParams {
	id, ok := ctx.Value(ctxOverrideIDKey).(int)
	if !ok || id < 0 || id >= len(be.PathOverrides) {
		return dialParams{be.Addresses, be.Mode, be.ForwardTimeout, be.InsecureSkipVerify, be.ForwardServerName, be.forwardRootCAs, be.proxyProtocolVersion, &be.state.next}
	}
	po := be.PathOverrides[id]
	return dialParams{po.Addresses, po.Mode, po.ForwardTimeout, po.InsecureSkipVerify, po.ForwardServerName, po.forwardRootCAs, po.proxyProtocolVersion, &be.state.oNext[id]}
}

func writeProxyHeader('''))
m("be-same4", "C19,C20", "same", (BA, "		if mode == ModeTLS || mode == ModeHTTPS {\n			c = tls.Client(c, tc)\n		}\n", "		switch mode {\n		case ModeTLS, ModeHTTPS:\n			c = tls.Client(c, tc)\n		}\n"), (BA, '''			dialer := &net.Dialer{
				Timeout:   timeout,
				KeepAlive: 30 * time.Second,
			}
			c, err = dialer.DialContext(ctx, "tcp", addr)
			if err == nil && proxyProtoVersion > 0 {
				if err = writeProxyHeader(proxyProtoVersion, c, ctx.Value(connCtxKey).(anyConn)); err != nil {
					c.Close()
				}
			}
''', '''			c, err = dialTCP(ctx, addr, timeout, proxyProtoVersion)
'''), (BA, "func writeProxyHeader(", '''func dialTCP(ctx context.Context, addr string, timeout time.Duration, proxyProtoVersion byte) (net.Conn, error) {
	dialer := &net.Dialer{
		Timeout:   timeout,
		KeepAlive: 30 * time.Second,
	}
	c, err := dialer.DialContext(ctx, "tcp", addr)
	if err != nil {
		return nil, err
	}
	if proxyProtoVersion == 0 {
		return c, nil
	}
	cc := ctx.Value(connCtxKey).(anyConn)
	if err := writeProxyHeader(proxyProtoVersion, c, cc); err != nil {
		c.Close()
		return nil, err
	}
	return c, nil
}

func writeProxyHeader('''))
m("be-same5", "C19", "same", (PR, '''			if m, ok := pkis[n]; ok {
				ca, err := m.CACert()
				if err != nil {
					return err
				}
				be.pkiMap[hex.EncodeToString(ca.SubjectKeyId)] = m
				be.forwardRootCAs.AddCert(ca)
				continue
			}
			if err := loadCerts(be.forwardRootCAs, n); err != nil {
				return err
			}
''', '''			if err := be.trustCA(be.forwardRootCAs, n, pkis); err != nil {
				return err
			}
'''), (PR, '''				if m, ok := pkis[n]; ok {
					ca, err := m.CACert()
					if err != nil {
						return err
					}
					be.pkiMap[hex.EncodeToString(ca.SubjectKeyId)] = m
					po.forwardRootCAs.AddCert(ca)
					continue
				}
				if err := loadCerts(po.forwardRootCAs, n); err != nil {
					return err
				}
''', '''				if err := be.trustCA(po.forwardRootCAs, n, pkis); err != nil {
					return err
				}
'''), (PR, "func (p *Proxy) acceptProxyHeader(", '''func (be *Backend) trustCA(pool *x509.CertPool, n string, pkis map[string]*pki.PKIManager) error {
	m, ok := pkis[n]
	if !ok {
		return loadCerts(pool, n)
	}
	ca, err := m.CACert()
	if err != nil {
		return err
	}
	pool.AddCert(ca)
	be.pkiMap[hex.EncodeToString(ca.SubjectKeyId)] = m
	return nil
}

func (p *Proxy) acceptProxyHeader('''))
ACC = '''	if p.acceptProxyHeader(conn.RemoteAddr()) {
		cc := proxyproto.NewConn(conn.Conn)
		conn.Conn = cc
	}
'''
WPH = '''				if err = writeProxyHeader(proxyProtoVersion, c, ctx.Value(connCtxKey).(anyConn)); err != nil {
					c.Close()
				}
'''
KEY = '''		hostKey := bytes.NewBufferString(serverName + ";" + override)
		if proxyProtoVersion > 0 {
			hostKey.WriteByte(';')
			writeProxyHeader(proxyProtoVersion, hostKey, req.Context().Value(connCtxKey).(anyConn))
		}
		h := sha256.Sum256(hostKey.Bytes())
		req.URL.Host = hex.EncodeToString(h[:])
'''
m("pp-any", "C20", "bug", (PR, "	for _, n := range p.cfg.acceptProxyHeaderFrom {\n		if n.Contains(tcpAddr.IP) {\n			return true\n		}\n	}\n	return false\n", "	for _, n := range p.cfg.acceptProxyHeaderFrom {\n		if n.Contains(tcpAddr.IP) {\n			return true\n		}\n	}\n	return len(p.cfg.acceptProxyHeaderFrom) > 0 && tcpAddr.IP.IsLoopback()\n"))
m("pp-first", "C20", "bug", (PR, "		if n.Contains(tcpAddr.IP) {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (p *Proxy) handleConnection", "		return n.Contains(tcpAddr.IP)\n	}\n	return false\n}\n\nfunc (p *Proxy) handleConnection"))
m("pp-local", "C20", "bug", (PR, "if p.acceptProxyHeader(conn.RemoteAddr()) {", "if p.acceptProxyHeader(conn.LocalAddr()) {"))
m("pp-always", "C20", "bug", (PR, "if p.acceptProxyHeader(conn.RemoteAddr()) {", "if p.acceptProxyHeader(conn.RemoteAddr()) || len(p.cfg.acceptProxyHeaderFrom) > 0 {"))
m("pp-cfgskip", "C20", "bug", ("proxy/config.go", "			return fmt.Errorf(\"AcceptProxyHeaderFrom[%d]: %w\", i, err)\n", "			_, n, _ = net.ParseCIDR(\"0.0.0.0/0\")\n"))
m("pp-hdr-late", "C20", "bug", (BA, "			if err == nil && proxyProtoVersion > 0 {\n" + WPH + "			}\n", ""), (BA, "			c = tls.Client(c, tc)\n		}\n", "			c = tls.Client(c, tc)\n		}\n		if mode != ModeQUIC && proxyProtoVersion > 0 {\n			if err := writeProxyHeader(proxyProtoVersion, c, ctx.Value(connCtxKey).(anyConn)); err != nil {\n				c.Close()\n				return nil, err\n			}\n		}\n"))
m("pp-hdr-ver", "C20", "bug", (BA, "writeProxyHeader(proxyProtoVersion, c, ", "writeProxyHeader(be.proxyProtocolVersion|1, c, "))
m("pp-hdr-err", "C20", "bug", (BA, WPH, "				writeProxyHeader(proxyProtoVersion, c, ctx.Value(connCtxKey).(anyConn))\n"))
m("pp-hdr-ov", "C20", "bug", (BA, "		proxyProtoVersion = po.proxyProtocolVersion\n", "		if po.proxyProtocolVersion > 0 {\n			proxyProtoVersion = po.proxyProtocolVersion\n		}\n"))
m("pp-swap", "C20", "bug", (BA, "HeaderProxyFromAddrs(v, in.RemoteAddr(), in.LocalAddr())", "HeaderProxyFromAddrs(v, in.LocalAddr(), in.RemoteAddr())"))
m("pp-cmd", "C20", "bug", (BA, "	header.Command = proxyproto.PROXY\n", "	header.Command = proxyproto.PROXY\n	if in.RemoteAddr().Network() != \"tcp\" {\n		header.Command = proxyproto.LOCAL\n	}\n"))
m("pp-key-ov", "C20", "bug", (BH, "override = fmt.Sprintf(\"%d\", i)", "override = po.Mode"))
m("pp-key-sn", "C20", "bug", (BH, "bytes.NewBufferString(serverName + \";\" + override)", "bytes.NewBufferString(req.URL.Hostname() + \";\" + override)"))
m("pp-key-hdr", "C20", "bug", (BH, "				proxyProtoVersion = po.proxyProtocolVersion\n", ""))
m("pp-key-hdr2", "C20", "bug", (BH, KEY, KEY.replace("req.URL.Host = hex", "HOLD = hex").replace("		h := sha256.Sum256(hostKey.Bytes())\n", "").replace("		if proxyProtoVersion > 0 {", "		h := sha256.Sum256(hostKey.Bytes())\n		if proxyProtoVersion > 0 {").replace("HOLD", "req.URL.Host")))
m("pp-key-ctx", "C20", "bug", (BH, "req.WithContext(ctx)", "req.WithContext(context.WithValue(req.Context(), ctxURLKey, ctx.Value(ctxURLKey)))"))
m("pp-key-remote", "C20", "bug", (BH, "			writeProxyHeader(proxyProtoVersion, hostKey, req.Context().Value(connCtxKey).(anyConn))\n", "			hostKey.WriteString(req.RemoteAddr[:strings.LastIndexByte(req.RemoteAddr, ':')])\n"))
m("pp-same1", "C20", "same", (BH, KEY, '''		h := sha256.New()
		io.WriteString(h, serverName+";"+override)
		if proxyProtoVersion > 0 {
			h.Write([]byte{';'})
			writeProxyHeader(proxyProtoVersion, h, req.Context().Value(connCtxKey).(anyConn))
		}
		req.URL.Host = hex.EncodeToString(h.Sum(nil))
'''), (BH, "import (\n\t\"bytes\"\n", "import (\n\t\"io\"\n"))
m("pp-same2", "C20", "same", (BH, KEY, '''		req.URL.Host = poolKey(serverName, override, proxyProtoVersion, req.Context().Value(connCtxKey).(anyConn))
'''), (BH, "func (be *Backend) reverseProxyTransport(", '''func poolKey(serverName, override string, ppv byte, conn anyConn) string {
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "%s;%s", serverName, override)
	if ppv > 0 {
		buf.WriteByte(';')
		writeProxyHeader(ppv, &buf, conn)
	}
	sum := sha256.Sum256(buf.Bytes())
	return hex.EncodeToString(sum[:])
}

func (be *Backend) reverseProxyTransport('''))
m("pp-same3", "C20", "same", (PR, "	for _, n := range p.cfg.acceptProxyHeaderFrom {\n		if n.Contains(tcpAddr.IP) {\n			return true\n		}\n	}\n	return false\n", "	return slices.ContainsFunc(p.cfg.acceptProxyHeaderFrom, func(n *net.IPNet) bool {\n		return n.Contains(tcpAddr.IP)\n	})\n"))
m("pp-same4", "C20", "same", (PR, ACC, "	p.maybeReadProxyHeader(conn)\n"), (PR, "func (p *Proxy) handleConnection(", '''func (p *Proxy) maybeReadProxyHeader(conn *netw.Conn) {
	peer := conn.RemoteAddr()
	if !p.acceptProxyHeader(peer) {
		return
	}
	conn.Conn = proxyproto.NewConn(conn.Conn)
}

func (p *Proxy) handleConnection('''))
VPP = '''	if s == "" {
		return 0, nil
	}
	if len(s) < 2 || s[0] != 'v' {
		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
	}
	v, err := strconv.ParseInt(s[1:], 10, 8)
	if err != nil {
		return 0, err
	}
	if v < 1 || v > 2 {
		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
	}
	return byte(v), nil
'''
m("pp-ver0", "C20", "bug", ("proxy/config.go", "	if v < 1 || v > 2 {", "	if v < 0 || v > 2 {"))
m("pp-ver-be", "C20", "bug", ("proxy/config.go", "validateProxyProtoVersion(po.ProxyProtocolVersion)", "validateProxyProtoVersion(be.ProxyProtocolVersion)"))
m("pp-ver-same", "C20", "same", ("proxy/config.go", VPP, '''	switch s {
	case "":
		return 0, nil
	case "v1":
		return 1, nil
	case "v2":
		return 2, nil
	}
	return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
'''), ("proxy/config.go", '	"strconv"\n', ""))
m("pp-ver-same2", "C20", "same", ("proxy/config.go", VPP, '''	if len(s) == 0 {
		return 0, nil
	}
	rest, ok := strings.CutPrefix(s, "v")
	v, err := strconv.Atoi(rest)
	if !ok || err != nil || v <= 0 || 3 <= v {
		return 0, fmt.Errorf("invalid value %q, expected v1 or v2", s)
	}
	return byte(v), nil
'''))
# C25
LOCK = "\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n"
m("lk-keys", "C25", "bug", (PK, "func (m *Manager) keys(email string) []keyItem {\n" + LOCK, "func (m *Manager) keys(email string) []keyItem {\n"))
m("lk-revoked-after", "C25", "bug", ("proxy/internal/pki/pki.go", LOCK + "\n\tif m.db == nil {\n\t\treturn false\n\t}\n", "\tm.mu.Lock()\n\tdb := m.db\n\tm.mu.Unlock()\n\n\tif db == nil {\n\t\treturn false\n\t}\n"))
m("lk-rlock-write", "C25", "bug", ("proxy/metrics.go", "\tp.mu.RUnlock()\n\n\tp.mu.Lock()\n\tdefer p.mu.Unlock()\n", "\tdefer p.mu.RUnlock()\n\n"))
m("lk-early-return", "C25", "bug", ("proxy/metrics.go", "\t\t\tc.SetCounters(m.numBytesSent, m.numBytesReceived)\n\t\t\tp.mu.RUnlock()\n", "\t\t\tc.SetCounters(m.numBytesSent, m.numBytesReceived)\n"))
m("lk-double", "C25", "bug", ("proxy/internal/tokenmanager/tokenmanager.go", "\tvar tk *tokenKey\n\tfor _, k := range tm.keys.Keys {", "\tif k, err := tm.getKey(&jwt.Token{Method: method, Header: map[string]any{}}); err != nil && k != nil {\n\t\treturn \"\", err\n\t}\n\tvar tk *tokenKey\n\tfor _, k := range tm.keys.Keys {"))
m("lk-next", "C25", "bug", ("proxy/backend.go", "\t\taddr := addresses[*next]\n\t\t*next = (*next + 1) % sz\n\t\tbe.state.mu.Unlock()\n", "\t\tbe.state.mu.Unlock()\n\t\taddr := addresses[*next]\n\t\t*next = (*next + 1) % sz\n"))
m("lk-shutdown", "C25", "bug", ("proxy/proxy.go", "\tbe.state.mu.Lock()\n\tdefer be.state.mu.Unlock()\n\tif be.state.shutdown {", "\tif be.state.shutdown {"))
m("lk-order", "C25", "bug", ("proxy/backend.go", "	be.state.inFlight += delta\n", "	be.state.inFlight += delta\n	if be.state.inFlight < 0 {\n		be.onNegative()\n	}\n"), ("proxy/proxy.go", "func (p *Proxy) backend(serverName", "func (p *Proxy) negative(be *Backend) func() {\n	return func() {\n		if p.defaultServerName() == \"\" {\n			p.recordEvent(\"negative in-flight\")\n		}\n	}\n}\n\nfunc (p *Proxy) backend(serverName"), ("proxy/config.go", "	state *backendState\n", "	onNegative func()\n	state *backendState\n"), ("proxy/proxy.go", "		be.recordEvent = p.recordEvent\n", "		be.recordEvent = p.recordEvent\n		be.onNegative = p.negative(be)\n"))
m("lk-conns", "C25", "bug", ("proxy/conntracker.go", "	t.mu.Lock()\n	defer t.mu.Unlock()\n	cc := localNetConn(c)\n	delete", "	cc := localNetConn(c)\n	delete"))
m("lk-slice", "C25", "bug", ("proxy/conntracker.go", "	t.mu.Lock()\n	defer t.mu.Unlock()\n	out :=", "	t.mu.Lock()\n	conns := t.conns\n	t.mu.Unlock()\n	out :="), ("proxy/conntracker.go", "range t.conns {\n		out", "range conns {\n		out"))
m("lk-nonce", "C25", "bug", (PK, "	m.noncesMu.Lock()\n	m.nonces[nonce] =", "	m.mu.Lock()\n	m.nonces[nonce] ="), (PK, "		opts:    idp.ApplyOptions(opts),\n	}\n	m.noncesMu.Unlock()", "		opts:    idp.ApplyOptions(opts),\n	}\n	m.mu.Unlock()"))
m("lk-crl", "C25", "bug", ("proxy/internal/pki/http.go", "func (m *PKIManager) findCert(sn string) (*x509.Certificate, error) {\n" + LOCK, "func (m *PKIManager) findCert(sn string) (*x509.Certificate, error) {\n	m.mu.Lock()\n	ok := m.db != nil && m.db.CACert != nil\n	m.mu.Unlock()\n	if !ok {\n		return nil, errNotFound\n	}\n"))
m("lk-cfg", "C25", "bug", ("proxy/proxy.go", "if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {", "if maxOpen := p.cfg.MaxOpen; numOpen >= maxOpen {"))
m("lk-h3", "C25", "bug", ("proxy/quic.go", "be.h3Server().(*http3.Server)", "be.http3Server.(*http3.Server)"))
m("lk-broadcast", "C25", "bug", ("proxy/quic.go", "		p.mu.Lock()\n		defer p.mu.Unlock()\n		p.connClosed.Broadcast()", "		p.connClosed.Broadcast()"))
m("lk-wait-if", "C25", "bug", ("proxy/proxy.go", "		for connLeft() {\n			p.connClosed.Wait()\n		}", "		if connLeft() {\n			p.connClosed.Wait()\n		}"))
m("lk-ws", "C25", "bug", ("proxy/websocket.go", "		done := make(chan bool, 1)\n", "		done := make(chan bool, 1)\n		lastActive := time.Now()\n"), ("proxy/websocket.go", "		var lastActive atomic.Pointer[time.Time]\n		setActive := func() {\n			now := time.Now()\n			lastActive.Store(&now)\n		}\n", "		setActive := func() { lastActive = time.Now() }\n"), ("proxy/websocket.go", "time.Since(*lastActive.Load())", "time.Since(lastActive)"), ("proxy/websocket.go", "	\"sync/atomic\"\n", ""))
m("lk-same-defer", "C25", "same", ("proxy/metrics.go", "	p.eventsmu.Lock()\n	defer p.eventsmu.Unlock()\n	if p.events == nil {\n		p.events = make(map[string]int64)\n	}\n	p.events[msg]++\n", "	p.eventsmu.Lock()\n	if p.events == nil {\n		p.events = make(map[string]int64)\n	}\n	ev := p.events\n	ev[msg] = ev[msg] + 1\n	p.eventsmu.Unlock()\n"))
m("lk-same-with", "C25", "same", ("proxy/conntracker.go", "	t.mu.Lock()\n	defer t.mu.Unlock()\n	cc := localNetConn(c)\n	delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})\n	return len(t.conns)\n", "	var n int\n	t.locked(func() {\n		cc := localNetConn(c)\n		delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})\n		n = len(t.conns)\n	})\n	return n\n"), ("proxy/conntracker.go", "func (t *connTracker) slice()", "func (t *connTracker) locked(f func()) {\n	t.mu.Lock()\n	defer t.mu.Unlock()\n	f()\n}\n\nfunc (t *connTracker) slice()"))
m("lk-same-split", "C25", "same", ("proxy/internal/tokenmanager/tokenmanager.go", "	tm.mu.Lock()\n	defer tm.mu.Unlock()\n	for _, tk := range tm.keys.Keys {\n		if tk.ID == tok.Header[\"kid\"] {\n			return tk.privKey.Public(), nil\n		}\n	}\n	return nil, errors.New(\"not found\")\n", "	id := tok.Header[\"kid\"]\n	tm.mu.Lock()\n	tk := tm.findLocked(func(tk *tokenKey) bool { return tk.ID == id })\n	tm.mu.Unlock()\n	if tk == nil {\n		return nil, errors.New(\"not found\")\n	}\n	return tk.privKey.Public(), nil\n"), ("proxy/internal/tokenmanager/tokenmanager.go", "func (tm *TokenManager) getKey(", "func (tm *TokenManager) findLocked(match func(*tokenKey) bool) *tokenKey {\n	for _, tk := range tm.keys.Keys {\n		if match(tk) {\n			return tk\n		}\n	}\n	return nil\n}\n\nfunc (tm *TokenManager) getKey("))
m("lk-same-pick", "C25", "same", ("proxy/backend.go", "		be.state.mu.Lock()\n		sz := len(addresses)\n		if max == 0 {\n			max = sz\n		}\n		addr := addresses[*next]\n		*next = (*next + 1) % sz\n		be.state.mu.Unlock()\n", "		sz := len(addresses)\n		if max == 0 {\n			max = sz\n		}\n		addr := addresses[be.pick(next, sz)]\n"), ("proxy/backend.go", "func (be *Backend) dial(ctx", "func (be *Backend) pick(next *int, sz int) int {\n	be.state.mu.Lock()\n	defer be.state.mu.Unlock()\n	i := *next\n	*next = (i + 1) % sz\n	return i\n}\n\nfunc (be *Backend) dial(ctx"))
m("lk-same-pki", "C25", "same", ("proxy/internal/pki/http.go", LOCK + "	if m.db == nil || m.db.CACert == nil {\n		return nil, errNotFound\n	}\n	i := slices", "	m.mu.Lock()\n	defer func() {\n		m.mu.Unlock()\n	}()\n	if m.db == nil || m.db.CACert == nil {\n		return nil, errNotFound\n	}\n	i := slices"))
m("lk-same-bcast", "C25", "same", ("proxy/quic.go", "		p.mu.Lock()\n		defer p.mu.Unlock()\n		p.connClosed.Broadcast()", "		p.mu.Lock()\n		p.mu.Unlock()\n		p.connClosed.Broadcast()"))
m("lk-same-cfgsnap", "C25", "same", ("proxy/proxy.go", "	p.mu.RLock()\n	defer p.mu.RUnlock()\n	return p.cfg\n}", "	p.mu.RLock()\n	c := p.cfg\n	p.mu.RUnlock()\n	return c\n}"))
m("lk-same-helper", "C25", "same", ("proxy/proxy.go", "	if !ok {\n		be, ok = p.backends[beKey{serverName: serverName}]\n	}\n	if !ok {", "	if !ok {\n		be, ok = p.fallback(serverName)\n	}\n	if !ok {"), ("proxy/proxy.go", "func (p *Proxy) backend(serverName", "func (p *Proxy) fallback(serverName string) (*Backend, bool) {\n	be, ok := p.backends[beKey{serverName: serverName}]\n	return be, ok\n}\n\nfunc (p *Proxy) backend(serverName"))
# C27
OP = "proxy/internal/ocspcache/ocsp.go"
m("oc-notforcert", "C27", "bug", (OP, "ocsp.ParseResponseForCert(b, cert, issuer)", "ocsp.ParseResponse(b, issuer)"))
m("oc-noissuer", "C27", "bug", (OP, "resp, err := parseResponse(body, cert, issuer)".replace("resp, err", "ocspResp, err"), "ocspResp, err := parseResponse(body, cert, cert)"))
m("oc-stale", "C27", "bug", (OP, "if !ocspResp.NextUpdate.IsZero() && time.Now().After(ocspResp.NextUpdate) {", "if !ocspResp.NextUpdate.IsZero() && time.Now().Before(ocspResp.ThisUpdate) {"))
m("oc-cached-stale", "C27", "bug", (OP, "ok && time.Now().Add(margin).Before(resp.NextUpdate) {", "ok && time.Now().Add(-margin).Before(resp.NextUpdate) {"))
m("oc-cached-stale2", "C27", "bug", (OP, "ok && time.Now().Add(margin).Before(resp.NextUpdate) {", "ok && (resp.Status == ocsp.Revoked || time.Now().Add(margin).After(resp.ThisUpdate)) {"))
m("oc-key-serial", "C27", "bug", (OP, "func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duration) (*ocsp.Response, error) {\n	hash := certHash(cert.Raw)", "func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duration) (*ocsp.Response, error) {\n	hash := certHash(cert.SerialNumber.Bytes())"))
m("oc-key-subject", "C27", "bug", (OP, "		hash := certHash(cert.Raw)\n", "		hash := certHash(cert.RawSubject)\n"))
m("oc-key-issuer", "C27", "bug", (OP, "	resp, err := c.fetchOCSP(cert, issuer)\n	if err == nil {\n		c.cache.Add(hash, resp)", "	resp, err := c.fetchOCSP(cert, issuer)\n	if err == nil {\n		c.cache.Add(certHash(issuer.Raw), resp)"))
m("oc-key-short", "C27", "bug", (OP, "hex.EncodeToString(hash[:])", "hex.EncodeToString(hash[:4])"))
m("oc-eku", "C27", "bug", (OP, "!rc.Equal(issuer) && !slices", "!rc.Equal(cert) && rc.Equal(issuer) && !slices"))
m("oc-eku2", "C27", "bug", (OP, "x509.ExtKeyUsageOCSPSigning)", "x509.ExtKeyUsageServerAuth)"))
m("oc-continue", "C27", "bug", (OP, "				lastError = errOCSPUnknown\n				continue nextChain", "				lastError = errOCSPUnknown\n				continue"))
m("oc-unknown-ok", "C27", "bug", (OP, "			case ocsp.Good:\n", "			case ocsp.Good, ocsp.ServerFailed:\n"))
m("oc-noerr", "C27", "bug", (OP, "				lastError = errOCSPProtocol\n				continue nextChain", "				continue nextChain"))
m("oc-soft", "C27", "bug", (OP, "			if err == errOCSPInternal {\n				continue\n			}", "			if err == errOCSPInternal || err == errOCSPProtocol {\n				continue\n			}"))
m("oc-soft2", "C27", "bug", (OP, "		c.logger.Errorf(\"ERR %s: %v\", server, err)\n		return nil, errOCSPProtocol", "		c.logger.Errorf(\"ERR %s: %v\", server, err)\n		return nil, errOCSPInternal"))
m("oc-soft3", "C27", "bug", (OP, "			if err != nil {\n				lastError = err\n				continue nextChain\n			}", "			if err != nil && i > 0 {\n				continue\n			}\n			if err != nil {\n				lastError = err\n				continue nextChain\n			}"))
m("oc-leafonly", "C27", "bug", (OP, "				lastError = nil\n			default:", "				lastError = nil\n				break nextChain\n			default:"))
m("oc-staple-override", "C27", "bug", (OP, "ok && resp.Status == ocsp.Revoked {", "ok && resp.Status == ocsp.Revoked && time.Now().After(resp.NextUpdate) {"))
m("oc-staple-status", "C27", "bug", (OP, "time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {", "time.Now().Before(resp.NextUpdate) && resp.Status != ocsp.Revoked {"))
m("oc-staple-old", "C27", "bug", (OP, "err == nil && time.Now().Before(resp.NextUpdate) && resp.Status", "err == nil && resp.ThisUpdate.Before(time.Now()) && resp.Status"))
m("oc-issuer", "C27", "bug", (OP, "				issuer = chain[i+1]\n", "				issuer = chains[0][i+1]\n"))
m("oc-nilresp", "C27", "bug", (OP, "	if len(cert.OCSPServer) == 0 {\n		return nil, errOCSPNoServer\n	}\n", ""))
m("oc-load-key", "C27", "bug", (OP, "			c.cache.Add(item.Key, resp)", "			c.cache.Add(items[0].Key, resp)"))
m("oc-flush-key", "C27", "bug", (OP, "	for _, k := range c.cache.Keys() {\n", "	keys := c.cache.Keys()\n	for i, k := range keys {\n"), (OP, "				Key:   k,\n", "				Key:   keys[len(keys)-1-i],\n"))
m("oc-own-staple", "C27", "bug", ("proxy/proxy.go", "err == nil && ocspResp.Status == ocsp.Good {", "err == nil && ocspResp.Status != ocsp.Unknown {"))
m("oc-own-margin", "C27", "bug", ("proxy/proxy.go", "p.ocspCache.Response(cert.Leaf, issuer, time.Hour)", "p.ocspCache.Response(cert.Leaf, issuer, -time.Hour)"))
m("oc-same-helper", "C27", "same", (OP, '''		for i, cert := range chain {
			if len(cert.OCSPServer) == 0 {
				continue
			}
			issuer := cert
			if i+1 < len(chain) {
				issuer = chain[i+1]
			}
			resp, err := c.Response(cert, issuer, 0)
			if err == errOCSPInternal {
				continue
			}
			if err != nil {
				lastError = err
				continue nextChain
			}
			switch resp.Status {
			case ocsp.Revoked:
				c.logger.Errorf("BAD OCSP: %q is revoked", cert.Subject.String())
				lastError = errOCSPRevoked
				continue nextChain
			case ocsp.Unknown:
				c.logger.Errorf("BAD OCSP: %q is unknown", cert.Subject.String())
				lastError = errOCSPUnknown
				continue nextChain
			case ocsp.Good:
				c.logger.Errorf("INF OCSP: %q is GOOD", cert.Subject.String())
				lastError = nil
			default:
				c.logger.Errorf("BAD OCSP: %q has unexpected status %v", cert.Subject.String(), resp.Status)
				lastError = errOCSPProtocol
				continue nextChain
			}
		}
		// Every cert in the chain is good.
		break
	}
	return lastError
}
''', '''		if lastError = c.verifyChain(chain); lastError == nil {
			return nil
		}
	}
	return lastError
}

func (c *OCSPCache) verifyChain(chain []*x509.Certificate) error {
	for i, cert := range chain {
		if len(cert.OCSPServer) == 0 {
			continue
		}
		issuer := cert
		if i+1 < len(chain) {
			issuer = chain[i+1]
		}
		resp, err := c.Response(cert, issuer, 0)
		if err == errOCSPInternal {
			continue
		}
		if err != nil {
			return err
		}
		if resp.Status == ocsp.Good {
			continue
		}
		c.logger.Errorf("BAD OCSP: %q has status %v", cert.Subject.String(), resp.Status)
		switch resp.Status {
		case ocsp.Revoked:
			return errOCSPRevoked
		case ocsp.Unknown:
			return errOCSPUnknown
		}
		return errOCSPProtocol
	}
	return nil
}
'''), (OP, "nextChain:\n", ""))
m("oc-same-fresh", "C27", "same", (OP, "	if !ocspResp.NextUpdate.IsZero() && time.Now().After(ocspResp.NextUpdate) {", "	if expired(ocspResp) {"), (OP, "func certHash(", "func expired(r *ocsp.Response) bool {\n	if r.NextUpdate.IsZero() {\n		return false\n	}\n	return r.NextUpdate.Before(time.Now())\n}\n\nfunc certHash("))
m("oc-same-hash", "C27", "same", (OP, "func certHash(b []byte) string {\n	hash := sha256.Sum256(b)\n	return hex.EncodeToString(hash[:])\n}", "func certHash(b []byte) string {\n	h := sha256.New()\n	h.Write(b)\n	return hex.EncodeToString(h.Sum(nil))\n}"))
m("oc-same-resp", "C27", "same", (OP, "	resp, err := c.fetchOCSP(cert, issuer)\n	if err == nil {\n		c.cache.Add(hash, resp)\n	}\n	return resp, err\n", "	resp, err := c.fetchOCSP(cert, issuer)\n	if err != nil {\n		return nil, err\n	}\n	c.cache.Add(hash, resp)\n	return resp, nil\n"))
m("oc-same-servers", "C27", "same", (OP, '''	for _, server := range cert.OCSPServer {
		ocspResp, err = c.fetchOneOCSP(cert, issuer, ocspReq, server)
		if err != nil || ocspResp.Status == ocsp.Unknown {
			continue
		}
		if err == nil {
			break
		}
	}
''', '''	for i := 0; i < len(cert.OCSPServer); i++ {
		ocspResp, err = c.fetchOneOCSP(cert, issuer, ocspReq, cert.OCSPServer[i])
		if err == nil && ocspResp.Status != ocsp.Unknown {
			return ocspResp, nil
		}
	}
'''))
m("oc-same-staple", "C27", "same", (OP, '''		if resp, err := parseResponse(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
			hash := certHash(cert.Raw)
			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
				// Someone is playing tricks on us.
				return errOCSPRevoked
			}
			c.cache.Add(hash, resp)
		}
''', '''		if err := c.addStapled(cert, issuer, stapled); err != nil {
			return err
		}
'''), (OP, "func certHash(", '''func (c *OCSPCache) addStapled(cert, issuer *x509.Certificate, stapled []byte) error {
	resp, err := parseResponse(stapled, cert, issuer)
	if err != nil || !time.Now().Before(resp.NextUpdate) {
		return nil
	}
	if resp.Status != ocsp.Good {
		return nil
	}
	hash := certHash(cert.Raw)
	if old, ok := c.cache.Get(hash); ok {
		if old.Status == ocsp.Revoked {
			return errOCSPRevoked
		}
	}
	c.cache.Add(hash, resp)
	return nil
}

func certHash('''))
m("oc-same-eku", "C27", "same", (OP, "	if rc := resp.Certificate; rc != nil && !rc.Equal(issuer) && !slices.Contains(rc.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {\n		return nil, errOCSPResponder\n	}\n	return resp, nil\n", '''	rc := resp.Certificate
	if rc == nil || rc.Equal(issuer) {
		return resp, nil
	}
	for _, u := range rc.ExtKeyUsage {
		if u == x509.ExtKeyUsageOCSPSigning {
			return resp, nil
		}
	}
	return nil, errOCSPResponder
'''), (OP, '	"slices"\n', ""))

# C22
m("rc-clone", "C22", "bug", (PR, "	cfg = cfg.clone()\n	if err := cfg.Check()", "	if err := cfg.Check()"))
m("rc-check-after", "C22", "bug", (PR, "	if err := cfg.Check(); err != nil {\n		return err\n	}\n	if p.cfg != nil {\n		p.logErrorF", "	p.defServerName = cfg.DefaultServerName\n	if err := cfg.Check(); err != nil {\n		return err\n	}\n	if p.cfg != nil {\n		p.logErrorF"))
m("rc-nodef", "C22", "bug", (PR, "	p.defServerName = cfg.DefaultServerName\n	p.backends = backends", "	p.backends = backends"))
m("rc-nopkis", "C22", "bug", (PR, "	p.pkis = pkis\n	p.cfg = cfg", "	p.cfg = cfg"))
m("rc-pkis-early", "C22", "bug", (PR, "		pkis[pp.Name] = m\n	}\n\n	const minBurst", "		pkis[pp.Name] = m\n	}\n	p.pkis = pkis\n\n	const minBurst"))
m("rc-limits-inplace", "C22", "bug", (PR, "bwLimits := maps.Clone(p.bwLimits)", "bwLimits := p.bwLimits"), (PR, '	"maps"\n', ""))
m("rc-limit-early", "C22", "bug", (PR, "		if _, ok := bwLimits[bwl.Name]; ok {\n			continue", "		if l, ok := bwLimits[bwl.Name]; ok {\n			l.ingress.SetLimit(rate.Limit(bwl.Ingress))\n			continue"))
m("rc-close-some", "C22", "bug", (PR, "		for _, be := range p.cfg.Backends {\n			be.close(p.ctx)\n", "		for _, be := range p.cfg.Backends {\n			if be.Mode == ModeConsole {\n				continue\n			}\n			be.close(p.ctx)\n"))
m("rc-close-new", "C22", "bug", (PR, "		for _, be := range p.cfg.Backends {\n			be.close(p.ctx)\n", "		for _, be := range cfg.Backends[:0] {\n			be.close(p.ctx)\n"))
m("rc-noreauth", "C22", "bug", (PR, "	go p.reAuthorize()\n	return nil", "	return nil"))
m("rc-reauth-acl-only", "C22", "bug", (PR, "	p.cfg = cfg\n	p.logFilter.Store(&cfg.LogFilter)\n	go p.reAuthorize()\n", "	p.cfg = cfg\n	p.logFilter.Store(&cfg.LogFilter)\n	if len(cfg.Backends) > 1 {\n		go p.reAuthorize()\n	}\n"))
m("rc-reauth-noip", "C22", "bug", (PR, "		if err := be.checkIP(conn.RemoteAddr()); err != nil {\n			p.recordEvent(serverName + \" CheckIP \" + err.Error())", "		if err := be.checkIP(conn.RemoteAddr()); err != nil && be.ClientAuth == nil {\n			p.recordEvent(serverName + \" CheckIP \" + err.Error())"))
m("rc-reauth-return", "C22", "bug", (PR, "		if be.ClientAuth == nil {\n			continue\n		}\n		clientCert := connClientCert(conn)", "		if be.ClientAuth == nil {\n			return\n		}\n		clientCert := connClientCert(conn)"))
m("rc-reauth-oldbe", "C22", "bug", (PR, "		if err := be.authorize(clientCert); err != nil {\n			p.recordEvent(err.Error())\n			be.logErrorF(\"BAD [-] ReAuth", "		if oldBE := connBackend(conn); oldBE != nil {\n			be = oldBE\n		}\n		if err := be.authorize(clientCert); err != nil {\n			p.recordEvent(err.Error())\n			be.logErrorF(\"BAD [-] ReAuth"))
m("rc-reauth-nocert", "C22", "bug", (PR, "		clientCert := connClientCert(conn)\n		if err := be.authorize(clientCert); err != nil {\n			p.recordEvent(err.Error())\n			be.logErrorF(\"BAD [-] ReAuth", "		clientCert := connClientCert(conn)\n		if clientCert == nil {\n			continue\n		}\n		if err := be.authorize(clientCert); err != nil {\n			p.recordEvent(err.Error())\n			be.logErrorF(\"BAD [-] ReAuth"))
m("rc-sn-late", "C22", "bug", (PR, "	conn.SetAnnotation(serverNameKey, serverName)\n\n	be, err := p.backend(serverName, hello.ALPNProtos...)\n", "	be, err := p.backend(serverName, hello.ALPNProtos...)\n	conn.SetAnnotation(serverNameKey, serverName)\n"))
m("rc-qsn-late", "C22", "bug", (QU, "	qc.SetAnnotation(serverNameKey, cs.ServerName)\n", ""), (QU, "	be.incInFlight(1)\n	qc.SetAnnotation(backendKey, be)\n", "	be.incInFlight(1)\n	qc.SetAnnotation(serverNameKey, cs.ServerName)\n	qc.SetAnnotation(backendKey, be)\n"))
m("rc-close-shut", "C22", "bug", (BA, "	go be.httpServer.Shutdown(ctx)\n	be.state.shutdown = true\n", "	be.state.shutdown = true\n"))
m("rc-close-h3", "C22", "bug", (BA, "		if h3 := be.http3Server; h3 != nil {\n			be.http3Server = nil\n			go h3.Close()\n		}\n		return\n", "		return\n"))
m("rc-table-skip", "C22", "bug", (PR, "			for _, proto := range *be.ALPNProtos {\n				backends[beKey", "			for _, proto := range *be.ALPNProtos {\n				if proto == \"h3\" {\n					continue\n				}\n				backends[beKey"))
m("rc-table-shadow", "C22", "bug", (PR, "			if be.ALPNProtos == nil {\n				continue\n			}\n", "			if be.ALPNProtos == nil {\n				break\n			}\n"))
m("rc-same-install", "C22", "same", (PR, "	p.bwLimits = bwLimits\n	p.defServerName = cfg.DefaultServerName\n	p.backends = backends\n	p.pkis = pkis\n	p.cfg = cfg\n	p.logFilter.Store(&cfg.LogFilter)\n	go p.reAuthorize()\n	return nil\n}\n", "	p.install(cfg, backends, pkis, bwLimits)\n	return nil\n}\n\nfunc (p *Proxy) install(cfg *Config, backends map[beKey]*Backend, pkis map[string]*pki.PKIManager, bwLimits map[string]*bwLimit) {\n	p.cfg = cfg\n	p.logFilter.Store(&cfg.LogFilter)\n	p.pkis = pkis\n	p.backends = backends\n	p.bwLimits = bwLimits\n	p.defServerName = cfg.DefaultServerName\n	go p.reAuthorize()\n}\n"))
m("rc-same-closeprev", "C22", "same", (PR, "	if p.cfg != nil {\n		for _, be := range p.cfg.Backends {\n			be.close(p.ctx)\n		}\n	}\n", "	if prev := p.cfg; prev != nil {\n		for i := 0; i < len(prev.Backends); i++ {\n			prev.Backends[i].close(p.ctx)\n		}\n	}\n"))
m("rc-same-reauth1", "C22", "same", (PR, "	for _, conn := range p.inConns.slice() {\n		if !connServerNameIsSet(conn) {\n			continue\n		}\n", "	for _, conn := range p.inConns.slice() {\n		p.reAuthorizeConn(conn)\n	}\n}\n\nfunc (p *Proxy) reAuthorizeConn(conn annotatedConnection) {\n	for range 1 {\n		if !connServerNameIsSet(conn) {\n			return\n		}\n"))
m("rc-same-auth", "C22", "same", (PR, "		if be.ClientAuth == nil {\n			continue\n		}\n		clientCert := connClientCert(conn)\n		if err := be.authorize(clientCert); err != nil {", "		clientCert := connClientCert(conn)\n		if be.ClientAuth == nil {\n			// any client will do\n		} else if err := be.authorize(clientCert); err != nil {"))
m("rc-same-qauth", "C22", "same", (QU, "	be.logConnF(\"QUC [", "	_ = numOpen\n	be.logConnF(\"QUC ["))
m("rc-same-table", "C22", "same", (PR, "			if backends[key] == nil {\n				backends[key] = be\n			}\n			if be.ALPNProtos == nil {\n				continue\n			}\n			for _, proto := range *be.ALPNProtos {\n				backends[beKey{serverName: sn, proto: proto}] = be\n			}\n", "			if _, exists := backends[key]; !exists {\n				backends[key] = be\n			}\n			if protos := be.ALPNProtos; protos != nil {\n				for i := range *protos {\n					key.proto = (*protos)[i]\n					backends[key] = be\n				}\n			}\n"))
m("rc-same-shut", "C22", "same", (BA, "	if ctx == nil {\n		close(be.httpConnChan)\n		go be.httpServer.Close()\n		be.httpServer = nil\n		if h3 := be.http3Server; h3 != nil {\n			be.http3Server = nil\n			go h3.Close()\n		}\n		return\n	}\n", "	if ctx == nil {\n		s := be.httpServer\n		be.httpServer = nil\n		close(be.httpConnChan)\n		if h3 := be.http3Server; h3 != nil {\n			be.http3Server = nil\n			go h3.Close()\n		}\n		go s.Close()\n		return\n	}\n"))

# C29
RV = "proxy/revoke.go"
m("tls-min11", "C29", "bug", (PR, "	tc.MinVersion = tls.VersionTLS12\n", "	tc.MinVersion = tls.VersionTLS11\n"))
m("tls-min-cond", "C29", "bug", (PR, "	tc.MinVersion = tls.VersionTLS12\n", "	if len(p.cfg.AcceptProxyHeaderFrom) == 0 {\n		tc.MinVersion = tls.VersionTLS12\n	}\n"))
m("tls-min-own", "C29", "bug", (PR, "		tc := p.baseTLSConfig()\n		if be.ClientAuth != nil {", "		tc := p.baseTLSConfig()\n		if be.ForwardServerName != \"\" {\n			tc = p.certManager.TLSConfig()\n		}\n		if be.ClientAuth != nil {"))
m("tls-clone-late", "C29", "bug", (PR, "	tc.MinVersion = tls.VersionTLS12\n	return tc", "	return tc"), (PR, "		be.tlsConfig = tc\n", "		be.tlsConfig = tc\n		be.tlsConfig.MinVersion = tls.VersionTLS12\n"))
m("tls-cipher", "C29", "bug", (PR, "	tc.MinVersion = tls.VersionTLS12\n	return tc", "	tc.MinVersion = tls.VersionTLS12\n	tc.CipherSuites = []uint16{tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA}\n	return tc"))
m("tls-alpn-h3", "C29", "bug", (PR, "			return quicOnlyProtocols[p]\n", "			return quicOnlyProtocols[p] && be.Mode != ModeQUIC\n"))
m("tls-alpn-none", "C29", "bug", (PR, "		tc.NextProtos = slices.DeleteFunc(tc.NextProtos, func(p string) bool {\n			return quicOnlyProtocols[p]\n		})\n", ""))
m("tls-alpn-swap", "C29", "bug", (PR, "p.handleTLSConnection(tls.Server(conn, be.tlsConfig))", "p.handleTLSConnection(tls.Server(conn, be.tlsConfigQUIC))"))
m("tls-acme-more", "C29", "bug", (PR, "tc.NextProtos = []string{acme.ALPNProto}", "tc.NextProtos = []string{acme.ALPNProto, \"http/1.1\"}"))
m("tls-acme-base", "C29", "bug", (PR, "		tc.NextProtos = []string{acme.ALPNProto}\n", ""))
m("cert-first", "C29", "bug", (PR, "		if slices.IndexFunc(c.ServerNames, func(v string) bool {", "		if serverName != \"\" && slices.IndexFunc(c.ServerNames, func(v string) bool {"))
m("cert-other", "C29", "bug", (PR, "cert, err := tls.LoadX509KeyPair(c.CertFile, c.KeyFile)", "cert, err := tls.LoadX509KeyPair(c.CertFile, p.cfg.TLSCertificates[0].KeyFile)"))
m("cert-prefix", "C29", "bug", (PR, "			if v == serverName {\n				return true\n			}\n			if matched", "			if strings.HasSuffix(serverName, v) {\n				return true\n			}\n			if matched"))
m("cert-swap", "C29", "bug", (PR, "path.Match(v, serverName)", "path.Match(serverName, v)"))
m("cert-first-only", "C29", "bug", (PR, "		}) < 0 {\n			continue\n		}\n		cert, err := tls", "		}) < 0 {\n			break\n		}\n		cert, err := tls"))
m("cert-name0", "C29", "bug", (PR, "slices.IndexFunc(c.ServerNames, func", "slices.IndexFunc(c.ServerNames[:1], func"))
m("cert-err", "C29", "bug", (PR, "		if cert, err := p.getCertFromConfig(hello.ServerName); err != nil {\n			return nil, err\n		} else if cert != nil {", "		if cert, err := p.getCertFromConfig(hello.ServerName); err == nil && cert != nil && cert.Leaf != nil {"))
m("cert-tos", "C29", "bug", (PR, "		if !p.config().AcceptTOS {\n			if _, ok", "		if !p.config().AcceptTOS && hello.ServerName == p.defaultServerName() {\n			if _, ok"))
m("cert-prompt", "C29", "bug", (PR, "	if cfg.AcceptTOS {\n		p.certManager", "	if cfg.AcceptTOS || cfg.Email != \"\" {\n		p.certManager"))
m("cert-staple", "C29", "bug", (PR, "err == nil && ocspResp.Status == ocsp.Good {", "err == nil && ocspResp.Status != ocsp.Unknown {"))
m("cert-newhello", "C29", "bug", (PR, "		cert, err := getCert(hello)", "		cert, err := getCert(&tls.ClientHelloInfo{ServerName: p.defaultServerName()})"))
m("rev-first", "C29", "bug", (RV, "		for _, n := range cert.Leaf.DNSNames {\n			if names[n] {\n				continue L\n			}\n		}\n", "		if len(cert.Leaf.DNSNames) > 0 && names[cert.Leaf.DNSNames[0]] {\n			continue L\n		}\n"))
m("rev-all", "C29", "bug", (RV, "			if names[n] {\n				continue L\n			}\n", "			if !names[n] {\n				break\n			}\n			continue L\n"))
m("rev-mode", "C29", "bug", (RV, "	for _, be := range p.cfg.Backends {\n		for _, n", "	for _, be := range p.cfg.Backends {\n		if be.Mode == ModeTCP {\n			continue\n		}\n		for _, n"))
m("rev-name0", "C29", "bug", (RV, "range be.ServerNames {\n			names[n] = true", "range be.ServerNames[:1] {\n			names[n] = true"))
m("rev-nil", "C29", "bug", (RV, "actuallyRevoke := revoke == nil || *revoke", "actuallyRevoke := revoke == nil || *revoke || !p.cfg.HWBacked"))
m("rev-return", "C29", "bug", (RV, "		if len(toRevoke) > 0 {\n			p.logErrorF(\"INF Set \\\"revokeUnusedCertificates: true\\\" to automatically revoke unused certificates\")\n		}\n		return nil\n", "		if len(toRevoke) > 0 {\n			p.logErrorF(\"INF Set \\\"revokeUnusedCertificates: true\\\" to automatically revoke unused certificates\")\n			return nil\n		}\n"))
m("tls-same-filter", "C29", "same", (PR, "		tc.NextProtos = slices.DeleteFunc(tc.NextProtos, func(p string) bool {\n			return quicOnlyProtocols[p]\n		})\n", "		tc.NextProtos = slices.DeleteFunc(tc.NextProtos, func(p string) bool {\n			_, yes := quicOnlyProtocols[p]\n			return yes\n		})\n"))
m("tls-same-filter2", "C29", "same", (PR, "		tc.NextProtos = slices.Clone(tc.NextProtos)\n		tc.NextProtos = slices.DeleteFunc(tc.NextProtos, func(p string) bool {\n			return quicOnlyProtocols[p]\n		})\n", "		tc.NextProtos = tcpProtos(tc.NextProtos)\n"), (PR, "func (p *Proxy) baseTLSConfig()", "func tcpProtos(in []string) []string {\n	var out []string\n	for _, p := range in {\n		if quicOnlyProtocols[p] {\n			continue\n		}\n		out = append(out, p)\n	}\n	return out\n}\n\nfunc (p *Proxy) baseTLSConfig()"))
m("tls-same-loop", "C29", "same", (PR, "		if slices.IndexFunc(c.ServerNames, func(v string) bool {\n			if v == serverName {\n				return true\n			}\n			if matched, err := path.Match(v, serverName); err == nil && matched {\n				return true\n			}\n			return false\n		}) < 0 {\n			continue\n		}\n", "		found := false\n		for _, v := range c.ServerNames {\n			if v == serverName {\n				found = true\n				break\n			}\n			if matched, err := path.Match(v, serverName); err == nil && matched {\n				found = true\n				break\n			}\n		}\n		if !found {\n			continue\n		}\n"))
m("tls-same-helper", "C29", "same", (PR, "		if slices.IndexFunc(c.ServerNames, func(v string) bool {\n			if v == serverName {\n				return true\n			}\n			if matched, err := path.Match(v, serverName); err == nil && matched {\n				return true\n			}\n			return false\n		}) < 0 {\n			continue\n		}\n", "		if !slices.ContainsFunc(c.ServerNames, func(v string) bool { return nameMatches(v, serverName) }) {\n			continue\n		}\n"), (PR, "func (p *Proxy) getCertFromConfig", "func nameMatches(v, serverName string) bool {\n	if v == serverName {\n		return true\n	}\n	matched, err := path.Match(v, serverName)\n	return err == nil && matched\n}\n\nfunc (p *Proxy) getCertFromConfig"))
m("tls-same-getcert", "C29", "same", (PR, "		if cert, err := p.getCertFromConfig(hello.ServerName); err != nil {\n			return nil, err\n		} else if cert != nil {\n			return cert, nil\n		}\n", "		cfgCert, err := p.getCertFromConfig(hello.ServerName)\n		if err != nil || cfgCert != nil {\n			return cfgCert, err\n		}\n"))
m("tls-same-base", "C29", "same", (PR, "	tc.NextProtos = *defaultALPNProtos\n	tc.MinVersion = tls.VersionTLS12\n	return tc\n", "	tc.MinVersion = tls.VersionTLS12\n	tc.NextProtos = *defaultALPNProtos\n	return tc\n"))
m("rev-same-helper", "C29", "same", (RV, "		for _, n := range cert.Leaf.DNSNames {\n			if names[n] {\n				continue L\n			}\n		}\n		if len", "		if isUsed(cert, names) {\n			continue L\n		}\n		if len"), (RV, "func (p *Proxy) acmeAccountKey(", "func isUsed(cert *tls.Certificate, names map[string]bool) bool {\n	for _, n := range cert.Leaf.DNSNames {\n		if names[n] {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (p *Proxy) acmeAccountKey("))
m("rev-same-names", "C29", "same", (RV, "	names := make(map[string]bool)\n	p.mu.Lock()\n	for _, be := range p.cfg.Backends {\n		for _, n := range be.ServerNames {\n			names[n] = true\n		}\n	}\n	p.mu.Unlock()\n", "	names := p.allServerNames()\n"), (RV, "func (p *Proxy) acmeAccountKey(", "func (p *Proxy) allServerNames() map[string]bool {\n	names := make(map[string]bool)\n	p.mu.RLock()\n	defer p.mu.RUnlock()\n	for _, be := range p.cfg.Backends {\n		for _, n := range be.ServerNames {\n			names[n] = true\n		}\n	}\n	return names\n}\n\nfunc (p *Proxy) acmeAccountKey("))
m("rev-same-flag", "C29", "same", (RV, "		for _, n := range cert.Leaf.DNSNames {\n			if names[n] {\n				continue L\n			}\n		}\n		if len", "		if slices.ContainsFunc(cert.Leaf.DNSNames, func(n string) bool { return names[n] }) {\n			continue L\n		}\n		if len"), (RV, "	\"fmt\"\n", "	\"fmt\"\n	\"slices\"\n"))
m("tls-filter2-bad", "C29", "bug", (PR, "		tc.NextProtos = slices.Clone(tc.NextProtos)\n		tc.NextProtos = slices.DeleteFunc(tc.NextProtos, func(p string) bool {\n			return quicOnlyProtocols[p]\n		})\n", "		tc.NextProtos = tcpProtos(tc.NextProtos)\n"), (PR, "func (p *Proxy) baseTLSConfig()", "func tcpProtos(in []string) []string {\n	var out []string\n	for _, p := range in {\n		if quicOnlyProtocols[p] && len(out) > 0 {\n			continue\n		}\n		out = append(out, p)\n	}\n	return out\n}\n\nfunc (p *Proxy) baseTLSConfig()"))

# C24
HT = "proxy/http.go"
NW = "proxy/internal/netw/netw.go"
NQ = "proxy/internal/netw/quic.go"
WS = "proxy/websocket.go"
CT = "proxy/conntracker.go"
m("life-http-wait", "C24", "bug", (PR, "➔  %q Wait: %v\", conn.RemoteAddr(), idnaToUnicode(serverName), err)\n		conn.Close()\n		return", "➔  %q Wait: %v\", conn.RemoteAddr(), idnaToUnicode(serverName), err)\n		return"))
m("life-http-mode", "C24", "bug", (PR, "[CONSOLE, LOCAL, HTTP, HTTPS]\", conn.RemoteAddr(), idnaToUnicode(serverName))\n		conn.Close()\n", "[CONSOLE, LOCAL, HTTP, HTTPS]\", conn.RemoteAddr(), idnaToUnicode(serverName))\n"))
m("life-http-auth", "C24", "bug", (PR, "	if !p.authorizeTLSConnection(conn) {\n		conn.Close()\n		return\n", "	if !p.authorizeTLSConnection(conn) {\n		return\n"))
m("life-early-flag", "C24", "bug", (PR, "		if err := p.checkIP(conn); err != nil {\n			return\n		}\n		p.handleHTTPConnection(tls.Server(conn, be.tlsConfig))\n		closeConnNeeded = false\n", "		closeConnNeeded = false\n		if err := p.checkIP(conn); err != nil {\n			return\n		}\n		p.handleHTTPConnection(tls.Server(conn, be.tlsConfig))\n"))
m("life-flag-tls", "C24", "bug", (PR, "		p.handleTLSConnection(tls.Server(conn, be.tlsConfig))\n", "		p.handleTLSConnection(tls.Server(conn, be.tlsConfig))\n		closeConnNeeded = false\n"))
m("life-noremove", "C24", "bug", (PR, "	conn.OnClose(func() {\n		p.inConns.remove(conn)\n", "	conn.OnClose(func() {\n"))
m("life-noremove-be", "C24", "bug", (PR, "	conn.OnClose(func() {\n		p.inConns.remove(conn)\n		if be := connBackend(conn); be != nil {\n", "	conn.OnClose(func() {\n		if be := connBackend(conn); be != nil {\n			p.inConns.remove(conn)\n"))
m("life-max-ignored", "C24", "bug", (PR, "%d >= %d\", conn.RemoteAddr(), numOpen, maxOpen)\n		sendCloseNotify(conn)\n		return\n", "%d >= %d\", conn.RemoteAddr(), numOpen, maxOpen)\n		sendCloseNotify(conn)\n"))
m("life-max-double", "C24", "bug", (PR, "p.config().MaxOpen; numOpen >= maxOpen {", "p.config().MaxOpen; numOpen >= 2*maxOpen {"))
m("life-max-cached", "C24", "bug", (PR, "maxOpen := p.config().MaxOpen; numOpen >= maxOpen {\n		p.recordEvent(\"too many open connections\")\n		p.logErrorF(", "maxOpen := p.config().MaxOpen; *p.config().LogFilter.Errors && numOpen >= maxOpen {\n		p.recordEvent(\"too many open connections\")\n		p.logErrorF("))
m("life-qmax", "C24", "bug", (QU, "numOpen, maxOpen)\n		return\n	}\n\n	if l := be.bwLimit", "numOpen, maxOpen)\n	}\n\n	if l := be.bwLimit"))
m("life-noinc", "C24", "bug", (PR, "	be.incInFlight(1)\n	p.setCounters(conn", "	p.setCounters(conn"))
m("life-inc-cond", "C24", "bug", (PR, "	be.incInFlight(1)\n	p.setCounters(conn", "	if be.Mode != ModeTLSPassthrough {\n		be.incInFlight(1)\n	}\n	p.setCounters(conn"))
m("life-inc-twice", "C24", "bug", (PR, "	annotatedConn(conn).SetAnnotation(reportEndKey, true)\n	be.logConnF(\"CON", "	annotatedConn(conn).SetAnnotation(reportEndKey, true)\n	be.incInFlight(1)\n	be.logConnF(\"CON"))
m("life-dec-report", "C24", "bug", (PR, "			be.incInFlight(-1)\n			if conn.Annotation(reportEndKey, false).(bool) {\n", "			if conn.Annotation(reportEndKey, false).(bool) {\n				be.incInFlight(-1)\n"))
m("life-qdec", "C24", "bug", (QU, "			be.incInFlight(-1)\n			startTime := qc", "			startTime := qc"))
m("life-ph-leak", "C24", "bug", (BA, "ctx.Value(connCtxKey).(anyConn)); err != nil {\n					c.Close()\n				}\n", "ctx.Value(connCtxKey).(anyConn)); err != nil {\n					be.recordEvent(\"proxy header\")\n				}\n"))
m("life-fwd-in", "C24", "bug", (BA, "err != nil || closeWhenDone {\n		out.Close()\n		in.Close()\n", "err != nil || closeWhenDone {\n		out.Close()\n"))
m("life-fwd-err", "C24", "bug", (BA, "if _, err := io.Copy(out, in); err != nil || closeWhenDone {", "if _, err := io.Copy(out, in); closeWhenDone {"))
m("life-fwd-nodeadline", "C24", "bug", (BA, "	out.SetReadDeadline(time.Now().Add(halfClosedTimeout))\n", ""))
m("life-fwd-wrongdl", "C24", "bug", (BA, "	out.SetReadDeadline(time.Now().Add(halfClosedTimeout))\n", "	in.SetReadDeadline(time.Now().Add(halfClosedTimeout))\n"))
m("life-fwd-swap", "C24", "bug", (BA, "forward(client, server, serverClose, timeout)", "forward(client, server, serverClose && clientClose, timeout)"))
m("life-fwd-one", "C24", "bug", (BA, "	if err := <-ch; err != nil && !errors.Is(err, net.ErrClosed) {\n		retErr = fmt.Errorf(\"[int", "	if err := <-ch; false && err != nil && !errors.Is(err, net.ErrClosed) {\n		retErr = fmt.Errorf(\"[ext"), (BA, "		ch <- forward(client, server, serverClose, timeout)\n", "		ch <- forward(server, client, serverClose, timeout)\n"))
m("life-fwd-cw", "C24", "bug", (BA, "	if err := closeWrite(out); err != nil {\n		out.Close()\n		in.Close()\n		return nil\n	}\n", "	if err := closeWrite(out); err != nil {\n		return nil\n	}\n"))
m("life-cb-uncleared", "C24", "bug", (NW, "	f := c.onClose\n	c.onClose = nil\n", "	f := c.onClose\n"))
m("life-cb-nocall", "C24", "bug", (NW, "	c.cancel()\n	if f != nil {\n		f()\n	}\n	return c.Conn.Close()", "	c.cancel()\n	err := c.Conn.Close()\n	if f != nil && err == nil {\n		f()\n	}\n	return err"))
m("life-cb-noclose", "C24", "bug", (NW, "	if f != nil {\n		f()\n	}\n	return c.Conn.Close()", "	if f != nil {\n		f()\n		return c.Conn.Close()\n	}\n	return nil"))
m("life-defer-tls", "C24", "bug", (PR, "	defer intConn.Close()\n	setKeepAlive(intConn)\n	annotatedConn(extConn)", "	setKeepAlive(intConn)\n	annotatedConn(extConn)"))
m("life-defer-late", "C24", "bug", (PR, "	if err := be.bridgeConns(extConn, intConn); err != nil {\n		be.logErrorF(\"DBG  %s", "	if setKeepAlive(intConn); be.state.shutdown {\n		return\n	}\n	defer intConn.Close()\n	if err := be.bridgeConns(extConn, intConn); err != nil {\n		be.logErrorF(\"DBG  %s"), (PR, "	defer intConn.Close()\n	setKeepAlive(intConn)\n\n", ""))
m("life-ws-defer", "C24", "bug", (WS, "		defer func() {\n			wc.Close()\n			p.outConns.remove(wc)\n		}()\n", "		defer p.outConns.remove(wc)\n"))
m("life-ws-remove", "C24", "bug", (WS, "			wc.Close()\n			p.outConns.remove(wc)\n", "			wc.Close()\n"))
m("life-ws-in", "C24", "bug", (WS, "		defer in.Close()\n", ""))
m("life-drain", "C24", "bug", (HT, "			for c := range l.ch {\n				c.Close()\n			}\n", "			for range l.ch {\n			}\n"))
m("life-qstream-flag", "C24", "bug", (QU, "	be.logConnF(\"STR %s\", formatConnDesc(conn))\n		closeConnNeeded = false\n		be.httpConnChan <- conn\n", "	be.logConnF(\"STR %s\", formatConnDesc(conn))\n		be.httpConnChan <- conn\n"), (QU, "		if closeConnNeeded {\n			conn.Close()\n		}\n	}()\n\n	conn.SetAnnotation(startTimeKey, time.Now())\n\n	switch", "		_ = closeConnNeeded\n	}()\n\n	conn.SetAnnotation(startTimeKey, time.Now())\n\n	switch"))
m("life-out-noremove", "C24", "bug", (QU, "		conn.OnClose(func() {\n			be.outConns.remove(conn)\n		})\n		be.outConns.add(conn)\n", "		be.outConns.add(conn)\n"))
m("life-out-noadd", "C24", "bug", (QU, "		be.outConns.add(conn)\n", ""))
m("life-key", "C24", "bug", (CT, "	delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})", "	delete(t.conns, connKey{src: cc.RemoteAddr(), dst: cc.LocalAddr()})"))
m("life-same-go", "C24,C01,C02,C18,C20,C22", "same", (PR, "		go p.handleConnection(conn.(*netw.Conn))\n", "		nc := conn.(*netw.Conn)\n		go func() {\n			p.handleConnection(nc)\n		}()\n"))
m("life-same-max", "C24", "same", (PR, "p.config().MaxOpen; numOpen >= maxOpen {", "p.config().MaxOpen; numOpen > maxOpen {"))
m("life-same-max2", "C24", "same", (PR, "	if maxOpen := p.config().MaxOpen; numOpen >= maxOpen {\n", "	maxOpen := p.config().MaxOpen\n	tooMany := numOpen >= maxOpen\n	if tooMany {\n"))
m("life-same-wg", "C24", "same", (BA, "	ch := make(chan error)\n	go func() {\n		ch <- forward(client, server, serverClose, timeout)\n	}()\n", "	var backErr error\n	var wg sync.WaitGroup\n	wg.Add(1)\n	go func() {\n		defer wg.Done()\n		backErr = forward(client, server, serverClose, timeout)\n	}()\n"), (BA, "	if err := <-ch; err != nil && !errors.Is(err, net.ErrClosed) {\n", "	wg.Wait()\n	if err := backErr; err != nil && !errors.Is(err, net.ErrClosed) {\n"), (BA, "	\"strings\"\n", "	\"strings\"\n	\"sync\"\n"))
m("life-same-fwd", "C24", "same", (BA, "	if _, err := io.Copy(out, in); err != nil || closeWhenDone {\n		out.Close()\n		in.Close()\n		return err\n	}\n	if err := closeWrite(out); err != nil {\n		out.Close()\n		in.Close()\n		return nil\n	}\n	if err := closeRead(in); err != nil {\n		out.Close()\n		in.Close()\n		return nil\n	}\n", "	closeBoth := func() {\n		out.Close()\n		in.Close()\n	}\n	if _, err := io.Copy(out, in); err != nil || closeWhenDone {\n		closeBoth()\n		return err\n	}\n	if closeWrite(out) != nil || closeRead(in) != nil {\n		closeBoth()\n		return nil\n	}\n"))
m("life-same-http", "C24", "same", (PR, "func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {\n	if !p.authorizeTLSConnection(conn) {\n		conn.Close()\n		return\n	}\n", "func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {\n	queued := false\n	defer func() {\n		if !queued {\n			conn.Close()\n		}\n	}()\n	if !p.authorizeTLSConnection(conn) {\n		return\n	}\n"), (PR, "	be.httpConnChan <- conn\n}\n", "	be.httpConnChan <- conn\n	queued = true\n}\n"))
m("life-same-flag", "C24", "same", (PR, "		p.handleHTTPConnection(tls.Server(conn, be.tlsConfig))\n		closeConnNeeded = false\n", "		closeConnNeeded = false\n		p.handleHTTPConnection(tls.Server(conn, be.tlsConfig))\n"))
m("life-same-onclose", "C24", "same", (PR, "	conn.OnClose(func() {\n		p.inConns.remove(conn)\n		if be := connBackend(conn); be != nil {\n			be.incInFlight(-1)\n", "	conn.OnClose(func() {\n		defer p.inConns.remove(conn)\n		if be := connBackend(conn); be != nil {\n			defer be.incInFlight(-1)\n"))
m("life-same-dial", "C24", "same", (PR, "	intConn, err := be.dial(context.WithValue(p.ctx, connCtxKey, extConn))\n	if err != nil {", "	var intConn net.Conn\n	intConn, err := be.dial(context.WithValue(p.ctx, connCtxKey, extConn))\n	if err != nil {"))
m("life-same-ws", "C24", "same", (WS, "		p.outConns.add(wc)\n		defer func() {\n			wc.Close()\n			p.outConns.remove(wc)\n		}()\n", "		defer wc.Close()\n		p.outConns.add(wc)\n		defer p.outConns.remove(wc)\n"))
m("life-same-cb", "C24", "same", (NW, "	c.cancel()\n	if f != nil {\n		f()\n	}\n	return c.Conn.Close()", "	defer c.cancel()\n	err := c.Conn.Close()\n	if f != nil {\n		f()\n	}\n	return err"))
m("life-same-cb2", "C24", "same", (NW, "	c.mu.Lock()\n	f := c.onClose\n	c.onClose = nil\n	c.mu.Unlock()\n	c.cancel()\n", "	f := c.takeOnClose()\n	c.cancel()\n"), (NW, "func newCounter()", "func (c *Conn) takeOnClose() func() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	f := c.onClose\n	c.onClose = nil\n	return f\n}\n\nfunc newCounter()"))
m("life-same-tracker", "C24", "same", (CT, "	cc := localNetConn(c)\n	t.conns[connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()}] = c\n", "	t.conns[keyOf(c)] = c\n"), (CT, "	cc := localNetConn(c)\n	delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})\n", "	delete(t.conns, keyOf(c))\n"), (CT, "func (t *connTracker) add", "func keyOf(c annotatedConnection) connKey {\n	cc := localNetConn(c)\n	return connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()}\n}\n\nfunc (t *connTracker) add"))
m("life-same-bykey", "C24", "same", (CT, "	cc := localNetConn(c)\n	t.conns[connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()}] = c\n", "	t.conns[c] = c\n"), (CT, "	cc := localNetConn(c)\n	delete(t.conns, connKey{src: cc.LocalAddr(), dst: cc.RemoteAddr()})\n", "	delete(t.conns, c)\n"), (CT, "	conns map[connKey]annotatedConnection\n", "	conns map[annotatedConnection]annotatedConnection\n"), (CT, "make(map[connKey]annotatedConnection)", "make(map[annotatedConnection]annotatedConnection)"), (CT, "	\"net\"\n", ""), (CT, "type connKey struct {\n	dst net.Addr\n	src net.Addr\n}\n", ""))

# C26
m("crash-norecover", "C26", "bug", (PR, "			conn.Close()\n		}\n	}()\n	closeConnNeeded := true\n", "			conn.Close()\n			panic(r)\n		}\n	}()\n	closeConnNeeded := true\n"))
m("crash-norecover2", "C26", "bug", (PR, "	defer func() {\n		if r := recover(); r != nil {\n			p.recordEvent(\"panic\")\n			p.logErrorF(\"ERR [%s] %s: PANIC: %v\", certSummary(connClientCert(conn)), conn.RemoteAddr(), r)\n			conn.Close()\n		}\n	}()\n	closeConnNeeded := true\n", "	closeConnNeeded := true\n"))
m("crash-norecover-quic", "C26", "bug", (QU, "	defer func() {\n		if r := recover(); r != nil {\n			p.recordEvent(\"panic\")\n			p.logErrorF(\"ERR [%s] %s: PANIC: %v\", certSummary(connClientCert(qc)), qc.RemoteAddr(), r)\n			qc.Close()\n		}\n	}()\n", ""))
m("crash-verify-len", "C26", "bug", (PR, "				if len(cs.PeerCertificates) == 0 || len(cs.VerifiedChains) == 0 {\n", "				if len(cs.PeerCertificates) == 0 && cs.Version == tls.VersionTLS13 {\n"))
m("crash-dial-len", "C26", "bug", (BA, "			if len(cs.PeerCertificates) == 0 {\n				return tlsCertificateRequired\n			}\n", ""))
m("crash-dial-len2", "C26", "bug", (BA, "			if len(cs.PeerCertificates) == 0 {\n", "			if len(cs.PeerCertificates) == 0 && !insecureSkipVerify {\n"))
m("crash-qdial-len", "C26", "bug", (QU, "			if len(cs.PeerCertificates) == 0 {\n				return tlsCertificateRequired\n			}\n", ""))
m("crash-staple-len", "C26", "bug", (PR, "		if len(cert.Certificate) < 2 {\n", "		if len(cert.Certificate) < 1 {\n"))
m("crash-staple-err", "C26", "bug", (PR, "err == nil && ocspResp.Status == ocsp.Good {", "ocspResp.Status == ocsp.Good && err == nil {"))
m("crash-staple-nil", "C26", "bug", (PR, "		issuer, err := x509.ParseCertificate(cert.Certificate[1])\n		if err != nil {\n			return nil, err\n		}\n", "		issuer, err := x509.ParseCertificate(cert.Certificate[1])\n		if err != nil {\n			p.logErrorF(\"ERR %s: %v\", issuer.Subject, err)\n			return nil, err\n		}\n"))
m("crash-reauth-nilbe", "C26", "bug", (PR, "if oldBE := connBackend(conn); oldBE != nil && be.Mode != oldBE.Mode {", "if oldBE := connBackend(conn); be.Mode != oldBE.Mode {"))
m("crash-reauth-err", "C26", "bug", (PR, "			p.logErrorF(\"BAD [-] ReAuth %s ➔ %q: %v\", conn.RemoteAddr(), serverName, err)\n			conn.Close()\n			continue\n", "			be.logErrorF(\"BAD [-] ReAuth %s ➔ %q: %v\", conn.RemoteAddr(), serverName, err)\n			conn.Close()\n			continue\n"))
m("crash-auth-nilcert", "C26", "bug", (BA, "	if cert == nil {\n		return tlsCertificateRequired\n	}\n	if be.ClientAuth.ACL == nil {\n		return nil\n	}\n", "	if be.ClientAuth.ACL == nil && cert != nil {\n		return nil\n	}\n"))
m("crash-auth-nilca", "C26", "bug", (BA, "	if be.ClientAuth == nil {\n		return nil\n	}\n	if cert == nil {", "	if cert == nil {"), (PR, "		if be.ClientAuth == nil {\n			continue\n		}\n		clientCert := connClientCert(conn)\n", "		clientCert := connClientCert(conn)\n"))
m("crash-saml-pem", "C26", "bug", (SA, "		if block == nil {\n			break\n		}\n		b = rest\n", "		b = rest\n"))
m("crash-map-conns", "C26", "bug", (CT, "	if t.conns == nil {\n		t.conns = make(map[connKey]annotatedConnection)\n	}\n	cc", "	cc"))
m("crash-map-events", "C26", "bug", ("proxy/metrics.go", "	if p.events == nil {\n		p.events = make(map[string]int64)\n	}\n", ""))
m("crash-map-annot", "C26", "bug", (NQ, "	if c.annotations == nil {\n		c.annotations = make(map[string]any)\n	}\n", ""))
m("crash-close-twice", "C26", "bug", (BA, "		close(be.httpConnChan)\n		be.httpServer = nil\n	}\n	return be.state.inFlight", "		close(be.httpConnChan)\n	}\n	return be.state.inFlight"))
m("crash-close-noguard", "C26", "bug", (BA, "	if be.httpServer == nil {\n		return\n	}\n", ""))
m("crash-close-cond", "C26", "bug", (BA, "be.state.shutdown && be.httpServer != nil {", "be.state.shutdown {"))
m("crash-typed", "C26", "bug", (QU, "		conn.SetAnnotation(startTimeKey, time.Now())\n		conn.SetAnnotation(modeKey", "		conn.SetAnnotation(startTimeKey, time.Now().Unix())\n		conn.SetAnnotation(modeKey"))
m("crash-typed-def", "C26", "bug", (QU, "	dialTime := conn.Annotation(dialDoneKey, time.Time{}).(time.Time)\n", "	dialTime := conn.Annotation(dialDoneKey, nil).(time.Time)\n"))
m("crash-send", "C26", "bug", (QU, "		if r := recover(); r != nil {\n			p.recordEvent(\"panic\")\n			p.logErrorF(\"ERR [%s] %s: PANIC: %v\", certSummary(connClientCert(conn)), conn.RemoteAddr(), r)\n			closeConnNeeded = true\n		}\n", ""))
m("crash-send-go", "C26", "bug", (PR, "	be.httpConnChan <- conn\n}\n", "	go func() {\n		be.httpConnChan <- conn\n	}()\n}\n"))
m("crash-qdial-err", "C26", "bug", (QU, "		cancel()\n		if err != nil {\n			if max--; max > 0 {\n				be.logErrorF(\"ERR dialQUIC %q: %v\", addr, err)\n				continue\n			}\n			return nil, err\n		}\n", "		cancel()\n		if err != nil {\n			if max--; max > 0 {\n				be.logErrorF(\"ERR dialQUIC %q %s: %v\", addr, conn.RemoteAddr(), err)\n				continue\n			}\n			return nil, err\n		}\n"))
m("crash-same-hascert", "C26,C02,C19", "same", (BA, "			if len(cs.PeerCertificates) == 0 {\n", "			if !hasPeerCert(cs) {\n"), (BA, "func (be *Backend) authorize(", "func hasPeerCert(cs tls.ConnectionState) bool {\n	return len(cs.PeerCertificates) > 0\n}\n\nfunc (be *Backend) authorize("))
m("crash-same-verify", "C26,C02,C19", "same", (BA, "			if len(cs.PeerCertificates) == 0 {\n				return tlsCertificateRequired\n			}\n			cert := cs.PeerCertificates[0]\n			if m, ok := be.pkiMap[hex.EncodeToString(cert.AuthorityKeyId)]; ok {\n				if m.IsRevoked(cert.SerialNumber) {\n					return tlsCertificateRevoked\n				}\n			} else if len(cert.OCSPServer) > 0 {\n				if err := be.ocspCache.VerifyChains(cs.VerifiedChains, cs.OCSPResponse); err != nil {\n					be.recordEvent(fmt.Sprintf(\"backend X509 %s [%s] (OCSP:%v)\", idnaToUnicode(cs.ServerName), cert.Subject, err))\n					return tlsCertificateRevoked\n				}\n			}\n			return nil\n		},\n", "			if len(cs.PeerCertificates) == 0 {\n				return tlsCertificateRequired\n			}\n			return be.verifyServerCert(cs)\n		},\n"), (BA, "func (be *Backend) authorize(", "func (be *Backend) verifyServerCert(cs tls.ConnectionState) error {\n	cert := cs.PeerCertificates[0]\n	if m, ok := be.pkiMap[hex.EncodeToString(cert.AuthorityKeyId)]; ok {\n		if m.IsRevoked(cert.SerialNumber) {\n			return tlsCertificateRevoked\n		}\n		return nil\n	}\n	if len(cert.OCSPServer) == 0 {\n		return nil\n	}\n	if err := be.ocspCache.VerifyChains(cs.VerifiedChains, cs.OCSPResponse); err != nil {\n		be.recordEvent(fmt.Sprintf(\"backend X509 %s [%s] (OCSP:%v)\", idnaToUnicode(cs.ServerName), cert.Subject, err))\n		return tlsCertificateRevoked\n	}\n	return nil\n}\n\nfunc (be *Backend) authorize("))
m("crash-same-recover", "C26,C24,C01", "same", (PR, "	defer func() {\n		if r := recover(); r != nil {\n			p.recordEvent(\"panic\")\n			p.logErrorF(\"ERR [%s] %s: PANIC: %v\", certSummary(connClientCert(conn)), conn.RemoteAddr(), r)\n			conn.Close()\n		}\n	}()\n	closeConnNeeded := true\n", "	defer p.recoverConn(conn)\n	closeConnNeeded := true\n"), (PR, "func (p *Proxy) handleConnection(", "func (p *Proxy) recoverConn(conn *netw.Conn) {\n	r := recover()\n	if r == nil {\n		return\n	}\n	p.recordEvent(\"panic\")\n	p.logErrorF(\"ERR [%s] %s: PANIC: %v\", certSummary(connClientCert(conn)), conn.RemoteAddr(), r)\n	conn.Close()\n}\n\nfunc (p *Proxy) handleConnection("))
m("crash-same-map", "C26,C25", "same", ("proxy/metrics.go", "	if p.events == nil {\n		p.events = make(map[string]int64)\n	}\n	p.events[msg]++", "	m := p.events\n	if m == nil {\n		m = make(map[string]int64)\n		p.events = m\n	}\n	m[msg]++"))
m("crash-same-map2", "C26,C24", "same", (CT, "	return &connTracker{}", "	return &connTracker{\n		conns: make(map[connKey]annotatedConnection),\n	}"), (CT, "	if t.conns == nil {\n		t.conns = make(map[connKey]annotatedConnection)\n	}\n	cc", "	cc"))
m("crash-same-staple", "C26,C27", "same", (PR, "		if len(cert.Certificate) < 2 {\n", "		if n := len(cert.Certificate); n <= 1 {\n"))
m("crash-same-close", "C26,C25", "same", (BA, "		close(be.httpConnChan)\n		be.httpServer = nil\n	}\n	return be.state.inFlight", "		be.closeHTTP()\n	}\n	return be.state.inFlight"), (BA, "func (be *Backend) incInFlight(", "// closeHTTP closes the channel. be.state.mu is held.\nfunc (be *Backend) closeHTTP() {\n	close(be.httpConnChan)\n	be.httpServer = nil\n}\n\nfunc (be *Backend) incInFlight("))
m("crash-same-reauth", "C26,C22", "same", (PR, "		if oldBE := connBackend(conn); oldBE != nil && be.Mode != oldBE.Mode {", "		oldBE := connBackend(conn)\n		changed := oldBE != nil && be.Mode != oldBE.Mode\n		if changed {"))
m("crash-same-switch", "C26,C03,C22", "same", (BA, "	if be.ClientAuth == nil {\n		return nil\n	}\n	if cert == nil {\n		return tlsCertificateRequired\n	}\n	if be.ClientAuth.ACL == nil {\n		return nil\n	}\n", "	switch {\n	case be.ClientAuth == nil:\n		return nil\n	case cert == nil:\n		return tlsCertificateRequired\n	case be.ClientAuth.ACL == nil:\n		return nil\n	}\n"))

# C31
TM = "proxy/internal/tokenmanager/tokenmanager.go"
UTK = "proxy/internal/tokenmanager/urltoken.go"
PI = "proxy/internal/pki/pki.go"
m("rand-nonce-short", "C31", "bug", (OC, "var nonce [12]byte", "var nonce [4]byte"))
m("rand-nonce-part", "C31", "bug", (OC, "nonceStr := hex.EncodeToString(nonce[:])", "nonceStr := hex.EncodeToString(nonce[:4])"))
m("rand-nonce-part2", "C31", "bug", (OC, "nonceStr := hex.EncodeToString(nonce[:])", "nonceStr := hex.EncodeToString(nonce[:])[:6]"))
m("rand-nonce-fill", "C31", "bug", (OC, "io.ReadFull(rand.Reader, nonce[:])", "io.ReadFull(rand.Reader, nonce[:2])"))
m("rand-nonce-time", "C31", "bug", (OC, "	if _, err := io.ReadFull(rand.Reader, nonce[:]); err != nil {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n", "	for i, v := 0, time.Now().UnixNano(); i < 8; i++ {\n		nonce[i] = byte(v >> (8 * i))\n	}\n"))
m("rand-nonce-fallback", "C31", "bug", (OC, "	if _, err := io.ReadFull(rand.Reader, nonce[:]); err != nil {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n", "	if _, err := io.ReadFull(rand.Reader, nonce[:]); err != nil {\n		copy(nonce[:], originalURL)\n	}\n"))
m("rand-verifier-shared", "C31", "bug", (OC, "	if _, err := io.ReadFull(rand.Reader, codeVerifier[:]); err != nil {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n", "	copy(codeVerifier[:], nonce[:])\n"))
m("rand-verifier-nonce", "C31", "bug", (OC, "base64.RawURLEncoding.EncodeToString(codeVerifier[:])", "base64.RawURLEncoding.EncodeToString(nonce[:])"))
m("rand-code-token", "C31", "bug", (OS_, "	b = make([]byte, 12)\n	if _, err := io.ReadFull(rand.Reader, b); err != nil {\n		http.Error(w, \"internal error\", http.StatusInternalServerError)\n		return\n	}\n	accessToken", "	accessToken"))
m("rand-code-unread", "C31", "bug", (OS_, "	b = make([]byte, 12)\n	if _, err := io.ReadFull(rand.Reader, b); err != nil {\n		http.Error(w, \"internal error\", http.StatusInternalServerError)\n		return\n	}\n	accessToken", "	b = make([]byte, 12)\n	accessToken"))
m("rand-code-url", "C31", "bug", (OS_, "	code := base64.StdEncoding.EncodeToString(b)\n", "	code := base64.StdEncoding.EncodeToString([]byte(clientID + redirectURI))\n"))
m("rand-code-hash", "C31", "bug", (OS_, "	code := base64.StdEncoding.EncodeToString(b)\n", "	code := base64.StdEncoding.EncodeToString(b[:1])\n"))
m("rand-saml-id", "C31", "bug", (SA, "	if _, err := io.ReadFull(rand.Reader, id[:]); err != nil {\n", "	if _, err := io.ReadFull(strings.NewReader(origURL+\"            \"), id[:]); err != nil {\n"), (SA, "	\"crypto/rand\"\n", ""), (SA, "	\"sync\"\n", "	\"strings\"\n	\"sync\"\n"))
m("rand-pk-nonce", "C31", "bug", (PK, "	n := make([]byte, 16)\n", "	n := make([]byte, 1)\n"))
m("rand-pk-chal", "C31", "bug", (PW, "	ao.Challenge = challenge\n	return ao, nil\n}\n\n// AssertionOptions", "	ao.Challenge = challenge[:0:32]\n	return ao, nil\n}\n\n// AssertionOptions"))
m("rand-pk-chal2", "C31", "bug", (PW, "		AllowCredentials: make([]CredentialID, 0),\n	}\n	challenge := make([]byte, 32)\n	if _, err := rand.Read(challenge); err != nil {\n		return nil, err\n	}\n", "		AllowCredentials: make([]CredentialID, 0),\n	}\n	challenge := make([]byte, 32)\n"))
m("rand-token-id", "C31", "bug", (TM, "	var id [16]byte\n	if _, err := io.ReadFull(rand.Reader, id[:]); err != nil {\n		return nil, err\n	}\n	_, privKey", "	var id [16]byte\n	_, privKey"))
m("rand-rsa-bits", "C31", "bug", (TM, "rsa.GenerateKey(rand.Reader, 2048)", "rsa.GenerateKey(rand.Reader, 1024)"))
m("rand-pki-serial", "C31", "bug", (PI, "	sn, err := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 160))\n	if err != nil {\n		return nil, err\n	}\n", "	sn, err := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 16))\n	if err != nil {\n		return nil, err\n	}\n"))
m("rand-pki-serial2", "C31,C15", "bug", (PI, "	sn, err := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 160))\n	if err != nil {\n		return nil, err\n	}\n", "	sn := big.NewInt(now.UnixNano())\n"))
m("rand-ssh-serial", "C31", "bug", (SC, "binary.BigEndian.Uint64(rnd)", "uint64(binary.BigEndian.Uint16(rnd))"))
m("rand-reset-key", "C31", "bug", (QU, "		if _, err := io.ReadFull(rand.Reader, statelessResetKey[:]); err != nil {\n			return err\n		}\n", "		copy(statelessResetKey[:], p.config().TLSAddr)\n"), (QU, "	\"crypto/rand\"\n", ""), (QU, "	\"io\"\n", ""))
m("rand-key-reader", "C31", "bug", ("proxy/internal/pki/keys/keys.go", "ecdsa.GenerateKey(crv, rand.Reader)", "ecdsa.GenerateKey(crv, mrand.New(mrand.NewSource(time.Now().UnixNano())))"), ("proxy/internal/pki/keys/keys.go", "	\"fmt\"\n", "	\"fmt\"\n	mrand \"math/rand\"\n	\"time\"\n"))
m("rand-sid", "C31", "bug", (UTK, "		var buf [16]byte\n", "		var buf [2]byte\n"))
m("rand-sid-host", "C31", "bug", (UTK, "		sid = hex.EncodeToString(buf[:])", "		sid = hex.EncodeToString([]byte(req.RemoteAddr))"))
m("rand-same-helper", "C31,C10,C12", "same", (OC, "	var nonce [12]byte\n	if _, err := io.ReadFull(rand.Reader, nonce[:]); err != nil {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n	nonceStr := hex.EncodeToString(nonce[:])\n", "	nonceStr, err := newNonce()\n	if err != nil {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n"), (OC, "func (p *ProviderClient) RequestLogin(", "func newNonce() (string, error) {\n	var nonce [12]byte\n	if _, err := io.ReadFull(rand.Reader, nonce[:]); err != nil {\n		return \"\", err\n	}\n	return hex.EncodeToString(nonce[:]), nil\n}\n\nfunc (p *ProviderClient) RequestLogin("))
m("rand-same-helper2", "C31,C12", "same", (OS_, "	b := make([]byte, 12)\n	if _, err := io.ReadFull(rand.Reader, b); err != nil {\n		http.Error(w, \"internal error\", http.StatusInternalServerError)\n		return\n	}\n	code := base64.StdEncoding.EncodeToString(b)\n	b = make([]byte, 12)\n	if _, err := io.ReadFull(rand.Reader, b); err != nil {\n		http.Error(w, \"internal error\", http.StatusInternalServerError)\n		return\n	}\n	accessToken := base64.StdEncoding.EncodeToString(b)\n", "	code, err := randomString(12)\n	if err != nil {\n		http.Error(w, \"internal error\", http.StatusInternalServerError)\n		return\n	}\n	accessToken, err := randomString(12)\n	if err != nil {\n		http.Error(w, \"internal error\", http.StatusInternalServerError)\n		return\n	}\n"), (OS_, "func (s *ProviderServer) ServeAuthorization(", "func randomString(n int) (string, error) {\n	b := make([]byte, n)\n	if _, err := io.ReadFull(rand.Reader, b); err != nil {\n		return \"\", err\n	}\n	return base64.StdEncoding.EncodeToString(b), nil\n}\n\nfunc (s *ProviderServer) ServeAuthorization("))
m("rand-same-buf", "C31,C12", "same", (OS_, "	b = make([]byte, 12)\n", ""))
m("rand-same-store", "C31,C11", "same", (SA, "	p.mu.Lock()\n	p.states[idStr] = &samlState{\n		Created:     time.Now(),\n		OriginalURL: origURL,\n		Host:        ou.Host,\n	}\n	p.mu.Unlock()\n", "	p.addState(idStr, &samlState{\n		Created:     time.Now(),\n		OriginalURL: origURL,\n		Host:        ou.Host,\n	})\n"), (SA, "func (p *Provider) RequestLogin(", "func (p *Provider) addState(id string, st *samlState) {\n	p.mu.Lock()\n	defer p.mu.Unlock()\n	p.states[id] = st\n}\n\nfunc (p *Provider) RequestLogin("))
m("rand-same-chal", "C31,C13", "same", (PW, "	challenge := make([]byte, 32)\n	if _, err := rand.Read(challenge); err != nil {\n		return nil, err\n	}\n	ao.Challenge = challenge\n	return ao, nil\n}\n\n// AssertionOptions", "	ao.Challenge = make([]byte, 32)\n	if _, err := rand.Read(ao.Challenge); err != nil {\n		return nil, err\n	}\n	return ao, nil\n}\n\n// AssertionOptions"))
m("rand-same-text", "C31,C10", "same", (OC, "	var nonce [12]byte\n	if _, err := io.ReadFull(rand.Reader, nonce[:]); err != nil {\n		http.Error(w, err.Error(), http.StatusInternalServerError)\n		return\n	}\n	nonceStr := hex.EncodeToString(nonce[:])\n", "	nonceStr := rand.Text()\n"), (OC, "	\"encoding/hex\"\n", ""))
m("rand-same-token-id", "C31", "same", (TM, "	var id [16]byte\n	if _, err := io.ReadFull(rand.Reader, id[:]); err != nil {\n		return nil, err\n	}\n	_, privKey", "	id := make([]byte, 16)\n	if _, err := rand.Read(id); err != nil {\n		return nil, err\n	}\n	_, privKey"))
m("rand-same-serial", "C31,C15", "same", (PI, "	sn, err := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 160))\n	if err != nil {\n		return nil, err\n	}\n", "	sn, err := m.newSerial()\n	if err != nil {\n		return nil, err\n	}\n"), (PI, "// IssueCertificate issues a new certificate.\n", "func (m *PKIManager) newSerial() (*big.Int, error) {\n	limit := new(big.Int).Lsh(big.NewInt(1), 160)\n	return rand.Int(rand.Reader, limit)\n}\n\n// IssueCertificate issues a new certificate.\n"))

# C32
m("keys-early", "C32", "bug", (TM, "	if err := commit(true, nil); err != nil {\n		return err\n	}\n	tm.mu.Lock()\n	tm.keys = keys\n	tm.mu.Unlock()\n	return nil\n", "	tm.mu.Lock()\n	tm.keys = keys\n	tm.mu.Unlock()\n	return commit(true, nil)\n"))
m("keys-commit-ignored", "C32", "bug", (TM, "	if err := commit(true, nil); err != nil {\n		return err\n	}\n	tm.mu.Lock()\n	tm.keys = keys\n", "	if err := commit(true, nil); err != nil {\n		tm.logger.Errorf(\"ERR %v\", err)\n	}\n	tm.mu.Lock()\n	tm.keys = keys\n"))
m("keys-commit-false", "C32", "bug", (TM, "	if err := commit(true, nil); err != nil {\n		return err\n	}\n	tm.mu.Lock()\n	tm.keys = keys\n", "	if err := commit(changed, nil); err != nil {\n		return err\n	}\n	tm.mu.Lock()\n	tm.keys = keys\n"))
m("keys-short-keep", "C32", "bug", (TM, "CreationTime.Add(7 * 24 * time.Hour)", "CreationTime.Add(24 * time.Hour)"))
m("keys-keep-flip", "C32", "bug", (TM, "CreationTime.Add(7 * 24 * time.Hour).Before(now)", "CreationTime.Add(7 * 24 * time.Hour).After(now)"))
m("keys-drop-always", "C32", "bug", (TM, "	if keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now) {\n", "	if len(keys.Keys) > 3 {\n"))
m("keys-drop-newest", "C32", "bug", (TM, "keys.Keys = keys.Keys[1:]", "keys.Keys = keys.Keys[:len(keys.Keys)-1]"))
m("keys-drop-all", "C32", "bug", (TM, "keys.Keys = keys.Keys[1:]", "keys.Keys = keys.Keys[3:]"))
m("keys-drop-newer", "C32", "bug", (TM, "	if keys.Keys[0].CreationTime.Add(7 ", "	if newest.CreationTime.Add(7 "))
m("keys-old", "C32", "bug", (TM, "	if newest.CreationTime.Add(24 * time.Hour)", "	if newest.CreationTime.Add(24 * 30 * time.Hour)"))
m("keys-old-flip", "C32", "bug", (TM, "newest.CreationTime.Add(24 * time.Hour).Before(now)", "newest.CreationTime.Add(24 * time.Hour).After(now)"))
m("keys-oldest", "C32", "bug", (TM, "newest := keys.Keys[len(keys.Keys)-1]", "newest := keys.Keys[0]"))
m("keys-filter", "C32", "bug", (TM, "		return k.privKey == nil\n", "		return k.privKey == nil || k.CreationTime.Add(24 * time.Hour).Before(now)\n"))
m("keys-filter-flip", "C32", "bug", (TM, "		return k.privKey == nil\n", "		return k.privKey != nil\n"))
m("keys-young", "C32", "bug", (TM, "k.CreationTime.Add(2*time.Hour)", "k.CreationTime.Add(2*time.Minute)"))
m("keys-young-flip", "C32", "bug", (TM, "k.CreationTime.Add(2*time.Hour).Before(time.Now())", "k.CreationTime.Add(2*time.Hour).After(time.Now())"))
m("keys-young-none", "C32", "bug", (TM, "		if tk == nil || k.CreationTime.Add(2*time.Hour).Before(time.Now()) {\n			tk = k\n		}\n", "		tk = k\n"))
m("keys-cache-long", "C32", "bug", (TM, "max-age=3600", "max-age=86400"))
m("keys-kid-other", "C32", "bug", (TM, "tok.Header[\"kid\"] = tk.ID", "tok.Header[\"kid\"] = tm.keys.Keys[0].ID"))
m("keys-sign-other", "C32", "bug", (TM, "	return tok.SignedString(tk.privKey)", "	return tok.SignedString(tm.keys.Keys[len(tm.keys.Keys)-1].privKey)"))
m("keys-nokey", "C32", "bug", (TM, "	if tk == nil {\n		return \"\", errors.New(\"no signing key\")\n	}\n", ""))
m("keys-jwks-rsa", "C32", "bug", (TM, "		case *rsa.PublicKey:\n			out.Keys = append(out.Keys, jwk{\n				Type: \"RSA\",\n				Use:  \"sig\",\n				ID:   key.ID,\n				Alg:  \"RS256\",\n				N:    base64.RawURLEncoding.EncodeToString(pub.N.Bytes()),\n				E:    base64.RawURLEncoding.EncodeToString(big.NewInt(int64(pub.E)).Bytes()),\n			})\n", ""))
m("keys-jwks-short", "C32", "bug", (TM, "pub.X.FillBytes(make([]byte, 32))", "pub.X.Bytes()"))
m("keys-jwks-y", "C32", "bug", (TM, "pub.Y.FillBytes(make([]byte, 32))", "pub.X.FillBytes(make([]byte, 32))"))
m("keys-jwks-id", "C32", "bug", (TM, "				ID:    key.ID,\n				Alg:   \"EdDSA\"", "				ID:    tm.keys.Keys[0].ID,\n				Alg:   \"EdDSA\""))
m("keys-jwks-break", "C32", "bug", (TM, "		switch pub := key.privKey.Public().(type) {\n		case *ecdsa.PublicKey:\n			out", "		if time.Since(key.CreationTime) < 2*time.Hour {\n			break\n		}\n		switch pub := key.privKey.Public().(type) {\n		case *ecdsa.PublicKey:\n			out"))
m("keys-jwks-skip", "C32", "bug", (TM, "		switch pub := key.privKey.Public().(type) {\n		case *ecdsa.PublicKey:\n			out", "		if time.Since(key.CreationTime) < 2*time.Hour {\n			continue\n		}\n		switch pub := key.privKey.Public().(type) {\n		case *ecdsa.PublicKey:\n			out"))
m("keys-jwks-private", "C32", "bug", (TM, "X:     base64.RawURLEncoding.EncodeToString(pub)", "X:     base64.RawURLEncoding.EncodeToString(key.Key)"))
m("keys-loop-none", "C32", "bug", (PR, "	go p.tokenManager.KeyRotationLoop(p.ctx)\n", ""))
m("keys-loop-long", "C32", "bug", (TM, "case <-time.After(time.Hour):", "case <-time.After(24 * time.Hour):"))
m("keys-loop-once", "C32", "bug", (TM, "				tm.logger.Errorf(\"ERR tokenManager.rotateKeys(): %v\", err)\n", "				tm.logger.Errorf(\"ERR tokenManager.rotateKeys(): %v\", err)\n				return\n"))
m("keys-other-stored", "C32", "bug", (TM, "	mPrivKey, err := x509.MarshalPKCS8PrivateKey(privKey)\n", "	_, pk2, _ := ed25519.GenerateKey(rand.Reader)\n	mPrivKey, err := x509.MarshalPKCS8PrivateKey(pk2)\n"))
m("keys-notime", "C32", "bug", (TM, "		Key:          mPrivKey,\n		privKey:      privKey,\n		CreationTime: time.Now(),\n", "		Key:          mPrivKey,\n		privKey:      privKey,\n		CreationTime: time.Now().Add(-3 * time.Hour),\n"))
m("keys-decode-other", "C32", "bug", (TM, "x509.ParsePKCS8PrivateKey(k.Key)", "x509.ParsePKCS8PrivateKey(keys.Keys[0].Key)"))
m("keys-same-set", "C32", "same", (TM, "	tm.mu.Lock()\n	tm.keys = keys\n	tm.mu.Unlock()\n	return nil\n}\n", "	tm.setKeys(keys)\n	return nil\n}\n\nfunc (tm *TokenManager) setKeys(keys tokenKeys) {\n	tm.mu.Lock()\n	defer tm.mu.Unlock()\n	tm.keys = keys\n}\n"))
m("keys-same-const", "C32", "same", (TM, "CreationTime.Add(7 * 24 * time.Hour)", "CreationTime.Add(keepKeys)"), (TM, "func (tm *TokenManager) rotateKeys() ", "const keepKeys = 7 * 24 * time.Hour\n\nfunc (tm *TokenManager) rotateKeys() "))
m("keys-same-since", "C32", "same", (TM, "k.CreationTime.Add(2*time.Hour).Before(time.Now())", "time.Since(k.CreationTime) > 2*time.Hour"))
m("keys-same-after", "C32", "same", (TM, "keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now)", "now.After(keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour))"))
m("keys-same-split", "C32", "same", (TM, "		if tk == nil || k.CreationTime.Add(2*time.Hour).Before(time.Now()) {\n			tk = k\n		}\n", "		if tk == nil {\n			tk = k\n			continue\n		}\n		if k.CreationTime.Add(2 * time.Hour).Before(time.Now()) {\n			tk = k\n		}\n"))
m("keys-same-pick", "C32,C08", "same", (TM, "	if tk == nil {\n		return \"\", errors.New(\"no signing key\")\n	}\n	tok := jwt", "	return signToken(tk, method, claims)\n}\n\nfunc signToken(tk *tokenKey, method jwt.SigningMethod, claims jwt.Claims) (string, error) {\n	if tk == nil {\n		return \"\", errors.New(\"no signing key\")\n	}\n	tok := jwt"))
m("keys-same-parse", "C32", "same", (TM, "	for _, k := range keys.Keys {\n		if tm.tpm != nil {\n			privKey, err := tm.tpm.UnmarshalKey(k.Key)\n			if err != nil {\n				tm.logger.Errorf(\"ERR tpm.UnmarshalKey: %v\", err)\n				continue\n			}\n			k.privKey = privKey\n			continue\n		}\n		privKey, err := x509.ParsePKCS8PrivateKey(k.Key)\n		if err != nil {\n			tm.logger.Errorf(\"ERR x509.ParsePKCS8PrivateKey: %v\", err)\n			continue\n		}\n		k.privKey = privKey.(privateKey)\n	}\n", "	for _, k := range keys.Keys {\n		pk, err := tm.parseKey(k.Key)\n		if err != nil {\n			tm.logger.Errorf(\"ERR parseKey: %v\", err)\n			continue\n		}\n		k.privKey = pk\n	}\n"), (TM, "func (tm *TokenManager) createNewTokenKeys() ", "func (tm *TokenManager) parseKey(b []byte) (privateKey, error) {\n	if tm.tpm != nil {\n		k, err := tm.tpm.UnmarshalKey(b)\n		if err != nil {\n			return nil, err\n		}\n		return k, nil\n	}\n	k, err := x509.ParsePKCS8PrivateKey(b)\n	if err != nil {\n		return nil, err\n	}\n	return k.(privateKey), nil\n}\n\nfunc (tm *TokenManager) createNewTokenKeys() "))
m("keys-same-jwk", "C32", "same", (TM, "			out.Keys = append(out.Keys, jwk{\n				Type:  \"OKP\",\n				Use:   \"sig\",\n				ID:    key.ID,\n				Alg:   \"EdDSA\",\n				Curve: \"Ed25519\",\n				X:     base64.RawURLEncoding.EncodeToString(pub),\n			})\n", "			out.Keys = append(out.Keys, okpKey(key.ID, pub))\n"), (TM, "// ServeJWKS returns", "func okpKey(id string, pub ed25519.PublicKey) jwk {\n	return jwk{\n		Type:  \"OKP\",\n		Use:   \"sig\",\n		ID:    id,\n		Alg:   \"EdDSA\",\n		Curve: \"Ed25519\",\n		X:     base64.RawURLEncoding.EncodeToString(pub),\n	}\n}\n\n// ServeJWKS returns"))
m("keys-same-new", "C32,C31", "same", (TM, "	tk := &tokenKey{\n		ID:           hex.EncodeToString(id[:]),\n		Key:          mPrivKey,\n		privKey:      privKey,\n		CreationTime: time.Now(),\n	}\n	return tk, nil\n", "	return newTokenKey(id[:], mPrivKey, privKey), nil\n"), (TM, "// CreateToken creates a new", "func newTokenKey(id, b []byte, pk privateKey) *tokenKey {\n	return &tokenKey{\n		ID:           hex.EncodeToString(id),\n		Key:          b,\n		privKey:      pk,\n		CreationTime: time.Now(),\n	}\n}\n\n// CreateToken creates a new"))
m("keys-same-ticker", "C32", "same", (TM, "	for {\n		select {\n		case <-ctx.Done():\n			return\n		case <-time.After(time.Hour):\n", "	t := time.NewTicker(time.Hour)\n	defer t.Stop()\n	for {\n		select {\n		case <-ctx.Done():\n			return\n		case <-t.C:\n"))
