package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const oidcPkg = "proxy/internal/oidc"

func init() {
	register(&Check{
		ID: "C10", Title: "OIDC logins are bound, single-use and verified",
		Explain: "Path-sensitive acceptance table of the OIDC callback: every path to the token exchange and to the session cookie is checked for the state lookup, the single use inside the critical section, the nonce cookie, PKCE, email verification and hosted domain. Data-dependence of the session's identity.",
		Run:     runC10,
	})
	register(&Check{
		ID: "C12", Title: "The local OIDC server issues codes and tokens only to the right client",
		Explain: "Path-sensitive acceptance tables of the authorization, token and userinfo endpoints, with an element-wise automaton for the client list, a critical-section automaton for one-time codes and an expiry automaton.",
		Run:     runC12,
	})
}

// httpMethodIs: the request's method equals the constant.
func httpMethodIs(p *Prog, m string) gate {
	return eqG("method", "the method is "+m, anyField(p.extField("net/http", "Request", "Method")), isStr(m), true)
}

// okOfLookup: the "found" outcome of a lookup in the map with the given key.
func foundG(l, text string, m, key tp, ptr bool) gate {
	return gate{l, text, func(cond *Term, val bool) bool {
		if cond.op == "lookupok" && val && cond.args[0].mentions(m) && key(cond.args[1]) {
			return true
		}
		return ptr && cond.op == "isnil" && !val && cond.args[0].op == "lookupv" && cond.args[0].args[0].mentions(m) && key(cond.args[0].args[1])
	}}
}

func runC10(r *Report, p *Prog) {
	oidcCallback(r, p)
	oidcRequest(r, p)
	nonceCookie(r, p)
}

func isSuffixCall(sfx ...string) tp {
	return func(t *Term) bool {
		if t.op == "extract" && len(t.args) > 0 {
			t = t.args[0]
		}
		if t.op != "call" && t.op != "csym" {
			return false
		}
		for _, s := range sfx {
			if strings.HasSuffix(t.s, s) {
				return true
			}
		}
		return false
	}
}

func oidcCallback(r *Report, p *Prog) {
	const rule = "oidc-callback"
	r.Rule(rule, "the authorization code is exchanged only for a known, unexpired, unused state that equals the browser's nonce cookie, with the PKCE verifier of that state; the session cookie is set only for a verified email of the configured hosted domain, with the identity, nonce and host of that login")
	fn := r.mustFunc(rule, oidcPkg, "(*ProviderClient).HandleCallback", func(f *ssa.Function) bool {
		return isHandlerSig(f) && hasDeepCalls(p, f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && strings.HasSuffix(calleeName(ci), ".SetAuthTokenCookie")
		})
	})
	states := r.mustField(rule, oidcPkg, "ProviderClient", "states")
	mu := r.mustField(rule, oidcPkg, "ProviderClient", "mu")
	created := r.mustField(rule, oidcPkg, "oauthState", "Created")
	orig := r.mustField(rule, oidcPkg, "oauthState", "OriginalURL")
	hostF := r.mustField(rule, oidcPkg, "oauthState", "Host")
	verifier := r.mustField(rule, oidcPkg, "oauthState", "CodeVerifier")
	tokEP := r.mustField(rule, oidcPkg, "Config", "TokenEndpoint")
	hd := r.mustField(rule, oidcPkg, "Config", "HostedDomain")
	if fn == nil || states == nil || mu == nil || created == nil || orig == nil || hostF == nil || verifier == nil || tokEP == nil || hd == nil {
		return
	}
	seen := p.Field(oidcPkg, "oauthState", "Seen")
	isStates := isField(states)
	stateKey := formVal("state")
	cookie := isSuffixCall(".Nonce")
	isNonce := either(p.isJSON("nonce"), stateKey)
	gs := gates{
		foundG("known", "the state is known", isStates, anyOf(stateKey), true),
		eqG("browser", "the state equals the browser's nonce cookie", stateKey, cookie, true),
		eqG("email", "the email is not empty", p.isJSON("email"), isEmptyStr, false),
		orG("verified", "the email is verified",
			nilG("", "", p.isJSON("email_verified"), true),
			boolG("", "", func(t *Term) bool { return t.op != "isnil" && t.op != "bin" && t.mentions(p.isJSON("email_verified")) }, true)),
		eqG("nonce", "the ID token's nonce is that of this login", p.isJSON("nonce"), stateKey, true),
		eqG("hd-unset", "", isField(hd), isEmptyStr, true),
		eqG("hd-any", "", isField(hd), isStr("*"), true),
		eqG("hd-equal", "", isField(hd), p.isJSON("hd"), true),
		eqG("hd-present", "", p.isJSON("hd"), isEmptyStr, false),
		boolG("unseen", "", func(t *Term) bool { return seen != nil && isField(seen)(t) }, false),
	}
	lenGate := func(l string, a tp) gate {
		return gate{l, "", func(cond *Term, val bool) bool {
			return cond.op == "bin" && cond.s == "<" && val && isZeroConst(cond.args[0]) && isLen(cond.args[1]) && cond.args[1].mentions(a)
		}}
	}
	gs = append(gs, lenGate("email", p.isJSON("email")), lenGate("hd-present", p.isJSON("hd")))
	on := &once{L: "once", Mu: mu, IsMap: isStates, Retire: func(c *Ctx, in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok || seen == nil {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		k, isC := st.Val.(*ssa.Const)
		return ok && fieldVar(fa.X.Type(), fa.Field) == seen && isC && k.Value != nil && k.Value.String() == "true"
	}}
	sw := &sweeper{L: "sweep", IsMap: isStates, Created: isField(created), Max: 5 * 60 * 1e9}
	thisState := func(t *Term) bool {
		return t.mentions(func(x *Term) bool {
			return x.op == "lookupv" && x.args[0].mentions(isStates) && isNonce(x.args[1])
		})
	}
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			gs.branch(c, cond, val)
			sw.branch(c, cond, val)
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && isStates(c.V(lk.X)) {
				r.Assert(hasEv(c, "once-cs"), rule, "lookup under lock", posOf(in), "the login state is read without holding the lock")
				if sw.ok(c) {
					c.St.Event("unexpired", nil, nil, nil)
				}
			}
			on.instr(c, in)
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if k, ok := ssaConstString(mu.Key); ok && k == "code_verifier" && p.Origins(mu.Value, FlowOpts{}).HasField(verifier) {
					c.St.Event("pkce", nil, nil, nil)
				}
			}
		},
		OnCall: func(c *CallCtx) {
			on.call(c)
			sw.call(c)
			switch {
			case oneOf(c.Name, "(net/url.Values).Add", "(net/url.Values).Set") && len(c.Args) == 3 && isStr("code_verifier")(c.Args[1]):
				if c.Args[2].mentions(func(t *Term) bool { return t.op == "field" && t.fv == verifier && thisState(t.args[0]) }) {
					c.St.Event("pkce", nil, nil, nil)
				}
			case strings.HasSuffix(c.Name, ".SetAuthTokenCookie"):
				in := c.In.(ssa.Instruction)
				gs.need(r, &c.Ctx, rule, "session set", in, "known", "browser", "email", "verified")
				a := c.Args[len(c.Args)-6:]
				nonceOK := hasEv(&c.Ctx, "nonce") || !mentionsJSONNonce(p, a)
				r.Assert(nonceOK, rule, "session set: nonce", in.Pos(), "a session is set although the ID token's nonce was not compared with this login's state (%s)", c.Trace(in))
				dom := hasEv(&c.Ctx, "hd-unset") || hasEv(&c.Ctx, "hd-equal") || hasEv(&c.Ctx, "hd-any") && hasEv(&c.Ctx, "hd-present")
				r.Assert(dom, rule, "session set: hosted domain", in.Pos(), "a session is set although the user's hosted domain does not satisfy the configured one (%s)", c.Trace(in))
				r.Assert(on.okFor(&c.Ctx, isNonce), rule, "session set: single use", in.Pos(), "a session is set although the login state was not retired when it was read (%s)", c.Trace(in))
				r.Assert(hasEv(&c.Ctx, "exchanged"), rule, "session set: exchanged", in.Pos(), "a session is set without a code exchange (%s)", c.Trace(in))
				r.Assert(p.isJSON("sub")(a[1]), rule, "session subject", in.Pos(), "the session's user id is not the sub claim: %v", a[1])
				r.Assert(p.isJSON("email")(a[2]), rule, "session email", in.Pos(), "the session's email is not the email claim: %v", a[2])
				r.Assert(isNonce(a[3]), rule, "session id", in.Pos(), "the session id is not this login's nonce: %v", a[3])
				r.Assert(isField(hostF)(a[4]) && thisState(a[4]), rule, "session host", in.Pos(), "the session's host is not that of this login: %v", a[4])
				c.St.Event("session", c.Res, nil, nil)
			case c.Name == "net/http.Redirect":
				in := c.In.(ssa.Instruction)
				r.Assert(c.St.OKNil("session") != nil, rule, "redirect after session", in.Pos(), "the user is redirected although no session was set")
				r.Assert(isField(orig)(c.Args[2]) && thisState(c.Args[2]), rule, "redirect target", in.Pos(), "the user is not sent back to the URL of this login: %v", c.Args[2])
			case oneOf(c.Name, "net/http.NewRequest", "net/http.NewRequestWithContext", "net/http.PostForm", "(*net/http.Client).PostForm", "net/http.Post", "(*net/http.Client).Post"):
				ep := false
				for _, x := range c.Args {
					ep = ep || mentionsField(x, tokEP)
				}
				if !ep {
					return
				}
				in := c.In.(ssa.Instruction)
				gs.need(r, &c.Ctx, rule, "code exchanged", in, "known", "browser")
				del := false
				for _, ev := range c.St.Has("once") {
					del = del || stateKey(ev.Args[0])
				}
				r.Assert(del, rule, "code exchanged: single use", in.Pos(), "the code is exchanged although the login state was not retired in the critical section that read it (%s)", c.Trace(in))
				r.Assert(hasEv(&c.Ctx, "once-deleted") || hasEv(&c.Ctx, "unseen"), rule, "code exchanged: unused", in.Pos(), "the code is exchanged although the login state may have been used before (%s)", c.Trace(in))
				r.Assert((hasEv(&c.Ctx, "unexpired") || sw.direct(&c.Ctx)), rule, "code exchanged: unexpired", in.Pos(), "the code is exchanged for a login that may have started more than 5 minutes ago (%s)", c.Trace(in))
				r.Assert(hasEv(&c.Ctx, "pkce"), rule, "code exchanged: PKCE", in.Pos(), "the code is exchanged without the PKCE verifier of this login (%s)", c.Trace(in))
				c.St.Event("exchanged", nil, nil, nil)
			}
		},
	}, fn, nil)
	r.Min(rule, 16)
}

// mentionsJSONNonce: the ID token's nonce takes part in the session.
func mentionsJSONNonce(p *Prog, ts []*Term) bool {
	for _, t := range ts {
		if t.mentions(p.isJSON("nonce")) {
			return true
		}
	}
	return false
}

// oidcRequest: what a login request records and sends.
func oidcRequest(r *Report, p *Prog) {
	const rule = "oidc-request"
	r.Rule(rule, "a login request records the state under fresh randomness, with the return URL and its host, gives the browser the same value as nonce cookie, and sends the provider the state, the nonce and the S256 challenge of the recorded verifier")
	states := r.mustField(rule, oidcPkg, "ProviderClient", "states")
	orig := r.mustField(rule, oidcPkg, "oauthState", "OriginalURL")
	hostF := r.mustField(rule, oidcPkg, "oauthState", "Host")
	verifier := r.mustField(rule, oidcPkg, "oauthState", "CodeVerifier")
	created := r.mustField(rule, oidcPkg, "oauthState", "Created")
	mu := r.mustField(rule, oidcPkg, "ProviderClient", "mu")
	if states == nil || orig == nil || hostF == nil || verifier == nil || created == nil || mu == nil {
		return
	}
	fn := r.mustFunc(rule, oidcPkg, "(*ProviderClient).RequestLogin", func(f *ssa.Function) bool {
		return hasDeepCalls(p, f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && strings.HasSuffix(calleeName(ci), ".SetNonce")
		}) && inPkg(f, oidcPkg)
	})
	if fn == nil {
		return
	}
	var ou *ssa.Parameter
	for _, q := range fn.Params {
		if q.Type().String() == "string" {
			ou = q
		}
	}
	on := &once{L: "once", Mu: mu, IsMap: isField(states)}
	rnd := func(t *Term) bool { return t.mentions(isRandomCell) }
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		KeepPath:  func(t *Term) bool { return mentionsField(t, verifier) },
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok || !c.V(m.Map).mentions(isField(states)) {
				return
			}
			k, v := c.V(m.Key), c.V(m.Value)
			ld := func(fv *types.Var) *Term {
				return c.St.Load(c.W.T.field(c.W.T.path(v), fv), fv.Type())
			}
			r.Assert(hasEv(c, "once-cs"), rule, "state stored under lock", posOf(in), "the login state is stored without holding the lock")
			r.Assert(rnd(k) || hasEv(c, "rand"), rule, "state is random", posOf(in), "the login state is not random: %v", k)
			r.Assert(ld(orig).op == "param" && ld(orig).v == ou, rule, "return URL recorded", posOf(in), "the recorded return URL is not the requested one: %v", ld(orig))
			r.Assert(ld(hostF).mentions(func(t *Term) bool { return t.op == "field" && t.s == "Host" }) && ld(hostF).mentions(isParam(ou)), rule, "host recorded", posOf(in), "the recorded host is not that of the return URL: %v", ld(hostF))
			r.Assert(isCallTo("time.Now")(ld(created)) || ld(created).mentions(isCallTo("time.Now")), rule, "creation time recorded", posOf(in), "the state's creation time is not the current time: %v", ld(created))
			r.Assert(ld(verifier).op != "zero" && !isConstTerm(ld(verifier)) && ld(verifier) != k, rule, "verifier recorded", posOf(in), "the state has no PKCE verifier of its own: %v", ld(verifier))
			c.St.Event("stored", nil, []*Term{k, ld(verifier)}, in)
		},
		OnCall: func(c *CallCtx) {
			on.call(c)
			in := c.In.(ssa.Instruction)
			switch {
			case oneOf(c.Name, "io.ReadFull", "crypto/rand.Read", "crypto/rand.Text"):
				c.St.Event("rand", c.Res, nil, nil)
			case strings.HasSuffix(c.Name, ".SetNonce"):
				ok := false
				for _, ev := range c.St.Has("stored") {
					ok = ok || ev.Args[0] == c.Args[len(c.Args)-1]
				}
				if !ok { // set before the state is stored
					c.St.Event("cookie", nil, []*Term{c.Args[len(c.Args)-1]}, nil)
					return
				}
				c.St.Event("bound", nil, nil, nil)
			case c.Name == "net/http.Redirect":
				st := c.St.Has("stored")
				if !r.Assert(len(st) > 0, rule, "state stored", in.Pos(), "the user is sent to the provider without a recorded state") {
					return
				}
				k, ver := st[0].Args[0], st[0].Args[1]
				bound := hasEv(&c.Ctx, "bound")
				for _, ev := range c.St.Has("cookie") {
					bound = bound || ev.Args[0] == k
				}
				r.Assert(bound, rule, "nonce cookie", in.Pos(), "the nonce cookie is not the recorded state")
				t := c.Args[2]
				sent := t.mentions(func(x *Term) bool { return x == k })
				if lk, ok := st[0].In.(*ssa.MapUpdate); ok && !sent {
					ko := p.Origins(lk.Key, FlowOpts{})
					for ci := range p.Origins(c.In.Common().Args[2], FlowOpts{NoCallers: true}).CallIns {
						sent = sent || ko.CallIns[ci]
					}
				}
				r.Assert(sent, rule, "state sent", in.Pos(), "the request does not carry the recorded state")
				o := p.Origins(c.In.Common().Args[2], FlowOpts{NoCallers: true, Base: true})
				challenge := false
				for ci := range o.CallIns {
					if strings.HasPrefix(calleeName(ci), "crypto/sha256.") || strings.HasPrefix(calleeName(ci), "(hash.Hash)") {
						challenge = true
					}
				}
				r.Assert(challenge || t.mentions(isCallTo("crypto/sha256.Sum256")), rule, "PKCE challenge sent", in.Pos(), "the request does not carry the S256 challenge of the recorded verifier")
				s256, resp := false, false
				for s := range o.Strs {
					s256 = s256 || strings.Contains(s, "S256")
					resp = resp || strings.Contains(s, "nonce")
				}
				r.Assert(s256, rule, "PKCE method sent", in.Pos(), "the challenge method is not S256")
				r.Assert(resp, rule, "nonce sent", in.Pos(), "the request does not ask for a nonce in the ID token")
				r.Assert(!t.mentions(func(x *Term) bool { return x == ver && !x.mentions(isCallTo("crypto/sha256.Sum256")) }) || mentionsOnlyUnder(t, ver, "crypto/sha256.Sum256"), rule, "verifier secret", in.Pos(), "the request discloses the PKCE verifier")
			}
		},
	}, fn, nil)
	r.Min(rule, 10)
}

// mentionsOnlyUnder: every occurrence of x in t is inside a call of name.
func mentionsOnlyUnder(t, x *Term, name string) bool {
	if t == nil {
		return true
	}
	if t == x {
		return false
	}
	if isCallTo(name)(t) {
		return true
	}
	for _, a := range t.args {
		if !mentionsOnlyUnder(a, x, name) {
			return false
		}
	}
	return true
}

func isRandomCell(t *Term) bool {
	return (t.op == "call" || t.op == "csym") && oneOf(t.s, "io.ReadFull", "crypto/rand.Read", "crypto/rand.Text")
}

// nonceCookie: the cookie read back is the one that was set.
func nonceCookie(r *Report, p *Prog) {
	const rule = "nonce-cookie"
	r.Rule(rule, "the browser's nonce is read from the cookie under which it was set, or is empty")
	cm := "proxy/internal/cookiemanager"
	set := r.mustFunc(rule, cm, "(*CookieManager).SetNonce", func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool { return isCall(in, "net/http.SetCookie") })
	})
	get := r.mustFunc(rule, cm, "(*CookieManager).Nonce", func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool { return isCall(in, "(*net/http.Request).Cookie") })
	})
	if set == nil || get == nil {
		return
	}
	nameF, valF := p.extField("net/http", "Cookie", "Name"), p.extField("net/http", "Cookie", "Value")
	names := map[string]bool{}
	okVal, sets := true, 0
	r.Walk(&Rule{
		Name: rule, InlineAll: true,
		OnCall: func(c *CallCtx) {
			if c.Name != "net/http.SetCookie" {
				return
			}
			sets++
			ck := c.W.T.path(c.Args[1])
			if n, ok := constString(c.St.Load(c.W.T.field(ck, nameF), nameF.Type())); ok {
				names[n] = true
			}
			okVal = okVal && isParam(set.Params[len(set.Params)-1])(c.St.Load(c.W.T.field(ck, valF), valF.Type()))
		},
	}, set, nil)
	r.Assert(okVal && sets > 0 && len(names) == 1, rule, "value set", set.Pos(), "the nonce cookie does not carry the nonce (cookies %v)", names)
	isGet := func(t *Term) bool { return t.op == "csym" && t.s == "(*net/http.Request).Cookie" }
	r.Walk(&Rule{
		Name: rule, InlineAll: true,
		OnCall: func(c *CallCtx) {
			if c.Name != "(*net/http.Request).Cookie" {
				return
			}
			n, ok := constString(c.Args[1])
			r.Assert(ok && names[n], rule, "cookie name", c.In.Pos(), "the nonce is read from cookie %v, which SetNonce does not set", c.Args[1])
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != get {
				return
			}
			ok := isEmptyStr(rets[0]) || isField(valF)(rets[0]) && rets[0].mentions(isGet)
			r.Assert(ok, rule, "value read", in.Pos(), "the nonce returned is not the value of the nonce cookie: %v", rets[0])
		},
	}, get, nil)
	r.Min(rule, 3)
}

func runC12(r *Report, p *Prog) {
	srvAuthorize(r, p)
	srvToken(r, p)
	srvUserInfo(r, p)
}

type srvAnchors struct {
	codes, tokens, mu, clients, id, secret, ruri *types.Var
	cClient, cToken, cAccess, cCreated, cScope   *types.Var
	aClaims, aCreated, aClient, ctxClaims        *types.Var
}

func srvResolve(r *Report, p *Prog, rule string) *srvAnchors {
	a := &srvAnchors{}
	for _, x := range []struct {
		dst      **types.Var
		typ, fld string
	}{
		{&a.codes, "ProviderServer", "codes"}, {&a.tokens, "ProviderServer", "accessTokens"}, {&a.mu, "ProviderServer", "mu"},
		{&a.clients, "ServerOptions", "Clients"}, {&a.id, "Client", "ID"}, {&a.secret, "Client", "Secret"}, {&a.ruri, "Client", "RedirectURI"},
		{&a.cClient, "codeData", "clientID"}, {&a.cToken, "codeData", "token"}, {&a.cAccess, "codeData", "accessToken"}, {&a.cCreated, "codeData", "created"}, {&a.cScope, "codeData", "scope"},
		{&a.aClaims, "accessData", "claims"}, {&a.aCreated, "accessData", "created"}, {&a.aClient, "accessData", "clientID"}, {&a.ctxClaims, "ServerOptions", "ClaimsFromCtx"},
	} {
		*x.dst = r.mustField(rule, oidcPkg, x.typ, x.fld)
		if *x.dst == nil {
			return nil
		}
	}
	return a
}

// clientGates: one configured client has all the given properties.
func (a *srvAnchors) clientGates(secret bool) *elemGates {
	isClients := func(t *Term) bool { return t.op == "field" && t.fv == a.clients }
	inURIs := &member{L: "c-uri-m", IsList: isField(a.ruri), IsElem: formVal("redirect_uri")}
	_ = inURIs
	gs := gates{
		eqG("c-id", "a configured client has the given ID", isField(a.id), formVal("client_id"), true),
		boolG("c-uri", "the redirect URI is one of the client's", func(t *Term) bool {
			return t.op == "call" && strings.HasPrefix(t.s, "slices.Contains") && len(t.args) == 2 && isField(a.ruri)(t.args[0]) && formVal("redirect_uri")(t.args[1])
		}, true),
		eqG("c-uri", "", func(t *Term) bool { return t.op == "index" && t.mentions(isField(a.ruri)) }, formVal("redirect_uri"), true),
		{"c-uri", "", func(cond *Term, val bool) bool {
			if cond.op != "bin" || cond.s != "<" || val || !isZeroConst(cond.args[1]) {
				return false
			}
			t := cond.args[0]
			return t.op == "call" && strings.HasPrefix(t.s, "slices.Index") && len(t.args) == 2 && isField(a.ruri)(t.args[0]) && formVal("redirect_uri")(t.args[1])
		}},
	}
	if secret {
		gs = append(gs, eqG("c-secret", "the client's secret was given", isField(a.secret), formVal("client_secret"), true))
	}
	return &elemGates{L: "client", IsList: isClients, gs: gs}
}

// responseSink: the call sends data to the client other than an error.
func responseSink(name string) bool {
	return oneOf(name, "(net/http.ResponseWriter).Write", "(*encoding/json.Encoder).Encode", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString", "io.Copy", "(io.Writer).Write")
}

func srvAuthorize(r *Report, p *Prog) {
	const rule = "oidc-authorize"
	r.Rule(rule, "a code is recorded only for a logged in user and a configured client with exactly the given ID and redirect URI, bound to that client and to the user's own claims, and is sent only to that redirect URI")
	a := srvResolve(r, p, rule)
	fn := r.mustFunc(rule, oidcPkg, "(*ProviderServer).ServeAuthorization", func(f *ssa.Function) bool {
		return isHandlerSig(f) && a != nil && hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, "net/http.Redirect") })
	})
	if fn == nil || a == nil {
		return
	}
	cl := a.clientGates(false)
	ucs := map[*Term]bool{} // results of the claims function
	userClaims := func(t *Term) bool { return t.mentions(func(x *Term) bool { return ucs[x] }) }
	gs := gates{
		nilG("user", "the user is logged in", userClaims, false),
		{"user", "", func(cond *Term, val bool) bool {
			return cond.op == "bin" && cond.s == "==" && !val && isLen(cond.args[0]) && userClaims(cond.args[0]) && isZeroConst(cond.args[1])
		}},
		eqG("response type", "the response type is code", formVal("response_type"), isStr("code"), true),
	}
	on := &once{L: "once", Mu: a.mu, IsMap: isField(a.codes)}
	wantClaim := map[string]tp{
		"aud": formVal("client_id"),
		"sub": func(t *Term) bool {
			return strings.Contains(t.String(), "GetSubject") && userClaims(t) || isClaim("sub")(t) && userClaims(t)
		},
		"email": func(t *Term) bool { return t.mentions(isClaim("email")) && userClaims(t) },
		"iss": func(t *Term) bool {
			return t.mentions(func(x *Term) bool { return x.op == "field" && x.s == "Issuer" })
		},
	}
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		NoInline:  func(f *ssa.Function) bool { return f.Name() == "applyRewriteRules" || inPkg(f, "/tokenmanager") },
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			gs.branch(c, cond, val)
			cl.branch(c, cond, val)
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			if k, ok := ssaConstString(m.Key); ok && wantClaim[k] != nil && strings.HasSuffix(m.Map.Type().String(), "MapClaims") {
				r.Assert(wantClaim[k](unwrap(c.V(m.Value))), rule, "claim "+k, posOf(in), "the ID token's %s claim is %v", k, c.V(m.Value))
				return
			}
			mt := c.V(m.Map)
			isCode, isTok := mt.mentions(isField(a.codes)), mt.mentions(isField(a.tokens))
			if !isCode && !isTok {
				return
			}
			v := c.V(m.Value)
			ld := func(fv *types.Var) *Term { return c.St.Load(c.W.T.field(c.W.T.path(v), fv), fv.Type()) }
			what := "code"
			cid, cre := a.cClient, a.cCreated
			if isTok {
				what, cid, cre = "access token", a.aClient, a.aCreated
			}
			gs.need(r, c, rule, what+" issued", in)
			r.Assert(hasEv(c, "client"), rule, what+" issued: registered client", posOf(in), "a %s is issued although no configured client was found with the given ID and redirect URI (%s)", what, c.Trace(in))
			r.Assert(formVal("client_id")(ld(cid)), rule, what+" bound to client", posOf(in), "the %s is not bound to the requesting client: %v", what, ld(cid))
			r.Assert(ld(cre).mentions(isCallTo("time.Now")), rule, what+" dated", posOf(in), "the %s's creation time is not the current time: %v", what, ld(cre))
			r.Assert(hasEv(c, "once-cs"), rule, what+" stored under lock", posOf(in), "a %s is stored without holding the lock", what)
			r.Assert(!isConstTerm(c.V(m.Key)), rule, what+" key", posOf(in), "the %s is constant", what)
			if isCode {
				c.St.Event("code", nil, []*Term{c.V(m.Key)}, in)
				r.Assert(ld(a.cToken).mentions(isSuffixCall(".CreateToken")), rule, "code's ID token", posOf(in), "the code's ID token was not created in this request: %v", ld(a.cToken))
			}
		},
		OnCall: func(c *CallCtx) {
			on.call(c)
			in := c.In.(ssa.Instruction)
			if c.CT != nil && mentionsField(c.CT, a.ctxClaims) {
				ucs[c.Res] = true
			}
			if c.Name == "net/http.Redirect" {
				gs.need(r, &c.Ctx, rule, "redirect", in)
				r.Assert(hasEv(&c.Ctx, "client"), rule, "redirect: registered URI", in.Pos(), "the user is redirected although the redirect URI is not one of a configured client's (%s)", c.Trace(in))
				o := p.Origins(c.In.Common().Args[2], FlowOpts{NoCallers: true, Base: true})
				r.Assert(c.Args[2].mentions(formVal("redirect_uri")) || o.Strs["redirect_uri"], rule, "redirect: to the client", in.Pos(), "the code is not sent to the client's redirect URI: %v", c.Args[2])
			}
		},
	}, fn, nil)
	r.Min(rule, 14)
}

func srvToken(r *Report, p *Prog) {
	const rule = "oidc-token"
	r.Rule(rule, "a code is redeemed only by POST, by the configured client with its secret and a registered redirect URI, for a code that was issued to that client, is younger than two minutes, and is deleted in the critical section that reads it")
	a := srvResolve(r, p, rule)
	if a == nil {
		return
	}
	fn := r.mustFunc(rule, oidcPkg, "(*ProviderServer).ServeToken", func(f *ssa.Function) bool {
		return isHandlerSig(f) && has(f, func(in ssa.Instruction) bool { return touchesField(in, a.secret) })
	})
	if fn == nil {
		return
	}
	cl := a.clientGates(true)
	isCodes := isField(a.codes)
	isThis := func(t *Term) bool {
		return t.mentions(func(x *Term) bool {
			return x.op == "lookupv" && x.args[0].mentions(isCodes) && formVal("code")(x.args[1])
		})
	}
	gs := gates{
		httpMethodIs(p, "POST"),
		eqG("grant type", "the grant type is authorization_code", formVal("grant_type"), isStr("authorization_code"), true),
		foundG("known code", "the code is known", isCodes, formVal("code"), true),
		eqG("own code", "the code was issued to this client", func(t *Term) bool { return isField(a.cClient)(t) && isThis(t) }, formVal("client_id"), true),
	}
	on := &once{L: "once", Mu: a.mu, IsMap: isCodes}
	sw := &sweeper{L: "sweep", IsMap: isCodes, Created: isField(a.cCreated), Max: 2 * 60 * 1e9}
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		NoInline:  func(f *ssa.Function) bool { return inPkg(f, "/tokenmanager") },
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			gs.branch(c, cond, val)
			cl.branch(c, cond, val)
			sw.branch(c, cond, val)
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && isCodes(c.V(lk.X)) {
				r.Assert(hasEv(c, "once-cs"), rule, "lookup under lock", posOf(in), "a code is read without holding the lock")
				if sw.ok(c) {
					c.St.Event("unexpired", nil, nil, nil)
				}
			}
			on.instr(c, in)
		},
		OnCall: func(c *CallCtx) {
			on.call(c)
			sw.call(c)
			if !responseSink(c.Name) {
				return
			}
			in := c.In.(ssa.Instruction)
			gs.need(r, &c.Ctx, rule, "tokens sent", in)
			r.Assert(hasEv(&c.Ctx, "client"), rule, "tokens sent: client authenticated", in.Pos(), "tokens are sent although no configured client was found with the given ID, secret and redirect URI (%s)", c.Trace(in))
			r.Assert(on.okFor(&c.Ctx, formVal("code")), rule, "tokens sent: single use", in.Pos(), "tokens are sent although the code was not deleted in the critical section that read it (%s)", c.Trace(in))
			r.Assert(hasEv(&c.Ctx, "unexpired") || sw.ok(&c.Ctx) && len(c.St.Has("sweep-direct")) > 0, rule, "tokens sent: unexpired", in.Pos(), "tokens are sent for a code that may be older than two minutes (%s)", c.Trace(in))
		},
	}, fn, nil)
	// every token sent comes from the code's own record
	for _, fv := range []*types.Var{a.cToken, a.cAccess} {
		for _, f := range p.Funcs {
			if !inPkg(f, oidcPkg) {
				continue
			}
			instrs(f, func(in ssa.Instruction) {
				u, ok := in.(*ssa.UnOp)
				if !ok || !touchesFieldAddr(u.X, fv) {
					return
				}
				o := p.Origins(u.X, FlowOpts{NoCallers: false, Base: true})
				r.Assert(o.HasField(a.codes), rule, fv.Name()+" read", posOf(in), "%s is read from a record that was not looked up among the codes", fv.Name())
			})
		}
	}
	r.Min(rule, 7)
}

// unwrap removes conversions and interface wrappers.
func unwrap(t *Term) *Term {
	for (t.op == "iface" || t.op == "conv") && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func touchesFieldAddr(v ssa.Value, fv *types.Var) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && fieldVar(fa.X.Type(), fa.Field) == fv
}

func srvUserInfo(r *Report, p *Prog) {
	const rule = "oidc-userinfo"
	r.Rule(rule, "user info is sent only for a bearer access token that is known, younger than two minutes, and deleted in the critical section that reads it; it consists of the claims recorded under that token")
	a := srvResolve(r, p, rule)
	if a == nil {
		return
	}
	fn := r.mustFunc(rule, oidcPkg, "(*ProviderServer).ServeUserInfo", func(f *ssa.Function) bool {
		return isHandlerSig(f) && has(f, func(in ssa.Instruction) bool { return touchesField(in, a.aClaims) })
	})
	if fn == nil {
		return
	}
	isToks := isField(a.tokens)
	fromHeader := func(t *Term) bool {
		return t.mentions(func(x *Term) bool {
			return isCallTo("(net/http.Header).Get")(x) && strings.EqualFold(canonHeader(x.args[len(x.args)-1]), "Authorization")
		})
	}
	gs := gates{foundG("known token", "the access token is known", isToks, fromHeader, true)}
	on := &once{L: "once", Mu: a.mu, IsMap: isToks}
	sw := &sweeper{L: "sweep", IsMap: isToks, Created: isField(a.aCreated), Max: 2 * 60 * 1e9}
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			gs.branch(c, cond, val)
			sw.branch(c, cond, val)
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && isToks(c.V(lk.X)) {
				r.Assert(hasEv(c, "once-cs"), rule, "lookup under lock", posOf(in), "an access token is read without holding the lock")
				if sw.ok(c) {
					c.St.Event("unexpired", nil, nil, nil)
				}
			}
			on.instr(c, in)
			if u, ok := in.(*ssa.UnOp); ok && touchesFieldAddr(u.X, a.aClaims) {
				t := c.V(u.X)
				r.Assert(t.mentions(func(x *Term) bool { return x.op == "lookupv" && isToks(x.args[0]) && fromHeader(x.args[1]) }), rule, "own claims", posOf(in), "the claims are not those recorded under the given token: %v", t)
				c.St.Event("claims", nil, nil, nil)
			}
		},
		OnCall: func(c *CallCtx) {
			on.call(c)
			sw.call(c)
			if !responseSink(c.Name) {
				return
			}
			in := c.In.(ssa.Instruction)
			gs.need(r, &c.Ctx, rule, "claims sent", in)
			r.Assert(on.okFor(&c.Ctx, fromHeader), rule, "claims sent: single use", in.Pos(), "claims are sent although the access token was not deleted in the critical section that read it (%s)", c.Trace(in))
			r.Assert(hasEv(&c.Ctx, "unexpired") || len(c.St.Has("sweep-direct")) > 0, rule, "claims sent: unexpired", in.Pos(), "claims are sent for an access token that may be older than two minutes (%s)", c.Trace(in))
		},
	}, fn, nil)
	r.Min(rule, 4)
}
