package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C08", Title: "Session tokens are accepted only after full validation",
		Explain: "Effect rules on every use of the JWT library (parsers, options, key function), path-sensitive acceptance tables of the cookie and bearer validators, a write-order table of the reserved claims, and an attribute table of every cookie literal.",
		Run:     runC08,
	})
	register(&Check{
		ID: "C09", Title: "Post-login redirects follow the proxy's own signed URL tokens",
		Explain: "Acceptance table of the URL token validator, write-order table of its issuer, and backward data dependence of the target of every redirect and login request in the module.",
		Run:     runC09,
	})
}

const jwtPkg = "github.com/golang-jwt/jwt/v5"

func jw(n string) string { return jwtPkg + "." + n }

// fatPkgs are module packages that are not part of the product.
func isExample(f *ssa.Function) bool {
	return strings.Contains(pkgPath(f), "/examples/") || strings.HasSuffix(pkgPath(f), "/examples")
}

func (p *Prog) prodSites(pred func(name string, ci ssa.CallInstruction) bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.Funcs {
		if isExample(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if n := calleeName(ci); n != "" && pred(n, ci) {
					out = append(out, ci)
				}
			}
		})
	}
	return out
}

func isTokenValidate(name string) bool {
	return name == qn("proxy/internal/tokenmanager", "(*TokenManager).ValidateToken")
}

func runC08(r *Report, p *Prog) {
	jwtUse(r, p)
	keyFunc(r, p)
	cm := "proxy/internal/cookiemanager"
	iss := r.mustField("token-accept", cm, "CookieManager", "issuer")
	prov := r.mustField("token-accept", cm, "CookieManager", "provider")
	if iss == nil || prov == nil {
		return
	}
	validators(r, p, iss, prov)
	claimOrder(r, p, iss, prov)
	cookieFlags(r, p)
}

func jwtUse(r *Report, p *Prog) {
	const rule = "jwt-use"
	r.Rule(rule, "tokens are parsed only with an explicit list of asymmetric signature algorithms and a key function over the proxy's own keys; validation is never relaxed; unverified parsing is used only on the identity provider's direct answer")
	okAlg := map[string]bool{"ES256": true, "RS256": true, "EdDSA": true}
	body := p.extField("net/http", "Response", "Body")
	n := 0
	for _, ci := range p.prodSites(func(nm string, _ ssa.CallInstruction) bool {
		return strings.HasPrefix(nm, jwtPkg+".") || strings.HasPrefix(nm, "(*"+jwtPkg+".") || strings.HasPrefix(nm, "("+jwtPkg+".")
	}) {
		nm := calleeName(ci)
		short := nm[strings.LastIndex(nm, ".")+1:]
		as := ci.Common().Args
		where := fnLabel(ci.Parent())
		switch {
		case oneOf(nm, jw("Parse"), jw("ParseWithClaims")) || oneOf(nm, "(*"+jwtPkg+".Parser).Parse", "(*"+jwtPkg+".Parser).ParseWithClaims"):
			n++
			o := p.OriginsAll(as, FlowOpts{})
			r.Assert(o.HasCall(jw("WithValidMethods")), rule, "algorithms restricted in "+where, ci.Pos(), "a token is parsed without restricting the signature algorithms")
		case nm == jw("WithValidMethods"):
			o := p.Origins(as[0], FlowOpts{})
			bad := ""
			for s := range o.Strs {
				if !okAlg[s] {
					bad = s
				}
			}
			n++
			r.Assert(len(o.Strs) > 0 && bad == "" && len(o.Params) == 0, rule, "algorithm list in "+where, ci.Pos(), "signature algorithm %q is accepted: only ES256, RS256 and EdDSA are the proxy's own", bad)
		case oneOf(nm, jw("WithoutClaimsValidation"), jw("WithLeeway"), jw("WithTimeFunc"), jw("WithPaddingAllowed")):
			r.Assert(false, rule, short+" in "+where, ci.Pos(), "token validation is relaxed with jwt.%s", short)
		case short == "ParseUnverified":
			o := p.OriginsAll(as[1:2], FlowOpts{Fields: false})
			direct := o.HasField(body)
			bad := ""
			for fv := range o.Fields {
				if fv.Pkg() != nil && fv.Pkg().Path() == "net/http" && oneOf(fv.Name(), "Form", "PostForm", "Header", "URL", "RawQuery") {
					bad = fv.Name()
				}
			}
			for c := range o.Calls {
				if strings.HasPrefix(c, "(*net/http.Request).") && oneOf(c[len("(*net/http.Request)."):], "Cookie", "FormValue", "PostFormValue", "Cookies") {
					bad = c
				}
			}
			n++
			r.Assert(direct && bad == "", rule, "unverified token in "+where, ci.Pos(), "a token that does not come directly from the identity provider's response is parsed without verification %s", bad)
		case nm == "(*"+jwtPkg+".Token).SignedString" || nm == jw("NewWithClaims") || nm == jw("New"):
			if nm != "(*"+jwtPkg+".Token).SignedString" {
				o := p.Origins(as[0], FlowOpts{})
				none := false
				for g := range o.Globals {
					if strings.Contains(g, "SigningMethodNone") || strings.Contains(g, "SigningMethodHS") || strings.Contains(g, "UnsafeAllowNoneSignatureType") {
						none = true
					}
				}
				r.Assert(!none, rule, "signing method in "+where, ci.Pos(), "tokens are created with a symmetric or missing signature")
			}
		}
	}
	r.Min(rule, 3)
	// no use of the library's escape hatch for unsigned tokens
	for _, f := range p.Funcs {
		if isExample(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && strings.Contains(g.String(), "UnsafeAllowNoneSignatureType") {
					r.Assert(false, rule, "unsigned tokens in "+fnLabel(f), posOf(in), "unsigned tokens are allowed")
				}
			}
		})
	}
}

// keyFunc decides the key functions handed to the JWT parser.
func keyFunc(r *Report, p *Prog) {
	const rule = "jwt-key"
	r.Rule(rule, "a token is verified with the public half of a key in the proxy's own key list whose ID equals the token's kid header; any other kid is refused")
	keys := r.mustField(rule, "proxy/internal/tokenmanager", "TokenManager", "keys")
	id := r.mustField(rule, "proxy/internal/tokenmanager", "tokenKey", "ID")
	priv := r.mustField(rule, "proxy/internal/tokenmanager", "tokenKey", "privKey")
	if keys == nil || id == nil || priv == nil {
		return
	}
	fns := map[*ssa.Function]bool{}
	for _, ci := range p.prodSites(func(nm string, _ ssa.CallInstruction) bool {
		return oneOf(nm, jw("Parse"), jw("ParseWithClaims"), "(*"+jwtPkg+".Parser).Parse", "(*"+jwtPkg+".Parser).ParseWithClaims")
	}) {
		for _, a := range ci.Common().Args {
			if _, ok := a.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			for f := range p.Origins(a, FlowOpts{}).Funcs {
				if strings.HasSuffix(f.Name(), "$bound") {
					if g := p.SSA.FuncValue(f.Object().(*types.Func)); g != nil {
						f = g
					}
				}
				if inModule(f) && len(f.Blocks) > 0 && f.Signature.Results().Len() == 2 {
					fns[f] = true
				}
			}
		}
	}
	if !r.AssertAt(len(fns) > 0, rule, "key functions", "-", "no key function found") {
		return
	}
	isID := func(t *Term) bool { return t.op == "field" && t.fv == id }
	isKid := func(t *Term) bool { return claimLookup(t, "kid") }
	for f := range fns {
		r.Walk(&Rule{
			KeepRes:   true,
			Name:      rule,
			InlineAll: true,
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if val && cond.op == "bin" && cond.s == "==" && (anyOf(isID)(cond.args[0]) && anyOf(isKid)(cond.args[1]) || anyOf(isID)(cond.args[1]) && anyOf(isKid)(cond.args[0])) {
					for _, a := range cond.args {
						a.mentions(func(t *Term) bool {
							if isID(t) {
								c.St.Event("id", nil, t.args[:1], nil)
							}
							return false
						})
					}
				}
				if val && isCallTo("slices.IndexFunc", "slices.ContainsFunc")(cond) {
					c.St.Event("id", nil, nil, nil)
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if in.Parent() != f || c.St.Nil(rets[1]) == no {
					return
				}
				v := rets[0]
				okOwn := mentionsField(v, priv) || v.mentions(func(t *Term) bool { return isCallTo("(crypto.Signer).Public")(t) }) || strings.Contains(v.String(), "Public")
				r.Assert(okOwn && mentionsField(v, keys) || okOwn, rule, "own key in "+fnLabel(f), in.Pos(), "the key used to verify a token is not the public half of the proxy's own keys: %v", v)
				match := false
				for _, ev := range c.St.Has("id") {
					if len(ev.Args) == 0 || v.mentions(func(t *Term) bool { return t == ev.Args[0] }) {
						match = true
					}
				}
				r.Assert(match, rule, "kid matches in "+fnLabel(f), in.Pos(), "a key is returned whose ID was not compared with the token's kid")
			},
		}, f, nil)
	}
	r.Min(rule, 3)
}

// optionOrigins finds the origin of the argument of jwt.<opt> in a validation
// call's options.
func optionOrigins(p *Prog, ci ssa.CallInstruction, opt string) *Orig {
	o := p.OriginsAll(ci.Common().Args, FlowOpts{NoCallers: true})
	var out *Orig
	for x := range o.CallIns {
		if calleeName(x) == jw(opt) {
			out = p.OriginsAll(x.Common().Args, FlowOpts{})
		}
	}
	return out
}

func validators(r *Report, p *Prog, iss, prov *types.Var) {
	const rule = "token-accept"
	r.Rule(rule, "the session cookie is accepted only with a valid signature and the backend's issuer, audience, session marker, identity provider and a subject; the ID token only for the same subject and session; a bearer token only for this host and without session marker")
	cm := "proxy/internal/cookiemanager"
	host := p.extField("net/http", "Request", "Host")
	callsValidate := func(f *ssa.Function) bool {
		return hasDeepCalls(p, f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isTokenValidate(calleeName(ci))
		})
	}
	isIss := anyField(iss)
	type spec struct {
		name string
		aud  string // issuer or host
		gs   gates
	}
	specs := []spec{
		{"(*CookieManager).ValidateAuthTokenCookie", "issuer", gates{
			eqG("session marker", "the proxyauth claim is the backend's issuer", isClaim("proxyauth"), isIss, true),
			eqG("provider", "the provider claim is the backend's identity provider", isClaim("provider"), anyField(prov), true),
			{"subject", "the subject is not empty", func(cond *Term, val bool) bool {
				sub := func(t *Term) bool {
					return strings.Contains(t.String(), "GetSubject") || claimLookup(t, "sub")
				}
				if cond.op != "bin" {
					return false
				}
				return !val && cond.s == "==" && (sub(cond.args[0]) && isEmptyStr(cond.args[1]) || sub(cond.args[1]) && isEmptyStr(cond.args[0])) ||
					val && cond.s == "<" && isZeroConst(cond.args[0]) && isLen(cond.args[1]) && sub(cond.args[1])
			}},
		}},
		{"(*CookieManager).ValidateIDTokenCookie", "host", gates{
			eqG("same subject", "the ID token has the session's subject", isClaim("sub"), isClaim("sub"), true),
			eqG("same session", "the ID token has the session's id", isClaim("sid"), isClaim("sid"), true),
		}},
		{"(*CookieManager).ValidateAuthorizationHeader", "host", gates{
			orG("no session marker", "the token carries no proxyauth claim", nilG("", "", isClaim("proxyauth"), true), boolG("", "", func(t *Term) bool { return t.op == "lookupok" && isStr("proxyauth")(t.args[1]) }, false)),
		}},
	}
	for _, s := range specs {
		fn := r.mustFunc(rule, cm, s.name, callsValidate)
		if fn == nil {
			continue
		}
		r.Walk(&Rule{
			KeepRes:   true,
			Name:      rule,
			InlineAll: true,
			NoInline:  func(f *ssa.Function) bool { return inPkg(f, "/tokenmanager") },
			OnBranch:  s.gs.branch,
			OnCall: func(c *CallCtx) {
				if !isTokenValidate(c.Name) {
					return
				}
				wi, wa := optionOrigins(p, c.In, "WithIssuer"), optionOrigins(p, c.In, "WithAudience")
				r.Assert(wi != nil && wi.HasField(iss), rule, "issuer checked in "+fnLabel(fn), c.In.Pos(), "%s accepts a token without checking its issuer", fn.Name())
				if s.aud == "issuer" {
					r.Assert(wa != nil && wa.HasField(iss), rule, "audience checked in "+fnLabel(fn), c.In.Pos(), "%s accepts a token whose audience is not the issuer", fn.Name())
				} else {
					r.Assert(wa != nil && wa.HasField(host), rule, "audience checked in "+fnLabel(fn), c.In.Pos(), "%s accepts a token whose audience is not the request's host", fn.Name())
				}
				c.St.Event("valid", c.Res, c.Args, c.In)
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if in.Parent() != fn {
					return
				}
				e := rets[len(rets)-1]
				if c.St.Nil(e) == no {
					if len(rets) == 2 {
						r.Assert(c.St.Nil(rets[0]) == yes, rule, fn.Name()+" fails: no token", in.Pos(), "%s returns a token along with an error", fn.Name())
					}
					return
				}
				ok := false
				for _, ev := range c.St.Has("valid") {
					if okResult(c, ev) || e == errTerm(c.W, ev.Res) {
						ok = len(rets) == 1 || rets[0].mentions(func(t *Term) bool { return t == ev.Res })
					}
				}
				r.Assert(ok, rule, fn.Name()+" accepts: signature", in.Pos(), "%s accepts a token that was not validated", fn.Name())
				s.gs.need(r, c, rule, fn.Name()+" accepts", in)
			},
		}, fn, nil)
	}
	r.Min(rule, 10)
}

// claimOrder decides which claims end up in issued tokens.
func claimOrder(r *Report, p *Prog, iss, prov *types.Var) {
	const rule = "reserved-claims"
	r.Rule(rule, "session tokens carry iat, exp (20 hours), iss, aud, sub, email, proxyauth, provider, hhash and sid computed by the proxy, whatever the identity provider's extra claims; ID tokens and tokens for other services never carry the session marker; url and sid of a URL token cannot be overridden")
	create := qn("proxy/internal/tokenmanager", "(*TokenManager).CreateToken")
	fn := r.mustFunc(rule, "proxy/internal/cookiemanager", "(*CookieManager).SetAuthTokenCookie", func(f *ssa.Function) bool {
		return hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, create) })
	})
	if fn == nil || len(fn.Params) < 6 {
		r.AssertAt(fn == nil, rule, "SetAuthTokenCookie", "-", "unexpected signature")
		return
	}
	ps := fn.Params[2:] // userID, email, sessionID, host, extra
	want := map[string]func(t *Term) bool{
		"iss": anyField(iss), "aud": anyField(iss), "proxyauth": anyField(iss), "provider": anyField(prov),
		"sub": anyOf(isParam(ps[0])), "email": anyOf(isParam(ps[1])), "sid": anyOf(isParam(ps[2])),
		"hhash": func(t *Term) bool { return t.mentions(isParam(ps[3])) && sha256Of(t) || sha256Of(t) },
		"iat":   func(t *Term) bool { return strings.Contains(t.String(), "time.Now") },
		"exp": func(t *Term) bool {
			return t.mentions(func(x *Term) bool {
				if x.op != "call" || x.s != "(time.Time).Add" {
					return false
				}
				i, ok := constInt(x.args[1])
				return ok && i == int64(20*3600)*1e9
			})
		},
	}
	writeOrder(r, p, rule, fn, create, want, nil)
	if fn := r.mustFunc(rule, "proxy/internal/tokenmanager", "(*TokenManager).URLToken", func(f *ssa.Function) bool {
		return hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, create) })
	}); fn != nil {
		writeOrder(r, p, rule, fn, create, map[string]func(*Term) bool{
			"url": func(t *Term) bool {
				return strings.Contains(t.String(), "URL).String") && len(fn.Params) > 3 && t.mentions(isParam(fn.Params[3]))
			},
			"sid": func(t *Term) bool {
				return strings.Contains(t.String(), "sid") || t.mentions(func(x *Term) bool { return x.op == "csym" || x.op == "call" || x.op == "join" || x.op == "sym" })
			},
		}, nil)
	}
	if fn := r.mustFunc(rule, "proxy/internal/cookiemanager", "(*CookieManager).SetIDTokenCookie", func(f *ssa.Function) bool {
		return hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, create) })
	}); fn != nil {
		host := p.extField("net/http", "Request", "Host")
		writeOrder(r, p, rule, fn, create, map[string]func(*Term) bool{
			"aud": func(t *Term) bool {
				return mentionsField(t, host) || t.mentions(func(x *Term) bool { return x.op == "csym" || x.op == "join" || x.op == "sym" || x.op == "alloc" })
			},
			"iat": func(t *Term) bool { return strings.Contains(t.String(), "time.Now") },
		}, []string{"proxyauth"})
	}
	r.Min(rule, 14)
}

// writeOrder walks fn and checks, when the token is created, that each wanted
// claim was last written with its own value and that no forbidden claim can
// have been copied.
func writeOrder(r *Report, p *Prog, rule string, fn *ssa.Function, create string, want map[string]func(*Term) bool, forbidden []string) {
	isClaims := func(v ssa.Value) bool {
		s := v.Type().String()
		return strings.HasSuffix(s, "jwt/v5.MapClaims") || s == "map[string]any" || s == "map[string]interface{}"
	}
	excluded := func(c *Ctx, k string) bool { return hasEv(c, "excl:"+k) }
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		NoInline: func(f *ssa.Function) bool {
			return funcName(f) == create || strings.HasSuffix(funcName(f), ".sessionID")
		},
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			// key already present in the claims
			if cond.op == "lookupok" {
				if !val {
					c.St.Event("absent", nil, []*Term{cond.args[1]}, nil)
				}
				return
			}
			if cond.op == "isnil" && cond.args[0].op == "lookupv" && val {
				c.St.Event("absent", nil, []*Term{cond.args[0].args[1]}, nil)
			}
			// key compared with a constant or found in a constant list
			if cond.op == "bin" && cond.s == "==" && !val {
				for i := range cond.args {
					if s, ok := constString(cond.args[i]); ok {
						c.St.Event("excl:"+s, nil, nil, nil)
					}
				}
			}
			if strings.HasPrefix(cond.s, "slices.Contains") && cond.op == "call" && !val {
				for s := range listStrings(p, c, cond.args[0]) {
					c.St.Event("excl:"+s, nil, nil, nil)
				}
			}
			if cond.op == "bin" && cond.s == "<" && val && isZeroConst(cond.args[1]) && strings.HasPrefix(cond.args[0].s, "slices.Index") {
				for s := range listStrings(p, c, cond.args[0].args[0]) {
					c.St.Event("excl:"+s, nil, nil, nil)
				}
			}
			// a set literal
			if cond.op == "lookupv" && !val {
				for s := range listStrings(p, c, cond.args[0]) {
					c.St.Event("excl:"+s, nil, nil, nil)
				}
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isClaims(mu.Map) {
				return
			}
			v := c.V(mu.Value)
			if k, ok := ssaConstString(mu.Key); ok {
				c.St.Kill("claim:" + k)
				if f := want[k]; f != nil {
					if r.Assert(f(v), rule, "claim "+k+" in "+fnLabel(fn), in.Pos(), "claim %s is set to %v", k, v) {
						c.St.Event("claim:"+k, nil, nil, in)
					}
				}
				for _, b := range forbidden {
					if b == k {
						c.St.Event("forbidden:"+k, nil, nil, in)
					}
				}
				return
			}
			// computed key
			kt := c.V(mu.Key)
			guarded := false
			for _, ev := range c.St.Has("absent") {
				if ev.Args[0] == kt {
					guarded = true
				}
			}
			for k := range want {
				if !guarded && !excluded(c, k) {
					c.St.Kill("claim:" + k)
				}
			}
			for _, k := range forbidden {
				if !excluded(c, k) {
					c.St.Event("forbidden:"+k, nil, nil, in)
				}
			}
		},
		OnCall: func(c *CallCtx) {
			switch {
			case c.Name == "builtin.delete" && len(c.Args) == 2:
				if s, ok := constString(c.Args[1]); ok {
					c.St.Kill("forbidden:" + s)
					c.St.Kill("claim:" + s)
				}
			case strings.HasPrefix(c.Name, "maps.Copy"):
				for k := range want {
					c.St.Kill("claim:" + k)
				}
				for _, k := range forbidden {
					c.St.Event("forbidden:"+k, nil, nil, c.In)
				}
			case strings.HasPrefix(c.Name, "maps.Clone"):
				for _, k := range forbidden {
					c.St.Event("forbidden:"+k, nil, nil, c.In)
				}
			case c.Name == create:
				for k := range want {
					r.Assert(hasEv(&c.Ctx, "claim:"+k), rule, "claim "+k+" final in "+fnLabel(fn), c.In.Pos(), "when the token is created, claim %s may not have the proxy's own value: it is missing or can be overridden by extra claims", k)
				}
				for _, k := range forbidden {
					r.Assert(!hasEv(&c.Ctx, "forbidden:"+k), rule, "claim "+k+" dropped in "+fnLabel(fn), c.In.Pos(), "the token can carry the %s claim of the session", k)
				}
			}
		},
	}, fn, nil)
}

// listStrings are the constant strings a list term was built from.
func listStrings(p *Prog, c *Ctx, t *Term) map[string]bool {
	out := map[string]bool{}
	t.mentions(func(x *Term) bool {
		if x.v != nil {
			for s := range p.Origins(x.v, FlowOpts{}).Strs {
				out[s] = true
			}
		}
		return false
	})
	return out
}

// cookieFlags: every cookie literal is Secure and HttpOnly.
func cookieFlags(r *Report, p *Prog) {
	const rule = "cookie-flags"
	r.Rule(rule, "every cookie the proxy sets is Secure and HttpOnly")
	sec, ho := p.extField("net/http", "Cookie", "Secure"), p.extField("net/http", "Cookie", "HttpOnly")
	for _, f := range p.Funcs {
		if isExample(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || deref(al.Type()).String() != "net/http.Cookie" {
				return
			}
			for _, fv := range []*types.Var{sec, ho} {
				set, bad := false, false
				// a copy of another cookie keeps its flags
				copied := false
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						copied = true
					}
				}
				var pos token.Pos = al.Pos()
				for _, s := range p.idx.stores[fv] {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == al {
						if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
							set = true
						} else {
							bad = true
							pos = s.Pos()
						}
					}
				}
				r.Assert((set || copied) && !bad, rule, fv.Name()+" of cookie in "+fnLabel(f), pos, "a cookie is set without the %s attribute", fv.Name())
			}
		})
		// stores of false to cookies held elsewhere
		for _, fv := range []*types.Var{sec, ho} {
			for _, s := range p.idx.stores[fv] {
				if s.Parent() != f {
					continue
				}
				if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
					continue
				}
				r.Assert(false, rule, fv.Name()+" store in "+fnLabel(f), s.Pos(), "the %s attribute of a cookie is not set to true", fv.Name())
			}
		}
	}
	r.Min(rule, 8)
}

func runC09(r *Report, p *Prog) {
	const rule = "url-token"
	r.Rule(rule, "a URL token is accepted only with a valid signature of this proxy and the session id of the requesting browser; the URL is the one in the token")
	tm := "proxy/internal/tokenmanager"
	fn := r.mustFunc(rule, tm, "(*TokenManager).ValidateURLToken", func(f *ssa.Function) bool {
		return f.Signature.Results().Len() == 3 && hasDeepCalls(p, f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isTokenValidate(calleeName(ci))
		})
	})
	if fn == nil {
		return
	}
	sidOf := func(t *Term) bool {
		return !claimLookup(t, "sid") && (t.mentions(isCallTo("(*net/http.Request).Cookie", qn(tm, "sessionID"))) || t.op == "join")
	}
	gs := gates{eqG("same browser", "the token's sid is the browser's session id cookie", isClaim("sid"), sidOf, true)}
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		NoInline: func(f *ssa.Function) bool {
			return isTokenValidate(funcName(f)) || funcName(f) == qn(tm, "sessionID")
		},
		OnBranch: gs.branch,
		OnCall: func(c *CallCtx) {
			if isTokenValidate(c.Name) {
				c.St.Event("valid", c.Res, c.Args, c.In)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != fn || c.St.Nil(rets[2]) == no {
				return
			}
			r.Assert(c.St.OKNil("valid") != nil, rule, "accepts: signature", in.Pos(), "a URL token is accepted without a valid signature")
			gs.need(r, c, rule, "URL token accepted", in)
			r.Assert(rets[0].mentions(isClaim("url")) && fromOK(c, rets[0], "valid"), rule, "URL is the signed one", in.Pos(), "the URL returned is not the url claim of the validated token: %v", rets[0])
		},
	}, fn, nil)
	r.Min(rule, 3)
	sessionIDRule(r, p)
	redirects(r, p, fn)
}

// sessionIDRule: the session id is the browser's cookie or fresh randomness.
func sessionIDRule(r *Report, p *Prog) {
	const rule = "session-id"
	r.Rule(rule, "the browser's session id comes from its cookie or from the system's random source")
	fn := r.mustFunc(rule, "proxy/internal/tokenmanager", "sessionID", func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool { return isCall(in, "(*net/http.Request).Cookie") })
	})
	if fn == nil {
		return
	}
	rnd := hasDeepCalls(p, fn, func(in ssa.Instruction) bool {
		return isCall(in, "crypto/rand.Read", "io.ReadFull", "crypto/rand.Text")
	})
	r.Assert(rnd, rule, "random", fn.Pos(), "the session id of a new browser is not random")
	instrs(fn, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		if s, isC := ssaConstString(ret.Results[0]); isC && s == "" {
			return // a failure
		}
		o := p.Origins(ret.Results[0], FlowOpts{NoCallers: true, Base: true})
		r.Assert(o.HasCall("(*net/http.Request).Cookie"), rule, "from cookie", ret.Pos(), "the session id does not come from the browser's cookie")
	})
	r.Min(rule, 2)
}

// redirects: provenance of every redirect target and login return URL.
func redirects(r *Report, p *Prog, validate *ssa.Function) {
	const rule = "redirect-target"
	r.Rule(rule, "the target of a redirect and the return URL of a login request depend on request parameters only through a validated URL token, a URL saved when the login started, or the request's own URL on its own host")
	vn := funcName(validate)
	form := func(o *Orig) string {
		for c := range o.Calls {
			if oneOf(c, "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue", "(net/url.Values).Get", "(net/http.Header).Get", "(*net/http.Request).Cookie", "(*net/http.Request).Referer", "(*net/url.URL).Query") {
				return c
			}
		}
		for fv := range o.Fields {
			if fv.Pkg() != nil && fv.Pkg().Path() == "net/http" && oneOf(fv.Name(), "Form", "PostForm", "Header", "RequestURI") {
				return fv.Name()
			}
		}
		return ""
	}
	hostF := p.extField("net/url", "URL", "Host")
	reqURL := p.extField("net/http", "Request", "URL")
	check := func(ci ssa.CallInstruction, v ssa.Value, what string) {
		where := what + " in " + fnLabel(ci.Parent())
		o := p.Origins(v, FlowOpts{StopCall: func(n string) bool { return n == vn }, NoCallers: false})
		if inPkg(ci.Parent(), "/internal/oidc") && strings.Contains(fnLabel(ci.Parent()), "ProviderServer") {
			return // redirect URI of a registered client: decided with the OIDC server
		}
		bad := form(o)
		r.Assert(bad == "", rule, where, ci.Pos(), "the target depends on request data that is not protected by a URL token (%s)", bad)
	}
	for _, ci := range p.prodSites(func(nm string, _ ssa.CallInstruction) bool { return nm == "net/http.Redirect" }) {
		check(ci, ci.Common().Args[2], "redirect")
	}
	for _, ci := range p.callSitesSuffix(".RequestLogin", ").RequestLogin") {
		as := ci.Common().Args
		i := 2
		if !ci.Common().IsInvoke() && ci.Common().Signature().Recv() != nil {
			i = 3
		}
		if i < len(as) && as[i].Type().String() == "string" {
			check(ci, as[i], "login return URL")
		}
	}
	// the request's own URL is used as a target only with the host set
	for _, f := range p.Funcs {
		if isExample(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(ci) != "net/http.Redirect" {
				return
			}
			o := p.Origins(ci.Common().Args[2], FlowOpts{NoCallers: true, StopCall: func(n string) bool { return n == vn }})
			if !o.HasCall("(*net/url.URL).String") || !o.HasField(reqURL) {
				return
			}
			// a store of Host reaches the call on every path, or the path was fixed before
			setsHost := func(x ssa.Instruction) bool {
				st, ok := x.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				return ok && fieldVar(fa.X.Type(), fa.Field) == hostF
			}
			avoid := pathAvoiding(nil2first(f), func(x ssa.Instruction) bool { return x == in }, setsHost)
			bypassed := avoid != nil && !isLocalEndpoint(p, f)
			if bypassed {
				// set where the URL is written
				n := 0
				for sc := range o.CallIns {
					if calleeName(sc) != "(*net/url.URL).String" {
						continue
					}
					n++
					if sc.Parent() == f || pathAvoiding(nil2first(sc.Parent()), func(x ssa.Instruction) bool { return x == sc.(ssa.Instruction) }, setsHost) != nil {
						n = -99
					}
				}
				bypassed = n <= 0
			}
			r.Assert(!bypassed, rule, "own URL in "+fnLabel(f), ci.Pos(), "the redirect target is the request's own URL without its host: a path that starts with // leads to another site")
		})
	}
	r.Min(rule, 6)
}

// isLocalEndpoint: the function is an HTTP handler reached only with a path
// that was compared with its own fixed path.
func isLocalEndpoint(p *Prog, f *ssa.Function) bool {
	return localEndpointPart(p, f, 0)
}

// localEndpointPart: a handler of an endpoint, or part of such handlers only.
func localEndpointPart(p *Prog, f *ssa.Function, depth int) bool {
	if ssoBypassOK[f.Name()] || isHandlerSigMethod(f) {
		return true
	}
	cs := p.idx.callers[f]
	if depth > 4 || len(cs) == 0 || len(p.idx.addrTaken[f]) > 0 {
		return false
	}
	for _, c := range cs {
		if !localEndpointPart(p, c.Parent(), depth+1) {
			return false
		}
	}
	return true
}

func isHandlerSigMethod(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 2 && s.Results().Len() == 0 && s.Params().At(0).Type().String() == "net/http.ResponseWriter" && s.Params().At(1).Type().String() == "*net/http.Request"
}

func nil2first(f *ssa.Function) ssa.Instruction { return f.Blocks[0].Instrs[0] }
