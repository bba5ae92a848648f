package main

import (
	"go/token"
	"go/types"
	"net/http"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// headerWrite describes a write to an http.Header with a constant key.
type headerWrite struct {
	In   ssa.Instruction
	Kind string // Set, Add, Del, map
	Key  string
	Val  ssa.Value
	Base ssa.Value
}

// headerWrites lists writes to headers with a constant key in the module.
func (p *Prog) headerWrites(fns []*ssa.Function) []headerWrite {
	var out []headerWrite
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case ssa.CallInstruction:
				n := calleeName(x)
				if !oneOf(n, "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del") {
					return
				}
				as := x.Common().Args
				k, ok := ssaConstString(as[1])
				if !ok {
					return
				}
				h := headerWrite{In: in, Kind: n[len("(net/http.Header)."):], Key: canon(k), Base: as[0]}
				if len(as) > 2 {
					h.Val = as[2]
				}
				out = append(out, h)
			case *ssa.MapUpdate:
				if x.Map.Type().String() != "net/http.Header" {
					return
				}
				k, ok := ssaConstString(x.Key)
				if !ok {
					return
				}
				out = append(out, headerWrite{In: in, Kind: "map", Key: canon(k), Val: x.Value, Base: x.Map})
			}
		})
	}
	return out
}

// isHeaderDel: a call that deletes the header from a request's own header map.
func isHeaderDel(c *CallCtx, key string) bool {
	return c.Name == "(net/http.Header).Del" && len(c.Args) == 2 && canonHeader(c.Args[1]) == canon(key)
}

func isHeaderSet(c *CallCtx, key string) bool {
	return oneOf(c.Name, "(net/http.Header).Set", "(net/http.Header).Add") && len(c.Args) == 3 && canonHeader(c.Args[1]) == canon(key)
}

func ofRequest(p *Prog, t *Term) bool {
	return mentionsField(t, p.extField("net/http", "Request", "Header"))
}

func runC06(r *Report, p *Prog) {
	const rule = "uid-header-removed"
	r.Rule(rule, "in every installed HTTP handler, the client's own user-id header is deleted from the request before the request reaches the reverse proxy or a local endpoint")
	a := ssoResolve(r, p, rule)
	if a == nil {
		return
	}
	// the authentication function deletes it on every path on which it returns true, before setting it
	authDels, authN := true, 0
	var authBad token.Pos
	r.Walk(&Rule{
		Name: rule,
		Interesting: func(in ssa.Instruction) bool {
			return isCall(in, "(net/http.Header).Del", "(net/http.Header).Set", "(net/http.Header).Add")
		},
		OnCall: func(c *CallCtx) {
			switch {
			case isHeaderDel(c, uidHeader) && ofRequest(p, c.Args[0]):
				c.St.Event("del", nil, c.Args[:1], c.In)
			case isHeaderSet(c, uidHeader):
				r.Assert(len(c.St.Has("del")) > 0, rule, "user-id header set in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the user-id header is set before the client's own value was deleted")
				c.St.Event("set", nil, c.Args[:1], c.In)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != a.auth {
				return
			}
			authN++
			if len(rets) == 0 || c.St.Bool(rets[len(rets)-1]) != no {
				if len(c.St.Has("del")) == 0 {
					authDels = false
					authBad = in.Pos()
				}
			}
		},
	}, a.auth, nil)
	walkHandlersWith(r, p, rule, a, nil, func(c *CallCtx) {
		if isHeaderDel(c, uidHeader) && ofRequest(p, c.Args[0]) {
			c.St.Event("del", nil, nil, c.In)
		}
	}, func(c *Ctx, e *ssa.Function, kind string, in ssa.CallInstruction, args []*Term) {
		if kind == "static file" {
			return
		}
		ok := len(c.St.Has("del")) > 0 || authDels && c.St.OKTrue("auth") != nil
		pos := in.Pos()
		if !ok && authBad != 0 && len(c.St.Has("auth")) > 0 {
			pos = authBad
		}
		r.Assert(ok, rule, kind+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), pos, "%s reached with the client's own %s header: it is not deleted on every path (%s)", kind, uidHeader, c.Trace(in))
	})
	r.Min(rule, 4)

	uidHeaderValue(r, p, a)
	directorTable(r, p)
	xfccFields(r, p)
}

func canon(k string) string { return http.CanonicalHeaderKey(k) }

// uidHeaderValue: the header is only ever set to the email of a validated
// token, when configured.
func uidHeaderValue(r *Report, p *Prog, a *ssoAnchors) {
	const rule = "uid-header-value"
	r.Rule(rule, "the user-id header is written only with the email claim of a token whose validation succeeded, and only when the backend asks for it")
	bearer, cookie := qn("proxy/internal/cookiemanager", "(*CookieManager).ValidateAuthorizationHeader"), qn("proxy/internal/cookiemanager", "(*CookieManager).ValidateAuthTokenCookie")
	holders := map[*ssa.Function]bool{}
	for _, h := range p.headerWrites(p.Funcs) {
		if h.Key == canon(uidHeader) && h.Kind != "Del" {
			holders[h.In.Parent()] = true
			if h.Kind == "map" {
				r.Assert(false, rule, "direct map write in "+fnLabel(h.In.Parent()), h.In.Pos(), "the user-id header is written through the header map")
			}
		}
	}
	if !r.AssertAt(len(holders) > 0, rule, "writers", "-", "nothing sets %s", uidHeader) {
		return
	}
	entries := map[*ssa.Function]bool{}
	for h := range holders {
		entries[rootCaller(p, h, func(f *ssa.Function) bool {
			return hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, bearer, cookie) })
		})] = true
	}
	for e := range entries {
		r.Walk(&Rule{
			Name:      rule,
			InlineAll: true,
			NoInline: func(f *ssa.Function) bool {
				return oneOf(funcName(f), bearer, cookie) || strings.Contains(pkgPath(f), "/internal/")
			},
			Keep: func(t *Term) bool { return mentionsField(t, a.setHdr) },
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if val && cond.op == "field" && cond.fv == a.setHdr {
					c.St.Event("asked", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				switch {
				case oneOf(c.Name, bearer, cookie):
					c.St.Event("valid", c.Res, c.Args, c.In)
				case isHeaderSet(c, uidHeader):
					v := c.Args[2]
					ok := false
					for _, ev := range c.St.Has("valid") {
						if (ev.Status == yes || c.St.Nil(errTerm(c.W, ev.Res)) == yes) && v.mentions(func(t *Term) bool { return t == ev.Res }) {
							ok = true
						}
					}
					r.Assert(ok && claimLookup(v, "email"), rule, "value in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the user-id header is not set to the email of a validated token but to %v", v)
					r.Assert(len(c.St.Has("asked")) > 0, rule, "asked for in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the user-id header is set although SetUserIDHeader was not tested")
				}
			},
		}, e, nil)
	}
	r.Min(rule, 2)
}

const (
	xff  = "X-Forwarded-For"
	xfcc = "X-Forwarded-Client-Cert"
)

// directorTable decides the functions installed as ReverseProxy.Director.
func directorTable(r *Report, p *Prog) {
	const rule = "director"
	r.Rule(rule, "every reverse proxy has a director that, on every path, deletes the client's X-Forwarded-For and X-Forwarded-Client-Cert headers, never sets X-Forwarded-For, and sets X-Forwarded-Client-Cert afterwards, only from the verified certificate of the connection and when configured")
	dir := p.extField("net/http/httputil", "ReverseProxy", "Director")
	rw := p.extField("net/http/httputil", "ReverseProxy", "Rewrite")
	ca := r.mustField(rule, "proxy", "Backend", "ClientAuth")
	hdrCfg := r.mustField(rule, "proxy", "ClientAuth", "AddClientCertHeader")
	peer := p.extField("crypto/tls", "ConnectionState", "PeerCertificates")
	if dir == nil || ca == nil || hdrCfg == nil || peer == nil {
		return
	}
	fns := map[*ssa.Function]bool{}
	n := 0
	for _, s := range p.idx.stores[dir] {
		for f := range p.Origins(s.Val, FlowOpts{}).Funcs {
			if inModule(f) {
				fns[f] = true
				n++
			}
		}
	}
	for _, s := range p.idx.stores[rw] {
		r.Assert(false, rule, "Rewrite in "+fnLabel(s.Parent()), s.Pos(), "a reverse proxy with a Rewrite function: the rules about its headers are unknown")
	}
	// every literal has a director
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || deref(al.Type()).String() != "net/http/httputil.ReverseProxy" {
				return
			}
			set := false
			for _, s := range p.idx.stores[dir] {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == al && !isNilConst(s.Val) {
					set = true
				}
			}
			r.Assert(set, rule, "ReverseProxy in "+fnLabel(f), al.Pos(), "a reverse proxy is created without a director")
		})
	}
	for _, ci := range p.callSites("net/http/httputil.NewSingleHostReverseProxy") {
		r.Assert(false, rule, "NewSingleHostReverseProxy in "+fnLabel(ci.Parent()), ci.Pos(), "the single-host reverse proxy forwards the client's X-Forwarded-For and X-Forwarded-Client-Cert headers")
	}
	if !r.AssertAt(n > 0, rule, "directors", "-", "no director function found") {
		return
	}
	for f := range fns {
		f := f
		if len(f.Blocks) == 0 || strings.HasSuffix(f.Name(), "$bound") {
			// a method value: analyse the method
			if g := p.SSA.FuncValue(f.Object().(*types.Func)); g != nil && len(g.Blocks) > 0 {
				f = g
			}
		}
		r.Walk(&Rule{
			Name:      rule,
			InlineAll: true,
			NoInline:  isStringFn,
			Keep:      func(t *Term) bool { return mentionsField(t, hdrCfg) || mentionsField(t, ca) },
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if cond.op == "isnil" && cond.args[0].op == "field" && cond.args[0].fv == ca && !val {
					c.St.Event("clientauth", nil, nil, nil)
				}
				if mentionsField(cond, peer) && cond.op == "bin" && (cond.s == "<" && isZeroConst(cond.args[0]) && val || cond.s == "==" && !val) {
					c.St.Event("haspeer", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				switch {
				case isHeaderDel(c, xff) && ofRequest(p, c.Args[0]):
					c.St.Event("del-xff", nil, nil, c.In)
				case isHeaderDel(c, xfcc) && ofRequest(p, c.Args[0]):
					c.St.Event("del-xfcc", nil, nil, c.In)
					c.St.Kill("set-xfcc")
				case isHeaderSet(c, xff):
					r.Assert(false, rule, "X-Forwarded-For set in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the director sets X-Forwarded-For itself")
				case isHeaderSet(c, xfcc):
					r.Assert(len(c.St.Has("del-xfcc")) > 0, rule, "client's header deleted before set in "+fnLabel(c.Fr.Fn), c.In.Pos(), "X-Forwarded-Client-Cert is set before the client's value was deleted")
					r.Assert(len(c.St.Has("clientauth")) > 0, rule, "configured in "+fnLabel(c.Fr.Fn), c.In.Pos(), "X-Forwarded-Client-Cert is set although client authentication may not be configured")
					r.Assert(len(c.St.Has("haspeer")) > 0, rule, "certificate present in "+fnLabel(c.Fr.Fn), c.In.Pos(), "X-Forwarded-Client-Cert is set although the connection may have no certificate")
					r.Assert(!strings.HasSuffix(c.Name, ".Add"), rule, "replaced in "+fnLabel(c.Fr.Fn), c.In.Pos(), "X-Forwarded-Client-Cert is added to, not replaced")
					c.St.Event("set-xfcc", nil, nil, c.In)
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if in.Parent() != f {
					return
				}
				r.Assert(len(c.St.Has("del-xff")) > 0, rule, "X-Forwarded-For deleted by "+fnLabel(f), in.Pos(), "the director returns without deleting the client's X-Forwarded-For header")
				r.Assert(len(c.St.Has("del-xfcc")) > 0, rule, "X-Forwarded-Client-Cert deleted by "+fnLabel(f), in.Pos(), "the director returns without deleting the client's X-Forwarded-Client-Cert header")
			},
		}, f, nil)
	}
	r.Min(rule, 5)
}

// xfccFields: the value of the client certificate header comes from the
// leaf certificate of the connection, each label from its own field.
func xfccFields(r *Report, p *Prog) {
	const rule = "xfcc-fields"
	r.Rule(rule, "the X-Forwarded-Client-Cert value depends on the peer certificates of the connection (leaf certificate), not on request headers, and each labelled element depends on the matching certificate field")
	hdr := p.extField("net/http", "Request", "Header")
	peer := p.extField("crypto/tls", "ConnectionState", "PeerCertificates")
	chains := p.extField("crypto/tls", "ConnectionState", "VerifiedChains")
	cert := func(n string) *types.Var { return p.extField("crypto/x509", "Certificate", n) }
	want := map[string][]*types.Var{
		"Cert=": {cert("Raw")}, "Chain=": {cert("Raw"), chains}, "Hash=": {cert("Raw")},
		"Subject=": {cert("Subject")}, "URI=": {cert("URIs")}, "DNS=": {cert("DNSNames")},
	}
	names := []*types.Var{cert("Subject"), cert("Issuer"), cert("URIs"), cert("DNSNames"), cert("EmailAddresses"), cert("IPAddresses"), cert("SerialNumber")}
	for _, h := range p.headerWrites(p.Funcs) {
		if h.Key != canon(xfcc) || h.Kind == "Del" {
			continue
		}
		o := p.Origins(h.Val, FlowOpts{Base: true})
		r.Assert(o.HasField(peer) || o.HasField(chains), rule, "value in "+fnLabel(h.In.Parent()), h.In.Pos(), "the X-Forwarded-Client-Cert value does not depend on the peer certificates of the connection")
		r.Assert(!o.HasField(hdr), rule, "value not from headers in "+fnLabel(h.In.Parent()), h.In.Pos(), "the X-Forwarded-Client-Cert value depends on request headers")
	}
	for _, f := range p.Funcs {
		if !strings.HasSuffix(pkgPath(f), "/proxy") {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				return
			}
			k, ok := ssaConstString(b.X)
			if !ok || want[k] == nil {
				return
			}
			o := p.Origins(b.Y, FlowOpts{Base: true})
			for _, fv := range want[k] {
				r.Assert(o.HasField(fv), rule, "element "+k+" depends on "+fv.Name(), b.Pos(), "the %s element of the client certificate header does not depend on the certificate's %s", k, fv.Name())
			}
			for _, fv := range names {
				bad := o.HasField(fv)
				for _, w := range want[k] {
					if w == fv {
						bad = false
					}
				}
				r.Assert(!bad, rule, "element "+k+" not from "+fv.Name(), b.Pos(), "the %s element of the client certificate header depends on the certificate's %s", k, fv.Name())
			}
		})
		// the leaf is element 0
		instrs(f, func(in ssa.Instruction) {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				return
			}
			u, ok := ia.X.(*ssa.UnOp)
			if !ok {
				return
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) != peer {
				return
			}
			if k, ok := ia.Index.(*ssa.Const); ok {
				r.Assert(k.Value.String() == "0", rule, "leaf certificate in "+fnLabel(f), ia.Pos(), "certificate %s of the chain is used as the client's certificate", k.Value)
			}
		})
	}
	r.Min(rule, 6)
}

// --- C07

const sidCookie = "TLSPROXYSID"
const authCookie = "TLSPROXYAUTH"

func runC07(r *Report, p *Prog) {
	const rule = "cookie-filter"
	r.Rule(rule, "no request is forwarded by the reverse proxy on a protected path unless the proxy's authentication and session cookies were filtered out of it")
	a := ssoResolve(r, p, rule)
	if a == nil {
		return
	}
	fname := qn("proxy/internal/cookiemanager", "FilterOutAuthTokenCookie")
	filter := r.mustFunc(rule, "proxy/internal/cookiemanager", "FilterOutAuthTokenCookie", func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool { return isCall(in, "(*net/http.Request).AddCookie") })
	})
	if filter == nil {
		return
	}
	fname = funcName(filter)
	names := func(c *CallCtx) bool {
		o := p.OriginsAll(c.In.Common().Args[1:], FlowOpts{NoCallers: true})
		return o.Strs[sidCookie]
	}
	isReq := func(t *Term) bool { return t != nil }
	filters := true
	var bad token.Pos
	r.Walk(&Rule{
		Name:      rule,
		InlineAll: true,
		Interesting: func(in ssa.Instruction) bool {
			return isCall(in, fname) || touchesField(in, a.paths) || touchesField(in, a.sso)
		},
		NoInline: func(f *ssa.Function) bool {
			return f == filter || isPathMatcher(f) || strings.HasSuffix(funcName(f), "claimsFromCtx")
		},
		Keep: func(t *Term) bool { return mentionsField(t, a.sso) },
		OnCall: func(c *CallCtx) {
			if isPathMatcher(c.Fn) && len(c.Args) == 2 && mentionsField(c.Args[0], a.paths) {
				c.St.Event("path", c.Res, c.Args, c.In)
			}
			if c.Name == fname && isReq(c.Args[0]) {
				if r.Assert(names(c), rule, "session id cookie filtered in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the cookie filter is called without the session id cookie") {
					c.St.Event("filter", nil, c.Args, c.In)
				}
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != a.policy {
				return
			}
			free := c.St.OKFalse("path") != nil
			for k, v := range c.St.facts {
				if v && k.op == "isnil" && k.args[0].op == "field" && k.args[0].fv == a.sso {
					free = true
				}
			}
			if !free && c.St.Bool(rets[0]) != no && len(c.St.Has("filter")) == 0 {
				filters = false
				bad = in.Pos()
			}
		},
	}, a.policy, nil)
	walkHandlersWith(r, p, rule, a, []string{fname}, func(c *CallCtx) {
		if c.Name == fname {
			c.Opaque = true
			if r.Assert(names(c), rule, "session id cookie filtered in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the cookie filter is called without the session id cookie") {
				c.St.Event("filter", nil, c.Args, c.In)
			}
		}
	}, func(c *Ctx, e *ssa.Function, kind string, in ssa.CallInstruction, args []*Term) {
		if kind != "reverse proxy" && kind != "round trip" {
			return
		}
		ok := len(c.St.Has("filter")) > 0 || filters && c.St.OKTrue("sso") != nil
		pos := in.Pos()
		if !ok && bad != 0 {
			pos = bad
		}
		r.Assert(ok, rule, kind+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), pos, "a request on a protected path is forwarded with the proxy's own cookies")
	})
	r.Min(rule, 2)
	filterTable(r, p, filter)
}

// filterTable decides the filter itself.
func filterTable(r *Report, p *Prog, f *ssa.Function) {
	const rule = "cookie-filter-table"
	r.Rule(rule, "the filter removes the Cookie header, then adds back each cookie of the request exactly when its name is neither the authentication cookie nor one of the given names")
	cname := p.extField("net/http", "Cookie", "Name")
	isName := func(t *Term) bool { return t.op == "field" && t.fv == cname }
	isNames := func(t *Term) bool { return t.op == "param" && len(f.Params) > 1 && t.v == f.Params[1] }
	isAuth := func(t *Term) bool { s, ok := constString(t); return ok && s == authCookie }
	m := &member{L: "listed", IsList: isNames, IsElem: isName}
	n := 0
	reset := func(c *Ctx) {
		for _, l := range []string{"auth-hit", "auth-miss", "listed-hit", "listed-done", "listed-open", "added"} {
			c.St.Kill(l)
		}
	}
	_ = reset
	r.Walk(&Rule{
		Name:      rule,
		InlineAll: true,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			m.branch(c, cond, val)
			if cond.op == "bin" && cond.s == "==" && (isName(cond.args[0]) && isAuth(cond.args[1]) || isName(cond.args[1]) && isAuth(cond.args[0])) {
				if val {
					c.St.Event("auth-hit", nil, nil, nil)
				} else {
					c.St.Event("auth-miss", nil, nil, nil)
				}
			}
		},
		OnCall: func(c *CallCtx) {
			switch {
			case c.Name == "(*net/http.Request).Cookies":
				c.St.Event("read", nil, nil, c.In)
				r.Assert(len(c.St.Has("del")) == 0, rule, "cookies read before deletion", c.In.Pos(), "the cookies are read after the header was deleted: all cookies are lost")
			case c.Name == "(net/http.Header).Del" && canonHeader(c.Args[1]) == "Cookie":
				c.St.Event("del", nil, nil, c.In)
			case c.Name == "(*net/http.Request).AddCookie":
				n++
				r.Assert(len(c.St.Has("del")) > 0, rule, "header deleted before adding back", c.In.Pos(), "cookies are added back before the Cookie header was deleted")
				authMiss := len(c.St.Has("auth-miss")) > 0
				listedMiss := len(c.St.Has("listed-done")) > 0
				r.Assert(authMiss, rule, "authentication cookie dropped", c.In.Pos(), "a cookie is kept without having been compared with %s", authCookie)
				r.Assert(listedMiss, rule, "given names dropped", c.In.Pos(), "a cookie is kept without having been compared with the given names")
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() == f {
				r.Assert(len(c.St.Has("del")) > 0, rule, "header deleted", in.Pos(), "the filter returns without deleting the Cookie header")
			}
		},
	}, f, nil)
	r.Min(rule, 4)
	cookieKeepTable(r, p, f, rule)
}

// cookieKeepTable: an iteration that does not add the cookie back does so
// because of one of the two comparisons: every conditional branch that can
// skip AddCookie within the loop compares the cookie's name.
func cookieKeepTable(r *Report, p *Prog, f *ssa.Function, rule string) {
	cname := p.extField("net/http", "Cookie", "Name")
	for _, l := range loopsOf(f) {
		var add ssa.Instruction
		for b := range l.body {
			for _, in := range b.Instrs {
				if isCall(in, "(*net/http.Request).AddCookie") {
					add = in
				}
			}
		}
		if add == nil {
			continue
		}
		for b := range l.body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b == l.head {
				continue
			}
			o := p.Origins(iff.Cond, FlowOpts{})
			r.Assert(o.HasField(cname), rule, "only names decide", iff.Pos(), "whether a cookie is kept depends on something else than its name")
		}
	}
}
