package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C19", Title: "Backend servers are verified with their own parameters",
		Explain: "Path-sensitive walk over every function that dials a backend: address, mode, server name, root CAs, verification flag and timeouts all come from the same source (the chosen path override or the backend), TLS modes always wrap the dialed connection, every connection verifier accepts only unrevoked certificates, and HTTP transports have no other way to connect.",
		Run:     runC19,
	})
}

// dialSource tells where a dialing parameter comes from: the backend itself or
// one of its path overrides.
type dialSource struct {
	p         *Prog
	overrides *types.Var
}

func newDialSource(r *Report, p *Prog, rule string) *dialSource {
	d := &dialSource{p: p, overrides: r.mustField(rule, "proxy", "Backend", "PathOverrides")}
	if d.overrides == nil {
		return nil
	}
	return d
}

// owner: the term is the parameter with this name of a backend or of a path
// override, whose term is returned.
func (d *dialSource) owner(t *Term, name string) (o *Term, override bool) {
	if t == nil || t.op != "field" || t.fv == nil || t.fv.Name() != name {
		return nil, false
	}
	o = t.args[0]
	switch t.fv {
	case d.p.Field("proxy", "PathOverride", name):
		if o.op == "index" && o.args[0].op == "field" && o.args[0].fv == d.overrides {
			return o, true
		}
	case d.p.Field("proxy", "Backend", name):
		return o, false
	}
	return nil, false
}

// param is the parameter with this name of the same owner.
func (d *dialSource) param(c *Ctx, owner *Term, override bool, name string) *Term {
	typ := "Backend"
	if override {
		typ = "PathOverride"
	}
	fv := d.p.Field("proxy", typ, name)
	if fv == nil {
		return nil
	}
	return c.St.Load(c.W.T.field(owner, fv), fv.Type())
}

func isDialer(n string) bool {
	return oneOf(n, "(*net.Dialer).DialContext", "(*net.Dialer).Dial", "net.Dial", "net.DialTimeout")
}

func isQUICDialer(n string) bool {
	return strings.HasPrefix(n, "(*"+modPath+"/proxy/internal/netw.QUICTransport).Dial")
}

func calleeNameOf(in ssa.Instruction) string {
	if ci, ok := in.(ssa.CallInstruction); ok {
		return calleeName(ci)
	}
	return ""
}

func isOverrideID(t *Term) bool {
	return (t.op == "call" || t.op == "csym") && strings.HasSuffix(t.s, "context.Context).Value") && strings.Contains(t.String(), "ctxOverrideIDKey")
}

// noOverride: the branch establishes that no valid path override is chosen.
func (d *dialSource) noOverride(cond *Term, val bool) bool {
	switch {
	case cond.op == "istype":
		return !val && isOverrideID(cond.args[0])
	case cond.op == "isnil":
		return val && isOverrideID(cond.args[0])
	case cond.op == "bin" && cond.s == "<":
		x, y := cond.args[0], cond.args[1]
		if x.mentions(isOverrideID) && isLen(y) && mentionsField(y, d.overrides) {
			return !val
		}
		if x.mentions(isOverrideID) && isZeroConst(y) {
			return val
		}
	}
	return false
}

// backendDialers are the functions that choose an address of a backend and
// connect to it, possibly through helpers.
func backendDialers(r *Report, p *Prog, rule string) []*ssa.Function {
	addrs := r.mustField(rule, "proxy", "Backend", "Addresses")
	if addrs == nil {
		return nil
	}
	touches := func(f *ssa.Function) bool {
		self := func(g *ssa.Function) bool {
			return has(g, func(in ssa.Instruction) bool { return touchesField(in, addrs) })
		}
		if self(f) {
			return true
		}
		ok := false
		instrs(f, func(in ssa.Instruction) {
			if ci, is := in.(ssa.CallInstruction); is {
				if g := staticCallee(ci); g != nil && inPkg(g, "/proxy") && g.Signature.Results().Len() > 0 && self(g) && !isDialFunc(g) {
					ok = true
				}
			}
		})
		return ok
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var climb func(f *ssa.Function)
	climb = func(f *ssa.Function) {
		if f == nil || seen[f] || !inPkg(f, "/proxy") {
			return
		}
		seen[f] = true
		if touches(f) {
			out = append(out, f)
			return
		}
		for _, ci := range p.idx.callers[f] {
			if staticCallee(ci) == f && ci.Parent() != nil {
				climb(ci.Parent())
			}
		}
	}
	for _, f := range p.funcsWhere(func(f *ssa.Function) bool {
		return inPkg(f, "/proxy") && isDialFunc(f)
	}) {
		climb(f)
	}
	return out
}

func isDialFunc(f *ssa.Function) bool {
	return has(f, func(in ssa.Instruction) bool {
		n := calleeNameOf(in)
		return n == "crypto/tls.Client" || isQUICDialer(n) || isDialer(n)
	})
}

func runC19(r *Report, p *Prog) {
	const rule, src, ver = "backend-dial", "backend-source", "backend-verifier"
	r.Rule(rule, "a connection to a backend is handed out only if it was dialed to one of the addresses, and wrapped in a TLS client when its mode is TLS or HTTPS, with a timeout")
	r.Rule(src, "the address, mode, timeout, server name, root CAs and verification flag of a connection all come from the chosen path override, or all from the backend when no override is chosen")
	d := newDialSource(r, p, rule)
	if d == nil {
		return
	}
	cfgField := map[string]*types.Var{}
	for _, n := range []string{"InsecureSkipVerify", "ServerName", "RootCAs", "VerifyConnection", "VerifyPeerCertificate", "GetClientCertificate", "MinVersion"} {
		cfgField[n] = p.extField("crypto/tls", "Config", n)
	}
	timeoutF := p.extField("net", "Dialer", "Timeout")
	modes := map[*types.Var]bool{p.Field("proxy", "Backend", "Mode"): true, p.Field("proxy", "PathOverride", "Mode"): true}
	mentionsMode := func(t *Term) bool {
		return t.mentions(func(x *Term) bool { return x.op == "field" && modes[x.fv] })
	}
	verifiers := map[*ssa.Function]bool{}
	dials := 0
	next, oNext := p.Field("proxy", "backendState", "next"), p.Field("proxy", "backendState", "oNext")
	newConn := qn("proxy/internal/netw", "NewConn")
	wrapConn := "WrapConn"
	entries := backendDialers(r, p, rule)
	for _, e := range entries {
		where := " in " + fnLabel(e)
		checkOwner := func(c *Ctx, in ssa.Instruction, o *Term, ov bool) {
			if ov {
				r.Assert(o.args[1].mentions(isOverrideID), src, "path override"+where, posOf(in), "the path override used is not the one chosen for the request: %v", o.args[1])
			} else {
				r.Assert(hasEv(c, "none"), src, "no path override"+where, posOf(in), "the backend's own parameters are used although a path override may have been chosen")
			}
		}
		same := func(c *Ctx, in ssa.Instruction, what, name string, t, o *Term, ov bool) {
			o2, ov2 := d.owner(t, name)
			r.Assert(o2 == o && ov2 == ov, src, what+where, posOf(in), "the %s of the connection is %v, which does not come from the same place as its address (%v)", what, t, o)
		}
		checkTC := func(c *Ctx, in ssa.Instruction, tc, o *Term, ov bool) {
			root := cfgRoot(tc)
			get := func(n string) *Term {
				fv := cfgField[n]
				return c.St.Load(c.W.T.field(c.W.T.path(root), fv), fv.Type())
			}
			if v := get("InsecureSkipVerify"); c.St.Bool(v) != no {
				same(c, in, "verification flag", "InsecureSkipVerify", v, o, ov)
			}
			same(c, in, "server name", "ForwardServerName", get("ServerName"), o, ov)
			same(c, in, "root CAs", "forwardRootCAs", get("RootCAs"), o, ov)
			v := get("VerifyConnection")
			ok := (v.op == "closure" || v.op == "func") && v.fn != nil
			if r.Assert(ok, rule, "connection verifier"+where, posOf(in), "the TLS configuration of the connection has no connection verifier") {
				verifiers[v.fn] = true
			}
		}
		// addrOwner: the owner of the address dialed
		addrOwner := func(c *Ctx, in ssa.Instruction, a *Term) (*Term, bool, bool) {
			if a.op == "extract" || a.op == "call" || a.op == "csym" {
				if (a.op == "call" || a.op == "csym") && a.s == "net.ResolveUDPAddr" && len(a.args) == 2 {
					a = a.args[1]
				} else if a.op == "extract" && a.args[0].s == "net.ResolveUDPAddr" && len(a.args[0].args) == 2 {
					a = a.args[0].args[1]
				}
			}
			if a.op != "index" {
				return nil, false, false
			}
			o, ov := d.owner(a.args[0], "Addresses")
			if o == nil {
				return nil, false, false
			}
			// the round-robin counter must be that of the same list
			if i := a.args[1]; mentionsField(i, next) || mentionsField(i, oNext) {
				ok := !ov && mentionsField(i, next) && !mentionsField(i, oNext)
				if ov {
					ok = mentionsField(i, oNext) && !mentionsField(i, next) && i.mentions(func(x *Term) bool { return x == o.args[1] })
				}
				r.Assert(ok, src, "address counter"+where, posOf(in), "the address is chosen with the counter of another list: %v", i)
			}
			return o, ov, true
		}
		r.Walk(&Rule{
			Name: rule, InlineAll: true, KeepRes: true,
			NoInline: func(f *ssa.Function) bool { return inPkg(f, "/netw") },
			Keep:     mentionsMode,
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if d.noOverride(cond, val) {
					c.St.Event("none", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				in := c.In.(ssa.Instruction)
				switch {
				case isDialer(c.Name):
					dials++
					c.St.Kill("dial")
					c.St.Kill("tls")
					a := c.Args[len(c.Args)-1]
					if c.Name == "net.DialTimeout" {
						a = c.Args[1]
					}
					o, ov, ok := addrOwner(&c.Ctx, in, a)
					if !r.Assert(ok, rule, "address dialed"+where, c.In.Pos(), "the address dialed, %v, is not one of the backend's", a) {
						return
					}
					checkOwner(&c.Ctx, in, o, ov)
					t := c.Args[0]
					if strings.HasPrefix(c.Name, "(*net.Dialer)") {
						t = c.St.Load(c.W.T.field(c.W.T.path(c.Args[0]), timeoutF), timeoutF.Type())
						if o2, _ := d.owner(t, "ForwardTimeout"); o2 == nil && len(c.Args) > 1 {
							t = ctxTimeout(c.Args[1])
						}
					} else if c.Name == "net.DialTimeout" {
						t = c.Args[2]
					}
					same(&c.Ctx, in, "timeout", "ForwardTimeout", t, o, ov)
					c.St.Event("dial", bare(c), []*Term{o}, c.In)
				case isQUICDialer(c.Name):
					dials++
					c.St.Kill("dial")
					c.St.Kill("tls")
					o, ov, ok := addrOwner(&c.Ctx, in, c.Args[2])
					if !r.Assert(ok, rule, "address dialed"+where, c.In.Pos(), "the address dialed, %v, is not one of the backend's", c.Args[2]) {
						return
					}
					checkOwner(&c.Ctx, in, o, ov)
					same(&c.Ctx, in, "timeout", "ForwardTimeout", ctxTimeout(c.Args[1]), o, ov)
					checkTC(&c.Ctx, in, c.Args[3], o, ov)
					c.St.Event("dial", bare(c), []*Term{o}, c.In)
					c.St.Event("tls", nil, []*Term{c.Result}, c.In)
				case c.Name == "crypto/tls.Client":
					ev := c.St.OKNil("dial")
					if !r.Assert(ev != nil && c.Args[0].mentions(func(x *Term) bool { return x == ev.Res }), rule, "TLS client"+where, c.In.Pos(), "a TLS client is started on a connection that was not dialed here: %v", c.Args[0]) {
						return
					}
					o := ev.Args[0]
					checkTC(&c.Ctx, in, c.Args[1], o, o.op == "index")
					c.St.Event("tls", nil, []*Term{c.Res}, c.In)
				case strings.HasSuffix(c.Name, wrapConn) || c.Name == newConn:
					c.Opaque = true
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn != e || len(rets) != 2 || c.St.Nil(rets[1]) == no || c.St.Nil(rets[0]) == yes {
					return
				}
				ev := c.St.OKNil("dial")
				if !r.Assert(ev != nil, rule, "connection returned"+where, posOf(in), "a connection is returned although dialing may have failed") {
					return
				}
				o := ev.Args[0]
				want := ev.Res
				if t := c.St.Has("tls"); len(t) > 0 {
					want = t[len(t)-1].Args[0]
				} else {
					plain := true
					m := d.param(c, o, o.op == "index", "Mode")
					for _, s := range []string{"TLS", "HTTPS"} {
						if m == nil || c.St.Eq(m, c.W.T.str(s)) != no {
							plain = false
						}
					}
					r.Assert(plain, rule, "plain connection"+where, posOf(in), "an unencrypted connection may be returned for a backend in TLS or HTTPS mode")
				}
				r.Assert(rets[0].mentions(func(x *Term) bool { return x == want }), rule, "the connection returned"+where, posOf(in), "the connection returned is %v", rets[0])
			},
		}, e, nil)
	}
	r.AssertAt(dials > 0, rule, "backends are dialed", "-", "no dial found")
	r.Min(src, 6)
	for f := range verifiers {
		backendVerifier(r, p, ver, f)
	}
	r.AssertAt(len(verifiers) > 0, ver, "connection verifiers", "-", "no connection verifier found")
	pkiMapRule(r, p)
	transports(r, p, entries)
}

// bare makes the result of the call a symbol of its own that does not mention
// the arguments.
func bare(c *CallCtx) *Term {
	t := &Term{op: "csym", s: c.Res.s, frame: c.Res.frame, v: c.Res.v, typ: c.Res.typ}
	c.Opaque = true
	c.Result = c.W.T.mk(t)
	return c.Result
}

// ctxTimeout: the timeout of a context, if it has one.
func ctxTimeout(t *Term) *Term {
	for i := 0; i < 8 && t != nil; i++ {
		if t.op == "extract" {
			t = t.args[0]
		}
		if t.op != "call" && t.op != "csym" || len(t.args) < 2 {
			return t
		}
		switch t.s {
		case "context.WithTimeout":
			return t.args[1]
		case "context.WithValue", "context.WithCancel", "context.WithCancelCause":
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

func backendVerifier(r *Report, p *Prog, rule string, fn *ssa.Function) {
	r.Rule(rule, "the connection verifier used with backends accepts only when the first certificate was found unrevoked by the PKI that issued it, or by OCSP if it names a server")
	revName, ocspName := qn("proxy/internal/pki", "(*PKIManager).IsRevoked"), qn("proxy/internal/ocspcache", "(*OCSPCache).VerifyChains")
	peer := p.extField("crypto/tls", "ConnectionState", "PeerCertificates")
	chains := p.extField("crypto/tls", "ConnectionState", "VerifiedChains")
	ocspSrv := p.extField("crypto/x509", "Certificate", "OCSPServer")
	serial := p.extField("crypto/x509", "Certificate", "SerialNumber")
	aki := p.extField("crypto/x509", "Certificate", "AuthorityKeyId")
	pkiMap := p.Field("proxy", "Backend", "pkiMap")
	isLeaf := func(t *Term) bool {
		return t.op == "index" && mentionsField(t.args[0], peer) && isZeroConst(t.args[1])
	}
	ofLeaf := func(t *Term, fv *types.Var) bool {
		return t.mentions(func(x *Term) bool { return x.op == "field" && x.fv == fv && isLeaf(x.args[0]) })
	}
	n := 0
	r.Walk(&Rule{
		Name: rule, InlineAll: true, KeepRes: true,
		NoInline: func(f *ssa.Function) bool { return oneOf(funcName(f), revName, ocspName) },
		Keep: func(t *Term) bool {
			return mentionsField(t, peer) || mentionsField(t, pkiMap) || mentionsField(t, ocspSrv)
		},
		OnCall: func(c *CallCtx) {
			switch c.Name {
			case revName:
				ok := len(c.Args) == 2 && ofLeaf(c.Args[1], serial) && mentionsField(c.Args[0], pkiMap) && ofLeaf(c.Args[0], aki)
				if r.Assert(ok, rule, "PKI revocation in "+fnLabel(fn), c.In.Pos(), "revocation is asked from %v about %v", c.Args[0], c.Args[1]) {
					c.St.Event("revoked", c.Res, c.Args, c.In)
				}
			case ocspName:
				ok := len(c.Args) == 3 && mentionsField(c.Args[1], chains)
				if r.Assert(ok, rule, "OCSP verification in "+fnLabel(fn), c.In.Pos(), "OCSP verification is about %v", c.Args) {
					c.St.Event("ocsp", c.Res, c.Args, c.In)
				}
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != fn || len(rets) != 1 || c.St.Nil(rets[0]) == no {
				return
			}
			n++
			r.Assert(revocationDecided(c.St, pkiMap, aki, ocspSrv, anyOf(isLeaf)), rule, "accepting verdict in "+fnLabel(fn), posOf(in), "the certificate of a backend is accepted although it was neither found unrevoked by its PKI nor verified with OCSP")
		},
	}, fn, nil)
	r.AssertAt(n > 0, rule, "accepting paths in "+fnLabel(fn), "-", "the verifier never accepts")
}

// pkiMapRule: every CA certificate of a PKI that is trusted is also registered
// for revocation checks, under its own key ID.
func pkiMapRule(r *Report, p *Prog) {
	const rule = "pki-registered"
	r.Rule(rule, "whenever the CA certificate of a PKI is added to a pool of trusted roots, the PKI is registered for revocation checks under that certificate's subject key ID")
	pkiMap := r.mustField(rule, "proxy", "Backend", "pkiMap")
	ski := p.extField("crypto/x509", "Certificate", "SubjectKeyId")
	if pkiMap == nil || ski == nil {
		return
	}
	caName := qn("proxy/internal/pki", "(*PKIManager).CACert")
	const addCert = "(*crypto/x509.CertPool).AddCert"
	caOf := func(t *Term) *Term {
		var m *Term
		t.mentions(func(x *Term) bool {
			if (x.op == "call" || x.op == "csym") && x.s == caName && len(x.args) == 1 {
				m = x
			}
			return false
		})
		return m
	}
	entries := map[*ssa.Function]bool{}
	for _, ci := range p.callSites(addCert) {
		if !inPkg(ci.Parent(), "/proxy") {
			continue
		}
		entries[rootCaller(p, ci.Parent(), func(f *ssa.Function) bool {
			return has(f, func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok && touchesMap(in, pkiMap) })
		})] = true
	}
	n := 0
	for e := range entries {
		settle := func(c *Ctx, in ssa.Instruction) {
			for _, ev := range c.St.Has("trusted") {
				ok := false
				for _, m := range c.St.Has("registered") {
					ok = ok || m.Args[0] == ev.Args[0]
				}
				r.Assert(ok, rule, "trusted CA in "+fnLabel(e), posOf(in), "the CA certificate %v is trusted but its PKI is not registered for revocation checks", ev.Args[0])
			}
			c.St.Kill("trusted")
			c.St.Kill("registered")
		}
		r.Walk(&Rule{
			Name: rule, NoGo: true,
			Interesting: func(in ssa.Instruction) bool {
				return isCall(in, addCert, caName) || touchesMap(in, pkiMap)
			},
			NoInline: func(f *ssa.Function) bool { return funcName(f) == caName },
			OnCall: func(c *CallCtx) {
				switch c.Name {
				case caName:
					settle(&c.Ctx, c.In.(ssa.Instruction))
				case addCert:
					if ca := caOf(c.Args[1]); ca != nil {
						n++
						c.St.Event("trusted", nil, []*Term{ca}, c.In)
					}
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !touchesMap(in, pkiMap) {
					return
				}
				k, v := c.V(mu.Key), c.V(mu.Value)
				ca := caOf(k)
				ok = ca != nil && ca.args[0] == v && k.mentions(func(x *Term) bool {
					return x.op == "field" && x.fv == ski && x.args[0].mentions(func(y *Term) bool { return y == ca })
				})
				if r.Assert(ok, rule, "PKI registered in "+fnLabel(c.Fr.Fn), mu.Pos(), "a PKI is registered for revocation checks under %v, which is not the subject key ID of its CA certificate", k) {
					c.St.Event("registered", nil, []*Term{ca}, nil)
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn == e && len(rets) > 0 && c.St.Nil(rets[len(rets)-1]) != no {
					settle(c, in)
				}
			},
		}, e, nil)
	}
	r.AssertAt(n > 0, rule, "CA certificates are trusted", "-", "no PKI's CA certificate is added to a pool")
	r.Min(rule, 3)
}

// touchesMap: the instruction updates the map held in this field.
func touchesMap(in ssa.Instruction, fv *types.Var) bool {
	mu, ok := in.(*ssa.MapUpdate)
	if !ok {
		return false
	}
	u, ok := mu.Map.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldVar(fa.X.Type(), fa.Field) == fv
}

// transports: the HTTP clients used with backends connect only through the
// dialing functions.
func transports(r *Report, p *Prog, dialers []*ssa.Function) {
	const rule = "backend-transports"
	r.Rule(rule, "every HTTP transport of the proxy connects to backends only through the functions that dial the backend itself")
	isDial := map[*ssa.Function]bool{}
	for _, f := range dialers {
		isDial[f] = true
	}
	kinds := map[string][][]string{
		// alternatives: one field of each must be set
		"net/http.Transport":                            {{"Dial", "DialContext"}, {"DialTLS", "DialTLSContext"}},
		"golang.org/x/net/http2.Transport":              {{"DialTLS", "DialTLSContext"}},
		"github.com/quic-go/quic-go/http3.RoundTripper": {{"Dial"}},
		"github.com/quic-go/quic-go/http3.Transport":    {{"Dial"}},
	}
	for _, fn := range p.funcsWhere(func(f *ssa.Function) bool { return inPkg(f, "/proxy") }) {
		instrs(fn, func(in ssa.Instruction) {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				return
			}
			pt, ok := a.Type().Underlying().(*types.Pointer)
			if !ok {
				return
			}
			n, ok := pt.Elem().(*types.Named)
			if !ok || n.Obj().Pkg() == nil {
				return
			}
			name := n.Obj().Pkg().Path() + "." + n.Obj().Name()
			want, ok := kinds[name]
			if !ok {
				return
			}
			where := name + " in " + fnLabel(fn)
			set := map[string]bool{}
			for _, ref := range *a.Referrers() {
				fa, ok := ref.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				for _, ref := range *fa.Referrers() {
					st, ok := ref.(*ssa.Store)
					if !ok || st.Addr != fa {
						continue
					}
					if fv.Name() == "Proxy" || fv.Name() == "TLSClientConfig" {
						r.Assert(isNilConst(st.Val), rule, fv.Name()+" of "+where, st.Pos(), "the transport is given its own %s", fv.Name())
					}
					if !strings.HasPrefix(fv.Name(), "Dial") {
						continue
					}
					set[fv.Name()] = true
					fns := p.Origins(st.Val, FlowOpts{}).Funcs
					ok = len(fns) > 0
					for f := range fns {
						if f.Parent() == nil && !inPkg(f, "/proxy") {
							ok = false
							continue
						}
						if isDial[f] {
							continue
						}
						ok = ok && returnsDial(p, f, isDial)
					}
					r.Assert(ok, rule, fv.Name()+" of "+where, st.Pos(), "the transport connects with something else than the functions that dial the backend")
				}
			}
			for _, alt := range want {
				ok := false
				for _, n := range alt {
					ok = ok || set[n]
				}
				r.Assert(ok, rule, alt[0]+" of "+where, a.Pos(), "the transport has no %s function: it would connect to any host by itself", strings.Join(alt, " or "))
			}
		})
	}
	r.Min(rule, 5)
}

// returnsDial: every connection returned by f comes from a dialing function.
func returnsDial(p *Prog, f *ssa.Function, isDial map[*ssa.Function]bool) bool {
	ok, n := true, 0
	instrs(f, func(in ssa.Instruction) {
		ret, is := in.(*ssa.Return)
		if !is || len(ret.Results) == 0 {
			return
		}
		v := ret.Results[0]
		for {
			if mi, is := v.(*ssa.MakeInterface); is {
				v = mi.X
				continue
			}
			if ci, is := v.(*ssa.ChangeInterface); is {
				v = ci.X
				continue
			}
			break
		}
		if isNilConst(v) {
			return
		}
		n++
		var vs []ssa.Value
		if phi, is := v.(*ssa.Phi); is {
			vs = phi.Edges
		} else {
			vs = []ssa.Value{v}
		}
		for _, v := range vs {
			if mi, is := v.(*ssa.MakeInterface); is {
				v = mi.X
			}
			if isNilConst(v) {
				continue
			}
			ex, is := v.(*ssa.Extract)
			if !is {
				ok = false
				continue
			}
			ci, is := ex.Tuple.(*ssa.Call)
			if !is {
				ok = false
				continue
			}
			g := staticCallee(ci)
			if g == nil || !(isDial[g] || g != f && inPkg(g, "/proxy") && returnsDial(p, g, isDial)) {
				ok = false
			}
		}
	})
	return ok && n > 0
}
