package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C02", Title: "Client certificates required and verified whenever configured",
		Explain: "Typestate dataflow over the configuration code (every TLS configuration installed in a backend with client authentication requires and verifies client certificates and installs a connection verifier), over every connection verifier (a nil verdict only after chain, revocation and ACL decisions), and over the connection handlers (no data before a completed handshake with that configuration).",
		Run:     runC02,
	})
	register(&Check{
		ID: "C03", Title: "Client certificate ACLs match exact identities and fail closed",
		Explain: "Decision-table typestate over the ACL function: each accepting path must have an exact membership test of subject or prefixed SAN; each refusing path must have exhausted all of them; nil certificates are refused when a certificate is required.",
		Run:     runC03,
	})
}

const tlsRequireAndVerify = 4

// cfgRoot looks through Clone.
func cfgRoot(cfg *Term) *Term {
	for i := 0; i < 6 && (cfg.op == "csym" || cfg.op == "call") && cfg.s == "(*crypto/tls.Config).Clone" && len(cfg.args) == 1; i++ {
		cfg = cfg.args[0]
	}
	return cfg
}

func killCfg(c *Ctx, t *Term) {
	for _, f := range []string{"ClientAuth", "VerifyConnection", "InsecureSkipVerify"} {
		for _, v := range []string{":ok", ":bad"} {
			c.St.Kill("cfg:" + f + ":" + strconv.Itoa(t.id) + v)
		}
	}
}

// sameBackend: the value is a mere copy of the variable that already holds
// the current backend (a captured variable or local cell), not a new element.
func sameBackend(c *Ctx, v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	switch u.X.(type) {
	case *ssa.IndexAddr:
		return false
	}
	return true
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

func runC02(r *Report, p *Prog) {
	const cfgRule = "mtls-config"
	r.Rule(cfgRule, "a TLS configuration is installed in a backend only if the backend has no client authentication, or the configuration requires and verifies client certificates and has a connection verifier")
	ca := r.mustField(cfgRule, "proxy", "Backend", "ClientAuth")
	tcF := r.mustField(cfgRule, "proxy", "Backend", "tlsConfig")
	tcQ := r.mustField(cfgRule, "proxy", "Backend", "tlsConfigQUIC")
	if ca == nil || tcF == nil || tcQ == nil {
		return
	}
	isCfgStore := func(in ssa.Instruction) (*types.Var, *ssa.Store) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return nil, nil
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return nil, nil
		}
		fv := fieldVar(fa.X.Type(), fa.Field)
		if fv == tcF || fv == tcQ {
			return fv, st
		}
		return nil, nil
	}
	var verifiers = map[*ssa.Function]bool{}
	entries := map[*ssa.Function]bool{}
	for _, fv := range []*types.Var{tcF, tcQ} {
		for _, s := range p.idx.stores[fv] {
			entries[rootCaller(p, s.Parent(), func(f *ssa.Function) bool {
				return has(f, func(in ssa.Instruction) bool { return touchesField(in, ca) })
			})] = true
		}
	}
	for fn := range entries {
		r.Walk(&Rule{
			Name: cfgRule,
			Interesting: func(in ssa.Instruction) bool {
				if _, s := isCfgStore(in); s != nil {
					return true
				}
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						fv := fieldVar(fa.X.Type(), fa.Field)
						return fv.Pkg() != nil && fv.Pkg().Path() == "crypto/tls" && oneOf(fv.Name(), "ClientAuth", "VerifyConnection", "ClientCAs", "InsecureSkipVerify", "GetConfigForClient")
					}
				}
				return false
			},
			NoGo:     true,
			Keep:     func(t *Term) bool { return t.op == "isnil" && t.args[0].op == "field" && t.args[0].fv == ca },
			OnBranch: func(c *Ctx, cond *Term, val bool) { splitNil(c, cond, val, ca) },
			OnCall: func(c *CallCtx) {
				if c.Res != nil && c.Name != "(*crypto/tls.Config).Clone" {
					killCfg(&c.Ctx, c.Res)
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if v, ok := in.(ssa.Value); ok && isPtrTo(v.Type(), modPath+"/proxy.Backend") {
					switch in.(type) {
					case *ssa.UnOp, *ssa.Extract, *ssa.Lookup, *ssa.Field:
						if l := innermost(in.Parent(), in.Block()); l != nil && !sameBackend(c, v) {
							c.St.Kill("nil:" + ca.Name())
							c.St.Kill("set:" + ca.Name())
						}
					}
				}
				if a, ok := in.(*ssa.Alloc); ok {
					killCfg(c, c.W.T.mk(&Term{op: "alloc", s: a.Name(), frame: c.Fr.id, v: a, typ: a.Type()}))
				}
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						f := fieldVar(fa.X.Type(), fa.Field)
						if f != nil && f.Pkg() != nil && f.Pkg().Path() == "crypto/tls" && oneOf(f.Name(), "ClientAuth", "VerifyConnection", "InsecureSkipVerify") {
							root := cfgRoot(c.V(fa.X))
							v := c.V(s.Val)
							lbl := "cfg:" + f.Name() + ":" + strconv.Itoa(root.id)
							c.St.Kill(lbl + ":ok")
							c.St.Kill(lbl + ":bad")
							ok := false
							switch f.Name() {
							case "ClientAuth":
								k, isK := constInt(v)
								ok = isK && k == tlsRequireAndVerify
							case "VerifyConnection":
								if (v.op == "closure" || v.op == "func") && v.fn != nil {
									verifiers[v.fn] = true
									ok = true
								} else {
									ok = c.St.Nil(v) == no
								}
							case "InsecureSkipVerify":
								ok = c.St.Bool(v) == no
							}
							if ok {
								c.St.Event(lbl+":ok", nil, nil, nil)
							} else {
								c.St.Event(lbl+":bad", nil, nil, nil)
							}
						}
					}
				}
				fv, s := isCfgStore(in)
				if s == nil {
					return
				}
				fa := s.Addr.(*ssa.FieldAddr)
				be := c.V(fa.X)
				caT := c.St.Load(c.W.T.field(be, ca), ca.Type())
				none := c.St.Nil(caT) == yes || len(c.St.Has("nil:"+ca.Name())) > 0
				root := strconv.Itoa(cfgRoot(c.V(s.Val)).id)
				where := fv.Name() + " in " + fnLabel(c.Fr.Fn)
				if none {
					r.Assert(true, cfgRule, where+" without client auth", in.Pos(), "")
					return
				}
				got := func(f, v string) bool { return len(c.St.Has("cfg:"+f+":"+root+":"+v)) > 0 }
				r.Assert(got("ClientAuth", "ok") && !got("ClientAuth", "bad"), cfgRule, where+": ClientAuth", in.Pos(), "%s is installed for a backend with client authentication without tls.RequireAndVerifyClientCert", fv.Name())
				r.Assert(got("VerifyConnection", "ok") && !got("VerifyConnection", "bad"), cfgRule, where+": VerifyConnection", in.Pos(), "%s is installed for a backend with client authentication without a connection verifier", fv.Name())
				r.Assert(!got("InsecureSkipVerify", "bad"), cfgRule, where+": verification on", in.Pos(), "InsecureSkipVerify is set")
			},
		}, fn, nil)
	}
	r.Min(cfgRule, 5)

	// every store to a ClientAuth-like tls.Config field anywhere
	clientAuthF := p.extField("crypto/tls", "Config", "ClientAuth")
	for _, s := range p.idx.stores[clientAuthF] {
		v, ok := ssaConstInt(s.Val)
		r.Assert(ok && v == tlsRequireAndVerify, "mtls-clientauth-value", "ClientAuth in "+fnLabel(s.Parent()), s.Pos(), "tls.Config.ClientAuth is set to something other than RequireAndVerifyClientCert")
	}
	r.Min("mtls-clientauth-value", 1)

	// the verifier stored in a tls.Config
	vcF := p.extField("crypto/tls", "Config", "VerifyConnection")
	for _, s := range p.idx.stores[vcF] {
		if f := resolveFuncValue(s.Val); f != nil {
			if hasDeepCalls(p, f, func(in ssa.Instruction) bool { return touchesField(in, ca) }) {
				verifiers[f] = true
			}
		}
	}
	for f := range verifiers {
		checkVerifier(r, p, f, ca)
	}
	r.AssertAt(len(verifiers) > 0, "mtls-verifier", "connection verifiers", "-", "no connection verifier found")

	// CA pools come from the backend's own root list
	const roots = "mtls-roots"
	r.Rule(roots, "client CAs are added only from the backend's configured root list")
	poolF := p.extField("crypto/tls", "Config", "ClientCAs")
	rootsF := p.Field("proxy", "ClientAuth", "RootCAs")
	for _, s := range p.idx.stores[poolF] {
		o := p.Origins(s.Val, FlowOpts{})
		r.Assert(o.HasCall("crypto/x509.NewCertPool") && !o.HasCall("crypto/x509.SystemCertPool"), roots, "client CA pool in "+fnLabel(s.Parent()), s.Pos(), "the client CA pool is not a fresh pool")
	}
	_ = rootsF
	r.Min(roots, 1)

	checkHandshakeGate(r, p, tcF)
	if p.Variant.Tags == "" {
		checkQUICConfig(r, p, tcQ)
	}
}

// rootCaller climbs from a helper to the function that satisfies pred.
func rootCaller(p *Prog, fn *ssa.Function, pred func(*ssa.Function) bool) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	f := fn
	for f != nil && !seen[f] {
		seen[f] = true
		if pred(f) {
			return f
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		cs := p.idx.callers[f]
		if len(cs) == 0 {
			break
		}
		f = cs[0].Parent()
	}
	return fn
}

func ssaConstInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	return c.Int64(), true
}

// checkVerifier decides when a VerifyConnection callback may return nil.
func checkVerifier(r *Report, p *Prog, fn *ssa.Function, ca *types.Var) {
	const rule = "mtls-verifier"
	r.Rule(rule, "a connection verifier returns nil only when the connection's backend needs no client certificate, or the peer presented a verified chain, revocation was checked (local PKI or OCSP) without error, and the ACL authorized the leaf certificate")
	authName, revName, ocspName := pn("(*Backend).authorize"), qn("proxy/internal/pki", "(*PKIManager).IsRevoked"), qn("proxy/internal/ocspcache", "(*OCSPCache).VerifyChains")
	backendName := pn("(*Proxy).backend")
	for _, n := range []string{authName, revName, ocspName, backendName} {
		if len(p.callSites(n)) == 0 {
			r.Missing(rule, n)
		}
	}
	peer := p.extField("crypto/tls", "ConnectionState", "PeerCertificates")
	chains := p.extField("crypto/tls", "ConnectionState", "VerifiedChains")
	ocspSrv := p.extField("crypto/x509", "Certificate", "OCSPServer")
	serial := p.extField("crypto/x509", "Certificate", "SerialNumber")
	aki := p.extField("crypto/x509", "Certificate", "AuthorityKeyId")
	pkiMap := p.Field("proxy", "Backend", "pkiMap")
	isLeaf := func(t *Term) bool {
		return t.op == "index" && mentionsField(t.args[0], peer) && t.args[1].op == "const" && t.args[1].s == "0"
	}
	mentionsLeaf := func(t *Term) bool { return t.mentions(isLeaf) }
	r.Walk(&Rule{
		Name: rule,
		Interesting: func(in ssa.Instruction) bool {
			return isCall(in, authName, revName, ocspName, backendName) || touchesField(in, ca) || touchesField(in, peer) || touchesField(in, chains)
		},
		NoInline: func(f *ssa.Function) bool { return oneOf(funcName(f), authName, revName, ocspName, backendName) },
		Keep: func(t *Term) bool {
			return mentionsField(t, ca) || mentionsField(t, peer) || mentionsField(t, chains) || mentionsField(t, pkiMap) || mentionsField(t, ocspSrv)
		},
		OnCall: func(c *CallCtx) {
			switch c.Name {
			case backendName:
				ok := len(c.Args) >= 3 && c.Args[1].mentions(func(t *Term) bool { return t.op == "field" && t.fv.Name() == "ServerName" })
				r.Assert(ok, rule, "backend of the handshake in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the verifier's backend is not looked up from the connection's server name")
				c.St.Event("backend", c.Res, c.Args, c.In)
			case authName:
				ok := len(c.Args) == 2 && isLeaf(c.Args[1])
				r.Assert(ok, rule, "ACL decision is about the leaf certificate", c.In.Pos(), "authorize is called with %v, not with the first peer certificate", c.Args[1])
				if ok {
					c.St.Event("acl", c.Res, c.Args, c.In)
				}
			case revName:
				ok := len(c.Args) == 2 && mentionsLeaf(c.Args[1]) && mentionsField(c.Args[1], serial)
				r.Assert(ok, rule, "PKI revocation is about the leaf certificate", c.In.Pos(), "IsRevoked is called with %v", c.Args[1])
				okm := mentionsField(c.Args[0], pkiMap) && mentionsField(c.Args[0], aki)
				r.Assert(okm, rule, "PKI revocation asks the issuing PKI", c.In.Pos(), "IsRevoked is called on %v", c.Args[0])
				if ok && okm {
					c.St.Event("revoked", c.Res, c.Args, c.In)
				}
			case ocspName:
				ok := len(c.Args) == 3 && mentionsField(c.Args[1], chains)
				r.Assert(ok, rule, "OCSP verification covers the verified chains", c.In.Pos(), "VerifyChains is called with %v", c.Args)
				if ok {
					c.St.Event("ocsp", c.Res, c.Args, c.In)
				}
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != fn || len(rets) != 1 {
				return
			}
			st := c.St
			nz := st.Nil(rets[0])
			if nz == no {
				return
			}
			// returning another verified error result directly
			if nz == unknown {
				// "return be.authorize(cert)": nil exactly when the ACL says so
				if rets[0].op == "csym" && rets[0].s == authName {
					s2 := st.clone()
					if s2.Assume(s2.isNilTerm(rets[0]), true) {
						st = s2
					}
				}
			}
			be := st.OKNil("backend")
			if !r.Assert(be != nil, rule, "nil verdict: backend known", in.Pos(), "the verifier accepts although the backend lookup did not succeed") {
				return
			}
			beT := c.W.T.extract(be.Res, 0, nil)
			noAuth := false
			for k, v := range st.facts {
				if v && k.op == "isnil" && k.args[0].op == "field" && k.args[0].fv == ca && k.args[0].mentions(func(t *Term) bool { return t == be.Res || t == beT }) {
					noAuth = true
				}
			}
			if noAuth {
				r.Assert(true, rule, "nil verdict: no client authentication", in.Pos(), "")
				return
			}
			r.Assert(nonEmpty(st, peer), rule, "nil verdict: certificate present", in.Pos(), "the verifier accepts without having established that the peer sent a certificate")
			r.Assert(nonEmpty(st, chains), rule, "nil verdict: chain verified", in.Pos(), "the verifier accepts without having established that the certificate chain was verified")
			rev := revocationDecided(st, pkiMap, aki, ocspSrv, mentionsLeaf)
			r.Assert(rev, rule, "nil verdict: revocation checked", in.Pos(), "the verifier accepts on a path where the certificate was neither found unrevoked by its PKI nor verified with OCSP")
			r.Assert(st.OKNil("acl") != nil, rule, "nil verdict: ACL authorized", in.Pos(), "the verifier accepts on a path where the client ACL did not authorize the certificate")
		},
	}, fn, nil)
	r.Min(rule, 8)
}

// revocationDecided: the leaf was found unrevoked by its PKI, or it has none
// and was verified with OCSP or names no OCSP server.
func revocationDecided(st *State, pkiMap, aki, ocspSrv *types.Var, mentionsLeaf tp) bool {
	if st.OKFalse("revoked") != nil {
		return true
	}
	notPKI := false
	for k, v := range st.facts {
		if k.op == "lookupok" && !v && mentionsField(k, pkiMap) && mentionsField(k, aki) && mentionsLeaf(k) {
			notPKI = true
		}
		if k.op == "isnil" && v && k.args[0].op == "lookupv" && mentionsField(k, pkiMap) && mentionsField(k, aki) {
			notPKI = true
		}
	}
	return notPKI && (st.OKNil("ocsp") != nil || emptyField(st, ocspSrv))
}

// nonEmpty: the path established len(<field>) != 0.
func nonEmpty(st *State, fv *types.Var) bool {
	for k, v := range st.facts {
		if k.op != "bin" {
			continue
		}
		l, z := k.args[0], k.args[1]
		if k.s == "==" && !v && (isLen(l) && mentionsField(l, fv) && isZeroConst(z) || isLen(z) && mentionsField(z, fv) && isZeroConst(l)) {
			return true
		}
		if k.s == "<" && v && isZeroConst(l) && isLen(z) && mentionsField(z, fv) {
			return true
		}
		if k.s == "<" && !v && isLen(l) && mentionsField(l, fv) { // !(len < k), k>=1
			if i, ok := constInt(z); ok && i >= 1 {
				return true
			}
		}
	}
	for k, c := range st.eqs {
		if isLen(k) && mentionsField(k, fv) && c.s != "0" {
			return true
		}
	}
	return false
}

// emptyField: the path established that the slice field is empty.
func emptyField(st *State, fv *types.Var) bool {
	for k, v := range st.facts {
		if k.op == "isnil" && v && k.args[0].op == "field" && k.args[0].fv == fv {
			return true
		}
		if k.op != "bin" {
			continue
		}
		l, z := k.args[0], k.args[1]
		if k.s == "==" && v && (isLen(l) && mentionsField(l, fv) && isZeroConst(z) || isLen(z) && mentionsField(z, fv) && isZeroConst(l)) {
			return true
		}
		if k.s == "<" && !v && isZeroConst(l) && isLen(z) && mentionsField(z, fv) {
			return true
		}
		if k.s == "<" && v && isLen(l) && mentionsField(l, fv) && z.op == "const" && z.s == "1" {
			return true
		}
	}
	return false
}

// checkHandshakeGate: over TCP, data flows only after the handshake with the
// backend's own TLS configuration completed, except for passthrough.
func checkHandshakeGate(r *Report, p *Prog, tcF *types.Var) {
	const rule = "mtls-handshake"
	r.Rule(rule, "over TCP no dial, hand-off or copy happens before the TLS handshake with the backend's own configuration succeeded, unless the backend is in TLS passthrough mode")
	mode := r.mustField(rule, "proxy", "Backend", "Mode")
	if mode == nil {
		return
	}
	for _, e := range p.acceptHandlers() {
		isTCP := len(e.Params) > 0 && strings.HasSuffix(e.Params[len(e.Params)-1].Type().String(), "netw.Conn")
		if !isTCP {
			continue
		}
		isHS := func(n string) bool {
			return oneOf(n, "(*crypto/tls.Conn).HandshakeContext", "(*crypto/tls.Conn).Handshake")
		}
		r.Walk(&Rule{
			Name: rule,
			Interesting: func(in ssa.Instruction) bool {
				return backendSink(in) != "" || isCall(in, "(*crypto/tls.Conn).HandshakeContext", "(*crypto/tls.Conn).Handshake", "crypto/tls.Server")
			},
			Keep: func(t *Term) bool {
				return t.op == "bin" && t.s == "==" && mentionsField(t, mode)
			},
			OnCall: func(c *CallCtx) {
				if isHS(c.Name) {
					own := c.Args[0].mentions(func(t *Term) bool {
						return (t.op == "csym" || t.op == "call") && t.s == "crypto/tls.Server" && len(t.args) == 2 && mentionsField(t.args[1], tcF)
					})
					if own {
						c.St.Event("hs", c.Res, c.Args, c.In)
					}
					return
				}
				if s := backendSink(c.In); s != "" {
					r.Assert(c.St.OKNil("hs") != nil || passthrough(c.St, mode), rule, s+" in "+fnLabel(c.Fr.Fn), c.In.Pos(), "%s reached without a completed handshake using the backend's TLS configuration: %s", s, c.Trace(c.In))
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if s := backendSink(in); s != "" {
					r.Assert(c.St.OKNil("hs") != nil || passthrough(c.St, mode), rule, s+" in "+fnLabel(c.Fr.Fn), in.Pos(), "%s reached without a completed handshake using the backend's TLS configuration: %s", s, c.Trace(in))
				}
			},
		}, e, nil)
	}
	r.Min(rule, 2)
}

func passthrough(st *State, mode *types.Var) bool {
	for k, c := range st.eqs {
		if k.op == "field" && k.fv == mode {
			if s, ok := constString(c); ok && s == "TLSPASSTHROUGH" {
				return true
			}
		}
	}
	for k, v := range st.facts {
		if v && k.op == "bin" && k.s == "==" && mentionsField(k, mode) {
			for _, a := range k.args {
				if s, ok := constString(a); ok && s == "TLSPASSTHROUGH" {
					return true
				}
			}
		}
	}
	return false
}

// checkQUICConfig: the QUIC listener selects the backend's QUIC configuration
// and only hands out connections whose handshake is complete.
func checkQUICConfig(r *Report, p *Prog, tcQ *types.Var) {
	const rule = "mtls-quic"
	r.Rule(rule, "the QUIC listener serves a client only with the QUIC TLS configuration of a backend and only after the handshake")
	gcF := p.extField("crypto/tls", "Config", "GetConfigForClient")
	n := 0
	for _, s := range p.idx.stores[gcF] {
		f := resolveFuncValue(s.Val)
		if f == nil {
			r.Assert(false, rule, "GetConfigForClient in "+fnLabel(s.Parent()), s.Pos(), "the configuration callback cannot be resolved")
			continue
		}
		n++
		r.Walk(&Rule{
			Name:        rule,
			Interesting: func(in ssa.Instruction) bool { return touchesField(in, tcQ) },
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if in.Parent() != f || len(rets) != 2 {
					return
				}
				errT := rets[1]
				if c.St.Nil(errT) == no {
					return
				}
				r.Assert(rets[0].op == "field" && rets[0].fv == tcQ || mentionsField(rets[0], tcQ) || c.St.Nil(errT) == unknown && mentionsField(rets[0], tcQ), rule, "configuration chosen for a QUIC client", in.Pos(), "the QUIC listener may serve a client with %v, which is not a backend's QUIC TLS configuration", rets[0])
			},
		}, f, nil)
	}
	r.AssertAt(n > 0, rule, "QUIC configuration callback", "-", "no GetConfigForClient callback installed: the QUIC listener would accept any client with its base configuration")
	for _, s := range p.callSitesSuffix("quic-go.Transport).ListenEarly", "quic-go.ListenAddrEarly", "quic-go.ListenEarly") {
		r.Assert(false, rule, "early listener in "+fnLabel(s.Parent()), s.Pos(), "the QUIC listener accepts connections before their handshake is complete")
	}
	r.Min(rule, 2)
}

func runC03(r *Report, p *Prog) {
	const rule = "acl-decision"
	r.Rule(rule, "the client ACL function accepts only without ACL or after an exact membership test of the subject or of a DNS:/EMAIL:/URI: name of the certificate came out true, and refuses only after all of them came out false")
	aclF := r.mustField(rule, "proxy", "ClientAuth", "ACL")
	caF := r.mustField(rule, "proxy", "Backend", "ClientAuth")
	if aclF == nil || caF == nil {
		return
	}
	fn := r.mustFunc(rule, "proxy", "(*Backend).authorize", func(f *ssa.Function) bool {
		return f.Signature.Results().Len() == 1 && has(f, func(in ssa.Instruction) bool { return touchesField(in, aclF) }) && isErrorType(f.Signature.Results().At(0).Type())
	})
	if fn == nil {
		return
	}
	// kinds of acceptable tests
	kindOf := func(t *Term) string {
		// t: the value looked for in the ACL
		str := t
		prefix := ""
		if str.op == "bin" && str.s == "+" {
			if s, ok := constString(str.args[0]); ok {
				prefix = s
				str = str.args[1]
			}
		}
		fld := func(name string) bool {
			return str.mentions(func(x *Term) bool {
				return x.op == "field" && x.fv != nil && x.fv.Name() == name && x.fv.Pkg() != nil && x.fv.Pkg().Path() == "crypto/x509"
			})
		}
		isStr := func() bool { return (str.op == "call" || str.op == "csym") && strings.HasSuffix(str.s, ").String") }
		switch {
		case fld("Subject") && str.s == "(crypto/x509/pkix.Name).String" && (prefix == "" || prefix == "SUBJECT:"):
			return "SUBJECT"
		case prefix == "DNS:" && fld("DNSNames") && (str.op == "index" || str.op == "lookupv" || str.op == "extract"):
			return "DNS"
		case prefix == "EMAIL:" && fld("EmailAddresses") && (str.op == "index" || str.op == "extract"):
			return "EMAIL"
		case prefix == "URI:" && fld("URIs") && isStr():
			return "URI"
		}
		return ""
	}
	mentionsACL := func(t *Term) bool { return mentionsField(t, aclF) }
	// names collected in a list first
	cands, candsOK := aclCandidates(p, fn)
	isCand := func(t *Term) bool {
		return len(cands) > 0 && t.op == "index" && isCandList(t.args[0])
	}
	// an exact test of an ACL entry: slices.Contains(acl, x) or entry == x
	classify := func(cond *Term) (string, bool) {
		if cond.op == "call" && strings.HasPrefix(cond.s, "slices.Contains") && len(cond.args) == 2 && mentionsACL(cond.args[0]) {
			if isCand(cond.args[1]) {
				return "LIST", true
			}
			return kindOf(cond.args[1]), true
		}
		if cond.op == "bin" && cond.s == "==" {
			a, b := cond.args[0], cond.args[1]
			isEntry := func(t *Term) bool { return (t.op == "index" || t.op == "lookupv") && mentionsACL(t) }
			if isEntry(a) && isCand(b) || isEntry(b) && isCand(a) {
				return "LIST", true
			}
			if isEntry(a) && !isConstTerm(b) {
				return kindOf(b), true
			}
			if isEntry(b) && !isConstTerm(a) {
				return kindOf(a), true
			}
		}
		return "", false
	}
	san := map[string]string{"DNS": "DNSNames", "EMAIL": "EmailAddresses", "URI": "URIs"}
	var qs []*quant
	for k, f := range san {
		fv := p.extField("crypto/x509", "Certificate", f)
		kk := k
		qs = append(qs, &quant{L: k, IsList: func(t *Term) bool { return t.op == "field" && t.fv == fv }, IsTest: func(t *Term) bool {
			kind, ok := classify(t)
			return ok && kind == kk
		}})
	}
	if len(cands) > 0 {
		qs = append(qs, &quant{L: "LIST", IsList: isCandList, IsTest: func(t *Term) bool {
			kind, ok := classify(t)
			return ok && kind == "LIST"
		}})
	}
	r.Walk(&Rule{
		Name:      rule,
		InlineAll: true,
		Keep:      func(t *Term) bool { return mentionsACL(t) },
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			for cond.op == "not" {
				cond, val = cond.args[0], !val
			}
			if cond.op == "isnil" && val && cond.args[0].op == "field" && (cond.args[0].fv == aclF || cond.args[0].fv == caF) {
				c.St.Event("no-acl", nil, nil, nil)
			}
			if cond.op == "isnil" && val && cond.args[0].op == "param" {
				c.St.Event("no-cert", nil, nil, nil)
			}
			if kind, ok := classify(cond); ok {
				if val {
					r.Assert(kind != "", rule, "recognised ACL test", posOfCtx(c), "an ACL entry is compared with %v, which is not the exact subject or a prefixed name of the certificate", cond)
					if kind != "" {
						c.St.Event("match", nil, nil, nil)
					}
				} else if kind == "SUBJECT" {
					c.St.Event("subject-no", nil, nil, nil)
				}
			}
			if isSubjectEmpty(cond) && val {
				c.St.Event("subject-no", nil, nil, nil)
			}
			for _, q := range qs {
				q.branch(c, cond, val)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != fn {
				return
			}
			st := c.St
			noACL := len(st.Has("no-acl")) > 0
			certNil := len(st.Has("no-cert")) > 0
			switch st.Nil(rets[0]) {
			case yes:
				r.Assert(noACL || len(st.Has("match")) > 0, rule, "accept", in.Pos(), "a certificate is authorized although no ACL entry was found equal to one of its names")
			case no:
				list := candsOK && len(st.Has("LIST-done")) > 0 && len(st.Has("LIST-open")) == 0
				all := len(st.Has("subject-no")) > 0 || list && cands["SUBJECT"]
				for k := range san {
					all = all && (list && cands[k] || len(st.Has(k+"-done")) > 0 && len(st.Has(k+"-open")) == 0)
				}
				r.Assert(certNil || !noACL && all && len(st.Has("match")) == 0, rule, "refuse", in.Pos(), "a certificate is refused before all of its names were compared with the ACL")
			default:
				r.Assert(false, rule, "verdict is decided", in.Pos(), "undecided verdict %v", rets[0])
			}
		},
	}, fn, nil)
	r.Min(rule, 4)

	const use = "acl-immutable"
	r.Rule(use, "the ACL is never modified or replaced by the program")
	n := 0
	for _, s := range p.idx.stores[aclF] {
		n++
		r.Assert(false, use, "ACL written in "+fnLabel(s.Parent()), s.Pos(), "the client ACL is overwritten")
	}
	r.AssertAt(true, use, "client ACL writers", "-", "")
}

func isCandList(t *Term) bool {
	if t.op == "nil" {
		return true // nothing was collected
	}
	if t.typ == nil || t.typ.String() != "[]string" {
		return false
	}
	return !t.mentions(func(x *Term) bool {
		return x.op == "field" && x.fv != nil && (x.fv.Name() == "ACL" || x.fv.Pkg() != nil && x.fv.Pkg().Path() == "crypto/x509")
	})
}

// aclCandidates: the kinds of names of the certificate that are collected in
// a list, and whether all are, if nothing else is.
func aclCandidates(p *Prog, fn *ssa.Function) (map[string]bool, bool) {
	kinds, all := map[string]bool{}, true
	fns := []*ssa.Function{fn}
	for _, g := range staticCallees(fn) {
		if inPkg(g, "/proxy") {
			fns = append(fns, g)
		}
	}
	for _, f := range fns {
		instrs(f, func(in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok || !isBuiltin(call, "append") || call.Type().String() != "[]string" {
				return
			}
			sl, ok := call.Call.Args[1].(*ssa.Slice)
			if !ok {
				all = false
				kinds["?"] = true
				return
			}
			for _, u := range *sl.X.Referrers() {
				ia, ok := u.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, v := range *ia.Referrers() {
					st, ok := v.(*ssa.Store)
					if !ok {
						continue
					}
					k := candKind(p, st.Val)
					kinds[k] = true
					if l := innermost(f, in.Block()); l != nil {
						all = all && l.runsToEnd() && l.everyIteration(func(x ssa.Instruction) bool { return x == in })
					} else {
						all = all && k == "SUBJECT"
					}
				}
			}
		})
	}
	if kinds["?"] || kinds[""] {
		return nil, false
	}
	return kinds, all
}

func candKind(p *Prog, v ssa.Value) string {
	prefix := ""
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		prefix, _ = ssaConstString(b.X)
		v = b.Y
	}
	o := p.Origins(v, FlowOpts{Base: true, NoCallers: true})
	is := func(name string) bool {
		for fv := range o.Fields {
			if fv.Name() == name && fv.Pkg() != nil && fv.Pkg().Path() == "crypto/x509" {
				return true
			}
		}
		return false
	}
	plain := len(o.Calls) == 0
	switch {
	case oneOf(prefix, "", "SUBJECT:") && is("Subject") && o.Calls["(crypto/x509/pkix.Name).String"]:
		return "SUBJECT"
	case prefix == "DNS:" && is("DNSNames") && plain:
		return "DNS"
	case prefix == "EMAIL:" && is("EmailAddresses") && plain:
		return "EMAIL"
	case prefix == "URI:" && is("URIs") && o.Calls["(*net/url.URL).String"]:
		return "URI"
	}
	return ""
}

func isSubjectEmpty(cond *Term) bool {
	if cond.op != "bin" || cond.s != "==" {
		return false
	}
	for i := 0; i < 2; i++ {
		a, b := cond.args[i], cond.args[1-i]
		if s, ok := constString(a); ok && s == "" && b.mentions(func(x *Term) bool { return x.s == "(crypto/x509/pkix.Name).String" }) {
			return true
		}
		if isZeroConst(a) && isLen(b) && b.mentions(func(x *Term) bool { return x.s == "(crypto/x509/pkix.Name).String" }) {
			return true
		}
	}
	return false
}

func isConstTerm(t *Term) bool { return t.op == "const" }
