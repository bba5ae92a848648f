package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C29", Title: "TLS is served with safe parameters and the right certificates",
		Explain: "Effect rules over every store to a tls.Config, and path-sensitive walks of the functions that make, select and use server configurations and certificates, and of the automatic revocation of certificates.",
		Run:     runC29,
	})
}

func runC29(r *Report, p *Prog) {
	tlsParams(r, p)
	tlsServed(r, p)
	tlsCerts(r, p)
	acmeRevoke(r, p)
}

// storesTo lists the stores to a field in the code that is not for tests.
func (p *Prog) storesTo(fv *types.Var) []*ssa.Store {
	var out []*ssa.Store
	for _, s := range p.idx.stores[fv] {
		if !inTest(p, s) {
			out = append(out, s)
		}
	}
	return out
}

func tlsParams(r *Report, p *Prog) {
	const rule = "tls-params"
	r.Rule(rule, "no tls.Config is given a minimum or a maximum version below TLS 1.2, an insecure cipher suite, a writer for its secrets, another source of randomness, or fixed session ticket keys")
	f := func(n string) *types.Var {
		v := p.extField("crypto/tls", "Config", n)
		if v == nil {
			r.Missing(rule, "tls.Config."+n)
		}
		return v
	}
	lowest := func(v ssa.Value, zeroOK bool) (bool, int64) {
		o := p.Origins(v, FlowOpts{})
		ok := len(o.Ints) > 0 && len(o.Params) == 0 && len(o.Fields) == 0
		low := int64(0)
		for i := range o.Ints {
			if i < 0x303 && !(zeroOK && i == 0) {
				ok, low = false, i
			}
		}
		return ok, low
	}
	n := 0
	for _, s := range p.storesTo(f("MinVersion")) {
		n++
		ok, low := lowest(s.Val, false)
		r.AssertAt(ok, rule, "minimum version in "+fnLabel(s.Parent()), p.Pos(s.Pos()), "the minimum TLS version can be %#x", low)
	}
	r.AssertAt(n > 0, rule, "minimum versions", "-", "no minimum TLS version is set anywhere")
	for _, s := range p.storesTo(f("MaxVersion")) {
		ok, low := lowest(s.Val, true)
		r.AssertAt(ok, rule, "maximum version in "+fnLabel(s.Parent()), p.Pos(s.Pos()), "the maximum TLS version can be %#x", low)
	}
	insecure := map[int64]bool{}
	for _, id := range []int64{0x0005, 0x000a, 0x002f, 0x0035, 0x003c, 0x009c, 0x009d, 0xc007, 0xc011, 0xc012, 0xc023, 0xc027} {
		insecure[id] = true
	}
	for _, s := range p.storesTo(f("CipherSuites")) {
		fn := s.Parent()
		bad := int64(0)
		for g := range p.reachable(fn) {
			instrs(g, func(in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Type().Underlying() != types.Typ[types.Uint16] {
					return
				}
				if k, ok := constant.Int64Val(c.Value); ok && insecure[k] {
					bad = k
				}
			})
		}
		r.AssertAt(bad == 0, rule, "cipher suites in "+fnLabel(fn), p.Pos(s.Pos()), "the insecure cipher suite %#x is enabled", bad)
	}
	for _, n := range []string{"KeyLogWriter", "Rand", "SessionTicketKey", "Time"} {
		for _, s := range p.storesTo(f(n)) {
			r.AssertAt(isNilConst(s.Val), rule, n+" in "+fnLabel(s.Parent()), p.Pos(s.Pos()), "%s is set in a tls.Config", n)
		}
	}
	for _, ci := range p.prodSites(func(n string, _ ssa.CallInstruction) bool { return n == "(*crypto/tls.Config).SetSessionTicketKeys" }) {
		o := p.Origins(ci.Common().Args[1], FlowOpts{})
		r.AssertAt(o.Calls["crypto/rand.Read"] || o.Calls["io.ReadFull"], rule, "session ticket keys in "+fnLabel(ci.Parent()), p.Pos(ci.Pos()), "the session ticket keys are not random")
	}
}

// funcsOf lists the functions that a function value can be, nil among them if
// it can be an unknown one.
func funcsOf(v ssa.Value) []*ssa.Function {
	known := true
	out := funcValues(v, map[ssa.Value]bool{}, &known)
	if !known {
		out = append(out, nil)
	}
	return out
}

// hsConfig are the calls that use a server configuration, and the position of
// the configuration.
func hsConfig(ci ssa.CallInstruction) int {
	switch n := calleeName(ci); {
	case oneOf(n, "crypto/tls.Server", "crypto/tls.NewListener"):
		return 1
	case n == "crypto/tls.Listen":
		return 2
	case strings.Contains(n, "QUIC") && strings.Contains(n, "Listen") || strings.Contains(n, "quic-go.") && strings.Contains(n, "Listen"):
		for i, a := range ci.Common().Args {
			if isPtrTo(a.Type(), "crypto/tls.Config") {
				return i
			}
		}
	}
	return -1
}

func tlsServed(r *Report, p *Prog) {
	const rule, alpn = "tls-config", "alpn"
	r.Rule(rule, "every configuration that a server handshake uses is that of a backend or has the base configuration's minimum version; every configuration stored in a backend has the minimum version and gets its certificates from the certificate manager")
	r.Rule(alpn, "HTTP/3 is not offered on TCP connections; a handshake that does not use the configuration of a backend can negotiate the ACME protocol only")
	tcpF := r.mustField(rule, "proxy", "Backend", "tlsConfig")
	quicF := r.mustField(rule, "proxy", "Backend", "tlsConfigQUIC")
	ext := map[string]*types.Var{}
	for _, n := range []string{"MinVersion", "NextProtos", "GetCertificate"} {
		ext[n] = p.extField("crypto/tls", "Config", n)
		if ext[n] == nil {
			r.Missing(rule, "tls.Config."+n)
			return
		}
	}
	if tcpF == nil || quicF == nil {
		return
	}
	isQuicOnly := func(t *Term) bool { return t.op == "global" && strings.HasSuffix(t.s, "quicOnlyProtocols") }
	// the closure keeps no protocol of the table
	filters := map[*ssa.Function]bool{}
	isFilter := func(f *ssa.Function) bool {
		if f == nil || len(f.Params) != 1 || !isBoolResult(f) {
			return false
		}
		if v, ok := filters[f]; ok {
			return v
		}
		ok, n := true, 0
		r.Walk(&Rule{
			Name: alpn, InlineAll: true,
			Keep: func(t *Term) bool { return t.mentions(isQuicOnly) },
			OnReturn: func(c *Ctx, rt []*Term, _ *ssa.Return) {
				if c.Fr.Fn != f {
					return
				}
				n++
				look := func(t *Term) bool {
					return (t.op == "lookup" || t.op == "lookupv" || t.op == "lookupok") && t.args[0].mentions(isQuicOnly) && isParam(f.Params[0])(t.args[1])
				}
				if b := c.St.Bool(rt[0]); b == yes || look(rt[0]) {
					return
				}
				for k, v := range c.St.facts {
					if !v && look(k) {
						return
					}
				}
				ok = false
			},
		}, f, nil)
		filters[f] = ok && n > 0
		return filters[f]
	}
	minOK := func(c *Ctx, t *Term) bool {
		for _, e := range c.St.Has("clone-ok") {
			if e.Res == t {
				return true
			}
		}
		v := c.St.Load(c.W.T.field(t, ext["MinVersion"]), ext["MinVersion"].Type())
		k, ok := constInt(v)
		return ok && k >= 0x303
	}
	load := func(c *Ctx, t *Term, n string) *Term {
		for _, e := range c.St.Has("clone-ok") {
			if e.Res == t {
				if x := c.St.Load(c.W.T.field(t, ext[n]), ext[n].Type()); !x.mentions(func(y *Term) bool { return y == t }) {
					return x
				}
				t = e.Args[0]
			}
		}
		return c.St.Load(c.W.T.field(t, ext[n]), ext[n].Type())
	}
	isSink := func(in ssa.Instruction) bool {
		if st, ok := in.(*ssa.Store); ok {
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			return fv == tcpF || fv == quicF
		}
		ci, ok := in.(ssa.CallInstruction)
		return ok && hsConfig(ci) >= 0
	}
	touches := func(in ssa.Instruction) bool {
		if isSink(in) {
			return true
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				return isPtrTo(fa.X.Type(), "crypto/tls.Config")
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			if cc := ci.Common(); cc.IsInvoke() && cc.Method.Name() == "TLSConfig" {
				return true
			}
			return calleeName(ci) == "(*crypto/tls.Config).Clone"
		}
		return false
	}
	// lists built in a loop: whether what is appended is known not to be in
	// the table
	kept := map[ssa.CallInstruction]tri{}
	isQuicTable := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Name() == "quicOnlyProtocols"
	}
	appendsOne := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isBuiltin(ci, "append") && isStrings(ci.Value().Type()) && has(in.Parent(), func(x ssa.Instruction) bool {
			lk, ok := x.(*ssa.Lookup)
			return ok && isQuicTable(lk.X)
		})
	}
	n := map[string]int{}
	for _, fn := range p.funcsWhere(func(f *ssa.Function) bool {
		return inModule(f) && !isExampleFn(f) && !inTestFile(p, f) && has(f, isSink)
	}) {
		r.Walk(&Rule{
			Name: rule, NoGo: true, KeepRes: true,
			Interesting: func(in ssa.Instruction) bool { return touches(in) || appendsOne(in) },
			Keep:        func(t *Term) bool { return t.mentions(isQuicOnly) },
			KeepPath: func(t *Term) bool {
				return t.op == "field" && (t.fv == ext["MinVersion"] || t.fv == ext["NextProtos"] || t.fv == ext["GetCertificate"])
			},
			OnCall: func(c *CallCtx) {
				if c.Name == "(*crypto/tls.Config).Clone" && minOK(&c.Ctx, c.Args[0]) {
					c.St.Event("clone-ok", c.Res, c.Args[:1], nil)
				}
				if appendsOne(c.In) {
					es, ok := listElems(&c.Ctx, c.Args[1])
					for _, e := range es {
						out := false
						for k, v := range c.St.facts {
							out = out || !v && strings.HasPrefix(k.op, "lookup") && k.args[0].mentions(isQuicOnly) && k.args[1] == e
						}
						ok = ok && out
					}
					switch {
					case !ok:
						kept[c.In] = no
					case kept[c.In] == unknown:
						kept[c.In] = yes
					}
				}
				i := hsConfig(c.In)
				if i < 0 || i >= len(c.Args) {
					return
				}
				t := c.Args[i]
				what := "configuration of " + strings.TrimPrefix(c.Name, modPath+"/") + " in " + fnLabel(c.Fr.Fn)
				if isParam(c.Fr.Fn.Params[len(c.Fr.Fn.Params)-1])(t) && c.Fr.Fn == fn {
					return // the caller's
				}
				tcp := strings.HasPrefix(c.Name, "crypto/tls.")
				if isField(tcpF)(t) || isField(quicF)(t) {
					n["use"]++
					r.Assert(isField(tcpF)(t) == tcp, alpn, what, posOf(c.In), "the configuration for the other transport is used: %v", t)
					return
				}
				n["use"]++
				r.Assert(minOK(&c.Ctx, t), rule, what, posOf(c.In), "the configuration %v does not have the minimum TLS version", t)
				if !tcp {
					return // the configuration of the backend is selected later
				}
				es, ok := listElems(&c.Ctx, load(&c.Ctx, t, "NextProtos"))
				ok = ok && len(es) == 1 && isStr("acme-tls/1")(es[0])
				r.Assert(ok, alpn, what, posOf(c.In), "a handshake that does not use the configuration of a backend can negotiate another protocol than that of ACME: %v", es)
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok || !isSink(in) {
					return
				}
				fv := fieldVar(st.Addr.(*ssa.FieldAddr).X.Type(), st.Addr.(*ssa.FieldAddr).Field)
				t := c.V(st.Val)
				n[fv.Name()]++
				r.Assert(minOK(c, t), rule, fv.Name()+" in "+fnLabel(c.Fr.Fn), in.Pos(), "the configuration %v does not have the minimum TLS version", t)
				if fv == tcpF {
					np := load(c, t, "NextProtos")
					ok := strings.HasPrefix(np.s, "slices.DeleteFunc") && len(np.args) == 2 && isFilter(np.args[1].fn) || c.St.Nil(np) == yes
					if as, built := builtBy(np.v, map[ssa.Value]bool{}); built && len(as) > 0 {
						ok = true
						for _, a := range as {
							ok = ok && kept[a] == yes
						}
					}
					r.Assert(ok, alpn, "protocols of "+fv.Name()+" in "+fnLabel(c.Fr.Fn), in.Pos(), "the protocols offered on TCP are not limited to those that work there: %v", np)
				}
			},
		}, fn, nil)
	}
	r.AssertAt(n["use"] >= 3 && n[tcpF.Name()] > 0 && n[quicF.Name()] > 0, rule, "server configurations", "-", "not found: %v", n)
	r.Min(rule, 4)
	r.Min(alpn, 2)
}

// isTypeTest: whether the certificate manager is that of the ACME client.
func isTypeTest(t *Term) bool {
	return strings.HasPrefix(t.String(), "istype:*golang.org/x/crypto/acme/autocert.Manager(")
}

// builtBy lists the appends that a list, empty at first, is built by.
func builtBy(v ssa.Value, seen map[ssa.Value]bool) (out []ssa.CallInstruction, ok bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.MakeSlice:
		k, isC := ssaConstInt(x.Len)
		return nil, isC && k == 0
	case *ssa.Slice:
		k, isC := ssaConstInt(x.High)
		if isC && k == 0 {
			return nil, true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			as, ok := builtBy(e, seen)
			if !ok {
				return nil, false
			}
			out = append(out, as...)
		}
		return out, true
	case *ssa.Call:
		if isBuiltin(x, "append") {
			as, ok := builtBy(x.Call.Args[0], seen)
			return append(as, x), ok
		}
	}
	return nil, false
}

func isHello(t types.Type) bool { return isPtrTo(t, "crypto/tls.ClientHelloInfo") }

func isCertFunc(sig *types.Signature) bool {
	return sig.Params().Len() == 1 && isHello(sig.Params().At(0).Type()) && sig.Results().Len() == 2 && isPtrTo(sig.Results().At(0).Type(), "crypto/tls.Certificate")
}

func tlsCerts(r *Report, p *Prog) {
	const rule, order, stapled = "cert-selection", "cert-order", "staple"
	r.Rule(rule, "the certificate that is served is that of a configured entry that lists the name that the client asked for, and of no other; else the certificate manager's answer to the same hello")
	r.Rule(order, "a certificate is requested from the certificate authority only when no configured entry lists the name and the terms of service are accepted in the configuration")
	r.Rule(stapled, "the OCSP response stapled to a certificate is a good one for that certificate")
	getF := p.extField("crypto/tls", "Config", "GetCertificate")
	nameF := p.extField("crypto/tls", "ClientHelloInfo", "ServerName")
	stapleF := p.extField("crypto/tls", "Certificate", "OCSPStaple")
	rawF, statusF := p.extField("golang.org/x/crypto/ocsp", "Response", "Raw"), p.extField("golang.org/x/crypto/ocsp", "Response", "Status")
	certsF := r.mustField(rule, "proxy", "Config", "TLSCertificates")
	namesF := r.mustField(rule, "proxy", "TLSCertificate", "ServerNames")
	certF := r.mustField(rule, "proxy", "TLSCertificate", "CertFile")
	keyF := r.mustField(rule, "proxy", "TLSCertificate", "KeyFile")
	tosF := r.mustField(rule, "proxy", "Config", "AcceptTOS")
	defF := r.mustField(rule, "proxy", "Proxy", "defServerName")
	if getF == nil || nameF == nil || stapleF == nil || rawF == nil || statusF == nil || certsF == nil || namesF == nil || certF == nil || keyF == nil || tosF == nil || defF == nil {
		return
	}
	n := map[string]int{}
	for _, s := range p.storesTo(getF) {
		for _, f := range funcsOf(s.Val) {
			if !inPkg(s.Parent(), "/proxy") {
				continue // a manager that makes certificates, not a server
			}
			if f == nil || len(f.Params) == 0 {
				r.AssertAt(false, rule, "certificate callback in "+fnLabel(s.Parent()), p.Pos(s.Pos()), "the callback cannot be resolved")
				continue
			}
			n["callbacks"]++
			hello := isParam(f.Params[len(f.Params)-1])
			asked := func(t *Term) bool { return t.op == "field" && t.fv == nameF && hello(t.args[0]) }
			// the name of the hello, or the default for a hello without one
			isName := func(c *Ctx, t *Term) bool {
				if asked(t) {
					return true
				}
				if !isField(defF)(t) {
					return false
				}
				for k, v := range c.St.facts {
					x, y, eq, ok := sameEq(k, v)
					if ok && eq && (asked(x) && isEmptyStr(y) || asked(y) && isEmptyStr(x)) {
						return true
					}
				}
				return false
			}
			isEntries := isField(certsF)
			outer := &forall{L: "entry", IsList: isEntries}
			isNames := func(t *Term) bool {
				return t.op == "field" && t.fv == namesF && t.args[0].op == "index" && isEntries(t.args[0].args[0])
			}
			inner := &forall{L: "name", IsList: isNames}
			elem := func(t *Term) bool { return t.op == "index" && isNames(t.args[0]) }
			match := func(c *Ctx, t *Term) *Term {
				if isCallTo("path.Match")(t) {
					x := t
					if x.op == "extract" {
						x = x.args[0]
					}
					if elem(x.args[0]) && isName(c, x.args[1]) {
						return x.args[0]
					}
				}
				return nil
			}
			isResponse := func(cf *ssa.Function) bool {
				return cf != nil && cf.Signature.Results().Len() == 2 && isPtrTo(cf.Signature.Results().At(0).Type(), "golang.org/x/crypto/ocsp.Response")
			}
			r.Walk(&Rule{
				Name: rule, InlineAll: true, NoGo: true, KeepRes: true,
				NoInline: isResponse,
				Keep: func(t *Term) bool {
					return t.mentions(func(x *Term) bool {
						return asked(x) || isField(tosF)(x) || isField(statusF)(x)
					}) || isTypeTest(t) || t.op == "bin" && t.s == "<" && t.args[0].s == "range.index" && isZeroConst(t.args[1])
				},
				KeepPath: func(t *Term) bool { return t.op == "field" && t.fv == nameF },
				OnBranch: func(c *Ctx, cond *Term, val bool) {
					if x, y, eq, ok := sameEq(cond, val); ok {
						for i := 0; i < 2; i++ {
							if elem(x) && isName(c, y) {
								if eq {
									c.St.Event("hit", nil, []*Term{x.args[0]}, nil)
								} else {
									c.St.Event("differs", nil, []*Term{x}, nil)
								}
							}
							x, y = y, x
						}
					}
					t, isErr := cond, false
					if cond.op == "isnil" {
						t, isErr = cond.args[0], true
					}
					if e := match(c, t); e != nil {
						switch {
						case !isErr && val:
							c.St.Event("hit", nil, []*Term{e.args[0]}, nil)
						case !val: // no match, or an error
							for _, ev := range c.St.Has("differs") {
								if ev.Args[0] == e {
									inner.dispose(c, e)
								}
							}
						}
					}
					inner.branch(c, cond, val)
					if !val && cond.op == "bin" && cond.s == "<" && isLen(cond.args[1]) && isNames(cond.args[1].args[0]) {
						l := cond.args[1].args[0]
						if inner.okFor(c, func(t *Term) bool { return t == l }) {
							outer.dispose(c, l)
						}
						inner.reset(c)
					}
					outer.branch(c, cond, val)
				},
				OnCall: func(c *CallCtx) {
					switch {
					case c.Name == "crypto/tls.LoadX509KeyPair" || c.Name == "crypto/tls.X509KeyPair":
						n["configured"]++
						a, b := c.Args[0], c.Args[1]
						ok := isField(certF)(a) && isField(keyF)(b) && a.args[0] == b.args[0]
						hit := false
						for _, ev := range c.St.Has("hit") {
							hit = hit || ok && ev.Args[0].args[0] == a.args[0]
						}
						r.Assert(ok && hit, rule, "certificate loaded in "+fnLabel(c.Fr.Fn), posOf(c.In), "the certificate %v is loaded although its entry was not found to list the name that was asked for (%s)", a, c.Trace(c.In))
						if hit {
							c.St.Event("cert", c.Res, nil, c.In)
						}
					case c.Fn == nil && !c.In.Common().IsInvoke() && isCertFunc(c.In.Common().Signature()), c.In.Common().IsInvoke() && isCertFunc(c.In.Common().Signature()):
						n["requested"]++
						r.Assert(len(c.Args) > 0 && hello(c.Args[len(c.Args)-1]), rule, "hello passed on in "+fnLabel(c.Fr.Fn), posOf(c.In), "the certificate manager is asked for the certificate for another hello: %v", c.Args)
						r.Assert(outer.ok(&c.Ctx), order, "entries searched in "+fnLabel(c.Fr.Fn), posOf(c.In), "a certificate can be requested although a configured entry lists the name (%s)", c.Trace(c.In))
						tos := false
						for k, v := range c.St.facts {
							tos = tos || v && isField(tosF)(k) || !v && isTypeTest(k)
						}
						r.Assert(tos, order, "terms of service in "+fnLabel(c.Fr.Fn), posOf(c.In), "a certificate can be requested although the terms of service were not accepted (%s)", c.Trace(c.In))
						c.St.Event("acme", c.Res, nil, c.In)
					case isResponse(c.Fn):
						c.St.Event("response", c.Res, c.Args, c.In)
						c.Opaque = true
					}
				},
				OnInstr: func(c *Ctx, in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || fieldVar(fa.X.Type(), fa.Field) != stapleF {
						return
					}
					n["stapled"]++
					cert, v := c.V(fa.X), c.V(st.Val)
					ok = false
					for _, ev := range c.St.Has("response") {
						leaf := false
						for _, a := range ev.Args[1:] {
							leaf = leaf || a.mentions(func(t *Term) bool { return t == cert })
						}
						good := false
						for k, b := range c.St.facts {
							x, y, eq, isEq := sameEq(k, b)
							if isEq && eq && (isField(statusF)(x) && isZeroConst(y) || isField(statusF)(y) && isZeroConst(x)) && k.mentions(func(t *Term) bool { return t == ev.Res }) {
								good = true
							}
						}
						ok = ok || okResult(c, ev) && leaf && good && isField(rawF)(v) && v.mentions(func(t *Term) bool { return t == ev.Res })
					}
					r.Assert(ok, stapled, "response stapled in "+fnLabel(c.Fr.Fn), in.Pos(), "%v is stapled to the certificate although it is not known to be a good response for it", v)
				},
				OnReturn: func(c *Ctx, rt []*Term, in *ssa.Return) {
					if c.Fr.Fn != f || len(rt) != 2 || c.St.Nil(rt[1]) == no || c.St.Nil(rt[0]) == yes {
						return
					}
					n["returned"]++
					ok := fromNonNil(c, rt[0], "acme") || fromOK(c, rt[0], "acme") || heapMentions(c, rt[0], func(t *Term) bool { return fromOK(c, t, "cert") })
					r.Assert(ok, rule, "certificate returned by "+fnLabel(f), posOf(in), "%v is served, which is neither the configured certificate for the name nor the certificate manager's", rt[0])
				},
			}, f, nil)
		}
	}
	r.AssertAt(n["callbacks"] > 0 && n["configured"] > 0 && n["requested"] > 0 && n["returned"] > 1 && n["stapled"] > 0, rule, "certificate callbacks", "-", "not found: %v", n)
	// agreement to the terms of service
	promptF := p.extField("golang.org/x/crypto/acme/autocert", "Manager", "Prompt")
	if promptF == nil {
		r.Missing(order, "autocert.Manager.Prompt")
		return
	}
	prompts := 0
	for _, fn := range p.funcsWhere(func(f *ssa.Function) bool {
		return inModule(f) && !isExampleFn(f) && has(f, func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && fieldVar(fa.X.Type(), fa.Field) == promptF
		})
	}) {
		r.Walk(&Rule{
			Name: order, NoGo: true, Keep: isField(tosF),
			Interesting: func(in ssa.Instruction) bool { return in.Parent() == fn },
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) != promptF {
					return
				}
				prompts++
				for _, g := range funcsOf(st.Val) {
					if g != nil && neverTrue(g) {
						continue
					}
					accepted := false
					for k, v := range c.St.facts {
						accepted = accepted || v && isField(tosF)(k)
					}
					r.Assert(accepted, order, "agreement in "+fnLabel(fn), in.Pos(), "the terms of service can be agreed to although they were not accepted in the configuration (%s)", c.Trace(in))
				}
			},
		}, fn, nil)
	}
	r.AssertAt(prompts > 0, order, "agreement to the terms of service", "-", "not found")
	r.Min(order, 3)
}

// neverTrue: the function returns false only.
func neverTrue(f *ssa.Function) bool {
	ok := len(f.Blocks) > 0
	instrs(f, func(in ssa.Instruction) {
		if rt, isR := in.(*ssa.Return); isR {
			c, isC := rt.Results[0].(*ssa.Const)
			ok = ok && isC && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value)
		}
	})
	return ok
}

// acmeRevoke decides what the proxy revokes by itself.
func acmeRevoke(r *Report, p *Prog) {
	const rule = "acme-revoke"
	r.Rule(rule, "the proxy by itself revokes and deletes only certificates none of whose names is a server name of a backend of the current configuration, and only if the configuration does not forbid it")
	cfgF := r.mustField(rule, "proxy", "Proxy", "cfg")
	backendsF := r.mustField(rule, "proxy", "Config", "Backends")
	namesF := r.mustField(rule, "proxy", "Backend", "ServerNames")
	allowF := r.mustField(rule, "proxy", "Config", "RevokeUnusedCertificates")
	dnsF := p.extField("crypto/x509", "Certificate", "DNSNames")
	if cfgF == nil || backendsF == nil || namesF == nil || allowF == nil || dnsF == nil {
		return
	}
	destructive := func(n string) bool {
		return n == "(*golang.org/x/crypto/acme.Client).RevokeCert" || strings.HasPrefix(n, "(*github.com/c2FmZQ/storage/autocertcache.Cache).Delete")
	}
	does := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && destructive(calleeName(ci))
	}
	// what runs without being asked for: everything but what only the commands
	// of the main package call
	auto := map[*ssa.Function]bool{}
	for _, f := range p.funcsWhere(func(f *ssa.Function) bool { return inModule(f) && !isExampleFn(f) && hasDeepCalls(p, f, does) }) {
		for _, ci := range p.idx.callers[f] {
			if !inPkg(ci.Parent(), "/proxy") || hasDeepCalls(p, ci.Parent(), does) && !isGo(ci) {
				continue
			}
			auto[f] = true
		}
		if len(p.idx.addrTaken[f]) > 0 {
			auto[f] = true
		}
	}
	r.AssertAt(len(auto) > 0, rule, "automatic revocation", "-", "not found")
	n := 0
	for f := range auto {
		isNames := func(t *Term) bool { return t.op == "field" && t.fv == namesF }
		isBackends := func(t *Term) bool { return t.op == "field" && t.fv == backendsF && t.args[0].mentions(isField(cfgF)) }
		isDNS := isField(dnsF)
		outer, inner := &forall{L: "be", IsList: isBackends}, &forall{L: "sn", IsList: isNames}
		dns := &forall{L: "dns", IsList: isDNS}
		inUse := func(t *Term) (*Term, bool) { // lookup of a name of a certificate in the table of names
			if !(t.op == "lookup" || t.op == "lookupv" || t.op == "lookupok") || !t.args[1].mentions(func(x *Term) bool { return x.op == "index" && isDNS(x.args[0]) }) {
				return nil, false
			}
			return t.args[0], true
		}
		appends, bad, sites := map[ssa.CallInstruction]bool{}, map[ssa.CallInstruction]string{}, map[ssa.CallInstruction]string{}
		lists := map[ssa.CallInstruction][]ssa.Value{}
		unused := func(c *Ctx, cert *Term) bool {
			return dns.okFor(c, func(l *Term) bool { return l.mentions(func(x *Term) bool { return x == cert }) })
		}
		r.Walk(&Rule{
			Name: rule, InlineAll: true, NoGo: true,
			Keep: func(t *Term) bool {
				return t.mentions(func(x *Term) bool { return isField(allowF)(x) })
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if lk, ok := in.(*ssa.Lookup); ok && outer.ok(c) && !hasEv(c, "table") {
					// there is no server name
					dns.dispose(c, c.V(lk.Index))
				}
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					return
				}
				k := c.V(mu.Key)
				if k.op == "index" && isNames(k.args[0]) && isTrueOrUnit(c, c.V(mu.Value)) {
					c.St.Event("table", nil, []*Term{c.V(mu.Map)}, nil)
					inner.dispose(c, k)
				}
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if m, ok := inUse(cond); ok && !val {
					all := outer.ok(c)
					for _, e := range c.St.Has("table") {
						all = all && e.Args[0] == m
					}
					if all {
						dns.dispose(c, cond)
					}
				}
				inner.branch(c, cond, val)
				if !val && cond.op == "bin" && cond.s == "<" && isLen(cond.args[1]) && isNames(cond.args[1].args[0]) {
					l := cond.args[1].args[0]
					if inner.okFor(c, func(t *Term) bool { return t == l }) {
						outer.dispose(c, l)
					}
					inner.reset(c)
				}
				outer.branch(c, cond, val)
				if cond.op == "extract" && cond.s == "0" && cond.args[0].s == "range.next" {
					dns.reset(c) // the next certificate
				}
				dns.branch(c, cond, val)
			},
			OnCall: func(c *CallCtx) {
				if c.Name == "builtin.append" && isStrings(c.Res.typ) && len(c.Args) == 2 {
					es, _ := listElems(&c.Ctx, c.Args[1])
					for _, e := range es {
						if e.op != "extract" || e.args[0].s != "range.next" {
							continue
						}
						appends[c.In] = true
						if !unused(&c.Ctx, e.args[0]) && bad[c.In] == "" {
							bad[c.In] = c.Trace(c.In)
						}
					}
				}
				if !destructive(c.Name) {
					return
				}
				n++
				what := c.Name[strings.LastIndex(c.Name, ".")+1:] + " in " + fnLabel(c.Fr.Fn)
				allowed := false
				for k, v := range c.St.facts {
					allowed = allowed || v && k.mentions(isField(allowF))
				}
				r.Assert(allowed, rule, what+" allowed", posOf(c.In), "certificates can be revoked or deleted although the configuration forbids it (%s)", c.Trace(c.In))
				for _, a := range c.Args[1:] {
					a.mentions(func(t *Term) bool {
						if (t.op == "lookup" || t.op == "lookupv") && t.args[1].op == "index" && t.args[1].args[0].v != nil {
							lists[c.In] = append(lists[c.In], t.args[1].args[0].v)
						}
						if t.op == "csym" && t.s == "range.next" {
							r.Assert(unused(&c.Ctx, t), rule, what, posOf(c.In), "a certificate can be revoked or deleted that a backend uses (%s)", c.Trace(c.In))
						}
						return false
					})
				}
				if _, ok := sites[c.In]; !ok {
					sites[c.In] = what
				}
			},
		}, f, nil)
		for in, what := range sites {
			found := false
			for _, a := range append(lists[in], in.Common().Args[1:]...) {
				for ci := range p.Origins(a, FlowOpts{NoCallers: true}).CallIns {
					if appends[ci] {
						found = true
						r.Assert(bad[ci] == "", rule, what, posOf(ci), "a certificate can be listed to be revoked or deleted although a backend uses it (%s)", bad[ci])
					}
				}
			}
			r.Assert(found, rule, what+": selection", posOf(in), "it is not known how the certificates to revoke or delete are selected")
		}
	}
	r.AssertAt(n > 0, rule, "automatic revocation", "-", "nothing is revoked or deleted")
	r.Min(rule, 4)
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.String])
}

func isGo(ci ssa.CallInstruction) bool {
	_, ok := ci.(*ssa.Go)
	return ok
}

// isTrueOrUnit: what a set holds for its members.
func isTrueOrUnit(c *Ctx, t *Term) bool {
	if c.St.Bool(t) == yes {
		return true
	}
	s, ok := t.typ.(*types.Struct)
	return ok && s.NumFields() == 0
}
