package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C18", Title: "Requests and connections reach only the backend of their server name",
		Explain: "Path-sensitive walk from the accept loops and from the HTTP handlers: the backend is the one configured under the server name of the ClientHello, the completed handshake is for the same name, an HTTP request's host is one of that backend's server names, and local endpoints and path overrides are used only for their own host and path.",
		Run:     runC18,
	})
}

// structField: the value of a field of a struct value.
func structField(c *Ctx, t *Term, fv *types.Var) *Term {
	for t.op == "deref" || t.op == "load" {
		t = t.args[0]
	}
	return c.St.Load(c.W.T.field(t, fv), fv.Type())
}

// constStr is the value of a string constant of the package.
func (p *Prog) constStr(pkg, name string) string {
	if pk := p.Pkg(pkg); pk != nil {
		if c, ok := pk.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
			return constant.StringVal(c.Val())
		}
	}
	return ""
}

// backendKeyOK: the term was looked up in the table of backends under a key
// whose server name and protocol satisfy the predicates. The keys seen are
// recorded by backendKeyInstr.
type backendTable struct {
	p                 *Prog
	backends          *types.Var
	keyName, keyProto *types.Var
	isBackends        tp
}

func newBackendTable(r *Report, p *Prog, rule string) *backendTable {
	b := &backendTable{p: p, backends: r.mustField(rule, "proxy", "Proxy", "backends")}
	if b.backends == nil {
		return nil
	}
	b.isBackends = isField(b.backends)
	m, ok := b.backends.Type().Underlying().(*types.Map)
	if !ok {
		r.Missing(rule, "the table of backends")
		return nil
	}
	st, ok := m.Key().Underlying().(*types.Struct)
	if !ok {
		r.Missing(rule, "the key of the table of backends")
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		switch f := st.Field(i); {
		case strings.Contains(strings.ToLower(f.Name()), "name"):
			b.keyName = f
		case strings.Contains(strings.ToLower(f.Name()), "proto"):
			b.keyProto = f
		}
	}
	if b.keyName == nil || b.keyProto == nil {
		r.Missing(rule, "the fields of the key of the table of backends")
		return nil
	}
	return b
}

func (b *backendTable) isLookup(in ssa.Instruction) (*ssa.Lookup, bool) {
	l, ok := in.(*ssa.Lookup)
	if !ok {
		return nil, false
	}
	return l, types.Identical(l.X.Type(), b.backends.Type())
}

func keyLabel(k *Term) string { return "bkey:" + strconv.Itoa(k.id) }

// instr records the key of each lookup.
func (b *backendTable) instr(c *Ctx, in ssa.Instruction) {
	l, ok := b.isLookup(in)
	if !ok {
		return
	}
	k := c.V(l.Index)
	c.St.Kill(keyLabel(k))
	c.St.Event(keyLabel(k), nil, []*Term{structField(c, k, b.keyName), structField(c, k, b.keyProto)}, nil)
}

// found: the term is a backend found in the table, under a key that satisfies
// the predicates.
func (b *backendTable) found(c *Ctx, t *Term, name, proto tp) string {
	if !isLookup(b.isBackends)(t) {
		return "it does not come from the table of backends"
	}
	ok := c.St.Nil(t) == no
	for k, v := range c.St.facts {
		if v && k.op == "lookupok" && k.args[0] == t.args[0] && k.args[1] == t.args[1] {
			ok = true
		}
	}
	if !ok {
		return "it was not found in the table of backends"
	}
	evs := c.St.Has(keyLabel(t.args[1]))
	if len(evs) != 1 {
		return "the key it was looked up with is unknown"
	}
	if !name(evs[0].Args[0]) {
		return "it was looked up under another server name: " + evs[0].Args[0].String()
	}
	if !proto(evs[0].Args[1]) {
		return "it was looked up under another protocol: " + evs[0].Args[1].String()
	}
	return ""
}

func runC18(r *Report, p *Prog) {
	const rule = "sni-backend"
	r.Rule(rule, "a backend is selected only under the given server name and one of the given protocols or none, and not while it is shutting down")
	tbl := newBackendTable(r, p, rule)
	if tbl == nil {
		return
	}
	fn := r.mustFunc(rule, "proxy", "(*Proxy).backend", func(f *ssa.Function) bool {
		res := f.Signature.Results()
		return f.Signature.Recv() != nil && res.Len() == 2 && isPtrTo(res.At(0).Type(), modPath+"/proxy.Backend") && has(f, func(in ssa.Instruction) bool { return touchesField(in, tbl.backends) })
	})
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	shutdown := r.mustField(rule, "proxy", "backendState", "shutdown")
	isName, isProtos := isParam(fn.Params[1]), isParam(fn.Params[2])
	noProto := func(t *Term) bool { return isEmptyStr(t) || t.op == "zero" }
	n := 0
	r.Walk(&Rule{
		Name: rule, InlineAll: true,
		Keep:    func(t *Term) bool { return t.mentions(tbl.isBackends) },
		OnInstr: tbl.instr,
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != fn || c.St.Nil(rets[1]) == no {
				return
			}
			n++
			why := tbl.found(c, rets[0], isName, either(noProto, anyOf(isProtos)))
			r.Assert(why == "", rule, "backend returned by "+fnLabel(fn), posOf(in), "a backend is returned although %s", why)
			open := false
			for k, v := range c.St.facts {
				if !v && k.op == "field" && k.fv == shutdown && k.mentions(func(x *Term) bool { return x == rets[0] }) {
					open = true
				}
			}
			r.Assert(open, rule, "backend in service", posOf(in), "a backend is returned that may be shutting down")
		},
	}, fn, nil)
	r.AssertAt(n > 0, rule, "backends are returned", "-", "no path returns a backend")
	hostConns(r, p, tbl, fn)
	hostRequests(r, p)
}

// isServerName: the server name of a ClientHello or of a TLS connection.
func isServerName(t *Term) bool {
	if t.op != "field" || t.fv == nil || t.fv.Name() != "ServerName" {
		return false
	}
	return true
}

func isAnnotationRead(n string) bool { return strings.HasSuffix(n, ".Annotation") }

// annotationReaders are the functions that only read one of the annotations
// with these keys.
func (p *Prog) annotationReaders(tracked map[string]bool) map[*ssa.Function]string {
	memo := map[*ssa.Function]string{}
	var reader func(f *ssa.Function) string
	reader = func(f *ssa.Function) string {
		if f == nil || !inPkg(f, "/proxy") || f.Signature.Results().Len() != 1 || isBoolResult(f) || isErrorType(f.Signature.Results().At(0).Type()) {
			return ""
		}
		if k, ok := memo[f]; ok {
			return k
		}
		memo[f] = ""
		keys := map[string]bool{}
		instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if !isAnnotationRead(calleeName(ci)) {
				if k := reader(staticCallee(ci)); k != "" {
					keys[k] = true
				}
				return
			}
			as := ci.Common().Args
			k, ok := ssaConstString(as[len(as)-2])
			if !ok {
				k = "?"
			}
			keys[k] = true
		})
		switch len(keys) {
		case 0:
		case 1:
			for k := range keys {
				memo[f] = k
			}
		default:
			memo[f] = "?"
		}
		return memo[f]
	}
	for _, f := range p.funcsWhere(func(f *ssa.Function) bool { return inPkg(f, "/proxy") && !isBoolResult(f) }) {
		reader(f)
	}
	for f, k := range memo {
		if !tracked[k] {
			delete(memo, f)
		}
	}
	return memo
}

func isBoolResult(f *ssa.Function) bool {
	return f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool])
}

func hostConns(r *Report, p *Prog, tbl *backendTable, sel *ssa.Function) {
	const rule, match, quicRule = "conn-routing", "sni-match", "quic-config"
	r.Rule(rule, "a connection is given to the backend selected by the server name in its ClientHello (or the default name when there is none), with that backend's TLS configuration, and is annotated with that name and backend")
	r.Rule(match, "data is exchanged after the TLS handshake only if the negotiated server name is the one the backend was selected by")
	defName := r.mustField(rule, "proxy", "Proxy", "defServerName")
	chanF := r.mustField(rule, "proxy", "Backend", "httpConnChan")
	tlsConf := r.mustField(rule, "proxy", "Backend", "tlsConfig")
	csName := p.extField("crypto/tls", "ConnectionState", "ServerName")
	mode := r.mustField(rule, "proxy", "Backend", "Mode")
	if defName == nil || chanF == nil || tlsConf == nil || csName == nil || mode == nil {
		return
	}
	isDef := anyField(defName)
	selName := funcName(sel)
	isAnn := func(n string) bool { return strings.HasSuffix(n, ".SetAnnotation") }
	isRead := func(n string) bool {
		return strings.HasSuffix(n, ").Annotation") || strings.HasSuffix(n, ".Annotation")
	}
	snKey := p.constStr("proxy", "serverNameKey")
	r.AssertAt(snKey != "", rule, "annotation of the server name", "-", "the key of the server name annotation is not found")
	tracked := map[string]bool{snKey: true, p.constStr("proxy", "backendKey"): true}
	readers := p.annotationReaders(tracked)
	sels, sinks := 0, 0
	for _, e := range p.acceptHandlers() {
		sinkAt := func(c *Ctx, kind string, in ssa.Instruction, used *Term) {
			sinks++
			where := kind + " in " + fnLabel(c.Fr.Fn) + " from " + fnLabel(e)
			be := c.St.OKNil("be")
			if !r.Assert(be != nil, rule, where, posOf(in), "%s reached without a backend selected by the server name", kind) {
				return
			}
			sel := c.W.T.mk(&Term{op: "extract", s: "0", args: []*Term{be.Res}})
			if used != nil {
				r.Assert(used.mentions(func(x *Term) bool { return x == be.Res || x == sel }), rule, "backend of "+where, posOf(in), "%s does not use the backend selected by the server name: %v", kind, used)
			}
			r.Assert(!hasEv(c, "othercfg"), rule, "TLS configuration of "+where, posOf(in), "%s reached over TLS with a configuration that is not the selected backend's", kind)
			name := be.Args[1]
			if hasEv(c, "tls") {
				ok := hasEv(c, "sn-same") || hasEv(c, "sn-none") && (hasEv(c, "sn-default") || isDef(name))
				r.Assert(ok, match, where, posOf(in), "%s reached although the TLS handshake may be for another server name than the one the backend was selected by", kind)
			} else if !(name.op == "field" && name.fv == csName) {
				r.Assert(hasEv(c, "passthrough"), match, where, posOf(in), "%s reached without a TLS handshake by a backend that is not in passthrough mode", kind)
			}
			ann := c.St.Has("ann:" + snKey)
			r.Assert(len(ann) == 1 && ann[0].Args[0] == name, rule, "annotation of "+where, posOf(in), "%s reached on a connection that is not annotated with the server name that selected the backend", kind)
		}
		r.Walk(&Rule{
			Name: rule,
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if ok && isAnn(calleeName(ci)) {
					as := ci.Common().Args
					k, isC := ssaConstString(as[len(as)-2])
					return !isC || tracked[k]
				}
				return backendSink(in) != "" || isCall(in, selName, "crypto/tls.Server") || touchesField(in, defName)
			},
			NoInline: func(f *ssa.Function) bool { return f == sel || strings.HasSuffix(pkgPath(f), "/netw") },
			Keep: func(t *Term) bool {
				x, y, _, ok := sameEq(t, true)
				return ok && (isServerName(x) || isServerName(y))
			},
			OnCall: func(c *CallCtx) {
				in := c.In.(ssa.Instruction)
				switch {
				case c.Name == selName:
					sels++
					name := c.Args[1]
					why := ""
					switch {
					case isDef(name):
						ok := false
						for k, v := range c.St.facts {
							x, y, eq, isEq := sameEq(k, v)
							if isEq && eq && (isServerName(x) && isEmptyStr(y) || isServerName(y) && isEmptyStr(x)) {
								ok = true
							}
						}
						if !ok {
							why = "the default name although the client may have sent one"
						}
					case isServerName(name):
					default:
						why = name.String()
					}
					r.Assert(why == "", rule, "server name that selects the backend in "+fnLabel(e), c.In.Pos(), "the backend is selected by %s", why)
					c.St.Kill("be")
					c.St.Event("be", c.Res, c.Args, c.In)
				case c.Name == "crypto/tls.Server":
					c.St.Event("tls", nil, nil, nil)
					be := c.St.OKNil("be")
					cfg := c.Args[1]
					if be == nil || !(cfg.op == "field" && cfg.fv == tlsConf && cfg.mentions(func(x *Term) bool { return x == be.Res })) {
						c.St.Event("othercfg", nil, nil, nil)
					}
				case isAnn(c.Name) && len(c.Args) >= 2 && !hasEv(&c.Ctx, "dialed"):
					k, ok := constString(unwrap(c.Args[len(c.Args)-2]))
					c.Opaque = true
					if !ok || !tracked[k] {
						return
					}
					v := unwrap(c.Args[len(c.Args)-1])
					c.St.Kill("ann:" + k)
					c.St.Event("ann:"+k, nil, []*Term{v}, nil)
				case isRead(c.Name) || readers[c.Fn] != "":
					k := readers[c.Fn]
					if isRead(c.Name) {
						k, _ = constString(unwrap(c.Args[len(c.Args)-2]))
					}
					if ev := c.St.Has("ann:" + k); len(ev) == 1 {
						c.Result = ev[0].Args[0]
						c.Opaque = true
					}
				default:
					if k := backendSink(in); k != "" {
						sinkAt(&c.Ctx, k, in, nil)
						if strings.HasPrefix(k, "dial") {
							c.St.Event("dialed", nil, nil, nil)
						}
					} else if c.Fn != nil && c.Fn.Signature.Recv() != nil && isPtrTo(c.Fn.Signature.Recv().Type(), modPath+"/proxy.Backend") && hasDeepCalls(p, c.Fn, func(in ssa.Instruction) bool { return backendSink(in) != "" }) {
						sinkAt(&c.Ctx, "use of a backend", in, c.Args[0])
					}
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if s, ok := in.(*ssa.Send); ok && backendSink(in) != "" {
					sinkAt(c, backendSink(in), in, c.V(s.Chan))
				}
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				x, y, eq, ok := sameEq(cond, val)
				if !ok || !eq {
					return
				}
				be := c.St.Has("be")
				for i := 0; i < 2; i++ {
					isCS := x.op == "field" && x.fv == csName
					switch {
					case isCS && isEmptyStr(y):
						c.St.Event("sn-none", nil, nil, nil)
					case isCS && len(be) == 1 && y == be[0].Args[1]:
						c.St.Event("sn-same", nil, nil, nil)
					case len(be) == 1 && x == be[0].Args[1] && isDef(y):
						c.St.Event("sn-default", nil, nil, nil)
					case x.op == "field" && x.fv == mode && isStr("TLSPASSTHROUGH")(y):
						c.St.Event("passthrough", nil, nil, nil)
					}
					x, y = y, x
				}
			},
		}, e, nil)
	}
	want := 2
	if p.Variant.Tags != "" {
		want = 1
	}
	r.AssertAt(sels >= want, rule, "backends are selected", "-", "the connection handlers select %d backends, expected %d", sels, want)
	r.AssertAt(sinks >= want, rule, "connections are served", "-", "the connection handlers reach %d sinks, expected %d", sinks, want)

	r.Rule(quicRule, "the TLS configuration of a QUIC handshake is the one of the backend configured under the server name and one of the protocols in the ClientHello")
	get := p.extField("crypto/tls", "Config", "GetConfigForClient")
	tlsQ := p.Field("proxy", "Backend", "tlsConfigQUIC")
	seen := map[*ssa.Function]bool{}
	for _, s := range p.idx.stores[get] {
		if !inPkg(s.Parent(), "/proxy") {
			continue
		}
		for f := range p.Origins(s.Val, FlowOpts{}).Funcs {
			if seen[f] || len(f.Params) != 1 {
				continue
			}
			seen[f] = true
			r.Walk(&Rule{
				Name: quicRule, InlineAll: true,
				Keep:    func(t *Term) bool { return t.mentions(tbl.isBackends) },
				OnInstr: tbl.instr,
				OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
					if c.Fr.Fn != f || c.St.Nil(rets[1]) == no {
						return
					}
					hello := isParam(f.Params[0])
					name := func(t *Term) bool { return isServerName(t) && t.mentions(hello) }
					proto := func(t *Term) bool {
						return isEmptyStr(t) || t.mentions(func(x *Term) bool { return x.op == "field" && x.fv.Name() == "SupportedProtos" && x.mentions(hello) })
					}
					why := "it is not a backend's"
					if rets[0].op == "field" && (rets[0].fv == tlsQ || rets[0].fv == tlsConf) {
						why = tbl.found(c, rets[0].args[0], name, proto)
					}
					r.Assert(why == "", quicRule, "configuration returned by "+fnLabel(f), posOf(in), "the TLS configuration of the handshake is %v: %s", rets[0], why)
				},
			}, f, nil)
		}
	}
	if p.Variant.Tags == "" {
		r.Min(quicRule, 1)
	}
}

func hostRequests(r *Report, p *Prog) {
	const rule, local, override = "request-host", "local-endpoints", "path-overrides"
	r.Rule(rule, "a request is proxied, or answered with a static file by a proxying backend, only if its host (or, without one, the connection's server name) is one of the backend's server names")
	r.Rule(local, "a local endpoint is reached only by requests for its host, if it has one, and for its path, or below it if it accepts that")
	r.Rule(override, "a path override is applied only to requests whose cleaned path starts with one of its paths, and its own document root is used")
	a := ssoResolve(r, p, rule)
	names := r.mustField(rule, "proxy", "Backend", "ServerNames")
	overrides := r.mustField(rule, "proxy", "Backend", "PathOverrides")
	paths := r.mustField(rule, "proxy", "PathOverride", "Paths")
	oRoot := r.mustField(rule, "proxy", "PathOverride", "DocumentRoot")
	lhHost := r.mustField(rule, "proxy", "localHandler", "host")
	lhPath := r.mustField(rule, "proxy", "localHandler", "path")
	lhPrefix := r.mustField(rule, "proxy", "localHandler", "matchPrefix")
	urlHost, urlPath := p.extField("net/url", "URL", "Host"), p.extField("net/url", "URL", "Path")
	reqHost := p.extField("net/http", "Request", "Host")
	if a == nil || names == nil || overrides == nil || paths == nil || oRoot == nil || lhHost == nil || lhPath == nil || lhPrefix == nil || urlHost == nil || urlPath == nil || reqHost == nil {
		return
	}
	isReqHost := isField(reqHost)
	readers := p.annotationReaders(map[string]bool{p.constStr("proxy", "serverNameKey"): true})
	readerName := map[string]bool{}
	for f := range readers {
		readerName[funcName(f)] = true
	}
	isConnName := func(t *Term) bool { return (t.op == "call" || t.op == "csym") && readerName[t.s] }
	// hostOf: the host part of a host value
	var hostOf func(t *Term, leaf tp) bool
	hostOf = func(t *Term, leaf tp) bool {
		if leaf(t) {
			return true
		}
		u := t
		if u.op == "extract" {
			u = u.args[0]
		}
		if (u.op == "call" || u.op == "csym") && oneOf(u.s, "net.SplitHostPort", "(*net/url.URL).Hostname", "strings.ToLower", "strings.TrimSuffix") && len(u.args) > 0 {
			return hostOf(u.args[0], leaf)
		}
		return false
	}
	// hostFn: functions that return a request's host
	hostFn := map[string]bool{}
	isHostFn := map[*ssa.Function]bool{}
	for _, f := range p.funcsWhere(func(f *ssa.Function) bool {
		s := f.Signature
		return inPkg(f, "/proxy") && s.Params().Len() == 1 && s.Results().Len() == 1 && s.Results().At(0).Type().String() == "string" && isPtrTo(s.Params().At(0).Type(), "net/http.Request") && has(f, func(in ssa.Instruction) bool { return touchesField(in, reqHost) })
	}) {
		good, n := true, 0
		r.Walk(&Rule{
			Name: rule, InlineAll: true,
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn == f {
					n++
					good = good && hostOf(rets[0], isReqHost)
				}
			},
		}, f, nil)
		if good && n > 0 {
			hostFn[funcName(f)] = true
			isHostFn[f] = true
		}
	}
	theHost := func(t *Term) bool {
		return isReqHost(t) || (t.op == "call" || t.op == "csym") && hostFn[t.s]
	}
	isNames := isField(names)
	byHost := &member{L: "host", IsList: isNames, IsElem: func(t *Term) bool { return hostOf(t, theHost) }}
	byConn := &member{L: "conn", IsList: isNames, IsElem: func(t *Term) bool { return hostOf(t, isConnName) }}
	isElemOf := func(t *Term, fv *types.Var) (*Term, bool) {
		// t is field fv of an element of the local handlers
		if t.op == "field" && t.fv == fv {
			return t.args[0], true
		}
		return nil, false
	}
	cleaners := map[string]bool{}
	isCleaner := map[*ssa.Function]bool{}
	for _, f := range p.pathCleaners() {
		cleaners[funcName(f)] = true
		isCleaner[f] = true
	}
	cleanPath := func(t *Term) bool {
		return t.mentions(isField(urlPath)) && t.mentions(func(x *Term) bool {
			return (x.op == "call" || x.op == "csym") && (oneOf(x.s, "path.Clean", "path.Join") || cleaners[x.s])
		})
	}
	isOverridePath := func(t *Term) (*Term, bool) {
		// an element of Paths of an element of PathOverrides: the latter's index
		var idx *Term
		t.mentions(func(x *Term) bool {
			if x.op == "field" && x.fv == paths {
				x.mentions(func(y *Term) bool {
					if y.op == "index" && y.args[0].mentions(isField(overrides)) && idx == nil {
						idx = y.args[1]
					}
					return false
				})
			}
			return false
		})
		return idx, idx != nil
	}
	ovIdx := func(t *Term) *Term {
		var idx *Term
		t.mentions(func(y *Term) bool {
			if y.op == "index" && y.args[0].mentions(isField(overrides)) && idx == nil {
				idx = y.args[1]
			}
			return false
		})
		return idx
	}
	serves, locals, ovs := 0, 0, 0
	for _, e := range p.httpHandlers() {
		proxies := hasDeepCalls(p, e, func(in ssa.Instruction) bool { return isCall(in, "(*net/http/httputil.ReverseProxy).ServeHTTP") })
		r.Walk(&Rule{
			Name: rule,
			Interesting: func(in ssa.Instruction) bool {
				return httpSink(in) != "" || isCall(in, "(*net/url.URL).Hostname", "context.WithValue", "net.SplitHostPort", "path.Clean", "path.Join") || touchesField(in, names) || touchesField(in, lhHost) || touchesField(in, lhPath)
			},
			NoInline: func(f *ssa.Function) bool {
				return f == a.policy || f == a.auth || isCleaner[f] || isHostFn[f] || readers[f] != ""
			},
			KeepPath: isField(urlHost),
			Keep: func(t *Term) bool {
				if x, y, _, ok := sameEq(t, true); ok && (isReqHost(x) || isReqHost(y)) {
					return true
				}
				return mentionsField(t, lhHost) || mentionsField(t, lhPath) || mentionsField(t, lhPrefix) || mentionsField(t, names) || t.op == "call" && t.s == "strings.HasPrefix" && mentionsField(t, paths)
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				byHost.branch(c, cond, val)
				byConn.branch(c, cond, val)
				if !val {
					return
				}
				if cond.op == "call" && cond.s == "strings.HasPrefix" && cleanPath(cond.args[0]) {
					if i, ok := isOverridePath(cond.args[1]); ok {
						c.St.Kill("override")
						c.St.Event("override", nil, []*Term{i}, nil)
					}
				}
			},
			OnCall: func(c *CallCtx) {
				in := c.In.(ssa.Instruction)
				if c.Name == "(*net/url.URL).Hostname" {
					h := c.St.Load(c.W.T.field(c.W.T.path(c.Args[0]), urlHost), urlHost.Type())
					c.Result = c.W.T.mk(&Term{op: "call", s: c.Name, args: []*Term{h}, typ: types.Typ[types.String]})
					c.Opaque = true
					return
				}
				if c.Name == "context.WithValue" && len(c.Args) == 3 && strings.Contains(unwrap(c.Args[1]).String(), "ctxOverrideIDKey") {
					ovs++
					ev := c.St.Has("override")
					i := unwrap(c.Args[2])
					r.Assert(len(ev) == 1 && ev[0].Args[0] == i, override, "override chosen in "+fnLabel(c.Fr.Fn), c.In.Pos(), "a path override is chosen for a request whose cleaned path was not found to start with one of its paths")
				}
				k := httpSink(in)
				if k == "" {
					return
				}
				where := k + " in " + fnLabel(c.Fr.Fn) + " from " + fnLabel(e)
				if k == "local endpoint" {
					locals++
					h := c.Args[0]
					el, ok := isElemOf(h, a.handler)
					if !r.Assert(ok, local, where, c.In.Pos(), "a handler that is not a local endpoint's is called: %v", h) {
						return
					}
					hostOK, pathOK := false, false
					prefix := false
					for f, v := range c.St.facts {
						if b, ok := isElemOf(f, lhPrefix); ok && v && b == el {
							prefix = true
						}
					}
					for f, v := range c.St.facts {
						if x, y, eq, ok := sameEq(f, v); ok && eq {
							for i := 0; i < 2; i++ {
								if b, ok := isElemOf(x, lhHost); ok && b == el && (isEmptyStr(y) || hostOf(y, theHost)) {
									hostOK = true
								}
								if b, ok := isElemOf(x, lhPath); ok && b == el && cleanPath(y) {
									pathOK = true
								}
								x, y = y, x
							}
						}
						if v && prefix && f.op == "call" && f.s == "strings.HasPrefix" && cleanPath(f.args[0]) {
							if x := f.args[1]; x.op == "bin" && x.s == "+" && isStr("/")(x.args[1]) {
								if b, ok := isElemOf(x.args[0], lhPath); ok && b == el {
									pathOK = true
								}
							}
						}
					}
					r.Assert(hostOK, local, "host of "+where, c.In.Pos(), "a local endpoint is reached without its host having been compared with the request's")
					r.Assert(pathOK, local, "path of "+where, c.In.Pos(), "a local endpoint is reached without its path having been compared with the request's")
					return
				}
				if !proxies || k == "round trip" {
					return
				}
				serves++
				ok := byHost.hit(c.St)
				if !ok && byConn.hit(c.St) {
					for f, v := range c.St.facts {
						if x, y, eq, is := sameEq(f, v); is && eq && (isReqHost(x) && isEmptyStr(y) || isReqHost(y) && isEmptyStr(x)) {
							ok = true
						}
					}
				}
				r.Assert(ok, rule, where, c.In.Pos(), "%s reached although the request's host may not be one of the backend's server names", k)
				if k == "static file" {
					for _, x := range c.Args {
						if !mentionsField(x, oRoot) {
							continue
						}
						ev := c.St.Has("override")
						r.Assert(len(ev) == 1 && ovIdx(x) == ev[0].Args[0], override, "document root of "+where, c.In.Pos(), "an override's document root is used for a request whose cleaned path was not found to start with one of its paths")
					}
				}
			},
		}, e, nil)
	}
	r.AssertAt(serves >= 2, rule, "requests are served", "-", "%d sinks found", serves)
	r.AssertAt(locals >= 2, local, "local endpoints are reached", "-", "%d sinks found", locals)
	r.AssertAt(ovs >= 1, override, "overrides are applied", "-", "no override is chosen")
}
