package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C22", Title: "Reconfiguration is all or nothing, and then governs every connection",
		Explain: "Path-sensitive walk of the reconfiguration: no effect on the running proxy precedes a return with an error, a change of configuration is installed completely and only after it was checked, the servers of the previous configuration are shut down, and every existing connection is examined again under the new one.",
		Run:     runC22,
	})
}

// shutsDown: the call stops an HTTP server.
func shutsDown(name string) string {
	for _, m := range []string{".Shutdown", ".Close", ".CloseGracefully"} {
		if strings.HasSuffix(name, m) {
			return strings.TrimSuffix(name, m)
		}
	}
	return ""
}

func runC22(r *Report, p *Prog) {
	const rule = "reconf-atomic"
	r.Rule(rule, "no path of the reconfiguration changes the running proxy (a field of Proxy or a map kept in one, a rate limiter, a server of the previous configuration) or starts a goroutine and then returns an error")
	cfgF := r.mustField(rule, "proxy", "Proxy", "cfg")
	chanF := r.mustField(rule, "proxy", "Backend", "httpConnChan")
	if cfgF == nil || chanF == nil {
		return
	}
	fn := r.mustFunc(rule, "proxy", "(*Proxy).Reconfigure", func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && f.Signature.Params().Len() == 1 && isPtrTo(f.Signature.Params().At(0).Type(), modPath+"/proxy.Config") && f.Signature.Results().Len() == 1 && isErrorType(f.Signature.Results().At(0).Type())
	})
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	entries := map[ssa.Instruction]string{}
	reconfInstall(r, p, fn, cfgF, chanF, entries)
	reconfTable(r, p, entries)
	reconfClose(r, p, chanF)
	reconfReauth(r, p)
	reconfOrder(r, p)
}

func isProxyField(a ssa.Value) (*types.Var, bool) {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok || !isPtrTo(fa.X.Type(), modPath+"/proxy.Proxy") {
		return nil, false
	}
	return fieldVar(fa.X.Type(), fa.Field), true
}

// backendClosers are the functions that close a backend's channel of connections.
func backendClosers(p *Prog, chanF *types.Var) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		sig := f.Signature
		if sig.Recv() == nil || !isPtrTo(sig.Recv().Type(), modPath+"/proxy.Backend") || sig.Results().Len() != 0 || sig.Params().Len() == 0 {
			continue
		}
		if hasDeepCalls(p, f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isBuiltin(ci, "close") && p.Origins(ci.Common().Args[0], FlowOpts{}).Fields[chanF]
		}) {
			out[f] = true
		}
	}
	return out
}

func isBuiltin(ci ssa.CallInstruction, name string) bool {
	b, ok := ci.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

func reconfInstall(r *Report, p *Prog, fn *ssa.Function, cfgF, chanF *types.Var, entries map[ssa.Instruction]string) {
	const rule, complete, checked = "reconf-atomic", "reconf-complete", "reconf-checked"
	r.Rule(complete, "a reconfiguration that succeeds with another configuration has stored the configuration, the table of backends, the PKIs, the default server name, the bandwidth limits and the log filter, closed every backend of the previous configuration, and started the examination of the existing connections")
	r.Rule(checked, "the configuration that is installed is a copy of the given one whose Check returned no error, and the table of backends holds only backends of it")
	closers := backendClosers(p, chanF)
	r.AssertAt(len(closers) > 0, complete, "function that closes a backend", "-", "not found")
	backendsF := p.Field("proxy", "Config", "Backends")
	tableF := r.mustField(complete, "proxy", "Proxy", "backends")
	tbl := newBackendTable(r, p, complete)
	namesF := r.mustField(complete, "proxy", "Backend", "ServerNames")
	alpnF := r.mustField(complete, "proxy", "Backend", "ALPNProtos")
	if tbl == nil || namesF == nil || alpnF == nil {
		return
	}
	var need []*types.Var
	for _, n := range []string{"cfg", "backends", "pkis", "defServerName", "bwLimits", "logFilter"} {
		fv := r.mustField(complete, "proxy", "Proxy", n)
		if fv == nil {
			return
		}
		need = append(need, fv)
	}
	defCfg := r.mustField(complete, "proxy", "Config", "DefaultServerName")
	reauth := map[*ssa.Function]bool{}
	for _, f := range reauthFuncs(p) {
		reauth[f] = true
	}
	isCfg := isParam(fn.Params[1])
	cfgType := func(t types.Type) bool { return isPtrTo(t, modPath+"/proxy.Config") }
	isConfigCmp := func(f *ssa.Function) bool {
		if f == nil || !isBoolResult(f) || f.Signature.Recv() == nil && f.Signature.Params().Len() != 2 {
			return false
		}
		n := 0
		for _, q := range f.Params {
			if cfgType(q.Type()) {
				n++
			}
		}
		return n == 2
	}
	isCheck := func(f *ssa.Function) bool {
		return f != nil && len(f.Params) == 1 && cfgType(f.Params[0].Type()) && f.Signature.Results().Len() == 1 && isErrorType(f.Signature.Results().At(0).Type())
	}
	isClone := func(f *ssa.Function) bool {
		return f != nil && len(f.Params) == 1 && cfgType(f.Params[0].Type()) && f.Signature.Results().Len() == 1 && cfgType(f.Signature.Results().At(0).Type())
	}
	// what p.recordEvent and the logs change is not configuration
	silent := func(f *ssa.Function) bool {
		return f != nil && (f.Name() == "recordEvent" || f.Name() == "logErrorF" || f.Name() == "logConnF")
	}
	isLimiter := func(n string) bool {
		return strings.HasPrefix(n, "(*golang.org/x/time/rate.Limiter).Set")
	}
	proxyMap := func(v ssa.Value) *types.Var {
		if u, ok := v.(*ssa.UnOp); ok {
			if fv, ok := isProxyField(u.X); ok {
				return fv
			}
		}
		return nil
	}
	prev := &forall{L: "prev", IsList: func(t *Term) bool { return t.op == "field" && t.fv == backendsF && t.args[0].mentions(isField(cfgF)) }}
	rets, installs := 0, 0
	r.Walk(&Rule{
		Name:    rule,
		NoGo:    true,
		Keep:    func(t *Term) bool { return t.op == "isnil" && isField(cfgF)(t.args[0]) },
		KeepRes: true,
		NoInline: func(f *ssa.Function) bool {
			return silent(f) || isConfigCmp(f) || isCheck(f) || isClone(f) || closers[f] || reauth[f]
		},
		Interesting: func(in ssa.Instruction) bool {
			if !inPkg(in.Parent(), "/proxy") || silent(in.Parent()) {
				return false
			}
			switch x := in.(type) {
			case *ssa.Store:
				_, ok := isProxyField(x.Addr)
				return ok
			case *ssa.MapUpdate:
				return proxyMap(x.Map) != nil || types.Identical(x.Map.Type(), tableF.Type())
			case *ssa.Go:
				return true
			case ssa.CallInstruction:
				f := staticCallee(x)
				if isConfigCmp(f) || isCheck(f) || isClone(f) || closers[f] || reauth[f] || isLimiter(calleeName(x)) {
					return true
				}
				for _, a := range x.Common().Args {
					if proxyMap(a) != nil && (isBuiltin(x, "delete") || isBuiltin(x, "clear") || strings.HasPrefix(calleeName(x), "maps.")) {
						return true
					}
				}
				return strings.HasPrefix(calleeName(x), "(*sync/atomic.") && strings.HasSuffix(calleeName(x), ".Store")
			}
			return false
		},
		OnCall: func(c *CallCtx) {
			if _, ok := c.In.(*ssa.Go); ok {
				if c.Fn != nil && (reauth[c.Fn] || hasDeepCalls(p, c.Fn, func(in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					return ok && reauth[staticCallee(ci)]
				})) {
					c.St.Event("reauth", nil, nil, nil)
				}
				c.St.Event("effect:goroutine", nil, nil, nil)
				c.Opaque = true
				return
			}
			args := c.In.Common().Args
			switch {
			case silent(c.Fn):
				c.Opaque = true
			case isConfigCmp(c.Fn):
				cur := false
				for _, a := range c.Args {
					cur = cur || isField(cfgF)(a)
				}
				if cur && (isCfg(c.Args[0]) || isCfg(c.Args[1])) {
					c.St.Event("same", c.Res, nil, c.In)
				}
				c.Opaque = true
			case isClone(c.Fn):
				if isCfg(c.Args[0]) {
					c.St.Event("copy", c.Res, nil, nil)
				}
				c.Opaque = true
			case isCheck(c.Fn):
				c.St.Event("checked", c.Res, c.Args[:1], c.In)
				c.Opaque = true
			case closers[c.Fn]:
				c.St.Event("effect:servers closed", nil, nil, nil)
				prev.dispose(&c.Ctx, c.Args[0])
				c.Opaque = true
			case reauth[c.Fn]:
				c.St.Event("reauth", nil, nil, nil)
				c.Opaque = true
			case isLimiter(c.Name):
				c.St.Event("effect:rate limit", nil, nil, nil)
			case strings.HasPrefix(c.Name, "(*sync/atomic.") && strings.HasSuffix(c.Name, ".Store"):
				if fv, ok := isProxyField(args[0]); ok {
					c.St.Event("effect:"+fv.Name(), nil, nil, nil)
					c.St.Event("set:"+fv.Name(), nil, nil, nil)
				}
			default:
				for i, a := range args {
					if fv := proxyMap(a); fv != nil && (isBuiltin(c.In, "delete") || isBuiltin(c.In, "clear") || oneOf(c.Name, "maps.Copy", "maps.DeleteFunc", "maps.Insert")) && i == 0 {
						c.St.Event("effect:"+fv.Name(), nil, nil, nil)
						c.St.Event("set:"+fv.Name(), nil, nil, nil)
					}
				}
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				fv, ok := isProxyField(x.Addr)
				if !ok {
					return
				}
				c.St.Event("effect:"+fv.Name(), nil, nil, nil)
				c.St.Event("set:"+fv.Name(), nil, nil, nil)
				v := c.V(x.Val)
				switch fv {
				case cfgF:
					installs++
					okC := false
					for _, e := range c.St.Has("checked") {
						okC = okC || okResult(c, e) && e.Args[0] == v
					}
					r.Assert(okC, checked, "configuration installed in "+fnLabel(c.Fr.Fn), in.Pos(), "the configuration %v is installed although it was not checked, or the check failed", v)
					cp := false
					for _, e := range c.St.Has("copy") {
						cp = cp || e.Res == v
					}
					r.Assert(cp, checked, "copy installed in "+fnLabel(c.Fr.Fn), in.Pos(), "the configuration %v that is installed is not a copy of the given one", v)
				case defCfg:
				}
				if fv.Name() == "defServerName" {
					r.Assert(v.op == "field" && v.fv == defCfg, complete, "default server name in "+fnLabel(c.Fr.Fn), in.Pos(), "the default server name is set to %v", v)
				}
			case *ssa.MapUpdate:
				if fv := proxyMap(x.Map); fv != nil {
					c.St.Event("effect:"+fv.Name(), nil, nil, nil)
					c.St.Event("set:"+fv.Name(), nil, nil, nil)
				}
				if types.Identical(x.Map.Type(), tableF.Type()) {
					v, k := c.V(x.Value), c.V(x.Key)
					name, proto := structField(c, k, tbl.keyName), structField(c, k, tbl.keyProto)
					own := func(fv *types.Var, t *Term) bool {
						return t.mentions(func(y *Term) bool { return y.op == "field" && y.fv == fv && y.args[0] == v })
					}
					switch {
					case !own(namesF, name):
						entries[in] = "?"
					case isEmptyStr(proto) || proto.op == "zero":
						entries[in] = "server name"
					case own(alpnF, proto):
						entries[in] = "server name and protocol"
					default:
						entries[in] = "?"
					}
					ok := v.mentions(func(t *Term) bool { return t.op == "field" && t.fv == backendsF })
					src := false
					for _, e := range c.St.Has("checked") {
						src = src || okResult(c, e) && v.mentions(func(t *Term) bool { return t == e.Args[0] })
					}
					r.Assert(ok && src, checked, "table entry in "+fnLabel(c.Fr.Fn), in.Pos(), "a backend that is not one of the checked configuration is put in the table of backends: %v", v)
				}
			}
		},
		OnBranch: func(c *Ctx, cond *Term, val bool) { prev.branch(c, cond, val) },
		OnReturn: func(c *Ctx, rt []*Term, in *ssa.Return) {
			if c.Fr.Fn != fn {
				return
			}
			rets++
			var effects []string
			for _, e := range c.St.ev {
				if strings.HasPrefix(e.Label, "effect:") {
					effects = append(effects, strings.TrimPrefix(e.Label, "effect:"))
				}
			}
			sort.Strings(effects)
			if c.St.Nil(rt[0]) != yes {
				r.Assert(len(effects) == 0, rule, "error return", posOf(in), "an error can be returned after the running proxy was changed: %s", strings.Join(effects, ", "))
				return
			}
			if len(effects) == 0 {
				r.Assert(c.St.OKTrue("same") != nil, complete, "configuration unchanged", posOf(in), "the reconfiguration succeeds without effect although the configuration may be another one")
				return
			}
			for _, fv := range need {
				r.Assert(hasEv(c, "set:"+fv.Name()), complete, "field "+fv.Name(), posOf(in), "the reconfiguration can succeed without having set %s", fv.Name())
			}
			first := false
			for k, v := range c.St.facts {
				first = first || v && k.op == "isnil" && isField(cfgF)(k.args[0])
			}
			r.Assert(first || prev.ok(c), complete, "previous backends closed", posOf(in), "the reconfiguration can succeed without having closed every backend of the previous configuration")
			r.Assert(hasEv(c, "reauth"), complete, "connections examined", posOf(in), "the reconfiguration can succeed without the existing connections being examined under the new configuration")
		},
	}, fn, nil)
	r.AssertAt(rets > 0 && installs > 0, complete, "reconfiguration", "-", "%d returns, %d installations", rets, installs)
	r.Min(complete, 8)
}

// reauthFuncs are the functions that examine every open connection: they list
// the connections and evaluate ACLs.
func reauthFuncs(p *Prog) []*ssa.Function {
	inF, authName := p.Field("proxy", "Proxy", "inConns"), pn("(*Backend).authorize")
	return p.funcsWhere(func(f *ssa.Function) bool {
		return inPkg(f, "/proxy") && has(f, func(in ssa.Instruction) bool {
			ci, ok := in.(*ssa.Call)
			if !ok {
				return false
			}
			_, list := ci.Type().Underlying().(*types.Slice)
			as := ci.Call.Args
			return list && len(as) == 1 && p.Origins(as[0], FlowOpts{}).Fields[inF]
		}) && hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, authName) })
	})
}

// reconfClose decides that closing a backend stops its servers.
func reconfClose(r *Report, p *Prog, chanF *types.Var) {
	const rule = "reconf-shutdown"
	r.Rule(rule, "closing a backend stops its HTTP server and its HTTP/3 server, if it has them")
	servers := map[*types.Var]string{
		r.mustField(rule, "proxy", "Backend", "httpServer"):  "HTTP server",
		r.mustField(rule, "proxy", "Backend", "http3Server"): "HTTP/3 server",
	}
	if servers[nil] != "" {
		return
	}
	inFlight := r.mustField(rule, "proxy", "backendState", "inFlight")
	isInFlight := func(t *Term) bool { return inFlight != nil && isField(inFlight)(t) }
	n := 0
	for f := range backendClosers(p, chanF) {
		if f.Signature.Params().Len() != 1 || f.Signature.Params().At(0).Type().String() != "context.Context" {
			continue
		}
		r.Walk(&Rule{
			Name: rule, InlineAll: true, NoGo: true,
			Keep: func(t *Term) bool {
				return t.mentions(func(x *Term) bool {
					return x.op == "field" && servers[x.fv] != "" || isInFlight(x) || isParam(f.Params[1])(x)
				})
			},
			OnCall: func(c *CallCtx) {
				if shutsDown(c.Name) == "" {
					return
				}
				for fv, label := range servers {
					if len(c.Args) > 0 && c.Args[0].mentions(isField(fv)) {
						c.St.Event("stop:"+label, nil, nil, nil)
					}
				}
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if cond.op == "isnil" && val {
					for fv, label := range servers {
						if isField(fv)(cond.args[0]) {
							c.St.Event("none:"+label, nil, nil, nil)
						}
					}
				}
			},
			OnReturn: func(c *Ctx, _ []*Term, in *ssa.Return) {
				if c.Fr.Fn != f {
					return
				}
				n++
				when := " while there are connections"
				for k, v := range c.St.facts {
					if k.op == "isnil" && v && isParam(f.Params[1])(k.args[0]) {
						when = " at once"
					}
					if x, y, eq, ok := sameEq(k, v); ok && eq && (isInFlight(x) || isInFlight(y)) {
						when = " when there are no connections"
					}
				}
				for _, label := range servers {
					// there is an HTTP/3 server only along with an HTTP server
					none := hasEv(c, "none:"+label) || label == "HTTP/3 server" && hasEv(c, "none:HTTP server")
					r.Assert(none || hasEv(c, "stop:"+label), rule, label+" of a backend that is closed"+when, posOf(in), "%s can return without having stopped the %s", fnLabel(f), label)
				}
			},
		}, f, nil)
	}
	r.AssertAt(n > 0, rule, "backends are closed", "-", "no function closes a backend")
}

// annotationOf: the annotation with the key, of an object that satisfies the
// predicate.
func annotationOf(p *Prog, key string, readers map[*ssa.Function]string, obj tp) tp {
	names := map[string]bool{}
	for f, k := range readers {
		if k == key {
			names[funcName(f)] = true
		}
	}
	return func(t *Term) bool {
		t = unwrap(t)
		if t.op != "call" && t.op != "csym" {
			return false
		}
		if !names[t.s] {
			if !isAnnotationRead(t.s) {
				return false
			}
			ok := false
			for _, a := range t.args {
				ok = ok || isStr(key)(unwrap(a))
			}
			if !ok {
				return false
			}
		}
		return t.mentions(obj)
	}
}

func reconfReauth(r *Report, p *Prog) {
	const rule = "reauth"
	r.Rule(rule, "after a reconfiguration every open connection that named a server is closed unless the backend that the new configuration selects for its name and protocol exists, has the same mode, permits its address, and requires no client certificate or authorizes the connection's")
	inF := r.mustField(rule, "proxy", "Proxy", "inConns")
	caF := r.mustField(rule, "proxy", "Backend", "ClientAuth")
	modeF := r.mustField(rule, "proxy", "Backend", "Mode")
	fns := reauthFuncs(p)
	r.AssertAt(len(fns) > 0, rule, "examination of the connections", "-", "no function examines the open connections")
	if inF == nil || caF == nil || modeF == nil {
		return
	}
	keys := map[string]string{}
	tracked := map[string]bool{}
	for _, k := range []string{"serverNameKey", "protoKey", "clientCertKey", "backendKey"} {
		keys[k] = p.constStr("proxy", k)
		tracked[keys[k]] = true
		r.AssertAt(keys[k] != "", rule, "annotation "+k, "-", "the key of the annotation is not found")
	}
	readers := p.annotationReaders(tracked)
	selName, ipName, authName := pn("(*Proxy).backend"), pn("(*Backend).checkIP"), pn("(*Backend).authorize")
	isList := func(t *Term) bool {
		return (t.op == "call" || t.op == "csym") && len(t.args) == 1 && isField(inF)(t.args[0])
	}
	isConn := func(t *Term) bool { return t.op == "index" && isList(t.args[0]) }
	ann := func(k string) tp { return annotationOf(p, keys[k], readers, isConn) }
	perConn := []string{"be", "ip", "auth", "noauth", "mode"}
	for _, fn := range fns {
		each := &forall{L: "conn", IsList: isList}
		closes, n := 0, 0
		beOf := func(c *Ctx) *Term {
			if e := c.St.OKNil("be"); e != nil {
				return c.W.T.mk(&Term{op: "extract", s: "0", args: []*Term{e.Res}})
			}
			return nil
		}
		isBe := func(c *Ctx, t *Term) bool {
			e := c.St.Has("be")
			if len(e) != 1 {
				return false
			}
			t = unwrap(t)
			return t.op == "extract" && t.s == "0" && t.args[0] == e[0].Res
		}
		settle := func(c *Ctx, t *Term) {
			if beOf(c) != nil && c.St.OKNil("ip") != nil && hasEv(c, "mode") && (hasEv(c, "noauth") || c.St.OKNil("auth") != nil) {
				each.dispose(c, t)
			}
		}
		r.Walk(&Rule{
			Name: rule, KeepRes: true,
			NoInline: func(f *ssa.Function) bool {
				return readers[f] != "" || oneOf(funcName(f), selName, ipName, authName) || !inPkg(f, "/proxy") || f.Signature.Results().Len() == 1 && isAnnotated(f.Signature.Results().At(0).Type())
			},
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				n := calleeName(ci)
				return oneOf(n, selName, ipName, authName) || isAnnotationRead(n) || strings.HasSuffix(n, ".Close") || readers[staticCallee(ci)] != ""
			},
			OnCall: func(c *CallCtx) {
				_, async := c.In.(*ssa.Go)
				switch {
				case c.Name == selName:
					for _, l := range perConn {
						c.St.Kill(l)
					}
					protos := p.Origins(c.In.Common().Args[len(c.In.Common().Args)-1], FlowOpts{})
					isProto := protos.Strs[keys["protoKey"]]
					for f, k := range readers {
						isProto = isProto || k == keys["protoKey"] && protos.Calls[funcName(f)]
					}
					ok := ann("serverNameKey")(c.Args[1]) && isProto
					r.Assert(ok, rule, "backend selected in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the backend is not selected by the connection's server name and protocol")
					if ok {
						c.St.Event("be", c.Res, nil, c.In)
					}
					c.Opaque = true
				case c.Name == ipName:
					if isBe(&c.Ctx, c.Args[0]) && c.Args[1].mentions(isConn) && c.Args[1].mentions(func(t *Term) bool {
						return (t.op == "call" || t.op == "csym") && strings.HasSuffix(t.s, ".RemoteAddr")
					}) {
						c.St.Event("ip", c.Res, nil, c.In)
					}
					c.Opaque = true
				case c.Name == authName:
					if isBe(&c.Ctx, c.Args[0]) && ann("clientCertKey")(c.Args[1]) {
						c.St.Event("auth", c.Res, nil, c.In)
					}
					c.Opaque = true
				case strings.HasSuffix(c.Name, ".Close") && len(c.Args) > 0 && !async:
					if c.Args[0].mentions(isConn) {
						closes++
						each.dispose(&c.Ctx, c.Args[0])
					}
				}
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if cond.op == "isnil" && val {
					t := unwrap(cond.args[0])
					switch {
					case ann("serverNameKey")(t):
						each.dispose(c, t)
					case ann("backendKey")(t):
						c.St.Event("mode", nil, nil, nil)
					case isField(caF)(t) && isBe(c, t.args[0]):
						c.St.Event("noauth", nil, nil, nil)
					}
				}
				if x, y, eq, ok := sameEq(cond, val); ok && eq {
					for i := 0; i < 2; i++ {
						if isField(modeF)(x) && isBe(c, x.args[0]) && isField(modeF)(y) && y.mentions(ann("backendKey")) {
							c.St.Event("mode", nil, nil, nil)
						}
						x, y = y, x
					}
				}
				if cond.op == "bin" && cond.s == "<" && isLen(cond.args[1]) && isList(cond.args[1].args[0]) {
					for _, e := range c.St.ev {
						if strings.HasPrefix(e.Label, "conn-cur:") {
							settle(c, c.W.T.mk(&Term{op: "index", args: []*Term{cond.args[1].args[0], cond.args[0]}}))
						}
					}
					for _, l := range perConn {
						c.St.Kill(l)
					}
				}
				each.branch(c, cond, val)
			},
			OnReturn: func(c *Ctx, _ []*Term, in *ssa.Return) {
				if c.Fr.Fn != fn {
					return
				}
				n++
				r.Assert(each.ok(c), rule, "connections examined by "+fnLabel(fn), posOf(in), "a connection can stay open although it was not established that the new configuration permits it")
			},
		}, fn, nil)
		r.AssertAt(n > 0 && closes > 0, rule, "connections are closed by "+fnLabel(fn), "-", "%d returns, %d connections closed", n, closes)
	}
}

// reconfOrder decides that a connection whose backend was selected is seen by
// the examination that follows a reconfiguration, and that its client was
// authorized by that same backend.
func reconfOrder(r *Report, p *Prog) {
	const rule, auth = "conn-visible", "conn-authorized"
	r.Rule(rule, "a connection is entered in the list of open connections and annotated with its server name before a backend is selected for it")
	r.Rule(auth, "a connection that is not passed through is served only if the selected backend requires no client certificate or authorized the connection's")
	inF := r.mustField(rule, "proxy", "Proxy", "inConns")
	if inF == nil {
		return
	}
	caF := r.mustField(auth, "proxy", "Backend", "ClientAuth")
	modeF := r.mustField(auth, "proxy", "Backend", "Mode")
	selName, authName := pn("(*Proxy).backend"), pn("(*Backend).authorize")
	snKey := p.constStr("proxy", "serverNameKey")
	leaf := p.extField("crypto/tls", "ConnectionState", "PeerCertificates")
	sels, sinks := 0, 0
	for _, e := range p.acceptHandlers() {
		isBe := func(c *Ctx, t *Term) bool {
			be := c.St.Has("be")
			t = unwrap(t)
			return len(be) == 1 && t.op == "extract" && t.s == "0" && t.args[0] == be[0].Res
		}
		sinkAt := func(c *Ctx, in ssa.Instruction) {
			s := backendSink(in)
			if s == "" || hasEv(c, "tls") || hasEv(c, "passthrough") {
				return
			}
			sinks++
			r.Assert(hasEv(c, "noauth") || c.St.OKNil("auth") != nil, auth, s+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), posOf(in), "%s reached although the selected backend may require a client certificate that it did not authorize: %s", s, c.Trace(in))
		}
		r.Walk(&Rule{
			Name: auth,
			NoInline: func(f *ssa.Function) bool {
				return oneOf(funcName(f), selName, authName) || !inPkg(f, "/proxy")
			},
			Interesting: func(in ssa.Instruction) bool {
				return backendSink(in) != "" || isCall(in, selName, authName, "crypto/tls.Server")
			},
			OnCall: func(c *CallCtx) {
				switch c.Name {
				case selName:
					for _, l := range []string{"be", "auth", "noauth"} {
						c.St.Kill(l)
					}
					c.St.Event("be", c.Res, nil, c.In)
				case authName:
					if isBe(&c.Ctx, c.Args[0]) {
						o := p.Origins(c.In.Common().Args[1], FlowOpts{})
						r.Assert(o.Fields[leaf], auth, "certificate authorized in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the certificate that is authorized is not the connection's")
						c.St.Event("auth", c.Res, nil, c.In)
					}
					c.Opaque = true
				case "crypto/tls.Server":
					c.St.Event("tls", nil, nil, nil)
				default:
					sinkAt(&c.Ctx, c.In)
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if _, ok := in.(*ssa.Send); ok {
					sinkAt(c, in)
				}
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if cond.op == "isnil" && val && isField(caF)(cond.args[0]) && isBe(c, cond.args[0].args[0]) {
					c.St.Event("noauth", nil, nil, nil)
				}
				if x, y, eq, ok := sameEq(cond, val); ok && eq {
					if isField(modeF)(y) {
						x, y = y, x
					}
					if isField(modeF)(x) && isStr("TLSPASSTHROUGH")(y) {
						c.St.Event("passthrough", nil, nil, nil)
					}
				}
			},
		}, e, nil)
		r.Walk(&Rule{
			Name: rule, NoGo: true,
			NoInline: func(f *ssa.Function) bool { return funcName(f) == selName || !inPkg(f, "/proxy") },
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				n := calleeName(ci)
				return n == selName || strings.HasSuffix(n, ".SetAnnotation") || strings.HasSuffix(n, ".add") || strings.HasSuffix(n, ".Add")
			},
			OnCall: func(c *CallCtx) {
				switch {
				case c.Name == selName:
					sels++
					r.Assert(hasEv(&c.Ctx, "listed"), rule, "selection of a backend in "+fnLabel(e)+": listed", c.In.Pos(), "a backend is selected for a connection that is not yet in the list of open connections")
					ann := c.St.Has("named")
					r.Assert(len(ann) == 1 && ann[0].Args[0] == c.Args[1], rule, "selection of a backend in "+fnLabel(e)+": annotated", c.In.Pos(), "a backend is selected for a connection that is not yet annotated with the server name")
					c.Opaque = true
				case strings.HasSuffix(c.Name, ".SetAnnotation") && len(c.Args) >= 2:
					if k, ok := constString(unwrap(c.Args[len(c.Args)-2])); ok && k == snKey {
						c.St.Kill("named")
						c.St.Event("named", nil, []*Term{unwrap(c.Args[len(c.Args)-1])}, nil)
					}
				case len(c.Args) == 2 && isField(inF)(c.Args[0]) && c.Args[1].mentions(anyOfParams(e)):
					c.St.Event("listed", nil, nil, nil)
				}
			},
		}, e, nil)
	}
	want := 2
	if p.Variant.Tags != "" {
		want = 1
	}
	if p.Variant.Tags == "" {
		r.AssertAt(sinks > 0, auth, "connections are served", "-", "no sink found")
	}
	r.AssertAt(sels >= want, rule, "backends are selected", "-", "%d selections, expected %d", sels, want)
}

// anyOfParams: one of the function's parameters.
func anyOfParams(f *ssa.Function) tp {
	return func(t *Term) bool {
		for _, q := range f.Params {
			if isParam(q)(t) {
				return true
			}
		}
		return false
	}
}

// isAnnotated: values of the type carry annotations.
func isAnnotated(t types.Type) bool {
	return types.NewMethodSet(t).Lookup(nil, "Annotation") != nil
}

// reconfTable decides that the table of backends has every name of every
// backend.
func reconfTable(r *Report, p *Prog, entries map[ssa.Instruction]string) {
	const rule = "reconf-table"
	r.Rule(rule, "the table of backends gets an entry for every server name of every configured backend, unless one is there already, and one for every combination of a server name and a protocol of the backend")
	tableF := r.mustField(rule, "proxy", "Proxy", "backends")
	alpnF := r.mustField(rule, "proxy", "Backend", "ALPNProtos")
	if tableF == nil || alpnF == nil {
		return
	}
	isTable := func(t types.Type) bool { return types.Identical(t, tableF.Type()) }
	kinds := map[string]int{}
	for _, f := range p.funcsWhere(func(f *ssa.Function) bool { return inPkg(f, "/proxy") }) {
		instrs(f, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isTable(mu.Map.Type()) {
				return
			}
			kind := entries[in]
			where := "entry for a " + kind + " in " + fnLabel(f)
			if !r.Assert(kind != "" && kind != "?", rule, "entry of the table in "+fnLabel(f), in.Pos(), "an entry is added to the table of backends whose key is not one of the backend's server names, with one of its protocols or none") {
				return
			}
			kinds[kind]++
			lp := innermost(f, in.Block())
			if !r.Assert(lp != nil, rule, where+": loop", in.Pos(), "the entry is not added in a loop") {
				return
			}
			r.Assert(lp.everyIteration(func(x ssa.Instruction) bool {
				l, isL := x.(*ssa.Lookup)
				return x == in || isL && kind == "server name" && isTable(l.X.Type())
			}), rule, where+": every element", in.Pos(), "an iteration can finish without adding the entry")
			r.Assert(lp.runsToEnd(), rule, where+": whole list", in.Pos(), "the loop can end early")
			for _, out := range loopsOf(f) {
				if out == lp || !out.body[lp.head] || out.head == lp.head {
					continue
				}
				r.Assert(out.everyIteration(func(x ssa.Instruction) bool {
					if x.Block() == lp.head {
						return true
					}
					i, isIf := x.(*ssa.If)
					return isIf && kind != "server name" && p.Origins(i.Cond, FlowOpts{NoCallers: true}).Fields[alpnF]
				}), rule, where+": every backend", in.Pos(), "an iteration of an enclosing loop can finish without adding the entries")
				r.Assert(out.runsToEnd(), rule, where+": all backends", in.Pos(), "the enclosing loop can end early")
			}
		})
	}
	for _, k := range []string{"server name", "server name and protocol"} {
		r.AssertAt(kinds[k] > 0, rule, "entries for each "+k, "-", "nothing adds the entry to the table of backends")
	}
}
