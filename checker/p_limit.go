package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C28", Title: "Rate limits apply to every connection and request",
		Explain: "Path-sensitive walks of the methods that move bytes, of every function started for an accepted connection, and of the HTTP handlers, for the waits on the rate limiters; data dependence of the limiters and their rates on the configuration.",
		Run:     runC28,
	})
}

const (
	limWaitN = "(*golang.org/x/time/rate.Limiter).WaitN"
	limWait  = "(*golang.org/x/time/rate.Limiter).Wait"
	limNew   = "golang.org/x/time/rate.NewLimiter"
	limSet   = "(*golang.org/x/time/rate.Limiter).SetLimit"
)

func runC28(r *Report, p *Prog) {
	limitIO(r, p)
	limitConfig(r, p)
	limitAttached(r, p)
	forwardRate(r, p)
}

func isLimiter(t types.Type) bool { return isPtrTo(t, "golang.org/x/time/rate.Limiter") }

// limitIO: the connection wrappers wait for their limiter whenever they move
// bytes, and move bytes in no other way.
func limitIO(r *Report, p *Prog) {
	const rule = "limited-io"
	r.Rule(rule, "Read and Write of the connection and stream wrappers move bytes only when there is no limiter for that direction or after a successful wait for as many bytes as the caller's buffer has; the wrappers inherit no other way to move bytes; QUIC connections hand out wrapped streams only")
	const pkg = "proxy/internal/netw"
	for _, w := range []struct {
		typ, holder string
		quic        bool
	}{{"Conn", "Conn", false}, {"QUICStream", "QUICConn", true}} {
		if w.quic && p.Variant.Tags != "" {
			continue
		}
		in, out := r.mustField(rule, pkg, w.holder, "ingressLimiter"), r.mustField(rule, pkg, w.holder, "egressLimiter")
		if in == nil || out == nil {
			continue
		}
		set := r.mustFunc(rule, pkg, "(*"+w.holder+").SetLimiters", func(f *ssa.Function) bool {
			return len(f.Params) == 3 && has(f, func(x ssa.Instruction) bool { return touchesField(x, in) }) && has(f, func(x ssa.Instruction) bool { return touchesField(x, out) })
		})
		if set != nil {
			for i, fv := range []*types.Var{in, out} {
				for _, s := range p.storesTo(fv) {
					r.Assert(s.Parent() == set && s.Val == ssa.Value(set.Params[i+1]), rule, w.holder+"."+fv.Name()+" set", s.Pos(), "the limiter is not the one given to SetLimiters for that direction")
				}
				r.AssertAt(len(p.storesTo(fv)) > 0, rule, w.holder+"."+fv.Name()+" is set", "-", "nothing sets the limiter")
			}
		}
		for _, d := range []struct {
			name string
			fv   *types.Var
		}{{"Read", in}, {"Write", out}} {
			fn := p.Func(pkg, "(*"+w.typ+")."+d.name)
			if fn == nil {
				r.Missing(rule, w.typ+"."+d.name)
				continue
			}
			moved := 0
			moves := func(c *CallCtx) bool {
				if c.Name == "builtin.copy" && d.name == "Read" {
					return isParam(fn.Params[1])(stripConv(c.Args[0])) || c.Args[0].mentions(isParam(fn.Params[1]))
				}
				com := c.In.Common()
				name := c.Name[strings.LastIndex(c.Name, ".")+1:]
				if com.IsInvoke() {
					name = com.Method.Name()
				}
				if !oneOf(name, "Read", "Write", "ReadFrom", "WriteTo", "ReadFull", "ReadAtLeast", "Copy", "CopyBuffer") {
					return false
				}
				for _, a := range c.Args {
					if a.mentions(isParam(fn.Params[1])) {
						return true
					}
				}
				return false
			}
			r.Walk(&Rule{
				Name: rule, InlineAll: true, KeepRes: true,
				Keep: func(t *Term) bool { return mentionsField(t, d.fv) },
				OnCall: func(c *CallCtx) {
					switch {
					case c.Name == limWaitN:
						c.St.Event("wait", c.Res, c.Args, nil)
					case moves(c):
						moved++
						ok := false
						for k, v := range c.St.facts {
							ok = ok || k.op == "isnil" && v && isField(d.fv)(k.args[0])
						}
						for _, ev := range c.St.Has("wait") {
							if okResult(&c.Ctx, ev) && mentionsField(ev.Args[0], d.fv) && isLen(stripConv(ev.Args[2])) && ev.Args[2].mentions(isParam(fn.Params[1])) {
								ok = true
							}
						}
						r.Assert(ok, rule, "bytes moved in "+fnLabel(c.Fr.Fn)+" for "+fnLabel(fn), c.In.Pos(), "bytes are moved although there may be a limiter that was not waited for: %s", c.Trace(c.In.(ssa.Instruction)))
					}
				},
			}, fn, nil)
			r.Assert(moved > 0, rule, w.typ+"."+d.name+" moves bytes", fn.Pos(), "no call that moves bytes was found")
		}
		// other ways
		if tn, _ := p.Pkg(pkg).Scope().Lookup(w.typ).(*types.TypeName); tn != nil {
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			for _, n := range []string{"ReadFrom", "WriteTo", "ReadByte", "ReadMsg", "WriteString", "SyscallConn", "File"} {
				r.Assert(ms.Lookup(tn.Pkg(), n) == nil, rule, w.typ+"."+n, tn.Pos(), "the wrapper has another way to move bytes")
			}
		}
	}
	if p.Variant.Tags != "" {
		return
	}
	qcF := r.mustField(rule, pkg, "QUICStream", "qc")
	n := 0
	for _, fn := range p.Funcs {
		recv := fn.Signature.Recv()
		if recv == nil || !inPkg(fn, "/"+pkg) || !isPtrTo(recv.Type(), modPath+"/"+pkg+".QUICConn") || fn.Signature.Results().Len() == 0 || !fn.Object().Exported() {
			continue
		}
		it := fn.Signature.Results().At(0).Type()
		if name := it.String(); !strings.HasSuffix(name, ".Stream") && !strings.HasSuffix(name, ".ReceiveStream") && !strings.HasSuffix(name, ".SendStream") {
			continue
		}
		n++
		r.Walk(&Rule{
			Name: rule, InlineAll: true,
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if in.Parent() != fn || c.St.Nil(rets[0]) == yes {
					return
				}
				t := rets[0]
				wrapped := t.op == "alloc" && t.typ != nil && isPtrTo(t.typ, modPath+"/"+pkg+".QUICStream")
				owner := wrapped && isParam(fn.Params[0])(c.St.Load(c.W.T.field(t, qcF), qcF.Type()))
				r.Assert(wrapped && owner, rule, "stream of "+fnLabel(fn), in.Pos(), "the stream is not wrapped for this connection: %v", t)
			},
		}, fn, nil)
	}
	r.AssertAt(n >= 4, rule, "streams of QUIC connections", "-", "found %d methods that return a stream", n)
}

// limitConfig: the limiters have the rates of their entry in the configuration.
func limitConfig(r *Report, p *Prog) {
	const rule = "limit-config"
	r.Rule(rule, "limiters are created and updated with the rates of the direction and of the entry with their name, each entry at each configuration, and each backend gets the limiter with the name it is configured with, spelled the same; a name without an entry is refused; the forward rate limit is the configured one, and never absent")
	lim := map[string]*types.Var{}
	conf := map[string]*types.Var{}
	for l, c := range map[string]string{"ingress": "Ingress", "egress": "Egress"} {
		lim[l], conf[l] = r.mustField(rule, "proxy", "bwLimit", l), r.mustField(rule, "proxy", "BWLimit", c)
	}
	name, want, have := r.mustField(rule, "proxy", "BWLimit", "Name"), r.mustField(rule, "proxy", "Backend", "BWLimit"), r.mustField(rule, "proxy", "Backend", "bwLimit")
	kept := r.mustField(rule, "proxy", "Proxy", "bwLimits")
	wantRate, connLimit := r.mustField(rule, "proxy", "Backend", "ForwardRateLimit"), r.mustField(rule, "proxy", "Backend", "connLimit")
	if len(lim) != 2 || name == nil || kept == nil || want == nil || have == nil || wantRate == nil || connLimit == nil || lim["ingress"] == nil || lim["egress"] == nil || conf["ingress"] == nil || conf["egress"] == nil {
		return
	}
	other := map[string]string{"ingress": "egress", "egress": "ingress"}
	rateOf := func(t *Term, d string) bool { return mentionsField(t, conf[d]) && !mentionsField(t, conf[other[d]]) }
	updates := map[string][]ssa.CallInstruction{}
	created := map[string]int{}
	entry := r.mustFunc(rule, "proxy", "(*Proxy).Reconfigure", func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && f.Signature.Params().Len() == 1 && isPtrTo(f.Signature.Params().At(0).Type(), modPath+"/proxy.Config") && f.Signature.Results().Len() == 1
	})
	if entry == nil {
		return
	}
	covered := map[ssa.Instruction]bool{}
	r.Walk(&Rule{
		Name: rule, Cap: 24, KeepRes: true, MaxDepth: 6,
		Interesting: func(in ssa.Instruction) bool {
			return isCall(in, limNew) || isCall(in, limSet) || touchesField(in, lim["ingress"]) || touchesField(in, lim["egress"])
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			for d, fv := range lim {
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) != fv {
					continue
				}
				created[d]++
				covered[s] = true
				v := c.V(s.Val)
				good := v.op == "csym" || v.op == "call" || v.op == "sym"
				for _, ev := range c.St.Has("new") {
					if ev.Res == v {
						good = rateOf(ev.Args[0], d)
					}
				}
				good = good && len(c.St.Has("new")) > 0
				r.Assert(good, rule, d+" limiter created in "+fnLabel(in.Parent()), posOf(in), "the limiter's rate is not the entry's %s rate: %v", d, v)
			}
		},
		OnCall: func(c *CallCtx) {
			switch c.Name {
			case limNew:
				c.St.Event("new", c.Res, c.Args, nil)
			case limSet:
				for d, fv := range lim {
					if mentionsField(c.Args[0], fv) {
						covered[c.In.(ssa.Instruction)] = true
						updates[d] = append(updates[d], c.In)
						r.Assert(rateOf(c.Args[1], d), rule, d+" limiter updated in "+fnLabel(c.In.Parent()), c.In.Pos(), "the rate is not the entry's %s rate: %v", d, c.Args[1])
					}
				}
			}
		},
	}, entry, nil)
	for _, d := range []string{"ingress", "egress"} {
		r.AssertAt(created[d] > 0, rule, d+" limiters are created", "-", "no %s limiter is created", d)
		for _, s := range p.storesTo(lim[d]) {
			r.Assert(covered[s], rule, d+" limiter stored in "+fnLabel(s.Parent()), s.Pos(), "a limiter is replaced somewhere else than in the reconfiguration")
		}
		r.AssertAt(len(updates[d]) > 0, rule, d+" limiters are updated", "-", "an existing %s limiter does not get the rate of a new configuration", d)
		for _, ci := range updates[d] {
			r.Assert(everyRound(p, ci, 4), rule, d+" limiter of every entry updated", ci.Pos(), "an entry's limiter may not be updated")
		}
	}
	// the names under which limiters are kept and found
	isLimMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isPtrTo(m.Elem(), modPath+"/proxy.bwLimit")
	}
	key := func(k ssa.Value, what string, in ssa.Instruction) {
		o := p.Origins(k, FlowOpts{})
		if len(o.Fields) == 0 {
			return // copied from another map
		}
		r.Assert((o.HasField(name) || o.HasField(want)) && len(o.Calls) == 0, rule, what+" in "+fnLabel(in.Parent()), posOf(in), "the limiter's name is not spelled as it is configured (fields %v calls %v)", fieldNames(o), o.CallList())
	}
	for _, fn := range p.Funcs {
		if !inPkg(fn, "/proxy") || inTestFile(p, fn) {
			continue
		}
		instrs(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if isLimMap(x.Map.Type()) {
					key(x.Key, "limiter stored", in)
				}
			case *ssa.Lookup:
				if isLimMap(x.X.Type()) {
					key(x.Index, "limiter looked up", in)
				}
			}
		})
	}
	n := 0
	for _, s := range p.storesTo(have) {
		if isNilConst(s.Val) {
			r.Assert(false, rule, "limiter of a backend removed in "+fnLabel(s.Parent()), s.Pos(), "the backend's limiter is removed")
			continue
		}
		n++
		ok := false
		for _, lk := range lookupsBehind(p, s.Val) {
			o := p.Origins(lk.Index, FlowOpts{})
			ok = isLimMap(lk.X.Type()) && o.HasField(want) && !p.Origins(lk.X, FlowOpts{StopCall: func(string) bool { return true }}).HasField(kept)
			if !ok {
				break
			}
		}
		r.Assert(ok, rule, "limiter of a backend in "+fnLabel(s.Parent()), s.Pos(), "the backend's limiter is not the one with the configured name")
	}
	r.AssertAt(n > 0, rule, "limiters of backends", "-", "no backend gets a limiter")
	// forward rate
	n = 0
	for _, s := range p.storesTo(connLimit) {
		n++
		o := p.Origins(s.Val, FlowOpts{})
		ok := o.HasCall(limNew) && o.HasField(wantRate) && len(o.Fields) == 1
		for ci := range o.CallIns {
			if calleeName(ci) == limNew {
				ok = ok && p.Origins(ci.Common().Args[0], FlowOpts{}).HasField(wantRate)
			}
		}
		r.Assert(ok, rule, "forward rate limit in "+fnLabel(s.Parent()), s.Pos(), "the forward rate limiter does not have the configured rate (fields %v)", fieldNames(o))
		if l := innermost(s.Parent(), s.Block()); l != nil {
			r.Assert(l.everyIteration(func(in ssa.Instruction) bool { return in == ssa.Instruction(s) }), rule, "forward rate limit of every backend", s.Pos(), "a backend may have no forward rate limiter")
		}
	}
	r.AssertAt(n > 0, rule, "forward rate limits", "-", "no backend has a forward rate limiter")
	// a name without an entry
	checkF := r.mustFunc(rule, "proxy", "(*Config).Check", func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && isPtrTo(f.Signature.Recv().Type(), modPath+"/proxy.Config") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isErrorType(f.Signature.Results().At(0).Type()) && has(f, func(x ssa.Instruction) bool { return touchesField(x, connLimit) })
	})
	if checkF == nil {
		return
	}
	found := 0
	r.Walk(&Rule{
		Name: rule, Cap: 48, MaxDepth: 4,
		Interesting: func(in ssa.Instruction) bool { return touchesField(in, want) },
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			if !mentionsField(cond, want) {
				return
			}
			empty := cond.op == "bin" && cond.s == "==" && (isStr("")(cond.args[0]) || isStr("")(cond.args[1]))
			switch {
			case empty && val:
				c.St.Kill("undefined")
				c.St.Event("empty", nil, nil, nil)
			case empty:
				c.St.Kill("empty")
			case val:
				c.St.Kill("undefined")
			default:
				found++
				if !hasEv(c, "empty") {
					c.St.Event("undefined", nil, nil, nil)
				}
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() == checkF && c.St.Nil(rets[0]) != no {
				r.Assert(!hasEv(c, "undefined"), rule, "names of bandwidth limits in "+fnLabel(checkF), in.Pos(), "a configuration with a backend whose bandwidth limit has no entry is accepted: %s", c.Trace(in))
			}
		},
	}, checkF, nil)
	r.AssertAt(found > 0, rule, "names of bandwidth limits", "-", "no test of the name of a backend's bandwidth limit was found")
}

// everyRound: the innermost loop around the call, in its function or in the
// functions that call it, makes the call in every iteration.
func everyRound(p *Prog, ci ssa.CallInstruction, depth int) bool {
	self := func(in ssa.Instruction) bool { return in == ssa.Instruction(ci) }
	if l := innermost(ci.Parent(), ci.Block()); l != nil {
		return l.everyIteration(self)
	}
	if depth == 0 {
		return false
	}
	f := ci.Parent()
	if len(f.Blocks) == 0 || !self(f.Blocks[0].Instrs[0]) && pathAvoiding(f.Blocks[0].Instrs[0], func(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok }, self) != nil {
		return false
	}
	n := 0
	for _, c := range p.idx.callers[f] {
		if inTest(p, c) {
			continue
		}
		n++
		if !everyRound(p, c, depth-1) {
			return false
		}
	}
	return n > 0
}

// lookupsBehind lists the map lookups that a value comes from.
func lookupsBehind(p *Prog, v ssa.Value) []*ssa.Lookup {
	var out []*ssa.Lookup
	seen := map[ssa.Value]bool{}
	var visit func(ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Lookup:
			out = append(out, x)
		case *ssa.Extract:
			visit(x.Tuple)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.Call:
			if g := staticCallee(x); g != nil && inModule(g) {
				instrs(g, func(in ssa.Instruction) {
					if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 {
						visit(ret.Results[0])
					}
				})
			}
		case *ssa.Parameter:
			for _, c := range p.idx.callers[x.Parent()] {
				if i := paramIndex(x); i < len(c.Common().Args) && !inTest(p, c) {
					visit(c.Common().Args[i])
				}
			}
		}
	}
	visit(v)
	return out
}

// limitAttached: a connection has its backend's limiters before it exchanges
// data with anything.
func limitAttached(r *Report, p *Prog) {
	const rule, fwd = "limit-attached", "forward-rate"
	r.Rule(rule, "every accepted connection whose backend has a bandwidth limit is given the backend's ingress and egress limiters, in that order, before a backend is dialed for it or it is handed to a server")
	r.Rule(fwd, "every accepted connection has waited for the backend's forward rate limiter, successfully, before a backend is dialed for it or it is handed to a server; a forwarded HTTP request has waited too, except for the first of its connection")
	lf, in, out := r.mustField(rule, "proxy", "Backend", "bwLimit"), r.mustField(rule, "proxy", "bwLimit", "ingress"), r.mustField(rule, "proxy", "bwLimit", "egress")
	cl := r.mustField(fwd, "proxy", "Backend", "connLimit")
	if lf == nil || in == nil || out == nil || cl == nil {
		return
	}
	isSet := func(n string) bool { return strings.HasSuffix(n, ".SetLimiters") }
	for _, e := range p.acceptHandlers() {
		var check func(c *Ctx, s string, at ssa.Instruction)
		check = func(c *Ctx, s string, at ssa.Instruction) {
			where := s + " in " + fnLabel(c.Fr.Fn) + " from " + fnLabel(e)
			r.Assert(hasEv(c, "limited"), rule, where, posOf(at), "%s although the backend's bandwidth limiters may not have been attached: %s", s, c.Trace(at))
			ok := false
			for _, ev := range c.St.Has("rate") {
				ok = ok || okResult(c, ev)
			}
			r.Assert(ok, fwd, where, posOf(at), "%s without a successful wait for the forward rate limiter: %s", s, c.Trace(at))
		}
		r.Walk(&Rule{
			Name: rule,
			Interesting: func(x ssa.Instruction) bool {
				return backendSink(x) != "" || isCall(x, limWait) || touchesField(x, lf) || isSetLimiters(x)
			},
			KeepRes: true,
			Keep:    func(t *Term) bool { return mentionsField(t, lf) },
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if cond.op == "isnil" && val && isField(lf)(cond.args[0]) {
					c.St.Event("limited", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				switch {
				case isSet(c.Name):
					a := c.Args[len(c.Args)-2:]
					ok := isField(in)(a[0]) && mentionsField(a[0], lf) && isField(out)(a[1]) && mentionsField(a[1], lf)
					r.Assert(ok, rule, "limiters attached in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the limiters are not the backend's ingress and egress limiters: %v, %v", a[0], a[1])
					c.St.Event("limited", nil, nil, nil)
					c.Opaque = true
				case c.Name == limWait && mentionsField(c.Args[0], cl):
					c.St.Event("rate", c.Res, nil, nil)
				default:
					if s := backendSink(c.In); s != "" {
						check(&c.Ctx, s, c.In.(ssa.Instruction))
					}
				}
			},
			OnInstr: func(c *Ctx, at ssa.Instruction) {
				if _, isSend := at.(*ssa.Send); isSend {
					if s := backendSink(at); s != "" {
						check(c, s, at)
					}
				}
			},
		}, e, nil)
	}
	for _, n := range []string{rule, fwd} {
		if p.Variant.Tags == "" {
			r.Min(n, 6)
		} else {
			r.Min(n, 2)
		}
	}
}

func isSetLimiters(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	return ok && strings.HasSuffix(calleeName(ci), ".SetLimiters")
}

// forwardRate: requests after the first of a connection wait for the limiter.
func forwardRate(r *Report, p *Prog) {
	const rule = "forward-rate"
	cl := p.Field("proxy", "Backend", "connLimit")
	flag := p.constStr("proxy", "requestFlagKey")
	if cl == nil || flag == "" {
		r.Missing(rule, "requestFlagKey")
		return
	}
	isFlag := func(t *Term) bool {
		return t.mentions(func(x *Term) bool {
			return (x.op == "call" || x.op == "csym") && isAnnotationRead(x.s) && x.mentions(isStr(flag))
		})
	}
	n := 0
	for _, e := range p.httpHandlers() {
		r.Walk(&Rule{
			Name: rule,
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return httpSink(in) == "reverse proxy" || isCall(in, limWait) || ok && (isAnnotationRead(calleeName(ci)) || strings.HasSuffix(calleeName(ci), ".SetAnnotation"))
			},
			KeepRes: true,
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				switch {
				case isFlag(cond) && cond.op != "istype":
					if !val {
						c.St.Event("first", nil, nil, nil)
					}
				case cond.op == "istype" && !val && strings.Contains(cond.s, "nnotatedConn"):
					c.St.Event("no connection", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				switch {
				case c.Name == limWait && mentionsField(c.Args[0], cl):
					c.St.Event("rate", c.Res, nil, nil)
				case strings.HasSuffix(c.Name, ".SetAnnotation"):
					for _, a := range c.Args {
						if isStr(flag)(a) && isTrueConst(stripConv(c.Args[len(c.Args)-1])) {
							c.St.Event("flagged", nil, nil, nil)
						}
					}
				case httpSink(c.In) == "reverse proxy":
					n++
					ok := hasEv(&c.Ctx, "no connection") || hasEv(&c.Ctx, "first") && hasEv(&c.Ctx, "flagged")
					for _, ev := range c.St.Has("rate") {
						ok = ok || okResult(&c.Ctx, ev)
					}
					r.Assert(ok, rule, "request forwarded in "+fnLabel(c.Fr.Fn), c.In.Pos(), "a request that is not the first of its connection is forwarded without a successful wait for the forward rate limiter: %s", c.Trace(c.In.(ssa.Instruction)))
				}
			},
		}, e, nil)
	}
	r.AssertAt(n > 0, rule, "requests are forwarded", "-", "no forwarded request was found")
}

func isTrueConst(t *Term) bool {
	return t != nil && t.cv != nil && t.cv.Kind() == constant.Bool && constant.BoolVal(t.cv)
}
