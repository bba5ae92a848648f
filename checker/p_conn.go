package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// backendSinks are the operations through which a client connection starts
// exchanging data with a backend or with a local HTTP handler.
func backendSink(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Send:
		if isChanOf(x.Chan.Type(), "net.Conn") {
			return "hand-off to HTTP server"
		}
	case ssa.CallInstruction:
		n := calleeName(x)
		switch {
		case oneOf(n, "(*net.Dialer).DialContext", "(*net.Dialer).Dial", "net.Dial", "net.DialTimeout", "net.DialTCP", "crypto/tls.Dial", "crypto/tls.DialWithDialer", "(*crypto/tls.Dialer).DialContext"):
			return "dial"
		case strings.HasSuffix(n, ".Server).ServeQUICConn"):
			return "ServeQUICConn"
		case strings.HasPrefix(n, "(*"+modPath+"/proxy/internal/netw.QUICTransport).Dial"):
			return "dial QUIC"
		case n == "io.Copy" || n == "io.CopyBuffer" || n == "io.CopyN":
			return "copy"
		}
	}
	return ""
}

func checkIPFinger(p *Prog) func(*ssa.Function) bool {
	deny := p.Field("proxy", "Backend", "denyIPs")
	return func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && f.Signature.Results().Len() == 1 && has(f, func(in ssa.Instruction) bool { return touchesField(in, deny) })
	}
}

func init() {
	register(&Check{
		ID: "C01", Title: "IP allow/deny lists gate every connection",
		Explain: "Path-sensitive typestate dataflow over the SSA of every function started for an accepted TCP or QUIC connection (helpers, closures and goroutines inlined): no path reaches a dial, a hand-off to an HTTP server, an HTTP/3 server or a byte copy unless the backend's IP filter returned nil on that path; plus a decision-table check of the filter itself.",
		Run:     runC01,
	})
}

func runC01(r *Report, p *Prog) {
	const rule = "ip-gate"
	r.Rule(rule, "every path from an accepted connection to a backend dial / HTTP hand-off / HTTP3 serve / byte copy passes a successful call of the backend IP filter on that connection's remote address")
	chk := r.mustFunc(rule, "proxy", "(*Backend).checkIP", checkIPFinger(p))
	if chk == nil {
		return
	}
	chkName := funcName(chk)
	entries := p.acceptHandlers()
	wantEntries := 1
	if p.Variant.Tags == "" {
		wantEntries = 2
	}
	r.AssertAt(len(entries) >= wantEntries, "ip-gate-entries", "connection entry points", "-", "found %d functions spawned from accept loops, expected %d", len(entries), wantEntries)
	for _, e := range entries {
		r.Walk(&Rule{
			Name:        rule,
			Interesting: func(in ssa.Instruction) bool { return backendSink(in) != "" || isCall(in, chkName) },
			OnCall: func(c *CallCtx) {
				if c.Name == chkName {
					ok := len(c.Args) == 2 && c.Args[1].mentions(func(t *Term) bool {
						return (t.op == "call" || t.op == "csym") && strings.HasSuffix(t.s, ".RemoteAddr")
					})
					r.Assert(ok, "ip-gate-arg", "argument of IP filter in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the IP filter is not applied to the connection's remote address (argument is %v)", c.Args[len(c.Args)-1])
					if ok {
						c.St.Event("ip", c.Res, c.Args, c.In)
					}
					c.Opaque = true
					return
				}
				if s := backendSink(c.In); s != "" {
					ok := c.St.OKNil("ip") != nil
					r.Assert(ok, rule, s+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), c.In.Pos(), "%s reached without a successful IP check: %s", s, c.Trace(c.In))
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if s := backendSink(in); s != "" {
					ok := c.St.OKNil("ip") != nil
					r.Assert(ok, rule, s+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), in.Pos(), "%s reached without a successful IP check: %s", s, c.Trace(in))
				}
			},
		}, e, nil)
	}
	if p.Variant.Tags == "" {
		r.Min(rule, 6)
	} else {
		r.Min(rule, 2)
	}
	checkIPDecision(r, p, chk)
}

// checkIPDecision decides the truth table of the filter and where its lists
// come from.
func checkIPDecision(r *Report, p *Prog, fn *ssa.Function) {
	const rule = "ip-decision"
	r.Rule(rule, "the IP filter returns nil only when no deny network contains the IP (whole list examined) and, with an allow list, some allow network contains it; it fails otherwise only for those reasons or for an address without an IP")
	deny := r.mustField(rule, "proxy", "Backend", "denyIPs")
	allow := r.mustField(rule, "proxy", "Backend", "allowIPs")
	if deny == nil || allow == nil {
		return
	}
	lists := map[string]*types.Var{"deny": deny, "allow": allow}
	var qs []*quant
	for _, l := range []string{"deny", "allow"} {
		fv := lists[l]
		isList := func(t *Term) bool { return t.op == "field" && t.fv == fv }
		qs = append(qs, &quant{L: l, IsList: isList, IsTest: func(t *Term) bool {
			return (t.op == "csym" || t.op == "call") && t.s == "(*net.IPNet).Contains" && len(t.args) == 2 && t.args[0].mentions(isList)
		}})
	}
	isNilList := func(c *Ctx, l string) bool {
		for k, v := range c.St.facts {
			if v && k.op == "isnil" && k.args[0].op == "field" && k.args[0].fv == lists[l] {
				return true
			}
		}
		return false
	}
	r.Walk(&Rule{
		Name:        rule,
		InlineAll:   true,
		Keep:        func(t *Term) bool { return mentionsField(t, deny) || mentionsField(t, allow) },
		Interesting: func(in ssa.Instruction) bool { return true },
		OnCall: func(c *CallCtx) {
			if c.Name == "(*net.IPNet).Contains" {
				for _, a := range c.In.Common().Args[1:] {
					o := p.Origins(a, FlowOpts{})
					tcp, udp := false, false
					for f := range o.Fields {
						if f.Pkg() != nil && f.Pkg().Path() == "net" && f.Name() == "IP" {
							tcp, udp = true, true
						}
					}
					r.Assert(tcp && udp, "ip-decision-ip", "IP tested in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the tested IP does not come from the IP field of the connection's address")
				}
			}
		},
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			for _, q := range qs {
				q.branch(c, cond, val)
			}
			cc := cond
			v := val
			for cc.op == "not" {
				cc, v = cc.args[0], !v
			}
			if cc.op == "istype" && v {
				c.St.Event("type:"+cc.s, nil, nil, nil)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != fn {
				return
			}
			st := c.St
			hasIP := len(st.Has("type:*net.TCPAddr"))+len(st.Has("type:*net.UDPAddr")) > 0
			denied := len(st.Has("deny-hit")) > 0
			clean := isNilList(c, "deny") || len(st.Has("deny-done")) > 0 && len(st.Has("deny-open")) == 0
			allowed := isNilList(c, "allow") || len(st.Has("allow-hit")) > 0
			refused := !isNilList(c, "allow") && len(st.Has("allow-done")) > 0 && len(st.Has("allow-open")) == 0 && len(st.Has("allow-hit")) == 0
			switch st.Nil(rets[0]) {
			case yes:
				r.Assert(hasIP, rule, "accept: address carries an IP", in.Pos(), "the filter accepts an address that is neither *net.TCPAddr nor *net.UDPAddr")
				r.Assert(clean && !denied, rule, "accept: deny list exhausted without a match", in.Pos(), "the filter accepts without having found every deny network not to contain the IP")
				r.Assert(allowed, rule, "accept: no allow list or a match in it", in.Pos(), "the filter accepts although an allow list exists and no network of it was found to contain the IP")
			case no:
				r.Assert(!hasIP || denied || refused, rule, "refusal has a reason", in.Pos(), "the filter refuses an address that the lists permit")
			default:
				r.Assert(false, rule, "verdict is decided", in.Pos(), "the filter's verdict %v cannot be decided on this path", rets[0])
			}
		},
	}, fn, nil)
	r.Min(rule, 4)
	r.Min("ip-decision-ip", 1)
	for _, typ := range []string{"*net.TCPAddr", "*net.UDPAddr"} {
		found := hasDeepCalls(p, fn, func(in ssa.Instruction) bool {
			ta, ok := in.(*ssa.TypeAssert)
			return ok && ta.AssertedType.String() == typ
		})
		r.Assert(found, "ip-decision-types", "addresses of type "+typ, fn.Pos(), "the filter does not recognise %s, so those connections never pass", typ)
	}

	const cfg = "ip-config"
	r.Rule(cfg, "the filter lists are set only from the configured CIDR lists, every entry parsed with net.ParseCIDR and kept, a parse error rejecting the configuration")
	pub := map[string]string{"deny": "DenyIPs", "allow": "AllowIPs"}
	for _, l := range []string{"deny", "allow"} {
		fv := lists[l]
		src := r.mustField(cfg, "proxy", "Backend", pub[l])
		other := p.Field("proxy", "Backend", pub[map[string]string{"deny": "allow", "allow": "deny"}[l]])
		n := 0
		for _, s := range p.idx.stores[fv] {
			if isNilConst(s.Val) {
				r.Assert(false, cfg, l+" list cleared in "+fnLabel(s.Parent()), s.Pos(), "the %s list is reset to nil", l)
				continue
			}
			o := p.Origins(s.Val, FlowOpts{})
			n++
			r.Assert(o.HasField(src) && !o.HasField(other) && o.HasCall("net.ParseCIDR"), cfg, l+" list set in "+fnLabel(s.Parent()), s.Pos(), "the %s list is not computed by net.ParseCIDR from %s (fields %v calls %v)", l, pub[l], fieldNames(o), o.CallList())
			for ci := range o.CallIns {
				if calleeName(ci) == "net.ParseCIDR" {
					lp := innermost(ci.Parent(), ci.Block())
					if !r.Assert(lp != nil, cfg, l+" list parsed in a loop", ci.Pos(), "net.ParseCIDR is not applied in a loop over the list") {
						continue
					}
					r.Assert(lp.everyIteration(func(in ssa.Instruction) bool { return in == ci }), cfg, l+": every entry parsed", ci.Pos(), "an iteration over the %s list can skip net.ParseCIDR", l)
					r.Assert(lp.everyIteration(func(in ssa.Instruction) bool { return isAppendOf(p, in, ci) }), cfg, l+": every entry kept", ci.Pos(), "an iteration over the %s list can finish without keeping the parsed network", l)
				}
			}
		}
		r.AssertAt(n > 0, cfg, l+" list is configured", "-", "nothing sets the %s list from the configuration", l)
	}
}
