package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C20", Title: "PROXY headers come only from trusted peers and tell the true client",
		Explain: "Path-sensitive walk of the accept handlers (PROXY headers are read only from peers in a trusted network), decision table of the trust test, walk of the dialing functions (the header is written with the version of the same source before anything else), and content tracking of the connection pool key of the reverse proxy.",
		Run:     runC20,
	})
}

const proxyprotoPkg = "github.com/pires/go-proxyproto"

func runC20(r *Report, p *Prog) {
	trust := proxyTrust(r, p)
	if trust == nil {
		return
	}
	proxyAccept(r, p, trust)
	writers := proxyWriters(r, p)
	if len(writers) == 0 {
		return
	}
	proxyVersion(r, p)
	proxyDial(r, p, writers)
	poolKey(r, p, writers)
}

// proxyTrust decides the function that tells trusted peers.
func proxyTrust(r *Report, p *Prog) *ssa.Function {
	const rule, cfg = "proxyproto-trust", "proxyproto-config"
	r.Rule(rule, "a peer is trusted to send PROXY headers exactly when one of the configured networks contains its TCP address")
	r.Rule(cfg, "the trusted networks are the configured CIDRs, every entry parsed, a parse error rejecting the configuration")
	list := r.mustField(rule, "proxy", "Config", "acceptProxyHeaderFrom")
	src := r.mustField(rule, "proxy", "Config", "AcceptProxyHeaderFrom")
	if list == nil || src == nil {
		return nil
	}
	fn := r.mustFunc(rule, "proxy", "(*Proxy).acceptProxyHeader", func(f *ssa.Function) bool {
		return isBoolResult(f) && has(f, func(in ssa.Instruction) bool { return touchesField(in, list) })
	})
	if fn == nil {
		return nil
	}
	isList := isField(list)
	addr := fn.Params[len(fn.Params)-1]
	isIP := func(t *Term) bool {
		return t.op == "field" && t.fv.Name() == "IP" && t.fv.Pkg().Path() == "net" && t.mentions(isParam(addr))
	}
	isTest := func(t *Term) bool {
		return (t.op == "csym" || t.op == "call") && t.s == "(*net.IPNet).Contains" && len(t.args) == 2 && t.args[0].mentions(isList) && isIP(t.args[1])
	}
	q := &quant{L: "trusted", IsList: isList, IsTest: isTest}
	yesN := 0
	r.Walk(&Rule{
		Name: rule, InlineAll: true,
		Keep: func(t *Term) bool { return mentionsField(t, list) },
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			q.branch(c, cond, val)
			if cond.op == "istype" && strings.HasSuffix(cond.typ.String(), "net.TCPAddr") && !val {
				c.St.Event("notcp", nil, nil, nil)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != fn {
				return
			}
			hit := hasEv(c, "trusted-hit")
			done := hasEv(c, "trusted-done") && !hasEv(c, "trusted-open") && !hit
			switch b := c.St.Bool(rets[0]); {
			case b == no:
				r.Assert(done || hasEv(c, "notcp"), rule, "refusal in "+fnLabel(fn), posOf(in), "a peer is not trusted although not all trusted networks were examined")
			case b == yes:
				yesN++
				r.Assert(hit, rule, "trust in "+fnLabel(fn), posOf(in), "a peer is trusted although no trusted network was found to contain its address")
			default:
				r.Assert(false, rule, "verdict of "+fnLabel(fn), posOf(in), "the verdict %v is not decided", rets[0])
			}
		},
	}, fn, nil)
	r.AssertAt(yesN > 0, rule, "some peers are trusted", "-", "no path trusts a peer")

	n := 0
	for _, s := range p.idx.stores[list] {
		if isNilConst(s.Val) {
			continue
		}
		f := s.Parent()
		n++
		errs := 0
		for _, g := range append([]*ssa.Function{f}, staticCallees(f)...) {
			instrs(g, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || calleeName(ci) != "net.ParseCIDR" || !p.Origins(ci.Common().Args[0], FlowOpts{}).HasField(src) {
					return
				}
				errs++
				lp := innermost(g, ci.Block())
				r.Assert(lp != nil && lp.everyIteration(func(in ssa.Instruction) bool { return in == ci }), cfg, "every trusted network parsed in "+fnLabel(g), ci.Pos(), "an iteration over the list can skip net.ParseCIDR")
			})
		}
		r.Assert(errs > 0, cfg, "trusted networks parsed in "+fnLabel(f), s.Pos(), "the trusted networks do not come from the configured CIDRs")
		r.Walk(&Rule{
			Name:        cfg,
			Interesting: func(in ssa.Instruction) bool { return isCall(in, "net.ParseCIDR") },
			NoGo:        true,
			KeepRes:     true,
			OnCall: func(c *CallCtx) {
				if c.Name == "net.ParseCIDR" && mentionsField(c.Args[0], src) {
					c.St.Kill("cidr")
					c.St.Event("cidr", bare(c), nil, c.In)
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn != f || len(rets) == 0 || c.St.Nil(rets[len(rets)-1]) == no {
					return
				}
				if hasEv(c, "cidr") {
					r.Assert(c.St.OKNil("cidr") != nil, cfg, "configuration accepted by "+fnLabel(f), posOf(in), "the configuration is accepted although a trusted network may not have been parsed")
				}
			},
		}, f, nil)
	}
	r.AssertAt(n > 0, cfg, "trusted networks are configured", "-", "nothing sets the list of trusted networks")
	return fn
}

// staticCallees are the package's own functions called by f.
func staticCallees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	instrs(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if g := staticCallee(ci); g != nil && len(g.Blocks) > 0 && inModule(g) && !isExample(g) {
				out = append(out, g)
			}
		}
	})
	return out
}

// isRemoteAddr: the remote address of a connection.
func remoteAddrOf(t *Term) *Term {
	if (t.op == "call" || t.op == "csym") && strings.HasSuffix(t.s, ".RemoteAddr") && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

func proxyAccept(r *Report, p *Prog, trust *ssa.Function) {
	const rule = "proxyproto-accept"
	r.Rule(rule, "a PROXY header is read from a connection only after the connection's own peer was found to be trusted, and is always expected from trusted peers")
	isNew := func(n string) bool { return n == proxyprotoPkg+".NewConn" }
	sites := p.prodSites(func(n string, ci ssa.CallInstruction) bool {
		return strings.HasPrefix(n, proxyprotoPkg+".New") && n != proxyprotoPkg+".NewConn"
	})
	for _, s := range sites {
		r.Assert(false, rule, "use of "+calleeName(s)+" in "+fnLabel(s.Parent()), s.Pos(), "PROXY headers are read by other means than NewConn on a trusted connection")
	}
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				return
			}
			if isPtrTo(a.Type(), proxyprotoPkg+".Listener") || isPtrTo(a.Type(), proxyprotoPkg+".Conn") {
				r.Assert(false, rule, "listener in "+fnLabel(f), in.Pos(), "PROXY headers are read by other means than NewConn on a trusted connection")
			}
		})
	}
	n := 0
	for _, e := range p.acceptHandlers() {
		if !hasDeepCalls(p, e, func(in ssa.Instruction) bool { return isNew(calleeNameOf(in)) }) {
			continue
		}
		r.Walk(&Rule{
			Name: rule, KeepRes: true, NoGo: true,
			Interesting: func(in ssa.Instruction) bool {
				return isNew(calleeNameOf(in)) || isCall(in, funcName(trust))
			},
			NoInline: func(f *ssa.Function) bool { return f == trust },
			OnCall: func(c *CallCtx) {
				switch {
				case c.Fn == trust:
					c.St.Kill("trust")
					c.St.Event("trust", c.Res, c.Args, c.In)
				case isNew(c.Name):
					n++
					ev := c.St.OKTrue("trust")
					if !r.Assert(ev != nil, rule, "PROXY header read in "+fnLabel(c.Fr.Fn), c.In.Pos(), "a PROXY header is read from a peer that was not found to be trusted") {
						return
					}
					conn := remoteAddrOf(ev.Args[len(ev.Args)-1])
					ok := conn != nil && unwrap(c.Args[0]).mentions(func(x *Term) bool { return x == conn })
					r.Assert(ok, rule, "peer tested in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the trust decision is about %v, the PROXY header is read from %v", ev.Args[len(ev.Args)-1], c.Args[0])
					c.St.Event("wrapped", nil, nil, nil)
				case strings.HasSuffix(c.Name, "conntracker).add") || strings.HasSuffix(c.Name, ".SetAnnotation"):
				case c.Name == pn("peekClientHello") || strings.HasSuffix(c.Name, "peekClientHello"):
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn != e {
					return
				}
				if c.St.OKTrue("trust") != nil {
					r.Assert(hasEv(c, "wrapped"), rule, "PROXY header expected in "+fnLabel(e), posOf(in), "the PROXY header of a trusted peer is not read")
				}
			},
		}, e, nil)
	}
	r.AssertAt(n > 0, rule, "PROXY headers are read", "-", "no PROXY header is read anywhere")
}

// proxyWriters are the functions that write a PROXY header.
func proxyWriters(r *Report, p *Prog) map[*ssa.Function]bool {
	const rule = "proxyproto-header"
	r.Rule(rule, "the PROXY header tells the remote and local address of the client's connection in the requested version, is not a LOCAL header, and a failure to write it is reported")
	out := map[*ssa.Function]bool{}
	const from = proxyprotoPkg + ".HeaderProxyFromAddrs"
	cmdF := p.extField(proxyprotoPkg, "Header", "Command")
	srcF, dstF := p.extField(proxyprotoPkg, "Header", "SourceAddr"), p.extField(proxyprotoPkg, "Header", "DestinationAddr")
	for _, f := range p.funcsWhere(func(f *ssa.Function) bool {
		return inPkg(f, "/proxy") && has(f, func(in ssa.Instruction) bool { return isCall(in, from) })
	}) {
		if !r.Assert(len(f.Params) == 3 && f.Signature.Results().Len() == 1, rule, "writer "+fnLabel(f), f.Pos(), "the function that builds PROXY headers has another shape than (version, writer, connection) error") {
			continue
		}
		out[f] = true
		ver, w, conn := f.Params[0], f.Params[1], f.Params[2]
		n := 0
		r.Walk(&Rule{
			Name: rule, InlineAll: true, KeepRes: true,
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				switch fieldVar(fa.X.Type(), fa.Field) {
				case cmdF:
					k, ok := ssaConstInt(st.Val)
					r.Assert(ok && k == 0x21, rule, "command in "+fnLabel(f), in.Pos(), "the PROXY header's command is not PROXY")
				case srcF, dstF:
					r.Assert(false, rule, "addresses in "+fnLabel(f), in.Pos(), "the addresses of the PROXY header are changed")
				}
			},
			OnCall: func(c *CallCtx) {
				switch {
				case c.Name == from:
					addr := func(t *Term, what string) bool {
						return (t.op == "call" || t.op == "csym") && strings.HasSuffix(t.s, "."+what) && len(t.args) == 1 && isParam(conn)(unwrap(t.args[0]))
					}
					ok := len(c.Args) == 3 && isParam(ver)(stripConv(c.Args[0])) && addr(c.Args[1], "RemoteAddr") && addr(c.Args[2], "LocalAddr")
					r.Assert(ok, rule, "header built in "+fnLabel(f), c.In.Pos(), "the PROXY header is built from %v", c.Args)
					c.St.Event("header", c.Res, nil, c.In)
				case strings.HasSuffix(c.Name, proxyprotoPkg+".Header).WriteTo"):
					ev := c.St.Has("header")
					ok := len(ev) == 1 && ev[0].Res == c.Args[0] && isParam(w)(unwrap(c.Args[1]))
					if r.Assert(ok, rule, "header written in "+fnLabel(f), c.In.Pos(), "%v is written to %v", c.Args[0], c.Args[1]) {
						c.St.Event("written", c.Res, nil, c.In)
					}
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn != f {
					return
				}
				if c.St.Nil(rets[0]) == no {
					return
				}
				n++
				if ev := c.St.Has("written"); c.St.Nil(rets[0]) == unknown && len(ev) == 1 && rets[0].mentions(func(x *Term) bool { return x == ev[0].Res }) {
					return
				}
				r.Assert(c.St.OKNil("written") != nil, rule, "success of "+fnLabel(f), posOf(in), "success is reported although the PROXY header was not written")
			},
		}, f, nil)
		r.AssertAt(n > 0, rule, "success of "+fnLabel(f), "-", "the function never succeeds")
	}
	r.AssertAt(len(out) > 0, rule, "PROXY headers are written", "-", "no function writes PROXY headers")
	return out
}

func isClientConn(t *Term) bool {
	return t.mentions(func(x *Term) bool {
		return (x.op == "call" || x.op == "csym") && strings.HasSuffix(x.s, "context.Context).Value") && strings.Contains(x.String(), "connCtxKey")
	})
}

// positive: the path established the sign of the number.
func positiveNum(c *Ctx, t *Term) tri {
	if c.St.Eq(t, c.W.T.int(0)) == yes {
		return no
	}
	for k, v := range c.St.facts {
		if k.op != "bin" {
			continue
		}
		a, b := stripConv(k.args[0]), stripConv(k.args[1])
		switch {
		case k.s == "<" && isZeroConst(a) && b == t:
			return triOf(v)
		case k.s == "<" && a == t && isConstIntAtMost(b, 1) && v:
			return no
		case k.s == "<" && a == t && isConstIntAtMost(b, 1) && !v && !isZeroConst(b):
			return yes
		case k.s == "==" && (a == t && isZeroConst(b) || b == t && isZeroConst(a)):
			return triOf(!v)
		}
	}
	return unknown
}

func isConstIntAtMost(t *Term, max int64) bool {
	k, ok := constInt(t)
	return ok && k <= max
}

func proxyDial(r *Report, p *Prog, writers map[*ssa.Function]bool) {
	const rule = "proxyproto-dial"
	r.Rule(rule, "when PROXY headers are enabled for a backend or path override, every TCP connection to it starts with the header about the client's connection, written successfully before TLS and before the connection is used")
	d := newDialSource(r, p, rule)
	if d == nil {
		return
	}
	vers := map[*types.Var]bool{p.Field("proxy", "Backend", "proxyProtocolVersion"): true, p.Field("proxy", "PathOverride", "proxyProtocolVersion"): true}
	isVer := func(t *Term) bool { return t.op == "field" && vers[t.fv] }
	n := 0
	for _, e := range backendDialers(r, p, rule) {
		if !has(e, func(in ssa.Instruction) bool { return isDialer(calleeNameOf(in)) }) && !hasDeepCalls(p, e, func(in ssa.Instruction) bool { return isDialer(calleeNameOf(in)) }) {
			continue
		}
		where := " in " + fnLabel(e)
		check := func(c *Ctx, in ssa.Instruction, what string) {
			ev := c.St.OKNil("dial")
			if ev == nil {
				return
			}
			o := ev.Args[0]
			ver := d.param(c, o, o.op == "index", "proxyProtocolVersion")
			if ver == nil {
				return
			}
			if positiveNum(c, ver) == no {
				r.Assert(!hasEv(c, "header"), rule, what+where+" without PROXY headers", posOf(in), "a PROXY header was written although the source of the address has none")
				return
			}
			n++
			h := c.St.OKNil("header")
			if !r.Assert(h != nil, rule, what+where, posOf(in), "the connection is used although PROXY headers may be enabled and none was written successfully") {
				return
			}
			r.Assert(stripConv(h.Args[0]) == ver, rule, "version"+where, posOf(in), "the version of the PROXY header, %v, is not that of the source of the address", h.Args[0])
		}
		r.Walk(&Rule{
			Name: rule, InlineAll: true, KeepRes: true,
			NoInline: func(f *ssa.Function) bool { return inPkg(f, "/netw") || writers[f] },
			Keep:     func(t *Term) bool { return t.mentions(isVer) },
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if d.noOverride(cond, val) {
					c.St.Event("none", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				switch {
				case isDialer(c.Name):
					c.St.Kill("dial")
					c.St.Kill("header")
					a := c.Args[len(c.Args)-1]
					if c.Name == "net.DialTimeout" {
						a = c.Args[1]
					}
					if a.op == "index" {
						if o, _ := d.owner(a.args[0], "Addresses"); o != nil {
							c.St.Event("dial", bare(c), []*Term{o}, c.In)
						}
					}
				case isQUICDialer(c.Name):
					c.St.Kill("dial")
					c.St.Kill("header")
					bare(c)
				case c.Fn != nil && writers[c.Fn]:
					ev := c.St.OKNil("dial")
					ok := ev != nil && unwrap(c.Args[1]).mentions(func(x *Term) bool { return x == ev.Res }) && !mentionsCall(c.Args[1], "crypto/tls.Client") && isClientConn(c.Args[2])
					if r.Assert(ok, rule, "header written"+where, c.In.Pos(), "the PROXY header about %v is written to %v", c.Args[2], c.Args[1]) {
						c.St.Event("header", c.Res, []*Term{c.Args[0]}, c.In)
					}
				case c.Name == "crypto/tls.Client":
					check(&c.Ctx, c.In.(ssa.Instruction), "TLS client")
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn != e || len(rets) != 2 || c.St.Nil(rets[1]) == no || c.St.Nil(rets[0]) == yes {
					return
				}
				check(c, in, "connection returned")
			},
		}, e, nil)
	}
	r.AssertAt(n > 0, rule, "PROXY headers are enabled on some path", "-", "no connection with PROXY header is ever made")
}

// contents lists the terms the value is made of, through local memory.
func contents(c *Ctx, t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "alloc":
			for k, v := range c.St.heap {
				if heapRoot(k) == t {
					visit(v)
				}
			}
		case "const", "slice", "addr", "iface", "content", "zero", "nil":
		default:
			out = append(out, t)
		}
		switch t.op {
		case "proxyheader", "field", "index":
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(t)
	return out
}

// content is a term for data computed from the terms, and from what was
// written to obj on this path.
func content(c *Ctx, obj *Term, ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var args []*Term
	add := func(t *Term) {
		for _, x := range contents(c, t) {
			if !seen[x] && x != obj {
				seen[x] = true
				args = append(args, x)
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	if obj != nil {
		add(obj)
		for _, ev := range c.St.Has("write") {
			if ev.Args[0] == obj {
				for _, a := range ev.Args[1:] {
					add(a)
				}
			}
		}
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	return c.W.T.mk(&Term{op: "content", args: args})
}

// ctxChain: the context is derived from the target.
func ctxChain(t, target *Term) bool {
	for i := 0; i < 16 && t != nil; i++ {
		if t == target {
			return true
		}
		switch {
		case t.op == "extract" || t.op == "iface":
			t = t.args[0]
		case (t.op == "call" || t.op == "csym") && strings.HasPrefix(t.s, "context.With") && len(t.args) > 0:
			t = t.args[0]
		case (t.op == "call" || t.op == "csym") && t.s == "(*net/http.Request).WithContext" && len(t.args) == 2:
			t = t.args[1]
		default:
			return false
		}
	}
	return false
}

// poolKey: HTTP connections are shared only between requests of clients with
// the same server name, path override and PROXY header.
func poolKey(r *Report, p *Prog, writers map[*ssa.Function]bool) {
	const rule = "backend-pool"
	r.Rule(rule, "the key under which HTTP connections to backends are shared depends on the client's server name, the chosen path override, and, when PROXY headers are enabled there, the header itself; the request carries the choice of path override")
	d := newDialSource(r, p, rule)
	urlHost := p.extField("net/url", "URL", "Host")
	if d == nil || urlHost == nil {
		return
	}
	vers := map[*types.Var]bool{p.Field("proxy", "Backend", "proxyProtocolVersion"): true, p.Field("proxy", "PathOverride", "proxyProtocolVersion"): true}
	isVer := func(t *Term) bool { return t.op == "field" && vers[t.fv] }
	readers := p.annotationReaders(map[string]bool{p.constStr("proxy", "serverNameKey"): true})
	// functions that describe connections from several annotations, for logs
	descr := p.annotationReaders(map[string]bool{"?": true})
	readerName := map[string]bool{}
	for f := range readers {
		readerName[funcName(f)] = true
	}
	isConnName := func(t *Term) bool { return (t.op == "call" || t.op == "csym") && readerName[t.s] }
	const serve = "(*net/http/httputil.ReverseProxy).ServeHTTP"
	isWrite := func(n string) bool {
		return oneOf(n, "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "io.WriteString", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "(hash.Hash).Write", "(io.Writer).Write")
	}
	isRead := func(n string) bool {
		return oneOf(n, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String", "(hash.Hash).Sum")
	}
	isPure := func(n string) bool {
		return oneOf(n, "crypto/sha256.Sum256", "crypto/sha256.Sum224", "crypto/sha512.Sum512", "encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString", "(*encoding/base32.Encoding).EncodeToString", "fmt.Sprintf", "fmt.Sprint", "strconv.Itoa")
	}
	obj := func(t *Term) *Term {
		t = unwrap(t)
		for t.op == "addr" || t.op == "conv" {
			t = t.args[0]
		}
		return t
	}
	n := 0
	for _, e := range p.httpHandlers() {
		if !hasDeepCalls(p, e, func(in ssa.Instruction) bool { return isCall(in, serve) }) {
			continue
		}
		where := " in " + fnLabel(e)
		r.Walk(&Rule{
			Name: rule,
			Interesting: func(in ssa.Instruction) bool {
				if isCall(in, serve, "context.WithValue") || isWrite(calleeNameOf(in)) && inPkg(in.Parent(), "/proxy") {
					return true
				}
				s, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				return ok && fieldVar(fa.X.Type(), fa.Field) == urlHost
			},
			NoInline: func(f *ssa.Function) bool { return writers[f] || readers[f] != "" || descr[f] == "?" },
			Keep:     func(t *Term) bool { return t.mentions(isVer) },
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) != urlHost {
					return
				}
				c.St.Kill("key")
				c.St.Event("key", nil, content(c, nil, c.V(s.Val)).args, nil)
			},
			OnCall: func(c *CallCtx) {
				switch {
				case c.Fn != nil && writers[c.Fn]:
					c.St.Event("write", nil, []*Term{obj(c.Args[1]), c.W.T.mk(&Term{op: "proxyheader", args: []*Term{stripConv(c.Args[0]), c.Args[2]}})}, nil)
				case isRead(c.Name):
					c.Opaque = true
					c.Result = content(&c.Ctx, obj(c.Args[0]), c.Args[1:]...)
				case isPure(c.Name):
					c.Opaque = true
					c.Result = content(&c.Ctx, nil, c.Args...)
				case isWrite(c.Name):
					c.St.Event("write", nil, []*Term{obj(c.Args[0]), content(&c.Ctx, nil, c.Args[1:]...)}, nil)
				case c.Name == "context.WithValue" && len(c.Args) == 3 && strings.Contains(unwrap(c.Args[1]).String(), "ctxOverrideIDKey"):
					c.St.Kill("chosen")
					c.St.Event("chosen", c.Res, []*Term{unwrap(c.Args[2])}, c.In)
				case c.Name == serve:
					n++
					in := c.In.(ssa.Instruction)
					key := c.St.Has("key")
					if !r.Assert(len(key) == 1, rule, "pool key"+where, c.In.Pos(), "a request is proxied without a pool key of its own in the URL's host") {
						return
					}
					has := func(pred tp) bool {
						for _, t := range key[0].Args {
							if pred(t) {
								return true
							}
						}
						return false
					}
					r.Assert(has(isConnName), rule, "server name in pool key"+where, posOf(in), "the pool key does not depend on the client's server name")
					var ver *Term
					if ch := c.St.Has("chosen"); len(ch) > 0 {
						i := ch[len(ch)-1].Args[0]
						r.Assert(has(func(t *Term) bool { return identifies(p, t, i) }), rule, "path override in pool key"+where, posOf(in), "the pool key does not depend on the chosen path override")
						r.Assert(ctxChain(c.Args[2], ch[len(ch)-1].Res), rule, "path override of the request"+where, posOf(in), "the request that is proxied does not carry the chosen path override")
						for k := range vers {
							if k == p.Field("proxy", "PathOverride", "proxyProtocolVersion") {
								has := func(t *Term) bool {
									return t.op == "field" && t.fv == k && t.args[0].op == "index" && t.args[0].args[1] == i
								}
								for f := range c.St.facts {
									f.mentions(func(x *Term) bool {
										if has(x) {
											ver = x
										}
										return false
									})
								}
							}
						}
						if !r.Assert(ver != nil, rule, "PROXY version of path override"+where, posOf(in), "whether the chosen path override uses PROXY headers is not considered for the pool key") {
							return
						}
					} else {
						for f := range c.St.facts {
							f.mentions(func(x *Term) bool {
								if x.op == "field" && x.fv == p.Field("proxy", "Backend", "proxyProtocolVersion") {
									ver = x
								}
								return false
							})
						}
						if !r.Assert(ver != nil, rule, "PROXY version of backend"+where, posOf(in), "whether the backend uses PROXY headers is not considered for the pool key") {
							return
						}
					}
					ok := positiveNum(&c.Ctx, ver) == no || has(func(t *Term) bool {
						return t.op == "proxyheader" && t.args[0] == ver && isClientConn(t.args[1])
					})
					r.Assert(ok, rule, "PROXY header in pool key"+where, posOf(in), "PROXY headers may be enabled but the pool key does not depend on the header: clients would share connections")
				}
			},
		}, e, nil)
	}
	r.AssertAt(n > 0, rule, "requests are proxied", "-", "no request is proxied")
}

// identifies: different values of i make different terms.
func identifies(p *Prog, t, i *Term) bool {
	switch t.op {
	case "content":
		for _, a := range t.args {
			if identifies(p, a, i) {
				return true
			}
		}
		return false
	case "conv", "iface":
		return identifies(p, t.args[0], i)
	}
	return t == i
}

// proxyVersion: an accepted PROXY protocol option means what it says.
func proxyVersion(r *Report, p *Prog) {
	const rule = "proxyproto-version"
	r.Rule(rule, "the PROXY protocol version of a backend or path override is 0 only when the option is absent, and 1 or 2 otherwise; it is parsed from the option of the same object")
	n := 0
	fns := map[*ssa.Function]bool{}
	for _, typ := range []string{"Backend", "PathOverride"} {
		ver, opt := r.mustField(rule, "proxy", typ, "proxyProtocolVersion"), r.mustField(rule, "proxy", typ, "ProxyProtocolVersion")
		if ver == nil || opt == nil {
			continue
		}
		for _, s := range p.idx.stores[ver] {
			var src *ssa.Call
			v := s.Val
			for {
				if x, ok := v.(*ssa.Extract); ok {
					v = x.Tuple
				} else if x, ok := v.(*ssa.Convert); ok {
					v = x.X
				} else {
					break
				}
			}
			src, _ = v.(*ssa.Call)
			if src == nil || staticCallee(src) == nil || len(staticCallee(src).Params) != 1 {
				// a copy of another object's version
				if !p.Origins(s.Val, FlowOpts{}).HasField(ver) {
					r.Assert(false, rule, typ+" version in "+fnLabel(s.Parent()), s.Pos(), "the version is not parsed from the option")
				}
				continue
			}
			n++
			fns[staticCallee(src)] = true
			fa := s.Addr.(*ssa.FieldAddr)
			same := false
			if u, ok := src.Call.Args[0].(*ssa.UnOp); ok {
				if fb, ok := u.X.(*ssa.FieldAddr); ok && fieldVar(fb.X.Type(), fb.Field) == opt {
					same = sameObject(fb.X, fa.X)
				}
			}
			r.Assert(same, rule, typ+" version in "+fnLabel(s.Parent()), s.Pos(), "the version is not parsed from this object's option")
		}
	}
	r.AssertAt(n > 1, rule, "versions are parsed", "-", "the versions of backends and path overrides are not parsed from the options")
	for f := range fns {
		param := isParam(f.Params[0])
		m := 0
		r.Walk(&Rule{
			Name: rule, InlineAll: true, KeepRes: true,
			Keep: func(t *Term) bool { return true },
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn != f || len(rets) != 2 || c.St.Nil(rets[1]) == no {
					return
				}
				m++
				t := stripConv(rets[0])
				if k, ok := constInt(t); ok && k > 0 {
					r.Assert(k <= 2, rule, "version from "+fnLabel(f), posOf(in), "there is no version %d", k)
					return
				} else if ok {
					empty := no
					for k, v := range c.St.facts {
						if k.op == "bin" && k.s == "==" && v && (param(k.args[0]) && isEmptyStr(k.args[1]) || param(k.args[1]) && isEmptyStr(k.args[0])) {
							empty = yes
						}
						if k.op == "bin" && (k.s == "==" && v || k.s == "<" && !v) && k.mentions(func(x *Term) bool { return isLen(x) && param(x.args[0]) }) && k.mentions(isZeroConst) {
							empty = yes
						}
					}
					r.Assert(empty == yes || c.St.Eq(c.W.T.str(""), c.W.param("", f.Params[0])) == yes, rule, "no version from "+fnLabel(f), posOf(in), "the option is accepted, without effect, although it may not be empty")
					return
				}
				hi := false
				for k, v := range c.St.facts {
					if k.op != "bin" || k.s != "<" {
						continue
					}
					a, b := stripConv(k.args[0]), stripConv(k.args[1])
					if x, ok := constInt(b); ok && a == t && v && x <= 3 {
						hi = true
					}
					if x, ok := constInt(a); ok && b == t && !v && x <= 2 {
						hi = true
					}
				}
				r.Assert(positiveNum(c, t) == yes && hi, rule, "version from "+fnLabel(f), posOf(in), "the accepted version may be other than 1 or 2")
			},
		}, f, nil)
		r.AssertAt(m > 0, rule, "success of "+fnLabel(f), "-", "no option is accepted")
	}
}

// sameObject: the two values are the same pointer.
func sameObject(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 {
		return sameObject(ua.X, ub.X)
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && fa.Field == fb.Field {
		return sameObject(fa.X, fb.X)
	}
	ia, ok1 := a.(*ssa.IndexAddr)
	ib, ok2 := b.(*ssa.IndexAddr)
	return ok1 && ok2 && ia.Index == ib.Index && sameObject(ia.X, ib.X)
}
