package main

import (
	"go/token"
	"go/types"
	"net/http"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C04", Title: "SSO guards every request to a protected path",
		Explain: "Path-sensitive typestate dataflow over every HTTP handler installed in a server (HTTP/1, HTTP/2 and HTTP/3): no path reaches the reverse proxy, a static file or a local endpoint before the SSO policy returned true for the request, except local endpoints marked as bypassing it; a decision table of the policy function; a frozen table of the endpoints that may bypass it; and the provenance of the identity it relies on.",
		Run:     runC04,
	})
	register(&Check{
		ID: "C05", Title: "SSO access rules",
		Explain: "Decision table of the SSO policy function, explored path-sensitively: every accepting path has an exact membership test of the email or @domain come out true or has no ACL, and has excluded forced re-authentication.",
		Run:     runC05,
	})
	register(&Check{
		ID: "C06", Title: "Identity headers",
		Explain: "Typestate over every installed HTTP handler (client-supplied identity header deleted before any sink), effect rule on all writers of the identity and client-certificate headers with backward data dependence of the written value, and typestate over the reverse proxy director.",
		Run:     runC06,
	})
	register(&Check{
		ID: "C07", Title: "Session cookies are not forwarded",
		Explain: "Typestate over the SSO policy and handlers (cookie filter called with the session cookie before forwarding) and a path-sensitive keep/drop table of the filter itself.",
		Run:     runC07,
	})
}

func isHandlerSig(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() != 2 || s.Results().Len() != 0 || s.Recv() != nil {
		return false
	}
	return s.Params().At(0).Type().String() == "net/http.ResponseWriter" && s.Params().At(1).Type().String() == "*net/http.Request"
}

// httpHandlers are the handler functions installed in an HTTP/1, HTTP/2 or
// HTTP/3 server of the proxy and that serve backends.
func (p *Prog) httpHandlers() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(v ssa.Value) {
		o := p.Origins(v, FlowOpts{})
		for f := range o.Funcs {
			if inModule(f) && isHandlerSig(f) && !seen[f] && hasDeepCalls(p, f, func(in ssa.Instruction) bool { return httpSink(in) != "" }) {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	for _, pkg := range []string{"net/http", "github.com/quic-go/quic-go/http3"} {
		fv := p.extField(pkg, "Server", "Handler")
		if fv == nil {
			continue
		}
		for _, s := range p.idx.stores[fv] {
			if strings.HasSuffix(pkgPath(s.Parent()), "/proxy") {
				add(s.Val)
			}
		}
	}
	sortFuncs(out)
	return out
}

func sortFuncs(fs []*ssa.Function) {
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fnLabel(fs[j]) < fnLabel(fs[i]) {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
}

// httpSink: the instruction answers a request with protected content or
// forwards it.
func httpSink(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	n := calleeName(ci)
	switch {
	case n == "(*net/http/httputil.ReverseProxy).ServeHTTP":
		return "reverse proxy"
	case oneOf(n, "net/http.ServeContent", "net/http.ServeFile", "net/http.ServeFileFS", "os.Open", "os.ReadFile", "os.OpenFile"):
		return "static file"
	case n == "(net/http.Handler).ServeHTTP" || n == "(net/http.HandlerFunc).ServeHTTP":
		return "local endpoint"
	case strings.HasSuffix(n, ").RoundTrip"):
		return "round trip"
	}
	return ""
}

type ssoAnchors struct {
	policy, auth                       *ssa.Function
	sso, paths, acl, force, setHdr     *types.Var
	handlers, bypass, handler, lhField *types.Var
}

func ssoResolve(r *Report, p *Prog, rule string) *ssoAnchors {
	a := &ssoAnchors{}
	a.sso = r.mustField(rule, "proxy", "Backend", "SSO")
	a.paths = r.mustField(rule, "proxy", "BackendSSO", "Paths")
	a.acl = r.mustField(rule, "proxy", "BackendSSO", "ACL")
	a.force = r.mustField(rule, "proxy", "BackendSSO", "ForceReAuth")
	a.setHdr = r.mustField(rule, "proxy", "BackendSSO", "SetUserIDHeader")
	a.lhField = r.mustField(rule, "proxy", "Backend", "localHandlers")
	a.bypass = r.mustField(rule, "proxy", "localHandler", "ssoBypass")
	a.handler = r.mustField(rule, "proxy", "localHandler", "handler")
	a.policy = r.mustFunc(rule, "proxy", "(*Backend).enforceSSOPolicy", func(f *ssa.Function) bool {
		return f.Signature.Results().Len() == 1 && has(f, func(in ssa.Instruction) bool { return touchesField(in, a.paths) })
	})
	a.auth = r.mustFunc(rule, "proxy", "(*Backend).authenticateUser", func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool { return isCall(in, "context.WithValue") }) && has(f, func(in ssa.Instruction) bool { return touchesField(in, a.setHdr) })
	})
	if a.sso == nil || a.paths == nil || a.acl == nil || a.force == nil || a.setHdr == nil || a.lhField == nil || a.bypass == nil || a.handler == nil || a.policy == nil || a.auth == nil {
		return nil
	}
	return a
}

const uidHeader = "X-tlsproxy-user-id"

func canonHeader(t *Term) string {
	s, ok := constString(t)
	if !ok {
		return ""
	}
	return http.CanonicalHeaderKey(s)
}

// walkHandlers explores every installed handler and calls sink for each sink
// reached with the events recorded so far.
func walkHandlers(r *Report, p *Prog, rule string, a *ssoAnchors, sink func(c *Ctx, e *ssa.Function, kind string, in ssa.CallInstruction, args []*Term)) {
	walkHandlersWith(r, p, rule, a, nil, nil, sink)
}

func walkHandlersWith(r *Report, p *Prog, rule string, a *ssoAnchors, interesting []string, onCall func(c *CallCtx), sink func(c *Ctx, e *ssa.Function, kind string, in ssa.CallInstruction, args []*Term)) {
	policy, auth := funcName(a.policy), funcName(a.auth)
	entries := p.httpHandlers()
	r.AssertAt(len(entries) >= 2, rule, "installed HTTP handlers", "-", "found %d HTTP handlers that serve backends, expected at least 2 (reverse proxy and local)", len(entries))
	for _, e := range entries {
		r.Walk(&Rule{
			Name: rule,
			Interesting: func(in ssa.Instruction) bool {
				return httpSink(in) != "" || isCall(in, policy, auth, "(net/http.Header).Del", "(net/http.Header).Set") || isCall(in, interesting...) || touchesField(in, a.bypass)
			},
			NoInline: func(f *ssa.Function) bool { return f == a.policy || f == a.auth },
			Keep:     func(t *Term) bool { return mentionsField(t, a.bypass) },
			OnCall: func(c *CallCtx) {
				switch c.Name {
				case policy:
					c.St.Event("sso", c.Res, c.Args, c.In)
					return
				case auth:
					c.St.Event("auth", c.Res, c.Args, c.In)
					return
				}
				if onCall != nil {
					onCall(c)
				}
				if k := httpSink(c.In); k != "" {
					sink(&c.Ctx, e, k, c.In, c.Args)
				}
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if cond.op == "field" && cond.fv == a.bypass && val {
					c.St.Event("bypass", nil, cond.args[:1], nil)
				}
			},
		}, e, nil)
	}
}

func runC04(r *Report, p *Prog) {
	const rule = "sso-gate"
	r.Rule(rule, "in every installed HTTP handler, the reverse proxy, static files and local endpoints are reached only after the user was authenticated and the SSO policy returned true, or the selected local endpoint is marked as bypassing SSO")
	a := ssoResolve(r, p, rule)
	if a == nil {
		return
	}
	walkHandlers(r, p, rule, a, func(c *Ctx, e *ssa.Function, kind string, in ssa.CallInstruction, args []*Term) {
		ok := c.St.OKTrue("sso") != nil
		if !ok && kind == "local endpoint" && len(args) > 0 {
			for _, ev := range c.St.Has("bypass") {
				if args[0].op == "field" && args[0].fv == a.handler && args[0].args[0] == ev.Args[0] {
					ok = true
				}
			}
			// several states merged: the flag itself is known
			if !ok && args[0].op == "field" && args[0].fv == a.handler {
				ok = c.St.Bool(c.St.Load(c.W.T.field(args[0].args[0], a.bypass), a.bypass.Type())) == yes
			}
		}
		r.Assert(ok, rule, kind+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), in.Pos(), "%s reached although the SSO policy did not return true on this path: %s", kind, c.Trace(in))
		r.Assert(c.St.OKTrue("auth") != nil, rule, "authentication before "+kind+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), in.Pos(), "%s reached without authenticateUser having returned true", kind)
	})
	r.Min(rule, 8)
	policyTable(r, p, a, "sso-policy", true, false)
	ssoPathMatch(r, p, a)
	ssoBypassTable(r, p, a)
	ssoIdentity(r, p, a)
	// every server whose handler serves backends gets it from these functions
	const inst = "sso-handlers-installed"
	r.Rule(inst, "every internal HTTP server is created with one of the guarded handlers")
	n := 0
	for _, pkg := range []string{"net/http", "github.com/quic-go/quic-go/http3"} {
		fv := p.extField(pkg, "Server", "Handler")
		if fv == nil {
			continue
		}
		for _, s := range p.idx.stores[fv] {
			if !strings.HasSuffix(pkgPath(s.Parent()), "/proxy") {
				continue
			}
			o := p.Origins(s.Val, FlowOpts{})
			if o.HasCall("(*golang.org/x/crypto/acme/autocert.Manager).HTTPHandler") || o.HasCall("("+modPath+"/certmanager.Manager).HTTPHandler") || hasSuffixCall(o, ".HTTPHandler") {
				continue // redirects to HTTPS and ACME challenges
			}
			guarded := false
			for _, e := range p.httpHandlers() {
				if o.Funcs[e] {
					guarded = true
				}
			}
			n++
			r.Assert(guarded, inst, "server in "+fnLabel(s.Parent()), s.Pos(), "an HTTP server is created with a handler that is not one of the guarded handlers")
		}
	}
	if p.Variant.Tags == "" {
		r.Min(inst, 2)
	} else {
		r.Min(inst, 1)
	}
}

func hasSuffixCall(o *Orig, suf string) bool {
	for c := range o.Calls {
		if strings.HasSuffix(c, suf) {
			return true
		}
	}
	return false
}

// isPathMatcher: func([]string, string) bool of the module.
func isPathMatcher(f *ssa.Function) bool {
	if f == nil || !inModule(f) {
		return false
	}
	s := f.Signature
	return s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 1 && s.Params().At(0).Type().String() == "[]string" && s.Params().At(1).Type().String() == "string" && s.Results().At(0).Type().String() == "bool"
}

// claimLookup: t is the value of a claim (claims["name"]) or its assertion.
func claimLookup(t *Term, name string) bool {
	for t != nil {
		switch {
		case t.op == "lookupv" || t.op == "lookup":
			s, ok := constString(t.args[1])
			return ok && s == name
		case (t.op == "extract" || t.op == "typeassert" || t.op == "assert" || t.op == "iface" || t.op == "conv") && len(t.args) > 0:
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

// policyTable decides the SSO policy function.
func policyTable(r *Report, p *Prog, a *ssoAnchors, rule string, gate, acl bool) {
	if gate {
		r.Rule(rule, "the SSO policy returns true only for a backend without SSO, for a path outside the protected ones (decided on the request's own path), or for a request with an authenticated identity")
	} else {
		r.Rule(rule, "for a protected path the SSO policy returns true only when forced re-authentication is off or the session is on the same host and young enough, and there is no ACL or the ACL contains exactly the email or @domain; it returns false only for the opposite reasons")
	}
	isEmail := func(t *Term) bool { return claimLookup(t, "email") }
	isDomain := func(t *Term) bool {
		if t.op != "bin" || t.s != "+" {
			return false
		}
		if s, ok := constString(t.args[0]); !ok || s != "@" {
			return false
		}
		d := t.args[1]
		if d.op == "extract" && d.s == "1" && d.args[0].s == "strings.Cut" && isEmail(d.args[0].args[0]) {
			s, ok := constString(d.args[0].args[1])
			return ok && s == "@"
		}
		if d.op == "index" && d.args[1].op == "const" && d.args[1].s == "1" && strings.HasPrefix(d.args[0].s, "strings.Split") {
			return d.args[0].mentions(isEmail)
		}
		return false
	}
	isACL := func(t *Term) bool { return mentionsField(t, a.acl) }
	mb := func(l string, elem func(*Term) bool) *member { return &member{L: l, IsList: isACL, IsElem: elem} }
	mems := []*member{mb("acl-email", isEmail), mb("acl-domain", isDomain)}
	n := 0
	r.Walk(&Rule{
		Name:      rule,
		InlineAll: true,
		Interesting: func(in ssa.Instruction) bool {
			return touchesField(in, a.acl) || touchesField(in, a.force) || touchesField(in, a.paths)
		},
		NoInline: func(f *ssa.Function) bool { return isPathMatcher(f) || strings.HasSuffix(funcName(f), "claimsFromCtx") },
		Keep: func(t *Term) bool {
			return mentionsField(t, a.sso) || t.mentions(func(x *Term) bool { return claimLookup(x, "hhash") })
		},
		OnCall: func(c *CallCtx) {
			if isPathMatcher(c.Fn) && len(c.Args) == 2 && mentionsField(c.Args[0], a.paths) {
				url := p.extField("net/url", "URL", "Path")
				ok := mentionsField(c.Args[1], url)
				r.Assert(ok, rule, "path decided on", c.In.Pos(), "the protected paths are not compared with the request's path but with %v", c.Args[1])
				if ok {
					c.St.Event("path", c.Res, c.Args, c.In)
				}
			}
			if strings.HasSuffix(c.Name, "claimsFromCtx") {
				c.St.Event("claims", c.Res, c.Args, c.In)
			}
			if c.Name == "(context.Context).Value" && c.Fr.Fn == a.policy && len(c.Args) == 2 && c.Args[1].mentions(func(t *Term) bool { return t.op == "global" && strings.Contains(t.s, "authCtxKey") }) {
				c.St.Event("claims", c.Res, c.Args, c.In)
			}
		},
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			for _, m := range mems {
				m.branch(c, cond, val)
			}
			// forced re-authentication
			fr := func(t *Term) bool { return t.op == "field" && t.fv == a.force }
			hh := func(t *Term) bool { return claimLookup(t, "hhash") }
			since := func(t *Term) bool {
				return t.mentions(func(x *Term) bool {
					return (x.op == "call" || x.op == "csym") && oneOf(x.s, "time.Since", "(time.Time).Sub")
				})
			}
			cut := func(l string) {
				c.St.Event(l, nil, nil, nil)
			}
			switch {
			case cond.op == "bin" && cond.s == "==" && (fr(cond.args[0]) && isZeroConst(cond.args[1]) || fr(cond.args[1]) && isZeroConst(cond.args[0])):
				if val {
					cut("no-reauth")
				}
			case cond.op == "bin" && cond.s == "<" && isZeroConst(cond.args[0]) && fr(cond.args[1]): // ForceReAuth > 0
				if !val {
					cut("no-reauth")
				}
			case cond.op == "bin" && cond.s == "==" && (hh(cond.args[0]) || hh(cond.args[1])):
				o := cond.args[1]
				if hh(o) {
					o = cond.args[0]
				}
				host := p.extField("net/http", "Request", "Host")
				okh := mentionsField(o, host) || sha256Of(o)
				if val && okh {
					cut("same-host")
				} else if !val {
					cut("other-host")
				}
			case cond.op == "bin" && cond.s == "<" && fr(cond.args[0]) && since(cond.args[1]): // Since > Force
				if val {
					cut("too-old")
				} else {
					cut("young")
				}
			case cond.op == "bin" && cond.s == "<" && since(cond.args[0]) && fr(cond.args[1]): // Since < Force
				if val {
					cut("young")
				} else {
					cut("too-old")
				}
			case cond.op == "isnil" && cond.args[0].op == "field" && cond.args[0].fv == a.acl:
				if val {
					cut("no-acl")
				} else {
					cut("acl")
				}
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != a.policy {
				return
			}
			st := c.St
			noSSO := false
			for k, v := range st.facts {
				if v && k.op == "isnil" && k.args[0].op == "field" && k.args[0].fv == a.sso {
					noSSO = true
				}
			}
			free := noSSO || st.OKFalse("path") != nil
			var claims *Ev
			for _, e := range st.Has("claims") {
				if e.Status == no || st.Nil(e.Res) == no {
					claims = e
				}
			}
			has := func(l string) bool { return len(st.Has(l)) > 0 }
			fresh := has("no-reauth") || has("same-host") && has("young") && !has("other-host") && !has("too-old")
			listed := has("no-acl") || mems[0].hit(st) || mems[1].hit(st)
			n++
			switch st.Bool(rets[0]) {
			case yes, unknown:
				if gate {
					r.Assert(free || claims != nil, rule, "policy accepts", in.Pos(), "the SSO policy lets a request to a protected path pass although no authenticated identity was found")
				}
				if acl && !free {
					r.Assert(fresh, rule, "accept: re-authentication not needed", in.Pos(), "the SSO policy accepts although the session was not shown to be on the same host and young enough")
					r.Assert(listed, rule, "accept: user listed", in.Pos(), "the SSO policy accepts although an ACL exists and neither the exact email nor @domain was found in it")
				}
			case no:
				if acl {
					unauth := false
					for _, e := range st.Has("claims") {
						if e.Status == yes || st.Nil(e.Res) == yes {
							unauth = true
						}
					}
					stale := has("other-host") || has("too-old")
					unlisted := has("acl") && mems[0].miss(st) && mems[1].miss(st)
					r.Assert(unauth || stale || unlisted, rule, "refuse has a reason", in.Pos(), "the SSO policy refuses a request of a listed user with a fresh session")
				}
			}
		},
	}, a.policy, nil)
	r.Min(rule, 2)
}

// sha256Of: the term is derived from a hash (its input was checked by
// dependence elsewhere).
func sha256Of(t *Term) bool {
	return t.mentions(func(x *Term) bool {
		return (x.op == "call" || x.op == "csym") && (strings.HasPrefix(x.s, "encoding/hex.") || strings.HasPrefix(x.s, "crypto/sha256."))
	})
}

// member recognises an exact membership test of an element in a list, either
// slices.Contains/Index or a comparison loop.
type member struct {
	L      string
	IsList func(*Term) bool
	IsElem func(*Term) bool
	q      *quant
}

func (m *member) quant() *quant {
	if m.q == nil {
		m.q = &quant{L: m.L, IsList: m.IsList, IsTest: func(t *Term) bool {
			if t.op != "bin" || t.s != "==" {
				return false
			}
			entry := func(x *Term) bool {
				return (x.op == "index" || x.op == "lookupv" || x.op == "extract") && x.mentions(m.IsList)
			}
			return entry(t.args[0]) && m.IsElem(t.args[1]) || entry(t.args[1]) && m.IsElem(t.args[0])
		}, IsAny: func(t *Term) bool {
			if t.op == "call" && strings.HasPrefix(t.s, "slices.Contains") && len(t.args) == 2 {
				return t.args[0].mentions(m.IsList) && m.IsElem(t.args[1])
			}
			// slices.Index(list, x) < 0 is the negation, handled in branch
			return false
		}}
	}
	return m.q
}

func (m *member) branch(c *Ctx, cond *Term, val bool) {
	isIdx := func(t *Term) bool {
		return t.op == "call" && strings.HasPrefix(t.s, "slices.Index") && len(t.args) == 2 && t.args[0].mentions(m.IsList) && m.IsElem(t.args[1])
	}
	if cond.op == "bin" && cond.s == "<" && isIdx(cond.args[0]) && isZeroConst(cond.args[1]) {
		if val {
			c.St.Event(m.L+"-done", nil, nil, nil)
		} else {
			c.St.Event(m.L+"-hit", nil, nil, nil)
		}
		return
	}
	m.quant().branch(c, cond, val)
}

func (m *member) hit(st *State) bool { return len(st.Has(m.L+"-hit")) > 0 }
func (m *member) miss(st *State) bool {
	return len(st.Has(m.L+"-hit")) == 0 && len(st.Has(m.L+"-done")) > 0 && len(st.Has(m.L+"-open")) == 0
}

// ssoPathMatch decides the path matcher.
func ssoPathMatch(r *Report, p *Prog, a *ssoAnchors) {
	const rule = "sso-paths"
	r.Rule(rule, "a request is outside the protected paths only if the list is not empty and every prefix in it was found to match neither the path as sent nor the cleaned path")
	seen := map[*ssa.Function]bool{}
	var fn *ssa.Function
	for f := range p.reachable(a.policy) {
		instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if g := staticCallee(ci); isPathMatcher(g) && !seen[g] {
				seen[g] = true
				fn = g
			}
		})
	}
	if !r.AssertAt(len(seen) == 1, rule, "path matcher", "-", "%d path matching functions found", len(seen)) {
		return
	}
	list := fn.Params[0]
	isList := func(t *Term) bool { return t.op == "param" && t.v == list }
	isRaw := func(t *Term) bool { return t.op == "param" && t.v == fn.Params[1] }
	isClean := func(t *Term) bool {
		return (t.op == "call" || t.op == "csym" || t.op == "join") && !isRaw(t)
	}
	test := func(which func(*Term) bool) func(*Term) bool {
		return func(t *Term) bool {
			return t.op == "call" && t.s == "strings.HasPrefix" && t.args[1].mentions(isList) && which(t.args[0])
		}
	}
	qs := []*quant{{L: "raw", IsList: isList, IsTest: test(isRaw)}, {L: "clean", IsList: isList, IsTest: test(isClean)}}
	r.Walk(&Rule{
		Name:      rule,
		InlineAll: true,
		NoInline:  func(f *ssa.Function) bool { return isStringFn(f) },
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			for _, q := range qs {
				q.branch(c, cond, val)
			}
			if k := cond; k.op == "bin" && k.s == "==" && val && (isLen(k.args[0]) && k.args[0].mentions(isList) && isZeroConst(k.args[1]) || isLen(k.args[1]) && k.args[1].mentions(isList) && isZeroConst(k.args[0])) {
				c.St.Event("empty", nil, nil, nil)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if in.Parent() != fn {
				return
			}
			st := c.St
			has := func(l string) bool { return len(st.Has(l)) > 0 }
			empty := has("empty")
			switch st.Bool(rets[0]) {
			case yes:
				r.Assert(empty || has("raw-hit") || has("clean-hit"), rule, "path is protected", in.Pos(), "a path is treated as protected although no prefix matches it")
			case no:
				// exhausted: the raw and the cleaned path were tested for each prefix
				r.Assert(!empty && has("raw-done") && has("clean-done") && !has("raw-open") && !has("clean-open") && !has("raw-hit") && !has("clean-hit"), rule, "path is not protected", in.Pos(), "a path is treated as unprotected before all prefixes were compared with both the path and the cleaned path")
			default:
				// return HasPrefix(...) directly inside the loop etc.
				r.Assert(false, rule, "verdict is decided", in.Pos(), "undecided verdict %v", rets[0])
			}
		},
	}, fn, nil)
	r.Min(rule, 3)
	// the matcher's cleaned path is path.Clean of the path
	r.Assert(hasDeepCalls(p, fn, func(in ssa.Instruction) bool { return isCall(in, "path.Clean") }), rule, "cleaned path", fn.Pos(), "the path is not cleaned with path.Clean before matching")
}

func isStringFn(f *ssa.Function) bool {
	s := f.Signature
	return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && s.Params().At(0).Type().String() == "string" && s.Results().At(0).Type().String() == "string"
}

// handlers that may answer without a session, by method name
var ssoBypassOK = map[string]bool{
	"serveSSOStatus": true, "serveSSOStyle": true, "serveLogin": true, "serveLogout": true, "faviconHandler": true,
	"ServeWellKnown": true, "ServeConfig": true, "ServeToken": true, "ServeUserInfo": true, "ServeJWKS": true,
	"HandleCallback": true, "ServeCACert": true, "ServeCRL": true, "ServeOCSP": true, "ServePublicKey": true,
}

func ssoBypassTable(r *Report, p *Prog, a *ssoAnchors) {
	const rule = "sso-bypass"
	r.Rule(rule, "only the documented login, status, callback, metadata, token, revocation and public-key endpoints are marked as bypassing SSO")
	// every composite literal / variable of type localHandler: a store of true
	// to ssoBypass and the handler stored into the same struct
	n := 0
	for _, s := range p.idx.stores[a.bypass] {
		if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" {
			continue
		}
		isTrue := false
		if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
			isTrue = true
		}
		fa := s.Addr.(*ssa.FieldAddr)
		if pr, ok := s.Val.(*ssa.Parameter); ok {
			// a constructor: decide per call
			fn := pr.Parent()
			idx := -1
			for i, q := range fn.Params {
				if q == pr {
					idx = i
				}
			}
			for _, ci := range p.idx.callers[fn] {
				arg := ci.Common().Args[idx]
				k, isK := arg.(*ssa.Const)
				if isK && k.Value != nil && k.Value.String() == "false" {
					continue
				}
				names, _ := p.handlerOfCtx(fa.X, a.handler, (*cstack)(nil).push(ci, fn))
				ok := isK && len(names) > 0
				for _, nm := range names {
					ok = ok && ssoBypassOK[nm]
				}
				n++
				r.Assert(ok, rule, "bypass for "+strings.Join(names, ","), ci.Pos(), "endpoint %v is marked as bypassing single sign-on", names)
			}
			continue
		}
		names, pos := p.handlerOf(fa.X, a.handler)
		n++
		ok := isTrue && len(names) > 0
		for _, nm := range names {
			if !ssoBypassOK[nm] {
				ok = false
			}
		}
		if pos == 0 {
			pos = s.Pos()
		}
		r.Assert(ok, rule, "bypass for "+strings.Join(names, ","), pos, "endpoint %v is marked as bypassing single sign-on", names)
	}
	r.Min(rule, 10)
}

// handlerOf names the functions stored in the handler field of the same
// struct value.
func (p *Prog) handlerOf(base ssa.Value, handler *types.Var) ([]string, token.Pos) {
	return p.handlerOfCtx(base, handler, nil)
}

func (p *Prog) handlerOfCtx(base ssa.Value, handler *types.Var, cs *cstack) ([]string, token.Pos) {
	var names []string
	var pos token.Pos
	if base.Referrers() == nil {
		return nil, 0
	}
	for _, ref := range *base.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fieldVar(fa.X.Type(), fa.Field) != handler {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok || st.Addr != fa {
				continue
			}
			pos = st.Pos()
			o := newOrig()
			p.origins(st.Val, -1, FlowOpts{}, o, cs, 0)
			names = append(names, handlerNames(p, o)...)
		}
	}
	sort.Strings(names)
	return uniq(names), pos
}

func uniq(xs []string) []string {
	var out []string
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func handlerNames(p *Prog, o *Orig) []string {
	var names []string
	for f := range o.Funcs {
		if !isHandlerSig(f) {
			continue
		}
		if strings.HasSuffix(f.Name(), "$bound") && f.Object() != nil {
			names = append(names, f.Object().Name())
			continue
		}
		if f.Parent() == nil {
			names = append(names, f.Name())
			continue
		}
		// a wrapper closure: the handlers it calls
		found := false
		wrap := false
		allInstrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			sig := ci.Common().Signature()
			if sig.Params().Len() == 2 && sig.Params().At(0).Type().String() == "net/http.ResponseWriter" && sig.Params().At(1).Type().String() == "*net/http.Request" && sig.Results().Len() == 0 {
				nm := calleeName(ci)
				nm = nm[strings.LastIndex(nm, ".")+1:]
				if nm == "ServeHTTP" {
					wrap = true
					return
				}
				found = true
				names = append(names, nm)
			}
		})
		if !found && !wrap {
			names = append(names, f.Name())
		}
	}
	sort.Strings(names)
	return uniq(names)
}

// ssoIdentity: the authenticated identity of a request is set only from a
// validated token with an email.
func ssoIdentity(r *Report, p *Prog, a *ssoAnchors) {
	const rule = "sso-identity"
	r.Rule(rule, "the identity of a request is stored in its context only from the claims of a validated session cookie or bearer token that carry an email")
	isAuthKey := func(v ssa.Value) bool {
		return strings.HasSuffix(v.Type().String(), ".ctxAuthKey") || func() bool {
			mi, ok := v.(*ssa.MakeInterface)
			return ok && strings.HasSuffix(mi.X.Type().String(), "proxy.ctxAuthKey")
		}()
	}
	var holders []*ssa.Function
	for _, f := range p.Funcs {
		if has(f, func(in ssa.Instruction) bool {
			return isCall(in, "context.WithValue") && isAuthKey(in.(ssa.CallInstruction).Common().Args[1])
		}) {
			holders = append(holders, f)
		}
	}
	if !r.AssertAt(len(holders) > 0, rule, "identity writers", "-", "nothing stores the authenticated identity") {
		return
	}
	bearer, cookie := qn("proxy/internal/cookiemanager", "(*CookieManager).ValidateAuthorizationHeader"), qn("proxy/internal/cookiemanager", "(*CookieManager).ValidateAuthTokenCookie")
	if len(p.callSites(bearer))+len(p.callSites(cookie)) < 2 {
		r.Missing(rule, "token validators")
	}
	entries := map[*ssa.Function]bool{}
	for _, h := range holders {
		entries[rootCaller(p, h, func(f *ssa.Function) bool {
			return hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, bearer, cookie) })
		})] = true
	}
	for e := range entries {
		r.Walk(&Rule{
			Name:      rule,
			InlineAll: true,
			NoInline: func(f *ssa.Function) bool {
				return oneOf(funcName(f), bearer, cookie) || strings.Contains(pkgPath(f), "/internal/")
			},
			Keep: func(t *Term) bool {
				return t.mentions(func(x *Term) bool { return claimLookup(x, "email") })
			},
			OnCall: func(c *CallCtx) {
				switch c.Name {
				case bearer, cookie:
					c.St.Event("valid", c.Res, c.Args, c.In)
				case "context.WithValue":
					if !isAuthKey(c.In.Common().Args[1]) {
						return
					}
					v := c.Args[2]
					ok := false
					for _, ev := range c.St.Has("valid") {
						if (ev.Status == yes || c.St.Nil(errTerm(c.W, ev.Res)) == yes) && v.mentions(func(t *Term) bool { return t == ev.Res }) {
							ok = true
						}
					}
					r.Assert(ok, rule, "identity stored in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the identity stored in the request context does not come from a token whose validation succeeded (%v)", v)
					str, set := false, false
					for k, val := range c.St.facts {
						if k.op == "istype" && val && k.s == "string" && claimLookup(k.args[0], "email") {
							str = true
						}
						if k.op == "bin" && k.s == "==" && !val && (claimLookup(k.args[0], "email") && isEmptyStr(k.args[1]) || claimLookup(k.args[1], "email") && isEmptyStr(k.args[0])) {
							set = true
							// what is not a string is asserted to the empty one
							if x := k.args[0]; x.op == "const" || k.args[1].op == "const" {
								str = true
							}
						}
					}
					r.Assert(str && set, rule, "identity has an email in "+fnLabel(c.Fr.Fn), c.In.Pos(), "an identity without email is accepted")
				}
			},
		}, e, nil)
	}
	r.Min(rule, 3)
}

func isEmptyStr(t *Term) bool {
	s, ok := constString(t)
	return ok && s == ""
}

func runC05(r *Report, p *Prog) {
	a := ssoResolve(r, p, "sso-acl")
	if a == nil {
		return
	}
	policyTable(r, p, a, "sso-acl", false, true)
	ssoPathMatch(r, p, a)
}
