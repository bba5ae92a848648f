package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C33", Title: "Other sites cannot act for the user or inject into pages",
		Explain: "Path-sensitive walks of the handlers of the passkey, PKI and SSH CA endpoints to every call that changes stored state, signs or logs in; of every function that builds a cookie to the call that sets it; and of every function that writes a response or a page.",
		Run:     runC33,
	})
}

func runC33(r *Report, p *Prog) {
	webCSRF(r, p)
	webCookies(r, p)
	webPages(r, p)
}

const respWriter = "net/http.ResponseWriter"

func isReqParam(t types.Type) bool { return t.String() == "*net/http.Request" }

var webPkgs = []string{"/proxy/internal/passkeys", "/proxy/internal/pki", "/proxy/internal/sshca"}

func inWebPkg(f *ssa.Function) bool {
	for _, s := range webPkgs {
		if inPkg(f, s) {
			return true
		}
	}
	return false
}

// webHandlers are the functions of these packages that other packages call, or
// register, with a response writer and a request.
func webHandlers(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !inWebPkg(f) || inTestFile(p, f) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		w, q := false, false
		for _, x := range f.Params {
			w = w || x.Type().String() == respWriter
			q = q || isReqParam(x.Type())
		}
		if w && q {
			out = append(out, f)
		}
	}
	return out
}

func webCSRF(r *Report, p *Prog) {
	const rule = "csrf"
	r.Rule(rule, "in the handlers of the passkey, PKI and SSH CA endpoints that act for the user who is logged in, each call that updates stored state, creates a challenge, signs an SSH certificate, or sets or clears the session's cookies is reached only with the method POST and with a header of the request, which other sites' pages cannot set, found to have a constant value")
	method := p.extField("net/http", "Request", "Method")
	header := p.extField("net/http", "Request", "Header")
	chF := r.mustField(rule, "proxy/internal/passkeys", "Manager", "challenges")
	cookie := p.constStr("proxy/internal/cookiemanager", "tlsProxyAuthCookie")
	if method == nil || header == nil || chF == nil || cookie == "" {
		r.Missing(rule, "anchors")
		return
	}
	sessionCookie := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if inPkg(f, "/proxy/internal/cookiemanager") && has(f, func(in ssa.Instruction) bool { return isCall(in, "net/http.SetCookie") }) && has(f, func(in ssa.Instruction) bool {
			for _, o := range in.Operands(nil) {
				if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == cookie {
					return true
				}
			}
			return false
		}) {
			sessionCookie[f] = true
		}
	}
	r.AssertAt(len(sessionCookie) > 0, rule, "functions that set the session's cookie", "-", "not found")
	direct := func(in ssa.Instruction) string {
		if mu, ok := in.(*ssa.MapUpdate); ok && p.Origins(mu.Map, FlowOpts{StopCall: func(string) bool { return true }, NoCallers: true}).HasField(chF) {
			return "challenge created"
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return ""
		}
		n := calleeName(ci)
		switch {
		case strings.HasSuffix(n, ".OpenForUpdate") || strings.HasSuffix(n, ".OpenManyForUpdate") || strings.HasSuffix(n, ".SaveDataFile"):
			return "stored state updated"
		case n == "(*golang.org/x/crypto/ssh.Certificate).SignCert":
			return "SSH certificate signed"
		}
		if g := staticCallee(ci); g != nil && sessionCookie[g] {
			return "session cookie set or cleared"
		}
		if ci.Common().IsInvoke() {
			for g := range sessionCookie {
				if g.Name() == ci.Common().Method.Name() {
					return "session cookie set or cleared"
				}
			}
		}
		return ""
	}
	memo := map[*ssa.Function]string{}
	deep := func(f *ssa.Function) string {
		if s, ok := memo[f]; ok {
			return s
		}
		memo[f] = ""
		for g := range p.reachable(f) {
			if g.Blocks == nil || !inWebPkg(g) {
				continue
			}
			instrs(g, func(in ssa.Instruction) {
				if s := direct(in); s != "" {
					memo[f] = s
				}
			})
		}
		return memo[f]
	}
	hasHTTP := func(f *ssa.Function) bool {
		for _, x := range f.Params {
			if isReqParam(x.Type()) || x.Type().String() == respWriter {
				return true
			}
			if _, ok := x.Type().Underlying().(*types.Signature); ok {
				return true
			}
		}
		return f.Parent() != nil
	}
	isHdr := func(t *Term) bool {
		return (t.op == "call" || t.op == "csym") && t.s == "(net/http.Header).Get" && len(t.args) > 1 && mentionsField(t.args[0], header)
	}
	n := 0
	for _, e := range webHandlers(p) {
		sink := func(c *Ctx, what string, at ssa.Instruction) {
			n++
			post, hdr := false, false
			for f, v := range c.St.facts {
				if a, b, eq, ok := sameEq(f, v); ok && eq {
					for i := 0; i < 2; i++ {
						if isField(method)(a) && isStr("POST")(b) {
							post = true
						}
						if s, ok := constString(b); ok && isHdr(a) && customHeader(a.args[1], s) {
							hdr = true
						}
						a, b = b, a
					}
				}
			}
			r.Assert(post && hdr, rule, what+" in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(e), posOf(at), "reached without the method (%v) and a header that other sites cannot send (%v) having been checked: %s", post, hdr, c.Trace(at))
		}
		acts := false
		for g := range p.reachable(e) {
			acts = acts || inWebPkg(g) && g.Blocks != nil && has(g, func(in ssa.Instruction) bool {
				if fa, ok := in.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldVar(fa.X.Type(), fa.Field).Name(), "ClaimsFrom") {
					return true
				}
				return strings.HasPrefix(direct(in), "session cookie")
			})
		}
		if !acts {
			continue // the same for everybody
		}
		if deep(e) == "" && !has(e, func(in ssa.Instruction) bool { return direct(in) != "" }) {
			continue
		}
		r.Walk(&Rule{
			Name: rule, Cap: 96,
			Interesting: func(in ssa.Instruction) bool {
				if direct(in) != "" || isCall(in, "(net/http.Header).Get") || touchesField(in, method) {
					return true
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				g := staticCallee(ci)
				return g != nil && inWebPkg(g) && deep(g) != ""
			},
			Keep: func(t *Term) bool { return mentionsField(t, method) || t.mentions(isHdr) },
			OnCall: func(c *CallCtx) {
				if s := direct(c.In.(ssa.Instruction)); s != "" {
					sink(&c.Ctx, s, c.In.(ssa.Instruction))
					return
				}
				if c.Name == "(net/http.Header).Get" {
					c.Result = c.W.T.mk(&Term{op: "call", s: c.Name, args: c.Args, typ: types.Typ[types.String]})
					c.Opaque = true
					return
				}
				if c.Fn != nil && inWebPkg(c.Fn) && !hasHTTP(c.Fn) {
					if s := deep(c.Fn); s != "" {
						sink(&c.Ctx, s+" by "+fnLabel(c.Fn), c.In.(ssa.Instruction))
					}
					c.Opaque = true
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if _, ok := in.(*ssa.MapUpdate); ok {
					if s := direct(in); s != "" {
						sink(c, s, in)
					}
				}
			},
		}, e, nil)
	}
	r.AssertAt(n >= 6, rule, "actions of the handlers", "-", "found only %d", n)
}

// customHeader: a header and a value that a request made by a page of another
// site cannot have, unless that site was asked about it first.
func customHeader(t *Term, v string) bool {
	s, ok := constString(t)
	if !ok || v == "" {
		return false
	}
	s = strings.ToLower(s)
	return strings.HasPrefix(s, "x-") || s == "sec-fetch-site" && oneOf(v, "same-origin", "none")
}

func webCookies(r *Report, p *Prog) {
	const rule = "cookie-flags"
	r.Rule(rule, "every cookie that is given a value is set with Secure, HttpOnly, and SameSite Lax or Strict")
	f := func(n string) *types.Var { return p.extField("net/http", "Cookie", n) }
	value, secure, httpOnly, sameSite := f("Value"), f("Secure"), f("HttpOnly"), f("SameSite")
	if value == nil || secure == nil || httpOnly == nil || sameSite == nil {
		r.Missing(rule, "net/http.Cookie")
		return
	}
	covered := map[ssa.Instruction]bool{}
	for _, fn := range p.Funcs {
		if inTestFile(p, fn) || isExample(fn) || !has(fn, func(in ssa.Instruction) bool {
			a, ok := in.(*ssa.Alloc)
			return ok && isPtrTo(a.Type(), "net/http.Cookie") || isCall(in, "net/http.SetCookie")
		}) {
			continue
		}
		r.Walk(&Rule{
			Name: rule, Cap: 48, MaxDepth: 4,
			NoInline: func(g *ssa.Function) bool { return !inPkg(g, pkgPath(fn)) },
			Interesting: func(in ssa.Instruction) bool {
				return isCall(in, "net/http.SetCookie") || touchesField(in, secure) || touchesField(in, httpOnly) || touchesField(in, sameSite) || touchesField(in, value)
			},
			OnCall: func(c *CallCtx) {
				if c.Name != "net/http.SetCookie" {
					return
				}
				ck := c.W.T.path(c.Args[1])
				if ck.op != "alloc" {
					return
				}
				covered[c.In.(ssa.Instruction)] = true
				ld := func(fv *types.Var) *Term { return c.St.Load(c.W.T.field(ck, fv), fv.Type()) }
				if isEmptyStr(ld(value)) {
					return
				}
				ss := ld(sameSite)
				mode := int64(0)
				if ss != nil && ss.cv != nil {
					mode, _ = constant.Int64Val(constant.ToInt(ss.cv))
				}
				ok := isTrueConst(ld(secure)) && isTrueConst(ld(httpOnly)) && (mode == 2 || mode == 3)
				r.Assert(ok, rule, "cookie set in "+fnLabel(c.Fr.Fn), c.In.Pos(), "the cookie is set with Secure=%v HttpOnly=%v SameSite=%v", ld(secure), ld(httpOnly), ss)
			},
		}, fn, nil)
	}
	n := 0
	for _, ci := range p.prodSites(func(n string, _ ssa.CallInstruction) bool { return n == "net/http.SetCookie" }) {
		n++
		r.Assert(covered[ci.(ssa.Instruction)], rule, "cookie known in "+fnLabel(ci.Parent()), ci.Pos(), "it is not known how the cookie was made")
	}
	r.AssertAt(n >= 4, rule, "cookies set", "-", "found only %d", n)
	for _, ci := range p.prodSites(func(n string, _ ssa.CallInstruction) bool {
		return n == "(net/http.Header).Add" || n == "(net/http.Header).Set"
	}) {
		if c, ok := ci.Common().Args[1].(*ssa.Const); ok && c.Value != nil && strings.EqualFold(constant.StringVal(c.Value), "set-cookie") {
			r.Assert(false, rule, "Set-Cookie header in "+fnLabel(ci.Parent()), ci.Pos(), "a cookie is set through the header, its flags are not known")
		}
	}
}

func webPages(r *Report, p *Prog) {
	const page, frame, esc = "page-escaped", "page-framed", "response-type"
	r.Rule(page, "pages are made with html/template only, from constant templates, and no value is exempted from its escaping unless it is constant")
	r.Rule(frame, "the pages from which keys and certificates are managed are sent with a header that forbids framing")
	r.Rule(esc, "data of the request is written to a response only by a template, or after a content type other than HTML was set")
	n := 0
	roots := map[*ssa.Function]bool{}
	executes := func(in ssa.Instruction) bool {
		if !isCall(in, "(*html/template.Template).Execute", "(*html/template.Template).ExecuteTemplate") {
			return false
		}
		w := in.(ssa.CallInstruction).Common().Args[1]
		if ct, ok := w.(*ssa.ChangeInterface); ok {
			w = ct.X
		}
		return w.Type().String() == respWriter
	}
	for _, f := range p.Funcs {
		if inTestFile(p, f) || isExample(f) || !inPkg(f, "/proxy") && !strings.Contains(pkgPath(f), "/proxy/internal/") {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				name := calleeName(ci)
				if strings.Contains(name, "text/template.") {
					r.Assert(strings.Contains(name, "text/template.HTMLEscape") || strings.Contains(name, "text/template.JSEscape"), page, "text template in "+fnLabel(f), posOf(in), "%s does not escape", name)
				}
				if strings.HasSuffix(name, "html/template.Template).Parse") {
					n++
					o := p.Origins(ci.Common().Args[1], FlowOpts{})
					r.Assert(len(o.Params) == 0 && len(o.Fields) == 0 && len(o.CallList()) == 0, page, "template parsed in "+fnLabel(f), posOf(in), "the template is not constant (calls %v fields %v)", o.CallList(), fieldNames(o))
				}
			}
			var t types.Type
			var x ssa.Value
			switch c := in.(type) {
			case *ssa.ChangeType:
				t, x = c.Type(), c.X
			case *ssa.Convert:
				t, x = c.Type(), c.X
			default:
				return
			}
			if s := t.String(); strings.HasPrefix(s, "html/template.") && oneOf(strings.TrimPrefix(s, "html/template."), "HTML", "JS", "JSStr", "URL", "CSS", "HTMLAttr", "Srcset") {
				_, isConst := x.(*ssa.Const)
				r.Assert(isConst, page, "conversion to "+s+" in "+fnLabel(f), posOf(in), "a value that is not constant is exempted from escaping")
			}
		})
		toWriter := func(in ssa.Instruction) ssa.Value {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return nil
			}
			com := ci.Common()
			if com.IsInvoke() && com.Method.Name() == "Write" && com.Value.Type().String() == respWriter {
				return com.Args[0]
			}
			if name := calleeName(ci); oneOf(name, "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "io.Copy") {
				w := com.Args[0]
				if ct, ok := w.(*ssa.ChangeInterface); ok {
					w = ct.X
				}
				if w.Type().String() == respWriter {
					return com.Args[len(com.Args)-1]
				}
			}
			return nil
		}
		if has(f, executes) && inWebPkg(f) {
			for _, g := range httpRoots(p, f, 3) {
				roots[g] = true
			}
		}
		if !has(f, func(in ssa.Instruction) bool { return toWriter(in) != nil }) {
			continue
		}
		r.Walk(&Rule{
			Name: esc, Cap: 48,
			Interesting: func(in ssa.Instruction) bool {
				return toWriter(in) != nil || isCall(in, "(net/http.Header).Set", "(net/http.Header).Del")
			},
			OnCall: func(c *CallCtx) {
				at := c.In.(ssa.Instruction)
				if oneOf(c.Name, "(net/http.Header).Set", "(net/http.Header).Del") {
					k, ok := constString(c.Args[1])
					if !ok {
						return
					}
					v := ""
					if len(c.Args) > 2 {
						v, _ = constString(c.Args[2])
					}
					switch strings.ToLower(k) {
					case "content-type":
						c.St.Kill("type")
						if v != "" && !strings.Contains(v, "html") && !strings.Contains(v, "xml") && !strings.Contains(v, "svg") {
							c.St.Event("type", nil, nil, nil)
						}
					}
					return
				}
				if c.Fr.Fn != f {
					return
				}
				if d := toWriter(at); d != nil {
					o := p.Origins(d, FlowOpts{StopCall: func(n string) bool { return strings.Contains(n, "embed.FS)") }})
					r.Assert(!fromRequest(o) || hasEv(&c.Ctx, "type"), esc, "response written in "+fnLabel(f), posOf(at), "data of the request is written with a content type that may be taken for HTML (%v, %v): %s", fieldNames(o), o.CallList(), c.Trace(at))
				}
			},
		}, f, nil)
	}
	for f := range roots {
		r.Walk(&Rule{
			Name: frame, Cap: 48,
			Interesting: func(in ssa.Instruction) bool {
				return executes(in) || isCall(in, "(net/http.Header).Set", "(net/http.Header).Del")
			},
			OnCall: func(c *CallCtx) {
				at := c.In.(ssa.Instruction)
				if oneOf(c.Name, "(net/http.Header).Set", "(net/http.Header).Del") {
					k, ok := constString(c.Args[1])
					if !ok {
						return
					}
					v := ""
					if len(c.Args) > 2 {
						v, _ = constString(c.Args[2])
					}
					switch strings.ToLower(k) {
					case "x-frame-options":
						c.St.Kill("frame")
						if strings.EqualFold(v, "deny") || strings.EqualFold(v, "sameorigin") {
							c.St.Event("frame", nil, nil, nil)
						}
					case "content-security-policy":
						if strings.Contains(v, "frame-ancestors") {
							c.St.Event("frame", nil, nil, nil)
						}
					}
					return
				}
				if executes(at) {
					r.Assert(hasEv(&c.Ctx, "frame"), frame, "page in "+fnLabel(c.Fr.Fn)+" from "+fnLabel(f), posOf(at), "the page can be framed by other sites: %s", c.Trace(at))
				}
			},
		}, f, nil)
	}
	r.AssertAt(n >= 4, page, "templates", "-", "found only %d", n)
	r.Min(frame, 3)
	r.Min(esc, 6)
}

// fromRequest: the value may come from a request.
func fromRequest(o *Orig) bool {
	for fv := range o.Fields {
		if fv.Pkg() != nil && (fv.Pkg().Path() == "net/http" && oneOf(fv.Name(), "URL", "Form", "PostForm", "Header", "Host", "Body", "RequestURI", "Method", "Trailer", "MultipartForm") || fv.Pkg().Path() == "net/url") {
			return true
		}
	}
	for _, n := range o.CallList() {
		if strings.HasPrefix(n, "(net/url.Values).") || strings.HasPrefix(n, "(net/http.Header).Get") || strings.HasPrefix(n, "(*net/http.Request).") {
			return true
		}
	}
	return false
}

// httpRoots: the functions from which f is reached with a response, up the
// calls of unexported functions.
func httpRoots(p *Prog, f *ssa.Function, depth int) []*ssa.Function {
	var out []*ssa.Function
	if depth > 0 && (f.Object() == nil || !f.Object().Exported()) && len(p.idx.addrTaken[f]) == 0 {
		for _, c := range p.idx.callers[f] {
			if !inTest(p, c) {
				out = append(out, httpRoots(p, c.Parent(), depth-1)...)
			}
		}
	}
	if len(out) == 0 {
		return []*ssa.Function{f}
	}
	return out
}
