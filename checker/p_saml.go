package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const samlPkg = "proxy/internal/saml"
const dsigPkg = "github.com/russellhaering/goxmldsig"

func init() {
	register(&Check{
		ID: "C11", Title: "SAML assertions are accepted only if signed, addressed and fresh",
		Explain: "Path-sensitive acceptance table of the assertion consumer: every path to the session cookie is checked for signature validation, provenance of every element read, single use of the request state inside the critical section, recipient, audience and validity window. Effect rules on the trust store and on the recorded login state.",
		Run:     runC11,
	})
}

func runC11(r *Report, p *Prog) {
	samlCallback(r, p)
	samlTrust(r, p)
	samlRequest(r, p)
}

func samlCallback(r *Report, p *Prog) {
	const rule = "saml-callback"
	r.Rule(rule, "the session cookie is set only by POST, from the element returned by signature validation, for a login request that is known, at most 5 minutes old and removed in the critical section that reads it, with this service as recipient and audience, inside the validity window, and for a non-empty subject")
	fn := r.mustFunc(rule, samlPkg, "(*Provider).HandleCallback", func(f *ssa.Function) bool {
		return isHandlerSig(f) && hasDeepCalls(p, f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && strings.HasSuffix(calleeName(ci), ".SetAuthTokenCookie")
		})
	})
	states := r.mustField(rule, samlPkg, "Provider", "states")
	mu := r.mustField(rule, samlPkg, "Provider", "mu")
	created := r.mustField(rule, samlPkg, "samlState", "Created")
	orig := r.mustField(rule, samlPkg, "samlState", "OriginalURL")
	hostF := r.mustField(rule, samlPkg, "samlState", "Host")
	acs := r.mustField(rule, samlPkg, "Config", "ACSURL")
	dsigF := r.mustField(rule, samlPkg, "Provider", "dsigCtx")
	if fn == nil || states == nil || mu == nil || created == nil || orig == nil || hostF == nil || acs == nil || dsigF == nil {
		return
	}
	signed := map[*Term]bool{} // results of successful validation
	isV := func(t *Term) bool { return t.mentions(func(x *Term) bool { return signed[x] }) }
	const el = "(*github.com/beevik/etree.Element)."
	// element at a path below the validated element
	elem := func(suffix string) tp {
		return func(t *Term) bool {
			if !isCallTo(el + "FindElement")(t) {
				return false
			}
			s, ok := constString(t.args[len(t.args)-1])
			return ok && strings.HasSuffix(s, suffix) && isV(t)
		}
	}
	attr := func(suffix, name string) tp {
		return func(t *Term) bool {
			if t.op == "field" && t.s == "Value" && isCallTo(el+"SelectAttr")(t.args[0]) || isCallTo(el+"SelectAttrValue")(t) {
				return t.mentions(elem(suffix)) && t.mentions(isStr(name))
			}
			return false
		}
	}
	text := func(suffix string) tp {
		return func(t *Term) bool {
			return isCallTo(el+"Text")(t) && t.mentions(elem(suffix))
		}
	}
	isStates := isField(states)
	id := attr("SubjectConfirmationData", "InResponseTo")
	or := func(xs ...tp) tp { return either(xs...) }
	noBig := func(t *Term) bool { // no constant skew
		return !t.mentions(func(x *Term) bool { i, ok := constInt(x); return ok && (i >= 1e9 || i <= -1e9) })
	}
	window := func(l, text, name string, notBefore bool) gate {
		return gate{l, text, func(cond *Term, val bool) bool {
			if cond.s != "time.lt" || len(cond.args) != 2 || !noBig(cond) {
				return false
			}
			a, b := cond.args[0], cond.args[1]
			t := func(x *Term) bool { return x.mentions(attr("Conditions", name)) }
			now := func(x *Term) bool { return x.mentions(isCallTo("time.Now")) }
			if notBefore { // t <= now
				return now(a) && t(b) && !val || t(a) && now(b) && val
			}
			return t(a) && now(b) && !val || now(a) && t(b) && val
		}}
	}
	gs := gates{
		httpMethodIs(p, "POST"),
		foundG("known", "the response answers a known request", isStates, id, true),
		eqG("recipient", "the recipient is this service", or(attr("SubjectConfirmationData", "Recipient"), isEmptyStr), isField(acs), true),
		eqG("audience", "the audience is this service", or(text("Audience"), isEmptyStr), func(t *Term) bool { return t.mentions(isField(acs)) && t.op != "field" }, true),
		window("not before", "the assertion is already valid", "NotBefore", true),
		window("not on or after", "the assertion is still valid", "NotOnOrAfter", false),
		eqG("subject", "the subject is not empty", text("NameID"), isEmptyStr, false),
		{"subject", "", func(cond *Term, val bool) bool {
			return cond.op == "bin" && cond.s == "<" && val && isZeroConst(cond.args[0]) && isLen(cond.args[1]) && cond.args[1].mentions(text("NameID"))
		}},
	}
	on := &once{L: "once", Mu: mu, IsMap: isStates}
	sw := &sweeper{L: "sweep", IsMap: isStates, Created: isField(created), Max: 5 * 60 * 1e9}
	thisState := func(t *Term) bool {
		return t.mentions(func(x *Term) bool { return x.op == "lookupv" && isStates(x.args[0]) && id(x.args[1]) })
	}
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		Cap:       4000,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			gs.branch(c, cond, val)
			sw.branch(c, cond, val)
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && isStates(c.V(lk.X)) {
				r.Assert(hasEv(c, "once-cs"), rule, "lookup under lock", posOf(in), "the login state is read without holding the lock")
				if sw.ok(c) {
					c.St.Event("unexpired", nil, nil, nil)
				}
				if k := c.V(lk.Index); isEmptyStr(k) {
					// requests are recorded under random identifiers only
					// (rule saml-request)
					c.St.Assume(c.W.T.mk(&Term{op: "lookupok", args: []*Term{c.V(lk.X), k}, typ: types.Typ[types.Bool]}), false)
				}
			}
			on.instr(c, in)
		},
		OnCall: func(c *CallCtx) {
			on.call(c)
			sw.call(c)
			in := c.In.(ssa.Instruction)
			switch {
			case c.Name == "(*"+dsigPkg+".ValidationContext).Validate":
				r.Assert(mentionsField(c.Args[0], dsigF), rule, "configured trust", in.Pos(), "the signature is validated with another trust store: %v", c.Args[0])
				signed[c.Res] = true
				c.St.Event("valid", c.Res, nil, nil)
			case c.Name == "time.Parse" && len(c.Args) == 2:
				if isEmptyStr(c.Args[1]) {
					c.Stop = true // always fails
					return
				}
				for _, n := range []string{"NotBefore", "NotOnOrAfter"} {
					if c.Args[1].mentions(attr("Conditions", n)) {
						c.St.Event("parse "+n, c.Res, nil, nil)
					}
				}
			case strings.HasPrefix(c.Name, el) && hasEv(&c.Ctx, "valid"):
				r.Assert(isV(c.Args[0]), rule, "element from signed part in "+fnLabel(in.Parent()), in.Pos(), "%s reads an element outside the signed assertion: %v (%s)", c.Name[len(el):], c.Args[0], c.Trace(in))
			case strings.HasSuffix(c.Name, ".SetAuthTokenCookie"):
				gs.need(r, &c.Ctx, rule, "session set", in)
				r.Assert(c.St.OKNil("valid") != nil, rule, "session set: signature", in.Pos(), "a session is set although the assertion's signature was not validated (%s)", c.Trace(in))
				r.Assert(on.okFor(&c.Ctx, id), rule, "session set: single use", in.Pos(), "a session is set although the login state was not removed in the critical section that read it (%s)", c.Trace(in))
				r.Assert((hasEv(&c.Ctx, "unexpired") || sw.direct(&c.Ctx)), rule, "session set: unexpired", in.Pos(), "a session is set for a login that may have started more than 5 minutes ago (%s)", c.Trace(in))
				for _, n := range []string{"NotBefore", "NotOnOrAfter"} {
					r.Assert(c.St.OKNil("parse "+n) != nil, rule, "session set: "+n+" parsed", in.Pos(), "a session is set although %s was not parsed successfully (%s)", n, c.Trace(in))
				}
				a := c.Args[len(c.Args)-6:]
				r.Assert(text("NameID")(a[1]), rule, "session subject", in.Pos(), "the session's user id is not the signed NameID: %v", a[1])
				r.Assert(text("NameID")(a[2]), rule, "session email", in.Pos(), "the session's email is not the signed NameID: %v", a[2])
				r.Assert(id(a[3]), rule, "session id", in.Pos(), "the session id is not that of the request: %v", a[3])
				r.Assert(isField(hostF)(a[4]) && thisState(a[4]), rule, "session host", in.Pos(), "the session's host is not that of the request: %v", a[4])
				c.St.Event("session", c.Res, nil, nil)
			case c.Name == "net/http.Redirect":
				r.Assert(c.St.OKNil("session") != nil, rule, "redirect after session", in.Pos(), "the user is redirected although no session was set")
				r.Assert(isField(orig)(c.Args[2]) && thisState(c.Args[2]), rule, "redirect target", in.Pos(), "the user is not sent back to the URL of this login: %v", c.Args[2])
			}
		},
	}, fn, nil)
	r.Min(rule, 16)
}

// samlTrust: where the trust store comes from.
func samlTrust(r *Report, p *Prog) {
	const rule = "saml-trust"
	r.Rule(rule, "signatures are validated with the default validation context over the certificates parsed from the configuration, never modified afterwards")
	dsigF := r.mustField(rule, samlPkg, "Provider", "dsigCtx")
	certs := r.mustField(rule, samlPkg, "Config", "Certs")
	if dsigF == nil || certs == nil {
		return
	}
	sts := p.idx.stores[dsigF]
	r.AssertAt(len(sts) > 0, rule, "trust store set", "-", "the validation context is never set")
	for _, st := range sts {
		o := p.Origins(st.Val, FlowOpts{NoCallers: true, Base: true})
		r.Assert(o.HasCall(dsigPkg+".NewDefaultValidationContext"), rule, "default context", st.Pos(), "the validation context is not the library's default one")
		ok := false
		for ci := range o.CallIns {
			if calleeName(ci) == dsigPkg+".NewDefaultValidationContext" {
				oo := p.OriginsAll(ci.Common().Args, FlowOpts{NoCallers: false, Base: true, Fields: true})
				ok = oo.HasField(certs) || oo.HasCall("crypto/x509.ParseCertificate")
			}
		}
		r.Assert(ok, rule, "configured certificates", st.Pos(), "the trusted certificates do not come from the configuration")
	}
	for _, f := range p.Funcs {
		if isExample(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || !strings.HasPrefix(deref(fa.X.Type()).String(), dsigPkg+".ValidationContext") {
				return
			}
			for _, ref := range *fa.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == fa {
					r.Assert(false, rule, "context field "+fieldVar(fa.X.Type(), fa.Field).Name(), s.Pos(), "the signature validation context is modified")
				}
			}
		})
	}
	r.Min(rule, 3)
}

// samlRequest: what a login request records.
func samlRequest(r *Report, p *Prog) {
	const rule = "saml-request"
	r.Rule(rule, "a login request is recorded under fresh randomness with the return URL, its host and the current time, and the same identifier is sent to the provider")
	fn := r.mustFunc(rule, samlPkg, "(*Provider).RequestLogin", func(f *ssa.Function) bool {
		return f.Name() == "RequestLogin" && inPkg(f, samlPkg)
	})
	loginState(r, p, rule, fn, samlPkg, "Provider", "samlState")
}

// loginState decides the state recorded by a RequestLogin method.
func loginState(r *Report, p *Prog, rule string, fn *ssa.Function, pkg, typ, stTyp string) {
	states := r.mustField(rule, pkg, typ, "states")
	mu := r.mustField(rule, pkg, typ, "mu")
	created := r.mustField(rule, pkg, stTyp, "Created")
	orig := r.mustField(rule, pkg, stTyp, "OriginalURL")
	hostF := r.mustField(rule, pkg, stTyp, "Host")
	if fn == nil || states == nil || mu == nil || created == nil || orig == nil || hostF == nil {
		return
	}
	var ou *ssa.Parameter
	for _, q := range fn.Params {
		if q.Type().String() == "string" {
			ou = q
		}
	}
	on := &once{L: "once", Mu: mu, IsMap: isField(states)}
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok || !c.V(m.Map).mentions(isField(states)) {
				return
			}
			k, v := c.V(m.Key), c.V(m.Value)
			ld := func(fv *types.Var) *Term {
				return c.St.Load(c.W.T.field(c.W.T.path(v), fv), fv.Type())
			}
			r.Assert(hasEv(c, "once-cs"), rule, "state stored under lock", posOf(in), "the login state is stored without holding the lock")
			r.Assert(!isConstTerm(k) && c.St.OKNil("rand") != nil, rule, "state is random", posOf(in), "the login state is not random: %v", k)
			r.Assert(ld(orig).op == "param" && ld(orig).v == ou, rule, "return URL recorded", posOf(in), "the recorded return URL is not the requested one: %v", ld(orig))
			r.Assert(ld(hostF).mentions(func(t *Term) bool { return t.op == "field" && t.s == "Host" }) && ld(hostF).mentions(isParam(ou)), rule, "host recorded", posOf(in), "the recorded host is not that of the return URL: %v", ld(hostF))
			r.Assert(ld(created).mentions(isCallTo("time.Now")), rule, "creation time recorded", posOf(in), "the state's creation time is not the current time: %v", ld(created))
			c.St.Event("stored", nil, []*Term{k}, in)
		},
		OnCall: func(c *CallCtx) {
			on.call(c)
			in := c.In.(ssa.Instruction)
			switch {
			case oneOf(c.Name, "io.ReadFull", "crypto/rand.Read"):
				c.St.Event("rand", c.Res, nil, nil)
			case c.Name == "net/http.Redirect":
				r.Assert(hasEv(&c.Ctx, "stored"), rule, "state stored", in.Pos(), "the user is sent to the provider without a recorded state")
			}
		},
	}, fn, nil)
	// the identifier in the request is the recorded key
	idF := p.Field(pkg, "samlAuthnRequest", "ID")
	if idF != nil {
		for _, st := range p.idx.stores[idF] {
			ok := false
			o := p.Origins(st.Val, FlowOpts{})
			for _, f := range p.Funcs {
				if !inPkg(f, pkg) {
					continue
				}
				instrs(f, func(in ssa.Instruction) {
					m, isU := in.(*ssa.MapUpdate)
					if !isU {
						return
					}
					for ci := range p.Origins(m.Key, FlowOpts{}).CallIns {
						ok = ok || o.CallIns[ci]
					}
				})
			}
			r.Assert(ok, rule, "request ID", st.Pos(), "the request's ID is not the recorded state")
		}
	}
	r.Min(rule, 6)
}
