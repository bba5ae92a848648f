package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const sshPkg = "proxy/internal/sshca"

func init() {
	register(&Check{
		ID: "C16", Title: "SSH certificates are short-lived and name only the user",
		Explain: "Path-sensitive walk of the SSH certificate endpoint: every path to a signature carries the request checks, and each field of the signed certificate is derived from the authenticated user, the clock, the random source or constants; the CA's key is saved before it is used.",
		Run:     runC16,
	})
}

func runC16(r *Report, p *Prog) {
	const rule, keyRule = "ssh-certificate", "ssh-ca-key"
	r.Rule(rule, "an SSH certificate is signed only for an authenticated user with an email address, by POST with the CSRF header; it is a user certificate whose key ID and only principal are that email, with a random serial number and constant permissions, valid for at most a day; it is sent only when it was signed")
	r.Rule(keyRule, "a new CA key is saved before the CA can be used, and the key in use is the saved one")
	signer := r.mustField(rule, sshPkg, "SSHCA", "signer")
	priv := r.mustField(keyRule, sshPkg, "certificateAuthority", "PrivateKey")
	const signName = "(*golang.org/x/crypto/ssh.Certificate).SignCert"
	signs := func(in ssa.Instruction) bool { return isCall(in, signName) }
	fn := r.mustFunc(rule, sshPkg, "(*SSHCA).ServeCertificate", func(f *ssa.Function) bool {
		return inPkg(f, sshPkg) && isHandlerSig(f) && hasDeepCalls(p, f, signs)
	})
	cf := func(n string) *types.Var { return p.extField("golang.org/x/crypto/ssh", "Certificate", n) }
	if fn == nil || signer == nil || priv == nil {
		return
	}
	if cf("Key") == nil {
		r.Missing(rule, "ssh.Certificate")
		return
	}
	user := func(t *Term) bool { return t.mentions(func(x *Term) bool { return isDynField(x, "ClaimsFromCtx") }) }
	email := func(t *Term) bool { return isClaim("email")(t) && user(t) }
	gs := gates{
		eqG("email", "the user has an email address", email, isEmptyStr, false),
		httpMethodIs(p, "POST"),
		eqG("csrf", "the CSRF header is present", reqHeader("X-Csrf-Check"), isStr("1"), true),
	}
	fromReq := func(c *Ctx, t *Term) bool {
		return heapMentions(c, t, func(x *Term) bool {
			if x.op == "field" && x.fv != nil && oneOf(x.fv.Name(), "Body", "Header", "URL", "Form", "PostForm", "Host", "RemoteAddr") {
				return x.fv.Pkg() != nil && x.fv.Pkg().Path() == "net/http"
			}
			return isCallTo("golang.org/x/crypto/ssh.ParseAuthorizedKey", "io.ReadAll", "(*net/http.Request).FormValue")(x) && !user(x)
		})
	}
	n := 0
	r.Walk(&Rule{
		KeepRes: true,
		Name:    rule, InlineAll: true, Cap: 2000,
		OnBranch: gs.branch,
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			// options of the certificate
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || mu.Map.Type().String() != "map[string]string" {
				return
			}
			if fromReq(c, c.V(mu.Key)) || fromReq(c, c.V(mu.Value)) {
				c.St.Event("tainted", nil, []*Term{c.V(mu.Map)}, in)
			}
		},
		OnCall: func(c *CallCtx) {
			in := c.In.(ssa.Instruction)
			switch {
			case oneOf(c.Name, "io.ReadFull", "crypto/rand.Read", "crypto/rand.Int"):
				if c.Name == "io.ReadFull" && !c.Args[0].mentions(func(t *Term) bool { return t.op == "global" && t.s == "crypto/rand.Reader" }) {
					return
				}
				c.St.Event("rand", c.Res, []*Term{stripConv(c.Args[len(c.Args)-1])}, nil)
			case c.Name == "golang.org/x/crypto/ssh.ParseAuthorizedKey":
				c.St.Event("key", c.Res, nil, nil)
			case c.Name == signName:
				n++
				gs.need(r, &c.Ctx, rule, "certificate signed", in)
				cert := c.W.T.path(c.Args[0])
				ld := func(n string) *Term { f := cf(n); return c.St.Load(c.W.T.field(cert, f), f.Type()) }
				what := "signed certificate's "
				kind, isC := constInt(ld("CertType"))
				r.Assert(isC && kind == 1, rule, what+"type", in.Pos(), "the certificate is not a user certificate: %v", ld("CertType"))
				r.Assert(email(ld("KeyId")), rule, what+"key ID", in.Pos(), "the key ID is not the user's email: %v", ld("KeyId"))
				ps, ok := listElems(&c.Ctx, ld("ValidPrincipals"))
				for _, e := range ps {
					ok = ok && email(e)
				}
				r.Assert(ok && len(ps) > 0, rule, what+"principals", in.Pos(), "the principals are not just the user's email (none at all means any): %v", ps)
				r.Assert(fromOK(&c.Ctx, ld("Key"), "key"), rule, what+"key", in.Pos(), "the key is not one that was parsed without error: %v", ld("Key"))
				unix := func(n string) (int64, bool) {
					t := stripConv(ld(n))
					if !isCallTo("(time.Time).Unix")(t) {
						return 0, false
					}
					b, d, ok := timePlus(t.args[0])
					for ok && (b.op == "csym" || b.op == "call") && oneOf(b.s, "(time.Time).UTC", "(time.Time).Local", "(time.Time).In") {
						var d2 int64
						b, d2, ok = timePlus(b.args[0])
						d += d2
					}
					return d, ok && isNow(b)
				}
				const day = 24 * 3600 * 1e9
				d, ok := unix("ValidBefore")
				r.Assert(ok && d > 0 && d <= day, rule, what+"expiration", in.Pos(), "the certificate does not expire within a day: %v", ld("ValidBefore"))
				if z := ld("ValidAfter"); z.op != "zero" && !isZeroConst(z) {
					d, ok = unix("ValidAfter")
					r.Assert(ok && d <= 0 && d >= -day, rule, what+"start", in.Pos(), "the certificate's start is not the current time: %v", z)
				} else {
					r.Assert(false, rule, what+"start", in.Pos(), "the certificate has no start")
				}
				sn := ld("Serial")
				rnd := fromOK(&c.Ctx, sn, "rand")
				for _, ev := range c.St.Has("rand") {
					rnd = rnd || okResult(&c.Ctx, ev) && !isConstTerm(ev.Args[0]) && heapMentions(&c.Ctx, sn, func(x *Term) bool { return x == ev.Args[0] })
				}
				r.Assert(rnd, rule, what+"serial number", in.Pos(), "the serial number is not random: %v", sn)
				perms := cf("Permissions")
				st := perms.Type().Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					v := c.St.Load(c.W.T.field(c.W.T.field(cert, perms), f), f.Type())
					bad := fromReq(&c.Ctx, v)
					for _, ev := range c.St.Has("tainted") {
						bad = bad || v.mentions(func(x *Term) bool { return x == ev.Args[0] })
					}
					r.Assert(!bad, rule, what+f.Name(), in.Pos(), "the certificate's %s is chosen by the user: %v", f.Name(), v)
				}
				r.Assert(isField(signer)(c.Args[2]), rule, what+"signer", in.Pos(), "the certificate is not signed by the CA: %v", c.Args[2])
				c.St.Event("signed", c.Res, []*Term{c.Args[0]}, nil)
			case c.Name == "golang.org/x/crypto/ssh.MarshalAuthorizedKey":
				ok := mentionsField(c.Args[0], signer) // the CA's public key
				for _, ev := range c.St.Has("signed") {
					ok = ok || okResult(&c.Ctx, ev) && c.Args[0].mentions(func(x *Term) bool { return x == ev.Args[0] })
				}
				r.Assert(ok, rule, "certificate sent", in.Pos(), "a certificate is sent although it was not signed (%s)", c.Trace(in))
			}
		},
	}, fn, nil)
	r.AssertAt(n > 0, rule, "certificates are signed", "-", "no path signs a certificate")

	// nothing else uses the CA's key
	ok := p.reachable(fn)
	for _, f := range p.Funcs {
		if isExample(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			ci, isC := in.(ssa.CallInstruction)
			if !isC {
				return
			}
			name := calleeName(ci)
			switch {
			case name == signName:
				r.Assert(ok[f], rule, "SSH signature in "+fnLabel(f), in.Pos(), "an SSH certificate is signed outside of the certificate endpoint")
			case oneOf(name, "(golang.org/x/crypto/ssh.Signer).Sign", "(golang.org/x/crypto/ssh.AlgorithmSigner).SignWithAlgorithm"):
				o := p.Origins(ci.Common().Value, FlowOpts{NoCallers: true})
				r.Assert(!o.Fields[signer], rule, "SSH signature in "+fnLabel(f), in.Pos(), "the SSH CA's key signs something other than a certificate")
			}
		})
	}
	r.Min(rule, 15)

	// the CA's key
	newFn := r.mustFunc(keyRule, sshPkg, "New", func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		return inPkg(f, sshPkg) && f.Signature.Recv() == nil && rs.Len() == 2 && deref(rs.At(0).Type()).String() == modPath+"/"+sshPkg+".SSHCA"
	})
	if newFn == nil {
		return
	}
	made, used := 0, 0
	r.Walk(&Rule{
		KeepRes: true,
		Name:    keyRule, InlineAll: true,
		NoInline: func(f *ssa.Function) bool { return isKeyParser(f) },
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			switch fieldVar(fa.X.Type(), fa.Field) {
			case priv:
				made++
				c.St.Event("made", nil, nil, nil)
			case signer:
				used++
				v := c.V(st.Val)
				src := mentionsField(v, priv)
				if !src { // the bytes just saved
					cur := false
					for k, x := range c.St.heap {
						if isField(priv)(k) && v.mentions(func(t *Term) bool { return t == x }) {
							cur = true
						}
					}
					src = cur
				}
				r.Assert(src, keyRule, "the key in use is the saved one", in.Pos(), "the CA's signer is not made from the saved key: %v", v)
			}
		},
		OnCall: commitCall,
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != newFn || c.St.Nil(rets[1]) == no || !hasEv(c, "made") {
				return
			}
			r.Assert(committed(c), keyRule, "a new key is saved", posOf(in), "the CA is used although its new key was not saved, so that it is lost when the proxy restarts (%s)", c.Trace(in))
		},
	}, newFn, nil)
	r.AssertAt(made > 0 && used > 0, keyRule, "a key is made and used", "-", "no path makes a key")
	r.Min(keyRule, 2)
}
