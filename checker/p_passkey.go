package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkPkg = "proxy/internal/passkeys"

func init() {
	register(&Check{
		ID: "C13", Title: "Passkey ceremonies accept only fresh, verified assertions",
		Explain: "Path-sensitive acceptance tables of the two passkey HTTP handlers with every helper explored in context: each path to a session cookie, a registered key, a removed key or a stored challenge carries the required tests, on the same values.",
		Run:     runC13,
	})
}

type pkAnchors struct {
	challenges, nonces, mu, nMu, db, acl               *types.Var
	chCreated, chClaims, nCreated, nURL                *types.Var
	keyID, keyPub, keyRP, userKeys, userClaims, handle *types.Var
	cm, ocm, handles, subjects                         *types.Var
	rpid, up, uv, creds, credID, credKey, at           *types.Var
}

func pkResolve(r *Report, rule string) *pkAnchors {
	f := func(t, n string) *types.Var { return r.mustField(rule, pkPkg, t, n) }
	a := &pkAnchors{
		challenges: f("Manager", "challenges"), nonces: f("Manager", "nonces"), mu: f("Manager", "mu"), nMu: f("Manager", "noncesMu"), db: f("Manager", "db"), acl: f("Manager", "acl"),
		chCreated: f("challenge", "created"), chClaims: f("challenge", "claims"), nCreated: f("nonceData", "created"), nURL: f("nonceData", "origURL"),
		keyID: f("userKey", "ID"), keyPub: f("userKey", "PublicKey"), keyRP: f("userKey", "RPIDHash"),
		userKeys: f("user", "Keys"), userClaims: f("user", "Claims"), handle: f("user", "Handle"),
		cm: f("Config", "CookieManager"), ocm: f("Config", "OtherCookieManager"),
		rpid: f("authenticatorData", "RPIDHash"), up: f("authenticatorData", "UserPresence"), uv: f("authenticatorData", "UserVerification"),
		creds: f("authenticatorData", "AttestedCredentials"), credID: f("attestedCredentials", "ID"), credKey: f("attestedCredentials", "COSEKey"), at: f("authenticatorData", "AttestedCredentialData"),
	}
	if a.db != nil {
		if st, ok := a.db.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "Handles":
					a.handles = st.Field(i)
				case "Subjects":
					a.subjects = st.Field(i)
				}
			}
		}
	}
	for _, fv := range []*types.Var{a.challenges, a.nonces, a.mu, a.nMu, a.acl, a.chCreated, a.chClaims, a.nCreated, a.nURL, a.keyID, a.keyPub, a.keyRP, a.userKeys, a.userClaims, a.handle, a.cm, a.ocm, a.rpid, a.up, a.uv, a.creds, a.credID, a.credKey, a.at} {
		if fv == nil {
			return nil
		}
	}
	if a.handles == nil || a.subjects == nil {
		r.Missing(rule, "passkey database fields")
		return nil
	}
	return a
}

func runC13(r *Report, p *Prog) {
	const rule = "passkey-ceremonies"
	a := pkResolve(r, rule)
	if a == nil {
		return
	}
	pkHandlers(r, p, a)
}

// reqHeader: the value of a request header.
func reqHeader(name string) tp {
	return func(t *Term) bool {
		switch {
		case isCallTo("(net/http.Header).Get")(t):
			return canonHeader(t.args[len(t.args)-1]) == name
		case t.op == "index" && (t.args[0].op == "lookupv" || t.args[0].op == "lookup"):
			return canonHeader(t.args[0].args[1]) == name
		}
		return false
	}
}

// commits follows the storage library's update transactions: "open" when the
// file was opened for update, "commit" with the result of commit(true, nil).
func commitCall(c *CallCtx) {
	const open = "(*github.com/c2FmZQ/storage.Storage).OpenForUpdate"
	if c.Name == open {
		c.St.Event("open", c.Res, c.Args, nil)
		return
	}
	if c.CT != nil && c.CT.op == "extract" && c.CT.s == "0" && len(c.Args) > 0 {
		for _, ev := range c.St.Has("open") {
			if ev.Res == c.CT.args[0] && c.St.Bool(c.Args[0]) == yes {
				c.St.Event("commit", c.Res, nil, nil)
			}
		}
	}
}

func committed(c *Ctx) bool { return c.St.OKNil("commit") != nil }

// flagBit reads a test of one bit of the authenticator data's flags byte.
func flagBit(cond *Term) (bit int, base *Term, ok bool) {
	if cond.op != "bin" || cond.s != "==" {
		return
	}
	x := cond.args[1]
	z := cond.args[0]
	if z.op != "const" {
		x, z = z, x
	}
	k, isC := constInt(z)
	if !isC || x.op != "bin" || x.s != "&" {
		return
	}
	y, m := x.args[0], x.args[1]
	if y.op == "const" {
		y, m = m, y
	}
	mask, isC := constInt(m)
	if !isC || mask <= 0 || mask&(mask-1) != 0 {
		return
	}
	for mask > 1 {
		bit++
		mask >>= 1
	}
	if y.op == "bin" && y.s == ">>" {
		sh, isC := constInt(y.args[1])
		if !isC {
			return
		}
		bit += int(sh)
		y = y.args[0]
	}
	if y.op != "index" {
		return
	}
	off, isC := constInt(y.args[1])
	if !isC {
		return
	}
	b := y.args[0]
	for b.op == "slice" {
		if b.args[1] != nil {
			lo, isC := constInt(b.args[1])
			if !isC {
				return
			}
			off += lo
		}
		b = b.args[0]
	}
	return bit, b, off == 32 && k == 0
}

// rpidOf: the first 32 bytes of the authenticator data.
func rpidOf(t *Term, rpid *types.Var) (*Term, bool) {
	if isField(rpid)(t) {
		return t.args[0], true
	}
	if t.op == "slice" && (t.args[1] == nil || isZeroConst(t.args[1])) && t.args[2] != nil {
		if k, ok := constInt(t.args[2]); ok && k == 32 {
			return t.args[0], true
		}
	}
	return nil, false
}

func stripConv(t *Term) *Term {
	for t != nil && (t.op == "conv" || t.op == "slice" || t.op == "iface") && len(t.args) > 0 && t.args[0] != nil {
		t = t.args[0]
	}
	return t
}

func pkHandlers(r *Report, p *Prog, a *pkAnchors) {
	const rule = "passkey-ceremonies"
	r.Rule(rule, "each path to a session, a registered, removed or refreshed credential, or a stored challenge carries: POST, the CSRF header, the signed return URL or the re-authenticated session, and the complete ceremony checks on one credential and one challenge, which is removed in the critical section that reads it")
	chal := isField(a.challenges)
	host := anyField(p.extField("net/http", "Request", "Host"))
	isUser := func(t *Term) bool { return t.mentions(isLookup(isField(a.handles))) }
	stored := func(fv *types.Var) tp {
		return func(t *Term) bool { return isField(fv)(t) && isUser(t) }
	}
	common := gates{
		httpMethodIs(p, "POST"),
		eqG("csrf", "the CSRF header is present", reqHeader("X-Csrf-Check"), isStr("1"), true),
	}
	get := gates{
		eqG("type get", "the client data is of type webauthn.get", p.isJSON("type"), isStr("webauthn.get"), true),
		foundG("challenge", "the challenge is known", chal, p.isJSON("challenge"), true),
	}
	create := gates{
		eqG("type create", "the client data is of type webauthn.create", p.isJSON("type"), isStr("webauthn.create"), true),
		eqG("origin", "the origin is https:// followed by this host", p.isJSON("origin"), func(t *Term) bool {
			return t.op == "bin" && t.s == "+" && isStr("https://")(t.args[0]) && host(t.args[1])
		}, true),
		foundG("challenge", "the challenge is known", chal, p.isJSON("challenge"), true),
	}
	ownMail := isClaim("email")
	acl := []*member{
		{L: "acl-email", IsList: anyField(a.acl), IsElem: ownMail},
		{L: "acl-domain", IsList: anyField(a.acl), IsElem: func(t *Term) bool {
			return t.op == "bin" && t.s == "+" && isStr("@")(t.args[0]) && t.args[1].op == "extract" && t.args[1].s == "1" && t.args[1].args[0].s == "strings.Cut" && t.args[1].mentions(ownMail)
		}},
	}
	noACL := nilG("no acl", "", isField(a.acl), true)
	on := &once{L: "once", Mu: a.mu, IsMap: chal}
	non := &once{L: "nonce", Mu: a.nMu, IsMap: isField(a.nonces)}
	sw := &sweeper{L: "sweep", IsMap: chal, Created: isField(a.chCreated), Max: 5 * 60 * 1e9}
	nsw := &sweeper{L: "nsweep", IsMap: isField(a.nonces), Created: isField(a.nCreated), Max: 5 * 60 * 1e9}
	iat := anyOf(isCallTo("(github.com/golang-jwt/jwt/v5.MapClaims).GetIssuedAt"))

	for _, h := range []struct {
		name   string
		manage bool
	}{{"(*Manager).HandleCallback", false}, {"(*Manager).ManageKeys", true}} {
		fn := r.mustFunc(rule, pkPkg, h.name, func(f *ssa.Function) bool {
			return inPkg(f, pkPkg) && isHandlerSig(f) && hasDeepCalls(p, f, func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if h.manage {
					return touchesField(in, a.userKeys) && hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, "encoding/hex.DecodeString") })
				}
				return ok && strings.HasSuffix(calleeName(ci), ".SetAuthTokenCookie")
			})
		})
		if fn == nil {
			continue
		}
		fresh := gates{
			nilG("claims", "there is a session", func(t *Term) bool { return isDynField(t, "ClaimsFromCtx") }, false),
			{"session host", "the session was established on this host", func(*Term, bool) bool { return false }},
			{"session age", "the session was established less than 10 minutes ago", func(cond *Term, val bool) bool {
				_, young, b := ageOutcome(cond, val, either(iat, func(t *Term) bool {
					return t.op == "zero" || t.op == "const" && t.typ != nil && t.typ.String() == "time.Time"
				}))
				return young && b <= 10*60*1e9
			}},
		}
		// claims of the session or of the identity provider's cookie
		identity := func(c *Ctx, t *Term) bool {
			if h.manage {
				return t.mentions(func(x *Term) bool { return isDynField(x, "ClaimsFromCtx") })
			}
			return fromNonNil(c, t, "other")
		}
		isLookupOf := func(c *Ctx, t *Term) bool { // Handles[Subjects[own email]]
			return t.op == "lookupv" && isField(a.handles)(t.args[0]) && t.args[1].op == "lookupv" && isField(a.subjects)(t.args[1].args[0]) && ownMail(t.args[1].args[1]) && identity(c, t.args[1].args[1])
		}
		who := h.name[strings.Index(h.name, ".")+1:] + ": "
		access := func(c *Ctx, in ssa.Instruction, what string) {
			common.need(r, c, rule, who+what, in)
			if h.manage {
				fresh.need(r, c, rule, who+what, in)
			} else {
				r.Assert(c.St.OKNil("url token") != nil, rule, who+what+": signed URL", posOf(in), "%s although no signed return URL was validated on this path (%s)", what, c.Trace(in))
			}
		}
		same := func(c *Ctx, l string, base *Term) bool {
			for _, ev := range c.St.Has(l) {
				if ev.Args[0] == base {
					return true
				}
			}
			return false
		}
		challengeOK := func(c *Ctx, in ssa.Instruction, what string) {
			r.Assert(on.okFor(c, p.isJSON("challenge")), rule, who+what+": single use", posOf(in), "%s although the challenge was not removed in the critical section that read it (%s)", what, c.Trace(in))
			r.Assert((hasEv(c, "unexpired") || sw.direct(c)), rule, who+what+": unexpired", posOf(in), "%s with a challenge that may be older than 5 minutes (%s)", what, c.Trace(in))
		}
		flags := func(c *Ctx, in ssa.Instruction, what string, base *Term) {
			r.Assert(same(c, "up", base), rule, who+what+": user presence", posOf(in), "%s although the user-present flag was not tested (%s)", what, c.Trace(in))
			r.Assert(same(c, "uv", base), rule, who+what+": user verification", posOf(in), "%s although the user-verified flag was not tested (%s)", what, c.Trace(in))
		}
		attested := func(c *Ctx, in ssa.Instruction, what string) {
			create.need(r, c, rule, who+what, in)
			challengeOK(c, in, what)
			ok := false
			for _, ev := range c.St.Has("rp host") {
				flags(c, in, what, ev.Args[0])
				r.Assert(hasEv(c, "at"), rule, who+what+": credential", posOf(in), "%s although the attestation may contain no credential (%s)", what, c.Trace(in))
				ok = true
			}
			r.Assert(ok, rule, who+what+": relying party", posOf(in), "%s although the relying party hash was not compared with this host (%s)", what, c.Trace(in))
			r.Assert(hasEv(c, "same user"), rule, who+what+": same user", posOf(in), "%s although the challenge may have been issued for other claims (%s)", what, c.Trace(in))
			if !h.manage {
				r.Assert(acl[0].hit(c.St) || acl[1].hit(c.St) || hasEv(c, "no acl"), rule, who+what+": acl", posOf(in), "%s although the user is not in the access list (%s)", what, c.Trace(in))
			}
		}
		asserted := func(c *Ctx, in ssa.Instruction, what string) {
			get.need(r, c, rule, who+what, in)
			challengeOK(c, in, what)
			ok := false
			for _, ev := range append(c.St.Has("ec"), c.St.Has("rsa")...) {
				if c.St.OKTrue("ec") != ev && c.St.OKNil("rsa") != ev {
					continue
				}
				// Args: credential, authenticator data, client data
				ok = true
				flags(c, in, what, ev.Args[1])
				r.Assert(same(c, "key id", ev.Args[0]), rule, who+what+": credential id", posOf(in), "%s with a credential whose ID is not the one presented (%s)", what, c.Trace(in))
				rp := false
				for _, e := range c.St.Has("rp id") {
					rp = rp || e.Args[0] == ev.Args[0] && e.Args[1] == ev.Args[1]
				}
				r.Assert(rp, rule, who+what+": relying party", posOf(in), "%s although the signed relying party hash was not compared with the credential's (%s)", what, c.Trace(in))
				r.Assert(same(c, "client data", ev.Args[2]), rule, who+what+": client data", posOf(in), "%s although the signed client data is not the one that was checked (%s)", what, c.Trace(in))
			}
			r.Assert(ok, rule, who+what+": signature", posOf(in), "%s although no signature by a registered credential was verified over the presented data (%s)", what, c.Trace(in))
		}
		r.Walk(&Rule{
			KeepRes:   true,
			Name:      rule,
			InlineAll: true,
			Cap:       4000,
			Keep:      func(t *Term) bool { return t.op == "bin" && t.s == "==" && t.mentions(formVal("get")) },
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				common.branch(c, cond, val)
				get.branch(c, cond, val)
				create.branch(c, cond, val)
				fresh.branch(c, cond, val)
				sw.branch(c, cond, val)
				nsw.branch(c, cond, val)
				for _, m := range acl {
					m.branch(c, cond, val)
				}
				if noACL.M(cond, val) {
					c.St.Event("no acl", nil, nil, nil)
				}
				ev := func(l string, args ...*Term) { c.St.Event(l, nil, args, nil) }
				if bit, base, ok := flagBit(cond); ok && !val {
					switch bit {
					case 0:
						ev("up", base)
					case 2:
						ev("uv", base)
					case 6:
						ev("at", base)
					}
				}
				if val && cond.op == "field" {
					switch cond.fv {
					case a.up:
						ev("up", cond.args[0])
					case a.uv:
						ev("uv", cond.args[0])
					case a.at:
						ev("at", cond.args[0])
					}
				}
				if !val && cond.op == "isnil" && isField(a.creds)(cond.args[0]) {
					ev("at", cond.args[0].args[0])
				}
				if cond.op == "bin" && cond.s == "<" && !val && isZeroConst(cond.args[0]) && isLen(cond.args[1]) && isField(a.userKeys)(cond.args[1].args[0]) {
					ev("no keys", cond.args[1].args[0].args[0])
				}
				if cond.op == "bin" && cond.s == "==" && val && isZeroConst(cond.args[1]) && isLen(cond.args[0]) && isField(a.userKeys)(cond.args[0].args[0]) {
					ev("no keys", cond.args[0].args[0].args[0])
				}
				x, y, eq, ok := rawEq(cond, val)
				if !ok {
					return
				}
				for i := 0; i < 2; i++ {
					sx, sy := stripConv(x), stripConv(y)
					if isClaim("passkey_hash")(sx) && hexed(sy) && hashes(c, sy, formVal("id")) && !eq {
						ev("not current", sy)
					}
					if isClaim("hhash")(sx) && hexed(sy) && hashes(c, sy, host) && eq {
						ev("session host")
					}
					if eq {
						if stored(a.keyID)(sx) {
							ev("key id", sx.args[0], sy)
						}
						for _, n := range []string{"sub", "email"} {
							if isClaim(n)(sx) && sx.mentions(stored(a.userClaims)) && isClaim(n)(sy) && fromNonNil(c, sy, "other") {
								ev("refresh "+n, nil)
							}
						}
						if base, ok := rpidOf(y, a.rpid); ok {
							if stored(a.keyRP)(sx) {
								ev("rp id", sx.args[0], base)
							}
							if hashes(c, sx, host) {
								ev("rp host", base)
							}
						}
						if isField(a.chClaims)(sx) && identity(c, sy) {
							ev("same user", nil)
						}
					}
					x, y = y, x
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if lk, ok := in.(*ssa.Lookup); ok && chal(c.V(lk.X)) {
					r.Assert(hasEv(c, "once-cs"), rule, "challenge lookup under lock", posOf(in), "a challenge is read without holding the lock")
					if sw.ok(c) {
						c.St.Event("unexpired", nil, nil, nil)
					}
				}
				if lk, ok := in.(*ssa.Lookup); ok && isField(a.nonces)(c.V(lk.X)) && nsw.ok(c) {
					c.St.Event("nonce unexpired", nil, nil, nil)
				}
				on.instr(c, in)
				non.instr(c, in)
				switch in := in.(type) {
				case *ssa.MapUpdate:
					k, v := c.V(in.Key), c.V(in.Value)
					switch {
					case chal(c.V(in.Map)):
						access(c, in, "challenge issued")
						ld := func(fv *types.Var) *Term { return c.St.Load(c.W.T.field(c.W.T.path(v), fv), fv.Type()) }
						r.Assert(hasEv(c, "once-cs"), rule, who+"challenge stored under lock", in.Pos(), "a challenge is stored without holding the lock")
						r.Assert(!isConstTerm(k) && c.St.OKNil("rand") != nil && k.mentions(func(t *Term) bool { return same(c, "rand", t) }), rule, who+"challenge is random", in.Pos(), "the challenge is not random: %v", k)
						r.Assert(ld(a.chCreated).mentions(isCallTo("time.Now")), rule, who+"challenge creation time", in.Pos(), "the challenge's creation time is not the current time: %v", ld(a.chCreated))
						cl := ld(a.chClaims)
						r.Assert(cl.op == "nil" || cl.op == "zero" || isConstTerm(cl) || identity(c, cl), rule, who+"challenge claims", in.Pos(), "the challenge is not issued for the authenticated user: %v", cl)
					case isField(a.subjects)(c.V(in.Map)):
						r.Assert(ownMail(k) && identity(c, k), rule, who+"user email", in.Pos(), "a user is registered under %v, not under the authenticated email", k)
					}
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						break
					}
					base := c.V(fa.X)
					switch fieldVar(fa.X.Type(), fa.Field) {
					case a.keyPub:
						access(c, in, "key registered")
						attested(c, in, "key registered")
						c.St.Event("creating", nil, nil, nil)
					case a.userKeys:
						if base.op == "alloc" { // a new user
							break
						}
						access(c, in, "keys changed")
						r.Assert(isLookupOf(c, base), rule, who+"keys changed: own user", in.Pos(), "the keys of another user are changed: %v (%s)", base, c.Trace(in))
						if !hasEv(c, "creating") {
							r.Assert(h.manage && hasEv(c, "not current"), rule, who+"key removed", in.Pos(), "a key is removed although it may be the one of the current session (%s)", c.Trace(in))
						} else if !h.manage {
							r.Assert(same(c, "no keys", base), rule, who+"first key only", in.Pos(), "a key is added to an existing account without authentication by one of its keys (%s)", c.Trace(in))
						}
					case a.userClaims:
						if base.op == "alloc" {
							break
						}
						asserted(c, in, "claims refreshed")
						r.Assert(identity(c, c.V(in.Val)) && hasEv(c, "refresh sub") && hasEv(c, "refresh email"), rule, who+"claims refreshed: same user", in.Pos(), "the user's claims are replaced by those of another user (%s)", c.Trace(in))
					}
				}
			},
			OnCall: func(c *CallCtx) {
				a.usedUp(r, c, on, rule, who)
				on.call(c)
				non.call(c)
				sw.call(c)
				nsw.call(c)
				commitCall(c)
				in := c.In.(ssa.Instruction)
				switch {
				case strings.HasSuffix(c.Name, ".ValidateURLToken"):
					c.Opaque = true
					c.St.Event("url token", c.Res, nil, nil)
				case strings.HasSuffix(c.Name, ".URLToken") && len(c.Args) >= 4:
					c.Opaque = true
					r.Assert(isField(a.nURL)(c.Args[3]) && c.Args[3].mentions(isLookup(isField(a.nonces))), rule, who+"return URL", in.Pos(), "the signed return URL is not the one of this login: %v", c.Args[3])
					r.Assert(non.okFor(&c.Ctx, formVal("nonce")) && (hasEv(&c.Ctx, "nonce unexpired") || nsw.direct(&c.Ctx)), rule, who+"login nonce", in.Pos(), "the return URL is signed although the login nonce may be old or reused (%s)", c.Trace(in))
				case strings.HasSuffix(c.Name, ".ValidateAuthTokenCookie"):
					if mentionsField(c.Args[0], a.ocm) {
						c.Opaque = true
						c.St.Event("other", c.Res, nil, nil)
					}
				case oneOf(c.Name, "crypto/rand.Read", "io.ReadFull"):
					c.St.Event("rand", c.Res, []*Term{stripConv(c.Args[len(c.Args)-1])}, nil)
				case c.Name == "encoding/json.Unmarshal":
					if dst := stripConv(c.Args[1]); dst.op == "alloc" && dst.typ != nil && structHasJSON(dst.typ, "challenge") {
						c.St.Event("client data", c.Res, []*Term{stripConv(c.Args[0])}, nil)
					}
				case strings.HasSuffix(c.Name, "cbor/v2.Unmarshal"):
					if src := stripConv(c.Args[0]); stored(a.keyPub)(src) {
						c.St.Event("cose", nil, []*Term{stripConv(c.Args[1]), src.args[0]}, nil)
					}
				case c.Name == "builtin.copy":
					signedPart(c, c.Args[0], c.Args[1], nil)
				case c.Name == "builtin.append" && len(c.Args) == 2:
					signedPart(c, c.Args[0], c.Args[1], c.Res)
				case strings.HasSuffix(c.Name, ").Write") && len(c.Args) == 2:
					signedPart(c, c.Args[0], c.Args[1], nil)
				case c.Name == "crypto/ecdsa.VerifyASN1" || c.Name == "crypto/rsa.VerifyPKCS1v15":
					l, digest := "ec", c.Args[1]
					if len(c.Args) == 4 {
						l, digest = "rsa", c.Args[2]
					}
					d := stripConv(digest)
					if d.op == "alloc" {
						d = c.St.Load(d, nil)
					}
					key := pkKeyOf(c)
					if key == nil || !(sha256Of(d) || isSuffixCall(".Sum")(d)) || len(d.args) == 0 {
						break
					}
					root := stripConv(d.args[0])
					for _, x := range c.St.Has("part data") {
						for _, y := range c.St.Has("part hash") {
							if x.Args[0] == root && y.Args[0] == root {
								c.St.Event(l, c.Res, []*Term{key, x.Args[1], y.Args[1]}, nil)
							}
						}
					}
				case c.Name == "(*encoding/json.Encoder).Encode":
					if hasEv(&c.Ctx, "open") {
						r.Assert(committed(&c.Ctx), rule, who+"result reported", in.Pos(), "a result is reported although the change was not saved (%s)", c.Trace(in))
					}
				case strings.HasSuffix(c.Name, ".ClearCookies"):
					access(&c.Ctx, in, "switch user")
				case strings.HasSuffix(c.Name, ".SetAuthTokenCookie"):
					c.Opaque = true
					r.Assert(!h.manage && mentionsField(c.Args[0], a.cm), rule, who+"session cookie", in.Pos(), "the session is not set by the passkey cookie manager")
					access(&c.Ctx, in, "session")
					r.Assert(committed(&c.Ctx), rule, who+"session: saved", in.Pos(), "a session is set although the change was not saved (%s)", c.Trace(in))
					args := c.Args[len(c.Args)-6:]
					claims := args[5]
					reg := hasEv(&c.Ctx, "creating")
					if reg {
						attested(&c.Ctx, in, "session")
						r.Assert(identity(&c.Ctx, claims), rule, who+"session claims", in.Pos(), "the session is not that of the authenticated user: %v", claims)
					} else {
						asserted(&c.Ctx, in, "session")
						own := false
						for _, ev := range append(c.St.Has("ec"), c.St.Has("rsa")...) {
							own = own || claims.mentions(func(t *Term) bool {
								return stored(a.userClaims)(t) && ev.Args[0].mentions(func(x *Term) bool { return x == t.args[0] })
							})
						}
						refreshed := identity(&c.Ctx, claims) && hasEv(&c.Ctx, "refresh sub") && hasEv(&c.Ctx, "refresh email")
						r.Assert(own || refreshed, rule, who+"session claims", in.Pos(), "the session is not that of the credential's owner: %v", claims)
					}
					for i, n := range []string{"sub", "email", "sid"} {
						r.Assert(isClaim(n)(args[1+i]) && args[1+i].mentions(func(t *Term) bool { return t == claims }), rule, who+"session "+n, in.Pos(), "the session's %s is not that of the claims: %v", n, args[1+i])
					}
					u := args[4]
					r.Assert(u.op == "field" && u.s == "Host" && fromOK(&c.Ctx, u, "url token"), rule, who+"session host", in.Pos(), "the session's host is not that of the signed return URL: %v", u)
				}
			},
		}, fn, nil)
	}
	r.Min(rule, 40)
}

// deepMentions looks into the local cells a term refers to.
func deepMentions(c *Ctx, t *Term, pred tp) bool {
	return t.mentions(func(x *Term) bool {
		if pred(x) {
			return true
		}
		if x.op == "alloc" {
			if v, ok := c.St.heap[x]; ok && v != nil && v != x {
				return v.mentions(pred)
			}
		}
		return false
	})
}

// hashes: the term is a SHA-256 digest of a value satisfying the predicate.
func hashes(c *Ctx, t *Term, pred tp) bool {
	return deepMentions(c, t, func(x *Term) bool {
		return (x.op == "call" || x.op == "csym") && strings.HasPrefix(x.s, "crypto/sha256.") && x.mentions(pred)
	})
}

// hexed: the term is in hexadecimal.
func hexed(t *Term) bool {
	return t.mentions(func(x *Term) bool {
		return (x.op == "call" || x.op == "csym") && (strings.HasPrefix(x.s, "encoding/hex.") || strings.HasPrefix(x.s, "fmt.Sprint") || strings.HasPrefix(x.s, "fmt.Append"))
	})
}

// signedPart records the pieces of the buffer that is signed: the
// authenticator data followed by the hash of the client data.
func signedPart(c *CallCtx, dst, src, res *Term) {
	off := dst
	root := stripConv(dst)
	s := stripConv(src)
	if s.op == "alloc" {
		s = c.St.Load(s, nil)
	}
	put := func(l string, x *Term) {
		out := root
		if res != nil {
			out = res
		}
		c.St.Event(l, nil, []*Term{out, x}, nil)
	}
	var data *Term
	for _, ev := range c.St.Has("part data") {
		if ev.Args[0] == root {
			data = ev.Args[1]
		}
	}
	switch {
	case sha256Of(s) && len(s.args) > 0:
		atEnd := off.op == "slice" && off.args[1] != nil && isLen(off.args[1])
		if res != nil || off.op != "slice" {
			atEnd = data != nil
		}
		if res != nil && data != nil {
			put("part data", data)
		}
		if atEnd {
			put("part hash", stripConv(s.args[0]))
		}
	default:
		if off.op == "slice" && off.args[1] != nil && !isZeroConst(off.args[1]) {
			return
		}
		if data == nil {
			put("part data", s)
		}
	}
}

// pkKeyOf is the credential whose stored public key is used to verify.
func pkKeyOf(c *CallCtx) *Term {
	for _, ev := range c.St.Has("cose") {
		n, bad := 0, false
		for k, v := range c.St.heap {
			if k == c.Args[0] || !underPath(k, c.Args[0]) || k.op != "field" {
				continue
			}
			switch k.s {
			case "X", "Y", "N", "E":
				n++
				if !v.mentions(func(t *Term) bool { return t == ev.Args[0] }) {
					bad = true
				}
			}
		}
		if n == 2 && !bad {
			return ev.Args[1]
		}
	}
	return nil
}

func structHasJSON(t types.Type, name string) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.HasPrefix(st.Tag(i), `json:"`+name+`"`) || strings.HasPrefix(st.Tag(i), `json:"`+name+`,`) {
			return true
		}
	}
	return false
}

// isDynField: the result of calling a function stored in the field.
func isDynField(t *Term, field string) bool {
	return t.op == "csym" && t.s == "dyn."+field
}

// usedUp: a challenge that was found is removed before the lock is released,
// whatever becomes of the ceremony.
func (a *pkAnchors) usedUp(r *Report, c *CallCtx, on *once, rule, who string) {
	if len(c.Args) == 0 || c.Name != "(*sync.Mutex).Unlock" && c.Name != "(*sync.RWMutex).Unlock" && c.Name != "(*sync.RWMutex).RUnlock" || !mentionsField(c.Args[0], on.Mu) {
		return
	}
	for _, ev := range c.St.Has(on.L + "-read") {
		key := ev.Args[0]
		if !r.P.isJSON("challenge")(key) {
			continue
		}
		absent := false
		for k, v := range c.St.facts {
			absent = absent || k.op == "lookupok" && !v && k.args[1] == key || k.op == "isnil" && v && k.args[0].op == "lookupv" && k.args[0].args[1] == key
		}
		r.Assert(absent || on.okFor(&c.Ctx, func(t *Term) bool { return t == key }), rule, who+"challenge used up", posOf(c.In.(ssa.Instruction)), "the lock is released although the challenge that was found was not removed: it can be tried again (%s)", c.Trace(c.In.(ssa.Instruction)))
	}
}
