package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkiPkg = "proxy/internal/pki"

func init() {
	register(&Check{
		ID: "C14", Title: "The PKI issues and revokes only for the right person",
		Explain: "Path-sensitive walk of the certificate management handler and the PKI manager's entry points: every path to a signature, a revocation or a success answer carries the request checks, and the certificate template's fields are derived from the authenticated user.",
		Run:     runC14,
	})
	register(&Check{
		ID: "C15", Title: "CRL and OCSP answers agree with the revocation state",
		Explain: "Loop and path analysis of the CRL builder, its cache and the OCSP responder: every revoked, unexpired certificate is listed, a cached list is served only while nothing newer was revoked and it is current, good is answered only for an issued, unrevoked certificate of this CA, and both records of a revocation change together.",
		Run:     runC15,
	})
}

type pkiAnchors struct {
	issued, revoked, ca, delCerts, delKey, key, crlNum, crls *types.Var
	revocation, serial, raw, revTime, rawCRL                 *types.Var
	admins, db                                               *types.Var
}

func pkiResolve(r *Report, rule string) *pkiAnchors {
	f := func(t, n string) *types.Var { return r.mustField(rule, pkiPkg, t, n) }
	a := &pkiAnchors{
		issued: f("certificateAuthority", "IssuedCerts"), revoked: f("certificateAuthority", "Revoked"), ca: f("certificateAuthority", "CACert"),
		delCerts: f("certificateAuthority", "DelegateCerts"), delKey: f("certificateAuthority", "DelegateKey"), key: f("certificateAuthority", "PrivateKey"),
		crlNum: f("certificateAuthority", "CRLNumber"), crls: f("certificateAuthority", "RevocationLists"),
		revocation: f("certificate", "Revocation"), serial: f("certificate", "SerialNumber"), raw: f("certificate", "Raw"), revTime: f("revocation", "Time"), rawCRL: f("revocationList", "RawCRL"),
		admins: f("Options", "Admins"), db: f("PKIManager", "db"),
	}
	for _, v := range []*types.Var{a.issued, a.revoked, a.ca, a.delCerts, a.delKey, a.key, a.crlNum, a.crls, a.revocation, a.serial, a.raw, a.revTime, a.rawCRL, a.admins, a.db} {
		if v == nil {
			return nil
		}
	}
	return a
}

// heapMentions looks into every local cell reachable from the term.
func heapMentions(c *Ctx, t *Term, pred tp) bool {
	if t == nil {
		return false
	}
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if pred(t) {
			return true
		}
		if t.op == "alloc" {
			for k, v := range c.St.heap {
				if heapRoot(k) == t && visit(v) {
					return true
				}
			}
		}
		for _, a := range t.args {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(t)
}

// listElems lists the elements of a slice built from literals and append.
func listElems(c *Ctx, t *Term) ([]*Term, bool) {
	if c.St.Nil(t) == yes {
		return nil, true
	}
	switch {
	case t.op == "zero" || t.op == "const":
		return nil, true
	case t.op == "slice" && t.args[1] == nil && t.args[2] == nil && t.args[0].op == "alloc":
		var out []*Term
		for k, v := range c.St.heap {
			if k.op == "index" && k.args[0] == t.args[0] {
				out = append(out, c.St.Load(k, k.typ))
			} else if k == t.args[0] && v.op != "zero" {
				return nil, false
			}
		}
		return out, len(out) > 0
	case (t.op == "csym" || t.op == "call") && t.s == "builtin.append" && len(t.args) == 2:
		a, ok := listElems(c, t.args[0])
		b, ok2 := listElems(c, t.args[1])
		return append(a, b...), ok && ok2
	}
	return nil, false
}

// leftmost operand of a concatenation.
func leftmost(t *Term) *Term {
	for t.op == "bin" && t.s == "+" {
		t = t.args[0]
	}
	return t
}

func isBytesToString(f *ssa.Function) bool {
	s := f.Signature
	return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && s.Params().At(0).Type().String() == "[]byte" && s.Results().At(0).Type().String() == "string"
}

// isKeyParser: turns bytes into a key.
func isKeyParser(f *ssa.Function) bool {
	s := f.Signature
	n := 0
	for i := 0; i < s.Params().Len(); i++ {
		if s.Params().At(i).Type().String() == "[]byte" {
			n++
		}
	}
	if n != 1 || s.Params().Len() != 1 || s.Results().Len() != 2 || !isErrorType(s.Results().At(1).Type()) {
		return false
	}
	_, isI := s.Results().At(0).Type().Underlying().(*types.Interface)
	return isI
}

func runC14(r *Report, p *Prog) {
	const rule = "pki-management"
	r.Rule(rule, "a certificate is signed only for an authenticated user, by POST with the CSRF header, for a public key whose request has a valid signature; its subject and email are the user's, it is no CA and no client certificate with names chosen by the user, and it is saved before it is sent; a certificate is revoked only by POST with the CSRF header, by the owner or an administrator, and success is reported only once it is saved")
	a := pkiResolve(r, rule)
	if a == nil {
		return
	}
	fn := r.mustFunc(rule, pkiPkg, "(*PKIManager).ServeCertificateManagement", func(f *ssa.Function) bool {
		return inPkg(f, pkiPkg) && isHandlerSig(f) && hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, "crypto/x509.CreateCertificate") })
	})
	if fn == nil {
		return
	}
	user := func(t *Term) bool { return t.mentions(func(x *Term) bool { return isDynField(x, "ClaimsFromCtx") }) }
	email := func(t *Term) bool {
		return t.mentions(func(x *Term) bool { return isClaim("email")(x) && user(x) })
	}
	common := gates{
		nilG("user", "the user is authenticated", func(t *Term) bool { return isDynField(t, "ClaimsFromCtx") }, false),
		httpMethodIs(p, "POST"),
		eqG("csrf", "the CSRF header is present", reqHeader("X-Csrf-Check"), isStr("1"), true),
	}
	emails := p.extField("crypto/x509", "Certificate", "EmailAddresses")
	isAdmin := &member{L: "admin", IsList: anyField(a.admins), IsElem: func(t *Term) bool { return isClaim("email")(t) && user(t) }}
	xf := func(n string) *types.Var { return p.extField("crypto/x509", "Certificate", n) }
	names := p.extField("crypto/x509/pkix", "Name", "CommonName")
	certT := xf("Raw")
	if emails == nil || names == nil || certT == nil || xf("IsCA") == nil {
		r.Missing(rule, "x509.Certificate")
		return
	}
	issues, revokes := 0, 0
	r.Walk(&Rule{
		KeepRes:   true,
		Name:      rule,
		InlineAll: true,
		Cap:       4000,
		Keep:      func(t *Term) bool { return t.op == "bin" && t.s == "==" && t.mentions(formVal("get")) },
		NoInline:  func(f *ssa.Function) bool { return isBytesToString(f) || isKeyParser(f) },
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			common.branch(c, cond, val)
			isAdmin.branch(c, cond, val)
			// the user's email is among those of a certificate
			if val && cond.op == "call" && strings.HasPrefix(cond.s, "slices.Contains") && len(cond.args) == 2 && isField(emails)(cond.args[0]) && email(cond.args[1]) {
				c.St.Event("owner", nil, []*Term{cond.args[0].args[0]}, nil)
			}
			if x, y, eq, ok := sameEq(cond, val); ok && eq {
				for i := 0; i < 2; i++ {
					if isField(a.serial)(x) {
						c.St.Event("serial", nil, []*Term{x.args[0], y}, nil)
					}
					if x.op == "index" && isField(emails)(x.args[0]) && email(y) {
						c.St.Event("owner", nil, []*Term{x.args[0].args[0]}, nil)
					}
					x, y = y, x
				}
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			switch fieldVar(fa.X.Type(), fa.Field) {
			case a.revocation:
				base := c.V(fa.X)
				if base.op == "alloc" || isNilConst(st.Val) {
					r.Assert(base.op == "alloc", rule, "revocation undone", in.Pos(), "a revocation is undone")
					break
				}
				revokes++
				common.need(r, c, rule, "certificate revoked", in)
				ok := false
				for _, s := range c.St.Has("serial") {
					if s.Args[0] != base {
						continue
					}
					if isAdmin.hit(c.St) {
						ok = true
					}
					for _, o := range c.St.Has("owner") {
						ok = ok || s.Args[1].mentions(func(x *Term) bool { return x == o.Args[0] })
					}
				}
				r.Assert(ok, rule, "certificate revoked: owner or administrator", in.Pos(), "a certificate is revoked although the user is neither its owner nor an administrator (%s)", c.Trace(in))
				c.St.Event("changed", nil, nil, nil)
			case a.issued:
				v := c.V(st.Val)
				for _, ev := range c.St.Has("issued") {
					if heapMentions(c, v, func(x *Term) bool { return x == ev.Res }) && heapMentions(c, v, func(x *Term) bool { return x == ev.Args[0] }) {
						c.St.Event("recorded", nil, nil, nil)
					}
				}
			}
		},
		OnCall: func(c *CallCtx) {
			commitCall(c)
			in := c.In.(ssa.Instruction)
			switch {
			case c.Name == "crypto/x509.ParseCertificateRequest":
				c.St.Event("csr", c.Res, nil, nil)
			case c.Name == "(*crypto/x509.CertificateRequest).CheckSignature":
				c.St.Event("signed", c.Res, c.Args, nil)
			case c.Name == "crypto/rand.Int":
				c.St.Event("rand", c.Res, nil, nil)
			case c.Name == "crypto/x509.CreateCertificate":
				issues++
				common.need(r, &c.Ctx, rule, "certificate issued", in)
				tmpl := c.W.T.path(c.Args[1])
				ld := func(n string) *Term { fv := xf(n); return c.St.Load(c.W.T.field(tmpl, fv), fv.Type()) }
				what := "issued certificate's "
				csr := func(t *Term) bool {
					for _, ev := range c.St.Has("csr") {
						if heapMentions(&c.Ctx, t, func(x *Term) bool { return x == ev.Res }) {
							return true
						}
					}
					return false
				}
				sig := false
				for _, s := range c.St.Has("signed") {
					sig = sig || okResult(&c.Ctx, s) && (ld("PublicKey").mentions(func(x *Term) bool { return x == s.Args[0] }) && c.Args[3].mentions(func(x *Term) bool { return x == s.Args[0] }))
				}
				r.Assert(sig, rule, what+"key: proof of possession", in.Pos(), "the certificate's public key is not one whose request was checked to be signed with it: %v (%s)", c.Args[3], c.Trace(in))
				r.Assert(mentionsField(c.Args[2], a.ca) && mentionsField(c.Args[4], a.key), rule, what+"issuer", in.Pos(), "the certificate is not signed with the CA's certificate and key: %v, %v", c.Args[2], c.Args[4])
				cn := c.St.Load(c.W.T.field(c.W.T.field(tmpl, xf("Subject")), names), names.Type())
				r.Assert(isClaim("email")(leftmost(unwrap(cn))) && user(cn), rule, what+"subject", in.Pos(), "the subject does not start with the user's email: %v", cn)
				em, ok := listElems(&c.Ctx, ld("EmailAddresses"))
				for _, e := range em {
					ok = ok && isClaim("email")(e) && user(e)
				}
				r.Assert(ok && len(em) > 0, rule, what+"email addresses", in.Pos(), "the certificate's email addresses are not the user's: %v", em)
				ct := certT.Pkg().Scope().Lookup("Certificate").Type().Underlying().(*types.Struct)
				for i := 0; i < ct.NumFields(); i++ {
					f := ct.Field(i)
					if oneOf(f.Name(), "PublicKey", "PublicKeyAlgorithm", "Version", "DNSNames", "Subject") {
						continue
					}
					v := c.St.Load(c.W.T.field(tmpl, f), f.Type())
					r.Assert(!csr(v), rule, what+f.Name()+": not from the request", in.Pos(), "the certificate's %s is chosen by the user: %v", f.Name(), v)
				}
				nt := names.Pkg().Scope().Lookup("Name").Type().Underlying().(*types.Struct)
				for i := 0; i < nt.NumFields(); i++ {
					f := nt.Field(i)
					if f == names {
						continue
					}
					v := c.St.Load(c.W.T.field(c.W.T.field(tmpl, xf("Subject")), f), f.Type())
					r.Assert(!csr(v), rule, what+"subject "+f.Name(), in.Pos(), "the subject's %s is chosen by the user: %v", f.Name(), v)
				}
				r.Assert(c.St.Bool(ld("IsCA")) == no, rule, what+"CA flag", in.Pos(), "the certificate may be a CA: %v", ld("IsCA"))
				r.Assert(c.St.Bool(ld("BasicConstraintsValid")) == yes, rule, what+"basic constraints", in.Pos(), "the certificate does not say that it is not a CA")
				ku, isC := constInt(ld("KeyUsage"))
				r.Assert(isC && ku&(1<<5|1<<6) == 0, rule, what+"key usage", in.Pos(), "the certificate's key may sign certificates or CRLs: %v", ld("KeyUsage"))
				sn := ld("SerialNumber")
				r.Assert(randomOK(&c.Ctx, sn, "rand"), rule, what+"serial number", in.Pos(), "the serial number is not random: %v", sn)
				// a client certificate has no names other than the user's
				eku, ok := listElems(&c.Ctx, ld("ExtKeyUsage"))
				r.Assert(ok && len(eku) > 0, rule, what+"extended key usage", in.Pos(), "the certificate's extended key usage is not restricted: %v", ld("ExtKeyUsage"))
				for _, e := range eku {
					k, isC := constInt(e)
					r.Assert(isC && (k == 1 || k == 2), rule, what+"extended key usage: kind", in.Pos(), "the certificate's extended key usage is %v", e)
					if k == 2 { // client authentication
						for _, n := range []string{"DNSNames", "IPAddresses", "URIs"} {
							v := ld(n)
							l := c.W.T.mk(&Term{op: "call", s: "builtin.len", args: []*Term{v}})
							empty := c.St.Nil(v) == yes || v.op == "zero" || c.St.Bool(c.W.T.lt(c.W.T.int(0), l)) == no || c.St.Bool(c.W.T.eq(c.W.T.int(0), l)) == yes
							r.Assert(empty, rule, what+"client authentication with "+n, in.Pos(), "a client certificate has %s chosen by the user: %v (%s)", n, v, c.Trace(in))
						}
					}
				}
				c.St.Event("issued", c.Res, []*Term{sn}, nil)
				c.St.Event("changed", nil, nil, nil)
			case oneOf(c.Name, "(*encoding/json.Encoder).Encode", "encoding/pem.Encode") || responseSink(c.Name):
				if hasEv(&c.Ctx, "changed") {
					r.Assert(committed(&c.Ctx), rule, "success reported", in.Pos(), "success is reported although the change was not saved (%s)", c.Trace(in))
				}
				if hasEv(&c.Ctx, "issued") {
					r.Assert(hasEv(&c.Ctx, "recorded"), rule, "issued certificate recorded", in.Pos(), "a certificate is sent although it is not in the list of issued certificates, so that it could not be revoked (%s)", c.Trace(in))
				}
			}
		},
	}, fn, nil)
	r.AssertAt(issues > 0, rule, "certificates are issued", "-", "no path issues a certificate")
	r.AssertAt(revokes > 0, rule, "certificates are revoked", "-", "no path revokes a certificate")

	// Nothing else signs certificates with a user's request or revokes.
	for _, f := range p.Funcs {
		if isExample(f) || !inPkg(f, pkiPkg) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) != a.revocation {
				return
			}
			if _, isNew := fa.X.(*ssa.Alloc); isNew {
				return
			}
			r.Assert(!isNilConst(st.Val), rule, "revocation undone in "+fnLabel(f), in.Pos(), "a revocation is undone")
		})
	}
	r.Min(rule, 30)
}

// forall follows a loop (or slices.ContainsFunc) over a whole list: every
// element must be disposed of before the next one is taken.
type forall struct {
	L      string
	IsList tp
}

func (f *forall) branch(c *Ctx, cond *Term, val bool) {
	if !(cond.op == "bin" && cond.s == "<" && isLen(cond.args[1]) && f.IsList(cond.args[1].args[0])) {
		return
	}
	i := cond.args[0]
	cur := fmt.Sprintf("%s-cur:%d", f.L, i.id)
	if hasEv(c, cur) {
		c.St.Event(f.L+"-bad", nil, []*Term{i}, nil)
	}
	if val {
		c.St.Event(cur, nil, nil, nil)
	} else if fromStart(i) {
		c.St.Event(f.L+"-done", nil, []*Term{i, cond.args[1].args[0]}, nil)
	}
}

// dispose: nothing more is needed for the element that the term mentions.
func (f *forall) dispose(c *Ctx, t *Term) {
	t.mentions(func(x *Term) bool {
		if x.op == "index" && f.IsList(x.args[0]) {
			c.St.Kill(fmt.Sprintf("%s-cur:%d", f.L, x.args[1].id))
		}
		return false
	})
}

// reset forgets a pass over the list.
func (f *forall) reset(c *Ctx) {
	for k, e := range c.St.ev {
		if e.Label == f.L+"-done" || e.Label == f.L+"-bad" || strings.HasPrefix(e.Label, f.L+"-cur:") {
			delete(c.St.ev, k)
		}
	}
}

func (f *forall) ok(c *Ctx) bool { return f.okFor(c, anyTerm) }

// okFor: every element of a list that satisfies the predicate was disposed of.
func (f *forall) okFor(c *Ctx, list tp) bool {
	for _, d := range c.St.Has(f.L + "-done") {
		if !list(d.Args[1]) {
			continue
		}
		ok := !hasEv(c, fmt.Sprintf("%s-cur:%d", f.L, d.Args[0].id))
		for _, b := range c.St.Has(f.L + "-bad") {
			ok = ok && b.Args[0] != d.Args[0]
		}
		if ok {
			return true
		}
	}
	return false
}

// isNow: the current time, in any zone.
func isNow(t *Term) bool {
	for (t.op == "csym" || t.op == "call") && oneOf(t.s, "(time.Time).UTC", "(time.Time).Local", "(time.Time).In") {
		t = t.args[0]
	}
	return (t.op == "csym" || t.op == "call") && t.s == "time.Now"
}

// timePlus reads base.Add(constant) chains.
func timePlus(t *Term) (base *Term, d int64, ok bool) {
	for (t.op == "csym" || t.op == "call") && t.s == "(time.Time).Add" {
		k, isC := constInt(t.args[1])
		if !isC {
			return nil, 0, false
		}
		d += k
		t = t.args[0]
	}
	return t, d, true
}

// encoding renders how a value is computed from a *big.Int.
func encoding(t *Term) (string, *Term) {
	var leaf *Term
	n := 0
	var render func(t *Term) string
	render = func(t *Term) string {
		if t == nil {
			return "-"
		}
		if t.typ != nil && strings.HasSuffix(t.typ.String(), "math/big.Int") {
			leaf = t
			n++
			return "X"
		}
		s := t.op + ":" + t.s
		if t.op == "const" {
			return s + t.String()
		}
		for i, a := range t.args {
			if strings.HasPrefix(t.s, "(*"+modPath) && i == 0 {
				continue // the receiver
			}
			s += "(" + render(a) + ")"
		}
		return s
	}
	s := render(t)
	if n != 1 {
		return "", nil
	}
	return s, leaf
}

func runC15(r *Report, p *Prog) {
	const crl, ocspR, rec = "crl", "ocsp-response", "revocation-records"
	r.Rule(crl, "a new revocation list names every revoked certificate that has not expired, has a new number, is signed with the delegate key, expires in the future, and is saved before it is returned; an earlier list is returned only while it is current and lists every certificate revoked since")
	r.Rule(ocspR, "the status good is answered only for this CA's name and key and a certificate that is among those issued and is not revoked; a revoked certificate is answered as revoked; the answer is for the serial number that was asked")
	r.Rule(rec, "the list used to accept connections and the list of issued certificates record a revocation together, under the same encoding of the serial number, and no revocation is removed")
	a := pkiResolve(r, crl)
	if a == nil {
		return
	}
	x := func(t, n string) *types.Var { return p.extField("crypto/x509", t, n) }
	entries, this, next, number := x("RevocationList", "RevokedCertificateEntries"), x("RevocationList", "ThisUpdate"), x("RevocationList", "NextUpdate"), x("RevocationList", "Number")
	entrySerial := x("RevocationListEntry", "SerialNumber")
	notAfter := x("Certificate", "NotAfter")
	for _, v := range []*types.Var{entries, this, next, number, entrySerial, notAfter} {
		if v == nil {
			r.Missing(crl, "x509.RevocationList")
			return
		}
	}
	encs := map[string]string{} // encoding of a serial number -> where
	addEnc := func(rule, what string, in ssa.Instruction, t *Term) {
		e, leaf := encoding(t)
		r.Assert(leaf != nil, rule, what+": serial number encoding", posOf(in), "the key is not computed from a serial number alone: %v", t)
		if leaf != nil && encs[e] == "" {
			encs[e] = what
		}
	}
	noInline := func(f *ssa.Function) bool { return isBytesToString(f) || isKeyParser(f) }
	elem := func(t *Term) bool {
		return t.mentions(func(x *Term) bool { return x.op == "index" && isField(a.issued)(x.args[0]) })
	}
	signers := func(rule, what string, c *CallCtx, cert, key *Term) {
		ok := mentionsField(cert, a.delCerts) && mentionsField(key, a.delKey) || mentionsField(cert, a.ca) && mentionsField(key, a.key)
		r.Assert(ok, rule, what, c.In.Pos(), "not signed with the delegate's key and certificate: %v, %v", cert, key)
	}

	// --- revocation list
	fn := r.mustFunc(crl, pkiPkg, "(*PKIManager).RevocationList", func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool { return isCall(in, "crypto/x509.CreateRevocationList") })
	})
	if fn == nil {
		return
	}
	crlNoInline := func(f *ssa.Function) bool {
		return noInline(f) || hasDeepCalls(p, f, func(in ssa.Instruction) bool { return isCall(in, "crypto/x509.CreateCertificate") })
	}
	listed := &forall{L: "listed", IsList: isField(a.issued)}
	known := &forall{L: "known", IsList: isField(a.issued)}
	creates, cached := 0, 0
	r.Walk(&Rule{
		KeepRes: true,
		Name:    crl, InlineAll: true, Cap: 4000, NoInline: crlNoInline,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			listed.branch(c, cond, val)
			known.branch(c, cond, val)
			if cond.op == "isnil" && val && isField(a.revocation)(cond.args[0]) && elem(cond.args[0]) {
				listed.dispose(c, cond)
				known.dispose(c, cond)
			}
			if cond.s == "time.lt" && len(cond.args) == 2 {
				u, v := cond.args[0], cond.args[1]
				b, d, ok := timePlus(u)
				if val && ok && d >= 0 && isField(notAfter)(b) && elem(b) && isNow(v) {
					listed.dispose(c, cond)
				}
				// revoked before the list was made
				if val && isField(a.revTime)(u) && elem(u) && isField(this)(v) {
					known.dispose(c, cond)
				}
				// the list is current
				b, d, ok = timePlus(v)
				if val && isNow(u) && ok && d <= 0 && isField(next)(b) {
					c.St.Event("current", nil, nil, nil)
				}
				b, d, ok = timePlus(u)
				if !val && isNow(v) && ok && d <= 0 && isField(next)(b) {
					c.St.Event("current", nil, nil, nil)
				}
			}
			if oneOf(cond.op, "lookup", "lookupv", "lookupok") && val && elem(cond.args[1]) && cond.args[1].mentions(isField(a.serial)) {
				bad := false
				for _, ev := range c.St.Has("map-bad") {
					bad = bad || ev.Args[0] == cond.args[0]
				}
				if !bad && !cond.args[0].mentions(func(t *Term) bool { return t.op == "param" }) {
					known.dispose(c, cond)
				}
			}
			if u, v, eq, ok := sameEq(cond, val); ok && eq {
				if elem(u) && mentionsField(v, entries) || elem(v) && mentionsField(u, entries) {
					known.dispose(c, cond)
				}
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				k := c.V(x.Key)
				if !mentionsField(k, entries) || c.St.Bool(c.V(x.Value)) == no {
					c.St.Event("map-bad", nil, []*Term{c.V(x.Map)}, nil)
				} else {
					addEnc(rec, "serial numbers of the list", in, k)
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == a.crlNum {
					v := c.V(x.Val)
					if v.op == "bin" && v.s == "+" && mentionsField(v, a.crlNum) && (isPositive(v.args[0]) || isPositive(v.args[1])) {
						c.St.Event("numbered", nil, []*Term{v}, nil)
					}
				}
			}
		},
		OnCall: func(c *CallCtx) {
			commitCall(c)
			in := c.In.(ssa.Instruction)
			switch {
			case c.Name == "builtin.append" && len(c.Args) == 2:
				if v, ok := c.In.(ssa.Value); ok && strings.HasSuffix(v.Type().String(), "[]crypto/x509.RevocationListEntry") {
					es, ok := listElems(&c.Ctx, c.Args[1])
					for _, e := range es {
						sn := c.St.Load(c.W.T.field(e, entrySerial), entrySerial.Type())
						if ok && elem(sn) {
							c.St.Event("appended", nil, nil, nil)
							listed.dispose(&c.Ctx, sn)
						}
					}
				}
			case c.Name == "crypto/x509.CreateRevocationList":
				creates++
				tmpl := c.W.T.path(c.Args[1])
				ld := func(f *types.Var) *Term { return c.St.Load(c.W.T.field(tmpl, f), f.Type()) }
				r.Assert(listed.ok(&c.Ctx), crl, "every revoked certificate is listed", in.Pos(), "a revocation list is made although a revoked certificate that has not expired may be missing from it (%s)", c.Trace(in))
				if hasEv(&c.Ctx, "appended") {
					e := ld(entries)
					r.Assert(c.St.Nil(e) != yes && e.op != "zero", crl, "the entries are in the list", in.Pos(), "the entries are not put in the list")
				}
				num := ld(number)
				ok := false
				for _, ev := range c.St.Has("numbered") {
					ok = ok || num.mentions(func(t *Term) bool { return t == ev.Args[0] || isField(a.crlNum)(t) })
				}
				r.Assert(ok, crl, "the list has a new number", in.Pos(), "the list's number is not a new one: %v", num)
				signers(crl, "the list's signer", c, c.Args[2], c.Args[3])
				r.Assert(isNow(ld(this)), crl, "the list's ThisUpdate", in.Pos(), "ThisUpdate is not the current time: %v", ld(this))
				b, d, ok := timePlus(ld(next))
				r.Assert(ok && d > 0 && isNow(b), crl, "the list's NextUpdate", in.Pos(), "NextUpdate is not in the future: %v", ld(next))
				c.St.Event("created", c.Res, nil, nil)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != fn || len(rets) < 2 || c.St.Nil(rets[len(rets)-1]) == no {
				return
			}
			for _, t := range rets[:len(rets)-1] {
				if len(c.St.Has("created")) > 0 && t.mentions(func(x *Term) bool { return x == c.St.Has("created")[0].Res }) {
					r.Assert(committed(c), crl, "the new list is saved", posOf(in), "a new revocation list is returned although it was not saved, so that its number may be used again")
					continue
				}
				if t.mentions(func(x *Term) bool {
					return isField(a.crls)(x) || isField(a.rawCRL)(x) || isCallTo("crypto/x509.ParseRevocationList")(x)
				}) && !hasEv(c, "created") {
					cached++
					r.Assert(hasEv(c, "current"), crl, "an earlier list is current", posOf(in), "an earlier revocation list is returned although it was not established that it has not expired (%s)", c.Trace(in))
					r.Assert(known.ok(c), crl, "an earlier list is complete", posOf(in), "an earlier revocation list is returned although a certificate may have been revoked since (%s)", c.Trace(in))
				}
			}
		},
	}, fn, nil)
	r.AssertAt(creates > 0, crl, "revocation lists are made", "-", "no path makes a revocation list")
	r.AssertAt(cached > 0, crl, "revocation lists are reused", "-", "no path returns a saved revocation list")
	// what is appended ends up in the list
	for f := range p.reachable(fn) {
		instrs(f, func(in ssa.Instruction) {
			v, ok := in.(*ssa.Call)
			if !ok || calleeName(v) != "builtin.append" || !strings.HasSuffix(v.Type().String(), "[]crypto/x509.RevocationListEntry") {
				return
			}
			r.Assert(p.flowsToField(v, entries), crl, "appended entries are kept", in.Pos(), "the entry is appended to a list that is not the revocation list's")
		})
	}
	r.Min(crl, 8)

	// --- OCSP
	resp := func(n string) *types.Var { return p.extField("golang.org/x/crypto/ocsp", "Response", n) }
	rq := func(n string) *types.Var { return p.extField("golang.org/x/crypto/ocsp", "Request", n) }
	if resp("Status") == nil || rq("IssuerNameHash") == nil {
		r.Missing(ocspR, "ocsp.Response")
		return
	}
	fn = r.mustFunc(ocspR, pkiPkg, "(*PKIManager).OCSPResponse", func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool { return isCall(in, "golang.org/x/crypto/ocsp.CreateResponse") })
	})
	if fn == nil {
		return
	}
	// hashed: the value is the digest of exactly what satisfies the predicate
	hashed := func(c *Ctx, t *Term, what tp) bool {
		for _, ev := range c.St.Has("sum") {
			if len(ev.Args) == 1 && stripConv(t).mentions(func(x *Term) bool { return x == ev.Res }) {
				return what(ev.Args[0])
			}
		}
		return false
	}
	caPart := func(names ...string) tp {
		return func(t *Term) bool {
			return mentionsField(t, a.ca) && t.mentions(func(x *Term) bool { return x.op == "field" && x.fv != nil && oneOf(x.fv.Name(), names...) })
		}
	}
	hashEq := func(l string, field *types.Var, what tp) func(c *Ctx, cond *Term, val bool) {
		return func(c *Ctx, cond *Term, val bool) {
			u, v, eq, ok := sameEq(cond, val)
			if !ok {
				return
			}
			if mentionsField(v, field) {
				u, v = v, u
			}
			if mentionsField(u, field) && hashed(c, v, what) {
				c.St.Kill(l)
				if eq {
					c.St.Event(l, nil, nil, nil)
				}
			}
		}
	}
	nameEq := hashEq("name", rq("IssuerNameHash"), caPart("RawSubject"))
	keyEq := hashEq("key", rq("IssuerKeyHash"), caPart("RawSubjectPublicKeyInfo", "PublicKey"))
	good, revoked := 0, 0
	r.Walk(&Rule{
		KeepRes: true,
		Name:    ocspR, InlineAll: true, Cap: 4000, NoInline: crlNoInline,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			nameEq(c, cond, val)
			keyEq(c, cond, val)
			if u, v, eq, ok := sameEq(cond, val); ok {
				if isField(a.serial)(v) {
					u, v = v, u
				}
				if isField(a.serial)(u) && elem(u) && mentionsField(v, rq("SerialNumber")) {
					c.St.Kill("found")
					if eq {
						addEncAt(addEnc, ocspR, "OCSP lookup", c, v)
						c.St.Event("found", nil, []*Term{u.args[0]}, nil)
					}
				}
			}
			if cond.op == "isnil" && isField(a.revocation)(cond.args[0]) {
				l := "is-revoked"
				if val {
					l = "not-revoked"
				}
				c.St.Event(l, nil, []*Term{cond.args[0].args[0]}, nil)
			}
		},
		OnCall: func(c *CallCtx) {
			in := c.In.(ssa.Instruction)
			isHash := len(c.Args) > 0 && c.In.Common().IsInvoke() && strings.HasSuffix(c.In.Common().Value.Type().String(), "hash.Hash")
			switch {
			case isHash && c.In.Common().Method.Name() == "Write":
				for _, ev := range c.St.Has("written") {
					if ev.Args[0] == c.Args[0] {
						c.St.Kill("written")
						c.St.Event("written", nil, []*Term{c.Args[0], c.W.T.mk(&Term{op: "tuple", args: []*Term{ev.Args[1], c.Args[1]}})}, nil)
						return
					}
				}
				c.St.Event("written", nil, c.Args[:2], nil)
			case isHash && c.In.Common().Method.Name() == "Reset":
				c.St.Kill("written")
			case isHash && c.In.Common().Method.Name() == "Sum":
				for _, ev := range c.St.Has("written") {
					if ev.Args[0] == c.Args[0] && ev.Args[1].op != "tuple" {
						c.St.Event("sum", c.Res, []*Term{ev.Args[1]}, nil)
					}
				}
			case c.Name == "golang.org/x/crypto/ocsp.CreateResponse":
				ld := func(n string) *Term { f := resp(n); return c.St.Load(c.W.T.field(c.Args[2], f), f.Type()) }
				st, isC := constInt(ld("Status"))
				if ld("Status").op == "zero" {
					isC = true
				}
				var same, isRev bool
				for _, f := range c.St.Has("found") {
					for _, u := range c.St.Has("not-revoked") {
						same = same || u.Args[0] == f.Args[0]
					}
					for _, u := range c.St.Has("is-revoked") {
						isRev = isRev || u.Args[0] == f.Args[0]
					}
				}
				ours := hasEv(&c.Ctx, "name") && hasEv(&c.Ctx, "key")
				switch {
				case isC && st == 1: // revoked
					revoked++
				case isC && st == 2: // unknown
					r.Assert(!ours || !isRev, ocspR, "a revoked certificate is revoked", in.Pos(), "a revoked certificate is answered with unknown")
				default:
					good++
					r.Assert(hasEv(&c.Ctx, "name"), ocspR, "good: this CA's name", in.Pos(), "the status may be good (%v) although the request's issuer name hash was not found to be this CA's (%s)", ld("Status"), c.Trace(in))
					r.Assert(hasEv(&c.Ctx, "key"), ocspR, "good: this CA's key", in.Pos(), "the status may be good (%v) although the request's issuer key hash was not found to be this CA's (%s)", ld("Status"), c.Trace(in))
					r.Assert(hasEv(&c.Ctx, "found"), ocspR, "good: issued", in.Pos(), "the status may be good (%v) for a certificate that was not issued (%s)", ld("Status"), c.Trace(in))
					r.Assert(same && !isRev, ocspR, "good: not revoked", in.Pos(), "the status may be good (%v) for a certificate that was not found to be unrevoked (%s)", ld("Status"), c.Trace(in))
				}
				r.Assert(isField(rq("SerialNumber"))(ld("SerialNumber")), ocspR, "the answer's serial number", in.Pos(), "the answer is not for the serial number that was asked: %v", ld("SerialNumber"))
				r.Assert(isNow(ld("ThisUpdate")), ocspR, "the answer's ThisUpdate", in.Pos(), "ThisUpdate is not the current time: %v", ld("ThisUpdate"))
				b, d, ok := timePlus(ld("NextUpdate"))
				r.Assert(ok && d > 0 && isNow(b), ocspR, "the answer's NextUpdate", in.Pos(), "NextUpdate is not in the future: %v", ld("NextUpdate"))
				signers(ocspR, "the answer's signer", c, c.Args[1], c.Args[3])
			}
		},
	}, fn, nil)
	r.AssertAt(good > 0, ocspR, "good is answered", "-", "no path answers good")
	r.AssertAt(revoked > 0, ocspR, "revoked is answered", "-", "no path answers revoked")
	r.Min(ocspR, 8)

	// --- records of revocation
	isRev := r.mustFunc(rec, pkiPkg, "(*PKIManager).IsRevoked", nil)
	rev := r.mustFunc(rec, pkiPkg, "(*PKIManager).RevokeCertificate", nil)
	sign := r.mustFunc(rec, pkiPkg, "(*PKIManager).IssueCertificate", func(f *ssa.Function) bool { return false })
	if isRev == nil || rev == nil || sign == nil {
		return
	}
	isLookupRevoked := func(t *Term) bool {
		return oneOf(t.op, "lookup", "lookupv", "lookupok") && isField(a.revoked)(t.args[0])
	}
	answers := 0
	r.Walk(&Rule{
		KeepRes: true,
		Name:    rec, InlineAll: true, NoInline: noInline,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			if isLookupRevoked(cond) {
				l := "clear"
				if val {
					l = "hit"
				}
				c.St.Event(l, nil, nil, nil)
			}
			if cond.op == "isnil" && val && isField(a.db)(cond.args[0]) {
				c.St.Event("nodb", nil, nil, nil)
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			if lk, ok := in.(*ssa.Lookup); ok && isField(a.revoked)(c.V(lk.X)) {
				addEnc(rec, "IsRevoked's lookup", in, c.V(lk.Index))
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != isRev || len(rets) != 1 {
				return
			}
			answers++
			if isLookupRevoked(rets[0]) {
				r.Assert(true, rec, "IsRevoked's answer", posOf(in), "")
				return
			}
			v := c.St.Bool(rets[0])
			r.Assert(v == yes || v == no && (hasEv(c, "clear") || hasEv(c, "nodb")), rec, "IsRevoked's answer", posOf(in), "IsRevoked says %v without having looked the serial number up", rets[0])
		},
	}, isRev, nil)
	r.AssertAt(answers > 0, rec, "IsRevoked answers", "-", "IsRevoked has no answer")
	revs := 0
	r.Walk(&Rule{
		KeepRes: true,
		Name:    rec, InlineAll: true, NoInline: noInline,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			if u, v, eq, ok := sameEq(cond, val); ok && eq {
				if isField(a.serial)(v) {
					u, v = v, u
				}
				if isField(a.serial)(u) {
					addEncAt(addEnc, rec, "RevokeCertificate's lookup", c, v)
					c.St.Event("serial", nil, []*Term{u.args[0], v}, nil)
				}
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !isField(a.revoked)(c.V(x.Map)) && !(c.V(x.Map).op != "field" && strings.HasSuffix(x.Map.Type().String(), "map[string]bool")) {
					return
				}
				k := c.V(x.Key)
				addEnc(rec, "RevokeCertificate's record", in, k)
				r.Assert(c.St.Bool(c.V(x.Value)) == yes, rec, "the record says revoked", in.Pos(), "the record of revoked certificates is set to %v", c.V(x.Value))
				ok := false
				for _, s := range c.St.Has("serial") {
					ok = ok || s.Args[1] == k || isField(a.serial)(k) && k.args[0] == s.Args[0]
				}
				r.Assert(ok, rec, "the record is for the certificate found", in.Pos(), "the serial number recorded is not that of the certificate: %v", k)
				c.St.Event("map", nil, nil, nil)
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == a.revocation && c.V(fa.X).op != "alloc" {
					ok := false
					for _, s := range c.St.Has("serial") {
						ok = ok || s.Args[0] == c.V(fa.X)
					}
					r.Assert(ok, rec, "the certificate revoked is the one found", in.Pos(), "the certificate revoked is not the one with the serial number")
					c.St.Event("list", nil, nil, nil)
				}
			}
		},
		OnCall: func(c *CallCtx) {
			commitCall(c)
			if c.CT != nil && c.CT.op == "extract" && len(c.Args) > 0 && c.St.Bool(c.Args[0]) == yes && hasEv(&c.Ctx, "commit") {
				revs++
				r.Assert(hasEv(&c.Ctx, "map") == hasEv(&c.Ctx, "list"), rec, "both records change together", c.In.Pos(), "only one of the two records of a revocation is saved (%s)", c.Trace(c.In.(ssa.Instruction)))
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != rev || len(rets) != 1 || c.St.Nil(rets[0]) == no {
				return
			}
			r.Assert(hasEv(c, "map") && hasEv(c, "list") && hasEv(c, "commit"), rec, "success means revoked", posOf(in), "RevokeCertificate reports success although the certificate was not revoked (%s)", c.Trace(in))
		},
	}, rev, nil)
	r.AssertAt(revs > 0, rec, "revocations are saved", "-", "no path saves a revocation")
	// the serial number of an issued certificate
	issued := 0
	r.Walk(&Rule{
		KeepRes: true,
		Name:    rec, InlineAll: true, NoInline: noInline,
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == a.serial {
					issued++
					addEnc(rec, "issued certificate's serial number", in, c.V(st.Val))
				}
			}
		},
	}, sign, nil)
	r.AssertAt(issued > 0, rec, "issued certificates have a serial number", "-", "no serial number is recorded")
	if len(encs) > 1 {
		var s []string
		for e, w := range encs {
			s = append(s, w+" uses "+e)
		}
		sort.Strings(s)
		r.AssertAt(false, rec, "one encoding of serial numbers", "-", "serial numbers are encoded differently: %s", strings.Join(s, "; "))
	} else {
		r.AssertAt(true, rec, "one encoding of serial numbers", "-", "")
	}
	for _, f := range p.Funcs {
		if isExample(f) || !inPkg(f, pkiPkg) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !oneOf(calleeName(ci), "builtin.delete", "builtin.clear") {
				return
			}
			o := p.Origins(ci.Common().Args[0], FlowOpts{NoCallers: true})
			r.Assert(!o.Fields[a.revoked], rec, "revocation removed in "+fnLabel(f), in.Pos(), "a revocation is removed from the record used to accept connections")
		})
	}
	r.Min(rec, 8)
}

func isPositive(t *Term) bool { k, ok := constInt(t); return ok && k > 0 }

func addEncAt(add func(string, string, ssa.Instruction, *Term), rule, what string, c *Ctx, t *Term) {
	add(rule, what, nil, t)
}

// flowsToField: the value, possibly after more was appended, is stored in the
// field or returned.
func (p *Prog) flowsToField(v ssa.Value, fv *types.Var) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Phi:
				if visit(x) {
					return true
				}
			case *ssa.Call:
				if calleeName(x) == "builtin.append" && x.Call.Args[0] == v && visit(x) {
					return true
				}
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
					return true
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && visit(u) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(v)
}
