package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ocspPkg = "proxy/internal/ocspcache"

func init() {
	register(&Check{
		ID: "C27", Title: "Only fresh, matching, authentic OCSP answers count",
		Explain: "Path-sensitive walk of the OCSP cache: every response that is cached, returned or found good was parsed for the certificate in question, verified with its issuer, is current, and is stored and looked up under the hash of that certificate; the decision on a set of chains is checked as an exists-forall statement.",
		Run:     runC27,
	})
}

const ocspStatusGood = 0

func runC27(r *Report, p *Prog) {
	const resp, chains, staple = "ocsp-answer", "ocsp-chains", "ocsp-staple"
	r.Rule(resp, "a response is returned, or cached under the hash of a certificate, only if it was parsed for that certificate, signed by its issuer or by a responder with the OCSP signing usage, and has not expired")
	r.Rule(chains, "no error is returned only if, in one of the chains, every certificate that names an OCSP server has a response good (or none can be asked for)")
	r.Rule(staple, "a stapled response is used only for the certificate it came with, when it is good and nothing known says revoked")
	of := func(n string) (f tp) {
		v := p.extField("golang.org/x/crypto/ocsp", "Response", n)
		if v == nil {
			r.Missing(resp, "ocsp.Response."+n)
			return func(*Term) bool { return false }
		}
		return isField(v)
	}
	next, status, rcert := of("NextUpdate"), of("Status"), of("Certificate")
	x := func(n string) tp {
		v := p.extField("crypto/x509", "Certificate", n)
		if v == nil {
			r.Missing(resp, "x509.Certificate."+n)
			return func(*Term) bool { return false }
		}
		return isField(v)
	}
	raw, servers, eku := x("Raw"), x("OCSPServer"), x("ExtKeyUsage")
	isCache := func(name, m string) bool {
		return strings.HasPrefix(name, "(*github.com/hashicorp/golang-lru/v2.") && strings.HasSuffix(name, ")."+m)
	}
	parse := "golang.org/x/crypto/ocsp.ParseResponseForCert"
	asksCache := func(f *ssa.Function) bool {
		return has(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isCache(calleeName(ci), "Get")
		})
	}
	answer := r.mustFunc(resp, ocspPkg, "(*OCSPCache).Response", asksCache)
	verify := r.mustFunc(chains, ocspPkg, "(*OCSPCache).VerifyChains", func(f *ssa.Function) bool {
		return len(f.Params) == 3 && strings.HasPrefix(f.Params[1].Type().String(), "[][]")
	})
	if answer == nil || verify == nil {
		return
	}
	// the hash of the certificate's bytes
	keyOf := func(key *Term, cert tp) bool {
		if key.op != "content" {
			return false
		}
		n := 0
		for _, t := range key.args {
			switch {
			case raw(t) && cert(t.args[0]):
				n++
			case isCallTo("crypto/sha256.New", "crypto/sha512.New")(t):
				continue
			case isCallTo("crypto/sha256.Sum256", "crypto/sha512.Sum512", "crypto/sha512.Sum384", "crypto/sha512.Sum512_256")(t):
			default:
				return false
			}
		}
		return n == 1 && len(key.args) <= 2
	}
	encode := func(c *CallCtx) {
		// what the keys are made of; a part of a hash is no key
		whole := func(t *Term) bool { return t.op != "slice" || t.args[1] == nil && t.args[2] == nil }
		if cc := c.In.Common(); cc.IsInvoke() && strings.HasSuffix(cc.Value.Type().String(), "hash.Hash") {
			switch cc.Method.Name() {
			case "Write":
				c.St.Event("write", nil, c.Args, nil)
			case "Sum":
				c.Result = content(&c.Ctx, c.Args[0], c.Args[0], c.Args[1])
			}
		}
		switch c.Name {
		case "encoding/hex.EncodeToString":
			if whole(c.Args[0]) {
				c.Result = content(&c.Ctx, nil, c.Args[0])
			}
		case "(*encoding/base64.Encoding).EncodeToString":
			if whole(c.Args[1]) {
				c.Result = content(&c.Ctx, nil, c.Args[1])
			}
		}
	}
	ofResp := func(f tp, res *Term) tp {
		return func(t *Term) bool { return f(t) && t.mentions(func(y *Term) bool { return y == res }) }
	}
	// current: the path established that the response has not expired.
	current := func(c *Ctx, res *Term, zeroOK bool) bool {
		for k, v := range c.St.facts {
			switch {
			case k.s == "time.lt" && len(k.args) == 2:
				b, d, ok := timePlus(k.args[0])
				if v && ok && d >= 0 && isNow(b) && ofResp(next, res)(k.args[1]) {
					return true
				}
				// with a margin that is not negative
				if t := k.args[0]; v && isCallTo("(time.Time).Add")(t) && isNow(t.args[0]) && t.args[1].op == "param" && ofResp(next, res)(k.args[1]) {
					return true
				}
				b, d, ok = timePlus(k.args[1])
				if !v && ok && d >= 0 && isNow(b) && ofResp(next, res)(k.args[0]) {
					return true
				}
			case isCallTo("(time.Time).IsZero")(k) && v && zeroOK && k.mentions(ofResp(next, res)):
				return true
			}
		}
		return false
	}
	authorized := func(c *Ctx, res, issuer *Term) bool {
		for k, v := range c.St.facts {
			if !k.mentions(ofResp(rcert, res)) {
				continue
			}
			switch {
			case k.op == "isnil" && v && ofResp(rcert, res)(k.args[0]):
				return true
			case isCallTo("(*crypto/x509.Certificate).Equal")(k) && v && k.mentions(func(t *Term) bool { return t == issuer }):
				return true
			case isCallTo("slices.Contains")(k) && v && k.mentions(eku):
				if n, ok := constInt(k.args[1]); ok && n == 9 { // ExtKeyUsageOCSPSigning
					return true
				}
			}
		}
		return hasEv(c, "usage")
	}
	onBranch := func(c *Ctx, cond *Term, val bool) {
		// a list that is not empty has a first element
		if cond.op == "bin" && cond.s == "<" && isLen(cond.args[1]) && servers(cond.args[1].args[0]) {
			if val {
				c.St.Event("server", nil, []*Term{cond.args[1]}, nil)
			} else if !hasEv(c, "server") {
				for k, v := range c.St.facts {
					if k.op == "bin" && k.s == "==" && !v && (k.args[0] == cond.args[1] && isZeroConst(k.args[1]) || k.args[1] == cond.args[1] && isZeroConst(k.args[0])) ||
						k.op == "bin" && k.s == "<" && v && isZeroConst(k.args[0]) && k.args[1] == cond.args[1] {
						c.St.Event("impossible", nil, nil, nil)
					}
				}
			}
		}
		// a loop over the usages
		if cond.op == "bin" && cond.s == "==" && val {
			for i := 0; i < 2; i++ {
				if n, ok := constInt(cond.args[i]); ok && n == 9 && cond.args[1-i].op == "index" && cond.args[1-i].mentions(eku) && cond.args[1-i].mentions(rcert) {
					c.St.Event("usage", nil, nil, nil)
				}
			}
		}
	}
	keep := func(t *Term) bool {
		return t.s == "time.lt" || t.mentions(next) || t.mentions(rcert) || t.mentions(status) || t.mentions(servers)
	}
	// parsed: the response is the result of a parse for the certificate.
	parsed := func(c *Ctx, res *Term) (cert, issuer *Term) {
		for _, ev := range c.St.Has("parse") {
			if c.W.T.extract(ev.Res, 0, nil) == res && okResult(c, ev) {
				return ev.Args[1], ev.Args[2]
			}
		}
		return nil, nil
	}
	found := func(c *Ctx, ev *Ev) tri {
		if ev.Status != unknown {
			return ev.Status
		}
		return c.St.Bool(c.W.T.extract(ev.Res, 1, nil))
	}
	// checked: what the path established about a response.
	type verdict struct {
		cert, issuer    *Term
		current, signer bool
	}
	checked := func(c *Ctx, res *Term) verdict {
		for _, ev := range c.St.Has("checked") {
			if ev.Args[0] == res {
				return verdict{ev.Args[1], ev.Args[2], ev.Args[3] == c.W.T.trueT, ev.Args[4] == c.W.T.trueT}
			}
		}
		cert, issuer := parsed(c, res)
		if cert == nil {
			return verdict{}
		}
		return verdict{cert, issuer, current(c, res, true), authorized(c, res, issuer)}
	}
	onWiden := func(c *Ctx, t *Term) func(*Term) {
		v := checked(c, t)
		if v.cert == nil {
			return nil
		}
		b := map[bool]*Term{false: c.W.T.falseT, true: c.W.T.trueT}
		return func(sym *Term) {
			c.St.Event("checked", nil, []*Term{sym, v.cert, v.issuer, b[v.current], b[v.signer]}, nil)
		}
	}
	adds, returned := 0, 0
	checkAdd := func(c *CallCtx) {
		if hasEv(&c.Ctx, "impossible") {
			return
		}
		adds++
		in := c.In.(ssa.Instruction)
		key, res := c.Args[1], c.Args[2]
		what := "cached in " + fnLabel(c.Fr.Fn)
		v := checked(&c.Ctx, res)
		cert := v.cert
		r.Assert(cert != nil, resp, what+": parsed for a certificate", in.Pos(), "a response that was not parsed for a certificate is cached: %v (%s)", res, c.Trace(in))
		if cert == nil {
			return
		}
		r.Assert(cert.op != "nil", resp, what+": for one certificate", in.Pos(), "the response may be for any certificate: %v", cert)
		r.Assert(keyOf(key, func(t *Term) bool { return t == cert }), resp, what+": under that certificate's hash", in.Pos(), "a response for %v is cached under %v", cert, key)
		r.Assert(v.current, resp, what+": current", in.Pos(), "the response may have expired (%s)", c.Trace(in))
		r.Assert(v.signer, resp, what+": signer", in.Pos(), "the response may be signed by any certificate of the issuer (%s)", c.Trace(in))
	}

	list := func(t *Term) bool { return t.op == "index" && t.args[0].op == "param" }
	each := &forall{L: "chain", IsList: list}
	elem := func(t *Term) bool { return t.op == "index" && list(t.args[0]) }
	accepted := 0
	skipped := map[string]bool{}
	good := func(c *Ctx, t *Term, val bool) {
		a := t.args
		if !val || len(a) != 2 {
			return
		}
		for i := 0; i < 2; i++ {
			for _, ev := range c.St.Has("ask") {
				res, err := c.W.T.extract(ev.Res, 0, nil), c.W.T.extract(ev.Res, 1, nil)
				if g := a[1-i]; a[i] == err && isSentinel(g) {
					// skipped: decided below
					skipped[g.String()] = true
					each.dispose(c, ev.Args[1])
				}
				if k, ok := constInt(a[1-i]); ok && k == ocspStatusGood && ofResp(status, res)(a[i]) && okResult(c, ev) {
					each.dispose(c, ev.Args[1])
				}
			}
		}
	}
	r.Walk(&Rule{
		Name: chains, InlineAll: true, KeepRes: true, Cap: 6000,
		Keep: keep, OnWiden: onWiden,
		OnBranch: func(c *Ctx, cond *Term, val bool) {
			onBranch(c, cond, val)
			if cond.op == "bin" && cond.s == "<" && isLen(cond.args[1]) && cond.args[1].args[0].op == "param" {
				if val {
					c.St.Event("some", nil, nil, nil)
					each.reset(c)
				} else {
					c.St.Event("all", nil, nil, nil)
				}
			}
			each.branch(c, cond, val)
			if cond.op == "bin" && cond.s == "==" {
				good(c, cond, val)
				for i := 0; i < 2; i++ {
					if l := cond.args[i]; val && isLen(l) && servers(l.args[0]) && isZeroConst(cond.args[1-i]) {
						each.dispose(c, l)
					}
				}
			}
			if cond.op == "bin" && cond.s == "<" && !val && isZeroConst(cond.args[0]) && isLen(cond.args[1]) && servers(cond.args[1].args[0]) {
				each.dispose(c, cond.args[1])
			}
		},
		OnCall: func(c *CallCtx) {
			encode(c)
			switch {
			case c.Fn == answer:
				in := c.In.(ssa.Instruction)
				c.St.Event("ask", c.Res, c.Args, nil)
				c.Opaque = true
				cert, issuer := c.Args[1], c.Args[2]
				r.Assert(elem(cert) && (issuer == cert || elem(issuer) && issuer.args[0] == cert.args[0]), chains, "who is asked about what", in.Pos(), "the issuer is not the next certificate of the same chain: %v, %v", cert, issuer)
				if len(c.Args) > 3 {
					k, ok := constInt(c.Args[3])
					r.Assert(ok && k >= 0, chains, "margin", in.Pos(), "the margin may be negative: expired responses would be used")
				}
			case c.Name == parse:
				c.St.Event("parse", c.Res, c.Args, nil)
			case isCache(c.Name, "Get") || isCache(c.Name, "Peek"):
				c.St.Event("get", c.Res, c.Args, nil)
			case isCache(c.Name, "Add"):
				checkAdd(c)
				in := c.In.(ssa.Instruction)
				res := c.Args[2]
				st := c.St.Load(c.W.T.field(c.W.T.path(res), p.extField("golang.org/x/crypto/ocsp", "Response", "Status")), nil)
				ok := false
				for k, v := range c.St.facts {
					if k.op == "bin" && k.s == "==" && v && k.mentions(ofResp(status, res)) && (isZeroConst(k.args[0]) || isZeroConst(k.args[1])) {
						ok = true
					}
				}
				r.Assert(ok, staple, "stapled response: good", in.Pos(), "the stapled response's status may be anything: %v", st)
				notRevoked := false
				for _, ev := range c.St.Has("get") {
					got := c.W.T.extract(ev.Res, 0, nil)
					if ev.Args[1] != c.Args[1] {
						continue
					}
					if found(&c.Ctx, ev) == no || c.St.Nil(got) == yes {
						notRevoked = true
					}
					for k, v := range c.St.facts {
						if k.op != "bin" || k.s != "==" || !k.mentions(ofResp(status, got)) {
							continue
						}
						for i := 0; i < 2; i++ {
							if n, isC := constInt(k.args[i]); isC && (n == 1 && !v || n != 1 && v) {
								notRevoked = true
							}
						}
					}
				}
				r.Assert(notRevoked, staple, "stapled response: nothing says revoked", in.Pos(), "a stapled response may replace a cached one that says revoked (%s)", c.Trace(in))
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != verify || len(rets) != 1 || c.St.Nil(rets[0]) == no {
				return
			}
			accepted++
			r.Assert(each.ok(c) || !hasEv(c, "some") && hasEv(c, "all"), chains, "no error", posOf(in), "no error (%v) may be returned although every chain has a certificate that was not found good (%s)", rets[0], c.Trace(in))
		},
	}, verify, nil)
	r.AssertAt(accepted > 0, chains, "chains are accepted", "-", "no path returns no error")
	r.Walk(&Rule{
		Name: resp, InlineAll: true, KeepRes: true, Cap: 4000, Keep: keep, OnBranch: onBranch, OnWiden: onWiden,
		NoInline: func(f *ssa.Function) bool { return f == verify },
		OnCall: func(c *CallCtx) {
			encode(c)
			switch {
			case c.Name == parse:
				c.St.Event("parse", c.Res, c.Args, nil)
			case isCache(c.Name, "Get") || isCache(c.Name, "Peek"):
				c.St.Event("get", c.Res, c.Args, nil)
			case isCache(c.Name, "Add"):
				checkAdd(c)
			case c.Name == "net/http.NewRequest" || c.Name == "net/http.NewRequestWithContext":
				c.St.Kill("asked")
			case oneOf(c.Name, "(*net/http.Client).Do", "(*net/http.Client).Post", "net/http.Post"):
				c.St.Event("asked", nil, nil, nil)
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) == 0 || !hasEv(c, "asked") {
				return
			}
			if t := c.V(ret.Results[len(ret.Results)-1]); skipped[t.String()] {
				r.Assert(false, chains, "skipped although asked: "+fnLabel(c.Fr.Fn), posOf(in), "a certificate whose OCSP server did not answer is passed over: %v", t)
			}
		},
		OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
			if c.Fr.Fn != answer || len(rets) != 2 || c.St.Nil(rets[1]) == no || hasEv(c, "impossible") {
				return
			}
			returned++
			res := rets[0]
			isCert, isIssuer := isParam(answer.Params[1]), isParam(answer.Params[2])
			for _, ev := range c.St.Has("get") {
				if c.W.T.extract(ev.Res, 0, nil) == res {
					r.Assert(found(c, ev) == yes || c.St.Nil(res) == no, resp, "returned from the cache: found", posOf(in), "nothing may have been found")
					r.Assert(keyOf(ev.Args[1], isCert), resp, "returned from the cache: for that certificate", posOf(in), "the response was cached under %v", ev.Args[1])
					r.Assert(current(c, res, false), resp, "returned from the cache: current", posOf(in), "a cached response that may have expired is returned (%s)", c.Trace(in))
					return
				}
			}
			v := checked(c, res)
			pc, pi := v.cert, v.issuer
			r.Assert(pc != nil, resp, "returned: parsed for a certificate", posOf(in), "neither an error nor a response that was parsed for a certificate is returned: %v (%s)", res, c.Trace(in))
			if pc == nil {
				return
			}
			r.Assert(isCert(pc) && isIssuer(pi), resp, "returned: for the certificate that was asked", posOf(in), "the response is for %v by %v", pc, pi)
			r.Assert(v.current, resp, "returned: current", posOf(in), "a response that may have expired is returned (%s)", c.Trace(in))
			r.Assert(v.signer, resp, "returned: signer", posOf(in), "the response may be signed by any certificate of the issuer (%s)", c.Trace(in))
		},
	}, answer, nil)
	r.AssertAt(returned > 0, resp, "responses are returned", "-", "no path returns a response")

	// what is stored and loaded
	items := map[*types.Var]*types.Var{}
	for _, pkg := range p.ModPkgs {
		if !strings.HasSuffix(pkg, ocspPkg) {
			continue
		}
		sc := p.SPkgs[pkg].Pkg.Scope()
		for _, n := range sc.Names() {
			st, ok := sc.Lookup(n).Type().Underlying().(*types.Struct)
			if _, isT := sc.Lookup(n).(*types.TypeName); !ok || !isT {
				continue
			}
			var key, val *types.Var
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Type().String() {
				case "string":
					key = st.Field(i)
				case "[]byte":
					val = st.Field(i)
				}
			}
			if key != nil && val != nil {
				items[key] = val
			}
		}
	}
	r.AssertAt(len(items) == 1, resp, "stored item", "-", "%d types have a key and a value", len(items))
	respRaw := of("Raw")
	saved, loaded := 0, 0
	for kv, vv := range items {
		isKey, isVal := isField(kv), isField(vv)
		isAdd := func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isCache(calleeName(ci), "Add")
		}
		isItem := func(in ssa.Instruction) *types.Var {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if fv := fieldVar(fa.X.Type(), fa.Field); fv == kv || fv == vv {
						return fv
					}
				}
			}
			return nil
		}
		own1, own2 := p.reachable(answer), p.reachable(verify)
		for _, f := range p.funcsWhere(func(f *ssa.Function) bool {
			return inPkg(f, ocspPkg) && !own1[f] && !own2[f] && has(f, func(in ssa.Instruction) bool { return isAdd(in) || isItem(in) != nil })
		}) {
			r.Walk(&Rule{
				Name: resp, KeepRes: true, Cap: 2000, InlineAll: true,
				Keep: func(t *Term) bool { return keep(t) || isKey(t) || isVal(t) },
				OnCall: func(c *CallCtx) {
					in := c.In.(ssa.Instruction)
					switch {
					case strings.HasPrefix(c.Name, "golang.org/x/crypto/ocsp.ParseResponse"):
						c.St.Event("parse", c.Res, []*Term{c.Args[0]}, nil)
					case isCache(c.Name, "Get") || isCache(c.Name, "Peek"):
						c.St.Event("get", c.Res, c.Args, nil)
					case isCache(c.Name, "Add"):
						loaded++
						key, res := c.Args[1], c.Args[2]
						ok := false
						for _, ev := range c.St.Has("parse") {
							val := ev.Args[0]
							ok = ok || c.W.T.extract(ev.Res, 0, nil) == res && okResult(&c.Ctx, ev) && isKey(key) && isVal(val) && key.args[0] == val.args[0]
						}
						r.Assert(ok, resp, "loaded in "+fnLabel(c.Fr.Fn)+": under its key", in.Pos(), "%v is loaded under %v (%s)", res, key, c.Trace(in))
						r.Assert(current(&c.Ctx, res, true), resp, "loaded in "+fnLabel(c.Fr.Fn)+": current", in.Pos(), "an expired response may be loaded")
					}
				},
				OnInstr: func(c *Ctx, in ssa.Instruction) {
					fv := isItem(in)
					if fv == nil {
						return
					}
					st := in.(*ssa.Store)
					base, val := c.V(st.Addr.(*ssa.FieldAddr).X), c.V(st.Val)
					mine, other := "item-key", "item-val"
					if fv == vv {
						mine, other = other, mine
					}
					c.St.Event(mine, nil, []*Term{base, val}, nil)
					for _, ev := range c.St.Has(other) {
						if ev.Args[0] != base {
							continue
						}
						saved++
						key, raw := ev.Args[1], val
						if fv == kv {
							key, raw = raw, key
						}
						ok := false
						for _, g := range c.St.Has("get") {
							ok = ok || respRaw(raw) && raw.args[0] == c.W.T.extract(g.Res, 0, nil) && g.Args[1] == key
						}
						r.Assert(ok, resp, "saved in "+fnLabel(c.Fr.Fn)+": with its key", in.Pos(), "%v is saved under %v", raw, key)
					}
				},
			}, f, nil)
		}
	}
	r.AssertAt(saved > 0 && loaded > 0, resp, "responses are saved and loaded", "-", "%d saved, %d loaded", saved, loaded)
	r.AssertAt(adds > 1, resp, "responses are cached", "-", "no path caches a response")

	// stapling: clients are sent good responses for the certificate
	sv := p.extField("crypto/tls", "Certificate", "OCSPStaple")
	lv := p.extField("crypto/tls", "Certificate", "Leaf")
	if sv == nil || lv == nil {
		r.Missing(staple, "tls.Certificate")
		return
	}
	stapled := 0
	seen := map[*ssa.Function]bool{}
	for _, st := range p.idx.stores[sv] {
		f := st.Parent()
		if seen[f] || inTest(p, st) || isNilConst(st.Val) {
			continue
		}
		seen[f] = true
		r.Walk(&Rule{
			Name: staple, InlineAll: true, KeepRes: true, Cap: 2000, MaxDepth: 4, Keep: keep,
			KeepPath: func(t *Term) bool { return t.op == "field" && isField(lv)(t) },
			OnCall: func(c *CallCtx) {
				if c.Fn == answer {
					c.St.Event("ask", c.Res, c.Args, nil)
					c.Opaque = true
					if len(c.Args) > 3 {
						k, ok := constInt(c.Args[3])
						r.Assert(ok && k >= 0, staple, "margin", c.In.Pos(), "the margin may be negative: expired responses would be stapled")
					}
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa.X.Type(), fa.Field) != sv {
					return
				}
				val := c.V(st.Val)
				if val.op == "nil" {
					return
				}
				stapled++
				cert := c.St.Load(c.W.T.field(c.W.T.path(c.V(fa.X)), lv), lv.Type())
				ok = false
				for _, ev := range c.St.Has("ask") {
					res := c.W.T.extract(ev.Res, 0, nil)
					if !respRaw(val) || val.args[0] != res && !val.mentions(func(t *Term) bool { return t == res }) || !okResult(c, ev) || ev.Args[1] != cert {
						continue
					}
					for k, v := range c.St.facts {
						if k.op == "bin" && k.s == "==" && v && k.mentions(ofResp(status, res)) && (isZeroConst(k.args[0]) || isZeroConst(k.args[1])) {
							ok = true
						}
					}
				}
				r.Assert(ok, staple, "stapled to own certificate", in.Pos(), "%v is stapled: not known to be a good response for that certificate (%s)", val, c.Trace(in))
			},
		}, f, nil)
	}
	r.AssertAt(stapled > 0, staple, "responses are stapled", "-", "nothing is stapled")
}
