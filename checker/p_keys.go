package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokenPkg = "proxy/internal/tokenmanager"

func init() {
	register(&Check{
		ID: "C32", Title: "Token keys are stored before use, rotated in time, and published",
		Explain: "Keys sign only once they are stored and known to those that cache the published set; they stay until no token they signed can be valid; exactly their public halves are published.",
		Run:     runC32,
	})
}

func runC32(r *Report, p *Prog) {
	k := &tokenKeysInfo{}
	k.keys = r.mustField("persist", tokenPkg, "TokenManager", "keys")
	k.list = r.mustField("persist", tokenPkg, "tokenKeys", "Keys")
	k.id = r.mustField("kid", tokenPkg, "tokenKey", "ID")
	k.key = r.mustField("kid", tokenPkg, "tokenKey", "Key")
	k.priv = r.mustField("kid", tokenPkg, "tokenKey", "privKey")
	k.created = r.mustField("kid", tokenPkg, "tokenKey", "CreationTime")
	if k.keys == nil || k.list == nil || k.id == nil || k.key == nil || k.priv == nil || k.created == nil {
		return
	}
	keysRotation(r, p, k)
	keysSigning(r, p, k)
	keysPublished(r, p, k)
	keysMade(r, p, k)
	keysLoop(r, p, k)
}

type tokenKeysInfo struct {
	keys, list, id, key, priv, created *types.Var
}

const hourNs = int64(3600) * 1e9

// tokenLife is the longest validity of a token, as its "exp" claim is set.
func tokenLife(p *Prog) int64 {
	max := int64(0)
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			if s, _ := ssaConstString(unIface(m.Key)); s != "exp" {
				return
			}
			for ci := range p.Origins(m.Value, FlowOpts{Base: true}).CallIns {
				if calleeName(ci) != "(time.Time).Add" {
					continue
				}
				if d, ok := ssaConstInt(ci.Common().Args[1]); ok && d > max {
					max = d
				}
			}
		})
	}
	return max
}

func keysRotation(r *Report, p *Prog, k *tokenKeysInfo) {
	const rule, keep = "persist", "retention"
	r.Rule(rule, "the keys in use are replaced only by keys that were stored, in the same transaction, without an error")
	r.Rule(keep, "a key is dropped only when it is so old that no token it signed can be valid (the longest validity of a token after the last time it may have signed), or cannot be parsed; a new one is made when there is none and when the newest is older than a day")
	life := tokenLife(p)
	r.AssertAt(life >= hourNs, keep, "validity of tokens", "-", "no token with a validity was found")
	// it signs until the next key is old enough, which the loop sees an hour late
	min := 24*hourNs + 3*hourNs + life
	roots := map[*ssa.Function]bool{}
	for _, st := range p.storesTo(k.keys) {
		f := st.Parent()
		if !production(p, f) {
			continue
		}
		for hop := 0; hop < 3; hop++ {
			opens := false
			instrs(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci), ".OpenForUpdate") {
					opens = true
				}
			})
			if cs := p.idx.callers[f]; opens || len(cs) == 0 {
				break
			} else {
				f = cs[0].Parent()
			}
		}
		roots[f] = true
	}
	isElem := func(t *Term, which string) bool {
		return t.mentions(func(x *Term) bool {
			if x.op != "index" || len(x.args) < 2 {
				return false
			}
			n, isC := constInt(x.args[1])
			return which == "first" && isC && n == 0 || which == "last" && !isC
		})
	}
	for _, f := range p.Funcs {
		if !roots[f] {
			continue
		}
		r.Analysed(f)
		r.Walk(&Rule{
			Name: rule, KeepRes: true, InlineAll: true, Cap: 64,
			NoInline: func(g *ssa.Function) bool {
				return len(p.storesTo(k.keys)) > 0 && !fnTouches(g, k.keys) && g.Parent() == nil && !fnTouches(g, k.list)
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				expired, fresh, bound := ageOutcome(cond, val, isField(k.created))
				if expired && isElem(cond, "first") {
					c.St.Event("old-first", nil, []*Term{c.W.T.int(bound)}, nil)
				}
				if fresh && isElem(cond, "last") && bound <= 24*hourNs {
					c.St.Event("fresh", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				commitCall(c)
				switch {
				case c.Fn != nil && c.Fn.Signature.Results().Len() == 2 && c.Fn.Signature.Results().At(0).Type().String() == "[]*"+modPath+"/"+tokenPkg+".tokenKey":
					c.Opaque = true
					c.St.Event("made", c.Res, nil, nil)
				case strings.HasPrefix(c.Name, "slices.DeleteFunc") && len(c.Args) == 2:
					c.St.Event("filtered", nil, nil, nil)
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || fieldVar(fa.X.Type(), fa.Field) != k.keys {
						return
					}
					r.Assert(committed(c), rule, "keys replaced in "+fnLabel(c.Fr.Fn), posOf(in), "the keys are used although they may not have been stored: %s", c.Trace(in))
					r.Assert(hasEv(c, "fresh") || c.St.OKNil("made") != nil, keep, "new keys in "+fnLabel(f), posOf(in), "the newest key may be older than a day, and no new one was made: %s", c.Trace(in))
				case *ssa.Slice:
					if !strings.HasSuffix(x.Type().String(), ".tokenKey") || x.Low == nil && x.High == nil {
						return
					}
					ok := false
					if n, isC := ssaConstInt(x.Low); x.Low != nil && isC && n == 1 && x.High == nil {
						for _, ev := range c.St.Has("old-first") {
							b, _ := constInt(ev.Args[0])
							ok = ok || b >= min
						}
					}
					r.Assert(ok, keep, "keys dropped in "+fnLabel(c.Fr.Fn), posOf(in), "a key is dropped that may have signed valid tokens (needed for %d h): %s", min/hourNs, c.Trace(in))
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if len(rets) == 0 || c.St.Nil(rets[len(rets)-1]) == no {
					return
				}
				r.Assert(hasEv(c, "fresh") || c.St.OKNil("made") != nil, keep, "success of "+fnLabel(f), posOf(in), "the newest key may be older than a day, and no new one was made: %s", c.Trace(in))
			},
		}, f, nil)
	}
	// keys that are filtered out
	for _, f := range p.Funcs {
		if !inPkg(f, tokenPkg) || f.Parent() == nil || len(f.Params) == 0 || !strings.HasSuffix(f.Params[0].Type().String(), ".tokenKey") || f.Signature.Results().Len() != 1 || inTestFile(p, f) {
			continue
		}
		passed := false
		instrs(f.Parent(), func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if ok && strings.Contains(calleeName(ci), "slices.DeleteFunc") {
				for _, g := range funcsOf(ci.Common().Args[1]) {
					passed = passed || g == f
				}
			}
		})
		if !passed {
			continue
		}
		r.Analysed(f)
		r.Walk(&Rule{
			Name: keep, InlineAll: true,
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if old, _, b := ageOutcome(cond, val, isField(k.created)); old && b >= min {
					c.St.Event("old", nil, nil, nil)
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if len(rets) == 0 || c.St.Bool(rets[0]) == no {
					return
				}
				t := rets[0]
				old, _, b := ageOutcome(t, true, isField(k.created))
				ok := hasEv(c, "old") || old && b >= min || c.St.Nil(c.St.Load(c.W.T.field(c.W.T.path(c.V(f.Params[0])), k.priv), k.priv.Type())) == yes ||
					(t.op == "isnil" || t.op == "bin" && t.s == "==") && t.mentions(isField(k.priv)) && (t.op == "isnil" || t.args[0].op == "nil" || t.args[1].op == "nil")
				r.Assert(ok, keep, "keys filtered in "+fnLabel(f), posOf(in), "a key is dropped that may have signed valid tokens: %v", t)
			},
		}, f, nil)
	}
	r.Min(rule, 1)
	r.Min(keep, 3)
}

// fnTouches: the function reads or writes the field.
func fnTouches(f *ssa.Function, fv *types.Var) bool {
	found := false
	instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			found = found || fieldVar(x.X.Type(), x.Field) == fv
		case *ssa.Field:
			found = found || fieldVar(x.X.Type(), x.Field) == fv
		}
	})
	return found
}

// keysSigning decides which key signs, and under which name.
func keysSigning(r *Report, p *Prog, k *tokenKeysInfo) {
	const rule, delay = "kid", "delay"
	r.Rule(rule, "a token is signed with the key whose ID its header names, and only if there is one")
	r.Rule(delay, "a key signs, while there is an older one, only when it is older than copies of the published key set may be (its max-age)")
	maxAge := int64(-1)
	re := regexp.MustCompile(`max-age=(\d+)`)
	jw := publishers(p, k)
	for _, f := range jw {
		instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, a := range ci.Common().Args {
					if s, ok := ssaConstString(a); ok {
						if m := re.FindStringSubmatch(s); m != nil {
							maxAge, _ = strconv.ParseInt(m[1], 10, 64)
						}
					}
				}
			}
		})
	}
	r.AssertAt(len(jw) > 0, delay, "published key set", "-", "the handler that publishes the keys was not found")
	n := 0
	for _, f := range p.Funcs {
		if !inPkg(f, tokenPkg) || inTestFile(p, f) {
			continue
		}
		signs := false
		instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci), "jwt/v5.Token).SignedString") {
				signs = true
			}
		})
		if !signs {
			continue
		}
		n++
		r.Analysed(f)
		r.Walk(&Rule{
			Name: rule, KeepRes: true, Cap: 48,
			Interesting: func(in ssa.Instruction) bool {
				m, ok := in.(*ssa.MapUpdate)
				if !ok {
					return false
				}
				s, _ := ssaConstString(m.Key)
				return s == "kid"
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				m, ok := in.(*ssa.MapUpdate)
				if !ok {
					return
				}
				if s, _ := ssaConstString(m.Key); s == "kid" {
					c.St.Kill("kid")
					c.St.Event("kid", nil, []*Term{stripConv(c.V(m.Value))}, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				if !strings.HasSuffix(c.Name, "jwt/v5.Token).SignedString") {
					return
				}
				pk := stripConv(c.Args[1])
				ok, nn := false, false
				for _, ev := range c.St.Has("kid") {
					id := ev.Args[0]
					if id.op == "field" && id.fv == k.id && pk.op == "field" && pk.fv == k.priv {
						ok = ok || id.args[0] == pk.args[0]
						nn = nn || c.St.Nil(id.args[0]) != yes
					}
				}
				r.Assert(ok && nn, rule, "signature in "+fnLabel(c.Fr.Fn), posOf(c.In), "the token is signed with %v, its header names %v: %s", pk, c.St.Has("kid"), c.Trace(c.In))
				if pk.op == "field" {
					r.Assert(c.St.Nil(pk.args[0]) == no, rule, "signing key in "+fnLabel(c.Fr.Fn), posOf(c.In), "there may be no key: %s", c.Trace(c.In))
				}
			},
		}, f, nil)
		// the choice
		found := false
		scope := map[*ssa.Function]bool{f: true}
		for _, ci := range p.idx.callers[f] {
			if g := ci.Parent(); inPkg(g, tokenPkg) && !inTestFile(p, g) {
				scope[g] = true
			}
		}
		var work []*ssa.Function
		for g := range scope {
			work = append(work, g)
		}
		for len(work) > 0 {
			g := work[0]
			work = work[1:]
			for _, h := range append(staticCallees(g), g.AnonFuncs...) {
				if inPkg(h, tokenPkg) && !scope[h] {
					scope[h] = true
					work = append(work, h)
				}
			}
		}
		for g := range scope {
			instrs(g, func(in ssa.Instruction) {
				ci, ok := in.(*ssa.Call)
				if !ok || !oneOf(calleeName(ci), "(time.Time).Before", "(time.Time).After", "(time.Time).Compare", "time.Since") {
					return
				}
				created := false
				d := int64(0)
				for _, a := range ci.Call.Args {
					o := p.Origins(a, FlowOpts{NoCallers: true, Base: true})
					created = created || o.Fields[k.created]
					for c2 := range o.CallIns {
						if calleeName(c2) == "(time.Time).Add" {
							if x, ok := ssaConstInt(c2.Common().Args[1]); ok {
								if x < 0 {
									x = -x
								}
								d += x
							}
						}
					}
				}
				if calleeName(ci) == "time.Since" {
					for _, u := range *ci.Referrers() {
						if b, ok := u.(*ssa.BinOp); ok {
							for _, y := range []ssa.Value{b.X, b.Y} {
								if x, ok := ssaConstInt(y); ok {
									d += x
								}
							}
						}
					}
				}
				if !created {
					return
				}
				found = true
				r.Assert(maxAge >= 0 && d >= maxAge*1e9, delay, "age of the signing key in "+fnLabel(g), posOf(in), "keys sign when they are %d s old, the published set may be cached for %d s", d/1e9, maxAge)
				if iff, yes := condOf(ci); iff != nil {
					oldFirst := calleeName(ci) == "(time.Time).Before" && fromField(p, ci.Call.Args[0], k.created) || calleeName(ci) == "(time.Time).After" && fromField(p, ci.Call.Args[1], k.created)
					if calleeName(ci) == "time.Since" {
						return
					}
					sel := func(i int) ssa.Value { return chosen(iff.Block(), i) }
					a, b := sel(0), sel(1)
					if !yes {
						a, b = b, a
					}
					if !oldFirst {
						a, b = b, a
					}
					// a: what is chosen if the key is old, b: if it is not
					if a != nil && b != nil {
						_, aPhi := a.(*ssa.Phi)
						_, bPhi := b.(*ssa.Phi)
						r.Assert(!(aPhi && !bPhi), delay, "choice of the signing key in "+fnLabel(g), posOf(in), "new keys are preferred to old ones")
					}
				}
			})
		}
		r.Assert(found, delay, "age of the signing key for "+fnLabel(f), f.Pos(), "keys sign as soon as they are made")
	}
	r.AssertAt(n > 0, rule, "signatures", "-", "none found")
	r.Min(rule, 2)
	r.Min(delay, 2)
}

func fromField(p *Prog, v ssa.Value, fv *types.Var) bool {
	return p.Origins(v, FlowOpts{NoCallers: true, Base: true}).Fields[fv]
}

// condOf: the branch that the call alone decides, and whether it is taken
// when the call returns true.
func condOf(ci *ssa.Call) (*ssa.If, bool) {
	v, sense := ssa.Value(ci), true
	for i := 0; i < 3; i++ {
		rs := v.Referrers()
		if rs == nil || len(*rs) != 1 {
			return nil, false
		}
		switch u := (*rs)[0].(type) {
		case *ssa.If:
			return u, sense
		case *ssa.UnOp:
			if u.Op != token.NOT {
				return nil, false
			}
			v, sense = u, !sense
		default:
			return nil, false
		}
	}
	return nil, false
}

// chosen: what a phi of keys, at the start of the block that the i-th branch
// leads to, takes.
func chosen(b *ssa.BasicBlock, i int) ssa.Value {
	prev, cur := b, b.Succs[i]
	for n := 0; n < 4; n++ {
		for _, in := range cur.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !strings.HasSuffix(ph.Type().String(), ".tokenKey") {
				continue
			}
			for j, pr := range cur.Preds {
				if pr == prev {
					return ph.Edges[j]
				}
			}
		}
		if len(cur.Succs) != 1 {
			return nil
		}
		prev, cur = cur, cur.Succs[0]
	}
	return nil
}

// publishers: the handlers that publish the keys, and what they call.
func publishers(p *Prog, k *tokenKeysInfo) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, h := range p.funcsWhere(func(f *ssa.Function) bool { return inPkg(f, tokenPkg) && isHandlerSigMethod(f) }) {
		fs := []*ssa.Function{h}
		touches := fnTouches(h, k.priv)
		for _, g := range append(staticCallees(h), h.AnonFuncs...) {
			if inPkg(g, tokenPkg) {
				fs = append(fs, g)
				touches = touches || fnTouches(g, k.priv)
			}
		}
		if touches {
			for _, f := range fs {
				if !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// keysPublished decides what the key set contains.
func keysPublished(r *Report, p *Prog, k *tokenKeysInfo) {
	jw := publishers(p, k)
	const rule = "published"
	r.Rule(rule, "the published set has, for each key of each type that is made, an entry with its ID and its public values in full length, and nothing private")
	kid := p.Field(tokenPkg, "jwk", "ID")
	typ := p.Field(tokenPkg, "jwk", "Type")
	if kid == nil || typ == nil {
		r.Missing(rule, "the type of published keys")
		return
	}
	kinds := map[string]bool{}
	n := 0
	for _, f := range p.Funcs {
		if !inPkg(f, tokenPkg) || inTestFile(p, f) || !storesField(f, kid) {
			continue
		}
		r.Analysed(f)
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			if fv == nil || fv.Pkg() != kid.Pkg() || !typeHasField(fa.X.Type(), "Curve") {
				return
			}
			n++
			o := p.Origins(st.Val, FlowOpts{Base: true})
			what := "value " + fv.Name() + " in " + fnLabel(f)
			private := o.Fields[k.key]
			for x := range o.Fields {
				if x.Pkg() != nil && strings.HasPrefix(x.Pkg().Path(), "crypto/") && oneOf(x.Name(), "D", "Primes", "Precomputed") {
					private = true
				}
			}
			for c := range o.Calls {
				private = private || strings.HasPrefix(c, "crypto/x509.Marshal") && !strings.Contains(c, "PublicKey") || strings.HasSuffix(c, "ed25519.PrivateKey).Seed")
			}
			r.Assert(!private, rule, what, posOf(in), "it comes from the private key")
			if fv == kid {
				r.Assert(o.Fields[k.id], rule, what, posOf(in), "the entry is not named by the key's ID")
			}
			if oneOf(fv.Name(), "X", "Y") {
				ecdsa := false
				for x := range o.Fields {
					ecdsa = ecdsa || x.Pkg() != nil && x.Pkg().Path() == "crypto/ecdsa" && oneOf(x.Name(), "X", "Y")
				}
				if ecdsa {
					want := p.extField("crypto/ecdsa", "PublicKey", fv.Name())
					if want == nil {
						for x := range o.Fields {
							if x.Name() == fv.Name() {
								want = x
							}
						}
					}
					r.Assert(o.Fields[want], rule, what, posOf(in), "it is not the key's %s", fv.Name())
					short := false
					for c := range o.Calls {
						short = short || c == "(*math/big.Int).Bytes"
					}
					r.Assert(!short, rule, what+" has full length", posOf(in), "leading zeros of the coordinate are left out")
				}
			}
		})
	}
	// every key is looked at
	for _, f := range jw {
		r.Analysed(f)
		for _, l := range loopsOf(f) {
			r.Assert(l.runsToEnd(), rule, "loop in "+fnLabel(f), f.Pos(), "keys may be left out")
		}
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.TypeAssert:
				kinds[x.AssertedType.String()] = true
			case *ssa.IndexAddr:
				if _, ok := ssaConstInt(x.Index); ok && strings.HasSuffix(x.Type().String(), ".tokenKey") {
					r.Assert(false, rule, "loop in "+fnLabel(f), posOf(in), "one particular key is used")
				}
			case *ssa.If:
				if innermost(f, x.Block()) == nil {
					return
				}
				o := p.Origins(x.Cond, FlowOpts{NoCallers: true, Base: true})
				r.Assert(!o.Fields[k.created] && !o.Fields[k.id], rule, "loop in "+fnLabel(f), posOf(in), "whether a key is published depends on its age or name")
			}
		})
	}
	for _, t := range []string{"*crypto/ecdsa.PublicKey", "crypto/ed25519.PublicKey", "*crypto/rsa.PublicKey"} {
		r.AssertAt(kinds[t], rule, "keys of type "+t, "-", "they are not published")
	}
	r.AssertAt(n > 0, rule, "published values", "-", "none found")
	r.Min(rule, 15)
}

func storesField(f *ssa.Function, fv *types.Var) bool {
	found := false
	instrs(f, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
				found = true
			}
		}
	})
	return found
}

// keysMade decides that what is stored of a new key is the key in use.
func keysMade(r *Report, p *Prog, k *tokenKeysInfo) {
	const rule = "key-pair"
	r.Rule(rule, "what is stored of a new key is the encoding, made without an error, of the key in use, and its creation time is now; a stored key is decoded into the entry it came from")
	n := 0
	for _, f := range p.Funcs {
		if !inPkg(f, tokenPkg) || inTestFile(p, f) || !storesField(f, k.priv) {
			continue
		}
		r.Analysed(f)
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) != k.priv {
				return
			}
			n++
			opts := FlowOpts{NoCallers: true, Base: true}
			po := p.Origins(st.Val, opts)
			// the other fields of the same entry
			var key, created ssa.Value
			instrs(f, func(in2 ssa.Instruction) {
				s2, ok := in2.(*ssa.Store)
				if !ok {
					return
				}
				fa2, ok := s2.Addr.(*ssa.FieldAddr)
				if !ok || fa2.X != fa.X {
					return
				}
				switch fieldVar(fa2.X.Type(), fa2.Field) {
				case k.key:
					key = s2.Val
				case k.created:
					created = s2.Val
				}
			})
			lbl := "key made in " + fnLabel(f)
			if _, isNew := fa.X.(*ssa.Alloc); !isNew {
				// decoded
				r.Assert(po.Fields[k.key] || len(po.Calls) == 0, rule, "key decoded in "+fnLabel(f), posOf(in), "it is not decoded from what is stored")
				same := true
				for ci := range po.CallIns {
					for _, a := range ci.Common().Args {
						if ld, ok := a.(*ssa.UnOp); ok {
							if fb, ok := ld.X.(*ssa.FieldAddr); ok && fieldVar(fb.X.Type(), fb.Field) == k.key {
								same = same && fb.X == fa.X
							}
						}
					}
				}
				r.Assert(same, rule, "key decoded in "+fnLabel(f), posOf(in), "it is decoded from another entry")
				return
			}
			if !r.Assert(key != nil, rule, lbl, posOf(in), "the key is not stored") {
				return
			}
			r.Assert(sameKey(p, st.Val, key, opts), rule, lbl, posOf(in), "what is stored is not the key in use")
			if created != nil {
				co := p.Origins(created, FlowOpts{Base: true})
				r.Assert(co.Calls["time.Now"] && !co.Calls["(time.Time).Add"], rule, lbl, posOf(in), "the creation time is not now")
			} else {
				r.Assert(false, rule, lbl, posOf(in), "it has no creation time")
			}
		})
	}
	r.AssertAt(n > 0, rule, "keys", "-", "none found")
	r.Min(rule, 6)
}

// sameKey: what is stored is made from the key in use.
func sameKey(p *Prog, priv, stored ssa.Value, opts FlowOpts) bool {
	a, ok1 := unIface(priv).(*ssa.Parameter)
	b, ok2 := unIface(stored).(*ssa.Parameter)
	if ok1 && ok2 {
		cs := p.idx.callers[a.Parent()]
		for _, ci := range cs {
			args := ci.Common().Args
			i, j := paramIndex(a), paramIndex(b)
			if i < 0 || j < 0 || i >= len(args) || j >= len(args) || !sameKey(p, args[i], args[j], opts) {
				return false
			}
		}
		return len(cs) > 0
	}
	po, ko := p.Origins(priv, opts), p.Origins(stored, opts)
	for ci := range po.CallIns {
		if ko.CallIns[ci] {
			return true
		}
	}
	for q := range po.Params {
		if ko.Params[q] {
			return true
		}
	}
	return false
}

// keysLoop decides that keys are rotated while the proxy runs.
func keysLoop(r *Report, p *Prog, k *tokenKeysInfo) {
	const rule = "loop"
	r.Rule(rule, "a goroutine that the proxy starts looks, at least every hour and until the end, at whether keys must be rotated")
	n := 0
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			fn := staticCallee(g)
			if fn == nil {
				fn = resolveFuncValue(g.Call.Value)
			}
			if fn == nil {
				return
			}
			fns := append([]*ssa.Function{fn}, staticCallees(fn)...)
			for _, h := range fns {
				if h == nil || !inPkg(h, tokenPkg) || h.Signature.Results().Len() != 0 {
					continue
				}
				rot, wait := false, int64(-1)
				var calls ssa.CallInstruction
				instrs(h, func(in2 ssa.Instruction) {
					ci, ok := in2.(ssa.CallInstruction)
					if !ok {
						return
					}
					if callee := staticCallee(ci); callee != nil && innermost(h, in2.Block()) != nil {
						for x := range p.reachable(callee) {
							rot = rot || storesField(x, k.keys)
						}
						if rot = rot || storesField(callee, k.keys); rot && calls == nil {
							calls = ci
						}
					}
					if oneOf(calleeName(ci), "time.After", "time.NewTicker", "time.Tick", "time.NewTimer", "time.Sleep") {
						if d, ok := ssaConstInt(ci.Common().Args[0]); ok {
							wait = d
						}
					}
				})
				if rot {
					n++
					r.Analysed(h)
					r.Assert(wait > 0 && wait <= hourNs, rule, "rotation in "+fnLabel(h), h.Pos(), "it waits too long: %d s", wait/1e9)
					end := pathAvoiding(calls, func(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok }, func(in ssa.Instruction) bool {
						switch x := in.(type) {
						case *ssa.Select:
							return true
						case *ssa.UnOp:
							return x.Op == token.ARROW
						}
						return false
					})
					r.Assert(end == nil, rule, "rotation in "+fnLabel(h), h.Pos(), "it ends before the proxy does")
				}
			}
		})
	}
	r.AssertAt(n > 0, rule, "rotation loop", "-", "nothing rotates the keys while the proxy runs")
}
