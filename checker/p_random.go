package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C31", Title: "Secrets and identifiers are unpredictable",
		Explain: "Every key under which login state is kept, every challenge, code, token, key ID and serial number comes whole from the system's random generator, whose error was tested; keys are generated from it.",
		Run:     runC31,
	})
}

func runC31(r *Report, p *Prog) {
	randReaders(r, p)
	randKeys(r, p)
	randSinks(r, p)
}

// randParam: the i-th argument of the call is a source of randomness.
func randParam(ci ssa.CallInstruction, i int) bool {
	com := ci.Common()
	sig := com.Signature()
	off := 0
	if !com.IsInvoke() && sig.Recv() != nil {
		off = 1
	}
	if i < off || i-off >= sig.Params().Len() {
		return false
	}
	q := sig.Params().At(i - off)
	return q.Type().String() == "io.Reader" && (q.Name() == "rand" || q.Name() == "random" || q.Name() == "randReader")
}

func isRandReader(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				return g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" && g.Name() == "Reader"
			}
		}
		return false
	}
}

// randReaders decides what functions get for randomness.
func randReaders(r *Report, p *Prog) {
	const rule = "reader"
	r.Rule(rule, "wherever a function of a library takes a source of randomness, to generate a key or to sign, it gets the system's (or nil, where that means the same)")
	n := 0
	for _, f := range p.Funcs {
		if !production(p, f) && !strings.HasSuffix(pkgPath(f), "/certmanager") && !strings.Contains(pkgPath(f), "clientwasm") || inTestFile(p, f) || isExampleFn(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for i, a := range ci.Common().Args {
				if !randParam(ci, i) {
					continue
				}
				o := p.Origins(a, FlowOpts{})
				bad := ""
				for g := range o.Globals {
					if g != "crypto/rand.Reader" {
						bad = g
					}
				}
				for c := range o.Calls {
					bad = c
				}
				for q := range o.Params {
					if inModule(q.Parent()) && len(p.idx.callers[q.Parent()]) == 0 {
						continue // an implementation of crypto.Signer passes on what it gets
					}
				}
				n++
				r.Analysed(f)
				r.Assert(bad == "" && (len(o.Globals) > 0 || len(o.Params) > 0), rule, "randomness of "+calleeText(ci)+" in "+fnLabel(f), posOf(in), "it comes from %s", bad)
			}
		})
	}
	r.Min(rule, 12)
}

// randKeys decides the sizes of generated keys.
func randKeys(r *Report, p *Prog) {
	const rule = "key-size"
	r.Rule(rule, "generated RSA keys have 2048 bits or more, random numbers a range of 2^63 or more")
	for _, ci := range p.prodSites(func(n string, ci ssa.CallInstruction) bool {
		return n == "crypto/rsa.GenerateKey" || n == "crypto/rand.Int" || strings.HasSuffix(n, "/tpm.WithRSA")
	}) {
		f := ci.Parent()
		if !production(p, f) && !strings.HasSuffix(pkgPath(f), "/certmanager") {
			continue
		}
		as := ci.Common().Args
		r.Analysed(f)
		if calleeName(ci) == "crypto/rand.Int" {
			if strings.HasSuffix(pkgPath(f), "/certmanager") {
				continue // certificates for tests
			}
			o := p.Origins(as[1], FlowOpts{Base: true})
			big := int64(0)
			lsh := o.Calls["(*math/big.Int).Lsh"] || o.Calls["(*math/big.Int).Exp"]
			for k := range o.Ints {
				if k > big {
					big = k
				}
			}
			ok := lsh && big >= 63 || !lsh && big >= 1<<62 || len(o.Ints) == 0
			r.Assert(ok, rule, "range of a random number in "+fnLabel(f), posOf(ci), "the range is too small: %v", big)
			continue
		}
		o := p.Origins(as[len(as)-1], FlowOpts{})
		ok := true
		for k := range o.Ints {
			ok = ok && (k >= 2048 || k == 0)
		}
		r.Assert(ok, rule, "RSA key in "+fnLabel(f), posOf(ci), "the key may have less than 2048 bits: %v", o.Ints)
	}
	r.Min(rule, 4)
}

// randCall: the call fills a buffer with, or returns, random bytes.
func randCall(ci ssa.CallInstruction) bool {
	switch calleeName(ci) {
	case "crypto/rand.Read", "crypto/rand.Int", "crypto/rand.Text", "crypto/rand.Prime":
		return true
	case "io.ReadFull", "io.ReadAtLeast", "(io.Reader).Read":
		as := ci.Common().Args
		if ci.Common().IsInvoke() {
			return isRandReader(ci.Common().Value)
		}
		return len(as) > 0 && isRandReader(as[0])
	}
	return false
}

// bufLen is the length of the buffer if it is a constant.
func bufLen(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.Slice:
		n, ok := bufLen(x.X)
		if x.High != nil {
			n, ok = ssaConstInt(x.High)
		}
		if x.Low != nil {
			l, ok2 := ssaConstInt(x.Low)
			return n - l, ok && ok2
		}
		return n, ok
	case *ssa.MakeSlice:
		return ssaConstInt(x.Len)
	case *ssa.Alloc:
		if a, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			return a.Len(), true
		}
	case *ssa.Convert:
		return bufLen(x.X)
	case *ssa.FieldAddr:
		if a, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			return a.Len(), true
		}
	}
	return 0, false
}

// bufRoot is what a slice was made of.
func bufRoot(t *Term) *Term {
	for t != nil {
		switch t.op {
		case "slice", "conv", "iface":
			t = t.args[0]
		default:
			return t
		}
	}
	return t
}

type randSink struct {
	what string
	min  int64
	in   ssa.Instruction
	v    ssa.Value
	or   func(t *Term) bool // what it may be instead
}

// randSinks decides what must be random.
func randSinks(r *Report, p *Prog) {
	const rule = "random"
	r.Rule(rule, "what guards login state, and what identifies a session, a challenge, a key or a certificate, contains all of at least 12 bytes (8 for serial numbers) just drawn from the system's random generator, without an error, and nothing else is named by the same bytes")
	idpPkg := func(f *ssa.Function) bool {
		pp := pkgPath(f)
		return strings.HasSuffix(pp, "/oidc") || strings.HasSuffix(pp, "/saml") || strings.HasSuffix(pp, "/passkeys")
	}
	stateMap := func(fv *types.Var) bool {
		m, ok := fv.Type().Underlying().(*types.Map)
		if !ok || !isStringType(m.Key()) {
			return false
		}
		st, ok := deref(m.Elem()).Underlying().(*types.Struct)
		if !ok {
			return m.Elem().String() == "time.Time"
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Type().String() == "time.Time" {
				return true
			}
		}
		return false
	}
	named := map[*types.Var]randSink{}
	field := func(pkg, typ, name string, min int64, or func(*Term) bool) {
		if fv := r.mustField(rule, pkg, typ, name); fv != nil {
			named[fv] = randSink{what: typ + "." + name, min: min, or: or}
		}
	}
	field("proxy/internal/oidc", "oauthState", "CodeVerifier", 12, nil)
	field("proxy/internal/oidc", "codeData", "accessToken", 12, nil)
	field("proxy/internal/passkeys", "AttestationOptions", "Challenge", 12, nil)
	field("proxy/internal/passkeys", "AssertionOptions", "Challenge", 12, nil)
	field("proxy/internal/tokenmanager", "tokenKey", "ID", 12, nil)
	handle := p.Field("proxy/internal/passkeys", "user", "Handle")
	if fv := p.extField("golang.org/x/crypto/ssh", "Certificate", "Serial"); fv != nil {
		named[fv] = randSink{what: "ssh.Certificate.Serial", min: 8}
	}
	if fv := p.extField("crypto/x509", "Certificate", "SerialNumber"); fv != nil {
		named[fv] = randSink{what: "x509.Certificate.SerialNumber", min: 8}
	}
	cookieVal := p.extField("net/http", "Cookie", "Value")
	sinksOf := map[*ssa.Function][]randSink{}
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		makesSID := false
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == p.extField("net/http", "Cookie", "Name") {
					s, _ := ssaConstString(st.Val)
					makesSID = makesSID || s == "TLSPROXYSID"
				}
			}
		})
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !idpPkg(f) {
					return
				}
				for fv := range p.Origins(x.Map, FlowOpts{NoCallers: true}).Fields {
					if stateMap(fv) {
						sinksOf[f] = append(sinksOf[f], randSink{what: "key of " + fv.Name(), min: 12, in: in, v: x.Key})
					}
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				s, ok := named[fv]
				if ok {
					s.in, s.v = in, x.Val
					sinksOf[f] = append(sinksOf[f], s)
				} else if fv == cookieVal && makesSID {
					sinksOf[f] = append(sinksOf[f], randSink{what: "session ID", min: 12, in: in, v: x.Val, or: isField(cookieVal)})
				} else if fv.Name() == "ID" && handle != nil && types.Identical(fv.Type(), handle.Type()) && strings.HasSuffix(pkgPath(f), "/passkeys") && fv.Pkg() == handle.Pkg() && typeHasField(fa.X.Type(), "DisplayName") {
					sinksOf[f] = append(sinksOf[f], randSink{what: "user handle", min: 12, in: in, v: x.Val, or: isField(handle)})
				}
			case ssa.CallInstruction:
				if strings.HasSuffix(calleeName(x), "/netw.NewQUIC") {
					as := x.Common().Args
					sinksOf[f] = append(sinksOf[f], randSink{what: "stateless reset key", min: 12, in: in, v: as[len(as)-1]})
				}
			}
		})
	}
	interesting := func(in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok && randCall(ci) {
			return true
		}
		for _, s := range sinksOf[in.Parent()] {
			if s.in == in {
				return true
			}
		}
		return false
	}
	n := 0
	done := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, depth int)
	walk = func(f *ssa.Function, depth int) {
		if done[f] {
			return
		}
		done[f] = true
		r.Analysed(f)
		type fail struct {
			sk   randSink
			c    string
			text string
			ok   bool
		}
		var res []fail
		lift := map[ssa.Instruction]bool{}
		sink := func(c *Ctx, in ssa.Instruction) {
			for _, s := range sinksOf[c.Fr.Fn] {
				if s.in != in {
					continue
				}
				t := c.V(s.v)
				ok, why := false, "it is not random"
				if s.or != nil && t.mentions(s.or) {
					ok = true
				}
				for _, ev := range c.St.Has("rand") {
					var of *Term
					t.mentions(func(x *Term) bool {
						if x == ev.Res || ev.Args[0] != nil && x == ev.Args[0] {
							of = x
						}
						return false
					})
					if of == nil && ev.Args[0] != nil {
						// loaded whole from the buffer
						if ld, isLd := unconv(s.v).(*ssa.UnOp); isLd && c.W.T.path(c.V(ld.X)) == ev.Args[0] {
							of = ev.Args[0]
						}
					}
					if of == nil {
						continue
					}
					if !okResult(c, ev) && ev.In != nil && !oneOf(calleeName(ev.In.(ssa.CallInstruction)), "crypto/rand.Read", "crypto/rand.Text") {
						why = "the random generator may have failed"
						continue
					}
					if k, _ := constInt(ev.Args[1]); k < s.min {
						why = "it has too few random bytes"
						continue
					}
					if t.mentions(func(x *Term) bool { return narrowed(x, of, s.min) }) {
						why = "only a part of the random bytes is used"
						continue
					}
					shared := false
					for _, o := range c.St.Has("refilled") {
						shared = shared || o.Args[0] == ev.Args[0] // told apart by their contents
					}
					used := c.St.Has("used")
					if shared {
						shared, used = false, nil
					}
					for _, o := range used {
						if o.In == ev.In && o.Res == ev.Res && o.Args[0] != c.W.T.str(s.what) && separate(s.what, strings.Trim(o.Args[0].s, "\"")) {
							shared, why = true, "the same random bytes are also "+o.Args[0].s
						}
					}
					if shared {
						continue
					}
					ok = true
					c.St.Event("used", ev.Res, []*Term{c.W.T.str(s.what)}, ev.In)
				}
				for _, ev := range c.St.Has("stored") {
					if ld, isLd := unconv(s.v).(*ssa.UnOp); isLd && c.W.T.path(c.V(ld.X)) == ev.Args[0] && okResult(c, ev) {
						ok = true
					}
				}
				if b := bufRoot(t); !ok && b.op == "alloc" && (t.op == "slice" || t == b) && why == "it is not random" {
					c.St.Event("pending", nil, []*Term{b, c.W.T.str(s.what)}, in) // to be filled where it is
					continue
				}
				if !ok && t.mentions(func(x *Term) bool { return x.op == "param" && x.v != nil && isParamOf(x, f) && plainValue(x.v.Type()) }) {
					lift[in] = true
				}
				res = append(res, fail{s, fnLabel(c.Fr.Fn), why + ": " + t.String() + ": " + c.Trace(in), ok})
			}
		}
		r.Walk(&Rule{
			Name: rule, KeepRes: true, Cap: 32, Interesting: interesting,
			NoInline: func(g *ssa.Function) bool { return isAnnotatedResult(g) },
			Keep: func(t *Term) bool {
				return t.op == "isnil" && t.mentions(func(x *Term) bool {
					return (x.op == "call" || x.op == "csym") && (strings.HasPrefix(x.s, "crypto/rand.") || x.s == "io.ReadFull" || strings.HasSuffix(x.s, ".ReadDataFile"))
				})
			},
			KeepPath: func(t *Term) bool {
				return t.mentions(func(x *Term) bool { return x.op == "field" && x.fv != nil && named[x.fv].what != "" })
			},
			OnCall: func(c *CallCtx) {
				sink(&c.Ctx, c.In.(ssa.Instruction))
				if randCall(c.In) {
					min := int64(1 << 30)
					var buf *Term
					if n := c.Name; n == "io.ReadFull" || n == "crypto/rand.Read" || n == "io.ReadAtLeast" || n == "(io.Reader).Read" {
						bi := map[string]int{"io.ReadFull": 1, "io.ReadAtLeast": 1}[n]
						if c.In.Common().IsInvoke() {
							bi = 1
						}
						buf = bufRoot(c.Args[bi])
						av := c.In.Common().Args
						if l, ok := bufLen(av[len(av)-1]); ok && n != "io.ReadAtLeast" {
							min = l
						} else if l, ok := bufLen(av[bi]); ok {
							min = l
						}
					}
					for _, ev := range c.St.Has("rand") {
						if buf != nil && ev.Args[0] == buf && ev.In != c.In.(ssa.Instruction) {
							c.St.Event("refilled", nil, []*Term{buf}, nil)
						}
					}
					c.St.Event("rand", c.Res, []*Term{buf, c.W.T.int(min)}, c.In.(ssa.Instruction))
				} else if strings.HasSuffix(c.Name, ".ReadDataFile") && len(c.Args) == 3 {
					c.St.Event("stored", c.Res, []*Term{bufRoot(c.Args[2])}, nil)
				}
			},
			OnInstr: sink,
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				for _, pe := range c.St.Has("pending") {
					ok := len(rets) > 0 && isErrorType(rets[len(rets)-1].typ) && c.St.Nil(rets[len(rets)-1]) == no
					for _, ev := range c.St.Has("rand") {
						if ev.Args[0] == pe.Args[0] && (okResult(c, ev) || calleeName(ev.In.(ssa.CallInstruction)) == "crypto/rand.Read") {
							k, _ := constInt(ev.Args[1])
							ok = ok || k >= 8
						}
					}
					what := strings.Trim(pe.Args[1].s, "\"")
					res = append(res, fail{randSink{what: what, in: pe.In}, fnLabel(pe.In.Parent()), "it is not random", ok})
				}
			},
		}, f, nil)
		lifted := false
		for _, x := range res {
			if lift[x.sk.in] && depth < 3 && len(p.idx.callers[f]) > 0 {
				lifted = true
				continue
			}
			n++
			r.Assert(x.ok, rule, x.sk.what+" in "+x.c, posOf(x.sk.in), "%s", x.text)
		}
		if lifted {
			for _, ci := range p.idx.callers[f] {
				if g := ci.Parent(); production(p, g) {
					walk(g, depth+1)
				}
			}
		}
	}
	var fs []*ssa.Function
	for f := range sinksOf {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnLabel(fs[i]) < fnLabel(fs[j]) })
	for _, f := range fs {
		walk(f, 0)
	}
	r.Min(rule, 16)
}

func isParamOf(t *Term, f *ssa.Function) bool {
	for _, q := range f.Params {
		if isParam(q)(t) {
			return true
		}
	}
	return false
}

// separate: the two must not be the same secret.
func separate(a, b string) bool {
	verifier := func(s string) bool { return strings.HasSuffix(s, "CodeVerifier") }
	token := func(s string) bool {
		return strings.HasSuffix(s, "accessToken") || strings.HasSuffix(s, "accessTokens")
	}
	key := func(s string) bool { return strings.HasPrefix(s, "key of ") }
	return verifier(a) != verifier(b) || key(a) && key(b) || token(a) != token(b)
}

// narrowed: the term takes a constant part, too short, of what contains the
// random bytes.
func narrowed(t, of *Term, min int64) bool {
	has := func(x *Term) bool { return x != nil && x.mentions(func(y *Term) bool { return y == of }) }
	switch t.op {
	case "index":
		return has(t.args[0])
	case "slice":
		if !has(t.args[0]) {
			return false
		}
		lo, hi := int64(0), int64(-1)
		if len(t.args) > 1 && t.args[1] != nil {
			lo, _ = constInt(t.args[1])
		}
		if len(t.args) > 2 && t.args[2] != nil {
			k, ok := constInt(t.args[2])
			if !ok {
				return false
			}
			hi = k
		}
		return hi >= 0 && hi-lo < min
	case "conv":
		b, ok := t.typ.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || !has(t.args[0]) {
			return false
		}
		switch b.Kind() {
		case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
			return true
		}
	case "call", "csym":
		switch t.s {
		case "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint16":
			for _, a := range t.args {
				if has(a) {
					return true
				}
			}
		}
	case "bin", "&", "%", "rem", "and":
		if strings.ContainsAny(t.s, "&%") {
			return has(t.args[0])
		}
	}
	return false
}

// typeHasField: the struct has a field of that name.
func typeHasField(t types.Type, name string) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// unconv strips conversions that keep the bytes.
func unconv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

// plainValue: a value of the type can be what must be random.
func plainValue(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Slice, *types.Array:
		return true
	case *types.Pointer:
		if u.Elem().String() == "math/big.Int" {
			return true
		}
		st, ok := u.Elem().Underlying().(*types.Struct)
		return ok && st.NumFields() <= 12
	case *types.Struct:
		return u.NumFields() <= 12
	}
	return false
}
