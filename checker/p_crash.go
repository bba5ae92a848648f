package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C26", Title: "No input crashes the proxy",
		Explain: "The functions that run on goroutines without a recover, including the callbacks of TLS and HTTP libraries, contain no operation that panics for some input; connection handlers recover.",
		Run:     runC26,
	})
}

func runC26(r *Report, p *Prog) {
	u := newUnprotected(p)
	crashRecovers(r, p)
	a := &crashAn{r: r, p: p, u: u, pre: map[*ssa.Function][]crashNeed{}, mayNilMemo: map[*ssa.Function]map[int]bool{}}
	a.run()
	crashTyped(r, p, u)
	crashChans(r, p, u)
	crashSends(r, p, u)
}

// crashRecovers decides that what serves a connection recovers from panics.
func crashRecovers(r *Report, p *Prog) {
	const rule = "recovers"
	r.Rule(rule, "the function that handles an accepted connection recovers, from its first statement on, from any panic, and closes the connection then")
	hs := p.acceptHandlers()
	for _, f := range hs {
		r.Analysed(f)
		r.Assert(recoversFirst(f), rule, "handler "+fnLabel(f), f.Pos(), "nothing recovers from a panic in the handler of an accepted connection")
	}
	r.Min(rule, map[string]int{"": 2}[p.Variant.Tags]+boolInt(p.Variant.Tags != ""))
}

// crashNeed: what a function needs of its arguments in order not to panic.
type crashNeed struct {
	param int
	chain []*types.Var // fields of it
	n     int          // minimum length; 0: not nil
	site  ssa.Instruction
	text  string
}

type crashAn struct {
	r          *Report
	p          *Prog
	u          *unprotected
	pre        map[*ssa.Function][]crashNeed
	mayNilMemo map[*ssa.Function]map[int]bool
	changed    bool
	final      bool
}

func (a *crashAn) add(f *ssa.Function, n crashNeed) {
	for _, o := range a.pre[f] {
		if o.param == n.param && len(o.chain) == len(n.chain) && o.n >= n.n && (o.n == 0) == (n.n == 0) {
			same := true
			for i := range o.chain {
				same = same && o.chain[i] == n.chain[i]
			}
			if same {
				return
			}
		}
	}
	a.pre[f] = append(a.pre[f], n)
	a.changed = true
}

func (a *crashAn) run() {
	const nilRule, idxRule, mapRule = "nil", "index", "nil-map"
	a.r.Rule(nilRule, "in functions that run without a recover: what a call returns with an error is used only if the error is nil, what may be nil (results of functions that return nil, decoded blocks, elements looked up in maps, optional settings) only after a test")
	a.r.Rule(idxRule, "in functions that run without a recover: an element or a part of a slice at a constant position is used only if the length was tested")
	a.r.Rule(mapRule, "in functions that run without a recover: maps that are written to were made")
	var fs []*ssa.Function
	for f := range a.u.why {
		if len(f.Blocks) > 0 && inModule(f) {
			fs = append(fs, f)
		}
	}
	for _, f := range a.p.Funcs {
		if a.u.why[f] == "" && inModule(f) && production(a.p, f) && a.decodes(f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fnLabel(fs[i]) < fnLabel(fs[j]) })
	todo := fs
	for round := 0; round < 4 && len(todo) > 0; round++ {
		redo := map[*ssa.Function]bool{}
		for _, f := range todo {
			a.changed = false
			a.walk(f)
			if a.changed {
				for _, ci := range a.p.idx.callers[f] {
					if g := ci.Parent(); a.u.why[g] != "" {
						redo[g] = true
					}
				}
			}
		}
		todo = todo[:0:0]
		for _, f := range fs {
			if redo[f] {
				todo = append(todo, f)
			}
		}
	}
	a.final = true
	for _, f := range fs {
		a.r.Analysed(f)
		a.walk(f)
	}
}

// mayNil: the i-th result of the function may be nil although the function
// reports neither an error nor false.
func (a *crashAn) mayNil(f *ssa.Function, i int) bool {
	m := a.mayNilMemo[f]
	if m == nil {
		m = map[int]bool{}
		a.mayNilMemo[f] = m
	}
	if b, ok := m[i]; ok {
		return b
	}
	m[i] = false
	if len(f.Blocks) == 0 {
		return false
	}
	rs := f.Signature.Results()
	last := rs.Len() - 1
	var isNil func(v ssa.Value, d int) bool
	isNil = func(v ssa.Value, d int) bool {
		if d > 3 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Phi:
			for _, e := range x.Edges {
				if isNil(e, d+1) {
					return true
				}
			}
		case *ssa.MakeInterface:
			return false
		case *ssa.Call:
			if g := staticCallee(x); g != nil && g.Signature.Results().Len() == 1 {
				return inModule(g) && a.mayNil(g, 0)
			}
		}
		return false
	}
	res := false
	instrs(f, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok || len(ret.Results) <= i {
			return
		}
		if !isNil(ret.Results[i], 0) || comparedToNil(ret.Results[i], in.Block()) {
			return
		}
		if last > i {
			l := ret.Results[last]
			if c, isConst := l.(*ssa.Const); isErrorType(l.Type()) && !(isConst && c.IsNil()) {
				return
			}
			if c, ok := l.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
				return
			}
		}
		res = true
	})
	m[i] = res
	return res
}

// comparedToNil: the block is only reached when the value is not nil.
func comparedToNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for ; b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || b.Preds[0] != d || d.Succs[0] == d.Succs[1] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.X != v && cmp.Y != v || !isNilConst(cmp.X) && !isNilConst(cmp.Y) {
			continue
		}
		if cmp.Op == token.NEQ && d.Succs[0] == b || cmp.Op == token.EQL && d.Succs[1] == b {
			return true
		}
	}
	return false
}

// nilLib are library functions that return nil and no error.
var nilLib = map[string]bool{
	"encoding/pem.Decode": true, "net.ParseIP": true, "net/http.(*Request).TLS": true,
	"(*github.com/beevik/etree.Document).Root": true, "(*github.com/beevik/etree.Element).SelectElement": true,
	"(*github.com/beevik/etree.Element).FindElement": true, "(*github.com/beevik/etree.Element).SelectAttr": true, "(*github.com/beevik/etree.Document).FindElement": true,
	"runtime.FuncForPC": true, "reflect.TypeOf": true, "(context.Context).Err": true, "flag.Lookup": true,
}

// decodes: the function parses text that may not be what it should be, and
// is analysed even if something recovers.
func (a *crashAn) decodes(f *ssa.Function) bool {
	found := false
	instrs(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci) == "encoding/pem.Decode" {
			found = true
		}
	})
	return found
}

// optional: the pointer field is a setting that may be absent.
func (a *crashAn) optional(fv *types.Var) bool {
	if fv.Pkg() == nil || !strings.HasPrefix(fv.Pkg().Path(), modPath) || !fv.Exported() {
		return false
	}
	if _, ok := fv.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	tag, ok := a.p.yamlOptional()[fv]
	return ok && tag
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (a *crashAn) walk(f *ssa.Function) {
	const nilRule, idxRule, mapRule = "nil", "index", "nil-map"
	p := a.p
	lbl := fnLabel(f)
	root := len(p.idx.callers[f]) == 0 || f.Parent() != nil
	calls := map[*Term]ssa.CallInstruction{}
	report := func(ok bool, rule, construct string, in ssa.Instruction, text string, args ...any) {
		if a.final {
			a.r.Assert(ok, rule, construct+" in "+lbl, posOf(in), text, args...)
		}
	}
	// chain: the term is a parameter, or a field of one
	chain := func(t *Term) (int, []*types.Var, bool) {
		var fs []*types.Var
		for t != nil {
			for i, q := range f.Params {
				if isParam(q)(t) {
					for l, r := 0, len(fs)-1; l < r; l, r = l+1, r-1 {
						fs[l], fs[r] = fs[r], fs[l]
					}
					return i, fs, true
				}
			}
			switch {
			case t.op == "field" && t.fv != nil:
				fs = append(fs, t.fv)
				t = t.args[0]
			case t.op == "deref" || t.op == "load":
				t = t.args[0]
			default:
				return 0, nil, false
			}
			if len(fs) > 3 {
				return 0, nil, false
			}
		}
		return 0, nil, false
	}
	// deref: the term must not be nil here
	deref := func(c *Ctx, t *Term, in ssa.Instruction, what string) {
		if t == nil || c.St.Nil(t) == no {
			return
		}
		base := t
		for base.op == "conv" || base.op == "iface" || base.op == "changeiface" {
			base = base.args[0]
		}
		if base.op == "nil" {
			report(false, nilRule, what, in, "nil is used: %s", c.Trace(in))
			return
		}
		if c.St.Nil(base) == no {
			return
		}
		if call := calls[base]; call != nil && call.Common().Signature().Results().Len() == 1 {
			g := staticCallee(call)
			if g != nil && (inModule(g) && a.mayNil(g, 0) || nilLib[calleeName(call)]) {
				report(false, nilRule, what+" of "+calleeText(call), in, "the result may be nil: %s", c.Trace(in))
			}
			return
		}
		if base.op == "extract" {
			call := calls[base.args[0]]
			if call == nil {
				return
			}
			idx, _ := strconv.Atoi(base.s)
			rs := call.Common().Signature().Results()
			last := rs.At(rs.Len() - 1).Type()
			g := staticCallee(call)
			may := g != nil && inModule(g) && a.mayNil(g, idx) || idx == 0 && nilLib[calleeName(call)]
			if idx < rs.Len()-1 && isErrorType(last) {
				e := c.W.T.extract(base.args[0], rs.Len()-1, last)
				report(c.St.Nil(e) == yes && !may, nilRule, what+" of "+calleeText(call), in, "the result is used although the call may have failed: %s", c.Trace(in))
				return
			}
			if may {
				report(false, nilRule, what+" of "+calleeText(call), in, "the result may be nil: %s", c.Trace(in))
			}
			return
		}
		if base.op == "lookupv" && nilable(base.typ) && base.args[0].op == "field" {
			ok := c.W.T.mk(&Term{op: "lookupok", args: base.args, typ: types.Typ[types.Bool]})
			report(c.St.Bool(ok) == yes, nilRule, what+" of an element", in, "the element may be missing from the map: %s", c.Trace(in))
			return
		}
		if i, fs, isChain := chain(base); isChain && !a.final {
			if len(fs) == 0 || a.optional(fs[len(fs)-1]) {
				a.add(f, crashNeed{param: i, chain: fs, site: in, text: what})
			}
			return
		}
		if base.op == "field" && base.fv != nil && a.optional(base.fv) {
			if _, _, isChain := chain(base); !isChain || root {
				report(false, nilRule, what+" of setting "+base.fv.Name(), in, "the setting may be absent: %s", c.Trace(in))
			}
		}
	}
	atLeast := func(c *Ctx, t *Term, n int) bool {
		if n <= 0 {
			return true
		}
		l := c.W.T.mk(&Term{op: "call", s: "builtin.len", args: []*Term{t}, typ: types.Typ[types.Int]})
		if k, ok := constInt(l); ok {
			return k >= int64(n)
		}
		T := c.W.T
		if c.St.Eq(l, T.int(0)) == no && n == 1 {
			return true
		}
		for k := int64(0); k <= int64(n)+70; k++ {
			if k >= int64(n) && (c.St.Eq(l, T.int(k)) == yes || c.St.Bool(T.lt(l, T.int(k))) == no) {
				return true
			}
			if k >= int64(n)-1 && c.St.Bool(T.lt(T.int(k), l)) == yes {
				return true
			}
		}
		if tls := "crypto/tls"; n == 1 && t.op == "field" && t.fv != nil && t.fv == p.extField(tls, "ConnectionState", "PeerCertificates") {
			// chains are verified of the certificates that there are
			vc := c.W.T.mk(&Term{op: "call", s: "builtin.len", args: []*Term{structField(c, t.args[0], p.extField(tls, "ConnectionState", "VerifiedChains"))}, typ: types.Typ[types.Int]})
			if c.St.Eq(vc, T.int(0)) == no || c.St.Bool(T.lt(T.int(0), vc)) == yes {
				return true
			}
		}
		// not 0, not 1, ...
		for k := int64(0); k < int64(n); k++ {
			if c.St.Eq(l, T.int(k)) != no {
				return false
			}
		}
		return true
	}
	length := func(c *Ctx, t *Term, n int, in ssa.Instruction, what string) {
		if n <= 0 || atLeast(c, t, n) {
			report(true, idxRule, what, in, "")
			return
		}
		if n == 1 && t.op == "field" && t.fv != nil && t.fv == p.extField("crypto/tls", "Certificate", "Certificate") {
			return // a certificate that was loaded has one
		}
		if t.op == "call" || t.op == "csym" {
			if t.s == "builtin.append" {
				return // what this function put together itself
			}
			if n == 1 && oneOf(t.s, "strings.Split", "strings.SplitN", "bytes.Split", "os.Args") {
				report(true, idxRule, what, in, "")
				return
			}
		}
		if i, fs, ok := chain(t); ok && !root {
			if !a.final {
				a.add(f, crashNeed{param: i, chain: fs, n: n, site: in, text: what})
			}
			return
		}
		report(false, idxRule, what, in, "the length of %s may be less than %d: %s", t, n, c.Trace(in))
	}
	a.r.Walk(&Rule{
		Name: nilRule, InlineAll: true, Cap: 32, KeepRes: true, MaxDepth: 3,
		NoInline: func(g *ssa.Function) bool {
			return !isBoolResult(g) || len(g.Blocks) > 12 || isAnnotatedResult(g)
		},
		KeepPath: func(t *Term) bool {
			if t.op != "field" || t.fv == nil {
				return false
			}
			_, isMap := t.fv.Type().Underlying().(*types.Map)
			return isMap
		},
		Keep: func(t *Term) bool {
			return t.op == "isnil" || t.op == "lookupok" || t.mentions(isLen)
		},
		OnCall: func(c *CallCtx) {
			if c.Fr.Fn != f {
				return
			}
			if c.Res != nil {
				calls[c.Res] = c.In
			}
			com := c.In.Common()
			switch {
			case com.IsInvoke():
				if len(c.Args) > 0 {
					deref(&c.Ctx, c.Args[0], c.In, "method "+com.Method.Name())
				}
			case c.Fn != nil && inModule(c.Fn):
				for _, n := range a.pre[c.Fn] {
					if n.param >= len(c.Args) || c.Args[n.param] == nil {
						continue
					}
					x := c.Args[n.param]
					for _, fv := range n.chain {
						x = structField(&c.Ctx, x, fv)
					}
					at := fmt.Sprintf("%s at %s, in %s called", n.text, p.Pos(posOf(n.site)), fnLabel(c.Fn))
					if n.n > 0 {
						length(&c.Ctx, x, n.n, c.In, at)
					} else {
						deref(&c.Ctx, x, c.In, at)
					}
				}
			case c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0:
				if _, ok := c.Fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
					deref(&c.Ctx, c.Args[0], c.In, "method "+c.Fn.Name())
				}
			case c.Fn == nil && com.Value != nil && c.CT != nil && c.Name == "":
				deref(&c.Ctx, c.CT, c.In, "call")
			}
		},
		OnInstr: func(c *Ctx, in ssa.Instruction) {
			if c.Fr.Fn != f {
				return
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if directPtr(x.X) {
					deref(c, c.V(x.X), in, "field "+fieldVar(x.X.Type(), x.Field).Name())
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && directPtr(x.X) {
					deref(c, c.V(x.X), in, "value")
				}
			case *ssa.IndexAddr:
				if k, ok := ssaConstInt(x.Index); ok && isSlice(x.X.Type()) && !boundedIndex(x, x.X, x.Index) {
					length(c, c.V(x.X), int(k)+1, in, "element")
				}
			case *ssa.Slice:
				if isSlice(x.X.Type()) || isStringType(x.X.Type()) {
					n := int64(0)
					for _, b := range []ssa.Value{x.Low, x.High} {
						if b != nil {
							if k, ok := ssaConstInt(b); ok && k > n {
								n = k
							}
						}
					}
					if n > 0 {
						length(c, c.V(x.X), int(n), in, "part")
					}
				}
			case *ssa.MapUpdate:
				t := c.V(x.Map)
				if c.St.Nil(t) == no {
					report(true, mapRule, "map", in, "")
					return
				}
				if t.op == "field" && t.fv != nil {
					report(p.madeByAll(t.fv), mapRule, "map "+t.fv.Name(), in, "the map may not have been made: %s", c.Trace(in))
				}
			}
		},
	}, f, nil)
}

// directPtr: the pointer is not the address of something just computed.
func directPtr(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
		return false
	}
	return true
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// madeByAll: every place that makes a struct with the field makes the map.
func (p *Prog) madeByAll(fv *types.Var) bool {
	makes := map[*ssa.Function]bool{}
	for _, s := range p.storesTo(fv) {
		if _, ok := s.Val.(*ssa.MakeMap); ok {
			makes[topFunc(s.Parent())] = true
		}
	}
	ok := len(makes) > 0
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			a, isA := in.(*ssa.Alloc)
			if !isA {
				return
			}
			if st, isS := deref(a.Type()).Underlying().(*types.Struct); isS {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i) == fv && !makes[topFunc(f)] {
						ok = false
					}
				}
			}
		})
	}
	return ok
}

// yamlOptional are the pointer fields of configuration structs that a
// configuration may leave out and that nothing fills in.
func (p *Prog) yamlOptional() map[*types.Var]bool {
	if p.idx.optional != nil {
		return p.idx.optional
	}
	out := map[*types.Var]bool{}
	for _, pk := range p.SPkgs {
		if pk == nil || !strings.HasSuffix(pk.Pkg.Path(), "/proxy") {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				fv := st.Field(i)
				if _, ok := fv.Type().Underlying().(*types.Pointer); ok && strings.Contains(st.Tag(i), "yaml:") {
					out[fv] = len(p.storesTo(fv)) == 0
				}
			}
		}
	}
	p.idx.optional = out
	return out
}

// crashTyped decides the types of annotations.
func crashTyped(r *Report, p *Prog, u *unprotected) {
	const rule = "typed"
	r.Rule(rule, "an annotation of a connection is asserted, unconditionally, to have only the type that every value set under its key has, and so has the default")
	vals := map[string][]ssa.CallInstruction{}
	for _, ci := range p.prodSites(func(n string, ci ssa.CallInstruction) bool { return strings.HasSuffix(n, ".SetAnnotation") }) {
		if inTest(p, ci) {
			continue
		}
		as := ci.Common().Args
		if len(as) >= 2 {
			if k, ok := ssaConstString(as[len(as)-2]); ok {
				vals[k] = append(vals[k], ci)
			}
		}
	}
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			x, ok := in.(*ssa.TypeAssert)
			if !ok || x.CommaOk {
				return
			}
			ci, ok := x.X.(*ssa.Call)
			if !ok || !strings.HasSuffix(calleeName(ci), ".Annotation") {
				return
			}
			as := ci.Common().Args
			key, ok := ssaConstString(as[len(as)-2])
			if !ok {
				return
			}
			r.Analysed(f)
			same := func(v ssa.Value) bool {
				if c, isC := v.(*ssa.Const); isC && c.IsNil() {
					return false
				}
				t := unIface(v).Type()
				return types.Identical(t, x.AssertedType) || types.IsInterface(x.AssertedType) && types.AssignableTo(t, x.AssertedType)
			}
			bad := ""
			if !same(as[len(as)-1]) {
				bad = "the default"
			}
			for _, s := range vals[key] {
				sa := s.Common().Args
				if !same(sa[len(sa)-1]) {
					bad = "the value set at " + p.Pos(s.Pos())
				}
			}
			r.Assert(bad == "", rule, "annotation "+key+" in "+fnLabel(f), posOf(in), "%s is not of type %s", bad, x.AssertedType)
		})
	}
	r.Min(rule, 8)
}

// crashChans decides that channels are closed once.
func crashChans(r *Report, p *Prog, u *unprotected) {
	const rule = "close-once"
	r.Rule(rule, "a channel that is kept in a field is closed only under a condition on another field, which is false from then on, under the same lock; a local channel is closed in one place that is not in a loop")
	n := 0
	closesIn := func(f *ssa.Function) (closes []ssa.CallInstruction) {
		instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && isBuiltin(ci, "close") {
				closes = append(closes, ci)
			}
		})
		return
	}
	// helper: the function only ever runs as part of those that call it
	helper := func(f *ssa.Function) bool {
		if token.IsExported(f.Name()) || f.Parent() != nil || len(p.idx.callers[f]) == 0 || len(p.idx.addrTaken[f]) > 0 {
			return false
		}
		for _, ci := range p.idx.callers[f] {
			if _, ok := ci.(*ssa.Call); !ok || staticCallee(ci) != f {
				return false
			}
		}
		return len(f.Blocks) <= 3
	}
	roots := map[*ssa.Function]bool{}
	var lift func(f *ssa.Function, d int)
	lift = func(f *ssa.Function, d int) {
		if d > 3 || !helper(f) {
			roots[f] = true
			return
		}
		for _, ci := range p.idx.callers[f] {
			lift(ci.Parent(), d+1)
		}
	}
	for _, f := range p.Funcs {
		if production(p, f) && len(closesIn(f)) > 0 {
			n++
			lift(f, 0)
		}
	}
	for _, f := range p.Funcs {
		if !roots[f] {
			continue
		}
		r.Analysed(f)
		lbl := fnLabel(f)
		r.Walk(&Rule{
			Name: rule, InlineAll: true, Cap: 32, KeepPath: func(*Term) bool { return true },
			NoInline: func(g *ssa.Function) bool {
				return !helper(g) && (!isBoolResult(g) || len(g.Blocks) > 12)
			},
			Keep: func(t *Term) bool { return t.mentions(func(x *Term) bool { return x.op == "field" }) },
			OnCall: func(c *CallCtx) {
				if !isBuiltin(c.In, "close") || len(c.Args) == 0 {
					return
				}
				t := c.Args[0]
				if t.op != "field" {
					inLoop := innermost(c.Fr.Fn, c.In.Block()) != nil
					r.Assert(!inLoop && len(c.St.Has("closed")) == 0, rule, "close in "+lbl, posOf(c.In), "the channel may be closed again")
					c.St.Event("closed", nil, []*Term{t}, nil)
					return
				}
				var guards []*Term
				for k, v := range c.St.facts {
					if k.op == "isnil" && !v && k.args[0].op == "field" && k.args[0].fv != t.fv {
						guards = append(guards, k.args[0])
					} else if k.op == "field" && !v && k.fv != t.fv {
						guards = append(guards, k)
					}
				}
				sort.Slice(guards, func(i, j int) bool { return guards[i].id < guards[j].id })
				r.Assert(len(guards) > 0, rule, "close in "+lbl, posOf(c.In), "the channel is closed unconditionally: %s", c.Trace(c.In))
				c.St.Event("closed", nil, append([]*Term{t}, guards...), nil)
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				evs := c.St.Has("closed")
				r.Assert(len(evs) <= 1, rule, "return of "+lbl, posOf(in), "two channels may be closed, or one twice")
				for _, ev := range evs {
					if len(ev.Args) < 2 {
						continue
					}
					done := false
					for _, g := range ev.Args[1:] {
						v := c.St.Load(g, g.typ)
						if c.St.Nil(v) == yes || v == c.W.T.trueT || c.St.Bool(v) == yes {
							done = true
						}
					}
					r.Assert(done, rule, "return of "+lbl, posOf(in), "the condition under which the channel was closed still holds, so it may be closed again: %s", c.Trace(in))
				}
			},
		}, f, nil)
	}
	r.AssertAt(n > 0, rule, "closed channels", "-", "none found")
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// crashSends decides that what sends on a channel that another goroutine may
// close recovers.
func crashSends(r *Report, p *Prog, u *unprotected) {
	const rule = "send"
	r.Rule(rule, "what sends on a channel that is kept in a field and that is closed somewhere runs where something recovers")
	closed := map[*types.Var]bool{}
	fieldsOf := func(v ssa.Value) map[*types.Var]bool {
		return p.Origins(v, FlowOpts{NoCallers: true}).Fields
	}
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok && isBuiltin(ci, "close") {
				for fv := range fieldsOf(ci.Common().Args[0]) {
					closed[fv] = true
				}
			}
		})
	}
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			x, ok := in.(*ssa.Send)
			if !ok {
				return
			}
			for fv := range fieldsOf(x.Chan) {
				if _, isChan := fv.Type().Underlying().(*types.Chan); isChan && closed[fv] {
					r.Analysed(f)
					r.Assert(u.why[f] == "", rule, "send on "+fv.Name()+" in "+fnLabel(f), posOf(in), "the channel may be closed meanwhile, and nothing recovers in %s", u.why[f])
				}
			}
		})
	}
	r.Min(rule, map[string]int{"": 2}[p.Variant.Tags]+boolInt(p.Variant.Tags != ""))
}

// boundedIndex: a dominating condition says that the index is less than the
// length of what is indexed, as in the loops of range statements.
func boundedIndex(in ssa.Instruction, x, idx ssa.Value) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			return false
		}
		cond, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] != b || len(b.Preds) != 1 {
			continue
		}
		if op, ok := cond.Cond.(*ssa.BinOp); ok && op.Op == token.LSS && op.X == idx {
			if l, ok := op.Y.(*ssa.Call); ok && isBuiltin(l, "len") && l.Call.Args[0] == x {
				return true
			}
		}
	}
	return false
}

// unprotected are the functions that may run on a goroutine where nothing
// recovers from a panic.
type unprotected struct {
	p   *Prog
	why map[*ssa.Function]string
}

// recoversFirst: the function defers, before anything that can panic, a
// function that recovers.
func recoversFirst(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Defer:
			g := staticCallee(x)
			if g == nil {
				g = resolveFuncValue(x.Call.Value)
			}
			if g != nil && callsRecover(g) {
				return true
			}
		case *ssa.IndexAddr, *ssa.Slice, *ssa.Panic, *ssa.TypeAssert, *ssa.Go:
			return false
		}
	}
	return false
}

// callsRecover: the function calls recover on every path, and doesn't panic.
func callsRecover(g *ssa.Function) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			return false
		}
	}
	for _, in := range g.Blocks[0].Instrs {
		if ci, ok := in.(ssa.CallInstruction); ok && isBuiltin(ci, "recover") {
			return true
		}
	}
	return false
}

// production: the function belongs to the proxy, not to a test, an example, a
// testing helper or another program.
func production(p *Prog, f *ssa.Function) bool {
	if inTestFile(p, f) || isExampleFn(f) || isExample(f) {
		return false
	}
	pp := pkgPath(f)
	return !strings.HasSuffix(pp, "/tlsclient") && !strings.Contains(pp, "clientwasm") && !strings.HasSuffix(pp, "/certmanager") && !strings.HasSuffix(p.Fset.Position(topFunc(f).Pos()).Filename, "testutils.go")
}

func newUnprotected(p *Prog) *unprotected {
	u := &unprotected{p: p, why: map[*ssa.Function]string{}}
	impls := map[string][]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil && production(p, f) {
			impls[f.Name()] = append(impls[f.Name()], f)
		}
	}
	var visit func(f *ssa.Function, why string)
	edge := func(v ssa.Value, why string) {
		for _, g := range funcsOf(v) {
			if g != nil {
				visit(g, why)
			}
		}
	}
	isHandler := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		return ok && s.Params().Len() == 2 && s.Params().At(0).Type().String() == "net/http.ResponseWriter"
	}
	call := func(ci ssa.CallInstruction, why string) {
		com := ci.Common()
		if com.IsInvoke() {
			for _, g := range impls[com.Method.Name()] {
				if it, ok := com.Value.Type().Underlying().(*types.Interface); ok && types.Implements(g.Signature.Recv().Type(), it) && !isHandlerSigMethod(g) {
					visit(g, why)
				}
			}
		} else if g := staticCallee(ci); g != nil {
			visit(g, why)
		} else {
			for g := range p.Origins(com.Value, FlowOpts{}).Funcs {
				visit(g, why)
			}
		}
		for _, a := range com.Args {
			if _, ok := a.Type().Underlying().(*types.Signature); ok && !isHandler(a.Type()) {
				edge(a, why)
			}
		}
	}
	visit = func(f *ssa.Function, why string) {
		if f == nil || u.why[f] != "" || len(f.Blocks) == 0 || !production(p, f) && f.Synthetic == "" || recoversFirst(f) {
			return
		}
		if !inModule(f) && f.Synthetic == "" {
			return
		}
		u.why[f] = why
		instrs(f, func(in ssa.Instruction) {
			if _, isGo := in.(*ssa.Go); isGo {
				return
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				call(ci, fnLabel(f))
			}
		})
	}
	for _, f := range p.Funcs {
		if !production(p, f) {
			continue
		}
		if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
			continue // the program's start, and the loading of its configuration
		}
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Go:
				call(x, "goroutine of "+fnLabel(f))
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					break
				}
				if _, ok := x.Val.Type().Underlying().(*types.Signature); !ok || isHandler(x.Val.Type()) {
					break
				}
				if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil && fv.Pkg() != nil && !strings.HasPrefix(fv.Pkg().Path(), modPath) && fv.Pkg().Path() != "net/http/httputil" {
					edge(x.Val, "callback "+fv.Pkg().Name()+"."+fv.Name())
				}
			}
		})
	}
	return u
}
