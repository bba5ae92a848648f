package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errTerm is the error (last) result of a recorded call event.
func errTerm(w *Walker, res *Term) *Term {
	if res == nil {
		return nil
	}
	if tt, ok := res.typ.(*types.Tuple); ok {
		return w.T.extract(res, tt.Len()-1, tt.At(tt.Len()-1).Type())
	}
	return res
}

// OKNil: an event with this label whose error result is known nil.
func (s *State) OKNil(label string) *Ev {
	for _, e := range s.Has(label) {
		if e.Status == yes || e.Status == unknown && s.Nil(errTerm(s.w, e.Res)) == yes {
			return e
		}
	}
	return nil
}

// Err: an event with this label whose error result is known non-nil.
func (s *State) Err(label string) *Ev {
	for _, e := range s.Has(label) {
		if e.Status == no || e.Status == unknown && s.Nil(errTerm(s.w, e.Res)) == no {
			return e
		}
	}
	return nil
}

// OKTrue: an event with this label whose boolean result is known true.
func (s *State) OKTrue(label string) *Ev {
	for _, e := range s.Has(label) {
		if e.Status == yes || e.Status == unknown && s.Bool(errTerm(s.w, e.Res)) == yes {
			return e
		}
	}
	return nil
}

func (s *State) OKFalse(label string) *Ev {
	for _, e := range s.Has(label) {
		if e.Status == no || e.Status == unknown && s.Bool(errTerm(s.w, e.Res)) == no {
			return e
		}
	}
	return nil
}

func isCall(in ssa.Instruction, names ...string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := calleeName(ci)
	if n == "" {
		return false
	}
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

func oneOf(s string, xs ...string) bool {
	for _, x := range xs {
		if s == x {
			return true
		}
	}
	return false
}

// pn gives the full name of a function of the proxy package.
func pn(name string) string { return qn("proxy", name) }

// qn("proxy/internal/pki", "(*PKIManager).IsRevoked") is its full name.
func qn(pkg, name string) string {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	if strings.HasPrefix(name, "(*") {
		return "(*" + path + "." + name[2:]
	}
	if strings.HasPrefix(name, "(") {
		return "(" + path + "." + name[1:]
	}
	return path + "." + name
}

// instrs calls f for every instruction of the function.
func instrs(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// allInstrs calls f for every instruction of fn and its closures.
func allInstrs(fn *ssa.Function, f func(ssa.Instruction)) {
	instrs(fn, f)
	for _, a := range fn.AnonFuncs {
		allInstrs(a, f)
	}
}

// funcsWhere lists the module functions for which pred holds, sorted.
func (p *Prog) funcsWhere(pred func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if pred(f) {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return fnLabel(out[i]) < fnLabel(out[j]) })
	return out
}

// has reports whether fn (not its closures) contains an instruction matching pred.
func has(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
	}
	return false
}

func hasDeep(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	if has(fn, pred) {
		return true
	}
	for _, a := range fn.AnonFuncs {
		if hasDeep(a, pred) {
			return true
		}
	}
	return false
}

// touchesField reports whether the instruction addresses the field.
func touchesField(in ssa.Instruction, fv *types.Var) bool {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		return fieldVar(in.X.Type(), in.Field) == fv
	case *ssa.Field:
		return fieldVar(in.X.Type(), in.Field) == fv
	}
	return false
}

// acceptHandlers finds the functions started with "go" for each connection
// that a listener's Accept returns.
func (p *Prog) acceptHandlers() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if !strings.HasSuffix(pkgPath(fn), "/proxy") {
			continue
		}
		accepts := has(fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := calleeName(ci)
			return strings.HasSuffix(n, ").Accept") || strings.HasSuffix(n, ".Listener.Accept")
		})
		if !accepts {
			continue
		}
		instrs(fn, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				f := staticCallee(g)
				if f != nil && f.Parent() != nil {
					f = connFunc(f)
				}
				if f != nil && inModule(f) && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		})
	}
	sort.Slice(out, func(i, j int) bool { return fnLabel(out[i]) < fnLabel(out[j]) })
	return out
}

// connFunc is the function that a goroutine's closure does nothing but call
// with a connection, or the closure itself.
func connFunc(f *ssa.Function) *ssa.Function {
	takesConn := func(g *ssa.Function) bool {
		for _, q := range g.Params {
			if isResource(q.Type()) {
				return true
			}
		}
		return false
	}
	if takesConn(f) {
		return f
	}
	var only *ssa.Function
	n := 0
	instrs(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			for _, a := range ci.Common().Args {
				if isResource(a.Type()) {
					n++
					only = staticCallee(ci)
					break
				}
			}
			if ci.Common().IsInvoke() && isResource(ci.Common().Value.Type()) {
				n = 2
			}
		}
	})
	if n == 1 && only != nil && inModule(only) {
		return only
	}
	return f
}

func pkgPath(fn *ssa.Function) string {
	fn = topFunc(fn)
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// mustFunc resolves an anchor by name, or by structural fingerprint when it
// was renamed; it reports an unresolved anchor as a finding.
func (r *Report) mustFunc(rule, pkg, name string, finger func(*ssa.Function) bool) *ssa.Function {
	if f := r.P.Func(pkg, name); f != nil {
		return f
	}
	if finger != nil {
		c := r.P.funcsWhere(func(f *ssa.Function) bool {
			return f.Parent() == nil && strings.HasSuffix(pkgPath(f), pkg) && finger(f)
		})
		if len(c) == 1 {
			return c[0]
		}
	}
	r.Missing(rule, pkg+"."+name)
	return nil
}

func (r *Report) mustField(rule, pkg, typ, field string) *types.Var {
	fv := r.P.Field(pkg, typ, field)
	if fv == nil {
		r.Missing(rule, pkg+"."+typ+"."+field)
	}
	return fv
}

func constString(t *Term) (string, bool) {
	if t != nil && t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func constInt(t *Term) (int64, bool) {
	if t != nil && t.op == "const" && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

// ssaConstString returns the constant string of an SSA value.
func ssaConstString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

// isChanOf reports a channel of the named element type.
func isChanOf(t types.Type, elem string) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && c.Elem().String() == elem
}

// mentionsField: the term mentions a load of the field.
func mentionsField(t *Term, fv *types.Var) bool {
	return t.mentions(func(x *Term) bool { return x.op == "field" && x.fv == fv })
}

// mentionsCall: the term mentions the result of a call to one of the functions.
func mentionsCall(t *Term, names ...string) bool {
	return t.mentions(func(x *Term) bool { return (x.op == "call" || x.op == "csym") && oneOf(x.s, names...) })
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func fieldNames(o *Orig) []string {
	var out []string
	for f := range o.Fields {
		out = append(out, f.Name())
	}
	sort.Strings(out)
	return out
}

// hasDeepCalls: fn, its closures or a module function it reaches contains a
// matching instruction.
func hasDeepCalls(p *Prog, fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	for f := range p.reachable(fn) {
		if has(f, pred) {
			return true
		}
	}
	return false
}

// isAppendOf: append(…, x) where x is computed from the call's result.
func isAppendOf(p *Prog, in ssa.Instruction, ci ssa.CallInstruction) bool {
	if st, ok := in.(*ssa.Store); ok {
		// s[i] = x
		if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
			if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice {
				return p.Origins(st.Val, FlowOpts{NoCallers: true}).CallIns[ci]
			}
		}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return false
	}
	return p.Origins(c.Call.Args[1], FlowOpts{NoCallers: true}).CallIns[ci]
}

// splitNil keeps paths apart on the nilness of a field: a branch on it leaves
// an event, which states must share to be merged.
func splitNil(c *Ctx, cond *Term, val bool, fvs ...*types.Var) {
	for cond.op == "not" {
		cond, val = cond.args[0], !val
	}
	if cond.op != "isnil" || cond.args[0].op != "field" {
		return
	}
	for _, fv := range fvs {
		if cond.args[0].fv == fv {
			c.St.Kill("nil:" + fv.Name())
			c.St.Kill("set:" + fv.Name())
			if val {
				c.St.Event("nil:"+fv.Name(), nil, nil, nil)
			} else {
				c.St.Event("set:"+fv.Name(), nil, nil, nil)
			}
		}
	}
}
