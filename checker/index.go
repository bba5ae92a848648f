package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// index holds whole-module lookup tables used by the rules.
type index struct {
	names     map[string]*ssa.Function
	callers   map[*ssa.Function][]ssa.CallInstruction // static call sites (incl. go/defer) of module functions
	extCalls  map[string][]ssa.CallInstruction        // call sites of non-module functions, by full name
	closures  map[*ssa.Function][]*ssa.MakeClosure    // creation sites of closures
	addrTaken map[*ssa.Function][]ssa.Instruction     // uses of a function as a value
	stores    map[*types.Var][]*ssa.Store             // stores through a FieldAddr of the field
	faddrs    map[*types.Var][]*ssa.FieldAddr         // all FieldAddr of the field
	fields    map[*types.Var][]*ssa.Field             // all Field extracts
	gstores   map[*ssa.Global][]*ssa.Store
	optional  map[*types.Var]bool
	reach     map[*ssa.Function]map[*ssa.Function]bool
}

func buildIndex(p *Prog) *index {
	ix := &index{
		callers:   map[*ssa.Function][]ssa.CallInstruction{},
		extCalls:  map[string][]ssa.CallInstruction{},
		closures:  map[*ssa.Function][]*ssa.MakeClosure{},
		addrTaken: map[*ssa.Function][]ssa.Instruction{},
		stores:    map[*types.Var][]*ssa.Store{},
		faddrs:    map[*types.Var][]*ssa.FieldAddr{},
		fields:    map[*types.Var][]*ssa.Field{},
		gstores:   map[*ssa.Global][]*ssa.Store{},
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := staticCallee(ci); f != nil {
						if !ci.Common().IsInvoke() {
							callee = ci.Common().Value
						}
						if inModule(f) {
							ix.callers[f] = append(ix.callers[f], ci)
						} else {
							n := funcName(f)
							ix.extCalls[n] = append(ix.extCalls[n], ci)
						}
					} else if ci.Common().IsInvoke() {
						n := funcObjName(ci.Common().Method)
						ix.extCalls[n] = append(ix.extCalls[n], ci)
					}
				}
				switch in := in.(type) {
				case *ssa.MakeClosure:
					f := in.Fn.(*ssa.Function)
					ix.closures[f] = append(ix.closures[f], in)
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						v := fieldVar(fa.X.Type(), fa.Field)
						ix.stores[v] = append(ix.stores[v], in)
					}
					if g, ok := in.Addr.(*ssa.Global); ok {
						ix.gstores[g] = append(ix.gstores[g], in)
					}
				case *ssa.FieldAddr:
					v := fieldVar(in.X.Type(), in.Field)
					ix.faddrs[v] = append(ix.faddrs[v], in)
				case *ssa.Field:
					v := fieldVar(in.X.Type(), in.Field)
					ix.fields[v] = append(ix.fields[v], in)
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						ix.addrTaken[f] = append(ix.addrTaken[f], in)
					}
				}
			}
		}
	}
	return ix
}

// staticCallee resolves direct calls, immediately-known closures and bound
// methods; nil when the callee is dynamic.
func staticCallee(ci ssa.CallInstruction) *ssa.Function {
	c := ci.Common()
	if c.IsInvoke() {
		return nil
	}
	return resolveFuncValue(c.Value)
}

func resolveFuncValue(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return resolveFuncValue(v.X)
	case *ssa.MakeInterface:
		return resolveFuncValue(v.X)
	}
	return nil
}

// fieldVar returns the types.Var of field i of the struct (or pointer to struct) t.
func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	v := st.Field(i)
	return v.Origin()
}

// funcName is a stable full name: "net/http.Redirect",
// "(*net/http/httputil.ReverseProxy).ServeHTTP".
func funcName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if obj, ok := f.Object().(*types.Func); ok && obj != nil {
		return funcObjName(obj)
	}
	return f.String()
}

func funcObjName(o *types.Func) string {
	return o.Origin().FullName()
}

// calleeName names the callee of a call: static full name, interface method
// full name, or "builtin.len", or "" for a dynamic call.
func calleeName(ci ssa.CallInstruction) string {
	c := ci.Common()
	if c.IsInvoke() {
		return funcObjName(c.Method)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := staticCallee(ci); f != nil {
		if strings.HasSuffix(f.Name(), "$bound") && f.Object() != nil {
			return funcObjName(f.Object().(*types.Func))
		}
		return funcName(f)
	}
	return ""
}

// Func finds a module function by package suffix and name: ("proxy",
// "(*Proxy).Start"), ("proxy", "New"). It returns nil if it does not exist.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	tp := p.Pkg(pkg)
	if tp == nil {
		return nil
	}
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		recv, m := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		obj := tp.Scope().Lookup(recv)
		if obj == nil {
			return nil
		}
		var t types.Type = obj.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := p.SSA.MethodSets.MethodSet(t).Lookup(tp, m)
		if sel == nil {
			return nil
		}
		return p.SSA.FuncValue(sel.Obj().(*types.Func))
	}
	obj, ok := tp.Scope().Lookup(name).(*types.Func)
	if !ok {
		return nil
	}
	return p.SSA.FuncValue(obj)
}

// Field finds a struct field: ("proxy", "Backend", "SSO"), nil if absent.
func (p *Prog) Field(pkg, typ, field string) *types.Var {
	tp := p.Pkg(pkg)
	if tp == nil {
		return nil
	}
	obj := tp.Scope().Lookup(typ)
	if obj == nil {
		return nil
	}
	st, ok := obj.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	return nil
}

// topFunc is the named function enclosing a closure.
func topFunc(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// fnLabel is a short human name.
func fnLabel(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	return strings.ReplaceAll(strings.ReplaceAll(s, modPath+"/", ""), modPath, "main")
}

// reachable returns the set of module functions reachable from fn through
// static calls, closure creation and functions used as values.
func (p *Prog) reachable(fn *ssa.Function) map[*ssa.Function]bool {
	if p.idx.reach == nil {
		p.idx.reach = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	if r, ok := p.idx.reach[fn]; ok {
		return r
	}
	r := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || r[f] || !inModule(f) {
			return
		}
		r[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	p.idx.reach[fn] = r
	return r
}

// callSites lists every call of a function by full name, in module code
// (module or external callee, or interface method).
func (p *Prog) callSites(name string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	out = append(out, p.idx.extCalls[name]...)
	for f, cs := range p.idx.callers {
		if funcName(f) == name {
			out = append(out, cs...)
		}
	}
	sortCalls(p, out)
	return out
}

func sortCalls(p *Prog, cs []ssa.CallInstruction) {
	sort.SliceStable(cs, func(i, j int) bool { return posLess(p, cs[i].Pos(), cs[j].Pos()) })
}

func posLess(p *Prog, a, b token.Pos) bool {
	x, y := p.Fset.Position(a), p.Fset.Position(b)
	if x.Filename != y.Filename {
		return x.Filename < y.Filename
	}
	return x.Offset < y.Offset
}

// extField finds a field of a type of any loaded package.
func (p *Prog) extField(pkg, typ, field string) *types.Var {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	return nil
}

// callSitesSuffix lists the calls whose callee name ends with one of the suffixes.
func (p *Prog) callSitesSuffix(suffixes ...string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				n := calleeName(ci)
				for _, s := range suffixes {
					if n != "" && strings.HasSuffix(n, s) {
						out = append(out, ci)
					}
				}
			}
		})
	}
	return out
}

func posOfCtx(c *Ctx) token.Pos {
	if c.Fr.Call != nil {
		return c.Fr.Call.Pos()
	}
	return c.Fr.Fn.Pos()
}

// byName finds a module function by its full name.
func (p *Prog) byName(name string) *ssa.Function {
	if p.idx.names == nil {
		p.idx.names = map[string]*ssa.Function{}
		for _, f := range p.Funcs {
			p.idx.names[funcName(f)] = f
		}
	}
	return p.idx.names[name]
}
