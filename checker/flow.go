package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Orig is the set of things a value is computed from (backward data
// dependence, interprocedural and field-insensitive below loads of fields).
type Orig struct {
	Fields  map[*types.Var]bool
	Calls   map[string]bool
	CallIns map[ssa.CallInstruction]bool
	Strs    map[string]bool
	Ints    map[int64]bool
	Params  map[*ssa.Parameter]bool
	Globals map[string]bool
	Funcs   map[*ssa.Function]bool
	Maps    map[string]bool // constant keys of map lookups
	vals    map[origKey]bool
}

// FlowOpts tunes Origins.
type FlowOpts struct {
	StopCall  func(name string) bool // do not look through the arguments of this call
	NoCallers bool                   // do not follow parameters to callers
	Fields    bool                   // follow field loads to all stores of the field
	Base      bool                   // also follow the object a field is loaded from
}

func newOrig() *Orig {
	return &Orig{Fields: map[*types.Var]bool{}, Calls: map[string]bool{}, CallIns: map[ssa.CallInstruction]bool{}, Strs: map[string]bool{}, Ints: map[int64]bool{}, Params: map[*ssa.Parameter]bool{}, Globals: map[string]bool{}, Funcs: map[*ssa.Function]bool{}, Maps: map[string]bool{}, vals: map[origKey]bool{}}
}

type origKey struct {
	v   ssa.Value
	ctx string
	idx int
}

// cstack is the chain of calls through which the backward walk descended
// into callees; a parameter resolves to the innermost call's argument.
type cstack struct {
	call   ssa.CallInstruction
	fn     *ssa.Function
	parent *cstack
	depth  int
	key    string
}

func (c *cstack) push(ci ssa.CallInstruction, fn *ssa.Function) *cstack {
	d, k := 1, ""
	if c != nil {
		d, k = c.depth+1, c.key
	}
	return &cstack{ci, fn, c, d, fmt.Sprintf("%s/%p", k, ci)}
}

func (c *cstack) has(fn *ssa.Function) bool {
	for ; c != nil; c = c.parent {
		if c.fn == fn {
			return true
		}
	}
	return false
}

// Origins computes the backward data dependence of v.
func (p *Prog) Origins(v ssa.Value, o FlowOpts) *Orig {
	r := newOrig()
	p.origins(v, -1, o, r, nil, 0)
	return r
}

// OriginsAt is Origins for several values.
func (p *Prog) OriginsAll(vs []ssa.Value, o FlowOpts) *Orig {
	r := newOrig()
	for _, v := range vs {
		p.origins(v, -1, o, r, nil, 0)
	}
	return r
}

func (p *Prog) origins(v ssa.Value, idx int, o FlowOpts, r *Orig, cs *cstack, depth int) {
	if v == nil || depth > 600 {
		return
	}
	ck := ""
	if cs != nil {
		ck = cs.key
	}
	k := origKey{v, ck, idx}
	if r.vals[k] {
		return
	}
	r.vals[k] = true
	rec := func(x ssa.Value) { p.origins(x, -1, o, r, cs, depth+1) }
	field := func(fv *types.Var) {
		r.Fields[fv] = true
		if o.Fields {
			for _, s := range p.idx.stores[fv] {
				p.origins(s.Val, -1, o, r, nil, depth+1)
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			switch x.Value.Kind() {
			case constant.String:
				r.Strs[constant.StringVal(x.Value)] = true
			case constant.Int:
				if i, ok := constant.Int64Val(x.Value); ok {
					r.Ints[i] = true
				}
			}
		}
	case *ssa.Global:
		r.Globals[x.String()] = true
	case *ssa.Function:
		r.Funcs[x] = true
	case *ssa.Parameter:
		fn := x.Parent()
		pi := -1
		for i, q := range fn.Params {
			if q == x {
				pi = i
			}
		}
		if cs != nil && cs.fn == fn {
			if a := cs.call.Common().Args; pi < len(a) {
				p.origins(a[pi], -1, o, r, cs.parent, depth+1)
			}
			return
		}
		if o.NoCallers {
			r.Params[x] = true
			return
		}
		callers := p.idx.callers[fn]
		if len(callers) == 0 || len(p.idx.addrTaken[fn]) > 0 {
			r.Params[x] = true
		}
		for _, c := range callers {
			if a := c.Common().Args; pi < len(a) {
				p.origins(a[pi], -1, o, r, nil, depth+1)
			}
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv == x {
				for _, mc := range p.idx.closures[fn] {
					rec(mc.Bindings[i])
				}
			}
		}
	case *ssa.Alloc:
		p.cellOrigins(x, rec, map[ssa.Value]bool{})
	case *ssa.FieldAddr:
		field(fieldVar(x.X.Type(), x.Field))
		if al, ok := x.X.(*ssa.Alloc); ok && onlyFieldwise(al) {
			for _, ref := range *al.Referrers() {
				if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == x.Field {
					p.cellOrigins(fa, rec, map[ssa.Value]bool{})
				}
			}
			return
		}
		if o.Base || !isPointerLoad(x.X) {
			rec(x.X)
		}
	case *ssa.Field:
		field(fieldVar(x.X.Type(), x.Field))
		if o.Base || !isPointerLoad(x.X) {
			rec(x.X)
		}
	case *ssa.Lookup:
		if s, ok := ssaConstString(x.Index); ok {
			r.Maps[s] = true
		}
		rec(x.X)
		rec(x.Index)
	case *ssa.Extract:
		p.origins(x.Tuple, x.Index, o, r, cs, depth+1)
	case *ssa.Call:
		n := calleeName(x)
		if n != "" {
			r.Calls[n] = true
		}
		r.CallIns[x] = true
		if o.StopCall != nil && o.StopCall(n) {
			return
		}
		if f := staticCallee(x); f != nil && inModule(f) && len(f.Blocks) > 0 && !cs.has(f) && (cs == nil || cs.depth < 10) {
			ncs := cs.push(x, f)
			instrs(f, func(in ssa.Instruction) {
				if ret, ok := in.(*ssa.Return); ok {
					for i, rv := range ret.Results {
						if idx < 0 || i == idx {
							p.origins(rv, -1, o, r, ncs, depth+1)
						}
					}
				}
			})
			if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
				_ = mc // bindings are reached through FreeVars
			}
			return
		}
		if x.Call.IsInvoke() {
			rec(x.Call.Value)
		} else if n == "" {
			rec(x.Call.Value)
			known := true
			fs := funcValues(x.Call.Value, map[ssa.Value]bool{}, &known)
			for _, f := range fs {
				if len(f.Blocks) == 0 || cs.has(f) || (cs != nil && cs.depth >= 10) {
					known = false
					continue
				}
				ncs := cs.push(x, f)
				instrs(f, func(in ssa.Instruction) {
					if ret, ok := in.(*ssa.Return); ok {
						for i, rv := range ret.Results {
							if idx < 0 || i == idx {
								p.origins(rv, -1, o, r, ncs, depth+1)
							}
						}
					}
				})
			}
			if known && len(fs) > 0 {
				return
			}
		}
		for _, a := range x.Call.Args {
			rec(a)
		}
	case *ssa.MakeClosure:
		r.Funcs[x.Fn.(*ssa.Function)] = true
		for _, b := range x.Bindings {
			rec(b)
		}
	case *ssa.MakeMap:
		for _, ref := range *x.Referrers() {
			if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Map == x {
				rec(mu.Key)
				rec(mu.Value)
			}
			if c, ok := ref.(ssa.CallInstruction); ok && len(c.Common().Args) == 3 && c.Common().Args[0] == x {
				switch calleeName(c) {
				case "(net/url.Values).Set", "(net/url.Values).Add", "(net/http.Header).Set", "(net/http.Header).Add":
					rec(c.Common().Args[1])
					rec(c.Common().Args[2])
				}
			}
		}
	case *ssa.MakeSlice:
		p.cellOrigins(x, rec, map[ssa.Value]bool{})
	default:
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					rec(*op)
				}
			}
		}
	}
}

// funcValues lists the module's functions that the function value v can be;
// known is cleared when there can be others.
func funcValues(v ssa.Value, seen map[ssa.Value]bool, known *bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	one := func(f *ssa.Function) []*ssa.Function {
		if !inModule(f) && !strings.HasPrefix(f.Synthetic, "bound method") {
			*known = false
			return nil
		}
		return []*ssa.Function{f}
	}
	switch x := v.(type) {
	case *ssa.Function:
		return one(x)
	case *ssa.MakeClosure:
		return one(x.Fn.(*ssa.Function))
	case *ssa.ChangeType:
		return funcValues(x.X, seen, known)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			out = append(out, funcValues(e, seen, known)...)
		}
		return out
	case *ssa.Const:
		return nil
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			break
		}
		var out []*ssa.Function
		for _, ref := range *al.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == al {
					out = append(out, funcValues(ref.Val, seen, known)...)
				} else {
					*known = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				*known = false
			}
		}
		return out
	}
	*known = false
	return nil
}

// onlyFieldwise: the local struct is only accessed field by field.
func onlyFieldwise(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.FieldAddr:
		case *ssa.UnOp:
			if ref.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// cellOrigins follows everything stored into a local cell.
func (p *Prog) cellOrigins(x ssa.Value, rec func(ssa.Value), seen map[ssa.Value]bool) {
	if seen[x] || x.Referrers() == nil {
		return
	}
	seen[x] = true
	for _, ref := range *x.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr == x {
				rec(ref.Val)
			}
		case *ssa.FieldAddr:
			if ref.X == x {
				p.cellOrigins(ref, rec, seen)
			}
		case *ssa.IndexAddr:
			if ref.X == x {
				p.cellOrigins(ref, rec, seen)
			}
		case *ssa.MakeClosure:
			for i, b := range ref.Bindings {
				if b == x {
					p.cellOrigins(ref.Fn.(*ssa.Function).FreeVars[i], rec, seen)
				}
			}
		case ssa.CallInstruction:
			// filled in by a callee (Unmarshal and friends)
			isArg := false
			for _, a := range ref.Common().Args {
				if a == x {
					isArg = true
				}
			}
			if isArg {
				if v, ok := ref.(ssa.Value); ok {
					rec(v)
				}
			}
		case *ssa.MakeInterface:
			for _, r2 := range *ref.Referrers() {
				if c, ok := r2.(ssa.CallInstruction); ok {
					if v, ok := c.(ssa.Value); ok {
						rec(v)
					}
				}
			}
		}
	}
}

func (o *Orig) HasField(fv *types.Var) bool { return fv != nil && o.Fields[fv] }

func (o *Orig) HasCall(names ...string) bool {
	for _, n := range names {
		if o.Calls[n] {
			return true
		}
	}
	return false
}

func (o *Orig) CallList() []string {
	var out []string
	for c := range o.Calls {
		out = append(out, c)
	}
	sort.Strings(out)
	return out
}

// isPointerLoad: the object is reached through a pointer held in memory or a
// parameter, so its fields are named by their declaration alone.
func isPointerLoad(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi, *ssa.Extract, *ssa.TypeAssert, *ssa.Call, *ssa.Lookup, *ssa.Global:
		return true
	case *ssa.UnOp:
		if v.Op == token.MUL {
			_, isPtr := v.Type().Underlying().(*types.Pointer)
			if isPtr {
				return true
			}
			return isPointerLoad(v.X) // struct value loaded from somewhere
		}
		return true
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index:
		return false
	}
	return false
}
