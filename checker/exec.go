package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugSteps = os.Getenv("VERIF_STEPS") != ""

type pushFn func(b, pred *ssa.BasicBlock, idx int, st *State, l *local)

// exec interprets the instructions of b starting at index i.
func (w *Walker) exec(fr *Frame, fi *fnInfo, b *ssa.BasicBlock, i int, st *State, l *local, push pushFn, exit func(Exit)) {
	ctx := &Ctx{W: w, St: st, Fr: fr, L: l}
	in := w.T
	for ; i < len(b.Instrs); i++ {
		instr := b.Instrs[i]
		w.Steps++
		if debugSteps {
			w.fnSteps[fmt.Sprintf("%s b%d", fnLabel(fr.Fn), b.Index)]++
		}
		if w.Steps > w.MaxStep {
			w.Over = true
			return
		}
		if v, ok := instr.(ssa.Value); ok && fi.inLoop[b.Index] {
			if _, isPhi := instr.(*ssa.Phi); !isPhi {
				st.KillOrigin(in.origin(fr.id, v))
			}
		}
		set := func(v ssa.Value, t *Term) {
			if t.depth > depthLimit(v.Type()) {
				t = w.collapse(fr, st, v, "", v.Type(), t)
			}
			l.env[v] = t
		}
		sym := func(v ssa.Value) *Term {
			return in.mk(&Term{op: "sym", s: v.Name(), frame: fr.id, v: v, typ: v.Type()})
		}
		val := func(v ssa.Value) *Term { return w.val(fr, l, st, v) }
		if w.R.OnInstr != nil {
			if _, isCall := instr.(ssa.CallInstruction); !isCall {
				w.R.OnInstr(ctx, instr)
			}
		}
		switch x := instr.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Alloc:
			t := in.mk(&Term{op: "alloc", s: x.Name(), frame: fr.id, v: x, typ: x.Type()})
			for k := range st.heap {
				if underPath(k, t) {
					delete(st.heap, k)
				}
			}
			st.heap[t] = in.zero(deref(x.Type()))
			set(x, t)
		case *ssa.BinOp:
			set(x, w.binop(st, x.Op, val(x.X), val(x.Y), x))
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				t := st.Load(in.path(val(x.X)), x.Type())
				if t.typ == nil {
					n := *t
					_ = n
				}
				set(x, t)
			case token.NOT:
				set(x, in.not(val(x.X)))
			case token.ARROW:
				set(x, sym(x))
			default:
				set(x, in.mk(&Term{op: "un", s: x.Op.String(), args: []*Term{val(x.X)}, typ: x.Type()}))
			}
		case *ssa.ChangeInterface:
			set(x, val(x.X))
		case *ssa.ChangeType:
			set(x, val(x.X))
		case *ssa.MakeInterface:
			t := val(x.X)
			if isNillable(x.X.Type()) {
				if t.op == "nil" { // typed nil inside an interface is not a nil interface
					t = in.mk(&Term{op: "iface", s: "nil", typ: x.X.Type()})
				}
				set(x, t)
			} else if t.op == "const" || t.op == "zero" {
				set(x, t)
			} else {
				set(x, in.mk(&Term{op: "iface", args: []*Term{t}, typ: x.X.Type()}))
			}
		case *ssa.Convert:
			t := val(x.X)
			fb, fok := x.X.Type().Underlying().(*types.Basic)
			tb, tok := x.Type().Underlying().(*types.Basic)
			switch {
			case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				set(x, t)
			case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 && t.op == "const":
				set(x, t)
			default:
				set(x, in.mk(&Term{op: "conv", args: []*Term{t}, typ: x.Type()}))
			}
		case *ssa.MultiConvert:
			set(x, in.mk(&Term{op: "conv", args: []*Term{val(x.X)}, typ: x.Type()}))
		case *ssa.SliceToArrayPointer:
			set(x, in.mk(&Term{op: "conv", args: []*Term{val(x.X)}, typ: x.Type()}))
		case *ssa.Extract:
			set(x, in.extract(val(x.Tuple), x.Index, x.Type()))
		case *ssa.Field:
			set(x, st.mkFieldV(val(x.X), fieldVar(x.X.Type(), x.Field)))
		case *ssa.FieldAddr:
			set(x, in.addr(in.field(val(x.X), fieldVar(x.X.Type(), x.Field))))
		case *ssa.Index:
			set(x, in.mk(&Term{op: "index", args: []*Term{val(x.X), val(x.Index)}, typ: x.Type()}))
		case *ssa.IndexAddr:
			t := in.index(val(x.X), val(x.Index))
			if t.typ == nil {
				t.typ = deref(x.Type())
			}
			set(x, in.addr(t))
		case *ssa.Lookup:
			m, k := val(x.X), val(x.Index)
			t := in.mk(&Term{op: "lookup", args: []*Term{m, k}})
			if x.CommaOk {
				et := x.Type().(*types.Tuple)
				v := in.mk(&Term{op: "lookupv", args: []*Term{m, k}, typ: et.At(0).Type()})
				if hv, ok := st.heap[t]; ok {
					v = hv
				}
				ok := in.mk(&Term{op: "lookupok", args: []*Term{m, k}, typ: types.Typ[types.Bool]})
				set(x, in.mk(&Term{op: "tuple", args: []*Term{v, ok}}))
			} else {
				v := in.mk(&Term{op: "lookupv", args: []*Term{m, k}, typ: x.Type()})
				if hv, ok := st.heap[t]; ok {
					v = hv
				}
				set(x, v)
			}
		case *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice:
			v := instr.(ssa.Value)
			set(v, in.mk(&Term{op: "alloc", s: v.Name(), frame: fr.id, v: v, typ: v.Type()}))
		case *ssa.MakeClosure:
			var bs []*Term
			for _, bd := range x.Bindings {
				bs = append(bs, val(bd))
			}
			t := in.mk(&Term{op: "closure", s: "", fn: x.Fn.(*ssa.Function), args: bs, typ: x.Type()})
			set(x, t)
			if w.R.ForkClosures && !onlyCalled(x) {
				w.forkClosure(fr, x, t, st)
			}
		case *ssa.MapUpdate:
			k := in.mk(&Term{op: "lookup", args: []*Term{val(x.Map), val(x.Key)}})
			st.heap[k] = val(x.Value)
		case *ssa.Next:
			if x.IsString {
				set(x, sym(x))
			} else {
				rng := val(x.Iter)
				t := in.mk(&Term{op: "csym", s: "range.next", frame: fr.id, v: x, args: []*Term{rng}})
				set(x, t)
			}
		case *ssa.Range:
			set(x, in.mk(&Term{op: "range", args: []*Term{val(x.X)}}))
		case *ssa.Slice:
			var lo, hi, mx *Term
			if x.Low != nil {
				lo = val(x.Low)
				if lo.op == "const" && lo.s == "0" {
					lo = nil
				}
			}
			if x.High != nil {
				hi = val(x.High)
			}
			if x.Max != nil {
				mx = val(x.Max)
			}
			base := val(x.X)
			if lo == nil && hi == nil && mx == nil && isNillable(x.X.Type()) {
				if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
					set(x, base)
					break
				}
			}
			set(x, in.mk(&Term{op: "slice", args: []*Term{base, lo, hi, mx}, typ: x.Type()}))
		case *ssa.Select, *ssa.Send:
			if v, ok := instr.(ssa.Value); ok {
				set(v, sym(v))
			}
		case *ssa.Store:
			st.StorePath(in.path(val(x.Addr)), val(x.Val))
		case *ssa.TypeAssert:
			t := val(x.X)
			if t.op == "iface" && len(t.args) == 1 && types.Identical(t.typ, x.AssertedType) {
				t = t.args[0]
			}
			if x.CommaOk {
				ok := in.mk(&Term{op: "istype", s: types.TypeString(x.AssertedType, nil), args: []*Term{t}, typ: x.AssertedType})
				set(x, in.mk(&Term{op: "tuple", args: []*Term{t, ok}}))
			} else {
				set(x, t)
			}
		case *ssa.If:
			cond := val(x.Cond)
			tr := st.Bool(cond)
			if os.Getenv("VERIF_TRACE") != "" && fr.Fn.Name() == os.Getenv("VERIF_TRACE") {
				fmt.Fprintf(os.Stderr, "if b%d %s => %d\n", b.Index, cond, tr)
			}
			s1, l1 := st, l
			if tr != no {
				if tr == unknown {
					s1, l1 = st.clone(), l.clone()
				}
				if s1.Assume(cond, true) {
					okc := true
					if tr == unknown && w.R.OnBranch != nil {
						w.branch(&Ctx{W: w, St: s1, Fr: fr, L: l1}, cond, true)
					}
					if okc {
						push(b.Succs[0], b, 0, s1, l1)
					}
				}
			}
			if tr != yes {
				if st.Assume(cond, false) {
					if tr == unknown && w.R.OnBranch != nil {
						w.branch(&Ctx{W: w, St: st, Fr: fr, L: l}, cond, false)
					}
					push(b.Succs[1], b, 0, st, l)
				}
			}
			return
		case *ssa.Jump:
			push(b.Succs[0], b, 0, st, l)
			return
		case *ssa.Return:
			w.Paths++
			var rets []*Term
			for _, r := range x.Results {
				rets = append(rets, val(r))
			}
			exit(Exit{St: st, Rets: rets, In: x})
			return
		case *ssa.Panic:
			w.Paths++
			exit(Exit{St: st, Panic: true})
			return
		case *ssa.Defer:
			ct, fn, args := w.callee(fr, l, st, x)
			dup := false
			if fi.inLoop[b.Index] {
				for _, d := range l.defers {
					if d.in == x {
						dup = true
					}
				}
			}
			if !dup {
				l.defers = append(l.defers[:len(l.defers):len(l.defers)], deferRec{in: x, fn: fn, ct: ct, args: args})
			}
		case *ssa.RunDefers:
			ds := l.defers
			l.defers = nil
			w.runDefers(fr, ds, st, func(s *State) {
				w.exec(fr, fi, b, i+1, s, l.clone(), push, exit)
			})
			return
		case *ssa.Go:
			ct, fn, args := w.callee(fr, l, st, x)
			cc := w.callCtx(fr, l, st, x, ct, fn, args, nil)
			cc.Go = true
			if w.R.OnCall != nil {
				w.R.OnCall(cc)
			}
			if fn != nil && !w.R.NoGo && !cc.Opaque && w.canInline(fr, fn) && w.relevant(fn) {
				w.fork(fr, x, fn, ct, args, st, "go")
			}
		case *ssa.Call:
			ct, fn, args := w.callee(fr, l, st, x)
			type cont struct {
				s *State
				l *local
			}
			var conts []cont
			w.call(fr, l, st, x, ct, fn, args, false, func(s *State, res *Term) {
				nl := l.clone()
				if res != nil {
					if res.depth > depthLimit(x.Type()) {
						res = w.collapse(fr, s, x, "", x.Type(), res)
					}
					nl.env[x] = res
				}
				conts = append(conts, cont{s, nl})
			}, func(s *State) {
				exit(Exit{St: s, Panic: true})
			})
			if len(conts) > 1 {
				live := w.liveAfter(fi, b, i)
				seen := map[string]bool{}
				for _, c := range conts {
					w.pruneLive(fr, live, c.s, c.l, nil)
					k := w.key(c.s, c.l)
					if seen[k] {
						continue
					}
					seen[k] = true
					push(b, nil, i+1, c.s, c.l)
				}
				return
			}
			for _, c := range conts {
				w.exec(fr, fi, b, i+1, c.s, c.l, push, exit)
			}
			return
		default:
			if v, ok := instr.(ssa.Value); ok {
				set(v, sym(v))
			}
		}
	}
}

func (s *State) mkFieldV(v *Term, fv *types.Var) *Term {
	return s.mkField(v, fv)
}

// onlyCalled: the closure value is used only as the callee of call/defer/go.
func onlyCalled(x *ssa.MakeClosure) bool {
	refs := x.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == x {
			used := false
			for _, a := range ci.Common().Args {
				if a == x {
					used = true
				}
			}
			if !used {
				continue
			}
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

func (w *Walker) binop(st *State, op token.Token, a, b *Term, x *ssa.BinOp) *Term {
	in := w.T
	switch op {
	case token.EQL:
		return in.eq(a, b)
	case token.NEQ:
		return in.not(in.eq(a, b))
	case token.LSS:
		return in.lt(a, b)
	case token.GTR:
		return in.lt(b, a)
	case token.LEQ:
		return in.not(in.lt(b, a))
	case token.GEQ:
		return in.not(in.lt(a, b))
	}
	if a.op == "const" && b.op == "const" && a.cv.Kind() == b.cv.Kind() {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.OR, token.AND, token.XOR:
			if a.cv.Kind() == constant.Int || (op == token.ADD && a.cv.Kind() == constant.String) {
				return in.constVal(constant.BinaryOp(a.cv, op, b.cv), x.Type())
			}
		}
	}
	return in.mk(&Term{op: "bin", s: op.String(), args: []*Term{a, b}, typ: x.Type()})
}

// callee resolves a call in the current state.
func (w *Walker) callee(fr *Frame, l *local, st *State, ci ssa.CallInstruction) (*Term, *ssa.Function, []*Term) {
	c := ci.Common()
	var args []*Term
	if c.IsInvoke() {
		recv := w.val(fr, l, st, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, w.val(fr, l, st, a))
		}
		if ct := concreteType(recv); ct != nil {
			if sel := w.P.SSA.MethodSets.MethodSet(ct).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := w.P.SSA.MethodValue(sel); f != nil && inModule(f) {
					return nil, f, args
				}
			}
		}
		return nil, nil, args
	}
	for _, a := range c.Args {
		args = append(args, w.val(fr, l, st, a))
	}
	ct := w.val(fr, l, st, c.Value)
	if ct.op == "func" || ct.op == "closure" {
		return ct, ct.fn, args
	}
	return ct, nil, args
}

func (w *Walker) callCtx(fr *Frame, l *local, st *State, ci ssa.CallInstruction, ct *Term, fn *ssa.Function, args []*Term, res *Term) *CallCtx {
	name := ""
	c := ci.Common()
	switch {
	case fn != nil:
		name = funcName(fn)
		if strings.HasSuffix(fn.Name(), "$bound") && fn.Object() != nil {
			name = funcObjName(fn.Object().(*types.Func))
			if ct != nil && len(ct.args) == 1 {
				args = append([]*Term{ct.args[0]}, args...)
			}
		}
	case c.IsInvoke():
		name = funcObjName(c.Method)
	case ct != nil && ct.op == "builtin":
		name = "builtin." + ct.s
	}
	return &CallCtx{Ctx: Ctx{W: w, St: st, Fr: fr, L: l}, In: ci, Name: name, Fn: fn, CT: ct, Args: args, Res: res}
}

func (w *Walker) canInline(fr *Frame, fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 || fr.depth >= w.R.MaxDepth {
		return false
	}
	if !inModule(fn) && fn.Synthetic == "" {
		return false
	}
	if w.R.NoInline != nil && w.R.NoInline(fn) {
		return false
	}
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == fn {
			return false
		}
	}
	return true
}

func (w *Walker) bind(fn *ssa.Function, ct *Term, args []*Term) *local {
	nl := &local{env: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			nl.env[p] = args[i]
		} else {
			nl.env[p] = w.param(fn.Name()+"."+p.Name(), p)
		}
	}
	for i, fv := range fn.FreeVars {
		if ct != nil && ct.op == "closure" && i < len(ct.args) {
			nl.env[fv] = ct.args[i]
		} else {
			nl.env[fv] = w.param("fv:"+fn.Name()+"."+fv.Name(), fv)
		}
	}
	return nl
}

func (w *Walker) resSym(fr *Frame, ci ssa.CallInstruction, name string, args []*Term) *Term {
	v, _ := ci.(ssa.Value)
	var typ types.Type
	if v != nil {
		typ = v.Type()
	}
	if v == nil {
		return w.T.mk(&Term{op: "csym", s: name, frame: fr.id, args: args})
	}
	return w.T.mk(&Term{op: "csym", s: name, frame: fr.id, v: v, args: args, typ: typ})
}

// call models a call; k is invoked for each resulting state.
func (w *Walker) call(fr *Frame, l *local, st *State, ci ssa.CallInstruction, ct *Term, fn *ssa.Function, args []*Term, deferred bool, k func(*State, *Term), kp func(*State)) {
	in := w.T
	cc := w.callCtx(fr, l, st, ci, ct, fn, args, nil)
	cc.Deferred = deferred
	rn := cc.Name
	if rn == "" && ct != nil && ct.op == "field" {
		rn = "dyn." + ct.s
	}
	cc.Res = w.resSym(fr, ci, rn, cc.Args)
	pure := false
	if r := w.pureModel(st, cc, ci); r != nil {
		cc.Res = r
		pure = !strings.Contains(cc.Name, "Unmarshal")
	}
	if w.R.OnCall != nil {
		w.R.OnCall(cc)
	}
	if cc.Stop {
		return
	}
	done := func(s *State, res *Term) {
		if cc.After != nil {
			cc.After(s, res)
		}
		k(s, res)
	}
	if cc.Result != nil {
		done(st, cc.Result)
		return
	}
	if !cc.Opaque && fn != nil && w.canInline(fr, fn) && w.relevant(fn) {
		w.Inlined[fn]++
		nf := w.frame(fn, fr, ci, "")
		if nf.inLoop {
			w.killFrame(st, nf)
		}
		nl := w.bind(fn, ct, args)
		callerFacts := st.facts
		callerEqs := st.eqs
		sub, rest := w.project(st, nl)
		exits := w.runMemo(nf, sub, nl)
		for _, e := range exits {
			e.St = e.St.clone()
			for kh, v := range rest {
				if _, ok := e.St.heap[kh]; !ok {
					e.St.heap[kh] = v
				}
			}
			if e.Panic {
				kp(e.St)
				continue
			}
			for kf, v := range callerFacts {
				if _, ok := e.St.facts[kf]; !ok {
					e.St.facts[kf] = v
				}
			}
			for kf, v := range callerEqs {
				if _, ok := e.St.eqs[kf]; !ok {
					e.St.eqs[kf] = v
				}
			}
			var res *Term
			switch len(e.Rets) {
			case 0:
			case 1:
				res = e.Rets[0]
			default:
				res = in.mk(&Term{op: "tuple", args: e.Rets})
			}
			done(e.St, res)
		}
		return
	}
	if !cc.Opaque && w.anyFunc(fr, l, st, ci, cc, args, done, kp) {
		return
	}
	// Opaque call: closures passed to it may run; locals whose address escapes
	// are havocked.
	res := cc.Res
	if w.storageCommit(st, cc) {
		done(st, res)
		return
	}
	for i, a := range args {
		if a == nil {
			continue
		}
		if (a.op == "closure" || a.op == "func") && a.fn != nil && inModule(a.fn) && !cc.Opaque && !(w.R.ForkClosures && a.op == "closure") {
			if w.canInline(fr, a.fn) && w.relevant(a.fn) {
				w.fork(fr, ci, a.fn, a, nil, st, fmt.Sprintf("arg%d", i))
			}
		}
		if !pure {
			w.havocArg(st, a, cc, res)
		}
	}
	done(st, res)
}

// depthLimit bounds the terms kept for values of type t. Conditions may be
// deeper than what they compare.
func depthLimit(t types.Type) int {
	if t != nil && isBool(t) {
		return maxTermDepth + 4
	}
	return maxTermDepth
}

// collapse replaces a term that grew too deep by a symbol, keeping what is
// known about its truth and nilness.
func (w *Walker) collapse(fr *Frame, st *State, v ssa.Value, tag string, typ types.Type, t *Term) *Term {
	if t.op == "tuple" {
		tt, _ := typ.(*types.Tuple)
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = a
			var at types.Type
			if tt != nil && i < tt.Len() {
				at = tt.At(i).Type()
			}
			if a != nil && a.depth >= depthLimit(at) {
				args[i] = w.collapse(fr, st, v, fmt.Sprintf("#%d", i), at, a)
			}
		}
		return w.T.mk(&Term{op: "tuple", args: args, typ: t.typ})
	}
	b, n := st.Bool(t), st.Nil(t)
	if typ != nil && isBool(typ) && b != unknown {
		return w.T.boolT(b == yes)
	}
	s := w.T.mk(&Term{op: "sym", s: v.Name() + tag, frame: fr.id, v: v, typ: typ})
	if n != unknown {
		st.facts[st.isNilTerm(s)] = n == yes
	} else {
		delete(st.facts, st.isNilTerm(s))
	}
	return s
}

// storageCommit models the function returned by the storage library's
// OpenForUpdate: once called, a later call changes nothing; a rollback makes
// the error non-nil.
func (w *Walker) storageCommit(st *State, cc *CallCtx) bool {
	ct := cc.CT
	if ct == nil || ct.op != "extract" || ct.s != "0" || len(cc.Args) != 2 {
		return false
	}
	switch ct.args[0].s {
	case "(*github.com/c2FmZQ/storage.Storage).OpenForUpdate", "(*github.com/c2FmZQ/storage.Storage).OpenManyForUpdate":
	default:
		return false
	}
	for _, ev := range st.Has("storage-closed") {
		if ev.Res == ct {
			return true
		}
	}
	st.Event("storage-closed", ct, nil, nil)
	var rolledBack *Term
	// ErrRolledBack is the result of a rollback, and of nothing else
	if sp := w.P.SSA.ImportedPackage("github.com/c2FmZQ/storage"); sp != nil && cc.Res != nil {
		if g := sp.Var("ErrRolledBack"); g != nil {
			rb := st.Load(w.T.mk(&Term{op: "global", s: g.String(), v: g, typ: deref(g.Type())}), deref(g.Type()))
			rolledBack = rb
			switch st.Bool(cc.Args[0]) {
			case yes:
				st.Assume(w.T.eq(cc.Res, rb), false)
			case no:
				st.Assume(w.T.eq(cc.Res, rb), true)
			}
		}
	}
	if a := cc.Args[1]; a != nil && (a.op == "addr" || a.op == "alloc") {
		cell := a
		if a.op == "addr" {
			cell = a.args[0]
		}
		old := st.Load(cell, nil)
		switch {
		case st.Nil(old) == no:
		case st.Bool(cc.Args[0]) == no && rolledBack != nil && st.Nil(old) == yes:
			st.StorePath(cell, rolledBack)
		case st.Bool(cc.Args[0]) == no:
			e := w.T.mk(&Term{op: "havoc", args: []*Term{cc.Res, cell}, typ: cell.typ})
			st.Assume(st.isNilTerm(e), false)
			st.StorePath(cell, e)
		default:
			st.Havoc(cell, cc.Res)
		}
	}
	return true
}

// project splits the state into what the callee can see and the rest of the
// heap (the frame rule).
func (w *Walker) project(st *State, nl *local) (*State, map[*Term]*Term) {
	var roots []*Term
	argT := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || argT[t] {
			return
		}
		argT[t] = true
		if t.op == "not" || t.op == "bin" || t.op == "isnil" || t.op == "tuple" || t.op == "closure" {
			for _, a := range t.args {
				mark(a)
			}
		}
	}
	for _, t := range nl.env {
		roots = append(roots, t)
		mark(t)
	}
	live := st.reach(roots)
	sub := &State{w: w, heap: map[*Term]*Term{}, facts: map[*Term]bool{}, eqs: map[*Term]*Term{}, ev: make(map[string]*Ev, len(st.ev))}
	rest := map[*Term]*Term{}
	for k, v := range st.heap {
		r := heapRoot(k)
		if (r.op == "alloc" && live[r]) || (r.op != "alloc" && w.R.KeepPath != nil && w.R.KeepPath(k)) {
			sub.heap[k] = v
		} else {
			rest[k] = v
		}
	}
	for k, v := range st.facts {
		sub.facts[k] = v
	}
	for k, v := range st.eqs {
		sub.eqs[k] = v
	}
	for k, v := range st.ev {
		sub.ev[k] = v
	}
	w.pruneFacts(sub, argT)
	return sub, rest
}

// mergeExits joins exits that differ only in uninteresting values.
func (w *Walker) mergeExits(nf *Frame, nl *local, exits []Exit) []Exit {
	return w.joinExits(nf, nl, exits, true)
}

func (w *Walker) joinExits(nf *Frame, nl *local, exits []Exit, split bool) []Exit {
	limit := w.R.MergeLimit
	groups := map[string][]int{}
	var order []string
	for i, e := range exits {
		k := fmt.Sprint(e.Panic) + w.factKey(e.St) + "#"
		for _, r := range e.Rets {
			if simpleTerm(r) || e.St.Bool(r) != unknown {
				k += fmt.Sprintf("%d:%d,", r.id, e.St.Bool(r))
			} else {
				k += fmt.Sprintf("n%d,", e.St.Nil(r))
			}
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	if split {
		// conditions that would be lost in a join are decided first
		if sp := w.splitConds(nf, nl, exits, order, groups, limit); sp != nil {
			return w.joinExits(nf, nl, sp, false)
		}
	}
	var out []Exit
	for _, k := range order {
		g := groups[k]
		if os.Getenv("VERIF_MERGE") == nf.Fn.Name() {
			fmt.Fprintf(os.Stderr, "MERGE %s %d in group %s\n", nf.Fn.Name(), len(g), k)
			for f, v := range exits[g[0]].St.facts {
				fmt.Fprintf(os.Stderr, "   %s=%v\n", f, v)
			}
			for f, v := range exits[g[0]].St.heap {
				fmt.Fprintf(os.Stderr, "   heap %s=%v\n", f, v)
			}
		}
		if len(g) <= limit {
			for _, i := range g {
				out = append(out, exits[i])
			}
			continue
		}
		m := Exit{St: exits[g[0]].St.clone(), Rets: append([]*Term(nil), exits[g[0]].Rets...), In: exits[g[0]].In, Panic: exits[g[0]].Panic}
		nilFacts := map[*Term]bool{}
		for _, i := range g[1:] {
			e := exits[i]
			for j, r := range m.Rets {
				if r != e.Rets[j] {
					t := w.T.mk(&Term{op: "join", s: fmt.Sprintf("ret%d.%d", nf.id, j), typ: nf.Fn.Signature.Results().At(j).Type()})
					if n := e.St.Nil(e.Rets[j]); n != unknown {
						nilFacts[m.St.isNilTerm(t)] = n == yes
					}
					if isErrorType(t.typ) {
						if w.joinOf == nil {
							w.joinOf = map[*Term][]*Term{}
						}
						w.joinOf[t] = append(w.joinOf[t], m.Rets[j], e.Rets[j])
					}
					m.Rets[j] = t
				}
			}
			for k, v := range m.St.facts {
				if x, ok := e.St.facts[k]; !ok || x != v {
					delete(m.St.facts, k)
				}
			}
			for k, v := range m.St.eqs {
				if x, ok := e.St.eqs[k]; !ok || x != v {
					delete(m.St.eqs, k)
				}
			}
			for k, v := range m.St.heap {
				if x, ok := e.St.heap[k]; !ok || x != v {
					m.St.heap[k] = w.T.mk(&Term{op: "join", s: fmt.Sprintf("heap%d.%d", nf.id, k.id), typ: k.typ})
				}
			}
			for k := range e.St.heap {
				if _, ok := m.St.heap[k]; !ok {
					m.St.heap[k] = w.T.mk(&Term{op: "join", s: fmt.Sprintf("heap%d.%d", nf.id, k.id), typ: k.typ})
				}
			}
		}
		// a merged cell keeps the nilness that all its values share
		for k, v := range m.St.heap {
			if v.op != "join" || !isNilable(k.typ) {
				continue
			}
			n := unknown
			for x, i := range g {
				o, ok := exits[i].St.heap[k]
				on := unknown
				if ok && o != v {
					on = exits[i].St.Nil(o)
				}
				if x == 0 {
					n = on
				} else if n != on {
					n = unknown
				}
			}
			if n != unknown {
				nilFacts[m.St.isNilTerm(v)] = n == yes
			}
		}
		for k, v := range nilFacts {
			m.St.facts[k] = v
		}
		out = append(out, m)
	}
	return out
}

// splitConds: where different undecided conditions are returned by exits that
// would be joined, each is split in two, as if it were tested before returning.
func (w *Walker) splitConds(nf *Frame, nl *local, exits []Exit, order []string, groups map[string][]int, limit int) []Exit {
	res := nf.Fn.Signature.Results()
	todo := map[int]int{}
	for _, k := range order {
		g := groups[k]
		if len(g) <= limit {
			continue
		}
		for j := 0; j < res.Len(); j++ {
			if b, ok := res.At(j).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				continue
			}
			differ := false
			for _, i := range g {
				if exits[i].Panic || j >= len(exits[i].Rets) {
					continue
				}
				differ = differ || exits[i].Rets[j] != exits[g[0]].Rets[j]
			}
			if !differ {
				continue
			}
			for _, i := range g {
				if t := exits[i].Rets[j]; exits[i].St.Bool(t) == unknown {
					todo[i] = j
				}
			}
		}
	}
	if len(todo) == 0 {
		return nil
	}
	var out []Exit
	for i, e := range exits {
		j, ok := todo[i]
		if !ok {
			out = append(out, e)
			continue
		}
		for _, val := range []bool{true, false} {
			s := e.St.clone()
			if !s.Assume(e.Rets[j], val) {
				continue
			}
			if w.R.OnBranch != nil {
				w.branch(&Ctx{W: w, St: s, Fr: nf, L: nl}, e.Rets[j], val)
			}
			rets := append([]*Term(nil), e.Rets...)
			rets[j] = w.T.boolT(val)
			out = append(out, Exit{St: s, Rets: rets, In: e.In})
		}
	}
	return out
}

func (w *Walker) factKey(st *State) string {
	var ids []string
	evT := map[*Term]bool{}
	for _, e := range st.ev {
		if e.Res != nil && (e.Status == unknown || w.R.KeepRes) {
			evT[e.Res] = true
		}
	}
	isEv := func(t *Term) bool { return evT[t] }
	for k, v := range st.facts {
		if !w.keep(k) && !k.mentions(isEv) {
			continue
		}
		ids = append(ids, fmt.Sprintf("%d%v", k.id, v))
	}
	for k, v := range st.eqs {
		if !w.keep(k) && !k.mentions(isEv) {
			continue
		}
		ids = append(ids, fmt.Sprintf("%d=%d", k.id, v.id))
	}
	sort.Strings(ids)
	return strings.Join(ids, " ") + "|" + st.evKey()
}

func (w *Walker) runMemo(nf *Frame, sub *State, nl *local) []Exit {
	key := fmt.Sprintf("%d#%s", nf.id, w.key(sub, nl))
	if ex, ok := w.memo[key]; ok {
		return ex
	}
	ex := w.mergeExits(nf, nl, w.run(nf, sub, nl))
	if os.Getenv("VERIF_STATS") != "" {
		if w.stats == nil {
			w.stats = map[string]int{}
		}
		k := fnLabel(nf.Fn)
		w.stats[k]++
		if n := w.stats[k]; n&(n-1) == 0 && n >= 16 || os.Getenv("VERIF_STATS") == k && n < 8 {
			fmt.Fprintf(os.Stderr, "runs %s %d exits %d\n", k, n, len(ex))
			if os.Getenv("VERIF_STATS") == k {
				fmt.Fprintf(os.Stderr, "  key %s\n", w.key(sub, nl))
				for f, v := range sub.facts {
					fmt.Fprintf(os.Stderr, "  fact %d %v %s\n", f.id, v, f)
				}
				for l, e := range sub.ev {
					fmt.Fprintf(os.Stderr, "  ev %s %v\n", l, e)
				}
			}
		}
	}
	w.memo[key] = ex
	return ex
}

func (w *Walker) havocArg(st *State, a *Term, cc *CallCtx, res *Term) {
	var cell *Term
	if strings.HasPrefix(cc.Name, "builtin.") {
		return
	}
	switch {
	case a.op == "addr":
		cell = a.args[0]
	case a.op == "alloc":
		if _, ok := a.typ.Underlying().(*types.Pointer); ok {
			cell = a
		}
	case a.op == "slice" && a.args[0] != nil && a.args[0].op == "alloc":
		// variadic packing: look at the elements
		for k, v := range st.heap {
			if k.op == "index" && k.args[0] == a.args[0] && v != nil && v.op == "alloc" {
				if _, ok := v.typ.Underlying().(*types.Pointer); ok && !noHavocType(v.typ) {
					defer st.Havoc(v, res)
				}
			}
		}
		return
	}
	if cell == nil {
		return
	}
	root := cell
	for root.op == "field" || root.op == "index" {
		root = root.args[0]
	}
	if root.op != "alloc" {
		return
	}
	if strings.HasPrefix(cc.Name, "builtin.") || noHavocType(cell.typ) || noHavocType(root.typ) {
		return
	}
	if strings.HasPrefix(cc.Name, "(*sync.") || strings.HasPrefix(cc.Name, "(*sync/atomic.") {
		return
	}
	st.Havoc(cell, res)
}

func noHavocType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch strings.TrimPrefix(t.String(), "*") {
	case "crypto/tls.Config", "net/http.Server", "net/http.Request", "net/http.Cookie", "github.com/quic-go/quic-go.Config", "net/http/httputil.ReverseProxy", "net/http.Transport", "crypto/x509.Certificate":
		return true
	}
	return false
}

// pureModel gives canonical terms to calls without side effects.
func (w *Walker) pureModel(st *State, cc *CallCtx, ci ssa.CallInstruction) *Term {
	in := w.T
	n := cc.Name
	v, _ := ci.(ssa.Value)
	if v == nil {
		return nil
	}
	switch n {
	case "builtin.append":
		// the same append again, in a loop
		if a := cc.Args[0]; len(cc.Args) == 2 && a.op == "csym" && a.s == n && a.v == v && a.frame == cc.Fr.id && a.args[1] == cc.Args[1] {
			return a
		}
		return nil
	case "builtin.len":
		a := cc.Args[0]
		if a.op == "const" && a.cv.Kind() == constant.String {
			return in.int(int64(len(constant.StringVal(a.cv))))
		}
		if a.op == "nil" {
			return in.int(0)
		}
		if a.op == "slice" && a.args[0].op == "alloc" && a.args[1] == nil && a.args[2] == nil {
			if at, ok := deref(a.args[0].typ).Underlying().(*types.Array); ok {
				return in.int(at.Len())
			}
		}
		return in.mk(&Term{op: "call", s: n, args: cc.Args, typ: v.Type()})
	case "(time.Time).Before":
		return in.mk(&Term{op: "call", s: "time.lt", args: cc.Args, typ: v.Type()})
	case "(time.Time).After":
		return in.mk(&Term{op: "call", s: "time.lt", args: []*Term{cc.Args[1], cc.Args[0]}, typ: v.Type()})
	case "(net/http.Header).Get", "(net/http.Header).Values", "(net/url.Values).Get", "(net/url.Values).Has",
		"(*net/http.Request).Context", "(*net/url.URL).Query", "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue",
		"(*net/url.URL).String", "(net.IP).To4", "(net.IP).String", "(*net/http.Request).UserAgent",
		"net.ParseIP", "(crypto/tls.ConnectionState).VerifiedChains", "(*math/big.Int).Cmp", "(*math/big.Int).Sign",
		"(time.Time).Equal", "(time.Time).IsZero", "(time.Time).UTC", "(time.Time).Add", "(time.Time).Sub", "(*math/big.Int).String",
		"errors.Is", "bytes.Equal", "(net.Addr).String", "(net.Conn).RemoteAddr", "(net.Conn).LocalAddr", "(*crypto/tls.Conn).NetConn":
		return in.mk(&Term{op: "call", s: n, args: cc.Args, typ: v.Type()})
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(n, p) {
			return in.mk(&Term{op: "call", s: n, args: cc.Args, typ: v.Type()})
		}
	}
	return nil
}

var purePkgs = []string{"strings.", "path.", "strconv.", "unicode.", "slices.Contains", "slices.Index", "slices.Equal", "path/filepath.", "net/netip.", "encoding/hex.", "crypto/sha256.Sum256", "html.", "bytes.Equal", "bytes.Has", "bytes.Contains", "(*net/url.URL).", "golang.org/x/net/idna.", "slices.Compare"}

func (w *Walker) runDefers(fr *Frame, ds []deferRec, st *State, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	l := &local{env: map[ssa.Value]*Term{}}
	w.call(fr, l, st, d.in, d.ct, d.fn, d.args, true, func(s *State, _ *Term) {
		w.runDefers(fr, rest, s, k)
	}, func(s *State) {
		w.runDefers(fr, rest, s, k)
	})
}

// fork explores a function that runs concurrently or later, starting from a
// copy of the current state.
func (w *Walker) fork(fr *Frame, in ssa.Instruction, fn *ssa.Function, ct *Term, args []*Term, st *State, kind string) {
	nf := w.frame(fn, fr, in, kind)
	nl := w.bind(fn, ct, args)
	s, _ := w.project(st, nl)
	key := fmt.Sprintf("%d#%s", nf.id, w.key(s, nil))
	for _, p := range fn.Params {
		key += fmt.Sprintf(",%d", nl.env[p].id)
	}
	if ct != nil {
		key += fmt.Sprintf(";%d", ct.id)
	}
	if w.forked[key] {
		return
	}
	w.forked[key] = true
	nf.fork = kind
	ex := w.run(nf, s, nl)
	if w.R.OnReturn != nil {
		for _, e := range ex {
			if !e.Panic {
				w.R.OnReturn(&Ctx{W: w, St: e.St, Fr: nf, L: nl}, e.Rets, e.In)
			}
		}
	}
}

func (w *Walker) forkClosure(fr *Frame, x *ssa.MakeClosure, t *Term, st *State) {
	fn := t.fn
	if !w.canInline(fr, fn) || !w.relevant(fn) {
		return
	}
	s := st.clone()
	for i, b := range t.args {
		if b != nil && b.op == "alloc" {
			if al, ok := x.Bindings[i].(*ssa.Alloc); ok && countStores(al) > 1 {
				s.Havoc(b, t)
			}
		}
	}
	w.fork(fr, x, fn, t, nil, s, "closure")
}

func countStores(a *ssa.Alloc) int {
	n := 0
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			n++
		}
	}
	return n
}

// anyFunc models slices.ContainsFunc and slices.IndexFunc as the loop they
// stand for: the predicate runs on an arbitrary element.
func (w *Walker) anyFunc(fr *Frame, l *local, st *State, ci ssa.CallInstruction, cc *CallCtx, args []*Term, k func(*State, *Term), kp func(*State)) bool {
	isContains := strings.HasPrefix(cc.Name, "slices.ContainsFunc")
	isIndex := strings.HasPrefix(cc.Name, "slices.IndexFunc")
	if !isContains && !isIndex || len(args) != 2 {
		return false
	}
	f := args[1]
	if f.op != "closure" && f.op != "func" || !w.canInline(fr, f.fn) || len(f.fn.Params) != 1 {
		return false
	}
	in := w.T
	v, _ := ci.(ssa.Value)
	i := in.mk(&Term{op: "csym", s: "range.index", frame: fr.id, v: v, args: nil, typ: types.Typ[types.Int]})
	ln := in.mk(&Term{op: "call", s: "builtin.len", args: []*Term{args[0]}, typ: types.Typ[types.Int]})
	cond := in.lt(i, ln)
	branch := func(s *State, c *Term, val bool) bool {
		tr := s.Bool(c)
		if !s.Assume(c, val) {
			return false
		}
		if tr == unknown && w.R.OnBranch != nil {
			w.branch(&Ctx{W: w, St: s, Fr: fr, L: l}, c, val)
		}
		return true
	}
	result := func(hit bool) *Term {
		if isContains {
			return in.boolT(hit)
		}
		if hit {
			return i
		}
		return in.int(-1)
	}
	// list exhausted or empty
	none := st.clone()
	ends := []*State{none}
	some := st.clone()
	if branch(some, cond, true) {
		elem := in.index(args[0], i)
		if elem.typ == nil {
			elem.typ = f.fn.Params[0].Type()
		}
		nf := w.frame(f.fn, fr, ci, "")
		nl := w.bind(f.fn, f, []*Term{elem})
		for _, e := range w.runMemo(nf, some, nl) {
			e.St = e.St.clone()
			if e.Panic {
				kp(e.St)
				continue
			}
			if len(e.Rets) != 1 {
				continue
			}
			t := e.St.clone()
			if branch(t, e.Rets[0], true) {
				t.facts[in.lt(i, in.int(0))] = false
				k(t, result(true))
			}
			if branch(e.St, e.Rets[0], false) {
				ends = append(ends, e.St)
			}
		}
	}
	for _, s := range ends {
		delete(s.facts, cond)
		if branch(s, cond, false) {
			k(s, result(false))
		}
	}
	return true
}

// branch reports an undecided branch with its condition normalised: no
// negation, and comparisons with nil as isnil.
func (w *Walker) branch(c *Ctx, cond *Term, val bool) {
	for cond.op == "not" {
		cond, val = cond.args[0], !val
	}
	if cond.op == "bin" && cond.s == "==" {
		if cond.args[0].op == "nil" {
			cond = c.St.isNilTerm(cond.args[1])
		} else if cond.args[1].op == "nil" {
			cond = c.St.isNilTerm(cond.args[0])
		}
	}
	if cond.op == "const" {
		return
	}
	w.R.OnBranch(c, cond, val)
	if !val && cond.op == "call" && strings.HasPrefix(cond.s, "slices.Contains") && len(cond.args) == 2 {
		if ps, ok := listParts(c.St, cond.args[0]); ok {
			// not in a list made of known parts: not in any of them
			for _, e := range ps {
				if e.list {
					w.branch(c, w.T.mk(&Term{op: "call", s: cond.s, args: []*Term{e.t, cond.args[1]}, typ: cond.typ}), false)
				} else {
					w.branch(c, w.T.eq(e.t, cond.args[1]), false)
				}
			}
		}
	}
}

type listPart struct {
	t    *Term
	list bool
}

// listParts lists the elements, and the lists, that a list was put together
// from by literals and append; it has no result for a list that is not.
func listParts(st *State, t *Term) ([]listPart, bool) {
	switch {
	case t.op == "slice" && t.args[0].op == "alloc" && t.args[1] == nil && t.args[2] == nil:
		var out []listPart
		for k := range st.heap {
			if k.op == "index" && k.args[0] == t.args[0] {
				out = append(out, listPart{st.Load(k, k.typ), false})
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
		return out, len(out) > 0
	case (t.op == "csym" || t.op == "call") && t.s == "builtin.append" && len(t.args) == 2:
		var out []listPart
		for _, a := range t.args {
			if ps, ok := listParts(st, a); ok {
				out = append(out, ps...)
			} else if st.Nil(a) != yes {
				out = append(out, listPart{a, true})
			}
		}
		return out, true
	}
	return nil, false
}
