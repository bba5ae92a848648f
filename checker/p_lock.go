package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:      "C25",
		Title:   "Shared state is accessed only under its lock",
		Explain: "Interprocedural lockset analysis over the whole module: flow-sensitive locks held before every instruction (mutexes named by access paths), lock requirements of field accesses pushed to the callers and to the places where closures run; unlock balance and modes; a lock-order graph with call-graph summaries; condition variables; local variables shared with goroutines.",
		Run:     runLocks,
	})
}

// A lockset maps the canonical name of a mutex to the mode in which it is held.
type lockset map[string]int

const (
	lockR = 1
	lockW = 2
)

func (s lockset) clone() lockset {
	o := lockset{}
	for k, v := range s {
		o[k] = v
	}
	return o
}

func (s lockset) equal(o lockset) bool {
	if len(s) != len(o) {
		return false
	}
	for k, v := range s {
		if o[k] != v {
			return false
		}
	}
	return true
}

type lockFacts struct {
	must, may   lockset
	deferred    lockset // unlocks deferred on every path
	mayDeferred lockset // unlocks deferred on some path
	pending     lockset // held on some path on which no unlock is deferred
}

func (f lockFacts) clone() lockFacts {
	return lockFacts{f.must.clone(), f.may.clone(), f.deferred.clone(), f.mayDeferred.clone(), f.pending.clone()}
}

type lockPath struct {
	root   ssa.Value
	suffix string
}

type lockAn struct {
	p     *Prog
	r     *Report
	ids   map[ssa.Value]int
	vals  []ssa.Value
	paths map[ssa.Value]lockPath
	at    map[ssa.Instruction]lockFacts
	done  map[*ssa.Function]bool
	cells map[ssa.Value]ssa.Value

	keyVar  map[string]*types.Var
	keyPath map[string]lockPath

	mutexes map[*types.Var]*types.Named // mutex field -> owner
	rw      map[*types.Var]bool
	acq     map[*ssa.Function]map[*types.Var]token.Pos
	acqBusy map[*ssa.Function]bool
}

func (a *lockAn) id(v ssa.Value) int {
	if i, ok := a.ids[v]; ok {
		return i
	}
	i := len(a.vals)
	a.ids[v] = i
	a.vals = append(a.vals, v)
	return i
}

func (a *lockAn) key(p lockPath) string { return fmt.Sprintf("%d%s", a.id(p.root), p.suffix) }

// cellValue is the only value ever stored in a local variable.
func (a *lockAn) cellValue(cell ssa.Value) ssa.Value {
	if v, ok := a.cells[cell]; ok {
		return v
	}
	a.cells[cell] = nil
	var val ssa.Value
	n := 0
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					val = in.Val
					n++
				} else {
					n += 2
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == v {
						visit(in.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				n += 2
			}
		}
	}
	visit(cell)
	if n == 1 {
		a.cells[cell] = val
	}
	return a.cells[cell]
}

// path is a canonical name for a value: equal names are equal values as long
// as the fields on the way are not assigned.
func (a *lockAn) path(v ssa.Value) lockPath {
	if p, ok := a.paths[v]; ok {
		return p
	}
	a.paths[v] = lockPath{root: v}
	p := a.path1(v)
	a.paths[v] = p
	return p
}

func (a *lockAn) binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	mcs := a.p.idx.closures[fn]
	if len(mcs) != 1 {
		return nil
	}
	for i, x := range fn.FreeVars {
		if x == fv {
			return mcs[0].Bindings[i]
		}
	}
	return nil
}

func (a *lockAn) path1(v ssa.Value) lockPath {
	switch v := v.(type) {
	case *ssa.ChangeType:
		return a.path(v.X)
	case *ssa.MakeInterface:
		return a.path(v.X)
	case *ssa.ChangeInterface:
		return a.path(v.X)
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return a.path(v.X)
		}
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			return a.path(ta.X)
		}
	case *ssa.FreeVar:
		if b := a.binding(v); b != nil {
			return a.path(b)
		}
	case *ssa.FieldAddr:
		b := a.path(v.X)
		return lockPath{b.root, b.suffix + "." + fieldVar(v.X.Type(), v.Field).Name()}
	case *ssa.IndexAddr:
		b, i := a.path(v.X), a.path(v.Index)
		if c, ok := v.Index.(*ssa.Const); ok {
			return lockPath{b.root, b.suffix + "[" + c.String() + "]"}
		}
		return lockPath{b.root, b.suffix + "[" + a.key(i) + "]"}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		switch v.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			cell := v.X
			for {
				fv, ok := cell.(*ssa.FreeVar)
				if !ok {
					break
				}
				b := a.binding(fv)
				if b == nil {
					break
				}
				cell = b
			}
			if al, ok := cell.(*ssa.Alloc); ok {
				if x := a.cellValue(al); x != nil {
					return a.path(x)
				}
			}
			if _, ok := cell.(*ssa.Parameter); ok {
				b := a.path(cell)
				return lockPath{b.root, b.suffix + "*"}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			b := a.path(v.X)
			return lockPath{b.root, b.suffix + "*"}
		default:
			b := a.path(v.X)
			return lockPath{b.root, b.suffix + "*"}
		}
	case *ssa.Phi:
		var r *lockPath
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			p := a.path(e)
			if r != nil && *r != p {
				return lockPath{root: v}
			}
			r = &p
		}
		if r != nil {
			return *r
		}
	}
	return lockPath{root: v}
}

// lockOp: the call locks or unlocks a mutex.
func (a *lockAn) lockOp(ci ssa.CallInstruction) (recv ssa.Value, lock bool, mode int, ok bool) {
	c := ci.Common()
	if c.IsInvoke() || len(c.Args) == 0 {
		return
	}
	switch calleeName(ci) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return c.Args[0], true, lockW, true
	case "(*sync.RWMutex).RLock":
		return c.Args[0], true, lockR, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return c.Args[0], false, lockW, true
	case "(*sync.RWMutex).RUnlock":
		return c.Args[0], false, lockR, true
	}
	return
}

func (a *lockAn) mutexVar(recv ssa.Value) *types.Var {
	if fa, ok := recv.(*ssa.FieldAddr); ok {
		return fieldVar(fa.X.Type(), fa.Field)
	}
	return nil
}

// analyse computes the locks held before each instruction of the function,
// relative to its entry.
func (a *lockAn) analyse(fn *ssa.Function) {
	if a.done[fn] || len(fn.Blocks) == 0 {
		return
	}
	a.done[fn] = true
	a.r.Analysed(fn)
	in := make([]*lockFacts, len(fn.Blocks))
	z := lockFacts{lockset{}, lockset{}, lockset{}, lockset{}, lockset{}}
	in[0] = &z
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	if fn.Recover != nil && in[fn.Recover.Index] == nil {
		f := z.clone()
		in[fn.Recover.Index] = &f
		work = append(work, fn.Recover)
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		f := in[b.Index].clone()
		for _, ins := range b.Instrs {
			a.at[ins] = f.clone()
			a.step(&f, ins)
		}
		for _, s := range b.Succs {
			if in[s.Index] == nil {
				c := f.clone()
				in[s.Index] = &c
				work = append(work, s)
				continue
			}
			o := in[s.Index]
			n := o.clone()
			meet(n.must, f.must)
			meet(n.deferred, f.deferred)
			join(n.may, f.may)
			join(n.mayDeferred, f.mayDeferred)
			join(n.pending, f.pending)
			if !n.must.equal(o.must) || !n.may.equal(o.may) || !n.deferred.equal(o.deferred) || !n.mayDeferred.equal(o.mayDeferred) || !n.pending.equal(o.pending) {
				in[s.Index] = &n
				work = append(work, s)
			}
		}
	}
}

func meet(a, b lockset) {
	for k, v := range a {
		if w := b[k]; w == 0 {
			delete(a, k)
		} else if w < v {
			a[k] = w
		}
	}
}

func join(a, b lockset) {
	for k, v := range b {
		if v > a[k] {
			a[k] = v
		}
	}
}

func (a *lockAn) step(f *lockFacts, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Call:
		recv, lock, mode, ok := a.lockOp(in)
		if !ok {
			return
		}
		k := a.key(a.path(recv))
		a.keyVar[k] = a.mutexVar(recv)
		a.keyPath[k] = a.path(recv)
		if lock {
			f.must[k], f.may[k] = mode, mode
			if f.deferred[k] == 0 {
				f.pending[k] = mode
			}
		} else {
			delete(f.must, k)
			delete(f.may, k)
			delete(f.pending, k)
		}
	case *ssa.Defer:
		if recv, lock, mode, ok := a.lockOp(in); ok && !lock {
			k := a.key(a.path(recv))
			f.deferred[k], f.mayDeferred[k] = mode, mode
			delete(f.pending, k)
			return
		}
		// a deferred closure that unlocks
		if g := staticCallee(in); g != nil && g.Parent() == in.Parent() {
			for k := range a.unlocks(g) {
				f.deferred[k], f.mayDeferred[k] = lockW, lockW
				delete(f.pending, k)
			}
		}
	case *ssa.RunDefers:
		for k := range f.deferred {
			delete(f.may, k)
		}
		for k := range f.mayDeferred {
			delete(f.must, k)
		}
	}
}

// unlocks lists the mutexes that a closure releases without having locked them.
func (a *lockAn) unlocks(g *ssa.Function) lockset {
	a.analyse(g)
	out := lockset{}
	instrs(g, func(in ssa.Instruction) {
		if ci, ok := in.(*ssa.Call); ok {
			if recv, lock, mode, ok := a.lockOp(ci); ok && !lock {
				k := a.key(a.path(recv))
				if a.at[in].must[k] == 0 {
					out[k] = mode
				}
			}
		}
	})
	return out
}

// rootFn is the function the root of the path belongs to.
func rootFn(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Global, *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	default:
		return v.Parent()
	}
}

// fresh: the object was made by the function itself.
func (a *lockAn) fresh(fn *ssa.Function, p lockPath) bool {
	if strings.Contains(p.suffix, "*") {
		return false
	}
	switch v := p.root.(type) {
	case *ssa.Alloc:
		return v.Parent() == fn
	case *ssa.Parameter:
		return v.Parent() == fn && a.onlyFresh(v, nil)
	case *ssa.Call:
		if v.Parent() != fn || p.suffix != "" && strings.ContainsAny(p.suffix, "*") {
			return false
		}
		g := staticCallee(v)
		return g != nil && a.makes(g, 0)
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok || c.Parent() != fn {
			return false
		}
		g := staticCallee(c)
		return g != nil && a.makes(g, v.Index)
	}
	return false
}

// makes: the function's result is an object it has just made.
func (a *lockAn) makes(g *ssa.Function, idx int) bool {
	if len(g.Blocks) == 0 || !inModule(g) {
		return false
	}
	ok, n := true, 0
	instrs(g, func(in ssa.Instruction) {
		r, isRet := in.(*ssa.Return)
		if !isRet || idx >= len(r.Results) || isNilConst(r.Results[idx]) {
			return
		}
		n++
		p := a.path(r.Results[idx])
		al, isAl := p.root.(*ssa.Alloc)
		if !isAl || p.suffix != "" || al.Parent() != g {
			ok = false
		}
	})
	return ok && n > 0
}

// onlyFresh: every caller passes an object it has just made.
func (a *lockAn) onlyFresh(prm *ssa.Parameter, busy map[*ssa.Parameter]bool) bool {
	fn := prm.Parent()
	if busy[prm] || len(a.p.idx.addrTaken[fn]) > 0 {
		return false
	}
	cs := a.p.idx.callers[fn]
	if len(cs) == 0 {
		return false
	}
	i := paramIndex(prm)
	for _, c := range cs {
		if _, ok := c.(*ssa.Go); ok {
			return false
		}
		if inTest(a.p, c) {
			continue
		}
		p := a.path(c.Common().Args[i])
		if strings.Contains(p.suffix, "*") {
			return false
		}
		switch v := p.root.(type) {
		case *ssa.Alloc:
			if v.Parent() != c.Parent() {
				return false
			}
		case *ssa.Parameter:
			b := map[*ssa.Parameter]bool{prm: true}
			for k := range busy {
				b[k] = true
			}
			if v.Parent() != c.Parent() || !a.onlyFresh(v, b) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func inTest(p *Prog, in ssa.Instruction) bool {
	return strings.HasSuffix(p.Fset.Position(in.Parent().Pos()).Filename, "_test.go")
}

func paramIndex(p *ssa.Parameter) int {
	for i, x := range p.Parent().Params {
		if x == p {
			return i
		}
	}
	return -1
}

type lockNeed struct {
	path lockPath   // of the mutex; zero for any mutex of this field
	mu   *types.Var // the mutex's field
	mode int

	via []ssa.Value // the guarded address, when the call may be given it
}

// metInside: the call is given the address of what is guarded, and the callee
// holds the lock when it uses it.
func (a *lockAn) metInside(in ssa.Instruction, n lockNeed) bool {
	ci, ok := in.(*ssa.Call)
	if !ok || n.path.root == nil {
		return false
	}
	g := staticCallee(ci)
	if g == nil || !inModule(g) || len(g.Blocks) == 0 {
		return false
	}
	a.analyse(g)
	found := false
	for i, x := range ci.Call.Args {
		if !slices.Contains(n.via, x) {
			continue
		}
		found = true
		for _, u := range *g.Params[i].Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.UnOp:
			case *ssa.Store:
				if u.Addr != ssa.Value(g.Params[i]) {
					return false
				}
			default:
				return false
			}
			held := false
			for k, mode := range a.at[u].must {
				if p, ok := a.mapPath(ci, g, a.keyPath[k]); ok && p == n.path && mode >= n.mode {
					held = true
				}
			}
			if !held {
				return false
			}
		}
	}
	return found
}

func (a *lockAn) holds(s lockset, n lockNeed) bool {
	if n.path.root != nil {
		return s[a.key(n.path)] >= n.mode
	}
	for k, m := range s {
		if m >= n.mode && a.keyField(k) == n.mu {
			return true
		}
	}
	return false
}

// met decides whether the lock is held at the instruction; the reason
// describes a path on which it is not.
func (a *lockAn) met(in ssa.Instruction, n lockNeed, depth int, seen map[string]bool) (bool, string) {
	fn := in.Parent()
	a.analyse(fn)
	where := a.p.Pos(in.Pos()) + " in " + fnLabel(fn)
	if f, ok := a.at[in]; !ok {
		return true, "" // unreachable
	} else if a.holds(f.must, n) {
		return true, ""
	}
	if n.path.root != nil && a.fresh(fn, n.path) || n.via != nil && a.metInside(in, n) {
		return true, ""
	}
	n.via = nil
	k := fmt.Sprintf("%p %s %d", fn, a.needKey(n), n.mode)
	if seen[k] {
		return true, ""
	}
	seen[k] = true
	if depth > 12 {
		return false, where
	}
	// the entry of the function
	if fn.Parent() != nil {
		return a.metClosure(fn, n, depth, seen, where)
	}
	if n.path.root != nil {
		prm, ok := n.path.root.(*ssa.Parameter)
		if !ok || prm.Parent() != fn {
			return false, where
		}
	}
	if len(a.p.idx.addrTaken[fn]) > 0 {
		return false, where + " (used as a value)"
	}
	cs := a.p.idx.callers[fn]
	m := 0
	for _, c := range cs {
		if inTest(a.p, c) {
			continue
		}
		m++
		if _, ok := c.(*ssa.Go); ok {
			return false, where + " (started as a goroutine at " + a.p.Pos(c.Pos()) + ")"
		}
		cn := n
		if n.path.root != nil {
			b := a.path(c.Common().Args[paramIndex(n.path.root.(*ssa.Parameter))])
			cn.path = lockPath{b.root, b.suffix + n.path.suffix}
		}
		if ok, why := a.metCall(c, cn, depth, seen); !ok {
			return false, where + " <- " + why
		}
	}
	if m == 0 {
		return false, where
	}
	return true, ""
}

// metCall: the lock is held when the call, or deferred call, runs.
func (a *lockAn) metCall(c ssa.CallInstruction, n lockNeed, depth int, seen map[string]bool) (bool, string) {
	d, ok := c.(*ssa.Defer)
	if !ok {
		return a.met(c, n, depth+1, seen)
	}
	// deferred: held at the defer statement, and released by nothing but
	// earlier defers
	fn := d.Parent()
	if ok, why := a.met(d, n, depth+1, seen); !ok {
		return false, why
	}
	bad := ""
	instrs(fn, func(in ssa.Instruction) {
		ci, isCall := in.(ssa.CallInstruction)
		if !isCall || in == ssa.Instruction(d) {
			return
		}
		recv, lock, _, isOp := a.lockOp(ci)
		if !isOp || lock || n.path.root != nil && a.path(recv) != n.path || n.path.root == nil && a.mutexVar(recv) != n.mu {
			return
		}
		if pathAvoiding(d, func(x ssa.Instruction) bool { return x == in }, func(ssa.Instruction) bool { return false }) != nil {
			bad = a.p.Pos(in.Pos())
		}
	})
	if bad != "" {
		return false, "deferred at " + a.p.Pos(d.Pos()) + ", released at " + bad
	}
	return true, ""
}

// metClosure: the lock is held whenever the closure runs.
func (a *lockAn) metClosure(fn *ssa.Function, n lockNeed, depth int, seen map[string]bool, where string) (bool, string) {
	uses := 0
	var check func(v ssa.Value) (bool, string)
	check = func(v ssa.Value) (bool, string) {
		if v.Referrers() == nil {
			return true, ""
		}
		for _, in := range *v.Referrers() {
			uses++
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.ChangeType:
				if ok, why := check(in); !ok {
					return false, why
				}
				continue
			case *ssa.Store:
				// a local function variable
				if al, ok := in.Addr.(*ssa.Alloc); ok && in.Val == v && a.cellValue(al) == v {
					if ok, why := a.checkCell(al, check); !ok {
						return false, why
					}
					continue
				}
			case *ssa.Return:
				if ok, why := a.metReturned(in, v, n, depth, seen); !ok {
					return false, where + " <- " + why
				}
				continue
			case *ssa.Go:
				return false, where + " (started as a goroutine at " + a.p.Pos(in.Pos()) + ")"
			case ssa.CallInstruction:
				cc := in.Common()
				if cc.Value == v {
					n := n
					if prm, ok := n.path.root.(*ssa.Parameter); ok && prm.Parent() == fn {
						b := a.path(cc.Args[paramIndex(prm)])
						n.path = lockPath{b.root, b.suffix + n.path.suffix}
					}
					if ok, why := a.metCall(in, n, depth, seen); !ok {
						return false, where + " <- " + why
					}
					continue
				}
				name := calleeName(in)
				if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "maps.") {
					if ok, why := a.metCall(in, n, depth, seen); !ok {
						return false, where + " <- " + why
					}
					continue
				}
				g := staticCallee(in)
				ok := g != nil && inModule(g) && len(g.Blocks) > 0
				if ok {
					for i, x := range cc.Args {
						if x == v && !a.metParam(g, i, in, n, depth, seen) {
							ok = false
						}
					}
				}
				if ok {
					continue
				}
				return false, where + " (a closure passed to " + name + " at " + a.p.Pos(in.Pos()) + ")"
			}
			return false, where + " (a closure that escapes at " + a.p.Pos(in.Pos()) + ")"
		}
		return true, ""
	}
	for _, mc := range a.p.idx.closures[fn] {
		if ok, why := check(mc); !ok {
			return false, why
		}
	}
	if len(a.p.idx.closures[fn]) == 0 {
		// a function literal without free variables
		for _, in := range a.p.idx.addrTaken[fn] {
			return false, where + " (a function value used at " + a.p.Pos(in.Pos()) + ")"
		}
		for _, c := range a.p.idx.callers[fn] {
			if _, ok := c.(*ssa.Go); ok {
				return false, where + " (a goroutine)"
			}
			cn := n
			if prm, ok := n.path.root.(*ssa.Parameter); ok && prm.Parent() == fn {
				b := a.path(c.Common().Args[paramIndex(prm)])
				cn.path = lockPath{b.root, b.suffix + n.path.suffix}
			}
			if ok, why := a.metCall(c, cn, depth, seen); !ok {
				return false, where + " <- " + why
			}
		}
	}
	return true, ""
}

// metReturned: a closure that the function returns is called by the function's
// callers, with the lock held.
func (a *lockAn) metReturned(ret *ssa.Return, v ssa.Value, n lockNeed, depth int, seen map[string]bool) (bool, string) {
	fn := ret.Parent()
	idx := -1
	for i, x := range ret.Results {
		if x == v {
			idx = i
		}
	}
	where := a.p.Pos(ret.Pos()) + " in " + fnLabel(fn)
	if fn.Parent() != nil || len(a.p.idx.addrTaken[fn]) > 0 || depth > 12 {
		return false, where + " (a closure that is returned)"
	}
	for _, c := range a.p.idx.callers[fn] {
		if inTest(a.p, c) {
			continue
		}
		call, ok := c.(*ssa.Call)
		if !ok {
			continue
		}
		cn := n
		if prm, ok := n.path.root.(*ssa.Parameter); ok && prm.Parent() == fn {
			b := a.path(call.Call.Args[paramIndex(prm)])
			cn.path = lockPath{b.root, b.suffix + n.path.suffix}
		}
		var use func(v ssa.Value) (bool, string)
		use = func(v ssa.Value) (bool, string) {
			for _, in := range *v.Referrers() {
				switch in := in.(type) {
				case *ssa.DebugRef, *ssa.BinOp:
				case *ssa.Extract:
					if in.Index == idx {
						if ok, why := use(in); !ok {
							return false, why
						}
					}
				case *ssa.Store:
					al, ok := in.Addr.(*ssa.Alloc)
					if !ok || in.Val != v {
						return false, a.p.Pos(in.Pos())
					}
					if ok, why := a.checkCell(al, use); !ok {
						return false, why
					}
				case *ssa.Return:
					if in.Parent() != call.Parent() {
						return false, a.p.Pos(in.Pos())
					}
					if ok, why := a.metReturned(in, v, cn, depth+1, seen); !ok {
						return false, why
					}
				case *ssa.Go:
					return false, "a goroutine at " + a.p.Pos(in.Pos())
				case ssa.CallInstruction:
					if in.Common().Value != v {
						return false, "passed on at " + a.p.Pos(in.Pos())
					}
					if ok, why := a.metCall(in, cn, depth+1, seen); !ok {
						return false, why
					}
				default:
					return false, a.p.Pos(in.Pos())
				}
			}
			return true, ""
		}
		if call.Call.Signature().Results().Len() == 1 && idx == 0 || call.Referrers() != nil {
			if ok, why := use(call); !ok {
				return false, why
			}
		}
	}
	return true, ""
}

func (a *lockAn) checkCell(cell ssa.Value, check func(ssa.Value) (bool, string)) (bool, string) {
	for _, in := range *cell.Referrers() {
		switch in := in.(type) {
		case *ssa.UnOp:
			if ok, why := check(in); !ok {
				return false, why
			}
		case *ssa.MakeClosure:
			for i, b := range in.Bindings {
				if b == cell {
					if ok, why := a.checkCell(in.Fn.(*ssa.Function).FreeVars[i], check); !ok {
						return false, why
					}
				}
			}
		}
	}
	return true, ""
}

// metParam: the function calls its function parameter only synchronously, and
// with the lock held there or at the call itself.
func (a *lockAn) metParam(g *ssa.Function, i int, site ssa.CallInstruction, n lockNeed, depth int, seen map[string]bool) bool {
	if i >= len(g.Params) || g.Params[i].Referrers() == nil {
		return false
	}
	prm := g.Params[i]
	a.analyse(g)
	atSite, _ := a.metCall(site, n, depth, seen)
	ok := true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.DebugRef, *ssa.BinOp:
			case *ssa.Call:
				if in.Call.Value != v {
					ok = false
					continue
				}
				if atSite {
					continue
				}
				held := false
				for k, m := range a.at[in].must {
					if m < n.mode {
						continue
					}
					if n.path.root == nil {
						held = held || a.keyField(k) == n.mu
						continue
					}
					for j, q := range g.Params {
						if j >= len(site.Common().Args) {
							break
						}
						pre := fmt.Sprint(a.id(q))
						if rest, cut := strings.CutPrefix(k, pre); cut && (rest == "" || rest[0] == '.' || rest[0] == '*') {
							b := a.path(site.Common().Args[j])
							if a.key(lockPath{b.root, b.suffix + rest}) == a.key(n.path) {
								held = true
							}
						}
					}
				}
				ok = ok && held
			case *ssa.Defer:
				ok = ok && in.Call.Value == v && atSite
			default:
				ok = false
			}
		}
	}
	visit(prm)
	return ok
}

func (a *lockAn) needKey(n lockNeed) string {
	if n.path.root == nil {
		return n.mu.Name()
	}
	return a.key(n.path)
}

// keyField maps the name of a mutex back to its field.
func (a *lockAn) keyField(k string) *types.Var {
	return a.keyVar[k]
}

// A lockAccess is one use of a guarded field.
type lockAccess struct {
	in    ssa.Instruction
	write bool
	elem  bool // of what the field refers to, not of the field itself
	fa    *ssa.FieldAddr
	via   []ssa.Value // the addresses that a call is given
}

// accesses lists the uses of the field's memory: loads and stores, operations
// on the map or slice it holds, and calls that are given its address.
func (a *lockAn) accesses(fa *ssa.FieldAddr) []lockAccess {
	var out []lockAccess
	elem := false
	add := func(in ssa.Instruction, w bool) { out = append(out, lockAccess{in, w, elem, fa, nil}) }
	seen := map[ssa.Value]bool{}
	var addr, val func(v ssa.Value)
	val = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		_, isMap := v.Type().Underlying().(*types.Map)
		_, isSlice := v.Type().Underlying().(*types.Slice)
		if !isMap && !isSlice {
			return
		}
		was := elem
		elem = true
		defer func() { elem = was }()
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Phi:
				val(in)
			case *ssa.Lookup, *ssa.Index:
				add(in, false)
			case *ssa.MapUpdate:
				if in.Map == v {
					add(in, true)
				}
			case *ssa.Range:
				for _, u := range *in.Referrers() {
					if nx, ok := u.(*ssa.Next); ok {
						add(nx, false)
					}
				}
			case *ssa.IndexAddr:
				if in.X == v {
					addr(in)
				}
			case *ssa.Slice:
				val(in)
			case *ssa.Call:
				n := calleeName(in)
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					n = b.Name()
				}
				switch n {
				case "delete", "clear":
					add(in, true)
				case "len", "append", "copy", "cap":
					if isMap {
						add(in, false)
					}
				case "maps.Copy", "maps.DeleteFunc", "slices.Sort", "slices.SortFunc", "slices.Reverse", "sort.Strings", "sort.Ints":
					add(in, true)
				default:
					if isMap {
						add(in, false)
					}
				}
			case *ssa.Return:
				if isMap {
					add(in, true)
				}
			}
		}
	}
	addr = func(v ssa.Value) {
		if v.Referrers() == nil || seen[v] {
			return
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Phi:
				addr(in)
			case *ssa.UnOp:
				add(in, false)
				val(in)
			case *ssa.Store:
				if in.Addr == v {
					add(in, true)
				}
			case *ssa.FieldAddr:
				addr(in)
			case *ssa.IndexAddr:
				addr(in)
			case *ssa.Slice:
				add(in, true)
			case ssa.CallInstruction:
				add(in, true)
				out[len(out)-1].via = []ssa.Value{v}
			case *ssa.MakeInterface:
				for _, u := range *in.Referrers() {
					if _, ok := u.(ssa.CallInstruction); ok {
						add(u, true)
					} else if st, ok := u.(*ssa.Store); ok {
						// an argument of a variadic call
						add(st, true)
					}
				}
			}
		}
	}
	addr(fa)
	return out
}

// guardFor is the mutex that guards the fields of the struct which are
// declared where the given one is: the mutex before it (and then it does guard
// them, by the convention that the code follows), or the first one, which may.
func guardFor(st *types.Struct, i int) (mu *types.Var, strict bool) {
	var first, last *types.Var
	for j := 0; j < st.NumFields(); j++ {
		f := st.Field(j)
		if isMutex(f.Type()) {
			if first == nil {
				first = f
			}
			if j < i {
				last = f
			}
		}
	}
	if last != nil {
		return last, true
	}
	return first, false
}

func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// Fields that are not guarded by their struct's mutex, with the reason.
var unguarded = map[string]string{
	"proxy.Proxy.ctx":               "set by Start before the goroutines that use it exist",
	"proxy.Proxy.cancel":            "set by Start before the goroutines that use it exist",
	"proxy.Proxy.listener":          "set by Start before the goroutines that use it exist",
	"proxy.Proxy.quicTransport":     "set by Start before the goroutines that use it exist",
	"proxy.Proxy.connClosed":        "set by Start before the goroutines that use it exist",
	"proxy.Proxy.startTime":         "set by Start before the goroutines that use it exist",
	"proxy.Proxy.wsUpgrader":        "set by Reconfigure before the handlers that use it are published, and never again",
	"netw.QUICConn.upBytesSent":     "set before the connection's streams exist",
	"netw.QUICConn.upBytesReceived": "set before the connection's streams exist",
	"passkeys.Manager.acl":          "set by Reconfigure before the manager is published",
}

func runLocks(r *Report, p *Prog) {
	a := &lockAn{p: p, r: r, ids: map[ssa.Value]int{}, paths: map[ssa.Value]lockPath{}, at: map[ssa.Instruction]lockFacts{}, done: map[*ssa.Function]bool{}, cells: map[ssa.Value]ssa.Value{}, keyVar: map[string]*types.Var{}, keyPath: map[string]lockPath{}, mutexes: map[*types.Var]*types.Named{}, rw: map[*types.Var]bool{}, acq: map[*ssa.Function]map[*types.Var]token.Pos{}, acqBusy: map[*ssa.Function]bool{}}
	const held = "lock-held"
	r.Rule(held, "every access to a mutable field of a struct with a mutex is made with that mutex held (exclusively, for a write), in the function itself or in all of its callers, or to an object that is not shared yet")
	var owners []*types.Named
	for _, path := range p.ModPkgs {
		if isExamplePath(path) {
			continue
		}
		sc := p.SPkgs[path].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); isMutex(f.Type()) {
					if len(owners) == 0 || owners[len(owners)-1] != nt {
						owners = append(owners, nt)
					}
					a.mutexes[f] = nt
					a.rw[f] = f.Type().String() == "sync.RWMutex"
				}
			}
		}
	}
	for _, nt := range owners {
		st := nt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if t := f.Type().String(); strings.HasPrefix(t, "sync.") || strings.HasPrefix(t, "sync/atomic.") {
				continue
			}
			a.checkField(held, nt, st, i)
		}
	}
	a.checkOthers(held, owners)
	const bal, ord = "lock-balance", "lock-order"
	r.Rule(bal, "a function releases the locks it acquires on every path, in the mode in which it acquired them, and releases no others")
	a.balance(bal)
	r.Rule(ord, "locks are acquired in one global order, and no lock is acquired again by a function called while it is held")
	a.order(ord)
	const cond, capt = "lock-cond", "captured-variable"
	r.Rule(cond, "a goroutine waits for a condition variable in a loop, with its lock held, and those that wake it hold the lock, or have acquired it after changing the condition: no wakeup is lost")
	a.conds(cond)
	r.Rule(capt, "a local variable that a goroutine shares with the function that started it is not written by one while the other may access it")
	a.captures(capt)
}

// conds: the lock is held around the operations of a condition variable.
func (a *lockAn) conds(rule string) {
	n := 0
	locks := map[*types.Var]*types.Var{} // condition variable -> mutex
	for _, c := range a.p.callSites("sync.NewCond") {
		if inTest(a.p, c) {
			continue
		}
		mi, ok := c.Common().Args[0].(*ssa.MakeInterface)
		if !ok {
			continue
		}
		mu := a.mutexVar(mi.X)
		for _, u := range *c.(ssa.Value).Referrers() {
			if st, ok := u.(*ssa.Store); ok && mu != nil {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					locks[fieldVar(fa.X.Type(), fa.Field)] = mu
				}
			}
		}
	}
	var ops []ssa.CallInstruction
	for _, name := range []string{"Wait", "Signal", "Broadcast"} {
		ops = append(ops, a.p.callSites("(*sync.Cond)."+name)...)
	}
	for _, c := range ops {
		if inTest(a.p, c) {
			continue
		}
		n++
		op := c.Common().StaticCallee().Name()
		fn := c.Parent()
		construct := op + " in " + fnLabel(fn)
		var cv, mu *types.Var
		var base ssa.Value
		if ld, ok := c.Common().Args[0].(*ssa.UnOp); ok {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				cv, base = fieldVar(fa.X.Type(), fa.Field), fa.X
				mu = locks[cv]
			}
		}
		if mu == nil {
			a.r.Assert(false, rule, construct, c.Pos(), "the lock of the condition variable is not known")
			continue
		}
		b := a.path(base)
		need := lockNeed{path: lockPath{b.root, b.suffix + "." + mu.Name()}, mu: mu, mode: lockW}
		ok, why := a.met(c, need, 0, map[string]bool{})
		if op == "Wait" {
			a.r.Assert(ok, rule, construct, c.Pos(), "%s is not held: %s", mu.Name(), why)
			a.r.Assert(innermost(fn, c.Block()) != nil, rule, construct, c.Pos(), "the condition is not checked again after the wakeup")
			continue
		}
		if !ok {
			// acquired and released before, on every path
			isLock := func(in ssa.Instruction) bool {
				ci, isCall := in.(*ssa.Call)
				if !isCall {
					return false
				}
				recv, lock, mode, isOp := a.lockOp(ci)
				return isOp && lock && mode == lockW && a.path(recv) == need.path
			}
			first := fn.Blocks[0].Instrs[0]
			ok = isLock(first) || pathAvoiding(first, func(in ssa.Instruction) bool { return in == ssa.Instruction(c) }, isLock) == nil
		}
		a.r.Assert(ok, rule, construct, c.Pos(), "%s is not held: the wakeup is lost when it comes between the check of the condition and Wait (%s)", mu.Name(), why)
	}
	a.r.AssertAt(n > 0, rule, "operations of condition variables", "-", "no condition variable is used")
}

// captures: goroutines and the functions that start them do not race for the
// local variables they share.
func (a *lockAn) captures(rule string) {
	n := 0
	for _, fn := range a.p.Funcs {
		if isExampleFn(fn) || inTestFile(a.p, fn) {
			continue
		}
		instrs(fn, func(in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				return
			}
			n++
			body := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				cell := b
				for {
					fv, ok := cell.(*ssa.FreeVar)
					if !ok {
						break
					}
					x := a.binding(fv)
					if x == nil {
						break
					}
					cell = x
				}
				al, ok := cell.(*ssa.Alloc)
				if !ok {
					continue
				}
				a.r.Assert(true, rule, "variable "+al.Comment+" of "+fnLabel(fn), g.Pos(), "")
				inside, outside := a.cellUses(body.FreeVars[i]), []cellUse(nil)
				for _, u := range a.cellUses(al) {
					if !within(u.in.Parent(), body) {
						outside = append(outside, u)
					}
				}
				loop := innermost(fn, g.Block())
				for _, x := range inside {
					// another instance of the same goroutine
					if x.write && loop != nil && al.Parent() == fn && innermost(fn, al.Block()) != loop && !a.cellLocked(x, x) {
						a.r.Assert(false, rule, "variable "+al.Comment+" of "+fnLabel(fn), x.in.Pos(), "written by goroutines that the loop at %s starts", a.p.Pos(g.Pos()))
					}
					for _, y := range outside {
						if !x.write && !y.write || a.cellLocked(x, y) || !a.after(g, y.in, al) {
							continue
						}
						a.r.Assert(false, rule, "variable "+al.Comment+" of "+fnLabel(fn), x.in.Pos(), "the goroutine started at %s accesses it here, and %s at %s: one of them writes it", a.p.Pos(g.Pos()), fnLabel(y.in.Parent()), a.p.Pos(y.in.Pos()))
					}
				}
			}
		})
	}
	a.r.AssertAt(n > 0, rule, "goroutines", "-", "no closure is started as a goroutine")
}

type cellUse struct {
	in    ssa.Instruction
	write bool
}

// cellUses lists the reads and writes of a local variable, also by closures.
func (a *lockAn) cellUses(cell ssa.Value) []cellUse {
	var out []cellUse
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					out = append(out, cellUse{in, true})
				}
			case *ssa.UnOp:
				out = append(out, cellUse{in, false})
			case *ssa.FieldAddr:
				visit(in)
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == v {
						visit(in.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	visit(cell)
	return out
}

func within(fn, outer *ssa.Function) bool {
	for ; fn != nil; fn = fn.Parent() {
		if fn == outer {
			return true
		}
	}
	return false
}

// cellLocked: both accesses are made with the same mutex held.
func (a *lockAn) cellLocked(x, y cellUse) bool {
	a.analyse(x.in.Parent())
	a.analyse(y.in.Parent())
	for k := range a.at[x.in].must {
		if a.at[y.in].must[k] != 0 {
			return true
		}
	}
	return false
}

// after: the instruction may run after the goroutine was started and before
// anything waits for it.
func (a *lockAn) after(g *ssa.Go, in ssa.Instruction, cell *ssa.Alloc) bool {
	waits := func(x ssa.Instruction) bool {
		switch x := x.(type) {
		case *ssa.Alloc:
			return x == cell // another variable from here on
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Select:
			return x.Blocking
		case *ssa.Call:
			return calleeName(x) == "(*sync.WaitGroup).Wait"
		}
		return false
	}
	fn := g.Parent()
	if in.Parent() == fn {
		return pathAvoiding(g, func(x ssa.Instruction) bool { return x == in }, waits) != nil
	}
	if !within(in.Parent(), fn) {
		// in a function around the one that starts the goroutine
		return false
	}
	// in another closure: when it is made, or was before, it may run any time
	var mk *ssa.Function
	for f := in.Parent(); f != fn; f = f.Parent() {
		mk = f
	}
	for _, mc := range a.p.idx.closures[mk] {
		escapes, started := false, false
		for _, u := range *mc.Referrers() {
			switch u := u.(type) {
			case *ssa.Go:
				started = true
			case *ssa.Call:
				if u.Call.Value == ssa.Value(mc) {
					if pathAvoiding(g, func(x ssa.Instruction) bool { return x == ssa.Instruction(u) }, waits) != nil {
						return true
					}
				} else {
					escapes = true
				}
			case *ssa.Defer:
				if u.Call.Value != ssa.Value(mc) {
					escapes = true
				} else if pathAvoiding(g, func(x ssa.Instruction) bool { _, ok := x.(*ssa.RunDefers); return ok }, waits) != nil {
					return true
				}
			default:
				escapes = true
			}
		}
		if started {
			return true
		}
		if escapes {
			// a callback: it may run in any goroutine
			return true
		}
	}
	return false
}

// checkOthers: a field of a struct without a mutex is guarded by the mutex of
// an object it refers to, when it is written with that mutex held.
func (a *lockAn) checkOthers(rule string, owners []*types.Named) {
	own := map[*types.Named]bool{}
	for _, nt := range owners {
		own[nt] = true
	}
	for _, path := range a.p.ModPkgs {
		if isExamplePath(path) {
			continue
		}
		sc := a.p.SPkgs[path].Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || own[nt] {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				a.checkOther(rule, nt, st.Field(i), nil)
			}
		}
	}
	// what a guarded field refers to is guarded too
	for _, o := range owners {
		st := o.Underlying().(*types.Struct)
		content := map[*types.Named]*types.Var{}
		for i := 0; i < st.NumFields(); i++ {
			mu, _ := guardFor(st, i)
			var reach func(t types.Type)
			reach = func(t types.Type) {
				switch t := t.(type) {
				case *types.Pointer:
					reach(t.Elem())
				case *types.Slice:
					reach(t.Elem())
				case *types.Array:
					reach(t.Elem())
				case *types.Map:
					reach(t.Key())
					reach(t.Elem())
				case *types.Named:
					u, ok := t.Underlying().(*types.Struct)
					if !ok {
						reach(t.Underlying())
						return
					}
					if own[t] || t.Obj().Pkg() != o.Obj().Pkg() || content[t] != nil {
						return
					}
					for j := 0; j < u.NumFields(); j++ {
						if strings.Contains(u.Tag(j), "yaml:") {
							// a configuration: not modified once it is in use
							return
						}
					}
					content[t] = mu
					for j := 0; j < u.NumFields(); j++ {
						reach(u.Field(j).Type())
					}
				}
			}
			reach(st.Field(i).Type())
		}
		var ts []*types.Named
		for t := range content {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].Obj().Name() < ts[j].Obj().Name() })
		for _, t := range ts {
			u := t.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				a.checkOther(rule, t, u.Field(i), content[t])
			}
		}
	}
}

func (a *lockAn) checkOther(rule string, nt *types.Named, f, mu *types.Var) {
	if strings.HasPrefix(f.Type().String(), "sync") {
		return
	}
	var acc []lockAccess
	for _, fa := range a.p.idx.faddrs[f] {
		if !inTest(a.p, fa) {
			acc = append(acc, a.accesses(fa)...)
		}
	}
	// the mutex is reached from the object through fields
	var guard string
	name := ""
	if mu != nil {
		written := false
		for _, x := range acc {
			if x.write && !a.freshBase(x) && !a.unpublished(x) {
				ok, _ := a.met(x.in, lockNeed{mu: mu, mode: lockW}, 0, map[string]bool{})
				written = written || ok
			}
		}
		if !written {
			return
		}
		name = a.mutexes[mu].Obj().Name() + "." + mu.Name()
	}
	for _, x := range acc {
		if !x.write || mu != nil && guard == "" {
			continue
		}
		a.analyse(x.in.Parent())
		b := a.key(a.path(x.fa.X))
		for k := range a.at[x.in].must {
			if rest, ok := strings.CutPrefix(k, b); ok && strings.HasPrefix(rest, ".") && a.keyVar[k] != nil {
				if guard != "" && guard != rest {
					return
				}
				guard, mu = rest, a.keyVar[k]
			}
		}
	}
	if guard == "" && name == "" {
		return
	}
	if guard != "" {
		name = strings.TrimPrefix(guard, ".")
	}
	label := typeLabel(nt) + "." + f.Name()
	for _, x := range acc {
		if a.freshBase(x) || a.unpublished(x) {
			continue
		}
		n := lockNeed{mu: mu, mode: lockR, via: x.via}
		if guard != "" {
			b := a.path(x.fa.X)
			n.path = lockPath{b.root, b.suffix + guard}
		}
		if x.write {
			n.mode = lockW
		}
		ok, why := a.met(x.in, n, 0, map[string]bool{})
		what := "read"
		if x.write {
			what = "written"
		}
		a.r.Assert(ok, rule, label+" "+what+" in "+fnLabel(x.in.Parent()), x.in.Pos(), "%s is %s without %s held: %s", label, what, name, why)
	}
}

// unpublished: the object is part of one that the function, or every caller
// of the function, has made (a clone) and has not stored anywhere yet.
func (a *lockAn) unpublished(x lockAccess) bool {
	return a.unpublishedAt(x.in, a.path(x.fa.X).root, 0)
}

func (a *lockAn) unpublishedAt(at ssa.Instruction, root ssa.Value, depth int) bool {
	fn := at.Parent()
	if !a.fresh(fn, lockPath{root: root}) {
		q, ok := root.(*ssa.Parameter)
		if !ok || q.Parent() != fn || depth > 3 || len(a.p.idx.addrTaken[fn]) > 0 {
			return false
		}
		n := 0
		for _, c := range a.p.idx.callers[fn] {
			if inTest(a.p, c) {
				continue
			}
			n++
			if _, ok := c.(*ssa.Call); !ok || !a.unpublishedAt(c, a.path(c.Common().Args[paramIndex(q)]).root, depth+1) {
				return false
			}
		}
		if n == 0 {
			return false
		}
	}
	ok := true
	instrs(fn, func(in ssa.Instruction) {
		st, isStore := in.(*ssa.Store)
		if !isStore {
			return
		}
		v, d := a.path(st.Val), a.path(st.Addr)
		if v.root != root || d.root == root || a.fresh(fn, d) {
			return
		}
		if pathAvoiding(st, func(y ssa.Instruction) bool { return y == at }, func(ssa.Instruction) bool { return false }) != nil {
			ok = false
		}
	})
	return ok
}

// balance: what a function locks it unlocks, on every path, and only that.
func (a *lockAn) balance(rule string) {
	n := 0
	for _, fn := range a.p.Funcs {
		if isExampleFn(fn) || strings.HasSuffix(a.p.Fset.Position(fn.Pos()).Filename, "_test.go") {
			continue
		}
		ops := false
		instrs(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, _, _, ok := a.lockOp(ci); ok {
					ops = true
				}
			}
		})
		if !ops {
			continue
		}
		n++
		a.analyse(fn)
		released := a.unlocks(fn)
		instrs(fn, func(in ssa.Instruction) {
			f, reached := a.at[in]
			if !reached {
				return
			}
			switch in := in.(type) {
			case *ssa.Call:
				recv, lock, mode, ok := a.lockOp(in)
				if !ok {
					return
				}
				k := a.key(a.path(recv))
				name := a.mutexName(recv)
				if lock {
					a.r.Assert(f.may[k] == 0 || f.may[k] == lockR && mode == lockR, rule, name+" locked in "+fnLabel(fn), in.Pos(), "%s may already be held here", name)
					return
				}
				if released[k] != 0 && fn.Parent() != nil {
					return // a closure that releases what its function locked
				}
				a.r.Assert(f.must[k] == mode, rule, name+" unlocked in "+fnLabel(fn), in.Pos(), "%s is not held, in this mode, on every path to this unlock", name)
			case *ssa.Defer:
				recv, lock, mode, ok := a.lockOp(in)
				if !ok || lock {
					return
				}
				k := a.key(a.path(recv))
				name := a.mutexName(recv)
				a.r.Assert(f.must[k] == mode && f.mayDeferred[k] == 0 && innermost(fn, in.Block()) == nil, rule, name+" unlock deferred in "+fnLabel(fn), in.Pos(), "%s is not held, in this mode and with no other unlock deferred, on every path to this statement", name)
			case *ssa.Return:
				for k := range f.pending {
					a.r.Assert(false, rule, "return of "+fnLabel(fn), posOf(in), "%s may still be held when the function returns", a.keyVar[k].Name())
				}
				a.r.Assert(true, rule, "return of "+fnLabel(fn), posOf(in), "")
			}
		})
	}
	a.r.AssertAt(n > 0, rule, "functions that lock", "-", "no function locks a mutex")
}

func isExampleFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && isExamplePath(fn.Pkg.Pkg.Path()+"/")
}

func (a *lockAn) mutexName(recv ssa.Value) string {
	fv := a.mutexVar(recv)
	if fv == nil {
		return "mutex"
	}
	if nt := a.mutexes[fv]; nt != nil {
		return typeLabel(nt) + "." + fv.Name()
	}
	return fv.Name()
}

// callees lists what a call may run before it returns: static callees,
// implementations of interface methods in the module, closures behind function
// values, and closures given to calls outside of the module.
func (a *lockAn) callees(ci ssa.CallInstruction) []*ssa.Function {
	if _, ok := ci.(*ssa.Go); ok {
		return nil
	}
	c := ci.Common()
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && inModule(f) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	fnArgs := func() {
		for _, x := range c.Args {
			if _, ok := x.Type().Underlying().(*types.Signature); ok {
				add(resolveFuncValue(x))
			}
		}
	}
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range a.p.Funcs {
			if f.Name() != c.Method.Name() || f.Signature.Recv() == nil || inTestFile(a.p, f) || it == nil {
				continue
			}
			if types.Implements(f.Signature.Recv().Type(), it) && a.mayBe(c.Value, f.Signature.Recv().Type()) {
				add(f)
			}
		}
		return out
	}
	if f := staticCallee(ci); f != nil {
		if inModule(f) {
			add(f)
		} else {
			fnArgs()
		}
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	for f := range a.p.Origins(c.Value, FlowOpts{Fields: true}).Funcs {
		add(f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// mayBe: the interface value may hold the type. What a field of a struct of
// another module holds is only what this module puts there (or a type of the
// other module).
func (a *lockAn) mayBe(v ssa.Value, t types.Type) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return true
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return true
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	if fv.Pkg() == nil || slices.Contains(a.p.ModPkgs, fv.Pkg().Path()) {
		return true
	}
	for _, st := range a.p.idx.stores[fv] {
		if isNilConst(st.Val) {
			continue
		}
		mi, ok := st.Val.(*ssa.MakeInterface)
		if !ok || types.Identical(mi.X.Type(), t) {
			return true
		}
	}
	return false
}

// acquires lists the mutexes that a call of the function may lock, and, where
// they are reached from its parameters, their paths.
type acquired struct {
	fields map[*types.Var]ssa.Instruction
	paths  map[string]lockPath
	vars   map[string]*types.Var
}

func (a *lockAn) acquires() map[*ssa.Function]*acquired {
	out := map[*ssa.Function]*acquired{}
	callees := map[ssa.CallInstruction][]*ssa.Function{}
	for _, fn := range a.p.Funcs {
		out[fn] = &acquired{map[*types.Var]ssa.Instruction{}, map[string]lockPath{}, map[string]*types.Var{}}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range a.p.Funcs {
			q := out[fn]
			instrs(fn, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if recv, lock, _, ok := a.lockOp(ci); ok {
					fv := a.mutexVar(recv)
					if !lock || fv == nil {
						return
					}
					if q.fields[fv] == nil {
						q.fields[fv] = in
						changed = true
					}
					p := a.path(recv)
					if k := a.key(p); q.paths[k].root == nil {
						q.paths[k] = p
						q.vars[k] = fv
						changed = true
					}
					return
				}
				cs, done := callees[ci]
				if !done {
					cs = a.callees(ci)
					callees[ci] = cs
				}
				for _, g := range cs {
					h := out[g]
					if h == nil {
						continue
					}
					for fv := range h.fields {
						if q.fields[fv] == nil {
							q.fields[fv] = in
							changed = true
						}
					}
					for k, p := range h.paths {
						if m, ok := a.mapPath(ci, g, p); ok {
							mk := a.key(m)
							if q.paths[mk].root == nil && len(m.suffix) < 120 {
								q.paths[mk] = m
								q.vars[mk] = h.vars[k]
								changed = true
							}
						}
					}
				}
			})
		}
	}
	return out
}

// mapPath translates a path of the callee to one of the caller.
func (a *lockAn) mapPath(ci ssa.CallInstruction, g *ssa.Function, p lockPath) (lockPath, bool) {
	prm, ok := p.root.(*ssa.Parameter)
	if !ok || prm.Parent() != g {
		// of an enclosing function, or a global
		_, isGlobal := p.root.(*ssa.Global)
		return p, isGlobal || ok && prm.Parent() != g
	}
	i := paramIndex(prm)
	c := ci.Common()
	var arg ssa.Value
	if c.IsInvoke() {
		if i == 0 {
			arg = c.Value
		} else {
			arg = c.Args[i-1]
		}
	} else if i < len(c.Args) && staticCallee(ci) == g {
		arg = c.Args[i]
	}
	if arg == nil {
		return lockPath{}, false
	}
	b := a.path(arg)
	return lockPath{b.root, b.suffix + p.suffix}, true
}

// order: mutexes are always acquired in the same order, and none twice.
func (a *lockAn) order(rule string) {
	acq := a.acquires()
	type edge struct{ from, to *types.Var }
	edges := map[edge]string{}
	label := func(v *types.Var) string {
		if nt := a.mutexes[v]; nt != nil {
			return typeLabel(nt) + "." + v.Name()
		}
		return v.Name()
	}
	n := 0
	for _, fn := range a.p.Funcs {
		if isExampleFn(fn) || inTestFile(a.p, fn) {
			continue
		}
		a.analyse(fn)
		instrs(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			f, reached := a.at[in]
			if !reached || len(f.may) == 0 {
				return
			}
			where := a.p.Pos(in.Pos()) + " in " + fnLabel(fn)
			if recv, lock, _, ok := a.lockOp(ci); ok {
				if fv := a.mutexVar(recv); lock && fv != nil {
					n++
					for k := range f.may {
						if h := a.keyVar[k]; h != nil && h != fv {
							edges[edge{h, fv}] = where
						}
					}
				}
				return
			}
			for _, g := range a.callees(ci) {
				h := acq[g]
				if h == nil {
					continue
				}
				for fv := range h.fields {
					n++
					for k := range f.may {
						if x := a.keyVar[k]; x != nil && x != fv {
							edges[edge{x, fv}] = where + " via " + fnLabel(g)
						}
					}
				}
				for k0, p := range h.paths {
					m, ok := a.mapPath(ci, g, p)
					if !ok {
						continue
					}
					k := a.key(m)
					a.r.Assert(f.may[k] == 0, "lock-order", "call of "+fnLabel(g)+" in "+fnLabel(fn), in.Pos(), "%s locks %s, which is held here: deadlock", fnLabel(g), label(h.vars[k0]))
				}
			}
		})
	}
	// cycles
	next := map[*types.Var][]*types.Var{}
	for e := range edges {
		next[e.from] = append(next[e.from], e.to)
	}
	var es []edge
	for e := range edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool {
		return label(es[i].from)+label(es[i].to) < label(es[j].from)+label(es[j].to)
	})
	for _, e := range es {
		seen := map[*types.Var]bool{}
		var reach func(v *types.Var) bool
		reach = func(v *types.Var) bool {
			if v == e.from {
				return true
			}
			if seen[v] {
				return false
			}
			seen[v] = true
			for _, w := range next[v] {
				if reach(w) {
					return true
				}
			}
			return false
		}
		a.r.AssertAt(!reach(e.to), rule, label(e.from)+" before "+label(e.to), edges[e], "the locks are also acquired in the other order")
	}
	a.r.AssertAt(n > 0, rule, "locks acquired while others are held", "-", "no lock is acquired while another one is held")
}

func inTestFile(p *Prog, f *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, "_test.go")
}

func isExamplePath(path string) bool { return strings.Contains(path, "/examples/") }

func typeLabel(nt *types.Named) string { return nt.Obj().Pkg().Name() + "." + nt.Obj().Name() }

// freshBase: the object is made by the function that accesses it, and perhaps
// just stored in another one.
func (a *lockAn) freshBase(x lockAccess) bool {
	fn := x.in.Parent()
	if a.fresh(fn, a.path(x.fa.X)) {
		return true
	}
	ld, ok := x.fa.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	where := a.path(ld.X)
	found := false
	instrs(fn, func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || a.path(st.Addr) != where {
			return
		}
		if v := a.path(st.Val); a.fresh(fn, v) && v.suffix == "" && st.Block().Dominates(x.in.Block()) && (st.Block() != x.in.Block() || instrIndex(st) < instrIndex(x.in)) {
			found = true
		}
	})
	return found
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func (a *lockAn) checkField(rule string, nt *types.Named, st *types.Struct, i int) {
	f := st.Field(i)
	label := typeLabel(nt) + "." + f.Name()
	mu, strict := guardFor(st, i)
	var acc []lockAccess
	for _, fa := range a.p.idx.faddrs[f] {
		if inTest(a.p, fa) {
			continue
		}
		acc = append(acc, a.accesses(fa)...)
	}
	base := func(x lockAccess) lockPath { return a.path(x.fa.X) }
	mutable := map[bool]bool{}
	for _, x := range acc {
		if x.write && !a.freshBase(x) {
			mutable[x.elem] = true
		}
	}
	if len(mutable) == 0 {
		return
	}
	if unguarded[label] != "" {
		return
	}
	type result struct {
		lockAccess
		ok  bool
		why string
	}
	var res []result
	locked := false
	for _, x := range acc {
		if !mutable[x.elem] || a.freshBase(x) {
			continue
		}
		b := base(x)
		n := lockNeed{path: lockPath{b.root, b.suffix + "." + mu.Name()}, mu: mu, mode: lockR, via: x.via}
		if x.write {
			n.mode = lockW
		}
		ok, why := a.met(x.in, n, 0, map[string]bool{})
		res = append(res, result{x, ok, why})
		locked = locked || ok
	}
	// a function that is the only writer may read what it wrote itself
	var sole *ssa.Function
	for _, x := range res {
		if x.write && !x.elem {
			if sole != nil && sole != x.in.Parent() {
				sole = nil
				break
			}
			sole = x.in.Parent()
		}
	}
	if !locked && !strict {
		// the mutex is not meant for this field
		return
	}
	for _, x := range res {
		ok, why := x.ok || !x.write && !x.elem && !mutable[true] && sole == x.in.Parent(), x.why
		what := "read"
		if x.write {
			what = "written"
		}
		a.r.Assert(ok, rule, label+" "+what+" in "+fnLabel(x.in.Parent()), x.in.Pos(), "%s is %s without %s held: %s", label, what, mu.Name(), why)
	}
}
