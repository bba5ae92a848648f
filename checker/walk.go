package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- State -----------------------------------------------------------------

type tri int8

const (
	unknown tri = 0
	yes     tri = 1
	no      tri = -1
)

func (t tri) not() tri { return -t }

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

// Ev is a recorded occurrence of an event of interest on a path.
type Ev struct {
	Label string
	Res   *Term
	Args  []*Term
	In    ssa.Instruction
	Tag   string
	key   string
	// Status is the resolved outcome of the last result: for a bool its
	// value, otherwise its nilness.
	Status tri
}

// resolve records, on the events, the outcomes the path has established.
func (s *State) resolve() {
	for k, e := range s.ev {
		if e.Status != unknown || e.Res == nil {
			continue
		}
		t := errTerm(s.w, e.Res)
		v := unknown
		if isBool(t.typ) {
			v = s.Bool(t)
		} else {
			v = s.Nil(t)
		}
		if v != unknown {
			n := *e
			n.Status = v
			s.ev[k] = &n
		}
	}
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// State is the path state shared by all frames of a virtual call stack.
type State struct {
	w     *Walker
	heap  map[*Term]*Term
	facts map[*Term]bool  // boolean terms; nilness is the fact isnil(t)
	eqs   map[*Term]*Term // term == constant
	ev    map[string]*Ev
}

func (s *State) clone() *State {
	n := &State{w: s.w, heap: make(map[*Term]*Term, len(s.heap)), facts: make(map[*Term]bool, len(s.facts)), eqs: make(map[*Term]*Term, len(s.eqs)), ev: make(map[string]*Ev, len(s.ev))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.eqs {
		n.eqs[k] = v
	}
	for k, v := range s.ev {
		n.ev[k] = v
	}
	return n
}

func (s *State) Event(label string, res *Term, args []*Term, in ssa.Instruction) *Ev {
	e := &Ev{Label: label, Res: res, Args: args, In: in}
	e.key = label
	if res != nil {
		e.key += "|" + strconv.Itoa(res.id)
	}
	for _, a := range args {
		if a != nil {
			e.key += "," + strconv.Itoa(a.id)
		}
	}
	s.ev[e.key] = e
	return e
}

func (s *State) Kill(label string) {
	for k, e := range s.ev {
		if e.Label == label {
			delete(s.ev, k)
		}
	}
}

// Has returns the recorded events with a label.
func (s *State) Has(label string) []*Ev {
	var out []*Ev
	for _, e := range s.ev {
		if e.Label == label {
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out
}

func (s *State) isNilTerm(t *Term) *Term {
	return s.w.T.mk(&Term{op: "isnil", args: []*Term{t}, typ: types.Typ[types.Bool]})
}

// Nil evaluates the nilness of a term.
func (s *State) Nil(t *Term) tri {
	if t == nil {
		return unknown
	}
	switch t.op {
	case "nil":
		return yes
	case "alloc", "addr", "func", "closure", "make", "zero", "iface":
		return no
	case "const":
		return no
	case "slice":
		if len(t.args) > 0 && t.args[0] != nil && (t.args[0].op == "alloc" || t.args[0].op == "addr") {
			return no
		}
	case "conv":
		return s.Nil(t.args[0])
	case "csym", "call":
		switch t.s {
		case "errors.New", "fmt.Errorf", "context.Background", "net/http.Error":
			return no
		}
	case "deref":
		if t.args[0].op == "global" && t.typ != nil && isErrorType(t.typ) && strings.HasPrefix(t.args[0].s, modPath) {
			return no
		}
	case "global":
		if t.typ != nil && isErrorType(t.typ) {
			return no
		}
	}
	if b, ok := s.facts[s.isNilTerm(t)]; ok {
		return triOf(b)
	}
	return unknown
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// Bool evaluates a boolean term.
func (s *State) Bool(t *Term) tri {
	switch t {
	case s.w.T.trueT:
		return yes
	case s.w.T.falseT:
		return no
	}
	if b, ok := s.facts[t]; ok {
		return triOf(b)
	}
	switch t.op {
	case "not":
		return s.Bool(t.args[0]).not()
	case "isnil":
		return s.Nil(t.args[0])
	case "bin":
		switch t.s {
		case "==":
			return s.Eq(t.args[0], t.args[1])
		}
	case "istype":
		if s.Nil(t.args[0]) == yes {
			return no
		}
		if ct := concreteType(t.args[0]); ct != nil {
			if _, isIface := t.typ.Underlying().(*types.Interface); !isIface {
				return triOf(types.Identical(ct, t.typ))
			}
		}
	case "call":
		switch t.s {
		case "errors.Is":
			if s.Nil(t.args[0]) == yes {
				return no
			}
			if t.args[0] == t.args[1] {
				return yes
			}
		}
	}
	return unknown
}

func concreteType(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	if t.op == "nil" {
		return nil
	}
	if _, ok := t.typ.Underlying().(*types.Interface); ok {
		return nil
	}
	return t.typ
}

// Eq evaluates equality.
func (s *State) Eq(a, b *Term) tri {
	if a == b {
		return yes
	}
	if a.op == "nil" {
		return s.Nil(b)
	}
	if b.op == "nil" {
		return s.Nil(a)
	}
	ca, cb := s.constOf(a), s.constOf(b)
	if ca != nil && cb != nil && sameKind(ca.cv, cb.cv) {
		return triOf(constant.Compare(ca.cv, eqTok, cb.cv))
	}
	if isLen(a) && s.Nil(a.args[0]) == yes && cb != nil {
		return triOf(cb.s == "0")
	}
	if isLen(b) && s.Nil(b.args[0]) == yes && ca != nil {
		return triOf(ca.s == "0")
	}
	if v, ok := s.facts[s.w.T.eq(a, b)]; ok {
		return triOf(v)
	}
	if a.op == "alloc" && b.op == "alloc" {
		return no
	}
	if isSentinel(a) && (isSentinel(b) && a.s != b.s || otherError(s.w, a, b)) || isSentinel(b) && otherError(s.w, b, a) {
		return no
	}
	return unknown
}

// isSentinel: the value of an exported or module-level error variable; no two
// of them are the same error.
func isSentinel(t *Term) bool {
	return t.op == "global" && t.typ != nil && isErrorType(t.typ)
}

// otherError: the error t was made by the standard library or by another
// package that does not know error variable g of a library.
func otherError(w *Walker, g, t *Term) bool {
	if t.op == "join" {
		alts := w.joinOf[t]
		if alts == nil {
			return false
		}
		delete(w.joinOf, t) // no cycles
		defer func() { w.joinOf[t] = alts }()
		for _, x := range alts {
			if x != t && x.op != "nil" && !otherError(w, g, x) {
				return false
			}
		}
		return true
	}
	for t.op == "extract" {
		t = t.args[0]
	}
	if t.op != "csym" || g.v == nil || t.s == "" || strings.HasPrefix(t.s, "dyn.") {
		return false
	}
	pkg := t.s
	if i := strings.LastIndex(pkg, "/"); i >= 0 {
		if j := strings.Index(pkg[i:], "."); j >= 0 {
			pkg = pkg[:i+j]
		}
	} else if j := strings.Index(pkg, "."); j >= 0 {
		pkg = pkg[:j]
	}
	pkg = strings.TrimLeft(pkg, "(*")
	gp := ""
	if g, ok := g.v.(*ssa.Global); ok {
		gp = g.Pkg.Pkg.Path()
	}
	first, _, _ := strings.Cut(pkg, "/")
	if !strings.Contains(gp, ".") || strings.HasPrefix(gp, modPath) || pkg == "builtin" {
		return false
	}
	if !strings.Contains(first, ".") {
		return true
	}
	if f := w.P.byName(t.s); f != nil {
		for x := range w.P.reachable(f) {
			if has(x, func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				n := calleeName(ci)
				return n == "" && !ci.Common().IsInvoke() || strings.HasPrefix(strings.TrimLeft(n, "(*"), gp)
			}) {
				return false
			}
		}
		return true
	}
	sp := w.P.SSA.ImportedPackage(pkg)
	return sp != nil && !importsPkg(sp.Pkg, gp, map[*types.Package]bool{})
}

func importsPkg(p *types.Package, path string, seen map[*types.Package]bool) bool {
	if p.Path() == path {
		return true
	}
	if seen[p] {
		return false
	}
	seen[p] = true
	for _, i := range p.Imports() {
		if importsPkg(i, path, seen) {
			return true
		}
	}
	return false
}

func isNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (s *State) constOf(t *Term) *Term {
	if t.op == "const" {
		return t
	}
	return s.eqs[t]
}

// Assume refines the state with cond == val; false if contradictory.
func (s *State) Assume(cond *Term, val bool) bool {
	if !s.assume(cond, val) {
		return false
	}
	s.resolve()
	return true
}

func (s *State) assume(cond *Term, val bool) bool {
	switch s.Bool(cond) {
	case yes:
		return val
	case no:
		return !val
	}
	switch cond.op {
	case "not":
		return s.assume(cond.args[0], !val)
	case "bin":
		if cond.s == "==" {
			a, b := cond.args[0], cond.args[1]
			if a.op == "nil" {
				a, b = b, a
			}
			if b.op == "nil" {
				s.facts[s.isNilTerm(a)] = val
				return true
			}
			if a.op == "const" {
				a, b = b, a
			}
			if b.op == "const" && val {
				s.eqs[a] = b
			}
		}
	case "istype":
		if val {
			s.facts[s.isNilTerm(cond.args[0])] = false
		}
	}
	s.facts[cond] = val
	return true
}

// Load reads the value stored at a path.
func (s *State) Load(path *Term, typ types.Type) *Term {
	in := s.w.T
	if typ != nil && (path.op == "alloc" || path.op == "field" || path.op == "index") && heapRoot(path).op == "alloc" {
		// a whole struct some of whose fields were set on their own
		if _, ok := typ.Underlying().(*types.Struct); ok {
			for k := range s.heap {
				if k != path && underPath(k, path) {
					return in.mk(&Term{op: "deref", args: []*Term{path}, typ: typ})
				}
			}
		}
	}
	if v, ok := s.heap[path]; ok {
		return v
	}
	switch path.op {
	case "field":
		b := path.args[0]
		if hv, ok := s.heap[b]; ok {
			return s.mkField(hv, path.fv)
		}
		if b.op == "field" || b.op == "index" {
			if _, isStruct := b.typOr().(*types.Struct); isStruct || b.op == "index" {
				vb := s.Load(b, nil)
				if vb != b {
					return s.mkField(vb, path.fv)
				}
			}
		}
		return path
	case "alloc":
		return in.mk(&Term{op: "deref", args: []*Term{path}, typ: typ})
	case "deref", "index", "global":
		if path.op == "deref" {
			return in.mk(&Term{op: "deref", args: path.args, typ: typ})
		}
		if path.op == "index" {
			if hv, ok := s.heap[path.args[0]]; ok && hv.op == "zero" {
				return in.zero(typ)
			}
		}
		return path
	}
	return path
}

func (t *Term) typOr() types.Type {
	if t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

func (s *State) mkField(v *Term, fv *types.Var) *Term {
	in := s.w.T
	if v.op == "zero" {
		return in.zero(fv.Type())
	}
	p := in.field(v, fv)
	if r, ok := s.heap[p]; ok {
		return r
	}
	if v.op == "deref" && heapRoot(v.args[0]).op == "alloc" {
		return s.Load(p, fv.Type())
	}
	return p
}

// StorePath writes a value to a path, invalidating sub-paths.
func (s *State) StorePath(path, val *Term) {
	in := s.w.T
	// whole-struct copy from a local: copy its fields
	type kv struct{ k, v *Term }
	var adds []kv
	if val.op == "deref" && heapRoot(val.args[0]).op == "alloc" && val.args[0] != path {
		src := val.args[0]
		for k, v := range s.heap {
			if k != src && underPath(k, src) {
				adds = append(adds, kv{rebase(in, k, src, path), v})
			}
		}
		if base := s.Load(src, nil); base != src && base.op != "deref" || base.op == "zero" {
			val = base
		}
	}
	for k := range s.heap {
		if k != path && underPath(k, path) {
			delete(s.heap, k)
		}
	}
	s.heap[path] = val
	for _, a := range adds {
		s.heap[a.k] = a.v
	}
}

func underPath(k, p *Term) bool {
	for k != nil {
		if k == p {
			return true
		}
		if (k.op == "field" || k.op == "index") && len(k.args) > 0 {
			k = k.args[0]
			continue
		}
		return false
	}
	return false
}

func rebase(in *interner, k, src, dst *Term) *Term {
	if k == src {
		return dst
	}
	n := *k
	n.args = append([]*Term(nil), k.args...)
	n.args[0] = rebase(in, k.args[0], src, dst)
	n.id, n.depth, n.orig = 0, 0, nil
	return in.mk(&n)
}

// Havoc forgets the contents of a local cell whose address escaped to a call.
func (s *State) Havoc(path, by *Term) {
	for k := range s.heap {
		if underPath(k, path) {
			delete(s.heap, k)
		}
	}
	h := s.w.T.mk(&Term{op: "havoc", args: []*Term{by, path}, typ: path.typ})
	if path.typ != nil {
		if _, ok := deref(path.typ).Underlying().(*types.Struct); ok && !isDecode(by) {
			h = s.w.T.mk(&Term{op: "havoc", args: []*Term{path}, typ: path.typ})
		}
	}
	s.heap[path] = h
}

// isDecode: the result of a function that fills in its argument from encoded
// data.
func isDecode(t *Term) bool {
	return t != nil && t.op == "csym" && oneOf(t.s, "encoding/asn1.Unmarshal", "encoding/asn1.UnmarshalWithParams")
}

// KillOrigin drops what is known about a symbol that is being redefined.
func (s *State) KillOrigin(o int) {
	for k := range s.facts {
		if k.mentionsOrigin(o) {
			delete(s.facts, k)
		}
	}
	for k := range s.eqs {
		if k.mentionsOrigin(o) {
			delete(s.eqs, k)
		}
	}
	for k := range s.heap {
		if k.mentionsOrigin(o) {
			delete(s.heap, k)
		}
	}
}

func (s *State) evKey() string {
	var ks []string
	for k, e := range s.ev {
		switch e.Status {
		case yes:
			k += "=1"
		case no:
			k += "=0"
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// ---- Frames ----------------------------------------------------------------

type deferRec struct {
	in   *ssa.Defer
	fn   *ssa.Function
	ct   *Term
	args []*Term
}

type local struct {
	env    map[ssa.Value]*Term
	defers []deferRec
}

func (l *local) clone() *local {
	n := &local{env: make(map[ssa.Value]*Term, len(l.env)), defers: l.defers[:len(l.defers):len(l.defers)]}
	for k, v := range l.env {
		n.env[k] = v
	}
	return n
}

type Frame struct {
	entry  map[*Term]bool // cells of other frames visible on entry
	Fn     *ssa.Function
	id     int
	Parent *Frame
	Call   ssa.Instruction
	depth  int
	inLoop bool   // the call chain passes through a loop
	fork   string // "go", "closure", ""
}

// Exit is one way a function returns.
type Exit struct {
	St    *State
	Rets  []*Term
	In    *ssa.Return
	Panic bool
}

// Rule parametrises a walk.
type Rule struct {
	Name string
	// OnCall sees every call (static, dynamic, interface, builtin) before it
	// is modelled.
	OnCall func(c *CallCtx)
	// OnInstr sees every other instruction.
	OnInstr func(c *Ctx, in ssa.Instruction)
	// OnReturn sees each return of the entry function and of forked closures.
	OnReturn func(c *Ctx, rets []*Term, in *ssa.Return)
	// OnBranch sees both outcomes of undecided branches.
	OnBranch func(c *Ctx, cond *Term, val bool)
	// OnWiden is called when the value of a loop variable is replaced by a
	// symbol; what it returns is called with that symbol.
	OnWiden func(c *Ctx, t *Term) func(sym *Term)
	// Keep says which facts survive joins although no live value needs them.
	Keep func(t *Term) bool
	// Interesting marks instructions that make a function worth inlining.
	Interesting func(in ssa.Instruction) bool
	// KeepPath says which stores to non-local memory are tracked across joins.
	KeepPath func(path *Term) bool
	NoInline func(fn *ssa.Function) bool
	// ForkClosures explores closures where they are created.
	ForkClosures bool
	NoGo         bool
	MaxDepth     int
	Cap          int
	InlineAll    bool
	KeepRes      bool // facts about results of recorded calls matter to the rule
	MergeLimit   int  // exits with distinct values kept apart per event class
}

// Ctx is what a callback sees.
type Ctx struct {
	W  *Walker
	St *State
	Fr *Frame
	L  *local
}

// CallCtx describes a call.
type CallCtx struct {
	Ctx
	In       ssa.CallInstruction
	Name     string
	Fn       *ssa.Function
	CT       *Term // callee term for dynamic calls
	Args     []*Term
	Res      *Term
	Go       bool
	Deferred bool
	Opaque   bool  // set by the rule: do not inline
	Result   *Term // set by the rule: model result
	After    func(st *State, res *Term)
	Stop     bool // set by the rule: end this path here
}

// V evaluates an SSA value in the current frame.
func (c *Ctx) V(v ssa.Value) *Term { return c.W.val(c.Fr, c.L, c.St, v) }

// Trace renders the virtual call stack.
func (c *Ctx) Trace(in ssa.Instruction) string {
	var parts []string
	for f := c.Fr; f != nil; f = f.Parent {
		s := fnLabel(f.Fn)
		if f.Call != nil {
			s += " (from " + c.W.P.Pos(f.Call.Pos()) + ")"
		}
		parts = append([]string{s}, parts...)
	}
	return strings.Join(parts, " → ") + " at " + c.W.P.Pos(posOf(in))
}

func posOf(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// nearest preceding instruction with a position
	if b := in.Block(); b != nil {
		last := token.NoPos
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				last = x.Pos()
			}
			if x == in && last.IsValid() {
				return last
			}
		}
		if last.IsValid() {
			return last
		}
		for _, p := range b.Preds {
			for i := len(p.Instrs) - 1; i >= 0; i-- {
				if p.Instrs[i].Pos().IsValid() {
					return p.Instrs[i].Pos()
				}
			}
		}
	}
	return in.Parent().Pos()
}

// ---- Walker ----------------------------------------------------------------

type fnInfo struct {
	liveIn  []map[ssa.Value]bool
	inLoop  []bool
	headers []bool
	size    int
	unroll  map[*ssa.Phi]bool // counters of loops run at most a few times
}

type Walker struct {
	P       *Prog
	R       *Rule
	T       *interner
	frames  map[string]int
	fparent map[int]int
	stats   map[string]int
	joinOf  map[*Term][]*Term // alternatives of a merged error
	infos   map[*ssa.Function]*fnInfo
	rel     map[*ssa.Function]bool
	forked  map[string]bool
	memo    map[string][]Exit
	Steps   int
	fnSteps map[string]int
	Widened int
	Inlined map[*ssa.Function]int
	Paths   int
	MaxStep int
	Over    bool
}

func NewWalker(p *Prog, r *Rule) *Walker {
	w := &Walker{P: p, R: r, T: newInterner(), frames: map[string]int{}, fparent: map[int]int{}, infos: map[*ssa.Function]*fnInfo{}, forked: map[string]bool{}, memo: map[string][]Exit{}, fnSteps: map[string]int{}, Inlined: map[*ssa.Function]int{}, MaxStep: 30_000_000}
	if r.MaxDepth == 0 {
		r.MaxDepth = 12
	}
	if r.MergeLimit == 0 {
		r.MergeLimit = 1
	}
	if r.Cap == 0 {
		r.Cap = 256
	}
	w.computeRelevance()
	return w
}

func (w *Walker) computeRelevance() {
	if w.R.InlineAll || w.R.Interesting == nil {
		return
	}
	w.rel = map[*ssa.Function]bool{}
	rev := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for _, fn := range w.P.Funcs {
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if w.R.Interesting(in) {
					hit = true
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						rev[g] = append(rev[g], fn)
					}
				}
			}
		}
		if hit && !w.rel[fn] {
			w.rel[fn] = true
			work = append(work, fn)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, c := range rev[f] {
			if !w.rel[c] {
				w.rel[c] = true
				work = append(work, c)
			}
		}
	}
}

func (w *Walker) relevant(fn *ssa.Function) bool {
	if w.rel == nil {
		return true
	}
	if w.rel[fn] {
		return true
	}
	// synthetic wrappers are not in P.Funcs unless referenced
	fi := w.info(fn)
	if fn.Signature.Results().Len() == 0 || fi.size > 40 || len(fn.Blocks) > 8 {
		return false
	}
	for _, l := range fi.inLoop {
		if l {
			return false
		}
	}
	return true
}

func (w *Walker) info(fn *ssa.Function) *fnInfo {
	if i, ok := w.infos[fn]; ok {
		return i
	}
	n := len(fn.Blocks)
	fi := &fnInfo{liveIn: make([]map[ssa.Value]bool, n), inLoop: make([]bool, n), headers: make([]bool, n)}
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
	}
	for _, b := range fn.Blocks {
		fi.size += len(b.Instrs)
	}
	// liveness
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s.Index] {
					live[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pj, pb := range s.Preds {
						if pb == b {
							addLive(live, phi.Edges[pj])
						}
					}
				}
				_ = pi
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					// a phi is live-in to its own block by convention of enter()
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						addLive(live, *op)
					}
				}
			}
			for v := range live {
				if !fi.liveIn[i][v] {
					fi.liveIn[i][v] = true
					changed = true
				}
			}
		}
	}
	// loops: block reaches itself
	for i, b := range fn.Blocks {
		seen := make([]bool, n)
		var st []*ssa.BasicBlock
		st = append(st, b.Succs...)
		for len(st) > 0 && !fi.inLoop[i] {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == b {
				fi.inLoop[i] = true
				break
			}
			if seen[x.Index] {
				continue
			}
			seen[x.Index] = true
			st = append(st, x.Succs...)
		}
	}
	for i, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				fi.headers[i] = true
			}
		}
	}
	fi.unroll = unrolled(fn, fi.headers)
	w.infos[fn] = fi
	return fi
}

func addLive(m map[ssa.Value]bool, v ssa.Value) {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return
	}
	m[v] = true
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (w *Walker) frame(fn *ssa.Function, parent *Frame, call ssa.Instruction, fork string) *Frame {
	pid := 0
	depth := 0
	if parent != nil {
		pid = parent.id
		depth = parent.depth + 1
	}
	k := fmt.Sprintf("%d|%p|%p|%s", pid, fn, call, fork)
	id, ok := w.frames[k]
	if !ok {
		id = len(w.frames) + 1
		w.frames[k] = id
		w.fparent[id] = pid
	}
	inLoop := false
	if parent != nil && call != nil {
		inLoop = parent.inLoop || call.Parent() == parent.Fn && w.info(parent.Fn).inLoop[call.Block().Index]
	}
	return &Frame{Fn: fn, id: id, Parent: parent, Call: call, depth: depth, fork: fork, inLoop: inLoop}
}

func (w *Walker) newState() *State {
	return &State{w: w, heap: map[*Term]*Term{}, facts: map[*Term]bool{}, eqs: map[*Term]*Term{}, ev: map[string]*Ev{}}
}

func (w *Walker) param(s string, v ssa.Value) *Term {
	return w.T.mk(&Term{op: "param", s: s, v: v, typ: v.Type()})
}

// Run walks an entry function; args may be nil (symbolic parameters).
func (w *Walker) Run(fn *ssa.Function, init func(c *Ctx)) []Exit {
	fr := w.frame(fn, nil, nil, "")
	st := w.newState()
	l := &local{env: map[ssa.Value]*Term{}}
	for _, p := range fn.Params {
		l.env[p] = w.param(p.Name(), p)
	}
	for _, p := range fn.FreeVars {
		l.env[p] = w.param("fv:"+p.Name(), p)
	}
	if init != nil {
		init(&Ctx{W: w, St: st, Fr: fr, L: l})
	}
	ex := w.run(fr, st, l)
	if w.R.OnReturn != nil {
		for _, e := range ex {
			if !e.Panic {
				w.R.OnReturn(&Ctx{W: w, St: e.St, Fr: fr, L: l}, e.Rets, e.In)
			}
		}
	}
	return ex
}

type item struct {
	b, pred *ssa.BasicBlock
	idx     int // resume inside b
	st      *State
	l       *local
}

func (w *Walker) run(fr *Frame, st *State, l *local) []Exit {
	fn := fr.Fn
	if len(fn.Blocks) == 0 {
		return nil
	}
	fi := w.info(fn)
	// cells that the caller still needs when this returns
	for k := range st.heap {
		if r := heapRoot(k); r.op == "alloc" && r.frame != fr.id && !fr.entry[r] {
			if fr.entry == nil {
				fr.entry = map[*Term]bool{}
			}
			fr.entry[r] = true
		}
	}
	var exits []Exit
	exitSeen := map[string]bool{}
	seen := make([]map[string]bool, len(fn.Blocks))
	groups := make([]map[string]*joined, len(fn.Blocks))
	for i := range seen {
		seen[i] = map[string]bool{}
		groups[i] = map[string]*joined{}
	}
	work := []item{{fn.Blocks[0], nil, 0, st, l}}
	push := func(b, pred *ssa.BasicBlock, idx int, st *State, l *local) {
		work = append(work, item{b, pred, idx, st, l})
	}
	midSeen := map[string]bool{}
	midN := map[int]int{}
	midG := map[string]*joined{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if w.Over {
			return exits
		}
		if it.idx > 0 {
			k := fmt.Sprintf("%d.%d#%s", it.b.Index, it.idx, w.key(it.st, it.l))
			if midSeen[k] {
				continue
			}
			midSeen[k] = true
			pt := it.b.Index + 100000*it.idx
			if midN[pt]++; midN[pt] > w.R.Cap/4 {
				w.Widened++
				ek := strconv.Itoa(pt) + "#" + w.joinKey(it.st, midN[pt] > 4*w.R.Cap)
				g := midG[ek]
				if g == nil {
					g = &joined{}
					midG[ek] = g
				}
				if !g.join(w, fr, pt, it.st, it.l) {
					continue
				}
				it.st, it.l = g.st.clone(), g.l.clone()
			}
			if os.Getenv("VERIF_MID") == fr.Fn.Name() {
				fmt.Fprintf(os.Stderr, "mid b%d.%d %v\n   %s\n", it.b.Index, it.idx, it.b.Instrs[it.idx-1], w.describe(it.st, it.l))
			}
		} else {
			w.enter(fr, fi, it)
		}
		if it.idx == 0 && (len(it.b.Preds) > 1 || fi.headers[it.b.Index]) {
			k := w.key(it.st, it.l)
			if seen[it.b.Index][k] {
				continue
			}
			seen[it.b.Index][k] = true
			if len(seen[it.b.Index]) > w.R.Cap {
				w.Widened++
				if os.Getenv("VERIF_DEBUG") == "2" {
					fmt.Fprintf(os.Stderr, "---- %s b%d\n", fnLabel(fn), it.b.Index)
					for k, v := range it.st.heap {
						fmt.Fprintf(os.Stderr, "heap %s = %s\n", k, v)
					}
					for k, v := range it.st.facts {
						fmt.Fprintf(os.Stderr, "fact %s = %v\n", k, v)
					}
					for k, v := range it.st.eqs {
						fmt.Fprintf(os.Stderr, "eq %s = %s\n", k, v)
					}
					for k := range it.st.ev {
						fmt.Fprintf(os.Stderr, "ev %s\n", k)
					}
					for k, v := range it.l.env {
						fmt.Fprintf(os.Stderr, "env %s = %s\n", k.Name(), v)
					}
				}
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "widen %s b%d (%s)\n", fnLabel(fn), it.b.Index, it.b.Comment)
				}
				ek := w.joinKey(it.st, len(seen[it.b.Index]) > 8*w.R.Cap)
				g := groups[it.b.Index][ek]
				if g == nil {
					g = &joined{}
					groups[it.b.Index][ek] = g
				}
				if !g.join(w, fr, it.b.Index, it.st, it.l) {
					continue
				}
				it.st, it.l = g.st.clone(), g.l.clone()
			}
		}
		w.exec(fr, fi, it.b, it.idx, it.st, it.l, push, func(e Exit) {
			k := "p"
			if !e.Panic {
				k = ""
				for _, r := range e.Rets {
					k += strconv.Itoa(r.id) + ","
				}
			}
			w.pruneExit(fr, &e)
			k += "#" + w.key(e.St, nil)
			if exitSeen[k] {
				return
			}
			exitSeen[k] = true
			exits = append(exits, e)
		})
	}
	return exits
}

// enter evaluates phis for the incoming edge and prunes dead information.
func (w *Walker) enter(fr *Frame, fi *fnInfo, it item) {
	b := it.b
	if it.pred != nil {
		type pv struct {
			p *ssa.Phi
			t *Term
		}
		var pvs []pv
		pi := -1
		// A block may have several edges from the same predecessor only with
		// identical phi operands in practice (switch lowering); take the first.
		pi = predIndex(b, it.pred)
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			t := w.val(fr, it.l, it.st, phi.Edges[pi])
			if t.op == "const" && fi.unroll[phi] {
				// every iteration is followed
			} else if fi.headers[b.Index] && !simpleTerm(t) {
				back := b.Dominates(it.pred)
				mentionsSelf := false
				o := w.T.origin(fr.id, phi)
				mentionsSelf = t.mentionsOrigin(o)
				if back || mentionsSelf || t.op == "const" && t.cv.Kind() == constant.Int || loopVaries(phi, t) {
					known := it.st.Bool(t)
					isErr := isErrorType(phi.Type())
					isNil := unknown
					if isErr {
						isNil = it.st.Nil(t)
					}
					var widened func(*Term)
					if w.R.OnWiden != nil {
						widened = w.R.OnWiden(&Ctx{W: w, Fr: fr, St: it.st, L: it.l}, t)
					}
					it.st.KillOrigin(o)
					switch b, isBool := phi.Type().Underlying().(*types.Basic); {
					case isBool && b.Kind() == types.Bool && known != unknown:
						t = w.T.falseT
						if known == yes {
							t = w.T.trueT
						}
					default:
						t = w.T.mk(&Term{op: "sym", s: phi.Name(), frame: fr.id, v: phi, typ: phi.Type()})
						if widened != nil {
							widened(t)
						}
						if isErr && isNil != unknown {
							it.st.facts[it.st.isNilTerm(t)] = isNil == yes
						}
					}
				}
			} else if t.op == "const" && t.cv.Kind() == constant.Int && fi.headers[b.Index] {
				o := w.T.origin(fr.id, phi)
				it.st.KillOrigin(o)
				t = w.T.mk(&Term{op: "sym", s: phi.Name(), frame: fr.id, v: phi, typ: phi.Type()})
			}
			if t.depth > maxTermDepth {
				t = w.T.mk(&Term{op: "sym", s: phi.Name(), frame: fr.id, v: phi, typ: phi.Type()})
			}
			pvs = append(pvs, pv{phi, t})
		}
		for _, x := range pvs {
			it.l.env[x.p] = x.t
		}
	}
	if len(b.Preds) > 1 || fi.headers[b.Index] {
		w.prune(fr, fi, b, it.st, it.l)
	}
}

// unrolled: the counters of loops that run a small, constant number of times,
// for instance over a literal list.
func unrolled(fn *ssa.Function, headers []bool) map[*ssa.Phi]bool {
	const most = 4
	var out map[*ssa.Phi]bool
	for _, b := range fn.Blocks {
		if !headers[b.Index] || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS || cmp.Block() != b {
			continue
		}
		n, ok := ssaConstInt(cmp.Y)
		if !ok {
			if n, ok = literalLen(cmp.Y); !ok {
				continue
			}
		}
		if n > most {
			continue
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			next := func(v ssa.Value) bool {
				a, ok := v.(*ssa.BinOp)
				if !ok || a.Op != token.ADD || a.X != phi {
					return false
				}
				one, ok := ssaConstInt(a.Y)
				return ok && one == 1
			}
			if cmp.X != phi && !next(cmp.X) {
				continue
			}
			good := true
			for _, e := range phi.Edges {
				c, isC := ssaConstInt(e)
				good = good && (isC && c >= -1 || next(e))
			}
			if good {
				if out == nil {
					out = map[*ssa.Phi]bool{}
				}
				out[phi] = true
			}
		}
	}
	return out
}

// literalLen: the value is the length of a literal list.
func literalLen(v ssa.Value) (int64, bool) {
	ci, ok := v.(*ssa.Call)
	if !ok || !isBuiltin(ci, "len") {
		return 0, false
	}
	sl, ok := ci.Call.Args[0].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return at.Len(), true
}

func loopVaries(phi *ssa.Phi, t *Term) bool {
	b, ok := phi.Type().Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsString) != 0
}

func simpleTerm(t *Term) bool {
	switch t.op {
	case "nil", "func":
		return true
	case "const":
		return t.cv.Kind() == constant.Bool || t.cv.Kind() == constant.String
	}
	return false
}

func (w *Walker) keep(t *Term) bool {
	if w.R.Keep != nil && w.R.Keep(t) {
		return true
	}
	return false
}

func (w *Walker) prune(fr *Frame, fi *fnInfo, b *ssa.BasicBlock, st *State, l *local) {
	w.pruneLive(fr, fi.liveIn[b.Index], st, l, b)
}

// liveAfter computes the values live after instruction i of b.
func (w *Walker) liveAfter(fi *fnInfo, b *ssa.BasicBlock, i int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range fi.liveIn[s.Index] {
			live[v] = true
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for pj, pb := range s.Preds {
				if pb == b {
					addLive(live, phi.Edges[pj])
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j > i; j-- {
		if _, isPhi := b.Instrs[j].(*ssa.Phi); isPhi {
			continue
		}
		for _, op := range b.Instrs[j].Operands(nil) {
			if *op != nil {
				addLive(live, *op)
			}
		}
	}
	return live
}

func (w *Walker) pruneLive(fr *Frame, live map[ssa.Value]bool, st *State, l *local, b *ssa.BasicBlock) {
	for v := range l.env {
		if !live[v] {
			if phi, ok := v.(*ssa.Phi); ok && b != nil && phi.Block() == b {
				continue
			}
			delete(l.env, v)
		}
	}
	liveT := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || liveT[t] {
			return
		}
		liveT[t] = true
		if t.op == "not" || t.op == "bin" || t.op == "isnil" || t.op == "tuple" {
			for _, a := range t.args {
				mark(a)
			}
		}
	}
	for _, t := range l.env {
		mark(t)
	}
	roots := make([]*Term, 0, len(l.env)+4)
	for _, t := range l.env {
		roots = append(roots, t)
	}
	for _, d := range l.defers {
		if d.ct != nil {
			roots = append(roots, d.ct)
		}
		for _, a := range d.args {
			mark(a)
			roots = append(roots, a)
		}
	}
	w.pruneHeap(fr, st, roots)
	w.pruneFacts(st, liveT)
}

// heapRoot is the cell a storage path hangs off.
func heapRoot(k *Term) *Term {
	for {
		switch k.op {
		case "field", "index", "lookup", "lookupv", "deref", "addr", "slice":
			k = k.args[0]
			continue
		}
		return k
	}
}

// reach computes the local cells reachable from the roots.
func (s *State) reach(roots []*Term) map[*Term]bool {
	byRoot := map[*Term][]*Term{}
	for k := range s.heap {
		r := heapRoot(k)
		byRoot[r] = append(byRoot[r], k)
	}
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "alloc" && !out[t] {
			out[t] = true
			for _, k := range byRoot[t] {
				visit(s.heap[k])
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

func (w *Walker) ancestorFrame(fr *Frame, id int) bool {
	for f := fr.Parent; f != nil; f = f.Parent {
		if f.id == id {
			return true
		}
	}
	return false
}

func (w *Walker) pruneHeap(fr *Frame, st *State, roots []*Term) {
	anc := map[int]bool{}
	for f := fr.Parent; f != nil; f = f.Parent {
		anc[f.id] = true
	}
	for k := range st.heap {
		if r := heapRoot(k); r.op == "alloc" && (anc[r.frame] || fr.entry[r]) {
			roots = append(roots, r)
		}
	}
	live := st.reach(roots)
	for k := range st.heap {
		r := heapRoot(k)
		if r.op == "alloc" {
			if !live[r] {
				delete(st.heap, k)
			}
			continue
		}
		if w.R.KeepPath == nil || !w.R.KeepPath(k) {
			delete(st.heap, k)
		}
	}
}

func (w *Walker) pruneFacts(st *State, liveT map[*Term]bool) {
	evT := map[*Term]bool{}
	for _, e := range st.ev {
		if e.Res != nil && (e.Status == unknown || w.R.KeepRes) {
			evT[e.Res] = true
		}
	}
	isEv := func(t *Term) bool { return evT[t] }
	done := map[*Term]bool{}
	for _, e := range st.ev {
		if e.Res != nil && e.Status != unknown {
			t := errTerm(w, e.Res)
			done[t] = true
			done[st.isNilTerm(t)] = true
		}
	}
	heapT := map[*Term]bool{}
	for _, v := range st.heap {
		heapT[v] = true
	}
	for k := range st.facts {
		if done[k] {
			if w.keepFact(k, liveT, func(*Term) bool { return false }, heapT) {
				continue
			}
			delete(st.facts, k)
			continue
		}
		if w.keepFact(k, liveT, isEv, heapT) {
			continue
		}
		delete(st.facts, k)
	}
	for k := range st.eqs {
		if w.keep(k) || liveT[k] || heapT[k] || k.mentions(isEv) {
			continue
		}
		delete(st.eqs, k)
	}
}

func (w *Walker) keepFact(k *Term, liveT map[*Term]bool, isEv func(*Term) bool, heapT map[*Term]bool) bool {
	if w.keep(k) || liveT[k] {
		return true
	}
	x := k
	if k.op == "isnil" {
		x = k.args[0]
		if liveT[x] || heapT[x] {
			return true
		}
	}
	if heapT[k] {
		return true
	}
	return x.mentions(isEv)
}

func (w *Walker) pruneExit(fr *Frame, e *Exit) {
	live := map[*Term]bool{}
	for _, r := range e.Rets {
		live[r] = true
	}
	w.pruneHeap(fr, e.St, e.Rets)
	// facts about the caller's values are restored by the caller
	w.pruneFacts(e.St, live)
}

func (w *Walker) key(st *State, l *local) string {
	ids := make([]string, 0, len(st.heap)+len(st.facts)+len(st.ev))
	for k, v := range st.heap {
		ids = append(ids, "h"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, v := range st.facts {
		if v {
			ids = append(ids, "f"+strconv.Itoa(k.id))
		} else {
			ids = append(ids, "g"+strconv.Itoa(k.id))
		}
	}
	for k, v := range st.eqs {
		ids = append(ids, "q"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, e := range st.ev {
		ids = append(ids, "e"+k+"="+strconv.Itoa(int(e.Status)))
	}
	if l != nil {
		for k, v := range l.env {
			ids = append(ids, "v"+k.Name()+"="+strconv.Itoa(v.id))
		}
		for _, d := range l.defers {
			ids = append(ids, fmt.Sprintf("d%p", d.in))
		}
	}
	sort.Strings(ids)
	return strings.Join(ids, " ")
}

// joined is the widened state of a block for one event set.
// joinKey says which states may be joined when there are too many: first
// those that agree on the events and everything known about them, and only
// as a last resort those that agree on the events alone.
func (w *Walker) joinKey(st *State, last bool) string {
	if last {
		return "!" + st.evKey()
	}
	var ids []string
	for k, v := range st.facts {
		if w.keep(k) {
			ids = append(ids, fmt.Sprintf("%d%v", k.id, v))
		}
	}
	for k, v := range st.eqs {
		if w.keep(k) {
			ids = append(ids, fmt.Sprintf("%d=%d", k.id, v.id))
		}
	}
	sort.Strings(ids)
	return strings.Join(ids, " ") + "|" + st.evKey()
}

type joined struct {
	st *State
	l  *local
}

func (g *joined) join(w *Walker, fr *Frame, pt int, st *State, l *local) bool {
	if g.st == nil {
		g.st, g.l = st.clone(), l.clone()
		return true
	}
	changed := false
	for k, v := range g.st.facts {
		if x, ok := st.facts[k]; !ok || x != v {
			delete(g.st.facts, k)
			changed = true
		}
	}
	for k, v := range g.st.eqs {
		if x, ok := st.eqs[k]; !ok || x != v {
			delete(g.st.eqs, k)
			changed = true
		}
	}
	top := func(tag string, t types.Type, v ssa.Value) *Term {
		return w.T.mk(&Term{op: "join", s: fmt.Sprintf("%d.%d.%s", fr.id, pt, tag), typ: t})
	}
	for k, v := range g.l.env {
		x, ok := l.env[k]
		if !ok || x == v {
			continue
		}
		j := top(k.Name(), k.Type(), k)
		if v != j {
			g.l.env[k] = j
			changed = true
		}
	}
	for k, v := range l.env {
		if _, ok := g.l.env[k]; !ok {
			g.l.env[k] = v
		}
	}
	for k, v := range g.st.heap {
		x, ok := st.heap[k]
		if ok && x == v {
			continue
		}
		j := top("h"+strconv.Itoa(k.id), k.typ, nil)
		if v != j {
			g.st.heap[k] = j
			changed = true
		}
	}
	for k := range st.heap {
		if _, ok := g.st.heap[k]; !ok {
			g.st.heap[k] = top("h"+strconv.Itoa(k.id), k.typ, nil)
			changed = true
		}
	}
	if len(l.defers) > len(g.l.defers) {
		g.l.defers = l.defers
		changed = true
	}
	return changed
}

// val evaluates an SSA value.
func (w *Walker) val(fr *Frame, l *local, st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return w.T.constant(v)
	case *ssa.Function:
		return w.T.mk(&Term{op: "func", s: v.String(), fn: v, typ: v.Type()})
	case *ssa.Global:
		return w.T.addr(w.T.mk(&Term{op: "global", s: v.String(), v: v, typ: deref(v.Type())}))
	case *ssa.Builtin:
		return w.T.mk(&Term{op: "builtin", s: v.Name()})
	}
	if t, ok := l.env[v]; ok {
		return t
	}
	return w.T.mk(&Term{op: "sym", s: v.Name(), frame: fr.id, v: v, typ: v.Type()})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// killFrame forgets what is known about values computed by an earlier
// execution of a callee that is about to run again in a loop.
func (w *Walker) killFrame(st *State, nf *Frame) {
	sub := w.subtree(nf.id)
	bad := func(t *Term) bool {
		for _, o := range t.orig {
			if sub[w.T.oframe[o]] {
				return true
			}
		}
		return false
	}
	for k := range st.facts {
		if bad(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.eqs {
		if bad(k) {
			delete(st.eqs, k)
		}
	}
	for k := range st.heap {
		if bad(k) {
			delete(st.heap, k)
		}
	}
}

func (w *Walker) subtree(id int) map[int]bool {
	m := map[int]bool{id: true}
	for changed := true; changed; {
		changed = false
		for c, p := range w.fparent {
			if m[p] && !m[c] {
				m[c] = true
				changed = true
			}
		}
	}
	return m
}

// describe renders a state for debugging.
func (w *Walker) describe(st *State, l *local) string {
	var ls []string
	for k, v := range st.facts {
		ls = append(ls, fmt.Sprintf("fact %s=%v", k, v))
	}
	for k, v := range st.eqs {
		ls = append(ls, fmt.Sprintf("eq %s=%v", k, v))
	}
	for k, v := range st.heap {
		ls = append(ls, fmt.Sprintf("heap %s=%v", k, v))
	}
	for k, e := range st.ev {
		ls = append(ls, fmt.Sprintf("ev %s status=%d", k, e.Status))
	}
	if l != nil {
		for k, v := range l.env {
			ls = append(ls, fmt.Sprintf("env %s=%v", k.Name(), v))
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n   ")
}
