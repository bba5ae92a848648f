package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an interned abstract value: a value number that is stable across
// helper functions, re-evaluated field loads and inlined calls.
type Term struct {
	id    int
	op    string
	s     string
	args  []*Term
	v     ssa.Value      // defining instruction (sym, csym, alloc, closure)
	fn    *ssa.Function  // func, closure
	fv    *types.Var     // field
	typ   types.Type     // static (or known concrete) type
	cv    constant.Value // const
	depth int
	orig  []int // origin ids (frame,value) of the symbols mentioned
	frame int
}

func (t *Term) String() string {
	if t == nil {
		return "<nil-term>"
	}
	return t.render(0)
}

func (t *Term) render(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 6 {
		return "…"
	}
	switch t.op {
	case "const":
		return t.s
	case "nil", "zero":
		return t.op
	case "field":
		return t.args[0].render(d+1) + "." + t.s
	case "addr":
		return "&" + t.args[0].render(d+1)
	case "deref":
		return "*" + t.args[0].render(d+1)
	case "index":
		return t.args[0].render(d+1) + "[" + t.args[1].render(d+1) + "]"
	case "extract":
		return t.args[0].render(d+1) + "#" + t.s
	case "not":
		return "!" + t.args[0].render(d+1)
	case "bin":
		return "(" + t.args[0].render(d+1) + " " + t.s + " " + t.args[1].render(d+1) + ")"
	case "param":
		return t.s
	case "func", "closure":
		return fnLabel(t.fn)
	case "global":
		return t.s[strings.LastIndex(t.s, "/")+1:]
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.render(d+1))
	}
	n := t.s
	if t.op == "sym" || t.op == "alloc" {
		n = t.op + ":" + t.s
	} else if t.op != "call" && t.op != "csym" {
		n = t.op + ":" + t.s
	}
	n = strings.ReplaceAll(n, modPath+"/", "")
	return n + "(" + strings.Join(as, ", ") + ")"
}

type interner struct {
	m       map[string]*Term
	next    int
	origins map[string]int
	oframe  []int // origin id → frame id
	nilT    *Term
	trueT   *Term
	falseT  *Term
}

func newInterner() *interner {
	in := &interner{m: map[string]*Term{}, origins: map[string]int{}, oframe: []int{0}}
	in.nilT = in.mk(&Term{op: "nil"})
	in.trueT = in.mk(&Term{op: "const", s: "true", cv: constant.MakeBool(true), typ: types.Typ[types.Bool]})
	in.falseT = in.mk(&Term{op: "const", s: "false", cv: constant.MakeBool(false), typ: types.Typ[types.Bool]})
	return in
}

const maxTermDepth = 14

func (in *interner) origin(frame int, v ssa.Value) int {
	k := fmt.Sprintf("%d:%p", frame, v)
	if id, ok := in.origins[k]; ok {
		return id
	}
	id := len(in.origins) + 1
	in.origins[k] = id
	in.oframe = append(in.oframe, frame)
	return id
}

func (in *interner) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.s)
	switch t.op {
	case "sym", "csym", "alloc":
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(t.frame))
		fmt.Fprintf(&sb, "|%p", t.v)
	case "func", "closure":
		fmt.Fprintf(&sb, "|%p", t.fn)
	case "field":
		// field name is enough within a base
	case "istype", "conv", "zero":
		if t.typ != nil {
			sb.WriteByte('|')
			sb.WriteString(t.typ.String())
		}
	}
	d := 0
	for _, a := range t.args {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('-')
			continue
		}
		sb.WriteString(strconv.Itoa(a.id))
		if a.depth > d {
			d = a.depth
		}
	}
	k := sb.String()
	if x, ok := in.m[k]; ok {
		return x
	}
	in.next++
	t.id = in.next
	t.depth = d + 1
	set := map[int]bool{}
	if t.op == "sym" || t.op == "csym" || t.op == "alloc" {
		if t.v != nil {
			set[in.origin(t.frame, t.v)] = true
		}
	}
	for _, a := range t.args {
		if a != nil {
			for _, o := range a.orig {
				set[o] = true
			}
		}
	}
	for o := range set {
		t.orig = append(t.orig, o)
	}
	sort.Ints(t.orig)
	in.m[k] = t
	return t
}

func (t *Term) mentionsOrigin(o int) bool {
	i := sort.SearchInts(t.orig, o)
	return i < len(t.orig) && t.orig[i] == o
}

// mentions reports whether pred holds for t or any sub-term.
func (t *Term) mentions(pred func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if a.mentions(pred) {
			return true
		}
	}
	return false
}

func (in *interner) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		if isNillable(c.Type()) {
			return in.nilT
		}
		return in.zero(c.Type())
	}
	return in.constVal(c.Value, c.Type())
}

func (in *interner) constVal(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return in.trueT
		}
		return in.falseT
	}
	return in.mk(&Term{op: "const", s: v.ExactString(), cv: v, typ: typ})
}

func (in *interner) str(s string) *Term {
	return in.constVal(constant.MakeString(s), types.Typ[types.String])
}

func (in *interner) int(i int64) *Term {
	return in.constVal(constant.MakeInt64(i), types.Typ[types.Int])
}

func (in *interner) zero(t types.Type) *Term {
	if isNillable(t) {
		return in.nilT
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return in.falseT
		case b.Info()&types.IsString != 0:
			return in.str("")
		case b.Info()&types.IsNumeric != 0:
			return in.int(0)
		}
	}
	return in.mk(&Term{op: "zero", typ: t})
}

func isNillable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

func (in *interner) not(t *Term) *Term {
	switch {
	case t == in.trueT:
		return in.falseT
	case t == in.falseT:
		return in.trueT
	case t.op == "not":
		return t.args[0]
	}
	return in.mk(&Term{op: "not", args: []*Term{t}, typ: types.Typ[types.Bool]})
}

func (in *interner) field(base *Term, fv *types.Var) *Term {
	switch base.op {
	case "addr", "deref":
		base = base.args[0]
	case "zero":
		return in.zero(fv.Type())
	}
	return in.mk(&Term{op: "field", s: fv.Name(), fv: fv, args: []*Term{base}, typ: fv.Type()})
}

func (in *interner) addr(path *Term) *Term {
	return in.mk(&Term{op: "addr", args: []*Term{path}})
}

// deref gives the storage path a pointer term designates.
func (in *interner) path(ptr *Term) *Term {
	if ptr.op == "addr" {
		return ptr.args[0]
	}
	if ptr.op == "alloc" {
		return ptr
	}
	return in.mk(&Term{op: "deref", args: []*Term{ptr}})
}

func (in *interner) index(base, i *Term) *Term {
	if base.op == "addr" || base.op == "deref" {
		base = base.args[0]
	}
	if base.op == "slice" && base.args[1] == nil {
		base = base.args[0]
		if base.op == "addr" || base.op == "deref" {
			base = base.args[0]
		}
	}
	return in.mk(&Term{op: "index", args: []*Term{base, i}})
}

func (in *interner) extract(t *Term, i int, typ types.Type) *Term {
	if t.op == "tuple" && i < len(t.args) {
		return t.args[i]
	}
	if (t.op == "call" || t.op == "csym") && len(t.args) == 2 {
		// the two-result forms, in terms of the one-result ones
		same := ""
		switch t.s {
		case "strings.CutPrefix":
			same = [...]string{"strings.TrimPrefix", "strings.HasPrefix"}[i]
		case "strings.CutSuffix":
			same = [...]string{"strings.TrimSuffix", "strings.HasSuffix"}[i]
		case "strings.Cut":
			if i == 2 {
				same = "strings.Contains"
			}
		}
		if same != "" {
			return in.mk(&Term{op: "call", s: same, args: t.args, typ: typ})
		}
	}
	return in.mk(&Term{op: "extract", s: strconv.Itoa(i), args: []*Term{t}, typ: typ})
}

func (in *interner) eq(a, b *Term) *Term {
	if a == b && a.op != "sym" { // same value number
		return in.trueT
	}
	if a == b {
		return in.trueT
	}
	if a.op == "const" && b.op == "const" {
		if a.cv.Kind() == b.cv.Kind() || (a.cv.Kind() != constant.String && b.cv.Kind() != constant.String && a.cv.Kind() != constant.Bool && b.cv.Kind() != constant.Bool) {
			if sameKind(a.cv, b.cv) {
				return in.boolT(constant.Compare(a.cv, eqTok, b.cv))
			}
		}
	}
	// x == true / x == false
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[1] == in.trueT {
			return p[0]
		}
		if p[1] == in.falseT {
			return in.not(p[0])
		}
		// len(s) == 0 for strings is s == ""
		if p[1].op == "const" && p[1].s == "0" && p[0].op == "call" && p[0].s == "builtin.len" && isString(p[0].args[0].typ) {
			return in.eq(p[0].args[0], in.str(""))
		}
	}
	switch ac, bc := a.op == "const", b.op == "const"; {
	case ac && !bc: // constants last
		a, b = b, a
	case ac == bc && a.id > b.id:
		a, b = b, a
	}
	return in.mk(&Term{op: "bin", s: "==", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (in *interner) boolT(b bool) *Term {
	if b {
		return in.trueT
	}
	return in.falseT
}

func isLen(t *Term) bool {
	return t.op == "call" && (t.s == "builtin.len" || t.s == "builtin.cap")
}

// timeDiff reads the duration x-y between two times.
func (in *interner) timeDiff(t *Term) (x, y *Term, ok bool) {
	if t.op != "call" && t.op != "csym" {
		return nil, nil, false
	}
	now := func() *Term { return in.mk(&Term{op: "call", s: "time.Now", args: []*Term{t}}) }
	switch {
	case t.s == "(time.Time).Sub" && len(t.args) == 2:
		return t.args[0], t.args[1], true
	case t.s == "time.Since" && len(t.args) == 1:
		return now(), t.args[0], true
	case t.s == "time.Until" && len(t.args) == 1:
		return t.args[0], now(), true
	}
	return nil, nil, false
}

func (in *interner) lt(a, b *Term) *Term {
	if a.op == "const" && b.op == "const" && sameKind(a.cv, b.cv) {
		return in.boolT(constant.Compare(a.cv, ltTok, b.cv))
	}
	// 0 < len(x)  ==> !(len(x) == 0);  len(x) < 1 ==> len(x)==0
	if a.op == "const" && a.s == "0" && isLen(b) {
		return in.not(in.eq(b, a))
	}
	if b.op == "const" && b.s == "1" && isLen(a) {
		return in.eq(a, in.int(0))
	}
	if b.op == "const" && b.s == "0" && isLen(a) {
		return in.falseT
	}
	// 0 < a.Sub(b)  ==> b is before a, and so on
	if a.op == "const" && a.s == "0" {
		if x, y, ok := in.timeDiff(b); ok {
			return in.mk(&Term{op: "call", s: "time.lt", args: []*Term{y, x}, typ: types.Typ[types.Bool]})
		}
	}
	if b.op == "const" && b.s == "0" {
		if x, y, ok := in.timeDiff(a); ok {
			return in.mk(&Term{op: "call", s: "time.lt", args: []*Term{x, y}, typ: types.Typ[types.Bool]})
		}
	}
	if isUnsigned(a.typ) || isUnsigned(b.typ) {
		switch {
		case a.op == "const" && a.s == "0":
			return in.not(in.eq(b, a))
		case b.op == "const" && b.s == "1":
			return in.eq(a, in.constVal(constant.MakeInt64(0), b.typ))
		case b.op == "const" && b.s == "0":
			return in.falseT
		}
	}
	return in.mk(&Term{op: "bin", s: "<", args: []*Term{a, b}, typ: types.Typ[types.Bool]})
}
