package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// gate records that a branch of interest was taken with the given outcome.
type gate struct {
	L    string
	Text string
	M    func(cond *Term, val bool) bool
}

type gates []gate

func (gs gates) branch(c *Ctx, cond *Term, val bool) {
	for _, g := range gs {
		if g.M(cond, val) {
			c.St.Event(g.L, nil, nil, nil)
		}
	}
}

// need asserts that every gate (all when labels is empty) was passed.
func (gs gates) need(r *Report, c *Ctx, rule, what string, in ssa.Instruction, labels ...string) {
	for _, g := range gs {
		if len(labels) > 0 && !oneOf(g.L, labels...) {
			continue
		}
		r.Assert(len(c.St.Has(g.L)) > 0, rule, what+": "+g.L, posOf(in), "%s although it was not established on this path that %s (%s)", what, g.Text, c.Trace(in))
	}
}

type tp = func(*Term) bool

// eqG: a == b came out as want.
func eqG(l, text string, a, b tp, want bool) gate {
	return gate{l, text, func(cond *Term, val bool) bool {
		x, y, eq, ok := sameEq(cond, val)
		return ok && eq == want && (a(x) && b(y) || a(y) && b(x))
	}}
}

// nilG: the value was found nil (want) or not nil (!want).
func nilG(l, text string, a tp, want bool) gate {
	return gate{l, text, func(cond *Term, val bool) bool {
		return val == want && cond.op == "isnil" && a(cond.args[0])
	}}
}

// boolG: the boolean came out as want.
func boolG(l, text string, a tp, want bool) gate {
	return gate{l, text, func(cond *Term, val bool) bool { return val == want && a(cond) }}
}

func orG(l, text string, gs ...gate) gate {
	return gate{l, text, func(cond *Term, val bool) bool {
		for _, g := range gs {
			if g.M(cond, val) {
				return true
			}
		}
		return false
	}}
}

func isField(fv *types.Var) tp {
	return func(t *Term) bool { return t.op == "field" && t.fv == fv && fv != nil }
}
func anyField(fv *types.Var) tp { return func(t *Term) bool { return mentionsField(t, fv) } }
func isClaim(n string) tp       { return func(t *Term) bool { return claimLookup(t, n) } }
func isStr(s string) tp {
	return func(t *Term) bool { x, ok := constString(t); return ok && x == s }
}
func isParam(p *ssa.Parameter) tp { return func(t *Term) bool { return t.op == "param" && t.v == p } }
func anyOf(a tp) tp               { return func(t *Term) bool { return t.mentions(a) } }
func anyTerm(*Term) bool          { return true }
func either(xs ...tp) tp {
	return func(t *Term) bool {
		for _, x := range xs {
			if x(t) {
				return true
			}
		}
		return false
	}
}

// isCallTo: the term is the (possibly extracted) result of the call.
func isCallTo(names ...string) tp {
	return func(t *Term) bool {
		if t.op == "extract" && len(t.args) > 0 {
			t = t.args[0]
		}
		return (t.op == "call" || t.op == "csym") && oneOf(t.s, names...)
	}
}

// callWith: the result of a call to one of the functions with an argument
// satisfying the predicate.
func callWith(arg tp, names ...string) tp {
	is := isCallTo(names...)
	return func(t *Term) bool {
		if !is(t) {
			return false
		}
		if t.op == "extract" {
			t = t.args[0]
		}
		for _, a := range t.args {
			if arg(a) {
				return true
			}
		}
		return false
	}
}

// lookupOK: the "found" result of a lookup in the map.
func lookupOK(m tp) tp {
	return func(t *Term) bool {
		return t.op == "lookupok" && m(t.args[0])
	}
}

func isLookup(m tp) tp {
	return func(t *Term) bool {
		return (t.op == "lookupv" || t.op == "lookup") && m(t.args[0])
	}
}

// okResult: an event whose call returned a nil error.
func okResult(c *Ctx, ev *Ev) bool {
	return ev.Status == yes || ev.Status == unknown && c.St.Nil(errTerm(c.W, ev.Res)) == yes
}

// fromOK: the term depends on the result of a call recorded under the label
// whose error is known to be nil.
func fromOK(c *Ctx, t *Term, label string) bool {
	for _, ev := range c.St.Has(label) {
		if okResult(c, ev) && t.mentions(func(x *Term) bool { return x == ev.Res }) {
			return true
		}
	}
	return false
}

// randomOK is fromOK for numbers: what a math/big method is called on does not
// count, its value is replaced.
func randomOK(c *Ctx, t *Term, label string) bool {
	if t == nil {
		return false
	}
	for _, ev := range c.St.Has(label) {
		if ev.Res == t && okResult(c, ev) {
			return true
		}
	}
	for i, a := range t.args {
		if i == 0 && strings.HasPrefix(t.s, "(*math/big.Int).Set") {
			continue
		}
		if randomOK(c, a, label) {
			return true
		}
	}
	return false
}

// fromNonNil is fromOK for calls that return nil instead of a value along with
// an error: it also accepts a value known not to be nil.
func fromNonNil(c *Ctx, t *Term, label string) bool {
	for _, ev := range c.St.Has(label) {
		if t.mentions(func(x *Term) bool {
			return x == ev.Res && okResult(c, ev) || x.op == "extract" && x.s == "0" && x.args[0] == ev.Res && c.St.Nil(x) == no
		}) {
			return true
		}
	}
	return false
}

func hasEv(c *Ctx, label string) bool { return len(c.St.Has(label)) > 0 }

func inPkg(f *ssa.Function, suffix string) bool {
	return strings.HasSuffix(pkgPath(f), suffix)
}

// formVal: the value of a request parameter.
func formVal(name string) tp {
	return func(t *Term) bool {
		switch {
		case isCallTo("(net/url.Values).Get", "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue")(t):
			return t.args[len(t.args)-1].op == "const" && isStr(name)(t.args[len(t.args)-1])
		case t.op == "index" && (t.args[0].op == "lookupv" || t.args[0].op == "lookup"):
			return isStr(name)(t.args[0].args[1])
		}
		return false
	}
}

// sameEq views a condition as an equality between two values, whichever
// library function computes it.
func sameEq(cond *Term, val bool) (a, b *Term, eq, ok bool) {
	a, b, eq, ok = rawEq(cond, val)
	if ok && !(cond.op == "bin" && a == cond.args[0]) {
		a, b = stripConv(a), stripConv(b)
	}
	return
}

func rawEq(cond *Term, val bool) (a, b *Term, eq, ok bool) {
	strip := func(t *Term) *Term { return t }
	if cond.op == "bin" && cond.s == "==" {
		x, y := cond.args[0], cond.args[1]
		for i := 0; i < 2; i++ {
			if isCallTo("crypto/subtle.ConstantTimeCompare")(x) {
				if k, isC := constInt(y); isC && (k == 1 || k == 0) {
					return strip(x.args[0]), strip(x.args[1]), val == (k == 1), true
				}
			}
			if isCallTo("bytes.Compare", "strings.Compare", "cmp.Compare[string]")(x) && isZeroConst(y) {
				return strip(x.args[0]), strip(x.args[1]), val, true
			}
			x, y = y, x
		}
		return cond.args[0], cond.args[1], val, true
	}
	if (cond.op == "call" || cond.op == "csym") && len(cond.args) == 2 && (oneOf(cond.s, "bytes.Equal", "crypto/hmac.Equal", "reflect.DeepEqual") || strings.HasPrefix(cond.s, "slices.Equal")) {
		return strip(cond.args[0]), strip(cond.args[1]), val, true
	}
	return nil, nil, false, false
}

// elemGates are conditions on one element of a list that must all hold for the
// same element.
type elemGates struct {
	L      string
	IsList tp
	gs     gates
}

func (g *elemGates) branch(c *Ctx, cond *Term, val bool) {
	if val && (cond.op == "bin" && cond.s == "<" && isLen(cond.args[1]) && g.IsList(cond.args[1].args[0]) ||
		cond.op == "extract" && cond.s == "0" && cond.args[0].s == "range.next" && g.IsList(cond.args[0].args[0].args[0])) {
		for _, x := range g.gs {
			c.St.Kill(x.L)
		}
		return
	}
	g.gs.branch(c, cond, val)
	for _, x := range g.gs {
		if len(c.St.Has(x.L)) == 0 {
			return
		}
	}
	c.St.Event(g.L, nil, nil, nil)
}

// ageOutcome reads a branch that compares an element's creation time with a
// constant age. bound is the largest constant involved, in nanoseconds.
func ageOutcome(cond *Term, val bool, created tp) (expired, fresh bool, bound int64) {
	cond.mentions(func(t *Term) bool {
		if i, ok := constInt(t); ok {
			if i < 0 {
				i = -i
			}
			if i > bound {
				bound = i
			}
		}
		return false
	})
	old := false
	switch {
	case cond.op == "bin" && cond.s == "<" && len(cond.args) == 2:
		x, y := cond.args[0].mentions(created), cond.args[1].mentions(created)
		if x == y || bound == 0 {
			return
		}
		old = y == val // const < age
	case cond.s == "time.lt" && len(cond.args) == 2: // Before and After
		x, y := cond.args[0].mentions(created), cond.args[1].mentions(created)
		if x == y || bound == 0 {
			return
		}
		old = x == val
	default:
		return
	}
	return old, !old, bound
}

// sweeper follows a loop that deletes the expired entries of a map.
type sweeper struct {
	L       string
	IsMap   tp
	Created tp
	Max     int64
	P       *Prog
}

func (s *sweeper) branch(c *Ctx, cond *Term, val bool) {
	if cond.op == "extract" && cond.s == "0" && cond.args[0].s == "range.next" && cond.mentions(s.IsMap) {
		if val {
			c.St.Event(s.L+"-open", nil, nil, nil)
		} else {
			c.St.Event(s.L+"-done", nil, nil, nil)
		}
		return
	}
	if _, fresh, b := ageOutcome(cond, val, s.Created); fresh && b <= s.Max {
		// an element of the loop, or the element that was looked up
		if cond.mentions(func(t *Term) bool { return t.s == "range.next" }) {
			if cond.mentions(s.IsMap) {
				c.St.Kill(s.L + "-open")
			}
		} else {
			c.St.Event(s.L+"-direct", nil, nil, nil)
		}
	}
}

func (s *sweeper) call(c *CallCtx) {
	switch {
	case c.Name == "builtin.delete" && len(c.Args) == 2 && c.Args[0].mentions(s.IsMap) && c.Args[1].mentions(func(t *Term) bool { return t.s == "range.next" }):
		c.St.Kill(s.L + "-open")
	case strings.HasPrefix(c.Name, "builtin.clear") && c.Args[0].mentions(s.IsMap):
		c.St.Event(s.L+"-done", nil, nil, nil)
	case strings.HasPrefix(c.Name, "maps.DeleteFunc") && c.Args[0].mentions(s.IsMap):
		if f := c.Args[1].fn; f != nil && constAge(f, s.Max) {
			c.St.Event(s.L+"-done", nil, nil, nil)
		}
	}
}

func (s *sweeper) ok(c *Ctx) bool {
	return len(c.St.Has(s.L+"-open")) == 0 && len(c.St.Has(s.L+"-done")) > 0 || len(c.St.Has(s.L+"-direct")) > 0
}

// direct: the entry that was looked up was found to be fresh.
func (s *sweeper) direct(c *Ctx) bool { return len(c.St.Has(s.L+"-direct")) > 0 }

// constAge: the predicate returns a time comparison with a constant that is
// positive for old entries.
func constAge(f *ssa.Function, max int64) bool {
	ok := false
	instrs(f, func(in ssa.Instruction) {
		if b, isB := in.(*ssa.BinOp); isB && (b.Op == token.GTR || b.Op == token.GEQ) {
			if k, isC := ssaConstInt(b.Y); isC && k > 0 && k <= max {
				ok = true
			}
		}
		if isCall(in, "(time.Time).Before") {
			ok = ok || has(f, func(x ssa.Instruction) bool {
				if !isCall(x, "(time.Time).Add") {
					return false
				}
				k, isC := ssaConstInt(x.(ssa.CallInstruction).Common().Args[1])
				return isC && k > 0 && k <= max
			})
		}
	})
	return ok
}

// once follows a map of one-time entries: an entry is read and retired in the
// same critical section.
//
//	<L>-cs    the mutex is held
//	<L>-read  the map was read in this critical section
//	<L>       the entry was retired in the critical section that read it
type once struct {
	L      string
	Mu     *types.Var
	IsMap  tp
	Retire func(c *Ctx, in ssa.Instruction) bool // another way to retire an entry
}

func (o *once) call(c *CallCtx) {
	if len(c.Args) > 0 && strings.HasPrefix(c.Name, "(*sync.") && mentionsField(c.Args[0], o.Mu) {
		switch c.Name[strings.LastIndex(c.Name, ".")+1:] {
		case "Lock":
			c.St.Event(o.L+"-cs", nil, nil, nil)
		case "Unlock", "RUnlock":
			c.St.Kill(o.L + "-cs")
			c.St.Kill(o.L + "-read")
		}
		return
	}
	if c.Name == "builtin.delete" && len(c.Args) == 2 && c.Args[0].mentions(o.IsMap) && !c.Args[1].mentions(func(t *Term) bool { return t.s == "range.next" }) {
		for _, ev := range c.St.Has(o.L + "-read") {
			if len(ev.Args) == 1 && ev.Args[0] == c.Args[1] {
				c.St.Event(o.L, nil, []*Term{c.Args[1]}, nil)
				c.St.Event(o.L+"-deleted", nil, nil, nil)
			}
		}
	}
}

func (o *once) instr(c *Ctx, in ssa.Instruction) {
	if lk, ok := in.(*ssa.Lookup); ok && c.V(lk.X).mentions(o.IsMap) && len(c.St.Has(o.L+"-cs")) > 0 {
		c.St.Event(o.L+"-read", nil, []*Term{c.V(lk.Index)}, nil)
	}
	if o.Retire != nil && len(c.St.Has(o.L+"-read")) > 0 && o.Retire(c, in) {
		for _, ev := range c.St.Has(o.L + "-read") {
			c.St.Event(o.L, nil, ev.Args, nil)
		}
	}
}

// okFor: the entry with the given key was retired.
func (o *once) okFor(c *Ctx, key tp) bool {
	for _, ev := range c.St.Has(o.L) {
		if len(ev.Args) == 1 && key(ev.Args[0]) {
			return true
		}
	}
	return false
}

// jsonTag is the JSON name of a struct field.
func (p *Prog) jsonTag(fv *types.Var) string {
	if p.tags == nil {
		p.tags = map[*types.Var]string{}
		add := func(t types.Type) {
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					tag := reflect.StructTag(st.Tag(i)).Get("json")
					if tag == "" {
						tag = reflect.StructTag(st.Tag(i)).Get("xml")
					}
					p.tags[st.Field(i)] = strings.Split(tag, ",")[0]
				}
			}
		}
		for _, f := range p.Funcs {
			instrs(f, func(in ssa.Instruction) {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					add(deref(fa.X.Type()))
				}
				if fa, ok := in.(*ssa.Field); ok {
					add(fa.X.Type())
				}
			})
		}
	}
	return p.tags[fv]
}

// isJSON: the term is a field with the JSON name.
func (p *Prog) isJSON(name string) tp {
	return func(t *Term) bool { return t.op == "field" && t.fv != nil && p.jsonTag(t.fv) == name }
}
