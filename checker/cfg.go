package main

import (
	"go/token"
	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop of a function.
type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

// loopsOf finds the natural loops of fn.
func loopsOf(fn *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

// innermost returns the smallest loop containing b.
func innermost(fn *ssa.Function, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range loopsOf(fn) {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

// everyIteration: every path round the loop executes an instruction matching
// pred.
func (l *loop) everyIteration(pred func(ssa.Instruction) bool) bool {
	hit := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	if hit(l.head) {
		return true
	}
	work := append([]*ssa.BasicBlock(nil), l.head.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == l.head {
			return false
		}
		if seen[b] || !l.body[b] || hit(b) {
			continue
		}
		seen[b] = true
		work = append(work, b.Succs...)
	}
	return true
}

// spilled: the value of a result that a function with deferred calls keeps in
// a variable.
func spilled(ret *ssa.Return, v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return v
	}
	if _, isAlloc := u.X.(*ssa.Alloc); !isAlloc {
		return v
	}
	for _, in := range ret.Block().Instrs {
		if st, ok := in.(*ssa.Store); ok && st.Addr == u.X {
			v = st.Val
		}
	}
	return v
}

// runsToEnd: the loop is left other than at its head only on the way to a
// panic or to returns of an error.
func (l *loop) runsToEnd() bool {
	seen := map[*ssa.BasicBlock]bool{}
	var fails func(b *ssa.BasicBlock) bool
	fails = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n := len(ret.Results)
			return n > 0 && isErrorType(ret.Results[n-1].Type()) && !isNilConst(spilled(ret, ret.Results[n-1]))
		}
		for _, s := range b.Succs {
			if !fails(s) {
				return false
			}
		}
		return true
	}
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] && !fails(s) {
				return false
			}
		}
	}
	return true
}

// pathAvoiding reports whether some path leads from just after `from` to an
// instruction matching target without passing one matching avoid first.
func pathAvoiding(from ssa.Instruction, target, avoid func(ssa.Instruction) bool) ssa.Instruction {
	b := from.Block()
	start := 0
	for i, in := range b.Instrs {
		if in == from {
			start = i + 1
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, i int) ssa.Instruction
	scan = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			if avoid(b.Instrs[i]) {
				return nil
			}
			if target(b.Instrs[i]) {
				return b.Instrs[i]
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if t := scan(s, 0); t != nil {
				return t
			}
		}
		return nil
	}
	return scan(b, start)
}

// quant describes a "some element of the list satisfies the test" evaluation
// followed over a walk: Elem recognises the loop bound over the list, Test the
// per-element predicate. It maintains the events
//
//	<L>-open   an element was taken and its test has not come out false yet
//	<L>-hit    some element's test came out true
//	<L>-done   the list was exhausted
type quant struct {
	L       string
	IsList  func(t *Term) bool // the list value (slice or map)
	IsTest  func(t *Term) bool // boolean term of the element test
	IsAny   func(t *Term) bool // boolean term equal to "exists"
	Negated bool
}

func (q *quant) mentionsList(t *Term) bool { return t.mentions(q.IsList) }

// branch feeds a branch outcome.
func (q *quant) branch(c *Ctx, cond *Term, val bool) {
	for cond.op == "not" {
		cond, val = cond.args[0], !val
	}
	if q.IsAny != nil && q.IsAny(cond) {
		if val {
			c.St.Event(q.L+"-hit", nil, nil, nil)
		} else {
			c.St.Event(q.L+"-done", nil, nil, nil)
		}
		return
	}
	if q.IsTest(cond) {
		if val {
			c.St.Event(q.L+"-hit", nil, nil, nil)
		}
		c.St.Kill(q.L + "-open")
		return
	}
	if cond.op == "bin" && len(cond.args) == 2 {
		a, b := cond.args[0], cond.args[1]
		isl := func(t *Term) bool { return isLen(t) && q.mentionsList(t) && !isPart(t) }
		switch {
		case cond.s == "<" && isl(b) && !isl(a):
			// i < len(list)
			if val {
				c.St.Event(q.L+"-open", nil, nil, nil)
			} else if fromStart(a) {
				c.St.Event(q.L+"-done", nil, nil, nil)
			}
		case cond.s == "==" && (isl(a) && isZeroConst(b) || isl(b) && isZeroConst(a)):
			if val {
				c.St.Event(q.L+"-done", nil, nil, nil)
			}
		}
	}
	if cond.op == "extract" && cond.s == "0" && len(cond.args) == 1 && cond.args[0].op == "csym" && cond.args[0].s == "range.next" && q.mentionsList(cond) {
		if val {
			c.St.Event(q.L+"-open", nil, nil, nil)
		} else {
			c.St.Event(q.L+"-done", nil, nil, nil)
		}
	}
}

// isPart: the term is about a part of a list only.
func isPart(t *Term) bool {
	return t.mentions(func(x *Term) bool {
		return x.op == "slice" && (x.args[1] != nil && !isZeroConst(x.args[1]) || x.args[2] != nil)
	})
}

// fromStart: false for a loop index known not to take every value from zero up.
func fromStart(i *Term) bool {
	off := int64(0)
	if i.op == "bin" && i.s == "+" {
		for j := 0; j < 2; j++ {
			if k, ok := constInt(i.args[j]); ok {
				off = k
				i = i.args[1-j]
				break
			}
		}
	}
	phi, ok := i.v.(*ssa.Phi)
	if !ok || i.op != "sym" {
		return true
	}
	for _, e := range phi.Edges {
		switch e := e.(type) {
		case *ssa.Const:
			if k, ok := ssaConstInt(e); ok && k+off != 0 {
				return false
			}
		case *ssa.BinOp:
			if e.X != phi && e.Y != phi {
				continue
			}
			o := e.Y
			if e.Y == phi {
				o = e.X
			}
			if k, ok := ssaConstInt(o); !ok || e.Op != token.ADD || k != 1 {
				return false
			}
		}
	}
	return true
}

func isZeroConst(t *Term) bool {
	i, ok := constInt(t)
	return ok && i == 0
}
