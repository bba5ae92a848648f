package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C24", Title: "Connections are counted, bounded, and released",
		Explain: "Typestate analysis of everything that is accepted, dialed or opened: on every path it is closed or handed over; incoming connections are entered in the table of open connections, bounded by MaxOpen and counted as in flight for their backend, and all of that is undone when they close.",
		Run:     runC24,
	})
}

// isResource: values of the type must be closed after use: connections,
// streams, files, HTTP responses.
func isResource(t types.Type) bool {
	if isPtrTo(t, "os.File") || isPtrTo(t, "net/http.Response") {
		return true
	}
	ms := types.NewMethodSet(t)
	has := func(n string) bool { return ms.Lookup(nil, n) != nil }
	return has("RemoteAddr") && (has("Close") || has("CloseWithError")) || has("StreamID") && (has("Read") || has("Write"))
}

// acquires: the call makes a new resource, or reports an error.
func acquiresRes(ci ssa.CallInstruction) bool {
	rs := ci.Common().Signature().Results()
	return rs.Len() >= 2 && isErrorType(rs.At(rs.Len()-1).Type()) && isResource(rs.At(0).Type())
}

func releaseName(n string) bool {
	return strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".CloseWithError") || strings.HasSuffix(n, ".CloseNow")
}

func calleeText(ci ssa.CallInstruction) string {
	n := calleeName(ci)
	if n == "" {
		n = "a function value"
	}
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func runC24(r *Report, p *Prog) {
	lifeRelease(r, p)
	lifeTrack(r, p)
	lifeTable(r, p)
	lifeDialed(r, p)
	lifeForward(r, p)
	lifeOnClose(r, p)
	lifeChan(r, p)
}

// lifeRelease decides that what is acquired is released.
func lifeRelease(r *Report, p *Prog) {
	const rule = "released"
	r.Rule(rule, "a connection, stream, file or HTTP response that a function acquires is, on every path to its return and before it is acquired again, closed, returned, sent on a channel, or handed to a goroutine that does one of these on all its paths")
	direct := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && acquiresRes(ci)
	}
	// functions that close, send or acquire something
	touch := map[*ssa.Function]bool{}
	touches := func(f *ssa.Function) bool {
		v, ok := touch[f]
		if !ok {
			v = hasDeepCalls(p, f, lifeInstr)
			touch[f] = v
		}
		return v
	}
	walked := map[*ssa.Function]bool{}
	n := 0
	run := func(e *ssa.Function) {
		type pend struct {
			what  string
			in    ssa.Instruction
			sites []string
		}
		type site struct {
			bad   map[string]string
			count int
		}
		var pends []pend
		gos := map[string]*site{}
		what := map[string]string{}
		at := map[string]ssa.Instruction{}
		held := func(c *Ctx, ev *Ev) bool {
			if ev.Status == no {
				return false
			}
			return c.St.Nil(errTerm(c.W, ev.Res)) != no
		}
		mention := func(c *Ctx, t *Term, ev *Ev) bool {
			return heapMentions(c, t, func(x *Term) bool { return x == ev.Res })
		}
		own := func(c *Ctx, ev *Ev) bool {
			id, _ := constInt(ev.Args[0])
			for f := int(id); ; {
				if f == c.Fr.id {
					return true
				}
				pf, ok := c.W.fparent[f]
				if !ok || pf == f {
					return false
				}
				f = pf
			}
		}
		labels := func(c *Ctx, pre string) []*Ev {
			var out []*Ev
			for _, ev := range c.St.ev {
				if strings.HasPrefix(ev.Label, pre) {
					out = append(out, ev)
				}
			}
			sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
			return out
		}
		drop := func(c *Ctx, lbl string) {
			c.St.Kill("acq@" + lbl)
			for _, g := range labels(c, "go@"+lbl+"#") {
				c.St.Kill(g.Label)
			}
		}
		release := func(c *Ctx, t *Term) {
			if t == nil {
				return
			}
			for _, ev := range labels(c, "acq@") {
				if mention(c, t, ev) {
					drop(c, strings.TrimPrefix(ev.Label, "acq@"))
				}
			}
		}
		outstanding := func(c *Ctx, ev *Ev, in ssa.Instruction, how string) {
			lbl := strings.TrimPrefix(ev.Label, "acq@")
			pd := pend{what: fmt.Sprintf("%s, %s", what[lbl], how), in: at[lbl]}
			for _, g := range labels(c, "go@"+lbl+"#") {
				pd.sites = append(pd.sites, strings.TrimPrefix(g.Label, "go@"+lbl+"#"))
			}
			_ = in
			pends = append(pends, pd)
		}
		r.Walk(&Rule{
			Name: rule, KeepRes: true, Cap: 96,
			NoInline:    func(f *ssa.Function) bool { return isAnnotatedResult(f) || !touches(f) },
			Interesting: lifeInstr,
			OnCall: func(c *CallCtx) {
				walked[c.Fr.Fn] = true
				if g, ok := c.In.(*ssa.Go); ok {
					id := fmt.Sprint(c.Fr.Fn.Name(), "+", instrIndex(c.In), ".", c.In.Block().Index)
					for _, ev := range labels(&c.Ctx, "acq@") {
						hit := c.CT != nil && mention(&c.Ctx, c.CT, ev)
						for _, a := range c.Args {
							hit = hit || mention(&c.Ctx, a, ev)
						}
						if !hit {
							continue
						}
						lbl := strings.TrimPrefix(ev.Label, "acq@")
						key := lbl + "#" + id
						if gos[key] == nil {
							gos[key] = &site{bad: map[string]string{}}
						}
						if c.Fn == nil || !c.W.relevant(c.Fn) {
							gos[key].bad["the goroutine never closes it"] = p.Pos(g.Pos())
						}
						c.St.Event("go@"+key, nil, nil, nil)
					}
					return
				}
				if releaseName(c.Name) && len(c.Args) > 0 {
					release(&c.Ctx, c.Args[0])
					c.Opaque = true
					return
				}
				if acquiresRes(c.In) {
					c.Opaque = true
					lbl := fmt.Sprint(fnLabel(c.Fr.Fn), ".", c.In.Block().Index, ".", instrIndex(c.In))
					what[lbl] = "from " + calleeText(c.In) + " in " + fnLabel(c.Fr.Fn)
					at[lbl] = c.In
					for _, ev := range c.St.Has("acq@" + lbl) {
						if held(&c.Ctx, ev) {
							outstanding(&c.Ctx, ev, c.In, "when the next is acquired")
						}
					}
					if _, is := c.In.(*ssa.Call); !is {
						return
					}
					c.Result = bare(c)
					drop(&c.Ctx, lbl)
					n++
					fid := c.W.T.int(int64(c.Fr.id))
					c.After = func(st *State, res *Term) {
						st.Event("acq@"+lbl, res, []*Term{fid}, nil)
					}
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if s, ok := in.(*ssa.Send); ok {
					release(c, c.V(s.X))
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				for _, t := range rets {
					release(c, t)
				}
				for _, ev := range labels(c, "acq@") {
					lbl := strings.TrimPrefix(ev.Label, "acq@")
					if !held(c, ev) {
						continue
					}
					if own(c, ev) {
						outstanding(c, ev, in, "at a return of "+fnLabel(c.Fr.Fn))
						continue
					}
					if c.Fr.fork != "go" || c.Fr.Call == nil {
						continue
					}
					g := c.Fr.Call
					id := fmt.Sprint(g.Parent().Name(), "+", instrIndex(g), ".", g.Block().Index)
					if s := gos[lbl+"#"+id]; s != nil && hasEv(c, "go@"+lbl+"#"+id) {
						s.bad["not closed at a return of "+fnLabel(c.Fr.Fn)] = p.Pos(posOf(in))
					}
				}
			},
		}, e, nil)
		bad := map[string]bool{}
		for _, pd := range pends {
			ok := false
			why := ""
			lbl := ""
			for l, in := range at {
				if in == pd.in {
					lbl = l
				}
			}
			for _, s := range pd.sites {
				g := gos[lbl+"#"+s]
				if g != nil && len(g.bad) == 0 {
					ok = true
				} else if g != nil {
					for w, pos := range g.bad {
						why = fmt.Sprintf(" (it is handed to a goroutine, but %s, %s)", w, pos)
					}
				}
			}
			if !ok {
				bad[lbl] = true
				r.Assert(false, rule, what[lbl], pd.in.Pos(), "what is acquired %s may be neither closed nor handed over%s", pd.what, why)
			}
		}
		for lbl, w := range what {
			if !bad[lbl] {
				r.Assert(true, rule, w, at[lbl].Pos(), "")
			}
		}
	}
	var es []*ssa.Function
	for _, f := range p.Funcs {
		if !isExample(f) && !inTestFile(p, f) && f.Pkg != nil && f.Pkg.Pkg.Name() != "main" && has(f, direct) {
			es = append(es, f)
		}
	}
	sort.Slice(es, func(i, j int) bool {
		a, b := es[i].Parent() != nil, es[j].Parent() != nil
		if a != b {
			return b
		}
		return fnLabel(es[i]) < fnLabel(es[j])
	})
	for _, e := range es {
		if !walked[e] {
			run(e)
		}
	}
	r.AssertAt(n > 0, rule, "acquisitions", "-", "none found")
	r.Min(rule, map[string]int{"": 18}[p.Variant.Tags])
}

// lifeInstr: the instruction acquires something, closes something or sends a
// connection.
func lifeInstr(in ssa.Instruction) bool {
	if ci, ok := in.(ssa.CallInstruction); ok {
		return acquiresRes(ci) || releaseName(calleeName(ci)) && len(ci.Common().Args)+boolInt(ci.Common().IsInvoke()) > 0
	}
	s, ok := in.(*ssa.Send)
	return ok && isResource(s.X.Type())
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// isAnnotatedResult: the function returns something that carries annotations,
// and reports no error.
func isAnnotatedResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 1 && isAnnotated(rs.At(0).Type())
}

// connTable knows the table of connections.
type connTable struct {
	typ         *types.Named
	isAdd       map[*ssa.Function]bool
	isRemove    map[*ssa.Function]bool
	inF, outF   *types.Var
	incr        *ssa.Function // counts a connection as in flight
	keyBackend  string
	backendType types.Type
}

func newConnTable(r *Report, p *Prog, rule string) *connTable {
	t := &connTable{isAdd: map[*ssa.Function]bool{}, isRemove: map[*ssa.Function]bool{}}
	t.inF = r.mustField(rule, "proxy", "Proxy", "inConns")
	t.outF = r.mustField(rule, "proxy", "Backend", "outConns")
	if t.inF == nil || t.outF == nil {
		return nil
	}
	nt, ok := deref(t.inF.Type()).(*types.Named)
	if !ok {
		r.Missing(rule, "type of the table of connections")
		return nil
	}
	t.typ = nt
	for _, f := range p.Funcs {
		sig := f.Signature
		if sig.Recv() == nil || !types.Identical(deref(sig.Recv().Type()), nt) || sig.Params().Len() != 1 || !isAnnotated(sig.Params().At(0).Type()) {
			continue
		}
		switch {
		case hasDeepCalls(p, f, func(in ssa.Instruction) bool { _, ok := in.(*ssa.MapUpdate); return ok }):
			t.isAdd[f] = true
		case hasDeepCalls(p, f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isBuiltin(ci, "delete")
		}):
			t.isRemove[f] = true
		}
	}
	r.AssertAt(len(t.isAdd) > 0 && len(t.isRemove) > 0, rule, "methods of the table of connections", "-", "no method adds or removes a connection")
	fl := p.Field("proxy", "backendState", "inFlight")
	if fl == nil {
		if st := r.mustField(rule, "proxy", "Backend", "state"); st != nil {
			fl = fieldNamed(deref(st.Type()), "inFlight")
		}
	}
	if fl == nil {
		r.Missing(rule, "field inFlight")
		return nil
	}
	for _, f := range p.Funcs {
		sig := f.Signature
		if sig.Recv() != nil && isPtrTo(sig.Recv().Type(), modPath+"/proxy.Backend") && sig.Params().Len() == 1 && len(p.storesTo(fl)) > 0 {
			for _, s := range p.storesTo(fl) {
				if s.Parent() == f {
					t.incr = f
				}
			}
		}
	}
	if t.incr == nil {
		r.Missing(rule, "function that counts connections in flight")
		return nil
	}
	t.keyBackend = p.constStr("proxy", "backendKey")
	return t
}

// fieldNamed is a field of a struct type.
func fieldNamed(t types.Type, name string) *types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// lifeTable decides that the table of connections adds and removes a
// connection under the same key.
func lifeTable(r *Report, p *Prog) {
	const rule = "table-key"
	r.Rule(rule, "a connection is added to a table of connections, and removed from it, under the same key, made of its two addresses")
	t := newConnTable(r, p, rule)
	if t == nil {
		return
	}
	seen := map[string]map[string]bool{}
	var all []string
	walk := func(f *ssa.Function) {
		lbl := fnLabel(f)
		self := isParam(f.Params[1])
		var leaf func(c *Ctx, x *Term, d int) string
		leaf = func(c *Ctx, x *Term, d int) string {
			if x == nil || d > 3 {
				return "?"
			}
			if st, ok := x.typOr().Underlying().(*types.Struct); ok {
				var out []string
				for i := 0; i < st.NumFields(); i++ {
					out = append(out, st.Field(i).Name()+"="+leaf(c, structField(c, x, st.Field(i)), d+1))
				}
				return "{" + strings.Join(out, " ") + "}"
			}
			what := ""
			if self(unwrap(x)) {
				return "itself"
			}
			x.mentions(func(y *Term) bool {
				if what == "" && (y.op == "call" || y.op == "csym") && y.mentions(self) && (strings.HasSuffix(y.s, "LocalAddr") || strings.HasSuffix(y.s, "RemoteAddr")) {
					what = y.s[strings.LastIndex(y.s, ".")+1:]
				}
				return false
			})
			if what == "" {
				return "?" + x.String()
			}
			return what
		}
		note := func(c *Ctx, in ssa.Instruction, key *Term) {
			k := leaf(c, key, 0)
			r.Assert((k == "itself" || strings.Contains(k, "LocalAddr") && strings.Contains(k, "RemoteAddr")) && !strings.Contains(k, "?"), rule, "key in "+lbl, posOf(in), "the key is not made of the connection's two addresses: %s", k)
			if seen[k] == nil {
				seen[k] = map[string]bool{}
				all = append(all, k)
			}
			seen[k][map[bool]string{true: "add", false: "remove"}[t.isAdd[f]]] = true
		}
		r.Walk(&Rule{
			Name: rule, InlineAll: true,
			NoInline: func(g *ssa.Function) bool {
				if topFunc(g) == topFunc(f) {
					return false
				}
				for _, q := range g.Params {
					if _, ok := q.Type().Underlying().(*types.Signature); ok && inModule(g) {
						return false // runs a function of its caller
					}
				}
				rs := g.Signature.Results()
				if rs.Len() != 1 {
					return true
				}
				_, ok := rs.At(0).Type().Underlying().(*types.Struct)
				return !ok
			},
			OnCall: func(c *CallCtx) {
				if isBuiltin(c.In, "delete") && len(c.Args) == 2 {
					note(&c.Ctx, c.In, c.Args[1])
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					note(c, in, c.V(mu.Key))
				}
			},
		}, f, nil)
	}
	for f := range t.isAdd {
		walk(f)
	}
	for f := range t.isRemove {
		walk(f)
	}
	r.AssertAt(len(all) == 1 && seen[all[0]]["add"] && seen[all[0]]["remove"], rule, "keys of the table of connections", "-", "connections are added and removed under different keys: %v", all)
}

// setsCallback: the call sets what runs when a connection closes.
func setsCallback(ci ssa.CallInstruction) bool {
	return strings.HasSuffix(calleeName(ci), ".OnClose")
}

// lifeTrack decides how incoming connections are counted.
func lifeTrack(r *Report, p *Prog) {
	const rule, bound, flight = "conn-tracked", "conn-bound", "conn-inflight"
	r.Rule(rule, "an accepted connection is entered in the table of incoming connections, and its close callback removes it again, before anything is read from it or done with it")
	r.Rule(bound, "an accepted connection is served only if the number of incoming connections, counted when it was entered, is within MaxOpen")
	r.Rule(flight, "a connection is counted as in flight exactly once for the backend it is annotated with, its close callback exists by then, and that callback takes it back exactly once")
	t := newConnTable(r, p, rule)
	maxF := r.mustField(bound, "proxy", "Config", "MaxOpen")
	if t == nil || maxF == nil {
		return
	}
	dials := map[*ssa.Function]bool{}
	for _, f := range backendDialers(r, p, rule) {
		dials[f] = true
	}
	served := func(in ssa.Instruction) string {
		if s, ok := in.(*ssa.Send); ok && isResource(s.X.Type()) {
			return "connection sent on a channel"
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return ""
		}
		if f := staticCallee(ci); f != nil && dials[f] {
			return "dial"
		}
		n := calleeName(ci)
		for _, s := range []string{".HandshakeContext", ".Handshake", ".ServeQUICConn", ".AcceptStream", ".AcceptUniStream", ".ReceiveDatagram"} {
			if strings.HasSuffix(n, s) {
				return s[1:]
			}
		}
		return ""
	}
	readers := p.annotationReaders(map[string]bool{t.keyBackend: true})
	hs := p.acceptHandlers()
	r.AssertAt(len(hs) > 0, rule, "accept handlers", "-", "none found")
	for _, e := range hs {
		isConn := func(t *Term) bool { return t != nil && t.mentions(anyOfParams(e)) }
		lbl := fnLabel(e)
		type cb struct {
			removed, undone bool
			n               int
			why             string
		}
		cbs := map[*ssa.Function]*cb{}
		used := map[*ssa.Function]ssa.Instruction{}
		adds, incs, serves := 0, 0, 0
		r.Walk(&Rule{
			Name: rule, KeepRes: true, ForkClosures: true, Cap: 64,
			NoInline: func(f *ssa.Function) bool {
				return isAnnotatedResult(f) || t.isAdd[f] || t.isRemove[f] || f == t.incr || dials[f] || readers[f] != "" || !inPkg(f, "/proxy")
			},
			Interesting: func(in ssa.Instruction) bool {
				if served(in) != "" {
					return true
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				f := staticCallee(ci)
				return setsCallback(ci) || f != nil && (t.isAdd[f] || t.isRemove[f] || f == t.incr) || strings.HasSuffix(calleeName(ci), ".SetAnnotation")
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				if cond.op != "bin" || cond.s != "<" || len(cond.args) != 2 {
					return
				}
				cnt := func(x *Term) bool {
					for _, ev := range c.St.Has("add") {
						if x == ev.Res {
							return true
						}
					}
					return false
				}
				a, b := cond.args[0], cond.args[1]
				if val && cnt(a) && isField(maxF)(b) || !val && cnt(b) && isField(maxF)(a) {
					c.St.Event("bounded", nil, nil, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				if s := served(c.In); s != "" {
					lifeServed(r, &c.Ctx, rule, bound, s, lbl, c.In)
					serves++
					if c.Fn != nil && dials[c.Fn] {
						c.Opaque = true
					}
					return
				}
				switch {
				case c.Fn != nil && t.isAdd[c.Fn]:
					c.Opaque = true
					if !isField(t.inF)(c.Args[0]) || !isConn(c.Args[1]) {
						return
					}
					adds++
					r.Assert(!hasEv(&c.Ctx, "add"), rule, "connection entered in the table in "+lbl, c.In.Pos(), "the connection is entered more than once")
					res := bare(c)
					c.After = func(st *State, _ *Term) { st.Event("add", res, nil, nil) }
				case c.Fn != nil && t.isRemove[c.Fn]:
					c.Opaque = true
					if isField(t.inF)(c.Args[0]) && isConn(c.Args[1]) {
						c.St.Event("removed", nil, nil, nil)
					}
				case setsCallback(c.In) && len(c.Args) == 2 && isConn(c.Args[0]):
					c.Opaque = true
					if fn := c.Args[1].fn; fn != nil {
						used[fn] = c.In
						c.St.Kill("callback")
						c.St.Event("callback", nil, nil, nil)
					} else {
						r.Assert(false, rule, "close callback in "+lbl, c.In.Pos(), "the callback cannot be resolved")
					}
				case c.Fn == t.incr && c.Fn != nil:
					c.Opaque = true
					d, ok := constInt(c.Args[1])
					if !ok || d != 1 && d != -1 {
						r.Assert(false, flight, "connection counted in "+fnLabel(c.Fr.Fn), c.In.Pos(), "a connection is not counted by one")
						return
					}
					if d == 1 {
						incs++
						ok := !hasEv(&c.Ctx, "inc")
						r.Assert(ok, flight, "connection counted in "+lbl, c.In.Pos(), "the connection is counted more than once")
						r.Assert(hasEv(&c.Ctx, "callback"), flight, "connection counted in "+lbl+": callback", c.In.Pos(), "the connection is counted before its close callback exists")
						c.St.Event("inc", nil, []*Term{unwrap(c.Args[0])}, nil)
						return
					}
					// the backend the connection is annotated with
					a := unwrap(c.Args[0])
					ok = annotationOf(p, t.keyBackend, readers, isConn)(a)
					r.Assert(ok, flight, "connection taken back in "+fnLabel(c.Fr.Fn), c.In.Pos(), "what is decremented is not the backend that the connection is annotated with: %s", a)
					if hasEv(&c.Ctx, "dec") {
						c.St.Event("dec2", nil, nil, nil)
					}
					c.St.Event("dec", nil, nil, nil)
				case strings.HasSuffix(c.Name, ".SetAnnotation") && len(c.Args) >= 2:
					c.Opaque = true
					if k, ok := constString(unwrap(c.Args[len(c.Args)-2])); ok && k == t.keyBackend && isConn(c.Args[0]) {
						c.St.Event("annotated", nil, []*Term{unwrap(c.Args[len(c.Args)-1])}, nil)
					}
				case strings.HasSuffix(c.Name, ".Peek") || strings.HasSuffix(c.Name, ".Read"):
					if len(c.Args) > 0 && isConn(c.Args[0]) {
						lifeServed(r, &c.Ctx, rule, "", "read", lbl, c.In)
					}
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if s := served(in); s != "" {
					lifeServed(r, c, rule, bound, s, lbl, in)
					serves++
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.fork == "closure" {
					b := cbs[c.Fr.Fn]
					if b == nil {
						b = &cb{removed: true, undone: true}
						cbs[c.Fr.Fn] = b
					}
					b.n++
					if !hasEv(c, "removed") {
						b.removed = false
					}
					nobe := false
					for k, v := range c.St.facts {
						if k.op == "isnil" && v && annotationOf(p, t.keyBackend, readers, isConn)(unwrap(k.args[0])) {
							nobe = true
						}
						if k.op == "istype" && !v && k.args[0] != nil && annotationOf(p, t.keyBackend, readers, isConn)(unwrap(k.args[0])) {
							nobe = true
						}
					}
					if hasEv(c, "dec2") || !hasEv(c, "dec") && !nobe {
						b.undone = false
					}
					return
				}
				if c.Fr.fork != "" {
					return
				}
				inc, ann := c.St.Has("inc"), c.St.Has("annotated")
				ok := len(inc) == len(ann) && len(inc) <= 1
				if ok && len(inc) == 1 {
					ok = inc[0].Args[0] == ann[0].Args[0]
				}
				r.Assert(ok, flight, "return of "+lbl+": counted and annotated", posOf(in), "the connection is counted as in flight %d times, and annotated with a backend %d times, or with another backend", len(inc), len(ann))
			},
			Keep: func(k *Term) bool {
				return (k.op == "isnil" || k.op == "istype") && len(k.args) > 0 && k.args[0] != nil && k.args[0].mentions(func(x *Term) bool {
					return annotationOf(p, t.keyBackend, readers, isConn)(x)
				})
			},
		}, e, nil)
		r.AssertAt(adds > 0, rule, "table entry in "+lbl, "-", "accepted connections are not entered in the table")
		r.AssertAt(incs > 0, flight, "count in "+lbl, "-", "accepted connections are not counted as in flight")
		r.AssertAt(serves > 0, bound, "service in "+lbl, "-", "nothing is done with accepted connections")
		r.AssertAt(len(used) > 0, rule, "close callback in "+lbl, "-", "accepted connections have no close callback")
		for fn, in := range used {
			b := cbs[fn]
			r.Assert(b != nil && b.n > 0 && b.removed, rule, "close callback "+fnLabel(fn), in.Pos(), "the callback may return without removing the connection from the table")
			r.Assert(b != nil && b.n > 0 && b.undone, flight, "close callback "+fnLabel(fn), in.Pos(), "the callback may return without decrementing, once, the count of the backend")
		}
	}
}

func lifeServed(r *Report, c *Ctx, rule, bound, what, lbl string, in ssa.Instruction) {
	r.Assert(hasEv(c, "add") && hasEv(c, "callback"), rule, what+" in "+fnLabel(c.Fr.Fn)+" from "+lbl, posOf(in), "the connection is used before it is in the table with a callback that removes it: %s", c.Trace(in))
	if bound != "" {
		r.Assert(hasEv(c, "bounded"), bound, what+" in "+fnLabel(c.Fr.Fn)+" from "+lbl, posOf(in), "the connection is served without its number being within MaxOpen: %s", c.Trace(in))
	}
}

// lifeDialed decides that the connections to backends are in the table of
// outgoing connections as long as they are open.
func lifeDialed(r *Report, p *Prog) {
	const rule = "dialed-tracked"
	r.Rule(rule, "a connection that is handed out by a function that dials a backend, or that data is forwarded on, is in the table of outgoing connections, and what removes it runs when it is closed or before the function returns")
	t := newConnTable(r, p, rule)
	if t == nil {
		return
	}
	dials := map[*ssa.Function]bool{}
	entries := map[*ssa.Function]bool{}
	for _, f := range backendDialers(r, p, rule) {
		dials[f] = true
		if rs := f.Signature.Results(); rs.Len() == 2 && isResource(rs.At(0).Type()) {
			entries[f] = true
		}
	}
	isOut := func(x *Term) bool {
		return x.op == "field" && x.fv != nil && x.fv != t.inF && types.Identical(deref(x.fv.Type()), t.typ)
	}
	for _, f := range p.Funcs {
		if inTestFile(p, f) || isExample(f) {
			continue
		}
		// functions that enter outgoing connections
		if has(f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := staticCallee(ci)
			return g != nil && t.isAdd[g] && !p.Origins(ci.Common().Args[0], FlowOpts{NoCallers: true}).Fields[t.inF]
		}) {
			entries[f] = true
		}
		// functions that dial an address themselves
		if inPkg(f, "/proxy") && has(f, func(in ssa.Instruction) bool { n := calleeNameOf(in); return isDialer(n) }) && !entryReturns(f) {
			entries[f] = true
		}
	}
	var es []*ssa.Function
	for f := range entries {
		es = append(es, f)
	}
	sort.Slice(es, func(i, j int) bool { return fnLabel(es[i]) < fnLabel(es[j]) })
	adds := 0
	for _, e := range es {
		e := e
		lbl := fnLabel(e)
		removes := map[*ssa.Function]bool{}
		removed := map[*ssa.Function][]*Term{}
		forks := map[*ssa.Function]int{}
		type use struct {
			fn   *ssa.Function
			in   ssa.Instruction
			conn *Term
		}
		var uses []use
		same := func(a, b *Term) bool { return unwrap(a) == unwrap(b) }
		r.Walk(&Rule{
			Name: rule, KeepRes: true, ForkClosures: true, Cap: 64,
			NoInline: func(f *ssa.Function) bool {
				return isAnnotatedResult(f) || t.isAdd[f] || t.isRemove[f] || dials[f] && f != e
			},
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				f := staticCallee(ci)
				return setsCallback(ci) || acquiresRes(ci) || f != nil && (t.isAdd[f] || t.isRemove[f])
			},
			OnCall: func(c *CallCtx) {
				switch {
				case c.Fn != nil && t.isAdd[c.Fn]:
					c.Opaque = true
					if isField(t.inF)(c.Args[0]) {
						return
					}
					adds++
					r.Assert(isOut(c.Args[0]), rule, "connection entered in the table in "+lbl, c.In.Pos(), "not in a table of connections: %s", c.Args[0])
					x := unwrap(c.Args[1])
					c.St.Event("added", nil, []*Term{x}, nil)
				case c.Fn != nil && t.isRemove[c.Fn]:
					c.Opaque = true
					if isOut(c.Args[0]) {
						c.St.Event("removed", nil, []*Term{unwrap(c.Args[1])}, nil)
					}
				case setsCallback(c.In) && len(c.Args) == 2:
					c.Opaque = true
					if fn := c.Args[1].fn; fn != nil {
						uses = append(uses, use{fn, c.In, c.Args[0]})
						c.St.Event("callback", nil, []*Term{unwrap(c.Args[0])}, nil)
					}
				case acquiresRes(c.In):
					if _, is := c.In.(*ssa.Call); is && (isDialer(c.Name) || isQUICDialer(c.Name)) {
						bare(c)
					}
					c.Opaque = true
				}
				if g, ok := c.In.(*ssa.Go); ok && c.Fr.Fn == e && !entryReturns(e) && c.CT != nil {
					usesDialed := heapMentions(&c.Ctx, c.CT, func(x *Term) bool { return isDialer(x.s) && (x.op == "csym" || x.op == "call") })
					if usesDialed {
						r.Assert(hasEv(&c.Ctx, "added"), rule, "goroutine of "+lbl, g.Pos(), "data is forwarded on a connection that is not in the table of outgoing connections")
					}
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.fork == "closure" {
					ok := false
					for _, ev := range c.St.Has("removed") {
						ok = true
						removed[c.Fr.Fn] = append(removed[c.Fr.Fn], ev.Args[0])
					}
					if forks[c.Fr.Fn]++; forks[c.Fr.Fn] == 1 {
						removes[c.Fr.Fn] = true
					}
					removes[c.Fr.Fn] = removes[c.Fr.Fn] && ok
					return
				}
				if c.Fr.fork != "" {
					return
				}
				for _, ad := range c.St.Has("added") {
					ok := false
					for _, l := range []string{"callback", "removed"} {
						for _, ev := range c.St.Has(l) {
							ok = ok || same(ev.Args[0], ad.Args[0])
						}
					}
					r.Assert(ok, rule, "return of "+lbl+": removal", posOf(in), "a connection stays in the table of outgoing connections: %s", ad.Args[0])
				}
				if dials[e] && len(rets) == 2 && isResource(e.Signature.Results().At(0).Type()) {
					if c.St.Nil(rets[1]) == no || c.St.Nil(rets[0]) == yes {
						return
					}
					ok := false
					for _, ad := range c.St.Has("added") {
						ok = ok || same(ad.Args[0], rets[0])
					}
					r.Assert(ok, rule, "return of "+lbl+": in the table", posOf(in), "the connection that is handed out is not in the table of outgoing connections: %s", rets[0])
				}
			},
		}, e, nil)
		for _, u := range uses {
			ok := removes[u.fn]
			hit := false
			for _, t := range removed[u.fn] {
				hit = hit || same(t, u.conn)
			}
			r.Assert(ok && hit, rule, "close callback "+fnLabel(u.fn), u.in.Pos(), "the callback may return without removing that connection from the table of outgoing connections")
		}
	}
	r.AssertAt(adds > 0, rule, "outgoing connections", "-", "none is entered in the table")
	r.Min(rule, map[string]int{"": 10}[p.Variant.Tags])
}

// entryReturns: the function hands out a connection.
func entryReturns(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isResource(rs.At(0).Type())
}

// lifeForward decides how data is forwarded between two connections.
func lifeForward(r *Report, p *Prog) {
	const rule, both = "forward-ends", "forward-both"
	r.Rule(rule, "when copying from one connection to another ends, both are closed, unless it ended at the end of the data, closing is not configured for that direction, and the connection written to was closed for writing and given a deadline that is a configured time away")
	r.Rule(both, "connections are bridged by copying in both directions and waiting for both; data from the backend ends the connection as ServerCloseEndsConnection says, data from the client as ClientCloseEndsConnection says")
	isConn := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Interface)
		return ok && isResource(t) || isPtrTo(t, modPath+"/proxy/internal/netw.Conn")
	}
	isCopy := func(in ssa.Instruction) bool { return isCall(in, "io.Copy", "io.CopyBuffer") }
	var fwds []*ssa.Function
	for _, f := range p.funcsWhere(func(f *ssa.Function) bool { return inPkg(f, "/proxy") }) {
		n := 0
		for _, q := range f.Params {
			if isConn(q.Type()) {
				n++
			}
		}
		if n == 2 && f.Parent() == nil && has(f, isCopy) {
			fwds = append(fwds, f)
		}
	}
	if !r.AssertAt(len(fwds) > 0, rule, "functions that forward", "-", "no function copies from one connection to another") {
		return
	}
	isFwd := map[*ssa.Function]bool{}
	for _, f := range fwds {
		f := f
		isFwd[f] = true
		lbl := fnLabel(f)
		var flag, limit *ssa.Parameter
		for _, q := range f.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				flag = q
			}
			if q.Type().String() == "time.Duration" {
				limit = q
			}
		}
		r.Walk(&Rule{
			Name: rule, KeepRes: true,
			NoInline: func(g *ssa.Function) bool { return !inPkg(g, "/proxy") },
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && (releaseName(calleeName(ci)) || isCopy(in) || strings.HasSuffix(calleeName(ci), "Deadline"))
			},
			Keep: func(t *Term) bool { return flag != nil && isParam(flag)(t) },
			OnCall: func(c *CallCtx) {
				switch {
				case isCopy(c.In):
					c.St.Event("copy", c.Res, []*Term{unwrap(c.Args[0]), unwrap(c.Args[1])}, nil)
				case releaseName(c.Name) && len(c.Args) > 0:
					c.Opaque = true
					c.St.Event("closed", nil, []*Term{unwrap(c.Args[0])}, nil)
				case c.Fn != nil && c.Fn != f && len(c.Args) == 1 && isConn(c.Args[0].typOr()) && closesWrite(p, c.Fn):
					c.Opaque = true
					c.St.Event("half", c.Res, []*Term{unwrap(c.Args[0])}, nil)
				case strings.HasSuffix(c.Name, ".CloseWrite") && len(c.Args) == 1:
					c.St.Event("half", c.Res, []*Term{unwrap(c.Args[0])}, nil)
				case (strings.HasSuffix(c.Name, ".SetReadDeadline") || strings.HasSuffix(c.Name, ".SetDeadline")) && len(c.Args) == 2:
					if d := c.Args[1]; (d.op == "csym" || d.op == "call") && d.s == "(time.Time).Add" && len(d.args) == 2 && isNow(d.args[0]) && limit != nil && isParam(limit)(d.args[1]) {
						c.St.Event("deadline", nil, []*Term{unwrap(c.Args[0])}, nil)
					}
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				cps := c.St.Has("copy")
				if !r.Assert(len(cps) == 1, rule, "return of "+lbl+": copied", posOf(in), "returns after copying %d times", len(cps)) {
					return
				}
				dst, src := cps[0].Args[0], cps[0].Args[1]
				n := 0
				for _, ev := range c.St.Has("closed") {
					if ev.Args[0] == dst || ev.Args[0] == src {
						n++
					}
				}
				if n == 2 {
					r.Assert(true, rule, "return of "+lbl, posOf(in), "")
					return
				}
				on := func(l string) *Ev {
					for _, ev := range c.St.Has(l) {
						if ev.Args[0] == dst {
							return ev
						}
					}
					return nil
				}
				h := on("half")
				noflag := flag == nil
				if flag != nil {
					noflag = c.St.Bool(c.V(flag)) == no
				}
				r.Assert(okResult(c, cps[0]) && noflag && h != nil && okResult(c, h) && on("deadline") != nil, rule, "return of "+lbl, posOf(in), "the connections are left open: %s", c.Trace(in))
			},
		}, f, nil)
	}
	// bridges
	opt := func(n string) *types.Var { return r.mustField(both, "proxy", "Backend", n) }
	sc, cc := opt("ServerCloseEndsConnection"), opt("ClientCloseEndsConnection")
	if sc == nil || cc == nil {
		return
	}
	bridges := map[*ssa.Function]bool{}
	for _, ci := range p.prodSites(func(n string, ci ssa.CallInstruction) bool {
		g := staticCallee(ci)
		return g != nil && isFwd[g]
	}) {
		bridges[topFunc(ci.Parent())] = true
	}
	// a bridge's connections: which comes from a dial
	for b := range bridges {
		lbl := fnLabel(b)
		var conns []*ssa.Parameter
		for _, q := range b.Params {
			if isConn(q.Type()) {
				conns = append(conns, q)
			}
		}
		if len(conns) != 2 {
			r.AssertAt(false, both, "bridge "+lbl, p.Pos(b.Pos()), "has %d connections", len(conns))
			continue
		}
		// the server's connection is the one the callers dialed or opened
		side := map[*ssa.Parameter]int{}
		for _, ci := range p.idx.callers[b] {
			if inTest(p, ci) {
				continue
			}
			for _, q := range conns {
				o := p.Origins(ci.Common().Args[paramIndex(q)], FlowOpts{NoCallers: true})
				for x := range o.CallIns {
					if acquiresRes(x) {
						side[q]++
					}
				}
			}
		}
		var server *ssa.Parameter
		for _, q := range conns {
			o := conns[0]
			if q == o {
				o = conns[1]
			}
			if side[q] > 0 && side[o] == 0 {
				server = q
			}
		}
		if !r.Assert(server != nil, both, "bridge "+lbl+": sides", b.Pos(), "which connection was dialed is not clear") {
			continue
		}
		r.Walk(&Rule{
			Name: both, KeepRes: true,
			NoInline: func(g *ssa.Function) bool { return isFwd[g] },
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && staticCallee(ci) != nil && isFwd[staticCallee(ci)]
			},
			OnCall: func(c *CallCtx) {
				g, isGo := c.In.(*ssa.Go)
				if isGo {
					_ = g
					c.St.Event("started", nil, nil, nil)
					if c.CT != nil && c.CT.fn != nil {
						bridgeCopy(r, p, both, c.CT.fn, isFwd, server, sc, cc, lbl)
					}
					if c.Fn != nil && !isFwd[c.Fn] {
						return
					}
				}
				if c.Fn == nil || !isFwd[c.Fn] {
					return
				}
				c.Opaque = true
				l := "backward"
				for i, q := range c.Fn.Params {
					_ = i
					if isConn(q.Type()) && isDst(c.Fn, q, isCopy) && isParam(server)(unwrap(c.Args[paramIndex(q)])) {
						l = "toward"
					}
				}
				if c.Fr.fork == "" {
					c.St.Event("copied-"+l, nil, nil, nil)
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" && c.Fr.fork == "" {
					c.St.Event("waited", nil, nil, nil)
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.fork != "" {
					return
				}
				waited := hasEv(c, "waited")
				for _, ci := range instrCalls(b) {
					if strings.HasSuffix(calleeName(ci), "sync.WaitGroup).Wait") {
						waited = true
					}
				}
				two := hasEv(c, "copied-toward") && hasEv(c, "copied-backward")
				r.Assert(two || hasEv(c, "started") && waited && (hasEv(c, "copied-toward") || hasEv(c, "copied-backward")), both, "return of "+lbl, posOf(in), "returns without having copied in both directions and waited for both")
			},
		}, b, nil)
		bridgeCopy(r, p, both, b, isFwd, server, sc, cc, lbl)
	}
	r.Min(both, 2)
}

func instrCalls(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	instrs(f, func(in ssa.Instruction) {
		if ci, ok := in.(ssa.CallInstruction); ok {
			out = append(out, ci)
		}
	})
	return out
}

// isDst: the forwarding function copies to this parameter.
func isDst(f *ssa.Function, q *ssa.Parameter, isCopy func(ssa.Instruction) bool) bool {
	ok := false
	instrs(f, func(in ssa.Instruction) {
		if isCopy(in) && unIface(in.(ssa.CallInstruction).Common().Args[0]) == ssa.Value(q) {
			ok = true
		}
	})
	return ok
}

func unIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// closesWrite: the function closes its connection for writing.
func closesWrite(p *Prog, f *ssa.Function) bool {
	return inModule(f) && hasDeepCalls(p, f, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "CloseWrite"
	})
}

// bridgeCopy decides the options of the copies a function starts.
func bridgeCopy(r *Report, p *Prog, rule string, f *ssa.Function, isFwd map[*ssa.Function]bool, server *ssa.Parameter, sc, cc *types.Var, lbl string) {
	isCopy := func(in ssa.Instruction) bool { return isCall(in, "io.Copy", "io.CopyBuffer") }
	for _, ci := range instrCalls(f) {
		g := staticCallee(ci)
		if g == nil || !isFwd[g] {
			continue
		}
		for _, q := range g.Params {
			if !isDst(g, q, isCopy) {
				continue
			}
			toServer := p.Origins(ci.Common().Args[paramIndex(q)], FlowOpts{NoCallers: true}).Params[server]
			want, other := sc, cc
			dir := "from the backend"
			if toServer {
				want, other, dir = cc, sc, "from the client"
			}
			for _, b := range g.Params {
				if bt, ok := b.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
					continue
				}
				o := p.Origins(ci.Common().Args[paramIndex(b)], FlowOpts{NoCallers: true})
				r.Assert(o.Fields[want] && !o.Fields[other], rule, "copy "+dir+" in "+lbl, ci.Pos(), "whether the end of the data %s closes the connections does not follow %s", dir, want.Name())
			}
		}
	}
}

// lifeOnClose decides that closing a connection runs its callback.
func lifeOnClose(r *Report, p *Prog) {
	const rule = "callback-runs"
	r.Rule(rule, "closing a connection runs its close callback, if it has one, at most once, and always closes the connection underneath")
	n := 0
	for _, f := range p.Funcs {
		sig := f.Signature
		if f.Name() != "Close" || sig.Recv() == nil || inTestFile(p, f) || isExample(f) || f.Synthetic != "" {
			continue
		}
		st, ok := deref(sig.Recv().Type()).Underlying().(*types.Struct)
		if !ok || !isAnnotated(sig.Recv().Type()) {
			continue
		}
		var cbs []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			if s, ok := v.Type().Underlying().(*types.Signature); ok && s.Params().Len() == 0 && s.Results().Len() == 0 && setByMethod(p, v, deref(sig.Recv().Type())) {
				cbs = append(cbs, v)
			}
		}
		if len(cbs) == 0 {
			continue
		}
		lbl := fnLabel(f)
		cb := cbs[0]
		recv := isParam(f.Params[0])
		n++
		r.Walk(&Rule{
			Name: rule, KeepRes: true, InlineAll: true,
			NoInline: func(g *ssa.Function) bool { return !inModule(g) },
			Keep:     func(t *Term) bool { return t.op == "isnil" && t.args[0] != nil && t.args[0].mentions(isField(cb)) },
			OnCall: func(c *CallCtx) {
				switch {
				case c.Fn == nil && c.CT != nil && c.CT.mentions(isField(cb)):
					c.Opaque = true
					r.Assert(hasEv(&c.Ctx, "cleared"), rule, "callback in "+lbl+": once", c.In.Pos(), "the callback runs without having been cleared first: closing again would run it again")
					r.Assert(!hasEv(&c.Ctx, "ran"), rule, "callback in "+lbl+": not twice", c.In.Pos(), "the callback runs twice")
					c.St.Event("ran", nil, nil, nil)
				case releaseName(c.Name) && len(c.Args) > 0 && c.Args[0] != nil && !recv(c.Args[0]) && c.Args[0].mentions(recv):
					c.St.Event("closed", nil, nil, nil)
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok || !touchesAddr(s.Addr, cb) {
					return
				}
				if c.St.Nil(c.V(s.Val)) == yes {
					c.St.Event("cleared", nil, nil, nil)
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				none := false
				for k, v := range c.St.facts {
					if k.op == "isnil" && v && k.args[0].mentions(isField(cb)) {
						none = true
					}
				}
				r.Assert(hasEv(c, "ran") || none, rule, "return of "+lbl+": callback", posOf(in), "the connection is closed without running its callback")
				r.Assert(hasEv(c, "closed"), rule, "return of "+lbl+": closed", posOf(in), "the connection underneath is not closed")
			},
		}, f, nil)
	}
	r.AssertAt(n > 0, rule, "Close methods", "-", "no type of connection has a close callback")
	want := 2
	if p.Variant.Tags != "" {
		want = 1
	}
	r.AssertAt(n >= want, rule, "types with a close callback", "-", "%d found, expected %d", n, want)
}

func touchesAddr(a ssa.Value, fv *types.Var) bool {
	fa, ok := a.(*ssa.FieldAddr)
	return ok && fieldVar(fa.X.Type(), fa.Field) == fv
}

// setByMethod: a method of the type stores its argument in the field.
func setByMethod(p *Prog, fv *types.Var, t types.Type) bool {
	for _, s := range p.storesTo(fv) {
		f := s.Parent()
		if q, ok := s.Val.(*ssa.Parameter); ok && f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), t) && paramIndex(q) == 1 {
			return true
		}
	}
	return false
}

// lifeChan decides that connections queued for a server that stops are closed.
func lifeChan(r *Report, p *Prog) {
	const rule = "queue-drained"
	r.Rule(rule, "what receives the connections queued for an HTTP server either hands each of them out or closes it")
	chanF := r.mustField(rule, "proxy", "Backend", "httpConnChan")
	if chanF == nil {
		return
	}
	isQ := func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && types.Identical(ch.Elem(), chanF.Type().Underlying().(*types.Chan).Elem())
	}
	n := 0
	for _, f := range p.Funcs {
		if inTestFile(p, f) || isExample(f) {
			continue
		}
		recvs := has(f, func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.UnOp:
				return x.Op.String() == "<-" && isQ(x.X.Type())
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.RecvOnly && isQ(s.Chan.Type()) {
						return true
					}
				}
			}
			return false
		})
		if !recvs {
			continue
		}
		f := f
		n++
		held := map[string]ssa.Instruction{}
		okAll := true
		var where ssa.Instruction
		fail := func(in ssa.Instruction) { okAll, where = false, in }
		r.Walk(&Rule{
			Name: rule, KeepRes: true, NoGo: true,
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && releaseName(calleeName(ci))
			},
			OnCall: func(c *CallCtx) {
				if releaseName(c.Name) && len(c.Args) > 0 {
					c.Opaque = true
					for _, ev := range c.St.Has("recv") {
						if c.Args[0].mentions(func(x *Term) bool { return x.v == ev.Res.v && x.op == ev.Res.op }) {
							c.St.Kill("recv")
						}
					}
				}
			},
			OnInstr: func(c *Ctx, in ssa.Instruction) {
				var v ssa.Value
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op.String() == "<-" && isQ(x.X.Type()) {
						v = x
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && isQ(s.Chan.Type()) {
							v = x
						}
					}
				case *ssa.Send:
					for _, ev := range c.St.Has("recv") {
						if c.V(x.X).mentions(func(y *Term) bool { return y == ev.Res }) {
							c.St.Kill("recv")
						}
					}
				}
				if v == nil {
					return
				}
				if hasEv(c, "recv") && !hasEv(c, "closedq") {
					fail(in)
				}
				c.St.Kill("recv")
				c.St.Kill("closedq")
				held[v.Name()] = in
				t := c.W.T.mk(&Term{op: "sym", s: v.Name(), frame: c.Fr.id, v: v, typ: v.Type()})
				c.St.Event("recv", t, nil, nil)
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				// the channel was closed, or another case was chosen
				for _, ev := range c.St.Has("recv") {
					if cond.mentions(func(x *Term) bool { return x.v == ev.Res.v && x.op == ev.Res.op }) {
						isOK := cond.op == "extract" && cond.s == "1" || cond.op == "extract" && len(cond.args) == 1
						if isOK && !val {
							c.St.Event("closedq", nil, nil, nil)
						}
						if cond.op == "bin" && cond.s == "==" {
							chosen := selectCase(cond)
							sel, _ := ev.Res.v.(*ssa.Select)
							if sel != nil && chosen >= 0 && chosen < len(sel.States) {
								q := isQ(sel.States[chosen].Chan.Type())
								if q != val {
									c.St.Event("closedq", nil, nil, nil)
								}
							}
						}
					}
				}
			},
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				for _, ev := range c.St.Has("recv") {
					ok := hasEv(c, "closedq")
					for _, t := range rets {
						ok = ok || heapMentions(c, t, func(x *Term) bool { return x.v == ev.Res.v && x.op == ev.Res.op })
					}
					if !ok {
						fail(in)
					}
				}
			},
		}, f, nil)
		pos := f.Pos()
		if where != nil {
			pos = posOf(where)
		}
		r.Assert(okAll, rule, "receiver "+fnLabel(f), pos, "a queued connection is received, and neither handed out nor closed")
	}
	r.AssertAt(n > 0, rule, "receivers", "-", "nothing receives the connections queued for HTTP servers")
}

// selectCase is the case that a condition tests a select for.
func selectCase(cond *Term) int {
	for i := range cond.args {
		if n, ok := constInt(cond.args[i]); ok {
			return int(n)
		}
	}
	return -1
}
