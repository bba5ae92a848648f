package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID: "C17", Title: "Static files stay inside the document root",
		Explain: "Path-sensitive walk of every installed HTTP handler: every path given to the file system is the configured document root joined with a relative path all of whose segments passed the segment test, only regular files are served, and redirects to the cleaned path stay on the same site.",
		Run:     runC17,
	})
}

// fsCall: the argument that names a file.
func fsCall(name string) int {
	switch name {
	case "os.Open", "os.OpenFile", "os.Stat", "os.Lstat", "os.ReadFile", "os.ReadDir", "os.DirFS", "os.Readlink", "os.OpenRoot", "path/filepath.EvalSymlinks", "path/filepath.Glob":
		return 0
	case "net/http.ServeFile":
		return 2
	}
	return -1
}

// orderedElems lists the elements of a literal (variadic) slice in order.
func orderedElems(c *Ctx, t *Term) []*Term {
	if t.op != "slice" || t.args[0].op != "alloc" {
		return nil
	}
	m := map[int64]*Term{}
	for k := range c.St.heap {
		if k.op == "index" && k.args[0] == t.args[0] {
			if i, ok := constInt(k.args[1]); ok {
				m[i] = c.St.Load(k, k.typ)
			}
		}
	}
	var out []*Term
	for i := int64(0); i < int64(len(m)); i++ {
		if m[i] == nil {
			return nil
		}
		out = append(out, m[i])
	}
	return out
}

// trimmed lists the term and the terms it is a suffix of.
func trimmed(t *Term) []*Term {
	var out []*Term
	for {
		t = stripConv(t)
		out = append(out, t)
		switch {
		case (t.op == "call" || t.op == "csym") && oneOf(t.s, "strings.TrimPrefix", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimRight", "strings.Trim", "path/filepath.FromSlash"):
			t = t.args[0]
		case t.op == "slice":
			t = t.args[0]
		case t.op == "extract" && oneOf(t.args[0].s, "strings.CutPrefix", "strings.CutSuffix"):
			t = t.args[0].args[0]
		default:
			return out
		}
	}
}

func isClean(t *Term) bool {
	return (t.op == "call" || t.op == "csym") && oneOf(t.s, "path.Clean", "path.Join")
}

// pathCleaners are the functions of the proxy that turn a path into a cleaned
// path.
func (p *Prog) pathCleaners() []*ssa.Function {
	return p.funcsWhere(func(f *ssa.Function) bool {
		s := f.Signature
		return inPkg(f, "/proxy") && s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && s.Params().At(0).Type().String() == "string" && s.Results().At(0).Type().String() == "string" &&
			has(f, func(in ssa.Instruction) bool { return isCall(in, "path.Clean", "path.Join") })
	})
}

func runC17(r *Report, p *Prog) {
	const rule, redir, clean = "static-files", "path-redirects", "clean-path"
	r.Rule(rule, "a file is looked up or opened for a GET or HEAD request, under a configured document root, by a relative path none of whose segments starts with a dot or contains a backslash; only a regular file is served")
	r.Rule(redir, "a redirect to the request's own cleaned path has no scheme or host, and its path is the result of cleaning")
	r.Rule(clean, "the path cleaning function returns a cleaned path that starts with exactly one slash")
	a := ssoResolve(r, p, rule)
	root := r.mustField(rule, "proxy", "Backend", "DocumentRoot")
	root2 := r.mustField(rule, "proxy", "PathOverride", "DocumentRoot")
	urlPath := p.extField("net/url", "URL", "Path")
	urlHost, urlScheme, urlOpaque := p.extField("net/url", "URL", "Host"), p.extField("net/url", "URL", "Scheme"), p.extField("net/url", "URL", "Opaque")
	method := p.extField("net/http", "Request", "Method")
	if a == nil || root == nil || root2 == nil || urlPath == nil || method == nil {
		return
	}
	isRoot := either(isField(root), isField(root2))
	// pathClean: the module's cleaning functions, decided separately
	cleaners := p.pathCleaners()
	isCleaner := map[*ssa.Function]bool{}
	cleanNames := map[string]bool{}
	for _, f := range cleaners {
		isCleaner[f] = true
		cleanNames[funcName(f)] = true
		n := 0
		r.Walk(&Rule{
			KeepRes: true,
			Name:    clean, InlineAll: true,
			Keep: func(t *Term) bool { return t.op == "call" && t.s == "strings.HasPrefix" || t.op == "bin" },
			OnReturn: func(c *Ctx, rets []*Term, in *ssa.Return) {
				if c.Fr.Fn != f || len(rets) != 1 {
					return
				}
				n++
				t := leftmost(rets[0])
				ok := isStr("/")(t)
				if isClean(t) {
					arg := leftmost(t.args[0])
					if s, isC := constString(arg); isC {
						ok = strings.HasPrefix(s, "/")
					}
					pre := c.W.T.mk(&Term{op: "call", s: "strings.HasPrefix", args: []*Term{t.args[0], c.W.T.str("/")}})
					for k, v := range c.St.facts {
						if v && k.op == "call" && k.s == "strings.HasPrefix" && k.args[0] == t.args[0] && isStr("/")(k.args[1]) {
							ok = true
						}
						if v && k.op == "bin" && k.s == "==" && k.mentions(func(x *Term) bool { return x.op == "index" && x.args[0] == t.args[0] }) {
							ok = true
						}
					}
					ok = ok || c.St.Bool(pre) == yes
				}
				// what is added after it is only slashes
				for x := rets[0]; x.op == "bin" && x.s == "+"; x = x.args[0] {
					ok = ok && isStr("/")(x.args[1])
				}
				r.Assert(ok, clean, "result of "+fnLabel(f), posOf(in), "the result is not a cleaned absolute path: %v", rets[0])
			},
		}, f, nil)
		r.AssertAt(n > 0, clean, "results of "+fnLabel(f), "-", "no path returns")
	}
	r.Min(clean, 2)
	cleaned := func(t *Term) bool {
		ts := trimmed(leftmost(t))
		b := ts[len(ts)-1]
		for _, x := range ts[:len(ts)-1] {
			if x.op == "slice" || oneOf(x.s, "strings.TrimPrefix", "strings.TrimLeft", "strings.Trim") {
				return false
			}
		}
		return (b.op == "call" || b.op == "csym") && cleanNames[b.s]
	}

	segs := func(t *Term) bool {
		return (t.op == "call" || t.op == "csym") && oneOf(t.s, "strings.Split", "strings.FieldsFunc") && isStr("/")(t.args[1])
	}
	elemTest := func(cond *Term, name, s string) bool {
		return (cond.op == "call" || cond.op == "csym") && cond.s == name && len(cond.args) == 2 && isStr(s)(cond.args[1]) && cond.args[0].mentions(segs)
	}
	noDot := &forall{L: "nodot", IsList: segs}
	noBack := &forall{L: "noback", IsList: segs}
	// whole: a test of the whole path that came out false
	whole := func(c *Ctx, ts []*Term, name, s string) bool {
		for k, v := range c.St.facts {
			if v || (k.op != "call" && k.op != "csym") || k.s != name || len(k.args) != 2 || !isStr(s)(k.args[1]) {
				continue
			}
			for _, t := range ts {
				if k.args[0] == t {
					return true
				}
			}
		}
		return false
	}
	files, redirects := 0, 0
	sites := map[ssa.Instruction]bool{}
	entries := p.httpHandlers()
	r.AssertAt(len(entries) >= 2, rule, "installed HTTP handlers", "-", "found %d HTTP handlers that serve backends", len(entries))
	for _, e := range entries {
		r.Walk(&Rule{
			KeepRes: true,
			Name:    rule,
			Interesting: func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && (fsCall(calleeName(ci)) >= 0 || isCall(in, "net/http.Redirect", "net/http.ServeContent", "strings.Split", "(io/fs.FileMode).IsRegular", "(*os.File).Stat"))
			},
			NoInline: func(f *ssa.Function) bool { return f == a.policy || f == a.auth || isCleaner[f] },
			Keep: func(t *Term) bool {
				return t.mentions(isRoot) || t.mentions(isField(method)) || (t.op == "call" && oneOf(t.s, "strings.HasPrefix", "strings.Contains") && t.args[0].mentions(func(x *Term) bool { return cleanNames[x.s] }))
			},
			OnBranch: func(c *Ctx, cond *Term, val bool) {
				noDot.branch(c, cond, val)
				noBack.branch(c, cond, val)
				if !val && elemTest(cond, "strings.HasPrefix", ".") {
					noDot.dispose(c, cond)
				}
				if !val && elemTest(cond, "strings.Contains", `\`) {
					noBack.dispose(c, cond)
				}
				if u, v, eq, ok := sameEq(cond, val); ok && eq && (isField(method)(u) && (isStr("GET")(v) || isStr("HEAD")(v)) || isField(method)(v) && (isStr("GET")(u) || isStr("HEAD")(u))) {
					c.St.Event("get", nil, nil, nil)
				}
				if val && isCallTo("(io/fs.FileMode).IsRegular")(cond) {
					c.St.Event("regular", nil, []*Term{cond.args[0]}, nil)
				}
			},
			OnCall: func(c *CallCtx) {
				in := c.In.(ssa.Instruction)
				where := " in " + fnLabel(c.Fr.Fn)
				if i := fsCall(c.Name); i >= 0 {
					t := c.Args[i]
					if !t.mentions(isRoot) && !heapMentions(&c.Ctx, t, isRoot) && !t.mentions(isField(urlPath)) {
						return
					}
					files++
					sites[in] = true
					var check func(t *Term) string
					rel := func(t *Term) string {
						if s, ok := constString(t); ok {
							for _, x := range strings.Split(s, "/") {
								if strings.HasPrefix(x, ".") {
									return "a hidden name"
								}
							}
							return ""
						}
						ts := trimmed(t)
						is := func(l *Term) bool {
							for _, x := range ts {
								if segs(l) && l.args[0] == x {
									return true
								}
							}
							return false
						}
						if !(noDot.okFor(&c.Ctx, is) || whole(&c.Ctx, ts, "strings.HasPrefix", ".") && whole(&c.Ctx, ts, "strings.Contains", "/.")) {
							return "a path with a segment that may start with a dot"
						}
						if !(noBack.okFor(&c.Ctx, is) || whole(&c.Ctx, ts, "strings.Contains", `\`)) {
							return "a path that may contain a backslash"
						}
						return ""
					}
					check = func(t *Term) string {
						switch {
						case isRoot(t):
							if c.St.Bool(c.W.T.eq(t, c.W.T.str(""))) != no && !anyRoot(&c.Ctx, t) {
								return "a document root that may be empty"
							}
							return ""
						case isCallTo("path/filepath.Join", "path.Join")(t):
							es := orderedElems(&c.Ctx, t.args[0])
							if len(es) == 0 {
								return "an unknown path"
							}
							if s := check(es[0]); s != "" {
								return s
							}
							for _, x := range es[1:] {
								if s := rel(x); s != "" {
									return s
								}
							}
							return ""
						case isCallTo("path/filepath.Clean", "path/filepath.FromSlash")(t):
							return check(t.args[0])
						case t.op == "bin" && t.s == "+":
							if s, ok := constString(t.args[1]); ok && strings.HasPrefix(s, "/") {
								if x := rel(t.args[1]); x != "" {
									return x
								}
								return check(t.args[0])
							}
						}
						return "a path that does not start with the document root"
					}
					bad := check(t)
					r.Assert(bad == "", rule, c.Name+where, in.Pos(), "the file system is given %s: %v (%s)", bad, t, c.Trace(in))
					r.Assert(hasEv(&c.Ctx, "get"), rule, c.Name+where+": method", in.Pos(), "a file is looked up although the method was not found to be GET or HEAD (%s)", c.Trace(in))
					if c.Name == "os.Open" || c.Name == "os.OpenFile" {
						c.St.Event("open", c.Res, nil, nil)
					}
					return
				}
				switch c.Name {
				case "net/http.ServeContent":
					f := c.Args[4]
					ok := fromOK(&c.Ctx, f, "open")
					r.Assert(ok, rule, "file served"+where, in.Pos(), "the content served is not a file opened without error: %v", f)
					ok = false
					for _, ev := range c.St.Has("regular") {
						if unwrap(f).mentions(func(x *Term) bool { return x.op == "csym" && x.s == "os.Open" || x.s == "os.OpenFile" }) {
							for _, o := range c.St.Has("open") {
								ok = ok || f.mentions(func(x *Term) bool { return x == o.Res }) && ev.Args[0].mentions(func(x *Term) bool { return x == o.Res }) && ev.Args[0].mentions(func(x *Term) bool { return x.s == "(*os.File).Stat" })
							}
						}
					}
					r.Assert(ok, rule, "regular file"+where, in.Pos(), "the file served was not found to be a regular file once open (%s)", c.Trace(in))
				case "net/http.Redirect":
					t := c.Args[2]
					if !isCallTo("(*net/url.URL).String", "(*net/url.URL).RequestURI", "(*net/url.URL).EscapedPath")(t) {
						if t.mentions(func(x *Term) bool { return cleanNames[x.s] }) {
							redirects++
							r.Assert(false, redir, "redirect"+where, in.Pos(), "the request's path is used as a redirect target without being escaped: %v", t)
						}
						return
					}
					u := c.W.T.path(t.args[0])
					pth := c.St.Load(c.W.T.field(u, urlPath), urlPath.Type())
					if !pth.mentions(func(x *Term) bool { return cleanNames[x.s] || isField(urlPath)(x) }) {
						return
					}
					redirects++
					r.Assert(cleaned(pth), redir, "redirect"+where, in.Pos(), "the redirect's path is not a cleaned one, so that it may lead to another site: %v (%s)", pth, c.Trace(in))
					for _, fv := range []*types.Var{urlHost, urlScheme, urlOpaque} {
						v := c.St.Load(c.W.T.field(u, fv), fv.Type())
						r.Assert(v.op == "zero" || isEmptyStr(v), redir, "redirect"+where+": "+fv.Name(), in.Pos(), "the redirect's %s is %v", fv.Name(), v)
					}
				}
			},
		}, e, nil)
	}
	r.AssertAt(files > 0, rule, "static files are served", "-", "no path opens a file under a document root")
	r.AssertAt(redirects > 0, redir, "requests are redirected to the cleaned path", "-", "no such redirect")
	// no other way to serve files
	for _, f := range p.Funcs {
		if isExample(f) || !inModule(f) || !strings.Contains(pkgPath(f), "/proxy") {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			switch n := calleeName(ci); {
			case oneOf(n, "net/http.FileServer", "net/http.ServeFile", "net/http.FileServerFS", "net/http.ServeFileFS", "os.DirFS", "os.ReadDir"):
				o := p.Origins(ci.Common().Args[len(ci.Common().Args)-1], FlowOpts{})
				r.Assert(!o.Fields[root] && !o.Fields[root2], rule, n+" in "+fnLabel(f), in.Pos(), "files are served from the document root without the path test: directories would be listed")
			case fsCall(n) >= 0 && !sites[in]:
				o := p.Origins(ci.Common().Args[fsCall(n)], FlowOpts{NoCallers: true})
				r.Assert(!(o.Fields[urlPath]), rule, n+" in "+fnLabel(f), in.Pos(), "a file name is made from the path of a request")
			}
		})
	}
	r.Min(rule, 8)
	r.Min(redir, 3)
}

// anyRoot: the document root is known not to be empty.
func anyRoot(c *Ctx, t *Term) bool {
	l := c.W.T.mk(&Term{op: "call", s: "builtin.len", args: []*Term{t}})
	return c.St.Bool(c.W.T.eq(c.W.T.int(0), l)) == no || c.St.Bool(c.W.T.lt(c.W.T.int(0), l)) == yes
}
