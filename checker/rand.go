package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const fnRandom64 = "tools.RandomUint64"

// drawing tells which argument of a library function is the random source and
// which one, if any, is the buffer it fills.
func drawing(name string) (src, buf int, ok bool) {
	switch name {
	case "io.ReadFull":
		return 0, 1, true
	case "io.ReadAtLeast":
		return 0, 1, true
	case "crypto/rand.Read":
		return -1, 0, true
	case "crypto/rand.Int", "crypto/rand.Prime", "crypto/ecdsa.GenerateKey", "crypto/ed25519.GenerateKey", "crypto/rsa.GenerateKey", "crypto/x509.CreateCertificate":
		if name == "crypto/ecdsa.GenerateKey" {
			return 1, -1, true
		}
		return 0, -1, true
	}
	if strings.HasSuffix(name, "ed25519.GenerateKey") || strings.HasSuffix(name, "sntrup4591761.GenerateKey") || strings.HasSuffix(name, "sntrup4591761.Encapsulate") {
		return 0, -1, true
	}
	return 0, 0, false
}

func init() {
	register("C17", func(c *Ctx) {
		c.Rule("every key, nonce, salt, token and certificate is drawn from crypto/rand.Reader: the source handed to each drawing function is that reader, followed through parameters, fields and variables")
		c.Rule("a value or buffer is used only after the drawing that fills it succeeded; every sealing outside a session uses a nonce drawn whole for it alone")
		c.Rule("the token of an invitation, the PIN of a rendezvous and an account creation token are drawn, and from no fewer than a million values")
		c.Rule("the server starts answering key exchanges only after its ephemeral key was drawn")
		c.random()
		c.Need("random drawing", 8)
		c.Need("random source", 8)
		c.Need("sealing", 2)
		c.Need("token", 3)
	})
}

// readerOrigins follows a reader to where it comes from, through fields and
// variables too.
func (c *Ctx) readerOrigins(v ssa.Value) []origin {
	var out []origin
	done := map[string]bool{}
	todo := []ssa.Value{v}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, o := range c.P.origins(x, nil) {
			switch o.Kind {
			case "field":
				if !done[o.Name] {
					done[o.Name] = true
					for _, s := range c.P.fieldStores(o.Name) {
						todo = append(todo, s.Val)
					}
				}
			case "global":
				if strings.HasPrefix(o.Name, "crypto/") {
					out = append(out, o)
				} else if !done[o.Name] {
					done[o.Name] = true
					n := 0
					for _, f := range c.P.Funcs {
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if s, ok := in.(*ssa.Store); ok {
									if g, ok := s.Addr.(*ssa.Global); ok && shorten(g.String()) == o.Name {
										todo = append(todo, s.Val)
										n++
									}
								}
							}
						}
					}
					if n == 0 {
						out = append(out, o)
					}
				}
			default:
				out = append(out, o)
			}
		}
	}
	return out
}

// secure: the reader is the operating system's. decided is false when it is a
// reader of something else altogether (a file, a connection).
func (c *Ctx) secure(v ssa.Value) (good bool, what string) {
	good = true
	n := 0
	for _, o := range c.readerOrigins(v) {
		if o.Kind == "global" && o.Name == "crypto/rand.Reader" {
			n++
			continue
		}
		if o.Kind == "const" {
			// nil, before it is set
			continue
		}
		good = false
		what = o.Kind + " " + o.Name
	}
	return good && n > 0, what
}

// reads only part of the array behind a slice.
func (c *Ctx) partial(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if at, ok := deref(v.X.Type()).Underlying().(*types.Array); ok && v.X.Type() != at {
			if k, ok := v.Low.(*ssa.Const); ok && k.Int64() > 0 {
				return true
			}
			if k, ok := v.High.(*ssa.Const); ok && k.Int64() < at.Len() {
				return true
			}
			return false
		}
		return c.partial(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if c.partial(e, seen) {
				return true
			}
		}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p != v {
				continue
			}
			for _, call := range c.P.callers[v.Parent()] {
				if a := call.Common().Args; i < len(a) && call.Common().StaticCallee() == v.Parent() && c.partial(a[i], seen) {
					return true
				}
			}
		}
	}
	return false
}

// drawsSecret: the reader is, or could be, a random source: it is not one of
// the program's inputs.
func (c *Ctx) drawsSecret(in ssa.CallInstruction) (src ssa.Value, ok bool) {
	s, buf, ok := drawing(staticName(in))
	if !ok {
		return nil, false
	}
	if s < 0 {
		return nil, true
	}
	v := in.Common().Args[s]
	if buf < 0 {
		return v, true
	}
	for _, o := range c.readerOrigins(v) {
		if strings.Contains(o.Name, "rand") || strings.Contains(o.Name, "Rand") {
			return v, true
		}
	}
	return nil, false
}

func (c *Ctx) random() {
	draws := map[ssa.Instruction]bool{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := staticName(ci)
				if strings.HasPrefix(n, "math/rand") {
					c.weakRandom(ci)
					continue
				}
				if ci.Common().IsInvoke() && ci.Common().Method.Name() == "Read" && len(ci.Common().Args) == 1 {
					if ok, _ := c.secure(ci.Common().Value); ok {
						c.Violation("short/"+fnName(f), in.Pos(), "the random source is read without making sure that it filled the buffer")
					}
					continue
				}
				src, ok := c.drawsSecret(ci)
				if !ok {
					continue
				}
				draws[in] = true
				c.Count("random source", n+" in "+fnName(f))
				if src == nil {
					continue
				}
				if good, what := c.secure(src); !good {
					c.Violation("source/"+n+"/"+fnName(f), in.Pos(), "%s draws from %s, not only from the operating system's random source", n, what)
				}
			}
		}
	}

	rule := func(id string) *Rule {
		r := &Rule{ID: id}
		undrawn := func(e *Engine, st *State, v AV) bool { return e.deepLabHas(st, v, "undrawn") }
		r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
			w := fnName(in.Parent())
			switch in := in.(type) {
			case ssa.CallInstruction:
				n := staticName(in)
				if b, ok := in.Common().Value.(*ssa.Builtin); ok {
					n = b.Name()
					if n == "clear" || n == "len" || n == "cap" {
						return
					}
				} else if g := in.Common().StaticCallee(); g != nil && isRepoFn(g) {
					return
				}
				if draws[in] {
					return // drawn again
				}
				for _, a := range in.Common().Args {
					if undrawn(e, st, e.val(st, a)) {
						e.Violation(st, "undrawn/"+w+"/"+n, in, "%s uses random bytes whose drawing failed", n)
					}
				}
			case *ssa.Store:
				a := e.addrOf(e.val(st, in.Addr))
				v := e.val(st, in.Val)
				if f := a.field(); f != nil && a.Owner == "rpc.GroupInvite" && f.Name() == "Token" && inPkg(in.Parent(), "zkclient") && !v.is(Zero) {
					e.Count("token", "invitation in "+w)
					if !v.has("rnd") {
						e.Violation(st, "token/"+w, in, "an invitation's token was not drawn from the random source")
					}
				}
				if (a.Heap || strings.HasPrefix(a.Root, "g:")) && undrawn(e, st, v) {
					e.Violation(st, "undrawn/"+w+"/store", in, "random bytes whose drawing failed are kept")
				}
			case *ssa.BinOp:
				if in.Op != token.REM && in.Op != token.AND || !e.val(st, in.X).has("rnd") || !isInt(in.Type()) {
					return
				}
				if k, ok := in.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
					lim := uint64(1000000)
					if in.Op == token.AND {
						lim--
					}
					if u, ok := constant.Uint64Val(k.Value); ok && u < lim && u > 256 {
						e.Violation(st, "few/"+w, in, "a token is drawn from fewer than a million values")
					}
				}
			}
		}
		r.Call = func(x *CallCtx) []Out {
			st, e := x.St, x.E
			w := fnName(x.Instr.Parent())
			if draws[x.Instr] {
				e.Count("random drawing", x.Name+" in "+w)
				_, buf, _ := drawing(x.Name)
				nres := x.Instr.Common().Signature().Results().Len()
				good, bad := make([]AV, nres-1), make([]AV, nres-1)
				for i := range good {
					good[i] = AV{K: NonZero, Lab: lab("rnd")}
					bad[i] = AV{Lab: lab("undrawn")}
				}
				if buf >= 0 {
					good[0], bad[0] = AV{}, AV{}
				}
				fill := func(l string) func(s *State) {
					return func(s *State) {
						if buf >= 0 {
							e.overwrite(s, e.addrOf(x.Args[buf]), l)
						}
					}
				}
				l := lab("rnd")
				if buf >= 0 && c.partial(x.Instr.Common().Args[buf], map[ssa.Value]bool{}) {
					l = lab("part")
				}
				o := errFork(x, "drawing random bytes", good, fill(l), fill(lab("undrawn")))
				o[1].Res = append(bad, avErr)
				return o
			}
			switch x.Name {
			case fnRandom64:
				o := errFork(x, "drawing a number", []AV{{Lab: lab("rnd")}}, nil, nil)
				o[1].Res = []AV{{Lab: lab("undrawn")}, avErr}
				if !inPkg(x.Instr.Parent(), "tools") {
					return o
				}
			case "golang.org/x/crypto/nacl/secretbox.Seal":
				if inPkg(x.Instr.Parent(), "session") {
					return nil
				}
				e.Count("sealing", w)
				if !e.deepLabHas(st, x.Args[2], "rnd") {
					what := "drawn for it"
					if e.deepLabHas(st, x.Args[2], "part") {
						what = "drawn whole"
					}
					e.Violation(st, "nonce/"+w, x.Instr, "a message is sealed with a nonce that was not %s", what)
				}
				e.overwrite(st, e.addrOf(x.Args[2]), "")
				return []Out{{Res: []AV{{K: NonZero}}}}
			case fnIniSet:
				if inPkg(x.Instr.Parent(), "tools/zkservertoken") || st.InFunc(takesRendezvous) {
					e.Count("token", "record in "+w)
					if !x.Args[2].has("rnd") {
						e.Violation(st, "record/"+w, x.Instr, "a token is put on record that was not drawn from the random source")
					}
				}
				return errFork(x, "setting the record", nil, nil, nil)
			case fnIniNew:
				return iniOpen(x, "", nil)
			}
			return stdCall(x)
		}
		return r
	}

	// keys and nonces, from each exported function
	lib := []string{"blobshare", "ratchet", "zkidentity", "tools", "session", "zkserver"}
	r := rule("drawing")
	seal := callEvent("golang.org/x/crypto/nacl/secretbox.Seal")
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		return draws[in] || seal(p, in) && !inPkg(in.Parent(), "session")
	}
	// what another package draws is its own business
	own := func(f *ssa.Function) bool { return f.Object() != nil && f.Object().Exported() }
	c.Explore(r, nil, c.P.climb(c.P.eventFuncs(r.Event), own, lib...))

	// tokens
	t := rule("token")
	t.FoldInts = 64
	rnd := callEvent(fnRandom64, fnIniSet)
	t.Event = func(p *Prog, in ssa.Instruction) bool {
		f := in.Parent()
		if s, ok := in.(*ssa.Store); ok && inPkg(f, "zkclient") {
			o, fl := staticField(s.Addr)
			return fl != nil && o == "rpc.GroupInvite" && fl.Name() == "Token"
		}
		if !rnd(p, in) {
			return false
		}
		return staticName(in.(ssa.CallInstruction)) == fnRandom64 || inPkg(f, "tools/zkservertoken")
	}
	t.NoInline = func(f *ssa.Function) bool { return inPkg(f, "inidb") }
	c.Explore(t, nil, c.P.climb(c.P.eventFuncs(t.Event, "zkclient", "zkserver", "tools/zkservertoken"), func(f *ssa.Function) bool {
		return takesRendezvous(f) || f.Signature.Recv() != nil && inPkg(f, "zkclient") && hasEvent(c.P, f, t.Event)
	}, "zkclient", "zkserver", "tools/zkservertoken"))

	c.ephemeral()
}

func takesRendezvous(f *ssa.Function) bool {
	for _, p := range f.Params {
		if typeName(p.Type()) == "rpc.Rendezvous" {
			return true
		}
	}
	return false
}

// weakRandom: what the weak generator yields must not end up in a secret.
func (c *Ctx) weakRandom(ci ssa.CallInstruction) {
	f := ci.Parent()
	if inPkg(f, "blobshare", "ratchet", "session", "zkidentity", "tools") {
		c.Violation("weak/"+fnName(f), ci.Pos(), "%s is used where secrets are made", staticName(ci))
	}
}

// ephemeral: the server's accepting goroutine starts after session.Init.
func (c *Ctx) ephemeral() {
	resp := c.P.reaches(callEvent("(*session.KX).Respond"))
	r := &Rule{ID: "ephemeral"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if !inPkg(in.Parent(), "zkserver") {
			return false
		}
		if g, ok := in.(*ssa.Go); ok {
			return goReaches(g, resp)
		}
		return callEvent("session.Init")(p, in)
	}
	r.NoInline = func(f *ssa.Function) bool { return !inPkg(f, "zkserver") }
	r.Call = func(x *CallCtx) []Out {
		if x.Name == "session.Init" {
			x.St.Set("ephemeral", "1")
			return []Out{{}}
		}
		return stdCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		g, ok := in.(*ssa.Go)
		if !ok || !goReaches(g, resp) {
			return
		}
		e.Count("answering starts", fnName(in.Parent()))
		if st.Get("ephemeral") != "1" {
			e.Violation(st, "ephemeral/"+fnName(in.Parent()), in, "connections are served before the ephemeral key was drawn")
		}
	}
	// a goroutine's own function is judged where it is started
	goed := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		_, a := c.P.syncCallees(f)
		for _, g := range a {
			goed[g] = true
		}
	}
	for _, f := range c.P.Funcs {
		s, _ := c.P.syncCallees(f)
		for _, g := range s {
			delete(goed, g)
		}
	}
	var starts []*ssa.Function
	for _, f := range c.P.eventFuncs(func(p *Prog, in ssa.Instruction) bool {
		g, ok := in.(*ssa.Go)
		return ok && goReaches(g, resp)
	}, "zkserver") {
		if f.Parent() == nil && !goed[f] {
			starts = append(starts, f)
		}
	}
	c.Explore(r, nil, c.P.climb(starts, func(f *ssa.Function) bool { return false }, "zkserver"))
	c.Need("answering starts", 1)

	// Init draws, and a failure stops the server
	c.Count("ephemeral key", "session.Init")
	if f := c.P.Func("session.Init"); f == nil {
		c.Violation("anchor/Init", token.NoPos, "session.Init is gone")
	} else if !c.P.reaches(func(p *Prog, in ssa.Instruction) bool {
		return strings.HasSuffix(calleeName(in), "sntrup4591761.GenerateKey") && inPkg(in.Parent(), "session")
	})[f] {
		c.Violation("init/draw", f.Pos(), "session.Init draws no key")
	}
}

func calleeName(in ssa.Instruction) string {
	if ci, ok := in.(ssa.CallInstruction); ok {
		return staticName(ci)
	}
	return ""
}

func goReaches(g *ssa.Go, m map[*ssa.Function]bool) bool {
	if f := g.Common().StaticCallee(); f != nil {
		return m[f]
	}
	if mc, ok := g.Common().Value.(*ssa.MakeClosure); ok {
		return m[mc.Fn.(*ssa.Function)]
	}
	return false
}
