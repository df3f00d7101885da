package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", func(c *Ctx) {
		c.Rule("a tag the client obtained goes into exactly one request, or is given back exactly once; no path loses it, uses it twice or gives it back once the request was queued or sent")
		c.Rule("a request carries a tag that was obtained, an acknowledge the tag of the push it answers")
		c.Rule("what waits for a reply is recorded under the tag before the request is sent, and is gone from there before the tag is given back")
		c.Rule("between two session reads the tag of a reply is given back exactly once and the tag of a push never, and a tag that can't be taken back ends the session")
		c.Rule("the tags are taken back only if they are in use: Push succeeds only for a tag below the depth that was found not to be on the stack")
		c.tagsOut()
		c.tagsBack()
		c.tagsStack()
		c.Need("tag obtained", 1)
		c.Need("reply", 7)
		c.Need("tag taken back", 1)
	})
}

// isCallbacks: where the client keeps what waits for a reply.
func isCallbacks(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	st, ok := deref(s.Elem()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && !isWrapper(s.Elem()) {
			return true
		}
	}
	return false
}

func (c *Ctx) tagsOut() {
	r := &Rule{ID: "requests"}
	ack := c.rpcConst("TaggedCmdAcknowledge")
	pop := callEvent(fnTagPop)
	r.Event = anyEvent(callEvent(fnTagPop, fnTagPush, fnKxWrite), sendEvent)
	r.NoInline = apiNoInline(fnTagPop, fnTagPush, fnTagPopQuit, fnKxWrite, fnKxRead)
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if typeName(f.Type()) == "rpc.Message" {
			return "queued"
		}
		if owner == "rpc.Message" {
			return "msg:" + f.Name()
		}
		return ""
	}
	use := func(e *Engine, st *State, in ssa.Instruction, cmd, tag AV, how string) {
		w := fnName(in.Parent())
		if cmd.is(Zero) || cmd.is(Const) && cmd.C == `""` {
			return // sealed for a contact, gets its tag when it is sent
		}
		if tag.has("queued") && !tag.has("ourtag") {
			return // was judged when it was queued
		}
		e.Count("request", w)
		if cmd.K == Const && cmd.C == ack {
			if tag.has("ourtag") {
				e.Violation(st, "ack/"+w, in, "an acknowledge does not carry the tag of what it answers")
			}
			return
		}
		if !tag.has("ourtag") {
			e.Violation(st, "tag/"+w, in, "a request %s carries a tag that was not obtained for it", cmd.C)
			return
		}
		switch st.Get("tag") {
		case "held":
			st.Set("tag", how)
		case "back":
			e.Violation(st, "given/"+w, in, "a request carries a tag that was given back: another request can have it too")
		default:
			e.Violation(st, "twice/"+w, in, "two requests carry one tag")
		}
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		w := fnName(x.Instr.Parent())
		switch x.Name {
		case fnTagPop:
			e.Count("tag obtained", w)
			if st.Get("tag") == "held" {
				e.Violation(st, "lost/"+w, x.Instr, "a tag is obtained while another was neither used nor given back: once all are lost nothing is sent any more")
			}
			return errFork(x, "obtaining a tag", []AV{{Lab: lab("ourtag")}}, func(s *State) {
				s.Set("tag", "held")
				s.Set("slot", "")
				s.Set("msg", "")
			}, nil)
		case fnTagPush:
			if len(x.Args) < 2 || !x.Args[1].has("ourtag") {
				return nil
			}
			switch st.Get("tag") {
			case "held":
			case "back":
				e.Violation(st, "back/"+w, x.Instr, "a tag is given back twice")
			default:
				e.Violation(st, "used/"+w, x.Instr, "a tag is given back although the request that carries it was %s", st.Get("tag"))
			}
			if st.Get("slot") == "set" {
				e.Violation(st, "slot/"+w, x.Instr, "a tag is given back while what waited for its reply is still recorded: the next reply under it runs the wrong callback")
			}
			st.Set("tag", "back")
			return errFork(x, "returning the tag", nil, nil, nil)
		case fnMarshal:
			t := x.Instr.Common().Args[1]
			if mi, ok := t.(*ssa.MakeInterface); ok {
				t = mi.X
			}
			if typeName(deref(t.Type())) == "rpc.Message" {
				cmd, tag := messageOf(e, st, x.Args[1], t.Type())
				if tag.has("ourtag") {
					st.Set("msg", "ours")
				} else {
					st.Set("msg", "")
					use(e, st, x.Instr, cmd, tag, "sent")
				}
			}
			return errFork(x, "marshal", nil, nil, nil)
		case fnKxWrite:
			if st.Get("msg") != "ours" {
				return errFork(x, "write", nil, nil, nil)
			}
			switch st.Get("tag") {
			case "held":
			case "back":
				e.Violation(st, "given/"+w, x.Instr, "a request carries a tag that was given back: another request can have it too")
			default:
				e.Violation(st, "twice/"+w, x.Instr, "two requests carry one tag")
			}
			st.Set("msg", "")
			return errFork(x, "write", nil, func(s *State) { s.Set("tag", "sent") }, nil)
		}
		return stdCall(x)
	}
	chk := func(e *Engine, st *State, in ssa.Instruction) {
		sends(e, st, in, func(v AV, t types.Type) {
			cmd, tag, _, _, _ := wrapperCells(e, st, v, t)
			use(e, st, in, cmd, tag, "queued")
		})
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		switch s := in.(type) {
		case *ssa.Send:
			chk(e, st, in)
		case *ssa.Store:
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isCallbacks(ia.X.Type()) || !e.val(st, ia.Index).has("ourtag") {
				return
			}
			w := fnName(in.Parent())
			if e.val(st, s.Val).is(Zero) {
				st.Set("slot", "")
				return
			}
			e.Count("callback recorded", w)
			if st.Get("tag") != "held" {
				e.Violation(st, "late/"+w, in, "what waits for the reply is recorded after the request was %s: the reply can come before, or find another's", st.Get("tag"))
			}
			st.Set("slot", "set")
		}
	}
	differs := changed("ourtag")
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Select); ok {
			chk(e, st, in)
		}
		differs(e, st, in)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if st.Get("tag") == "held" {
			w := fnName(st.frames[0].fn)
			e.Violation(st, "lost/"+w, in, "%s ends with a tag that was neither used nor given back: once all are lost nothing is sent any more", w)
		}
	}
	entries := c.P.climb(c.P.eventFuncs(anyEvent(pop, makesRequest(ack)), "zkclient"), func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 && len(c.P.callers[f]) > 0 {
				return false // is given its tag
			}
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
				return false
			}
			if typeName(deref(t)) == "rpc.Message" || isWrapper(t) {
				return false
			}
		}
		return true
	}, "zkclient")
	c.Explore(r, func(st *State, f *ssa.Function) {
		for _, p := range f.Params {
			if isWrapper(p.Type()) {
				st.vals[VKey{0, p}] = st.vals[VKey{0, p}].with("queued")
			}
		}
	}, entries, "zkclient")
}

// changed: what was calculated from the tag is another number.
func changed(l string) func(e *Engine, st *State, in ssa.Instruction) {
	return func(e *Engine, st *State, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || isBool(b.Type()) {
			return
		}
		if e.val(st, b.X).has(l) || e.val(st, b.Y).has(l) {
			e.define(st, b, AV{Lab: lab("calculated")})
		}
	}
}

// makesRequest: a message with a command other than ack is made here.
func makesRequest(ack string) func(p *Prog, in ssa.Instruction) bool {
	return func(p *Prog, in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		o, f := staticField(st.Addr)
		if f == nil || o != "rpc.Message" || f.Name() != "Command" {
			return false
		}
		k, ok := st.Val.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() != ack
	}
}

// storesCommand: a message with this command is made here.
func storesCommand(in ssa.Instruction, cmd string) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	o, f := staticField(st.Addr)
	if f == nil || o != "rpc.Message" || f.Name() != "Command" {
		return false
	}
	k, ok := st.Val.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == cmd
}

// messageOf: command and tag of a message handed on as an interface.
func messageOf(e *Engine, st *State, v AV, t types.Type) (cmd, tag AV) {
	if v.Addr != nil && !v.Addr.Heap {
		a, b := *v.Addr, *v.Addr
		a.Path += ".Command"
		b.Path += ".Tag"
		return e.loadCell(st, &a), e.loadCell(st, &b)
	}
	return e.selectAggRaw(v, ".Command"), e.selectAggRaw(v, ".Tag")
}

func (c *Ctx) tagsBack() {
	reply := map[string]bool{}
	for _, s := range []string{"TaggedCmdPong", "TaggedCmdRendezvousReply", "TaggedCmdRendezvousPullReply", "TaggedCmdAcknowledge", "TaggedCmdIdentityFindReply", "TaggedCmdProxyReply"} {
		reply[c.rpcConst(s)] = true
	}
	push := c.rpcConst("TaggedCmdPush")
	ack := c.rpcConst("TaggedCmdAcknowledge")
	r := &Rule{ID: "replies"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if callEvent(fnKxRead, fnTagPush)(p, in) || inPkg(in.Parent(), "zkclient") && storesCommand(in, ack) {
			return true
		}
		if s, ok := in.(*ssa.Store); ok {
			ia, ok := s.Addr.(*ssa.IndexAddr)
			return ok && isCallbacks(ia.X.Type())
		}
		return sendEvent(p, in)
	}
	sess := c.P.reaches(callEvent(fnKxRead, fnTagPush))
	small := func(f *ssa.Function) bool {
		return hasEvent(c.P, f, r.Event) && len(f.Blocks) < 12 && !hasEvent(c.P, f, callEvent(fnTagPop))
	}
	r.NoInline = func(f *ssa.Function) bool {
		return !inPkg(f, "zkclient") || !sess[f] && !small(f)
	}
	r.FieldLab = wireFieldLab
	r.Cmp = cmdCmp
	r.Post = changed("w:Message.Tag")
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		w := fnName(x.Instr.Parent())
		switch x.Name {
		case fnKxRead:
			if st.Get("inreq") == "1" {
				cmd, n := st.Get("cmd"), st.Get("back")
				e.Count("reply", cmd)
				switch {
				case cmd == "":
					e.Violation(st, "unknown/"+w, x.Instr, "a message whose command was not recognised does not end the session")
				case reply[cmd] && n == "":
					e.Violation(st, "kept/"+cmd, x.Instr, "the tag of reply %s is not given back: once all are lost nothing is sent any more", cmd)
				case reply[cmd] && n != "1":
					e.Violation(st, "several/"+cmd, x.Instr, "the tag of reply %s is given back more than once", cmd)
				}
				if n := st.Get("acks"); cmd == push && n != "1" {
					if n == "" {
						n = "not"
					}
					e.Violation(st, "acks/"+w, x.Instr, "a push is acknowledged %s once: the server sends it again, or counts another as received", n)
				}
				if cmd == ack && st.Get("slot") != "empty" {
					e.Violation(st, "slot/"+w, x.Instr, "what waited for the acknowledge stays recorded under its tag")
				}
			}
			return errFork(x, "session read", []AV{{Lab: lab("wire")}}, func(s *State) {
				for _, k := range []string{"cmd", "back", "slot", "acks"} {
					s.Set(k, "")
				}
				s.Set("inreq", "1")
				s.tr = nil
				s.Note(x.Pos(), "a message is read")
			}, func(s *State) { s.Set("inreq", "") })
		case fnTagPush:
			if st.Get("inreq") != "1" {
				return nil
			}
			cmd := st.Get("cmd")
			e.Count("given back", cmd)
			if !x.Args[1].has("w:Message.Tag") {
				e.Violation(st, "other/"+w, x.Instr, "another tag than that of the reply is given back")
			}
			if cmd == push || cmd == "" {
				e.Violation(st, "push/"+w, x.Instr, "the tag of a message that is not a reply is given back: two requests will carry it")
			}
			if cmd == ack && st.Get("slot") == "" {
				e.Violation(st, "slot/"+w, x.Instr, "the tag of an acknowledge is given back while what waited for it is still recorded: what the next request records is lost")
			}
			n := "1"
			if st.Get("back") != "" {
				n = "several"
			}
			return errFork(x, "returning the tag", nil, func(s *State) { s.Set("back", n) }, func(s *State) { s.Set("failed", "1"); s.Set("back", "failed") })
		}
		return stdCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		switch s := in.(type) {
		case *ssa.Store:
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isCallbacks(ia.X.Type()) || st.Get("inreq") != "1" {
				return
			}
			w := fnName(in.Parent())
			e.Count("callback taken", w)
			if !e.val(st, ia.Index).has("w:Message.Tag") || !e.val(st, s.Val).is(Zero) {
				e.Violation(st, "callback/"+w, in, "the record of another tag than the acknowledged one is changed")
			}
			st.Set("slot", "empty")
		case *ssa.Send:
			w := fnName(in.Parent())
			sends(e, st, in, func(v AV, t types.Type) {
				cmd, tag, _, _, _ := wrapperCells(e, st, v, t)
				if cmd.K == Const && cmd.C == ack && st.Get("inreq") == "1" {
					e.Count("acknowledge", fnName(in.Parent()))
					n := "1"
					if st.Get("acks") != "" {
						n = "more than"
					}
					st.Set("acks", n)
					if st.Get("cmd") != push {
						e.Violation(st, "acks/"+w, in, "a message that is not a push is acknowledged")
					}
					if !tag.has("w:Message.Tag") {
						e.Violation(st, "ack/"+st.Get("cmd"), in, "an acknowledge does not carry the tag of the push it answers")
					}
				}
			})
		}
	}
	entries := c.P.climb(c.P.eventFuncs(callEvent(fnKxRead), "zkclient"), func(f *ssa.Function) bool {
		return sess[f] && c.P.reaches(callEvent(fnTagPush))[f]
	}, "zkclient")
	c.Explore(r, nil, entries, "zkclient")
}

// tagsStack: what Push takes back is in use.
func (c *Ctx) tagsStack() {
	f := c.P.Func(fnTagPush)
	if f == nil {
		c.Violation("anchor/"+fnTagPush, token.NoPos, "%s is gone", fnTagPush)
		return
	}
	r := &Rule{ID: "stack"}
	elem := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		s, ok := ia.X.Type().Underlying().(*types.Slice)
		return ok && isUint32(s.Elem())
	}
	// asked: the function asks whether the tag is on the stack
	asked := false
	for _, g := range c.P.Funcs {
		if !inPkg(g, "tagstack") {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					if (in.Op == token.EQL || in.Op == token.NEQ) && (elem(in.X) || elem(in.Y)) {
						asked = true
					}
				case *ssa.Lookup:
					asked = asked || !isString(in.X.Type())
				case *ssa.IndexAddr:
					if sl, ok := deref(in.X.Type()).Underlying().(*types.Slice); ok && isBool(sl.Elem()) {
						asked = true
					}
				}
			}
		}
	}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if !inPkg(in.Parent(), "tagstack") {
			return false
		}
		switch in := in.(type) {
		case *ssa.Store, *ssa.Send:
			return true
		case *ssa.BinOp:
			return in.Op == token.EQL || in.Op == token.LSS || in.Op == token.GEQ
		}
		return false
	}
	r.Cmp = func(x *CmpCtx) []Out {
		a, op := x.X, x.Op
		b := x.Y
		if b.has("param1") {
			a, b, op = b, a, flip(op)
		}
		if !a.has("param1") {
			return nil
		}
		if op == token.EQL || op == token.NEQ {
			return cmpForkOp(x, op, func(s *State, op token.Token) {
				if op == token.EQL {
					s.Set("dup", "1")
				}
			})
		}
		return cmpForkOp(x, op, func(s *State, op token.Token) {
			if op == token.LSS {
				s.Set("below", "1")
			}
		})
	}
	r.Call = stdCall
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); ok {
			st.Set("blocking", "1")
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if len(ret) != 1 || ret[0].nonzero() || st.Get("blocking") != "" {
			return
		}
		e.Count("tag taken back", fnName(f))
		switch {
		case st.Get("below") == "":
			e.Violation(st, "range", in, "a tag is taken back that was not found to be below the depth: the next request carries it")
		case st.Get("dup") != "" || !asked:
			e.Violation(st, "duplicate", in, "a tag is taken back that may be on the stack already: two requests will carry it")
		}
	}
	c.Explore(r, paramLabels, []*ssa.Function{f}, "tagstack")
}

func isUint32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}
