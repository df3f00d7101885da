package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", func(c *Ctx) {
		c.Rule("a message leaves the client's queue only from its head, and only after that very message was written; after it was written it leaves before anything else is written")
		c.Rule("a message is queued at the tail; the low priority queue is served only while the high priority one is empty")
		c.queues()
		c.Need("message sent from a queue", 2)
		c.Need("message leaves a queue", 2)
		c.Need("message enters a queue", 1)
	})
}

func isQueue(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isWrapper(s.Elem()) && isStruct(s.Elem())
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// varOf: the variable (or field) a value was read from.
func varOf(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	return varName(u.X)
}

func varName(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FreeVar:
		if b := binding(a); b != nil {
			return varName(b)
		}
		return "var " + a.Name()
	case *ssa.Alloc:
		return "var " + a.Comment
	case *ssa.FieldAddr:
		o, f := staticField(a)
		return o + "." + f.Name()
	case *ssa.Global:
		return a.Name()
	}
	return ""
}

// cut: v is a queue without its head (or with more taken away).
func cut(v ssa.Value) (q string, n int64, ok bool) {
	switch v := v.(type) {
	case *ssa.Slice:
		if !isQueue(v.X.Type()) || varOf(v.X) == "" {
			return "", 0, false
		}
		if v.Low == nil && v.High == nil {
			return "", 0, false
		}
		if v.High != nil || v.Low == nil {
			return varOf(v.X), -1, true
		}
		k, isC := v.Low.(*ssa.Const)
		if !isC || k.Value == nil {
			return varOf(v.X), -1, true
		}
		return varOf(v.X), k.Int64(), true
	case *ssa.Call:
		// append(q[:0], q[1:]...)
		if b, isB := v.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
			s0, ok0 := v.Call.Args[0].(*ssa.Slice)
			q1, n1, ok1 := cut(v.Call.Args[1])
			if ok1 && ok0 && s0.High != nil && varOf(s0.X) == q1 {
				if k, isC := s0.High.(*ssa.Const); isC && k.Int64() == 0 {
					return q1, n1, true
				}
				return q1, -1, true
			}
		}
	}
	return "", 0, false
}

func (c *Ctx) queues() {
	p := c.P
	// a function that writes the message it is given
	writes := p.reaches(callEvent(fnKxWrite))
	head := func(in ssa.Instruction) string {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return ""
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !isQueue(ia.X.Type()) {
			return ""
		}
		return varOf(ia.X)
	}
	r := &Rule{ID: "queues"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if !inPkg(in.Parent(), "zkclient") {
			return false
		}
		if s, ok := in.(*ssa.Store); ok {
			return isQueue(s.Val.Type())
		}
		return head(in) != ""
	}
	isSend := func(f *ssa.Function) bool {
		return f != nil && writes[f] && f.Signature.Results().Len() > 0 && f.Signature.Params().Len() > 0
	}
	r.NoInline = func(f *ssa.Function) bool { return isSend(f) && !hasEvent(p, f, r.Event) }
	r.FieldLab = func(owner string, f *types.Var, v AV) string { return v.Lab }
	low, all := map[string]bool{}, map[string]bool{}
	for _, f := range p.Funcs {
		if !inPkg(f, "zkclient") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !isQueue(s.Val.Type()) {
					continue
				}
				call, ok := s.Val.(*ssa.Call)
				if !ok || len(call.Call.Args) != 2 {
					continue
				}
				all[varName(s.Addr)] = true
				for _, o := range p.origins(call.Call.Args[1], nil) {
					if o.Kind == "recv" && o.Name == "zkclient.ZKC.lo" {
						low[varName(s.Addr)] = true
					}
				}
			}
		}
	}
	r.Cmp = func(x *CmpCtx) []Out {
		for i, v := range []ssa.Value{x.In.X, x.In.Y} {
			call, ok := v.(*ssa.Call)
			if !ok {
				continue
			}
			b, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" || !isQueue(call.Call.Args[0].Type()) {
				continue
			}
			q := varOf(call.Call.Args[0])
			o, op := x.Y, x.Op
			if i == 1 {
				o, op = x.X, flip(op)
			}
			if n, ok := intOf(o); !ok || n != 0 {
				continue
			}
			return cmpForkOp(x, op, func(s *State, op token.Token) {
				if op == token.EQL || op == token.LEQ {
					s.Set("empty:"+q, "1")
				} else {
					s.Set("empty:"+q, "")
				}
			})
		}
		return nil
	}
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if q := head(in); q != "" {
			ia := in.(*ssa.UnOp).X.(*ssa.IndexAddr)
			if n, ok := intOf(e.val(st, ia.Index)); ok && n == 0 {
				v.Lab = lab("head:" + q)
				if low[q] {
					e.Count("low priority", fnName(in.Parent()))
					for o := range all {
						if !low[o] && st.Get("empty:"+o) == "" {
							e.Violation(st, "priority/"+fnName(in.Parent()), in, "a message of low priority is taken although there may be one of high priority")
						}
					}
				}
			} else {
				v.Lab = lab("inner:" + q)
			}
		}
		return v
	}
	labOf := func(e *Engine, st *State, v AV) AV {
		if v.Addr != nil {
			w := e.loadCell(st, v.Addr)
			w.Lab = labJoin(w.Lab, v.Lab)
			for _, f := range []string{".msg", ".payload", ".id", ".Command", ".Tag"} {
				a := *v.Addr
				a.Path += f
				w.Lab = labJoin(w.Lab, e.loadCell(st, &a).Lab)
			}
			return w
		}
		return v
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		if x.Callee == nil || !isSend(x.Callee) || e.relevant[x.Callee] {
			return stdCall(x)
		}
		q, inner := "", ""
		for _, a := range x.Args {
			l := labOf(e, st, a)
			for _, h := range labAfter(l.Lab, "head:") {
				q = h
			}
			for _, h := range labAfter(l.Lab, "inner:") {
				inner = h
			}
		}
		w := fnName(x.Instr.Parent())
		if inner != "" {
			e.Violation(st, "inner/"+w, x.Instr, "a message is sent that is not at the head of its queue: those before it are overtaken")
		}
		if q == "" {
			return stdCall(x)
		}
		e.Count("message sent from a queue", w+" from "+q)
		if s := st.Get("sent"); s != "" {
			e.Violation(st, "kept/"+w, x.Instr, "a message is sent although the one sent before was not taken from its queue: that is sent again")
		}
		return errFork(x, "sending", nil, func(s *State) { s.Set("sent", q) }, nil)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || !isQueue(s.Val.Type()) || !r.Event(p, in) {
			return
		}
		w := fnName(in.Parent())
		if q, n, ok := cut(s.Val); ok {
			e.Count("message leaves a queue", w+" from "+q)
			switch {
			case n != 1 || varName(s.Addr) != q:
				e.Violation(st, "lost/"+w, in, "more or others than the message at the head are taken from a queue: they are never sent")
			case st.Get("sent") == "":
				e.Violation(st, "unsent/"+w, in, "a message is taken from its queue although it was not sent: it is lost")
			case st.Get("sent") != q:
				e.Violation(st, "other/"+w, in, "a message is sent and another one taken from its queue: one is lost and one sent twice")
			}
			st.Set("sent", "")
			return
		}
		if call, ok := s.Val.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				e.Count("message enters a queue", w+" "+varName(s.Addr))
				if varOf(call.Call.Args[0]) != varName(s.Addr) {
					e.Violation(st, "order/"+w, in, "a message is not queued at the tail: those before it are overtaken or lost")
				}
				return
			}
		}
		if varName(s.Addr) != "" && in.Parent().Parent() != nil {
			if _, isMake := s.Val.(*ssa.Slice); isMake {
				return
			}
			if _, isMake := s.Val.(*ssa.MakeSlice); isMake {
				return
			}
			e.Violation(st, "replaced/"+w, in, "a queue is replaced: the messages in it are lost")
		}
	}
	cuts := p.reaches(func(p *Prog, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if ok {
			_, _, ok = cut(s.Val)
		}
		return ok && inPkg(in.Parent(), "zkclient")
	})
	heads := p.reaches(func(p *Prog, in ssa.Instruction) bool { return head(in) != "" })
	entries := p.climb(p.eventFuncs(r.Event, "zkclient"), func(f *ssa.Function) bool {
		return !cuts[f] && !heads[f] || cuts[f] && heads[f] && writes[f]
	}, "zkclient")
	c.Explore(r, nil, entries, "zkclient")
}
