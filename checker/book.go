package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", func(c *Ctx) {
		c.Rule("an identity is put into the address book only under the nick that is in it, when nobody is there under that nick or the one who is there is the same identity")
		c.Rule("what the address book is asked for by a nick or an identity is found under exactly that nick or has exactly that identity")
		c.Rule("what is removed from the address book is the entry with the identity to remove, and a removal that is reported as done was done")
		c.book()
		c.Need("put", 1)
		c.Need("found", 2)
		c.Need("removed", 1)
	})
}

// isBook: a table of contacts by nick.
func isBook(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isPubID(m.Elem())
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func symKey(v AV) string {
	switch {
	case strings.HasPrefix(v.Expr, "in:"):
		return v.Expr
	case v.Sym == 0:
		return ""
	}
	return strconv.Itoa(v.Sym)
}

func (c *Ctx) book() {
	asks := func(f *ssa.Function) bool {
		return resultAt(f, isPubID) >= 0 && (paramAt(f, isIdentity) >= 0 || paramAt(f, isIdentityPtr) >= 0 || paramAt(f, isStr) >= 0)
	}
	looks := func(p *Prog, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Lookup:
			return isBook(in.X.Type())
		case *ssa.Range:
			return isBook(in.X.Type())
		case *ssa.MapUpdate:
			return isBook(in.Map.Type())
		case ssa.CallInstruction:
			b, ok := in.Common().Value.(*ssa.Builtin)
			return ok && b.Name() == "delete" && isBook(in.Common().Args[0].Type())
		}
		return false
	}
	r := &Rule{ID: "book", Event: looks, PartLab: "part"}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		switch {
		case isBook(f.Type()):
			return "book"
		case owner == "zkidentity.PublicIdentity":
			return "f:" + f.Name()
		}
		return ""
	}
	book := func(e *Engine, st *State, v AV) bool { return AV{Lab: e.fullLab(st, v)}.has("book") }
	asked := func(e *Engine, st *State, v AV) bool {
		l := AV{Lab: e.fullLab(st, v)}
		return l.has("asked") && !l.has("book")
	}
	has := func(e *Engine, st *State, v AV, l string) bool { return AV{Lab: e.fullLab(st, v)}.has(l) }
	match := func(e *Engine, st *State, a, b AV) string {
		if !book(e, st, a) || !asked(e, st, b) {
			return ""
		}
		if has(e, st, a, "part") || has(e, st, b, "part") {
			return ""
		}
		if has(e, st, a, "f:Identity") {
			return "identity"
		}
		if has(e, st, a, "f:Nick") || has(e, st, a, "key") {
			return "nick"
		}
		return ""
	}
	same := func(s *State, m string) {
		if m == "" {
			return
		}
		s.Set("match", m)
		if m == "identity" && s.Get("at") != "" {
			s.Set("mine", s.Get("at"))
		}
	}
	// what a parameter came with has the name of the place it is in
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if v.Agg != nil || v.Expr != "" || a.Heap || !v.has("asked") {
			return v
		}
		if _, ok := in.(ssa.Value).Type().Underlying().(*types.Struct); !ok && v.Sym != 0 {
			return v
		}
		whole := *a
		whole.Path = ""
		w := e.loadCell(st, &whole)
		if strings.HasPrefix(w.Expr, "in:") {
			v.Expr = w.Expr + a.Path
			return v
		}
		v.Expr = "in:" + symKey(w) + "#" + a.Root + a.Path
		return v
	}
	r.Cmp = func(x *CmpCtx) []Out {
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		m := match(x.E, x.St, x.X, x.Y)
		if m == "" {
			m = match(x.E, x.St, x.Y, x.X)
		}
		if m == "" {
			return nil
		}
		return cmpFork(x, func(s *State, op token.Token) {
			if op == token.EQL {
				same(s, m)
			}
		})
	}
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		if !isBook(in.X.Type()) {
			return nil
		}
		ofBook, given := book(e, st, k), asked(e, st, k)
		n := symKey(k)
		v := AV{Lab: lab("book")}
		hit := func(s *State) {
			s.Note(in.Pos(), "somebody is there")
			s.Set("at", n)
			s.Set("free", "")
			s.Set("mine", "")
			if !ofBook {
				s.Set("match", "")
				if given {
					s.Set("match", "nick")
				}
			}
		}
		miss := func(s *State) {
			s.Note(in.Pos(), "nobody is there")
			s.Set("at", "")
			s.Set("free", n)
			s.Set("mine", "")
			s.Set("match", "")
		}
		if ofBook {
			// walking the table
			if !in.CommaOk {
				return []Out{{Res: []AV{v}, Do: hit}}
			}
			return []Out{{Res: []AV{v, avTrue}, Do: hit}}
		}
		if !in.CommaOk {
			return []Out{{Res: []AV{v}, Do: hit}, {Res: []AV{{}}, Do: miss}}
		}
		return []Out{{Res: []AV{v, avTrue}, Do: hit}, {Res: []AV{{}, avFalse}, Do: miss}}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Next:
			st.Set("match", "")
			st.Set("at", "")
		case *ssa.BinOp:
			k := VKey{st.depth(), in}
			if v := st.vals[k]; isStr(in.Type()) && v.Sym != 0 {
				v.Expr = "in:#" + strconv.Itoa(v.Sym)
				st.vals[k] = v
			}
		case *ssa.Extract:
			n, ok := in.Tuple.(*ssa.Next)
			if !ok {
				break
			}
			g, ok := n.Iter.(*ssa.Range)
			if !ok || !isBook(g.X.Type()) {
				break
			}
			l := lab("book")
			if in.Index == 1 {
				l = labJoin(l, lab("key"))
			}
			k := VKey{st.depth(), in}
			v := st.vals[k]
			v.Lab = labJoin(v.Lab, l)
			st.vals[k] = v
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		u, ok := in.(*ssa.MapUpdate)
		if !ok || !isBook(u.Map.Type()) {
			return
		}
		w := fnName(in.Parent())
		e.Count("put", w)
		k, v := e.val(st, u.Key), e.val(st, u.Value)
		n := symKey(k)
		if n == "" || st.Get("free") != n && st.Get("mine") != n {
			e.Violation(st, "put/"+w, in, "an identity may be put into the address book in the place of another one with that nick")
		}
		nick := e.partOf(st, v, ".Nick")
		if symKey(nick) != n {
			e.Violation(st, "nick/"+w, in, "an identity is put into the address book under a nick that is not the one in it")
		}
		if id := e.partOf(st, v, ".Identity"); !has(e, st, id, "asked") && !has(e, st, v, "asked") {
			e.Violation(st, "other/"+w, in, "another identity is put into the address book than the one that was given")
		}
		st.Set("put", n)
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		switch x.Name {
		case "bytes.Equal":
			m := match(e, st, x.Args[0], x.Args[1])
			if m == "" {
				m = match(e, st, x.Args[1], x.Args[0])
			}
			return boolFork(x, "comparing", func(s *State) { same(s, m) }, nil)
		case "encoding/hex.DecodeString":
			return errFork(x, "decoding", []AV{{Lab: e.deepLab(st, x.Args[0])}}, nil, nil)
		case "builtin:copy":
			if a := x.Args[0]; a.Addr != nil {
				l := e.deepLab(st, x.Args[1])
				return []Out{{Res: []AV{{}}, Do: func(s *State) { e.havoc(s, a.Addr, l) }}}
			}
		case "builtin:delete":
			if !isBook(x.Instr.Common().Args[0].Type()) {
				break
			}
			w := fnName(x.Instr.Parent())
			e.Count("removed", w)
			if st.Get("match") != "identity" && st.Get("match") != "nick" || !book(e, st, x.Args[1]) && !asked(e, st, x.Args[1]) {
				e.Violation(st, "remove/"+w, x.Instr, "an entry may be removed from the address book that is not the one to remove")
			}
			return []Out{{Do: func(s *State) { s.Set("removed", "yes") }}}
		}
		return stdCall(x)
	}
	removes := c.P.reachesSync(callEvent("builtin:delete"))
	puts := c.P.reachesSync(func(p *Prog, in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && isBook(u.Map.Type())
	})
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		f := in.Parent()
		w := fnName(f)
		if i := resultAt(f, isPubID); i >= 0 && i < len(ret) && asks(f) && !ret[i].is(Zero) {
			j := len(ret) - 1
			if j > i && isErr(f.Signature.Results().At(j).Type()) && ret[j].is(NonZero) {
				return
			}
			e.Count("found", w)
			if !book(e, st, ret[i]) || st.Get("match") == "" {
				e.Violation(st, "found/"+w, in, "the address book may return an identity that does not have the nick or identity it was asked for")
			}
			return
		}
		if i := resultAt(f, isErr); i >= 0 && i < len(ret) && !ret[i].is(NonZero) && removes[f] && !puts[f] && st.Get("removed") == "" {
			e.Violation(st, "kept/"+w, in, "the address book reports that a contact was removed and kept it")
		}
		if i := resultAt(f, isStr); puts[f] && i >= 0 && i < len(ret) && (st.Get("put") == "" || symKey(ret[i]) != st.Get("put")) {
			e.Violation(st, "called/"+w, in, "another nick is returned than the one the identity was put under")
		}
	}
	isEntry := func(f *ssa.Function) bool {
		return token.IsExported(f.Name()) && f.Signature.Recv() != nil
	}
	var entries []*ssa.Function
	for _, f := range c.P.climb(c.P.eventFuncs(looks, "zkclient/addressbook"), isEntry, "zkclient/addressbook") {
		entries = append(entries, f)
	}
	c.Explore(r, func(st *State, f *ssa.Function) {
		for i, p := range f.Params {
			if i == 0 {
				continue
			}
			k := VKey{0, p}
			v := st.vals[k]
			v.Lab = labJoin(v.Lab, lab("asked"))
			st.vals[k] = v
		}
	}, entries, "zkclient/addressbook")
}

// partOf: a field of a structure, or of the one a pointer points at.
func (e *Engine) partOf(st *State, v AV, p string) AV {
	if v.Agg != nil {
		return e.selectAggRaw(v, p)
	}
	if v.Addr != nil && !v.Addr.Heap {
		a := *v.Addr
		a.Path += p
		return e.loadCell(st, &a)
	}
	if strings.HasPrefix(v.Expr, "in:") {
		return AV{Expr: v.Expr + p, Lab: v.Lab}
	}
	return AV{}
}
