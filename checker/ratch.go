package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnRatchetDecrypt   = "(*ratchet.Ratchet).Decrypt"
	fnRatchetEncrypt   = "(*ratchet.Ratchet).Encrypt"
	fnRatchetMarshal   = "(*ratchet.Ratchet).Marshal"
	fnRatchetUnmarshal = "(*ratchet.Ratchet).Unmarshal"
	maxSkipBound       = 1000
)

func init() {
	register("C12", checkRatchetAtomic)
	register("C13", checkRatchetBound)
	register("C14", checkRatchetState)
}

// structFields are the fields of a named struct of a package.
func (c *Ctx) structFields(pkg, name string) []*types.Var {
	for _, sp := range c.P.SSA.AllPackages() {
		if sp.Pkg == nil || shorten(sp.Pkg.Path()) != pkg {
			continue
		}
		if o := sp.Pkg.Scope().Lookup(name); o != nil {
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				var r []*types.Var
				for i := 0; i < s.NumFields(); i++ {
					r = append(r, s.Field(i))
				}
				return r
			}
		}
	}
	c.Violation("anchor/"+pkg+"."+name, token.NoPos, "struct %s.%s is gone", pkg, name)
	return nil
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// mutation calls f for every instruction that changes memory: the address
// (for stores and writing calls) or the map (for updates and deletes).
func mutation(e *Engine, st *State, in ssa.Instruction, f func(a *Addr, v AV, src AV)) {
	switch in := in.(type) {
	case *ssa.Store:
		v := e.val(st, in.Addr)
		f(e.addrOf(v), v, e.val(st, in.Val))
	case *ssa.MapUpdate:
		v := e.val(st, in.Map)
		src := e.val(st, in.Value)
		src.Lab = labJoin(src.Lab, e.val(st, in.Key).Lab)
		f(nil, v, src)
	}
}

// writtenArg gives the argument a library call writes through, and the one
// the contents come from (-1: not known).
func writtenArg(name string) (dst, src int) {
	switch name {
	case "builtin:copy":
		return 0, 1
	case "(hash.Hash).Sum":
		return 1, 0
	case "io.ReadFull", "io.ReadAtLeast":
		return 1, -1
	case "(io.Reader).Read", "crypto/rand.Read":
		return strings.Count(name, "(io."), -1
	case "golang.org/x/crypto/curve25519.ScalarBaseMult", "golang.org/x/crypto/curve25519.ScalarMult":
		return 0, 1
	case "encoding/hex.Decode", "encoding/hex.Encode":
		return 0, 1
	}
	if strings.HasPrefix(name, "(encoding/binary") && strings.Contains(name, "Put") {
		return 1, 2
	}
	return -1, -1
}

// checkRatchetAtomic (C12): a message that is refused changes nothing, one
// that is accepted consumes its key.
func checkRatchetAtomic(c *Ctx) {
	c.Rule("every path through Decrypt that returns an error has written neither a field of the ratchet nor its saved keys")
	c.Rule("every path that returns a message opened it under an authenticated key, and after that either deleted the saved key it used or advanced both the receive chain key and the receive count from the message's own number")
	c.Rule("keys saved for later are put in the place of a header key's saved keys only on paths on which it was found to have none")
	entry := c.P.Func(fnRatchetDecrypt)
	if entry == nil {
		c.Violation("anchor/Decrypt", token.NoPos, "%s is gone", fnRatchetDecrypt)
		return
	}
	own := map[*types.Var]bool{}
	for _, f := range c.structFields("ratchet", "Ratchet") {
		own[f] = true
	}
	r := &Rule{ID: "ratchet decrypt", InlineAll: true}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if own[f] {
			if isMap(f.Type()) {
				return "ref:" + f.Name()
			}
			return "st:" + f.Name()
		}
		return ""
	}
	field := func(a *Addr) *types.Var {
		if a == nil || !a.Heap {
			return nil
		}
		for _, f := range a.Fields {
			if own[f] {
				return f
			}
		}
		return nil
	}
	touch := func(e *Engine, st *State, what string, in ssa.Instruction, src AV) {
		e.Count("ratchet write", what+" in "+fnName(in.Parent()))
		if st.Get("mod") == "" {
			st.Set("mod", what)
			st.Note(in.Pos(), "the ratchet's %s is changed", what)
		}
		if st.Get("opened") != "" {
			l := "other"
			if src.has("hdr") {
				l = "hdr"
			}
			for f := range own {
				if f.Name() == what {
					st.Set("set:"+kindOf(f.Type()), l)
				}
			}
		}
	}
	isRef := func(v AV) bool { return v.hasPfx("ref:") }
	nested := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isMap(m.Elem())
	}
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		if !nested(in.X.Type()) || !isRef(x) {
			return nil
		}
		pos := in.Pos()
		return []Out{
			{Res: []AV{{K: NonZero, Lab: x.Lab}, avTrue}, Do: func(s *State) {
				s.Set("inner", "")
				s.Note(pos, "keys are already saved for this header key")
			}},
			{Res: []AV{{K: Zero}, avFalse}, Do: func(s *State) {
				s.Set("inner", "none")
				s.Note(pos, "no keys are saved for this header key")
			}},
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if mu, ok := in.(*ssa.MapUpdate); ok && nested(mu.Map.Type()) && isRef(e.val(st, mu.Map)) {
			e.Count("save", "keys put in "+fnName(in.Parent()))
			if st.Get("inner") != "none" && !isRef(e.val(st, mu.Value)) {
				e.Violation(st, "merge", in, "saved keys of a header key are replaced where some may already be saved: the messages they are for can no longer be opened")
			}
		}
		mutation(e, st, in, func(a *Addr, v, src AV) {
			if a == nil {
				if isRef(v) {
					touch(e, st, "saved keys", in, src)
				}
				return
			}
			if f := field(a); f != nil {
				touch(e, st, f.Name(), in, src)
			} else if a.Heap && len(a.Fields) == 0 {
				if s, ok := in.(*ssa.Store); ok && typeName(deref(s.Addr.Type())) == "ratchet.Ratchet" {
					for f := range own {
						touch(e, st, f.Name(), in, AV{Lab: labJoin(src.Lab, lab("hdr"))})
					}
				}
			}
		})
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case fnOpen:
			e.Count("open", "Open in "+fnName(x.Instr.Parent()))
			k := Unk
			if x.Args[0].nonzero() {
				k = NonZero // appends to what is there
			}
			pos := x.Pos()
			return []Out{
				{Res: []AV{{K: k, Lab: lab("plain", "hdr")}, avTrue}, Do: func(s *State) {
					s.Set("last", "ok")
					s.Set("opened", "y")
					for k := range s.auto {
						if strings.HasPrefix(k, "set:") {
							s.Set(k, "")
						}
					}
					s.Note(pos, "opening succeeds")
				}},
				{Res: []AV{{K: Zero}, avFalse}, Do: func(s *State) {
					s.Set("last", "fail")
					s.Note(pos, "opening fails")
				}},
			}
		case "builtin:delete":
			if isRef(x.Args[0]) {
				src := x.Args[1]
				touch(e, st, "saved keys", x.Instr, src)
				if src.has("hdr") && st.Get("opened") != "" {
					st.Set("consumed", "y")
				}
			}
			return nil
		}
		if d, s := writtenArg(x.Name); d >= 0 && d < len(x.Args) {
			if f := field(x.Args[d].Addr); f != nil {
				src := AV{}
				if s >= 0 && s < len(x.Args) {
					src.Lab = e.deepLab(st, x.Args[s])
				}
				touch(e, st, f.Name(), x.Instr, src)
			}
		}
		return stdCall(x)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if len(ret) != 2 {
			return
		}
		err := ret[1]
		if !err.is(Zero) && st.Get("mod") != "" {
			e.Violation(st, "atomic/"+st.Get("mod"), in, "Decrypt can return an error after it changed the ratchet's %s", st.Get("mod"))
			return
		}
		if err.nonzero() {
			e.Count("exit", "refused: "+fnName(in.Parent())+" "+e.P.pos(in.Pos()))
			return
		}
		e.Count("exit", "accepted: "+fnName(in.Parent())+" "+e.P.pos(in.Pos()))
		if st.Get("last") != "ok" || !ret[0].has("plain") {
			e.Violation(st, "unauthenticated", in, "Decrypt returns a message that was not opened with a message key")
			return
		}
		if st.Get("consumed") == "" && (st.Get("set:count") != "hdr" || st.Get("set:key") == "") {
			e.Violation(st, "consume", in, "Decrypt returns a message without consuming its key: the message can be accepted again")
		}
	}
	c.Explore(r, paramLabels, []*ssa.Function{entry})
	c.Need("open", 2)
	c.Need("ratchet write", 6)
	c.Need("exit", 4)
}

// kindOf tells counters, keys and flags apart.
func kindOf(t types.Type) string {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsInteger != 0 {
			return "count"
		}
		return "flag"
	case *types.Array:
		return "key"
	}
	return "other"
}

// inLoop: the block can run again.
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		w = append(w, x.Succs...)
	}
	return false
}

// checkRatchetBound (C13): one message makes the receiver derive and keep at
// most a fixed number of keys.
func checkRatchetBound(c *Ctx) {
	c.Rule("a loop of Decrypt whose bound comes from a message's header is only entered after the number of keys it derives was found not to exceed a constant of at most %d", maxSkipBound)
	c.Rule("the header the bound comes from was authenticated: it is the result of a successful Open")
	entry := c.P.Func(fnRatchetDecrypt)
	if entry == nil {
		c.Violation("anchor/Decrypt", token.NoPos, "%s is gone", fnRatchetDecrypt)
		return
	}
	r := &Rule{ID: "ratchet bound", InlineAll: true}
	r.Call = func(x *CallCtx) []Out {
		switch x.Name {
		case fnOpen:
			pos := x.Pos()
			return []Out{
				{Res: []AV{{K: NonZero, Lab: lab("hdr")}, avTrue}, Do: func(s *State) { s.Note(pos, "opening succeeds") }},
				{Res: []AV{{K: Zero}, avFalse}, Do: func(s *State) { s.Note(pos, "opening fails") }},
			}
		}
		if strings.HasPrefix(x.Name, "(encoding/binary") && strings.Contains(x.Name, ").Uint") {
			l := lab("num")
			if x.E.deepLabHas(x.St, x.Args[1], "hdr") {
				l = lab("num", "hdrnum")
			} else {
				x.E.Violation(x.St, "unauthenticated/"+fnName(x.Instr.Parent()), x.Instr, "a number is taken from a message that was not opened")
			}
			return []Out{{Res: []AV{{Lab: l}}}}
		}
		return stdCall(x)
	}
	mentionsHdr := func(e *Engine, v AV) bool { return v.has("hdrnum") }
	r.Cmp = func(x *CmpCtx) []Out {
		a, b, op := x.X, x.Y, x.Op
		if !mentionsHdr(x.E, a) && !mentionsHdr(x.E, b) {
			return nil
		}
		if !mentionsHdr(x.E, a) {
			a, b, op = b, a, flip(op)
		}
		if op == token.EQL || op == token.NEQ {
			return nil
		}
		loop := inLoop(x.In.Block())
		where := fnName(x.In.Parent())
		if loop {
			x.E.Count("bounded loop", where+" "+x.E.P.pos(x.In.Pos()))
			if !bounded(x.St, a, b) {
				x.E.Violation(x.St, "bound/"+where, x.In, "a loop runs as often as a message's header asks for, without the number having been limited")
			}
		}
		// facts: number - count <= constant
		lim := func(v AV) (int64, bool) {
			if n, ok := intOf(v); ok && n >= 0 && n <= maxSkipBound {
				return n, true
			}
			return 0, false
		}
		if _, ok := lim(b); ok {
			return cmpForkOp(x, op, func(s *State, op token.Token) {
				if op == token.LSS || op == token.LEQ {
					s.Set("ub:"+hdrSym(x.E, a), "y")
				}
			})
		}
		// number <= count + constant
		if i := strings.LastIndex(b.Expr, "+"); i >= 0 && !b.has("hdrnum") && !strings.Contains(a.Expr, "-") {
			ok := false
			for _, t := range strings.FieldsFunc(b.Expr, func(r rune) bool { return strings.ContainsRune("()+", r) }) {
				if _, good := lim(AV{K: Const, C: t}); good {
					ok = true
				}
			}
			if ok {
				return cmpForkOp(x, op, func(s *State, op token.Token) {
					if op == token.LSS || op == token.LEQ {
						s.Set("ub:"+hdrSym(x.E, a), "y")
					}
				})
			}
		}
		return nil
	}
	c.Explore(r, paramLabels, []*ssa.Function{entry})
	c.Need("bounded loop", 1)
}

// cmpForkOp is cmpFork for a comparison whose operands were swapped: op is
// the relation from the first to the second of them.
func cmpForkOp(c *CmpCtx, op token.Token, fact func(s *State, op token.Token)) []Out {
	return []Out{
		{Res: []AV{avTrue}, Do: func(s *State) { fact(s, op) }},
		{Res: []AV{avFalse}, Do: func(s *State) { fact(s, negate(op)) }},
	}
}

// syms are the symbols an expression is built from.
func syms(v AV) []string {
	t := term(v)
	var r []string
	for _, f := range strings.FieldsFunc(t, func(r rune) bool { return r != '#' && (r < '0' || r > '9') }) {
		if strings.HasPrefix(f, "#") {
			r = append(r, f)
		}
	}
	return r
}

// hdrSym names the header number a value is made of.
func hdrSym(e *Engine, v AV) string {
	if s := syms(v); len(s) > 0 {
		return s[0]
	}
	return ""
}

func bounded(st *State, vs ...AV) bool {
	for _, v := range vs {
		for _, s := range syms(v) {
			if st.Get("ub:"+s) != "" {
				return true
			}
		}
	}
	return false
}

// checkRatchetState (C14): the saved form of a ratchet holds all of its state
// and restoring is the inverse of saving.
func checkRatchetState(c *Ctx) {
	c.Rule("Marshal fills every field of disk.RatchetState (and of its saved keys) from state of the ratchet, Unmarshal sets every such field of the ratchet, and the two agree on which is which: no two fields are swapped, dropped or merged")
	c.Rule("Unmarshal returns success only on paths on which every unconditional field was set, and an error when a key has the wrong length")
	c.Rule("what was put into the saved form does not share memory that is written again while it is being filled")
	mine := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		mine[f] = inPkg(f, "ratchet")
	}
	c.handover(func(f *ssa.Function) bool { return mine[f] })
	m, u := c.P.Func(fnRatchetMarshal), c.P.Func(fnRatchetUnmarshal)
	if m == nil || u == nil {
		c.Violation("anchor/Marshal", token.NoPos, "Marshal or Unmarshal of the ratchet is gone")
		return
	}
	// what the owner of a ratchet provides itself, and never stores
	given := map[string]bool{}
	zk := map[*types.Var]bool{}
	for _, f := range c.structFields("ratchet", "Ratchet") {
		zk[f] = true
	}
	stateF := map[string]types.Type{}
	for _, f := range c.structFields("ratchet", "Ratchet") {
		stateF["Ratchet."+f.Name()] = f.Type()
	}
	for _, f := range c.structFields("ratchet", "savedKey") {
		stateF["savedKey."+f.Name()] = f.Type()
	}
	diskF := map[string]bool{}
	for _, n := range []string{"RatchetState", "RatchetState_SavedKeys", "RatchetState_SavedKeys_MessageKey"} {
		for _, f := range c.structFields("ratchet/disk", n) {
			if f.Exported() && !strings.HasPrefix(f.Name(), "XXX_") {
				diskF[n+"."+f.Name()] = true
			}
		}
	}
	// identities, keys and functions the client sets when it loads one
	for n, t := range stateF {
		f := n[strings.Index(n, ".")+1:]
		switch t.Underlying().(type) {
		case *types.Signature, *types.Interface:
			given[n] = true
		}
		if strings.HasSuffix(f, "Public") || strings.HasSuffix(f, "PrivateKey") || strings.HasSuffix(f, "PublicKey") {
			if _, ptr := t.Underlying().(*types.Pointer); ptr {
				given[n] = true
			}
		}
	}
	short := func(owner string) string { return owner[strings.LastIndexByte(owner, '.')+1:] }
	isState := func(owner string, f *types.Var) bool {
		return owner == "ratchet.Ratchet" || owner == "ratchet.savedKey"
	}
	isDisk := func(owner string, f *types.Var) bool { return strings.HasPrefix(owner, "ratchet/disk.") }

	run := func(entry *ssa.Function, src, dst func(owner string, f *types.Var) bool, tag string) (map[string]map[string]bool, *Engine) {
		got := map[string]map[string]bool{}
		note := func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) {
			if a == nil || a.field() == nil || !dst(a.Owner, a.field()) {
				return
			}
			n := short(a.Owner) + "." + a.field().Name()
			if got[n] == nil {
				got[n] = map[string]bool{}
			}
			l := v.Lab
			if _, ptr := a.field().Type().Underlying().(*types.Pointer); ptr && !v.is(Zero) && !strings.Contains(l, ",from:") {
				return // memory for it, not yet its value
			}
			for _, x := range strings.Split(strings.Trim(l, ","), ",") {
				if strings.HasPrefix(x, "from:") {
					got[n][x[5:]] = true
				}
			}
			e.Count(tag, n)
			st.Set("set:"+n, "y")
		}
		r := &Rule{ID: "ratchet " + tag, InlineAll: true, FoldInts: 12}
		r.FieldLab = func(owner string, f *types.Var, v AV) string {
			if _, ptr := f.Type().Underlying().(*types.Pointer); ptr && dst(owner, f) {
				return "to:" + short(owner) + "." + f.Name()
			}
			if src(owner, f) {
				if isMap(f.Type()) || strings.HasPrefix(f.Type().Underlying().String(), "[]") && !strings.HasSuffix(f.Type().Underlying().String(), "byte") {
					return "coll:" + short(owner) + "." + f.Name()
				}
				return "from:" + short(owner) + "." + f.Name()
			}
			return ""
		}
		addrLab := func(v AV) string {
			if v.Addr != nil && v.Addr.field() != nil && src(v.Addr.Owner, v.Addr.field()) {
				return lab("from:" + short(v.Addr.Owner) + "." + v.Addr.field().Name())
			}
			return ""
		}
		r.Post = func(e *Engine, st *State, in ssa.Instruction) {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				return
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				return
			}
			k := VKey{st.depth(), nx}
			v := st.vals[k]
			t := append([]AV{}, v.Tup...)
			t[1] = t[1].with("from:key of " + rg.X.Type().Underlying().String())
			v.Tup = t
			st.vals[k] = v
		}
		r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				v := e.val(st, s.Val)
				v.Lab = labJoin(v.Lab, e.deepLab(st, v))
				note(e, st, e.val(st, s.Addr).Addr, v, in)
			}
			if mu, ok := in.(*ssa.MapUpdate); ok {
				k, v := e.val(st, mu.Key), e.val(st, mu.Value)
				t := mu.Map.Type().Underlying().(*types.Map)
				l := e.deepLab(st, k)
				n := "key of " + t.String()
				if got[n] == nil {
					got[n] = map[string]bool{}
				}
				for _, x := range strings.Split(strings.Trim(l, ","), ",") {
					if strings.HasPrefix(x, "from:") {
						got[n][x[5:]] = true
					}
				}
				_ = v
				e.Count(tag, n)
			}
		}
		r.Call = func(x *CallCtx) []Out {
			if d, s := writtenArg(x.Name); d >= 0 && s >= 0 && d < len(x.Args) && s < len(x.Args) {
				l := labJoin(x.E.deepLab(x.St, x.Args[s]), addrLab(x.Args[s]))
				a := x.Args[d].Addr
				if a != nil && a.field() == nil {
					for _, y := range strings.Split(strings.Trim(a.Base, ","), ",") {
						if strings.HasPrefix(y, "to:") {
							n := y[3:]
							if got[n] == nil {
								got[n] = map[string]bool{}
							}
							for _, z := range strings.Split(strings.Trim(l, ","), ",") {
								if strings.HasPrefix(z, "from:") {
									got[n][z[5:]] = true
								}
							}
							x.E.Count(tag, n)
							x.St.Set("set:"+n, "y")
						}
					}
				}
				note(x.E, x.St, a, AV{Lab: l}, x.Instr)
				if x.Name == "builtin:copy" {
					x.E.havoc(x.St, a, l)
					return []Out{{Res: []AV{{}}}}
				}
			}
			return stdCall(x)
		}
		r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
			if tag != "restore" {
				return
			}
			if len(ret) == 1 && ret[0].is(Zero) {
				e.Count("exit", "restored "+e.P.pos(in.Pos()))
				for n := range stateF {
					if !strings.HasPrefix(n, "Ratchet.") || given[n] {
						continue
					}
					switch stateF[n].Underlying().(type) {
					case *types.Array, *types.Basic, *types.Pointer:
						if st.Get("set:"+n) == "" {
							e.Violation(st, "restore/missing/"+n, in, "Unmarshal can succeed without having restored %s", n)
						}
					}
				}
			} else {
				e.Count("exit", "refused "+e.P.pos(in.Pos()))
			}
		}
		e := c.Explore(r, nil, []*ssa.Function{entry})
		return got, e
	}
	save, _ := run(m, isState, isDisk, "save")
	rest, _ := run(u, isDisk, isState, "restore")
	c.compareTables(save, rest, stateF, given, diskF)
	if dumpKx {
		println("SAVE")
		for _, k := range sortedKeysM(save) {
			println(k, strings.Join(sortedKeys(save[k]), " "))
		}
		println("RESTORE")
		for _, k := range sortedKeysM(rest) {
			println(k, strings.Join(sortedKeys(rest[k]), " "))
		}
	}
}

func (c *Ctx) compareTables(save, rest map[string]map[string]bool, stateF map[string]types.Type, given, diskF map[string]bool) {
	saved := map[string]string{} // state -> disk
	for _, d := range sortedKeys(diskF) {
		if save[d] == nil {
			c.Violation("save/unset/"+d, token.NoPos, "Marshal never sets %s", d)
			continue
		}
		from := sortedKeys(save[d])
		if d == "RatchetState.SavedKeys" || d == "RatchetState_SavedKeys.MessageKeys" {
			continue // holds the others
		}
		if len(from) != 1 {
			c.Violation("save/mixed/"+d, token.NoPos, "Marshal fills %s from %v, not from one part of the state", d, from)
			continue
		}
		s := from[0]
		if o := saved[s]; o != "" {
			c.Violation("save/twice/"+d, token.NoPos, "Marshal fills both %s and %s from %s", o, d, s)
		}
		saved[s] = d
		to := sortedKeys(rest[s])
		if len(to) != 1 || to[0] != d {
			c.Violation("restore/differs/"+d, token.NoPos, "Marshal saves %s as %s, Unmarshal restores it from %v", s, d, to)
		}
		c.Count("field pair", s+" <-> "+d)
	}
	for s := range stateF {
		if given[s] || saved[s] != "" {
			continue
		}
		if isMap(stateF[s]) {
			if saved["key of "+stateF[s].Underlying().String()] != "" {
				continue
			}
		}
		c.Violation("save/missing/"+s, token.NoPos, "Marshal does not save %s", s)
	}
	c.Need("field pair", 20)
	c.Need("exit", 2)
}

func sortedKeysM(m map[string]map[string]bool) []string {
	k := map[string]bool{}
	for x := range m {
		k[x] = true
	}
	return sortedKeys(k)
}
