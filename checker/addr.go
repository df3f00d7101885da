package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", func(c *Ctx) {
		c.Rule("what is queued for a contact is sealed with the ratchet of the identity it was queued for, and that identity is the one the server is told to deliver it to")
		c.Rule("the ratchet and identity of a contact are read from that contact's directory, and written to the directory of the identity that is in them")
		c.Rule("a private message, a file or a request to a contact goes to the contact of the window in use, to one whose nick equals the one the user gave and who is no group, or to the one the address book has under that nick; what is for a group goes to members of a group")
		c.Rule("what a contact sent is opened with the ratchet of the identity the server named, and shown in the window and under the name of that identity, or of its group")
		c.sealedFor()
		c.ownDirectory()
		c.aimed()
		c.shown()
		c.Need("sealed", 1)
		c.Need("addressed", 1)
		c.Need("directory", 2)
		c.Need("queued for", 4)
		c.Need("opened", 1)
		c.Need("shown", 2)
	})
}

func isIdentity(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() != 32 {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isIdentityPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isIdentity(p.Elem())
}

// identityField is the field of a queued message that says whom it is for.
func identityField(t types.Type) string {
	if !isWrapper(t) {
		return ""
	}
	s := deref(t).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if isIdentityPtr(s.Field(i).Type()) {
			return s.Field(i).Name()
		}
	}
	return ""
}

// resultAt: the index of the first result the test accepts, or -1.
func resultAt(f *ssa.Function, ok func(t types.Type) bool) int {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if ok(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

func paramAt(f *ssa.Function, ok func(t types.Type) bool) int {
	for i, p := range f.Params {
		if ok(p.Type()) {
			return i
		}
	}
	return -1
}

func isRatchet(t types.Type) bool { return typeName(deref(t)) == "ratchet.Ratchet" }

// ofIdentity: a function of the client that finds something by an identity:
// the results that are no error carry the identity's labels.
func ofIdentity(x *CallCtx, result func(t types.Type) bool, what string) ([]Out, bool) {
	f := x.Callee
	if f == nil || !inPkg(f, "zkclient") || resultAt(f, result) < 0 {
		return nil, false
	}
	i := paramAt(f, isIdentity)
	if i < 0 || i >= len(x.Args) {
		return nil, false
	}
	l := labJoin(x.E.deepLab(x.St, x.Args[i]), lab(what))
	return perResult(x, f, l, what), true
}

func perResult(x *CallCtx, f *ssa.Function, l, what string) []Out {
	rs := f.Signature.Results()
	n := rs.Len()
	errs := n > 0 && isErr(rs.At(n-1).Type())
	if errs {
		n--
	}
	var res []AV
	for i := 0; i < n; i++ {
		v := AV{Lab: l}
		if _, ok := rs.At(i).Type().Underlying().(*types.Pointer); ok {
			v.K = NonZero
		}
		res = append(res, v)
	}
	if !errs {
		return []Out{{Res: res}}
	}
	return errFork(x, "finding the "+what, res, nil, nil)
}

// sealedFor: from the queue to the server.
func (c *Ctx) sealedFor() {
	r := &Rule{ID: "sealed"}
	r.Event = anyEvent(callEvent(fnRatchetEncrypt), func(p *Prog, in ssa.Instruction) bool {
		return inPkg(in.Parent(), "zkclient") && storeTo(in, "rpc.Cache")
	})
	r.NoInline = apiNoInline(fnRatchetEncrypt, fnRatchetDecrypt, fnKxWrite)
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		switch {
		case isIdentityPtr(f.Type()) && strings.HasPrefix(owner, "zkclient."):
			return "target"
		case owner == "ratchet.Ratchet" && f.Name() == "TheirIdentityPublic":
			return "theirs"
		}
		return ""
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		if o, ok := ofIdentity(x, isRatchet, "ratchet"); ok {
			return o
		}
		if x.Name == fnRatchetEncrypt {
			w := fnName(x.Instr.Parent())
			e.Count("sealed", w)
			if !x.Args[0].has("ratchet") || !x.Args[0].has("target") {
				e.Violation(st, "seal/"+w, x.Instr, "what is queued for a contact is not sealed with the ratchet of the identity it was queued for")
			}
			return errFork(x, "sealing", []AV{{K: NonZero, Lab: labJoin(x.Args[0].Lab, lab("sealed"))}}, nil, nil)
		}
		return stdCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || !storeTo(in, "rpc.Cache") {
			return
		}
		_, f := storeField(e, st, s)
		if f == nil {
			return
		}
		v := e.val(st, s.Val)
		l := e.deepLab(st, v)
		w := fnName(in.Parent())
		has := func(n string) bool { return AV{Lab: l}.has(n) }
		switch f.Name() {
		case "To":
			e.Count("addressed", w)
			if !has("target") {
				e.Violation(st, "to/"+w, in, "a message is not addressed to the identity it was queued for")
			}
		case "Payload":
			if !has("sealed") {
				e.Violation(st, "payload/"+w, in, "what is handed to the server for a contact is not what was sealed for it")
			}
		}
	}
	// the goroutine that takes messages off the queue
	from := c.P.eventFuncs(callEvent(fnRatchetEncrypt), "zkclient")
	c.Explore(r, func(st *State, f *ssa.Function) {}, c.P.climb(from, func(f *ssa.Function) bool { return readsWrapper(f) }, "zkclient"), "zkclient")
}

// readsWrapper: the function reads whom a queued message is for.
func readsWrapper(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || !isIdentityPtr(u.Type()) {
				continue
			}
			if o, fl := staticField(u.X); fl != nil && strings.HasPrefix(o, "zkclient.") {
				return true
			}
		}
	}
	return false
}

// ownDirectory: a contact's files are in the contact's directory.
func (c *Ctx) ownDirectory() {
	reads := callEvent("os.Open", "os.OpenFile", "io/ioutil.ReadFile", "os.ReadFile")
	writes := callEvent("os.Rename")
	kept := func(t types.Type) bool { return isRatchet(t) || isPubID(t) }
	r := &Rule{ID: "directory"}
	r.Event = anyEvent(reads, writes)
	mine := ""
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if owner == "ratchet.Ratchet" && f.Name() == "TheirIdentityPublic" || owner == "zkidentity.PublicIdentity" && f.Name() == "Identity" {
			return "its"
		}
		return ""
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		switch {
		case x.Name == "encoding/hex.EncodeToString":
			return []Out{{Res: []AV{{K: NonZero, Lab: labJoin(e.fullLab(st, x.Args[0]), lab("hex"))}}}}
		case mine == "read" && reads(e.P, x.Instr):
			if !x.Args[0].has("hex") {
				break
			}
			e.Count("directory", "read in "+fnName(x.Instr.Parent()))
			if !x.Args[0].has("id") {
				e.Violation(st, "read/"+fnName(x.Instr.Parent()), x.Instr, "what is kept about a contact is not read from the directory of the identity it was asked for")
			}
		case mine == "write" && writes(e.P, x.Instr):
			if !x.Args[1].has("hex") {
				break
			}
			e.Count("directory", "written in "+fnName(x.Instr.Parent()))
			if !x.Args[1].has("its") || !x.Args[1].has("kept") {
				e.Violation(st, "write/"+fnName(x.Instr.Parent()), x.Instr, "what is kept about a contact is not written to the directory of the identity that is in it")
			}
		}
		return stdCall(x)
	}
	set := func(st *State, f *ssa.Function, ok func(t types.Type) bool, l string) {
		for _, p := range f.Params {
			if ok(p.Type()) {
				v := st.vals[VKey{0, p}]
				v.Lab = labJoin(v.Lab, lab(l))
				st.vals[VKey{0, p}] = v
			}
		}
	}
	reach, wr := c.P.reaches(reads), c.P.reaches(writes)
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkclient") || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		switch {
		case resultAt(f, kept) >= 0 && paramAt(f, isIdentity) >= 0 && reach[f] && len(f.Blocks) > 1:
			mine = "read"
			c.Explore(r, func(st *State, f *ssa.Function) { set(st, f, isIdentity, "id") }, []*ssa.Function{f}, "zkclient")
		case paramAt(f, kept) >= 0 && wr[f] && !below(c.P, f, func(g *ssa.Function) bool { return paramAt(g, kept) >= 0 && wr[g] }):
			mine = "write"
			c.Explore(r, func(st *State, f *ssa.Function) { set(st, f, kept, "kept") }, []*ssa.Function{f}, "zkclient")
		}
	}
}

// below: a function that f calls, directly or not, passes the test.
func below(p *Prog, f *ssa.Function, test func(g *ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{f: true}
	var down func(g *ssa.Function) bool
	down = func(g *ssa.Function) bool {
		sync, async := p.syncCallees(g)
		for _, h := range append(append([]*ssa.Function{}, sync...), async...) {
			if seen[h] {
				continue
			}
			seen[h] = true
			if test(h) || down(h) {
				return true
			}
		}
		return false
	}
	return down(f)
}

func isConv(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(deref(t)) == "zkclient.conversation"
}

// convElem: the load of an element of the list of conversations.
func convElem(in ssa.Instruction) *ssa.IndexAddr {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || !isConv(u.Type()) {
		return nil
	}
	i, _ := u.X.(*ssa.IndexAddr)
	return i
}

const (
	fnFindNick     = "(*zkclient/addressbook.AddressBook).FindNick"
	fnFindIdentity = "(*zkclient/addressbook.AddressBook).FindIdentity"
)

// elemOf: the element of the list of conversations a value came from.
func elemOf(v AV) string {
	for _, l := range v.labels() {
		if strings.HasPrefix(l, "el:") {
			return l
		}
	}
	return ""
}

// conversations: which window a conversation was taken from, and what was
// found out about it.
func conversations(r *Rule) {
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		switch {
		case owner == "zkclient.conversation" || owner == "zkidentity.PublicIdentity":
			return "f:" + f.Name()
		case owner == "zkclient.ZKC" && f.Name() == "active":
			return "active"
		case owner == "rpc.GroupList" && f.Name() == "Members":
			return "member"
		case owner == "rpc.Push" && f.Name() == "From":
			return "from"
		}
		return ""
	}
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		i := convElem(in)
		if i == nil {
			return v
		}
		n := "el:" + e.P.pos(in.Pos())
		if in.Pos() == token.NoPos {
			n = "el:" + fnName(in.Parent()) + "." + u(in)
		}
		n = strings.ReplaceAll(n, ",", ";")
		m, g := "", ""
		x := e.val(st, i.Index)
		for _, l := range x.labels() {
			if strings.HasPrefix(l, "ix:") && !x.has("arith") {
				// the element at an index that was looked at before
				m, g = st.Get("m:"+l[3:]), st.Get("g:"+l[3:])
			}
		}
		st.Set("m:"+n, m)
		st.Set("g:"+n, g)
		v.Lab = lab(n)
		if x.has("active") {
			v.Lab = labJoin(v.Lab, lab("active"))
		}
		if _, ok := i.Index.(*ssa.Const); !ok {
			k := VKey{st.depth(), i.Index}
			y := lab("ix:" + n)
			if x.has("active") {
				y = labJoin(y, lab("active"))
			}
			x.Lab = y
			st.vals[k] = x
		}
		return v
	}
	match := func(a, b AV) string {
		n := elemOf(a)
		if n == "" || b.has(n) {
			return ""
		}
		if a.has("f:nick") || a.has("f:Nick") {
			return n + "|nick"
		}
		if a.has("f:Identity") {
			return n + "|identity"
		}
		return ""
	}
	found := func(s *State, m string) {
		if i := strings.LastIndex(m, "|"); i > 0 {
			s.Set("m:"+m[:i], m[i+1:])
		}
	}
	r.Cmp = func(x *CmpCtx) []Out {
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		m, n := match(x.X, x.Y), match(x.Y, x.X)
		if m == "" && n == "" {
			return nil
		}
		return cmpFork(x, func(s *State, op token.Token) {
			if op == token.EQL {
				found(s, m)
				found(s, n)
			}
		})
	}
	r.Branch = func(e *Engine, st *State, in *ssa.If, taken bool) {
		v := in.Cond
		for {
			n, ok := v.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			v, taken = n.X, !taken
		}
		x := e.val(st, v)
		if n := elemOf(x); n != "" && x.has("f:group") {
			if taken {
				st.Set("g:"+n, "yes")
			} else {
				st.Set("g:"+n, "no")
			}
		}
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		switch x.Name {
		case "encoding/hex.EncodeToString":
			return []Out{{Res: []AV{{K: NonZero, Lab: e.fullLab(st, x.Args[0])}}}}
		case "bytes.Equal":
			a, b := x.Args[0], x.Args[1]
			a.Lab, b.Lab = e.fullLab(st, a), e.fullLab(st, b)
			m, n := match(a, b), match(b, a)
			return boolFork(x, "comparing", func(s *State) {
				found(s, m)
				found(s, n)
			}, nil)
		case "builtin:append":
			l := ""
			for _, a := range x.Args {
				l = labJoin(l, e.deepLab(st, a))
			}
			return []Out{{Res: []AV{{K: NonZero, Lab: l}}}}
		case fnFindNick:
			return perResult(x, x.Callee, labJoin(x.Args[1].Lab, lab("found")), "identity of a nick")
		case fnFindIdentity:
			return perResult(x, x.Callee, labJoin(e.deepLab(st, x.Args[1]), lab("person")), "identity")
		}
		if o, ok := ofIdentity(x, isConv, "convof"); ok {
			return o
		}
		if o, ok := ofIdentity(x, isRatchet, "ratchet"); ok {
			return o
		}
		if o, ok := ofIdentity(x, isPubID, "person"); ok {
			return o
		}
		return stdCall(x)
	}
}

func u(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	return ""
}

// contact: why an identity is a contact the user meant, or what is wrong.
func contact(st *State, v AV) string {
	if v.has("given") || v.has("found") && !v.has("member") {
		return ""
	}
	n := elemOf(v)
	if n == "" {
		return "an identity that is neither that of a window nor one found by its nick"
	}
	switch {
	case st.Get("m:"+n) == "identity":
		return ""
	case !v.has("active") && st.Get("m:"+n) != "nick":
		return "the contact of a window that was not found to be the one in use or to carry the nick"
	case st.Get("g:"+n) != "no":
		return "a conversation that was not found to be with a contact rather than a group"
	}
	return ""
}

// aimed: from what the user does to the queue.
func (c *Ctx) aimed() {
	r := &Rule{ID: "aimed", MaxExpr: 12, FoldInts: 1}
	queued := func(p *Prog, in ssa.Instruction) bool {
		var t types.Type
		switch in := in.(type) {
		case *ssa.Send:
			t = in.Chan.Type().Underlying().(*types.Chan).Elem()
		case *ssa.Select:
			for _, s := range in.States {
				if ch, ok := s.Chan.Type().Underlying().(*types.Chan); ok && s.Dir == types.SendOnly {
					t = ch.Elem()
				}
			}
		}
		return t != nil && identityField(t) != ""
	}
	conversations(r)
	looks := func(p *Prog, in ssa.Instruction) bool { return convElem(in) != nil }
	finds := callEvent(fnFindNick)
	reach := c.P.reaches(queued)
	started := func(p *Prog, in ssa.Instruction) bool {
		g, ok := in.(*ssa.Go)
		if !ok {
			return false
		}
		f := g.Call.StaticCallee()
		return f != nil && reach[f] && paramAt(f, isIdentity) >= 0
	}
	r.Event = anyEvent(queued, started, func(p *Prog, in ssa.Instruction) bool {
		f := in.Parent()
		return (looks(p, in) || finds(p, in)) && resultAt(f, func(t types.Type) bool { return isConv(t) || isIdentity(t) || isIdentityPtr(t) || isPubID(t) }) >= 0
	})
	r.NoInline = func(f *ssa.Function) bool {
		return inPkg(f, "zkclient/addressbook", "inidb", "ratchet", "blobshare", "session", "debug") || paramAt(f, isIdentity) >= 0 && resultAt(f, isConv) >= 0
	}
	judge := func(e *Engine, st *State, in ssa.Instruction) {
		sends(e, st, in, func(v AV, t types.Type) {
			f := identityField(t)
			if f == "" {
				return
			}
			get := func(p string) AV {
				if v.Addr != nil && !v.Addr.Heap {
					a := *v.Addr
					a.Path += p
					return e.loadCell(st, &a)
				}
				if v.Agg != nil {
					return e.selectAggRaw(v, p)
				}
				return AV{}
			}
			id := get("." + f)
			if id.is(Zero) {
				return
			}
			id.Lab = e.fullLab(st, id)
			_, _, _, pay, _ := wrapperCells(e, st, v, t)
			d := dynName(pay)
			if d == "" {
				d = "message"
			}
			k := d
			e.Count("queued for", k)
			why := ""
			switch {
			case d == "rpc.GroupJoin":
				if id.has("found") || id.has("member") || elemOf(id) != "" {
					why = "another identity than the one that invited"
				}
			case strings.HasPrefix(d, "rpc.Group") && d != "rpc.GroupInvite":
				if !id.has("member") {
					why = "an identity that is no member of a group"
				}
			default:
				why = contact(st, id)
			}
			if why != "" {
				e.Violation(st, "to/"+k, in, "a %s may be queued for %s", d, why)
			}
		})
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); ok {
			judge(e, st, in)
		}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Select); ok {
			judge(e, st, in)
		}
	}
	r.OnGo = func(x *CallCtx) {
		if x.Callee == nil || !reach[x.Callee] {
			return
		}
		for i, p := range x.Callee.Params {
			if i < len(x.Args) && isIdentity(p.Type()) {
				v := x.Args[i]
				v.Lab = x.E.deepLab(x.St, v)
				x.E.Count("queued for", "goroutine "+fnName(x.Callee))
				if why := contact(x.St, v); why != "" {
					x.E.Violation(x.St, "to/"+fnName(x.Callee), x.Instr, "what %s sends may go to %s", fnName(x.Callee), why)
				}
			}
		}
	}
	c.Explore(r, func(st *State, f *ssa.Function) {
		// started with go: judged there
		if c.P.goed[f] {
			for _, p := range f.Params {
				if isIdentity(p.Type()) {
					v := st.vals[VKey{0, p}]
					v.Lab = labJoin(v.Lab, lab("given"))
					st.vals[VKey{0, p}] = v
				}
			}
		}
	}, nil, "zkclient")

	// what finds a conversation by an identity finds that one
	g := &Rule{ID: "conversation"}
	conversations(g)
	base := g.Call
	self := (*ssa.Function)(nil)
	g.Call = func(x *CallCtx) []Out {
		if x.Callee == self {
			return nil
		}
		return base(x)
	}
	g.Event = looks
	g.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		i := resultAt(self, isConv)
		if i < 0 || i >= len(ret) || ret[i].is(Zero) {
			return
		}
		v := ret[i]
		e.Count("conversation", fnName(self))
		if n := elemOf(v); n != "" {
			if st.Get("m:"+n) != "identity" {
				e.Violation(st, "found/"+fnName(self), in, "a conversation may be returned whose identity was not found to be the one it was asked for")
			}
			return
		}
		if v.Addr == nil {
			return
		}
		a := *v.Addr
		a.Path += ".id"
		id := e.loadCell(st, &a)
		if !id.has("asked") {
			e.Violation(st, "made/"+fnName(self), in, "a conversation is made for another identity than the one it was asked for")
		}
	}
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkclient") || f.Parent() != nil || resultAt(f, isConv) < 0 || paramAt(f, isIdentity) < 0 {
			continue
		}
		self = f
		c.Explore(g, func(st *State, f *ssa.Function) {
			for _, p := range f.Params {
				if isIdentity(p.Type()) {
					v := st.vals[VKey{0, p}]
					v.Lab = labJoin(v.Lab, lab("asked"))
					st.vals[VKey{0, p}] = v
				}
			}
		}, []*ssa.Function{f}, "zkclient")
	}
}

// shown: from the server to the windows.
func (c *Ctx) shown() {
	isPrint := func(f *ssa.Function) bool {
		return f != nil && inPkg(f, "zkclient") && f.Signature.Variadic() && paramAt(f, func(t types.Type) bool { return isInt(t) }) >= 0
	}
	r := &Rule{ID: "shown", MaxExpr: 12}
	conversations(r)
	fl := r.FieldLab
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		switch {
		case owner == "rpc.PrivateMessage" && f.Name() == "Text":
			return "text:pm"
		case owner == "rpc.GroupMessage" && f.Name() == "Message":
			return "text:gm"
		case owner == "rpc.GroupMessage" && f.Name() == "Name":
			return "gname"
		}
		return fl(owner, f, v)
	}
	hasPush := func(f *ssa.Function) bool {
		return paramAt(f, func(t types.Type) bool { return typeName(deref(t)) == "rpc.Push" }) >= 0
	}
	opens := callEvent(fnRatchetDecrypt)
	shows := func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isPrint(ci.Common().StaticCallee())
	}
	r.Event = anyEvent(opens, func(p *Prog, in ssa.Instruction) bool { return shows(p, in) && hasPush(in.Parent()) }, func(p *Prog, in ssa.Instruction) bool {
		u, ok := in.(*ssa.UnOp)
		if !ok {
			return false
		}
		o, _ := staticField(u.X)
		return o == "rpc.PrivateMessage" || o == "rpc.GroupMessage"
	})
	r.NoInline = func(f *ssa.Function) bool {
		return isPrint(f) || inPkg(f, "zkclient/addressbook", "inidb", "ratchet", "blobshare", "session", "debug") || resultAt(f, isConv) >= 0
	}
	base := r.Call
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		if x.Name == fnRatchetDecrypt {
			w := fnName(x.Instr.Parent())
			e.Count("opened", w)
			if !x.Args[0].has("ratchet") || !x.Args[0].has("from") {
				e.Violation(st, "open/"+w, x.Instr, "what a contact sent is not opened with the ratchet of the identity the server named")
			}
			return errFork(x, "opening", []AV{{}}, nil, nil)
		}
		if isPrint(x.Callee) {
			c.shownWhere(x)
			return nil
		}
		if x.Callee != nil && inPkg(x.Callee, "zkclient") && resultAt(x.Callee, isConv) >= 0 && paramAt(x.Callee, isIdentity) < 0 {
			l := lab("convof")
			for _, a := range x.Args[1:] {
				l = labJoin(l, e.deepLab(st, a))
			}
			return perResult(x, x.Callee, l, "conversation")
		}
		return base(x)
	}
	from := c.P.eventFuncs(opens, "zkclient")
	c.Explore(r, func(st *State, f *ssa.Function) {}, c.P.climb(from, hasPush, "zkclient"), "zkclient")
}

func (c *Ctx) shownWhere(x *CallCtx) {
	e, st := x.E, x.St
	all := ""
	for _, a := range x.Args {
		all = labJoin(all, e.deepLab(st, a))
	}
	v := AV{Lab: all}
	kind := ""
	switch {
	case v.has("text:pm"):
		kind = "private message"
	case v.has("text:gm"):
		kind = "group message"
	default:
		return
	}
	w := fnName(x.Instr.Parent())
	e.Count("shown", kind+" in "+w)
	win := AV{}
	for i, p := range x.Callee.Params {
		if isInt(p.Type()) && i < len(x.Args) {
			win = x.Args[i]
			break
		}
	}
	if !win.has("convof") || kind == "private message" && !win.has("from") || kind == "group message" && !win.has("gname") {
		e.Violation(st, "window/"+kind, x.Instr, "a %s may be shown in another window than that of who sent it", kind)
	}
	// who it says it is from
	who := ""
	for i, a := range x.Args {
		if i < len(x.Callee.Params) && isInt(x.Callee.Params[i].Type()) {
			continue
		}
		who = labJoin(who, e.deepLab(st, a))
	}
	if !(AV{Lab: who}).has("from") {
		e.Violation(st, "name/"+kind, x.Instr, "a %s is not shown under the name of the identity the server named", kind)
	}
}

// fullLab: the labels of a value, and of the field it points at.
func (e *Engine) fullLab(st *State, v AV) string {
	l := e.deepLab(st, v)
	if v.Addr == nil {
		return l
	}
	l = labJoin(l, v.Addr.Base)
	if f := v.Addr.field(); f != nil && e.R.FieldLab != nil {
		if x := e.R.FieldLab(v.Addr.Owner, f, v); x != "" {
			l = labJoin(l, lab(x))
		}
	}
	return l
}
