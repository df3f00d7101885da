package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", func(c *Ctx) {
		c.Rule("a group list is replaced or removed for a message only after the first member of the group under that very name was found equal to the sender the ratchet authenticated; a list that came with the message is installed only after its own first member was found to be the sender too")
		c.Rule("the administrator's own client changes a group for a message only to add a sender whose invitation, found under that group and sender and matching the token, was deleted and the deletion saved, or to take out the sender it found in the list")
		c.Rule("for the user, a group is made only under a name that is not in use, and changed, and an invitation, kick or kill sent, only after the user was found to be the group's first member; a join is sent to the one who sent the invitation with that token")
		c.Rule("a check and the change it allows happen within one hold of the lock")
		c.groups("C21")
		c.Need("group change", 5)
		c.Need("group sent", 3)
		c.Need("invite consumed", 1)
	})
	register("C22", func(c *Ctx) {
		c.Rule("the text of a group message reaches the screen only after the sender the ratchet authenticated was found among the members of the group the message names")
		c.Rule("group messages, lists and kicks are sent to members of the group they name, and the loops that send them step over every member and leave out only oneself")
		c.Rule("a member list that was given is not changed in place while messages to it are queued, and neither is a recipient")
		c.groups("C22")
		c.groupLoops()
		c.handover(func(f *ssa.Function) bool { return inPkg(f, "zkclient") && usesGroup(f) })
		c.Need("group text shown", 1)
		c.Need("group sent", 3)
		c.Need("member loop", 2)
	})
}

func isGroupMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeName(m.Elem()) == "rpc.GroupList"
}

func isIDSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	a, ok := s.Elem().Underlying().(*types.Array)
	return ok && a.Len() == 32
}

// groupKey names the group a key or a payload's name denotes.
func groupKey(v AV) string {
	var r []string
	for _, l := range v.labels() {
		if strings.HasPrefix(l, "name:") {
			return l[5:]
		}
		if strings.HasPrefix(l, "w:") || strings.HasPrefix(l, "arg:") {
			r = append(r, l)
		}
	}
	if len(r) == 0 {
		if v.K == Const {
			return v.C
		}
		return "#" + strconv.Itoa(v.Sym)
	}
	sort.Strings(r)
	return strings.Join(r, "+")
}

func labAfter(l string, pfx string) (r []string) {
	for _, x := range (AV{Lab: l}).labels() {
		if strings.HasPrefix(x, pfx) {
			r = append(r, x[len(pfx):])
		}
	}
	return
}

// mutatesGroup: instructions that change the table of groups.
func mutatesGroup(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.MapUpdate:
		return isGroupMap(in.Map.Type())
	case ssa.CallInstruction:
		if b, ok := in.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			return isGroupMap(in.Common().Args[0].Type())
		}
	}
	return false
}

var groupPayloads = map[string]bool{
	"rpc.GroupInvite": true, "rpc.GroupJoin": true, "rpc.GroupPart": true, "rpc.GroupKick": true, "rpc.GroupKill": true,
	"rpc.GroupUpdate": true, "rpc.GroupList": true, "rpc.GroupMessage": true,
}

func (c *Ctx) groups(part string) {
	gone := c.P.reaches(leaves)
	mut := map[*ssa.Function]bool{}
	for _, f := range c.P.eventFuncs(func(p *Prog, in ssa.Instruction) bool { return mutatesGroup(in) }, "zkclient") {
		mut[f] = true
	}
	changes := c.P.reaches(func(p *Prog, in ssa.Instruction) bool { return mutatesGroup(in) })
	hasPush := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if typeName(p.Type()) == "rpc.Push" {
				return true
			}
		}
		return false
	}
	printer := func(f *ssa.Function) bool {
		return f != nil && inPkg(f, "zkclient") && f.Signature.Variadic() && strings.HasSuffix(f.Signature.Params().At(f.Signature.Params().Len()-1).Type().String(), "interface{}")
	}
	sends := func(f *ssa.Function) bool { return f != nil && gone[f] && inPkg(f, "zkclient") }
	r := &Rule{ID: "groups"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		f := in.Parent()
		if !inPkg(f, "zkclient") {
			return false
		}
		if mutatesGroup(in) || callEvent(fnIniDel, fnIniSet)(p, in) {
			return true
		}
		if lk, ok := in.(*ssa.Lookup); ok {
			return isGroupMap(lk.X.Type()) && (hasPush(f) || groupSender(f) || groupGuard(f))
		}
		if bo, ok := in.(*ssa.BinOp); ok {
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if own, f := staticField(v); f != nil && own == "rpc.GroupInvite" && f.Name() == "Token" {
					return true
				}
			}
		}
		if ci, ok := in.(ssa.CallInstruction); ok && sends(ci.Common().StaticCallee()) {
			for _, a := range ci.Common().Args {
				if at, ok := deref(a.Type()).Underlying().(*types.Array); ok && at.Len() == 32 && memberRef(a) {
					return true
				}
			}
		}
		mi, ok := in.(*ssa.MakeInterface)
		return ok && groupPayloads[typeName(mi.X.Type())] && !strings.HasPrefix(mi.X.Type().String(), "*") && sendsIt(mi)
	}
	r.NoInline = func(f *ssa.Function) bool {
		return inPkg(f, "ratchet", "blobshare", "inidb", "session", "zkclient/addressbook", "debug") || printer(f)
	}
	net := func(st *State) bool { return st.InFunc(hasPush) }
	callback := func(st *State) bool {
		f := st.frames[0].fn
		return f.Parent() != nil && !hasPush(f)
	}
	// labels of an identity or of anything given by value or by reference
	lbl := func(e *Engine, st *State, v AV) string {
		l := e.deepLab(st, v)
		if v.Addr != nil {
			l = labJoin(l, v.Addr.Base)
			if f := v.Addr.field(); f != nil {
				if x := r.FieldLab(v.Addr.Owner, f, AV{Lab: v.Addr.Base}); x != "" {
					l = labJoin(l, lab(x))
				}
			}
			if v.Addr.Root != "" && !v.Addr.Heap && strings.HasPrefix(v.Addr.Root, "a") {
				// a field of a local structure
				l = labJoin(l, e.read(st, v.Addr, nil).Lab)
			}
		}
		return l
	}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		switch {
		case owner == "rpc.Push":
			if f.Name() == "From" {
				return "from"
			}
			return ""
		case owner == "rpc.GroupList" && v.hasPfx("grp:"):
			k := labAfter(v.Lab, "grp:")[0]
			switch f.Name() {
			case "Members":
				return "mem:" + k
			case "Name":
				return "name:" + k
			}
			return ""
		case owner == "rpc.GroupList" && f.Name() == "Members":
			return "wmem"
		case strings.HasPrefix(owner, "rpc.") && owner != "rpc.Message":
			return "w:" + strings.TrimPrefix(owner, "rpc.") + "." + f.Name()
		case f.Name() == "id" && typeName(f.Type()) == "zkidentity.FullIdentity":
			return "self"
		}
		return ""
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return
		}
		x := e.val(st, ia.X)
		v := e.val(st, ia)
		i := e.val(st, ia.Index)
		put := func(l string) {
			v.Lab = l
			if v.Addr != nil {
				a := *v.Addr
				a.Base = l
				v.Addr = &a
			}
			st.vals[VKey{st.depth(), ia}] = v
		}
		n, isC := intOf(i)
		if _, lit := ia.Index.(*ssa.Const); !lit {
			isC = false
		}
		switch {
		case isIDSlice(ia.X.Type()):
			m := labAfter(x.Lab, "mem:")
			switch {
			case len(m) == 1 && !x.has("wmem") && isC && n == 0:
				put(lab("adm:" + m[0]))
			case len(m) == 1 && !x.has("wmem"):
				put(lab("el:"+m[0], "at:"+strconv.Itoa(c.P.id(ia.Index))))
			case x.has("wmem") && isC && n == 0:
				put(labJoin(x.Lab, lab("wadm")))
			}
		case isC:
			if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && s.Elem().String() == "string" {
				put(labJoin(x.Lab, lab("arg:"+strconv.FormatInt(n, 10))))
			}
		}
	}
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		if !isGroupMap(in.X.Type()) {
			return nil
		}
		g := groupKey(k)
		return []Out{
			{Res: []AV{{Lab: lab("grp:" + g)}, avTrue}, Do: func(s *State) { s.Set("absent:"+g, ""); s.Note(in.Pos(), "the group is found") }},
			{Res: []AV{{K: Zero, Lab: lab("grp:" + g)}, avFalse}, Do: func(s *State) { s.Set("absent:"+g, "1"); s.Note(in.Pos(), "there is no such group") }},
		}
	}
	equal := func(s *State, a, b string, in ssa.Instruction) {
		for i := 0; i < 2; i++ {
			A, B := AV{Lab: a}, AV{Lab: b}
			who := ""
			switch {
			case B.has("from"):
				who = "from"
			case B.has("self"):
				who = "self"
			}
			if who != "" {
				for _, k := range labAfter(A.Lab, "adm:") {
					s.Set("auth:"+k+":"+who, "1")
				}
				if A.has("wadm") && who == "from" {
					s.Set("wadm", "1")
				}
				if who == "from" && !A.hasPfx("adm:") {
					for _, k := range labAfter(A.Lab, "el:") {
						at := "1"
						if l := labAfter(A.Lab, "at:"); len(l) > 0 {
							at = l[0]
						}
						s.Set("ismem:"+k, at)
						s.Set("was:"+k, "1")
					}
				}
				if who == "from" {
					for _, k := range labAfter(A.Lab, "adm:") {
						s.Set("was:"+k, "1")
					}
				}
			}
			a, b = b, a
		}
	}
	r.Cmp = func(x *CmpCtx) []Out {
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		st := x.St
		// tokens
		for i := 0; i < 2; i++ {
			a, b := x.X, x.Y
			if i == 1 {
				a, b = b, a
			}
			inv := labAfter(a.Lab, "inv:")
			if len(inv) == 0 || !a.has("w:GroupInvite.Token") || !(b.has("w:GroupJoin.Token") || b.hasPfx("arg:")) {
				continue
			}
			t := inv[0]
			return cmpFork(x, func(s *State, op token.Token) {
				if op == token.EQL {
					s.Set("tok:"+t, "1")
				}
			})
		}
		if a, ok := x.In.X.Type().Underlying().(*types.Array); ok && a.Len() == 32 {
			return cmpFork(x, func(s *State, op token.Token) {
				if op == token.EQL {
					equal(s, x.X.Lab, x.Y.Lab, x.In)
				}
			})
		}
		_ = st
		return nil
	}
	viol := func(e *Engine, st *State, p, key string, in ssa.Instruction, f string, a ...interface{}) {
		if p == part {
			e.Violation(st, key, in, f, a...)
		}
	}
	change := func(e *Engine, st *State, in ssa.Instruction, key AV, val *AV) {
		g := groupKey(key)
		w := fnName(in.Parent())
		from, self := st.Get("auth:"+g+":from") == "1", st.Get("auth:"+g+":self") == "1"
		e.Count("group change", w)
		if net(st) {
			if val == nil {
				if !from {
					viol(e, st, "C21", "remove/"+w, in, "a group is removed for a message although its sender was not found to be the administrator of that group")
				}
				return
			}
			v := AV{Lab: e.deepLab(st, *val)}
			if len(labAfter(v.Lab, "grp:")) == 0 && len(labAfter(v.Lab, "mem:")) == 0 {
				if !from || st.Get("wadm") != "1" {
					viol(e, st, "C21", "install/"+w, in, "a group list that came with a message is installed although its sender was not found to be the administrator of that group (%v) and of the list (%v)", from, st.Get("wadm") == "1")
				}
				return
			}
			same := false
			for _, k := range append(labAfter(v.Lab, "grp:"), labAfter(v.Lab, "mem:")...) {
				same = same || k == g
			}
			if !same {
				viol(e, st, "C21", "mixed/"+w, in, "a group is replaced by the list of another group")
			}
			at := st.Get("ismem:" + g)
			if cut := st.Get("cut:" + g); at != "" && cut != "" && cut != at && st.Get("invite:"+g) != "1" {
				viol(e, st, "C21", "cut/"+w, in, "another member than the sender of the message is taken out of the group")
			}
			if !from && !(self && (st.Get("invite:"+g) == "1" || at != "")) {
				viol(e, st, "C21", "change/"+w, in, "a group is changed for a message whose sender is not its administrator, without both an invitation it used up (or its own membership) and the user being the administrator")
			}
			return
		}
		if val == nil || callback(st) || e.deepLabHas(st, *val, "disk") {
			return
		}
		if st.Get("absent:"+g) != "1" && !self {
			viol(e, st, "C21", "user/"+w, in, "a group is replaced although the name was not found unused, nor the user found to be its administrator")
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			if isGroupMap(in.Map.Type()) {
				v := e.val(st, in.Value)
				change(e, st, in, e.val(st, in.Key), &v)
			}
		case *ssa.MakeClosure:
			f := in.Fn.(*ssa.Function)
			if !changes[f] || !escapes(in) {
				return
			}
			ok := false
			for k, v := range st.auto {
				if v == "1" && strings.HasPrefix(k, "auth:") && (strings.HasSuffix(k, ":from") || strings.HasSuffix(k, ":self") && !net(st)) {
					ok = true
				}
			}
			e.Count("group change", fnName(f))
			if !ok {
				viol(e, st, "C21", "later/"+fnName(in.Parent()), in, "a change of a group is prepared although its administrator was not checked")
			}
		}
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		w := fnName(x.Instr.Parent())
		switch x.Name {
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			for k := range st.auto {
				for _, p := range []string{"auth:", "ismem:", "absent:", "cut:", "wadm"} {
					if strings.HasPrefix(k, p) {
						delete(st.auto, k)
					}
				}
			}
			return []Out{{}}
		case "builtin:delete":
			if isGroupMap(x.Instr.Common().Args[0].Type()) {
				change(e, st, x.Instr, x.Args[1], nil)
			}
			return nil
		case "builtin:append":
			cc := x.Instr.Common().Args
			if len(cc) == 2 && isIDSlice(cc[0].Type()) {
				a, ok1 := cc[0].(*ssa.Slice)
				b, ok2 := cc[1].(*ssa.Slice)
				m := labAfter(x.Args[0].Lab, "mem:")
				if ok1 && ok2 && len(m) == 1 && len(labAfter(x.Args[1].Lab, "mem:")) == 1 && a.High != nil && b.Low != nil {
					cut := c.P.id(a.High)
					if bo, ok := b.Low.(*ssa.BinOp); !ok || bo.Op != token.ADD || bo.X != a.High || bo.Y.Name() != "1:int" {
						cut = -1
					}
					st.Set("cut:"+m[0], strconv.Itoa(cut))
				}
			}
			return nil
		case "bytes.Equal", "crypto/subtle.ConstantTimeCompare", "bytes.Compare":
			a, b := lbl(e, st, x.Args[0]), lbl(e, st, x.Args[1])
			if x.Name == "bytes.Compare" {
				return nil
			}
			return boolFork(x, "the comparison of identities", func(s *State) { equal(s, a, b, x.Instr) }, nil)
		case fnUnmarshal, fnUnmarshalL:
			t := x.Args[1]
			l := lbl(e, st, x.Args[0])
			if !(AV{Lab: l}).has("disk") {
				l = labJoin(l, lab("wire"))
			}
			if typeName(x.Instr.Common().Args[1].Type()) == "rpc.Push" || dynName(t) == "rpc.Push" {
				l = ""
			}
			return errFork(x, "decoding", []AV{{}}, func(s *State) { e.havoc(s, t.Addr, l) }, nil)
		case "io/ioutil.ReadFile", "os.ReadFile":
			return errFork(x, "reading the file", []AV{{Lab: lab("disk")}}, nil, nil)
		case fnIniNew:
			return iniOpen(x, "", nil)
		case fnIniGet:
			t := groupKey(x.Args[1])
			l := lab("disk")
			if strings.Contains(lbl(e, st, x.Args[2]), ",from,") {
				l = lab("disk", "inv:"+t)
			}
			return errFork(x, "finding the record", []AV{{Lab: l}}, nil, nil)
		case "(*inidb.INIDB).Records":
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("disk", "inv:"+groupKey(x.Args[1]))}}}}
		case fnIniDel:
			t := groupKey(x.Args[1])
			fromKey := strings.Contains(lbl(e, st, x.Args[2]), ",from,")
			e.Count("record deleted", w)
			return errFork(x, "deleting the record", nil, func(s *State) {
				if s.Get("tok:"+t) == "1" && fromKey {
					s.Set("del:"+t, "1")
				}
			}, nil)
		case fnIniSet:
			return errFork(x, "setting the record", nil, func(s *State) { s.Set("set", "1") }, nil)
		case fnIniSave:
			return errFork(x, "saving the database", nil, func(s *State) {
				if s.Get("set") == "1" {
					s.Set("recorded", "1")
				}
				for k := range s.auto {
					if strings.HasPrefix(k, "del:") {
						e.Count("invite consumed", w)
						s.Set("invite:"+k[4:], "1")
					}
				}
			}, nil)
		case fnKxRead:
			for k := range st.auto {
				delete(st.auto, k)
			}
			return nil
		case "(*zkclient/addressbook.AddressBook).FindIdentity":
			return errFork(x, "finding the identity", []AV{{K: NonZero, Lab: (AV{}).with(labAfter(lbl(e, st, x.Args[1]), "")...).Lab}}, nil, nil)
		}
		if printer(x.Callee) {
			shown := false
			for _, a := range x.Args {
				e.deepValues(st, a, 4, func(v AV) {
					if v.has("w:GroupMessage.Message") {
						shown = true
					}
				})
			}
			if shown && net(st) {
				e.Count("group text shown", w)
				ok := false
				for k := range st.auto {
					if strings.HasPrefix(k, "was:") && strings.Contains(k, "w:GroupMessage.Name") {
						ok = true
					}
				}
				if !ok {
					viol(e, st, "C22", "shown/"+w, x.Instr, "a group message is shown although its sender was not found among the members of the group it names")
				}
			}
			return []Out{{}}
		}
		if sends(x.Callee) && !e.relevant[x.Callee] {
			for _, a := range x.Args {
				d := dynName(a)
				if !groupPayloads[d] || a.Addr != nil && a.Dyn != nil && isPtr(a.Dyn) {
					continue
				}
				name := ""
				e.deepValues(st, a, 3, func(v AV) {
					if n, ok := v.Agg[".Name"]; ok && name == "" {
						name = groupKey(n)
					}
					if n, ok := v.Agg[".NewGroupList.Name"]; ok {
						name = groupKey(n)
					}
				})
				e.Count("group sent", strings.TrimPrefix(d, "rpc.")+" in "+w)
				if !net(st) && !callback(st) {
					switch d {
					case "rpc.GroupInvite", "rpc.GroupKick", "rpc.GroupKill", "rpc.GroupUpdate", "rpc.GroupList":
						ok := false
						for k, v := range st.auto {
							if v == "1" && strings.HasPrefix(k, "auth:") && strings.HasSuffix(k, ":self") && (name == "" || k == "auth:"+name+":self") {
								ok = true
							}
						}
						if !ok {
							viol(e, st, "C21", "send/"+d+"/"+w, x.Instr, "%s is sent although the user was not found to be the administrator of that group", d)
						}
					case "rpc.GroupJoin":
						ok := false
						for k, v := range st.auto {
							ok = ok || v == "1" && strings.HasPrefix(k, "tok:")
						}
						to := ""
						for i, p := range x.Callee.Params {
							if at, ok := deref(p.Type()).Underlying().(*types.Array); ok && at.Len() == 32 {
								to = lbl(e, st, x.Args[i])
							}
						}
						if len(labAfter(to, "inv:")) == 0 {
							viol(e, st, "C21", "jointo/"+w, x.Instr, "a join is sent to another than the one whose invitation it answers")
						}
						if !ok {
							viol(e, st, "C21", "send/"+d+"/"+w, x.Instr, "a join is sent although no invitation with that token was found")
						}
					}
				}
				if d == "rpc.GroupInvite" && st.Get("recorded") != "1" {
					viol(e, st, "C21", "unrecorded/"+w, x.Instr, "an invitation is sent that was not saved: the join it asks for will be refused")
				}
				// to whom
				switch d {
				case "rpc.GroupMessage", "rpc.GroupKick", "rpc.GroupKill", "rpc.GroupUpdate", "rpc.GroupList", "rpc.GroupPart":
					to := ""
					for i, p := range x.Callee.Params {
						if at, ok := deref(p.Type()).Underlying().(*types.Array); ok && at.Len() == 32 {
							to = lbl(e, st, x.Args[i])
						}
					}
					ms := append(labAfter(to, "el:"), labAfter(to, "adm:")...)
					ok := false
					for _, k := range ms {
						ok = ok || name == "" || k == name
					}
					if !ok {
						viol(e, st, "C22", "to/"+d+"/"+w, x.Instr, "%s is sent to someone who is not taken from the members of the group it names", d)
					}
				}
			}
		}
		return stdCall(x)
	}
	c.Explore(r, nil, nil, "zkclient")
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// escapes: the closure is kept or handed on instead of being called here.
func escapes(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		switch r := r.(type) {
		case ssa.CallInstruction:
			if r.Common().Value != ssa.Value(mc) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// sendsIt: the interface made is handed to a function of the client, not to
// the encoder.
func sendsIt(mi *ssa.MakeInterface) bool {
	for _, r := range *mi.Referrers() {
		if ci, ok := r.(ssa.CallInstruction); ok {
			if g := ci.Common().StaticCallee(); g != nil && inPkg(g, "zkclient") && !g.Signature.Variadic() {
				return true
			}
		}
	}
	return false
}

// groupGuard: f says something about a group, or returns it, and nothing else.
func groupGuard(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		switch t := r.At(i).Type(); {
		case isErr(t), typeName(t) == "rpc.GroupList":
		case types.Identical(t.Underlying(), types.Typ[types.Bool]):
		default:
			return false
		}
	}
	return r.Len() > 0
}

func groupSender(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok && groupPayloads[typeName(mi.X.Type())] && sendsIt(mi) {
				return true
			}
		}
	}
	return false
}

// groupLoops: the loops that send to the members of a group visit every
// member.
func (c *Ctx) groupLoops() {
	gone := c.P.reaches(leaves)
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkclient") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || !gone[ci.Common().StaticCallee()] || !inLoop(b) {
					continue
				}
				member, payload := false, ""
				for _, a := range ci.Common().Args {
					if at, ok := deref(a.Type()).Underlying().(*types.Array); ok && at.Len() == 32 && memberRef(a) {
						member = true
					}
					if mi, ok := a.(*ssa.MakeInterface); ok {
						payload = typeName(mi.X.Type())
					}
				}
				if member {
					c.memberLoop(f, ci, payload)
				}
			}
		}
	}
}

// memberRef: a reference to an element of a list of identities, or to a copy.
func memberRef(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.IndexAddr:
		return isIDSlice(v.X.Type())
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
				if u, ok := st.Val.(*ssa.UnOp); ok && memberRef(u.X) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) memberLoop(f *ssa.Function, ci ssa.CallInstruction, payload string) {
	w := fnName(f)
	c.Count("member loop", w)
	pos := ci.Pos()
	// innermost loop around the call
	var h *ssa.BasicBlock
	body := map[*ssa.BasicBlock]bool{}
	for d := ci.Block(); d != nil && h == nil; d = d.Idom() {
		for _, p := range d.Preds {
			if !d.Dominates(p) {
				continue
			}
			// natural loop of the back edge
			l := map[*ssa.BasicBlock]bool{d: true}
			st := []*ssa.BasicBlock{p}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l[x] {
					continue
				}
				l[x] = true
				st = append(st, x.Preds...)
			}
			if l[ci.Block()] {
				h = d
				for x := range l {
					body[x] = true
				}
			}
		}
	}
	if h == nil {
		return
	}
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return // not a counting loop: nothing can be said
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.GEQ && cmp.Op != token.NEQ {
		return
	}
	first := int64(0)
	idx := cmp.X
	if a, ok := idx.(*ssa.BinOp); ok && a.Op == token.ADD && a.Y.Name() == "1:int" {
		first = 1
		idx = a.X
	}
	ph, ok := idx.(*ssa.Phi)
	if !ok {
		return
	}
	for _, e := range ph.Edges {
		switch e := e.(type) {
		case *ssa.Const:
			if e.Value != nil {
				first += e.Int64()
			}
		case *ssa.BinOp:
			if e.Op != token.ADD || e.X != ssa.Value(ph) || e.Y.Name() != "1:int" {
				c.Violation("step/"+w, pos, "%s steps over members of the group it sends to", w)
			}
		}
	}
	max := int64(1)
	if payload == "rpc.GroupMessage" {
		max = 0
	}
	if first > max {
		c.Violation("first/"+w, pos, "%s begins sending at member %d of the group", w, first)
	}
	// the bound is the length of the list
	if ln, ok := cmp.Y.(*ssa.Call); !ok || staticBuiltin(ln) != "len" || !isIDSlice(ln.Call.Args[0].Type()) {
		c.Violation("bound/"+w, pos, "%s does not send to the whole list of members", w)
	}
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] {
				if _, p := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !p {
					c.Violation("leave/"+w, pos, "%s can leave the loop before it has sent to every member", w)
				}
			}
		}
	}
	// left out: only oneself
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if b == h {
			c.Violation("skip/"+w, pos, "%s leaves a member out that is not the user", w)
			return
		}
		if seen[b] || !body[b] || b == ci.Block() {
			return
		}
		seen[b] = true
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			cond, other := br.Cond, 1
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, other = u.X, 1-other
			}
			if bo, ok := cond.(*ssa.BinOp); ok && bo.Op == token.NEQ {
				other = 1 - other
			}
			if c.selfTest(cond) {
				walk(b.Succs[other])
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	for _, s := range h.Succs {
		if body[s] {
			walk(s)
		}
	}
}

func staticBuiltin(c *ssa.Call) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// selfTest: the condition compares an identity with the user's own.
func (c *Ctx) selfTest(v ssa.Value) bool {
	var own func(v ssa.Value, n int) bool
	own = func(v ssa.Value, n int) bool {
		if n == 0 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Slice:
			return own(v.X, n-1)
		case *ssa.UnOp:
			return own(v.X, n-1)
		case *ssa.FieldAddr:
			_, f := staticField(v)
			return f.Name() == "id" && typeName(f.Type()) == "zkidentity.FullIdentity" || own(v.X, n-1)
		case *ssa.Alloc:
			for _, r := range *v.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) && own(st.Val, n-1) {
					return true
				}
			}
		}
		return false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return (v.Op == token.EQL || v.Op == token.NEQ) && (own(v.X, 8) || own(v.Y, 8))
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return false
		}
		if staticName(v) == "bytes.Equal" {
			return own(v.Call.Args[0], 8) || own(v.Call.Args[1], 8)
		}
		if !isRepoFn(g) {
			return false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, x := range r.Results {
					if c.selfTest(x) {
						return true
					}
				}
			}
		}
	}
	return false
}

// usesGroup: the function handles member lists.
func usesGroup(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && isIDSlice(v.Type()) {
				return true
			}
			if _, fl := staticField2(in); fl != nil && isIDSlice(fl.Type()) {
				return true
			}
		}
	}
	return false
}

func staticField2(in ssa.Instruction) (string, *types.Var) {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		return staticField(in)
	case *ssa.Field:
		return staticField(in)
	}
	return "", nil
}
