package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnBookAdd    = "(*zkclient/addressbook.AddressBook).Add"
	fnIDMarshal  = "(*zkidentity.PublicIdentity).Marshal"
	fnKxInitiate = "(*session.KX).Initiate"
	fnAcctCreate = "(*zkserver/account.Account).Create"
	fnKxComplete = "(*ratchet.Ratchet).CompleteKeyExchange"
)

func init() {
	register("C18", func(c *Ctx) {
		c.Rule("an identity decoded from the network enters the address book, the disk, an account, a ratchet or a window only after Verify returned true for it and it was not changed since")
		c.Rule("one that came in a message equals the sender the server named; one the server found was asked for under that nick and carries it; one kept in a window is used only after the user answered yes")
		c.trust("C18")
		c.Need("identity used", 5)
		c.Need("identity verified", 4)
	})
	register("C19", func(c *Ctx) {
		c.Rule("the client starts a session only after the first of the peer's certificates was found equal to the pinned one, or, for a server not known yet, was pinned because the user accepted it; the session's peer key is the pinned server identity's and its own keys are the user's")
		c.Rule("the pinned identity and certificate come from disk or from what the user accepted; a certificate is saved only after the user accepted it or the session with the pinned identity was established")
		c.trust("C19")
		c.Need("session started", 1)
		c.Need("pin set", 3)
	})
	register("C37", func(c *Ctx) {
		c.Rule("the client goes online only after the session was established and a welcome was decoded whose version was found equal to the protocol version; a property whose key matches no known one prevents it")
		c.trust("C37")
		c.Need("goes online", 1)
		c.welcomes()
		c.Need("welcome sent", 1)
	})
}

func isPubID(t types.Type) bool { return typeName(deref(t)) == "zkidentity.PublicIdentity" }

// pinFields: the byte slices of the client that are read back from disk.
func (c *Ctx) pinFields() map[string]bool {
	m := map[string]bool{}
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkclient") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if o, fl := staticField(s.Addr); fl != nil && o == "zkclient.ZKC" && fl.Type().String() == "[]byte" {
					if ex, ok := s.Val.(*ssa.Extract); ok {
						if call, ok := ex.Tuple.(*ssa.Call); ok && staticName(call) == "(*encoding/base64.Encoding).DecodeString" {
							m[fl.Name()] = true
						}
					}
				}
			}
		}
	}
	if len(m) == 0 {
		m["cert"] = true
	}
	return m
}

func (c *Ctx) trust(part string) {
	pins := c.pinFields()
	proto := c.protocolVersion()
	hasPush := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if typeName(p.Type()) == "rpc.Push" {
				return true
			}
		}
		return false
	}
	theirs := map[string]bool{"TheirIdentityPublic": true, "TheirSigningPublic": true, "TheirPublicKey": true}
	ids := part == "C18"
	calls := callEvent(fnKxInitiate, fnIniSet)
	if ids {
		calls = callEvent(fnBookAdd, fnIDMarshal, fnAcctCreate, fnIDVerify)
	} else if part == "C37" {
		calls = callEvent(fnKxInitiate)
	}
	r := &Rule{ID: "trust"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		f := in.Parent()
		if !inPkg(f, "zkclient", "zkserver") || makesWindow(f) {
			return false
		}
		if calls(p, in) {
			return true
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		o, fl := staticField(s.Addr)
		if fl == nil {
			return false
		}
		switch {
		case ids && o == "ratchet.Ratchet" && theirs[fl.Name()],
			ids && strings.HasPrefix(o, "zkclient.") && o != "zkclient.conversation" && isPubID(fl.Type()),
			part == "C19" && o == "zkclient.ZKC" && isPubID(fl.Type()):
			return true
		case !ids && o == "zkclient.ZKC" && (part == "C19" && fl.Type().String() == "[]byte" || part == "C37" && typeName(deref(fl.Type())) == "session.KX"),
			part == "C37" && o == "zkclient.ZKC" && fl.Name() == "online":
			return true
		}
		return false
	}
	r.NoInline = func(f *ssa.Function) bool {
		return inPkg(f, "ratchet", "blobshare", "inidb", "session", "zkclient/addressbook", "zkidentity", "debug", "zkserver/account")
	}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		switch {
		case owner == "rpc.Push":
			if f.Name() == "From" {
				return "from"
			}
			return ""
		case owner == "rpc.Welcome" || owner == "rpc.ServerProperty":
			return "w:" + f.Name()
		case owner == "zkidentity.PublicIdentity":
			return "pid:" + f.Name()
		case owner == "rpc.IdentityFindReply" && f.Name() == "Nick":
			return "reply:Nick"
		case owner == "crypto/x509.Certificate" && f.Name() == "Raw":
			return "peercert"
		case owner == "zkclient.ZKC" && f.Type().String() == "[]byte":
			if pins[f.Name()] {
				return "pin"
			}
			return "peercert"
		case owner == "zkclient.ZKC" && isPubID(f.Type()):
			return "server"
		case typeName(f.Type()) == "zkidentity.FullIdentity":
			return "self"
		case strings.HasPrefix(owner, "zkclient.") && owner != "zkclient.ZKC" && isPubID(f.Type()) && owner != "zkclient.conversation":
			return "offered"
		case strings.HasPrefix(owner, "zkclient.") && owner != "zkclient.ZKC" && f.Type().String() == "string":
			return "input"
		}
		return ""
	}
	lbl := func(e *Engine, st *State, v AV) string {
		l := e.deepLab(st, v)
		if v.Addr != nil {
			l = labJoin(l, v.Addr.Base)
			for i, f := range v.Addr.Fields {
				o := ""
				if i == len(v.Addr.Fields)-1 {
					o = v.Addr.Owner
				} else if isPubID(f.Type()) {
					continue
				}
				if x := r.FieldLab(o, f, AV{Lab: v.Addr.Base}); x != "" {
					l = labJoin(l, lab(x))
				}
			}
			if !v.Addr.Heap {
				l = labJoin(l, e.read(st, v.Addr, nil).Lab)
			}
		}
		return l
	}
	srcs := func(l string) []string { return labAfter(l, "src:") }
	viol := func(e *Engine, st *State, p, key string, in ssa.Instruction, f string, a ...interface{}) {
		if p == part {
			e.Violation(st, key, in, f, a...)
		}
	}
	said := func(st *State, what string) bool {
		for k := range st.auto {
			if k == "said:yes" || what == "" && strings.HasPrefix(k, "said:") && strings.Contains(k, "accept") {
				return true
			}
		}
		return false
	}
	use := func(e *Engine, st *State, in ssa.Instruction, l, how string) {
		w := fnName(in.Parent())
		for _, s := range srcs(l) {
			e.Count("identity used", how+" in "+w)
			if st.Get("ver:"+s) != "1" {
				viol(e, st, "C18", "unverified/"+how+"/"+w, in, "an identity from the network is %s without having been verified", how)
			}
			if st.InFunc(hasPush) && st.Get("own:"+s) != "1" {
				viol(e, st, "C18", "sender/"+how+"/"+w, in, "an identity that came in a message is %s without having been found to be the sender's", how)
			}
			if st.Get("found:"+s) == "1" && (st.Get("asked:"+s) != "1" || st.Get("nick:"+s) != "1") {
				viol(e, st, "C18", "unasked/"+how+"/"+w, in, "an identity the server sent is %s without having been asked for (%v) under its nick (%v)", how, st.Get("asked:"+s) == "1", st.Get("nick:"+s) == "1")
			}
		}
		if (AV{Lab: l}).has("offered") {
			e.Count("identity used", "accepted and "+how+" in "+w)
			if !said(st, "yes") {
				viol(e, st, "C18", "unaccepted/"+how+"/"+w, in, "an identity offered to the user is %s although the user did not answer yes", how)
			}
		}
	}
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		m, ok := in.X.Type().Underlying().(*types.Map)
		if !ok || m.Key().String() != "string" {
			return nil
		}
		if _, p := m.Elem().Underlying().(*types.Pointer); !p && !in.CommaOk {
			return nil
		}
		ss := srcs(k.Lab)
		if len(ss) == 0 || !k.has("reply:Nick") && !k.has("pid:Nick") {
			return nil
		}
		asked := k.has("reply:Nick")
		yes := Out{Res: []AV{{K: NonZero}}, Do: func(s *State) {
			if asked {
				for _, x := range ss {
					s.Set("asked:"+x, "1")
				}
			}
			s.Note(in.Pos(), "that nick was asked for")
		}}
		no := Out{Res: []AV{{K: Zero}}, Do: func(s *State) { s.Note(in.Pos(), "that nick was not asked for") }}
		if in.CommaOk {
			yes.Res, no.Res = append(yes.Res, avTrue), append(no.Res, avFalse)
		}
		return []Out{yes, no}
	}
	own := func(s *State, a, b string) {
		for i := 0; i < 2; i++ {
			A, B := AV{Lab: a}, AV{Lab: b}
			if B.has("from") && A.has("pid:Identity") {
				for _, x := range srcs(a) {
					s.Set("own:"+x, "1")
				}
			}
			if A.has("peercert") && B.has("pin") && !A.has("chain") {
				s.Set("pinned", "1")
			}
			a, b = b, a
		}
	}
	r.Cmp = func(x *CmpCtx) []Out {
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		for i := 0; i < 2; i++ {
			a, b := x.X, x.Y
			if i == 1 {
				a, b = b, a
			}
			eq := func(f func(s *State), ne func(s *State)) []Out {
				return cmpFork(x, func(s *State, op token.Token) {
					if op == token.EQL {
						f(s)
					} else if ne != nil {
						ne(s)
					}
				})
			}
			switch {
			case b.K == Const && strings.HasPrefix(b.C, "\"") && a.has("w:Key") && part == "C37":
				return eq(func(s *State) { s.Set("property", "") }, func(s *State) { s.Set("property", "unknown") })
			case b.K == Const && strings.HasPrefix(b.C, "\"") && (a.has("input") || x.St.InFunc(isKeyHandler)):
				c, _ := strconv.Unquote(b.C)
				return eq(func(s *State) {
					if c != "" {
						s.Set("said:"+c, "1")
					}
				}, nil)
			case b.K == Unk && len(labAfter(b.Lab, "s:")) != 0 && x.St.InFunc(isKeyHandler):
				// a variable of the command's name
				return eq(func(s *State) {
					for _, c := range labAfter(b.Lab, "s:") {
						s.Set("said:"+c, "1")
					}
				}, nil)
			case b.K == Const && a.has("w:Version") && part == "C37":
				return eq(func(s *State) {
					if b.C == proto {
						s.Set("version", "1")
					}
				}, nil)
			case a.has("reply:Nick") && b.has("pid:Nick"):
				ss := srcs(b.Lab)
				return eq(func(s *State) {
					for _, x := range ss {
						s.Set("nick:"+x, "1")
					}
				}, nil)
			case a.has("server") && b.is(Zero):
				return eq(func(s *State) {}, func(s *State) { s.Set("known", "1") })
			}
		}
		if a, ok := x.In.X.Type().Underlying().(*types.Array); ok && a.Len() == 32 {
			return cmpFork(x, func(s *State, op token.Token) {
				if op == token.EQL {
					own(s, x.X.Lab, x.Y.Lab)
				}
			})
		}
		return nil
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return
		}
		// only the first certificate is the peer's own: it may have added
		// anybody's after it
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || typeName(deref(fa.X.Type())) != "crypto/x509.Certificate" {
			return
		}
		ld, ok := fa.X.(*ssa.UnOp)
		if !ok {
			return
		}
		if ia, ok := ld.X.(*ssa.IndexAddr); ok {
			if n, ok := intOf(e.val(st, ia.Index)); !ok || n != 0 {
				e.define(st, u, e.val(st, u).with("chain"))
			}
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := e.addrOf(e.val(st, s.Addr))
		f := a.field()
		if f == nil {
			return
		}
		v := e.val(st, s.Val)
		w := fnName(in.Parent())
		if v.has("chain") && a.Owner == "zkclient.ZKC" {
			viol(e, st, "C19", "chain/"+w, in, "a certificate other than the first of the peer's is kept as the peer's: anybody can add one it has no key for")
		}
		switch {
		case a.Owner == "zkidentity.PublicIdentity" && !a.Heap:
			// changed after it was verified
			for _, x := range srcs(lbl(e, st, AV{Addr: a})) {
				st.Set("ver:"+x, "")
			}
		case a.Owner == "ratchet.Ratchet" && theirs[f.Name()]:
			l := lbl(e, st, v)
			use(e, st, in, l, "used as a ratchet's peer")
		case a.Owner == "session.KX" && f.Name() == "TheirPublicKey":
			l := AV{Lab: lbl(e, st, v)}
			st.Set("peerkey", "")
			if l.has("server") && l.has("pid:Key") {
				st.Set("peerkey", "1")
			}
		case a.Owner == "session.KX" && (f.Name() == "OurPublicKey" || f.Name() == "OurPrivateKey"):
			l := AV{Lab: lbl(e, st, v)}
			st.Set(f.Name(), "")
			if l.has("self") {
				st.Set(f.Name(), "1")
			}
		case a.Owner == "zkclient.ZKC" && isPubID(f.Type()):
			l := lbl(e, st, v)
			use(e, st, in, l, "pinned as the server's")
			e.Count("pin set", "identity in "+w)
			o := AV{Lab: l}
			if len(srcs(l)) != 0 && !said(st, "yes") && !v.is(Zero) && !o.has("disk") && !o.has("server") {
				viol(e, st, "C19", "pin/identity/"+w, in, "a server identity is pinned although the user did not accept it")
			}
		case strings.HasPrefix(a.Owner, "zkclient.") && a.Owner != "zkclient.conversation" && isPubID(f.Type()):
			use(e, st, in, lbl(e, st, v), "kept in "+strings.TrimPrefix(a.Owner, "zkclient."))
		case a.Owner == "zkclient.ZKC" && pins[f.Name()]:
			e.Count("pin set", "certificate in "+w)
			if v.has("peercert") {
				if !said(st, "") && st.Get("known") != "1" {
					viol(e, st, "C19", "pin/cert/"+w, in, "a certificate is pinned that the user did not accept")
				}
				st.Set("pinned", "1")
			} else if !v.has("disk") && !v.is(Zero) {
				viol(e, st, "C19", "pin/other/"+w, in, "something is pinned that is neither the certificate saved on disk nor the peer's")
			}
		case a.Owner == "zkclient.ZKC" && (f.Name() == "online" && f.Type().String() == "bool" || typeName(deref(f.Type())) == "session.KX"):
			if v.is(Zero) {
				return
			}
			e.Count("goes online", w)
			if st.Get("session") != "1" {
				viol(e, st, "C37", "online/session/"+w, in, "the client goes online although no session was established")
			}
			if st.Get("welcomed") != "1" {
				viol(e, st, "C37", "online/welcome/"+w, in, "the client goes online although no welcome was decoded")
			}
			if st.Get("version") != "1" {
				viol(e, st, "C37", "online/version/"+w, in, "the client goes online although the server's protocol version was not found equal to its own")
			}
			if st.Get("property") == "unknown" {
				viol(e, st, "C37", "online/property/"+w, in, "the client goes online although the server announced a property it does not know")
			}
		}
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		w := fnName(x.Instr.Parent())
		switch x.Name {
		case fnUnmarshal, fnUnmarshalL:
			t := x.Args[1]
			ty := x.Instr.Common().Args[1].Type()
			if mi, ok := x.Instr.Common().Args[1].(*ssa.MakeInterface); ok {
				ty = mi.X.Type()
			}
			if t.Dyn != nil {
				ty = t.Dyn
			}
			ty = deref(ty)
			l := lbl(e, st, x.Args[0])
			switch {
			case (AV{Lab: l}).has("disk"):
				l = lab("disk")
			case typeName(ty) == "rpc.Push" || t.Addr == nil:
				l = ""
			default:
				src := strings.Map(func(r rune) rune {
					if r == ',' {
						return ';'
					}
					return r
				}, t.Addr.Root+t.Addr.Path)
				for _, k := range []string{"ver:", "own:", "asked:", "nick:", "found:"} {
					st.Set(k+src, "")
				}
				if typeName(ty) == "rpc.IdentityFindReply" {
					st.Set("found:"+src, "1")
				}
				l = lab("src:" + src)
				if n, ok := ty.(*types.Named); !ok || n.Obj().Pkg() == nil || !holdsID(n, 4) {
					l = ""
				}
			}
			return errFork(x, "decoding "+typeName(ty), []AV{{}}, func(s *State) {
				e.havoc(s, t.Addr, l)
				if typeName(ty) == "rpc.Welcome" && s.Get("session") == "1" {
					s.Set("welcomed", "1")
					s.Set("version", "")
					s.Set("property", "")
				}
			}, nil)
		case fnIDUnmarshal:
			src := "u" + strconv.Itoa(e.sym(st.depth(), x.Instr.(ssa.Value), "u"))
			if e.deepLabHas(st, x.Args[0], "disk") {
				return errFork(x, "decoding an identity from disk", []AV{{K: NonZero, Lab: lab("disk")}}, nil, nil)
			}
			return errFork(x, "decoding and verifying an identity", []AV{{K: NonZero, Lab: lab("src:" + src)}}, func(s *State) { s.Set("ver:"+src, "1") }, nil)
		case "io/ioutil.ReadFile", "os.ReadFile":
			return errFork(x, "reading the file", []AV{{Lab: lab("disk")}}, nil, nil)
		case fnIniNew:
			return iniOpen(x, "", nil)
		case fnIniGet:
			return errFork(x, "finding the record", []AV{{Lab: lab("disk")}}, nil, nil)
		case "(*inidb.INIDB).Records":
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("disk")}}}}
		case fnIDVerify:
			ss := srcs(lbl(e, st, x.Args[0]))
			for range ss {
				e.Count("identity verified", w)
			}
			return boolFork(x, "Verify", func(s *State) {
				for _, k := range ss {
					s.Set("ver:"+k, "1")
				}
			}, nil)
		case "strings.EqualFold":
			for i := 0; i < 2; i++ {
				k, o := x.Args[i], x.Args[1-i]
				if c, err := strconv.Unquote(k.C); k.K == Const && err == nil && (o.has("input") || st.InFunc(isKeyHandler)) {
					return boolFork(x, "the answer", func(s *State) { s.Set("said:"+strings.ToLower(c), "1") }, nil)
				}
			}
			return nil
		case "bytes.Equal", "crypto/subtle.ConstantTimeCompare", "crypto/hmac.Equal":
			a, b := lbl(e, st, x.Args[0]), lbl(e, st, x.Args[1])
			return boolFork(x, "the comparison", func(s *State) { own(s, a, b) }, nil)
		case fnBookAdd:
			use(e, st, x.Instr, lbl(e, st, x.Args[1]), "added to the address book")
			return nil
		case fnIDMarshal:
			use(e, st, x.Instr, lbl(e, st, x.Args[0]), "saved")
			return nil
		case fnAcctCreate:
			use(e, st, x.Instr, lbl(e, st, x.Args[1]), "made an account")
			return nil
		case fnKxInitiate:
			if !inPkg(x.Instr.Parent(), "zkclient") {
				return nil
			}
			e.Count("session started", w)
			if st.Get("pinned") != "1" {
				viol(e, st, "C19", "session/cert/"+w, x.Instr, "a session is started with a peer whose certificate was not found equal to the pinned one")
			}
			if st.Get("peerkey") != "1" {
				viol(e, st, "C19", "session/key/"+w, x.Instr, "a session is started whose peer key is not the pinned server identity's")
			}
			if st.Get("OurPublicKey") != "1" || st.Get("OurPrivateKey") != "1" {
				viol(e, st, "C19", "session/own/"+w, x.Instr, "a session is started without the user's own keys")
			}
			return errFork(x, "the key exchange", nil, func(s *State) { s.Set("session", "1") }, func(s *State) { s.Set("session", "") })
		case "crypto/tls.DialWithDialer", "crypto/tls.Dial", "crypto/tls.Client":
			for _, k := range []string{"pinned", "session", "peerkey", "welcomed", "version", "OurPublicKey", "OurPrivateKey"} {
				st.Set(k, "")
			}
			return nil
		case fnIniSet:
			for _, a := range x.Args[1:] {
				if e.deepLabHas(st, a, "peercert") {
					e.Count("pin set", "saved in "+w)
					if !said(st, "") && st.Get("session") != "1" {
						viol(e, st, "C19", "save/cert/"+w, x.Instr, "a certificate is saved although the user did not accept it and no session with the server was established")
					}
				}
			}
			return errFork(x, "setting the record", nil, nil, nil)
		case fnKxRead:
			st.Set("property", "")
			if !inPkg(x.Instr.Parent(), "zkclient") {
				return nil
			}
			for k := range st.auto {
				for _, p := range []string{"ver:", "own:", "asked:", "nick:", "found:"} {
					if strings.HasPrefix(k, p) {
						delete(st.auto, k)
					}
				}
			}
			return nil
		}
		return stdCall(x)
	}
	c.Explore(r, nil, nil, "zkclient", "zkserver")
}

// isKeyHandler: the method a window handles the user's keys with.
func isKeyHandler(f *ssa.Function) bool {
	return f.Name() == "KeyHandler" && f.Signature.Recv() != nil
}

// makesWindow: the function makes or finds a conversation's window.
func makesWindow(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if typeName(deref(rs.At(i).Type())) == "zkclient.conversation" {
			return true
		}
	}
	return false
}

// holdsID: the type is or contains a public identity, or is a welcome.
func holdsID(t types.Type, n int) bool {
	if isPubID(t) || strings.HasPrefix(typeName(t), "rpc.Welcome") {
		return true
	}
	if n == 0 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsID(u.Field(i).Type(), n-1) {
				return true
			}
		}
	case *types.Slice:
		return holdsID(u.Elem(), n-1)
	case *types.Pointer:
		return holdsID(u.Elem(), n-1)
	}
	return false
}

// welcomes: the version the server announces is the protocol's, in every
// welcome it makes.
func (c *Ctx) welcomes() {
	want := c.protocolVersion()
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkserver") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || typeName(deref(al.Type())) != "rpc.Welcome" {
					continue
				}
				c.Count("welcome sent", fnName(f))
				n := 0
				for _, r := range *al.Referrers() {
					fa, ok := r.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, fl := staticField(fa); fl.Name() != "Version" {
						continue
					}
					for _, q := range *fa.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
							n++
							if k, ok := s.Val.(*ssa.Const); !ok || constAV(k).C != want {
								c.Violation("version/"+fnName(f), s.Pos(), "a welcome announces another version than the protocol's")
							}
						}
					}
				}
				if n == 0 {
					c.Violation("noversion/"+fnName(f), al.Pos(), "a welcome announces no version")
				}
			}
		}
	}
}

func (c *Ctx) protocolVersion() string {
	if p := c.P.TPkgs["rpc"]; p != nil {
		if k, ok := p.Types.Scope().Lookup("ProtocolVersion").(*types.Const); ok {
			return k.Val().ExactString()
		}
	}
	c.Violation("anchor/ProtocolVersion", token.NoPos, "the protocol version is gone")
	return "?"
}
