package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rpcConst is the quoted value of a string constant of package rpc.
func (c *Ctx) rpcConst(name string) string {
	pkg := c.P.Pkgs["rpc"]
	if pkg == nil {
		panic("package rpc is gone")
	}
	o := pkg.Pkg.Scope().Lookup(name)
	k, ok := o.(*types.Const)
	if !ok {
		panic("rpc." + name + " is gone")
	}
	return strconv.Quote(constant.StringVal(k.Val()))
}

// isWrapper: the queued message type, a struct with an rpc.Message and a
// payload.
func isWrapper(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	msg, pay := false, false
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "rpc.Message" {
			msg = true
		}
		if types.IsInterface(s.Field(i).Type()) {
			pay = true
		}
	}
	return msg && pay
}

// wrapperCells returns the rpc.Message and payload parts of a queued message.
func wrapperCells(e *Engine, st *State, v AV, t types.Type) (cmd, tag, clear, payload AV, id AV) {
	s := deref(t).Underlying().(*types.Struct)
	get := func(p string) AV {
		if v.Addr != nil && !v.Addr.Heap {
			a := *v.Addr
			a.Path += p
			return e.loadCell(st, &a)
		}
		if v.Agg != nil {
			return e.selectAggRaw(v, p)
		}
		return AV{}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case typeName(f.Type()) == "rpc.Message":
			cmd = get("." + f.Name() + ".Command")
			tag = get("." + f.Name() + ".Tag")
			clear = get("." + f.Name() + ".Cleartext")
		case types.IsInterface(f.Type()):
			payload = get("." + f.Name())
		default:
			id = get("." + f.Name())
		}
	}
	return
}

func (e *Engine) selectAggRaw(x AV, p string) AV {
	if y, ok := x.Agg[p]; ok {
		return y
	}
	v := AV{Lab: x.Lab}
	if x.K == Zero {
		v.K = Zero
	}
	for q := p; q != ""; {
		i := strings.LastIndexByte(q, '.')
		if i < 0 {
			break
		}
		q = q[:i]
		if y, ok := x.Agg[q]; ok && q != "" {
			v = AV{Lab: y.Lab}
			if z, ok := y.Agg[p[len(q):]]; ok {
				return z
			}
			if y.K == Zero {
				v.K = Zero
			}
			return v
		}
	}
	return v
}

// aggField reads a field of a struct held in an interface.
func aggField(v AV, name string) AV {
	if y, ok := v.Agg["."+name]; ok {
		return y
	}
	// an interface holding a struct with no field ever set
	if v.Agg == nil && v.K != Unk && v.Lab == "" {
		return AV{K: Zero}
	}
	if v.Agg != nil && v.Lab == "" {
		return AV{K: Zero}
	}
	return AV{Lab: v.Lab}
}

// sends calls f for every queueing of a message the instruction performs.
func sends(e *Engine, st *State, in ssa.Instruction, f func(v AV, t types.Type)) {
	switch in := in.(type) {
	case *ssa.Send:
		if ch, ok := in.Chan.Type().Underlying().(*types.Chan); ok && isWrapper(ch.Elem()) {
			f(e.val(st, in.X), ch.Elem())
		}
	case *ssa.Select:
		i, err := strconv.Atoi(st.Get("select"))
		if err != nil || i < 0 || i >= len(in.States) {
			return
		}
		s := in.States[i]
		if s.Dir != types.SendOnly {
			return
		}
		if ch, ok := s.Chan.Type().Underlying().(*types.Chan); ok && isWrapper(ch.Elem()) {
			f(e.val(st, s.Send), ch.Elem())
		}
	}
}

func sendEvent(p *Prog, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Send:
		ch, ok := in.Chan.Type().Underlying().(*types.Chan)
		return ok && isWrapper(ch.Elem())
	case *ssa.Select:
		for _, s := range in.States {
			ch, ok := s.Chan.Type().Underlying().(*types.Chan)
			if ok && isWrapper(ch.Elem()) {
				return true
			}
		}
	}
	return false
}

// sessionRule is the common part of the rules over one tagged request.
func (c *Ctx) sessionRule(id string) *Rule {
	r := &Rule{ID: id}
	r.Event = anyEvent(callEvent(fnKxRead, fnDeliver, fnAccDelete, fnTagPush, fnOnline), sendEvent)
	r.NoInline = apiNoInline(fnRespond, fnDisabled, fnEnabled, fnOnline, fnOffline, fnKxRead, fnKxWrite, fnTheirID,
		fnDeliver, fnAccDelete, fnAccPush, fnAccPull, fnAccFind, fnAccCreate, fnIniGet, fnIniSet, fnIniDel, fnIniSave, fnIniNew)
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if l := wireFieldLab(owner, f, v); l != "" {
			return l
		}
		return ""
	}
	return r
}

// sessionCall models the calls every session rule shares.
func (c *Ctx) sessionCall(x *CallCtx) []Out {
	switch x.Name {
	case fnTheirID:
		return []Out{{Res: []AV{{Lab: lab("kxid")}}}}
	case fnKxRead:
		return errFork(x, "session read", []AV{{Lab: lab("wire")}}, func(s *State) {
			for _, k := range []string{"cmd", "stored", "replies", "slot", "deleted", "freed"} {
				s.Set(k, "")
			}
			s.Set("inreq", "1")
			s.tr = nil
			s.Note(x.Pos(), "a request is read")
		}, func(s *State) { s.Set("inreq", "") })
	}
	return stdCall(x)
}

// cmdCmp tracks which command the current request carries.
func cmdCmp(x *CmpCtx) []Out {
	if x.Op != token.EQL && x.Op != token.NEQ {
		return nil
	}
	a, b := x.X, x.Y
	if b.has("w:Message.Command") {
		a, b = b, a
	}
	if !a.has("w:Message.Command") || b.K != Const {
		return nil
	}
	if a.K == Const {
		return nil // decided by the valuation
	}
	k := b.C
	o := cmpFork(x, func(s *State, op token.Token) {
		if op == token.EQL {
			s.Set("cmd", k)
			s.Note(x.In.Pos(), "the command is %s", k)
		}
	})
	return o
}

func init() {
	register("C27", checkReplies)
	register("C04", checkStoredAck)
	register("C03", checkSender)
	register("C05", checkAckDelete)
}

type reqSpec struct{ cmd, reply, payload string }

func (c *Ctx) requests() map[string]reqSpec {
	m := map[string]reqSpec{}
	add := func(cmd, reply, payload string) {
		r := ""
		if reply != "" {
			r = c.rpcConst(reply)
		}
		m[c.rpcConst(cmd)] = reqSpec{cmd, r, payload}
	}
	add("TaggedCmdPing", "TaggedCmdPong", "rpc.Pong")
	add("TaggedCmdRendezvous", "TaggedCmdRendezvousReply", "rpc.RendezvousReply")
	add("TaggedCmdRendezvousPull", "TaggedCmdRendezvousPullReply", "rpc.RendezvousPullReply")
	add("TaggedCmdCache", "TaggedCmdAcknowledge", "rpc.Acknowledge")
	add("TaggedCmdIdentityFind", "TaggedCmdIdentityFindReply", "rpc.IdentityFindReply")
	add("TaggedCmdProxy", "TaggedCmdProxyReply", "rpc.ProxyReply")
	add("TaggedCmdAcknowledge", "", "")
	return m
}

// checkReplies (C27): exactly one reply per request, with its tag.
func checkReplies(c *Ctx) {
	c.Rule("between two session reads every request other than an acknowledge queues exactly one reply; the reply's tag is the decoded request's tag, and its command and payload type belong to the request's command")
	reqs := c.requests()
	r := c.sessionRule("replies")
	r.Cmp = cmdCmp
	r.Call = func(x *CallCtx) []Out {
		if x.Name == fnKxRead && x.St.Get("inreq") == "1" {
			st := x.St
			cmd := st.Get("cmd")
			n := st.Get("replies")
			sp, ok := reqs[cmd]
			want := "1"
			if ok && sp.reply == "" {
				want = ""
			}
			if cmd == "" {
				x.E.Violation(st, "unknown-command", x.Instr, "a request whose command was not recognised is neither answered nor does it end the session")
			} else if n != want {
				if n == "" {
					n = "no"
				}
				x.E.Violation(st, "count/"+cmd, x.Instr, "request %s is answered with %s replies before the next message is read", cmd, n)
			}
			x.E.Count("request", cmd)
		}
		if x.Name == fnDeliver {
			return errFork(x, "Deliver", []AV{{}}, nil, nil)
		}
		return c.sessionCall(x)
	}
	check := func(e *Engine, st *State, in ssa.Instruction) {
		if st.Get("inreq") != "1" {
			return
		}
		sends(e, st, in, func(v AV, t types.Type) {
			cmd, tag, _, pay, _ := wrapperCells(e, st, v, t)
			q := st.Get("cmd")
			switch st.Get("replies") {
			case "":
				st.Set("replies", "1")
			default:
				st.Set("replies", "several")
			}
			sp, ok := reqs[q]
			if !ok {
				e.Violation(st, "reply-unknown", in, "a reply is sent to a request whose command was not recognised")
				return
			}
			if !tag.has("w:Message.Tag") || tag.has("arith") {
				e.Violation(st, "tag/"+q, in, "the reply to %s does not carry the request's tag", q)
			}
			if cmd.K != Const || cmd.C != sp.reply {
				e.Violation(st, "command/"+q, in, "the reply to %s carries command %s, expected %s", q, cmd.C, sp.reply)
			}
			if d := dynName(pay); d != sp.payload {
				e.Violation(st, "payload/"+q, in, "the reply to %s carries a %s payload, expected %s", q, d, sp.payload)
			}
			e.Count("reply", q)
		})
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); ok {
			check(e, st, in)
		}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Select); ok {
			check(e, st, in)
		}
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("request", 7)
	c.Need("reply", 6)
	c.repliesWritten()
}

// repliesWritten (C27): what was queued reaches the connection.
func (c *Ctx) repliesWritten() {
	c.Rule("a reply taken out of a session's queue is written to the session before the next one is taken; once one was not, the connection is closed before anything else is taken")
	recv := func(ch ssa.Value) bool {
		t, ok := ch.Type().Underlying().(*types.Chan)
		return ok && isWrapper(t.Elem())
	}
	r := &Rule{ID: "replies written", Event: anyEvent(callEvent(fnKxWrite, fnKxClose), func(p *Prog, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.UnOp:
			return in.Op == token.ARROW && recv(in.X)
		case *ssa.Select:
			for _, s := range in.States {
				if s.Dir == types.RecvOnly && recv(s.Chan) {
					return true
				}
			}
		}
		return false
	})}
	r.NoInline = apiNoInline(fnKxRead, fnKxWrite, fnKxClose, fnDeliver, fnOnline, fnOffline)
	r.Call = func(x *CallCtx) []Out {
		switch {
		case x.Name == fnKxWrite:
			x.E.Count("taken", "written in "+fnName(x.Instr.Parent()))
			return errFork(x, "session write", nil, func(s *State) { s.Set("taken", "") }, nil)
		case x.Name == fnKxClose || closesConn(x.Name):
			x.St.Set("closed", "1")
			x.St.Set("taken", "")
			return []Out{{Res: []AV{{}}}}
		}
		return stdCall(x)
	}
	take := func(e *Engine, st *State, in ssa.Instruction) {
		w := fnName(in.Parent())
		e.Count("taken", "taken in "+w)
		if st.Get("closed") == "1" {
			return
		}
		if st.Get("taken") == "1" {
			e.Violation(st, "dropped/"+w, in, "%s takes a reply out of the queue although the one it took before was not written and the connection stands", w)
		}
		st.Set("taken", "1")
		st.Note(in.Pos(), "a reply is taken out of the queue")
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && recv(u.X) {
			take(e, st, in)
		}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Select)
		if !ok {
			return
		}
		i, err := strconv.Atoi(st.Get("select"))
		if err == nil && i >= 0 && i < len(s.States) && s.States[i].Dir == types.RecvOnly && recv(s.States[i].Chan) {
			take(e, st, in)
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if st.Get("taken") == "1" {
			w := fnName(st.frames[0].fn)
			e.Violation(st, "dropped/"+w, in, "%s can end with a reply it took out of the queue neither written nor the connection closed", w)
		}
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("taken", 2)
}

// checkStoredAck (C04).
func checkStoredAck(c *Ctx) {
	c.Rule("the reply queued for a Cache or Proxy request says success (empty error) exactly on the paths on which Account.Deliver returned nil")
	c.Rule("Account.Deliver returns nil only after the message was completely written, synced and closed, and was renamed into the recipient's cache under a name found free while the cache was locked")
	cache, proxy := c.rpcConst("TaggedCmdCache"), c.rpcConst("TaggedCmdProxy")
	r := c.sessionRule("stored")
	r.Cmp = cmdCmp
	r.Call = func(x *CallCtx) []Out {
		if x.Name == fnDeliver {
			x.E.Count("deliver", fnName(x.Instr.Parent()))
			return errFork(x, "Deliver", []AV{{}}, func(s *State) { s.Set("stored", "ok") }, func(s *State) { s.Set("stored", "fail") })
		}
		return c.sessionCall(x)
	}
	check := func(e *Engine, st *State, in ssa.Instruction) {
		q := st.Get("cmd")
		if q != cache && q != proxy {
			return
		}
		sends(e, st, in, func(v AV, t types.Type) {
			_, _, _, pay, _ := wrapperCells(e, st, v, t)
			er := aggField(pay, "Error")
			e.Count("ack", q+" stored="+st.Get("stored"))
			switch st.Get("stored") {
			case "ok":
				if er.nonzero() {
					e.Violation(st, "false-failure/"+q, in, "%s: the sender is told the delivery failed although the message was stored", q)
				}
			default:
				if !er.nonzero() {
					e.Violation(st, "false-success/"+q, in, "%s: the sender may be told the message was delivered although it was not stored", q)
				}
			}
		})
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); ok {
			check(e, st, in)
		}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Select); ok {
			check(e, st, in)
		}
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("deliver", 2)
	c.Need("ack", 4)

	// inside Deliver
	d := c.P.Func(fnDeliver)
	if d == nil {
		c.Violation("anchor/deliver", token.NoPos, "Account.Deliver is gone")
		return
	}
	c.fileReplace("deliver-file", d, "store", func(e *Engine, st *State, dst AV, in ssa.Instruction) {
		if !dst.has("param1") || dst.has("param2") {
			e.Violation(st, "deliver/dir", in, "the message is not filed under the recipient's identity")
		}
		if !dst.has("s:cache") {
			e.Violation(st, "deliver/cache", in, "the message is not filed in the recipient's cache")
		}
		if st.Get("free:"+dst.Lab) == "" {
			e.Violation(st, "deliver/taken", in, "the message may take the place of another: that no message has its name was not found out, or not under the lock that is held until it has the name")
		}
	})
}

// fileReplace: entry returns nil only after a file it wrote completely
// (write, sync, close all checked) was renamed into place.
func (c *Ctx) fileReplace(id string, entry *ssa.Function, kind string, dst func(e *Engine, st *State, v AV, in ssa.Instruction)) {
	r := &Rule{ID: id}
	osCalls := []string{"os.Rename", "os.Stat", "os.Lstat", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*os.File).Sync", "(*os.File).Close", "(*os.File).Write", "io.Copy"}
	r.Event = callEvent(osCalls...)
	fileStep := func(x *CallCtx, key string) []Out {
		return errFork(x, key, nil, func(s *State) { s.Set(key, "ok") }, func(s *State) { s.Set(key, "fail") })
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile", "os.Create":
			return errFork(x, "creating the file", []AV{{K: NonZero, Lab: lab("newfile")}}, func(s *State) {
				s.Set("write", "")
				s.Set("sync", "")
				s.Set("close", "")
				s.Set("created", "1")
			}, nil)
		case "(*os.File).Name":
			return []Out{{Res: []AV{{Lab: x.Args[0].Lab}}}}
		case "os.Stat", "os.Lstat":
			q, held := x.Args[0].Lab, st.Get("locked") == "1"
			return errFork(x, "finding the file", []AV{{}}, nil, func(s *State) {
				if held {
					s.Set("free:"+q, "1")
				}
			})
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			return []Out{{Do: func(s *State) { s.Set("locked", "1") }}}
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			return []Out{{Do: func(s *State) {
				s.Set("locked", "")
				for k := range s.auto {
					if strings.HasPrefix(k, "free:") {
						s.Set(k, "")
					}
				}
			}}}
		case "(*os.File).Write", "(*os.File).WriteString":
			if x.Args[0].has("newfile") {
				return errFork(x, "write", []AV{{}}, func(s *State) {
					if s.Get("write") == "" {
						s.Set("write", "ok")
					}
				}, func(s *State) { s.Set("write", "fail") })
			}
		case xdr2 + ".Marshal", "io.Copy", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString":
			if x.Args[0].has("newfile") {
				return errFork(x, "write", []AV{{}}, func(s *State) {
					if s.Get("write") == "" {
						s.Set("write", "ok")
					}
				}, func(s *State) { s.Set("write", "fail") })
			}
		case "(*os.File).Sync":
			if x.Args[0].has("newfile") {
				return fileStep(x, "sync")
			}
		case "(*os.File).Close":
			if x.Args[0].has("newfile") {
				return fileStep(x, "close")
			}
		case "os.Rename":
			if !x.Args[0].has("newfile") {
				return errFork(x, "renaming another file", nil, nil, nil)
			}
			e.Count(kind, "rename in "+fnName(x.Instr.Parent()))
			for _, k := range []string{"write", "sync", "close"} {
				if st.Get(k) != "ok" {
					e.Violation(st, fnName(entry)+"/rename/"+k, x.Instr, "%s: the file replaces the old one although its %s was %s", fnName(entry), k, orNone(st.Get(k)))
				}
			}
			if dst != nil {
				dst(e, st, x.Args[1], x.Instr)
			}
			return errFork(x, "rename", nil, func(s *State) { s.Set("renamed", "1") }, func(s *State) { s.Set("renamed", "") })
		case "os.WriteFile", "io/ioutil.WriteFile":
			e.Violation(st, fnName(entry)+"/inplace", x.Instr, "%s writes the file in place: a crash leaves a partial file", fnName(entry))
		}
		return stdCall(x)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if len(ret) == 0 {
			return
		}
		er := ret[len(ret)-1]
		if er.nonzero() {
			return
		}
		e.Count(kind, "return in "+fnName(entry))
		if st.Get("renamed") != "1" && st.Get("skip") != "1" {
			e.Violation(st, fnName(entry)+"/success", in, "%s reports success without the complete file having been put in place", fnName(entry))
		}
	}
	c.Explore(r, paramLabels, []*ssa.Function{entry})
	c.Need(kind, 2)
}

func orNone(s string) string {
	if s == "" {
		return "never done"
	}
	if s == "fail" {
		return "failed"
	}
	return s
}

// paramLabels labels the parameters of the entry: param0 is the receiver.
func paramLabels(st *State, f *ssa.Function) {
	for i, p := range f.Params {
		v := st.vals[VKey{0, p}]
		st.vals[VKey{0, p}] = v.with("param" + strconv.Itoa(i))
	}
}

// checkSender (C03).
func checkSender(c *Ctx) {
	c.Rule("the sender handed to Account.Deliver is the identity the key exchange proved, the recipient and payload are the request's; the cleartext mark is set for Proxy requests and only for those")
	c.Rule("the sender, mark, payload and time are carried unchanged: parameter -> stored message -> notification -> pushed message")
	r := c.sessionRule("sender")
	r.Cmp = cmdCmp
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		if x.Name == fnDeliver {
			w := fnName(x.Instr.Parent())
			e.Count("deliver", w)
			if !x.Args[2].has("kxid") || x.Args[2].hasPfx("w:") {
				e.Violation(st, "from/"+w, x.Instr, "the sender recorded with the message is not the identity the session proved")
			}
			kind := ""
			switch {
			case x.Args[1].has("w:Cache.To") && !x.Args[1].has("w:Proxy.To"):
				kind = "Cache"
			case x.Args[1].has("w:Proxy.To"):
				kind = "Proxy"
			default:
				e.Violation(st, "to/"+w, x.Instr, "the message is not delivered to the identity the request names")
				return errFork(x, "Deliver", []AV{{}}, nil, nil)
			}
			if !x.Args[3].has("w:" + kind + ".Payload") {
				e.Violation(st, "payload/"+w, x.Instr, "the delivered payload is not the request's")
			}
			cl := x.Args[4]
			if kind == "Cache" && !cl.is(Zero) {
				e.Violation(st, "clear/"+w, x.Instr, "an encrypted message may be marked as cleartext")
			}
			if kind == "Proxy" && !cl.nonzero() {
				e.Violation(st, "proxy/"+w, x.Instr, "a proxied cleartext message may be passed off as encrypted")
			}
			e.Count("kind", kind)
			return errFork(x, "Deliver", []AV{{}}, nil, nil)
		}
		return c.sessionCall(x)
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("deliver", 2)
	c.Need("kind", 2)

	// carried unchanged
	c.carry("carry", map[string]map[string]string{
		"zkserver/account.diskMessage": {"From": "param2", "Payload": "param3", "Cleartext": "param4"},
	}, func(p *Prog, in ssa.Instruction) bool {
		return storeTo(in, "zkserver/account.diskMessage")
	}, []*ssa.Function{c.P.Func(fnDeliver)}, nil)
	c.carry("carry", map[string]map[string]string{
		"zkserver/account.Notification": {"From": "w:diskMessage.From", "Payload": "w:diskMessage.Payload", "Cleartext": "w:diskMessage.Cleartext", "Received": "w:diskMessage.Received"},
	}, func(p *Prog, in ssa.Instruction) bool {
		return callEvent(fnDecode, fnDecodeLimited)(p, in) || storeTo(in, "zkserver/account.Notification")
	}, nil, nil, "zkserver/account")
	nl := func(owner string, f *types.Var, v AV) string {
		if owner == "zkserver/account.Notification" {
			return "n:" + f.Name()
		}
		return ""
	}
	c.carry("carry", map[string]map[string]string{
		"rpc.Push": {"From": "n:From", "Payload": "n:Payload", "Received": "n:Received"},
	}, func(p *Prog, in ssa.Instruction) bool {
		return storeTo(in, "rpc.Push")
	}, nil, nl, "zkserver")
	c.Need("carry", 10)
	// a record that ends early keeps what its variable held before
	fr := &Rule{ID: "fresh", Event: func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && strings.HasPrefix(staticName(ci), xdr2+".Unmarshal") && typeName(targetType(ci)) == "zkserver/account.diskMessage"
	}}
	fr.Call = func(x *CallCtx) []Out {
		if strings.HasPrefix(x.Name, xdr2+".Unmarshal") && typeName(targetType(x.Instr)) == "zkserver/account.diskMessage" {
			x.E.Count("carry", "a stored message is read in "+fnName(x.Instr.Parent()))
			if x.E.deepLab(x.St, x.Args[1]) != "" {
				x.E.Violation(x.St, "stale/"+fnName(x.Instr.Parent()), x.Instr, "a stored message is read over another one: a record without the cleartext mark takes the previous message's")
			}
		}
		return stdCall(x)
	}
	c.Explore(fr, nil, nil, "zkserver/account")
	// the mark of the pushed message
	m := &Rule{ID: "pushmark", FieldLab: nl, Event: sendEvent}
	m.Call = stdCall
	mk := func(e *Engine, st *State, in ssa.Instruction) {
		sends(e, st, in, func(v AV, t types.Type) {
			cmd, _, clear, pay, id := wrapperCells(e, st, v, t)
			if dynName(pay) != "rpc.Push" {
				return
			}
			if !clear.has("n:Cleartext") {
				e.Violation(st, "push/cleartext", in, "the pushed message does not carry the cleartext mark it was stored with")
			}
			if cmd.C != c.rpcConst("TaggedCmdPush") {
				e.Violation(st, "push/command", in, "a push carries the command %s", cmd.C)
			}
			_ = id
			e.Count("push", fnName(in.Parent()))
		})
	}
	m.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); ok {
			mk(e, st, in)
		}
	}
	m.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Select); ok {
			mk(e, st, in)
		}
	}
	c.Explore(m, nil, nil, "zkserver")
	c.Need("push", 1)
}

// targetType is the type a decoding call fills in.
func targetType(ci ssa.CallInstruction) types.Type {
	a := ci.Common().Args
	if len(a) < 2 {
		return types.Typ[types.Invalid]
	}
	v := a[1]
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	return deref(v.Type())
}

func storeTo(in ssa.Instruction, owner string) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	o, f := staticField(s.Addr)
	return f != nil && o == owner
}

// carry: every store to the named fields stores a value with the given
// provenance.
func (c *Ctx) carry(kind string, want map[string]map[string]string, ev func(p *Prog, in ssa.Instruction) bool, entries []*ssa.Function,
	fl func(owner string, f *types.Var, v AV) string, pk ...string) {
	r := &Rule{ID: kind, Event: ev, FieldLab: fl}
	r.Call = func(x *CallCtx) []Out {
		if n, ok := strings.CutPrefix(x.Name, "bytes."); ok && strings.HasPrefix(n, "Trim") || n == "Replace" || n == "ReplaceAll" || n == "ToLower" || n == "ToUpper" || n == "ToValidUTF8" || n == "Map" || n == "Repeat" {
			return []Out{{Res: []AV{{Lab: lab("cut")}}}}
		}
		return stdCall(x)
	}
	if fl == nil {
		r.FieldLab = wireFieldLab
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		o, f := staticField(s.Addr)
		if f == nil {
			return
		}
		w, ok := want[o][f.Name()]
		if !ok {
			return
		}
		v := e.val(st, s.Val)
		e.Count(kind, o+"."+f.Name()+" in "+fnName(in.Parent()))
		if !v.has(w) {
			e.Violation(st, o+"."+f.Name()+"/"+fnName(in.Parent()), in, "%s.%s is not set from %s", o, f.Name(), w)
		}
	}
	c.Explore(r, paramLabels, entries, pk...)
}

// checkAckDelete (C05).
func checkAckDelete(c *Ctx) {
	c.Rule("Account.Delete is reached from a session only for an Acknowledge request, for the session's own identity, with the identifier of the message in flight under the acknowledged tag")
	c.Rule("an acknowledged tag's slot is emptied before the tag is returned, and the tag is returned once; a message is pushed only after it was recorded under its tag")
	c.Rule("inside package account files are removed only by Delete, in the cache of the identity it was given")
	ack := c.rpcConst("TaggedCmdAcknowledge")
	r := c.sessionRule("ackdelete")
	push := c.rpcConst("TaggedCmdPush")
	r.Cmp = func(x *CmpCtx) []Out {
		a, b := x.X, x.Y
		if b.has("slot") {
			a, b = b, a
		}
		if a.has("slot") && b.K == Const && b.C == push && (x.Op == token.EQL || x.Op == token.NEQ) {
			return cmpFork(x, func(s *State, op token.Token) {
				if op == token.NEQ {
					// what is in flight is not a stored message
					s.Set("deleted", "1")
				}
			})
		}
		return cmdCmp(x)
	}
	isSlot := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isWrapper(s.Elem())
	}
	inner := r.FieldLab
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if isSlot(f.Type()) {
			return "slots"
		}
		if isWrapper2(owner, f) && v.has("slot") {
			return "inflight:" + f.Name()
		}
		return inner(owner, f, v)
	}
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if u, ok := in.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && isSlot(ia.X.Type()) {
				if e.val(st, ia.Index).has("w:Message.Tag") {
					v.Lab = labJoin(v.Lab, lab("slot"))
				}
			}
		}
		return v
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case fnAccDelete:
			e.Count("delete", fnName(x.Instr.Parent()))
			if st.Get("cmd") != ack {
				e.Violation(st, "delete/cmd", x.Instr, "a stored message is removed by a request that is not an acknowledge (%s)", st.Get("cmd"))
			}
			if !x.Args[1].has("kxid") {
				e.Violation(st, "delete/owner", x.Instr, "a stored message is removed from a mailbox that is not the session's own")
			}
			if !x.Args[2].has("slot") || x.Args[2].hasPfx("w:Ack") {
				e.Violation(st, "delete/id", x.Instr, "the removed message is not the one in flight under the acknowledged tag")
			}
			if st.Get("slot") == "empty" {
				e.Violation(st, "delete/order", x.Instr, "the slot was emptied before the message was removed")
			}
			return errFork(x, "Delete", nil, func(s *State) { s.Set("deleted", "1") }, func(s *State) { s.Set("deleted", "1") })
		case fnTagPush:
			if st.Get("inreq") == "1" {
				e.Count("tagpush", fnName(x.Instr.Parent()))
				if st.Get("cmd") != ack {
					e.Violation(st, "tag/cmd", x.Instr, "a push tag is returned by a request that is not an acknowledge")
				}
				if st.Get("slot") != "empty" {
					e.Violation(st, "tag/slot", x.Instr, "a push tag is returned while its slot still names the message: the next push finds the tag in use")
				}
				if st.Get("deleted") != "1" {
					e.Violation(st, "tag/deleted", x.Instr, "an acknowledged message is not removed from the mailbox: it is delivered again")
				}
				if st.Get("freed") != "" {
					e.Violation(st, "tag/twice", x.Instr, "the tag of one acknowledge is returned twice")
				}
				if !x.Args[1].has("w:Message.Tag") {
					e.Violation(st, "tag/value", x.Instr, "another tag than the acknowledged one is returned")
				}
				return errFork(x, "returning the tag", nil, func(s *State) { s.Set("freed", "1") }, nil)
			}
		case fnKxRead:
			if st.Get("inreq") == "1" && st.Get("cmd") == ack && st.Get("freed") != "1" {
				e.Violation(st, "tag/lost", x.Instr, "the tag of an acknowledged push is never returned: deliveries stall once all are lost")
			}
		}
		return c.sessionCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok || !isSlot(ia.X.Type()) {
			return
		}
		if st.Get("inreq") == "1" {
			if !e.val(st, ia.Index).has("w:Message.Tag") {
				e.Violation(st, "slot/index", in, "a slot other than the acknowledged tag's is changed")
			}
			if e.val(st, s.Val).is(Zero) {
				st.Set("slot", "empty")
			} else {
				st.Set("slot", "set")
			}
			e.Count("slot", "emptied in "+fnName(in.Parent()))
		}
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("delete", 1)
	c.Need("tagpush", 1)
	c.Need("slot", 1)

	// pushes
	c.pushRecorded()

	// who removes files in package account
	d := c.P.Func(fnAccDelete)
	if d == nil {
		c.Violation("anchor/delete", token.NoPos, "Account.Delete is gone")
		return
	}
	w := &Rule{ID: "remover", Event: callEvent("os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate")}
	w.NoInline = func(f *ssa.Function) bool { return !inPkg(f, "zkserver/account") }
	w.Call = func(x *CallCtx) []Out {
		switch x.Name {
		case "io/ioutil.TempFile", "os.CreateTemp":
			return errFork(x, "create", []AV{{K: NonZero, Lab: lab("newfile")}}, nil, nil)
		case "(*os.File).Name":
			return []Out{{Res: []AV{{Lab: x.Args[0].Lab}}}}
		case "os.Remove", "os.RemoveAll", "os.Truncate":
			if x.Args[0].has("newfile") {
				return nil
			}
			x.E.Count("remove", fnName(x.St.frames[0].fn))
			if x.St.frames[0].fn != d {
				x.E.Violation(x.St, "remover/"+fnName(x.St.frames[0].fn), x.Instr, "%s removes files of an account outside of Delete", fnName(x.St.frames[0].fn))
				return nil
			}
			if x.Name != "os.Remove" {
				x.E.Violation(x.St, "remover/all", x.Instr, "Delete may remove more than one message")
			}
			if !x.Args[0].has("param1") || !x.Args[0].has("param2") || !x.Args[0].has("s:cache") {
				x.E.Violation(x.St, "remover/path", x.Instr, "Delete does not remove the identified message in the cache of the given identity")
			}
			return errFork(x, "remove", nil, func(s *State) { s.Set("removed", "1") }, nil)
		}
		return stdCall(x)
	}
	w.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if st.frames[0].fn == d && len(ret) == 1 && !ret[0].nonzero() && st.Get("removed") != "1" {
			e.Violation(st, "delete/noop", in, "Delete reports success without having removed the message")
		}
	}
	c.Explore(w, paramLabels, nil, "zkserver/account")
	c.Need("remove", 1)
}

func isWrapper2(owner string, f *types.Var) bool {
	return strings.HasSuffix(owner, ".RPCWrapper") || f.Name() == "Identifier"
}

// pushRecorded: every push queued to a peer was recorded in the slot of its
// own tag, with the identifier of the stored message, before it is queued.
func (c *Ctx) pushRecorded() {
	isSlot := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isWrapper(s.Elem())
	}
	m := &Rule{ID: "pushrecorded", Event: anyEvent(sendEvent, callEvent(fnTagPopQuit, fnTagPop))}
	m.NoInline = apiNoInline(fnTagPopQuit, fnTagPop, fnTagPush)
	m.FieldLab = func(owner string, f *types.Var, v AV) string {
		if owner == "zkserver/account.Notification" {
			return "n:" + f.Name()
		}
		return ""
	}
	m.Call = func(x *CallCtx) []Out {
		if x.Name == fnTagPopQuit || x.Name == fnTagPop {
			return errFork(x, "obtaining a tag", []AV{{Lab: lab("ourtag")}}, func(s *State) { s.Set("rec", "") }, nil)
		}
		return stdCall(x)
	}
	chk := func(e *Engine, st *State, in ssa.Instruction) {
		sends(e, st, in, func(v AV, t types.Type) {
			_, tag, _, pay, _ := wrapperCells(e, st, v, t)
			if dynName(pay) != "rpc.Push" {
				return
			}
			e.Count("pushed", fnName(in.Parent()))
			if !tag.has("ourtag") {
				e.Violation(st, "push/tag", in, "a push is queued with a tag that was not obtained from the tag stack")
			}
			if st.Get("rec") != "1" {
				e.Violation(st, "push/unrecorded", in, "a push is queued before it was recorded under its tag: its acknowledge removes nothing or the wrong message")
			}
		})
	}
	m.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		switch s := in.(type) {
		case *ssa.Send:
			chk(e, st, in)
		case *ssa.Store:
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isSlot(ia.X.Type()) {
				return
			}
			v := e.val(st, s.Val)
			if v.is(Zero) {
				return
			}
			_, tag, _, pay, _ := wrapperCells(e, st, v, s.Val.Type())
			if dynName(pay) != "rpc.Push" {
				return
			}
			e.Count("recorded", fnName(in.Parent()))
			if !e.val(st, ia.Index).has("ourtag") || !tag.has("ourtag") {
				e.Violation(st, "record/tag", in, "a push is recorded under another tag than its own")
			}
			ok = false
			if v.Addr != nil {
				a := *v.Addr
				a.Path += ".Identifier"
				ok = e.loadCell(st, &a).has("n:Identifier")
			}
			if !ok {
				e.Violation(st, "record/id", in, "a push is recorded without the identifier of the stored message")
			}
			st.Set("rec", "1")
		}
	}
	m.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Select); ok {
			chk(e, st, in)
		}
	}
	c.Explore(m, nil, nil, "zkserver")
	c.Need("pushed", 1)
	c.Need("recorded", 1)
	// the identifier is the name of the file the message was read from
	c.carry("identifier", map[string]map[string]string{
		"zkserver/account.Notification": {"Identifier": "direntry"},
	}, func(p *Prog, in ssa.Instruction) bool {
		return storeTo(in, "zkserver/account.Notification")
	}, nil, nil, "zkserver/account")
}
