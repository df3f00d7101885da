package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", checkTeardown)
}

// checkTeardown (C09): however a session ends, all of it ends.
func checkTeardown(c *Ctx) {
	t := &teardown{c: c, p: c.P, closed: map[string]bool{}}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if ok && staticName(ci) == "builtin:close" {
					for _, n := range t.chanIDs(ci.Common().Args[0]) {
						t.closed[n] = true
						c.Count("closed channel", n)
					}
				}
			}
		}
	}
	t.server()
	t.serverConns()
	t.account()
	t.waits()
	t.client()
	t.clientConns()
	t.timers()
	c.Need("session teardown", 1)
	c.Need("account taken down", 1)
	c.Need("client teardown", 1)
	c.Need("connection owner", 4)
	c.Need("blocking operation", 8)
}

type teardown struct {
	c      *Ctx
	p      *Prog
	closed map[string]bool // channels closed somewhere
}

// chanIDs names the channels a value can be.
func (t *teardown) chanIDs(v ssa.Value) []string {
	m := map[string]bool{}
	for _, o := range t.p.origins(v, nil) {
		switch o.Kind {
		case "field", "global":
			m[o.Kind+" "+o.Name] = true
		case "make":
			if _, ok := o.V.(*ssa.MakeChan); ok {
				m["made at "+t.c.P.pos(o.V.Pos())] = true
			}
		case "const":
		default:
			m[o.Kind+" "+o.Name] = true
		}
	}
	return sortedKeys(m)
}

func isSignal(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := ch.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func isTick(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && typeName(ch.Elem()) == "time.Time"
}

// quitIDs: the channels ending a wait on v, when all it can be are channels
// that are closed somewhere.
func (t *teardown) quitIDs(v ssa.Value) []string {
	if !isSignal(v.Type()) {
		return nil
	}
	ids := t.chanIDs(v)
	for _, n := range ids {
		if !t.closed[n] {
			return nil
		}
	}
	return ids
}

// sync lists what runs in f's goroutine because of f.
func (t *teardown) sync(f *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || m[f] {
			return
		}
		m[f] = true
		s, _ := t.p.syncCallees(f)
		for _, g := range s {
			if p := pkgOf(g); p != nil && isRepoPkg(p.Pkg) {
				walk(g)
			}
		}
	}
	walk(f)
	return m
}

func (t *teardown) syncHas(f *ssa.Function, ev func(p *Prog, in ssa.Instruction) bool) bool {
	for g := range t.sync(f) {
		if hasEvent(t.p, g, ev) {
			return true
		}
	}
	return false
}

// needs: the channels the goroutine f waits on to be told to end.
func (t *teardown) needs(f *ssa.Function) []string {
	m := map[string]bool{}
	for g := range t.sync(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.RecvOnly {
							for _, n := range t.quitIDs(s.Chan) {
								m[n] = true
							}
						}
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						for _, n := range t.quitIDs(in.X) {
							m[n] = true
						}
					}
				}
			}
		}
	}
	return sortedKeys(m)
}

func isNetConn(t types.Type) bool {
	n := typeName(deref(t))
	return n == "net.Conn" || n == "crypto/tls.Conn" || n == "net.TCPConn"
}

func closesConn(n string) bool {
	switch n {
	case "(net.Conn).Close", "net.Conn.Close", "(*crypto/tls.Conn).Close", "(*net.TCPConn).Close", "(io.Closer).Close":
		return true
	}
	return false
}

func connEvent(p *Prog, in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := staticName(ci)
	return closesConn(n) || n == fnKxClose
}

// abnormal: the process ends or the goroutine panics.
func abnormal(st *State) bool { return st.Get("exit") == "panic" || st.Get("exit") == "fatal" }

// ---- server ----

func isChanDelete(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	return ok && staticName(ci) == "builtin:delete" && isSessionMap(ci.Common().Args[0].Type())
}

// started records which channels have to be closed for what a go statement
// starts.
func (t *teardown) started(x *CallCtx) {
	if x.Callee == nil {
		return
	}
	for _, n := range t.needs(x.Callee) {
		x.St.Set("need "+n, "1")
		x.E.Count("goroutine told to end", fnName(x.Callee)+" by "+n)
	}
}

func (t *teardown) closing(x *CallCtx) {
	for _, n := range t.chanIDs(x.Instr.Common().Args[0]) {
		x.St.Set("closed "+n, "1")
		x.St.Set("need "+n, "")
	}
}

// stillNeeded lists channels a goroutine of the session still waits on.
func stillNeeded(st *State) []string {
	var r []string
	for k := range st.auto {
		if strings.HasPrefix(k, "need ") && st.Get("closed "+k[5:]) != "1" {
			r = append(r, k[5:])
		}
	}
	return r
}

func (t *teardown) server() {
	c := t.c
	c.Rule("on every path of every zkserver goroutine that took an account online: before it ends the account is taken offline, every channel its goroutines wait on is closed, and the session is taken off the list, unless the listing is found to belong to a session that replaced it")
	c.Rule("a session is waited on for a limited time only: a read deadline is set anew before each message is read; a listed session that a new login takes off the list is closed")
	r := &Rule{ID: "teardown"}
	r.Event = anyEvent(callEvent(fnOnline, fnOffline, fnKxRead, fnKxClose), func(p *Prog, in ssa.Instruction) bool {
		if isChanDelete(in) {
			return true
		}
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return isSessionMap(in.Map.Type())
		case *ssa.Go:
			return in.Common().StaticCallee() != nil && len(t.needs(in.Common().StaticCallee())) > 0
		case ssa.CallInstruction:
			return staticName(in) == "builtin:close"
		}
		return false
	})
	r.NoInline = apiNoInline(fnRespond, fnDisabled, fnEnabled, fnOnline, fnOffline, fnKxRead, fnKxWrite, fnKxClose, fnTheirID,
		fnDeliver, fnAccDelete, fnAccPush, fnAccPull, fnAccFind, fnAccCreate, "(*session.KX).SetReadDeadline")
	deadline := func(x *CallCtx, a AV) {
		if a.has("now") {
			x.St.Set("dl", "1")
		} else {
			x.St.Set("dl", "")
		}
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case "time.Now":
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("now")}}}}
		case "(time.Time).Add":
			if x.Args[0].has("now") {
				return []Out{{Res: []AV{{K: NonZero, Lab: lab("now")}}}}
			}
		case fnTheirID:
			return []Out{{Res: []AV{{Lab: lab("kxid")}}}}
		case fnOnline:
			pos := x.Pos()
			return errFork(x, "taking the account online", nil, func(s *State) {
				s.Set("on", "1")
				s.Set("off", "")
				s.Set("dl", "")
			}, func(s *State) { s.Set("tried", "1"); s.Note(pos, "it is online already") })
		case fnOffline:
			if st.Get("on") == "1" && x.Args[1].has("kxid") {
				st.Set("on", "")
				st.Set("off", "1")
				st.Note(x.Pos(), "the account is taken offline")
			}
			return []Out{{}}
		case "(*session.KX).SetReadDeadline":
			deadline(x, x.Args[1])
			return []Out{{}}
		case "(net.Conn).SetReadDeadline", "net.Conn.SetReadDeadline", "(net.Conn).SetDeadline", "net.Conn.SetDeadline":
			deadline(x, x.Args[len(x.Args)-1])
			return []Out{{Res: []AV{{}}}}
		case fnKxRead:
			if st.Get("on") == "1" {
				e.Count("limited wait", fnName(x.Instr.Parent()))
				if st.Get("dl") != "1" {
					e.Violation(st, "wait/"+fnName(x.Instr.Parent()), x.Instr,
						"a session waits for its next message without a time limit set since the last: a peer that is gone keeps the account online")
				}
			}
			return errFork(x, "session read", []AV{{Lab: lab("wire")}}, func(s *State) { s.Set("dl", ""); s.tr = nil }, nil)
		case fnKxClose:
			if !x.InDefer && st.Get("on") == "" {
				st.Set("oldclosed", "1")
			}
			return []Out{{}}
		case "builtin:close":
			t.closing(x)
			return []Out{{Res: []AV{{}}}}
		case "builtin:delete":
			if !isSessionMap(x.Instr.Common().Args[0].Type()) {
				return nil
			}
			if st.Get("listed") == "1" {
				if st.Get("off") == "1" && st.Get("own") != "1" {
					e.Violation(st, "successor/"+fnName(x.Instr.Parent()), x.Instr,
						"the account is offline already and the session is taken off the list without it having been found its own: it takes the session that replaced it off the list")
				}
				st.Set("listed", "")
			} else {
				st.Set("unlisted", "1")
			}
			return []Out{{Res: []AV{{}}}}
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			st.Set("own", "")
		}
		return nil
	}
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		if !isSessionMap(in.X.Type()) {
			return nil
		}
		hit := AV{K: NonZero, Lab: lab("sess")}
		miss := func(s *State) {
			s.Set("listed", "")
		}
		found := func(s *State) {
			if s.Get("tried") == "1" {
				s.Set("unlisted", "1")
			}
		}
		if !in.CommaOk {
			return []Out{{Res: []AV{hit}, Do: found}, {Res: []AV{{K: Zero, Lab: lab("sess")}}, Do: miss}}
		}
		return []Out{{Res: []AV{hit, avTrue}, Do: found}, {Res: []AV{{K: Zero, Lab: lab("sess")}, avFalse}, Do: miss}}
	}
	r.Cmp = func(x *CmpCtx) []Out {
		a, b := x.X, x.Y
		if b.has("sess") {
			a, b = b, a
		}
		if !a.has("sess") || b.has("sess") || b.is(Zero) || a.is(Zero) || !isSessionPtr(x.In.X.Type()) {
			return nil
		}
		return cmpFork(x, func(s *State, op token.Token) {
			switch op {
			case token.EQL:
				s.Set("own", "1")
			case token.NEQ:
				s.Set("listed", "")
			}
		})
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if m, ok := in.(*ssa.MapUpdate); ok && isSessionMap(m.Map.Type()) {
			st.Set("listed", "1")
			st.Set("own", "")
			st.Note(in.Pos(), "the session is listed")
		}
	}
	r.OnGo = t.started
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if abnormal(st) {
			return
		}
		w := fnName(in.Parent())
		if st.Get("off") == "1" {
			e.Count("session teardown", w)
		}
		if st.Get("on") == "1" {
			e.Violation(st, "online/"+w, in, "a session ends and its account stays online: the user can not connect again")
		}
		if st.Get("listed") == "1" {
			e.Violation(st, "listed/"+w, in, "a session ends and stays on the list of sessions")
		}
		if st.Get("unlisted") == "1" && st.Get("oldclosed") != "1" {
			e.Violation(st, "replaced/"+w, in, "the session a new login replaces is not closed: it keeps the account online")
		}
		for _, n := range stillNeeded(st) {
			e.Violation(st, "goroutine/"+n+"/"+w, in, "a session ends and its goroutines are never told: %s is not closed", n)
		}
	}
	c.Explore(r, nil, nil, "zkserver")
}

// serverConns: every accepted connection is served or closed, and whoever
// serves it closes it.
func (t *teardown) serverConns() {
	c := t.c
	c.Rule("an accepted connection is handed to a goroutine or closed before the next is accepted; every goroutine that is given a connection closes it however it ends")
	var entries []*ssa.Function
	for f := range t.p.goed {
		if !inPkg(f, "zkserver") || f.Blocks == nil {
			continue
		}
		for _, p := range f.Params {
			if isNetConn(p.Type()) {
				entries = append(entries, f)
				break
			}
		}
		for _, p := range f.FreeVars {
			if isNetConn(deref(p.Type())) {
				entries = append(entries, f)
				break
			}
		}
	}
	sortFns(entries)
	r := &Rule{ID: "served"}
	r.Event = anyEvent(connEvent, callEvent(fnRespond))
	r.NoInline = apiNoInline(fnRespond, fnOnline, fnOffline, fnKxRead, fnKxWrite, fnKxClose, fnDeliver)
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if u, ok := in.(*ssa.UnOp); ok {
			if fv, ok := u.X.(*ssa.FreeVar); ok && isNetConn(deref(fv.Type())) {
				return v.with("conn")
			}
		}
		return v
	}
	r.Call = func(x *CallCtx) []Out {
		switch {
		case x.Name == fnKxClose:
			if x.Args[0].Addr != nil && !x.Args[0].Addr.Heap {
				x.St.Set("closed", "1")
			}
			return []Out{{}}
		case closesConn(x.Name):
			if x.Args[0].has("conn") {
				x.St.Set("closed", "1")
			}
			return []Out{{Res: []AV{{}}}}
		}
		return nil
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if abnormal(st) {
			return
		}
		e.Count("connection owner", fnName(in.Parent()))
		if st.Get("closed") != "1" {
			e.Violation(st, "conn/"+fnName(in.Parent()), in, "the goroutine serving a connection ends without closing it")
		}
	}
	c.Explore(r, func(st *State, f *ssa.Function) {
		for _, p := range f.Params {
			if isNetConn(p.Type()) {
				st.vals[VKey{0, p}] = st.vals[VKey{0, p}].with("conn")
			}
		}
	}, entries)

	isAccept := func(n string) bool { return strings.HasSuffix(n, ".Accept") || strings.HasSuffix(n, ".AcceptTCP") }
	r = &Rule{ID: "accepted"}
	r.Event = anyEvent(connEvent, func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isAccept(staticName(ci))
	})
	r.NoInline = apiNoInline(fnRespond, fnKxClose)
	lost := func(e *Engine, st *State, in ssa.Instruction) {
		if st.Get("acc") == "1" {
			st.Set("acc", "")
			e.Violation(st, "accepted/"+fnName(in.Parent()), in, "an accepted connection is neither served nor closed")
		}
	}
	r.Call = func(x *CallCtx) []Out {
		switch {
		case isAccept(x.Name):
			lost(x.E, x.St, x.Instr)
			x.E.Count("connection owner", "accept in "+fnName(x.Instr.Parent()))
			return errFork(x, "accept", []AV{{K: NonZero, Lab: lab("acc")}}, func(s *State) { s.Set("acc", "1") }, func(s *State) { s.tr = nil })
		case closesConn(x.Name):
			if x.Args[0].has("acc") {
				x.St.Set("acc", "")
			}
			return []Out{{Res: []AV{{}}}}
		}
		return nil
	}
	r.OnGo = func(x *CallCtx) {
		l := ""
		for _, a := range x.Args {
			l += x.E.deepLab(x.St, a)
		}
		if f := x.E.val(x.St, x.Instr.Common().Value).Fn; f != nil {
			for _, a := range f.Bind {
				l += x.E.deepLab(x.St, a)
			}
		}
		if strings.Contains(l, ",acc,") {
			x.St.Set("acc", "")
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if !abnormal(st) {
			lost(e, st, in)
		}
	}
	var acc []*ssa.Function
	for _, f := range t.p.eventFuncs(func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isAccept(staticName(ci))
	}, "zkserver") {
		acc = append(acc, f)
	}
	c.Explore(r, nil, t.p.climb(acc, func(f *ssa.Function) bool { return t.p.goed[f] }, "zkserver"))
}

// isOnlineMap: from an identity to what is kept while it is online.
func isOnlineMap(x types.Type) bool {
	m, ok := x.Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := deref(m.Elem()).Underlying().(*types.Struct)
	if !ok || isSessionPtr(m.Elem()) {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isSignal(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (t *teardown) account() {
	c := t.c
	c.Rule("an account that is taken offline is no longer online and its delivery goroutine is told to end, once; an account is only taken online when it is not, together with a delivery goroutine")
	r := &Rule{ID: "account"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return isOnlineMap(in.Map.Type())
		case ssa.CallInstruction:
			n := staticName(in)
			return n == "builtin:close" || n == "builtin:delete" && isOnlineMap(in.Common().Args[0].Type())
		}
		return false
	}
	needs := map[string]bool{}
	for f := range t.p.goed {
		if inPkg(f, "zkserver/account") {
			for _, n := range t.needs(f) {
				needs[n] = true
			}
		}
	}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if isSignal(f.Type()) {
			return "field " + owner + "." + f.Name()
		}
		return ""
	}
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		if !isOnlineMap(in.X.Type()) {
			return nil
		}
		hit, miss := AV{Lab: lab("entry")}, AV{K: Zero}
		if _, ok := in.X.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Pointer); ok {
			hit.K = NonZero
		}
		yes := func(s *State) { s.Set("found", "yes"); s.Note(in.Pos(), "the account is online") }
		no := func(s *State) { s.Set("found", "no"); s.Note(in.Pos(), "the account is not online") }
		if !in.CommaOk {
			return []Out{{Res: []AV{hit}, Do: yes}, {Res: []AV{miss}, Do: no}}
		}
		return []Out{{Res: []AV{hit, avTrue}, Do: yes}, {Res: []AV{miss, avFalse}, Do: no}}
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case "builtin:close":
			ids := t.chanIDs(x.Instr.Common().Args[0])
			for _, n := range ids {
				if strings.HasPrefix(n, "field ") && needs[n] {
					if st.Get("found") == "no" || st.Get("closed "+n) == "1" {
						e.Violation(st, "close/"+fnName(x.Instr.Parent()), x.Instr, "the channel of an account that is not online, or that was told already, is closed: this panics")
					}
				}
				st.Set("closed "+n, "1")
			}
			return []Out{{Res: []AV{{}}}}
		case "builtin:delete":
			if isOnlineMap(x.Instr.Common().Args[0].Type()) {
				st.Set("deleted", "1")
				if st.Get("found") == "" {
					// whatever was there
					st.Set("found", "yes")
				}
				return []Out{{Res: []AV{{}}}}
			}
		}
		return nil
	}
	gone := func(st *State) bool {
		for n := range needs {
			if st.Get("closed "+n) != "1" {
				return false
			}
		}
		return true
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		m, ok := in.(*ssa.MapUpdate)
		if !ok || !isOnlineMap(m.Map.Type()) {
			return
		}
		w := fnName(in.Parent())
		e.Count("account taken online", w)
		if st.Get("found") != "no" && !(gone(st) && st.Get("found") == "yes") {
			e.Violation(st, "replace/"+w, in, "an account is taken online that was not found offline: what was online is forgotten and never told to end")
		}
		st.Set("stored", "1")
		st.Set("found", "")
	}
	r.OnGo = func(x *CallCtx) {
		if x.Callee != nil && len(t.needs(x.Callee)) > 0 {
			x.St.Set("started", "1")
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if abnormal(st) {
			return
		}
		w := fnName(in.Parent())
		if st.Get("stored") == "1" {
			if st.Get("started") != "1" && st.Get("deleted") != "1" {
				e.Violation(st, "delivery/"+w, in, "an account is taken online without anything delivering its messages")
			}
			return
		}
		if st.Get("deleted") == "1" && st.Get("found") == "yes" {
			e.Count("account taken down", w)
			if !gone(st) {
				e.Violation(st, "untold/"+w, in, "an account is taken offline and its delivery goroutine is not told to end")
			}
		}
		if gone(st) && st.Get("deleted") != "1" {
			e.Violation(st, "kept/"+w, in, "the delivery goroutine of an account is told to end and the account stays online")
		}
		if w == fnOffline && st.Get("found") == "yes" && st.Get("deleted") != "1" {
			e.Violation(st, "offline/"+w, in, "an online account is not taken offline")
		}
	}
	if len(needs) == 0 {
		c.Violation("told", token.NoPos, "no goroutine of the account package waits for the account to go offline")
		return
	}
	c.Explore(r, nil, nil, "zkserver/account")
}

// waits: nothing of a session waits for a part of it that may be gone.
func (t *teardown) waits() {
	c := t.c
	c.Rule("every blocking select that runs in a session includes a channel that is closed when the session ends, or a timer; every plain receive is of such a channel; a plain send is made by the goroutine that ends the session only, to a channel that one goroutine keeps receiving from until the session ended; or into the room of a channel nobody else has yet")
	// what runs on behalf of a session
	run := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if run[f] {
			return
		}
		run[f] = true
		s, a := t.p.syncCallees(f)
		for _, g := range append(s, a...) {
			if p := pkgOf(g); p != nil && isRepoPkg(p.Pkg) {
				walk(g)
			}
		}
		// closures started with go
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for f := range t.p.threadsOf(t.p.eventFuncs(callEvent(fnKxRead, fnOnline), "zkserver")) {
		if inPkg(f, "zkserver") && f.Name() != "main" {
			walk(f)
		}
	}
	drains := map[string]map[*ssa.Function]*ssa.Send{}
	for _, f := range t.p.Funcs {
		if !run[f] || !inPkg(f, "zkserver", "zkserver/account", "tagstack") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Select:
					if !in.Blocking {
						continue
					}
					c.Count("blocking operation", c.P.pos(in.Pos()))
					ok := false
					for _, s := range in.States {
						if s.Dir == types.RecvOnly && (isTick(s.Chan.Type()) || len(t.quitIDs(s.Chan)) > 0) {
							ok = true
						}
					}
					if !ok {
						c.Violation("select/"+fnName(f), in.Pos(), "%s waits on channels none of which is closed when the session ends", fnName(f))
					}
				case *ssa.UnOp:
					if in.Op != token.ARROW {
						continue
					}
					if fnName(f) == fnTagPop {
						continue // below
					}
					c.Count("blocking operation", c.P.pos(in.Pos()))
					if !isTick(in.X.Type()) && len(t.quitIDs(in.X)) == 0 {
						c.Violation("receive/"+fnName(f), in.Pos(), "%s waits for a channel that is not closed when the session ends", fnName(f))
					}
				case *ssa.Send:
					if inPkg(f, "tagstack") {
						continue // C05: a tag is only ever put back once, there is room
					}
					c.Count("blocking operation", c.P.pos(in.Pos()))
					if t.p.freshSend(in) {
						continue
					}
					ids := t.chanIDs(in.Chan)
					if len(ids) == 0 {
						ids = []string{"unknown"}
					}
					for _, n := range ids {
						if drains[n] == nil {
							drains[n] = map[*ssa.Function]*ssa.Send{}
						}
						drains[n][f] = in
					}
				}
			}
		}
	}
	for n, m := range drains {
		ends := map[string]bool{}
		for _, g := range t.drained(n) {
			for _, q := range t.needs(g) {
				ends[q] = true
			}
		}
		// only whoever ends the session may rely on it
		for f, in := range m {
			for g := range t.p.threadsOf([]*ssa.Function{f}, "zkserver", "zkserver/account") {
				if !t.syncHas(g, func(p *Prog, in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || staticName(ci) != "builtin:close" {
						return false
					}
					for _, q := range t.chanIDs(ci.Common().Args[0]) {
						if ends[q] {
							return true
						}
					}
					return false
				}) {
					c.Violation("send/"+fnName(f)+"/"+fnName(g), in.Pos(),
						"%s sends on a channel that is no longer received from when the session ended, in a goroutine that does not end it: it waits for ever", fnName(g))
				}
			}
		}
	}

	// a tag is only waited for until the session ends
	for f := range run {
		if !inPkg(f, "zkserver") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && staticName(ci) == fnTagPop {
					c.Violation("tag/"+fnName(f), in.Pos(), "%s waits for a tag even after the session ended", fnName(f))
				}
			}
		}
	}
	if pq := t.p.Func(fnTagPopQuit); pq != nil {
		r := &Rule{ID: "popquit", InlineAll: true}
		r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
			if f := a.field(); f != nil && a.Owner == "tagstack.TagStack" && f.Type().String() == "bool" {
				return avTrue // the stacks of the server block
			}
			return v
		}
		r.Event = func(p *Prog, in ssa.Instruction) bool {
			u, ok := in.(*ssa.UnOp)
			return ok && u.Op == token.ARROW
		}
		r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
			if r.Event(t.p, in) && len(t.quitIDs(in.(*ssa.UnOp).X)) == 0 {
				e.Violation(st, "tag/"+fnName(in.Parent()), in, "waiting for a tag of a stack that blocks does not end with the session")
			}
		}
		c.Explore(r, nil, []*ssa.Function{pq})
	}
}

func setOf(fs []*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return m
}

// threadsOf: the goroutines the functions run in.
func (p *Prog) threadsOf(fs []*ssa.Function, pk ...string) map[*ssa.Function]bool {
	m := p.threads(setOf(fs), pk...)
	for _, f := range fs {
		if p.goed[f] || p.isRoot(f) {
			m[f] = true
		}
	}
	return m
}

// freshSend: the first send into a buffered channel made by the same
// function, before anything else can have it.
func (p *Prog) freshSend(in *ssa.Send) bool {
	os := p.origins(in.Chan, nil)
	if len(os) == 0 {
		return false
	}
	fs := map[*ssa.Function]bool{}
	for _, o := range os {
		mc, ok := o.V.(*ssa.MakeChan)
		if !ok {
			if o.Kind == "field" {
				for _, s := range p.fieldStores(o.Name) {
					if m, ok := s.Val.(*ssa.MakeChan); ok && m.Parent() == in.Parent() {
						mc = m
					}
				}
			}
			if mc == nil {
				return false
			}
		}
		if n, ok := mc.Size.(*ssa.Const); !ok || n.Value == nil || n.Int64() < 1 || mc.Parent() != in.Parent() {
			return false
		}
		fs[mc.Parent()] = true
	}
	// backwards from the send
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for ; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.MapUpdate, *ssa.Go, *ssa.Send:
				return false
			case *ssa.Select:
				return false
			case *ssa.Store:
				if isGlobal(x.Addr) {
					return false
				}
			}
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				if !back(q, len(q.Instrs)-1) {
					return false
				}
			}
		}
		return true
	}
	i := 0
	for k, x := range in.Block().Instrs {
		if x == ssa.Instruction(in) {
			i = k
		}
	}
	return back(in.Block(), i-1)
}

func isGlobal(v ssa.Value) bool {
	_, ok := v.(*ssa.Global)
	return ok
}

// drained: some goroutine receives from the channel until the session ended.
func (t *teardown) drained(id string) []*ssa.Function {
	c := t.c
	has := func(v ssa.Value) bool {
		for _, n := range t.chanIDs(v) {
			if n == id {
				return true
			}
		}
		return false
	}
	var cons []*ssa.Function
	for _, f := range t.p.Funcs {
		if hasEvent(t.p, f, func(p *Prog, in ssa.Instruction) bool {
			switch in := in.(type) {
			case *ssa.Select:
				for _, s := range in.States {
					if s.Dir == types.RecvOnly && has(s.Chan) {
						return true
					}
				}
			case *ssa.UnOp:
				return in.Op == token.ARROW && has(in.X)
			}
			return false
		}) {
			cons = append(cons, f)
		}
	}
	var entries []*ssa.Function
	for f := range t.p.threadsOf(cons) {
		if t.p.goed[f] {
			entries = append(entries, f)
		}
	}
	sortFns(entries)
	if len(entries) == 0 {
		c.Violation("drain/"+id, token.NoPos, "%s is sent to by a session and no goroutine receives from it", id)
		return nil
	}
	r := &Rule{ID: "drain"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Select:
			return true
		case *ssa.UnOp:
			return in.Op == token.ARROW
		}
		return false
	}
	r.NoInline = func(f *ssa.Function) bool { return !inPkg(f, "zkserver", "zkserver/account", "tagstack") }
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Select:
			if !in.Blocking {
				return
			}
			for _, s := range in.States {
				if s.Dir == types.RecvOnly && has(s.Chan) {
					return
				}
			}
			e.Violation(st, "drain/"+id+"/"+fnName(in.Parent()), in, "the goroutine that %s depends on waits for something else: nothing receives what the session sends meanwhile", id)
		case *ssa.UnOp:
			if in.Op == token.ARROW && !has(in.X) && st.Get("quit") != "1" {
				e.Violation(st, "drain/"+id+"/"+fnName(in.Parent()), in, "the goroutine that %s depends on waits for something else: nothing receives what the session sends meanwhile", id)
			}
		}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.Select:
			i, err := strconv.Atoi(st.Get("select"))
			if err == nil && i >= 0 && i < len(in.States) && in.States[i].Dir == types.RecvOnly && len(t.quitIDs(in.States[i].Chan)) > 0 {
				st.Set("quit", "1")
				st.Note(in.Pos(), "the session has ended")
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW && len(t.quitIDs(in.X)) > 0 {
				st.Set("quit", "1")
			}
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		e.Count("drained until the end", id+" by "+fnName(in.Parent()))
		if !abnormal(st) && st.Get("quit") != "1" {
			e.Violation(st, "drainend/"+id+"/"+fnName(in.Parent()), in,
				"the goroutine receiving from %s ends before the session did: the session waits for ever and its account stays online", id)
		}
	}
	c.Explore(r, nil, entries)
	return entries
}

// ---- client ----

func dials(n string) bool {
	switch n {
	case "crypto/tls.DialWithDialer", "crypto/tls.Dial", "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "(*crypto/tls.Dialer).Dial", "(*crypto/tls.Dialer).DialContext":
		return true
	}
	return false
}

func dialEvent(p *Prog, in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	return ok && dials(staticName(ci))
}

// onlineFlags: the boolean fields set by whoever installs the session's key
// exchange.
func (t *teardown) onlineFlags() map[string]bool {
	m := map[string]bool{}
	for _, f := range t.p.Funcs {
		if !inPkg(f, "zkclient") {
			continue
		}
		flags, kx := map[string]*ssa.BasicBlock{}, []*ssa.BasicBlock{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				o, fl := staticField(s.Addr)
				if fl == nil || !strings.HasPrefix(o, "zkclient.") {
					continue
				}
				k, isC := s.Val.(*ssa.Const)
				if typeName(deref(fl.Type())) == "session.KX" && !(isC && k.Value == nil) {
					kx = append(kx, b)
				}
				if fl.Type().String() == "bool" && isC && k.Value != nil && k.Value.String() == "true" {
					flags[o+"."+fl.Name()] = b
				}
			}
		}
		for n, b := range flags {
			for _, k := range kx {
				if b.Dominates(k) || k.Dominates(b) {
					m[n] = true
				}
			}
		}
	}
	return m
}

func (t *teardown) handlers() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for f := range t.p.goed {
		if inPkg(f, "zkclient") && t.syncHas(f, callEvent(fnKxRead)) && !t.syncHas(f, callEvent(fnInitiate)) {
			m[f] = true
		}
	}
	return m
}

func (t *teardown) client() {
	c := t.c
	c.Rule("on every path of the client goroutine that reads from the server: before it ends the client is marked offline, the connection closed, its goroutines told to end and waited for, and a goroutine that connects again is started; every goroutine that is waited for reports its end however it ends")
	flags := t.onlineFlags()
	var entries []*ssa.Function
	for f := range t.handlers() {
		entries = append(entries, f)
	}
	sortFns(entries)
	isWG := func(n, m string) bool { return n == "(*sync.WaitGroup)."+m }
	r := &Rule{ID: "clientend"}
	onlineStore := func(in ssa.Instruction) (*ssa.Store, bool) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil, false
		}
		o, fl := staticField(s.Addr)
		return s, fl != nil && flags[o+"."+fl.Name()]
	}
	r.Event = anyEvent(callEvent(fnKxRead, fnKxClose, "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Wait", "builtin:close"), func(p *Prog, in ssa.Instruction) bool {
		if _, ok := onlineStore(in); ok {
			return true
		}
		g, ok := in.(*ssa.Go)
		return ok && g.Common().StaticCallee() != nil && (len(t.needs(g.Common().StaticCallee())) > 0 || t.syncHas(g.Common().StaticCallee(), dialEvent))
	})
	onlyThese := map[*ssa.Function]bool{}
	for _, f := range entries {
		// the messages themselves are of no interest here
		onlyThese[f] = true
		for g := f; g != nil; g = g.Parent() {
			onlyThese[g] = true
		}
	}
	r.NoInline = func(f *ssa.Function) bool {
		return !inPkg(f, "zkclient") || fnName(f) == fnKxRead || t.syncHas(f, callEvent("(*tagstack.TagStack).Pop", "(*tagstack.TagStack).Push"))
	}
	wait := func(x *CallCtx) {
		st := x.St
		st.Set("waited", "1")
		for _, n := range stillNeeded(st) {
			x.E.Violation(st, "wait/"+n, x.Instr, "the end of a goroutine is waited for that was not told to end: %s is not closed yet", n)
		}
		if n, _ := strconv.Atoi(st.Get("added")); n > 0 {
			x.E.Violation(st, "waitfor/"+fnName(x.Instr.Parent()), x.Instr, "more goroutines are waited for than were started")
		}
	}
	r.Call = func(x *CallCtx) []Out {
		st := x.St
		switch {
		case x.Name == fnKxRead:
			return errFork(x, "session read", []AV{{}}, func(s *State) { s.tr = nil }, nil)
		case x.Name == fnKxClose:
			st.Set("kxclosed", "1")
			return []Out{{}}
		case x.Name == "builtin:close":
			t.closing(x)
			return []Out{{Res: []AV{{}}}}
		case isWG(x.Name, "Add"):
			n, ok := intOf(x.Args[1])
			if !ok {
				n = 1
			}
			if k, _ := strconv.Atoi(st.Get("added")); k < 8 {
				st.Set("added", strconv.Itoa(k+int(n)))
			}
			return []Out{{}}
		case isWG(x.Name, "Wait"):
			wait(x)
			return []Out{{}}
		}
		return nil
	}
	r.OnGo = func(x *CallCtx) {
		if x.Callee == nil {
			return
		}
		t.started(x)
		if t.syncHas(x.Callee, callEvent("(*sync.WaitGroup).Done")) {
			if k, _ := strconv.Atoi(x.St.Get("added")); k > 0 {
				x.St.Set("added", strconv.Itoa(k-1))
				if k == 1 {
					x.St.Set("added", "")
				}
			} else {
				x.E.Violation(x.St, "unadded/"+fnName(x.Callee), x.Instr, "a goroutine that reports its end is started without being counted: its end is not waited for")
			}
		}
		if len(t.needs(x.Callee)) > 0 {
			x.St.Set("child", "1")
		}
		if t.syncHas(x.Callee, dialEvent) {
			x.St.Set("retry", "1")
			if x.St.Get("off") != "1" {
				x.E.Violation(x.St, "early/"+fnName(x.Instr.Parent()), x.Instr, "the client connects again while it still considers itself online")
			}
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if s, ok := onlineStore(in); ok {
			if e.val(st, s.Val).is(Zero) {
				st.Set("off", "1")
			} else {
				st.Set("off", "")
			}
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if abnormal(st) {
			return
		}
		w := fnName(in.Parent())
		e.Count("client teardown", w)
		for _, k := range [][2]string{
			{"off", "the client still considers itself online"},
			{"kxclosed", "its connection is not closed"},
			{"retry", "nothing tries to connect again"},
		} {
			if st.Get(k[0]) != "1" {
				e.Violation(st, k[0]+"/"+w, in, "the session ends and %s", k[1])
			}
		}
		if st.Get("child") == "1" && st.Get("waited") != "1" {
			e.Violation(st, "waited/"+w, in, "the session ends and its goroutines are not waited for: they use the session that follows")
		}
		for _, n := range stillNeeded(st) {
			e.Violation(st, "goroutine/"+n, in, "the session ends and its goroutines are never told: %s is not closed", n)
		}
	}
	c.Explore(r, nil, entries)

	// who is waited for
	var done []*ssa.Function
	for f := range t.p.goed {
		if inPkg(f, "zkclient", "zkserver", "session") && t.syncHas(f, callEvent("(*sync.WaitGroup).Done")) {
			done = append(done, f)
		}
	}
	sortFns(done)
	if len(done) == 0 {
		return
	}
	d := &Rule{ID: "reported"}
	d.Event = callEvent("(*sync.WaitGroup).Done")
	d.NoInline = func(f *ssa.Function) bool { return !t.syncHas(f, callEvent("(*sync.WaitGroup).Done")) }
	d.Call = func(x *CallCtx) []Out {
		if x.Name == "(*sync.WaitGroup).Done" {
			if x.St.Get("done") == "1" {
				x.E.Violation(x.St, "twice/"+fnName(x.Instr.Parent()), x.Instr, "a goroutine reports its end twice: this panics or ends the wait early")
			}
			x.St.Set("done", "1")
			return []Out{{}}
		}
		return nil
	}
	d.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		e.Count("reports its end", fnName(in.Parent()))
		if !abnormal(st) && st.Get("done") != "1" {
			e.Violation(st, "reported/"+fnName(in.Parent()), in, "a goroutine that is waited for ends without saying so: the session never finishes ending")
		}
	}
	c.Explore(d, nil, done)
}

// clientConns: every connection made is closed or taken over by a session.
func (t *teardown) clientConns() {
	c := t.c
	c.Rule("on every path a connection the client made is closed, kept by a window that asks about it, or taken over by the goroutine that reads from the server; the client does not stay marked online unless that goroutine was started; a window that was given a connection does not leave it open when it goes away")
	flags := t.onlineFlags()
	handlers := t.handlers()
	if len(flags) == 0 || len(handlers) == 0 {
		c.Violation("client", token.NoPos, "no client goroutine reads from the server, or none marks it online")
		return
	}
	returnsConn := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isNetConn(rs.At(i).Type()) {
				return true
			}
		}
		return false
	}
	ownerOf := func(f *ssa.Function) bool {
		if f.Signature.Recv() == nil {
			return false
		}
		s, ok := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if isNetConn(s.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	entries := t.p.climb(t.p.eventFuncs(dialEvent, "zkclient"), func(f *ssa.Function) bool { return !returnsConn(f) }, "zkclient")
	windows := map[*ssa.Function]bool{}
	for _, f := range t.p.Funcs {
		if inPkg(f, "zkclient") && f.Name() == "KeyHandler" && ownerOf(f) && f.Parent() == nil && f.Synthetic == "" && t.p.isRoot(f) {
			windows[f] = true
			entries = append(entries, f)
		}
	}
	goHandler := func(in ssa.Instruction) bool {
		g, ok := in.(*ssa.Go)
		return ok && (handlers[g.Common().StaticCallee()])
	}
	r := &Rule{ID: "dialed"}
	r.Event = anyEvent(dialEvent, connEvent, callEvent("github.com/companyzero/ttk.Focus"), func(p *Prog, in ssa.Instruction) bool {
		if goHandler(in) {
			return true
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		o, fl := staticField(s.Addr)
		return fl != nil && flags[o+"."+fl.Name()]
	})
	r.NoInline = func(f *ssa.Function) bool {
		return !inPkg(f, "zkclient") || fnName(f) == "(*zkclient.ZKC).focus"
	}
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		f := a.field()
		if f == nil || !isNetConn(f.Type()) || !strings.HasPrefix(a.Owner, "zkclient.") {
			return v
		}
		if st.Get("window") == "1" && st.Get("gone") != "1" {
			st.Set("open", "1")
		}
		return v.with("conn")
	}
	gone := func(st *State) {
		st.Set("open", "")
		st.Set("gone", "1")
	}
	r.Call = func(x *CallCtx) []Out {
		st := x.St
		switch {
		case dials(x.Name):
			x.E.Count("connection owner", "dial in "+fnName(x.Instr.Parent()))
			return errFork(x, "connecting", []AV{{K: NonZero, Lab: lab("conn")}}, func(s *State) { s.Set("open", "1"); s.Set("gone", "") }, nil)
		case x.Name == fnInitiate:
			return errFork(x, "key exchange", nil, nil, nil)
		case closesConn(x.Name):
			if x.Args[0].has("conn") {
				gone(st)
			}
			return []Out{{Res: []AV{{}}}}
		case x.Name == fnKxClose:
			gone(st)
			return []Out{{}}
		case x.Name == "github.com/companyzero/ttk.Focus", x.Name == "(*zkclient.ZKC).focus":
			if st.Get("window") == "1" && st.Get("gone") != "1" {
				st.Set("open", "1")
			}
		}
		return nil
	}
	r.OnGo = func(x *CallCtx) {
		if goHandler(x.Instr) {
			gone(x.St)
			x.St.Set("on", "")
			x.St.Note(x.Pos(), "the session takes over")
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		o, fl := staticField(s.Addr)
		if fl == nil {
			return
		}
		v := e.val(st, s.Val)
		if flags[o+"."+fl.Name()] {
			if v.is(Zero) {
				st.Set("on", "")
			} else {
				st.Set("on", "1")
			}
		}
		if isNetConn(fl.Type()) && strings.HasPrefix(o, "zkclient.") && v.has("conn") {
			st.Set("open", "")
			e.Count("connection owner", o)
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if abnormal(st) {
			return
		}
		w := fnName(in.Parent())
		if st.Get("open") == "1" {
			e.Violation(st, "dialed/"+w, in, "a connection to the server is neither closed nor in use: the server keeps it, and an account that was taken online stays online")
		}
		if st.Get("on") == "1" {
			e.Violation(st, "marked/"+w, in, "the client considers itself online although nothing reads from the server: it never connects again")
		}
	}
	c.Explore(r, func(st *State, f *ssa.Function) {
		if windows[f] {
			st.Set("window", "1")
		}
	}, entries)
}

// timers: a timer fires once.
func (t *teardown) timers() {
	c := t.c
	c.Rule("a timer is not waited for again after it fired or was stopped, unless it was set again")
	ev := callEvent("time.NewTimer")
	fs := t.p.eventFuncs(ev)
	if len(fs) == 0 {
		return
	}
	timerOf := func(v ssa.Value) string {
		if !isTick(v.Type()) {
			return ""
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return ""
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || typeName(deref(fa.X.Type())) != "time.Timer" {
			return ""
		}
		return t.timerID(fa.X)
	}
	r := &Rule{ID: "timer"}
	r.Event = ev
	r.Call = func(x *CallCtx) []Out {
		switch x.Name {
		case "time.NewTimer":
			if v, ok := x.Instr.(ssa.Value); ok {
				x.St.Set("timer "+t.c.P.pos(v.Pos()), "set")
			}
		case "(*time.Timer).Reset":
			x.St.Set("timer "+t.timerID(x.Instr.Common().Args[0]), "set")
		case "(*time.Timer).Stop":
			x.St.Set("timer "+t.timerID(x.Instr.Common().Args[0]), "stopped")
		}
		return nil
	}
	fired := func(e *Engine, st *State, v ssa.Value, in ssa.Instruction, alone bool) {
		n := timerOf(v)
		if n == "" {
			return
		}
		e.Count("timer waited for", c.P.pos(in.Pos()))
		k := "timer " + n
		if s := st.Get(k); s != "" && s != "set" && alone {
			e.Violation(st, "timer/"+fnName(in.Parent()), in, "a timer that %s is waited for again without having been set: it does not fire", s)
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			fired(e, st, u.X, in, true)
			if n := timerOf(u.X); n != "" {
				st.Set("timer "+n, "fired")
			}
		}
		if s, ok := in.(*ssa.Select); ok {
			for _, x := range s.States {
				fired(e, st, x.Chan, in, s.Blocking && len(s.States) == 1)
			}
		}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Select); ok {
			if i, err := strconv.Atoi(st.Get("select")); err == nil && i >= 0 && i < len(s.States) {
				if n := timerOf(s.States[i].Chan); n != "" {
					st.Set("timer "+n, "fired")
				}
			}
		}
	}
	c.Explore(r, nil, t.p.climb(fs, func(f *ssa.Function) bool { return true }))
}

func (t *teardown) timerID(v ssa.Value) string {
	for _, o := range t.p.origins(v, nil) {
		if o.Kind == "call" && o.Name == "time.NewTimer" {
			return t.c.P.pos(o.V.Pos())
		}
		if o.Kind == "field" {
			return o.Name
		}
	}
	return "?"
}
