package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	fnRespond    = "(*session.KX).Respond"
	fnInitiate   = "(*session.KX).Initiate"
	fnKxRead     = "(*session.KX).Read"
	fnKxWrite    = "(*session.KX).Write"
	fnKxClose    = "(*session.KX).Close"
	fnTheirID    = "(*session.KX).TheirIdentity"
	fnDeliver    = "(*zkserver/account.Account).Deliver"
	fnAccDelete  = "(*zkserver/account.Account).Delete"
	fnOnline     = "(*zkserver/account.Account).Online"
	fnOffline    = "(*zkserver/account.Account).Offline"
	fnDisabled   = "(*zkserver/account.Account).Disabled"
	fnEnabled    = "(*zkserver/account.Account).Enabled"
	fnAccCreate  = "(*zkserver/account.Account).Create"
	fnAccPush    = "(*zkserver/account.Account).Push"
	fnAccPull    = "(*zkserver/account.Account).Pull"
	fnAccFind    = "(*zkserver/account.Account).Find"
	fnAccDisable = "(*zkserver/account.Account).Disable"
	fnAccEnable  = "(*zkserver/account.Account).Enable"
	fnVerify     = "(*zkidentity.PublicIdentity).Verify"
	fnVerifyV    = "(zkidentity.PublicIdentity).Verify"
	fnIniNew     = "inidb.New"
	fnIniGet     = "(*inidb.INIDB).Get"
	fnIniSet     = "(*inidb.INIDB).Set"
	fnIniDel     = "(*inidb.INIDB).Del"
	fnIniSave    = "(*inidb.INIDB).Save"
	fnTagPush    = "(*tagstack.TagStack).Push"
	fnTagPop     = "(*tagstack.TagStack).Pop"
	fnTagPopQuit = "(*tagstack.TagStack).PopQuit"
)

// apiNoInline keeps the named API calls as single events.
func apiNoInline(names ...string) func(f *ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function) bool { return m[fnName(f)] }
}

// isSessionMap: a map from an identity to the live session holding its KX.
func isSessionMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	return isSessionPtr(m.Elem())
}

func isSessionPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "session.KX" {
			return true
		}
	}
	return false
}

func dynName(v AV) string {
	if v.Dyn == nil {
		return ""
	}
	return typeName(v.Dyn)
}

func init() {
	register("C02", checkAdmission)
}

// checkAdmission (C02): a session is served only after the key exchange
// succeeded, for the identity it proved, which is enabled and not disabled.
func checkAdmission(c *Ctx) {
	c.Rule("on every path of every zkserver entry point, taking an account online or sending the welcome is preceded by a successful key exchange, and by Enabled==true and Disabled==false for the identity that exchange proved")
	c.Rule("after an account was disabled its session is looked up and closed, before the next command is read")
	c.Rule("after the session is listed and before its first message is read, the account is found enabled once more; no session operation happens without going online")
	r := &Rule{ID: "admission"}
	r.Event = anyEvent(callEvent(fnRespond, fnDisabled, fnEnabled, fnOnline, fnKxRead, fnDeliver, fnAccDelete, fnAccPush, fnAccDisable), ifaceEvent("rpc.Welcome"))
	r.NoInline = apiNoInline(fnRespond, fnDisabled, fnEnabled, fnOnline, fnOffline, fnKxRead, fnKxWrite, fnTheirID,
		fnDeliver, fnAccDelete, fnAccPush, fnAccPull, fnAccFind, fnAccCreate)
	admitted := func(x *CallCtx, what string, idArg int) {
		st, e := x.St, x.E
		e.Count("sink", what+" in "+fnName(x.Instr.Parent()))
		if st.Get("kx") != "ok" {
			e.Violation(st, "kx/"+what, x.Instr, "%s is reached without a successful key exchange", what)
		}
		if st.Get("dis") != "no" {
			e.Violation(st, "disabled/"+what, x.Instr, "%s is reached without the identity having been found not disabled", what)
		}
		if st.Get("en") != "yes" {
			e.Violation(st, "enabled/"+what, x.Instr, "%s is reached without the identity having been found enabled", what)
		}
		if idArg > 0 && !x.Args[idArg].has("kxid") {
			e.Violation(st, "identity/"+what, x.Instr, "%s acts on an identity that is not the one the key exchange proved", what)
		}
	}
	knocked := func(e *Engine, st *State, in ssa.Instruction) {
		if st.Get("knock") == "1" {
			st.Set("knock", "")
			e.Violation(st, "disable/served", in, "an account is disabled and its session is not ended afterwards: it stays served")
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) { knocked(e, st, in) }
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		if !isSessionMap(in.X.Type()) {
			return nil
		}
		if !in.CommaOk {
			return []Out{{Res: []AV{{K: NonZero}}}, {Res: []AV{{K: Zero}}, Do: func(s *State) { s.Set("knock", "") }}}
		}
		return []Out{{Res: []AV{{K: NonZero}, avTrue}}, {Res: []AV{{K: Zero}, avFalse}, Do: func(s *State) { s.Set("knock", "") }}}
	}
	ops := map[string]int{fnDeliver: 0, fnAccDelete: 1, fnAccPush: 1}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case fnRespond:
			e.Count("event", "Respond")
			return errFork(x, "key exchange", nil,
				func(s *State) { s.Set("kx", "ok"); s.Set("dis", ""); s.Set("en", "") },
				func(s *State) { s.Set("kx", "") })
		case fnTheirID:
			return []Out{{Res: []AV{{Lab: lab("kxid")}}}}
		case fnDisabled:
			if !x.Args[1].has("kxid") {
				return nil
			}
			e.Count("event", "Disabled")
			return boolFork(x, "Disabled", func(s *State) { s.Set("dis", "yes") }, func(s *State) { s.Set("dis", "no") })
		case fnEnabled:
			if !x.Args[1].has("kxid") {
				return nil
			}
			e.Count("event", "Enabled")
			return boolFork(x, "Enabled", func(s *State) {
				s.Set("en", "yes")
				if s.Get("listed") == "1" {
					s.Set("rechecked", "1")
				}
			}, func(s *State) { s.Set("en", "no") })
		case fnOnline:
			admitted(x, "going online", 1)
			return errFork(x, "Online", nil, func(s *State) { s.Set("online", "1") }, nil)
		case fnKxRead:
			if st.Get("online") != "1" {
				e.Violation(st, "read/online", x.Instr, "a session message is read although the account was not taken online")
			}
			if st.Get("rechecked") != "1" {
				e.Violation(st, "read/recheck", x.Instr, "a session message is read without the account having been found enabled after the session was listed: an account disabled meanwhile stays served")
			}
			e.Count("sink", "session read in "+fnName(x.Instr.Parent()))
			return errFork(x, "read", []AV{{}}, nil, nil)
		case fnAccDisable:
			e.Count("event", "an account is disabled")
			return errFork(x, "Disable", nil, func(s *State) { s.Set("knock", "1") }, nil)
		case fnKxClose:
			st.Set("knock", "")
		case "(*encoding/json.Decoder).Decode":
			knocked(e, st, x.Instr)
		case xdr2 + ".Marshal":
			if dynName(x.Args[1]) == "rpc.Welcome" {
				admitted(x, "sending the welcome", 0)
			}
		}
		if i, ok := ops[x.Name]; ok {
			e.Count("op", x.Name)
			if st.Get("kx") != "ok" || st.Get("online") != "1" {
				e.Violation(st, "op/"+x.Name, x.Instr, "%s is performed for a peer that has no admitted session", x.Name)
			}
			if i > 0 && !x.Args[i].has("kxid") {
				e.Violation(st, "opid/"+x.Name, x.Instr, "%s acts on another identity than the session's", x.Name)
			}
		}
		return stdCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if rg, ok := in.(*ssa.Range); ok && isSessionMap(rg.X.Type()) {
			st.Set("knock", "") // looked for among all of them
		}
		if mu, ok := in.(*ssa.MapUpdate); ok && isSessionMap(mu.Map.Type()) {
			e.Count("event", "session listed")
			st.Set("listed", "1")
			st.Set("rechecked", "")
		}
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("event", 4)
	c.Need("sink", 3)
	c.Need("op", 3)
}
