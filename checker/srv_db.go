package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", checkCreate)
	register("C07", checkToken)
	register("C08", checkRendezvous)
}

func (c *Ctx) pkgConst(pkg, name string) (string, bool) {
	p := c.P.Pkgs[pkg]
	if p == nil {
		return "", false
	}
	k, ok := p.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return "", false
	}
	if k.Val().Kind() == constant.String {
		return constant.StringVal(k.Val()), true
	}
	return k.Val().ExactString(), true
}

var iniAPI = []string{fnIniNew, fnIniGet, fnIniSet, fnIniDel, fnIniSave, "(*inidb.INIDB).Records", "(*inidb.INIDB).NewTable"}

// lockTrack keeps the set of held mutexes in the automaton ("lk:<name>").
func lockTrack(x *CallCtx) []Out {
	var arg AV
	switch x.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		arg = x.Args[0]
		x.St.Set("lk:"+lockName(x.E, arg), "1")
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		arg = x.Args[0]
		n := lockName(x.E, arg)
		x.St.Set("lk:"+n, "")
		// whatever was protected since this lock was taken is not any more
		for k := range x.St.auto {
			if strings.HasPrefix(k, "under:"+n+":") {
				delete(x.St.auto, k)
			}
		}
	default:
		return nil
	}
	return []Out{{}}
}

func lockName(e *Engine, v AV) string {
	a := v.Addr
	if a == nil {
		return "?"
	}
	if f := a.field(); f != nil {
		return a.Owner + "." + f.Name()
	}
	return a.Root + a.Path
}

func heldLocks(st *State) []string {
	m := map[string]bool{}
	for k := range st.auto {
		if strings.HasPrefix(k, "lk:") {
			m[strings.TrimPrefix(k, "lk:")] = true
		}
	}
	return sortedKeys(m)
}

// begin marks a transaction as protected by every lock now held.
func txBegin(st *State, tx string) bool {
	h := heldLocks(st)
	for _, l := range h {
		st.Set("under:"+l+":"+tx, "1")
	}
	return len(h) > 0
}

// txHeld: some lock has been held without interruption since txBegin.
func txHeld(st *State, tx string) bool {
	for k := range st.auto {
		if strings.HasPrefix(k, "under:") && strings.HasSuffix(k, ":"+tx) {
			return true
		}
	}
	return false
}

// expiryCmp recognises every way of comparing a stored point in time with the
// current time and reports which of the two is later.
func expiryCmp(a, b AV, tokLab string) (tokFirst, ok bool) {
	if a.has("arith") || b.has("arith") {
		return false, false
	}
	if a.has(tokLab) && b.has("now") && !b.has(tokLab) {
		return true, true
	}
	if b.has(tokLab) && a.has("now") && !a.has(tokLab) {
		return false, true
	}
	return false, false
}

// tokenModel tracks the pending account token database: which facts hold for
// the token looked up, on the current path.
func (c *Ctx) tokenModel(x *CallCtx) []Out {
	st, e := x.St, x.E
	if o := lockTrack(x); o != nil {
		return o
	}
	isPend := func(i int) bool { return len(x.Args) > i && x.Args[i].has("pending") }
	switch x.Name {
	case fnIniNew:
		l := ""
		pend := x.Args[0].hasPfx("s:pending")
		if pend {
			l = lab("pending")
			e.Count("token", "open in "+fnName(x.Instr.Parent()))
			if !txBegin(st, "pend") {
				e.Violation(st, "token/lock", x.Instr, "the token database is opened without holding a lock: two connections can spend the same token")
			}
		}
		return iniOpen(x, l, func(s *State) {
			if pend {
				s.Set("tget", "")
				s.Set("tdel", "")
				s.Set("tsave", "")
			}
		})
	case fnIniGet:
		if !isPend(0) {
			return errFork(x, "Get", []AV{{Lab: labJoin(x.Args[0].Lab, "")}}, nil, nil)
		}
		e.Count("token", "lookup in "+fnName(x.Instr.Parent()))
		want := (x.Args[2].has("w:CreateAccount.Token") || x.Args[2].has("param1") || x.Args[2].has("token")) && !x.Args[2].has("arith")
		return errFork(x, "token lookup", []AV{{Lab: lab("tokval")}}, func(s *State) {
			if want {
				s.Set("tget", "ok")
			} else {
				s.Set("tget", "other")
			}
			s.Set("tkey", "#"+strconv.Itoa(x.Args[2].Sym))
			if !txHeld(s, "pend") {
				s.Set("tget", "unlocked")
			}
		}, func(s *State) { s.Set("tget", "fail") })
	case fnIniDel:
		if !isPend(0) {
			return errFork(x, "Del", nil, nil, nil)
		}
		if x.Args[2].Sym == 0 || st.Get("tkey") != "#"+strconv.Itoa(x.Args[2].Sym) {
			return errFork(x, "Del of another record", nil, nil, nil)
		}
		e.Count("token", "removal in "+fnName(x.Instr.Parent()))
		return errFork(x, "token removal", nil, func(s *State) { s.Set("tdel", "ok") }, func(s *State) { s.Set("tdel", "fail") })
	case fnIniSet:
		return errFork(x, "Set", nil, func(s *State) {
			if isPend(0) {
				s.Set("tdel", "")
				s.Set("tsave", "")
			}
		}, nil)
	case fnIniSave:
		if !isPend(0) {
			return errFork(x, "Save", nil, nil, nil)
		}
		e.Count("token", "save in "+fnName(x.Instr.Parent()))
		return errFork(x, "saving the token database", nil, func(s *State) {
			if s.Get("tdel") == "ok" && txHeld(s, "pend") {
				s.Set("tsave", "ok")
			}
		}, func(s *State) {})
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
		l := x.Args[0].Lab
		return errFork(x, "parsing a number", []AV{{Lab: l}}, nil, nil)
	case "(time.Time).Before", "(time.Time).After":
		tokFirst, ok := expiryCmp(x.Args[0], x.Args[1], "tokval")
		if !ok {
			return nil
		}
		e.Count("token", "expiry test in "+fnName(x.Instr.Parent()))
		// true means: first Before/After second
		expiredIfTrue := tokFirst == (x.Name == "(time.Time).Before")
		return boolFork(x, "expiry test", func(s *State) {
			if expiredIfTrue {
				s.Set("texp", "expired")
			} else {
				s.Set("texp", "valid")
			}
		}, func(s *State) {
			if expiredIfTrue {
				s.Set("texp", "valid")
			} else {
				s.Set("texp", "expired")
			}
		})
	}
	return nil
}

func tokenCmp(x *CmpCtx) []Out {
	tokFirst, ok := expiryCmp(x.X, x.Y, "tokval")
	if !ok {
		return nil
	}
	return cmpFork(x, func(s *State, op token.Token) {
		if !tokFirst {
			op = flip(op)
		}
		switch op { // tokval op now
		case token.LSS, token.LEQ:
			s.Set("texp", "expired")
		case token.GTR, token.GEQ:
			s.Set("texp", "valid")
		}
	})
}

func (c *Ctx) createRule(id string) *Rule {
	r := &Rule{ID: id}
	r.Event = anyEvent(callEvent(fnAccCreate, fnVerify, fnVerifyV, "time.Now"), ifaceEvent("rpc.CreateAccountReply"),
		func(p *Prog, in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && staticName(ci) == fnIniNew && inPkg(in.Parent(), "zkserver")
		})
	r.NoInline = apiNoInline(append([]string{fnAccCreate, fnVerify, fnVerifyV, fnRespond, fnOnline, fnDisabled, fnEnabled, fnKxRead, fnKxWrite,
		"(*zkserver.ZKS).handleSession"}, iniAPI...)...)
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if owner == "zkserver/settings.Settings" {
			return "cfg:" + f.Name()
		}
		return wireFieldLab(owner, f, v)
	}
	r.Cmp = func(x *CmpCtx) []Out {
		if o := tokenCmp(x); o != nil {
			return o
		}
		a, b := x.X, x.Y
		if b.has("cfg:CreatePolicy") {
			a, b = b, a
		}
		if a.has("cfg:CreatePolicy") && b.K == Const && (x.Op == token.EQL || x.Op == token.NEQ) {
			k, _ := strconv.Unquote(b.C)
			return cmpFork(x, func(s *State, op token.Token) {
				if op == token.EQL {
					s.Set("policy", k)
				}
			})
		}
		return nil
	}
	return r
}

// checkCreate (C06).
func checkCreate(c *Ctx) {
	c.Rule("every path from a connection to Account.Create has verified the identity being created and has matched the create policy 'yes', or 'token' with a token that was found, spent and unexpired")
	c.Rule("the reply to an account creation says success exactly on the paths on which Account.Create returned nil, which the caller asked not to overwrite")
	c.Rule("Account.Create returns nil only if the identity is not disabled, no account existed (unless forced), and the record was saved")
	r := c.createRule("create")
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		if o := c.tokenModel(x); o != nil {
			return o
		}
		switch x.Name {
		case fnVerify, fnVerifyV:
			if !x.Args[0].has("w:CreateAccount.PublicIdentity") && !wireAddr(e, st, x.Args[0], "PublicIdentity") {
				return nil
			}
			return boolFork(x, "identity verification", func(s *State) { s.Set("verified", "ok") }, func(s *State) { s.Set("verified", "no") })
		case fnAccCreate:
			e.Count("create", fnName(x.Instr.Parent()))
			if st.Get("verified") != "ok" {
				e.Violation(st, "create/verify", x.Instr, "an account is created for an identity that was not verified")
			}
			if !x.Args[1].has("w:CreateAccount.PublicIdentity") {
				e.Violation(st, "create/identity", x.Instr, "the created identity is not the one that was verified")
			}
			switch st.Get("policy") {
			case "yes":
			case "token":
				for _, k := range []string{"tget", "tdel", "tsave"} {
					if st.Get(k) != "ok" {
						e.Violation(st, "create/"+k, x.Instr, "an account is created although the token was not %s", map[string]string{"tget": "looked up successfully", "tdel": "removed", "tsave": "durably removed"}[k])
					}
				}
				if st.Get("texp") != "valid" {
					e.Violation(st, "create/texp", x.Instr, "an account is created although the token was not found unexpired")
				}
			default:
				e.Violation(st, "create/policy", x.Instr, "an account is created under policy %q", st.Get("policy"))
			}
			e.Count("policy", st.Get("policy"))
			if !x.Args[2].is(Zero) {
				e.Violation(st, "create/force", x.Instr, "an existing account may be overwritten")
			}
			return errFork(x, "Account.Create", nil, func(s *State) { s.Set("created", "ok") }, func(s *State) { s.Set("created", "fail") })
		case xdr2 + ".Marshal":
			if dynName(x.Args[1]) == "rpc.CreateAccountReply" {
				er := aggField(x.Args[1], "Error")
				e.Count("reply", fnName(x.Instr.Parent())+" created="+st.Get("created"))
				if st.Get("created") == "ok" && er.nonzero() {
					e.Violation(st, "reply/false-failure", x.Instr, "the client is told the account was not created although it was")
				}
				if st.Get("created") != "ok" && !er.nonzero() {
					e.Violation(st, "reply/false-success", x.Instr, "the client may be told the account was created although it was not")
				}
				return errFork(x, "sending the reply", []AV{{}}, nil, nil)
			}
		case "(error).Error":
			return []Out{{Res: []AV{{K: NonZero}}}}
		case xdr2 + ".UnmarshalLimited":
			for _, k := range []string{"verified", "policy", "created", "tget", "tdel", "tsave", "texp"} {
				st.Set(k, "")
			}
		}
		return stdCall(x)
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("create", 1)
	c.Need("reply", 3)
	c.Need("policy", 2)
	c.Need("token", 4)

	c.Rule("Create makes nothing of an account on disk before it found that the identity is not disabled, has no account, and that its nick is free")
	// Account.Create
	cr := c.P.Func(fnAccCreate)
	if cr == nil {
		c.Violation("anchor/create", token.NoPos, "Account.Create is gone")
		return
	}
	a := &Rule{ID: "create-account", Event: callEvent("os.Stat", fnIniSave, fnIniSet, fnDisabled)}
	a.NoInline = apiNoInline(append([]string{fnAccFind}, iniAPI...)...)
	// nothing of an account may exist before it was decided to create it: a
	// directory is all it takes to be admitted
	made := func(x *CallCtx, what string) {
		for _, k := range []string{"disabled", "exists", "nick"} {
			if v := x.St.Get(k); v != "no" && v != "free" {
				x.E.Violation(x.St, "account/early/"+k, x.Instr, "%s of an account is made before it is known that the account may be created (%s)", what, k)
			}
		}
	}
	a.Call = func(x *CallCtx) []Out {
		switch x.Name {
		case "os.Stat", "os.Lstat":
			k := "exists"
			if x.Args[0].has("s:.") {
				k = "disabled"
			}
			if !x.Args[0].has("param1") {
				return nil
			}
			return errFork(x, "stat of the "+k+" account", []AV{{}}, func(s *State) { s.Set(k, "yes") }, func(s *State) { s.Set(k, "no") })
		case fnAccFind:
			return errFork(x, "nick lookup", []AV{{}}, func(s *State) { s.Set("nick", "taken") }, func(s *State) { s.Set("nick", "free") })
		case fnIniNew:
			ok := x.Args[0].has("param1")
			if ok && len(x.Args) > 1 && !x.Args[1].is(Zero) {
				made(x, "the database")
			}
			return iniOpen(x, lab("rec"), func(s *State) {
				if ok {
					s.Set("rec", "1")
				}
			})
		case fnIniSet:
			return errFork(x, "Set", nil, func(s *State) { s.Set("set", "ok") }, nil)
		case fnIniSave:
			return errFork(x, "Save", nil, func(s *State) {
				if s.Get("set") == "ok" && s.Get("rec") == "1" {
					s.Set("saved", "ok")
				}
			}, func(s *State) { s.Set("saved", "fail") })
		case "os.Mkdir", "os.MkdirAll":
			made(x, "a directory")
			return errFork(x, "making the cache directory", nil, func(s *State) { s.Set("mkdir", "ok") }, func(s *State) { s.Set("mkdir", "fail") })
		case "os.IsExist":
			return boolFork(x, "IsExist", func(s *State) {
				if s.Get("mkdir") == "fail" {
					s.Set("mkdir", "ok")
				}
			}, nil)
		}
		return stdCall(x)
	}
	a.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if len(ret) != 1 || ret[0].nonzero() {
			return
		}
		e.Count("account", "success return of Create")
		if st.Get("disabled") != "no" {
			e.Violation(st, "account/disabled", in, "an account can be created for an identity that is disabled")
		}
		if st.Get("exists") != "no" {
			e.Violation(st, "account/exists", in, "an existing account is overwritten without force")
		}
		if st.Get("nick") != "free" {
			e.Violation(st, "account/nick", in, "an account is created with a nick that is in use")
		}
		if st.Get("saved") != "ok" {
			e.Violation(st, "account/saved", in, "account creation reports success although the record was not saved")
		}
		if st.Get("mkdir") != "ok" {
			e.Violation(st, "account/cache", in, "account creation reports success although the mailbox was not created")
		}
	}
	c.Explore(a, func(st *State, f *ssa.Function) {
		paramLabels(st, f)
		// decided for callers that do not ask to overwrite, which is what
		// the connection path is checked to do
		st.vals[VKey{0, f.Params[2]}] = AV{K: Zero}
	}, []*ssa.Function{cr})
	c.Need("account", 1)
}

// wireAddr: a pointer to a decoded field.
func wireAddr(e *Engine, st *State, v AV, field string) bool {
	if v.Addr == nil {
		return false
	}
	f := v.Addr.field()
	if f == nil || f.Name() != field {
		return false
	}
	return v.has("wire") || e.deepLabHas(st, v, "wire")
}

func (e *Engine) deepLabHas(st *State, v AV, l string) bool {
	if v.has(l) {
		return true
	}
	if v.Addr == nil || v.Addr.Heap {
		return v.Addr != nil && strings.Contains(v.Addr.Base, ","+l+",")
	}
	x := e.loadCell(st, v.Addr)
	if x.has(l) {
		return true
	}
	for _, y := range x.Agg {
		if y.has(l) {
			return true
		}
	}
	return false
}

// checkToken (C07).
func checkToken(c *Ctx) {
	c.Rule("every function of the server that consults the pending token database reports a token valid only on paths on which it was found, removed, the removal saved, and its expiry tested, all under one uninterrupted lock")
	r := c.createRule("token")
	var fns []*ssa.Function
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkserver") || f.Signature.Results().Len() != 1 {
			continue
		}
		b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Bool {
			continue
		}
		for _, p := range f.Params {
			if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
				if reachesCall(c.P, f, fnIniNew, 4) {
					fns = append(fns, f)
				}
				break
			}
		}
	}
	fns = notHelpers(c.P, fns)
	r.Call = func(x *CallCtx) []Out {
		if o := c.tokenModel(x); o != nil {
			return o
		}
		return stdCall(x)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if len(ret) != 1 || ret[0].is(Zero) {
			return
		}
		w := fnName(st.frames[0].fn)
		e.Count("accept", w)
		msg := map[string]string{"tget": "found", "tdel": "removed", "tsave": "durably removed"}
		for _, k := range []string{"tget", "tdel", "tsave"} {
			if st.Get(k) != "ok" {
				e.Violation(st, "accept/"+k, in, "a token is accepted that was not %s (under the lock)", msg[k])
			}
		}
		if st.Get("texp") != "valid" {
			e.Violation(st, "accept/texp", in, "a token is accepted that was not found unexpired")
		}
	}
	init := func(st *State, f *ssa.Function) {
		for _, p := range f.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				v := st.vals[VKey{0, p}]
				st.vals[VKey{0, p}] = v.with("token")
			}
		}
	}
	c.Explore(r, init, fns)
	c.Need("accept", 1)
	c.Need("token", 4)
}

// notHelpers leaves out the functions that are only ever called by others of
// the list: those judge them on the path they are called on.
func notHelpers(p *Prog, fns []*ssa.Function) []*ssa.Function {
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	var r []*ssa.Function
	for _, f := range fns {
		helper := len(p.callers[f]) > 0 && !p.goed[f] && !p.asValue[f]
		for _, x := range p.callers[f] {
			if x.Parent() == f || !in[x.Parent()] {
				helper = false
			}
		}
		if !helper {
			r = append(r, f)
		}
	}
	return r
}

// reachesCall: a static call chain of at most depth steps.
func reachesCall(p *Prog, f *ssa.Function, name string, depth int) bool {
	if depth == 0 || f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && staticName(ci) == name {
				return true
			}
		}
	}
	for _, g := range p.callees[f] {
		if isRepoFn(g) && g != f && reachesCall(p, g, name, depth-1) {
			return true
		}
	}
	return false
}

func isRepoFn(f *ssa.Function) bool {
	p := pkgOf(f)
	return p != nil && isRepoPkg(p.Pkg)
}

// checkRendezvous (C08).
func checkRendezvous(c *Ctx) {
	c.Rule("a rendezvous PIN is handed out (empty error) only on paths on which the blob is at most 4096 bytes, its expiration parses and is at most 168 hours, the PIN was free, and the record was set and saved under that PIN, under one uninterrupted lock")
	c.Rule("a rendezvous pull succeeds only with the blob decoded from the record found under the requested PIN")
	r := c.sessionRule("rendezvous")
	ini := map[string]bool{}
	for _, n := range iniAPI {
		ini[n] = true
	}
	base := r.NoInline
	r.NoInline = func(f *ssa.Function) bool { return base(f) || ini[fnName(f)] }
	r.Event = anyEvent(r.Event, func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && strings.HasPrefix(staticName(ci), "(*inidb.INIDB)") && inPkg(in.Parent(), "zkserver")
	})
	r.Cmp = func(x *CmpCtx) []Out {
		if o := cmdCmp(x); o != nil {
			return o
		}
		a, b, op := x.X, x.Y, x.Op
		sw := false
		if _, ok := intOf(a); ok {
			a, b, sw = b, a, true
		}
		n, ok := intOf(b)
		if !ok {
			return nil
		}
		key := ""
		if strings.HasPrefix(a.Expr, "len(") && a.has("w:Rendezvous.Blob") {
			key = "bloblen"
		}
		if a.has("w:Rendezvous.Expiration") && isInt(x.In.X.Type()) && !strings.HasPrefix(a.Expr, "len(") {
			key = "exp"
		}
		if key == "" {
			return nil
		}
		_ = op
		return cmpFork(x, func(s *State, op token.Token) {
			if sw {
				op = flip(op)
			}
			lim := int64(-1)
			switch op { // value op n
			case token.LEQ:
				lim = n
			case token.LSS:
				lim = n - 1
			case token.EQL:
				lim = n
			}
			if lim >= 0 {
				s.Set(key, strconv.FormatInt(lim, 10))
			}
		})
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		if o := lockTrack(x); o != nil {
			return o
		}
		switch x.Name {
		case fnKxRead:
			for _, k := range []string{"bloblen", "exp", "free", "rset", "rsave", "rkey", "expok", "rget", "dec"} {
				st.Set(k, "")
			}
		case fnIniNew:
			l := ""
			if x.Args[0].hasPfx("s:rendezvous") {
				l = lab("rzdb")
				e.Count("db", "open in "+fnName(x.Instr.Parent()))
				txBegin(st, "rz")
			}
			return iniOpen(x, l, nil)
		case fnIniGet:
			if x.Args[0].has("rzdb") {
				s := "#" + strconv.Itoa(x.Args[2].Sym)
				pull := x.Args[2].has("w:RendezvousPull.Token") && !x.Args[2].has("arith")
				return errFork(x, "PIN lookup", []AV{{Lab: lab("rzval")}}, func(st *State) {
					st.Set("free", "")
					if pull {
						st.Set("rget", "ok")
					}
				}, func(st *State) { st.Set("free", s); st.Set("rget", "fail") })
			}
		case fnIniSet:
			if x.Args[0].has("rzdb") {
				s := "#" + strconv.Itoa(x.Args[2].Sym)
				e.Count("db", "set in "+fnName(x.Instr.Parent()))
				if st.Get("free") != s {
					e.Violation(st, "pin/taken", x.Instr, "a rendezvous blob is stored under a PIN that was not found free: another pending exchange is overwritten")
				}
				if !txHeld(st, "rz") {
					e.Violation(st, "pin/lock", x.Instr, "the rendezvous database is changed without the lock it was opened under: a concurrent request can lose this record")
				}
				return errFork(x, "storing the blob", nil, func(st *State) { st.Set("rset", "ok"); st.Set("rkey", s) }, func(st *State) { st.Set("rset", "fail") })
			}
		case fnIniSave:
			if x.Args[0].has("rzdb") {
				if !txHeld(st, "rz") {
					e.Violation(st, "save/lock", x.Instr, "the rendezvous database is saved without the lock it was opened under")
				}
				return errFork(x, "saving the rendezvous database", nil, func(st *State) {
					if st.Get("rset") == "ok" {
						st.Set("rsave", "ok")
					}
				}, nil)
			}
		case "strconv.ParseUint":
			if x.Args[0].has("w:Rendezvous.Expiration") {
				return errFork(x, "parsing the expiration", []AV{{Lab: x.Args[0].Lab}}, func(s *State) { s.Set("expok", "1") }, func(s *State) { s.Set("expok", "") })
			}
		case "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa":
			return []Out{{Res: []AV{{K: NonZero, Lab: labJoin(x.Args[0].Lab, lab("pin"))}}}}
		case xdr2 + ".UnmarshalLimited", xdr2 + ".Unmarshal":
			// a stored record being decoded
			if e.deepLab(st, x.Args[0]) != "" && x.Args[0].has("rzval") {
				t := x.Args[1]
				return errFork(x, "decoding the record", []AV{{}}, func(s *State) {
					e.havoc(s, t.Addr, lab("rzrec"))
					s.Set("dec", "ok")
				}, func(s *State) {
					// what was decoded until then stays
					e.havoc(s, t.Addr, lab("rzrec"))
					s.Set("dec", "fail")
				})
			}
		case "(*encoding/base64.Encoding).DecodeString":
			return errFork(x, "base64", []AV{{Lab: x.Args[1].Lab}}, nil, nil)
		case "bytes.NewReader", "bytes.NewBuffer":
			return []Out{{Res: []AV{{K: NonZero, Lab: x.Args[0].Lab}}}}
		}
		return c.sessionCall(x)
	}
	check := func(e *Engine, st *State, in ssa.Instruction) {
		sends(e, st, in, func(v AV, t types.Type) {
			_, _, _, pay, _ := wrapperCells(e, st, v, t)
			switch dynName(pay) {
			case "rpc.RendezvousReply":
				er := aggField(pay, "Error")
				if er.nonzero() {
					e.Count("reply", "rendezvous refused")
					if tok := aggField(pay, "Token"); tok.has("pin") && st.Get("rsave") != "ok" {
						e.Violation(st, "pin/refused", in, "a reply that reports a failure names a PIN under which nothing was saved")
					}
					return
				}
				e.Count("reply", "PIN handed out")
				num := func(k string) int64 {
					n, err := strconv.ParseInt(st.Get(k), 10, 64)
					if err != nil {
						return 1 << 60
					}
					return n
				}
				if num("bloblen") > 4096 {
					e.Violation(st, "limit/blob", in, "a PIN is handed out for a blob that may exceed 4096 bytes")
				}
				if num("exp") > 168 || st.Get("expok") != "1" {
					e.Violation(st, "limit/exp", in, "a PIN is handed out for an expiration that may exceed 168 hours or was not parsed")
				}
				if st.Get("rset") != "ok" || st.Get("rsave") != "ok" {
					e.Violation(st, "pin/saved", in, "a PIN is handed out although its blob was not saved")
				}
				tok := aggField(pay, "Token")
				if tok.Sym == 0 || "#"+strconv.Itoa(tok.Sym) != st.Get("rkey") {
					e.Violation(st, "pin/value", in, "the PIN handed out is not the one the blob is stored under")
				}
			case "rpc.RendezvousPullReply":
				er := aggField(pay, "Error")
				if er.nonzero() {
					e.Count("reply", "pull refused")
					return
				}
				e.Count("reply", "blob handed out")
				if st.Get("rget") != "ok" || st.Get("dec") != "ok" {
					e.Violation(st, "pull/found", in, "a rendezvous pull succeeds although no record was found under the PIN")
				}
				if b := aggField(pay, "Blob"); !b.has("rzrec") {
					e.Violation(st, "pull/blob", in, "a rendezvous pull does not return the stored blob")
				}
				if b := aggField(pay, "Token"); !b.has("w:RendezvousPull.Token") || b.has("arith") {
					e.Violation(st, "pull/token", in, "a rendezvous pull reply does not name the requested PIN")
				}
			}
		})
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); ok {
			check(e, st, in)
		}
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Select); ok {
			check(e, st, in)
		}
		if sl, ok := in.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
			if b, ok := sl.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				e.define(st, sl, AV{Lab: labJoin(e.val(st, sl.X).Lab, lab("arith"))})
			}
		}
	}
	c.Explore(r, nil, nil, "zkserver")
	c.Need("reply", 4)
	c.Need("db", 3)
}
