package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockflow: which locks every function takes, releases, relies on and leaves
// behind, computed bottom up over the call graph; each function is explored
// path by path, functions that do not return with the locks they were called
// with are looked through instead of summarised.

type lockNeed struct {
	lock  string
	write bool
	what  string
	param int // the object is this parameter, -1: unknown
	at    ssa.Instruction
	via   []string
}

type lockSum struct {
	deltas   map[string]bool
	acquires map[string]string // lock -> "w" or "r"
	where    map[string]string // lock -> call chain
	needs    map[string]*lockNeed
	spawns   bool
	blocks   map[string]string // blocking operation -> chain
	live     map[int]string    // result -> the guarded map it is
}

func (s *lockSum) balanced() bool {
	for d := range s.deltas {
		if d != "" {
			return false
		}
	}
	return true
}

type lockEdge struct {
	where string
	at    ssa.Instruction
}

type lockflow struct {
	c          *Ctx
	guards     map[string]string // "owner.field" or "g:pkg.var" -> lock name
	sums       map[*ssa.Function]*lockSum
	order      map[string]map[string]*lockEdge // lock -> lock taken under it
	impl       map[string][]*ssa.Function
	locks      bool                              // report lock balance and order
	queued     map[*ssa.Function]ssa.Instruction // run by the display goroutine
	report     bool
	callsParam map[*ssa.Function]bool
	stored     map[ssa.CallInstruction][]*ssa.Function
}

// named lock operations
func lockOp(name string) (take, write, ok bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return true, true, true
	case "(*sync.RWMutex).RLock":
		return true, false, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return false, true, true
	case "(*sync.RWMutex).RUnlock":
		return false, false, true
	}
	return
}

func syncPass(name string) bool {
	switch name {
	case fnQueue, "time.AfterFunc", "os/signal.Notify", "net/http.HandleFunc":
		return false
	}
	return true
}

// implementers of an interface method among the repository's types.
func (l *lockflow) implementers(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := cc.Method.FullName()
	if r, ok := l.impl[k]; ok {
		return r
	}
	var r []*ssa.Function
	for _, pk := range l.c.P.Pkgs {
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(ty) || !types.Implements(ty, it) {
					continue
				}
				if f := l.c.P.SSA.LookupMethod(ty, cc.Method.Pkg(), cc.Method.Name()); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	l.impl[k] = r
	return r
}

// runsArg: functions handed to f are called by it before it returns.
func runsArg(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if !isRepoFn(f) {
		return syncPass(fnName(f))
	}
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				p, ok := (*op).(*ssa.Parameter)
				if !ok {
					continue
				}
				if _, ok := p.Type().Underlying().(*types.Signature); !ok {
					continue
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					if _, ok := in.(*ssa.BinOp); ok {
						continue // compared with nil
					}
					return false
				}
				if _, ok := in.(*ssa.Go); ok {
					return false
				}
				if ci.Common().Value == ssa.Value(p) {
					r = true
				} else if !runsArg(ci.Common().StaticCallee()) {
					return false
				}
			}
		}
	}
	return r
}

// funcParams: the function calls one of its function parameters.
func (l *lockflow) paramCaller(f *ssa.Function) bool {
	if v, ok := l.callsParam[f]; ok {
		return v
	}
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			if p, ok := ci.Common().Value.(*ssa.Parameter); ok && !ci.Common().IsInvoke() && p.Parent() == f {
				r = true
			}
		}
	}
	l.callsParam[f] = r
	return r
}

func (l *lockflow) sum(f *ssa.Function) *lockSum {
	if s := l.sums[f]; s != nil {
		return s
	}
	return &lockSum{}
}

// compute fills the summaries, callees first, until nothing changes.
func (l *lockflow) compute() {
	p := l.c.P
	l.sums = map[*ssa.Function]*lockSum{}
	l.order = map[string]map[string]*lockEdge{}
	l.queued = map[*ssa.Function]ssa.Instruction{}
	l.impl = map[string][]*ssa.Function{}
	l.callsParam = map[*ssa.Function]bool{}
	l.stored = map[ssa.CallInstruction][]*ssa.Function{}
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		s, a := p.syncCallees(f)
		for _, g := range append(s, a...) {
			visit(g)
		}
		order = append(order, f)
	}
	for _, f := range p.Funcs {
		visit(f)
	}
	// only functions from which something of interest can be reached
	touch := p.reaches(func(p *Prog, in ssa.Instruction) bool { return l.interesting(in) })
	for round := 0; round < 4; round++ {
		before := l.fingerprint()
		for _, f := range order {
			if pkg := pkgOf(f); pkg == nil || !isRepoPkg(pkg.Pkg) || !touch[f] {
				continue
			}
			if f.Synthetic != "" && f.Parent() == nil && f.Name() != "init" {
				// wrappers: what they wrap
				l.sums[f] = l.wrapped(f)
				continue
			}
			l.explore(f)
		}
		if l.fingerprint() == before {
			break
		}
	}
}

func (l *lockflow) wrapped(f *ssa.Function) *lockSum {
	for _, g := range l.c.P.callees[f] {
		if s := l.sums[g]; s != nil {
			return s
		}
	}
	return &lockSum{}
}

func (l *lockflow) fingerprint() string {
	var r []string
	for f, s := range l.sums {
		x := fnName(f)
		for _, k := range sortedKeys(s.deltas) {
			x += " d" + k
		}
		x += fmt.Sprint(len(s.acquires), len(s.needs), s.spawns, len(s.blocks), len(s.live))
		r = append(r, x)
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func (l *lockflow) interesting(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Go, *ssa.Select:
		return true
	case *ssa.Send:
		return true
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return true
		}
	case ssa.CallInstruction:
		if _, _, ok := lockOp(staticName(in)); ok {
			return true
		}
		if netCall(in.Common(), staticName(in)) {
			return true
		}
		if len(l.callbacks(in)) > 0 {
			return true
		}
	}
	for _, op := range in.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		if o, f := staticField(*op); f != nil && l.guards[o+"."+f.Name()] != "" {
			return true
		}
		if g, ok := (*op).(*ssa.Global); ok && l.guards["g:"+shorten(g.String())] != "" {
			return true
		}
	}
	return false
}

// callbacks: the functions a call through a structure's field runs.
func (l *lockflow) callbacks(in ssa.CallInstruction) []*ssa.Function {
	cc := in.Common()
	if cc.IsInvoke() || cc.StaticCallee() != nil {
		return nil
	}
	if _, ok := in.(*ssa.Go); ok {
		return nil
	}
	switch v := cc.Value.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		if _, ok := v.X.(*ssa.FieldAddr); !ok {
			return nil
		}
	case *ssa.Field, *ssa.Lookup, *ssa.Extract, *ssa.Phi:
	default:
		return nil
	}
	if r, ok := l.stored[in]; ok {
		return r
	}
	var r []*ssa.Function
	for _, f := range l.c.P.storedFuncs(cc.Value) {
		if isRepoFn(f) && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	l.stored[in] = r
	return r
}

func (l *lockflow) edge(from, to, where string, at ssa.Instruction) {
	if l.order[from] == nil {
		l.order[from] = map[string]*lockEdge{}
	}
	if l.order[from][to] == nil {
		l.order[from][to] = &lockEdge{where, at}
	}
}

func held(st *State, lock string) string { return st.Get("lk:" + lock) }

func (l *lockflow) explore(f *ssa.Function) {
	c := l.c
	s := &lockSum{deltas: map[string]bool{}, acquires: map[string]string{}, where: map[string]string{}, needs: map[string]*lockNeed{}, blocks: map[string]string{}, live: map[int]string{}}
	me := fnName(f)
	r := &Rule{ID: "locks " + me, HeapCells: false}
	r.Event = func(p *Prog, in ssa.Instruction) bool { return l.interesting(in) }
	r.NoInline = func(g *ssa.Function) bool {
		if g.Parent() != nil && g.Parent() == f || l.paramCaller(g) {
			return false
		}
		if g.Synthetic != "" && g.Parent() == nil {
			return false // wrapper
		}
		return l.sum(g).balanced()
	}
	var e *Engine
	paramOf := func(a *Addr) int {
		for i, p := range f.Params {
			if a.Root == fmt.Sprintf("h%d", e.sym(0, p, "")) {
				return i
			}
		}
		return -1
	}
	take := func(st *State, lock, mode string, in ssa.Instruction, chain string) {
		if h := held(st, lock); h != "" && !(h == "r" && mode == "r" && strings.HasPrefix(chain, "?")) {
			if l.report && l.locks {
				w := fnName(in.Parent())
				e.Violation(st, "again/"+w+"/"+lock, in, "%s is taken (%s) while the same goroutine already holds it: it blocks for ever", lock, chain)
			}
		}
		for k := range st.auto {
			if strings.HasPrefix(k, "lk:") && k[3:] != lock {
				l.edge(k[3:], lock, fnName(in.Parent())+" "+c.P.instrPos(in), in)
			}
		}
		if s.acquires[lock] != "w" {
			s.acquires[lock] = mode
			s.where[lock] = chain
		}
	}
	need := func(st *State, n *lockNeed, in ssa.Instruction) {
		h := held(st, n.lock)
		if h == "w" || h == "r" && !n.write {
			return
		}
		k := n.lock + "|" + n.what + fmt.Sprint(n.write) + "|" + fnName(n.at.Parent())
		if s.needs[k] == nil {
			m := *n
			m.via = append([]string{me}, n.via...)
			s.needs[k] = &m
		}
	}
	// waiting on a channel while a lock is held
	block := func(st *State, ch string, in ssa.Instruction) {
		if ch == "" {
			return
		}
		for k := range st.auto {
			if strings.HasPrefix(k, "lk:") {
				l.edge(k[3:], ch, fnName(in.Parent())+" "+c.P.instrPos(in), in)
			}
		}
		s.blocks[ch] = me
	}
	apply := func(st *State, g *ssa.Function, args []AV, in ssa.Instruction) {
		q := l.sum(g)
		for lock, mode := range q.acquires {
			chain := fnName(g)
			if w := q.where[lock]; w != "" && w != chain {
				chain += " > " + w
			}
			take(st, lock, mode, in, chain)
		}
		for _, n := range q.needs {
			m := *n
			if m.param >= 0 && m.param < len(args) {
				a := args[m.param]
				if a.Addr != nil && !a.Addr.Heap && !strings.HasPrefix(a.Addr.Root, "g:") && st.Get("pub:"+a.Addr.Root) == "" {
					continue
				}
				m.param = paramOf(e.addrOf(a))
			} else {
				m.param = -1
			}
			need(st, &m, in)
		}
		if q.spawns {
			s.spawns = true
			for _, a := range args {
				publish(e, st, a)
			}
		}
		for w := range q.blocks {
			block(st, w, in)
		}
	}
	r.Call = func(x *CallCtx) []Out {
		st := x.St
		e = x.E
		if t, w, ok := lockOp(x.Name); ok {
			n := l.lockName(e, x)
			c.Count("lock operation", x.Name+" "+n+" in "+fnName(x.Instr.Parent()))
			mode := "r"
			if w {
				mode = "w"
			}
			if t {
				take(st, n, mode, x.Instr, x.Name)
				st.Set("lk:"+n, mode)
				st.Note(x.Pos(), "%s is taken", n)
				return []Out{{}}
			}
			h := held(st, n)
			switch {
			case h == "":
				st.Set("un:"+n, mode)
			case h != mode && l.report && l.locks:
				e.Violation(st, "mode/"+fnName(x.Instr.Parent())+"/"+n, x.Instr, "%s is released as %q but held as %q", n, mode, h)
				fallthrough
			default:
				st.Set("lk:"+n, "")
				st.Note(x.Pos(), "%s is released", n)
			}
			return []Out{{}}
		}
		if x.Callee != nil && isRepoFn(x.Callee) {
			if !e.shouldInline(st, x.Callee) {
				apply(st, x.Callee, x.Args, x.Instr)
				if q := l.sum(x.Callee); len(q.live) > 0 {
					res := make([]AV, x.Callee.Signature.Results().Len())
					for i, k := range q.live {
						res[i].Lab = lab("live:" + k)
					}
					return []Out{{Res: res}}
				}
			}
			return nil
		}
		if netCall(x.Instr.Common(), x.Name) {
			block(st, networkIO, x.Instr)
		}
		if x.Instr.Common().IsInvoke() && x.Callee == nil {
			for _, g := range l.implementers(x.Instr.Common()) {
				apply(st, g, x.Args, x.Instr)
			}
			return nil
		}
		if x.Callee == nil {
			for _, g := range l.callbacks(x.Instr) {
				c.Count("stored callback", fnName(g)+" called in "+fnName(x.Instr.Parent()))
				apply(st, g, nil, x.Instr)
			}
		}
		if x.Name == fnQueue {
			for _, a := range x.Args {
				if a.Fn != nil {
					l.queued[a.Fn.Fn] = x.Instr
					publish(e, st, a)
				}
			}
			return nil
		}
		if displayBlock[x.Name] {
			block(st, displayWait, x.Instr)
			return nil
		}
		// functions handed to a library run here
		if x.Callee != nil && syncPass(x.Name) {
			for _, a := range x.Args {
				if a.Fn != nil && isRepoFn(a.Fn.Fn) {
					apply(st, a.Fn.Fn, nil, x.Instr)
				}
			}
		}
		return nil
	}
	r.OnGo = func(x *CallCtx) {
		s.spawns = true
		for _, a := range x.Args {
			publish(x.E, x.St, a)
		}
		fn := x.E.val(x.St, x.Instr.Common().Value)
		publish(x.E, x.St, fn)
	}
	access := func(st *State, a *Addr, write bool, in ssa.Instruction) {
		var k string
		if fl := a.field(); fl != nil {
			k = a.Owner + "." + fl.Name()
		} else if strings.HasPrefix(a.Root, "g:") {
			k = a.Root
		}
		g := l.guards[k]
		if g == "" {
			return
		}
		if !a.Heap && !strings.HasPrefix(a.Root, "g:") && st.Get("pub:"+a.Root) == "" {
			return // not shared yet
		}
		c.Count("guarded access", k+" in "+fnName(in.Parent()))
		need(st, &lockNeed{lock: g, write: write, what: k, param: paramOf(a), at: in}, in)
	}
	// the contents of a map kept in a guarded field are guarded too
	mapUse := func(st *State, m ssa.Value, write bool, in ssa.Instruction) {
		if _, ok := m.Type().Underlying().(*types.Map); !ok {
			return
		}
		o, fl := staticField(m)
		if fl == nil || l.guards[o+"."+fl.Name()] == "" {
			for _, x := range e.val(st, m).labels() {
				if k, ok := strings.CutPrefix(x, "live:"); ok {
					c.Count("guarded access", k+" in "+fnName(in.Parent()))
					need(st, &lockNeed{lock: l.guards[k], write: write, what: k, param: -1, at: in}, in)
				}
			}
			return
		}
		if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
			access(st, e.addrOf(e.val(st, u.X)), write, in)
			return
		}
		k := o + "." + fl.Name()
		c.Count("guarded access", k+" in "+fnName(in.Parent()))
		need(st, &lockNeed{lock: l.guards[k], write: write, what: k, param: -1, at: in}, in)
	}
	r.Load = func(en *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		fl := a.field()
		if fl == nil || !a.Heap || l.guards[a.Owner+"."+fl.Name()] == "" {
			return v
		}
		if _, ok := fl.Type().Underlying().(*types.Map); ok {
			v.Lab = labJoin(v.Lab, lab("live:"+a.Owner+"."+fl.Name()))
		}
		return v
	}
	r.Pre = func(en *Engine, st *State, in ssa.Instruction) {
		e = en
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL {
				access(st, e.addrOf(e.val(st, in.X)), false, in)
			}
			if in.Op == token.ARROW {
				block(st, chanName("recv", in.X), in)
			}
		case *ssa.Store:
			access(st, e.addrOf(e.val(st, in.Addr)), true, in)
			v := e.val(st, in.Val)
			if a := e.addrOf(e.val(st, in.Addr)); a.Heap || strings.HasPrefix(a.Root, "g:") {
				publish(e, st, v)
			}
		case *ssa.MapUpdate:
			publish(e, st, e.val(st, in.Value))
			mapUse(st, in.Map, true, in)
		case *ssa.Lookup:
			mapUse(st, in.X, false, in)
		case *ssa.Next:
			if r, ok := in.Iter.(*ssa.Range); ok {
				mapUse(st, r.X, false, in)
			}
		case *ssa.Send:
			publish(e, st, e.val(st, in.X))
			if !l.c.P.freshSend(in) {
				block(st, chanName("send", in.Chan), in)
			}
		case *ssa.Select:
			if in.Blocking && len(in.States) == 1 {
				d := "send"
				if in.States[0].Dir == types.RecvOnly {
					d = "recv"
				}
				block(st, chanName(d, in.States[0].Chan), in)
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				mapUse(st, in.Call.Args[0], true, in)
			}
		}
	}
	r.Exit = func(en *Engine, st *State, ret []AV, in ssa.Instruction) {
		if st.Get("exit") == "fatal" {
			return
		}
		for i, v := range ret {
			if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Map); !ok {
				continue
			}
			for _, x := range v.labels() {
				k, ok := strings.CutPrefix(x, "live:")
				if !ok {
					continue
				}
				s.live[i] = k
				if g := l.guards[k]; s.acquires[g] != "" && held(st, g) == "" && l.report && !l.locks {
					en.Violation(st, "handed out/"+k+"/"+me, in, "%s returns what %s holds, not a copy of it, after releasing %s", me, k, g)
				}
			}
		}
		d := ""
		var ks []string
		for k, v := range st.auto {
			if strings.HasPrefix(k, "lk:") {
				ks = append(ks, "+"+k[3:]+v)
			}
			if strings.HasPrefix(k, "un:") {
				ks = append(ks, "-"+k[3:]+v)
			}
		}
		sort.Strings(ks)
		d = strings.Join(ks, " ")
		s.deltas[d] = true
		if d != "" && l.report && l.locks && l.c.P.isRootSync(f) {
			for _, k := range ks {
				if k[0] == '+' {
					en.Violation(st, "kept/"+me+"/"+k[1:len(k)-1], in, "%s can return still holding %s", me, k[1:len(k)-1])
				} else {
					en.Violation(st, "unheld/"+me+"/"+k[1:len(k)-1], in, "%s can release %s without holding it", me, k[1:len(k)-1])
				}
			}
		}
	}
	eng := NewEngine(c.P, r)
	e = eng
	eng.MaxStates = 60000
	eng.RunFrom(nil, f)
	if len(eng.roots) > 0 && l.report {
		c.merge(eng)
	}
	if eng.Overflow && l.report {
		c.Violation("undecided/"+me, f.Pos(), "the locks of %s could not be decided", me)
	}
	l.sums[f] = s
}

func publish(e *Engine, st *State, v AV) {
	if v.Addr != nil && !v.Addr.Heap && !strings.HasPrefix(v.Addr.Root, "g:") && st.Get("pub:"+v.Addr.Root) == "" {
		st.Set("pub:"+v.Addr.Root, "1")
		publish(e, st, e.loadCell(st, v.Addr))
	}
	if v.Fn != nil {
		for _, b := range v.Fn.Bind {
			publish(e, st, b)
		}
	}
}

// isRootSync: nothing calls f in the same goroutine, or it can be entered
// from outside the static call graph.
func (p *Prog) isRootSync(f *ssa.Function) bool {
	if f.Synthetic != "" && f.Parent() == nil && f.Name() != "init" {
		return false
	}
	if p.goed[f] {
		return true
	}
	n := 0
	for _, c := range p.callers[f] {
		if _, ok := c.(*ssa.Go); !ok && c.Parent() != f {
			n++
		}
	}
	if n > 0 {
		return false
	}
	if f.Parent() != nil && !p.goed[f] {
		// a closure handed on as an argument runs where it is handed on
		return !p.argOnly(f)
	}
	return true
}

// argOnly: the closure is only called or given to calls.
func (p *Prog) argOnly(f *ssa.Function) bool {
	ok := true
	found := false
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, is := in.(*ssa.MakeClosure)
			var v ssa.Value
			if is && mc.Fn == f {
				v = mc
			} else {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) {
						found = true
						if ci, isC := in.(ssa.CallInstruction); !isC || ci.Common().StaticCallee() == f {
							ok = ok && isC
						} else if cal := ci.Common().StaticCallee(); !runsArg(cal) {
							ok = false
						}
					}
				}
				continue
			}
			found = true
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Go:
					ok = false
				case ssa.CallInstruction:
					if r.Common().Value == v {
						continue
					}
					if cal := r.Common().StaticCallee(); !runsArg(cal) {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	}
	return ok && found
}

func init() {
	register("C10", checkLocks)
	register("C11", checkGuarded)
}

// what is shared between goroutines, and the lock that protects it
var guardTable = map[string]string{
	"zkserver.ZKS.sessions":                       "zkserver.ZKS.Mutex",
	"zkserver.sessionContext.tagMessage":          "zkserver.sessionContext.Mutex",
	"zkserver/account.Account.online":             "zkserver/account.Account.Mutex",
	"zkserver/account.diskNotification.processed": "zkserver/account.Account.Mutex",
	"tagstack.TagStack.at":                        "tagstack.TagStack.Mutex",
	"inidb.INIDB.tables":                          "inidb.INIDB.mtx",
	"inidb.INIDB.dirty":                           "inidb.INIDB.mtx",
	"addressbook.AddressBook.identities":          "addressbook.AddressBook.RWMutex",
	"zkclient.ZKC.groups":                         "zkclient.ZKC.RWMutex",
	"zkclient.ZKC.conversation":                   "zkclient.ZKC.RWMutex",
	"zkclient.ZKC.active":                         "zkclient.ZKC.RWMutex",
	"zkclient.ZKC.online":                         "zkclient.ZKC.RWMutex",
	"zkclient.ZKC.kx":                             "zkclient.ZKC.RWMutex",
	"zkclient.ZKC.tagCallback":                    "zkclient.ZKC.RWMutex",
	"zkclient.ZKC.pendingIdentities":              "zkclient.ZKC.pendingIdentitiesMutex",
	"zkclient.ZKC.lastTick":                       "zkclient.ZKC.write",
	"zkclient.ZKC.pingInProgress":                 "zkclient.ZKC.write",
	"g:session.ephemeralPublic":                   "g:session.ephemeralMutex",
	"g:session.ephemeralPrivate":                  "g:session.ephemeralMutex",
}

// fields a goroutine that clears them may read without the lock: nobody else
// writes them while it runs
var ownerReads = map[string]bool{"zkclient.ZKC.kx": true}

// state that is only shared between goroutines in one of the programs
var sharedOnlyIn = map[string]string{
	"g:session.ephemeralPublic":  "zkserver",
	"g:session.ephemeralPrivate": "zkserver",
}

// run explores every function once the summaries are there.
func (l *lockflow) run() {
	l.compute()
	l.report = true
	l.order = map[string]map[string]*lockEdge{}
	for _, f := range l.c.P.Funcs {
		if l.sums[f] != nil && (f.Synthetic == "" || f.Parent() != nil) {
			l.explore(f)
		}
	}
}

func checkLocks(c *Ctx) {
	l := &lockflow{c: c, guards: map[string]string{}, locks: true}
	c.Rule("every lock operation of every function is followed on every path: no goroutine takes a lock it already holds (directly or through a callee), releases one it does not hold, or ends while holding one")
	c.Rule("the order in which locks are taken under one another, and in which a lock holder waits for a channel served by goroutines that take locks, has no cycle")
	l.run()
	for from, m := range l.order {
		for to := range m {
			c.Count("lock order", from+" -> "+to)
		}
	}
	l.waits()
	l.cycles()
	for _, lk := range []string{"zkserver.ZKS.Mutex", "zkserver.sessionContext.Mutex", "zkserver/account.Account.Mutex",
		"inidb.INIDB.mtx", "zkclient.ZKC.RWMutex", "zkclient.ZKC.ratchetMtx", "tagstack.TagStack.Mutex"} {
		c.Count("lock", lk)
	}
	c.Need("lock operation", 60)
	c.Need("lock order", 10)
}

// waits: a goroutine that waits for a channel with a lock held must have
// somebody to end the wait who can get there without that lock.
func (l *lockflow) waits() {
	c := l.c
	type alt struct {
		f     *ssa.Function
		locks []string
	}
	alts := map[string][]alt{}
	servers := func(node string) []alt {
		if a, ok := alts[node]; ok {
			return a
		}
		var r []alt
		if node == displayWait {
			set := map[string]bool{}
			var first *ssa.Function
			for f := range l.queued {
				first = f
				for lock := range l.sum(f).acquires {
					set[lock] = true
				}
			}
			if first != nil {
				r = append(r, alt{first, sortedKeys(set)})
			}
			alts[node] = r
			return r
		}
		op := "recv:" + node[5:]
		if strings.HasPrefix(node, "recv:") {
			op = "send:" + node[5:]
		}
		match := func(p *Prog, in ssa.Instruction) bool { return chanOp(in, op) }
		for _, f := range c.P.Funcs {
			if hasEvent(c.P, f, match) && answers(f, op) {
				r = append(r, alt{f, nil})
			}
		}
		for f := range c.P.reachesSync(match) {
			if c.P.isRootSync(f) {
				var ls []string
				for lock := range l.sum(f).acquires {
					ls = append(ls, lock)
				}
				sort.Strings(ls)
				r = append(r, alt{f, ls})
			}
		}
		alts[node] = r
		return r
	}
	// lock -> lock only
	reach := func(from, to string) bool {
		seen := map[string]bool{from: true}
		q := []string{from}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			if x == to {
				return true
			}
			for y := range l.order[x] {
				if !isWait(y) && !seen[y] {
					seen[y] = true
					q = append(q, y)
				}
			}
		}
		return false
	}
	for _, lock := range sortedOrder(l.order) {
		for _, node := range sortedEdges(l.order[lock]) {
			if !isWait(node) {
				continue
			}
			at := l.order[lock][node]
			if node == networkIO {
				c.Count("network wait under a lock", lock+" in "+at.where)
				if serverLocks[lock] {
					c.Violation("network/"+lock+"/"+fnName(at.at.Parent()), at.at.Pos(),
						"%s waits for a client's connection with %s held: one slow client stops every other", at.where, lock)
				}
				continue
			}
			if node != displayWait && !l.made(node[5:], at.at.Parent()) {
				continue
			}
			c.Count("wait under a lock", lock+" "+node+" in "+at.where)
			n, bad := 0, 0
			how := ""
			for _, a := range servers(node) {
				if pa, ph := pkgOf(a.f), pkgOf(at.at.Parent()); pa != ph && pa.Pkg.Name() == "main" && ph.Pkg.Name() == "main" {
					continue
				}
				n++
				for _, m := range a.locks {
					if reach(m, lock) {
						bad++
						how = fnName(a.f) + " needs " + m
						break
					}
				}
			}
			if n == 0 || bad < n {
				continue
			}
			c.Violation("wait/"+lock+"/"+node+"/"+fnName(at.at.Parent()), at.at.Pos(),
				"%s waits (%s) with %s held, and whoever would end the wait needs that lock: %s", at.where, node, lock, how)
		}
	}
}

// networkIO: waiting for the other end of a connection.
const networkIO = "network"

// locks that sessions of different clients share
var serverLocks = map[string]bool{"zkserver.ZKS.Mutex": true, "zkserver.ZKS.rendezvousMtx": true, "zkserver.ZKS.pendingMtx": true,
	"zkserver/account.Account.Mutex": true, "inidb.INIDB.mtx": true, "debug.Debug.Mutex": true, "g:session.ephemeralMutex": true}

func netMethod(cc *ssa.CallCommon) bool {
	if n := cc.Method.Name(); n != "Read" && n != "Write" {
		return false
	}
	t, ok := cc.Value.Type().(*types.Named)
	return ok && t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == "net"
}

func netCall(cc *ssa.CallCommon, name string) bool {
	if cc.IsInvoke() {
		return netMethod(cc)
	}
	if strings.HasPrefix(name, "(*crypto/tls.Conn).") {
		return strings.HasSuffix(name, ".Handshake") || strings.HasSuffix(name, ".Read") || strings.HasSuffix(name, ".Write")
	}
	// a library function that is given a connection to read or write
	for _, a := range cc.Args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if ci, ok := a.(*ssa.ChangeInterface); ok {
			a = ci.X
		}
		if t, ok := a.Type().(*types.Named); ok && t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == "net" && t.Obj().Name() == "Conn" {
			return strings.HasPrefix(name, "io.") || strings.Contains(name, "xdr")
		}
	}
	return false
}

func isWait(n string) bool {
	return n == networkIO || strings.HasPrefix(n, "send:") || strings.HasPrefix(n, "recv:") || n == displayWait
}

// answers: f receives the answer to something it sent just before.
func answers(f *ssa.Function, op string) bool {
	if !strings.HasPrefix(op, "recv:") {
		return false
	}
	asked := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send:
				asked = true
			case *ssa.Select:
				for _, s := range in.States {
					asked = asked || s.Dir == types.SendOnly
				}
			}
		}
	}
	return asked
}

// made: a program that contains f can create the channel.
func (l *lockflow) made(field string, f *ssa.Function) bool {
	if pkgOf(f).Pkg.Name() != "main" {
		return true
	}
	p := l.c.P
	makes := p.reaches(func(p *Prog, in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		if _, ok := st.Val.(*ssa.MakeChan); !ok {
			return false
		}
		o, fl := staticField(&ssa.UnOp{Op: token.MUL, X: st.Addr})
		return fl != nil && o+"."+fl.Name() == field
	})
	for g := range makes {
		if pkgOf(g) == pkgOf(f) {
			return true
		}
	}
	return false
}

// lockName names a lock by the field or variable it is.
func (l *lockflow) lockName(e *Engine, x *CallCtx) string {
	if len(x.Instr.Common().Args) > 0 {
		v := x.Instr.Common().Args[0]
		for {
			fv, ok := v.(*ssa.FreeVar)
			if !ok {
				break
			}
			b := binding(fv)
			if b == nil {
				break
			}
			v = b
		}
		if a, ok := v.(*ssa.Alloc); ok {
			return "local:" + fnName(a.Parent()) + "." + a.Comment
		}
	}
	return lockName(e, x.Args[0])
}

// binding is what a closure's free variable stands for.
func binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				for i, v := range f.FreeVars {
					if v == fv {
						return mc.Bindings[i]
					}
				}
			}
		}
	}
	return nil
}

// chanOp: the instruction is (possibly among others) the channel operation.
func chanOp(in ssa.Instruction, name string) bool {
	switch in := in.(type) {
	case *ssa.Send:
		return chanName("send", in.Chan) == name
	case *ssa.UnOp:
		return in.Op == token.ARROW && chanName("recv", in.X) == name
	case *ssa.Select:
		for _, s := range in.States {
			d := "send"
			if s.Dir == types.RecvOnly {
				d = "recv"
			}
			if chanName(d, s.Chan) == name {
				return true
			}
		}
	case *ssa.Range:
		return chanName("recv", in.X) == name
	}
	return false
}

// reachesSync: functions that run a matching instruction in their goroutine.
func (p *Prog) reachesSync(ev func(p *Prog, in ssa.Instruction) bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if hasEvent(p, f, ev) {
			m[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range p.Funcs {
			if m[f] {
				continue
			}
			s, _ := p.syncCallees(f)
			for _, g := range s {
				if m[g] {
					m[f] = true
					again = true
					break
				}
			}
		}
	}
	return m
}

// cycles reports every edge of the order graph that lies on a cycle, once
// per set of locks.
func (l *lockflow) cycles() {
	reach := func(a, b string) []string {
		prev := map[string]string{a: a}
		q := []string{a}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			if x == b {
				var path []string
				for y := b; ; y = prev[y] {
					path = append([]string{y}, path...)
					if y == a {
						return path
					}
				}
			}
			for _, y := range sortedEdges(l.order[x]) {
				if isWait(y) {
					continue
				}
				if prev[y] == "" {
					prev[y] = x
					q = append(q, y)
				}
			}
		}
		return nil
	}
	seen := map[string]bool{}
	for _, a := range sortedOrder(l.order) {
		for _, b := range sortedEdges(l.order[a]) {
			if a == b || isWait(b) {
				continue
			}
			path := reach(b, a)
			if path == nil {
				continue
			}
			set := map[string]bool{}
			for _, x := range path {
				set[x] = true
			}
			k := strings.Join(sortedKeys(set), ",")
			if seen[k] {
				continue
			}
			seen[k] = true
			txt := fmt.Sprintf("%s then %s in %s", a, b, l.order[a][b].where)
			for i := 0; i+1 < len(path); i++ {
				txt += fmt.Sprintf("; %s then %s in %s", path[i], path[i+1], l.order[path[i]][path[i+1]].where)
			}
			l.c.Violation("cycle/"+k, l.order[a][b].at.Pos(), "goroutines can block each other for ever: %s", txt)
		}
	}
}

func sortedEdges(m map[string]*lockEdge) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedOrder(m map[string]map[string]*lockEdge) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func checkGuarded(c *Ctx) {
	l := &lockflow{c: c, guards: guardTable}
	c.Rule("every access to state that goroutines share is made with its lock held by the same goroutine, at the access or at some caller on every chain of calls that leads to it; a write needs the lock for writing; objects not yet visible to another goroutine are exempt")
	l.run()
	p := c.P
	owners := map[string]map[*ssa.Function]bool{} // field -> functions whose goroutine clears it
	for k := range ownerReads {
		owners[k] = map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || !isNilConst(st.Val) {
						continue
					}
					o, fl := staticField(&ssa.UnOp{Op: token.MUL, X: st.Addr})
					if fl == nil || o+"."+fl.Name() != k {
						continue
					}
					for g := range p.threadsOf([]*ssa.Function{f}) {
						if p.goed[g] {
							owners[k][g] = true
						}
					}
					c.Count("owner", k+" is cleared in "+fnName(f))
				}
			}
		}
	}
	for f, s := range l.sums {
		if !p.isRootSync(f) {
			continue
		}
		for _, n := range s.needs {
			if pk := sharedOnlyIn[n.what]; pk != "" && !inPkg(f, pk) {
				continue
			}
			if !n.write && owners[n.what] != nil {
				own := false
				for g := f; g != nil; g = g.Parent() {
					own = own || owners[n.what][g]
				}
				if own {
					continue
				}
			}
			how := "read"
			if n.write {
				how = "written"
			}
			c.Violation("unlocked/"+n.what+"/"+fnName(n.at.Parent())+"/"+fnName(f), n.at.Pos(),
				"%s is %s without %s: %s", n.what, how, n.lock, strings.Join(n.via, " > "))
		}
	}
	c.Need("guarded access", 60)
}

// displayWait: waiting for the display goroutine.
const displayWait = "wait:display"

// functions that hand a closure to the display goroutine and wait for it
var displayBlock = map[string]bool{
	"github.com/companyzero/ttk.NewWindow":         true,
	"github.com/companyzero/ttk.DefaultAttributes": true,
	"github.com/companyzero/ttk.Deinit":            true,
}

const fnQueue = "github.com/companyzero/ttk.Queue"

// chanName identifies a channel kept in a field: "send:owner.field".
func chanName(dir string, v ssa.Value) string {
	o, f := staticField(v)
	if f == nil {
		return ""
	}
	return dir + ":" + o + "." + f.Name()
}
