package main

import (
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", checkDurable)
}

var createCalls = []string{"os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile", "os.Create"}

// checkDurable (C25): state files are replaced whole, and success means saved.
func checkDurable(c *Ctx) {
	c.Rule("a file that replaces another was written, synced and closed without an error before it is renamed into place, and a function that replaces a file returns success only after the rename succeeded")
	c.Rule("no existing state file is written in place: truncating writes are only of files this run found missing, of logs and of the spool of a transfer that starts over")
	c.Rule("a database record that was set or deleted is saved, and the failure of saving is not reported as success")
	c.Rule("a change of the database in memory marks it as changed; the mark is only cleared when the file is in place")
	makes := c.P.reaches(callEvent(createCalls...))
	renames := c.P.eventFuncs(callEvent("os.Rename"))
	var entries []*ssa.Function
	for _, f := range c.P.climb(renames, func(f *ssa.Function) bool { return makes[f] }) {
		if makes[f] {
			entries = append(entries, f)
		}
	}
	for _, f := range entries {
		if !c.renamesNew(f) {
			continue
		}
		c.fileReplaceOpt("replace "+fnName(f), f, "file replaced")
	}
	c.Need("file replaced", 5)
	c.inPlace()
	c.dbSaved()
	c.dbDirty()
}

// renamesNew: some rename of f (or of what it calls) moves a file f created.
func (c *Ctx) renamesNew(f *ssa.Function) bool {
	found := false
	r := &Rule{ID: "renames of " + fnName(f)}
	r.Event = callEvent("os.Rename")
	r.Call = func(x *CallCtx) []Out {
		switch x.Name {
		case "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile", "os.Create":
			l := lab("newfile")
			if x.Name == "os.OpenFile" || x.Name == "os.Create" {
				// known by its path
				l = labJoin(l, x.Args[0].Lab)
			}
			return errFork(x, "creating the file", []AV{{K: NonZero, Lab: l}}, nil, nil)
		case "(*os.File).Name":
			return []Out{{Res: []AV{{Lab: x.Args[0].Lab}}}}
		case "os.Rename":
			if x.Args[0].has("newfile") {
				found = true
			}
		}
		return stdCall(x)
	}
	e := NewEngine(c.P, r)
	e.RunFrom(paramLabels, f)
	return found || e.Overflow
}

// fileReplaceOpt is fileReplace for functions that may also succeed without
// replacing (nothing to save) as long as nothing was created.
func (c *Ctx) fileReplaceOpt(id string, entry *ssa.Function, kind string) {
	r := &Rule{ID: id}
	r.Event = callEvent("os.Rename", "(*os.File).Sync", "(*os.File).Close", "(*os.File).Write", "io.Copy", "os.CreateTemp", "io/ioutil.TempFile")
	step := func(x *CallCtx, key string) []Out {
		return errFork(x, key, nil, func(s *State) { s.Set(key, "ok") }, func(s *State) { s.Set(key, "fail") })
	}
	write := func(x *CallCtx) []Out {
		return errFork(x, "writing", []AV{{}}, func(s *State) {
			if s.Get("write") == "" {
				s.Set("write", "ok")
			}
			s.Set("sync", "")
		}, func(s *State) { s.Set("write", "fail") })
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile", "os.Create":
			return errFork(x, "creating the file", []AV{{K: NonZero, Lab: lab("newfile")}}, func(s *State) {
				for _, k := range []string{"write", "sync", "close"} {
					s.Set(k, "")
				}
				s.Set("created", "1")
			}, func(s *State) { s.Set("nofile", "1") })
		case "(*os.File).Name":
			return []Out{{Res: []AV{{Lab: x.Args[0].Lab}}}}
		case "(*os.File).Write", "(*os.File).WriteString", fnMarshal, "io.Copy", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString", "(*bufio.Writer).Flush":
			if x.Args[0].has("newfile") {
				return write(x)
			}
		case "(*os.File).Sync":
			if x.Args[0].has("newfile") {
				return step(x, "sync")
			}
		case "(*os.File).Close":
			if x.Args[0].has("newfile") {
				return step(x, "close")
			}
		case "os.Rename":
			if !x.Args[0].has("newfile") {
				return errFork(x, "renaming another file", nil, nil, nil)
			}
			e.Count(kind, "rename in "+fnName(x.Instr.Parent()))
			for _, k := range []string{"write", "sync", "close"} {
				if st.Get(k) != "ok" {
					e.Violation(st, fnName(entry)+"/rename/"+k, x.Instr, "%s: the file replaces the old one although its %s was %s", fnName(entry), k, orNone(st.Get(k)))
				}
			}
			return errFork(x, "the rename", nil, func(s *State) { s.Set("renamed", "1") }, func(s *State) { s.Set("renamed", "") })
		}
		return stdCall(x)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if len(ret) == 0 || !isErr(in.Parent().Signature.Results().At(len(ret)-1).Type()) {
			return
		}
		if ret[len(ret)-1].nonzero() {
			return
		}
		e.Count(kind, "success of "+fnName(entry))
		if st.Get("renamed") != "1" && (st.Get("created") == "1" || st.Get("nofile") == "1") {
			e.Violation(st, fnName(entry)+"/success", in, "%s reports success without the complete file having been put in place", fnName(entry))
		}
	}
	c.Explore(r, paramLabels, []*ssa.Function{entry})
}

// inPlace: truncating writes of existing files.
func (c *Ctx) inPlace() {
	role := map[string]bool{}
	for _, n := range []string{"spoolDir", "logsDir", "historyFilename", "descriptor"} {
		if v, ok := c.pkgConst("zkclient", n); ok {
			role[v] = true
		}
	}
	writers := map[string]bool{"os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Create": true, "os.OpenFile": true, "os.Truncate": true}
	probes := map[string]bool{"os.Stat": true, "os.Lstat": true, "os.ReadFile": true, "io/ioutil.ReadFile": true, "crypto/tls.LoadX509KeyPair": true, "os.Open": true}
	// places a path or an error comes from, formatting included
	var from func(v ssa.Value, depth int) []origin
	from = func(v ssa.Value, depth int) []origin {
		var r []origin
		for _, o := range c.P.origins(v, nil) {
			if ci, ok := o.V.(*ssa.Call); ok && depth < 4 && (o.Name == "fmt.Sprintf" || o.Name == "(*flag.FlagSet).Lookup") {
				for _, a := range ci.Call.Args {
					r = append(r, from(a, depth+1)...)
				}
			}
			r = append(r, o)
		}
		return r
	}
	probed := func(v ssa.Value) bool {
		for _, o := range from(v, 0) {
			if o.Kind == "call" && probes[o.Name] {
				return true
			}
		}
		return false
	}
	// missing: control only comes here when a probe failed
	missing := func(in ssa.Instruction) bool {
		for b := in.Block(); b.Idom() != nil; b = b.Idom() {
			d := b.Idom()
			br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range d.Succs {
				if !s.Dominates(in.Block()) || len(s.Preds) > 1 {
					continue
				}
				if cmp, ok := br.Cond.(*ssa.BinOp); ok && isErr(cmp.X.Type()) {
					if (i == 0) == (cmp.Op.String() == "!=") && (probed(cmp.X) || probed(cmp.Y)) {
						return true
					}
					continue
				}
				if probed(br.Cond) {
					return true
				}
				if ci, ok := br.Cond.(*ssa.Call); ok {
					for _, a := range ci.Call.Args {
						if probed(a) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	var judge func(in ssa.CallInstruction, path ssa.Value, depth int)
	judge = func(in ssa.CallInstruction, path ssa.Value, depth int) {
		f := in.Parent()
		if missing(in) {
			return
		}
		if prm, ok := path.(*ssa.Parameter); ok && depth < 4 {
			n := 0
			for i, q := range f.Params {
				if q != prm {
					continue
				}
				for _, ci := range c.P.callers[f] {
					if ci.Common().StaticCallee() == f {
						n++
						judge(ci, ci.Common().Args[i], depth+1)
					}
				}
			}
			if n > 0 {
				return
			}
		}
		for _, o := range from(path, 0) {
			if k, ok := o.V.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && role[constant.StringVal(k.Value)] {
				return
			}
			if o.Kind == "call" && (strings.HasPrefix(o.Name, "(time.Time).") || strings.HasPrefix(o.Name, "time.") || o.Name == "flag.String") {
				return
			}
		}
		c.Violation("inplace/"+fnName(f), in.Pos(), "%s writes a file in place without having found it missing: a crash leaves a partial file where a whole one was", fnName(f))
	}
	pk := []string{"zkserver", "zkserver/account", "zkclient", "inidb", "zkidentity", "ratchet", "debug"}
	for _, f := range c.P.Funcs {
		in := false
		for _, k := range pk {
			in = in || inPkg(f, k)
		}
		if !in {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || !writers[staticName(ci)] {
					continue
				}
				if staticName(ci) == "os.OpenFile" {
					if k, ok := ci.Common().Args[1].(*ssa.Const); ok && k.Int64()&int64(os.O_TRUNC) == 0 {
						c.Count("file opened without truncating it", fnName(f))
						continue
					}
				}
				c.Count("file written in place", fnName(f))
				judge(ci, ci.Common().Args[0], 0)
			}
		}
	}
	c.Need("file written in place", 3)
}

// dbSaved: records set or deleted are saved.
func (c *Ctx) dbSaved() {
	r := &Rule{ID: "saved databases"}
	r.Event = callEvent(iniAPI...)
	r.NoInline = func(f *ssa.Function) bool { return inPkg(f, "inidb") }
	site := func(v AV) string {
		for _, l := range v.labels() {
			if strings.HasPrefix(l, "db:") {
				return l[3:]
			}
		}
		return ""
	}
	r.Call = func(x *CallCtx) []Out {
		st := x.St
		w := fnName(x.Instr.Parent())
		switch x.Name {
		case fnIniNew:
			s := strings.ReplaceAll(x.E.Where(x.Instr), ",", ";")
			for _, k := range []string{"mod:", "lost:"} {
				st.Set(k+s, "")
			}
			return iniOpen(x, lab("db:"+s), nil)
		case fnIniSet, fnIniDel:
			s := site(x.Args[0])
			if s == "" {
				s = "?"
			}
			x.E.Count("database change", short2(x.Name)+" in "+w)
			return errFork(x, "changing the record", nil, func(t *State) { t.Set("mod:"+s, "1"); t.Set("lost:"+s, "") }, nil)
		case fnIniSave:
			s := site(x.Args[0])
			if s == "" {
				s = "?"
			}
			x.E.Count("database save", w)
			return errFork(x, "saving the database", nil, func(t *State) { t.Set("mod:"+s, ""); t.Set("lost:"+s, "") }, func(t *State) {
				if t.Get("mod:"+s) == "1" {
					t.Set("lost:"+s, "1")
				}
			})
		case fnIniGet:
			return errFork(x, "finding the record", []AV{{}}, nil, nil)
		}
		return stdCall(x)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		f := in.Parent()
		succ := true
		hasErr := false
		if n := len(ret); n > 0 && isErr(f.Signature.Results().At(n-1).Type()) {
			hasErr = true
			succ = !ret[n-1].nonzero()
		} else if n > 0 && isBool(f.Signature.Results().At(n-1).Type()) {
			succ = !ret[n-1].is(Zero)
		}
		// the outcome of a request is its reply (C08)
		for _, p := range f.Params {
			if inPkg(f, "zkserver") && typeName(p.Type()) == "rpc.Message" {
				hasErr = false
			}
		}
		if !succ {
			return
		}
		e.Count("database outcome", fnName(f))
		for k, v := range st.auto {
			if v != "1" {
				continue
			}
			switch {
			case strings.HasPrefix(k, "lost:"):
				if hasErr {
					e.Violation(st, "lost/"+fnName(f), in, "%s reports success although saving what it changed in a database failed", fnName(f))
				}
			case strings.HasPrefix(k, "mod:"):
				if st.Get("lost:"+k[4:]) != "1" {
					e.Violation(st, "unsaved/"+fnName(f), in, "%s ends with a change of a database that was never saved", fnName(f))
				}
			}
		}
	}
	noDB := func(f *ssa.Function) bool {
		if inPkg(f, "inidb") {
			return false
		}
		has := func(t types.Type) bool { return strings.HasSuffix(t.String(), "inidb.INIDB") }
		for _, p := range f.Params {
			if has(p.Type()) {
				return false
			}
		}
		for _, p := range f.FreeVars {
			if has(deref(p.Type())) {
				return false
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if has(f.Signature.Results().At(i).Type()) {
				return false
			}
		}
		return true
	}
	var from []*ssa.Function
	for _, f := range c.P.eventFuncs(callEvent(fnIniSet, fnIniDel, fnIniSave)) {
		if !inPkg(f, "inidb") {
			from = append(from, f)
		}
	}
	c.Explore(r, nil, c.P.climb(from, noDB))
	c.Need("database change", 8)
	c.Need("database save", 6)
	c.Need("database outcome", 6)
}

// dbDirty: inidb's own bookkeeping.
func (c *Ctx) dbDirty() {
	r := &Rule{ID: "dirty mark"}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if strings.HasSuffix(owner, "INIDB") && isMap(f.Type()) {
			return lab("tables")
		}
		return ""
	}
	r.Lookup = func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out {
		if !x.has("tables") || !isMap(in.Type()) && !in.CommaOk {
			return nil
		}
		v := AV{Lab: lab("tables")}
		if in.CommaOk {
			return []Out{{Res: []AV{v, avTrue}}, {Res: []AV{{K: Zero}, avFalse}}}
		}
		return []Out{{Res: []AV{v}}}
	}
	isTables := func(m ssa.Value) bool {
		for _, o := range c.P.origins(m, func(v ssa.Value) (origin, bool) {
			if u, ok := v.(*ssa.UnOp); ok {
				if own, f := staticField(u.X); f != nil && strings.HasSuffix(own, "INIDB") && isMap(f.Type()) {
					return origin{Kind: "tables", Name: f.Name()}, true
				}
			}
			return origin{}, false
		}) {
			if o.Kind == "tables" {
				return true
			}
		}
		return false
	}
	dirtyStore := func(in ssa.Instruction) (*ssa.Store, bool) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil, false
		}
		own, f := staticField(s.Addr)
		return s, f != nil && strings.HasSuffix(own, "INIDB") && f.Name() == "dirty"
	}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if _, ok := dirtyStore(in); ok {
			return true
		}
		_, ok := in.(*ssa.MapUpdate)
		return ok || callEvent("os.Rename", "builtin:delete")(p, in)
	}
	r.Call = func(x *CallCtx) []Out {
		switch x.Name {
		case "os.Rename":
			return errFork(x, "the rename", nil, func(s *State) { s.Set("renamed", "1") }, nil)
		case "builtin:delete":
			if x.Args[0].has("tables") || isTables(x.Instr.Common().Args[0]) {
				x.E.Count("database map change", "delete in "+fnName(x.Instr.Parent()))
				x.St.Set("changed", "1")
			}
		}
		return stdCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if mu, ok := in.(*ssa.MapUpdate); ok && (e.val(st, mu.Map).has("tables") || isTables(mu.Map)) {
			e.Count("database map change", "update in "+fnName(in.Parent()))
			st.Set("changed", "1")
		}
		if s, ok := dirtyStore(in); ok {
			v := e.val(st, s.Val)
			k, isC := s.Val.(*ssa.Const)
			switch {
			case isC && k.Value != nil && constant.BoolVal(k.Value) || v.nonzero():
				st.Set("marked", "1")
			default:
				e.Count("mark cleared", fnName(in.Parent()))
				if st.Get("renamed") != "1" {
					e.Violation(st, "cleared/"+fnName(in.Parent()), in, "the database counts as saved before its file is in place")
				}
			}
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if n := len(ret); n > 0 && ret[n-1].nonzero() && isErr(in.Parent().Signature.Results().At(n-1).Type()) {
			return
		}
		if st.Get("changed") == "1" && st.Get("marked") != "1" {
			e.Violation(st, "unmarked/"+fnName(in.Parent()), in, "%s changes records without marking the database as changed: Save writes nothing", fnName(in.Parent()))
		}
	}
	var entries []*ssa.Function
	for _, f := range c.P.Funcs {
		if inPkg(f, "inidb") && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() != nil {
			entries = append(entries, f)
		}
	}
	sortFns(entries)
	c.Explore(r, nil, entries)
	c.Need("database map change", 3)
	c.Need("mark cleared", 1)
}
