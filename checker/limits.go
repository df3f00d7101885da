package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnUnmarshal  = xdr2 + ".Unmarshal"
	fnUnmarshalL = xdr2 + ".UnmarshalLimited"
	fnDecoder    = xdr2 + ".NewDecoder"
	fnDecoderL   = xdr2 + ".NewDecoderLimited"
	fnMarshal    = xdr2 + ".Marshal"
)

func init() {
	register("C29", checkLimits)
}

// local: data that was written by this program or its user, not by a peer.
func localData(o origin) bool {
	switch o.Kind {
	case "const":
		return true
	case "global":
		return o.Name == "g:os.Stdin" || o.Name == "os.Stdin"
	case "out":
		return o.Name == xdr2+".Marshal"
	case "call":
		switch o.Name {
		case "os.Open", "os.OpenFile", "os.ReadFile", "io/ioutil.ReadFile", "(*inidb.INIDB).Get", "(*inidb.INIDB).Records", "make":
			return true
		}
	}
	return false
}

func diskStop(v ssa.Value) (origin, bool) {
	if c, ok := v.(*ssa.Call); ok {
		if n := staticName(c); strings.HasPrefix(n, "(*inidb.INIDB).") {
			return origin{"call", n, v, c}, true
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		if c, ok := e.Tuple.(*ssa.Call); ok {
			return diskStop(c)
		}
	}
	return origin{}, false
}

// checkLimits (C29): nothing a peer sends makes a process allocate without
// limit.
func checkLimits(c *Ctx) {
	p := c.P
	c.Rule("an unlimited decode reads only data from this host's own files, or a target of fixed size; every other decode is given a limit")
	c.Rule("a decode limit is a nonzero constant or the maximum message size of the configuration or session, and whatever is stored as one is nonzero")
	c.Rule("a session's maximum message size is set before its key exchange starts")
	c.Rule("nothing reads a connection, a message or decompressed data to its end, or allocates a size read from one, without a limit")
	bound := map[string]bool{}
	byPath := map[*ssa.Store]string{} // stores whose value depends on the path
	var limit func(v ssa.Value, in ssa.Instruction, what string, depth int)
	limit = func(v ssa.Value, in ssa.Instruction, what string, depth int) {
		for _, o := range p.origins(v, nil) {
			switch o.Kind {
			case "const":
				k, ok := o.V.(*ssa.Const)
				if ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) > 0 {
					if n, ok := constant.Int64Val(k.Value); ok && n <= 64<<20 {
						continue
					}
				}
				if st, ok := in.(*ssa.Store); ok {
					if _, isC := st.Val.(*ssa.Const); !isC {
						byPath[st] = what
						continue
					}
				}
				c.Violation("limit/"+what, in.Pos(), "%s can be %s, which is no limit", what, o.Name)
			case "field":
				if depth > 4 || bound[o.Name] {
					continue
				}
				bound[o.Name] = true
				c.Count("limit", o.Name)
				n := 0
				for _, st := range p.fieldStores(o.Name) {
					n++
					limit(st.Val, st, o.Name, depth+1)
				}
				if n == 0 {
					c.Violation("limit/"+o.Name, in.Pos(), "%s is used as a decode limit and nothing sets it", o.Name)
				}
			case "call", "out":
				// a parsed number: checked on its paths below
				c.Count("limit", o.Name+" for "+what)
				if o.Name != "strconv.ParseUint" && o.Name != "strconv.ParseInt" && o.Name != "strconv.Atoi" {
					c.Violation("limit/"+what+"/"+o.Name, in.Pos(), "%s comes from %s", what, o.Name)
				} else if st, ok := in.(*ssa.Store); ok {
					byPath[st] = what
				} else {
					c.Violation("limit/"+what+"/"+o.Name, in.Pos(), "%s is an unchecked number", what)
				}
			default:
				c.Violation("limit/"+what+"/"+o.Kind, in.Pos(), "%s comes from %s %s, which is not known to be a limit", what, o.Kind, o.Name)
			}
		}
	}
	for _, f := range p.Funcs {
		if pk := pkgOf(f); pk == nil || !isRepoPkg(pk.Pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := staticName(ci)
				args := ci.Common().Args
				switch n {
				case fnUnmarshal, fnDecoder:
					c.Count("unlimited decode", fnName(f))
					if n == fnUnmarshal && len(args) == 2 {
						t := args[1]
						if mi, ok := t.(*ssa.MakeInterface); ok {
							t = mi.X
						}
						if fixedSize(deref(t.Type())) {
							continue
						}
						// an interface handed on: what callers put in it
						fixed, any := true, false
						for _, o := range p.origins(args[1], func(v ssa.Value) (origin, bool) {
							if mi, ok := v.(*ssa.MakeInterface); ok {
								return origin{"iface", "", mi.X, nil}, true
							}
							return origin{}, false
						}) {
							any = true
							if o.Kind != "iface" || !fixedSize(deref(o.V.Type())) {
								fixed = false
							}
						}
						if any && fixed {
							continue
						}
					}
					for _, o := range p.origins(args[0], diskStop) {
						if !localData(o) {
							c.Violation("unlimited/"+fnName(f)+"/"+o.Kind+"/"+o.Name, in.Pos(),
								"%s decodes data of any size that can come from %s %s", fnName(f), o.Kind, o.Name)
						}
					}
				case fnUnmarshalL, fnDecoderL:
					c.Count("limited decode", fnName(f))
					limit(args[len(args)-1], in, "the decode limit in "+fnName(f), 0)
				case "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "(*bytes.Buffer).ReadFrom", "encoding/gob.NewDecoder", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes":
					src := args[len(args)-1]
					if n == "encoding/gob.NewDecoder" || strings.HasPrefix(n, "(*bufio.Reader).") {
						src = args[0]
					}
					for _, o := range p.origins(src, diskStop) {
						if !localData(o) && !(o.Kind == "global" && o.Name == "os.Stdin") {
							c.Violation("readall/"+fnName(f)+"/"+o.Kind+"/"+o.Name, in.Pos(), "%s reads all of what can come from %s %s", fnName(f), o.Kind, o.Name)
						}
					}
				}
			}
		}
	}
	if len(byPath) > 0 {
		r := &Rule{ID: "limit values"}
		var fs []*ssa.Function
		for st := range byPath {
			fs = append(fs, st.Parent())
		}
		r.Event = func(p *Prog, in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			return ok && byPath[st] != ""
		}
		r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok || byPath[s] == "" {
				return
			}
			e.Count("limit value", byPath[s]+" in "+fnName(s.Parent()))
			if v := e.val(st, s.Val); !v.nonzero() {
				e.Violation(st, "limit/"+byPath[s], in, "%s can be set to zero, which is no limit", byPath[s])
			}
		}
		parse := p.reaches(numberSource)
		c.Explore(r, nil, p.climb(fs, func(f *ssa.Function) bool { return parse[f] }))
	}
	// sessions have their limit before they start
	r := &Rule{ID: "session limit"}
	r.Event = anyEvent(callEvent(fnInitiate, fnRespond))
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := e.addrOf(e.val(st, s.Addr))
		if fl := a.field(); fl != nil && a.Owner == "session.KX" && fl.Name() == "MaxMessageSize" {
			st.Set("max:"+a.Root, "1")
		}
	}
	r.Call = func(x *CallCtx) []Out {
		if x.Name == fnInitiate || x.Name == fnRespond {
			x.E.Count("key exchange", x.E.Where(x.Instr))
			a := x.E.addrOf(x.Args[0])
			if st := x.St; st.Get("max:"+a.Root) == "" {
				x.E.Violation(st, "session-limit/"+fnName(x.Instr.Parent()), x.Instr, "a key exchange starts without a maximum message size")
			}
			return []Out{{}}
		}
		return nil
	}
	r.NoInline = func(f *ssa.Function) bool { return false }
	c.Explore(r, nil, nil, "zkclient", "zkserver")
	c.allocations()
	c.writeLimit()
	c.Need("key exchange", 2)
	c.Need("limited decode", 3)
	c.Need("limit", 3)
}

// isMax: the value is the maximum message size of a session.
func (c *Ctx) isMax(v ssa.Value) bool {
	for {
		cv, ok := v.(*ssa.Convert)
		if !ok {
			break
		}
		v = cv.X
	}
	o, fl := staticField(v)
	return fl != nil && o == "session.KX" && fl.Name() == "MaxMessageSize"
}

// sealedSize: the size compared is that of the sealed record, overhead
// included.
func (c *Ctx) sealedSize(v ssa.Value) bool {
	sum := int64(0)
	sealed := false
	for _, o := range c.P.origins(v, nil) {
		switch {
		case o.Kind == "const":
			if n, ok := intOf(constAV(o.V.(*ssa.Const))); ok {
				sum += n
			}
		case o.Kind == "call" && o.Name == "len":
			for _, q := range c.P.origins(o.V.(*ssa.Call).Call.Args[0], nil) {
				if q.Kind == "call" && q.Name == fnSeal {
					sealed = true
				}
			}
		}
	}
	return sealed || sum >= 16
}

// writeLimit: a session does not send what the other end would refuse.
func (c *Ctx) writeLimit() {
	c.Rule("a session writes a record to its connection only after its size was found not to exceed the maximum message size")
	r := &Rule{ID: "write limit"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && staticName(ci) == fnMarshal && inPkg(in.Parent(), "session")
	}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if owner == "session.KX" {
			switch f.Name() {
			case "Conn":
				return lab("conn")
			}
		}
		return ""
	}
	r.Cmp = func(x *CmpCtx) []Out {
		op := x.Op
		xm, ym := c.isMax(x.In.X), c.isMax(x.In.Y)
		if xm == ym || op == token.EQL || op == token.NEQ {
			return nil
		}
		if xm {
			op = flip(op)
		}
		sz := x.In.X
		if xm {
			sz = x.In.Y
		}
		whole := c.sealedSize(sz)
		return cmpForkOp(x, op, func(s *State, op token.Token) {
			if (op == token.LSS || op == token.LEQ) && whole {
				s.Set("fits", "y")
			}
		})
	}
	r.Call = func(x *CallCtx) []Out {
		if x.Name == fnMarshal && len(x.Args) == 2 && x.Args[0].has("conn") {
			t := x.Instr.Common().Args[1]
			if mi, ok := t.(*ssa.MakeInterface); ok {
				t = mi.X
			}
			if !fixedSize(t.Type()) && !types.IsInterface(t.Type()) {
				x.E.Count("session record written", x.E.Where(x.Instr))
				if x.St.Get("fits") == "" {
					x.E.Violation(x.St, "oversized/"+fnName(x.Instr.Parent()), x.Instr, "a record is written although its size was not found to be within the maximum message size")
				}
				x.St.Set("fits", "")
			}
		}
		return nil
	}
	c.Explore(r, nil, c.P.climb(c.P.eventFuncs(r.Event), func(f *ssa.Function) bool { return !inPkg(f, "session") }, "session"))
	c.Need("session record written", 1)
}

// allocations (part of C29): the size of an allocation is not a number from
// outside that nothing limits.
func (c *Ctx) allocations() {
	p := c.P
	c.Rule("the size of every allocation is a constant, the length of something that exists, or a number that on every path was found to lie between constants")
	sites := map[ssa.Instruction]string{}
	var fs []*ssa.Function
	done := map[string]bool{}
	var add func(in ssa.Instruction, what string)
	follow := func(v ssa.Value, in ssa.Instruction, what string) {
		for _, o := range p.origins(v, nil) {
			switch {
			case o.Kind == "call" && strings.HasPrefix(o.Name, "strconv."), o.Kind == "field" && strings.HasPrefix(o.Name, "rpc."),
				o.Kind == "call" && strings.HasPrefix(o.Name, "(encoding/binary."), o.Kind == "out":
				add(in, what)
			case o.Kind == "field" && !done[o.Name]:
				done[o.Name] = true
				for _, st := range p.fieldStores(o.Name) {
					c.follow2(st, o.Name, add)
				}
			}
		}
	}
	add = func(in ssa.Instruction, what string) {
		if sites[in] == "" {
			sites[in] = what
			fs = append(fs, in.Parent())
		}
	}
	for _, f := range p.Funcs {
		if pk := pkgOf(f); pk == nil || !isRepoPkg(pk.Pkg) || strings.HasPrefix(fnName(f), "tools/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ms, ok := in.(*ssa.MakeSlice); ok {
					for _, v := range []ssa.Value{ms.Len, ms.Cap} {
						if _, ok := v.(*ssa.Const); !ok {
							c.Count("allocation", fnName(f)+" "+p.instrPos(in))
							follow(v, in, "an allocation")
						}
					}
				}
			}
		}
	}
	if len(sites) == 0 {
		return
	}
	parse := p.reaches(numberSource)
	r := &Rule{ID: "allocation sizes"}
	r.Event = func(p *Prog, in ssa.Instruction) bool { return sites[in] != "" }
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if strings.HasPrefix(owner, "rpc.") && isInt(f.Type()) {
			return lab("num")
		}
		return ""
	}
	r.Call = numberModel
	r.Cmp = numberCmp
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		what := sites[in]
		if what == "" {
			return
		}
		var vs []ssa.Value
		switch in := in.(type) {
		case *ssa.MakeSlice:
			vs = []ssa.Value{in.Len, in.Cap}
		case *ssa.Store:
			vs = []ssa.Value{in.Val}
		}
		for _, v := range vs {
			av := e.val(st, v)
			if !av.has("num") {
				continue
			}
			e.Count("size from outside", what+" in "+fnName(in.Parent()))
			if ok, why := inRange(st, av); !ok {
				e.Violation(st, "size/"+what+"/"+fnName(in.Parent()), in, "%s is as large as a number from outside says: %s", what, why)
			}
		}
	}
	c.Explore(r, nil, p.climb(fs, func(f *ssa.Function) bool { return parse[f] }))
	c.Need("size from outside", 2)
}

func (c *Ctx) follow2(st *ssa.Store, field string, add func(in ssa.Instruction, what string)) {
	for _, o := range c.P.origins(st.Val, nil) {
		if o.Kind == "call" && strings.HasPrefix(o.Name, "strconv.") || o.Kind == "field" && strings.HasPrefix(o.Name, "rpc.") || o.Kind == "out" {
			add(st, field)
		}
	}
}

func numberSource(p *Prog, in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	switch staticName(ci) {
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		return true
	}
	return false
}

// numberModel labels numbers that come from outside.
func numberModel(x *CallCtx) []Out {
	switch x.Name {
	case "strconv.ParseUint":
		return errFork(x, "parsing", []AV{{Lab: lab("num", "uns")}}, nil, nil)
	case "strconv.ParseInt", "strconv.Atoi":
		return errFork(x, "parsing", []AV{{Lab: lab("num")}}, nil, nil)
	}
	return nil
}

// numberCmp records what comparisons tell about them: "ub:", "lb:" a constant
// limit above and below, "le:a:b" a <= b.
func numberCmp(x *CmpCtx) []Out {
	a, b, op := x.X, x.Y, x.Op
	if op == token.EQL || op == token.NEQ || !a.has("num") && !b.has("num") {
		return nil
	}
	if !a.has("num") {
		a, b, op = b, a, flip(op)
	}
	return cmpForkOp(x, op, func(s *State, op token.Token) {
		sa := hdrSym(x.E, a)
		if n, ok := intOf(b); ok {
			if (op == token.LSS || op == token.LEQ) && n <= 64<<20 {
				s.Set("ub:"+sa, "y")
			}
			if op == token.GEQ && n >= 0 || op == token.GTR && n >= -1 {
				s.Set("lb:"+sa, "y")
			}
			return
		}
		sb := hdrSym(x.E, b)
		if sa == "" || sb == "" {
			return
		}
		switch op {
		case token.LSS, token.LEQ:
			s.Set("le:"+sa+":"+sb, "y")
		case token.GTR, token.GEQ:
			s.Set("le:"+sb+":"+sa, "y")
		}
	})
}

// inRange: every part of the number has a constant limit.
func inRange(st *State, v AV) (bool, string) {
	if _, ok := intOf(v); ok {
		return true, ""
	}
	ss := syms(v)
	if len(ss) == 0 {
		return false, "nothing is known about it"
	}
	for _, s := range ss {
		seen := map[string]bool{}
		var up func(s string) bool
		up = func(s string) bool {
			if st.Get("ub:"+s) != "" {
				return true
			}
			if seen[s] {
				return false
			}
			seen[s] = true
			for k := range st.auto {
				if strings.HasPrefix(k, "le:"+s+":") && up(k[len("le:"+s+":"):]) {
					return true
				}
			}
			return false
		}
		if !up(s) {
			return false, "it has no upper limit"
		}
		if !v.has("uns") && st.Get("lb:"+s) == "" {
			return false, "it can be negative"
		}
	}
	return true, ""
}
