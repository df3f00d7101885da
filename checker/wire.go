package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnDecode        = xdr2 + ".Unmarshal"
	fnDecodeLimited = xdr2 + ".UnmarshalLimited"
)

func init() {
	register("C24", func(c *Ctx) {
		c.Rule("what is written to a session is one header followed by one payload of the same message, and what was read from one is decoded in that order from one reader")
		c.Rule("for every command the client sends the server decodes the type it was sent with, and for every command the server sends the client does; a command no reader knows is not sent, and only a payload that holds nothing may stay undecoded")
		c.Rule("for every type a client queues for a contact: it is sealed as a header with a command and a compression and a body of that type, the receiving client decodes that type under that command, and the body is compressed exactly when the header says so")
		c.Rule("before a session the two sides of each mode write and read the same types in the same order")
		c.Rule("what is sealed for another client outside of a session message, or left for it, is of a type the receiving client decodes")
		w := &wires{c: c, out: map[string]map[string]map[string]token.Pos{}, in: map[string]map[string]map[string]token.Pos{}}
		w.writes("zkclient", "c2s")
		w.writes("zkserver", "s2c")
		w.reads("zkserver", "c2s")
		w.reads("zkclient", "s2c")
		w.sealed()
		w.blobs()
		w.compare("c2s", "client", "server", "zkclient")
		w.compare("s2c", "server", "client", "zkserver")
		w.compare("crpc", "client", "receiving client", "zkclient")
		w.compare("blob", "client", "receiving client", "zkclient")
		w.modes()
		c.Need("session message written", 8)
		c.Need("session message read", 8)
		c.Need("contact message sealed", 8)
		c.Need("contact message read", 8)
		c.Need("mode", 2)
		c.Need("step", 4)
	})
}

// wires: command -> type -> where, for what is written and what is read.
type wires struct {
	c       *Ctx
	out, in map[string]map[string]map[string]token.Pos
	queued  map[string]token.Pos
}

func (w *wires) note(m map[string]map[string]map[string]token.Pos, dir, cmd, t string, pos token.Pos) {
	if m[dir] == nil {
		m[dir] = map[string]map[string]token.Pos{}
	}
	if m[dir][cmd] == nil {
		m[dir][cmd] = map[string]token.Pos{}
	}
	if _, ok := m[dir][cmd][t]; !ok {
		m[dir][cmd][t] = pos
	}
}

// dynType is the type an interface argument holds, behind a pointer too.
func dynType(v AV) string {
	if v.Dyn == nil {
		return "?"
	}
	return typeName(deref(v.Dyn))
}

// bufName names the buffer a value stands for.
func bufName(v AV) string {
	if v.Addr == nil {
		return ""
	}
	return strings.NewReplacer(",", ".", "|", "/").Replace(v.Addr.key())
}

func labelAfter(v AV, pfx string) string {
	for _, l := range v.labels() {
		if strings.HasPrefix(l, pfx) {
			return l[len(pfx):]
		}
	}
	return ""
}

// put appends to what a buffer holds.
func put(st *State, b, what string) {
	if b == "" {
		return
	}
	s := st.Get("b:" + b)
	if s != "" {
		s += ";"
	}
	s += what
	if strings.Count(s, ";") > 6 {
		s = "too much"
	}
	st.Set("b:"+b, s)
}

// bufCall models encoding into buffers; what they hold is written down as a
// list of the types (headers with their command).
func bufCall(x *CallCtx) ([]Out, bool) {
	st := x.St
	switch x.Name {
	case fnMarshal:
		b := bufName(x.Args[0])
		v := x.Args[1]
		t := dynType(v)
		what := t
		switch t {
		case "rpc.Message":
			cmd, _ := messageOf(x.E, st, v, nil)
			what = "H:?"
			if cmd.is(Const) {
				what = "H:" + cmd.C
			} else if v.has("queued") || cmd.has("queued") {
				what = "H:queued"
			}
		case "rpc.CRPC":
			cmd := x.E.aggOrCell(st, v, ".Command")
			comp := x.E.aggOrCell(st, v, ".Compression")
			k, z := "?", "?"
			if s, ok := constString(cmd); ok {
				k = s
			}
			if s, ok := constString(comp); ok {
				z = s
			}
			what = "C:" + k + ":" + z
		case "?":
			if v.has("queued") {
				what = "queued"
			}
		}
		return errFork(x, "encoding", []AV{{}}, func(s *State) { put(s, b, what) }, func(s *State) { s.Set("b:"+b, "") }), true
	case "(*bytes.Buffer).Bytes":
		if b := bufName(x.Args[0]); b != "" {
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("holds:" + st.Get("b:"+b))}}}}, true
		}
	case "(*bytes.Buffer).Write":
		if b := bufName(x.Args[0]); b != "" {
			h := labelAfter(x.Args[1], "holds:")
			if h == "" {
				h = "?"
			}
			put(st, b, h)
			return []Out{{Res: []AV{{}, avOK}}}, true
		}
	case "compress/zlib.NewWriter":
		if b := bufName(x.Args[0]); b != "" {
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("into:" + b)}}}}, true
		}
	}
	if len(x.Args) > 0 {
		if b := labelAfter(x.Args[0], "into:"); b != "" {
			switch {
			case strings.HasSuffix(x.Name, ".Write"):
				h := labelAfter(x.Args[1], "holds:")
				if h == "" {
					h = "?"
				}
				put(st, b, "open("+h)
				return []Out{{Res: []AV{{}, avOK}}}, true
			case strings.HasSuffix(x.Name, ".Close"):
				put(st, b, ")")
				return []Out{{Res: []AV{avOK}}}, true
			}
		}
	}
	return nil, false
}

// constString: the constant string a value is, quoted.
func constString(v AV) (string, bool) {
	switch {
	case v.is(Const):
		return v.C, true
	case v.is(Zero):
		return `""`, true
	}
	return "", false
}

func (e *Engine) aggOrCell(st *State, v AV, p string) AV {
	if v.Addr != nil && !v.Addr.Heap {
		a := *v.Addr
		a.Path += p
		return e.loadCell(st, &a)
	}
	return e.selectAggRaw(v, p)
}

func bufPost(e *Engine, st *State, in ssa.Instruction) {
	if a, ok := in.(*ssa.Alloc); ok && typeName(deref(a.Type())) == "bytes.Buffer" {
		if b := bufName(e.val(st, a)); b != "" {
			st.Set("b:"+b, "")
		}
	}
}

func wireQueued(owner string, f *types.Var, v AV) string {
	if typeName(f.Type()) == "rpc.Message" || f.Name() == "Payload" && !strings.HasPrefix(owner, "rpc.") || v.has("queued") {
		return "queued"
	}
	return ""
}

// whole: what a function is given does not decide which message it writes.
func whole(f *ssa.Function) bool {
	for _, v := range f.Params {
		t := v.Type()
		if types.IsInterface(t) && !isConnType(t) || isWrapper(t) {
			return false
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String && f.Signature.Recv() != v.Object() && makesMessage(f, v) {
			return false
		}
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if typeName(deref(t)) == "rpc.Message" || isWrapper(t) || typeName(deref(t)) == "bytes.Buffer" || isByteSlice(t) {
			return false
		}
	}
	return true
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// makesMessage: the parameter becomes a command.
func makesMessage(f *ssa.Function, v *ssa.Parameter) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Val == v {
				if o, fl := staticField(s.Addr); fl != nil && o == "rpc.Message" {
					return true
				}
			}
		}
	}
	return false
}

// encodesMessage: a header, or what is not known here, is encoded.
func encodesMessage(p *Prog, in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || staticName(ci) != fnMarshal {
		return false
	}
	m, ok := ci.Common().Args[1].(*ssa.MakeInterface)
	return !ok || typeName(deref(m.X.Type())) == "rpc.Message"
}

// writes collects command and type of every message a side sends.
func (w *wires) writes(pkg, dir string) {
	c := w.c
	if w.queued == nil {
		w.queued = map[string]token.Pos{}
	}
	r := &Rule{ID: "written by " + pkg, FoldInts: 4}
	seals := c.P.reaches(callEvent(fnRatchetEncrypt))
	writer := c.P.reaches(callEvent(fnKxWrite))
	r.Event = anyEvent(callEvent(fnKxWrite), sendEvent, encodesMessage)
	api := apiNoInline(fnKxWrite, fnKxRead, fnInitiate, fnRespond, fnDeliver, fnAccDelete, fnAccPush, fnAccPull, fnAccFind, fnAccCreate)
	own := map[*ssa.Function]bool{}
	left := map[*ssa.Function]bool{} // events that belong to no other entry
	r.NoInline = func(f *ssa.Function) bool {
		return own[f] || api(f) || inPkg(f, pkg) && !left[f] || seals[f] && !writer[f]
	}
	r.FieldLab = wireQueued
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		bufPost(e, st, in)
		if s, ok := in.(*ssa.Select); ok {
			_ = s
			w.send(e, st, in, dir)
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if _, ok := in.(*ssa.Send); ok {
			w.send(e, st, in, dir)
		}
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		if o, ok := bufCall(x); ok {
			return o
		}
		switch x.Name {
		case fnKxWrite:
			h := labelAfter(x.Args[1], "holds:")
			f := strings.Split(h, ";")
			n := fnName(x.Instr.Parent())
			e.Count("session message written", n+" "+h)
			if len(f) != 2 || !strings.HasPrefix(f[0], "H:") || strings.HasPrefix(f[1], "H:") {
				e.Violation(st, "frame/"+n, x.Instr, "what is written to the session is not one header followed by its payload (%s): the other side can't read it", orNone(h))
			} else if strings.HasPrefix(f[0], `H:"`) && f[1] != "?" && f[1] != "queued" {
				w.note(w.out, dir, f[0][2:], f[1], x.Instr.Pos())
			} else if f[0] == "H:queued" && f[1] != "queued" || f[0] != "H:queued" && f[1] == "queued" {
				e.Violation(st, "mixed/"+n, x.Instr, "the header written to the session belongs to another message than the payload (%s)", h)
			}
			return errFork(x, "writing to the session", nil, nil, nil)
		case fnRatchetEncrypt:
			return errFork(x, "sealing", []AV{{Lab: lab("holds:sealed")}}, nil, nil)
		}
		return stdCall(x)
	}
	// the lowest functions that know what they send
	ack := callEvent(fnKxWrite)
	from := c.P.eventFuncs(anyEvent(ack, func(p *Prog, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		o, f := staticField(s.Addr)
		return f != nil && o == "rpc.Message" && f.Name() == "Command"
	}, sendEvent), pkg)
	entries := c.P.climb(from, whole, pkg)
	for _, f := range entries {
		if whole(f) {
			own[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range c.P.Funcs {
			if left[f] {
				continue
			}
			is := hasEvent(c.P, f, r.Event)
			for _, g := range c.P.callees[f] {
				is = is || left[g] && !own[g]
			}
			if is {
				left[f], again = true, true
			}
		}
	}
	c.Explore(r, func(st *State, f *ssa.Function) {
		for _, p := range f.Params {
			if isWrapper(p.Type()) || typeName(deref(p.Type())) == "rpc.Message" {
				st.vals[VKey{0, p}] = st.vals[VKey{0, p}].with("queued")
			}
		}
	}, entries, pkg)
}

// send: a message is queued.
func (w *wires) send(e *Engine, st *State, in ssa.Instruction, dir string) {
	sends(e, st, in, func(v AV, t types.Type) {
		cmd, _, _, pay, _ := wrapperCells(e, st, v, t)
		d := dynName(pay)
		n := fnName(in.Parent())
		if v.has("queued") || pay.has("queued") {
			return // goes from one queue to the next
		}
		if dir == "c2s" && (cmd.is(Zero) || cmd.is(Const) && cmd.C == `""`) {
			if pay.Dyn == nil {
				return
			}
			if _, ok := pay.Dyn.Underlying().(*types.Pointer); ok {
				d = "*" + d
			}
			e.Count("contact message queued", n+" "+d)
			if _, ok := w.queued[d]; !ok {
				w.queued[d] = in.Pos()
			}
			return
		}
		if cmd.is(Const) && pay.Dyn != nil {
			e.Count("session message written", n+" "+cmd.C)
			w.note(w.out, dir, cmd.C, d, in.Pos())
		}
	})
}

// reads collects command and type of every message a side decodes.
func (w *wires) reads(pkg, dir string) {
	c := w.c
	r := &Rule{ID: "read by " + pkg}
	r.Event = anyEvent(callEvent(fnKxRead, fnDecode, fnDecodeLimited))
	r.NoInline = apiNoInline(fnKxWrite, fnInitiate, fnRespond, fnKxRead, fnRatchetDecrypt, fnRatchetUnmarshal, fnDeliver, fnAccDelete, fnAccPush, fnAccPull, fnAccFind, fnAccCreate, fnIniNew)
	r.FieldLab = wireFieldLab
	r.Cmp = func(x *CmpCtx) []Out {
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		a, b := x.X, x.Y
		if _, ok := constString(a); ok {
			a, b = b, a
		}
		k, isc := constString(b)
		if _, both := constString(a); both || !isc {
			return nil
		}
		key := ""
		for l, n := range map[string]string{"w:Message.Command": "cmd", "w:CRPC.Command": "crpc", "w:CRPC.Compression": "comp"} {
			if a.has(l) {
				key = n
			}
		}
		if key == "" {
			return nil
		}
		return cmpFork(x, func(s *State, op token.Token) {
			if op == token.EQL {
				s.Set(key, k)
			}
		})
	}
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		n := fnName(x.Instr.Parent())
		if t := st.Get("body"); t != "" && st.Get("handed") == "" && x.Callee != nil && inPkg(x.Callee, pkg) {
			for i, p := range x.Callee.Params {
				if i >= len(x.Args) || typeName(p.Type()) != t || x.Callee.Signature.Recv() != nil && i == 0 {
					continue
				}
				e.Count("contact message handed on", fnName(x.Callee))
				if !x.Args[i].has("wire") {
					e.Violation(st, "handed/"+t, x.Instr, "%s is given another %s than the one that was decoded", fnName(x.Callee), t)
				}
				st.Set("handed", "1")
			}
		}
		switch x.Name {
		case fnKxRead:
			if t := st.Get("body"); t != "" && st.Get("handed") == "" {
				e.Violation(st, "dropped/"+t, x.Instr, "a contact's %s is decoded but nothing is done with it", t)
			}
			return errFork(x, "session read", []AV{{Lab: lab("wire", "frame")}}, func(s *State) {
				for _, k := range []string{"cmd", "at", "crpc", "comp", "cat", "body", "handed"} {
					s.Set(k, "")
				}
				s.tr = nil
			}, nil)
		case fnRatchetDecrypt:
			return errFork(x, "opening", []AV{{Lab: lab("wire", "plain")}}, func(s *State) {
				s.Set("crpc", "")
				s.Set("comp", "")
				s.Set("cat", "")
			}, nil)
		case "blobshare.UnpackNonce", "blobshare.UnpackSaltNonce":
			out := make([]AV, x.Callee.Signature.Results().Len()-1)
			for i := range out {
				out[i] = AV{K: NonZero, Lab: lab("wire", "packed:"+strings.TrimPrefix(x.Name, "blobshare.Unpack"))}
			}
			return errFork(x, "unpacking", out, nil, nil)
		case fnBlobDecrypt:
			return errFork(x, "opening", []AV{{Lab: lab("wire", "blob", "as:"+labelAfter(x.Args[2], "packed:"))}}, nil, nil)
		case "bytes.NewReader", "bytes.NewBuffer":
			return []Out{{Res: []AV{{K: NonZero, Lab: x.Args[0].Lab}}}}
		case "compress/zlib.NewReader":
			return errFork(x, "decompressing", []AV{{K: NonZero, Lab: labJoin(x.Args[0].Lab, lab("inflated"))}}, nil, nil)
		case fnDecode, fnDecodeLimited:
			rd, t := x.Args[0], dynType(x.Args[1])
			switch {
			case rd.has("plain"):
				if w.contact(x, rd, t, n) {
					outs := stdCall(x)
					do := outs[0].Do
					outs[0].Do = func(s *State) {
						do(s)
						s.Set("body", t)
					}
					return outs
				}
			case rd.has("blob"):
				e.Count("blob read", n+" "+t)
				w.note(w.in, "blob", labelAfter(rd, "as:"), t, x.Instr.Pos())
			case rd.has("frame") && !rd.hasPfx("w:"):
				switch st.Get("at") {
				case "":
					if t != "rpc.Message" {
						e.Violation(st, "header/"+n, x.Instr, "what was read from the session is decoded as %s, but a header comes first", t)
					}
					st.Set("at", "header")
				case "header":
					if t == "rpc.Message" {
						e.Violation(st, "header/"+n, x.Instr, "a second header is decoded from one message")
					}
					st.Set("at", "payload")
					k := st.Get("cmd")
					e.Count("session message read", n+" "+k)
					if k == "" {
						e.Violation(st, "unknown/"+n, x.Instr, "a payload is decoded as %s although the command is not known", t)
						break
					}
					w.note(w.in, dir, k, t, x.Instr.Pos())
				default:
					e.Violation(st, "again/"+n, x.Instr, "more than one payload is decoded from one message")
				}
			}
		}
		return stdCall(x)
	}
	// noted: commands that are handled without decoding a payload
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if k := st.Get("cmd"); k != "" {
			w.note(w.in, dir, k, "", token.NoPos)
		}
	}
	c.Explore(r, nil, c.P.climb(c.P.eventFuncs(callEvent(fnKxRead, fnBlobDecrypt), pkg), func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			if typeName(deref(t)) == "rpc.Message" || isByteSlice(t) || typeName(deref(t)) == "bytes.Reader" {
				return false
			}
		}
		return true
	}, pkg), pkg)
}

// contact: a message of a contact is decoded.
func (w *wires) contact(x *CallCtx, rd AV, t, n string) bool {
	e, st := x.E, x.St
	if st.Get("cat") == "" {
		if t != "rpc.CRPC" || rd.has("inflated") {
			e.Violation(st, "contact header/"+n, x.Instr, "a contact's message is decoded as %s, but its header comes first", t)
		}
		st.Set("cat", "header")
		return false
	}
	if st.Get("cat") != "header" {
		e.Violation(st, "contact again/"+n, x.Instr, "more than one body is decoded from a contact's message")
	}
	st.Set("cat", "body")
	k, z := st.Get("crpc"), st.Get("comp")
	e.Count("contact message read", n+" "+k)
	if k == "" {
		e.Violation(st, "contact unknown/"+n, x.Instr, "the body of a contact's message is decoded as %s although the command is not known", t)
		return false
	}
	w.note(w.in, "crpc", k, t, x.Instr.Pos())
	none, zl := w.c.rpcConst("CRPCCompNone"), w.c.rpcConst("CRPCCompZLIB")
	switch {
	case z == none && rd.has("inflated"):
		e.Violation(st, "inflated/"+n, x.Instr, "the body of a message that is not compressed is decompressed")
	case z == zl && !rd.has("inflated"):
		e.Violation(st, "compressed/"+n, x.Instr, "the body of a compressed message is decoded without decompressing it")
	case z != none && z != zl:
		e.Violation(st, "compression/"+n, x.Instr, "the body of a message is decoded although how it was compressed is not known")
	}
	return true
}

// sealed: for every type queued for a contact, what is sealed for it.
func (w *wires) sealed() {
	c := w.c
	none, zl := c.rpcConst("CRPCCompNone"), c.rpcConst("CRPCCompZLIB")
	r := &Rule{ID: "sealed"}
	r.Event = callEvent(fnMarshal, fnRatchetEncrypt)
	r.NoInline = apiNoInline(fnKxWrite, fnKxRead, fnRatchetEncrypt, fnRatchetMarshal)
	typ := ""
	var pos token.Pos
	r.Post = bufPost
	r.Call = func(x *CallCtx) []Out {
		e, st := x.E, x.St
		if o, ok := bufCall(x); ok {
			return o
		}
		if x.Name == fnRatchetEncrypt {
			h := labelAfter(x.Args[2], "holds:")
			n := fnName(x.Instr.Parent())
			e.Count("contact message sealed", n+" "+typ)
			st.Set("sealed", "1")
			f := strings.SplitN(h, ";", 2)
			g := strings.Split(f[0], ":")
			if len(f) != 2 || len(g) != 3 || g[0] != "C" {
				e.Violation(st, "seal/"+typ, x.Instr, "what is sealed for a contact is not a header followed by the message (%s): it can't be read", orNone(h))
				return errFork(x, "sealing", []AV{{}}, nil, nil)
			}
			k, z, body := g[1], g[2], f[1]
			switch {
			case z == none && body == typ:
			case z == zl && body == "open("+typ+";)":
			case body == typ || body == "open("+typ+";)":
				e.Violation(st, "marked/"+typ, x.Instr, "the body of a %s is not compressed the way its header says (%s): it can't be read", typ, z)
			default:
				e.Violation(st, "body/"+typ, x.Instr, "what is sealed as the body of a %s is not it whole (%s)", typ, body)
			}
			if !strings.HasPrefix(k, `"`) {
				e.Violation(st, "command/"+typ, x.Instr, "a %s is sealed without a known command", typ)
			} else {
				w.note(w.out, "crpc", k, typ, x.Instr.Pos())
			}
			return errFork(x, "sealing", []AV{{}}, nil, nil)
		}
		return stdCall(x)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if st.Get("sealed") != "" {
			e.Count("sealable", typ)
		}
	}
	var names []string
	for t := range w.queued {
		names = append(names, t)
	}
	sort.Strings(names)
	// the lowest functions that are given the message and seal it
	from := c.P.eventFuncs(callEvent(fnRatchetEncrypt), "zkclient")
	entries := c.P.climb(from, func(f *ssa.Function) bool { return anyParam(f) != nil && makesCRPC(c.P, f) }, "zkclient")
	for _, t := range names {
		typ, pos = t, w.queued[t]
		dyn := c.rpcType(t)
		if dyn == nil {
			c.Violation("queued/"+t, pos, "a %s is queued for a contact: it is no message type", t)
			continue
		}
		c.Explore(r, func(st *State, f *ssa.Function) {
			if p := anyParam(f); p != nil {
				v := st.vals[VKey{0, p}]
				v.Dyn, v.K = dyn, NonZero
				st.vals[VKey{0, p}] = v
			}
		}, entries, "zkclient")
		if !c.Counts["sealable"][t] {
			c.Violation("unsealed/"+t, pos, "a %s is queued for a contact but never sealed: it is never sent", t)
		}
	}
}

// makesCRPC: the header of a contact's message is made here or below.
func makesCRPC(p *Prog, f *ssa.Function) bool {
	return p.reaches(func(p *Prog, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		o, fl := staticField(s.Addr)
		return fl != nil && o == "rpc.CRPC" && fl.Name() == "Command"
	})[f]
}

func anyParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if i, ok := p.Type().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
			return p
		}
	}
	return nil
}

func (c *Ctx) rpcType(n string) types.Type {
	if !strings.HasPrefix(n, "rpc.") {
		return nil
	}
	o := c.P.Pkgs["rpc"].Pkg.Scope().Lookup(n[len("rpc."):])
	if o == nil {
		return nil
	}
	return o.Type()
}

// compare: what is written is what is read.
func (w *wires) compare(dir, from, to, pkg string) {
	c := w.c
	var ks []string
	for k := range w.out[dir] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		rd := w.in[dir][k]
		for t, pos := range w.out[dir][k] {
			c.Count("pair", dir+" "+k+" "+t)
			if rd == nil {
				c.Violation("unread/"+dir+"/"+k, pos, "the %s sends %s, which the %s does not read", from, k, to)
				continue
			}
			for u, upos := range rd {
				switch {
				case dir == "blob" && rd[t] == 0:
					c.Violation("blob/"+k+"/"+t, pos, "a %s is sealed for another client and packed with %s, which reads none that way", t, k)
				case dir == "blob":
				case u == "" && len(rd) == 1 && !c.neverSet(t, pkg):
					c.Violation("undecoded/"+dir+"/"+k, pos, "the %s sends %s with a %s, which the %s does not decode", from, k, t, to)
				case u != "" && u != t:
					c.Violation("type/"+dir+"/"+k, upos, "the %s decodes %s as %s, the %s sends it as %s (%s)", to, k, u, from, t, c.P.pos(pos))
				}
			}
		}
	}
}

// neverSet: values of the type are sent by the package with no field set.
func (c *Ctx) neverSet(n, pkg string) bool {
	ok := true
	for _, f := range c.P.Funcs {
		if !inPkg(f, pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, is := in.(*ssa.MakeInterface)
				if !is || typeName(m.X.Type()) != n {
					continue
				}
				if _, p := m.X.Type().Underlying().(*types.Pointer); p {
					continue
				}
				if _, k := m.X.(*ssa.Const); k {
					continue
				}
				is = false
				if st, k := m.X.Type().Underlying().(*types.Struct); k && st.NumFields() == 0 {
					is = true
				}
				if u, k := m.X.(*ssa.UnOp); k {
					if a, k := u.X.(*ssa.Alloc); k {
						is = true
						for _, ref := range *a.Referrers() {
							switch ref := ref.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if _, k := ref.Val.(*ssa.Const); !k {
									is = false
								}
							default:
								is = false
							}
						}
					}
				}
				if !is {
					ok = false
				}
			}
		}
	}
	return ok
}

// blobs collects the types of what is sealed for another client outside of a
// session message.
func (w *wires) blobs() {
	c := w.c
	r := &Rule{ID: "blobs"}
	r.Event = anyEvent(callEvent(fnBlobEncrypt), sendEvent)
	r.NoInline = apiNoInline(fnKxWrite, fnKxRead, fnBlobEncrypt)
	r.Post = bufPost
	r.Call = func(x *CallCtx) []Out {
		if o, ok := bufCall(x); ok {
			return o
		}
		switch x.Name {
		case fnBlobEncrypt:
			if !inPkg(x.Instr.Parent(), "zkclient") {
				return nil
			}
			h := labelAfter(x.Args[0], "holds:")
			x.E.Count("blob sealed", fnName(x.Instr.Parent())+" "+h)
			return errFork(x, "sealing", []AV{{Lab: lab("sealed:" + orNone(h))}, {K: NonZero}}, nil, nil)
		case "blobshare.PackNonce", "blobshare.PackSaltNonce":
			if h := labelAfter(x.Args[len(x.Args)-1], "sealed:"); h != "" {
				w.note(w.out, "blob", strings.TrimPrefix(x.Name, "blobshare.Pack"), h, x.Instr.Pos())
			}
		}
		return stdCall(x)
	}
	c.Explore(r, nil, c.P.climb(c.P.eventFuncs(callEvent(fnBlobEncrypt), "zkclient"), func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if isByteSlice(p.Type()) {
				return false
			}
		}
		return true
	}, "zkclient"), "zkclient")
}

// modes compares, for every mode a connection can be put in before it holds a
// session, what the two sides write and read, step by step.
func (w *wires) modes() {
	c := w.c
	type steps map[string]map[int]map[string]token.Pos
	at := map[string]steps{}
	for _, side := range []string{"zkclient", "zkserver"} {
		side, tab := side, steps{}
		at[side] = tab
		r := &Rule{ID: "modes of " + side}
		onConn := func(p *Prog, in ssa.Instruction) bool {
			x := toIO(in)
			return x != nil && inPkg(in.Parent(), side)
		}
		r.Event = anyEvent(onConn, callEvent(fnInitiate, fnRespond))
		r.NoInline = apiNoInline(fnInitiate, fnRespond, fnKxRead, fnKxWrite, fnOnline, fnAccCreate)
		r.FieldLab = wireFieldLab
		r.Post = func(e *Engine, st *State, in ssa.Instruction) {
			if toIO(in) != nil {
				v := in.(ssa.Value)
				e.define(st, v, e.val(st, v).with("conn"))
			}
		}
		r.Cmp = func(x *CmpCtx) []Out {
			a, b := x.X, x.Y
			if b.has("mode") {
				a, b = b, a
			}
			k, ok := constString(b)
			if x.Op != token.EQL && x.Op != token.NEQ || !a.has("mode") || !ok {
				return nil
			}
			return cmpFork(x, func(s *State, op token.Token) {
				if op == token.EQL {
					s.Set("mode", k)
					s.Set("n", "")
				}
			})
		}
		step := func(x *CallCtx, what string) {
			st := x.St
			k := st.Get("mode")
			if k == "" {
				return
			}
			n := len(st.Get("n"))
			if n > 8 {
				return
			}
			st.Set("n", st.Get("n")+"+")
			if tab[k] == nil {
				tab[k] = map[int]map[string]token.Pos{}
			}
			if tab[k][n] == nil {
				tab[k][n] = map[string]token.Pos{}
			}
			if _, ok := tab[k][n][what]; !ok {
				tab[k][n][what] = x.Instr.Pos()
			}
			x.E.Count("step", side+" "+k+" "+what)
		}
		r.Call = func(x *CallCtx) []Out {
			st := x.St
			switch x.Name {
			case fnInitiate, fnRespond:
				step(x, "session")
				st.Set("mode", "")
				return errFork(x, "key exchange", nil, nil, nil)
			case fnMarshal:
				if !x.Args[0].has("conn") {
					return nil
				}
				t := dynType(x.Args[1])
				if k := x.Args[1].C; isStringT(x.Args[1].Dyn) && k != "" {
					return errFork(x, "encoding", []AV{{}}, func(s *State) {
						s.Set("mode", k)
						s.Set("n", "")
						if tab[k] == nil {
							tab[k] = map[int]map[string]token.Pos{}
						}
						x.E.Count("mode", side+" "+k)
					}, nil)
				}
				step(x, "W "+t)
				return errFork(x, "encoding", []AV{{}}, nil, nil)
			case fnDecode, fnDecodeLimited:
				if !x.Args[0].has("conn") {
					return stdCall(x)
				}
				if x.Args[1].Dyn != nil && isStringT(deref(x.Args[1].Dyn)) {
					e, a := x.E, x.Args[1].Addr
					return errFork(x, "reading the mode", []AV{{}}, func(s *State) {
						e.havoc(s, a, lab("mode"))
						s.Set("mode", "")
						s.tr = nil
					}, nil)
				}
				step(x, "R "+dynType(x.Args[1]))
			}
			return stdCall(x)
		}
		ev := callEvent(fnMarshal, fnDecode, fnDecodeLimited)
		touch := c.P.reaches(ev)
		c.Explore(r, nil, c.P.climb(c.P.eventFuncs(onConn, side), func(f *ssa.Function) bool {
			for _, p := range f.Params {
				if isConnType(p.Type()) && side == "zkserver" {
					return false
				}
			}
			return touch[f]
		}, side), side)
	}
	cl, sv := at["zkclient"], at["zkserver"]
	var ks []string
	for k := range cl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	flipped := func(s string) string {
		switch {
		case strings.HasPrefix(s, "W "):
			return "R " + s[2:]
		case strings.HasPrefix(s, "R "):
			return "W " + s[2:]
		}
		return s
	}
	for _, k := range ks {
		if sv[k] == nil {
			for _, m := range cl[k] {
				for _, pos := range m {
					c.Violation("mode/"+k, pos, "the client asks for %s, which the server does not know", k)
				}
			}
			continue
		}
		for n := 0; n < 8; n++ {
			for t, pos := range cl[k][n] {
				if _, ok := sv[k][n][flipped(t)]; !ok {
					c.Violation("mode/"+k+"/"+strconv.Itoa(n), pos, "in mode %s the client's step %d is %s, the server does %s", k, n+1, t, orNone(joinPos(sv[k][n])))
				}
			}
			for t, pos := range sv[k][n] {
				if _, ok := cl[k][n][flipped(t)]; !ok {
					c.Violation("mode/"+k+"/"+strconv.Itoa(n), pos, "in mode %s the server's step %d is %s, the client does %s", k, n+1, t, orNone(joinPos(cl[k][n])))
				}
			}
		}
	}
}

func joinPos(m map[string]token.Pos) string {
	var s []string
	for t := range m {
		s = append(s, t)
	}
	sort.Strings(s)
	return strings.Join(s, " or ")
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// toIO: a connection becomes a plain reader or writer.
func toIO(in ssa.Instruction) ssa.Value {
	var x, r ssa.Value
	switch in := in.(type) {
	case *ssa.ChangeInterface:
		x, r = in.X, in
	case *ssa.MakeInterface:
		x, r = in.X, in
	default:
		return nil
	}
	if !isConnType(x.Type()) || isConnType(r.Type()) {
		return nil
	}
	return x
}
