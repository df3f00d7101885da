package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnRatchetNew      = "ratchet.New"
	fnRatchetFill     = "(*ratchet.Ratchet).FillKeyExchange"
	fnRatchetComplete = "(*ratchet.Ratchet).CompleteKeyExchange"
	fnBlobEncrypt     = "blobshare.Encrypt"
)

func init() {
	register("C20", checkClientRatchet)
}

// leaves: something handed to another goroutine or to the network.
func leaves(p *Prog, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Send:
		_, ok := in.X.Type().Underlying().(*types.Struct)
		return ok && typeName(in.X.Type()) != "struct{}" && !strings.HasPrefix(in.X.Type().String(), "struct")
	case ssa.CallInstruction:
		return staticName(in) == fnKxWrite
	}
	return false
}

// deepValues calls f with every value reachable in v.
func (e *Engine) deepValues(st *State, v AV, n int, f func(AV)) {
	f(v)
	if n == 0 {
		return
	}
	for _, x := range v.Agg {
		e.deepValues(st, x, n-1, f)
	}
	if v.Addr != nil && !v.Addr.Heap {
		e.deepValues(st, e.loadCell(st, v.Addr), n-1, f)
	}
}

// checkClientRatchet (C20): what a ratchet on disk says is never behind what
// was sent or acted on.
func checkClientRatchet(c *Ctx) {
	c.Rule("a ratchet loaded from disk is read, used and written back within one uninterrupted hold of a lock; a ratchet file is written or removed only with that lock held")
	c.Rule("what a ratchet produced (a ciphertext, a plaintext, a key exchange) is queued, sent, decoded or stored only after the ratchet was saved since; the half finished ratchet is removed only after the finished one was saved")
	c.Rule("a pushed message is acknowledged only after it went through the ratchet")
	full, ok1 := c.pkgConst("zkclient", "ratchetFilename")
	half, ok2 := c.pkgConst("zkclient", "halfRatchetFilename")
	if !ok1 || !ok2 {
		full, half = "ratchet.xdr", "halfratchet.xdr"
	}
	fl, hl := "s:"+full, "s:"+half
	ack := c.rpcConst("TaggedCmdAcknowledge")

	gone := c.P.reaches(leaves)
	ops := []string{fnRatchetNew, fnRatchetUnmarshal, fnRatchetMarshal, fnRatchetEncrypt, fnRatchetDecrypt, fnRatchetFill, fnRatchetComplete}
	fileRemove := func(p *Prog, in ssa.Instruction) bool {
		f := in.Parent()
		if !inPkg(f, "zkclient") {
			return false
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok || staticName(ci) != "os.Remove" && staticName(ci) != "os.RemoveAll" {
			return false
		}
		// names the ratchet in the same function
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && (constant.StringVal(k.Value) == full || constant.StringVal(k.Value) == half) {
						return true
					}
				}
			}
		}
		return false
	}
	r := &Rule{ID: "client ratchet"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if !inPkg(in.Parent(), "zkclient") {
			return false
		}
		return callEvent(ops...)(p, in) || fileRemove(p, in) || storesCommand(in, ack)
	}
	r.NoInline = func(f *ssa.Function) bool { return inPkg(f, "ratchet", "blobshare", "inidb", "session") }

	site := func(x *CallCtx) string {
		for _, l := range x.Args[0].labels() {
			if strings.HasPrefix(l, "rat:") {
				return strings.TrimPrefix(l, "rat:")
			}
		}
		return ""
	}
	dirty := func(st *State, s string) bool { return st.Get("dirty:"+s) == "1" }
	// producers in labels of v whose ratchet is not saved
	unsaved := func(e *Engine, st *State, v AV, pfx string) (r string) {
		e.deepValues(st, v, 4, func(a AV) {
			for _, l := range a.labels() {
				if strings.HasPrefix(l, pfx) && dirty(st, l[len(pfx):]) {
					r = l[len(pfx):]
				}
			}
		})
		return
	}
	ratFile := func(v AV) bool { return v.has(fl) || v.has(hl) }
	inUse := func(st *State, s string) bool { return st.Get("loaded:"+s) != "1" || txHeld(st, "rat:"+s) }

	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		if o := lockTrack(x); o != nil {
			return o
		}
		w := fnName(x.Instr.Parent())
		// sinks
		if x.Callee != nil && gone[x.Callee] && !e.relevant[x.Callee] || x.Name == fnKxWrite {
			for _, a := range x.Args {
				if s := unsaved(e, st, a, "out:"); s != "" {
					e.Violation(st, "sent/"+w+"/"+x.Name, x.Instr, "%s is given what a ratchet produced before that ratchet was saved", orNone(x.Name))
				}
			}
		}
		isAckMsg := func() bool {
			found := false
			for _, a := range x.Args {
				e.deepValues(st, a, 3, func(v AV) {
					if v.K == Const && v.C == ack {
						found = true
					}
				})
			}
			return found
		}
		if x.Callee != nil && gone[x.Callee] && !e.relevant[x.Callee] && isAckMsg() {
			e.Count("acknowledgement", w)
			st.Set("acked", "1")
		}
		switch x.Name {
		case fnKxRead:
			// the next message: the ratchets of the last one are out of reach
			for k := range st.auto {
				for _, p := range []string{"dirty:", "loaded:", "wrote:", "saved:", "broken:", "acked", "under:"} {
					if strings.HasPrefix(k, p) {
						delete(st.auto, k)
					}
				}
			}
		case "io/ioutil.ReadFile", "os.ReadFile":
			if ratFile(x.Args[0]) {
				e.Count("ratchet read", w)
				if !txBegin(st, "ratfile") {
					e.Violation(st, "readunlocked/"+w, x.Instr, "a ratchet is read from disk without its lock")
				}
				return errFork(x, "reading the ratchet", []AV{{Lab: lab("ratdata")}}, nil, nil)
			}
		case fnUnmarshal, fnUnmarshalL:
			if s := unsaved(e, st, x.Args[0], "plain:"); s != "" {
				e.Violation(st, "decoded/"+w, x.Instr, "a decrypted message is decoded before the ratchet that decrypted it was saved")
			}
			if e.deepLabHas(st, x.Args[0], "ratdata") {
				t := x.Args[1]
				return errFork(x, "decoding the ratchet", []AV{{}}, func(s *State) { e.havoc(s, t.Addr, lab("ratdata")) }, nil)
			}
		case fnRatchetNew:
			id := e.Where(x.Instr)
			id = strings.NewReplacer(",", ";").Replace(id)
			for _, k := range []string{"dirty:", "loaded:", "wrote:", "saved:", "broken:"} {
				st.Set(k+id, "")
			}
			return []Out{{Res: []AV{{K: NonZero, Sym: e.sym(st.depth(), x.Instr.Value(), ""), Lab: lab("rat:" + id)}}}}
		case fnRatchetUnmarshal:
			s := site(x)
			e.Count("ratchet load", w)
			if st.Get("acked") == "1" {
				e.Violation(st, "late/"+w, x.Instr, "a ratchet is used for a message that was acknowledged already")
			}
			if e.deepLabHas(st, x.Args[1], "ratdata") && !txHeld(st, "ratfile") {
				e.Violation(st, "loadgap/"+w, x.Instr, "the lock was released between reading a ratchet and using it")
			}
			txBegin(st, "rat:"+s)
			return errFork(x, "restoring the ratchet", nil, func(t *State) { t.Set("loaded:"+s, "1") }, nil)
		case fnRatchetEncrypt, fnRatchetDecrypt, fnRatchetComplete, fnRatchetFill:
			s := site(x)
			if s == "" {
				// a ratchet of unknown making, nothing can be said
				e.Violation(st, "unknown/"+w, x.Instr, "a ratchet of unknown origin is used")
				return nil
			}
			e.Count("ratchet use", short2(x.Name)+" in "+w)
			if !inUse(st, s) {
				e.Violation(st, "unlocked/"+w, x.Instr, "a ratchet loaded from disk is used although its lock was released since")
			}
			set := func(t *State) { t.Set("dirty:"+s, "1"); t.Set("wrote:"+s, "") }
			switch x.Name {
			case fnRatchetEncrypt:
				return errFork(x, "encrypting", []AV{{Lab: lab("out:" + s)}}, set, set)
			case fnRatchetDecrypt:
				if st.Get("acked") == "1" {
					e.Violation(st, "late/"+w, x.Instr, "a message is decrypted that was acknowledged already")
				}
				// a failed Decrypt leaves the ratchet as it was (C12)
				return errFork(x, "decrypting", []AV{{Lab: lab("plain:"+s, "out:"+s)}}, set, nil)
			case fnRatchetFill:
				t := x.Args[1]
				return errFork(x, "preparing the key exchange", nil, func(u *State) {
					set(u)
					e.havoc(u, t.Addr, lab("out:"+s))
				}, set)
			default:
				return errFork(x, "completing the key exchange", nil, set, func(u *State) { set(u); u.Set("broken:"+s, "1") })
			}
		case fnRatchetMarshal:
			s := site(x)
			e.Count("ratchet save", w)
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("state:" + s)}}}}
		case fnBlobEncrypt:
			return errFork(x, "encrypting", []AV{{Lab: labJoin(e.deepLab(st, x.Args[0]), "")}, {}}, nil, nil)
		case "blobshare.PackNonce":
			return []Out{{Res: []AV{{K: NonZero, Lab: labJoin(e.deepLab(st, x.Args[0]), e.deepLab(st, x.Args[1]))}}}}
		case "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile", "os.Create":
			l := lab("newfile")
			if ratFile(x.Args[0]) {
				l = labJoin(l, lab(fl))
			}
			return errFork(x, "creating the file", []AV{{K: NonZero, Lab: l}}, nil, nil)
		case "(*os.File).Name":
			return []Out{{Res: []AV{{Lab: x.Args[0].Lab}}}}
		case fnMarshal, "(*os.File).Write", "io.Copy", "(*bufio.Writer).Write":
			if len(x.Args) < 2 || !x.Args[0].has("newfile") {
				return nil
			}
			s := ""
			e.deepValues(st, x.Args[1], 3, func(a AV) {
				for _, l := range a.labels() {
					if strings.HasPrefix(l, "state:") {
						s = l[6:]
					}
				}
			})
			if s == "" {
				return nil
			}
			return errFork(x, "writing the ratchet", []AV{{}}, func(t *State) { t.Set("wrote:"+s, "1") }, func(t *State) { t.Set("wrote:"+s, "") })
		case "os.Rename", "io/ioutil.WriteFile", "os.WriteFile":
			dst := x.Args[len(x.Args)-1]
			var wrote []string
			if x.Name != "os.Rename" {
				dst = x.Args[0]
				e.deepValues(st, x.Args[1], 3, func(a AV) {
					for _, l := range a.labels() {
						if strings.HasPrefix(l, "state:") {
							wrote = append(wrote, l[6:])
						}
					}
				})
			} else {
				for k, v := range st.auto {
					if v == "1" && strings.HasPrefix(k, "wrote:") {
						wrote = append(wrote, k[6:])
					}
				}
			}
			if !ratFile(dst) {
				return nil
			}
			e.Count("ratchet file written", w)
			if len(heldLocks(st)) == 0 {
				e.Violation(st, "saveunlocked/"+w, x.Instr, "a ratchet file is replaced without the lock")
			}
			for _, s := range wrote {
				if !inUse(st, s) {
					e.Violation(st, "savegap/"+w, x.Instr, "a ratchet is written back although its lock was released since it was loaded: another use of it is lost")
				}
				if st.Get("broken:"+s) == "1" {
					e.Violation(st, "broken/"+w, x.Instr, "a ratchet whose key exchange failed is saved")
				}
			}
			isFull := dst.has(fl)
			return errFork(x, "replacing the ratchet file", nil, func(t *State) {
				for _, s := range wrote {
					t.Set("dirty:"+s, "")
					t.Set("wrote:"+s, "")
					if isFull {
						t.Set("saved:"+s, "1")
					}
				}
			}, nil)
		case "os.Remove", "os.RemoveAll":
			if !ratFile(x.Args[0]) {
				return nil
			}
			e.Count("ratchet removed", w)
			if len(heldLocks(st)) == 0 {
				e.Violation(st, "removeunlocked/"+w, x.Instr, "a ratchet file is removed without the lock: a use of it in progress brings it back")
			}
			for k, v := range st.auto {
				if v == "1" && strings.HasPrefix(k, "dirty:") && st.Get("loaded:"+k[6:]) == "1" {
					e.Violation(st, "removeearly/"+w, x.Instr, "a ratchet file is removed before the ratchet made from it was saved")
				}
			}
		}
		return stdCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Send)
		if !ok {
			return
		}
		v := e.val(st, s.X)
		if u := unsaved(e, st, v, "out:"); u != "" {
			e.Violation(st, "queued/"+fnName(in.Parent()), in, "what a ratchet produced is queued before that ratchet was saved")
		}
	}
	c.Explore(r, nil, nil, "zkclient")
	c.Need("ratchet load", 1)
	c.Need("ratchet use", 7)
	c.Need("ratchet save", 1)
	c.Need("ratchet file written", 1)
	c.Need("ratchet removed", 1)
	c.Need("acknowledgement", 1)

	c.Rule("a pushed message is decrypted in the goroutine that acknowledges it, so that the acknowledgement waits for it")
	dec := c.P.Func(fnRatchetDecrypt)
	if dec == nil {
		return
	}
	var acks []*ssa.Function
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkclient") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if storesCommand(in, ack) {
					acks = append(acks, f)
				}
			}
		}
	}
	mine := c.P.threadsOf(acks, "zkclient")
	for f := range c.P.threads(map[*ssa.Function]bool{dec: true}, "zkclient") {
		c.Count("decrypting goroutine", fnName(f))
		if len(mine) != 0 && !mine[f] {
			c.Violation("goroutine/"+fnName(f), f.Pos(), "%s decrypts messages in a goroutine that does not acknowledge them: a message can be acknowledged, and so removed by the server, before the ratchet took it", fnName(f))
		}
	}
	c.Need("decrypting goroutine", 1)
}
