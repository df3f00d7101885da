package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnSeal   = "golang.org/x/crypto/nacl/secretbox.Seal"
	fnOpen   = "golang.org/x/crypto/nacl/secretbox.Open"
	fnEncaps = "github.com/companyzero/sntrup4591761.Encapsulate"
	fnDecaps = "github.com/companyzero/sntrup4591761.Decapsulate"
	fnGenKey = "github.com/companyzero/sntrup4591761.GenerateKey"
)

func init() {
	register("C15", checkKx)
	register("C16", checkNonce)
}

// tterm is the term a value stands for: what it was computed from.
func tterm(e *Engine, st *State, v AV) string {
	if v.has("part") {
		v.Lab = strings.ReplaceAll(v.Lab, ",part,", ",")
		if v.Lab == "," {
			v.Lab = ""
		}
		return "part(" + tterm(e, st, v) + ")"
	}
	var t []string
	add := func(ls []string) {
		for _, l := range ls {
			if strings.HasPrefix(l, "t:") {
				t = append(t, l[2:])
			}
		}
	}
	add(v.labels())
	if len(t) == 0 && v.Addr != nil {
		add(e.loadCell(st, v.Addr).labels())
		if len(t) == 0 && strings.HasPrefix(v.Addr.Root, "g:") {
			return v.Addr.Root
		}
		if len(t) == 0 {
			c := e.loadCell(st, v.Addr)
			if c.Addr != nil {
				return tterm(e, st, c)
			}
		}
	}
	if len(t) == 0 {
		return "?"
	}
	return strings.Join(dedup(t), "+")
}

// allIndexed: the element store runs once for every index of what it indexes.
func allIndexed(s *ssa.Store) bool {
	ia, ok := s.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	strip := func(v ssa.Value) ssa.Value {
		for {
			sl, ok := v.(*ssa.Slice)
			if !ok || !wholeSlice(sl) {
				return v
			}
			v = sl.X
		}
	}
	base := strip(ia.X)
	bounded := func(n ssa.Value) bool {
		if k, ok := n.(*ssa.Const); ok {
			a, ok := deref(base.Type()).Underlying().(*types.Array)
			return ok && k.Value != nil && k.Int64() == a.Len()
		}
		ci, ok := n.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := ci.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && strip(ci.Call.Args[0]) == base
	}
	step := func(v, from ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == from && isIntConst(b.Y, 1)
	}
	var phi *ssa.Phi
	first := int64(0)
	if p, ok := ia.Index.(*ssa.Phi); ok {
		phi = p
	} else if b, ok := ia.Index.(*ssa.BinOp); ok {
		phi, _ = b.X.(*ssa.Phi)
		if phi == nil || !step(b, phi) {
			return false
		}
		first = -1
	} else {
		return false
	}
	for i, x := range phi.Edges {
		if isIntConst(x, first) {
			continue
		}
		if !step(x, phi) || !s.Block().Dominates(phi.Block().Preds[i]) {
			return false
		}
	}
	for _, u := range *ia.Index.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || b.Op != token.LSS || b.X != ia.Index || !bounded(b.Y) || !b.Block().Dominates(s.Block()) {
			continue
		}
		for _, u := range *b.Referrers() {
			if f, ok := u.(*ssa.If); ok && f.Block().Succs[0].Dominates(s.Block()) {
				return true
			}
		}
	}
	return false
}

// wipes is the parameter the function sets to zero throughout, or -1.
func wipes(f *ssa.Function) int {
	if f == nil || len(f.Blocks) == 0 || !isRepoFn(f) || f.Signature.Results().Len() != 0 {
		return -1
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || !isIntConst(s.Val, 0) && !selfXor(s.Val) || !allIndexed(s) {
				continue
			}
			for i, p := range f.Params {
				if s.Addr.(*ssa.IndexAddr).X != ssa.Value(p) {
					continue
				}
				// on every way out
				all := true
				for _, x := range f.Blocks {
					if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && x.Idom() != nil && !loopHead(b).Dominates(x) {
						all = false
					}
				}
				if all {
					return i
				}
			}
		}
	}
	return -1
}

// loopHead is the innermost loop header above the block.
func loopHead(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) {
				return h
			}
		}
	}
	return b
}

// kxTrace is one successful run of a key exchange role: what was sent,
// received, verified and derived, as terms.
type kxTrace []string

// kxExplore extracts the traces of the successful paths of a role.
func (c *Ctx) kxExplore(role string) map[string]kxTrace {
	entry := c.P.Func(role)
	if entry == nil {
		c.Violation("anchor/"+role, token.NoPos, "%s is gone", role)
		return nil
	}
	traces := map[string]kxTrace{}
	r := &Rule{ID: "kx " + role, HeapCells: true, FoldInts: 12, PartLab: "part"}
	r.Event = anyEvent(storesGlobal("ephemeralPrivate"), func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && wipes(ci.Common().StaticCallee()) >= 0
	}, callEvent(fnSeal, fnOpen, fnEncaps, fnDecaps, fnGenKey, "crypto/hmac.New", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "crypto/sha512.New",
		"crypto/sha512.Sum512", xdr2+".Marshal", xdr2+".Unmarshal", xdr2+".UnmarshalLimited", "(io.Writer).Write", "(hash.Hash).Sum", "builtin:copy"))
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if owner == "session.KX" && !v.hasPfx("t:") {
			return "t:f:" + f.Name()
		}
		return ""
	}
	ev := func(s *State, format string, a ...interface{}) {
		t := fmt.Sprintf(format, a...)
		x := s.Get("tr")
		if len(x) < 4000 {
			s.Set("tr", x+t+";")
		}
	}
	next := func(s *State, k string) int {
		n, _ := strconv.Atoi(s.Get(k))
		n++
		s.Set(k, strconv.Itoa(n))
		return n
	}
	// the server's ephemeral key pair is replaced while sessions are set up:
	// what is taken of it is marked with the critical section it was taken in
	snap := func(s *State, t string) string {
		if s.Get("generated") == "1" {
			return t // its own, made for this exchange
		}
		at := "@" + s.Get("section")
		if s.Get("locked") != "1" {
			at = "@none"
		}
		for _, g := range []string{"g:session.ephemeralPublic", "g:session.ephemeralPrivate"} {
			t = strings.ReplaceAll(t, g, g+at)
		}
		return t
	}
	isEphMtx := func(v AV) bool { return v.Addr != nil && v.Addr.Root == "g:session.ephemeralMutex" }
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if strings.HasPrefix(a.Root, "g:session.ephemeralP") && !v.hasPfx("t:") {
			v.Lab = labJoin(v.Lab, lab("t:"+snap(st, a.Root)))
		}
		return v
	}
	obj := func(x *CallCtx, init string) []Out {
		a := &Addr{Root: fmt.Sprintf("a%d:o%d", x.St.depth(), x.E.P.id(x.Instr.Value()))}
		return []Out{{Res: []AV{{K: NonZero, Addr: a, Lab: lab("hash")}}, Do: func(s *State) {
			x.E.killRoot(s, a.Root)
			x.E.define(s, x.Instr.Value(), AV{K: NonZero, Addr: a, Lab: lab("hash")})
			s.cells[a.key()] = AV{K: Const, C: init}
		}}}
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		tm := func(i int) string { return tterm(e, st, x.Args[i]) }
		switch x.Name {
		case "session.D":
			return []Out{{}}
		case "":
		default:
			if i := wipes(x.Callee); i >= 0 && x.Args[i].Addr != nil && x.Args[i].Addr.Root == "g:session.ephemeralPrivate" && !x.Args[i].has("part") {
				st.Set("erased", "1")
				return []Out{{}}
			}
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
			if isEphMtx(x.Args[0]) {
				next(st, "section")
				st.Set("locked", "1")
			}
			return []Out{{}}
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			if isEphMtx(x.Args[0]) {
				st.Set("locked", "")
			}
			return []Out{{}}
		case fnGenKey:
			return errFork(x, "key generation", []AV{{K: NonZero, Lab: lab("t:ephpk")}, {K: NonZero, Lab: lab("t:ephsk")}},
				func(s *State) { s.Set("generated", "1"); s.Set("erased", "") }, nil)
		case fnEncaps:
			pk := tm(1)
			n := next(st, "nk")
			e.Count("kx step", "Encapsulate in "+role)
			return errFork(x, "Encapsulate", []AV{{K: NonZero, Lab: lab("t:c" + strconv.Itoa(n))}, {K: NonZero, Lab: lab("t:k" + strconv.Itoa(n))}},
				func(s *State) { ev(s, "enc|k%d|%s", n, pk) }, func(s *State) { ev(s, "fail|Encapsulate") })
		case fnDecaps:
			cc, sk := tm(0), tm(1)
			n := next(st, "nk")
			e.Count("kx step", "Decapsulate in "+role)
			pos := x.Pos()
			k := AV{K: NonZero, Lab: lab("t:k" + strconv.Itoa(n))}
			return []Out{
				{Res: []AV{k, {K: Const, C: "1"}}, Do: func(s *State) { ev(s, "dec|k%d|%s|%s", n, cc, sk) }},
				{Res: []AV{k, {K: Zero}}, Do: func(s *State) { ev(s, "fail|Decapsulate"); s.Note(pos, "Decapsulate fails") }},
			}
		case fnSeal:
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("t:box<" + tm(3) + "~" + tm(1) + ">")}}}}
		case fnOpen:
			p, k := tm(1), tm(3)
			return []Out{
				{Res: []AV{{Lab: lab("t:" + p)}, avTrue}, Do: func(s *State) { ev(s, "open|%s|%s", p, k) }},
				{Res: []AV{{K: Zero}, avFalse}, Do: func(s *State) { ev(s, "fail|Open"); s.Note(x.Pos(), "Open fails") }},
			}
		case xdr2 + ".Marshal":
			if tm(0) != "f:Conn" {
				return nil
			}
			p := tm(1)
			return errFork(x, "send", []AV{{}}, func(s *State) { ev(s, "send|%s", p) }, func(s *State) { ev(s, "fail|send") })
		case xdr2 + ".Unmarshal", xdr2 + ".UnmarshalLimited":
			if tm(0) != "f:Conn" {
				return nil
			}
			n := next(st, "nr")
			t := x.Args[1]
			return errFork(x, "receive", []AV{{}}, func(s *State) {
				e.havoc(s, t.Addr, lab("t:r"+strconv.Itoa(n)))
				if t.Addr == nil || t.Addr.Heap {
					ev(s, "fail|receive")
				}
				ev(s, "recv|r%d", n)
			}, func(s *State) { ev(s, "fail|receive") })
		case "crypto/hmac.New":
			e.Count("kx step", "MAC in "+role)
			return obj(x, "mac<"+tm(1))
		case "crypto/sha512.New":
			return obj(x, "H<")
		case "crypto/sha512.Sum512":
			return []Out{{Res: []AV{{Lab: lab("t:H<~" + tm(0) + ">")}}}}
		case "(io.Writer).Write", "(hash.Hash).Write":
			if x.Args[0].has("hash") && x.Args[0].Addr != nil {
				k := x.Args[0].Addr.key()
				v := st.cells[k]
				v.C += "~" + tm(1)
				st.cells[k] = v
				return []Out{{Res: []AV{{}, avOK}}}
			}
		case "(hash.Hash).Sum":
			if x.Args[0].has("hash") && x.Args[0].Addr != nil {
				return []Out{{Res: []AV{{K: NonZero, Lab: lab("t:" + st.cells[x.Args[0].Addr.key()].C + ">")}}}}
			}
		case "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "bytes.Equal":
			a, b := tm(0), tm(1)
			if x.Name == "bytes.Equal" && (strings.HasPrefix(a, "mac<") || strings.HasPrefix(b, "mac<")) {
				e.Violation(st, "timing/"+fnName(x.Instr.Parent()), x.Instr, "a proof is compared with bytes.Equal, which is not constant time")
			}
			if strings.HasPrefix(b, "mac<") {
				a, b = b, a
			}
			one := AV{K: Const, C: "1"}
			if x.Name != "crypto/subtle.ConstantTimeCompare" {
				one = avTrue
			}
			return []Out{
				{Res: []AV{one}, Do: func(s *State) { ev(s, "verify|%s|%s", a, b) }},
				{Res: []AV{avFalse}, Do: func(s *State) { ev(s, "fail|verify"); s.Note(x.Pos(), "the proof does not match") }},
			}
		case "builtin:clear":
			if x.Args[0].Addr != nil && x.Args[0].Addr.Root == "g:session.ephemeralPrivate" && !x.Args[0].has("part") {
				st.Set("erased", "1")
			}
			return nil
		case "builtin:copy":
			t := tm(1)
			if strings.Contains(t, "g:session.ephemeral") {
				t = snap(st, t)
			}
			if x.Args[0].has("part") {
				t = "part(" + t + ")"
			}
			if x.Args[0].Addr != nil && x.Args[0].Addr.Root == "g:session.ephemeralPrivate" && !x.Args[0].has("part") && !x.Args[1].has("part") && x.Args[1].Addr != nil && e.loadCell(st, x.Args[1].Addr).is(Zero) {
				st.Set("erased", "1")
			}
			if x.Args[0].Addr != nil && !x.Args[0].Addr.Heap {
				e.havoc(st, x.Args[0].Addr, lab("t:"+t))
			}
			return []Out{{Res: []AV{{}}}}
		case "builtin:append":
			t := tm(len(x.Args) - 1)
			if have := tm(0); have != "?" && len(have) < 200 && !strings.Contains(have, "+") {
				// one after the other
				return []Out{{Res: []AV{{K: NonZero, Lab: lab("t:" + have + "~" + t)}}}}
			}
			return []Out{{Res: []AV{{K: NonZero, Lab: labJoin(x.Args[0].Lab, lab("t:"+t))}}}}
		}
		return nil
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Slice)
		if !ok {
			return
		}
		v := e.val(st, s)
		if s.High != nil && isIntConst(s.High, 0) {
			v.Lab = labJoin(v.Lab, lab("part"))
			st.vals[VKey{st.depth(), s}] = v
			return
		}
		t := strings.TrimSuffix(strings.TrimPrefix(tterm(e, st, v), "part("), ")")
		if !strings.HasPrefix(t, "H<") {
			return
		}
		lo := "0"
		if s.Low != nil {
			lo = "?"
			if n, ok := intOf(e.val(st, s.Low)); ok {
				lo = strconv.FormatInt(n, 10)
			}
		}
		if s.Low == nil && s.High == nil {
			return
		}
		v.Lab = lab("t:" + t + "[" + lo + "]")
		v.Addr = nil
		st.vals[VKey{st.depth(), s}] = v
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a, f := storeField(e, st, s)
		if a.Root == "g:session.ephemeralPrivate" && (e.val(st, s.Val).is(Zero) || selfXor(s.Val)) {
			// all of it at once, or every element in turn
			ia, el := s.Addr.(*ssa.IndexAddr)
			if !el || allIndexed(s) && !e.val(st, ia.X).has("part") {
				st.Set("erased", "1")
			}
		}
		if f == nil || a.Owner != "session.KX" {
			return
		}
		t := tterm(e, st, e.val(st, s.Val))
		switch f.Name() {
		case "readKey", "writeKey", "TheirPublicKey":
			ev(st, "set|%s|%s", f.Name(), t)
			e.Count("kx step", "set "+f.Name()+" in "+role)
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if role == fnInitiate && st.Get("generated") == "1" && st.Get("erased") != "1" {
			e.Violation(st, role+"/erase", in, "%s returns without the ephemeral private key having been erased", role)
		}
		if len(ret) == 0 || ret[len(ret)-1].nonzero() {
			return
		}
		tr := st.Get("tr")
		if i := strings.Index(tr, "fail|"); i >= 0 {
			what := strings.SplitN(tr[i+5:], ";", 2)[0]
			e.Violation(st, role+"/ignored/"+what, in, "%s reports success although %s failed", role, what)
			return
		}
		// one key pair, taken as a whole
		at := map[string]bool{}
		for _, m := range reEph.FindAllStringSubmatch(tr, -1) {
			at[m[1]] = true
		}
		if st.Get("generated") != "1" && (at[""] || at["@none"] || len(at) > 1) {
			e.Violation(st, role+"/ephemeral", in, "%s uses the ephemeral key pair in place, or takes its halves in different critical sections: they are replaced while sessions are set up, and it goes on with a key that is not the one it announced", role)
		}
		tr = reEph.ReplaceAllStringFunc(tr, func(s string) string { return strings.SplitN(s, "@", 2)[0] })
		traces[tr] = strings.Split(strings.TrimSuffix(tr, ";"), ";")
	}
	c.Explore(r, func(st *State, f *ssa.Function) {
		paramLabels(st, f)
	}, []*ssa.Function{entry})
	return traces
}

var (
	reEph    = regexp.MustCompile(`g:session\.ephemeralP[a-z]+(@[a-z0-9]+)?`)
	reMacKey = regexp.MustCompile(`^mac<k[0-9]+~`)
	reSecret = regexp.MustCompile(`^k[0-9]+$`)
	reCipher = regexp.MustCompile(`^c[0-9]+$`)
)

// storesGlobal matches stores into the named package variable.
func storesGlobal(name string) func(p *Prog, in ssa.Instruction) bool {
	return func(p *Prog, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		v := s.Addr
		for {
			switch x := v.(type) {
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Global:
				return x.Name() == name
			default:
				return false
			}
		}
	}
}

// selfXor: x ^ x of one memory cell.
func selfXor(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.XOR && b.Op != token.SUB {
		return false
	}
	cell := func(v ssa.Value) (ssa.Value, ssa.Value) {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return v, nil
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return u.X, nil
		}
		return ia.X, ia.Index
	}
	x1, i1 := cell(b.X)
	x2, i2 := cell(b.Y)
	return x1 == x2 && i1 == i2
}

var reRecv = regexp.MustCompile(`\br(\d+)\b`)

// canon replaces the terms of a role by role independent names.
func canonTerm(t, me, peer string) string {
	rep := strings.NewReplacer(
		"f:OurPublicKey", "pk."+me, "f:OurPrivateKey", "sk."+me, "f:TheirPublicKey", "pk."+peer,
		"ephpk", "epk."+me, "ephsk", "esk."+me,
		"g:session.ephemeralPublic", "epk."+me, "g:session.ephemeralPrivate", "esk."+me)
	return rep.Replace(t)
}

// checkKx (C15): both roles run the same exchange, and neither completes it
// without having verified everything the peer proved.
func checkKx(c *Ctx) {
	c.Rule("Initiate and Respond are explored on every path; each successful path is reduced to its sequence of sends, receives, encapsulations, decapsulations, verified proofs and key assignments, as terms")
	c.Rule("no failed step is followed by success; the two roles' sequences are dual: what one sends the other receives, opens with the same key and verifies as the same MAC over the same terms; ciphertexts are opened with the matching private key; session keys derive from all shared secrets after the last proof, mirrored")
	cl := c.kxExplore(fnInitiate)
	sv := c.kxExplore(fnRespond)
	if len(cl) == 0 || len(sv) == 0 {
		c.Violation("kx/success", token.NoPos, "no successful path was found: initiate %d, respond %d", len(cl), len(sv))
		return
	}
	if dumpKx {
		for k := range cl {
			fmt.Fprintln(os.Stderr, "C:", k)
		}
		for k := range sv {
			fmt.Fprintln(os.Stderr, "S:", k)
		}
	}
	for ck, ct := range cl {
		for sk, stt := range sv {
			_ = ck
			_ = sk
			c.Count("kx", "pair of successful paths")
			c.matchKx(ct, stt)
		}
	}
	c.Need("kx step", 8)
	checkKxUse(c)
	c.Assume = append(c.Assume, "sntrup4591761, secretbox and HMAC-SHA256 keep their security properties")
}

type kxRole struct {
	name, peer string
	ev         kxTrace
	sends      []string
	vals       []string // canonical value of the nth received message
	opened     map[int]string
	enc        map[string]string
	dec        map[string]string
	decC       map[string]string
	order      []string
	verify     int
}

func (c *Ctx) matchKx(ct, st kxTrace) {
	roles := []*kxRole{{name: "client", peer: "server", ev: ct}, {name: "server", peer: "client", ev: st}}
	fn := map[string]string{"client": fnInitiate, "server": fnRespond}
	bad := func(r *kxRole, key, format string, a ...interface{}) {
		c.Violation("kx/"+fn[r.name]+"/"+key, c.P.Func(fn[r.name]).Pos(), "%s: %s", fn[r.name], fmt.Sprintf(format, a...))
	}
	for _, r := range roles {
		r.opened, r.enc, r.dec, r.decC = map[int]string{}, map[string]string{}, map[string]string{}, map[string]string{}
		for _, e := range r.ev {
			f := strings.Split(e, "|")
			switch f[0] {
			case "send":
				r.sends = append(r.sends, canonTerm(f[1], r.name, r.peer))
			case "open":
				n, _ := strconv.Atoi(strings.TrimPrefix(f[1], "r"))
				r.opened[n] = f[2]
			}
		}
	}
	nrecv := func(r *kxRole) int {
		n := 0
		for _, e := range r.ev {
			if strings.HasPrefix(e, "recv|") {
				n++
			}
		}
		return n
	}
	// resolve received values, which refer to each other's sends
	var subst func(r *kxRole, t string, d int) string
	value := func(r *kxRole, n, d int) string {
		p := roles[0]
		if r == p {
			p = roles[1]
		}
		if n < 1 || n > len(p.sends) {
			return "missing"
		}
		s := p.sends[n-1]
		k, boxed := r.opened[n]
		if strings.HasPrefix(s, "box<") != boxed {
			return "sealed-differently"
		}
		if boxed {
			b := strings.TrimSuffix(strings.TrimPrefix(s, "box<"), ">")
			i := strings.Index(b, "~")
			if b[:i] != k {
				return "sealed-with-" + b[:i] + "-opened-with-" + k
			}
			s = b[i+1:]
		}
		return subst(p, s, d+1)
	}
	subst = func(r *kxRole, t string, d int) string {
		if d > 12 {
			return "cyclic"
		}
		t = canonTerm(t, r.name, r.peer)
		return reRecv.ReplaceAllStringFunc(t, func(m string) string {
			n, _ := strconv.Atoi(m[1:])
			return value(r, n, d)
		})
	}
	for i, r := range roles {
		p := roles[1-i]
		if n := nrecv(r); n != len(p.sends) {
			bad(r, "count", "it receives %d messages, the peer sends %d", n, len(p.sends))
		}
		keys := map[string]string{}
		lastProof, setAt := -1, -1
		verified := 0
		var ks []string
		for j, e := range r.ev {
			f := strings.Split(e, "|")
			switch f[0] {
			case "enc":
				r.enc[f[1]] = subst(r, f[2], 0)
				ks = append(ks, f[1])
			case "dec":
				r.dec[f[1]] = subst(r, f[3], 0)
				r.decC[f[1]] = subst(r, f[2], 0)
				ks = append(ks, f[1])
				lastProof = j
			case "open":
				lastProof = j
			case "verify":
				verified++
				lastProof = j
				want, got := subst(r, f[1], 0), subst(r, f[2], 0)
				if want != got {
					bad(r, "proof"+strconv.Itoa(verified), "proof %d is verified as %s but the peer computes %s", verified, want, got)
				}
				c.Count("kx proof", r.name+" "+want)
			case "set":
				if f[1] == "readKey" || f[1] == "writeKey" {
					keys[f[1]] = subst(r, f[2], 0)
					if setAt < 0 {
						setAt = j
					}
				}
				if f[1] == "TheirPublicKey" {
					if v := subst(r, f[2], 0); v != "pk."+r.peer {
						bad(r, "identity", "the peer's identity is taken from %s", v)
					}
				}
			}
		}
		r.order = ks
		proofs := 0
		for _, s := range p.sends {
			if strings.Contains(s, "~mac<") && strings.HasPrefix(s, "box<") {
				b := s[strings.Index(s, "~")+1:]
				if strings.HasPrefix(b, "mac<") {
					proofs++
				}
			}
		}
		if verified < proofs || proofs == 0 {
			bad(r, "proofs", "the peer sends %d proofs, %d are verified", proofs, verified)
		}
		if keys["readKey"] == "" || keys["writeKey"] == "" {
			bad(r, "keys", "the session keys are not set")
		} else {
			if keys["readKey"] == keys["writeKey"] {
				bad(r, "samekey", "the two directions share one key")
			}
			for _, k := range ks {
				if !strings.Contains(keys["readKey"], "~"+k) || !strings.Contains(keys["writeKey"], "~"+k) {
					bad(r, "derive/"+k, "the session keys do not depend on shared secret %s: %s", k, keys["readKey"])
				}
			}
			if setAt < lastProof {
				bad(r, "early", "the session keys are set before everything received was verified")
			}
		}
		r.vals = []string{keys["readKey"], keys["writeKey"]}
	}
	a, b := roles[0], roles[1]
	if a.vals[0] != b.vals[1] || a.vals[1] != b.vals[0] {
		bad(a, "mirror", "its keys %v are not the peer's %v reversed", a.vals, b.vals)
	}
	for i, r := range roles {
		p := roles[1-i]
		for k, pk := range r.enc {
			c.Count("kx secret", k)
			sk := p.dec[k]
			want := strings.NewReplacer("epk.", "esk.", "pk.", "sk.").Replace(pk)
			if strings.HasPrefix(pk, "epk.") {
				want = "esk." + pk[4:]
			}
			if sk != want {
				bad(r, "secret/"+k, "%s is encapsulated to %s but the peer opens it with %q", k, pk, sk)
			}
			if p.decC[k] != "c"+k[1:] {
				bad(p, "cipher/"+k, "%s is decapsulated from %s", k, p.decC[k])
			}
		}
	}
	// what the proofs cover, and whom the secrets depend on
	for _, r := range roles {
		all := ""
		for _, e := range r.ev {
			f := strings.Split(e, "|")
			switch f[0] {
			case "verify":
				v := subst(r, f[1], 0)
				all += v
				if m := reMacKey.FindStringSubmatch(v); m == nil {
					bad(r, "mackey", "a proof is keyed with something that is not a shared secret: %s", v)
				}
			case "open":
				if !reSecret.MatchString(f[2]) {
					bad(r, "openkey", "a message is opened with something that is not a shared secret: %s", f[2])
				}
			}
		}
		for _, s := range r.sends {
			if strings.HasPrefix(s, "box<") {
				if k := s[4:strings.Index(s, "~")]; !reSecret.MatchString(k) {
					bad(r, "sealkey", "a message is sealed with something that is not a shared secret: %s", k)
				}
			} else if !reCipher.MatchString(s) {
				bad(r, "plain/"+s, "%s is sent unencrypted", s)
			}
		}
		for _, w := range []string{"epk.client", "epk.server", "pk." + r.peer} {
			if !strings.Contains(all, "~"+w) {
				bad(r, "bind/"+w, "no verified proof covers %s", w)
			}
		}
		dep := map[string]bool{}
		for _, x := range roles {
			for _, pk := range x.enc {
				dep[pk] = true
			}
		}
		for _, w := range []string{"epk.client", "epk.server", "pk.client", "pk.server"} {
			if !dep[w] {
				bad(r, "depends/"+w, "no shared secret depends on %s", w)
			}
		}
	}
	// mutual authentication: each side proves possession of its long term key
	for i, r := range roles {
		p := roles[1-i]
		ok := false
		for _, pk := range r.enc {
			if pk == "pk."+p.name {
				ok = true
			}
		}
		if !ok {
			bad(r, "longterm", "no shared secret depends on the long term key of the %s: its identity is not proved", p.name)
		}
	}
	c.Need("kx proof", 3)
	c.Need("kx secret", 4)
}

// checkKxUse (C15): the client uses a session only after its key exchange.
func checkKxUse(c *Ctx) {
	r := &Rule{ID: "kx use"}
	isKxField := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && typeName(p.Elem()) == "session.KX"
	}
	storeKx := func(p *Prog, in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok || !isKxField(s.Val.Type()) {
			return false
		}
		if _, g := staticField(s.Val); g != nil {
			return false // a session that was adopted before
		}
		_, f := staticField(s.Addr)
		return f != nil && !isNilConst(s.Val)
	}
	r.Event = anyEvent(callEvent(fnInitiate), storeKx)
	r.NoInline = apiNoInline(fnInitiate, fnKxRead, fnKxWrite)
	r.Call = func(x *CallCtx) []Out {
		switch x.Name {
		case fnInitiate:
			k := x.Args[0].Sym
			x.E.Count("kx use", "Initiate in "+fnName(x.Instr.Parent()))
			return errFork(x, "key exchange", nil, func(s *State) { s.Set("kx", "ok#"+strconv.Itoa(k)) }, func(s *State) { s.Set("kx", "fail") })
		case fnKxRead, fnKxWrite:
			if !inPkg(x.Instr.Parent(), "zkclient") {
				return nil
			}
			if !x.Args[0].has("adopted") && !strings.HasPrefix(x.St.Get("kx"), "ok") {
				x.E.Violation(x.St, "use/"+x.Name, x.Instr, "%s is called on a session whose key exchange did not succeed", x.Name)
			}
			return errFork(x, "session i/o", make([]AV, x.Callee.Signature.Results().Len()-1), nil, nil)
		}
		return stdCall(x)
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if !storeKx(e.P, in) {
			return
		}
		s := in.(*ssa.Store)
		if v := e.val(st, s.Val); v.is(Zero) || v.has("adopted") {
			return
		}
		o, f := staticField(s.Addr)
		e.Count("kx use", "store to "+o+"."+f.Name()+" in "+fnName(in.Parent()))
		if !strings.HasPrefix(st.Get("kx"), "ok") {
			e.Violation(st, "adopt/"+o+"."+f.Name(), in, "%s.%s is set to a session whose key exchange did not succeed", o, f.Name())
		}
	}
	c.Rule("the client adopts and uses a session only on paths on which its key exchange succeeded")
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if isKxField(f.Type()) {
			return "adopted"
		}
		return ""
	}
	init := c.P.reaches(callEvent(fnInitiate))
	c.Explore(r, nil, c.P.climb(c.P.eventFuncs(storeKx, "zkclient"), func(f *ssa.Function) bool { return init[f] }, "zkclient"))
	c.Need("kx use", 2)
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// checkNonce (C16): no nonce is ever used twice, and both ends stay in step.
func checkNonce(c *Ctx) {
	c.Rule("in package session every Seal uses the connection's write counter and every Open its read counter; between two uses, and before returning, the counter used was advanced exactly once; nothing else writes it; a frame that is refused does not use it up")
	c.Rule("the messages the two roles seal during the key exchange use distinct (key, counter) pairs")
	c.Rule("the counter is advanced over at least eight of its bytes; one goroutine at a time writes to a session: the client's scheduler, and the server's connection goroutine until it starts the session writer")
	isCounter := func(f *types.Var) bool {
		return f != nil && f.Type().String() == "[24]byte"
	}
	counterOf := func(e *Engine, v AV) *types.Var {
		if v.Addr == nil {
			return nil
		}
		for _, f := range v.Addr.Fields {
			if isCounter(f) {
				return f
			}
		}
		return nil
	}
	bumpStore := func(p *Prog, in ssa.Instruction) bool {
		if cc, ok := in.(ssa.CallInstruction); ok {
			f := cc.Common().StaticCallee()
			return f != nil && strings.HasPrefix(fnName(f), "(encoding/binary") && strings.Contains(f.Name(), "Put")
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		return ok && strings.HasSuffix(ia.X.Type().String(), "*[24]byte")
	}
	bumpers := map[*ssa.Function]bool{}
	counters := map[string]*types.Var{} // by name
	r := &Rule{ID: "nonce", HeapCells: false, FoldInts: 12}
	r.Event = anyEvent(callEvent(fnSeal, fnOpen), bumpStore)
	r.NoInline = func(f *ssa.Function) bool { return false }
	bump := func(e *Engine, st *State, f *types.Var, in ssa.Instruction, direct bool) {
		k := "ctr:" + f.Name()
		e.Count("counter", f.Name()+" advanced in "+fnName(in.Parent()))
		switch st.Get(k) {
		case "used":
			st.Set(k, "bumped")
		case "copied":
			// the copy is still to be used
			st.Set(k, "owed")
		default:
			if !direct {
				e.Violation(st, "nonce/advance/"+f.Name()+"/"+fnName(in.Parent()), in, "%s is advanced without a message having been sealed or opened with it: the two ends lose step", f.Name())
			}
		}
	}
	use := func(x *CallCtx, what, want string, keyField string, nonce, key int) {
		st, e := x.St, x.E
		where := fnName(x.Instr.Parent())
		f := counterOf(e, x.Args[nonce])
		copied := ""
		if f == nil && x.Args[nonce].Addr != nil && !x.Args[nonce].Addr.Heap {
			for _, l := range e.loadCell(st, x.Args[nonce].Addr).labels() {
				if strings.HasPrefix(l, "copy:") {
					copied = l[5:]
					f = counters[copied]
				}
			}
		}
		e.Count("use", what+" in "+where)
		if f == nil {
			e.Violation(st, "nonce/source/"+what+"/"+where, x.Instr, "%s uses a nonce that is not the connection's counter", what)
			return
		}
		st.Set("dir:"+what, f.Name())
		k := "ctr:" + f.Name()
		if now := st.Get(k); now == "used" || copied != "" && now == "bumped" {
			e.Violation(st, "nonce/reuse/"+f.Name()+"/"+where, x.Instr, "%s uses %s a second time without it having been advanced", what, f.Name())
		}
		if copied != "" && st.Get(k) == "owed" {
			st.Set(k, "bumped")
		} else {
			st.Set(k, "used")
		}
		if what == "Seal" {
			st.Set("frame", "")
		}
		e.Count("pair", what+" "+f.Name())
		if l := x.Args[key].labels(); len(l) > 0 {
			for _, y := range l {
				if strings.HasPrefix(y, "key:") {
					e.Count("pair", what+" "+y)
				}
			}
		}
	}
	// a copy of a counter
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if f := a.field(); f != nil && isCounter(f) && !strings.HasSuffix(a.Path, "]") && v.has("counter:"+f.Name()) {
			counters[f.Name()] = f
			if k := "ctr:" + f.Name(); st.Get(k) != "used" && st.Get(k) != "owed" {
				st.Set(k, "copied")
			}
			v.Lab = lab("copy:" + f.Name())
		}
		return v
	}
	r.FieldLab = func(owner string, f *types.Var, v AV) string {
		if isCounter(f) {
			return "counter:" + f.Name()
		}
		if owner == "session.KX" && f.Type().String() == "*[32]byte" {
			return "key:" + f.Name()
		}
		if owner == "session.KX" && f.Name() == "Conn" {
			return "conn"
		}
		return ""
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		switch x.Name {
		case "session.D":
			return []Out{{}}
		case fnSeal:
			use(x, "Seal", "write", "writeKey", 2, 3)
			return []Out{{Res: []AV{{K: NonZero, Lab: lab("sealed")}}}}
		case fnOpen:
			use(x, "Open", "read", "readKey", 2, 3)
			return []Out{{Res: []AV{{Lab: lab("opened")}, avTrue}}, {Res: []AV{{}, avFalse}}}
		case xdr2 + ".Marshal":
			if strings.Contains(e.deepLab(st, x.Args[0]), ",conn,") && strings.Contains(e.deepLab(st, x.Args[1]), ",sealed,") {
				st.Set("frame", "sent") // or the connection is broken
			}
			return errFork(x, "send", []AV{{}}, nil, nil)
		}
		if x.Callee != nil && isRepoFn(x.Callee) && hasEvent(e.P, x.Callee, bumpStore) {
			for _, a := range x.Args {
				if f := counterOf(e, a); f != nil {
					bumpers[x.Callee] = true
					bump(e, st, f, x.Instr, false)
					return []Out{{}}
				}
			}
		} else if x.Callee == nil || !isRepoFn(x.Callee) {
			for _, a := range x.Args {
				if f := counterOf(e, a); f != nil && strings.HasPrefix(x.Name, "(encoding/binary") && strings.Contains(x.Name, "Put") {
					bump(e, st, f, x.Instr, false)
				}
			}
		}
		return nil
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		a := e.addrOf(e.val(st, s.Addr))
		for _, f := range a.Fields {
			if isCounter(f) {
				if strings.HasSuffix(a.Path, "]") {
					bump(e, st, f, in, true)
				} else {
					e.Violation(st, "nonce/reset/"+fnName(in.Parent()), in, "%s is overwritten", f.Name())
				}
			}
		}
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		for k, v := range st.auto {
			if strings.HasPrefix(k, "ctr:") && v == "owed" {
				e.Violation(st, "nonce/advance/"+k[4:], in, "a path leaves with %s advanced without a message having been sealed or opened with it: the two ends lose step", k[4:])
			}
			if strings.HasPrefix(k, "ctr:") && v == "used" {
				e.Violation(st, "nonce/exit/"+k[4:], in, "a path leaves with %s used but not advanced: the next message uses the same nonce", k[4:])
			}
		}
		if st.Get("ctr:"+st.Get("dir:Seal")) != "" && st.Get("frame") != "sent" {
			e.Violation(st, "nonce/unsent", in, "a path returns having used up %s for a message that was never sent: the peer loses step", st.Get("dir:Seal"))
		}
	}
	c.Explore(r, paramLabels, nil, "session")
	c.Need("use", 2)
	c.Need("counter", 2)
	// the two directions keep apart
	seal, open := map[string]bool{}, map[string]bool{}
	for p := range c.Counts["pair"] {
		f := strings.SplitN(p, " ", 2)
		if f[0] == "Seal" {
			seal[f[1]] = true
		} else {
			open[f[1]] = true
		}
	}
	for k := range seal {
		if open[k] {
			c.Violation("nonce/shared/"+k, token.NoPos, "%s is used for both sending and receiving", k)
		}
	}
	if len(seal) < 2 || len(open) < 2 {
		c.Violation("nonce/pairs", token.NoPos, "the keys and counters of the two directions were not all seen: %v %v", sortedKeys(seal), sortedKeys(open))
	}
	// nothing outside package session touches the counters
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if o, fl := staticField(s.Addr); o == "session.KX" && isCounter(fl) && !inPkg(f, "session") {
					c.Violation("nonce/outside/"+fnName(f), in.Pos(), "%s writes %s", fnName(f), fl.Name())
				}
			}
		}
	}
	for f := range bumpers {
		c.bumperWidth(f)
	}
	c.Need("bumper", 1)
	c.handshakeNonces()
	c.singleWriter()
}

// handshakeNonces: during the key exchange no key seals two messages under
// the same counter value, whichever side sends them.
func (c *Ctx) handshakeNonces() {
	used := map[string]string{} // key/counter -> what was sealed
	for _, role := range []string{fnInitiate, fnRespond} {
		once := map[string]bool{}
		for _, tr := range c.kxExplore(role) {
			n := 0
			for _, e := range tr {
				if !strings.HasPrefix(e, "send|box<") {
					continue
				}
				b := e[len("send|box<"):]
				k := b[:strings.Index(b, "~")]
				at := k + " at counter " + strconv.Itoa(n)
				n++
				c.Count("handshake seal", role+" "+at)
				if !once[at] && used[at] != "" && used[at] != role {
					c.Violation("nonce/handshake/"+k, c.P.Func(role).Pos(), "%s and %s both seal a message with %s: the same key and nonce protect two messages", used[at], role, at)
				}
				once[at] = true
				used[at] = role
			}
		}
	}
	c.Need("handshake seal", 8)
}

// bumperWidth: over all paths, the counter function writes at least 8
// consecutive bytes, and what it writes to each depends on the byte below it
// (the carry), so the counter does not repeat within a session.
func (c *Ctx) bumperWidth(f *ssa.Function) {
	idx := map[int64]bool{}
	whole := false
	key := "nonce/width/" + fnName(f)
	byteLab := func(n int64) string { return "byte" + strconv.FormatInt(n, 10) }
	r := &Rule{ID: "counter " + fnName(f), FoldInts: 30, HeapCells: true}
	r.Event = func(p *Prog, in ssa.Instruction) bool { return false }
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if i := strings.LastIndex(a.Path, "["); i >= 0 && strings.HasSuffix(a.Path, "]") {
			if n, err := strconv.ParseInt(a.Path[i+1:len(a.Path)-1], 10, 64); err == nil {
				return AV{Lab: labJoin(v.Lab, lab(byteLab(n)))}
			}
		}
		return v
	}
	r.Cmp = func(x *CmpCtx) []Out {
		for _, p := range [][2]AV{{x.X, x.Y}, {x.Y, x.X}} {
			if _, ok := intOf(p[0]); !ok {
				continue
			}
			if strings.HasPrefix(p[1].Expr, "len(") {
				x.E.Violation(x.St, key, x.In, "how many bytes of the counter %s advances is not fixed", fnName(f))
				return []Out{{Res: []AV{{K: Zero}}}, {Res: []AV{{K: NonZero}}}}
			}
			if !p[1].hasPfx("byte") {
				continue
			}
			do := func(s *State) { s.Set("carry", labJoin(s.Get("carry"), p[1].Lab)) }
			return []Out{{Res: []AV{{K: Zero}}, Do: do}, {Res: []AV{{K: NonZero}}, Do: do}}
		}
		return nil
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if ok && (b.Op == token.ADD || b.Op == token.SUB) {
			x, y := e.val(st, b.X), e.val(st, b.Y)
			nz := func(v AV) bool { n, ok := intOf(v); return ok && n != 0 }
			if nz(x) || nz(y) {
				v := e.val(st, b)
				v.Lab = labJoin(v.Lab, lab("inc"))
				st.vals[VKey{st.depth(), b}] = v
			}
		}
		if !ok || b.Op != token.SHR && b.Op != token.QUO || !e.val(st, b.X).hasPfx("byte") {
			return
		}
		if n, ok := intOf(e.val(st, b.Y)); ok && (b.Op == token.SHR && n != 8 || b.Op == token.QUO && n != 256) {
			e.Violation(st, "nonce/carry/"+fnName(f), in, "%s carries something else than a byte's overflow into the next byte", fnName(f))
		}
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
			n, ok := intOf(e.val(st, ia.Index))
			if !ok {
				return
			}
			idx[n] = true
			v := e.val(st, s.Val)
			if n == 0 && !v.has("inc") {
				e.Violation(st, "nonce/still/"+fnName(f), in, "%s stores the counter's first byte without having added anything to it: nonces repeat", fnName(f))
			}
			if n > 0 && !v.has(byteLab(n-1)) && !strings.Contains(st.Get("carry"), ","+byteLab(n-1)+",") {
				e.Violation(st, "nonce/carry/"+fnName(f), in, "%s writes byte %d of the counter whatever byte %d was: the carry is lost and nonces repeat", fnName(f), n, n-1)
			}
		}
	}
	r.Call = func(x *CallCtx) []Out {
		if strings.Contains(x.Name, "PutUint64") {
			whole = true
			if !x.Args[len(x.Args)-1].has("inc") {
				x.E.Violation(x.St, "nonce/still/"+fnName(f), x.Instr, "%s stores the counter without having added anything to it: nonces repeat", fnName(f))
			}
		}
		return nil
	}
	c.Explore(r, paramLabels, []*ssa.Function{f})
	c.Count("bumper", fnName(f))
	if !whole && len(idx) < 8 {
		c.Violation(key, f.Pos(), "%s advances only %d bytes of the counter: nonces repeat within a session", fnName(f), len(idx))
	}
}

// singleWriter: writing a session is never concurrent.
func (c *Ctx) singleWriter() {
	w := c.P.Func(fnKxWrite)
	if w == nil {
		c.Violation("anchor/"+fnKxWrite, token.NoPos, "%s is gone", fnKxWrite)
		return
	}
	t := map[*ssa.Function]bool{w: true}
	for _, pk := range []string{"zkclient", "zkserver"} {
		th := c.P.threads(t, pk)
		spawned := map[*ssa.Function]bool{}
		// of these, those started by another one on a path that stops
		// writing itself
		r := &Rule{ID: "single writer " + pk}
		r.Event = anyEvent(callEvent(fnKxWrite), func(p *Prog, in ssa.Instruction) bool {
			g, ok := in.(*ssa.Go)
			return ok && th[g.Common().StaticCallee()]
		})
		r.NoInline = apiNoInline(fnKxWrite)
		r.OnGo = func(x *CallCtx) {
			for _, g := range goTargets(x) {
				if !th[g] {
					continue
				}
				spawned[g] = true
				if x.St.Get("writer") != "" {
					x.E.Violation(x.St, "writer/two/"+fnName(g), x.Instr, "a second goroutine that writes the session is started")
				}
				x.St.Set("writer", fnName(g))
				x.E.Count("writer", fnName(g)+" started by "+fnName(x.Instr.Parent()))
			}
		}
		r.Call = func(x *CallCtx) []Out {
			if x.Name == fnKxWrite {
				x.E.Count("writer", "write in "+fnName(x.Instr.Parent()))
				if g := x.St.Get("writer"); g != "" {
					x.E.Violation(x.St, "writer/concurrent/"+fnName(x.Instr.Parent()), x.Instr, "the session is written here while %s writes it too: both use the same nonces", g)
				}
				return errFork(x, "write", nil, nil, nil)
			}
			return stdCall(x)
		}
		var entries []*ssa.Function
		for f := range th {
			entries = append(entries, f)
		}
		sortFns(entries)
		c.Explore(r, nil, entries)
		var free []string
		for _, f := range entries {
			if !spawned[f] {
				free = append(free, fnName(f))
			}
		}
		if len(free) != 1 {
			c.Violation("writer/threads/"+pk, token.NoPos, "%s: %d unrelated goroutines write a session (%v): they can use the same nonce at once", pk, len(free), free)
		}
	}
	c.Need("writer", 4)
}

// goTargets are the functions a go statement starts.
func goTargets(x *CallCtx) []*ssa.Function {
	cc := x.Instr.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if x.Callee != nil {
		return []*ssa.Function{x.Callee}
	}
	return nil
}

func sortFns(f []*ssa.Function) {
	sort.Slice(f, func(i, j int) bool { return fnName(f[i]) < fnName(f[j]) })
}

func init() { dumpKx = os.Getenv("ZKCHECK_DUMP") != "" }

var dumpKx bool
