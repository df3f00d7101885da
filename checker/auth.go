package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnBlobDecrypt = "blobshare.Decrypt"
	fnEdVerify    = "golang.org/x/crypto/ed25519.Verify"
	fnIDVerify    = "(*zkidentity.PublicIdentity).Verify"
	fnIDMessage   = "(zkidentity.PublicIdentity).VerifyMessage"
	fnIDRecalc    = "(*zkidentity.FullIdentity).RecalculateDigest"
	fnIDUnmarshal = "zkidentity.UnmarshalPublicIdentity"
)

func init() {
	register("C30", checkAuthData)
	register("C31", checkIdentity)
}

// checkAuthData (C30): what did not authenticate is never used.
func checkAuthData(c *Ctx) {
	c.Rule("after a failed Open, Decapsulate, Decrypt or Read no path uses the result: it is not decoded, copied, kept, sent or returned together with success")
	c.Rule("every exported function of session, ratchet and blobshare returns success only when the last authenticated decryption of the path succeeded")
	auth := map[string]bool{fnOpen: true, fnDecaps: true, fnBlobDecrypt: true, fnKxRead: true, fnRatchetDecrypt: true}
	ev := callEvent(fnOpen, fnDecaps, fnBlobDecrypt, fnKxRead, fnRatchetDecrypt)
	// inside the packages that offer them, the primitives decide
	prim := []string{"session", "ratchet", "blobshare"}
	run := func(id string, keep map[string]bool, pk ...string) {
		names := []string{}
		for n := range keep {
			names = append(names, n)
		}
		r := &Rule{ID: id}
		r.Event = callEvent(names...)
		r.NoInline = apiNoInline(names...)
		r.Call = func(x *CallCtx) []Out {
			st, e := x.St, x.E
			where := fnName(x.Instr.Parent())
			for i, a := range x.Args {
				if !e.deepLabHas(st, a, "bad") {
					continue
				}
				switch {
				case strings.HasPrefix(x.Name, "builtin:len"), strings.HasPrefix(x.Name, "builtin:cap"),
					strings.Contains(x.Name, "debug.Debug)."), strings.HasPrefix(x.Name, "fmt."), x.Name == "session.D":
				default:
					if x.Name != "" || x.Callee == nil {
						e.Violation(st, "used/"+where+"/"+x.Name, x.Instr, "%s is given (argument %d) the result of a decryption that failed", orNone(x.Name), i)
					}
				}
			}
			if keep[x.Name] {
				e.Count("authenticated call", short2(x.Name)+" in "+where)
				pos := x.Pos()
				ok := func(s *State) { s.Set("last", "ok"); s.Note(pos, "%s succeeds", short2(x.Name)) }
				bad := func(s *State) { s.Set("last", "fail"); s.Note(pos, "%s fails", short2(x.Name)) }
				switch x.Name {
				case fnOpen:
					return []Out{{Res: []AV{{Lab: lab("good")}, avTrue}, Do: ok}, {Res: []AV{{Lab: lab("bad")}, avFalse}, Do: bad}}
				case fnDecaps:
					return []Out{
						{Res: []AV{{K: NonZero, Lab: lab("good")}, {K: Const, C: "1"}}, Do: ok},
						{Res: []AV{{Lab: lab("bad")}, {K: Zero}}, Do: bad}}
				default:
					return []Out{{Res: []AV{{Lab: lab("good")}, avOK}, Do: ok}, {Res: []AV{{Lab: lab("bad")}, avErr}, Do: bad}}
				}
			}
			return stdCall(x)
		}
		r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			v := e.val(st, s.Val)
			a := e.addrOf(e.val(st, s.Addr))
			if v.has("bad") && !v.is(Zero) && (a.Heap || strings.HasPrefix(a.Root, "g")) {
				e.Violation(st, "kept/"+fnName(in.Parent()), in, "the result of a decryption that failed is kept")
			}
		}
		r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
			f := in.Parent()
			if !f.Object().Exported() {
				return
			}
			if st.Get("last") != "fail" || len(ret) == 0 {
				return
			}
			l := ret[len(ret)-1]
			res := f.Signature.Results()
			t := res.At(res.Len() - 1).Type()
			succ := isErr(t) && !l.nonzero() || isBool(t) && !l.is(Zero)
			if succ {
				e.Violation(st, "success/"+fnName(f), in, "%s can return success although its last decryption failed", fnName(f))
			}
			e.Count("refusal", fnName(f))
		}
		var entries []*ssa.Function
		if pk[0] != "zkclient" {
			reach := c.P.reaches(r.Event)
			for f := range reach {
				if inPkg(f, pk...) && f.Object() != nil && f.Object().Exported() {
					entries = append(entries, f)
				}
			}
			sortFns(entries)
		} else {
			r.Exit = nil
			entries = c.P.climb(c.P.eventFuncs(r.Event, pk...), func(f *ssa.Function) bool { return len(f.Blocks) > 0 }, pk...)
		}
		c.Explore(r, nil, entries)
	}
	_ = ev
	run("auth primitives", map[string]bool{fnOpen: true, fnDecaps: true}, prim...)
	delete(auth, fnOpen)
	run("auth users", auth, "zkclient", "zkserver", "ratchet", "tools/...")
	c.Need("authenticated call", 12)
	c.Need("refusal", 5)
}

// copiesWhole: foreign functions whose result holds all that they were given.
var copiesWhole = map[string]bool{
	"bytes.Clone": true, "slices.Clone": true, "strings.Clone": true,
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func short2(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// checkIdentity (C31): an identity that verifies was signed as it is by the
// owner of its keys.
func checkIdentity(c *Ctx) {
	c.Rule("Verify returns true only after it found Identity to be the hash of Key, Digest to be the hash of every other field in the order it was signed, and Signature to be SigKey's signature of that digest")
	c.Rule("what RecalculateDigest hashes and signs is what Verify hashes and checks, and it fails when the result does not verify")
	c.Rule("VerifyMessage accepts only a signature of that message by SigKey; UnmarshalPublicIdentity returns an identity only after it verified")
	c.Rule("two fields of variable length are never hashed next to each other without their lengths")

	fields := map[string]types.Type{}
	for _, f := range c.structFields("zkidentity", "PublicIdentity") {
		fields[f.Name()] = f.Type()
	}
	var term func(e *Engine, st *State, v AV) string
	term = func(e *Engine, st *State, v AV) string {
		if v.has("part") {
			w := v
			w.Lab = strings.ReplaceAll(w.Lab, ",part,", ",")
			if t := term(e, st, w); t != "" {
				return "part(" + t + ")"
			}
			return ""
		}
		pick := func(l string) string {
			for _, x := range strings.Split(strings.Trim(l, ","), ",") {
				if strings.HasPrefix(x, "t:") {
					return strings.ReplaceAll(x[2:], ";", ",")
				}
			}
			return ""
		}
		// the innermost field an address lies in
		if a := v.Addr; a != nil {
			for i := len(a.Fields) - 1; i >= 0; i-- {
				f := a.Fields[i]
				if t := fields[f.Name()]; t != nil && types.Identical(t, f.Type()) {
					// written since?
					w := e.loadCell(st, a)
					if p := pick(w.Lab); p != "" {
						return p
					}
					return f.Name()
				}
			}
			if !a.Heap {
				w := e.loadCell(st, a)
				if p := pick(w.Lab); p != "" {
					return p
				}
				for _, y := range w.Agg {
					if p := pick(y.Lab); p != "" {
						return p
					}
				}
			}
		}
		return pick(v.Lab)
	}
	tl := func(s string) string { return lab("t:" + strings.ReplaceAll(s, ",", ";")) }
	eq := func(s *State, a, b string) {
		if a != "" && b != "" {
			s.Set("eq:"+a+"="+b, "y")
			s.Set("eq:"+b+"="+a, "y")
		}
	}
	mk := func(id string, outer map[string]bool, hashed func(string)) *Rule {
		r := &Rule{ID: id, InlineAll: true, HeapCells: true, FoldInts: 12, PartLab: "part"}
		add := func(st *State, t string) {
			h := st.Get("h")
			if strings.Count(h, "|") > 24 {
				h = "H|…"
			} else if h != "H|…" {
				h += "|" + t
			}
			st.Set("h", h)
		}
		r.NoInline = func(f *ssa.Function) bool { return outer[fnName(f)] }
		r.FieldLab = func(owner string, f *types.Var, v AV) string {
			if t := fields[f.Name()]; t != nil && strings.HasPrefix(owner, "zkidentity.") && types.Identical(t, f.Type()) && !strings.Contains(v.Lab, ",t:") {
				return "t:" + f.Name()
			}
			return ""
		}
		r.Call = func(x *CallCtx) []Out {
			st, e := x.St, x.E
			pos := x.Pos()
			switch x.Name {
			case "crypto/sha256.New":
				st.Set("h", "H")
				return []Out{{Res: []AV{{K: NonZero, Lab: lab("hasher")}}}}
			case "(hash.Hash).Write", "(io.Writer).Write":
				if x.Args[0].has("hasher") {
					t := term(e, st, x.Args[1])
					if t == "" {
						t = "?"
					}
					add(st, t)
					e.Count("hashed field", t+" in "+fnName(x.Instr.Parent()))
				}
				return []Out{{Res: []AV{{}, avOK}}}
			case "io.WriteString":
				if x.Args[0].has("hasher") {
					t := term(e, st, x.Args[1])
					if t == "" {
						t = "?"
					}
					add(st, t)
					e.Count("hashed field", t+" in "+fnName(x.Instr.Parent()))
				}
				return []Out{{Res: []AV{{}, avOK}}}
			case "(hash.Hash).Sum":
				d := st.Get("h")
				if sl, ok := x.Instr.Common().Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High != nil && isArrayPtr(sl.X.Type()) && e.val(st, sl.High).is(Zero) {
					// into the array the empty slice begins
					e.havoc(st, e.val(st, sl.X).Addr, tl(d))
				}
				if hashed != nil {
					hashed(d)
				}
				return []Out{{Res: []AV{{K: NonZero, Lab: tl(d)}}}}
			case "crypto/sha256.Sum256":
				return []Out{{Res: []AV{{K: NonZero, Lab: tl("H|" + term(e, st, x.Args[0]))}}}}
			case "builtin:copy":
				l := term(e, st, x.Args[1])
				e.havoc(st, x.Args[0].Addr, labJoin("", tl(l)))
				if a := x.Args[0].Addr; a != nil && a.field() != nil {
					st.Set("set:"+a.field().Name(), l)
				}
				return []Out{{Res: []AV{{}}}}
			case "bytes.Equal", "crypto/hmac.Equal":
				a, b := term(e, st, x.Args[0]), term(e, st, x.Args[1])
				return boolFork(x, "comparing "+orNone(a)+" with "+orNone(b), func(s *State) { eq(s, a, b) }, nil)
			case "crypto/subtle.ConstantTimeCompare":
				a, b := term(e, st, x.Args[0]), term(e, st, x.Args[1])
				return []Out{{Res: []AV{{K: Const, C: "1"}}, Do: func(s *State) { eq(s, a, b) }}, {Res: []AV{{K: Zero}}}}
			case fnEdVerify, "crypto/ed25519.Verify":
				k, m, sg := term(e, st, x.Args[0]), term(e, st, x.Args[1]), term(e, st, x.Args[2])
				if m == "" && x.Args[1].has("param1") {
					m = "message"
				}
				if sg == "" && e.deepLabHas(st, x.Args[2], "param2") {
					sg = "signature"
				}
				return boolFork(x, "verifying the signature", func(s *State) { s.Set("signed:"+k+"/"+m+"/"+sg, "y") }, nil)
			case "golang.org/x/crypto/ed25519.Sign", "crypto/ed25519.Sign":
				return []Out{{Res: []AV{{K: NonZero, Lab: tl("sig(" + term(e, st, x.Args[1]) + ")")}}}}
			case fnIDVerify:
				if outer[fnIDVerify] {
					return boolFork(x, "Verify", func(s *State) { s.Set("verified", "y"); s.Note(pos, "the identity verifies") }, func(s *State) { s.Set("verified", "") })
				}
			}
			// what a foreign function makes of a field is not the field
			if x.Callee != nil && len(x.Callee.Blocks) == 0 && !copiesWhole[x.Name] {
				for _, a := range x.Args {
					t := term(e, st, a)
					if t == "" {
						continue
					}
					n := x.Instr.Common().Signature().Results().Len()
					out := Out{}
					for i := 0; i < n; i++ {
						out.Res = append(out.Res, AV{Lab: tl(x.Name + "(" + t + ")")})
					}
					return []Out{out}
				}
			}
			return stdCall(x)
		}
		r.Cmp = func(x *CmpCtx) []Out {
			if _, ok := x.In.X.Type().Underlying().(*types.Array); !ok || x.Op != token.EQL && x.Op != token.NEQ {
				return nil
			}
			a, b := term(x.E, x.St, x.X), term(x.E, x.St, x.Y)
			return cmpFork(x, func(s *State, op token.Token) {
				if op == token.EQL {
					eq(s, a, b)
				}
			})
		}
		return r
	}
	must := func(name string) *ssa.Function {
		f := c.P.Func(name)
		if f == nil {
			c.Violation("anchor/"+name, token.NoPos, "%s is gone", name)
		}
		return f
	}
	v, rec, msg, un := must(fnIDVerify), must(fnIDRecalc), must(fnIDMessage), must(fnIDUnmarshal)
	if v == nil || rec == nil || msg == nil || un == nil {
		return
	}
	var digests []string
	r := mk("identity verify", nil, nil)
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if ret[0].is(Zero) {
			e.Count("exit", "Verify false")
			return
		}
		e.Count("exit", "Verify true")
		if st.Get("eq:Identity=H|Key") == "" {
			e.Violation(st, "verify/identity", in, "Verify accepts an identity that is not the hash of its key")
		}
		d := ""
		for k := range st.auto {
			if strings.HasPrefix(k, "eq:Digest=") {
				d = k[len("eq:Digest="):]
			}
		}
		if d == "" {
			e.Violation(st, "verify/digest", in, "Verify accepts an identity without comparing its digest")
			return
		}
		digests = append(digests, d)
		for f := range fields {
			if f == "Digest" || f == "Signature" {
				continue
			}
			if !strings.Contains(d+"|", "|"+f+"|") {
				e.Violation(st, "verify/covers/"+f, in, "the digest Verify compares does not cover %s", f)
			}
		}
		if st.Get("signed:SigKey/Digest/Signature") == "" && st.Get("signed:SigKey/"+d+"/Signature") == "" {
			e.Violation(st, "verify/signature", in, "Verify accepts an identity whose signature was not checked against its digest and signing key")
		}
		c.adjacent(e, st, in, d, fields)
	}
	c.Explore(r, paramLabels, []*ssa.Function{v})

	r = mk("identity sign", map[string]bool{fnIDVerify: true}, func(d string) {
		for _, w := range digests {
			if d != w {
				c.Violation("sign/differs", rec.Pos(), "RecalculateDigest hashes %s, Verify compares %s", strings.ReplaceAll(d, "|", " "), strings.ReplaceAll(w, "|", " "))
			}
		}
	})
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if !ret[0].is(Zero) {
			e.Count("exit", "RecalculateDigest fails")
			return
		}
		e.Count("exit", "RecalculateDigest succeeds")
		if st.Get("verified") == "" {
			e.Violation(st, "sign/unverified", in, "RecalculateDigest can succeed although the result does not verify")
		}
	}
	c.Explore(r, paramLabels, []*ssa.Function{rec})

	r = mk("identity message", nil, nil)
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if ret[0].is(Zero) {
			return
		}
		e.Count("exit", "VerifyMessage true")
		if st.Get("signed:SigKey/message/signature") == "" {
			e.Violation(st, "message", in, "VerifyMessage accepts a message whose signature by SigKey was not verified")
		}
	}
	c.Explore(r, paramLabels, []*ssa.Function{msg})

	r = mk("identity unmarshal", map[string]bool{fnIDVerify: true}, nil)
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if !ret[1].is(Zero) {
			return
		}
		e.Count("exit", "UnmarshalPublicIdentity succeeds")
		if st.Get("verified") == "" {
			e.Violation(st, "unmarshal", in, "UnmarshalPublicIdentity returns an identity that was not verified")
		}
	}
	c.Explore(r, nil, []*ssa.Function{un})
	c.Need("exit", 6)
	c.Need("hashed field", 5)
}

// adjacent: two strings hashed in a row can trade characters.
func (c *Ctx) adjacent(e *Engine, st *State, in ssa.Instruction, d string, fields map[string]types.Type) {
	p := strings.Split(d, "|")
	for i := 1; i < len(p); i++ {
		a, b := fields[p[i-1]], fields[p[i]]
		if a == nil || b == nil {
			continue
		}
		_, x := a.Underlying().(*types.Array)
		_, y := b.Underlying().(*types.Array)
		if !x && !y {
			e.Violation(st, "adjacent/"+p[i-1]+"/"+p[i], in, "%s and %s are hashed next to each other without their lengths: characters can be moved from one to the other without the digest changing", p[i-1], p[i])
		}
	}
}
