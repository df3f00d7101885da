package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", func(c *Ctx) {
		c.Rule("an index, and the bounds of a slice, that a peer chose, or that go into something whose length a peer chose, are found to be in range on every path: proven from the conditions that dominate the access, the definitions involved, what helpers found, and all callers")
		c.Rule("what a peer's message picks out of a table, and what a call may return as nil, is used only after it was found not to be nil, or the call to have succeeded")
		c.Rule("no type is asserted of a value from elsewhere without looking at the answer, nothing is divided by a number a peer chose unless it was found not to be zero, and nothing a peer can make happen ends the process")
		c.panics()
		c.Need("index or slice a peer can influence", 15)
		c.Need("length the library requires", 2)
		c.Need("pointer that may be nil", 20)
		c.Need("function that serves a peer", 60)
	})
}

type taint struct {
	p    *Prog
	memo map[tkey]bool
	seen map[tkey]bool
	fld  map[string]int
	n    int
}

// tkey: a value and what of it: its length ('l') or its content ('c').
type tkey struct {
	v ssa.Value
	m byte
}

func (t *taint) of(v ssa.Value) bool {
	if isInt(v.Type()) {
		return t.as(v, 'c')
	}
	return t.as(v, 'l')
}

func (t *taint) as(v ssa.Value, m byte) bool {
	k := tkey{v, m}
	if r, ok := t.memo[k]; ok {
		return r
	}
	t.seen, t.n = map[tkey]bool{}, 0
	t.fld = map[string]int{}
	r := t.walk(v, 0, m)
	t.memo[k] = r
	return r
}

// library: packages whose exported functions take what a peer sent.
func takesPeerData(f *ssa.Function) bool {
	return inPkg(f, "ratchet", "session", "blobshare", "zkidentity") && f.Object() != nil && f.Object().Exported()
}

func wireOwner(o string) bool { return strings.HasPrefix(o, "rpc.") }

func (t *taint) walk(v ssa.Value, d int, m byte) bool {
	r := t.walk1(v, d, m)
	if r && taintTrace {
		fn := ""
		if v.Parent() != nil {
			fn = v.Parent().String()
		}
		println("taint", d, string(m), v.Name(), v.String(), fn)
	}
	return r
}

var taintTrace = os.Getenv("ZKCHECK_TAINT") != ""

func (t *taint) walk1(v ssa.Value, d int, m byte) bool {
	k := tkey{v, m}
	if v == nil || t.seen[k] || d > 60 {
		return false
	}
	t.seen[k] = true
	if t.window(v.Parent()) {
		return false // what is typed, and where the user is, is the user's
	}
	if t.n++; t.n > 3000 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if t.walk(e, d+1, m) {
				return true
			}
		}
	case *ssa.ChangeType:
		return t.walk(v.X, d+1, m)
	case *ssa.Convert:
		return t.walk(v.X, d+1, m)
	case *ssa.MakeInterface:
		return t.walk(v.X, d+1, m)
	case *ssa.TypeAssert:
		return t.walk(v.X, d+1, m)
	case *ssa.Slice:
		return t.walk(v.X, d+1, m) || t.walk(v.High, d+1, 'c') || t.walk(v.Low, d+1, 'c')
	case *ssa.BinOp:
		return t.walk(v.X, d+1, m) || t.walk(v.Y, d+1, m)
	case *ssa.Extract:
		switch u := v.Tuple.(type) {
		case *ssa.Next:
			if r, ok := u.Iter.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					return false
				}
				return t.walk(r.X, d+1, 'c')
			}
		case *ssa.Call:
			return t.call(u, v.Index, d, m)
		case *ssa.TypeAssert:
			return t.walk(u.X, d+1, m)
		}
	case *ssa.Call:
		return t.call(v, 0, d, m)
	case *ssa.MakeSlice:
		return m == 'l' && t.walk(v.Len, d+1, 'c') || m == 'c' && t.content(v, d, 0)
	case *ssa.Alloc:
		return m == 'c' && t.stored(v, d, m)
	case *ssa.Index:
		return t.walk(v.X, d+1, 'c')
	case *ssa.Field:
		o, f := staticField(v)
		return t.field(o, f, v.X, d, m)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return t.load(v.X, d+1, m)
		}
		if v.Op == token.SUB || v.Op == token.XOR {
			return t.walk(v.X, d+1, m)
		}
	case *ssa.Parameter:
		f := v.Parent()
		i := -1
		for k, p := range f.Params {
			if p == v {
				i = k
			}
		}
		for _, c := range t.p.callers[f] {
			if a := c.Common().Args; i < len(a) && c.Common().StaticCallee() == f && t.walk(a[i], d+1, m) {
				return true
			}
		}
		if takesPeerData(f) && (f.Signature.Recv() == nil || i > 0) {
			_, src := v.Type().Underlying().(*types.Interface)
			return !src // a source of random numbers
		}
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return t.walk(b, d+1, m)
		}
	}
	return false
}

func (t *taint) field(owner string, f *types.Var, base ssa.Value, d int, m byte) bool {
	name := owner + "." + f.Name()
	key := name + string(m)
	if wireOwner(owner) {
		return !ownList(base, 0)
	}
	if owner == "zkidentity.PublicIdentity" {
		return !own(base)
	}
	switch t.fld[key] {
	case 1:
		return false
	case 2:
		return true
	}
	t.fld[key] = 1
	for _, s := range t.p.fieldStores(name) {
		if t.walk(s.Val, d+1, m) {
			t.fld[key] = 2
			return true
		}
	}
	return false
}

// window: a method of a structure that takes the user's keys.
func (t *taint) window(f *ssa.Function) bool {
	for f != nil && f.Parent() != nil {
		f = f.Parent()
	}
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	ty := f.Signature.Recv().Type()
	if _, ok := ty.Underlying().(*types.Pointer); !ok {
		ty = types.NewPointer(ty)
	}
	return t.p.SSA.MethodSets.MethodSet(ty).Lookup(nil, "KeyHandler") != nil
}

// ownList: a group's list that the client keeps: it was found to be sane when
// it was installed (C21).
func ownList(v ssa.Value, n int) bool {
	if n > 8 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Lookup:
		m, ok := t.X.Type().Underlying().(*types.Map)
		return ok && typeName(m.Elem()) == "rpc.GroupList"
	case *ssa.Extract:
		switch u := t.Tuple.(type) {
		case *ssa.Lookup:
			return ownList(u, n+1)
		case *ssa.Next:
			if r, ok := u.Iter.(*ssa.Range); ok {
				m, ok := r.X.Type().Underlying().(*types.Map)
				return ok && typeName(m.Elem()) == "rpc.GroupList"
			}
		case *ssa.Call:
			f := u.Call.StaticCallee()
			if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 {
				return false
			}
			some := false
			for _, b := range f.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || b == f.Recover || t.Index >= len(r.Results) {
					continue
				}
				if _, none := r.Results[t.Index].(*ssa.Const); none {
					continue
				}
				if !ownList(r.Results[t.Index], n+1) {
					return false
				}
				some = true
			}
			return some
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			return ownList(t.X, n+1)
		}
	case *ssa.Alloc:
		some := false
		for _, r := range *t.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == t {
				if !ownList(s.Val, n+1) {
					return false
				}
				some = true
			}
		}
		return some
	case *ssa.Phi:
		for _, e := range t.Edges {
			if !ownList(e, n+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (t *taint) call(v *ssa.Call, idx int, d int, m byte) bool {
	if b, ok := v.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			return t.walk(v.Call.Args[0], d+1, 'l')
		case "append":
			for i, a := range v.Call.Args {
				if i == 1 && m == 'l' {
					if sl, ok := a.(*ssa.Slice); ok {
						if _, ok := sl.X.(*ssa.Alloc); ok {
							continue // so many elements
						}
					}
				}
				if t.walk(a, d+1, m) {
					return true
				}
			}
			return false
		case "copy":
			return t.walk(v.Call.Args[0], d+1, 'l') || t.walk(v.Call.Args[1], d+1, 'l')
		}
		for _, a := range v.Call.Args {
			if t.walk(a, d+1, m) {
				return true
			}
		}
		return false
	}
	f := v.Call.StaticCallee()
	if f == nil {
		f, _ = heldClosure(&v.Call)
	}
	if f != nil {
		switch fnName(f) {
		case fnKxRead:
			return idx == 0
		case fnTagPop, fnTagPopQuit:
			return false // C33 and C05 decide what is on the stack
		}
	}
	if f != nil && isRepoFn(f) && len(f.Blocks) > 0 {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && idx < len(r.Results) && t.walk(r.Results[idx], d+1, m) {
				return true
			}
		}
		return false
	}
	switch staticName(v) {
	case "io.ReadFull", "io.ReadAtLeast":
		return t.walk(v.Call.Args[0], d+1, 'c')
	case "crypto/rand.Read":
		return false
	case "(time.Time).Format":
		return t.walk(v.Call.Args[1], d+1, 'c')
	}
	// what a library makes of what a peer sent
	for _, a := range v.Call.Args {
		if t.walk(a, d+1, 'c') {
			return true
		}
	}
	if v.Call.IsInvoke() {
		return t.walk(v.Call.Value, d+1, 'c')
	}
	return false
}

func (t *taint) load(a ssa.Value, d int, m byte) bool {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		o, f := staticField(a)
		return t.field(o, f, a.X, d, m)
	case *ssa.IndexAddr:
		return t.walk(a.X, d+1, 'c')
	case *ssa.FreeVar:
		if b := binding(a); b != nil {
			return t.load(b, d+1, m)
		}
	case *ssa.Alloc:
		return t.stored(a, d, m)
	case *ssa.Parameter:
		return t.walk(a, d+1, m)
	}
	return false
}

// stored: what was put into a variable, or decoded or read into it.
func (t *taint) stored(al *ssa.Alloc, d int, m byte) bool {
	var uses func(v ssa.Value, n int) bool
	uses = func(v ssa.Value, n int) bool {
		if n > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v && t.walk(r.Val, d+1, m) {
					return true
				}
			case *ssa.IndexAddr:
				if uses(r, n+1) {
					return true
				}
			case *ssa.MakeInterface, *ssa.Slice:
				if uses(r.(ssa.Value), n+1) {
					return true
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v && uses(r.Fn.(*ssa.Function).FreeVars[i], n+1) {
						return true
					}
				}
			case ssa.CallInstruction:
				if nm := staticName(r); strings.Contains(nm, "nmarshal") || strings.Contains(nm, ".Decode") {
					for _, a := range r.Common().Args {
						if a != v && t.walk(a, d+1, 'c') {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return uses(al, 0)
}

// content: what is put into a sequence that was made.
func (t *taint) content(v ssa.Value, d, n int) bool {
	if n > 3 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *r.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == r && t.walk(s.Val, d+1, 'c') {
					return true
				}
			}
		case *ssa.Slice:
			if t.content(r, d, n+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && r.Call.Args[0] == v && t.walk(r.Call.Args[1], d+1, 'c') {
				return true
			}
			if readsInto(r) == v && !strings.HasPrefix(staticName(r), "crypto/rand") {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) panics() {
	x := newProver(c.P)
	t := &taint{p: c.P, memo: map[tkey]bool{}, fld: map[string]int{}}
	dbg := os.Getenv("ZKCHECK_BOUNDS") != ""
	for _, f := range c.P.Funcs {
		if toolPkg(f) || inPkg(f, "tagstack") { // C33 decides what is on the stack
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var idx, seq []ssa.Value
				prove := func() (string, bool) { return "", true }
				kind := "index or slice a peer can influence"
				switch in := in.(type) {
				case *ssa.IndexAddr:
					idx, seq = []ssa.Value{in.Index}, []ssa.Value{in.X}
					prove = func() (string, bool) { return x.inBounds(in.Index, in.X, b) }
				case *ssa.Index:
					idx, seq = []ssa.Value{in.Index}, []ssa.Value{in.X}
					prove = func() (string, bool) { return x.inBounds(in.Index, in.X, b) }
				case *ssa.Lookup:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						continue
					}
					idx, seq = []ssa.Value{in.Index}, []ssa.Value{in.X}
					prove = func() (string, bool) { return x.inBounds(in.Index, in.X, b) }
				case *ssa.Slice:
					if in.Low == nil && in.High == nil {
						continue
					}
					seq = []ssa.Value{in.X}
					if in.Low != nil {
						idx = append(idx, in.Low)
					}
					if in.High != nil {
						idx = append(idx, in.High)
					}
					prove = func() (string, bool) { return x.sliceable(in, b) }
				case *ssa.MakeSlice:
					kind = "size of what is made"
					idx = []ssa.Value{in.Len}
					prove = func() (string, bool) {
						return "it may be negative", x.le(constLin(0), x.lin(in.Len), b, x.fresh())
					}
				case *ssa.MakeChan:
					kind = "size of what is made"
					idx = []ssa.Value{in.Size}
					prove = func() (string, bool) {
						return "it may be negative", x.le(constLin(0), x.lin(in.Size), b, x.fresh())
					}
				case *ssa.SliceToArrayPointer:
					seq = []ssa.Value{in.X}
					n, _ := arrayLen(in.Type())
					prove = func() (string, bool) {
						return "array longer than the slice", x.le(constLin(n), x.length(in.X), b, x.fresh())
					}
				case *ssa.BinOp:
					if (in.Op != token.QUO && in.Op != token.REM) || !isInt(in.Type()) {
						continue
					}
					if _, ok := in.Y.(*ssa.Const); ok {
						continue
					}
					kind = "division"
					idx = []ssa.Value{in.Y}
					prove = func() (string, bool) {
						l := x.lin(in.Y)
						return "division by zero", x.le(constLin(1), l, b, x.fresh()) || x.le(l, constLin(-1), b, x.fresh())
					}
				case *ssa.Call:
					n, arg := requiredLen(in)
					if arg == nil {
						continue
					}
					kind = "length the library requires"
					seq = []ssa.Value{arg}
					prove = func() (string, bool) {
						return staticName(in) + " of too few bytes", x.le(constLin(n), x.length(arg), b, x.fresh())
					}
				default:
					continue
				}
				peer := false
				for _, v := range append(append([]ssa.Value{}, idx...), seq...) {
					if _, fixed := arrayLen(v.Type()); fixed {
						continue
					}
					if _, ok := v.(*ssa.Const); !ok && t.of(v) {
						peer = true
					}
				}
				for _, v := range idx {
					if x.ownTag(v, 0) {
						peer = false // C33
					}
				}
				if !peer && !dbg {
					continue
				}
				if peer && dbg {
					println("obl:", kind, c.P.instrPos(in), fnName(f), what(in))
				}
				if peer {
					c.Count(kind, c.P.instrPos(in)+" "+fnName(f))
				}
				why, ok := prove()
				if ok {
					continue
				}
				if !peer {
					println("untainted, unproven:", c.P.instrPos(in), fnName(f), why)
					continue
				}
				c.Violation("range/"+fnName(f)+"/"+what(in), in.Pos(), "what a peer sends decides %s in %s, which is not found to be in range on every path (%s): the process can be crashed", what(in), fnName(f), why)
			}
		}
	}
	c.nils(x, t)
	c.texts(x)
	c.deaths(x, t)
}

// ownTag: a tag of the client's own stack.
func (x *prover) ownTag(v ssa.Value, n int) bool {
	if n > 8 {
		return false
	}
	switch t := v.(type) {
	case *ssa.Convert:
		return x.ownTag(t.X, n+1)
	case *ssa.ChangeType:
		return x.ownTag(t.X, n+1)
	case *ssa.Extract:
		c, ok := t.Tuple.(*ssa.Call)
		if !ok || t.Index != 0 {
			return false
		}
		if s := staticName(c); s == fnTagPop || s == fnTagPopQuit {
			return true
		}
		f := c.Call.StaticCallee()
		if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 {
			return false
		}
		some := false
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || b == f.Recover || len(r.Results) == 0 {
				continue
			}
			if _, none := r.Results[0].(*ssa.Const); none {
				continue
			}
			if !x.ownTag(r.Results[0], n+1) {
				return false
			}
			some = true
		}
		return some
	case *ssa.Parameter:
		sites := x.sites(t.Parent())
		for _, ci := range sites {
			for i, p := range t.Parent().Params {
				if p == t && (i >= len(ci.Common().Args) || !x.ownTag(ci.Common().Args[i], n+1)) {
					return false
				}
			}
		}
		return len(sites) > 0
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if s := reachingStore(t); s != nil {
				return x.ownTag(s, n+1)
			}
			if al := variableOf(t.X); al != nil {
				if s := soleStore(al); s != nil {
					return x.ownTag(s, n+1)
				}
			}
		}
	}
	return false
}

func toolPkg(f *ssa.Function) bool {
	p := pkgOf(f)
	return p != nil && strings.Contains(p.Pkg.Path(), "/tools")
}

// requiredLen: the length a library function requires of an argument.
func requiredLen(in *ssa.Call) (int64, ssa.Value) {
	n := staticName(in)
	if strings.Contains(n, "encoding/binary.") && len(in.Call.Args) > 1 {
		for s, k := range map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
			if strings.HasSuffix(n, s) {
				return k, in.Call.Args[1]
			}
		}
	}
	if in.Call.IsInvoke() && in.Call.Method.Pkg() != nil && in.Call.Method.Pkg().Path() == "encoding/binary" {
		for s, k := range map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
			if strings.HasSuffix(in.Call.Method.Name(), s) {
				return k, in.Call.Args[0]
			}
		}
	}
	switch n {
	case "crypto/ed25519.Verify", "golang.org/x/crypto/ed25519.Verify":
		return 32, in.Call.Args[0]
	}
	return 0, nil
}

// what names a construct without its position.
func what(in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.IndexAddr:
		return "index of " + nameOf(in.X)
	case *ssa.Index:
		return "index of " + nameOf(in.X)
	case *ssa.Lookup:
		return "index of " + nameOf(in.X)
	case *ssa.Slice:
		return "bounds of " + nameOf(in.X)
	case *ssa.MakeSlice, *ssa.MakeChan:
		return "the size of a " + typeStr(in.(ssa.Value).Type())
	case *ssa.SliceToArrayPointer:
		return "conversion of " + nameOf(in.X)
	case *ssa.BinOp:
		return "divisor"
	case *ssa.Call:
		return "argument of " + staticName(in)
	}
	return in.String()
}

func nameOf(v ssa.Value) string {
	r, s, ok := placeVal(v)
	if !ok {
		return "a value"
	}
	n := ""
	switch r := r.(type) {
	case *ssa.Alloc:
		n = r.Comment
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		n = r.Name()
	case *ssa.Call:
		n = "result of " + staticName(r)
	}
	for _, k := range strings.Split(s, "/") {
		if i := strings.LastIndex(k, "."); i >= 0 {
			n += k[i:]
		}
	}
	if n == "" {
		n = "a value"
	}
	return n
}

func (x *prover) fresh() *goals {
	x.steps = 0
	return newGoals()
}

func (x *prover) inBounds(i, s ssa.Value, b *ssa.BasicBlock) (string, bool) {
	l := x.lin(i)
	n := x.length(s)
	if !x.le(constLin(0), l, b, x.fresh()) {
		return "it may be negative", false
	}
	l.c++
	return "it may be past the end", x.le(l, n, b, x.fresh())
}

func (x *prover) sliceable(s *ssa.Slice, b *ssa.BasicBlock) (string, bool) {
	lo, n := constLin(0), x.length(s.X)
	if s.Low != nil {
		lo = x.lin(s.Low)
		if !x.le(constLin(0), lo, b, x.fresh()) {
			return "the beginning may be negative", false
		}
	}
	hi := n
	if s.High != nil {
		hi = x.lin(s.High)
		if !x.le(hi, n, b, x.fresh()) && !x.leCap(hi, s.X, b) {
			return "the end may be past the end", false
		}
	}
	return "the beginning may be past the end", x.le(lo, hi, b, x.fresh())
}

// leCap: slicing up to what was made.
func (x *prover) leCap(hi lin, v ssa.Value, b *ssa.BasicBlock) bool {
	if m, ok := v.(*ssa.MakeSlice); ok {
		return x.le(hi, x.lin(m.Cap), b, x.fresh())
	}
	return false
}

// ---- nil ----

// serving: functions that run while a peer is served.
func (c *Ctx) serving() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || r[f] || !isRepoFn(f) || len(f.Blocks) == 0 {
			return
		}
		r[f] = true
		c.Count("function that serves a peer", fnName(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil {
						g, _ = heldClosure(in.Common())
					}
					add(g)
				case *ssa.MakeClosure:
					add(in.Fn.(*ssa.Function))
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	ev := callEvent(fnKxRead, fnKxWrite)
	for _, f := range c.P.Funcs {
		if toolPkg(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ev(c.P, in) {
					add(f)
				}
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(staticName(ci), "(*session.KX).") {
					add(f)
				}
			}
		}
	}
	return r
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// derefs: the instructions that crash when v is nil.
func derefs(v ssa.Value) []ssa.Instruction {
	var r []ssa.Instruction
	for _, q := range *v.Referrers() {
		switch q := q.(type) {
		case *ssa.FieldAddr:
			if q.X == v {
				r = append(r, q)
			}
		case *ssa.IndexAddr:
			if _, ok := v.Type().Underlying().(*types.Pointer); ok && q.X == v {
				r = append(r, q)
			}
		case *ssa.UnOp:
			if q.Op == token.MUL && q.X == v {
				r = append(r, q)
			}
		case *ssa.Store:
			if q.Addr == v {
				r = append(r, q)
			}
		case ssa.CallInstruction:
			if q.Common().Value == v || readsFrom(q.Common(), v) {
				r = append(r, q)
			}
		case *ssa.Slice:
			if _, ok := v.Type().Underlying().(*types.Pointer); ok && q.X == v {
				r = append(r, q)
			}
		case *ssa.TypeAssert:
			if q.X == v && !q.CommaOk {
				r = append(r, q)
			}
		}
	}
	return r
}

// readsFrom: a library is handed something to read from.
func readsFrom(cc *ssa.CallCommon, v ssa.Value) bool {
	if typeStr(v.Type()) != "io.Reader" && typeStr(v.Type()) != "io.ReadCloser" {
		return false
	}
	g := cc.StaticCallee()
	if g == nil || isRepoFn(g) {
		return false
	}
	for _, a := range cc.Args {
		if a == v {
			return true
		}
	}
	return false
}

// handed: the instruction, or what it hands the value to, crashes when it is
// nil.
func (x *prover) handed(v ssa.Value, n int) []ssa.Instruction {
	r := derefs(v)
	if n > 3 {
		return r
	}
	src := v
	for {
		ch, ok := src.(*ssa.ChangeInterface)
		if !ok {
			break
		}
		src = ch.X
	}
	for _, q := range *v.Referrers() {
		if ch, ok := q.(*ssa.ChangeInterface); ok {
			r = append(r, x.handed(ch, n+1)...)
			continue
		}
		if ph, ok := q.(*ssa.Phi); ok {
			// on the way in
			for _, d := range x.handed(ph, n+1) {
				if !x.nnBy(ph, x.at(d.Block()), map[ssa.Value]bool{}) {
					for i, e := range ph.Edges {
						if e == v {
							p := ph.Block().Preds[i]
							if !x.notNil(src, p, map[ssa.Value]bool{}) && !x.nnBy(src, x.edge(p, ph.Block()), map[ssa.Value]bool{}) {
								r = append(r, p.Instrs[len(p.Instrs)-1])
							}
						}
					}
					break
				}
			}
			continue
		}
		ci, ok := q.(ssa.CallInstruction)
		if !ok {
			continue
		}
		g := ci.Common().StaticCallee()
		if g == nil || !isRepoFn(g) || len(g.Blocks) == 0 {
			continue
		}
		for i, a := range ci.Common().Args {
			if a != v || i >= len(g.Params) {
				continue
			}
			for _, d := range x.handed(g.Params[i], n+1) {
				if d.Parent() == g && !x.notNil(g.Params[i], d.Block(), map[ssa.Value]bool{}) {
					r = append(r, ci)
					break
				}
			}
		}
	}
	return r
}

// notNil: the value is not nil when the block runs.
func (x *prover) notNil(v ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if neverNil(v) {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	defer delete(seen, v)
	if x.nnBy(v, x.at(at), seen) {
		return true
	}
	switch t := v.(type) {
	case *ssa.ChangeType:
		return x.notNil(t.X, at, seen)
	case *ssa.ChangeInterface:
		return x.notNil(t.X, at, seen)
	case *ssa.Phi:
		for i, e := range t.Edges {
			p := t.Block().Preds[i]
			if !x.notNil(e, p, seen) && !x.nnBy(e, x.edge(p, t.Block()), seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if s := reachingStore(t); s != nil {
				return x.notNil(s, at, seen)
			}
		}
	}
	return false
}

func (x *prover) nnBy(v ssa.Value, f *facts, seen map[ssa.Value]bool) bool {
	b := baseOf(v, false)
	for _, w := range f.nn {
		if w == v || x.same(baseOf(w, false), b) {
			return true
		}
		// the same variable looked at twice
		if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL {
			if s := reachingStore(u); s != nil && s == v {
				return true
			}
		}
	}
	// the call that returned it succeeded
	var call *ssa.Call
	idx := 0
	switch t := v.(type) {
	case *ssa.Call:
		call = t
	case *ssa.Extract:
		call, _ = t.Tuple.(*ssa.Call)
		idx = t.Index
	}
	if call != nil {
		for _, s := range f.says {
			if s.call == call && s.idx != idx && s.want {
				g := call.Call.StaticCallee()
				if g == nil || !isRepoFn(g) || len(g.Blocks) == 0 {
					return true
				}
				if x.returns(g, s, func(b *ssa.BasicBlock, extra *facts) bool {
					r := b.Instrs[len(b.Instrs)-1]
					ret, ok := r.(*ssa.Return)
					if !ok {
						// one way into the return
						return true
					}
					v := ret.Results[idx]
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						if s := reachingStore(u); s != nil {
							v = s
						}
					}
					return !mayBeNil(v, map[ssa.Value]bool{}) || x.notNil(v, b, seen) || x.nnBy(v, extra, seen)
				}) {
					return true
				}
			}
		}
	}
	for _, alts := range f.alts {
		all := len(alts) > 0
		for _, a := range alts {
			if !x.nnBy(v, a, seen) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// mayBeNil: nil is among what a value can be for certain.
func mayBeNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch t := v.(type) {
	case *ssa.Const:
		return t.Value == nil
	case *ssa.Phi:
		for _, e := range t.Edges {
			if mayBeNil(e, seen) {
				return true
			}
		}
	case *ssa.ChangeInterface:
		return mayBeNil(t.X, seen)
	case *ssa.ChangeType:
		return mayBeNil(t.X, seen)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if s := reachingStore(t); s != nil {
				return mayBeNil(s, seen)
			}
			if al := variableOf(t.X); al != nil {
				// a named result that is not set on every path
				if s := soleStore(al); s == nil && t.Block().Parent() == al.Parent() {
					return !hasStore(al)
				}
			}
		}
	case *ssa.Call:
		return callMayBeNil(t, 0, seen)
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			return callMayBeNil(c, t.Index, seen)
		}
		if l, ok := t.Tuple.(*ssa.Lookup); ok {
			return l.CommaOk && t.Index == 0
		}
	case *ssa.Lookup:
		_, ok := t.X.Type().Underlying().(*types.Map)
		return ok
	}
	return false
}

// fieldMayBeNil: nil is put into the field, or handed to what puts it there.
func (c *Ctx) fieldMayBeNil(fa *ssa.FieldAddr) bool {
	seen := map[ssa.Value]bool{}
	var may func(v ssa.Value) bool
	field := func(fa *ssa.FieldAddr) bool {
		o, f := staticField(fa)
		for _, s := range c.P.fieldStores(o + "." + f.Name()) {
			if may(s.Val) {
				return true
			}
		}
		return c.leftOut(o, fa.Field)
	}
	may = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch t := v.(type) {
		case *ssa.Const:
			return t.Value == nil
		case *ssa.Phi:
			for _, e := range t.Edges {
				if may(e) {
					return true
				}
			}
		case *ssa.ChangeType:
			return may(t.X)
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return false
			}
			if fa, ok := t.X.(*ssa.FieldAddr); ok {
				return field(fa)
			}
			if al := variableOf(t.X); al != nil {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al && may(s.Val) {
						return true
					}
				}
			}
		case *ssa.Parameter:
			for i, q := range t.Parent().Params {
				if q != t {
					continue
				}
				for _, ci := range c.P.callers[t.Parent()] {
					if a := ci.Common().Args; i < len(a) && may(a[i]) {
						return true
					}
				}
			}
		}
		return false
	}
	return field(fa)
}

// leftOut: a literal of the structure does not set the field.
func (c *Ctx) leftOut(owner string, field int) bool {
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || al.Comment != "complit" || typeName(deref(al.Type())) != owner {
					continue
				}
				set := false
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.FieldAddr:
						for _, q := range *r.Referrers() {
							if s, ok := q.(*ssa.Store); ok && s.Addr == r && r.Field == field {
								set = true
							}
						}
					case *ssa.Store:
						if r.Addr == al {
							set = true
						}
					}
				}
				if !set {
					return true
				}
			}
		}
	}
	return false
}

func hasStore(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			return true
		}
	}
	return false
}

// callMayBeNil: the function has a return that gives nil there.
func callMayBeNil(c *ssa.Call, idx int, seen map[ssa.Value]bool) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		f, _ = heldClosure(&c.Call)
	}
	if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 {
		// a library's value beside an error
		sig := c.Call.Signature()
		n := sig.Results().Len()
		if n < 2 || idx == n-1 || !isErrType(sig.Results().At(n-1).Type()) {
			return false
		}
		if f != nil && strings.HasPrefix(f.String(), "os.") {
			return false // methods of a nil *os.File fail
		}
		return nilable(sig.Results().At(idx).Type())
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && idx < len(r.Results) && mayBeNil(r.Results[idx], seen) {
			return true
		}
	}
	return false
}

func (c *Ctx) nils(x *prover, t *taint) {
	serve := c.serving()
	dbg := os.Getenv("ZKCHECK_BOUNDS") != ""
	for _, f := range c.P.Funcs {
		if toolPkg(f) || !serve[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil || !nilable(v.Type()) {
					continue
				}
				why := ""
				switch u := in.(type) {
				case *ssa.Lookup:
					if _, ok := u.X.Type().Underlying().(*types.Map); ok {
						why = "nothing may be found"
					}
				case *ssa.Call, *ssa.Extract:
					if mayBeNil(v, map[ssa.Value]bool{}) {
						why = "nothing may have been returned"
					}
				case *ssa.UnOp:
					if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL {
						if _, ok := u.Type().Underlying().(*types.Signature); ok && c.fieldMayBeNil(fa) {
							why = "nothing may have been put there"
						}
					}
					if ia, ok := u.X.(*ssa.IndexAddr); ok && u.Op == token.MUL && t.of(ia.Index) {
						if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
							why = "a peer chose the element"
						}
					}
				}
				if why == "" {
					continue
				}
				ds := x.handed(v, 0)
				if len(ds) == 0 {
					continue
				}
				c.Count("pointer that may be nil", c.P.instrPos(in)+" "+fnName(f))
				for _, d := range ds {
					x.steps = 0
					if x.notNil(v, d.Block(), map[ssa.Value]bool{}) {
						continue
					}
					if dbg {
						println("nil:", c.P.instrPos(d), fnName(f), v.String(), why)
					}
					c.Violation("nil/"+fnName(f)+"/"+sourceName(v), anyPos(d, in), "%s uses %s without finding out that it is there (%s): the process can be crashed", fnName(f), sourceName(v), why)
				}
			}
		}
	}
}

func anyPos(is ...ssa.Instruction) token.Pos {
	for _, in := range is {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
		if e, ok := in.(*ssa.Extract); ok && e.Tuple.Pos() != token.NoPos {
			return e.Tuple.Pos()
		}
	}
	return token.NoPos
}

// texts: an error is asked for its text only where there is one.
func (c *Ctx) texts(x *prover) {
	for _, f := range c.P.Funcs {
		if toolPkg(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Error" || !isErrType(ci.Common().Value.Type()) {
					continue
				}
				v := ci.Common().Value
				switch t := v.(type) {
				case *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.Const:
				case *ssa.UnOp:
					if s := reachingStore(t); s != nil {
						v = s
					} else {
						continue
					}
				default:
					continue
				}
				c.Count("text of an error", c.P.instrPos(in)+" "+fnName(f))
				x.steps = 0
				if !x.notNil(v, b, map[ssa.Value]bool{}) {
					c.Violation("text/"+fnName(f), in.Pos(), "%s asks an error for its text where there may be none: the process can be crashed", fnName(f))
				}
			}
		}
	}
}

func sourceName(v ssa.Value) string {
	switch t := v.(type) {
	case *ssa.Call:
		return "the result of " + staticName(t)
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			return "the result of " + staticName(c)
		}
		if l, ok := t.Tuple.(*ssa.Lookup); ok {
			return "an entry of " + nameOf(l.X)
		}
	case *ssa.Lookup:
		return "an entry of " + nameOf(t.X)
	case *ssa.UnOp:
		if ia, ok := t.X.(*ssa.IndexAddr); ok {
			return "an element of " + nameOf(ia.X)
		}
		if fa, ok := t.X.(*ssa.FieldAddr); ok {
			o, f := staticField(fa)
			return o + "." + f.Name()
		}
	}
	return v.Name()
}

// deaths: what ends the process.
func (c *Ctx) deaths(x *prover, t *taint) {
	serve := c.serving()
	for _, f := range c.P.Funcs {
		if toolPkg(f) || !serve[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Panic:
					if in.Pos() != token.NoPos && c.peerDecides(b, t) {
						c.Violation("panic/"+fnName(f), in.Pos(), "%s, which runs while a peer is served, panics", fnName(f))
					}
				case ssa.CallInstruction:
					switch n := staticName(in); {
					case n == "os.Exit" || n == "runtime.Goexit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") || strings.HasPrefix(n, "(*log.Logger).Fatal") || strings.HasPrefix(n, "(*log.Logger).Panic"):
						c.Violation("exit/"+fnName(f)+"/"+n, in.Pos(), "%s, which runs while a peer is served, calls %s", fnName(f), n)
					case n == "strings.Repeat" || n == "bytes.Repeat":
						if n := in.Common().Args[1]; t.of(n) && !x.le(constLin(0), x.lin(n), b, x.fresh()) {
							c.Violation("repeat/"+fnName(f), in.Pos(), "%s repeats something a number of times that may be negative", fnName(f))
						}
					}
				case *ssa.TypeAssert:
					if in.CommaOk {
						continue
					}
					c.Count("type asserted", c.P.instrPos(in)+" "+fnName(f))
					if !c.isOf(in.X, in.AssertedType, b, map[ssa.Value]bool{}) {
						c.Violation("assert/"+fnName(f)+"/"+typeStr(in.AssertedType), in.Pos(), "%s, which runs while a peer is served, asserts that a value is a %s, which not all of its origins are", fnName(f), typeStr(in.AssertedType))
					}
				}
			}
		}
	}
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// peerDecides: whether the block runs depends on what a peer sent, or on
// nothing.
func (c *Ctx) peerDecides(b *ssa.BasicBlock, t *taint) bool {
	n := 0
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 0 {
			break
		}
		for _, p := range d.Preds {
			i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || d.Dominates(p) {
				continue
			}
			n++
			if t.cond(i.Cond) {
				return true
			}
		}
	}
	return n == 0
}

// cond: a condition on what a peer sent.
func (t *taint) cond(v ssa.Value) bool {
	switch u := v.(type) {
	case *ssa.BinOp:
		for _, o := range []ssa.Value{u.X, u.Y} {
			if _, ok := o.(*ssa.Const); !ok && (t.of(o) || t.as(o, 'c')) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		if u.Op == token.NOT {
			return t.cond(u.X)
		}
	}
	return t.as(v, 'c')
}

// isOf: everything the interface can hold is of the type.
func (c *Ctx) isOf(v ssa.Value, t types.Type, at *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	// already found by a test of the same value
	for d := at; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		if i, ok := d.Preds[0].Instrs[len(d.Preds[0].Instrs)-1].(*ssa.If); ok && d.Preds[0].Succs[0] == d {
			if e, ok := i.Cond.(*ssa.Extract); ok {
				if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == v && types.Identical(ta.AssertedType, t) {
					return true
				}
			}
		}
	}
	switch u := v.(type) {
	case *ssa.MakeInterface:
		return types.Identical(u.X.Type(), t)
	case *ssa.ChangeInterface:
		return c.isOf(u.X, t, at, seen)
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !c.isOf(e, t, at, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := u.Call.StaticCallee()
		if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 {
			return trustedType(u, t)
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && len(r.Results) > 0 && !c.isOf(r.Results[0], t, b, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if call, ok := u.Tuple.(*ssa.Call); ok {
			f := call.Call.StaticCallee()
			if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 {
				return trustedType(call, t)
			}
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && u.Index < len(r.Results) && !isNilConst(r.Results[u.Index]) && !c.isOf(r.Results[u.Index], t, b, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.UnOp:
		if u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				o, fl := staticField(fa)
				ss := c.P.fieldStores(o + "." + fl.Name())
				for _, s := range ss {
					if !c.isOf(s.Val, t, s.Block(), seen) {
						return false
					}
				}
				return len(ss) > 0
			}
			if s := reachingStore(u); s != nil {
				return c.isOf(s, t, at, seen)
			}
		}
	case *ssa.Parameter:
		f := u.Parent()
		for i, p := range f.Params {
			if p != u {
				continue
			}
			n := 0
			for _, ci := range c.P.callers[f] {
				if i >= len(ci.Common().Args) || !c.isOf(ci.Common().Args[i], t, ci.Block(), seen) {
					return false
				}
				n++
			}
			return n > 0 && !c.P.asValue[f]
		}
	}
	return false
}

// trustedType: a TCP listener accepts TCP connections; a pool gives what its
// New makes.
func trustedType(c *ssa.Call, t types.Type) bool {
	s := typeStr(t)
	if c.Call.IsInvoke() && c.Call.Method.Name() == "Accept" {
		return s == "*net.TCPConn" || s == "*net.UnixConn"
	}
	return false
}

var _ = constant.BoolVal
