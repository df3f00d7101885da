package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A prover of difference bounds over SSA: a <= b + c, where a and b are
// integer values, lengths of sequences, or zero. What it knows at a point are
// the conditions that dominate it, the definitions of the values, what a
// helper found before it said yes, and, for parameters, what is known at
// every call.

// base is a value, or the length of one. A value read from memory is named by
// where it was read: root and selectors.
type base struct {
	v   ssa.Value
	sel string
	ln  bool
	at  ssa.Instruction // when it was read
}

// lin is base + c; a base without a value is zero.
type lin struct {
	b base
	c int64
}

type fact struct {
	a, b lin // a <= b
}

// verdict: a call whose idx-th result was found true or nil (want), or not; or
// found to be a number, or a particular error.
type verdict struct {
	call *ssa.Call
	idx  int
	want bool
	is   ssa.Value // a constant or a global
}

type facts struct {
	le   []fact
	ne   []fact // a != b
	nn   []ssa.Value
	says []verdict
	alts [][]*facts
}

type prover struct {
	p     *Prog
	mods  map[*ssa.Function]map[string]bool
	memo  map[*ssa.BasicBlock]*facts
	steps int
	fs    map[string][]*ssa.Store
}

func newProver(p *Prog) *prover {
	x := &prover{p: p, memo: map[*ssa.BasicBlock]*facts{}, fs: map[string][]*ssa.Store{}}
	x.modsets()
	return x
}

func (x *prover) stores(field string) []*ssa.Store {
	if s, ok := x.fs[field]; ok {
		return s
	}
	s := x.p.fieldStores(field)
	x.fs[field] = s
	return s
}

// modsets: the fields and elements a function may write.
func (x *prover) modsets() {
	x.mods = map[*ssa.Function]map[string]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range x.p.Funcs {
		m := map[string]bool{}
		x.mods[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if madeHere(in.Addr) {
						continue // not there before the call
					}
					for _, k := range storeKeys(in) {
						m[k] = true
					}
				case *ssa.MakeClosure:
					calls[f] = append(calls[f], in.Fn.(*ssa.Function))
				case *ssa.Call:
					if g := in.Call.StaticCallee(); g != nil {
						calls[f] = append(calls[f], g)
					}
				case *ssa.Defer:
					if g := in.Call.StaticCallee(); g != nil {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for f, gs := range calls {
			for _, g := range gs {
				for k := range x.mods[g] {
					if !x.mods[f][k] {
						x.mods[f][k] = true
						again = true
					}
				}
			}
		}
	}
}

// madeHere: part of a variable or object that the function makes itself.
func madeHere(a ssa.Value) bool {
	for {
		switch t := a.(type) {
		case *ssa.FieldAddr:
			a = t.X
			continue
		case *ssa.IndexAddr:
			if _, ok := t.X.Type().Underlying().(*types.Pointer); ok {
				a = t.X
				continue
			}
		case *ssa.Alloc:
			return true
		}
		return false
	}
}

// storeKeys: what a store writes, as selector components.
func storeKeys(s *ssa.Store) []string {
	var r []string
	a := s.Addr
	for {
		switch t := a.(type) {
		case *ssa.FieldAddr:
			o, f := staticField(t)
			r = append(r, o+"."+f.Name())
			// an inner field of a value kept in a struct also
			// changes that struct
			a = t.X
			if _, ok := a.(*ssa.FieldAddr); ok {
				continue
			}
			return r
		case *ssa.IndexAddr:
			r = append(r, "[]"+t.Type().String())
			return r
		case *ssa.FreeVar, *ssa.Alloc, *ssa.Global:
			return append(r, "var "+rootName(a))
		}
		return append(r, "*"+a.Type().String())
	}
}

func rootName(v ssa.Value) string {
	if fv, ok := v.(*ssa.FreeVar); ok {
		if b := binding(fv); b != nil {
			return rootName(b)
		}
	}
	n := v.Name()
	if v.Parent() != nil {
		n = v.Parent().String() + "." + n
	} else {
		n = v.String()
	}
	return n
}

// place names an address: root and selectors.
func place(a ssa.Value) (ssa.Value, string, bool) {
	switch t := a.(type) {
	case *ssa.FieldAddr:
		o, f := staticField(t)
		r, s, ok := placeVal(t.X)
		return r, s + "/" + o + "." + f.Name(), ok
	case *ssa.IndexAddr:
		if k, ok := t.Index.(*ssa.Const); ok && k.Value != nil {
			r, s, ok := placeVal(t.X)
			return r, s + "/[" + k.Value.String() + "]" + t.Type().String(), ok
		}
		return nil, "", false
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return a, "", true
	case *ssa.Parameter:
		return a, "", true
	}
	return nil, "", false
}

// placeVal names what a pointer (or a value) refers to.
func placeVal(v ssa.Value) (ssa.Value, string, bool) {
	switch t := v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return place(v)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if r, s, ok := place(t.X); ok {
				return r, s + "/*", ok
			}
			return v, "", true
		}
	case *ssa.Field:
		o, f := staticField(t)
		if u, ok := t.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			r, s, ok := place(u.X)
			return r, s + "/" + o + "." + f.Name(), ok
		}
		r, s, ok := placeVal(t.X)
		return r, s + "/" + o + "." + f.Name(), ok
	case *ssa.ChangeType:
		return placeVal(t.X)
	}
	if v == nil {
		return nil, "", false
	}
	return v, "", true
}

// baseOf names a value.
func baseOf(v ssa.Value, ln bool) base {
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if r, s, ok := place(t.X); ok {
				return base{v: r, sel: s + "/*", ln: ln, at: t}
			}
		}
	case *ssa.Field:
		if u, ok := root(t).(*ssa.UnOp); ok && u.Op == token.MUL {
			if r, s, ok := placeVal(t); ok {
				return base{v: r, sel: s + "/*", ln: ln, at: u}
			}
		}
	}
	return base{v: v, ln: ln}
}

func root(v ssa.Value) ssa.Value {
	for {
		f, ok := v.(*ssa.Field)
		if !ok {
			return v
		}
		v = f.X
	}
}

func (x *prover) same(a, b base) bool {
	if a.ln != b.ln || a.sel != b.sel {
		return false
	}
	if a.v != b.v {
		return a.sel == "" && !a.ln && x.sameOp(a.v, b.v)
	}
	if a.sel == "" || a.at == b.at || a.at == nil || b.at == nil {
		return true
	}
	return !x.killed(a, a.at, b.at)
}

// sameOp: the same sum of the same values.
func (x *prover) sameOp(a, b ssa.Value) bool {
	s, ok := a.(*ssa.BinOp)
	t, ok2 := b.(*ssa.BinOp)
	if !ok || !ok2 || s.Op != t.Op || !isInt(s.Type()) || !isInt(t.Type()) || intSize(s.Type()) != intSize(t.Type()) {
		return false
	}
	switch s.Op {
	case token.ADD, token.SUB, token.MUL:
	default:
		return false
	}
	eq := func(p, q ssa.Value) bool {
		l, m := x.lin(p), x.lin(q)
		return l.c == m.c && x.same(l.b, m.b)
	}
	return eq(s.X, t.X) && eq(s.Y, t.Y)
}

// killed: the place may be written between the two instructions.
func (x *prover) killed(b base, i, j ssa.Instruction) bool {
	if i == j {
		return false
	}
	bi, bj := i.Block(), j.Block()
	if bi.Parent() != bj.Parent() {
		return true
	}
	if bi == bj {
		pi, pj := index(i), index(j)
		if pi > pj {
			i, j, pi, pj = j, i, pj, pi
		}
		for _, in := range bi.Instrs[pi+1 : pj] {
			if x.kills(in, b) {
				return true
			}
		}
		return false
	}
	if !bi.Dominates(bj) {
		if !bj.Dominates(bi) {
			return true
		}
		i, j, bi, bj = j, i, bj, bi
	}
	for _, in := range bi.Instrs[index(i)+1:] {
		if x.kills(in, b) {
			return true
		}
	}
	for _, in := range bj.Instrs[:index(j)] {
		if x.kills(in, b) {
			return true
		}
	}
	// blocks between
	fwd := map[*ssa.BasicBlock]bool{}
	var walk func(m map[*ssa.BasicBlock]bool, b *ssa.BasicBlock, next func(b *ssa.BasicBlock) []*ssa.BasicBlock, stop *ssa.BasicBlock)
	walk = func(m map[*ssa.BasicBlock]bool, b *ssa.BasicBlock, next func(b *ssa.BasicBlock) []*ssa.BasicBlock, stop *ssa.BasicBlock) {
		for _, n := range next(b) {
			if n == stop || m[n] {
				continue
			}
			m[n] = true
			walk(m, n, next, stop)
		}
	}
	walk(fwd, bi, func(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Succs }, bi)
	back := map[*ssa.BasicBlock]bool{}
	walk(back, bj, func(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Preds }, bi)
	for m := range fwd {
		if !back[m] {
			continue
		}
		if m == bj {
			// a loop around the second one
			for _, in := range m.Instrs[index(j):] {
				if x.kills(in, b) {
					return true
				}
			}
			continue
		}
		for _, in := range m.Instrs {
			if x.kills(in, b) {
				return true
			}
		}
	}
	return false
}

func index(in ssa.Instruction) int {
	for i, k := range in.Block().Instrs {
		if k == in {
			return i
		}
	}
	return 0
}

func (b base) comps() []string {
	var r []string
	for _, s := range strings.Split(b.sel, "/") {
		switch {
		case s == "" || s == "*":
		case s[0] == '[':
			r = append(r, "[]"+s[strings.Index(s, "]")+1:])
		default:
			r = append(r, s)
		}
	}
	switch b.v.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		r = append(r, "var "+rootName(b.v))
	}
	return r
}

func (x *prover) kills(in ssa.Instruction, b base) bool {
	switch in := in.(type) {
	case *ssa.Store:
		ks := storeKeys(in)
		for _, c := range b.comps() {
			for _, k := range ks {
				if k == c {
					// the same field of another local variable
					if r, _, ok := place(in.Addr); ok && r != b.v && local(r) && local(b.v) {
						continue
					}
					return true
				}
			}
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return false
		}
		if _, ok := in.(*ssa.Go); ok {
			return false
		}
		g := cc.StaticCallee()
		if g == nil {
			g, _ = heldClosure(cc)
		}
		if g != nil && x.mods[g] != nil {
			for _, c := range b.comps() {
				if x.mods[g][c] && !(local(b.v) && !strings.HasPrefix(c, "var ") && !passes(cc, b.v)) {
					return true
				}
			}
		}
		if _, ok := b.v.(*ssa.Alloc); ok && passes(cc, b.v) {
			return g == nil || x.mods[g] == nil || x.writesParam(g)
		}
	}
	return false
}

// writesParam: a repository function that was handed the address writes
// through it, for all that is known.
func (x *prover) writesParam(g *ssa.Function) bool {
	for k := range x.mods[g] {
		if strings.HasPrefix(k, "*") {
			return true
		}
	}
	// handed on, to a decoder for instance
	for _, p := range g.Params {
		for _, r := range *p.Referrers() {
			switch r := r.(type) {
			case *ssa.MakeInterface:
				return true
			case ssa.CallInstruction:
				if r.Common().StaticCallee() == nil || x.mods[r.Common().StaticCallee()] == nil {
					return true
				}
			}
		}
	}
	return false
}

// local: a variable whose address nothing but direct accesses and calls use.
func local(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// passes: the call is handed the address of (a part of) the variable.
func passes(cc *ssa.CallCommon, v ssa.Value) bool {
	var from func(a ssa.Value, n int) bool
	from = func(a ssa.Value, n int) bool {
		if a == v {
			return true
		}
		if n > 5 {
			return false
		}
		switch t := a.(type) {
		case *ssa.FieldAddr:
			return from(t.X, n+1)
		case *ssa.IndexAddr:
			return from(t.X, n+1)
		case *ssa.MakeInterface:
			return from(t.X, n+1)
		case *ssa.ChangeType:
			return from(t.X, n+1)
		case *ssa.Slice:
			// variadic arguments
			if al, ok := t.X.(*ssa.Alloc); ok {
				if al == v {
					return true
				}
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, q := range *ia.Referrers() {
							if s, ok := q.(*ssa.Store); ok && s.Addr == ia && from(s.Val, n+1) {
								return true
							}
						}
					}
				}
				return false
			}
			return from(t.X, n+1)
		case *ssa.MakeClosure:
			for _, b := range t.Bindings {
				if b == v {
					return true
				}
			}
		}
		return false
	}
	for _, a := range cc.Args {
		if from(a, 0) {
			return true
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		return from(mc, 0)
	}
	return false
}

// ---- linear form ----

func constLin(n int64) lin { return lin{c: n} }

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (x *prover) lin(v ssa.Value) lin {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value != nil && t.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(t.Value); ok {
				return constLin(n)
			}
		}
	case *ssa.BinOp:
		if k, ok := t.Y.(*ssa.Const); ok && k.Value != nil && isInt(t.Type()) && (t.Op == token.ADD || t.Op == token.SUB) {
			n, ok := constant.Int64Val(k.Value)
			if !ok || n < 0 || n > 1<<40 {
				break
			}
			if t.Op == token.SUB {
				if isUnsigned(t.Type()) && !x.le(constLin(n), x.lin(t.X), t.Block(), newGoals()) {
					break
				}
				n = -n
			}
			l := x.lin(t.X)
			l.c += n
			return l
		}
		if k, ok := t.X.(*ssa.Const); ok && k.Value != nil && isInt(t.Type()) && t.Op == token.ADD {
			if n, ok := constant.Int64Val(k.Value); ok && n >= 0 && n < 1<<40 {
				l := x.lin(t.Y)
				l.c += n
				return l
			}
		}
	case *ssa.ChangeType:
		return x.lin(t.X)
	case *ssa.Convert:
		if !isInt(t.X.Type()) || !isInt(t.Type()) {
			break
		}
		su, du, ss, ds := isUnsigned(t.X.Type()), isUnsigned(t.Type()), intSize(t.X.Type()), intSize(t.Type())
		if su == du && ds >= ss || su && !du && ds > ss {
			return x.lin(t.X)
		}
		l := x.lin(t.X)
		if l.b.v == nil {
			return l
		}
		// a length fits everything its value is used for
		if l.b.ln && l.c >= 0 {
			return l
		}
		g := newGoals()
		if su && !du && x.le(l, constLin(1<<31-1), t.Block(), g) {
			return l
		}
		if !su && du && ds >= ss && x.le(constLin(0), l, t.Block(), newGoals()) {
			return l
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			if b.Name() == "cap" {
				if n, ok := arrayLen(t.Call.Args[0].Type()); ok {
					return constLin(n)
				}
				break
			}
			return x.length(t.Call.Args[0])
		}
	}
	return lin{b: baseOf(v, false)}
}

func arrayLen(t types.Type) (int64, bool) {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// length of a sequence.
func (x *prover) length(v ssa.Value) lin {
	if n, ok := arrayLen(v.Type()); ok {
		return constLin(n)
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return constLin(0)
		}
		if t.Value.Kind() == constant.String {
			return constLin(int64(len(constant.StringVal(t.Value))))
		}
	case *ssa.ChangeType:
		return x.length(t.X)
	case *ssa.Convert:
		if isBytes(t.X.Type()) && isBytes(t.Type()) {
			return x.length(t.X)
		}
	case *ssa.MakeSlice:
		return x.lin(t.Len)
	case *ssa.Slice:
		lo := constLin(0)
		if t.Low != nil {
			lo = x.lin(t.Low)
		}
		var hi lin
		if t.High != nil {
			hi = x.lin(t.High)
		} else {
			hi = x.length(t.X)
		}
		if lo.b.v == nil {
			hi.c -= lo.c
			return hi
		}
		if x.same(lo.b, hi.b) {
			return constLin(hi.c - lo.c)
		}
	}
	return lin{b: baseOf(v, true)}
}

// isBytes: string or byte slice.
func isBytes(t types.Type) bool {
	if isString(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- facts ----

// at: what is known when the block runs.
func (x *prover) at(b *ssa.BasicBlock) *facts {
	if f, ok := x.memo[b]; ok {
		return f
	}
	f := &facts{}
	x.memo[b] = f // conditions that need themselves know nothing yet
	r := &facts{}
	for d := b; d != nil; d = d.Idom() {
		x.into(d, r, 0)
	}
	*f = *r
	return f
}

// into: what is known because control came to the block.
func (x *prover) into(d *ssa.BasicBlock, r *facts, n int) {
	if len(d.Preds) == 1 {
		p := d.Preds[0]
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			x.cond(i.Cond, p.Succs[0] == d, r, 0)
		}
		return
	}
	if len(d.Preds) < 2 || len(d.Preds) > 4 || n > 2 {
		return
	}
	// one of several ways
	var alts []*facts
	for _, p := range d.Preds {
		if d.Dominates(p) {
			continue // round a loop: what was found before it stands
		}
		a := &facts{}
		if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			x.cond(i.Cond, p.Succs[0] == d, a, 0)
		}
		for q := p; q != nil && q != d.Idom(); q = q.Idom() {
			x.into(q, a, n+1)
		}
		alts = append(alts, a)
	}
	r.alts = append(r.alts, alts)
}

// edge: what is known when control goes from one block to another.
func (x *prover) edge(from, to *ssa.BasicBlock) *facts {
	f := x.at(from)
	r := &facts{}
	*r = *f
	r.le = append([]fact{}, f.le...)
	r.ne = append([]fact{}, f.ne...)
	r.nn = append([]ssa.Value{}, f.nn...)
	r.says = append([]verdict{}, f.says...)
	r.alts = append([][]*facts{}, f.alts...)
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		x.cond(i.Cond, from.Succs[0] == to, r, 0)
	}
	return r
}

func (r *facts) add(a, b lin) { r.le = append(r.le, fact{a, b}) }

func (x *prover) cond(v ssa.Value, truth bool, r *facts, n int) {
	if n > 8 {
		return
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			x.cond(t.X, !truth, r, n+1)
		}
		if t.Op == token.MUL {
			// a flag kept in a variable that is stored once
			if al := variableOf(t.X); al != nil {
				if s := soleStore(al); s != nil {
					x.cond(s, truth, r, n+1)
				}
			}
		}
	case *ssa.BinOp:
		x.compare(t, truth, r, n)
	case *ssa.Phi:
		var alts []*facts
		for i, e := range t.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
				continue
			}
			p := t.Block().Preds[i]
			if t.Block().Dominates(p) {
				return // a loop
			}
			a := x.edge(p, t.Block())
			x.cond(e, truth, a, n+1)
			alts = append(alts, a)
		}
		if len(alts) == 1 {
			a := alts[0]
			r.le = append(r.le, a.le...)
			r.ne = append(r.ne, a.ne...)
			r.nn = append(r.nn, a.nn...)
			r.says = append(r.says, a.says...)
			r.alts = append(r.alts, a.alts...)
		} else if len(alts) > 1 {
			r.alts = append(r.alts, alts)
		}
	case *ssa.Call:
		if staticName(t) == "errors.Is" {
			if truth {
				x.equals(t.Call.Args[0], t.Call.Args[1], r)
			}
			return
		}
		r.says = append(r.says, verdict{t, 0, truth, nil})
		x.library(t, truth, r)
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			r.says = append(r.says, verdict{c, t.Index, truth, nil})
		}
		if truth {
			switch u := t.Tuple.(type) {
			case *ssa.Lookup:
				x.other(u, r)
			case *ssa.TypeAssert:
				x.other(u, r)
			}
		}
	}
}

// other: the value half of a two-valued form whose flag was found true.
func (x *prover) other(v ssa.Value, r *facts) {
	for _, q := range *v.Referrers() {
		if e, ok := q.(*ssa.Extract); ok && e.Index == 0 {
			r.nn = append(r.nn, e)
		}
	}
}

// library: what a library's answer says about lengths.
func (x *prover) library(t *ssa.Call, truth bool, r *facts) {
	if !truth {
		return
	}
	switch staticName(t) {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
		r.add(x.length(t.Call.Args[1]), x.length(t.Call.Args[0]))
	case "bytes.Equal", "crypto/hmac.Equal":
		a, b := x.length(t.Call.Args[0]), x.length(t.Call.Args[1])
		r.add(a, b)
		r.add(b, a)
	case "unicode/utf8.ValidString":
	}
}

func (x *prover) compare(t *ssa.BinOp, truth bool, r *facts, n int) {
	op := t.Op
	if !truth {
		op = negate(op)
	}
	a, b := t.X, t.Y
	if isNilConst(a) {
		a, b = b, a
	}
	if isNilConst(b) {
		switch op {
		case token.EQL:
			x.isNil(a, true, r)
		case token.NEQ:
			x.isNil(a, false, r)
			r.nn = append(r.nn, a)
		}
		return
	}
	if bt, ok := a.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		for _, q := range [][2]ssa.Value{{a, b}, {b, a}} {
			if k, ok := q[1].(*ssa.Const); ok && k.Value != nil {
				x.cond(q[0], constant.BoolVal(k.Value) == (op == token.EQL), r, n+1)
				return
			}
		}
		return
	}
	if isString(a.Type()) {
		for _, q := range [][2]ssa.Value{{a, b}, {b, a}} {
			if k, ok := q[1].(*ssa.Const); ok && k.Value != nil {
				l := int64(len(constant.StringVal(k.Value)))
				switch {
				case op == token.EQL:
					r.add(x.length(q[0]), constLin(l))
					r.add(constLin(l), x.length(q[0]))
				case op == token.NEQ && l == 0:
					r.add(constLin(1), x.length(q[0]))
				}
			}
		}
		return
	}
	if isErrType(a.Type()) && op == token.EQL {
		x.equals(a, b, r)
		x.equals(b, a, r)
		return
	}
	if !isInt(a.Type()) {
		return
	}
	if op == token.EQL {
		x.equals(a, b, r)
		x.equals(b, a, r)
	}
	la, lb := x.lin(a), x.lin(b)
	switch op {
	case token.LSS:
		lb.c--
		x.found(r, la, lb)
	case token.LEQ:
		x.found(r, la, lb)
	case token.GTR:
		la.c--
		x.found(r, lb, la)
	case token.GEQ:
		x.found(r, lb, la)
	case token.EQL:
		x.found(r, la, lb)
		x.found(r, lb, la)
	case token.NEQ:
		r.ne = append(r.ne, fact{la, lb})
	}
}

// found: a <= b, and what it says when one of them is a difference.
func (x *prover) found(r *facts, a, b lin) {
	r.add(a, b)
	if m, y, ok := x.difference(b); ok {
		k := a.c
		if a.b.v != nil {
			l := x.low(a.b)
			if l < -1<<40 {
				return
			}
			k += l
		}
		y.c += k - b.c
		r.add(y, m)
	}
	if m, y, ok := x.difference(a); ok && b.b.v == nil {
		m.c += a.c - b.c
		r.add(m, y)
	}
}

// equals: what a call returned was found to be a number or an error.
func (x *prover) equals(v, is ssa.Value, r *facts) {
	switch k := is.(type) {
	case *ssa.Const:
		if k.Value == nil {
			return
		}
	case *ssa.UnOp:
		if _, ok := k.X.(*ssa.Global); !ok {
			return
		}
	default:
		return
	}
	switch t := v.(type) {
	case *ssa.Call:
		r.says = append(r.says, verdict{t, 0, true, is})
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			r.says = append(r.says, verdict{c, t.Index, true, is})
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if s := reachingStore(t); s != nil {
				x.equals(s, is, r)
			}
		}
	}
}

// mayEqual: the value can be that constant, or that error.
func mayEqual(v, is ssa.Value, n int) bool {
	if n > 6 {
		return true
	}
	if k, ok := is.(*ssa.Const); ok {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			return constant.Compare(c.Value, token.EQL, k.Value)
		}
		return true
	}
	g := is.(*ssa.UnOp).X
	switch t := v.(type) {
	case *ssa.Const, *ssa.MakeInterface:
		return false
	case *ssa.UnOp:
		if h, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL {
			return h == g
		}
		if s := reachingStore(t); s != nil {
			return mayEqual(s, is, n+1)
		}
	case *ssa.Phi:
		for _, e := range t.Edges {
			if mayEqual(e, is, n+1) {
				return true
			}
		}
		return false
	case *ssa.Call:
		return callMayEqual(t, 0, is, n)
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			return callMayEqual(c, t.Index, is, n)
		}
	}
	return true
}

// callMayEqual: a library does not return an error that a package of the
// repository defines, unless it is handed one.
func callMayEqual(c *ssa.Call, idx int, is ssa.Value, n int) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		f, _ = heldClosure(&c.Call)
	}
	if f != nil && isRepoFn(f) && len(f.Blocks) > 0 {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && idx < len(r.Results) && mayEqual(r.Results[idx], is, n+1) {
				return true
			}
		}
		return false
	}
	if f == nil {
		return true
	}
	if staticName(c) == "fmt.Errorf" {
		k, ok := c.Call.Args[0].(*ssa.Const)
		return !ok || strings.Contains(k.Value.ExactString(), "%w")
	}
	for _, a := range c.Call.Args {
		if isErrType(a.Type()) {
			return true
		}
	}
	return false
}

// isNil: a value was found nil, or not.
func (x *prover) isNil(v ssa.Value, nil_ bool, r *facts) {
	switch t := v.(type) {
	case *ssa.Call:
		r.says = append(r.says, verdict{t, 0, nil_, nil})
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			r.says = append(r.says, verdict{c, t.Index, nil_, nil})
		}
	case *ssa.UnOp:
		// an error kept in a variable: the store that reaches
		if t.Op == token.MUL {
			if s := reachingStore(t); s != nil {
				x.isNil(s, nil_, r)
			}
		}
	case *ssa.Phi:
		var alts []*facts
		for i, e := range t.Edges {
			if nil_ && neverNil(e) || !nil_ && isNilConst(e) {
				continue
			}
			p := t.Block().Preds[i]
			if t.Block().Dominates(p) {
				return
			}
			a := x.edge(p, t.Block())
			x.isNil(e, nil_, a)
			alts = append(alts, a)
		}
		if len(alts) == 1 {
			a := alts[0]
			r.le = append(r.le, a.le...)
			r.ne = append(r.ne, a.ne...)
			r.nn = append(r.nn, a.nn...)
			r.says = append(r.says, a.says...)
			r.alts = append(r.alts, a.alts...)
		} else if len(alts) > 1 {
			r.alts = append(r.alts, alts)
		}
	}
}

// reachingStore: the one value a variable holds at a load: the last store of
// the load's block, or of its chain of sole predecessors.
func reachingStore(l *ssa.UnOp) ssa.Value {
	al := variableOf(l.X)
	if al == nil {
		return nil
	}
	b, i := l.Block(), index(l)
	for n := 0; n < 20; n++ {
		for k := i - 1; k >= 0; k-- {
			switch in := b.Instrs[k].(type) {
			case *ssa.Store:
				if variableOf(in.Addr) == al {
					return in.Val
				}
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		i = len(b.Instrs)
	}
	return nil
}

// neverNil: an error value that is one.
func neverNil(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.MakeSlice:
		return true
	case *ssa.Call:
		switch staticName(t) {
		case "errors.New", "fmt.Errorf":
			return true
		}
	case *ssa.UnOp:
		if g, ok := t.X.(*ssa.Global); ok && t.Op == token.MUL && isErrType(t.Type()) {
			for _, s := range globalStores(g) {
				if !neverNil(s) {
					return false
				}
			}
			return true
		}
	case *ssa.ChangeInterface:
		return neverNil(t.X)
	}
	return false
}

// ---- proofs ----

type gkey struct {
	a, b base
	at   *ssa.BasicBlock
}

type goals struct {
	open  map[gkey][2]int64 // slack, phis passed when opened
	ind   map[gkey]int64    // being proven over all ways a loop's value comes about
	phis  int64
	depth int
	extra []*facts
	ip    int // call boundaries crossed
}

func newGoals() *goals { return &goals{open: map[gkey][2]int64{}, ind: map[gkey]int64{}} }

const maxSteps = 60000

// le: a <= b at the block.
func (x *prover) le(a, b lin, at *ssa.BasicBlock, g *goals) bool {
	c := b.c - a.c // a.b <= b.b + c
	if x.same(a.b, b.b) {
		return c >= 0
	}
	if a.b.v == nil && b.b.v == nil {
		return c >= 0
	}
	if g.depth > 12 {
		return false
	}
	if boundsTrace != "" && strings.HasSuffix(at.Parent().Name(), boundsTrace) {
		println(strings.Repeat(" ", g.depth), "le", a.b.String(), a.c, b.b.String(), b.c, at.Index)
	}
	if x.steps++; x.steps > maxSteps {
		return false
	}
	// by definition
	if a.b.v == nil && x.low(b.b) >= -c {
		return true
	}
	if hi, ok := x.high(a.b); ok && b.b.v == nil && hi <= c {
		return true
	}
	k := gkey{a.b, b.b, at}
	k.a.at, k.b.at = nil, nil
	if o, ok := g.open[k]; ok && c <= o[0] {
		return g.phis > o[1] && c == o[0]
	} else if ok {
		defer func() { g.open[k] = o }()
	}
	ik := k
	ik.at = nil
	if o, ok := g.ind[ik]; ok && c >= o {
		return true
	}
	g.open[k] = [2]int64{c, g.phis}
	defer delete(g.open, k)
	g.depth++
	defer func() { g.depth-- }()

	// a difference on either side
	if m, y, ok := x.difference(b); ok && a.b.v == nil {
		y.c += -c
		if x.le(y, m, at, g) {
			return true
		}
	}
	if m, y, ok := x.difference(a); ok {
		if b.b.v == nil {
			n := m
			n.c += -c
			if x.le(n, y, at, g) {
				return true
			}
		}
		if x.le(constLin(0), y, at, g) && x.le(m, lin{b.b, c}, at, g) {
			return true
		}
	}
	// what a function of the repository returned
	if a.b.v == nil && x.result(b, at, func(v lin, r *ssa.BasicBlock, ng *goals) bool { return x.le(lin{c: -c}, v, r, ng) }, g) {
		return true
	}
	if b.b.v == nil && x.result(a, at, func(v lin, r *ssa.BasicBlock, ng *goals) bool { return x.le(v, lin{c: c}, r, ng) }, g) {
		return true
	}
	for _, u := range x.uppers(a.b) { // a.b <= u
		if x.le(u, lin{b.b, c}, at, g) {
			return true
		}
	}
	for _, l := range x.lowers(b.b) { // l <= b.b
		if x.le(lin{a.b, -c}, l, at, g) {
			return true
		}
	}
	// by what was found before
	if x.by(a, b, at, x.at(at), g) {
		return true
	}
	for _, f := range g.extra {
		if x.by(a, b, at, f, g) {
			return true
		}
	}
	// over all ways a value came about
	if x.phi(a, b, at, g) {
		return true
	}
	return x.callers(a, b, at, g)
}

// difference: one value less another, neither known when it was compiled.
func (x *prover) difference(l lin) (lin, lin, bool) {
	if l.b.sel != "" {
		return lin{}, lin{}, false
	}
	switch d := l.b.v.(type) {
	case *ssa.BinOp:
		if d.Op == token.SUB && !l.b.ln && isInt(d.Type()) && !isUnsigned(d.Type()) {
			return x.lin(d.X), x.lin(d.Y), true
		}
	case *ssa.Slice:
		if l.b.ln && d.Low != nil {
			hi := x.length(d.X)
			if d.High != nil {
				hi = x.lin(d.High)
			}
			return hi, x.lin(d.Low), true
		}
	}
	return lin{}, lin{}, false
}

// result: the test holds for what every return of the function gives, other
// than those that are known not to have been taken.
func (x *prover) result(l lin, at *ssa.BasicBlock, test func(v lin, r *ssa.BasicBlock, ng *goals) bool, g *goals) bool {
	var c *ssa.Call
	i := 0
	switch t := l.b.v.(type) {
	case *ssa.Call:
		c = t
	case *ssa.Extract:
		c, _ = t.Tuple.(*ssa.Call)
		i = t.Index
	}
	if c == nil || l.b.sel != "" || g.ip > 3 {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		f, _ = heldClosure(&c.Call)
	}
	if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 {
		return false
	}
	some := false
	one := func(b *ssa.BasicBlock, v ssa.Value, extra *facts) bool {
		n := x.lin
		if l.b.ln {
			n = x.length
		}
		ng := newGoals()
		ng.ip, ng.depth = g.ip+1, g.depth
		if extra != nil {
			ng.extra = []*facts{extra}
		}
		some = true
		return test(n(v), b, ng)
	}
	for _, s := range x.at(at).says {
		if s.call == c && s.idx != i {
			if x.returns(f, s, func(b *ssa.BasicBlock, extra *facts) bool {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				return ok && one(b, r.Results[i], extra)
			}) && some {
				return true
			}
		}
	}
	some = false
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover && i < len(r.Results) && !one(b, r.Results[i], nil) {
			return false
		}
	}
	return some
}

// by: with these facts.
func (x *prover) by(a, b lin, at *ssa.BasicBlock, f *facts, g *goals) bool {
	for _, q := range f.le {
		if a.b.v != nil && x.same(a.b, q.a.b) {
			// a = q.a + d <= q.b + d
			y := q.b
			y.c += a.c - q.a.c
			if x.same(y.b, b.b) && y.c <= b.c || x.le(y, b, at, g) {
				return true
			}
		}
		if b.b.v != nil && x.same(b.b, q.b.b) {
			// b = q.b + d >= q.a + d
			y := q.a
			y.c += b.c - q.b.c
			if x.same(y.b, a.b) && a.c <= y.c || a.b.v == nil && y.b.v == nil && a.c <= y.c || x.le(a, y, at, g) {
				return true
			}
		}
	}
	// x + y <= p where y <= p - x was found
	if o, ok := a.b.v.(*ssa.BinOp); ok && o.Op == token.ADD && a.b.sel == "" && !a.b.ln && !isUnsigned(o.Type()) {
		for _, q := range f.le {
			m, y, ok := x.difference(q.b)
			if !ok || q.b.b.ln {
				continue
			}
			for _, e := range [][2]ssa.Value{{o.X, o.Y}, {o.Y, o.X}} {
				u, v := x.lin(e[0]), x.lin(e[1])
				if x.same(u.b, y.b) && x.same(v.b, q.a.b) && x.same(m.b, b.b) && m.c-y.c+q.b.c-q.a.c+u.c+v.c+a.c <= b.c {
					return true
				}
			}
		}
	}
	for _, q := range f.ne {
		// p != r and p <= r makes p <= r - 1
		for _, o := range []fact{q, {q.b, q.a}} {
			p, r := o.a, o.b
			if x.same(p.b, a.b) && x.same(r.b, b.b) && (b.c-a.c)-(r.c-p.c) == -1 {
				if x.le(p, r, at, g) {
					return true
				}
			}
			if p.b.v == nil && a.b.v == nil && x.same(r.b, b.b) && (b.c-r.c)-(a.c-p.c) == -1 {
				if x.le(p, r, at, g) {
					return true
				}
			}
		}
	}
	for _, s := range f.says {
		if x.helper(a, b, s, g) {
			return true
		}
	}
	for _, alts := range f.alts {
		all := len(alts) > 0
		for _, alt := range alts {
			old := g.extra
			g.extra = append(append([]*facts{}, old...), alt)
			ok := x.by(a, b, at, alt, g)
			g.extra = old
			if !ok {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// low: a constant below the value.
func (x *prover) low(b base) int64 {
	const none = -1 << 62
	if b.v == nil {
		return 0
	}
	if b.ln {
		if b.sel == "" {
			if c, ok := b.v.(*ssa.Call); ok {
				switch staticName(c) {
				case "strings.Split", "strings.SplitN", "strings.SplitAfter", "bytes.Split":
					if k, ok := c.Call.Args[1].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) != "" {
						return 1
					}
				}
			}
		}
		return 0
	}
	if b.sel == "" {
		if isUnsigned(b.v.Type()) {
			return 0
		}
		switch t := b.v.(type) {
		case *ssa.Call:
			if bt, ok := t.Call.Value.(*ssa.Builtin); ok && (bt.Name() == "copy" || bt.Name() == "cap") {
				return 0
			}
			switch n := staticName(t); n {
			case "(*bytes.Buffer).Len", "(*bytes.Reader).Len", "unicode/utf8.RuneCountInString", "unicode/utf8.RuneLen", "sort.Search", "strings.Count":
				return 0
			default:
				if strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.Index") || strings.HasPrefix(n, "bytes.LastIndex") {
					return -1
				}
			}
		case *ssa.Extract:
			switch u := t.Tuple.(type) {
			case *ssa.Next:
				if t.Index == 1 && u.IsString {
					return 0
				}
			case *ssa.Call:
				if readsInto(u) != nil && t.Index == 0 {
					return 0
				}
			}
		case *ssa.Convert:
			if isUnsigned(t.X.Type()) && intSize(t.X.Type()) < intSize(t.Type()) {
				return 0
			}
		case *ssa.BinOp:
			switch t.Op {
			case token.AND:
				for _, y := range []ssa.Value{t.X, t.Y} {
					if k, ok := y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) >= 0 {
						return 0
					}
				}
			case token.REM, token.QUO, token.SHR:
				if x.le(constLin(0), x.lin(t.X), t.Block(), newGoals()) {
					if _, ok := t.Y.(*ssa.Const); ok {
						return 0
					}
				}
			}
		}
		return none
	}
	if u, ok := b.at.(ssa.Value); ok && isUnsigned(loadedType(u)) {
		return 0
	}
	return none
}

func loadedType(v ssa.Value) types.Type { return v.Type() }

// high: a constant above the value.
func (x *prover) high(b base) (int64, bool) {
	if b.v == nil {
		return 0, true
	}
	if b.ln {
		return 0, false
	}
	var t types.Type
	if b.sel == "" {
		t = b.v.Type()
	} else if u, ok := b.at.(ssa.Value); ok {
		t = u.Type()
	}
	if t != nil && isInt(t) && isUnsigned(t) {
		switch intSize(t) {
		case 8:
			return 255, true
		case 16:
			return 65535, true
		}
	}
	if b.sel == "" {
		switch t := b.v.(type) {
		case *ssa.BinOp:
			if k, ok := t.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
				n, ok := constant.Int64Val(k.Value)
				if !ok || n <= 0 {
					break
				}
				switch t.Op {
				case token.REM:
					return n - 1, true
				case token.AND:
					return n, true
				}
			}
		case *ssa.Convert:
			if isInt(t.X.Type()) && isUnsigned(t.X.Type()) {
				switch intSize(t.X.Type()) {
				case 8:
					return 255, true
				case 16:
					return 65535, true
				}
			}
		}
	}
	return 0, false
}

// readsInto: the buffer a call reads into.
func readsInto(c *ssa.Call) ssa.Value {
	if c.Call.IsInvoke() {
		switch c.Call.Method.Name() {
		case "Read", "Write":
			if len(c.Call.Args) == 1 && isBytes(c.Call.Args[0].Type()) {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	switch n := staticName(c); n {
	case "io.ReadFull", "io.ReadAtLeast":
		return c.Call.Args[1]
	case "crypto/rand.Read":
		return c.Call.Args[0]
	case "(*os.File).Read", "(*os.File).Write", "(*bufio.Reader).Read", "(*bytes.Reader).Read", "(*bytes.Buffer).Read":
		return c.Call.Args[1]
	}
	return nil
}

// uppers: values that are never below it.
func (x *prover) uppers(b base) (r []lin) {
	if b.v == nil || b.sel != "" {
		return nil
	}
	if b.ln {
		switch t := b.v.(type) {
		case *ssa.Slice:
			if t.Low != nil && t.High == nil {
				r = append(r, x.length(t.X))
			}
			if t.High != nil {
				r = append(r, x.lin(t.High))
			}
		case *ssa.Call:
			switch staticName(t) {
			case "strings.TrimSpace", "bytes.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
				r = append(r, x.length(t.Call.Args[0]))
			}
		}
		return r
	}
	switch t := b.v.(type) {
	case *ssa.Call:
		if bt, ok := t.Call.Value.(*ssa.Builtin); ok {
			switch bt.Name() {
			case "copy":
				r = append(r, x.length(t.Call.Args[0]), x.length(t.Call.Args[1]))
			case "min":
				for _, a := range t.Call.Args {
					r = append(r, x.lin(a))
				}
			}
			return r
		}
		n := staticName(t)
		if strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "bytes.Index") || strings.HasPrefix(n, "strings.LastIndex") || strings.HasPrefix(n, "bytes.LastIndex") {
			l := x.length(t.Call.Args[0])
			if n == "strings.Index" || n == "strings.LastIndex" || n == "bytes.Index" || n == "bytes.LastIndex" {
				sub := x.length(t.Call.Args[1])
				if sub.b.v == nil {
					l.c -= sub.c
				}
			} else {
				l.c--
			}
			r = append(r, l)
		}
		if n == "sort.Search" {
			r = append(r, x.lin(t.Call.Args[0]))
		}
	case *ssa.Extract:
		switch u := t.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := u.Iter.(*ssa.Range); ok && t.Index == 1 && u.IsString {
				l := x.length(rg.X)
				l.c--
				r = append(r, l)
			}
		case *ssa.Call:
			if buf := readsInto(u); buf != nil && t.Index == 0 {
				r = append(r, x.length(buf))
			}
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.QUO, token.SHR:
			if x.le(constLin(0), x.lin(t.X), t.Block(), newGoals()) {
				r = append(r, x.lin(t.X))
			}
		case token.REM:
			if x.le(constLin(0), x.lin(t.X), t.Block(), newGoals()) {
				l := x.lin(t.Y)
				l.c--
				r = append(r, l)
			}
		case token.SUB:
			// x - y <= x for y >= 0
			if !isUnsigned(t.Type()) && x.le(constLin(0), x.lin(t.Y), t.Block(), newGoals()) || isUnsigned(t.Type()) && x.le(x.lin(t.Y), x.lin(t.X), t.Block(), newGoals()) {
				r = append(r, x.lin(t.X))
			}
		}
	case *ssa.Convert:
		// a narrower unsigned value is never above the wider one
		if isInt(t.X.Type()) && isUnsigned(t.X.Type()) && isUnsigned(t.Type()) {
			r = append(r, x.lin(t.X))
		}
	}
	return r
}

// lowers: values that are never above it.
func (x *prover) lowers(b base) (r []lin) {
	if b.v == nil || b.sel != "" {
		return nil
	}
	if b.ln {
		switch t := b.v.(type) {
		case *ssa.Call:
			if bt, ok := t.Call.Value.(*ssa.Builtin); ok && bt.Name() == "append" {
				r = append(r, x.length(t.Call.Args[0]))
				if len(t.Call.Args) > 1 {
					l := x.length(t.Call.Args[1])
					r = append(r, l)
					if l.b.v == nil {
						k := x.length(t.Call.Args[0])
						k.c += l.c
						r = append(r, k)
					}
				}
			}
		case *ssa.BinOp: // concatenation
			if t.Op == token.ADD {
				r = append(r, x.length(t.X), x.length(t.Y))
			}
		}
		return r
	}
	switch t := b.v.(type) {
	case *ssa.BinOp:
		if t.Op == token.ADD && !isUnsigned(t.Type()) {
			for _, o := range [][2]ssa.Value{{t.X, t.Y}, {t.Y, t.X}} {
				if x.le(constLin(0), x.lin(o[1]), t.Block(), newGoals()) {
					r = append(r, x.lin(o[0]))
				}
			}
		}
	case *ssa.Call:
		if bt, ok := t.Call.Value.(*ssa.Builtin); ok && bt.Name() == "max" {
			for _, a := range t.Call.Args {
				r = append(r, x.lin(a))
			}
		}
	}
	return r
}

// phi: case by case over the ways a or b came about.
func (x *prover) phi(a, b lin, at *ssa.BasicBlock, g *goals) bool {
	for side, q := range []base{a.b, b.b} {
		if q.v == nil {
			continue
		}
		if q.sel != "" {
			if x.variable(a, b, side, q, at, g) {
				return true
			}
			continue
		}
		ph, ok := q.v.(*ssa.Phi)
		if !ok {
			continue
		}
		all := true
		ik := gkey{a: a.b, b: b.b}
		ik.a.at, ik.b.at = nil, nil
		if _, ok := g.ind[ik]; ok {
			return false
		}
		g.ind[ik] = b.c - a.c
		g.phis++
		for i, e := range ph.Edges {
			var l lin
			if q.ln {
				l = x.length(e)
			} else {
				l = x.lin(e)
			}
			p := ph.Block().Preds[i]
			na, nb := a, b
			if side == 0 {
				l.c += a.c
				na = l
			} else {
				l.c += b.c
				nb = l
			}
			old := g.extra
			g.extra = append(append([]*facts{}, old...), x.edge(p, ph.Block()))
			if at != ph.Block() && !back(ph.Block(), p) {
				// what the use knows holds on this way in too, as
				// long as it is about values of this round
				g.extra = append(g.extra, x.at(at))
			}
			ok := x.le(na, nb, p, g)
			g.extra = old
			if !ok {
				all = false
				break
			}
		}
		g.phis--
		delete(g.ind, ik)
		if all {
			return true
		}
	}
	return false
}

func back(h, p *ssa.BasicBlock) bool { return h.Dominates(p) }

// variable: what a field or variable can hold at all.
func (x *prover) variable(a, b lin, side int, q base, at *ssa.BasicBlock, g *goals) bool {
	var vals []*ssa.Store
	cs := strings.Split(strings.TrimPrefix(q.sel, "/"), "/")
	if len(cs) < 1 || cs[len(cs)-1] != "*" {
		return false
	}
	if len(cs) == 1 {
		// the variable itself
		if u, ok := q.at.(*ssa.UnOp); ok {
			if s := reachingStore(u); s != nil {
				var l lin
				if q.ln {
					l = x.length(s)
				} else {
					l = x.lin(s)
				}
				na, nb := a, b
				if side == 0 {
					l.c += a.c
					na = l
				} else {
					l.c += b.c
					nb = l
				}
				return x.le(na, nb, at, g)
			}
			if gl, ok := q.v.(*ssa.Global); ok {
				for _, s := range globalStores(gl) {
					var l lin
					if q.ln {
						l = x.length(s)
					} else {
						l = x.lin(s)
					}
					na, nb := a, b
					if side == 0 {
						l.c += a.c
						na = l
					} else {
						l.c += b.c
						nb = l
					}
					if l.b.v != nil || !x.le(na, nb, at, g) {
						return false
					}
				}
				return len(globalStores(gl)) > 0
			}
			if al := variableOf(u.X); al != nil {
				if s := soleStore(al); s != nil {
					if in, ok := s.(ssa.Instruction); ok && in.Parent() == at.Parent() {
						l := x.lin(s)
						if q.ln {
							l = x.length(s)
						}
						na, nb := a, b
						if side == 0 {
							l.c += a.c
							na = l
						} else {
							l.c += b.c
							nb = l
						}
						return x.le(na, nb, at, g)
					}
				}
			}
		}
		return false
	}
	f := cs[len(cs)-2]
	if strings.HasPrefix(f, "[") {
		return false
	}
	other := b.b
	if side == 1 {
		other = a.b
	}
	vals = x.stores(f)
	if len(vals) == 0 {
		return false
	}
	for _, s := range vals {
		var l lin
		if q.ln {
			l = x.length(s.Val)
		} else {
			l = x.lin(s.Val)
		}
		na, nb := a, b
		if side == 0 {
			l.c += a.c
			na = l
		} else {
			l.c += b.c
			nb = l
		}
		if l.b.v == nil {
			// the same wherever it is asked
			if !x.le(na, nb, at, g) {
				return false
			}
			continue
		}
		if other.v != nil && s.Parent() != at.Parent() {
			return false
		}
		ng := newGoals()
		ng.ip, ng.depth = g.ip+1, g.depth
		if ng.ip > 4 || !x.le(na, nb, s.Block(), ng) {
			return false
		}
	}
	return true
}

// move names a term of one function in another: v's root is replaced.
func (x *prover) move(b base, sub func(v ssa.Value) (ssa.Value, bool), at ssa.Instruction) (lin, bool) {
	if b.v == nil {
		return lin{b: b}, true
	}
	w, ok := sub(b.v)
	if !ok {
		if _, ok := b.v.(*ssa.Global); ok {
			b.at = at
			return lin{b: b}, true
		}
		return lin{}, false
	}
	if b.sel == "" {
		if b.ln {
			return x.length(w), true
		}
		return x.lin(w), true
	}
	r, s, ok := placeVal(w)
	if !ok {
		return lin{}, false
	}
	return lin{b: base{v: r, sel: s + b.sel, ln: b.ln, at: at}}, true
}

// helper: a call that said yes (or returned no error) found it before.
func (x *prover) helper(a, b lin, s verdict, g *goals) bool {
	f := s.call.Call.StaticCallee()
	if f == nil {
		f, _ = heldClosure(&s.call.Call)
	}
	if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 || g.ip > 3 {
		return false
	}
	args := s.call.Call.Args
	sub := func(v ssa.Value) (ssa.Value, bool) {
		for i, w := range args {
			if i < len(f.Params) && (w == v || sameLoad(w, v)) {
				return f.Params[i], true
			}
		}
		return nil, false
	}
	// a term of the caller, in terms of the callee's parameters
	conv := func(q lin) (lin, bool) {
		if q.b.v == nil {
			return q, true
		}
		if q.b.at != nil && x.killed(q.b, s.call, q.b.at) || x.kills(s.call, q.b) {
			return lin{}, false
		}
		for i, w := range args {
			if i >= len(f.Params) {
				break
			}
			if q.b.ln {
				if l := x.length(w); x.same(l.b, q.b) && isSeq(w.Type()) {
					r := x.length(f.Params[i])
					r.c += q.c - l.c
					return r, true
				}
			} else if isInt(w.Type()) {
				if l := x.lin(w); l.b.v != nil && x.same(l.b, q.b) {
					r := x.lin(f.Params[i])
					r.c += q.c - l.c
					return r, true
				}
			}
			// reached through a pointer or structure that is passed
			if r, s, ok := placeVal(w); ok && r == q.b.v && q.b.sel != "" && strings.HasPrefix(q.b.sel, s) && (strings.HasPrefix(q.b.sel[len(s):], "/")) {
				return lin{b: base{v: f.Params[i], sel: q.b.sel[len(s):], ln: q.b.ln, at: f.Blocks[0].Instrs[0]}, c: q.c}, true
			}
		}
		if m, ok := x.move(q.b, sub, f.Blocks[0].Instrs[0]); ok {
			m.c += q.c
			return m, true
		}
		return lin{}, false
	}
	na, ok1 := conv(a)
	nb, ok2 := conv(b)
	if !ok1 || !ok2 {
		return false
	}
	return x.returns(f, s, func(r *ssa.BasicBlock, extra *facts) bool {
		ng := newGoals()
		ng.ip, ng.depth = g.ip+1, 0
		ng.extra = []*facts{extra}
		return x.le(na, nb, r, ng)
	})
}

func isSeq(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return isString(t)
}

func sameLoad(a, b ssa.Value) bool {
	u, ok := a.(*ssa.UnOp)
	w, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && u.Op == token.MUL && w.Op == token.MUL && u.X == w.X
}

// returns: the test holds at every return whose idx-th result can be what was
// found.
func (x *prover) returns(f *ssa.Function, s verdict, test func(b *ssa.BasicBlock, extra *facts) bool) bool {
	idx, want := s.idx, s.want
	n := 0
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == f.Recover || idx >= len(r.Results) {
			continue
		}
		v := r.Results[idx]
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// a named result
			if s := reachingStore(u); s != nil {
				v = s
			}
		}
		boolean := false
		if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			boolean = true
		}
		var each func(v ssa.Value, blk *ssa.BasicBlock, extra *facts, d int) bool
		each = func(v ssa.Value, blk *ssa.BasicBlock, extra *facts, d int) bool {
			if s.is != nil {
				if !mayEqual(v, s.is, 0) {
					return true
				}
			} else if k, ok := v.(*ssa.Const); ok {
				if boolean && k.Value != nil && constant.BoolVal(k.Value) != want {
					return true
				}
				if !boolean && k.Value == nil && !want {
					return true
				}
			} else if !boolean && want && neverNil(v) {
				return true
			}
			if ph, ok := v.(*ssa.Phi); ok && d < 4 && ph.Block() == blk {
				for i, e := range ph.Edges {
					p := blk.Preds[i]
					if blk.Dominates(p) {
						continue
					}
					ex := x.edge(p, blk)
					ex.le = append(ex.le, extra.le...)
					if !each(e, p, ex, d+1) {
						return false
					}
				}
				return true
			}
			ex := &facts{}
			*ex = *extra
			if s.is != nil {
				x.equals(v, s.is, ex)
			} else if boolean {
				x.cond(v, want, ex, 0)
			} else {
				x.isNil(v, want, ex)
				// a value already known to be the other way
				at := x.at(blk)
				for _, q := range at.nn {
					if want && q == v {
						return true
					}
				}
			}
			n++
			return test(blk, ex)
		}
		if !each(v, b, &facts{}, 0) {
			return false
		}
	}
	return true
}

// callers: it holds at every call.
func (x *prover) callers(a, b lin, at *ssa.BasicBlock, g *goals) bool {
	if g.ip > 3 {
		return false
	}
	f := at.Parent()
	isParam := func(q base) bool {
		switch v := q.v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.Alloc:
			return paramStore(v) != nil && q.sel != ""
		case nil, *ssa.Global:
			return true
		case *ssa.FreeVar:
			return true
		}
		return false
	}
	if !isParam(a.b) || !isParam(b.b) || a.b.v == nil && b.b.v == nil {
		return false
	}
	if !x.entryValue(a.b, f) || !x.entryValue(b.b, f) {
		return false
	}
	sites := x.sites(f)
	if len(sites) == 0 {
		return false
	}
	for _, ci := range sites {
		args := ci.Common().Args
		sub := func(v ssa.Value) (ssa.Value, bool) {
			switch v := v.(type) {
			case *ssa.Parameter:
				for i, p := range f.Params {
					if p == v && i < len(args) {
						return args[i], true
					}
				}
			case *ssa.Alloc:
				// a copy of a parameter: where the argument was copied from
				s := paramStore(v)
				for i, p := range f.Params {
					if s == nil || s.Val != p || i >= len(args) {
						continue
					}
					u, ok := args[i].(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						return nil, false
					}
					r, sel, ok := place(u.X)
					if !ok || x.killed(base{v: r, sel: sel + "/*", at: u}, u, ci) {
						return nil, false
					}
					return u.X, true
				}
			case *ssa.FreeVar:
				b := binding(v)
				return b, b != nil && b.Parent() == ci.Parent()
			}
			return nil, false
		}
		na, ok1 := x.move(a.b, sub, ci)
		nb, ok2 := x.move(b.b, sub, ci)
		if !ok1 || !ok2 {
			return false
		}
		na.c += a.c
		nb.c += b.c
		ng := newGoals()
		ng.ip, ng.depth = g.ip+1, g.depth
		if !x.le(na, nb, ci.Block(), ng) {
			return false
		}
	}
	return true
}

// entryValue: what is read is still what it was when the function began.
func (x *prover) entryValue(q base, f *ssa.Function) bool {
	if q.v == nil || q.sel == "" {
		return true
	}
	if q.at == nil {
		return true
	}
	if len(f.Blocks) == 0 || len(f.Blocks[0].Instrs) == 0 {
		return false
	}
	if al, ok := q.v.(*ssa.Alloc); ok {
		if s := paramStore(al); s != nil {
			return !x.killed(q, s, q.at)
		}
		return false
	}
	return !x.killed(q, f.Blocks[0].Instrs[0], q.at)
}

// paramStore: the variable is the function's own copy of a parameter.
func paramStore(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != al {
			continue
		}
		if _, ok := s.Val.(*ssa.Parameter); !ok || st != nil || s.Block().Index != 0 {
			return nil
		}
		st = s
	}
	return st
}

// sites: every call of a function that is only called.
func (x *prover) sites(f *ssa.Function) []ssa.CallInstruction {
	if x.p.asValue[f] {
		return nil
	}
	return x.p.callers[f]
}

var boundsTrace = os.Getenv("ZKCHECK_TRACE")

func (b base) String() string {
	if b.v == nil {
		return "0"
	}
	n := b.v.Name() + b.sel
	if b.ln {
		n = "len(" + n + ")"
	}
	return n
}
