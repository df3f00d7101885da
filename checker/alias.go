package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership of memory that is handed over: a flow-insensitive alias analysis
// inside each function (which values refer to the same memory, which hold a
// reference to it), summaries of what a function does with its parameters,
// and a flow-sensitive question on the control flow graph: can the memory be
// written after it was handed over?

type aliasAn struct {
	p      *Prog
	funcs  map[*ssa.Function]*aliasFn
	retain map[aliasParam]int // 1 being computed, 2 no, 3 yes
	writes map[aliasParam]int
	gives  map[aliasParam]int // a result holds the parameter
	leave  map[*ssa.Alloc]int
	visits int
}

type aliasParam struct {
	f *ssa.Function
	v ssa.Value // parameter or captured variable
}

// aliasFn: the memory nodes of a function.
type aliasFn struct {
	a      *aliasAn
	f      *ssa.Function
	id     map[interface{}]int
	keys   []interface{}
	parent []int
}

type (
	fieldNode   struct{ base, idx int } // the memory of a field of a node
	contentNode struct{ of int }        // what a variable holds refers to
)

func newAlias(p *Prog) *aliasAn {
	return &aliasAn{p: p, funcs: map[*ssa.Function]*aliasFn{}, retain: map[aliasParam]int{}, writes: map[aliasParam]int{}, gives: map[aliasParam]int{}, leave: map[*ssa.Alloc]int{}}
}

func (n *aliasFn) node(k interface{}) int {
	i, ok := n.id[k]
	if !ok {
		i = len(n.parent)
		n.id[k] = i
		n.keys = append(n.keys, k)
		n.parent = append(n.parent, i)
	}
	return n.find(i)
}

func (n *aliasFn) find(i int) int {
	for n.parent[i] != i {
		n.parent[i] = n.parent[n.parent[i]]
		i = n.parent[i]
	}
	return i
}

func (n *aliasFn) join(a, b int) {
	a, b = n.find(a), n.find(b)
	if a != b {
		n.parent[b] = a
	}
}

// holdsRef: a value of the type can refer to memory somebody else writes.
func holdsRef(t types.Type) bool {
	return holdsRef2(t, map[types.Type]bool{})
}

func holdsRef2(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRef2(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return holdsRef2(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holdsRef2(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// limited: appending to the slice cannot write memory that others see.
func limited(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		return v.Max != nil
	}
	return false
}

func (a *aliasAn) of(f *ssa.Function) *aliasFn {
	if n, ok := a.funcs[f]; ok {
		return n
	}
	n := &aliasFn{a: a, f: f, id: map[interface{}]int{}}
	a.funcs[f] = n
	for round := 0; round < 3; round++ {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n.link(in)
			}
		}
	}
	return n
}

// at: the node of the memory a pointer or slice refers to.
func (n *aliasFn) at(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return n.node(fieldNode{n.at(v.X), v.Field})
	case *ssa.IndexAddr:
		return n.at(v.X) // elements of an array are one
	case *ssa.ChangeType:
		return n.at(v.X)
	}
	return n.node(v)
}

func (n *aliasFn) link(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Slice:
		if in.Type().Underlying() != types.Typ[types.String] {
			n.join(n.node(in), n.at(in.X))
		}
	case *ssa.Phi:
		if isSlice(in.Type()) || isPtr(in.Type()) {
			for _, e := range in.Edges {
				if _, ok := e.(*ssa.Const); !ok {
					n.join(n.node(in), n.at(e))
				}
			}
		}
	case *ssa.Call:
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && !limited(in.Call.Args[0]) {
			n.join(n.node(in), n.at(in.Call.Args[0]))
		}
	case *ssa.Store:
		if isSlice(in.Val.Type()) || isPtr(in.Val.Type()) {
			if _, ok := in.Val.(*ssa.Const); ok {
				return
			}
			if _, ok := in.Addr.(*ssa.IndexAddr); ok {
				return // elements are told apart
			}
			if al := localBase(in.Addr); al != nil {
				n.join(n.node(contentNode{n.at(in.Addr)}), n.at(in.Val))
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL && (isSlice(in.Type()) || isPtr(in.Type())) {
			if _, ok := in.X.(*ssa.IndexAddr); ok {
				return
			}
			if al := localBase(in.X); al != nil {
				n.join(n.node(contentNode{n.at(in.X)}), n.node(in))
			}
		}
	}
}

// localBase: the variable an address lies in, nil when it is not one of the
// function's own.
func localBase(v ssa.Value) *ssa.Alloc {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.FieldAddr:
		return localBase(v.X)
	case *ssa.IndexAddr:
		if isPtr(v.X.Type()) {
			return localBase(v.X)
		}
		if s, ok := v.X.(*ssa.Slice); ok {
			return localBase(s.X)
		}
	}
	return nil
}

// handover is a place where a reference leaves the function's hands.
type handover struct {
	at   ssa.Instruction
	what string
}

// spread follows every value that holds a reference to what the start values
// refer to, and reports where it is handed over. ret: it can be returned.
func (n *aliasFn) spread(start []ssa.Value, skip ssa.Value) (out []handover, ret bool) {
	type fld struct {
		b *ssa.Alloc
		i int
	}
	has := map[ssa.Value]bool{}
	inField := map[fld]bool{}
	inAlloc := map[*ssa.Alloc]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v == nil || has[v] || v == skip || !holdsRef(v.Type()) {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		has[v] = true
		work = append(work, v)
	}
	for _, v := range start {
		add(v)
	}
	field := func(v ssa.Value) (fld, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return fld{}, false
		}
		al, ok := fa.X.(*ssa.Alloc)
		if !ok {
			return fld{}, false
		}
		return fld{al, fa.Field}, true
	}
	stored := func(st *ssa.Store) {
		al := localBase(st.Addr)
		if al == nil {
			out = append(out, handover{st, "stored in " + placeName(st.Addr)})
			return
		}
		if n.a.leaves(n, al) {
			out = append(out, handover{st, "stored in " + placeName(st.Addr)})
		}
		if fl, ok := field(st.Addr); ok {
			if inField[fl] {
				return
			}
			inField[fl] = true
		} else {
			if inAlloc[al] {
				return
			}
			inAlloc[al] = true
			add(al) // its address gives the reference away too
		}
		if al.Referrers() == nil {
			return
		}
		// what is read out of the variable again
		var visit func(v ssa.Value, whole bool)
		visit = func(v ssa.Value, whole bool) {
			if v.Referrers() == nil {
				return
			}
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.UnOp:
					if r.Op == token.MUL {
						add(r)
					}
				case *ssa.FieldAddr:
					if fl, ok := field(r); ok && !inField[fl] && !inAlloc[fl.b] {
						continue
					}
					visit(r, false)
				case *ssa.IndexAddr, *ssa.Slice:
					if _, ok := r.(*ssa.Slice); ok {
						add(r.(ssa.Value))
					}
					visit(r.(ssa.Value), false)
				}
			}
		}
		visit(al, true)
		// the address of a structure with the reference in it
		add(al)
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					stored(r)
				}
			case *ssa.Send:
				if r.X == v {
					out = append(out, handover{r, "sent on a channel"})
				}
			case *ssa.Select:
				for _, s := range r.States {
					if s.Send == v {
						out = append(out, handover{r, "sent on a channel"})
					}
				}
			case *ssa.MapUpdate:
				if r.Value == v {
					out = append(out, handover{r, "put into a map"})
				}
			case *ssa.Return:
				ret = true
			case *ssa.MakeInterface, *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Slice:
				add(r.(ssa.Value))
			case *ssa.Field:
				if ld, ok := r.X.(*ssa.UnOp); ok {
					if al, ok := ld.X.(*ssa.Alloc); ok && !inAlloc[al] && !inField[fld{al, r.Field}] {
						continue
					}
				}
				add(r)
			case *ssa.FieldAddr:
				if fl, ok := field(r); ok && has[fl.b] && !inAlloc[fl.b] && len(inField) > 0 && !inField[fl] && !n.startsAt(start, fl.b) {
					continue // another field of a structure that holds the reference
				}
				add(r)
			case *ssa.IndexAddr:
				add(r)
			case *ssa.UnOp:
				// what a pointer points to: only when the reference is in there
				if r.Op == token.MUL && !n.startsAt(start, v) && !isElemOf(start, v) {
					add(r)
				}
			case *ssa.MakeClosure:
				add(r)
				for i, b := range r.Bindings {
					if b != v {
						continue
					}
					g := r.Fn.(*ssa.Function)
					if n.a.retains(g, g.FreeVars[i]) {
						out = append(out, handover{r, "kept by " + fnName(g)})
					}
				}
			case *ssa.Go:
				out = append(out, handover{r, "used by a new goroutine"})
			case ssa.CallInstruction:
				n.call(r, v, add, &out)
			}
		}
	}
	return out, ret
}

func (n *aliasFn) startsAt(start []ssa.Value, v ssa.Value) bool {
	for _, s := range start {
		if s == v {
			return true
		}
	}
	return false
}

// isElemOf: v is an address inside of one of the start values.
func isElemOf(start []ssa.Value, v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Phi:
			for _, s := range start {
				if s == v {
					return true
				}
			}
			return false
		default:
			for _, s := range start {
				if s == v {
					return true
				}
			}
			return false
		}
		for _, s := range start {
			if s == v {
				return true
			}
		}
	}
}

func (n *aliasFn) call(r ssa.CallInstruction, v ssa.Value, add func(ssa.Value), out *[]handover) {
	cc := r.Common()
	res, _ := r.(ssa.Value)
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if cc.Args[0] == v {
				add(res)
			} else if len(cc.Args) > 1 && cc.Args[1] == v {
				// the elements are copied
				if st, ok := v.Type().Underlying().(*types.Slice); ok && holdsRef(st.Elem()) {
					add(res)
				}
			}
		case "copy":
			if st, ok := v.Type().Underlying().(*types.Slice); ok && cc.Args[1] == v && holdsRef(st.Elem()) {
				add(cc.Args[0])
			}
		}
		return
	}
	g := cc.StaticCallee()
	nm := staticName(r)
	if g == nil {
		return // the function called, or an argument of an unknown one
	}
	if !isRepoFn(g) || len(g.Blocks) == 0 {
		switch {
		case nm == fnQueue || nm == "time.AfterFunc":
			*out = append(*out, handover{r, "handed to " + nm})
		case nm == "bytes.NewReader" || nm == "bytes.NewBuffer" || nm == "(*bytes.Buffer).Bytes":
			if res != nil {
				add(res)
			}
		}
		return
	}
	for i, x := range cc.Args {
		if x != v || i >= len(g.Params) {
			continue
		}
		if n.a.retains(g, g.Params[i]) {
			*out = append(*out, handover{r, "handed to " + fnName(g)})
		}
		if res != nil && n.a.returns(g, g.Params[i]) {
			add(res)
		}
	}
}

// retains: the function keeps a reference to what the parameter refers to
// beyond its own return.
func (a *aliasAn) retains(f *ssa.Function, v ssa.Value) bool {
	k := aliasParam{f, v}
	switch a.retain[k] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	a.retain[k] = 1
	if f.Pkg == nil && f.Parent() == nil || len(f.Blocks) == 0 {
		a.retain[k] = 2
		return false
	}
	out, ret := a.of(f).spread([]ssa.Value{v}, nil)
	a.gives[k] = 2
	if ret {
		a.gives[k] = 3
	}
	a.retain[k] = 2
	if len(out) > 0 {
		a.retain[k] = 3
		return true
	}
	return false
}

func (a *aliasAn) returns(f *ssa.Function, v ssa.Value) bool {
	a.retains(f, v)
	return a.gives[aliasParam{f, v}] == 3
}

// leaves: the variable's own address is handed over or returned.
func (a *aliasAn) leaves(n *aliasFn, al *ssa.Alloc) bool {
	switch a.leave[al] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	a.leave[al] = 1
	out, ret := n.spread([]ssa.Value{al}, nil)
	a.leave[al] = 2
	if len(out) > 0 || ret {
		a.leave[al] = 3
		return true
	}
	return false
}

// memWrite: the instruction writes the memory of a node.
type memWrite struct {
	at   ssa.Instruction
	node int
	what string
}

// overwritten lists the writes of memory that has been somebody's before:
// elements of arrays and slices, and whole variables. Fields of objects are
// left to the locks.
func (n *aliasFn) overwritten() []memWrite {
	var r []memWrite
	add := func(in ssa.Instruction, v ssa.Value, what string) {
		r = append(r, memWrite{in, n.at(v), what})
	}
	for _, b := range n.f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch ad := in.Addr.(type) {
				case *ssa.IndexAddr:
					add(in, ad.X, "an element is assigned")
				case *ssa.FieldAddr:
					if _, ok := deref(ad.Type()).Underlying().(*types.Array); ok {
						add(in, ad, "it is assigned")
					}
				default:
					add(in, ad, "it is assigned")
				}
			case ssa.CallInstruction:
				n.callWrites(in, add)
			}
		}
	}
	return r
}

func (n *aliasFn) callWrites(in ssa.CallInstruction, add func(ssa.Instruction, ssa.Value, string)) {
	cc := in.Common()
	if _, ok := in.(*ssa.Go); ok {
		return // what goroutines share is a matter of locks
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			add(in, cc.Args[0], "it is copied over")
		case "clear":
			add(in, cc.Args[0], "it is cleared")
		case "append":
			if s := shortened(cc.Args[0], map[ssa.Value]bool{}); s != nil {
				add(in, s, "appending to a shortened slice overwrites what was behind it")
			}
		}
		return
	}
	if cc.IsInvoke() {
		if cc.Method.Name() == "Read" && len(cc.Args) == 1 {
			add(in, cc.Args[0], "it is read into")
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		return
	}
	if isRepoFn(g) && len(g.Blocks) > 0 {
		for i, x := range cc.Args {
			if i < len(g.Params) && (isSlice(x.Type()) || isPtr(x.Type())) && n.a.overwrites(g, g.Params[i]) {
				add(in, x, "it is overwritten by "+fnName(g))
			}
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for i, x := range mc.Bindings {
				if n.a.overwrites(g, g.FreeVars[i]) {
					add(in, x, "it is overwritten by "+fnName(g))
				}
			}
		}
		return
	}
	switch nm := staticName(in); nm {
	case "io.ReadFull", "io.ReadAtLeast":
		add(in, cc.Args[1], "it is read into")
	case "crypto/rand.Read", "math/rand.Read":
		add(in, cc.Args[0], "it is filled")
	case xdr2 + ".Unmarshal", xdr2 + ".UnmarshalLimited":
		if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok && isPtr(mi.X.Type()) {
			add(in, mi.X, "it is decoded into")
		}
	case "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate":
		add(in, cc.Args[0], "it is reset")
	default:
		if strings.HasPrefix(nm, "sort.") || strings.HasPrefix(nm, "slices.Sort") || nm == "slices.Delete" || nm == "slices.Reverse" || nm == "slices.Compact" {
			for _, x := range cc.Args {
				if mi, ok := x.(*ssa.MakeInterface); ok {
					x = mi.X
				}
				if isSlice(x.Type()) {
					add(in, x, "its order is changed")
				}
			}
		}
		if strings.HasPrefix(nm, "(encoding/binary.") && strings.Contains(nm, ").Put") {
			add(in, cc.Args[1], "a number is put into it")
		}
		if strings.HasSuffix(nm, ").Read") && len(cc.Args) == 2 && isSlice(cc.Args[1].Type()) {
			add(in, cc.Args[1], "it is read into")
		}
	}
}

// shortened: the slice can be one that was cut at its end, with room behind.
func shortened(v ssa.Value, seen map[ssa.Value]bool) *ssa.Slice {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if v.High != nil && v.Max == nil && (isIntConst(v.High, 0) || !wholeSlice(v)) {
			return v
		}
		if isSlice(v.X.Type()) {
			return shortened(v.X, seen)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := shortened(e, seen); s != nil {
				return s
			}
		}
	case *ssa.ChangeType:
		return shortened(v.X, seen)
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return shortened(v.Call.Args[0], seen)
		}
	}
	return nil
}

// overwrites: the function writes the memory the parameter refers to.
func (a *aliasAn) overwrites(f *ssa.Function, v ssa.Value) bool {
	k := aliasParam{f, v}
	switch a.writes[k] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	a.writes[k] = 1
	n := a.of(f)
	r := 2
	for _, w := range n.overwritten() {
		if n.find(w.node) == n.at(v) {
			r = 3
			break
		}
	}
	a.writes[k] = r
	return r == 3
}

// fresh: the instruction makes new memory for the node.
func freshDef(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return true
		}
		switch x := v.X.(type) {
		case *ssa.FieldAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
			return false // reading a variable again makes nothing new
		case *ssa.IndexAddr:
			return localBase(x) == nil
		}
		return true
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.Extract, *ssa.TypeAssert, *ssa.Lookup, *ssa.Field, *ssa.Convert:
		return true
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "append" && limited(v.Call.Args[0])
		}
		return true
	}
	return false
}

// handedOver looks for memory that is written after it was handed over.
func (a *aliasAn) handedOver(f *ssa.Function, count func(string, string), report func(h handover, w memWrite, root ssa.Value), borrow func(what string, w memWrite)) {
	n := a.of(f)
	ws := n.overwritten()
	byNode := map[int][]memWrite{}
	for _, w := range ws {
		k := n.find(w.node)
		byNode[k] = append(byNode[k], w)
	}
	vals := map[int][]ssa.Value{}
	for k := range n.id {
		if v, ok := k.(ssa.Value); ok {
			vals[n.node(k)] = append(vals[n.node(k)], v)
		}
	}
	// addresses inside a node
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				k := n.at(v.(ssa.Value))
				vals[k] = append(vals[k], v.(ssa.Value))
			}
		}
	}
	var nodes []int
	for k := range byNode {
		nodes = append(nodes, k)
	}
	sort.Ints(nodes)
	for _, k := range nodes {
		vs := vals[k]
		if len(vs) == 0 {
			continue
		}
		if what := n.borrowed(vs); what != "" {
			for _, w := range byNode[k] {
				borrow(what, w)
			}
		}
		out, _ := n.spread(vs, nil)
		if len(out) == 0 {
			continue
		}
		count("memory handed over", fmt.Sprintf("%s in %s", describe(vs), fnName(f)))
		stop := map[ssa.Instruction]bool{}
		for _, v := range vs {
			if freshDef(v) {
				if in, ok := v.(ssa.Instruction); ok {
					stop[in] = true
				}
			}
		}
		plain := stop
		for _, h := range out {
			// what is read back from where it was put is the owner's to change
			stop := map[ssa.Instruction]bool{}
			for in := range plain {
				stop[in] = true
			}
			if st, ok := h.at.(*ssa.Store); ok {
				if o, fl := staticField(&ssa.UnOp{Op: token.MUL, X: st.Addr}); fl != nil {
					for _, v := range vs {
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
							if o2, fl2 := staticField(u); fl2 != nil && o2 == o && fl2 == fl {
								stop[u] = true
							}
						}
					}
				}
			}
			for _, w := range byNode[k] {
				if h.at == w.at && !loops(h.at, stop) {
					continue
				}
				if flows(h.at, w.at, stop) {
					report(h, w, vs[0])
				}
			}
		}
	}
}

// borrowed: the memory belongs to a list inside a message or a stored record
// that the function was given, not to one that it made.
func (n *aliasFn) borrowed(vs []ssa.Value) string {
	for _, v := range vs {
		if !isSlice(v.Type()) {
			continue
		}
		var o string
		var fl *types.Var
		var base *ssa.Alloc
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op != token.MUL {
				continue
			}
			fa, ok := v.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			o, fl = staticField(fa)
			base = localBase(fa)
		case *ssa.Field:
			o, fl = staticField(v)
		default:
			continue
		}
		if !strings.HasPrefix(o, "rpc.") && !strings.HasPrefix(o, "disk.") && !strings.HasPrefix(o, "ratchet/disk.") {
			continue
		}
		if base != nil {
			given := false
			for _, r := range *base.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(base) {
					if _, ok := st.Val.(*ssa.Const); !ok {
						given = true
					}
				}
			}
			if !given {
				continue
			}
		}
		return o + "." + fl.Name()
	}
	return ""
}

func describe(vs []ssa.Value) string {
	for _, v := range vs {
		switch v := v.(type) {
		case *ssa.Alloc:
			if v.Comment != "" {
				return v.Comment
			}
		case *ssa.Parameter:
			return v.Name()
		case *ssa.Phi:
			if v.Comment != "" {
				return v.Comment
			}
		}
	}
	for _, v := range vs {
		switch v := v.(type) {
		case *ssa.FieldAddr:
			_, fl := staticField(v)
			return fl.Name()
		}
	}
	return "a value of type " + shorten(vs[0].Type().String())
}

func placeName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		o, fl := staticField(v)
		return o + "." + fl.Name()
	case *ssa.IndexAddr:
		return "a list"
	case *ssa.Global:
		return v.Name()
	}
	return "memory"
}

func loops(in ssa.Instruction, stop map[ssa.Instruction]bool) bool { return flows(in, in, stop) }

// flows: control can get from just after one instruction to another without
// passing any of the stops. A deferred call runs when the function returns.
func flows(from, to ssa.Instruction, stop map[ssa.Instruction]bool) bool {
	if _, ok := to.(*ssa.Defer); ok {
		// queued before or after: it runs later in any case
		return to.Parent() == from.Parent() && (reachesBlock(to.Block(), from.Block()) || to.Block() == from.Block() || reachesBlock(from.Block(), to.Block()))
	}
	if _, ok := from.(*ssa.Defer); ok {
		return false // handed over at the very end
	}
	scan := func(b *ssa.BasicBlock, i int) (hit, dead bool) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == to {
				return true, false
			}
			if stop[in] {
				return false, true
			}
		}
		return false, false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		hit, dead := scan(b, 0)
		if hit {
			return true
		}
		if dead {
			return false
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	b := from.Block()
	i := 0
	for k, in := range b.Instrs {
		if in == from {
			i = k + 1
		}
	}
	hit, dead := scan(b, i)
	if hit {
		return true
	}
	if dead {
		return false
	}
	for _, s := range b.Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

func init() { register("C41", checkHandover) }

func checkHandover(c *Ctx) {
	c.Rule("memory a function handed over (stored where it outlives the function, sent, put into a map, given to a goroutine, or passed to a function that keeps it) is not written on any later path before it is made anew")
	c.Rule("a list inside a message or a group that a function was given, rather than made, is not changed in place")
	c.handover(func(f *ssa.Function) bool { return true })
	c.Need("memory handed over", 10)
}

func (c *Ctx) handover(in func(f *ssa.Function) bool) {
	a := newAlias(c.P)
	fns := append([]*ssa.Function{}, c.P.Funcs...)
	sortFns(fns)
	for _, f := range fns {
		if len(f.Blocks) == 0 || !isRepoFn(f) || f.Synthetic != "" && f.Parent() == nil || !in(f) {
			continue
		}
		f := f
		a.handedOver(f, c.Count, func(h handover, w memWrite, root ssa.Value) {
			c.Violation("changed/"+fnName(f)+"/"+h.what, w.at.Pos(), "%s changes memory (%s) after it was %s at %s", fnName(f), w.what, h.what, c.P.instrPos(h.at))
		}, func(what string, w memWrite) {
			c.Violation("borrowed/"+fnName(f)+"/"+what, w.at.Pos(), "%s changes %s in place (%s): whoever else holds that list sees it change", fnName(f), what, w.what)
		})
	}
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && isInt(c.Type()) && c.Int64() == n
}
