package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origin is a place a value can come from, found by following definitions
// backwards through the whole program (flow insensitively).
type origin struct {
	Kind string // const, call, out (filled in by a call), field, global, param, recv, make, other
	Name string
	V    ssa.Value
	At   ssa.Instruction
}

// passThrough: library functions whose result holds what their argument
// holds.
func passThrough(n string) bool {
	switch n {
	case "encoding/base64.NewDecoder", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader", "bufio.NewReader",
		"(*encoding/base64.Encoding).DecodeString", "encoding/hex.DecodeString", "compress/zlib.NewReader",
		"io.LimitReader", "(*bytes.Buffer).Bytes", "io.TeeReader", "io.ReadAll", "io/ioutil.ReadAll",
		"bytes.TrimSpace", "strings.TrimSpace", "bytes.Clone", "path.Join", "path/filepath.Join":
		return true
	}
	return false
}

type originFinder struct {
	p    *Prog
	stop func(v ssa.Value) (origin, bool) // values not looked behind
	seen map[[2]interface{}]bool
	out  []origin
	n    int
}

func (p *Prog) origins(v ssa.Value, stop func(v ssa.Value) (origin, bool)) []origin {
	f := &originFinder{p: p, stop: stop, seen: map[[2]interface{}]bool{}}
	f.walk(v, -1)
	return f.out
}

func (f *originFinder) leaf(kind, name string, v ssa.Value, at ssa.Instruction) {
	f.out = append(f.out, origin{kind, name, v, at})
}

func (f *originFinder) walk(v ssa.Value, idx int) {
	k := [2]interface{}{v, idx}
	if v == nil || f.seen[k] {
		return
	}
	f.seen[k] = true
	if f.n++; f.n > 5000 {
		f.leaf("other", "too many", v, nil)
		return
	}
	if f.stop != nil {
		if o, ok := f.stop(v); ok {
			f.out = append(f.out, o)
			return
		}
	}
	switch v := v.(type) {
	case *ssa.Const:
		f.leaf("const", v.Name(), v, nil)
	case *ssa.Phi:
		for _, e := range v.Edges {
			f.walk(e, idx)
		}
	case *ssa.ChangeType:
		f.walk(v.X, idx)
	case *ssa.Convert:
		f.walk(v.X, idx)
	case *ssa.MakeInterface:
		f.walk(v.X, idx)
	case *ssa.ChangeInterface:
		f.walk(v.X, idx)
	case *ssa.TypeAssert:
		f.walk(v.X, -1)
	case *ssa.Slice:
		f.walk(v.X, -1)
	case *ssa.Extract:
		if sel, ok := v.Tuple.(*ssa.Select); ok {
			n := 2
			for _, s := range sel.States {
				if s.Dir == types.RecvOnly {
					if n == v.Index {
						f.leaf("recv", strings.TrimPrefix(chanName("recv", s.Chan), "recv:"), v, sel)
						return
					}
					n++
				}
			}
		}
		f.walk(v.Tuple, v.Index)
	case *ssa.BinOp:
		f.walk(v.X, -1)
		f.walk(v.Y, -1)
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			f.walk(r.X, -1)
		}
	case *ssa.Index:
		f.walk(v.X, -1)
	case *ssa.Lookup:
		f.walk(v.X, -1)
	case *ssa.Field:
		o, fl := staticField(v)
		f.leaf("field", o+"."+fl.Name(), v, v)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			f.load(v.X, v)
		case token.ARROW:
			f.leaf("recv", strings.TrimPrefix(chanName("recv", v.X), "recv:"), v, v)
		default:
			f.walk(v.X, -1)
		}
	case *ssa.Parameter:
		f.param(v)
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			f.walk(b, idx)
		} else {
			f.leaf("other", v.Name(), v, nil)
		}
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
		// an address: what is stored there
		f.load(v, nil)
	case *ssa.Global:
		f.leaf("global", shorten(v.String()), v, nil)
	case *ssa.Call:
		f.call(v, idx)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		f.leaf("make", "", v, nil)
	default:
		f.leaf("other", v.Name(), v, nil)
	}
}

func (f *originFinder) param(v *ssa.Parameter) {
	fn := v.Parent()
	i := -1
	for k, p := range fn.Params {
		if p == v {
			i = k
		}
	}
	n := 0
	for _, c := range f.p.callers[fn] {
		a := c.Common().Args
		if c.Common().StaticCallee() != fn {
			continue
		}
		if i < len(a) {
			n++
			f.walk(a[i], -1)
		}
	}
	if n == 0 {
		f.leaf("param", fnName(fn)+"."+v.Name(), v, nil)
	}
}

func (f *originFinder) call(v *ssa.Call, idx int) {
	if b, ok := v.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range v.Call.Args {
				f.walk(a, -1)
			}
			return
		}
		f.leaf("call", b.Name(), v, v)
		return
	}
	g := v.Call.StaticCallee()
	if g != nil && isRepoFn(g) && len(g.Blocks) > 0 {
		if idx < 0 {
			idx = 0
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				f.walk(r.Results[idx], -1)
			}
		}
		return
	}
	n := staticName(v)
	if passThrough(n) {
		args := v.Call.Args
		if len(args) > 1 && strings.HasPrefix(n, "(*encoding/base64.Encoding).") || n == "encoding/base64.NewDecoder" {
			args = args[1:]
		}
		for _, a := range args {
			f.walk(a, -1)
		}
		return
	}
	f.leaf("call", n, v, v)
}

// load follows what an address can hold.
func (f *originFinder) load(a ssa.Value, at ssa.Instruction) {
	if f.stop != nil {
		if o, ok := f.stop(a); ok {
			f.out = append(f.out, o)
			return
		}
	}
	switch a := a.(type) {
	case *ssa.Alloc:
		f.cell(a)
	case *ssa.FreeVar:
		if b := binding(a); b != nil {
			if al, ok := b.(*ssa.Alloc); ok {
				f.cell(al)
				return
			}
			f.load(b, at)
			return
		}
		f.leaf("other", a.Name(), a, at)
	case *ssa.FieldAddr:
		o, fl := staticField(a)
		f.leaf("field", o+"."+fl.Name(), a, at)
	case *ssa.IndexAddr:
		f.walk(a.X, -1)
	case *ssa.Global:
		f.leaf("global", shorten(a.String()), a, at)
	case *ssa.Parameter:
		f.param(a)
	default:
		f.walk(a, -1)
	}
}

// cell: every value stored into a variable.
func (f *originFinder) cell(al *ssa.Alloc) {
	k := [2]interface{}{al, "cell"}
	if f.seen[k] {
		return
	}
	f.seen[k] = true
	n := 0
	var refs func(v ssa.Value)
	done := map[ssa.Value]bool{}
	refs = func(v ssa.Value) {
		if done[v] || v.Referrers() == nil {
			return
		}
		done[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					n++
					f.walk(r.Val, -1)
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						refs(fn.FreeVars[i])
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
				refs(r.(ssa.Value))
			case ssa.CallInstruction:
				n++
				switch nm := staticName(r); nm {
				case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).String":
				default:
					f.leaf("out", nm, v, r)
				}
			}
		}
	}
	refs(al)
	if n == 0 {
		f.leaf("const", "zero", al, nil)
	}
}

// fieldStores lists every value stored into a field anywhere, and whole
// structures put over it.
func (p *Prog) fieldStores(field string) []*ssa.Store {
	var r []*ssa.Store
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					o, fl := staticField(fa)
					if o+"."+fl.Name() == field {
						r = append(r, st)
					}
				}
			}
		}
	}
	return r
}

// storedFuncs lists the functions a function value taken out of a structure
// can be: everything ever stored into that field, followed through
// parameters and other fields.
func (p *Prog) storedFuncs(v ssa.Value) []*ssa.Function {
	var r []*ssa.Function
	seen := map[string]bool{}
	has := map[*ssa.Function]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, o := range p.origins(v, nil) {
			switch x := o.V.(type) {
			case *ssa.MakeClosure:
				if f, ok := x.Fn.(*ssa.Function); ok && !has[f] {
					has[f] = true
					r = append(r, f)
				}
			case *ssa.Function:
				if !has[x] {
					has[x] = true
					r = append(r, x)
				}
			default:
				if o.Kind == "field" && !seen[o.Name] {
					seen[o.Name] = true
					for _, st := range p.fieldStores(o.Name) {
						walk(st.Val)
					}
				}
			}
		}
	}
	walk(v)
	sortFns(r)
	return r
}

// fixedSize: decoding a value of the type reads a fixed number of bytes.
func fixedSize(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0
	case *types.Array:
		return fixedSize(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !fixedSize(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Pointer:
		return fixedSize(u.Elem())
	}
	return false
}
