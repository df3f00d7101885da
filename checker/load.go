package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/companyzero/zkc"

// Prog is the type-checked, SSA-built program under analysis.
type Prog struct {
	Dir     string
	Fset    *token.FileSet
	SSA     *ssa.Program
	Pkgs    map[string]*ssa.Package // by path relative to the module
	TPkgs   map[string]*packages.Package
	Funcs   []*ssa.Function          // every repo function with a body (methods, closures)
	names   map[string]*ssa.Function // short name -> function
	callers map[*ssa.Function][]ssa.CallInstruction
	asValue map[*ssa.Function]bool // used as a value (not merely called)
	goed    map[*ssa.Function]bool
	callees map[*ssa.Function][]*ssa.Function
	live    map[*ssa.Function]*liveInfo
	vid     map[ssa.Value]int
	globals map[string]string // global -> labels of the constants it is initialised from
}

// globalLab names the string constants a package-level variable that is only
// ever set by its initialiser is built from.
func (p *Prog) globalLab(name string) string {
	if p.globals == nil {
		p.globals = map[string]string{}
		stores := map[string]int{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					n := shorten(g.String())
					stores[n]++
					if f.Name() != "init" || f.Parent() != nil {
						stores[n] += 10
						continue
					}
					l := ""
					seen := map[ssa.Value]bool{}
					var walk func(v ssa.Value)
					walk = func(v ssa.Value) {
						if v == nil || seen[v] {
							return
						}
						seen[v] = true
						if k, ok := v.(*ssa.Const); ok {
							if a := constAV(k); a.K == Const && strings.HasPrefix(a.C, "\"") {
								if s, err := strconv.Unquote(a.C); err == nil && !strings.Contains(s, ",") {
									l = labJoin(l, lab("s:"+s))
								}
							}
							return
						}
						if al, ok := v.(*ssa.Alloc); ok {
							for _, r := range *al.Referrers() {
								if ia, ok := r.(*ssa.IndexAddr); ok {
									for _, q := range *ia.Referrers() {
										if s2, ok := q.(*ssa.Store); ok {
											walk(s2.Val)
										}
									}
								}
							}
							return
						}
						if i, ok := v.(ssa.Instruction); ok {
							for _, o := range i.Operands(nil) {
								if *o != nil {
									walk(*o)
								}
							}
						}
					}
					walk(st.Val)
					p.globals[n] = l
				}
			}
		}
		for n, k := range stores {
			if k > 1 {
				delete(p.globals, n)
			}
		}
	}
	return p.globals[name]
}

// Load builds the SSA of the packages matching patterns in dir.
func Load(dir string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, fmt.Errorf("loading %v: %v", patterns, err)
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) != 0 {
		return nil, fmt.Errorf("type check failed: %v", strings.Join(errs, "; "))
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages for %v", patterns)
	}
	sp, spkgs := ssautil.Packages(pk, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{
		Dir:     dir,
		Fset:    pk[0].Fset,
		SSA:     sp,
		Pkgs:    map[string]*ssa.Package{},
		TPkgs:   map[string]*packages.Package{},
		names:   map[string]*ssa.Function{},
		callers: map[*ssa.Function][]ssa.CallInstruction{},
		asValue: map[*ssa.Function]bool{},
		goed:    map[*ssa.Function]bool{},
		callees: map[*ssa.Function][]*ssa.Function{},
		live:    map[*ssa.Function]*liveInfo{},
		vid:     map[ssa.Value]int{},
	}
	repo := map[*ssa.Package]bool{}
	for i, s := range spkgs {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %v", pk[i].PkgPath)
		}
		repo[s] = true
		p.Pkgs[shorten(pk[i].PkgPath)] = s
		p.TPkgs[shorten(pk[i].PkgPath)] = pk[i]
	}
	for f := range ssautil.AllFunctions(sp) {
		if len(f.Blocks) == 0 {
			continue
		}
		if pkg := pkgOf(f); pkg != nil && repo[pkg] {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	p.Funcs = alive(p.Funcs)
	for _, f := range p.Funcs {
		p.names[fnName(f)] = f
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if ci, ok := in.(ssa.CallInstruction); ok {
					callee = ci.Common().StaticCallee()
					if callee == nil {
						callee, _ = heldClosure(ci.Common())
					}
					if callee != nil {
						p.callers[callee] = append(p.callers[callee], ci)
						p.callees[f] = append(p.callees[f], callee)
						if _, ok := in.(*ssa.Go); ok {
							p.goed[callee] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						ci, isCall := in.(ssa.CallInstruction)
						if isCall && ci.Common().Value == g {
							// count extra uses as argument
							n := 0
							for _, a := range ci.Common().Args {
								if a == g {
									n++
								}
							}
							if n == 0 {
								continue
							}
						}
						if _, isMC := in.(*ssa.MakeClosure); isMC {
							if mc := in.(*ssa.MakeClosure); !closureOnlyCalled(mc) && !variableOnlyCalled(mc) {
								p.asValue[g] = true
							}
							continue
						}
						p.asValue[g] = true
					}
				}
			}
		}
	}
	return p, nil
}

// alive leaves out the functions of programs that nothing refers to: they
// never run.
func alive(fs []*ssa.Function) []*ssa.Function {
	for {
		used, invoked := map[*ssa.Function]bool{}, map[string]bool{}
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
						invoked[ci.Common().Method.Name()] = true
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && g != f {
							used[g] = true
						}
					}
				}
			}
		}
		var r []*ssa.Function
		dead := map[*ssa.Function]bool{}
		for _, f := range fs {
			n := f.Name()
			if f.Parent() == nil && f.Synthetic == "" && pkgOf(f).Pkg.Name() == "main" && n != "main" && n != "init" &&
				!strings.HasPrefix(n, "init#") && !token.IsExported(n) && !invoked[n] && !used[f] {
				dead[f] = true
			}
		}
		for _, f := range fs {
			g := f
			for g.Parent() != nil {
				g = g.Parent()
			}
			if !dead[g] {
				r = append(r, f)
			}
		}
		if len(dead) == 0 {
			return r
		}
		fs = r
	}
}

// closureOnlyCalled tells if the closure value is only ever called directly.
func closureOnlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if !ok || ci.Common().Value != mc {
			return false
		}
		for _, a := range ci.Common().Args {
			if a == mc {
				return false
			}
		}
	}
	return true
}

// heldClosure: the call is of a variable that only ever holds one closure.
func heldClosure(cc *ssa.CallCommon) (*ssa.Function, []ssa.Value) {
	u, ok := cc.Value.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil
	}
	al := variableOf(u.X)
	if al == nil {
		return nil, nil
	}
	switch v := soleStore(al).(type) {
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function), v.Bindings
	case *ssa.Function:
		return v, nil
	}
	return nil, nil
}

// variableOf: the variable an address is of, through closures.
func variableOf(a ssa.Value) *ssa.Alloc {
	switch a := a.(type) {
	case *ssa.Alloc:
		return a
	case *ssa.FreeVar:
		if b := binding(a); b != nil {
			return variableOf(b)
		}
	}
	return nil
}

// uses of a variable, through closures; false when its address goes
// elsewhere.
func variableUses(al ssa.Value, f func(in ssa.Instruction)) bool {
	ok := true
	if _, sig := deref(al.Type()).Underlying().(*types.Signature); !sig || al.Referrers() == nil {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			f(r)
		case *ssa.Store:
			if r.Addr != al {
				return false
			}
			f(r)
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == al && !variableUses(fn.FreeVars[i], f) {
					ok = false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return ok
}

// soleStore is the only value ever stored into a variable.
func soleStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	n := 0
	if !variableUses(al, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			n++
			v = s.Val
		}
	}) || n != 1 {
		return nil
	}
	return v
}

// variableOnlyCalled: the closure is put in a variable and called through it.
func variableOnlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Val != mc {
			return false
		}
		al, ok := s.Addr.(*ssa.Alloc)
		if !ok || soleStore(al) != mc {
			return false
		}
		good := true
		variableUses(al, func(in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok {
				return
			}
			for _, q := range *u.Referrers() {
				ci, ok := q.(*ssa.Call)
				if !ok || ci.Call.Value != u {
					good = false
				}
			}
		})
		if !good {
			return false
		}
	}
	return true
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if f.Origin() != nil && f.Origin() != f {
			f = f.Origin()
			continue
		}
		// synthetic wrapper/bound: use the object's package
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return f.Prog.Package(o.Pkg())
		}
		return nil
	}
	return nil
}

// shorten strips the module path.
func shorten(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath, ".")
}

// fnName is the stable short name of a function: "(*session.KX).Read".
func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return shorten(f.String())
}

func (p *Prog) Func(name string) *ssa.Function { return p.names[name] }

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	pos := in.Pos()
	if !pos.IsValid() {
		// nearest position in the block
		if b := in.Block(); b != nil {
			for _, o := range b.Instrs {
				if o.Pos().IsValid() {
					pos = o.Pos()
				}
				if o == in {
					break
				}
			}
		}
	}
	if !pos.IsValid() && in.Parent() != nil {
		pos = in.Parent().Pos()
	}
	return p.pos(pos)
}

func inPkg(f *ssa.Function, rel ...string) bool {
	pkg := pkgOf(f)
	if pkg == nil {
		return false
	}
	s := shorten(pkg.Pkg.Path())
	for _, r := range rel {
		if s == r {
			return true
		}
		if strings.HasSuffix(r, "/...") && (s == strings.TrimSuffix(r, "/...") || strings.HasPrefix(s, strings.TrimSuffix(r, "..."))) {
			return true
		}
	}
	return false
}

func isRepoPkg(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == modPath || strings.HasPrefix(pkg.Path(), modPath+"/"))
}

// isRoot: control enters f from outside the static call graph.
func (p *Prog) isRoot(f *ssa.Function, pk ...string) bool {
	if f.Synthetic != "" && f.Parent() == nil && f.Name() != "init" {
		return false
	}
	if p.goed[f] || p.asValue[f] {
		return true
	}
	n := 0
	for _, c := range p.callers[f] {
		if c.Parent() != f && (len(pk) == 0 || inPkg(c.Parent(), pk...)) {
			n++
		}
	}
	return n == 0
}

// ---- liveness ----

type liveInfo struct {
	in    []map[ssa.Value]bool // per block
	after map[ssa.Instruction]map[ssa.Value]bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
		return false
	}
	return true
}

func (p *Prog) liveness(f *ssa.Function) *liveInfo {
	if li := p.live[f]; li != nil {
		return li
	}
	n := len(f.Blocks)
	li := &liveInfo{in: make([]map[ssa.Value]bool, n), after: map[ssa.Instruction]map[ssa.Value]bool{}}
	for i := range li.in {
		li.in[i] = map[ssa.Value]bool{}
	}
	out := func(b *ssa.BasicBlock) map[ssa.Value]bool {
		o := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range li.in[s.Index] {
				o[v] = true
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				delete(o, ph)
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, q := range s.Preds {
					if q == b && trackable(ph.Edges[k]) {
						o[ph.Edges[k]] = true
					}
				}
			}
		}
		return o
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			o := out(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue // "in" is the state after the phis
				}
				if v, ok := in.(ssa.Value); ok {
					delete(o, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && trackable(*op) {
						o[*op] = true
					}
				}
			}
			for v := range o {
				if !li.in[i][v] {
					li.in[i][v] = true
					changed = true
				}
			}
		}
	}
	// live after calls
	for _, b := range f.Blocks {
		o := out(b)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			_, isCall := in.(*ssa.Call)
			_, isRD := in.(*ssa.RunDefers)
			if isCall || isRD {
				c := make(map[ssa.Value]bool, len(o))
				for v := range o {
					c[v] = true
				}
				li.after[in] = c
			}
			if v, ok := in.(ssa.Value); ok {
				delete(o, v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && trackable(*op) {
					o[*op] = true
				}
			}
		}
	}
	p.live[f] = li
	return li
}

func (p *Prog) id(v ssa.Value) int {
	if i, ok := p.vid[v]; ok {
		return i
	}
	i := len(p.vid) + 1
	p.vid[v] = i
	return i
}
