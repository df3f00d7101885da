package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The path engine is an ESP-style path-sensitive, interprocedural typestate
// analysis: a rule is an automaton whose state is explored together with a
// finite valuation (zero / non-zero / constant) of the live local values, so
// that the outcome of a call stays correlated with the branches that later
// test it, whatever helper, closure, defer or wrapper the test goes through.
// Nothing is executed and no solver is involved: states are merged on equal
// (position, valuation, automaton) keys until a fixpoint is reached.

type Kind uint8

const (
	Unk Kind = iota
	Zero
	NonZero
	Const
)

// Addr is an abstract address: a root and a field path under it.
type Addr struct {
	Root   string // "a.." alloc, "g.." global, "h.." heap pointer
	Path   string
	Fields []*types.Var // struct fields selected on the way, outermost first
	Owner  string       // type owning the last selected field
	Heap   bool
	Base   string // labels of the base pointer of a heap address
}

func (a *Addr) key() string { return a.Root + "|" + a.Path }
func (a *Addr) field() *types.Var {
	if a == nil || len(a.Fields) == 0 {
		return nil
	}
	return a.Fields[len(a.Fields)-1]
}

type Closure struct {
	Fn   *ssa.Function
	Bind []AV
}

// AV is an abstract value.
type AV struct {
	K    Kind
	C    string // for Const
	Sym  int    // identity, 0 = none
	Expr string // structural description, e.g. len(#12)
	Lab  string // sorted ",a,b," provenance labels
	Addr *Addr
	Fn   *Closure
	Dyn  types.Type
	Agg  map[string]AV // fields of a struct value
	Tup  []AV
}

func (v AV) is(k Kind) bool       { return v.K == k }
func (v AV) nonzero() bool        { return v.K == NonZero || v.K == Const }
func (v AV) has(l string) bool    { return strings.Contains(v.Lab, ","+l+",") }
func (v AV) hasPfx(l string) bool { return strings.Contains(v.Lab, ","+l) }

func (v AV) labels() []string {
	if v.Lab == "" {
		return nil
	}
	return strings.Split(strings.Trim(v.Lab, ","), ",")
}

func labJoin(a, b string) string {
	if a == "" || a == b {
		return b
	}
	if b == "" {
		return a
	}
	m := map[string]bool{}
	for _, s := range strings.Split(strings.Trim(a, ","), ",") {
		m[s] = true
	}
	for _, s := range strings.Split(strings.Trim(b, ","), ",") {
		m[s] = true
	}
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return "," + strings.Join(k, ",") + ","
}

func lab(s ...string) string {
	r := ""
	for _, x := range s {
		r = labJoin(r, ","+x+",")
	}
	return r
}

func (v AV) with(labels ...string) AV {
	v.Lab = labJoin(v.Lab, lab(labels...))
	return v
}

func (v AV) ser(b *strings.Builder) {
	b.WriteByte("uzn="[v.K])
	if v.K == Const {
		b.WriteString(v.C)
	}
	if v.Sym != 0 {
		b.WriteByte('#')
		b.WriteString(strconv.Itoa(v.Sym))
	}
	if v.Expr != "" {
		b.WriteByte('e')
		b.WriteString(v.Expr)
	}
	b.WriteString(v.Lab)
	if v.Addr != nil {
		b.WriteByte('@')
		b.WriteString(v.Addr.Root)
		b.WriteString(v.Addr.Path)
	}
	if v.Fn != nil {
		b.WriteByte('f')
		b.WriteString(v.Fn.Fn.Name())
		for _, x := range v.Fn.Bind {
			x.ser(b)
		}
	}
	if v.Dyn != nil {
		b.WriteByte('d')
		b.WriteString(v.Dyn.String())
	}
	if v.Agg != nil {
		ks := make([]string, 0, len(v.Agg))
		for k := range v.Agg {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteByte('{')
		for _, k := range ks {
			b.WriteString(k)
			b.WriteByte(':')
			x := v.Agg[k]
			x.ser(b)
			b.WriteByte(';')
		}
		b.WriteByte('}')
	}
	if v.Tup != nil {
		b.WriteByte('(')
		for _, x := range v.Tup {
			x.ser(b)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	}
}

type VKey struct {
	D int
	V ssa.Value
}

type deferred struct {
	call *ssa.Defer
	args []AV
	fn   AV
}

type Frame struct {
	fn      *ssa.Function
	call    ssa.CallInstruction // site in the caller, nil for the entry
	block   *ssa.BasicBlock
	idx     int
	prev    *ssa.BasicBlock
	defers  []deferred
	isDefer bool // running as a deferred call: return resumes RunDefers
}

type trace struct {
	up  *trace
	msg string
	pos token.Pos
	n   int
}

type State struct {
	frames []*Frame
	vals   map[VKey]AV
	cells  map[string]AV // root|path
	auto   map[string]string
	tr     *trace
}

func (s *State) clone() *State {
	n := &State{tr: s.tr}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		c := *f
		n.frames[i] = &c
	}
	n.vals = make(map[VKey]AV, len(s.vals))
	for k, v := range s.vals {
		n.vals[k] = v
	}
	n.cells = make(map[string]AV, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.auto = make(map[string]string, len(s.auto))
	for k, v := range s.auto {
		n.auto[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }
func (s *State) depth() int  { return len(s.frames) - 1 }

// Get and Set access the automaton state.
func (s *State) Get(k string) string { return s.auto[k] }
func (s *State) Set(k, v string) {
	if v == "" {
		delete(s.auto, k)
	} else {
		s.auto[k] = v
	}
}
func (s *State) Note(pos token.Pos, format string, a ...interface{}) {
	n := 0
	if s.tr != nil {
		n = s.tr.n
	}
	s.tr = &trace{up: s.tr, msg: fmt.Sprintf(format, a...), pos: pos, n: n + 1}
}

// InFunc tells whether a function accepted by ok is on the frame stack.
func (s *State) InFunc(ok func(f *ssa.Function) bool) bool {
	for _, f := range s.frames {
		if ok(f.fn) {
			return true
		}
	}
	return false
}

// Out is one outcome of a call or comparison.
type Out struct {
	Res  []AV           // result values
	Do   func(s *State) // automaton update
	Stop bool           // path ends here
}

type CallCtx struct {
	E       *Engine
	St      *State
	Instr   ssa.CallInstruction
	Callee  *ssa.Function // nil for builtins and unresolved dynamic calls
	Name    string        // short full name, "builtin:copy", or "" when unresolved
	Args    []AV
	InDefer bool
}

func (c *CallCtx) Pos() token.Pos { return c.Instr.Pos() }

type CmpCtx struct {
	E    *Engine
	St   *State
	In   *ssa.BinOp
	Op   token.Token
	X, Y AV
}

// Rule is what a property check plugs into the engine.
type Rule struct {
	ID        string
	Call      func(c *CallCtx) []Out                                           // nil: default
	Cmp       func(c *CmpCtx) []Out                                            // nil: default; Res[0] must be Zero/NonZero
	Pre       func(e *Engine, st *State, in ssa.Instruction)                   // observe
	Load      func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV // adjust loaded value
	Exit      func(e *Engine, st *State, ret []AV, in ssa.Instruction)
	Event     func(p *Prog, in ssa.Instruction) bool // instr that makes a function relevant
	NoInline  func(f *ssa.Function) bool
	InlineAll bool                                           // inline every repo function reachable
	Post      func(e *Engine, st *State, in ssa.Instruction) // after a value instr executed
	HeapCells bool                                           // track fields behind unknown pointers
	OnGo      func(c *CallCtx)
	MaxExpr   int                                                       // how long the name of a computed value may get, 0 is the default
	Branch    func(e *Engine, st *State, in *ssa.If, taken bool)        // a branch that could go both ways
	Lookup    func(e *Engine, st *State, in *ssa.Lookup, x, k AV) []Out // outcomes of a map read: value and, for the two-valued form, found
	FoldInts  int64                                                     // fold integer constants up to this value, unrolling short loops
	PartLab   string                                                    // label of what a slice expression takes out of a larger value
	// FieldLab gives the provenance labels of a field read.
	FieldLab func(owner string, f *types.Var, v AV) string
}

type Report struct {
	Key   string
	Msg   string
	Pos   token.Pos
	Trace []string
}

type Engine struct {
	P             *Prog
	R             *Rule
	relevant      map[*ssa.Function]bool
	seen          map[string]bool
	States        int
	MaxStates     int
	Overflow      bool
	OverflowDepth int
	Reports       map[string]*Report
	Counts        map[string]map[string]bool // instance kind -> set of constructs
	work          []*State
	symTab        map[string]int
	roots         []string
	small         map[*ssa.Function]int
	entered       map[*ssa.Function]bool // closures called on some path
	lateBudget    int
}

func NewEngine(p *Prog, r *Rule) *Engine {
	e := &Engine{P: p, R: r, MaxStates: 600000,
		Reports: map[string]*Report{}, Counts: map[string]map[string]bool{},
		symTab: map[string]int{}, small: map[*ssa.Function]int{}, entered: map[*ssa.Function]bool{}}
	e.relevant = map[*ssa.Function]bool{}
	if r.Event != nil {
		direct := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r.Event(p, in) {
						direct[f] = true
					}
				}
			}
		}
		// transitive closure over static callers and enclosing functions of
		// closures that are called or deferred.
		rev := map[*ssa.Function][]*ssa.Function{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						c := ci.Common().StaticCallee()
						if c == nil {
							c, _ = heldClosure(ci.Common())
						}
						if c != nil {
							rev[c] = append(rev[c], f)
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if !onlyGo(mc) {
							rev[mc.Fn.(*ssa.Function)] = append(rev[mc.Fn.(*ssa.Function)], f)
						}
					}
				}
			}
		}
		var mark func(f *ssa.Function)
		mark = func(f *ssa.Function) {
			if e.relevant[f] {
				return
			}
			e.relevant[f] = true
			for _, g := range rev[f] {
				mark(g)
			}
		}
		for f := range direct {
			mark(f)
		}
	}
	return e
}

func onlyGo(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.Go); !ok {
			return false
		}
	}
	return true
}

// Count records an analysed instance.
func (e *Engine) Count(kind, construct string) {
	m := e.Counts[kind]
	if m == nil {
		m = map[string]bool{}
		e.Counts[kind] = m
	}
	m[construct] = true
}

// Where names a construct: function and instruction position.
func (e *Engine) Where(in ssa.Instruction) string {
	return fnName(in.Parent()) + "@" + e.P.instrPos(in)
}

// Violation records a violation once per key. The key names the rule and the
// construct, never a line.
func (e *Engine) Violation(st *State, key string, in ssa.Instruction, format string, a ...interface{}) {
	if _, ok := e.Reports[key]; ok {
		return
	}
	r := &Report{Key: key, Msg: fmt.Sprintf(format, a...)}
	if in != nil {
		r.Pos = in.Pos()
		r.Msg = e.P.instrPos(in) + ": " + r.Msg
	}
	if st != nil {
		var t []string
		for x := st.tr; x != nil; x = x.up {
			t = append(t, e.P.pos(x.pos)+" "+x.msg)
		}
		for i, j := 0, len(t)-1; i < j; i, j = i+1, j-1 {
			t[i], t[j] = t[j], t[i]
		}
		r.Trace = t
		var fs []string
		for _, f := range st.frames {
			fs = append(fs, fnName(f.fn))
		}
		r.Trace = append(r.Trace, "frames: "+strings.Join(fs, " > "))
	}
	e.Reports[key] = r
}

func (e *Engine) sym(d int, v ssa.Value, extra string) int {
	k := strconv.Itoa(d) + ":" + strconv.Itoa(e.P.id(v)) + extra
	if s, ok := e.symTab[k]; ok {
		return s
	}
	s := len(e.symTab) + 1
	e.symTab[k] = s
	return s
}

// Roots returns the entry functions of the given packages from which events
// are reachable.
func (e *Engine) Roots(pk ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range e.P.Funcs {
		if !e.relevant[f] || !e.P.isRoot(f, pk...) {
			continue
		}
		if len(pk) != 0 && !inPkg(f, pk...) {
			continue
		}
		r = append(r, f)
	}
	return r
}

// RunFrom explores every path from the given entries.
func (e *Engine) RunFrom(init func(st *State, f *ssa.Function), fs ...*ssa.Function) {
	fs = append([]*ssa.Function{}, fs...)
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Parent() == nil && fs[j].Parent() != nil })
	for _, f := range fs {
		if f.Parent() != nil && !e.P.goed[f] && e.entered[f] && e.P.argOnly(f) {
			continue // explored where it is handed on
		}
		e.roots = append(e.roots, fnName(f))
		e.seen = map[string]bool{}
		st := &State{vals: map[VKey]AV{}, cells: map[string]AV{}, auto: map[string]string{}}
		fr := &Frame{fn: f, block: f.Blocks[0]}
		st.frames = []*Frame{fr}
		for _, p := range f.Params {
			st.vals[VKey{0, p}] = AV{Sym: e.sym(0, p, "")}
		}
		for _, p := range f.FreeVars {
			// captured variables: pointers, never nil
			st.vals[VKey{0, p}] = AV{K: NonZero, Sym: e.sym(0, p, "")}
		}
		if init != nil {
			init(st, f)
		}
		e.work = append(e.work, st)
		for len(e.work) > 0 && !e.Overflow {
			s := e.work[len(e.work)-1]
			e.work = e.work[:len(e.work)-1]
			e.run(s)
		}
		e.work = nil
		if os.Getenv("ZKCHECK_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "  %d states after %s\n", e.States, fnName(f))
		}
	}
}

// ---- values ----

func (e *Engine) val(st *State, v ssa.Value) AV {
	return e.valAt(st, st.depth(), v)
}

func (e *Engine) valAt(st *State, d int, v ssa.Value) AV {
	switch v := v.(type) {
	case *ssa.Const:
		return constAV(v)
	case *ssa.Function:
		return AV{K: NonZero, Fn: &Closure{Fn: v}}
	case *ssa.Global:
		return AV{K: NonZero, Addr: &Addr{Root: "g:" + shorten(v.String())}}
	case *ssa.Builtin:
		return AV{K: NonZero}
	}
	if a, ok := st.vals[VKey{d, v}]; ok {
		return a
	}
	return AV{}
}

func constAV(v *ssa.Const) AV {
	if v.Value == nil {
		switch v.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return AV{K: Zero}
		}
		return AV{K: Zero}
	}
	switch v.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(v.Value) {
			return AV{K: NonZero}
		}
		return AV{K: Zero}
	case constant.String:
		s := constant.StringVal(v.Value)
		if s == "" {
			return AV{K: Zero}
		}
		return AV{K: Const, C: strconv.Quote(s)}
	case constant.Int:
		if constant.Sign(v.Value) == 0 {
			return AV{K: Zero}
		}
		return AV{K: Const, C: v.Value.ExactString()}
	}
	return AV{K: NonZero}
}

func intOf(v AV) (int64, bool) {
	if v.K == Zero {
		return 0, true
	}
	if v.K != Const {
		return 0, false
	}
	n, err := strconv.ParseInt(v.C, 10, 64)
	return n, err == nil
}

func (e *Engine) set(st *State, v ssa.Value, a AV) {
	st.vals[VKey{st.depth(), v}] = a
}

// define sets the value of an instruction, retiring the identity its previous
// execution may have left behind.
func (e *Engine) define(st *State, v ssa.Value, a AV) {
	own := e.sym(st.depth(), v, "")
	k := VKey{st.depth(), v}
	if old, ok := st.vals[k]; ok && a.Sym != own {
		_ = old
	}
	e.killSym(st, own, k)
	if a.Sym == 0 && a.Tup == nil {
		a.Sym = own
	}
	st.vals[k] = a
}

func mentions(expr string, s int) bool {
	if expr == "" {
		return false
	}
	t := "#" + strconv.Itoa(s)
	for i := 0; ; {
		j := strings.Index(expr[i:], t)
		if j < 0 {
			return false
		}
		j += i + len(t)
		if j >= len(expr) || expr[j] < '0' || expr[j] > '9' {
			return true
		}
		i = j
	}
}

func mapAV(v AV, f func(AV) AV) AV {
	v = f(v)
	if v.Tup != nil {
		t := make([]AV, len(v.Tup))
		for i := range v.Tup {
			t[i] = mapAV(v.Tup[i], f)
		}
		v.Tup = t
	}
	if v.Agg != nil {
		m := make(map[string]AV, len(v.Agg))
		for k, x := range v.Agg {
			m[k] = mapAV(x, f)
		}
		v.Agg = m
	}
	return v
}

func usesSym(v AV, s int) bool {
	if v.Sym == s || mentions(v.Expr, s) || (v.Addr != nil && v.Addr.Heap && v.Addr.Root == "h"+strconv.Itoa(s)) {
		return true
	}
	for _, x := range v.Tup {
		if usesSym(x, s) {
			return true
		}
	}
	for _, x := range v.Agg {
		if usesSym(x, s) {
			return true
		}
	}
	return false
}

func (e *Engine) rewrite(st *State, uses func(AV) bool, f func(AV) AV) {
	for k, v := range st.vals {
		if uses(v) {
			st.vals[k] = mapAV(v, f)
		}
	}
	for k, v := range st.cells {
		if uses(v) {
			st.cells[k] = mapAV(v, f)
		}
	}
	for _, fr := range st.frames {
		for i := range fr.defers {
			d := &fr.defers[i]
			touched := uses(d.fn)
			for _, a := range d.args {
				touched = touched || uses(a)
			}
			if !touched {
				continue
			}
			nd := make([]deferred, len(fr.defers))
			copy(nd, fr.defers)
			fr.defers = nd
			d = &fr.defers[i]
			d.fn = mapAV(d.fn, f)
			na := make([]AV, len(d.args))
			for j := range d.args {
				na[j] = mapAV(d.args[j], f)
			}
			d.args = na
		}
	}
}

func (e *Engine) killSym(st *State, s int, except VKey) {
	hr := "h" + strconv.Itoa(s)
	e.rewrite(st, func(v AV) bool { return usesSym(v, s) }, func(v AV) AV {
		if v.Sym == s {
			v.Sym = 0
		}
		if mentions(v.Expr, s) {
			v.Expr = ""
		}
		if v.Addr != nil && v.Addr.Heap && v.Addr.Root == hr {
			a := *v.Addr
			a.Root = "h0"
			v.Addr = &a
		}
		return v
	})
	if e.R.HeapCells {
		for k := range st.cells {
			if strings.HasPrefix(k, hr+"|") {
				delete(st.cells, k)
			}
		}
	}
	for k, v := range st.auto {
		if mentions(k, s) || mentions(v, s) {
			delete(st.auto, k)
		}
	}
}

func (e *Engine) renameSym(st *State, from, to int) {
	if from == to {
		return
	}
	hf, ht := "h"+strconv.Itoa(from), "h"+strconv.Itoa(to)
	e.rewrite(st, func(v AV) bool { return usesSym(v, from) }, func(v AV) AV {
		if v.Sym == from {
			v.Sym = to
		}
		if mentions(v.Expr, from) {
			v.Expr = replSym(v.Expr, from, to)
		}
		if v.Addr != nil && v.Addr.Heap && v.Addr.Root == hf {
			a := *v.Addr
			a.Root = ht
			v.Addr = &a
		}
		return v
	})
	for k, v := range st.auto {
		if mentions(k, from) || mentions(v, from) {
			delete(st.auto, k)
			st.auto[replSym(k, from, to)] = replSym(v, from, to)
		}
	}
}

func replSym(x string, from, to int) string {
	f := "#" + strconv.Itoa(from)
	t := "#" + strconv.Itoa(to)
	var b strings.Builder
	for i := 0; i < len(x); {
		if strings.HasPrefix(x[i:], f) {
			j := i + len(f)
			if j >= len(x) || x[j] < '0' || x[j] > '9' {
				b.WriteString(t)
				i = j
				continue
			}
		}
		b.WriteByte(x[i])
		i++
	}
	return b.String()
}

// refine narrows every holder of v's identity.
func (e *Engine) refine(st *State, v AV, k Kind, c string) {
	if v.Sym == 0 {
		return
	}
	s := v.Sym
	e.rewrite(st, func(x AV) bool { return usesSym(x, s) }, func(x AV) AV {
		if x.Sym == s && x.Tup == nil {
			if k == NonZero && x.K == Const {
				return x
			}
			x.K = k
			x.C = c
		}
		return x
	})
}

// ---- memory ----

func (e *Engine) loadCell(st *State, a *Addr) AV {
	k := a.key()
	if v, ok := st.cells[k]; ok {
		if v.Agg == nil {
			// gather written sub-cells into an aggregate
			if sub := e.subCells(st, k); len(sub) > 0 {
				v.Agg = sub
			}
		} else if sub := e.subCells(st, k); len(sub) > 0 {
			m := map[string]AV{}
			for p, x := range v.Agg {
				m[p] = x
			}
			for p, x := range sub {
				m[p] = x
			}
			v.Agg = m
		}
		return v
	}
	sub := e.subCells(st, k)
	// nearest ancestor
	p := a.Path
	for p != "" {
		i := strings.LastIndexAny(p, ".[")
		if i < 0 {
			break
		}
		leaf := p[i:]
		_ = leaf
		p = p[:i]
		if v, ok := st.cells[a.Root+"|"+p]; ok {
			r := AV{Lab: v.Lab}
			if v.Agg != nil {
				if x, ok := v.Agg[a.Path[len(p):]]; ok {
					r = x
				} else if v.K == Zero {
					r.K = Zero
				}
			} else if v.K == Zero {
				r.K = Zero
			}
			if len(sub) > 0 {
				r.Agg = sub
			}
			return r
		}
	}
	r := AV{}
	if len(sub) > 0 {
		r.Agg = sub
	}
	return r
}

func (e *Engine) subCells(st *State, k string) map[string]AV {
	var m map[string]AV
	for q, v := range st.cells {
		if len(q) > len(k) && strings.HasPrefix(q, k) && (q[len(k)] == '.' || q[len(k)] == '[') {
			if m == nil {
				m = map[string]AV{}
			}
			m[q[len(k):]] = v
		}
	}
	return m
}

func (e *Engine) storeCell(st *State, a *Addr, v AV) {
	k := a.key()
	for q := range st.cells {
		if len(q) > len(k) && strings.HasPrefix(q, k) && (q[len(k)] == '.' || q[len(k)] == '[') {
			delete(st.cells, q)
		}
	}
	if strings.Contains(a.Path, "[*]") {
		// weak update of the whole array
		i := strings.Index(a.Path, "[*]")
		base := a.Root + "|" + a.Path[:i]
		l := v.Lab
		for q, x := range st.cells {
			if q == base || strings.HasPrefix(q, base+"[") {
				l = labJoin(l, x.Lab)
				delete(st.cells, q)
			}
		}
		st.cells[base] = AV{Lab: l}
		return
	}
	if v.Agg != nil {
		agg := v.Agg
		v.Agg = nil
		st.cells[k] = v
		for p, x := range agg {
			st.cells[k+p] = x
		}
		return
	}
	st.cells[k] = v
}

// havoc forgets what is stored under the address's root.
func (e *Engine) havoc(st *State, a *Addr, l string) {
	if a == nil || a.Heap {
		return
	}
	k := a.key()
	lb := l
	for q, x := range st.cells {
		if q == k || (len(q) > len(k) && strings.HasPrefix(q, k) && (q[len(k)] == '.' || q[len(k)] == '[')) {
			lb = labJoin(lb, x.Lab)
			delete(st.cells, q)
		}
	}
	st.cells[k] = AV{Lab: lb}
}

// overwrite forgets what the cell held: everything in it is new.
func (e *Engine) overwrite(st *State, a *Addr, l string) {
	if a == nil || a.Heap {
		return
	}
	k := a.key()
	for q := range st.cells {
		if q == k || (len(q) > len(k) && strings.HasPrefix(q, k) && (q[len(k)] == '.' || q[len(k)] == '[')) {
			delete(st.cells, q)
		}
	}
	st.cells[k] = AV{Lab: l}
}

func (e *Engine) killRoot(st *State, root string) {
	for q := range st.cells {
		if strings.HasPrefix(q, root+"|") {
			delete(st.cells, q)
		}
	}
	e.rewrite(st, func(v AV) bool { return usesRoot(v, root) }, func(v AV) AV {
		if v.Addr != nil && v.Addr.Root == root {
			v.Addr = nil
			v.K = NonZero
			v.Sym = 0
		}
		return v
	})
}

func usesRoot(v AV, root string) bool {
	if v.Addr != nil && v.Addr.Root == root {
		return true
	}
	if v.Fn != nil {
		for _, x := range v.Fn.Bind {
			if usesRoot(x, root) {
				return true
			}
		}
	}
	for _, x := range v.Tup {
		if usesRoot(x, root) {
			return true
		}
	}
	for _, x := range v.Agg {
		if usesRoot(x, root) {
			return true
		}
	}
	return false
}

func (e *Engine) renameRoot(st *State, from, to string) {
	if from == to {
		return
	}
	e.killRoot(st, to)
	moved := map[string]AV{}
	for q, v := range st.cells {
		if strings.HasPrefix(q, from+"|") {
			moved[to+q[len(from):]] = v
			delete(st.cells, q)
		}
	}
	for q, v := range moved {
		st.cells[q] = v
	}
	var f func(v AV) AV
	f = func(v AV) AV {
		if v.Addr != nil && v.Addr.Root == from {
			a := *v.Addr
			a.Root = to
			v.Addr = &a
		}
		if v.Fn != nil && usesRoot(AV{Fn: v.Fn}, from) {
			c := &Closure{Fn: v.Fn.Fn}
			for _, x := range v.Fn.Bind {
				c.Bind = append(c.Bind, mapAV(x, f))
			}
			v.Fn = c
		}
		return v
	}
	e.rewrite(st, func(v AV) bool { return usesRoot(v, from) }, f)
}

// addrOf gives the abstract address a pointer value denotes.
func (e *Engine) addrOf(v AV) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	return &Addr{Root: "h" + strconv.Itoa(v.Sym), Heap: true, Base: v.Lab}
}

func (e *Engine) read(st *State, a *Addr, in ssa.Instruction) AV {
	var v AV
	if a.Heap {
		if e.R.HeapCells && a.Root != "h0" {
			v = e.loadCell(st, a)
		}
		v.Lab = labJoin(v.Lab, a.Base)
	} else if strings.HasPrefix(a.Root, "g:") {
		v = AV{Lab: e.P.globalLab(a.Root[2:])}
	} else {
		if strings.Contains(a.Path, "[*]") {
			i := strings.Index(a.Path, "[*]")
			b := *a
			b.Path = a.Path[:i]
			w := e.loadCell(st, &b)
			v = AV{Lab: w.Lab}
			for _, x := range w.Agg {
				v.Lab = labJoin(v.Lab, x.Lab)
				if x.K == Const && strings.HasPrefix(x.C, "\"") {
					if q, err := strconv.Unquote(x.C); err == nil && q != "" && !strings.Contains(q, ",") {
						v.Lab = labJoin(v.Lab, lab("s:"+q))
					}
				}
			}
		} else {
			v = e.loadCell(st, a)
		}
	}
	if f := a.field(); f != nil && e.R.FieldLab != nil {
		if l := e.R.FieldLab(a.Owner, f, v); l != "" {
			v.Lab = labJoin(v.Lab, lab(l))
		}
	}
	if e.R.Load != nil {
		v = e.R.Load(e, st, a, v, in)
	}
	return v
}

// ---- exploration ----

func (e *Engine) key(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "%p", f.fn)
		if f.call != nil {
			fmt.Fprintf(&b, "/%p", f.call)
		}
		fmt.Fprintf(&b, ":%d.%d", f.block.Index, f.idx)
		for _, d := range f.defers {
			fmt.Fprintf(&b, "D%p", d.call)
			for _, a := range d.args {
				a.ser(&b)
			}
		}
		b.WriteByte('>')
	}
	ks := make([]VKey, 0, len(st.vals))
	for k := range st.vals {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].D != ks[j].D {
			return ks[i].D < ks[j].D
		}
		return e.P.id(ks[i].V) < e.P.id(ks[j].V)
	})
	for _, k := range ks {
		fmt.Fprintf(&b, "v%d.%d", k.D, e.P.id(k.V))
		v := st.vals[k]
		v.ser(&b)
	}
	cs := make([]string, 0, len(st.cells))
	for k := range st.cells {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	for _, k := range cs {
		b.WriteString("c")
		b.WriteString(k)
		v := st.cells[k]
		v.ser(&b)
	}
	as := make([]string, 0, len(st.auto))
	for k := range st.auto {
		as = append(as, k)
	}
	sort.Strings(as)
	for _, k := range as {
		b.WriteString("A")
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(st.auto[k])
	}
	return b.String()
}

// gc drops dead values and unreachable cells. The top frame is at the start
// of a block (after phis).
func (e *Engine) gc(st *State) {
	for k := range st.vals {
		if k.D >= len(st.frames) {
			delete(st.vals, k)
			continue
		}
		fr := st.frames[k.D]
		li := e.P.liveness(fr.fn)
		var live map[ssa.Value]bool
		if k.D == len(st.frames)-1 {
			live = li.in[fr.block.Index]
		} else {
			// suspended at a call or RunDefers
			var in ssa.Instruction
			if fr.idx > 0 {
				in = fr.block.Instrs[fr.idx-1]
			}
			if m, ok := li.after[in]; ok {
				live = m
			} else if fr.idx < len(fr.block.Instrs) {
				if m, ok := li.after[fr.block.Instrs[fr.idx]]; ok { // RunDefers in progress
					live = m
				}
			}
			if live == nil {
				continue
			}
		}
		if !live[k.V] {
			delete(st.vals, k)
		}
	}
	if len(st.cells) == 0 {
		return
	}
	reach := map[string]bool{}
	var mark func(v AV)
	var queue []string
	mark = func(v AV) {
		if v.Addr != nil && !reach[v.Addr.Root] {
			reach[v.Addr.Root] = true
			queue = append(queue, v.Addr.Root)
		}
		if e.R.HeapCells && v.Sym != 0 {
			h := "h" + strconv.Itoa(v.Sym)
			if !reach[h] {
				reach[h] = true
				queue = append(queue, h)
			}
		}
		if v.Fn != nil {
			for _, x := range v.Fn.Bind {
				mark(x)
			}
		}
		for _, x := range v.Tup {
			mark(x)
		}
		for _, x := range v.Agg {
			mark(x)
		}
	}
	for _, v := range st.vals {
		mark(v)
	}
	for _, f := range st.frames {
		for _, d := range f.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	byRoot := map[string][]string{}
	for k := range st.cells {
		i := strings.IndexByte(k, '|')
		byRoot[k[:i]] = append(byRoot[k[:i]], k)
	}
	for len(queue) > 0 {
		r := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		for _, k := range byRoot[r] {
			mark(st.cells[k])
		}
	}
	for r, ks := range byRoot {
		if !reach[r] {
			for _, k := range ks {
				delete(st.cells, k)
			}
		}
	}
}

// enter moves the top frame to block b (from its current block) and executes
// its phis; it reports false if the resulting state was already explored.
func (e *Engine) enter(st *State, b *ssa.BasicBlock) bool {
	fr := st.top()
	fr.prev = fr.block
	fr.block = b
	fr.idx = 0
	pi := -1
	for i, p := range b.Preds {
		if p == fr.prev {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []AV
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(st, ph.Edges[pi]))
		fr.idx++
	}
	for i, ph := range phis {
		v := vals[i]
		own := e.sym(st.depth(), ph, "")
		if v.Sym == own {
			st.vals[VKey{st.depth(), ph}] = v
			continue
		}
		// a phi merges values: other holders of the phi's own identity go stale
		e.killSym(st, own, VKey{st.depth(), ph})
		if v.Sym == 0 {
			v.Sym = own
		}
		st.vals[VKey{st.depth(), ph}] = v
	}
	return e.checkpoint(st)
}

// hot counts states by frames when ZKCHECK_HOT is set (development aid).
var hot map[string]int

func init() {
	if os.Getenv("ZKCHECK_HOT") != "" {
		hot = map[string]int{}
	}
}

func dumpHot() {
	var k []string
	for f := range hot {
		k = append(k, f)
	}
	sort.Slice(k, func(i, j int) bool { return hot[k[i]] > hot[k[j]] })
	for i, f := range k {
		if i < 25 {
			fmt.Fprintf(os.Stderr, "  hot %d %s\n", hot[f], f)
		}
	}
}

func (e *Engine) checkpoint(st *State) bool {
	e.gc(st)
	k := e.key(st)
	if e.seen[k] {
		return false
	}
	e.seen[k] = true
	e.States++
	if hot != nil {
		fs := ""
		for _, f := range st.frames {
			fs += ">" + f.fn.Name()
		}
		hot[fs]++
	}
	if e.States > e.MaxStates {
		e.Overflow = true
		return false
	}
	return true
}

func (e *Engine) fork(st *State) { e.work = append(e.work, st) }

func (e *Engine) run(st *State) {
	for {
		if e.Overflow {
			return
		}
		fr := st.top()
		if fr.idx >= len(fr.block.Instrs) {
			return
		}
		in := fr.block.Instrs[fr.idx]
		if e.R.Pre != nil {
			e.R.Pre(e, st, in)
		}
		if !e.step(st, in) {
			return
		}
	}
}

// step executes one instruction; false ends this worklist item.
func (e *Engine) step(st *State, in ssa.Instruction) bool {
	fr := st.top()
	switch in := in.(type) {
	case *ssa.Phi:
		fr.idx++
		return true
	case *ssa.If:
		c := e.val(st, in.Cond)
		t, f := fr.block.Succs[0], fr.block.Succs[1]
		if c.nonzero() {
			return e.enter(st, t)
		}
		if c.is(Zero) {
			return e.enter(st, f)
		}
		o := st.clone()
		e.refine(o, c, Zero, "")
		e.refine(st, c, NonZero, "")
		if e.R.Branch != nil {
			e.R.Branch(e, o, in, false)
			e.R.Branch(e, st, in, true)
		}
		if e.enter(o, f) {
			e.fork(o)
		}
		return e.enter(st, t)
	case *ssa.Jump:
		return e.enter(st, fr.block.Succs[0])
	case *ssa.Return:
		return e.doReturn(st, in)
	case *ssa.Panic:
		if e.R.Exit != nil {
			st.Set("exit", "panic")
			e.R.Exit(e, st, nil, in)
		}
		return false
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.idx++
			return true
		}
		nd := make([]deferred, len(fr.defers)-1)
		d := fr.defers[len(fr.defers)-1]
		copy(nd, fr.defers)
		fr.defers = nd
		return e.doCall(st, d.call, d.fn, d.args, true)
	case *ssa.Defer:
		fn, args := e.callArgs(st, in)
		if len(fr.defers) < 8 {
			nd := make([]deferred, len(fr.defers), len(fr.defers)+1)
			copy(nd, fr.defers)
			// a defer in a loop: keep one instance
			dup := false
			for _, d := range nd {
				if d.call == in {
					dup = true
				}
			}
			if !dup {
				fr.defers = append(nd, deferred{call: in, args: args, fn: fn})
			}
		}
		fr.idx++
		return true
	case *ssa.Go:
		if e.R.OnGo != nil {
			fn, args := e.callArgs(st, in)
			c := &CallCtx{E: e, St: st, Instr: in, Args: args}
			e.resolve(c, fn, in.Common())
			e.R.OnGo(c)
		}
		fr.idx++
		return true
	case *ssa.Call:
		fn, args := e.callArgs(st, in)
		return e.doCall(st, in, fn, args, false)
	case *ssa.Store:
		a := e.addrOf(e.val(st, in.Addr))
		v := e.val(st, in.Val)
		if !a.Heap && !strings.HasPrefix(a.Root, "g:") {
			e.storeCell(st, a, v)
		} else if e.R.HeapCells && a.Heap && a.Root != "h0" {
			e.storeCell(st, a, v)
		}
		fr.idx++
		return true
	case *ssa.MapUpdate, *ssa.Send, *ssa.DebugRef:
		fr.idx++
		return true
	case *ssa.Select:
		return e.doSelect(st, in)
	case ssa.Value:
		return e.doValue(st, in)
	}
	fr.idx++
	return true
}

func (e *Engine) doSelect(st *State, in *ssa.Select) bool {
	fr := st.top()
	fr.idx++
	n := len(in.States)
	nrecv := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(s *State, i int) {
		t := AV{}
		idx := AV{K: Const, C: strconv.Itoa(i)}
		if i == 0 {
			idx = AV{K: Zero}
		}
		t.Tup = []AV{idx, {Sym: e.sym(s.depth(), in, "ok")}}
		for k := 0; k < nrecv; k++ {
			t.Tup = append(t.Tup, AV{Sym: e.sym(s.depth(), in, "r"+strconv.Itoa(k))})
		}
		e.define(s, in, t)
		if i >= 0 {
			s.Set("select", strconv.Itoa(i))
		} else {
			s.Set("select", "default")
		}
		if e.R.Post != nil {
			e.R.Post(e, s, in)
		}
		s.Set("select", "")
	}
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	for i := lo; i < n; i++ {
		s := st.clone()
		mk(s, i)
		e.fork(s)
	}
	return false
}

func (e *Engine) callArgs(st *State, in ssa.CallInstruction) (AV, []AV) {
	c := in.Common()
	var fn AV
	var args []AV
	fn = e.val(st, c.Value)
	if fn.Fn == nil && !c.IsInvoke() && c.StaticCallee() == nil {
		// the variable was set before the closure that calls it ran
		if g, bind := heldClosure(c); g != nil {
			v := &Closure{Fn: g}
			for _, b := range bind {
				v.Bind = append(v.Bind, e.sameVariable(st, in.Parent(), b))
			}
			fn.Fn = v
		}
	}
	if c.IsInvoke() {
		args = append(args, fn)
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return fn, args
}

// sameVariable: the address of a variable as the running function f, a
// closure that has it too, knows it.
func (e *Engine) sameVariable(st *State, f *ssa.Function, b ssa.Value) AV {
	al := variableOf(b)
	if al != nil {
		if al.Parent() == f {
			return e.val(st, al)
		}
		for _, fv := range f.FreeVars {
			if variableOf(fv) == al {
				return e.val(st, fv)
			}
		}
	}
	return AV{K: NonZero}
}

func (e *Engine) resolve(c *CallCtx, fn AV, cc *ssa.CallCommon) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.Name = "builtin:" + b.Name()
		return
	}
	if cc.IsInvoke() {
		c.Name = shorten(cc.Method.FullName())
		if fn.Dyn != nil {
			if m := e.P.SSA.LookupMethod(fn.Dyn, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.Callee = m
				c.Name = fnName(m)
			}
		}
		return
	}
	if f := cc.StaticCallee(); f != nil {
		c.Callee = f
		c.Name = fnName(f)
		return
	}
	if fn.Fn != nil {
		c.Callee = fn.Fn.Fn
		c.Name = fnName(fn.Fn.Fn)
	}
}

func staticName(ci ssa.CallInstruction) string {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	if cc.IsInvoke() {
		return shorten(cc.Method.FullName())
	}
	if f := cc.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"log.Panic": true, "log.Panicf": true, "runtime.Goexit": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true,
}

// stepped advances the top frame past the current instruction unless a
// RunDefers is in progress (which re-executes until its list is empty).
func (e *Engine) doCall(st *State, in ssa.CallInstruction, fn AV, args []AV, isDefer bool) bool {
	fr := st.top()
	c := &CallCtx{E: e, St: st, Instr: in, Args: args, InDefer: isDefer}
	e.resolve(c, fn, in.Common())
	if noReturn[c.Name] {
		if e.R.Exit != nil {
			st.Set("exit", "fatal")
			e.R.Exit(e, st, nil, in)
		}
		return false
	}
	if !isDefer {
		fr.idx++
	}
	if e.R.Call != nil {
		if outs := e.R.Call(c); outs != nil {
			for i, o := range outs {
				if o.Stop {
					continue
				}
				s := st
				if i < len(outs)-1 {
					s = st.clone()
				} else if i > 0 || len(outs) > 1 {
					s = st.clone()
				}
				e.setResult(s, in, isDefer, o.Res)
				if o.Do != nil {
					o.Do(s)
				}
				if len(outs) == 1 {
					return true
				}
				e.fork(s)
			}
			return false
		}
	}
	if c.Callee != nil && e.shouldInline(st, c.Callee) {
		e.push(st, in, c.Callee, fn, args, isDefer)
		return e.checkpoint(st)
	}
	e.opaque(st, c, isDefer)
	return true
}

func (e *Engine) setResult(st *State, in ssa.CallInstruction, isDefer bool, res []AV) {
	if isDefer {
		return
	}
	v := in.Value()
	if v == nil {
		return
	}
	n := 0
	tup, isTup := v.Type().(*types.Tuple)
	if isTup {
		n = tup.Len()
	}
	if !isTup {
		r := AV{}
		if len(res) > 0 {
			r = res[0]
		}
		e.define(st, v, r)
		return
	}
	t := AV{Tup: make([]AV, n)}
	own := e.sym(st.depth(), v, "")
	e.killSym(st, own, VKey{st.depth(), v})
	for i := 0; i < n; i++ {
		s := e.sym(st.depth(), v, "."+strconv.Itoa(i))
		e.killSym(st, s, VKey{})
		if i < len(res) {
			t.Tup[i] = res[i]
		}
		if t.Tup[i].Sym == 0 {
			t.Tup[i].Sym = s
		}
	}
	st.vals[VKey{st.depth(), v}] = t
}

const maxDepth = 14

func (e *Engine) shouldInline(st *State, f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(st.frames) >= maxDepth {
		if len(f.Blocks) != 0 && e.relevant[f] {
			e.OverflowDepth++
		}
		return false
	}
	for _, fr := range st.frames {
		if fr.fn == f {
			return false // recursion
		}
	}
	pkg := pkgOf(f)
	if pkg == nil || !isRepoPkg(pkg.Pkg) {
		return false
	}
	if e.R.NoInline != nil && e.R.NoInline(f) {
		return false
	}
	if e.R.InlineAll || e.relevant[f] {
		return true
	}
	return e.isSmall(f)
}

// takesFunc: f is given something to call.
func takesFunc(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// isSmall: a loop-free helper small enough to always be looked through, so
// that tests and conversions moved to a helper keep their meaning.
func (e *Engine) isSmall(f *ssa.Function) bool {
	if v, ok := e.small[f]; ok {
		return v == 1
	}
	e.small[f] = 0
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	ok := n <= 60 && len(f.Blocks) <= 16 && (f.Signature.Results().Len() > 0 || takesFunc(f))
	if ok {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Go, *ssa.Select:
					ok = false
				}
			}
		}
	}
	if ok {
		e.small[f] = 1
	}
	return ok
}

func (e *Engine) push(st *State, in ssa.CallInstruction, f *ssa.Function, fn AV, args []AV, isDefer bool) {
	fr := &Frame{fn: f, call: in, block: f.Blocks[0], isDefer: isDefer}
	st.frames = append(st.frames, fr)
	d := st.depth()
	for i, p := range f.Params {
		v := AV{}
		if i < len(args) {
			v = args[i]
		}
		own := e.sym(d, p, "")
		if v.Sym == 0 {
			e.killSym(st, own, VKey{})
			v.Sym = own
		}
		st.vals[VKey{d, p}] = v
	}
	var bind []AV
	if fn.Fn != nil {
		bind = fn.Fn.Bind
	}
	if f.Parent() != nil {
		e.entered[f] = true
	}
	for i, p := range f.FreeVars {
		v := AV{K: NonZero}
		if i < len(bind) {
			v = bind[i]
		}
		if v.Sym == 0 {
			own := e.sym(d, p, "")
			e.killSym(st, own, VKey{})
			v.Sym = own
		}
		st.vals[VKey{d, p}] = v
	}
}

func (e *Engine) doReturn(st *State, in *ssa.Return) bool {
	var res []AV
	for _, r := range in.Results {
		res = append(res, e.val(st, r))
	}
	fr := st.top()
	if len(st.frames) == 1 {
		if e.R.Exit != nil {
			e.R.Exit(e, st, res, in)
		}
		return false
	}
	d := st.depth()
	// Rename identities and roots created in the callee.
	call := fr.call
	isDefer := fr.isDefer
	if !isDefer && call.Value() != nil {
		v := call.Value()
		roots := map[string]bool{}
		var collect func(x AV)
		collect = func(x AV) {
			if x.Addr != nil && strings.HasPrefix(x.Addr.Root, "a"+strconv.Itoa(d)+":") {
				roots[x.Addr.Root] = true
			}
			for _, y := range x.Agg {
				collect(y)
			}
		}
		for _, r := range res {
			collect(r)
		}
		// put results in a temporary so the renames reach them
		st.vals[VKey{d, v}] = AV{Tup: res}
		rs := make([]string, 0, len(roots))
		for r := range roots {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		for _, r := range rs {
			e.renameRoot(st, r, fmt.Sprintf("a%d:%d%s", d-1, e.P.id(v), "r"+r))
		}
		res = st.vals[VKey{d, v}].Tup
		delete(st.vals, VKey{d, v})
		single := len(res) == 1
		for i := range res {
			s := res[i].Sym
			if s == 0 {
				continue
			}
			if e.ownedBy(st, s, d) {
				extra := "." + strconv.Itoa(i)
				if single {
					extra = ""
				}
				t := e.sym(d-1, v, extra)
				if t == s {
					continue
				}
				st.vals[VKey{d, v}] = AV{Tup: res}
				e.killSym(st, t, VKey{})
				e.renameSym(st, s, t)
				res = st.vals[VKey{d, v}].Tup
				delete(st.vals, VKey{d, v})
			}
		}
	}
	for k := range st.vals {
		if k.D == d {
			delete(st.vals, k)
		}
	}
	st.frames = st.frames[:d]
	if !isDefer && call.Value() != nil {
		v := call.Value()
		if _, isTup := v.Type().(*types.Tuple); isTup {
			st.vals[VKey{d - 1, v}] = AV{Tup: res}
		} else {
			r := AV{}
			if len(res) > 0 {
				r = res[0]
			}
			if r.Sym == 0 {
				r.Sym = e.sym(d-1, v, "")
			}
			st.vals[VKey{d - 1, v}] = r
		}
	}
	return true
}

// ownedBy: no live holder of the identity outside the callee frame.
func (e *Engine) ownedBy(st *State, s, d int) bool {
	for k, v := range st.vals {
		if k.D < d && usesSym(v, s) {
			return false
		}
	}
	return true
}

func (e *Engine) opaque(st *State, c *CallCtx, isDefer bool) {
	in := c.Instr
	// havoc memory reachable from pointer arguments
	l := ""
	for _, a := range c.Args {
		l = labJoin(l, e.deepLab(st, a))
	}
	repo := false
	if c.Callee != nil {
		if p := pkgOf(c.Callee); p != nil && isRepoPkg(p.Pkg) {
			repo = true
		}
	}
	if c.Name == "builtin:len" || c.Name == "builtin:cap" {
		e.builtinLen(st, c)
		return
	}
	if c.Name == "builtin:append" {
		r := AV{K: NonZero, Lab: l}
		if c.Args[0].is(Unk) || c.Args[0].is(Zero) {
			if len(c.Args) > 1 && !c.Args[1].nonzero() {
				r.K = Unk
			}
		}
		e.setResult(st, in, isDefer, []AV{r})
		return
	}
	if c.Name == "builtin:copy" {
		e.havoc(st, c.Args[0].Addr, l)
		e.setResult(st, in, isDefer, []AV{{}})
		return
	}
	ro := readOnlyCalls[c.Name]
	if !ro {
		for _, a := range c.Args {
			e.havocDeep(st, a, l, map[string]bool{})
		}
	}
	var sig *types.Signature
	sig, _ = in.Common().Value.Type().Underlying().(*types.Signature)
	if in.Common().IsInvoke() {
		sig = in.Common().Method.Type().(*types.Signature)
	}
	var res []AV
	if sig != nil {
		for i := 0; i < sig.Results().Len(); i++ {
			r := AV{}
			t := sig.Results().At(i).Type()
			if !repo && !isErr(t) {
				r.Lab = l
			}
			if isErr(t) && (c.Name == "errors.New" || c.Name == "fmt.Errorf") {
				r.K = NonZero
			}
			res = append(res, r)
		}
	}
	if c.Name == "(error).Error" || c.Name == "errors.New" || c.Name == "fmt.Errorf" {
		if len(res) == 1 {
			res[0].K = NonZero
		}
	}
	e.setResult(st, in, isDefer, res)
}

var readOnlyCalls = map[string]bool{
	"bytes.Equal": true, "crypto/hmac.Equal": true, "(error).Error": true,
	"fmt.Errorf": true, "errors.New": true, "fmt.Sprintf": true,
	"encoding/hex.EncodeToString": true, "strings.HasPrefix": true,
}

func (e *Engine) deepLab(st *State, a AV) string {
	l := a.Lab
	if a.Addr != nil && !a.Addr.Heap {
		v := e.loadCell(st, a.Addr)
		l = labJoin(l, v.Lab)
		for _, x := range v.Agg {
			l = labJoin(l, x.Lab)
			if x.Addr != nil && x.Addr.Root != a.Addr.Root && !x.Addr.Heap {
				y := e.loadCell(st, x.Addr)
				l = labJoin(l, y.Lab)
			}
		}
	}
	for _, x := range a.Agg {
		l = labJoin(l, x.Lab)
	}
	return l
}

func (e *Engine) havocDeep(st *State, a AV, l string, done map[string]bool) {
	if a.Addr != nil && !a.Addr.Heap && !done[a.Addr.key()] {
		done[a.Addr.key()] = true
		v := e.loadCell(st, a.Addr)
		// varargs arrays and interfaces holding pointers
		e.havocDeep(st, AV{Addr: v.Addr, Agg: v.Agg, Fn: v.Fn}, l, done)
		e.havoc(st, a.Addr, l)
	}
	if a.Fn != nil {
		for _, x := range a.Fn.Bind {
			e.havocDeep(st, x, "", done)
		}
	}
	for _, x := range a.Agg {
		e.havocDeep(st, x, l, done)
	}
}

func isErr(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func (e *Engine) builtinLen(st *State, c *CallCtx) {
	a := c.Args[0]
	r := AV{Lab: a.Lab}
	if a.is(Zero) {
		r.K = Zero
	}
	if a.Expr != "" && strings.HasPrefix(a.Expr, "mk(") {
		r.Expr = strings.TrimSuffix(strings.TrimPrefix(a.Expr, "mk("), ")")
		if n, err := strconv.ParseInt(r.Expr, 10, 64); err == nil {
			if n == 0 {
				r = AV{K: Zero, Lab: a.Lab}
			} else {
				r = AV{K: Const, C: r.Expr, Lab: a.Lab}
			}
		}
	} else if strings.HasPrefix(a.Expr, "ln(") {
		r.Expr = ""
		r.K, r.C = Const, strings.TrimSuffix(a.Expr[3:], ")")
	} else if a.Sym != 0 {
		r.Expr = "len(#" + strconv.Itoa(a.Sym) + ")"
	}
	e.setResult(st, c.Instr, false, []AV{r})
}

// sliceLen is the offset and length of a slice with constant bounds.
func (e *Engine) sliceLen(st *State, in *ssa.Slice, x AV) (lo, n int64, ok bool) {
	hi := int64(-1)
	if in.Low != nil {
		if lo, ok = intOf(e.val(st, in.Low)); !ok {
			return
		}
	}
	if in.High != nil {
		if hi, ok = intOf(e.val(st, in.High)); !ok {
			return
		}
	} else if at, isArr := deref(in.X.Type()).Underlying().(*types.Array); isArr {
		hi = at.Len()
	} else if strings.HasPrefix(x.Expr, "mk(") || strings.HasPrefix(x.Expr, "ln(") {
		m, err := strconv.ParseInt(strings.TrimSuffix(x.Expr[3:], ")"), 10, 64)
		if err != nil {
			return 0, 0, false
		}
		hi = m
	}
	return lo, hi - lo, hi >= lo
}

func (e *Engine) doValue(st *State, in ssa.Value) bool {
	fr := st.top()
	fr.idx++
	instr := in.(ssa.Instruction)
	d := st.depth()
	done := func(a AV) bool {
		e.define(st, in, a)
		if e.R.Post != nil {
			e.R.Post(e, st, instr)
		}
		return true
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		root := fmt.Sprintf("a%d:%d", d, e.P.id(in))
		e.killRoot(st, root)
		a := &Addr{Root: root}
		st.cells[a.key()] = AV{K: Zero}
		return done(AV{K: NonZero, Addr: a})
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Bind = append(c.Bind, e.val(st, b))
		}
		return done(AV{K: NonZero, Fn: c})
	case *ssa.MakeInterface:
		v := e.val(st, in.X)
		v.Dyn = in.X.Type()
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr || v.K == Unk || v.K == Zero {
			v.K = NonZero
		}
		// an interface holding a value is a new identity: its nilness is not
		// that of the value
		v.Sym = e.sym(d, in, "")
		return done(v)
	case *ssa.MakeMap, *ssa.MakeChan:
		return done(AV{K: NonZero})
	case *ssa.MakeSlice:
		v := e.val(st, in.Len)
		r := AV{K: NonZero}
		if n, ok := intOf(v); ok {
			r.Expr = "mk(" + strconv.FormatInt(n, 10) + ")"
		} else if v.Expr != "" && !strings.HasPrefix(v.Expr, "mk(") {
			r.Expr = "mk(" + v.Expr + ")"
		} else if v.Sym != 0 {
			r.Expr = "mk(#" + strconv.Itoa(v.Sym) + ")"
		}
		return done(r)
	case *ssa.ChangeType:
		return done(e.val(st, in.X))
	case *ssa.ChangeInterface:
		return done(e.val(st, in.X))
	case *ssa.Convert:
		v := e.val(st, in.X)
		v.Agg, v.Dyn = nil, nil
		if !safeConv(in.X.Type(), in.Type()) {
			v.Sym = 0
			if v.Expr != "" && isInt(in.X.Type()) {
				v.Expr = ""
			}
			if v.K == Zero && !isInt(in.X.Type()) {
				v.K = Unk
			}
			v.Addr = nil
		}
		return done(v)
	case *ssa.SliceToArrayPointer:
		return done(e.val(st, in.X))
	case *ssa.MultiConvert:
		return done(AV{Lab: e.val(st, in.X).Lab})
	case *ssa.FieldAddr:
		x := e.val(st, in.X)
		st0 := deref(in.X.Type()).Underlying().(*types.Struct)
		f := st0.Field(in.Field)
		b := e.addrOf(x)
		a := &Addr{Root: b.Root, Path: b.Path + "." + f.Name(), Heap: b.Heap, Base: b.Base}
		a.Fields = append(append([]*types.Var{}, b.Fields...), f)
		a.Owner = typeName(deref(in.X.Type()))
		return done(AV{K: NonZero, Addr: a})
	case *ssa.Field:
		x := e.val(st, in.X)
		s := in.X.Type().Underlying().(*types.Struct)
		f := s.Field(in.Field)
		return done(e.selectAgg(st, x, "."+f.Name(), f, in, typeName(in.X.Type())))
	case *ssa.IndexAddr:
		x := e.val(st, in.X)
		i := e.val(st, in.Index)
		b := e.addrOf(x)
		p := "[*]"
		if n, ok := intOf(i); ok && (isArrayPtr(in.X.Type()) || e.R.FoldInts > 0 && strings.HasPrefix(x.Expr, "mk(") && !b.Heap && !strings.HasSuffix(b.Path, "]")) {
			p = "[" + strconv.FormatInt(n, 10) + "]"
		}
		a := &Addr{Root: b.Root, Path: b.Path + p, Heap: b.Heap, Base: b.Base, Fields: b.Fields, Owner: b.Owner}
		return done(AV{K: NonZero, Addr: a, Lab: x.Lab})
	case *ssa.Index:
		x := e.val(st, in.X)
		return done(AV{Lab: x.Lab})
	case *ssa.Lookup:
		x := e.val(st, in.X)
		if e.R.Lookup != nil {
			if outs := e.R.Lookup(e, st, in, x, e.val(st, in.Index)); outs != nil {
				for _, o := range outs {
					s := st.clone()
					if in.CommaOk {
						t := AV{Tup: append([]AV{}, o.Res...)}
						for i := range t.Tup {
							t.Tup[i].Sym = e.sym(d, in, "."+strconv.Itoa(i))
							e.killSym(s, t.Tup[i].Sym, VKey{})
						}
						e.define(s, in, t)
					} else {
						e.define(s, in, o.Res[0])
					}
					if o.Do != nil {
						o.Do(s)
					}
					if e.R.Post != nil {
						e.R.Post(e, s, instr)
					}
					e.fork(s)
				}
				return false
			}
		}
		if in.CommaOk {
			t := AV{Tup: []AV{{Lab: x.Lab, Sym: e.sym(d, in, ".0")}, {Sym: e.sym(d, in, ".1")}}}
			e.killSym(st, t.Tup[0].Sym, VKey{})
			e.killSym(st, t.Tup[1].Sym, VKey{})
			return done(t)
		}
		return done(AV{Lab: x.Lab})
	case *ssa.Slice:
		x := e.val(st, in.X)
		full := in.Low == nil && in.High == nil && in.Max == nil
		r := AV{Lab: x.Lab, Addr: x.Addr}
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			r.K = NonZero
			r.Lab = labJoin(r.Lab, "")
			if full {
				if at, ok := deref(in.X.Type()).Underlying().(*types.Array); ok {
					r.Expr = "mk(" + strconv.FormatInt(at.Len(), 10) + ")"
				}
			}
		} else if full {
			r = x
		}
		if !full && e.R.FoldInts > 0 {
			if lo, n, ok := e.sliceLen(st, in, x); ok {
				r.K = NonZero
				if n <= 0 {
					// nothing to index
				} else if lo == 0 {
					r.Expr = "mk(" + strconv.FormatInt(n, 10) + ")"
				} else {
					r.Expr = "ln(" + strconv.FormatInt(n, 10) + ")"
				}
			}
		}
		if !full && r.Addr != nil {
			a := *r.Addr
			if !strings.HasSuffix(a.Path, "[*]") {
				// a part of it
				r.Addr = &a
			}
		}
		if r.Addr == nil && x.Sym != 0 && x.Addr == nil {
			// alias of the heap array
			r.Addr = &Addr{Root: "h" + strconv.Itoa(x.Sym), Heap: true, Base: x.Lab}
		}
		if l := e.R.PartLab; l != "" && !wholeSlice(in) {
			r.Lab = labJoin(r.Lab, lab(l))
		}
		return done(r)
	case *ssa.TypeAssert:
		x := e.val(st, in.X)
		v := x
		res := Unk
		if x.Dyn != nil {
			if types.IsInterface(in.AssertedType) {
				if types.Implements(x.Dyn, in.AssertedType.Underlying().(*types.Interface)) {
					res = NonZero
				} else {
					res = Zero
				}
			} else if types.Identical(x.Dyn, in.AssertedType) {
				res = NonZero
			} else {
				res = Zero
			}
		}
		if !types.IsInterface(in.AssertedType) {
			v.Dyn = nil
			if x.Dyn == nil {
				v = AV{Lab: x.Lab}
			}
			v.Sym = 0
			if _, isPtr := in.AssertedType.Underlying().(*types.Pointer); !isPtr {
				v.K = Unk
			}
		}
		if !in.CommaOk {
			return done(v)
		}
		if v.Sym == 0 {
			v.Sym = e.sym(d, in, ".0")
			e.killSym(st, v.Sym, VKey{})
		}
		ok := AV{K: res, Sym: e.sym(d, in, ".1")}
		e.killSym(st, ok.Sym, VKey{})
		if res == Zero {
			v = AV{K: Zero}
		}
		return done(AV{Tup: []AV{v, ok}})
	case *ssa.Extract:
		t := e.val(st, in.Tuple)
		if in.Index < len(t.Tup) {
			v := t.Tup[in.Index]
			if v.Sym == 0 {
				return done(v)
			}
			st.vals[VKey{d, in}] = v
			if e.R.Post != nil {
				e.R.Post(e, st, instr)
			}
			return true
		}
		return done(AV{Lab: t.Lab})
	case *ssa.Range:
		return done(AV{K: NonZero, Lab: e.val(st, in.X).Lab})
	case *ssa.Next:
		x := e.val(st, in.Iter)
		t := AV{Tup: []AV{{Sym: e.sym(d, in, ".0")}, {Lab: x.Lab, Sym: e.sym(d, in, ".1")}, {Lab: x.Lab, Sym: e.sym(d, in, ".2")}}}
		for _, y := range t.Tup {
			e.killSym(st, y.Sym, VKey{})
		}
		return done(t)
	case *ssa.UnOp:
		x := e.val(st, in.X)
		switch in.Op {
		case token.MUL:
			a := e.addrOf(x)
			v := e.read(st, a, in)
			if strings.HasPrefix(a.Root, "g:") && isErr(in.Type()) {
				v.K = NonZero
				v.Lab = lab("errvar:" + a.Root[2:])
			}
			if v.Sym == 0 && !a.Heap && !strings.HasPrefix(a.Root, "g:") && v.Tup == nil {
				// give the cell an identity shared with this load
				r := v
				e.define(st, in, r)
				if cv, ok := st.cells[a.key()]; ok && cv.Sym == 0 {
					cv.Sym = st.vals[VKey{d, in}].Sym
					st.cells[a.key()] = cv
				}
				if e.R.Post != nil {
					e.R.Post(e, st, instr)
				}
				return true
			}
			return done(v)
		case token.NOT:
			switch x.K {
			case Zero:
				return done(AV{K: NonZero})
			case NonZero:
				return done(AV{K: Zero})
			}
			o := st.clone()
			e.refine(o, x, Zero, "")
			e.define(o, in, AV{K: NonZero})
			e.refine(st, x, NonZero, "")
			e.define(st, in, AV{K: Zero})
			if e.R.Post != nil {
				e.R.Post(e, o, instr)
				e.R.Post(e, st, instr)
			}
			e.fork(o)
			return true
		case token.ARROW:
			if in.CommaOk {
				t := AV{Tup: []AV{{Sym: e.sym(d, in, ".0")}, {Sym: e.sym(d, in, ".1")}}}
				e.killSym(st, t.Tup[0].Sym, VKey{})
				e.killSym(st, t.Tup[1].Sym, VKey{})
				return done(t)
			}
			return done(AV{})
		}
		return done(AV{Lab: x.Lab})
	case *ssa.BinOp:
		return e.doBinOp(st, in)
	}
	return done(AV{})
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// safeConv: the conversion keeps the numeric or string value for every value
// that matters (widening, or string/[]byte).
func safeConv(from, to types.Type) bool {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	if fb.Info()&types.IsInteger == 0 || tb.Info()&types.IsInteger == 0 {
		return fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0
	}
	size := func(b *types.Basic) (int, bool) {
		switch b.Kind() {
		case types.Int8:
			return 8, true
		case types.Int16:
			return 16, true
		case types.Int32:
			return 32, true
		case types.Int64, types.Int:
			return 64, true
		case types.Uint8:
			return 8, false
		case types.Uint16:
			return 16, false
		case types.Uint32:
			return 32, false
		case types.Uint64, types.Uint, types.Uintptr:
			return 64, false
		case types.UntypedInt, types.UntypedRune:
			return 64, true
		}
		return 64, true
	}
	fs, fsg := size(fb)
	ts, tsg := size(tb)
	if fsg == tsg {
		return ts >= fs
	}
	if !fsg && tsg {
		return ts > fs
	}
	return false
}

// intBits is the width of an unsigned integer type, 64 when not known.
func intBits(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 8
		case types.Uint16:
			return 16
		case types.Uint32:
			return 32
		}
	}
	return 64
}

// typeName is the short name of a named type ("rpc.Push"), "" otherwise.
func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return shorten(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
}

func (e *Engine) selectAgg(st *State, x AV, p string, f *types.Var, in ssa.Instruction, owner string) AV {
	v := AV{Lab: x.Lab}
	if x.K == Zero {
		v.K = Zero
	}
	if x.Agg != nil {
		if y, ok := x.Agg[p]; ok {
			v = y
		}
		var sub map[string]AV
		for q, y := range x.Agg {
			if len(q) > len(p) && strings.HasPrefix(q, p) && (q[len(p)] == '.' || q[len(p)] == '[') {
				if sub == nil {
					sub = map[string]AV{}
				}
				sub[q[len(p):]] = y
			}
		}
		if sub != nil {
			v.Agg = sub
		}
	}
	if e.R.FieldLab != nil {
		if l := e.R.FieldLab(owner, f, v); l != "" {
			v.Lab = labJoin(v.Lab, lab(l))
		}
	}
	if e.R.Load != nil {
		v = e.R.Load(e, st, &Addr{Root: "v", Heap: true, Path: p, Fields: []*types.Var{f}, Owner: owner, Base: x.Lab}, v, in)
	}
	return v
}

func (e *Engine) doBinOp(st *State, in *ssa.BinOp) bool {
	x, y := e.val(st, in.X), e.val(st, in.Y)
	post := func(s *State) {
		if e.R.Post != nil {
			e.R.Post(e, s, in)
		}
	}
	cmp := false
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		cmp = true
	}
	if !cmp {
		r := AV{Lab: labJoin(x.Lab, y.Lab)}
		if r.Lab != "" && isInt(in.Type()) {
			r.Lab = labJoin(r.Lab, lab("arith"))
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.nonzero() || y.nonzero() {
				r.K = NonZero
			} else if x.is(Zero) && y.is(Zero) {
				r.K = Zero
			}
			for _, z := range []AV{x, y} {
				if z.K == Const {
					if q, err := strconv.Unquote(z.C); err == nil && !strings.Contains(q, ",") {
						r.Lab = labJoin(r.Lab, lab("s:"+q))
					}
				}
			}
		}
		r.Expr = e.exprOf(in.Op, x, y)
		if e.R.FoldInts > 0 && isInt(in.Type()) {
			xi, ok1 := intOf(x)
			yi, ok2 := intOf(y)
			if ok1 && ok2 {
				var n int64
				ok := true
				switch in.Op {
				case token.ADD:
					n = xi + yi
				case token.SUB:
					n = xi - yi
				case token.MUL:
					n = xi * yi
				case token.QUO:
					if ok = yi != 0; ok {
						n = xi / yi
					}
				default:
					ok = false
				}
				if ok && n >= -1 && n <= e.R.FoldInts {
					r = AV{K: Const, C: strconv.FormatInt(n, 10), Lab: r.Lab}
					if n == 0 {
						r = AV{K: Zero, Lab: r.Lab}
					}
				}
			}
		}
		if in.Op == token.SHR {
			// every bit is shifted out
			if n, ok := intOf(y); ok && n >= intBits(in.Type()) {
				r = AV{K: Zero}
			}
		}
		e.define(st, in, r)
		post(st)
		return true
	}
	if e.R.Cmp != nil {
		if outs := e.R.Cmp(&CmpCtx{E: e, St: st, In: in, Op: in.Op, X: x, Y: y}); outs != nil {
			for _, o := range outs {
				s := st.clone()
				r := AV{}
				if len(o.Res) > 0 {
					r = o.Res[0]
				}
				e.refineCmp(s, in.Op, x, y, r)
				e.define(s, in, r)
				if o.Do != nil {
					o.Do(s)
				}
				post(s)
				e.fork(s)
			}
			return false
		}
	}
	// decidable?
	if r, ok := evalCmp(in.Op, x, y); ok {
		v := AV{K: Zero}
		if r {
			v.K = NonZero
		}
		e.define(st, in, v)
		post(st)
		return true
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		if x.is(Zero) || x.is(Const) || y.is(Zero) || y.is(Const) {
			o := st.clone()
			t, f := AV{K: NonZero}, AV{K: Zero}
			e.refineCmp(st, in.Op, x, y, t)
			e.define(st, in, t)
			post(st)
			e.refineCmp(o, in.Op, x, y, f)
			e.define(o, in, f)
			post(o)
			e.fork(o)
			return true
		}
	}
	e.define(st, in, AV{})
	post(st)
	return true
}

func (e *Engine) exprOf(op token.Token, x, y AV) string {
	max := 60
	if e.R.MaxExpr > 0 {
		max = e.R.MaxExpr
	}
	tx, ty := term(x), term(y)
	if tx == "" || ty == "" || len(tx)+len(ty) > max {
		return ""
	}
	return "(" + tx + op.String() + ty + ")"
}

// term is the structural name of a value, "" if it has none.
func term(v AV) string {
	if n, ok := intOf(v); ok {
		return strconv.FormatInt(n, 10)
	}
	if v.Expr != "" && !strings.HasPrefix(v.Expr, "mk(") {
		return v.Expr
	}
	if v.Sym != 0 {
		return "#" + strconv.Itoa(v.Sym)
	}
	return ""
}

func (e *Engine) refineCmp(st *State, op token.Token, x, y AV, r AV) {
	eq := (op == token.EQL && r.nonzero()) || (op == token.NEQ && r.is(Zero))
	ne := (op == token.EQL && r.is(Zero)) || (op == token.NEQ && r.nonzero())
	if x.is(Zero) || x.is(Const) {
		x, y = y, x
	}
	if eq {
		switch y.K {
		case Zero:
			e.refine(st, x, Zero, "")
		case Const:
			e.refine(st, x, Const, y.C)
		case NonZero:
			if x.is(Unk) {
				e.refine(st, x, NonZero, "")
			}
		}
	}
	if ne && y.is(Zero) {
		e.refine(st, x, NonZero, "")
	}
}

func evalCmp(op token.Token, x, y AV) (bool, bool) {
	if x.K == Unk || y.K == Unk {
		if x.Sym != 0 && x.Sym == y.Sym {
			switch op {
			case token.EQL, token.LEQ, token.GEQ:
				return true, true
			case token.NEQ, token.LSS, token.GTR:
				return false, true
			}
		}
		return false, false
	}
	xi, xo := intOf(x)
	yi, yo := intOf(y)
	switch op {
	case token.EQL, token.NEQ:
		var eq, known bool
		switch {
		case x.K == Zero && y.K == Zero:
			eq, known = true, true
		case x.K == Zero && y.nonzero(), y.K == Zero && x.nonzero():
			eq, known = false, true
		case x.K == Const && y.K == Const:
			eq, known = x.C == y.C, true
		}
		if !known {
			return false, false
		}
		if op == token.NEQ {
			eq = !eq
		}
		return eq, true
	}
	if xo && yo {
		switch op {
		case token.LSS:
			return xi < yi, true
		case token.LEQ:
			return xi <= yi, true
		case token.GTR:
			return xi > yi, true
		case token.GEQ:
			return xi >= yi, true
		}
	}
	return false, false
}

// wholeSlice: the slice expression leaves nothing of its operand out, or is
// empty (s[:0], s[:0:0]).
func wholeSlice(in *ssa.Slice) bool {
	isInt := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == n
	}
	if in.High != nil && isInt(in.High, 0) {
		return true
	}
	if in.Low != nil && !isInt(in.Low, 0) {
		return false
	}
	if in.High == nil {
		return true
	}
	t := in.X.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if at, ok := t.Underlying().(*types.Array); ok && isInt(in.High, at.Len()) {
		return true
	}
	if l, ok := in.High.(*ssa.Call); ok {
		if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return l.Call.Args[0] == in.X
		}
	}
	return false
}
