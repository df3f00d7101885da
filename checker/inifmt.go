package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", func(c *Ctx) {
		c.Rule("a record enters a table only after its key was found not to be empty, to hold no line break and no equals sign, to be trimmed and not to start a comment, and its value to hold no line break and to be trimmed; a table only under a name that is trimmed and holds neither line break nor equals sign")
		c.Rule("the records of the default table are written before the header of any other; every table and every record is written")
		c.Rule("what a record is looked up by is what it is kept by: table and key are not changed on the way")
		c.iniRecords()
		c.iniWritten()
		c.Need("record set", 1)
		c.Need("table made", 1)
	})
}

func isSection(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Section" && strings.HasSuffix(n.Obj().Pkg().Path(), "go-ini")
}

func isIniFile(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "File" && strings.HasSuffix(n.Obj().Pkg().Path(), "go-ini")
}

const fnSection = "(github.com/vaughan0/go-ini.File).Section"

func (c *Ctx) iniRecords() {
	r := &Rule{ID: "records"}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if !inPkg(in.Parent(), "inidb") {
			return false
		}
		if u, ok := in.(*ssa.MapUpdate); ok {
			return isSection(u.Map.Type()) || isIniFile(u.Map.Type())
		}
		ci, ok := in.(ssa.CallInstruction)
		return ok && staticName(ci) == fnSection
	}
	id := func(v AV) string {
		if v.Expr != "" {
			return v.Expr
		}
		return strconv.Itoa(v.Sym)
	}
	no := func(s *State, q, chars string) {
		for _, ch := range []byte(chars) {
			s.Set("no:"+q+":"+strconv.Itoa(int(ch)), "1")
		}
	}
	first := func(s *State, q string, ch string) {
		if len(ch) == 1 {
			s.Set("first:"+q+":"+strconv.Itoa(int(ch[0])), "1")
		}
	}
	r.Call = func(x *CallCtx) []Out {
		str := func(i int) (string, bool) {
			return avString(x.Args[i])
		}
		switch x.Name {
		case "strings.Contains", "strings.ContainsAny":
			if k, ok := str(1); ok && (len(k) == 1 || x.Name == "strings.ContainsAny") {
				q := id(x.Args[0])
				return boolFork(x, x.Name, nil, func(s *State) { no(s, q, k) })
			}
		case "strings.ContainsRune", "strings.IndexByte", "strings.IndexRune", "bytes.IndexByte":
			if k, ok := intOf(x.Args[1]); ok && k < 128 {
				q := id(x.Args[0])
				if x.Name == "strings.ContainsRune" {
					return boolFork(x, x.Name, nil, func(s *State) { no(s, q, string(rune(k))) })
				}
				return []Out{{Res: []AV{avInt(-1)}, Do: func(s *State) { no(s, q, string(rune(k))) }}, {Res: []AV{{Lab: lab("index")}}}}
			}
		case "strings.Index", "strings.IndexAny":
			if k, ok := str(1); ok && (len(k) == 1 || x.Name == "strings.IndexAny") {
				q := id(x.Args[0])
				return []Out{{Res: []AV{avInt(-1)}, Do: func(s *State) { no(s, q, k) }}, {Res: []AV{{Lab: lab("index")}}}}
			}
		case "strings.HasPrefix":
			if k, ok := str(1); ok {
				q := id(x.Args[0])
				return boolFork(x, x.Name, nil, func(s *State) { first(s, q, k) })
			}
		case "strings.TrimSpace":
			return []Out{{Res: []AV{{Lab: lab("trim:" + id(x.Args[0]))}}}}
		case fnSection:
			c.tableMade(x.E, x.St, x.Instr, x.Args[1], id)
			return []Out{{Res: []AV{{K: NonZero}}}}
		}
		return stdCall(x)
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		var x, k ssa.Value
		switch in := in.(type) {
		case *ssa.Index:
			x, k = in.X, in.Index
		case *ssa.Lookup:
			if !isString(in.X.Type()) {
				return
			}
			x, k = in.X, in.Index
		default:
			return
		}
		if n, ok := intOf(e.val(st, k)); ok && n == 0 && isString(x.Type()) {
			e.define(st, in.(ssa.Value), AV{Lab: lab("first:" + id(e.val(st, x)))})
		}
	}
	r.Cmp = func(x *CmpCtx) []Out {
		for i, p := range [][2]AV{{x.X, x.Y}, {x.Y, x.X}} {
			// the index of what was found is not negative
			if k, ok := intOf(p[1]); ok && p[0].has("index") {
				op := x.Op
				if i == 1 {
					op = flip(op)
				}
				switch {
				case k == 0 && op == token.GEQ, k == -1 && (op == token.GTR || op == token.NEQ):
					return []Out{{Res: []AV{avTrue}}}
				case k == 0 && op == token.LSS, k == -1 && (op == token.LEQ || op == token.EQL):
					return []Out{{Res: []AV{avFalse}}}
				}
			}
			if qs := labAfter(p[0].Lab, "trim:"); len(qs) == 1 && qs[0] == id(p[1]) {
				return cmpFork(x, func(s *State, op token.Token) {
					if op == token.EQL {
						s.Set("trim:"+qs[0], "1")
					}
				})
			}
			if qs := labAfter(p[0].Lab, "first:"); len(qs) == 1 {
				if k, ok := intOf(p[1]); ok {
					return cmpFork(x, func(s *State, op token.Token) {
						if op == token.NEQ {
							first(s, qs[0], string(rune(k)))
						}
					})
				}
			}
		}
		return nil
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		u, ok := in.(*ssa.MapUpdate)
		if !ok || !r.Event(c.P, in) {
			return
		}
		k := e.val(st, u.Key)
		if isIniFile(u.Map.Type()) {
			c.tableMade(e, st, in, k, id)
			return
		}
		w := fnName(in.Parent())
		e.Count("record set", w)
		v := e.val(st, u.Value)
		q := id(k)
		switch {
		case !fits(st, q, k, "\n="):
			e.Violation(st, "key/"+w, in, "a record is set under a key that may hold a line break, an equals sign or blanks around it: it is read back as another")
		case st.Get("first:"+q+":59") == "" || st.Get("first:"+q+":35") == "" || !k.nonzero() && st.Get("nonempty:"+q) == "":
			e.Violation(st, "comment/"+w, in, "a record is set under a key that may be empty or start a comment: it is not read back")
		case !fits(st, id(v), v, "\n"):
			e.Violation(st, "value/"+w, in, "a record is set to a value that may hold a line break or blanks around it: it is read back as another, or another record with it")
		}
	}
	c.Explore(r, nil, nil, "inidb")
}

func fits(st *State, q string, v AV, chars string) bool {
	if s, ok := avString(v); ok {
		return strings.TrimSpace(s) == s && !strings.ContainsAny(s, chars)
	}
	for _, ch := range []byte(chars) {
		if st.Get("no:"+q+":"+strconv.Itoa(int(ch))) == "" {
			return false
		}
	}
	return st.Get("trim:"+q) != ""
}

func (c *Ctx) tableMade(e *Engine, st *State, in ssa.Instruction, k AV, id func(AV) string) {
	w := fnName(in.Parent())
	e.Count("table made", w)
	if !fits(st, id(k), k, "\n=") {
		e.Violation(st, "table/"+w, in, "a table is made under a name that may hold a line break, an equals sign or blanks around it: its records are read back in another")
	}
}

func avString(v AV) (string, bool) {
	if v.K == Zero {
		return "", true
	}
	if v.K != Const {
		return "", false
	}
	s, err := strconv.Unquote(v.C)
	return s, err == nil
}

func avInt(n int64) AV {
	if n == 0 {
		return AV{K: Zero}
	}
	return AV{K: Const, C: strconv.FormatInt(n, 10)}
}

// iniWritten: the file is written so that it reads back as it was.
func (c *Ctx) iniWritten() {
	for _, f := range c.P.Funcs {
		if !inPkg(f, "inidb") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				rg, ok := in.(*ssa.Range)
				if !ok || !isIniFile(rg.X.Type()) && !isSection(rg.X.Type()) {
					continue
				}
				c.rangeWritten(f, rg)
			}
		}
	}
}

// writesTo: the call writes text; whether the text is of the values.
func writes(in ssa.Instruction) (ssa.CallInstruction, bool) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	n := callNames(ci)
	switch {
	case strings.HasPrefix(n, "fmt.Fprint"), strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*strings.Builder).Write"),
		strings.HasPrefix(n, "(*bufio.Writer).Write"), n == "io.WriteString", n == ".Write", n == ".WriteString", strings.HasPrefix(n, "(*os.File).Write"):
		return ci, true
	}
	if g := ci.Common().StaticCallee(); g != nil && isRepoFn(g) {
		for _, b := range g.Blocks {
			for _, x := range b.Instrs {
				if _, ok := writes(x); ok {
					return ci, true
				}
			}
		}
	}
	return nil, false
}

// uses: v is among the arguments, or what they are made of.
func usesValue(ci ssa.CallInstruction, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(x ssa.Value) bool
	walk = func(x ssa.Value) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if x == v {
			return true
		}
		switch x := x.(type) {
		case *ssa.MakeInterface:
			return walk(x.X)
		case *ssa.Convert:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.BinOp:
			return walk(x.X) || walk(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, q := range *ia.Referrers() {
							if s, ok := q.(*ssa.Store); ok && walk(s.Val) {
								return true
							}
						}
					}
				}
				return false
			}
			return walk(x.X)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if walk(a) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range ci.Common().Args {
		if walk(a) {
			return true
		}
	}
	return false
}

func (c *Ctx) rangeWritten(f *ssa.Function, rg *ssa.Range) {
	w := fnName(f)
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	var key, val ssa.Value
	for _, r := range *next.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				key = e
			case 2:
				val = e
			}
		}
	}
	head := next.Block()
	inLoop := func(b *ssa.BasicBlock) bool { return head.Dominates(b) && b != head && reachesBlock(b, head) }
	if isSection(rg.X.Type()) {
		// a loop over the records of a table that writes them
		var good []ssa.Instruction
		any := false
		for _, b := range f.Blocks {
			if !inLoop(b) {
				continue
			}
			for _, in := range b.Instrs {
				ci, ok := writes(in)
				if !ok {
					continue
				}
				any = true
				if key != nil && val != nil && usesValue(ci, key) && usesValue(ci, val) {
					good = append(good, in)
				}
			}
		}
		if !any {
			return
		}
		c.Count("record written", w)
		if skips(head, good) {
			c.Violation("record/"+w, next.Pos(), "%s: a record can be left out of what is written", w)
		}
		return
	}
	// a loop over the tables
	var header, whole []ssa.Instruction
	for _, b := range f.Blocks {
		if !inLoop(b) {
			continue
		}
		for _, in := range b.Instrs {
			if ci, ok := writes(in); ok && key != nil && usesValue(ci, key) {
				if val != nil && usesValue(ci, val) {
					whole = append(whole, in) // a helper writes all of it
				} else {
					header = append(header, in)
				}
			}
		}
	}
	// where a table's records are written: the start of a loop over them
	var recs []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r2, ok := in.(*ssa.Range); ok && isSection(r2.X.Type()) && inLoop(b) && r2.X == val {
				recs = append(recs, in)
			}
			if ci, ok := writes(in); ok && inLoop(b) && val != nil && usesValue(ci, val) {
				recs = append(recs, in)
			}
		}
	}
	if len(recs)+len(whole) == 0 && val != nil {
		// its records in an order of their own
		for _, r := range *val.Referrers() {
			if inLoop(r.Block()) {
				switch r.(type) {
				case *ssa.Call, *ssa.Lookup:
					recs = append(recs, r)
				}
			}
		}
	}
	out := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := writes(in); ok && inLoop(b) {
				out = true
			}
		}
	}
	if !out {
		return
	}
	c.Count("table written", w)
	isDefault := func(in ssa.Instruction) (tr, fa bool) { // the branch taken by the default table
		i, ok := in.(*ssa.If)
		if !ok {
			return
		}
		b, ok := i.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return
		}
		if !(b.X == key && constStr(b.Y, "") || b.Y == key && constStr(b.X, "")) {
			return
		}
		return b.Op == token.EQL, b.Op == token.NEQ
	}
	// what the default table does in this loop, and what the others do
	walk := func(def bool) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		todo := append([]*ssa.BasicBlock{}, head.Succs...)
		for len(todo) > 0 {
			b := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if seen[b] || !inLoop(b) {
				continue
			}
			seen[b] = true
			last := b.Instrs[len(b.Instrs)-1]
			t, fa := isDefault(last)
			for i, s := range b.Succs {
				if t || fa {
					if ((i == 0) == t) != def {
						continue
					}
				}
				todo = append(todo, s)
			}
		}
		return seen
	}
	hits := func(seen map[*ssa.BasicBlock]bool, set []ssa.Instruction) bool {
		for _, in := range set {
			if seen[in.Block()] {
				return true
			}
		}
		return false
	}
	def := walk(true)
	if hits(def, recs) || hits(def, whole) {
		c.Violation("order/"+w, next.Pos(), "%s: the records of the default table, which has no header, can be written after the header of another table", w)
	} else {
		// then they are written before
		first := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if lk, ok := in.(*ssa.Lookup); ok && isIniFile(lk.X.Type()) && constStr(lk.Index, "") && !inLoop(b) && before(lk, head) {
					for _, b2 := range f.Blocks {
						for _, in2 := range b2.Instrs {
							if r2, ok := in2.(*ssa.Range); ok && r2.X == lk {
								first = true
							}
							if ci, ok := in2.(*ssa.Call); ok && usesValue(ci, lk) {
								first = true
							}
						}
					}
				}
			}
		}
		if !first {
			c.Violation("default/"+w, next.Pos(), "%s: the records of the default table are not written, or not before those of the others", w)
		}
	}
	skip := func(set []ssa.Instruction) bool { return skipsIf(head, set, isDefault) }
	if skip(append(append([]ssa.Instruction{}, header...), whole...)) {
		c.Violation("header/"+w, next.Pos(), "%s: a table can be written without its header: its records become another's", w)
	}
	if skip(append(append([]ssa.Instruction{}, recs...), whole...)) {
		c.Violation("table/"+w, next.Pos(), "%s: a table can be left out of what is written", w)
	}
	for _, rc := range recs {
		for _, h := range header {
			if h.Block() != rc.Block() && !h.Block().Dominates(rc.Block()) {
				c.Violation("header/"+w, rc.Pos(), "%s: the records of a table are not written after its header", w)
			}
		}
	}
}

func before(in ssa.Instruction, b *ssa.BasicBlock) bool { return in.Block().Dominates(b) }

// reachesBlock: from is in the loop with head to.
func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{from}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == to {
			return true
		}
		if seen[b] || !to.Dominates(b) {
			continue
		}
		seen[b] = true
		todo = append(todo, b.Succs...)
	}
	return false
}

// skips: an iteration of the loop at head can pass none of the instructions,
// or leave the loop early.
func skips(head *ssa.BasicBlock, set []ssa.Instruction) bool {
	return skipsIf(head, set, nil)
}

func skipsIf(head *ssa.BasicBlock, set []ssa.Instruction, def func(ssa.Instruction) (bool, bool)) bool {
	stop := map[*ssa.BasicBlock]bool{}
	for _, in := range set {
		stop[in.Block()] = true
	}
	// the first successor is the body
	i, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{i.Block().Succs[0]}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == head {
			return true
		}
		if seen[b] || stop[b] {
			continue
		}
		seen[b] = true
		if !reachesBlock(b, head) {
			// left the loop; fine when the whole fails
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !failing(ret) {
				return true
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		var t, fa bool
		if def != nil {
			t, fa = def(last)
		}
		for i, s := range b.Succs {
			if (t || fa) && (i == 0) == t {
				continue
			}
			todo = append(todo, s)
		}
	}
	return false
}

// failing: the function returns an error here.
func failing(r *ssa.Return) bool {
	if len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	k, ok := last.(*ssa.Const)
	return isErrType(last.Type()) && (!ok || k.Value != nil)
}
