package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", func(c *Ctx) {
		c.Rule("no string a peer chose (a field of a decoded message or of a public identity, followed through variables, parameters, struct fields, maps and concatenation) reaches a file operation's path unless it was checked to be a plain name, reduced to its last element, or encoded")
		c.Rule("a check of names refuses the empty name and both dots, and allows no separator")
		c.paths()
		c.Need("file operation", 30)
		c.Need("name checked", 2)
		c.Need("name reduced", 1)
	})
}

// pathArgs: the path arguments of a file operation.
func pathArgs(name string) (args []int, deep bool) {
	switch name {
	case "os.Open", "os.OpenFile", "os.Create", "os.ReadFile", "io/ioutil.ReadFile", "os.WriteFile", "io/ioutil.WriteFile", "os.ReadDir", "io/ioutil.ReadDir", "os.Truncate", "os.Stat", "os.Lstat":
		return []int{0}, false
	case "os.Remove", "os.RemoveAll", "os.Mkdir", "os.MkdirAll", "os.Chmod", "os.MkdirTemp", "io/ioutil.TempDir", "os.CreateTemp", "io/ioutil.TempFile":
		return []int{0}, true
	case "os.Rename", "os.Link", "os.Symlink":
		return []int{0, 1}, false
	}
	return nil, false
}

type pathTaint struct {
	c    *Ctx
	deep bool // the operation must not meet a dot name either
	seen map[ssa.Value]bool
	maps map[string]bool
	out  map[string]ssa.Value // peer strings
	n    int
}

func (c *Ctx) paths() {
	for _, f := range c.P.Funcs {
		if !inPkg(f, "zkclient", "zkserver", "zkserver/account", "inidb") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := staticName(ci)
				args, deep := pathArgs(n)
				if len(args) == 0 {
					continue
				}
				c.Count("file operation", n+" in "+fnName(f))
				for _, i := range args {
					t := &pathTaint{c: c, deep: deep, seen: map[ssa.Value]bool{}, maps: map[string]bool{}, out: map[string]ssa.Value{}}
					t.walk(ci.Common().Args[i], in)
					var ks []string
					for k := range t.out {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						c.Violation("path/"+fnName(f)+"/"+n+"/"+k, in.Pos(), "%s takes a path that %s decides, which a peer chooses: it may lead anywhere", n, k)
					}
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if len(nameCheck(f)) != 0 {
			c.Count("name checked", fnName(f))
			for _, p := range slashes(f) {
				c.Violation("letters/"+fnName(f), p, "names checked by %s may hold a path separator", fnName(f))
			}
		}
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (t *pathTaint) peer(owner string, f *types.Var) bool {
	if !isString(f.Type()) {
		return false
	}
	return strings.HasPrefix(owner, "rpc.") || owner == "zkidentity.PublicIdentity"
}

func (t *pathTaint) walk(v ssa.Value, at ssa.Instruction) {
	if v == nil || t.seen[v] {
		return
	}
	if t.n++; t.n > 4000 {
		return
	}
	if t.checked(v, at) {
		return
	}
	t.seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.walk(e, at)
		}
	case *ssa.ChangeType:
		t.walk(v.X, at)
	case *ssa.Convert:
		t.walk(v.X, at)
	case *ssa.MakeInterface:
		if isString(v.X.Type()) || strings.HasPrefix(v.X.Type().String(), "[]") {
			t.walk(v.X, at)
		}
	case *ssa.BinOp:
		t.walk(v.X, at)
		t.walk(v.Y, at)
	case *ssa.Slice:
		if isString(v.X.Type()) && v.Low != nil && afterSlash(v.Low, 0) {
			t.reduced(v.X, v, "the part after the last separator")
			return
		}
		t.walk(v.X, at)
	case *ssa.Extract:
		if n, ok := v.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				t.container(r.X, v.Index == 1, at)
			}
			return
		}
		if l, ok := v.Tuple.(*ssa.Lookup); ok {
			t.container(l.X, false, at)
			return
		}
		if c, ok := v.Tuple.(*ssa.Call); ok {
			t.call(c, v.Index, at)
		}
	case *ssa.Lookup:
		if isString(v.X.Type()) {
			t.walk(v.X, at)
		} else {
			t.container(v.X, false, at)
		}
	case *ssa.Index:
		t.walk(v.X, at)
	case *ssa.Field:
		o, fl := staticField(v)
		t.field(o, fl, v.X, at)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			t.load(v.X, at)
		}
	case *ssa.Alloc:
		t.load(v, at)
	case *ssa.Parameter:
		t.param(v)
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			t.walk(b, at)
		}
	case *ssa.Call:
		t.call(v, 0, at)
	}
}

func (t *pathTaint) param(v *ssa.Parameter) {
	fn := v.Parent()
	for k, p := range fn.Params {
		if p != v {
			continue
		}
		for _, c := range t.c.P.callers[fn] {
			if a := c.Common().Args; c.Common().StaticCallee() == fn && k < len(a) {
				t.walk(a[k], c)
			}
		}
	}
}

func (t *pathTaint) load(a ssa.Value, at ssa.Instruction) {
	switch a := a.(type) {
	case *ssa.Alloc:
		if t.seen[a] && a != nil {
			// being followed already
		}
		t.seen[a] = true
		t.stored(a)
	case *ssa.FreeVar:
		if b := binding(a); b != nil {
			t.load(b, at)
		}
	case *ssa.FieldAddr:
		o, fl := staticField(a)
		t.field(o, fl, a.X, at)
	case *ssa.IndexAddr:
		if strings.HasPrefix(deref(a.X.Type()).String(), "[]") && isString(deref(a.Type())) {
			// an element of a slice of strings
		}
		t.walk(a.X, at)
	case *ssa.Global:
		return
	default:
		t.walk(a, at)
	}
}

// stored: everything put into a variable, or into its elements.
func (t *pathTaint) stored(a ssa.Value) {
	if a.Referrers() == nil {
		return
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				t.walk(r.Val, r)
			}
		case *ssa.IndexAddr:
			t.stored(r)
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == a {
					t.stored(r.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		}
	}
}

func (t *pathTaint) field(owner string, f *types.Var, base ssa.Value, at ssa.Instruction) {
	if f == nil {
		return
	}
	if t.peer(owner, f) {
		if !own(base) {
			t.out[owner+"."+f.Name()] = base
		}
		return
	}
	if !isString(f.Type()) && !strings.HasPrefix(f.Type().String(), "[]") {
		return
	}
	if strings.HasSuffix(owner, "ettings") || strings.HasPrefix(owner, "rpc.") {
		return
	}
	k := owner + "." + f.Name()
	if t.maps[k] {
		return
	}
	t.maps[k] = true
	for _, s := range t.c.P.fieldStores(k) {
		t.walk(s.Val, s)
	}
}

// own: the public half of the user's own identity.
func own(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if o, _ := staticField(x); o == "zkidentity.FullIdentity" {
				return true
			}
			v = x.X
		case *ssa.Field:
			if o, _ := staticField(x); o == "zkidentity.FullIdentity" {
				return true
			}
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// container: the keys or the elements of a map.
func (t *pathTaint) container(m ssa.Value, key bool, at ssa.Instruction) {
	if isString(m.Type()) {
		t.walk(m, at)
		return
	}
	mt, ok := m.Type().Underlying().(*types.Map)
	if !ok {
		t.walk(m, at)
		return
	}
	if key && !isString(mt.Key()) || !key && !isString(mt.Elem()) {
		return
	}
	name := mapName(m)
	if name == "" || t.maps[name+"#"] {
		return
	}
	t.maps[name+"#"] = true
	for _, f := range t.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && mapName(u.Map) == name {
					if key {
						t.walk(u.Key, u)
					} else {
						t.walk(u.Value, u)
					}
				}
			}
		}
	}
}

func mapName(m ssa.Value) string {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if o, f := staticField(u.X); f != nil {
			return o + "." + f.Name()
		}
		if g, ok := u.X.(*ssa.Global); ok {
			return shorten(g.String())
		}
	}
	return ""
}

func (t *pathTaint) call(v *ssa.Call, idx int, at ssa.Instruction) {
	if b, ok := v.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range v.Call.Args {
				t.walk(a, at)
			}
		}
		return
	}
	g := v.Call.StaticCallee()
	if g != nil && isRepoFn(g) && len(g.Blocks) > 0 {
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				t.walk(r.Results[idx], r)
			}
		}
		return
	}
	n := staticName(v)
	a := v.Call.Args
	switch n {
	case "strings.Split", "strings.Fields", "strings.SplitN":
		return // what the user typed, taken apart
	case "strings.Map":
		if !comparesSlash(a[0]) {
			break
		}
		t.reduced(a[1], v, n)
		return
	case "strings.Replace", "strings.ReplaceAll":
		if !constStr(a[1], "/") || strings.Contains(strConst(a[2]), "/") || n == "strings.Replace" && !negConst(a[3]) {
			break
		}
		t.reduced(a[0], v, n)
		return
	case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
		t.reduced(a[1], v, n)
		return
	case "(*strings.Replacer).Replace":
		if !replacesSlash(a[0]) {
			break
		}
		t.reduced(a[1], v, n)
		return
	case "path.Base", "path/filepath.Base":
		t.c.Count("name reduced", n+" in "+fnName(v.Parent()))
		if t.deep && !ends(a[0], 0) {
			t.walk(a[0], v)
		}
		return
	case "path.Clean", "path/filepath.Clean":
		if !rooted(a[0], 0) {
			t.walk(a[0], v)
		}
		return
	}
	if strings.HasPrefix(n, "encoding/hex.") || strings.HasPrefix(n, "strconv.Quote") || strings.HasPrefix(n, "strconv.Format") || strings.HasPrefix(n, "net/url.") ||
		strings.HasPrefix(n, "net.") || n == "encoding/base32.EncodeToString" {
		return
	}
	for _, x := range a {
		if isString(x.Type()) || strings.HasPrefix(x.Type().String(), "[]") {
			t.walk(x, v)
		}
	}
}

// rooted: the string begins with a separator, so that cleaning it cannot
// leave the directory it is joined to.
func rooted(v ssa.Value, n int) bool {
	if n > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.String && strings.HasPrefix(constant.StringVal(v.Value), "/")
	case *ssa.BinOp:
		return rooted(v.X, n+1)
	case *ssa.Call:
		switch staticName(v) {
		case "path.Join", "path/filepath.Join":
			if e := elems(v.Call.Args[0]); len(e) > 0 {
				return rooted(e[0], n+1)
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !rooted(e, n+1) {
				return false
			}
		}
		return true
	}
	return false
}

// ends: the last element of the path is never a dot name: it ends in a
// constant that is more than dots, or was cleaned.
func ends(v ssa.Value, n int) bool {
	if n > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.String && strings.Trim(constant.StringVal(v.Value), "./") != ""
	case *ssa.BinOp:
		return ends(v.Y, n+1)
	case *ssa.Call:
		switch staticName(v) {
		case "path.Clean", "path/filepath.Clean":
			return rooted(v.Call.Args[0], 0)
		}
	}
	return false
}

// elems: the elements of a variadic argument.
func elems(v ssa.Value) []ssa.Value {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok {
					m[k.Int64()] = st.Val
				}
			}
		}
	}
	var out []ssa.Value
	for i := int64(0); m[i] != nil; i++ {
		out = append(out, m[i])
	}
	return out
}

// checked: at this point the string was found to be a plain name.
func (t *pathTaint) checked(v ssa.Value, at ssa.Instruction) bool {
	if at == nil || !isString(v.Type()) {
		return false
	}
	f := at.Parent()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for i, a := range call.Call.Args {
				if !sameString(a, v) {
					continue
				}
				if s := success(call, i); s != nil && s.Dominates(at.Block()) && len(s.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// sameString: the same value, or the same field of the same variable.
func sameString(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ka, kb := placeOf(a), placeOf(b)
	return ka != "" && ka == kb
}

func placeOf(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return placeOf(v.X)
		}
	case *ssa.FieldAddr:
		if p := placeOf(v.X); p != "" {
			_, f := staticField(v)
			return p + "." + f.Name()
		}
	case *ssa.Field:
		if p := placeOf(v.X); p != "" {
			_, f := staticField(v)
			return p + "." + f.Name()
		}
	case *ssa.IndexAddr:
		if p := placeOf(v.X); p != "" {
			if k, ok := v.Index.(*ssa.Const); ok {
				return p + "[" + k.Value.ExactString() + "]"
			}
		}
	case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar:
		return fnName(v.Parent()) + "/" + v.Name()
	case *ssa.Phi:
		return fnName(v.Parent()) + "/" + v.Name()
	}
	return ""
}

// success: the block that runs only when the call found its i-th argument to
// be a plain name.
func success(call *ssa.Call, i int) *ssa.BasicBlock {
	good := token.ILLEGAL // the error is nil
	val := -1
	switch n := staticName(call); n {
	case "strings.Contains", "strings.ContainsAny":
		if k, ok := call.Call.Args[1].(*ssa.Const); ok && i == 0 && strings.Contains(k.Value.ExactString(), "/") {
			val = 0
		}
	case "path/filepath.IsLocal":
		val = 1
	default:
		if g := call.Call.StaticCallee(); g != nil && nameCheck(g)[i] {
			rs := g.Signature.Results()
			if isErrType(rs.At(rs.Len() - 1).Type()) {
				good = token.EQL
			} else {
				val = 1
			}
		}
	}
	if good == token.ILLEGAL && val < 0 {
		return nil
	}
	var res ssa.Value = call
	if call.Call.Signature().Results().Len() > 1 {
		res = nil
		for _, r := range *call.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == call.Call.Signature().Results().Len()-1 {
				res = e
			}
		}
		if res == nil {
			return nil
		}
	}
	for _, r := range *res.Referrers() {
		switch r := r.(type) {
		case *ssa.If:
			if good == token.ILLEGAL {
				return r.Block().Succs[1-val]
			}
		case *ssa.UnOp:
			if r.Op == token.NOT && good == token.ILLEGAL {
				for _, q := range *r.Referrers() {
					if y, ok := q.(*ssa.If); ok {
						return y.Block().Succs[val]
					}
				}
			}
		case *ssa.BinOp:
			if good == token.ILLEGAL {
				continue
			}
			for _, q := range *r.Referrers() {
				if y, ok := q.(*ssa.If); ok {
					if r.Op == token.EQL {
						return y.Block().Succs[0]
					}
					if r.Op == token.NEQ {
						return y.Block().Succs[1]
					}
				}
			}
		}
	}
	return nil
}

func isErrType(t types.Type) bool { return t.String() == "error" }

// nameCheck: which parameters of the function it refuses unless they are
// plain names. Either it looks at every character and compares with the dot
// names itself, or it hands the parameter to such a function and returns its
// verdict.
func nameCheck(f *ssa.Function) map[int]bool { return nameCheckN(f, 0) }

func nameCheckN(f *ssa.Function, depth int) map[int]bool {
	out := map[int]bool{}
	if f == nil || depth > 3 || len(f.Blocks) == 0 || !isRepoFn(f) {
		return out
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return out
	}
	last := rs.At(rs.Len() - 1).Type()
	if b, ok := last.Underlying().(*types.Basic); !isErrType(last) && !(ok && b.Kind() == types.Bool && rs.Len() == 1) {
		return out
	}
	for i, p := range f.Params {
		if !isString(p.Type()) {
			continue
		}
		names := map[string]bool{}
		chars := false
		for _, r := range *p.Referrers() {
			switch r := r.(type) {
			case *ssa.BinOp:
				if r.Op == token.EQL || r.Op == token.NEQ {
					for _, o := range []ssa.Value{r.X, r.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil {
							names[constant.StringVal(k.Value)] = true
						}
					}
				}
			case *ssa.Range:
				chars = true
			case *ssa.Convert:
				chars = true
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					for _, q := range *r.Referrers() {
						if b, ok := q.(*ssa.BinOp); ok {
							if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && (k.Int64() == 0 || k.Int64() == 1) {
								names[""] = true
							}
						}
					}
				}
				if n := staticName(r); strings.HasPrefix(n, "strings.IndexFunc") || strings.HasPrefix(n, "strings.Trim") || strings.HasPrefix(n, "strings.Map") || strings.HasSuffix(n, ".MatchString") || strings.HasPrefix(n, "strings.Contains") {
					chars = true
				}
				for k, a := range r.Call.Args {
					if a == p && r.Call.StaticCallee() != f && nameCheckN(r.Call.StaticCallee(), depth+1)[k] {
						for _, q := range *r.Referrers() {
							if _, ok := q.(*ssa.Return); ok {
								out[i] = true
							}
						}
						if s := success(r, k); s != nil && guards(f, s) {
							out[i] = true
						}
					}
				}
			case *ssa.Index, *ssa.Lookup:
				chars = true
			}
		}
		if chars && names[""] && names["."] && names[".."] {
			out[i] = true
		}
	}
	return out
}

// guards: every return that says yes is behind the block.
func guards(f *ssa.Function, s *ssa.BasicBlock) bool {
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		k, isConst := r.Results[len(r.Results)-1].(*ssa.Const)
		yes := isConst && (k.Value == nil || k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value))
		if yes && !s.Dominates(b) {
			return false
		}
	}
	return true
}

// slashes: string constants and variables of letters that hold a separator.
func slashes(f *ssa.Function) []token.Pos {
	var out []token.Pos
	seen := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				s := ""
				switch v := (*op).(type) {
				case *ssa.Const:
					if v.Value != nil && v.Value.Kind() == constant.String {
						s = constant.StringVal(v.Value)
					}
				}
				if len(s) > 20 && strings.ContainsAny(s, "/\\") && !seen[s] {
					seen[s] = true
					out = append(out, in.Pos())
				}
			}
		}
	}
	return out
}

// reduced: the string has no separator left.
func (t *pathTaint) reduced(x ssa.Value, in ssa.Instruction, how string) {
	t.c.Count("name reduced", how+" in "+fnName(in.Parent()))
	if t.deep && !ends(x, 0) {
		t.walk(x, in)
	}
}

func strConst(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return "/"
}

func constStr(v ssa.Value, s string) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == s
}

func negConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && isInt(k.Type()) && k.Int64() < 0
}

// comparesSlash: the mapping function looks for the separator, or lets only
// letters it lists through.
func comparesSlash(v ssa.Value) bool {
	var f *ssa.Function
	switch v := v.(type) {
	case *ssa.Function:
		f = v
	case *ssa.MakeClosure:
		f = v.Fn.(*ssa.Function)
	}
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok {
				for _, o := range []ssa.Value{x.X, x.Y} {
					if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == '/' && (x.Op == token.EQL || x.Op == token.NEQ) {
						return true
					}
				}
			}
			if x, ok := in.(*ssa.Call); ok {
				if n := staticName(x); n == "unicode.IsLetter" || n == "unicode.IsDigit" || n == "strings.ContainsRune" || n == "strings.IndexRune" {
					return true
				}
			}
		}
	}
	return false
}

// replacesSlash: a replacer made from constants that rewrite the separator.
func replacesSlash(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			for _, r := range globalStores(g) {
				if replacesSlash(r) {
					return true
				}
			}
		}
		return false
	}
	c, ok := v.(*ssa.Call)
	if !ok || staticName(c) != "strings.NewReplacer" {
		return false
	}
	e := elems(c.Call.Args[0])
	for i := 0; i+1 < len(e); i += 2 {
		if constStr(e[i], "/") && !strings.Contains(strConst(e[i+1]), "/") {
			return true
		}
	}
	return false
}

func globalStores(g *ssa.Global) []ssa.Value {
	var out []ssa.Value
	if g.Pkg == nil {
		return nil
	}
	if f := g.Pkg.Func("init"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// afterSlash: one past the position of the last separator.
func afterSlash(v ssa.Value, n int) bool {
	if n > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return v.Op == token.ADD && (afterSlash(v.X, n+1) || afterSlash(v.Y, n+1))
	case *ssa.Call:
		switch staticName(v) {
		case "strings.LastIndex", "strings.LastIndexAny":
			return strings.Contains(strConst(v.Call.Args[1]), "/")
		case "strings.LastIndexByte":
			k, ok := v.Call.Args[1].(*ssa.Const)
			return ok && k.Int64() == '/'
		}
	}
	return false
}
