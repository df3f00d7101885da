package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", func(c *Ctx) {
		c.Rule("every file is created with a mode that gives group and others nothing, every directory too, and none is opened up later")
		c.Rule("no private key, session key, ratchet key or blob key, and nothing that holds one, becomes part of a log line, a line on the screen, an error, a message or a packet, except sealed under a key")
		c.Rule("the diagnostics of the key exchange, which print its keys, are switched on by nothing in the program")
		c.modes()
		c.secrets()
		c.Need("file or directory made", 10)
		c.Need("secret", 10)
		c.Need("place that shows or sends", 50)
	})
}

// modeArg: the argument of the call that is the mode of what it creates.
func modeArg(n string) (arg int, flags int, ok bool) {
	switch n {
	case "os.OpenFile":
		return 2, 1, true
	case "os.WriteFile", "io/ioutil.WriteFile":
		return 2, -1, true
	case "os.Mkdir", "os.MkdirAll", "os.Chmod", "(*os.File).Chmod", "syscall.Chmod", "syscall.Mkdir":
		return 1, -1, true
	case "syscall.Open":
		return 2, 1, true
	}
	return 0, 0, false
}

// constsOf: the constants a value can be; ok is false when it can be others.
func (c *Ctx) constsOf(v ssa.Value) (out []int64, ok bool) {
	ok = true
	var walk func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if b, is := v.(*ssa.BinOp); is {
			xs, o1 := c.constsOf(b.X)
			ys, o2 := c.constsOf(b.Y)
			ok = ok && o1 && o2
			for _, x := range xs {
				for _, y := range ys {
					switch b.Op {
					case token.OR, token.ADD:
						out = append(out, x|y)
					case token.AND:
						out = append(out, x&y)
					case token.AND_NOT:
						out = append(out, x&^y)
					default:
						ok = false
					}
				}
			}
			return
		}
		for _, o := range c.readerOrigins(v) {
			k, is := o.V.(*ssa.Const)
			if !is || k.Value == nil || k.Value.Kind() != constant.Int {
				ok = false
				continue
			}
			n, _ := constant.Int64Val(k.Value)
			out = append(out, n)
		}
	}
	walk(v)
	return out, ok && len(out) > 0
}

func (c *Ctx) modes() {
	for _, f := range c.P.Funcs {
		w := fnName(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := staticName(ci)
				if n == "os.Create" {
					c.Count("file or directory made", n+" in "+w)
					c.Violation("mode/"+w+"/os.Create", in.Pos(), "%s creates a file that others may read (os.Create)", w)
					continue
				}
				if n == "syscall.Umask" || n == "golang.org/x/sys/unix.Umask" {
					ms, ok := c.constsOf(ci.Common().Args[0])
					for _, m := range ms {
						if m&0077 != 0077 {
							ok = false
						}
					}
					if !ok {
						c.Violation("mode/"+w+"/umask", in.Pos(), "%s sets a mask that lets others in", w)
					}
					continue
				}
				a, flags, ok := modeArg(n)
				if !ok {
					continue
				}
				args := ci.Common().Args
				if flags >= 0 {
					if fl, ok := c.constsOf(args[flags]); ok {
						creates := false
						for _, x := range fl {
							creates = creates || x&0x40 != 0
						}
						if !creates {
							continue
						}
					}
				}
				c.Count("file or directory made", n+" in "+w)
				short := n[strings.LastIndexByte(n, '.')+1:]
				ms, ok := c.constsOf(args[a])
				if !ok {
					if copiedMode(args[a]) {
						continue
					}
					c.Violation("mode/"+w+"/"+short, in.Pos(), "%s: the mode given to %s cannot be told", w, n)
				}
				for _, m := range ms {
					if m&0077 != 0 {
						c.Violation("mode/"+w+"/"+short, in.Pos(), "%s gives %s mode %#o: others may read what it makes", w, n, m)
					}
				}
			}
		}
	}
}

// copiedMode: the mode of another of our files.
func copiedMode(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		n := callNames(v)
		return n == ".Mode" || n == "(io/fs.FileMode).Perm" && copiedMode(v.Call.Args[0])
	case *ssa.Convert:
		return copiedMode(v.X)
	case *ssa.ChangeType:
		return copiedMode(v.X)
	}
	return false
}

// keyArg: the argument of a primitive that must stay secret.
func keyArg(n string) (int, bool) {
	switch n {
	case "golang.org/x/crypto/nacl/secretbox.Seal", "golang.org/x/crypto/nacl/secretbox.Open":
		return 3, true
	case "crypto/hmac.New":
		return 1, true
	case "golang.org/x/crypto/curve25519.ScalarMult", "golang.org/x/crypto/curve25519.ScalarBaseMult":
		return 1, true
	case "golang.org/x/crypto/curve25519.X25519":
		return 0, true
	case "golang.org/x/crypto/ed25519.Sign", "crypto/ed25519.Sign", "github.com/agl/ed25519.Sign":
		return 0, true
	}
	if strings.HasSuffix(n, "sntrup4591761.Decapsulate") {
		return 1, true
	}
	return 0, false
}

// known by name, whatever they are used for.
var secretFields = []string{
	"zkidentity.FullIdentity.PrivateSigKey", "zkidentity.FullIdentity.PrivateKey",
	"session.KX.OurPrivateKey", "session.KX.writeKey", "session.KX.readKey",
	"ratchet.Ratchet.MyPrivateKey", "ratchet.Ratchet.rootKey", "ratchet.Ratchet.sendHeaderKey", "ratchet.Ratchet.recvHeaderKey",
	"ratchet.Ratchet.nextSendHeaderKey", "ratchet.Ratchet.nextRecvHeaderKey", "ratchet.Ratchet.sendChainKey", "ratchet.Ratchet.recvChainKey",
	"ratchet.Ratchet.sendRatchetPrivate", "ratchet.Ratchet.kxPrivate", "ratchet.Ratchet.MyHalf", "ratchet.Ratchet.TheirHalf", "ratchet.savedKey.key",
	"ratchet.Ratchet.saved",
	"ratchet/disk.RatchetState.RootKey", "ratchet/disk.RatchetState.SendHeaderKey", "ratchet/disk.RatchetState.RecvHeaderKey",
	"ratchet/disk.RatchetState.NextSendHeaderKey", "ratchet/disk.RatchetState.NextRecvHeaderKey", "ratchet/disk.RatchetState.SendChainKey",
	"ratchet/disk.RatchetState.RecvChainKey", "ratchet/disk.RatchetState.SendRatchetPrivate", "ratchet/disk.RatchetState.Private",
	"ratchet/disk.RatchetState.MyHalf", "ratchet/disk.RatchetState.TheirHalf", "ratchet/disk.RatchetState.SavedKeys",
	"ratchet/disk.RatchetState_SavedKeys.HeaderKey", "ratchet/disk.RatchetState_SavedKeys.MessageKeys", "ratchet/disk.RatchetState_SavedKeys_MessageKey.Key",
}

type leak struct {
	c      *Ctx
	fields map[string]bool
	todo   []ssa.Value
	seen   map[ssa.Value]bool
	why    map[ssa.Value]ssa.Value
	shown  map[ssa.Instruction]bool
	diag   bool
}

func fieldName(v ssa.Value) string {
	o, f := staticField(v)
	if f == nil {
		return ""
	}
	return o + "." + f.Name()
}

func (c *Ctx) secrets() {
	l := &leak{c: c, fields: map[string]bool{}, seen: map[ssa.Value]bool{}, why: map[ssa.Value]ssa.Value{}, shown: map[ssa.Instruction]bool{}}
	for _, f := range secretFields {
		l.fields[f] = true
	}
	// diagnostics that nothing switches on are not shown
	l.diag = false
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && strings.HasSuffix(g.String(), "session.diagnosticFunction") && f.Name() != "init" {
						if len(c.P.callers[f]) > 0 {
							l.diag = true
						}
					}
				case ssa.CallInstruction:
					n := staticName(in)
					args := in.Common().Args
					if i, ok := keyArg(n); ok && i < len(args) {
						c.Count("secret", "key of "+n+" in "+fnName(f))
						l.key(args[i])
					}
					if strings.HasSuffix(n, "zkidentity.UnmarshalFullIdentity") && len(args) == 1 {
						c.Count("secret", "stored identity in "+fnName(f))
						l.add(args[0], nil)
					}
				}
			}
		}
	}
	done := map[string]bool{}
	for {
		for _, f := range sortedKeys(l.fields) {
			if done[f] {
				continue
			}
			done[f] = true
			c.Count("secret", f)
			l.seedField(f)
		}
		if len(l.todo) == 0 {
			break
		}
		v := l.todo[len(l.todo)-1]
		l.todo = l.todo[:len(l.todo)-1]
		l.flow(v)
	}
	l.types()
	var vs []string
	for f := range l.fields {
		vs = append(vs, f)
	}
	sort.Strings(vs)
}

func (l *leak) seedField(name string) {
	for _, f := range l.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || fieldName(v) != name {
					continue
				}
				l.add(v, nil)
				// what is put there was a secret before
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == v {
							l.source(r.Val, v)
						}
					case *ssa.Slice:
						for _, q := range *r.Referrers() {
							if ci, ok := q.(*ssa.Call); ok {
								if b, ok := ci.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && ci.Call.Args[0] == r {
									l.source(ci.Call.Args[1], v)
								}
							}
						}
					}
				}
			}
		}
	}
}

// source: a value that is copied to where a secret is kept.
func (l *leak) source(v, to ssa.Value) {
	switch x := v.(type) {
	case *ssa.Slice:
		l.source(x.X, to)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			l.add(al, to)
		}
	case *ssa.Extract:
		if isArr(deref(x.Type())) {
			l.add(x, to)
		}
	case *ssa.Call:
		if isArr(deref(x.Type())) {
			l.add(x, to)
		}
	case *ssa.Alloc:
		if isArr(deref(x.Type())) {
			l.add(x, to)
		}
	}
}

// key: what a key comes from holds a secret.
func (l *leak) key(v ssa.Value) {
	for _, o := range l.c.P.origins(v, nil) {
		switch o.Kind {
		case "field":
			// only what is a key by type, not a whole buffer
			if strings.HasPrefix(o.Name, "ratchet.") || strings.HasPrefix(o.Name, "session.") || strings.HasPrefix(o.Name, "zkidentity.") || strings.HasPrefix(o.Name, "zkclient.") {
				l.fields[o.Name] = true
			}
		case "out":
			if al, ok := o.V.(*ssa.Alloc); ok {
				l.add(al, nil)
			}
		case "global":
			if g, ok := o.V.(*ssa.Global); ok {
				l.addGlobal(g)
			}
		case "call":
			if x, ok := o.V.(*ssa.Call); ok && isRepoFn(x.Call.StaticCallee()) {
				l.add(x, nil)
			}
		}
	}
}

func (l *leak) addGlobal(g *ssa.Global) {
	for _, f := range l.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [8]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op == ssa.Value(g) {
						l.use(in, g)
					}
				}
			}
		}
	}
}

func (l *leak) add(v, from ssa.Value) {
	if v == nil || l.seen[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok || isErrType(v.Type()) {
		return
	}
	l.seen[v] = true
	l.why[v] = from
	l.todo = append(l.todo, v)
	// a slice or a pointer of something holds what that holds
	switch x := v.(type) {
	case *ssa.Slice:
		l.base(x.X, v)
	}
}

// base: the memory a tainted value was put into.
func (l *leak) base(v, from ssa.Value) {
	switch x := v.(type) {
	case *ssa.Alloc:
		l.add(x, from)
	case *ssa.FieldAddr:
		if n := fieldName(x); n != "" {
			l.into(n, x, from)
		}
	case *ssa.IndexAddr:
		l.base(x.X, from)
	case *ssa.Slice:
		l.add(x, from)
		l.base(x.X, from)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			l.add(x, from)
			l.base(x.X, from)
		}
	case *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.Phi, *ssa.MakeMap:
		l.add(v, from)
		switch x := v.(type) {
		case *ssa.MakeInterface:
			l.base(x.X, from)
		case *ssa.ChangeType:
			l.base(x.X, from)
		case *ssa.Convert:
			l.base(x.X, from)
		}
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			l.base(b, from)
		}
		l.add(v, from)
	case *ssa.Parameter:
		// filled in for the caller
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, ci := range l.c.P.callers[x.Parent()] {
				if ci.Common().StaticCallee() == x.Parent() && i < len(ci.Common().Args) {
					l.base(ci.Common().Args[i], from)
				}
			}
		}
		l.add(v, from)
	case *ssa.Global:
		l.addGlobal(x)
	case *ssa.Call, *ssa.Extract:
		l.add(v, from)
	}
}

// into: a secret is put into a field.
func (l *leak) into(n string, at, from ssa.Value) {
	if wireField(n) {
		l.c.Count("place that shows or sends", n)
		in, _ := at.(ssa.Instruction)
		l.report(in, from, "becomes part of a message ("+n+")")
		return
	}
	if !l.fields[n] && keepsSecrets(n) {
		l.fields[n] = true
	}
}

// fields of structures that carry data about; secrets put into others make
// them secret.
func keepsSecrets(n string) bool {
	return strings.HasPrefix(n, "ratchet") || strings.HasPrefix(n, "session.") || strings.HasPrefix(n, "zkidentity.") || strings.HasPrefix(n, "zk") || strings.HasPrefix(n, "tools")
}

func wireField(n string) bool {
	return strings.HasPrefix(n, "rpc.") || strings.HasPrefix(n, "ratchet.KeyExchange.") || strings.HasPrefix(n, "zkserver/socketapi.") || strings.HasPrefix(n, "zkidentity.PublicIdentity.") || strings.HasPrefix(n, "tools.ServerRecord.") || strings.HasPrefix(n, "tools.ClientRecord.")
}

func (l *leak) flow(v ssa.Value) {
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		l.use(r, v)
	}
}

func (l *leak) use(r ssa.Instruction, v ssa.Value) {
	switch r := r.(type) {
	case *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Index, *ssa.Slice:
		x := r.(ssa.Value)
		if isErrType(x.Type()) || isBool(x.Type()) {
			return
		}
		l.add(x, v)
	case *ssa.IndexAddr:
		if r.X == v {
			l.add(r, v)
		}
	case *ssa.Lookup:
		if r.X == v {
			l.add(r, v)
		}
	case *ssa.Range, *ssa.Next:
		l.add(r.(ssa.Value), v)
	case *ssa.Field:
		if l.fields[fieldName(r)] {
			l.add(r, v)
		}
	case *ssa.FieldAddr:
		if l.fields[fieldName(r)] {
			l.add(r, v)
		}
	case *ssa.UnOp:
		if r.Op == token.MUL {
			l.add(r, v)
		}
	case *ssa.BinOp:
		if r.Op == token.ADD && isString(r.Type()) {
			l.add(r, v)
		}
	case *ssa.Store:
		if r.Val == v {
			l.base(r.Addr, v)
		}
	case *ssa.MapUpdate:
		l.base(r.Map, v)
	case *ssa.Send:
		if r.X == v {
			if n := fieldName(chanSource(r.Chan)); n != "" {
				l.fields[n] = true
			}
		}
	case *ssa.MakeClosure:
		for i, b := range r.Bindings {
			if b == v {
				l.add(r.Fn.(*ssa.Function).FreeVars[i], v)
			}
		}
	case *ssa.Return:
		for i, x := range r.Results {
			if x != v {
				continue
			}
			f := r.Parent()
			for _, ci := range l.c.P.callers[f] {
				if ci.Common().StaticCallee() != f || ci.Value() == nil {
					continue
				}
				if f.Signature.Results().Len() == 1 {
					l.add(ci.Value(), v)
					continue
				}
				for _, q := range *ci.Value().Referrers() {
					if e, ok := q.(*ssa.Extract); ok && e.Index == i {
						l.add(e, v)
					}
				}
			}
		}
	case *ssa.Panic:
		l.report(r, v, "becomes part of a panic")
	case ssa.CallInstruction:
		l.call(r, v)
	}
}

func chanSource(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

// showsArgs: a function that takes a format and values, and shows them.
func (l *leak) showsArgs(ci ssa.CallInstruction, n string) (string, bool) {
	if g := ci.Common().StaticCallee(); g != nil && isRepoFn(g) {
		sig := g.Signature
		if !sig.Variadic() {
			return "", false
		}
		s, ok := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice)
		if !ok {
			return "", false
		}
		i, ok := s.Elem().Underlying().(*types.Interface)
		if !ok || i.NumMethods() != 0 || sig.Results().Len() > 0 && isString(sig.Results().At(0).Type()) {
			return "", false
		}
		if inPkg(g, "session") && g.Name() == "D" && !l.diag {
			return "", false
		}
		return "is shown or logged", true
	}
	switch n {
	case "fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf",
		"github.com/davecgh/go-spew/spew.Dump", "github.com/davecgh/go-spew/spew.Fdump", "github.com/davecgh/go-spew/spew.Printf", "github.com/davecgh/go-spew/spew.Fprintf",
		"log.Print", "log.Printf", "log.Println", "log.Fatal", "log.Fatalf", "log.Panic", "log.Panicf":
		return "is shown or logged", true
	case "fmt.Errorf", "errors.New":
		return "becomes part of an error", true
	}
	return "", false
}

// encodes: the result holds what the arguments hold.
func encodes(n string) bool {
	switch {
	case strings.HasPrefix(n, "fmt.Sprint"), strings.HasPrefix(n, "fmt.Append"), strings.HasPrefix(n, "encoding/"), strings.HasPrefix(n, "(*encoding/"),
		strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "bytes."), strings.HasPrefix(n, "(*bytes."), strings.HasPrefix(n, "(*strings."),
		strings.HasPrefix(n, "bufio."), strings.HasPrefix(n, "github.com/davecgh/go-spew/spew.Sdump"), strings.HasPrefix(n, "github.com/davecgh/go-spew/spew.Sprint"),
		strings.HasPrefix(n, "io."), strings.HasPrefix(n, "io/ioutil."), strings.HasPrefix(n, "compress/"), strings.HasPrefix(n, "strconv."), strings.HasPrefix(n, "slices."):
		return true
	}
	return false
}

func isConnType(t types.Type) bool {
	for _, m := range []string{"RemoteAddr", "SetDeadline"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o == nil {
			return false
		}
	}
	return true
}

func (l *leak) call(ci ssa.CallInstruction, v ssa.Value) {
	cc := ci.Common()
	n := staticName(ci)
	f := ci.Parent()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			if cc.Args[1] == v {
				l.base(cc.Args[0], v)
			}
		case "append":
			if x := ci.Value(); x != nil {
				l.add(x, v)
			}
		case "print", "println":
			l.report(ci, v, "is shown")
		case "panic":
			l.report(ci, v, "becomes part of a panic")
		}
		return
	}
	if i, ok := keyArg(n); ok {
		// used as a key; what is sealed stays sealed, but what is signed does not
		_ = i
		return
	}
	if strings.HasSuffix(n, "secretbox.Open") || strings.HasSuffix(n, "secretbox.Seal") {
		return
	}
	if how, ok := l.showsArgs(ci, n); ok {
		if typeOnly(ci, v) {
			return
		}
		l.report(ci, v, how)
		return
	}
	if cc.IsInvoke() {
		m := cc.Method.Name()
		if cc.Value == v {
			return
		}
		switch m {
		case "Write", "WriteString":
			switch {
			case isConnType(cc.Value.Type()):
				l.report(ci, v, "is written to a connection")
			case strings.HasPrefix(cc.Value.Type().String(), "hash."):
			default:
				l.base(cc.Value, v)
			}
		case "Error", "String":
		}
		return
	}
	if n == "(*session.KX).Write" && cc.Args[0] != v {
		l.report(ci, v, "is sent to the other side")
		return
	}
	if g := cc.StaticCallee(); g != nil && isRepoFn(g) && len(g.Blocks) > 0 {
		for i, a := range cc.Args {
			if a == v && i < len(g.Params) {
				l.add(g.Params[i], v)
			}
		}
		return
	}
	if g, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, a := range cc.Args {
			if a == v {
				l.add(g.Fn.(*ssa.Function).Params[i], v)
			}
		}
		return
	}
	if strings.HasPrefix(n, xdr2+".Marshal") || strings.HasPrefix(n, "("+"*"+xdr2+".Encoder).Encode") || n == "encoding/json.NewEncoder" || n == "encoding/gob.NewEncoder" {
		if len(cc.Args) > 1 && cc.Args[1] == v {
			l.encoded(ci, cc.Args[0], v)
		}
		return
	}
	if strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bufio.Writer).Write") || n == "io.WriteString" || n == "io.Copy" {
		if len(cc.Args) > 1 && cc.Args[1] == v {
			l.encoded(ci, cc.Args[0], v)
		}
		return
	}
	if encodes(n) {
		if x := ci.Value(); x != nil {
			l.add(x, v)
		}
		// what it fills
		for _, a := range cc.Args {
			if a != v {
				switch deref(a.Type()).String() {
				case "[]byte":
					if a != v && (n == "encoding/hex.Encode" || strings.HasSuffix(n, ").Encode") || strings.HasSuffix(n, ".Put")) {
						l.base(a, v)
					}
				}
			}
		}
	}
	_ = f
}

// encoded: a secret is written, encoded, to w.
func (l *leak) encoded(ci ssa.CallInstruction, w, v ssa.Value) {
	x := w
	for {
		switch y := x.(type) {
		case *ssa.MakeInterface:
			x = y.X
			continue
		case *ssa.ChangeInterface:
			x = y.X
			continue
		}
		break
	}
	if isConnType(x.Type()) {
		l.report(ci, v, "is written to a connection")
		return
	}
	l.base(w, v)
}

// typeOnly: the format shows only the type or the address of v.
func typeOnly(ci ssa.CallInstruction, v ssa.Value) bool {
	args := ci.Common().Args
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok || len(args) < 2 {
		return false
	}
	fm := strConst(args[len(args)-2])
	if fm == "" {
		return false
	}
	var verbs []byte
	for i := 0; i+1 < len(fm); i++ {
		if fm[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(fm) && strings.IndexByte("+-# 0123456789.", fm[j]) >= 0 {
			j++
		}
		if j < len(fm) && fm[j] != '%' {
			verbs = append(verbs, fm[j])
		}
		i = j
	}
	found, only := false, true
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return false
		}
		for _, q := range *ia.Referrers() {
			s, ok := q.(*ssa.Store)
			if !ok || s.Addr != ia || !holds(s.Val, v) {
				continue
			}
			found = true
			i := int(k.Int64())
			if i >= len(verbs) || verbs[i] != 'T' && verbs[i] != 'p' {
				only = false
			}
		}
	}
	return found && only
}

// holds: an element of the arguments is v or what v was made of; v is the
// slice of all of them when the secret is one of them.
func holds(x, v ssa.Value) bool {
	if mi, ok := x.(*ssa.MakeInterface); ok {
		return holds(mi.X, v)
	}
	return x == v
}

func (l *leak) report(in ssa.Instruction, v ssa.Value, how string) {
	if in == nil {
		return
	}
	// the arguments of a print: which of them are only shown as a type
	if ci, ok := in.(ssa.CallInstruction); ok && l.onlyTypes(ci) {
		return
	}
	w := fnName(in.Parent())
	src := v
	for i := 0; i < 200 && l.why[src] != nil && l.why[src] != src; i++ {
		src = l.why[src]
	}
	what := fieldName(src)
	if what == "" {
		what = "a key"
	}
	l.c.Violation("shown/"+w+"/"+what, in.Pos(), "%s: %s %s", w, what, how)
}

// onlyTypes: every tainted element of a print's arguments is shown as a type.
func (l *leak) onlyTypes(ci ssa.CallInstruction) bool {
	args := ci.Common().Args
	if len(args) < 2 {
		return false
	}
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == ia && l.seen[s.Val] {
				n++
				if !typeOnly(ci, unwrap(s.Val)) {
					return false
				}
			}
		}
	}
	return n > 0
}

func unwrap(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return unwrap(mi.X)
	}
	return v
}

// types: whole structures that hold secrets are not shown or sent either.
func (l *leak) types() {
	owners := map[string]bool{}
	for f := range l.fields {
		if i := strings.LastIndexByte(f, '.'); i > 0 {
			owners[f[:i]] = true
		}
	}
	var has func(t types.Type, n int) string
	has = func(t types.Type, n int) string {
		if n > 6 {
			return ""
		}
		if tn := typeName(t); owners[tn] && !strings.HasPrefix(tn, "zkclient.ZKC") && !strings.HasPrefix(tn, "zkserver.ZKS") {
			return tn
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return has(u.Elem(), n+1)
		case *types.Slice:
			return has(u.Elem(), n+1)
		case *types.Array:
			return has(u.Elem(), n+1)
		case *types.Map:
			return has(u.Elem(), n+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if s := has(u.Field(i).Type(), n+1); s != "" {
					return s
				}
			}
		}
		return ""
	}
	for _, f := range l.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					n := staticName(in)
					how, ok := l.showsArgs(in, n)
					args := in.Common().Args
					if ok && len(args) > 0 {
						l.c.Count("place that shows or sends", n+" in "+fnName(f)+" "+strconv.Itoa(int(in.Pos())))
						for _, v := range elems(args[len(args)-1]) {
							l.typed(in, unwrap(v), has, how, true)
						}
					}
					if n == xdr2+".Marshal" {
						l.c.Count("place that shows or sends", n+" in "+fnName(f)+" "+strconv.Itoa(int(in.Pos())))
						w := unwrapAll(args[0])
						if isConnType(w.Type()) {
							l.typed(in, unwrapAll(args[1]), has, "is written to a connection", false)
							continue
						}
						if has(unwrapAll(args[1]).Type(), 0) != "" && !l.seen[args[1]] {
							// an encoding that holds one
							l.base(args[0], args[1])
						}
					}
					if strings.Contains(n, "spew.Sdump") || strings.HasPrefix(n, "fmt.Sprint") {
						for _, v := range elems(args[len(args)-1]) {
							l.typed(in, unwrap(v), has, "is made text", true)
						}
					}
				}
			}
		}
	}
	for len(l.todo) > 0 {
		v := l.todo[len(l.todo)-1]
		l.todo = l.todo[:len(l.todo)-1]
		l.flow(v)
	}
}

func unwrapAll(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func (l *leak) typed(in ssa.CallInstruction, v ssa.Value, has func(types.Type, int) string, how string, fm bool) {
	tn := has(v.Type(), 0)
	if tn == "" || fm && typeOnly(in, v) {
		return
	}
	w := fnName(in.Parent())
	l.c.Violation("shown/"+w+"/"+tn, in.Pos(), "%s: a %s, which holds a secret, %s", w, tn, how)
}
