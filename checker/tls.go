package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", func(c *Ctx) {
		c.Rule("every TLS configuration sets, before it is used, a minimum version of at least 1.2 and a list of cipher suites that are all forward secret and authenticated; none logs keys or replaces the random source")
		c.Rule("every TLS connection is given a configuration, and only the client's, which pins the certificate, skips its verification")
		c.Rule("a connection accepted or dialled over the network is used for nothing but TLS, and the connection of a session is a TLS connection")
		c.Rule("once a session is set up on a connection nothing is read from or written to that connection but by the session")
		c.transport()
		c.Need("TLS configuration", 2)
		c.Need("TLS connection", 2)
		c.Need("session's connection", 2)
	})
}

// goodSuites: ephemeral Diffie-Hellman with an AEAD.
var goodSuites = map[int64]bool{
	0xc02f: true, 0xc030: true, 0xc02b: true, 0xc02c: true, 0xcca8: true, 0xcca9: true,
	0x1301: true, 0x1302: true, 0x1303: true,
}

const tlsCfg = "crypto/tls.Config"

// tlsConn: the call makes a TLS connection or listener; args that hold the
// configuration, and the bare connection.
func tlsMaker(n string) (cfg, conn int, ok bool) {
	switch n {
	case "crypto/tls.Client", "crypto/tls.Server", "crypto/tls.NewListener":
		return 1, 0, true
	case "crypto/tls.Dial", "crypto/tls.Listen":
		return 2, -1, true
	case "crypto/tls.DialWithDialer":
		return 3, -1, true
	}
	return 0, 0, false
}

func isDial(n string) bool {
	switch n {
	case "net.Dial", "net.DialTimeout", "net.DialTCP", "net.DialUDP", "net.DialIP", "(*net.Dialer).Dial", "(*net.Dialer).DialContext":
		return true
	}
	return false
}

// harmless: calls on a connection that carry no data of the protocol.
func harmless(n string) bool {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	switch n {
	case "Close", "CloseWrite", "CloseRead", "RemoteAddr", "LocalAddr", "SetDeadline", "SetReadDeadline", "SetWriteDeadline",
		"SetKeepAlive", "SetKeepAlivePeriod", "SetKeepAliveConfig", "SetNoDelay", "SetLinger", "SetReadBuffer", "SetWriteBuffer",
		"ConnectionState", "Handshake", "HandshakeContext", "VerifyHostname":
		return true
	}
	return false
}

func callNames(ci ssa.CallInstruction) string {
	if cc := ci.Common(); cc.IsInvoke() {
		return "." + cc.Method.Name()
	}
	return staticName(ci)
}

// unixNet: the network argument of a dial or listen is the local one.
func unixNet(ci ssa.CallInstruction) bool {
	for _, a := range ci.Common().Args {
		if !isString(a.Type()) {
			continue
		}
		k, ok := a.(*ssa.Const)
		return ok && k.Value != nil && k.Value.Kind() == constant.String && strings.HasPrefix(constant.StringVal(k.Value), "unix")
	}
	return false
}

// listenerKind: what the listener a connection is accepted from speaks.
func (c *Ctx) bareListener(v ssa.Value) (bare bool, what string) {
	for _, o := range c.readerOrigins(v) {
		ci, ok := o.At.(ssa.CallInstruction)
		if !ok {
			if o.Kind == "const" {
				continue
			}
			return true, o.Kind + " " + o.Name
		}
		n := callNames(ci)
		if _, _, ok := tlsMaker(n); ok {
			continue
		}
		if strings.HasPrefix(n, "net.Listen") && (unixNet(ci) || n == "net.ListenUnix") {
			continue
		}
		bare, what = true, n
	}
	return bare, what
}

func (c *Ctx) transport() {
	p := c.P
	var bare []ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					switch strings.TrimPrefix(deref(in.Type()).String(), "*") {
					case tlsCfg:
						c.tlsConfig(in)
					case "crypto/tls.Dialer":
						if len(settings(in, "Config")) == 0 {
							c.Violation("noconfig/"+fnName(f), in.Pos(), "%s dials with a TLS dialer that was given no configuration", fnName(f))
						}
					}
				case *ssa.Store:
					c.tlsField(in)
				case ssa.CallInstruction:
					n := callNames(in)
					if cfg, _, ok := tlsMaker(n); ok {
						c.Count("TLS connection", n+" in "+fnName(f))
						c.configGiven(in.Common().Args[cfg], in, n)
					}
					v := in.Value()
					if v == nil {
						continue
					}
					switch {
					case isDial(n) && !unixNet(in), n == "(*crypto/tls.Conn).NetConn":
						bare = append(bare, v)
						c.Count("network connection", n+" in "+fnName(f))
					case n == ".Accept" || strings.HasSuffix(n, "Listener).Accept") || strings.HasSuffix(n, "Listener).AcceptTCP"):
						l := in.Common().Value
						if !in.Common().IsInvoke() {
							l = in.Common().Args[0]
						}
						if is, _ := c.bareListener(l); is {
							bare = append(bare, v)
							c.Count("network connection", n+" in "+fnName(f))
						}
					}
				}
			}
		}
	}
	for _, v := range bare {
		fl := &connFlow{c: c, src: v, seen: map[ssa.Value]bool{}}
		fl.walk(v)
	}
	c.sessionConn()
}

// settings: instructions that set a field of the structure behind al, the
// calls that do so for it included.
func settings(al ssa.Value, field string) []ssa.Instruction { return settingsN(al, field, 0) }

func settingsN(al ssa.Value, field string, depth int) []ssa.Instruction {
	var out []ssa.Instruction
	if al.Referrers() == nil || depth > 4 {
		return nil
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if _, f := staticField(r); f == nil || f.Name() != field {
				continue
			}
			for _, q := range *r.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == r {
					out = append(out, s)
				}
			}
		case *ssa.Store:
			// a copy of another one
			if r.Addr == al {
				if _, ok := r.Val.(*ssa.Const); !ok {
					out = append(out, r)
				}
			}
		case ssa.CallInstruction:
			g := r.Common().StaticCallee()
			if g == nil || !isRepoFn(g) || len(g.Blocks) == 0 {
				continue
			}
			for i, a := range r.Common().Args {
				if a == al && i < len(g.Params) && setsAlways(g, settingsN(g.Params[i], field, depth+1)) {
					out = append(out, r)
				}
			}
		}
	}
	return out
}

// setsAlways: every return of f comes after one of the instructions.
func setsAlways(f *ssa.Function, set []ssa.Instruction) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !after(r, set) {
			return false
		}
	}
	return len(set) > 0
}

// after: no path reaches in without passing one of the instructions.
func after(in ssa.Instruction, set []ssa.Instruction) bool {
	stops := map[*ssa.BasicBlock]bool{}
	for _, s := range set {
		if s.Block() == in.Block() {
			for _, x := range s.Block().Instrs {
				if x == s {
					return true
				}
				if x == in {
					break
				}
			}
		}
		if s.Block() != in.Block() {
			stops[s.Block()] = true
		}
	}
	if in.Parent() == nil || len(in.Parent().Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{in.Parent().Blocks[0]}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[b] || stops[b] {
			continue
		}
		seen[b] = true
		if b == in.Block() {
			return false
		}
		todo = append(todo, b.Succs...)
	}
	return true
}

// tlsConfig: the configuration is complete wherever it is used.
func (c *Ctx) tlsConfig(al *ssa.Alloc) {
	w := fnName(al.Parent())
	c.Count("TLS configuration", w)
	if al.Referrers() == nil {
		return
	}
	for _, need := range []string{"MinVersion", "CipherSuites"} {
		set := settings(al, need)
		for _, r := range *al.Referrers() {
			switch q := r.(type) {
			case *ssa.FieldAddr, *ssa.DebugRef:
				continue
			case *ssa.Store:
				if q.Addr == al {
					continue
				}
			}
			own := false
			for _, s := range set {
				own = own || s == r
			}
			if own || after(r, set) {
				continue
			}
			if ci, ok := r.(ssa.CallInstruction); ok {
				if _, _, tls := tlsMaker(callNames(ci)); !tls && len(set) > 0 {
					continue // on its way to being set
				}
			}
			// a closure uses it later than it is built
			if mc, ok := r.(*ssa.MakeClosure); ok && after(mc, set) {
				continue
			}
			c.Violation("unset/"+need+"/"+w, al.Pos(), "%s uses a TLS configuration on a path that did not set its %s", w, need)
		}
	}
}

// tlsField: a value put in a field of a configuration.
func (c *Ctx) tlsField(s *ssa.Store) {
	o, f := staticField(s.Addr)
	if f == nil || f.Pkg() == nil || f.Pkg().Path() != "crypto/tls" || !strings.HasSuffix(o, "tls.Config") {
		return
	}
	w := fnName(s.Parent())
	consts := func(bad func(n int64) bool, what string) {
		n := 0
		for _, o := range c.readerOrigins(s.Val) {
			k, ok := o.V.(*ssa.Const)
			if o.Kind == "make" || o.Kind == "call" && o.Name == "make" {
				continue
			}
			if o.Kind != "const" || !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				c.Violation("config/"+f.Name()+"/"+w, s.Pos(), "%s: what a TLS configuration holds as %s cannot be told (%s %s)", w, f.Name(), o.Kind, o.Name)
				continue
			}
			n++
			if x, _ := constant.Int64Val(k.Value); bad(x) {
				c.Violation("config/"+f.Name()+"/"+w, s.Pos(), "%s: a TLS configuration %s (%#x)", w, what, x)
			}
		}
		if n == 0 {
			c.Violation("config/"+f.Name()+"/"+w, s.Pos(), "%s: a TLS configuration is given an empty %s", w, f.Name())
		}
	}
	switch f.Name() {
	case "MinVersion":
		consts(func(n int64) bool { return n < 0x303 }, "allows versions before 1.2")
	case "MaxVersion":
		consts(func(n int64) bool { return n != 0 && n < 0x303 }, "allows only versions before 1.2")
	case "CipherSuites":
		consts(func(n int64) bool { return !goodSuites[n] }, "has a cipher suite that is not forward secret and authenticated")
	case "InsecureSkipVerify":
		k, ok := s.Val.(*ssa.Const)
		if (!ok || constant.BoolVal(k.Value)) && !inPkg(s.Parent(), "zkclient") {
			c.Violation("config/"+f.Name()+"/"+w, s.Pos(), "%s: a TLS configuration skips the verification of the certificate and nothing pins it", w)
		}
	case "KeyLogWriter":
		if k, ok := s.Val.(*ssa.Const); !ok || k.Value != nil {
			c.Violation("config/"+f.Name()+"/"+w, s.Pos(), "%s: a TLS configuration writes its keys to a log", w)
		}
	case "Rand":
		if k, ok := s.Val.(*ssa.Const); ok && k.Value == nil {
			return
		}
		if ok, what := c.secure(s.Val); !ok {
			c.Violation("config/"+f.Name()+"/"+w, s.Pos(), "%s: a TLS configuration draws its keys from %s", w, what)
		}
	}
}

// configGiven: a TLS connection is not made with the default configuration.
func (c *Ctx) configGiven(v ssa.Value, in ssa.CallInstruction, n string) {
	stop := func(v ssa.Value) (origin, bool) {
		if a, ok := v.(*ssa.Alloc); ok && strings.HasSuffix(deref(a.Type()).String(), tlsCfg) {
			return origin{"config", "", v, a}, true
		}
		return origin{}, false
	}
	for _, o := range c.P.origins(v, stop) {
		if k, ok := o.V.(*ssa.Const); ok && k.Value == nil {
			c.Violation("noconfig/"+fnName(in.Parent()), in.Pos(), "%s: %s is given no configuration", fnName(in.Parent()), n)
		}
	}
}

// connFlow follows a bare connection.
type connFlow struct {
	c    *Ctx
	src  ssa.Value
	seen map[ssa.Value]bool
}

func (fl *connFlow) bad(in ssa.Instruction, how string) {
	w := fnName(in.Parent())
	fl.c.Violation("bare/"+w, in.Pos(), "%s: a network connection is %s without TLS", w, how)
}

func carriesConn(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Tuple:
		return true
	case *types.Interface:
		return u.NumMethods() != 1 || u.Method(0).Name() != "Error"
	case *types.Pointer, *types.Struct, *types.Slice, *types.Array, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (fl *connFlow) walk(v ssa.Value) {
	if v == nil || fl.seen[v] || v.Referrers() == nil {
		return
	}
	fl.seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Extract:
			if r.Type().String() != "error" && r.Type().String() != "bool" {
				fl.walk(r)
			}
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.TypeAssert, *ssa.Slice:
			fl.walk(r.(ssa.Value))
		case *ssa.UnOp:
			fl.walk(r)
		case *ssa.Store:
			if r.Val == v {
				fl.stored(r)
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					fl.walk(r.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		case *ssa.Send:
			if r.X == v {
				fl.received(r.Chan.Type())
			}
		case *ssa.MapUpdate:
			if r.Value == v {
				fl.looked(r.Map.Type())
			}
		case *ssa.Return:
			for i, x := range r.Results {
				if x == v {
					fl.returned(r.Parent(), i)
				}
			}
		case ssa.CallInstruction:
			fl.call(r, v)
		}
	}
}

func (fl *connFlow) stored(s *ssa.Store) {
	switch a := s.Addr.(type) {
	case *ssa.FieldAddr:
		o, f := staticField(a)
		for _, g := range fl.c.P.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if q, ok := in.(ssa.Value); ok {
						if o2, f2 := staticField(q); f2 != nil && f2 == f && o2 == o {
							fl.walk(q)
						}
					}
				}
			}
		}
	case *ssa.IndexAddr:
		// the arguments of a print
		if _, ok := deref(a.Type()).Underlying().(*types.Interface); ok && deref(a.Type()).Underlying().(*types.Interface).NumMethods() == 0 {
			return
		}
		fl.walk(a.X)
	case *ssa.Global:
		for _, g := range fl.c.P.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.X == a {
						fl.walk(u)
					}
				}
			}
		}
	default:
		fl.walk(s.Addr)
	}
}

func (fl *connFlow) received(t types.Type) {
	for _, g := range fl.c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.ARROW && types.Identical(in.X.Type().Underlying().(*types.Chan).Elem(), t.Underlying().(*types.Chan).Elem()) {
						fl.walk(in)
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.RecvOnly && types.Identical(s.Chan.Type().Underlying().(*types.Chan).Elem(), t.Underlying().(*types.Chan).Elem()) {
							fl.walk(in)
						}
					}
				}
			}
		}
	}
}

func (fl *connFlow) looked(t types.Type) {
	for _, g := range fl.c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Lookup:
					if types.Identical(in.X.Type(), t) {
						fl.walk(in)
					}
				case *ssa.Next:
					if rg, ok := in.Iter.(*ssa.Range); ok && types.Identical(rg.X.Type(), t) {
						fl.walk(in)
					}
				}
			}
		}
	}
}

func (fl *connFlow) returned(f *ssa.Function, i int) {
	for _, ci := range fl.c.P.callers[f] {
		v := ci.Value()
		if v == nil {
			continue
		}
		if f.Signature.Results().Len() == 1 {
			fl.walk(v)
			continue
		}
		for _, r := range *v.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				fl.walk(e)
			}
		}
	}
}

func (fl *connFlow) call(ci ssa.CallInstruction, v ssa.Value) {
	cc := ci.Common()
	n := callNames(ci)
	if _, conn, ok := tlsMaker(n); ok && conn >= 0 && cc.Args[conn] == v {
		return
	}
	if cc.IsInvoke() && cc.Value == v || len(cc.Args) > 0 && cc.Args[0] == v && cc.StaticCallee() != nil && cc.StaticCallee().Signature.Recv() != nil {
		if harmless(n) {
			return
		}
	}
	if g := cc.StaticCallee(); g != nil && isRepoFn(g) && len(g.Blocks) > 0 {
		for i, a := range cc.Args {
			if a == v && i < len(g.Params) {
				fl.walk(g.Params[i])
			}
		}
		return
	}
	if g, ok := cc.Value.(*ssa.MakeClosure); ok {
		for i, a := range cc.Args {
			if a == v {
				fl.walk(g.Fn.(*ssa.Function).Params[i])
			}
		}
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		if x := ci.Value(); x != nil {
			fl.walk(x)
		}
		return
	}
	if cc.IsInvoke() && cc.Value != v {
		// a value given to some implementation in this program
		for _, g := range fl.c.P.Funcs {
			if g.Name() == cc.Method.Name() && g.Signature.Recv() != nil && len(g.Params) == len(cc.Args)+1 {
				for i, a := range cc.Args {
					if a == v {
						fl.walk(g.Params[i+1])
					}
				}
			}
		}
		return
	}
	fl.bad(ci, "used ("+strings.TrimPrefix(n, ".")+")")
}

// sessionConn: the connection of a session is a TLS connection, and is left
// to the session.
func (c *Ctx) sessionConn() {
	c.passed = map[ssa.Value]bool{}
	for _, s := range c.P.fieldStores("session.KX.Conn") {
		w := fnName(s.Parent())
		c.Count("session's connection", w)
		for _, o := range c.readerOrigins(s.Val) {
			ci, ok := o.At.(ssa.CallInstruction)
			if !ok {
				if o.Kind == "const" {
					continue
				}
				c.Violation("session/"+w, s.Pos(), "%s: the connection of a session comes from %s %s, not from TLS", w, o.Kind, o.Name)
				continue
			}
			n := callNames(ci)
			if _, _, ok := tlsMaker(n); ok {
				continue
			}
			if n == ".Accept" {
				if b, _ := c.bareListener(ci.Common().Value); !b {
					continue
				}
			}
			c.Violation("session/"+w, s.Pos(), "%s: the connection of a session comes from %s, not from TLS", w, n)
		}
		c.leftAlone(s, s.Val, false, map[ssa.Instruction]bool{})
	}
	for _, f := range c.P.Funcs {
		if inPkg(f, "session") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if o, fl := staticField(v); fl == nil || o+"."+fl.Name() != "session.KX.Conn" {
					continue
				}
				for _, r := range *v.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok {
						for _, q := range *u.Referrers() {
							c.passesBy(q, u)
						}
					}
				}
			}
		}
	}
}

// passesBy reports a use of a session's connection that reads or writes.
func (c *Ctx) passesBy(in ssa.Instruction, v ssa.Value) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		switch in := in.(type) {
		case *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert:
			bad := false
			x := in.(ssa.Value)
			for _, r := range *x.Referrers() {
				bad = c.passesBy(r, x) || bad
			}
			return bad
		}
		return false
	}
	cc := ci.Common()
	if cc.IsInvoke() && cc.Value == v && harmless("."+cc.Method.Name()) {
		return false
	}
	if g := cc.StaticCallee(); g != nil {
		if g.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == v && harmless("."+g.Name()) {
			return false
		}
		if isRepoFn(g) && len(g.Blocks) > 0 {
			bad := false
			for i, a := range cc.Args {
				if a != v || i >= len(g.Params) || c.passed[g.Params[i]] {
					continue
				}
				c.passed[g.Params[i]] = true
				for _, r := range *g.Params[i].Referrers() {
					bad = c.passesBy(r, g.Params[i]) || bad
				}
			}
			return bad
		}
	}
	c.Violation("past/"+fnName(in.Parent()), in.Pos(), "%s: data passes the session by: %s uses its connection", fnName(in.Parent()), strings.TrimPrefix(callNames(ci), "."))
	return true
}

// plain strips what does not change a connection.
func plain(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				return al
			}
			return v
		default:
			return v
		}
	}
}

// leftAlone: after the instruction, which makes conn a session's, conn is not
// used for data.
func (c *Ctx) leftAlone(at ssa.Instruction, conn ssa.Value, caller bool, done map[ssa.Instruction]bool) {
	if done[at] {
		return
	}
	done[at] = true
	conn = plain(conn)
	f := at.Parent()
	visit := func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, ok := in.(*ssa.Defer); ok {
			return
		}
		for _, a := range append([]ssa.Value{ci.Common().Value}, ci.Common().Args...) {
			if a != nil && plain(a) == conn {
				c.passesBy(in, a)
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		// in a caller: whether it goes round again depends on what the call
		// answered
		if seen[b] || caller && b.Dominates(at.Block()) {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			visit(in)
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	past := false
	for _, in := range at.Block().Instrs {
		if past {
			visit(in)
		}
		past = past || in == at
	}
	for _, s := range at.Block().Succs {
		walk(s)
	}
	// its callers
	p, ok := conn.(*ssa.Parameter)
	if !ok {
		return
	}
	for i, q := range f.Params {
		if q != p {
			continue
		}
		for _, ci := range c.P.callers[f] {
			if ci.Common().StaticCallee() == f && i < len(ci.Common().Args) {
				if _, ok := ci.(*ssa.Go); !ok {
					c.leftAlone(ci, ci.Common().Args[i], true, done)
				}
			}
		}
	}
}
