package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", func(c *Ctx) {
		c.Rule("a received file is renamed into place only after the digest of that very spool file was found equal to the announced one, with nothing written since, and only to a path that was found not to exist")
		c.Rule("a chunk is written only at the end of its own spool file: the offset it carries was found equal to the file's size since the last write, and offset and length together were found to stay within the announced size")
		c.Rule("the spool file and the announcement are those of the sender the ratchet authenticated and of the digest the chunk names, and are found where the announcement put them")
		c.Rule("the sender announces the size and the digest of the whole file before the first chunk and with no lower priority; each chunk is queued in memory of its own, cut to what was read, with the sum of what was sent before as its offset, and nothing that was read is left out")
		c.received()
		c.sent()
		c.Need("file moved into place", 1)
		c.Need("chunk written", 1)
		c.Need("announcement stored", 1)
		c.Need("chunk sent", 1)
		c.Need("file announced", 1)
	})
}

func hasParam(f *ssa.Function, t string) bool {
	for _, p := range f.Params {
		if typeName(deref(p.Type())) == t {
			return true
		}
	}
	return false
}

// handlers: the outermost functions that take a message of the type and do
// the event.
func (c *Ctx) handlers(t string, ev func(p *Prog, in ssa.Instruction) bool) []*ssa.Function {
	does := c.P.reaches(ev)
	in := func(f *ssa.Function) bool { return inPkg(f, "zkclient") && does[f] && hasParam(f, t) }
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if !in(f) {
			continue
		}
		inner := false
		for _, ci := range c.P.callers[f] {
			inner = inner || ci.Parent() != f && in(ci.Parent())
		}
		if !inner {
			out = append(out, f)
		}
	}
	return out
}

// terms of sizes: offset, length of the payload, size of the file, announced
// size; "-" marks what was subtracted.
func sizeTerms(v AV) (t []string) {
	for _, l := range v.labels() {
		if strings.HasPrefix(l, "q:") {
			t = append(t, l[2:])
		}
	}
	return
}

func fileLabel(owner string, f *types.Var, v AV) string {
	switch owner {
	case "rpc.Push":
		if f.Name() == "From" {
			return "from"
		}
	case "rpc.Chunk":
		switch f.Name() {
		case "Offset":
			return "q:+off"
		case "Payload":
			return "q:+len"
		case "Digest":
			return "dig"
		}
	case "rpc.ChunkNew":
		switch f.Name() {
		case "Size":
			return "q:+ann"
		case "Digest":
			return "adig"
		case "Filename":
			return "annname"
		}
	}
	return ""
}

// pathShape: what a path is made of.
func pathShape(v AV) string {
	m := map[string]bool{}
	for _, l := range v.labels() {
		switch {
		case strings.HasPrefix(l, "s:"):
			for _, s := range strings.Split(strings.Trim(l[2:], "/."), "/") {
				if s != "" {
					m[s] = true
				}
			}
		case l == "dig" || l == "adig":
			m["<digest>"] = true
		case l == "from":
			m["<sender>"] = true
		}
	}
	return strings.Join(sortedKeys(m), " ")
}

func (c *Ctx) received() {
	var deepl func(e *Engine, st *State, v AV) string
	deepl = func(e *Engine, st *State, v AV) string {
		l := e.deepLab(st, v)
		e.deepValues(st, v, 3, func(x AV) {
			l = labJoin(l, x.Lab)
			if x.Addr == nil {
				return
			}
			l = labJoin(l, x.Addr.Base)
			if f := x.Addr.field(); f != nil {
				if q := fileLabel(x.Addr.Owner, f, AV{}); q != "" {
					l = labJoin(l, lab(q))
				}
			}
		})
		return l
	}
	ident := func(v AV) string {
		if v.Expr != "" {
			return v.Expr
		}
		return "#" + strconv.Itoa(v.Sym)
	}
	shapes := map[string]map[string]string{"spool": {}, "announcement": {}}
	where := map[string]ssa.Instruction{}
	build := func(id string) *Rule {
		r := &Rule{ID: id, HeapCells: true}
		r.Event = func(p *Prog, in ssa.Instruction) bool {
			if !inPkg(in.Parent(), "zkclient") {
				return false
			}
			return callEvent("os.Rename", "os.Link", "os.OpenFile", "os.Open", "os.Create", "os.Stat", "os.Lstat", "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).Stat", "(*os.File).Seek", "github.com/marcopeereboom/goutil.FileSHA256", "path.Join", "encoding/hex.EncodeToString", "bytes.Equal", fnUnmarshal)(p, in)
		}
		r.NoInline = func(f *ssa.Function) bool {
			return inPkg(f, "ratchet", "blobshare", "inidb", "session", "zkclient/addressbook", "debug") || f.Signature.Variadic()
		}
		r.FieldLab = fileLabel
		r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
			if f := a.field(); f != nil && strings.HasSuffix(a.Owner, "ettings") && v.Expr == "" {
				v.Expr = "set." + f.Name()
			}
			return v
		}
		return r
	}
	rule := func(id string) *Rule {
		r := build(id)
		r.Post = func(e *Engine, st *State, in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok || b.Op != token.SUB || !isInt(b.Type()) {
				return
			}
			x, y := e.val(st, b.X), e.val(st, b.Y)
			if len(sizeTerms(y)) == 0 {
				return
			}
			l := x.Lab
			for _, q := range y.labels() {
				switch {
				case strings.HasPrefix(q, "q:+"):
					q = "q:-" + q[3:]
				case strings.HasPrefix(q, "q:-"):
					q = "q:+" + q[3:]
				}
				l = labJoin(l, lab(q))
			}
			if x.has("q:+ann") {
				// unsigned: less than nothing is a lot
				for _, t := range sizeTerms(y) {
					if t[0] == '+' && st.Get("within:"+sameTerm(t[1:])) == "" && !isSigned(b.Type()) {
						l = labJoin(l, lab("q:wrap"))
					}
				}
			}
			v := e.val(st, b)
			v.Lab = l
			st.vals[VKey{st.depth(), b}] = v
		}
		r.Cmp = func(x *CmpCtx) []Out {
			tx, ty := sizeTerms(x.X), sizeTerms(x.Y)
			if len(tx)+len(ty) == 0 {
				if isArr(x.In.X.Type()) {
					if sameDigest(x.X.Lab, x.Y.Lab) {
						return cmpFork(x, func(s *State, op token.Token) {
							if op == token.EQL {
								s.Set("samedig", "1")
							}
						})
					}
					h, a, ok := digestPair(x.X.Lab, x.Y.Lab)
					if ok {
						return cmpFork(x, func(s *State, op token.Token) {
							if op == token.EQL {
								s.Set("ok:"+h, a)
							}
						})
					}
				}
				return nil
			}
			// x - y, ordered
			m := map[string]int{}
			for _, t := range tx {
				add(m, t, 1)
			}
			for _, t := range ty {
				add(m, t, -1)
			}
			return cmpFork(x, func(s *State, op token.Token) {
				sizeFact(s, m, op)
			})
		}
		bytesEq := func(x *CallCtx) []Out {
			if sameDigest(deepl(x.E, x.St, x.Args[0]), deepl(x.E, x.St, x.Args[1])) && x.Name == "bytes.Equal" {
				return boolFork(x, "the digests are equal", func(s *State) { s.Set("samedig", "1") }, nil)
			}
			h, a, ok := digestPair(deepl(x.E, x.St, x.Args[0]), deepl(x.E, x.St, x.Args[1]))
			if !ok {
				return nil
			}
			do := func(s *State) { s.Set("ok:"+h, a) }
			if x.Name == "crypto/subtle.ConstantTimeCompare" {
				return []Out{{Res: []AV{{K: Const, C: "1"}}, Do: do}, {Res: []AV{{K: Zero}}}}
			}
			return boolFork(x, "the digests are equal", do, nil)
		}
		file := func(x *CallCtx, what string) []Out {
			k := ident(x.Args[0])
			l := labJoin(lab("file:"+strings.ReplaceAll(k, ",", ";")), x.Args[0].Lab)
			return errFork(x, what, []AV{{K: NonZero, Lab: l}}, nil, nil)
		}
		r.Call = func(x *CallCtx) []Out {
			st, e := x.St, x.E
			w := fnName(x.Instr.Parent())
			switch x.Name {
			case "path.Join", "path/filepath.Join":
				outs := stdCall(x)
				var k []string
				ok := true
				for _, a := range x.Args {
					e.deepValues(st, a, 1, func(v AV) {
						if len(v.Agg) > 0 {
							ks := make([]string, 0)
							for i := range v.Agg {
								ks = append(ks, i)
							}
							sort.Strings(ks)
							for _, i := range ks {
								y := v.Agg[i]
								switch {
								case y.K == Const:
									k = append(k, y.C)
								case y.Expr != "":
									k = append(k, y.Expr)
								case y.Sym != 0:
									k = append(k, "#"+strconv.Itoa(y.Sym))
								default:
									ok = false
								}
							}
						}
					})
				}
				if s := "join(" + strings.Join(k, " ") + ")"; ok && len(k) > 0 && len(s) < 200 {
					for i := range outs {
						outs[i].Res[0].Expr = strings.ReplaceAll(s, ",", ";")
					}
				}
				return outs
			case "encoding/hex.EncodeToString":
				l := deepl(e, st, x.Args[0])
				v := AV{K: NonZero, Lab: l}
				if s := strings.Trim(l, ","); len(s) > 0 && len(s) < 60 {
					v.Expr = "hex(" + strings.ReplaceAll(s, ",", "+") + ")"
				}
				return []Out{{Res: []AV{v}}}
			case "os.Open", "os.OpenFile", "os.Create":
				if x.Name != "os.Open" {
					st.Set("made", st.Get("made")+".")
					if len(st.Get("made")) > 3 {
						st.Set("made", "...")
					}
				}
				return file(x, "opening the file")
			case "os.ReadFile", "io/ioutil.ReadFile":
				return file(x, "reading the file")
			case "os.Stat", "os.Lstat":
				k := ident(x.Args[0])
				return errFork(x, "finding the file", []AV{{K: NonZero, Lab: lab("file:" + strings.ReplaceAll(k, ",", ";"))}}, nil, func(s *State) { s.Set("free", k) })
			case "(*os.File).Stat":
				return errFork(x, "the file's status", []AV{{K: NonZero, Lab: x.Args[0].Lab}}, nil, nil)
			case "(io/fs.FileInfo).Size", "(os.FileInfo).Size":
				g := st.Get("writes")
				l := lab("q:+size")
				for _, y := range x.Args[0].labels() {
					if strings.HasPrefix(y, "file:") {
						l = labJoin(l, lab(y))
					}
				}
				if g != "" {
					l = lab("q:+newsize")
				}
				return []Out{{Res: []AV{{Lab: l}}}}
			case "(*os.File).Seek":
				if len(x.Args) == 3 {
					if n, ok := intOf(x.Args[2]); ok && n == 2 {
						return errFork(x, "seeking", []AV{{Lab: labJoin(lab("q:+size"), x.Args[0].Lab)}}, nil, nil)
					}
				}
			case "(*os.File).Name":
				return []Out{{Res: []AV{{Lab: x.Args[0].Lab}}}}
			case "github.com/marcopeereboom/goutil.FileSHA256":
				k := "file:" + strings.ReplaceAll(ident(x.Args[0]), ",", ";")
				st.Set("ok:"+k, "")
				return errFork(x, "the file's digest", []AV{{K: NonZero, Lab: lab("hash", k)}}, nil, nil)
			case "(hash.Hash).Sum", "crypto/sha256.Sum256":
				l := lab("hash")
				for _, y := range (AV{Lab: deepl(e, st, x.Args[0])}).labels() {
					if strings.HasPrefix(y, "file:") {
						l = labJoin(l, lab(y))
					}
				}
				return []Out{{Res: []AV{{K: NonZero, Lab: l}}}}
			case "bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare":
				if o := bytesEq(x); o != nil {
					return o
				}
			case "(*github.com/davecgh/go-xdr/xdr2.Decoder).Decode", fnUnmarshal, xdr2 + ".UnmarshalLimited":
				src, dst := x.Args[0], x.Args[1]
				if typeName(deref(deref(dyn(dst)))) != "rpc.ChunkNew" {
					break
				}
				l := deepl(e, st, src)
				e.Count("announcement read", w)
				shapes["announcement"][fnName(entryOf(st))] = pathShape(AV{Lab: l})
				where["announcement"+fnName(entryOf(st))] = x.Instr
				own := (AV{Lab: l}).has("dig") && (AV{Lab: l}).has("from")
				return errFork(x, "decoding the announcement", []AV{{}}, func(s *State) {
					e.havoc(s, dst.Addr, lab("wire"))
					if !own {
						s.Set("other", "1")
					}
				}, nil)
			case "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString", "io.WriteString", "io.Copy", "(*bufio.Writer).Write", "fmt.Fprint":
				l := ""
				for _, a := range x.Args[1:] {
					l = labJoin(l, deepl(e, st, a))
				}
				if !(AV{Lab: l}).has("q:+len") {
					break
				}
				e.Count("chunk written", w)
				f := AV{Lab: deepl(e, st, x.Args[0])}
				shapes["spool"][fnName(entryOf(st))] = pathShape(f)
				where["spool"+fnName(entryOf(st))] = x.Instr
				if !f.has("dig") || !f.has("from") {
					e.Violation(st, "spool/"+w, x.Instr, "a chunk is written to a file that is not the one of its sender and digest")
				}
				if st.Get("eq") != "1" {
					e.Violation(st, "offset/"+w, x.Instr, "a chunk is written although its offset was not found equal to the size of the spool file since the last write")
				}
				if st.Get("bound") != "1" {
					e.Violation(st, "bound/"+w, x.Instr, "a chunk is written although it was not found to stay within the announced size")
				}
				if st.Get("other") == "1" && st.Get("samedig") != "1" {
					e.Violation(st, "announcement/"+w, x.Instr, "the announcement the chunk is held against is not found by both the sender and the digest of the chunk")
				}
				return errFork(x, "writing the chunk", []AV{{}}, func(s *State) { wrote(s) }, func(s *State) { wrote(s) })
			case "os.Rename", "os.Link":
				src, dst := x.Args[0], x.Args[1]
				if !src.has("dig") && !src.has("adig") && !dst.has("annname") {
					break
				}
				e.Count("file moved into place", w)
				k := "file:" + strings.ReplaceAll(ident(src), ",", ";")
				if a := st.Get("ok:" + k); a == "" {
					e.Violation(st, "digest/"+w, x.Instr, "a received file is moved into place although its digest was not found equal to the announced one since it was last written")
				}
				if x.Name == "os.Rename" && st.Get("free") != ident(dst) {
					e.Violation(st, "free/"+w, x.Instr, "a received file may replace a file that is there: the path it is moved to was not found to be free")
				}
				if !src.has("from") {
					e.Violation(st, "sender/"+w, x.Instr, "the file moved into place is not that of the sender")
				}
				return errFork(x, "moving the file", nil, nil, nil)
			}
			return stdCall(x)
		}
		return r
	}
	moves := callEvent("os.Rename", "os.Link")
	entries := c.handlers("rpc.Chunk", moves)
	if len(entries) == 0 {
		for _, f := range c.P.climb(c.P.eventFuncs(moves, "zkclient"), func(f *ssa.Function) bool { return hasParam(f, "rpc.Push") }) {
			entries = append(entries, f)
		}
	}
	c.Explore(rule("received chunk"), nil, entries)

	// what the announcement creates
	r := build("announcement")
	inner := rule("announcement").Call
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		w := fnName(x.Instr.Parent())
		switch x.Name {
		case "os.Create", "os.OpenFile":
			s := pathShape(x.Args[0])
			if !x.Args[0].has("adig") || !x.Args[0].has("from") {
				e.Violation(st, "created/"+w, x.Instr, "a file made for an announcement is not told apart by its sender and its digest: another transfer uses the same one")
			}
			if !strings.Contains(s, " ") {
				break
			}
			shapes["created"+s] = map[string]string{"": s}
		case "(*github.com/davecgh/go-xdr/xdr2.Encoder).Encode", fnMarshal:
			ok := false
			for _, a := range x.Args {
				e.deepValues(st, a, 2, func(v AV) { ok = ok || typeName(deref(dyn(v))) == "rpc.ChunkNew" })
			}
			if ok {
				e.Count("announcement stored", w)
				f := AV{Lab: deepl(e, st, x.Args[0])}
				shapes["stored"+pathShape(f)] = map[string]string{"": pathShape(f)}
			}
		}
		return inner(x)
	}
	var news []*ssa.Function
	for _, f := range c.handlers("rpc.ChunkNew", callEvent("os.Create", "os.OpenFile")) {
		if hasParam(f, "rpc.Push") {
			news = append(news, f)
		}
	}
	c.Explore(r, nil, news)
	for _, kind := range []string{"spool", "announcement"} {
		for ph, s := range shapes[kind] {
			found := false
			var all []string
			for k := range shapes {
				if strings.HasPrefix(k, "created") {
					all = append(all, k[7:])
					found = found || k[7:] == s
				}
			}
			if len(all) > 0 && !found && strings.Contains(s, " ") {
				sort.Strings(all)
				in := where[kind+ph]
				c.Violation("place/"+kind, in.Pos(), "the %s is looked for under %q, but announcements create %q", kind, s, strings.Join(all, "; "))
			}
		}
	}
}

func entryOf(st *State) *ssa.Function { return st.frames[0].fn }

func dyn(v AV) types.Type {
	if v.Dyn != nil {
		return v.Dyn
	}
	return types.Typ[types.Invalid]
}

func isArr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// sameTerm: the offset stands for the size it was found equal to.
func sameTerm(t string) string {
	if t == "size" {
		return "off"
	}
	return t
}

func add(m map[string]int, t string, n int) {
	if t == "wrap" {
		m["wrap"]++
		return
	}
	if t[0] == '-' {
		n = -n
	}
	m[t[1:]] += n
}

// sizeFact: the sum of the terms stands in this relation to nothing.
func sizeFact(s *State, m map[string]int, op token.Token) {
	if m["wrap"] != 0 {
		return
	}
	t := map[string]int{}
	for k, n := range m {
		if n != 0 {
			t[k] = n
		}
	}
	if len(t) == 2 && t["off"] != 0 && t["size"] == -t["off"] {
		o := op
		if t["off"] < 0 {
			o = flip(op)
		}
		switch o {
		case token.EQL:
			s.Set("eq", "1")
		case token.GEQ:
			s.Set("ge", "1")
		case token.LEQ:
			s.Set("le", "1")
		}
		if s.Get("ge") == "1" && s.Get("le") == "1" {
			s.Set("eq", "1")
		}
		return
	}
	if t["ann"] == 0 {
		return
	}
	o := op
	if t["ann"] < 0 {
		o = flip(op)
		for k := range t {
			t[k] = -t[k]
		}
	}
	if o != token.GEQ && o != token.GTR && o != token.EQL || t["ann"] != 1 {
		return
	}
	pos := 0
	if t["off"] == -1 {
		pos++
	}
	if t["size"] == -1 {
		pos++
	}
	switch {
	case len(t) == 3 && pos == 1 && t["len"] == -1:
		s.Set("bound", "1")
	case len(t) == 2 && pos == 1:
		s.Set("within:off", "1")
	case len(t) == 2 && t["len"] == -1:
		s.Set("within:len", "1")
	}
}

// wrote: the size of the file is another one now.
func wrote(s *State) {
	for _, k := range []string{"eq", "ge", "le", "bound", "within:off", "within:len"} {
		s.Set(k, "")
	}
	s.Set("writes", "1")
	for k := range s.auto {
		if strings.HasPrefix(k, "ok:") {
			s.Set(k, "")
		}
	}
}

// digestPair: the digest of a file against the announced one.
func digestPair(a, b string) (file, ann string, ok bool) {
	x, y := AV{Lab: a}, AV{Lab: b}
	if y.has("hash") {
		x, y = y, x
	}
	if !x.has("hash") || y.has("hash") || !y.has("adig") && !y.has("dig") {
		return
	}
	for _, l := range x.labels() {
		if strings.HasPrefix(l, "file:") {
			file = l
		}
	}
	return file, "1", file != ""
}

// sent: the sending half.
func (c *Ctx) sent() {
	gone := c.P.reaches(leaves)
	sends := func(f *ssa.Function) bool { return f != nil && gone[f] && inPkg(f, "zkclient") }
	isMsg := func(in ssa.Instruction, t string) bool {
		mi, ok := in.(*ssa.MakeInterface)
		return ok && typeName(deref(mi.X.Type())) == t && sendsIt(mi)
	}
	reads := map[string]bool{"(*os.File).Read": true, "(*os.File).ReadAt": true, "io.ReadFull": true, "io.ReadAtLeast": true, "(*bufio.Reader).Read": true, "(io.Reader).Read": true}
	readEv := func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && reads[staticName(ci)]
	}
	hashEv := callEvent("io.Copy", "crypto/sha256.Sum256", "github.com/marcopeereboom/goutil.FileSHA256")
	doesRead, doesHash := c.P.reaches(readEv), c.P.reaches(hashEv)
	chunkEv := func(p *Prog, in ssa.Instruction) bool { return isMsg(in, "rpc.Chunk") }
	doesChunk := c.P.reaches(chunkEv)
	// the memory of a payload that waits to be sent
	c.handover(func(f *ssa.Function) bool { return inPkg(f, "zkclient") && doesChunk[f] && doesRead[f] })
	entries := c.P.climb(c.P.eventFuncs(chunkEv, "zkclient"), func(f *ssa.Function) bool { return doesRead[f] && doesHash[f] })

	for i := len(entries) - 1; i >= 0; i-- {
		if hasParam(entries[i], "rpc.Push") {
			entries = append(entries[:i], entries[i+1:]...)
		}
	}
	r := &Rule{ID: "sent file", HeapCells: true}
	r.Event = func(p *Prog, in ssa.Instruction) bool {
		if !inPkg(in.Parent(), "zkclient") {
			return false
		}
		return isMsg(in, "rpc.Chunk") || isMsg(in, "rpc.ChunkNew") || readEv(p, in) || hashEv(p, in) || callEvent("(*os.File).Seek", "(hash.Hash).Sum")(p, in)
	}
	r.NoInline = func(f *ssa.Function) bool {
		return inPkg(f, "ratchet", "blobshare", "inidb", "session", "zkclient/addressbook", "debug") || f.Signature.Variadic()
	}
	gen := func(st *State) string { // of the chunk being read
		if st.Get("gen") == "" {
			return "0"
		}
		return st.Get("gen")
	}
	prev := func(g string) string { return string('0' + (g[0]-'0'+2)%3) }
	next := func(g string) string { return string('0' + (g[0]-'0'+1)%3) }
	put := func(st *State, v ssa.Value, l ...string) {
		x := st.vals[VKey{st.depth(), v}]
		x.Lab = lab(l...)
		st.vals[VKey{st.depth(), v}] = x
	}
	r.Post = func(e *Engine, st *State, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.BinOp:
			if in.Op != token.ADD || !isInt(in.Type()) {
				return
			}
			x, y := e.val(st, in.X), e.val(st, in.Y)
			if x.hasPfx("cnt:") || x.hasPfx("trim:") {
				x, y = y, x
			}
			for _, g := range append(labAfter(y.Lab, "cnt:"), labAfter(y.Lab, "trim:")...) {
				if x.is(Zero) && g == "0" && st.Get("sent") != "2" || x.has("at:"+prev(g)) {
					put(st, in, "at:"+g)
				} else {
					put(st, in, "at:?")
				}
			}
		case *ssa.Slice:
			x := e.val(st, in.X)
			if in.High != nil && (in.Low == nil || e.val(st, in.Low).is(Zero)) {
				h := e.val(st, in.High)
				for _, g := range labAfter(h.Lab, "cnt:") {
					put(st, in, "trim:"+g)
				}
			} else if in.Low != nil && !e.val(st, in.Low).is(Zero) && x.hasPfx("trim:") {
				put(st, in)
			}
		}
	}
	dynName := func(v AV) string { return typeName(deref(dyn(v))) }
	annDigest := func(v AV) bool {
		if v.Addr == nil || v.Addr.Owner != "rpc.ChunkNew" {
			return false
		}
		f := v.Addr.field()
		return f != nil && f.Name() == "Digest"
	}
	r.Load = func(e *Engine, st *State, a *Addr, v AV, in ssa.Instruction) AV {
		if annDigest(AV{Addr: a}) && st.Get("anndig") == "whole" {
			v.Lab = labJoin(v.Lab, lab("whole"))
		}
		return v
	}
	r.Pre = func(e *Engine, st *State, in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && annDigest(e.val(st, s.Addr)) {
			st.Set("anndig", "")
			if hasWhole(e, st, e.val(st, s.Val)) {
				st.Set("anndig", "whole")
			}
		}
	}
	r.Call = func(x *CallCtx) []Out {
		st, e := x.St, x.E
		w := fnName(x.Instr.Parent())
		switch x.Name {
		case "(*os.File).Seek":
			if len(x.Args) == 3 {
				off, n := x.Args[1], x.Args[2]
				wh, ok := intOf(n)
				return errFork(x, "seeking", []AV{{Lab: map[bool]string{true: lab("start"), false: ""}[ok && wh == 1 && off.is(Zero) && st.Get("pos") == ""]}}, func(s *State) {
					switch {
					case ok && wh == 0 && (off.is(Zero) || off.has("start")):
						s.Set("pos", "")
					case ok && wh == 1 && off.is(Zero):
					default:
						s.Set("pos", "?")
					}
				}, nil)
			}
		case "builtin:copy":
			if annDigest(x.Args[0]) {
				l := ""
				if hasWhole(e, st, x.Args[1]) {
					l = "whole"
				}
				return []Out{{Res: []AV{{}}, Do: func(s *State) { s.Set("anndig", l) }}}
			}
		case "io.Copy":
			h, f := x.Args[0], x.Args[1]
			if f.hasPfx("file") || isFile(f, x, 1) {
				return errFork(x, "reading the file", []AV{{Lab: lab("size")}}, func(s *State) {
					l := "part"
					if s.Get("pos") == "" {
						l = "whole"
					}
					s.Set("hash:"+strconv.Itoa(h.Sym), l)
					s.Set("hashed", l)
					s.Set("pos", "end")
				}, func(s *State) { s.Set("pos", "?") })
			}
		case "(hash.Hash).Sum":
			l := st.Get("hash:" + strconv.Itoa(x.Args[0].Sym))
			if l == "" {
				l = st.Get("hashed")
			}
			if l == "" {
				l = "part"
			}
			return []Out{{Res: []AV{{K: NonZero, Lab: lab(l)}}}}
		case "github.com/marcopeereboom/goutil.FileSHA256":
			return errFork(x, "the file's digest", []AV{{K: NonZero, Lab: lab("whole")}}, nil, nil)
		case "(*os.File).Stat", "os.Stat":
			return errFork(x, "the file's status", []AV{{K: NonZero, Lab: lab("fi")}}, nil, nil)
		}
		if reads[x.Name] {
			if n := x.Instr.Common().Signature().Results().Len(); n == 2 {
				g := gen(st)
				if st.Get("unsent") != "" && st.Get("announced") != "" {
					e.Violation(st, "skipped/"+w, x.Instr, "a part of the file that was read is never sent")
				}
				pos := st.Get("pos")
				if st.Get("announced") != "" && pos == "end" || pos == "?" {
					e.Violation(st, "rewind/"+w, x.Instr, "the chunks are not read from the beginning of the file")
				}
				pre := func(s *State) { s.Set("pos", "mid"); s.Note(x.Pos(), "a chunk is read") }
				outs := []Out{
					{Res: []AV{{K: NonZero, Lab: lab("cnt:" + g)}, avOK}, Do: func(s *State) { pre(s); s.Set("unsent", "1") }},
					{Res: []AV{{K: Zero}, {K: NonZero, Lab: lab("errvar:io.EOF")}}, Do: pre},
					{Res: []AV{{K: Zero}, {K: NonZero, Lab: lab("err:other")}}, Do: pre},
				}
				if x.Name == "io.ReadFull" || x.Name == "io.ReadAtLeast" {
					outs = append(outs, Out{Res: []AV{{K: NonZero, Lab: lab("cnt:" + g)}, {K: NonZero, Lab: lab("errvar:io.ErrUnexpectedEOF")}}, Do: func(s *State) { pre(s); s.Set("unsent", "eof") }})
				}
				return outs
			}
		}
		if sends(x.Callee) && !e.relevant[x.Callee] {
			hi := ""
			for i, a := range x.Args {
				if i < len(x.Callee.Params) && isBool(x.Callee.Params[i].Type()) && hi == "" {
					hi = "lo"
					if a.nonzero() {
						hi = "hi"
					} else if !a.is(Zero) {
						hi = "?"
					}
				}
			}
			for _, a := range x.Args {
				switch dynName(a) {
				case "rpc.ChunkNew":
					e.Count("file announced", w)
					var dig AV
					e.deepValues(st, a, 2, func(v AV) {
						if q, ok := v.Agg[".Digest"]; ok {
							dig = q
						}
					})
					if !hasWhole(e, st, dig) && !hasWhole(e, st, a) && st.Get("anndig") != "whole" {
						e.Violation(st, "announce/"+w, x.Instr, "a file is announced with a digest that is not that of the whole file")
					}
					st.Set("announced", "1")
					st.Set("annprio", hi)
				case "rpc.Chunk":
					e.Count("chunk sent", w)
					if st.Get("announced") == "" {
						e.Violation(st, "unannounced/"+w, x.Instr, "a chunk is sent before the file was announced")
					}
					if st.Get("annprio") == "lo" && hi == "hi" {
						e.Violation(st, "order/"+w, x.Instr, "chunks are sent with a higher priority than their announcement and overtake it")
					}
					g := gen(st)
					var off, pay AV
					e.deepValues(st, a, 2, func(v AV) {
						if q, ok := v.Agg[".Offset"]; ok {
							off = q
						}
						if q, ok := v.Agg[".Payload"]; ok {
							pay = q
						}
					})
					if st.Get("sent") == "" && !off.is(Zero) || st.Get("sent") != "" && !off.has("at:"+prev(g)) {
						e.Violation(st, "offset/"+w, x.Instr, "the offset of a chunk is not the sum of what was sent before it")
					}
					if !pay.has("trim:" + g) {
						e.Violation(st, "payload/"+w, x.Instr, "the payload of a chunk is not cut to what was read")
					}
					if !hasWhole(e, st, a) {
						e.Violation(st, "digest/"+w, x.Instr, "a chunk carries another digest than the whole file's")
					}
					if st.Get("sent") == "" {
						st.Set("sent", "1")
					} else {
						st.Set("sent", "2")
					}
					st.Set("gen", next(g))
					st.Set("unsent", "")
				}
			}
			return []Out{{}}
		}
		return stdCall(x)
	}
	r.Exit = func(e *Engine, st *State, ret []AV, in ssa.Instruction) {
		if st.Get("unsent") == "eof" {
			e.Violation(st, "rest/"+fnName(in.Parent()), in, "the last part of the file was read but never sent")
		}
	}
	c.Explore(r, nil, entries)

	// the size announced is the file's
	for _, s := range c.P.fieldStores("rpc.ChunkNew.Size") {
		if !inPkg(s.Parent(), "zkclient") {
			continue
		}
		for _, o := range c.P.origins(s.Val, nil) {
			c.Count("size announced", fnName(s.Parent()))
			switch {
			case o.Kind == "call" && (strings.HasSuffix(o.Name, "FileInfo).Size") || o.Name == "io.Copy" || strings.HasSuffix(o.Name, ".Seek")):
			case o.Kind == "builtin":
			default:
				c.Violation("size/"+fnName(s.Parent()), s.Pos(), "a file is announced with a size that is not the file's but from %s %s", o.Kind, o.Name)
			}
		}
	}
}

func isFile(v AV, x *CallCtx, i int) bool {
	a := x.Instr.Common().Args[i]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		return mi.X.Type().String() == "*os.File"
	}
	return a.Type().String() == "*os.File"
}

func hasWhole(e *Engine, st *State, v AV) bool {
	ok := false
	e.deepValues(st, v, 3, func(y AV) { ok = ok || y.has("whole") })
	return ok
}

// sameDigest: the chunk's digest against the announcement's.
func sameDigest(a, b string) bool {
	x, y := AV{Lab: a}, AV{Lab: b}
	if y.has("adig") {
		x, y = y, x
	}
	return x.has("adig") && y.has("dig") && !x.has("hash") && !y.has("hash")
}
