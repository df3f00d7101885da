package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const xdr2 = "github.com/davecgh/go-xdr/xdr2"

// Ctx collects what one check found.
type Ctx struct {
	P       *Prog
	ID      string
	Tier    string
	Verif   string
	Reports map[string]*Report
	Counts  map[string]map[string]bool
	States  int
	Rules   []string
	Assume  []string
	Funcs   map[string]bool
	roots   []string
	passed  map[ssa.Value]bool // connections followed (C38)
}

func (c *Ctx) Violation(key string, pos token.Pos, format string, a ...interface{}) {
	if _, ok := c.Reports[key]; ok {
		return
	}
	c.Reports[key] = &Report{Key: key, Pos: pos, Msg: c.P.pos(pos) + ": " + fmt.Sprintf(format, a...)}
}

func (c *Ctx) Count(kind, construct string) {
	m := c.Counts[kind]
	if m == nil {
		m = map[string]bool{}
		c.Counts[kind] = m
	}
	m[construct] = true
}

// Need fails the check when fewer instances than confirmed were analysed.
func (c *Ctx) Need(kind string, min int) {
	if n := len(c.Counts[kind]); n < min {
		c.Violation("coverage/"+kind, token.NoPos, "only %d instances of %q were found, at least %d are known: the rule no longer sees the code it decides", n, kind, min)
	}
}

func (c *Ctx) Rule(format string, a ...interface{}) {
	c.Rules = append(c.Rules, fmt.Sprintf(format, a...))
}

// Explore runs a rule from the given entries (nil: every root of the
// packages) and merges the result.
func (c *Ctx) Explore(r *Rule, init func(st *State, f *ssa.Function), entries []*ssa.Function, pk ...string) *Engine {
	e := NewEngine(c.P, r)
	if entries == nil {
		entries = e.Roots(pk...)
	}
	if len(entries) == 0 {
		c.Violation("coverage/"+r.ID, token.NoPos, "rule %s has no entry point: its events are gone", r.ID)
	}
	e.RunFrom(init, entries...)
	c.merge(e)
	return e
}

func (c *Ctx) merge(e *Engine) {
	c.States += e.States
	for k, r := range e.Reports {
		if _, ok := c.Reports[k]; !ok {
			c.Reports[k] = r
		}
	}
	for k, m := range e.Counts {
		for x := range m {
			c.Count(k, x)
		}
	}
	c.roots = append(c.roots, e.roots...)
	if e.Overflow {
		c.Violation("undecided/"+e.R.ID, token.NoPos, "rule %s exceeded %d states: undecided", e.R.ID, e.MaxStates)
	}
	dumpHot()
	if os.Getenv("ZKCHECK_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "rule %s: %d states, roots %v, depth cut %d\n", e.R.ID, e.States, e.roots, e.OverflowDepth)
	}
}

// ---- recognisers ----

// callEvent matches instructions calling one of the named functions.
func callEvent(names ...string) func(p *Prog, in ssa.Instruction) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(p *Prog, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && m[staticName(ci)]
	}
}

// ifaceEvent matches values of the named types becoming an interface (that
// is: being marshaled, replied or queued).
func ifaceEvent(names ...string) func(p *Prog, in ssa.Instruction) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(p *Prog, in ssa.Instruction) bool {
		mi, ok := in.(*ssa.MakeInterface)
		return ok && m[typeName(mi.X.Type())]
	}
}

func anyEvent(fs ...func(p *Prog, in ssa.Instruction) bool) func(p *Prog, in ssa.Instruction) bool {
	return func(p *Prog, in ssa.Instruction) bool {
		for _, f := range fs {
			if f(p, in) {
				return true
			}
		}
		return false
	}
}

var (
	avOK    = AV{K: Zero}    // nil error
	avErr   = AV{K: NonZero} // an error
	avTrue  = AV{K: NonZero}
	avFalse = AV{K: Zero}
)

// errFork is the two outcomes of a call whose last result is an error.
func errFork(c *CallCtx, what string, res []AV, ok, fail func(s *State)) []Out {
	pos := c.Pos()
	return []Out{
		{Res: append(append([]AV{}, res...), avOK), Do: func(s *State) {
			s.Note(pos, "%s succeeds", what)
			if ok != nil {
				ok(s)
			}
		}},
		{Res: append(make([]AV, len(res)), avErr), Do: func(s *State) {
			s.Note(pos, "%s fails", what)
			if fail != nil {
				fail(s)
			}
		}},
	}
}

// iniOpen models inidb.New: it succeeds, creates the database (a usable
// database together with ErrCreated), or fails.
func iniOpen(c *CallCtx, labels string, opened func(s *State)) []Out {
	pos := c.Pos()
	do := func(what string) func(s *State) {
		return func(s *State) {
			s.Note(pos, "%s", what)
			if opened != nil {
				opened(s)
			}
		}
	}
	return []Out{
		{Res: []AV{{K: NonZero, Lab: labels}, avOK}, Do: do("the database is opened")},
		{Res: []AV{{K: NonZero, Lab: labels}, {K: NonZero, Lab: lab("errvar:inidb.ErrCreated")}}, Do: do("the database is created")},
		{Res: []AV{{K: Zero}, {K: NonZero, Lab: lab("err:other")}}, Do: func(s *State) { s.Note(pos, "opening the database fails") }},
	}
}

func boolFork(c *CallCtx, what string, t, f func(s *State)) []Out {
	pos := c.Pos()
	return []Out{
		{Res: []AV{avTrue}, Do: func(s *State) {
			s.Note(pos, "%s is true", what)
			if t != nil {
				t(s)
			}
		}},
		{Res: []AV{avFalse}, Do: func(s *State) {
			s.Note(pos, "%s is false", what)
			if f != nil {
				f(s)
			}
		}},
	}
}

// stdCall models the library calls every rule relies on: decoding labels its
// target "wire", formatting keeps labels, constants in paths become labels.
func stdCall(c *CallCtx) []Out {
	switch c.Name {
	case xdr2 + ".Unmarshal", xdr2 + ".UnmarshalLimited":
		t := c.Args[1]
		pos := c.Pos()
		e := c.E
		return []Out{
			{Res: []AV{{}, avOK}, Do: func(s *State) {
				e.havoc(s, t.Addr, lab("wire"))
				// xdr.Unmarshal(r, &ptr): the pointed-to value too
			}},
			{Res: []AV{{}, avErr}, Do: func(s *State) {
				e.havoc(s, t.Addr, lab("wire"))
				s.Note(pos, "decoding fails")
			}},
		}
	case "path.Join", "path/filepath.Join", "fmt.Sprintf", "fmt.Sprint":
		l := ""
		nz := false
		for _, a := range c.Args {
			if a.K == Const && strings.HasPrefix(a.C, "\"") {
				if s, err := strconv.Unquote(a.C); err == nil && !strings.Contains(s, ",") && s != "" {
					nz = true
					if !strings.HasPrefix(s, "%") || len(s) > 3 {
						l = labJoin(l, lab("s:"+s))
					}
				}
			}
			l = labJoin(l, c.E.deepLab(c.St, a))
			if a.Addr != nil && !a.Addr.Heap {
				for _, x := range c.E.loadCell(c.St, a.Addr).Agg {
					if x.K == Const && strings.HasPrefix(x.C, "\"") {
						if s, err := strconv.Unquote(x.C); err == nil && !strings.Contains(s, ",") {
							l = labJoin(l, lab("s:"+s))
							if c.Name != "fmt.Sprintf" {
								nz = true
							}
						}
					}
				}
			}
		}
		k := Unk
		if nz {
			k = NonZero
		}
		if c.Name == "fmt.Sprintf" && len(c.Args) > 0 && c.Args[0].K == Const {
			f, _ := strconv.Unquote(c.Args[0].C)
			if strings.Trim(f, "%vsdxq") == "" {
				k = Unk
			} else {
				k = NonZero
			}
		}
		return []Out{{Res: []AV{{K: k, Lab: l}}}}
	case "io/ioutil.ReadDir", "os.ReadDir":
		return errFork(c, "reading the directory", []AV{{Lab: lab("direntry")}}, nil, nil)
	case "(io/fs.FileInfo).Name", "(io/fs.DirEntry).Name":
		return []Out{{Res: []AV{{Lab: c.Args[0].Lab}}}}
	case "time.Now":
		return []Out{{Res: []AV{{Lab: lab("now")}}}}
	case "(time.Time).Add", "(time.Time).AddDate", "(time.Time).Round", "(time.Time).Truncate",
		"strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.ToLower", "strings.ToUpper", "strings.Replace", "strings.ReplaceAll", "strings.Title", "strings.ToTitle":
		// another value than the one it was made from
		l := lab("arith")
		for _, a := range c.Args {
			l = labJoin(l, a.Lab)
		}
		return []Out{{Res: []AV{{Lab: l}}}}
	case "errors.Is", "errors.As":
		// nil is no error at all
		if len(c.Args) > 0 && c.Args[0].is(Zero) {
			return []Out{{Res: []AV{avFalse}}}
		}
		if c.Name == "errors.Is" {
			if c.Args[0].has("err:other") {
				return []Out{{Res: []AV{avFalse}}}
			}
			for _, l := range c.Args[1].labels() {
				if strings.HasPrefix(l, "errvar:") && c.Args[0].has(l) {
					return []Out{{Res: []AV{avTrue}}}
				}
			}
			if c.Args[0].hasPfx("errvar:") && c.Args[1].hasPfx("errvar:") {
				return []Out{{Res: []AV{avFalse}}}
			}
		}
		return nil
	}
	return nil
}

// wireFieldLab labels fields of decoded messages: "w:Cache.To".
func wireFieldLab(owner string, f *types.Var, v AV) string {
	if v.has("wire") {
		o := owner
		if i := strings.LastIndexByte(o, '.'); i >= 0 {
			o = o[i+1:]
		}
		return "w:" + o + "." + f.Name()
	}
	return ""
}

// cmpFacts normalises an ordering comparison outcome to "X op Y holds".
func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// cmpFork forks a comparison and tells the rule, for either outcome, the
// relation that holds between x and y.
func cmpFork(c *CmpCtx, fact func(s *State, op token.Token)) []Out {
	pos := c.In.Pos()
	return []Out{
		{Res: []AV{avTrue}, Do: func(s *State) {
			fact(s, c.Op)
			s.Note(pos, "comparison %v holds", c.Op)
		}},
		{Res: []AV{avFalse}, Do: func(s *State) {
			fact(s, negate(c.Op))
			if c.Op != token.EQL {
				s.Note(pos, "comparison %v does not hold", c.Op)
			}
		}},
	}
}

// fieldOf: the field var a pointer value was taken of, with its owner.
func storeField(e *Engine, st *State, s *ssa.Store) (*Addr, *types.Var) {
	a := e.addrOf(e.val(st, s.Addr))
	return a, a.field()
}

// staticField resolves a pointer operand to the field it addresses without
// any path information.
func staticField(v ssa.Value) (owner string, f *types.Var) {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		s := deref(v.X.Type()).Underlying().(*types.Struct)
		return typeName(deref(v.X.Type())), s.Field(v.Field)
	case *ssa.Field:
		s := v.X.Type().Underlying().(*types.Struct)
		return typeName(v.X.Type()), s.Field(v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return staticField(v.X)
		}
	case *ssa.IndexAddr:
		return staticField(v.X)
	case *ssa.ChangeType:
		return staticField(v.X)
	}
	return "", nil
}

func sortedKeys(m map[string]bool) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// ---- evidence and outcome ----

type knownFinding struct {
	prop, key, text string
}

func readKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<key> <text>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) != 3 || !strings.HasPrefix(f[1], "key=") {
			return nil, fmt.Errorf("malformed known finding: %v", l)
		}
		r = append(r, knownFinding{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return r, nil
}

func (c *Ctx) finish(start time.Time, seed int) int {
	known, err := readKnown(filepath.Join(c.Verif, "known_findings"))
	if err != nil {
		c.Violation("known-findings", token.NoPos, "%v", err)
	}
	keys := make([]string, 0, len(c.Reports))
	for k := range c.Reports {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	nviol := 0
	var text strings.Builder
	for _, k := range keys {
		r := c.Reports[k]
		isKnown := false
		for _, kf := range known {
			if kf.prop == c.ID && kf.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, kf.text, k)
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		nviol++
		fmt.Fprintf(&text, "rule/construct: %s\n  %s\n", k, r.Msg)
		for _, t := range r.Trace {
			fmt.Fprintf(&text, "    path: %s\n", t)
		}
	}
	counts := map[string]int{}
	samples := []string{}
	total := 0
	kinds := make([]string, 0)
	for k := range c.Counts {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		counts[k] = len(c.Counts[k])
		total += len(c.Counts[k])
		for i, s := range sortedKeys(c.Counts[k]) {
			if i < 6 {
				samples = append(samples, k+": "+s)
			}
		}
	}
	nfn, ninstr := 0, 0
	for _, f := range c.P.Funcs {
		nfn++
		for _, b := range f.Blocks {
			ninstr += len(b.Instrs)
		}
	}
	cov := map[string]interface{}{
		"explanation":      "static analysis of the type-checked SSA of /repo's current sources; rules: " + strings.Join(c.Rules, " | "),
		"functions_loaded": nfn,
		"ssa_instructions": ninstr,
		"packages_loaded":  len(c.P.Pkgs),
		"obligations":      total,
		"discharged":       total - min(total, nviol),
		"instances":        counts,
		"path_states":      c.States,
		"entry_points":     dedup(c.roots),
		"samples":          samples,
	}
	ev := map[string]interface{}{
		"property":    c.ID,
		"tier":        c.Tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": c.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	rep := filepath.Join(dir, c.ID+".violation.txt")
	os.Remove(rep)
	if nviol > 0 {
		os.WriteFile(rep, []byte(text.String()), 0644)
		fmt.Print(text.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d states=%d wall=%.1fs\n", c.ID, total, c.States, time.Since(start).Seconds())
	return 0
}

func dedup(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}
