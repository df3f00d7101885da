package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// eventFuncs lists the functions that directly contain a matching
// instruction.
func (p *Prog) eventFuncs(ev func(p *Prog, in ssa.Instruction) bool, pk ...string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if len(pk) != 0 && !inPkg(f, pk...) {
			continue
		}
		if hasEvent(p, f, ev) {
			r = append(r, f)
		}
	}
	return r
}

func hasEvent(p *Prog, f *ssa.Function, ev func(p *Prog, in ssa.Instruction) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ev(p, in) {
				return true
			}
		}
	}
	return false
}

// reaches tells which functions contain a matching instruction, directly or
// in a function they call (or a closure they make).
func (p *Prog) reaches(ev func(p *Prog, in ssa.Instruction) bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if hasEvent(p, f, ev) {
			m[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range p.Funcs {
			if m[f] {
				continue
			}
			for _, g := range p.callees[f] {
				if m[g] {
					m[f] = true
					again = true
					break
				}
			}
		}
	}
	return m
}

// climb finds the entries from which an event is judged: the lowest callers,
// starting at the functions containing the event, that stop accepts, or the
// roots when none does.
func (p *Prog) climb(from []*ssa.Function, stop func(f *ssa.Function) bool, pk ...string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	out := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if stop(f) || p.isRoot(f, pk...) {
			out[f] = true
			if stop(f) {
				return
			}
		}
		for _, c := range p.callers[f] {
			if g := c.Parent(); g != f && (len(pk) == 0 || inPkg(g, pk...)) {
				up(g)
			}
		}
		if f.Parent() != nil && p.argOnly(f) {
			// runs for who made it
			up(f.Parent())
		}
	}
	for _, f := range from {
		up(f)
	}
	var r []*ssa.Function
	for f := range out {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

// syncCallees are the functions that run in f's goroutine because of f:
// static calls, deferred calls and closures or functions handed on as values,
// but not what f starts with go.
func (p *Prog) syncCallees(f *ssa.Function) (sync, async []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				if c := g.Common().StaticCallee(); c != nil {
					async = append(async, c)
				}
				continue
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if c := ci.Common().StaticCallee(); c != nil {
					sync = append(sync, c)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if onlyGo(mc) {
					continue
				}
				sync = append(sync, mc.Fn.(*ssa.Function))
				continue
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					if ci, isCall := in.(ssa.CallInstruction); isCall && ci.Common().Value == g {
						continue
					}
					sync = append(sync, g)
				}
			}
		}
	}
	return
}

// threads finds the goroutine entries (go targets and roots) from which one
// of the target functions runs without a further go statement.
func (p *Prog) threads(targets map[*ssa.Function]bool, pk ...string) map[*ssa.Function]bool {
	up := map[*ssa.Function][]*ssa.Function{}
	goed := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		s, a := p.syncCallees(f)
		for _, g := range s {
			up[g] = append(up[g], f)
		}
		for _, g := range a {
			goed[g] = true
		}
	}
	out, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		n := 0
		for _, g := range up[f] {
			if g == f || len(pk) != 0 && !inPkg(g, pk...) {
				continue
			}
			n++
			walk(g)
		}
		if goed[f] || n == 0 {
			out[f] = true
		}
	}
	for t := range targets {
		for _, g := range up[t] {
			if len(pk) == 0 || inPkg(g, pk...) {
				walk(g)
			}
		}
	}
	return out
}
