package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// sources: the values v may stem from, through phis, conversions, local variables and the results of module functions.
// Parameters, loads through pointers, constants, calls of other functions and computations are leaves.
func (p *Prog) sources(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value, d int)
	ret := func(c *ssa.Call, idx, d int) bool {
		fn := c.Call.StaticCallee()
		if fn == nil || !inModule(fn) || len(fn.Blocks) == 0 || d > 6 || p.opaqueFns.has(callName(&c.Call)) {
			return false
		}
		ok := false
		fnInstrs(fn, func(in ssa.Instruction) {
			if r, isR := in.(*ssa.Return); isR && idx < len(r.Results) {
				ok = true
				walk(r.Results[idx], d+1)
			}
		})
		return ok
	}
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d)
			}
		case *ssa.ChangeType:
			walk(x.X, d)
		case *ssa.Convert:
			walk(x.X, d)
		case *ssa.MakeInterface:
			walk(x.X, d)
		case *ssa.ChangeInterface:
			walk(x.X, d)
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && ret(c, x.Index, d) {
				return
			}
			out = append(out, v)
		case *ssa.Call:
			if ret(x, 0, d) {
				return
			}
			out = append(out, v)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok {
					n := 0
					for _, st := range storesTo(a) {
						n++
						walk(st.Val, d)
					}
					if n > 0 {
						return
					}
				}
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	walk(v, 0)
	return out
}

// withOpaque: runs f with the results of the named functions taken as sources in their own right.
func (p *Prog) withOpaque(n names, f func()) {
	old := p.opaqueFns
	p.opaqueFns = n
	defer func() { p.opaqueFns = old }()
	f()
}

// isLoadOf: v reads field of the named type.
func isLoadOf(v ssa.Value, typ string, fields ...string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && isFieldAddr(x.X, typ, fields...)
	case *ssa.Field:
		if typeName(x.X.Type()) != typ {
			return false
		}
		for _, f := range fields {
			if fieldName(x.X.Type(), x.Field) == f {
				return true
			}
		}
	}
	return false
}

// isResultOf: v is a result of a call to one of the named functions.
func isResultOf(v ssa.Value, n ...string) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return names(n).has(callName(&x.Call))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return names(n).has(callName(&c.Call))
		}
	}
	return false
}

// defBefore: v is defined before instruction at on every path reaching it.
func defBefore(v ssa.Value, at ssa.Instruction) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true // parameters, constants
	}
	if in.Parent() != at.Parent() {
		return false
	}
	if in.Block() == at.Block() {
		return indexOf(in) < indexOf(at)
	}
	return in.Block().Dominates(at.Block())
}

// innermostLoop: header of the innermost natural loop containing b, or nil.
func innermostLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && (p == b || reachesWithout(b, p, h)) {
				return h
			}
		}
	}
	return nil
}

// reachesWithout: a path from a to b that does not pass through stop.
func reachesWithout(a, b, stop *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{stop: true}
	if a == stop {
		seen[stop] = false
	}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if n == stop {
				if n == b {
					return true
				}
				continue
			}
			if walk(n) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// reachable: fn, its closures and the module functions they call statically, transitively.
func (p *Prog) reachable(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !inModule(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		fnInstrs(f, func(in ssa.Instruction) {
			if c := asCall(in); c != nil {
				walk(c.StaticCallee())
			}
		})
	}
	walk(fn)
	return seen
}

// origins: the calls, parameters, constants and globals v is computed from, looking through arithmetic, indexing, field
// reads, iteration, local and captured variables. Unlike sources, it does not look into called functions.
func (p *Prog) origins(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.UnOp:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.Field:
			walk(x.X)
		case *ssa.FieldAddr:
			walk(x.X)
		case *ssa.IndexAddr:
			walk(x.X)
		case *ssa.Index:
			walk(x.X)
		case *ssa.Lookup:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Next:
			walk(x.Iter)
		case *ssa.Range:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Extract:
			switch x.Tuple.(type) {
			case *ssa.Next, *ssa.Lookup, *ssa.TypeAssert:
				walk(x.Tuple)
			default:
				out = append(out, v)
			}
		case *ssa.Alloc:
			n := 0
			for _, st := range storesTo(x) {
				n++
				walk(st.Val)
			}
			for _, r := range *x.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, st := range storesTo(fa) {
						n++
						walk(st.Val)
					}
				}
			}
			if n == 0 {
				out = append(out, v)
			}
		case *ssa.FreeVar:
			if b := freeVarBinding(x); b != nil {
				walk(b)
			} else {
				out = append(out, v)
			}
		default:
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

// deepSources: the sources of v, with parameters replaced by the arguments of the calls of their function where all of
// these are known, and captured variables by what they are bound to.
func (p *Prog) deepSources(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		for _, s := range p.sources(v) {
			if seen[s] {
				continue
			}
			seen[s] = true
			if pr, ok := s.(*ssa.Parameter); ok && d < 5 {
				sites := p.sitesOf(pr.Parent())
				n := 0
				for _, st := range sites {
					if c := asCall(st); c != nil && c.StaticCallee() == pr.Parent() {
						n++
						walk(c.Args[paramIndex(pr)], d+1)
					}
				}
				if n > 0 && n == len(sites) {
					continue
				}
				if args := p.closureArgs(pr); len(args) > 0 {
					for _, a := range args {
						walk(a, d+1)
					}
					continue
				}
			}
			out = append(out, s)
		}
	}
	walk(v, 0)
	return out
}

// closureArgs: what a parameter of a function literal is given, if all that is
// done with the literal is to pass it to functions which only call it.
func (p *Prog) closureArgs(pr *ssa.Parameter) (out []ssa.Value) {
	fn := pr.Parent()
	if fn.Parent() == nil {
		return nil
	}
	bad := false
	use := func(c *ssa.CallCommon) {
		cf, j := passedTo(c, fn)
		if cf == nil {
			bad = true
			return
		}
		for _, pc := range callsOfParam(cf.Params[j]) {
			if i := paramIndex(pr); i < len(pc.Common().Args) {
				out = append(out, pc.Common().Args[i])
			} else {
				bad = true
			}
		}
	}
	fnInstrs(fn.Parent(), func(in ssa.Instruction) {
		var v ssa.Value
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
			v = mc
			for _, u := range *mc.Referrers() {
				switch u := u.(type) {
				case *ssa.DebugRef:
				case *ssa.Call:
					use(&u.Call)
				default:
					bad = true
				}
			}
		}
		if v == nil {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(fn) {
					continue
				}
				switch u := in.(type) {
				case *ssa.MakeClosure, *ssa.DebugRef:
				case *ssa.Call:
					use(&u.Call)
				default:
					bad = true
				}
			}
		}
	})
	if bad {
		return nil
	}
	return out
}
