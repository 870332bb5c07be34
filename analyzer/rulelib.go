package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// names is a set of callee names (objName form); an entry starting with "*" matches by suffix.
type names []string

func (n names) has(s string) bool {
	for _, e := range n {
		if strings.HasPrefix(e, "*") {
			if strings.HasSuffix(s, e[1:]) {
				return true
			}
		} else if e == s {
			return true
		}
	}
	return false
}

func asCall(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

// calls reports whether in is a (plain, deferred or go) call to one of n.
func calls(in ssa.Instruction, n names) bool {
	c := asCall(in)
	if c == nil {
		return false
	}
	nm := callName(c)
	return nm != "" && n.has(nm)
}

func callPred(n ...string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool { return calls(in, names(n)) }
}

func orPred(fs ...func(ssa.Instruction) bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		for _, f := range fs {
			if f(in) {
				return true
			}
		}
		return false
	}
}

// fieldStore: a store to field name of (a pointer to) named type typ ("pkg.Type").
func fieldStore(typ string, fields ...string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		return isFieldAddr(st.Addr, typ, fields...)
	}
}

func isFieldAddr(v ssa.Value, typ string, fields ...string) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	if typeName(fa.X.Type()) != typ {
		return false
	}
	fn := fieldName(fa.X.Type(), fa.Field)
	for _, f := range fields {
		if f == fn {
			return true
		}
	}
	return len(fields) == 0
}

// typeName: "sync2.poller" for *sync2.poller.
func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	} else if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return relPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return t.String()
}

// instrs iterates over every instruction of the program.
func (p *Prog) instrs(f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}

func fnInstrs(fn *ssa.Function, f func(in ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// withClosures: fn and the closures created (transitively) in it.
func withClosures(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withClosures(a)...)
	}
	return out
}

// outermost function of a closure.
func outer(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// mustPrecede: on every path of root, an instruction matching a has run before one matching b.
func mustPrecede(r *Report, rule string, root *ssa.Function, a, b func(ssa.Instruction) bool, what string) {
	if root == nil {
		return
	}
	n := 0
	r.Explore(root, &Query{
		Relevant: orPred(a, b),
		Step: func(x *Explorer, s *State, in ssa.Instruction, deferred bool) Action {
			if _, isDefer := in.(*ssa.Defer); isDefer && !deferred {
				return Go
			}
			if b(in) {
				n++
				if s.Bits&1 == 0 {
					r.Bad(rule, shortName(root), r.P.InstrPos(in), what, s.Trace()...)
				}
			}
			if a(in) {
				s.Bits |= 1
			}
			return Go
		},
	})
	if n > 0 {
		r.Ob(rule, shortName(root))
	}
}

// methodsOf lists the interface's method names.
func (p *Prog) ifaceMethods(pkg, name string) []*types.Func {
	pk := p.ByPath[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Func
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// method finds the SSA function for method name on *pkg.typ or pkg.typ.
func (p *Prog) method(pkg, typ, name string) *ssa.Function {
	if f := p.Funcs[pkg+".(*"+typ+")."+name]; f != nil {
		return f
	}
	return p.Funcs[pkg+".("+typ+")."+name]
}

// swallowed reports whether the tracked failure is not visible in the returned results.
func swallowed(x *Explorer, s *State, results []CV) (bool, string) {
	if len(results) == 0 {
		return true, "function returns nothing"
	}
	last := results[len(results)-1]
	for _, rv := range results {
		if x.Tainted(s, rv) > 0 {
			return false, ""
		}
	}
	if k, isNil := x.KnownNil(s, last); k && !isNil && errLike(last.v.Type()) {
		return false, ""
	}
	if c := asCall(s.Site); c != nil && strings.HasSuffix(callName(c), "Rows).Err") && strings.Contains(x.Term(s, last).String(), "Rows).Err(") {
		return false, "" // asking again gives the same answer
	}
	if isBool(last.v.Type()) {
		return true, "returns a bool"
	}
	return true, fmt.Sprintf("returns %s", x.Term(s, last))
}

// failFlow explores root with every call matching site failing in turn.
// forbidden: instructions which must not run once the failure happened; ends: instructions at which tracking stops.
// mustReturn: the failure has to be visible in root's results.
func failFlow(r *Report, rule string, root *ssa.Function, site, forbidden, ends func(ssa.Instruction) bool, mustReturn, transient bool, what string, exempt func(x *Explorer, s *State) bool) {
	if root == nil {
		return
	}
	sites := map[ssa.Instruction]bool{}
	none := func(ssa.Instruction) bool { return false }
	if forbidden == nil {
		forbidden = none
	}
	if ends == nil {
		ends = none
	}
	r.Explore(root, &Query{
		Relevant: orPred(site, forbidden, ends, callPred("errors.As")),
		FailSite: func(in ssa.Instruction) bool {
			if site(in) {
				sites[in] = true
				return true
			}
			return false
		},
		Transient: transient,
		Step: func(x *Explorer, s *State, in ssa.Instruction, deferred bool) Action {
			if !s.Track {
				return Go
			}
			if _, isDefer := in.(*ssa.Defer); isDefer && !deferred {
				return Go
			}
			if forbidden(in) {
				if exempt != nil && exempt(x, s) {
					return Prune
				}
				r.Bad(rule, shortName(root)+" <- "+siteName(s.Site), r.P.InstrPos(in), fmt.Sprintf("%s: after %s at %s fails, execution reaches %s", what, siteName(s.Site), r.P.InstrPos(s.Site), describe(in)), s.Trace()...)
				return Prune
			}
			if in != s.Site && ends(in) {
				return Prune
			}
			return Go
		},
		Exit: func(x *Explorer, s *State, kind ExitKind, results []CV) {
			if !s.Track || !mustReturn || kind != ExitReturn {
				return
			}
			if bad, how := swallowed(x, s, results); bad {
				if exempt != nil && exempt(x, s) {
					return
				}
				r.Bad(rule, shortName(root)+" <- "+siteName(s.Site), r.P.InstrPos(s.Site), fmt.Sprintf("%s: a failure of %s is swallowed (%s)", what, siteName(s.Site), how), s.Trace()...)
			}
		},
	})
	for in := range sites {
		r.Ob(rule, shortName(root)+" <- "+siteName(in)+" at "+r.P.InstrPos(in))
	}
}

func siteName(in ssa.Instruction) string {
	if c := asCall(in); c != nil {
		n := callName(c)
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return n
	}
	return describe(in)
}

func describe(in ssa.Instruction) string {
	switch i := in.(type) {
	case ssa.CallInstruction:
		return "call of " + callName(i.Common())
	case *ssa.Store:
		if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
			return "write of " + typeName(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
		}
		return "store"
	case *ssa.MapUpdate:
		return "map update"
	case *ssa.Return:
		return "return"
	}
	return fmt.Sprintf("%T", in)
}

func hasErrResult(m *types.Func) bool {
	res := m.Type().(*types.Signature).Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return true
		}
	}
	return false
}
