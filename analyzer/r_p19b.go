package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedTypes: the struct types which updates sent to connections are made of.
func (p *Prog) sharedTypes() map[string]bool {
	out := map[string]bool{}
	pk := p.ByPath["sync3/caches"]
	if pk == nil {
		return out
	}
	o := pk.Types.Scope().Lookup("Update")
	if o == nil {
		return out
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return out
	}
	var all []types.Type
	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				all = append(all, tn.Type())
			}
		}
	}
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch x := t.(type) {
		case *types.Named:
			if x.Obj().Pkg() == nil || !isModPkg(x.Obj().Pkg()) {
				return
			}
			switch u := x.Underlying().(type) {
			case *types.Struct:
				out[typeName(x)] = true
				for i := 0; i < u.NumFields(); i++ {
					walk(u.Field(i).Type())
				}
			case *types.Interface:
				for _, c := range all {
					if types.IsInterface(c) {
						continue
					}
					if types.Implements(types.NewPointer(c), u) {
						walk(c)
					}
				}
			default:
				walk(u)
			}
		case *types.Pointer:
			walk(x.Elem())
		case *types.Slice:
			walk(x.Elem())
		case *types.Map:
			walk(x.Elem())
		}
	}
	for _, c := range all {
		if !types.IsInterface(c) && (types.Implements(types.NewPointer(c), it) || types.Implements(c, it)) {
			walk(c)
		}
	}
	return out
}

// mutation of a shared kind of object.
type mutation struct {
	at    ssa.Instruction
	typ   string    // the struct type changed
	field string    // the field changed
	base  ssa.Value // pointer to the struct
	deep  bool      // something the field refers to is changed, not the field itself
}

// mutations: the places which change an object of one of the types.
func (p *Prog) mutations(typs map[string]bool) []mutation {
	var out []mutation
	find := func(at ssa.Instruction, addr ssa.Value) {
		deep := false
		for d := 0; d < 10; d++ {
			switch x := addr.(type) {
			case *ssa.FieldAddr:
				if t := typeName(x.X.Type()); typs[t] {
					out = append(out, mutation{at, t, fieldName(x.X.Type(), x.Field), x.X, deep})
					return
				}
				addr = x.X
			case *ssa.IndexAddr:
				addr = x.X
			case *ssa.Slice:
				addr = x.X
			case *ssa.ChangeType:
				addr = x.X
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return
				}
				deep = true
				addr = x.X
			case *ssa.Field:
				if t := typeName(x.X.Type()); typs[t] {
					out = append(out, mutation{at, t, fieldName(x.X.Type(), x.Field), x.X, true})
				}
				return
			default:
				return
			}
		}
	}
	p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			find(x, x.Addr)
		case *ssa.MapUpdate:
			find(x, x.Map)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear", "copy":
					find(x, x.Call.Args[0])
				case "append":
					// appending to a cut slice overwrites what follows the cut
					if sl, ok := x.Call.Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil {
						find(x, sl.X)
					}
				}
			} else if f := x.Call.StaticCallee(); f != nil {
				if f.Origin() != nil {
					f = f.Origin()
				}
				if f.Pkg != nil && inPlace(f) && len(x.Call.Args) > 0 {
					a := x.Call.Args[0]
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					find(x, a)
				}
			}
		}
	})
	return out
}

// inPlace: a library function which rearranges its first argument.
func inPlace(f *ssa.Function) bool {
	switch f.Pkg.Pkg.Path() {
	case "sort":
		return true
	case "slices", "golang.org/x/exp/slices":
		switch f.Name() {
		case "Sort", "SortFunc", "SortStableFunc", "Delete", "DeleteFunc", "Insert", "Replace", "Reverse", "Compact", "CompactFunc":
			return true
		}
	}
	return false
}

type ownCk struct {
	p    *Prog
	l    *Locks
	seen map[ssa.Value]bool
	typs map[string]bool
}

// owned: at, which changes field f of the object v points to, is the only one with access to it: v was made there, or
// comes from a guarded container whose lock is held.
func (o *ownCk) owned(v ssa.Value, f string, deep bool, at ssa.Instruction, d int) (bool, string) {
	if d > 8 {
		return false, "the object's origin could not be established"
	}
	if o.seen[v] {
		return true, ""
	}
	o.seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		if _, ptr := x.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer); ptr {
			for _, st := range storesTo(x) {
				if ok, why := o.owned(st.Val, f, deep, at, d+1); !ok {
					return false, why
				}
			}
			return true, ""
		}
		if !deep {
			return true, ""
		}
		return o.fresh(x, f, at, d)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ok, why := o.owned(e, f, deep, at, d); !ok {
				return false, why
			}
		}
		return true, ""
	case *ssa.Const:
		return true, ""
	case *ssa.ChangeType:
		return o.owned(x.X, f, deep, at, d)
	case *ssa.MakeInterface:
		return o.owned(x.X, f, deep, at, d)
	case *ssa.Parameter:
		fn := x.Parent()
		sites := o.l.sites[fn]
		for _, s := range sites {
			c := asCall(s.at)
			if c == nil {
				return false, "passed in by " + shortName(s.at.Parent())
			}
			var arg ssa.Value
			i := paramIndex(x)
			if cf, j := passedTo(c, fn); cf != nil {
				// handed to a helper which calls it: judge the helper's argument
				for _, pc := range callsOfParam(cf.Params[j]) {
					if i >= len(pc.Common().Args) {
						return false, "passed in through a function value in " + shortName(cf)
					}
					if ok, why := o.owned(pc.Common().Args[i], f, deep, pc.(ssa.Instruction), d+1); !ok {
						return false, why
					}
				}
				continue
			}
			switch {
			case c.StaticCallee() == fn:
				arg = c.Args[i]
			case c.IsInvoke() && i == 0:
				arg = c.Value
			case c.IsInvoke():
				arg = c.Args[i-1]
			case len(c.Args) == len(fn.Params):
				arg = c.Args[i] // a closure
			default:
				return false, "passed in through a function value in " + shortName(s.at.Parent())
			}
			if ok, why := o.owned(arg, f, deep, s.at, d+1); !ok {
				return false, why
			}
		}
		return true, ""
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return o.owned(b, f, deep, at, d+1)
		}
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil && inModule(fn) && len(fn.Blocks) > 0 {
			return o.ownedResult(fn, 0, f, deep, at, d)
		}
		return false, "obtained from " + callName(&x.Call)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if fn := t.Call.StaticCallee(); fn != nil && inModule(fn) && len(fn.Blocks) > 0 {
				return o.ownedResult(fn, x.Index, f, deep, at, d)
			}
			return false, "obtained from " + callName(&t.Call)
		case *ssa.Lookup:
			return o.container(t.X, f, deep, at, d)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return o.container(rg.X, f, deep, at, d)
			}
		case *ssa.TypeAssert:
			return false, "part of an update shared by all of the user's connections"
		}
	case *ssa.TypeAssert:
		return false, "part of an update shared by all of the user's connections"
	case *ssa.Lookup:
		return o.container(x.X, f, deep, at, d)
	case *ssa.IndexAddr:
		return o.container(x.X, f, deep, at, d)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := x.X.(type) {
			case *ssa.Alloc:
				return o.owned(y, f, deep, at, d)
			case *ssa.FreeVar:
				return o.owned(y, f, deep, at, d)
			case *ssa.IndexAddr:
				return o.container(y.X, f, deep, at, d)
			case *ssa.FieldAddr:
				// a pointer kept in an object this function made
				if al, ok := y.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == y.Field {
							for _, st := range storesTo(fa) {
								if ok, why := o.owned(st.Val, f, deep, at, d+1); !ok {
									return false, why
								}
							}
						}
					}
					return true, ""
				}
				return false, "read from " + typeName(y.X.Type()) + "." + fieldName(y.X.Type(), y.Field)
			}
		}
	case *ssa.FieldAddr:
		return o.owned(x.X, f, deep, at, d)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Slice:
		return true, ""
	case *ssa.Field:
		return o.owned(x.X, f, deep, at, d)
	}
	return false, fmt.Sprintf("its origin is not visible (%T)", v)
}

func (o *ownCk) ownedResult(fn *ssa.Function, idx int, f string, deep bool, at ssa.Instruction, d int) (bool, string) {
	ok, why := true, ""
	fnInstrs(fn, func(in ssa.Instruction) {
		if rt, isR := in.(*ssa.Return); isR && ok && idx < len(rt.Results) {
			// a lock held inside fn is not held by its caller any more unless it holds it itself
			ok, why = o.owned(rt.Results[idx], f, deep, at, d+1)
			if !ok {
				why += " (returned by " + shortName(fn) + ")"
			}
		}
	})
	return ok, why
}

// container: an element of the map or slice c.
func (o *ownCk) container(c ssa.Value, f string, deep bool, at ssa.Instruction, d int) (bool, string) {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && o.typs[typeName(fa.X.Type())] {
			return o.owned(fa.X, fieldName(fa.X.Type(), fa.Field), true, at, d+1)
		}
	}
	if pl := placeOf(c); pl != "" {
		if _, ptr := elemType(c.Type()).Underlying().(*types.Pointer); deep && !ptr {
			return false, "one whose copies, which have been handed out, refer to the same " + f
		}
		if o.guarded(pl, at) {
			return true, ""
		}
		if u, ok := c.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if _, ok := fa.X.(*ssa.Alloc); ok {
					return o.owned(u, f, deep, at, d+1)
				}
			}
		}
		return false, "kept in " + pl + ", whose lock is not held"
	}
	for _, s := range o.p.sources(c) {
		switch x := s.(type) {
		case *ssa.MakeMap:
			for _, r := range *x.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == x {
					if ok, why := o.owned(mu.Value, f, deep, at, d+1); !ok {
						return false, why
					}
				}
			}
		case *ssa.MakeSlice, *ssa.Slice, *ssa.Const:
			for _, lf := range o.p.elems(x) {
				if lf.Whole {
					continue
				}
				if _, ptr := lf.Val.Type().Underlying().(*types.Pointer); !ptr && !deep {
					continue
				}
				if ok, why := o.owned(lf.Val, f, deep, at, d+1); !ok {
					return false, why
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				continue
			}
			if ok, why := o.containerResult(x, 0, f, deep, at, d); !ok {
				return false, why
			}
		case *ssa.Extract:
			cl, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false, "an element of a container which is not local"
			}
			if ok, why := o.containerResult(cl, x.Index, f, deep, at, d); !ok {
				return false, why
			}
		case *ssa.UnOp:
			// a local filled in by someone else (e.g. rows read from the database)
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && len(storesTo(al)) == 0 {
				continue
			}
			return false, "an element of a container which is not local"
		case *ssa.Parameter:
			for _, st := range o.l.sites[x.Parent()] {
				cc := asCall(st.at)
				if cc == nil || cc.StaticCallee() != x.Parent() {
					return false, "an element of what " + shortName(st.at.Parent()) + " passes in"
				}
				if ok, why := o.container(cc.Args[paramIndex(x)], f, deep, st.at, d+1); !ok {
					return false, why
				}
			}
		default:
			return false, fmt.Sprintf("an element of a container which is not local (%T)", s)
		}
	}
	return true, ""
}

func (o *ownCk) containerResult(x *ssa.Call, idx int, f string, deep bool, at ssa.Instruction, d int) (bool, string) {
	if fn := x.Call.StaticCallee(); fn != nil && inModule(fn) && d < 8 {
		ok, why := true, ""
		fnInstrs(fn, func(in ssa.Instruction) {
			if rt, isR := in.(*ssa.Return); isR && ok && idx < len(rt.Results) {
				ok, why = o.container(rt.Results[idx], f, deep, at, d+1)
			}
		})
		return ok, why
	}
	if !x.Call.IsInvoke() && x.Call.StaticCallee() == nil && len(o.l.dynamicCallees(&x.Call)) == 0 {
		return true, "" // a hook which nothing in the program sets
	}
	return false, "an element of the result of " + callName(&x.Call)
}

func (o *ownCk) guarded(pl string, at ssa.Instruction) bool {
	for k, m := range o.l.At(at) {
		if m == 2 && lockOwner(k) == lockOwner(pl) {
			return true
		}
	}
	return false
}

func lockOwner(k string) string {
	for i := len(k) - 1; i >= 0; i-- {
		if k[i] == '.' {
			return k[:i]
		}
	}
	return k
}

// fresh: what field f of the local struct a refers to was made together with it.
func (o *ownCk) fresh(a *ssa.Alloc, f string, at ssa.Instruction, d int) (bool, string) {
	// assignments to the field itself
	n := 0
	for _, r := range *a.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != f {
			continue
		}
		for _, st := range storesTo(fa) {
			if !freshRef(o.p, st.Val) {
				return false, fmt.Sprintf("its %s is shared with the object it was copied from", f)
			}
			n++
		}
	}
	if n > 0 {
		return true, "" // replaced before use (copy on write)
	}
	for _, st := range storesTo(a) {
		for _, s := range o.p.sources(st.Val) {
			switch x := s.(type) {
			case *ssa.Const:
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
					if ok, why := o.fresh(al, f, at, d+1); !ok {
						return false, why
					}
					continue
				}
				if x.Op == token.MUL {
					if ok, why := o.owned(x.X, f, true, at, d+1); ok {
						continue
					} else {
						return false, why
					}
				}
				return false, "its " + f + " is shared with the object it was copied from"
			case *ssa.Lookup:
				if ok, why := o.container(x.X, f, true, at, d+1); !ok {
					return false, why
				}
			case *ssa.Extract:
				lk, ok := x.Tuple.(*ssa.Lookup)
				if !ok {
					return false, "its " + f + " is shared with the object it was copied from"
				}
				if ok, why := o.container(lk.X, f, true, at, d+1); !ok {
					return false, why
				}
			default:
				return false, "its " + f + " is shared with the object it was copied from"
			}
		}
	}
	return true, ""
}

// freshRef: v refers to something made for it.
func freshRef(p *Prog, v ssa.Value) bool {
	for _, s := range p.sources(v) {
		switch x := s.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const, *ssa.Alloc:
		case *ssa.Slice:
			if _, ok := x.X.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if !freshRef(p, x.Call.Args[0]) {
					return false
				}
				continue
			}
			if f := x.Call.StaticCallee(); f != nil && f.Name() == "Clone" {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func init() {
	reg("P19", "objects reachable from updates, which all connections of a user share, are only changed by the one who made them or under the lock of the cache they are kept in", func(r *Report) {
		l := p19Locks(r.P)
		typs := r.P.sharedTypes()
		for _, m := range r.P.mutations(typs) {
			fn := m.at.Parent()
			if fn.Synthetic != "" {
				continue
			}
			r.Ob("shared objects", m.typ+"."+m.field+" in "+shortName(fn))
			r.Touch(fn)
			o := &ownCk{p: r.P, l: l, seen: map[ssa.Value]bool{}, typs: typs}
			ok, why := o.owned(m.base, m.field, m.deep, m.at, 0)
			if os.Getenv("DBG") != "" {
				fmt.Println("MUT", m.typ, m.field, m.deep, shortName(fn), r.at(m.at), ok, why)
			}
			if !ok && relPkg(fnPkg(fn).Path()) == "state" && !strings.Contains(why, "lock is not held") {
				continue // storage builds its results in local containers
			}
			if !ok {
				what := "changes " + m.typ + "." + m.field
				if m.deep {
					what = "changes what " + m.typ + "." + m.field + " refers to"
				}
				r.Bad("shared objects", m.typ+"."+m.field+" in "+shortName(fn), r.at(m.at), fmt.Sprintf("%s %s in place, but the object is %s", shortName(fn), what, why))
			}
		}
		r.Floor("shared objects", 30)
	})
}

func elemType(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Map:
		return x.Elem()
	case *types.Slice:
		return x.Elem()
	}
	return t
}

// escape: a way in which the pointer v gets out of the critical section, or nil.
func (l *Locks) escape(v ssa.Value, place string, seen map[ssa.Value]bool, d int) ssa.Instruction {
	if v.Referrers() == nil || seen[v] || d > 8 {
		return nil
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		var e ssa.Instruction
		switch r := r.(type) {
		case *ssa.Return:
			res, ok := l.returnedTo(r, v, place)
			if !ok {
				e = r
			}
			for _, w := range res {
				if e = l.escape(w, place, seen, d+1); e != nil {
					break
				}
			}
		case *ssa.Go, *ssa.MakeInterface, *ssa.Send:
			e = r
		case *ssa.Phi:
			e = l.escape(r, place, seen, d)
		case *ssa.MapUpdate:
			if placeOf(r.Map) != place {
				e = r
			}
		case *ssa.Store:
			if r.Val != v {
				continue
			}
			switch a := r.Addr.(type) {
			case *ssa.Alloc:
				for _, u := range *a.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp:
						e = l.escape(u, place, seen, d)
					case *ssa.MakeClosure:
						e = l.escapeClosure(u, a, place, seen, d)
					}
					if e != nil {
						return e
					}
				}
			default:
				e = r
			}
		case *ssa.MakeClosure:
			e = l.escapeClosure(r, v, place, seen, d)
		case ssa.CallInstruction:
			c := r.Common()
			f := c.StaticCallee()
			if f == nil || !inModule(f) {
				e = r
				break
			}
			for i, a := range c.Args {
				if a == v && i < len(f.Params) {
					if e = l.escape(f.Params[i], place, seen, d+1); e != nil {
						if rt, ok := e.(*ssa.Return); ok && rt.Parent() == f {
							// it gives the pointer back
							e = nil
							if cv, ok := r.(ssa.Value); ok {
								e = l.escape(cv, place, seen, d+1)
							}
						}
					}
				}
			}
		}
		if e != nil {
			return e
		}
	}
	return nil
}

// returnedTo: what callers receive v as, when v is returned at ret by a helper
// which is only called, by name, with the lock of the place held.
func (l *Locks) returnedTo(ret *ssa.Return, v ssa.Value, place string) (out []ssa.Value, ok bool) {
	f := ret.Parent()
	sites := l.sites[f]
	if len(sites) == 0 || f.Parent() != nil || token.IsExported(f.Name()) {
		return nil, false
	}
	for _, s := range sites {
		c, isCall := s.at.(*ssa.Call)
		if !isCall || s.empty || c.Call.StaticCallee() != f {
			return nil, false
		}
		held := false
		for k := range l.At(c) {
			held = held || lockOwner(k) == lockOwner(place)
		}
		if !held {
			return nil, false
		}
		for i, res := range ret.Results {
			if res != v {
				continue
			}
			if len(ret.Results) == 1 {
				out = append(out, c)
				continue
			}
			for _, u := range *c.Referrers() {
				if ex, isEx := u.(*ssa.Extract); isEx && ex.Index == i {
					out = append(out, ex)
				}
			}
		}
	}
	return out, true
}

func (l *Locks) escapeClosure(mc *ssa.MakeClosure, v ssa.Value, place string, seen map[ssa.Value]bool, d int) ssa.Instruction {
	f := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != v {
			continue
		}
		fv := f.FreeVars[i]
		if e := l.escape(fv, place, seen, d+1); e != nil {
			return e
		}
		for _, u := range *fv.Referrers() {
			if ld, ok := u.(*ssa.UnOp); ok {
				if e := l.escape(ld, place, seen, d+1); e != nil {
					return e
				}
			}
		}
	}
	return nil
}

func init() {
	reg("P19", "pointers to objects which a cache changes in place never leave its critical sections: callers get deep copies, which share nothing that is changed in place", func(r *Report) {
		p := r.P
		l := p19Locks(p)
		typs := p.sharedTypes()
		structs := p.guardedStructs()
		// the fields changed in place, per type
		deep := map[string]map[string]bool{}
		inplace := map[string]bool{}
		for _, m := range p.mutations(typs) {
			if relPkg(fnPkg(m.at.Parent()).Path()) == "state" {
				continue
			}
			if _, isAlloc := m.base.(*ssa.Alloc); isAlloc && !m.deep {
				continue
			}
			inplace[m.typ] = true
			if m.deep {
				if deep[m.typ] == nil {
					deep[m.typ] = map[string]bool{}
				}
				deep[m.typ][m.field] = true
			}
		}
		elem := func(c ssa.Value, v ssa.Value) {
			pl := placeOf(c)
			if pl == "" || structs[lockOwner(pl)] == nil {
				return
			}
			pt, ok := elemType(c.Type()).Underlying().(*types.Pointer)
			if !ok || !inplace[typeName(pt.Elem())] {
				return
			}
			in := v.(ssa.Instruction)
			r.Ob("no escape", pl+" in "+shortName(in.Parent()))
			r.Touch(in.Parent())
			if e := l.escape(v, pl, map[ssa.Value]bool{}, 0); e != nil {
				r.Bad("no escape", pl+" in "+shortName(in.Parent()), r.at(e), fmt.Sprintf("%s lets a pointer into %s escape (%s in %s): its holder reads it while the cache changes it", shortName(in.Parent()), pl, describe(e), shortName(e.Parent())))
			}
			l.elemLocks(r, pl, v)
		}
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Lookup:
				if x.CommaOk {
					for _, u := range *x.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == 0 {
							elem(x.X, e)
						}
					}
				} else {
					elem(x.X, x)
				}
			case *ssa.Next:
				if rg, ok := x.Iter.(*ssa.Range); ok {
					for _, u := range *x.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == 2 {
							elem(rg.X, e)
						}
					}
				}
			}
		})
		r.Floor("no escape", 2)
		// functions which copy such an object must also copy what is changed in place
		for _, fn := range p.All {
			if fn.Synthetic != "" || fn.Signature.Results().Len() == 0 {
				continue
			}
			fnInstrs(fn, func(in ssa.Instruction) {
				a, ok := in.(*ssa.Alloc)
				if !ok {
					return
				}
				t := typeName(a.Type())
				if !inplace[t] || len(deep[t]) == 0 || fn.Signature.Recv() == nil || typeName(fn.Signature.Recv().Type()) != t || !returned(a) {
					return
				}
				// copied from the receiver?
				copied := false
				for _, st := range storesTo(a) {
					if u, ok := st.Val.(*ssa.UnOp); ok && u.X == ssa.Value(fn.Params[0]) {
						copied = true
					}
				}
				for f := range deep[t] {
					r.Ob("deep copy", t+"."+f+" in "+shortName(fn))
					r.Touch(fn)
					n, fresh := 0, true
					for _, u := range *a.Referrers() {
						if fa, ok := u.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == f {
							for _, st := range storesTo(fa) {
								n++
								if !freshRef(p, st.Val) {
									fresh = false
								}
							}
						}
					}
					if !fresh || (copied && n == 0) {
						r.Bad("deep copy", t+"."+f+" in "+shortName(fn), r.at(a), fmt.Sprintf("%s returns a copy which shares %s.%s with the original, and that is changed in place", shortName(fn), t, f))
					}
				}
			})
		}
		r.Floor("deep copy", 2)
	})
}

func returned(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		if _, ok := u.(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// elemLocks: the accesses through the pointer v, an element of the guarded container pl, are made with its lock held.
func (l *Locks) elemLocks(r *Report, pl string, v ssa.Value) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	check := func(at ssa.Instruction, write bool) {
		for k, m := range l.At(at) {
			if lockOwner(k) == lockOwner(pl) && (m == 2 || !write) {
				return
			}
		}
		verb := "reads"
		if write {
			verb = "writes"
		}
		r.Bad("element lock", pl+" in "+shortName(at.Parent()), r.at(at), fmt.Sprintf("%s %s an object kept in %s without holding its lock", shortName(at.Parent()), verb, pl))
	}
	walk = func(v ssa.Value, d int) {
		if v.Referrers() == nil || seen[v] || d > 4 {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Phi:
				walk(u, d)
			case *ssa.Return:
				if res, ok := l.returnedTo(u, v, pl); ok {
					for _, w := range res {
						walk(w, d+1)
					}
				}
			case *ssa.FieldAddr:
				for _, x := range *u.Referrers() {
					switch x := x.(type) {
					case *ssa.Store:
						check(x, x.Addr == u)
					case *ssa.UnOp:
						check(x, false)
						if isRefType(x.Type()) {
							for _, y := range *x.Referrers() {
								switch y := y.(type) {
								case *ssa.MapUpdate:
									check(y, true)
								case *ssa.Lookup:
									check(y, false)
								case *ssa.Call:
									if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
										check(y, true)
									}
								}
							}
						}
					}
				}
			case *ssa.UnOp:
				if u.Op == token.MUL {
					check(u, false)
				}
			case *ssa.Call:
				if f := u.Call.StaticCallee(); f != nil && inModule(f) {
					for i, a := range u.Call.Args {
						if a == v && relPkg(fnPkg(f).Path()) == relPkg(fnPkg(u.Parent()).Path()) {
							walk(f.Params[i], d+1)
						} else if a == v {
							check(u, writesThrough(f.Params[i], 0))
						}
					}
				}
			}
		}
	}
	walk(v, 0)
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		return true
	}
	return false
}

// passedTo: the module function, and its parameter, which receives fn as a
// function value in call c, when that function does nothing with it but call
// it.
func passedTo(c *ssa.CallCommon, fn *ssa.Function) (*ssa.Function, int) {
	cf := c.StaticCallee()
	if cf == nil || cf == fn || !inModule(cf) || len(cf.Blocks) == 0 || len(c.Args) != len(cf.Params) {
		return nil, 0
	}
	for j, a := range c.Args {
		v := a
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		if mc, ok := v.(*ssa.MakeClosure); ok {
			v = mc.Fn
		}
		if v != ssa.Value(fn) {
			continue
		}
		if refs := cf.Params[j].Referrers(); refs != nil {
			n := 0
			for _, u := range *refs {
				if _, dbg := u.(*ssa.DebugRef); dbg {
					continue
				}
				pc, ok := u.(ssa.CallInstruction)
				if !ok || pc.Common().Value != ssa.Value(cf.Params[j]) {
					return nil, 0
				}
				n++
			}
			if n > 0 {
				return cf, j
			}
		}
	}
	return nil, 0
}

func callsOfParam(p *ssa.Parameter) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, u := range *p.Referrers() {
		if c, ok := u.(ssa.CallInstruction); ok {
			out = append(out, c)
		}
	}
	return out
}
