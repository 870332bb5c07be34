package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An access to a place that may be shared between goroutines.
type access struct {
	place string
	at    ssa.Instruction
	write bool
	what  string
	held  lockset
}

func isMutex(t types.Type) bool {
	n := typeName(t)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

// selfSync: values of type t synchronise their own accesses.
func selfSync(t types.Type) bool {
	n := typeName(t)
	return strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.")
}

// guardedStructs: the module's struct types which contain a mutex, with their mutex fields.
func (p *Prog) guardedStructs() map[string]*types.Struct {
	out := map[string]*types.Struct{}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if isMutex(st.Field(i).Type()) {
					out[typeName(tn.Type())] = st
				}
			}
		}
	}
	return out
}

// freshBase: the object whose field is addressed was made by this function (and so is not shared yet).
func freshBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		if _, isPtr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr {
			// variable holding a pointer
			for _, st := range storesTo(x) {
				if !freshBase(st.Val) {
					return false
				}
			}
			return len(storesTo(x)) > 0
		}
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return freshBase(x.X)
		}
	case *ssa.FieldAddr:
		return freshBase(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshBase(e) {
				return false
			}
		}
		return true
	}
	return false
}

// uses: every access made through the value v, loaded from place.
func (l *Locks) uses(place string, v ssa.Value, emit func(a access), seen map[ssa.Value]bool, d int) {
	if v == nil || v.Referrers() == nil || seen[v] || d > 6 {
		return
	}
	seen[v] = true
	acc := func(in ssa.Instruction, write bool, what string) {
		emit(access{place: place, at: in, write: write, what: what, held: l.At(in)})
	}
	_, isMap := v.Type().Underlying().(*types.Map)
	_, isSlice := v.Type().Underlying().(*types.Slice)
	if !isMap && !isSlice {
		return
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				acc(r, true, "writes an entry of")
			}
		case *ssa.Lookup:
			acc(r, false, "reads an entry of")
			if r.CommaOk {
				for _, e := range *r.Referrers() {
					if x, ok := e.(*ssa.Extract); ok && x.Index == 0 {
						l.uses(place+"[]", x, emit, seen, d+1)
					}
				}
			} else {
				l.uses(place+"[]", r, emit, seen, d+1)
			}
		case *ssa.Range:
			for _, n := range *r.Referrers() {
				if nx, ok := n.(*ssa.Next); ok {
					acc(nx, false, "iterates over")
					for _, e := range *nx.Referrers() {
						if x, ok := e.(*ssa.Extract); ok && x.Index == 2 {
							l.uses(place+"[]", x, emit, seen, d+1)
						}
					}
				}
			}
		case *ssa.IndexAddr:
			for _, u := range *r.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr == r {
						acc(u, true, "writes an element of")
					}
				case *ssa.UnOp:
					acc(u, false, "reads an element of")
					l.uses(place+"[]", u, emit, seen, d+1)
				}
			}
		case *ssa.Phi:
			l.uses(place, r, emit, seen, d)
		case *ssa.ChangeType:
			l.uses(place, r, emit, seen, d)
		case *ssa.Slice:
			l.uses(place, r, emit, seen, d)
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					if isMap {
						acc(r, false, "reads the size of")
					}
				case "delete", "clear":
					acc(r, true, "deletes entries of")
				case "append":
					acc(r, len(r.Call.Args) > 0 && r.Call.Args[0] == v, "copies")
					if r.Call.Args[0] == v {
						l.uses(place, r, emit, seen, d)
					}
				case "copy":
					acc(r, r.Call.Args[0] == v, "copies")
				}
				continue
			}
			f := r.Call.StaticCallee()
			if f != nil && inModule(f) && len(f.Blocks) > 0 {
				for i, a := range r.Call.Args {
					if a == v {
						l.uses(place, f.Params[i], emit, seen, d+1)
					}
				}
				continue
			}
			w := false
			if f != nil && f.Origin() != nil {
				f = f.Origin()
			}
			if f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "sort" || strings.HasSuffix(f.Pkg.Pkg.Path(), "slices")) {
				switch f.Name() {
				case "Slice", "SliceStable", "Strings", "Ints", "Sort", "SortFunc", "SortStableFunc", "Delete", "Insert", "Replace", "Reverse", "Compact":
					w = true
				}
			}
			acc(r, w, "passes on")
		case *ssa.MakeInterface:
			for _, u := range *r.Referrers() {
				if c := asCall(u); c != nil {
					f := c.StaticCallee()
					w := f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sort"
					acc(u, w, "passes on")
				}
			}
		case *ssa.Return:
			acc(r, false, "returns")
		case *ssa.Store:
			if r.Val == v {
				if a, ok := r.Addr.(*ssa.Alloc); ok {
					for _, u := range *a.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
							l.uses(place, ld, emit, seen, d)
						}
					}
				}
			}
		}
	}
}

// accesses: every access to a field of the guarded structs and to guarded globals, except by the function making the object.
func (l *Locks) accesses(structs map[string]*types.Struct) []access {
	var out []access
	emit := func(a access) { out = append(out, a) }
	l.p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if strings.HasPrefix(relPkg(fnPkg(fn).Path()), "testutils") || fn.Synthetic != "" {
			return
		}
		fa, ok := in.(*ssa.FieldAddr)
		if ok {
			st := structs[typeName(fa.X.Type())]
			if st == nil || fa.Field >= st.NumFields() {
				return
			}
			f := st.Field(fa.Field)
			if selfSync(f.Type()) || freshBase(fa.X) {
				return
			}
			l.addrUses(typeName(fa.X.Type())+"."+f.Name(), fa, emit)
			return
		}
		for _, op := range in.Operands(nil) {
			g, ok := (*op).(*ssa.Global)
			if !ok || g.Pkg == nil || !isModPkg(g.Pkg.Pkg) || fn.Name() == "init" {
				continue
			}
			if selfSync(g.Type().(*types.Pointer).Elem()) {
				continue
			}
			place := relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
			l.addrUse(place, g, in, emit)
		}
	})
	return out
}

func (l *Locks) addrUses(place string, addr ssa.Value, emit func(access)) {
	for _, r := range *addr.Referrers() {
		l.addrUse(place, addr, r, emit)
	}
}

func (l *Locks) addrUse(place string, addr ssa.Value, r ssa.Instruction, emit func(access)) {
	switch r := r.(type) {
	case *ssa.Store:
		if r.Addr == addr {
			emit(access{place, r, true, "writes", l.At(r)})
		} else {
			emit(access{place, r, true, "stores the address of", l.At(r)})
		}
	case *ssa.UnOp:
		emit(access{place, r, false, "reads", l.At(r)})
		l.uses(place, r, emit, map[ssa.Value]bool{}, 0)
	case *ssa.FieldAddr:
		l.addrUses(place, r, emit)
	case *ssa.IndexAddr:
		l.addrUses(place, r, emit)
	case *ssa.DebugRef:
	case *ssa.Call:
		if f := r.Call.StaticCallee(); f != nil && inModule(f) {
			// a method of an embedded value: does it write?
			w := false
			for i, a := range r.Call.Args {
				if a == addr && i < len(f.Params) && writesThrough(f.Params[i], 0) {
					w = true
				}
			}
			emit(access{place, r, w, "calls a method of", l.At(r)})
			return
		}
		w := true
		if f := r.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(r.Call.Args) > 0 && r.Call.Args[0] == addr {
			w = false // a method of another module's type
		}
		emit(access{place, r, w, "passes the address of", l.At(r)})
	case *ssa.MakeInterface:
		emit(access{place, r, true, "passes the address of", l.At(r)})
	default:
		emit(access{place, r, false, "uses", l.At(r)})
	}
}

// writesThrough: the function owning v may write through the pointer v.
func writesThrough(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if writesThrough(r, d+1) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Call:
			f := r.Call.StaticCallee()
			if f == nil || len(f.Blocks) == 0 {
				return true
			}
			for i, a := range r.Call.Args {
				if a == v && writesThrough(f.Params[i], d+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func p19Locks(p *Prog) *Locks {
	if p.locks == nil {
		p.locks = newLocks(p)
	}
	return p.locks
}

// atomicAccess: the access is a call of a sync/atomic function.
func atomicAccess(a access) bool {
	c := asCall(a.at)
	if c == nil {
		return false
	}
	f := c.StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic"
}

func init() {
	reg("P19", "every field of a struct with a mutex or of a connection, and every package variable, which changes after construction is accessed with one and the same lock held (exclusively for writes), or atomically", func(r *Report) {
		p := r.P
		l := p19Locks(p)
		structs := p.guardedStructs()
		conns := p.connStructs()
		for n, st := range conns {
			structs[n] = st
		}
		byPlace := map[string][]access{}
		for _, a := range l.accesses(structs) {
			byPlace[a.place] = append(byPlace[a.place], a)
		}
		var places []string
		for k := range byPlace {
			places = append(places, k)
		}
		sort.Strings(places)
		guards := map[string]int{}
		for _, pl := range places {
			as := byPlace[pl]
			writes, atomics := 0, 0
			var some, all lockset
			for _, a := range as {
				if atomicAccess(a) {
					atomics++
					writes++
					continue
				}
				if a.write {
					writes++
				}
				own := lockset{}
				for k, m := range a.held {
					if a.write && m == 1 {
						continue
					}
					own[k] = m
				}
				if some == nil {
					some, all = own.clone(), own.clone()
				}
				for k, m := range own {
					some[k] = m
				}
				all = meet(all, own)
				if os.Getenv("DBG") != "" && strings.Contains(pl, os.Getenv("DBG")) {
					fmt.Printf("%s %v %s at %s %s: %s\n", a.place, a.write, a.what, shortName(a.at.Parent()), r.at(a.at), a.held)
				}
			}
			if writes == 0 || (len(some) == 0 && atomics == 0) {
				// never locked: confined to one goroutine, unless a function that writes it takes the lock of the same object for other fields
				owner := pl
				if i := strings.LastIndex(pl, "."); i > 0 {
					owner = pl[:i]
				}
				for _, a := range as {
					if !a.write || structs[owner] == nil {
						continue
					}
					if conns[owner] != nil {
						r.Bad("consistent lock", pl, r.at(a.at), fmt.Sprintf("%s %s %s without any lock, but requests and live updates of a connection run concurrently", shortName(a.at.Parent()), a.what, pl))
					}
					for _, k := range l.takes(a.at.Parent()) {
						if strings.HasPrefix(k, owner+".") && l.locksOf(structs[owner]) == 1 {
							r.Bad("consistent lock", pl, r.at(a.at), fmt.Sprintf("%s %s %s outside the critical section of %s it enters", shortName(a.at.Parent()), a.what, pl, k))
						}
					}
				}
				continue
			}
			r.Ob("consistent lock", pl)
			for _, a := range as {
				r.Touch(a.at.Parent())
			}
			if atomics == len(as) {
				continue
			}
			if atomics == 0 && len(all) > 0 {
				for k := range all {
					guards[k]++
				}
				continue
			}
			if atomics > 0 {
				for _, a := range as {
					if !atomicAccess(a) {
						r.Bad("consistent lock", pl, r.at(a.at), fmt.Sprintf("%s %s %s without sync/atomic, which other accesses to it use", shortName(a.at.Parent()), a.what, pl))
					}
				}
				continue
			}
			// which lock is it meant to be? the one most accesses hold
			cnt := map[string]int{}
			for _, a := range as {
				for k, m := range a.held {
					if !(a.write && m == 1) {
						cnt[k]++
					}
				}
			}
			best := ""
			for k := range some {
				own := func(k string) bool { return strings.HasPrefix(k, pl[:strings.LastIndex(pl, ".")+1]) }
				if best == "" || own(k) && !own(best) || own(k) == own(best) && (cnt[k] > cnt[best] || cnt[k] == cnt[best] && k < best) {
					best = k
				}
			}
			lockedWrites := 0
			for _, a := range as {
				if a.write && a.held[best] == 2 {
					lockedWrites++
				}
			}
			if lockedWrites == 0 && cnt[best]*2 < len(as) {
				// set up before it is shared: no write and hardly any read holds the lock, those that do hold it for something else
				continue
			}
			for _, a := range as {
				m, ok := a.held[best]
				if ok && !(a.write && m == 1) {
					continue
				}
				how := "without " + best
				if ok {
					how = "with " + best + " only held for reading"
				}
				r.Bad("consistent lock", pl, r.at(a.at), fmt.Sprintf("%s %s %s %s, which its other accesses hold (held: %s)", shortName(a.at.Parent()), a.what, pl, how, a.held))
			}
		}
		r.Floor("consistent lock", 25)
	})
	reg("P19", "locks are taken in an order free of cycles, and never taken again by the goroutine holding them", func(r *Report) {
		l := p19Locks(r.P)
		conflict := func(a, b int) bool { return a == 2 || b == 2 }
		edges := l.order()
		uniq := map[string]lockEdge{}
		var keys []string
		for _, e := range edges {
			k := fmt.Sprint(e.from, " ", e.mf, " ", e.to, " ", e.mt)
			if _, ok := uniq[k]; !ok {
				uniq[k] = e
				keys = append(keys, k)
				r.Ob("lock order", e.from+" before "+e.to+" in "+shortName(e.at.Parent()))
			}
		}
		sort.Strings(keys)
		for _, e := range edges {
			if e.from == e.to {
				r.Bad("lock order", e.from, r.at(e.at), fmt.Sprintf("%s takes %s while it is already held: it waits for itself (%s)", shortName(e.at.Parent()), e.to, e.via))
			}
		}
		for _, k := range keys {
			e := uniq[k]
			if e.from == e.to {
				continue
			}
			// a way back
			type st struct {
				e    lockEdge
				path []string
			}
			work := []st{{e, nil}}
			seen := map[string]bool{}
			for len(work) > 0 {
				s := work[0]
				work = work[1:]
				for _, k2 := range keys {
					n := uniq[k2]
					if n.from != s.e.to || n.from == n.to || !conflict(s.e.mt, n.mf) {
						continue
					}
					if n.to == e.from && conflict(n.mt, e.mf) {
						r.Bad("lock order", e.from+" "+e.to, r.at(e.at), fmt.Sprintf("%s takes %s while holding %s, but %s takes %s while holding %s (%s; %s)", shortName(e.at.Parent()), e.to, e.from, shortName(n.at.Parent()), n.to, n.from, e.via, n.via))
						work = nil
						break
					}
					if !seen[k2] {
						seen[k2] = true
						work = append(work, st{n, nil})
					}
				}
			}
		}
		r.Floor("lock order", 10)
	})
	reg("P19", "a lock taken in a function is released on every way out of it", func(r *Report) {
		l := p19Locks(r.P)
		for _, f := range r.P.All {
			if f.Synthetic != "" || len(f.Blocks) == 0 {
				continue
			}
			for _, k := range l.takes(f) {
				r.Ob("released", shortName(f)+" "+k)
				r.Touch(f)
				if at, some, all := l.leaks(f, k); some {
					if all && l.helper(f, k) {
						continue
					}
					r.Bad("released", shortName(f)+" "+k, r.at(at), fmt.Sprintf("%s may return with %s held", shortName(f), k))
				}
			}
		}
		r.Floor("released", 30)
	})
	reg("P19", "a value written to shared state which was computed from that state is written in the same critical section it was read in", func(r *Report) {
		l := p19Locks(r.P)
		for _, a := range l.accesses(r.P.guardedStructs()) {
			if !a.write || len(a.held) == 0 {
				continue
			}
			var v ssa.Value
			switch x := a.at.(type) {
			case *ssa.MapUpdate:
				v = x.Value
			case *ssa.Store:
				v = x.Val
			}
			if v == nil {
				continue
			}
			root := a.place
			if i := strings.Index(root, "["); i >= 0 {
				root = root[:i]
			}
			r.Ob("atomic update", root+" in "+shortName(a.at.Parent()))
			l.atomicUpdate(r, root, a, v)
			l.checkThenAct(r, root, a)
		}
		r.Floor("atomic update", 15)
	})
}

// connStructs: the types which handle one connection (and the ones embedding them): they belong to the request being
// processed, under the connection's lock.
func (p *Prog) connStructs() map[string]*types.Struct {
	out := map[string]*types.Struct{}
	pk := p.ByPath["sync3"]
	if pk == nil {
		return out
	}
	o := pk.Types.Scope().Lookup("ConnHandler")
	if o == nil {
		return out
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return out
	}
	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if ok && types.Implements(types.NewPointer(tn.Type()), it) {
				out[typeName(tn.Type())] = st
			}
		}
	}
	return out
}

func (l *Locks) locksOf(st *types.Struct) int {
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if isMutex(st.Field(i).Type()) {
			n++
		}
	}
	return n
}

func (l *Locks) takes(f *ssa.Function) []string {
	seen := map[string]bool{}
	var out []string
	fnInstrs(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok {
			if k, m, ok := lockOp(&c.Call); ok && m > 0 && !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	})
	return out
}

// leaks: f may (some) or always (all) returns with key held which it took.
func (l *Locks) leaks(f *ssa.Function, key string) (at ssa.Instruction, some, all bool) {
	type st struct{ held, deferred bool }
	in := map[*ssa.BasicBlock]map[st]bool{f.Blocks[0]: {{}: true}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	all = true
	rets := 0
	res := map[*ssa.BasicBlock]map[st]bool{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		outs := map[st]bool{}
		for s := range in[b] {
			for _, i := range b.Instrs {
				c := asCall(i)
				if c == nil {
					continue
				}
				if d, ok := i.(*ssa.Defer); ok {
					if l.deferUnlocks(d, key) {
						s.deferred = true
					}
					continue
				}
				if _, ok := i.(*ssa.Go); ok {
					continue
				}
				if k, m, ok := lockOp(c); ok {
					if k == key {
						s.held = m > 0
					}
				} else if g := c.StaticCallee(); g != nil && inModule(g) && len(g.Blocks) > 0 {
					gs := l.summary(g)
					if gs.releases[key] {
						s.held = false
					}
					if gs.acquires[key] > 0 {
						s.held = true
					}
				}
			}
			outs[s] = true
		}
		res[b] = outs
		for _, n := range b.Succs {
			if in[n] == nil {
				in[n] = map[st]bool{}
			}
			grew := false
			for s := range outs {
				if !in[n][s] {
					in[n][s] = true
					grew = true
				}
			}
			if grew {
				work = append(work, n)
			}
		}
	}
	for _, b := range f.Blocks {
		rt, ok := last(b).(*ssa.Return)
		if !ok || b == f.Recover {
			continue
		}
		for s := range res[b] {
			rets++
			if s.held && !s.deferred {
				some = true
				at = rt
			} else {
				all = false
			}
		}
	}
	return at, some, all && rets > 0
}

// helper: f locks key on behalf of its callers, all of which release it.
func (l *Locks) helper(f *ssa.Function, key string) bool {
	sites := l.p.sitesOf(f)
	if len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		_, some, _ := l.leaks(s.Parent(), key)
		if some {
			return false
		}
	}
	return true
}

// atomicUpdate: every read of root which v is computed from happens in the critical section in which it is written.
func (l *Locks) atomicUpdate(r *Report, root string, a access, v ssa.Value) {
	seen := map[ssa.Value]bool{}
	var check func(v ssa.Value, at ssa.Instruction, d int)
	read := func(rd ssa.Instruction, at ssa.Instruction) {
		if rd.Parent() != at.Parent() {
			return
		}
		hr, hw := l.At(rd), l.At(at)
		for k := range meet(hr, hw) {
			if hw[k] == 2 && a.held[k] == 2 && !l.releasedBetween(rd, at, k) {
				return
			}
		}
		r.Bad("atomic update", root+" in "+shortName(a.at.Parent()), r.at(a.at), fmt.Sprintf("%s writes to %s what it computed from an earlier read of it (%s at %s), but the lock was not held throughout: a concurrent update in between is lost", shortName(at.Parent()), root, shortName(rd.Parent()), r.at(rd)))
	}
	check = func(v ssa.Value, at ssa.Instruction, d int) {
		if v == nil || seen[v] || d > 5 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				check(e, at, d)
			}
		case *ssa.Lookup:
			if placeOf(x.X) == root {
				read(x, at)
				return
			}
			check(x.X, at, d)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Lookup:
				if placeOf(t.X) == root {
					read(t, at)
				}
			case *ssa.Next:
				if rg, ok := t.Iter.(*ssa.Range); ok && placeOf(rg.X) == root && x.Index == 2 {
					read(t, at)
				}
			case *ssa.Call:
				if l.derives(t, x.Index, root, 0) {
					read(t, at)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					for _, e := range x.Call.Args {
						check(e, at, d)
					}
				}
				return
			}
			if l.derives(x, 0, root, 0) {
				read(x, at)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if placeOf(x) == root {
					if _, isMap := x.Type().Underlying().(*types.Map); !isMap {
						read(x, at)
					}
					return
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, st := range storesTo(al) {
						check(st.Val, at, d)
					}
					return
				}
			}
			check(x.X, at, d)
		case *ssa.BinOp:
			check(x.X, at, d)
			check(x.Y, at, d)
		case *ssa.Slice:
			check(x.X, at, d)
		case *ssa.Convert:
			check(x.X, at, d)
		case *ssa.ChangeType:
			check(x.X, at, d)
		case *ssa.Field:
			check(x.X, at, d)
		case *ssa.Parameter:
			for _, s := range l.p.sitesOf(x.Parent()) {
				if c := asCall(s); c != nil && c.StaticCallee() == x.Parent() {
					check(c.Args[paramIndex(x)], s, d+1)
				}
			}
		}
	}
	check(v, a.at, 0)
}

// checkThenAct: a write which happens only because of what was read from the same entry happens in the critical section
// of the read (or of another such read).
func (l *Locks) checkThenAct(r *Report, root string, a access) {
	var key ssa.Value
	if mu, ok := a.at.(*ssa.MapUpdate); ok {
		if placeOf(mu.Map) != root {
			return
		}
		key = mu.Key
	}
	var reads []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		if lk, ok := v.(*ssa.Lookup); ok && key != nil {
			if placeOf(lk.X) == root && l.p.same(lk.Index, key) {
				reads = append(reads, lk)
			}
			return
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && key == nil && placeOf(u) == root {
			reads = append(reads, u)
			return
		}
		if c, ok := v.(*ssa.Call); ok && key != nil && l.derives(c, 0, root, 0) {
			for _, arg := range c.Call.Args {
				if l.p.same(arg, key) {
					reads = append(reads, c)
				}
			}
			return
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, st := range storesTo(al) {
				walk(st.Val, d+1)
			}
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if op != nil {
					walk(*op, d+1)
				}
			}
		}
	}
	b := a.at.Block()
	for _, d := range b.Parent().Blocks {
		ifi, ok := last(d).(*ssa.If)
		if !ok || d == b {
			continue
		}
		to := 0
		for _, s := range d.Succs {
			if s == b || reachesWithout(s, b, d) {
				to++
			}
		}
		if to == 1 {
			walk(ifi.Cond, 0)
		}
	}
	if len(reads) == 0 {
		return
	}
	for _, rd := range reads {
		hr := l.At(rd)
		for k := range meet(hr, a.held) {
			if a.held[k] == 2 && !l.releasedBetween(rd, a.at, k) {
				return
			}
		}
	}
	r.Bad("atomic update", root+" in "+shortName(a.at.Parent()), r.at(a.at), fmt.Sprintf("%s writes to %s depending on what it read from it at %s, but the lock was not held throughout: two concurrent calls may both find the entry missing", shortName(a.at.Parent()), root, r.at(reads[0])))
}

// placeOf: the guarded field v was loaded from.
func placeOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return typeName(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
			}
			if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil {
				return relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
			}
		}
	case *ssa.ChangeType:
		return placeOf(x.X)
	}
	return ""
}

// derives: result idx of the call is read from root by the callee.
func (l *Locks) derives(c *ssa.Call, idx int, root string, d int) bool {
	f := c.Call.StaticCallee()
	if f == nil || !inModule(f) || d > 3 {
		return false
	}
	found := false
	fnInstrs(f, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok || idx >= len(rt.Results) {
			return
		}
		for _, s := range l.p.sources(rt.Results[idx]) {
			switch x := s.(type) {
			case *ssa.Lookup:
				found = found || placeOf(x.X) == root
			case *ssa.Extract:
				if lk, ok := x.Tuple.(*ssa.Lookup); ok {
					found = found || placeOf(lk.X) == root
				}
			}
		}
	})
	return found
}

// releasedBetween: key may be released on a way from a to b.
func (l *Locks) releasedBetween(a, b ssa.Instruction, key string) bool {
	rel := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		if k, m, ok := lockOp(&c.Call); ok {
			return m == 0 && k == key
		}
		if g := c.Call.StaticCallee(); g != nil && inModule(g) && len(g.Blocks) > 0 {
			return l.summary(g).releases[key]
		}
		return false
	}
	type pt struct {
		b   *ssa.BasicBlock
		rel bool
	}
	scan := func(bl *ssa.BasicBlock, from, to int, r bool) bool {
		for i := from; i < to; i++ {
			if rel(bl.Instrs[i]) {
				r = true
			}
		}
		return r
	}
	if a.Block() == b.Block() && indexOf(a) < indexOf(b) {
		return scan(a.Block(), indexOf(a)+1, indexOf(b), false)
	}
	start := scan(a.Block(), indexOf(a)+1, len(a.Block().Instrs), false)
	seen := map[pt]bool{}
	var work []pt
	for _, s := range a.Block().Succs {
		work = append(work, pt{s, start})
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[p] {
			continue
		}
		seen[p] = true
		if p.b == b.Block() {
			if scan(p.b, 0, indexOf(b), p.rel) {
				return true
			}
			continue
		}
		if p.b == a.Block() { // the value is read again
			continue
		}
		n := scan(p.b, 0, len(p.b.Instrs), p.rel)
		for _, s := range p.b.Succs {
			work = append(work, pt{s, n})
		}
	}
	return false
}
