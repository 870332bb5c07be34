package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks held, as a must-analysis: a lock is identified by the struct field (or global) holding the mutex.
// Mode 1: shared (RLock), 2: exclusive.
type lockset map[string]int

func (l lockset) clone() lockset {
	o := lockset{}
	for k, v := range l {
		o[k] = v
	}
	return o
}

func (l lockset) String() string {
	var ks []string
	for k, m := range l {
		if m == 1 {
			k += " (shared)"
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return "no lock"
	}
	return strings.Join(ks, ", ")
}

func meet(a, b lockset) lockset {
	o := lockset{}
	for k, m := range a {
		if n, ok := b[k]; ok {
			if n < m {
				m = n
			}
			o[k] = m
		}
	}
	return o
}

func eqLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, m := range a {
		if b[k] != m {
			return false
		}
	}
	return true
}

type lockSummary struct {
	acquires lockset         // held at every return though not at entry
	releases map[string]bool // may be released on return
}

type Locks struct {
	p       *Prog
	entry   map[*ssa.Function]lockset
	in      map[*ssa.BasicBlock]lockset
	sum     map[*ssa.Function]*lockSummary
	invokes map[string][]ssa.Instruction // method name -> invoke sites
	busy    map[*ssa.Function]bool
	sites   map[*ssa.Function][]lockSite
	byName  map[string][]*ssa.Function
	bySig   map[string][]*ssa.Function
	acq     map[*ssa.Function]map[string]acquired
}

type lockSite struct {
	at    ssa.Instruction
	empty bool // runs in another goroutine, or at an unknown time
}

// lockKey: the lock whose address (or pointer) v is.
func lockKey(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
				continue
			}
			return ""
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.FieldAddr:
			return typeName(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
		case *ssa.Field:
			return typeName(x.X.Type()) + "." + fieldName(x.X.Type(), x.Field)
		case *ssa.Global:
			return relPkg(x.Pkg.Pkg.Path()) + "." + x.Name()
		case *ssa.Alloc:
			// a local holding the lock
			if st := storesTo(x); len(st) == 1 {
				v = st[0].Val
				continue
			}
			return "local " + x.Name() + "@" + shortName(x.Parent())
		case *ssa.Phi:
			k := ""
			for _, e := range x.Edges {
				if e == v {
					continue
				}
				n := lockKey(e)
				if k != "" && n != k {
					return ""
				}
				k = n
			}
			return k
		case *ssa.FreeVar:
			if b := freeVarBinding(x); b != nil {
				v = b
				continue
			}
			return ""
		default:
			return ""
		}
	}
}

// lockOp: in locks (mode 1 or 2) or unlocks (mode 0) the lock key.
func lockOp(c *ssa.CallCommon) (key string, mode int, ok bool) {
	var recv ssa.Value
	name := ""
	if c.IsInvoke() {
		if typeName(c.Value.Type()) != "sync.Locker" {
			return "", 0, false
		}
		recv, name = c.Value, c.Method.Name()
	} else {
		f := c.StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || f.Signature.Recv() == nil || len(c.Args) == 0 {
			return "", 0, false
		}
		if t := typeName(f.Signature.Recv().Type()); t != "sync.Mutex" && t != "sync.RWMutex" {
			return "", 0, false
		}
		recv, name = c.Args[0], f.Name()
	}
	switch name {
	case "Lock":
		mode = 2
	case "RLock":
		mode = 1
	case "Unlock", "RUnlock":
		mode = 0
	default:
		return "", 0, false
	}
	key = lockKey(recv)
	return key, mode, key != ""
}

func newLocks(p *Prog) *Locks {
	l := &Locks{p: p, entry: map[*ssa.Function]lockset{}, in: map[*ssa.BasicBlock]lockset{}, sum: map[*ssa.Function]*lockSummary{}, busy: map[*ssa.Function]bool{}, sites: map[*ssa.Function][]lockSite{}}
	l.collectSites()
	// entry locksets: start from "everything" and shrink
	const top = "\x00top"
	for _, fn := range p.All {
		if len(l.sites[fn]) == 0 && fn.Synthetic == "" {
			l.entry[fn] = lockset{}
		} else {
			l.entry[fn] = lockset{top: 2}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.All {
			l.flow(fn)
		}
		for _, fn := range p.All {
			ss := l.sites[fn]
			if len(ss) == 0 {
				continue
			}
			var n lockset
			for _, s := range ss {
				var h lockset
				if s.empty {
					h = lockset{}
				} else {
					h = l.siteHeld(s.at)
				}
				if h[top] == 2 {
					continue // not known yet
				}
				if n == nil {
					n = h.clone()
				} else {
					n = meet(n, h)
				}
			}
			if n == nil {
				continue
			}
			if !eqLocks(n, l.entry[fn]) {
				l.entry[fn] = n
				changed = true
			}
		}
	}
	for _, fn := range p.All {
		if l.entry[fn][top] == 2 { // only reachable from itself
			l.entry[fn] = lockset{}
			l.flow(fn)
		}
	}
	return l
}

// collectSites: where each function may be entered from.
func (l *Locks) collectSites() {
	p := l.p
	add := func(fn *ssa.Function, at ssa.Instruction, empty bool) {
		l.sites[fn] = append(l.sites[fn], lockSite{at, empty})
	}
	type inv struct {
		at ssa.Instruction
		it *types.Interface
		m  string
	}
	var invs []inv
	p.instrs(func(f *ssa.Function, in ssa.Instruction) {
		_, isGo := in.(*ssa.Go)
		if c := asCall(in); c != nil {
			if c.IsInvoke() {
				if it, ok := c.Value.Type().Underlying().(*types.Interface); ok {
					invs = append(invs, inv{in, it, c.Method.Name()})
				}
			} else if cal := c.StaticCallee(); cal != nil {
				if _, isMC := c.Value.(*ssa.MakeClosure); !isMC {
					add(cal, in, isGo)
				}
			}
		}
		if mc, ok := in.(*ssa.MakeClosure); ok {
			fn := mc.Fn.(*ssa.Function)
			// a bound method value: the wrapper calls the method
			for _, ref := range *mc.Referrers() {
				l.closureUse(fn, mc, ref, add)
			}
			return
		}
		for i, op := range in.Operands(nil) {
			f2, ok := (*op).(*ssa.Function)
			if !ok {
				continue
			}
			if c := asCall(in); c != nil && i == 0 && c.Value == f2 {
				continue
			}
			l.closureUse(f2, f2, in, add)
		}
	})
	for _, fn := range p.All {
		recv := fn.Signature.Recv()
		if recv == nil {
			continue
		}
		for _, iv := range invs {
			if iv.m == fn.Name() && types.Implements(recv.Type(), iv.it) {
				_, isGo := iv.at.(*ssa.Go)
				add(fn, iv.at, isGo)
			}
		}
	}
}

// closureUse: how the function value v for fn is used by ref.
func (l *Locks) closureUse(fn *ssa.Function, v ssa.Value, ref ssa.Instruction, add func(*ssa.Function, ssa.Instruction, bool)) {
	switch r := ref.(type) {
	case *ssa.Go:
		add(fn, r, true)
	case *ssa.Defer:
		add(fn, r, r.Call.Value != v && !syncCallee(&r.Call))
	case *ssa.Call:
		add(fn, r, r.Call.Value != v && !syncCallee(&r.Call))
	case *ssa.DebugRef:
	case *ssa.ChangeType:
		for _, r2 := range *r.Referrers() {
			l.closureUse(fn, r, r2, add)
		}
	case *ssa.MakeInterface:
		for _, r2 := range *r.Referrers() {
			l.closureUse(fn, r, r2, add)
		}
	case *ssa.Phi:
		for _, r2 := range *r.Referrers() {
			if r2 != ref {
				l.closureUse(fn, r, r2, add)
			}
		}
	case *ssa.Store:
		if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v {
			// a local variable: calls through it
			all := true
			for _, u := range *a.Referrers() {
				switch u := u.(type) {
				case *ssa.UnOp:
					for _, r2 := range *u.Referrers() {
						l.closureUse(fn, u, r2, add)
					}
				case *ssa.Store, *ssa.DebugRef:
				default:
					all = false
				}
			}
			if all {
				return
			}
		}
		add(fn, ref, true)
	default:
		add(fn, ref, true)
	}
}

// syncCallee: the callee runs function arguments before it returns (and in the same goroutine).
func syncCallee(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "sort", "slices", "golang.org/x/exp/slices", "strings", "bytes", "github.com/tidwall/gjson", "golang.org/x/exp/maps":
		return true
	case "sync":
		return f.Name() == "Range" || f.Name() == "Do"
	}
	if isModPkg(f.Pkg.Pkg) {
		// does the callee only call the parameter?
		return callsOnly(f, c)
	}
	return false
}

func callsOnly(f *ssa.Function, c *ssa.CallCommon) bool {
	for i, prm := range f.Params {
		if i >= len(c.Args) {
			return false
		}
		if _, ok := c.Args[i].Type().Underlying().(*types.Signature); !ok {
			continue
		}
		if !onlyCalled(prm, 0) {
			return false
		}
	}
	return true
}

func onlyCalled(v ssa.Value, d int) bool {
	if d > 3 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Call:
			if r.Call.Value == v {
				continue
			}
			g := r.Call.StaticCallee()
			if g == nil || len(g.Blocks) == 0 {
				if g != nil && syncCallee(&r.Call) {
					continue
				}
				return false
			}
			for i, a := range r.Call.Args {
				if a == v && !onlyCalled(g.Params[i], d+1) {
					return false
				}
			}
		case *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		case *ssa.Phi:
			if !onlyCalled(r, d+1) {
				return false
			}
		case *ssa.MakeClosure:
			// captured by a closure which is itself run synchronously: check the free variable's uses
			g := r.Fn.(*ssa.Function)
			ok := false
			for i, b := range r.Bindings {
				if b == v {
					ok = onlyCalled(g.FreeVars[i], d+1)
				}
			}
			if !ok || !onlyCalled(r, d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// siteHeld: the locks held when the call or closure creation at runs its target.
func (l *Locks) siteHeld(at ssa.Instruction) lockset {
	h := l.At(at)
	if d, ok := at.(*ssa.Defer); ok {
		// runs at the returns; locks released before, or by a deferred call registered later, are gone
		fn := at.Parent()
		for _, b := range fn.Blocks {
			if _, ok := last(b).(*ssa.Return); ok {
				h = meet(h, l.out(b))
			}
		}
		for k := range h {
			fnInstrs(fn, func(in ssa.Instruction) {
				u, ok := in.(*ssa.Defer)
				if !ok || u == d {
					return
				}
				if l.deferUnlocks(u, k) && !(u.Block() == d.Block() && indexOf(u) < indexOf(d) || u.Block() != d.Block() && u.Block().Dominates(d.Block())) {
					delete(h, k)
				}
			})
		}
	}
	return h
}

func (l *Locks) deferUnlocks(u *ssa.Defer, key string) bool {
	if k, m, ok := lockOp(&u.Call); ok {
		return m == 0 && k == key
	}
	if f := u.Call.StaticCallee(); f != nil && inModule(f) {
		return l.summary(f).releases[key]
	}
	return false
}

// At: the locks held when in runs.
func (l *Locks) At(in ssa.Instruction) lockset {
	h := l.in[in.Block()].clone()
	for _, i := range in.Block().Instrs {
		if i == in {
			break
		}
		l.step(h, i)
	}
	return h
}

func (l *Locks) out(b *ssa.BasicBlock) lockset {
	h := l.in[b].clone()
	for _, i := range b.Instrs {
		l.step(h, i)
	}
	return h
}

func (l *Locks) step(h lockset, in ssa.Instruction) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	if k, m, ok := lockOp(&c.Call); ok {
		if m == 0 {
			delete(h, k)
		} else {
			h[k] = m
		}
		return
	}
	if f := c.Call.StaticCallee(); f != nil && inModule(f) && len(f.Blocks) > 0 {
		s := l.summary(f)
		for k := range s.releases {
			delete(h, k)
		}
		for k, m := range s.acquires {
			h[k] = m
		}
	}
}

// summary: the effect of calling f on the locks held, for helpers which lock or unlock for their callers.
func (l *Locks) summary(f *ssa.Function) *lockSummary {
	if s := l.sum[f]; s != nil {
		return s
	}
	s := &lockSummary{acquires: lockset{}, releases: map[string]bool{}}
	if l.busy[f] {
		return s
	}
	l.busy[f] = true
	defer delete(l.busy, f)
	touches := false
	fnInstrs(f, func(in ssa.Instruction) {
		if c := asCall(in); c != nil {
			if _, _, ok := lockOp(c); ok {
				touches = true
			} else if g := c.StaticCallee(); g != nil && inModule(g) {
				if _, isGo := in.(*ssa.Go); !isGo {
					gs := l.summary(g)
					if len(gs.acquires)+len(gs.releases) > 0 {
						touches = true
					}
				}
			}
		}
	})
	if touches {
		// two passes: locks held at the returns starting from none; locks lost starting from the ones it unlocks
		run := func(start lockset) (lockset, bool) {
			in := map[*ssa.BasicBlock]lockset{f.Blocks[0]: start}
			work := []*ssa.BasicBlock{f.Blocks[0]}
			var res lockset
			rets := map[*ssa.BasicBlock]lockset{}
			for len(work) > 0 {
				b := work[0]
				work = work[1:]
				h := in[b].clone()
				for _, i := range b.Instrs {
					if d, ok := i.(*ssa.Defer); ok {
						if k, m, ok := lockOp(&d.Call); ok && m == 0 {
							h["\x01"+k] = 2 // released at return
						} else if g := d.Call.StaticCallee(); g != nil && inModule(g) {
							for k := range l.summary(g).releases {
								h["\x01"+k] = 2
							}
						}
					}
					l.step(h, i)
				}
				if _, ok := last(b).(*ssa.Return); ok {
					rets[b] = h
				}
				for _, n := range b.Succs {
					o, seen := in[n]
					m := h
					if seen {
						m = meet(o, h)
					}
					if !seen || !eqLocks(m, o) {
						in[n] = m.clone()
						work = append(work, n)
					}
				}
			}
			for _, h := range rets {
				e := lockset{}
				for k, m := range h {
					if !strings.HasPrefix(k, "\x01") && h["\x01"+k] == 0 {
						e[k] = m
					}
				}
				if res == nil {
					res = e
				} else {
					res = meet(res, e)
				}
			}
			return res, res != nil
		}
		if h, ok := run(lockset{}); ok {
			s.acquires = h
		}
		start := lockset{}
		fnInstrs(f, func(in ssa.Instruction) {
			if c := asCall(in); c != nil {
				if k, m, ok := lockOp(c); ok && m == 0 {
					start[k] = 2
				} else if g := c.StaticCallee(); g != nil && inModule(g) {
					for k := range l.summary(g).releases {
						start[k] = 2
					}
				}
			}
		})
		if h, ok := run(start); ok {
			for k := range start {
				if _, held := h[k]; !held {
					// released only when it was not taken here first
					if l.unlocksFirst(f, k) {
						s.releases[k] = true
					}
				}
			}
		}
	}
	l.sum[f] = s
	return s
}

// unlocksFirst: some path of f unlocks key without having locked it.
func (l *Locks) unlocksFirst(f *ssa.Function, key string) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			c := asCall(in)
			if c == nil {
				continue
			}
			if k, m, ok := lockOp(c); ok && k == key {
				return m == 0
			}
			if g := c.StaticCallee(); g != nil && g != f && inModule(g) {
				if _, isGo := in.(*ssa.Go); !isGo {
					gs := l.summary(g)
					if gs.releases[key] {
						return true
					}
					if _, ok := gs.acquires[key]; ok {
						return false
					}
				}
			}
		}
		for _, n := range b.Succs {
			if walk(n) {
				return true
			}
		}
		return false
	}
	return len(f.Blocks) > 0 && walk(f.Blocks[0])
}

func (l *Locks) flow(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	for _, b := range fn.Blocks {
		delete(l.in, b)
	}
	l.in[fn.Blocks[0]] = l.entry[fn].clone()
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	if fn.Recover != nil && fn.Recover != fn.Blocks[0] {
		l.in[fn.Recover] = lockset{}
		work = append(work, fn.Recover)
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		h := l.out(b)
		for _, n := range b.Succs {
			o, seen := l.in[n]
			m := h
			if seen {
				m = meet(o, h)
			}
			if !seen || !eqLocks(m, o) {
				l.in[n] = m.clone()
				work = append(work, n)
			}
		}
	}
	for _, b := range fn.Blocks {
		if l.in[b] == nil {
			l.in[b] = lockset{} // unreachable
		}
	}
}

// dynamicCallees: the module functions the (non-static) call c may run: methods implementing an interface method, or
// functions whose address is taken with the type of the function value called.
func (l *Locks) dynamicCallees(c *ssa.CallCommon) []*ssa.Function {
	if c.StaticCallee() != nil {
		return nil
	}
	if l.byName == nil {
		l.byName = map[string][]*ssa.Function{}
		l.bySig = map[string][]*ssa.Function{}
		l.p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			for i, op := range in.Operands(nil) {
				f2, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if cc := asCall(in); cc != nil && i == 0 && cc.Value == f2 {
					continue
				}
				k := sigKey(f2.Signature)
				for _, o := range l.bySig[k] {
					if o == f2 {
						ok = false
					}
				}
				if ok {
					l.bySig[k] = append(l.bySig[k], f2)
				}
			}
		})
		for _, fn := range l.p.All {
			if fn.Signature.Recv() != nil {
				l.byName[fn.Name()] = append(l.byName[fn.Name()], fn)
			}
		}
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for _, f := range l.byName[c.Method.Name()] {
			if types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	sig, ok := c.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	if sig.Params().Len() == 0 && sig.Results().Len() == 0 {
		return nil // func(): too unspecific to resolve by type
	}
	return l.bySig[sigKey(sig)]
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// mayAcquire: the locks fn or anything it calls in the same goroutine may take, with a way to get there.
type acquired struct {
	via  string
	mode int
}

func (l *Locks) mayAcquire(fn *ssa.Function) map[string]acquired {
	if l.acq == nil {
		l.acq = map[*ssa.Function]map[string]acquired{}
		for changed := true; changed; {
			changed = false
			for _, f := range l.p.All {
				m := l.acq[f]
				if m == nil {
					m = map[string]acquired{}
					l.acq[f] = m
				}
				fnInstrs(f, func(in ssa.Instruction) {
					c := asCall(in)
					if c == nil {
						return
					}
					if _, isGo := in.(*ssa.Go); isGo {
						return
					}
					if k, mode, ok := lockOp(c); ok {
						if mode > m[k].mode {
							m[k] = acquired{shortName(f), mode}
							changed = true
						}
						return
					}
					for _, g := range l.callees(c) {
						for k, a := range l.acq[g] {
							if a.mode > m[k].mode {
								m[k] = acquired{shortName(f) + " -> " + a.via, a.mode}
								changed = true
							}
						}
					}
				})
			}
		}
	}
	return l.acq[fn]
}

func (l *Locks) callees(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	if f := c.StaticCallee(); f != nil {
		if inModule(f) {
			out = append(out, f)
		}
	} else {
		out = append(out, l.dynamicCallees(c)...)
	}
	// function arguments which the callee runs
	for _, a := range c.Args {
		switch x := a.(type) {
		case *ssa.MakeClosure:
			if syncCallee(c) {
				out = append(out, x.Fn.(*ssa.Function))
			}
		case *ssa.Function:
			if syncCallee(c) && inModule(x) {
				out = append(out, x)
			}
		}
	}
	return out
}

type lockEdge struct {
	from, to string
	at       ssa.Instruction
	via      string
	mf, mt   int // modes held and taken
}

// order: which lock may be taken while which other is held.
func (l *Locks) order() []lockEdge {
	var out []lockEdge
	for _, f := range l.p.All {
		if f.Synthetic != "" {
			continue
		}
		fnInstrs(f, func(in ssa.Instruction) {
			c := asCall(in)
			if c == nil {
				return
			}
			if _, isGo := in.(*ssa.Go); isGo {
				return
			}
			var held lockset
			if _, ok := in.(*ssa.Defer); ok {
				if _, m, ok := lockOp(c); ok && m == 0 {
					return
				}
				held = l.siteHeld(in)
			} else {
				held = l.At(in)
			}
			if len(held) == 0 {
				return
			}
			if k, m, ok := lockOp(c); ok {
				if m > 0 {
					for h := range held {
						out = append(out, lockEdge{h, k, in, "", held[h], m})
					}
				}
				return
			}
			for _, g := range l.callees(c) {
				for k, a := range l.mayAcquire(g) {
					for h := range held {
						out = append(out, lockEdge{h, k, in, a.via, held[h], a.mode})
					}
				}
			}
		})
	}
	return out
}
