package main

// Obligations to forward: every way through a function passes on what it was given (directly, through helpers, or by a
// loop over all of the items), unless a condition which permits leaving it out is found true.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fwd struct {
	c      *chooser
	g      CondGuard                             // reasons not to forward
	want   func(in ssa.Instruction, e *Env) bool // forwards
	item   func(path string) bool                // collections of which each item is to be forwarded
	isItem func(v ssa.Value, e *Env) bool        // the same, by value
	memo   map[fwdKey]int
	cov    map[fwdKey]int
	errs   bool // giving up with a new error is a reason
	circ   int  // how often a question came up while it was being answered
}

type fwdKey struct {
	v any
	e *Env
}

func (p *Prog) fwd(c *chooser, item func(string) bool, g CondGuard, want func(in ssa.Instruction, e *Env) bool) *fwd {
	f := &fwd{c: c, item: item, want: want, memo: map[fwdKey]int{}, cov: map[fwdKey]int{}}
	f.g = func(cd Cond) bool { return f.allows(cd, g, 0) }
	return f
}

// allows: the condition is one of the reasons, or follows only from one (a value which is nil or a constant only for
// such a reason).
func (f *fwd) allows(cd Cond, g CondGuard, d int) bool {
	if g != nil && g(cd) {
		return true
	}
	if d > 2 {
		return false
	}
	type level struct {
		cd Cond
		d  int
	}
	key := fwdKey{level{cd, d}, nil}
	if m, ok := f.memo[key]; ok {
		return m == 1
	}
	f.memo[key] = 0
	n := f.circ
	res := f.allows1(cd, g, d)
	if res {
		f.memo[key] = 1
	} else if f.circ > n && f.circ < 50 {
		delete(f.memo, key) // depends on what is being found out
	}
	return res
}

func (f *fwd) allows1(cd Cond, g CondGuard, d int) bool {
	deep := func(cd Cond) bool { return f.allows(cd, g, d+1) }
	// nothing to do for an empty collection of the items
	if f.item != nil && f.c.emptyOf(cd, func(v ssa.Value, e *Env) bool { return f.covers(v, e) }) {
		return true
	}
	if b, ok := cd.V.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		v := b.X
		if isNilConst(v) {
			v = b.Y
		} else if !isNilConst(b.Y) {
			return false
		}
		if cd.Pol != (b.Op == token.EQL) {
			return false
		}
		return f.onlyWhen(v, cd.E, deep, "nil", "zero")
	}
	if bt, ok := cd.V.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
		switch cd.V.(type) {
		case *ssa.Extract, *ssa.Phi, *ssa.UnOp, *ssa.Call:
		default:
			return false
		}
		any := false
		for _, ch := range f.c.Of(cd.V, nil, cd.E) {
			if ch.V == cd.V {
				return false
			}
			if ch.Path == "true" || ch.Path == "false" {
				if ch.Path != fmt.Sprint(cd.Pol) {
					continue
				}
				if !ch.When(deep) {
					return false
				}
				any = true
				continue
			}
			if !ch.When(deep) && !deep(Cond{ch.V, cd.Pol, ch.E}) {
				return false
			}
			any = true
		}
		return any
	}
	return false
}

// onlyWhen: v is one of the given constants only when g.
func (f *fwd) onlyWhen(v ssa.Value, e *Env, g CondGuard, paths ...string) bool {
	any := false
	for _, ch := range f.c.Of(v, nil, e) {
		if !names(paths).has(ch.Path) {
			continue
		}
		any = true
		if !ch.When(g) {
			return false
		}
	}
	return any
}

// emptyOf: the condition is that a collection is empty (or nil).
func (c *chooser) emptyOf(cd Cond, of func(v ssa.Value, e *Env) bool) bool {
	b, ok := cd.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := b.X, b.Y, b.Op
	if _, isK := x.(*ssa.Const); isK {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	k, isK := y.(*ssa.Const)
	if !isK {
		return false
	}
	if k.Value == nil {
		switch x.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			return cd.Pol == (op == token.EQL) && (op == token.EQL || op == token.NEQ) && of(x, cd.E)
		}
		return false
	}
	cl, ok := x.(*ssa.Call)
	if !ok || callName(&cl.Call) != "builtin.len" {
		return false
	}
	pol := false
	switch n := k.Value.String(); {
	case op == token.EQL && n == "0", op == token.LSS && n == "1", op == token.LEQ && n == "0":
		pol = true
	case op == token.NEQ && n == "0", op == token.GEQ && n == "1", op == token.GTR && n == "0":
	default:
		return false
	}
	return cd.Pol == pol && of(cl.Call.Args[0], cd.E)
}

// must: nil, or a return which is reached without having forwarded.
func (f *fwd) must(e *Env) ssa.Instruction {
	bad, _ := f.walk(e, e.fn.Blocks[0], 0)
	return bad
}

// after: like must, from the instruction on.
func (f *fwd) after(in ssa.Instruction, e *Env) ssa.Instruction {
	for i, x := range in.Block().Instrs {
		if x == in {
			bad, _ := f.walk(e, in.Block(), i+1)
			return bad
		}
	}
	return in
}

func (f *fwd) walk(e *Env, from *ssa.BasicBlock, idx int) (bad ssa.Instruction, hit bool) {
	k := f.c.guard(f.g, e)
	seen := map[*ssa.BasicBlock]bool{}
	var go1 func(b *ssa.BasicBlock, i int)
	go1 = func(b *ssa.BasicBlock, i int) {
		if i == 0 && f.item != nil && isHeader(b) && f.drains(b, e) {
			hit = true
			return
		}
		for _, in := range b.Instrs[i:] {
			if f.leads(in, e) {
				hit = true
				return
			}
			if ret, ok := in.(*ssa.Return); ok && bad == nil && !(f.errs && f.fails(ret, e)) {
				bad = in
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && !k.cuts(b, s, nil, 0) {
				seen[s] = true
				go1(s, 0)
			}
		}
	}
	go1(from, idx)
	return
}

// leads: the instruction forwards, or is a call which always does.
func (f *fwd) leads(in ssa.Instruction, e *Env) bool {
	if f.want(in, e) {
		return true
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	key := fwdKey{in, e}
	if m, ok := f.memo[key]; ok {
		return m == 1
	}
	f.memo[key] = 0
	ne := e.enter(ci.Common(), in)
	if ne == nil {
		return false
	}
	bad, hit := f.walk(ne, ne.fn.Blocks[0], 0)
	if bad == nil && hit {
		f.memo[key] = 1
		return true
	}
	return false
}

// drains: the loop goes through all of the items and forwards each of them.
func (f *fwd) drains(h *ssa.BasicBlock, e *Env) bool {
	key := fwdKey{h, e}
	if m, ok := f.memo[key]; ok {
		return m == 1
	}
	f.memo[key] = 0
	rv := wholeLoop(h)
	if rv == nil || !f.covers(rv, e) || f.leaves(h, e) {
		return false
	}
	hit := false
	done := func(in ssa.Instruction) bool {
		b := in.Block()
		if b != h && in == b.Instrs[0] && isHeader(b) && f.drains(b, e) || f.leads(in, e) {
			hit = true
			return true
		}
		return false
	}
	if f.c.skips(h, e, done, f.g) || !hit {
		return false
	}
	f.memo[key] = 1
	return true
}

// leaves: the loop may be left early, without a reason.
func (f *fwd) leaves(h *ssa.BasicBlock, e *Env) bool {
	if breaks(h) == nil {
		return false
	}
	// only for a failure: other reasons concern a single item
	k := f.c.guard(func(cd Cond) bool {
		b, ok := cd.V.(*ssa.BinOp)
		return ok && (isErr(b.X) || isErr(b.Y)) && f.g(cd)
	}, e)
	body := loopBlocks(h)
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if body[s] || k.edge(b, s, nil, 0) {
				continue
			}
			if f.errs && f.failsFrom(s, e) {
				continue
			}
			if _, isPanic := last(s).(*ssa.Panic); !isPanic {
				return true
			}
		}
		if ret, ok := last(b).(*ssa.Return); ok && !k.at(last(b), nil, 0) && !(f.errs && f.fails(ret, e)) {
			return true
		}
	}
	return false
}

// newError: returns an error which was just made.
func newError(ret *ssa.Return) bool {
	if len(ret.Results) == 0 {
		return false
	}
	v := lastResult(ret)
	if !types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		return names{"fmt.Errorf", "errors.New"}.has(callName(&x.Call))
	case *ssa.MakeInterface:
		return true
	}
	return false
}

// lastResult: the last result of the return (of a function with deferred calls, what was put in its place).
func lastResult(ret *ssa.Return) ssa.Value {
	v := ret.Results[len(ret.Results)-1]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != ret.Block() {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for i := indexOf(u) - 1; i >= 0; i-- {
		if st, ok := ret.Block().Instrs[i].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			return st.Val
		}
	}
	return v
}

// fails: returns an error.
func (f *fwd) fails(ret *ssa.Return, e *Env) bool {
	if newError(ret) {
		return true
	}
	if len(ret.Results) == 0 || !isErr(ret.Results[len(ret.Results)-1]) {
		return false
	}
	v := lastResult(ret)
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == ret.Block() {
		for i, ed := range ph.Edges {
			if isNilConst(ed) || !f.c.guard(nonNil(ed), e).edge(ph.Block().Preds[i], ph.Block(), nil, 0) {
				return false
			}
		}
		return true
	}
	return f.c.knownAt(ret, e, nonNil(v))
}

// nonNil: the condition is that v is not nil.
func nonNil(v ssa.Value) CondGuard {
	return func(cd Cond) bool {
		b, ok := cd.V.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || cd.Pol != (b.Op == token.NEQ) {
			return false
		}
		return isNilConst(b.Y) && sameVar(b.X, v) || isNilConst(b.X) && sameVar(b.Y, v)
	}
}

// failsFrom: from the block on there is nothing but a return of an error.
func (f *fwd) failsFrom(b *ssa.BasicBlock, e *Env) bool {
	for i := 0; i < 20; i++ {
		if ret, ok := last(b).(*ssa.Return); ok {
			return f.fails(ret, e)
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

// wholeLoop: the collection which the loop goes through from the first item to the last.
func wholeLoop(h *ssa.BasicBlock) ssa.Value {
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				return r.X
			}
		}
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.LSS && b.Op != token.GTR && b.Op != token.NEQ {
			continue
		}
		i, n := b.X, b.Y
		if b.Op == token.GTR {
			i, n = n, i
		}
		cl, ok := n.(*ssa.Call)
		if !ok || callName(&cl.Call) != "builtin.len" {
			continue
		}
		start := int64(0)
		if ad, ok := i.(*ssa.BinOp); ok && ad.Op == token.ADD && isIntConst(ad.Y, 1) {
			i, start = ad.X, -1
		}
		ph, ok := i.(*ssa.Phi)
		if !ok || ph.Block() != h {
			continue
		}
		good := true
		for k, ed := range ph.Edges {
			if h.Dominates(h.Preds[k]) {
				ad, ok := ed.(*ssa.BinOp)
				good = good && ok && ad.Op == token.ADD && ad.X == ssa.Value(ph) && isIntConst(ad.Y, 1)
			} else {
				good = good && isIntConst(ed, start)
			}
		}
		if good {
			return cl.Call.Args[0]
		}
	}
	return nil
}

func isIntConst(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	i, ok := constant.Int64Val(k.Value)
	return ok && i == n
}

// covers: the collection has all of the items (apart from those there is a reason for leaving out).
func (f *fwd) covers(v ssa.Value, e *Env) bool {
	if v == nil {
		return false
	}
	key := fwdKey{v, e}
	if m, ok := f.cov[key]; ok {
		if m == 0 {
			f.circ++
		}
		return m == 1
	}
	f.cov[key] = 0
	if f.covers1(v, e) {
		f.cov[key] = 1
		return true
	}
	delete(f.cov, key)
	return false
}

func (f *fwd) covers1(v ssa.Value, e *Env) bool {
	if f.isItem != nil && f.isItem(v, e) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if e.up != nil {
			return paramIndex(x) < len(e.args) && f.covers(e.args[paramIndex(x)], e.up)
		}
	case *ssa.ChangeType:
		return f.covers(x.X, e)
	case *ssa.MakeInterface:
		return f.covers(x.X, e)
	case *ssa.TypeAssert:
		return f.covers(x.X, e)
	case *ssa.Slice:
		if _, isA := x.X.(*ssa.Alloc); !isA {
			if x.High != nil || x.Low != nil && !isIntConst(x.Low, 0) {
				return false
			}
			return f.covers(x.X, e)
		}
	case *ssa.Phi:
		if isHeader(x.Block()) && f.collects(v, e) {
			return true
		}
		any := false
		for i, ed := range x.Edges {
			if m, ok := f.cov[fwdKey{ed, e}]; ok && m == 0 {
				continue // a loop
			}
			if f.c.guard(f.g, e).edge(x.Block().Preds[i], x.Block(), nil, 0) {
				continue
			}
			if !f.covers(ed, e) {
				return false
			}
			any = true
		}
		return any
	case *ssa.Call:
		if callName(&x.Call) == "builtin.append" {
			if f.covers(x.Call.Args[0], e) || len(x.Call.Args) > 1 && f.covers(x.Call.Args[1], e) {
				return true
			}
			return f.collects(v, e)
		}
		if callName(&x.Call) == "sqlutil.Chunkify" {
			return f.covers(x.Call.Args[2], e)
		}
		if f.returns(x, 0, e) {
			return true
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if f.returns(t, x.Index, e) {
				return true
			}
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 && f.covers(r.X, e) {
				return true
			}
		case *ssa.Lookup:
			if x.Index == 0 && f.covers(t.X, e) {
				return true
			}
		}
	case *ssa.Lookup:
		if f.covers(x.X, e) {
			return true
		}
	case *ssa.MakeMap, *ssa.MakeSlice:
		return f.collects(v, e)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && f.covers(ia.X, e) {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if f.collects(al, e) {
				return true
			}
			any := false
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					if f.cov[fwdKey{st.Val, e}] == 0 && !f.covers(st.Val, e) {
						return false
					}
					any = true
				}
			}
			return any
		}
	}
	return f.item(f.c.Path(v, e))
}

func (f *fwd) returns(cl *ssa.Call, idx int, e *Env) bool {
	if f.c.p.opaqueFns.has(callName(&cl.Call)) {
		return false
	}
	ne := e.enter(&cl.Call, cl)
	if ne == nil {
		return false
	}
	ok, any := true, false
	k := f.c.guard(f.g, ne)
	fnInstrs(ne.fn, func(in ssa.Instruction) {
		if r, isR := in.(*ssa.Return); isR && idx < len(r.Results) && ok {
			if k.at(r, nil, 0) || f.errs && f.fails(r, ne) {
				return
			}
			if !f.covers(r.Results[idx], ne) {
				ok = false
			}
			any = true
		}
	})
	return ok && any
}

// collects: the local slice or map is filled by a loop over all of the items, each of which is added to it.
func (f *fwd) collects(v ssa.Value, e *Env) bool {
	root := map[ssa.Value]bool{}
	var grow func(v ssa.Value)
	grow = func(v ssa.Value) {
		if v == nil || root[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			root[v] = true
			for _, ed := range x.Edges {
				grow(ed)
			}
		case *ssa.Call:
			if callName(&x.Call) == "builtin.append" {
				root[v] = true
				grow(x.Call.Args[0])
			}
		case *ssa.MakeSlice, *ssa.MakeMap:
			root[v] = true
		case *ssa.Alloc:
			root[v] = true
			for _, u := range *x.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == v {
					grow(st.Val)
				}
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				root[v] = true
				grow(al)
			}
		}
	}
	grow(v)
	adds := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Call:
			return callName(&x.Call) == "builtin.append" && (root[x] || root[x.Call.Args[0]])
		case *ssa.MapUpdate:
			return root[x.Map]
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				return root[ia.X]
			}
		}
		return false
	}
	for _, h := range headers(e.fn) {
		rv := wholeLoop(h)
		if rv == nil || root[rv] || f.leaves(h, e) || !f.covers(rv, e) {
			continue
		}
		hit := false
		sk := f.c.skips(h, e, func(in ssa.Instruction) bool {
			if adds(in) {
				hit = true
				return true
			}
			return false
		}, f.g)
		if hit && !sk {
			return true
		}
	}
	return false
}

// obligation: reports a way through root without forwarding.
func (r *Report) forwards(c *chooser, rule, root, what, miss string, item func(string) bool, g CondGuard, want func(in ssa.Instruction, e *Env) bool) {
	fn := r.Fn(root)
	if fn == nil {
		return
	}
	r.Ob(rule, what)
	f := r.P.fwd(c, item, g, want)
	e := &Env{fn: fn}
	bad, hit := f.walk(e, fn.Blocks[0], 0)
	switch {
	case bad != nil:
		r.Bad(rule, root+" "+what, r.at(bad), miss)
	case !hit:
		r.Bad(rule, root+" "+what, r.P.Pos(fn.Pos()), miss+" (on no way through)")
	}
}

// callArg: the path of the i-th argument, not counting the receiver.
func callArg(c *chooser, in ssa.Instruction, e *Env, i int) string {
	cl := asCall(in)
	if cl == nil {
		return ""
	}
	if !cl.IsInvoke() && cl.Signature().Recv() != nil {
		i++
	}
	if i >= len(cl.Args) {
		return ""
	}
	return c.Path(cl.Args[i], e)
}

func recvValue(cl *ssa.CallCommon) ssa.Value {
	if cl == nil {
		return nil
	}
	if cl.IsInvoke() {
		return cl.Value
	}
	if cl.Signature().Recv() != nil && len(cl.Args) > 0 {
		return cl.Args[0]
	}
	return nil
}

func recvPath(c *chooser, in ssa.Instruction, e *Env) string {
	v := recvValue(asCall(in))
	if v == nil {
		return ""
	}
	return c.Path(v, e)
}

// callTo: a call of the named function whose arguments (not counting the receiver) have these paths ("" for any;
// a trailing * for a prefix).
func callTo(c *chooser, name string, recv string, args ...string) func(in ssa.Instruction, e *Env) bool {
	match := func(pa, want string) bool {
		switch {
		case want == "":
			return true
		case strings.HasSuffix(want, "*"):
			return strings.HasPrefix(pa, want[:len(want)-1])
		}
		return pa == want
	}
	return func(in ssa.Instruction, e *Env) bool {
		cl := asCall(in)
		if cl == nil || callName(cl) != name {
			return false
		}
		if !match(recvPath(c, in, e), recv) {
			return false
		}
		for i, a := range args {
			if !match(callArg(c, in, e, i), a) {
				return false
			}
		}
		return true
	}
}

// paths: a predicate for one of the paths.
func isPath(ps ...string) func(string) bool {
	return func(p string) bool {
		for _, q := range ps {
			if p == q || strings.HasSuffix(q, "*") && strings.HasPrefix(p, q[:len(q)-1]) {
				return true
			}
		}
		return false
	}
}

func anyCond(gs ...CondGuard) CondGuard {
	return func(cd Cond) bool {
		for _, g := range gs {
			if g != nil && g(cd) {
				return true
			}
		}
		return false
	}
}

// failed: the condition is that an error of one of these functions (by name) is not nil.
func (c *chooser) failed(prefix ...string) CondGuard {
	return func(cd Cond) bool {
		b, ok := cd.V.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return false
		}
		v := b.X
		if isNilConst(v) {
			v = b.Y
		} else if !isNilConst(b.Y) {
			return false
		}
		if !types.Identical(v.Type(), types.Universe.Lookup("error").Type()) || cd.Pol != (b.Op == token.NEQ) {
			return false
		}
		pa := c.Path(v, cd.E)
		for _, p := range prefix {
			if strings.HasPrefix(pa, p) {
				return true
			}
		}
		return false
	}
}

// pkgFuncs: the names of the functions of a package.
func (p *Prog) pkgFuncs(pkg string) names {
	var out names
	for _, fn := range p.All {
		if relPkg(pkgPath(fn)) == pkg && fn.Parent() == nil {
			out = append(out, shortName(fn))
		}
	}
	return out
}

// hasType: the value is of the named type (as given to an interface), or nil.
func (c *chooser) hasType(v ssa.Value, e *Env, typ string) bool {
	for _, ch := range c.Of(v, nil, e) {
		if ch.Path == "nil" {
			continue
		}
		t := ch.V.Type()
		if al, ok := ch.V.(*ssa.Alloc); ok && typeName(t) != typ {
			t = al.Type().Underlying().(*types.Pointer).Elem()
		}
		if mi, ok := ch.V.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if typeName(t) != typ {
			return false
		}
	}
	return true
}
