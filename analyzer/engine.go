package main

// The path engine: explores the control-flow graph of a root function with its same-module callees
// (and closures, and deferred calls) inlined, tracking which branch outcomes are already decided.
// It never evaluates program data: conditions are compared as SSA values and constants only.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var theProg *Prog

// Ctx is one inlined activation.
type Ctx struct {
	id     int
	fn     *ssa.Function
	parent *Ctx
	site   ssa.Instruction // *ssa.Call or *ssa.Defer in parent
	rd     *ssa.RunDefers  // for deferred calls: where they were run
	args   []CV
	binds  []CV
	depth  int
}

func (c *Ctx) onStack(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

func (c *Ctx) within(a *Ctx) bool {
	for x := c; x != nil; x = x.parent {
		if x == a {
			return true
		}
	}
	return false
}

// CV is an SSA value in an activation.
type CV struct {
	c *Ctx
	v ssa.Value
}

func mkCV(c *Ctx, v ssa.Value) CV {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return CV{nil, v}
	}
	return CV{c, v}
}

func (cv CV) key() string {
	if cv.v == nil {
		return "-"
	}
	id, ok := valIDs[cv.v]
	if !ok {
		if cv.c == nil { // constants are compared by content
			id, ok = constIDs[cv.v.String()]
			if !ok {
				id = len(valIDs) + len(constIDs) + 1
				constIDs[cv.v.String()] = id
			}
		} else {
			id = len(valIDs) + len(constIDs) + 1
		}
		valIDs[cv.v] = id
	}
	if cv.c == nil {
		return strconv.Itoa(id)
	}
	return strconv.Itoa(cv.c.id) + ":" + strconv.Itoa(id)
}

var valIDs = map[ssa.Value]int{}
var constIDs = map[string]int{}

type factKey struct {
	cv  CV
	rel string // "true" or "==" + constant
}

type deferRec struct {
	ctx *Ctx
	in  *ssa.Defer
}

type State struct {
	ctx    *Ctx
	blk    *ssa.BasicBlock
	idx    int
	alias  map[CV]CV
	ret    map[CV][]CV
	mem    map[CV]CV
	facts  map[factKey]bool
	defers []deferRec
	taint  map[CV]uint8 // carriers of the tracked failure: 1 exactly it, 2 a collection containing it
	Track  bool         // a failure is being tracked
	Site   ssa.Instruction
	Bits   uint64
	Tag    string
	trace  *traceNode
}

type traceNode struct {
	up   *traceNode
	text string
	ifi  *ssa.If
	val  bool
}

func (s *State) clone() *State {
	n := *s
	n.alias = make(map[CV]CV, len(s.alias)+2)
	for k, v := range s.alias {
		n.alias[k] = v
	}
	n.ret = make(map[CV][]CV, len(s.ret))
	for k, v := range s.ret {
		n.ret[k] = v
	}
	n.mem = make(map[CV]CV, len(s.mem)+2)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.facts = make(map[factKey]bool, len(s.facts)+2)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	n.taint = make(map[CV]uint8, len(s.taint)+1)
	for k, v := range s.taint {
		n.taint[k] = v
	}
	return &n
}

func (s *State) key() string {
	var parts []string
	for k, v := range s.alias {
		parts = append(parts, "a"+k.key()+">"+v.key())
	}
	for k, v := range s.mem {
		parts = append(parts, "m"+k.key()+">"+v.key())
	}
	for k, vs := range s.ret {
		t := "r" + k.key()
		for _, v := range vs {
			t += ">" + v.key()
		}
		parts = append(parts, t)
	}
	for k, v := range s.facts {
		if v {
			parts = append(parts, "f"+k.cv.key()+k.rel)
		} else {
			parts = append(parts, "n"+k.cv.key()+k.rel)
		}
	}
	for k, v := range s.taint {
		parts = append(parts, fmt.Sprintf("t%s%d", k.key(), v))
	}
	if s.Track {
		parts = append(parts, fmt.Sprintf("T%p", s.Site))
	}
	sort.Strings(parts)
	for _, d := range s.defers {
		parts = append(parts, fmt.Sprintf("d%d:%p", d.ctx.id, d.in))
	}
	return fmt.Sprintf("%d|%d|%d|%d|%s|%s", s.ctx.id, s.blk.Index, s.idx, s.Bits, s.Tag, strings.Join(parts, ","))
}

func (s *State) Trace() []string {
	var out []string
	for t := s.trace; t != nil && len(out) < 60; t = t.up {
		if t.ifi != nil {
			x := &Explorer{p: theProg, q: &Query{}}
			out = append(out, theProg.InstrPos(t.ifi)+" "+x.litOf(nil, mkCV(&Ctx{fn: t.ifi.Parent()}, t.ifi.Cond), t.val).String())
			continue
		}
		out = append(out, t.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Lit is a decided branch condition: Atom is true (Pol) or false (!Pol).
type Lit struct {
	Atom *Term
	Pol  bool
}

func (l Lit) String() string {
	if l.Pol {
		return l.Atom.String()
	}
	return "!" + l.Atom.String()
}

type Action int

const (
	Go    Action = iota
	Prune        // stop exploring this path
)

type ExitKind int

const (
	ExitReturn ExitKind = iota
	ExitPanic
)

// Query drives one exploration.
type Query struct {
	Relevant func(ssa.Instruction) bool                                             // functions containing such instructions are inlined
	Inline   func(*ssa.Function) bool                                               // additionally inline
	Stop     func(*ssa.Function) bool                                               // never inline
	Step     func(x *Explorer, st *State, in ssa.Instruction, deferred bool) Action // before each instruction
	Edge     func(x *Explorer, st *State, ifi *ssa.If, lit Lit) Action              // after a branch is chosen; st is the successor
	Exit     func(x *Explorer, st *State, kind ExitKind, results []CV)
	Back     func(x *Explorer, st *State, hdr *ssa.BasicBlock) // a loop iteration ended: control is about to re-enter header hdr
	// FailSite: calls whose error result is made to fail (once per path); the failure is then tracked.
	FailSite func(in ssa.Instruction) bool
	// Transient: the tracked failure is not a malformed-data error (errors.As / type assertions on it fail).
	Transient bool
	InitBits  uint64
	MaxState  int
}

type Explorer struct {
	p       *Prog
	q       *Query
	ctxs    map[string]*Ctx
	nctx    int
	rel     map[*ssa.Function]bool
	seen    map[string]bool
	work    []*State
	States  int
	Over    bool
	Inlined map[*ssa.Function]bool
	live    map[*ssa.Function]*liveness
	root    *Ctx
	impure  map[*ssa.Call]bool
	backIdx int // during Query.Back: which predecessor of the header control comes from
}

var relCache = map[string]map[*ssa.Function]bool{}

// relevantFuncs: functions which contain, directly or through static callees or closures, a relevant instruction.
func (p *Prog) relevantFuncs(pred func(ssa.Instruction) bool) map[*ssa.Function]bool {
	rel := map[*ssa.Function]bool{}
	rev := p.revEdges()
	var work []*ssa.Function
	for _, f := range p.All {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					hit = true
					break
				}
			}
			if hit {
				break
			}
		}
		if hit && !rel[f] {
			rel[f] = true
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range rev[f] {
			if !rel[g] {
				rel[g] = true
				work = append(work, g)
			}
		}
	}
	return rel
}

var revEdgeCache map[*Prog]map[*ssa.Function][]*ssa.Function = map[*Prog]map[*ssa.Function][]*ssa.Function{}

func (p *Prog) revEdges() map[*ssa.Function][]*ssa.Function {
	if r, ok := revEdgeCache[p]; ok {
		return r
	}
	rev := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.All {
		seen := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
						seen[g] = true
						rev[g] = append(rev[g], f)
					}
				}
			}
		}
	}
	revEdgeCache[p] = rev
	return rev
}

func (p *Prog) Explore(root *ssa.Function, q *Query) *Explorer {
	impure := map[*ssa.Call]bool{}
	if q.Transient {
		// first pass: which appends may add an error that was not shown to be transient
		q0 := *q
		q0.Step, q0.Edge, q0.Exit = nil, nil, nil
		impure = p.explore(root, &q0, impure).impure
	}
	return p.explore(root, q, impure)
}

func (p *Prog) explore(root *ssa.Function, q *Query, impure map[*ssa.Call]bool) *Explorer {
	x := &Explorer{p: p, q: q, impure: impure, ctxs: map[string]*Ctx{}, seen: map[string]bool{}, Inlined: map[*ssa.Function]bool{}, live: map[*ssa.Function]*liveness{}}
	if q.MaxState == 0 {
		q.MaxState = 3000000
	}
	if q.Relevant != nil {
		x.rel = p.relevantFuncs(q.Relevant)
	}
	rc := &Ctx{id: 0, fn: root}
	x.root = rc
	x.nctx = 1
	st := &State{ctx: rc, blk: root.Blocks[0], alias: map[CV]CV{}, ret: map[CV][]CV{}, mem: map[CV]CV{}, facts: map[factKey]bool{}, taint: map[CV]uint8{}, Bits: q.InitBits}
	x.Inlined[root] = true
	x.push(st)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(s)
		if x.States > q.MaxState {
			x.Over = true
			break
		}
	}
	return x
}

func (x *Explorer) push(s *State) {
	k := s.key()
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	x.States++
	x.work = append(x.work, s)
}

func (x *Explorer) note(s *State, format string, args ...any) {
	s.trace = &traceNode{up: s.trace, text: fmt.Sprintf(format, args...)}
}

func (x *Explorer) getCtx(parent *Ctx, site ssa.Instruction, rd *ssa.RunDefers, fn *ssa.Function, args, binds []CV) *Ctx {
	k := fmt.Sprintf("%d|%p|%p|%p", parent.id, site, fn, rd)
	for _, b := range binds {
		k += "|" + b.key()
	}
	if c, ok := x.ctxs[k]; ok {
		c.args, c.binds = args, binds
		return c
	}
	c := &Ctx{id: x.nctx, fn: fn, parent: parent, site: site, rd: rd, args: args, binds: binds, depth: parent.depth + 1}
	x.nctx++
	x.ctxs[k] = c
	x.Inlined[fn] = true
	return c
}

func (x *Explorer) shouldInline(ctx *Ctx, fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || !inModule(fn) || ctx.depth >= 14 || ctx.onStack(fn) {
		return false
	}
	if x.q.Stop != nil && x.q.Stop(fn) {
		return false
	}
	if x.rel != nil && x.rel[fn] {
		return true
	}
	if x.q.Inline != nil && x.q.Inline(fn) {
		return true
	}
	return false
}

// held: the captured variables, and what is stored in those that are assigned once.
func (x *Explorer) held(binds []CV) []CV {
	out := append([]CV(nil), binds...)
	for _, b := range binds {
		al, ok := b.v.(*ssa.Alloc)
		if !ok {
			continue
		}
		var val ssa.Value
		n := 0
		for _, u := range refs(al) {
			if st, ok := u.(*ssa.Store); ok && st.Addr == al {
				n++
				val = st.Val
			}
		}
		if n == 1 {
			out = append(out, mkCV(b.c, val))
		}
	}
	return out
}

// higherOrder: fn is a module function handed a closure that matters.
func (x *Explorer) higherOrder(s *State, fn *ssa.Function, args []CV) bool {
	if fn == nil || fn.Blocks == nil || !inModule(fn) || s.ctx.onStack(fn) || s.ctx.depth > 14 {
		return false
	}
	if x.q.Stop != nil && x.q.Stop(fn) {
		return false
	}
	for _, a := range args {
		if a.v == nil {
			continue
		}
		if _, ok := a.v.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		r := x.resolve(s, a)
		var f *ssa.Function
		switch v := r.v.(type) {
		case *ssa.Function:
			f = v
		case *ssa.MakeClosure:
			f = v.Fn.(*ssa.Function)
		}
		if f != nil && x.rel[f] {
			return true
		}
	}
	return false
}

// resolve follows aliases, parameters, free variables and conversions to the defining value.
func (x *Explorer) resolve(s *State, cv CV) CV {
	for i := 0; i < 64; i++ {
		if s != nil {
			if t, ok := s.alias[cv]; ok && t != cv {
				cv = t
				continue
			}
		}
		switch v := cv.v.(type) {
		case *ssa.Parameter:
			if cv.c != nil && cv.c.parent != nil {
				k := paramIndex(v)
				if k >= 0 && k < len(cv.c.args) {
					cv = cv.c.args[k]
					continue
				}
			}
			return cv
		case *ssa.FreeVar:
			if cv.c != nil {
				k := freeVarIndex(v)
				if k >= 0 && k < len(cv.c.binds) {
					cv = cv.c.binds[k]
					continue
				}
			}
			return cv
		case *ssa.ChangeType:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.ChangeInterface:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.MakeInterface:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.Convert:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.Phi:
			// a phi whose edges all resolve to one value (bounded)
			if only := singlePhi(v); only != nil {
				cv = mkCV(cv.c, only)
				continue
			}
			return cv
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if a, ok := x.resolveAddr(s, mkCV(cv.c, v.X)); ok {
					if al, isA := a.v.(*ssa.Alloc); isA {
						if st, okk := singleStore(al); okk && st.Parent() == al.Parent() {
							cv = mkCV(a.c, st.Val)
							continue
						}
					}
				}
			}
			return cv
		default:
			return cv
		}
	}
	return cv
}

// resolveAddr resolves an address value to its Alloc if it is one.
func (x *Explorer) resolveAddr(s *State, cv CV) (CV, bool) {
	for i := 0; i < 64; i++ {
		switch v := cv.v.(type) {
		case *ssa.Alloc:
			return cv, true
		case *ssa.Parameter:
			if cv.c != nil && cv.c.parent != nil {
				k := paramIndex(v)
				if k >= 0 && k < len(cv.c.args) {
					cv = cv.c.args[k]
					continue
				}
			}
			return cv, false
		case *ssa.FreeVar:
			if cv.c != nil {
				k := freeVarIndex(v)
				if k >= 0 && k < len(cv.c.binds) {
					cv = cv.c.binds[k]
					continue
				}
			}
			return cv, false
		case *ssa.Phi:
			if s != nil {
				if t, ok := s.alias[cv]; ok && t != cv {
					cv = t
					continue
				}
			}
			return cv, false
		default:
			return cv, false
		}
	}
	return cv, false
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func freeVarIndex(p *ssa.FreeVar) int {
	for i, q := range p.Parent().FreeVars {
		if q == p {
			return i
		}
	}
	return -1
}

func singlePhi(v *ssa.Phi) ssa.Value {
	var only ssa.Value
	for _, e := range v.Edges {
		if e == v {
			continue
		}
		if only == nil {
			only = e
		} else if only != e {
			return nil
		}
	}
	return only
}

// storesTo lists every store whose address is the alloc, including stores made by closures capturing it.
func storesTo(a ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	if a.Referrers() == nil {
		return nil
	}
	for _, r := range *a.Referrers() {
		switch i := r.(type) {
		case *ssa.Store:
			if i.Addr == a {
				out = append(out, i)
			}
		case *ssa.MakeClosure:
			for k, b := range i.Bindings {
				if b == a {
					out = append(out, storesTo(i.Fn.(*ssa.Function).FreeVars[k])...)
				}
			}
		}
	}
	return out
}

func singleStore(a *ssa.Alloc) (*ssa.Store, bool) {
	st := storesTo(a)
	if len(st) == 1 {
		// an address that escapes into a call might be written elsewhere
		for _, r := range *a.Referrers() {
			if c, ok := r.(ssa.CallInstruction); ok {
				_ = c
				return nil, false
			}
		}
		return st[0], true
	}
	return nil, false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func trackable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsString) != 0
	case *types.Interface, *types.Pointer, *types.Signature, *types.Slice, *types.Map:
		return true
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Explorer) enterBlock(s *State, pred, blk *ssa.BasicBlock) {
	// simultaneous phi assignment
	type as struct {
		k CV
		v CV
		d bool
	}
	var asg []as
	pi := -1
	for i, p := range blk.Preds {
		if p == pred {
			pi = i
		}
	}
	back := blk.Dominates(pred)
	if back && x.q.Back != nil {
		x.backIdx = pi
		x.q.Back(x, s, blk)
	}
	for _, in := range blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := CV{s.ctx, phi}
		if pi < 0 || !trackable(phi.Type()) {
			asg = append(asg, as{k, CV{}, true})
			continue
		}
		inc := x.resolve(s, mkCV(s.ctx, phi.Edges[pi]))
		_, isIface := phi.Type().Underlying().(*types.Interface)
		if back && !isBool(phi.Type()) && !isIface {
			if inc != k {
				asg = append(asg, as{k, CV{}, true})
			}
			continue
		}
		asg = append(asg, as{k, inc, false})
	}
	var tphi []struct {
		k CV
		l uint8
	}
	if s.Track && pi >= 0 {
		for _, in := range blk.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if l := x.Tainted(s, mkCV(s.ctx, phi.Edges[pi])); l > 0 {
				tphi = append(tphi, struct {
					k CV
					l uint8
				}{CV{s.ctx, phi}, l})
			}
		}
	}
	for _, a := range asg {
		x.kill(s, a.k)
		if !a.d && a.v != a.k {
			s.alias[a.k] = a.v
		}
	}
	for _, t := range tphi {
		s.taint[t.k] = t.l
	}
	s.blk, s.idx = blk, 0
	x.prune(s)
}

func (x *Explorer) kill(s *State, k CV) {
	delete(s.alias, k)
	delete(s.ret, k)
	delete(s.taint, k)
	for f := range s.facts {
		if f.cv == k {
			delete(s.facts, f)
		}
	}
	// anything aliased to the old instance of k is now opaque
	for a, t := range s.alias {
		if t == k {
			delete(s.alias, a)
		}
	}
}

// prune drops facts about values which are dead in the current frame.
func (x *Explorer) prune(s *State) {
	lv := x.liveOf(s.ctx.fn)
	liveIn := lv.in[s.blk.Index]
	dead := func(cv CV) bool {
		return cv.c == s.ctx && !liveIn[cv.v]
	}
	for k := range s.alias {
		if dead(k) {
			delete(s.alias, k)
		}
	}
	for k := range s.ret {
		if dead(k) {
			delete(s.ret, k)
		}
	}
	for k := range s.mem {
		if k.c == s.ctx && !liveIn[k.v] && !lv.captured[k.v] {
			delete(s.mem, k)
		}
	}
	if len(s.facts) == 0 && len(s.taint) == 0 {
		return
	}
	tgt := map[CV]bool{}
	for _, t := range s.alias {
		tgt[t] = true
	}
	for _, t := range s.mem {
		tgt[t] = true
	}
	for _, ts := range s.ret {
		for _, t := range ts {
			tgt[t] = true
		}
	}
	for k := range s.taint {
		if tgt[k] {
			continue
		}
		if k.c == s.ctx && lv.captured[k.v] {
			continue
		}
		if dead(k) || (k.c != nil && k.c != s.ctx && !s.ctx.within(k.c)) {
			delete(s.taint, k)
		}
	}
	for f := range s.facts {
		if tgt[f.cv] {
			continue
		}
		if dead(f.cv) {
			delete(s.facts, f)
		} else if f.cv.c != nil && f.cv.c != s.ctx && !s.ctx.within(f.cv.c) {
			delete(s.facts, f)
		}
	}
}

type liveness struct {
	in       []map[ssa.Value]bool
	captured map[ssa.Value]bool
}

func (x *Explorer) liveOf(fn *ssa.Function) *liveness {
	if l, ok := x.live[fn]; ok {
		return l
	}
	l := computeLive(fn)
	x.live[fn] = l
	return l
}

var liveCache = map[*ssa.Function]*liveness{}

func computeLive(fn *ssa.Function) *liveness {
	if l, ok := liveCache[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n), captured: map[ssa.Value]bool{}}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	var use func(set map[ssa.Value]bool, v ssa.Value, depth int)
	use = func(set map[ssa.Value]bool, v ssa.Value, depth int) {
		if v == nil || depth > 4 {
			return
		}
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return
		}
		set[v] = true
		switch u := v.(type) {
		case *ssa.BinOp:
			use(set, u.X, depth+1)
			use(set, u.Y, depth+1)
		case *ssa.UnOp:
			use(set, u.X, depth+1)
		case *ssa.Extract:
			use(set, u.Tuple, depth+1)
		case *ssa.Slice:
			use(set, u.X, depth+1)
		case *ssa.FieldAddr:
			use(set, u.X, depth+1)
		case *ssa.IndexAddr:
			use(set, u.X, depth+1)
		case *ssa.MakeInterface:
			use(set, u.X, depth+1)
		case *ssa.ChangeInterface:
			use(set, u.X, depth+1)
		case *ssa.ChangeType:
			use(set, u.X, depth+1)
		case *ssa.Convert:
			use(set, u.X, depth+1)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				for _, bd := range mc.Bindings {
					l.captured[bd] = true
				}
			}
		}
	}
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			set := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					set[v] = true
				}
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(set, phi)
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 {
						use(set, phi.Edges[pi], 0)
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(set, v)
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					continue
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op != nil && *op != nil {
						use(set, *op, 0)
					}
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if first := earlierRead(u); first != nil {
						use(set, first, 0)
					}
				}
			}
			// phis of this block are live-in (defined at entry)
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				set[phi] = true
			}
			if len(set) != len(l.in[bi]) {
				l.in[bi] = set
				changed = true
			} else {
				for v := range set {
					if !l.in[bi][v] {
						l.in[bi] = set
						changed = true
						break
					}
				}
			}
		}
	}
	liveCache[fn] = l
	return l
}

func constKey(c *ssa.Const) string {
	if c.Value == nil {
		return "nil"
	}
	return c.Value.ExactString()
}

// neverNil: values which cannot be nil.
func neverNil(v ssa.Value) bool {
	switch c := v.(type) {
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.Call:
		switch callName(&c.Call) {
		case "fmt.Errorf", "errors.New":
			return true
		}
		if fn := c.Call.StaticCallee(); fn != nil && inModule(fn) {
			return neverNilFn(fn)
		}
	case *ssa.MakeInterface:
		return true
	}
	return false
}

var neverNilCache = map[*ssa.Function]bool{}

// neverNilFn: every return of the single-result function is a value which is never nil.
func neverNilFn(fn *ssa.Function) bool {
	if v, ok := neverNilCache[fn]; ok {
		return v
	}
	neverNilCache[fn] = false
	if fn.Signature.Results().Len() != 1 || len(fn.Blocks) == 0 {
		return false
	}
	ok := true
	n := 0
	fnInstrs(fn, func(in ssa.Instruction) {
		if r, isR := in.(*ssa.Return); isR {
			n++
			if len(r.Results) != 1 || !neverNil(r.Results[0]) {
				ok = false
			}
		}
	})
	neverNilCache[fn] = ok && n > 0
	return ok && n > 0
}

// evalCond: is the boolean value decided on this path?
func (x *Explorer) evalCond(s *State, cv CV) (known, val bool) {
	cv = x.resolve(s, cv)
	switch v := cv.v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return true, constant.BoolVal(v.Value)
		}
		return false, false
	case *ssa.UnOp:
		if v.Op == token.NOT {
			k, b := x.evalCond(s, mkCV(cv.c, v.X))
			return k, !b
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			// comparison of an interface built from a struct value is never nil
			a, b := x.resolve(s, mkCV(cv.c, v.X)), x.resolve(s, mkCV(cv.c, v.Y))
			ca, aok := a.v.(*ssa.Const)
			cb, bok := b.v.(*ssa.Const)
			if aok && bok {
				eq := constKey(ca) == constKey(cb)
				return true, eq == (v.Op == token.EQL)
			}
			if aok {
				a, b, ca, cb = b, a, cb, ca
				aok, bok = bok, aok
			}
			if bok {
				ck := constKey(cb)
				if ck == "nil" && (neverNil(a.v) || x.isIface(s, mkCV(cv.c, v.X)) || x.isIface(s, mkCV(cv.c, v.Y))) {
					return true, (v.Op == token.NEQ)
				}
				if f, ok := s.facts[factKey{a, "==" + ck}]; ok {
					return true, f == (v.Op == token.EQL)
				}
				for f, fv := range s.facts {
					if f.cv == a && fv && strings.HasPrefix(f.rel, "==") && f.rel != "=="+ck {
						return true, v.Op == token.NEQ
					}
				}
			}
		}
	}
	if f, ok := s.facts[factKey{cv, "true"}]; ok {
		return true, f
	}
	if c, ok := cv.v.(*ssa.Call); ok {
		if fn := c.Call.StaticCallee(); fn != nil && inModule(fn) && len(c.Call.Args) == len(fn.Params) {
			for i, a := range c.Call.Args {
				for _, val := range []bool{true, false} {
					if told, isNil := x.p.tellsNil(fn, i, val); told {
						if k, n := x.KnownNil(s, mkCV(cv.c, a)); k && n != isNil {
							return true, !val
						}
					}
				}
			}
		}
	}
	return false, false
}

// isIface: the value is an interface built from a concrete value, hence not nil.
func (x *Explorer) isIface(s *State, cv CV) bool {
	_, ok := x.resolveKeepIface(s, cv).v.(*ssa.MakeInterface)
	return ok
}

func (x *Explorer) assume(s *State, cv CV, val bool) {
	cv = x.resolve(s, cv)
	switch v := cv.v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			x.assume(s, mkCV(cv.c, v.X), !val)
			return
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			a, b := x.resolve(s, mkCV(cv.c, v.X)), x.resolve(s, mkCV(cv.c, v.Y))
			if _, ok := a.v.(*ssa.Const); ok {
				a, b = b, a
			}
			if c, ok := b.v.(*ssa.Const); ok {
				s.facts[factKey{a, "==" + constKey(c)}] = val == (v.Op == token.EQL)
				return
			}
		}
	}
	s.facts[factKey{cv, "true"}] = val
	if c, ok := cv.v.(*ssa.Call); ok {
		if fn := c.Call.StaticCallee(); fn != nil && inModule(fn) && len(c.Call.Args) == len(fn.Params) {
			for i, a := range c.Call.Args {
				if known, isNil := x.p.tellsNil(fn, i, val); known {
					if k, _ := x.KnownNil(s, mkCV(cv.c, a)); !k {
						s.facts[factKey{x.resolve(s, mkCV(cv.c, a)), "==nil"}] = isNil
					}
				}
			}
		}
	}
}

type tellsKey struct {
	fn  *ssa.Function
	i   int
	val bool
}

// tellsNil: that the predicate fn returns val says that its i'th argument is (not) nil.
func (p *Prog) tellsNil(fn *ssa.Function, i int, val bool) (known, isNil bool) {
	if len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 {
		return false, false
	}
	switch fn.Params[i].Type().Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
	default:
		return false, false
	}
	key := tellsKey{fn, i, val}
	if p.tells == nil {
		p.tells = map[tellsKey]int{}
	}
	if r, ok := p.tells[key]; ok {
		return r != 0, r == 1
	}
	p.tells[key] = 0
	for want, isNil := range map[int]bool{1: true, 2: false} {
		g := func(cond ssa.Value, pol bool, _ ssa.Value) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return false
			}
			o := b.X
			if isNilConst(o) {
				o = b.Y
			} else if !isNilConst(b.Y) {
				return false
			}
			return o == ssa.Value(fn.Params[i]) && (pol == (b.Op == token.EQL)) == isNil
		}
		k := &guardCk{p: p, g: g, stack: map[ssa.Value]bool{}}
		any, ok := false, true
		fnInstrs(fn, func(in ssa.Instruction) {
			r, isR := in.(*ssa.Return)
			if !isR {
				return
			}
			if b, isC := boolConst(r.Results[0]); isC && b != val {
				return
			} else if !isC && k.implies(r.Results[0], val, nil, 1) {
				any = true
				return
			}
			any = true
			ok = ok && k.at(r, nil, 1)
		})
		if any && ok {
			p.tells[key] = want
		}
	}
	return p.tells[key] != 0, p.tells[key] == 1
}

// KnownNil reports whether cv is decided nil / non-nil on this path.
func (x *Explorer) KnownNil(s *State, cv CV) (known, isNil bool) {
	r := x.resolve(s, cv)
	if c, ok := r.v.(*ssa.Const); ok {
		return true, c.Value == nil
	}
	if neverNil(r.v) {
		return true, false
	}
	if x.isIface(s, cv) {
		return true, false
	}
	if f, ok := s.facts[factKey{r, "==nil"}]; ok {
		return true, f
	}
	return false, false
}

func (x *Explorer) calleeOf(s *State, ctx *Ctx, c *ssa.CallCommon) (fn *ssa.Function, binds []CV, args []CV) {
	if c.IsInvoke() {
		return nil, nil, nil
	}
	for _, a := range c.Args {
		args = append(args, mkCV(ctx, a))
	}
	r := x.resolve(s, mkCV(ctx, c.Value))
	switch v := r.v.(type) {
	case *ssa.Function:
		return v, nil, args
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			binds = append(binds, mkCV(r.c, b))
		}
		return v.Fn.(*ssa.Function), binds, args
	}
	return nil, nil, nil
}

// syncCallbacks: external functions which call their function argument synchronously.
var syncCallbacks = map[string]bool{
	"github.com/tidwall/gjson.(Result).ForEach": true,
	"sync.(*Map).Range":                         true,
	"sync.(*Once).Do":                           true,
	"slices.SortFunc":                           true, "slices.SortStableFunc": true,
	"sort.Slice": true, "sort.SliceStable": true,
	"context.AfterFunc": false,
}

func (x *Explorer) run(s *State) {
	for {
		if s.idx >= len(s.blk.Instrs) {
			return
		}
		in := s.blk.Instrs[s.idx]
		if _, isRD := in.(*ssa.RunDefers); !isRD {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				if x.q.Step != nil {
					if x.q.Step(x, s, in, false) == Prune {
						return
					}
				}
			}
		}
		switch i := in.(type) {
		case *ssa.Phi:
			s.idx++
			continue
		case *ssa.If:
			cv := mkCV(s.ctx, i.Cond)
			if known, val := x.evalCond(s, cv); known {
				succ := s.blk.Succs[0]
				if !val {
					succ = s.blk.Succs[1]
				}
				x.enterBlock(s, s.blk, succ)
				x.push(s)
				return
			}
			for k, succ := range s.blk.Succs {
				n := s.clone()
				val := k == 0
				var lit Lit
				if n.Track || x.q.Edge != nil || x.q.Transient {
					lit = x.litOf(n, cv, val)
				}
				if n.Track && !x.trackEdge(n, lit) {
					continue
				}
				if x.q.Transient && lit.Atom.Op == "call" && lit.Atom.Name == "errors.As" && !lit.Pol && len(lit.Atom.Args) > 0 {
					n.facts[factKey{x.resolve(n, lit.Atom.Args[0].CV), "nondata"}] = true
				}
				x.assume(n, cv, val)
				n.trace = &traceNode{up: n.trace, ifi: i, val: val}
				if x.q.Edge != nil {
					if x.q.Edge(x, n, i, lit) == Prune {
						continue
					}
				}
				x.enterBlock(n, n.blk, succ)
				x.push(n)
			}
			return
		case *ssa.Jump:
			x.enterBlock(s, s.blk, s.blk.Succs[0])
			x.push(s)
			return
		case *ssa.Return:
			x.doReturn(s, i)
			return
		case *ssa.Panic:
			if x.q.Exit != nil {
				x.q.Exit(x, s, ExitPanic, nil)
			}
			return
		case *ssa.Store:
			if a, ok := x.resolveAddr(s, mkCV(s.ctx, i.Addr)); ok {
				if trackable(i.Val.Type()) || isInt(i.Val.Type()) {
					v := x.resolve(s, mkCV(s.ctx, i.Val))
					if len(storesTo(a.v)) > 1 || i.Parent() != a.v.Parent() || isBool(i.Val.Type()) || isErrorType(i.Val.Type()) {
						s.mem[a] = v
					}
				}
			}
		case *ssa.UnOp:
			k := CV{s.ctx, i}
			x.killIf(s, k)
			if i.Op == token.ARROW && !i.CommaOk {
				if ch := x.resolve(s, mkCV(s.ctx, i.X)); isLocalChan(ch) {
					if v, ok := s.mem[ch]; ok {
						s.alias[k] = v
					}
				}
			}
			if i.Op == token.MUL {
				if a, ok := x.resolveAddr(s, mkCV(s.ctx, i.X)); ok {
					if v, ok := s.mem[a]; ok && v != k {
						s.alias[k] = v
					}
				}
				if _, aliased := s.alias[k]; !aliased {
					if first := earlierRead(i); first != nil {
						s.alias[k] = CV{s.ctx, first}
					}
				}
			}
		case *ssa.Extract:
			k := CV{s.ctx, i}
			x.killIf(s, k)
			if c, ok := i.Tuple.(*ssa.Call); ok {
				if f, ok := s.facts[factKey{CV{s.ctx, c}, "fail"}]; ok && i.Index == errIndex(&c.Call) {
					s.facts[factKey{k, "==nil"}] = !f
					if f {
						s.taint[k] = 1
					}
				}
			}
			if rv, ok := s.ret[CV{s.ctx, i.Tuple}]; ok && i.Index < len(rv) {
				if rv[i.Index] != k {
					s.alias[k] = rv[i.Index]
				}
			}
		case *ssa.Alloc:
			k := CV{s.ctx, i}
			delete(s.mem, k)
			if et := i.Type().Underlying().(*types.Pointer).Elem(); trackable(et) && (isErrorType(et) || isBool(et)) {
				s.mem[k] = CV{nil, zeroConst(et)}
			}
		case *ssa.Defer:
			cnt := 0
			for _, d := range s.defers {
				if d.ctx == s.ctx && d.in == i {
					cnt++
				}
			}
			if cnt < 2 {
				s.defers = append(s.defers, deferRec{s.ctx, i})
			}
		case *ssa.RunDefers:
			k := -1
			for j := len(s.defers) - 1; j >= 0; j-- {
				if s.defers[j].ctx == s.ctx {
					k = j
					break
				}
			}
			if k >= 0 {
				d := s.defers[k]
				s.defers = append(append([]deferRec(nil), s.defers[:k]...), s.defers[k+1:]...)
				if x.q.Step != nil {
					if x.q.Step(x, s, d.in, true) == Prune {
						return
					}
				}
				fn, binds, args := x.calleeOf(s, s.ctx, &d.in.Call)
				if x.shouldInline(s.ctx, fn) {
					nc := x.getCtx(s.ctx, d.in, i, fn, args, binds)
					s.ctx = nc
					s.blk, s.idx = fn.Blocks[0], 0
					x.push(s)
					return
				}
				continue // same RunDefers again
			}
		case *ssa.Send:
			// a function handed to an executor goroutine: treated as run in place (the caller's wait is checked separately)
			r := x.resolve(s, mkCV(s.ctx, i.X))
			if isErrorType(i.X.Type()) {
				if ch := x.resolve(s, mkCV(s.ctx, i.Chan)); isLocalChan(ch) {
					s.mem[ch] = r
				}
			}
			var cfn *ssa.Function
			var cb []CV
			switch v := r.v.(type) {
			case *ssa.Function:
				cfn = v
			case *ssa.MakeClosure:
				cfn = v.Fn.(*ssa.Function)
				for _, b := range v.Bindings {
					cb = append(cb, mkCV(r.c, b))
				}
			}
			if cfn != nil && (x.shouldInline(s.ctx, cfn) || x.higherOrder(s, cfn, x.held(cb))) {
				nc := x.getCtx(s.ctx, i, nil, cfn, nil, cb)
				s.ctx = nc
				s.blk, s.idx = cfn.Blocks[0], 0
				x.push(s)
				return
			}
		case *ssa.Call:
			k := CV{s.ctx, i}
			x.killIf(s, k)
			if x.q.FailSite != nil && x.q.FailSite(i) {
				if ei := errIndex(&i.Call); ei >= 0 {
					if !s.Track {
						n := s.clone()
						n.Track, n.Site = true, i
						x.note(n, "%s FAILS: %s", x.p.InstrPos(i), callName(&i.Call))
						x.setErr(n, i, ei, true)
						n.idx++
						x.push(n)
					}
					if x.q.Transient {
						x.kill(s, CV{s.ctx, i}) // other calls may fail too, for any reason
					} else {
						x.setErr(s, i, ei, false)
					}
					s.idx++
					continue
				}
			}
			fn, binds, args := x.calleeOf(s, s.ctx, &i.Call)
			if x.shouldInline(s.ctx, fn) || x.higherOrder(s, fn, args) {
				nc := x.getCtx(s.ctx, i, nil, fn, args, binds)
				s.ctx = nc
				s.blk, s.idx = fn.Blocks[0], 0
				x.push(s)
				return
			}
			if x.q.Transient && callName(&i.Call) == "builtin.append" && errLike(i.Type()) {
				for _, e := range appendElems(i) {
					cv := mkCV(s.ctx, e)
					if !(s.facts[factKey{x.resolve(s, cv), "nondata"}] || (s.Track && x.Tainted(s, cv) == 1)) {
						x.impure[i] = true
					}
				}
			}
			if syncCallbacks[callName(&i.Call)] {
				for _, a := range i.Call.Args {
					r := x.resolve(s, mkCV(s.ctx, a))
					var cfn *ssa.Function
					var cb []CV
					switch v := r.v.(type) {
					case *ssa.Function:
						cfn = v
					case *ssa.MakeClosure:
						cfn = v.Fn.(*ssa.Function)
						for _, b := range v.Bindings {
							cb = append(cb, mkCV(r.c, b))
						}
					}
					if cfn != nil && x.shouldInline(s.ctx, cfn) {
						n := s.clone()
						nc := x.getCtx(s.ctx, i, nil, cfn, nil, cb)
						n.ctx = nc
						n.blk, n.idx = cfn.Blocks[0], 0
						x.push(n)
					}
				}
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				x.killIf(s, CV{s.ctx, v})
			}
		}
		if s.Track {
			x.taintStep(s, in)
		}
		s.idx++
	}
}

// errIndex: which result of the call is its error (-1 if none).
func errIndex(c *ssa.CallCommon) int {
	res := c.Signature().Results()
	for i := res.Len() - 1; i >= 0; i-- {
		if isErrorType(res.At(i).Type()) || strings.HasSuffix(res.At(i).Type().String(), "internal.HandlerError") {
			return i
		}
	}
	return -1
}

func (x *Explorer) setErr(s *State, c *ssa.Call, ei int, fail bool) {
	k := CV{s.ctx, c}
	x.kill(s, k)
	if c.Call.Signature().Results().Len() == 1 {
		s.facts[factKey{k, "==nil"}] = !fail
		if fail {
			s.taint[k] = 1
		}
	} else {
		s.facts[factKey{k, "fail"}] = fail
	}
}

// Tainted: 0 not a carrier of the tracked failure, 1 exactly it (possibly wrapped), 2 a collection containing it.
func (x *Explorer) Tainted(s *State, cv CV) uint8 {
	for i := 0; i < 32; i++ {
		if l := s.taint[cv]; l > 0 {
			return l
		}
		if t, ok := s.alias[cv]; ok && t != cv {
			cv = t
			continue
		}
		switch v := cv.v.(type) {
		case *ssa.MakeInterface:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.ChangeInterface:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.ChangeType:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.Slice:
			cv = mkCV(cv.c, v.X)
			continue
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if a, ok := x.resolveAddr(s, mkCV(cv.c, v.X)); ok {
					return s.taint[a]
				}
			}
			return 0
		}
		r := x.resolve(s, cv)
		if r == cv {
			return 0
		}
		cv = r
	}
	return 0
}

func errLike(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return errLike(u.Elem())
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok {
			return strings.HasSuffix(n.Obj().Name(), "Error")
		}
	case *types.Interface:
		return types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
	}
	return false
}

func (x *Explorer) taintStep(s *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Store:
		l := x.Tainted(s, mkCV(s.ctx, i.Val))
		if a, ok := x.resolveAddr(s, mkCV(s.ctx, i.Addr)); ok {
			if l > 0 {
				s.taint[a] = l
			} else {
				delete(s.taint, a)
			}
			return
		}
		if l == 0 {
			return
		}
		// element or field of a local: the container carries it
		base := mkCV(s.ctx, i.Addr)
		for k := 0; k < 8; k++ {
			switch b := base.v.(type) {
			case *ssa.FieldAddr:
				base = mkCV(base.c, b.X)
				continue
			case *ssa.IndexAddr:
				base = mkCV(base.c, b.X)
				continue
			}
			break
		}
		if a, ok := x.resolveAddr(s, base); ok {
			s.taint[a] = l
		} else {
			s.taint[x.resolve(s, base)] = 2
		}
	case *ssa.Call:
		var lv uint8
		for _, a := range i.Call.Args {
			if l := x.Tainted(s, mkCV(s.ctx, a)); l > lv {
				lv = l
			}
		}
		if lv == 0 {
			return
		}
		k := CV{s.ctx, i}
		switch callName(&i.Call) {
		case "builtin.append", "errors.Join":
			s.taint[k] = 2
			return
		case "builtin.len", "builtin.cap":
			return
		}
		if i.Call.Signature().Results().Len() == 1 && errLike(i.Call.Signature().Results().At(0).Type()) {
			s.taint[k] = lv
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if ia, ok := i.X.(*ssa.IndexAddr); ok {
				x.taintIndex(s, CV{s.ctx, i}, mkCV(s.ctx, ia.X), ia.Index)
			}
		}
	case *ssa.Index:
		x.taintIndex(s, CV{s.ctx, i}, mkCV(s.ctx, i.X), i.Index)
	}
}

// taintIndex: reading an element of a collection containing the tracked failure: it is that element or another.
func (x *Explorer) taintIndex(s *State, k, base CV, idx ssa.Value) {
	l := x.Tainted(s, base)
	if l == 0 {
		return
	}
	if l == 1 || s.facts[factKey{x.resolve(s, base), "len1"}] {
		s.taint[k] = 1
		return
	}
	vk := factKey{x.resolve(s, base), "visited"}
	if !s.facts[vk] {
		n := s.clone()
		n.facts[vk] = true
		n.taint[k] = 1
		n.idx++
		x.push(n)
	}
}

// trackEdge: is this branch outcome possible when the tracked failure happened?
func (x *Explorer) trackEdge(s *State, l Lit) bool {
	a := l.Atom
	switch a.Op {
	case "eq":
		if a.Args[0].Op == "len" && x.Tainted(s, a.Args[0].Args[0].CV) > 0 {
			if a.Args[1].IsConst("0") && l.Pol {
				return false
			}
			if a.Args[1].IsConst("1") && l.Pol {
				s.facts[factKey{x.resolve(s, a.Args[0].Args[0].CV), "len1"}] = true
			}
		}
		if a.Args[1].Op == "nil" && l.Pol && x.Tainted(s, a.Args[0].CV) > 0 {
			return false
		}
		// "no rows" is an answer, not a failure
		if l.Pol && (isNoRows(a.Args[0]) && x.Tainted(s, a.Args[1].CV) > 0 || isNoRows(a.Args[1]) && x.Tainted(s, a.Args[0].CV) > 0) {
			return false
		}
	case "lt":
		// leaving a loop over the collection without having met the failure is impossible
		if a.Args[1].Op == "len" && !l.Pol {
			b := a.Args[1].Args[0].CV
			if x.Tainted(s, b) == 2 && !s.facts[factKey{x.resolve(s, b), "visited"}] {
				return false
			}
		}
	case "call":
		if a.Name == "errors.Is" && l.Pol && len(a.Args) == 2 && isNoRows(a.Args[1]) && x.Tainted(s, a.Args[0].CV) > 0 {
			return false
		}
		if a.Name == "errors.As" && x.q.Transient && l.Pol && len(a.Args) > 0 {
			if x.Tainted(s, a.Args[0].CV) == 1 {
				return false
			}
			if x.Tainted(s, a.Args[0].CV) == 2 && x.pure(s, a.Args[0].CV, map[ssa.Value]bool{}) {
				return false
			}
		}
	case "extract":
		if x.q.Transient && l.Pol && a.Args[0].Op == "assert" && x.Tainted(s, a.Args[0].Args[0].CV) == 1 {
			return false
		}
	}
	return true
}

func isNoRows(t *Term) bool {
	return t.Op == "global" && (strings.HasSuffix(t.Name, "sql.ErrNoRows") || strings.HasSuffix(t.Name, "sql.ErrTxDone"))
}

func zeroConst(t types.Type) *ssa.Const {
	if isBool(t) {
		return ssa.NewConst(constant.MakeBool(false), t)
	}
	return ssa.NewConst(nil, t)
}

func (x *Explorer) killIf(s *State, k CV) {
	x.kill(s, k)
}

func (x *Explorer) doReturn(s *State, i *ssa.Return) {
	var res []CV
	for _, r := range i.Results {
		cv := mkCV(s.ctx, r)
		// keep "non-nil interface" knowledge for MakeInterface of structs
		res = append(res, x.resolveKeepIface(s, cv))
	}
	c := s.ctx
	if s.Track {
		for _, r := range res {
			if l := x.Tainted(s, r); l > 0 {
				s.taint[r] = l
			}
		}
	}
	if c.parent == nil {
		if x.q.Exit != nil {
			x.q.Exit(x, s, ExitReturn, res)
		}
		return
	}
	parent := c.parent
	// keep facts of returned values only
	keep := map[CV]bool{}
	for _, r := range res {
		keep[r] = true
	}
	// returned booleans: keep operands' facts via BinOp
	for k := range s.alias {
		if k.c == c || (k.c != nil && k.c.within(c)) {
			delete(s.alias, k)
		}
	}
	for k := range s.ret {
		if k.c == c || (k.c != nil && k.c.within(c)) {
			delete(s.ret, k)
		}
	}
	for k := range s.mem {
		if k.c == c || (k.c != nil && k.c.within(c)) {
			delete(s.mem, k)
		} else {
			keep[s.mem[k]] = true
		}
	}
	for k := range s.taint {
		if (k.c == c || (k.c != nil && k.c.within(c))) && !keep[k] {
			// allocs reachable from a returned pointer stay
			if _, isAlloc := k.v.(*ssa.Alloc); isAlloc {
				escaped := false
				for _, r := range res {
					if x.resolve(s, r) == k {
						escaped = true
					}
				}
				if escaped {
					continue
				}
			}
			delete(s.taint, k)
		}
	}
	for f := range s.facts {
		if (f.cv.c == c || (f.cv.c != nil && f.cv.c.within(c))) && !keep[f.cv] {
			delete(s.facts, f)
		}
	}
	var nd []deferRec
	for _, d := range s.defers {
		if d.ctx != c {
			nd = append(nd, d)
		}
	}
	s.defers = nd
	switch site := c.site.(type) {
	case *ssa.Call:
		s.ctx = parent
		s.blk = site.Block()
		s.idx = indexOf(site) + 1
		if cal := c.fn; cal != nil && !syncCallbacks[callName(&site.Call)] {
			if len(res) == 1 {
				s.alias[CV{parent, site}] = res[0]
			} else if len(res) > 1 {
				s.ret[CV{parent, site}] = res
			}
		}
	case *ssa.Send:
		s.ctx = parent
		s.blk = site.Block()
		s.idx = indexOf(site) + 1
	case *ssa.Defer:
		s.ctx = parent
		if c.rd == nil {
			return
		}
		s.blk, s.idx = c.rd.Block(), indexOf(c.rd)
	default:
		return
	}
	x.push(s)
}

// resolveKeepIface resolves but stops at a MakeInterface of a non-interface value (a non-nil interface).
func (x *Explorer) resolveKeepIface(s *State, cv CV) CV {
	for i := 0; i < 16; i++ {
		if _, ok := cv.v.(*ssa.MakeInterface); ok {
			return cv
		}
		if t, ok := s.alias[cv]; ok && t != cv {
			cv = t
			continue
		}
		if ci, ok := cv.v.(*ssa.ChangeInterface); ok {
			cv = mkCV(cv.c, ci.X)
			continue
		}
		break
	}
	if _, ok := cv.v.(*ssa.MakeInterface); ok {
		return cv
	}
	return x.resolve(s, cv)
}

func indexOf(in ssa.Instruction) int {
	for i, j := range in.Block().Instrs {
		if j == in {
			return i
		}
	}
	return -1
}

// appendElems: the individual values of append(s, a, b...); nil for append(s, t...).
func appendElems(c *ssa.Call) []ssa.Value {
	if len(c.Call.Args) < 2 {
		return nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// pure: a collection (or the join of one) every element of which was shown not to be a data error when added.
func (x *Explorer) pure(s *State, cv CV, seen map[ssa.Value]bool) bool {
	cv = x.resolve(s, cv)
	if seen[cv.v] {
		return true
	}
	seen[cv.v] = true
	switch v := cv.v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !x.pure(s, mkCV(cv.c, e), seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		switch callName(&v.Call) {
		case "builtin.append":
			el := appendElems(v)
			return len(el) > 0 && !x.impure[v] && x.pure(s, mkCV(cv.c, v.Call.Args[0]), seen)
		case "errors.Join":
			return len(v.Call.Args) == 1 && x.pure(s, mkCV(cv.c, v.Call.Args[0]), seen)
		}
		fn, binds, args := x.calleeOf(s, cv.c, &v.Call)
		if fn == nil || fn.Blocks == nil || !inModule(fn) || cv.c.depth > 14 || v.Call.Signature().Results().Len() != 1 {
			return false
		}
		nc := x.getCtx(cv.c, v, nil, fn, args, binds)
		ok, n := true, 0
		fnInstrs(fn, func(in ssa.Instruction) {
			if rt, isR := in.(*ssa.Return); isR {
				n++
				ok = ok && x.pure(s, mkCV(nc, rt.Results[0]), seen)
			}
		})
		return ok && n > 0
	case *ssa.MakeSlice:
		if c, ok := v.Len.(*ssa.Const); ok {
			return c.Int64() == 0
		}
	}
	return false
}

// earlierRead: an earlier read of the same element of a list of errors which the function does not change, if any.
func earlierRead(ld *ssa.UnOp) ssa.Value {
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok || !isErrorType(ld.Type()) {
		return nil
	}
	var first ssa.Value
	for _, u := range refs(ia.X) {
		o, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range refs(o) {
			if _, dbg := w.(*ssa.DebugRef); dbg {
				continue
			}
			l, ok := w.(*ssa.UnOp)
			if !ok {
				return nil // changed, or its address taken
			}
			if o == ia || o.Index != ia.Index || o.Index == nil {
				continue
			}
			if l.Block() == ld.Block() && indexOf(l) < indexOf(ld) || l.Block() != ld.Block() && l.Block().Dominates(ld.Block()) {
				if first == nil || l.Block() != first.(*ssa.UnOp).Block() && l.Block().Dominates(first.(*ssa.UnOp).Block()) || l.Block() == first.(*ssa.UnOp).Block() && indexOf(l) < indexOf(first.(*ssa.UnOp)) {
					first = l
				}
			}
		}
	}
	return first
}

func isLocalChan(cv CV) bool {
	_, ok := cv.v.(*ssa.MakeChan)
	return ok
}
