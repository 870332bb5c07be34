package main

// Conditional value flow: which access path (of the root function's parameters) a value may be, through helper
// functions with their arguments, local structs, and updates in place; and under which branch conditions.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is an activation: the arguments of fn, as values of the calling activation.
type Env struct {
	up   *Env
	fn   *ssa.Function
	site ssa.Instruction
	args []ssa.Value
	d    int
	kids map[ssa.Instruction]*Env
}

func (e *Env) on(fn *ssa.Function) bool {
	for x := e; x != nil; x = x.up {
		if x.fn == fn {
			return true
		}
	}
	return false
}

func (e *Env) enter(c *ssa.CallCommon, site ssa.Instruction) *Env {
	fn := e.callee(c)
	if fn == nil || !inModule(fn) || len(fn.Blocks) == 0 || e.on(fn) || e.d > 5 || len(c.Args) != len(fn.Params) {
		return nil
	}
	if k := e.kids[site]; k != nil && k.fn == fn {
		return k
	}
	if e.kids == nil {
		e.kids = map[ssa.Instruction]*Env{}
	}
	e.kids[site] = &Env{up: e, fn: fn, site: site, args: c.Args, d: e.d + 1}
	return e.kids[site]
}

// callee: the function called by name, or the one which was passed in to be called.
func (e *Env) callee(c *ssa.CallCommon) *ssa.Function {
	if fn := c.StaticCallee(); fn != nil || c.IsInvoke() {
		return fn
	}
	v := c.Value
	for x := e; x != nil; x = x.up {
		pr, ok := v.(*ssa.Parameter)
		if !ok || pr.Parent() != x.fn || paramIndex(pr) >= len(x.args) {
			break
		}
		if v = x.args[paramIndex(pr)]; v == nil {
			return nil
		}
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
	}
	switch f := v.(type) {
	case *ssa.MakeClosure:
		return f.Fn.(*ssa.Function)
	case *ssa.Function:
		return f
	}
	return nil
}

// Choice is one thing a value may be. Steps are the places it came through: if a condition is known at one of them it
// holds whenever the value is this one.
type Choice struct {
	Path  string
	V     ssa.Value
	E     *Env
	At    ssa.Instruction
	steps []func(g CondGuard) bool
}

// Cond is a branch condition with its outcome, in an activation.
type Cond struct {
	V   ssa.Value
	Pol bool
	E   *Env
}

type CondGuard func(c Cond) bool

func (c Choice) When(g CondGuard) bool {
	for _, s := range c.steps {
		if s(g) {
			return true
		}
	}
	return false
}

type chooser struct {
	p    *Prog
	busy map[string]bool
	memo map[any]map[string]bool
	n    int
}

func (p *Prog) chooser() *chooser {
	return &chooser{p: p, busy: map[string]bool{}, memo: map[any]map[string]bool{}}
}

func selStr(sel []string) string {
	if len(sel) == 0 {
		return ""
	}
	return "." + strings.Join(sel, ".")
}

// Of: what the part sel of v may be.
func (c *chooser) Of(v ssa.Value, sel []string, e *Env) []Choice {
	at, _ := v.(ssa.Instruction)
	if len(c.busy) == 0 {
		c.n = 0
	}
	return c.eval(v, sel, e, at, nil)
}

// Paths: the access paths v may be.
func (c *chooser) Paths(v ssa.Value, e *Env) map[string]bool {
	type key struct {
		v ssa.Value
		e *Env
	}
	top := len(c.busy) == 0
	if m, ok := c.memo[key{v, e}]; ok {
		return m
	}
	out := map[string]bool{}
	for _, ch := range c.Of(v, nil, e) {
		out[ch.Path] = true
	}
	if top {
		c.memo[key{v, e}] = out
	}
	return out
}

// Path: the access path v is, apart from being nothing.
func (c *chooser) Path(v ssa.Value, e *Env) string {
	res := ""
	for k := range c.Paths(v, e) {
		if k == "zero" || k == "nil" {
			continue
		}
		if res != "" {
			return ""
		}
		res = k
	}
	return res
}

func with(steps []func(CondGuard) bool, s func(CondGuard) bool) []func(CondGuard) bool {
	return append(append([]func(CondGuard) bool{}, steps...), s)
}

func (c *chooser) guard(g CondGuard, e *Env) *guardCk {
	k := &guardCk{p: c.p, stack: map[ssa.Value]bool{}}
	k.g = func(cond ssa.Value, pol bool, _ ssa.Value) bool {
		if pf, ok := cond.(interface{ Parent() *ssa.Function }); ok && pf.Parent() != nil && pf.Parent() != e.fn {
			return false // of another activation
		}
		if g(Cond{cond, pol, e}) {
			return true
		}
		idx := 0
		if ex, ok := cond.(*ssa.Extract); ok {
			if cl, ok := ex.Tuple.(*ssa.Call); ok {
				cond, idx = cl, ex.Index
			}
		}
		switch x := cond.(type) {
		case *ssa.Parameter:
			if e.up != nil && paramIndex(x) < len(e.args) {
				return c.guard(g, e.up).implies(e.args[paramIndex(x)], pol, nil, 1)
			}
		case *ssa.Call:
			ne := e.enter(&x.Call, x)
			if ne == nil {
				return false
			}
			k2 := c.guard(g, ne)
			any, ok := false, true
			fnInstrs(ne.fn, func(in ssa.Instruction) {
				r, isR := in.(*ssa.Return)
				if !isR || len(r.Results) <= idx {
					return
				}
				any = true
				b, isC := boolConst(r.Results[idx])
				if isC && b != pol || !isC && k2.implies(r.Results[idx], pol, nil, 1) || k2.at(r, nil, 1) {
					return
				}
				ok = false
			})
			return any && ok
		}
		return false
	}
	return k
}

// knownAt: the condition is known at in (in its function, or at the calls which lead there).
func (c *chooser) knownAt(in ssa.Instruction, e *Env, g CondGuard) bool {
	for x, at := e, in; x != nil && at != nil; x, at = x.up, x.site {
		if c.guard(g, x).at(at, nil, 0) {
			return true
		}
	}
	return false
}

func (c *chooser) leaf(path string, sel []string, v ssa.Value, e *Env, at ssa.Instruction, steps []func(CondGuard) bool) []Choice {
	return []Choice{{Path: path + selStr(sel), V: v, E: e, At: at, steps: steps}}
}

func (c *chooser) eval(v ssa.Value, sel []string, e *Env, at ssa.Instruction, steps []func(CondGuard) bool) []Choice {
	if v == nil {
		return nil
	}
	key := fmt.Sprintf("%p|%p|%s", v, e, selStr(sel))
	if c.busy[key] || c.n > 20000 {
		return nil
	}
	c.busy[key] = true
	c.n++
	defer delete(c.busy, key)
	leaf := func(path string) []Choice { return c.leaf(path, sel, v, e, at, steps) }
	each := func(x ssa.Value, f func(path string) string) []Choice {
		var out []Choice
		for _, ch := range c.eval(x, nil, e, at, steps) {
			if ch.Path == "zero" || ch.Path == "nil" {
				continue // nothing to be found there
			}
			ch.Path = f(ch.Path) + selStr(sel)
			ch.V, ch.E, ch.At = v, e, at
			out = append(out, ch)
		}
		return out
	}
	elem := func(suffix string) func(string) string {
		return func(p string) string { return p + suffix }
	}
	call := func(cl *ssa.Call, idx int) []Choice {
		ne := e.enter(&cl.Call, cl)
		if c.p.opaqueFns.has(callName(&cl.Call)) {
			ne = nil
		}
		if ne == nil {
			nm := callName(&cl.Call)
			var as []string
			args := cl.Call.Args
			if cl.Call.IsInvoke() {
				args = append([]ssa.Value{cl.Call.Value}, args...)
			}
			for _, a := range args {
				var ps []string
				for p := range c.Paths(a, e) {
					if p != "zero" {
						ps = append(ps, p)
					}
				}
				sort.Strings(ps)
				as = append(as, strings.Join(ps, "|"))
			}
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok {
				nm = b.Name()
			}
			if nm == "max" || nm == "min" {
				sort.Strings(as)
			}
			sfx := ""
			if idx > 0 {
				sfx = fmt.Sprint("#", idx)
			}
			return leaf(nm + "(" + strings.Join(as, ",") + ")" + sfx)
		}
		var out []Choice
		fnInstrs(ne.fn, func(in ssa.Instruction) {
			if r, ok := in.(*ssa.Return); ok && idx < len(r.Results) {
				st := with(steps, func(g CondGuard) bool { return c.guard(g, ne).at(r, nil, 0) })
				out = append(out, c.eval(r.Results[idx], sel, ne, r, st)...)
			}
		})
		return out
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return []Choice{{Path: "nil", V: v, E: e, At: at, steps: steps}}
		}
		return leaf(constString(x.Value))
	case *ssa.Parameter:
		if e.up != nil {
			if i := paramIndex(x); i < len(e.args) {
				if _, isP := x.Type().Underlying().(*types.Pointer); isP && len(sel) > 0 {
					return c.place(x, sel, e, at, steps)
				}
				return c.eval(e.args[i], sel, e.up, e.site, steps)
			}
		}
		if _, isP := x.Type().Underlying().(*types.Pointer); isP && len(sel) > 0 {
			return c.place(x, sel, e, at, steps)
		}
		return leaf(fmt.Sprint("$", paramIndex(x)))
	case *ssa.Phi:
		var out []Choice
		for i, ed := range x.Edges {
			pred := x.Block().Preds[i]
			st := with(steps, func(g CondGuard) bool { return c.guard(g, e).edge(pred, x.Block(), nil, 0) })
			ep := last(pred)
			if _, isP := x.Type().Underlying().(*types.Pointer); isP && at != nil && at.Parent() == x.Parent() {
				ep = at // what is there is read later
			}
			out = append(out, c.eval(ed, sel, e, ep, st)...)
		}
		return out
	case *ssa.ChangeType:
		return c.eval(x.X, sel, e, at, steps)
	case *ssa.Convert:
		return c.eval(x.X, sel, e, at, steps)
	case *ssa.MakeInterface:
		return c.eval(x.X, sel, e, at, steps)
	case *ssa.ChangeInterface:
		return c.eval(x.X, sel, e, at, steps)
	case *ssa.TypeAssert:
		return c.eval(x.X, sel, e, at, steps)
	case *ssa.Field:
		return c.eval(x.X, append([]string{fieldName(x.X.Type(), x.Field)}, sel...), e, at, steps)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return c.place(x.X, sel, e, x, steps)
		}
		if x.Op == token.NOT {
			return each(x.X, func(p string) string { return "!" + p })
		}
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global:
		return c.place(v, sel, e, at, steps)
	case *ssa.FreeVar:
		if b, pe, site := c.captured(x, e); b != nil {
			return c.eval(b, sel, pe, site, steps)
		}
		return leaf("free:" + x.Name())
	case *ssa.Lookup:
		return each(x.X, elem("[]"))
	case *ssa.Index:
		return each(x.X, elem("[]"))
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 1 {
				return each(t.X, elem("[]?"))
			}
			return each(t.X, elem("[]"))
		case *ssa.Next:
			r, ok := t.Iter.(*ssa.Range)
			if !ok {
				return leaf("next")
			}
			return each(r.X, elem([]string{"{?}", "{}", "[]"}[x.Index]))
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return c.eval(t.X, sel, e, at, steps)
			}
		case *ssa.Call:
			return call(t, x.Index)
		}
	case *ssa.Call:
		return call(x, 0)
	case *ssa.MakeMap:
		return leaf("map@" + fmt.Sprint(int(x.Pos())))
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return leaf("slice@" + fmt.Sprint(int(x.Pos())))
		}
		return c.eval(x.X, sel, e, at, steps)
	}
	return leaf(fmt.Sprintf("%T@%d", v, int(v.Pos())))
}

// place: what is stored in the part sel of the place addr points to, as seen at use.
func (c *chooser) place(addr ssa.Value, sel []string, e *Env, use ssa.Instruction, steps []func(CondGuard) bool) []Choice {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return c.place(x.X, append([]string{fieldName(x.X.Type(), x.Field)}, sel...), e, use, steps)
	case *ssa.IndexAddr:
		var out []Choice
		for _, ch := range c.eval(x.X, nil, e, use, steps) {
			if ch.Path == "zero" || ch.Path == "nil" {
				continue
			}
			ix := "[]"
			if k, ok := x.Index.(*ssa.Const); ok && k.Value != nil {
				ix = "[" + k.Value.String() + "]"
			}
			ch.Path += ix + selStr(sel)
			ch.V, ch.E, ch.At = addr, e, use
			out = append(out, ch)
		}
		return out
	case *ssa.Global:
		return c.leaf("global:"+x.Name(), sel, x, e, use, steps)
	case *ssa.FreeVar:
		if b, pe, site := c.captured(x, e); b != nil {
			return c.place(b, sel, pe, site, steps)
		}
		return c.leaf("free:"+x.Name(), sel, x, e, use, steps)
	case *ssa.Alloc, *ssa.Parameter:
		var out []Choice
		key := fmt.Sprintf("pl|%p|%p|%p|%s", addr, e, use, selStr(sel))
		if c.busy[key] || c.n > 20000 {
			return nil // a loop
		}
		c.busy[key] = true
		c.n++
		defer delete(c.busy, key)
		for _, d := range c.defs(addr, sel, use) {
			d := d
			st := with(steps, func(g CondGuard) bool { return c.cut(d, use, e, g) })
			switch d.kind {
			case "store":
				out = append(out, c.eval(d.val, d.rest, e, d.in, st)...)
			case "part":
				out = append(out, c.leaf(fmt.Sprint("new@", int(addr.Pos())), sel, addr, e, use, st)...)
			case "filled":
				out = append(out, c.leaf(fmt.Sprint("filled@", int(addr.Pos())), sel, addr, e, use, st)...)
			case "zero":
				out = append(out, Choice{Path: "zero", V: addr, E: e, At: use, steps: st})
			case "entry":
				pr := addr.(*ssa.Parameter)
				if e.up == nil || len(e.args) <= paramIndex(pr) {
					out = append(out, c.leaf(fmt.Sprint("$", paramIndex(pr)), sel, addr, e, use, st)...)
				} else {
					out = append(out, c.place(e.args[paramIndex(pr)], sel, e.up, e.site, st)...)
				}
			case "call":
				ne := e.enter(asCall(d.in), d.in)
				if ne == nil {
					out = append(out, c.leaf("call:"+callName(asCall(d.in)), sel, addr, e, use, st)...)
					continue
				}
				fnInstrs(ne.fn, func(in ssa.Instruction) {
					if r, ok := in.(*ssa.Return); ok {
						out = append(out, c.place(ne.fn.Params[d.arg], sel, ne, r, st)...)
					}
				})
			}
		}
		return out
	}
	return c.eval(addr, sel, e, use, steps)
}

// captured: what a closure captured, in the activation which made it.
func (c *chooser) captured(fv *ssa.FreeVar, e *Env) (ssa.Value, *Env, ssa.Instruction) {
	b := freeVarBinding(fv)
	if b == nil {
		return nil, nil, nil
	}
	for x := e; x.up != nil; x = x.up {
		if x.up.fn == fv.Parent().Parent() {
			return b, x.up, x.site
		}
	}
	return nil, nil, nil
}

type defn struct {
	kind  string
	in    ssa.Instruction
	val   ssa.Value
	rest  []string
	arg   int
	kills map[ssa.Instruction]bool
}

// writes: the instructions which may write to the part sel of root's place.
func (c *chooser) writes(root ssa.Value, sel []string) (full map[ssa.Instruction]defn, part map[ssa.Instruction]defn) {
	full, part = map[ssa.Instruction]defn{}, map[ssa.Instruction]defn{}
	var walk func(v ssa.Value, pre []string)
	phis := map[*ssa.Phi]bool{}
	walk = func(v ssa.Value, pre []string) {
		for i, n := range pre {
			if i < len(sel) && sel[i] != n {
				return
			}
		}
		for _, u := range refs(v) {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr != v {
					continue
				}
				if len(pre) <= len(sel) {
					full[x] = defn{kind: "store", in: x, val: x.Val, rest: sel[len(pre):]}
				} else {
					part[x] = defn{kind: "part", in: x}
				}
			case *ssa.FieldAddr:
				walk(x, append(append([]string{}, pre...), fieldName(x.X.Type(), x.Field)))
			case *ssa.MakeInterface:
				if _, isA := root.(*ssa.Alloc); isA && len(pre) == 0 && !onlyRead(x) {
					full[x] = defn{kind: "filled", in: x} // by whoever gets it
				}
			case *ssa.Phi:
				if !phis[x] && len(pre) == 0 {
					phis[x] = true
					walk(x, pre)
				}
			case *ssa.Call:
				if len(pre) > 0 {
					continue
				}
				fn := x.Call.StaticCallee()
				if fn == nil || !inModule(fn) || len(fn.Blocks) == 0 {
					continue
				}
				for i, a := range x.Call.Args {
					if a == v && i < len(fn.Params) && c.mayWrite(fn.Params[i], sel, 0) {
						full[x] = defn{kind: "call", in: x, arg: i}
					}
				}
			}
		}
	}
	walk(root, nil)
	return
}

func (c *chooser) mayWrite(pr *ssa.Parameter, sel []string, d int) bool {
	if _, isP := pr.Type().Underlying().(*types.Pointer); !isP || d > 3 {
		return false
	}
	key := fmt.Sprintf("mw|%p|%s", pr, selStr(sel))
	if c.busy[key] {
		return false
	}
	c.busy[key] = true
	defer delete(c.busy, key)
	f, p := c.writes(pr, sel)
	return len(f)+len(p) > 0
}

// defs: the writes to the part sel of root's place which may be seen at use.
func (c *chooser) defs(root ssa.Value, sel []string, use ssa.Instruction) []defn {
	full, part := c.writes(root, sel)
	kills := map[ssa.Instruction]bool{}
	for in := range full {
		kills[in] = true
	}
	var origin ssa.Instruction
	if a, ok := root.(*ssa.Alloc); ok {
		origin = a
	}
	var out []defn
	partly := false
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int)
	back = func(b *ssa.BasicBlock, i int) {
		for ; i >= 0; i-- {
			in := b.Instrs[i]
			if _, ok := part[in]; ok {
				partly = true
			}
			if d, ok := full[in]; ok {
				d.kills = kills
				out = append(out, d)
				return
			}
			if in == origin {
				out = append(out, defn{kind: "zero", in: in, kills: kills})
				return
			}
		}
		if len(b.Preds) == 0 {
			if origin == nil && b.Index == 0 {
				out = append(out, defn{kind: "entry", kills: kills})
			}
			return
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				back(p, len(p.Instrs)-1)
			}
		}
	}
	if use == nil || use.Parent() != root.Parent() {
		for _, d := range full {
			d.kills = kills
			out = append(out, d)
		}
	} else {
		back(use.Block(), indexOf(use)-1)
	}
	if partly {
		return []defn{{kind: "part", in: origin, kills: kills}}
	}
	// a write twice: once
	uniq := map[string]defn{}
	var res []defn
	for _, d := range out {
		k := fmt.Sprintf("%s|%p", d.kind, d.in)
		if _, ok := uniq[k]; !ok {
			uniq[k] = d
			res = append(res, d)
		}
	}
	return res
}

// cut: whenever what d wrote is seen at use, the condition was found true in between, or is known at the write.
func (c *chooser) cut(d defn, use ssa.Instruction, e *Env, g CondGuard) bool {
	k := c.guard(g, e)
	var b *ssa.BasicBlock
	from := 0
	if d.in != nil {
		if d.in.Parent() != e.fn || use == nil || use.Parent() != e.fn {
			return false
		}
		if k.at(d.in, nil, 0) {
			return true
		}
		b, from = d.in.Block(), indexOf(d.in)+1
	} else {
		if use == nil || use.Parent() != e.fn {
			return false
		}
		b = e.fn.Blocks[0]
	}
	seen := map[*ssa.BasicBlock]bool{}
	reached := false
	var fwd func(b *ssa.BasicBlock, i int)
	fwd = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == use {
				reached = true
				return
			}
			if d.kills[b.Instrs[i]] {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && !k.cuts(b, s, nil, 0) {
				seen[s] = true
				fwd(s, 0)
			}
		}
	}
	fwd(b, from)
	return !reached
}

// contexts: the activations of root and of the module functions it calls.
func (p *Prog) contexts(root *ssa.Function) []*Env {
	var out []*Env
	var walk func(e *Env)
	walk = func(e *Env) {
		out = append(out, e)
		if len(out) > 400 || e.d > 3 {
			return
		}
		fnInstrs(e.fn, func(in ssa.Instruction) {
			if cl, ok := in.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && fnPkg(f) == fnPkg(root) {
					if ne := e.enter(&cl.Call, cl); ne != nil {
						walk(ne)
					}
				}
			}
		})
	}
	walk(&Env{fn: root})
	return out
}

// is: the condition is that x (given by path) is y.
func (c *chooser) is(cd Cond, path string, zero ...string) bool {
	b, ok := cd.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if c.Path(pr[0], cd.E) != path {
			continue
		}
		k, ok := stripConv(pr[1]).(*ssa.Const)
		if !ok {
			continue
		}
		v := "nil"
		if k.Value != nil {
			v = constString(k.Value)
		}
		for _, z := range zero {
			if v == z {
				return b.Op == token.EQL && cd.Pol || b.Op == token.NEQ && !cd.Pol
			}
		}
	}
	return false
}

// isNot: the condition is that x (given by path) is not y.
func (c *chooser) isNot(cd Cond, path string, zero ...string) bool {
	return c.is(Cond{cd.V, !cd.Pol, cd.E}, path, zero...)
}

// holds: the condition is that the boolean given by path is pol.
func (c *chooser) holds(cd Cond, path string, pol bool) bool {
	if cd.Pol != pol {
		return false
	}
	return c.Path(cd.V, cd.E) == path
}

// skips: one turn of the loop with header h can end without passing one of the instructions and without the condition
// being found true.
func (c *chooser) skips(h *ssa.BasicBlock, e *Env, done func(ssa.Instruction) bool, g CondGuard) bool {
	body := loopBlocks(h)
	if g == nil {
		g = func(Cond) bool { return false }
	}
	k := c.guard(g, e)
	seen := map[*ssa.BasicBlock]bool{}
	res := false
	var fwd func(b *ssa.BasicBlock)
	fwd = func(b *ssa.BasicBlock) {
		for _, in := range b.Instrs {
			if done(in) {
				return
			}
		}
		for _, s := range b.Succs {
			if s == h {
				if !k.cuts(b, s, nil, 0) {
					res = true
				}
				continue
			}
			if !seen[s] && body[s] && !k.cuts(b, s, nil, 0) {
				seen[s] = true
				fwd(s)
			}
		}
	}
	for _, s := range h.Succs {
		if body[s] && s != h && !seen[s] && !k.cuts(h, s, nil, 0) {
			seen[s] = true
			fwd(s)
		}
	}
	return res
}

var loopMemo = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// loopBlocks: the blocks of the loop with header h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if m, ok := loopMemo[h]; ok {
		return m
	}
	out := map[*ssa.BasicBlock]bool{h: true}
	for _, b := range h.Parent().Blocks {
		if h.Dominates(b) && b != h && reachesWithout(b, h, nil) {
			for _, p := range h.Preds {
				if h.Dominates(p) && reachesWithout(b, p, h) {
					out[b] = true
				}
			}
		}
	}
	loopMemo[h] = out
	return out
}

// breaks: the loop with header h may be left early, other than by a panic.
func breaks(h *ssa.BasicBlock) ssa.Instruction {
	body := loopBlocks(h)
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] {
				if _, isPanic := last(s).(*ssa.Panic); !isPanic {
					return last(b)
				}
			}
		}
		if _, ok := last(b).(*ssa.Return); ok {
			return last(b)
		}
	}
	return nil
}

// loops: the headers of fn's loops, with what they range over (path).
func (c *chooser) loops(e *Env) map[*ssa.BasicBlock]string {
	out := map[*ssa.BasicBlock]string{}
	for _, b := range e.fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				out[b] = c.ranged(b, e)
			}
		}
	}
	return out
}

// ranged: the path of the collection a loop goes through.
func (c *chooser) ranged(h *ssa.BasicBlock, e *Env) string {
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				return c.Path(r.X, e)
			}
		}
		if b, ok := in.(*ssa.BinOp); ok && b.Op == token.LSS {
			if cl, ok := b.Y.(*ssa.Call); ok && callName(&cl.Call) == "builtin.len" {
				return c.Path(cl.Call.Args[0], e)
			}
		}
	}
	return ""
}

// onlyRead: v is only given to functions which look at it and change nothing.
func onlyRead(v ssa.Value) bool {
	for _, u := range refs(v) {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if st, ok := u.(*ssa.Store); ok && st.Val == v {
			return false
		}
		cl := asCall(u)
		if cl == nil {
			return false
		}
		switch n := callName(cl); {
		case n == "reflect.DeepEqual", strings.HasSuffix(n, ".Marshal"):
		default:
			return false
		}
	}
	return true
}

// SrcIn is a value in an activation.
type SrcIn struct {
	V     ssa.Value
	E     *Env
	At    ssa.Instruction
	Whole bool
}

// sourcesIn: as sources, through parameters to the arguments of the activation and through captured variables.
func (c *chooser) sourcesIn(v ssa.Value, e *Env) []SrcIn {
	type key struct {
		v ssa.Value
		e *Env
	}
	seen := map[key]bool{}
	var out []SrcIn
	var walk func(v ssa.Value, e *Env)
	result := func(cl *ssa.Call, idx int, e *Env) bool {
		if c.p.opaqueFns.has(callName(&cl.Call)) {
			return false
		}
		ne := e.enter(&cl.Call, cl)
		if ne == nil {
			return false
		}
		ok := false
		fnInstrs(ne.fn, func(in ssa.Instruction) {
			if r, isR := in.(*ssa.Return); isR && idx < len(r.Results) {
				ok = true
				walk(r.Results[idx], ne)
			}
		})
		return ok
	}
	walk = func(v ssa.Value, e *Env) {
		if v == nil || seen[key{v, e}] {
			return
		}
		seen[key{v, e}] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, ed := range x.Edges {
				walk(ed, e)
			}
			return
		case *ssa.ChangeType:
			walk(x.X, e)
			return
		case *ssa.Convert:
			walk(x.X, e)
			return
		case *ssa.MakeInterface:
			walk(x.X, e)
			return
		case *ssa.ChangeInterface:
			walk(x.X, e)
			return
		case *ssa.Parameter:
			if e != nil && e.up != nil && e.fn == x.Parent() && len(e.args) == len(e.fn.Params) {
				walk(e.args[paramIndex(x)], e.up)
				return
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok && result(cl, x.Index, e) {
				return
			}
		case *ssa.Call:
			if result(x, 0, e) {
				return
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				addr, ae := x.X, e
				if fv, ok := addr.(*ssa.FreeVar); ok {
					if b, be, _ := c.captured(fv, e); b != nil {
						addr, ae = b, be
					}
				}
				if a, ok := addr.(*ssa.Alloc); ok {
					n := 0
					for _, st := range storesTo(a) {
						n++
						walk(st.Val, ae)
					}
					if n > 0 {
						return
					}
				}
			}
		}
		at, _ := v.(ssa.Instruction)
		out = append(out, SrcIn{V: v, E: e, At: at})
	}
	walk(v, e)
	return out
}

// elemsIn: what the slice is put together from, in activations.
func (c *chooser) elemsIn(v ssa.Value, e *Env) []SrcIn {
	type key struct {
		v ssa.Value
		e *Env
	}
	seen := map[key]bool{}
	var out []SrcIn
	var walk func(v ssa.Value, e *Env, d int)
	walk = func(v ssa.Value, e *Env, d int) {
		for _, s := range c.sourcesIn(v, e) {
			if seen[key{s.V, s.E}] {
				continue
			}
			seen[key{s.V, s.E}] = true
			stores := func(x ssa.Value) {
				for _, r := range *x.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, st := range storesTo(ia) {
							out = append(out, SrcIn{V: st.Val, E: s.E, At: st})
						}
					}
				}
			}
			switch x := s.V.(type) {
			case *ssa.Const:
				continue
			case *ssa.MakeSlice:
				stores(x)
				continue
			case *ssa.Slice:
				if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
					continue
				}
				if a, ok := x.X.(*ssa.Alloc); ok {
					stores(a)
				} else if d < 8 {
					walk(x.X, s.E, d+1)
				}
				continue
			case *ssa.Call:
				if callName(&x.Call) == "builtin.append" && d < 8 {
					walk(x.Call.Args[0], s.E, d+1)
					if els := appendElems(x); els != nil {
						for _, el := range els {
							out = append(out, SrcIn{V: el, E: s.E, At: x})
						}
					} else if len(x.Call.Args) > 1 {
						walk(x.Call.Args[1], s.E, d+1)
					}
					continue
				}
			}
			s.Whole = true
			out = append(out, s)
		}
	}
	walk(v, e, 0)
	return out
}
