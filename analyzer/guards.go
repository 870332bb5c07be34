package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A Guard recognises conditions: it reports whether cond having the value pol establishes the fact in question about v
// (v may be nil when the fact is about no particular value).
type Guard func(cond ssa.Value, pol bool, v ssa.Value) bool

type guardCk struct {
	p     *Prog
	g     Guard
	stack map[ssa.Value]bool
}

func boolConst(v ssa.Value) (val, ok bool) {
	if c, isC := v.(*ssa.Const); isC && c.Value != nil && c.Value.Kind() == constant.Bool {
		return constant.BoolVal(c.Value), true
	}
	return false, false
}

// implies: cond == pol establishes the fact about v.
func (k *guardCk) implies(cond ssa.Value, pol bool, v ssa.Value, d int) bool {
	if cond == nil || d > 8 {
		return false
	}
	if b, ok := boolConst(cond); ok {
		return b != pol // cannot happen
	}
	if k.g(cond, pol, v) {
		return true
	}
	if k.stack[cond] {
		return false
	}
	k.stack[cond] = true
	defer delete(k.stack, cond)
	switch x := cond.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return k.implies(x.X, !pol, v, d+1)
		case token.MUL:
			if a, ok := x.X.(*ssa.Alloc); ok && pol {
				sts := storesTo(a)
				for _, st := range sts {
					if !k.implies(st.Val, pol, v, d+1) && !k.at(st, v, d+1) {
						return false
					}
				}
				return len(sts) > 0
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if b, ok := boolConst(pr[1]); ok {
					return k.implies(pr[0], (b == (x.Op == token.EQL)) == pol, v, d+1)
				}
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if b, ok := boolConst(e); ok && b != pol {
				continue
			}
			// the edge taken because the very value is not pol
			if ifi, ok := last(x.Block().Preds[i]).(*ssa.If); ok && ifi.Cond == e && x.Block().Preds[i].Succs[0] != x.Block().Preds[i].Succs[1] && (x.Block().Preds[i].Succs[0] == x.Block()) != pol {
				continue
			}
			if _, isC := boolConst(e); !isC && k.implies(e, pol, v, d+1) {
				continue
			}
			if k.edge(x.Block().Preds[i], x.Block(), v, d+1) {
				continue
			}
			return false
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return k.call(c, x.Index, pol, v, d)
		}
	case *ssa.Call:
		return k.call(x, 0, pol, v, d)
	}
	return false
}

func last(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[len(b.Instrs)-1] }

// call: the idx'th (boolean) result of c being pol establishes the fact about v.
func (k *guardCk) call(c *ssa.Call, idx int, pol bool, v ssa.Value, d int) bool {
	fn := c.Call.StaticCallee()
	if fn == nil || !inModule(fn) || len(fn.Blocks) == 0 {
		return false
	}
	// the value in terms of the callee
	var inner ssa.Value
	if v != nil {
		for i, a := range c.Call.Args {
			if k.p.same(a, v) && i < len(fn.Params) {
				inner = fn.Params[i]
			}
		}
		if inner == nil {
			return false
		}
	}
	any, ok := false, true
	fnInstrs(fn, func(in ssa.Instruction) {
		r, isR := in.(*ssa.Return)
		if !isR || idx >= len(r.Results) {
			return
		}
		any = true
		if b, isC := boolConst(r.Results[idx]); isC && b != pol {
			return
		} else if !isC && k.implies(r.Results[idx], pol, inner, d+1) {
			return
		}
		if !k.at(r, inner, d+1) {
			ok = false
		}
	})
	return any && ok
}

// cuts: taking the edge from -> to establishes the fact.
func (k *guardCk) cuts(from, to *ssa.BasicBlock, v ssa.Value, d int) bool {
	ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	return k.implies(ifi.Cond, to == from.Succs[0], v, d+1)
}

func (k *guardCk) edge(from, to *ssa.BasicBlock, v ssa.Value, d int) bool {
	return k.cuts(from, to, v, d) || k.block(from, v, d)
}

// block: every path from the entry of the function to b passes an edge which establishes the fact.
func (k *guardCk) block(b *ssa.BasicBlock, v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	entry := b.Parent().Blocks[0]
	seen := map[*ssa.BasicBlock]bool{entry: true}
	work := []*ssa.BasicBlock{entry}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if c == b {
			return false
		}
		for _, s := range c.Succs {
			if !seen[s] && !k.cuts(c, s, v, d) {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return true
}

func (k *guardCk) at(in ssa.Instruction, v ssa.Value, d int) bool { return k.block(in.Block(), v, d) }

// Guarded: whenever in runs, the fact about v has been established, by conditions in its function or in all its callers.
func (p *Prog) Guarded(in ssa.Instruction, v ssa.Value, g Guard) bool {
	return p.guarded(in, v, g, 0)
}

func (p *Prog) guarded(in ssa.Instruction, v ssa.Value, g Guard, d int) bool {
	k := &guardCk{p: p, g: g, stack: map[ssa.Value]bool{}}
	if k.at(in, v, 0) {
		return true
	}
	if d > 4 {
		return false
	}
	fn := in.Parent()
	sites := p.sitesOf(fn)
	if len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		w := v
		if v != nil {
			w = nil
			switch x := v.(type) {
			case *ssa.Parameter:
				if c := asCall(s); c != nil && c.StaticCallee() == fn {
					w = c.Args[paramIndex(x)]
				}
			case *ssa.FreeVar:
				if mc, ok := s.(*ssa.MakeClosure); ok {
					w = mc.Bindings[freeVarIndex(x)]
				}
			case *ssa.UnOp:
				// a captured variable
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					if mc, ok := s.(*ssa.MakeClosure); ok {
						w = mc.Bindings[freeVarIndex(fv)]
					}
				}
			}
			if w == nil {
				return false
			}
		}
		if !p.guarded(s, w, g, d+1) {
			return false
		}
	}
	return true
}

// sitesOf: the static calls of fn in the module, or the places where the closure fn is made. Nil when fn's address is
// taken in some other way or fn is an entry point.
func (p *Prog) sitesOf(fn *ssa.Function) []ssa.Instruction {
	if p.siteIdx == nil {
		p.siteIdx = map[*ssa.Function][]ssa.Instruction{}
		p.escapes = map[*ssa.Function]bool{}
		p.instrs(func(f *ssa.Function, in ssa.Instruction) {
			var callee *ssa.Function
			if c := asCall(in); c != nil {
				callee = c.StaticCallee()
				if callee != nil {
					if _, isMC := c.Value.(*ssa.MakeClosure); !isMC {
						p.siteIdx[callee] = append(p.siteIdx[callee], in)
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				p.siteIdx[mc.Fn.(*ssa.Function)] = append(p.siteIdx[mc.Fn.(*ssa.Function)], in)
			}
			for i, op := range in.Operands(nil) {
				f2, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if c := asCall(in); c != nil && i == 0 && c.Value == f2 {
					continue
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				p.escapes[f2] = true
			}
		})
	}
	if p.escapes[fn] {
		return nil
	}
	return p.siteIdx[fn]
}

// same: the two values are the same in any execution (equal SSA values, or reads of the same place).
func (p *Prog) same(a, b ssa.Value) bool {
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	var fa, fb *ssa.Function
	if i, ok := a.(ssa.Instruction); ok {
		fa = i.Parent()
	}
	if i, ok := b.(ssa.Instruction); ok {
		fb = i.Parent()
	}
	if fa != nil && fa == fb {
		ta, tb := p.StaticTerm(fa, a), p.StaticTerm(fb, b)
		if ta.Find(func(t *Term) bool { return t.Op == "opaque" || t.Op == "phi" }) != nil {
			return false
		}
		return ta.String() == tb.String()
	}
	return false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// Leaf is a part of a slice's contents: an element put there by At, or (Whole) all elements of another slice.
type Leaf struct {
	Val   ssa.Value
	At    ssa.Instruction
	Whole bool
}

// elems: where the elements of the slice v may come from.
func (p *Prog) elems(v ssa.Value) []Leaf {
	seen := map[ssa.Value]bool{}
	var out []Leaf
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 8 {
			out = append(out, Leaf{Val: v, Whole: true})
			return
		}
		for _, s := range p.sources(v) {
			if seen[s] {
				continue
			}
			seen[s] = true
			switch x := s.(type) {
			case *ssa.Const: // nil
			case *ssa.MakeSlice:
				for _, r := range *x.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, st := range storesTo(ia) {
							out = append(out, Leaf{Val: st.Val, At: st})
						}
					}
				}
			case *ssa.Slice:
				if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
					continue // empty
				}
				if a, ok := x.X.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, st := range storesTo(ia) {
								out = append(out, Leaf{Val: st.Val, At: st})
							}
						}
					}
				} else {
					walk(x.X, d+1)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(x.Call.Args[0], d+1)
					if els := appendElems(x); els != nil {
						for _, e := range els {
							out = append(out, Leaf{Val: e, At: x})
						}
					} else if len(x.Call.Args) > 1 {
						walk(x.Call.Args[1], d+1)
					}
					continue
				}
				out = append(out, Leaf{Val: s, At: x, Whole: true})
			case *ssa.Parameter:
				sites := p.sitesOf(x.Parent())
				if len(sites) == 0 {
					out = append(out, Leaf{Val: s, Whole: true})
				}
				for _, st := range sites {
					if c := asCall(st); c != nil && c.StaticCallee() == x.Parent() {
						walk(c.Args[paramIndex(x)], d+1)
					} else {
						out = append(out, Leaf{Val: s, Whole: true})
					}
				}
			default:
				out = append(out, Leaf{Val: s, Whole: true})
			}
		}
	}
	walk(v, 0)
	return out
}
