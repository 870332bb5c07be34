package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// seqDiffers: fn tells whether two slices (given by path) differ, in length or in an element.
func seqDiffers(r *Report, rule string, fn *ssa.Function, a, b string) {
	p := r.P
	c := p.chooser()
	who := fn.Name()
	r.Ob(rule, who)
	two := func(v ssa.Value, e *Env, f func(string) string, op token.Token) bool {
		x, ok := v.(*ssa.BinOp)
		if !ok || x.Op != op {
			return false
		}
		strip := func(ps map[string]bool, want string) bool {
			for q := range ps {
				if q != want && q != "0" && q != "zero" && q != "nil" {
					return false
				}
			}
			return ps[want]
		}
		px, py := c.Paths(x.X, e), c.Paths(x.Y, e)
		return strip(px, f(a)) && strip(py, f(b)) || strip(px, f(b)) && strip(py, f(a))
	}
	same := func(f func(string) string) CondGuard {
		return func(cd Cond) bool {
			return cd.Pol && two(cd.V, cd.E, f, token.EQL) || !cd.Pol && two(cd.V, cd.E, f, token.NEQ)
		}
	}
	length := func(s string) string { return "len(" + s + ")" }
	elem := func(s string) string { return s + "[]" }
	whole := func(v ssa.Value, e *Env) bool {
		for _, q := range []string{a + "," + b + ")", b + "," + a + ")"} {
			for pa := range c.Paths(v, e) {
				if strings.HasPrefix(pa, "!") && strings.Contains(pa, "Equal") && strings.HasSuffix(pa, q) {
					return true
				}
			}
		}
		return false
	}
	var in func(e *Env) bool
	in = func(e *Env) bool {
		good := true
		fnInstrs(e.fn, func(i ssa.Instruction) {
			rt, ok := i.(*ssa.Return)
			if !ok || len(rt.Results) == 0 {
				return
			}
			for _, ch := range c.Of(rt.Results[0], nil, e) {
				if ch.Path == "true" || whole(ch.V, ch.E) {
					continue
				}
				if ch.At == nil {
					ch.At = rt
				}
				known := func(g CondGuard) bool {
					return ch.Path != "false" && c.guard(g, ch.E).implies(ch.V, false, nil, 0) || ch.When(g) || c.knownAt(ch.At, ch.E, g) || c.knownAt(rt, e, g)
				}
				if !known(same(length)) {
					good = false
				}
				ok := false
				for _, h := range headers(ch.E.fn) {
					if q := c.ranged(h, ch.E); q == a || q == b {
						ok = ok || !c.skips(h, ch.E, func(ssa.Instruction) bool { return false }, same(elem))
					}
				}
				good = good && ok
			}
		})
		return good
	}
	if !in(&Env{fn: fn}) {
		r.Bad(rule, who, p.Pos(fn.Pos()), "two different requests may be taken to be the same")
	}
}

func init() {
	reg("P25", "what each of several lists and subscriptions asks for a room is all built and sent", func(r *Report) {
		const rule = "built"
		p := r.P
		for n, path := range map[string]string{nSortCh: ".Sort", nStateCh: ".RequiredState"} {
			if fn := r.Fn(n); fn != nil {
				seqDiffers(r, rule, fn, "$0"+path, "$1"+path)
			}
		}
		if fn := r.Fn(nFiltersCh); fn != nil {
			c := p.chooser()
			e := &Env{fn: fn}
			r.Ob(rule, "filters compared")
			fnInstrs(fn, func(in ssa.Instruction) {
				if rt, ok := in.(*ssa.Return); ok {
					for _, ch := range c.Of(rt.Results[0], nil, e) {
						if ch.Path == "true" {
							continue
						}
						if !strings.Contains(ch.Path, "$0.Filters") || !strings.Contains(ch.Path, "$1.Filters") || !strings.Contains(ch.Path, "Equal") {
							r.Bad(rule, fn.Name(), r.at(in), "the filters are not compared with the earlier ones ("+ch.Path+")")
						}
					}
				}
			})
		}
		// adding rooms and subscriptions
		if fn := r.Fn(nAddSub); fn != nil {
			c := p.chooser()
			e := &Env{fn: fn}
			r.Ob(rule, "subscription added")
			for _, chs := range exitChoices(c, fn, e, []string{"subs"}) {
				for _, ch := range chs {
					if !strings.HasPrefix(ch.Path, "append($0.subs,") {
						r.Bad(rule, fn.Name(), p.Pos(posOf(ch)), "a subscription may not be added ("+ch.Path+")")
					}
				}
			}
		}
		if fn := r.Fn(nAddRooms); fn != nil {
			c := p.chooser()
			e := &Env{fn: fn}
			r.Ob(rule, "rooms added")
			ok := false
			fnInstrs(fn, func(in ssa.Instruction) {
				m, isM := in.(*ssa.MapUpdate)
				if !isM {
					return
				}
				if c.Path(m.Key, e) == "$2" && c.Path(m.Value, e) == "append($0.subToRooms[],$3)" && onlyUnless(c, in, e, func(Cond) bool { return false }) {
					ok = true
				}
			})
			if !ok {
				r.Bad(rule, fn.Name(), p.Pos(fn.Pos()), "the rooms may not be added to the subscription")
			}
		}
		// building
		root := r.Fn(nBuildSubs)
		if root == nil {
			return
		}
		p.withOpaque(names{"sync3.(RoomSubscription).Combine"}, func() {
			c := p.chooser()
			combined := false
			for _, e := range p.contexts(root) {
				if fnPkg(e.fn) != fnPkg(root) {
					continue
				}
				for _, h := range headers(e.fn) {
					r.Ob(rule, "loop in "+e.fn.Name())
					combines := false
					for b := range loopBlocks(h) {
						for _, in := range b.Instrs {
							if cl := asCall(in); cl != nil && callName(cl) == "sync3.(RoomSubscription).Combine" {
								if innermostLoop(b) == h {
									combines, combined = true, true
								}
							}
						}
					}
					done := func(in ssa.Instruction) bool {
						if combines {
							cl := asCall(in)
							return cl != nil && callName(cl) == "sync3.(RoomSubscription).Combine"
						}
						switch x := in.(type) {
						case *ssa.MapUpdate:
							return true
						case *ssa.Call:
							return callName(&x.Call) == "builtin.append"
						}
						return false
					}
					start := func(cd Cond) bool { // the first subscription is taken as it is
						b, ok := cd.V.(*ssa.BinOp)
						if !ok || !combines || b.Op != token.EQL && b.Op != token.NEQ || cd.Pol != (b.Op == token.EQL) {
							return false
						}
						for _, v := range []ssa.Value{b.X, b.Y} {
							if k, isK := v.(*ssa.Const); isK && (k.Value == nil || k.Value.String() == "0") {
								return true
							}
						}
						return false
					}
					// a loop with inner loops: the turn itself does the work, or else one of them
					own := false
					for b := range loopBlocks(h) {
						for _, in := range b.Instrs {
							own = own || innermostLoop(b) == h && done(in)
						}
					}
					if c.skips(h, e, func(in ssa.Instruction) bool {
						if done(in) && (!own || innermostLoop(in.Block()) == h) {
							return true
						}
						ih := in.Block()
						return !own && ih != h && ih.Instrs[0] == in && isHeader(ih)
					}, start) {
						r.Bad(rule, e.fn.Name(), r.at(last(h)), "a room or subscription may be left out")
					}
					if b := breaks(h); b != nil {
						r.Bad(rule, e.fn.Name(), r.at(b), "the rooms or subscriptions after this one are left out")
					}
				}
			}
			if !combined {
				r.Bad(rule, root.Name(), p.Pos(root.Pos()), "the subscriptions to one room are not combined")
			}
		})
		// what is built is sent
		if croot := r.Fn("sync3/handler.(*ConnState).OnIncomingRequest"); croot != nil {
			p.withOpaque(names{nApply, nBuildSubs, "sync3/handler.(*ConnState).getInitialRoomData"}, func() {
				c := p.chooser()
				built := false
				for _, e := range p.contexts(croot) {
					for _, h := range headers(e.fn) {
						q := c.ranged(h, e)
						if !strings.HasPrefix(q, nBuildSubs+"(") || !strings.HasSuffix(q, ")") {
							continue
						}
						built = true
						r.Touch(e.fn)
						r.Ob(rule, "built subscriptions")
						isGet := func(in ssa.Instruction) bool {
							cl := asCall(in)
							return cl != nil && strings.HasSuffix(callName(cl), ".getInitialRoomData") && strings.HasSuffix(argPath(c, in, e, 2), "[].RoomSubscription")
						}
						none := func(cd Cond) bool {
							return c.emptyLen(cd, func(pa string) bool { return pa == q+"[].RoomIDs" })
						}
						if c.skips(h, e, isGet, none) {
							r.Bad(rule, e.fn.Name(), r.at(last(h)), "the rooms of a subscription may not be sent")
						}
						if b := breaks(h); b != nil {
							r.Bad(rule, e.fn.Name(), r.at(b), "the rooms of the subscriptions after this one are not sent")
						}
					}
				}
				if !built {
					r.Bad(rule, "anchor", p.Pos(croot.Pos()), "no loop over the built subscriptions")
				}
			})
		}
		r.Floor(rule, 6)
	})
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}
