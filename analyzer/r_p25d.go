package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nApply     = "sync3.(*Request).ApplyDelta"
	nAssign    = "sync3.(*InternalRequestLists).AssignList"
	nDelete    = "sync3.(*InternalRequestLists).DeleteList"
	nAddRooms  = "sync3/handler.(*RoomsBuilder).AddRoomsToSubscription"
	nAddSub    = "sync3/handler.(*RoomsBuilder).AddSubscription"
	nBuildSubs = "sync3/handler.(*RoomsBuilder).BuildSubscriptions"
	nFiltersCh = "sync3.(*RequestList).FiltersChanged"
	nSortCh    = "sync3.(*RequestList).SortOrderChanged"
	nLimitCh   = "sync3.(*RequestList).TimelineLimitChanged"
	nStateCh   = "sync3.(RoomSubscription).RequiredStateChanged"
	nSortList  = "sync3.(*SortableRooms).Sort"
)

// always: the instruction is what is wanted, or a call which always leads to it (unless the condition is found true).
func (c *chooser) always(in ssa.Instruction, e *Env, g CondGuard, want func(in ssa.Instruction, e *Env) bool) bool {
	if want(in, e) {
		return true
	}
	cl, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	ne := e.enter(&cl.Call, cl)
	if ne == nil || fnPkg(ne.fn) != fnPkg(e.fn) {
		return false
	}
	// every way through the callee
	seen := map[*ssa.BasicBlock]bool{}
	res, hit := true, false
	k := c.guard(func(cd Cond) bool { return g != nil && g(cd) }, ne)
	var fwd func(b *ssa.BasicBlock)
	fwd = func(b *ssa.BasicBlock) {
		for _, i := range b.Instrs {
			if c.always(i, ne, g, want) {
				hit = true
				return
			}
			if _, isR := i.(*ssa.Return); isR {
				res = false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && !k.cuts(b, s, nil, 0) {
				seen[s] = true
				fwd(s)
			}
		}
	}
	fwd(ne.fn.Blocks[0])
	return res && hit
}

func argPath(c *chooser, in ssa.Instruction, e *Env, i int) string {
	cl := asCall(in)
	if cl == nil || i >= len(cl.Args) {
		return ""
	}
	return c.Path(cl.Args[i], e)
}

func init() {
	reg("P25", "every change a request makes to the lists and subscriptions is carried out", func(r *Report) {
		const rule = "served"
		p := r.P
		root := r.Fn("sync3/handler.(*ConnState).OnIncomingRequest")
		if root == nil {
			return
		}
		opq := names{nApply, nAssign, nDelete, nAddRooms, nAddSub, nBuildSubs, nFiltersCh, nSortCh, nLimitCh, nStateCh, nSortList,
			"sync3.(SliceRanges).Delta", "sync3.(SliceRanges).SliceInto", "sync3.(*SortableRooms).RoomIDs", "sync3.(*FilteredSortableRooms).RoomIDs"}
		p.withOpaque(opq, func() {
			c := p.chooser()
			envs := p.contexts(root)
			self := "ConnState.OnIncomingRequest"
			muxed := nApply + "($0.muxedReq,$3)"
			delta := muxed + "#1"
			// the request is applied on top of the earlier ones
			r.Ob(rule, "sticky request")
			kept := false
			for _, e := range envs {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok || !isFieldAddr(st.Addr, "sync3/handler.ConnState", "muxedReq") {
						return
					}
					if pa := c.Path(st.Val, e); pa != muxed {
						r.Bad(rule, self, r.at(in), "the request is not applied on top of the earlier ones ("+pa+")")
					}
					kept = true
				})
			}
			if !kept {
				r.Bad(rule, self, p.Pos(root.Pos()), "what the request asks for is not remembered")
			}
			type loop struct {
				h *ssa.BasicBlock
				e *Env
			}
			over := func(path string) []loop {
				var out []loop
				for _, e := range envs {
					for h, q := range c.loops(e) {
						if q == path {
							out = append(out, loop{h, e})
						}
					}
				}
				return out
			}
			// each: some loop goes through all of them and does this for each
			each := func(path, what, miss string, done func(in ssa.Instruction, e *Env) bool, unless CondGuard) {
				r.Ob(rule, what)
				why, at := "there is no loop over "+path[strings.LastIndex(path, ".")+1:], p.Pos(root.Pos())
				for _, l := range over(path) {
					hit := false
					for b := range loopBlocks(l.h) {
						for _, in := range b.Instrs {
							if c.always(in, l.e, unless, done) {
								hit = true
							}
						}
					}
					if !hit {
						continue
					}
					r.Touch(l.e.fn)
					if b := breaks(l.h); b != nil {
						why, at = "those after this one are left out", r.at(b)
						continue
					}
					if unless == nil {
						unless = func(Cond) bool { return false }
					}
					if c.skips(l.h, l.e, func(in ssa.Instruction) bool { return c.always(in, l.e, unless, done) }, unless) {
						why, at = "one may be left out", r.at(last(l.h))
						continue
					}
					return
				}
				r.Bad(rule, what, at, miss+": "+why)
			}
			isCallTo := func(in ssa.Instruction, n string) bool {
				cl, ok := in.(*ssa.Call)
				return ok && callName(&cl.Call) == n
			}
			notJoined := func(cd Cond) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && !cd.Pol && strings.HasSuffix(callName(&cl.Call), "IsUserJoined")
			}
			noInfo := func(cd Cond) bool { return c.holds(cd, muxed+".RoomSubscriptions[]?", false) }
			each(delta+".Subs", "new subscription", "the rooms of a new subscription are not sent", func(in ssa.Instruction, e *Env) bool {
				return isCallTo(in, nAddRooms)
			}, func(cd Cond) bool { return notJoined(cd) || noInfo(cd) })
			each(delta+".Subs", "subscription kept", "a new subscription is not kept", func(in ssa.Instruction, e *Env) bool {
				m, ok := isMapUpdate(in, "sync3.RoomSubscription")
				return ok && c.Path(m.Map, e) == "$0.roomSubscriptions" && c.Path(m.Key, e) == delta+".Subs[]" && c.Path(m.Value, e) == muxed+".RoomSubscriptions[]"
			}, func(cd Cond) bool { return notJoined(cd) || noInfo(cd) })
			each(delta+".Unsubs", "unsubscription", "a subscription continues after it is removed", func(in ssa.Instruction, e *Env) bool {
				return isCallTo(in, "builtin.delete") && argPath(c, in, e, 0) == "$0.roomSubscriptions" && argPath(c, in, e, 1) == delta+".Unsubs[]"
			}, nil)
			gone := func(cd Cond) bool { return c.is(cd, delta+".Lists[].Curr", "nil") }
			each(delta+".Lists", "list", "a list of the request is not served", func(in ssa.Instruction, e *Env) bool {
				return isCallTo(in, nAssign) && argPath(c, in, e, 2) == delta+".Lists{}"
			}, gone)
			each(delta+".Lists", "deleted list", "a list goes on after it is deleted", func(in ssa.Instruction, e *Env) bool {
				return isCallTo(in, nDelete) && argPath(c, in, e, 1) == delta+".Lists{}"
			}, func(cd Cond) bool { return c.isNot(cd, delta+".Lists[].Curr", "nil") })

			// lists
			var le *Env
			for _, e := range envs {
				n := 0
				fnInstrs(e.fn, func(in ssa.Instruction) {
					if isCallTo(in, nAssign) {
						n++
					}
				})
				if n > 0 && e.up != nil {
					for x := e; x.up != nil; x = x.up {
						for _, l := range over(delta + ".Lists") {
							if l.e == x.up && loopBlocks(l.h)[x.site.Block()] {
								le = x
							}
						}
					}
				}
			}
			if le == nil {
				r.Bad(rule, "anchor", p.Pos(root.Pos()), "no function serves a list")
				return
			}
			next := delta + ".Lists[].Curr"
			under := func(e *Env) bool {
				for x := e; x != nil; x = x.up {
					if x == le {
						return true
					}
				}
				return false
			}
			changed := func(n string, pol bool) CondGuard {
				return func(cd Cond) bool {
					cl, ok := cd.V.(*ssa.Call)
					return ok && cd.Pol == pol && callName(&cl.Call) == n
				}
			}
			isNew := func(cd Cond) bool {
				pa := c.Path(cd.V, cd.E)
				return cd.Pol && strings.HasPrefix(pa, nAssign+"(") && strings.HasSuffix(pa, "#1")
			}
			fresh := func(pa string) bool { // a list made with the filters of the request
				return strings.HasPrefix(pa, nAssign+"(") && (strings.HasSuffix(pa, next+".Filters,"+next+".Sort,true)") || strings.HasSuffix(pa, next+".Filters,"+next+".Sort,global:Overwrite)"))
			}
			maybe := func(pa string) bool {
				return strings.HasPrefix(pa, nAssign+"(") && (strings.HasSuffix(pa, next+".Filters,"+next+".Sort,false)") || strings.HasSuffix(pa, next+".Filters,"+next+".Sort,global:DoNotOverwrite)"))
			}
			rebuilt := func(v ssa.Value, e *Env, who string, at ssa.Instruction) {
				r.Ob(rule, "the list is made with the filters of the request")
				for _, ch := range c.Of(v, nil, e) {
					switch {
					case fresh(ch.Path):
					case maybe(ch.Path):
						ok := ch.When(func(cd Cond) bool { return changed(nFiltersCh, false)(cd) || isNew(cd) })
						if !ok {
							ok = c.knownAt(at, e, changed(nFiltersCh, false)) || c.knownAt(at, e, isNew)
						}
						if !ok {
							r.Bad(rule, who, r.at(at), "the rooms may be those of the list made with earlier filters")
						}
					default:
						r.Bad(rule, who, r.at(at), "the rooms are not those of the list ("+ch.Path+")")
					}
				}
			}
			for _, e := range envs {
				if !under(e) {
					continue
				}
				e := e
				who := e.fn.Name()
				r.Touch(e.fn)
				fnInstrs(e.fn, func(in ssa.Instruction) {
					cl, ok := in.(*ssa.Call)
					if !ok {
						return
					}
					switch callName(&cl.Call) {
					case nAddRooms:
						// what is sent
						ids := cl.Call.Args[3]
						for _, s := range c.p.sources(ids) {
							x, ok := s.(*ssa.Call)
							if !ok || !strings.HasSuffix(callName(&x.Call), "RoomIDs") {
								continue
							}
							switch callName(&x.Call) {
							case "sync3.(*FilteredSortableRooms).RoomIDs", "sync3.(*SortableRooms).RoomIDs":
								base := x.Call.Args[0]
								if t := typeName(base.Type()); t == "sync3.FilteredSortableRooms" {
									rebuilt(base, e, who, in)
								}
							}
						}
					case "sync3.(SliceRanges).SliceInto":
						l := stripIface(cl.Call.Args[1])
						rebuilt(l, e, who, in)
					}
				})
				// the ranges which are sent
				for _, h := range headers(e.fn) {
					var coll ssa.Value
					for _, in := range h.Instrs {
						if b, ok := in.(*ssa.BinOp); ok {
							if x, ok := b.Y.(*ssa.Call); ok && callName(&x.Call) == "builtin.len" && typeName(x.Call.Args[0].Type()) == "sync3.SliceRanges" {
								coll = x.Call.Args[0]
							}
						}
					}
					if coll == nil {
						continue
					}
					adds := false
					for b := range loopBlocks(h) {
						for _, in := range b.Instrs {
							adds = adds || c.always(in, e, nil, func(in ssa.Instruction, _ *Env) bool { return isCallTo(in, nAddRooms) })
						}
					}
					if !adds {
						continue
					}
					r.Ob(rule, "ranges sent")
					for _, ch := range c.Of(coll, nil, e) {
						switch {
						case ch.Path == next+".Ranges":
						case strings.HasPrefix(ch.Path, "sync3.(SliceRanges).Delta(") && strings.HasSuffix(ch.Path, ","+next+".Ranges)"):
							ok := func(g CondGuard) bool { return ch.When(g) || c.knownAt(last(h), e, g) }
							if !ok(changed(nFiltersCh, false)) || !ok(changed(nSortCh, false)) {
								r.Bad(rule, who, r.at(last(h)), "only the ranges which were added are sent although the sort order or the filters changed")
							}
						default:
							r.Bad(rule, who, r.at(last(h)), "the ranges which are sent are not those of the request ("+ch.Path+")")
						}
					}
					empty := func(cd Cond) bool {
						return c.emptyLen(cd, func(pa string) bool { return strings.HasPrefix(pa, "sync3.(SliceRanges).SliceInto(") })
					}
					if b := breaks(h); b != nil {
						r.Bad(rule, who, r.at(b), "the ranges after this one are not sent")
					}
					if c.skips(h, e, func(in ssa.Instruction) bool {
						return c.always(in, e, nil, func(in ssa.Instruction, _ *Env) bool { return isCallTo(in, nAddRooms) })
					}, empty) {
						r.Bad(rule, who, r.at(last(h)), "the rooms of a range may not be sent")
					}
				}
			}
			// on every way through: a change is followed by what it calls for
			const bOver, bNew, bNoFilter, bNoSort, bSorted, bNoLimit, bNoState, bNoPrev, bSub2, bSub1, bGetAll, bAll = 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048
			n := 0
			badAt := map[string]bool{}
			r.Path(PathRule{Rule: rule, Root: le.fn, Calls: []string{nAssign, nSortList, nAddSub, nAddRooms},
				Stop: func(f *ssa.Function) bool { return relPkg(pkgPath(f)) == "sync3" },
				Inl: func(f *ssa.Function) bool {
					return relPkg(pkgPath(f)) == "sync3/handler" && f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == "sync3/handler.ConnState"
				},
				On: func(ev Ev) Action {
					switch ev.Name {
					case nAssign:
						if s := ev.arg(5).String(); s == "sync3.Overwrite" || s == "true" {
							ev.S.Bits |= bOver
						}
					case nSortList:
						ev.S.Bits |= bSorted
					case nAddRooms:
						if t := ev.arg(3); t.Op == "call" && strings.HasSuffix(t.Name, ".RoomIDs") && t.Find(func(t *Term) bool { return t.HasCall("SliceInto") }) == nil {
							ev.S.Bits |= bAll
						}
					case nAddSub:
						if ev.S.Bits&bSub1 != 0 {
							ev.S.Bits |= bSub2
						}
						ev.S.Bits |= bSub1
					}
					return Go
				},
				Lit: func(x *Explorer, s *State, l Lit) {
					a := l.Atom

					if a.Op == "call" && l.Pol && strings.HasSuffix(a.Name, ".ShouldGetAllRooms") {
						s.Bits |= bGetAll
					}
					if a.Op == "call" && !l.Pol {
						switch a.Name {
						case nFiltersCh:
							s.Bits |= bNoFilter
						case nSortCh:
							s.Bits |= bNoSort
						case nLimitCh:
							s.Bits |= bNoLimit
						case nStateCh:
							s.Bits |= bNoState
						}
					}
					if st := a.String(); l.Pol && strings.HasPrefix(st, nAssign+"(") && strings.HasSuffix(st, "#1") {
						s.Bits |= bNew
					}
					if a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "param" && l.Pol {
						if pt, ok := paramType(le.fn, a.Args[0].Name); ok && typeName(pt) == "sync3.RequestList" {
							s.Bits |= bNoPrev
						}
					}
				},
				Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
					if kind != ExitReturn {
						return
					}
					n++
					b := s.Bits
					has := func(m uint64) bool { return b&m != 0 }
					if !has(bNoFilter | bOver | bNew) {
						badAt["a list is not made again although its filters may have changed"] = true
					}
					if !has(bNoSort | bSorted | bOver | bNew) {
						badAt["a list is not sorted again although its sort order may have changed"] = true
					}
					if has(bGetAll) && (!has(bNoFilter) || has(bNew)) && !has(bAll) {
						badAt["not all rooms are sent for a list which gets all rooms"] = true
					}
					if !has(bSub1) {
						badAt["the rooms of the list are not requested"] = true
					}
					if !has(bNew|bOver|bSorted|bNoPrev|bSub2) && !(has(bNoLimit) && has(bNoState)) {
						badAt["the rooms are not sent again although the timeline limit or required state may have changed"] = true
					}
				}})
			for k := range badAt {
				r.Bad(rule, le.fn.Name(), p.Pos(le.fn.Pos()), k)
			}
			r.Ob(rule, "ways through "+le.fn.Name())
			if n == 0 {
				r.Bad(rule, le.fn.Name(), p.Pos(le.fn.Pos()), "no way through")
			}
			// what the subscription says
			for _, e := range envs {
				if !under(e) {
					continue
				}
				fnInstrs(e.fn, func(in ssa.Instruction) {
					if !isCallTo(in, nAddSub) {
						return
					}
					v := asCall(in).Args[1]
					sub := p.namedType(r, "sync3.RoomSubscription")
					for _, f := range []struct{ f, n string }{{"TimelineLimit", nLimitCh}, {"RequiredState", nStateCh}} {
						r.Ob(rule, "requested "+f.f)
						for _, ch := range c.Of(v, []string{f.f}, e) {
							if strings.HasPrefix(ch.Path, next+".") && strings.HasSuffix(ch.Path, "."+f.f) {
								continue
							}
							if (ch.Path == "zero" || ch.Path == "nil" || ch.Path == unset(fieldType(sub, []string{f.f}))) && ch.When(changed(f.n, false)) {
								continue
							}
							r.Bad(rule, e.fn.Name(), r.at(in), f.f+" of the request is not used for the rooms of the list ("+ch.Path+")")
						}
					}
				})
			}
		})
		r.Floor(rule, 12)
	})
}

func paramType(fn *ssa.Function, i string) (types.Type, bool) {
	for k, pr := range fn.Params {
		if fmt.Sprint(k) == i {
			return pr.Type(), true
		}
	}
	return nil, false
}

// emptyLen: the condition is that the collection is empty.
func (c *chooser) emptyLen(cd Cond, of func(path string) bool) bool {
	b, ok := cd.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := b.X, b.Y, b.Op
	if _, isK := x.(*ssa.Const); isK {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	k, isK := y.(*ssa.Const)
	pa := c.Path(x, cd.E)
	if !isK || k.Value == nil || !strings.HasPrefix(pa, "len(") || !of(pa[4:len(pa)-1]) {
		return false
	}
	switch n := k.Value.String(); {
	case op == token.EQL && n == "0", op == token.LSS && n == "1", op == token.LEQ && n == "0":
		return cd.Pol
	case op == token.NEQ && n == "0", op == token.GEQ && n == "1", op == token.GTR && n == "0":
		return !cd.Pol
	}
	return false
}
