package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P06", "the state served for a position is the snapshot before the last event up to it, with that event taken in", p06At)
}

func isInt64Slice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

// exhausted: the condition is that a loop has come to its end.
func exhausted(cd Cond) *ssa.BasicBlock {
	if cd.Pol {
		return nil
	}
	switch x := cd.V.(type) {
	case *ssa.BinOp:
		if h := x.Block(); isHeader(h) && wholeLoop(h) != nil && last(h) != nil {
			if iff, ok := last(h).(*ssa.If); ok && iff.Cond == ssa.Value(x) {
				return h
			}
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 0 && isHeader(nx.Block()) {
			return nx.Block()
		}
	}
	return nil
}

func p06At(r *Report) {
	const rule = "state-at-position"
	p := r.P
	root := r.Fn("state.(*Storage).RoomStateAfterEventPosition")
	if root == nil {
		return
	}
	const rn = "state.(*Storage).RoomStateAfterEventPosition"
	p.withOpaque(p06Tables(p), func() {
		c := p.chooser()
		// comparisons of two parts of events
		type isKey struct {
			v ssa.Value
			e *Env
			f string
		}
		memo := map[isKey]bool{}
		isPart := func(v ssa.Value, e *Env, f string) (res bool) {
			if f == "" {
				_, k := v.(*ssa.Const)
				return !k
			}
			if f == "0" {
				return isIntConst(v, 0)
			}
			k := isKey{v, e, f}
			if m, ok := memo[k]; ok {
				return m
			}
			memo[k] = false
			defer func() { memo[k] = res }()
			for _, s := range append(p.sources(v), v) {
				if isLoadOf(s, "state.Event", f) {
					return true
				}
				if fl, ok := s.(*ssa.Field); ok && typeName(fl.X.Type()) == "state.Event" && fieldName(fl.X.Type(), fl.Field) == f {
					return true
				}
			}
			return strings.HasSuffix(c.Path(v, e), "."+f)
		}
		cmp := func(cd Cond, a, b string, eq bool) bool {
			bo, ok := cd.V.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || (cd.Pol == (bo.Op == token.EQL)) != eq {
				return false
			}
			is := func(v ssa.Value, f string) bool { return isPart(v, cd.E, f) }
			return is(bo.X, a) && is(bo.Y, b) || is(bo.Y, a) && is(bo.X, b)
		}
		notState := func(cd Cond) bool { return !cd.Pol && p.stateKeyExists(cd.V) }
		isNID := func(v ssa.Value, e *Env) bool {
			for _, s := range append(p.sources(v), v) {
				if isLoadOf(s, "state.Event", "NID") {
					return true
				}
				if fl, ok := s.(*ssa.Field); ok && typeName(fl.X.Type()) == "state.Event" && fieldName(fl.X.Type(), fl.Field) == "NID" {
					return true
				}
			}
			return strings.HasSuffix(c.Path(v, e), ".NID")
		}
		takes := func(in ssa.Instruction, e *Env) bool {
			switch x := in.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				return ok && isInt64Slice(ia.X.Type()) && isNID(x.Val, e)
			case *ssa.Call:
				if callName(&x.Call) == "builtin.append" && isInt64Slice(x.Type()) {
					for _, el := range appendElems(x) {
						if isNID(el, e) {
							return true
						}
					}
				}
			}
			return false
		}
		envs := p.closureEnvs(root)
		onlyState := func(in ssa.Instruction, e *Env) bool {
			return c.knownAt(in, e, func(cd Cond) bool { return cd.Pol && p.stateKeyExists(cd.V) })
		}
		var absent CondGuard
		absent = func(cd Cond) bool {
			if contained(Cond{cd.V, !cd.Pol, cd.E}, "NID", isPart) {
				return true
			}
			if x := exhausted(cd); x != nil {
				for b := range loopBlocks(x) {
					if iff, ok := last(b).(*ssa.If); ok && b != x && (cmp(Cond{iff.Cond, true, cd.E}, "NID", "", true) || cmp(Cond{iff.Cond, true, cd.E}, "NID", "", false)) && innermost(b) == x {
						return true
					}
				}
			}
			if !cd.Pol {
				return foundBefore(c, Cond{cd.V, true, cd.E}, func(cd Cond) bool { return cmp(cd, "NID", "", true) })
			}
			return false
		}
		onlyOnce := func(in ssa.Instruction, e *Env) bool { return c.knownAt(in, e, absent) }
		for _, e := range envs {
			e := e
			fnInstrs(e.fn, func(in ssa.Instruction) {
				cl, ok := in.(*ssa.Call)
				if !ok || callName(&cl.Call) != "builtin.append" || !takes(in, e) {
					return
				}
				r.Ob(rule, "taken in once at "+r.at(in))
				if !onlyState(in, e) || !onlyOnce(in, e) {
					r.Bad(rule, rn+" repeated", r.at(in), "an event which is not state, or is there already, may be added to the state")
				}
			})
		}
		for _, e := range envs {
			e := e
			fnInstrs(e.fn, func(in ssa.Instruction) {
				cl := asCall(in)
				if cl == nil {
					return
				}
				switch callName(cl) {
				case "state.(*SnapshotTable).Select":
					r.Ob(rule, "snapshot "+siteName(in))
					r.Touch(e.fn)
					v, ve := cl.Args[len(cl.Args)-1], e
					for ve.up != nil {
						pr, ok := v.(*ssa.Parameter)
						if !ok || paramIndex(pr) >= len(ve.args) {
							break
						}
						v, ve = ve.args[paramIndex(pr)], ve.up
					}
					if constIndexed(v) || !strings.HasSuffix(c.Path(v, ve), ".BeforeStateSnapshotID") && !isLoadOf(v, "state.Event", "BeforeStateSnapshotID") && !fromField(p, v, "BeforeStateSnapshotID") {
						r.Bad(rule, rn+" base", r.at(in), "the state is not computed from the snapshot before the last event")
					}
					f := p.fwd(c, nil, func(cd Cond) bool {
						if notState(cd) || cmp(cd, "NID", "", true) || contained(cd, "NID", isPart) {
							return true
						}
						if b, ok := cd.V.(*ssa.BinOp); ok && (b.Op == token.GEQ && !cd.Pol && isIntConst(b.Y, 0) || b.Op == token.LSS && cd.Pol && isIntConst(b.Y, 0) || b.Op == token.EQL && cd.Pol && isIntConst(b.Y, -1) || b.Op == token.NEQ && !cd.Pol && isIntConst(b.Y, -1)) {
							if cl, ok := b.X.(*ssa.Call); ok && strings.Contains(callName(&cl.Call), "slices.Index") && isPart(cl.Call.Args[1], cd.E, "ReplacesNID") {
								return true
							}
						}
						if h := exhausted(cd); h != nil && wholeLoop(h) != nil && isInt64Slice(wholeLoop(h).Type()) {
							// every position of the snapshot was compared with the one replaced
							if c.skips(h, cd.E, func(in ssa.Instruction) bool { return takes(in, cd.E) }, func(x Cond) bool { return cmp(x, "ReplacesNID", "", false) }) {
								return false
							}
							for b := range loopBlocks(h) {
								if iff, ok := last(b).(*ssa.If); ok && b != h && (cmp(Cond{iff.Cond, true, cd.E}, "ReplacesNID", "", true) || cmp(Cond{iff.Cond, true, cd.E}, "ReplacesNID", "", false)) {
									return true
								}
							}
						}
						return false
					}, takes)
					after := func(f *fwd) ssa.Instruction {
						f.errs = true
						at, ae := in, e
						bad := f.after(at, ae)
						for bad != nil && ae.up != nil && ae.args != nil {
							at, ae = ae.site, ae.up
							bad = f.after(at, ae)
						}
						return bad
					}
					for _, part := range []string{"MembershipEvents", "OtherEvents"} {
						part := part
						if after(p.fwd(c, nil, nil, func(in ssa.Instruction, e *Env) bool {
							cl := asCall(in)
							if cl == nil || callName(cl) != "builtin.append" {
								return false
							}
							for _, a := range cl.Args {
								for _, s := range append(p.sources(a), a) {
									if isLoadOf(stripConv(s), "state.SnapshotRow", part) {
										return true
									}
								}
							}
							return false
						})) != nil {
							r.Bad(rule, rn+" "+part, r.at(in), "the "+part+" of the snapshot may be missing from the state")
						}
					}
					if after(f) != nil {
						r.Bad(rule, rn+" rolled", r.at(in), "the last event may be missing from the state although it is state")
					}
				case "state.(*EventTable).LatestEventInRooms":
					r.Ob(rule, "position "+siteName(in))
					if pa := c.Path(cl.Args[len(cl.Args)-1], e); pa != "$3" {
						r.Bad(rule, rn+" position", r.at(in), "the last events are looked up as of "+pa+", not the position asked for")
					}
					f := p.fwd(c, nil, func(cd Cond) bool {
						return c.emptyOf(cd, func(v ssa.Value, e *Env) bool { return fromCall(v, in) })
					}, func(x ssa.Instruction, e *Env) bool {
						cl := asCall(x)
						if cl == nil || callName(cl) != "builtin.append" {
							return false
						}
						for _, a := range cl.Args {
							if fromCall(a, in) {
								return true
							}
						}
						return false
					})
					f.errs = true
					if f.after(in, e) != nil {
						r.Bad(rule, rn+" slow", r.at(in), "the last events of rooms which have moved on may be left out")
					}
				}
			})
		}
		// what is noted about the last events is noted for each of them
		for _, e := range envs {
			e := e
			for _, h := range headers(e.fn) {
				w := wholeLoop(h)
				if w == nil {
					continue
				}
				body := loopBlocks(h)
				each := func(what, msg string, done func(ssa.Instruction) bool, g CondGuard) {
					any := false
					for b := range body {
						for _, in := range b.Instrs {
							if done(in) && innermost(b) == h {
								any = true
							}
						}
					}
					if !any {
						return
					}
					r.Ob(rule, what)
					f := p.fwd(c, nil, nil, nil)
					f.errs = true
					if c.skips(h, e, done, func(cd Cond) bool { return g != nil && g(cd) }) || f.leaves(h, e) {
						r.Bad(rule, rn+" "+what, r.at(last(h)), msg)
					}
				}
				if sl, ok := w.Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "state.Event" {
					each("snapshots asked for", "the snapshot before the last event of a room may not be looked at", func(in ssa.Instruction) bool {
						switch x := in.(type) {
						case *ssa.Store:
							ia, ok := x.Addr.(*ssa.IndexAddr)
							return ok && isInt64Slice(ia.X.Type()) && fromField(p, x.Val, "BeforeStateSnapshotID")
						case *ssa.Call:
							if callName(&x.Call) == "builtin.append" && isInt64Slice(x.Type()) {
								for _, el := range appendElems(x) {
									if fromField(p, el, "BeforeStateSnapshotID") {
										return true
									}
								}
							}
						}
						return false
					}, nil)
					each("rooms indexed", "the last event of a room may not be found", func(in ssa.Instruction) bool {
						mu, ok := in.(*ssa.MapUpdate)
						return ok && strings.HasSuffix(mu.Map.Type().Underlying().String(), "map[string]int")
					}, nil)
					each("initial state", "the state of a room whose last event came with its initial state may not be found", func(in ssa.Instruction) bool {
						cl := asCall(in)
						return cl != nil && callName(cl) == "state.(*RoomsTable).CurrentAfterSnapshotID"
					}, func(cd Cond) bool { return cmp(cd, "BeforeStateSnapshotID", "0", false) })
				}
				each("keys asked for", "a state key asked for may not be looked up", func(in ssa.Instruction) bool {
					cl, ok := in.(*ssa.Call)
					if !ok || callName(&cl.Call) != "builtin.append" || innermostOf(h) == nil {
						return false
					}
					for _, el := range appendElems(cl) {
						if k, ok := el.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.String(), "state_key = ?") {
							return true
						}
					}
					return false
				}, nil)
			}
		}
		// which rooms can be answered from the rooms table
		n := 0
		for _, e := range envs {
			e := e
			fnInstrs(e.fn, func(in ssa.Instruction) {
				cl, ok := in.(*ssa.Call)
				if !ok || callName(&cl.Call) != "builtin.append" || !isInt64Slice(cl.Type()) {
					return
				}
				for _, el := range appendElems(cl) {
					if !strings.HasPrefix(c.Path(el, e), "state.(*RoomsTable).LatestNIDs(") {
						continue
					}
					n++
					r.Ob(rule, "fast rooms")
					if !c.knownAt(in, e, func(cd Cond) bool {
						b, ok := cd.V.(*ssa.BinOp)
						if !ok {
							return false
						}
						x, y, op := c.Path(b.X, cd.E), c.Path(b.Y, cd.E), b.Op
						if x == "$3" {
							x, y = y, x
							op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
						}
						if y != "$3" || !strings.HasPrefix(x, "state.(*RoomsTable).LatestNIDs(") {
							return false
						}
						return op == token.GTR && !cd.Pol || op == token.LEQ && cd.Pol || op == token.LSS && cd.Pol || op == token.GEQ && !cd.Pol
					}) {
						r.Bad(rule, rn+" fast", r.at(in), "the room's last event is used although it may lie beyond the position asked for")
					}
				}
			})
		}
		// the query for some of the state: the last event stands in for the one it replaced, or is added
		for _, e := range envs {
			e := e
			for _, h := range headers(e.fn) {
				body := loopBlocks(h)
				rows, add := false, false
				for b := range body {
					for _, in := range b.Instrs {
						if cl := asCall(in); cl != nil && strings.HasSuffix(callName(cl), "Rows).Scan") {
							rows = true
						}
						if mu, ok := in.(*ssa.MapUpdate); ok && strings.HasSuffix(typeElem(mu.Map.Type()), "state.Event") {
							add = true
						}
					}
				}
				if !add {
					continue
				}
				adds := func(in ssa.Instruction) bool {
					mu, ok := in.(*ssa.MapUpdate)
					return ok && strings.HasSuffix(typeElem(mu.Map.Type()), "state.Event")
				}
				errCond := func(cd Cond) bool {
					b, ok := cd.V.(*ssa.BinOp)
					return ok && (isErr(b.X) || isErr(b.Y)) && cd.Pol == (b.Op == token.NEQ)
				}
				if rows {
					r.Ob(rule, "queried events kept")
					if c.skips(h, e, adds, errCond) {
						r.Bad(rule, rn+" rows", r.at(last(h)), "an event of the state may be left out of the answer")
					}
					r.Ob(rule, "replaced event")
					rep := func(in ssa.Instruction) bool {
						st, ok := in.(*ssa.Store)
						if !ok || typeName(st.Val.Type()) != "state.Event" {
							return false
						}
						u, ok := st.Val.(*ssa.UnOp)
						if !ok {
							return false
						}
						_, ok = u.X.(*ssa.IndexAddr)
						return ok
					}
					direct := false
					for b := range body {
						for _, in := range b.Instrs {
							direct = direct || rep(in)
						}
					}
					if c.skips(h, e, rep, anyCond(errCond, func(cd Cond) bool { return cmp(cd, "ReplacesNID", "NID", false) })) {
						r.Bad(rule, rn+" replaced", r.at(last(h)), "an event which the last one replaced may be served instead of it")
					}
					continue
				}
				if wholeLoop(h) == nil {
					continue
				}
				// the loop over the last events: a new state event is added
				uses := false
				for b := range body {
					if iff, ok := last(b).(*ssa.If); ok && (cmp(Cond{iff.Cond, true, e}, "ReplacesNID", "0", true) || cmp(Cond{iff.Cond, true, e}, "ReplacesNID", "0", false)) {
						uses = true
					}
				}
				if !uses || innermostOf(h) != nil {
					continue
				}
				r.Ob(rule, "new state event added")
				n++
				for b := range body {
					for _, in := range b.Instrs {
						mu, ok := in.(*ssa.MapUpdate)
						if !ok || !adds(in) {
							continue
						}
						// the state of a room put in as a whole is judged where it is put together
						if cl, ok := mu.Value.(*ssa.Call); !ok || callName(&cl.Call) != "builtin.append" || len(appendElems(cl)) == 0 {
							continue
						}
						if !(onlyState(in, e) && onlyOnce(in, e)) {
							r.Bad(rule, rn+" repeated", r.at(in), "an event which is not state, or is there already, may be added to the state")
						}
					}
				}
				for x := range body {
					if x == h || !isHeader(x) {
						continue
					}
					// the filters: an event which matches one is added
					any := false
					for _, b := range x.Parent().Blocks {
						for _, t := range x.Succs {
							any = any || loopBlocks(x)[t] && t.Dominates(b) && body[b] && anyIn(b, adds)
						}
					}
					if any && c.skips(x, e, adds, func(cd Cond) bool {
						if cmp(cd, "Type", "", false) || cmp(cd, "StateKey", "", false) {
							return true
						}
						y := exhausted(cd)
						return y != nil && y != x && loopBlocks(x)[y]
					}) {
						r.Bad(rule, rn+" filter", r.at(last(x)), "a new state event which was asked for may be missing from the state")
					}
				}
				if c.skips(h, e, adds, func(cd Cond) bool {
					if errCond(cd) || notState(cd) || cmp(cd, "ReplacesNID", "0", false) || cmp(cd, "NID", "", true) || cmp(cd, "Type", "", false) || cmp(cd, "StateKey", "", false) {
						return true
					}
					if x := exhausted(cd); x != nil && x != h && (body[x] || x.Parent() != h.Parent()) {
						// none of the filters matches
						for b := range loopBlocks(x) {
							if iff, ok := last(b).(*ssa.If); ok && b != x {
								for _, f := range []string{"Type", "StateKey"} {
									if cmp(Cond{iff.Cond, true, cd.E}, f, "", true) || cmp(Cond{iff.Cond, true, cd.E}, f, "", false) {
										return true
									}
								}
							}
						}
						return false
					}
					if ex, ok := cd.V.(*ssa.Extract); ok && !cd.Pol && ex.Index == 1 {
						if lk, ok := ex.Tuple.(*ssa.Lookup); ok && isPart(lk.Index, cd.E, "Type") {
							return true
						}
					}
					if contained(cd, "NID", isPart) {
						return true
					}
					if cl, ok := cd.V.(*ssa.Call); ok && !cd.Pol && strings.Contains(callName(&cl.Call), "slices.Contains") && len(cl.Call.Args) == 2 && isPart(cl.Call.Args[1], cd.E, "StateKey") {
						return true
					}
					return foundBefore(c, cd, func(cd Cond) bool { return cmp(cd, "NID", "", true) })
				}) {
					r.Bad(rule, rn+" added", r.at(last(h)), "a new state event may be missing from the state")
				}
			}
		}
	})
	r.Floor(rule, 6)
}

// typeElem: the element type of a map of slices.
func typeElem(t types.Type) string {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	sl, ok := m.Elem().Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	return typeName(sl.Elem())
}

// innermostOf: the loop directly around the loop with header h.
func innermostOf(h *ssa.BasicBlock) *ssa.BasicBlock {
	for _, g := range headers(h.Parent()) {
		if g != h && loopBlocks(g)[h] {
			return g
		}
	}
	return nil
}

// foundBefore: the condition is a flag which is set only when g.
func foundBefore(c *chooser, cd Cond, g CondGuard) bool {
	ph, ok := cd.V.(*ssa.Phi)
	if !ok || !cd.Pol {
		return false
	}
	any := false
	for _, ch := range c.Of(ph, nil, cd.E) {
		if ch.Path == "true" {
			if !ch.When(g) {
				return false
			}
			any = true
		} else if ch.Path != "false" {
			return false
		}
	}
	return any
}

// fromField: v is only ever that field of an event.
func fromField(p *Prog, v ssa.Value, f string) bool {
	for _, s := range p.sources(v) {
		if isLoadOf(s, "state.Event", f) {
			return true
		}
		if fl, ok := s.(*ssa.Field); ok && fieldName(fl.X.Type(), fl.Field) == f {
			return true
		}
	}
	return false
}

// fromCall: v is the (first) result of the call, perhaps converted.
func fromCall(v ssa.Value, call ssa.Instruction) bool {
	switch x := stripConv(v).(type) {
	case *ssa.Call:
		return ssa.Instruction(x) == call
	case *ssa.Extract:
		cl, ok := x.Tuple.(*ssa.Call)
		return ok && ssa.Instruction(cl) == call
	}
	return false
}

func anyIn(b *ssa.BasicBlock, f func(ssa.Instruction) bool) bool {
	for _, in := range b.Instrs {
		if f(in) {
			return true
		}
	}
	return false
}

// innermost: the header of the innermost loop which b is in.
func innermost(b *ssa.BasicBlock) *ssa.BasicBlock {
	var res *ssa.BasicBlock
	for _, h := range headers(b.Parent()) {
		if loopBlocks(h)[b] && (res == nil || loopBlocks(res)[h]) {
			res = h
		}
	}
	return res
}

// constIndexed: v is part of a certain element of a collection.
func constIndexed(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.IndexAddr:
			_, ok := x.Index.(*ssa.Const)
			return ok
		default:
			return false
		}
	}
	return false
}

// contained: the condition is that a collection has the part of an event in it.
func contained(cd Cond, part string, isPart func(ssa.Value, *Env, string) bool) bool {
	cl, ok := cd.V.(*ssa.Call)
	return ok && cd.Pol && strings.Contains(callName(&cl.Call), "slices.Contains") && len(cl.Call.Args) == 2 && isPart(cl.Call.Args[1], cd.E, part)
}
