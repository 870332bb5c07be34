package main

import (
	"go/token"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P13", "the first new event of a limited timeline is marked as having unknown predecessors, on the very copy which is stored, and a timeline's pagination token is attached to the first event kept", p13Gap)
	reg("P13", "loading a timeline stops at the first event with unknown predecessors, and its pagination token belongs to the oldest event loaded; every limited query states which rows it wants", p13Load)
	reg("P13", "a connection's position in a room only moves forward, an event is sent live exactly when it lies beyond that position, and loading a timeline moves the position to the newest event loaded", p13Position)
}

// bypass: there is a path from block a to block b which avoids the given block and crosses no edge excused by the guard.
func (p *Prog) bypass(a, b, avoid *ssa.BasicBlock, excuse Guard) bool {
	k := &guardCk{p: p, g: excuse, stack: map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == avoid || seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if excuse != nil && k.cuts(x, s, nil, 0) {
				continue
			}
			if s == b && s != avoid {
				return true
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// loopBody: the blocks entered from the loop header which lead back to it.
func loopBody(h *ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, s := range h.Succs {
		if s != h && h.Dominates(s) && reachesWithout(s, h, nil) {
			out = append(out, s)
		}
	}
	return out
}

// bases: the arrays the slice v may share, looking through reslicing, appending, results and parameters.
func (p *Prog) bases(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		for _, s := range p.sources(v) {
			if seen[s] || d > 10 {
				continue
			}
			seen[s] = true
			switch x := s.(type) {
			case *ssa.Slice:
				walk(x.X, d+1)
				continue
			case *ssa.Const:
				continue
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(x.Call.Args[0], d+1)
					continue
				}
			case *ssa.Parameter:
				n := 0
				for _, st := range p.sitesOf(x.Parent()) {
					if c := asCall(st); c != nil && c.StaticCallee() == x.Parent() {
						n++
						walk(c.Args[paramIndex(x)], d+1)
					}
				}
				if n > 0 {
					continue
				}
			}
			out[s] = true
		}
	}
	walk(v, 0)
	return out
}

func p13Gap(r *Report) {
	const rule = "gap-mark"
	fn := r.Fn("state.(*Accumulator).Accumulate")
	if fn == nil {
		return
	}
	const lim, nolim, known, unknown, marked = 1, 2, 4, 8, 16
	var insArg, markBase []ssa.Value
	r.Path(PathRule{Rule: rule, Root: fn, Calls: []string{"state.(*EventTable).Insert"}, Inst: fieldStore("state.Event", "MissingPrevious"),
		Stop: func(f *ssa.Function) bool { return shortName(f) == "state.(*EventTable).Insert" },
		Lit: func(x *Explorer, s *State, l Lit) {
			t := l.Atom.String()
			switch {
			case strings.HasSuffix(t, ".Limited"):
				if l.Pol {
					s.Bits |= lim
				} else {
					s.Bits |= nolim
				}
			case l.Atom.Op == "eq" && strings.Count(t, ".ID") >= 2:
				if l.Pol {
					s.Bits |= unknown
				} else {
					s.Bits |= known
				}
			}
		},
		On: func(e Ev) Action {
			if st, ok := e.In.(*ssa.Store); ok {
				fa := st.Addr.(*ssa.FieldAddr)
				ia, ok := fa.X.(*ssa.IndexAddr)
				if !ok {
					return Go
				}
				r.Ob(rule, "mark")
				markBase = append(markBase, ia.X)
				t := e.X.Term(e.S, mkCV(e.S.ctx, st.Val))
				if e.S.Bits&lim == 0 {
					r.Bad(rule, "mark", r.at(e.In), "an event is marked as missing its predecessors although the timeline may not be limited", e.S.Trace()...)
				}
				if k, isC := ia.Index.(*ssa.Const); !isC || k.Int64() != 0 {
					r.Bad(rule, "mark", r.at(e.In), "an event other than the first is marked as missing its predecessors", e.S.Trace()...)
				}
				ok = t.Op == "eq" && strings.Count(t.String(), ".ID") >= 2 || t.IsConst("true") && e.S.Bits&unknown != 0
				if !ok {
					r.Bad(rule, "mark", r.at(e.In), "the mark is "+t.String()+" rather than whether the first event is new", e.S.Trace()...)
				}
				e.S.Bits |= marked
				return Go
			}
			if e.S.Bits&marked == 0 && asCall(e.In) != nil {
				r.Ob(rule, "insert")
				insArg = append(insArg, asCall(e.In).Args[2])
				if e.S.Bits&(nolim|known) == 0 {
					r.Bad(rule, "insert", r.at(e.In), "events of a limited timeline are stored without marking the gap before them", e.S.Trace()...)
				}
			} else {
				r.Ob(rule, "insert")
				insArg = append(insArg, asCall(e.In).Args[2])
			}
			return Go
		}})
	for _, a := range insArg {
		ba := r.P.bases(a)
		for _, m := range markBase {
			bm := r.P.bases(m)
			for x := range ba {
				if !bm[x] {
					r.Bad(rule, "copy", r.P.Pos(fn.Pos()), "the gap is marked on a copy of the events which is not the one stored ("+describeVal(r.P, x)+")")
				}
			}
		}
	}
	r.Floor(rule, 3)

	const rule2 = "token-tag"
	lenZero := func(cond ssa.Value, pol bool, v ssa.Value) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		for i, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			c, ok := pr[0].(*ssa.Call)
			if !ok || callName(&c.Call) != "builtin.len" || !strings.HasSuffix(c.Call.Args[0].Type().String(), "state.Event") {
				continue
			}
			k, isC := pr[1].(*ssa.Const)
			if !isC || k.Value == nil {
				continue
			}
			switch {
			case k.Int64() == 0 && b.Op == token.EQL:
				return pol
			case k.Int64() == 0 && b.Op == token.NEQ:
				return !pol
			case k.Int64() == 0 && (b.Op == token.GTR && i == 0 || b.Op == token.LSS && i == 1):
				return !pol
			case k.Int64() == 1 && (b.Op == token.LSS && i == 0 || b.Op == token.GTR && i == 1):
				return pol
			}
		}
		return false
	}
	noToken := func(cond ssa.Value, pol bool, v ssa.Value) bool {
		b, ok := cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if isLoadOf(pr[0], "sync2.TimelineResponse", "PrevBatch") {
				if s, ok := strConst(pr[1]); ok && s == "" {
					return (b.Op == token.EQL) == pol && (b.Op == token.EQL || b.Op == token.NEQ)
				}
			}
		}
		return false
	}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || relPkg(fnPkg(fn).Path()) != "state" || inMigrations(fn) {
			return
		}
		var fa *ssa.FieldAddr
		if isFieldAddr(st.Addr, "state.Event", "PrevBatch") {
			fa = st.Addr.(*ssa.FieldAddr)
		} else if f2, ok := st.Addr.(*ssa.FieldAddr); ok && isFieldAddr(f2.X, "state.Event", "PrevBatch") && fieldName(f2.X.Type(), f2.Field) == "String" {
			fa = f2.X.(*ssa.FieldAddr)
		} else {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn))
		r.Ob(rule2, name)
		if ia, ok := fa.X.(*ssa.IndexAddr); ok {
			if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
				return
			}
		}
		if !r.P.Guarded(in, nil, lenZero) {
			r.Bad(rule2, name, r.at(in), "the pagination token is not attached to the first event kept: it is lost when that event is skipped, or attached to others")
			return
		}
		// nothing else may keep it from being attached
		var app *ssa.Call
		fnInstrs(fn, func(x ssa.Instruction) {
			if c := asCall(x); c != nil && callName(c) == "builtin.append" && strings.HasSuffix(c.Args[0].Type().String(), "state.Event") {
				if cc, ok := x.(*ssa.Call); ok && innermostLoop(cc.Block()) == innermostLoop(in.Block()) {
					app = cc
				}
			}
		})
		if app == nil {
			return
		}
		excuse := func(cond ssa.Value, pol bool, v ssa.Value) bool {
			return noToken(cond, pol, v) || lenZero(cond, !pol, v)
		}
		if h := innermostLoop(in.Block()); h != nil && app.Block() != in.Block() {
			for _, b := range loopBody(h) {
				if r.P.bypass(b, app.Block(), in.Block(), excuse) {
					r.Bad(rule2, name, r.at(in), "the first event kept may go without the pagination token")
				}
			}
		}
	})
	r.Floor(rule2, 1)
}

var limitRe = regexp.MustCompile(`(?i)\blimit\b`)
var orderRe = regexp.MustCompile(`(?i)\border by\b`)

// levelText: the text of the innermost parenthesised group around position i, without nested groups.
func levelText(q string, i int) string {
	lo, hi := i, i
	for d := 0; lo > 0; lo-- {
		c := q[lo-1]
		if c == ')' {
			d++
		} else if c == '(' {
			if d == 0 {
				break
			}
			d--
		}
	}
	for d := 0; hi < len(q); hi++ {
		if q[hi] == '(' {
			d++
		} else if q[hi] == ')' {
			if d == 0 {
				break
			}
			d--
		}
	}
	var b strings.Builder
	d := 0
	for _, c := range q[lo:hi] {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if d == 0 {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func p13Load(r *Report) {
	const rule = "limit-order"
	for _, st := range r.P.Statements() {
		if inMigrations(st.Fn) {
			continue
		}
		for _, m := range limitRe.FindAllStringIndex(st.Query, -1) {
			r.Touch(st.Fn)
			name := shortName(outer(st.Fn))
			r.Ob(rule, name)
			if !orderRe.MatchString(levelText(st.Query, m[0])) {
				r.Bad(rule, name, r.at(st.In), "the query is limited to some rows without saying which: "+st.Query)
			}
		}
		if strings.Contains(st.Query, "SELECT prev_batch") && strings.Contains(st.Query, "LIMIT") {
			ok := regexp.MustCompile(`(?i)order by event_nid( asc)? limit 1`).MatchString(st.Query)
			ge := false
			for _, c := range where(st.Query) {
				ge = ge || c.Col == "event_nid" && c.Op == ">="
			}
			r.Ob("closest-token", shortName(outer(st.Fn)))
			if !ok || !ge {
				r.Bad("closest-token", shortName(outer(st.Fn)), r.at(st.In), "not the token closest to, and at or after, the given event: "+st.Query)
			}
		}
	}
	r.Floor(rule, 4)
	r.Floor("closest-token", 1)

	// the cut at a gap
	const rule2 = "gap-cut"
	n := 0
	for _, st := range r.P.Statements() {
		if st.Verb != "SELECT" || !strings.Contains(st.Query, "missing_previous") || !limitRe.MatchString(st.Query) || inMigrations(st.Fn) {
			continue
		}
		if !regexp.MustCompile(`(?i)order by event_nid desc`).MatchString(st.Query) {
			continue
		}
		n++
		r.Touch(st.Fn)
		name := shortName(outer(st.Fn))
		r.Ob(rule2, name)
		okState := false
		for _, c := range where(st.Query) {
			okState = okState || c.Col == "is_state" && strings.EqualFold(c.Rhs, "false") && c.Op == "="
		}
		if !okState && !strings.Contains(strings.ToLower(st.Query), "is_state=false") {
			r.Bad(rule2, name, r.at(st.In), "events of the state block are taken for timeline events")
		}
		found := false
		for f := range r.P.reachable(st.Fn) {
			f := f
			fnInstrs(f, func(in ssa.Instruction) {
				if c, ok := in.(*ssa.Call); ok && strings.Contains(callName(&c.Call), "slices.IndexFunc") {
					// the first marked event is found by a library function
					for _, g := range closuresIn(c.Call.Args) {
						fnInstrs(g, func(x ssa.Instruction) {
							if v, ok := x.(ssa.Value); !ok || !isLoadOf(v, "state.Event", "MissingPrevious") {
								return
							}
							found = true
							fnInstrs(f, func(y ssa.Instruction) {
								sl, ok := y.(*ssa.Slice)
								if !ok || sl.High == nil || !strings.HasSuffix(sl.X.Type().String(), "state.Event") {
									return
								}
								bo, ok := sl.High.(*ssa.BinOp)
								k, isC := (*ssa.Const)(nil), false
								if ok {
									k, isC = bo.Y.(*ssa.Const)
								}
								if !isC || bo.Op != token.ADD || bo.X != ssa.Value(c) || k.Int64() != 1 {
									r.Bad(rule2, name, r.at(y), "the cut does not keep exactly the events up to and including the one after the gap")
								}
							})
						})
					}
				}
				ifi, ok := in.(*ssa.If)
				if !ok {
					return
				}
				cond, pol := ifi.Cond, true
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, pol = u.X, false
				}
				if !isLoadOf(cond, "state.Event", "MissingPrevious") {
					return
				}
				found = true
				succ := ifi.Block().Succs[0]
				if !pol {
					succ = ifi.Block().Succs[1]
				}
				h := innermostLoop(ifi.Block())
				if h == nil {
					r.Bad(rule2, name, r.at(in), "only one event is checked for a gap before it")
					return
				}
				if succ == h || reachesWithout(succ, h, nil) {
					r.Bad(rule2, name, r.at(in), "events from before a gap are kept")
				}
				// a reslicing on this branch keeps the marked event
				indexes := map[ssa.Value]bool{}
				fnInstrs(f, func(x ssa.Instruction) {
					if ia, ok := x.(*ssa.IndexAddr); ok && strings.HasSuffix(ia.X.Type().String(), "state.Event") {
						indexes[ia.Index] = true
					}
				})
				for b := succ; b != nil; {
					for _, x := range b.Instrs {
						sl, ok := x.(*ssa.Slice)
						if !ok || sl.High == nil || !strings.HasSuffix(sl.X.Type().String(), "state.Event") {
							continue
						}
						bo, ok := sl.High.(*ssa.BinOp)
						if ok && bo.Op == token.ADD {
							k, isC := bo.Y.(*ssa.Const)
							ok = isC && k.Int64() == 1 && indexes[bo.X]
						} else {
							ok = false
						}
						if !ok {
							r.Bad(rule2, name, r.at(x), "the cut does not keep exactly the events up to and including the one after the gap")
						}
					}
					if len(b.Succs) != 1 {
						break
					}
					b = b.Succs[0]
				}
			})
		}
		if !found {
			r.Bad(rule2, name, r.at(st.In), "gaps in the timeline are ignored")
		}
	}
	r.Floor(rule2, 1)

	// the token is that of the oldest event
	const rule3 = "oldest-token"
	fn := r.Fn("state.(*Storage).LatestEventsInRooms")
	if fn == nil {
		return
	}
	for f := range r.P.reachable(fn) {
		fnInstrs(f, func(in ssa.Instruction) {
			c := asCall(in)
			if c == nil || !calls(in, names{"state.(*EventTable).SelectClosestPrevBatch"}) || len(c.Args) < 4 {
				return
			}
			r.Ob(rule3, shortName(outer(f)))
			if keepsFirst(c.Args[3]) {
				r.Bad(rule3, shortName(outer(f)), r.at(in), "the pagination token is looked up for the newest event instead of the oldest")
			}
			if ld, ok := c.Args[3].(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					if ia, ok := fa.X.(*ssa.IndexAddr); ok {
						if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
							r.Bad(rule3, shortName(outer(f)), r.at(in), "the pagination token is looked up for the newest event instead of the oldest")
						}
					}
				}
			}
		})
		fnInstrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || !isFieldAddr(st.Addr, "state.LatestEvents", "LatestNID") {
				return
			}
			r.Ob(rule3, "LatestNID")
			if ph, ok := st.Val.(*ssa.Phi); ok && !keepsFirst(ph) {
				r.Bad(rule3, "LatestNID", r.at(in), "the newest event loaded is not the one recorded")
			}
		})
	}
	r.Floor(rule3, 2)
}

// keepsFirst: v is (the value after its loop of) a loop variable which keeps its value in later iterations.
func keepsFirst(v ssa.Value) bool {
	var phis []*ssa.Phi
	seen := map[ssa.Value]bool{}
	var collect func(e ssa.Value)
	collect = func(e ssa.Value) {
		if ph, ok := e.(*ssa.Phi); ok && !seen[e] {
			seen[e] = true
			phis = append(phis, ph)
			for _, x := range ph.Edges {
				collect(x)
			}
		}
	}
	collect(v)
	for _, ph := range phis {
		vis := map[ssa.Value]bool{}
		var has func(e ssa.Value) bool
		has = func(e ssa.Value) bool {
			p2, ok := e.(*ssa.Phi)
			if !ok || vis[e] {
				return false
			}
			vis[e] = true
			for _, x := range p2.Edges {
				if x == ssa.Value(ph) || has(x) {
					return true
				}
			}
			return false
		}
		if has(ph) {
			return true
		}
	}
	return false
}

func p13Position(r *Report) {
	const rule = "live-position"
	// the function which appends live events
	roots := map[*ssa.Function]bool{}
	isPos := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && isLoadOf(mu.Map, "sync3/handler.ConnState", "loadPositions")
	}
	nidPos := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && isPos(in) && isLoadOf(mu.Value, "sync3/caches.EventData", "NID")
	}
	isTimeline := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok || !isFieldAddr(st.Addr, "sync3.Room", "Timeline") {
			return false
		}
		c, ok := st.Val.(*ssa.Call)
		return ok && callName(&c.Call) == "builtin.append"
	}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if relPkg(fnPkg(fn).Path()) == "sync3/handler" && isTimeline(in) {
			for _, f := range r.P.rootsFor(fn, nidPos) {
				roots[f] = true
			}
		}
	})
	// The loops which append all of a slice, one element at a time: what is appended may be sent as soon as the loop
	// begins, however many elements there are.
	loops := map[ssa.Instruction]bool{}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if relPkg(fnPkg(fn).Path()) != "sync3/handler" || !isTimeline(in) {
			return
		}
		h := innermostLoop(in.Block())
		if h == nil {
			return
		}
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			return
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return
		}
		n, ok := cmp.Y.(*ssa.Call)
		if !ok || callName(&n.Call) != "builtin.len" {
			return
		}
		for _, b := range loopBody(h) {
			if b != in.Block() && b != h && r.P.bypass(b, h, in.Block(), nil) {
				return
			}
		}
		loops[n] = true
	})
	const always, fresh, stale, sent, moved, ordinary, dead = 1, 2, 4, 8, 16, 32, 64
	for root := range roots {
		root := root
		r.Path(PathRule{Rule: rule, Root: root, Inst: func(in ssa.Instruction) bool { return isTimeline(in) || nidPos(in) || loops[in] },
			Lit: func(x *Explorer, s *State, l Lit) {
				t := l.Atom.String()
				// an update is not changed whilst it is processed
				if strings.HasSuffix(t, ".AlwaysProcess") && l.Pol {
					s.Bits |= always
				} else if strings.HasSuffix(t, ".AlwaysProcess") {
					s.Bits |= ordinary
				}
				if s.Bits&always != 0 && s.Bits&ordinary != 0 {
					s.Bits |= dead
				}
				if l.Atom.Op == "lt" && strings.Contains(l.Atom.Args[0].String(), "loadPositions") && strings.HasSuffix(l.Atom.Args[1].String(), ".NID") {
					if l.Pol {
						s.Bits |= fresh
					} else {
						s.Bits |= stale
					}
				}
			},
			On: func(e Ev) Action {
				name := shortName(root)
				if e.S.Bits&dead != 0 {
					return Go
				}
				if _, ok := e.In.(*ssa.MapUpdate); ok {
					r.Ob(rule, name+" move")
					if e.S.Bits&fresh == 0 {
						r.Bad(rule, name+" move", r.at(e.In), "the position in a room may move backwards: events are sent again", e.S.Trace()...)
					}
					e.S.Bits |= moved
					return Go
				}
				r.Ob(rule, name+" send")
				if e.S.Bits&(always|fresh) == 0 || e.S.Bits&stale != 0 {
					r.Bad(rule, name+" send", r.at(e.In), "an event is added to a timeline without checking that it lies beyond what was sent already", e.S.Trace()...)
				}
				if e.S.Bits&fresh != 0 && e.S.Bits&moved == 0 {
					r.Bad(rule, name+" send", r.at(e.In), "an event is sent without moving the position in its room", e.S.Trace()...)
				}
				e.S.Bits |= sent
				return Go
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind == ExitReturn && s.Bits&dead == 0 && s.Bits&fresh != 0 && s.Bits&sent == 0 {
					r.Bad(rule, shortName(root)+" send", r.P.Pos(root.Pos()), "the position in a room moves past an event which was not sent", s.Trace()...)
				}
			}})
	}
	r.Floor(rule, 2)

	const rule2 = "load-position"
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isPos(in) || nidPos(in) {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn))
		r.Ob(rule2, name)
		if isLoadOf(mu.Value, "state.LatestEvents", "LatestNID") {
			if h := innermostLoop(in.Block()); h != nil {
				for _, b := range loopBody(h) {
					if b != in.Block() && r.P.bypass(b, h, in.Block(), nil) {
						r.Bad(rule2, name, r.at(in), "the position in a room is not moved for every timeline loaded")
					}
				}
			}
			return
		}
		ok = false
		for _, o := range r.P.origins(mu.Value) {
			ok = ok || isResultOf(o, "*caches.(*GlobalCache).LoadJoinedRooms")
		}
		if !ok {
			r.Bad(rule2, name, r.at(in), "the position in a room is set to "+describeVal(r.P, mu.Value))
		}
	})
	r.Floor(rule2, 1)
}

// closuresIn: the functions among the arguments.
func closuresIn(args []ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	for _, a := range args {
		switch x := a.(type) {
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		case *ssa.Function:
			out = append(out, x)
		}
	}
	return out
}
