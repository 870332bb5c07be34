package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldOf: t reads the named field of (something in) the i'th parameter.
func fieldOf(t *Term, name string, param string) bool {
	return t.Find(func(x *Term) bool {
		return x.Op == "field" && x.Name == name && x.Args[0].Find(func(y *Term) bool { return y.Op == "param" && y.Name == param }) != nil
	}) != nil
}

func init() {
	reg("P25", "two subscriptions to one room are combined into one which gives what either asks for, without affecting either", func(r *Report) {
		const rule = "combined"
		p := r.P
		root := r.Fn("sync3.(RoomSubscription).Combine")
		if root == nil {
			return
		}
		t := p.namedType(r, "sync3.RoomSubscription")
		c := p.chooser()
		e := &Env{fn: root}
		self := "RoomSubscription.Combine"
		greater := func(a, b string) CondGuard {
			return func(cd Cond) bool {
				x, ok := cd.V.(*ssa.BinOp)
				if !ok {
					return false
				}
				l, m := c.Path(x.X, cd.E), c.Path(x.Y, cd.E)
				if !(l == a && m == b || l == b && m == a) {
					return false
				}
				op := x.Op
				if l == b {
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
				}
				return cd.Pol && (op == token.GTR || op == token.GEQ) || !cd.Pol && (op == token.LSS || op == token.LEQ)
			}
		}
		never := func(Cond) bool { return false }
		fnInstrs(root, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			for _, sel := range leafFields(t) {
				f := sel[0]
				r.Ob(rule, f)
				has := map[string]bool{}
				for _, ch := range c.Of(rt.Results[0], sel, e) {
					if ch.When(never) {
						continue // cannot happen
					}
					a, b := "$0."+f, "$1."+f
					for _, s := range []string{a, b} {
						if strings.Contains(ch.Path, s) {
							has[s] = true
						}
					}
					mine, other := ch.Path, b
					if mine == b {
						other = a
					}
					single := ch.Path == a || ch.Path == b
					switch f {
					case "TimelineLimit":
						if single && !ch.When(greater(mine, other)) {
							r.Bad(rule, self+" "+f, p.Pos(posOf(ch)), "the combined timeline_limit need not be the larger one")
						}
					case "Heroes":
						if single && !ch.When(func(cd Cond) bool {
							return c.holds(cd, mine, true) || c.is(cd, other, "nil") || c.holds(cd, other, false)
						}) {
							r.Bad(rule, self+" "+f, p.Pos(posOf(ch)), "include_heroes of one subscription is lost when it is combined with another")
						}
					case "IncludeOldRooms":
						if single && !ch.When(func(cd Cond) bool { return c.is(cd, other, "nil") }) {
							r.Bad(rule, self+" "+f, p.Pos(posOf(ch)), "include_old_rooms of one subscription is lost when it is combined with another")
						}
					case "RequiredState":
						if single && !ch.When(func(cd Cond) bool { return c.is(cd, other, "nil") || c.is(cd, "len("+other+")", "0") }) {
							r.Bad(rule, self+" "+f, p.Pos(posOf(ch)), "required_state of one subscription is lost when it is combined with another")
						}
						if strings.HasPrefix(ch.Path, "append($") || strings.HasPrefix(ch.Path, "append(append($") {
							r.Bad(rule, self+" "+f, p.Pos(posOf(ch)), "the combined required_state is appended to that of one of the subscriptions, which may share it with further combinations: each overwrites the other's")
						}
					}
					if (ch.Path == "zero" || ch.Path == "nil") && f != "RequiredState" {
						r.Bad(rule, self+" "+f, p.Pos(posOf(ch)), f+" is lost when subscriptions are combined")
					}
				}
				for _, s := range []string{"$0." + f, "$1." + f} {
					if !has[s] {
						r.Bad(rule, self+" "+f, r.at(in), "the combined subscription disregards "+f+" of one of the two")
					}
				}
			}
		})
		r.Floor(rule, 3)
	})
	reg("P25", "a list contains exactly the rooms which satisfy every filter given", func(r *Report) {
		const rule = "filters"
		p := r.P
		root := r.Fn("sync3.(*RequestFilters).Include")
		if root == nil {
			return
		}
		fields := leafFields(p.namedType(r, "sync3.RequestFilters"))
		attr := map[string]string{"IsDM": "IsDM", "IsEncrypted": "Encrypted", "IsInvite": "IsInvite", "IsTombstoned": "UpgradedRoomID"}
		bit := map[string]uint{}
		for i, f := range fields {
			bit[f[0]] = uint(2 * i)
		}
		const up, joinedNext, left, inv, notLeft, notInv = 1 << 60, 1 << 61, 1 << 62, 1 << 63, 1 << 56, 1 << 57
		self := "RequestFilters.Include"
		bad := map[string]bool{}
		n := 0
		var judge func(x *Explorer, s *State, verdict, known bool, res []CV)
		apply := func(x *Explorer, s *State, l Lit) {
			a := l.Atom
			pass := func(f string) { s.Bits |= 1 << bit[f] }
			fail := func(f string) { s.Bits |= 2 << bit[f] }
			if a.Op == "eq" && fieldOf(a.Args[0], "UpgradedRoomID", "1") && a.Args[1].Op == "nil" && a.Args[0].Op == "field" {
				if !l.Pol {
					s.Bits |= up
				}
			}
			if a.Find(func(t *Term) bool { return t.Op == "call" && strings.HasSuffix(t.Name, "ReadOnlyRoom") }) != nil {
				switch {
				case a.Op == "eq" && a.Args[1].Op == "nil" && !l.Pol:
					s.Bits |= joinedNext
				case a.Op == "field" && a.Name == "HasLeft" && l.Pol:
					s.Bits |= left
				case a.Op == "field" && a.Name == "HasLeft":
					s.Bits |= notLeft
				case a.Op == "field" && a.Name == "IsInvite" && l.Pol:
					s.Bits |= inv
				case a.Op == "field" && a.Name == "IsInvite":
					s.Bits |= notInv
				}
				return
			}
			for _, fs := range fields {
				f := fs[0]
				if !fieldOf(a, f, "0") {
					continue
				}
				empty := a.Op == "eq" && (a.Args[1].Op == "nil" || a.Args[1].IsConst(`""`) || a.Args[0].Op == "len" && a.Args[1].IsConst("0")) && !(a.Args[0].Op == "deref")
				if empty {
					if l.Pol {
						pass(f)
					}
					continue
				}
				n++
				exhausted := a.Op == "lt" && a.Args[1].Op == "len" && fieldOf(a.Args[1], f, "0") && !l.Pol
				if a.Find(func(t *Term) bool { return t.Op == "rangeok" }) == a && !l.Pol {
					exhausted = true
				}
				found := a.Find(func(t *Term) bool { return t.Op == "lookup" }) != nil
				key := a.Find(func(t *Term) bool { return t.Op == "lookup" && fieldOf(t.Args[1], f, "0") }) != nil
				call := a.Find(func(t *Term) bool { return t.Op == "call" && len(t.Args) >= 2 && fieldOf(t, f, "0") }) != nil
				switch f {
				case "IsDM", "IsEncrypted", "IsInvite", "IsTombstoned":
					if a.Op != "eq" {
						continue
					}
					v := a.Args[1]
					if fieldOf(v, f, "0") {
						v = a.Args[0]
					}
					if !fieldOf(v, attr[f], "1") {
						bad[f] = true
						r.Bad(rule, self+" "+f, p.Pos(root.Pos()), "the filter "+f+" is compared with "+v.String())
						continue
					}
					pol := l.Pol
					if f == "IsTombstoned" && v.Op != "not" {
						pol = !pol
					}
					if pol {
						pass(f)
					} else {
						fail(f)
					}
				case "RoomNameFilter":
					if a.Op == "call" && strings.HasSuffix(a.Name, "strings.Contains") && fieldOf(a.Args[1], f, "0") {
						if l.Pol {
							pass(f)
						} else {
							fail(f)
						}
					}
				case "NotTags":
					if found && key && l.Pol && fieldOf(a, "Tags", "1") {
						fail(f)
					}
					if exhausted {
						pass(f)
					}
				case "Tags", "Spaces":
					if found && key && l.Pol && fieldOf(a, f, "1") {
						pass(f)
					}
					if exhausted && s.Bits>>bit[f]&1 == 0 {
						fail(f)
					}
				case "NotRoomTypes", "RoomTypes":
					if call {
						if !fieldOf(a, "RoomType", "1") {
							r.Bad(rule, self+" "+f, p.Pos(root.Pos()), "the filter "+f+" is not compared with the room's type")
						}
						if l.Pol == (f == "RoomTypes") {
							pass(f)
						} else {
							fail(f)
						}
					}
				}
			}
		}
		judge = func(x *Explorer, s *State, verdict, known bool, res []CV) {
			if !known { // a condition is returned as it is
				bits := s.Bits
				for _, v := range []bool{true, false} {
					if l := x.litOf(s, res[0], v); l.Atom != nil {
						apply(x, s, l)
						judge(x, s, v, true, nil)
					}
					s.Bits = bits
				}
				return
			}
			old := s.Bits&up != 0 && s.Bits&joinedNext != 0 && s.Bits&(left|inv) == 0
			failed := ""
			for _, fs := range fields {
				f := fs[0]
				if s.Bits>>bit[f]&2 != 0 && !(f == "Tags" || f == "Spaces") || s.Bits>>bit[f]&3 == 2 {
					failed = f
				}
			}
			if verdict {
				if old {
					r.Bad(rule, self+" old rooms", p.Pos(root.Pos()), "a room whose successor the user has joined is listed", s.Trace()...)
				}
				if failed != "" {
					r.Bad(rule, self+" "+failed, p.Pos(root.Pos()), "a room which does not satisfy the filter "+failed+" is listed", s.Trace()...)
					return
				}
				for _, fs := range fields {
					if s.Bits>>bit[fs[0]]&1 == 0 && !bad[fs[0]] {
						r.Bad(rule, self+" "+fs[0], p.Pos(root.Pos()), "a room may be listed without the filter "+fs[0]+" having been applied", s.Trace()...)
					}
				}
			} else if failed == "" && !(old && s.Bits&notLeft != 0 && s.Bits&notInv != 0) {
				r.Bad(rule, self+" excluded", p.Pos(root.Pos()), "a room is left out although it satisfies every filter", s.Trace()...)
			}
		}
		r.Path(PathRule{Rule: rule, Root: root, Inst: func(ssa.Instruction) bool { return false },
			Inl: func(f *ssa.Function) bool {
				if relPkg(pkgPath(f)) != "sync3" {
					return false
				}
				for _, pr := range f.Params {
					if pr.Type().String() == "[]*string" {
						return false // compares room types
					}
				}
				res := f.Signature.Results()
				return res.Len() == 1 && res.At(0).Type().String() == "bool"
			},
			Lit: apply,
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind != ExitReturn {
					return
				}
				t := x.Term(s, res[0])
				verdict, known := t.IsConst("true"), t.IsConst("true") || t.IsConst("false")
				if !known {
					if k, v := x.evalCond(s, res[0]); k {
						verdict, known = v, true
					}
				}
				judge(x, s, verdict, known, res)
			},
		})
		for i := 0; i < n; i++ {
			r.Ob(rule, "")
		}
		r.Floor(rule, 10)
	})
	reg("P25", "lists follow the filters: a room enters, leaves or moves in each list as its filter says, for new lists and on every update", func(r *Report) {
		const rule = "list membership"
		p := r.P
		if root := r.Fn("sync3.(*InternalRequestLists).SetRoom"); root != nil {
			const exists, notExists, incl, notIncl, left, stay = 1, 2, 4, 8, 16, 32
			const opShift, saidShift = 8, 12
			isOp := func(in ssa.Instruction) bool {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					g, ok := u.X.(*ssa.Global)
					return ok && typeName(u.Type()) == "sync3.ListOp" && g != nil
				}
				st, ok := in.(*ssa.Store)
				return ok && isFieldAddr(st.Addr, "sync3.RoomListDelta", "Op")
			}
			n := 0
			ops := map[string]uint64{"sync3.ListOpAdd": 1, "sync3.ListOpDel": 2, "sync3.ListOpChange": 3}
			r.Path(PathRule{Rule: rule, Root: root, Inst: isOp,
				Stop: func(f *ssa.Function) bool { return f.Name() == "Include" },
				On: func(e Ev) Action {
					if u, ok := e.In.(*ssa.UnOp); ok {
						// the operation last spoken of
						e.S.Bits = e.S.Bits&^(3<<saidShift) | ops["sync3."+u.X.Name()]<<saidShift
						return Go
					}
					t := e.X.Term(e.S, mkCV(e.S.ctx, e.In.(*ssa.Store).Val))
					op := uint64(0)
					for k, v := range ops {
						if strings.Contains(t.String(), k[6:]) {
							op = v
						}
					}
					if op == 0 {
						op = e.S.Bits >> saidShift & 3
					}
					e.S.Bits |= op << opShift
					return Go
				},
				Lit: func(x *Explorer, s *State, l Lit) {
					a := l.Atom
					switch {
					case a.Find(func(t *Term) bool { return t.Op == "field" && t.Name == "roomIDToIndex" }) != nil:
						if l.Pol {
							s.Bits |= exists
						} else {
							s.Bits |= notExists
						}
					case a.HasCall("Include"):
						if l.Pol {
							s.Bits |= incl
						} else {
							s.Bits |= notIncl
						}
					case a.Op == "field" && a.Name == "HasLeft":
						if l.Pol {
							s.Bits |= left
						} else {
							s.Bits |= stay
						}
					}
				},
				Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
					b := s.Bits &^ (3 << saidShift)
					s.Bits = 0
					if b == 0 {
						return
					}
					n++
					op := b >> opShift & 3
					in := b&incl != 0 && b&left == 0
					out := b&notIncl != 0 || b&left != 0
					want := uint64(0)
					switch {
					case b&exists != 0 && in:
						want = 3
					case b&exists != 0 && out:
						want = 2
					case b&notExists != 0 && in:
						want = 1
					case b&notExists != 0 && out:
						want = 0
					default:
						r.Bad(rule, "SetRoom", r.at(last(hdr)), "an update is applied to a list without regard to its filter, to whether the user has left, or to whether the room is in it", s.Trace()...)
						return
					}
					if in && b&stay == 0 {
						r.Bad(rule, "SetRoom left", r.at(last(hdr)), "a room which the user has left stays in the lists", s.Trace()...)
					}
					if op != want {
						what := []string{"left alone", "added to", "removed from", "moved in"}
						r.Bad(rule, "SetRoom", r.at(last(hdr)), "a room is "+what[op]+" a list when it should be "+what[want]+" it", s.Trace()...)
					}
				},
			})
			for i := 0; i < n; i++ {
				r.Ob(rule, "SetRoom")
			}
			// it is known before the filters look at it
			c := p.chooser()
			e := &Env{fn: root}
			stored := false
			fnInstrs(root, func(in ssa.Instruction) {
				if m, ok := in.(*ssa.MapUpdate); ok && mapElem(m.Map) == "*sync3.RoomConnMetadata" {
					stored = onlyUnless(c, in, e, func(Cond) bool { return false })
					fnInstrs(root, func(x ssa.Instruction) {
						if cl := asCall(x); cl != nil && callName(cl) == "sync3.(*RequestFilters).Include" && !canReach(in, x) {
							r.Bad(rule, "SetRoom", r.at(in), "the filters look at the room before the update is stored")
						}
					})
				}
			})
			r.Ob(rule, "SetRoom stored")
			if !stored {
				r.Bad(rule, "SetRoom stored", p.Pos(root.Pos()), "an update to a room may not be stored")
			}
			if h := headerOver(c, e, "$0.lists"); h != nil {
				if b := breaks(h); b != nil {
					r.Bad(rule, "SetRoom every list", r.at(b), "an update is applied to some of the lists only")
				}
			}
		}
		// new lists
		if root := r.Fn("sync3.NewFilteredSortableRooms"); root != nil {
			c := p.chooser()
			e := &Env{fn: root}
			n := 0
			isIncl := func(cd Cond, pol bool) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && cd.Pol == pol && callName(&cl.Call) == "sync3.(*RequestFilters).Include"
			}
			for _, h := range headers(root) {
				isApp := func(in ssa.Instruction) bool {
					cl, ok := in.(*ssa.Call)
					return ok && callName(&cl.Call) == "builtin.append" && cl.Type().String() == "[]string"
				}
				n++
				r.Ob(rule, "new list")
				if c.skips(h, e, isApp, func(cd Cond) bool { return isIncl(cd, false) }) {
					r.Bad(rule, "NewFilteredSortableRooms", r.at(last(h)), "a room which satisfies the filters is not in a new list")
				}
				if b := breaks(h); b != nil {
					r.Bad(rule, "NewFilteredSortableRooms", r.at(b), "the rooms after this one are not in a new list")
				}
				for b := range loopBlocks(h) {
					for _, in := range b.Instrs {
						if isApp(in) && !c.knownAt(in, e, func(cd Cond) bool { return isIncl(cd, true) }) {
							r.Bad(rule, "NewFilteredSortableRooms", r.at(in), "a room is put into a new list whether or not it satisfies the filters")
						}
					}
				}
			}
			if n == 0 {
				r.Bad(rule, "NewFilteredSortableRooms", p.Pos(root.Pos()), "rooms are not filtered")
			}
		}
		if root := r.Fn("sync3.(*FilteredSortableRooms).Add"); root != nil {
			r.Ob(rule, "added room")
			fnInstrs(root, func(in ssa.Instruction) {
				if cl := asCall(in); cl != nil && callName(cl) == "sync3.(*SortableRooms).Add" {
					if !p.Guarded(in, nil, func(cond ssa.Value, pol bool, _ ssa.Value) bool {
						x, ok := cond.(*ssa.Call)
						return ok && pol && callName(&x.Call) == "sync3.(*RequestFilters).Include"
					}) {
						r.Bad(rule, "FilteredSortableRooms.Add", r.at(in), "a room is added to a list whether or not it satisfies the filters")
					}
				}
			})
		}
		if root := r.Fn("sync3.(*InternalRequestLists).AssignList"); root != nil {
			c := p.chooser()
			e := &Env{fn: root}
			if h := headerOver(c, e, "$0.allRooms"); h != nil {
				r.Ob(rule, "assigned list")
				if c.skips(h, e, func(in ssa.Instruction) bool {
					cl, ok := in.(*ssa.Call)
					return ok && callName(&cl.Call) == "builtin.append"
				}, func(cd Cond) bool {
					pa := c.Path(cd.V, cd.E)
					return cd.Pol && strings.HasPrefix(pa, "$0.allRooms[]") && strings.HasSuffix(pa, ".HasLeft")
				}) {
					r.Bad(rule, "AssignList", r.at(last(h)), "a room is not considered for a new list")
				}
				if b := breaks(h); b != nil {
					r.Bad(rule, "AssignList", r.at(b), "the rooms after this one are not considered for a new list")
				}
			}
		}
		r.Floor(rule, 5)
	})
}

// headerOver: the loop of e's function which goes through the collection.
func headerOver(c *chooser, e *Env, path string) *ssa.BasicBlock {
	for _, h := range headers(e.fn) {
		if c.ranged(h, e) == path {
			return h
		}
	}
	return nil
}
