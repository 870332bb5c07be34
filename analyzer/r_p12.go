package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P12", "a room in a response which the user is only invited to is described by the stripped invite state alone: no field of it comes from the shared room metadata or state, and invite state is sent only for invites", p12Rooms)
	reg("P12", "room state is never loaded for invited rooms, and extensions leave out shared metadata of invited rooms", p12Load)
	reg("P12", "updates about invites and departures carry only the invite's own data or an empty description, and the invite's data is computed from the invite state alone", p12Updates)
	reg("P12", "invites begin and end: an invite marks the room as invited and not left, a departure as left and not invited, and the user's own later membership events reset both marks", p12Lifecycle)
}

const urdT = "sync3/caches.UserRoomData"

// rootsFor: the nearest functions at or above fn from which both fn and some instruction accepted by pred are reachable.
func (p *Prog) rootsFor(fn *ssa.Function, pred func(ssa.Instruction) bool) []*ssa.Function {
	fn = outer(fn)
	has := func(f *ssa.Function) bool {
		for g := range p.reachable(f) {
			hit := false
			fnInstrs(g, func(in ssa.Instruction) { hit = hit || pred(in) })
			if hit {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		if seen[f] || d > 4 {
			return
		}
		seen[f] = true
		if has(f) {
			out = append(out, f)
			return
		}
		for _, s := range p.sitesOf(f) {
			up(outer(s.Parent()), d+1)
		}
	}
	up(fn, 0)
	return out
}

func isInviteLoad(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	return ok && isLoadOf(v, urdT, "IsInvite")
}

func p12Rooms(r *Report) {
	const rule = "invited-room"
	const inv, noinv, dead = 1, 2, 4
	roots := map[*ssa.Function]bool{}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || !isFieldAddr(st.Addr, "sync3.Room", "InviteState") {
			return
		}
		for _, f := range r.P.rootsFor(fn, isInviteLoad) {
			roots[f] = true
		}
	})
	for root := range roots {
		root := root
		r.Path(PathRule{Rule: rule, Root: root, Inst: func(in ssa.Instruction) bool {
			if isInviteLoad(in) {
				return true
			}
			st, ok := in.(*ssa.Store)
			return ok && isFieldAddr(st.Addr, "sync3.Room", "Name", "AvatarChange", "JoinedCount", "InvitedCount", "Heroes", "RequiredState", "InviteState")
		}, Lit: func(x *Explorer, s *State, l Lit) {
			if l.Atom.Op == "field" && l.Atom.Name == "IsInvite" || strings.HasSuffix(l.Atom.String(), ".IsInvite") {
				was := s.Bits & (inv | noinv)
				s.Bits &^= inv | noinv
				if l.Pol {
					s.Bits |= inv
				} else {
					s.Bits |= noinv
				}
				if was != 0 && was != s.Bits&(inv|noinv) && s.Tag == l.Atom.String() {
					s.Bits |= dead // the same mark cannot have changed
				}
				s.Tag = l.Atom.String()
			}
		}, Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
			for _, b := range hdr.Parent().Blocks {
				if b != hdr && (!hdr.Dominates(b) || !reachesWithout(b, hdr, nil)) {
					continue
				}
				for _, in := range b.Instrs {
					if isInviteLoad(in) {
						s.Bits &^= inv | noinv | dead
						s.Tag = ""
					}
				}
			}
		},
			On: func(e Ev) Action {
				st, ok := e.In.(*ssa.Store)
				if !ok || e.S.Bits&dead != 0 {
					return Go
				}
				fa := st.Addr.(*ssa.FieldAddr)
				f := fieldName(fa.X.Type(), fa.Field)
				t := e.X.Term(e.S, mkCV(e.S.ctx, st.Val))
				name := shortName(root) + " Room." + f
				r.Ob(rule, name)
				shared := t.HasCall("GlobalCache).LoadRooms") || t.HasCall("GlobalCache).LoadRoomState")
				invite := t.Find(func(t *Term) bool { return t.Op == "field" && t.Name == "Invite" }) != nil || t.HasCall("InviteData).RoomMetadata") || t.HasField("InviteState")
				switch f {
				case "InviteState":
					if t.Op == "nil" || t.IsConst("nil") {
						if e.S.Bits&inv != 0 {
							r.Bad(rule, name, r.at(e.In), "an invited room is sent without its invite state", e.S.Trace()...)
						}
						return Go
					}
					if e.S.Bits&inv == 0 {
						r.Bad(rule, name, r.at(e.In), "invite state is sent for a room which is not known to be an invite", e.S.Trace()...)
					} else if !invite {
						r.Bad(rule, name, r.at(e.In), "the invite state sent is "+t.String(), e.S.Trace()...)
					}
				default:
					if shared && e.S.Bits&noinv == 0 {
						r.Bad(rule, name, r.at(e.In), f+" of a room the user may only be invited to comes from shared room data: "+t.String(), e.S.Trace()...)
					}
				}
				return Go
			}})
	}
	r.Floor(rule, 6)
}

func p12Load(r *Report) {
	const rule = "invited-state"
	notInvite := func(cond ssa.Value, pol bool, v ssa.Value) bool {
		if pol {
			return false
		}
		if isLoadOf(cond, urdT, "IsInvite") {
			return true
		}
		// no data about the room at all
		if e, ok := cond.(*ssa.Extract); ok && e.Index == 1 {
			if l, ok := e.Tuple.(*ssa.Lookup); ok {
				if strings.Contains(l.X.Type().String(), "UserRoomData") {
					return true
				}
			}
		}
		return false
	}
	joined := joinGuard(r.P)
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		c := asCall(in)
		if c == nil || relPkg(fnPkg(fn).Path()) != "sync3/handler" || !calls(in, names{"*caches.(*GlobalCache).LoadRoomState"}) {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn)) + " " + siteName(in)
		r.Ob(rule, name)
		for _, l := range r.P.elems(c.Args[2]) {
			if l.Whole {
				r.Bad(rule, name, r.at(in), "room state is loaded for "+describeVal(r.P, l.Val)+", which may include invites")
			} else if !r.P.Guarded(l.At, nil, notInvite) && !r.P.Guarded(l.At, l.Val, joined) {
				r.Bad(rule, name, r.at(l.At), "room state is loaded for a room without checking that it is not an invite")
			}
		}
	})
	r.Floor(rule, 1)

	// extensions: shared metadata of a room in the response
	const rule2 = "invited-extension"
	notInvited := func(cond ssa.Value, pol bool, v ssa.Value) bool {
		e, ok := cond.(*ssa.Extract)
		if !ok || pol || e.Index != 1 {
			return false
		}
		l, ok := e.Tuple.(*ssa.Lookup)
		return ok && isLoadOf(l.X, "sync3/extensions.Context", "InvitedRooms") && (v == nil || r.P.same(l.Index, v))
	}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || relPkg(fnPkg(fn).Path()) != "sync3/extensions" {
			return
		}
		shared := false
		for _, s := range r.P.sources(mu.Value) {
			if !isLoadOf(s, "internal.RoomMetadata", "TypingEvent") {
				continue
			}
			for _, o := range r.P.origins(s) {
				shared = shared || isResultOf(o, "*caches.(*GlobalCache).LoadRooms")
			}
		}
		if !shared {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn))
		r.Ob(rule2, name)
		checked := r.P.Guarded(in, mu.Key, notInvited)
		if !checked {
			r.P.withOpaque(names{"*caches.(*GlobalCache).LoadRooms"}, func() { checked, _ = checkedAt(r.P, mu.Key, in, notInvited, 0) })
		}
		if !checked {
			r.Bad(rule2, name, r.at(in), "ephemeral data of a room is sent without checking that the user is not merely invited to it")
		}
	})
	r.Floor(rule2, 1)
	// ... and the set it is checked against
	n := 0
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		c := asCall(in)
		if c == nil || !strings.HasSuffix(callName(c), "extensions.(HandlerInterface).Handle") {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn)) + " InvitedRooms"
		ok := false
		for _, a := range c.Args {
			if typeName(a.Type()) != "sync3/extensions.Context" {
				continue
			}
			r.P.withOpaque(names{"sync3.(*Response).InvitedRoomIDs"}, func() {
				c := r.P.chooser()
				for _, e := range r.P.contexts(fn) {
					if e.fn != fn {
						continue
					}
					cs := c.Of(a, []string{"InvitedRooms"}, e)
					ok = len(cs) > 0
					for _, ch := range cs {
						ok = ok && ch.V != nil && isResultOf(ch.V, "sync3.(*Response).InvitedRoomIDs")
					}
				}
			})
		}
		n++
		r.Ob(rule2, name)
		if !ok {
			r.Bad(rule2, name, r.at(in), "extensions are not told which rooms of the response are invites")
		}
	})
	if n == 0 {
		r.Bad("anchor", "extensions.HandlerInterface.Handle", "-", "no call found")
	}
	if fn := r.Fn("sync3.(*Response).InvitedRoomIDs"); fn != nil {
		n := 0
		fnInstrs(fn, func(in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				n++
				_ = mu
			}
		})
		// every room with invite state is in the set: in the loop, the only way around the update is InviteState == nil
		isNil := func(cond ssa.Value, pol bool, v ssa.Value) bool {
			if b, ok := cond.(*ssa.BinOp); ok {
				for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if isLoadOf(pr[0], "sync3.Room", "InviteState") {
						if k, ok := pr[1].(*ssa.Const); ok && k.IsNil() {
							return (b.Op == token.EQL) == pol
						}
					}
					// len(InviteState) > 0 and the like
					if c, ok := pr[0].(*ssa.Call); ok && callName(&c.Call) == "builtin.len" && isLoadOf(c.Call.Args[0], "sync3.Room", "InviteState") {
						return true
					}
				}
			}
			return false
		}
		fnInstrs(fn, func(in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			r.Ob(rule2, "InvitedRoomIDs")
			h := innermostLoop(mu.Block())
			if h == nil {
				return
			}
			k := &guardCk{p: r.P, g: isNil, stack: map[ssa.Value]bool{}}
			// walk an iteration avoiding the update and the edges which establish that there is no invite state
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock) bool
			walk = func(b *ssa.BasicBlock) bool {
				if b == mu.Block() || seen[b] {
					return false
				}
				seen[b] = true
				for _, s := range b.Succs {
					if k.cuts(b, s, nil, 0) {
						continue
					}
					if s == h || walk(s) {
						return true
					}
				}
				return false
			}
			for _, s := range h.Succs {
				if reachesWithout(s, h, nil) && s != h && innermostLoop(s) != nil && walk(s) {
					r.Bad(rule2, "InvitedRoomIDs", r.at(mu), "a room with invite state is left out of the invited rooms")
				}
			}
		})
		if n == 0 {
			r.Bad(rule2, "InvitedRoomIDs", r.P.Pos(fn.Pos()), "no rooms are ever reported as invited")
		}
	}
}

func p12Updates(r *Report) {
	const rule = "update-content"
	// the metadata of each update
	for _, m := range []string{"OnInvite", "OnLeftRoom"} {
		m := m
		fn := r.Fn("sync3/caches.(*UserCache)." + m)
		if fn == nil {
			continue
		}
		n := 0
		r.Path(PathRule{Rule: rule, Root: fn, Calls: []string{"*caches.(*UserCache).newRoomUpdate", "*caches.(*GlobalCache).*"}, Inst: fieldStore("sync3/caches.roomUpdateCache", "globalRoomData"),
			On: func(e Ev) Action {
				if asCall(e.In) != nil {
					r.Bad(rule, m, r.at(e.In), "an update about a room the user is not in uses shared room data", e.S.Trace()...)
					return Go
				}
				n++
				r.Ob(rule, m)
				t := e.X.Term(e.S, mkCV(e.S.ctx, e.In.(*ssa.Store).Val))
				if !t.HasCall("InviteData).RoomMetadata") && !t.HasCall("internal.NewRoomMetadata") && !strings.Contains(t.String(), "NewRoomMetadata") {
					r.Bad(rule, m, r.at(e.In), "an update about a room the user is not in carries "+t.String(), e.S.Trace()...)
				}
				return Go
			}})
		if n == 0 {
			r.Bad(rule, m, r.P.Pos(fn.Pos()), "no update is made")
		}
	}
	r.Floor(rule, 2)
	// the invite's data is a function of the invite state
	const rule2 = "invite-data"
	check := func(fn *ssa.Function, ok func(ssa.Value) bool, typ string) {
		if fn == nil {
			return
		}
		fnInstrs(fn, func(in ssa.Instruction) {
			st, isSt := in.(*ssa.Store)
			if !isSt {
				return
			}
			fa, isFA := st.Addr.(*ssa.FieldAddr)
			if !isFA || typeName(fa.X.Type()) != typ {
				return
			}
			f := fieldName(fa.X.Type(), fa.Field)
			r.Ob(rule2, typ+"."+f)
			for _, o := range r.P.origins(st.Val) {
				if !ok(o) {
					r.Bad(rule2, typ+"."+f, r.at(in), f+" of an invite comes from "+describeVal(r.P, o))
				}
			}
		})
	}
	if fn := r.Fn("sync3/caches.NewInviteData"); fn != nil {
		check(fn, func(o ssa.Value) bool {
			switch x := o.(type) {
			case *ssa.Const, *ssa.Parameter, *ssa.Alloc:
				return true
			case *ssa.Call:
				n := callName(&x.Call)
				return strings.HasPrefix(n, "github.com/tidwall/gjson.") || n == "builtin.append"
			}
			return false
		}, "sync3/caches.InviteData")
	}
	if fn := r.Fn("sync3/caches.(*InviteData).RoomMetadata"); fn != nil {
		check(fn, func(o ssa.Value) bool {
			switch o.(type) {
			case *ssa.Const, *ssa.Parameter, *ssa.Alloc:
				return true
			}
			return false
		}, "internal.RoomMetadata")
		for f := range r.P.reachable(fn) {
			fnInstrs(f, func(in ssa.Instruction) {
				if c := asCall(in); c != nil && strings.Contains(callName(c), "GlobalCache") {
					r.Bad(rule2, "RoomMetadata", r.at(in), "the description of an invited room uses the global cache")
				}
			})
		}
	}
	r.Floor(rule2, 12)
}

func p12Lifecycle(r *Report) {
	const rule = "marks"
	// fixed marks
	for _, c := range []struct {
		m    string
		want map[string]string
	}{
		{"OnInvite", map[string]string{"IsInvite": "true", "HasLeft": "false"}},
		{"OnLeftRoom", map[string]string{"IsInvite": "false", "HasLeft": "true", "Invite": "nil"}},
	} {
		c := c
		fn := r.Fn("sync3/caches.(*UserCache)." + c.m)
		if fn == nil {
			continue
		}
		var fs []string
		for f := range c.want {
			fs = append(fs, f)
		}
		bit := map[string]uint64{"IsInvite": 1, "HasLeft": 2, "Invite": 4}
		r.Path(PathRule{Rule: rule, Root: fn, Inst: func(in ssa.Instruction) bool {
			if fieldStore(urdT, "IsInvite", "HasLeft", "Invite")(in) {
				return true
			}
			mu, ok := in.(*ssa.MapUpdate)
			return ok && isLoadOf(mu.Map, "sync3/caches.UserCache", "roomToData")
		}, On: func(e Ev) Action {
			if st, ok := e.In.(*ssa.Store); ok {
				fa := st.Addr.(*ssa.FieldAddr)
				f := fieldName(fa.X.Type(), fa.Field)
				if outer(st.Parent()).Name() == "NewUserRoomData" {
					return Go
				}
				t := e.X.Term(e.S, mkCV(e.S.ctx, st.Val)).String()
				want, has := c.want[f]
				if !has {
					return Go
				}
				if t == want {
					e.S.Bits |= bit[f]
				} else {
					e.S.Bits &^= bit[f]
				}
				return Go
			}
			r.Ob(rule, c.m)
			for _, f := range fs {
				if e.S.Bits&bit[f] == 0 {
					r.Bad(rule, c.m+" "+f, r.at(e.In), "the room is not marked "+f+"="+c.want[f], e.S.Trace()...)
				}
			}
			e.S.Bits |= 64
			return Go
		}, Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
			if kind == ExitReturn && s.Bits&64 == 0 {
				for _, l := range s.Trace() {
					if strings.Contains(l, "NewInviteData") || strings.Contains(l, "InviteData") {
						return // malformed invite
					}
				}
				r.Bad(rule, c.m, r.P.Pos(fn.Pos()), "the marks are not stored", s.Trace()...)
			}
		}})
	}
	// the user's own membership events
	fn := r.Fn("sync3/caches.(*UserCache).OnNewEvent")
	if fn == nil {
		return
	}
	const denyInv, denyLeft, setInv, setLeft = 1, 2, 4, 8
	r.Path(PathRule{Rule: rule, Root: fn, Stop: func(f *ssa.Function) bool { return f.Name() == "OnSpaceUpdate" }, Inl: func(f *ssa.Function) bool {
		// what is asked about the event
		res := f.Signature.Results()
		return relPkg(fnPkg(f).Path()) == "sync3/caches" && res.Len() == 1 && isBool(res.At(0).Type()) && len(f.Blocks) < 12
	}, Inst: func(in ssa.Instruction) bool {
		if fieldStore(urdT, "IsInvite", "HasLeft")(in) {
			return true
		}
		mu, ok := in.(*ssa.MapUpdate)
		return ok && isLoadOf(mu.Map, "sync3/caches.UserCache", "roomToData")
	}, Lit: func(x *Explorer, s *State, l Lit) {
		t := l.Atom.String()
		member := strings.Contains(t, ".EventType") && strings.Contains(t, `"m.room.member"`)
		own := strings.Contains(t, ".StateKey") && (strings.Contains(t, ".UserID"))
		noKey := strings.Contains(t, ".StateKey") && strings.Contains(t, "nil")
		if (member || own) && !l.Pol || noKey && l.Pol {
			s.Bits |= denyInv | denyLeft
		}
		if strings.HasSuffix(t, ".IsInvite") && !l.Pol {
			s.Bits |= denyInv
		}
		if strings.HasSuffix(t, ".HasLeft") && !l.Pol {
			s.Bits |= denyLeft
		}
		if strings.Contains(t, "membership") && l.Atom.Op == "eq" {
			if strings.Contains(t, `"invite"`) && l.Pol {
				s.Bits |= denyInv
			}
			if strings.Contains(t, `"join"`) != l.Pol {
				s.Bits |= denyLeft // something else than join
			}
		}
	}, On: func(e Ev) Action {
		if st, ok := e.In.(*ssa.Store); ok {
			if outer(st.Parent()).Name() == "NewUserRoomData" {
				return Go
			}
			fa := st.Addr.(*ssa.FieldAddr)
			t := e.X.Term(e.S, mkCV(e.S.ctx, st.Val))
			ts := t.String()
			if fieldName(fa.X.Type(), fa.Field) == "IsInvite" {
				e.S.Bits |= setInv
				if !t.IsConst("false") && !(t.Op == "eq" && strings.Contains(ts, "membership") && strings.Contains(ts, `"invite"`)) {
					r.Bad(rule, "OnNewEvent IsInvite", r.at(e.In), "the invite mark becomes "+ts, e.S.Trace()...)
				}
			} else {
				e.S.Bits |= setLeft
				if !t.IsConst("false") && !(t.Op == "not" && strings.Contains(ts, "membership") && strings.Contains(ts, `"join"`)) {
					r.Bad(rule, "OnNewEvent HasLeft", r.at(e.In), "the left mark becomes "+ts, e.S.Trace()...)
				}
			}
			return Go
		}
		r.Ob(rule, "OnNewEvent")
		if e.S.Bits&(denyInv|setInv) == 0 {
			r.Bad(rule, "OnNewEvent IsInvite", r.at(e.In), "the invite mark survives the user's own membership event", e.S.Trace()...)
		}
		if e.S.Bits&(denyLeft|setLeft) == 0 {
			r.Bad(rule, "OnNewEvent HasLeft", r.at(e.In), "the left mark survives the user's return to the room", e.S.Trace()...)
		}
		return Go
	}})
	r.Floor(rule, 3)
}
