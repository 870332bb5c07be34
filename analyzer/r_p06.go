package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	evInsert   = "state.(*EventTable).Insert"
	curSnap    = "state.(*RoomsTable).CurrentAfterSnapshotID"
	snapInsert = "state.(*SnapshotTable).Insert"
	updBefore  = "state.(*EventTable).UpdateBeforeSnapshotID"
	roomUpsert = "state.(*RoomsTable).Upsert"
	supersede  = "state.(*InvitesTable).RemoveSupersededInvites"
	spacesUpd  = "state.(*SpacesTable).HandleSpaceUpdates"
	evRedact   = "state.(*EventTable).Redact"
)

// mentions: fn (or a closure of it) uses the string constant.
func mentions(fn *ssa.Function, c string) bool {
	found := false
	for _, g := range withClosures(fn) {
		fnInstrs(g, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"`+c+`"` {
					found = true
				}
			}
		})
	}
	return found
}

func init() {
	reg("P06", "a room gets its first state only together with its create event", p06Create)
	reg("P06", "each new timeline event is tagged with the state before it, state events advance the snapshot, and the room ends on the last snapshot", p06Timeline)
	reg("P06", "every new snapshot is computed from the latest one: the one loaded under the current snapshot ID, or the one just computed", p06Base)
	reg("P06", "state is keyed by event type and state key, and a new event takes the place of exactly the old one with its key", p06Key)
	reg("P06", "superseded invites and space relations are updated in the same transaction, before success", p06Side)
}

func p06Create(r *Report) {
	const rule = "create-event-first"
	for _, rn := range []string{"state.(*Accumulator).Accumulate", "state.(*Accumulator).Initialise"} {
		root := r.Fn(rn)
		const known, typ, sk = 1, 2, 4
		n := 0
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{evInsert, curSnap},
			Inl: func(f *ssa.Function) bool {
				return fnPkg(f) != nil && relPkg(fnPkg(f).Path()) == "state" && mentions(f, "m.room.create") && f.Signature.Recv() == nil
			},
			On: func(e Ev) Action {
				if e.Name == evInsert {
					n++
					if e.S.Bits&known == 0 && e.S.Bits&(typ|sk) != typ|sk {
						r.Bad(rule, rn, r.at(e.In), "events are stored for a room without state although no create event was seen first", e.S.Trace()...)
					}
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				a := l.Atom
				switch {
				case a.Op == "eq" && a.Args[1].IsConst("0") && a.Args[0].HasCall("CurrentAfterSnapshotID"):
					if !l.Pol {
						s.Bits |= known
					}
				case a.Op == "lt" && l.Pol && a.Args[0].IsConst("0") && a.Args[1].HasCall("CurrentAfterSnapshotID"):
					s.Bits |= known
				case a.Op == "eq" && a.Args[1].IsConst(`"m.room.create"`):
					if strings.HasSuffix(rn, "Accumulate") && !ofFirst(a.Args[0]) {
						return // of an event other than the first
					}
					if l.Pol {
						s.Bits |= typ
					} else {
						s.Bits &^= typ
					}
				case a.Op == "eq" && a.Args[1].IsConst(`""`) && a.Args[0].Op == "field" && a.Args[0].Name == "StateKey":
					if l.Pol {
						s.Bits |= sk
					} else {
						s.Bits &^= sk
					}
				}
			}})
		if n > 0 {
			r.Ob(rule, rn)
		}
		// the current snapshot asked for is this room's
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{curSnap, roomUpsert, snapInsert}, On: func(e Ev) Action {
			switch e.Name {
			case curSnap:
				room := "$3"
				if strings.HasSuffix(rn, "Initialise") {
					room = "$1"
				}
				if t := e.argm(1).String(); t != room {
					r.Bad(rule, rn+" room", r.at(e.In), "asks for the snapshot of "+t+" instead of the room being updated")
				}
			case snapInsert:
				_, f := litFields(e.X, e.S, mkCV(e.S.ctx, asCall(e.In).Args[2]))
				if t := f["RoomID"]; t == nil || t.String() != map[bool]string{true: "$1", false: "$3"}[strings.HasSuffix(rn, "Initialise")] {
					r.Bad(rule, rn+" snapshot room", r.at(e.In), "the snapshot is stored for another room")
				}
			}
			return Go
		}})
	}
	r.Floor(rule, 2)
}

// ofFirst: the value belongs to the first item of a slice (or it cannot be told from which it is).
func ofFirst(t *Term) bool {
	str := t.String()
	if i := strings.LastIndex(str, "["); i >= 0 && !strings.HasPrefix(str, "new:") {
		return strings.HasPrefix(str[i:], "[0]")
	}
	var fa *ssa.FieldAddr
	switch x := t.CV.v.(type) {
	case *ssa.UnOp:
		fa, _ = x.X.(*ssa.FieldAddr)
	}
	if fa == nil {
		return true
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return true
	}
	for _, st := range storesTo(al) {
		if u, ok := st.Val.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && !isIntConst(ia.Index, 0) {
				return false
			}
		}
	}
	return true
}

func p06Timeline(r *Report) {
	const rule = "snapshot-chain"
	root := r.Fn("state.(*Accumulator).Accumulate")
	const isState, notState, inserted, tagged, upserted, superseded, spaced, stored, none = 1, 2, 4, 8, 16, 32, 64, 128, 256
	n := map[string]bool{}
	// where the snapshot insertion of the current iteration sits in each active function
	insertAt := map[*ssa.Function]ssa.Instruction{}
	chain := func(v ssa.Value) (cur, snap bool) {
		for _, src := range r.P.sources(v) {
			if isResultOf(src, curSnap) || isResultOf(src, "database/sql.(*Row).Scan") {
				cur = true
			}
			if isLoadOf(src, "state.RoomsTable") {
				cur = true
			}
			if isLoadOf(src, "state.SnapshotRow", "SnapshotID") {
				snap = true
			}
			if u, ok := src.(*ssa.UnOp); ok {
				if a, ok := u.X.(*ssa.Alloc); ok && outer(a.Parent()) == r.P.Funcs[curSnap] {
					cur = true
				}
			}
		}
		return
	}
	r.Path(PathRule{Rule: rule, Root: root, Calls: []string{snapInsert, updBefore, roomUpsert, evInsert, supersede, spacesUpd},
		Stop: func(f *ssa.Function) bool { return strings.HasSuffix(shortName(f), "Table)."+f.Name()) },
		On: func(e Ev) Action {
			s := e.S
			switch e.Name {
			case evInsert:
				s.Bits |= stored
			case supersede:
				s.Bits |= superseded
				if t := e.argm(1).String(); t != "$3" {
					r.Bad(rule, "state.(*Accumulator).Accumulate invites", r.at(e.In), "invites of "+t+" are retired instead of this room's")
				}
			case spacesUpd:
				s.Bits |= spaced
			case snapInsert:
				n["snapshot"] = true
				if s.Bits&isState == 0 {
					r.Bad(rule, "state.(*Accumulator).Accumulate snapshot", r.at(e.In), "a new snapshot is made for an event which is not state", s.Trace()...)
				}
				s.Bits |= inserted
				insertAt[e.In.Parent()] = e.In
				for c := s.ctx; c != nil && c.parent != nil; c = c.parent {
					insertAt[c.parent.fn] = c.site
				}
			case updBefore:
				n["tag"] = true
				if nid := e.argm(1); nid.Op != "field" || nid.Name != "NID" {
					r.Bad(rule, "state.(*Accumulator).Accumulate tag", r.at(e.In), "the before-snapshot is recorded on "+nid.String())
				}
				args := asCall(e.In).Args
				snap := e.X.resolve(s, mkCV(s.ctx, args[len(args)-2]))
				cur, sn := chain(snap.v)
				if !cur || !sn {
					r.Bad(rule, "state.(*Accumulator).Accumulate before", r.at(e.In), "the state recorded as coming before the event is "+e.argm(2).String()+", not the snapshot reached so far")
				} else if in, ok := snap.v.(ssa.Instruction); ok {
					if at := insertAt[in.Parent()]; at != nil && !defBefore(snap.v, at) {
						r.Bad(rule, "state.(*Accumulator).Accumulate before", r.at(e.In), "a state event is recorded as if it had already been part of the state before it")
					}
				}
				if s.Bits&inserted != 0 {
					ok := false
					for _, src := range r.P.sources(args[len(args)-1]) {
						if isLoadOf(src, "state.Event", "NID") || isResultOf(src, "state.(*Accumulator).calculateNewSnapshot") {
							ok = true
						}
					}
					if !ok {
						r.Bad(rule, "state.(*Accumulator).Accumulate replaces", r.at(e.In), "the event replaced by this state event is not recorded: "+e.argm(3).String())
					}
				}
				s.Bits |= tagged
			case roomUpsert:
				n["upsert"] = true
				args := asCall(e.In).Args
				cur, sn := chain(e.X.resolve(s, mkCV(s.ctx, args[len(args)-2])).v)
				if !cur || !sn {
					r.Bad(rule, "state.(*Accumulator).Accumulate current", r.at(e.In), "the room's current state is set to "+e.argm(2).String()+", not the last snapshot made")
				}
				ok := false
				for _, src := range r.P.sources(e.X.resolve(s, mkCV(s.ctx, args[len(args)-1])).v) {
					ok = ok || isLoadOf(src, "state.Event", "NID") || isResultOf(src, evInsert) || isLookup(src)
				}
				if !ok {
					r.Bad(rule, "state.(*Accumulator).Accumulate latest", r.at(e.In), "the room's latest position is "+e.argm(3).String())
				}
				s.Bits |= upserted
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			if l.Atom.Op == "field" && l.Atom.Name == "IsState" {
				s.Bits &^= isState | notState
				if l.Pol {
					s.Bits |= isState
				} else {
					s.Bits |= notState
				}
			}
			if l.Pol && s.Bits&stored != 0 && l.Atom.Op == "eq" && l.Atom.Args[1].IsConst("0") && l.Atom.Args[0].Op == "len" && l.Atom.Args[0].HasCall("EventTable).Insert") {
				s.Bits |= none
			}
		},
		Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
			tags := false
			for _, b := range hdr.Parent().Blocks {
				if innermostLoop(b) != hdr {
					continue
				}
				for _, in := range b.Instrs {
					if c := asCall(in); c != nil {
						if callName(c) == updBefore {
							tags = true
						} else if f := c.StaticCallee(); f != nil && inModule(f) && r.P.relevantFuncs(callPred(updBefore))[f] {
							tags = true
						}
					}
				}
			}
			if !tags {
				return
			}
			n["iteration"] = true
			if s.Bits&tagged == 0 {
				r.Bad(rule, "state.(*Accumulator).Accumulate untagged", r.P.InstrPos(hdr.Instrs[len(hdr.Instrs)-1]), "a new event can be left without the state before it", s.Trace()...)
			}
			if s.Bits&isState != 0 && s.Bits&inserted == 0 {
				r.Bad(rule, "state.(*Accumulator).Accumulate nosnapshot", r.P.InstrPos(hdr.Instrs[len(hdr.Instrs)-1]), "a new state event does not change the room's state", s.Trace()...)
			}
			s.Bits &^= isState | notState | inserted | tagged
		},
		Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
			if kind != ExitReturn || s.Bits&stored == 0 || s.Bits&none != 0 {
				return
			}
			if k, isNil := x.KnownNil(s, res[len(res)-1]); k && !isNil {
				return
			}
			for _, o := range []struct {
				b uint64
				w string
			}{{upserted, "without moving the room on to the new state"}, {superseded, "without retiring superseded invites"}, {spaced, "without updating space relations"}} {
				if s.Bits&o.b == 0 {
					r.Bad(rule, "state.(*Accumulator).Accumulate "+o.w, r.P.Pos(root.Pos()), "new events are stored "+o.w, s.Trace()...)
				}
			}
		},
	})
	for k := range n {
		r.Ob(rule, k)
	}
	r.Floor(rule, 4)
}

func isLookup(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Lookup)
		return ok
	}
	return false
}

func p06Side(r *Report) {
	const rule = "initial-state"
	root := r.Fn("state.(*Accumulator).Initialise")
	const stored, none, snap, upserted, superseded, spaced = 1, 2, 4, 8, 16, 32
	n := map[string]bool{}
	r.Path(PathRule{Rule: rule, Root: root, Calls: []string{evInsert, snapInsert, roomUpsert, supersede, spacesUpd, withTxn},
		Stop: func(f *ssa.Function) bool { return strings.HasSuffix(shortName(f), "Table)."+f.Name()) },
		On: func(e Ev) Action {
			s := e.S
			switch e.Name {
			case evInsert:
				s.Bits |= stored
			case snapInsert:
				s.Bits |= snap
			case supersede:
				s.Bits |= superseded
				n["invites"] = true
				if t := e.argm(1).String(); t != "$1" {
					r.Bad(rule, "state.(*Accumulator).Initialise invites", r.at(e.In), "invites of "+t+" are retired instead of this room's")
				}
			case spacesUpd:
				s.Bits |= spaced
				n["spaces"] = true
			case roomUpsert:
				n["upsert"] = true
				if s.Bits&snap == 0 {
					r.Bad(rule, "state.(*Accumulator).Initialise upsert", r.at(e.In), "the room is moved on before its snapshot is stored", s.Trace()...)
				}
				ok := false
				args := asCall(e.In).Args
				for _, src := range r.P.sources(e.X.resolve(s, mkCV(s.ctx, args[len(args)-2])).v) {
					ok = ok || isLoadOf(src, "state.SnapshotRow", "SnapshotID")
				}
				if !ok {
					r.Bad(rule, "state.(*Accumulator).Initialise current", r.at(e.In), "the room's current state is set to "+e.argm(2).String()+", not the snapshot just made")
				}
				s.Bits |= upserted
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			if l.Pol && s.Bits&stored != 0 && l.Atom.Op == "eq" && l.Atom.Args[1].IsConst("0") && l.Atom.Args[0].Op == "len" && l.Atom.Args[0].HasCall("EventTable).Insert") {
				s.Bits |= none
			}
		},
		Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
			if kind != ExitReturn || s.Bits&stored == 0 || s.Bits&none != 0 {
				return
			}
			if k, isNil := x.KnownNil(s, res[len(res)-1]); k && !isNil {
				return
			}
			if s.Bits&(snap|upserted|superseded|spaced) != snap|upserted|superseded|spaced {
				r.Bad(rule, "state.(*Accumulator).Initialise incomplete", r.P.Pos(root.Pos()), "new state events are stored without the snapshot, the room record, the invites or the space relations being updated", s.Trace()...)
			}
		},
	})
	for k := range n {
		r.Ob(rule, k)
	}
	r.Floor(rule, 3)
}

// containsCall: the natural loop headed by hdr calls (transitively) something matched by pred.
func (p *Prog) loopCalls(hdr *ssa.BasicBlock, pred func(ssa.Instruction) bool) bool {
	for _, b := range hdr.Parent().Blocks {
		if b != hdr && !(hdr.Dominates(b) && reachesWithoutStart(b, hdr)) {
			continue
		}
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
			if c := asCall(in); c != nil {
				if f := c.StaticCallee(); f != nil && inModule(f) && p.relevantFuncs(pred)[f] {
					return true
				}
			}
		}
	}
	return false
}

// reachesWithoutStart: control can flow from b back to hdr.
func reachesWithoutStart(b, hdr *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, n := range x.Succs {
			if n == hdr {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if walk(n) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

func p06Base(r *Report) {
	const rule = "snapshot-base"
	const snapSelect = "state.(*SnapshotTable).Select"
	const based, carried, zero, inserted = 1, 2, 4, 8
	isChain := func(v ssa.Value) bool {
		for _, src := range r.P.sources(v) {
			if isResultOf(src, curSnap) || isLoadOf(src, "state.SnapshotRow", "SnapshotID") {
				return true
			}
			if u, ok := src.(*ssa.UnOp); ok {
				if a, ok := u.X.(*ssa.Alloc); ok && outer(a.Parent()) == r.P.Funcs[curSnap] {
					return true
				}
			}
			if isLoadOf(src, "state.RoomsTable") {
				return true
			}
		}
		return false
	}
	for _, rn := range []string{"state.(*Accumulator).Accumulate", "state.(*Accumulator).Initialise"} {
		root := r.Fn(rn)
		n := 0
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{snapInsert, snapSelect}, On: func(e Ev) Action {
			if e.Name == snapSelect {
				args := asCall(e.In).Args
				v := e.X.resolve(e.S, mkCV(e.S.ctx, args[len(args)-1])).v
				if fv, ok := v.(*ssa.UnOp); ok { // a variable captured by the transaction closure
					if a, ok := e.X.resolveAddr(e.S, mkCV(e.S.ctx, fv.X)); ok {
						if al, ok := a.v.(*ssa.Alloc); ok {
							for _, st := range storesTo(al) {
								if isChain(st.Val) {
									e.S.Bits |= based
								}
							}
						}
					}
				}
				if isChain(v) {
					e.S.Bits |= based
				}
				return Go
			}
			n++
			if e.S.Bits&(based|carried|zero) == 0 {
				r.Bad(rule, rn, r.at(e.In), "the new snapshot is not computed from the room's latest one, so state set by an earlier event is lost", e.S.Trace()...)
			}
			e.S.Bits |= inserted
			e.S.Bits &^= based | zero
			return Go
		}, Lit: func(x *Explorer, s *State, l Lit) {
			a := l.Atom
			z := a.Op == "eq" && l.Pol && a.Args[1].IsConst("0") && a.Args[0].CV.v != nil && isInt(a.Args[0].CV.v.Type())
			z = z || a.Op == "lt" && !l.Pol && a.Args[0].IsConst("0") && a.Args[1].CV.v != nil && isInt(a.Args[1].CV.v.Type())
			if z && !strings.HasPrefix(a.Args[0].Op, "len") {
				s.Bits |= zero
			}
		}, Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
			if !r.P.loopCalls(hdr, callPred(snapInsert)) {
				return
			}
			if s.Bits&inserted != 0 {
				s.Bits &^= carried
				for _, in := range hdr.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok || x.backIdx < 0 {
						break
					}
					if v := x.resolve(s, mkCV(s.ctx, phi.Edges[x.backIdx])).v; strings.HasSuffix(v.Type().String(), "StrippedEvents") && isResultOf(v, "state.(*Accumulator).calculateNewSnapshot") {
						s.Bits |= carried
					}
				}
			}
			s.Bits &^= based | zero | inserted
		}})
		if n > 0 {
			r.Ob(rule, rn)
		}
	}
	r.Floor(rule, 2)
}

// fieldsRead: the fields of the named type which fn or its closures read.
func fieldsRead(fn *ssa.Function, typ string) map[string]bool {
	out := map[string]bool{}
	for _, g := range withClosures(fn) {
		fnInstrs(g, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if typeName(x.X.Type()) == typ {
					out[fieldName(x.X.Type(), x.Field)] = true
				}
			case *ssa.Field:
				if typeName(x.X.Type()) == typ {
					out[fieldName(x.X.Type(), x.Field)] = true
				}
			}
		})
	}
	return out
}

func p06Key(r *Report) {
	const rule = "state-key"
	for _, n := range []string{"state.(*Accumulator).calculateNewSnapshot", "state.(*stateMap).Ingest"} {
		fn := r.Fn(n)
		if fn == nil {
			continue
		}
		used := map[string]bool{}
		for f := range r.P.reachable(fn) {
			for k := range fieldsRead(f, "state.Event") {
				used[k] = true
			}
		}
		for _, f := range []string{"Type", "StateKey", "NID"} {
			r.Ob(rule, n+" "+f)
			if !used[f] {
				r.Bad(rule, n+" "+f, r.P.Pos(fn.Pos()), "state events are told apart without their "+f)
			}
		}
	}
	// rolling forward: each old event is kept or replaced, and the new one is added
	fn := r.Fn("state.(*Accumulator).calculateNewSnapshot")
	const kept, sameType, sameKey, added = 1, 2, 4, 8
	cnt, keyed := 0, uint64(0)
	r.Path(PathRule{Rule: rule, Root: fn, Inst: func(in ssa.Instruction) bool { return isAppendTo(in, "state.Event") }, On: func(e Ev) Action {
		cnt++
		e.S.Bits |= kept
		for _, v := range appendElems(e.In.(*ssa.Call)) {
			if strings.HasPrefix(e.X.Term(e.S, mkCV(e.S.ctx, v)).String(), "$2") {
				e.S.Bits |= added
			} else if e.S.Bits&(sameType|sameKey) == sameType|sameKey {
				r.Bad(rule, shortName(fn)+" replace", r.at(e.In), "the old event stays although the new one has its key", e.S.Trace()...)
			}
		}
		return Go
	}, Lit: func(x *Explorer, s *State, l Lit) {
		if l.Atom.Op != "eq" {
			return
		}
		for _, o := range []struct {
			f string
			b uint64
		}{{".Type", sameType}, {".StateKey", sameKey}} {
			if strings.Count(l.Atom.String(), o.f) < 2 {
				continue
			}
			keyed |= o.b
			s.Bits &^= o.b
			if l.Pol {
				s.Bits |= o.b
			}
		}
	}, Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
		if s.Bits&kept == 0 {
			r.Bad(rule, shortName(fn)+" dropped", r.P.Pos(fn.Pos()), "an old state event is dropped from the new snapshot", s.Trace()...)
		}
		s.Bits &^= kept | sameType | sameKey
	}, Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
		if k, isNil := x.KnownNil(s, res[len(res)-1]); kind != ExitReturn || k && !isNil || s.Bits&added != 0 {
			return
		}
		r.Bad(rule, shortName(fn)+" added", r.P.Pos(fn.Pos()), "the new event is not part of the new snapshot", s.Trace()...)
	}})
	if cnt > 0 {
		r.Ob(rule, "roll forward")
	}
	if fn != nil && keyed != sameType|sameKey {
		r.Bad(rule, shortName(fn)+" key", r.P.Pos(fn.Pos()), "old and new state events are not compared by both type and state key")
	}
	r.Floor(rule, 6)
}
