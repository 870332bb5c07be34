package main

// What an update of a room changes in the response which is being put together.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P22", "what a live update changes about a room (counts, name, avatar, state events, list positions, rooms coming into view) is in the response", func(r *Report) {
		const rule = "response"
		p := r.P
		pl := nLive + "processLiveUpdate"
		const nBuilder = "sync3/handler.(*RoomsBuilder)."
		opaque := append(liveOpaque(p), nBuilder+"AddSubscription", nBuilder+"AddRoomsToSubscription", "sync3.CalculateListOps", "sync3.(*RequestList).ShouldGetAllRooms")
		p.withOpaque(opaque, func() {
			c := p.chooser()
			notRoom := func(cd Cond) bool {
				t, ok := asserts(cd)
				return ok && t == "sync3/caches.RoomUpdate" && !cd.Pol
			}
			noRoom := func(cd Cond) bool { return c.is(cd, "$2", "nil") }
			stale := func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok {
					return false
				}
				x, y, op := c.Path(b.X, cd.E), c.Path(b.Y, cd.E), b.Op
				if x == "$0.ConnState.loadPositions[]" {
					x, y = y, x
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
				}
				return x == "$2.EventData.NID" && y == "$0.ConnState.loadPositions[]" && (op == token.LSS && cd.Pol || op == token.GEQ && !cd.Pol)
			}
			ignored := func(cd Cond) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && cd.Pol && callName(&cl.Call) == nUC+"ShouldIgnore"
			}
			skip := anyCond(stale, ignored, notRoom, noRoom)
			// state events of ignored senders are not left out
			message := func(cd Cond) bool { return c.is(cd, "$2.EventData.StateKey", "nil") }
			r.forwards(c, rule, pl, "state of ignored senders", "a state event may be left out because its sender is ignored", nil, anyCond(stale, message, notRoom), callTo(c, nLive+"processUpdatesForSubscriptions", ""))

			unchanged := func(f string) CondGuard {
				return func(cd Cond) bool {
					if cd.Pol {
						return false
					}
					for _, v := range p.deepSources(cd.V) {
						if k, ok := boolConst(v); ok && !k {
							continue
						}
						if !isLoadOf(v, "sync3.RoomDelta", f) {
							return false
						}
					}
					return true
				}
			}
			absent := func(cd Cond) bool {
				ex, ok := cd.V.(*ssa.Extract)
				if !ok || cd.Pol || ex.Index != 1 {
					return false
				}
				l, ok := ex.Tuple.(*ssa.Lookup)
				return ok && c.Path(l.X, cd.E) == "$3.Rooms"
			}
			set := func(f string) func(ssa.Instruction, *Env) bool {
				return func(in ssa.Instruction, e *Env) bool { return fieldStore("sync3.Room", f)(in) && e.d < 3 }
			}
			p.withOpaque(append(opaque, nLive+"processUpdatesForSubscriptions", nLive+"processLiveUpdateForList"), func() {
				for _, f := range []string{"NotificationCount", "HighlightCount"} {
					r.forwards(c, rule, pl, f, "a change of the unread counts may be missing from the response", nil, anyCond(skip, unchanged(f+"Changed")), set(f))
				}
				for d, f := range map[string]string{"RoomNameChanged": "Name", "RoomAvatarChanged": "AvatarChange", "InviteCountChanged": "InvitedCount", "JoinCountChanged": "JoinedCount"} {
					r.forwards(c, rule, pl, f, "the response may have the old "+f+" of a room", nil, anyCond(skip, absent, unchanged(d)), set(f))
				}
				for _, d := range []string{"NotificationCountChanged", "HighlightCountChanged"} {
					r.forwards(c, rule, pl, d+" kept", "a room whose counts have changed may be missing from the response", nil, anyCond(skip, unchanged(d)), func(in ssa.Instruction, e *Env) bool {
						m, ok := in.(*ssa.MapUpdate)
						return ok && c.Path(m.Map, e) == "$3.Rooms" && innermostLoop(in.Block()) == nil
					})
				}
			})

			// lists
			lf := nLive + "processLiveUpdateForList"
			notForced := func(cd Cond) bool {
				if t, ok := asserts(cd); ok {
					return !cd.Pol && t == "sync3/caches.RoomEventUpdate"
				}
				return !cd.Pol && c.Path(cd.V, cd.E) == "$3.EventData.ForceInitial"
			}
			r.forwards(c, rule, lf, "forced", "a room which is to be sent anew may not be", nil, notForced, callTo(c, nBuilder+"AddRoomsToSubscription", "$2"))
			r.forwards(c, rule, lf, "operations", "the operations on a list may be missing from the response", nil, notRoom, func(in ssa.Instruction, e *Env) bool {
				st, ok := in.(*ssa.Store)
				if !ok || !isFieldAddr(st.Addr, "sync3.ResponseList", "Ops") {
					return false
				}
				cl, ok := st.Val.(*ssa.Call)
				return ok && callName(&cl.Call) == "builtin.append" && isLoadOf(cl.Call.Args[0], "sync3.ResponseList", "Ops")
			})
			getAll := func(pol bool) CondGuard {
				return func(cd Cond) bool {
					cl, ok := cd.V.(*ssa.Call)
					return ok && cd.Pol == pol && callName(&cl.Call) == "sync3.(*RequestList).ShouldGetAllRooms"
				}
			}
			inView := func(pa string) bool {
				return strings.HasPrefix(pa, "sync3.CalculateListOps(") && strings.HasSuffix(pa, "#1")
			}
			r.forwards(c, rule, lf, "rooms in view", "rooms which came into the window of a list may not be sent", inView, anyCond(notRoom, getAll(true)), func(in ssa.Instruction, e *Env) bool {
				return calls(in, names{nBuilder + "AddRoomsToSubscription"}) && inView(callArg(c, in, e, 2))
			})
			notAdded := func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) == cd.Pol {
					return false
				}
				x, y := c.Path(b.X, cd.E), c.Path(b.Y, cd.E)
				if y == "$4" {
					x, y = y, x
				}
				return x == "$4" && (strings.HasSuffix(y, "ListOpAdd") || y == "1")
			}
			r.forwards(c, rule, lf, "rooms added", "a room which was added to a list of all rooms may not be sent", nil, anyCond(notRoom, getAll(false), notAdded), callTo(c, nBuilder+"AddRoomsToSubscription", "$2"))
		})
		r.Floor(rule, 13)
	})
}
