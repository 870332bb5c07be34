package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// liveOpaque: functions whose results are named by the call.
func liveOpaque(p *Prog) names {
	out := p.pkgFuncs("state")
	return append(out, nConnMap+"Conns", nConnMap+"Conn", nConnMap+"connIDsForDevice", "sync3.(*JoinedRoomsTracker).JoinedUsersForRoom", "sync3.(*JoinedRoomsTracker).UserLeftRoom", nDisp+"UnregisterBulk",
		"sync3/caches.(*GlobalCache).LoadRooms", "sync3/caches.NewInviteData", "sync3/extensions.(Request).EnabledExtensions", "sync3.(*InternalRequestLists).SetRoom", "sync3/handler.(*RoomsBuilder).BuildSubscriptions", "sync3/handler.(*ConnState).buildRooms", nUC+"ShouldIgnore", nUC+"newRoomUpdate", nDisp+"newEventData")
}

func init() {
	reg("P22", "each notification about a user, room or device is passed on to the caches and connections it concerns", func(r *Report) {
		const rule = "notification"
		p := r.P
		p.withOpaque(liveOpaque(p), func() {
			c := p.chooser()
			stateErr := c.failed("state.")
			noCache := func(key string) CondGuard {
				return func(cd Cond) bool {
					if _, ok := asserts(cd); ok && !cd.Pol {
						return c.Path(cd.V.(*ssa.Extract).Tuple.(*ssa.TypeAssert).X, cd.E) == nSyncLoad+key+")"
					}
					return c.holds(cd, nSyncLoad+key+")#1", false)
				}
			}
			uc := func(method, key string, args ...string) func(in ssa.Instruction, e *Env) bool {
				return callTo(c, nUC+method, nSyncLoad+key+")", append([]string{""}, args...)...)
			}
			ob := func(method, miss string, item func(string) bool, g CondGuard, want func(in ssa.Instruction, e *Env) bool) {
				r.forwards(c, rule, nSLH+method, method, miss, item, g, want)
			}
			user := anyCond(noCache("$1.UserID"), stateErr)
			ob("OnUnreadCounts", "changed unread counts may not reach the user", nil, user, uc("OnUnreadCounts", "$1.UserID", "$1.RoomID", "$1.HighlightCount", "$1.NotificationCount"))
			ob("OnInvite", "an invite may not reach the user", nil, user, func(in ssa.Instruction, e *Env) bool {
				return uc("OnInvite", "$1.UserID", "$1.RoomID")(in, e) && strings.HasSuffix(callArg(c, in, e, 2), ".SelectInviteState($0.Storage.InvitesTable,$1.UserID,$1.RoomID)")
			})
			ob("OnLeftRoom", "that the user left a room may not reach them", nil, user, uc("OnLeftRoom", "$1.UserID", "$1.RoomID", "$1.LeaveEvent"))
			ob("OnAccountData", "changed account data may not reach the user", nil, user, uc("OnAccountData", "$1.UserID", "state.(*Storage).AccountData($0.Storage,$1.UserID,$1.RoomID,$1.Types)"))
			ob("Initialise", "the state of a new room may not reach those in it", nil, stateErr, callTo(c, nDisp+"OnNewInitialRoomState", "$0.Dispatcher", "", "$1.RoomID", "state.(*Storage).StateSnapshot($0.Storage,$1.SnapshotNID)"))
			const evs = "state.(*Storage).EventNIDs($0.Storage,$1.EventNIDs)"
			ob("Accumulate", "a new event may not reach those in the room", isPath(evs, "$1.EventNIDs"), stateErr, func(in ssa.Instruction, e *Env) bool {
				return callTo(c, nDisp+"OnNewEvent", "$0.Dispatcher", "", "$1.RoomID", evs+"[]")(in, e)
			})
			receiptsReach(r, c, rule)
			ob("OnTyping", "a typing notification may not reach those in the room", nil, func(cd Cond) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && cd.Pol && callName(&cl.Call) == "reflect.DeepEqual" || ok && cd.Pol && callName(&cl.Call) == "bytes.Equal"
			}, callTo(c, nDisp+"OnEphemeralEvent", "$0.Dispatcher", "", "$1.RoomID", "$1.EphemeralEvent"))
			conns := "sync3.(*ConnMap).Conns($0.ConnMap,"
			ob("OnDeviceData", "changed device data may not reach a connection of the device", isPath("$1.UserIDToDeviceIDs", conns+"$1.UserIDToDeviceIDs{},$1.UserIDToDeviceIDs[][])"), nil,
				func(in ssa.Instruction, e *Env) bool {
					cl := asCall(in)
					return callTo(c, "sync3.(*Conn).OnUpdate", "")(in, e) && strings.HasPrefix(recvPath(c, in, e), conns) && c.hasType(cl.Args[2], e, "sync3/caches.DeviceDataUpdate")
				})
			ob("OnDeviceMessages", "that there are new to-device messages may not reach a connection of the device", isPath(conns+"$1.UserID,$1.DeviceID)"), nil,
				func(in ssa.Instruction, e *Env) bool {
					cl := asCall(in)
					return callTo(c, "sync3.(*Conn).OnUpdate", "")(in, e) && strings.HasPrefix(recvPath(c, in, e), conns) && c.hasType(cl.Args[2], e, "sync3/caches.DeviceEventsUpdate")
				})
			ob("OnTransactionID", "events which wait for their transaction ID may not be released", nil, nil, callTo(c, nConnMap+"ClearUpdateQueues", "$0.ConnMap", "$1.UserID", "$1.RoomID", "$1.NID"))
			ob("OnInitialSyncComplete", "requests which wait for the first poll may not be released", nil, nil, callTo(c, "sync3/handler.(*EnsurePoller).OnInitialSyncComplete", "$0.EnsurePoller", "$1"))
			// a user whose cache is used is told of what happens
			known := func(cd Cond) bool {
				pa := c.Path(cd.V, cd.E)
				return cd.Pol && (pa == nSyncLoad+"$1)#1" || strings.HasPrefix(pa, "sync.(*Map).LoadOrStore($0.userCaches,$1,") && strings.HasSuffix(pa, "#1"))
			}
			isReg := callTo(c, nDisp+"Register", "$0.Dispatcher", "", "$1")
			ob("userCache", "the cache of a user may be used although it is not told of what happens", nil, anyCond(known, c.failed("")), isReg)
			if fn := p.Funcs[nSLH+"userCache"]; fn != nil {
				for _, e := range p.contexts(fn) {
					if e.up != nil {
						continue
					}
					fnInstrs(e.fn, func(in ssa.Instruction) {
						if !isReg(in, e) {
							return
						}
						r.Ob(rule, "registered")
						ok := func(cd Cond) bool {
							b, isB := cd.V.(*ssa.BinOp)
							return isB && (isNilConst(b.Y) || isNilConst(b.X)) && cd.Pol == (b.Op == token.EQL) && isErrOf(b.X, in)
						}
						f := p.fwd(c, nil, ok, func(in ssa.Instruction, e *Env) bool {
							ret, isR := in.(*ssa.Return)
							return isR && len(ret.Results) == 2 && !isNilConst(ret.Results[1])
						})
						if bad := f.after(in, e); bad != nil {
							r.Bad(rule, "userCache", r.at(bad), "the cache of a user may be used although it is not told of what happens")
						}
					})
				}
			}
			// connections
			const mc = "sync3.(*Conn)."
			r.forwards(c, rule, mc+"OnUpdate", "Conn", "an update may not reach the connection's handler", nil, nil, callTo(c, "sync3.(ConnHandler).OnUpdate", "$0.handler", "", "$2"))
			r.Floor(rule, 14)
		})
		// the connections themselves
		p.withOpaque(names{}, func() {
			c := p.chooser()
			r.forwards(c, rule, nConnMap+"ClearUpdateQueues", "ClearUpdateQueues", "events of a connection of the user may not be released", isPath("$0.userIDToConn[]"), nil,
				callTo(c, "sync3.(ConnHandler).PublishEventsUpTo", "$0.userIDToConn[][].handler", "$2", "$3"))
		})
		p.withOpaque(names{nConnMap + "Conn", nConnMap + "getConn"}, func() {
			c := p.chooser()
			// Conns returns every live connection of the device
			fn := r.Fn(nConnMap + "Conns")
			if fn == nil {
				return
			}
			r.Ob(rule, "Conns")
			f := p.fwd(c, isPath("$0.userIDToConn[]"), func(cd Cond) bool {
				if b, ok := cd.V.(*ssa.BinOp); ok {
					x, y := c.Path(b.X, cd.E), c.Path(b.Y, cd.E)
					if y == "$0.userIDToConn[][].ConnID.DeviceID" {
						x, y = y, x
					}
					if strings.HasPrefix(x, "$0.userIDToConn[][].") && strings.HasSuffix(x, "DeviceID") && y == "$2" && cd.Pol == (b.Op.String() == "!=") {
						return true // another device
					}
					if isNilConst(b.Y) && cd.Pol == (b.Op.String() == "==") && (strings.HasPrefix(x, nConnMap+"Conn(") || strings.HasPrefix(x, nConnMap+"getConn(")) {
						return true // closed
					}
				}
				if cl, ok := cd.V.(*ssa.Call); ok && callName(&cl.Call) == "sync3.(*Conn).Alive" {
					return !cd.Pol
				}
				return false
			}, func(ssa.Instruction, *Env) bool { return false })
			e := &Env{fn: fn}
			k := c.guard(f.g, e)
			fnInstrs(fn, func(in ssa.Instruction) {
				if ret, ok := in.(*ssa.Return); ok && !k.at(in, nil, 0) && !f.covers(ret.Results[0], e) {
					r.Bad(rule, "Conns", r.at(in), "a connection of the device may be missing from its connections")
				}
			})
		})
	})
}

func isPrivate(c *chooser, cd Cond, pol bool) bool {
	if cd.Pol != pol {
		return false
	}
	pa := c.Path(cd.V, cd.E)
	return strings.HasPrefix(pa, "$1.Receipts[]") && strings.HasSuffix(pa, ".IsPrivate")
}

// isErrOf: v is the (error) result of the call.
func isErrOf(v ssa.Value, call ssa.Instruction) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	x, ok := v.(ssa.Instruction)
	return ok && x == call
}

// receiptsReach: each receipt of an update reaches its author or those in the room.
func receiptsReach(r *Report, c *chooser, rule string) {
	ob := func(method, miss string, item func(string) bool, g CondGuard, want func(in ssa.Instruction, e *Env) bool) {
		r.forwards(c, rule, nSLH+method, method, miss, item, g, want)
	}
	ob("OnReceipt", "a private receipt may not reach the user", isPath("$1.Receipts"), anyCond(func(cd Cond) bool {
		return isPrivate(c, cd, false)
	}, func(cd Cond) bool {
		pa := c.Path(cd.V, cd.E)
		return !cd.Pol && strings.HasPrefix(pa, nSyncLoad) && strings.HasSuffix(pa, ")#1")
	}), func(in ssa.Instruction, e *Env) bool {
		return callTo(c, nUC+"OnReceipt", nSyncLoad+"*")(in, e)
	})
	ob("OnReceipt", "a receipt may not reach those in the room", isPath("$1.Receipts"), func(cd Cond) bool {
		return isPrivate(c, cd, true)
	}, func(in ssa.Instruction, e *Env) bool {
		return callTo(c, nDisp+"OnReceipt", "$0.Dispatcher")(in, e)
	})
}
