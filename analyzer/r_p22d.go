package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nLsn  = "sync3/caches.(UserCacheListener)."
	nCS   = "sync3/handler.(*ConnState)."
	nLive = "sync3/handler.(*connStateLive)."
	nTW   = "sync3/handler.(*TxnIDWaiter)."
)

func init() {
	reg("P22", "the user cache passes each update on to every connection of the user", func(r *Report) {
		const rule = "user cache"
		p := r.P
		p.withOpaque(liveOpaque(p), func() {
			c := p.chooser()
			lst := isPath("$0.listeners")
			tell := func(method, typ string) func(in ssa.Instruction, e *Env) bool {
				return func(in ssa.Instruction, e *Env) bool {
					cl := asCall(in)
					if cl == nil || callName(cl) != nLsn+method {
						return false
					}
					// what is told
					return c.hasType(cl.Args[1], e, typ)
				}
			}
			ob := func(method, miss string, item func(string) bool, g CondGuard, want func(in ssa.Instruction, e *Env) bool) {
				r.forwards(c, rule, nUC+method, method, miss, item, g, want)
			}
			const up = "sync3/caches."
			ob("OnNewEvent", "an event may not reach a connection of the user", lst, nil, tell("OnRoomUpdate", up+"RoomEventUpdate"))
			ob("OnReceipt", "a receipt may not reach a connection of the user", lst, nil, tell("OnRoomUpdate", up+"ReceiptUpdate"))
			ob("OnUnreadCounts", "changed unread counts may not reach a connection of the user", lst, nil, tell("OnRoomUpdate", up+"UnreadCountUpdate"))
			ob("OnLeftRoom", "that the user left a room may not reach a connection of the user", lst, nil, tell("OnRoomUpdate", up+"RoomEventUpdate"))
			ob("OnInvite", "an invite may not reach a connection of the user", lst, func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				return ok && cd.Pol == (b.Op == token.EQL) && (isNilConst(b.Y) || isNilConst(b.X)) && (strings.HasPrefix(c.Path(b.X, cd.E), up+"NewInviteData(") || strings.HasPrefix(c.Path(b.Y, cd.E), up+"NewInviteData("))
			}, tell("OnRoomUpdate", up+"InviteUpdate"))
			ob("OnEphemeralEvent", "a typing notification may not reach a connection of the user", lst, func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok {
					return false
				}
				x, isX := strConst(b.X)
				y, isY := strConst(b.Y)
				return (isX && x == "m.typing" || isY && y == "m.typing") && cd.Pol == (b.Op == token.NEQ)
			}, tell("OnRoomUpdate", up+"TypingUpdate"))
			ob("OnSpaceUpdate", "that a room was added to or removed from a space may not reach a connection of the user", lst, func(cd Cond) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && !cd.Pol && strings.HasSuffix(callName(&cl.Call), "IsUserJoined") && callArg(c, cl, cd.E, 0) == "$0.UserID" && callArg(c, cl, cd.E, 1) == "$3"
			}, tell("OnRoomUpdate", up+"RoomEventUpdate"))
			// account data: global and of rooms
			global := func(cd Cond, is bool) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok {
					return false
				}
				for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if k, ok := strConst(pr[0]); ok && k == "" && types.Identical(pr[1].Type().Underlying(), types.Typ[types.String]) {
						return (cd.Pol == (b.Op == token.EQL)) == is
					}
				}
				return false
			}
			data := isPath("$2", "$0.listeners")
			ob("OnAccountData", "changed account data of the user may not reach a connection", data, func(cd Cond) bool { return global(cd, false) }, tell("OnUpdate", up+"AccountDataUpdate"))
			ob("OnAccountData", "changed account data of a room may not reach a connection", data, func(cd Cond) bool { return global(cd, true) }, tell("OnRoomUpdate", up+"RoomAccountDataUpdate"))
			// who listens
			r.forwards(c, rule, nUC+"Subscribe", "Subscribe", "a connection which subscribes is not told of updates", nil, nil, func(in ssa.Instruction, e *Env) bool {
				m, ok := in.(*ssa.MapUpdate)
				return ok && c.Path(m.Map, e) == "$0.listeners" && c.Path(m.Value, e) == "$1"
			})
			r.forwards(c, rule, nCS+"Destroy", "Destroy", "a connection which is gone goes on receiving updates", nil, nil, callTo(c, nUC+"Unsubscribe", "", "$0.userCacheID"))
			r.Floor(rule, 11)
		})
		// every new connection subscribes itself
		p.withOpaque(names{}, func() {
			c := p.chooser()
			r.forwards(c, rule, "sync3/handler.NewConnState", "NewConnState", "a new connection is not told of updates", nil, nil, func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				if cl == nil || callName(cl) != nUC+"Subscribe" {
					return false
				}
				return typeName(stripIface(cl.Args[1]).Type()) == "sync3/handler.ConnState"
			})
		})
	})

	reg("P22", "each update which reaches a connection is kept for it until it is processed, and processing passes it to the lists, subscriptions and extensions", func(r *Report) {
		const rule = "connection"
		p := r.P
		p.withOpaque(liveOpaque(p), func() {
			c := p.chooser()
			r.forwards(c, rule, nCS+"OnUpdate", "OnUpdate", "an update may not be kept for the connection", nil, nil, callTo(c, nTW+"Ingest", "", "$2"))
			zeroNID := func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok {
					return false
				}
				for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if isIntConst(pr[1], 0) && c.Path(pr[0], cd.E) == "$2.EventData.NID" {
						return b.Op == token.EQL && cd.Pol || b.Op == token.NEQ && !cd.Pol
					}
				}
				return false
			}
			r.forwards(c, rule, nCS+"OnRoomUpdate", "OnRoomUpdate", "an update of a room may not be kept for the connection", nil, func(cd Cond) bool {
				if t, ok := asserts(cd); ok && t == "sync3/caches.RoomUpdate" {
					return !cd.Pol
				}
				return zeroNID(cd)
			}, func(in ssa.Instruction, e *Env) bool {
				return callTo(c, nTW+"Ingest", "", "$2")(in, e) || callTo(c, nLive+"onUpdate", "", "$2")(in, e)
			})
			// waiting for transaction IDs
			published := func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				return cl != nil && !cl.IsInvoke() && c.Path(cl.Value, e) == "$0.publish" && c.Path(cl.Args[len(cl.Args)-1], e) == "$1"
			}
			r.forwards(c, rule, nTW+"Ingest", "Ingest keeps", "an update may neither be published nor queued", nil, nil, func(in ssa.Instruction, e *Env) bool {
				if published(in, e) {
					return true
				}
				m, ok := in.(*ssa.MapUpdate)
				if !ok || c.Path(m.Map, e) != "$0.queues" {
					return false
				}
				for _, s := range p.sources(m.Value) {
					if cl, ok := s.(*ssa.Call); ok && callName(&cl.Call) == "builtin.append" {
						for _, l := range p.elems(cl.Call.Args[1]) {
							if c.Path(l.Val, e) == "$1" {
								return true
							}
						}
					}
				}
				return false
			})
			r.forwards(c, rule, nTW+"Ingest", "Ingest releases", "an update may be queued for ever", nil, nil, func(in ssa.Instruction, e *Env) bool {
				if published(in, e) {
					return true
				}
				cl := asCall(in)
				if cl == nil || callName(cl) != "time.AfterFunc" {
					return false
				}
				for _, s := range p.sources(cl.Args[1]) {
					mc, ok := s.(*ssa.MakeClosure)
					if !ok {
						continue
					}
					g, _ := mc.Fn.(*ssa.Function)
					if g == nil || len(g.Blocks) == 0 {
						continue
					}
					ne := &Env{up: e, fn: g, site: in, d: e.d + 1}
					f := p.fwd(c, nil, nil, callTo(c, nTW+"PublishUpToNID", "$0", "$1.EventData.RoomID", "$1.EventData.NID"))
					if f.must(ne) == nil {
						return true
					}
				}
				return false
			})
			r.forwards(c, rule, nCS+"PublishEventsUpTo", "PublishEventsUpTo", "events which wait for their transaction ID may not be released", nil, nil, callTo(c, nTW+"PublishUpToNID", "", "$1", "$2"))
			// the buffer
			full := func(cd Cond) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && cd.Pol && callName(&cl.Call) == "sync/atomic.(*Bool).Load" && c.Path(cl.Call.Args[0], cd.E) == "$0.bufferFull"
			}
			destroyed := func(in ssa.Instruction, e *Env) bool { return isDestroy(in) || calls(in, names{nCS + "Destroy"}) }
			markFull := func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				return cl != nil && callName(cl) == "sync/atomic.(*Bool).Store" && c.Path(cl.Args[0], e) == "$0.bufferFull"
			}
			r.forwards(c, rule, nLive+"onUpdate", "buffer", "an update may be lost although the connection goes on", nil, full, func(in ssa.Instruction, e *Env) bool {
				switch x := in.(type) {
				case *ssa.Send:
					return c.Path(x.X, e) == "$1"
				case *ssa.Select:
					i := sends(c, x, e, "$1")
					if i < 0 {
						return false
					}
					sent := func(cd Cond) bool { return selected(x, i)(Cond{cd.V, !cd.Pol, cd.E}) }
					return p.fwd(c, nil, sent, destroyed).after(x, e) == nil && p.fwd(c, nil, sent, markFull).after(x, e) == nil
				}
				return false
			})
			if fn := r.Fn(nLive + "liveUpdate"); fn != nil {
				n := r.received(c, rule, fn, "sync3/caches.Update", "an update which was taken from the buffer may not be processed", func(in ssa.Instruction, e *Env) bool {
					return calls(in, names{nLive + "processUpdate"}) || calls(in, names{nLive + "processLiveUpdate"})
				}, nil)
				if n == 0 {
					r.Bad(rule, "liveUpdate", p.Pos(fn.Pos()), "no update is taken from the buffer")
				}
			}
			r.forwards(c, rule, nLive+"processUpdate", "processUpdate lists", "an update may not be passed to the lists and subscriptions", nil, nil, callTo(c, nLive+"processLiveUpdate", "", "", "$2", "$3"))
			r.forwards(c, rule, nLive+"processUpdate", "processUpdate extensions", "an update may not be passed to the extensions", nil, nil, callTo(c, "sync3/extensions.(HandlerInterface).HandleLiveUpdate", "", "", "$2", "$4"))
			exts := isPath("sync3/extensions.(Request).EnabledExtensions($3)", "sync3/extensions.(Request).EnabledExtensions($2)")
			r.forwards(c, rule, "sync3/extensions.(*Handler).HandleLiveUpdate", "HandleLiveUpdate", "an update may not be passed to an extension which is enabled", exts, nil, callTo(c, "sync3/extensions.(GenericRequest).AppendLive", "", "", "$4", "", "$2"))
			r.forwards(c, rule, "sync3/extensions.(*Handler).Handle", "Handle", "an extension which is enabled may not be asked for its data", exts, nil, callTo(c, "sync3/extensions.(GenericRequest).ProcessInitial", ""))
			// processing
			stale := func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok {
					return false
				}
				x, y := c.Path(b.X, cd.E), c.Path(b.Y, cd.E)
				lp, nid := "$0.ConnState.loadPositions[]", "$2.EventData.NID"
				switch b.Op {
				case token.LSS:
					return x == nid && y == lp && cd.Pol
				case token.GTR:
					return x == lp && y == nid && cd.Pol
				case token.GEQ:
					return x == nid && y == lp && !cd.Pol
				case token.LEQ:
					return x == lp && y == nid && !cd.Pol
				}
				return false
			}
			ignored := func(cd Cond) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && cd.Pol && callName(&cl.Call) == nUC+"ShouldIgnore" && callArg(c, cl, cd.E, 0) == "$2.EventData.Sender"
			}
			skip := anyCond(stale, ignored)
			notRoom := func(cd Cond) bool {
				t, ok := asserts(cd)
				return ok && t == "sync3/caches.RoomUpdate" && !cd.Pol
			}
			pl := nLive + "processLiveUpdate"
			r.forwards(c, rule, pl, "lists are updated", "a room may not be updated in the lists", nil, anyCond(skip, notRoom), func(in ssa.Instruction, e *Env) bool {
				return calls(in, names{"sync3.(*InternalRequestLists).SetRoom"})
			})
			r.forwards(c, rule, pl, "subscriptions are updated", "a room subscription may not get the update", nil, skip, callTo(c, nLive+"processUpdatesForSubscriptions", ""))
			setRoom := func(pa string) bool {
				return strings.HasPrefix(pa, "sync3.(*InternalRequestLists).SetRoom(") && strings.HasSuffix(pa, ").Lists")
			}
			r.forwards(c, rule, pl, "every list", "a list may not get the update", setRoom, skip, callTo(c, nLive+"processLiveUpdateForList", ""))
			r.forwards(c, rule, pl, "every list is answered", "what changed in a list may be missing from the response", setRoom, skip, func(in ssa.Instruction, e *Env) bool {
				m, ok := in.(*ssa.MapUpdate)
				return ok && c.Path(m.Map, e) == "$3.Lists"
			})
			built := isPath(nCS+"buildRooms(*", "sync3/handler.(*ConnState).buildRooms*")
			r.forwards(c, rule, pl, "new rooms", "rooms which came into view may be missing from the response", built, skip, func(in ssa.Instruction, e *Env) bool {
				m, ok := in.(*ssa.MapUpdate)
				return ok && c.Path(m.Map, e) == "$3.Rooms"
			})
			// the event itself
			const evd = "$2.EventData"
			noUpdates := func(cd Cond) bool {
				if cd.Pol {
					return false
				}
				any := false
				for pa := range c.Paths(cd.V, cd.E) {
					if strings.HasPrefix(pa, nLive+"processUpdatesForSubscriptions(") {
						any = true
					} else if pa != "true" && pa != "false" {
						return false
					}
				}
				return any
			}
			loaded := func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				if !ok {
					return false
				}
				x, y := c.Path(b.X, cd.E), c.Path(b.Y, cd.E)
				lp, nid := "$0.ConnState.loadPositions[]", evd+".NID"
				switch b.Op {
				case token.LEQ, token.LSS:
					return x == nid && y == lp && cd.Pol || b.Op == token.LSS && x == lp && y == nid && !cd.Pol
				case token.GEQ, token.GTR:
					return x == lp && y == nid && cd.Pol || b.Op == token.GTR && x == nid && y == lp && !cd.Pol
				}
				return false
			}
			nothing := anyCond(skip, noUpdates, func(cd Cond) bool { return c.is(cd, "$2", "nil") || c.is(cd, evd+".Event", "nil") })
			p.withOpaque(append(liveOpaque(p), nLive+"processUpdatesForSubscriptions", nLive+"processLiveUpdateForList"), func() {
				timeline := func(in ssa.Instruction, e *Env) bool {
					return fieldStore("sync3.Room", "Timeline")(in) && e.d < 3
				}
				r.forwards(c, rule, pl, "timeline", "a live event may be missing from the timeline of its room", nil, anyCond(nothing, loaded), timeline)
				r.forwards(c, rule, pl, "timeline kept", "the room of a live event may be missing from the response", nil, nothing, func(in ssa.Instruction, e *Env) bool {
					m, ok := in.(*ssa.MapUpdate)
					return ok && c.Path(m.Map, e) == "$3.Rooms" && innermostLoop(in.Block()) == nil
				})
			})
			r.Floor(rule, 19)
		})
		// which extensions
		p.withOpaque(names{"sync3/extensions.isNil", "sync3/extensions.ExtensionEnabled", "sync3/extensions.(*Request).fields", "sync3/extensions.(Response).fields"}, func() {
			c := p.chooser()
			isCall := func(cd Cond, pol bool, n ...string) bool {
				cl, ok := cd.V.(*ssa.Call)
				return ok && cd.Pol == pol && names(n).has(callName(&cl.Call))
			}
			if fn := r.Fn("sync3/extensions.(Request).EnabledExtensions"); fn != nil {
				r.Ob(rule, "enabled extensions")
				f := p.fwd(c, isPath("sync3/extensions.(*Request).fields(*"), func(cd Cond) bool {
					return isCall(cd, true, "sync3/extensions.isNil") || isCall(cd, false, "sync3/extensions.ExtensionEnabled")
				}, func(ssa.Instruction, *Env) bool { return false })
				e := &Env{fn: fn}
				fnInstrs(fn, func(in ssa.Instruction) {
					if ret, ok := in.(*ssa.Return); ok && !f.covers(ret.Results[0], e) {
						r.Bad(rule, "EnabledExtensions", r.at(in), "an extension which is enabled may be left out")
					}
				})
			}
			if fn := r.Fn("sync3/extensions.(Response).HasData"); fn != nil {
				r.Ob(rule, "HasData")
				yes := func(in ssa.Instruction, _ *Env) bool {
					ret, ok := in.(*ssa.Return)
					if !ok {
						return false
					}
					v, ok := boolConst(ret.Results[0])
					return !ok || v
				}
				for _, e := range p.contexts(fn) {
					fnInstrs(e.fn, func(in ssa.Instruction) {
						if !calls(in, names{"sync3/extensions.(GenericResponse).HasData"}) {
							return
						}
						if h := innermostLoop(in.Block()); h != nil {
							if c.skips(h, e, callPred("sync3/extensions.(GenericResponse).HasData"), func(cd Cond) bool { return isCall(cd, true, "sync3/extensions.isNil") }) || wholeLoop(h) == nil {
								r.Bad(rule, "HasData", r.at(in), "data of an extension may be overlooked")
							}
						}
						f := p.fwd(c, nil, func(cd Cond) bool { return isCall(cd, false, "sync3/extensions.(GenericResponse).HasData") }, yes)
						if bad := f.after(in, e); bad != nil && e.up == nil {
							r.Bad(rule, "HasData", r.at(bad), "data of an extension may be overlooked")
						}
					})
				}
			}
		})
		for _, t := range []string{"Request", "Response"} {
			named := p.namedType(r, "sync3/extensions."+t)
			st, ok := named.Underlying().(*types.Struct)
			fn := p.Funcs["sync3/extensions.("+t+").fields"]
			if fn == nil {
				fn = p.Funcs["sync3/extensions.(*"+t+").fields"]
			}
			if !ok || fn == nil {
				continue // another way to go through them
			}
			r.Ob(rule, "fields of "+t)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i).Name()
				found := false
				fnInstrs(fn, func(in ssa.Instruction) {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						found = found || fieldName(x.X.Type(), x.Field) == f
					case *ssa.Field:
						found = found || fieldName(x.X.Type(), x.Field) == f
					}
				})
				if !found {
					r.Bad(rule, t+".fields", p.Pos(fn.Pos()), "the extension "+f+" is left out")
				}
			}
		}
		// the events which are released
		p.withOpaque(names{}, func() {
			c := p.chooser()
			fn := r.Fn(nTW + "PublishUpToNID")
			if fn == nil {
				return
			}
			r.Ob(rule, "released events")
			var heads, tails []*ssa.Slice
			for _, e := range p.contexts(fn) {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					s, ok := in.(*ssa.Slice)
					if !ok || c.Path(s.X, e) != "$0.queues[]" {
						return
					}
					lowZero := s.Low == nil || isIntConst(s.Low, 0)
					if s.High != nil && lowZero {
						heads = append(heads, s)
					}
					if !lowZero && s.High == nil {
						tails = append(tails, s)
					}
				})
			}
			for _, h := range heads {
				for _, t := range tails {
					if !p.same(h.High, t.Low) {
						r.Bad(rule, "PublishUpToNID", r.at(t), "an event may be neither released nor kept, or both")
					}
				}
			}
			pub := func(in ssa.Instruction) bool {
				cl := asCall(in)
				return cl != nil && !cl.IsInvoke() && cl.StaticCallee() == nil && strings.HasSuffix(c.Path(cl.Value, &Env{fn: in.Parent()}), ".publish")
			}
			for _, e := range p.contexts(fn) {
				for _, h := range headers(e.fn) {
					hit := false
					for b := range loopBlocks(h) {
						for _, in := range b.Instrs {
							hit = hit || pub(in)
						}
					}
					if !hit {
						continue
					}
					later := func(cd Cond) bool { // the event is not to be released yet
						b, ok := cd.V.(*ssa.BinOp)
						return ok && (strings.HasSuffix(c.Path(b.X, cd.E), ".NID") || strings.HasSuffix(c.Path(b.Y, cd.E), ".NID"))
					}
					if c.skips(h, e, pub, later) {
						r.Bad(rule, "PublishUpToNID", r.at(last(h)), "an event which is released may not be published")
					}
				}
			}
		})
	})
}
