package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const recvIface = "sync2.(V2DataReceiver)."

// receiver callbacks which report storage failures
func recvCallbacks(r *Report) (withErr, noErr names) {
	for _, m := range r.P.ifaceMethods("sync2", "V2DataReceiver") {
		if hasErrResult(m) {
			withErr = append(withErr, recvIface+m.Name())
		} else {
			noErr = append(noErr, recvIface+m.Name())
		}
	}
	return
}

const doSyncV2 = "sync2.(Client).DoSyncV2"

func init() {
	reg("P01", "transient failure of any storage callback never reaches a position advance before the response is re-fetched", func(r *Report) {
		cb, _ := recvCallbacks(r)
		if len(cb) < 6 {
			r.Bad("anchor", "V2DataReceiver", "-", "receiver interface lost its error-returning callbacks")
		}
		root := r.Fn("sync2.(*poller).Poll")
		isCB := func(in ssa.Instruction) bool { return calls(in, cb) }
		adv := orPred(fieldStore("sync2.pollLoopState", "since"), callPred(recvIface+"UpdateDeviceSince"))
		failFlow(r, "advance-after-store", root, isCB, adv, callPred(doSyncV2), false, true,
			"the upstream position advances past data that was not stored", nil)
		r.Floor("advance-after-store", 8)
	})
	reg("P01", "every section of a response is handed over (or seen empty) before the position advances, and every room of it in full", p01Sections)
	reg("P01", "the position stored is the response's own next_batch, for this user and device, and the next request resumes from it", p01Position)
	reg("P01", "the serialising layer between pollers and storage waits for each callback and hands back its error", p01PollerMap)
}

var roomSections = []string{"Join", "Leave", "Invite"}

func p01Sections(r *Report) {
	const rule = "sections-before-advance"
	root := r.Fn("sync2.(*poller).Poll")
	type ob struct {
		bit  uint
		name string
	}
	secs := []ob{{0, "to-device messages"}, {1, "global account data"}, {2, "device list changes"}, {3, "joined rooms"}, {4, "left rooms"}, {5, "invited rooms"}}
	const fetched = 1 << 6
	iter := map[string][]ob{
		"Join":   {{8, "room state"}, {9, "room account data"}, {10, "room timeline"}, {11, "unread counts"}, {12, "ephemeral events"}},
		"Leave":  {{13, "left room timeline"}, {14, "leave event"}},
		"Invite": {{15, "invite state"}},
	}
	inBit := map[string]uint64{"Join": 1 << 16, "Leave": 1 << 17, "Invite": 1 << 18}
	const exempt, typing, receipt = 1 << 19, 1 << 20, 1 << 21
	const hcNil, ncNil = 1 << 22, 1 << 23
	clearSec := func(sec string) uint64 {
		m := uint64(exempt | typing | receipt | hcNil | ncNil)
		for _, o := range iter[sec] {
			m |= 1 << o.bit
		}
		return m
	}
	secOf := func(t *Term) string {
		for _, sc := range roomSections {
			if t.HasField(sc) || t.Find(func(y *Term) bool {
				return y.CV.v != nil && strings.HasSuffix(typeName(y.CV.v.Type()), "SyncV2"+sc+"Response")
			}) != nil {
				return sc
			}
		}
		return ""
	}
	cbErr, cbNo := recvCallbacks(r)
	evs := append(append([]string{doSyncV2}, cbErr...), cbNo...)
	seenAdv := map[string]bool{}
	isAdv := fieldStore("sync2.pollLoopState", "since")
	iterSeen := map[string]bool{}
	rangeSec := func(in *ssa.BasicBlock, x *Explorer, s *State) string {
		for _, i := range in.Instrs {
			if nx, ok := i.(*ssa.Next); ok {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					return secOf(x.Term(s, mkCV(s.ctx, rg.X)))
				}
			}
		}
		return ""
	}
	// does the loop headed by hdr hand anything over?
	loopHas := func(x *Explorer, hdr *ssa.BasicBlock) bool {
		for _, b := range hdr.Parent().Blocks {
			if !hdr.Dominates(b) || !reaches(b, hdr) {
				continue
			}
			for _, in := range b.Instrs {
				if c := asCall(in); c != nil {
					if names(evs).has(callName(c)) {
						return true
					}
					if fn := c.StaticCallee(); fn != nil && x.rel[fn] {
						return true
					}
				}
			}
		}
		return false
	}
	r.Path(PathRule{Rule: rule, Root: root, Calls: evs, Inst: isAdv,
		On: func(e Ev) Action {
			s := e.S
			if isAdv(e.In) {
				if s.Bits&fetched == 0 {
					return Go
				}
				seenAdv[r.at(e.In)] = true
				for _, o := range secs {
					if s.Bits&(1<<o.bit) == 0 {
						r.Bad(rule, "sync2.(*poller).poll "+o.name, r.at(e.In), "the position advances on a path where the response's "+o.name+" were neither handed over nor empty", s.Trace()...)
					}
				}
				return Go
			}
			switch {
			case e.isCall(doSyncV2):
				s.Bits = fetched
			case e.isCall(recvIface + "UpdateDeviceSince"):
				for _, o := range secs {
					if s.Bits&(1<<o.bit) == 0 {
						r.Bad(rule, "sync2.(*poller).poll "+o.name, r.at(e.In), "the position is persisted before the response's "+o.name+" were handed over", s.Trace()...)
					}
				}
			case e.isCall(recvIface + "AddToDeviceMessages"):
				if e.argm(3).HasField("ToDevice") {
					s.Bits |= 1 << 0
				}
			case e.isCall(recvIface + "OnE2EEData"):
				if e.argm(5).HasCall("ToDeviceListChangesMap") {
					s.Bits |= 1 << 2
				}
			case e.isCall(recvIface + "OnAccountData"):
				t := e.argm(3)
				if sec := secOf(t); sec == "Join" {
					s.Bits |= 1<<9 | inBit[sec]
				} else if e.argm(2).IsConst(`""`) && t.HasField("AccountData") {
					s.Bits |= 1 << 1
				}
			case e.isCall(recvIface + "Initialise"):
				s.Bits |= 1<<8 | inBit["Join"]
			case e.isCall(recvIface + "Accumulate"):
				switch secOf(e.argm(4)) {
				case "Join":
					s.Bits |= 1<<10 | inBit["Join"]
				case "Leave":
					s.Bits |= 1<<13 | inBit["Leave"]
				}
			case e.isCall(recvIface + "UpdateUnreadCounts"):
				if e.argm(3).HasField("HighlightCount") && e.argm(4).HasField("NotificationCount") {
					s.Bits |= 1 << 11
				}
			case e.isCall(recvIface + "SetTyping"):
				s.Bits &^= typing
				iterSeen["typing"] = true
			case e.isCall(recvIface + "OnReceipt"):
				s.Bits &^= receipt
				iterSeen["receipt"] = true
			case e.isCall(recvIface + "OnLeftRoom"):
				s.Bits |= 1<<14 | inBit["Leave"]
			case e.isCall(recvIface + "OnInvite"):
				s.Bits |= 1<<15 | inBit["Invite"]
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			sec := secOf(l.Atom)
			switch {
			case l.Atom.Op == "rangeok":
				if sec != "" {
					if l.Pol {
						s.Bits &^= clearSec(sec)
						s.Bits |= inBit[sec]
					} else {
						s.Bits |= 1 << map[string]uint{"Join": 3, "Leave": 4, "Invite": 5}[sec]
						s.Bits &^= inBit[sec]
					}
				}
			case l.is(`^\(len\(.*\.ToDevice\.Events\) == 0\)$`, true):
				s.Bits |= 1 << 0
			case l.is(`^\(.*ToDeviceListChangesMap\(.*\) == nil\)$`, true):
				s.Bits |= 1 << 2
			case l.is(`^\(len\(.*\.AccountData\.Events\) == 0\)$`, true):
				if sec == "Join" {
					s.Bits |= 1 << 9
				} else if sec == "" {
					s.Bits |= 1 << 1
				}
			case l.is(`^\(len\(.*\.State\.Events\) == 0\)$`, true):
				s.Bits |= 1 << 8
			case l.is(`^\(len\(.*\.Timeline\.Events\) == 0\)$`, true):
				if sec == "Join" {
					s.Bits |= 1 << 10
				} else if sec == "Leave" {
					s.Bits |= 1 << 13
				}
			case loopDone(l, "Ephemeral.Events") || l.is(`^\(len\(.*\.Ephemeral\.Events\) == 0\)$`, true):
				s.Bits |= 1 << 12
			case sec == "Leave" && loopDone(l, "Timeline.Events"):
				s.Bits |= 1 << 14 // no leave event for this user among them
			case l.is(`HighlightCount == nil\)$`, true):
				s.Bits |= hcNil
				if s.Bits&ncNil != 0 {
					s.Bits |= 1 << 11
				}
			case l.is(`NotificationCount == nil\)$`, true):
				s.Bits |= ncNil
				if s.Bits&hcNil != 0 {
					s.Bits |= 1 << 11
				}
			case l.is(`== "m\.typing"\)$`, true):
				s.Bits |= typing
			case l.is(`== "m\.receipt"\)$`, true):
				s.Bits |= receipt
			case l.Atom.Op == "eq" && !l.Pol && l.Atom.Args[1].Op == "nil" && l.Atom.Args[0].Op == "call" && cbErr.has(l.Atom.Args[0].Name):
				s.Bits |= exempt
			case l.Atom.Op == "eq" && l.Pol && l.Atom.Args[1].Op == "nil" && s.Bits&inBit["Leave"] != 0 && strings.Contains(shortValType(l.Atom.Args[0]), "RawMessage"):
				s.Bits |= 1 << 14 // no leave event for this user
			}
		},
		Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
			if !loopHas(x, hdr) {
				return
			}
			if s.Bits&(typing|receipt) != 0 {
				r.Bad(rule, "sync2.(*poller).parseRoomsResponse ephemeral", r.P.InstrPos(hdr.Instrs[len(hdr.Instrs)-1]), "a typing or receipt event is skipped", s.Trace()...)
			}
			sec := rangeSec(hdr, x, s)
			if sec == "" {
				return
			}
			iterSeen[sec] = true
			if s.Bits&inBit[sec] == 0 || s.Bits&exempt != 0 {
				return
			}
			for _, o := range iter[sec] {
				if s.Bits&(1<<o.bit) == 0 {
					r.Bad(rule, "sync2.(*poller).parseRoomsResponse "+sec+" "+o.name, r.P.InstrPos(hdr.Instrs[len(hdr.Instrs)-1]), "a room of the "+sec+" section can be passed over without handing over its "+o.name, s.Trace()...)
				}
			}
		},
	})
	for k := range seenAdv {
		for range secs {
			r.Ob(rule, "advance at "+k)
		}
	}
	for k := range iterSeen {
		r.Ob(rule, "iteration "+k)
	}
	r.Floor(rule, 8)
}

// loopDone: the literal says that an index loop over a slice ending in field path suffix has run to its end.
func loopDone(l Lit, suffix string) bool {
	return l.Atom.Op == "lt" && !l.Pol && l.Atom.Args[1].Op == "len" && strings.HasSuffix(l.Atom.Args[1].Args[0].String(), suffix) &&
		l.Atom.Args[0].Find(func(t *Term) bool { return t.Op == "phi" }) != nil
}

func shortValType(t *Term) string {
	if t.CV.v == nil {
		return ""
	}
	return t.CV.v.Type().String()
}

// reaches: is there a path from a to b?
func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(*ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, n := range x.Succs {
			if walk(n) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

func p01Position(r *Report) {
	const rule = "position-value"
	root := r.Fn("sync2.(*poller).Poll")
	isAdv := fieldStore("sync2.pollLoopState", "since")
	const fetched, okResp = 1, 2
	r.Path(PathRule{Rule: rule, Root: root, Calls: []string{doSyncV2, recvIface + "UpdateDeviceSince"}, Inst: orPred(isAdv, fieldStore("sync2.poller", "initialToDeviceOnly")),
		On: func(e Ev) Action {
			s := e.S
			if st, ok := e.In.(*ssa.Store); ok {
				v := e.X.Term(s, mkCV(s.ctx, st.Val))
				if !isAdv(e.In) {
					if s.Bits&fetched != 0 && s.Bits&okResp == 0 {
						r.Bad(rule, "sync2.poller.initialToDeviceOnly", r.at(e.In), "the to-device-only mode of the first request is dropped although that request did not succeed", s.Trace()...)
					}
					r.Ob(rule, "initialToDeviceOnly at "+r.at(e.In))
					return Go
				}
				r.Ob(rule, "since at "+r.at(e.In)+" = "+v.String())
				if s.Bits&fetched == 0 {
					if v.Op != "param" {
						r.Bad(rule, "sync2.(*poller).Poll since", r.at(e.In), "the starting position is "+v.String()+", not the stored position passed in")
					}
				} else {
					if v.Op != "field" || v.Name != "NextBatch" {
						r.Bad(rule, "sync2.(*poller).poll since", r.at(e.In), "the position is set to "+v.String()+", not the processed response's next_batch")
					}
					if s.Bits&okResp == 0 {
						r.Bad(rule, "sync2.(*poller).poll since", r.at(e.In), "the position advances although the request did not succeed", s.Trace()...)
					}
				}
				return Go
			}
			switch e.Name {
			case doSyncV2:
				s.Bits = fetched
				r.Ob(rule, "DoSyncV2 at "+r.at(e.In))
				for _, a := range []struct {
					i int
					f string
				}{{1, "accessToken"}, {2, "since"}, {4, "initialToDeviceOnly"}} {
					if t := e.argm(a.i); t.Op != "field" || t.Name != a.f {
						if a.f == "since" && t.Op == "param" {
							continue
						}
						r.Bad(rule, "sync2.(*poller).poll DoSyncV2 "+a.f, r.at(e.In), fmt.Sprintf("the request is made with %s instead of the poller's %s", t, a.f))
					}
				}
			default:
				r.Ob(rule, "UpdateDeviceSince at "+r.at(e.In))
				for i, f := range []string{"userID", "deviceID"} {
					if t := e.argm(i + 1); t.Op != "field" || t.Name != f {
						r.Bad(rule, "sync2.(*poller).poll UpdateDeviceSince "+f, r.at(e.In), fmt.Sprintf("the position is saved under %s instead of the poller's %s", t, f))
					}
				}
				if t := e.argm(3); t.Op != "field" || (t.Name != "since" && t.Name != "NextBatch") {
					r.Bad(rule, "sync2.(*poller).poll UpdateDeviceSince value", r.at(e.In), "the saved position is "+t.String())
				}
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			if l.Atom.Op == "eq" && l.Atom.Args[1].Op == "nil" && l.Pol && l.Atom.Args[0].HasCall("DoSyncV2") && l.Atom.Args[0].Op == "extract" && l.Atom.Args[0].Name == "2" {
				s.Bits |= okResp
			}
		}})
	r.Floor(rule, 4)
}

func p01PollerMap(r *Report) {
	const rule = "executor-passthrough"
	for _, m := range r.P.ifaceMethods("sync2", "V2DataReceiver") {
		root := r.P.method("sync2", "PollerMap", m.Name())
		if root == nil {
			r.Bad("anchor", "sync2.(*PollerMap)."+m.Name(), "-", "the serialising layer lost this callback")
			continue
		}
		nm := recvIface + m.Name()
		if hasErrResult(m) {
			failFlow(r, rule, root, callPred(nm), nil, nil, true, false, "the poller is told that storage succeeded", nil)
		}
		const sent, waited, called, done = 1, 2, 4, 8
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{nm, "sync.(*WaitGroup).Wait", "sync.(*WaitGroup).Done", "builtin.close"},
			Inst: func(in ssa.Instruction) bool {
				switch i := in.(type) {
				case *ssa.Send:
					return true
				case *ssa.UnOp:
					return i.Op.String() == "<-"
				}
				return false
			},
			On: func(e Ev) Action {
				s := e.S
				switch i := e.In.(type) {
				case *ssa.Send:
					if strings.HasPrefix(i.X.Type().Underlying().String(), "func(") {
						s.Bits |= sent
					} else {
						s.Bits |= done
					}
					return Go
				case *ssa.UnOp:
					s.Bits |= waited
					return Go
				}
				switch e.Name {
				case nm:
					if s.Bits&done != 0 {
						r.Bad(rule, shortName(root), r.at(e.In), "completion is signalled before the callback has run", s.Trace()...)
					}
					s.Bits |= called
					for i := 0; i < m.Type().(*types.Signature).Params().Len(); i++ {
						t := e.argm(i)
						if t.Op == "ctx" {
							continue
						}
						if t.String() != fmt.Sprintf("$%d", i+1) {
							r.Bad(rule, shortName(root)+" args", r.at(e.In), fmt.Sprintf("argument %d handed to storage is %s, not the caller's argument %d", i+1, t, i+1))
						}
					}
				case "sync.(*WaitGroup).Wait":
					s.Bits |= waited
				default:
					s.Bits |= done
				}
				return Go
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind != ExitReturn {
					return
				}
				if s.Bits&called == 0 {
					r.Bad(rule, shortName(root), r.P.Pos(root.Pos()), "the callback is not invoked on some path", s.Trace()...)
				}
				if s.Bits&sent != 0 && (s.Bits&waited == 0 || s.Bits&done == 0) {
					r.Bad(rule, shortName(root), r.P.Pos(root.Pos()), "the poller does not wait for the queued callback to finish", s.Trace()...)
				}
			}})
		r.Ob(rule, shortName(root))
	}
	r.Floor(rule, 12)
}

func init() {
	reg("P01", "what the poller remembers of a response in order to hand over only differences is updated after the hand-over succeeded, never before it or in spite of its failure", p01Memory)
}

// pollerMemory: in changes a map or slice the poller keeps between responses.
func pollerMemory(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Store:
		fa, ok := i.Addr.(*ssa.FieldAddr)
		if !ok || typeName(fa.X.Type()) != "sync2.poller" {
			return false
		}
		switch i.Val.Type().Underlying().(type) {
		case *types.Map, *types.Slice:
			return true
		}
	case *ssa.MapUpdate:
		return isLoadOf(i.Map, "sync2.poller", "otkCounts", "fallbackKeyTypes")
	}
	return false
}

func p01Memory(r *Report) {
	const rule = "remember-after-store"
	root := r.Fn("sync2.(*poller).Poll")
	const remembered = 1
	cb := recvIface + "OnE2EEData"
	r.Path(PathRule{Rule: rule, Root: root, Calls: []string{cb, doSyncV2}, Inst: pollerMemory, On: func(e Ev) Action {
		switch {
		case e.isCall(doSyncV2):
			e.S.Bits = 0
		case e.isCall(cb):
			r.Ob(rule, siteName(e.In))
			if e.S.Bits&remembered != 0 {
				r.Bad(rule, shortName(outer(e.In.Parent())), r.at(e.In), "the response is remembered before it is stored: when storing fails, the retried response shows no difference", e.S.Trace()...)
			}
		default:
			if _, local := e.In.(*ssa.Store); local && outer(e.In.Parent()).Name() == "newPoller" {
				return Go
			}
			e.S.Bits |= remembered
			r.Ob(rule, describe(e.In))
		}
		return Go
	}})
	failFlow(r, rule, root, callPred(cb), pollerMemory, callPred(doSyncV2), false, true, "the response is remembered although it was not stored", nil)
	r.Floor(rule, 3)
}
