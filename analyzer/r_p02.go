package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const notify = "pubsub.(Notifier).Notify"

// litFields: the field values a composite literal (or freshly allocated struct) was given in the function allocating it.
func litFields(x *Explorer, s *State, cv CV) (string, map[string]*Term) {
	r := x.resolve(s, cv)
	for {
		if mi, ok := r.v.(*ssa.MakeInterface); ok {
			r = x.resolve(s, mkCV(r.c, mi.X))
			continue
		}
		if u, ok := r.v.(*ssa.UnOp); ok && u.Op.String() == "*" {
			if a, isA := x.resolveAddr(s, mkCV(r.c, u.X)); isA {
				r = a
				continue
			}
		}
		break
	}
	al, ok := r.v.(*ssa.Alloc)
	if !ok {
		if r.v == nil {
			return "", nil
		}
		return typeName(r.v.Type()), nil
	}
	out := map[string]*Term{}
	collectFields(x, s, r.c, al, "", out)
	return typeName(al.Type()), out
}

func collectFields(x *Explorer, s *State, c *Ctx, addr ssa.Value, prefix string, out map[string]*Term) {
	for _, ref := range *addr.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == addr && prefix == "" {
				// whole-struct store: copy of another literal
				if _, sub := litFields(x, s, mkCV(c, st.Val)); sub != nil {
					for k, v := range sub {
						out[k] = v
					}
				}
			}
			continue
		}
		nm := prefix + fieldName(fa.X.Type(), fa.Field)
		for _, r2 := range *fa.Referrers() {
			switch i := r2.(type) {
			case *ssa.Store:
				if i.Addr == fa {
					out[nm] = x.Term(s, mkCV(c, i.Val))
				}
			case *ssa.FieldAddr:
				collectFields(x, s, c, fa, nm+".", out)
			}
		}
	}
}

type announce struct {
	method  string            // handler callback
	store   string            // storage call which must succeed first
	payload string            // payload announced
	fields  map[string]string // payload field -> regexp over its term
	skips   []skip            // literals under which nothing needs announcing (any one suffices, unless grouped)
	noErr   bool              // callback cannot report errors (by interface)
	args    map[int]string    // storage call arguments
}

type skip struct {
	re  string
	pol bool
	grp int // literals of the same non-zero group must all be crossed
}

func announcements() []announce {
	return []announce{
		{method: "Accumulate", store: "state.(*Storage).Accumulate", payload: "pubsub.V2Accumulate",
			fields: map[string]string{"RoomID": `^\$4$`, "EventNIDs": `\.TimelineNIDs$`, "PrevBatch": `^\$5\.PrevBatch$`},
			skips:  []skip{{`\.NumNew == 0\)$`, true, 0}}, args: map[int]string{0: `^\$2$`, 1: `^\$4$`, 2: `^\$5$`}},
		{method: "Initialise", store: "state.(*Storage).Initialise", payload: "pubsub.V2Initialise",
			fields: map[string]string{"RoomID": `^\$2$`, "SnapshotNID": `\.SnapshotID$`},
			skips:  []skip{{`\.ReplacedExistingSnapshot$`, true, 0}, {`\.AddedEvents$`, false, 0}}, args: map[int]string{0: `^\$2$`, 1: `^\$3$`}},
		{method: "Initialise", store: "state.(*Storage).Initialise", payload: "pubsub.V2InvalidateRoom",
			fields: map[string]string{"RoomID": `^\$2$`},
			skips:  []skip{{`\.ReplacedExistingSnapshot$`, false, 0}}},
		{method: "OnReceipt", store: "state.(*ReceiptTable).Insert", payload: "pubsub.V2Receipt", noErr: true,
			fields: map[string]string{"RoomID": `^\$3$`, "Receipts": `ReceiptTable\)\.Insert\(.*#0$`},
			skips:  []skip{{`^\(len\(.*ReceiptTable\)\.Insert\(.*#0\) == 0\)$`, true, 0}}, args: map[int]string{0: `^\$3$`, 1: `^\$5$`}},
		{method: "AddToDeviceMessages", store: "state.(*ToDeviceTable).InsertMessages", payload: "pubsub.V2DeviceMessages",
			fields: map[string]string{"UserID": `^\$2$`, "DeviceID": `^\$3$`}, args: map[int]string{0: `^\$2$`, 1: `^\$3$`, 2: `^\$4$`}},
		{method: "UpdateUnreadCounts", store: "state.(*UnreadTable).UpdateUnreadCounters", payload: "pubsub.V2UnreadCounts", noErr: true,
			fields: map[string]string{"RoomID": `^\$2$`, "UserID": `^\$3$`, "HighlightCount": `^\$4$`, "NotificationCount": `^\$5$`},
			args:   map[int]string{0: `^\$3$`, 1: `^\$2$`, 2: `^\$4$`, 3: `^\$5$`}},
		{method: "OnAccountData", store: "state.(*Storage).InsertAccountData", payload: "pubsub.V2AccountData",
			fields: map[string]string{"UserID": `^\$2$`, "RoomID": `^\$3$`}, args: map[int]string{0: `^\$2$`, 1: `^\$3$`}},
		{method: "OnInvite", store: "state.(*InvitesTable).InsertInvite", payload: "pubsub.V2InviteRoom",
			fields: map[string]string{"UserID": `^\$2$`, "RoomID": `^\$3$`}, args: map[int]string{0: `^\$2$`, 1: `^\$3$`, 2: `^\$4$`}},
		{method: "OnLeftRoom", store: "state.(*InvitesTable).RemoveInvite", payload: "pubsub.V2LeaveRoom",
			fields: map[string]string{"UserID": `^\$2$`, "RoomID": `^\$3$`, "LeaveEvent": `^\$4$`}, args: map[int]string{0: `^\$2$`, 1: `^\$3$`}},
	}
}

// payloadOf names the payload type of a Notify call.
func payloadOf(e Ev) (string, map[string]*Term) {
	c := asCall(e.In)
	return litFields(e.X, e.S, mkCV(e.S.ctx, c.Args[1]))
}

// staticPayload: payload type from the static type of the argument.
func staticPayload(in ssa.Instruction) string {
	c := asCall(in)
	if c == nil || len(c.Args) < 2 {
		return ""
	}
	v := c.Args[1]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	return typeName(v.Type())
}

func stopNever(*ssa.Function) bool { return false }

func init() {
	reg("P02", "a failed storage call is never followed by an announcement or remembered as a duplicate, and is reported upward", func(r *Report) {
		const rule = "failure-not-announced"
		for _, a := range announcements() {
			root := r.Fn("sync2/handler2.(*Handler)." + a.method)
			forb := orPred(callPred(notify, "sync2.(*DeviceDataTicker).Remember", "sync.(*Map).Store"), func(in ssa.Instruction) bool {
				_, ok := in.(*ssa.MapUpdate)
				return ok && isHandlerMap(in.(*ssa.MapUpdate))
			})
			failFlow(r, rule, root, callPred(a.store), forb, nil, !a.noErr, false, "a change that was not stored is announced, remembered or acknowledged", nil)
		}
		root := r.Fn("sync2/handler2.(*Handler).OnE2EEData")
		failFlow(r, rule, root, callPred("state.(*DeviceDataTable).Upsert"), callPred(notify, "sync2.(*DeviceDataTicker).Remember"), nil, true, false, "device data that was not stored is announced or acknowledged", nil)
		r.Floor(rule, 10)
	})
	reg("P02", "every stored change is announced with its own identifiers, after it was stored", func(r *Report) {
		const rule = "stored-then-announced"
		for _, a := range announcements() {
			a := a
			root := r.P.Funcs["sync2/handler2.(*Handler)."+a.method]
			if root == nil {
				continue
			}
			const stored, ann, skipped, dedupe1, dedupe2 = 1, 2, 4, 8, 16
			nStore, nAnn := 0, 0
			r.Path(PathRule{Rule: rule, Root: root, Calls: []string{a.store, notify, "sync.(*Map).Store"},
				Stop: func(f *ssa.Function) bool { return relPkg(fnPkg(f).Path()) == "state" },
				Inst: func(in ssa.Instruction) bool { m, ok := in.(*ssa.MapUpdate); return ok && isHandlerMap(m) },
				On: func(e Ev) Action {
					switch e.Name {
					case a.store:
						nStore++
						e.S.Bits |= stored
						for i, p := range a.args {
							if t := e.argm(i); !re(p).MatchString(t.String()) {
								r.Bad(rule, shortName(root)+" stored args", r.at(e.In), fmt.Sprintf("argument %d of %s is %s", i+1, siteName(e.In), t))
							}
						}
					case notify:
						ty, f := payloadOf(e)
						if !strings.HasPrefix(ty, "pubsub.V2") {
							r.Bad(rule, shortName(root)+" payload", r.at(e.In), "cannot tell what is announced here")
							return Go
						}
						if e.S.Bits&stored == 0 {
							r.Bad(rule, shortName(root)+" "+ty, r.at(e.In), ty+" is announced before the change is stored", e.S.Trace()...)
						}
						if c := e.arg(0); !c.IsConst(`"v2ch"`) {
							r.Bad(rule, shortName(root)+" "+ty+" channel", r.at(e.In), "announced on channel "+c.String())
						}
						if ty == a.payload {
							nAnn++
							e.S.Bits |= ann
							for k, p := range a.fields {
								if t := f[k]; t == nil || !re(p).MatchString(t.String()) {
									r.Bad(rule, shortName(root)+" "+ty+"."+k, r.at(e.In), fmt.Sprintf("the announcement's %s is %v", k, f[k]))
								}
							}
						}
					default: // dedupe memory
						if e.S.Bits&stored == 0 {
							r.Bad(rule, shortName(root)+" dedupe", r.at(e.In), "a change is remembered as seen before it is stored: a retry after a failure would be dropped", e.S.Trace()...)
						}
					}
					return Go
				},
				Lit: func(x *Explorer, s *State, l Lit) {
					for _, k := range a.skips {
						if l.is(k.re, k.pol) {
							s.Bits |= skipped
						}
					}
					if !l.Pol && l.Atom.Op == "eq" && l.Atom.Args[1].Op == "nil" && l.Atom.Args[0].HasCall(a.store) && l.Atom.Args[0].CV.v != nil && isErrorType(l.Atom.Args[0].CV.v.Type()) {
						s.Tag = "fail"
					}
					if l.Pol && l.Atom.Op == "eq" {
						if l.Atom.HasField("Highlight") {
							s.Bits |= dedupe1
						}
						if l.Atom.HasField("Notif") {
							s.Bits |= dedupe2
						}
						if l.is(`^\(len\(.*\) == 0\)$`, true) && a.method == "OnAccountData" {
							s.Bits |= dedupe1 | dedupe2
						}
					}
				},
				Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
					if kind != ExitReturn {
						return
					}
					if len(res) > 0 {
						if k, isNil := x.KnownNil(s, res[len(res)-1]); !k || !isNil {
							if s.Bits&stored != 0 && s.Bits&ann == 0 {
								return // the failure is reported
							}
						}
					}
					if s.Bits&stored == 0 {
						if s.Bits&(dedupe1|dedupe2) != dedupe1|dedupe2 {
							r.Bad(rule, shortName(root)+" not stored", r.P.Pos(root.Pos()), "the update is dropped without being stored on a path that is not a duplicate", s.Trace()...)
						}
						return
					}
					if s.Bits&(ann|skipped) == 0 {
						if a.noErr && s.Tag == "fail" {
							return
						}
						r.Bad(rule, shortName(root)+" "+a.payload+" missing", r.P.Pos(root.Pos()), "the change was stored but "+a.payload+" is not announced", s.Trace()...)
					}
				}})
			if nStore == 0 || nAnn == 0 {
				r.Bad(rule, shortName(root)+" "+a.payload, r.P.Pos(root.Pos()), "the callback no longer stores and announces its update")
			}
			r.Ob(rule, shortName(root)+" -> "+a.payload)
		}
		r.Floor(rule, 9)
	})
}

func isHandlerMap(m *ssa.MapUpdate) bool {
	u, ok := m.Map.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || typeName(fa.X.Type()) != "sync2/handler2.Handler" {
		return false
	}
	return fieldName(fa.X.Type(), fa.Field) == "unreadMap"
}

var _ = types.Typ
