package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P01", "a failed database operation is never turned into the non-retriable malformed-data error", func(r *Report) {
		const rule = "db-failure-stays-retriable"
		mkDE := orPred(callPred("internal.NewDataError"), func(in ssa.Instruction) bool {
			a, ok := in.(*ssa.Alloc)
			return ok && a.Heap && typeName(a.Type()) == "internal.DataError" && shortName(in.Parent()) != "internal.NewDataError"
		})
		rel := r.P.relevantFuncs(mkDE)
		n := 0
		for _, fn := range r.P.All {
			if fn.Parent() != nil || !rel[fn] || !dbFuncs(r.P)[fn] || !hasErr(fn) {
				continue
			}
			pk := relPkg(fnPkg(fn).Path())
			if pk != "state" && pk != "sync2" {
				continue
			}
			n++
			// modular: a failing call anywhere in fn must not lead to a malformed-data error made in fn or its helpers
			site := storageCall(r.P)
			failFlowStop(r, rule, fn, site, mkDE, func(f *ssa.Function) bool {
				return f.Parent() == nil && shortName(f) != "sqlutil.WithTransaction" && hasErr(f) && dbFuncs(r.P)[f]
			}, "a retriable failure is reported as malformed data, so the position moves on without the data")
		}
		r.Floor(rule, 5)
	})
	reg("P01", "the upstream client reports success only for a 200 response that was decoded in full, and asks from the given position", func(r *Report) {
		const rule = "client-success"
		root := r.Fn("sync2.(*HTTPClient).DoSyncV2")
		const st200, decoded = 1, 2
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{"encoding/json.(*Decoder).Decode", "encoding/json.Unmarshal", "sync2.(*HTTPClient).createSyncURL"},
			On: func(e Ev) Action {
				if strings.HasSuffix(e.Name, "createSyncURL") {
					if e.argm(0).String() != "$2" && e.argm(0).String() != "$3" {
						r.Bad(rule, "sync2.(*HTTPClient).DoSyncV2 since", r.at(e.In), "the request is not made from the given position but "+e.argm(0).String())
					}
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				if l.is(`\.StatusCode == 200\)$`, true) {
					s.Bits |= st200
				}
				if l.Pol && l.Atom.Op == "eq" && l.Atom.Args[1].Op == "nil" && (l.Atom.Args[0].HasCall("Decode") || l.Atom.Args[0].HasCall("Unmarshal")) {
					s.Bits |= decoded
				}
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind != ExitReturn || len(res) != 3 {
					return
				}
				if k, isNil := x.KnownNil(s, res[2]); k && !isNil {
					return
				}
				r.Ob(rule, "success return of DoSyncV2")
				if s.Bits != st200|decoded {
					if x.Term(s, res[2]).HasCall("Decode") {
						return
					}
					r.Bad(rule, "sync2.(*HTTPClient).DoSyncV2", r.P.Pos(root.Pos()), "success is reported although the response was not 200 or did not decode", s.Trace()...)
				}
			}})
		r.Floor(rule, 1)
		u := r.Fn("sync2.(*HTTPClient).createSyncURL")
		const have, need = 1, 2
		n := 0
		r.Path(PathRule{Rule: "client-since", Root: u, Calls: []string{"net/url.QueryEscape", "net/url.(Values).Set", "net/url.(Values).Add"},
			On: func(e Ev) Action {
				c := asCall(e.In)
				if e.X.Term(e.S, mkCV(e.S.ctx, c.Args[len(c.Args)-1])).String() == "$1" {
					e.S.Bits |= have
					n++
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				if l.is(`^\(\$1 == ""\)$`, false) {
					s.Bits |= need
				}
				if l.is(`^\(\$1 == ""\)$`, true) {
					s.Bits |= have
				}
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if s.Bits&have == 0 {
					r.Bad("client-since", "sync2.(*HTTPClient).createSyncURL", r.P.Pos(u.Pos()), "the position is left out of the request", s.Trace()...)
				}
			}})
		if n > 0 {
			r.Ob("client-since", "createSyncURL")
		}
		r.Floor("client-since", 1)
	})
	reg("P02", "device data is waited for, and remembered for announcement under its own user and device once stored", func(r *Report) {
		const rule = "e2ee-stored-then-remembered"
		root := r.Fn("sync2/handler2.(*Handler).OnE2EEData")
		up, rem := "state.(*DeviceDataTable).Upsert", "sync2.(*DeviceDataTicker).Remember"
		const stored, remembered, fail, waited, sent = 1, 2, 4, 8, 16
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{up, rem, "sync.(*WaitGroup).Wait"},
			Stop: func(f *ssa.Function) bool { return relPkg(fnPkg(f).Path()) == "state" },
			Inst: func(in ssa.Instruction) bool {
				switch i := in.(type) {
				case *ssa.Send:
					return true
				case *ssa.UnOp:
					return i.Op.String() == "<-"
				}
				return false
			},
			On: func(e Ev) Action {
				switch e.In.(type) {
				case *ssa.Send:
					e.S.Bits |= sent
					return Go
				case *ssa.UnOp:
					e.S.Bits |= waited
					return Go
				}
				switch e.Name {
				case up:
					e.S.Bits |= stored
					r.Ob(rule, "Upsert at "+r.at(e.In))
					if e.argm(0).String() != "$2" || e.argm(1).String() != "$3" || e.argm(3).String() != "$6" {
						r.Bad(rule, "sync2/handler2.(*Handler).OnE2EEData args", r.at(e.In), "device data is stored under "+e.argm(0).String()+", "+e.argm(1).String()+" with changes "+e.argm(3).String())
					}
					c := asCall(e.In)
					_, f := litFields(e.X, e.S, mkCV(e.S.ctx, c.Args[3]))
					if f == nil || f["OTKCounts"] == nil || f["OTKCounts"].String() != "$4" || f["FallbackKeyTypes"] == nil || f["FallbackKeyTypes"].String() != "$5" {
						r.Bad(rule, "sync2/handler2.(*Handler).OnE2EEData keys", r.at(e.In), "key counts or fallback key types are not stored as received")
					}
				case rem:
					if e.S.Bits&stored == 0 {
						r.Bad(rule, "sync2/handler2.(*Handler).OnE2EEData order", r.at(e.In), "remembered for announcement before being stored", e.S.Trace()...)
					}
					e.S.Bits |= remembered
					c := asCall(e.In)
					_, f := litFields(e.X, e.S, mkCV(e.S.ctx, c.Args[1]))
					if f == nil || f["UserID"].String() != "$2" || f["DeviceID"].String() != "$3" {
						r.Bad(rule, "sync2/handler2.(*Handler).OnE2EEData remember", r.at(e.In), "a different device is remembered for announcement")
					}
				default:
					e.S.Bits |= waited
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				if !l.Pol && l.Atom.Op == "eq" && l.Atom.Args[1].Op == "nil" && l.Atom.Args[0].HasCall(up) {
					s.Bits |= fail
				}
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind != ExitReturn || s.Bits&fail != 0 {
					return
				}
				if s.Bits&stored == 0 || s.Bits&remembered == 0 || (s.Bits&sent != 0 && s.Bits&waited == 0) {
					r.Bad(rule, "sync2/handler2.(*Handler).OnE2EEData", r.P.Pos(root.Pos()), "device data is not stored, not remembered for announcement, or not waited for", s.Trace()...)
				}
			}})
		r.Floor(rule, 1)
	})
	reg("P02", "account data is skipped only when identical to what was last stored", func(r *Report) {
		const rule = "account-data-dedupe"
		root := r.Fn("sync2/handler2.(*Handler).OnAccountData")
		n := 0
		const kept, same = 1, 2
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{"builtin.append", "state.(*Storage).InsertAccountData"},
			Stop: func(f *ssa.Function) bool { return relPkg(fnPkg(f).Path()) == "state" },
			On: func(e Ev) Action {
				if e.Name == "builtin.append" {
					if strings.Contains(e.In.(ssa.Value).Type().String(), "RawMessage") {
						e.S.Bits |= kept
						n++
					}
				} else {
					e.S.Bits |= 4
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				if l.Pol && l.Atom.Op == "eq" && (l.Atom.HasCall("fnvHash") || l.Atom.HasCall("Sum64")) {
					s.Bits |= same
				}
				if l.Atom.Op == "lt" && l.Pol && l.Atom.Args[1].Op == "len" && strings.Contains(l.Atom.Args[1].String(), "$4") {
					s.Bits &^= kept | same
				}
			},
			Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
				if s.Bits&4 != 0 {
					return
				}
				has := false
				for _, b := range hdr.Parent().Blocks {
					if hdr.Dominates(b) && reaches(b, hdr) {
						for _, in := range b.Instrs {
							if calls(in, names{"builtin.append", "sync2/handler2.fnvHash"}) {
								has = true
							}
						}
					}
				}
				if has && s.Bits&(kept|same) == 0 {
					r.Bad(rule, "sync2/handler2.(*Handler).OnAccountData", r.P.InstrPos(hdr.Instrs[len(hdr.Instrs)-1]), "an account data event can be dropped although it differs from what was stored", s.Trace()...)
				}
				s.Bits &^= kept | same
			}})
		if n > 0 {
			r.Ob(rule, "dedupe loop")
		}
		r.Floor(rule, 1)
	})
	for _, p := range []string{"P02", "P07"} {
		reg(p, "a redaction of room state is announced, before the new events are", p02Redaction)
	}
}

func p02Redaction(r *Report) {
	const rule = "redaction-announced"
	root := r.Fn("sync2/handler2.(*Handler).Accumulate")
	n := 0
	const need, done = 1, 2
	r.Path(PathRule{Rule: rule, Root: root, Calls: []string{notify},
		Stop: func(f *ssa.Function) bool { return relPkg(fnPkg(f).Path()) == "state" },
		On: func(e Ev) Action {
			ty, f := payloadOf(e)
			switch ty {
			case "pubsub.V2StateRedaction":
				n++
				e.S.Bits |= done
				if f["RoomID"] == nil || f["RoomID"].String() != "$4" {
					r.Bad(rule, "sync2/handler2.(*Handler).Accumulate room", r.at(e.In), "the redaction is announced for another room")
				}
			case "pubsub.V2Accumulate":
				if e.S.Bits&need != 0 && e.S.Bits&done == 0 {
					r.Bad(rule, "sync2/handler2.(*Handler).Accumulate order", r.at(e.In), "new events are announced before the state redaction they contain", e.S.Trace()...)
				}
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			if l.is(`\.IncludesStateRedaction$`, true) {
				s.Bits |= need
			}
			if l.is(`\.IncludesStateRedaction$`, false) {
				s.Bits |= done
			}
			if !l.Pol && l.Atom.Op == "eq" && l.Atom.Args[1].Op == "nil" && l.Atom.Args[0].HasCall("state.(*Storage).Accumulate") {
				s.Bits |= done
			}
		},
		Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
			if kind == ExitReturn && s.Bits&done == 0 {
				r.Bad(rule, "sync2/handler2.(*Handler).Accumulate", r.P.Pos(root.Pos()), "a state redaction is not announced", s.Trace()...)
			}
		}})
	if n > 0 {
		r.Ob(rule, "V2StateRedaction")
	}
	r.Floor(rule, 1)
}

// failFlowStop: failFlow with control over inlining; failure must not reach forbidden.
func failFlowStop(r *Report, rule string, root *ssa.Function, site, forbidden func(ssa.Instruction) bool, stop func(*ssa.Function) bool, what string) {
	sites := map[ssa.Instruction]bool{}
	r.Explore(root, &Query{
		Relevant: orPred(site, forbidden),
		Stop:     stop,
		FailSite: func(in ssa.Instruction) bool {
			if site(in) {
				sites[in] = true
				return true
			}
			return false
		},
		Step: func(x *Explorer, s *State, in ssa.Instruction, deferred bool) Action {
			if s.Track && forbidden(in) {
				r.Bad(rule, shortName(root)+" <- "+siteName(s.Site), r.P.InstrPos(in), what+": after "+siteName(s.Site)+" at "+r.P.InstrPos(s.Site)+" fails", s.Trace()...)
				return Prune
			}
			return Go
		},
	})
	for in := range sites {
		r.Ob(rule, shortName(root)+" <- "+siteName(in)+" at "+r.P.InstrPos(in))
	}
}
