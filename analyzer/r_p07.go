package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constArg: constant string arguments of the calls v stems from.
func (p *Prog) constArgs(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 12 {
			return
		}
		seen[v] = true
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil {
				out[constString(c.Value)] = true
			}
			return
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, st := range storesTo(a) {
				walk(st.Val, d+1)
			}
			for _, r := range *a.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, r2 := range *fa.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							walk(st.Val, d+1)
						}
					}
				}
			}
			return
		}
		if c, ok := v.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && inModule(fn) {
				fnInstrs(fn, func(in ssa.Instruction) {
					if r, ok := in.(*ssa.Return); ok {
						for _, rv := range r.Results {
							walk(rv, d+1)
						}
					}
				})
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				walk(*op, d+1)
			}
		}
	}
	walk(v, 0)
	return out
}

func init() {
	reg("P07", "every new redaction of the timeline is applied, wherever the room version keeps its target, before the events are committed", func(r *Report) {
		const rule = "redaction-applied"
		root := r.Fn("state.(*Accumulator).Accumulate")
		isReg := func(in ssa.Instruction) bool {
			m, ok := in.(*ssa.MapUpdate)
			return ok && typeName(m.Value.Type()) == "state.Event"
		}
		const redaction, registered, applied, noTarget, state, dead = 1, 2, 4, 8, 16, 32
		n := map[string]bool{}
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{evRedact, evInsert}, Inst: isReg,
			Inl: func(f *ssa.Function) bool {
				return fnPkg(f) != nil && relPkg(fnPkg(f).Path()) == "state" && (mentions(f, "m.room.redaction") || mentions(f, "redacts"))
			},
			Stop: func(f *ssa.Function) bool { return strings.HasSuffix(shortName(f), "Table)."+f.Name()) },
			On: func(e Ev) Action {
				switch {
				case isReg(e.In):
					n["target"] = true
					k := r.P.constArgs(e.X.resolve(e.S, mkCV(e.S.ctx, e.In.(*ssa.MapUpdate).Key)).v)
					all := r.P.constArgs(e.In.(*ssa.MapUpdate).Key)
					for _, w := range []string{`"redacts"`, `"content.redacts"`} {
						if !k[w] && !all[w] {
							r.Bad(rule, "state.(*Accumulator).Accumulate target "+w, r.at(e.In), "the target of a redaction is not looked for in "+w)
						}
					}
					e.S.Bits |= registered
				case e.Name == evRedact:
					n["apply"] = true
					e.S.Bits |= applied
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				a := l.Atom
				switch {
				case s.Bits&registered != 0 && l.Pol && a.Op == "eq" && a.Args[1].IsConst("0") && a.Args[0].Op == "len" && strings.Contains(a.Args[0].String(), "*state.Event"):
					s.Bits |= dead // the set of targets is not empty
				case l.is(`== "m\.room\.redaction"\)$`, true):
					s.Bits |= redaction
					s.Bits &^= noTarget
				case l.is(`== "m\.room\.redaction"\)$`, false):
					s.Bits &^= redaction
				case a.Op == "field" && a.Name == "IsState" && l.Pol:
					s.Bits |= state
				case a.Op == "field" && a.Name == "IsState" && !l.Pol:
					s.Bits &^= state
				case s.Bits&redaction != 0 && l.Pol && a.Op == "eq" && a.Args[1].IsConst(`""`):
					s.Bits |= noTarget
				case s.Bits&redaction != 0 && !l.Pol && a.Op == "eq" && a.Args[1].IsConst(`""`):
					s.Bits &^= noTarget
				}
			},
			Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
				if s.Bits&redaction != 0 && s.Bits&(registered|noTarget|state) == 0 {
					r.Bad(rule, "state.(*Accumulator).Accumulate skipped", r.P.InstrPos(hdr.Instrs[len(hdr.Instrs)-1]), "a redaction is stored without noting what it redacts", s.Trace()...)
				}
				s.Bits &^= redaction | noTarget | state
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind != ExitReturn || s.Bits&registered == 0 || s.Bits&(applied|dead) != 0 {
					return
				}
				if k, isNil := x.KnownNil(s, res[len(res)-1]); k && !isNil {
					return
				}
				r.Bad(rule, "state.(*Accumulator).Accumulate unapplied", r.P.Pos(root.Pos()), "a redaction is stored but its target keeps its content", s.Trace()...)
			},
		})
		for k := range n {
			r.Ob(rule, k)
		}
		r.Floor(rule, 2)
	})
	reg("P07", "the stored event is overwritten with its redacted form, only if it is in the redaction's room", func(r *Report) {
		const rule = "redaction-stored"
		root := r.Fn(evRedact)
		upd := map[ssa.Instruction]bool{}
		for _, st := range r.P.Statements() {
			if st.Table == "syncv3_events" && st.Verb == "UPDATE" && strings.Contains(strings.ToLower(st.Query), "set event=") {
				upd[st.In] = true
			}
		}
		if len(upd) == 0 {
			r.Bad("anchor", rule, "-", "no statement overwrites stored events")
		}
		const redacted, sameRoom = 1, 2
		n := 0
		red := "*RedactEventJSON"
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{red}, Inst: func(in ssa.Instruction) bool { return upd[in] },
			On: func(e Ev) Action {
				if upd[e.In] {
					n++
					if e.S.Bits&redacted == 0 {
						r.Bad(rule, "state.(*EventTable).Redact content", r.at(e.In), "an event is overwritten without having been redacted", e.S.Trace()...)
					}
					if e.S.Bits&sameRoom == 0 {
						r.Bad(rule, "state.(*EventTable).Redact room", r.at(e.In), "an event can be redacted from another room", e.S.Trace()...)
					}
				} else {
					e.S.Bits |= redacted
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				a := l.Atom
				if a.Op == "eq" && l.Pol && strings.HasSuffix(a.Args[0].String(), ".RoomID") {
					s.Bits |= sameRoom // the rooms are equal, or the redaction names none
				}
			},
			Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) { s.Bits &^= redacted | sameRoom }})
		if n > 0 {
			r.Ob(rule, "update")
		}
		r.Floor(rule, 1)
		failFlow(r, "redaction-error", root, callPred(red), func(in ssa.Instruction) bool { return upd[in] }, nil, true, false, "an event which could not be redacted is kept as it was", nil)
		r.Floor("redaction-error", 1)
	})
	reg("P07", "redacted state is announced and reloaded before the new events are dispatched", func(r *Report) {
		const rule = "redacted-state-reloaded"
		root := r.Fn("state.(*Accumulator).Accumulate")
		// the result flag is computed from the current snapshot after the new snapshots were made
		n := 0
		const snapDone = 1
		r.Path(PathRule{Rule: rule, Root: root, Inst: fieldStore("state.AccumulateResult", "IncludesStateRedaction"), Calls: []string{updBefore},
			On: func(e Ev) Action {
				if st, ok := e.In.(*ssa.Store); ok {
					n++
					t := e.X.Term(e.S, mkCV(e.S.ctx, st.Val))
					if t.Op == "const" {
						if t.IsConst("false") {
							r.Bad(rule, "state.(*Accumulator).Accumulate flag", r.at(e.In), "redacted state is never reported")
						}
					}
				} else {
					e.S.Bits |= snapDone
				}
				return Go
			}})
		if n > 0 {
			r.Ob(rule, "flag")
		}
		h := r.Fn("sync3/handler.(*SyncLiveHandler).OnStateRedaction")
		const reset = 1
		r.Path(PathRule{Rule: rule, Root: h, Calls: []string{"*ResetMetadataState"},
			On: func(e Ev) Action { e.S.Bits |= reset; n++; return Go },
			Lit: func(x *Explorer, s *State, l Lit) {
				if !l.Pol && l.Atom.Op == "extract" && l.Atom.Args[0].Op == "lookup" {
					s.Bits |= reset // a room nothing is known about
				}
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind == ExitReturn && s.Bits&reset == 0 {
					r.Bad(rule, "sync3/handler.(*SyncLiveHandler).OnStateRedaction", r.P.Pos(h.Pos()), "the room's cached metadata keeps what was redacted", s.Trace()...)
				}
			}})
		r.Ob(rule, "OnStateRedaction")
		r.Floor(rule, 2)
	})
}
