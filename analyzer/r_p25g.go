package main

// The rooms which a connection's lists are made of.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P25", "the lists of a connection are made of all rooms the user is joined to and all their invites, and extensions are told of every list", func(r *Report) {
		const rule = "rooms-loaded"
		p := r.P
		const load = "sync3/handler.(*ConnState).load"
		p.withOpaque(append(liveOpaque(p), "sync3/caches.(*GlobalCache).LoadJoinedRooms", nUC+"Invites", nUC+"LoadRoomData"), func() {
			c := p.chooser()
			entry := func(in ssa.Instruction, e *Env) bool {
				if calls(in, names{"sync3.(*InternalRequestLists).SetRoom"}) {
					return true
				}
				st, ok := in.(*ssa.Store)
				return ok && isFieldAddr(st.Addr, "sync3.RoomConnMetadata", "UserRoomData")
			}
			failed := c.failed("sync3/caches.(*GlobalCache).LoadJoinedRooms")
			joined := func(pa string) bool {
				return strings.HasPrefix(pa, "sync3/caches.(*GlobalCache).LoadJoinedRooms(") && strings.HasSuffix(pa, ")#1")
			}
			r.forwards(c, rule, load, "joined", "a room which the user is joined to may be missing from their lists", joined, failed, entry)
			invites := func(pa string) bool { return strings.HasPrefix(pa, nUC+"Invites(") && strings.HasSuffix(pa, ")") }
			r.forwards(c, rule, load, "invites", "an invite may be missing from the user's lists", invites, failed, entry)
			// ... and what was collected is set
			fn := r.Fn(load)
			if fn == nil {
				return
			}
			r.Ob(rule, "set")
			bad, hit := p.fwd(c, nil, failed, func(in ssa.Instruction, e *Env) bool {
				return calls(in, names{"sync3.(*InternalRequestLists).SetRoom"})
			}), false
			for _, e := range p.contexts(fn) {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					if !calls(in, names{"sync3.(*InternalRequestLists).SetRoom"}) {
						return
					}
					h := innermostLoop(in.Block())
					if h == nil {
						return // of a helper which is given one room
					}
					hit = true
					if breaks(h) != nil || c.skips(h, e, func(x ssa.Instruction) bool { return bad.leads(x, e) }, nil) {
						r.Bad(rule, load+" set", r.at(in), "a room which was loaded may be missing from the lists")
					}
				})
			}
			if !hit {
				r.Bad(rule, load+" set", p.Pos(fn.Pos()), "the rooms which were loaded are not put into the lists")
			}
		})
		// extensions are told of the rooms in view of all lists
		n := 0
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if !calls(in, names{"sync3.(*InternalRequestLists).ListsByVisibleRoomIDs"}) || relPkg(fnPkg(fn).Path()) != "sync3/handler" {
				return
			}
			n++
			r.Touch(fn)
			r.Ob(rule, "view")
			for _, s := range p.deepSources(asCall(in).Args[1]) {
				if !isLoadOf(s, "sync3.Request", "Lists") {
					r.Bad(rule, shortName(outer(fn))+" view", r.at(in), "the rooms in view are worked out from "+describeVal(p, s)+", not from the lists which the client asked for")
				}
			}
		})
		r.Floor(rule, 4)
	})

	reg("P13", "the position as of which rooms are loaded for a connection only moves forward", func(r *Report) {
		const rule = "anchor-position"
		p := r.P
		p.withOpaque(names{"sync3/caches.(*GlobalCache).LoadJoinedRooms"}, func() { p13Anchor(r, rule) })
		r.Floor(rule, 2)
	})
}

func p13Anchor(r *Report, rule string) {
	p := r.P
	p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || !isFieldAddr(st.Addr, "sync3/handler.ConnState", "anchorLoadPosition") {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn))
		r.Ob(rule, name)
		for _, s := range p.deepSources(st.Val) {
			if k, ok := s.(*ssa.Const); ok && k.Value != nil {
				if k.Int64() > 0 {
					r.Bad(rule, name, r.at(in), "rooms are loaded as of a fixed position")
				}
				continue
			}
			if isLoadOf(s, "sync3/handler.ConnState", "anchorLoadPosition") {
				continue
			}
			loaded := isResultOf(s, "*caches.(*GlobalCache).LoadJoinedRooms")
			for _, o := range p.origins(s) {
				loaded = loaded || isResultOf(o, "*caches.(*GlobalCache).LoadJoinedRooms") || isResultOf(o, "*LatestEventNID")
			}
			if loaded {
				continue
			}
			if !isLoadOf(s, "sync3/caches.EventData", "NID") {
				r.Bad(rule, name, r.at(in), "rooms are loaded as of "+describeVal(p, s))
				continue
			}
			ahead := func(cond ssa.Value, pol bool, _ ssa.Value) bool {
				b, ok := cond.(*ssa.BinOp)
				if !ok {
					return false
				}
				x, y, op := b.X, b.Y, b.Op
				is := func(v ssa.Value, t, f string) bool {
					for _, s := range p.deepSources(v) {
						if !isLoadOf(s, t, f) {
							return false
						}
					}
					return true
				}
				if is(x, "sync3/handler.ConnState", "anchorLoadPosition") {
					x, y = y, x
					op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
				}
				if !is(x, "sync3/caches.EventData", "NID") || !is(y, "sync3/handler.ConnState", "anchorLoadPosition") {
					return false
				}
				return pol && (op == token.GTR || op == token.GEQ) || !pol && (op == token.LSS || op == token.LEQ)
			}
			if !p.Guarded(in, nil, ahead) && !phiAhead(p, st.Val, in, ahead) {
				r.Bad(rule, name, r.at(in), "the position as of which rooms are loaded may move backwards: new rooms would lack their latest events")
			}
		}
	})
}

// phiAhead: v is the new value only on edges where g holds.
func phiAhead(p *Prog, v ssa.Value, in ssa.Instruction, g Guard) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	k := &guardCk{p: p, stack: map[ssa.Value]bool{}, g: g}
	for i, e := range ph.Edges {
		if isLoadOf(e, "sync3/handler.ConnState", "anchorLoadPosition") {
			continue
		}
		if !k.edge(ph.Block().Preds[i], ph.Block(), nil, 0) {
			return false
		}
	}
	return true
}
