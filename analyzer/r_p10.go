package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P10", "room events, receipts and ephemeral events are handed only to users in the joined set of the room, plus the target of a leave who was joined or invited", p10Recipients)
	reg("P10", "room state, timelines and metadata are loaded for a connection only for rooms its user is joined or invited to at that moment; room subscriptions are accepted only for joined rooms", p10Gate)
	reg("P10", "extensions see only rooms of the response, of the accepted subscriptions and of the lists, and fetch data only for rooms in scope", p10Ext)
	reg("P10", "the joined set follows memberships: join adds, leave and ban remove, everywhere memberships are interpreted", p10Membership)
	reg("P10", "timelines are read only within the positions during which the user could see the room", p10Timeline)
	reg("P10", "rooms the user has left are kept out of every list", p10Lists)
}

// joinGuard: IsUserJoined(user, v), with the connection's own user.
func joinGuard(p *Prog) Guard {
	return func(cond ssa.Value, pol bool, v ssa.Value) bool {
		c, ok := cond.(*ssa.Call)
		if !ok || !pol || !strings.HasSuffix(callName(&c.Call), ".IsUserJoined") {
			return false
		}
		a := c.Call.Args
		if len(a) < 2 {
			return false
		}
		return v == nil || p.same(a[len(a)-1], v)
	}
}

// fieldTrue: a load of the boolean field.
func fieldTrue(typ, f string) Guard {
	return func(cond ssa.Value, pol bool, v ssa.Value) bool { return pol && isLoadOf(cond, typ, f) }
}

func anyGuard(gs ...Guard) Guard {
	return func(cond ssa.Value, pol bool, v ssa.Value) bool {
		for _, g := range gs {
			if g(cond, pol, v) {
				return true
			}
		}
		return false
	}
}

// eqConst: x == "s" holds, for x accepted by ok (nil: any).
func eqConst(ok func(ssa.Value) bool, ss ...string) Guard {
	return func(cond ssa.Value, pol bool, v ssa.Value) bool {
		b, isB := cond.(*ssa.BinOp)
		if !isB || (b.Op != token.EQL && b.Op != token.NEQ) || (b.Op == token.EQL) != pol {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			k, isC := pr[1].(*ssa.Const)
			if !isC || k.Value == nil || k.Value.Kind() != constant.String {
				continue
			}
			for _, s := range ss {
				if constant.StringVal(k.Value) == s && (ok == nil || ok(pr[0])) {
					return true
				}
			}
		}
		return false
	}
}

func strConst(v ssa.Value) (string, bool) {
	if k, ok := stripConv(v).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

// rangeOver: v is the element (or, for maps, key) of an iteration; returns what is iterated over.
func rangeOver(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return ia.X
		}
	case *ssa.Index:
		return x.X
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				return rg.X
			}
		}
	}
	return nil
}

func p10Recipients(r *Report) {
	r.P.withOpaque(names{"*JoinedRoomsTracker).JoinedUsersForRoom"}, func() { p10Recipients1(r) })
}

func p10Recipients1(r *Report) {
	const rule = "recipients"
	leftGuard := func(cond ssa.Value, pol bool, v ssa.Value) bool {
		c, ok := cond.(*ssa.Call)
		if !ok || !pol || !strings.HasSuffix(callName(&c.Call), "JoinedRoomsTracker).UserLeftRoom") {
			return false
		}
		return true
	}
	deliver := names{"*.OnNewEvent", "*.OnReceipt", "*.OnEphemeralEvent"}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		c := asCall(in)
		if c == nil || !calls(in, deliver) {
			return
		}
		var recv ssa.Value
		if c.IsInvoke() {
			if typeName(c.Value.Type()) != "sync3.Receiver" {
				return
			}
			recv = c.Value
		} else {
			if c.Signature().Recv() == nil || typeName(c.Signature().Recv().Type()) != "sync3/caches.UserCache" {
				return
			}
			recv = c.Args[0]
		}
		r.Touch(fn)
		name := shortName(outer(fn)) + " " + siteName(in)
		r.Ob(rule, name)
		for _, s := range r.P.deepSources(recv) {
			key, ok := lookupKey(s, "sync3.Dispatcher", "userToReceiver")
			if !ok {
				if !strings.HasSuffix(callName(c), "OnReceipt") { // private receipts are addressed: see P11
					r.Bad(rule, name, r.at(in), "a room event is handed to a receiver which was not selected from the dispatcher's receivers by user ID")
				}
				continue
			}
			for _, k := range r.P.deepSources(key) {
				if s, isC := strConst(k); isC {
					if s != "-" {
						r.Bad(rule, name, r.at(in), "a room event is always handed to receiver "+s)
					}
					continue
				}
				coll := rangeOver(k)
				if coll == nil {
					if g := r.P.Guarded(in, nil, leftGuard) || r.P.Guarded(in, nil, joinGuard(r.P)); !g {
						r.Bad(rule, name, r.at(in), "a room event is handed to a user who was not taken from the joined users of the room")
					}
					continue
				}
				for _, l := range r.P.elems(coll) {
					if l.Whole {
						if !isResultOf(l.Val, "*JoinedRoomsTracker).JoinedUsersForRoom") {
							r.Bad(rule, name, r.at(in), fmt.Sprintf("a room event is handed to users from %s instead of the joined users of the room", describeVal(r.P, l.Val)))
						}
						continue
					}
					if !r.P.Guarded(l.At, nil, leftGuard) && !r.P.Guarded(l.At, l.Val, joinGuard(r.P)) {
						r.Bad(rule, name, r.at(l.At), "a user is added to the recipients of a room event without having been joined or invited before the leave")
					}
				}
			}
		}
	})
	r.Floor(rule, 5)
}

func describeVal(p *Prog, v ssa.Value) string {
	var fn *ssa.Function
	if i, ok := v.(ssa.Instruction); ok {
		fn = i.Parent()
	} else if pa, ok := v.(*ssa.Parameter); ok {
		return "parameter " + pa.Name() + " of " + shortName(pa.Parent())
	}
	if fn == nil {
		return v.String()
	}
	return p.StaticTerm(fn, v).String()
}

// lookupKey: v is (a result of) a lookup in the map field; returns the key.
func lookupKey(v ssa.Value, typ, field string) (ssa.Value, bool) {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	l, ok := v.(*ssa.Lookup)
	if !ok || !isLoadOf(l.X, typ, field) {
		return nil, false
	}
	return l.Index, true
}

func p10Gate(r *Report) {
	const rule = "room-data-gate"
	g := anyGuard(joinGuard(r.P), fieldTrue("sync3/caches.UserRoomData", "IsInvite"))
	loaders := map[string]int{ // index of the room IDs, not counting the receiver
		"*caches.(*GlobalCache).LoadRooms": 1, "*caches.(*GlobalCache).LoadRoomState": 1, "*caches.(*UserCache).LazyLoadTimelines": 2,
	}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		pk := relPkg(fnPkg(fn).Path())
		c := asCall(in)
		if c == nil || pk != "sync3/handler" {
			return
		}
		for ld, idx := range loaders {
			if !calls(in, names{ld}) {
				continue
			}
			r.Touch(fn)
			name := shortName(outer(fn)) + " " + siteName(in)
			r.Ob(rule, name)
			for _, l := range r.P.elems(c.Args[idx+1]) {
				if l.Whole {
					r.Bad(rule, name, r.at(in), "room data is loaded for "+describeVal(r.P, l.Val)+", without checking that the user is joined or invited")
				} else if fieldPkg(l.Val) == "pubsub" {
					continue // an update from a poller, not on behalf of a user
				} else if !r.P.Guarded(l.At, l.Val, g) && !p10Filtered(r.P, l.Val, g, 0) {
					r.Bad(rule, name, r.at(l.At), "room data is loaded for a room without checking that the user is joined or invited")
				}
			}
		}
		if calls(in, names{"*caches.(*GlobalCache).LoadStateEvent"}) {
			r.Touch(fn)
			name := shortName(outer(fn)) + " " + siteName(in)
			r.Ob(rule, name)
			for _, s := range r.P.deepSources(c.Args[2]) {
				ok := isResultOf(s, "*.RoomID")
				if coll := rangeOver(s); coll != nil {
					ok = ok || isLoadOf(coll, "sync3/extensions.TypingResponse", "Rooms")
				}
				if !ok && !r.P.Guarded(in, s, g) {
					r.Bad(rule, name, r.at(in), "a state event is loaded for a room which is neither that of a live update nor checked")
				}
			}
		}
	})
	r.Floor(rule, 4)

	const rule2 = "subscription-gate"
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isLoadOf(mu.Map, "sync3/handler.ConnState", "roomSubscriptions") {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn))
		r.Ob(rule2, name)
		if !r.P.Guarded(in, mu.Key, joinGuard(r.P)) {
			r.Bad(rule2, name, r.at(in), "a room subscription is accepted without checking that the user is joined to the room")
		}
	})
	r.Floor(rule2, 1)
}

// fieldPkg: the package of the struct v was read from.
func fieldPkg(v ssa.Value) string {
	var t types.Type
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			t = fa.X.Type()
		}
	case *ssa.Field:
		t = x.X.Type()
	}
	if t == nil {
		return ""
	}
	n := typeName(t)
	return n[:strings.LastIndex(n, ".")+1][:max(0, strings.LastIndex(n, "."))]
}

// p10Filtered: v is an element of a collection every element of which was checked when it was added.
func p10Filtered(p *Prog, v ssa.Value, g Guard, d int) bool {
	coll := rangeOver(v)
	if coll == nil || d > 4 {
		return false
	}
	ls := p.elems(coll)
	for _, l := range ls {
		if l.Whole || (!p.Guarded(l.At, l.Val, g) && !p10Filtered(p, l.Val, g, d+1)) {
			return false
		}
	}
	return len(ls) > 0
}

// scopeGuard: RoomInScope(v, ...).
func scopeGuard(p *Prog) Guard {
	return func(cond ssa.Value, pol bool, v ssa.Value) bool {
		c, ok := cond.(*ssa.Call)
		if !ok || !pol || !strings.HasSuffix(callName(&c.Call), ".RoomInScope") {
			return false
		}
		for _, a := range c.Call.Args {
			if p.same(a, v) {
				return true
			}
		}
		return false
	}
}

// inScope: the room key was checked to be in scope, here or where it was put into the collection it comes from.
func inScope(p *Prog, key ssa.Value, at ssa.Instruction, d int) (bool, string) {
	return checkedAt(p, key, at, scopeGuard(p), d)
}

// checkedAt: the guard is known of the key, here or where it was put into the collection it comes from.
func checkedAt(p *Prog, key ssa.Value, at ssa.Instruction, g Guard, d int) (bool, string) {
	if d > 6 {
		return false, "too deep"
	}
	if p.Guarded(at, key, g) {
		return true, ""
	}
	var coll ssa.Value
	for _, k := range p.sources(key) {
		if k != key {
			if ok, why := checkedAt(p, k, at, g, d+1); !ok {
				return false, why
			}
			continue
		}
		coll = rangeOver(k)
		if isLoadOf(k, "state.AccountData", "RoomID") {
			// the room of a row of account data: an element of the rows which were asked for
			if u, ok := k.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok {
						for _, st := range storesTo(al) {
							coll = rangeOver(st.Val)
						}
					} else {
						coll = rangeOver(fa.X)
						if ia, ok := fa.X.(*ssa.IndexAddr); ok {
							coll = ia.X
						}
					}
				}
			} else if f, ok := k.(*ssa.Field); ok {
				coll = rangeOver(f.X)
			}
		}
		if pa, ok := k.(*ssa.Parameter); ok && coll == nil {
			// where the function is called
			sites := p.sitesOf(pa.Parent())
			for _, st := range sites {
				c := asCall(st)
				if c == nil || c.StaticCallee() != pa.Parent() {
					return false, describeVal(p, k)
				}
				if ok, why := checkedAt(p, c.Args[paramIndex(pa)], st, g, d+1); !ok {
					return false, why
				}
			}
			if len(sites) > 0 {
				continue
			}
		}
		if coll == nil {
			return false, describeVal(p, k)
		}
		for _, cs := range p.sources(coll) {
			if ok, why := collChecked(p, cs, at, g, d+1); !ok {
				return false, why
			}
		}
	}
	return true, ""
}

func collChecked(p *Prog, coll ssa.Value, at ssa.Instruction, g Guard, d int) (bool, string) {
	switch x := coll.(type) {
	case *ssa.MakeMap:
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == x {
				if ok, why := checkedAt(p, mu.Key, mu, g, d+1); !ok {
					return false, why
				}
			}
		}
		return true, ""
	case *ssa.Const:
		return true, ""
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return queryChecked(p, c, g, d)
		}
	}
	if cl, ok := coll.(*ssa.Call); ok && p.opaqueFns.has(callName(&cl.Call)) {
		return queryChecked(p, cl, g, d)
	}
	if pa, ok := coll.(*ssa.Parameter); ok && isStrSlice(pa.Type()) {
		return elemsChecked(p, pa, g, d)
	}
	if isStrSlice(coll.Type()) {
		return elemsChecked(p, coll, g, d)
	}
	return false, describeVal(p, coll)
}

// elemsChecked: each element of the slice was checked when it was put in.
func elemsChecked(p *Prog, v ssa.Value, g Guard, d int) (bool, string) {
	for _, l := range p.elems(v) {
		if l.Whole {
			return false, describeVal(p, l.Val)
		}
		if ok, why := checkedAt(p, l.Val, l.At, g, d+1); !ok {
			return false, why
		}
	}
	return true, ""
}

// queryInScope: the rooms a query is made for are all in scope.
func queryInScope(p *Prog, c *ssa.Call, d int) (bool, string) {
	return queryChecked(p, c, scopeGuard(p), d)
}

func queryChecked(p *Prog, c *ssa.Call, g Guard, d int) (bool, string) {
	o := calleeObj(&c.Call)
	if o == nil {
		return false, "an unknown query"
	}
	sig := o.Signature()
	off := 0
	if sig.Recv() != nil && !c.Call.IsInvoke() {
		off = 1
	}
	found := false
	for i := 0; i < sig.Params().Len(); i++ {
		a := c.Call.Args[i+off]
		switch {
		case nameRole(sig.Params().At(i).Name()) == "room" && isStr(sig.Params().At(i).Type()):
			found = true
			if ok, why := checkedAt(p, a, c, g, d+1); !ok {
				return false, why
			}
		case isStrSlice(sig.Params().At(i).Type()) && strings.HasPrefix(sig.Params().At(i).Name(), "room"):
			found = true
			if ok, why := elemsChecked(p, a, g, d); !ok {
				return false, why
			}
		}
	}
	if !found {
		return false, "a query for no particular room"
	}
	return true, ""
}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStr(s.Elem())
}

func p10Ext(r *Report) {
	r.P.withOpaque(names{"*ReceiptTable).SelectReceiptsForEvents", "*ReceiptTable).SelectReceiptsForUser", "*Storage).AccountDatas", "*caches.(*GlobalCache).LoadRooms"}, func() { p10Ext1(r) })
}

func p10Ext1(r *Report) {
	const rule = "extension-context"
	want := map[string]func(ssa.Value) bool{
		"RoomIDToTimeline": func(v ssa.Value) bool { return isResultOf(v, "*.RoomIDsToTimelineEventIDs") },
		"RoomIDsToLists":   func(v ssa.Value) bool { return isResultOf(v, "*.ListsByVisibleRoomIDs") },
		"AllSubscribedRooms": func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			for _, a := range c.Call.Args {
				if isLoadOf(a, "sync3/handler.ConnState", "roomSubscriptions") {
					return true
				}
			}
			return false
		},
	}
	// ... of every context which extensions are given
	given := map[string]bool{}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		for f, pred := range want {
			if !isFieldAddr(st.Addr, "sync3/extensions.Context", f) {
				continue
			}
			given[f] = true
			r.Touch(fn)
			name := shortName(outer(fn)) + " " + f
			r.Ob(rule, name)
			good := true
			for _, s := range sourcesShallow(r.P, st.Val) {
				if !pred(s) {
					if ls := r.P.elems(s); f == "AllSubscribedRooms" && len(ls) > 0 {
						all := true
						for _, l := range ls {
							c := rangeOver(l.Val)
							all = all && !l.Whole && c != nil && isLoadOf(c, "sync3/handler.ConnState", "roomSubscriptions")
						}
						if all {
							continue
						}
					}
					good = false
				}
			}
			if !good {
				r.Bad(rule, name, r.at(in), "extensions are told that "+f+" is "+describeVal(r.P, st.Val)+", which may contain rooms the user must not see")
			}
		}
	})
	r.Floor(rule, len(want))
	for f := range want {
		if !given[f] {
			r.Bad("anchor", "extensions.Context."+f, "-", "never set")
		}
	}

	const rule2 = "extension-scope"
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if relPkg(fnPkg(fn).Path()) != "sync3/extensions" {
			return
		}
		name := shortName(outer(fn))
		switch i := in.(type) {
		case *ssa.MapUpdate:
			ok := false
			for _, s := range r.P.sources(i.Map) {
				ok = ok || isLoadOf(s, "sync3/extensions.AccountDataResponse", "Rooms") || isLoadOf(s, "sync3/extensions.TypingResponse", "Rooms") || isLoadOf(s, "sync3/extensions.ReceiptsResponse", "Rooms")
				if mm, isM := s.(*ssa.MakeMap); isM {
					for _, rf := range *mm.Referrers() {
						if st, isS := rf.(*ssa.Store); isS && (isFieldAddr(st.Addr, "sync3/extensions.AccountDataResponse", "Rooms") || isFieldAddr(st.Addr, "sync3/extensions.TypingResponse", "Rooms") || isFieldAddr(st.Addr, "sync3/extensions.ReceiptsResponse", "Rooms")) {
							ok = true
						}
					}
				}
			}
			if !ok {
				return
			}
			r.Touch(fn)
			r.Ob(rule2, name)
			if ok, why := inScope(r.P, i.Key, i, 0); !ok {
				r.Bad(rule2, name+" response", r.at(in), "extension data is returned for a room which was not checked to be in scope: "+why)
			}
		case *ssa.Call:
			if calls(in, names{"*ReceiptTable).SelectReceiptsForEvents", "*ReceiptTable).SelectReceiptsForUser"}) {
				r.Touch(fn)
				r.Ob(rule2, name+" "+siteName(in))
				if ok, why := queryInScope(r.P, i, 0); !ok {
					r.Bad(rule2, name+" "+siteName(in), r.at(in), "receipts are fetched for a room which was not checked to be in scope: "+why)
				}
			}
		}
	})
	r.Floor(rule2, 7)
}

// sourcesShallow: like sources, but does not look into the functions whose results are used.
func sourcesShallow(p *Prog, v ssa.Value) []ssa.Value {
	switch x := v.(type) {
	case *ssa.Call, *ssa.Extract:
		return []ssa.Value{v}
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			if e != v {
				out = append(out, sourcesShallow(p, e)...)
			}
		}
		return out
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var out []ssa.Value
			for _, st := range storesTo(a) {
				out = append(out, sourcesShallow(p, st.Val)...)
			}
			if len(out) > 0 {
				return out
			}
		}
	}
	return []ssa.Value{v}
}

func isGo(fn *ssa.Function) bool {
	pk := relPkg(fnPkg(fn).Path())
	return !inMigrations(fn) && !strings.HasPrefix(pk, "cmd/")
}

// landing: the block where taking the edge into b leads, skipping empty blocks.
func landing(b *ssa.BasicBlock) *ssa.BasicBlock {
	for i := 0; i < 8; i++ {
		if len(b.Instrs) != 1 || len(b.Succs) != 1 {
			return b
		}
		b = b.Succs[0]
	}
	return b
}

func p10Membership(r *Report) {
	p := r.P
	const sym = "leave-and-ban"
	type site struct {
		fn  *ssa.Function
		op  ssa.Value
		dst *ssa.BasicBlock
		in  ssa.Instruction
	}
	var leaves, bans []site
	p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok || !isGo(fn) || (b.Op != token.EQL && b.Op != token.NEQ) {
			return
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			s, isC := strConst(pr[1])
			if !isC || (s != "leave" && s != "ban") {
				continue
			}
			for _, rf := range *b.Referrers() {
				ifi, ok := rf.(*ssa.If)
				if !ok {
					continue
				}
				dst := ifi.Block().Succs[0]
				if b.Op == token.NEQ {
					dst = ifi.Block().Succs[1]
				}
				st := site{fn, pr[0], landing(dst), in}
				if s == "leave" {
					leaves = append(leaves, st)
				} else {
					bans = append(bans, st)
				}
			}
		}
	})
	for _, set := range [][2][]site{{leaves, bans}, {bans, leaves}} {
		for _, l := range set[0] {
			ok := false
			for _, b := range set[1] {
				ok = ok || (b.fn == l.fn && b.dst == l.dst)
			}
			// a kick is told apart from other departures by its sender, which makes it no test of membership alone
			if !ok && l.dst != nil && p.comparesSender(l.dst) {
				continue
			}
			r.Touch(l.fn)
			r.Ob(sym, shortName(outer(l.fn)))
			if !ok {
				r.Bad(sym, shortName(outer(l.fn)), r.at(l.in), "leaving and being banned are treated differently: a user could stay in the room's audience")
			}
		}
	}
	r.Floor(sym, 4)

	// what counts as joined
	const joined = "joined-means-join"
	j := eqConst(nil, "join", "_join")
	check := func(in ssa.Instruction, what string) {
		name := shortName(outer(in.Parent())) + " " + what
		r.Touch(in.Parent())
		r.Ob(joined, name)
		if !p.Guarded(in, nil, j) {
			r.Bad(joined, name, r.at(in), "a user is taken to be joined without their membership being join")
		}
	}
	out := eqConst(nil, "leave", "ban")
	p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if relPkg(fnPkg(fn).Path()) == "sync3" && typeOfRecv(outer(fn)) != "sync3.JoinedRoomsTracker" {
			if calls(in, names{"*JoinedRoomsTracker).UserJoinedRoom"}) {
				check(in, "UserJoinedRoom")
			}
			if calls(in, names{"*JoinedRoomsTracker).UsersJoinedRoom"}) {
				for _, l := range p.elems(asCall(in).Args[1]) {
					if !l.Whole {
						check(l.At, "UsersJoinedRoom")
					}
				}
			}
			if calls(in, names{"*JoinedRoomsTracker).UserLeftRoom"}) {
				r.Ob(joined, "UserLeftRoom")
				if !p.Guarded(in, nil, out) {
					r.Bad(joined, shortName(outer(fn))+" UserLeftRoom", r.at(in), "a user is taken to have left although their membership is neither leave nor ban")
				}
			}
		}
	})
	if fn := r.Fn("state.(*Storage).FetchMemberships"); fn != nil {
		fnInstrs(fn, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok {
				for _, l := range p.elems(ret.Results[0]) {
					if l.At != nil && !l.Whole {
						check(l.At, "joins")
					}
				}
			}
		})
	}
	for _, n := range []string{"state.(*Storage).AllJoinedMembers", "state.(*Storage).JoinedRoomsAfterPosition"} {
		fn := r.Fn(n)
		if fn == nil {
			continue
		}
		fnInstrs(fn, func(in ssa.Instruction) {
			ret, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			for _, s := range p.sources(ret.Results[0]) {
				if mm, ok := s.(*ssa.MakeMap); ok {
					fnInstrs(mm.Parent(), func(in ssa.Instruction) {
						if mu, ok := in.(*ssa.MapUpdate); ok {
							for _, ms := range p.sources(mu.Map) {
								if ms == ssa.Value(mm) {
									check(mu, "result")
								}
							}
						}
					})
				}
			}
		})
	}
	r.Floor(joined, 6)

	// the dispatcher updates the joined set before it asks who is in it
	const first = "tracker-before-recipients"
	const (
		jn = 1 << iota
		lv
		doneJ
		doneL
	)
	memb := func(l Lit, m string) bool {
		return l.Atom != nil && l.Pol && strings.Contains(l.Atom.String(), "\"membership\"") && strings.HasSuffix(l.Atom.String(), "== \""+m+"\")")
	}
	r.Path(PathRule{Rule: first, Root: r.Fn("sync3.(*Dispatcher).OnNewEvent"),
		Calls: []string{"*JoinedRoomsTracker).UserLeftRoom", "*JoinedRoomsTracker).UserJoinedRoom", "*JoinedRoomsTracker).UsersJoinedRoom", "*JoinedRoomsTracker).JoinedUsersForRoom"},
		Lit: func(x *Explorer, s *State, l Lit) {
			if memb(l, "join") {
				s.Bits |= jn
			}
			if memb(l, "leave") || memb(l, "ban") {
				s.Bits |= lv
			}
		},
		On: func(e Ev) Action {
			switch {
			case e.isCall("*UserLeftRoom"):
				e.S.Bits |= doneL
			case e.isCall("*UserJoinedRoom", "*UsersJoinedRoom"):
				e.S.Bits |= doneJ
			default:
				r.Ob(first, "")
				if e.S.Bits&lv != 0 && e.S.Bits&doneL == 0 {
					r.Bad(first, "leave", r.at(e.In), "the recipients of a leave or ban are determined while the user is still in the joined set", e.S.Trace()...)
				}
				if e.S.Bits&jn != 0 && e.S.Bits&doneJ == 0 {
					r.Bad(first, "join", r.at(e.In), "the recipients of a join are determined before the user is in the joined set", e.S.Trace()...)
				}
			}
			return Go
		}})
	r.Floor(first, 3)

	// the tracker itself
	const tr = "tracker"
	T := "sync3.JoinedRoomsTracker"
	ofRoom := func(v, room ssa.Value) bool { // the joined set of room
		for _, s := range p.sources(v) {
			k, ok := lookupKey(s, T, "roomIDToJoinedUsers")
			if !ok || !p.same(k, room) {
				return false
			}
		}
		return true
	}
	if fn := r.Fn("sync3.(*JoinedRoomsTracker).IsUserJoined"); fn != nil {
		user, room := fn.Params[1], fn.Params[2]
		g := func(cond ssa.Value, pol bool, v ssa.Value) bool {
			switch x := cond.(type) {
			case *ssa.BinOp:
				if (x.Op == token.EQL) != pol || (x.Op != token.EQL && x.Op != token.NEQ) {
					return false
				}
				for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if c := rangeOver(pr[0]); c != nil && p.same(pr[1], user) && ofRoom(c, room) {
						return true
					}
				}
			case *ssa.Extract:
				if l, ok := x.Tuple.(*ssa.Lookup); ok && pol && x.Index == 1 {
					return p.same(l.Index, user) && ofRoom(l.X, room)
				}
			}
			return false
		}
		k := &guardCk{p: p, g: g, stack: map[ssa.Value]bool{}}
		fnInstrs(fn, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok {
				r.Ob(tr, "IsUserJoined")
				if !k.implies(ret.Results[0], true, nil, 0) {
					r.Bad(tr, "IsUserJoined", r.at(in), "a user can be reported as joined without being in the joined set of that room")
				}
			}
		})
	}
	if fn := r.Fn("sync3.(*JoinedRoomsTracker).JoinedUsersForRoom"); fn != nil {
		fnInstrs(fn, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok {
				for _, l := range p.elems(ret.Results[0]) {
					r.Ob(tr, "JoinedUsersForRoom")
					c := rangeOver(l.Val)
					if l.Whole || c == nil || !ofRoom(c, fn.Params[1]) {
						r.Bad(tr, "JoinedUsersForRoom", r.at(in), "returns users which are not in the joined set of that room")
					}
				}
			}
		})
	}
	isDel := func(in ssa.Instruction) bool {
		c := asCall(in)
		if c == nil {
			return false
		}
		b, ok := c.Value.(*ssa.Builtin)
		return ok && b.Name() == "delete"
	}
	r.Path(PathRule{Rule: tr, Root: r.Fn("sync3.(*JoinedRoomsTracker).UserLeftRoom"), Inst: isDel,
		On: func(e Ev) Action {
			switch e.arg(0).String() + " " + e.arg(1).String() {
			case "$0.userIDToJoinedRooms{$1} $2":
				e.S.Bits |= 1
			case "$0.roomIDToJoinedUsers{$2} $1":
				e.S.Bits |= 2
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			if l.is(`^\$0\.roomIDToJoinedUsers\{\$2\}\{\$1\}#1$`, false) || l.is(`^\$0\.userIDToJoinedRooms\{\$1\}\{\$2\}#1$`, false) {
				s.Bits |= 4 // was not joined
			}
		},
		Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
			if kind == ExitReturn {
				r.Ob(tr, "UserLeftRoom")
				if s.Bits&3 != 3 && s.Bits&4 == 0 {
					r.Bad(tr, "UserLeftRoom", "sync3/tracker.go", "a user who left stays in a joined set", s.Trace()...)
				}
			}
		}})
	if fn := r.Fn("sync3.(*JoinedRoomsTracker).ReloadMembershipsForRoom"); fn != nil {
		forgot, set := false, false
		room := fn.Params[1]
		fnInstrs(fn, func(in ssa.Instruction) {
			if isDel(in) {
				a := asCall(in).Args
				if k, ok := lookupKey(a[0], T, "userIDToJoinedRooms"); ok && p.same(a[1], room) {
					if c := rangeOver(k); c != nil && ofRoom(c, room) {
						forgot = true
					}
				}
			}
			if mu, ok := in.(*ssa.MapUpdate); ok && isLoadOf(mu.Map, T, "roomIDToJoinedUsers") && p.same(mu.Key, room) {
				set = true
				for _, s := range p.deepSources(mu.Value) {
					if _, fresh := s.(*ssa.MakeMap); !fresh {
						set = false
					}
				}
			}
		})
		r.Ob(tr, "ReloadMembershipsForRoom")
		if !set || !forgot {
			r.Bad(tr, "ReloadMembershipsForRoom", p.Pos(fn.Pos()), "users who are no longer joined survive a reload of the room's memberships")
		}
	}
	r.Floor(tr, 5)
}

func typeOfRecv(fn *ssa.Function) string {
	if fn.Signature.Recv() == nil {
		return ""
	}
	return typeName(fn.Signature.Recv().Type())
}

// comparesSender: the block goes on to compare the sender of the event with somebody.
func (p *Prog) comparesSender(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if x, ok := in.(*ssa.BinOp); ok && isStr(x.X.Type()) {
			for _, v := range []ssa.Value{x.X, x.Y} {
				if strings.Contains(strings.ToLower(p.StaticTerm(b.Parent(), v).String()), "sender") {
					return true
				}
			}
		}
	}
	return false
}

func p10Lists(r *Report) {
	const rule = "left-rooms-not-listed"
	p := r.P
	left := "sync3/caches.UserRoomData"
	notLeft := func(cond ssa.Value, pol bool, v ssa.Value) bool { return !pol && isLoadOf(cond, left, "HasLeft") }
	// rooms of a new list
	p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if c := asCall(in); c != nil && calls(in, names{"sync3.NewFilteredSortableRooms"}) && typeOfRecv(outer(fn)) == "sync3.InternalRequestLists" {
			name := shortName(outer(fn)) + " new list"
			r.Ob(rule, name)
			r.Touch(fn)
			for _, l := range p.elems(c.Args[2]) {
				if l.Whole || !p.Guarded(l.At, nil, notLeft) {
					r.Bad(rule, name, r.at(in), "rooms the user has left are put into a new list")
				}
			}
		}
		// additions to existing lists
		if st, ok := in.(*ssa.Store); ok && isFieldAddr(st.Addr, "sync3.RoomListDelta", "Op") {
			isAdd := func(v ssa.Value) bool {
				u, ok := v.(*ssa.UnOp)
				if !ok {
					return false
				}
				g, ok := u.X.(*ssa.Global)
				return ok && g.Name() == "ListOpAdd"
			}
			k := &guardCk{p: p, g: notLeft, stack: map[ssa.Value]bool{}}
			name := shortName(outer(fn)) + " addition"
			found, good := false, true
			if phi, ok := st.Val.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					if isAdd(e) {
						found = true
						good = good && k.edge(phi.Block().Preds[i], phi.Block(), nil, 0)
					}
				}
			} else if isAdd(st.Val) {
				found, good = true, p.Guarded(in, nil, notLeft)
			}
			if !found {
				return
			}
			r.Ob(rule, name)
			r.Touch(fn)
			if !good {
				r.Bad(rule, name, r.at(in), "a room the user has left can be added to a list")
			}
		}
	})
	r.Floor(rule, 2)
}

// p10Timeline: timelines are read only within the range of positions in which the user could see the room.
func p10Timeline(r *Report) {
	const rule = "timeline-range"
	p := r.P
	p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if !calls(in, names{"*EventTable).SelectLatestEventsBetween"}) || !isGo(fn) {
			return
		}
		r.Touch(fn)
		name := shortName(outer(fn))
		a := asCall(in).Args
		for _, i := range []int{3, 4} {
			r.Ob(rule, name)
			found := false
			for _, o := range p.origins(a[i]) {
				if _, isC := o.(*ssa.Const); isC {
					continue
				}
				if isResultOf(o, "*Storage).visibleEventNIDsBetweenForRooms", "*Storage).VisibleEventNIDsBetween", "*Storage).visibleEventNIDsWithData") {
					found = true
					continue
				}
				r.Bad(rule, name, r.at(in), "timeline events are read up to "+describeVal(p, o)+", which does not depend on what the user was allowed to see")
			}
			if !found {
				r.Bad(rule, name, r.at(in), "timeline events are read without regard to what the user was allowed to see")
			}
		}
	})
	r.Floor(rule, 2)
}
