package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var perUser = map[string]bool{"syncv3_unread": true, "syncv3_invites": true, "syncv3_account_data": true, "syncv3_receipts_private": true}
var perDevice = map[string]bool{"syncv3_device_data": true, "syncv3_device_list_updates": true, "syncv3_to_device_messages": true,
	"syncv3_to_device_ack_pos": true, "syncv3_txns": true, "syncv3_sync2_devices": true}

func init() {
	reg("P09", "every statement on a table of per-user or per-device data is restricted to one user (and device), by conjunctive equality with the caller's identifier", p09Tenant)
	reg("P09", "identifiers keep their meaning across calls, fields and map keys: a device, room or event ID never stands in for a user ID, nor the other way round", p09Roles)
	reg("P09", "private data is fetched under the identity of the connection, poller or addressed update, never under one found in some event", p09Own)
	reg("P09", "updates addressed to a user or device are delivered to that user's cache or that device's connections only", p09Delivery)
}

var selColsRe = regexp.MustCompile(`(?is)select (.*?) from `)

func p09Tenant(r *Report) {
	const rule = "tenant-predicate"
	for _, st := range r.P.Statements() {
		if inMigrations(st.Fn) || (st.Verb != "SELECT" && st.Verb != "UPDATE" && st.Verb != "DELETE") {
			continue
		}
		for _, tb := range st.tables() {
			var need []string
			switch {
			case perUser[tb]:
				need = []string{"user_id"}
			case perDevice[tb]:
				need = []string{"user_id", "device_id"}
			default:
				continue
			}
			r.Touch(st.Fn)
			name := shortName(outer(st.Fn)) + " " + st.Verb + " " + tb
			w := where(st.Query)
			// age-based clean-up of every user's rows reveals nothing
			if st.Verb == "DELETE" && len(w) == 1 && w[0].Col == "ts" && w[0].Op == "<=" {
				r.Ob(rule, name)
				continue
			}
			// rows which carry their owner
			if m := selColsRe.FindStringSubmatch(st.Query); m != nil && st.Verb == "SELECT" {
				cols := lowerAll(splitTop(m[1], ","))
				all := true
				for _, n := range need {
					has := false
					for _, c := range cols {
						has = has || c == n || strings.HasSuffix(c, "."+n)
					}
					all = all && has
				}
				if all && !perUser[tb] {
					r.Ob(rule, name)
					continue
				}
			}
			r.Ob(rule, name)
			if len(w) == 1 && w[0].Op == "or" {
				r.Bad(rule, name, r.at(st.In), "the restriction to one owner can be bypassed by an OR: "+w[0].Rhs)
				continue
			}
			for _, n := range need {
				var hit *Conj
				for i := range w {
					if w[i].Col == n && w[i].Op == "=" {
						hit = &w[i]
					}
				}
				if hit == nil {
					r.Bad(rule, name+" "+n, r.at(st.In), "not restricted by "+n+": rows of others are read or changed")
					continue
				}
				v := st.param(hit.Rhs)
				if v == nil {
					if !strings.HasPrefix(hit.Rhs, "?") && !strings.HasPrefix(hit.Rhs, ":") {
						r.Bad(rule, name+" "+n, r.at(st.In), n+" is compared with "+hit.Rhs)
					}
					continue
				}
				want := strings.TrimSuffix(n, "_id")
				if ro := r.P.role(v); ro != "" && ro != want {
					r.Bad(rule, name+" "+n, r.at(st.In), fmt.Sprintf("%s is compared with a %s identifier", n, ro))
				}
				if c, ok := stripIface(v).(*ssa.Const); ok {
					r.Bad(rule, name+" "+n, r.at(st.In), n+" is compared with the constant "+c.String())
				}
			}
		}
	}
	r.Floor(rule, 24)
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			return v
		}
		v = mi.X
	}
}

var mapRole = regexp.MustCompile(`^_?(user|device|room|event)(?:ID)?s?To[A-Z]`)

// keyRole: what the name of the map's field or variable says about its keys.
func (p *Prog) keyRole(m ssa.Value) string {
	n := ""
	switch x := m.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			n = fieldName(a.X.Type(), a.Field)
		case *ssa.Alloc:
			n = a.Comment
		case *ssa.FreeVar:
			n = a.Name()
		}
	case *ssa.Field:
		n = fieldName(x.X.Type(), x.Field)
	case *ssa.Parameter:
		n = x.Name()
	case *ssa.FreeVar:
		n = x.Name()
	}
	n = strings.ToLower(n[:min(1, len(n))]) + n[min(1, len(n)):]
	if k := mapRole.FindStringSubmatch(n); k != nil {
		return k[1]
	}
	return ""
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func p09Roles(r *Report) {
	const rule = "identifier-roles"
	bad := func(fn *ssa.Function, in ssa.Instruction, what string) {
		r.Bad(rule, shortName(outer(fn))+" "+what, r.at(in), what)
	}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		if inMigrations(fn) || strings.HasPrefix(relPkg(fnPkg(fn).Path()), "cmd/") {
			return
		}
		switch i := in.(type) {
		case ssa.CallInstruction:
			c := i.Common()
			o := calleeObj(c)
			if o == nil || o.Pkg() == nil || !isModPkg(o.Pkg()) {
				return
			}
			sig := o.Type().(*types.Signature)
			off := 0
			if sig.Recv() != nil && !c.IsInvoke() {
				off = 1
			}
			for k := 0; k < sig.Params().Len() && k+off < len(c.Args); k++ {
				pv := sig.Params().At(k)
				want := nameRole(pv.Name())
				if want == "" || !isStr(pv.Type()) {
					continue
				}
				got := r.P.role(c.Args[k+off])
				r.Ob(rule, "")
				if got != "" && got != want {
					bad(fn, in, fmt.Sprintf("%s gets a %s ID as %s", siteName(in), got, pv.Name()))
				}
			}
		case *ssa.Store:
			fa, ok := i.Addr.(*ssa.FieldAddr)
			if !ok || !isStr(i.Val.Type()) {
				return
			}
			want := nameRole(fieldName(fa.X.Type(), fa.Field))
			if want == "" {
				return
			}
			r.Ob(rule, "")
			if got := r.P.role(i.Val); got != "" && got != want {
				bad(fn, in, fmt.Sprintf("%s.%s is set to a %s ID", typeName(fa.X.Type()), fieldName(fa.X.Type(), fa.Field), got))
			}
		case *ssa.Lookup:
			if want := r.P.keyRole(i.X); want != "" && isStr(i.Index.Type()) {
				r.Ob(rule, "")
				if got := r.P.role(i.Index); got != "" && got != want {
					bad(fn, in, fmt.Sprintf("a map keyed by %s ID is read with a %s ID", want, got))
				}
			}
		case *ssa.MapUpdate:
			if want := r.P.keyRole(i.Map); want != "" && isStr(i.Key.Type()) {
				r.Ob(rule, "")
				if got := r.P.role(i.Key); got != "" && got != want {
					bad(fn, in, fmt.Sprintf("a map keyed by %s ID is written with a %s ID", want, got))
				}
			}
		}
	})
	r.Floor(rule, 300)
}

// ownIdentity: fields holding the identity somebody acts under (as opposed to an identity mentioned in some data).
var ownIdentity = map[string]bool{"sync3/extensions.Context": true, "sync3.ConnID": true, "sync3.Conn": true, "sync3/handler.ConnState": true,
	"sync2.Token": true, "sync2.PollerID": true, "sync2.poller": true, "sync3/caches.UserCache": true, "sync2.DeviceData": true, "sync2.Device": true,
	"internal.DeviceData": true, "internal.DeviceKeyData": true, "sync2.TokenForPoller": true}

// p09Own: private data is fetched under the identity of the connection or poller it is for.
func p09Own(r *Report) {
	const rule = "own-identity"
	type fp struct {
		fn *ssa.Function
		i  int
	}
	tenant := map[fp]bool{}
	var leafs func(v ssa.Value) []ssa.Value
	leafs = func(v ssa.Value) []ssa.Value { return r.P.sources(stripIface(v)) }
	check := func(fn *ssa.Function, in ssa.Instruction, v ssa.Value, what string) {
		for _, l := range leafs(v) {
			switch x := l.(type) {
			case *ssa.Parameter:
				tenant[fp{x.Parent(), paramIndex(x)}] = true
			case *ssa.FreeVar:
				if b := freeVarBinding(x); b != nil {
					for _, l2 := range leafs(b) {
						if pp, ok := l2.(*ssa.Parameter); ok {
							tenant[fp{pp.Parent(), paramIndex(pp)}] = true
						}
					}
				}
			case *ssa.UnOp, *ssa.Field:
				var t types.Type
				f := ""
				switch y := x.(type) {
				case *ssa.UnOp:
					switch fa := y.X.(type) {
					case *ssa.FieldAddr:
						t, f = fa.X.Type(), fieldName(fa.X.Type(), fa.Field)
					case *ssa.FreeVar:
						if b := freeVarBinding(fa); b != nil {
							if al, ok := b.(*ssa.Alloc); ok {
								for _, st := range storesTo(al) {
									if pp, ok := st.Val.(*ssa.Parameter); ok {
										tenant[fp{pp.Parent(), paramIndex(pp)}] = true
									}
								}
							}
						}
					}
				case *ssa.Field:
					t, f = y.X.Type(), fieldName(y.X.Type(), y.Field)
				}
				if t == nil {
					continue
				}
				tn := typeName(t)
				if strings.HasPrefix(tn, "pubsub.V2") && f == "UserID" || ownIdentity[tn] && nameRole(f) == "user" {
					r.Ob(rule, "")
					continue
				}
				r.Bad(rule, shortName(outer(fn))+" "+what, r.at(in), fmt.Sprintf("private data is fetched or stored under the identity %s.%s", tn, f))
			}
		}
	}
	for _, st := range r.P.Statements() {
		if inMigrations(st.Fn) || st.Verb == "INSERT" {
			continue
		}
		for _, tb := range st.tables() {
			if !perUser[tb] && !perDevice[tb] {
				continue
			}
			for _, c := range where(st.Query) {
				if c.Col == "user_id" && c.Op == "=" && !strings.HasPrefix(strings.ToLower(c.Rhs), "any") {
					if v := st.param(c.Rhs); v != nil {
						check(st.Fn, st.In, v, st.Table)
					}
				}
			}
		}
	}
	// interface methods through which the storage is reached
	done := map[fp]bool{}
	for changed := true; changed; {
		changed = false
		for k := range tenant {
			if done[k] {
				continue
			}
			done[k] = true
			changed = true
			o, _ := k.fn.Object().(*types.Func)
			r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
				c := asCall(in)
				if c == nil || inMigrations(fn) {
					return
				}
				if c.StaticCallee() == k.fn {
					if k.i < len(c.Args) {
						check(fn, in, c.Args[k.i], siteName(in))
					}
				} else if c.IsInvoke() && o != nil && c.Method.Name() == o.Name() && types.Identical(stripRecv(c.Method), stripRecv(o)) {
					if k.i-1 >= 0 && k.i-1 < len(c.Args) {
						check(fn, in, c.Args[k.i-1], siteName(in))
					}
				}
			})
		}
	}
	r.Floor(rule, 10)
}

func stripRecv(o *types.Func) types.Type {
	s := o.Type().(*types.Signature)
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// freeVarBinding: the value captured for a free variable at the closure's single creation site.
func freeVarBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	var out ssa.Value
	n := 0
	fnInstrs(fn.Parent(), func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
			n++
			out = mc.Bindings[idx]
		}
	})
	if n != 1 {
		return nil
	}
	return out
}

// payloadParam: index of the method's *pubsub payload parameter which names a user, or -1.
func payloadParam(fn *ssa.Function) (int, bool) {
	for i, p := range fn.Params {
		tn := typeName(p.Type())
		if !strings.HasPrefix(tn, "pubsub.V2") {
			continue
		}
		t := p.Type().Underlying()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		st, ok := t.(*types.Struct)
		if !ok {
			continue
		}
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == "UserID" {
				return i, true
			}
		}
	}
	return -1, false
}

func p09Delivery(r *Report) {
	const rule = "addressed-delivery"
	for _, m := range r.P.ifaceMethods("pubsub", "V2Listener") {
		fn := r.P.method("sync3/handler", "SyncLiveHandler", m.Name())
		if fn == nil {
			r.Bad("anchor", "sync3/handler.(*SyncLiveHandler)."+m.Name(), "-", "anchor function not found")
			continue
		}
		pi, addressed := payloadParam(fn)
		if !addressed {
			continue
		}
		user, dev := fmt.Sprintf("$%d.UserID", pi), fmt.Sprintf("$%d.DeviceID", pi)
		r.Path(PathRule{Rule: rule, Root: fn, Calls: []string{"sync.(*Map).Load", "sync.(*Map).Range", "sync3.(*ConnMap).Conns", "sync3.(*ConnMap).ClearUpdateQueues", "sync3.(*ConnMap).CloseConnsForDevice", "sync3.(*Conn).OnUpdate"},
			Inst: func(in ssa.Instruction) bool {
				c := asCall(in)
				return c != nil && strings.HasPrefix(callName(c), "sync3/caches.(*UserCache).On")
			},
			Stop: func(f *ssa.Function) bool {
				return strings.HasPrefix(shortName(f), "sync3/caches.(*UserCache)") || strings.HasPrefix(shortName(f), "sync3.(*ConnMap)")
			},
			On: func(e Ev) Action {
				r.Ob(rule, shortName(fn)+" "+siteName(e.In))
				bad := func(what string) {
					r.Bad(rule, shortName(fn)+" "+siteName(e.In), r.at(e.In), what, e.S.Trace()...)
				}
				switch {
				case e.isCall("sync.(*Map).Range"):
					bad("an update addressed to one user is offered to every user")
				case e.isCall("sync.(*Map).Load"), e.isCall("sync3.(*ConnMap).ClearUpdateQueues"):
					if t := e.argm(0).String(); t != user {
						bad("an update addressed to a user goes to " + t)
					}
				case e.isCall("sync3.(*ConnMap).Conns", "sync3.(*ConnMap).CloseConnsForDevice"):
					if a, b := e.argm(0).String(), e.argm(1).String(); a != user || b != dev {
						bad("an update addressed to a device goes to " + a + ", " + b)
					}
				case e.isCall("sync3.(*Conn).OnUpdate"):
					if t := e.recv(); !t.HasCall("ConnMap).Conns") {
						bad("an update addressed to a device is sent on connection " + t.String())
					}
				default:
					if t := e.recv(); !t.HasCall("Map).Load") || !strings.Contains(t.String(), user) {
						bad("an update addressed to a user is given to the cache " + t.String())
					}
				}
				return Go
			}})
	}
	r.Floor(rule, 8)
	// the device data payload carries users and their devices
	if fn := r.Fn("sync3/handler.(*SyncLiveHandler).OnDeviceData"); fn != nil {
		r.Path(PathRule{Rule: rule, Root: fn, Calls: []string{"sync3.(*ConnMap).Conns"}, Stop: func(f *ssa.Function) bool { return strings.HasPrefix(shortName(f), "sync3.(*ConnMap)") },
			On: func(e Ev) Action {
				r.Ob(rule, "OnDeviceData")
				if a, b := e.argm(0).String(), e.argm(1).String(); !strings.Contains(a, "UserIDToDeviceIDs") || !strings.Contains(b, "UserIDToDeviceIDs") {
					r.Bad(rule, "OnDeviceData", r.at(e.In), "an update addressed to a device goes to "+a+", "+b)
				}
				return Go
			}})
	}
	// connections of a device are found by user and device
	const rule2 = "connections-of-device"
	fn := r.Fn("sync3.(*ConnMap).Conns")
	const sameDev = 1
	n := 0
	r.Path(PathRule{Rule: rule2, Root: fn, Inst: func(in ssa.Instruction) bool {
		_, lk := in.(*ssa.Lookup)
		return isAppendTo(in, "sync3.ConnID") || isAppendTo(in, "sync3.Conn") || lk
	}, Inl: func(f *ssa.Function) bool { return strings.HasPrefix(shortName(f), "sync3.(*ConnMap).conn") },
		On: func(e Ev) Action {
			if lk, ok := e.In.(*ssa.Lookup); ok {
				if m := e.X.Term(e.S, mkCV(e.S.ctx, lk.X)); m.Op == "field" && m.Name == "userIDToConn" && !strings.HasSuffix(shortName(e.In.Parent()), "closeConn") {
					if k := e.X.Term(e.S, mkCV(e.S.ctx, lk.Index)).String(); k != "$1" {
						r.Bad(rule2, shortName(fn)+" user", r.at(e.In), "connections of user "+k+" are returned")
					}
				}
				return Go
			}
			if e.S.Bits&sameDev != 0 {
				n++
			}
			if isAppendTo(e.In, "sync3.ConnID") {
				if e.S.Bits&sameDev == 0 {
					r.Bad(rule2, shortName(fn)+" device", r.at(e.In), "connections of the user's other devices are returned too", e.S.Trace()...)
				}
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			a := l.Atom
			if a.Op == "eq" && (strings.HasSuffix(a.Args[0].String(), ".DeviceID") && a.Args[1].String() == "$2" || strings.HasSuffix(a.Args[1].String(), ".DeviceID") && a.Args[0].String() == "$2") {
				s.Bits &^= sameDev
				if l.Pol {
					s.Bits |= sameDev
				}
			}
		},
		Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) { s.Bits = 0 }})
	if n > 0 {
		r.Ob(rule2, "Conns")
	}
	r.Floor(rule2, 1)
	// connections are registered under the full identity
	const rule3 = "connection-key"
	if fn := r.Fn("sync3.(*ConnID).String"); fn != nil {
		used := map[string]bool{}
		for _, g := range withClosures(fn) {
			fnInstrs(g, func(in ssa.Instruction) {
				if fa, ok := in.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == "sync3.ConnID" {
					used[fieldName(fa.X.Type(), fa.Field)] = true
				}
			})
		}
		for _, f := range []string{"UserID", "DeviceID", "CID"} {
			r.Ob(rule3, f)
			if !used[f] {
				r.Bad(rule3, shortName(fn)+" "+f, r.P.Pos(fn.Pos()), "connections of different "+f+" share one key")
			}
		}
	}
	if fn := r.Fn("sync3/handler.(*SyncLiveHandler).userCache"); fn != nil {
		k := 0
		r.Path(PathRule{Rule: rule3, Root: fn, Calls: []string{"sync.(*Map).Load", "sync.(*Map).LoadOrStore", "sync.(*Map).Store", "sync3/caches.NewUserCache", "sync3.(*Dispatcher).Register"}, On: func(e Ev) Action {
			t := e.argm(0)
			if e.isCall("sync3.(*Dispatcher).Register") {
				t = e.argm(1)
			}
			k++
			if t.String() != "$1" {
				r.Bad(rule3, shortName(fn)+" "+siteName(e.In), r.at(e.In), "the cache of user $1 is looked up or registered as "+t.String())
			}
			return Go
		}})
		if k > 0 {
			r.Ob(rule3, "userCache")
		}
	}
	r.Floor(rule3, 4)
}
