package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// connField: the fields of sync3.Conn by what they hold.
func (p *Prog) connField(r *Report, what string) string {
	for _, pk := range p.Pkgs {
		if relPkg(pk.Types.Path()) != "sync3" {
			continue
		}
		o := pk.Types.Scope().Lookup("Conn")
		if o == nil {
			continue
		}
		st, _ := o.Type().Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i)
			t := f.Type()
			switch what {
			case "buffer":
				if s, ok := t.Underlying().(*types.Slice); ok && typeName(s.Elem()) == "sync3.Response" {
					return f.Name()
				}
			case "request":
				if typeName(t) == "sync3.Request" {
					return f.Name()
				}
			case "position":
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 || typeName(t) == "sync/atomic.Int64" {
					return f.Name()
				}
			}
		}
	}
	r.Bad("anchor", "sync3.Conn "+what, "-", "sync3.Conn has no field which holds the "+what)
	return "?"
}

// connWrite: in changes the named field of sync3.Conn; val is what it becomes.
func connWrite(in ssa.Instruction, field string) (val ssa.Value, ok bool) {
	if st, isSt := in.(*ssa.Store); isSt && isFieldAddr(st.Addr, "sync3.Conn", field) {
		return st.Val, true
	}
	if c := asCall(in); c != nil {
		switch callName(c) {
		case "sync/atomic.StoreInt64", "sync/atomic.AddInt64", "sync/atomic.(*Int64).Store", "sync/atomic.(*Int64).Add":
			if len(c.Args) == 2 && isFieldAddr(c.Args[0], "sync3.Conn", field) {
				return c.Args[1], true
			}
		}
	}
	return nil, false
}

func isHandlerCall(in ssa.Instruction) bool {
	c := asCall(in)
	return c != nil && c.IsInvoke() && c.Method.Name() == "OnIncomingRequest" && typeName(c.Value.Type()) == "sync3.ConnHandler"
}

// knownPos: the condition shows that the position of the request is the first one, that of the last request, or one of
// a buffered response.
func (p *Prog) knownPos(reqField, buf string) Guard {
	isReqPos := func(v ssa.Value) bool { return isLoadOf(v, "sync3.Request", "pos") }
	ofLast := func(v ssa.Value) bool {
		u, ok := stripConv(v).(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && isFieldAddr(fa.X, "sync3.Conn", reqField)
	}
	isPosInt := func(v ssa.Value) bool {
		c, ok := stripConv(v).(*ssa.Call)
		return ok && callName(&c.Call) == "sync3.(*Response).PosInt"
	}
	var g Guard
	g = func(cond ssa.Value, pol bool, _ ssa.Value) bool {
		if c, ok := cond.(*ssa.Call); ok && pol {
			switch callName(&c.Call) {
			case "slices.ContainsFunc", "golang.org/x/exp/slices.ContainsFunc":
				if mc, ok := c.Call.Args[1].(*ssa.MakeClosure); ok {
					k := &guardCk{p: p, g: g, stack: map[ssa.Value]bool{}}
					good := false
					fnInstrs(mc.Fn.(*ssa.Function), func(in ssa.Instruction) {
						if rt, ok := in.(*ssa.Return); ok {
							good = k.implies(rt.Results[0], true, nil, 0)
						}
					})
					return good
				}
			}
			return false
		}
		b, ok := cond.(*ssa.BinOp)
		if !ok || !(b.Op == token.EQL && pol || b.Op == token.NEQ && !pol) {
			return false
		}
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if k, ok := pr[1].(*ssa.Const); ok && isReqPos(pr[0]) && k.Int64() == 0 {
				return true
			}
			if ofLast(pr[0]) && isReqPos(pr[1]) {
				return true
			}
			if isPosInt(pr[0]) {
				return true
			}
		}
		return false
	}
	return g
}

func init() {
	reg("P16", "the handler is invoked, and the connection's positions and buffered responses change, only for a position which the connection handed out, and all within one critical section of the connection's lock", func(r *Report) {
		const rule = "known position"
		p := r.P
		l := p19Locks(p)
		buf, last, pos := p.connField(r, "buffer"), p.connField(r, "request"), p.connField(r, "position")
		g := p.knownPos(last, buf)
		// where the connection's lock is taken
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			what := ""
			if isHandlerCall(in) {
				what = "invokes the handler"
			}
			for _, f := range []string{buf, last, pos} {
				if _, ok := connWrite(in, f); ok && !freshStore(in) {
					what = "changes " + f
				}
			}
			if what == "" {
				return
			}
			r.Ob(rule, shortName(fn)+" "+what)
			r.Touch(fn)
			if !p.Guarded(in, nil, g) {
				r.Bad(rule, shortName(fn)+" "+what, r.at(in), shortName(fn)+" "+what+" for a request whose position may never have been handed out")
			}
			held := false
			for k, m := range l.At(in) {
				held = held || m == 2 && k == "sync3.Conn.mu"
			}
			r.Ob("one at a time", shortName(fn)+" "+what)
			if !held {
				r.Bad("one at a time", shortName(fn)+" "+what, r.at(in), shortName(fn)+" "+what+" without the connection's lock: two requests on one connection may be processed at once")
			}
		})
		r.Floor(rule, 4)
		// not let go between looking at the connection's state and changing it
		root := r.Fn("sync3.(*Conn).OnIncomingRequest")
		if root == nil {
			return
		}
		var reads, writes []ssa.Instruction
		touches := map[*ssa.Function]bool{}
		var touch func(f *ssa.Function, d int) bool
		touch = func(f *ssa.Function, d int) bool {
			if v, ok := touches[f]; ok || d > 6 {
				return v
			}
			touches[f] = false
			res := false
			fnInstrs(f, func(in ssa.Instruction) {
				if isHandlerCall(in) {
					res = true
				}
				for _, fl := range []string{buf, last, pos} {
					if _, ok := connWrite(in, fl); ok {
						res = true
					}
					if u, ok := in.(*ssa.UnOp); ok && isFieldAddr(u.X, "sync3.Conn", fl) {
						res = true
					}
				}
				if c := asCall(in); c != nil && c.StaticCallee() != nil && inModule(c.StaticCallee()) {
					res = touch(c.StaticCallee(), d+1) || res
				}
			})
			touches[f] = res
			return res
		}
		fnInstrs(root, func(in ssa.Instruction) {
			rel := isHandlerCall(in)
			for _, fl := range []string{buf, last, pos} {
				if _, ok := connWrite(in, fl); ok {
					rel = true
				}
				if u, ok := in.(*ssa.UnOp); ok && isFieldAddr(u.X, "sync3.Conn", fl) {
					rel = true
				}
			}
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && inModule(c.Call.StaticCallee()) && touch(c.Call.StaticCallee(), 0) {
				rel = true
			}
			if rel {
				reads = append(reads, in)
				writes = append(writes, in)
			}
		})
		for _, a := range reads {
			for _, b := range writes {
				if a == b || !canReach(a, b) {
					continue
				}
				r.Ob("one at a time", "between "+r.at(a)+" and "+r.at(b))
				if l.releasedBetween(a, b, "sync3.Conn.mu") {
					r.Bad("one at a time", "sync3.(*Conn).OnIncomingRequest", r.at(b), "the connection's lock may be released between "+r.at(a)+" and here: another request can come in between")
				}
			}
		}
	})
	reg("P16", "a request which was processed is answered with the next position, and the answer is kept; one which failed changes nothing", func(r *Report) {
		const rule = "bookkeeping"
		p := r.P
		buf, last, pos := p.connField(r, "buffer"), p.connField(r, "request"), p.connField(r, "position")
		root := r.Fn("sync3.(*Conn).OnIncomingRequest")
		if root == nil {
			return
		}
		const called, bLast, bPos, bTxn, bBuf, bLastPos, bSame = 1, 2, 4, 8, 16, 32, 64
		const self = "sync3.(*Conn).OnIncomingRequest"
		isEv := func(in ssa.Instruction) bool {
			if isHandlerCall(in) || fieldStore("sync3.Response", "Pos", "TxnID")(in) {
				return true
			}
			for _, f := range []string{buf, last, pos} {
				if _, ok := connWrite(in, f); ok {
					return true
				}
			}
			return false
		}
		// what a position is computed from
		next := func(v ssa.Value) (position, plusOne, parsed bool) {
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value, d int)
			walk = func(v ssa.Value, d int) {
				if v == nil || seen[v] || d > 12 {
					return
				}
				seen[v] = true
				if isFieldAddr(v, "sync3.Conn", pos) {
					position = true
					return
				}
				if c, ok := v.(*ssa.Call); ok && callName(&c.Call) == "sync3.(*Response).PosInt" {
					parsed = true
					return
				}
				if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
					for _, o := range []ssa.Value{b.X, b.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "1" {
							plusOne = true
						}
					}
				}
				if a, ok := v.(*ssa.Alloc); ok {
					for _, st := range storesTo(a) {
						walk(st.Val, d+1)
					}
					for _, rf := range *a.Referrers() {
						if ia, ok := rf.(*ssa.IndexAddr); ok {
							for _, st := range storesTo(ia) {
								walk(st.Val, d+1)
							}
						}
					}
					return
				}
				if in, ok := v.(ssa.Instruction); ok {
					for _, op := range in.Operands(nil) {
						walk(*op, d+1)
					}
				}
			}
			walk(v, 0)
			return
		}
		n := map[string]bool{}
		bad := func(e Ev, what, detail string) { r.Bad(rule, self+" "+what, r.at(e.In), detail) }
		r.Path(PathRule{Rule: rule, Root: root, Inst: isEv,
			Stop: func(f *ssa.Function) bool { return shortName(f) == "sync3.(*Request).Same" },
			On: func(e Ev) Action {
				term := func(v ssa.Value) *Term { return e.X.Term(e.S, mkCV(e.S.ctx, v)) }
				if isHandlerCall(e.In) {
					n["handler"] = true
					if e.S.Bits&called != 0 {
						bad(e, "twice", "one request is processed by the handler twice")
					}
					e.S.Bits |= called
					return Go
				}
				if st, ok := e.In.(*ssa.Store); ok && isFieldAddr(st.Addr, "sync3.Response", "Pos") {
					n["position"] = true
					position, one, _ := next(st.Val)
					if !position || one == (e.S.Bits&bLastPos != 0) {
						bad(e, "position", "the position given to the response is not the connection's position plus one")
					}
					e.S.Bits |= bPos
				}
				if st, ok := e.In.(*ssa.Store); ok && isFieldAddr(st.Addr, "sync3.Response", "TxnID") {
					n["txn"] = true
					if t := term(st.Val); t.Op != "field" || t.Name != "TxnID" || t.Args[0].Op != "param" {
						bad(e, "txn_id", "the transaction ID of the response is "+t.String()+", not that of the request")
					}
					e.S.Bits |= bTxn
				}
				if v, ok := connWrite(e.In, last); ok {
					n["last request"] = true
					if t := term(v); t.Find(func(t *Term) bool { return t.Op == "param" }) == nil {
						bad(e, "last request", "what is remembered as the last request is "+t.String())
					}
					if e.S.Bits&called == 0 {
						bad(e, "too early", "the request is remembered as processed before it is: when it fails, the client's retry is answered as if it had succeeded")
					}
					e.S.Bits |= bLast
				}
				if v, ok := connWrite(e.In, pos); ok {
					n["last position"] = true
					position, one, parsed := next(v)
					if c := asCall(e.In); c != nil && strings.Contains(callName(c), "Add") {
						k, isK := v.(*ssa.Const)
						one = isK && k.Value != nil && k.Value.String() == "1"
						position = true
					}
					if !(parsed && e.S.Bits&bPos != 0 || position && one) {
						bad(e, "position", "the connection's position is not advanced by one")
					}
					if e.S.Bits&called == 0 {
						bad(e, "too early", "the connection's position is advanced before the request is processed: a failed request loses a position")
					}
					e.S.Bits |= bLastPos
				}
				if v, ok := connWrite(e.In, buf); ok {
					if _, isSlice := v.(*ssa.Slice); isSlice {
						n["purge"] = true
						return Go
					}
					n["buffer"] = true
					own := false
					for _, lf := range p.elems(v) {
						for _, src := range p.sources(lf.Val) {
							if u, ok := src.(*ssa.UnOp); ok && u.Op == token.MUL {
								for _, s2 := range p.deepSources(u.X) {
									if ex, ok := s2.(*ssa.Extract); ok {
										if c, ok := ex.Tuple.(*ssa.Call); ok && isHandlerCall(c) {
											own = true
										}
									}
								}
							}
						}
					}
					if !own {
						bad(e, "buffer", "what is kept for retries is not the handler's response")
					}
					if e.S.Bits&called == 0 {
						bad(e, "too early", "a response is kept before the request is processed")
					}
					if e.S.Bits&(bPos|bTxn) != bPos|bTxn {
						bad(e, "buffer", "the response is kept for retries before its position and transaction ID are set: a retry gets another answer than the original")
					}
					e.S.Bits |= bBuf
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				if l.Pol && l.Atom.HasCall("(*Request).Same") {
					s.Bits |= bSame
				}
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind != ExitReturn {
					return
				}
				where := p.Pos(root.Pos())
				errKnown, errNil := x.KnownNil(s, res[1])
				t := x.Term(s, res[0])
				if t.Op == "nil" {
					if errKnown && errNil && s.Bits&bSame == 0 {
						r.Bad(rule, self+" nothing", where, "neither a response nor an error is returned", s.Trace()...)
					}
					if s.Bits&(bLast|bBuf|bLastPos) != 0 {
						r.Bad(rule, self+" failure", where, "a request which failed changes the connection's position, buffer or last request", s.Trace()...)
					}
					if s.Bits&called == 0 && errKnown && !errNil && !x.Term(s, res[1]).HasCall("internal.ExpiredSessionError") {
						if e := x.Term(s, res[1]); e.Find(func(t *Term) bool { return t.IsConst(`"M_UNKNOWN_POS"`) }) == nil && !expired(p, x.resolve(s, res[1]).v) {
							r.Bad(rule, self+" rejected", where, "an unknown position is not answered with M_UNKNOWN_POS but "+e.String(), s.Trace()...)
						}
					}
					return
				}
				if s.Bits&called == 0 {
					if s.Bits&bSame == 0 {
						r.Bad(rule, self+" ignored", where, "a request is answered from the buffer without its data being processed, although it is not known to be a repeat", s.Trace()...)
					}
					return
				}
				for _, b := range []struct {
					bit  uint64
					what string
				}{{bLast, "the request is not remembered as the last one, so a retry is processed again"}, {bPos, "the response has no position"}, {bTxn, "the response lacks the request's transaction ID"}, {bBuf, "the response is not kept, so it is lost when the client does not receive it"}, {bLastPos, "the connection's position does not advance, so the next response has the same one"}} {
					if s.Bits&b.bit == 0 {
						r.Bad(rule, self+" incomplete", where, "a request was processed but "+b.what, s.Trace()...)
					}
				}
			},
		})
		for k := range n {
			r.Ob(rule, k)
		}
		r.Floor(rule, 6)
	})
	reg("P16", "the answer is the oldest response which the client has not seen, and only responses it has gone beyond are dropped", func(r *Report) {
		const rule = "oldest first"
		const self = "sync3.(*Conn).OnIncomingRequest"
		p := r.P
		buf := p.connField(r, "buffer")
		root := r.Fn(self)
		if root == nil {
			return
		}
		isPosInt := func(v ssa.Value) bool {
			c, ok := stripConv(v).(*ssa.Call)
			return ok && callName(&c.Call) == "sync3.(*Response).PosInt"
		}
		isReqPos := func(v ssa.Value) bool {
			if isLoadOf(v, "sync3.Request", "pos") {
				return true
			}
			for _, s := range p.deepSources(v) {
				if isLoadOf(s, "sync3.Request", "pos") {
					return true
				}
			}
			return false
		}
		// cmp: the condition shows that response < request (less) or response > request
		cmp := func(less bool) Guard {
			return func(cond ssa.Value, pol bool, _ ssa.Value) bool {
				b, ok := cond.(*ssa.BinOp)
				if !ok {
					return false
				}
				op, x, y := b.Op, b.X, b.Y
				if isPosInt(y) && isReqPos(x) {
					x, y = y, x
					switch op {
					case token.LSS:
						op = token.GTR
					case token.GTR:
						op = token.LSS
					case token.LEQ:
						op = token.GEQ
					case token.GEQ:
						op = token.LEQ
					}
				}
				if !isPosInt(x) || !isReqPos(y) {
					return false
				}
				if less {
					return pol && op == token.LSS || !pol && op == token.GEQ
				}
				return pol && op == token.GTR || !pol && op == token.LEQ
			}
		}
		isElem := func(v ssa.Value) bool {
			ia, ok := v.(*ssa.IndexAddr)
			return ok && fromBuffer(p, ia.X, buf)
		}
		none := func(cond ssa.Value, pol bool, _ ssa.Value) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || !(b.Op == token.EQL && pol || b.Op == token.NEQ && !pol) {
				return false
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := pr[1].(*ssa.Const); ok && k.IsNil() && typeName(pr[0].Type()) == "sync3.Response" {
					for _, fl := range flowsTo(p, pr[0], b) {
						if isElem(fl.val) {
							return true
						}
					}
				}
			}
			return false
		}
		guardedAt := func(fl flow, g Guard) bool {
			for _, pl := range fl.at {
				if p.guardedPlace(pl, g) {
					return true
				}
			}
			return false
		}
		fnInstrs(root, func(in ssa.Instruction) {
			rt, ok := in.(*ssa.Return)
			if !ok {
				return
			}
			for _, fl := range flowsTo(p, rt.Results[0], rt) {
				switch {
				case isElem(fl.val):
					r.Ob(rule, "buffered response returned")
					if !guardedAt(fl, cmp(false)) {
						r.Bad(rule, self+" seen", r.at(fl.at[len(fl.at)-1].in), "a response may be sent again although the client has acknowledged it")
					}
					at := fl.at[len(fl.at)-1].in
					if (inCycle(at.Block()) && loopsTo(fl.at[len(fl.at)-1])) && !guardedAt(fl, none) {
						r.Bad(rule, self+" newest", r.at(at), "not the oldest unacknowledged response is returned: later ones replace it")
					}
				default:
					for _, s := range p.sources(fl.val) {
						if ex, ok := s.(*ssa.Extract); ok {
							if c, ok := ex.Tuple.(*ssa.Call); ok && isHandlerCall(c) {
								r.Ob(rule, "new response returned")
								if !guardedAt(fl, none) {
									r.Bad(rule, self+" skipped", r.at(fl.at[len(fl.at)-1].in), "the new response is returned although an older one has not been acknowledged: the older one is lost")
								}
							}
						}
					}
				}
			}
		})
		// dropping
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			v, ok := connWrite(in, buf)
			if !ok || freshStore(in) {
				return
			}
			for _, src := range p.sources(v) {
				sl, ok := src.(*ssa.Slice)
				if !ok || !fromBuffer(p, sl.X, buf) {
					continue
				}
				r.Ob(rule, "dropped in "+shortName(fn))
				if sl.High != nil {
					r.Bad(rule, shortName(fn)+" drops", r.at(in), "the newest responses are dropped from the buffer")
				}
				if sl.Low == nil {
					continue
				}
				lows(p, sl.Low, place{in: sl}, 0, nil, map[ssa.Value]bool{}, func(val ssa.Value, at []place, off int64) {
					if k, ok := val.(*ssa.Const); ok && k.Value != nil {
						if k.Int64()+off != 0 {
							r.Bad(rule, shortName(fn)+" drops", r.at(at[len(at)-1].in), fmt.Sprintf("%d responses are dropped from the buffer whatever their positions", k.Int64()+off))
						}
						return
					}
					if !indexes(p, val, buf) {
						return
					}
					r.Ob(rule, "dropped up to an index in "+shortName(fn))
					if off > 1 || off == 1 && !guardedAt(flow{val, at}, cmp(true)) {
						r.Bad(rule, shortName(fn)+" drops", r.at(at[len(at)-1].in), "a response is dropped although the client has not gone beyond its position: it cannot be sent again, and the client's position is not known any more when the request fails")
					}
				})
			}
		})
		r.Floor(rule, 3)
	})
}

func expired(p *Prog, v ssa.Value) bool {
	if v == nil {
		return false
	}
	for k := range p.constArgs(v) {
		if k == `"M_UNKNOWN_POS"` {
			return true
		}
	}
	return false
}

// fromBuffer: v is the connection's buffer of responses.
func fromBuffer(p *Prog, v ssa.Value, buf string) bool {
	for _, s := range p.sources(v) {
		if u, ok := s.(*ssa.UnOp); ok && u.Op == token.MUL && isFieldAddr(u.X, "sync3.Conn", buf) {
			return true
		}
	}
	return false
}

func indexes(p *Prog, v ssa.Value, buf string) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok && ia.Index == v && fromBuffer(p, ia.X, buf) {
			return true
		}
	}
	return false
}

// A flow is a value together with the places where it was assigned on its way.
type flow struct {
	val ssa.Value
	at  []place
}

// A place is an instruction, or the edge from its block to another.
type place struct {
	in ssa.Instruction
	to *ssa.BasicBlock
}

func (p *Prog) guardedPlace(pl place, g Guard) bool {
	if pl.to != nil {
		k := &guardCk{p: p, g: g, stack: map[ssa.Value]bool{}}
		if k.cuts(pl.in.Block(), pl.to, nil, 0) {
			return true
		}
	}
	return p.Guarded(pl.in, nil, g)
}

// flowsTo: the values which v (used at) may be, following only assignments which reach the use.
func flowsTo(p *Prog, v ssa.Value, at ssa.Instruction) []flow {
	var out []flow
	type key struct {
		v  ssa.Value
		at ssa.Instruction
	}
	seen := map[key]bool{}
	var walk func(v ssa.Value, at place, chain []place)
	ret := func(c *ssa.Call, idx int, chain []place) bool {
		f := c.Call.StaticCallee()
		if f == nil || !inModule(f) || len(f.Blocks) == 0 || len(chain) > 8 || f.Recover != nil {
			return false
		}
		fnInstrs(f, func(in ssa.Instruction) {
			if rt, ok := in.(*ssa.Return); ok {
				walk(rt.Results[idx], place{in: rt}, chain)
			}
		})
		return true
	}
	walk = func(v ssa.Value, at place, chain []place) {
		if seen[key{v, at.in}] {
			return
		}
		seen[key{v, at.in}] = true
		chain = append(append([]place{}, chain...), at)
		switch x := v.(type) {
		case *ssa.Call:
			if ret(x, 0, chain) {
				return
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && ret(c, x.Index, chain) {
				return
			}
		case *ssa.Phi:
			for i, e := range x.Edges {
				walk(e, place{last(x.Block().Preds[i]), x.Block()}, chain)
			}
			return
		case *ssa.ChangeType:
			walk(x.X, at, chain)
			return
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				sts := storesTo(a)
				for _, st := range sts {
					if storeReaches(st, x, sts) {
						walk(st.Val, place{in: st}, chain)
					}
				}
				return
			}
		}
		out = append(out, flow{v, chain})
	}
	walk(v, place{in: at}, nil)
	return out
}

// storeReaches: what st stores may still be there at in.
func storeReaches(st *ssa.Store, in ssa.Instruction, all []*ssa.Store) bool {
	kills := func(b *ssa.BasicBlock, from, to int) bool {
		for _, o := range all {
			if o != st && o.Block() == b && indexOf(o) >= from && indexOf(o) < to {
				return true
			}
		}
		return false
	}
	if st.Parent() != in.Parent() {
		return true
	}
	if st.Block() == in.Block() && indexOf(st) < indexOf(in) {
		return !kills(st.Block(), indexOf(st)+1, indexOf(in))
	}
	if kills(st.Block(), indexOf(st)+1, len(st.Block().Instrs)) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, st.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == in.Block() {
			if !kills(b, 0, indexOf(in)) {
				return true
			}
			continue
		}
		if kills(b, 0, len(b.Instrs)) {
			continue
		}
		work = append(work, b.Succs...)
	}
	return false
}

// lows: the bounds v may be, as a value plus a constant, with the places where it was assigned.
func lows(p *Prog, v ssa.Value, at place, off int64, chain []place, seen map[ssa.Value]bool, emit func(ssa.Value, []place, int64)) {
	if seen[v] {
		return
	}
	seen[v] = true
	chain = append(append([]place{}, chain...), at)
	for _, u := range refs(v) {
		if ia, ok := u.(*ssa.IndexAddr); ok && ia.Index == v {
			emit(v, chain, off)
			return
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			lows(p, e, place{last(x.Block().Preds[i]), x.Block()}, off, chain, seen, emit)
		}
		return
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, st := range storesTo(a) {
				lows(p, st.Val, place{in: st}, off, chain, seen, emit)
			}
			return
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && (x.Op == token.ADD || x.Op == token.SUB) {
			d := k.Int64()
			if x.Op == token.SUB {
				d = -d
			}
			lows(p, x.X, at, off+d, chain, seen, emit)
			return
		}
		if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && x.Op == token.ADD {
			lows(p, x.Y, at, off+k.Int64(), chain, seen, emit)
			return
		}
	}
	emit(v, chain, off)
}

func refs(v ssa.Value) []ssa.Instruction {
	if v.Referrers() == nil {
		return nil
	}
	return *v.Referrers()
}

// freshStore: in changes an object made by the same function.
func freshStore(in ssa.Instruction) bool {
	if st, ok := in.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			return freshBase(fa.X)
		}
	}
	return false
}

// inCycle: b may run again.
func inCycle(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b || reachesWithout(s, b, nil) {
			return true
		}
	}
	return false
}

// loopsTo: after the assignment the loop it is in may go on.
func loopsTo(pl place) bool {
	if pl.to == nil {
		return true
	}
	return pl.to == pl.in.Block() || reachesWithout(pl.to, pl.in.Block(), nil)
}
