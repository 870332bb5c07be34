package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	txnPath   = `unsigned.transaction_id`
	nAnnotate = "sync3/caches.(*UserCache).AnnotateWithTransactionIDs"
	nTxnFetch = "sync3/caches.(TransactionIDFetcher).TransactionIDForEvents"
	nTxns     = "state.(*TransactionsTable)."
)

// jsonExists: v says whether the JSON value at path exists.
func (p *Prog) jsonExists(v ssa.Value, path string) bool {
	any := false
	for _, s := range p.sources(v) {
		cl, ok := s.(*ssa.Call)
		if !ok || !strings.HasSuffix(callName(&cl.Call), "Result).Exists") {
			return false
		}
		if !p.constArgs(cl.Call.Args[0])[`"`+path+`"`] {
			return false
		}
		any = true
	}
	return any
}

func isRawSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && typeName(sl.Elem()) == "encoding/json.RawMessage"
}

// sjsonCall: a call of sjson with that constant path.
func sjsonCall(in ssa.Instruction, fn, path string) *ssa.Call {
	cl, ok := in.(*ssa.Call)
	if !ok || !strings.HasPrefix(callName(&cl.Call), "github.com/tidwall/sjson."+fn) || len(cl.Call.Args) < 2 {
		return nil
	}
	if k, ok := strConst(cl.Call.Args[1]); !ok || k != path {
		return nil
	}
	return cl
}

// loopAround: the innermost loop around the instruction, in the function or else around its call.
func loopAround(in ssa.Instruction, e *Env) (*ssa.BasicBlock, *Env) {
	for e != nil {
		if h := innermost(in.Block()); h != nil {
			return h, e
		}
		if e.site == nil {
			return nil, nil
		}
		in, e = e.site, e.up
	}
	return nil, nil
}

// completely: the loop and those around it go through everything.
func (r *Report) completely(c *chooser, rule, what string, h *ssa.BasicBlock, e *Env) {
	for n := 0; h != nil && n < 5; n++ {
		if wholeLoop(h) == nil || breaks(h) != nil {
			r.Bad(rule, what, r.at(last(h)), "the loop may end before everything was looked at")
			return
		}
		g := innermostOf(h)
		if g == nil {
			if e.site == nil || e.up == nil {
				return
			}
			in := e.site
			e = e.up
			h = innermost(in.Block())
			continue
		}
		hh := h
		if c.skips(g, e, func(in ssa.Instruction) bool { return in.Block() == hh }, nil) {
			r.Bad(rule, what, r.at(last(g)), "some of what is to be looked at may be skipped")
			return
		}
		h = g
	}
}

func init() {
	reg("P14", "every event of a timeline loses the transaction ID it was stored with, and gets the one of the device which asks", func(r *Report) {
		const rule = "annotated"
		p := r.P
		root := r.Fn(nAnnotate)
		if root == nil {
			return
		}
		c := p.chooser()
		fromSjson := func(v ssa.Value, fn string) bool {
			for _, s := range append(p.sources(v), v) {
				if ex, ok := s.(*ssa.Extract); ok {
					if cl, ok := ex.Tuple.(*ssa.Call); ok && sjsonCall(cl, fn, txnPath) != nil {
						return true
					}
				}
			}
			return false
		}
		puts := func(fn string) func(in ssa.Instruction) bool {
			return func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					return ok && isRawSlice(ia.X.Type()) && fromSjson(x.Val, fn)
				case *ssa.Call:
					if callName(&x.Call) == "builtin.append" && isRawSlice(x.Type()) {
						for _, el := range appendElems(x) {
							if fromSjson(el, fn) {
								return true
							}
						}
					}
				}
				return false
			}
		}
		failed := func(cd Cond) bool {
			b, ok := cd.V.(*ssa.BinOp)
			return ok && (isErr(b.X) && isNilConst(b.Y) || isErr(b.Y) && isNilConst(b.X)) && cd.Pol == (b.Op == token.NEQ)
		}
		isUser := func(v ssa.Value, e *Env) bool {
			pa := c.Path(v, e)
			return pa == "$2" || pa == "$0.UserID"
		}
		nDel, nAsk, nSet := 0, 0, 0
		for _, e := range p.closureEnvs(root) {
			e := e
			fnInstrs(e.fn, func(in ssa.Instruction) {
				if sjsonCall(in, "Delete", txnPath) != nil {
					h, he := loopAround(in, e)
					if h == nil {
						return
					}
					nDel++
					r.Ob(rule, "stripped")
					r.Touch(e.fn)
					if c.skipsAny(h, he, puts("Delete"), anyCond(failed, func(cd Cond) bool { return !cd.Pol && p.jsonExists(cd.V, txnPath) })) {
						r.Bad(rule, "AnnotateWithTransactionIDs strip", r.at(in), "an event may keep the transaction ID which it was stored with")
					}
					r.completely(c, rule, "AnnotateWithTransactionIDs strip", h, he)
					return
				}
				cl := asCall(in)
				if cl == nil {
					return
				}
				if callName(cl) == nTxnFetch {
					nAsk++
					r.Ob(rule, "asked for this device")
					if !isUser(cl.Args[0], e) || c.Path(cl.Args[1], e) != "$3" {
						r.Bad(rule, "AnnotateWithTransactionIDs device", r.at(in), "the transaction IDs asked for are not those of the device which asks")
					}
					// the events asked about
					for _, x := range p.closureEnvs(root) {
						x := x
						fnInstrs(x.fn, func(ap ssa.Instruction) {
							a, ok := ap.(*ssa.Call)
							if !ok || callName(&a.Call) != "builtin.append" || !isStringSlice(a.Type()) {
								return
							}
							h, he := loopAround(ap, x)
							if h == nil {
								return
							}
							r.Ob(rule, "own events asked about")
							nSet++
							if c.skips(h, he, func(in ssa.Instruction) bool { return in == ap || in == outerSite(x, he) }, func(cd Cond) bool {
								b, ok := cd.V.(*ssa.BinOp)
								return ok && cd.Pol == (b.Op == token.NEQ) && (isUser(b.X, cd.E) || isUser(b.Y, cd.E))
							}) {
								r.Bad(rule, "AnnotateWithTransactionIDs own", r.at(ap), "an event sent by the user may not be looked up")
							}
							r.completely(c, rule, "AnnotateWithTransactionIDs own", h, he)
						})
					}
				}
				if s := sjsonCall(in, "Set", txnPath); s != nil {
					h, he := loopAround(in, e)
					if h == nil {
						return
					}
					r.Ob(rule, "IDs put in")
					if c.skipsAny(h, he, puts("Set"), anyCond(failed, func(cd Cond) bool {
						ex, ok := cd.V.(*ssa.Extract)
						if !ok || cd.Pol || ex.Index != 1 {
							return false
						}
						_, ok = ex.Tuple.(*ssa.Lookup)
						return ok
					})) {
						r.Bad(rule, "AnnotateWithTransactionIDs put", r.at(in), "an event may not get its transaction ID")
					}
					r.completely(c, rule, "AnnotateWithTransactionIDs put", h, he)
				}
			})
		}
		if nDel == 0 {
			r.Bad(rule, "AnnotateWithTransactionIDs strip", p.Pos(root.Pos()), "the transaction IDs which events were stored with are not removed")
		}
		if nAsk == 0 || nSet == 0 {
			r.Bad("anchor", rule, p.Pos(root.Pos()), "the transaction IDs are not looked up")
		}
		// nobody else puts transaction IDs into events
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			s := sjsonCall(in, "Set", txnPath)
			if s == nil || isTestFn(p, fn) {
				return
			}
			r.Ob(rule, "set at "+r.at(in))
			ok := false
			for _, o := range append(p.deepSources(s.Call.Args[2]), p.origins(s.Call.Args[2])...) {
				switch x := o.(type) {
				case *ssa.Call:
					ok = ok || callName(&x.Call) == nTxnFetch || strings.HasSuffix(callName(&x.Call), ").TransactionIDForEvents")
				case *ssa.Extract:
					if nx, isN := x.Tuple.(*ssa.Next); isN {
						if rg, isR := nx.Iter.(*ssa.Range); isR {
							for _, q := range append(p.sources(rg.X), rg.X) {
								ok = ok || isResultOf(q, nTxnFetch)
							}
						}
					}
				}
			}
			if !ok {
				for _, e := range p.closureEnvs(outer(fn)) {
					if e.fn == fn {
						ok = ok || strings.Contains(c.Path(s.Call.Args[2], e), "TransactionIDForEvents(")
					}
				}
			}
			if !ok {
				r.Bad(rule, "set in "+shortName(outer(fn)), r.at(in), "the transaction ID put into an event is not one looked up for the device")
			}
		})
		r.Floor(rule, 5)
	})
	reg("P14", "every timeline of a response has been through that", func(r *Report) {
		const rule = "timelines-annotated"
		p := r.P
		c := p.chooser()
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if cl := asCall(in); cl != nil && callName(cl) == nAnnotate {
				r.Ob(rule, "identity at "+r.at(in))
				r.Touch(fn)
				for i, f := range []string{"userID", "deviceID"} {
					ok := false
					for _, s := range append(p.origins(cl.Args[2+i]), p.sources(cl.Args[2+i])...) {
						ok = ok || isLoadOf(s, "sync3/handler.ConnState", f)
					}
					if !ok {
						r.Bad(rule, "identity in "+shortName(outer(fn)), r.at(in), "transaction IDs are looked up for somebody other than the connection's "+f)
					}
				}
				return
			}
			if !fieldStore("sync3.Room", "Timeline")(in) || relPkg(pkgPath(fn)) == "sync3" {
				return
			}
			st := in.(*ssa.Store)
			r.Ob(rule, "timeline at "+r.at(in))
			r.Touch(fn)
			if bad := p14Clean(p, c, st.Val, fn, map[ssa.Value]bool{}); bad != "" {
				r.Bad(rule, "timeline in "+shortName(outer(fn)), r.at(in), "a timeline may contain events with other devices' transaction IDs: "+bad)
			}
		})
		r.Floor(rule, 4)
	})
	reg("P14", "transaction IDs are remembered for the device which saw them, before its event is announced", func(r *Report) {
		const rule = "remembered"
		p := r.P
		p.withOpaque(append(p.pkgFuncs("sync2"), p.pkgFuncs("state")...), func() {
			c := p.chooser()
			none := func(cd Cond) bool { return !cd.Pol && p.jsonExists(cd.V, txnPath) }
			var f *fwd
			want := func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				return cl != nil && callName(cl) == nTxns+"Insert" && callArg(c, in, e, 0) == "$2" && callArg(c, in, e, 1) == "$3" && f.covers(cl.Args[3], e)
			}
			f = p.fwd(c, isPath("$5.Events"), none, want)
			root := r.Fn("sync2/handler2.(*Handler).Accumulate")
			if root == nil {
				return
			}
			e := &Env{fn: root}
			r.Ob(rule, "stored")
			if bad := f.must(e); bad != nil {
				r.Bad(rule, "Accumulate stored", r.at(bad), "a transaction ID may not be stored for the device")
			}
			r.Ob(rule, "before the event is announced")
			if bad := f.before(e, func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				return cl != nil && callName(cl) == "state.(*Storage).Accumulate"
			}); bad != nil {
				r.Bad(rule, "Accumulate order", r.at(bad), "an event may be announced before its transaction ID is stored")
			}
			// the waiting connections are told
			r.Ob(rule, "released")
			n := 0
			for _, e := range p.closureEnvs(root) {
				e := e
				fnInstrs(e.fn, func(in ssa.Instruction) {
					cl := asCall(in)
					if cl == nil || callName(cl) != notify || staticPayload(in) != "pubsub.V2TransactionID" {
						return
					}
					h, he := loopAround(in, e)
					if h == nil {
						return
					}
					n++
					g := p.fwd(c, nil, func(cd Cond) bool {
						return !cd.Pol && strings.HasPrefix(c.Path(cd.V, cd.E), "sync2.(*PendingTransactionIDs).MissingTxnID(")
					}, func(in ssa.Instruction, e *Env) bool {
						cl := asCall(in)
						return cl != nil && callName(cl) == notify && staticPayload(in) == "pubsub.V2TransactionID"
					})
					if c.skips(h, he, func(in ssa.Instruction) bool { return g.leads(in, he) }, g.g) || breaks(h) != nil {
						r.Bad(rule, "Accumulate released", r.at(in), "the connections waiting for a transaction ID may not be told that it is there, or will never be")
					}
				})
			}
			if n == 0 {
				r.Bad(rule, "Accumulate released", p.Pos(root.Pos()), "the connections waiting for a transaction ID are not told about it")
			}
		})
		// the row
		p.withOpaque(names{}, func() {
			c := p.chooser()
			root := r.Fn(nTxns + "Insert")
			if root == nil {
				return
			}
			for _, e := range p.closureEnvs(root) {
				e := e
				fnInstrs(e.fn, func(in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					for f, want := range map[string]string{"UserID": "$1", "DeviceID": "$2"} {
						if isFieldAddr(st.Addr, "state.txnRow", f) {
							r.Ob(rule, "row "+f)
							if pa := c.Path(st.Val, e); pa != want {
								r.Bad(rule, "Insert "+f, r.at(in), "a transaction ID is stored for another "+f)
							}
						}
					}
				})
			}
			sel := r.Fn("sync3/handler.(*SyncLiveHandler).TransactionIDForEvents")
			if sel == nil {
				return
			}
			p.withOpaque(p.pkgFuncs("state"), func() {
				c := p.chooser()
				r.forwards(c, rule, "sync3/handler.(*SyncLiveHandler).TransactionIDForEvents", "looked up", "transaction IDs are not looked up for the device and events asked about", nil, nil, callTo(c, nTxns+"Select", "", "$1", "$2", "$3"))
			})
		})
		r.Floor(rule, 6)
	})
	reg("P14", "the user's own events wait until their transaction ID is known", func(r *Report) {
		const rule = "waits"
		p := r.P
		root := r.Fn(nTW + "Ingest")
		if root == nil {
			return
		}
		c := p.chooser()
		never := func(cd Cond) bool {
			if ex, ok := cd.V.(*ssa.Extract); ok && !cd.Pol && ex.Index == 1 {
				if _, ok := ex.Tuple.(*ssa.TypeAssert); ok {
					return true
				}
			}
			b, ok := cd.V.(*ssa.BinOp)
			if !ok {
				return false
			}
			if isLoadOf(b.X, "sync3/handler.TxnIDWaiter", "maxDelay") && isIntConst(b.Y, 0) {
				return b.Op == token.LEQ && cd.Pol || b.Op == token.GTR && !cd.Pol || b.Op == token.EQL && cd.Pol || b.Op == token.NEQ && !cd.Pol || b.Op == token.LSS && cd.Pol
			}
			return false
		}
		known := func(cd Cond) bool {
			b, ok := cd.V.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return false
			}
			eq := cd.Pol == (b.Op == token.EQL)
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				x := pr[0]
				part := func(f string) bool {
					for _, s := range append(p.sources(x), x) {
						if isLoadOf(s, "sync3/caches.EventData", f) {
							return true
						}
					}
					return false
				}
				if !eq && (isNilConst(pr[1]) && part("StateKey") || part("Sender")) {
					return true
				}
				if k, ok := strConst(pr[1]); ok && k == "" && !eq && part("TransactionID") {
					return true
				}
			}
			return false
		}
		idle := func(cd Cond) bool {
			if ex, ok := cd.V.(*ssa.Extract); ok && !cd.Pol && ex.Index == 1 {
				if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
					return strings.HasSuffix(c.Path(lk.X, cd.E), ".queues")
				}
			}
			return c.emptyOf(cd, func(v ssa.Value, e *Env) bool { return strings.Contains(c.Path(v, e), ".queues[") })
		}
		n := 0
		for _, e := range p.closureEnvs(root) {
			e := e
			if e.fn != root && outer(e.fn) == root {
				continue // the timer
			}
			fnInstrs(e.fn, func(in ssa.Instruction) {
				cl := asCall(in)
				if cl == nil || cl.IsInvoke() || cl.StaticCallee() != nil || !isLoadOf(cl.Value, "sync3/handler.TxnIDWaiter", "publish") {
					return
				}
				if shortName(e.fn) == nTW+"PublishUpToNID" {
					return
				}
				n++
				r.Ob(rule, "passed on at "+r.at(in))
				if !c.knownAt(in, e, anyCond(never, known)) {
					r.Bad(rule, "Ingest missing", r.at(in), "an event of the user without transaction ID may be passed on at once")
				}
				if !c.knownAt(in, e, anyCond(never, idle)) {
					r.Bad(rule, "Ingest overtakes", r.at(in), "an event may overtake those of its room which are waiting")
				}
			})
		}
		// all devices are known not to have one
		miss := r.Fn("sync2.(*PendingTransactionIDs).MissingTxnID")
		if miss != nil {
			r.Ob(rule, "given up")
			me := &Env{fn: miss}
			fnInstrs(miss, func(in ssa.Instruction) {
				ret, ok := in.(*ssa.Return)
				if !ok || len(ret.Results) == 0 {
					return
				}
				v := ret.Results[0]
				if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL {
					if al, isA := u.X.(*ssa.Alloc); isA {
						for i := indexOf(in) - 1; i >= 0; i-- {
							if st, ok := in.Block().Instrs[i].(*ssa.Store); ok && st.Addr == ssa.Value(al) {
								v = st.Val
								break
							}
						}
					}
				}
				empty := func(cd Cond) bool {
					return c.emptyOf(cd, func(v ssa.Value, e *Env) bool { return isStringSlice(v.Type()) })
				}
				if k, isK := boolConst(v); isK && !k {
					return
				}
				k := c.guard(empty, me)
				if !k.implies(v, true, nil, 0) && !k.at(in, nil, 0) {
					r.Bad(rule, "MissingTxnID", r.at(in), "an event is released although another device may still see its transaction ID")
				}
			})
		}
		r.Floor(rule, 4)
		_ = n
	})
}

func isStringSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.String])
}

// outerSite: the call in the frame of he through which e was entered.
func outerSite(e, he *Env) ssa.Instruction {
	for e != nil && e.up != he {
		e = e.up
	}
	if e == nil {
		return nil
	}
	return e.site
}

func isTestFn(p *Prog, fn *ssa.Function) bool {
	return strings.HasSuffix(strings.Split(p.Pos(fn.Pos()), ":")[0], "_test.go")
}

// p14Clean: the events in v come out of AnnotateWithTransactionIDs, or were in the timeline before; else why not.
func p14Clean(p *Prog, c *chooser, v ssa.Value, fn *ssa.Function, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if w := p14Clean(p, c, ed, fn, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.ChangeType:
		return p14Clean(p, c, x.X, fn, seen)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							if w := p14Clean(p, c, st.Val, fn, seen); w != "" {
								return w
							}
						}
					}
				}
			}
			return ""
		}
		return p14Clean(p, c, x.X, fn, seen)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return p14Clean(p, c, t.X, fn, seen)
		case *ssa.Next:
			return p14Clean(p, c, t.Iter.(*ssa.Range).X, fn, seen)
		case *ssa.Call:
			return p14Call(p, c, t, x.Index, fn, seen)
		}
	case *ssa.Lookup:
		return p14Clean(p, c, x.X, fn, seen)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return p14Clean(p, c, ia.X, fn, seen)
		}
		if isLoadOf(x, "sync3.Room", "Timeline") {
			return ""
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, st := range storesTo(al) {
				if w := p14Clean(p, c, st.Val, fn, seen); w != "" {
					return w
				}
			}
			return ""
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			for _, s := range p.sources(fv) {
				if al, ok := s.(*ssa.Alloc); ok {
					for _, st := range storesTo(al) {
						if w := p14Clean(p, c, st.Val, fn, seen); w != "" {
							return w
						}
					}
				}
			}
			return ""
		}
	case *ssa.Parameter:
		sites := p.sitesOf(x.Parent())
		for _, s := range sites {
			cl := asCall(s)
			if i := paramIndex(x); cl != nil && !cl.IsInvoke() && i < len(cl.Args) {
				if w := p14Clean(p, c, cl.Args[i], s.Parent(), seen); w != "" {
					return w
				}
			}
		}
		if len(sites) > 0 {
			return ""
		}
	case *ssa.Call:
		return p14Call(p, c, x, 0, fn, seen)
	}
	return describeValue(v)
}

func p14Call(p *Prog, c *chooser, x *ssa.Call, idx int, fn *ssa.Function, seen map[ssa.Value]bool) string {
	n := callName(&x.Call)
	if n == nAnnotate {
		return ""
	}
	if n == "builtin.append" {
		for _, a := range x.Call.Args {
			if w := p14Clean(p, c, a, fn, seen); w != "" {
				return w
			}
		}
		return ""
	}
	if f := x.Call.StaticCallee(); f != nil && inModule(f) && len(f.Blocks) > 0 {
		w := ""
		fnInstrs(f, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok && idx < len(ret.Results) && w == "" {
				w = p14Clean(p, c, ret.Results[idx], f, seen)
			}
		})
		return w
	}
	return n
}

func describeValue(v ssa.Value) string {
	if v.Name() != "" {
		return v.String()
	}
	return v.Type().String()
}

// skipsAny: like skips, where the instruction may also be in a helper which always passes it (or finds the condition
// true).
func (c *chooser) skipsAny(h *ssa.BasicBlock, e *Env, done func(ssa.Instruction) bool, g CondGuard) bool {
	f := c.p.fwd(c, nil, g, func(in ssa.Instruction, _ *Env) bool { return done(in) })
	return c.skips(h, e, func(in ssa.Instruction) bool { return f.leads(in, e) }, f.g)
}
