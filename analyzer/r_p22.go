package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nSLH      = "sync3/handler.(*SyncLiveHandler)."
	nUC       = "sync3/caches.(*UserCache)."
	nDisp     = "sync3.(*Dispatcher)."
	nConnMap  = "sync3.(*ConnMap)."
	nSyncLoad = "sync.(*Map).Load($0.userCaches,"
)

// asserts: the condition tells whether the value has the named type.
func asserts(cd Cond) (typ string, ok bool) {
	ex, isE := cd.V.(*ssa.Extract)
	if !isE || ex.Index != 1 {
		return "", false
	}
	ta, isT := ex.Tuple.(*ssa.TypeAssert)
	if !isT {
		return "", false
	}
	return typeName(ta.AssertedType), true
}

func init() {
	reg("P22", "each notification from the pollers is handed to the function which handles its type, and none is dropped between notifier and listener", func(r *Report) {
		const rule = "pubsub"
		p := r.P
		c := p.chooser()
		pl := p.namedType(r, "pubsub.Payload")
		if pl == nil {
			return
		}
		iface, _ := pl.Underlying().(*types.Interface)
		pkg := pl.(*types.Named).Obj().Pkg()
		subs := []struct{ sub, lst, prefix, ch string }{
			{"pubsub.(*V2Sub)", "V2Listener", "V2", "v2ch"},
			{"pubsub.(*V3Sub)", "V3Listener", "V3", "v3ch"},
		}
		for _, s := range subs {
			handlers := map[string]string{}
			for _, m := range p.ifaceMethods("pubsub", s.lst) {
				ps := m.Type().(*types.Signature).Params()
				if ps.Len() == 1 {
					handlers[typeName(ps.At(0).Type())] = m.Name()
				}
			}
			for _, nm := range pkg.Scope().Names() {
				tn, ok := pkg.Scope().Lookup(nm).(*types.TypeName)
				if !ok || !strings.HasPrefix(nm, s.prefix) || !types.Implements(types.NewPointer(tn.Type()), iface) {
					continue
				}
				t := "pubsub." + nm
				if handlers[t] == "" {
					r.Bad(rule, t, p.Pos(tn.Pos()), "no method of "+s.lst+" takes this notification")
					continue
				}
				r.forwards(c, rule, s.sub+".onMessage", t, "a notification of type "+nm+" may not be handed on", nil, func(cd Cond) bool {
					as, ok := asserts(cd)
					return ok && (as == t) != cd.Pol
				}, func(in ssa.Instruction, e *Env) bool {
					cl := asCall(in)
					return cl != nil && callName(cl) == "pubsub.("+s.lst+")."+handlers[t] && callArg(c, in, e, 0) == "$1" && typeName(stripIface(cl.Args[0]).Type()) == t
				})
			}
			r.forwards(c, rule, s.sub+".Listen", s.ch, "the listener does not listen to its channel", nil, nil, func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				return cl != nil && callName(cl) == "pubsub.(Listener).Listen" && callArg(c, in, e, 0) == `"`+s.ch+`"`
			})
		}
		// what is sent where
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			cl := asCall(in)
			if cl == nil || callName(cl) != "pubsub.(Notifier).Notify" || relPkg(pkgPath(fn)) == "pubsub" {
				return
			}
			r.Ob(rule, siteName(in))
			r.Touch(fn)
			for _, v := range p.deepSources(cl.Args[1]) {
				t := typeName(v.Type())
				for _, s := range subs {
					if !strings.HasPrefix(t, "pubsub."+s.prefix) {
						continue
					}
					for _, k := range p.deepSources(cl.Args[0]) {
						if str, ok := strConst(k); ok && str != s.ch {
							r.Bad(rule, siteName(in), r.at(in), t+" is sent to the channel "+str+", to which nobody who handles it listens")
						}
					}
				}
			}
		})
		// in memory
		if fn := r.Fn("pubsub.(*PubSub).Listen"); fn != nil {
			r.received(c, rule, fn, "pubsub.Payload", "a notification which was taken from the channel may not be handed to the listener", func(in ssa.Instruction, e *Env) bool {
				cl := asCall(in)
				return cl != nil && !cl.IsInvoke() && c.Path(cl.Value, e) == "$2"
			}, func(cd Cond) bool {
				b, ok := cd.V.(*ssa.BinOp)
				return ok && (isEmptyType(c, b.X, cd.E) || isEmptyType(c, b.Y, cd.E)) && cd.Pol == (b.Op.String() == "==")
			})
		}
		r.forwards(c, rule, "pubsub.(*PubSub).Notify", "sent", "success may be reported although the notification was not sent", nil, nil, func(in ssa.Instruction, e *Env) bool {
			switch x := in.(type) {
			case *ssa.Send:
				return c.Path(x.X, e) == "$2"
			case *ssa.Select:
				if i := sends(c, x, e, "$2"); i >= 0 {
					f := p.fwd(c, nil, func(cd Cond) bool { return selected(x, i)(Cond{cd.V, !cd.Pol, cd.E}) }, func(in ssa.Instruction, _ *Env) bool {
						ret, ok := in.(*ssa.Return)
						return ok && len(ret.Results) == 1 && !isNilConst(ret.Results[0])
					})
					return f.after(x, e) == nil
				}
			}
			return false
		})
		r.forwards(c, rule, "pubsub.(*PromNotifier).Notify", "sent", "the notification is not passed on", nil, nil, callTo(c, "pubsub.(Notifier).Notify", "$0.Notifier", "$1", "$2"))
		r.Floor(rule, 25)
	})
}

func isEmptyType(c *chooser, v ssa.Value, e *Env) bool {
	s, ok := strConst(v)
	return ok && s == "empty"
}

// received: everything of the type which fn takes from a channel is handed on before it takes more or returns.
func (r *Report) received(c *chooser, rule string, fn *ssa.Function, typ, miss string, want func(in ssa.Instruction, e *Env) bool, g CondGuard) int {
	p := r.P
	n := 0
	elemIs := func(ch ssa.Value) bool {
		t, ok := ch.Type().Underlying().(*types.Chan)
		return ok && typeName(t.Elem()) == typ
	}
	takes := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.UnOp:
			return x.Op == token.ARROW && elemIs(x.X)
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && elemIs(s.Chan) {
					return true
				}
			}
		}
		return false
	}
	for _, e := range p.contexts(fn) {
		e := e
		check := func(in ssa.Instruction, v ssa.Value, more CondGuard) {
			n++
			r.Ob(rule, siteName(in))
			r.Touch(e.fn)
			has := func(x ssa.Value) bool {
				if x == v {
					return true
				}
				for _, s := range p.sources(x) {
					if s == v {
						return true
					}
				}
				return false
			}
			f := p.fwd(c, nil, anyCond(g, more), func(in2 ssa.Instruction, e2 *Env) bool {
				if ret, ok := in2.(*ssa.Return); ok && e2 == e && e.up != nil {
					for _, x := range ret.Results {
						if has(x) {
							return true // its caller has it
						}
					}
				}
				if !want(in2, e2) {
					return false
				}
				if e2 != e {
					return true
				}
				for _, a := range asCall(in2).Args {
					if has(a) {
						return true
					}
				}
				return false
			})
			k := c.guard(f.g, e)
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, i int)
			walk = func(b *ssa.BasicBlock, i int) {
				for _, x := range b.Instrs[i:] {
					if f.leads(x, e) {
						return
					}
					if _, isR := x.(*ssa.Return); isR || takes(x) {
						r.Bad(rule, siteName(in), r.at(x), miss)
						return
					}
				}
				for _, s := range b.Succs {
					if !seen[s] && !k.cuts(b, s, nil, 0) {
						seen[s] = true
						walk(s, 0)
					}
				}
			}
			for i, x := range in.Block().Instrs {
				if x == in {
					walk(in.Block(), i+1)
				}
			}
		}
		fnInstrs(e.fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if !takes(in) {
					return
				}
				if !x.CommaOk {
					check(in, x, nil)
					return
				}
				var v ssa.Value = x
				for _, u := range refs(x) {
					if ex, ok := u.(*ssa.Extract); ok && ex.Index == 0 {
						v = ex
					}
				}
				check(in, v, func(cd Cond) bool {
					ex, ok := cd.V.(*ssa.Extract)
					return ok && ex.Tuple == ssa.Value(x) && ex.Index == 1 && !cd.Pol
				})
			case *ssa.Select:
				at := 2
				for i, s := range x.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					at++
					if !elemIs(s.Chan) {
						continue
					}
					i, at := i, at-1
					var v ssa.Value = x
					for _, u := range refs(x) {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == at {
							v = ex
						}
					}
					check(in, v, selected(x, i))
				}
			}
		})
	}
	return n
}

// selected: the condition is that another case than the i-th was selected.
func selected(x *ssa.Select, i int) CondGuard {
	return func(cd Cond) bool {
		b, ok := cd.V.(*ssa.BinOp)
		if !ok || b.Op != token.EQL {
			return false
		}
		ex, ok := b.X.(*ssa.Extract)
		if !ok || ex.Tuple != ssa.Value(x) || ex.Index != 0 {
			return false
		}
		return isIntConst(b.Y, int64(i)) != cd.Pol
	}
}

// sends: which case of the select sends what has this path, or -1.
func sends(c *chooser, x *ssa.Select, e *Env, path string) int {
	for i, s := range x.States {
		if s.Dir == types.SendOnly && c.Path(s.Send, e) == path {
			return i
		}
	}
	return -1
}
