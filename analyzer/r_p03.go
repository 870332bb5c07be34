package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedCallbacks touch data shared between devices and must be serialised.
var sharedCallbacks = []string{"Accumulate", "Initialise", "SetTyping", "OnInvite", "OnLeftRoom", "UpdateUnreadCounts", "OnAccountData", "OnReceipt"}

func sentOn(x *Explorer, s *State, field string) bool {
	for c := s.ctx; c != nil; c = c.parent {
		if snd, ok := c.site.(*ssa.Send); ok && c.parent != nil {
			if t := x.Term(s, mkCV(c.parent, snd.Chan)); t.Op == "field" && t.Name == field {
				return true
			}
		}
	}
	return false
}

func init() {
	reg("P03", "callbacks for data shared between devices run only as work items of the single executor", func(r *Report) {
		const rule = "executor-only"
		for _, m := range sharedCallbacks {
			root := r.Fn("sync2.(*PollerMap)." + m)
			nm := recvIface + m
			r.Path(PathRule{Rule: rule, Root: root, Calls: []string{nm}, On: func(e Ev) Action {
				r.Ob(rule, shortName(root)+" at "+r.at(e.In))
				if !sentOn(e.X, e.S, "executor") {
					r.Bad(rule, shortName(root), r.at(e.In), "storage is called from the poller's own goroutine, concurrently with other pollers", e.S.Trace()...)
				}
				return Go
			}})
		}
		r.Floor(rule, len(sharedCallbacks))
		// nobody else reaches the unserialised receiver
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			c := asCall(in)
			if c == nil || !c.IsInvoke() {
				return
			}
			n := callName(c)
			if !strings.HasPrefix(n, recvIface) {
				return
			}
			t := r.P.StaticTerm(fn, c.Value)
			if t.Op != "field" && t.Op != "var" {
				return
			}
			o := outer(fn)
			rn := ""
			if rv := o.Signature.Recv(); rv != nil {
				rn = typeName(rv.Type())
			}
			if rn != "sync2.PollerMap" && rn != "sync2.poller" && !strings.HasSuffix(shortName(o), "NewPollerMap") && relPkg(fnPkg(o).Path()) == "sync2" {
				if t.Op == "field" && t.Name == "callbacks" {
					r.Bad(rule, shortName(fn), r.at(in), "the unserialised receiver is called outside the serialising layer")
				}
			}
			if rn == "sync2.poller" && !(t.Op == "field" && t.Name == "receiver") {
				r.Bad(rule, shortName(fn), r.at(in), "a poller calls "+t.String()+" instead of the serialising layer")
			}
		})
		np := 0
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if calls(in, names{"sync2.newPoller"}) {
				np++
				c := asCall(in)
				v := c.Args[3]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if typeName(v.Type()) != "sync2.PollerMap" {
					r.Bad(rule, "sync2.newPoller receiver", r.at(in), "a poller is given a receiver which does not serialise callbacks")
				}
			}
			if st, ok := in.(*ssa.Store); ok && isFieldAddr(st.Addr, "sync2.poller", "receiver") && shortName(outer(fn)) != "sync2.newPoller" {
				r.Bad(rule, "sync2.poller.receiver", r.at(in), "a poller's receiver is replaced")
			}
		})
		r.Ob(rule, "newPoller")
		if np == 0 {
			r.Bad("instances", rule, "-", "no poller is ever created")
		}
	})
	reg("P03", "there is exactly one executor: started once, under the lock, running items one after the other", func(r *Report) {
		const rule = "single-executor"
		// every receive from the executor channel
		recvFns := map[*ssa.Function]bool{}
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op.String() != "<-" {
				return
			}
			if t := r.P.StaticTerm(fn, u.X); t.Op == "field" && t.Name == "executor" {
				recvFns[fn] = true
				r.Ob(rule, "receive in "+shortName(fn))
			}
		})
		if len(recvFns) != 1 {
			r.Bad(rule, "executor consumers", "-", "the executor channel must have exactly one consumer")
		}
		for fn := range recvFns {
			dyn := 0
			fnInstrs(fn, func(in ssa.Instruction) {
				switch i := in.(type) {
				case *ssa.Go:
					r.Bad(rule, shortName(fn), r.at(in), "the executor starts work items concurrently")
				case *ssa.Call:
					if i.Call.StaticCallee() == nil && !i.Call.IsInvoke() {
						if _, b := i.Call.Value.(*ssa.Builtin); !b {
							dyn++
						}
					}
				}
			})
			if dyn != 1 {
				r.Bad(rule, shortName(fn), r.P.Pos(fn.Pos()), "the executor does not run each work item exactly once")
			}
			// where it is started
			starts := 0
			r.P.instrs(func(g *ssa.Function, in ssa.Instruction) {
				if c := asCall(in); c != nil && c.StaticCallee() == fn {
					if _, isGo := in.(*ssa.Go); !isGo {
						if g.Parent() == nil {
							r.Bad(rule, shortName(g), r.at(in), "the executor loop is run outside its own goroutine")
						}
					}
					starts++
					for _, root := range r.P.callingRoots(outer(g), 0) {
						root := root
						const held, notRunning, marked = 1, 2, 4
						r.Path(PathRule{Rule: rule, Root: root, Calls: []string{"sync.(*Mutex).Lock", "sync.(*Mutex).Unlock", "sync.(*Once).Do"},
							Inst: orPred(fieldStore("sync2.PollerMap", "executorRunning"), func(i2 ssa.Instruction) bool { return i2 == in }),
							On: func(e Ev) Action {
								switch {
								case e.In == in:
									if e.S.Bits&held == 0 || e.S.Bits&notRunning == 0 {
										r.Bad(rule, shortName(root)+" start", r.at(in), "a second executor can be started", e.S.Trace()...)
									}
									e.S.Bits |= 8
								case strings.HasSuffix(e.Name, "Lock") && e.recv().HasField("pollerMu"):
									if strings.HasSuffix(e.Name, ").Lock") {
										e.S.Bits |= held
									} else {
										if e.S.Bits&8 != 0 && e.S.Bits&marked == 0 {
											r.Bad(rule, shortName(root)+" mark", r.at(e.In), "the executor is started without being marked as running", e.S.Trace()...)
										}
										e.S.Bits &^= held
									}
								case fieldStore("sync2.PollerMap", "executorRunning")(e.In):
									if st := e.In.(*ssa.Store); e.X.Term(e.S, mkCV(e.S.ctx, st.Val)).IsConst("true") {
										e.S.Bits |= marked
									} else {
										r.Bad(rule, shortName(root)+" unmark", r.at(e.In), "a running executor is marked as not running")
									}
								}
								return Go
							},
							Lit: func(x *Explorer, s *State, l Lit) {
								if l.Atom.HasField("executorRunning") {
									if !l.Pol {
										s.Bits |= notRunning
									} else {
										s.Bits &^= notRunning
									}
								}
							}})
					}
				}
			})
			if starts != 1 {
				r.Bad(rule, shortName(fn)+" starts", r.P.Pos(fn.Pos()), "the executor must be started at exactly one place")
			}
		}
		r.Floor(rule, 1)
		// the running flag is only ever written where it is tested
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && fieldStore("sync2.PollerMap", "executorRunning", "executor")(in) {
				t := r.P.StaticTerm(fn, st.Val)
				if isFieldAddr(st.Addr, "sync2.PollerMap", "executorRunning") && !t.IsConst("true") {
					r.Bad(rule, shortName(fn)+" running", r.at(in), "the executor's running flag is cleared")
				}
				if isFieldAddr(st.Addr, "sync2.PollerMap", "executor") && !strings.HasSuffix(shortName(outer(fn)), "NewPollerMap") {
					r.Bad(rule, shortName(fn)+" channel", r.at(in), "the executor channel is replaced")
				}
			}
		})
	})
	reg("P03", "the serialising layer waits for each queued update and hands back its outcome", p01PollerMap)
	reg("P03", "a poller is started only when the device has none running, and registered before anyone else can look", func(r *Report) {
		const rule = "one-poller-per-device"
		root := r.Fn("sync2.(*PollerMap).EnsurePolling")
		poll := "sync2.(*poller).Poll"
		const held, vacant, started, registered, reserved = 1, 2, 4, 8, 16
		isReg := func(in ssa.Instruction) bool {
			m, ok := in.(*ssa.MapUpdate)
			return ok && strings.HasSuffix(typeName(m.Value.Type()), "sync2.poller")
		}
		n := 0
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{poll, "sync.(*Mutex).Lock", "sync.(*Mutex).Unlock"}, Inst: isReg,
			Stop: func(f *ssa.Function) bool { return shortName(f) == poll },
			On: func(e Ev) Action {
				s := e.S
				switch {
				case isReg(e.In):
					m := e.In.(*ssa.MapUpdate)
					if k := e.X.Term(s, mkCV(s.ctx, m.Key)).String(); k != "$1" {
						r.Bad(rule, "sync2.(*PollerMap).EnsurePolling key", r.at(e.In), "the poller is registered under "+k+" instead of the device it polls for")
					}
					if s.Bits&held == 0 {
						r.Bad(rule, "sync2.(*PollerMap).EnsurePolling lock", r.at(e.In), "the poller is registered without holding the lock", s.Trace()...)
					}
					s.Bits |= registered
					if s.Bits&held != 0 && s.Bits&vacant != 0 {
						s.Bits |= reserved
					} else {
						r.Bad(rule, "sync2.(*PollerMap).EnsurePolling replace", r.at(e.In), "the entry of a device is replaced although its poller may be running", s.Trace()...)
					}
				case e.Name == poll:
					n++
					if (s.Bits&held == 0 || s.Bits&vacant == 0) && s.Bits&reserved == 0 {
						r.Bad(rule, "sync2.(*PollerMap).EnsurePolling", r.at(e.In), "a poller is started although one may be running for this device", s.Trace()...)
					}
					if _, isGo := e.In.(*ssa.Go); !isGo {
						r.Bad(rule, "sync2.(*PollerMap).EnsurePolling go", r.at(e.In), "polling blocks the caller")
					}
					s.Bits |= started
				case strings.HasSuffix(e.Name, ").Lock") && e.recv().HasField("pollerMu"):
					s.Bits |= held
					s.Bits &^= vacant
				case e.recv().HasField("pollerMu"):
					if s.Bits&started != 0 && s.Bits&registered == 0 {
						r.Bad(rule, "sync2.(*PollerMap).EnsurePolling unlock", r.at(e.In), "the lock is released before the started poller is registered", s.Trace()...)
					}
					s.Bits &^= held | vacant
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				a := l.Atom
				if s.Bits&held == 0 {
					return
				}
				// !ok of h.Pollers[pid], or the existing one is terminated
				if a.Op == "extract" && !l.Pol && a.Args[0].Op == "lookup" && a.Args[0].HasField("Pollers") && a.Args[0].Args[1].String() == "$1" {
					s.Bits |= vacant
				}
				if a.Op == "eq" && l.Pol && a.Args[1].Op == "nil" && a.Args[0].HasField("Pollers") && strings.HasSuffix(a.Args[0].String(), "{$1}") {
					s.Bits |= vacant
				}
				if l.Pol && a.HasField("terminated") && strings.Contains(a.String(), "{$1}") {
					s.Bits |= vacant
				}
			}})
		if n > 0 {
			r.Ob(rule, "start of Poll")
		}
		// who else changes the registry: an entry may only go when its poller has been stopped
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			cl := asCall(in)
			if cl == nil || callName(cl) != "builtin.delete" && callName(cl) != "builtin.clear" {
				if isReg(in) && shortName(outer(fn)) != "sync2.(*PollerMap).EnsurePolling" && !onlyFrom(r.P, outer(fn), "sync2.(*PollerMap).EnsurePolling") {
					r.Ob(rule, siteName(in))
					r.Bad(rule, shortName(fn), r.at(in), "a poller is registered by something other than EnsurePolling")
				}
				return
			}
			mt, ok := cl.Args[0].Type().Underlying().(*types.Map)
			if !ok || typeName(mt.Elem()) != "sync2.poller" {
				return
			}
			r.Ob(rule, siteName(in))
			if callName(cl) == "builtin.delete" {
				c := r.P.chooser()
				if c.knownAt(in, &Env{fn: fn}, func(cd Cond) bool {
					return cd.Pol && strings.Contains(c.Path(cd.V, cd.E), ".terminated")
				}) {
					return
				}
			}
			r.Bad(rule, shortName(fn), r.at(in), "a device's entry is removed although its poller may be running: another could be started beside it")
		})
		r.Floor(rule, 1)
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if calls(in, names{poll}) && shortName(outer(fn)) != "sync2.(*PollerMap).EnsurePolling" && len(r.P.callersOf(outer(fn))) > 0 && !onlyFrom(r.P, outer(fn), "sync2.(*PollerMap).EnsurePolling") {
				r.Bad(rule, shortName(fn), r.at(in), "a poller is started outside the registry")
			}
		})
	})
}

// callersOf: functions which statically call fn.
func (p *Prog) callersOf(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	p.instrs(func(g *ssa.Function, in ssa.Instruction) {
		if c := asCall(in); c != nil && c.StaticCallee() == fn && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	})
	return out
}

// onlyFrom: fn is reached only from the function named root (transitively).
func onlyFrom(p *Prog, fn *ssa.Function, root string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		f = outer(f)
		if shortName(f) == root {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		cs := p.callersOf(f)
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			if !walk(c) {
				return false
			}
		}
		return true
	}
	return walk(fn)
}

// callingRoots: fn, or, if it is a helper which is only called by name, the functions which call it.
func (p *Prog) callingRoots(fn *ssa.Function, d int) (out []*ssa.Function) {
	sites := p.sitesOf(fn)
	if len(sites) == 0 || d > 3 || token.IsExported(fn.Name()) {
		return []*ssa.Function{fn}
	}
	seen := map[*ssa.Function]bool{}
	for _, s := range sites {
		if c := asCall(s); c == nil || c.StaticCallee() != fn {
			return []*ssa.Function{fn}
		}
		for _, f := range p.callingRoots(outer(s.Parent()), d+1) {
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	return out
}
