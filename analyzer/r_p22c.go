package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const nJoinedUsers = "sync3.(*JoinedRoomsTracker).JoinedUsersForRoom("

// receiverKeys: the keys by which the dispatcher's receiver v was looked up.
func receiverKeys(c *chooser, v ssa.Value, e *Env) []string {
	var out []string
	for _, ch := range c.Of(v, nil, e) {
		if ch.Path == "nil" || ch.Path == "zero" {
			continue
		}
		x := ch.V
		if ex, ok := x.(*ssa.Extract); ok {
			x = ex.Tuple
		}
		l, ok := x.(*ssa.Lookup)
		if !ok || !strings.HasSuffix(c.Path(l.X, ch.E), ".userToReceiver") {
			return nil
		}
		out = append(out, c.Path(l.Index, ch.E))
	}
	return out
}

func onlyAll(keys []string, all bool) bool {
	for _, k := range keys {
		if (k == `"-"`) != all {
			return false
		}
	}
	return len(keys) > 0
}

// before: a user of b which is reached before a.
func (f *fwd) before(e *Env, b func(in ssa.Instruction, e *Env) bool) (bad ssa.Instruction) {
	k := f.c.guard(f.g, e)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if f.item != nil && isHeader(x) && f.drains(x, e) {
			return
		}
		for _, in := range x.Instrs {
			if b(in, e) {
				bad = in
				return
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if ne := e.enter(ci.Common(), in); ne != nil && fnPkg(ne.fn) == fnPkg(e.fn) {
					if x := f.before(ne, b); x != nil {
						bad = x
						return
					}
				}
			}
			if f.leads(in, e) {
				return
			}
		}
		for _, s := range x.Succs {
			if !seen[s] && !k.cuts(x, s, nil, 0) {
				seen[s] = true
				walk(s)
			}
		}
	}
	walk(e.fn.Blocks[0])
	return
}

func init() {
	reg("P22", "the dispatcher passes everything in a room to the global cache and then to everybody joined to it", func(r *Report) {
		const rule = "dispatch"
		p := r.P
		p.withOpaque(liveOpaque(p), func() {
			c := p.chooser()
			noReceiver := func(all bool) CondGuard {
				return func(cd Cond) bool {
					v := cd.V
					if b, ok := cd.V.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
						if v = b.X; isNilConst(v) {
							v = b.Y
						} else if !isNilConst(b.Y) {
							return false
						}
						if cd.Pol != (b.Op == token.EQL) {
							return false
						}
						return onlyAll(receiverKeys(c, v, cd.E), all)
					}
					if cd.Pol {
						return false
					}
					for _, ch := range c.Of(v, nil, cd.E) {
						ex, ok := ch.V.(*ssa.Extract)
						if !ok || ex.Index != 1 {
							return false
						}
						l, ok := ex.Tuple.(*ssa.Lookup)
						if !ok || !strings.HasSuffix(c.Path(l.X, ch.E), ".userToReceiver") || (c.Path(l.Index, ch.E) == `"-"`) != all {
							return false
						}
						return true
					}
					return false
				}
			}
			for _, d := range []struct{ root, method, item string }{
				{"OnNewEvent", "OnNewEvent", ""}, {"OnNewInitialRoomState", "OnNewEvent", "$3"}, {"OnEphemeralEvent", "OnEphemeralEvent", ""}, {"OnReceipt", "OnReceipt", ""},
			} {
				d := d
				name := "sync3.(Receiver)." + d.method
				call := func(all bool) func(in ssa.Instruction, e *Env) bool {
					return func(in ssa.Instruction, e *Env) bool {
						cl := asCall(in)
						return cl != nil && callName(cl) == name && onlyAll(receiverKeys(c, recvValue(cl), e), all)
					}
				}
				var it func(string) bool
				if d.item != "" {
					it = isPath(d.item)
				}
				r.forwards(c, rule, nDisp+d.root, d.root+" to the caches", "what happens in a room may not reach the global cache", it, noReceiver(true), call(true))
				users := func(pa string) bool { return pa == d.item && pa != "" || strings.HasPrefix(pa, nJoinedUsers) }
				r.forwards(c, rule, nDisp+d.root, d.root+" to the users", "what happens in a room may not reach a user who is joined to it", users, noReceiver(false), call(false))
				r.Ob(rule, d.root+" order")
				if fn := p.Funcs[nDisp+d.root]; fn != nil {
					f := p.fwd(c, it, noReceiver(true), call(true))
					if bad := f.before(&Env{fn: fn}, call(false)); bad != nil {
						r.Bad(rule, d.root, r.at(bad), "users are told what happened before the global cache knows of it")
					}
				}
			}
			// somebody who leaves is told so
			if fn := r.Fn(nDisp + "OnNewEvent"); fn != nil {
				r.Ob(rule, "the user who left")
				n := 0
				left := func(pol bool) CondGuard {
					return func(cd Cond) bool {
						ok := cd.Pol == pol
						any := false
						for _, ch := range c.Of(cd.V, nil, cd.E) {
							if strings.HasPrefix(ch.Path, "sync3.(*JoinedRoomsTracker).UserLeftRoom(") {
								any = true
							} else if ch.Path != "false" {
								ok = false
							}
						}
						return ok && any
					}
				}
				for _, e := range p.contexts(fn) {
					for _, h := range headers(e.fn) {
						rv := wholeLoop(h)
						if rv == nil {
							continue
						}
						told := false
						for b := range loopBlocks(h) {
							for _, in := range b.Instrs {
								cl := asCall(in)
								told = told || cl != nil && callName(cl) == "sync3.(Receiver).OnNewEvent"
							}
						}
						if !told {
							continue
						}
						n++
						for _, ch := range c.Of(rv, nil, e) {
							switch {
							case strings.HasPrefix(ch.Path, nJoinedUsers):
								if !ch.When(left(false)) {
									r.Bad(rule, "OnNewEvent", r.at(last(h)), "a user who leaves the room may not be told so")
								}
							}
						}
					}
				}
				_ = n
			}
			// who is asked for: everybody with a receiver
			p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
				cl := asCall(in)
				if cl == nil || callName(cl) != strings.TrimSuffix(nJoinedUsers, "(") || relPkg(pkgPath(fn)) != "sync3" {
					return
				}
				for _, s := range p.sources(cl.Args[2]) {
					var g *ssa.Function
					switch x := s.(type) {
					case *ssa.MakeClosure:
						g, _ = x.Fn.(*ssa.Function)
					case *ssa.Function:
						g = x
					}
					if g == nil || len(g.Blocks) == 0 {
						continue
					}
					r.Ob(rule, siteName(in)+" filter")
					r.Touch(g)
					e := &Env{fn: g}
					reason := anyCond(noReceiver(false), func(cd Cond) bool {
						b, ok := cd.V.(*ssa.BinOp)
						if !ok {
							return false
						}
						for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
							if k, ok := strConst(pr[1]); ok && k == "-" && strings.HasPrefix(c.Path(pr[0], cd.E), "$") {
								return cd.Pol == (b.Op == token.EQL)
							}
						}
						return false
					})
					f := p.fwd(c, nil, reason, func(ssa.Instruction, *Env) bool { return false })
					fnInstrs(g, func(in ssa.Instruction) {
						ret, ok := in.(*ssa.Return)
						if !ok || c.guard(f.g, e).at(in, nil, 0) {
							return
						}
						for _, ch := range c.Of(ret.Results[0], nil, e) {
							if ch.Path == "true" || ch.When(f.g) || f.g(Cond{ch.V, false, ch.E}) {
								continue
							}
							r.Bad(rule, siteName(in), r.at(in), "a joined user whose connections are waiting may be left out ("+ch.Path+")")
						}
					})
				}
			})
			r.Floor(rule, 14)
		})
		// the tracker
		p.withOpaque(names{}, func() {
			c := p.chooser()
			fn := r.Fn("sync3.(*JoinedRoomsTracker).JoinedUsersForRoom")
			if fn == nil {
				return
			}
			r.Ob(rule, "tracker")
			e := &Env{fn: fn}
			f := p.fwd(c, isPath("$0.roomIDToJoinedUsers[]"), func(cd Cond) bool {
				cl, ok := cd.V.(*ssa.Call)
				if ok && !cd.Pol {
					for pa := range c.Paths(cl.Call.Value, cd.E) {
						if pa == "$2" {
							return true
						}
					}
				}
				return false
			}, func(ssa.Instruction, *Env) bool { return false })
			k := c.guard(f.g, e)
			fnInstrs(fn, func(in ssa.Instruction) {
				if ret, ok := in.(*ssa.Return); ok && !k.at(in, nil, 0) && !f.covers(ret.Results[0], e) {
					r.Bad(rule, "JoinedUsersForRoom", r.at(in), "a joined user may be missing from those of the room")
				}
			})
		})
	})
}
