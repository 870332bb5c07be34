package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isDestroy(in ssa.Instruction) bool {
	c := asCall(in)
	return c != nil && c.IsInvoke() && c.Method.Name() == "Destroy" && typeName(c.Value.Type()) == "sync3.ConnHandler"
}

func isCacheCall(in ssa.Instruction, name ...string) bool {
	c := asCall(in)
	if c == nil {
		return false
	}
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || !strings.HasSuffix(typeName(f.Signature.Recv().Type()), "ttlcache/v2.Cache") {
		return false
	}
	for _, n := range name {
		if f.Name() == n {
			return true
		}
	}
	return false
}

// connIndex: v is an index of connections: a map to a connection ("conn") or to a slice of them ("conns").
func connIndex(v ssa.Value) string {
	m, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return ""
	}
	if s, ok := m.Elem().Underlying().(*types.Slice); ok && typeName(s.Elem()) == "sync3.Conn" {
		return "conns"
	}
	if _, isP := m.Elem().Underlying().(*types.Pointer); isP && typeName(m.Elem()) == "sync3.Conn" {
		return "conn"
	}
	return ""
}

func isConnPtr(t types.Type) bool {
	_, isP := t.Underlying().(*types.Pointer)
	return isP && typeName(t) == "sync3.Conn"
}

func init() {
	reg("P16", "a request with a position only ever uses the existing connection, and is told that the session expired when there is none", func(r *Report) {
		const rule = "session lookup"
		p := r.P
		posQuery := func(v ssa.Value) bool {
			for _, s := range p.origins(v) {
				if c, ok := s.(*ssa.Call); ok && callName(&c.Call) == "net/url.(Values).Get" && len(c.Call.Args) == 2 {
					if k, ok := strConst(c.Call.Args[1]); ok && k == "pos" {
						return true
					}
				}
			}
			return false
		}
		var noPos Guard
		noPos = func(cond ssa.Value, pol bool, _ ssa.Value) bool {
			switch x := cond.(type) {
			case *ssa.BinOp:
				if c, ok := x.X.(*ssa.Call); ok && callName(&c.Call) == "builtin.len" && posQuery(c.Call.Args[0]) {
					if k, ok := x.Y.(*ssa.Const); ok && k.Int64() == 0 {
						return (x.Op == token.EQL || x.Op == token.LEQ) && pol || (x.Op == token.NEQ || x.Op == token.GTR) && !pol
					}
				}
				if !(x.Op == token.EQL && pol || x.Op == token.NEQ && !pol) {
					return false
				}
				for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if k, ok := strConst(pr[1]); ok && k == "" && posQuery(pr[0]) {
						return true
					}
				}
			case *ssa.Parameter:
				k := &guardCk{p: p, g: noPos, stack: map[ssa.Value]bool{}}
				sites := p.sitesOf(x.Parent())
				for _, s := range sites {
					c := asCall(s)
					if c == nil || c.StaticCallee() != x.Parent() || !k.implies(c.Args[paramIndex(x)], pol, nil, 1) {
						return false
					}
				}
				return len(sites) > 0
			}
			return false
		}
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if calls(in, names{"sync3.(*ConnMap).CreateConn"}) {
				r.Ob(rule, shortName(fn)+" creates")
				r.Touch(fn)
				if !p.Guarded(in, nil, noPos) {
					r.Bad(rule, shortName(fn)+" creates", r.at(in), shortName(fn)+" makes a new connection although the request may carry a position: the client takes the new session for the old one")
				}
			}
			c, ok := in.(*ssa.Call)
			if !ok || callName(&c.Call) != "sync3.(*ConnMap).Conn" {
				return
			}
			res := fn.Signature.Results()
			idx := -1
			for i := 0; i < res.Len(); i++ {
				if typeName(res.At(i).Type()) == "internal.HandlerError" || res.At(i).Type().String() == "error" {
					idx = i
				}
			}
			if idx < 0 {
				return
			}
			r.Ob(rule, shortName(fn)+" looks up")
			const looked, missing = 1, 2
			r.Path(PathRule{Rule: rule, Root: fn, Calls: []string{"sync3.(*ConnMap).Conn"},
				Stop: func(f *ssa.Function) bool { return true },
				On: func(e Ev) Action {
					e.S.Bits |= looked
					return Go
				},
				Lit: func(x *Explorer, s *State, l Lit) {
					if l.Pol && l.Atom.Op == "eq" && l.Atom.HasCall("(*ConnMap).Conn") && l.Atom.Args[1].Op == "nil" {
						s.Bits |= missing
					}
				},
				Exit: func(x *Explorer, s *State, kind ExitKind, rs []CV) {
					if kind != ExitReturn || s.Bits&looked == 0 {
						return
					}
					t := x.Term(s, rs[idx])
					if s.Bits&missing != 0 {
						if !t.HasCall("internal.ExpiredSessionError") && !expired(p, x.resolve(s, rs[idx]).v) {
							r.Bad(rule, shortName(fn)+" missing", p.Pos(fn.Pos()), "a request for a connection which does not exist is not answered with M_UNKNOWN_POS but "+t.String(), s.Trace()...)
						}
						return
					}
					if k, isNil := x.KnownNil(s, rs[idx]); k && !isNil {
						return
					}
					for i, rv := range rs {
						if isConnPtr(res.At(i).Type()) && !x.Term(s, rv).HasCall("(*ConnMap).Conn") {
							r.Bad(rule, shortName(fn)+" other", p.Pos(fn.Pos()), "a request with a position is handed "+x.Term(s, rv).String()+" instead of its connection", s.Trace()...)
						}
					}
				},
			})
		})
		r.Floor(rule, 2)
		if f := r.Fn("internal.ExpiredSessionError"); f != nil {
			ks := map[string]bool{}
			fnInstrs(f, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok {
					for k := range p.constArgs(st.Val) {
						ks[k] = true
					}
				}
			})
			r.Ob(rule, "internal.ExpiredSessionError")
			if !ks[`"M_UNKNOWN_POS"`] || !ks["400"] {
				r.Bad(rule, "internal.ExpiredSessionError", p.Pos(f.Pos()), "an expired session is not reported as 400 M_UNKNOWN_POS")
			}
		}
	})
	reg("P16", "a new connection replaces the old one: the old is closed first, and the new one is registered wherever connections are looked up", func(r *Report) {
		const rule = "connection replaced"
		p := r.P
		root := r.Fn("sync3.(*ConnMap).CreateConn")
		if root == nil {
			return
		}
		const alive, destroyed, inCache, inConn, inConns, cancel, made, absurd = 1, 2, 4, 8, 16, 32, 64, 128
		isMap := func(in ssa.Instruction) bool {
			m, ok := in.(*ssa.MapUpdate)
			return ok && connIndex(m.Map) != ""
		}
		isCancel := func(in ssa.Instruction) bool {
			c := asCall(in)
			return c != nil && c.IsInvoke() && c.Method.Name() == "SetCancelCallback" && typeName(c.Value.Type()) == "sync3.ConnHandler"
		}
		n := map[string]bool{}
		fresh := func(v ssa.Value) bool {
			for _, s := range p.deepSources(v) {
				if a, ok := s.(*ssa.Alloc); !ok || typeName(a.Type()) != "sync3.Conn" {
					return false
				}
			}
			return true
		}
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{"sync3.NewConn"},
			Inst: func(in ssa.Instruction) bool {
				return isMap(in) || isDestroy(in) || isCancel(in) || isCacheCall(in, "Set", "SetWithTTL", "Get") || callPred("builtin.append")(in)
			},
			On: func(e Ev) Action {
				c := asCall(e.In)
				switch {
				case e.Name == "sync3.NewConn":
					n["made"] = true
					e.S.Bits |= made
				case isDestroy(e.In):
					n["closed"] = true
					e.S.Bits |= destroyed
				case isCancel(e.In):
					n["cancel"] = true
					e.S.Bits |= cancel
				case isCacheCall(e.In, "Set", "SetWithTTL"):
					n["cache"] = true
					if e.S.Bits&alive != 0 && e.S.Bits&(destroyed|absurd) == 0 {
						r.Bad(rule, "sync3.(*ConnMap).CreateConn leak", r.at(e.In), "a connection is replaced without being closed: it goes on receiving updates for ever", e.S.Trace()...)
					}
					if t := e.argm(0); t.String() != "" && !strings.Contains(t.String(), "ConnID") && !t.HasCall("String") && !t.HasCall("Sprintf") {
						r.Bad(rule, "sync3.(*ConnMap).CreateConn key", r.at(e.In), "the connection is registered under "+t.String())
					}
					if !fresh(c.Args[2]) {
						r.Bad(rule, "sync3.(*ConnMap).CreateConn cache", r.at(e.In), "what is registered is not the new connection")
					}
					e.S.Bits |= inCache
				case isMap(e.In):
					m := e.In.(*ssa.MapUpdate)
					if connIndex(m.Map) == "conn" && fresh(m.Value) {
						n["by connection"] = true
						e.S.Bits |= inConn
					}
					if connIndex(m.Map) == "conns" {
						for _, lf := range p.elems(m.Value) {
							if !lf.Whole && fresh(lf.Val) {
								n["by user"] = true
								e.S.Bits |= inConns
							}
						}
					}
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				if l.Pol && strings.Contains(l.Atom.String(), "Alive(") {
					s.Bits |= alive
				}
				if s.Bits&alive != 0 && nilConn(l) {
					s.Bits |= absurd
				}
			},
			Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
				if kind != ExitReturn {
					return
				}
				for _, b := range []struct {
					bit  uint64
					what string
				}{{made, "no new connection is made"}, {inCache, "the new connection cannot be found by later requests"}, {inConn, "the new connection is not registered by its ID"}, {inConns, "the new connection is not registered with its user, so that it cannot be closed when the token expires"}, {cancel, "the request cannot be cancelled when the connection is closed"}} {
					if s.Bits&b.bit == 0 {
						r.Bad(rule, "sync3.(*ConnMap).CreateConn incomplete", p.Pos(root.Pos()), b.what, s.Trace()...)
					}
				}
			},
		})
		for k := range n {
			r.Ob(rule, k)
		}
		r.Floor(rule, 5)
	})
	reg("P16", "only live connections are handed out; dead and expired ones are closed, and closing one never affects another", func(r *Report) {
		const rule = "connection closed"
		p := r.P
		// 1. lookup
		if root := r.Fn("sync3.(*ConnMap).Conn"); root != nil {
			const alive, dead, destroyed, absurd = 1, 2, 4, 8
			seen := 0
			r.Path(PathRule{Rule: rule, Root: root, Inst: isDestroy,
				On: func(e Ev) Action { e.S.Bits |= destroyed; return Go },
				Lit: func(x *Explorer, s *State, l Lit) {
					if strings.Contains(l.Atom.String(), "Alive(") {
						seen++
						if l.Pol {
							s.Bits |= alive
						} else {
							s.Bits |= dead
						}
					}
					if s.Bits&(alive|dead) != 0 && nilConn(l) {
						s.Bits |= absurd
					}
				},
				Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
					if kind != ExitReturn {
						return
					}
					k, isNil := x.KnownNil(s, res[0])
					t := x.Term(s, res[0])
					if !(k && isNil || t.Op == "nil") && s.Bits&alive == 0 {
						r.Bad(rule, "sync3.(*ConnMap).Conn dead", p.Pos(root.Pos()), "a connection whose buffer overflowed, which lost updates, may be used for further requests", s.Trace()...)
					}
					if s.Bits&dead != 0 && s.Bits&(destroyed|absurd) == 0 {
						r.Bad(rule, "sync3.(*ConnMap).Conn not closed", p.Pos(root.Pos()), "a dead connection is not closed", s.Trace()...)
					}
				},
			})
			r.Ob(rule, "lookup")
			if seen == 0 {
				r.Bad(rule, "sync3.(*ConnMap).Conn dead", p.Pos(root.Pos()), "connections are handed out whether or not they are alive")
			}
		}
		// 2. expiry
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if !isCacheCall(in, "SetExpirationCallback") || relPkg(fnPkg(fn).Path()) != "sync3" {
				return
			}
			for _, cb := range boundFuncs(p, asCall(in).Args[1]) {
				r.Ob(rule, "expiry callback "+shortName(cb))
				const destroyed, none = 1, 2
				r.Path(PathRule{Rule: rule, Root: cb, Inst: isDestroy,
					On: func(e Ev) Action { e.S.Bits |= destroyed; return Go },
					Lit: func(x *Explorer, s *State, l Lit) {
						if l.Pol && l.Atom.Op == "eq" && l.Atom.Args[1].Op == "nil" && strings.Contains(l.Atom.String(), "$") && !strings.Contains(l.Atom.String(), "Counter") {
							s.Bits |= none
						}
					},
					Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
						if kind == ExitReturn && s.Bits&(destroyed|none) == 0 {
							r.Bad(rule, shortName(cb)+" expiry", p.Pos(cb.Pos()), "an expired connection is not closed: it goes on receiving updates for ever", s.Trace()...)
						}
					},
				})
			}
		})
		// 3. closing: by identity
		isSame := func(cond ssa.Value, pol bool, _ ssa.Value) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok || !(b.Op == token.EQL && pol || b.Op == token.NEQ && !pol) {
				return false
			}
			return isConnPtr(b.X.Type()) && isConnPtr(b.Y.Type()) && !isNilConst(b.X) && !isNilConst(b.Y)
		}
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			c := asCall(in)
			if c == nil || relPkg(pkgPath(fn)) != "sync3" {
				return
			}
			nm := callName(c)
			switch {
			case nm == "builtin.delete" && connIndex(c.Args[0]) == "conn":
			case strings.HasSuffix(nm, "slices.Delete") && len(c.Args) > 0 && isConnSlice(c.Args[0].Type()):
			default:
				return
			}
			r.Ob(rule, shortName(fn)+" unregisters")
			r.Touch(fn)
			if !p.Guarded(in, nil, isSame) {
				r.Bad(rule, shortName(fn)+" unregisters", r.at(in), shortName(fn)+" unregisters a connection which need not be the one that is closed: when it was replaced, the replacement is lost")
			}
		})
		isOther := func(cond ssa.Value, pol bool, _ ssa.Value) bool { return isSame(cond, !pol, nil) }
		// 4. and completely
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if !isDestroy(in) || fn.Parent() != nil {
				return
			}
			r.Ob(rule, shortName(fn)+" destroys")
			const destroyed, none, found, removed, stored, dropped = 1, 2, 4, 8, 16, 32
			n := 0
			r.Path(PathRule{Rule: rule, Root: fn, Inst: func(in ssa.Instruction) bool {
				if isDestroy(in) {
					return true
				}
				if m, ok := in.(*ssa.MapUpdate); ok {
					return connIndex(m.Map) == "conns"
				}
				c := asCall(in)
				return c != nil && (callName(c) == "builtin.delete" && connIndex(c.Args[0]) != "" || strings.HasSuffix(callName(c), "slices.Delete") || callName(c) == "builtin.append" && isConnSlice(c.Args[0].Type()) || strings.HasSuffix(callName(c), "slices.DeleteFunc"))
			},
				On: func(e Ev) Action {
					switch {
					case isDestroy(e.In):
						e.S.Bits |= destroyed
					case strings.HasSuffix(e.Name, "slices.DeleteFunc"):
						n++
						e.S.Bits |= found | removed
					case strings.HasSuffix(e.Name, "slices.Delete") || e.Name == "builtin.append":
						n++
						// append(conns[:i], conns[i+1:]...)
						if c, ok := e.In.(*ssa.Call); e.Name != "builtin.append" || ok && appendElems(c) == nil {
							e.S.Bits |= removed
						}
					case e.Name == "builtin.delete":
						if connIndex(asCall(e.In).Args[0]) == "conns" {
							n++
							e.S.Bits |= stored | removed
						} else {
							e.S.Bits |= dropped
						}
					default:
						// rebuilt from those which are not the closed one
						m, rebuilt := e.In.(*ssa.MapUpdate), true
						for _, lf := range p.elems(m.Value) {
							if lf.Whole {
								rebuilt = false
							}
							if !lf.Whole && (lf.At == nil || !p.Guarded(lf.At, nil, isOther)) {
								rebuilt = false
							}
						}
						if rebuilt {
							e.S.Bits |= removed
						}
						e.S.Bits |= stored
					}
					return Go
				},
				Lit: func(x *Explorer, s *State, l Lit) {
					a := l.Atom
					if l.Pol && a.Op == "eq" && a.Args[1].Op == "nil" && a.Args[0].Op == "param" {
						s.Bits |= none
					}
					if a.Op == "eq" && l.Pol && (a.Args[0].Op == "index" || a.Args[1].Op == "index" || a.Args[0].Op == "rangeval" || a.Args[1].Op == "rangeval") && a.Args[0].CV.v != nil && isConnPtr(a.Args[0].CV.v.Type()) {
						s.Bits |= found
					}
				},
				Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
					if kind != ExitReturn || s.Bits&none != 0 {
						return
					}
					if s.Bits&destroyed == 0 {
						r.Bad(rule, shortName(fn)+" kept", p.Pos(fn.Pos()), "a connection is closed without being destroyed: it goes on receiving updates for ever", s.Trace()...)
					}
					if s.Bits&found != 0 && s.Bits&(removed|stored) != removed|stored {
						r.Bad(rule, shortName(fn)+" kept", p.Pos(fn.Pos()), "a closed connection stays registered with its user", s.Trace()...)
					}
				},
			})
			if n == 0 {
				r.Bad(rule, shortName(fn)+" kept", p.Pos(fn.Pos()), "closed connections stay registered with their user")
			}
		})
		r.Floor(rule, 4)
	})
	reg("P16", "closing the connections of a device or of users closes every one of them", func(r *Report) {
		const rule = "all closed"
		p := r.P
		for _, nm := range []string{"sync3.(*ConnMap).CloseConnsForDevice", "sync3.(*ConnMap).CloseConnsForUsers"} {
			root := r.Fn(nm)
			if root == nil {
				continue
			}
			fns := map[*ssa.Function]bool{root: true}
			for f := range p.reachable(root) {
				if f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == "sync3.ConnMap" {
					fns[f] = true
				}
			}
			for f := range fns {
				f := f
				// loops over connections
				loops := false
				fnInstrs(f, func(in ssa.Instruction) {
					if ia, ok := in.(*ssa.IndexAddr); ok && (isConnSlice(ia.X.Type()) || isConnIDSlice(ia.X.Type())) && innermostLoop(in.Block()) != nil {
						loops = true
					}
				})
				if !loops || f.Name() == "closeConn" || destroys(f) {
					continue
				}
				r.Ob(rule, shortName(f))
				r.Touch(f)
				const body, done, other = 1, 2, 4
				r.Path(PathRule{Rule: rule, Root: f, Inst: func(in ssa.Instruction) bool {
					if ia, ok := in.(*ssa.IndexAddr); ok {
						return isConnSlice(ia.X.Type()) || isConnIDSlice(ia.X.Type())
					}
					return isCacheCall(in, "Remove") || isDestroy(in) || callPred("builtin.append")(in)
				},
					On: func(e Ev) Action {
						if ia, ok := e.In.(*ssa.IndexAddr); ok {
							if innermostLoop(ia.Block()) != nil {
								e.S.Bits |= body
								for _, src := range p.sources(ia.X) {
									if sl, ok := src.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
										r.Bad(rule, shortName(f)+" part", r.at(e.In), shortName(f)+" goes through only a part of the connections")
									}
								}
							}
							return Go
						}
						if isCacheCall(e.In, "Remove") {
							if t := e.argm(0); !t.HasCall("String") && !t.HasCall("Sprintf") {
								r.Bad(rule, shortName(f)+" key", r.at(e.In), "connections are removed by "+t.String()+", not by their ID")
							}
						}
						e.S.Bits |= done
						return Go
					},
					Lit: func(x *Explorer, s *State, l Lit) {
						if !l.Pol && l.Atom.Op == "eq" && l.Atom.HasField("DeviceID") {
							s.Bits |= other
						}
					},
					Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
						if s.Bits&body != 0 && s.Bits&(done|other) == 0 {
							r.Bad(rule, shortName(f)+" skipped", r.at(last(hdr)), shortName(f)+" passes over a connection which should be closed", s.Trace()...)
						}
						s.Bits &^= body | done | other
					},
				})
			}
		}
		r.Floor(rule, 2)
	})
}

func destroys(f *ssa.Function) bool {
	found := false
	fnInstrs(f, func(in ssa.Instruction) { found = found || isDestroy(in) })
	return found
}

func isConnSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isConnPtr(s.Elem())
}

func isConnIDSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeName(s.Elem()) == "sync3.ConnID"
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

func pkgPath(fn *ssa.Function) string {
	if p := fnPkg(fn); p != nil {
		return p.Path()
	}
	return ""
}

// boundFuncs: the module functions v may be: a function, a closure or a method value.
func boundFuncs(p *Prog, v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	for _, s := range p.sources(v) {
		switch x := s.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			if f.Synthetic != "" { // method value: the method it calls
				fnInstrs(f, func(in ssa.Instruction) {
					if c := asCall(in); c != nil && c.StaticCallee() != nil {
						out = append(out, c.StaticCallee())
					}
				})
				continue
			}
			out = append(out, f)
		}
	}
	return out
}

// nilConn: the branch is taken because a connection is nil.
func nilConn(l Lit) bool {
	a := l.Atom
	if !l.Pol || a.Op != "eq" || a.Args[1].Op != "nil" || a.Args[0].CV.v == nil {
		return false
	}
	return isConnPtr(a.Args[0].CV.v.Type())
}
