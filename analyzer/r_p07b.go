package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P07", "the target of a redaction is looked for in the other place whenever it is not in the first, and whether state was redacted is found out from all of the targets once the state is up to date", p07Targets)
	reg("P07", "every stored target is overwritten unless it is in another room", p07All)
	reg("P07", "reloading a room's metadata takes over what its current state says, even if that is nothing", p07Reload)
	reg("P07", "the announcement that state was redacted reaches the handler for it", func(r *Report) {
		const rule = "redaction-handed-on"
		c := r.P.chooser()
		r.forwards(c, rule, "pubsub.(*V2Sub).onMessage", "V2StateRedaction", "the announcement of redacted state may not be handed on", nil, func(cd Cond) bool {
			as, ok := asserts(cd)
			return ok && (as == "pubsub.V2StateRedaction") != cd.Pol
		}, func(in ssa.Instruction, e *Env) bool {
			cl := asCall(in)
			return cl != nil && strings.HasSuffix(callName(cl), ").OnStateRedaction") && callArg(c, in, e, 0) == "$1"
		})
		r.Floor(rule, 1)
	})
}

func p07Targets(r *Report) {
	const rule = "redaction-targets"
	p := r.P
	root := r.Fn("state.(*Accumulator).Accumulate")
	if root == nil {
		return
	}
	c := p.chooser()
	for _, e := range p.closureEnvs(root) {
		e := e
		fnInstrs(e.fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if typeName(x.Value.Type()) != "state.Event" {
					return
				}
				r.Ob(rule, "fallback at "+siteName(in))
				lacking := map[string]bool{}
				for _, ch := range c.Of(x.Key, nil, e) {
					ch := ch
					if ch.V == nil || ch.Path == `""` {
						continue
					}
					ks := p.constArgs(ch.V)
					own := func(cd Cond) bool { // found there
						var v ssa.Value
						switch y := cd.V.(type) {
						case *ssa.BinOp:
							if y.Op != token.EQL && y.Op != token.NEQ || cd.Pol != (y.Op == token.NEQ) {
								return false
							}
							for _, pr := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
								if k, ok := strConst(pr[1]); ok && k == "" {
									v = pr[0]
								}
							}
						case *ssa.Call:
							if !strings.HasSuffix(callName(&y.Call), "Result).Exists") || !cd.Pol {
								return false
							}
							v = y.Call.Args[0]
						}
						if v == nil {
							return false
						}
						k2 := p.constArgs(v)
						for k := range ks {
							if strings.HasSuffix(k, `redacts"`) && k2[k] {
								return true
							}
						}
						return false
					}
					if !ch.When(own) {
						for k := range ks {
							if strings.HasSuffix(k, `redacts"`) {
								lacking[k] = true
							}
						}
					}
				}
				if len(lacking) > 1 {
					r.Bad(rule, "state.(*Accumulator).Accumulate fallback", r.at(in), "the target of a redaction may not be looked for in the second place although it is not in the first")
				}
			case *ssa.Store:
				if !fieldStore("state.AccumulateResult", "IncludesStateRedaction")(in) {
					return
				}
				r.Ob(rule, "flag")
				if b, ok := x.Val.(*ssa.BinOp); ok && !anyCount(b) {
					r.Bad(rule, "state.(*Accumulator).Accumulate flag", r.at(in), "redacted state is reported only if "+b.String())
				}
				if b, ok := boolConst(x.Val); ok && b {
					if !c.knownAt(in, e, func(cd Cond) bool {
						b, ok := cd.V.(*ssa.BinOp)
						return !ok || !isIntType(b) || cd.Pol && anyCount(b)
					}) {
						r.Bad(rule, "state.(*Accumulator).Accumulate flag", r.at(in), "redacted state is not reported exactly when there is some")
					}
				}
				// once all of the snapshots are made
				fnInstrs(e.fn, func(in2 ssa.Instruction) {
					if cl := asCall(in2); cl != nil && (callName(cl) == snapInsert || callName(cl) == updBefore) && (reachesWithout(in.Block(), in2.Block(), nil) && in.Block() != in2.Block()) {
						r.Bad(rule, "state.(*Accumulator).Accumulate flag order", r.at(in), "whether state was redacted is found out before the new state is known")
					}
				})
			}
		})
	}
	// the room's version decides, wherever it is known
	p.withOpaque(append(p06Tables(p), calcSnap), func() {
		c := p.chooser()
		for _, e := range p.closureEnvs(root) {
			fnInstrs(e.fn, func(in ssa.Instruction) {
				cl := asCall(in)
				if cl == nil || callName(cl) != evRedact {
					return
				}
				r.Ob(rule, "version")
				known := false
				for _, ch := range c.Of(cl.Args[len(cl.Args)-2], nil, e) {
					if ch.V != nil && p.constArgs(ch.V)[`"content.room_version"`] {
						known = true
						continue
					}
					if ch.fails() {
						continue
					}
					if !ch.When(func(cd Cond) bool {
						b, ok := cd.V.(*ssa.BinOp)
						if ok && (b.Op == token.EQL || b.Op == token.NEQ) && cd.Pol == (b.Op == token.EQL) {
							for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
								if k, ok := strConst(pr[1]); ok && k == "" && p.constArgs(pr[0])[`"content.room_version"`] {
									return true
								}
							}
						}
						cl, ok := cd.V.(*ssa.Call)
						return ok && !cd.Pol && strings.HasSuffix(callName(&cl.Call), "Result).Exists") && p.constArgs(cl)[`"content.room_version"`]
					}) {
						r.Bad(rule, "state.(*Accumulator).Accumulate version", r.at(in), "the redaction may follow the rules of version "+ch.Path+" although the room's version is known")
					}
				}
				if !known {
					r.Bad(rule, "state.(*Accumulator).Accumulate version", r.at(in), "the room's version does not decide how events are redacted")
				}
			})
		}
	})
	// the count is over all of the targets, in the latest snapshot
	for _, st := range p.Statements() {
		if outer(st.In.Parent()) != root || !strings.Contains(strings.ToLower(st.Query), "count(") {
			continue
		}
		var m ssa.Value
		fnInstrs(root, func(in ssa.Instruction) {
			if cl := asCall(in); cl != nil && callName(cl) == evRedact {
				m = cl.Args[len(cl.Args)-1]
			}
		})
		if m == nil {
			continue
		}
		r.Ob(rule, "count at "+r.at(st.In))
		e := &Env{fn: root}
		f := p.fwd(c, func(string) bool { return false }, nil, func(ssa.Instruction, *Env) bool { return false })
		f.isItem = func(v ssa.Value, _ *Env) bool { return sameVar(v, m) }
		ok := false
		for _, l := range st.Params {
			ok = ok || f.covers(stripIface(l), e)
		}
		if !ok {
			r.Bad(rule, "state.(*Accumulator).Accumulate count", r.at(st.In), "whether state was redacted is not asked about every redacted event")
		}
	}
	r.Floor(rule, 2)
}

func isIntType(b *ssa.BinOp) bool { return isInt(b.X.Type()) }

// anyCount: a comparison of a count which says that it is not zero.
func anyCount(b *ssa.BinOp) bool {
	x, y, op := b.X, b.Y, b.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ, token.EQL: token.EQL}[op]
	}
	return op == token.GTR && isIntConst(y, 0) || op == token.NEQ && isIntConst(y, 0) || op == token.GEQ && isIntConst(y, 1)
}

func p07All(r *Report) {
	const rule = "every-target"
	p := r.P
	root := r.Fn(evRedact)
	if root == nil {
		return
	}
	upd := map[ssa.Instruction]bool{}
	for _, st := range p.Statements() {
		if st.Table == "syncv3_events" && st.Verb == "UPDATE" && strings.Contains(strings.ToLower(st.Query), "set event=") {
			upd[st.In] = true
		}
	}
	p.withOpaque(names{"state.(*EventTable).SelectByIDs"}, func() {
		c := p.chooser()
		g := func(cd Cond) bool {
			b, ok := cd.V.(*ssa.BinOp)
			if !ok {
				return false
			}
			if (b.Op == token.EQL || b.Op == token.NEQ) && cd.Pol == (b.Op == token.NEQ) {
				x, y := c.Path(b.X, cd.E), c.Path(b.Y, cd.E)
				return strings.HasSuffix(x, ".RoomID") && strings.HasSuffix(y, ".RoomID") && x != y
			}
			if c.emptyOf(cd, func(v ssa.Value, e *Env) bool {
				return strings.HasPrefix(c.Path(v, e), "state.(*EventTable).SelectByIDs(")
			}) {
				return true
			}
			return false
		}
		const sel = "state.(*EventTable).SelectByIDs("
		r.Ob(rule, "selected")
		f := p.fwd(c, func(pa string) bool { return strings.HasPrefix(pa, sel) || pa == "$3" }, g, func(in ssa.Instruction, e *Env) bool { return upd[in] })
		f.errs = true
		if bad := f.must(&Env{fn: root}); bad != nil {
			r.Bad(rule, "state.(*EventTable).Redact selected", r.at(bad), "a stored event of the room may be left unredacted")
		}
		for in := range upd {
			if outer(in.Parent()) != root && !p.reachable(root)[in.Parent()] {
				continue
			}
			r.Ob(rule, "overwritten with the redacted form")
			for _, st := range p.Statements() {
				if st.In == in && len(st.Params) > 0 && !p.stemsFrom(st.Params[0], "*RedactEventJSON") {
					r.Bad(rule, "state.(*EventTable).Redact form", r.at(in), "what is stored in place of a redacted event is not its redacted form")
				}
			}
		}
		r.Ob(rule, "asked for")
		f2 := p.fwd(c, isPath("$3"), g, func(in ssa.Instruction, e *Env) bool { return false })
		n := 0
		for _, e := range p.contexts(root) {
			fnInstrs(e.fn, func(in ssa.Instruction) {
				if cl := asCall(in); cl != nil && callName(cl) == "state.(*EventTable).SelectByIDs" {
					n++
					if !f2.covers(cl.Args[len(cl.Args)-1], e) {
						r.Bad(rule, "state.(*EventTable).Redact asked", r.at(in), "not every target of a redaction is looked for")
					}
				}
			})
		}
	})
	r.Floor(rule, 2)
}

// p07Reload: a name, avatar or alias which is gone does not stay in the metadata.
func p07Reload(r *Report) {
	const rule = "metadata-reloaded"
	p := r.P
	root := r.Fn("state.(*Storage).ResetMetadataState")
	if root == nil {
		return
	}
	var q *Stmt
	for _, st := range p.Statements() {
		if outer(st.In.Parent()) == root {
			q = st
		}
	}
	if q == nil {
		r.Bad("anchor", rule, p.Pos(root.Pos()), "no query is made to reload metadata")
		return
	}
	c := p.chooser()
	for ty, field := range map[string]string{"m.room.name": "NameEvent", "m.room.avatar": "AvatarEvent", "m.room.canonical_alias": "CanonicalAlias"} {
		ty, field := ty, field
		r.Ob(rule, field)
		if !strings.Contains(q.Query, "'"+ty+"'") && strings.Contains(q.Query, "m.room.") {
			r.Bad(rule, field, r.at(q.In), ty+" events are not loaded")
		}
		isSt := fieldStore("internal.RoomMetadata", field)
		other := func(cd Cond) bool {
			b, ok := cd.V.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return false
			}
			for _, v := range []ssa.Value{b.X, b.Y} {
				k, ok := strConst(v)
				if !ok {
					continue
				}
				if k == ty {
					return cd.Pol == (b.Op == token.NEQ)
				}
				if strings.HasPrefix(k, "m.") {
					return cd.Pol == (b.Op == token.EQL) // some other type
				}
			}
			return false
		}
		good, stores := false, false
		for _, e := range p.contexts(root) {
			for _, h := range headers(e.fn) {
				hit := false
				sk := c.skips(h, e, func(in ssa.Instruction) bool {
					if isSt(in) {
						hit = true
						return true
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						if ne := e.enter(ci.Common(), in); ne != nil {
							f := p.fwd(c, nil, other, func(in ssa.Instruction, _ *Env) bool { return isSt(in) })
							if bad, h2 := f.walk(ne, ne.fn.Blocks[0], 0); bad == nil && h2 {
								hit = true
								return true
							}
						}
					}
					return false
				}, other)
				if hit && !sk {
					good = true
				}
				stores = stores || hit
			}
			fnInstrs(e.fn, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && isSt(in) && innermostLoop(in.Block()) == nil {
					if k, ok := strConst(st.Val); ok && k == "" {
						good = true // cleared first
					}
				}
			})
		}
		if !good {
			r.Bad(rule, field, p.Pos(root.Pos()), "after a redaction the room may keep its old "+ty)
		}
	}
	if fn := p.Funcs["sync3/caches.(*GlobalCache).OnInvalidateRoom"]; fn != nil {
		for _, e := range p.contexts(fn) {
			upd := false
			fnInstrs(e.fn, func(in ssa.Instruction) {
				if m, ok := in.(*ssa.MapUpdate); ok && strings.HasSuffix(c.Path(m.Map, e), "roomIDToMetadata") {
					upd = true
				}
			})
			fnInstrs(e.fn, func(in ssa.Instruction) {
				if cl := asCall(in); cl != nil && strings.HasSuffix(callName(cl), ").ResetMetadataState") {
					r.Ob(rule, "cached")
					if pa := callArg(c, in, e, 0); !strings.Contains(pa, "roomIDToMetadata[]") && !upd {
						r.Bad(rule, "sync3/caches.(*GlobalCache).OnInvalidateRoom", r.at(in), "what is reloaded is "+pa+", not the cached metadata")
					}
				}
			})
		}
	}
	r.Floor(rule, 4)
}

// stemsFrom: some result of the named function goes into v.
func (p *Prog) stemsFrom(v ssa.Value, name string) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 20 {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Call:
			if (names{name}).has(callName(&x.Call)) {
				return true
			}
			if fn := x.Call.StaticCallee(); fn != nil && inModule(fn) {
				res := false
				fnInstrs(fn, func(in ssa.Instruction) {
					if r, ok := in.(*ssa.Return); ok {
						for _, rv := range r.Results {
							res = res || walk(rv, d+1)
						}
					}
				})
				if res {
					return true
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// what was stored in the same place
				for _, b := range x.Parent().Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && samePlace(st.Addr, x.X) && walk(st.Val, d+1) {
							return true
						}
					}
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if walk(*op, d+1) {
					return true
				}
			}
		}
		return false
	}
	return walk(v, 0)
}

// samePlace: the same field of the same kind of thing, or the same variable.
func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && typeName(x.X.Type()) == typeName(y.X.Type())
}
