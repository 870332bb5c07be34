package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	nToDev   = "state.(*ToDeviceTable)."
	tToDev   = "syncv3_to_device_messages"
	nToDevRq = "sync3/extensions.(*ToDeviceRequest)."
)

// closureEnvs: the activations of root and its helpers, including of closures given to other functions.
func (p *Prog) closureEnvs(root *ssa.Function) []*Env {
	var out []*Env
	var add func(e *Env)
	add = func(e *Env) {
		out = append(out, e)
		if e.d > 4 || len(out) > 300 {
			return
		}
		fnInstrs(e.fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if f := ci.Common().StaticCallee(); f != nil && fnPkg(f) == fnPkg(root) {
				if ne := e.enter(ci.Common(), in); ne != nil {
					add(ne)
				}
			}
			for _, a := range ci.Common().Args {
				mc, ok := a.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				if g, _ := mc.Fn.(*ssa.Function); g != nil && len(g.Blocks) > 0 && !e.on(g) {
					add(&Env{up: e, fn: g, site: in, d: e.d + 1})
				}
			}
		})
	}
	add(&Env{fn: root})
	return out
}

// mentions: the access paths from which the value is put together.
func (c *chooser) mentions(v ssa.Value, e *Env, out map[string]bool, d int) {
	if d > 6 || v == nil {
		return
	}
	out[c.Path(v, e)] = true
	switch x := stripConv(v).(type) {
	case *ssa.BinOp:
		c.mentions(x.X, e, out, d+1)
		c.mentions(x.Y, e, out, d+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			c.mentions(a, e, out, d+1)
			for _, l := range c.p.elems(a) {
				if l.Val != a {
					c.mentions(l.Val, e, out, d+1)
				}
			}
		}
	case *ssa.MakeInterface:
		c.mentions(x.X, e, out, d+1)
	}
	if t, ok := v.Type().Underlying().(*types.Struct); ok {
		for i := 0; i < t.NumFields(); i++ {
			for _, ch := range c.Of(v, []string{t.Field(i).Name()}, e) {
				out[ch.Path] = true
			}
		}
	}
}

// errNil: the condition is that the error result of the call with this path is (pol) nil.
func (c *chooser) errNil(cd Cond, prefix string, pol bool) bool {
	return c.failed(prefix)(Cond{cd.V, cd.Pol == !pol, cd.E})
}

func init() {
	reg("P17", "to-device messages: what a device acknowledged is deleted, nothing else; what is sent comes after it, in order, with the position to acknowledge", func(r *Report) {
		const rule = "to-device"
		p := r.P
		op := append(p.pkgFuncs("state"), "strconv.ParseInt")
		p.withOpaque(op, func() {
			c := p.chooser()
			const parse = "strconv.ParseInt("
			const msgs = nToDev + "Messages("
			root := r.Fn(nToDevRq + "ProcessInitial")
			if root == nil {
				return
			}
			seenDev := func(cd Cond) bool {
				if !cd.Pol {
					return false
				}
				pa := c.Path(cd.V, cd.E)
				return strings.HasPrefix(pa, "global:") && strings.HasSuffix(pa, "[]?")
			}
			n := map[string]int{}
			for _, e := range p.contexts(root) {
				e := e
				fnInstrs(e.fn, func(in ssa.Instruction) {
					switch {
					case calls(in, names{nToDev + "DeleteMessagesUpToAndIncluding"}):
						n["delete"]++
						r.Ob(rule, siteName(in))
						r.Touch(e.fn)
						for _, ch := range c.Of(asCall(in).Args[3], nil, e) {
							cl, _ := ch.V.(*ssa.Call)
							if ex, ok := ch.V.(*ssa.Extract); ok {
								cl, _ = ex.Tuple.(*ssa.Call)
							}
							if cl == nil || callName(&cl.Call) != "strconv.ParseInt" {
								if ch.Path != "zero" && ch.Path != "0" {
									r.Bad(rule, siteName(in), r.at(in), "messages are deleted up to a position which the client did not acknowledge ("+ch.Path+")")
								}
								continue
							}
							for _, s := range c.Of(cl.Call.Args[0], nil, ch.E) {
								switch {
								case s.Path == `""` || s.Path == "zero":
								case s.Path != "$0.Since":
									r.Bad(rule, siteName(in), r.at(in), "messages are deleted up to a position which the client did not acknowledge ("+s.Path+")")
								case !s.When(seenDev) && !c.knownAt(cl, ch.E, seenDev) && !c.knownAt(in, e, seenDev):
									r.Bad(rule, siteName(in), r.at(in), "the position in the first request of a device after a start is taken as an acknowledgement, although the positions may have started over")
								}
							}
							if !c.knownAt(in, e, func(cd Cond) bool { return c.errNil(cd, parse, true) }) {
								r.Bad(rule, siteName(in), r.at(in), "messages are deleted although the position could not be parsed")
							}
						}
					case calls(in, names{nToDev + "Messages"}):
						n["messages"]++
						r.Ob(rule, siteName(in))
						for _, ch := range c.Of(asCall(in).Args[3], nil, e) {
							if !strings.HasPrefix(ch.Path, parse) && ch.Path != "zero" && ch.Path != "0" {
								r.Bad(rule, siteName(in), r.at(in), "messages which the client did not acknowledge may be left out: it gets those after "+ch.Path)
							}
						}
					case fieldStore("sync3/extensions.ToDeviceResponse", "Events")(in):
						n["events"]++
						r.Ob(rule, siteName(in)+" events")
						if pa := c.Path(in.(*ssa.Store).Val, e); !strings.HasPrefix(pa, msgs) || !strings.HasSuffix(pa, ")") {
							r.Bad(rule, siteName(in), r.at(in), "the messages sent are not those which were selected ("+pa+")")
						}
					case fieldStore("sync3/extensions.ToDeviceResponse", "NextBatch")(in):
						n["next"]++
						r.Ob(rule, siteName(in)+" next_batch")
						m := map[string]bool{}
						c.mentions(in.(*ssa.Store).Val, e, m, 0)
						ok, other := false, ""
						for pa := range m {
							if strings.HasPrefix(pa, msgs) {
								if strings.HasSuffix(pa, "#1") {
									ok = true
								} else {
									other = pa
								}
							} else if strings.HasPrefix(pa, "$") || strings.HasPrefix(pa, parse) || strings.HasPrefix(pa, "global:") {
								other = pa
							}
						}
						if !ok || other != "" {
							r.Bad(rule, siteName(in), r.at(in), "the position to acknowledge is not that of the last message sent "+other)
						}
					case fieldStore("sync3/extensions.Response", "ToDevice")(in):
						n["response"]++
						r.Ob(rule, siteName(in)+" response")
						for _, f := range []string{msgs, nToDev + "SetUnackedPosition("} {
							if !c.knownAt(in, e, func(cd Cond) bool { return c.errNil(cd, f, true) }) {
								r.Bad(rule, siteName(in), r.at(in), "messages are sent although "+strings.TrimSuffix(f, "(")+" may have failed")
							}
						}
					}
					// which devices were seen
					var key ssa.Value
					switch x := in.(type) {
					case *ssa.Lookup:
						if strings.HasPrefix(c.Path(x.X, e), "global:") {
							key = x.Index
						}
					case *ssa.MapUpdate:
						if strings.HasPrefix(c.Path(x.Map, e), "global:") {
							key = x.Key
						}
					}
					if key != nil {
						n["seen"]++
						r.Ob(rule, siteName(in)+" device")
						m := map[string]bool{}
						c.mentions(key, e, m, 0)
						user, dev := false, false
						for pa := range m {
							user = user || strings.HasSuffix(pa, ".UserID")
							dev = dev || strings.HasSuffix(pa, ".DeviceID")
						}
						if !user || !dev {
							r.Bad(rule, siteName(in), r.at(in), "devices are told apart by less than user and device ID")
						}
					}
				})
			}
			for _, k := range []string{"delete", "messages", "events", "next", "response", "seen"} {
				if n[k] == 0 {
					r.Bad(rule, root.Name(), p.Pos(root.Pos()), "the extension does not "+k)
				}
			}
			// what was sent is recorded, so that it is not cancelled any more
			r.Ob(rule, "unacked position")
			f := p.fwd(c, nil, nil, func(in ssa.Instruction, e *Env) bool {
				return calls(in, names{nToDev + "SetUnackedPosition"}) && strings.HasPrefix(callArg(c, in, e, 2), msgs) && strings.HasSuffix(callArg(c, in, e, 2), "#1")
			})
			if bad := f.before(&Env{fn: root}, func(in ssa.Instruction, e *Env) bool {
				return fieldStore("sync3/extensions.Response", "ToDevice")(in)
			}); bad != nil {
				r.Bad(rule, siteName(bad), r.at(bad), "messages are sent before it is recorded that they were")
			}
			storeErr := c.failed("state.", parse)
			r.forwards(c, rule, nToDevRq+"ProcessInitial", "answered", "messages may not be sent", nil, storeErr, func(in ssa.Instruction, e *Env) bool {
				return fieldStore("sync3/extensions.Response", "ToDevice")(in)
			})
			r.forwards(c, rule, nToDevRq+"ProcessInitial", "acknowledged", "messages which were acknowledged may not be deleted", nil, anyCond(storeErr, func(cd Cond) bool {
				return c.is(cd, "$0.Since", `""`) || sinceUnset(c, cd)
			}), callTo(c, nToDev+"DeleteMessagesUpToAndIncluding", ""))
			r.forwards(c, rule, nToDevRq+"AppendLive", "live", "new messages may not be sent", nil, func(cd Cond) bool {
				t, ok := asserts(cd)
				return ok && t == "sync3/caches.DeviceEventsUpdate" && !cd.Pol
			}, callTo(c, nToDevRq+"ProcessInitial", "$0", "", "$2", "$3"))
			r.Floor(rule, 9)
		})
	})

	reg("P17", "to-device messages: every message is stored unless it is a key request which was cancelled before it was sent", func(r *Report) {
		const rule = "to-device store"
		p := r.P
		// statements
		for _, st := range p.Statements() {
			if st.Table != tToDev || inMigrations(st.Fn) {
				continue
			}
			site := siteName(st.In.(ssa.Instruction))
			pos := map[string]ssa.Value{}
			for _, cj := range where(st.Query) {
				if cj.Col == "position" {
					pos[cj.Op] = st.param(cj.Rhs)
					if pos[cj.Op] == nil {
						pos["?"] = st.In.(ssa.Value)
					}
				}
				if cj.Op == "or" || cj.Op == "?" {
					pos["?"] = nil
				}
			}
			switch st.Verb {
			case "DELETE":
				r.Ob(rule, site)
				r.Touch(st.Fn)
				le, isLE := pos["<="]
				gt, isGT := pos[">"]
				switch {
				case isLE && len(pos) == 1:
					if _, ok := le.(*ssa.MakeInterface); ok {
						le = le.(*ssa.MakeInterface).X
					}
					if _, ok := le.(*ssa.Parameter); !ok {
						r.Bad(rule, site, r.at(st.In.(ssa.Instruction)), "messages are deleted up to another position than the one given")
					}
				case isGT && len(pos) == 1:
					if !p.scannedFrom(gt, "unack_pos") || !strings.Contains(strings.ToLower(st.Query), "unique_key") {
						r.Bad(rule, site, r.at(st.In.(ssa.Instruction)), "messages which may have been sent already are deleted")
					}
				case len(pos) == 0:
					if cs := p.callersOf(outer(st.Fn)); len(cs) > 0 {
						r.Bad(rule, site, r.at(st.In.(ssa.Instruction)), "messages are deleted whether or not they were acknowledged")
					}
				default:
					r.Bad(rule, site, r.at(st.In.(ssa.Instruction)), "messages are deleted which were not acknowledged")
				}
			case "SELECT":
				if !strings.Contains(strings.ToLower(st.Query), "message") {
					continue
				}
				r.Ob(rule, site)
				gt, isGT := pos[">"]
				if mi, ok := gt.(*ssa.MakeInterface); ok {
					gt = mi.X
				}
				_, isP := gt.(*ssa.Parameter)
				ord := strings.ToLower(st.Query)
				if i := strings.Index(ord, " order by "); i >= 0 {
					ord = strings.TrimSpace(strings.TrimPrefix(ord[i:], " order by "))
				} else {
					ord = ""
				}
				if !isGT || len(pos) != 1 || !isP {
					r.Bad(rule, site, r.at(st.In.(ssa.Instruction)), "not all messages after the given position are selected")
				}
				if !strings.HasPrefix(ord, "position") || strings.HasPrefix(ord, "position desc") {
					r.Bad(rule, site, r.at(st.In.(ssa.Instruction)), "messages are not in the order in which they arrived")
				}
			}
		}
		// selected messages
		p.withOpaque(names{}, func() {
			c := p.chooser()
			fn := r.Fn(nToDev + "Messages")
			if fn == nil {
				return
			}
			r.Ob(rule, "Messages")
			e := &Env{fn: fn}
			rowsT := func(v ssa.Value) bool {
				s, ok := v.Type().Underlying().(*types.Slice)
				return ok && typeName(s.Elem()) == "state.ToDeviceRow"
			}
			f := p.fwd(c, func(string) bool { return false }, nil, func(ssa.Instruction, *Env) bool { return false })
			f.isItem = func(v ssa.Value, e *Env) bool { return rowsT(v) }
			none := func(cd Cond) bool { return c.emptyOf(cd, func(v ssa.Value, e *Env) bool { return rowsT(v) }) }
			k := c.guard(none, e)
			fnInstrs(fn, func(in ssa.Instruction) {
				ret, ok := in.(*ssa.Return)
				if !ok || len(ret.Results) != 3 || k.at(in, nil, 0) {
					return
				}
				if k2 := c.guard(c.failed(""), e); k2.at(in, nil, 0) {
					return
				}
				if !f.covers(ret.Results[0], e) {
					r.Bad(rule, "Messages", r.at(in), "not all selected messages are returned")
				}
				if lastTurn(ret.Results[1], rowsT, "Position") {
					return
				}
				for _, ch := range c.Of(ret.Results[1], nil, e) {
					if ch.Path == "$3" && ch.When(none) {
						continue
					}
					if !lastOf(ch.V, "Position") {
						r.Bad(rule, "Messages", r.at(in), "the position returned is not that of the last message ("+ch.Path+")")
					}
				}
			})
		})
		// stored messages
		p.withOpaque(names{}, func() {
			c := p.chooser()
			fn := r.Fn(nToDev + "InsertMessages")
			if fn == nil {
				return
			}
			envs := p.closureEnvs(fn)
			// the sets of keys
			kind := func(m ssa.Value, e *Env) string {
				for _, en := range envs {
					res := ""
					fnInstrs(en.fn, func(in ssa.Instruction) {
						mu, ok := in.(*ssa.MapUpdate)
						if !ok || c.Path(mu.Map, en) != c.Path(m, e) {
							return
						}
						res = "cancelled"
						for k, name := range map[string]string{"1": "requests", "2": "cancels"} {
							if c.knownAt(in, en, func(cd Cond) bool {
								b, ok := cd.V.(*ssa.BinOp)
								if !ok {
									return false
								}
								for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
									if kc, ok := pr[1].(*ssa.Const); ok && kc.Value != nil && kc.Value.String() == k && isLoadOf(pr[0], "state.ToDeviceRow", "Action") {
										return b.Op == token.EQL && cd.Pol || b.Op == token.NEQ && !cd.Pol
									}
								}
								return false
							}) {
								res = name
							}
						}
					})
					if res != "" {
						return res
					}
				}
				return ""
			}
			in := func(sets ...string) CondGuard {
				return func(cd Cond) bool {
					if !cd.Pol {
						return false
					}
					ex, ok := cd.V.(*ssa.Extract)
					if !ok || ex.Index != 1 {
						return false
					}
					l, ok := ex.Tuple.(*ssa.Lookup)
					return ok && names(sets).has(kind(l.X, cd.E))
				}
			}
			done := false
			for _, e := range envs {
				inserts := false
				fnInstrs(e.fn, func(in ssa.Instruction) {
					for _, st := range p.Statements() {
						if st.In.(ssa.Instruction) == in && st.Verb == "INSERT" && st.Table == tToDev {
							inserts = true
						}
					}
				})
				if !inserts && e.up != nil {
					continue
				}
				if !inserts {
					continue
				}
				done = true
				top := e
				for top.up != nil && top.up.up != nil {
					top = top.up
				}
				ins := func(in ssa.Instruction, e *Env) bool {
					for _, st := range p.Statements() {
						if st.In.(ssa.Instruction) == in && st.Verb == "INSERT" && st.Table == tToDev {
							return true
						}
					}
					return false
				}
				for _, sets := range [][]string{{"cancelled", "requests"}, {"cancelled", "cancels"}} {
					r.Ob(rule, "InsertMessages "+sets[1])
					f := p.fwd(c, isPath("$3"), anyCond(in(sets...), func(cd Cond) bool {
						b, ok := cd.V.(*ssa.BinOp)
						return ok && cd.Pol == (b.Op == token.NEQ) && (isErr(b.X) || isErr(b.Y))
					}), ins)
					if bad := f.must(top); bad != nil {
						r.Bad(rule, "InsertMessages", r.at(bad), "a message may not be stored although no cancelled request is the reason")
					}
				}
			}
			if !done {
				r.Bad(rule, "InsertMessages", p.Pos(fn.Pos()), "messages are not stored")
			}
			r.forwards(c, rule, "sync2.(*poller).parseToDeviceMessages", "poller", "messages received may not be stored", isPath("$2.ToDevice.Events"), nil,
				callTo(c, "sync2.(V2DataReceiver).AddToDeviceMessages", "", "", "$0.userID", "$0.deviceID", "$2.ToDevice.Events"))
		})
		p.withOpaque(p.pkgFuncs("state"), func() {
			c := p.chooser()
			r.forwards(c, rule, "sync2/handler2.(*Handler).AddToDeviceMessages", "handler", "messages received may not be stored", nil, nil,
				callTo(c, nToDev+"InsertMessages", "", "$2", "$3", "$4"))
		})
		r.Floor(rule, 9)
	})
}

func isErr(v ssa.Value) bool {
	return types.Identical(v.Type(), types.Universe.Lookup("error").Type()) && !isNilConst(v)
}

// sinceUnset: the condition is that since (as changed in place) is empty.
func sinceUnset(c *chooser, cd Cond) bool {
	b, ok := cd.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		if k, ok := strConst(pr[1]); ok && k == "" {
			for pa := range c.Paths(pr[0], cd.E) {
				if pa != "$0.Since" && pa != `""` && pa != "zero" {
					return false
				}
			}
			return cd.Pol == (b.Op == token.EQL)
		}
	}
	return false
}

// lastOf: the field of the last item of a slice.
func lastOf(v ssa.Value, field string) bool {
	var ia ssa.Value
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == field {
			ia = fa.X
		} else {
			ia = x.X
		}
	case *ssa.FieldAddr:
		ia = x.X
	case *ssa.IndexAddr:
		ia = x
	}
	x, ok := ia.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	b, ok := x.Index.(*ssa.BinOp)
	if !ok || b.Op != token.SUB || !isIntConst(b.Y, 1) {
		return false
	}
	cl, ok := b.X.(*ssa.Call)
	return ok && callName(&cl.Call) == "builtin.len"
}

// lastTurn: the field of the item of the last turn of a loop through all of them.
func lastTurn(v ssa.Value, coll func(ssa.Value) bool, field string) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok || !isHeader(ph.Block()) {
		return false
	}
	rv := wholeLoop(ph.Block())
	if rv == nil || !coll(rv) {
		return false
	}
	for i, ed := range ph.Edges {
		if !ph.Block().Dominates(ph.Block().Preds[i]) {
			continue
		}
		u, ok := ed.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != field {
			return false
		}
		ia, ok := fa.X.(*ssa.IndexAddr)
		if !ok || !coll(ia.X) {
			return false
		}
		if b, ok := ia.Index.(*ssa.BinOp); !ok || b.Op != token.ADD || !isIntConst(b.Y, 1) || b.Block() != ph.Block() {
			if p2, ok := ia.Index.(*ssa.Phi); !ok || p2.Block() != ph.Block() {
				return false
			}
		}
	}
	return true
}

// scannedFrom: the value is what a query which selects the column put there.
func (p *Prog) scannedFrom(v ssa.Value, col string) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		if fv, isF := u.X.(*ssa.FreeVar); isF {
			al, ok = freeVarBinding(fv).(*ssa.Alloc)
		}
		if !ok {
			return false
		}
	}
	found := false
	for _, use := range refs(al) {
		if st, ok := use.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			return false
		}
	}
	for _, st := range p.Statements() {
		if strings.Contains(strings.ToLower(st.Query), "select "+col+" ") {
			for _, g := range append([]*ssa.Function{st.Fn}, withClosures(st.Fn)...) {
				if g == al.Parent() {
					found = true
				}
			}
		}
	}
	return found
}
