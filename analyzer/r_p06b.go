package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	calcSnap  = "state.(*Accumulator).calculateNewSnapshot"
	mapIngest = "state.(*stateMap).Ingest"
)

func init() {
	reg("P06", "every event which was newly stored is carried through: tagged with its snapshot, taken into the room's state, and used for invites and space relations", func(r *Report) { p06Carried(r, "P06") })
	reg("P22", "every event which was newly stored is among those announced", func(r *Report) { p06Carried(r, "P22") })
	reg("P06", "rolling a snapshot forward keeps every other event of the old one, and names the event it replaced", p06Roll)
	reg("P06", "an event counts as state exactly if it has a state key, and a state event records which event it replaced", p06Replaces)
}

// p06Inserted: the places where new events are stored, with the conditions which exempt an event from what follows.
func p06Inserted(r *Report, c *chooser, root string, do func(in *ssa.Call, e *Env, none CondGuard)) {
	p := r.P
	fn := r.Fn(root)
	if fn == nil {
		return
	}
	for _, e := range p.closureEnvs(fn) {
		e := e
		if !strings.HasPrefix(shortName(outer(e.fn)), "state.(*Accumulator)") && relPkg(pkgPath(outer(e.fn))) != "state" {
			continue
		}
		fnInstrs(e.fn, func(in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok || callName(&cl.Call) != evInsert {
				return
			}
			if strings.HasSuffix(shortName(outer(e.fn)), "Table)."+outer(e.fn).Name()) {
				return
			}
			do(cl, e, func(cd Cond) bool {
				if c.emptyOf(cd, func(v ssa.Value, e *Env) bool {
					return p.resultOf(v, evInsert) || strings.HasPrefix(c.Path(v, e), evInsert+"(")
				}) {
					return true
				}
				ex, ok := cd.V.(*ssa.Extract)
				if !ok || ex.Index != 1 || cd.Pol {
					return false
				}
				lk, ok := ex.Tuple.(*ssa.Lookup)
				return ok && (p.resultOf(lk.X, evInsert) || strings.HasPrefix(c.Path(lk.X, cd.E), evInsert+"("))
			})
		})
	}
}

// resultOf: all that v may be is a result of the named function.
func (p *Prog) resultOf(v ssa.Value, name string) bool {
	any := false
	for _, s := range p.sources(v) {
		if !isResultOf(s, name) {
			return false
		}
		any = true
	}
	return any
}

func p06Carried(r *Report, prop string) {
	rule := "new-events-carried"
	if prop == "P22" {
		rule = "new-events-announced"
	}
	p := r.P
	op := append(names{calcSnap}, p06Tables(p)...)
	p.withOpaque(op, func() {
		c := p.chooser()
		for _, root := range []string{"state.(*Accumulator).Accumulate", "state.(*Accumulator).Initialise"} {
			root := root
			p06Inserted(r, c, root, func(ins *ssa.Call, ie *Env, none CondGuard) {
				r.Touch(ie.fn)
				evs := ins.Call.Args[2]
				type step struct {
					what, miss string
					want       func(f *fwd, in ssa.Instruction, e *Env) bool
				}
				list := func(name string) func(f *fwd, in ssa.Instruction, e *Env) bool {
					return func(f *fwd, in ssa.Instruction, e *Env) bool {
						cl := asCall(in)
						return cl != nil && callName(cl) == name && f.covers(cl.Args[len(cl.Args)-1], e)
					}
				}
				isCall := func(name string) func(f *fwd, in ssa.Instruction, e *Env) bool {
					return func(f *fwd, in ssa.Instruction, e *Env) bool {
						cl := asCall(in)
						return cl != nil && callName(cl) == name
					}
				}
				var steps []step
				if prop == "P06" {
					steps = append(steps, step{"invites", "invites which a new event supersedes may stay: not every new event is looked at", list(supersede)},
						step{"spaces", "space relations which a new event changes may stay: not every new event is looked at", list(spacesUpd)})
				}
				if strings.HasSuffix(root, "Accumulate") {
					if prop == "P06" {
						steps = append(steps, step{"tagged", "a new timeline event may be left without the snapshot before it", isCall(updBefore)})
					} else {
						steps = append(steps, step{"announced", "a new timeline event may be missing from those announced", func(f *fwd, in ssa.Instruction, e *Env) bool {
							st, ok := in.(*ssa.Store)
							if !ok || !fieldStore("state.AccumulateResult", "TimelineNIDs")(in) {
								return false
							}
							if f.covers(st.Val, e) {
								return true
							}
							cl, ok := st.Val.(*ssa.Call)
							return ok && callName(&cl.Call) == "builtin.append"
						}})
					}
				} else if prop == "P06" && p.Funcs[mapIngest] != nil {
					steps = append(steps, step{"state", "a new state event may be left out of the room's state, or be entered without its position", func(f *fwd, in ssa.Instruction, e *Env) bool {
						cl := asCall(in)
						return cl != nil && callName(cl) == mapIngest && p06HasNID(p, c, cl.Args[len(cl.Args)-1], e)
					}})
				}
				for _, s := range steps {
					s := s
					r.Ob(rule, root+" "+s.what)
					var f *fwd
					f = p.fwd(c, func(string) bool { return false }, none, func(in ssa.Instruction, e *Env) bool { return s.want(f, in, e) })
					f.errs = true
					f.isItem = func(v ssa.Value, e *Env) bool { return e == ie && sameVar(v, evs) }
					at, e := ssa.Instruction(ins), ie
					bad := f.after(at, e)
					for bad != nil && e.up != nil && e.args != nil && len(e.fn.Params) == len(e.args) {
						at, e = e.site, e.up // the events may be dealt with by the caller
						f.isItem = func(v ssa.Value, e2 *Env) bool {
							if e2 == ie && sameVar(v, evs) {
								return true
							}
							for i, a := range ie.args {
								if ssa.Value(ie.fn.Params[i]) == evs && e2 == ie.up && sameVar(v, a) {
									return true
								}
							}
							return false
						}
						bad = f.after(at, e)
					}
					if bad != nil {
						r.Bad(rule, root+" "+s.what, r.at(ins), s.miss)
					}
				}
			})
		}
	})
	r.Floor(rule, map[string]int{"P06": 6, "P22": 1}[prop])
}

// p06Tables: the functions of the tables of the state package.
func p06Tables(p *Prog) names {
	var out names
	for _, n := range p.pkgFuncs("state") {
		if strings.Contains(n, "Table).") {
			out = append(out, n)
		}
	}
	return out
}

// p06HasNID: the event has the position under which it was stored.
func p06HasNID(p *Prog, c *chooser, v ssa.Value, e *Env) bool {
	// an element of a slice: what was put there
	var elem func(v ssa.Value, e *Env, d int) bool
	elem = func(v ssa.Value, e *Env, d int) bool {
		if d > 6 {
			return false
		}
		any := false
		for _, ch := range c.Of(v, []string{"NID"}, e) {
			if strings.HasPrefix(ch.Path, evInsert+"(") {
				any = true
			} else if ch.Path != "zero" {
				any = any || false
			}
		}
		if any {
			return true
		}
		var from func(v ssa.Value, e *Env, d int) bool // slice
		from = func(v ssa.Value, e *Env, d int) bool {
			if d > 8 || v == nil {
				return false
			}
			switch x := v.(type) {
			case *ssa.Phi:
				for _, ed := range x.Edges {
					if from(ed, e, d+1) {
						return true
					}
				}
			case *ssa.Call:
				if callName(&x.Call) == "builtin.append" {
					for _, el := range appendElems(x) {
						if elem(el, e, d+1) {
							return true
						}
					}
					return from(x.Call.Args[0], e, d+1)
				}
				if ne := e.enter(&x.Call, x); ne != nil {
					res := false
					fnInstrs(ne.fn, func(in ssa.Instruction) {
						if ret, ok := in.(*ssa.Return); ok {
							for _, rv := range ret.Results {
								res = res || from(rv, ne, d+1)
							}
						}
					})
					return res
				}
			case *ssa.Extract:
				if cl, ok := x.Tuple.(*ssa.Call); ok {
					return from(cl, e, d+1)
				}
			case *ssa.Parameter:
				if e.up != nil && paramIndex(x) < len(e.args) {
					return from(e.args[paramIndex(x)], e.up, d+1)
				}
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, st := range storesTo(al) {
						if from(st.Val, e, d+1) {
							return true
						}
					}
				}
			}
			return false
		}
		var base func(v ssa.Value, d int) bool
		base = func(v ssa.Value, d int) bool {
			if d > 6 {
				return false
			}
			switch x := v.(type) {
			case *ssa.UnOp:
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					return from(ia.X, e, d+1)
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, st := range storesTo(al) {
						if base(st.Val, d+1) {
							return true
						}
					}
				}
			case *ssa.Parameter:
				if e.up != nil && paramIndex(x) < len(e.args) {
					return elem(e.args[paramIndex(x)], e.up, d+1)
				}
			}
			return false
		}
		return base(v, 0)
	}
	return elem(v, e, 0)
}

func p06Roll(r *Report) {
	const rule = "roll-forward"
	p := r.P
	fn := r.Fn(calcSnap)
	if fn == nil {
		return
	}
	c := p.chooser()
	e := &Env{fn: fn}
	f := p.fwd(c, isPath("$1"), nil, func(ssa.Instruction, *Env) bool { return false })
	f.errs = true
	f.g = func(Cond) bool { return false }
	replaced := false
	fnInstrs(fn, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok || newError(ret) || len(ret.Results) != 3 {
			return
		}
		if !isNilConst(ret.Results[2]) {
			return
		}
		r.Ob(rule, "snapshot returned at "+r.at(in))
		if !f.covers(ret.Results[0], e) {
			r.Bad(rule, calcSnap+" old", r.at(in), "the new snapshot may lack events of the old one")
		}
		for _, ch := range c.Of(ret.Results[1], nil, e) {
			switch {
			case ch.Path == "zero" || ch.Path == "0":
			case ch.Path == "$1[].NID":
				replaced = true
			default:
				r.Bad(rule, calcSnap+" replaced", r.at(in), "the event named as replaced is "+ch.Path+", not one of the old snapshot")
			}
		}
	})
	r.Ob(rule, "replaced event named")
	if !replaced {
		r.Bad(rule, calcSnap+" replaced", p.Pos(fn.Pos()), "the event which was replaced is never named")
	}
	r.Floor(rule, 2)
}

// stateKeyExists: the value is whether the event has a state key.
func (p *Prog) stateKeyExists(v ssa.Value) bool {
	any := false
	for _, s := range p.sources(v) {
		cl, ok := s.(*ssa.Call)
		if !ok || !strings.HasSuffix(callName(&cl.Call), "Result).Exists") {
			return false
		}
		if !p.constArgs(cl.Call.Args[0])[`"state_key"`] {
			return false
		}
		any = true
	}
	return any
}

func p06Replaces(r *Report) {
	const rule = "state-events"
	p := r.P
	op := append(names{calcSnap}, p06Tables(p)...)
	p.withOpaque(op, func() {
		c := p.chooser()
		key := func(pol bool) CondGuard {
			return func(cd Cond) bool { return cd.Pol == pol && p.stateKeyExists(cd.V) }
		}
		isState := fieldStore("state.Event", "IsState")
		p06Inserted(r, c, "state.(*Accumulator).Accumulate", func(ins *ssa.Call, ie *Env, none CondGuard) {
			evs := ins.Call.Args[2]
			r.Ob(rule, "marked")
			f := p.fwd(c, func(string) bool { return false }, anyCond(none, key(false)), func(in ssa.Instruction, e *Env) bool {
				st, ok := in.(*ssa.Store)
				if !ok || !isState(in) {
					return false
				}
				if b, ok := boolConst(st.Val); ok {
					return b
				}
				return p.stateKeyExists(st.Val)
			})
			f.errs = true
			f.isItem = func(v ssa.Value, e *Env) bool { return e == ie && sameVar(v, evs) }
			bad := f.after(ins, ie)
			if bad != nil && ie.up != nil && ie.args != nil {
				f.isItem = func(v ssa.Value, e *Env) bool {
					if e == ie && sameVar(v, evs) {
						return true
					}
					for i, a := range ie.args {
						if i < len(ie.fn.Params) && ssa.Value(ie.fn.Params[i]) == evs && e == ie.up && sameVar(v, a) {
							return true
						}
					}
					return false
				}
				bad = f.after(ie.site, ie.up)
			}
			if bad != nil {
				r.Bad(rule, "state.(*Accumulator).Accumulate marked", r.at(ins), "a new event with a state key may not be treated as state")
			}
		})
		fn := r.Fn("state.(*Accumulator).Accumulate")
		if fn == nil {
			return
		}
		notState := func(cd Cond) bool {
			if cd.Pol {
				return false
			}
			for _, s := range p.sources(cd.V) {
				if isLoadOf(s, "state.Event", "IsState") {
					return true
				}
			}
			switch x := cd.V.(type) {
			case *ssa.Field:
				return fieldName(x.X.Type(), x.Field) == "IsState"
			case *ssa.UnOp:
				fa, ok := x.X.(*ssa.FieldAddr)
				return ok && fieldName(fa.X.Type(), fa.Field) == "IsState"
			}
			return key(false)(cd)
		}
		for _, e := range p.closureEnvs(fn) {
			fnInstrs(e.fn, func(in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && isState(in) {
					r.Ob(rule, "marks "+siteName(in))
					if b, ok := boolConst(st.Val); ok && b && !c.knownAt(in, e, key(true)) {
						r.Bad(rule, "state.(*Accumulator).Accumulate marks", r.at(in), "an event is treated as state although it may have no state key")
					}
				}
				cl := asCall(in)
				if cl == nil || callName(cl) != updBefore {
					return
				}
				r.Ob(rule, "replaces")
				any := false
				for _, ch := range c.Of(cl.Args[len(cl.Args)-1], nil, e) {
					if ch.fails() {
						continue
					}
					switch {
					case strings.HasPrefix(ch.Path, calcSnap+"(") && strings.HasSuffix(ch.Path, "#1"):
						any = true
					case ch.Path == "zero" || ch.Path == "0":
						if !ch.When(notState) && !c.knownAt(in, e, notState) {
							r.Bad(rule, "state.(*Accumulator).Accumulate replaces", r.at(in), "a state event may be stored without recording which event it replaced")
						}
					default:
						r.Bad(rule, "state.(*Accumulator).Accumulate replaces", r.at(in), "the event recorded as replaced is "+ch.Path)
					}
				}
				if !any {
					r.Bad(rule, "state.(*Accumulator).Accumulate replaces", r.at(in), "which event a state event replaced is never recorded")
				}
			})
		}
	})
	r.Floor(rule, 3)
}

// sameVar: the same value, or two reads of the same local variable.
func sameVar(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL || x.X != y.X {
		return false
	}
	switch x.X.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	}
	return false
}

// fails: the value goes with an error.
func (ch Choice) fails() bool {
	ret, ok := ch.At.(*ssa.Return)
	return ok && newError(ret)
}
