package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P02", "a failure while storing comes back to whoever asked for it to be stored", func(r *Report) {
		const rule = "store-failure-reported"
		todo := map[*ssa.Function]bool{}
		var roots []*ssa.Function
		for _, a := range announcements() {
			if fn := r.P.Funcs[a.store]; fn != nil {
				roots = append(roots, fn)
			}
		}
		if fn := r.P.Funcs["state.(*DeviceDataTable).Upsert"]; fn != nil {
			roots = append(roots, fn)
		}
		for _, root := range roots {
			for f := range r.P.reachable(root) {
				todo[outer(f)] = true
			}
			todo[root] = true
		}
		for _, fn := range r.P.All { // in a fixed order
			if !todo[fn] || fn.Parent() != nil || fn.Synthetic != "" || !hasErr(fn) || !dbFuncs(r.P)[fn] {
				continue
			}
			if pk := relPkg(fnPkg(fn).Path()); pk == "state" || pk == "sqlutil" {
				errSurfaced(r, rule, fn, "a change which could not be stored is taken for stored")
			}
		}
		r.Floor(rule, 20)
	})
	reg("P02", "the announcement names all of what was stored", func(r *Report) {
		const rule = "announced-completely"
		p := r.P
		p.withOpaque(p.pkgFuncs("state"), func() {
			c := p.chooser()
			root := r.Fn("sync2/handler2.(*Handler).OnAccountData")
			if root == nil {
				return
			}
			f := p.fwd(c, isPath("state.(*Storage).InsertAccountData(*"), nil, func(ssa.Instruction, *Env) bool { return false })
			for _, e := range p.contexts(root) {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					if st, ok := in.(*ssa.Store); ok && fieldStore("pubsub.V2AccountData", "Types")(in) {
						r.Ob(rule, "account data types")
						if !f.covers(st.Val, e) {
							r.Bad(rule, shortName(root), r.at(in), "not all of the account data which was stored is announced")
						}
					}
				})
			}
		})
		// the number of new events is the number of events stored
		p.withOpaque(append(p06Tables(p), calcSnap), func() {
			c := p.chooser()
			root := r.Fn("state.(*Accumulator).Accumulate")
			if root == nil {
				return
			}
			f := p.fwd(c, func(string) bool { return false }, nil, func(ssa.Instruction, *Env) bool { return false })
			for _, e := range p.closureEnvs(root) {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					st, ok := in.(*ssa.Store)
					if !ok || !fieldStore("state.AccumulateResult", "NumNew")(in) {
						return
					}
					r.Ob(rule, "number of new events")
					cl, ok := st.Val.(*ssa.Call)
					if !ok || callName(&cl.Call) != "builtin.len" {
						if _, isPhi := st.Val.(*ssa.Phi); isPhi {
							return // counted
						}
						if b, isB := st.Val.(*ssa.BinOp); isB && innermostLoop(b.Block()) != nil {
							return // counted
						}
						r.Bad(rule, "state.(*Accumulator).Accumulate count", r.at(in), "the number of new events is not the number of events stored")
						return
					}
					_ = f
					if sl, ok := cl.Call.Args[0].(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
						r.Bad(rule, "state.(*Accumulator).Accumulate count", r.at(in), "the number of new events is not the number of events stored")
					}
				})
			}
		})
		r.Floor(rule, 2)
	})
	reg("P22", "changes are announced in the order in which they were stored", func(r *Report) {
		const rule = "announced-in-order"
		p := r.P
		for _, a := range announcements() {
			root := p.Funcs["sync2/handler2.(*Handler)."+a.method]
			if root == nil {
				continue
			}
			r.Ob(rule, a.method+" "+a.payload)
			for f := range p.reachable(root) {
				if relPkg(pkgPath(f)) != "sync2/handler2" {
					continue
				}
				fnInstrs(f, func(in ssa.Instruction) {
					g, ok := in.(*ssa.Go)
					if !ok {
						return
					}
					bad := callName(&g.Call) == notify
					for _, v := range append([]ssa.Value{g.Call.Value}, g.Call.Args...) {
						mc, ok := v.(*ssa.MakeClosure)
						if !ok {
							if fn, isF := v.(*ssa.Function); isF {
								for h := range p.reachable(fn) {
									fnInstrs(h, func(in ssa.Instruction) { bad = bad || callPred(notify)(in) })
								}
							}
							continue
						}
						for h := range p.reachable(mc.Fn.(*ssa.Function)) {
							if strings.HasPrefix(relPkg(pkgPath(h)), "sync2") {
								fnInstrs(h, func(in ssa.Instruction) { bad = bad || callPred(notify)(in) })
							}
						}
					}
					if bad {
						r.Bad(rule, shortName(outer(f)), r.at(in), "the change is announced from another goroutine, so later ones may overtake it")
					}
				})
			}
		}
		r.Floor(rule, 8)
	})
}
