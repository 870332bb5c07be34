package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dbCall: a database operation that can fail and whose failure matters.
func dbCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	n := callName(&c.Call)
	if !strings.HasPrefix(n, "github.com/jmoiron/sqlx.") && !strings.HasPrefix(n, "database/sql.") {
		return false
	}
	if strings.HasSuffix(n, ").Close") || strings.HasSuffix(n, ").Rollback") || strings.HasSuffix(n, ").RowsAffected") || strings.Contains(n, "Must") {
		return false
	}
	return errIndex(&c.Call) >= 0
}

var dbFuncsCache map[*ssa.Function]bool

// dbFuncs: functions which (transitively) perform database operations.
func dbFuncs(p *Prog) map[*ssa.Function]bool {
	if dbFuncsCache == nil {
		dbFuncsCache = p.relevantFuncs(dbCall)
	}
	return dbFuncsCache
}

// storageCall: a database operation, or a call of a module function which performs one and returns an error.
func storageCall(p *Prog) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		if dbCall(in) {
			return true
		}
		c, ok := in.(*ssa.Call)
		if !ok || errIndex(&c.Call) < 0 {
			return false
		}
		fn := c.Call.StaticCallee()
		return fn != nil && fn.Parent() == nil && shortName(fn) != "sqlutil.WithTransaction" && dbFuncs(p)[fn]
	}
}

// errSurfaced: every failing storage call in fn is visible in fn's result.
func errSurfaced(r *Report, rule string, fn *ssa.Function, what string) {
	site := storageCall(r.P)
	failFlowOpt(r, rule, fn, site, func(f *ssa.Function) bool {
		return f.Parent() == nil && shortName(f) != "sqlutil.WithTransaction" && hasErr(f)
	}, what)
}

func hasErr(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isErrorType(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func failFlowOpt(r *Report, rule string, root *ssa.Function, site func(ssa.Instruction) bool, stop func(*ssa.Function) bool, what string) {
	sites := map[ssa.Instruction]bool{}
	r.Explore(root, &Query{
		Relevant: site,
		Stop:     stop,
		FailSite: func(in ssa.Instruction) bool {
			if site(in) {
				sites[in] = true
				return true
			}
			return false
		},
		Exit: func(x *Explorer, s *State, kind ExitKind, results []CV) {
			if !s.Track || kind != ExitReturn {
				return
			}
			if bad, how := swallowed(x, s, results); bad {
				r.Bad(rule, shortName(root)+" <- "+siteName(s.Site), r.P.InstrPos(s.Site), what+": "+siteName(s.Site)+" fails and "+shortName(root)+" "+how, s.Trace()...)
			}
		},
	})
	for in := range sites {
		r.Ob(rule, shortName(root)+" <- "+siteName(in)+" at "+r.P.InstrPos(in))
	}
}

func init() {
	reg("P05", "every failing database operation is visible in the result of the storage function performing it", func(r *Report) {
		const rule = "storage-error-surfaced"
		for _, fn := range r.P.All {
			if fn.Parent() != nil || fn.Synthetic != "" || !hasErr(fn) {
				continue
			}
			pk := relPkg(fnPkg(fn).Path())
			if pk != "state" && pk != "sync2" && pk != "sqlutil" && pk != "state/migrations" {
				continue
			}
			if dbFuncs(r.P)[fn] {
				errSurfaced(r, rule, fn, "a failed database operation is taken for success")
			}
		}
		r.Floor(rule, 120)
	})
	reg("P05", "a result set is only trusted once its error has been checked", func(r *Report) {
		const rule = "rows-complete"
		isRows := func(n, m string) bool {
			return n == "database/sql.(*Rows)."+m || n == "github.com/jmoiron/sqlx.(*Rows)."+m
		}
		calls := []string{"database/sql.(*Rows).Next", "github.com/jmoiron/sqlx.(*Rows).Next", "database/sql.(*Rows).Err", "github.com/jmoiron/sqlx.(*Rows).Err"}
		for _, fn := range r.P.All {
			fn := fn
			if fn.Parent() != nil {
				continue
			}
			has := false
			for _, g := range withClosures(fn) {
				fnInstrs(g, func(in ssa.Instruction) {
					if c := asCall(in); c != nil && isRows(callName(c), "Next") {
						has = true
					}
				})
			}
			if !has {
				continue
			}
			r.Ob(rule, shortName(fn))
			const pending = 1
			r.Path(PathRule{Rule: rule, Root: fn, Calls: calls,
				On: func(e Ev) Action {
					if isRows(e.Name, "Err") {
						e.S.Bits &^= pending
					}
					return Go
				},
				Lit: func(x *Explorer, s *State, l Lit) {
					if l.Atom.Op == "call" && isRows(l.Atom.Name, "Next") {
						if !l.Pol {
							s.Bits |= pending
						} else {
							s.Bits &^= pending
						}
					}
				},
				Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
					if kind != ExitReturn || s.Bits&pending == 0 {
						return
					}
					if len(res) > 0 {
						last := res[len(res)-1]
						if k, isNil := x.KnownNil(s, last); k && !isNil && errLike(last.v.Type()) {
							return
						}
					}
					r.Bad(rule, shortName(fn), r.P.Pos(fn.Pos()), "the rows read so far are used as the whole result without checking why there were no more", s.Trace()...)
				}})
		}
		r.Floor(rule, 12)
	})
}
