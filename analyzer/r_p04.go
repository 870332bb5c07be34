package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const withTxn = "sqlutil.WithTransaction"

func isTxType(t types.Type) bool {
	n := t.String()
	return n == "*github.com/jmoiron/sqlx.Tx" || n == "*database/sql.Tx"
}

// txParam: index of the first transaction parameter, or -1.
func txParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isTxType(p.Type()) {
			return i
		}
	}
	return -1
}

// dbStmt: an operation straight on the connection pool.
func dbStmt(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := callName(c.Common())
	if !strings.HasPrefix(n, "github.com/jmoiron/sqlx.(*DB).") && !strings.HasPrefix(n, "database/sql.(*DB).") {
		return false
	}
	switch n[strings.LastIndex(n, ".")+1:] {
	case "Rebind", "Close", "SetMaxOpenConns", "SetMaxIdleConns", "SetConnMaxIdleTime", "SetConnMaxLifetime", "Stats", "DriverName", "BindNamed", "Ping", "PingContext", "Unsafe", "MapperFunc":
		return false
	}
	return true
}

// underNilTxn: the block is only reached when the function's transaction argument is nil.
func underNilTxn(fn *ssa.Function, b *ssa.BasicBlock) bool {
	ti := txParam(fn)
	if ti < 0 {
		return false
	}
	tx := fn.Params[ti]
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
		if !((bo.X == tx && isNil(bo.Y)) || (bo.Y == tx && isNil(bo.X))) {
			continue
		}
		if (bo.Op.String() == "==" && p.Succs[0] == d) || (bo.Op.String() == "!=" && p.Succs[1] == d) {
			return true
		}
	}
	return false
}

// poolFuncs: functions which may operate on the pool directly, other than when handed no transaction.
func poolFuncs(p *Prog) map[*ssa.Function]bool {
	return p.relevantFuncs(func(in ssa.Instruction) bool {
		return dbStmt(in) && !underNilTxn(in.Parent(), in.Block())
	})
}

// txScope: the functions and closures running inside a transaction they were handed.
func txScope(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.All {
		if fn.Synthetic != "" || relPkg(fnPkg(fn).Path()) == "state/migrations" {
			continue
		}
		if txParam(fn) >= 0 {
			for _, g := range withClosures(fn) {
				if !seen[g] {
					seen[g] = true
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func init() {
	reg("P04", "a transaction is committed only when its body returned no error and did not panic, is rolled back otherwise, and a failed commit is reported", p04With)
	reg("P04", "code running inside a transaction never touches the database outside it", p04Inside)
	reg("P04", "no storage operation makes two separately committed writes", p04Single)
	reg("P04", "transactions are only ever opened by the commit-or-rollback helper", func(r *Report) {
		const rule = "one-transaction-helper"
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			c := asCall(in)
			if c == nil {
				return
			}
			n := callName(c)
			if !strings.HasPrefix(n, "github.com/jmoiron/sqlx.(*") && !strings.HasPrefix(n, "database/sql.(*") {
				return
			}
			m := n[strings.LastIndex(n, ".")+1:]
			switch m {
			case "Begin", "Beginx", "BeginTx", "BeginTxx", "MustBegin", "MustBeginTx", "Commit", "Rollback":
				r.Ob(rule, m+" in "+shortName(fn))
				if shortName(outer(fn)) != withTxn && !onlyFrom(r.P, outer(fn), withTxn) {
					r.Bad(rule, shortName(fn)+" "+m, r.at(in), "transaction control outside the helper which guarantees commit-or-rollback")
				}
			}
		})
		r.Floor(rule, 3)
	})
}

func p04With(r *Report) {
	const rule = "commit-only-on-success"
	root := r.Fn(withTxn)
	if root == nil {
		return
	}
	dyn := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
			return false
		}
		if _, b := c.Call.Value.(*ssa.Builtin); b {
			return false
		}
		_, ok = c.Call.Value.(*ssa.Parameter)
		return ok && errIndex(&c.Call) >= 0
	}
	commit := "github.com/jmoiron/sqlx.(*Tx).Commit"
	commit2 := "database/sql.(*Tx).Commit"
	rb, rb2 := "github.com/jmoiron/sqlx.(*Tx).Rollback", "database/sql.(*Tx).Rollback"
	const ran, recovered, fnOK, noPanic, committed, rolled = 1, 2, 4, 8, 16, 32
	n := 0
	r.Path(PathRule{Rule: rule, Root: root, Calls: []string{commit, commit2, rb, rb2, "builtin.recover", "github.com/jmoiron/sqlx.(*DB).Beginx"}, Inst: dyn,
		On: func(e Ev) Action {
			s := e.S
			switch {
			case dyn(e.In):
				s.Bits |= ran
			case e.Name == "builtin.recover":
				s.Bits |= recovered
			case e.Name == commit || e.Name == commit2:
				n++
				if s.Bits&ran == 0 {
					r.Bad(rule, "sqlutil.WithTransaction body", r.at(e.In), "commits without having run the body", s.Trace()...)
				}
				if s.Bits&fnOK == 0 {
					r.Bad(rule, "sqlutil.WithTransaction error", r.at(e.In), "commits although the body may have returned an error", s.Trace()...)
				}
				if e.Deferred || inDefer(s) {
					if s.Bits&recovered == 0 || s.Bits&noPanic == 0 {
						r.Bad(rule, "sqlutil.WithTransaction panic", r.at(e.In), "commits although the body may have panicked half way", s.Trace()...)
					}
				}
				s.Bits |= committed
			case e.Name == rb || e.Name == rb2:
				s.Bits |= rolled
			}
			return Go
		},
		Lit: func(x *Explorer, s *State, l Lit) {
			if l.Atom.Op != "eq" || l.Atom.Args[1].Op != "nil" || !l.Pol {
				return
			}
			a := l.Atom.Args[0]
			if a.HasCall("recover") {
				s.Bits |= noPanic
			} else if s.Bits&ran != 0 && a.Op != "extract" {
				if a.CV.v != nil && isErrorType(a.CV.v.Type()) {
					s.Bits |= fnOK
				}
			}
		},
		Exit: func(x *Explorer, s *State, kind ExitKind, res []CV) {
			if kind != ExitReturn || s.Bits&ran == 0 {
				return
			}
			if s.Bits&(committed|rolled) == 0 {
				r.Bad(rule, "sqlutil.WithTransaction end", r.P.Pos(root.Pos()), "the transaction is left open on some path", s.Trace()...)
			}
		},
	})
	if n > 0 {
		r.Ob(rule, "commit")
	}
	r.Floor(rule, 1)
	failFlow(r, "transaction-failure-reported", root, dyn, callPred(commit, commit2), nil, true, false, "a failed transaction is reported as success", nil)
	failFlow(r, "transaction-failure-reported", root, callPred(commit, commit2), nil, nil, true, false, "a failed commit is reported as success", nil)
	failFlow(r, "transaction-failure-reported", root, callPred("github.com/jmoiron/sqlx.(*DB).Beginx"), dyn, nil, true, false, "the body runs without a transaction", nil)
	r.Floor("transaction-failure-reported", 3)
}

// inDefer: the current activation runs as (part of) a deferred call.
func inDefer(s *State) bool {
	for c := s.ctx; c != nil; c = c.parent {
		if _, ok := c.site.(*ssa.Defer); ok {
			return true
		}
	}
	return false
}

func p04Inside(r *Report) {
	const rule = "inside-transaction"
	pool := poolFuncs(r.P)
	for _, fn := range txScope(r.P) {
		fn := fn
		r.Ob(rule, shortName(fn))
		r.Touch(fn)
		fnInstrs(fn, func(in ssa.Instruction) {
			c := asCall(in)
			if c == nil {
				return
			}
			if dbStmt(in) && !underNilTxn(fn, in.Block()) {
				r.Bad(rule, shortName(fn)+" "+siteName(in), r.at(in), "the statement runs on the pool, outside the transaction this function was given: it survives a rollback and cannot see the transaction's writes")
				return
			}
			g := c.StaticCallee()
			if g == nil || !inModule(g) {
				return
			}
			if ti := txParam(g); ti >= 0 && ti < len(c.Args) {
				if k, ok := c.Args[ti].(*ssa.Const); ok && k.IsNil() {
					r.Bad(rule, shortName(fn)+" "+siteName(in), r.at(in), "no transaction is passed on, so this part is committed separately")
				}
				return
			}
			if pool[g] && g.Parent() == nil {
				r.Bad(rule, shortName(fn)+" "+siteName(in), r.at(in), "calls a function which uses the database outside the transaction this function was given")
			}
		})
	}
	r.Floor(rule, 40)
}

func p04Single(r *Report) {
	const rule = "single-commit"
	// writes that commit on their own: a pool write, or a whole transaction
	autoStmts := map[ssa.Instruction]bool{}
	for _, st := range r.P.Statements() {
		if !st.OnTx && st.isWrite() {
			autoStmts[st.In] = true
		}
	}
	writesInTx := map[ssa.Instruction]bool{}
	for _, st := range r.P.Statements() {
		if st.OnTx && st.isWrite() {
			writesInTx[st.In] = true
		}
	}
	txWriters := r.P.relevantFuncs(func(in ssa.Instruction) bool { return writesInTx[in] })
	auto := func(in ssa.Instruction) bool {
		if autoStmts[in] {
			return true
		}
		if calls(in, names{withTxn}) {
			for _, a := range asCall(in).Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					return txWriters[mc.Fn.(*ssa.Function)]
				}
				if f, ok := a.(*ssa.Function); ok {
					return txWriters[f]
				}
			}
			return true
		}
		return false
	}
	rel := r.P.relevantFuncs(auto)
	for _, fn := range r.P.All {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Signature.Recv() == nil {
			continue
		}
		pk := relPkg(fnPkg(fn).Path())
		if pk != "state" && pk != "sync2" {
			continue
		}
		if !strings.HasSuffix(typeName(fn.Signature.Recv().Type()), "Table") && !strings.HasPrefix(typeName(fn.Signature.Recv().Type()), "state.") {
			continue
		}
		if n := shortName(fn); n == "state.(*Storage).cleaner" || strings.HasSuffix(n, ").Cleaner") {
			continue // independent periodic jobs
		}
		if !rel[fn] || len(r.P.callersOf(fn)) == 0 {
			continue // does not write, or is not used by the program
		}
		found := false
		r.Path(PathRule{Rule: rule, Root: fn, Inst: auto, On: func(e Ev) Action {
			found = true
			if e.S.Bits&1 != 0 {
				r.Bad(rule, shortName(fn), r.at(e.In), "a second, separately committed write: a failure or crash between the two leaves half of the update", e.S.Trace()...)
			}
			e.S.Bits |= 1
			return Go
		}, Stop: func(f *ssa.Function) bool { return shortName(f) == withTxn }})
		if found {
			r.Ob(rule, shortName(fn))
		}
	}
	r.Floor(rule, 15)
}
