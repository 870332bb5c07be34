package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// firstWins: tables whose existing row must survive a second delivery unchanged.
var firstWins = map[string]bool{"syncv3_events": true, "syncv3_sync2_devices": true, "syncv3_sync2_tokens": true, "syncv3_txns": true}

func init() {
	reg("P08", "every insert into a table with a natural key names that key as its conflict target, and either leaves the row alone or overwrites every value with the newly delivered one", p08Inserts)
	reg("P08", "only events which were really new are put on the timeline, snapshotted and announced", p08NewOnly)
}

// constStrings: the string constants used in fn and its closures.
func constStrings(fn *ssa.Function) []string {
	var out []string
	for _, g := range withClosures(fn) {
		fnInstrs(g, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					out = append(out, constant.StringVal(k.Value))
				}
			}
		})
	}
	return out
}

func p08Inserts(r *Report) {
	const rule = "insert-idempotent"
	tabs := r.P.Tables()
	for _, st := range r.P.Statements() {
		if st.Verb != "INSERT" || inMigrations(st.Fn) {
			continue
		}
		r.Touch(st.Fn)
		q, table := st.Query, st.Table
		if table == "" && strings.Contains(strings.ToLower(q), "thread_id") {
			table = "%s" // the receipts template
		}
		name := fmt.Sprintf("%s %s", shortName(outer(st.Fn)), table)
		t := tabs[table]
		if t == nil {
			r.Bad(rule, name, r.at(st.In), "insert into a table whose definition is not known")
			continue
		}
		if len(t.Uniques) == 0 {
			continue // an append-only log (to-device messages, snapshots)
		}
		in := parseInsert(q)
		if strings.Contains(q, "%s") && in != nil { // assembled from parts: judge the parts
			txt := strings.ToLower(strings.Join(constStrings(st.Fn), " \n "))
			txt = wsRe.ReplaceAllString(txt, " ")
			if c := confRe.FindStringSubmatch(txt); c != nil {
				in = parseInsert("insert into x (" + strings.Join(t.Uniques[0], ",") + ") values () " + txt[strings.Index(txt, c[0]):])
			}
		}
		r.Ob(rule, name)
		if in == nil || in.Action == "" {
			r.Bad(rule, name, r.at(st.In), "delivering the same row twice fails the whole update: no conflict clause")
			continue
		}
		if in.HasConflictTgt {
			ok := false
			for _, u := range t.Uniques {
				ok = ok || sameSet(u, in.Conflict)
			}
			if !ok {
				r.Bad(rule, name, r.at(st.In), fmt.Sprintf("the conflict target (%s) is not a key of the table", strings.Join(in.Conflict, ",")))
			}
		} else if in.Action == "UPDATE" {
			r.Bad(rule, name, r.at(st.In), "an update on conflict without a key")
		}
		switch {
		case firstWins[table] && in.Action != "NOTHING":
			r.Bad(rule, name+" overwrite", r.at(st.In), "a second delivery overwrites what was stored first")
		case !firstWins[table] && in.Action == "NOTHING":
			r.Bad(rule, name+" stale", r.at(st.In), "a newer value for the same key is dropped")
		case in.Action == "UPDATE":
			key := map[string]bool{}
			for _, c := range in.Conflict {
				key[c] = true
			}
			val := map[string]string{}
			for i, c := range in.Cols {
				if i < len(in.Vals) {
					val[c] = in.Vals[i]
				}
			}
			for i, c := range in.Cols {
				if key[c] || strings.Contains(q, "%s") {
					continue
				}
				got, ok := in.Set[c]
				if !ok {
					r.Bad(rule, name+" "+c, r.at(st.In), "a newer value of "+c+" for the same key is dropped")
					continue
				}
				if !strings.EqualFold(got, "excluded."+c) && (i >= len(in.Vals) || got != in.Vals[i]) {
					r.Bad(rule, name+" "+c, r.at(st.In), fmt.Sprintf("on conflict %s becomes %s instead of the delivered value", c, got))
				}
			}
			for c, got := range in.Set {
				if key[c] {
					r.Bad(rule, name+" "+c, r.at(st.In), "the key itself is changed")
				}
				if _, inserted := val[c]; !inserted && !strings.Contains(q, "%s") && !(t.Serial[c] && strings.Contains(got, "nextval")) {
					r.Bad(rule, name+" "+c, r.at(st.In), fmt.Sprintf("on conflict %s becomes %s, which was not delivered", c, got))
				}
			}
			if table == "%s" { // receipts: only real changes are returned, since those are what is announced
				w := strings.ToLower(strings.ReplaceAll(in.ActionWhere, " ", ""))
				ok := w == "old.event_id<>excluded.event_id" || w == "excluded.event_id<>old.event_id" || w == "old.event_id!=excluded.event_id" || strings.Contains(w, "isdistinctfrom")
				if !ok {
					r.Bad(rule, name+" repeats", r.at(st.In), "a receipt delivered again is reported as new (or a new one is not): "+in.ActionWhere)
				}
			} else if in.ActionWhere != "" {
				r.Bad(rule, name+" where", r.at(st.In), "the newer value is only stored when "+in.ActionWhere)
			}
		}
	}
	r.Floor(rule, 14)
	// seq columns which order updates move on when a row is overwritten
	for _, st := range r.P.Statements() {
		if in := parseInsert(st.Query); st.Verb == "INSERT" && in != nil && in.Action == "UPDATE" && !inMigrations(st.Fn) {
			if t := tabs[st.Table]; t != nil {
				for c := range t.Serial {
					r.Ob("sequence-moves", st.Table)
					if !strings.Contains(in.Set[c], "nextval") {
						r.Bad("sequence-moves", shortName(outer(st.Fn))+" "+c, r.at(st.In), "an overwritten row keeps its old position, so readers waiting for changes miss it")
					}
				}
			}
		}
	}
	r.Floor("sequence-moves", 2)
}

// isAppendTo: in appends to a slice of the named element type.
func isAppendTo(in ssa.Instruction, elem string) bool {
	c, ok := in.(*ssa.Call)
	if !ok || callName(&c.Call) != "builtin.append" {
		return false
	}
	sl, ok := c.Type().Underlying().(*types.Slice)
	return ok && typeName(sl.Elem()) == elem
}

func isNamedSlice(in ssa.Instruction) bool {
	_, ok := in.(*ssa.Call).Type().(*types.Named)
	return ok
}

// isOK: whether a lookup found something.
func isOK(v ssa.Value) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return false
	}
	_, ok = ex.Tuple.(*ssa.Lookup)
	return ok
}

func p08NewOnly(r *Report) {
	const rule = "new-events-only"
	const inserted, isNew = 1, 2
	for _, rn := range []string{"state.(*Accumulator).Accumulate", "state.(*Accumulator).Initialise"} {
		root := r.Fn(rn)
		seen := map[ssa.Instruction]bool{}
		nids := fieldStore("state.AccumulateResult", "TimelineNIDs")
		r.Path(PathRule{Rule: rule, Root: root, Calls: []string{evInsert},
			Inst: func(in ssa.Instruction) bool {
				return nids(in) || (isAppendTo(in, "state.Event") && !isNamedSlice(in) && relPkg(pkgPath(outer(in.Parent()))) == "state" && !strings.Contains(shortName(outer(in.Parent())), "Table)."))
			},
			Stop: func(f *ssa.Function) bool { return strings.HasSuffix(shortName(f), "Table)."+f.Name()) },
			On: func(e Ev) Action {
				if e.Name == evInsert {
					e.S.Bits |= inserted
					return Go
				}
				if e.S.Bits&inserted == 0 {
					return Go
				}
				seen[e.In] = true
				if e.S.Bits&isNew == 0 {
					r.Bad(rule, rn, r.at(e.In), "an event which was already stored is treated as new ("+describe(e.In)+")", e.S.Trace()...)
				}
				return Go
			},
			Lit: func(x *Explorer, s *State, l Lit) {
				if l.Atom.Op == "extract" && l.Atom.Args[0].Op == "lookup" && l.Atom.HasCall("EventTable).Insert") {
					s.Bits &^= isNew
					if l.Pol {
						s.Bits |= isNew
					}
				}
			},
			Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) { s.Bits &^= isNew }})
		for in := range seen {
			r.Ob(rule, rn+" at "+r.at(in))
		}
	}
	r.P.withOpaque(p06Tables(r.P), func() {
		c := r.P.chooser()
		p06Inserted(r, c, "state.(*Accumulator).Initialise", func(ins *ssa.Call, ie *Env, none CondGuard) {
			f := r.P.fwd(c, func(string) bool { return false }, nil, func(ssa.Instruction, *Env) bool { return false })
			f.isItem = func(v ssa.Value, e *Env) bool { return e == ie && sameVar(v, ins.Call.Args[2]) }
			for _, e := range r.P.closureEnvs(r.Fn("state.(*Accumulator).Initialise")) {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					cl := asCall(in)
					if cl == nil || callName(cl) != mapIngest {
						return
					}
					r.Ob(rule, "taken into the state at "+r.at(in))
					h := innermostLoop(in.Block())
					if h == nil {
						return
					}
					// straight from all of the events: only those which are new
					if rv := wholeLoop(h); rv != nil && f.isItem(rv, e) && !c.knownAt(in, e, func(cd Cond) bool { return none(Cond{cd.V, !cd.Pol, cd.E}) && isOK(cd.V) }) {
						r.Bad(rule, "state.(*Accumulator).Initialise state", r.at(in), "an event which was already stored is treated as new state")
					}
				})
			}
		})
	})
	r.Floor(rule, 3)
	// one upstream timeline never contains the same event twice
	const rule2 = "timeline-deduplicated"
	root := r.Fn("state.parseAndDeduplicateTimelineEvents")
	const fresh, noted, appended = 1, 2, 4
	n := 0
	r.Path(PathRule{Rule: rule2, Root: root, Inst: func(in ssa.Instruction) bool {
		_, mu := in.(*ssa.MapUpdate)
		return mu || isAppendTo(in, "state.Event")
	}, On: func(e Ev) Action {
		if m, ok := e.In.(*ssa.MapUpdate); ok {
			if t := e.X.Term(e.S, mkCV(e.S.ctx, m.Key)); t.Op == "field" && t.Name == "ID" {
				e.S.Bits |= noted
			}
			return Go
		}
		n++
		e.S.Bits |= appended
		if e.S.Bits&fresh == 0 {
			r.Bad(rule2, shortName(root), r.at(e.In), "an event can be taken twice from one timeline", e.S.Trace()...)
		}
		return Go
	},
		Lit: func(x *Explorer, s *State, l Lit) {
			if l.Atom.Op == "extract" && l.Atom.Args[0].Op == "lookup" {
				if k := l.Atom.Args[0].Args[1]; k.Op == "field" && k.Name == "ID" && !l.Pol {
					s.Bits |= fresh
				}
			}
		},
		Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
			if s.Bits&appended != 0 && s.Bits&noted == 0 {
				r.Bad(rule2, shortName(root)+" noted", r.P.Pos(root.Pos()), "an event is taken without being remembered", s.Trace()...)
			}
			s.Bits = 0
		}})
	if n > 0 {
		r.Ob(rule2, "append")
	}
	r.Floor(rule2, 1)
}
