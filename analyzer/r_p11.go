package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P11", "the m.read and m.read.private parts of a receipt EDU are told apart when it is unpacked, and receipts are packed under the same name again", p11Edu)
	reg("P11", "public receipts are stored in the public table and private ones in the private table, and what is read back from or reported for the private table is marked private", p11Tables)
	reg("P11", "private receipts are handed only to their author's cache and public ones to the joined users; no new receipt is left out", p11Deliver)
	reg("P11", "a receipt is left out of a packed EDU only in favour of one by the same user on the same event, and an unthreaded one always wins", p11Clash)
}

// eduField: the index of the field with the JSON name in the type of the struct.
func jsonName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return ""
	}
	return strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
}

// eduPart: v reads the part of an EDU's content with a JSON name.
func eduPart(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Field:
		return jsonName(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return jsonName(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

const receiptT = "internal.Receipt"

// litStore: the value stored in a field of the struct v was loaded from (a composite literal), and whether it is a literal.
func litStore(v ssa.Value, field string) (val ssa.Value, lit bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil, false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	for _, r := range *a.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			lit = true
			if fieldName(fa.X.Type(), fa.Field) == field {
				for _, st := range storesTo(fa) {
					val = st.Val
				}
			}
		}
	}
	return val, lit
}

func p11Edu(r *Report) {
	const rule = "edu-parts"
	fn := r.Fn("state.UnpackReceiptsFromEDU")
	if fn == nil {
		return
	}
	c := r.P.chooser()
	top := &Env{fn: fn}
	fnInstrs(fn, func(in ssa.Instruction) {
		ret, ok := in.(*ssa.Return)
		if !ok || len(ret.Results) != 3 {
			return
		}
		for i, want := range []string{"m.read", "m.read.private"} {
			for _, l := range c.elemsIn(ret.Results[i], top) {
				name := "UnpackReceiptsFromEDU " + want
				r.Ob(rule, name)
				if l.Whole {
					r.Bad(rule, name, r.at(ret), "receipts come from "+describeVal(r.P, l.V))
					continue
				}
				user, lit := litStore(l.V, "UserID")
				if !lit || user == nil {
					r.Bad(rule, name, r.at(l.At), "a receipt without a user")
					continue
				}
				for _, s := range c.sourcesIn(user, l.E) {
					coll := rangeOver(s.V)
					if coll == nil {
						r.Bad(rule, name, r.at(l.At), fmt.Sprintf("a receipt from %s of the EDU is taken for an %s receipt", describeVal(r.P, s.V), want))
						continue
					}
					for _, cs := range c.sourcesIn(coll, s.E) {
						if part := eduPart(cs.V); part != want {
							r.Bad(rule, name, r.at(l.At), fmt.Sprintf("a receipt from the %s part of the EDU is taken for an %s receipt", part, want))
						}
					}
				}
				priv, _ := litStore(l.V, "IsPrivate")
				good := priv == nil && i == 0
				if priv != nil {
					good = true
					for _, s := range c.sourcesIn(priv, l.E) {
						b, isC := boolConst(s.V)
						good = good && isC && b == (i == 1)
					}
				}
				if !good {
					r.Bad(rule, name, r.at(l.At), "an "+want+" receipt is marked wrongly")
				}
			}
		}
	})
	r.Floor(rule, 2)

	const rule2 = "edu-packed"
	fn = r.Fn("state.PackReceiptsIntoEDU")
	if fn == nil {
		return
	}
	priv := func(want bool) CondGuard {
		return func(cd Cond) bool {
			if cd.Pol != want {
				return false
			}
			for _, s := range c.sourcesIn(cd.V, cd.E) {
				if !isLoadOf(s.V, receiptT, "IsPrivate") {
					return false
				}
			}
			return true
		}
	}
	for _, e := range r.P.closureEnvs(fn) {
		e := e
		fnInstrs(e.fn, func(in ssa.Instruction) {
			judge := func(part string) {
				name := "PackReceiptsIntoEDU " + part
				r.Ob(rule2, name)
				switch part {
				case "m.read":
					if !c.knownAt(in, e, priv(false)) {
						r.Bad(rule2, name, r.at(in), "a receipt is packed as m.read without checking that it is not private")
					}
				case "m.read.private":
					if !c.knownAt(in, e, priv(true)) {
						r.Bad(rule2, name, r.at(in), "a receipt is packed as m.read.private without checking that it is private")
					}
				}
			}
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if typeName(x.Value.Type()) != "state.receiptInfo" {
					return
				}
				for _, m := range c.sourcesIn(x.Map, e) {
					part := eduPart(m.V)
					if part == "m.read" || part == "m.read.private" {
						judge(part)
						continue
					}
					if _, ok := m.V.(*ssa.MakeMap); !ok {
						r.Ob(rule2, "PackReceiptsIntoEDU")
						r.Bad(rule2, "PackReceiptsIntoEDU "+part, r.at(in), "a receipt is packed into "+describeVal(r.P, m.V))
					}
				}
			case *ssa.Store:
				// a part is replaced by one which a helper function put together
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					return
				}
				if _, ok := x.Val.(*ssa.Call); ok && (jsonName(fa.X.Type(), fa.Field) == "m.read" || jsonName(fa.X.Type(), fa.Field) == "m.read.private") {
					judge(jsonName(fa.X.Type(), fa.Field))
				}
			}
		})
	}
	r.Floor(rule2, 2)
}

var unpackedPart = regexp.MustCompile(`UnpackReceiptsFromEDU\([^()]*\)#([0-9])`)

const privTable, pubTable = "syncv3_receipts_private", "syncv3_receipts"

func p11Tables(r *Report) {
	const rule = "tables"
	ins := r.Fn("state.(*ReceiptTable).Insert")
	if ins == nil {
		return
	}
	// which table is written with which receipts
	seen := map[string]bool{}
	r.Path(PathRule{Rule: rule, Root: ins, Calls: []string{"*sqlx.(*Tx).NamedQuery", "*sqlx.(*Tx).NamedExec"},
		Stop: func(f *ssa.Function) bool { return f.Name() == "UnpackReceiptsFromEDU" },
		On: func(e Ev) Action {
			table, not, other := pubTable, "1", "0"
			if strings.Contains(e.arg(1).String(), privTable) {
				table, not = privTable, other
			}
			data := e.arg(2).String()
			seen[table] = true
			r.Ob(rule, "Insert into "+table)
			if m := unpackedPart.FindAllStringSubmatch(data, -1); slices.ContainsFunc(m, func(x []string) bool { return x[1] == not }) {
				r.Bad(rule, "Insert into "+table, r.at(e.In), "receipts from "+data+" are stored in "+table, e.S.Trace()...)
			}
			return Go
		}})
	for _, t := range []string{pubTable, privTable} {
		if !seen[t] {
			r.Bad(rule, "Insert into "+t, r.P.Pos(ins.Pos()), "no receipts are stored in "+t)
		}
	}
	// what Insert reports
	const rule2 = "reported-mark"
	tab := ""
	r.Path(PathRule{Rule: rule2, Root: ins, Calls: []string{"*sqlx.(*Tx).NamedQuery", "*sqlx.(*Tx).NamedExec"}, Inst: func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		return ok && isFieldAddr(st.Addr, receiptT, "IsPrivate", "UserID") && outer(in.Parent()).Name() != "UnpackReceiptsFromEDU"
	}, Stop: func(f *ssa.Function) bool { return f.Name() == "UnpackReceiptsFromEDU" },
		On: func(e Ev) Action {
			const pub, priv, user = 1, 2, 4
			if asCall(e.In) != nil {
				tab = e.arg(1).String()
				e.S.Bits &^= pub | priv
				if strings.Contains(tab, privTable) {
					e.S.Bits |= priv
				} else {
					e.S.Bits |= pub
				}
				return Go
			}
			st := e.In.(*ssa.Store)
			if isFieldAddr(st.Addr, receiptT, "UserID") {
				r.Ob(rule2, "reported receipt")
				has := false
				fa := st.Addr.(*ssa.FieldAddr)
				if a, ok := fa.X.(*ssa.Alloc); ok {
					for _, rf := range *a.Referrers() {
						if f2, ok := rf.(*ssa.FieldAddr); ok && fieldName(f2.X.Type(), f2.Field) == "IsPrivate" {
							has = true
						}
					}
				}
				if !has && e.S.Bits&priv != 0 {
					r.Bad(rule2, "reported receipt", r.at(e.In), "a receipt stored in the private table is reported without the private mark", e.S.Trace()...)
				}
				return Go
			}
			tm := e.X.Term(e.S, mkCV(e.S.ctx, st.Val))
			t := tm.String()
			want := e.S.Bits&priv != 0
			got, ok := evalBool(tm)
			r.Ob(rule2, "reported mark "+t)
			if !ok || got != want {
				r.Bad(rule2, "reported receipt", r.at(e.In), fmt.Sprintf("a receipt stored by %q is reported with IsPrivate=%s", tab, t), e.S.Trace()...)
			}
			return Go
		}})
	r.Floor(rule2, 2)
	// what is read back
	const rule3 = "read-mark"
	for _, st := range r.P.Statements() {
		if st.Verb != "SELECT" || inMigrations(st.Fn) {
			continue
		}
		isPriv := false
		for _, t := range st.tables() {
			isPriv = isPriv || t == privTable
		}
		if !isPriv {
			continue
		}
		r.Touch(st.Fn)
		name := shortName(outer(st.Fn))
		r.Ob(rule3, name)
		if len(st.tables()) > 1 {
			r.Bad(rule3, name, r.at(st.In), "private receipts are read together with other receipts")
			continue
		}
		// the destination of the rows
		var dest *ssa.Alloc
		for _, a := range st.In.Common().Args {
			if al, ok := stripIface(a).(*ssa.Alloc); ok {
				dest = al
			}
		}
		if dest == nil {
			r.Bad(rule3, name, r.at(st.In), "the rows of the private table are not read into a local variable")
			continue
		}
		// every element is marked, in place or when it is copied, in a loop which comes before any other use
		mark, of := p11Marks(st.Fn, func(v ssa.Value) bool { ld, ok := v.(*ssa.UnOp); return ok && ld.X == dest })
		if mark == nil {
			r.Bad(rule3, name, r.at(st.In), "receipts read from the private table are not marked private")
			continue
		}
		if of == nil {
			r.Bad(rule3, name, r.at(mark), "some receipts read from the private table are not marked private")
			continue
		}
		for _, rf := range *dest.Referrers() {
			u, ok := rf.(*ssa.UnOp)
			if !ok || u.Block() == of || of.Dominates(u.Block()) {
				continue
			}
			for _, x := range *u.Referrers() {
				if c := asCall(x); c != nil && (callName(c) == "builtin.len" || x == mark) {
					continue
				}
				if _, isRange := x.(*ssa.IndexAddr); isRange && of.Dominates(x.Block()) {
					continue
				}
				if ret, ok := x.(*ssa.Return); ok && isErr(ret.Results[len(ret.Results)-1]) && !isNilConst(ret.Results[len(ret.Results)-1]) {
					continue // the error is what counts
				}
				r.Bad(rule3, name, r.at(u), "receipts read from the private table are used before they are marked private")
			}
		}
	}
	r.Floor(rule3, 1)
}

// p11Sources: sources, through variables captured by closures.
func p11Sources(p *Prog, v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, s := range p.sources(v) {
			if seen[s] {
				continue
			}
			seen[s] = true
			if u, ok := s.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fv, ok := u.X.(*ssa.FreeVar); ok {
					if a, ok := freeVarBinding(fv).(*ssa.Alloc); ok {
						for _, st := range storesTo(a) {
							walk(st.Val)
						}
						continue
					}
				}
			}
			out = append(out, s)
		}
	}
	walk(v)
	return out
}

// evalBool evaluates a boolean term without variables.
func evalBool(t *Term) (val, ok bool) {
	switch {
	case t.IsConst("true"):
		return true, true
	case t.IsConst("false"):
		return false, true
	case t.Op == "not":
		v, ok := evalBool(t.Args[0])
		return !v, ok
	case t.Op == "eq" && t.Args[0].Op == "const" && t.Args[1].Op == "const":
		return t.Args[0].Name == t.Args[1].Name, true
	}
	return false, false
}

func p11Deliver(r *Report) {
	const rule = "delivery"
	pubG := func(cond ssa.Value, pol bool, v ssa.Value) bool {
		return !pol && isLoadOf(cond, receiptT, "IsPrivate")
	}
	r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
		c := asCall(in)
		if c == nil || c.IsInvoke() || relPkg(fnPkg(fn).Path()) == "sync3" {
			return // the dispatcher passes on what it is given
		}
		n := callName(c)
		switch {
		case strings.HasSuffix(n, "sync3.(*Dispatcher).OnReceipt"):
			r.Touch(fn)
			name := shortName(outer(fn)) + " " + siteName(in)
			r.Ob(rule, name)
			for _, s := range r.P.sources(c.Args[2]) {
				if r.P.Guarded(in, nil, pubG) {
					continue
				}
				coll := rangeOver(s)
				if coll == nil {
					r.Bad(rule, name, r.at(in), "a receipt is sent to everyone in the room without checking that it is not private")
					continue
				}
				for _, l := range r.P.elems(coll) {
					if l.Whole || !r.P.Guarded(l.At, nil, pubG) {
						pos := in
						if l.At != nil {
							pos = l.At
						}
						r.Bad(rule, name, r.at(pos), "a receipt is put among those sent to everyone in the room without checking that it is not private")
					}
				}
			}
		case strings.HasSuffix(n, "caches.(*UserCache).OnReceipt"):
			r.Touch(fn)
			name := shortName(outer(fn)) + " " + siteName(in)
			r.Ob(rule, name)
			if why := p11Author(r.P, c.Args[0], c.Args[2]); why != "" {
				r.Bad(rule, name, r.at(in), why)
			}
		}
	})
	r.Floor(rule, 2)

	// every receipt of an update ends up somewhere
	const rule2 = "no-receipt-lost"
	r.P.withOpaque(liveOpaque(r.P), func() { receiptsReach(r, r.P.chooser(), rule2) })
	r.Floor(rule2, 1)
}

// p11Author: the cache is that of the receipt's author; returns what is wrong otherwise.
func p11Author(p *Prog, cache, receipt ssa.Value) string {
	var key ssa.Value
	for _, s := range p.sources(cache) {
		v := s
		for i := 0; i < 4; i++ {
			switch x := v.(type) {
			case *ssa.TypeAssert:
				v = x.X
			case *ssa.Extract:
				v = x.Tuple
			}
		}
		c, ok := v.(*ssa.Call)
		if !ok || callName(&c.Call) != "sync.(*Map).Load" {
			return "a private receipt is given to the cache " + describeVal(p, s)
		}
		key = stripConv(c.Call.Args[1])
	}
	if key == nil {
		return "a private receipt is given to an unknown cache"
	}
	// directly: Load(receipt.UserID)
	isUserOf := func(k, rec ssa.Value) bool {
		switch x := k.(type) {
		case *ssa.Field:
			return fieldName(x.X.Type(), x.Field) == "UserID" && p.same(x.X, rec)
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "UserID" {
				if ru, ok := rec.(*ssa.UnOp); ok {
					if ru.X == fa.X {
						return true
					}
					if a, ok := fa.X.(*ssa.Alloc); ok {
						if b, ok := ru.X.(*ssa.Alloc); ok && a == b {
							return true
						}
					}
				}
				return p.same(fa.X, rec)
			}
		}
		return false
	}
	if isUserOf(key, receipt) {
		return ""
	}
	// through a map from author to receipts
	ke, ok := key.(*ssa.Extract)
	if !ok {
		return "a private receipt is given to the cache of " + describeVal(p, key)
	}
	m := rangeOver(key)
	if m == nil {
		return "a private receipt is given to the cache of " + describeVal(p, key)
	}
	for _, s := range p.sources(receipt) {
		coll := rangeOver(s)
		var ce *ssa.Extract
		for _, cs := range p.sources(coll) {
			ce, _ = cs.(*ssa.Extract)
		}
		if ce == nil || ce.Tuple != ke.Tuple || ce.Index != 2 {
			return "a receipt is given to a cache it was not grouped under"
		}
	}
	for _, ms := range p.sources(m) {
		mm, ok := ms.(*ssa.MakeMap)
		if !ok {
			return "receipts are grouped by " + describeVal(p, ms)
		}
		for _, rf := range *mm.Referrers() {
			mu, ok := rf.(*ssa.MapUpdate)
			if !ok || mu.Map != mm {
				continue
			}
			for _, l := range p.elems(mu.Value) {
				if l.Whole {
					if lk, ok := l.Val.(*ssa.Lookup); ok && lk.X == mm && p.same(lk.Index, mu.Key) {
						continue
					}
					return "receipts are grouped with " + describeVal(p, l.Val)
				}
				if !isUserOf(mu.Key, l.Val) {
					return "receipts are grouped by something other than their author"
				}
			}
		}
	}
	return ""
}

func p11Clash(r *Report) {
	const rule = "clash"
	fn := r.Fn("state.PackReceiptsIntoEDU")
	if fn == nil {
		return
	}
	// in one iteration: bit 1 set once the receipt was written, bit 2 once it is known that another exists, 4 that this one is threaded
	const wrote, exists, threaded = 1, 2, 4
	r.Path(PathRule{Rule: rule, Root: fn, Inst: func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && typeName(mu.Value.Type()) == "state.receiptInfo"
	}, On: func(e Ev) Action {
		mu := e.In.(*ssa.MapUpdate)
		r.Ob(rule, "write")
		if t := e.X.Term(e.S, mkCV(e.S.ctx, mu.Key)).String(); !strings.HasSuffix(t, ".UserID") {
			r.Bad(rule, "key", r.at(e.In), "a receipt is packed under "+t+" instead of its author", e.S.Trace()...)
		}
		e.S.Bits |= wrote
		return Go
	}, Lit: func(x *Explorer, s *State, l Lit) {
		t := l.Atom.String()
		if strings.Contains(t, ".ThreadID") {
			if l.Atom.Op == "eq" && strings.Contains(t, `""`) && !l.Pol {
				s.Bits |= threaded
			}
		} else if l.Pol && strings.HasSuffix(t, ".UserID}#1") {
			s.Bits |= exists
		}
	}, Back: func(x *Explorer, s *State, hdr *ssa.BasicBlock) {
		r.Ob(rule, "iteration")
		if s.Bits&wrote == 0 && s.Bits&(exists|threaded) != exists|threaded {
			r.Bad(rule, "PackReceiptsIntoEDU", r.P.Pos(fn.Pos()), "a receipt is left out although no receipt by its author on that event was packed, or although it is unthreaded", s.Trace()...)
		}
		s.Bits = 0
	}})
	r.Floor(rule, 3)
}

// p11Marks: where every element of the collection is marked private: the instruction and, if that is done for every
// element, the block from which on all are marked.
func p11Marks(fn *ssa.Function, coll func(v ssa.Value) bool) (mark ssa.Instruction, of *ssa.BasicBlock) {
	fnInstrs(fn, func(in ssa.Instruction) {
		if c := asCall(in); c != nil && of == nil {
			// a helper function marks them
			if cal := c.StaticCallee(); cal != nil && inModule(cal) && len(cal.Blocks) > 0 {
				for i, a := range c.Args {
					if !coll(a) || i >= len(cal.Params) {
						continue
					}
					if m, o := p11Marks(cal, func(v ssa.Value) bool { return v == cal.Params[i] }); m != nil && o != nil {
						mark, of = in, in.Block()
					}
				}
			}
			return
		}
		s, ok := in.(*ssa.Store)
		if !ok || of != nil || !isFieldAddr(s.Addr, receiptT, "IsPrivate") {
			return
		}
		if b, isC := boolConst(s.Val); !isC || !b {
			return
		}
		fa := s.Addr.(*ssa.FieldAddr)
		elem, ok := fa.X.(*ssa.IndexAddr)
		if a, isA := fa.X.(*ssa.Alloc); isA {
			// a copy of the element
			for _, st := range storesTo(a) {
				if ld, isL := st.Val.(*ssa.UnOp); isL {
					elem, ok = ld.X.(*ssa.IndexAddr)
				}
			}
		}
		if !ok || !coll(elem.X) {
			return
		}
		mark = in
		h := innermostLoop(in.Block())
		if h == nil {
			return
		}
		for _, pr := range h.Preds {
			if h.Dominates(pr) && !in.Block().Dominates(pr) {
				return
			}
		}
		of = h
	})
	return mark, of
}
