package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a normalised expression over parameters, fields, constants and calls. Equal terms denote the
// same expression regardless of local names, helper extraction, comparison direction or negation.
type Term struct {
	Op   string // param const nil global field index lookup call extract bin eq lt not conv assert phi alloc new var closure rangekey rangeval deref slice len opaque
	Name string
	Args []*Term
	Fn   *types.Func
	CV   CV
	s    string
}

func (t *Term) String() string {
	if t == nil {
		return "?"
	}
	if t.s != "" {
		return t.s
	}
	a := make([]string, len(t.Args))
	for i, x := range t.Args {
		a[i] = x.String()
	}
	switch t.Op {
	case "param":
		t.s = "$" + t.Name
	case "const":
		t.s = t.Name
	case "nil":
		t.s = "nil"
	case "global":
		t.s = t.Name
	case "field":
		t.s = a[0] + "." + t.Name
	case "index":
		t.s = a[0] + "[" + a[1] + "]"
	case "lookup":
		t.s = a[0] + "{" + a[1] + "}"
	case "call":
		t.s = t.Name + "(" + strings.Join(a, ", ") + ")"
	case "extract":
		t.s = a[0] + "#" + t.Name
	case "eq":
		t.s = "(" + a[0] + " == " + a[1] + ")"
	case "lt":
		t.s = "(" + a[0] + " < " + a[1] + ")"
	case "bin":
		t.s = "(" + a[0] + " " + t.Name + " " + a[1] + ")"
	case "len":
		t.s = "len(" + a[0] + ")"
	default:
		t.s = t.Op + ":" + t.Name
		if len(a) > 0 {
			t.s += "(" + strings.Join(a, ", ") + ")"
		}
	}
	return t.s
}

// Find returns the first subterm satisfying f (pre-order).
func (t *Term) Find(f func(*Term) bool) *Term {
	if t == nil {
		return nil
	}
	if f(t) {
		return t
	}
	for _, a := range t.Args {
		if r := a.Find(f); r != nil {
			return r
		}
	}
	return nil
}

func (t *Term) HasField(name string) bool {
	return t.Find(func(x *Term) bool { return x.Op == "field" && x.Name == name }) != nil
}

func (t *Term) HasCall(suffix string) bool {
	return t.Find(func(x *Term) bool { return x.Op == "call" && strings.HasSuffix(x.Name, suffix) }) != nil
}

func (t *Term) IsConst(s string) bool { return t != nil && t.Op == "const" && t.Name == s }

func mk(op, name string, args ...*Term) *Term { return &Term{Op: op, Name: name, Args: args} }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// Term builds the term for a value on a path (s may be nil).
func (x *Explorer) Term(s *State, cv CV) *Term { return x.term(s, cv, 0) }

func (x *Explorer) term(s *State, cv CV, d int) *Term {
	if cv.v != nil && isCtxType(cv.v.Type()) {
		return &Term{Op: "ctx", Name: "", s: "ctx", CV: cv}
	}
	cv = x.resolve(s, cv)
	t := x.term1(s, cv, d)
	if t.CV != cv {
		if t.CV.v != nil {
			c := *t
			t = &c
		}
		t.CV = cv
	}
	return t
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return "?"
}

func constString(v constant.Value) string {
	if v.Kind() == constant.String {
		return v.ExactString()
	}
	return v.String()
}

func (x *Explorer) term1(s *State, cv CV, d int) *Term {
	if d > 14 {
		return mk("opaque", "deep")
	}
	c := cv.c
	sub := func(v ssa.Value) *Term { return x.term(s, mkCV(c, v), d+1) }
	switch v := cv.v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return mk("nil", "")
		}
		return mk("const", constString(v.Value))
	case *ssa.Parameter:
		return mk("param", fmt.Sprint(paramIndex(v)))
	case *ssa.FreeVar:
		return mk("var", v.Name())
	case *ssa.Global:
		pk := ""
		if v.Pkg != nil {
			pk = relPkg(v.Pkg.Pkg.Path())
		}
		return mk("global", pk+"."+v.Name())
	case *ssa.Function:
		return mk("closure", shortName(v))
	case *ssa.Builtin:
		return mk("closure", v.Name())
	case *ssa.MakeClosure:
		return mk("closure", shortName(v.Fn.(*ssa.Function)))
	case *ssa.FieldAddr:
		return mk("field", fieldName(v.X.Type(), v.Field), sub(v.X))
	case *ssa.Field:
		return mk("field", fieldName(v.X.Type(), v.Field), sub(v.X))
	case *ssa.IndexAddr:
		return mk("index", "", sub(v.X), x.idxTerm(s, c, v.Index, d))
	case *ssa.Index:
		return mk("index", "", sub(v.X), x.idxTerm(s, c, v.Index, d))
	case *ssa.Lookup:
		return mk("lookup", "", sub(v.X), sub(v.Index))
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			a, isAlloc := x.resolveAddr(s, mkCV(c, v.X))
			if isAlloc {
				if s != nil {
					if m, ok := s.mem[a]; ok && m != cv {
						return x.term(s, m, d+1)
					}
				}
				al := a.v.(*ssa.Alloc)
				if st, ok := singleStore(al); ok && st.Parent() == al.Parent() {
					return x.term(s, mkCV(a.c, st.Val), d+1)
				}
				return mk("new", shortType(al.Type().Underlying().(*types.Pointer).Elem())+"@"+al.Name()+"/"+al.Comment)
			}
			// loads through field/index addresses, globals, pointers read the addressed place
			switch a.v.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
				return x.term(s, a, d+1)
			}
			return mk("deref", "", x.term(s, a, d+1))
		case token.NOT:
			return mk("not", "", sub(v.X))
		case token.ARROW:
			return mk("recv", "", sub(v.X))
		}
		return mk("un", v.Op.String(), sub(v.X))
	case *ssa.Alloc:
		// a parameter spilled to memory stays that parameter
		if st, ok := wholeStore(v); ok {
			if p, ok := st.Val.(*ssa.Parameter); ok {
				return sub(p)
			}
		}
		return mk("new", shortType(v.Type().Underlying().(*types.Pointer).Elem())+"@"+v.Name()+"/"+v.Comment)
	case *ssa.Extract:
		if nx, ok := v.Tuple.(*ssa.Next); ok {
			r, _ := nx.Iter.(*ssa.Range)
			nm := []string{"ok", "key", "val"}[v.Index]
			if r != nil {
				return mk("range"+nm, "", sub(r.X))
			}
		}
		if t := x.lookThrough(s, c, v.Tuple, v.Index, d); t != nil {
			return t
		}
		return mk("extract", fmt.Sprint(v.Index), sub(v.Tuple))
	case *ssa.Call:
		if t := x.lookThrough(s, c, v, 0, d); t != nil {
			return t
		}
		return x.callTerm(s, c, &v.Call, d)
	case *ssa.BinOp:
		return x.binTerm(s, c, v, d)
	case *ssa.TypeAssert:
		return mk("assert", shortType(v.AssertedType), sub(v.X))
	case *ssa.Phi:
		if d > 6 {
			return mk("phi", fmt.Sprintf("%s@%d", v.Name(), c.id))
		}
		return mk("phi", fmt.Sprintf("%s@%d", v.Name(), c.id))
	case *ssa.Slice:
		t := mk("slice", "", sub(v.X))
		for _, o := range []ssa.Value{v.Low, v.High} {
			if o == nil {
				t.Args = append(t.Args, mk("nil", ""))
			} else {
				t.Args = append(t.Args, sub(o))
			}
		}
		return t
	case *ssa.MakeMap:
		return mk("makemap", shortType(v.Type())+"@"+v.Name())
	case *ssa.MakeSlice:
		return mk("makeslice", shortType(v.Type())+"@"+v.Name())
	case *ssa.MakeChan:
		return mk("makechan", v.Name())
	case *ssa.Next:
		return mk("next", "")
	case *ssa.Range:
		return mk("range", "", sub(v.X))
	case *ssa.Convert:
		return sub(v.X)
	}
	return mk("opaque", fmt.Sprintf("%T", cv.v))
}

// wholeStore: the single store of a whole value to the alloc, if there is exactly one.
func wholeStore(a *ssa.Alloc) (*ssa.Store, bool) {
	st := storesTo(a)
	if len(st) == 1 {
		return st[0], true
	}
	return nil, false
}

func (x *Explorer) idxTerm(s *State, c *Ctx, v ssa.Value, d int) *Term {
	cv := x.resolve(s, mkCV(c, v))
	if k, ok := cv.v.(*ssa.Const); ok && k.Value != nil {
		return mk("const", constString(k.Value))
	}
	return x.term(s, cv, d+1)
}

func (x *Explorer) callTerm(s *State, c *Ctx, cc *ssa.CallCommon, d int) *Term {
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return mk("len", "", x.term(s, mkCV(c, cc.Args[0]), d+1))
	}
	t := &Term{Op: "call", Fn: calleeObj(cc)}
	t.Name = callName(cc)
	if t.Name == "" {
		t.Name = "dyn"
		t.Args = append(t.Args, x.term(s, mkCV(c, cc.Value), d+1))
	}
	if cc.IsInvoke() {
		t.Args = append(t.Args, x.term(s, mkCV(c, cc.Value), d+1))
	}
	for _, a := range cc.Args {
		t.Args = append(t.Args, x.term(s, mkCV(c, a), d+1))
	}
	return t
}

// lookThrough replaces a call to a small same-module function by the term it returns, when that is the same on
// every return (ignoring zero values returned next to an error).
func (x *Explorer) lookThrough(s *State, c *Ctx, tuple ssa.Value, idx, d int) *Term {
	call, ok := tuple.(*ssa.Call)
	if !ok || d > 8 {
		return nil
	}
	if s != nil {
		if rv, ok := s.ret[CV{c, call}]; ok && idx < len(rv) {
			return x.term(s, rv[idx], d+1)
		}
	}
	fn, binds, args := x.calleeOf(s, c, &call.Call)
	if fn == nil || fn.Blocks == nil || !inModule(fn) || len(fn.Blocks) > 6 || c.onStack(fn) || c.depth > 16 {
		return nil
	}
	if x.q != nil && x.q.Stop != nil && x.q.Stop(fn) {
		return nil
	}
	if len(fn.Blocks) > 1 && idx == 0 && fn.Signature.Results().Len() == 1 {
		// only straight-line single-result functions
		return nil
	}
	nc := &Ctx{id: 100000 + c.id, fn: fn, parent: c, site: call, args: args, binds: binds, depth: c.depth + 1}
	var found *Term
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		t := x.term(nil, mkCV(nc, r.Results[idx]), d+1)
		if t.Op == "nil" || (t.Op == "const" && (t.Name == `""` || t.Name == "0" || t.Name == "false")) {
			if len(fn.Blocks) > 1 {
				continue
			}
		}
		if t.Op == "new" || t.Op == "opaque" || t.Op == "makemap" || t.Op == "makeslice" || t.Op == "phi" {
			return nil
		}
		if found != nil && found.String() != t.String() {
			return nil
		}
		found = t
	}
	return found
}

func (x *Explorer) binTerm(s *State, c *Ctx, v *ssa.BinOp, d int) *Term {
	a, b := x.term(s, mkCV(c, v.X), d+1), x.term(s, mkCV(c, v.Y), d+1)
	op := v.Op
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		l := cmpLit(op, a, b)
		if l.Pol {
			return l.Atom
		}
		return mk("not", "", l.Atom)
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if b2, ok := v.X.Type().Underlying().(*types.Basic); ok && b2.Info()&types.IsString != 0 {
			return mk("bin", "+", a, b)
		}
		if a.String() > b.String() {
			a, b = b, a
		}
	}
	return mk("bin", op.String(), a, b)
}

// cmpLit normalises comparisons to == and <.
func cmpLit(op token.Token, a, b *Term) Lit {
	switch op {
	case token.EQL, token.NEQ:
		if a.Op == "const" || a.Op == "nil" || (b.Op != "const" && b.Op != "nil" && a.String() > b.String()) {
			if !(b.Op == "const" || b.Op == "nil") || a.String() > b.String() {
				a, b = b, a
			}
		}
		pol := op == token.EQL
		// bool comparisons with constants
		if b.Op == "const" && (b.Name == "true" || b.Name == "false") {
			if b.Name == "false" {
				pol = !pol
			}
			return Lit{a, pol}
		}
		return Lit{mk("eq", "", a, b), pol}
	case token.LSS:
		return ltLit(a, b, true)
	case token.GEQ:
		return ltLit(a, b, false)
	case token.GTR:
		return ltLit(b, a, true)
	case token.LEQ:
		return ltLit(b, a, false)
	}
	return Lit{mk("bin", op.String(), a, b), true}
}

func ltLit(a, b *Term, pol bool) Lit {
	// 0 < len(x)  and len(x) < 1 are emptiness tests
	if a.IsConst("0") && b.Op == "len" {
		return Lit{mk("eq", "", b, a), !pol}
	}
	if a.Op == "len" && b.IsConst("1") {
		return Lit{mk("eq", "", a, mk("const", "0")), pol}
	}
	// x < 1 and 0 < x keep their form
	return Lit{mk("lt", "", a, b), pol}
}

// litOf normalises a branch condition with outcome val.
func (x *Explorer) litOf(s *State, cv CV, val bool) Lit {
	cv = x.resolve(s, cv)
	switch v := cv.v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return x.litOf(s, mkCV(cv.c, v.X), !val)
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			l := cmpLit(v.Op, x.term(s, mkCV(cv.c, v.X), 0), x.term(s, mkCV(cv.c, v.Y), 0))
			if !val {
				l.Pol = !l.Pol
			}
			return l
		}
	}
	t := x.term(s, cv, 0)
	for t.Op == "not" {
		t = t.Args[0]
		val = !val
	}
	return Lit{t, val}
}

// StaticTerm is Term in a root context of fn without path knowledge.
func (p *Prog) StaticTerm(fn *ssa.Function, v ssa.Value) *Term {
	x := &Explorer{p: p, q: &Query{}}
	return x.Term(nil, mkCV(&Ctx{fn: fn}, v))
}

func isCtxType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context"
}
