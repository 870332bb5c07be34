package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leafFields: the fields of a struct type, looking into embedded structs.
func leafFields(t types.Type) [][]string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out [][]string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if _, isSt := f.Type().Underlying().(*types.Struct); isSt {
				for _, s := range leafFields(f.Type()) {
					out = append(out, append([]string{f.Name()}, s...))
				}
				continue
			}
		}
		out = append(out, []string{f.Name()})
	}
	return out
}

func (p *Prog) namedType(r *Report, name string) types.Type {
	i := strings.LastIndex(name, ".")
	for _, pk := range p.Pkgs {
		if relPkg(pk.Types.Path()) == name[:i] {
			if o := pk.Types.Scope().Lookup(name[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	r.Bad("anchor", name, "-", "there is no type "+name)
	return types.Typ[types.Int]
}

func fieldType(t types.Type, sel []string) types.Type {
	for _, s := range sel {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < st.NumFields() && !found; i++ {
			if st.Field(i).Name() == s {
				t, found = st.Field(i).Type(), true
			}
		}
		if !found {
			return nil
		}
	}
	return t
}

// unset: the constant which stands for "not given" in a field of this type.
func unset(t types.Type) string {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		if b.Info()&types.IsString != 0 {
			return `""`
		}
		if b.Info()&types.IsBoolean != 0 {
			return "false"
		}
		return "0"
	}
	return "nil"
}

func mapElem(v ssa.Value) string {
	m, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return ""
	}
	if _, isP := m.Elem().Underlying().(*types.Pointer); isP {
		return "*" + typeName(m.Elem())
	}
	return typeName(m.Elem())
}

// sticky: the field sel of what results is the new value when it is given, else the one there was.
func (c *chooser) sticky(r *Report, rule, who string, chs []Choice, prev, next string, t types.Type, sel []string, extraPrev, extraNext CondGuard) {
	f := strings.Join(sel, ".")
	z := unset(fieldType(t, sel))
	given := func(cd Cond) bool { return c.isNot(cd, next+"."+f, z) || extraNext != nil && extraNext(cd) }
	missing := func(cd Cond) bool { return c.is(cd, next+"."+f, z) || extraPrev != nil && extraPrev(cd) }
	r.Ob(rule, who+" "+f)
	for _, ch := range chs {
		switch ch.Path {
		case next + "." + f:
			if !ch.When(given) {
				r.Bad(rule, who+" "+f, r.P.Pos(posOf(ch)), fmt.Sprintf("%s may be overwritten with nothing when the request does not mention it", f))
			}
		case prev + "." + f:
			if !ch.When(missing) {
				r.Bad(rule, who+" "+f, r.P.Pos(posOf(ch)), fmt.Sprintf("%s may keep its old value although the request gives a new one", f))
			}
		case "zero", "nil":
			r.Bad(rule, who+" "+f, r.P.Pos(posOf(ch)), fmt.Sprintf("%s is lost when a request is applied on top of the earlier ones", f))
		default:
			r.Bad(rule, who+" "+f, r.P.Pos(posOf(ch)), fmt.Sprintf("%s becomes something else than the old or the new value (%s)", f, ch.Path))
		}
	}
	has := map[string]bool{}
	for _, ch := range chs {
		has[ch.Path] = true
	}
	if len(chs) > 0 && !has[next+"."+f] && extraNext == nil {
		r.Bad(rule, who+" "+f, "-", fmt.Sprintf("a new value of %s in a later request is ignored", f))
	}
	if len(chs) > 0 && !has[prev+"."+f] && extraPrev == nil {
		r.Bad(rule, who+" "+f, "-", fmt.Sprintf("the earlier value of %s is never kept", f))
	}
}

func init() {
	reg("P25", "list parameters are sticky: each field of a list is the newly given value, or else the one given before; lists persist until deleted", func(r *Report) {
		const rule = "sticky list"
		p := r.P
		root := r.Fn("sync3.(*Request).ApplyDelta")
		if root == nil {
			return
		}
		t := p.namedType(r, "sync3.RequestList")
		c := p.chooser()
		notNext := func(cd Cond) bool { return c.holds(cd, "$1.Lists[]?", false) }
		notPrev := func(cd Cond) bool { return c.holds(cd, "$0.Lists[]?", false) }
		deleted := func(cd Cond) bool { return c.holds(cd, "$1.Lists[].Deleted", true) }
		kept := func(cd Cond) bool { return c.holds(cd, "$1.Lists[].Deleted", false) }
		n, whole := 0, map[string]bool{}
		for _, e := range p.contexts(root) {
			e := e
			r.Touch(e.fn)
			fnInstrs(e.fn, func(in ssa.Instruction) {
				m, ok := in.(*ssa.MapUpdate)
				if !ok || mapElem(m.Map) != "sync3.RequestList" {
					return
				}
				n++
				who := shortName(e.fn)
				for _, sel := range leafFields(t) {
					f := strings.Join(sel, ".")
					if f == "Deleted" {
						continue
					}
					chs := c.Of(m.Value, sel, e)
					var rest []Choice
					r.Ob(rule, who+" "+f)
					for _, ch := range chs {
						// the default order of a new list
						if f == "Sort" && ch.When(notPrev) && ch.Path != "zero" && ch.Path != "nil" && !strings.HasPrefix(ch.Path, "$") && ch.When(func(cd Cond) bool {
							return c.is(cd, "len($1.Lists[].Sort)", "0") || c.is(cd, "$1.Lists[].Sort", "nil")
						}) {
							continue
						}
						rest = append(rest, ch)
						if strings.HasPrefix(ch.Path, "$0.") {
							whole["$0"] = true
						}
						if strings.HasPrefix(ch.Path, "$1.") {
							whole["$1"] = true
						}
					}
					en, ep := func(cd Cond) bool { return notPrev(cd) }, func(cd Cond) bool { return notNext(cd) }
					at := func(g CondGuard) bool { return c.knownAt(m, e, g) }
					switch {
					case at(notNext): // not in this request: as it was
						for _, ch := range rest {
							if ch.Path != "$0.Lists[]."+f && ch.Path != "zero" {
								r.Bad(rule, who+" "+f, r.at(m), f+" of a list which the request does not mention becomes "+ch.Path)
							}
						}
					case at(notPrev): // new
						for _, ch := range rest {
							if ch.Path != "$1.Lists[]."+f {
								r.Bad(rule, who+" "+f, r.at(m), f+" of a new list becomes "+ch.Path)
							}
						}
					default:
						c.sticky(r, rule, who, rest, "$0.Lists[]", "$1.Lists[]", t, sel, ep, en)
						has := map[string]bool{}
						for _, ch := range rest {
							if !ch.When(notPrev) && strings.HasPrefix(ch.Path, "$1") || !ch.When(notNext) && strings.HasPrefix(ch.Path, "$0") {
								has[ch.Path] = true
							}
						}
						if !has["$1.Lists[]."+f] {
							r.Bad(rule, who+" "+f, r.at(m), "a new value of "+f+" in a later request is ignored")
						}
						if !has["$0.Lists[]."+f] {
							r.Bad(rule, who+" "+f, r.at(m), "the earlier value of "+f+" is not kept when a request does not mention it")
						}
						if !at(kept) {
							r.Ob(rule, who+" deleted")
							r.Bad(rule, who+" deleted", r.at(m), "a list which the client deleted may be kept")
						}
					}
				}
				// no list is left out
				if h := innermostLoop(m.Block()); h != nil {
					r.Ob(rule, who+" every list")
					if c.skips(h, e, func(in ssa.Instruction) bool {
						mu, ok := in.(*ssa.MapUpdate)
						return ok && mapElem(mu.Map) == "sync3.RequestList"
					}, func(cd Cond) bool { return deleted(cd) || c.holds(cd, "$1.Lists[]?", true) && !loopHandles(c, h, e) }) {
						r.Bad(rule, who+" every list", r.at(last(h)), "a list may vanish although the client did not delete it")
					}
					if b := breaks(h); b != nil {
						r.Bad(rule, who+" every list", r.at(b), "the lists after this one may vanish")
					}
				}
			})
		}
		r.Floor(rule, 8)
		if !whole["$0"] || !whole["$1"] {
			r.Bad(rule, "sync3.(*Request).ApplyDelta", p.Pos(root.Pos()), "lists of the earlier or of the new request are not taken over at all")
		}
	})
}

// loopHandles: the loop goes through the lists of the new request (as well).
func loopHandles(c *chooser, h *ssa.BasicBlock, e *Env) bool {
	return c.ranged(h, e) != "$0.Lists"
}

func posOf(ch Choice) token.Pos {
	if ch.At != nil && ch.At.Pos().IsValid() {
		return ch.At.Pos()
	}
	return ch.V.Pos()
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
