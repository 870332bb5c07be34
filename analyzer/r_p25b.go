package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isMapUpdate(in ssa.Instruction, elem string) (*ssa.MapUpdate, bool) {
	m, ok := in.(*ssa.MapUpdate)
	if !ok || mapElem(m.Map) != elem {
		return nil, false
	}
	return m, true
}

// appendsTo: in stores to the field of the named struct what was there with more appended.
func appendsTo(in ssa.Instruction, typ, field string) bool {
	st, ok := in.(*ssa.Store)
	if !ok || !isFieldAddr(st.Addr, typ, field) {
		return false
	}
	c, ok := st.Val.(*ssa.Call)
	return ok && callName(&c.Call) == "builtin.append"
}

func init() {
	reg("P25", "room subscriptions persist until they are unsubscribed, and every changed list and subscription is in the delta", func(r *Report) {
		const rule = "sticky subscription"
		p := r.P
		root := r.Fn("sync3.(*Request).ApplyDelta")
		if root == nil {
			return
		}
		c := p.chooser()
		never := func(Cond) bool { return false }
		found := map[string]ssa.Instruction{}
		var dels []ssa.Instruction
		self := "sync3.(*Request).ApplyDelta"
		for _, e := range p.contexts(root) {
			e := e
			r.Touch(e.fn)
			unconditional := func(in ssa.Instruction, what string, done func(ssa.Instruction) bool, unless CondGuard) {
				h := innermostLoop(in.Block())
				if h == nil {
					return
				}
				r.Ob(rule, what)
				if c.skips(h, e, done, unless) {
					r.Bad(rule, shortName(e.fn)+" "+what, r.at(in), what+" may be left out for some")
				}
				if b := breaks(h); b != nil {
					r.Bad(rule, shortName(e.fn)+" "+what, r.at(b), what+" is left out for those after this one")
				}
			}
			fnInstrs(e.fn, func(in ssa.Instruction) {
				if cl := asCall(in); cl != nil {
					if nm := callName(cl); (strings.HasSuffix(nm, "maps.Copy") || strings.Contains(nm, "maps.Copy[")) && len(cl.Args) == 2 && mapElem(cl.Args[0]) == "sync3.RoomSubscription" {
						found[c.Path(cl.Args[1], e)+"[]"] = in
					}
					if callName(cl) == "builtin.delete" && mapElem(cl.Args[0]) == "sync3.RoomSubscription" && c.Path(cl.Args[1], e) == "$1.UnsubscribeRooms[]" {
						dels = append(dels, in)
						unconditional(in, "unsubscribing", func(x ssa.Instruction) bool { return x == in }, never)
					}
				}
				if m, ok := isMapUpdate(in, "sync3.RoomSubscription"); ok {
					for pth := range c.Paths(m.Value, e) {
						if pth == "$0.RoomSubscriptions[]" || pth == "$1.RoomSubscriptions[]" {
							found[pth] = in
							if k := c.Path(m.Key, e); k != strings.TrimSuffix(pth, "[]")+"{}" {
								r.Bad(rule, self+" key", r.at(in), "a subscription is kept under "+k+", not under its room")
							}
						}
					}
					unconditional(in, "keeping subscriptions", func(x ssa.Instruction) bool { return x == in }, never)
				}
				// the delta
				if m, ok := isMapUpdate(in, "sync3.RequestListDelta"); ok {
					for _, ch := range c.Of(m.Value, []string{"Prev"}, e) {
						switch {
						case ch.Path == "$0.Lists[]":
							found["Prev"] = in
						case ch.Path == "nil" || ch.Path == "zero" || strings.HasSuffix(ch.Path, ".Prev"):
						default:
							r.Bad(rule, self+" previous list", r.at(in), "what a list was before the request is taken to be "+ch.Path)
						}
					}
					for _, ch := range c.Of(m.Value, []string{"Curr"}, e) {
						switch {
						case strings.HasSuffix(ch.Path, "[]") && !strings.HasPrefix(ch.Path, "$"):
							found["Curr"] = in
						case strings.HasPrefix(ch.Path, "$"):
							r.Bad(rule, self+" current list", r.at(in), "what a list is after the request is taken to be "+ch.Path+", not the combined one")
						}
					}
					unconditional(in, "telling which lists there were and are", func(x ssa.Instruction) bool {
						_, ok := isMapUpdate(x, "sync3.RequestListDelta")
						return ok
					}, never)
				}
				if appendsTo(in, "sync3.RequestDelta", "Subs") {
					found["Subs"] = in
					done := func(x ssa.Instruction) bool { return appendsTo(x, "sync3.RequestDelta", "Subs") }
					for _, g := range []CondGuard{
						func(cd Cond) bool { return c.holds(cd, "$0.RoomSubscriptions[]?", true) },
						func(cd Cond) bool { return subSame(c, cd, "RequiredState") },
						func(cd Cond) bool { return subSame(c, cd, "TimelineLimit") },
					} {
						unconditional(in, "sending a new or changed subscription's room", done, g)
					}
				}
				if appendsTo(in, "sync3.RequestDelta", "Unsubs") {
					h := innermostLoop(in.Block())
					if h == nil || c.ranged(h, e) == "$1.UnsubscribeRooms" {
						found["Unsubs"] = in
						unconditional(in, "stopping an unsubscribed room", func(x ssa.Instruction) bool { return appendsTo(x, "sync3.RequestDelta", "Unsubs") }, func(cd Cond) bool {
							pth := c.Path(cd.V, cd.E)
							return !cd.Pol && strings.HasSuffix(pth, "[]?") && !strings.HasPrefix(pth, "$") || cd.Pol && pth == "$1.RoomSubscriptions[]?"
						})
					}
				}
			})
		}
		for k, what := range map[string]string{
			"$0.RoomSubscriptions[]": "the subscriptions of earlier requests are dropped",
			"$1.RoomSubscriptions[]": "the subscriptions of the request are ignored",
			"Prev":                   "what lists were before is not recorded",
			"Curr":                   "what lists are now is not recorded",
			"Subs":                   "new subscriptions are not recorded",
			"Unsubs":                 "dropped subscriptions are not recorded",
		} {
			r.Ob(rule, what)
			if found[k] == nil {
				r.Bad(rule, self+" "+k, p.Pos(root.Pos()), what)
			}
		}
		r.Ob(rule, "unsubscribing")
		if len(dels) == 0 {
			r.Bad(rule, self+" unsubscribe", p.Pos(root.Pos()), "unsubscribe_rooms is ignored")
		}
		for _, d := range dels {
			if s := found["$1.RoomSubscriptions[]"]; s != nil && s.Parent() == d.Parent() && canReach(d, s) {
				r.Bad(rule, self+" unsubscribe", r.at(d), "a room which the same request subscribes to and unsubscribes from stays subscribed")
			}
		}
		r.Floor(rule, 8)
	})
	reg("P25", "extension parameters are sticky: every extension is applied, and each of its fields is the newly given value or else the earlier one", func(r *Report) {
		const rule = "sticky extension"
		p := r.P
		c := p.chooser()
		ext := p.namedType(r, "sync3/extensions.Request")
		// all of them are listed
		for _, nm := range []string{"sync3/extensions.(*Request).fields", "sync3/extensions.(Response).fields"} {
			root := r.Fn(nm)
			if root == nil {
				continue
			}
			t := p.namedType(r, "sync3/extensions."+map[bool]string{true: "Request", false: "Response"}[strings.Contains(nm, "Request")])
			order := listed(c, &Env{fn: root})
			for _, sel := range leafFields(t) {
				r.Ob(rule, nm+" "+sel[0])
				if _, ok := order["$0."+sel[0]]; !ok {
					r.Bad(rule, nm+" "+sel[0], p.Pos(root.Pos()), "the extension "+sel[0]+" is left out")
				}
			}
		}
		// and put back in the same order
		if get, set := r.Fn("sync3/extensions.(*Request).fields"), r.Fn("sync3/extensions.(*Request).setFields"); get != nil && set != nil {
			order := listed(c, &Env{fn: get})
			e := &Env{fn: set}
			seen := map[string]bool{}
			fnInstrs(set, func(in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(fa.X.Type()) != "sync3/extensions.Request" {
					return
				}
				f := fieldName(fa.X.Type(), fa.Field)
				seen[f] = true
				r.Ob(rule, "setFields "+f)
				if pth, want := c.Path(st.Val, e), fmt.Sprintf("$1[%d]", order["$0."+f]); pth != want && strings.HasPrefix(pth, "$1[") && pth != "$1[]" {
					r.Bad(rule, "setFields "+f, r.at(in), "the extension "+f+" is taken from "+pth+", which is another one")
				}
			})
			for _, sel := range leafFields(ext) {
				if !seen[sel[0]] {
					r.Bad(rule, "setFields "+sel[0], p.Pos(set.Pos()), "changes to the extension "+sel[0]+" are forgotten")
				}
			}
		}
		// a first request
		if root := r.Fn("sync3/extensions.(*Request).InterpretAsInitial"); root != nil {
			seen := map[string]bool{}
			for _, e := range p.contexts(root) {
				fnInstrs(e.fn, func(in ssa.Instruction) {
					cl := asCall(in)
					if cl == nil || e.d > 0 {
						return
					}
					var recv ssa.Value
					if cl.IsInvoke() && cl.Method.Name() == "InterpretAsInitial" {
						recv = cl.Value
					} else if f := cl.StaticCallee(); f != nil && f.Name() == "InterpretAsInitial" && len(cl.Args) > 0 {
						recv = cl.Args[0]
					}
					if recv == nil {
						return
					}
					pth := c.Path(recv, e)
					if i := strings.Index(pth, "$0."); i == 0 {
						f := strings.Split(pth[3:], ".")[0]
						seen[f] = true
						if !onlyUnless(c, in, e, func(cd Cond) bool { return c.is(cd, "$0."+f, "nil") }) {
							r.Bad(rule, "InterpretAsInitial "+f, r.at(in), "the defaults of the extension "+f+" are not always set")
						}
					} else if cl.IsInvoke() {
						for _, sel := range leafFields(ext) { // over all of them
							seen[sel[0]] = true
						}
					}
				})
			}
			for _, sel := range leafFields(ext) {
				r.Ob(rule, "InterpretAsInitial "+sel[0])
				if !seen[sel[0]] {
					r.Bad(rule, "InterpretAsInitial "+sel[0], p.Pos(root.Pos()), "the extension "+sel[0]+" does not get its defaults in a first request: it applies to no room")
				}
			}
		}
		// each field
		core := p.namedType(r, "sync3/extensions.Core")
		getter := map[string]string{}
		for m, f := range map[string]string{"IsEnabled": "Enabled", "OnlyLists": "Lists", "OnlyRooms": "Rooms"} {
			getter[f] = m
			if fn := r.Fn("sync3/extensions.(*Core)." + m); fn != nil {
				r.Ob(rule, m)
				fnInstrs(fn, func(in ssa.Instruction) {
					if rt, ok := in.(*ssa.Return); ok && c.Path(rt.Results[0], &Env{fn: fn}) != "$0."+f {
						r.Bad(rule, "Core."+m, r.at(in), m+" does not return "+f)
					}
				})
			}
		}
		if root := r.Fn("sync3/extensions.(*Core).ApplyDelta"); root != nil {
			e := &Env{fn: root}
			for _, sel := range leafFields(core) {
				f := sel[0]
				next := ""
				for _, chs := range exitChoices(c, root, e, sel) {
					for _, ch := range chs {
						if strings.Contains(ch.Path, "("+"$1"+")") {
							next = ch.Path
						}
					}
				}
				r.Ob(rule, "Core "+f)
				if !strings.Contains(next, ")."+getter[f]+"(") && !strings.HasSuffix(next, "."+getter[f]+"($1)") {
					r.Bad(rule, "Core."+f, p.Pos(root.Pos()), "a new value of "+f+" does not replace the earlier one (it becomes "+next+")")
					continue
				}
				for _, chs := range exitChoices(c, root, e, sel) {
					for _, ch := range chs {
						switch {
						case ch.Path == next:
							if !ch.When(func(cd Cond) bool { return c.isNot(cd, next, "nil") }) {
								r.Bad(rule, "Core."+f, p.Pos(posOf(ch)), f+" is forgotten when a later request does not mention it")
							}
						case ch.Path == "$0."+f:
							if !ch.When(func(cd Cond) bool { return c.is(cd, next, "nil") || c.is(cd, "$1", "nil") }) {
								r.Bad(rule, "Core."+f, p.Pos(posOf(ch)), "a new value of "+f+" may be ignored")
							}
						default:
							r.Bad(rule, "Core."+f, p.Pos(posOf(ch)), f+" becomes "+ch.Path)
						}
					}
				}
			}
		}
		// extensions with more parameters
		st, _ := ext.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			et := st.Field(i).Type()
			est, ok := et.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			tn := typeName(et)
			own := leafFields(est.Elem())
			for _, sel := range own {
				if sel[0] == "Core" {
					continue
				}
				fld := fieldType(est.Elem(), sel)
				if jsonNameOf(est.Elem(), sel[0]) == "" {
					continue
				}
				root := p.Funcs["sync3/extensions.(*"+strings.TrimPrefix(tn, "sync3/extensions.")+").ApplyDelta"]
				r.Ob(rule, tn+" "+sel[0])
				if root == nil {
					r.Bad(rule, tn+" "+sel[0], "-", "a new value of "+sel[0]+" in a later request is ignored")
					continue
				}
				e := &Env{fn: root}
				for _, chs := range exitChoices(c, root, e, sel) {
					c.sticky(r, rule, tn, chs, "$0", "$1", est.Elem(), sel, nil, nil)
				}
				_ = fld
				n := 0
				p.mustCall(root, "sync3/extensions.(*Core).ApplyDelta", &n)
				r.Ob(rule, tn+" core")
				if n == 0 {
					r.Bad(rule, tn+" core", p.Pos(root.Pos()), "enabled, lists and rooms of "+tn+" in a later request are ignored")
				}
			}
		}
		// all of them
		if root := r.Fn("sync3/extensions.(Request).ApplyDelta"); root != nil {
			e := &Env{fn: root}
			n := 0
			for _, h := range headers(root) {
				isDelta := func(in ssa.Instruction) bool {
					cl := asCall(in)
					return cl != nil && cl.IsInvoke() && (cl.Method.Name() == "ApplyDelta" || cl.Method.Name() == "InterpretAsInitial")
				}
				has := false
				for b := range loopBlocks(h) {
					for _, in := range b.Instrs {
						has = has || isDelta(in)
					}
				}
				if !has {
					continue
				}
				n++
				r.Ob(rule, "every extension")
				if c.skips(h, e, isDelta, func(cd Cond) bool {
					cl, ok := cd.V.(*ssa.Call)
					return ok && cd.Pol && callName(&cl.Call) == "sync3/extensions.isNil" && fromFields(p, cl.Call.Args[0], root.Params[1])
				}) {
					r.Bad(rule, "Request.ApplyDelta", r.at(last(h)), "what a request says about an extension may be ignored")
				}
				if b := breaks(h); b != nil {
					r.Bad(rule, "Request.ApplyDelta", r.at(b), "what a request says about the extensions after this one is ignored")
				}
			}
			if n == 0 {
				r.Bad(rule, "Request.ApplyDelta", p.Pos(root.Pos()), "extensions of later requests are not applied")
			}
			extNew(r, rule, root)
		}
		// and the request uses them
		if root := r.Fn("sync3.(*Request).ApplyDelta"); root != nil {
			e := &Env{fn: root}
			fnInstrs(root, func(in ssa.Instruction) {
				rt, ok := in.(*ssa.Return)
				if !ok {
					return
				}
				r.Ob(rule, "sync3.Request")
				p.withOpaque(names{"sync3/extensions.(Request).ApplyDelta"}, func() {
					for _, pth := range extPaths(c, rt.Results[0], e) {
						if pth != "$1.Extensions" && !strings.Contains(pth, "ApplyDelta") && !strings.Contains(pth, "$0.Extensions") {
							r.Bad(rule, "sync3.(*Request).ApplyDelta", r.at(in), "the extensions in force become "+pth)
						}
					}
				})
			})
			n := 0
			p.mustCall(root, "sync3/extensions.(Request).ApplyDelta", &n)
			m := 0
			p.mustCall(root, "sync3/extensions.(*Request).InterpretAsInitial", &m)
			r.Ob(rule, "sync3.(*Request).ApplyDelta")
			if n == 0 || m == 0 {
				r.Bad(rule, "sync3.(*Request).ApplyDelta", p.Pos(root.Pos()), "extensions are not applied on top of the earlier ones, or do not get their defaults in a first request")
			}
		}
		r.Floor(rule, 25)
	})
}

// subSame: the condition shows that the field is the same in the old and in the new subscription.
func subSame(c *chooser, cd Cond, field string) bool {
	switch x := cd.V.(type) {
	case *ssa.Call:
		if field == "RequiredState" && callName(&x.Call) == "sync3.(RoomSubscription).RequiredStateChanged" {
			return !cd.Pol
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ || (x.Op == token.EQL) != cd.Pol {
			return false
		}
		a, b := c.Path(x.X, cd.E), c.Path(x.Y, cd.E)
		return strings.HasSuffix(a, "."+field) && strings.HasSuffix(b, "."+field) && a != b
	}
	return false
}

// listed: the paths in the slice a function returns, with their index.
func listed(c *chooser, e *Env) map[string]int {
	out := map[string]int{}
	fnInstrs(e.fn, func(in ssa.Instruction) {
		rt, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		var walk func(v ssa.Value, d int)
		walk = func(v ssa.Value, d int) {
			for _, s := range c.p.sources(v) {
				switch x := s.(type) {
				case *ssa.Slice:
					if a, ok := x.X.(*ssa.Alloc); ok {
						for _, u := range refs(a) {
							if ia, ok := u.(*ssa.IndexAddr); ok {
								for _, st := range storesTo(ia) {
									k, _ := ia.Index.(*ssa.Const)
									i := -1
									if k != nil {
										i = int(k.Int64())
									}
									out[c.Path(st.Val, e)] = i
								}
							}
						}
					}
				case *ssa.Call:
					if callName(&x.Call) == "builtin.append" && d < 12 {
						walk(x.Call.Args[0], d+1)
						n := len(out)
						for i, el := range appendElems(x) {
							out[c.Path(el, e)] = n + i
						}
					}
				}
			}
		}
		walk(rt.Results[0], 0)
	})
	return out
}

// onlyUnless: in is passed on every way through its function, unless the condition is found true.
func onlyUnless(c *chooser, in ssa.Instruction, e *Env, g CondGuard) bool {
	k := c.guard(g, e)
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var fwd func(b *ssa.BasicBlock)
	fwd = func(b *ssa.BasicBlock) {
		for _, i := range b.Instrs {
			if i == in {
				return
			}
			if _, isR := i.(*ssa.Return); isR {
				ok = false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] && !k.cuts(b, s, nil, 0) {
				seen[s] = true
				fwd(s)
			}
		}
	}
	fwd(e.fn.Blocks[0])
	return ok
}

// exitChoices: what the field of the receiver may be at each return.
func exitChoices(c *chooser, fn *ssa.Function, e *Env, sel []string) [][]Choice {
	var out [][]Choice
	fnInstrs(fn, func(in ssa.Instruction) {
		if rt, ok := in.(*ssa.Return); ok {
			if len(c.busy) == 0 {
				c.n = 0
			}
			out = append(out, c.place(fn.Params[0], sel, e, rt, nil))
		}
	})
	return out
}

func (p *Prog) mustCall(fn *ssa.Function, name string, n *int) {
	for f := range p.reachable(fn) {
		fnInstrs(f, func(in ssa.Instruction) {
			if c := asCall(in); c != nil && callName(c) == name {
				*n++
			}
		})
	}
}

func headers(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				out = append(out, b)
				break
			}
		}
	}
	return out
}

func jsonNameOf(t types.Type, field string) string {
	st, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			tag := st.Tag(i)
			if j := strings.Index(tag, `json:"`); j >= 0 {
				nm := strings.SplitN(strings.SplitN(tag[j+6:], `"`, 2)[0], ",", 2)[0]
				if nm != "-" {
					return nm
				}
			}
		}
	}
	return ""
}

// fromFields: v is one of the extensions of the request pr points to.
func fromFields(p *Prog, v ssa.Value, pr *ssa.Parameter) bool {
	for _, s := range p.origins(v) {
		if c, ok := s.(*ssa.Call); ok {
			for _, a := range c.Call.Args {
				for _, o := range p.origins(a) {
					if o == pr {
						return true
					}
				}
			}
		}
		if s == pr {
			return true
		}
	}
	return false
}

// extNew: an extension which is new in a request is taken over, with its defaults.
func extNew(r *Report, rule string, root *ssa.Function) {
	p := r.P
	r.Ob(rule, "new extension")
	stored, dflt, set := false, false, false
	fnInstrs(root, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && fromFields(p, ia.X, root.Params[0]) && fromFields(p, st.Val, root.Params[1]) {
				stored = true
			}
		}
		if c := asCall(in); c != nil && c.IsInvoke() && c.Method.Name() == "InterpretAsInitial" && fromFields(p, c.Value, root.Params[1]) {
			dflt = true
		}
		if c := asCall(in); c != nil && callName(c) == "sync3/extensions.(*Request).setFields" {
			set = true
		}
	})
	if !stored || !set {
		r.Bad(rule, "Request.ApplyDelta new", p.Pos(root.Pos()), "an extension which a later request enables for the first time is not taken over")
	}
	if !dflt {
		r.Bad(rule, "Request.ApplyDelta new", p.Pos(root.Pos()), "an extension which a later request enables for the first time does not get its defaults: it applies to no room")
	}
}

// extPaths: the extensions of the request v points to.
func extPaths(c *chooser, v ssa.Value, e *Env) []string {
	m := map[string]bool{}
	for _, ch := range c.Of(v, []string{"Extensions"}, e) {
		m[ch.Path] = true
	}
	return sortedKeys(m)
}
