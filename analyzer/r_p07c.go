package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P07", "reloading a room's metadata loads every kind of event that it takes over", func(r *Report) {
		const rule = "metadata-loaded"
		p := r.P
		root := r.Fn("state.(*Storage).ResetMetadataState")
		if root == nil {
			return
		}
		query := ""
		for _, e := range p.closureEnvs(root) {
			for _, st := range p.Statements() {
				if outer(st.In.Parent()) == outer(e.fn) {
					query += st.Query
				}
			}
		}
		if !strings.Contains(query, "'m.") {
			return // everything is loaded
		}
		seen := map[string]bool{}
		for _, e := range p.closureEnvs(root) {
			fnInstrs(e.fn, func(in ssa.Instruction) {
				b, ok := in.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ {
					return
				}
				for _, v := range []ssa.Value{b.X, b.Y} {
					k, ok := strConst(v)
					if !ok || !strings.HasPrefix(k, "m.") || seen[k] {
						continue
					}
					seen[k] = true
					r.Ob(rule, k)
					r.Touch(e.fn)
					if !strings.Contains(query, "'"+k+"'") {
						r.Bad(rule, "ResetMetadataState "+k, r.at(in), "the metadata depends on "+k+" events, which are not loaded")
					}
				}
			})
		}
		r.Floor(rule, 5)
	})
	reg("P22", "whoever waits for a poller is told the outcome, whatever it is", func(r *Report) {
		const rule = "first-sync-answered"
		p := r.P
		c := p.chooser()
		want := func(in ssa.Instruction, e *Env) bool {
			cl := asCall(in)
			return cl != nil && callName(cl) == notify && staticPayload(in) == "pubsub.V2InitialSyncComplete"
		}
		root := r.Fn("sync2/handler2.(*Handler).EnsurePolling")
		if root == nil {
			return
		}
		var f *fwd
		f = p.fwd(c, nil, nil, func(in ssa.Instruction, e *Env) bool {
			if want(in, e) {
				return true
			}
			// in a goroutine (or deferred)
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if _, isCall := in.(*ssa.Call); isCall {
				return false
			}
			mc, ok := ci.Common().Value.(*ssa.MakeClosure)
			var g *ssa.Function
			if ok {
				g, _ = mc.Fn.(*ssa.Function)
			} else {
				g = ci.Common().StaticCallee()
			}
			if g == nil || len(g.Blocks) == 0 || e.on(g) || !inModule(g) {
				return false
			}
			ne := &Env{up: e, fn: g, site: in, d: e.d + 1}
			if mc == nil {
				ne.args = ci.Common().Args
			}
			bad, hit := f.walk(ne, g.Blocks[0], 0)
			return bad == nil && hit
		})
		r.Ob(rule, "answered")
		if bad := f.must(&Env{fn: root}); bad != nil {
			r.Bad(rule, "EnsurePolling", r.at(bad), "the connections waiting for the poller may never be told what became of it")
		}
		// for the device asked about
		for _, e := range p.closureEnvs(root) {
			withGo(e.fn, func(fn *ssa.Function) {
				fnInstrs(fn, func(in ssa.Instruction) {
					if !want(in, nil) {
						return
					}
					r.Ob(rule, "device at "+r.at(in))
					for _, fld := range []string{"UserID", "DeviceID"} {
						if !p22Payload(p, asCall(in).Args[1], fld) {
							r.Bad(rule, "EnsurePolling "+fld, r.at(in), "the outcome is announced for another device than the one asked about")
						}
					}
				})
			})
		}
		r.Floor(rule, 3)
	})
	reg("P05", "a request whose data could not be loaded fails", func(r *Report) {
		const rule = "load-failure-reported"
		p := r.P
		n := 0
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			cl, ok := in.(*ssa.Call)
			if !ok || isTestFn(p, fn) {
				return
			}
			switch callName(&cl.Call) {
			case nCS + "load", "sync3/caches.(*GlobalCache).LoadJoinedRooms", nCS + "onIncomingRequest", nCS + "OnIncomingRequest":
			default:
				return
			}
			if !hasErr(fn) {
				return
			}
			n++
			r.Ob(rule, callName(&cl.Call)+" in "+shortName(fn))
			failFlowOpt(r, rule, outer(fn), func(x ssa.Instruction) bool { return x == in }, func(f *ssa.Function) bool { return f != outer(fn) && hasErr(f) }, "a request is answered as though its data had been loaded")
		})
		r.Floor(rule, 3)
	})
	reg("P09", "no list of identifiers has empty ones in it, which would stand for other data", func(r *Report) {
		const rule = "no-empty-ids"
		p := r.P
		c := p.chooser()
		p.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			ms, ok := in.(*ssa.MakeSlice)
			if !ok || !isStringSlice(ms.Type()) || isIntConst(ms.Len, 0) || isTestFn(p, fn) || relPkg(pkgPath(fn)) == "internal" {
				return
			}
			// where it is filled
			var stores []ssa.Instruction
			uses := sliceUses(ms)
			for _, v := range uses.vals {
				for _, ref := range *v.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
								stores = append(stores, st)
							}
						}
					}
				}
			}
			if len(stores) == 0 || uses.cut {
				return // filled elsewhere, or only a part is used
			}
			r.Ob(rule, "filled at "+r.at(in))
			r.Touch(fn)
			for _, st := range stores {
				h := innermost(st.Block())
				if h == nil {
					continue
				}
				if _, isK := st.(*ssa.Store).Addr.(*ssa.IndexAddr).Index.(*ssa.Const); isK {
					continue
				}
				if c.skips(h, &Env{fn: fn}, func(x ssa.Instruction) bool {
					for _, s := range stores {
						if s == x {
							return true
						}
					}
					return false
				}, nil) {
					r.Bad(rule, shortName(fn), r.at(st), "some of the identifiers of the list may stay empty, and it is used as a whole")
				}
			}
		})
		r.Floor(rule, 1)
	})
}

// withGo: fn and the closures in it.
func withGo(fn *ssa.Function, do func(*ssa.Function)) {
	for _, f := range withClosures(fn) {
		do(f)
	}
}

// p22Payload: the field of the notification is the same field of the request being answered.
func p22Payload(p *Prog, v ssa.Value, field string) bool {
	al, ok := stripIface(v).(*ssa.Alloc)
	if !ok {
		return true
	}
	for _, ref := range *al.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != field {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(fa) {
				continue
			}
			for _, s := range append(append(p.sources(st.Val), p.origins(st.Val)...), st.Val) {
				if isLoadOf(s, "pubsub.V3EnsurePolling", field) || isLoadOf(s, "sync2.PollerID", field) {
					return true
				}
				if pr, ok := s.(*ssa.Parameter); ok && types.Identical(pr.Type().Underlying(), types.Typ[types.String]) {
					return true
				}
			}
			return false
		}
	}
	return false
}

type sliceUse struct {
	vals []ssa.Value
	cut  bool // a part of it is taken
}

// sliceUses: the values which are the slice.
func sliceUses(v ssa.Value) *sliceUse {
	u := &sliceUse{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		u.vals = append(u.vals, v)
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Slice:
				if x.Low != nil || x.High != nil {
					u.cut = true
				}
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, r2 := range *al.Referrers() {
						if ld, ok := r2.(*ssa.UnOp); ok && ld.Op == token.MUL {
							walk(ld)
						}
					}
				}
			}
		}
	}
	walk(v)
	return u
}
