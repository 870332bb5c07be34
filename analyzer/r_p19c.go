package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P19", "every mutex is used: the accesses it was declared for take it", func(r *Report) {
		taken := map[string]bool{}
		r.P.instrs(func(fn *ssa.Function, in ssa.Instruction) {
			if c := asCall(in); c != nil {
				if k, m, ok := lockOp(c); ok && m > 0 {
					taken[k] = true
				}
			}
		})
		for n, st := range r.P.guardedStructs() {
			if strings.HasPrefix(n, "testutils") {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); isMutex(f.Type()) {
					k := n + "." + f.Name()
					r.Ob("mutex used", k)
					if !taken[k] {
						r.Bad("mutex used", k, r.P.Pos(f.Pos()), k+" is never locked: the state it guards is not protected")
					}
				}
			}
		}
		r.Floor("mutex used", 10)
	})
	reg("P19", "a variable outside a goroutine which several goroutines write is written under a lock", func(r *Report) {
		l := p19Locks(r.P)
		for _, fn := range r.P.All {
			var gos []*ssa.Go
			fnInstrs(fn, func(in ssa.Instruction) {
				if g, ok := in.(*ssa.Go); ok {
					gos = append(gos, g)
				}
			})
			for _, g := range gos {
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				r.Ob("goroutine variables", shortName(mc.Fn.(*ssa.Function)))
				r.Touch(mc.Fn.(*ssa.Function))
				for i, b := range mc.Bindings {
					a, ok := b.(*ssa.Alloc)
					if !ok {
						continue
					}
					st := unlockedStore(l, mc.Fn.(*ssa.Function).FreeVars[i], 0)
					if st == nil {
						continue
					}
					loop := innermostLoop(g.Block())
					shared := loop != nil && !inLoop(a.Block(), loop)
					for _, g2 := range gos {
						if g2 == g {
							continue
						}
						if mc2, ok := g2.Call.Value.(*ssa.MakeClosure); ok {
							for _, b2 := range mc2.Bindings {
								shared = shared || b2 == b
							}
						}
					}
					if shared {
						r.Bad("goroutine variables", shortName(fn)+" "+a.Comment, r.at(st), fmt.Sprintf("several goroutines started by %s write its variable %s without a lock", shortName(fn), a.Comment))
					}
				}
			}
		}
		r.Floor("goroutine variables", 3)
	})
	reg("P19", "an entry of a shared cache which is replaced by a value depending on the entry read before is read and replaced in one critical section", func(r *Report) {
		l := p19Locks(r.P)
		for _, fn := range r.P.All {
			var gets, sets []ssa.Instruction
			fnInstrs(fn, func(in ssa.Instruction) {
				c, ok := in.(*ssa.Call)
				if !ok {
					return
				}
				switch cacheOp(l, &c.Call, 0) {
				case "Set":
					sets = append(sets, in)
				case "Get":
					gets = append(gets, in)
				}
			})
			for _, s := range sets {
				for _, g := range gets {
					if !canReach(g, s) {
						continue
					}
					r.Ob("cache entry", shortName(fn))
					r.Touch(fn)
					ok := false
					for k := range meet(l.At(g), l.At(s)) {
						ok = ok || !l.releasedBetween(g, s, k)
					}
					if !ok {
						r.Bad("cache entry", shortName(fn), r.at(s), fmt.Sprintf("%s looks an entry up at %s and replaces it, but no lock is held throughout: of two concurrent calls, one is lost", shortName(fn), r.at(g)))
					}
				}
			}
		}
		r.Floor("cache entry", 1)
	})
}

// cacheOp: c reads (Get) or writes (Set) a ttlcache, directly or (reads) through a module function.
func cacheOp(l *Locks, c *ssa.CallCommon, d int) string {
	f := c.StaticCallee()
	if f == nil || d > 2 {
		return ""
	}
	if f.Signature.Recv() != nil && strings.HasSuffix(typeName(f.Signature.Recv().Type()), "ttlcache/v2.Cache") {
		switch f.Name() {
		case "Get", "GetWithTTL", "GetByLoader":
			return "Get"
		case "Set", "SetWithTTL":
			return "Set"
		}
		return ""
	}
	if inModule(f) {
		found := ""
		fnInstrs(f, func(in ssa.Instruction) {
			if c2, ok := in.(*ssa.Call); ok {
				switch cacheOp(l, &c2.Call, d+1) {
				case "Get":
					found = "Get"
				case "Set":
					if found == "" {
						found = "Set"
					}
				}
			}
		})
		if f.Signature.Results().Len() == 0 && found == "Get" || token.IsExported(f.Name()) && found == "Set" {
			return ""
		}
		return found
	}
	return ""
}

func canReach(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexOf(a) < indexOf(b)
	}
	return reachesWithout(a.Block(), b.Block(), nil)
}

func inLoop(b, header *ssa.BasicBlock) bool {
	if !header.Dominates(b) {
		return false
	}
	for _, p := range header.Preds {
		if header.Dominates(p) && (p == b || reachesWithout(b, p, header)) {
			return true
		}
	}
	return false
}

// unlockedStore: a store to the captured variable fv with no lock held.
func unlockedStore(l *Locks, fv ssa.Value, d int) ssa.Instruction {
	if fv.Referrers() == nil || d > 3 {
		return nil
	}
	for _, u := range *fv.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == fv && len(l.At(u)) == 0 {
				return u
			}
		case *ssa.UnOp:
			if _, ok := u.Type().Underlying().(*types.Map); ok {
				for _, x := range *u.Referrers() {
					if mu, ok := x.(*ssa.MapUpdate); ok && mu.Map == u && len(l.At(mu)) == 0 {
						return mu
					}
				}
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == fv {
					if st := unlockedStore(l, u.Fn.(*ssa.Function).FreeVars[i], d+1); st != nil {
						return st
					}
				}
			}
		}
	}
	return nil
}
