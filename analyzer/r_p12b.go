package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("P12", "a departure the homeserver reports (a leave or a ban of the user, in the leave section of a response) is found in the timeline whatever else is there, so that the invite ends and connections are told", p12Departures)
}

// p12Departures: the search for the user's own leave event passes over an event only where it is known that its membership
// is not leave, likewise not ban, or that it is about somebody else.
func p12Departures(r *Report) {
	const rule = "departure-found"
	p := r.P
	root := p.Funcs["sync2.(*poller).parseRoomsResponse"]
	if root == nil {
		return
	}
	c := p.chooser()
	n := 0
	for _, e := range p.contexts(root) {
		e := e
		for h, pa := range c.loops(e) {
			if !strings.Contains(pa, ".Rooms.Leave") || !strings.Contains(pa, ".Timeline.Events") {
				continue
			}
			body := loopBlocks(h)
			uses := false
			for b := range body {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && (constString(k.Value) == `"content.membership"` || constString(k.Value) == "content.membership") {
							uses = true
						}
					}
				}
			}
			if !uses {
				continue
			}
			n++
			r.Touch(e.fn)
			for _, mem := range []string{"leave", "ban"} {
				r.Ob(rule, shortName(e.fn)+" "+mem)
				g := func(cd Cond) bool {
					b, ok := cd.V.(*ssa.BinOp)
					if !ok || b.Op != token.EQL && b.Op != token.NEQ {
						return false
					}
					ne := cd.Pol == (b.Op == token.NEQ)
					if !ne {
						return false
					}
					for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if k, ok := stripConv(pr[1]).(*ssa.Const); ok && k.Value != nil {
							if s := strings.Trim(constString(k.Value), `"`); s == mem {
								return true
							}
							continue
						}
						if p1 := c.Path(pr[1], cd.E); strings.HasSuffix(p1, ".userID") || strings.HasSuffix(p1, ".UserID") {
							return true
						}
					}
					return false
				}
				if at := p12Passed(c, h, body, e, g); at != nil {
					r.Bad(rule, shortName(e.fn)+" "+mem, r.at(at), "the user's own "+mem+" event can be passed over: the invite would stay and connections not be told")
				}
			}
		}
	}
	if n == 0 {
		r.Bad(rule, "parseRoomsResponse", p.Pos(root.Pos()), "the leave event of a room the user left is not looked for")
	}
}

// p12Passed: a turn of the loop ends with the event neither taken (into a variable) nor known to be something else.
func p12Passed(c *chooser, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, e *Env, g CondGuard) ssa.Instruction {
	k := c.guard(g, e)
	takes := func(b, s *ssa.BasicBlock) bool {
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				return false
			}
			if ph.Type().Underlying().String() != "[]byte" {
				continue
			}
			for i, pb := range s.Preds {
				if pb != b {
					continue
				}
				v := ph.Edges[i]
				if _, isPhi := v.(*ssa.Phi); isPhi {
					continue
				}
				if kk, isC := v.(*ssa.Const); isC && kk.Value == nil {
					continue
				}
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad ssa.Instruction
	var fwd func(b *ssa.BasicBlock)
	fwd = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if k.cuts(b, s, nil, 0) || takes(b, s) {
				continue
			}
			if s == h {
				bad = b.Instrs[len(b.Instrs)-1]
				continue
			}
			if !seen[s] && body[s] {
				seen[s] = true
				fwd(s)
			}
		}
	}
	for _, s := range h.Succs {
		if body[s] && s != h && !seen[s] {
			seen[s] = true
			fwd(s)
		}
	}
	return bad
}
