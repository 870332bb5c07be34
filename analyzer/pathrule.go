package main

import (
	"regexp"

	"golang.org/x/tools/go/ssa"
)

var reCache = map[string]*regexp.Regexp{}

func re(p string) *regexp.Regexp {
	if r, ok := reCache[p]; ok {
		return r
	}
	r := regexp.MustCompile(p)
	reCache[p] = r
	return r
}

// lit matches a decided branch condition: atom text and outcome.
func (l Lit) is(pattern string, pol bool) bool {
	return l.Atom != nil && l.Pol == pol && re(pattern).MatchString(l.Atom.String())
}

// Ev is one event on a path, as seen by path rules.
type Ev struct {
	X        *Explorer
	S        *State
	In       ssa.Instruction
	Deferred bool
	Name     string // callee name for calls
}

func (e Ev) isCall(n ...string) bool { return e.Name != "" && names(n).has(e.Name) }

// arg is the term of the i'th argument, not counting the receiver of interface calls.
func (e Ev) arg(i int) *Term {
	c := asCall(e.In)
	if c == nil || i >= len(c.Args) {
		return mk("opaque", "noarg")
	}
	return e.X.Term(e.S, mkCV(e.S.ctx, c.Args[i]))
}

// argm is the i'th argument after the receiver, for static methods and interface methods alike.
func (e Ev) argm(i int) *Term {
	c := asCall(e.In)
	if c == nil {
		return mk("opaque", "noarg")
	}
	if !c.IsInvoke() && c.Signature().Recv() != nil {
		i++
	}
	return e.arg(i)
}

// recv is the receiver term of a method call.
func (e Ev) recv() *Term {
	c := asCall(e.In)
	if c == nil {
		return mk("opaque", "noarg")
	}
	if c.IsInvoke() {
		return e.X.Term(e.S, mkCV(e.S.ctx, c.Value))
	}
	return e.arg(0)
}

// PathRule is a Query in terms of named bits.
type PathRule struct {
	Rule  string
	Root  *ssa.Function
	Calls []string // callee names which are events
	Inst  func(ssa.Instruction) bool
	On    func(e Ev) Action
	Lit   func(x *Explorer, s *State, l Lit)
	Back  func(x *Explorer, s *State, hdr *ssa.BasicBlock)
	Exit  func(x *Explorer, s *State, kind ExitKind, res []CV)
	Stop  func(*ssa.Function) bool
	Inl   func(*ssa.Function) bool
	Init  uint64
}

func (r *Report) Path(pr PathRule) *Explorer {
	if pr.Root == nil {
		return nil
	}
	n := names(pr.Calls)
	rel := func(in ssa.Instruction) bool {
		return (len(n) > 0 && calls(in, n)) || (pr.Inst != nil && pr.Inst(in))
	}
	q := &Query{Relevant: rel, Stop: pr.Stop, Inline: pr.Inl, Exit: pr.Exit, Back: pr.Back, InitBits: pr.Init}
	q.Step = func(x *Explorer, s *State, in ssa.Instruction, deferred bool) Action {
		if !rel(in) {
			return Go
		}
		if _, isDefer := in.(*ssa.Defer); isDefer && !deferred {
			return Go
		}
		nm := ""
		if c := asCall(in); c != nil {
			nm = callName(c)
		}
		if pr.On != nil {
			return pr.On(Ev{x, s, in, deferred, nm})
		}
		return Go
	}
	if pr.Lit != nil {
		q.Edge = func(x *Explorer, s *State, ifi *ssa.If, l Lit) Action {
			pr.Lit(x, s, l)
			return Go
		}
	}
	return r.Explore(pr.Root, q)
}

func (r *Report) at(in ssa.Instruction) string { return r.P.InstrPos(in) }
