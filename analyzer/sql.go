package main

import (
	"go/constant"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Stmt is one SQL statement issued by the program.
type Stmt struct {
	Fn     *ssa.Function
	In     ssa.CallInstruction
	Name   string // sqlx/sql method
	Query  string // normalised text; <?> where a part is not constant
	Verb   string // SELECT INSERT UPDATE DELETE CREATE ...
	Table  string
	Params []ssa.Value // positional arguments after the query ($1...), nil if passed as a slice
	Named  ssa.Value   // argument of Named* statements
	OnTx   bool
}

var sqlRe = regexp.MustCompile(`^(github\.com/jmoiron/sqlx|database/sql)\.\(\*?(DB|Tx|Ext|Queryer|Execer|NamedStmt|Stmt|Conn)\)\.(.+)$`)
var wsRe = regexp.MustCompile(`\s+`)
var commentRe = regexp.MustCompile(`(?m)--.*$`)

// constStr folds a string value to its constant text, with <?> for unknown parts.
func constStr(v ssa.Value, d int) string {
	if d > 8 {
		return "<?>"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value)
		}
	case *ssa.BinOp:
		if x.Op.String() == "+" {
			return constStr(x.X, d+1) + constStr(x.Y, d+1)
		}
	case *ssa.Call:
		if callName(&x.Call) == "fmt.Sprintf" {
			return constStr(x.Call.Args[0], d+1)
		}
		if callName(&x.Call) == "github.com/jmoiron/sqlx.(*DB).Rebind" || callName(&x.Call) == "github.com/jmoiron/sqlx.(*Tx).Rebind" {
			return constStr(x.Call.Args[1], d+1)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && callName(&c.Call) == "github.com/jmoiron/sqlx.In" && x.Index == 0 {
			return constStr(c.Call.Args[0], d+1)
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			if st, ok := singleStore(a); ok {
				return constStr(st.Val, d+1)
			}
		}
	case *ssa.Phi:
		if s := singlePhi(x); s != nil {
			return constStr(s, d+1)
		}
		var parts []string
		for _, e := range x.Edges {
			parts = append(parts, constStr(e, d+2))
		}
		return "<?" + strings.Join(parts, "|") + "?>"
	}
	return "<?>"
}

func normSQL(q string) string {
	q = commentRe.ReplaceAllString(q, "")
	q = wsRe.ReplaceAllString(q, " ")
	return strings.TrimSpace(q)
}

var stmtCache []*Stmt

// Statements lists every SQL statement of the shipped program. Helpers which take the query as a parameter are
// attributed to their callers.
func (p *Prog) Statements() []*Stmt {
	if stmtCache != nil {
		return stmtCache
	}
	for _, fn := range p.All {
		fn := fn
		fnInstrs(fn, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := c.Common()
			n := callName(cc)
			m := sqlRe.FindStringSubmatch(n)
			if m == nil {
				return
			}
			args := cc.Args
			if !cc.IsInvoke() && len(args) > 0 {
				args = args[1:]
			}
			qi := -1
			switch strings.TrimPrefix(m[3], "Must") {
			case "Exec", "Query", "Queryx", "QueryRow", "QueryRowx", "NamedExec", "NamedQuery", "Prepare", "Preparex", "PrepareNamed":
				qi = 0
			case "Get", "Select", "ExecContext", "QueryContext", "QueryRowContext":
				qi = 1
			case "GetContext", "SelectContext":
				qi = 2
			}
			if qi < 0 || qi >= len(args) {
				return
			}
			var rest []ssa.Value
			if qi+1 < len(args) {
				rest = args[qi+1:]
			}
			st := &Stmt{Fn: fn, In: c, Name: m[3], OnTx: m[2] == "Tx"}
			if prm, ok := args[qi].(*ssa.Parameter); ok {
				// the query comes from the callers
				pi := paramIndex(prm)
				for _, g := range p.callSites(fn) {
					gc := g.Common()
					if pi < len(gc.Args) {
						s2 := *st
						s2.Fn, s2.In = g.Parent(), g
						s2.Query = normSQL(constStr(gc.Args[pi], 0))
						s2.fill()
						// positional parameters which are parameters of the helper come from the caller too
						for _, v := range varargs(rest) {
							for {
								if mi, ok := v.(*ssa.MakeInterface); ok {
									v = mi.X
									continue
								}
								break
							}
							if pp, ok := v.(*ssa.Parameter); ok && paramIndex(pp) < len(gc.Args) {
								v = gc.Args[paramIndex(pp)]
							}
							s2.Params = append(s2.Params, v)
						}
						stmtCache = append(stmtCache, &s2)
					}
				}
				return
			}
			st.Query = normSQL(constStr(args[qi], 0))
			st.fill()
			if strings.HasPrefix(m[3], "Named") {
				if len(rest) > 0 {
					st.Named = rest[0]
				}
			} else {
				st.Params = varargs(rest)
			}
			stmtCache = append(stmtCache, st)
		})
	}
	return stmtCache
}

// varargs unpacks the compiler's slice for a variadic call.
func varargs(rest []ssa.Value) []ssa.Value {
	if len(rest) != 1 {
		return rest
	}
	sl, ok := rest[0].(*ssa.Slice)
	if !ok {
		return rest
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return rest
	}
	out := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return rest
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				out[k.Int64()] = st.Val
			}
		}
	}
	var vs []ssa.Value
	for i := int64(0); i < int64(len(out)); i++ {
		vs = append(vs, out[i])
	}
	return vs
}

// callSites: static call instructions of fn.
func (p *Prog) callSites(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	p.instrs(func(g *ssa.Function, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
			out = append(out, c)
		}
	})
	return out
}

var verbRe = regexp.MustCompile(`(?i)^\(?\s*([a-z]+)`)
var tableRe = regexp.MustCompile(`(?i)\b(?:from|into|update|join|table(?: if not exists)?)\s+(syncv3_[a-z0-9_]+)`)

func (s *Stmt) fill() {
	if m := verbRe.FindStringSubmatch(s.Query); m != nil {
		s.Verb = strings.ToUpper(m[1])
	}
	if s.Verb == "WITH" {
		q := strings.ToUpper(s.Query)
		switch {
		case strings.Contains(q, "INSERT INTO"):
			s.Verb = "INSERT"
		case strings.Contains(q, "DELETE FROM"):
			s.Verb = "DELETE"
		case regexp.MustCompile(`\bUPDATE SYNCV3`).MatchString(q):
			s.Verb = "UPDATE"
		default:
			s.Verb = "SELECT"
		}
	}
	if m := tableRe.FindStringSubmatch(s.Query); m != nil {
		s.Table = strings.ToLower(m[1])
	}
}

func (s *Stmt) isWrite() bool {
	return s.Verb == "INSERT" || s.Verb == "UPDATE" || s.Verb == "DELETE"
}

// tables mentioned by the statement.
func (s *Stmt) tables() []string {
	var out []string
	seen := map[string]bool{}
	for _, m := range tableRe.FindAllStringSubmatch(s.Query, -1) {
		t := strings.ToLower(m[1])
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}
