package main

import (
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Table is what the CREATE TABLE statements say about a table.
type Table struct {
	Name    string
	Cols    []string
	Uniques [][]string // natural keys: unique column sets none of whose columns is filled from a sequence
	Serial  map[string]bool
}

var (
	createRe = regexp.MustCompile(`(?is)create table(?: if not exists)? (\S+) \(`)
	inlUniq  = regexp.MustCompile(`(?i)\b(unique|primary key)\b`)
	keyListR = regexp.MustCompile(`(?i)^(?:constraint \S+ )?(?:unique|primary key) ?\(([^)]*)\)`)
)

// balanced: the text inside the parenthesis opening at s[i].
func balanced(s string, i int) string {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return s[i+1 : j]
			}
		}
	}
	return s[i+1:]
}

// splitTop splits s at separators outside parentheses; sep is matched case-insensitively.
func splitTop(s, sep string) []string {
	var out []string
	d, last := 0, 0
	low := strings.ToLower(s)
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		}
		if d == 0 && strings.HasPrefix(low[i:], sep) && i >= last {
			out = append(out, strings.TrimSpace(s[last:i]))
			last = i + len(sep)
			i = last - 1
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

// Tables: the schema as created by the shipped program, by table name. The receipts statement is a template.
func (p *Prog) Tables() map[string]*Table {
	out := map[string]*Table{}
	for _, st := range p.Statements() {
		if inMigrations(st.Fn) {
			continue
		}
		for _, m := range createRe.FindAllStringSubmatchIndex(st.Query, -1) {
			name := strings.ToLower(st.Query[m[2]:m[3]])
			t := &Table{Name: name, Serial: map[string]bool{}}
			for _, c := range splitTop(balanced(st.Query, m[1]-1), ",") {
				if k := keyListR.FindStringSubmatch(c); k != nil {
					var cols []string
					for _, x := range strings.Split(k[1], ",") {
						cols = append(cols, strings.ToLower(strings.TrimSpace(x)))
					}
					t.Uniques = append(t.Uniques, cols)
					continue
				}
				f := strings.Fields(c)
				if len(f) < 2 {
					continue
				}
				col := strings.ToLower(f[0])
				t.Cols = append(t.Cols, col)
				if strings.Contains(strings.ToLower(c), "nextval(") || strings.EqualFold(f[1], "bigserial") || strings.EqualFold(f[1], "serial") {
					t.Serial[col] = true
				}
				if inlUniq.MatchString(c) {
					t.Uniques = append(t.Uniques, []string{col})
				}
			}
			var nat [][]string
			for _, u := range t.Uniques {
				ok := true
				for _, c := range u {
					ok = ok && !t.Serial[c]
				}
				if ok {
					nat = append(nat, u)
				}
			}
			t.Uniques = nat
			out[name] = t
		}
	}
	return out
}

func inMigrations(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && strings.HasSuffix(pk.Path(), "/migrations")
}

// Insert is a parsed INSERT.
type Insert struct {
	Cols, Vals     []string
	Conflict       []string // conflict target, nil if none
	Action         string   // "", NOTHING or UPDATE
	Set            map[string]string
	ActionWhere    string
	Returning      bool
	HasConflictTgt bool
}

var (
	insRe  = regexp.MustCompile(`(?is)insert into (?:\S+?)(?: as \S+)? ?\(`)
	confRe = regexp.MustCompile(`(?is)on conflict ?(\(([^)]*)\))? ?do (nothing|update set )`)
)

func parseInsert(q string) *Insert {
	m := insRe.FindStringIndex(q)
	if m == nil {
		return nil
	}
	in := &Insert{Set: map[string]string{}}
	cols := balanced(q, m[1]-1)
	in.Cols = lowerAll(splitTop(cols, ","))
	rest := q[m[1]+len(cols):]
	if i := strings.Index(strings.ToUpper(rest), "VALUES"); i >= 0 {
		if j := strings.Index(rest[i:], "("); j >= 0 {
			in.Vals = splitTop(balanced(rest, i+j), ",")
		}
	}
	if c := confRe.FindStringSubmatchIndex(rest); c != nil {
		if c[4] >= 0 {
			in.Conflict = lowerAll(strings.Split(rest[c[4]:c[5]], ","))
			in.HasConflictTgt = true
		}
		if strings.EqualFold(strings.TrimSpace(rest[c[6]:c[7]]), "nothing") {
			in.Action = "NOTHING"
		} else {
			in.Action = "UPDATE"
			tail := rest[c[1]:]
			if i := strings.Index(strings.ToLower(tail), " returning "); i >= 0 {
				tail = tail[:i]
			}
			if w := splitTop(tail, " where "); len(w) > 1 {
				tail = w[0]
				in.ActionWhere = strings.TrimSuffix(w[1], ";")
			}
			for _, a := range splitTop(strings.TrimSuffix(tail, ";"), ",") {
				if i := strings.Index(a, "="); i > 0 {
					in.Set[strings.ToLower(strings.TrimSpace(a[:i]))] = strings.TrimSpace(a[i+1:])
				}
			}
		}
	}
	in.Returning = strings.Contains(strings.ToLower(rest), "returning")
	return in
}

func lowerAll(in []string) []string {
	var out []string
	for _, s := range in {
		out = append(out, strings.ToLower(strings.TrimSpace(s)))
	}
	return out
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, ",") == strings.Join(y, ",")
}

// Conj is one conjunct "col op rhs" of a WHERE clause.
type Conj struct{ Col, Op, Rhs string }

var conjRe = regexp.MustCompile(`(?is)^([a-z0-9_.]+) ?(=|<>|!=|<=|>=|<|>| is not | is | in ) ?(.+)$`)
var clauseEnd = regexp.MustCompile(`(?is)\s(order by|limit|group by|returning|for update|having|on conflict)\b`)

// where: the conjuncts of the outermost WHERE; nil when there is none. A clause with a top-level OR yields one conjunct with Op "or".
func where(q string) []Conj {
	parts := splitTop(q, " where ")
	if len(parts) < 2 {
		return nil
	}
	w := parts[len(parts)-1]
	// cut at the end of the clause, outside parentheses
	d := 0
	for i := 0; i < len(w); i++ {
		switch w[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if m := clauseEnd.FindStringIndex(w[i:]); m != nil && m[0] == 0 {
					w = w[:i]
				}
			}
		}
	}
	w = strings.TrimSuffix(strings.TrimSpace(w), ";")
	if len(splitTop(w, " or ")) > 1 {
		return []Conj{{"", "or", w}}
	}
	var out []Conj
	for _, c := range splitTop(w, " and ") {
		if m := conjRe.FindStringSubmatch(c); m != nil {
			col := strings.ToLower(m[1])
			if i := strings.LastIndex(col, "."); i >= 0 {
				col = col[i+1:]
			}
			out = append(out, Conj{col, strings.ToLower(strings.TrimSpace(m[2])), strings.TrimSpace(m[3])})
		} else {
			out = append(out, Conj{"", "?", c})
		}
	}
	return out
}

var dollarRe = regexp.MustCompile(`^\$(\d+)$`)
var anyRe = regexp.MustCompile(`(?i)^any ?\( ?(\$\d+) ?\)$`)

// param: the argument bound to a placeholder of the statement, or nil.
func (s *Stmt) param(ph string) ssa.Value {
	if m := anyRe.FindStringSubmatch(ph); m != nil {
		ph = m[1]
	}
	m := dollarRe.FindStringSubmatch(strings.TrimSpace(ph))
	if m == nil {
		return nil
	}
	n, _ := strconv.Atoi(m[1])
	if n < 1 || n > len(s.Params) {
		return nil
	}
	return s.Params[n-1]
}

// role: what a value's names say it identifies: user, device, room, event or "".
func (p *Prog) role(v ssa.Value) string { return p.role1(v, 0, map[ssa.Value]bool{}) }

func nameRole(n string) string {
	l := strings.ToLower(strings.TrimPrefix(n, "$"))
	l = strings.TrimSuffix(l, "s")
	switch {
	case strings.HasSuffix(l, "deviceid"):
		return "device"
	case strings.HasSuffix(l, "userid"), l == "sender":
		return "user"
	case strings.HasSuffix(l, "roomid"):
		return "room"
	case strings.HasSuffix(l, "eventid"):
		return "event"
	}
	return ""
}

func (p *Prog) role1(v ssa.Value, d int, seen map[ssa.Value]bool) string {
	if v == nil || d > 10 || seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return nameRole(x.Name())
	case *ssa.FreeVar:
		return nameRole(x.Name())
	case *ssa.MakeInterface:
		return p.role1(x.X, d+1, seen)
	case *ssa.ChangeType:
		return p.role1(x.X, d+1, seen)
	case *ssa.Convert:
		return p.role1(x.X, d+1, seen)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return nameRole(fieldName(a.X.Type(), a.Field))
		case *ssa.FreeVar:
			return nameRole(a.Name())
		case *ssa.Alloc:
			if r := nameRole(a.Comment); r != "" {
				return r
			}
			for _, st := range storesTo(a) {
				if r := p.role1(st.Val, d+1, seen); r != "" {
					return r
				}
			}
		}
	case *ssa.Field:
		return nameRole(fieldName(x.X.Type(), x.Field))
	case *ssa.Phi:
		if r := nameRole(x.Comment); r != "" {
			return r
		}
		for _, e := range x.Edges {
			if r := p.role1(e, d+1, seen); r != "" {
				return r
			}
		}
	}
	return ""
}
