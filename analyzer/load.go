package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/matrix-org/sliding-sync"

// Prog is the type-checked program under analysis, in SSA form.
type Prog struct {
	Dir       string
	Pkgs      []*packages.Package
	SSA       *ssa.Program
	Fset      *token.FileSet
	Funcs     map[string]*ssa.Function // by short name, see shortName
	All       []*ssa.Function          // every function with a body, in a stable order
	Callers   map[*ssa.Function][]ssa.CallInstruction
	ByPath    map[string]*packages.Package
	SPkg      map[string]*ssa.Package
	siteIdx   map[*ssa.Function][]ssa.Instruction
	tells     map[tellsKey]int
	escapes   map[*ssa.Function]bool
	opaqueFns names // see withOpaque
	locks     *Locks
}

// loadDirs lists the package patterns which make up the shipped program.
func loadPatterns(dir string) []string {
	pats := []string{}
	skip := map[string]bool{"tests-e2e": true, "tests-integration": true, "testutils": true, "node_modules": true}
	seen := map[string]bool{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			b := filepath.Base(p)
			if p != dir && (skip[b] || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			d := filepath.Dir(p)
			if !seen[d] {
				seen[d] = true
				rel, _ := filepath.Rel(dir, d)
				if rel == "." {
					pats = append(pats, ".")
				} else {
					pats = append(pats, "./"+rel)
				}
			}
		}
		return nil
	})
	sort.Strings(pats)
	return pats
}

func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ(), Tests: false}
	pkgs, err := packages.Load(cfg, loadPatterns(dir)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	sp, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{Dir: dir, Pkgs: pkgs, SSA: sp, Fset: sp.Fset, Funcs: map[string]*ssa.Function{}, Callers: map[*ssa.Function][]ssa.CallInstruction{}, ByPath: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	for i, pk := range pkgs {
		p.ByPath[relPkg(pk.PkgPath)] = pk
		p.SPkg[relPkg(pk.PkgPath)] = spkgs[i]
	}
	for f := range ssautil.AllFunctions(sp) {
		if f.Blocks == nil || !inModule(f) {
			continue
		}
		p.All = append(p.All, f)
	}
	sort.Slice(p.All, func(i, j int) bool {
		a, b := p.All[i], p.All[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, f := range p.All {
		n := shortName(f)
		if _, dup := p.Funcs[n]; !dup || f.Synthetic == "" {
			p.Funcs[n] = f
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil {
						p.Callers[cal] = append(p.Callers[cal], c)
						if o := cal.Origin(); o != nil && o != cal {
							p.Callers[o] = append(p.Callers[o], c)
						}
					}
				}
			}
		}
	}
	theProg = p
	return p, nil
}

func relPkg(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func fnPkg(f *ssa.Function) *types.Package {
	if f == nil {
		return nil
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	if o := f.Origin(); o != nil && o != f {
		return fnPkg(o)
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func inModule(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && isModPkg(pk)
}

func isModPkg(pk *types.Package) bool {
	return pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/")
}

// shortName: "sync2.(*poller).poll", "state.NewStorage", closures "sync2.(*poller).Poll$1".
func shortName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", ".")
	if strings.HasPrefix(s, "(*") {
		// (*sync2.poller).poll -> sync2.(*poller).poll
		if i := strings.Index(s, ")"); i > 0 {
			recv := s[2:i]
			rest := s[i+1:]
			if j := strings.LastIndex(recv, "."); j >= 0 && !strings.Contains(recv, "[") {
				return recv[:j] + ".(*" + recv[j+1:] + ")" + rest
			}
		}
	} else if strings.HasPrefix(s, "(") {
		if i := strings.Index(s, ")"); i > 0 {
			recv := s[1:i]
			rest := s[i+1:]
			if j := strings.LastIndex(recv, "."); j >= 0 && !strings.Contains(recv, "[") {
				return recv[:j] + ".(" + recv[j+1:] + ")" + rest
			}
		}
	}
	return s
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// InstrPos finds a usable position for an instruction.
func (p *Prog) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if r.Pos().IsValid() {
				return p.Pos(r.Pos())
			}
		}
	}
	b := in.Block()
	if b != nil {
		for _, i2 := range b.Instrs {
			if i2.Pos().IsValid() {
				return p.Pos(i2.Pos())
			}
		}
		return p.Pos(b.Parent().Pos())
	}
	return "?"
}

// calleeObj returns the types.Func called (static or interface method), or nil.
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
		if og := f.Origin(); og != nil {
			if o, ok := og.Object().(*types.Func); ok {
				return o
			}
		}
		// bound method wrappers / thunks
		if f.Synthetic != "" && f.Object() != nil {
			if o, ok := f.Object().(*types.Func); ok {
				return o
			}
		}
	}
	return nil
}

// objName: "sync2.(*poller).poll" style for types.Func; external packages keep their full path.
func objName(o *types.Func) string {
	if o == nil {
		return ""
	}
	if s, ok := objNames[o]; ok {
		return s
	}
	s := objName1(o)
	objNames[o] = s
	return s
}

var objNames = map[*types.Func]string{}

func objName1(o *types.Func) string {
	pkg := ""
	if o.Pkg() != nil {
		pkg = relPkg(o.Pkg().Path())
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			star = "*"
		}
		n := "?"
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
		} else if _, ok := t.(*types.Interface); ok {
			n = "interface"
		}
		return pkg + ".(" + star + n + ")." + o.Name()
	}
	return pkg + "." + o.Name()
}

// callName names what a call instruction calls: objName, builtin name or closure short name.
func callName(c *ssa.CallCommon) string {
	if s, ok := callNames[c]; ok {
		return s
	}
	s := callName1(c)
	callNames[c] = s
	return s
}

var callNames = map[*ssa.CallCommon]string{}

func callName1(c *ssa.CallCommon) string {
	if o := calleeObj(c); o != nil {
		return objName(o)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return shortName(f)
	}
	return ""
}
