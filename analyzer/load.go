package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-converted library under analysis.
type Program struct {
	Fset  *token.FileSet
	Pkg   *packages.Package
	SSA   *ssa.Package
	Prog  *ssa.Program
	Funcs []*ssa.Function // every source function of the package, closures included, in source order
	Dir   string

	mods     map[*ssa.Function]*modSet
	addrTaken map[*ssa.Function]bool
	callers  map[*ssa.Function][]*ssa.Call
	scc      map[*ssa.Function]int
	inCycle  map[*ssa.Function]bool
	irCache  map[string]*IR
	al       *aliasInfo
	slot     map[*ssa.Function]int
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadProgram(dir string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "dxverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod := filepath.Join(tmp, "go.mod")
	src, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	var keep []string
	for _, l := range strings.Split(string(src), "\n") {
		if strings.Contains(l, "=>") && strings.Contains(l, "DxCommonLib") {
			continue
		}
		keep = append(keep, l)
	}
	if err := os.WriteFile(mod, []byte(strings.Join(keep, "\n")), 0644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(verifDir(), "analyzer", "repo.go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0644); err != nil {
		return nil, err
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOFLAGS=-mod=mod -modfile="+mod, "GOSUMDB=off")
	if _, err := exec.LookPath("go"); err != nil {
		return nil, fmt.Errorf("go command not found: %v", err)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  env,
		Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, got %d", dir, len(pkgs))
	}
	if n := len(pkgs[0].Errors); n > 0 {
		return nil, fmt.Errorf("package does not type-check: %v", pkgs[0].Errors[0])
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if spkgs[0] == nil {
		return nil, fmt.Errorf("no SSA for %s", dir)
	}
	spkgs[0].Build()
	p := &Program{Fset: cfg.Fset, Pkg: pkgs[0], SSA: spkgs[0], Prog: prog, Dir: dir, irCache: map[string]*IR{}}
	p.collectFuncs()
	p.buildCallInfo()
	p.computeNonNilGlobals()
	return p, nil
}

func (p *Program) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.SSA.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(p.Prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		pa, pb := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos())
		if pa.Filename != pb.Filename {
			return pa.Filename < pb.Filename
		}
		if pa.Offset != pb.Offset {
			return pa.Offset < pb.Offset
		}
		return a.String() < b.String()
	})
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// fnByName finds a package function ("parse") or method ("(*DxValue).Reset", "DxValue.Reset" both work).
func (p *Program) fnByName(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

// fnName: "Reset" for functions, "DxValue.Reset" for methods, "outer$1" for closures.
func fnName(f *ssa.Function) string {
	if f.Parent() != nil {
		return fnName(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + f.Name()
		}
	}
	return f.Name()
}

func (p *Program) internal(f *ssa.Function) bool {
	return f != nil && f.Blocks != nil && f.Pkg == p.SSA
}

func isExported(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil {
		return false
	}
	if !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

func (p *Program) buildCallInfo() {
	p.addrTaken = map[*ssa.Function]bool{}
	p.callers = map[*ssa.Function][]*ssa.Call{}
	edges := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var cc *ssa.CallCommon
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc = ci.Common()
					if g := cc.StaticCallee(); g != nil && p.internal(g) {
						edges[f] = append(edges[f], g)
						if c, ok := in.(*ssa.Call); ok {
							p.callers[g] = append(p.callers[g], c)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					var g *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						g = v
					case *ssa.MakeClosure:
						g = v.Fn.(*ssa.Function)
					}
					if g == nil || !p.internal(g) {
						continue
					}
					if cc != nil && *op == cc.Value && !cc.IsInvoke() {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue // judged where the closure is used
					}
					p.addrTaken[g] = true
					edges[f] = append(edges[f], g)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			edges[f] = append(edges[f], a)
		}
	}
	// strongly connected components (Tarjan)
	p.scc = map[*ssa.Function]int{}
	p.inCycle = map[*ssa.Function]bool{}
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n, comp := 0, 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		for _, g := range edges[f] {
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
			if g == f {
				p.inCycle[f] = true
			}
		}
		if low[f] == idx[f] {
			comp++
			var members []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				p.scc[g] = comp
				members = append(members, g)
				if g == f {
					break
				}
			}
			if len(members) > 1 {
				for _, g := range members {
					p.inCycle[g] = true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if idx[f] == 0 {
			visit(f)
		}
	}
}

// reachable returns the internal functions reachable from roots through static calls, closures and address-taken functions.
func (p *Program) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.internal(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						visit(v)
					case *ssa.MakeClosure:
						visit(v.Fn.(*ssa.Function))
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}
