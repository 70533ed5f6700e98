package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	singles     map[*ssa.Global]*Single
	singleTypes map[string]bool // types of the singletons
	onces       map[*ssa.Global]bool
	underMutex  map[string]string // shared fields kept under a mutex: its name
	mutKeys     map[string]bool   // field and map keys written at run time
	locks       map[*ssa.Function]bool
	callersOf   map[*ssa.Function][]*ssa.Function
	asValue     map[*ssa.Function]bool
	notes       []string
	mutBy       map[string]map[string]bool
	callers     map[*ssa.Function][]*ssa.Function
	escapes     map[*ssa.Function]bool
	repo        string
	module      string
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // by short name
	funcs       map[string]*ssa.Function
	byName      map[string]*types.Package
	loops       map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	named       []*types.Named       // in-repo named types
	globals     map[*ssa.Global]bool // mutated outside init
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	exits  bool // the header itself has an exit edge
	ord    int
}

func shortPkg(path, module string) string {
	if path == module {
		return "main"
	}
	p := strings.TrimPrefix(path, module+"/")
	if p == path {
		// external: last element unless it is a version
		return path
	}
	if p == "test/client" {
		return "testclient"
	}
	i := strings.LastIndex(p, "/")
	return p[i+1:]
}

// repoOverlay: files with renamed identifiers read as the old ones.
var repoOverlay map[string][]byte

func loadErr(pkgs []*packages.Package) error {
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	return nil
}

func loadPkgs(repo string) ([]*packages.Package, *packages.Config, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  repo,
		Fset: token.NewFileSet(),
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	return pkgs, cfg, nil
}

func loadProgram(repo string) (*Program, error) {
	pkgs, cfg, err := loadPkgs(repo)
	if err != nil {
		return nil, err
	}
	if err := loadErr(pkgs); err != nil {
		return nil, err
	}
	var renamed []string
	if ov, notes := unrename(pkgs, cfg.Fset); len(ov) > 0 {
		cfg2 := *cfg
		cfg2.Fset = token.NewFileSet()
		cfg2.Overlay = ov
		if ps, err := packages.Load(&cfg2, "./..."); err == nil && loadErr(ps) == nil {
			pkgs, renamed, repoOverlay = ps, notes, ov
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{repo: repo, notes: renamed, prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{},
		byName: map[string]*types.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, globals: map[*ssa.Global]bool{}}
	for _, p := range pkgs {
		if p.Module != nil {
			P.module = p.Module.Path
		}
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		n := shortPkg(sp.Pkg.Path(), P.module)
		P.pkgs[n] = sp
		P.byName[n] = sp.Pkg
		for _, imp := range sp.Pkg.Imports() {
			if _, ok := P.byName[imp.Name()]; !ok && !strings.HasPrefix(imp.Path(), P.module) {
				P.byName[imp.Name()] = imp
			}
		}
		var names []string
		for mn := range sp.Members {
			names = append(names, mn)
		}
		sort.Strings(names)
		for _, mn := range names {
			if t, ok := sp.Members[mn].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok {
					P.named = append(P.named, nt)
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), P.module) || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		P.funcs[P.key(fn)] = fn
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						P.globals[g] = true
					}
					continue
				}
				// an address of a global used other than by load/store counts as mutation
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						if u, isU := in.(*ssa.UnOp); isU && u.X == g {
							continue
						}
						P.globals[g] = true
					}
				}
			}
		}
	}
	return P, nil
}

// key: "protocol.(*JT808PacketCodec).escape", "api.Run$1".
func (P *Program) key(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	return shortPkg(fn.Pkg.Pkg.Path(), P.module) + "." + fn.RelString(fn.Pkg.Pkg)
}

func (P *Program) inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == P.module || strings.HasPrefix(p.Path(), P.module+"/"))
}

func (P *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := P.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				l := m[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	n := 0
	for _, b := range fn.Blocks {
		if l := m[b]; l != nil {
			n++
			l.ord = n
			for _, s := range b.Succs {
				if !l.blocks[s] {
					l.exits = true
				}
			}
		}
	}
	P.loops[fn] = m
	return m
}

func (P *Program) typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path(), P.module) })
}

// implementers lists the in-repo pointer/value types implementing an interface.
func (P *Program) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range P.named {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(n, it) {
			out = append(out, n)
		} else if types.Implements(types.NewPointer(n), it) {
			out = append(out, types.NewPointer(n))
		}
	}
	return out
}
