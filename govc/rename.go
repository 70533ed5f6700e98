package main

// Renamed identifiers.  The contracts and the harness name unexported functions,
// fields and variables of the repository as they were when they were written
// (contracts/names.txt).  When one of those names is gone and its package (or its
// type) has a new name of the same kind and type instead, the new name is read as
// the old one: every occurrence, as the type checker resolves it, is replaced in
// memory before the program is verified and run.  Nothing else changes, so what
// is verified is the same program up to the choice of that name.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type declName struct {
	group, name string // group: kind, owner and type
	obj         types.Object
}

// declNames: the functions, methods, fields and variables the module declares,
// in source order.
func declNames(pkgs []*packages.Package, module string) []declName {
	var out []declName
	ps := append([]*packages.Package(nil), pkgs...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	qual := func(p *types.Package) string { return p.Path() }
	for _, p := range ps {
		if !strings.HasPrefix(p.PkgPath, module) || p.Types == nil {
			continue
		}
		var objs []types.Object
		owner := map[types.Object]string{}
		for _, n := range p.Types.Scope().Names() {
			o := p.Types.Scope().Lookup(n)
			switch o := o.(type) {
			case *types.Func, *types.Var:
				objs = append(objs, o)
			case *types.TypeName:
				nt, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i)
					owner[m] = "." + n
					objs = append(objs, m)
				}
				if u, ok := nt.Underlying().(*types.Struct); ok {
					for i := 0; i < u.NumFields(); i++ {
						if f := u.Field(i); !f.Embedded() {
							owner[f] = "." + n
							objs = append(objs, f)
						}
					}
				}
			}
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
		for _, o := range objs {
			kind := "var"
			if v, ok := o.(*types.Var); ok && v.IsField() {
				kind = "field"
			} else if _, ok := o.(*types.Func); ok {
				kind = "func"
			}
			if o.Name() == "_" || o.Name() == "init" || o.Name() == "main" || o.Exported() {
				continue
			}
			t := types.TypeString(o.Type(), qual)
			if f, ok := o.(*types.Func); ok { // without the parameters' names
				sig := f.Type().(*types.Signature)
				var ts []string
				for _, tup := range []*types.Tuple{sig.Params(), sig.Results()} {
					for i := 0; i < tup.Len(); i++ {
						ts = append(ts, types.TypeString(tup.At(i).Type(), qual))
					}
					ts = append(ts, "->")
				}
				t = strings.Join(ts, ",")
			}
			out = append(out, declName{group: kind + " " + p.PkgPath + owner[o] + " " + strings.ReplaceAll(t, " ", ""), name: o.Name(), obj: o})
		}
	}
	return out
}

func moduleOf(pkgs []*packages.Package) string {
	for _, p := range pkgs {
		if p.Module != nil {
			return p.Module.Path
		}
	}
	return ""
}

func namesFile() string { return verifDir + "/contracts/names.txt" }

func writeNames(pkgs []*packages.Package) error {
	var sb strings.Builder
	for _, d := range declNames(pkgs, moduleOf(pkgs)) {
		fmt.Fprintf(&sb, "%s %s\n", d.group, d.name)
	}
	return os.WriteFile(namesFile(), []byte(sb.String()), 0o644)
}

// unrename: the files of the repository with new names read as the old ones.
func unrename(pkgs []*packages.Package, fset *token.FileSet) (map[string][]byte, []string) {
	b, err := os.ReadFile(namesFile())
	if err != nil {
		return nil, nil
	}
	was := map[string][]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.LastIndexByte(l, ' '); i > 0 {
			was[l[:i]] = append(was[l[:i]], l[i+1:])
		}
	}
	is := map[string][]declName{}
	for _, d := range declNames(pkgs, moduleOf(pkgs)) {
		is[d.group] = append(is[d.group], d)
	}
	// a name counts as gone only if its package or type has none of that name
	nameIn := func(g string) string { return g[:strings.LastIndexByte(g, ' ')] }
	scope := func(g string) string { // kinds share the scope of a package or a type
		n := nameIn(g)
		return n[strings.IndexByte(n, ' ')+1:]
	}
	old, cur := map[string]bool{}, map[string]bool{}
	for g, ns := range was {
		for _, n := range ns {
			old[scope(g)+" "+n] = true
		}
	}
	for g, ns := range is {
		for _, d := range ns {
			cur[scope(g)+" "+d.name] = true
		}
	}
	ren := map[types.Object]string{}
	var notes []string
	for _, g := range sortedKeys(was) {
		var gone []string
		var added []declName
		for _, n := range was[g] {
			if !cur[scope(g)+" "+n] {
				gone = append(gone, n)
			}
		}
		for _, d := range is[g] {
			if !old[scope(g)+" "+d.name] {
				added = append(added, d)
			}
		}
		if len(gone) == 0 || len(gone) != len(added) {
			continue
		}
		for i, d := range added {
			ren[d.obj] = gone[i]
			notes = append(notes, fmt.Sprintf("%s.%s is read as %s", scope(g), d.name, gone[i]))
		}
	}
	if len(ren) == 0 {
		return nil, nil
	}
	type edit struct {
		off, n int
		text   string
	}
	edits := map[string][]edit{}
	capture := false
	note := func(p *packages.Package, id *ast.Ident, o types.Object) {
		switch v := o.(type) {
		case *types.Var:
			o = v.Origin()
		case *types.Func:
			o = v.Origin()
		}
		to, ok := ren[o]
		if !ok || id.Name != o.Name() {
			return
		}
		if o.Parent() != nil && o.Parent() == o.Pkg().Scope() && o.Pkg() == p.Types { // a local name must not hide it
			if sc := p.Types.Scope().Innermost(id.Pos()); sc != nil {
				if _, q := sc.LookupParent(to, id.Pos()); q != nil && q.Parent() != types.Universe {
					capture = true
				}
			}
		}
		ps := fset.Position(id.Pos())
		edits[ps.Filename] = append(edits[ps.Filename], edit{ps.Offset, len(id.Name), to})
	}
	for _, p := range pkgs {
		if p.TypesInfo == nil {
			continue
		}
		for id, o := range p.TypesInfo.Defs {
			if o != nil {
				note(p, id, o)
			}
		}
		for id, o := range p.TypesInfo.Uses {
			note(p, id, o)
		}
	}
	if capture {
		return nil, nil
	}
	out := map[string][]byte{}
	for f, es := range edits {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, nil
		}
		sort.Slice(es, func(i, j int) bool { return es[i].off < es[j].off })
		var sb []byte
		at := 0
		for i, e := range es {
			if i > 0 && es[i-1].off == e.off {
				continue
			}
			sb = append(append(sb, src[at:e.off]...), e.text...)
			at = e.off + e.n
		}
		out[f] = append(sb, src[at:]...)
	}
	return out, notes
}
