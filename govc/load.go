package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// modPath is the module that is verified.
const modPath = "github.com/gostdlib/concurrency"

// The packages whose functions are put under contract.
var verifiedPkgs = []string{
	"goroutines",
	"goroutines/internal/pool",
	"goroutines/internal/register",
	"goroutines/limited",
	"goroutines/pooled",
	"prim/atomics",
	"prim/slices",
	"prim/chans",
	"prim/wait",
	"pipelines/stagedpipe",
	"pipelines/stagedpipe/internal/queue",
}

// Program is the loaded source.
type Program struct {
	repo  string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by path relative to the module
	types map[string]*types.Package
	mu    sync.Mutex
	once  map[*ssa.Global]ssa.Value
	// names of the fields when the contracts were written, to find those that were renamed
	baseline map[string]map[string]string
	renamed  map[string]string // pkg.Type that contracts know to the name that it has now
}

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	var pats []string
	for _, p := range verifiedPkgs {
		pats = append(pats, modPath+"/"+p)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the source does not load: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(initial, 0)
	prog.Build()
	P := &Program{repo: repo, fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, types: map[string]*types.Package{}, once: map[*ssa.Global]ssa.Value{}, baseline: map[string]map[string]string{}}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		rel := strings.TrimPrefix(p.Pkg.Path(), modPath+"/")
		P.pkgs[rel] = p
	}
	for _, p := range prog.AllPackages() {
		P.types[p.Pkg.Path()] = p.Pkg
	}
	return P, nil
}

// lookup finds a function by package and name: "New", "(*Pool).Submit".
func (P *Program) lookup(pkg, name string) *ssa.Function {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	if !strings.HasPrefix(name, "(") {
		return p.Func(name)
	}
	i := strings.Index(name, ").")
	recv, meth := strings.TrimPrefix(name[1:i], "*"), name[i+2:]
	t := P.typeNamed(pkg, recv)
	if t == nil {
		return nil
	}
	named, ok := t.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Name() == meth {
			return P.prog.FuncValue(m)
		}
	}
	return nil
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, P.repo+"/"), q.Line)
}

// inModule says if fn's source is part of the verified module.
func (P *Program) inModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		return P.inModule(fn.Parent())
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

// typeNamed finds a type by the name that contracts know.
func (P *Program) typeNamed(pkg, name string) *ssa.Type {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	if t := p.Type(name); t != nil {
		return t
	}
	return p.Type(P.renamed[pkg+"."+name])
}

// shape describes a type without the names of it and of its fields.
func shape(name string, t types.Type) string {
	own := regexp.MustCompile(`\b` + regexp.QuoteMeta(name) + `\b`)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return own.ReplaceAllString(typeKey(t.Underlying()), "_")
	}
	var fs []string
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, own.ReplaceAllString(typeKey(s.Field(i).Type()), "_"))
	}
	sort.Strings(fs)
	return "struct: " + strings.Join(fs, "; ")
}

// methods lists the names of the methods of a type that is not an interface.
func methods(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	var ms []string
	for i := 0; i < n.NumMethods(); i++ {
		ms = append(ms, n.Method(i).Name())
	}
	sort.Strings(ms)
	return strings.Join(ms, " ")
}

// findRenamed finds types that have another name than contracts know.
func (P *Program) findRenamed() {
	P.renamed = map[string]string{}
	for rel, p := range P.pkgs {
		known := P.baseline["types:"+rel]
		if known == nil {
			continue
		}
		for old, desc := range known {
			if p.Type(old) != nil {
				continue
			}
			var found []string
			for _, m := range p.Members {
				t, ok := m.(*ssa.Type)
				if !ok || known[t.Name()] != "" {
					continue
				}
				ms := methods(t.Type())
				if d := strings.SplitN(desc, " | ", 2); d[0] == shape(t.Name(), t.Type()) || ms != "" && len(d) > 1 && d[1] == ms {
					found = append(found, t.Name())
				}
			}
			if len(found) != 1 {
				continue
			}
			P.renamed[rel+"."+old] = found[0]
			// the fields that it had
			pre := p.Pkg.Name() + "."
			for k, m := range P.baseline {
				if rest, ok := strings.CutPrefix(k, pre+old); ok && (rest == "" || rest[0] == '[') {
					n := map[string]string{}
					own := regexp.MustCompile(`\b` + regexp.QuoteMeta(old) + `\b`)
					for f, ft := range m {
						n[f] = own.ReplaceAllString(ft, found[0])
					}
					P.baseline[pre+found[0]+rest] = n
				}
			}
		}
	}
}
