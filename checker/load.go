package main

import (
	"fmt"
	"go/constant"
	"os"
	"sort"
	"strings"

	"go/types"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod   = "github.com/patrickbr/gtfstidy"
	parserMod = "github.com/patrickbr/gtfsparser"
	writerMod = "github.com/patrickbr/gtfswriter"
)

// repoDir is /repo; CHK_REPO names a scratch copy while developing
var repoDir = func() string {
	if d := os.Getenv("CHK_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

type Program struct {
	tablesOf map[*ssa.Global]bool // see tables

	prog *ssa.Program
	pkgs []*packages.Package
	main *ssa.Package
	proc *ssa.Package
	feed *types.Named // gtfsparser.Feed
	gtfs *types.Package

	funcs []*ssa.Function
	par   *parMode // scenarios only report on goroutines
	nils  *nilMode // scenarios start with empty references and only report crashes
}

func loadProgram() (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0")}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoMod) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	if err := buildModels(prog); err != nil {
		return nil, err
	}
	P := &Program{prog: prog, pkgs: pk}
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case repoMod:
			P.main = p
		case repoMod + "/processors":
			P.proc = p
		case parserMod:
			P.feed = p.Pkg.Scope().Lookup("Feed").Type().(*types.Named)
		case parserMod + "/gtfs":
			P.gtfs = p.Pkg
		}
	}
	if P.main == nil || P.proc == nil || P.feed == nil || P.gtfs == nil {
		return nil, fmt.Errorf("anchor packages not found (main %v processors %v feed %v)", P.main != nil, P.proc != nil, P.feed != nil)
	}
	P.allFuncs()
	P.tables()
	return P, nil
}

// method finds the SSA method of a processors type (value or pointer receiver).
func (p *Program) method(typ, name string) *ssa.Function {
	o := p.proc.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	t := o.Type()
	if _, ok := o.(*types.TypeName); !ok {
		return nil
	}
	if obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, p.proc.Pkg, name); obj == nil || types.IsInterface(t) {
		return nil
	} else if _, ok := obj.(*types.Func); !ok {
		return nil
	}
	if types.NewMethodSet(t).Lookup(p.proc.Pkg, name) == nil {
		return p.prog.LookupMethod(types.NewPointer(t), p.proc.Pkg, name)
	}
	if m := p.prog.LookupMethod(t, p.proc.Pkg, name); m != nil {
		return m
	}
	return p.prog.LookupMethod(types.NewPointer(t), p.proc.Pkg, name)
}

// allFuncs lists the source functions of the repository in a stable order.
func (p *Program) allFuncs() []*ssa.Function {
	if p.funcs == nil {
		for fn := range ssautil.AllFunctions(p.prog) {
			if fn.Pkg != nil && (fn.Pkg == p.proc || fn.Pkg == p.main) && len(fn.Blocks) > 0 && fn.Synthetic == "" {
				p.funcs = append(p.funcs, fn)
			}
		}
		sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	}
	return p.funcs
}

func isFloatT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func constFloat(v *V) (float64, bool) {
	if v.K != KConst || v.C == nil {
		return 0, false
	}
	return constant.Float64Val(constant.ToFloat(v.C))
}
