package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/alexander-yu/stream"

var prog *ssa.Program
var allFuncs = map[string]*ssa.Function{} // short name -> function
var namedTypes = map[string]types.Type{}
var repoPkgs []*packages.Package
var fieldAddrEscapes = map[string]bool{}

var shortRepl = strings.NewReplacer(
	modPath+"/quantile/ost/", "",
	modPath+"/quantile/", "",
	modPath+"/util/math", "mathutil",
	modPath+"/util/", "",
	modPath+"/", "",
	modPath, "stream",
	"math/rand", "rand",
	"github.com/workiva/go-datastructures/", "",
	"github.com/gammazero/", "",
	"github.com/pkg/", "",
	"github.com/hashicorp/go-", "",
)

func short(s string) string { return shortRepl.Replace(s) }

func inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func load(repo string) error {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return fmt.Errorf("loading %s: %v", p.PkgPath, e)
		}
	}
	var ssapkgs []*ssa.Package
	prog, ssapkgs = ssautil.AllPackages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	repoPkgs = pkgs
	_ = ssapkgs
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if strings.HasPrefix(path, modPath) || path == "container/heap" ||
			strings.HasPrefix(path, "github.com/workiva") || strings.HasPrefix(path, "github.com/gammazero") || strings.HasPrefix(path, "github.com/hashicorp/go-multierror") {
			p.Build()
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		n := short(fn.String())
		if _, dup := allFuncs[n]; !dup || fn.Synthetic == "" {
			allFuncs[n] = fn
		}
	}
	for _, p := range prog.AllPackages() {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				namedTypes[short(t.Type().String())] = t.Type()
			}
		}
	}
	scanFieldEscapes()
	return nil
}

// scanFieldEscapes finds scalar fields whose address is used other than for a
// direct load or store; such fields live in the address-keyed pointer heap.
func scanFieldEscapes() {
	for _, fn := range sortedFuncs() {
		if !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Referrers() == nil {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				st := pt.Underlying().(*types.Struct)
				f := st.Field(fa.Field)
				if isSync(f.Type()) {
					continue
				}
				if _, isStruct := f.Type().Underlying().(*types.Struct); isStruct {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if r.Val == fa {
							fieldAddrEscapes[fieldKey(pt, f.Name())] = true
						}
					case *ssa.DebugRef:
					default:
						fieldAddrEscapes[fieldKey(pt, f.Name())] = true
					}
				}
			}
		}
	}
}

func sortedFuncs() []*ssa.Function {
	names := make([]string, 0, len(allFuncs))
	for n := range allFuncs {
		names = append(names, n)
	}
	sort.Strings(names)
	out := make([]*ssa.Function, len(names))
	for i, n := range names {
		out[i] = allFuncs[n]
	}
	return out
}

func isSync(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "sync.WaitGroup" || s == "sync.Once"
}

func typeName(t types.Type) string { return short(types.TypeString(t, nil)) }

func fieldKey(t types.Type, f string) string { return "F." + typeName(t) + "." + f }

// lookupType resolves a short type name used in contracts.
func lookupType(n string) types.Type {
	if strings.HasPrefix(n, "*") {
		t := lookupType(n[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(n, "[]") {
		t := lookupType(n[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	switch n {
	case "int":
		return types.Typ[types.Int]
	case "uint64":
		return types.Typ[types.Uint64]
	case "float64", "real":
		return types.Typ[types.Float64]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	}
	if t, ok := namedTypes[n]; ok {
		return t
	}
	// instantiated generics
	for _, fn := range allFuncs {
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if typeName(t) == n {
				return t
			}
		}
	}
	return nil
}

func inRepoPkg(p *ssa.Package) bool { return strings.HasPrefix(p.Pkg.Path(), modPath) }
