package main

// Loading of the verified program and mapping of Go types to SMT sorts.

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog          *ssa.Program
	pkgs          []*packages.Package
	byPath        map[string]*ssa.Package
	tpkg          map[string]*packages.Package
	funcs         map[string]*ssa.Function
	repo          map[*types.Package]bool
	tags          map[string]int // dynamic type tags
	tagTypes      map[int]types.Type
	storedGlobals map[*ssa.Global]bool
	globalInit    map[*ssa.Global]ssa.Value
	named         []types.Type // concrete named types of the repo (and pointers to them)
}

const modPath = "github.com/sjansen/pgutil"

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax &^ 0,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedTypesSizes
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile | packages.NeedImports
	pkgs, err := packages.Load(cfg, "./internal/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: pkgs, byPath: map[string]*ssa.Package{}, tpkg: map[string]*packages.Package{}, funcs: map[string]*ssa.Function{}, repo: map[*types.Package]bool{}, tags: map[string]int{}, storedGlobals: map[*ssa.Global]bool{}, globalInit: map[*ssa.Global]ssa.Value{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		P.byPath[sp.Pkg.Path()] = sp
		P.tpkg[sp.Pkg.Path()] = pkgs[i]
		P.repo[sp.Pkg] = true
	}
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && P.repo[f.Pkg.Pkg] {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		P.funcs[funcKey(f)] = f
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if f.Name() == "init" && f.Synthetic != "" {
							if _, dup := P.globalInit[g]; dup {
								P.storedGlobals[g] = true
							}
							P.globalInit[g] = st.Val
						} else {
							P.storedGlobals[g] = true
						}
					}
				}
			}
		}
	}
	// concrete named types
	var paths []string
	for p := range P.byPath {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := P.byPath[p].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					P.named = append(P.named, tn.Type(), types.NewPointer(tn.Type()))
				}
			}
		}
	}
	return P, nil
}

// funcKey: short, readable key, e.g. "internal/dag.TSort", "internal/dag.(*visitor).visit"
func funcKey(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	// (*internal/dag.visitor).visit -> internal/dag.(*visitor).visit
	if strings.HasPrefix(s, "(") {
		end := strings.Index(s, ")")
		recv := s[1:end]
		rest := s[end+1:]
		star := ""
		if strings.HasPrefix(recv, "*") {
			star = "*"
			recv = recv[1:]
		}
		dot := strings.LastIndex(recv, ".")
		if dot >= 0 {
			return recv[:dot] + ".(" + star + recv[dot+1:] + ")" + rest
		}
	}
	return s
}

func typeStr(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(strings.ReplaceAll(p.Path(), modPath+"/internal/", ""), modPath+"/")
	})
	return aliasName.ReplaceAllStringFunc(s, func(w string) string {
		if r, ok := aliases[w]; ok {
			return r
		}
		return w
	})
}

// the predeclared names of one type are one name
var aliasName = regexp.MustCompile(`[A-Za-z0-9_./-]+`)
var aliases = map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}

// the tags of pointer types are larger than those of other types
const ptrTags = 1000000

func (P *Program) tag(t types.Type) int {
	k := typeStr(t)
	if n, ok := P.tags[k]; ok {
		return n
	}
	n := len(P.tags) + 1
	if _, ok := t.Underlying().(*types.Pointer); ok {
		n += ptrTags
	}
	P.tags[k] = n
	P.setTagType(n, t)
	return n
}

// ---- sorts ----

var structSorts = map[string]*types.Struct{}

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return structSort(t)
	case *types.Array:
		return ArrSort("Int", sortOf(u.Elem()))
	case *types.Tuple:
		return "Unit"
	}
	panic("unsupported type " + t.String())
}

func structSort(t types.Type) string {
	st := t.Underlying().(*types.Struct)
	if st.NumFields() == 0 {
		return "Unit"
	}
	name := symOK("T:" + typeStr(t))
	if _, ok := datatypes[name]; ok {
		return name
	}
	var fs, ss []string
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, symOK("v:"+typeStr(t)+"."+st.Field(i).Name()))
		ss = append(ss, sortOf(st.Field(i).Type()))
	}
	defDatatype(name, symOK("mk_"+typeStr(t)), fs, ss)
	if !strings.HasPrefix(symOK("mk_"+typeStr(t)), "mk_") {
		// quoted constructor: still recognised through accessors
	}
	return name
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// sizeOf: number of reference slots an object of this type occupies
func sizeOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := int64(1)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				n += sizeOf(ft)
			}
		}
		return n
	case *types.Array:
		if isStruct(u.Elem()) && u.Len() > 0 {
			return u.Len() * sizeOf(u.Elem())
		}
	}
	return 1
}

// fieldOffset of an embedded aggregate field
func fieldOffset(st *types.Struct, idx int) int64 {
	n := int64(1)
	for i := 0; i < idx; i++ {
		ft := st.Field(i).Type()
		switch ft.Underlying().(type) {
		case *types.Struct, *types.Array:
			n += sizeOf(ft)
		}
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// heap array names and sorts
type heapInfo struct {
	name string
	sort string     // sort of the whole array
	kind byte       // F field, E elems, C cell, D map dom, V map val
	typ  types.Type // type of the stored value (field/elem/cell/map value)
	key  types.Type
}

var heaps = map[string]*heapInfo{}

func heapF(st types.Type, f int) *heapInfo {
	s := st.Underlying().(*types.Struct)
	n := "F|" + typeStr(st) + "|" + s.Field(f).Name()
	if h, ok := heaps[n]; ok {
		return h
	}
	h := &heapInfo{n, ArrSort("Int", sortOf(s.Field(f).Type())), 'F', s.Field(f).Type(), nil}
	heaps[n] = h
	return h
}
func heapE(elem types.Type) *heapInfo {
	n := "E|" + typeStr(elem)
	if h, ok := heaps[n]; ok {
		return h
	}
	h := &heapInfo{n, ArrSort("Int", ArrSort("Int", sortOf(elem))), 'E', elem, nil}
	heaps[n] = h
	return h
}
func heapC(t types.Type) *heapInfo {
	n := "C|" + typeStr(t)
	if h, ok := heaps[n]; ok {
		return h
	}
	h := &heapInfo{n, ArrSort("Int", sortOf(t)), 'C', t, nil}
	heaps[n] = h
	return h
}
func mapKey(m *types.Map) string {
	return "map[" + typeStr(m.Key()) + "]" + typeStr(m.Elem())
}
func heapD(m *types.Map) *heapInfo {
	n := "D|" + mapKey(m)
	if h, ok := heaps[n]; ok {
		return h
	}
	h := &heapInfo{n, ArrSort("Int", ArrSort(sortOf(m.Key()), "Bool")), 'D', nil, m.Key()}
	heaps[n] = h
	return h
}
func heapV(m *types.Map) *heapInfo {
	n := "V|" + mapKey(m)
	if h, ok := heaps[n]; ok {
		return h
	}
	h := &heapInfo{n, ArrSort("Int", ArrSort(sortOf(m.Key()), sortOf(m.Elem()))), 'V', m.Elem(), m.Key()}
	heaps[n] = h
	return h
}

// zero value of a type
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case "Bool":
			return False
		case "Str":
			return StrLit("")
		case "Int":
			return Int(0)
		case "Flt":
			return Const("flt_zero", "Flt")
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Int(0)
	case *types.Slice:
		return NilSlice
	case *types.Interface:
		return NilIface
	case *types.Struct:
		if u.NumFields() == 0 {
			return UnitT
		}
		s := structSort(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return App(datatypes[s].Con, s, as...)
	case *types.Array:
		return ConstArr("Int", sortOf(u.Elem()), zeroOf(u.Elem()))
	}
	panic("zeroOf " + t.String())
}

func (P *Program) setTagType(n int, t types.Type) {
	if P.tagTypes == nil {
		P.tagTypes = map[int]types.Type{}
	}
	P.tagTypes[n] = t
}
