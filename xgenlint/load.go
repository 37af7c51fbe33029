package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var langs = []string{"Go", "C", "Java", "Rust", "TypeScript"}
var nodeKinds = []string{"SimpleType", "ComplexType", "Group", "AttributeGroup", "Element", "Attribute"}

type Analyzer struct {
	dir        string
	prog       *ssa.Program
	pkgs       []*packages.Package
	xgen       *ssa.Package
	cmd        *ssa.Package
	fset       *token.FileSet
	funcs      []*ssa.Function // every function of the module, anonymous ones included
	roles      map[*ssa.Function]string
	byRole     map[string]*ssa.Function
	inlineRole map[string]bool
	loopCache  map[*ssa.Function]*loopTab
	loopsSeen  map[string]*LoopInfo
	analysed   map[*ssa.Function]bool
	steps      int
	notes      []string

	stackType    *types.Named
	optType      *types.Named
	genType      *types.Named
	emCache      []*Emitter
	builtinCache map[string]map[string]string
	gvtDone      bool
	gvtExits     []Exit
	gvtErr       error
	genMod       []string // CodeGenerator fields written by the generators
	optionsMod   []string // Options fields written by Parse and everything it reaches
	handlerMod   []string // Options fields written by the handlers
	stackElems   map[string]types.Type

	callErrIndex map[*Term]int
	constGlobals map[*ssa.Global]*Term // never written after initialisation
	globalTable  map[*ssa.Global]*Term
	madeCache    map[*ssa.Function]map[token.Pos]bool
	mutated      map[*ssa.Global]string
	libCache     []*ssa.Function
}

func (an *Analyzer) note(f string, a ...interface{}) {
	an.notes = append(an.notes, fmt.Sprintf(f, a...))
}

func (an *Analyzer) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := an.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, an.dir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func load(dir string) (*Analyzer, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedExportFile,
		Dir:  dir,
		Env:  append(os.Environ(), "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, ".", "./cmd/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	an := &Analyzer{dir: dir, prog: prog, pkgs: pkgs, fset: prog.Fset,
		roles: map[*ssa.Function]string{}, byRole: map[string]*ssa.Function{}, inlineRole: map[string]bool{},
		loopCache: map[*ssa.Function]*loopTab{}, loopsSeen: map[string]*LoopInfo{}, analysed: map[*ssa.Function]bool{},
		stackElems: map[string]types.Type{}, callErrIndex: map[*Term]int{}, constGlobals: map[*ssa.Global]*Term{},
		globalTable: map[*ssa.Global]*Term{}, mutated: map[*ssa.Global]string{}}
	for i, p := range pkgs {
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		if p.Name == "main" {
			an.cmd = sp[i]
		} else if p.Name == "xgen" {
			an.xgen = sp[i]
		}
	}
	if an.xgen == nil || an.cmd == nil {
		return nil, fmt.Errorf("packages xgen and cmd/xgen not both found")
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if an.inModule(f) && f.Blocks != nil && f.Synthetic == "" {
			an.funcs = append(an.funcs, f)
		}
	}
	sort.Slice(an.funcs, func(i, j int) bool { return an.funcs[i].String() < an.funcs[j].String() })
	an.findRoles()
	an.initTables()
	an.findHelpers()
	return an, nil
}

func (an *Analyzer) inModule(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg == an.xgen || f.Pkg == an.cmd {
			return f.Pkg != nil
		}
		if o := f.Origin(); o != nil && (o.Pkg == an.xgen || o.Pkg == an.cmd) && o.Pkg != nil {
			return true
		}
	}
	return false
}

func (an *Analyzer) namedType(name string) *types.Named {
	if o := an.xgen.Pkg.Scope().Lookup(name); o != nil {
		if n, ok := o.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

func (an *Analyzer) method(t *types.Named, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	pt := types.NewPointer(t)
	sel := an.prog.MethodSets.MethodSet(pt).Lookup(an.xgen.Pkg, name)
	if sel == nil {
		return nil
	}
	return an.prog.MethodValue(sel)
}

func (an *Analyzer) setRole(f *ssa.Function, r string) {
	if f != nil && an.byRole[r] == nil {
		an.roles[f] = r
		an.byRole[r] = f
	}
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func (an *Analyzer) findRoles() {
	an.stackType = an.namedType("Stack")
	an.optType = an.namedType("Options")
	an.genType = an.namedType("CodeGenerator")
	pkgFn := func(n string) *ssa.Function { return an.xgen.Func(n) }
	an.setRole(pkgFn("ToTitle"), "ToTitle")
	an.setRole(pkgFn("ToSnakeCase"), "ToSnakeCase")
	an.setRole(pkgFn("NewStack"), "NewStack")
	an.setRole(pkgFn("GetFileList"), "GetFileList")
	an.setRole(an.method(an.optType, "Parse"), "Parse")
	an.setRole(an.method(an.optType, "GetValueType"), "GetValueType")
	an.setRole(pkgFn("getBasefromSimpleType"), "getBase")
	an.setRole(pkgFn("trimNSPrefix"), "trimNS")
	an.setRole(pkgFn("getNSPrefix"), "nsPrefix")
	an.setRole(pkgFn("isValidURL"), "isValidURL")
	an.setRole(pkgFn("callFuncByName"), "callFuncByName")
	// by shape when renamed
	for _, f := range an.funcs {
		s := f.Signature
		if f.Pkg != an.xgen || f.Parent() != nil || an.roles[f] != "" || s.Recv() != nil {
			continue
		}
		p, r := s.Params(), s.Results()
		if p.Len() == 2 && r.Len() == 1 && isStringType(p.At(0).Type()) && isStringType(r.At(0).Type()) {
			if sl, ok := p.At(1).Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
				an.setRole(f, "getBase")
			}
		}
		if p.Len() == 3 && r.Len() == 1 && types.IsInterface(p.At(0).Type()) && isStringType(p.At(1).Type()) && isErrorType(r.At(0).Type()) {
			an.setRole(f, "callFuncByName")
		}
		if p.Len() == 1 && r.Len() == 1 && isStringType(p.At(0).Type()) && types.Identical(r.At(0).Type(), types.Typ[types.Bool]) && callsExt(f, "net/url.Parse") {
			an.setRole(f, "isValidURL")
		}
	}
	// stack element types: what is pushed
	push := an.method(an.stackType, "Push")
	for _, f := range an.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok || push == nil || cl.Common().StaticCallee() != push {
					continue
				}
				name := stackFieldOf(cl.Common().Args[0])
				mi, ok := cl.Common().Args[1].(*ssa.MakeInterface)
				if name == "" || !ok {
					an.stackElems[name] = nil
					continue
				}
				t := mi.X.Type()
				if old, seen := an.stackElems[name]; seen && (old == nil || !types.Identical(old, t)) {
					an.stackElems[name] = nil
				} else {
					an.stackElems[name] = t
				}
			}
		}
	}
	// Options fields written after construction
	mod := map[string]bool{}
	hmod := map[string]bool{}
	parse := an.byRole["Parse"]
	for _, f := range an.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || an.optType == nil {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(p.Elem(), an.optType) {
					continue
				}
				if freshObject(fa.X, 0) {
					continue
				}
				written := false
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							written = true
						}
					case *ssa.UnOp:
					default:
						written = true // address escapes
					}
				}
				if written {
					n := fieldName(fa.X.Type(), fa.Field)
					mod[n] = true
					if f != parse {
						hmod[n] = true
					}
				}
			}
		}
	}
	an.optionsMod = sortedKeys(mod)
	an.genMod = an.writtenFields(an.genType)
	for _, lang := range langs {
		if f := an.method(an.genType, "Gen"+lang); f != nil {
			an.roles[f] = "Gen"
		}
		for _, k := range nodeKinds {
			an.setRole(an.method(an.genType, lang+k), "Emitter")
			if f := an.method(an.genType, lang+k); f != nil {
				an.roles[f] = "Emitter"
			}
		}
	}
	an.handlerMod = sortedKeys(hmod)
}

// freshObject reports whether a pointer is to an object made by the function
// itself or by the functions it calls for it.
func freshObject(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != v && !freshObject(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return freshObject(v.X, depth+1)
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || g.Blocks == nil || g.Signature.Results().Len() != 1 {
			return false
		}
		found := false
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			found = true
			if p, isParam := ret.Results[0].(*ssa.Parameter); isParam {
				for i, q := range g.Params {
					if p == q && !freshObject(v.Call.Args[i], depth+1) {
						return false
					}
				}
			} else if !freshObject(ret.Results[0], depth+1) {
				return false
			}
		}
		return found
	}
	return false
}

// writtenFields lists the fields of a struct type that are stored to other than
// while a value is constructed.
func (an *Analyzer) writtenFields(n *types.Named) []string {
	out := map[string]bool{}
	if n == nil {
		return nil
	}
	for _, f := range an.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				p, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(p.Elem(), n) {
					continue
				}
				if freshObject(fa.X, 0) {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							out[fieldName(fa.X.Type(), fa.Field)] = true
						}
					case *ssa.UnOp:
					default:
						out[fieldName(fa.X.Type(), fa.Field)] = true
					}
				}
			}
		}
	}
	return sortedKeys(out)
}

func stackFieldOf(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

func callsExt(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.String() == name {
					return true
				}
			}
		}
	}
	return false
}

func (an *Analyzer) optionsField(name string) types.Type {
	s := structOf(an.optType)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (an *Analyzer) isGenPtr(t *Term) bool {
	if t.T == nil || an.genType == nil {
		return false
	}
	p, ok := t.T.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), an.genType)
}

func fieldType(n *types.Named, name string) types.Type {
	s := structOf(n)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (an *Analyzer) isOptionsPtr(t *Term) bool {
	if t.T == nil {
		return false
	}
	p, ok := t.T.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), an.optType)
}
