package main

// Loading of the code under verification together with the specification
// files, which are laid over the package's directory.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loaded struct {
	x       *Exec
	all     []*Contract
	broken  []string // contracts that no longer fit the code
	brokenP map[string][]string
	files   []string
}

const specPrefix = "zz_gvspec_"

func init() {
	litRank = func(s string) *Term {
		if len(s) > 60 {
			unsupp("opaque literal too long")
		}
		n := new(big.Int)
		b := big.NewInt(257)
		for i := 0; i < 60; i++ {
			n.Mul(n, b)
			if i < len(s) {
				n.Add(n, big.NewInt(int64(s[i])+1))
			}
		}
		t := mk("real", SReal, "", n, nil, nil)
		rankLits[t] = s
		return t
	}
}

var rankLits = map[*Term]string{} // the literals opaque strings stand for

type directive struct{ key, val string }

func directives(d *ast.FuncDecl) []directive {
	var out []directive
	if d.Doc == nil {
		return nil
	}
	for _, c := range d.Doc.List {
		if strings.HasPrefix(c.Text, "//gv:") {
			k, v, _ := strings.Cut(strings.TrimPrefix(c.Text, "//gv:"), " ")
			out = append(out, directive{k, strings.TrimSpace(v)})
		}
	}
	return out
}

func load(repo, specDir string, extra map[string][]byte) (*Loaded, error) {
	overlay := map[string][]byte{}
	names, _ := filepath.Glob(filepath.Join(specDir, "*.go"))
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(repo, specPrefix+filepath.Base(n))] = b
	}
	ld := &Loaded{brokenP: map[string][]string{}}
	var ps []*packages.Package
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")}
		var err error
		ps, err = packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(ps) != 1 {
			return nil, fmt.Errorf("%d packages", len(ps))
		}
		bad := 0
		if len(ps[0].Errors) > 0 {
			fixed := false
			for _, e := range ps[0].Errors {
				if !strings.Contains(e.Pos, specPrefix) {
					return nil, fmt.Errorf("the repository doesn't type-check: %v", e)
				}
				if ld.drop(overlay, e) {
					fixed = true
				}
				bad++
			}
			if !fixed || round > 30 {
				return nil, fmt.Errorf("specification: %v", ps[0].Errors[0])
			}
			continue
		}
		break
	}
	p := ps[0]
	prog, ssaPkgs := ssautil.Packages(ps, ssa.NaiveForm|ssa.GlobalDebug|ssa.BuildSerially|ssa.InstantiateGenerics)
	prog.Build()
	_ = ssaPkgs
	sp := prog.Package(p.Types)
	pkgPath = p.PkgPath
	x := &Exec{prog: prog, pkg: sp, contracts: map[*ssa.Function]*Contract{}, trusted: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}}
	x.spec = &SpecPkg{info: p.TypesInfo, pkg: p.Types, fset: p.Fset, funcs: map[types.Object]*SpecFn{}, byName: map[string]*SpecFn{}, x: x}
	ld.x = x
	for _, f := range p.CompiledGoFiles {
		if !strings.Contains(f, specPrefix) {
			ld.files = append(ld.files, filepath.Base(f))
		}
	}
	// functions by name
	byName := map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == sp && fn.Synthetic == "" {
			byName[fnName(fn)] = fn
		}
	}
	x.setup(byName)
	// functions package variables are initialised with
	if ini := sp.Func("init"); ini != nil {
		for _, b := range ini.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				v := s.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				f, ok := v.(*ssa.Function)
				if !ok {
					continue
				}
				switch a := s.Addr.(type) {
				case *ssa.Global:
					byName[a.Name()] = f
				case *ssa.FieldAddr:
					g, ok := a.X.(*ssa.Global)
					if al, is := a.X.(*ssa.Alloc); is {
						// a composite literal that's copied to the variable
						for _, ref := range *al.Referrers() {
							if ld, is := ref.(*ssa.UnOp); is && ld.Referrers() != nil {
								for _, r2 := range *ld.Referrers() {
									if st, is := r2.(*ssa.Store); is && st.Val == ssa.Value(ld) {
										if g2, is := st.Addr.(*ssa.Global); is {
											g, ok = g2, true
										}
									}
								}
							}
						}
					}
					if ok {
						byName[g.Name()+"."+derefType(g.Type()).Underlying().(*types.Struct).Field(a.Field).Name()] = f
					}
				}
			}
		}
	}
	calls := map[types.Object]map[types.Object]bool{}
	for _, file := range p.Syntax {
		fname := p.Fset.Position(file.Pos()).Filename
		if !strings.Contains(fname, specPrefix) {
			continue
		}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			obj := p.TypesInfo.Defs[fd.Name].(*types.Func)
			ds := directives(fd)
			c := &Contract{decl: fd, obj: obj, reveal: map[string]bool{}}
			isC := false
			var dyn *DynSpec
			sf := &SpecFn{name: fd.Name.Name, decl: fd, obj: obj, nodef: fd.Body == nil}
			if fd.Type.Results != nil && obj.Type().(*types.Signature).Results().Len() == 1 {
				sf.res = obj.Type().(*types.Signature).Results().At(0).Type()
			}
			for _, dr := range ds {
				switch dr.key {
				case "contract":
					isC = true
					c.name = dr.val
				case "prop":
					c.Props = append(c.Props, strings.Fields(dr.val)...)
				case "opaque":
					c.opaque = true
				case "trusted":
					c.trusted = true
				case "manual":
					c.manual = true
				case "local":
					c.local = true
				case "helper":
					c.helper = true
				case "event":
					c.event = true
				case "dyn":
					dyn = &DynSpec{name: dr.val, c: c}
				case "pure":
					dyn.pure = true
				case "ghost":
					c.ghosts = strings.Fields(dr.val)
				case "unseal":
					c.unseal = map[string]bool{}
					for _, n := range strings.Fields(dr.val) {
						c.unseal[n] = true
					}
				case "reveal":
					for _, n := range strings.Split(dr.val, ",") {
						c.reveal[strings.TrimSpace(n)] = true
					}
				case "fuel":
					c.fuel, _ = strconv.Atoi(dr.val)
					sf.fuel = c.fuel
				case "nodef":
					sf.nodef = true
				case "sealed":
					sf.sealed = true
				case "uf":
					sf.uf = true
				case "quant":
					sf.uf, sf.quant = true, true
				}
			}
			if dyn != nil {
				// the first parameter is the function value itself
				sig := obj.Type().(*types.Signature)
				dyn.sig, _ = sig.Params().At(0).Type().Underlying().(*types.Signature)
				dynSpecs[dyn.name] = dyn
				c.name = dyn.name
				continue
			}
			if isC {
				fn := byName[c.name]
				if c.helper && (fn == nil || !sigMatches(fn, obj)) {
					// the functions that called it are verified with what
					// they call instead
					x.trusted["contract of "+c.name+" not used: no such function"] = true
					continue
				}
				if fn == nil {
					ld.markBroken(c.name, "the function doesn't exist", c.Props)
					continue
				}
				if !sigMatches(fn, obj) {
					ld.markBroken(c.name, "the signature differs", c.Props)
					continue
				}
				c.fn = fn
				ld.all = append(ld.all, c)
				if !c.local {
					x.contracts[fn] = c
				}
				continue
			}
			x.spec.funcs[obj] = sf
			x.spec.byName[sf.name] = sf
			cs := map[types.Object]bool{}
			if fd.Body != nil {
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if o, ok := p.TypesInfo.Uses[id].(*types.Func); ok {
							cs[o] = true
						}
					}
					return true
				})
			}
			calls[obj] = cs
		}
	}
	// recursive specification functions
	for o, sf := range x.spec.funcs {
		seen := map[types.Object]bool{}
		var walk func(q types.Object) bool
		walk = func(q types.Object) bool {
			for r := range calls[q] {
				if r == o {
					return true
				}
				if !seen[r] {
					seen[r] = true
					if walk(r) {
						return true
					}
				}
			}
			return false
		}
		if walk(o) {
			sf.uf = true
		}
	}
	return ld, nil
}

func (ld *Loaded) markBroken(name, why string, props []string) {
	s := "contract of " + name + ": " + why
	ld.broken = append(ld.broken, s)
	ld.brokenP[s] = props
}

// drop removes the specification declaration that has a type error.
func (ld *Loaded) drop(overlay map[string][]byte, e packages.Error) bool {
	parts := strings.Split(e.Pos, ":")
	if len(parts) < 2 {
		return false
	}
	file := parts[0]
	line, _ := strconv.Atoi(parts[1])
	src, ok := overlay[file]
	if !ok {
		return false
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return false
	}
	for _, d := range f.Decls {
		a, b := fset.Position(d.Pos()), fset.Position(d.End())
		if line < a.Line || line > b.Line {
			continue
		}
		fd, ok := d.(*ast.FuncDecl)
		start := a.Offset
		name := "?"
		var props []string
		if ok {
			name = fd.Name.Name
			for _, dr := range directives(fd) {
				if dr.key == "contract" {
					name = dr.val
				}
				if dr.key == "prop" {
					props = append(props, strings.Fields(dr.val)...)
				}
			}
			if fd.Doc != nil {
				start = fset.Position(fd.Doc.Pos()).Offset
			}
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			return false
		}
		ns := append([]byte{}, src...)
		for i := start; i < b.Offset; i++ {
			if ns[i] != '\n' {
				ns[i] = ' '
			}
		}
		overlay[file] = ns
		ld.markBroken(name, e.Msg, props)
		return true
	}
	return false
}

func sigMatches(fn *ssa.Function, obj *types.Func) bool {
	sig := obj.Type().(*types.Signature)
	if sig.Params().Len() != len(fn.Params) {
		return false
	}
	for i, p := range fn.Params {
		if !types.Identical(p.Type(), sig.Params().At(i).Type()) {
			return false
		}
	}
	rs := fn.Signature.Results()
	if sig.Results().Len() != rs.Len() {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		if !types.Identical(rs.At(i).Type(), sig.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// setup registers what the symbolic execution needs to know about the package.
func (x *Exec) setup(byName map[string]*ssa.Function) {
	pkg := x.pkg.Pkg
	scope := pkg.Scope()
	// closed-world interfaces: those with unexported methods
	var ptrs []types.Type
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); ok {
			ptrs = append(ptrs, types.NewPointer(tn.Type()))
		}
	}
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		I, ok := tn.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		closed := false
		ms := types.NewMethodSet(tn.Type())
		for i := 0; i < ms.Len(); i++ {
			if !ms.At(i).Obj().Exported() {
				closed = true
			}
		}
		if !closed {
			continue
		}
		var impls []types.Type
		for _, p := range ptrs {
			// the innermost embedded bases aren't values of their own
			if types.Implements(p, I) {
				impls = append(impls, p)
			}
		}
		if len(impls) > 0 {
			closedWorld[typeName(tn.Type())] = impls
		}
	}
	// package variables assigned only by initialisation
	written := map[*ssa.Global]bool{}
	initVal := map[*ssa.Global]ssa.Value{}
	for _, fn := range byNameSorted(byName) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						written[g] = true
					}
				}
			}
		}
	}
	if ini := x.pkg.Func("init"); ini != nil {
		for _, b := range ini.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						initVal[g] = s.Val
					}
				}
			}
		}
	}
	k := int64(0)
	for _, n := range sortedKeys(x.pkg.Members) {
		g, ok := x.pkg.Members[n].(*ssa.Global)
		if !ok || written[g] {
			continue
		}
		T := derefType(g.Type())
		v := initVal[g]
		key := pkg.Name() + "." + n
		if T.String() == "error" {
			if c, ok := v.(*ssa.Call); ok && freshError(c) {
				k++
				constGlobals[key] = []*Term{Int(900001), Int(-5000 - k)}
			}
		}
		if c, ok := v.(*ssa.Const); ok {
			func() {
				defer func() { recover() }()
				if s := scalarSort(T); s == SStr {
					constStrGlobals[key] = c
				}
			}()
		}
		if mi, ok := v.(*ssa.MakeInterface); ok && T.String() == "error" {
			_ = mi
		}
	}
	// error construction
	for _, n := range []string{"newErr", "createErr", "panicWithErr"} {
		if f := byName[n]; f != nil {
			libOverride[f.String()] = true
		}
	}
	if tn, ok := scope.Lookup("Args").(*types.TypeName); ok {
		poolType = tn.Type()
	}
	for _, im := range pkg.Imports() {
		if im.Path() == "regexp" {
			reStructType = im.Scope().Lookup("Regexp").Type()
		}
	}
}

var constStrGlobals = map[string]*ssa.Const{}

func freshError(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) == 0 {
		return false
	}
	switch f.String() {
	case "errors.New":
		return true
	case "fmt.Errorf":
		s, ok := c.Call.Args[0].(*ssa.Const)
		return ok && !strings.Contains(s.Value.ExactString(), "%w")
	}
	return f.Name() == "newErr" || f.Name() == "createErr"
}

func byNameSorted(m map[string]*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, k := range sortedKeys(m) {
		out = append(out, m[k])
	}
	return out
}
