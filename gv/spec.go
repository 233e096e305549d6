package main

// Evaluation of specification expressions (Go syntax) over symbolic states.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type SpecPkg struct {
	info   *types.Info
	pkg    *types.Package
	fset   *token.FileSet
	funcs  map[types.Object]*SpecFn
	x      *Exec
	byName map[string]*SpecFn
	axioms []*SpecFn
}

// SpecFn is a specification function.
type SpecFn struct {
	name  string
	decl  *ast.FuncDecl
	obj   types.Object
	uf    bool // recursive, or marked: an uninterpreted function with unfolding
	nodef bool // no definition: uninterpreted
	sealed bool // no definition but where it is unsealed
	quant bool // the definition is also given as a quantified axiom
	impl  []string
	templ *Term
	formA []*Term
	ready bool
	res   types.Type
	fuel  int
}

// a slice handed to a recursive specification function: its rows by value
type VRows struct {
	Rows []*Term
	Off  *Term
	Len  *Term
	E    types.Type
}

type Env struct {
	sp   *SpecPkg
	st   *State
	old  *State
	vars map[types.Object]Value
	lets map[types.Object]ast.Expr
	lete map[types.Object]int
	evs  []*Event
	fr   *Frame
	ent  *State // loop entry state
	deep int
	// extra conditions collected for library models
	noFacts bool
	name    string
}

func (e *Env) with(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) bind(o types.Object, v Value) *Env {
	n := *e
	n.vars = make(map[types.Object]Value, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[o] = v
	return &n
}

func (e *Env) typ(x ast.Expr) types.Type {
	tv, ok := e.sp.info.Types[x]
	if ok {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := e.sp.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	unsupp("spec: no type for %s", types.ExprString(x))
	return nil
}

func (e *Env) boolean(x ast.Expr) *Term { return e.eval(x).(VS).T }
func (e *Env) term(x ast.Expr) *Term    { return e.eval(x).(VS).T }

func (e *Env) evalAs(x ast.Expr, T types.Type) Value {
	v := e.eval(x)
	F := e.typ(x)
	return toType(v, F, T)
}

// toType converts a value to an interface type when needed.
func toType(v Value, F, T types.Type) Value {
	if F == nil || T == nil {
		return v
	}
	_, ti := T.Underlying().(*types.Interface)
	_, fi := F.Underlying().(*types.Interface)
	if ti && !fi {
		if b, ok := F.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return VIface{Int(0), Int(0)}
		}
		F = types.Default(F)
		return VIface{typeID(F), boxVal(v, F)}
	}
	if b, ok := F.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return zeroValue(T)
	}
	return v
}

func (e *Env) eval(x ast.Expr) Value {
	tv, ok := e.sp.info.Types[x]
	if ok && tv.Value != nil {
		T := tv.Type
		return constOf(tv.Value, types.Default(T))
	}
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.Ident:
		return e.ident(n)
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.StarExpr:
		p := e.eval(n.X).(VPtr)
		return e.load(p.A)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return VS{Not(e.boolean(n.X))}
		case token.SUB:
			return VS{Sub(Int(0), e.term(n.X))}
		case token.AND:
			if a, ok := e.addr(n.X); ok {
				return VPtr{a}
			}
		case token.XOR:
			if t := e.term(n.X); t.Sort == SBV8 {
				return VS{BVNot(t)}
			}
		}
		unsupp("spec: unary %s", n.Op)
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			a := e.boolean(n.X)
			if a == False {
				return VS{False}
			}
			return VS{And(a, e.boolean(n.Y))}
		case token.LOR:
			a := e.boolean(n.X)
			if a == True {
				return VS{True}
			}
			return VS{Or(a, e.boolean(n.Y))}
		}
		T := e.typ(n.X)
		U := e.typ(n.Y)
		_, ti := T.Underlying().(*types.Interface)
		_, ui := U.Underlying().(*types.Interface)
		var a, b Value
		isNil := func(t types.Type) bool {
			bb, ok := t.(*types.Basic)
			return ok && bb.Kind() == types.UntypedNil
		}
		switch {
		case isNil(U):
			a = e.eval(n.X)
			if r, ok := a.(VRows); ok {
				_ = r
				unsupp("spec: nil comparison of a slice in a recursive function")
			}
			b = zeroValue(T)
		case isNil(T):
			a, b = zeroValue(U), e.eval(n.Y)
			T = U
		case ti && !ui:
			a, b = e.eval(n.X), e.evalAs(n.Y, T)
		case ui && !ti:
			a, b = e.evalAs(n.X, U), e.eval(n.Y)
			T = U
		default:
			a, b = e.eval(n.X), e.eval(n.Y)
			if bb, ok := T.(*types.Basic); ok && bb.Info()&types.IsUntyped != 0 {
				T = U
			}
		}
		return e.sp.x.binop(n.Op, a, b, T, nil, nil, token.NoPos)
	case *ast.IndexExpr:
		if _, isFn := e.typ(n.X).Underlying().(*types.Signature); isFn {
			unsupp("spec: generic function value")
		}
		return e.index(n)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		lo := Int(0)
		if n.Low != nil {
			lo = e.term(n.Low)
		}
		switch s := v.(type) {
		case VS:
			hi := StrLen(s.T)
			if n.High != nil {
				hi = e.term(n.High)
			}
			return VS{StrSub(s.T, lo, Sub(hi, lo))}
		case VSlice:
			hi := s.Len
			if n.High != nil {
				hi = e.term(n.High)
			}
			return VSlice{s.Ref, Add(s.Off, lo), Sub(hi, lo), Sub(s.Cap, lo)}
		case VRows:
			hi := s.Len
			if n.High != nil {
				hi = e.term(n.High)
			}
			return VRows{s.Rows, Add(s.Off, lo), Sub(hi, lo), s.E}
		}
	case *ast.TypeAssertExpr:
		v := e.eval(n.X).(VIface)
		T := e.typ(n.Type)
		if _, ok := T.Underlying().(*types.Interface); ok {
			return v
		}
		return unboxVal(v.Val, T)
	case *ast.CallExpr:
		return e.call(n)
	case *ast.CompositeLit:
		T := e.typ(n)
		switch u := T.Underlying().(type) {
		case *types.Struct:
			v := zeroValue(T).(VStruct)
			for i, el := range n.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					nm := kv.Key.(*ast.Ident).Name
					for j := 0; j < u.NumFields(); j++ {
						if u.Field(j).Name() == nm {
							v.F[j] = e.evalAs(kv.Value, u.Field(j).Type())
						}
					}
					continue
				}
				v.F[i] = e.evalAs(el, u.Field(i).Type())
			}
			return v
		}
		unsupp("spec: composite literal %s", T)
	}
	unsupp("spec: expression %s (%T)", types.ExprString(x), x)
	return nil
}

func (e *Env) load(a *Addr) Value {
	v := e.st.load(a)
	return v
}

func (e *Env) ident(n *ast.Ident) Value {
	o := e.sp.info.ObjectOf(n)
	if v, ok := e.vars[o]; ok {
		return v
	}
	if ex, ok := e.lets[o]; ok {
		e.deep++
		if e.deep > 200 {
			unsupp("spec: let recursion")
		}
		return e.eval(ex)
	}
	switch n.Name {
	case "nil":
		return VS{Int(0)}
	case "true":
		return VS{True}
	case "false":
		return VS{False}
	}
	if v, ok := o.(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
		return e.load(&Addr{Kind: AGlobal, G: v.Pkg().Name() + "." + v.Name(), Base: v.Type()})
	}
	if f, ok := o.(*types.Func); ok {
		if fn := e.sp.x.prog.FuncValue(f); fn != nil {
			return VS{fnConst(fn)}
		}
	}
	unsupp("spec: unknown identifier %s", n.Name)
	return nil
}

// addr evaluates an addressable expression to its place.
func (e *Env) addr(x ast.Expr) (*Addr, bool) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.addr(n.X)
	case *ast.StarExpr:
		return e.eval(n.X).(VPtr).A, true
	case *ast.Ident:
		o := e.sp.info.ObjectOf(n)
		if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return &Addr{Kind: AGlobal, G: v.Pkg().Name() + "." + v.Name(), Base: v.Type()}, true
		}
	case *ast.SelectorExpr:
		sel := e.sp.info.Selections[n]
		if sel == nil {
			return nil, false
		}
		a, ok := e.base(n.X)
		if !ok {
			return nil, false
		}
		for _, i := range sel.Index() {
			// implicit dereference of embedded pointers
			if _, isP := addrType(a).Underlying().(*types.Pointer); isP {
				a = e.load(a).(VPtr).A
			}
			a = fieldAddr(a, i)
		}
		return a, true
	case *ast.IndexExpr:
		v, ok := e.eval(n.X).(VSlice)
		if !ok {
			return nil, false
		}
		E := e.typ(n.X).Underlying().(*types.Slice).Elem()
		return &Addr{Kind: AElem, Ref: v.Ref, Idx: Add(v.Off, e.term(n.Index)), Base: E}, true
	}
	return nil, false
}

// base: the place of the structure x denotes or points to.
func (e *Env) base(x ast.Expr) (*Addr, bool) {
	if _, ok := e.typ(x).Underlying().(*types.Pointer); ok {
		return e.eval(x).(VPtr).A, true
	}
	return e.addr(x)
}

func (e *Env) selector(n *ast.SelectorExpr) Value {
	sel := e.sp.info.Selections[n]
	if sel == nil {
		// qualified identifier
		o := e.sp.info.ObjectOf(n.Sel)
		if v, ok := o.(*types.Var); ok {
			return e.load(&Addr{Kind: AGlobal, G: v.Pkg().Name() + "." + v.Name(), Base: v.Type()})
		}
		unsupp("spec: %s", types.ExprString(n))
	}
	if sel.Kind() != types.FieldVal {
		unsupp("spec: method value %s", types.ExprString(n))
	}
	if _, ok := e.typ(n.X).Underlying().(*types.Pointer); ok {
		a, ok := e.addr(n)
		if !ok {
			unsupp("spec: %s", types.ExprString(n))
		}
		return e.load(a)
	}
	v := e.eval(n.X)
	T := e.typ(n.X)
	for _, i := range sel.Index() {
		switch s := v.(type) {
		case VStruct:
			v = s.F[i]
			T = T.Underlying().(*types.Struct).Field(i).Type()
		case VPtr:
			a := fieldAddr(s.A, i)
			v = e.load(a)
			T = addrType(a)
		default:
			unsupp("spec: selector on %T", v)
		}
	}
	return v
}

func (e *Env) index(n *ast.IndexExpr) Value {
	v := e.eval(n.X)
	T := e.typ(n.X)
	switch s := v.(type) {
	case VSlice:
		E := T.Underlying().(*types.Slice).Elem()
		i := e.term(n.Index)
		return e.load(&Addr{Kind: AElem, Ref: s.Ref, Idx: Add(s.Off, i), Base: E})
	case VRows:
		i := e.term(n.Index)
		var ts []*Term
		for _, r := range s.Rows {
			ts = append(ts, Select(r, Add(s.Off, i)))
		}
		return unflatten(s.E, ts)
	case VS:
		if _, ok := T.Underlying().(*types.Map); ok {
			k := mapKey(e.evalAs(n.Index, T.Underlying().(*types.Map).Key()), T)
			return mapGet(e.st, T, s.T, k)
		}
		return VS{byteAt(s.T, e.term(n.Index))}
	}
	unsupp("spec: index of %T", v)
	return nil
}

// calledName: builtin or package function name of a call.
func (e *Env) callee(n *ast.CallExpr) (types.Object, string) {
	f := n.Fun
	for {
		switch g := f.(type) {
		case *ast.ParenExpr:
			f = g.X
			continue
		case *ast.IndexExpr:
			f = g.X
			continue
		case *ast.Ident:
			o := e.sp.info.ObjectOf(g)
			return o, g.Name
		case *ast.SelectorExpr:
			o := e.sp.info.ObjectOf(g.Sel)
			if o != nil && o.Pkg() != nil {
				if fn, ok := o.(*types.Func); ok {
					return o, fn.FullName()
				}
				return o, o.Pkg().Path() + "." + o.Name()
			}
			return o, g.Sel.Name
		}
		return nil, ""
	}
}

func (e *Env) call(n *ast.CallExpr) Value {
	if tv, ok := e.sp.info.Types[n.Fun]; ok && tv.IsType() {
		v := e.eval(n.Args[0])
		F, T := e.typ(n.Args[0]), tv.Type
		if _, ok := T.Underlying().(*types.Interface); ok {
			return toType(v, F, T)
		}
		if b, ok := F.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return zeroValue(T)
		}
		if isBV8(F) != isBV8(T) {
			unsupp("spec: conversion of flags")
		}
		if fb, ok := F.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			if tb, ok := T.Underlying().(*types.Basic); ok && tb.Info()&types.IsString != 0 {
				return VS{runeStr(v.(VS).T)}
			}
		}
		return v
	}
	o, name := e.callee(n)
	if b, ok := o.(*types.Builtin); ok {
		switch b.Name() {
		case "len":
			switch v := e.eval(n.Args[0]).(type) {
			case VSlice:
				return VS{v.Len}
			case VRows:
				return VS{v.Len}
			case VS:
				if _, ok := e.typ(n.Args[0]).Underlying().(*types.Map); ok {
					return VS{mapLen(e.st, e.typ(n.Args[0]), v.T)}
				}
				return VS{StrLen(v.T)}
			}
		case "cap":
			return VS{e.eval(n.Args[0]).(VSlice).Cap}
		}
		unsupp("spec: builtin %s", b.Name())
	}
	if o != nil && o.Pkg() == e.sp.pkg {
		if h, ok := specBuiltins[name]; ok {
			return h(e, n)
		}
		if sf, ok := e.sp.funcs[o]; ok {
			return e.specCall(sf, n)
		}
	}
	// library functions with a pure model
	var args []Value
	var argT []types.Type
	if fn, ok := o.(*types.Func); ok {
		sig := fn.Type().(*types.Signature)
		if sig.Recv() != nil {
			args = append(args, e.eval(n.Fun.(*ast.SelectorExpr).X))
			argT = append(argT, sig.Recv().Type())
		}
		for i, a := range n.Args {
			T := sig.Params().At(min(i, sig.Params().Len()-1)).Type()
			args = append(args, e.evalAs(a, T))
			argT = append(argT, T)
		}
		if m, ok := pureLib[fn.FullName()]; ok {
			e.sp.x.trusted["model of "+fn.FullName()] = true
			return m(args)
		}
		if v, ok := defaultPure(fn.FullName(), args, argT, sig); ok {
			e.sp.x.trusted["uninterpreted "+fn.FullName()] = true
			return v
		}
	}
	unsupp("spec: call of %s", name)
	return nil
}

func (e *Env) specCall(sf *SpecFn, n *ast.CallExpr) Value {
	sig := sf.obj.Type().(*types.Signature)
	var args []Value
	for i, a := range n.Args {
		if sig.Variadic() {
			unsupp("spec: variadic function")
		}
		args = append(args, e.evalAs(a, sig.Params().At(i).Type()))
	}
	return e.apply(sf, args)
}

func (e *Env) apply(sf *SpecFn, args []Value) Value {
	if sf.uf || e.sp.closed(sf) {
		return e.applyUF(sf, args)
	}
	if e.deep > 400 {
		unsupp("spec: %s nests too deep", sf.name)
	}
	n := &Env{sp: e.sp, st: e.st, old: e.old, vars: map[types.Object]Value{}, lets: map[types.Object]ast.Expr{}, evs: e.evs, fr: e.fr, ent: e.ent, deep: e.deep + 1, name: sf.name}
	sig := sf.obj.Type().(*types.Signature)
	for i := range args {
		n.vars[sig.Params().At(i)] = args[i]
	}
	return n.body(sf.decl.Body.List, sf.res)
}

// body evaluates statements ending in a return.
func (e *Env) body(list []ast.Stmt, T types.Type) Value {
	for i, s := range list {
		switch n := s.(type) {
		case *ast.ReturnStmt:
			return e.evalAs(n.Results[0], T)
		case *ast.IfStmt:
			if n.Init != nil {
				unsupp("spec: if with init")
			}
			c := e.boolean(n.Cond)
			rest := list[i+1:]
			if n.Else != nil {
				switch el := n.Else.(type) {
				case *ast.BlockStmt:
					rest = append(append([]ast.Stmt{}, el.List...), rest...)
				default:
					rest = append([]ast.Stmt{el}, rest...)
				}
			}
			if c == True {
				return e.body(n.Body.List, T)
			}
			if c == False {
				return e.body(rest, T)
			}
			return iteValue(c, e.body(n.Body.List, T), e.body(rest, T), T)
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE || len(n.Lhs) != 1 {
				unsupp("spec: assignment")
			}
			o := e.sp.info.Defs[n.Lhs[0].(*ast.Ident)]
			e = e.bind(o, e.evalAs(n.Rhs[0], o.Type()))
		case *ast.EmptyStmt:
		default:
			unsupp("spec: statement %T", s)
		}
	}
	unsupp("spec: %s has no return", e.name)
	return nil
}

// flattening of arguments to uninterpreted functions

func (e *Env) flatArg(v Value, T types.Type) []*Term {
	switch s := v.(type) {
	case VSlice:
		E := T.Underlying().(*types.Slice).Elem()
		var out []*Term
		for _, l := range leaves(E) {
			a := e.st.get(elemComp(E, nil, l.Path), ArrSort(SInt, ArrSort(SInt, l.Sort)))
			out = append(out, Select(a, s.Ref))
		}
		return append(out, s.Off, s.Len)
	case VRows:
		out := append([]*Term{}, s.Rows...)
		return append(out, s.Off, s.Len)
	case VStruct:
		u := T.Underlying().(*types.Struct)
		var out []*Term
		for i, f := range s.F {
			out = append(out, e.flatArg(f, u.Field(i).Type())...)
		}
		return out
	}
	return flatten(v, T)
}

func formalVal(name string, T types.Type) (Value, []*Term) {
	if u, ok := T.Underlying().(*types.Slice); ok {
		var rows, all []*Term
		for _, l := range leaves(u.Elem()) {
			r := FreshB(name+l.Path, ArrSort(SInt, l.Sort))
			rows = append(rows, r)
			all = append(all, r)
		}
		off, n := FreshB(name+"#off", SInt), FreshB(name+"#len", SInt)
		return VRows{rows, off, n, u.Elem()}, append(all, off, n)
	}
	if u, ok := T.Underlying().(*types.Struct); ok && scalarSort(T) == "" {
		var fs []Value
		var all []*Term
		for i := 0; i < u.NumFields(); i++ {
			v, ts := formalVal(name+"."+u.Field(i).Name(), u.Field(i).Type())
			fs = append(fs, v)
			all = append(all, ts...)
		}
		return VStruct{fs}, all
	}
	var ts []*Term
	for _, l := range leaves(T) {
		ts = append(ts, FreshB(name+l.Path, l.Sort))
	}
	return unflatten(T, ts), ts
}

// implState records the heap components a definition reads.
const implPrefix = "IMPL"

// closed functions are known only to be functions of their arguments.
func (sp *SpecPkg) closed(sf *SpecFn) bool {
	return sf.nodef || sf.sealed && (sp.x.cur == nil || !sp.x.cur.unseal[sf.name])
}

// seq is the sequence of a slice's elements: equal for equal elements.
func (e *Env) seq(v Value, T types.Type) *Term {
	u, ok := T.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	var ts []*Term
	name := "seq"
	for _, t := range e.flatArg(v, u) {
		ts = append(ts, t)
		name += ":" + string(t.Sort)
	}
	return App(name, SInt, ts...)
}

// seqAxioms: slices with the same elements are the same sequence.
func seqAxioms(ts []*Term) []*Term {
	by := map[string][]*Term{}
	seen := map[int]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "app" && !t.fv && strings.HasPrefix(t.S, "seq:") {
			by[t.S] = append(by[t.S], t)
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	for _, t := range ts {
		scan(t)
	}
	var out []*Term
	for _, n := range sortedKeys(by) {
		l := by[n]
		for i := range l {
			for j := 0; j < i; j++ {
				a, b := l[i].Args, l[j].Args
				m := len(a) - 2
				k := FreshB("sk", SInt)
				var eqs []*Term
				for q := 0; q < m; q++ {
					eqs = append(eqs, Eq(Select(a[q], Add(a[m], k)), Select(b[q], Add(b[m], k))))
				}
				out = append(out, Implies(And(Eq(a[m+1], b[m+1]), Forall([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, a[m+1])), And(eqs...)))), Eq(l[i], l[j])))
			}
		}
	}
	return out
}

func (e *Env) applyUF(sf *SpecFn, args []Value) Value {
	e.sp.define(sf)
	sig := sf.obj.Type().(*types.Signature)
	var ts []*Term
	closed := e.sp.closed(sf)
	for i, a := range args {
		if closed {
			if q := e.seq(a, sig.Params().At(i).Type()); q != nil {
				ts = append(ts, q)
				continue
			}
		}
		ts = append(ts, e.flatArg(a, sig.Params().At(i).Type())...)
	}
	for _, k := range sf.impl {
		ts = append(ts, e.st.get(k, compSorts[k]))
	}
	ls := leaves(sf.res)
	if len(ls) == 1 {
		return unflatten(sf.res, []*Term{App("spec:"+sf.name, ls[0].Sort, ts...)})
	}
	if _, ok := sf.res.Underlying().(*types.Slice); ok {
		unsupp("spec: recursive function with a slice result")
	}
	var rs []*Term
	for i, l := range ls {
		rs = append(rs, App(fmt.Sprintf("spec:%s@%d", sf.name, i), l.Sort, ts...))
	}
	return unflatten(sf.res, rs)
}

var ufByName = map[string]*SpecFn{}
var ufLeaf = map[string]int{}

func (sp *SpecPkg) define(sf *SpecFn) {
	if sf.ready {
		return
	}
	sf.ready = true
	ls := leaves(sf.res)
	for i := range ls {
		nm := "spec:" + sf.name
		if len(ls) > 1 {
			nm = fmt.Sprintf("spec:%s@%d", sf.name, i)
		}
		ufByName[nm] = sf
		ufLeaf[nm] = i
	}
	if sp.closed(sf) {
		return
	}
	sig := sf.obj.Type().(*types.Signature)
	for round := 0; round < 10; round++ {
		st := &State{known: map[*Term]bool{}, heap: map[string]*Term{}, cells: map[*Cell]Value{}, stamp: map[string]*Term{}, wm: Int(0), floor: Int(0)}
		st.hv = []havocRec{{func(string) bool { return true }, implPrefix}}
		env := &Env{sp: sp, st: st, old: st, vars: map[types.Object]Value{}, lets: map[types.Object]ast.Expr{}, name: sf.name}
		var formals []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			v, ts := formalVal(p.Name(), p.Type())
			env.vars[p] = v
			formals = append(formals, ts...)
		}
		v := env.body(sf.decl.Body.List, sf.res)
		var keys []string
		for k := range st.heap {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		same := strings.Join(keys, "\n") == strings.Join(sf.impl, "\n")
		sf.impl = keys
		if same {
			m := map[*Term]*Term{}
			for _, k := range keys {
				b := FreshB("impl:"+k, compSorts[k])
				m[st.heap[k]] = b
				formals = append(formals, b)
			}
			fl := flatten(v, sf.res)
			if len(fl) == 1 {
				sf.templ = Subst(fl[0], m)
			} else {
				sf.templ = App("tuple", SBool, fl...)
				sf.templ = Subst(sf.templ, m)
			}
			sf.formA = formals
			return
		}
	}
	unsupp("spec: %s: its heap footprint doesn't stabilise", sf.name)
}

// unfold returns the definition instance of an application.
func unfold(app *Term) *Term {
	sf := ufByName[app.S]
	if sf == nil || sf.templ == nil || len(sf.formA) != len(app.Args) {
		return nil
	}
	m := map[*Term]*Term{}
	for i, f := range sf.formA {
		m[f] = app.Args[i]
	}
	t := sf.templ
	if t.Op == "app" && t.S == "tuple" {
		t = t.Args[ufLeaf[app.S]]
	}
	b := Subst(t, m)
	if b.Sort != app.Sort {
		return nil
	}
	return mk("=", SBool, "", nil, nil, nil, app, b)
}

var defaultFuel = 3

// unfoldAll adds definition instances for the applications in ts.
func unfoldAll(ts []*Term) []*Term {
	gen := map[*Term]int{}
	var queue []*Term
	seen := map[int]bool{}
	var scan func(t *Term, g int)
	scan = func(t *Term, g int) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "app" && !t.fv && ufByName[t.S] != nil {
			if _, ok := gen[t]; !ok {
				gen[t] = g
				queue = append(queue, t)
			}
		}
		for _, a := range t.Args {
			scan(a, g)
		}
	}
	for _, t := range ts {
		scan(t, 0)
	}
	var out []*Term
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		g := gen[t]
		fuel := defaultFuel
		if f := ufByName[t.S].fuel; f > 0 {
			fuel = f
		}
		if g >= fuel {
			continue
		}
		if eq := unfold(t); eq != nil {
			out = append(out, eq)
			scan(eq, g+1)
		}
		if len(out) > 4000 {
			break
		}
	}
	return out
}

// quantDefs gives the definitions of the applications in ts as axioms, for
// those specification functions that ask for it.
func quantDefs(ts []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	done := map[string]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "app" {
			if sf := ufByName[t.S]; sf != nil && sf.quant && sf.templ != nil && !done[t.S] && sf.templ.S != "tuple" {
				done[t.S] = true
				app := App(t.S, t.Sort, sf.formA...)
				eq := mk("=", SBool, "", nil, nil, nil, app, sf.templ)
				q := Forall(sf.formA, eq, []*Term{app})
				out = append(out, q)
				scan(q)
			}
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	for _, t := range ts {
		scan(t)
	}
	return out
}

// axiomsFor adds ground facts about library functions that occur in ts.
func axiomsFor(ts []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	inst := map[*Term]bool{}
	var scan func(t *Term, g int)
	scan = func(t *Term, g int) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "app" && !t.fv {
			if strings.HasPrefix(t.S, "clo:") {
				add(&out, inst, Le(t, Int(-1000000)))
			}
			if strings.HasPrefix(t.S, "addr:") {
				add(&out, inst, Le(t, Int(-2000000)))
			}
			if g < 3 {
				if f, ok := appAxioms[t.S]; ok {
					for _, a := range f(t) {
						if !inst[a] {
							inst[a] = true
							out = append(out, a)
							scan(a, g+1)
						}
					}
				}
				if strings.HasPrefix(t.S, "box:") {
					for _, a := range boxAxiom(t) {
						add(&out, inst, a)
					}
				}
			}
		}
		for _, a := range t.Args {
			scan(a, g)
		}
	}
	for _, t := range ts {
		scan(t, 0)
	}
	return out
}

func add(out *[]*Term, inst map[*Term]bool, a *Term) {
	if a != True && !inst[a] {
		inst[a] = true
		*out = append(*out, a)
	}
}

// boxing is injective
func boxAxiom(t *Term) []*Term {
	tn := strings.TrimPrefix(t.S, "box:")
	var out []*Term
	for i, a := range t.Args {
		out = append(out, Eq(App(fmt.Sprintf("unbox:%s:%d", tn, i), a.Sort, t), a))
	}
	return out
}

var appAxioms = map[string]func(t *Term) []*Term{}
