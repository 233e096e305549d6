package main

// Calls.

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func packResults(sig *types.Signature, res []Value) Value {
	switch len(res) {
	case 0:
		return VTuple{}
	case 1:
		return res[0]
	}
	return VTuple(res)
}

// callSync handles calls that don't fork; ok is false for the others.
func (x *Exec) callSync(fr *Frame, c *ssa.CallCommon, ins ssa.Instruction, st *State) (Value, bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		if b.Name() == "append" {
			return nil, false
		}
		return x.builtin(fr, b, c, st, ins.Pos()), true
	}
	if f := c.StaticCallee(); f != nil && !c.IsInvoke() {
		name := f.String()
		if x.isExternal(f) || libOverride[name] {
			args := x.args(fr, c, st)
			if m, ok := effLib[shortName(name)]; ok {
				x.trusted["model of "+name] = true
				return m(x, st, args, ins.Pos()), true
			}
			if m, ok := pureLib[shortName(name)]; ok {
				x.trusted["model of "+name] = true
				v := m(args)
				st.facts(v, resultType(f.Signature), st.wm)
				return v, true
			}
			if _, ok := forkLib[shortName(name)]; ok {
				return nil, false
			}
			var argT []types.Type
			for i := range args {
				argT = append(argT, paramType(f, i))
			}
			if v, ok := defaultPure(name, args, argT, f.Signature); ok {
				x.trusted["uninterpreted "+name] = true
				st.facts(v, resultType(f.Signature), st.wm)
				return v, true
			}
			return x.extern(st, "extern", name, nil, args, argT, f.Signature), true
		}
	}
	return nil, false
}

func shortName(n string) string { return strings.ReplaceAll(n, pkgPath+".", "") }

// in-package functions replaced by a model
var libOverride = map[string]bool{}

func (x *Exec) isExternal(f *ssa.Function) bool {
	if f.Pkg == x.pkg {
		return false
	}
	if f.Pkg == nil {
		// synthetic wrappers
		return f.Blocks == nil
	}
	return true
}

// extern records an event for a call whose effect isn't modelled further.
func (x *Exec) extern(st *State, kind, name string, fn *Term, args []Value, argT []types.Type, sig *types.Signature) Value {
	x.trusted["external "+name] = true
	T := resultType(sig)
	ev := &Event{Kind: kind, Name: shortName(name), Fn: fn, Args: args, ArgT: argT, ResT: T, St: st.clone()}
	if _, isT := T.(*types.Tuple); isT && sig.Results().Len() == 0 {
		ev.Res = VTuple{}
	} else {
		ev.Res = freshValue("ret."+shortName(name), T)
		// results may be new objects
		st.havocWm()
		st.facts(ev.Res, T, st.wm)
	}
	st.events = append(st.events, ev)
	return ev.Res
}

func (x *Exec) args(fr *Frame, c *ssa.CallCommon, st *State) []Value {
	var out []Value
	for _, a := range c.Args {
		out = append(out, x.val(fr, a, st))
	}
	return out
}

func (x *Exec) call(fr *Frame, c *ssa.CallCommon, ins ssa.Instruction, st *State, k func(st *State, res Value)) {
	pos := ins.Pos()
	if c.IsInvoke() {
		x.invoke(fr, c, st, pos, k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		x.appendCall(fr, c, st, pos, k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			t := x.val(fr, mc, st).(VS).T
			fn, bs := closureBindings(t)
			x.callFn(fr, fn, x.args(fr, c, st), bs, st, pos, k)
			return
		}
		x.callFn(fr, f, x.args(fr, c, st), nil, st, pos, k)
		return
	}
	f := x.val(fr, c.Value, st).(VS).T
	x.callValue(fr, f, c.Signature(), c.Value.Type(), x.args(fr, c, st), st, pos, k)
}

func (x *Exec) callFn(fr *Frame, f *ssa.Function, args, free []Value, st *State, pos token.Pos, k func(st *State, res Value)) {
	if m, ok := forkLib[shortName(f.String())]; ok && (x.isExternal(f) || libOverride[f.String()]) {
		x.trusted["model of "+f.String()] = true
		m(x, st, args, pos, k)
		return
	}
	if m, ok := effLib[shortName(f.String())]; ok && (x.isExternal(f) || libOverride[f.String()]) {
		x.trusted["model of "+f.String()] = true
		k(st, m(x, st, args, pos))
		return
	}
	if c := x.contracts[f]; c != nil && !(x.cur != nil && x.cur.reveal[c.name]) {
		x.useContract(c, args, st, pos, func(st *State, res []Value) {
			k(st, packResults(f.Signature, res))
		})
		return
	}
	if f.Blocks == nil || x.isExternal(f) {
		if m, ok := pureLib[shortName(f.String())]; ok {
			x.trusted["model of "+f.String()] = true
			k(st, m(args))
			return
		}
		var argT []types.Type
		for i := range args {
			argT = append(argT, paramType(f, i))
		}
		if v, ok := defaultPure(shortName(f.String()), args, argT, f.Signature); ok {
			x.trusted["uninterpreted "+f.String()] = true
			k(st, v)
			return
		}
		k(st, x.extern(st, "extern", f.String(), nil, args, argT, f.Signature))
		return
	}
	x.inlined[fnName(f)] = true
	depth := 0
	if fr != nil {
		depth = fr.depth + 1
	}
	x.callFunction(f, args, free, st, depth, func(st *State, res []Value) {
		k(st, packResults(f.Signature, res))
	})
}

// callValue calls a function value.
func (x *Exec) callValue(fr *Frame, f *Term, sig *types.Signature, T types.Type, args []Value, st *State, pos token.Pos, k func(st *State, res Value)) {
	if f.Op == "ite" {
		x.fork(st, f.Args[0], func(st *State) {
			x.callValue(fr, f.Args[1], sig, T, args, st, pos, k)
		}, func(st *State) {
			x.callValue(fr, f.Args[2], sig, T, args, st, pos, k)
		})
		return
	}
	if fn := fnByConst[f]; fn != nil {
		x.callFn(fr, fn, args, nil, st, pos, k)
		return
	}
	if f.Op == "app" && strings.HasPrefix(f.S, "clo:") {
		fn, bs := closureBindings(f)
		x.callFn(fr, fn, args, bs, st, pos, k)
		return
	}
	x.oblige(st, "safety", "no call of a nil function", pos, Ne(f, Int(0)))
	if st.dead {
		return
	}
	x.dynamic(st, f, T, args, sig, pos, k)
}

// dynSpecs: how calls of unknown function values of a type behave.
type DynSpec struct {
	name  string
	pure  bool // the result is a function of callee and arguments
	c     *Contract // what a call requires, may change and ensures
	sig   *types.Signature
}

// dynSpecFor finds the specification of function values with a signature.
func dynSpecFor(T types.Type) *DynSpec {
	sig, ok := T.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	for _, n := range sortedKeys(dynSpecs) {
		if d := dynSpecs[n]; d.sig != nil && types.Identical(d.sig, sig) {
			return d
		}
	}
	return nil
}

var dynSpecs = map[string]*DynSpec{}

func (x *Exec) dynamic(st *State, f *Term, T types.Type, args []Value, sig *types.Signature, pos token.Pos, k func(st *State, res Value)) {
	name := typeName(T)
	ds := dynSpecFor(T)
	if ds != nil {
		name = ds.name
	}
	var argT []types.Type
	for i := range args {
		argT = append(argT, sig.Params().At(min(i, sig.Params().Len()-1)).Type())
	}
	if ds != nil && ds.pure {
		ts := []*Term{f}
		for i, a := range args {
			ts = append(ts, flatten(a, argT[i])...)
		}
		RT := resultType(sig)
		var rs []*Term
		for i, l := range leaves(RT) {
			rs = append(rs, App("apply:"+name+leafSuffix(i, l), l.Sort, ts...))
		}
		x.trusted["values of type "+name+" are pure functions"] = true
		v := unflatten(RT, rs)
		st.facts(v, RT, st.wm)
		k(st, v)
		return
	}
	all := append([]Value{VS{f}}, args...)
	allT := append([]types.Type{T}, argT...)
	if ds == nil || ds.c == nil {
		k(st, x.extern(st, "dyn", name, f, all, allT, sig))
		return
	}
	x.dynContract(st, "dyn", ds, f, all, allT, sig, pos, k)
}

// dynContract calls unknown code that keeps to a contract.
func (x *Exec) dynContract(st *State, kind string, ds *DynSpec, f *Term, all []Value, allT []types.Type, sig *types.Signature, pos token.Pos, k func(st *State, res Value)) {
	name := ds.name
	c := ds.c
	pre := c.env0(x, st, all)
	walkClauses(pre, c.decl.Body.List, True, func(env *Env, guard *Term, nm string, call *ast.CallExpr) {
		if nm == "requires" {
			l, es := labelOf(env, call)
			for _, e := range es {
				x.oblige(st, "precondition", name+" value: "+l, pos, Implies(guard, env.boolean(e)))
			}
		}
	})
	if st.dead {
		return
	}
	old := st.clone()
	locs, whole, wall := c.modLocs(c.env0(x, old, all))
	x.checkMods(st, locs, whole, wall, pos, name)
	v := x.extern(st, kind, name, f, all, allT, sig)
	x.havocMods(st, locs, whole, wall, "dyn:")
	delete(x.trusted, "external "+name)
	x.trusted["calls of "+name+" values keep to "+c.obj.Name()] = true
	var res []Value
	switch sig.Results().Len() {
	case 0:
	case 1:
		res = []Value{v}
	default:
		res = []Value(v.(VTuple))
	}
	post := c.bindResults(c.env0(x, st, all), res)
	post.old = old
	walkClauses(post, c.decl.Body.List, True, func(env *Env, guard *Term, nm string, call *ast.CallExpr) {
		if nm == "ensures" {
			l, es := labelOf(env, call)
			for _, e := range es {
				st.assumeAs(Implies(guard, env.boolean(e)), l)
			}
		}
	})
	if st.dead {
		return
	}
	k(st, v)
}

func leafSuffix(i int, l Leaf) string {
	if l.Path == "" {
		return ""
	}
	return l.Path
}

func (x *Exec) invoke(fr *Frame, c *ssa.CallCommon, st *State, pos token.Pos, k func(st *State, res Value)) {
	v := x.val(fr, c.Value, st).(VIface)
	I := c.Value.Type()
	if v.Tag.Op != "int" {
		x.oblige(st, "safety", "no method call on a nil interface", pos, Ne(v.Tag, Int(0)))
	} else if v.Tag.I.Sign() == 0 {
		x.doPanic(st, "method call on a nil interface", pos)
		return
	}
	if st.dead {
		return
	}
	args := x.args(fr, c, st)
	var argT []types.Type
	sig := c.Method.Type().(*types.Signature)
	for i := range args {
		argT = append(argT, sig.Params().At(i).Type())
	}
	try := func(T types.Type, st *State) {
		fn := x.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name())
		recv := unboxVal(v.Val, T)
		st.facts(recv, T, st.wm)
		x.callFn(fr, fn, append([]Value{recv}, args...), nil, st, pos, k)
	}
	if v.Tag.Op == "int" && v.Tag.I.IsInt64() {
		if T := typeByID[int(v.Tag.I.Int64())]; T != nil {
			if x.inPackage(T) || T.String() == "net/http.HandlerFunc" {
				try(T, st)
				return
			}
		}
	}
	if impls, ok := closedWorld[typeName(I)]; ok {
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(impls) {
				st.assume(False)
				return
			}
			x.fork(st, Eq(v.Tag, typeID(impls[i])), func(st *State) {
				try(impls[i], st)
			}, func(st *State) {
				rec(i+1, st)
			})
		}
		rec(0, st)
		return
	}
	name := "(" + types.TypeString(I, nil) + ")." + c.Method.Name()
	full := c.Method.FullName()
	if m, ok := effLib[shortName(full)]; ok {
		x.trusted["model of "+full] = true
		k(st, m(x, st, append([]Value{v}, args...), pos))
		return
	}
	_ = name
	all := append([]Value{Value(v)}, args...)
	allT := append([]types.Type{I}, argT...)
	if ds := dynSpecs[full]; ds != nil {
		x.dynContract(st, "invoke", ds, v.Val, all, allT, sig, pos, k)
		return
	}
	k(st, x.extern(st, "invoke", full, v.Val, all, allT, sig))
}

func (x *Exec) inPackage(T types.Type) bool {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, ok := types.Unalias(T).(*types.Named)
	return ok && n.Obj().Pkg() == x.pkg.Pkg
}

func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, st *State, pos token.Pos) Value {
	args := x.args(fr, c, st)
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case VSlice:
			return VS{v.Len}
		case VS:
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				n := mapLen(st, c.Args[0].Type(), v.T)
				st.assume(Ge(n, Int(0)))
				return VS{n}
			}
			return VS{StrLen(v.T)}
		case VPtr:
			at := derefType(c.Args[0].Type()).Underlying().(*types.Array)
			return VS{Int(at.Len())}
		}
	case "cap":
		return VS{args[0].(VSlice).Cap}
	case "copy":
		return x.copySlice(st, args[0].(VSlice), args[1], c.Args[0].Type(), pos)
	case "delete":
		m := args[0].(VS).T
		k := mapKey(args[1], c.Args[0].Type())
		x.mapDelete(st, c.Args[0].Type(), m, k, pos)
		return VTuple{}
	case "ssa:deferstack":
		return VS{Int(0)}
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0].(VPtr), pos)
		return args[0]
	case "min":
		a, bb := args[0].(VS).T, args[1].(VS).T
		return VS{Ite(Le(a, bb), a, bb)}
	case "max":
		a, bb := args[0].(VS).T, args[1].(VS).T
		return VS{Ite(Le(a, bb), bb, a)}
	case "recover":
		return VIface{Int(0), Int(0)}
	}
	unsupp("builtin %s", b.Name())
	return nil
}

func (x *Exec) copySlice(st *State, d VSlice, sv Value, T types.Type, pos token.Pos) Value {
	s, ok := sv.(VSlice)
	if !ok {
		unsupp("copy from a string")
	}
	E := T.Underlying().(*types.Slice).Elem()
	n := Ite(Le(d.Len, s.Len), d.Len, s.Len)
	for _, l := range leaves(E) {
		k := elemComp(E, nil, l.Path)
		e := st.get(k, ArrSort(SInt, ArrSort(SInt, l.Sort)))
		if n != Int(0) {
			x.checkWrite(st, k, d.Ref, nil, pos)
		}
		row := Select(e, d.Ref)
		src := Select(e, s.Ref)
		nr := Fresh("copied", row.Sort)
		q := FreshB("i", SInt)
		st.assume(Forall([]*Term{q}, Eq(Select(nr, q), Ite(And(Le(d.Off, q), Lt(q, Add(d.Off, n))), Select(src, Add(s.Off, Sub(q, d.Off))), Select(row, q))), []*Term{Select(nr, q)}))
		st.set(k, Store(e, d.Ref, nr))
	}
	return VS{n}
}

// appendCall models append: in place when the capacity suffices, else in a
// fresh array (whose offset is kept, which nothing can observe).
func (x *Exec) appendCall(fr *Frame, c *ssa.CallCommon, st *State, pos token.Pos, k func(st *State, res Value)) {
	args := x.args(fr, c, st)
	s := args[0].(VSlice)
	T := c.Args[0].Type()
	E := T.Underlying().(*types.Slice).Elem()
	t, ok := args[1].(VSlice)
	if !ok {
		unsupp("append of a string")
	}
	n := t.Len
	if n.Op == "int" && n.I.Sign() == 0 {
		k(st, s)
		return
	}
	write := func(st *State, ref *Term, cp *Term) {
		for _, l := range leaves(E) {
			key := elemComp(E, nil, l.Path)
			e := st.get(key, ArrSort(SInt, ArrSort(SInt, l.Sort)))
			x.checkWrite(st, key, ref, nil, pos)
			row := Select(e, s.Ref)
			src := Select(e, t.Ref)
			if n.Op == "int" && n.I.IsInt64() && n.I.Int64() <= 8 {
				for j := int64(0); j < n.I.Int64(); j++ {
					row = Store(row, Add(Add(s.Off, s.Len), Int(j)), Select(src, Add(t.Off, Int(j))))
				}
				st.set(key, Store(e, ref, row))
				continue
			}
			nr := Fresh("appended", row.Sort)
			q := FreshB("i", SInt)
			at := Add(s.Off, s.Len)
			st.assume(Forall([]*Term{q}, Eq(Select(nr, q), Ite(And(Le(at, q), Lt(q, Add(at, n))), Select(src, Add(t.Off, Sub(q, at))), Select(row, q))), []*Term{Select(nr, q)}))
			st.set(key, Store(e, ref, nr))
		}
		k(st, VSlice{ref, s.Off, Add(s.Len, n), cp})
	}
	if n.Op != "int" {
		st.assume(Le(Add(s.Len, n), Int(1<<60)))
		x.fork(st, Eq(n, Int(0)), func(st *State) {
			k(st, s)
		}, func(st *State) {
			x.appendFork(st, s, n, write)
		})
		return
	}
	x.appendFork(st, s, n, write)
}

func (x *Exec) appendFork(st *State, s VSlice, n *Term, write func(st *State, ref, cp *Term)) {
	x.fork(st, Le(Add(s.Len, n), s.Cap), func(st *State) {
		write(st, s.Ref, s.Cap)
	}, func(st *State) {
		ref := st.alloc()
		cp := Fresh("cap", SInt)
		st.assume(And(Ge(cp, Add(s.Len, n)), Le(cp, Int(1<<60))))
		write(st, ref, cp)
	})
}

// paramType is the type of a function's i-th argument, the receiver first.
func paramType(f *ssa.Function, i int) types.Type {
	sig := f.Signature
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	return sig.Params().At(min(i, sig.Params().Len()-1)).Type()
}
