package main

// Models of library functions (trusted).

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

var pureLib = map[string]func(args []Value) Value{}
var effLib = map[string]func(x *Exec, st *State, args []Value, pos token.Pos) Value{}
var forkLib = map[string]func(x *Exec, st *State, args []Value, pos token.Pos, k func(st *State, res Value)){}

func ts(args []Value, i int) *Term { return args[i].(VS).T }

// defaultPure: a deterministic library function over plain values.
func defaultPure(name string, args []Value, argT []types.Type, sig *types.Signature) (Value, bool) {
	pk := name
	if strings.HasPrefix(pk, "(") {
		return nil, false
	}
	if i := strings.LastIndexByte(pk, '.'); i >= 0 {
		pk = pk[:i]
	}
	switch pk {
	case "strings", "path", "strconv", "unicode", "unicode/utf8", "net/url", "net":
	default:
		return nil, false
	}
	var all []*Term
	for i, a := range args {
		if scalarSort(argT[i]) == "" {
			return nil, false
		}
		all = append(all, flatten(a, argT[i])...)
	}
	if sig.Results().Len() == 0 {
		return nil, false
	}
	T := resultType(sig)
	for i := 0; i < sig.Results().Len(); i++ {
		if scalarSort(sig.Results().At(i).Type()) == "" && sig.Results().At(i).Type().String() != "error" {
			return nil, false
		}
	}
	var rs []*Term
	for _, l := range leaves(T) {
		rs = append(rs, App("lib:"+name+l.Path, l.Sort, all...))
	}
	return unflatten(T, rs), true
}

func libApp(name string, s Sort, a ...*Term) *Term { return App("lib:"+name, s, a...) }

func contains(s, t *Term) *Term { return mk("str.contains", SBool, "", nil, nil, nil, s, t) }

func chr(c *Term) *Term {
	if c.Op == "int" && c.I.IsInt64() {
		return StrC(string([]byte{byte(c.I.Int64())}))
	}
	return mk("str.from_code", SStr, "", nil, nil, nil, c)
}

func init() {
	p := func(n string, f func(a []Value) Value) { pureLib[n] = f }
	p("strings.HasPrefix", func(a []Value) Value { return VS{StrPrefix(ts(a, 1), ts(a, 0))} })
	p("strings.HasSuffix", func(a []Value) Value { return VS{StrSuffix(ts(a, 1), ts(a, 0))} })
	p("strings.Contains", func(a []Value) Value { return VS{contains(ts(a, 0), ts(a, 1))} })
	p("strings.TrimPrefix", func(a []Value) Value {
		s, q := ts(a, 0), ts(a, 1)
		t := StrSub(s, StrLen(q), Sub(StrLen(s), StrLen(q)))
		if t.Op == "str.substr" {
			markSafe(t)
		}
		return VS{Ite(StrPrefix(q, s), t, s)}
	})
	p("strings.TrimSuffix", func(a []Value) Value {
		s, q := ts(a, 0), ts(a, 1)
		return VS{Ite(StrSuffix(q, s), StrSub(s, Int(0), Sub(StrLen(s), StrLen(q))), s)}
	})
	p("strings.Index", func(a []Value) Value { return VS{StrIndex(ts(a, 0), ts(a, 1), Int(0))} })
	p("strings.IndexByte", func(a []Value) Value { return VS{StrIndex(ts(a, 0), chr(ts(a, 1)), Int(0))} })
	p("strings.LastIndexByte", func(a []Value) Value { return VS{libApp("strings.LastIndexByte", SInt, ts(a, 0), ts(a, 1))} })
	appAxioms["lib:strings.LastIndexByte"] = func(t *Term) []*Term {
		s, c := t.Args[0], chr(t.Args[1])
		return []*Term{Or(
			And(Eq(t, Int(-1)), Not(contains(s, c))),
			And(Ge(t, Int(0)), Lt(t, StrLen(s)), Eq(StrAt(s, t), c), Not(contains(StrSub(s, Add(t, Int(1)), Sub(Sub(StrLen(s), t), Int(1))), c))),
		)}
	}
	p("strings.IndexAny", func(a []Value) Value { return VS{libApp("strings.IndexAny", SInt, ts(a, 0), ts(a, 1))} })
	appAxioms["lib:strings.IndexAny"] = func(t *Term) []*Term {
		s, set := t.Args[0], t.Args[1]
		if set.Op != "str" {
			return []*Term{Ge(t, Int(-1)), Lt(t, StrLen(s))}
		}
		none := func(z *Term) *Term {
			var cs []*Term
			for i := 0; i < len(set.S); i++ {
				cs = append(cs, Not(contains(z, StrC(set.S[i:i+1]))))
			}
			return And(cs...)
		}
		var is []*Term
		for i := 0; i < len(set.S); i++ {
			is = append(is, Eq(StrAt(s, t), StrC(set.S[i:i+1])))
		}
		return []*Term{Or(And(Eq(t, Int(-1)), none(s)), And(Ge(t, Int(0)), Lt(t, StrLen(s)), Or(is...), none(StrSub(s, Int(0), t))))}
	}
	p("strings.ToUpper", func(a []Value) Value { return VS{libApp("strings.ToUpper", SStr, ts(a, 0))} })
	appAxioms["lib:strings.ToUpper"] = func(t *Term) []*Term {
		return []*Term{Eq(Eq(t, StrC("")), Eq(t.Args[0], StrC("")))}
	}
	p("strings.ToLower", func(a []Value) Value { return VS{libApp("strings.ToLower", SStr, ts(a, 0))} })
	p("strings.TrimSpace", func(a []Value) Value { return VS{libApp("strings.TrimSpace", SStr, ts(a, 0))} })
	p("net/http.StatusText", func(a []Value) Value { return VS{libApp("net/http.StatusText", SStr, ts(a, 0))} })
	p("errors.Is", func(a []Value) Value {
		return VS{errIsTerm(a[0].(VIface), a[1].(VIface))}
	})
	appAxioms["err:wrap"] = func(t *Term) []*Term {
		return []*Term{Lt(t, Int(-3000000)), Eq(eroot(t), eroot(t.Args[1]))}
	}
	appAxioms["err:new"] = func(t *Term) []*Term {
		return []*Term{Lt(t, Int(-3000000)), Eq(eroot(t), t)}
	}
	appAxioms["eroot"] = func(t *Term) []*Term {
		if t.Args[0].Op == "int" {
			return []*Term{Eq(t, t.Args[0])}
		}
		return nil
	}

	// strings.Builder
	sb := func(x *Exec, st *State, a []Value, pos token.Pos) (*Addr, *Term) {
		ad := a[0].(VPtr).A
		x.nonNil(st, a[0].(VPtr), pos)
		return ad, st.load(ad).(VS).T
	}
	e := func(n string, f func(x *Exec, st *State, a []Value, pos token.Pos) Value) { effLib[n] = f }
	nilErr := VIface{Int(0), Int(0)}
	e("(*strings.Builder).WriteString", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		ad, s := sb(x, st, a, pos)
		x.write(st, ad, VS{StrCat(s, ts(a, 1))}, pos)
		return VTuple{VS{StrLen(ts(a, 1))}, nilErr}
	})
	e("(*strings.Builder).WriteByte", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		ad, s := sb(x, st, a, pos)
		x.write(st, ad, VS{StrCat(s, chr(ts(a, 1)))}, pos)
		return nilErr
	})
	e("(*strings.Builder).WriteRune", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		ad, s := sb(x, st, a, pos)
		r := runeStr(ts(a, 1))
		x.write(st, ad, VS{StrCat(s, r)}, pos)
		return VTuple{VS{StrLen(r)}, nilErr}
	})
	e("(*strings.Builder).String", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		_, s := sb(x, st, a, pos)
		return VS{s}
	})
	e("(*strings.Builder).Len", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		_, s := sb(x, st, a, pos)
		return VS{StrLen(s)}
	})
	e("(*strings.Builder).Reset", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		ad, _ := sb(x, st, a, pos)
		x.write(st, ad, VS{StrC("")}, pos)
		return VTuple{}
	})
	e("(*strings.Builder).Grow", func(x *Exec, st *State, a []Value, pos token.Pos) Value { return VTuple{} })

	// errors of the package
	e("newErr", mkErr)
	e("createErr", func(x *Exec, st *State, a []Value, pos token.Pos) Value { return mkErr(x, st, a[1:], pos) })
	e("fmt.Errorf", mkErr)
	e("panicWithErr", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		x.doPanic(st, "panic with an error", pos)
		st.dead = true
		return VTuple{}
	})
	e("(error).Error", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		v := a[0].(VIface)
		return VS{App("error.Error", strSort(), v.Tag, v.Val)}
	})

	// regular expressions: abstract, deterministic
	e("(*regexp.Regexp).String", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		x.nonNil(st, a[0].(VPtr), pos)
		return VS{App("re.String", SStr, addrTerm(a[0].(VPtr).A))}
	})
	e("(*regexp.Regexp).MatchString", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		x.nonNil(st, a[0].(VPtr), pos)
		return VS{reMatch(addrTerm(a[0].(VPtr).A), ts(a, 1))}
	})
	e("(*regexp.Regexp).ReplaceAllLiteralString", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		return VS{App("re.ReplaceAllLiteral", SStr, addrTerm(a[0].(VPtr).A), ts(a, 1), ts(a, 2))}
	})
	forkLib["(*regexp.Regexp).FindStringIndex"] = func(x *Exec, st *State, a []Value, pos token.Pos, k func(st *State, res Value)) {
		x.nonNil(st, a[0].(VPtr), pos)
		re, s := addrTerm(a[0].(VPtr).A), ts(a, 1)
		x.fork(st, reMatch(re, s), func(st *State) {
			ref := st.alloc()
			key := "E:int"
			e := st.get(key, ArrSort(SInt, ArrSort(SInt, SInt)))
			row := Store(Store(ConstArr(SInt, Int(0)), Int(0), reStart(re, s)), Int(1), reEnd(re, s))
			st.set(key, Store(e, ref, row))
			st.assume(And(Le(Int(0), reStart(re, s)), Le(reStart(re, s), reEnd(re, s)), Le(reEnd(re, s), StrLen(s))))
			k(st, VSlice{ref, Int(0), Int(2), Int(2)})
		}, func(st *State) {
			k(st, VSlice{Int(0), Int(0), Int(0), Int(0)})
		})
	}
	reFacts := func(t *Term) []*Term {
		re, s := t.Args[0], t.Args[1]
		return []*Term{Implies(reMatch(re, s), And(Le(Int(0), reStart(re, s)), Le(reStart(re, s), reEnd(re, s)), Le(reEnd(re, s), StrLen(s))))}
	}
	appAxioms["re.start"] = reFacts
	appAxioms["re.end"] = reFacts
	// FindAllStringIndex(s, -1): a list of matches; what the code looks at is
	// whether there is exactly one and where it is
	forkLib["(*regexp.Regexp).FindAllStringIndex"] = func(x *Exec, st *State, a []Value, pos token.Pos, k func(st *State, res Value)) {
		x.nonNil(st, a[0].(VPtr), pos)
		re, s := addrTerm(a[0].(VPtr).A), ts(a, 1)
		n := App("re.count", SInt, re, s)
		st.assume(Ge(n, Int(0)))
		st.assume(Eq(Gt(n, Int(0)), reMatch(re, s)))
		st.assume(Le(n, Add(StrLen(s), Int(1))))
		x.fork(st, Eq(n, Int(0)), func(st *State) {
			k(st, VSlice{Int(0), Int(0), Int(0), Int(0)})
		}, func(st *State) {
			in := st.alloc()
			key := "E:int"
			e := st.get(key, ArrSort(SInt, ArrSort(SInt, SInt)))
			row := Store(Store(ConstArr(SInt, Int(0)), Int(0), reStart(re, s)), Int(1), reEnd(re, s))
			st.set(key, Store(e, in, row))
			st.assume(And(Le(Int(0), reStart(re, s)), Le(reStart(re, s), reEnd(re, s)), Le(reEnd(re, s), StrLen(s))))
			out := st.alloc()
			for i, v := range []*Term{in, Int(0), Int(2), Int(2)} {
				kk := "E:[]int" + []string{"#ref", "#off", "#len", "#cap"}[i]
				ee := st.get(kk, ArrSort(SInt, ArrSort(SInt, SInt)))
				st.set(kk, Store(ee, out, Store(Fresh("matches", ArrSort(SInt, SInt)), Int(0), v)))
			}
			k(st, VSlice{out, Int(0), n, n})
		})
	}
	forkLib["regexp.Compile"] = func(x *Exec, st *State, a []Value, pos token.Pos, k func(st *State, res Value)) {
		s := ts(a, 0)
		x.fork(st, App("re.valid", SBool, s), func(st *State) {
			ref := st.alloc()
			st.assume(Eq(App("re.String", SStr, ref), s))
			k(st, VTuple{VPtr{&Addr{Kind: ACell, Ref: ref, Base: reStructType}}, nilErr})
		}, func(st *State) {
			freshN["err"]++
			k(st, VTuple{VPtr{&Addr{Kind: ACell, Ref: Int(0), Base: reStructType}}, VIface{Int(900001), App("err:new", SInt, Int(int64(freshN["err"])))}})
		})
	}
	for _, n := range []string{"re.match", "re.start", "re.end", "re.count"} {
		_ = n
	}

	forkLib["(net/http.HandlerFunc).ServeHTTP"] = func(x *Exec, st *State, a []Value, pos token.Pos, k func(st *State, res Value)) {
		T := handlerFuncType(x)
		x.callValue(nil, a[0].(VS).T, T.Underlying().(*types.Signature), T, a[1:], st, pos, k)
	}

	// contexts
	e("context.WithValue", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		var all []*Term
		for _, v := range a {
			i := v.(VIface)
			all = append(all, i.Tag, i.Val)
		}
		return VIface{Int(900002), App("ctx.With", SInt, all...)}
	})
	e("(context.Context).Value", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		c, k := a[0].(VIface), a[1].(VIface)
		return ctxValue(c, k)
	})
	e("(*net/http.Request).Context", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		p := a[0].(VPtr)
		x.nonNil(st, p, pos)
		v := st.load(ctxField(p)).(VIface)
		return VIface{Ite(Eq(v.Tag, Int(0)), Int(900003), v.Tag), v.Val}
	})
	e("(*net/http.Request).WithContext", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		p := a[0].(VPtr)
		x.nonNil(st, p, pos)
		n := x.newObject(st, p.A.Base)
		st.rawStore(n, st.load(p.A))
		st.rawStore(ctxField(VPtr{n}), a[1])
		return VPtr{n}
	})
	e("(*net/url.URL).EscapedPath", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		p := a[0].(VPtr)
		x.nonNil(st, p, pos)
		u := p.A.Base.Underlying().(*types.Struct)
		var ts []*Term
		for i := 0; i < u.NumFields(); i++ {
			if n := u.Field(i).Name(); n == "Path" || n == "RawPath" {
				ts = append(ts, st.load(fieldAddr(p.A, i)).(VS).T)
			}
		}
		return VS{App("url.EscapedPath", SStr, ts...)}
	})
	// the text of a URL depends on its fields only
	e("(*net/url.URL).String", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		p := a[0].(VPtr)
		x.nonNil(st, p, pos)
		return VS{urlString(st, p.A, nil)}
	})
	// pools hand out objects nobody else uses, with any content
	e("(*sync.Pool).Get", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		ref := st.alloc()
		if poolType == nil {
			unsupp("sync.Pool without a known element type")
		}
		// everything stored at the new reference is arbitrary, but slices of it
		// are its own
		v := VPtr{&Addr{Kind: AObj, Ref: ref, Base: poolType}}
		cont := freshValue("pooled", poolType)
		if s, ok := cont.(VStruct); ok {
			for i, f := range s.F {
				if sl, ok := f.(VSlice); ok {
					sl.Ref = Ite(Eq(sl.Cap, Int(0)), Int(0), st.alloc())
					sl.Off = Int(0)
					s.F[i] = sl
				}
			}
		}
		st.rawStore(v.A, cont)
		st.facts(cont, poolType, st.wm)
		st.events = append(st.events, &Event{Kind: "extern", Name: "(*sync.Pool).Get", Args: []Value{v}, ArgT: []types.Type{types.NewPointer(poolType)}, St: st.clone()})
		if sf := x.spec.byName["poolInv"]; sf != nil {
			e := &Env{sp: x.spec, st: st, old: st, vars: map[types.Object]Value{}, lets: map[types.Object]ast.Expr{}, name: "pool"}
			st.assumeAs(e.apply(sf, []Value{v}).(VS).T, "pool")
		}
		return VIface{typeID(types.NewPointer(poolType)), ref}
	})
	e("(*sync.Pool).Put", func(x *Exec, st *State, a []Value, pos token.Pos) Value {
		i := a[1].(VIface)
		x.oblige(st, "pool", "what is put back has the pool's type", pos, Eq(i.Tag, typeID(types.NewPointer(poolType))))
		v := VPtr{&Addr{Kind: AObj, Ref: i.Val, Base: poolType}}
		st.events = append(st.events, &Event{Kind: "extern", Name: "(*sync.Pool).Put", Args: []Value{v}, ArgT: []types.Type{types.NewPointer(poolType)}, St: st.clone()})
		x.oblige(st, "pool", "what is put back isn't nil", pos, Ne(i.Val, Int(0)))
		if sf := x.spec.byName["poolInv"]; sf != nil {
			e := &Env{sp: x.spec, st: st, old: st, vars: map[types.Object]Value{}, lets: map[types.Object]ast.Expr{}, name: "pool"}
			x.oblige(st, "pool", "what is put back is as good as new", pos, e.apply(sf, []Value{v}).(VS).T)
		}
		return VTuple{}
	})
}

var poolType types.Type
var reStructType types.Type

func urlString(st *State, a *Addr, with map[string]*Term) *Term {
	u := a.Base.Underlying().(*types.Struct)
	var ts []*Term
	for i := 0; i < u.NumFields(); i++ {
		if t := with[u.Field(i).Name()]; t != nil {
			ts = append(ts, t)
			continue
		}
		ts = append(ts, flatten(st.load(fieldAddr(a, i)), u.Field(i).Type())...)
	}
	return App("url.String", SStr, ts...)
}

func ctxField(p VPtr) *Addr {
	u := p.A.Base.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "ctx" {
			return fieldAddr(p.A, i)
		}
	}
	unsupp("no ctx field")
	return nil
}

func ctxValue(c, k VIface) Value {
	if c.Val.Op == "app" && c.Val.S == "ctx.With" {
		a := c.Val.Args
		eq := And(Eq(a[2], k.Tag), Eq(a[3], k.Val))
		rest := ctxValue(VIface{a[0], a[1]}, k).(VIface)
		return VIface{Ite(eq, a[4], rest.Tag), Ite(eq, a[5], rest.Val)}
	}
	return VIface{App("ctx.Value#tag", SInt, c.Tag, c.Val, k.Tag, k.Val), App("ctx.Value#val", SInt, c.Tag, c.Val, k.Tag, k.Val)}
}

func reMatch(re, s *Term) *Term { return App("re.match", SBool, re, s) }
func reStart(re, s *Term) *Term { return App("re.start", SInt, re, s) }
func reEnd(re, s *Term) *Term   { return App("re.end", SInt, re, s) }

func eroot(v *Term) *Term { return App("eroot", SInt, v) }

func errIsTerm(e, t VIface) *Term {
	return And(Ne(e.Tag, Int(0)), Or(Eq(e.Val, t.Val), Eq(eroot(e.Val), t.Val)))
}

// mkErr models error construction from a format and arguments: the first %w
// argument is wrapped.
func mkErr(x *Exec, st *State, a []Value, pos token.Pos) Value {
	freshN["err"]++
	n := Int(int64(freshN["err"]))
	f, ok := a[0].(VS)
	lit, isLit := "", false
	if ok && f.T.Op == "str" {
		lit, isLit = f.T.S, true
	} else if ok {
		lit, isLit = rankLits[f.T]
	}
	if isLit {
		verb := 0
		s := lit
		for i := 0; i+1 < len(s); i++ {
			if s[i] == '%' {
				if s[i+1] == '%' {
					i++
					continue
				}
				if s[i+1] == 'w' {
					v := a[1].(VSlice)
					tg := st.get("E:interface{}#tag", ArrSort(SInt, ArrSort(SInt, SInt)))
					vl := st.get("E:interface{}#val", ArrSort(SInt, ArrSort(SInt, SInt)))
					_ = tg
					w := Select(Select(vl, v.Ref), Add(v.Off, Int(int64(verb))))
					return VIface{Int(900001), App("err:wrap", SInt, n, w)}
				}
				verb++
			}
		}
	}
	return VIface{Int(900001), App("err:new", SInt, n)}
}

// specification builtins
type builtinFn func(e *Env, n *ast.CallExpr) Value

var specBuiltins map[string]builtinFn

func init() {
	specBuiltins = map[string]builtinFn{
		"old": func(e *Env, n *ast.CallExpr) Value {
			if e.old == nil {
				unsupp("old: no previous state")
			}
			return e.with(e.old).eval(n.Args[0])
		},
		"atEntry": func(e *Env, n *ast.CallExpr) Value {
			if e.ent == nil {
				unsupp("atEntry outside an invariant")
			}
			ne := e.with(e.ent)
			ne.vars = make(map[types.Object]Value)
			for k, v := range e.vars {
				ne.vars[k] = v
			}
			if e.fr != nil {
				// variables at the loop entry
				if id, ok := n.Args[0].(*ast.Ident); ok {
					_ = id
				}
			}
			return ne.eval(n.Args[0])
		},
		"implies": func(e *Env, n *ast.CallExpr) Value {
			a := e.boolean(n.Args[0])
			if a == False {
				return VS{True}
			}
			return VS{Implies(a, e.boolean(n.Args[1]))}
		},
		"iff": func(e *Env, n *ast.CallExpr) Value { return VS{Eq(e.boolean(n.Args[0]), e.boolean(n.Args[1]))} },
		"ite": func(e *Env, n *ast.CallExpr) Value {
			c := e.boolean(n.Args[0])
			T := e.typ(n)
			if c == True {
				return e.evalAs(n.Args[1], T)
			}
			if c == False {
				return e.evalAs(n.Args[2], T)
			}
			return iteValue(c, e.evalAs(n.Args[1], T), e.evalAs(n.Args[2], T), T)
		},
		"forall":    func(e *Env, n *ast.CallExpr) Value { return e.rangeQ(n, true) },
		"exists":    func(e *Env, n *ast.CallExpr) Value { return e.rangeQ(n, false) },
		"all":       func(e *Env, n *ast.CallExpr) Value { return e.freeQ(n, true) },
		"some":      func(e *Env, n *ast.CallExpr) Value { return e.freeQ(n, false) },
		"errIs":     func(e *Env, n *ast.CallExpr) Value { return VS{errIsTerm(e.eval(n.Args[0]).(VIface), e.eval(n.Args[1]).(VIface))} },
		"typeIs":    func(e *Env, n *ast.CallExpr) Value { return e.typeIs(n) },
		"newObj":    func(e *Env, n *ast.CallExpr) Value { return VS{Gt(refOf(e.eval(n.Args[0])), e.old.wm)} },
		"allocated": func(e *Env, n *ast.CallExpr) Value { return VS{Le(refOf(e.eval(n.Args[0])), e.st.wm)} },
		"refEq":     func(e *Env, n *ast.CallExpr) Value { return VS{Eq(refOf(e.eval(n.Args[0])), refOf(e.eval(n.Args[1])))} },
		// the same elements of the same array, up to the length
		"sameArray": func(e *Env, n *ast.CallExpr) Value {
			a, b := e.eval(n.Args[0]).(VSlice), e.eval(n.Args[1]).(VSlice)
			return VS{And(Eq(a.Ref, b.Ref), Eq(a.Off, b.Off))}
		},
		"sameSlice": func(e *Env, n *ast.CallExpr) Value {
			a, b := e.eval(n.Args[0]).(VSlice), e.eval(n.Args[1]).(VSlice)
			return VS{And(Eq(a.Ref, b.Ref), Eq(a.Off, b.Off), Eq(a.Len, b.Len), Eq(a.Cap, b.Cap))}
		},
		"reMatch": func(e *Env, n *ast.CallExpr) Value {
			return VS{reMatch(addrTerm(e.eval(n.Args[0]).(VPtr).A), e.term(n.Args[1]))}
		},
		"reStart": func(e *Env, n *ast.CallExpr) Value {
			return VS{reStart(addrTerm(e.eval(n.Args[0]).(VPtr).A), e.term(n.Args[1]))}
		},
		"reEnd": func(e *Env, n *ast.CallExpr) Value {
			return VS{reEnd(addrTerm(e.eval(n.Args[0]).(VPtr).A), e.term(n.Args[1]))}
		},
		"reCount": func(e *Env, n *ast.CallExpr) Value {
			return VS{App("re.count", SInt, addrTerm(e.eval(n.Args[0]).(VPtr).A), e.term(n.Args[1]))}
		},
		"reString": func(e *Env, n *ast.CallExpr) Value {
			return VS{App("re.String", SStr, addrTerm(e.eval(n.Args[0]).(VPtr).A))}
		},
		"reValid": func(e *Env, n *ast.CallExpr) Value { return VS{App("re.valid", SBool, e.term(n.Args[0]))} },
		"reReplace": func(e *Env, n *ast.CallExpr) Value {
			return VS{App("re.ReplaceAllLiteral", SStr, addrTerm(e.eval(n.Args[0]).(VPtr).A), e.term(n.Args[1]), e.term(n.Args[2]))}
		},
		"mapHas": func(e *Env, n *ast.CallExpr) Value {
			T := e.typ(n.Args[0])
			return VS{mapHas(e.st, T, e.term(n.Args[0]), mapKey(e.evalAs(n.Args[1], T.Underlying().(*types.Map).Key()), T))}
		},
		"mapSame": func(e *Env, n *ast.CallExpr) Value { return e.mapSame(n) },
		// the number of calls since the last loop
		"nevAfterLoop": func(e *Env, n *ast.CallExpr) Value {
			k := 0
			for _, ev := range e.evs {
				k++
				if ev.Kind == "loop" {
					k = 0
				}
			}
			return VS{Int(int64(k))}
		},
		"nev":     func(e *Env, n *ast.CallExpr) Value { return VS{Int(int64(len(e.events())))} },
		"evIs":    func(e *Env, n *ast.CallExpr) Value { return e.evIs(n) },
		"evName":  func(e *Env, n *ast.CallExpr) Value { return e.evName(n) },
		"evRet": func(e *Env, n *ast.CallExpr) Value {
			ev := e.event(n.Args[0])
			if ev == nil {
				return freshValue("noevent", e.typ(n))
			}
			if tup, ok := ev.ResT.(*types.Tuple); ok && tup.Len() == 0 {
				return freshValue("noresult", e.typ(n))
			}
			return toType(ev.Res, ev.ResT, e.typ(n))
		},
		"evArg": func(e *Env, n *ast.CallExpr) Value {
			ev := e.event(n.Args[0])
			j := int(e.term(n.Args[1]).I.Int64())
			if ev == nil || j >= len(ev.Args) {
				return freshValue("noevent", e.typ(n))
			}
			return toType(ev.Args[j], ev.ArgT[j], e.typ(n))
		},
		"at": func(e *Env, n *ast.CallExpr) Value {
			ev := e.event(n.Args[0])
			if ev == nil {
				return freshValue("noevent", e.typ(n))
			}
			return e.with(ev.St).eval(n.Args[1])
		},
		"middleware": func(e *Env, n *ast.CallExpr) Value {
			// the result of applying a pure function value
			f := e.eval(n.Args[0]).(VS).T
			T := e.typ(n.Args[0])
			sig := T.Underlying().(*types.Signature)
			ts := []*Term{f}
			for i, a := range n.Args[1:] {
				ts = append(ts, flatten(e.evalAs(a, sig.Params().At(i).Type()), sig.Params().At(i).Type())...)
			}
			RT := resultType(sig)
			var rs []*Term
			for i, l := range leaves(RT) {
				rs = append(rs, App("apply:"+typeName(T)+leafSuffix(i, l), l.Sort, ts...))
			}
			return unflatten(RT, rs)
		},
		"requestContext": func(e *Env, n *ast.CallExpr) Value {
			v := e.load(ctxField(e.eval(n.Args[0]).(VPtr))).(VIface)
			return VIface{Ite(Eq(v.Tag, Int(0)), Int(900003), v.Tag), v.Val}
		},
		"contextValue": func(e *Env, n *ast.CallExpr) Value {
			return ctxValue(e.eval(n.Args[0]).(VIface), e.evalAs(n.Args[1], e.sp.anyT()).(VIface))
		},
		// the text a strings.Builder holds
		"first":  func(e *Env, n *ast.CallExpr) Value { return e.eval(n.Args[0]).(VTuple)[0] },
		"first3": func(e *Env, n *ast.CallExpr) Value { return e.eval(n.Args[0]).(VTuple)[0] },
		"third":  func(e *Env, n *ast.CallExpr) Value { return e.eval(n.Args[0]).(VTuple)[2] },
		"second": func(e *Env, n *ast.CallExpr) Value { return e.eval(n.Args[0]).(VTuple)[1] },
		// the text of a URL with other values in some of its fields
		"urlText": func(e *Env, n *ast.CallExpr) Value {
			return VS{urlString(e.st, e.eval(n.Args[0]).(VPtr).A, map[string]*Term{
				"Scheme": e.term(n.Args[1]), "Host": e.term(n.Args[2]), "Path": e.term(n.Args[3]), "RawPath": e.term(n.Args[4])})}
		},
		"escapedPath": func(e *Env, n *ast.CallExpr) Value {
			return VS{App("url.EscapedPath", SStr, e.term(n.Args[0]), e.term(n.Args[1]))}
		},
		"built": func(e *Env, n *ast.CallExpr) Value { return e.eval(n.Args[0]) },
		"panicked": func(e *Env, n *ast.CallExpr) Value { return VS{False} },
	}
}

func (sp *SpecPkg) anyT() types.Type { return types.NewInterfaceType(nil, nil) }

func refOf(v Value) *Term {
	switch p := v.(type) {
	case VPtr:
		return addrTerm(p.A)
	case VSlice:
		return p.Ref
	case VS:
		return p.T
	case VIface:
		return p.Val
	}
	unsupp("spec: reference of %T", v)
	return nil
}

func (e *Env) lit(x ast.Expr) *ast.FuncLit {
	l, ok := x.(*ast.FuncLit)
	if !ok {
		unsupp("spec: function literal expected")
	}
	return l
}

func (e *Env) rangeQ(n *ast.CallExpr, all bool) Value {
	lo, hi := e.term(n.Args[0]), e.term(n.Args[1])
	l := e.lit(n.Args[2])
	id := l.Type.Params.List[0].Names[0]
	o := e.sp.info.Defs[id]
	// small constant ranges are expanded
	if lo.Op == "int" && hi.Op == "int" && hi.I.Int64()-lo.I.Int64() <= 8 {
		var cs []*Term
		for i := lo.I.Int64(); i < hi.I.Int64(); i++ {
			cs = append(cs, e.bind(o, VS{Int(i)}).body(l.Body.List, types.Typ[types.Bool]).(VS).T)
		}
		if all {
			return VS{And(cs...)}
		}
		return VS{Or(cs...)}
	}
	b := FreshB(id.Name, SInt)
	t := e.bind(o, VS{b}).body(l.Body.List, types.Typ[types.Bool]).(VS).T
	rng := And(Le(lo, b), Lt(b, hi))
	if all {
		return VS{Forall([]*Term{b}, Implies(rng, t))}
	}
	return VS{Exists([]*Term{b}, And(rng, t))}
}

func (e *Env) freeQ(n *ast.CallExpr, all bool) Value {
	l := e.lit(n.Args[0])
	ne := e
	var bs []*Term
	for _, f := range l.Type.Params.List {
		for _, id := range f.Names {
			o := e.sp.info.Defs[id]
			var ts []*Term
			for _, lf := range leaves(o.Type()) {
				b := FreshB(id.Name+lf.Path, lf.Sort)
				ts = append(ts, b)
				bs = append(bs, b)
			}
			ne = ne.bind(o, unflatten(o.Type(), ts))
		}
	}
	t := ne.body(l.Body.List, types.Typ[types.Bool]).(VS).T
	if all {
		return VS{Forall(bs, t)}
	}
	return VS{Exists(bs, t)}
}

func (e *Env) typeIs(n *ast.CallExpr) Value {
	ix, ok := n.Fun.(*ast.IndexExpr)
	if !ok {
		unsupp("typeIs needs a type argument")
	}
	T := e.sp.info.Types[ix.Index].Type
	v := e.eval(n.Args[0]).(VIface)
	return VS{Eq(v.Tag, typeID(T))}
}

func (e *Env) mapSame(n *ast.CallExpr) Value {
	// the map has the same entries as in the old state
	T := e.typ(n.Args[0])
	m := e.term(n.Args[0])
	mt := T.Underlying().(*types.Map)
	ks := mapKeySort(mt)
	cs := []*Term{Eq(Select(e.st.get(mapComp(T, ":dom"), ArrSort(SInt, ArrSort(ks, SBool))), m), Select(e.old.get(mapComp(T, ":dom"), ArrSort(SInt, ArrSort(ks, SBool))), m))}
	for _, l := range leaves(mt.Elem()) {
		k := mapComp(T, ":val"+l.Path)
		s := ArrSort(SInt, ArrSort(ks, l.Sort))
		cs = append(cs, Eq(Select(e.st.get(k, s), m), Select(e.old.get(k, s), m)))
	}
	return VS{And(cs...)}
}

func (e *Env) events() []*Event {
	for _, ev := range e.evs {
		if ev.Kind == "loop" {
			unsupp("spec: calls made in a loop can't be counted")
		}
	}
	return e.evs
}

func (e *Env) event(x ast.Expr) *Event {
	i := e.term(x)
	if i.Op != "int" {
		unsupp("spec: event index must be constant")
	}
	k := int(i.I.Int64())
	if k < 0 {
		// from the end, as far as the last loop
		k += len(e.evs)
		for i := max(k, 0); i < len(e.evs); i++ {
			if e.evs[i].Kind == "loop" {
				return nil
			}
		}
		if k < 0 {
			return nil
		}
		return e.evs[k]
	}
	evs := e.events()
	if k >= len(evs) {
		return nil
	}
	return evs[k]
}

func (e *Env) evName(n *ast.CallExpr) Value {
	ev := e.event(n.Args[0])
	if ev == nil {
		return VS{StrC("")}
	}
	return VS{StrC(ev.Name)}
}

func (e *Env) evIs(n *ast.CallExpr) Value {
	ev := e.event(n.Args[0])
	want := strings.Trim(e.sp.info.Types[n.Args[1]].Value.ExactString(), "\"")
	if ev == nil || ev.Name != want && ev.Name != "nanomux."+want {
		return VS{False}
	}
	var cs []*Term
	for i, a := range n.Args[2:] {
		if id, ok := a.(*ast.Ident); ok && id.Name == "whatever" {
			continue
		}
		if i >= len(ev.Args) {
			return VS{False}
		}
		v := e.evalAs(a, ev.ArgT[i])
		cs = append(cs, valuesEqual(ev.Args[i], v, ev.ArgT[i]))
	}
	return VS{And(cs...)}
}

func handlerFuncType(x *Exec) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "net/http" {
			return p.Pkg.Scope().Lookup("HandlerFunc").Type()
		}
	}
	unsupp("no net/http")
	return nil
}
