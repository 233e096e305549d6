package main

// Contracts: parsing, use at calls, verification of bodies.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Contract struct {
	fn         *ssa.Function
	name       string
	decl       *ast.FuncDecl
	obj        *types.Func
	Props      []string
	opaque     bool
	helper     bool // internal: dropped when the function is gone
	unseal     map[string]bool // sealed functions whose definition is used
	trusted    bool
	manual     bool // only the invariants given
	local      bool // not used at calls
	terminates bool
	reveal     map[string]bool // contracted callees to inline
	panics     []ast.Expr
	fuel       int
	event      bool // a call is recorded as an event
	recMeasure []ast.Expr
	ghosts     []string // arbitrary constants the contract is proved for
}

// clauses walks the statements of a contract.
type clauseFn func(env *Env, guard *Term, name string, call *ast.CallExpr)

func walkClauses(env *Env, list []ast.Stmt, guard *Term, f clauseFn) *Env {
	for _, s := range list {
		switch n := s.(type) {
		case *ast.AssignStmt:
			if n.Tok == token.DEFINE && len(n.Lhs) == len(n.Rhs) {
				ne := *env
				ne.lets = map[types.Object]ast.Expr{}
				for k, v := range env.lets {
					ne.lets[k] = v
				}
				for i, l := range n.Lhs {
					if o := env.sp.info.Defs[l.(*ast.Ident)]; o != nil {
						ne.lets[o] = n.Rhs[i]
					}
				}
				env = &ne
			} else if n.Tok != token.DEFINE {
				unsupp("contract: assignment")
			}
		case *ast.ExprStmt:
			if c, ok := n.X.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					f(env, guard, id.Name, c)
					continue
				}
			}
			unsupp("contract: statement")
		case *ast.IfStmt:
			c := env.boolean(n.Cond)
			walkClauses(env, n.Body.List, And(guard, c), f)
			if n.Else != nil {
				if b, ok := n.Else.(*ast.BlockStmt); ok {
					walkClauses(env, b.List, And(guard, Not(c)), f)
				}
			}
		case *ast.ReturnStmt:
		default:
			unsupp("contract: statement %T", s)
		}
	}
	return env
}

func labelOf(env *Env, c *ast.CallExpr) (string, []ast.Expr) {
	if len(c.Args) > 1 {
		if tv := env.sp.info.Types[c.Args[0]]; tv.Value != nil {
			s := tv.Value.ExactString()
			return strings.Trim(s, "\""), c.Args[1:]
		}
	}
	return types.ExprString(c.Args[0]), c.Args
}

// env0 is the environment with the parameters bound.
func (c *Contract) env0(x *Exec, st *State, args []Value) *Env {
	e := &Env{sp: x.spec, st: st, old: st, vars: map[types.Object]Value{}, lets: map[types.Object]ast.Expr{}, name: c.name}
	sig := c.obj.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		e.vars[sig.Params().At(i)] = args[i]
	}
	return e
}

func (c *Contract) bindResults(e *Env, res []Value) *Env {
	sig := c.obj.Type().(*types.Signature)
	n := e
	for i := 0; i < sig.Results().Len(); i++ {
		n = n.bind(sig.Results().At(i), res[i])
	}
	return n
}

type modLoc struct {
	comp  string
	srt   Sort // sort of the component
	ref   *Term
	key   *Term
	guard *Term
}

// modLocs evaluates the modifies clauses; whole components come as prefixes.
func (c *Contract) modLocs(e *Env) (locs []modLoc, whole []string, all bool) {
	walkClauses(e, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
		if name != "modifies" {
			return
		}
		for _, a := range call.Args {
			l, w, al := env.modLoc(a)
			for i := range l {
				l[i].guard = guard
			}
			locs = append(locs, l...)
			whole = append(whole, w...)
			all = all || al
		}
	})
	return
}

func (e *Env) placeMods(a *Addr) []modLoc {
	var out []modLoc
	for _, p := range placeLeaves(a) {
		switch a.Kind {
		case AGlobal:
			out = append(out, modLoc{comp: p.comp, srt: p.sort})
		case AElem:
			out = append(out, modLoc{comp: p.comp, srt: ArrSort(SInt, ArrSort(SInt, p.sort)), ref: a.Ref, key: a.Idx})
		default:
			out = append(out, modLoc{comp: p.comp, srt: ArrSort(SInt, p.sort), ref: a.Ref})
		}
	}
	return out
}

func (e *Env) modLoc(x ast.Expr) ([]modLoc, []string, bool) {
	if call, ok := x.(*ast.CallExpr); ok {
		_, name := e.callee(call)
		switch name {
		case "elems":
			v := e.eval(call.Args[0]).(VSlice)
			E := e.typ(call.Args[0]).Underlying().(*types.Slice).Elem()
			var out []modLoc
			for _, l := range leaves(E) {
				out = append(out, modLoc{comp: elemComp(E, nil, l.Path), srt: ArrSort(SInt, ArrSort(SInt, l.Sort)), ref: v.Ref})
			}
			return out, nil, false
		case "entries":
			m := e.eval(call.Args[0]).(VS).T
			T := e.typ(call.Args[0])
			mt := T.Underlying().(*types.Map)
			ks := mapKeySort(mt)
			out := []modLoc{{comp: mapComp(T, ":dom"), srt: ArrSort(SInt, ArrSort(ks, SBool)), ref: m}, {comp: mapComp(T, ":card"), srt: ArrSort(SInt, SInt), ref: m}}
			for _, l := range leaves(mt.Elem()) {
				out = append(out, modLoc{comp: mapComp(T, ":val"+l.Path), srt: ArrSort(SInt, ArrSort(ks, l.Sort)), ref: m})
			}
			return out, nil, false
		case "fieldsOf":
			p := e.eval(call.Args[0]).(VPtr)
			return e.placeMods(p.A), nil, false
		case "comps":
			var w []string
			for _, a := range call.Args {
				w = append(w, strings.Trim(e.sp.info.Types[a].Value.ExactString(), "\""))
			}
			return nil, w, false
		case "anything":
			return nil, nil, true
		}
	}
	a, ok := e.addr(x)
	if !ok {
		unsupp("modifies: %s", types.ExprString(x))
	}
	return e.placeMods(a), nil, false
}

func hasPrefixAny(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// havocMods forgets what a call may have changed.
func (x *Exec) havocMods(st *State, locs []modLoc, whole []string, all bool, tag string) {
	if all || len(whole) > 0 {
		n := Fresh("H", SInt).S
		match := func(k string) bool { return (all || hasPrefixAny(k, whole)) }
		st.hv = append(st.hv, havocRec{match, n})
		for k := range st.heap {
			if match(k) {
				delete(st.heap, k)
			}
		}
	}
	for _, l := range locs {
		if all || hasPrefixAny(l.comp, whole) {
			continue
		}
		t := st.get(l.comp, l.srt)
		if l.ref == nil {
			st.heap[l.comp] = Ite(l.guard, Fresh(tag+l.comp, l.srt), t)
			continue
		}
		_, ev := arrParts(l.srt)
		var nv *Term
		if l.key != nil {
			_, kv := arrParts(ev)
			row := Select(t, l.ref)
			nv = Store(row, l.key, Fresh(tag+l.comp, kv))
		} else {
			nv = Fresh(tag+l.comp, ev)
		}
		if l.guard != True {
			nv = Ite(l.guard, nv, Select(t, l.ref))
		}
		st.heap[l.comp] = Store(t, l.ref, nv)
	}
}

// checkMods checks that a callee's effects are permitted in the active contexts.
func (x *Exec) checkMods(st *State, locs []modLoc, whole []string, all bool, pos token.Pos, callee string) {
	for _, l := range locs {
		st := st
		if l.guard != nil && l.guard != True {
			st = st.clone()
			st.assume(l.guard)
			if st.dead {
				continue
			}
		}
		x.checkWrite(st, l.comp, l.ref, l.key, pos)
	}
	if len(whole) == 0 && !all {
		return
	}
	for _, c := range st.ctxs {
		if c.all {
			continue
		}
		if c.probe {
			for k := range st.heap {
				if (all || hasPrefixAny(k, whole)) && !c.whole[k] {
					c.whole[k] = true
					c.changed = true
				}
			}
			for k := range compSorts {
				if (all || hasPrefixAny(k, whole)) && !c.whole[k] {
					c.whole[k] = true
					c.changed = true
				}
			}
			continue
		}
		if c.fail != nil {
			continue // covered by the probe
		}
		ok := !all
		for _, w := range whole {
			if !c.wholePrefix(w) {
				ok = false
			}
		}
		if !ok {
			x.oblige(st, "frame", c.name+" may write what "+callee+" writes", pos, False)
		}
	}
}

func (c *WCtx) wholePrefix(w string) bool {
	for k := range c.whole {
		if strings.HasPrefix(k, "prefix:") && strings.HasPrefix(w, strings.TrimPrefix(k, "prefix:")) {
			return true
		}
	}
	return false
}

// useContract replaces a call by the callee's contract.
func (x *Exec) useContract(c *Contract, args []Value, st *State, pos token.Pos, k func(st *State, res []Value)) {
	x.used[c.name] = true
	if c.trusted {
		x.trusted["contract of "+c.name] = true
	}
	pre := c.env0(x, st, args)
	rec := c == x.cur || c.fn == x.curFn
	// preconditions
	walkClauses(pre, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
		if name == "requires" {
			l, es := labelOf(env, call)
			for _, e := range es {
				x.oblige(st, "precondition", c.name+": "+l, pos, Implies(guard, env.boolean(e)))
			}
		}
	})
	if st.dead {
		return
	}
	if rec && x.cur.terminates && x.cur.recMeasure != nil {
		var m0, m1 []*Term
		e0 := x.cur.env0(x, x.curFrame.entry, x.curFrame.args)
		for _, m := range x.cur.recMeasure {
			m0 = append(m0, e0.term(m))
			m1 = append(m1, pre.term(m))
		}
		x.oblige(st, "termination", "recursive call decreases the measure", pos, lexLess(m1, m0))
	}
	finish := func(st *State) {
		old := st.clone()
		locs, whole, all := c.modLocs(c.env0(x, old, args))
		x.checkMods(st, locs, whole, all, pos, c.name)
		st.havocWm()
		x.havocMods(st, locs, whole, all, "call:")
		sig := c.fn.Signature
		var ev *Event
		if c.event {
			var argT []types.Type
			for _, p := range c.fn.Params {
				argT = append(argT, p.Type())
			}
			ev = &Event{Kind: "contract", Name: c.name, Args: args, ArgT: argT, ResT: resultType(sig), St: old}
			st.events = append(st.events, ev)
		}
		var res []Value
		for i := 0; i < sig.Results().Len(); i++ {
			T := sig.Results().At(i).Type()
			v := freshValue(c.fn.Name()+"."+sig.Results().At(i).Name(), T)
			st.facts(v, T, st.wm)
			res = append(res, v)
		}
		if ev != nil {
			ev.Res = packResults(sig, res)
		}
		post := c.bindResults(c.env0(x, st, args), res)
		post.old = old
		walkClauses(post, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
			switch name {
			case "deterministic":
				_, es := labelOf(env, call)
				for _, e := range es {
					st.assume(Implies(guard, env.boolean(e)))
				}
				x.trusted["what "+c.name+" returns depends only on the arguments named in its contract"] = true
			case "ensures":
				l, es := labelOf(env, call)
				for _, e := range es {
					t := Implies(guard, env.boolean(e))
					st.assumeAs(t, l)
					if !rec {
						if u := c.generalise(t); u != t {
							st.assumeAs(u, l)
						}
					}
				}
			}
		})
		if st.dead {
			return
		}
		k(st, res)
	}
	if len(c.panics) > 0 {
		var ps []*Term
		for _, p := range c.panics {
			ps = append(ps, pre.boolean(p))
		}
		x.fork(st, Or(ps...), func(st *State) {
			x.doPanic(st, "panic of "+c.name, pos)
		}, finish)
		return
	}
	finish(st)
}

// generalise turns what was proved about the contract's arbitrary constants
// into a statement about all values.
func (c *Contract) generalise(t *Term) *Term {
	if len(c.ghosts) == 0 {
		return t
	}
	m := map[*Term]*Term{}
	var bs []*Term
	seen := map[int]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "app" && len(t.Args) == 0 {
			for _, g := range c.ghosts {
				if t.S == "spec:"+g || strings.HasPrefix(t.S, "spec:"+g+"@") {
					b := FreshB(g, t.Sort)
					m[t] = b
					bs = append(bs, b)
				}
			}
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	scan(t)
	if len(bs) == 0 {
		return t
	}
	u := Subst(t, m)
	if u.Op == "forall" && len(u.Pats) == 0 {
		return Forall(append(bs, u.Bnd...), u.Args[0])
	}
	return Forall(bs, u)
}

// panicExit checks a panic against the panics clauses of the function under
// verification.
func (x *Exec) panicExit(st *State, what string, pos token.Pos) {
	e := x.cur.env0(x, x.curFrame.entry, x.curFrame.args)
	e.st = x.curFrame.entry
	var ps []*Term
	for _, p := range x.cur.panics {
		ps = append(ps, e.boolean(p))
	}
	x.oblige(st, "panics", what+" only when declared", pos, Or(ps...))
}

func (x *Exec) contractsFor(fr *Frame) []*Contract {
	var out []*Contract
	if x.cur != nil {
		out = append(out, x.cur)
	}
	if c := x.contracts[fr.fn]; c != nil && c != x.cur {
		out = append(out, c)
	}
	return out
}

// userInvariants offers the contract's invariants for a loop.
func (x *Exec) userInvariants(c *Contract, fr *Frame, lp *Loop, entry *State, add func(name string, user bool, f func(fr *Frame, st *State) *Term)) {
	base := x.invEnv(c, fr)
	if base == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupp); !ok {
				panic(r)
			}
		}
	}()
	walkClauses(base, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
		if name != "invariant" {
			return
		}
		l, es := labelOf(env, call)
		for _, ex := range es {
			lit, ok := ex.(*ast.FuncLit)
			if !ok {
				unsupp("invariant: not a function literal")
			}
			ev, ok := bindLocals(env, lit, fr, lp, entry)
			if !ok {
				continue
			}
			if len(es) == 1 && len(call.Args) == 1 {
				l = types.ExprString(lit.Body.List[len(lit.Body.List)-1].(*ast.ReturnStmt).Results[0])
			}
			add(l, true, func(fr *Frame, st *State) *Term {
				e := ev(fr, st)
				return e.body(lit.Body.List, types.Typ[types.Bool]).(VS).T
			})
		}
	})
}

func (x *Exec) invEnv(c *Contract, fr *Frame) *Env {
	var args []Value
	var ent *State
	if c.fn == fr.fn && len(fr.args) > 0 {
		args = fr.args
		ent = fr.entry
	} else if c == x.cur && x.curFrame != nil {
		args = x.curFrame.args
		ent = x.curFrame.entry
	} else if c.fn == fr.fn {
		args, ent = fr.args, fr.entry
	} else {
		return nil
	}
	e := c.env0(x, ent, args)
	return e
}

// bindLocals maps the literal's parameters to the function's variables.
func bindLocals(env *Env, lit *ast.FuncLit, fr *Frame, lp *Loop, entry *State) (func(fr *Frame, st *State) *Env, bool) {
	type b struct {
		o   types.Object
		a   *ssa.Alloc
		pos *Cell
	}
	var bs []b
	for _, f := range lit.Type.Params.List {
		for _, nm := range f.Names {
			o := env.sp.info.Defs[nm]
			if nm.Name == "rangepos" || nm.Name == "rangevisited" {
				var cell *Cell
				for _, bl := range lp.fn.Blocks {
					for _, ins := range bl.Instrs {
						if n, ok := ins.(*ssa.Next); ok && bl == lp.hdr {
							if v, ok := fr.env[n.Iter].(VTuple); ok {
								cell = v[0].(VIter).cell
							}
						}
					}
				}
				if cell == nil {
					return nil, false
				}
				bs = append(bs, b{o, nil, cell})
				continue
			}
			a := findVar(fr, lp, nm.Name, o.Type())
			if a == nil {
				return nil, false
			}
			bs = append(bs, b{o, a, nil})
		}
	}
	return func(fr *Frame, st *State) *Env {
		e := *env
		e.old = env.st
		e.st = st
		e.ent = entry
		e.fr = fr
		e.vars = make(map[types.Object]Value, len(env.vars)+len(bs))
		for k, v := range env.vars {
			e.vars[k] = v
		}
		for _, b := range bs {
			if b.pos != nil {
				e.vars[b.o] = st.cells[b.pos]
				continue
			}
			e.vars[b.o] = st.load(fr.env[b.a].(VPtr).A)
		}
		return &e
	}, true
}

func (x *Exec) userMeasures(c *Contract, fr *Frame, lp *Loop, entry *State, add func(n string, f func(fr *Frame, st *State) []*Term)) {
	base := x.invEnv(c, fr)
	if base == nil {
		return
	}
	walkClauses(base, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
		if name != "decreases" {
			return
		}
		lit, ok := call.Args[0].(*ast.FuncLit)
		if !ok {
			return
		}
		ev, ok := bindLocals(env, lit, fr, lp, entry)
		if !ok {
			return
		}
		ret := lit.Body.List[len(lit.Body.List)-1].(*ast.ReturnStmt)
		add("given", func(fr *Frame, st *State) []*Term {
			e := ev(fr, st)
			var out []*Term
			for _, r := range ret.Results {
				out = append(out, e.term(r))
			}
			return out
		})
	})
}

// verify checks the body of a function against its contract.
func (x *Exec) verify(c *Contract) (err error) {
	x.cur, x.curFn = c, c.fn
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupp); ok {
				err = fmt.Errorf("%s", u.Msg)
				x.stack = nil
				x.silent = 0
				return
			}
			panic(r)
		}
	}()
	defaultFuel = 3
	if c.fuel > 0 {
		defaultFuel = c.fuel
	}
	st := newState()
	var args []Value
	var cover bool
	for _, p := range c.fn.Params {
		v := freshValue(p.Name(), p.Type())
		st.facts(v, p.Type(), st.wm)
		args = append(args, v)
	}
	pre := c.env0(x, st, args)
	walkClauses(pre, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
		switch name {
		case "requires":
			l, es := labelOf(env, call)
			for _, e := range es {
				st.assumeAs(Implies(guard, env.boolean(e)), l)
			}
		case "decreases":
			if _, ok := call.Args[0].(*ast.FuncLit); !ok {
				c.recMeasure = call.Args
			}
			c.terminates = true
		case "terminates":
			c.terminates = true
		}
	})
	c.panics = nil
	walkClauses(pre, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
		if name == "panics" {
			c.panics = append(c.panics, call.Args[0])
		}
	})
	locs, whole, all := c.modLocs(c.env0(x, st, args))
	ctx := &WCtx{name: c.name, wm: st.wm, locs: map[string][]Loc{}, whole: map[string]bool{}, all: all, fromFn: true}
	for _, l := range locs {
		if l.guard == True || true {
			ctx.locs[l.comp] = append(ctx.locs[l.comp], Loc{Ref: l.ref, Key: l.key})
		}
	}
	for _, w := range whole {
		ctx.whole["prefix:"+w] = true
		for k := range compSorts {
			if strings.HasPrefix(k, w) {
				ctx.whole[k] = true
			}
		}
	}
	if len(whole) > 0 {
		ctx.prefixes = whole
	}
	st.ctxs = []*WCtx{ctx}
	entry := st.clone()
	x.curFrame = &Frame{fn: c.fn, entry: entry, args: args}
	x.stack = nil
	x.callFunction(c.fn, args, nil, st, 0, func(st *State, res []Value) {
		if st.dead {
			return
		}
		if !cover && x.feasible(st) {
			cover = true
		}
		post := c.bindResults(c.env0(x, st, args), res)
		post.old = entry
		post.evs = st.events
		if len(c.panics) > 0 {
			pe := c.env0(x, entry, args)
			for _, p := range c.panics {
				x.oblige(st, "panics", "returns only when no panic is declared", token.NoPos, Not(pe.boolean(p)))
			}
		}
		walkClauses(post, c.decl.Body.List, True, func(env *Env, guard *Term, name string, call *ast.CallExpr) {
			switch name {
			case "ensures":
				l, es := labelOf(env, call)
				for _, e := range es {
					if x.silent == 0 {
						x.record(st, "postcondition", l, lastPos(st), Implies(guard, env.boolean(e)))
					}
				}
			case "hint":
				for _, a := range call.Args {
					st.assume(Implies(guard, env.boolean(a)))
				}
			case "check":
				l, es := labelOf(env, call)
				for _, e := range es {
					t := Implies(guard, env.boolean(e))
					x.record(st, "lemma", l, lastPos(st), t)
					st.assume(t)
				}
			}
		})
	})
	if !cover && len(c.panics) == 0 {
		o := &Obl{Fn: x.curName(), Kind: "cover", Label: "the function can return under its precondition", Goal: False, done: make(chan struct{}), Out: Outcome{R: Unknown, Detail: "no feasible return"}, Props: c.Props}
		close(o.done)
		x.obs = append(x.obs, o)
	}
	return nil
}

func lastPos(st *State) string {
	if n := len(st.trace); n > 0 {
		return st.trace[n-1]
	}
	return ""
}
