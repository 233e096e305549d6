package main

// Symbolic execution of SSA by path forking; loops are cut at their headers.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

type deferred struct {
	fn   Value
	call *ssa.CallCommon
	args []Value
}

type Exec struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	contracts map[*ssa.Function]*Contract
	spec      *SpecPkg
	obs       []*Obl
	silent    int
	inc       *Inc
	cur       *Contract
	curFn     *ssa.Function
	curFrame  *Frame
	stack     []*ssa.Function
	steps     int
	paths     int
	trusted   map[string]bool // library models and externals used
	used      map[string]bool // callee contracts used
	inlined   map[string]bool
	dropped   []string
	deadline  func() bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	active []*LoopCtx
	k      func(st *State, res []Value)
	depth  int
	entry  *State
	args   []Value
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.active = f.active[:len(f.active):len(f.active)]
	return &n
}

type LoopCtx struct {
	lp      *Loop
	collect bool
	onBack  func(fr *Frame, st *State)
}

// Obl is a proof obligation.
type Obl struct {
	Fn     string
	Kind   string
	Label  string
	Pos    string
	Goal   *Term
	Query  string
	Out    Outcome
	done   chan struct{}
	Trace  []string
	Assume []*Term
	Props  []string
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// oblige records that the goal must follow from the path condition, and goes
// on assuming it.
func (x *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	if st.dead {
		return
	}
	if x.silent == 0 {
		x.record(st, kind, label, x.pos(pos), goal)
	}
	st.assume(goal)
}

func (x *Exec) record(st *State, kind, label, pos string, goal *Term) {
	var parts []*Term
	splitGoal(goal, &parts)
	if len(parts) == 0 {
		parts = []*Term{True}
	}
	for _, g := range parts {
		o := &Obl{Fn: x.curName(), Kind: kind, Label: label, Pos: pos, Goal: g, done: make(chan struct{}), Trace: st.trace}
		if x.cur != nil {
			o.Props = x.cur.Props
		}
		x.obs = append(x.obs, o)
		if st.quickTruth(g) == 1 {
			o.Out = Outcome{R: Proved, By: "simplifier"}
			close(o.done)
			continue
		}
		if dup, ok := x.oblMemo(st, g); ok {
			_ = dup
		}
		o.Assume = st.pc
		o.Query = render(st.pc, g)
		q2 := ""
		if pc2, ok := sliced(st.pc, label); ok {
			q2 = render(pc2, g)
		}
		light := renderLight(st.pc, g)
		o.Label = labelName(o.Label)
		go func() {
			o.Out = staged(o.Query, q2, light, 1)
			close(o.done)
		}()
	}
}

func (x *Exec) oblMemo(st *State, g *Term) (*Obl, bool) { return nil, false }

// splitGoal splits conjunctions, also below implications.
func splitGoal(g *Term, out *[]*Term) {
	switch {
	case g == True:
	case g.Op == "and":
		for _, a := range g.Args {
			splitGoal(a, out)
		}
	case g.Op == "=>" && g.Args[1].Op == "and":
		for _, a := range g.Args[1].Args {
			splitGoal(Implies(g.Args[0], a), out)
		}
	default:
		*out = append(*out, g)
	}
}

func (x *Exec) curName() string {
	if x.curFn == nil {
		return "?"
	}
	return fnName(x.curFn)
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, pkgPath+".", "")
	return s
}

// feasible: false only when the path condition is certainly contradictory.
func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	r := x.inc.check(feasTerms(st.pc))
	return r != "unsat"
}

func feasTerms(pc []*Term) []*Term {
	var out []*Term
	for _, t := range pc {
		if t.qf {
			out = append(out, t)
		}
	}
	out = append(out, axiomsFor(out)...)
	var o2 []*Term
	for _, t := range out {
		if t.qf {
			o2 = append(o2, t)
		}
	}
	return o2
}

// fork runs both branches of a condition, the feasible ones only.
func (x *Exec) fork(st *State, c *Term, yes, no func(st *State)) {
	switch st.quickTruth(c) {
	case 1:
		yes(st)
		return
	case -1:
		no(st)
		return
	}
	a := st.clone()
	a.assume(c)
	okA := x.feasible(a)
	b := st
	b.assume(Not(c))
	okB := !b.dead
	if okA && okB {
		okB = x.feasible(b)
	}
	if okA {
		yes(a)
	}
	if okB {
		no(b)
	}
}

var traceExec = os.Getenv("GV_TRACE") != ""

const maxSteps = 3000000

func (x *Exec) step(fr *Frame) {
	x.steps++
	if x.steps > maxSteps {
		unsupp("%s: too many steps", fnName(fr.fn))
	}
	if x.steps%64 == 0 && x.deadline != nil && x.deadline() {
		unsupp("%s: out of time", fnName(fr.fn))
	}
}

// callFunction executes the body of fn.
func (x *Exec) callFunction(fn *ssa.Function, args []Value, free []Value, st *State, depth int, k func(st *State, res []Value)) {
	if fn.Blocks == nil {
		unsupp("no body: %s", fn)
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 0 {
		unsupp("recursion without a contract: %s", fnName(fn))
	}
	if depth > 40 {
		unsupp("inlining too deep at %s", fnName(fn))
	}
	x.stack = append(x.stack, fn)
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, depth: depth, args: args, entry: st.clone()}
	saved := st.defers
	st.defers = nil
	fr.k = func(st *State, res []Value) {
		// leave the callee while the continuation runs
		top := x.stack
		x.stack = x.stack[:len(x.stack)-1]
		st.defers = saved
		k(st, res)
		x.stack = top
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = free[i]
	}
	top := len(x.stack)
	x.run(fr, fn.Blocks[0], 0, st)
	x.stack = x.stack[:top-1]
}

func (x *Exec) val(fr *Frame, v ssa.Value, st *State) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constValue(c)
	case *ssa.Function:
		return VS{fnConst(c)}
	case *ssa.Global:
		return VPtr{globalAddr(c)}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.env[v]
	if !ok {
		unsupp("%s: value %s not computed", fnName(fr.fn), v.Name())
	}
	return r
}

func globalAddr(c *ssa.Global) *Addr {
	return &Addr{Kind: AGlobal, G: c.Pkg.Pkg.Name() + "." + c.Name(), Base: derefType(c.Type())}
}

var fnConsts = map[*ssa.Function]*Term{}
var fnByConst = map[*Term]*ssa.Function{}

func fnConst(f *ssa.Function) *Term {
	if t, ok := fnConsts[f]; ok {
		return t
	}
	t := Int(-1000 - int64(len(fnConsts)))
	fnConsts[f] = t
	fnByConst[t] = f
	return t
}

var litRank func(s string) *Term

func strConst(s string) *Term {
	if opaqueMode {
		return litRank(s)
	}
	return StrC(s)
}

func constValue(c *ssa.Const) Value {
	return constOf(c.Value, c.Type())
}

func constOf(v constant.Value, T types.Type) Value {
	if v == nil {
		return zeroValue(T)
	}
	if isBV8(T) {
		n, _ := constant.Uint64Val(constant.ToInt(v))
		return VS{BV8(uint8(n))}
	}
	switch v.Kind() {
	case constant.Bool:
		return VS{BoolT(constant.BoolVal(v))}
	case constant.String:
		return VS{strConst(constant.StringVal(v))}
	case constant.Int:
		if i, ok := new(big.Int).SetString(v.ExactString(), 10); ok {
			return VS{IntB(i)}
		}
	}
	unsupp("constant %s", v)
	return nil
}

func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.step(fr)
		switch ins := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			x.doAlloc(fr, ins, st)
		case *ssa.Store:
			x.doStore(fr, ins, st)
		case *ssa.UnOp:
			fr.env[ins] = x.unop(fr, ins, st)
		case *ssa.BinOp:
			fr.env[ins] = x.binop(ins.Op, x.val(fr, ins.X, st), x.val(fr, ins.Y, st), ins.X.Type(), ins.Type(), st, ins.Pos())
		case *ssa.FieldAddr:
			p := x.val(fr, ins.X, st).(VPtr)
			x.nonNil(st, p, ins.Pos())
			fr.env[ins] = VPtr{fieldAddr(p.A, ins.Field)}
		case *ssa.Field:
			fr.env[ins] = x.val(fr, ins.X, st).(VStruct).F[ins.Field]
		case *ssa.IndexAddr:
			fr.env[ins] = x.indexAddr(fr, ins, st)
		case *ssa.Index:
			fr.env[ins] = x.indexStr(st, x.val(fr, ins.X, st), x.val(fr, ins.Index, st), ins.X.Type(), ins.Pos())
		case *ssa.Lookup:
			fr.env[ins] = x.lookup(fr, ins, st)
		case *ssa.MapUpdate:
			x.mapUpdate(fr, ins, st)
		case *ssa.MakeMap:
			fr.env[ins] = VS{x.newMap(st, ins.Type())}
		case *ssa.MakeSlice:
			fr.env[ins] = x.makeSlice(st, ins.Type(), x.val(fr, ins.Len, st).(VS).T, x.val(fr, ins.Cap, st).(VS).T, ins.Pos())
		case *ssa.MakeClosure:
			var bs []Value
			for _, bd := range ins.Bindings {
				bs = append(bs, x.val(fr, bd, st))
			}
			fr.env[ins] = VS{closureTerm(ins.Fn.(*ssa.Function), bs)}
		case *ssa.MakeInterface:
			v := x.val(fr, ins.X, st)
			fr.env[ins] = VIface{typeID(ins.X.Type()), boxVal(v, ins.X.Type())}
		case *ssa.ChangeInterface:
			fr.env[ins] = x.val(fr, ins.X, st)
		case *ssa.ChangeType:
			v := x.val(fr, ins.X, st)
			if !isBV8(ins.Type()) == isBV8(ins.X.Type()) {
				unsupp("change of type %s to %s", ins.X.Type(), ins.Type())
			}
			fr.env[ins] = v
		case *ssa.Convert:
			fr.env[ins] = x.convert(st, x.val(fr, ins.X, st), ins.X.Type(), ins.Type())
		case *ssa.TypeAssert:
			x.typeAssert(fr, ins, b, i, st)
			return
		case *ssa.Extract:
			fr.env[ins] = x.val(fr, ins.Tuple, st).(VTuple)[ins.Index]
		case *ssa.Slice:
			fr.env[ins] = x.slice(fr, ins, st)
		case *ssa.Phi:
			unsupp("unexpected phi")
		case *ssa.Range:
			fr.env[ins] = x.rangeInit(fr, ins, st)
		case *ssa.Next:
			fr.env[ins] = x.next(fr, ins, st)
		case *ssa.Call:
			if v, ok := x.callSync(fr, ins.Common(), ins, st); ok {
				fr.env[ins] = v
				continue
			}
			bi := i
			x.call(fr, ins.Common(), ins, st, func(st *State, res Value) {
				f2 := fr.clone()
				f2.env[ins] = res
				x.run(f2, b, bi+1, st)
			})
			return
		case *ssa.Defer:
			d := deferred{call: ins.Common()}
			if ins.Call.IsInvoke() {
				unsupp("deferred method call")
			}
			d.fn = x.val(fr, ins.Call.Value, st)
			for _, a := range ins.Call.Args {
				d.args = append(d.args, x.val(fr, a, st))
			}
			if d.fn == nil {
				unsupp("deferred builtin")
			}
			st.defers = append(st.defers, d)
		case *ssa.RunDefers:
			if len(st.defers) == 0 {
				continue
			}
			bi := i
			x.runDefers(fr, st, func(st *State) {
				x.run(fr.clone(), b, bi+1, st)
			})
			return
		case *ssa.If:
			c := x.val(fr, ins.Cond, st).(VS).T
			pos := x.pos(ins.Cond.Pos())
			x.fork(st, c, func(s *State) {
				if pos != "" && c != True {
					s.note("%s: then", pos)
				}
				x.enter(fr.clone(), b, b.Succs[0], s)
			}, func(s *State) {
				if pos != "" && c != False {
					s.note("%s: else", pos)
				}
				x.enter(fr.clone(), b, b.Succs[1], s)
			})
			return
		case *ssa.Jump:
			x.enter(fr, b, b.Succs[0], st)
			return
		case *ssa.Return:
			for _, l := range fr.active {
				if l.collect {
					return
				}
			}
			var res []Value
			for _, r := range ins.Results {
				res = append(res, x.val(fr, r, st))
			}
			x.paths++
			st.note("%s: return", x.pos(ins.Pos()))
			fr.k(st, res)
			return
		case *ssa.Panic:
			x.doPanic(st, "explicit panic", ins.Pos())
			return
		default:
			unsupp("%s: instruction %T", fnName(fr.fn), ins)
		}
	}
}

// enter goes from a block to its successor.
func (x *Exec) enter(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	for len(fr.active) > 0 {
		top := fr.active[len(fr.active)-1]
		if top.lp.body[to] {
			break
		}
		if top.collect {
			return
		}
		fr.active = fr.active[:len(fr.active)-1]
		st.ctxs = popLoopCtx(st.ctxs, top.lp)
	}
	lp := loopAt(to)
	if lp != nil {
		if len(fr.active) > 0 && fr.active[len(fr.active)-1].lp == lp {
			fr.active[len(fr.active)-1].onBack(fr, st)
			return
		}
		x.loop(fr, lp, from, st)
		return
	}
	x.enterBlock(fr, from, to, st)
}

func (x *Exec) enterBlock(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	i := 0
	var vals []Value
	for ; i < len(to.Instrs); i++ {
		p, ok := to.Instrs[i].(*ssa.Phi)
		if !ok {
			if _, ok := to.Instrs[i].(*ssa.DebugRef); ok && i+1 < len(to.Instrs) {
				if _, ok := to.Instrs[i+1].(*ssa.Phi); ok {
					vals = append(vals, nil)
					continue
				}
			}
			break
		}
		for j, pr := range to.Preds {
			if pr == from {
				vals = append(vals, x.val(fr, p.Edges[j], st))
				break
			}
		}
	}
	for j := 0; j < i; j++ {
		if p, ok := to.Instrs[j].(*ssa.Phi); ok {
			fr.env[p] = vals[j]
		}
	}
	x.run(fr, to, i, st)
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(st *State)) {
	if len(st.defers) == 0 {
		k(st)
		return
	}
	d := st.defers[len(st.defers)-1]
	st.defers = st.defers[:len(st.defers)-1]
	rest := st.defers
	x.callValue(fr, d.fn.(VS).T, d.call.Signature(), d.call.Value.Type(), d.args, st, d.call.Pos(), func(st *State, _ Value) {
		st.defers = rest
		x.runDefers(fr, st, k)
	})
}

func (x *Exec) doPanic(st *State, what string, pos token.Pos) {
	if x.cur != nil && len(x.cur.panics) > 0 && len(x.stack) > 0 {
		x.panicExit(st, what, pos)
		return
	}
	x.oblige(st, "safety", what+" is unreachable", pos, False)
}

func (x *Exec) nonNil(st *State, p VPtr, pos token.Pos) {
	a := p.A
	if len(a.Path) > 0 {
		return
	}
	switch a.Kind {
	case AObj, ACell, AArr:
		if b, o := splitOff(a.Ref); isWmBase(b) && o.Sign() > 0 {
			return
		}
		x.oblige(st, "safety", "no nil dereference", pos, Ne(a.Ref, Int(0)))
	}
}

func (x *Exec) doAlloc(fr *Frame, ins *ssa.Alloc, st *State) {
	T := derefType(ins.Type())
	if strings.Contains(T.String(), "deferStack") {
		c := newCell("defer$stack", T)
		st.cells[c] = VS{Int(0)}
		fr.env[ins] = VPtr{&Addr{Kind: ALocal, Cell: c, Base: T}}
		return
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		ref := st.alloc()
		a := &Addr{Kind: AArr, Ref: ref, Base: T}
		x.zeroRow(st, at.Elem(), ref)
		fr.env[ins] = VPtr{a}
		return
	}
	if !ins.Heap {
		c := newCell(ins.Comment, T)
		st.cells[c] = zeroValue(T)
		fr.env[ins] = VPtr{&Addr{Kind: ALocal, Cell: c, Base: T}}
		return
	}
	fr.env[ins] = VPtr{x.newObject(st, T)}
}

// newObject allocates a zeroed heap object of type T.
func (x *Exec) newObject(st *State, T types.Type) *Addr {
	ref := st.alloc()
	a := ptrFromTerm(ref, T).A
	st.rawStore(a, zeroValue(T))
	if sharesEmbedded(T) {
		st.assume(Eq(tyTerm(ref), typeID(T)))
	}
	return a
}

func (x *Exec) zeroRow(st *State, E types.Type, ref *Term) {
	for _, l := range leaves(E) {
		k := elemComp(E, nil, l.Path)
		e := st.get(k, ArrSort(SInt, ArrSort(SInt, l.Sort)))
		st.set(k, Store(e, ref, ConstArr(SInt, zeroTerm(l.Sort))))
	}
}

func (x *Exec) doStore(fr *Frame, ins *ssa.Store, st *State) {
	p := x.val(fr, ins.Addr, st).(VPtr)
	if p.A.Kind != ALocal {
		x.nonNil(st, p, ins.Pos())
	}
	x.write(st, p.A, x.val(fr, ins.Val, st), ins.Pos())
}

// write stores with permission checks.
func (x *Exec) write(st *State, a *Addr, v Value, pos token.Pos) {
	if a.Kind != ALocal {
		for _, p := range placeLeaves(a) {
			x.checkWrite(st, p.comp, a.Ref, a.Idx, pos)
		}
	}
	st.rawStore(a, v)
}

func (x *Exec) checkWrite(st *State, comp string, ref, key *Term, pos token.Pos) {
	for _, c := range st.ctxs {
		if c.all || c.whole[comp] || hasPrefixAny(comp, c.prefixes) {
			continue
		}
		if ref != nil && freshAbove(ref, c.wm) {
			continue
		}
		if c.probe {
			c.probeWrite(comp, ref)
			continue
		}
		var alts []*Term
		ok := false
		for _, l := range c.locs[comp] {
			if l.Ref == nil || ref == nil {
				ok = true
				break
			}
			t := Eq(l.Ref, ref)
			if l.Key != nil && key != nil {
				t = And(t, Eq(l.Key, key))
			}
			if st.quickTruth(t) == 1 {
				ok = true
				break
			}
			alts = append(alts, t)
		}
		if ok {
			continue
		}
		if ref != nil {
			alts = append(alts, Gt(ref, c.wm))
			if strings.HasPrefix(comp, "E:") {
				alts = append(alts, Eq(ref, Int(0))) // a nil slice has no elements
			}
		}
		goal := Or(alts...)
		if c.fail != nil {
			if !x.valid(st, goal) {
				c.fail(comp)
			} else {
				st.assume(goal)
			}
			continue
		}
		x.oblige(st, "frame", c.name+" may write "+comp, pos, goal)
	}
}

// freshAbove: the reference was certainly allocated above the watermark.
func freshAbove(ref, wm *Term) bool {
	b, o := splitOff(ref)
	if !isWmBase(b) || o.Sign() <= 0 {
		return false
	}
	return wmLE(wm, Sub(ref, Int(1)))
}

// valid asks the solvers, quickly, whether the goal follows.
func (x *Exec) valid(st *State, goal *Term) bool {
	switch st.quickTruth(goal) {
	case 1:
		return true
	}
	for _, l := range strings.Split(renderLight(st.pc, goal), "\x00") {
		if l != "" && proveMs(l, 0, 1000).R == Proved {
			return true
		}
	}
	return prove(render(st.pc, goal), 0).R == Proved
}

func (x *Exec) loadAt(st *State, a *Addr) Value {
	v := st.load(a)
	if a.Kind != ALocal {
		st.facts(v, addrType(a), st.placeStamp(a))
	}
	return v
}

func (x *Exec) unop(fr *Frame, ins *ssa.UnOp, st *State) Value {
	v := x.val(fr, ins.X, st)
	switch ins.Op {
	case token.MUL:
		p := v.(VPtr)
		if p.A.Kind != ALocal {
			x.nonNil(st, p, ins.Pos())
		}
		return x.loadAt(st, p.A)
	case token.NOT:
		return VS{Not(v.(VS).T)}
	case token.SUB:
		return VS{Sub(Int(0), v.(VS).T)}
	case token.XOR:
		if v.(VS).T.Sort == SBV8 {
			return VS{BVNot(v.(VS).T)}
		}
	}
	unsupp("unary %s", ins.Op)
	return nil
}

func (x *Exec) binop(op token.Token, a, b Value, T, RT types.Type, st *State, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return VS{valuesEqual(a, b, T)}
	case token.NEQ:
		return VS{Not(valuesEqual(a, b, T))}
	}
	s, ok1 := a.(VS)
	t, ok2 := b.(VS)
	if !ok1 || !ok2 {
		unsupp("binary %s on %s", op, T)
	}
	p, q := s.T, t.T
	if p.Sort == SBV8 {
		switch op {
		case token.AND:
			return VS{BVOp("bvand", p, q)}
		case token.OR:
			return VS{BVOp("bvor", p, q)}
		case token.XOR:
			return VS{BVOp("bvxor", p, q)}
		case token.AND_NOT:
			return VS{BVOp("bvand", p, BVNot(q))}
		case token.ADD:
			return VS{BVOp("bvadd", p, q)}
		case token.SUB:
			return VS{BVOp("bvsub", p, q)}
		case token.LSS:
			return VS{BVUlt(p, q)}
		case token.GTR:
			return VS{BVUlt(q, p)}
		case token.LEQ:
			return VS{Not(BVUlt(q, p))}
		case token.GEQ:
			return VS{Not(BVUlt(p, q))}
		}
		unsupp("binary %s on flags", op)
	}
	if p.Sort == SStr {
		switch op {
		case token.ADD:
			return VS{StrCat(p, q)}
		case token.LSS:
			return VS{strLt(p, q)}
		case token.GTR:
			return VS{strLt(q, p)}
		case token.LEQ:
			return VS{Not(strLt(q, p))}
		case token.GEQ:
			return VS{Not(strLt(p, q))}
		}
	}
	if p.Sort == SBool {
		switch op {
		case token.AND:
			return VS{And(p, q)}
		case token.OR:
			return VS{Or(p, q)}
		}
	}
	switch op {
	case token.LSS:
		return VS{Lt(p, q)}
	case token.GTR:
		return VS{Lt(q, p)}
	case token.LEQ:
		return VS{Not(Lt(q, p))}
	case token.GEQ:
		return VS{Not(Lt(p, q))}
	}
	if p.Sort == SInt {
		switch op {
		case token.ADD:
			return VS{Add(p, q)}
		case token.SUB:
			return VS{Sub(p, q)}
		case token.MUL:
			return VS{Mul(p, q)}
		case token.QUO, token.REM:
			if st != nil {
				x.oblige(st, "safety", "no division by zero", pos, Ne(q, Int(0)))
			}
			if q.Op != "int" || q.I.Sign() <= 0 {
				unsupp("division by a variable")
			}
			if op == token.QUO {
				return VS{Ite(Ge(p, Int(0)), Div(p, q), Sub(Int(0), Div(Sub(Int(0), p), q)))}
			}
			return VS{Ite(Ge(p, Int(0)), Mod(p, q), Sub(Int(0), Mod(Sub(Int(0), p), q)))}
		case token.SHR:
			if q.Op == "int" && q.I.IsInt64() && q.I.Int64() < 62 {
				return VS{Div(p, IntB(pow2(int(q.I.Int64()))))}
			}
		case token.SHL:
			if q.Op == "int" && q.I.IsInt64() && q.I.Int64() < 62 {
				return VS{Mul(p, IntB(pow2(int(q.I.Int64()))))}
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return VS{App("int"+op.String(), SInt, p, q)}
		}
	}
	unsupp("binary %s on %s", op, T)
	return nil
}

func strLt(a, b *Term) *Term {
	if a == b {
		return False
	}
	return mk("str.<", SBool, "", nil, nil, nil, a, b)
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.oblige(st, "safety", "index in range", pos, And(Le(Int(0), i), Lt(i, n)))
}

func (x *Exec) indexAddr(fr *Frame, ins *ssa.IndexAddr, st *State) Value {
	i := x.val(fr, ins.Index, st).(VS).T
	switch v := x.val(fr, ins.X, st).(type) {
	case VSlice:
		x.bounds(st, i, v.Len, ins.Pos())
		E := ins.X.Type().Underlying().(*types.Slice).Elem()
		return VPtr{&Addr{Kind: AElem, Ref: v.Ref, Idx: Add(v.Off, i), Base: E}}
	case VPtr:
		at := derefType(ins.X.Type()).Underlying().(*types.Array)
		if v.A.Kind != AArr {
			unsupp("address in an array inside a structure")
		}
		x.nonNil(st, v, ins.Pos())
		x.bounds(st, i, Int(at.Len()), ins.Pos())
		return VPtr{&Addr{Kind: AElem, Ref: v.A.Ref, Idx: i, Base: at.Elem()}}
	}
	unsupp("index address")
	return nil
}

// byteAt is s[i] as an integer.
func byteAt(s, i *Term) *Term { return StrCode(StrAt(s, i)) }

func (x *Exec) indexStr(st *State, sv, iv Value, T types.Type, pos token.Pos) Value {
	s, ok := sv.(VS)
	if !ok || s.T.Sort != SStr {
		unsupp("index of %s", T)
	}
	i := iv.(VS).T
	x.bounds(st, i, StrLen(s.T), pos)
	c := byteAt(s.T, i)
	if !isConst(c) {
		st.assume(And(Le(Int(0), c), Le(c, Int(255))))
	}
	return VS{c}
}

func (x *Exec) slice(fr *Frame, ins *ssa.Slice, st *State) Value {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.val(fr, v, st).(VS).T
	}
	lo, hi, max := get(ins.Low), get(ins.High), get(ins.Max)
	if lo == nil {
		lo = Int(0)
	}
	switch v := x.val(fr, ins.X, st).(type) {
	case VS: // string
		if v.T.Sort != SStr {
			unsupp("slice of an opaque string")
		}
		n := StrLen(v.T)
		if hi == nil {
			hi = n
		}
		x.oblige(st, "safety", "slice in range", ins.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)))
		return VS{sliceStr(v.T, lo, hi)}
	case VSlice:
		if hi == nil {
			hi = v.Len
		}
		if max == nil {
			max = v.Cap
			x.oblige(st, "safety", "slice in range", ins.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, v.Cap)))
		} else {
			x.oblige(st, "safety", "slice in range", ins.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, v.Cap)))
		}
		return VSlice{v.Ref, Add(v.Off, lo), Sub(hi, lo), Sub(max, lo)}
	case VPtr:
		at := derefType(ins.X.Type()).Underlying().(*types.Array)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		x.oblige(st, "safety", "slice in range", ins.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, n)))
		return VSlice{v.A.Ref, lo, Sub(hi, lo), Sub(max, lo)}
	}
	unsupp("slice of %s", ins.X.Type())
	return nil
}

// sliceStr is s[lo:hi] for bounds known to be valid.
func sliceStr(s, lo, hi *Term) *Term {
	n := Sub(hi, lo)
	// a slice of a slice of the same string
	if s.Op == "str.substr" && substrSafe(s) {
		t := StrSub(s.Args[0], Add(s.Args[1], lo), n)
		if t.Op == "str.substr" {
			markSafe(t)
		}
		return t
	}
	t := StrSub(s, lo, n)
	if t.Op == "str.substr" {
		markSafe(t)
	}
	return t
}

func (x *Exec) newMap(st *State, T types.Type) *Term {
	ref := st.alloc()
	mt := T.Underlying().(*types.Map)
	ks := mapKeySort(mt)
	d := mapComp(T, ":dom")
	st.set(d, Store(st.get(d, ArrSort(SInt, ArrSort(ks, SBool))), ref, ConstArr(ks, False)))
	c := mapComp(T, ":card")
	st.set(c, Store(st.get(c, ArrSort(SInt, SInt)), ref, Int(0)))
	return ref
}

func mapKeySort(mt *types.Map) Sort {
	s := scalarSort(mt.Key())
	if s == "" {
		if _, ok := mt.Key().Underlying().(*types.Pointer); ok {
			return SInt
		}
		unsupp("map key type %s", mt.Key())
	}
	return s
}

func mapKey(v Value, T types.Type) *Term { return flatten(v, T.Underlying().(*types.Map).Key())[0] }

func mapDom(st *State, T types.Type, m *Term) *Term {
	mt := T.Underlying().(*types.Map)
	return Select(st.get(mapComp(T, ":dom"), ArrSort(SInt, ArrSort(mapKeySort(mt), SBool))), m)
}

// mapHas: the map has the key (false for a nil map).
func mapHas(st *State, T types.Type, m, k *Term) *Term {
	return And(Ne(m, Int(0)), Select(mapDom(st, T, m), k))
}

func mapGet(st *State, T types.Type, m, k *Term) Value {
	mt := T.Underlying().(*types.Map)
	ks := mapKeySort(mt)
	has := mapHas(st, T, m, k)
	var ts []*Term
	for _, l := range leaves(mt.Elem()) {
		a := st.get(mapComp(T, ":val"+l.Path), ArrSort(SInt, ArrSort(ks, l.Sort)))
		ts = append(ts, Ite(has, Select(Select(a, m), k), zeroTerm(l.Sort)))
	}
	return unflatten(mt.Elem(), ts)
}

func (x *Exec) lookup(fr *Frame, ins *ssa.Lookup, st *State) Value {
	v := x.val(fr, ins.X, st)
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		return x.indexStr(st, v, x.val(fr, ins.Index, st), ins.X.Type(), ins.Pos())
	}
	m := v.(VS).T
	k := mapKey(x.val(fr, ins.Index, st), ins.X.Type())
	// decide presence when it is known, so that pointers stay simple
	r := mapGet(st, ins.X.Type(), m, k)
	has := mapHas(st, ins.X.Type(), m, k)
	st.facts(r, mt.Elem(), st.wm)
	if ins.CommaOk {
		return VTuple{r, VS{has}}
	}
	return r
}

func (x *Exec) mapUpdate(fr *Frame, ins *ssa.MapUpdate, st *State) {
	T := ins.Map.Type()
	m := x.val(fr, ins.Map, st).(VS).T
	k := mapKey(x.val(fr, ins.Key, st), T)
	if b, o := splitOff(m); !(isWmBase(b) && o.Sign() > 0) {
		x.oblige(st, "safety", "no assignment to a nil map", ins.Pos(), Ne(m, Int(0)))
	}
	x.mapStore(st, T, m, k, x.val(fr, ins.Value, st), ins.Pos())
}

func (x *Exec) mapStore(st *State, T types.Type, m, k *Term, v Value, pos token.Pos) {
	mt := T.Underlying().(*types.Map)
	ks := mapKeySort(mt)
	d := mapComp(T, ":dom")
	x.checkWrite(st, d, m, k, pos)
	dm := st.get(d, ArrSort(SInt, ArrSort(ks, SBool)))
	c := mapComp(T, ":card")
	cm := st.get(c, ArrSort(SInt, SInt))
	st.set(c, Store(cm, m, Ite(Select(Select(dm, m), k), Select(cm, m), Add(Select(cm, m), Int(1)))))
	st.set(d, Store(dm, m, Store(Select(dm, m), k, True)))
	ts := flatten(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		ck := mapComp(T, ":val"+l.Path)
		a := st.get(ck, ArrSort(SInt, ArrSort(ks, l.Sort)))
		st.set(ck, Store(a, m, Store(Select(a, m), k, ts[i])))
	}
}

func (x *Exec) mapDelete(st *State, T types.Type, m, k *Term, pos token.Pos) {
	mt := T.Underlying().(*types.Map)
	ks := mapKeySort(mt)
	d := mapComp(T, ":dom")
	x.checkWrite(st, d, m, k, pos)
	dm := st.get(d, ArrSort(SInt, ArrSort(ks, SBool)))
	c := mapComp(T, ":card")
	cm := st.get(c, ArrSort(SInt, SInt))
	st.set(c, Store(cm, m, Ite(Select(Select(dm, m), k), Sub(Select(cm, m), Int(1)), Select(cm, m))))
	st.set(d, Store(dm, m, Store(Select(dm, m), k, False)))
}

func mapLen(st *State, T types.Type, m *Term) *Term {
	return Ite(Eq(m, Int(0)), Int(0), Select(st.get(mapComp(T, ":card"), ArrSort(SInt, SInt)), m))
}

func (x *Exec) makeSlice(st *State, T types.Type, n, c *Term, pos token.Pos) Value {
	x.oblige(st, "safety", "make with valid sizes", pos, And(Le(Int(0), n), Le(n, c)))
	ref := st.alloc()
	x.zeroRow(st, T.Underlying().(*types.Slice).Elem(), ref)
	return VSlice{ref, Int(0), n, c}
}

// closures
var cloFns = map[string]*ssa.Function{}

func closureTerm(fn *ssa.Function, bs []Value) *Term {
	name := "clo:" + fn.String()
	cloFns[name] = fn
	var ts []*Term
	for i, b := range bs {
		ts = append(ts, flatten(b, fn.FreeVars[i].Type())...)
	}
	return App(name, SInt, ts...)
}

func closureBindings(t *Term) (*ssa.Function, []Value) {
	fn := cloFns[t.S]
	ts := t.Args
	var out []Value
	for _, fv := range fn.FreeVars {
		n := len(leaves(fv.Type()))
		out = append(out, unflatten(fv.Type(), ts[:n]))
		ts = ts[n:]
	}
	return fn, out
}

func (x *Exec) convert(st *State, v Value, F, T types.Type) Value {
	fu, ok1 := F.Underlying().(*types.Basic)
	tu, ok2 := T.Underlying().(*types.Basic)
	if ok1 && ok2 {
		t := v.(VS).T
		switch {
		case fu.Info()&types.IsInteger != 0 && tu.Info()&types.IsInteger != 0:
			if isBV8(F) == isBV8(T) {
				if isBV8(F) {
					return v
				}
				lo, hi, _ := intRange(tu)
				flo, fhi, _ := intRange(fu)
				if flo != nil && lo != nil && Le(lo, flo) == True && Le(fhi, hi) == True {
					return v
				}
				x.oblige(st, "safety", "conversion keeps the value", token.NoPos, And(Le(lo, t), Le(t, hi)))
				return v
			}
			if t.Op == "bv" {
				return VS{IntB(t.I)}
			}
			if t.Op == "int" {
				return VS{BV8(uint8(t.I.Int64()))}
			}
		case fu.Info()&types.IsString != 0 && tu.Info()&types.IsString != 0:
			return v
		case fu.Info()&types.IsInteger != 0 && tu.Info()&types.IsString != 0:
			// string(byte or rune): only the ASCII range is modelled exactly
			return VS{runeStr(t)}
		}
	}
	unsupp("conversion %s to %s", F, T)
	return nil
}

// runeStr encodes a rune; exact below 0x80.
func runeStr(c *Term) *Term {
	if c.Op == "int" && c.I.IsInt64() {
		return StrC(string(rune(c.I.Int64())))
	}
	return Ite(And(Ge(c, Int(0)), Lt(c, Int(128))), mk("str.from_code", SStr, "", nil, nil, nil, c), App("utf8enc", SStr, c))
}

func implementsTerm(tag *Term, I types.Type) *Term {
	it := I.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return Ne(tag, Int(0))
	}
	if impls, ok := closedWorld[typeName(I)]; ok {
		var alts []*Term
		for _, t := range impls {
			alts = append(alts, Eq(tag, typeID(t)))
		}
		return Or(alts...)
	}
	if tag.Op == "int" && tag.I.IsInt64() {
		if T, ok := typeByID[int(tag.I.Int64())]; ok {
			return BoolT(types.Implements(T, it))
		}
	}
	return And(Ne(tag, Int(0)), App("implements:"+typeName(I), SBool, tag))
}

func (x *Exec) typeAssert(fr *Frame, ins *ssa.TypeAssert, b *ssa.BasicBlock, i int, st *State) {
	v := x.val(fr, ins.X, st).(VIface)
	T := ins.AssertedType
	var c *Term
	_, toIface := T.Underlying().(*types.Interface)
	if toIface {
		c = implementsTerm(v.Tag, T)
	} else {
		c = Eq(v.Tag, typeID(T))
	}
	cont := func(st *State, res Value) {
		f2 := fr.clone()
		f2.env[ins] = res
		x.run(f2, b, i+1, st)
	}
	good := func(st *State) Value {
		if toIface {
			return v
		}
		r := unboxVal(v.Val, T)
		st.facts(r, T, st.wm)
		return r
	}
	if !ins.CommaOk {
		x.oblige(st, "safety", "type assertion holds", ins.Pos(), c)
		cont(st, good(st))
		return
	}
	x.fork(st, c, func(st *State) {
		cont(st, VTuple{good(st), VS{True}})
	}, func(st *State) {
		cont(st, VTuple{zeroValue(T), VS{False}})
	})
}

// iteration over strings and maps

func (x *Exec) rangeInit(fr *Frame, ins *ssa.Range, st *State) Value {
	v := x.val(fr, ins.X, st)
	c := newCell("rangepos", ins.X.Type())
	if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
		c.name = "rangevisited"
		st.cells[c] = VS{ConstArr(mapKeySort(mt), False)}
		// the keys at the start of the iteration
		d := newCell("rangedom", ins.X.Type())
		m := v.(VS).T
		dom := mapDom(st, ins.X.Type(), m)
		st.cells[d] = VS{Ite(Eq(m, Int(0)), ConstArr(mapKeySort(mt), False), dom)}
		return VTuple{VIter{c}, v, VIter{d}}
	}
	st.cells[c] = VS{Int(0)}
	return VTuple{VIter{c}, v}
}

func (x *Exec) next(fr *Frame, ins *ssa.Next, st *State) Value {
	it := x.val(fr, ins.Iter, st).(VTuple)
	c := it[0].(VIter).cell
	tt := ins.Type().(*types.Tuple)
	if ins.IsString {
		s := it[1].(VS).T
		if s.Sort != SStr {
			unsupp("range over an opaque string")
		}
		p := st.cells[c].(VS).T
		ok := Lt(p, StrLen(s))
		b := byteAt(s, p)
		r := App("runeAt", SInt, s, p)
		w := App("runeWidth", SInt, s, p)
		cont := func(j int64) *Term {
			return Implies(Gt(w, Int(j)), Ge(byteAt(s, Add(p, Int(j))), Int(128)))
		}
		st.assume(Implies(ok, And(
			Le(Int(0), b), Le(b, Int(255)),
			Implies(Lt(b, Int(128)), And(Eq(r, b), Eq(w, Int(1)))),
			Implies(Ge(b, Int(128)), Ge(r, Int(128))),
			Le(r, Int(0x10ffff)),
			Ge(w, Int(1)), Le(w, Int(4)), Le(Add(p, w), StrLen(s)),
			cont(1), cont(2), cont(3))))
		st.cells[c] = VS{Ite(ok, Add(p, w), p)}
		return VTuple{VS{ok}, VS{p}, VS{r}}
	}
	// map
	R := ins.Iter.(*ssa.Range)
	T := R.X.Type()
	mt := T.Underlying().(*types.Map)
	m := it[1].(VS).T
	dom0 := st.cells[it[2].(VIter).cell].(VS).T
	vis := st.cells[c].(VS).T
	ks := mapKeySort(mt)
	key := Fresh("key", ks)
	ok := FreshVar("more", SBool)
	q := FreshB("k", ks)
	kv := unflatten(mt.Key(), []*Term{key})
	st.facts(kv, mt.Key(), st.wm)
	st.assume(Implies(ok, And(mapHas(st, T, m, key), Not(Select(vis, key)))))
	st.assume(Implies(Not(ok), Forall([]*Term{q}, Implies(And(Select(dom0, q), mapHas(st, T, m, q)), Select(vis, q)))))
	st.cells[c] = VS{Ite(ok, Store(vis, key, True), vis)}
	var ev Value
	if b, isB := tt.At(2).Type().(*types.Basic); isB && b.Kind() == types.Invalid {
		ev = VS{Int(0)}
	} else {
		ev = mapGet(st, T, m, key)
		st.facts(ev, mt.Elem(), st.wm)
	}
	return VTuple{VS{ok}, kv, ev}
}

func FreshVar(n string, s Sort) *Term { return Fresh(n, s) }
