package main

// Symbolic state: path condition, heap components, local cells, events and
// write permissions.

import (
	"fmt"
	"go/types"
	"strings"
)

type Event struct {
	Kind string // dyn, invoke, extern
	Name string // type of the callee, or the extern function's name
	Fn   *Term  // callee / receiver identity
	Args []Value
	ArgT []types.Type
	Res  Value
	ResT types.Type
	St   *State // state right before the call
}

type Loc struct {
	Ref *Term // nil: any reference
	Key *Term // map key / element index; nil: all
}

// WCtx is a write permission context: a function's modifies clause or the
// write set of a loop.
type WCtx struct {
	name  string
	wm    *Term // references above were allocated inside
	locs  map[string][]Loc
	whole map[string]bool
	all   bool
	prefixes []string

	probe   bool
	marker  int // variables made later are not stable
	onUnst  func(comp string, ref *Term) bool
	changed bool
	fail    func(comp string)
	fromFn  bool
}

type havocRec struct {
	match func(string) bool
	name  string
}

type State struct {
	pc     []*Term
	known  map[*Term]bool
	heap   map[string]*Term
	hv     []havocRec
	cells  map[*Cell]Value
	wm     *Term
	stamp  map[string]*Term
	floor  *Term
	events []*Event
	ctxs   []*WCtx
	defers []deferred
	trace  []string
	dead   bool
}

func newState() *State {
	wm0 := Var("wm@0", SInt)
	return &State{known: map[*Term]bool{}, heap: map[string]*Term{}, cells: map[*Cell]Value{}, wm: wm0, floor: wm0, stamp: map[string]*Term{}, pc: []*Term{Ge(wm0, Int(0))}}
}

func (st *State) clone() *State {
	n := *st
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.known = make(map[*Term]bool, len(st.known))
	for k := range st.known {
		n.known[k] = true
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.cells = make(map[*Cell]Value, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.stamp = make(map[string]*Term, len(st.stamp))
	for k, v := range st.stamp {
		n.stamp[k] = v
	}
	n.hv = st.hv[:len(st.hv):len(st.hv)]
	n.events = st.events[:len(st.events):len(st.events)]
	n.ctxs = st.ctxs[:len(st.ctxs):len(st.ctxs)]
	n.defers = st.defers[:len(st.defers):len(st.defers)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return &n
}

func (st *State) assume(t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if t == True || st.known[t] {
		return
	}
	if t == False || st.known[Not(t)] {
		st.dead = true
	}
	st.known[t] = true
	st.pc = append(st.pc, t)
}

// labels of assumed clauses, for slicing the hypotheses of a labelled goal
var termTags = map[*Term]map[string]bool{}

func (st *State) assumeAs(t *Term, label string) {
	tagTerm(t, label)
	st.assume(t)
}

func tagTerm(t *Term, label string) {
	if t.Op == "and" {
		for _, a := range t.Args {
			tagTerm(a, label)
		}
		return
	}
	if t.qf {
		return
	}
	m := termTags[t]
	if m == nil {
		m = map[string]bool{}
		termTags[t] = m
	}
	m[labelName(label)] = true
}

// a label "name|a,b" asks for a proof of the clause that uses only the
// quantified clauses called name, a and b.
func labelName(l string) string {
	n, _, _ := strings.Cut(l, "|")
	return n
}

func sliced(pc []*Term, label string) ([]*Term, bool) {
	n, rest, ok := strings.Cut(label, "|")
	if !ok {
		return pc, false
	}
	use := map[string]bool{n: true}
	for _, u := range strings.Split(rest, ",") {
		use[strings.TrimSpace(u)] = true
	}
	var out []*Term
	for _, t := range pc {
		if tags := termTags[t]; tags != nil {
			hit := false
			for k := range tags {
				if use[k] {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		out = append(out, t)
	}
	return out, len(out) < len(pc)
}

// quickTruth decides a condition from the known facts alone: 1, -1 or 0.
func (st *State) quickTruth(t *Term) int {
	if t == True || st.known[t] {
		return 1
	}
	if t == False || st.known[Not(t)] {
		return -1
	}
	switch t.Op {
	case "not":
		return -st.quickTruth(t.Args[0])
	case "and":
		all := true
		for _, a := range t.Args {
			switch st.quickTruth(a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	case "or":
		none := true
		for _, a := range t.Args {
			switch st.quickTruth(a) {
			case 1:
				return 1
			case 0:
				none = false
			}
		}
		if none {
			return -1
		}
	}
	return 0
}

var compSorts = map[string]Sort{}

func (st *State) get(key string, srt Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	compSorts[key] = srt
	name := "H0:" + key
	for i := len(st.hv) - 1; i >= 0; i-- {
		if st.hv[i].match(key) {
			name = st.hv[i].name + ":" + key
			break
		}
	}
	t := Var(name, srt)
	st.heap[key] = t
	return t
}

func (st *State) set(key string, t *Term) {
	st.heap[key] = t
	st.stamp[key] = st.wm
}

func (st *State) stampOf(key string) *Term {
	if s, ok := st.stamp[key]; ok {
		return maxWm(s, st.floor)
	}
	return st.floor
}

// watermarks along one path grow, with the same base or a later one.
func maxWm(a, b *Term) *Term {
	if a == b {
		return a
	}
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	if ab == bb {
		if ao.Cmp(bo) >= 0 {
			return a
		}
		return b
	}
	if ab == nil || bb == nil {
		return a
	}
	if ab.id > bb.id {
		return a
	}
	return b
}

// objKey normalises a field path to the component that stores it.
func objKey(T types.Type, path []int) (types.Type, []int) {
	for len(path) > 0 {
		st := T.Underlying().(*types.Struct)
		f := st.Field(path[0])
		if path[0] == 0 && f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				T = f.Type()
				path = path[1:]
				continue
			}
		}
		break
	}
	return T, path
}

func fieldComp(T types.Type, path []int, leaf string) string {
	T, path = objKey(T, path)
	return "F:" + typeName(T) + pathName(T, path) + leaf
}

func elemComp(T types.Type, path []int, leaf string) string {
	return "E:" + typeName(T) + pathName(T, path) + leaf
}

func cellComp(T types.Type, path []int, leaf string) string {
	return "C:" + typeName(T) + pathName(T, path) + leaf
}

func mapComp(T types.Type, what string) string { return "M:" + typeName(T) + what }

// comps of the place at a: component keys, sorts and (for locals) nothing.
type placeLeaf struct {
	comp string
	sort Sort // leaf sort
}

func placeLeaves(a *Addr) []placeLeaf {
	T := addrType(a)
	var out []placeLeaf
	if a.Kind == AObj {
		if st, ok := T.Underlying().(*types.Struct); ok && scalarSort(T) == "" {
			for i := 0; i < st.NumFields(); i++ {
				p := append(append([]int{}, a.Path...), i)
				out = append(out, placeLeaves(&Addr{Kind: AObj, Ref: a.Ref, Base: a.Base, Path: p})...)
			}
			return out
		}
	}
	for _, l := range leaves(T) {
		var k string
		switch a.Kind {
		case AObj:
			k = fieldComp(a.Base, a.Path, l.Path)
		case AElem:
			k = elemComp(a.Base, a.Path, l.Path)
		case ACell:
			k = cellComp(a.Base, a.Path, l.Path)
		case AGlobal:
			k = "G:" + a.G + pathName(a.Base, a.Path) + l.Path
		default:
			unsupp("place of kind %d", a.Kind)
		}
		out = append(out, placeLeaf{k, l.Sort})
	}
	return out
}

// constant package variables: name -> leaf terms
var constGlobals = map[string][]*Term{}

func (st *State) load(a *Addr) Value {
	T := addrType(a)
	switch a.Kind {
	case ALocal:
		v, ok := st.cells[a.Cell]
		if !ok {
			unsupp("read of an unset cell %s", a.Cell.name)
		}
		for _, i := range a.Path {
			v = v.(VStruct).F[i]
		}
		return v
	case AGlobal:
		if ts, ok := constGlobals[a.G]; ok && len(a.Path) == 0 {
			return unflatten(T, ts)
		}
	case AArr:
		unsupp("load of an array value")
	}
	var ts []*Term
	for _, p := range placeLeaves(a) {
		switch a.Kind {
		case AGlobal:
			ts = append(ts, st.get(p.comp, p.sort))
		case AElem:
			ts = append(ts, Select(Select(st.get(p.comp, ArrSort(SInt, ArrSort(SInt, p.sort))), a.Ref), a.Idx))
		default:
			ts = append(ts, Select(st.get(p.comp, ArrSort(SInt, p.sort)), a.Ref))
		}
	}
	return unflatten(T, ts)
}

// placeStamp is the watermark that bounds the references stored at a.
func (st *State) placeStamp(a *Addr) *Term {
	w := st.floor
	if a.Kind == ALocal {
		return st.wm
	}
	for _, p := range placeLeaves(a) {
		w = maxWm(w, st.stampOf(p.comp))
	}
	return w
}

func (st *State) rawStore(a *Addr, v Value) {
	T := addrType(a)
	if a.Kind == ALocal {
		if len(a.Path) == 0 {
			st.cells[a.Cell] = v
			return
		}
		st.cells[a.Cell] = setPath(st.cells[a.Cell], a.Path, v)
		return
	}
	if a.Kind == AArr {
		unsupp("store of an array value")
	}
	ts := flatten(v, T)
	for i, p := range placeLeaves(a) {
		switch a.Kind {
		case AGlobal:
			st.set(p.comp, ts[i])
		case AElem:
			e := st.get(p.comp, ArrSort(SInt, ArrSort(SInt, p.sort)))
			st.set(p.comp, Store(e, a.Ref, Store(Select(e, a.Ref), a.Idx, ts[i])))
		default:
			e := st.get(p.comp, ArrSort(SInt, p.sort))
			st.set(p.comp, Store(e, a.Ref, ts[i]))
		}
	}
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	s := v.(VStruct)
	fs := append([]Value{}, s.F...)
	fs[path[0]] = setPath(fs[path[0]], path[1:], nv)
	return VStruct{fs}
}

// alloc returns a fresh reference.
func (st *State) alloc() *Term {
	st.wm = Add(st.wm, Int(1))
	return st.wm
}

// upper bounds of references, for telling fresh references apart
var refUB = map[*Term]*Term{}

func noteRef(t, wm *Term) {
	if t.Op == "int" {
		return
	}
	if old, ok := refUB[t]; ok {
		ob, oo := splitOff(old)
		nb, no := splitOff(wm)
		if ob == nb && no.Cmp(oo) < 0 {
			refUB[t] = wm
		}
		return
	}
	refUB[t] = wm
}

func isWmBase(t *Term) bool { return t != nil && t.Op == "var" && strings.HasPrefix(t.S, "wm") }

// wmLE: watermark a is certainly not above watermark b.
func wmLE(a, b *Term) bool {
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	if ab == nil {
		return bb != nil && isWmBase(bb) && ao.Cmp(bo) <= 0
	}
	if ab == bb {
		return ao.Cmp(bo) <= 0
	}
	// a later base is never below an earlier one plus its offset when it was
	// made from a watermark at least that high
	if isWmBase(ab) && isWmBase(bb) {
		if p, ok := wmParent[bb]; ok {
			return wmLE(a, p)
		}
	}
	return false
}

// the watermark a havocked watermark was made from
var wmParent = map[*Term]*Term{}

func init() {
	refsApart = func(a, b *Term) bool {
		if a.Sort != SInt {
			return false
		}
		return apart1(a, b) || apart1(b, a)
	}
}

// apart1: a is a fresh reference (base+k, k>0) and b is bounded below it.
func apart1(a, b *Term) bool {
	ab, ao := splitOff(a)
	if !isWmBase(ab) {
		return false
	}
	if ao.Sign() <= 0 {
		return false
	}
	prev := Add(ab, IntB(ao))
	prev = Sub(prev, Int(1))
	if ub, ok := refUB[b]; ok && wmLE(ub, prev) {
		return true
	}
	if b.Op == "int" && b.I.Sign() <= 0 {
		return true
	}
	bb, _ := splitOff(b)
	if isWmBase(bb) && bb != ab {
		return wmLE(b, prev)
	}
	return false
}

func (st *State) havocWm() {
	n := Fresh("wm", SInt)
	st.assume(Ge(n, st.wm))
	wmParent[n] = st.wm
	st.wm = n
	st.floor = n
}

const maxInt = "9223372036854775807"

// facts a value of type T satisfies in any state with the given watermark.
func (st *State) facts(v Value, T types.Type, wm *Term) {
	switch x := v.(type) {
	case VS:
		if x.T.Sort != SInt || isConst(x.T) {
			return
		}
		switch u := T.Underlying().(type) {
		case *types.Basic:
			if opaqueStruct(T) {
				return
			}
			lo, hi, ok := intRange(u)
			if ok {
				st.assume(And(Le(lo, x.T), Le(x.T, hi)))
			}
		case *types.Map:
			if _, isB := splitOff(x.T); isB.Sign() == 0 {
				st.assume(And(Ge(x.T, Int(0)), Le(x.T, wm)))
				noteRef(x.T, wm)
			}
		}
	case VPtr:
		if x.A.Kind == AObj && len(x.A.Path) == 0 || x.A.Kind == ACell || x.A.Kind == AArr {
			st.refFact(x.A.Ref, wm)
			if x.A.Kind == AObj {
				st.tyFact(x.A.Ref, x.A.Base)
			}
		}
	case VSlice:
		if isConst(x.Ref) && isConst(x.Len) {
			return
		}
		st.refFact(x.Ref, wm)
		st.assume(Ge(x.Len, Int(0)))
		st.assume(Le(x.Len, x.Cap))
		st.assume(Ge(x.Off, Int(0)))
		if !isConst(x.Cap) {
			st.assume(Le(x.Cap, Int(1<<60)))
		}
		st.assume(Le(x.Off, Int(1<<60)))
		st.assume(Implies(Eq(x.Ref, Int(0)), Eq(x.Cap, Int(0))))
	case VIface:
		if isConst(x.Tag) {
			return
		}
		st.assume(Ge(x.Tag, Int(0)))
		st.assume(Implies(Eq(x.Tag, Int(0)), Eq(x.Val, Int(0))))
		closedWorldFact(st, x, T, wm)
	case VStruct:
		u := T.Underlying().(*types.Struct)
		for i, f := range x.F {
			st.facts(f, u.Field(i).Type(), wm)
		}
	case VTuple:
		u := T.(*types.Tuple)
		for i, f := range x {
			st.facts(f, u.At(i).Type(), wm)
		}
	}
}

func (st *State) refFact(r, wm *Term) {
	if isConst(r) {
		return
	}
	if b, _ := splitOff(r); isWmBase(b) {
		return
	}
	st.assume(Ge(r, Int(0)))
	st.assume(Le(r, wm))
	noteRef(r, wm)
}

// structs that share their embedded first struct with others need a type tag
func sharesEmbedded(T types.Type) bool {
	s, ok := T.Underlying().(*types.Struct)
	if !ok || s.NumFields() == 0 || !s.Field(0).Embedded() {
		return false
	}
	_, ok = s.Field(0).Type().Underlying().(*types.Struct)
	return ok
}

func tyTerm(ref *Term) *Term { return App("ty", SInt, ref) }

func (st *State) tyFact(ref *Term, T types.Type) {
	if sharesEmbedded(T) {
		st.assume(Or(Eq(ref, Int(0)), Eq(tyTerm(ref), typeID(T))))
	}
}

func intRange(u *types.Basic) (*Term, *Term, bool) {
	p := func(n int) *Term { return IntB(pow2(n)) }
	switch u.Kind() {
	case types.Int, types.Int64:
		return Sub(Int(0), p(63)), Sub(p(63), Int(1)), true
	case types.Int32:
		return Sub(Int(0), p(31)), Sub(p(31), Int(1)), true
	case types.Int16:
		return Int(-32768), Int(32767), true
	case types.Int8:
		return Int(-128), Int(127), true
	case types.Uint, types.Uint64, types.Uintptr:
		return Int(0), Sub(p(64), Int(1)), true
	case types.Uint32:
		return Int(0), Sub(p(32), Int(1)), true
	case types.Uint16:
		return Int(0), Int(65535), true
	case types.Uint8:
		return Int(0), Int(255), true
	}
	return nil, nil, false
}

// interfaces that only types of the package can satisfy
var closedWorld = map[string][]types.Type{}

func closedWorldFact(st *State, x VIface, T types.Type, wm *Term) {
	impls, ok := closedWorld[typeName(T)]
	if !ok {
		return
	}
	alts := []*Term{Eq(x.Tag, Int(0))}
	for _, I := range impls {
		c := Eq(x.Tag, typeID(I))
		if p, ok := I.Underlying().(*types.Pointer); ok {
			c = And(c, Le(x.Val, wm), Ge(x.Val, Int(0)))
			if sharesEmbedded(p.Elem()) {
				c = And(c, Or(Eq(x.Val, Int(0)), Eq(tyTerm(x.Val), typeID(p.Elem()))))
			}
		}
		alts = append(alts, c)
	}
	st.assume(Or(alts...))
	noteRef(x.Val, wm)
}

func (st *State) note(f string, a ...any) {
	st.trace = append(st.trace, fmt.Sprintf(f, a...))
}
