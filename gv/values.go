package main

// Symbolic values, type layouts and addresses.

import (
	"fmt"
	"go/types"
	"strings"
)

type Unsupp struct{ Msg string }

func unsupp(f string, a ...any) { panic(Unsupp{fmt.Sprintf(f, a...)}) }

type Value interface{}

type VS struct{ T *Term }                      // scalar (bool, number, string, func, map, chan)
type VStruct struct{ F []Value }               // struct value
type VSlice struct{ Ref, Off, Len, Cap *Term } // slice
type VIface struct{ Tag, Val *Term }           // interface
type VPtr struct{ A *Addr }                    // pointer
type VTuple []Value
type VIter struct{ cell *Cell } // range iterator

type AddrKind int

const (
	AObj    AddrKind = iota // struct object in the heap, Ref
	ALocal                  // local cell
	AGlobal                 // package variable
	AElem                   // slice/array element: Ref, Idx
	ACell                   // non-struct object in the heap, Ref
	AArr                    // array object (backing store), Ref
)

type Addr struct {
	Kind AddrKind
	Ref  *Term
	Idx  *Term
	Cell *Cell
	G    string
	Path []int      // field path below the base
	Base types.Type // type of the base object (element type for AElem)
}

type Cell struct {
	id   int
	name string
	T    types.Type
}

var cellN int

func newCell(name string, T types.Type) *Cell {
	cellN++
	return &Cell{cellN, name, T}
}

var opaqueMode = false // strings as opaque ordered values

func strSort() Sort {
	if opaqueMode {
		return SReal
	}
	return SStr
}

var pkgPath string // package under verification

func typeName(T types.Type) string {
	s := types.TypeString(T, func(p *types.Package) string { return p.Name() })
	return s
}

func isBuilder(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

func opaqueStruct(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "time", "sync/atomic", "reflect", "regexp":
		return true
	}
	return false
}

func isBV8(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	if !ok {
		return false
	}
	b, ok := n.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// scalarSort returns the sort of a scalar type, or "" when it isn't one.
func scalarSort(T types.Type) Sort {
	if isBuilder(T) {
		return strSort()
	}
	if opaqueStruct(T) {
		if _, ok := T.Underlying().(*types.Struct); ok {
			return SInt
		}
	}
	if isBV8(T) {
		return SBV8
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return strSort()
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SInt
		}
	case *types.Map, *types.Signature, *types.Chan:
		return SInt
	}
	return ""
}

type Leaf struct {
	Path string
	Sort Sort
}

var leafMemo = map[string][]Leaf{}

// leaves lists the scalar components of a type in order.
func leaves(T types.Type) []Leaf {
	key := typeName(T) + string(strSort())
	if l, ok := leafMemo[key]; ok {
		return l
	}
	var out []Leaf
	if s := scalarSort(T); s != "" {
		out = []Leaf{{"", s}}
	} else {
		switch u := T.Underlying().(type) {
		case *types.Pointer:
			out = []Leaf{{"", SInt}}
		case *types.Slice:
			out = []Leaf{{"#ref", SInt}, {"#off", SInt}, {"#len", SInt}, {"#cap", SInt}}
		case *types.Interface:
			out = []Leaf{{"#tag", SInt}, {"#val", SInt}}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				for _, l := range leaves(u.Field(i).Type()) {
					out = append(out, Leaf{"." + u.Field(i).Name() + l.Path, l.Sort})
				}
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				for _, l := range leaves(u.At(i).Type()) {
					out = append(out, Leaf{fmt.Sprintf("@%d%s", i, l.Path), l.Sort})
				}
			}
		case *types.TypeParam:
			unsupp("type parameter %s", T)
		default:
			unsupp("layout of %s", T)
		}
	}
	leafMemo[key] = out
	return out
}

// pointers to non-heap places, by the term standing for them
var ptrTable = map[*Term]*Addr{}
var addrIDs = map[string]*Term{}

func addrTerm(a *Addr) *Term {
	if a.Kind == AObj && len(a.Path) == 0 {
		return a.Ref
	}
	if a.Kind == ACell && len(a.Path) == 0 {
		return a.Ref
	}
	if a.Kind == AArr && len(a.Path) == 0 {
		return a.Ref
	}
	var t *Term
	switch a.Kind {
	case ALocal:
		k := fmt.Sprintf("local:%s#%d%v", a.Cell.name, a.Cell.id, a.Path)
		t = App("addr:"+k, SInt)
	case AGlobal:
		t = App(fmt.Sprintf("addr:global:%s%v", a.G, a.Path), SInt)
	case AObj:
		t = App(fmt.Sprintf("addr:field:%s%v", typeName(a.Base), a.Path), SInt, a.Ref)
	case AElem:
		t = App(fmt.Sprintf("addr:elem:%s%v", typeName(a.Base), a.Path), SInt, a.Ref, a.Idx)
	default:
		unsupp("address of kind %d", a.Kind)
	}
	ptrTable[t] = a
	return t
}

func ptrFromTerm(t *Term, elem types.Type) VPtr {
	if a, ok := ptrTable[t]; ok {
		return VPtr{a}
	}
	if _, ok := elem.Underlying().(*types.Struct); ok && scalarSort(elem) == "" {
		return VPtr{&Addr{Kind: AObj, Ref: t, Base: elem}}
	}
	if _, ok := elem.Underlying().(*types.Array); ok {
		return VPtr{&Addr{Kind: AArr, Ref: t, Base: elem}}
	}
	return VPtr{&Addr{Kind: ACell, Ref: t, Base: elem}}
}

// flatten lists the leaf terms of a value of type T.
func flatten(v Value, T types.Type) []*Term {
	switch x := v.(type) {
	case VS:
		return []*Term{x.T}
	case VPtr:
		return []*Term{addrTerm(x.A)}
	case VSlice:
		return []*Term{x.Ref, x.Off, x.Len, x.Cap}
	case VIface:
		return []*Term{x.Tag, x.Val}
	case VStruct:
		var out []*Term
		st := T.Underlying().(*types.Struct)
		for i, f := range x.F {
			out = append(out, flatten(f, st.Field(i).Type())...)
		}
		return out
	case VTuple:
		var out []*Term
		st := T.(*types.Tuple)
		for i, f := range x {
			out = append(out, flatten(f, st.At(i).Type())...)
		}
		return out
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func unflatten(T types.Type, ts []*Term) Value {
	v, rest := unflat(T, ts)
	if len(rest) != 0 {
		panic("unflatten: left over terms for " + T.String())
	}
	return v
}

func unflat(T types.Type, ts []*Term) (Value, []*Term) {
	if scalarSort(T) != "" {
		return VS{ts[0]}, ts[1:]
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		return ptrFromTerm(ts[0], u.Elem()), ts[1:]
	case *types.Slice:
		return VSlice{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Interface:
		return VIface{ts[0], ts[1]}, ts[2:]
	case *types.Struct:
		var fs []Value
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = unflat(u.Field(i).Type(), ts)
			fs = append(fs, f)
		}
		return VStruct{fs}, ts
	case *types.Tuple:
		var fs VTuple
		for i := 0; i < u.Len(); i++ {
			var f Value
			f, ts = unflat(u.At(i).Type(), ts)
			fs = append(fs, f)
		}
		return fs, ts
	}
	panic("unflat " + T.String())
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrC("")
	case SReal:
		return RealI(0)
	case SBV8:
		return BV8(0)
	}
	panic("zero of " + s)
}

func zeroValue(T types.Type) Value {
	var ts []*Term
	for _, l := range leaves(T) {
		ts = append(ts, zeroTerm(l.Sort))
	}
	return unflatten(T, ts)
}

func freshValue(name string, T types.Type) Value {
	var ts []*Term
	for _, l := range leaves(T) {
		ts = append(ts, Fresh(name+l.Path, l.Sort))
	}
	return unflatten(T, ts)
}

func iteValue(c *Term, a, b Value, T types.Type) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	x, y := flatten(a, T), flatten(b, T)
	var ts []*Term
	for i := range x {
		ts = append(ts, Ite(c, x[i], y[i]))
	}
	return unflatten(T, ts)
}

// type identifiers for interface tags
var typeIDs = map[string]int{}
var typeByID = map[int]types.Type{}

func typeID(T types.Type) *Term {
	k := types.TypeString(T, nil)
	id, ok := typeIDs[k]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[k] = id
		typeByID[id] = T
	}
	return Int(int64(id))
}

// boxing of non-pointer values in interfaces
func boxVal(v Value, T types.Type) *Term {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Map:
		return flatten(v, T)[0]
	}
	return App("box:"+typeName(T), SInt, flatten(v, T)...)
}

func unboxVal(val *Term, T types.Type) Value {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Map:
		return unflatten(T, []*Term{val})
	}
	if val.Op == "app" && val.S == "box:"+typeName(T) {
		return unflatten(T, val.Args)
	}
	var ts []*Term
	for i, l := range leaves(T) {
		ts = append(ts, App(fmt.Sprintf("unbox:%s:%d", typeName(T), i), l.Sort, val))
	}
	return unflatten(T, ts)
}

// valuesEqual compares two values of type T (Go ==).
func valuesEqual(a, b Value, T types.Type) *Term {
	x, y := flatten(a, T), flatten(b, T)
	if _, ok := T.Underlying().(*types.Slice); ok {
		// only comparison with nil is legal Go; specs may compare slices, then
		// they are equal when they share everything observable
		sx, sy := a.(VSlice), b.(VSlice)
		if isNilSlice(sy) {
			return Eq(sx.Ref, Int(0))
		}
		if isNilSlice(sx) {
			return Eq(sy.Ref, Int(0))
		}
		return And(Eq(sx.Ref, sy.Ref), Eq(sx.Off, sy.Off), Eq(sx.Len, sy.Len))
	}
	var cs []*Term
	for i := range x {
		cs = append(cs, Eq(x[i], y[i]))
	}
	return And(cs...)
}

func isNilSlice(s VSlice) bool { return s.Ref.Op == "int" && s.Ref.I.Sign() == 0 }

func derefType(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// fieldOf normalises the address of field i of the object at a.
func fieldAddr(a *Addr, i int) *Addr {
	st := addrType(a).Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	// an embedded struct shares its owner's reference
	if a.Kind == AObj && len(a.Path) == 0 && st.Field(i).Embedded() && i == 0 {
		if _, ok := ft.Underlying().(*types.Struct); ok {
			return &Addr{Kind: AObj, Ref: a.Ref, Base: ft}
		}
	}
	n := *a
	n.Path = append(append([]int{}, a.Path...), i)
	return &n
}

// addrType is the type of the place at a.
func addrType(a *Addr) types.Type {
	T := a.Base
	if a.Kind == ALocal {
		T = a.Cell.T
	}
	for _, i := range a.Path {
		T = T.Underlying().(*types.Struct).Field(i).Type()
	}
	return T
}

func pathName(T types.Type, path []int) string {
	var b strings.Builder
	for _, i := range path {
		f := T.Underlying().(*types.Struct).Field(i)
		b.WriteString("." + f.Name())
		T = f.Type()
	}
	return b.String()
}
