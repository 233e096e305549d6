package main

// Terms: hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
	SReal Sort = "Real"
	SBV8  Sort = "(_ BitVec 8)"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// splits "(Array K V)".
func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[7 : len(str)-1]
	d := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	Op   string // int bool str bv real var app forall exists or an SMT operator
	Args []*Term
	Sort Sort
	I    *big.Int
	S    string // string value / var or function name
	Bnd  []*Term
	Pats [][]*Term
	id   int
	fv   bool // contains a bound variable
	qf   bool // quantifier free
}

var termTab = map[string]*Term{}
var termList []*Term

func mk(op string, srt Sort, s string, i *big.Int, bnd []*Term, pats [][]*Term, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(srt))
	b.WriteByte('|')
	b.WriteString(s)
	if i != nil {
		b.WriteString(i.String())
	}
	for _, v := range bnd {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, a := range args {
		if a == nil {
			panic("nil term arg in " + op)
		}
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: srt, I: i, S: s, Bnd: bnd, Pats: pats, id: len(termList), qf: true}
	for _, a := range args {
		if a.fv {
			t.fv = true
		}
		if !a.qf {
			t.qf = false
		}
	}
	if op == "forall" || op == "exists" {
		t.qf = false
		t.fv = hasFreeBound(args[0], bnd)
	}
	if op == "bvar" {
		t.fv = true
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func hasFreeBound(t *Term, bnd []*Term) bool {
	seen := map[int]bool{}
	set := map[*Term]bool{}
	for _, b := range bnd {
		set[b] = true
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.fv || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.Op == "bvar" {
			return !set[t]
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func Int(n int64) *Term     { return mk("int", SInt, "", big.NewInt(n), nil, nil) }
func IntB(n *big.Int) *Term { return mk("int", SInt, "", n, nil, nil) }
func RealI(n int64) *Term   { return mk("real", SReal, "", big.NewInt(n), nil, nil) }
func StrC(s string) *Term   { return mk("str", SStr, s, nil, nil, nil) }
func BV8(n uint8) *Term     { return mk("bv", SBV8, "", big.NewInt(int64(n)), nil, nil) }
func Var(n string, s Sort) *Term {
	return mk("var", s, n, nil, nil, nil)
}
func BVar(n string, s Sort) *Term { return mk("bvar", s, n, nil, nil, nil) }

var True = mk("bool", SBool, "true", nil, nil, nil)
var False = mk("bool", SBool, "false", nil, nil, nil)

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshN = map[string]int{}

func Fresh(prefix string, s Sort) *Term {
	freshN[prefix]++
	return Var(fmt.Sprintf("%s!%d", prefix, freshN[prefix]), s)
}

var bvarN int

func FreshB(prefix string, s Sort) *Term {
	bvarN++
	return BVar(fmt.Sprintf("%s?%d", prefix, bvarN), s)
}

func App(name string, s Sort, args ...*Term) *Term { return mk("app", s, name, nil, nil, nil, args...) }

func isConst(t *Term) bool {
	switch t.Op {
	case "int", "bool", "str", "bv", "real":
		return true
	}
	return false
}

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", SBool, "", nil, nil, nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False || seen[Not(t)] {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", nil, nil, nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True || seen[Not(t)] {
			return false
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, "", nil, nil, nil, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", SBool, "", nil, nil, nil, a, b)
}

// distinctTerms reports that two terms are certainly different.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if isConst(a) && isConst(b) {
		return true
	}
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	if ab == bb && ab != nil && ao.Cmp(bo) != 0 {
		return true
	}
	if a.Sort == SInt {
		// fresh references are strictly above the watermark they were taken from
		if isFn(a) && isConst(b) || isFn(b) && isConst(a) {
			return false
		}
	}
	return false
}

func isFn(t *Term) bool { return t.Op == "app" }

// t = base + off with base non-constant, or base nil for a constant.
func splitOff(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.I
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].I
	}
	return t, new(big.Int)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if distinctTerms(a, b) {
		return False
	}
	if isConst(a) && !isConst(b) {
		a, b = b, a
	}
	if a.Sort == SBool {
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
	}
	// character comparisons: (str.to_code (str.at s i)) = c
	if a.Op == "str.to_code" && b.Op == "int" {
		if b.I.Sign() >= 0 && b.I.Cmp(big.NewInt(255)) <= 0 {
			return Eq(a.Args[0], StrC(string([]byte{byte(b.I.Int64())})))
		}
	}
	if a.Op == "ite" && isConst(b) && (isConst(a.Args[1]) || isConst(a.Args[2])) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if a.Op == "str.++" && b.Op == "str" && b.S == "" {
		var cs []*Term
		for _, x := range a.Args {
			cs = append(cs, Eq(x, b))
		}
		return And(cs...)
	}
	// x + c = d
	if b.Op == "int" {
		if ba, bo := splitOff(a); ba != nil && bo.Sign() != 0 {
			return Eq(ba, IntB(new(big.Int).Sub(b.I, bo)))
		}
	}
	if a.Sort == SInt {
		ba, ao := splitOff(a)
		bb, bo := splitOff(b)
		if ba != nil && ba == bb {
			return BoolT(ao.Cmp(bo) == 0)
		}
	}
	if a.id > b.id && !isConst(b) {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, nil, nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	return mk("ite", a.Sort, "", nil, nil, nil, c, a, b)
}

func Add(a, b *Term) *Term {
	if a.Sort == SReal {
		panic("real add")
	}
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Add(a.I, b.I))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.I.Sign() == 0 {
			return a
		}
		if a.Op == "+" && len(a.Args) == 2 && a.Args[1].Op == "int" {
			return Add(a.Args[0], IntB(new(big.Int).Add(a.Args[1].I, b.I)))
		}
		return mk("+", SInt, "", nil, nil, nil, a, b)
	}
	// normalise (x + c) + y to (x + y) + c
	if a.Op == "+" && a.Args[1].Op == "int" {
		return Add(Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && b.Args[1].Op == "int" {
		return Add(Add(a, b.Args[0]), b.Args[1])
	}
	// a + (x - a) = x
	if b.Op == "-" && len(b.Args) == 2 && b.Args[1] == a {
		return b.Args[0]
	}
	if a.Op == "-" && len(a.Args) == 2 && a.Args[1] == b {
		return a.Args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("+", SInt, "", nil, nil, nil, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return Int(0)
	}
	if b.Op == "int" {
		return Add(a, IntB(new(big.Int).Neg(b.I)))
	}
	if a.Op == "+" && a.Args[1].Op == "int" {
		return Add(Sub(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && b.Args[1].Op == "int" {
		return Add(Sub(a, b.Args[0]), IntB(new(big.Int).Neg(b.Args[1].I)))
	}
	if a.Op == "+" {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return mk("-", SInt, "", nil, nil, nil, a, b)
}

func Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Mul(a.I, b.I))
	}
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" && a.I.IsInt64() {
		switch a.I.Int64() {
		case 0:
			return Int(0)
		case 1:
			return b
		}
	}
	return mk("*", SInt, "", nil, nil, nil, a, b)
}

func Div(a, b *Term) *Term { return mk("div", SInt, "", nil, nil, nil, a, b) }
func Mod(a, b *Term) *Term { return mk("mod", SInt, "", nil, nil, nil, a, b) }

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if isConst(a) && isConst(b) {
		return BoolT(a.I.Cmp(b.I) <= 0)
	}
	if a.Sort == SInt {
		ba, ao := splitOff(a)
		bb, bo := splitOff(b)
		if ba != nil && ba == bb {
			return BoolT(ao.Cmp(bo) <= 0)
		}
		if b.Op == "str.len" && a.Op == "int" && a.I.Sign() <= 0 {
			return True
		}
		if b.Op == "int" && ba != nil && ao.Sign() != 0 {
			return Le(ba, IntB(new(big.Int).Sub(b.I, ao)))
		}
		if a.Op == "int" && bb != nil && bo.Sign() != 0 {
			return Le(IntB(new(big.Int).Sub(a.I, bo)), bb)
		}
	}
	return mk("<=", SBool, "", nil, nil, nil, a, b)
}
func Lt(a, b *Term) *Term {
	if a.Sort == SReal {
		if a == b {
			return False
		}
		if isConst(a) && isConst(b) {
			return BoolT(a.I.Cmp(b.I) < 0)
		}
		return mk("<", SBool, "", nil, nil, nil, a, b)
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Select(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	for n := 0; n < 200; n++ {
		switch a.Op {
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinctTerms(a.Args[1], i) || refsApart(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			if a.Args[1].Op == "store" || a.Args[2].Op == "store" {
				x, y := Select(a.Args[1], i), Select(a.Args[2], i)
				if x == y {
					return x
				}
			}
		}
		break
	}
	return mk("select", v, "", nil, nil, nil, a, i)
}

// refsApart is set by the executor to use knowledge about fresh references.
var refsApart = func(a, b *Term) bool { return false }

func Store(a, i, v *Term) *Term {
	k, ev := arrParts(a.Sort)
	if ev != v.Sort || k != i.Sort {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, "", nil, nil, nil, a, i, v)
}

func ConstArr(k Sort, v *Term) *Term {
	return mk("constarr", ArrSort(k, v.Sort), "", nil, nil, nil, v)
}

func quant(op string, bnd []*Term, body *Term, pats [][]*Term) *Term {
	if isConst(body) {
		return body
	}
	// drop unused bound variables
	used := map[*Term]bool{}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.fv || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "bvar" {
			used[t] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	var nb []*Term
	for _, b := range bnd {
		if used[b] {
			nb = append(nb, b)
		}
	}
	if len(nb) == 0 {
		return body
	}
	return mk(op, SBool, "", nil, nb, pats, body)
}
func Forall(bnd []*Term, body *Term, pats ...[]*Term) *Term { return quant("forall", bnd, body, pats) }
func Exists(bnd []*Term, body *Term, pats ...[]*Term) *Term { return quant("exists", bnd, body, pats) }

// strings

func StrCat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		var parts []*Term
		if a.Op == "str.++" {
			parts = a.Args
		} else {
			parts = []*Term{a}
		}
		for _, p := range parts {
			if p.Op == "str" && p.S == "" {
				continue
			}
			if n := len(out); n > 0 && p.Op == "str" && out[n-1].Op == "str" {
				out[n-1] = StrC(out[n-1].S + p.S)
				continue
			}
			// adjacent slices of the same string
			if n := len(out); n > 0 && p.Op == "str.substr" && out[n-1].Op == "str.substr" && p.Args[0] == out[n-1].Args[0] {
				q := out[n-1]
				if Add(q.Args[1], q.Args[2]) == p.Args[1] && p.Args[1] != nil && substrSafe(q) && substrSafe(p) {
					out[n-1] = mkSubstr(p.Args[0], q.Args[1], Add(q.Args[2], p.Args[2]))
					markSafe(out[n-1])
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return StrC("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("str.++", SStr, "", nil, nil, nil, out...)
}

// substrings known to be in bounds (0<=off, 0<=n, off+n<=len) on the path they
// were made on; only used for merging adjacent slices.
var safeSub = map[int]bool{}

func substrSafe(t *Term) bool { return safeSub[t.id] }
func markSafe(t *Term)        { safeSub[t.id] = true }

func mkSubstr(s, off, n *Term) *Term {
	return mk("str.substr", SStr, "", nil, nil, nil, s, off, n)
}

func StrLen(s *Term) *Term {
	switch s.Op {
	case "str":
		return Int(int64(len(s.S)))
	case "str.++":
		r := Int(0)
		for _, a := range s.Args {
			r = Add(r, StrLen(a))
		}
		return r
	}
	return mk("str.len", SInt, "", nil, nil, nil, s)
}

func StrSub(s, off, n *Term) *Term {
	if n.Op == "int" && n.I.Sign() <= 0 {
		return StrC("")
	}
	if off.Op == "int" && off.I.Sign() == 0 && n == StrLen(s) {
		return s
	}
	if s.Op == "str" && off.Op == "int" && n.Op == "int" && off.I.IsInt64() && n.I.IsInt64() {
		o, m := off.I.Int64(), n.I.Int64()
		if o < 0 || o > int64(len(s.S)) {
			return StrC("")
		}
		e := o + m
		if e > int64(len(s.S)) {
			e = int64(len(s.S))
		}
		return StrC(s.S[o:e])
	}
	return mkSubstr(s, off, n)
}

func StrAt(s, i *Term) *Term {
	if s.Op == "str" && i.Op == "int" && i.I.IsInt64() {
		k := i.I.Int64()
		if k >= 0 && k < int64(len(s.S)) {
			return StrC(s.S[k : k+1])
		}
		return StrC("")
	}
	return mk("str.at", SStr, "", nil, nil, nil, s, i)
}

func StrCode(c *Term) *Term {
	if c.Op == "str" && len(c.S) == 1 {
		return Int(int64(c.S[0]))
	}
	return mk("str.to_code", SInt, "", nil, nil, nil, c)
}

func StrPrefix(p, s *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return BoolT(strings.HasPrefix(s.S, p.S))
	}
	if p.Op == "str" && p.S == "" {
		return True
	}
	return mk("str.prefixof", SBool, "", nil, nil, nil, p, s)
}
func StrSuffix(p, s *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return BoolT(strings.HasSuffix(s.S, p.S))
	}
	if p.Op == "str" && p.S == "" {
		return True
	}
	return mk("str.suffixof", SBool, "", nil, nil, nil, p, s)
}
func StrIndex(s, t, from *Term) *Term {
	return mk("str.indexof", SInt, "", nil, nil, nil, s, t, from)
}

// bit vectors
func BVOp(op string, a, b *Term) *Term {
	if a.Op == "bv" && b.Op == "bv" {
		x, y := uint8(a.I.Int64()), uint8(b.I.Int64())
		switch op {
		case "bvor":
			return BV8(x | y)
		case "bvand":
			return BV8(x & y)
		case "bvxor":
			return BV8(x ^ y)
		case "bvadd":
			return BV8(x + y)
		case "bvsub":
			return BV8(x - y)
		}
	}
	return mk(op, SBV8, "", nil, nil, nil, a, b)
}
func BVNot(a *Term) *Term {
	if a.Op == "bv" {
		return BV8(^uint8(a.I.Int64()))
	}
	return mk("bvnot", SBV8, "", nil, nil, nil, a)
}
func BVUlt(a, b *Term) *Term {
	if a.Op == "bv" && b.Op == "bv" {
		return BoolT(a.I.Cmp(b.I) < 0)
	}
	return mk("bvult", SBool, "", nil, nil, nil, a, b)
}

// substitution of bound variables
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
			if substrSafe(t) {
				markSafe(r)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "str.++":
		return StrCat(a...)
	case "str.len":
		return StrLen(a[0])
	case "str.substr":
		return StrSub(a[0], a[1], a[2])
	case "str.at":
		return StrAt(a[0], a[1])
	case "str.to_code":
		return StrCode(a[0])
	case "str.prefixof":
		return StrPrefix(a[0], a[1])
	case "str.suffixof":
		return StrSuffix(a[0], a[1])
	case "bvor", "bvand", "bvxor", "bvadd", "bvsub":
		return BVOp(t.Op, a[0], a[1])
	case "bvnot":
		return BVNot(a[0])
	case "bvult":
		return BVUlt(a[0], a[1])
	case "forall", "exists":
		return quant(t.Op, t.Bnd, a[0], nil)
	}
	return mk(t.Op, t.Sort, t.S, t.I, t.Bnd, t.Pats, a...)
}

// printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c >= 32 && c < 127 && c != '\\':
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtName(n string) string { return "|" + n + "|" }

func smtAtom(t *Term) (string, bool) {
	switch t.Op {
	case "int":
		if t.I.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.I).String() + ")", true
		}
		return t.I.String(), true
	case "real":
		if t.I.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.I).String() + ".0)", true
		}
		return t.I.String() + ".0", true
	case "bool":
		return t.S, true
	case "str":
		return smtStr(t.S), true
	case "bv":
		return fmt.Sprintf("#x%02x", t.I.Int64()), true
	case "var", "bvar":
		return smtName(t.S), true
	case "app":
		if len(t.Args) == 0 {
			return smtName(t.S), true
		}
	}
	return "", false
}

// String prints without sharing (debugging).
func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if s, ok := smtAtom(t); ok {
		return s
	}
	if d > 12 {
		return "…"
	}
	var b strings.Builder
	switch t.Op {
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Bnd {
			b.WriteString("(" + v.S + " " + string(v.Sort) + ")")
		}
		b.WriteString(") " + t.Args[0].str(d+1) + ")")
		return b.String()
	case "app":
		b.WriteString("(" + t.S)
	default:
		b.WriteString("(" + t.Op)
	}
	for _, a := range t.Args {
		b.WriteString(" " + a.str(d+1))
	}
	b.WriteString(")")
	return b.String()
}

// Printer emits declarations and definitions incrementally.
type Printer struct {
	declared map[string]bool
	defined  map[*Term]string
	out      *strings.Builder
}

func NewPrinter(out *strings.Builder) *Printer {
	return &Printer{declared: map[string]bool{}, defined: map[*Term]string{}, out: out}
}

// prepare declares symbols and defines shared ground subterms of t.
func (p *Printer) prepare(ts ...*Term) {
	refs := map[*Term]int{}
	var order []*Term
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
		for _, ps := range t.Pats {
			for _, a := range ps {
				count(a)
			}
		}
		order = append(order, t)
	}
	for _, t := range ts {
		count(t)
	}
	for _, t := range order {
		switch t.Op {
		case "var":
			if !p.declared[t.S] {
				p.declared[t.S] = true
				fmt.Fprintf(p.out, "(declare-fun %s () %s)\n", smtName(t.S), t.Sort)
			}
		case "app":
			if !p.declared[t.S] {
				p.declared[t.S] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, string(a.Sort))
				}
				fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", smtName(t.S), strings.Join(as, " "), t.Sort)
			}
		}
		if refs[t] > 1 && !t.fv && len(t.Args) > 0 && p.defined[t] == "" {
			n := fmt.Sprintf("$t%d", t.id)
			s := p.expr(t)
			fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.Sort, s)
			p.defined[t] = n
		}
	}
}

func (p *Printer) expr(t *Term) string {
	if n := p.defined[t]; n != "" {
		return n
	}
	if s, ok := smtAtom(t); ok {
		return s
	}
	var b strings.Builder
	switch t.Op {
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Bnd {
			b.WriteString("(" + smtName(v.S) + " " + string(v.Sort) + ")")
		}
		b.WriteString(") ")
		body := p.expr(t.Args[0])
		if len(t.Pats) > 0 {
			b.WriteString("(! " + body)
			for _, ps := range t.Pats {
				b.WriteString(" :pattern (")
				for i, q := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.expr(q))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	case "constarr":
		return "((as const " + string(t.Sort) + ") " + p.expr(t.Args[0]) + ")"
	case "app":
		b.WriteString("(" + smtName(t.S))
	default:
		b.WriteString("(" + t.Op)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(p.expr(a))
	}
	b.WriteByte(')')
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
