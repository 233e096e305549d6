package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// Ground queries: assumptions and the negated goal are brought into negation
// normal form, existential variables are replaced by new constants, and
// universal ones are instantiated with the terms used as indexes. What remains
// has no quantifiers. Every step weakens what is assumed (or keeps it), so an
// unsatisfiable ground query proves the goal.

type grounder struct {
	fresh map[*Term]*Term
	alls  []*Term
}

func hasQuant(t *Term) bool {
	q, _ := traits(t)
	return q
}

// nnf rewrites t (or its negation) so that quantifiers only occur positively.
func (g *grounder) nnf(t *Term, pos bool) *Term {
	lit := func(t *Term) *Term {
		if pos {
			return t
		}
		return Not(t)
	}
	if !hasQuant(t) {
		return lit(t)
	}
	switch t.Op {
	case "not":
		return g.nnf(t.Args[0], !pos)
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, g.nnf(a, pos))
		}
		if (t.Op == "and") == pos {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		if pos {
			return Or(g.nnf(t.Args[0], false), g.nnf(t.Args[1], true))
		}
		return And(g.nnf(t.Args[0], true), g.nnf(t.Args[1], false))
	case "=":
		a, b := t.Args[0], t.Args[1]
		if a.Sort != SBool {
			break
		}
		if pos {
			return And(Or(g.nnf(a, false), g.nnf(b, true)), Or(g.nnf(b, false), g.nnf(a, true)))
		}
		return And(Or(g.nnf(a, true), g.nnf(b, true)), Or(g.nnf(a, false), g.nnf(b, false)))
	case "ite":
		if t.Sort != SBool {
			break
		}
		return And(Or(g.nnf(t.Args[0], false), g.nnf(t.Args[1], pos)), Or(g.nnf(t.Args[0], true), g.nnf(t.Args[2], pos)))
	case "forall", "exists":
		if (t.Op == "forall") == pos {
			return quant("forall", t.Bnd, g.nnf(t.Args[0], pos), nil)
		}
		if t.fv {
			return True // under another quantifier: dropped
		}
		m := map[*Term]*Term{}
		for _, v := range t.Bnd {
			m[v] = g.skolem(t, v)
		}
		return g.nnf(Subst(t.Args[0], m), pos)
	}
	return True // dropped
}

var skolemMemo = map[[2]*Term]*Term{}

func (g *grounder) skolem(q, v *Term) *Term {
	k := [2]*Term{q, v}
	if c, ok := skolemMemo[k]; ok {
		return c
	}
	c := Fresh("sk", v.Sort)
	skolemMemo[k] = c
	return c
}

func conj(t *Term, out []*Term) []*Term {
	if t.Op == "and" {
		for _, a := range t.Args {
			out = conj(a, out)
		}
		return out
	}
	if t != True {
		out = append(out, t)
	}
	return out
}

// indexTerms collects the ground terms used as indexes of slices, without the
// offset of the slice.
type indexTerms struct {
	seen map[int]bool
	rel  map[*Term]int
	n    int
}

func (ix *indexTerms) add(t *Term) {
	if t.fv || t.Op == "ite" {
		return
	}
	if _, ok := ix.rel[t]; !ok {
		ix.rel[t] = ix.n
		ix.n++
	}
}

func (ix *indexTerms) scan(t *Term) {
	if ix.seen[t.id] {
		return
	}
	ix.seen[t.id] = true
	switch t.Op {
	case "select":
		i := t.Args[1]
		if isElems(t.Args[0]) {
			ix.index(i)
		}
	case "app":
		if f := ufByName[t.S]; f != nil {
			for _, a := range t.Args {
				if a.Sort == SInt && !a.fv && (a.Op == "var" || a.Op == "+" || a.Op == "-" || a.Op == "int") && !isOffset(a) {
					ix.add(a)
				}
			}
		}
		if len(t.Args) == 0 && t.Sort == SInt && strings.HasPrefix(t.S, "spec:") {
			ix.add(t)
		}
	case "var":
		if t.Sort == SInt && isSkolem(t) {
			ix.add(t)
		}
	}
	for _, a := range t.Args {
		ix.scan(a)
	}
}

// index adds an index without the offset.
func (ix *indexTerms) index(i *Term) {
	if i.fv {
		return
	}
	var parts []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == "+" {
			for _, a := range t.Args {
				rec(a)
			}
			return
		}
		parts = append(parts, t)
	}
	rec(i)
	r := Int(0)
	found := false
	for _, p := range parts {
		if !found && isOffset(p) {
			found = true
			continue
		}
		r = Add(r, p)
	}
	ix.add(r)
}

const maxInst, maxIdx = 600, 14

// inst replaces universal quantifiers by their instances.
func (g *grounder) inst(t *Term, ts []*Term, n *int) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.Op {
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, g.inst(a, ts, n))
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "forall":
		if t.fv || len(t.Bnd) > 2 {
			return True
		}
		for _, v := range t.Bnd {
			if v.Sort != SInt {
				return True
			}
		}
		var out []*Term
		var rec func(i int, m map[*Term]*Term)
		rec = func(i int, m map[*Term]*Term) {
			if *n > maxInst {
				return
			}
			if i == len(t.Bnd) {
				*n++
				b := Subst(t.Args[0], m)
				out = append(out, g.inst(b, ts, n))
				return
			}
			for _, c := range ts {
				m[t.Bnd[i]] = c
				rec(i+1, m)
			}
			delete(m, t.Bnd[i])
		}
		rec(0, map[*Term]*Term{})
		return And(out...)
	}
	return True
}

// renderGround makes the ground query, or "" if there are no quantifiers.
func renderGround(pc []*Term, goal *Term) string {
	lightMu.Lock()
	defer lightMu.Unlock()
	any := hasQuant(goal)
	for _, t := range pc {
		any = any || hasQuant(t)
	}
	if !any {
		return ""
	}
	g := &grounder{}
	goals := conj(g.nnf(goal, false), nil)
	ts := goals
	for _, t := range pc {
		ts = conj(g.nnf(t, true), ts)
	}
	// definitions of recursive functions and of sequences
	seqs := seqAxioms(append(append([]*Term{}, ts...), unfoldAll(groundOf(ts))...))
	for _, t := range seqs {
		ts = conj(g.nnf(t, true), ts)
	}
	var out []*Term
	var insts []*Term
	ix := &indexTerms{rel: map[*Term]int{}}
	for round := 0; round < 2; round++ {
		ix.seen = map[int]bool{}
		for _, t := range goals {
			ix.scan(t)
		}
		for _, t := range insts {
			ix.scan(t)
		}
		for _, t := range ts {
			ix.scan(t)
		}
		idx := make([]*Term, 0, len(ix.rel))
		for t := range ix.rel {
			idx = append(idx, t)
		}
		sort.Slice(idx, func(i, j int) bool { return ix.rel[idx[i]] < ix.rel[idx[j]] })
		if groundLog {
			fmt.Fprintln(os.Stderr, "GROUND", clip(goal.String(), 200))
			for _, t := range idx {
				fmt.Fprintln(os.Stderr, "   idx", clip(t.String(), 200))
			}
		}
		if len(idx) > maxIdx {
			idx = idx[:maxIdx]
		}
		n := 0
		insts = nil
		out = nil
		for _, t := range ts {
			if !hasQuant(t) {
				out = append(out, t)
				continue
			}
			insts = conj(g.inst(t, idx, &n), insts)
		}
		out = append(out, insts...)
	}
	return renderTerms(out, false)
}

func groundOf(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if !hasQuant(t) {
			out = append(out, t)
		}
	}
	return out
}

func rootName(t *Term) string {
	for {
		switch t.Op {
		case "select", "store":
			t = t.Args[0]
		case "ite":
			t = t.Args[1]
		case "var":
			return t.S
		default:
			return ""
		}
	}
}

func isOffset(t *Term) bool {
	if t.Sort != SInt || t.Op != "var" && t.Op != "select" {
		return false
	}
	return strings.Contains(rootName(t), "#off")
}

func isSkolem(t *Term) bool { return strings.HasPrefix(t.S, "sk!") }

// isElems: t is the array of a slice's elements
func isElems(t *Term) bool {
	if !strings.Contains(rootName(t), ":E:") {
		return false
	}
	_, v := arrParts(t.Sort)
	return !strings.HasPrefix(string(v), "(Array")
}

var groundLog = os.Getenv("GV_GROUNDLOG") != ""
