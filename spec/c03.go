package nanomux

import "strings"

// C03: a template matches exactly the strings its segments describe.

func isStaticSeg(s _TemplateSegment) bool { return s.staticStr != "" }

// wellFormed: what parsing guarantees of a template
//
//gv:sealed
func wellFormed(t *Template) bool {
	return -1 <= t.wildcardIdx && t.wildcardIdx < len(t.slices) &&
		forall(0, len(t.slices), func(k int) bool {
			return implies(t.slices[k].staticStr == "", t.slices[k].valuePattern != nil && implies(k != t.wildcardIdx, t.slices[k].valuePattern.re != nil)) &&
				implies(k == t.wildcardIdx, t.slices[k].staticStr == "")
		})
}

// headLen: how much of s a segment takes at its start
func headLen(g _TemplateSegment, s string) int {
	return ite(g.staticStr != "", len(g.staticStr), reEnd(g.valuePattern.re, s))
}

func headFits(g _TemplateSegment, s string) bool {
	return ite(g.staticStr != "", strings.HasPrefix(s, g.staticStr), reMatch(g.valuePattern.re, s))
}

// tailStart: where the part of s starts that a segment takes at its end
func tailStart(g _TemplateSegment, s string) int {
	return ite(g.staticStr != "", len(s)-len(g.staticStr), reStart(g.valuePattern.re, s))
}

func tailFits(g _TemplateSegment, s string) bool {
	return ite(g.staticStr != "", strings.HasSuffix(s, g.staticStr), reCount(g.valuePattern.re, s) == 1)
}

// front: what remains of s after its first i segments
func front(g []_TemplateSegment, s string, i int) string {
	if i <= 0 {
		return s
	}
	return front(g, s, i-1)[headLen(g[i-1], front(g, s, i-1)):]
}

// frontFits: the first n segments fit
func frontFits(g []_TemplateSegment, s string, n int) bool {
	return forall(0, n, func(j int) bool { return headFits(g[j], front(g, s, j)) })
}

// back: what remains of s before its last n-i segments
func back(g []_TemplateSegment, s string, i int) string {
	if i >= len(g) {
		return s
	}
	return back(g, s, i+1)[:tailStart(g[i], back(g, s, i+1))]
}

// backFits: the segments from n on fit
func backFits(g []_TemplateSegment, s string, n int) bool {
	return forall(n, len(g), func(j int) bool { return tailFits(g[j], back(g, s, j+1)) })
}

// frontEnd: how many segments are matched from the start
func frontEnd(t *Template) int { return ite(t.wildcardIdx >= 0, t.wildcardIdx, len(t.slices)) }

// middle: what remains for the wildcard
func middle(t *Template, s string) string {
	return ite(t.wildcardIdx >= 0, back(t.slices, front(t.slices, s, frontEnd(t)), t.wildcardIdx+1), front(t.slices, s, frontEnd(t)))
}

// fits: every segment fits and nothing remains without a wildcard
//
//gv:sealed
func fits(t *Template, s string) bool {
	return frontFits(t.slices, s, frontEnd(t)) &&
		implies(t.wildcardIdx >= 0, backFits(t.slices, front(t.slices, s, frontEnd(t)), t.wildcardIdx+1)) &&
		implies(t.wildcardIdx < 0, middle(t, s) == "")
}

// textOf: the text of the i-th segment
func textOf(t *Template, s string, i int) string {
	return ite(i < frontEnd(t), front(t.slices, s, i)[:headLen(t.slices[i], front(t.slices, s, i))],
		ite(i == t.wildcardIdx, middle(t, s),
			back(t.slices, front(t.slices, s, frontEnd(t)), i+1)[tailStart(t.slices[i], back(t.slices, front(t.slices, s, frontEnd(t)), i+1)):]))
}

// an arbitrary assignment of texts to names, and arbitrary indexes
//
//gv:nodef
func anyText(name string) string { return "" }

//gv:nodef
func anySeg() int { return 0 }

//gv:nodef
func anyEntry() int { return 0 }

// agreed: the arbitrary assignment gives the names the texts of the segments
// and the values given
func agreed(t *Template, s string, vs TemplateValues) bool {
	return agreedFront(t.slices, s, frontEnd(t)) && implies(t.wildcardIdx >= 0, agreedBack(t.slices, front(t.slices, s, frontEnd(t)), t.wildcardIdx+1)) && agreedValues(vs, 0)
}

func agreedFront(g []_TemplateSegment, s string, n int) bool {
	return forall(0, n, func(i int) bool {
		return implies(g[i].staticStr == "", front(g, s, i)[:reEnd(g[i].valuePattern.re, front(g, s, i))] == anyText(g[i].valuePattern.name))
	})
}

func agreedBack(g []_TemplateSegment, s string, n int) bool {
	return forall(n, len(g), func(i int) bool {
		return implies(g[i].staticStr == "", back(g, s, i+1)[reStart(g[i].valuePattern.re, back(g, s, i+1)):] == anyText(g[i].valuePattern.name))
	})
}

func agreedValues(vs TemplateValues, n int) bool {
	return forall(n, len(vs), func(q int) bool { return vs[q].value == anyText(vs[q].key) })
}

//gv:nodef
func matches(g []_TemplateSegment, wildcard int, s string, vs TemplateValues) bool { return false }

//gv:contract (*Template).Match
//gv:unseal wellFormed fits
//gv:manual
//gv:ghost anyEntry
//gv:prop C03
func ct_Match(t *Template, str string, values TemplateValues) (ok bool, vs TemplateValues) {
	requires(t != nil)
	requires("well-formed", wellFormed(t))
	modifies(elems(values))
	s0 := old(str)
	q, g0 := anyEntry(), old(values)
	deterministic("by segments, text and given values", ok == old(matches(t.slices, t.wildcardIdx, str, values)))
	ensures("matches only what fits|matched from the start,matched from the end,well-formed", implies(ok, fits(t, s0)))
	ensures("values are kept if it doesn't match|own", implies(!ok, sameSlice(vs, g0)))
	ensures("given values are kept|kept,given,own", len(vs) >= len(g0) && implies(0 <= q && q < len(g0), vs[q].key == old(g0[q].key) && vs[q].value == old(g0[q].value)))
	ensures("entries are kept if it doesn't match|given,own", implies(!ok, forall(0, len(g0), func(q int) bool { return g0[q].key == old(g0[q].key) && g0[q].value == old(g0[q].value) })))
	invariant("kept|kept,own,given", func(i int, values TemplateValues) bool {
		return len(values) >= len(g0) && forall(0, len(g0), func(q int) bool {
			return values[q].key == old(g0[q].key) && values[q].value == old(g0[q].value)
		})
	})
	invariant("given|kept,own,given", func(i int) bool {
		return forall(0, len(g0), func(q int) bool { return g0[q].key == old(g0[q].key) && g0[q].value == old(g0[q].value) })
	})
	invariant("own|own", func(i int, values TemplateValues) bool {
		return values == nil || sameArray(values, g0) || newObj(values)
	})
	invariant("matched from the start|matched from the start,well-formed", func(i int, k int, str string) bool {
		return 0 <= i && i <= k && k == frontEnd(t) && str == front(t.slices, s0, i) && frontFits(t.slices, s0, i)
	})
	invariant("matched from the end|matched from the start,matched from the end,well-formed", func(i int, k int, str string) bool {
		return ite(t.wildcardIdx >= 0, k <= i, k-1 == i) && i < len(t.slices) && k == frontEnd(t) && frontFits(t.slices, s0, k) &&
			str == back(t.slices, front(t.slices, s0, k), i+1) && backFits(t.slices, front(t.slices, s0, k), i+1)
	})
	ensures("own|own", vs == nil || sameArray(vs, g0) || newObj(vs))
	terminates()
	return
}

// Every string that fits is matched if the texts of segments with the same
// name, and the values given, agree.
//
//gv:contract (*Template).Match
//gv:unseal wellFormed fits
//gv:manual
//gv:unseal wellFormed fits
//gv:local
//gv:prop C03
func ct_MatchAll(t *Template, str string, values TemplateValues) (ok bool, vs TemplateValues) {
	requires(t != nil)
	requires("well-formed", wellFormed(t))
	requires("agreed front", agreedFront(t.slices, str, frontEnd(t)))
	requires("agreed back", implies(t.wildcardIdx >= 0, agreedBack(t.slices, front(t.slices, str, frontEnd(t)), t.wildcardIdx+1)))
	requires("agreed values", agreedValues(values, 0))
	modifies(elems(values))
	s0 := old(str)
	ensures("matches what fits|matched from the start,matched from the end,agreed,found,agreed front,agreed back,well-formed", implies(fits(t, s0), ok))
	invariant("matched from the start|matched from the start,well-formed", func(i int, k int, str string) bool {
		return 0 <= i && i <= k && k == frontEnd(t) && str == front(t.slices, s0, i) && frontFits(t.slices, s0, i)
	})
	invariant("matched from the end|matched from the start,matched from the end,well-formed", func(i int, k int, str string) bool {
		return ite(t.wildcardIdx >= 0, k <= i, k-1 == i) && i < len(t.slices) && k == frontEnd(t) && frontFits(t.slices, s0, k) &&
			str == back(t.slices, front(t.slices, s0, k), i+1) && backFits(t.slices, front(t.slices, s0, k), i+1)
	})
	invariant("agreed|agreed,agreed values,matched from the start,matched from the end,agreed front,agreed back,well-formed,not found", func(i int, values TemplateValues) bool { return agreedValues(values, 0) })
	return
}
