package nanomux

import "net/http"

// C11, C12: how a request goes down the tree and back up.

// what registration guarantees about a responder's children
func goodChildren(rb *_ResponderBase) bool {
	return forall(0, len(rb.patternResources), func(k int) bool {
		return rb.patternResources[k] != nil && rb.patternResources[k].tmpl != nil && wellFormed(rb.patternResources[k].tmpl) && rb.patternResources[k].requestReceiver != nil
	}) && implies(rb.wildcardResource != nil, rb.wildcardResource.tmpl != nil && wellFormed(rb.wildcardResource.tmpl) && rb.wildcardResource.requestReceiver != nil)
}

// childMatches: the k-th pattern child matches a segment when the request has
// the values given
func childMatches(rb *_ResponderBase, k int, s string, vs TemplateValues) bool {
	return matches(rb.patternResources[k].tmpl.slices, rb.patternResources[k].tmpl.wildcardIdx, s, vs)
}

//gv:contract (*_ResponderBase).passRequest
//gv:ghost anyEntry anyChild
//gv:prop C11 C12 C25
func ct_passRequest(rb *_ResponderBase, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(rb != nil && args != nil && w != nil && r != nil)
	requires("range", inRange(args))
	requires("children", goodChildren(rb))
	requires(notFoundResourceHandler != nil)
	i := old(args.currentPathSegmentIdx)
	ps := segment(args.path, args.rawPath, i)
	st := rb.staticResources[ps]
	requires("static child", implies(st != nil, st.requestReceiver != nil))
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	c, q, g0 := anyChild(), anyEntry(), old(args.hostPathValues)
	bad := undecodable(args.path, args.rawPath, i)
	n := len(rb.patternResources)
	down := ps != "" && !bad
	chosen := 0 <= c && c < n && old(childMatches(rb, c, ps, g0)) && forall(0, c, func(j int) bool { return !old(childMatches(rb, j, ps, g0)) })
	none := forall(0, n, func(j int) bool { return !old(childMatches(rb, j, ps, g0)) })
	one := nev() == 1 && evIs(0, "nanomux.Handler", whatever, w, r, args) && res == evRet[bool](0) && args.handled == res && at(0, args.currentPathSegmentIdx) == nextPos(args.path, i)
	h := evArg[Handler](0, 0)
	ensures("undecodable segment", implies(bad, nev() == 1 && evIs(0, "net/http.Error", w, http.StatusText(400), 400) && res && args.handled))
	ensures("static child", implies(down && st != nil, one && refEq(h, st.requestReceiver) && at(0, args._r) == st.derived && at(0, sameSlice(args.hostPathValues, g0))))
	ensures("first pattern child that matches", implies(down && st == nil && chosen, one && refEq(h, rb.patternResources[c].requestReceiver) && at(0, args._r) == rb.patternResources[c].derived))
	ensures("wildcard child", implies(down && st == nil && none && rb.wildcardResource != nil, one && refEq(h, rb.wildcardResource.requestReceiver) && at(0, args._r) == rb.wildcardResource.derived))
	ensures("given values are kept", implies(down && one && 0 <= q && q < len(g0), at(0, len(args.hostPathValues) >= len(g0) && args.hostPathValues[q].key == old(g0[q].key) && args.hostPathValues[q].value == old(g0[q].value))))
	unhandled := !bad && (ps == "" || st == nil && none && rb.wildcardResource == nil)
	ensures("left to the subtree handler", implies(unhandled && old(args.subtreeExists), nev() == 0 && !res))
	ensures("not found", implies(unhandled && !old(args.subtreeExists), nev() == 1 && evIs(0, "nanomux.Handler", old(notFoundResourceHandler), w, r, args) && res == evRet[bool](0)))
	ensures("position", args.currentPathSegmentIdx == i)
	ensures("kept", kept(args))
	invariant("tried", func(rangeindex int) bool {
		return sameSlice(args.hostPathValues, g0) && forall(0, rangeindex+1, func(j int) bool { return !old(childMatches(rb, j, ps, g0)) })
	})
	invariant("given", func(rangeindex int) bool {
		return forall(0, len(g0), func(q int) bool { return g0[q].key == old(g0[q].key) && g0[q].value == old(g0[q].value) })
	})
	return
}

//gv:nodef
func anyChild() int { return 0 }
