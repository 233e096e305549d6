package nanomux

import (
	"net"
	"net/http"
	"strings"
)

// C15: which host or resource the router passes a request to.

// hostOf: the host name a request is made to, without a port
func hostOf(r *http.Request) string {
	h := ite(r.Host == "", r.URL.Host, r.Host)
	return ite(strings.LastIndexByte(h, ':') >= 0 && third(net.SplitHostPort(h)) == nil, first3(net.SplitHostPort(h)), h)
}

// what registration guarantees about the router's hosts and root resource
func goodHosts(ro *Router) bool {
	return forall(0, len(ro.patternHosts), func(k int) bool {
		return ro.patternHosts[k] != nil && ro.patternHosts[k].tmpl != nil && wellFormed(ro.patternHosts[k].tmpl) && ro.patternHosts[k].requestReceiver != nil
	}) && implies(ro.r != nil, ro.r.requestReceiver != nil)
}

func hostMatches(ro *Router, k int, s string, vs TemplateValues) bool {
	return matches(ro.patternHosts[k].tmpl.slices, ro.patternHosts[k].tmpl.wildcardIdx, s, vs)
}

//gv:contract (*Router).passRequest
//gv:ghost anyChild
//gv:prop C15 C25
func ct_Router_passRequest(ro *Router, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(ro != nil && args != nil && w != nil && r != nil && r.URL != nil)
	requires("range", inRange(args))
	requires("hosts", goodHosts(ro))
	requires(notFoundResourceHandler != nil)
	host := old(hostOf(r))
	st := ro.staticHosts[host]
	requires("static host", implies(st != nil, st.requestReceiver != nil))
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	c, g0, i := anyChild(), old(args.hostPathValues), old(args.currentPathSegmentIdx)
	n := len(ro.patternHosts)
	named := old(ite(r.Host == "", r.URL.Host, r.Host)) != "" // the request has a host
	chosen := 0 <= c && c < n && old(hostMatches(ro, c, host, g0)) && forall(0, c, func(j int) bool { return !old(hostMatches(ro, j, host, g0)) })
	none := forall(0, n, func(j int) bool { return !old(hostMatches(ro, j, host, g0)) })
	one := nev() == 1 && evIs(0, "nanomux.Handler", whatever, w, r, args) && res == evRet[bool](0) && args.handled == res
	h := evArg[Handler](0, 0)
	unnamed := !named || st == nil && none
	ensures("static host", implies(named && st != nil, one && refEq(h, st.requestReceiver) && at(0, args._r) == st.derived && at(0, args.currentPathSegmentIdx) == i && at(0, sameSlice(args.hostPathValues, g0))))
	ensures("first pattern host that matches", implies(named && st == nil && chosen, one && refEq(h, ro.patternHosts[c].requestReceiver) && at(0, args._r) == ro.patternHosts[c].derived && at(0, args.currentPathSegmentIdx) == i))
	ensures("root resource", implies(unnamed && ro.r != nil && old(r.URL.Path) != "", one && refEq(h, ro.r.requestReceiver) && at(0, args._r) == ro.r.derived && at(0, args.currentPathSegmentIdx) == nextPos(args.path, i)))
	ensures("not found", implies(unnamed && (ro.r == nil || old(r.URL.Path) == ""), one && refEq(h, old(notFoundResourceHandler))))
	invariant("tried", func(rangeindex int) bool {
		return sameSlice(args.hostPathValues, g0) && forall(0, rangeindex+1, func(j int) bool { return !old(hostMatches(ro, j, host, g0)) })
	})
	invariant("given", func(rangeindex int) bool {
		return forall(0, len(g0), func(q int) bool { return g0[q].key == old(g0[q].key) && g0[q].value == old(g0[q].value) })
	})
	ensures("range", inRange(args))
	return
}
