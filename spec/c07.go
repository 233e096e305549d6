package nanomux

import (
	"net/http"
	"strings"
)

// C07: dispatch by the request's HTTP method.

// what registration guarantees about a table of methods
func goodTable(p _MethodHandlerPairs) bool {
	return ascending(p, 0, len(p)) && forall(0, len(p), func(k int) bool { return p[k].handler != nil })
}

// methodList: the first n methods separated by ", "
func methodList(p _MethodHandlerPairs, n int) string {
	if n <= 0 {
		return ""
	}
	if n == 1 {
		return p[0].method
	}
	return methodList(p, n-1) + ", " + p[n-1].method
}

//gv:contract (*_RequestHandlerBase).allowedHTTPMethods
//gv:prop C07
func ct_allowedHTTPMethods(rhb *_RequestHandlerBase) (s string) {
	requires(rhb != nil)
	requires("no empty methods", forall(0, len(rhb.mhPairs), func(k int) bool { return rhb.mhPairs[k].method != "" }))
	ensures("every method once", s == methodList(rhb.mhPairs, len(rhb.mhPairs)))
	invariant("listed", func(rangeindex int, strb strings.Builder) bool {
		return built(strb) == methodList(rhb.mhPairs, rangeindex+1) && iff(rangeindex >= 0, built(strb) != "")
	})
	terminates()
	return
}

//gv:contract (*_RequestHandlerBase).AllowedHTTPMethods
//gv:opaque
//gv:prop C07 C06
func ct_AllowedHTTPMethods(rhb *_RequestHandlerBase) (ms []string) {
	ensures("no handlers", implies(rhb == nil, len(ms) == 0))
	ensures("count", implies(rhb != nil, len(ms) == len(rhb.mhPairs)))
	invariant("listed", func(rangeindex int, ms []string) bool {
		return len(ms) == rangeindex+1 && forall(0, len(ms), func(k int) bool { return ms[k] == rhb.mhPairs[k].method })
	})
	ensures("methods", implies(rhb != nil, forall(0, len(ms), func(k int) bool { return ms[k] == rhb.mhPairs[k].method })))
	terminates()
	return
}

//gv:contract (*_RequestHandlerBase).handleRequest
//gv:prop C07 C25
func ct_handleRequest(rhb *_RequestHandlerBase, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(args != nil && w != nil && r != nil)
	requires("table", implies(rhb != nil, goodTable(rhb.mhPairs)))
	requires("no empty methods", implies(rhb != nil, forall(0, len(rhb.mhPairs), func(k int) bool { return rhb.mhPairs[k].method != "" })))
	requires(notFoundResourceHandler != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	none := rhb == nil || len(rhb.mhPairs) == 0
	is := implies(rhb != nil, exists(0, len(rhb.mhPairs), func(k int) bool { return rhb.mhPairs[k].method == r.Method }))
	one := nev() == 1 && evIs(0, "nanomux.Handler", whatever, w, r, args) && res == evRet[bool](0)
	h := evArg[Handler](0, 0)
	ensures("without handlers: not found", implies(none, one && refEq(h, notFoundResourceHandler)))
	ensures("handler of the method", implies(!none && is, one && holds(rhb.mhPairs, 0, len(rhb.mhPairs), r.Method, h)))
	ensures("handler of not allowed methods", implies(!none && !is && rhb.notAllowedHTTPMethodHandler != nil, one && refEq(h, rhb.notAllowedHTTPMethodHandler)))
	ensures("default for not allowed methods", implies(!none && !is && rhb.notAllowedHTTPMethodHandler == nil,
		nev() == 3 && evIs(0, "(net/http.ResponseWriter).Header", w) &&
			evIs(1, "(net/http.Header).Add", evRet[http.Header](0), "Allow", methodList(rhb.mhPairs, len(rhb.mhPairs))) &&
			evIs(2, "net/http.Error", w, http.StatusText(405), 405) && res))
	return
}

//gv:contract (*_RequestHandlerBase).handleOptionsHTTPMethod
//gv:prop C07 C25
func ct_handleOptions(rhb *_RequestHandlerBase, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(rhb != nil && w != nil)
	requires("no empty methods", forall(0, len(rhb.mhPairs), func(k int) bool { return rhb.mhPairs[k].method != "" }))
	ensures("lists the methods", nev() == 3 && evIs(0, "(net/http.ResponseWriter).Header", w) &&
		evIs(1, "(net/http.Header).Add", evRet[http.Header](0), "Allow", methodList(rhb.mhPairs, len(rhb.mhPairs))) &&
		evIs(2, "(net/http.ResponseWriter).WriteHeader", w, 200) && res)
	return
}

func noEmptyMethods(p _MethodHandlerPairs) bool {
	return forall(0, len(p), func(k int) bool { return p[k].method != "" })
}

//gv:contract (*_RequestHandlerBase).setHandlerFor
//gv:opaque
//gv:ghost anyMethod anyHandler anyIndex
//gv:prop C07 C06
func ct_setHandlerFor(rhb *_RequestHandlerBase, methods string, h Handler) (err error) {
	requires(rhb != nil)
	requires("table", goodTable(rhb.mhPairs) && noEmptyMethods(rhb.mhPairs))
	modifies(rhb.mhPairs, rhb.notAllowedHTTPMethodHandler, elems(rhb.mhPairs))
	n := listedCount(methods)
	m, f, k := anyMethod(), anyHandler(), anyIndex()
	bang := n == 1 && listed(methods, 0) == "!"
	p := rhb.mhPairs
	ensures("fails without a handler or a method", iff(err != nil, h == nil || n == 0))
	ensures("errors", implies(h == nil, errIs(err, errNilArgument)) && implies(h != nil && n == 0, errIs(err, errNoHTTPMethod)))
	ensures("failing changes nothing", implies(err != nil || bang, iff(holds(p, 0, len(p), m, f), old(holds(p, 0, len(p), m, f))) && len(p) == old(len(p))))
	ensures("not allowed methods", implies(err == nil && bang, refEq(rhb.notAllowedHTTPMethodHandler, h)))
	ensures("not allowed methods kept", implies(err != nil || !bang, refEq(rhb.notAllowedHTTPMethodHandler, old(rhb.notAllowedHTTPMethodHandler))))
	ensures("listed methods", implies(err == nil && !bang && 0 <= k && k < n, holds(p, 0, len(p), listed(methods, k), h)))
	ensures("other methods", implies(err == nil && !bang && m != "OPTIONS" && forall(0, n, func(q int) bool { return listed(methods, q) != m }),
		iff(holds(p, 0, len(p), m, f), old(holds(p, 0, len(p), m, f)))))
	ensures("OPTIONS is handled", implies(err == nil && !bang, hasMethod(p, 0, len(p), "OPTIONS")))
	ensures("OPTIONS is kept", implies(err == nil && !bang && m == "OPTIONS" && old(holds(p, 0, len(p), m, f)) && f != nil && forall(0, n, func(q int) bool { return listed(methods, q) != m }),
		holds(p, 0, len(p), m, f)))
	ensures("ascending|ascending", ascending(p, 0, len(p)))
	ensures("handlers|entries,handlers", forall(0, len(p), func(k int) bool { return p[k].handler != nil }))
	ensures("methods|entries,methods", noEmptyMethods(p))
	invariant("array", func(rangeindex int) bool { return refEq(rhb.mhPairs, old(rhb.mhPairs)) || newObj(rhb.mhPairs) })
	invariant("ascending|ascending", func(rangeindex int) bool { return ascending(rhb.mhPairs, 0, len(rhb.mhPairs)) })
	invariant("handlers|entries,handlers", func(rangeindex int) bool {
		return forall(0, len(rhb.mhPairs), func(k int) bool { return rhb.mhPairs[k].handler != nil })
	})
	invariant("methods|entries,methods,no empty parts", func(rangeindex int) bool { return noEmptyMethods(rhb.mhPairs) })
	invariant("listed", func(rangeindex int, ms []string) bool {
		return implies(0 <= k && k <= rangeindex && k < n, holds(rhb.mhPairs, 0, len(rhb.mhPairs), ms[k], h))
	})
	invariant("others", func(rangeindex int, ms []string) bool {
		return implies(forall(0, rangeindex+1, func(q int) bool { return ms[q] != m }),
			iff(holds(rhb.mhPairs, 0, len(rhb.mhPairs), m, f), old(holds(rhb.mhPairs, 0, len(rhb.mhPairs), m, f))))
	})
	terminates()
	return
}

//gv:contract (*_RequestHandlerBase).handlerOf
//gv:opaque
//gv:ghost anyIndex
//gv:prop C07 C06
func ct_handlerOf(rhb *_RequestHandlerBase, method string) (h Handler) {
	requires(rhb != nil)
	requires("ascending", ascending(rhb.mhPairs, 0, len(rhb.mhPairs)))
	panics(listedCount(method) == 0)
	m := listed(method, 0)
	p := rhb.mhPairs
	ensures("not allowed methods", implies(m == "!", h != nil && implies(rhb.notAllowedHTTPMethodHandler != nil, refEq(h, rhb.notAllowedHTTPMethodHandler))))
	ensures("set", implies(m != "!" && h != nil, holds(p, 0, len(p), m, h)))
	ensures("not set", implies(m != "!" && h == nil, forall(0, len(p), func(k int) bool { return implies(p[k].method == m, p[k].handler == nil) })))
	terminates()
	return
}
