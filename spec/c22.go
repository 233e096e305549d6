package nanomux

import (
	"context"
	"net/http"
)

// C22: adapters. The functions below only call the real adapters and what
// they return.

func drv_Hr(h http.Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	return Hr(h)(w, r, args)
}

//gv:contract drv_Hr
//gv:prop C22 C25
func ct_drvHr(h http.Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(h != nil && r != nil && args != nil)
	requires(ownRequest(r, args))
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("calls it once", nev() == 1 && evIs(0, "(net/http.Handler).ServeHTTP", h, w, r))
	ensures("handled", res)
	ensures("kept", kept(args))
	return
}

func drv_FnHr(hf http.HandlerFunc, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	return FnHr(hf)(w, r, args)
}

//gv:contract drv_FnHr
//gv:prop C22 C25
func ct_drvFnHr(hf http.HandlerFunc, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(hf != nil && r != nil && args != nil)
	requires(ownRequest(r, args))
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("calls it once", nev() == 1 && evIs(0, "net/http.HandlerFunc", hf, w, r))
	ensures("handled", res)
	ensures("kept", kept(args))
	return
}

// sameBut: the request is the given one with another context
func sameBut(a, b *http.Request) bool {
	return a != nil && a.Method == b.Method && a.URL == b.URL && a.Host == b.Host && a.TLS == b.TLS && a.RequestURI == b.RequestURI
}

func drv_HrWithArgs(h http.Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	return HrWithArgs(h)(w, r, args)
}

//gv:contract drv_HrWithArgs
//gv:prop C22 C25
func ct_drvHrWithArgs(h http.Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(h != nil && r != nil && args != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("calls it once", nev() == 1 && evIs(0, "(net/http.Handler).ServeHTTP", h, w))
	ensures("with the arguments", at(0, carried(evArg[*http.Request](0, 2))) == args)
	ensures("the same request", at(0, sameBut(evArg[*http.Request](0, 2), r)))
	ensures("handled", res)
	ensures("kept", kept(args))
	return
}

func drv_FnHrWithArgs(hf http.HandlerFunc, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	return FnHrWithArgs(hf)(w, r, args)
}

//gv:contract drv_FnHrWithArgs
//gv:prop C22 C25
func ct_drvFnHrWithArgs(hf http.HandlerFunc, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(hf != nil && r != nil && args != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("calls it once", nev() == 1 && evIs(0, "net/http.HandlerFunc", hf, w))
	ensures("with the arguments", at(0, carried(evArg[*http.Request](0, 2))) == args)
	ensures("the same request", at(0, sameBut(evArg[*http.Request](0, 2), r)))
	ensures("handled", res)
	ensures("kept", kept(args))
	return
}

// ArgsFrom gives back what a request carries.
//
//gv:contract ArgsFrom
//gv:prop C22 C25
func ct_ArgsFrom(r *http.Request) (args *Args) {
	requires(r != nil)
	ensures(args == carried(r))
	terminates()
	return
}

// A converted middleware, after any number of earlier requests.
func drv_Mw(uh http.Handler, next Handler, n int, we http.ResponseWriter, re *http.Request, ae *Args, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	h := Mw(func(h http.Handler) http.Handler { return uh })(next)
	for i := 0; i < n; i++ {
		h(we, re, ae)
	}
	return h(w, r, args)
}

//gv:contract drv_Mw
//gv:prop C22
func ct_drvMw(uh http.Handler, next Handler, n int, we http.ResponseWriter, re *http.Request, ae *Args, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(r != nil && args != nil && re != nil && ae != nil && uh != nil)
	modifies(anything())
	ensures("calls it once", nevAfterLoop() == 1 && evIs(-1, "(net/http.Handler).ServeHTTP", uh, w))
	ensures("with the arguments", at(-1, carried(evArg[*http.Request](-1, 2))) == args)
	ensures("the same request", at(-1, sameBut(evArg[*http.Request](-1, 2), r)))
	ensures("handled unless told otherwise", at(-1, args.handled))
	ensures("result", res == args.handled)
	return
}

// One request through a converted middleware changes nothing but its arguments.
func drv_Mw1(uh http.Handler, next Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	return Mw(func(h http.Handler) http.Handler { return uh })(next)(w, r, args)
}

//gv:contract drv_Mw1
//gv:prop C22 C25
func ct_drvMw1(uh http.Handler, next Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(r != nil && args != nil && uh != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("calls it once", nev() == 1 && evIs(0, "(net/http.Handler).ServeHTTP", uh, w))
	ensures("kept", kept(args))
	return
}

// The handler a converted middleware is given, after any number of earlier calls.
func drv_MwNext(next Handler, n int, we http.ResponseWriter, re *http.Request, w http.ResponseWriter, r *http.Request) {
	var given http.Handler
	Mw(func(h http.Handler) http.Handler {
		given = h
		return h
	})(next)
	for i := 0; i < n; i++ {
		given.ServeHTTP(we, re)
	}
	given.ServeHTTP(w, r)
}

//gv:contract drv_MwNext
//gv:prop C22
func ct_drvMwNext(next Handler, n int, we http.ResponseWriter, re *http.Request, w http.ResponseWriter, r *http.Request) {
	requires(next != nil && r != nil && re != nil && carried(r) != nil && carried(re) != nil)
	modifies(anything())
	args := carried(r)
	ensures("calls the next handler once", nevAfterLoop() == 1 && evIs(-1, "nanomux.Handler", next, w, r, args))
	ensures("passes on its result", args.handled == evRet[bool](-1))
}

// A middleware that passes the request on, with whatever it adds to its context.
func drv_MwPass(key, value any, next Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	return Mw(func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			h.ServeHTTP(w, r.WithContext(context.WithValue(r.Context(), key, value)))
		})
	})(next)(w, r, args)
}

//gv:contract drv_MwPass
//gv:prop C22 C25
func ct_drvMwPass(key, value any, next Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(next != nil && r != nil && args != nil && key != argsKey)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("calls the next handler once", nev() == 1 && evIs(0, "nanomux.Handler", next, w) && evArg[*Args](0, 3) == args)
	ensures("passes on its result", res == evRet[bool](0))
	return
}
