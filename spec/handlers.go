package nanomux

import "net/http"

// What is assumed of function values: user code and, where the package stores
// its own functions, contracts verified in the other files.

// A handler may use up and restore the request's position, and change what the
// request's arguments hold; it doesn't touch anything else of the package.
//
//gv:dyn nanomux.Handler
func dyn_Handler(h Handler, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires("arguments are given", args != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("kept", kept(args))
	return
}

//gv:dyn nanomux.RedirectHandler
func dyn_RedirectHandler(h RedirectHandler, w http.ResponseWriter, r *http.Request, url string, code int, args *Args) (res bool) {
	requires("arguments are given", args != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	ensures("kept", kept(args))
	return
}

// Middlewares are functions: what they return depends on what they're given.
//
//gv:dyn nanomux.Middleware
//gv:pure
func dyn_Middleware(mw Middleware, next Handler) (h Handler) { return }

//gv:dyn func(RedirectHandler) RedirectHandler
//gv:pure
func dyn_RedirectMiddleware(mw func(RedirectHandler) RedirectHandler, next RedirectHandler) (h RedirectHandler) {
	return
}

//gv:dyn func(http.Handler) http.Handler
//gv:pure
func dyn_HTTPMiddleware(mw func(http.Handler) http.Handler, next http.Handler) (h http.Handler) {
	return
}

// kept: what every handler leaves as it was. All functions of the package that
// are used as handlers are verified to do so.
func kept(args *Args) bool {
	return implies(old(args.currentPathSegmentIdx) > 0, args.currentPathSegmentIdx == old(args.currentPathSegmentIdx)) &&
		implies(old(inRange(args)), inRange(args)) &&
		implies(old(args.subtreeExists), args.subtreeExists) &&
		ownSlices(args)
}

// ownSlices: the slices of the arguments are the ones they had or new ones
func ownSlices(args *Args) bool {
	return (args.hostPathValues == nil || refEq(args.hostPathValues, old(args.hostPathValues)) || newObj(args.hostPathValues)) &&
		(args.slc == nil || refEq(args.slc, old(args.slc)) || newObj(args.slc))
}

// inRange: the position is one in the path
func inRange(args *Args) bool {
	return 0 <= args.currentPathSegmentIdx && args.currentPathSegmentIdx <= len(args.path)
}

// Standard handlers may reach the arguments only through the request they get.
//
//gv:dyn (net/http.Handler).ServeHTTP
func dyn_HTTPHandler(h http.Handler, w http.ResponseWriter, r *http.Request) {
	args := carried(r)
	if r != nil && args != nil {
		modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
		ensures("kept", kept(args))
	}
}

//gv:dyn net/http.HandlerFunc
func dyn_HTTPHandlerFunc(hf http.HandlerFunc, w http.ResponseWriter, r *http.Request) {
	args := carried(r)
	if r != nil && args != nil {
		modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
		ensures("kept", kept(args))
	}
}

// carried: the arguments a request carries
func carried(r *http.Request) *Args {
	v := contextValue(requestContext(r), argsKey)
	return ite(typeIs[*Args](v), v.(*Args), nil)
}

// ownRequest: a request doesn't carry another request's arguments
func ownRequest(r *http.Request, args *Args) bool {
	return carried(r) == nil || carried(r) == args
}
