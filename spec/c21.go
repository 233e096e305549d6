package nanomux

import (
	"net/http"
	"strings"
)

// C21: redirects to a given URL joined with the remaining path.

// goodResponder: the current responder isn't a nil resource
func goodResponder(args *Args) bool {
	return implies(typeIs[*Resource](args._r), args._r.(*Resource) != nil)
}

// slashed: the responder's own URL ends with a slash
func slashed(args *Args) bool {
	return args.path == "/" || typeIs[*Resource](args._r) && has(&args._r.(*Resource)._ResponderBase, flagTrailingSlash)
}

// remaining: what's left of the path below the current responder
func remaining(args *Args) string {
	i := args.currentPathSegmentIdx
	return ite(i >= len(args.path), "", ite(args._r == nil, args.path[i:],
		ite(slashed(args), ite(i == 0, args.path[1:], args.path[i:]), ite(i > 0, args.path[i-1:], args.path))))
}

// remainingEscaped: the same, escaped
func remainingEscaped(args *Args) string {
	return ite(args.rawPath, remaining(args), escapedPath(remaining(args), ""))
}

//gv:contract (*Args).remainingPath
//gv:helper
//gv:prop C21 C12
func ct_remainingPath(args *Args) (s string) {
	requires(args != nil && goodResponder(args))
	requires("range", inRange(args))
	ensures("below the responder", s == remaining(args))
	terminates()
	return
}

//gv:contract (*Args).RemainingPath
//gv:prop C21 C12
func ct_RemainingPath(args *Args) (s string) {
	requires(args != nil && goodResponder(args))
	requires("range", inRange(args))
	ensures("escaped", s == remainingEscaped(args))
	terminates()
	return
}

// absoluteURL: a URL that has a scheme or a slash at its start
func absoluteURL(u string) string {
	return ite(strings.HasPrefix(u, "http://") || strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "/"), u, "/"+u)
}

// joinedURL: joined by exactly one slash
func joinedURL(u, rest string) string {
	return ite(rest == "", u, strings.TrimSuffix(u, "/")+"/"+strings.TrimPrefix(rest, "/"))
}

func badRedirect(u string, code int) bool { return u == "" || code < 300 || code > 399 }

func drv_RedirectRequestTo(rb *_ResponderBase, url string, code int, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	rb.RedirectRequestTo(url, code)
	return rb.requestRedirector(w, r, args)
}

//gv:contract drv_RedirectRequestTo
//gv:prop C21 C25
func ct_RedirectRequestTo(rb *_ResponderBase, url string, code int, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(rb != nil && r != nil && w != nil && args != nil && goodResponder(args) && commonRedirectHandler != nil)
	requires("range", inRange(args))
	panics(badRedirect(url, code))
	modifies(rb.requestRedirector, args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	rh := ite(rb.redirectHandler != nil, rb.redirectHandler, commonRedirectHandler)
	ensures("redirects once to the URL joined with the remaining path", nev() == 1 &&
		evIs(0, "nanomux.RedirectHandler", rh, w, r, joinedURL(absoluteURL(url), old(remainingEscaped(args))), code, args) && res == evRet[bool](0))
	ensures("kept", kept(args))
	return
}

func drv_RedirectAnyRequestTo(rb *_ResponderBase, url string, code int, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	rb.RedirectAnyRequestTo(url, code)
	return rb.requestReceiver(w, r, args)
}

//gv:contract drv_RedirectAnyRequestTo
//gv:prop C21 C25
func ct_RedirectAnyRequestTo(rb *_ResponderBase, url string, code int, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(rb != nil && r != nil && w != nil && args != nil && goodResponder(args) && commonRedirectHandler != nil)
	requires("range", inRange(args))
	panics(badRedirect(url, code))
	modifies(rb.requestReceiver, args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	rh := ite(rb.redirectHandler != nil, rb.redirectHandler, commonRedirectHandler)
	ensures("redirects once to the URL joined with the remaining path", nev() == 1 &&
		evIs(0, "nanomux.RedirectHandler", rh, w, r, joinedURL(absoluteURL(url), old(remainingEscaped(args))), code, args) && res == evRet[bool](0))
	ensures("kept", kept(args))
	return
}

//gv:contract (*_ResponderBase).SetPermanentRedirectCode
//gv:prop C21 C10
func ct_SetPermanentRedirectCode(rb *_ResponderBase, code int) {
	requires(rb != nil)
	panics(code != 301 && code != 308)
	modifies(rb.permanentRedirectCode)
	ensures("set", rb.permanentRedirectCode == code)
	terminates()
}

//gv:contract (*_ResponderBase).SetRedirectHandler
//gv:prop C21 C10
func ct_SetRedirectHandler(rb *_ResponderBase, handler RedirectHandler) {
	requires(rb != nil)
	panics(handler == nil)
	modifies(rb.redirectHandler)
	ensures("set", refEq(rb.redirectHandler, handler))
	terminates()
}

//gv:contract SetPermanentRedirectCode
//gv:prop C21 C10
func ct_SetCommonPermanentRedirectCode(code int) {
	panics(code != 301 && code != 308)
	modifies(permanentRedirectCode)
	ensures("set", permanentRedirectCode == code)
	terminates()
}

//gv:contract SetCommonRedirectHandler
//gv:prop C21 C10
func ct_SetCommonRedirectHandler(fn RedirectHandler) {
	panics(fn == nil)
	modifies(commonRedirectHandler)
	ensures("set", refEq(commonRedirectHandler, fn))
	terminates()
}
