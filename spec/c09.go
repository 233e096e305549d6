package nanomux

import (
	"net/http"
	"net/url"
	"strings"
)

// C09, C10, C12: what hosts and resources do with a request that reaches them.

// unescapes: the request's path is escaped and can be decoded
func unescapes(args *Args) bool { return args.rawPath && second(url.PathUnescape(args.path)) == nil }

// the two forms of the clean path
func cleanPlain(args *Args) string {
	return ite(unescapes(args), first(url.PathUnescape(args.path)), args.path)
}
func cleanRaw(args *Args) string { return ite(unescapes(args), args.path, "") }

// has: the responder is configured so
func has(rb *_ResponderBase, f _ConfigFlags) bool { return rb.cfs&f == f }

// insecure: the request isn't received as a secure responder demands
func insecure(rb *_ResponderBase, r *http.Request) bool {
	return r.TLS == nil && has(rb, flagSecure)
}

// unclean: the path must be cleaned
func unclean(rb *_ResponderBase, args *Args) bool {
	return args.cleanPath && !has(rb, flagLenientOnUncleanPath)
}

func endsWithSlash(args *Args) bool { return args.path != "/" && strings.HasSuffix(args.path, "/") }

// slashDiffers: the trailing slash matters and isn't the responder's
func slashDiffers(rb *_ResponderBase, args *Args) bool {
	return !has(rb, flagLenientOnTrailingSlash) && has(rb, flagTrailingSlash) != endsWithSlash(args)
}

func withSlash(s string, add bool) string { return ite(add, s+"/", strings.TrimSuffix(s, "/")) }

// target: where a request is redirected to
func target(rb *_ResponderBase, r *http.Request, args *Args, slash bool) string {
	add := has(rb, flagTrailingSlash)
	scheme := ite(insecure(rb, r), "https", ite(r.URL.Scheme != "", r.URL.Scheme, ite(r.TLS == nil, "http", "https")))
	host := ite(r.URL.Host != "", r.URL.Host, r.Host)
	path := ite(unclean(rb, args), cleanPlain(args), r.URL.Path)
	raw := ite(unclean(rb, args), cleanRaw(args), r.URL.RawPath)
	return urlText(r.URL, scheme, host,
		ite(slash, withSlash(path, add), path),
		ite(slash && !(add && raw == ""), withSlash(raw, add), raw))
}

func canHandle(rb *_ResponderBase) bool {
	return rb._RequestHandlerBase != nil && len(rb._RequestHandlerBase.mhPairs) > 0
}

// requestHost: the host a request is made to
func requestHost(r *http.Request) string { return ite(r.URL.Host != "", r.URL.Host, r.Host) }

//gv:contract cloneRequestURL
//gv:helper
//gv:prop C09 C10 C25
func ct_cloneRequestURL(r *http.Request) (u *url.URL) {
	requires(r != nil && r.URL != nil)
	ensures("new", u != nil && newObj(u))
	ensures("same URL with the host", sameButHost(*u, *r.URL) && u.Host == requestHost(r))
	terminates()
	return
}

func sameButHost(u, v url.URL) bool {
	return u.Scheme == v.Scheme && u.Opaque == v.Opaque && u.User == v.User && u.Path == v.Path && u.RawPath == v.RawPath && u.OmitHost == v.OmitHost &&
		u.ForceQuery == v.ForceQuery && u.RawQuery == v.RawQuery && u.Fragment == v.Fragment && u.RawFragment == v.RawFragment
}

//gv:contract appendTrailingSlash
//gv:helper
//gv:prop C10
func ct_appendTrailingSlash(url *url.URL) {
	requires(url != nil)
	modifies(url.Path, url.RawPath)
	ensures("both paths", url.Path == old(url.Path)+"/" && url.RawPath == ite(old(url.RawPath) == "", "", old(url.RawPath)+"/"))
	terminates()
}

//gv:contract removeTrailingSlash
//gv:helper
//gv:prop C10
func ct_removeTrailingSlash(url *url.URL) {
	requires(url != nil)
	modifies(url.Path, url.RawPath)
	ensures("both paths", url.Path == strings.TrimSuffix(old(url.Path), "/") && url.RawPath == strings.TrimSuffix(old(url.RawPath), "/"))
	terminates()
}

//gv:contract (*Args).setPathOf
//gv:helper
//gv:prop C10
func ct_setPathOf(args *Args, u *url.URL) {
	requires(args != nil && u != nil)
	modifies(u.Path, u.RawPath)
	ensures("both forms", u.Path == cleanPlain(args) && u.RawPath == cleanRaw(args))
	terminates()
}

//gv:contract (*Resource).handleOrPassRequest
//gv:prop C09 C10 C12 C25
func ct_Resource_handleOrPass(rb *Resource, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(rb != nil && args != nil && w != nil && r != nil && r.URL != nil)
	requires("range", inRange(args))
	requires("functions", rb.requestPasser != nil && rb.requestHandler != nil && notFoundResourceHandler != nil && commonRedirectHandler != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	base := &rb._ResponderBase
	last := old(args.currentPathSegmentIdx) == len(args.path)
	sub := has(base, flagSubtreeHandler)
	passed := nev() > 0 && evIs(0, "nanomux.Handler", rb.requestPasser, w, r, args)
	below := !last && evRet[bool](0)
	up := !last && !evRet[bool](0) && !sub
	here := !below && !up
	k := ite(last, 0, 1)
	one := nev() == k+1 && res == evRet[bool](-1)
	notFound := one && evIs(-1, "nanomux.Handler", old(notFoundResourceHandler), w, r, args)
	slash := last && slashDiffers(base, args)
	none := !canHandle(base) && rb.requestRedirector == nil
	drop := none || insecure(base, r) && !has(base, flagRedirectsInsecure) || slash && has(base, flagStrictOnTrailingSlash)
	redirect := insecure(base, r) || unclean(base, args) || slash
	code := ite(rb.permanentRedirectCode > 0, rb.permanentRedirectCode, permanentRedirectCode)
	rh := ite(rb.redirectHandler != nil, rb.redirectHandler, commonRedirectHandler)
	ensures("passed down unless it's the last segment", implies(!last, passed && at(0, args.currentPathSegmentIdx) == old(args.currentPathSegmentIdx)))
	ensures("known as a subtree handler", implies(!last && sub, at(0, args.subtreeExists)))
	ensures("handled below", implies(below, nev() == 1 && res))
	ensures("left to the responders above", implies(up, nev() == 1 && !res))
	ensures("current responder", implies(here && !last, at(1, args._r) == rb.derived))
	ensures("position", implies(here && old(args.currentPathSegmentIdx) > 0, at(-1, args.currentPathSegmentIdx) == old(args.currentPathSegmentIdx)))
	ensures("not found", implies(here && drop, notFound))
	ensures("redirected", implies(here && !drop && redirect, one && evIs(-1, "nanomux.RedirectHandler", rh, w, r, old(target(base, r, args, slash)), code, args)))
	ensures("request redirector", implies(here && !drop && !redirect && rb.requestRedirector != nil, one && evIs(-1, "nanomux.Handler", rb.requestRedirector, w, r, args)))
	ensures("request handler", implies(here && !drop && !redirect && rb.requestRedirector == nil, one && evIs(-1, "nanomux.Handler", rb.requestHandler, w, r, args)))
	ensures("kept", kept(args))
	return
}

//gv:contract (*Host).handleOrPassRequest
//gv:prop C09 C10 C12 C25
func ct_Host_handleOrPass(hb *Host, w http.ResponseWriter, r *http.Request, args *Args) (res bool) {
	requires(hb != nil && args != nil && w != nil && r != nil && r.URL != nil)
	requires("at the start", args.currentPathSegmentIdx == 0)
	requires("functions", hb.requestPasser != nil && hb.requestHandler != nil && notFoundResourceHandler != nil && commonRedirectHandler != nil)
	modifies(args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args._r, args.slc, elems(args.hostPathValues), elems(args.slc))
	base := &hb._ResponderBase
	root := len(args.path) <= 1
	sub := has(base, flagSubtreeHandler)
	passed := nev() > 0 && evIs(0, "nanomux.Handler", hb.requestPasser, w, r, args)
	below := !root && evRet[bool](0)
	here := !below
	k := ite(root, 0, 1)
	one := nev() == k+1 && res == evRet[bool](-1)
	notFound := one && evIs(-1, "nanomux.Handler", old(notFoundResourceHandler), w, r, args)
	slash := sub && len(args.path) > 2 && slashDiffers(base, args)
	none := !canHandle(base) && hb.requestRedirector == nil
	drop := !root && !sub || none || insecure(base, r) && !has(base, flagRedirectsInsecure) || slash && has(base, flagStrictOnTrailingSlash)
	redirect := insecure(base, r) || unclean(base, args) || slash
	code := ite(hb.permanentRedirectCode > 0, hb.permanentRedirectCode, permanentRedirectCode)
	rh := ite(hb.redirectHandler != nil, hb.redirectHandler, commonRedirectHandler)
	ensures("passed down unless it's the root", implies(!root, passed && at(0, args.currentPathSegmentIdx) == 1))
	ensures("known as a subtree handler", implies(!root && sub, at(0, args.subtreeExists)))
	ensures("handled below", implies(below, nev() == 1 && res))
	ensures("current responder", implies(here && !root, at(-1, args._r) == hb.derived))
	ensures("position", implies(here && !root, at(-1, args.currentPathSegmentIdx) == 1))
	ensures("not found", implies(here && drop, notFound))
	ensures("redirected", implies(here && !drop && redirect, one && evIs(-1, "nanomux.RedirectHandler", rh, w, r, old(target(base, r, args, slash)), code, args)))
	ensures("request redirector", implies(here && !drop && !redirect && hb.requestRedirector != nil, one && evIs(-1, "nanomux.Handler", hb.requestRedirector, w, r, args)))
	ensures("request handler", implies(here && !drop && !redirect && hb.requestRedirector == nil, one && evIs(-1, "nanomux.Handler", hb.requestHandler, w, r, args)))
	ensures("kept", kept(args))
	return
}
