package nanomux

import (
	"net/http"
	"net/url"
	"path"
	"strings"
)

// C14: requests never see another request's arguments.

// poolInv: what holds of arguments nobody uses
func poolInv(args *Args) bool {
	return blank(args)
}

func blank(args *Args) bool {
	return !args.cleanPath && args.currentPathSegmentIdx == 0 && !args.subtreeExists && !args.handled &&
		len(args.hostPathValues) == 0 && len(args.slc) == 0
}

// own: nothing else has the arguments' slices
func ownNew(args *Args) bool {
	return (args.hostPathValues == nil || newObj(args.hostPathValues)) && (args.slc == nil || newObj(args.slc))
}

//gv:contract argsPool.New
//gv:prop C14
func ct_argsPoolNew() (v any) {
	ensures("arguments", typeIs[*Args](v) && v != nil)
	ensures("blank", blank(v.(*Args)))
	ensures("new", newObj(v.(*Args)))
	terminates()
	return
}

//gv:contract putArgsInThePool
//gv:event
//gv:prop C14
func ct_putArgsInThePool(args *Args) {
	requires(args != nil)
	modifies(args.cleanPath, args.currentPathSegmentIdx, args.subtreeExists, args.handled, args.hostPathValues, args.slc)
	ensures("blank", blank(args))
	terminates()
}

// rooted: the path with a slash at its start
func rooted(p string) string { return ite(strings.HasPrefix(p, "/"), p, "/"+p) }

// cleaned: the clean form of a path with its trailing slash
func cleaned(p string) string {
	c := path.Clean(rooted(p))
	return ite(strings.HasSuffix(p, "/") && len(c) > 1, c+"/", c)
}

func requestPath(u *url.URL) string { return ite(u.RawPath != "", u.RawPath, u.Path) }

//gv:contract getArgsFromThePool
//gv:prop C14 C13
func ct_getArgsFromThePool(u *url.URL, _r _Responder) (args *Args) {
	requires(u != nil)
	ensures("new", args != nil && newObj(args) && ownNew(args))
	ensures("blank", blank(args))
	ensures("path", args.path == requestPath(u) && args.rawPath == (u.RawPath != ""))
	ensures("responder", args._r == _r)
	terminates()
	return
}

//gv:contract getArgs
//gv:event
//gv:prop C14 C13 C10
func ct_getArgs(u *url.URL, _r _Responder) (args *Args) {
	requires(u != nil)
	p := requestPath(u)
	ensures("new", args != nil && newObj(args) && ownNew(args))
	ensures("no values of other requests", len(args.hostPathValues) == 0 && len(args.slc) == 0)
	ensures("not handled", !args.handled && !args.subtreeExists)
	ensures("position", args.currentPathSegmentIdx == 0)
	ensures("responder", args._r == _r)
	ensures("escaped path first", args.rawPath == (u.RawPath != ""))
	ensures("short path", implies(len(p) <= 1, args.path == p && !args.cleanPath))
	ensures("clean path", implies(len(p) > 1 && len(cleaned(p)) != len(rooted(p)), args.path == cleaned(p) && args.cleanPath))
	ensures("path as is", implies(len(p) > 1 && len(cleaned(p)) == len(rooted(p)), args.path == rooted(p) && !args.cleanPath))
	terminates()
	return
}

// served: the handler is called once with new arguments, the not-found handler
// answers if it didn't, and the arguments are given back at the end.

//gv:contract (*Router).ServeHTTP
//gv:prop C14 C15 C25
func ct_Router_ServeHTTP(ro *Router, w http.ResponseWriter, r *http.Request) {
	requires(ro != nil && w != nil && r != nil && r.URL != nil)
	requires(ro.requestPasser != nil && notFoundResourceHandler != nil)
	args := evRet[*Args](0)
	ensures("starts with new arguments", evIs(0, "getArgs", r.URL, nil))
	ensures("passes the request", evIs(1, "nanomux.Handler", ro.requestPasser, w, r, args))
	ensures("not found if not handled", ite(evRet[bool](1), nev() == 3,
		nev() == 4 && evIs(2, "nanomux.Handler", old(notFoundResourceHandler), w, r, args)))
	ensures("gives the arguments back", evIs(nev()-1, "putArgsInThePool", args))
}

//gv:contract (*_RequestHandlerBase).ServeHTTP
//gv:prop C14 C07 C25
func ct_RHB_ServeHTTP(rhb *_RequestHandlerBase, w http.ResponseWriter, r *http.Request) {
	requires(w != nil && r != nil && r.URL != nil)
	requires("table", implies(rhb != nil, goodTable(rhb.mhPairs) && noEmptyMethods(rhb.mhPairs)))
	requires(notFoundResourceHandler != nil)
	args := evRet[*Args](0)
	ensures("starts with new arguments", evIs(0, "getArgs", r.URL, nil))
	ensures("uses them", implies(evIs(1, "nanomux.Handler"), evIs(1, "nanomux.Handler", whatever, w, r, args)))
	ensures("gives the arguments back", evIs(nev()-1, "putArgsInThePool", args))
}

//gv:contract (*Host).ServeHTTP
//gv:prop C14 C15 C25
func ct_Host_ServeHTTP(hb *Host, w http.ResponseWriter, r *http.Request) {
	requires(hb != nil && w != nil && r != nil && r.URL != nil)
	requires("template", hb.tmpl != nil && wellFormed(hb.tmpl))
	requires(hb.requestReceiver != nil && notFoundResourceHandler != nil)
	args := evRet[*Args](0)
	named := ite(r.Host == "", r.URL.Host, r.Host) != ""
	is := named && old(matches(hb.tmpl.slices, hb.tmpl.wildcardIdx, hostOf(r), TemplateValues(nil)))
	ensures("starts with new arguments", evIs(0, "getArgs", r.URL, hb.derived))
	ensures("receives its requests", implies(is, evIs(1, "nanomux.Handler", hb.requestReceiver, w, r, args) && at(1, args.currentPathSegmentIdx) == 0))
	ensures("not found if not handled", implies(is, ite(evRet[bool](1), nev() == 3, nev() == 4 && evIs(2, "nanomux.Handler", old(notFoundResourceHandler), w, r, args))))
	ensures("not found for other hosts", implies(!is, nev() == 3 && evIs(1, "nanomux.Handler", old(notFoundResourceHandler), w, r, args)))
	ensures("gives the arguments back", evIs(-1, "putArgsInThePool", args))
}

//gv:contract (*Resource).ServeHTTP
//gv:prop C14 C11 C25
func ct_Resource_ServeHTTP(rb *Resource, w http.ResponseWriter, r *http.Request) {
	requires(rb != nil && w != nil && r != nil && r.URL != nil)
	requires("template", rb.tmpl != nil && wellFormed(rb.tmpl))
	requires(rb.requestReceiver != nil && notFoundResourceHandler != nil)
	args := evRet[*Args](0)
	root := rb.tmpl == rootTmpl
	i := nextPos(args.path, 0)
	bad := !root && undecodable(args.path, args.rawPath, i)
	ps := segment(args.path, args.rawPath, i)
	is := root || !bad && ps != "" && old(matches(rb.tmpl.slices, rb.tmpl.wildcardIdx, ps, TemplateValues(nil)))
	ensures("starts with new arguments", evIs(0, "getArgs", r.URL, rb.derived))
	ensures("undecodable segment", implies(bad, nev() == 3 && evIs(1, "net/http.Error", w, http.StatusText(400), 400)))
	ensures("receives its requests", implies(is, evIs(1, "nanomux.Handler", rb.requestReceiver, w, r, args) && at(1, args.currentPathSegmentIdx) == ite(root, i, nextPos(args.path, i))))
	ensures("not found if not handled", implies(is, ite(evRet[bool](1), nev() == 3, nev() == 4 && evIs(2, "nanomux.Handler", old(notFoundResourceHandler), w, r, args))))
	ensures("not found for other paths", implies(!is && !bad, nev() == 3 && evIs(1, "nanomux.Handler", old(notFoundResourceHandler), w, r, args)))
	ensures("gives the arguments back", evIs(-1, "putArgsInThePool", args))
}
