package nanomux

import (
	"net/url"
	"strings"
)

// C13: the segments of a request's path.

// segEnd: where the segment at position i of a path ends
func segEnd(p string, i int) int {
	k := strings.IndexByte(p[i:], '/')
	return ite(k < 0, len(p), i+k)
}

// nextPos: where the segment after the one at position i starts
func nextPos(p string, i int) int {
	k := strings.IndexByte(p[i:], '/')
	return ite(i >= len(p), i, ite(i == 0, 1, ite(k < 0, len(p), i+k+1)))
}

// rawSegment: the segment at position i as it is in the path
func rawSegment(p string, i int) string {
	return ite(i >= len(p), "", ite(i == 0, "/", p[i:segEnd(p, i)]))
}

// undecodable: the segment at position i is one to decode and can't be
//
//gv:sealed
func undecodable(p string, raw bool, i int) bool {
	return raw && 0 < i && i < len(p) && second(url.PathUnescape(rawSegment(p, i))) != nil
}

// segment: the text of the segment at position i
//
//gv:sealed
func segment(p string, raw bool, i int) string {
	return ite(raw && 0 < i && i < len(p), first(url.PathUnescape(rawSegment(p, i))), rawSegment(p, i))
}

//gv:contract (*Args).nextPathSegment
//gv:unseal segment undecodable
//gv:prop C13 C12 C11
func ct_nextPathSegment(args *Args) (s string, err error) {
	requires(args != nil)
	requires("range", inRange(args))
	modifies(args.currentPathSegmentIdx)
	p, i := args.path, old(args.currentPathSegmentIdx)
	ensures("stays at the end", implies(i == len(p), s == "" && err == nil))
	ensures("root first", implies(i == 0 && len(p) > 0, s == "/" && err == nil))
	ensures("literal", implies(0 < i && i < len(p) && !args.rawPath, s == p[i:segEnd(p, i)] && err == nil))
	ensures("decoded once", implies(0 < i && i < len(p) && args.rawPath,
		s == first(url.PathUnescape(p[i:segEnd(p, i)])) && err == second(url.PathUnescape(p[i:segEnd(p, i)]))))
	ensures("segment", s == segment(p, args.rawPath, i))
	ensures("error", iff(err != nil, undecodable(p, args.rawPath, i)))
	ensures("position", args.currentPathSegmentIdx == nextPos(p, i))
	ensures("range", inRange(args))
	terminates()
	return
}

//gv:contract (*Args).reachedTheLastPathSegment
//gv:prop C13 C12
func ct_reachedTheLast(args *Args) (b bool) {
	requires(args != nil)
	ensures(b == (args.currentPathSegmentIdx == len(args.path)))
	terminates()
	return
}

//gv:contract (*Args).pathHasTrailingSlash
//gv:prop C13 C10
func ct_pathHasTrailingSlash(args *Args) (b bool) {
	requires(args != nil)
	ensures(b == (args.path != "/" && strings.HasSuffix(args.path, "/")))
	terminates()
	return
}

// Going through a path gives all of it: the segments joined by slashes are the
// path, and the end is reached.
func drv_wholePath(args *Args) (joined string) {
	joined, _ = args.nextPathSegment()
	for !args.reachedTheLastPathSegment() {
		at := args.currentPathSegmentIdx
		s, _ := args.nextPathSegment()
		joined += s
		if at+len(s) < len(args.path) {
			joined += "/"
		}
	}
	return
}

//gv:contract drv_wholePath
//gv:prop C13
func ct_wholePath(args *Args) (joined string) {
	requires(args != nil)
	requires("at the start", args.currentPathSegmentIdx == 0)
	requires("rooted", strings.HasPrefix(args.path, "/"))
	requires("literal", !args.rawPath)
	modifies(args.currentPathSegmentIdx)
	ensures("joined", joined == args.path)
	ensures("at the end", args.currentPathSegmentIdx == len(args.path))
	invariant("so far", func(joined string) bool {
		return joined == args.path[:args.currentPathSegmentIdx] && args.currentPathSegmentIdx > 0 && args.currentPathSegmentIdx <= len(args.path)
	})
	decreases(func(joined string) int { return len(args.path) - args.currentPathSegmentIdx })
	terminates()
	return
}

// the template path iterator

// afterSlash: the rest of a template path without its leading slash
func afterSlash(p string) string { return ite(strings.HasPrefix(p, "/"), p[1:], p) }

//gv:contract (*_PathSegmentIterator).nextSegment
//gv:prop C13 C19
func ct_nextSegment(psi *_PathSegmentIterator) (s string) {
	requires(psi != nil)
	modifies(psi.path)
	p := old(psi.path)
	k := strings.IndexByte(afterSlash(p), '/')
	seg := ite(k < 0, afterSlash(p), afterSlash(p)[:k])
	ensures("segment", s == ite(p == "", "", reReplace(slashDecoderRe, seg, "/")))
	ensures("rest", psi.path == ite(k < 0, "", afterSlash(p)[k:]))
	ensures("nothing lost", ite(strings.HasPrefix(p, "/"), "/", "")+seg+psi.path == p)
	terminates()
	return
}

//gv:contract makePathSegmentIterator
//gv:prop C13 C19
func ct_makePathSegmentIterator(path string) (psi _PathSegmentIterator) {
	ensures(psi.path == path && psi.root == (path == "/"))
	ensures("trailing slash", psi.tslash == (path != "/" && strings.HasSuffix(path, "/")))
	terminates()
	return
}

//gv:contract (*_PathSegmentIterator).remainingPath
//gv:prop C13 C19
func ct_psiRemainingPath(psi *_PathSegmentIterator) (s string) {
	requires(psi != nil)
	modifies(psi.path)
	ensures(s == afterSlash(old(psi.path)) && psi.path == s)
	terminates()
	return
}
