package nanomux

// C06: the table of HTTP methods.

// Arbitrary methods and an arbitrary handler: nothing is known of them, so
// what is proved about them holds for all.
//
//gv:nodef
func anyMethod() string { return "" }

//gv:nodef
func anyOther() string { return "" }

//gv:nodef
func anyHandler() Handler { return nil }

// ascending: strictly ascending methods in [lo, hi)
func ascending(p _MethodHandlerPairs, lo, hi int) bool {
	return all(func(a, b int) bool {
		return implies(lo <= a && a < b && b < hi, p[a].method < p[b].method)
	})
}

func distinct(p _MethodHandlerPairs, lo, hi int) bool {
	return forall(lo, hi, func(a int) bool {
		return forall(lo, hi, func(b int) bool { return implies(a != b, p[a].method != p[b].method) })
	})
}

// holds: some entry in [lo, hi) is (m, h)
func holds(p _MethodHandlerPairs, lo, hi int, m string, h Handler) bool {
	return exists(lo, hi, func(k int) bool { return p[k].method == m && refEq(p[k].handler, h) })
}

func hasMethod(p _MethodHandlerPairs, lo, hi int, m string) bool {
	return exists(lo, hi, func(k int) bool { return p[k].method == m })
}

func maxAtEnd(p _MethodHandlerPairs, l, h int) bool {
	return forall(l, h+1, func(k int) bool { return p[k].method <= p[h].method })
}

//gv:contract (_MethodHandlerPairs).quickSort
//gv:opaque
//gv:ghost anyMethod anyOther anyHandler
//gv:prop C06
func ct_quickSort(mhps _MethodHandlerPairs, l, h int) {
	requires("range", 0 <= l && h < len(mhps) && l <= h+1)
	requires("distinct", distinct(mhps, l, h+1))
	modifies(elems(mhps))
	m, n, f := anyMethod(), anyOther(), anyHandler()
	ensures("ascending|frame,bounds,left,right,pivot,ascending,same method,same other", all(func(a, b int) bool {
		return implies(l <= a && a < b && b <= h && mhps[a].method == m && mhps[b].method == n, m < n)
	}))
	ensures("nothing added|frame,bounds,nothing added", all(func(k int) bool {
		return implies(l <= k && k <= h && mhps[k].method == m && refEq(mhps[k].handler, f), old(holds(mhps, l, h+1, m, f)))
	}))
	ensures("nothing lost|frame,bounds,nothing lost", all(func(k int) bool {
		return implies(l <= k && k <= h && old(mhps[k].method == m && refEq(mhps[k].handler, f)), holds(mhps, l, h+1, m, f))
	}))
	ensures("same method|frame,bounds,same method", iff(hasMethod(mhps, l, h+1, m), old(hasMethod(mhps, l, h+1, m))))
	ensures("same other|frame,bounds,same other", iff(hasMethod(mhps, l, h+1, n), old(hasMethod(mhps, l, h+1, n))))
	ensures("frame|bounds", all(func(k int) bool {
		return implies(k < l || k > h, mhps[k].method == old(mhps[k].method) && refEq(mhps[k].handler, old(mhps[k].handler)))
	}))
	decreases(ite(l < h, 2*(h-l)+ite(maxAtEnd(mhps, l, h), 0, 1), 0))
	decreases(func(i, j int, p string) (int, int) {
		return (h - i) + (j - l), ite(mhps[i].method >= p && mhps[j].method <= p, 1, 0)
	})
	invariant("bounds", func(i, j int, p string) bool { return l <= i && i <= h && l <= j && j <= h })
	invariant("distinct", func(i, j int, p string) bool { return distinct(mhps, l, h+1) })
	invariant("left", func(i, j int, p string) bool {
		return forall(l, i, func(k int) bool { return mhps[k].method <= p })
	})
	invariant("right", func(i, j int, p string) bool {
		return forall(j+1, h+1, func(k int) bool { return mhps[k].method > p })
	})
	invariant("pivot", func(i, j int, p string) bool {
		return exists(i, j+1, func(k int) bool { return mhps[k].method == p })
	})
	invariant("last", func(i, j int, p string) bool {
		return implies(old(maxAtEnd(mhps, l, h)), mhps[h].method == old(mhps[h].method) && p < mhps[h].method)
	})
	invariant("nothing added|frame,bounds,nothing added", func(i, j int, p string) bool {
		return all(func(k int) bool {
		return implies(l <= k && k <= h && mhps[k].method == m && refEq(mhps[k].handler, f), old(holds(mhps, l, h+1, m, f)))
	})
	})
	invariant("nothing lost|frame,bounds,nothing lost", func(i, j int, p string) bool {
		return all(func(k int) bool {
		return implies(l <= k && k <= h && old(mhps[k].method == m && refEq(mhps[k].handler, f)), holds(mhps, l, h+1, m, f))
	})
	})
	invariant("same method|frame,bounds,same method", func(i, j int, p string) bool {
		return iff(hasMethod(mhps, l, h+1, m), old(hasMethod(mhps, l, h+1, m)))
	})
	invariant("same other|frame,bounds,same other", func(i, j int, p string) bool {
		return iff(hasMethod(mhps, l, h+1, n), old(hasMethod(mhps, l, h+1, n)))
	})
	invariant("frame|bounds", func(i, j int, p string) bool {
		return all(func(k int) bool {
			return implies(k < l || k > h, mhps[k].method == old(mhps[k].method) && refEq(mhps[k].handler, old(mhps[k].handler)))
		})
	})
	return
}

//gv:contract (_MethodHandlerPairs).get
//gv:opaque
//gv:prop C06 C07
func ct_get(mhps _MethodHandlerPairs, method string) (i int, hr Handler) {
	requires("ascending", ascending(mhps, 0, len(mhps)))
	ensures("found", implies(i >= 0, i < len(mhps) && mhps[i].method == method && refEq(mhps[i].handler, hr)))
	ensures("not found", implies(i < 0, i == -1 && hr == nil && forall(0, len(mhps), func(k int) bool { return mhps[k].method != method })))
	invariant("searched", func(hi, i int) bool {
		return forall(0, i, func(k int) bool { return mhps[k].method != method })
	})
	invariant("below", func(lo, hi int) bool {
		return 0 <= lo && lo <= hi && hi <= len(mhps) && forall(0, lo, func(k int) bool { return mhps[k].method < method })
	})
	invariant("above", func(lo, hi int) bool {
		return forall(hi, len(mhps), func(k int) bool { return method < mhps[k].method })
	})
	terminates()
	return
}

//gv:contract (*_MethodHandlerPairs).set
//gv:opaque
//gv:ghost anyMethod anyHandler
//gv:prop C06 C07
func ct_set(mhps *_MethodHandlerPairs, method string, handler Handler) {
	requires("not nil", mhps != nil)
	requires("ascending", ascending(*mhps, 0, len(*mhps)))
	modifies(*mhps, elems(*mhps))
	m, f := anyMethod(), anyHandler()
	ensures("ascending", ascending(*mhps, 0, len(*mhps)))
	n := len(*mhps)
	ensures("set", exists(0, n, func(k int) bool { return (*mhps)[k].method == method && refEq((*mhps)[k].handler, handler) }))
	ensures("nothing added", all(func(k int) bool {
		return implies(0 <= k && k < n && (*mhps)[k].method == m && refEq((*mhps)[k].handler, f),
			ite(m == method, refEq(f, handler), old(holds(*mhps, 0, len(*mhps), m, f))))
	}))
	ensures("nothing lost", all(func(k int) bool {
		return implies(0 <= k && k < old(n) && m != method && old((*mhps)[k].method == m && refEq((*mhps)[k].handler, f)),
			holds(*mhps, 0, n, m, f))
	}))
	ensures("entries|nothing added", forall(0, n, func(k int) bool {
		return (*mhps)[k].method == method && refEq((*mhps)[k].handler, handler) ||
			exists(0, old(n), func(j int) bool {
				return old((*mhps)[j].method) == (*mhps)[k].method && refEq(old((*mhps)[j].handler), (*mhps)[k].handler)
			})
	}))
	ensures("array", refEq(*mhps, old(*mhps)) || newObj(*mhps))
	ensures("grows", len(*mhps) >= old(len(*mhps)) && len(*mhps) <= old(len(*mhps))+1 && len(*mhps) > 0)
	terminates()
}

// A table after any number of calls of set gives for every method the handler
// set last: the property's history, one call at a time.
func drv_tableSetGet(mhps *_MethodHandlerPairs, method string, handler Handler, other string) (before, after, got Handler) {
	_, before = mhps.get(other)
	mhps.set(method, handler)
	_, got = mhps.get(method)
	_, after = mhps.get(other)
	return
}

//gv:contract drv_tableSetGet
//gv:prop C06
func ct_tableSetGet(mhps *_MethodHandlerPairs, method string, handler Handler, other string) (before, after, got Handler) {
	requires("not nil", mhps != nil)
	requires("ascending", ascending(*mhps, 0, len(*mhps)))
	requires("no nil handlers", handler != nil && forall(0, len(*mhps), func(k int) bool { return (*mhps)[k].handler != nil }))
	modifies(*mhps, elems(*mhps))
	ensures("set", refEq(got, handler))
	ensures("others", implies(other != method, refEq(after, before)))
	return
}

// The empty table is in order, so every table built by set is.
func drv_emptyTable(method string) (h Handler) {
	var mhps _MethodHandlerPairs
	_, h = mhps.get(method)
	return
}

//gv:contract drv_emptyTable
//gv:prop C06
func ct_emptyTable(method string) (h Handler) {
	ensures("empty", h == nil)
	return
}
