package nanomux

import "strings"

// C20: lists of HTTP methods.

// the parts of a list: the maximal runs of bytes other than comma and space

func partCount(s string) int {
	if s == "" {
		return 0
	}
	if s[0] == ',' || s[0] == ' ' {
		return partCount(s[1:])
	}
	i := strings.IndexAny(s, ", ")
	if i < 0 {
		return 1
	}
	return 1 + partCount(s[i+1:])
}

func part(s string, k int) string {
	if s == "" {
		return ""
	}
	if s[0] == ',' || s[0] == ' ' {
		return part(s[1:], k)
	}
	i := strings.IndexAny(s, ", ")
	if k <= 0 {
		return s[:ite(i < 0, len(s), i)]
	}
	if i < 0 {
		return ""
	}
	return part(s[i+1:], k-1)
}

// listedCount, listed: the number of methods in a list and the method at
// position k.
//
//gv:sealed
func listedCount(list string) int { return partCount(strings.TrimSpace(list)) }

//gv:sealed
func listed(list string, k int) string {
	return strings.ToUpper(part(strings.TrimSpace(list), k))
}

// an arbitrary position in a list
//
//gv:nodef
func anyIndex() int { return 0 }

//gv:contract toUpperSplitByCommaSpace
//gv:unseal listed listedCount
//gv:ghost anyIndex
//gv:prop C20 C07
func ct_toUpperSplitByCommaSpace(list string) (r []string) {
	t := strings.TrimSpace(list)
	k := anyIndex()
	ensures("count", len(r) == listedCount(list))
	ensures("parts", implies(0 <= k && k < len(r), r[k] == listed(list, k)))
	ensures("no empty parts", implies(0 <= k && k < len(r), r[k] != ""))
	invariant("no empty parts", func(str string, strs []string) bool {
		return implies(0 <= k && k < len(strs), strs[k] != "")
	})
	invariant("count", func(str string, strs []string) bool {
		return len(strs)+partCount(str) == partCount(t)
	})
	invariant("parts", func(str string, strs []string) bool {
		return implies(0 <= k && k < len(strs), strs[k] == strings.ToUpper(part(t, k)))
	})
	invariant("rest", func(str string, strs []string) bool {
		return implies(k >= len(strs), part(t, k) == part(str, k-len(strs)))
	})
	decreases(func(str string) int { return len(str) })
	terminates()
	return
}
