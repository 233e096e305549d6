package nanomux

import (
	"net/url"
	"context"
	"net/http"
	"regexp"
	"strings"
)

// Vocabulary of the contracts. These functions have no executable meaning:
// the verifier interprets them.

// clauses
func requires(c ...interface{})             {}
func ensures(c ...interface{})              {}
func check(c ...interface{})                {}
func modifies(c ...interface{})             {}
func deterministic(c ...interface{})          {}
func invariant(f ...interface{})            {}
func decreases(f ...interface{})            {}
func terminates()                           {}
func panics(c bool)                         {}
func elems(s interface{}) int               { return 0 }
func entries(m interface{}) int             { return 0 }
func fieldsOf(p interface{}) int            { return 0 }
func comps(s ...string) int                 { return 0 }
func anything() int                         { return 0 }

// terms
func old[T any](x T) T                                      { return x }
func atEntry[T any](x T) T                                  { return x }
func implies(a, b bool) bool                                { return !a || b }
func iff(a, b bool) bool                                    { return a == b }
func ite[T any](c bool, a, b T) T                           { return a }
func forall(lo, hi int, f func(i int) bool) bool            { return true }
func exists(lo, hi int, f func(i int) bool) bool            { return true }
func all(f interface{}) bool                                { return true }
func some(f interface{}) bool                               { return true }
func errIs(e, t error) bool                                 { return true }
func typeIs[T any](x interface{}) bool                      { return true }
func newObj(x interface{}) bool                             { return true }
func allocated(x interface{}) bool                          { return true }
func refEq(a, b interface{}) bool                           { return true }
func sameArray(a, b interface{}) bool                       { return true }
func sameSlice(a, b interface{}) bool                       { return true }
func mapHas(m, k interface{}) bool                          { return true }
func mapSame(m interface{}) bool                            { return true }
func nevAfterLoop() int                                    { return 0 }
func nev() int                                              { return 0 }
func evIs(i int, name string, args ...interface{}) bool     { return true }
func evName(i int) string                                   { return "" }
func evRet[T any](i int) (r T)                              { return }
func evArg[T any](i, j int) (r T)                           { return }
func at[T any](i int, x T) T                                { return x }
func middleware[T any](f func(T) T, x T) (r T)              { return }
func built(b strings.Builder) string                        { return "" }
func requestContext(r *http.Request) (c context.Context)      { return }
func contextValue(c, k interface{}) (r interface{})         { return }

var whatever interface{}

// tmplContent stands for the text Template.Content returns.
//
//gv:nodef
func tmplContent(name string, slices []_TemplateSegment) string { return "" }

func first[A, B any](a A, b B) A  { return a }
func second[A, B any](a A, b B) B { return b }

// regular expressions, abstractly
func reMatch(re *regexp.Regexp, s string) bool             { return false }
func reStart(re *regexp.Regexp, s string) int              { return 0 }
func reEnd(re *regexp.Regexp, s string) int                { return 0 }
func reCount(re *regexp.Regexp, s string) int              { return 0 }
func reString(re *regexp.Regexp) string                    { return "" }
func reValid(s string) bool                                { return false }
func reReplace(re *regexp.Regexp, s, by string) string     { return "" }

// what (*url.URL).EscapedPath gives for the two paths
func escapedPath(path, rawPath string) string { return "" }

// urlText: the text of the URL with the given scheme, host and paths
func urlText(u *url.URL, scheme, host, path, rawPath string) string { return "" }

func first3[A, B, C any](a A, b B, c C) A { return a }
func third[A, B, C any](a A, b B, c C) C  { return c }
