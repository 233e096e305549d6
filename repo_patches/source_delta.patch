From c97446c533cdc02d201e1e77c3cbaaf295383597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 01/14] fix: Template.Match must return the values as is when
 it doesn't match

---
 template.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/template.go b/template.go
index 96d46fb..374f371 100755
--- a/template.go
+++ b/template.go
@@ -433,6 +433,7 @@ func (t *Template) Match(
 	str string,
 	values TemplateValues,
 ) (bool, TemplateValues) {
+	var given = values
 	var ltslices = len(t.slices)
 	var k = ltslices
 	if t.wildcardIdx >= 0 {
@@ -444,7 +445,7 @@ func (t *Template) Match(
 			if strings.HasPrefix(str, t.slices[i].staticStr) {
 				str = str[len(t.slices[i].staticStr):]
 			} else {
-				return false, values
+				return false, given
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -453,7 +454,7 @@ func (t *Template) Match(
 				var v = str[:idxs[1]]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, given
 					}
 				} else {
 					if values == nil {
@@ -465,7 +466,7 @@ func (t *Template) Match(
 
 				str = str[idxs[1]:]
 			} else {
-				return false, values
+				return false, given
 			}
 		}
 	}
@@ -475,7 +476,7 @@ func (t *Template) Match(
 			if strings.HasSuffix(str, t.slices[i].staticStr) {
 				str = str[:len(str)-len(t.slices[i].staticStr)]
 			} else {
-				return false, values
+				return false, given
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -484,7 +485,7 @@ func (t *Template) Match(
 				var v = str[idxs[0][0]:]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, given
 					}
 				} else {
 					if values == nil {
@@ -496,7 +497,7 @@ func (t *Template) Match(
 
 				str = str[:idxs[0][0]]
 			} else {
-				return false, values
+				return false, given
 			}
 		}
 	}
@@ -513,7 +514,7 @@ func (t *Template) Match(
 			)
 		} else {
 			// Unreachable.
-			return false, values
+			return false, given
 		}
 	}
 
-- 
2.43.0


From a7d4d00bb41c2fe7f3330a46f0ddb2b761feb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 02/14] fix: Template.TryToApply must not accept a partially
 matching value

---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 374f371..e3f2c1f 100755
--- a/template.go
+++ b/template.go
@@ -541,7 +541,7 @@ func (t *Template) TryToApply(
 		if vi, vf := values.get(slc.valuePattern.name); vi >= 0 {
 			if slc.valuePattern.re != nil {
 				var idxs = slc.valuePattern.re.FindStringIndex(vf)
-				if idxs == nil || (idxs[0] != 0 && idxs[1] != len(vf)) {
+				if idxs == nil || idxs[0] != 0 || idxs[1] != len(vf) {
 					return "", newErr(
 						"%w value for %q",
 						ErrInvalidValue,
-- 
2.43.0


From fd955cee28756fd5e4d4b5e63f5498c4268f7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 03/14] fix: anchor every alternative of a regular expression
 segment

---
 template.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/template.go b/template.go
index e3f2c1f..91d031c 100755
--- a/template.go
+++ b/template.go
@@ -853,6 +853,41 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// hasBareAlternation returns true if the pattern has an alternation that's not
+// enclosed in a group. An anchor concatenated to such a pattern binds only to
+// the first or the last alternative.
+func hasBareAlternation(pattern string) bool {
+	if strings.Contains(pattern, `\Q`) {
+		return strings.IndexByte(pattern, '|') >= 0
+	}
+
+	var depth, chClsIdx = 0, -1
+	for i, lpattern := 0, len(pattern); i < lpattern; i++ {
+		switch ch := pattern[i]; {
+		case ch == '\\':
+			i++
+		case chClsIdx >= 0:
+			// The first character of the class may be a literal ']'.
+			if ch == ']' && i-chClsIdx > 1 &&
+				!(i-chClsIdx == 2 && pattern[i-1] == '^') {
+				chClsIdx = -1
+			}
+		case ch == '[':
+			chClsIdx = i
+		case ch == '(':
+			depth++
+		case ch == ')':
+			if depth--; depth < 0 {
+				return false // The pattern is invalid.
+			}
+		case ch == '|' && depth == 0:
+			return true
+		}
+	}
+
+	return false
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -868,6 +903,10 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	if hasBareAlternation(pattern) {
+		pattern = "(?:" + pattern + ")"
+	}
+
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-- 
2.43.0


From 470fc76de5d02746397e52a16122d0726a1e37a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 04/14] fix: repeated regular expression segments must not
 share the end anchor

---
 template.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index 91d031c..fa4acfd 100755
--- a/template.go
+++ b/template.go
@@ -1051,12 +1051,15 @@ func parse(tmplStr string) (
 	if vp != nil && vp.re != nil && wildcardIdx < 0 {
 		// The last segment is a value-pattern segment. So, its regexp
 		// must be modified to match the end of the string.
-		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		var re *regexp.Regexp
+		re, err = regexp.Compile(vp.re.String() + "$")
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		// The previous segments with the same name may share the value pattern.
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From 3f7836637e9d932defdba43e58446c10151b0945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 05/14] fix: a curly brace inside a character class doesn't
 nest

---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index fa4acfd..7b8b747 100755
--- a/template.go
+++ b/template.go
@@ -734,7 +734,7 @@ func dynamicSegment(tmplStrSlc string) (
 
 	for i, idx, chClsIdx := 1, 1, -1; i < ltmplStrSlc; i++ {
 		var ch = tmplStrSlc[i]
-		if ch == '{' {
+		if ch == '{' && chClsIdx < 0 {
 			depth++
 			continue
 		}
-- 
2.43.0


From 312a5361176d0e034c11f7591be8aeaa052f4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 06/14] fix: responder URLs must contain the unescaped static
 segments

---
 utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 65ed7a6..119a3ae 100755
--- a/utils.go
+++ b/utils.go
@@ -325,7 +325,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -338,7 +338,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
-- 
2.43.0


From d3ba967d8938a0872bc1d6337c7a45b643702cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 07/14] fix: static hosts must be looked up by their unescaped
 template

---
 router.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 568d8e5..c35aac6 100755
--- a/router.go
+++ b/router.go
@@ -732,7 +732,7 @@ func (ro *Router) RedirectAnyRequestAt(
 // different names or value names, the method returns an error.
 func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 	if tmpl.IsStatic() && ro.staticHosts != nil {
-		var h = ro.staticHosts[tmpl.Content()]
+		var h = ro.staticHosts[tmpl.UnescapedContent()]
 		if h != nil {
 			var stmpl = h.Template()
 			if stmpl == tmpl {
@@ -771,7 +771,7 @@ func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 func (ro *Router) replaceHost(oldH, newH *Host) error {
 	var tmpl = oldH.Template()
 	if tmpl.IsStatic() {
-		ro.staticHosts[tmpl.Content()] = newH
+		ro.staticHosts[tmpl.UnescapedContent()] = newH
 	} else {
 		var idx = -1
 		for i, h := range ro.patternHosts {
@@ -807,7 +807,7 @@ func (ro *Router) registerHost(h *Host) error {
 			ro.staticHosts = make(map[string]*Host)
 		}
 
-		ro.staticHosts[tmpl.Content()] = h
+		ro.staticHosts[tmpl.UnescapedContent()] = h
 	} else {
 		ro.patternHosts = append(ro.patternHosts, h)
 	}
-- 
2.43.0


From b1de2b31305f2477c5f48cb1fe5a4f178539c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 08/14] fix: an implicitly created root resource must have the
 router as its parent

---
 router.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router.go b/router.go
index c35aac6..93e3431 100755
--- a/router.go
+++ b/router.go
@@ -1114,6 +1114,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
-- 
2.43.0


From 8bab1b5d3456f6ab195f3545065baeba08d788bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 09/14] fix: Mw must not share the call state of the next
 handler between requests

---
 middleware.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..ec559ee 100755
--- a/middleware.go
+++ b/middleware.go
@@ -17,12 +17,10 @@ type Middleware func(next Handler) Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
 				var args = r.Context().Value(argsKey).(*Args)
 				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
 			},
 		)
 
@@ -31,13 +29,13 @@ func Mw(mw func(http.Handler) http.Handler) Middleware {
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
 			var c = context.WithValue(r.Context(), argsKey, args)
 			r = r.WithContext(c)
-			h.ServeHTTP(w, r)
 
-			if nextHasBeenCalled {
-				return args.handled
-			}
+			// If the middleware doesn't call the next handler, the request has
+			// been handled by the middleware itself.
+			args.handled = true
+			h.ServeHTTP(w, r)
 
-			return true
+			return args.handled
 		}
 	}
 }
-- 
2.43.0


From b93ae1f7be625fd3701b2859b06566f81a03ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 10/14] fix: redirects to a clean path or a trailing slash must
 keep the escaped path consistent

---
 host.go     |  6 +++---
 resource.go |  6 +++---
 utils.go    | 25 +++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..dc3cf90 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setPathOf(newURL)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -331,7 +331,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path += "/"
+				appendTrailingSlash(newURL)
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -341,7 +341,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				removeTrailingSlash(newURL)
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..63fc44e 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setPathOf(newURL)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -467,7 +467,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path += "/"
+			appendTrailingSlash(newURL)
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -477,7 +477,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			removeTrailingSlash(newURL)
 		}
 	}
 
diff --git a/utils.go b/utils.go
index 119a3ae..f492ceb 100755
--- a/utils.go
+++ b/utils.go
@@ -99,6 +99,21 @@ func cloneRequestURL(r *http.Request) *url.URL {
 	return url
 }
 
+// appendTrailingSlash appends a trailing slash to both forms of the URL's path.
+func appendTrailingSlash(url *url.URL) {
+	url.Path += "/"
+	if url.RawPath != "" {
+		url.RawPath += "/"
+	}
+}
+
+// removeTrailingSlash removes the trailing slash from both forms of the URL's
+// path.
+func removeTrailingSlash(url *url.URL) {
+	url.Path = strings.TrimSuffix(url.Path, "/")
+	url.RawPath = strings.TrimSuffix(url.RawPath, "/")
+}
+
 func toUpperSplitByCommaSpace(str string) []string {
 	str = strings.TrimSpace(str)
 	var strs []string
@@ -507,6 +522,16 @@ func (args *Args) pathHasTrailingSlash() bool {
 		args.path[len(args.path)-1] == '/'
 }
 
+// setPathOf sets the URL's path to the request's clean path.
+func (args *Args) setPathOf(u *url.URL) {
+	u.Path, u.RawPath = args.path, ""
+	if args.rawPath {
+		if path, err := url.PathUnescape(args.path); err == nil {
+			u.Path, u.RawPath = path, args.path
+		}
+	}
+}
+
 // -------------------------
 
 // HostPathValues returns the host and path values of the request's URL.
-- 
2.43.0


From 0c6c462b29b9a023754abb70f9f5d0bfc3bc5f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 11/14] fix: RegisteredHost must accept a template that
 contains only a name

---
 router.go   | 10 +++++++---
 template.go | 13 +++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 93e3431..66e9041 100755
--- a/router.go
+++ b/router.go
@@ -1025,9 +1025,13 @@ func (ro *Router) RegisteredHost(hostTmplStr string) *Host {
 	}
 
 	var h *Host
-	h, _, err = ro.registeredHost(hostTmplStr)
-	if err != nil {
-		panicWithErr("%w", err)
+	if name := onlyTemplateName(hostTmplStr); name != "" {
+		h = ro.HostNamed(name)
+	} else {
+		h, _, err = ro.registeredHost(hostTmplStr)
+		if err != nil {
+			panicWithErr("%w", err)
+		}
 	}
 
 	if h != nil {
diff --git a/template.go b/template.go
index 7b8b747..dd900bc 100755
--- a/template.go
+++ b/template.go
@@ -659,6 +659,19 @@ func templateNameAndContent(tmplStr string) (
 	return
 }
 
+// onlyTemplateName returns the name when the template string contains nothing
+// but a name. Otherwise, it returns an empty string.
+func onlyTemplateName(tmplStr string) string {
+	if tmplStr != "" {
+		name, content, err := templateNameAndContent(tmplStr)
+		if err == nil && content == "" {
+			return name
+		}
+	}
+
+	return ""
+}
+
 // staticSegment returns the static segment at the beginning of the template.
 // If the template doesn't start with a static segment, it's returned as is.
 func staticSegment(tmplStrSlc string) (
-- 
2.43.0


From 3ba238b9e8ad19da7a0d9ac93cc97be44f85bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 12/14] fix: Args.RemainingPath must be escaped

---
 utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.go b/utils.go
index f492ceb..2d99f78 100755
--- a/utils.go
+++ b/utils.go
@@ -543,6 +543,17 @@ func (args *Args) HostPathValues() HostPathValues {
 // that's below the responder's segment that is currently passing or handling
 // the request.
 func (args *Args) RemainingPath() string {
+	var path = args.remainingPath()
+	if !args.rawPath {
+		path = (&url.URL{Path: path}).EscapedPath()
+	}
+
+	return path
+}
+
+// remainingPath returns the remaining path in the form the request's path is
+// iterated.
+func (args *Args) remainingPath() string {
 	if args.reachedTheLastPathSegment() {
 		return ""
 	}
-- 
2.43.0


From 06de8eea333312ec08b6941cf8ebc9dfb0d500c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 13/14] fix: reject a pattern value with the wildcard's name in
 a template

A template like '{a}-{a:\d+}' matched strings with different texts for
the same value name.
---
 template.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/template.go b/template.go
index dd900bc..5e8c9f9 100755
--- a/template.go
+++ b/template.go
@@ -943,6 +943,15 @@ func appendDynamicSegmentTo(
 		return tss, valuePatterns, wildcardIdx, nil
 	}
 
+	if pattern != "" && wildcardIdx >= 0 &&
+		tss[wildcardIdx].valuePattern.name == vName {
+		return tss, valuePatterns, wildcardIdx, newErr(
+			"%w for a value %q",
+			ErrDifferentPattern,
+			vName,
+		)
+	}
+
 	if pattern == "" {
 		if wildcardIdx >= 0 {
 			var wc = tss[wildcardIdx]
-- 
2.43.0


From cb6a5be053d9e4d196f929fb1c00f1c7be6fff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 14/14] fix: a redirect URL that only starts with the letters
 'http' has no scheme

It was left relative, so the redirect depended on the request's path.
---
 requesthandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/requesthandler.go b/requesthandler.go
index 63159e8..ef36a14 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -616,7 +616,8 @@ func redirector(
 		)
 	}
 
-	if tUrl := strings.TrimPrefix(url, "http"); len(tUrl) == lUrl {
+	if !strings.HasPrefix(url, "http://") &&
+		!strings.HasPrefix(url, "https://") {
 		if url[0] != '/' {
 			url = "/" + url
 			lUrl = len(url)
-- 
2.43.0

