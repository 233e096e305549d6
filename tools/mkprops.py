#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here, in one readable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":list(observe),"hook_needed":None}})

p("C01","Parsing a template is total and yields a well-formed template",
  "Parsing any string as a template terminates without panicking and either reports an error or returns a template. A returned template has at least one segment, every segment is either non-empty literal text or a dynamic segment with a non-empty value name, two literal segments are never adjacent, and at most one dynamic segment has no pattern (the wildcard).",
  ["inputs"],"every string, of any length, with any bytes, given to the template parser",
  "the parser is a hand-written scanner over braces, backslashes, colons and character classes; the tests parse a few dozen chosen strings and the interesting states are combinations of escapes, nesting and string ends",
  ["template.go"],[("template name, static and dynamic segment scanners, segment list builder","template.go: templateNameAndContent, staticSegment, dynamicSegment, appendDynamicSegmentTo, parse, TryToParse")],
  [("Template.slices / wildcardIdx","ordered segments and the index of the wildcard segment, -1 when there is none","template.go")],["TryToParse","Parse"])

p("C02","Escapes denote literal text and names are split off exactly",
  "In a template, a backslash before a curly brace stands for the literal brace, an unescaped closing brace in literal text is an error, and all other literal bytes stand for themselves. A leading '$name:' (with '\\:' for a colon in the name) sets the template's name and nothing else, and a leading '\\$' is a literal dollar sign. A parsed template without dynamic segments reports exactly that literal text as its unescaped content.",
  ["inputs"],"every template string without dynamic segments, of any length and with any bytes",
  "tests sample a few escape positions; the property is about every combination of escape position, adjacent escapes, multi-byte characters and string ends",
  ["template.go"],[("literal text scanner","template.go: staticSegment"),("name scanner","template.go: templateNameAndContent"),("unescaped rendering","template.go: UnescapedContent")],
  [],["TryToParse","Template.Name","Template.UnescapedContent"])

p("C03","A template matches exactly the strings its segments describe",
  "A static template matches only its own literal text and a wildcard template matches every string. In general a match consumes the whole string: literal segments match their text, pattern segments before the wildcard match at the current start and those after it at the current end, the wildcard takes what remains, and a repeated value name requires equal text. On success the matched text of each dynamic segment is recorded under its name after the given values; on failure the given values are returned unchanged.",
  ["inputs"],"every template and every string, with any values passed in",
  "match correctness is a relation between all templates and all strings; the tests list a few dozen pairs and always start from empty values",
  ["template.go"],[("two-directional segment matching","template.go: Template.Match"),("value lookup","template.go: TemplateValues.get")],
  [("TemplateValues","ordered key/value pairs collected while matching","template.go")],["Template.Match","Args.HostPathValues"])

p("C04","Applying values to a template is exact or fails with the right error",
  "Applying values to a template returns the concatenation of its literal segments and the values of its dynamic segments, in order. It fails with an invalid-value error when a value is not entirely matched by its segment's pattern, and with a missing-value error when a value is absent, unless missing values are ignored, in which case the segment contributes nothing.",
  ["inputs"],"every template and every list of values, with and without ignoring missing values",
  "tests try a handful of values; partial pattern matches at either end, repeated keys and empty values are the cases that break",
  ["template.go"],[("application loop","template.go: Template.TryToApply, Template.Apply"),("value lookup","template.go: TemplateValues.get")],
  [],["Template.TryToApply","Template.Apply"])

p("C05","Template similarity is exact and symmetric",
  "Comparing two templates reports 'different' exactly when their kinds, segment sequences, literal texts or patterns differ; otherwise it reports 'different value names' exactly when some value name differs, otherwise 'different names' exactly when the template names differ, and otherwise 'the same'. The answer does not depend on which of the two templates is asked.",
  ["inputs"],"every pair of parsed templates",
  "a relation over pairs of templates of any length; tests compare a few dozen pairs in one direction",
  ["template.go"],[("pairwise comparison","template.go: Template.SimilarityWith, Similarity.Err")],[],["Template.SimilarityWith"])

p("C06","The HTTP method table behaves as a map for any number of methods",
  "After any sequence of setting handlers for methods, looking up a method returns the handler most recently set for it, and nothing for a method that was never set; setting one method never disturbs another. This holds for any number of methods, whether the table is searched linearly or by bisection, and the table never holds a method twice and stays in ascending order.",
  ["inputs","histories"],"every history of registrations over any set of method names and every looked-up name",
  "tests register a handful of methods; bisection only starts at fifteen entries and depends on the sort being right for every arrangement",
  ["requesthandler.go"],[("sorted pair list with linear or binary search","requesthandler.go: _MethodHandlerPairs.get, set, sort, quickSort")],
  [("_MethodHandlerPairs","sorted list of (method, handler) pairs","requesthandler.go")],["SetHandlerFor","HandlerOf","AllowedHTTPMethods"])

p("C07","A request is dispatched to exactly one handler by its HTTP method",
  "When a request reaches a host or resource that has handlers, exactly one handler runs: the one set for the request's method if there is one, otherwise the handler for not allowed methods, which by default answers 405 with an Allow header listing every set method once. Without any method handlers the not-found handler runs instead. Setting a first handler also provides an OPTIONS handler unless one is set, which answers 200 with the same Allow list.",
  ["inputs","configurations"],"every method string of a request and every table of handlers",
  "tests send a few standard methods to a few tables; the claim is about every method string and every table",
  ["requesthandler.go"],[("method dispatch","requesthandler.go: handleRequest, handleNotAllowedHTTPMethod, handleOptionsHTTPMethod, allowedHTTPMethods"),("registration","requesthandler.go: setHandlerFor, handlerOf")],
  [],["http.ResponseWriter","handler calls"])

p("C08","Responder configuration is applied exactly and keeps sticky properties",
  "Reading back the configuration of a host or resource returns the properties that were set, closed under their implications (redirecting insecure requests implies secure; handling the path as is equals being lenient on both the trailing slash and the unclean path). Changing the configuration later never drops the secure or trailing slash properties given in the template, and never sets trailing slash properties on the root resource. Applying a configuration to a subtree changes only responders that have not been configured yet.",
  ["inputs","configurations","histories"],"every combination of the eight properties and every prior state of the responder",
  "256 configurations times every prior state; tests use a few",
  ["config.go","responder.go","utils.go"],[("bit flags and conversions","config.go: asFlags, asConfig, set, has"),("setting","responder.go: SetConfiguration, configure, SetConfigurationForSubtree; router.go: SetConfigurationForAll")],
  [("_ConfigFlags","bit set of the properties","config.go")],["Configuration","SetConfiguration"])

p("C09","A secure responder never serves a plain request",
  "When a host or resource is secure and a request that reaches it was not received over TLS, none of its method handlers and no request redirector of it run: the request is redirected to the https form of its URL if the responder redirects insecure requests, and is answered with the not-found handler otherwise.",
  ["inputs","configurations"],"every request and every configuration of a secure responder, at the end of the path or as a subtree handler",
  "depends on the product of eight configuration properties, path shapes and tree positions; tests cover a few combinations",
  ["host.go","resource.go"],[("security gate before the request handler","host.go and resource.go: handleOrPassRequest")],[],["handler calls","Location header"])

p("C10","Trailing-slash and unclean-path policy",
  "A request whose trailing slash differs from that of the responder at the end of its path is answered with not-found when the responder is strict, handled as is when it is lenient, and otherwise redirected to the same URL with the slash added or removed; a request with an unclean path is redirected to the clean path unless the responder is lenient on it. The redirect uses the responder's own permanent redirect code and redirect handler if set and the common ones otherwise, keeps host, query and escaping, and happens without calling any method handler. When nothing differs, the request is handled without a redirect.",
  ["inputs","configurations"],"every request path and every configuration of the responder at the end of the path",
  "the decision depends on configuration bits, path shape (escaped, unclean, trailing slash) and TLS state together",
  ["host.go","resource.go","utils.go"],[("policy gate","host.go and resource.go: handleOrPassRequest"),("URL rewriting","utils.go: cloneRequestURL, setPathOf, appendTrailingSlash, removeTrailingSlash"),("clean path computation","utils.go: getArgs")],[],["redirect handler calls","Location header"])

p("C11","Static, then pattern in registration order, then wildcard",
  "A path segment is passed to the static child resource with exactly that text if there is one, otherwise to the first registered pattern child that matches it, otherwise to the wildcard child. At most one child receives the request, values of children that did not match are never recorded, and an undecodable segment is answered with 400.",
  ["inputs","configurations"],"every set of children, every path segment",
  "tests use a few children; the rule is over every set of children and every segment",
  ["responder.go"],[("child selection","responder.go: passRequest")],
  [("staticResources, patternResources, wildcardResource","children by kind","responder.go")],["handler calls","Args.HostPathValues"])

p("C12","Unmatched remainders fall back to the nearest subtree handler or not-found",
  "When no child handles the rest of the path, the deepest responder on the path that is a subtree handler handles the request with the remaining path as seen from itself and with itself as the current responder; if there is none, the not-found handler answers. Passing a request down and back up leaves the position in the path as it was.",
  ["inputs","configurations"],"every tree, every path, every placement of subtree handlers",
  "depends on the interplay of position bookkeeping across levels; tests use a few fixed trees",
  ["responder.go","resource.go","host.go","utils.go"],[("descent with saved position","responder.go: passRequest; resource.go, host.go: handleOrPassRequest"),("position and remaining path","utils.go: nextPathSegment, reachedTheLastPathSegment, RemainingPath")],
  [("Args.currentPathSegmentIdx, Args.subtreeExists","position in the path; whether a subtree handler is above","utils.go")],["Args.RemainingPath","Args.CurrentResource"])

p("C13","Iterating a request path yields each segment once, decoded once",
  "Going through a request's path yields the root, then each segment between slashes in order, each exactly once, and then stays at the end. Segments come from the escaped path and are percent-decoded exactly once when the request has one, so an encoded slash never splits a segment, and are taken literally otherwise; iteration never reads outside the path.",
  ["inputs"],"every request path, escaped or not, of any length",
  "index arithmetic over every string; tests use a few paths",
  ["utils.go"],[("segment iterator","utils.go: nextPathSegment, reachedTheLastPathSegment, pathHasTrailingSlash"),("template path iterator","utils.go: _PathSegmentIterator")],[],["resource selection","Args.RemainingPath"])

p("C14","Requests never see another request's arguments",
  "Every request starts with arguments that have no host or path values, no user-set values, no handled mark and the position at the start of its own path, no matter what earlier requests left behind in recycled arguments.",
  ["histories","schedules"],"every history of requests served before, including ones that set values, failed or were short-circuited",
  "arguments are recycled through a pool, so a leak needs a particular earlier request; unit tests start from fresh state",
  ["utils.go","router.go","host.go","resource.go","requesthandler.go"],[("recycling","utils.go: getArgs, getArgsFromThePool, putArgsInThePool"),("serving entry points","router.go, host.go, resource.go, requesthandler.go: ServeHTTP")],
  [("argsPool","recycled Args","utils.go")],["Args.HostPathValues","Args.Get"])

p("C15","The router picks the host by name without port, then the root resource",
  "A request is passed to the static host equal to its host name (taken from the Host header or else the URL, with a port removed), otherwise to the first registered pattern host that matches it. If no host matches, a request with a path goes to the root resource, and the not-found handler answers if there is none.",
  ["inputs","configurations"],"every host string, with or without port, and every set of hosts",
  "tests use a few host strings; ports, IPv6 literals and overlap of host patterns are the product",
  ["router.go"],[("host selection","router.go: passRequest")],[],["handler calls"])

p("C16","Registration puts a responder in exactly one place and looks it up there",
  "Registering a resource adds it to its parent's children exactly once according to its template's kind and records that parent; all other children stay as they were. Looking up a child by template or name, listing children and asking whether a child exists agree with what has been registered.",
  ["histories","inputs"],"every prior set of children and every registered template",
  "over every history of registrations; tests build a few trees",
  ["responder.go"],[("child sets","responder.go: registerResource, replaceResource, resourceWithTemplate, ChildResourceNamed, ChildResources, HasChildResource, HasAnyChildResources, setParent")],
  [("staticResources, patternResources, wildcardResource","children by kind","responder.go")],["RegisteredResource","ChildResources"])

p("C17","Names and value names are unique along every URL",
  "Registering a resource fails, leaving no such resource reachable, when its template's name equals the name of a responder above it or when it shares a value name with a template above it; the same holds for the resources below it. The check walks all the way up to the host or root.",
  ["histories","inputs"],"every tree and every newly registered template or subtree",
  "the duplicate may be any number of levels away; tests try a few depths",
  ["responder.go","template.go"],[("upward name check","responder.go: checkNamesAreUniqueInTheURL, checkChildResourceNamesAreUniqueInURL, validate; template.go: HasValueName, ValueNames")],[],["Resource","RegisterResource"])

p("C18","Middlewares wrap in order, once, and only what they were asked to wrap",
  "Wrapping a handler with middlewares m1..mn replaces it by mn(...m1(h)), each applied exactly once, and leaves all other handlers as they were. Wrapping for '*' wraps every method's handler, for '!' the handler of not allowed methods, for listed methods exactly those; a subtree operation reaches every responder of the subtree exactly once.",
  ["inputs","configurations","histories"],"every list of middlewares, every table of handlers, every tree",
  "tests use one or two middlewares on small trees; order and multiplicity errors show with more",
  ["requesthandler.go","responder.go","middleware.go","utils.go","router.go"],[("wrapping loops","requesthandler.go: wrapHandlerOf, WrapCommonRedirectHandler, WrapHandlerOfNotFound; responder.go: WrapRequestPasser, WrapRequestHandler, WrapRedirectHandler"),("subtree traversal","utils.go: traverseAndCall; middleware.go: wrapEveryHandlerOf")],[],["order of middleware calls"])

p("C19","URL templates are split into scheme, host, path and trailing slash exactly",
  "Splitting a URL template yields parts from which it can be put together again: the scheme decides security, the text up to the first slash after the scheme is the host template, the rest is the path template, and one trailing slash is taken off and reported. A template without a scheme has no host; an empty or incomplete template is an error.",
  ["inputs"],"every string given as a URL template",
  "string slicing at every boundary; tests use a few URLs",
  ["utils.go"],[("splitting","utils.go: splitHostAndPath, splitURL, getHost, splitPathSegments")],[],["Router.Resource","NewDormantResource"])

p("C20","Method lists are parsed the same for any separators and letter case",
  "A list of HTTP methods separated by any mix of commas and spaces is read as the sequence of its non-empty parts in upper case, in order, with nothing added, lost or merged; a list without parts is empty.",
  ["inputs"],"every string given as a list of methods",
  "tokenising over every string; tests use a few lists",
  ["utils.go"],[("tokeniser","utils.go: toUpperSplitByCommaSpace")],[],["SetHandlerFor","HandlerOf"])

p("C21","Redirects target the given URL joined with the remaining path",
  "A responder set to redirect requests calls its own redirect handler, or the common one, exactly once with the given code and the given URL joined to the request's remaining path by exactly one slash. Codes outside 300 to 399 and an empty URL are rejected, and a URL without an http or https scheme is made absolute with a leading slash.",
  ["inputs","configurations"],"every target URL, code and request path",
  "joining depends on both ends of two arbitrary strings; tests use a few",
  ["requesthandler.go","responder.go"],[("redirector","requesthandler.go: redirector; responder.go: RedirectRequestTo, RedirectAnyRequestTo")],[],["Location header","redirect handler calls"])

p("C22","Adapters call the wrapped handler exactly once and report what happened",
  "Converting a standard handler, handler function or middleware gives a nanomux one that calls it exactly once per request with the same writer, and a request carrying the request's arguments where promised, and reports the request as handled. A converted middleware that calls the next handler passes on its result and one that does not call it counts as having handled the request, independently of earlier or concurrent requests.",
  ["inputs","schedules","histories"],"every handler and middleware, every sequence or interleaving of requests",
  "state shared between requests shows only with particular sequences or interleavings",
  ["requesthandler.go","middleware.go"],[("adapters","requesthandler.go: Hr, FnHr, HrWithArgs, FnHrWithArgs; middleware.go: Mw")],[],["handler calls"])

p("C23","Responder URLs follow the tree and the values",
  "The URL of a responder has the https scheme exactly when the responder is secure, the host template of its host with the values applied, and the path made of the templates of the resources from the top down to it with the values applied, joined by slashes and ended by a slash exactly when the responder has a trailing slash or is the root. A missing or invalid value makes it fail instead.",
  ["inputs","configurations"],"every position in every tree and every list of values",
  "trees of any depth and values of any content; tests build a few URLs",
  ["utils.go","responder.go"],[("URL building","utils.go: responderURL; responder.go: URL")],[],["URL"])

p("C24","Request-scoped values and template values behave as maps",
  "Getting a key returns the value most recently set for it, and nothing if it was never set; setting a key never changes the value of another key. This holds for values set on a request's arguments and for template values.",
  ["inputs","histories"],"every sequence of sets and every key",
  "histories of sets over arbitrary keys; tests use a few",
  ["utils.go","template.go"],[("association lists","utils.go: _Args.set, get, Args.Set, Get; template.go: TemplateValues.Set, Get, get")],[],["Args.Get","TemplateValues.Get"])

p("C25","Serving requests never changes the routing tree",
  "Serving a request reads but never changes hosts, resources, their templates, configuration, handlers or children, or the package-wide settings; all per-request state is kept in the request's own arguments. Hence any number of requests can be served at the same time with the same result as one by one.",
  ["schedules","histories","inputs"],"every request and every interleaving of requests",
  "a data race or a leaked change needs a particular interleaving or order of requests",
  ["router.go","host.go","resource.go","responder.go","requesthandler.go","utils.go","template.go"],[("request-time code","ServeHTTP, passRequest, handleOrPassRequest, handleRequest, Match, nextPathSegment, RemainingPath, redirect closures")],[],["responses"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
