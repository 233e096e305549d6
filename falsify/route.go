package main

import (
	"context"
	"crypto/tls"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path"
	"sort"
	"strings"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

// A reference router: a tree with what is configured in it, and what has to
// happen to a request, step by step as the properties say.

type nd struct {
	id       int
	t        tm
	cfg      nm.Config // Secure and HasTrailingSlash come from the template
	host     bool
	root     bool
	methods  map[string]bool // the set methods and what their handlers return
	na       bool            // has a handler of not allowed methods
	redir    string
	rcode    int
	redirAny bool
	perm     int
	rh       bool // own redirect handler
	watch    bool // logs when the request is passed on to the children
	kids     []*nd
	up       *nd
	tree     *tree
	r        *nm.Resource
	h        *nm.Host
}

type reqLog struct {
	mu     sync.Mutex
	ev     []string
	others []map[string]string // the values of templates that aren't on the handler's way, by event
	nested func()              // something else that is done while the handler runs
	many   int                 // how many values the handler sets
}

func (l *reqLog) add(s string) { l.addWith(s, nil) }

func (l *reqLog) addWith(s string, others map[string]string) {
	l.mu.Lock()
	l.ev = append(l.ev, s)
	l.others = append(l.others, others)
	l.mu.Unlock()
}

type logKeyT struct{}

func logOf(r *http.Request) *reqLog {
	l, _ := r.Context().Value(logKeyT{}).(*reqLog)
	if l == nil {
		return &reqLog{}
	}
	return l
}

// argsSeen is what a handler sees in its arguments.
func argsSeen(l *reqLog, args *nm.Args, names []string) string {
	if args == nil {
		return "no args"
	}
	s := fmt.Sprintf("rem=%q", args.RemainingPath())
	for _, n := range names {
		s += fmt.Sprintf(" %s=%q", n, args.HostPathValues().Get(n))
	}
	if x := args.Get("k"); x != nil && x != interface{}(l) {
		s += " has values of another request"
	}
	for i := 0; i < l.many; i++ {
		if x := args.Get(i); x != nil && x != interface{}(l) {
			s += " has values of another request"
		}
		args.Set(i, l)
	}
	args.Set("k", l)
	switch {
	case args.CurrentResource() != nil:
		s += fmt.Sprintf(" at=%v", args.CurrentResource().SharedData())
	case args.Host() != nil:
		s += fmt.Sprintf(" at=%v", args.Host().SharedData())
	default:
		s += " at=<nil>"
	}
	return s
}

func (n *nd) names() []string {
	var r []string
	for x := n; x != nil; x = x.up {
		r = append(x.t.valueNames(), r...)
	}
	return r
}

func (n *nd) handler(kind string, ret bool) nm.Handler {
	names := n.names()
	id := n.id
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		l := logOf(r)
		seen := argsSeen(l, args, names)
		if fn := l.nested; fn != nil {
			l.nested = nil
			fn()
			if again := argsSeen(l, args, names); again != seen {
				seen = "first " + seen + ", after another request " + again
			}
		}
		others := map[string]string{}
		if args != nil && n.tree != nil {
			for _, k := range n.tree.all {
				if v := args.HostPathValues().Get(k); v != "" {
					others[k] = v
				}
			}
		}
		l.addWith(fmt.Sprintf("%s of %d: %s", kind, id, seen), others)
		return ret
	}
}

func setCommon() {
	nm.SetHandlerForNotFound(func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		logOf(r).add("not found")
		return true
	})
	nm.SetCommonRedirectHandler(func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
		logOf(r).add(fmt.Sprintf("common redirect %d %s", code, u))
		return true
	})
}

// make builds the real thing.
func (n *nd) make() {
	text := strings.ReplaceAll(n.t.text(), "/", "%2F")
	pre, post := "http://", ""
	if !n.host {
		pre = ""
	}
	if n.cfg.Secure {
		pre = "https://"
		if !n.host {
			pre = "https:///"
		}
	}
	if n.cfg.HasTrailingSlash {
		post = "/"
	}
	type common interface {
		SetSharedData(interface{})
		SetHandlerFor(string, nm.Handler)
		RedirectRequestTo(string, int)
		RedirectAnyRequestTo(string, int)
		SetPermanentRedirectCode(int)
		SetRedirectHandler(nm.RedirectHandler)
		RegisterResource(*nm.Resource)
		WrapRequestPasser(...nm.Middleware)
	}
	var c common
	switch {
	case n.host:
		n.h = nm.NewDormantHostUsingConfig(pre+text+post, n.cfg)
		c = n.h
	case n.root:
		if n.cfg.Secure {
			n.r = nm.NewDormantResourceUsingConfig("https:///", n.cfg)
		} else {
			n.r = nm.NewDormantResourceUsingConfig("/", n.cfg)
		}
		c = n.r
	default:
		n.r = nm.NewDormantResourceUsingConfig(pre+text+post, n.cfg)
		c = n.r
	}
	c.SetSharedData(n.id)
	var ms []string
	for m := range n.methods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		c.SetHandlerFor(m, n.handler(m, n.methods[m]))
	}
	if n.na {
		c.SetHandlerFor("!", n.handler("!", true))
	}
	if n.watch {
		id := n.id
		c.WrapRequestPasser(func(next nm.Handler) nm.Handler {
			return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
				logOf(r).add(fmt.Sprintf("passer of %d", id))
				return next(w, r, args)
			}
		})
	}
	if n.redir != "" {
		if n.redirAny {
			c.RedirectAnyRequestTo(n.redir, n.rcode)
		} else {
			c.RedirectRequestTo(n.redir, n.rcode)
		}
	}
	if n.perm != 0 {
		c.SetPermanentRedirectCode(n.perm)
	}
	if n.rh {
		id := n.id
		c.SetRedirectHandler(func(w http.ResponseWriter, r *http.Request, u string, code int, args *nm.Args) bool {
			logOf(r).add(fmt.Sprintf("redirect handler of %d: %d %s", id, code, u))
			return true
		})
	}
	for _, k := range n.kids {
		k.make()
		c.RegisterResource(k.r)
	}
}

func (n *nd) describe() string {
	s := fmt.Sprintf("[%d %q", n.id, n.t.text())
	if n.root {
		s = fmt.Sprintf("[%d root", n.id)
	}
	c := n.cfg
	for _, x := range []struct {
		b bool
		s string
	}{{c.SubtreeHandler, "subtree"}, {c.Secure, "secure"}, {c.RedirectsInsecureRequest, "redirects-insecure"}, {c.HasTrailingSlash, "tslash"}, {c.StrictOnTrailingSlash, "strict"}, {c.LenientOnTrailingSlash, "lenient-slash"}, {c.LenientOnUncleanPath, "lenient-unclean"}, {n.na, "own-405"}, {n.redirAny, "any"}, {n.rh, "own-redirect-handler"}, {n.watch, "watched"}} {
		if x.b {
			s += " " + x.s
		}
	}
	if len(n.methods) > 0 {
		s += fmt.Sprintf(" %v", n.methods)
	}
	if n.redir != "" {
		s += fmt.Sprintf(" ->%s(%d)", n.redir, n.rcode)
	}
	if n.perm != 0 {
		s += fmt.Sprintf(" code %d", n.perm)
	}
	for _, k := range n.kids {
		s += " " + k.describe()
	}
	return s + "]"
}

// tree is a router's content.
type tree struct {
	hosts []*nd
	root  *nd
	ro    *nm.Router
	all   []string // all value names
}

func (t *tree) enlist(n *nd) {
	n.tree = t
	t.all = append(t.all, n.t.valueNames()...)
	for _, k := range n.kids {
		t.enlist(k)
	}
}

func (t *tree) make() {
	t.ro = nm.NewRouter()
	t.all = nil
	for _, h := range t.hosts {
		t.enlist(h)
		h.make()
		t.ro.RegisterHost(h.h)
	}
	if t.root != nil {
		t.enlist(t.root)
		t.root.make()
		t.ro.RegisterResource(t.root.r)
	}
}

func (t *tree) describe() string {
	s := ""
	for _, h := range t.hosts {
		s += "host " + h.describe() + " "
	}
	if t.root != nil {
		s += t.root.describe()
	}
	return s
}

// ask is a request.
type ask struct {
	method, host string
	urlHost      string
	scheme       string
	path, raw    string
	query        string
	tls          bool
	wrapped      string // "", "host", "resource": what is asked directly
	direct       *nd
}

func (a ask) String() string {
	s := fmt.Sprintf("%s host=%q urlhost=%q path=%q", a.method, a.host, a.urlHost, a.path)
	if a.raw != "" {
		s += fmt.Sprintf(" rawpath=%q", a.raw)
	}
	if a.scheme != "" {
		s += " scheme=" + a.scheme
	}
	if a.query != "" {
		s += "?" + a.query
	}
	if a.tls {
		s += " TLS"
	}
	if a.direct != nil {
		s += fmt.Sprintf(" directly to %d", a.direct.id)
	}
	return s
}

func (a ask) request(l *reqLog) *http.Request {
	r := &http.Request{Method: a.method, Host: a.host, URL: &url.URL{Scheme: a.scheme, Host: a.urlHost, Path: a.path, RawPath: a.raw, RawQuery: a.query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if a.tls {
		r.TLS = &tls.ConnectionState{}
	}
	return r.WithContext(context.WithValue(context.Background(), logKeyT{}, l))
}

// run is the reference's state for a request.
type run struct {
	a        ask
	p        string // the clean path
	raw      bool
	cleaned  bool
	segs     []string // still encoded
	tslash   bool
	sub      bool
	vals     map[string]string
	maybe    map[string]bool // names matched on the way to a responder that didn't handle
	cur      *nd
	ev       []string
	status   int
	allow    string
	reason   string
	vagueURL bool
}

func start(a ask) *run {
	s := &run{a: a, vals: map[string]string{}, maybe: map[string]bool{}}
	s.p, s.raw = a.path, false
	if a.raw != "" {
		s.p, s.raw = a.raw, true
	}
	if len(s.p) > 1 {
		ts := strings.HasSuffix(s.p, "/")
		if s.p[0] != '/' {
			s.p = "/" + s.p
		}
		c := path.Clean(s.p)
		if ts && c != "/" {
			c += "/"
		}
		s.cleaned = c != s.p
		s.p = c
	}
	rest := strings.TrimPrefix(s.p, "/")
	if strings.HasSuffix(rest, "/") {
		s.tslash = true
		rest = rest[:len(rest)-1]
	}
	if rest != "" {
		s.segs = strings.Split(rest, "/")
	}
	return s
}

func (s *run) log(f string, a ...interface{}) { s.ev = append(s.ev, fmt.Sprintf(f, a...)) }
func (s *run) notFound(why string) bool {
	s.reason = why
	s.log("not found")
	return true
}

// remaining: the rest of the path after i segments, as n sees it
func (s *run) remaining(n *nd, i int) string {
	if i == len(s.segs) {
		return ""
	}
	p := strings.Join(s.segs[i:], "/")
	if s.tslash {
		p += "/"
	}
	if n == nil || n.host || n.root || !n.cfg.HasTrailingSlash {
		p = "/" + p
	}
	if !s.raw {
		p = (&url.URL{Path: p}).EscapedPath()
	}
	return p
}

func (s *run) seen(n *nd, i int) string {
	r := fmt.Sprintf("rem=%q", s.remaining(n, i))
	for _, k := range n.names() {
		r += fmt.Sprintf(" %s=%q", k, s.vals[k])
	}
	return r + fmt.Sprintf(" at=%d", n.id)
}

func (n *nd) allowList() string {
	ms := []string{}
	for m := range n.methods {
		ms = append(ms, m)
	}
	if _, ok := n.methods["OPTIONS"]; !ok {
		ms = append(ms, "OPTIONS")
	}
	sort.Strings(ms)
	return strings.Join(ms, ", ")
}

func (s *run) redirector(n *nd, i int) bool {
	s.reason = "redirector"
	u := n.redir
	if !strings.HasPrefix(u, "http://") && !strings.HasPrefix(u, "https://") && !strings.HasPrefix(u, "/") {
		u = "/" + u
	}
	rem := strings.TrimPrefix(s.remaining(n, i), "/")
	if s.remaining(n, i) != "" {
		u = strings.TrimSuffix(u, "/") + "/" + rem
	}
	return s.redirect(n, u, n.rcode)
}

func (s *run) redirect(n *nd, u string, code int) bool {
	if n.rh {
		s.log("redirect handler of %d: %d %s", n.id, code, u)
	} else {
		s.log("common redirect %d %s", code, u)
	}
	return true
}

func (s *run) receive(n *nd, i int) bool {
	s.cur = n
	if n.redirAny && n.redir != "" {
		return s.redirector(n, i)
	}
	if n.host {
		if len(s.p) > 1 {
			if n.cfg.SubtreeHandler {
				s.sub = true
			}
			if s.pass(n, 0) {
				return true
			}
			s.cur = n
			if !n.cfg.SubtreeHandler {
				return s.notFound("no child")
			}
		}
		return s.answer(n, 0, n.cfg.SubtreeHandler && len(s.p) > 2)
	}
	if n.cfg.SubtreeHandler {
		s.sub = true
	}
	last := i == len(s.segs)
	if !last {
		if s.pass(n, i) {
			return true
		}
		if !n.cfg.SubtreeHandler {
			return false
		}
		s.cur = n
	}
	return s.answer(n, i, last)
}

func (s *run) answer(n *nd, i int, slashMatters bool) bool {
	if len(n.methods) == 0 && n.redir == "" {
		return s.notFound("no handlers")
	}
	c := n.cfg
	redirect := false
	u := url.URL{Scheme: "http", Host: s.a.urlHost, Path: s.a.path, RawPath: s.a.raw, RawQuery: s.a.query}
	if u.Host == "" {
		u.Host = s.a.host
	}
	if s.a.tls {
		u.Scheme = "https"
	}
	if s.a.scheme != "" {
		u.Scheme = s.a.scheme
	}
	if c.Secure && !s.a.tls {
		if !c.RedirectsInsecureRequest {
			return s.notFound("insecure")
		}
		redirect = true
		u.Scheme = "https"
		s.reason = "insecure"
	}
	if s.cleaned && !(c.LenientOnUncleanPath || c.HandlesThePathAsIs) {
		redirect = true
		s.reason = "unclean"
		u.Path, u.RawPath = s.p, ""
		if s.raw {
			u.RawPath = s.p
			var err error
			if u.Path, err = url.PathUnescape(s.p); err != nil {
				s.vagueURL = true // no real request has such a path
			}
		}
	}
	if slashMatters && !(c.LenientOnTrailingSlash || c.HandlesThePathAsIs) {
		ts := s.tslash
		if c.HasTrailingSlash != ts && !n.root {
			if c.StrictOnTrailingSlash {
				return s.notFound("slash")
			}
			redirect = true
			s.reason = "slash"
			if s.cleaned && (c.LenientOnUncleanPath || c.HandlesThePathAsIs) {
				s.vagueURL = true
			}
			if ts {
				u.Path = strings.TrimSuffix(u.Path, "/")
				u.RawPath = strings.TrimSuffix(u.RawPath, "/")
			} else {
				u.Path += "/"
				if u.RawPath != "" {
					u.RawPath += "/"
				}
			}
		}
	}
	if redirect {
		code := nm.PermanentRedirectCode()
		if n.perm != 0 {
			code = n.perm
		}
		return s.redirect(n, u.String(), code)
	}
	if n.redir != "" {
		return s.redirector(n, i)
	}
	s.reason = "handled"
	if ret, ok := n.methods[s.a.method]; ok {
		s.log("%s of %d: %s", s.a.method, n.id, s.seen(n, i))
		return ret
	}
	if s.a.method == "OPTIONS" {
		s.status, s.allow = 200, n.allowList()
		s.log("options of %d", n.id)
		return true
	}
	if n.na {
		s.log("! of %d: %s", n.id, s.seen(n, i))
		return true
	}
	s.status, s.allow = 405, n.allowList()
	s.log("not allowed of %d", n.id)
	return true
}

// pass gives the request to a child, i segments of the path are used up.
func (s *run) pass(n *nd, i int) bool {
	if n.watch {
		s.log("passer of %d", n.id)
	}
	if i < len(s.segs) {
		seg := s.segs[i]
		if s.raw {
			var err error
			if seg, err = url.PathUnescape(seg); err != nil {
				s.reason = "400"
				s.status = 400
				s.log("bad request")
				return true
			}
		}
		var kid *nd
		var vs *vals
		given := newVals()
		for k, v := range s.vals {
			given.set(k, v)
		}
		for _, k := range n.kids {
			if k.t.static() && k.t.segs[0].lit == seg {
				kid = k
			}
		}
		for pass := 0; pass < 2 && kid == nil; pass++ {
			for _, k := range n.kids {
				wild := len(k.t.segs) == 1 && k.t.wild() == 0
				if k.t.static() || wild != (pass == 1) || kid != nil {
					continue
				}
				if ok, v := k.t.match(seg, given); ok {
					kid, vs = k, v
				}
			}
		}
		if kid != nil {
			if vs != nil {
				for k, v := range vs.m {
					s.vals[k] = v
				}
			}
			return s.receive(kid, i+1)
		}
	}
	if s.sub {
		return false
	}
	return s.notFound("no child")
}

func hostName(a ask) string {
	h := a.host
	if h == "" {
		h = a.urlHost
	}
	if n, _, err := net.SplitHostPort(h); err == nil {
		h = n
	}
	return h
}

func (t *tree) want(a ask) *run {
	s := start(a)
	if d := a.direct; d != nil {
		ok := false
		switch {
		case d.host:
			h := hostName(a)
			if h != "" {
				if m, v := d.t.match(h, newVals()); m {
					for k, x := range v.m {
						s.vals[k] = x
					}
					ok = s.receive(d, 0)
				}
			}
		case d.root:
			ok = s.receive(d, 0)
		default:
			if len(s.segs) > 0 {
				seg, err := s.segs[0], error(nil)
				if s.raw {
					seg, err = url.PathUnescape(seg)
				}
				if err != nil {
					s.log("bad request")
					s.status = 400
					return s
				}
				if m, v := d.t.match(seg, newVals()); m {
					for k, x := range v.m {
						s.vals[k] = x
					}
					ok = s.receive(d, 1)
				}
			}
		}
		if !ok {
			s.notFound("direct")
		}
		return s
	}
	h := hostName(a)
	var n *nd
	if h != "" {
		for _, x := range t.hosts {
			if x.t.static() && x.t.segs[0].lit == h {
				n = x
			}
		}
		for _, x := range t.hosts {
			if n == nil && !x.t.static() {
				if m, v := x.t.match(h, newVals()); m {
					n = x
					for k, y := range v.m {
						s.vals[k] = y
					}
				}
			}
		}
	}
	ok := false
	switch {
	case n != nil:
		ok = s.receive(n, 0)
	case t.root != nil && a.path != "":
		ok = s.receive(t.root, 0)
	default:
		ok = s.notFound("no host")
	}
	if !ok {
		s.notFound("not handled")
	}
	return s
}

// got is what really happens.
func (t *tree) got(a ask, l *reqLog) (ev []string, status int, allow []string) {
	w := httptest.NewRecorder()
	r := a.request(l)
	switch {
	case a.direct == nil:
		t.ro.ServeHTTP(w, r)
	case a.direct.host:
		a.direct.h.ServeHTTP(w, r)
	default:
		a.direct.r.ServeHTTP(w, r)
	}
	return l.ev, w.Code, w.Header()["Allow"]
}

func (t *tree) compare(a ask) (*run, error) {
	return t.compareWith(a, &reqLog{})
}

func (t *tree) compareWith(a ask, l *reqLog) (*run, error) {
	s := t.want(a)
	ev, code, allow := t.got(a, l)
	if err := s.differs(ev, code, allow); err != nil {
		return s, err
	}
	for i, o := range l.others {
		for k, v := range o {
			if s.vals[k] != v {
				return s, fmt.Errorf("in %q the value of %q is %q, the values on the way were %v", ev[i], k, v, s.vals)
			}
		}
	}
	return s, nil
}

func (s *run) differs(ev []string, code int, allow []string) error {
	var want []string
	for _, e := range s.ev {
		if !strings.HasPrefix(e, "options of") && !strings.HasPrefix(e, "not allowed of") && e != "bad request" {
			want = append(want, e)
		}
	}
	show := func() string {
		return fmt.Sprintf("\n    happened: %q, status %d, Allow %q\n    expected: %q, status %d, Allow %q", ev, code, allow, s.ev, s.status, s.allow)
	}
	if len(ev) != len(want) {
		return fmt.Errorf("%s", show())
	}
	for i := range ev {
		if ev[i] == want[i] {
			continue
		}
		if s.vagueURL {
			f1, f2 := strings.Fields(ev[i]), strings.Fields(want[i])
			if len(f1) == len(f2) && strings.Join(f1[:len(f1)-1], " ") == strings.Join(f2[:len(f2)-1], " ") {
				continue
			}
		}
		return fmt.Errorf("%s", show())
	}
	if s.status != 0 && code != s.status {
		return fmt.Errorf("%s", show())
	}
	if s.status == 0 && code != 200 {
		return fmt.Errorf("%s", show())
	}
	if s.allow != "" && (len(allow) != 1 || allow[0] != s.allow) || s.allow == "" && len(allow) > 0 {
		return fmt.Errorf("%s", show())
	}
	return nil
}

// gen says what may occur in a tree and its requests.
type gen struct {
	hosts, patterns, secure, slash, unclean, escape, subtree, falseRet, redirs, ownRedirect, methods, direct bool
	depth, width                                                                                             int
}

var statics = []string{"a", "b", "c", "ab", "a.b", "é", "x y", "{q}", "1", "a/b", "a+b", "a;b=1", "a&b", "a:b", "*", "%41", "A", "a%2Bb", "世界", "~a", "a?b", "a#b", "-", "_"}

func (f *F) p(n int) bool { return f.rnd.Intn(n) == 0 }

func (f *F) node(g gen, id *int, up *nd, host, root bool) *nd {
	*id++
	n := &nd{id: *id, host: host, root: root, up: up, methods: map[string]bool{}}
	c := &n.cfg
	if g.secure && f.p(2) {
		c.Secure = true
		c.RedirectsInsecureRequest = f.p(2)
	}
	if g.slash {
		c.HasTrailingSlash = !root && f.p(2)
		switch f.rnd.Intn(3) {
		case 0:
			c.StrictOnTrailingSlash = true
		case 1:
			c.LenientOnTrailingSlash = true
		}
	} else {
		c.LenientOnTrailingSlash = true
	}
	c.LenientOnUncleanPath = !g.unclean || f.p(3)
	if g.subtree {
		c.SubtreeHandler = f.p(3)
	}
	if !f.p(4) || g.methods {
		ms := []string{"GET", "POST", "OPTIONS", "PUT", "DELETE", "A", "Z"}
		for k := 1 + f.rnd.Intn(2); k > 0; k-- {
			n.methods[f.pick(ms[:3])] = !(g.falseRet && f.p(3))
		}
		if g.methods {
			for k := f.rnd.Intn(9); k > 0; k-- {
				n.methods[f.pick(ms)+f.pick([]string{"", "X", "AB"})] = true
			}
			n.na = f.p(3)
		}
	}
	n.watch = f.p(5)
	if g.redirs && f.p(3) {
		n.redir = f.pick([]string{"http://other.com", "https://other.com/x/", "/abs", "rel", "rel/x/", "/", "httpx"})
		n.rcode = []int{301, 302, 307, 308}[f.rnd.Intn(4)]
		n.redirAny = f.p(3)
	}
	if g.ownRedirect {
		if f.p(3) {
			n.perm = []int{301, 308}[f.rnd.Intn(2)]
		}
		n.rh = f.p(3)
	}
	return n
}

// dynamic templates of a child; the first character classes overlap on purpose
func (f *F) dyn(id int) []seg {
	v := fmt.Sprintf("v%d", id)
	u := fmt.Sprintf("u%d", id)
	switch f.rnd.Intn(7) {
	case 0:
		return []seg{{name: v, p: &pats[0]}}
	case 1:
		return []seg{{name: v, p: &pats[1]}}
	case 2:
		return []seg{{lit: "a"}, {name: v, p: &pats[1]}}
	case 3:
		return []seg{{name: v, p: &pats[1]}, {lit: "-"}, {name: v, p: &pats[1], bare: true}}
	case 4:
		return []seg{{name: v, p: &pats[2]}, {name: u}}
	case 5:
		return []seg{{lit: "x"}, {name: u}, {name: v, p: &pats[0]}}
	}
	return []seg{{name: v, p: &pats[1]}, {lit: "."}, {name: u, p: &pats[1]}}
}

func (f *F) grow(g gen, id *int, n *nd, depth int) {
	if depth == 0 {
		return
	}
	used := map[string]bool{}
	wild := false
	w := f.rnd.Intn(g.width + 1)
	if depth == 1 && f.p(60) {
		w = 40
	}
	for k := w; k > 0; k-- {
		c := f.node(g, id, n, false, false)
		switch {
		case g.patterns && f.p(2):
			c.t.segs = f.dyn(c.id)
			if w > 20 && f.p(2) {
				c.t.segs = append([]seg{{lit: fmt.Sprintf("p%d", k)}}, c.t.segs...)
				if c.t.segs[1].lit != "" {
					c.t.segs[1].lit = c.t.segs[0].lit + c.t.segs[1].lit
					c.t.segs = c.t.segs[1:]
				}
			}
			key := ""
			for _, s := range c.t.segs {
				if s.lit != "" {
					key += s.lit
				} else if s.p != nil {
					key += "<" + s.p.re + ">"
				} else {
					key += "*"
				}
			}
			if used[key] {
				continue
			}
			used[key] = true
		case g.patterns && !wild && f.p(3):
			wild = true
			c.t.segs = []seg{{name: fmt.Sprintf("w%d", c.id)}}
		default:
			m := 3
			if g.escape {
				m = len(statics)
			}
			l := statics[f.rnd.Intn(m)]
			if w > 20 {
				l = fmt.Sprintf("s%d", k)
			}
			if used[l] {
				continue
			}
			used[l] = true
			c.t.segs = []seg{{lit: l}}
		}
		n.kids = append(n.kids, c)
		f.grow(g, id, c, depth-1)
	}
}

func (f *F) tree(g gen) *tree {
	id := 0
	t := &tree{}
	if g.hosts {
		used := map[string]bool{}
		for k := f.rnd.Intn(4); k > 0; k-- {
			h := f.node(g, &id, nil, true, false)
			if f.p(2) {
				l := f.pick([]string{"h.com", "x.h.com", "{h}.com", "1.com", "H.com", "[::1]", "::1", "h.com."})
				if used[l] {
					continue
				}
				used[l] = true
				h.t.segs = []seg{{lit: l}}
			} else {
				i := f.rnd.Intn(3)
				if used[fmt.Sprint(i)] {
					continue
				}
				used[fmt.Sprint(i)] = true
				v := fmt.Sprintf("h%d", h.id)
				h.t.segs = [][]seg{{{name: v, p: &pats[1]}, {lit: ".h.com"}}, {{name: v}, {lit: ".com"}}, {{name: v, p: &pats[0]}, {lit: ".com"}}}[i]
			}
			t.hosts = append(t.hosts, h)
			f.grow(g, &id, h, g.depth)
		}
	}
	if len(t.hosts) == 0 || !f.p(3) {
		t.root = f.node(g, &id, nil, false, true)
		t.root.t.segs = []seg{{lit: "/"}}
		f.grow(g, &id, t.root, g.depth)
	}
	return t
}

func (f *F) ask(g gen, t *tree) ask {
	a := ask{method: f.pick([]string{"GET", "GET", "POST", "OPTIONS", "HEAD", "CONNECT"}), host: "h.com", tls: g.secure && f.p(2)}
	if f.p(6) {
		a.scheme = f.pick([]string{"http", "https", "ws"})
	}
	if g.methods {
		a.method = f.pick([]string{"GET", "POST", "OPTIONS", "PUT", "DELETE", "A", "AX", "AAB", "Z", "ZX", "ZAB", "GETX", "POSTAB", "PUTX", "DELETEX", "B", "HEAD", "TRACE", "PATCH", "CONNECT", "G", "get", "Get", "", "!", "*", "get"})
	}
	n := t.root
	if len(t.hosts) > 0 {
		a.host = f.pick([]string{"h.com", "x.h.com", "{h}.com", "1.com", "12.com", "ab.h.com", "q.com", "nothing", "", "H.com", "h.com.", "X.h.com", "::1", "[::1]", "1.com%"})
		if f.p(2) {
			n = t.hosts[f.rnd.Intn(len(t.hosts))]
			a.host = f.sample(n.t, nil)
		}
		switch f.rnd.Intn(6) {
		case 0:
			a.host += ":80"
		case 1:
			a.urlHost, a.host = a.host, ""
		case 2:
			a.urlHost = f.pick([]string{"h.com", "other.com:8080"})
		case 3:
			a.host = f.pick([]string{a.host, "[::1]:80", "[::1]", "::1", ":80", "h.com:", "a:b:c", "h.com:80:90", "[h.com]:80", "h.com:x", a.host + ":8080"})
		}
		if f.p(8) {
			n = t.root
		}
	}
	// a path down the tree
	enc := func(s string) string {
		if !g.escape {
			return s
		}
		return s
	}
	var segs []string
	for n != nil && len(n.kids) > 0 && !f.p(6) {
		n = n.kids[f.rnd.Intn(len(n.kids))]
		segs = append(segs, enc(f.sample(n.t, nil)))
	}
	for f.p(3) || len(segs) > 4 && len(segs) < 40 && !f.p(12) {
		segs = append(segs, f.pick([]string{"a", "b", "q", "12", "ab", "x1", "a-a", "abc", "..q", "é", "A", "B", "a+b", "+", "a b", "%41", "a;b", "...", "a:b", "~", strings.Repeat("a", 300), strings.Repeat("1", 70)}))
	}
	esc := g.escape && f.p(2)
	p, raw := "", ""
	for _, s := range segs {
		if s == "" {
			s = "e"
		}
		p += "/" + s
		r := url.PathEscape(s)
		if f.p(4) {
			// needless encoding
			r = strings.ReplaceAll(r, "a", "%61")
		}
		if esc && f.p(12) {
			r = f.pick([]string{"a%zz", "%", "%4", "a%2"})
		}
		raw += "/" + r
	}
	if p == "" || f.p(4) {
		p += "/"
		raw += "/"
	}
	if g.unclean && f.p(2) {
		k := f.pick([]string{"//", "/./", "/x/../"})
		i := f.rnd.Intn(strings.Count(p, "/"))
		cut := func(s string) string {
			for j := range s {
				if s[j] == '/' {
					if i == 0 {
						return s[:j] + k + s[j+1:]
					}
					i--
				}
			}
			return s
		}
		j := i
		p = cut(p)
		i = j
		raw = cut(raw)
	}
	if f.p(30) {
		p, raw = "", ""
	}
	a.path = p
	if esc {
		a.raw = raw
		if u, err := url.PathUnescape(raw); err == nil {
			a.path = u
			if f.p(2) {
				a.raw = (&url.URL{Path: u, RawPath: raw}).EscapedPath()
			}
		}
	} else if strings.Contains(p, "%") && !g.escape {
		a.path = strings.ReplaceAll(p, "%", "")
	}
	if g.unclean || g.secure || g.slash {
		a.query = f.pick([]string{"", "q=1", "a=%2F&b"})
	}
	if g.direct && f.p(2) {
		var all []*nd
		var walk func(n *nd)
		walk = func(n *nd) {
			all = append(all, n)
			for _, k := range n.kids {
				walk(k)
			}
		}
		for _, h := range t.hosts {
			walk(h)
		}
		if t.root != nil {
			walk(t.root)
		}
		a.direct = all[f.rnd.Intn(len(all))]
		if !a.direct.host && !a.direct.root {
			// values of templates above are not known then
			if f.p(2) {
				rest := ""
				if len(segs) > 0 {
					rest = "/" + segs[len(segs)-1]
				}
				a.path, a.raw = "/"+f.sample(a.direct.t, nil)+rest, ""
			}
		}
	}
	return a
}

// routes runs random requests against random trees.
func (f *F) routes(g gen, only ...string) {
	setCommon()
	for f.More() {
		t := f.tree(g)
		if p, v := try(t.make); p {
			f.Case("registration", t.describe(), func() error { return fmt.Errorf("panics: %v", v) })
		}
		for k := 0; k < 25; k++ {
			a := f.ask(g, t)
			f.Case("request", t.describe()+" request "+a.String(), func() error {
				_, err := t.compare(a)
				return err
			})
		}
	}
}

func init() {
	props["C07"] = func(f *F) { c07(f); f.routes(gen{methods: true, depth: 1, width: 2}) }
	props["C09"] = func(f *F) {
		f.routes(gen{secure: true, redirs: true, ownRedirect: true, subtree: true, depth: 2, width: 2, hosts: true})
	}
	props["C10"] = func(f *F) {
		c10(f)
		f.routes(gen{slash: true, unclean: true, escape: true, ownRedirect: true, subtree: true, secure: true, depth: 2, width: 2, hosts: true})
	}
	props["C11"] = func(f *F) { f.routes(gen{patterns: true, escape: true, subtree: true, falseRet: true, hosts: true, depth: 2, width: 6}) }
	props["C12"] = func(f *F) {
		f.routes(gen{patterns: true, subtree: true, falseRet: true, escape: true, slash: false, hosts: true, depth: 4, width: 2})
	}
	props["C13"] = func(f *F) { c13(f); f.routes(gen{escape: true, subtree: true, depth: 3, width: 2, patterns: true}) }
	props["C15"] = func(f *F) { f.routes(gen{hosts: true, depth: 1, width: 1, direct: true}) }
	props["C21"] = func(f *F) {
		c21(f)
		f.routes(gen{redirs: true, ownRedirect: true, subtree: true, escape: true, depth: 3, width: 2, patterns: true, slash: true, hosts: true})
	}
}

func c07(f *F) {}
func c10(f *F) {}
func c13(f *F) {}
func c21(f *F) {}
