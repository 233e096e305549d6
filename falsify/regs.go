package main

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

// ---- C16: registration ----

type mn struct {
	text string
	name string
	r    *nm.Resource
	kids []*mn
	up   *mn
	has  bool // handlers
}

func (n *mn) kid(text string) *mn {
	for _, k := range n.kids {
		if k.text == text {
			return k
		}
	}
	return nil
}

func depthTmpl(f *F, d int) (text, name string) {
	switch f.rnd.Intn(8) {
	case 0:
		return fmt.Sprintf(`{n%d:\d+}`, d), fmt.Sprintf("n%d", d)
	case 1:
		return fmt.Sprintf(`x{m%d:[a-z]+}`, d), fmt.Sprintf("m%d", d)
	case 2:
		return fmt.Sprintf(`{w%d}`, d), fmt.Sprintf("w%d", d)
	case 3:
		return fmt.Sprintf(`$name%d:s`, d), fmt.Sprintf("name%d", d)
	case 4:
		return fmt.Sprintf(`$k%d:{l%d:[0-9]{2}}-{o%d}`, d, d, d), fmt.Sprintf("k%d", d)
	case 5:
		return `c\{d`, ""
	}
	return f.pick([]string{"a", "b", "a%2Fb"}), ""
}

type holder interface {
	Resource(string) *nm.Resource
	RegisterResource(*nm.Resource)
	RegisterResourceUnder(string, *nm.Resource)
	RegisteredResource(string) *nm.Resource
	ChildResourceNamed(string) *nm.Resource
	ChildResources() []*nm.Resource
	HasChildResource(*nm.Resource) bool
	HasAnyChildResources() bool
}

func (n *mn) ensure(f *F, d int, segs []string, names []string) *mn {
	x := n
	for i, s := range segs {
		k := x.kid(s)
		if k == nil {
			k = &mn{text: s, name: names[i], up: x}
			x.kids = append(x.kids, k)
		}
		x = k
	}
	return x
}

// absorb moves the children of src to dst.
func (dst *mn) absorb(src *mn) error {
	for _, k := range src.kids {
		if err := dst.keep(k); err != nil {
			return err
		}
	}
	src.kids = nil
	return nil
}

func (p *mn) keep(n *mn) error {
	old := p.kid(n.text)
	if old == nil {
		n.up = p
		p.kids = append(p.kids, n)
		return nil
	}
	if !n.has {
		return old.absorb(n)
	}
	if !old.has {
		if err := n.absorb(old); err != nil {
			return err
		}
		for i := range p.kids {
			if p.kids[i] == old {
				p.kids[i] = n
			}
		}
		n.up = p
		return nil
	}
	return errors.New("both have handlers")
}

func (p *mn) wouldClash(n *mn) bool {
	old := p.kid(n.text)
	if old == nil {
		return false
	}
	if old.has && n.has {
		return true
	}
	for _, k := range n.kids {
		if old.wouldClash(k) {
			return true
		}
	}
	return false
}

// learn takes over the resources that were made on the way.
func (n *mn) learn(h holder) {
	for _, k := range n.kids {
		if k.r == nil {
			k.r = h.RegisteredResource(k.text)
		}
		if k.r != nil {
			k.learn(k.r)
		}
	}
}

func (n *mn) check(h holder, host *nm.Host, ro *nm.Router, self *nm.Resource, path string) error {
	got := h.ChildResources()
	if len(got) != len(n.kids) {
		var ts []string
		for _, g := range got {
			ts = append(ts, g.Template().String())
		}
		return fmt.Errorf("%q has %d children %q, %d were registered", path, len(got), ts, len(n.kids))
	}
	if h.HasAnyChildResources() != (len(n.kids) > 0) {
		return fmt.Errorf("HasAnyChildResources of %q is %v", path, h.HasAnyChildResources())
	}
	other := nm.NewDormantResource("zzz")
	if h.HasChildResource(other) || h.HasChildResource(nil) {
		return fmt.Errorf("%q says it has a resource that was never registered", path)
	}
	for _, k := range n.kids {
		p := path + "/" + k.text
		if k.r == nil {
			return fmt.Errorf("%q is not found", p)
		}
		cnt := 0
		for _, g := range got {
			if g == k.r {
				cnt++
			}
		}
		if cnt != 1 {
			return fmt.Errorf("%q is %d times among the children", p, cnt)
		}
		if !h.HasChildResource(k.r) {
			return fmt.Errorf("HasChildResource(%q) is false", p)
		}
		if g := h.RegisteredResource(k.text); g != k.r {
			return fmt.Errorf("looking up %q gives another resource: %v", p, g)
		}
		if k.name != "" {
			if g := h.ChildResourceNamed(k.name); g != k.r {
				return fmt.Errorf("looking up name %q under %q gives another resource: %v", k.name, path, g)
			}
			if g := h.RegisteredResource("$" + k.name + ":"); g != k.r {
				return fmt.Errorf("looking up template %q under %q gives another resource", "$"+k.name+":", path)
			}
		}
		if k.r.Parent() != self {
			return fmt.Errorf("the parent of %q is another resource", p)
		}
		if k.r.Host() != host {
			return fmt.Errorf("the host of %q is another one", p)
		}
		if k.r.Router() != ro {
			return fmt.Errorf("the router of %q is another one", p)
		}
		if err := k.check(k.r, host, ro, k.r, p); err != nil {
			return err
		}
	}
	return nil
}

func (f *F) path(d, max int) (segs, names []string) {
	for k := 1 + f.rnd.Intn(max); k > 0; k-- {
		s, n := depthTmpl(f, d)
		segs = append(segs, s)
		names = append(names, n)
		d++
	}
	return
}

func init() {
	props["C16"] = func(f *F) {
		for f.More() {
			seed := f.rnd.Int63()
			_ = seed
			var hist []string
			f.Case("sequence", "", func() error {
				err := registrations(f, &hist)
				if err != nil {
					return fmt.Errorf("after %s: %v", strings.Join(hist, "; "), err)
				}
				return nil
			})
			f.Case("hosts", "", func() error {
				hist = nil
				err := hostRegistrations(f, &hist)
				if err != nil {
					return fmt.Errorf("after %s: %v", strings.Join(hist, "; "), err)
				}
				return nil
			})
		}
	}
}

func hostRegistrations(f *F, hist *[]string) error {
	ro := nm.NewRouter()
	type mh struct {
		name string
		h    *nm.Host
		has  bool
	}
	m := map[string]*mh{}
	all := []string{"http://a.com", "http://b.com", "http://$n1:c.com", `http://{n2:\d+}.com`, `http://$n3:{v:[a-z]+}.com`, `http://\{x\}.com`, `http://{n4}.com`}
	names := []string{"", "", "n1", "n2", "n3", "", "n4"}
	for k := 1 + f.rnd.Intn(6); k > 0; k-- {
		i := f.rnd.Intn(len(all))
		text := all[i]
		x := m[text]
		if f.p(2) {
			*hist = append(*hist, "Host "+text)
			h := ro.Host(text)
			if x == nil {
				m[text] = &mh{names[i], h, false}
			} else if x.h != h {
				return fmt.Errorf("Host(%q) gives another host", text)
			}
		} else {
			h := nm.NewDormantHost(text)
			has := f.p(2)
			if has {
				h.SetHandlerFor("GET", tagged("x"))
			}
			*hist = append(*hist, fmt.Sprintf("RegisterHost %s (handlers %v)", text, has))
			p, _ := try(func() { ro.RegisterHost(h) })
			switch {
			case x == nil:
				m[text] = &mh{names[i], h, has}
			case has && x.has:
				if !p {
					return fmt.Errorf("two hosts with handlers and the same template were registered")
				}
				continue
			case has:
				m[text] = &mh{names[i], h, true}
			}
			if p {
				return fmt.Errorf("panics")
			}
		}
		got := ro.Hosts()
		if len(got) != len(m) || ro.HasAnyHost() != (len(m) > 0) {
			return fmt.Errorf("the router has %d hosts, %d were registered", len(got), len(m))
		}
		for t, y := range m {
			cnt := 0
			for _, g := range got {
				if g == y.h {
					cnt++
				}
			}
			if cnt != 1 || !ro.HasHost(y.h) {
				return fmt.Errorf("host %q is %d times among the hosts, HasHost %v", t, cnt, ro.HasHost(y.h))
			}
			if ro.RegisteredHost(t) != y.h {
				return fmt.Errorf("RegisteredHost(%q) gives another host", t)
			}
			if y.name != "" && (ro.HostNamed(y.name) != y.h || ro.RegisteredHost("$"+y.name+":") != y.h) {
				return fmt.Errorf("the host named %q is another one", y.name)
			}
			if y.h.Router() != ro {
				return fmt.Errorf("the router of host %q is another one", t)
			}
		}
		if ro.HasHost(nm.NewDormantHost("http://zz.com")) {
			return fmt.Errorf("HasHost is true for a host that was never registered")
		}
	}
	return nil
}

func registrations(f *F, hist *[]string) error {
	ro := nm.NewRouter()
	var host *nm.Host
	var top holder
	var self *nm.Resource
	if f.p(2) {
		host = ro.Host("http://h.com")
		top = host
		*hist = append(*hist, "host http://h.com")
	} else {
		self = ro.Resource("/")
		top = self
		*hist = append(*hist, "root")
	}
	root := &mn{}
	pickNode := func() (*mn, holder, int, string) {
		n, h, d, p := root, top, 1, ""
		for len(n.kids) > 0 && f.p(2) {
			n = n.kids[f.rnd.Intn(len(n.kids))]
			h = n.r
			d++
			p += "/" + n.text
		}
		return n, h, d, p
	}
	for k := 1 + f.rnd.Intn(7); k > 0; k-- {
		n, h, d, at := pickNode()
		if d > 6 {
			continue
		}
		switch op := f.rnd.Intn(3); op {
		case 0:
			segs, names := f.path(d, 3)
			*hist = append(*hist, fmt.Sprintf("%q.Resource(%q)", at, strings.Join(segs, "/")))
			r := h.Resource(strings.Join(segs, "/"))
			x := n.ensure(f, d, segs, names)
			if x.r != nil && x.r != r {
				return fmt.Errorf("another resource is returned")
			}
			x.r = r
		default:
			var pre, pren []string
			if op == 2 {
				pre, pren = f.path(d, 2)
			}
			dd := d + len(pre)
			s, name := depthTmpl(f, dd)
			r := nm.NewDormantResource(s)
			x := &mn{text: s, name: name, r: r}
			desc := s
			if f.p(2) {
				segs, names := f.path(dd+1, 2)
				y := x.ensure(f, dd+1, segs, names)
				y.r = r.Resource(strings.Join(segs, "/"))
				desc += " with " + strings.Join(segs, "/")
				if f.p(2) {
					y.has = true
					y.r.SetHandlerFor("GET", tagged("x"))
					desc += " (handled)"
				}
				x.learn(r)
			}
			if f.p(2) {
				x.has = true
				r.SetHandlerFor("GET", tagged("x"))
				desc += " (handled)"
			}
			*hist = append(*hist, fmt.Sprintf("%q.Register %s under %q", at, desc, strings.Join(pre, "/")))
			q := n
			for _, s := range pre {
				if q != nil {
					q = q.kid(s)
				}
			}
			if q != nil && q.wouldClash(x) {
				p, _ := try(func() {
					if op == 1 {
						h.RegisterResource(r)
					} else {
						h.RegisterResourceUnder(strings.Join(pre, "/"), r)
					}
				})
				if !p {
					return fmt.Errorf("two resources with handlers and the same template were registered")
				}
				return nil // what has been moved isn't specified
			}
			if op == 1 {
				h.RegisterResource(r)
			} else {
				h.RegisterResourceUnder(strings.Join(pre, "/"), r)
			}
			if err := n.ensure(f, d, pre, pren).keep(x); err != nil {
				return nil
			}
		}
		root.learn(top)
		if err := root.check(top, host, ro, self, ""); err != nil {
			return err
		}
	}
	return nil
}

// ---- C17: unique names ----

func init() {
	props["C17"] = func(f *F) {
		for f.More() {
			// what's above: a host or the root, then a chain of resources
			type up struct {
				text, name string
				vals       []string
			}
			id := 0
			fresh := func(p string) string { id++; return fmt.Sprintf("%s%d", p, id) }
			mk := func(host bool, name string, val string) up {
				u := up{}
				switch {
				case val != "" && f.p(2):
					u.text = "{" + val + `:\d+}`
					u.vals = []string{val}
				case val != "":
					v2 := fresh("v")
					u.text = "a{" + val + "}{" + v2 + `:[a-z]+}`
					u.vals = []string{val, v2}
				default:
					u.text = fresh("s")
				}
				if host {
					u.text += ".com"
				}
				if name != "" {
					u.name = name
					u.text = "$" + name + ":" + u.text
				} else if len(u.vals) == 1 {
					u.name = u.vals[0]
				}
				return u
			}
			opt := func(p string) string {
				if f.p(2) {
					return fresh(p)
				}
				return ""
			}
			var chain []up
			host := f.p(2)
			if host {
				chain = append(chain, mk(true, opt("n"), opt("v")))
			}
			for k := f.rnd.Intn(4); k > 0; k-- {
				chain = append(chain, mk(false, opt("n"), opt("v")))
			}
			if len(chain) == 0 {
				continue
			}
			// the new one, with a chain below
			below := []up{}
			depth := 1 + f.rnd.Intn(3)
			at := f.rnd.Intn(depth)
			dup := ""
			for i := 0; i < depth; i++ {
				name, val := opt("n"), opt("v")
				if i == at && !f.p(4) {
					a := chain[f.rnd.Intn(len(chain))]
					switch {
					case a.name != "" && f.p(2):
						name = a.name
						dup = "name " + a.name
					case len(a.vals) > 0:
						val = a.vals[f.rnd.Intn(len(a.vals))]
						dup = "value name " + val
					}
				}
				below = append(below, mk(false, name, val))
			}
			way := f.rnd.Intn(4)
			join := func(us []up) string {
				var s []string
				for _, u := range us {
					s = append(s, u.text)
				}
				return strings.Join(s, "/")
			}
			f.Case("registration", fmt.Sprintf("above %q (host %v), registered %q in way %d, duplicate: %q", join(chain), host, join(below), way, dup), func() error {
				ro := nm.NewRouter()
				var hs []holder
				var top holder
				res := chain
				if host {
					top = ro.Host("http://" + chain[0].text)
					res = chain[1:]
				} else {
					top = ro.Resource("/")
				}
				hs = append(hs, top)
				for _, u := range res {
					hs = append(hs, hs[len(hs)-1].Resource(u.text))
				}
				last := hs[len(hs)-1]
				i := f.rnd.Intn(len(hs))
				pre := join(res[i:])
				p, v := try(func() {
					if way == 0 {
						hs[i].Resource(strings.Trim(pre+"/"+join(below), "/"))
						return
					}
					r := nm.NewDormantResource(below[0].text)
					if len(below) > 1 {
						r.Resource(join(below[1:]))
					}
					switch {
					case way == 1:
						last.RegisterResource(r)
					case way == 2 && pre != "":
						hs[i].RegisterResourceUnder(pre, r)
					case way == 3 && len(below) > 1:
						// a duplicate that's registered below first
						last.RegisterResource(r)
					default:
						last.RegisterResource(r)
					}
				})
				if dup == "" {
					if p {
						return fmt.Errorf("panics although all names are different: %v", v)
					}
					if last.RegisteredResource(join(below)) == nil {
						return fmt.Errorf("isn't found afterwards")
					}
					return nil
				}
				if !p {
					return fmt.Errorf("the registration succeeds")
				}
				if kids := last.ChildResources(); len(kids) != 0 {
					return fmt.Errorf("the registration panics (%v), but leaves the resource %q reachable", v, kids[0].Template().String())
				}
				return nil
			})
		}
	}
}

// ---- C18: middlewares ----

func mw(tag string) nm.Middleware {
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			w.Header().Add("Tag", tag)
			return next(w, r, args)
		}
	}
}

type wn struct {
	text    string
	r       *nm.Resource
	kids    []*wn
	m       map[string]string
	passer  string
	handler string
}

func (n *wn) visit(fn func(*wn)) {
	fn(n)
	for _, k := range n.kids {
		k.visit(fn)
	}
}

func init() {
	props["C18"] = func(f *F) {
		nm.SetHandlerForNotFound(func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
			w.Header().Add("Tag", "notfound")
			return true
		})
		for f.More() {
			var hist []string
			f.Case("wrapping", "", func() error {
				err := wraps(f, &hist)
				if err != nil {
					return fmt.Errorf("after %s: %v", strings.Join(hist, "; "), err)
				}
				return nil
			})
		}
	}
}

func wraps(f *F, hist *[]string) error {
	ro := nm.NewRouter()
	all := []string{"GET", "POST", "PUT", "A", "B", "C", "D", "E", "F", "ZZ"}
	var nodes []*wn
	var mk func(text string, r *nm.Resource, depth int) *wn
	mk = func(text string, r *nm.Resource, depth int) *wn {
		n := &wn{text: text, r: r, m: map[string]string{}}
		nodes = append(nodes, n)
		for k := f.rnd.Intn(11); k > 0; k-- {
			m := f.pick(all)
			if f.p(12) {
				m = "OPTIONS"
			}
			tag := fmt.Sprintf("%s%s", text, m)
			n.m[m] = tag
			r.SetHandlerFor(m, tagged(tag))
		}
		if f.p(3) {
			n.m["!"] = text + "!"
			r.SetHandlerFor("!", tagged(text+"!"))
		}
		if depth > 0 {
			for _, s := range []string{"a", "b", "{v%d:[c-e]+}", "{w%d}"} {
				if f.p(2) {
					if strings.Contains(s, "%d") {
						s = fmt.Sprintf(s, len(nodes))
					}
					n.kids = append(n.kids, mk(text+"/"+s, r.Resource(s), depth-1))
				}
			}
		}
		return n
	}
	root := mk("", ro.Resource("/"), 3)
	roPasser := ""
	desc := ""
	for _, n := range nodes {
		var ms []string
		for m := range n.m {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		desc += fmt.Sprintf(" %s/%v", n.text, ms)
	}
	*hist = []string{"tree" + desc}
	methodsOf := func(n *wn) []string {
		var ms []string
		for m := range n.m {
			if m != "!" {
				ms = append(ms, m)
			}
		}
		if len(ms) > 0 && n.m["OPTIONS"] == "" {
			ms = append(ms, "OPTIONS")
		}
		sort.Strings(ms)
		return ms
	}
	id := 0
	for k := 1 + f.rnd.Intn(4); k > 0; k-- {
		var mws []nm.Middleware
		var tags []string
		for j := 1 + f.rnd.Intn(3); j > 0; j-- {
			id++
			tags = append(tags, fmt.Sprintf("m%d", id))
			mws = append(mws, mw(fmt.Sprintf("m%d", id)))
		}
		// the last middleware is the outermost
		pre := ""
		for _, t := range tags {
			pre = t + "+" + pre
		}
		wrapOne := func(n *wn, m string) {
			if m == "!" || m == "OPTIONS" {
				if _, ok := n.m[m]; !ok {
					n.m[m] = "" // the default one
				}
			}
			n.m[m] = pre + n.m[m]
		}
		wrapList := func(n *wn, ms []string, strict bool) {
			has := methodsOf(n)
			for _, m := range ms {
				switch m {
				case "*":
					for _, h := range has {
						wrapOne(n, h)
					}
				case "!":
					wrapOne(n, "!")
				default:
					for _, h := range has {
						if h == m {
							wrapOne(n, m)
						}
					}
				}
			}
		}
		n := nodes[f.rnd.Intn(len(nodes))]
		switch f.rnd.Intn(8) {
		case 0, 1:
			has := methodsOf(n)
			if len(has) == 0 {
				continue
			}
			var ms []string
			switch f.rnd.Intn(3) {
			case 0:
				ms = []string{"*"}
			case 1:
				ms = []string{"!"}
			default:
				for _, h := range has {
					if f.p(2) {
						ms = append(ms, h)
					}
				}
				if len(ms) == 0 {
					ms = has[:1]
				}
			}
			*hist = append(*hist, fmt.Sprintf("%q.WrapHandlerOf %v %v", n.text, ms, tags))
			n.r.WrapHandlerOf(strings.ToLower(strings.Join(ms, ", ")), mws...)
			wrapList(n, ms, true)
		case 2, 3:
			ms := []string{f.pick([]string{"*", "!", "GET", "A", "ZZ", "OPTIONS"})}
			if ms[0] != "*" && ms[0] != "!" && f.p(2) {
				ms = append(ms, "B")
			}
			*hist = append(*hist, fmt.Sprintf("%q.WrapSubtreeHandlersOf %v %v", n.text, ms, tags))
			if n == root && f.p(2) {
				ro.WrapAllHandlersOf(strings.Join(ms, " "), mws...)
				*hist = append(*hist, "(of the router)")
				if len(methodsOf(root)) > 0 {
					wrapList(root, ms, false)
				}
			} else {
				n.r.WrapSubtreeHandlersOf(strings.Join(ms, " "), mws...)
			}
			for _, c := range n.kids {
				c.visit(func(x *wn) {
					if len(methodsOf(x)) > 0 {
						wrapList(x, ms, false)
					}
				})
			}
		case 4:
			*hist = append(*hist, fmt.Sprintf("%q.WrapRequestHandler %v", n.text, tags))
			n.r.WrapRequestHandler(mws...)
			n.handler = pre + n.handler
		case 5:
			*hist = append(*hist, fmt.Sprintf("%q.WrapRequestPasser %v", n.text, tags))
			n.r.WrapRequestPasser(mws...)
			n.passer = pre + n.passer
		case 6:
			if f.p(2) {
				*hist = append(*hist, fmt.Sprintf("%q.WrapSubtreeRequestPassers %v", n.text, tags))
				n.r.WrapSubtreeRequestPassers(mws...)
				for _, c := range n.kids {
					c.visit(func(x *wn) { x.passer = pre + x.passer })
				}
			} else {
				*hist = append(*hist, fmt.Sprintf("router.WrapAllRequestPassers %v", tags))
				ro.WrapAllRequestPassers(mws...)
				root.visit(func(x *wn) { x.passer = pre + x.passer })
			}
		case 7:
			if f.p(3) {
				*hist = append(*hist, fmt.Sprintf("router.WrapRequestPasser %v", tags))
				ro.WrapRequestPasser(mws...)
				roPasser = pre + roPasser
				continue
			}
			*hist = append(*hist, fmt.Sprintf("%q.WrapSubtreeRequestHandlers %v", n.text, tags))
			n.r.WrapSubtreeRequestHandlers(mws...)
			for _, c := range n.kids {
				c.visit(func(x *wn) { x.handler = pre + x.handler })
			}
		}
	}
	join := func(s string) string { return strings.Trim(s, "+") }
	for _, n := range nodes {
		has := methodsOf(n)
		for _, m := range has {
			if g := tagOf(n.r.HandlerOf(m)); g != join(n.m[m]) {
				return fmt.Errorf("%q: the handler of %s is %q, want %q", n.text, m, g, join(n.m[m]))
			}
		}
		if len(has) > 0 {
			if g := tagOf(n.r.HandlerOf("!")); g != join(n.m["!"]) {
				return fmt.Errorf("%q: the handler of not allowed methods is %q, want %q", n.text, g, join(n.m["!"]))
			}
		}
		// by a request
		p := ""
		want := roPasser
		x := root
		ok := true
		var way []*wn
		for _, s := range strings.Split(strings.Trim(n.text, "/"), "/") {
			if s == "" {
				continue
			}
			seg := s
			if strings.HasPrefix(s, "{v") {
				seg = "cd"
			} else if strings.HasPrefix(s, "{w") {
				seg = "www"
			}
			p += "/" + seg
			way = append(way, x)
			var nx *wn
			for _, c := range x.kids {
				if strings.HasSuffix(c.text, "/"+s) {
					nx = c
				}
			}
			if nx == nil {
				ok = false
				break
			}
			x = nx
		}
		if !ok || x != n {
			return fmt.Errorf("the falsifier lost its way to %q", n.text)
		}
		for _, y := range way {
			want += y.passer
		}
		m := "GET"
		if len(has) > 0 {
			m = has[f.rnd.Intn(len(has))]
			if f.p(4) {
				m = "NONE"
			}
			want += n.handler
			if m == "NONE" {
				want += n.m["!"]
			} else {
				want += n.m[m]
			}
		} else {
			want += "notfound"
		}
		w := httptest.NewRecorder()
		if p == "" {
			p = "/"
		}
		r := &http.Request{Method: m, Host: "h", URL: &url.URL{Path: p}, Header: http.Header{}}
		ro.ServeHTTP(w, r)
		if g := strings.Join(w.Header()["Tag"], "+"); g != join(want) {
			return fmt.Errorf("%s %s goes through %q, want %q", m, p, g, join(want))
		}
	}
	return nil
}

// ---- C19: URL templates ----

func init() {
	props["C19"] = func(f *F) {
		type tc struct {
			url               string
			host, res         string
			prefix            []string
			secure, ts, hostT bool
			bad               bool
		}
		resource := func(kind string, c tc) {
			f.Case(kind, fmt.Sprintf("resource template %q", c.url), func() error {
				var r *nm.Resource
				p, v := try(func() { r = nm.NewDormantResource(c.url) })
				if c.bad {
					if !p {
						return fmt.Errorf("accepted")
					}
					return nil
				}
				if p {
					return fmt.Errorf("panics: %v", v)
				}
				if r.IsSecure() != c.secure || r.HasTrailingSlash() != c.ts {
					return fmt.Errorf("secure %v, trailing slash %v; want %v, %v", r.IsSecure(), r.HasTrailingSlash(), c.secure, c.ts)
				}
				if g := r.Template().UnescapedContent(); g != c.res {
					return fmt.Errorf("the template is %q, want %q", g, c.res)
				}
				ro := nm.NewRouter()
				ro.RegisterResource(r)
				var up []string
				for x := r.Parent(); x != nil; x = x.Parent() {
					if x.Template().UnescapedContent() != "/" {
						up = append([]string{x.Template().UnescapedContent()}, up...)
					}
				}
				if !eqStrs(up, c.prefix) {
					return fmt.Errorf("above it are %q, want %q", up, c.prefix)
				}
				switch h := r.Host(); {
				case c.host == "" && h != nil:
					return fmt.Errorf("it has host %q", h.Template())
				case c.host != "" && (h == nil || h.Template().UnescapedContent() != c.host):
					return fmt.Errorf("the host is %v, want %q", h, c.host)
				}
				// the same through the router
				ro2 := nm.NewRouter()
				r2 := ro2.Resource(c.url)
				if g := r2.Template().UnescapedContent(); g != c.res {
					return fmt.Errorf("Router.Resource gives template %q, want %q", g, c.res)
				}
				if r2.IsSecure() != c.secure || r2.HasTrailingSlash() != c.ts {
					return fmt.Errorf("Router.Resource: secure %v, trailing slash %v; want %v, %v", r2.IsSecure(), r2.HasTrailingSlash(), c.secure, c.ts)
				}
				n := 0
				for x := r2.Parent(); x != nil; x = x.Parent() {
					if x.Template().UnescapedContent() != "/" {
						n++
					}
				}
				if n != len(c.prefix) {
					return fmt.Errorf("Router.Resource puts it under %d resources, want %d", n, len(c.prefix))
				}
				return nil
			})
		}
		host := func(kind string, url, want string, secure, ts, bad bool) {
			f.Case(kind, fmt.Sprintf("host template %q", url), func() error {
				var h, h2 *nm.Host
				p, v := try(func() { h = nm.NewDormantHost(url) })
				p2, v2 := try(func() { h2 = nm.NewRouter().Host(url) })
				if bad {
					if !p || !p2 {
						return fmt.Errorf("accepted (%v, %v)", !p, !p2)
					}
					return nil
				}
				if p || p2 {
					return fmt.Errorf("panics: %v %v", v, v2)
				}
				for _, x := range []*nm.Host{h, h2} {
					if g := x.Template().UnescapedContent(); g != want || x.IsSecure() != secure || x.HasTrailingSlash() != ts {
						return fmt.Errorf("template %q, secure %v, trailing slash %v; want %q, %v, %v", g, x.IsSecure(), x.HasTrailingSlash(), want, secure, ts)
					}
				}
				return nil
			})
		}
		for _, u := range []string{"", "http://", "https://", "https:///x//", "http://h.com", "https://h.com", "http://h.com/"} {
			resource("bad", tc{url: u, bad: true})
		}
		for _, u := range []string{"", "http://", "https://", "http://h.com/a", "https://h.com/a/", "h.com//", "/", "/a", "https:///", "https:///a"} {
			host("bad", u, "", false, false, true)
		}
		for f.More() {
			sch := f.pick([]string{"", "http://", "https://"})
			h := ""
			if sch != "" && f.p(2) {
				h = f.pick([]string{"h.com", "a.b.c", "x", "h.com:80"})
			}
			if sch != "" || f.p(2) {
				hh := h
				if hh == "" {
					hh = "h.com"
				}
				sl := f.pick([]string{"", "/"})
				host("host", sch+hh+sl, hh, sch == "https://", sl == "/", false)
			}
			c := tc{host: h, secure: sch == "https://"}
			n := 1 + f.rnd.Intn(4)
			path := ""
			for i := 0; i < n; i++ {
				s := f.pick([]string{"a", "b", "abc", "x.y", "é", "s:t", "a%2Fb", "a%2fb", "-", "http", "https:"})
				c.prefix = append(c.prefix, strings.NewReplacer("%2F", "/", "%2f", "/").Replace(s))
				path += "/" + s
			}
			c.res = c.prefix[n-1]
			c.prefix = c.prefix[:n-1]
			if sch == "" && f.p(2) {
				path = path[1:]
				if strings.HasPrefix(path, "http:") || strings.HasPrefix(path, "https:") {
					continue
				}
			}
			if f.p(2) {
				c.ts = true
				path += "/"
			}
			c.url = sch + h + path
			if sch == "http://" && h == "" {
				c.url = "http://" + "/" + strings.TrimPrefix(path, "/")
			}
			resource("resource", c)
			bad := c
			bad.bad = true
			switch f.rnd.Intn(2) {
			case 0:
				bad.url = c.url + "//"
				resource("bad", bad)
			case 1:
				if strings.HasSuffix(c.url, "/") {
					bad.url = c.url + "/"
					resource("bad", bad)
				}
			}
		}
	}
}

// ---- C22: adapters ----

func init() {
	props["C22"] = func(f *F) {
		newReq := func() *http.Request {
			return &http.Request{Method: "GET", Host: "h", URL: &url.URL{Path: "/"}, Header: http.Header{}}
		}
		for f.More() {
			which := f.rnd.Intn(4)
			f.Case("handlers", fmt.Sprintf("adapter %d", which), func() error {
				calls := 0
				var gw http.ResponseWriter
				var gr *http.Request
				fn := func(w http.ResponseWriter, r *http.Request) { calls++; gw, gr = w, r }
				var h nm.Handler
				switch which {
				case 0:
					h = nm.Hr(http.HandlerFunc(fn))
				case 1:
					h = nm.FnHr(fn)
				case 2:
					h = nm.HrWithArgs(http.HandlerFunc(fn))
				case 3:
					h = nm.FnHrWithArgs(fn)
				}
				for k := 1; k < 4; k++ {
					w, r, args := httptest.NewRecorder(), newReq(), &nm.Args{}
					res := h(w, r, args)
					if calls != k {
						return fmt.Errorf("called %d times in %d requests", calls, k)
					}
					if !res {
						return fmt.Errorf("reported as not handled")
					}
					if gw != http.ResponseWriter(w) {
						return fmt.Errorf("another writer")
					}
					if gr.URL != r.URL || gr.Method != r.Method {
						return fmt.Errorf("another request")
					}
					if a := nm.ArgsFrom(gr); which >= 2 && a != args {
						return fmt.Errorf("the request carries other arguments: %p, given %p", a, args)
					}
				}
				return nil
			})
			// middlewares: a sequence of requests, each with its own plan
			type plan struct {
				calls  bool // the middleware calls next
				res    bool // what next returns
				nested *plan
				inner  bool // nested from the handler (else from the middleware)
			}
			var mkPlan func(d int) *plan
			mkPlan = func(d int) *plan {
				p := &plan{calls: !f.p(3), res: f.p(2), inner: f.p(2)}
				if d > 0 && f.p(2) {
					p.nested = mkPlan(d - 1)
				}
				return p
			}
			var plans []*plan
			desc := ""
			for k := 1 + f.rnd.Intn(6); k > 0; k-- {
				p := mkPlan(2)
				plans = append(plans, p)
				for x := p; x != nil; x = x.nested {
					desc += fmt.Sprintf("[calls next %v, next returns %v, nested in handler %v] ", x.calls, x.res, x.inner)
				}
				desc += "; "
			}
			conc := f.p(4)
			f.Case("middlewares", fmt.Sprintf("requests %s at the same time %v", desc, conc), func() error {
				type st struct {
					p       *plan
					mw, nx  int
					args    *nm.Args
					w       http.ResponseWriter
					badArgs bool
					err     error
				}
				var mu sync.Mutex
				byReq := map[string]*st{}
				var handler nm.Handler
				id := 0
				var do func(p *plan) error
				get := func(r *http.Request) *st {
					mu.Lock()
					defer mu.Unlock()
					return byReq[r.Header.Get("Id")]
				}
				std := func(next http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						s := get(r)
						s.mw++
						if nm.ArgsFrom(r) != s.args {
							s.badArgs = true
						}
						if s.p.nested != nil && !s.p.inner {
							s.err = do(s.p.nested)
						}
						if s.p.calls {
							next.ServeHTTP(w, r)
						}
					})
				}
				last := func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
					s := get(r)
					s.nx++
					if args != s.args || w != s.w {
						s.badArgs = true
					}
					if s.p.nested != nil && s.p.inner {
						s.err = do(s.p.nested)
					}
					return s.p.res
				}
				handler = nm.Mw(std)(last)
				// a second handler made with the same middleware doesn't interfere
				_ = nm.Mw(std)(func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { panic("another handler") })
				do = func(p *plan) error {
					s := &st{p: p, args: &nm.Args{}, w: httptest.NewRecorder()}
					r := newReq()
					mu.Lock()
					id++
					r.Header.Set("Id", fmt.Sprint(id))
					byReq[fmt.Sprint(id)] = s
					mu.Unlock()
					res := handler(s.w, r, s.args)
					want := true
					wantNx := 0
					if p.calls {
						want = p.res
						wantNx = 1
					}
					switch {
					case s.err != nil:
						return s.err
					case s.badArgs:
						return fmt.Errorf("the middleware or the next handler got other arguments or another writer")
					case s.mw != 1 || s.nx != wantNx:
						return fmt.Errorf("the middleware was called %d times, the next handler %d times, want 1 and %d", s.mw, s.nx, wantNx)
					case res != want:
						return fmt.Errorf("the result is %v, want %v", res, want)
					}
					return nil
				}
				if !conc {
					for i, p := range plans {
						if err := do(p); err != nil {
							return fmt.Errorf("request %d: %v", i, err)
						}
					}
					return nil
				}
				errs := make([]error, len(plans))
				var wg sync.WaitGroup
				for i := range plans {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						if p, v := try(func() { errs[i] = do(plans[i]) }); p {
							errs[i] = fmt.Errorf("panic: %v", v)
						}
					}(i)
				}
				wg.Wait()
				for i, e := range errs {
					if e != nil {
						return fmt.Errorf("request %d: %v", i, e)
					}
				}
				return nil
			})
		}
	}
}

// ---- C23: responder URLs ----

func init() {
	props["C23"] = func(f *F) {
		g := gen{hosts: true, patterns: true, secure: true, slash: true, subtree: true, depth: 3, width: 3}
		for f.More() {
			t := f.tree(g)
			if p, _ := try(t.make); p {
				continue
			}
			one := func(n *nd) {
				v := newVals()
				for x := n; x != nil; x = x.up {
					for _, s := range x.t.segs {
						if s.lit == "" && !f.p(12) {
							switch {
							case s.p == nil:
								v.set(s.name, f.pick([]string{"w", "a b", "1"}))
							case f.p(12):
								v.set(s.name, f.pick(s.p.bad))
							default:
								v.set(s.name, f.pick(s.p.good))
							}
						}
					}
				}
				if f.p(3) {
					v.set("other", "x")
				}
				f.Case("url", fmt.Sprintf("%s, responder %d, values %v", t.describe(), n.id, v), func() error {
					var wantErr error
					apply := func(x *nd) string {
						s := ""
						for _, sg := range x.t.segs {
							if sg.lit != "" {
								s += sg.lit
								continue
							}
							val, is := v.m[sg.name]
							if !is {
								if wantErr == nil {
									wantErr = nm.ErrMissingValue
								}
							} else if sg.p != nil && !re("^(?:"+sg.p.re+")$").MatchString(val) {
								if wantErr == nil {
									wantErr = nm.ErrInvalidValue
								}
							}
							s += val
						}
						return s
					}
					want := url.URL{Scheme: "http"}
					if n.cfg.Secure {
						want.Scheme = "https"
					}
					for x := n; x != nil; x = x.up {
						switch {
						case x.host:
							want.Host = apply(x)
						case x.root:
						default:
							want.Path = "/" + apply(x) + want.Path
						}
					}
					if n.root || n.cfg.HasTrailingSlash {
						want.Path += "/"
					}
					var got *url.URL
					var err error
					if n.host {
						got, err = n.h.URL(v.real())
					} else {
						got, err = n.r.URL(v.real())
					}
					if wantErr != nil {
						if err == nil {
							return fmt.Errorf("the URL is %q, want error %v", got, wantErr)
						}
						if !errors.Is(err, nm.ErrMissingValue) && !errors.Is(err, nm.ErrInvalidValue) {
							return fmt.Errorf("error %v", err)
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("error %v, want %q", err, want.String())
					}
					if *got != want {
						return fmt.Errorf("the URL is %+v, want %+v", *got, want)
					}
					return nil
				})
			}
			for _, h := range t.hosts {
				h.visit(one)
			}
			if t.root != nil {
				t.root.visit(one)
			}
		}
	}
}
