package main

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// tagged handlers: which one was called is seen from the response header
func tagged(tag string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nm.Args) bool {
		w.Header().Add("Tag", tag)
		return true
	}
}

func tagOf(h nm.Handler) string {
	if h == nil {
		return "<nil>"
	}
	w := httptest.NewRecorder()
	h(w, httptest.NewRequest("X", "/", nil), nil)
	return strings.Join(w.Header()["Tag"], "+")
}

const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

func (f *F) method(alpha, max int) string {
	n := 1 + f.rnd.Intn(max)
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[f.rnd.Intn(alpha)]
	}
	return string(b)
}

func checkTable(r *nm.Resource, want map[string]string) error {
	for m, t := range want {
		if g := tagOf(r.HandlerOf(m)); g != t {
			return fmt.Errorf("HandlerOf(%q) gives handler %q, the one set last is %q (%d methods set)", m, g, t, len(want))
		}
	}
	var names []string
	for m := range want {
		names = append(names, m)
	}
	if _, ok := want["OPTIONS"]; !ok {
		names = append(names, "OPTIONS")
	}
	sort.Strings(names)
	got := r.AllowedHTTPMethods()
	if !reflect.DeepEqual(got, names) {
		return fmt.Errorf("AllowedHTTPMethods() = %q, want %q", got, names)
	}
	return nil
}

func init() {
	props["C06"] = func(f *F) {
		run := func(desc string, ms []string, probes []string) {
			f.Case("table", desc, func() error {
				r := nm.NewDormantResource("/")
				want := map[string]string{}
				for i, m := range ms {
					t := fmt.Sprintf("%s#%d", m, i)
					r.SetHandlerFor(m, tagged(t))
					want[m] = t
				}
				if err := checkTable(r, want); err != nil {
					return err
				}
				for _, p := range probes {
					if want[p] == "" && p != "OPTIONS" && p != "" && p != "!" {
						if h := r.HandlerOf(p); h != nil {
							return fmt.Errorf("HandlerOf(%q) isn't nil though the method was never set (%d methods)", p, len(want))
						}
					}
				}
				return nil
			})
		}
		probesFor := func(ms []string) []string {
			var ps []string
			for _, m := range ms {
				ps = append(ps, m+"A", m[:len(m)-1], "A"+m, m+"!", "0", "ZZZZZZ")
			}
			return ps
		}
		var sizes []int
		for n := 1; n <= 40; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 48, 63, 64, 65, 66, 100, 127, 128, 129, 140, 255, 256, 257, 300)
		// every size around the linear/bisection limit, in three orders
		for _, n := range sizes {
			var ms []string
			for i := 0; i < n; i++ {
				ms = append(ms, fmt.Sprintf("M%03d", i*2))
			}
			rev := make([]string, n)
			for i := range ms {
				rev[n-1-i] = ms[i]
			}
			var ps []string
			for i := 0; i <= n; i++ {
				ps = append(ps, fmt.Sprintf("M%03d", i*2+1), fmt.Sprintf("M%03d", i*2))
			}
			run(fmt.Sprintf("%d methods ascending", n), ms, ps)
			run(fmt.Sprintf("%d methods descending", n), rev, ps)
			mix := append([]string{}, ms...)
			f.rnd.Shuffle(n, func(i, j int) { mix[i], mix[j] = mix[j], mix[i] })
			run(fmt.Sprintf("%d methods shuffled %q", n, mix), mix, append(ps, probesFor(mix)...))
			run(fmt.Sprintf("%d methods twice %q", n, mix), append(append([]string{}, mix...), mix[:n/2]...), ps)
		}
		// an Impl's handlers
		for i := 0; i < 3; i++ {
			f.Case("impl", "NewResource with an Impl that has methods", func() error {
				r := nm.NewResource("/", &implMethods{})
				for m, t := range map[string]string{"GET": "get", "POST": "post", "CUSTOM": "custom"} {
					if g := tagOf(r.HandlerOf(m)); g != t {
						return fmt.Errorf("HandlerOf(%q) of the Impl gives %q, want %q", m, g, t)
					}
				}
				return nil
			})
		}
		for f.More() {
			n := 1 + f.rnd.Intn(60)
			alpha := 2 + f.rnd.Intn(25)
			var ms []string
			for i := 0; i < n; i++ {
				m := f.method(alpha, 1+f.rnd.Intn(4))
				if i == 0 && f.rnd.Intn(3) == 0 {
					m = "OPTIONS"
				}
				ms = append(ms, m)
			}
			run(fmt.Sprintf("methods %q", ms), ms, probesFor(ms))
		}
	}

	props["C20"] = func(f *F) {
		parts := func(list string) []string {
			var out []string
			for _, p := range strings.FieldsFunc(list, func(r rune) bool { return r == ',' || r == ' ' }) {
				out = append(out, strings.ToUpper(p))
			}
			return out
		}
		check := func(list string) {
			want := parts(list)
			f.Case("list", fmt.Sprintf("%q", list), func() error {
				r := nm.NewDormantResource("/")
				p, v := try(func() { r.SetHandlerFor(list, tagged("x")) })
				if len(want) == 0 {
					if !p {
						return fmt.Errorf("SetHandlerFor(%q) accepted a list without methods", list)
					}
					return nil
				}
				if p {
					return fmt.Errorf("SetHandlerFor(%q) panicked: %v", list, v)
				}
				if len(want) == 1 && want[0] == "!" {
					return nil
				}
				set := map[string]bool{"OPTIONS": true}
				for _, m := range want {
					set[m] = true
				}
				var ns []string
				for m := range set {
					ns = append(ns, m)
				}
				sort.Strings(ns)
				if got := r.AllowedHTTPMethods(); !reflect.DeepEqual(got, ns) {
					return fmt.Errorf("SetHandlerFor(%q): methods %q, want %q", list, got, ns)
				}
				for _, m := range want {
					if m == "!" {
						continue
					}
					if tagOf(r.HandlerOf(strings.ToLower(m))) != "x" || tagOf(r.HandlerOf(" ,"+m+", ")) != "x" {
						return fmt.Errorf("HandlerOf(%q) misses the handler set with the list %q", m, list)
					}
				}
				// the first part is the one looked up, and wrapping reaches
				// every part as often as it is listed
				if want[0] != "!" {
					if tagOf(r.HandlerOf(list)) != "x" {
						return fmt.Errorf("HandlerOf(%q) doesn't use the first method %q", list, want[0])
					}
				}
				has := false
				for _, m := range want {
					has = has || m == "*" || m == "!"
				}
				if !has {
					n := map[string]int{}
					for _, m := range want {
						n[m]++
					}
					r.WrapHandlerOf(list, func(next nm.Handler) nm.Handler {
						return func(w http.ResponseWriter, rq *http.Request, a *nm.Args) bool {
							w.Header().Add("Tag", "w")
							return next(w, rq, a)
						}
					})
					for m, k := range n {
						if g, w := tagOf(r.HandlerOf(m)), strings.Repeat("w+", k)+"x"; g != w {
							return fmt.Errorf("WrapHandlerOf(%q): handler of %q is %q, want %q", list, m, g, w)
						}
					}
				}
				return nil
			})
		}
		fixed := []string{"GET", "get", "GET,POST", "get post", " get , post ", ",,get,,post,,", "get,  ,post", "a b,c", "", " ", ",", " , , ", "gEt,PoSt pUt", "a,b c,d e", "x ,y", "x, y", "a,,b", "a  b", ",a", "a,", " a", "a ", "!", "get,get", "ab,cd,"}
		for _, s := range fixed {
			check(s)
		}
		// all lists over a small alphabet
		al := []byte("aB, ")
		max := 6
		if f.long {
			max = 8
		}
		var rec func(b []byte)
		rec = func(b []byte) {
			check(string(b))
			if len(b) < max {
				for _, c := range al {
					rec(append(b[:len(b):len(b)], c))
				}
			}
		}
		rec(nil)
		for f.More() {
			var b []byte
			for n := f.rnd.Intn(40); n > 0; n-- {
				b = append(b, "abcXYZz,, ,  -_1"[f.rnd.Intn(16)])
			}
			check(string(b))
		}
	}

	props["C24"] = func(f *F) {
		type kk struct{ a int }
		keys := []interface{}{1, 2, int64(1), "1", "a", "b", nil, kk{1}, kk{2}, &kk{1}, 1.5, true, struct{}{}, "", 0, [2]int{1, 2}}
		for i := 0; i < 2000 && (i < 200 || f.More()); i++ {
			n := f.rnd.Intn(30)
			keys, names := keys, []string{"", "a", "b", "ab", "A", "c", "d", "aa"}
			if i%40 == 7 {
				n = 150
				for j := 0; j < 100; j++ {
					keys = append(keys[:len(keys):len(keys)], j+1000)
					names = append(names, fmt.Sprintf("n%d", j))
				}
			}
			f.Case("args", fmt.Sprintf("%d random Set calls", n), func() error {
				var args nm.Args
				m := map[interface{}]interface{}{}
				log := ""
				check := func() error {
					for _, k := range keys {
						if g := args.Get(k); g != m[k] {
							return fmt.Errorf("after%s Get(%#v) = %v, want %v", log, k, g, m[k])
						}
					}
					return nil
				}
				if err := check(); err != nil {
					return err
				}
				for j := 0; j < n; j++ {
					k := keys[f.rnd.Intn(len(keys))]
					var v interface{} = j
					if f.rnd.Intn(8) == 0 {
						v = nil
					}
					args.Set(k, v)
					m[k] = v
					log += fmt.Sprintf(" Set(%#v,%v)", k, v)
					if err := check(); err != nil {
						return err
					}
				}
				return nil
			})
			f.Case("values", fmt.Sprintf("%d random Set calls", n), func() error {
				var vs nm.TemplateValues
				m := map[string]string{}
				log := ""
				check := func() error {
					for _, k := range names {
						if g := vs.Get(k); g != m[k] {
							return fmt.Errorf("after%s Get(%q) = %q, want %q", log, k, g, m[k])
						}
					}
					return nil
				}
				if err := check(); err != nil {
					return err
				}
				for j := 0; j < n; j++ {
					k := names[f.rnd.Intn(len(names))]
					v := fmt.Sprint(j)
					if f.rnd.Intn(5) == 0 {
						v = ""
					}
					vs.Set(k, v)
					m[k] = v
					log += fmt.Sprintf(" Set(%q,%q)", k, v)
					if err := check(); err != nil {
						return err
					}
				}
				return nil
			})
		}
		// values set while a request is served
		for i := 0; i < 50; i++ {
			f.Case("request", "values set by a middleware and read by the handler", func() error {
				r := nm.NewDormantResource("/{x}")
				var got []interface{}
				r.SetHandlerFor("GET", func(w http.ResponseWriter, rq *http.Request, a *nm.Args) bool {
					for j := 0; j < 12; j++ {
						got = append(got, a.Get(j))
					}
					return true
				})
				m := map[int]interface{}{}
				r.WrapRequestHandler(func(next nm.Handler) nm.Handler {
					return func(w http.ResponseWriter, rq *http.Request, a *nm.Args) bool {
						for j := 0; j < 20; j++ {
							k := f.rnd.Intn(10)
							m[k] = j
							a.Set(k, j)
						}
						return next(w, rq, a)
					}
				})
				r.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/v", nil).WithContext(context.Background()))
				if len(got) != 12 {
					return fmt.Errorf("the handler wasn't called once")
				}
				for j, g := range got {
					if g != m[j] {
						return fmt.Errorf("Get(%d) = %v, want %v", j, g, m[j])
					}
				}
				return nil
			})
		}
	}
}

type implMethods struct{}

func (*implMethods) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	w.Header().Add("Tag", "get")
	return true
}
func (*implMethods) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	w.Header().Add("Tag", "post")
	return true
}
func (*implMethods) HandleCustom(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	w.Header().Add("Tag", "custom")
	return true
}
