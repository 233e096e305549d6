package main

import (
	"fmt"
	"reflect"
	"sync"
	"unsafe"

	nm "github.com/shohruhadham/nanomux"
)

// dump writes out everything reachable from a value: what a tree consists of.
type dumper struct {
	seen map[uintptr]int
	out  []string
}

func (d *dumper) walk(path string, v reflect.Value, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.out = append(d.out, path+"=nil")
			return
		}
		p := v.Pointer()
		if n, ok := d.seen[p]; ok {
			d.out = append(d.out, fmt.Sprintf("%s=#%d", path, n))
			return
		}
		d.seen[p] = len(d.seen)
		if v.Type().String() == "*regexp.Regexp" {
			return // has caches of its own
		}
		d.walk(path, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			d.out = append(d.out, path+"=nil")
			return
		}
		d.walk(path+"."+v.Elem().Type().String(), v.Elem(), depth+1)
	case reflect.Struct:
		pk := v.Type().PkgPath()
		if pk != "" && pk != "github.com/shohruhadham/nanomux" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			d.walk(path+"."+v.Type().Field(i).Name, v.Field(i), depth+1)
		}
	case reflect.Slice:
		d.out = append(d.out, fmt.Sprintf("%s: %d", path, v.Len()))
		for i := 0; i < v.Len(); i++ {
			d.walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), depth+1)
		}
	case reflect.Map:
		var lines []string
		it := v.MapRange()
		for it.Next() {
			sub := &dumper{seen: d.seen}
			sub.walk(fmt.Sprintf("%s[%v]", path, it.Key()), it.Value(), depth+1)
			lines = append(lines, sub.out...)
		}
		d.out = append(d.out, fmt.Sprintf("%s: %d entries", path, v.Len()))
		sortStrings(lines)
		d.out = append(d.out, lines...)
	case reflect.Func:
		p := uintptr(0)
		if !v.IsNil() {
			if v.CanAddr() {
				p = uintptr(*(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr())))
			} else {
				p = v.Pointer()
			}
		}
		d.out = append(d.out, fmt.Sprintf("%s=func %x", path, p))
	default:
		d.out = append(d.out, fmt.Sprintf("%s=%v", path, v))
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// state is everything of the tree except for the order in which pointers are met
func (t *tree) state() []string {
	d := &dumper{seen: map[uintptr]int{}}
	for _, h := range t.hosts {
		h.visit(func(n *nd) { n.dump(d) })
	}
	if t.root != nil {
		t.root.visit(func(n *nd) { n.dump(d) })
	}
	d.walk("router.static", reflect.ValueOf(len(t.ro.Hosts())), 0)
	d.out = append(d.out, fmt.Sprint(nm.PermanentRedirectCode(), reflect.ValueOf(nm.CommonRedirectHandler()).Pointer(), reflect.ValueOf(nm.HandlerOfNotFound()).Pointer()))
	return d.out
}

func (n *nd) visit(fn func(*nd)) {
	fn(n)
	for _, k := range n.kids {
		k.visit(fn)
	}
}

// dump writes one responder, without following its children's maps in random
// order: they're visited by themselves.
func (n *nd) dump(d *dumper) {
	var v reflect.Value
	if n.host {
		v = reflect.ValueOf(n.h)
	} else {
		v = reflect.ValueOf(n.r)
	}
	p := v.Pointer()
	if _, ok := d.seen[p]; !ok {
		d.seen[p] = len(d.seen)
	}
	e := v.Elem()
	d.fields(fmt.Sprint(n.id), e)
}

func (d *dumper) fields(path string, e reflect.Value) {
	for i := 0; i < e.NumField(); i++ {
		ft := e.Type().Field(i)
		fv := e.Field(i)
		p := path + "." + ft.Name
		switch {
		case ft.Anonymous && fv.Kind() == reflect.Struct:
			d.fields(p, fv)
		case fv.Kind() == reflect.Map, fv.Kind() == reflect.Slice && ft.Type.Elem().Kind() == reflect.Ptr:
			d.out = append(d.out, fmt.Sprintf("%s: %d", p, fv.Len()))
			if fv.Kind() == reflect.Slice {
				for k := 0; k < fv.Len(); k++ {
					d.out = append(d.out, fmt.Sprintf("%s[%d]=%x", p, k, fv.Index(k).Pointer()))
				}
			} else {
				var lines []string
				it := fv.MapRange()
				for it.Next() {
					x := it.Value()
					if x.Kind() == reflect.Ptr {
						lines = append(lines, fmt.Sprintf("%s[%v]=%x", p, it.Key(), x.Pointer()))
					}
				}
				sortStrings(lines)
				d.out = append(d.out, lines...)
			}
		case fv.Kind() == reflect.Ptr && fv.Type().Elem().Kind() == reflect.Struct:
			d.out = append(d.out, fmt.Sprintf("%s=%x", p, fv.Pointer()))
			if !fv.IsNil() && (fv.Type() == reflect.TypeOf(&nm.Template{}) || ft.Anonymous) {
				d.walk(p, fv, 0)
			}
		case fv.Kind() == reflect.Interface:
			if fv.IsNil() {
				d.out = append(d.out, p+"=nil")
			} else if fv.Elem().Kind() == reflect.Ptr {
				d.out = append(d.out, fmt.Sprintf("%s=%x", p, fv.Elem().Pointer()))
			} else {
				d.out = append(d.out, fmt.Sprintf("%s=%v", p, fv.Elem()))
			}
		default:
			d.walk(p, fv, 0)
		}
	}
}

func sameStates(a, b []string) error {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			x := "<nothing>"
			if i < len(b) {
				x = b[i]
			}
			return fmt.Errorf("the routing tree was changed: %s, now %s", a[i], x)
		}
	}
	if len(b) > len(a) {
		return fmt.Errorf("the routing tree was changed: %s is new", b[len(a)])
	}
	return nil
}

// together serves requests at the same time and compares each with the reference.
func (f *F) together(t *tree, asks []ask) error {
	errs := make([]error, len(asks))
	var wg sync.WaitGroup
	wants := make([]*run, len(asks))
	for i, a := range asks {
		wants[i] = t.want(a)
	}
	for i := range asks {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("%s: panic: %v", asks[i], r)
				}
			}()
			for k := 0; k < 4; k++ {
				l := &reqLog{}
				ev, code, allow := t.got(asks[i], l)
				if err := wants[i].differs(ev, code, allow); err != nil {
					errs[i] = fmt.Errorf("%s: %v", asks[i], err)
					return
				}
			}
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func init() {
	all := gen{hosts: true, patterns: true, secure: true, slash: true, unclean: true, escape: true, subtree: true, falseRet: true, redirs: true, ownRedirect: true, direct: true, depth: 3, width: 3}
	props["C14"] = func(f *F) {
		setCommon()
		g := gen{hosts: true, patterns: true, unclean: true, escape: true, subtree: true, falseRet: true, direct: true, slash: true, depth: 3, width: 3}
		for f.More() {
			t := f.tree(g)
			if p, _ := try(t.make); p {
				continue
			}
			hist := ""
			for k := 0; k < 20; k++ {
				a := f.ask(g, t)
				l := &reqLog{}
				if f.p(8) {
					l.many = []int{3, 9, 20, 40, 70, 130, 300}[f.rnd.Intn(7)]
				}
				var nerr error
				d := a.String()
				if f.p(3) {
					b := f.ask(g, t)
					d += " (while it's handled: " + b.String() + ")"
					l.nested = func() { _, nerr = t.compare(b) }
				}
				f.Case("sequence", t.describe()+" requests"+hist+" then "+d, func() error {
					_, err := t.compareWith(a, l)
					if nerr != nil {
						err = fmt.Errorf("the inner request: %v", nerr)
					}
					return err
				})
				hist += "; " + d
			}
			if f.p(20) {
				var asks []ask
				for k := 0; k < 16; k++ {
					asks = append(asks, f.ask(g, t))
				}
				f.Case("at the same time", fmt.Sprint(t.describe(), asks), func() error { return f.together(t, asks) })
			}
		}
	}
	props["C25"] = func(f *F) {
		setCommon()
		for f.More() {
			t := f.tree(all)
			if p, _ := try(t.make); p {
				continue
			}
			var asks []ask
			for k := 0; k < 24; k++ {
				asks = append(asks, f.ask(all, t))
			}
			before := t.state()
			f.Case("one by one", fmt.Sprint(t.describe(), asks), func() error {
				for _, a := range asks {
					t.got(a, &reqLog{})
					if err := sameStates(before, t.state()); err != nil {
						return fmt.Errorf("%s: %v", a, err)
					}
				}
				return nil
			})
			f.Case("at the same time", fmt.Sprint(t.describe(), asks), func() error {
				// compared with what happens one by one
				one := make([]string, len(asks))
				for i, a := range asks {
					ev, code, allow := t.got(a, &reqLog{})
					one[i] = fmt.Sprint(ev, code, allow)
				}
				var wg sync.WaitGroup
				errs := make([]error, len(asks))
				for i := range asks {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								errs[i] = fmt.Errorf("%s: panic: %v", asks[i], r)
							}
						}()
						for k := 0; k < 3; k++ {
							ev, code, allow := t.got(asks[i], &reqLog{})
							if s := fmt.Sprint(ev, code, allow); s != one[i] {
								errs[i] = fmt.Errorf("%s: with other requests at the same time %s, alone %s", asks[i], s, one[i])
							}
						}
					}(i)
				}
				wg.Wait()
				for _, e := range errs {
					if e != nil {
						return e
					}
				}
				return sameStates(before, t.state())
			})
		}
	}
}
