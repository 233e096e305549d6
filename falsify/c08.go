package main

import (
	"fmt"

	nm "github.com/shohruhadham/nanomux"
)

func cfgOf(n int) nm.Config {
	b := func(i int) bool { return n>>uint(i)&1 == 1 }
	return nm.Config{SubtreeHandler: b(0), Secure: b(1), RedirectsInsecureRequest: b(2), HasTrailingSlash: b(3), StrictOnTrailingSlash: b(4), LenientOnTrailingSlash: b(5), LenientOnUncleanPath: b(6), HandlesThePathAsIs: b(7)}
}

// closed is what reading c back must give.
func closedCfg(c nm.Config, root bool) nm.Config {
	if c.RedirectsInsecureRequest {
		c.Secure = true
	}
	if c.HandlesThePathAsIs {
		c.LenientOnTrailingSlash, c.LenientOnUncleanPath = true, true
	}
	if root {
		c.HasTrailingSlash, c.StrictOnTrailingSlash, c.LenientOnTrailingSlash = false, false, false
	}
	c.HandlesThePathAsIs = c.LenientOnTrailingSlash && c.LenientOnUncleanPath
	return c
}

type configured interface {
	Configuration() nm.Config
	SetConfiguration(nm.Config)
	IsSubtreeHandler() bool
	IsSecure() bool
	RedirectsInsecureRequest() bool
	HasTrailingSlash() bool
	IsStrictOnTrailingSlash() bool
	IsLenientOnTrailingSlash() bool
	IsLenientOnUncleanPath() bool
	HandlesThePathAsIs() bool
}

func sameCfg(what string, r configured, want nm.Config) error {
	got := r.Configuration()
	if got != want {
		return fmt.Errorf("%s: Configuration() = %+v, want %+v", what, got, want)
	}
	acc := nm.Config{SubtreeHandler: r.IsSubtreeHandler(), Secure: r.IsSecure(), RedirectsInsecureRequest: r.RedirectsInsecureRequest(), HasTrailingSlash: r.HasTrailingSlash(), StrictOnTrailingSlash: r.IsStrictOnTrailingSlash(), LenientOnTrailingSlash: r.IsLenientOnTrailingSlash(), LenientOnUncleanPath: r.IsLenientOnUncleanPath(), HandlesThePathAsIs: r.HandlesThePathAsIs()}
	if acc != want {
		return fmt.Errorf("%s: accessors give %+v, want %+v", what, acc, want)
	}
	return nil
}

func init() {
	props["C08"] = func(f *F) {
		urls := []string{"http://h.com", "https://h.com", "http://h.com/", "https://h.com/"}
		rurls := []string{"/", "/a", "/a/", "https:///", "https:///a/", "https:///a", "http://h.com/a/b/"}
		tmplOf := func(u string) (sec, ts, root bool) {
			sec = len(u) > 5 && u[:5] == "https"
			root = u == "/" || u == "https:///"
			ts = !root && u[len(u)-1] == '/'
			return
		}
		check := func(kind string, u string, host bool, n1, n2 int) {
			f.Case(kind, fmt.Sprintf("template %q, first config %+v, then %+v", u, cfgOf(n1), cfgOf(n2)), func() error {
				sec, ts, root := tmplOf(u)
				if host {
					root = false
					ts = u[len(u)-1] == '/'
				}
				c := cfgOf(n1)
				var r configured
				p, _ := try(func() {
					if host {
						r = nm.NewDormantHostUsingConfig(u, c)
					} else {
						r = nm.NewDormantResourceUsingConfig(u, c)
					}
				})
				if c.RedirectsInsecureRequest && !sec {
					if !p {
						return fmt.Errorf("redirecting insecure requests was accepted for an insecure template")
					}
					return nil
				}
				if p {
					return fmt.Errorf("the constructor panics")
				}
				c.Secure, c.HasTrailingSlash = sec, ts
				want := closedCfg(c, root)
				if err := sameCfg("after creation", r, want); err != nil {
					return err
				}
				c2 := cfgOf(n2)
				r.SetConfiguration(c2)
				w2 := closedCfg(c2, root)
				w2.Secure = w2.Secure || want.Secure
				w2.HasTrailingSlash = w2.HasTrailingSlash || want.HasTrailingSlash
				return sameCfg("after SetConfiguration", r, w2)
			})
		}
		for _, u := range urls {
			for i := 0; i < 256; i++ {
				check("host", u, true, i, f.rnd.Intn(256))
			}
		}
		for _, u := range rurls {
			for i := 0; i < 256; i++ {
				check("resource", u, false, i, f.rnd.Intn(256))
				check("resource", u, false, f.rnd.Intn(256), i)
			}
		}
		// subtrees
		for k := 0; k < 3000 && (k < 300 || f.More()); k++ {
			n := 1 + f.rnd.Intn(6)
			mode := f.rnd.Intn(3)
			conf := cfgOf(f.rnd.Intn(256))
			paths := []string{}
			cfgs := []int{}
			for i := 0; i < n; i++ {
				base := ""
				if len(paths) > 0 && f.rnd.Intn(3) > 0 {
					base = paths[f.rnd.Intn(len(paths))]
				}
				paths = append(paths, base+fmt.Sprintf([]string{"/s%[1]d", "/{p%[1]d:x%[1]d+}", "/q%[1]d{w%[1]d}"}[f.rnd.Intn(3)], i))
				cfgs = append(cfgs, f.rnd.Intn(256))
				if f.rnd.Intn(2) == 0 {
					cfgs[i] = []int{0, 2, 8, 10}[f.rnd.Intn(4)]
				}
			}
			f.Case("subtree", fmt.Sprintf("paths %q with configs %v; subtree config %+v set %s", paths, cfgs, conf, []string{"on the host", "on the router", "on the first resource"}[mode]), func() error {
				ro := nm.NewRouter()
				h := ro.Host("http://h.com")
				var rs []*nm.Resource
				for i, p := range paths {
					r := h.Resource(p)
					if cfgs[i] != 0 {
						r.SetConfiguration(cfgOf(cfgs[i]))
					}
					rs = append(rs, r)
				}
				before := make([]nm.Config, n)
				for i, r := range rs {
					before[i] = r.Configuration()
				}
				hb := h.Configuration()
				switch mode {
				case 0:
					h.SetConfigurationForSubtree(conf)
				case 1:
					ro.SetConfigurationForAll(conf)
				case 2:
					rs[0].SetConfigurationForSubtree(conf)
				}
				fresh := func(c nm.Config) bool {
					c.Secure, c.HasTrailingSlash = false, false
					return c == nm.Config{}
				}
				apply := func(b nm.Config) nm.Config {
					if !fresh(b) {
						return b
					}
					w := closedCfg(conf, false)
					w.Secure = w.Secure || b.Secure
					w.HasTrailingSlash = w.HasTrailingSlash || b.HasTrailingSlash
					return w
				}
				for i, r := range rs {
					want := before[i]
					below := mode != 2
					if mode == 2 && i > 0 && len(paths[i]) > len(paths[0]) && paths[i][:len(paths[0])+1] == paths[0]+"/" {
						below = true
					}
					if below {
						want = apply(before[i])
					}
					if err := sameCfg("resource "+paths[i], r, want); err != nil {
						return err
					}
				}
				want := hb
				if mode == 1 {
					want = apply(hb)
				}
				return sameCfg("host", h, want)
			})
		}
	}
}
