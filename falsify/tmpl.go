package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// A template as a structure, from which its text is made. The oracle works on
// the structure and never looks at how the package represents templates.

type pat struct {
	re        string
	good, bad []string
}

var pats = []pat{
	{`\d+`, []string{"1", "42", "007"}, []string{"", "x", "1x", "x1"}},
	{`[a-z]+`, []string{"a", "bc", "zzz"}, []string{"", "A", "a1", "1a"}},
	{`a|bc`, []string{"a", "bc"}, []string{"", "b", "ab", "bca"}},
	{`x{1,3}`, []string{"x", "xx", "xxx"}, []string{"", "xxxx", "y"}},
	{`[^/]+`, []string{"q", "a-b", "{}"}, []string{"", "/"}},
	{`[}]+`, []string{"}", "}}"}, []string{"", "a", "{"}},
	{`[]a]+`, []string{"]", "a]", "aa"}, []string{"", "b"}},
	{`\}\{`, []string{"}{"}, []string{"", "{}", "}"}},
	{`(?:ab)+`, []string{"ab", "abab"}, []string{"", "a", "aba"}},
	{`[0-9]{2}`, []string{"12", "99"}, []string{"1", "123", ""}},
	{`[a-c]*`, []string{"", "a", "cab"}, []string{"d", "ad"}},
	{`(?i)yes|no`, []string{"Yes", "no", "NO"}, []string{"", "yesno", "n"}},
}

type seg struct {
	lit  string
	name string
	p    *pat // nil: wildcard
	bare bool // a repeated pattern given by its name only
}

type tm struct {
	name string
	segs []seg
}

func escLit(s string) string {
	return strings.NewReplacer("{", `\{`, "}", `\}`).Replace(s)
}

func escName(s string) string { return strings.ReplaceAll(s, ":", `\:`) }

func (t tm) text() string {
	var b strings.Builder
	if t.name != "" {
		b.WriteString("$" + escName(t.name) + ":")
	} else if t.segs[0].lit != "" && t.segs[0].lit[0] == '$' {
		b.WriteString(`\`)
	}
	for _, s := range t.segs {
		switch {
		case s.lit != "":
			b.WriteString(escLit(s.lit))
		case s.p == nil || s.bare:
			b.WriteString("{" + escName(s.name) + "}")
		default:
			b.WriteString("{" + escName(s.name) + ":" + s.p.re + "}")
		}
	}
	return b.String()
}

func (t tm) static() bool { return len(t.segs) == 1 && t.segs[0].lit != "" }
func (t tm) wild() int {
	for i, s := range t.segs {
		if s.lit == "" && s.p == nil {
			return i
		}
	}
	return -1
}

// defaultName is the name a template gets when none is given.
func (t tm) fullName() string {
	if t.name != "" || t.static() {
		return t.name
	}
	n := ""
	for _, s := range t.segs {
		if s.lit == "" {
			if n != "" {
				return ""
			}
			n = s.name
		}
	}
	return n
}

func (f *F) pick(ss []string) string { return ss[f.rnd.Intn(len(ss))] }

var litParts = []string{"a", "b", "-", ".", "1", "x", "{", "}", ":", "$", "/", "é", "[", "]", "(", "^", "世", "\\"}
var nameParts = []string{"n", "id", "v1", "a:b", "n{x}", "é", "a b", ":", "k"}

func (f *F) lit(max int) string {
	n := 1 + f.rnd.Intn(max)
	s := ""
	for i := 0; i < n; i++ {
		s += f.pick(litParts)
	}
	return s
}

func (f *F) template() tm {
	for {
		t := tm{}
		if f.rnd.Intn(3) == 0 {
			t.name = f.pick([]string{"name", "a:b", "x", "::", "n-1", "é:"})
		}
		n := 1 + f.rnd.Intn(5)
		long := f.rnd.Intn(20) == 0
		if long {
			n = 5 + f.rnd.Intn(40)
		}
		wild := false
		used := map[string]*pat{}
		for i := 0; i < n; i++ {
			dyn := f.rnd.Intn(3) > 0
			if !dyn && len(t.segs) > 0 && t.segs[len(t.segs)-1].lit != "" {
				dyn = true
			}
			if n == 1 && f.rnd.Intn(2) == 0 {
				dyn = false
			}
			if !dyn {
				t.segs = append(t.segs, seg{lit: f.lit(4)})
				continue
			}
			nme := f.pick(nameParts)
			if long {
				nme = fmt.Sprintf("m%d", f.rnd.Intn(30))
			}
			if p, ok := used[nme]; ok {
				if p != nil {
					t.segs = append(t.segs, seg{name: nme, p: p, bare: f.rnd.Intn(2) == 0})
				}
				continue
			}
			if !wild && f.rnd.Intn(4) == 0 {
				wild = true
				used[nme] = nil
				t.segs = append(t.segs, seg{name: nme})
				continue
			}
			p := &pats[f.rnd.Intn(len(pats))]
			used[nme] = p
			t.segs = append(t.segs, seg{name: nme, p: p})
		}
		ok := len(t.segs) > 0
		for i, s := range t.segs {
			if s.lit != "" && i > 0 && t.segs[i-1].lit != "" {
				ok = false
			}
			if s.lit != "" && strings.HasSuffix(s.lit, `\`) && i < len(t.segs)-1 {
				ok = false // it would escape the brace that follows
			}
		}
		if ok {
			return t
		}
	}
}

// names of the dynamic segments in order
func (t tm) valueNames() []string {
	var r []string
	for _, s := range t.segs {
		if s.lit == "" {
			r = append(r, s.name)
		}
	}
	return r
}

type vals struct {
	keys []string
	m    map[string]string
}

func newVals() *vals { return &vals{m: map[string]string{}} }
func (v *vals) set(k, s string) {
	if _, ok := v.m[k]; !ok {
		v.keys = append(v.keys, k)
	}
	v.m[k] = s
}
func (v *vals) real() nm.TemplateValues {
	var r nm.TemplateValues
	for _, k := range v.keys {
		r.Set(k, v.m[k])
	}
	return r
}
func (v *vals) String() string {
	s := ""
	for _, k := range v.keys {
		s += fmt.Sprintf("%q=%q ", k, v.m[k])
	}
	return "{" + s + "}"
}

var reCache = map[string]*regexp.Regexp{}

func re(s string) *regexp.Regexp {
	if r, ok := reCache[s]; ok {
		return r
	}
	r := regexp.MustCompile(s)
	reCache[s] = r
	return r
}

// match is the oracle of C03: the new values by name, or nil.
func (t tm) match(s string, given *vals) (bool, *vals) {
	got := newVals()
	put := func(n, v string) bool {
		if g, ok := got.m[n]; ok {
			return g == v
		}
		if given != nil {
			if g, ok := given.m[n]; ok {
				return g == v
			}
		}
		got.set(n, v)
		return true
	}
	w := t.wild()
	end := len(t.segs)
	if w >= 0 {
		end = w
	}
	for i := 0; i < end; i++ {
		sg := t.segs[i]
		if sg.lit != "" {
			if !strings.HasPrefix(s, sg.lit) {
				return false, nil
			}
			s = s[len(sg.lit):]
			continue
		}
		e := "^(?:" + sg.p.re + ")"
		if i == len(t.segs)-1 {
			e += "$"
		}
		loc := re(e).FindStringIndex(s)
		if loc == nil || !put(sg.name, s[:loc[1]]) {
			return false, nil
		}
		s = s[loc[1]:]
	}
	for i := len(t.segs) - 1; w >= 0 && i > w; i-- {
		sg := t.segs[i]
		if sg.lit != "" {
			if !strings.HasSuffix(s, sg.lit) {
				return false, nil
			}
			s = s[:len(s)-len(sg.lit)]
			continue
		}
		loc := re("(?:" + sg.p.re + ")$").FindStringIndex(s)
		if loc == nil || !put(sg.name, s[loc[0]:]) {
			return false, nil
		}
		s = s[:loc[0]]
	}
	if w < 0 {
		return s == "", got
	}
	if s != "" {
		got.set(t.segs[w].name, s)
	}
	return true, got
}

// sample makes a string that probably matches.
func (f *F) sample(t tm, given *vals) string {
	var b strings.Builder
	seen := map[string]string{}
	for _, s := range t.segs {
		switch {
		case s.lit != "":
			b.WriteString(s.lit)
		case s.p == nil:
			b.WriteString(f.pick([]string{"w", "12", "abc", "}", "a-1", "x", ""}))
		default:
			v, ok := seen[s.name]
			if !ok && given != nil {
				v, ok = given.m[s.name]
			}
			if !ok || f.rnd.Intn(8) == 0 {
				v = f.pick(s.p.good)
			}
			seen[s.name] = v
			b.WriteString(v)
		}
	}
	r := b.String()
	switch f.rnd.Intn(6) {
	case 0:
		if len(r) > 0 {
			i := f.rnd.Intn(len(r))
			r = r[:i] + r[i+1:]
		}
	case 1:
		i := f.rnd.Intn(len(r) + 1)
		r = r[:i] + f.pick([]string{"a", "1", "x", "}", "/", "-"}) + r[i:]
	}
	return r
}

func parseQuietly(s string) (t *nm.Template, err error) { return nm.TryToParse(s) }

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkParsed(t tm, rt *nm.Template) error {
	if rt.Name() != t.fullName() {
		return fmt.Errorf("Name() = %q, want %q", rt.Name(), t.fullName())
	}
	if !eqStrs(rt.ValueNames(), t.valueNames()) {
		return fmt.Errorf("ValueNames() = %q, want %q", rt.ValueNames(), t.valueNames())
	}
	if rt.IsStatic() != t.static() {
		return fmt.Errorf("IsStatic() = %v", rt.IsStatic())
	}
	if rt.IsWildcard() != (len(t.segs) == 1 && t.wild() == 0) {
		return fmt.Errorf("IsWildcard() = %v", rt.IsWildcard())
	}
	if t.static() && rt.UnescapedContent() != t.segs[0].lit {
		return fmt.Errorf("UnescapedContent() = %q, want %q", rt.UnescapedContent(), t.segs[0].lit)
	}
	hp := false
	for _, s := range t.segs {
		hp = hp || s.p != nil
	}
	if rt.HasPattern() != hp {
		return fmt.Errorf("HasPattern() = %v", rt.HasPattern())
	}
	// the literal text around the values
	v := newVals()
	want := ""
	for _, s := range t.segs {
		switch {
		case s.lit != "":
			want += s.lit
		default:
			x := "V"
			if s.p != nil {
				x = s.p.good[len(s.p.good)-1]
			}
			v.set(s.name, x)
			want += v.m[s.name]
		}
	}
	got, err := rt.TryToApply(v.real(), false)
	if err != nil || got != want {
		return fmt.Errorf("applied to %v the template gives %q, %v; want %q", v, got, err, want)
	}
	return nil
}

// goodTemplate: what C01 says of a parsed template, as far as it can be seen
func goodTemplate(rt *nm.Template) error {
	if rt == nil {
		return fmt.Errorf("neither a template nor an error")
	}
	for _, n := range rt.ValueNames() {
		if n == "" {
			return fmt.Errorf("a dynamic segment without a value name")
		}
	}
	if rt.UnescapedContent() == "" {
		return fmt.Errorf("no segments")
	}
	rt.Content()
	_ = rt.String()
	rt.Match("a", nil)
	rt.TryToApply(nil, true)
	if rt.SimilarityWith(rt) != nm.TheSame {
		return fmt.Errorf("not the same as itself")
	}
	if rt.IsStatic() && len(rt.ValueNames()) > 0 {
		return fmt.Errorf("a static template with values")
	}
	return nil
}

func init() {
	alpha := []string{"$", ":", `\`, "{", "}", "[", "]", "^", "|", "a", "b", "(", ")", "*", "é", "/", "{n:", "{n}", "{m}", `\{`, `\}`, `\:`, "+", "{n:[", "]}", "\xff"}
	props["C01"] = func(f *F) {
		run := func(kind, s string) {
			f.Case(kind, fmt.Sprintf("template %q", s), func() error {
				rt, err := parseQuietly(s)
				p, _ := try(func() { nm.Parse(s) })
				if err != nil {
					if rt != nil {
						return fmt.Errorf("a template is returned with error %v", err)
					}
					if !p {
						return fmt.Errorf("TryToParse fails (%v), Parse doesn't panic", err)
					}
					return nil
				}
				if p {
					return fmt.Errorf("TryToParse succeeds, Parse panics")
				}
				if err := goodTemplate(rt); err != nil {
					return err
				}
				return twoWildcards(rt, s)
			})
		}
		for _, s := range []string{"", "$", "$$", "$:", "$n", "$n:", `\$`, `\`, "{", "}", "{}", "{:}", "{:a}", "{n:}", "{n:(}", "{n:[}", "{n:[a}", "{n}{n}", "{n}{m}", "{n:a}{m}{k}", "{n}{n:a}", "{n:a}{n:b}", `{n:\}`, `{n\}`, `{\:}`, "{n:[]}", "{n:[^]}", "{n:[^]}]}", "{n{m}}", "{n{m}:a}", "{{n:a}", `$n\:`, `$\:`, "$n::", `$n\::{a}`, "a{n:a*}b{n}", "{n:a|b}", `{n:\Qa|b}`, "{n:a)|(b}"} {
			run("listed", s)
		}
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if s != "" {
				run("short", s)
			}
			if n == 0 {
				return
			}
			for _, c := range []string{"$", ":", `\`, "{", "}", "a", "["} {
				rec(s+c, n-1)
			}
		}
		rec("", 5)
		for f.More() {
			s := ""
			if f.rnd.Intn(2) == 0 {
				n := 1 + f.rnd.Intn(10)
				for i := 0; i < n; i++ {
					s += f.pick(alpha)
				}
			} else {
				s = f.template().text()
				for k := f.rnd.Intn(3); k > 0; k-- {
					i := f.rnd.Intn(len(s) + 1)
					if f.rnd.Intn(2) == 0 || i == len(s) {
						s = s[:i] + f.pick(alpha) + s[i:]
					} else {
						s = s[:i] + s[i+1:]
					}
				}
			}
			run("random", s)
		}
	}
	props["C02"] = func(f *F) {
		run := func(kind string, t tm) {
			s := t.text()
			f.Case(kind, fmt.Sprintf("template %q", s), func() error {
				rt, err := parseQuietly(s)
				if err != nil {
					return fmt.Errorf("error %v", err)
				}
				return checkParsed(t, rt)
			})
		}
		for _, l := range []string{"a", "{", "}", "{}", "}{", `\`, `\\`, `\{`, "$", "$a:b", "a$", ":", "a:b", `\$`, "$$", "é}世", "{n}", "{n:a}", `a\`, "a}b{c"} {
			for _, n := range []string{"", "n", ":", "a:b", "::", "$", "{", "é"} {
				if n == "" && strings.HasPrefix(l, `\$`) {
					continue // a backslash before a leading dollar sign escapes it
				}
				run("static", tm{n, []seg{{lit: l}}})
				if !strings.HasSuffix(l, `\`) {
					run("before a value", tm{n, []seg{{lit: l}, {name: "v"}}})
				}
				run("after a value", tm{n, []seg{{name: "v", p: &pats[0]}, {lit: l}}})
			}
		}
		for f.More() {
			t := f.template()
			if t.name == "" && strings.HasPrefix(t.segs[0].lit, `\$`) {
				continue
			}
			run("random", t)
			// an unescaped closing brace in literal text is an error
			for i, sg := range t.segs {
				if sg.lit != "" {
					k := f.rnd.Intn(len(sg.lit) + 1)
					if k > 0 && sg.lit[k-1] == '\\' || k < len(sg.lit) && sg.lit[k]&0xC0 == 0x80 {
						break
					}
					text := ""
					if t.name != "" {
						text = "$" + escName(t.name) + ":"
					} else if t.segs[0].lit != "" && t.segs[0].lit[0] == '$' {
						text = `\`
					}
					if i == 0 && k == 0 {
						text = strings.TrimSuffix(text, `\`)
					}
					text += tm{segs: append([]seg{{lit: "z"}}, t.segs[:i]...)}.text()[1:] + escLit(sg.lit[:k]) + "}" + tm{segs: append([]seg{{lit: "z" + sg.lit[k:]}}, t.segs[i+1:]...)}.text()[1:]
					f.Case("unescaped brace", fmt.Sprintf("template %q", text), func() error {
						_, err := parseQuietly(text)
						if err == nil {
							return fmt.Errorf("accepted, although there's an unescaped closing brace in literal text")
						}
						if !errors.Is(err, nm.ErrInvalidTemplate) {
							return fmt.Errorf("error %v is not ErrInvalidTemplate", err)
						}
						return nil
					})
					break
				}
			}
		}
	}
	props["C03"] = func(f *F) {
		run := func(kind string, t tm, s string, given *vals) {
			f.Case(kind, fmt.Sprintf("template %q, string %q, given values %v", t.text(), s, given), func() error {
				rt, err := parseQuietly(t.text())
				if err != nil {
					return fmt.Errorf("the template isn't accepted: %v", err)
				}
				gv := given.real()
				before := len(gv)
				ok, res := rt.Match(s, gv)
				want, wv := t.match(s, given)
				if ok != want {
					return fmt.Errorf("Match = %v, want %v", ok, want)
				}
				if len(gv) != before {
					return fmt.Errorf("the given values changed")
				}
				for k, v := range given.m {
					if gv.Get(k) != v {
						return fmt.Errorf("the given value of %q became %q", k, gv.Get(k))
					}
				}
				if !ok {
					if len(res) != before {
						return fmt.Errorf("the failing match returned %d values, %d were given", len(res), before)
					}
					for k, v := range given.m {
						if res.Get(k) != v {
							return fmt.Errorf("the failing match returned %q for %q", res.Get(k), k)
						}
					}
					return nil
				}
				min := before
				for k, v := range wv.m {
					if res.Get(k) != v {
						return fmt.Errorf("the value of %q is %q, want %q", k, res.Get(k), v)
					}
					min++
				}
				for k, v := range given.m {
					if _, is := wv.m[k]; !is && res.Get(k) != v {
						return fmt.Errorf("the given value of %q is %q after the match", k, res.Get(k))
					}
				}
				if len(res) < min || len(res) > min+1 || len(res) == min+1 && t.wild() < 0 {
					return fmt.Errorf("%d values are returned, want %d", len(res), min)
				}
				if before > 0 && len(res) >= before {
					for k := range given.m {
						if res[:before].Get(k) != given.m[k] {
							return fmt.Errorf("the given values are not at the start")
						}
					}
				}
				return nil
			})
		}
		for _, t := range []tm{
			{"", []seg{{lit: "ab"}}}, {"", []seg{{name: "w"}}}, {"", []seg{{name: "v", p: &pats[0]}}},
			{"", []seg{{name: "v", p: &pats[0]}, {name: "w"}, {name: "v", p: &pats[0], bare: true}}},
			{"", []seg{{lit: "a"}, {name: "w"}, {lit: "a"}}},
			{"", []seg{{name: "v", p: &pats[2]}, {lit: "-"}, {name: "v", p: &pats[2], bare: true}}},
			{"", []seg{{name: "w"}, {name: "v", p: &pats[2]}}},
			{"", []seg{{name: "w"}, {name: "u", p: &pats[0]}, {name: "v", p: &pats[1]}}},
		} {
			for _, s := range []string{"", "a", "ab", "aa", "aba", "abab", "1", "12", "1-1", "11", "1x1", "a-a", "a-bc", "bc-bc", "xbc", "bcbc", "x1a", "q12ab"} {
				run("listed", t, s, newVals())
			}
		}
		for f.More() {
			t := f.template()
			if t.name == "" && strings.HasPrefix(t.segs[0].lit, `\$`) {
				continue
			}
			given := newVals()
			for k := f.rnd.Intn(3); k > 0; k-- {
				given.set(f.pick(append(nameParts, "other")), f.pick([]string{"1", "a", "x", "bc", ""}))
			}
			if w := t.wild(); w >= 0 {
				if _, is := given.m[t.segs[w].name]; is {
					continue
				}
			}
			run("random", t, f.sample(t, given), given)
		}
	}
	props["C04"] = func(f *F) {
		for f.More() {
			t := f.template()
			if t.name == "" && strings.HasPrefix(t.segs[0].lit, `\$`) {
				continue
			}
			v := newVals()
			for _, s := range t.segs {
				if s.lit != "" || f.rnd.Intn(8) == 0 {
					continue
				}
				switch {
				case s.p == nil:
					v.set(s.name, f.pick([]string{"", "w", "a{b}", "1"}))
				case f.rnd.Intn(6) == 0:
					v.set(s.name, f.pick(s.p.bad))
				default:
					v.set(s.name, f.pick(s.p.good))
				}
			}
			if f.rnd.Intn(3) == 0 {
				v.set("other", "x")
			}
			ign := f.rnd.Intn(2) == 0
			f.Case("apply", fmt.Sprintf("template %q, values %v, ignoreMissing %v", t.text(), v, ign), func() error {
				rt, err := parseQuietly(t.text())
				if err != nil {
					return fmt.Errorf("the template isn't accepted: %v", err)
				}
				want, wantErr := "", error(nil)
				for _, s := range t.segs {
					if s.lit != "" {
						want += s.lit
						continue
					}
					x, is := v.m[s.name]
					switch {
					case is && s.p != nil && !re("^(?:"+s.p.re+")$").MatchString(x):
						wantErr = nm.ErrInvalidValue
					case is:
						want += x
					case !ign:
						wantErr = nm.ErrMissingValue
					}
					if wantErr != nil {
						break
					}
				}
				got, err := rt.TryToApply(v.real(), ign)
				p, pv := try(func() {
					if g := rt.Apply(v.real(), ign); g != got {
						panic("Apply gives " + g)
					}
				})
				if wantErr != nil {
					if !errors.Is(err, wantErr) {
						return fmt.Errorf("the result is %q, error %v; want error %v", got, err, wantErr)
					}
					if !p {
						return fmt.Errorf("Apply doesn't panic")
					}
					return nil
				}
				if err != nil || got != want {
					return fmt.Errorf("the result is %q, error %v; want %q", got, err, want)
				}
				if p {
					return fmt.Errorf("Apply panics: %v", pv)
				}
				return nil
			})
		}
	}
	props["C05"] = func(f *F) {
		for f.More() {
			t1 := f.template()
			t2 := f.template()
			if f.rnd.Intn(4) > 0 {
				// a near copy
				t2 = tm{t1.name, append([]seg{}, t1.segs...)}
				ren := map[string]string{}
				for k := f.rnd.Intn(3); k > 0; k-- {
					i := f.rnd.Intn(len(t2.segs))
					s := &t2.segs[i]
					switch f.rnd.Intn(6) {
					case 0:
						t2.name = f.pick([]string{"", "name", "other"})
					case 1:
						if s.lit != "" {
							s.lit = f.lit(2)
						} else {
							ren[s.name] = s.name + "2"
						}
					case 2:
						if s.lit == "" && s.p != nil {
							p := &pats[f.rnd.Intn(len(pats))]
							for j := range t2.segs {
								if t2.segs[j].name == s.name {
									t2.segs[j].p = p
								}
							}
						}
					case 3:
						// the name of only this segment
						if s.lit == "" {
							s.name += "3"
							s.bare = false
							for j := i + 1; j < len(t2.segs); j++ {
								t2.segs[j].bare = false
							}
						}
					case 4:
						t2.segs = append(t2.segs[:i:i], t2.segs[i+1:]...)
						if len(t2.segs) == 0 {
							t2.segs = []seg{{lit: "q"}}
						}
						for j := range t2.segs {
							t2.segs[j].bare = false
						}
					}
				}
				for i := range t2.segs {
					if n, ok := ren[t2.segs[i].name]; ok && t2.segs[i].lit == "" {
						t2.segs[i].name = n
					}
				}
			}
			r1, err1 := parseQuietly(t1.text())
			r2, err2 := parseQuietly(t2.text())
			skip := func(t tm) bool {
				for i, s := range t.segs {
					if s.lit != "" && (strings.HasPrefix(s.lit, `\$`) || i > 0 && t.segs[i-1].lit != "" || strings.HasSuffix(s.lit, `\`) && i < len(t.segs)-1) {
						return true
					}
				}
				return false
			}
			if err1 != nil || err2 != nil || skip(t1) || skip(t2) {
				continue
			}
			f.Case("similarity", fmt.Sprintf("templates %q and %q", t1.text(), t2.text()), func() error {
				want := nm.TheSame
				if len(t1.segs) != len(t2.segs) {
					want = nm.Different
				} else {
					for i, a := range t1.segs {
						b := t2.segs[i]
						switch {
						case a.lit != b.lit || (a.p == nil) != (b.p == nil) || a.p != nil && a.p.re != b.p.re:
							want = nm.Different
						case a.lit == "" && a.name != b.name && want != nm.Different:
							want = nm.DifferentValueNames
						}
					}
					if want == nm.TheSame && t1.fullName() != t2.fullName() {
						want = nm.DifferentNames
					}
				}
				s12, s21 := r1.SimilarityWith(r2), r2.SimilarityWith(r1)
				if s12 != want || s21 != want {
					return fmt.Errorf("the first says %v, the second %v, want %v", s12.Err(), s21.Err(), want.Err())
				}
				return nil
			})
		}
	}
}

// twoWildcards: with two wildcards or a repeated one, some values are ambiguous;
// it's seen from a template whose wildcards both take a text of their own.
func twoWildcards(rt *nm.Template, s string) error {
	names := rt.ValueNames()
	if len(names) < 2 || rt.HasPattern() {
		return nil
	}
	return fmt.Errorf("%d dynamic segments %q and none of them has a pattern", len(names), names)
}
