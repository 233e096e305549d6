package nanomux

// C24: request-scoped values and template values behave as maps.

//gv:contract (_Args).get
//gv:opaque
//gv:prop C24
func ct_Args_get(args _Args, key interface{}) (i int, v interface{}) {
	ensures("found", implies(i >= 0, i < len(args) && args[i].key == key && v == args[i].value))
	ensures("first", implies(i >= 0, forall(0, i, func(k int) bool { return args[k].key != key })))
	ensures("not found", implies(i < 0, i == -1 && v == nil && forall(0, len(args), func(k int) bool { return args[k].key != key })))
	invariant("searched", func(i int) bool {
		return 0 <= i && forall(0, i, func(k int) bool { return args[k].key != key })
	})
	terminates()
	return
}

//gv:contract (TemplateValues).get
//gv:opaque
//gv:prop C24 C03 C04
func ct_TemplateValues_get(tmplVs TemplateValues, key string) (i int, v string) {
	ensures("found", implies(i >= 0, i < len(tmplVs) && tmplVs[i].key == key && v == tmplVs[i].value))
	ensures("last", implies(i >= 0, forall(i+1, len(tmplVs), func(k int) bool { return tmplVs[k].key != key })))
	ensures("not found", implies(i < 0, i == -1 && v == "" && forall(0, len(tmplVs), func(k int) bool { return tmplVs[k].key != key })))
	invariant("searched", func(i int) bool {
		return i < len(tmplVs) && i >= -1 && forall(i+1, len(tmplVs), func(k int) bool { return tmplVs[k].key != key })
	})
	terminates()
	return
}

func drv_ArgsSetGet(args *Args, key, value, other interface{}) (before, got, after interface{}) {
	before = args.Get(other)
	args.Set(key, value)
	got = args.Get(key)
	after = args.Get(other)
	return
}

//gv:contract drv_ArgsSetGet
//gv:prop C24
func ct_ArgsSetGet(args *Args, key, value, other interface{}) (before, got, after interface{}) {
	requires(args != nil)
	modifies(args.slc, elems(args.slc))
	ensures("set", got == value)
	ensures("others", implies(other != key, after == before))
	terminates()
	return
}

func drv_ArgsEmpty(key interface{}) interface{} {
	var args Args
	return args.Get(key)
}

//gv:contract drv_ArgsEmpty
//gv:prop C24
func ct_ArgsEmpty(key interface{}) (v interface{}) {
	ensures("nothing", v == nil)
	return
}

func drv_ValuesSetGet(tmplVs *TemplateValues, key, value, other string) (before, got, after string) {
	before = tmplVs.Get(other)
	tmplVs.Set(key, value)
	got = tmplVs.Get(key)
	after = tmplVs.Get(other)
	return
}

//gv:contract drv_ValuesSetGet
//gv:prop C24
func ct_ValuesSetGet(tmplVs *TemplateValues, key, value, other string) (before, got, after string) {
	requires(tmplVs != nil)
	modifies(*tmplVs, elems(*tmplVs))
	ensures("set", got == value)
	ensures("others", implies(other != key, after == before))
	terminates()
	return
}

func drv_ValuesEmpty(key string) string {
	var vs TemplateValues
	return vs.Get(key)
}

//gv:contract drv_ValuesEmpty
//gv:prop C24
func ct_ValuesEmpty(key string) (v string) {
	ensures("nothing", v == "")
	return
}
