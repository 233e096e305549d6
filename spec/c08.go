package nanomux

// C08: configuration of responders.

//gv:contract (*Template).Content
//gv:trusted
func ct_Template_Content(t *Template) (res string) {
	requires(t != nil)
	ensures(res == tmplContent(t.name, t.slices))
	return
}

// what reading a configuration back may return
func closedConfig(c Config) bool {
	return implies(c.RedirectsInsecureRequest, c.Secure) &&
		c.HandlesThePathAsIs == (c.LenientOnTrailingSlash && c.LenientOnUncleanPath)
}

func drv_ConfigRoundTrip(c Config) Config {
	return c.asFlags().asConfig()
}

//gv:contract drv_ConfigRoundTrip
//gv:prop C08
func ct_ConfigRoundTrip(c Config) (r Config) {
	ensures(r.SubtreeHandler == c.SubtreeHandler)
	ensures(r.Secure == (c.Secure || c.RedirectsInsecureRequest))
	ensures(r.HasTrailingSlash == c.HasTrailingSlash)
	ensures(r.StrictOnTrailingSlash == c.StrictOnTrailingSlash)
	ensures(r.LenientOnTrailingSlash == (c.LenientOnTrailingSlash || c.HandlesThePathAsIs))
	ensures(r.LenientOnUncleanPath == (c.LenientOnUncleanPath || c.HandlesThePathAsIs))
	ensures(r.HandlesThePathAsIs == (r.LenientOnTrailingSlash && r.LenientOnUncleanPath))
	ensures(implies(c.RedirectsInsecureRequest, r.RedirectsInsecureRequest))
	ensures(implies(r.RedirectsInsecureRequest, c.RedirectsInsecureRequest))
	terminates()
	return
}

func drv_SetConfiguration(rb *_ResponderBase, c Config) (before, after Config) {
	before = rb.Configuration()
	rb.SetConfiguration(c)
	after = rb.Configuration()
	return
}

//gv:contract drv_SetConfiguration
//gv:prop C08
func ct_SetConfiguration(rb *_ResponderBase, c Config) (before, after Config) {
	requires(rb != nil && rb.tmpl != nil)
	modifies(rb.cfs)
	root := tmplContent(rb.tmpl.name, rb.tmpl.slices) == "/"
	ensures("subtree handler", after.SubtreeHandler == c.SubtreeHandler)
	ensures("secure is sticky", after.Secure == (before.Secure || c.Secure || c.RedirectsInsecureRequest))
	ensures("redirects insecure", after.RedirectsInsecureRequest == c.RedirectsInsecureRequest)
	ensures("trailing slash is sticky", after.HasTrailingSlash == (before.HasTrailingSlash || !root && c.HasTrailingSlash))
	ensures("strict", after.StrictOnTrailingSlash == (!root && c.StrictOnTrailingSlash))
	ensures("lenient on trailing slash", after.LenientOnTrailingSlash == (!root && (c.LenientOnTrailingSlash || c.HandlesThePathAsIs)))
	ensures("lenient on unclean path", after.LenientOnUncleanPath == (c.LenientOnUncleanPath || c.HandlesThePathAsIs))
	ensures("implications", closedConfig(after))
	terminates()
	return
}
