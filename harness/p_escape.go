package main

import (
	"fmt"
	"html"
	"reflect"
	"strings"

	"github.com/viant/velty"
)

// C14: with EscapeHTML every rendered value is escaped exactly once and nothing else is

const (
	markOpen  = "{\x02<\"&amp;"
	markClose = "\x03>'&}"
)

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "a case is a generated template, every rendered value of which stands between markers made of special characters, over data full of them; it is executed with and without EscapeHTML: the values in the first output have to be the escaped values of the second one, everything outside the markers the same; distinct by template",
		Plans: []Plan{
			{Variant: "plain", Quick: 12000, Thorough: 1500000},
			{Variant: "checkptr", Quick: 1500, Thorough: 100000},
		},
		Case: caseEscape,
		Min:  []string{"values", "values with special characters", "values in evaluated templates", "composite values"},
	})
}

func (r *Rand) specials() string {
	var b strings.Builder
	for n := r.N(8); n > 0; n-- {
		b.WriteString(pick(r, "<", ">", "&", "'", `"`, "&lt;", "&amp;", "<script>", "a", " ", "é", "\x00", "\xff", "</b>"))
	}
	return b.String()
}

// spice puts special characters into the strings of the data
func (r *Rand) spice(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.String:
		if r.P(60) {
			v.SetString(r.specials())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.spice(v.Field(i), depth+1)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			r.spice(v.Elem(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.spice(v.Index(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			r.spice(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if r.P(40) {
			v.Set(reflect.ValueOf(r.specials()))
		}
	}
}

func caseEscape(c *Ctx) {
	g := newGen(c.Rand)
	g.marked = true
	g.texts = func(r *Rand) string {
		return pick(r, "a ", "<b>", "&amp;", `"quoted" `, "it's ", "<!-- & -->\n", "x>1; ", "&#39; ")
	}
	for _, n := range sortedKeys(g.hosts) {
		c.spice(g.hosts[n], 0)
	}
	if c.P(60) {
		g.addTemplates(c.R(1, 2))
	}
	p := &Program{Fns: g.fns, Hosts: g.hosts}
	p.Body = g.block(3)
	for c.P(40) {
		p.Body = append(p.Body, g.block(3)...)
	}
	p.Src = source(c.Rand, p.Body)
	ref, _, ok, failure := p.reference(false)
	if !ok || failure != "" {
		return
	}
	c.Desc("template: %s\n%s", p.Src, describeHosts(p.Hosts, p.Src))
	cacheSize := c.R(0, 3)
	run := func(options ...velty.Option) (out string, err error) {
		hosts := copyHosts(p.Hosts)
		panicked, stack := guard(func() {
			var cp *compiled
			if cp, err = p.compile(append(options, velty.CacheSize(cacheSize))...); err != nil {
				return
			}
			st := cp.state()
			if err = fillState(st, hosts); err == nil {
				err = cp.exec.Exec(st)
			}
			out = st.Buffer.String()
		})
		if panicked != nil {
			err = fmt.Errorf("panic %v at %s", panicked, stack)
		}
		return out, err
	}
	plain, err := run()
	if err != nil {
		c.Violate("error", "without EscapeHTML: %v", err)
		return
	}
	if c.P(20) {
		off, err := run(velty.EscapeHTML(false))
		if err != nil || off != plain {
			c.Violate("escaping by default", "EscapeHTML(false) is not the default: %v %s", err, firstDiff(plain, off))
			return
		}
	}
	escaped, err := run(velty.EscapeHTML(true))
	if err != nil {
		c.Violate("error", "with EscapeHTML: %v", err)
		return
	}
	a, b := strings.Split(plain, markOpen), strings.Split(escaped, markOpen)
	if len(a) != len(b) {
		c.Violate("text", "template text was changed: %s", firstDiff(plain, escaped))
		return
	}
	if a[0] != b[0] {
		c.Violate("text", "template text was changed: %s", firstDiff(a[0], b[0]))
		return
	}
	for i := 1; i < len(a); i++ {
		x, y := strings.SplitN(a[i], markClose, 2), strings.SplitN(b[i], markClose, 2)
		if len(x) != 2 || len(y) != 2 || x[1] != y[1] {
			c.Violate("text", "template text was changed from %q to %q", a[i], b[i])
			return
		}
		if y[0] != html.EscapeString(x[0]) {
			c.Violate("value", "the value %q is rendered as %q instead of %q", clip(x[0], 300), clip(y[0], 300), clip(html.EscapeString(x[0]), 300))
			return
		}
		if strings.ContainsAny(y[0], `<>"'`) || html.UnescapeString(y[0]) != html.UnescapeString(html.EscapeString(x[0])) {
			c.Violate("value", "the value %q is rendered as %q", clip(x[0], 300), clip(y[0], 300))
			return
		}
		c.Count("values", 1)
		if strings.ContainsAny(x[0], `<>"'&`) {
			c.Count("values with special characters", 1)
		}
		if strings.HasPrefix(x[0], "{") || strings.HasPrefix(x[0], "[") {
			c.Count("composite values", 1)
		}
	}
	c.Count("values in evaluated templates", ref.stats["evaluate"])
	c.Saw(p.Src)
	c.Sample("%s => %q", p.Src, clip(escaped, 250))
}
