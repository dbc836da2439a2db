package main

import (
	"fmt"
	"sort"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

// checkPart decides that one written document says what the model says.
func checkPart(m *go3mf.Model, part string, data []byte, prec int) string {
	doc, err := parseXML(data)
	if err != nil {
		return fmt.Sprintf("not well formed: %v\n%s", err, clip(string(data), 3000))
	}
	for _, e := range m.Extensions {
		if doc.NS[e.LocalName] != e.Namespace {
			return fmt.Sprintf("prefix %q is bound to %q in the model element, want %q", e.LocalName, doc.NS[e.LocalName], e.Namespace)
		}
	}
	if d := diffDOM(buildDOM(m, part), doc, prec, ""); d != "" {
		return d + "\n" + clip(string(data), 4000)
	}
	return ""
}

func checkIndependentReader(t *rapid.T, c *C, o GenOpts) {
	o.NoImplicitRels = drawBool(t, "noimplicit")
	g := genModel(t, o)
	c.Begin("model", []byte(describe(g.M)))
	c.Eval()
	b, err := encodePkg(g.Model(), o.Prec)
	if err != nil {
		t.Fatalf("encoding failed: %v", err)
	}
	c.Begin("package.3mf", b)
	v, err := readPackage(b)
	if err != nil {
		t.Fatalf("not a readable package: %v", err)
	}
	root := g.M.PathOrDefault()
	parts := append([]string{""}, sortedChilds(g.M)...)
	known := map[string]bool{}
	for _, p := range parts {
		name := p
		if p == "" {
			name = root
		}
		known[name] = true
		d, ok := v.parts[name]
		if !ok {
			t.Fatalf("model part %s is not in the package", name)
		}
		if v.ct[name] != ctModel {
			t.Fatalf("model part %s has content type %q", name, v.ct[name])
		}
		if e := checkPart(g.M, p, d, o.Prec); e != "" {
			t.Fatalf("part %s: %s", name, e)
		}
	}
	start := 0
	for _, r := range v.rels[""] {
		if r.Type == relModel {
			start++
			if r.Target != root {
				t.Fatalf("start part: want %q found %q", root, r.Target)
			}
		}
	}
	if start != 1 {
		t.Fatalf("%d start part relationships", start)
	}
	for _, p := range parts[1:] {
		n := 0
		for _, r := range v.rels[root] {
			if r.Type == relModel && r.Target == p {
				n++
			}
		}
		if n != 1 {
			t.Fatalf("the root part has %d relationships to the model part %s", n, p)
		}
	}
	for _, a := range g.Atts {
		known[a.path] = true
	}
	// every relationship given to a part, and one to each file that its content refers to
	for _, p := range parts {
		name, given, res := p, g.M.Relationships, &g.M.Resources
		if p == "" {
			name = root
		} else {
			given, res = g.M.Childs[p].Relationships, &g.M.Childs[p].Resources
		}
		if e := relatesAll(v.rels[name], given, implied(res)); e != "" {
			t.Fatalf("part %s: %s", name, e)
		}
	}
	var thumb []relT
	if g.M.Thumbnail != "" {
		thumb = append(thumb, relT{g.M.Thumbnail, relThumb})
	}
	if e := relatesAll(v.rels[""], g.M.RootRelationships, thumb); e != "" {
		t.Fatalf("package: %s", e)
	}
	var extra []string
	for p := range v.parts {
		if !known[p] {
			extra = append(extra, p)
		}
	}
	sort.Strings(extra)
	if len(extra) > 0 {
		t.Fatalf("unexpected parts %v", extra)
	}
	if countModel(c, g.M) {
		c.NonTrivial(b)
	}
	c.Label(fmt.Sprintf("prec:%d", o.Prec))
	c.Sample(describe(g.M))
}

func relatesAll(got []xmlRel, given []go3mf.Relationship, impl []relT) string {
	for _, g := range given {
		ok := false
		for _, r := range got {
			ok = ok || (r.Type == g.Type && r.Target == g.Path && (g.ID == "" || r.ID == g.ID))
		}
		if !ok {
			return fmt.Sprintf("the relationship %+v is not in %+v", g, got)
		}
	}
	for _, im := range impl {
		ok := false
		for _, r := range got {
			ok = ok || r.Target == im.path
		}
		if !ok {
			return fmt.Sprintf("there is no relationship to %s, which the content refers to, in %+v", im.path, got)
		}
	}
	return ""
}

func checkIndependentDoc(t *rapid.T, c *C, o GenOpts) {
	o.Children, o.Attach = false, false
	o.Prec = 4
	g := genModel(t, o)
	c.Begin("model", []byte(describe(g.M)))
	c.Eval()
	b, err := go3mf.MarshalModel(g.M)
	if err != nil {
		t.Fatalf("MarshalModel failed: %v", err)
	}
	c.Begin("model.xml", b)
	if e := checkPart(g.M, "", b, 4); e != "" {
		t.Fatalf("%s", e)
	}
	if countModel(c, g.M) {
		c.NonTrivial(b)
	}
	c.Sample(string(b))
}

func init() {
	register(&Sub{Prop: "P04", Name: "document-undeclared", Rule: "as document, with namespaces the model does not declare", Quick: 3000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(4)
		o.Undeclare = true
		checkIndependentDoc(t, c, o)
	}})
	register(&Sub{Prop: "P04", Name: "rewritten", Rule: "random models as documents of another program (prefixes declared, redeclared and shadowed anywhere), read by the library and saved, twice; what is saved is read with an own XML reader; non-trivial = with unknown elements or attributes at the model or among the resources", Quick: 1500, Thorough: 40000, Fn: func(t *rapid.T, c *C) {
		checkRewritten(t, c, GenOpts{MaxObj: 2, Unkn: true, Mat: drawBool(t, "mat"), Prod: drawBool(t, "prod")})
	}})
	register(&Sub{Prop: "P04", Name: "package", Rule: "random models saved and read with archive/zip and an own XML reader; " + rtRule, Quick: 1800, Thorough: 50000, Fn: func(t *rapid.T, c *C) {
		checkIndependentReader(t, c, allOpts(drawPrec(t)))
	}})
	register(&Sub{Prop: "P04", Name: "package-large", Rule: largeRule, Quick: 250, Thorough: 20000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(drawPrec(t))
		o.Large = true
		checkIndependentReader(t, c, o)
	}})
	register(&Sub{Prop: "P04", Name: "package-core", Rule: "as package, core content only", Quick: 1800, Thorough: 50000, Fn: func(t *rapid.T, c *C) {
		checkIndependentReader(t, c, GenOpts{Prec: drawPrec(t), Children: true, Attach: true, MaxObj: 4})
	}})
	register(&Sub{Prop: "P04", Name: "document", Rule: "random models marshalled and read with an own XML reader; " + rtRule, Quick: 4000, Thorough: 120000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(4)
		o.Unkn = drawBool(t, "unk")
		checkIndependentDoc(t, c, o)
	}})
}
