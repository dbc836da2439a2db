package main

import (
	"fmt"
	"strings"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

// childNames are the children that the elements of the supported namespaces have.
var childNames = map[string]string{
	"model": "metadata resources build", "resources": "object basematerials texture2d texture2dgroup colorgroup compositematerials multiproperties slicestack",
	"basematerials": "base", "object": "metadatagroup mesh components", "metadatagroup": "metadata", "mesh": "vertices triangles beamlattice",
	"vertices": "vertex", "triangles": "triangle", "components": "component", "build": "item", "item": "metadatagroup",
	"colorgroup": "color", "texture2dgroup": "tex2coord", "compositematerials": "composite", "multiproperties": "multi",
	"slicestack": "slice sliceref", "slice": "vertices polygon", "polygon": "segment", "beamlattice": "beams beamsets", "beams": "beam", "beamsets": "beamset", "beamset": "ref",
}

var misplaced = func() []string {
	set := map[string]bool{"x": true, "vertexs": true, "Beam": true}
	for p, kids := range childNames {
		set[p] = true
		for _, k := range strings.Fields(kids) {
			set[k] = true
		}
	}
	return sortedKeys(set)
}()

// disturb adds unknown content at places where it is not kept.
func disturb(t *rapid.T, dom *node) (nattrs, nelems, supported int) {
	h := &hookGen{t: t}
	ns := func() string { return pick(t, "strange", append([]string{"urn:strange", "x"}, unknownNS...)...) }
	// attributes, with the names of those that the element has
	owners := map[string]bool{}
	for _, p := range hookParents {
		owners[p] = true
	}
	var sites []*node
	known := map[*node]bool{}
	var walk func(n *node)
	walk = func(n *node) {
		if n.Verb {
			return
		}
		known[n] = true
		if n.Name.Space != nsCore || !owners[n.Name.Local] {
			sites = append(sites, n)
		}
		for _, k := range n.kids() {
			walk(k)
		}
	}
	walk(dom)
	by := map[qname][]*node{}
	for _, x := range sites {
		by[x.Name] = append(by[x.Name], x)
	}
	var kinds []qname
	for _, x := range sites {
		if by[x.Name][0] == x {
			kinds = append(kinds, x.Name)
		}
	}
	if len(sites) > 0 {
		for i, n := 0, drawInt(t, 0, 4, "nstrange"); i < n; i++ {
			x := sites[drawInt(t, 0, len(sites)-1, "strangesite")]
			if drawBool(t, "bykind") {
				of := by[kinds[drawInt(t, 0, len(kinds)-1, "strangekind")]]
				x = of[drawInt(t, 0, len(of)-1, "strangeofkind")]
			}
			names := []string{"id", "x", "v1", "name", "path", "UUID", drawName(t, "strangename")}
			for _, a := range x.Attrs {
				names = append(names, a.Name.Local)
			}
			q := qname{ns(), pick(t, "strangeattr", names...)}
			if _, dup := x.attr(q.Space, q.Local); dup {
				continue
			}
			p := drawInt(t, 0, len(x.Attrs), "strangepos")
			x.Attrs = append(append(append([]nattr{}, x.Attrs[:p]...), nattr{Name: q, Value: h.value("strangeval")}), x.Attrs[p:]...)
			nattrs++
		}
	}
	nelems = sprinkle(t, dom, 6, func(parent *node, point string) *node {
		if oneIn(t, 2, "supportedns") { // an element that the supported namespaces do not have, or not here
			n := h.tree("urn:none", "amcltdo", 0)
			n.Name.Space = pick(t, "elementns", parent.Name.Space, nsCore, nsMat, nsSlic, nsBeam, nsProd)
			if point != "" {
				n.Name.Local = pick(t, "nosuch", "x", "Object", "objects", "meta", "resource", "slicestacks", "beamLattice", "colorgrou", "texture", "attachment")
			} else {
				n.Name.Local = pick(t, "misplaced", misplaced...)
				for _, k := range strings.Fields(childNames[parent.Name.Local]) {
					if k == n.Name.Local {
						return nil
					}
				}
			}
			if kids := parent.kids(); len(kids) > 0 && drawBool(t, "likeness") { // all but the name is that of something known
				k := kids[drawInt(t, 0, len(kids)-1, "like")]
				if known[k] {
					local := n.Name.Local
					if drawBool(t, "near") {
						local = pick(t, "nearname", k.Name.Local+"s", k.Name.Local[:len(k.Name.Local)-1], strings.ToUpper(k.Name.Local), strings.ToUpper(k.Name.Local[:1])+k.Name.Local[1:], "x"+k.Name.Local)
					}
					for _, l := range strings.Fields(childNames[parent.Name.Local]) {
						if l == local {
							return nil
						}
					}
					space := n.Name.Space
					if drawBool(t, "samens") {
						space = k.Name.Space
					}
					n = &node{Name: qname{space, local}, Attrs: k.Attrs, Content: k.Content, HasText: k.HasText}
				}
			}
			supported++
			return n
		}
		if point != "" {
			return nil
		}
		if kids := parent.kids(); len(kids) > 0 && drawBool(t, "twin") { // all but the namespace is that of something known
			k := kids[drawInt(t, 0, len(kids)-1, "twinof")]
			space := pick(t, "twinns", ns(), nsCore, nsMat, nsSlic, nsBeam, nsProd, "")
			if known[k] && space != k.Name.Space {
				return &node{Name: qname{space, k.Name.Local}, Attrs: k.Attrs, Content: k.Content, HasText: k.HasText}
			}
		}
		n := h.tree(ns(), "amcltdo", 0)
		if drawBool(t, "knownname") { // the name of something known
			n.Name.Local = pick(t, "knownlocal", "vertex", "triangle", "item", "object", "component", "metadata", "mesh", "base", "color", "slice", "beam", "metadatagroup", "components", "basematerials")
		}
		return n
	})
	return
}

// checkUndisturbed: unknown content at places where it is not kept does not change what
// the rest of the document means.
func checkUndisturbed(t *rapid.T, c *C, o GenOpts) {
	o.Prec, o.Children, o.Attach = -1, false, false
	g := genModel(t, o)
	s := drawSpelling(t, c)
	dom := buildDOM(g.M, "")
	nattrs, nelems, supported := disturb(t, dom)
	doc := s.document(dom, g.M.Extensions)
	if _, err := parseXML(doc); err != nil {
		t.Fatalf("HARNESS: the spelled document is not well formed: %v\n%s", err, clip(string(doc), 4000))
	}
	c.Begin("model.xml", doc)
	c.Eval()
	got := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, got); err != nil {
		t.Fatalf("decoding a valid document failed: %v\n%s", err, clip(string(doc), 4000))
	}
	if d := diffExact(canon(g.M), canon(got)); d != "" {
		t.Fatalf("unknown content changes the decoded model (-want +got):\n%s\n%s", d, clip(string(doc), 4000))
	}
	c.LabelIf(nattrs > 0, "attributes")
	c.LabelIf(nelems > 0, "elements")
	c.LabelIf(supported > 0, "no-such-element")
	if nattrs+nelems > 0 {
		c.NonTrivial(doc)
	}
	c.Sample(string(doc))
}

// checkUndisturbedParts does the same for a package with child parts, all of them disturbed.
func checkUndisturbedParts(t *rapid.T, c *C, o GenOpts) {
	o.Prec, o.Children, o.Attach = -1, true, false
	g := genModel(t, o)
	doms := map[string]*node{}
	spell := map[string]*speller{}
	inChilds, total := 0, 0
	for _, p := range append([]string{""}, sortedChilds(g.M)...) {
		spell[p] = drawSpelling(t, c)
		doms[p] = buildDOM(g.M, p)
		nattrs, nelems, _ := disturb(t, doms[p])
		total += nattrs + nelems
		if p != "" {
			inChilds += nattrs + nelems
		}
	}
	style, r := drawStyle(t, c)
	b := packageOf(g, func(part string) []byte {
		doc := spell[part].document(doms[part], g.M.Extensions)
		if _, err := parseXML(doc); err != nil {
			t.Fatalf("HARNESS: the spelled document is not well formed: %v\n%s", err, clip(string(doc), 4000))
		}
		return doc
	}).bytes(style, r)
	c.Begin("package.3mf", b)
	c.Eval()
	got, err := decodePkg(b, drawBool(t, "strict"))
	if err != nil {
		t.Fatalf("decoding a valid package failed: %v", err)
	}
	resolveRels(got)
	if d := diffExact(canon(g.M), canon(got)); d != "" {
		t.Fatalf("unknown content changes the decoded model (-want +got):\n%s", d)
	}
	c.LabelIf(inChilds > 0, "in-child-parts")
	if total > 0 && len(g.M.Childs) > 0 {
		c.NonTrivial(b)
	}
	c.Sample(fmt.Sprintf("%d parts, %d additions, %d of them in child parts", len(doms), total, inChilds))
}

// checkRewritten: what another program has written, with its own prefixes declared anywhere,
// is still there after it has been read and written.
func checkRewritten(t *rapid.T, c *C, o GenOpts) {
	o.Prec, o.Children, o.Attach = 4, false, false
	o.Undeclare = oneIn(t, 3, "undeclare")
	g := genModel(t, o)
	quantizeTransforms(g.M)
	s := drawSpelling(t, c)
	s.f[fShadow] = s.f[fShadow] || drawBool(t, "shadow")
	doc := s.document(buildDOM(g.M, ""), g.M.Extensions)
	c.Begin("model.xml", doc)
	c.Eval()
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, m); err != nil {
		t.Fatalf("decoding a valid document failed: %v\n%s", err, clip(string(doc), 4000))
	}
	for k := 1; k <= 2; k++ {
		out, err := go3mf.MarshalModel(m)
		if err != nil {
			t.Fatalf("saving what was read failed: %v", err)
		}
		if d := checkPart(g.M, "", out, 4); d != "" {
			t.Fatalf("written %d times: %s\nread from\n%s", k, d, clip(string(doc), 4000))
		}
		m = new(go3mf.Model)
		if err := go3mf.UnmarshalModel(out, m); err != nil {
			t.Fatalf("decoding what was saved failed: %v\n%s", err, clip(string(out), 4000))
		}
	}
	unknown := len(g.M.Any) > 0
	for _, a := range g.M.Resources.Assets {
		_, u := a.(*go3mf.UnknownAsset)
		unknown = unknown || u
	}
	c.LabelIf(unknown, "unknown-elements")
	if unknown || len(g.M.AnyAttr) > 0 {
		c.NonTrivial(doc)
	}
	c.Sample(string(doc))
}

func init() {
	register(&Sub{Prop: "P03", Name: "rewritten", Rule: "random models as documents of another program (prefixes declared, redeclared and shadowed anywhere, namespaces undeclared in the model element), read, written and read twice by an own XML reader and by the library; non-trivial = with unknown elements or attributes at the model or among the resources", Quick: 4000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		checkRewritten(t, c, GenOpts{MaxObj: 2, Unkn: true, Mat: drawBool(t, "mat"), Prod: drawBool(t, "prod")})
	}})
	rule := "random models as documents with unknown elements and attributes added where the library has nowhere to keep them (inside build, item, object, vertices, metadata, elements of supported extensions, ...); non-trivial = at least one was added"
	register(&Sub{Prop: "P03", Name: "undisturbed-core", Rule: rule, Quick: 6000, Thorough: 100000, Fn: func(t *rapid.T, c *C) {
		checkUndisturbed(t, c, GenOpts{MaxObj: 3})
	}})
	register(&Sub{Prop: "P03", Name: "undisturbed-all", Rule: rule, Quick: 6000, Thorough: 100000, Fn: func(t *rapid.T, c *C) {
		checkUndisturbed(t, c, allOpts(-1))
	}})
	register(&Sub{Prop: "P03", Name: "undisturbed-parts", Rule: "as undisturbed-all, for packages with child parts; non-trivial = at least one addition and one child part", Quick: 2500, Thorough: 60000, Fn: func(t *rapid.T, c *C) {
		checkUndisturbedParts(t, c, allOpts(-1))
	}})
}
