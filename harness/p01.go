package main

import (
	"bytes"
	"fmt"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

func encodePkg(m *go3mf.Model, prec int) ([]byte, error) {
	var b bytes.Buffer
	e := go3mf.NewEncoder(&b)
	e.FloatPrecision = prec
	err := e.Encode(m)
	return b.Bytes(), err
}

func decodePkg(b []byte, strict bool) (*go3mf.Model, error) {
	d := go3mf.NewDecoder(bytes.NewReader(b), int64(len(b)))
	d.Strict = strict
	m := new(go3mf.Model)
	err := d.Decode(m)
	return m, err
}

func drawPrec(t *rapid.T) int {
	return pick(t, "prec", 4, -1, 6, 0, 2, 9, 1, 3, 7, 12, 20, 45)
}

func countModel(c *C, m *go3mf.Model) (nontrivial bool) {
	objs, comps, tris, assets, unk := 0, 0, 0, 0, 0
	count := func(r *go3mf.Resources) {
		assets += len(r.Assets)
		for _, o := range r.Objects {
			objs++
			if o.Components != nil {
				comps += len(o.Components.Component)
			}
			if o.Mesh != nil {
				tris += len(o.Mesh.Triangles.Triangle)
				unk += len(o.Mesh.Any)
			}
		}
	}
	count(&m.Resources)
	for _, ch := range m.Childs {
		count(&ch.Resources)
		c.Label("part:child")
		unk += len(ch.Any)
	}
	unk += len(m.Any)
	c.LabelIf(comps > 0, "has:components")
	c.LabelIf(tris > 0, "has:triangles")
	c.LabelIf(assets > 0, "has:assets")
	c.LabelIf(unk > 0, "has:any")
	c.LabelIf(len(m.Build.Items) > 0, "has:items")
	c.LabelIf(len(m.Metadata) > 0, "has:metadata")
	c.LabelIf(len(m.RootRelationships)+len(m.Relationships) > 0, "has:relationships")
	return objs > 0 && (comps > 0 || tris > 0 || assets > 0)
}

const rtRule = "random representable models; non-trivial = at least one object together with a component, triangle or asset; distinct by encoded bytes"

func checkPkgRoundTrip(t *rapid.T, c *C, o GenOpts) {
	g := genModel(t, o)
	labelLarge(c, g)
	c.Begin("model", []byte(describe(g.M)))
	b, err := encodePkg(g.Model(), o.Prec)
	c.Eval()
	if err != nil {
		t.Fatalf("encoding a representable model failed: %v", err)
	}
	c.Begin("package.3mf", b)
	got, err := decodePkg(b, drawBool(t, "strict"))
	if err != nil {
		t.Fatalf("decoding an encoded model failed: %v", err)
	}
	if got.Path != g.M.PathOrDefault() {
		t.Fatalf("root part path: want %q got %q", g.M.PathOrDefault(), got.Path)
	}
	if d := diffModels(g.M, got, o.Prec); d != "" {
		t.Fatalf("%s", d)
	}
	if d := diffAttachments(g.Atts, got.Attachments); d != "" {
		t.Fatalf("%s", d)
	}
	if countModel(c, g.M) {
		c.NonTrivial(b)
	}
	c.Label(fmt.Sprintf("prec:%d", o.Prec))
	c.Sample(describe(g.M))
}

func checkDocRoundTrip(t *rapid.T, c *C, o GenOpts) {
	o.Children, o.Attach = false, false
	o.Prec = 4
	g := genModel(t, o)
	labelLarge(c, g)
	c.Begin("model", []byte(describe(g.M)))
	b, err := go3mf.MarshalModel(g.M)
	c.Eval()
	if err != nil {
		t.Fatalf("MarshalModel failed: %v", err)
	}
	c.Begin("model.xml", b)
	got := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(b, got); err != nil {
		t.Fatalf("UnmarshalModel failed: %v\n%s", err, clip(string(b), 4000))
	}
	if d := diffModels(g.M, got, 4); d != "" {
		t.Fatalf("%s\n%s", d, clip(string(b), 4000))
	}
	if countModel(c, g.M) {
		c.NonTrivial(b)
	}
	c.Sample(string(b))
}

func init() {
	register(&Sub{Prop: "P01", Name: "package-core", Rule: rtRule, Quick: 2500, Thorough: 60000, Fn: func(t *rapid.T, c *C) {
		checkPkgRoundTrip(t, c, GenOpts{Prec: drawPrec(t), Children: true, Attach: true, MaxObj: 4})
	}})
	register(&Sub{Prop: "P01", Name: "package-mixed", Rule: rtRule, Quick: 1200, Thorough: 40000, Fn: func(t *rapid.T, c *C) {
		checkPkgRoundTrip(t, c, allOpts(drawPrec(t)))
	}})
	register(&Sub{Prop: "P01", Name: "document-core", Rule: rtRule, Quick: 3000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, GenOpts{MaxObj: 4})
	}})
	register(&Sub{Prop: "P01", Name: "large", Rule: largeRule, Quick: 300, Thorough: 20000, Fn: func(t *rapid.T, c *C) {
		checkPkgRoundTrip(t, c, GenOpts{Prec: drawPrec(t), Children: true, Attach: true, MaxObj: 3, Large: true})
	}})
}

const largeRule = "random models with up to three lists (of ten to thousands of elements) or texts (of up to 70000 bytes) enlarged, any kind of list being as likely; non-trivial as above"
