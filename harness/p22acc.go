package main

import (
	"encoding/xml"
	"fmt"
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

// pathGroup is an attribute group of another extension that carries a path.
type pathGroup struct {
	spec.UnknownAttrs
	p string
}

func (g *pathGroup) ObjectPath() string { return g.p }

// checkAccessors: what a resource says of itself, and what the accessors find in an element.
func checkAccessors(t *rapid.T, c *C) {
	c.Eval()
	id := smallID(t)
	n := pick(t, "count", 0, 1, 2, 3, 7, 40)
	type propGroup interface{ Len() int }
	const nsM, nsS = "http://schemas.microsoft.com/3dmanufacturing/material/2015/02", "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"
	for _, x := range []struct {
		a    go3mf.Asset
		name xml.Name
	}{
		{&go3mf.BaseMaterials{ID: id, Materials: make([]go3mf.Base, n)}, xml.Name{Space: nsCore, Local: "basematerials"}},
		{&materials.ColorGroup{ID: id, Colors: make([]color.RGBA, n)}, xml.Name{Space: nsM, Local: "colorgroup"}},
		{&materials.Texture2DGroup{ID: id, TextureID: smallID(t), Coords: make([]materials.TextureCoord, n)}, xml.Name{Space: nsM, Local: "texture2dgroup"}},
		{&materials.CompositeMaterials{ID: id, MaterialID: smallID(t), Indices: make([]uint32, drawInt(t, 0, 4, "k")), Composites: make([]materials.Composite, n)}, xml.Name{Space: nsM, Local: "compositematerials"}},
		{&materials.MultiProperties{ID: id, PIDs: make([]uint32, drawInt(t, 0, 4, "k")), Multis: make([]materials.Multi, n)}, xml.Name{Space: nsM, Local: "multiproperties"}},
		{&materials.Texture2D{ID: id}, xml.Name{Space: nsM, Local: "texture2d"}},
		{&slices.SliceStack{ID: id, Slices: make([]slices.Slice, n)}, xml.Name{Space: nsS, Local: "slicestack"}},
	} {
		if got := x.a.Identify(); got != id {
			t.Fatalf("%T with identifier %d answers %d", x.a, id, got)
		}
		if got := x.a.XMLName(); got != x.name {
			t.Fatalf("%T is named %v, want %v", x.a, got, x.name)
		}
		if g, ok := x.a.(propGroup); ok {
			if got := g.Len(); got != n {
				t.Fatalf("%T with %d properties answers %d", x.a, n, got)
			}
		}
	}

	// one group of each kind at most, anywhere among others
	others := func() spec.AnyAttr {
		var out spec.AnyAttr
		for k := drawInt(t, 0, 3, "others"); k > 0; k-- {
			out = append(out, &spec.UnknownAttrs{Space: pick(t, "space", "urn:a", "urn:b", production.Namespace, slices.Namespace), Attr: []xml.Attr{{Name: xml.Name{Local: "x"}, Value: "1"}}})
		}
		return out
	}
	put := func(l spec.AnyAttr, g spec.AttrGroup) spec.AnyAttr {
		i := drawInt(t, 0, len(l), "at")
		return append(l[:i:i], append(spec.AnyAttr{g}, l[i:]...)...)
	}
	found := 0
	has := func() bool {
		h := drawBool(t, "has")
		if h {
			found++
		}
		return h
	}
	path := func() string { return pick(t, "path", "", "/3D/a.model", "/b.model", "x") }
	seq := func() string { return pick(t, "uuid", "", "u1", "u2") }

	b := &go3mf.Build{AnyAttr: others()}
	var wb *production.BuildAttr
	if has() {
		wb = &production.BuildAttr{UUID: seq()}
		b.AnyAttr = put(b.AnyAttr, wb)
	}
	if got := production.GetBuildAttr(b); got != wb {
		t.Fatalf("the production attributes of the build are %p, want %p", got, wb)
	}

	o := &go3mf.Object{AnyAttr: others()}
	var wo *production.ObjectAttr
	var ws *slices.ObjectAttr
	if has() {
		wo = &production.ObjectAttr{UUID: seq()}
		o.AnyAttr = put(o.AnyAttr, wo)
	}
	if has() {
		ws = &slices.ObjectAttr{SliceStackID: id}
		o.AnyAttr = put(o.AnyAttr, ws)
	}
	if got := production.GetObjectAttr(o); got != wo {
		t.Fatalf("the production attributes of the object are %p, want %p", got, wo)
	}
	if got := slices.GetObjectAttr(o); got != ws {
		t.Fatalf("the slice attributes of the object are %p, want %p", got, ws)
	}

	it := &go3mf.Item{AnyAttr: others()}
	cp := &go3mf.Component{AnyAttr: others()}
	var wi *production.ItemAttr
	var wc *production.ComponentAttr
	var ip, kp []string
	if has() {
		wi = &production.ItemAttr{UUID: seq(), Path: path()}
		it.AnyAttr, ip = put(it.AnyAttr, wi), append(ip, wi.Path)
	}
	if has() {
		wc = &production.ComponentAttr{UUID: seq(), Path: path()}
		cp.AnyAttr, kp = put(cp.AnyAttr, wc), append(kp, wc.Path)
	}
	if oneIn(t, 3, "foreign") {
		g := &pathGroup{p: path()}
		it.AnyAttr, ip = put(it.AnyAttr, g), append(ip, g.p)
		h := &pathGroup{p: path()}
		cp.AnyAttr, kp = put(cp.AnyAttr, h), append(kp, h.p)
	}
	if got := production.GetItemAttr(it); got != wi {
		t.Fatalf("the production attributes of the item are %p, want %p", got, wi)
	}
	if got := production.GetComponentAttr(cp); got != wc {
		t.Fatalf("the production attributes of the component are %p, want %p", got, wc)
	}
	fits := func(got, def string, ps []string) bool {
		none := true
		for _, p := range ps {
			if p != "" {
				none = false
				if got == p {
					return true
				}
			}
		}
		return none && got == def
	}
	if got := it.ObjectPath(); !fits(got, "", ip) {
		t.Fatalf("the item with the paths %q is placed in %q", ip, got)
	}
	def := pick(t, "default", "", "/3D/3dmodel.model", "/other.model")
	if got := cp.ObjectPath(def); !fits(got, def, kp) {
		t.Fatalf("the component with the paths %q and the default %q is placed in %q", kp, def, got)
	}

	ms := new(go3mf.Mesh)
	var wl *beamlattice.BeamLattice
	for k := drawInt(t, 0, 2, "others"); k > 0; k-- {
		ms.Any = append(ms.Any, &spec.UnknownTokens{Token: []xml.Token{xml.StartElement{Name: xml.Name{Space: beamlattice.Namespace, Local: "beamlattice"}}}})
	}
	if has() {
		wl = &beamlattice.BeamLattice{MinLength: 1}
		i := drawInt(t, 0, len(ms.Any), "at")
		ms.Any = append(ms.Any[:i:i], append(spec.Any{wl}, ms.Any[i:]...)...)
	}
	if got := beamlattice.GetBeamLattice(ms); got != wl {
		t.Fatalf("the beam lattice of the mesh is %p, want %p", got, wl)
	}
	// placed transforms
	mx := pick(t, "matrix", go3mf.Matrix{}, go3mf.Identity(), go3mf.Identity().Translate(0, 0, 0), go3mf.Identity().Translate(1, 0, 0))
	if i := drawInt(t, 0, 24, "entry"); i < 16 && mx != (go3mf.Matrix{}) {
		mx[i] += pick(t, "by", float32(0), 1, -1, 0.25, 1e-6)
	}
	it.Transform, cp.Transform = mx, mx
	want := false
	for i, v := range mx {
		if (i%5 == 0 && v != 1) || (i%5 != 0 && v != 0) {
			want = true
		}
	}
	want = want && mx != (go3mf.Matrix{})
	if it.HasTransform() != want || cp.HasTransform() != want {
		t.Fatalf("has a transform: item %v component %v, want %v for %v", it.HasTransform(), cp.HasTransform(), want, mx)
	}
	if found > 2 && n > 0 {
		c.NonTrivial([]byte(fmt.Sprint(id, n, found, len(o.AnyAttr), len(it.AnyAttr), ip, kp, def, mx)))
	}
	c.Sample(fmt.Sprintf("id %d, %d properties, %d groups, paths %q %q", id, n, found, ip, kp))
}

func init() {
	register(&Sub{Prop: "P22", Name: "accessors", Rule: "resources of every kind asked for identifier, name and count, elements with random attribute groups asked for each extension's own; non-trivial = more than two groups and a property", Quick: 60000, Thorough: 2000000, Fn: checkAccessors})
}
