package main

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// Reference mapping from a model to the XML that the 3MF specifications prescribe.

var unitNames = []string{"millimeter", "micron", "centimeter", "inch", "foot", "meter"}
var typeNames = []string{"model", "other", "support", "solidsupport", "surface"}
var clipNames = []string{"none", "inside", "outside"}
var capNames = []string{"sphere", "hemisphere", "butt"}
var tileNames = []string{"wrap", "mirror", "clamp", "none"}
var filterNames = []string{"auto", "linear", "nearest"}
var blendNames = []string{"mix", "multiply"}
var resNames = []string{"fullres", "lowres"}
var texNames = []string{"", "image/png", "image/jpeg"}

type domB struct{ m *go3mf.Model }

func core(l string) qname       { return qname{nsCore, l} }
func el(q qname, idx int) *node { return &node{Name: q, Idx: idx} }
func (n *node) add(local, v string, k attrKind, req bool) *node {
	n.Attrs = append(n.Attrs, nattr{Name: qname{"", local}, Value: v, Kind: k, Req: req})
	return n
}
func (n *node) def(local, v string, k attrKind) *node {
	n.Attrs = append(n.Attrs, nattr{Name: qname{"", local}, Value: v, Kind: k, Def: true})
	return n
}

// opt adds an attribute that may be left out when isDef.
func (n *node) opt(local, v string, k attrKind, isDef bool) *node {
	n.Attrs = append(n.Attrs, nattr{Name: qname{"", local}, Value: v, Kind: k, Def: isDef})
	return n
}
func (n *node) kid(k *node) *node { n.Content = append(n.Content, k); return n }

func u32(v uint32) string  { return strconv.FormatUint(uint64(v), 10) }
func f32(v float32) string { return strconv.FormatFloat(float64(v), 'g', -1, 32) }
func colorText(c color.RGBA) string {
	return fmt.Sprintf("#%02X%02X%02X%02X", c.R, c.G, c.B, c.A)
}
func matrixText(m go3mf.Matrix) string {
	var s []string
	for _, i := range []int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14} {
		s = append(s, f32(m[i]))
	}
	return strings.Join(s, " ")
}

const identityText = "1 0 0 0 1 0 0 0 1 0 0 0"

func (n *node) transform(m go3mf.Matrix) *node {
	if isIdentity(m) {
		return n.def("transform", identityText, kMatrix)
	}
	// a transform that rounds to the identity is still written
	return n.opt("transform", matrixText(m), kMatrix, false)
}

func (n *node) anyAttr(as spec.AnyAttr) *node {
	for _, g := range as {
		switch g := g.(type) {
		case *spec.UnknownAttrs:
			for _, a := range g.Attr {
				n.Attrs = append(n.Attrs, nattr{Name: qname{a.Name.Space, a.Name.Local}, Value: a.Value, Kind: kText})
			}
		case *production.BuildAttr:
			n.ext(nsProd, "UUID", g.UUID, kUUID, false)
		case *production.ObjectAttr:
			n.ext(nsProd, "UUID", g.UUID, kUUID, false)
		case *production.ItemAttr:
			n.ext(nsProd, "UUID", g.UUID, kUUID, false)
			n.ext(nsProd, "path", g.Path, kText, g.Path == "")
		case *production.ComponentAttr:
			n.ext(nsProd, "UUID", g.UUID, kUUID, false)
			n.ext(nsProd, "path", g.Path, kText, g.Path == "")
		case *slices.ObjectAttr:
			n.ext(nsSlic, "slicestackid", u32(g.SliceStackID), kUint, false)
			n.ext(nsSlic, "meshresolution", resNames[g.MeshResolution], kEnum, g.MeshResolution == 0)
		case interface{ dom(*node) }:
			g.dom(n)
		default:
			panic(fmt.Sprintf("dom: unknown attribute group %T", g))
		}
	}
	return n
}

func (n *node) ext(space, local, v string, k attrKind, def bool) {
	n.Attrs = append(n.Attrs, nattr{Name: qname{space, local}, Value: v, Kind: k, Def: def, Req: local == "UUID" || local == "slicestackid"})
}

// tokensNode turns unknown tokens into a node.
func tokensNode(toks []xml.Token) *node {
	var stk []*node
	var root *node
	for _, t := range toks {
		switch t := t.(type) {
		case xml.StartElement:
			n := el(qname{t.Name.Space, t.Name.Local}, -1)
			n.Verb, n.HasText = true, true
			for _, a := range t.Attr {
				n.Attrs = append(n.Attrs, nattr{Name: qname{a.Name.Space, a.Name.Local}, Value: a.Value, Kind: kText})
			}
			if len(stk) == 0 {
				root = n
			} else {
				stk[len(stk)-1].kid(n)
			}
			stk = append(stk, n)
		case xml.EndElement:
			stk = stk[:len(stk)-1]
		case xml.CharData:
			p := stk[len(stk)-1]
			p.Content = append(p.Content, string(t))
		}
	}
	return root
}

func (d *domB) any(n *node, a spec.Any) {
	for _, e := range a {
		switch e := e.(type) {
		case *spec.UnknownTokens:
			n.kid(tokensNode(e.Token))
		case *beamlattice.BeamLattice:
			n.kid(d.lattice(e))
		case interface{ domNode() *node }:
			n.kid(e.domNode())
		default:
			panic(fmt.Sprintf("dom: unknown element %T", e))
		}
	}
}

func (d *domB) metadata(i int, m go3mf.Metadata) *node {
	n := el(core("metadata"), i)
	n.HasText = true
	name := m.Name.Local
	if m.Name.Space != "" {
		name = m.Name.Space + ":" + name
	}
	n.add("name", name, kText, true)
	n.opt("preserve", strconv.FormatBool(m.Preserve), kBool, !m.Preserve)
	n.opt("type", m.Type, kText, m.Type == "")
	if m.Value != "" {
		n.Content = append(n.Content, m.Value)
	}
	return n
}

func (d *domB) group(n *node, g go3mf.MetadataGroup) {
	if len(g.Metadata) == 0 && len(g.AnyAttr) == 0 {
		return
	}
	k := el(core("metadatagroup"), -1).anyAttr(g.AnyAttr)
	for i, m := range g.Metadata {
		k.kid(d.metadata(i, m))
	}
	n.kid(k)
}

// buildDOM returns the document of the root part ("") or a child part.
func buildDOM(m *go3mf.Model, part string) *node {
	d := &domB{m}
	n := el(core("model"), -1)
	n.opt("unit", unitNames[m.Units], kEnum, m.Units == 0)
	n.Attrs = append(n.Attrs, nattr{Name: qname{nsXML, "lang"}, Value: m.Language, Def: m.Language == ""})
	var req []string
	for _, e := range m.Extensions {
		if e.IsRequired {
			req = append(req, e.LocalName)
		}
	}
	sort.Strings(req)
	n.opt("requiredextensions", strings.Join(req, " "), kPrefixes, len(req) == 0)
	res, any := &m.Resources, m.Any
	if part == "" {
		n.opt("thumbnail", m.Thumbnail, kText, m.Thumbnail == "")
	} else {
		res, any = &m.Childs[part].Resources, m.Childs[part].Any
	}
	n.anyAttr(m.AnyAttr)
	if part == "" {
		for i, md := range m.Metadata {
			n.kid(d.metadata(i, md))
		}
	}
	r := el(core("resources"), -1).anyAttr(res.AnyAttr)
	for i, a := range res.Assets {
		r.kid(d.asset(i, a))
	}
	for i, o := range res.Objects {
		r.kid(d.object(i, o))
	}
	n.kid(r)
	b := el(core("build"), -1)
	if part == "" {
		b.anyAttr(m.Build.AnyAttr)
		for i, it := range m.Build.Items {
			x := el(core("item"), i).add("objectid", u32(it.ObjectID), kUint, true).transform(it.Transform)
			x.opt("partnumber", it.PartNumber, kText, it.PartNumber == "")
			x.anyAttr(it.AnyAttr)
			d.group(x, it.Metadata)
			b.kid(x)
		}
	}
	n.kid(b)
	d.any(n, any)
	return n
}

func (d *domB) asset(i int, a go3mf.Asset) *node {
	mat := func(l string) qname { return qname{nsMat, l} }
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		n := el(core("basematerials"), i).add("id", u32(a.ID), kUint, true).anyAttr(a.AnyAttr)
		for j, b := range a.Materials {
			n.kid(el(core("base"), j).add("name", b.Name, kText, true).add("displaycolor", colorText(b.Color), kColor, true).anyAttr(b.AnyAttr))
		}
		return n
	case *materials.ColorGroup:
		n := el(mat("colorgroup"), i).add("id", u32(a.ID), kUint, true)
		for j, c := range a.Colors {
			n.kid(el(mat("color"), j).add("color", colorText(c), kColor, true))
		}
		return n
	case *materials.Texture2DGroup:
		n := el(mat("texture2dgroup"), i).add("id", u32(a.ID), kUint, true).add("texid", u32(a.TextureID), kUint, true)
		for j, c := range a.Coords {
			n.kid(el(mat("tex2coord"), j).add("u", f32(c.U()), kFloat, true).add("v", f32(c.V()), kFloat, true))
		}
		return n
	case *materials.CompositeMaterials:
		n := el(mat("compositematerials"), i).add("id", u32(a.ID), kUint, true).add("matid", u32(a.MaterialID), kUint, true)
		n.opt("matindices", uints(a.Indices), kUints, len(a.Indices) == 0)
		for j, c := range a.Composites {
			n.kid(el(mat("composite"), j).opt("values", floats(c.Values), kFloats, len(c.Values) == 0))
		}
		return n
	case *materials.MultiProperties:
		n := el(mat("multiproperties"), i).add("id", u32(a.ID), kUint, true)
		n.opt("pids", uints(a.PIDs), kUints, len(a.PIDs) == 0)
		var bm []string
		for _, b := range a.BlendMethods {
			bm = append(bm, blendNames[b])
		}
		n.opt("blendmethods", strings.Join(bm, " "), kEnums, len(bm) == 0)
		for j, c := range a.Multis {
			n.kid(el(mat("multi"), j).opt("pindices", uints(c.PIndices), kUints, len(c.PIndices) == 0))
		}
		return n
	case *materials.Texture2D:
		n := el(mat("texture2d"), i).add("id", u32(a.ID), kUint, true).add("path", a.Path, kText, true).add("contenttype", texNames[a.ContentType], kEnum, true)
		n.opt("tilestyleu", tileNames[a.TileStyleU], kEnum, a.TileStyleU == 0)
		n.opt("tilestylev", tileNames[a.TileStyleV], kEnum, a.TileStyleV == 0)
		n.opt("filter", filterNames[a.Filter], kEnum, a.Filter == 0)
		return n
	case *slices.SliceStack:
		return d.stack(i, a)
	case *go3mf.UnknownAsset:
		n := tokensNode(a.Token)
		n.Idx = i
		return n
	}
	if h, ok := a.(interface{ domNode() *node }); ok {
		n := h.domNode()
		n.Idx = i
		return n
	}
	panic(fmt.Sprintf("dom: unknown asset %T", a))
}

func uints(v []uint32) string {
	var s []string
	for _, x := range v {
		s = append(s, u32(x))
	}
	return strings.Join(s, " ")
}

func floats(v []float32) string {
	var s []string
	for _, x := range v {
		s = append(s, f32(x))
	}
	return strings.Join(s, " ")
}

func (d *domB) stack(i int, a *slices.SliceStack) *node {
	sl := func(l string) qname { return qname{nsSlic, l} }
	n := el(sl("slicestack"), i).add("id", u32(a.ID), kUint, true).opt("zbottom", f32(a.BottomZ), kFloat, a.BottomZ == 0)
	for j, s := range a.Slices {
		x := el(sl("slice"), j).add("ztop", f32(s.TopZ), kFloat, true)
		vs := el(sl("vertices"), -1)
		for k, v := range s.Vertices.Vertex {
			vs.kid(el(sl("vertex"), k).add("x", f32(v.X()), kFloat, true).add("y", f32(v.Y()), kFloat, true))
		}
		x.kid(vs)
		for k, p := range s.Polygons {
			y := el(sl("polygon"), k).add("startv", u32(p.StartV), kUint, true)
			for q, g := range p.Segments {
				z := el(sl("segment"), q).add("v2", u32(g.V2), kUint, true)
				if g.PID != 0 {
					z.add("pid", u32(g.PID), kUint, false).add("p1", u32(g.P1), kUint, false).opt("p2", u32(g.P2), kUint, g.P1 == g.P2)
				}
				y.kid(z)
			}
			x.kid(y)
		}
		n.kid(x)
	}
	for j, r := range a.Refs {
		n.kid(el(sl("sliceref"), j).add("slicestackid", u32(r.SliceStackID), kUint, true).opt("slicepath", r.Path, kText, r.Path == ""))
	}
	return n
}

func (d *domB) object(i int, o *go3mf.Object) *node {
	n := el(core("object"), i).add("id", u32(o.ID), kUint, true)
	n.opt("type", typeNames[o.Type], kEnum, o.Type == 0)
	n.opt("thumbnail", o.Thumbnail, kText, o.Thumbnail == "")
	n.opt("partnumber", o.PartNumber, kText, o.PartNumber == "")
	n.opt("name", o.Name, kText, o.Name == "")
	if o.Mesh != nil {
		if o.PID != 0 {
			n.add("pid", u32(o.PID), kUint, false)
		}
		if o.PIndex != 0 {
			n.add("pindex", u32(o.PIndex), kUint, false)
		} else if o.PID != 0 {
			n.def("pindex", "0", kUint)
		}
	}
	n.anyAttr(o.AnyAttr)
	d.group(n, o.Metadata)
	if o.Mesh != nil {
		n.kid(d.mesh(o))
	} else if o.Components != nil {
		cs := el(core("components"), -1).anyAttr(o.Components.AnyAttr)
		for j, c := range o.Components.Component {
			cs.kid(el(core("component"), j).add("objectid", u32(c.ObjectID), kUint, true).transform(c.Transform).anyAttr(c.AnyAttr))
		}
		n.kid(cs)
	}
	return n
}

func (d *domB) mesh(o *go3mf.Object) *node {
	m := o.Mesh
	n := el(core("mesh"), -1).anyAttr(m.AnyAttr)
	vs := el(core("vertices"), -1).anyAttr(m.Vertices.AnyAttr)
	for i, v := range m.Vertices.Vertex {
		vs.kid(el(core("vertex"), i).add("x", f32(v.X()), kFloat, true).add("y", f32(v.Y()), kFloat, true).add("z", f32(v.Z()), kFloat, true))
	}
	n.kid(vs)
	ts := el(core("triangles"), -1).anyAttr(m.Triangles.AnyAttr)
	for i, t := range m.Triangles.Triangle {
		x := el(core("triangle"), i).add("v1", u32(t.V1), kUint, true).add("v2", u32(t.V2), kUint, true).add("v3", u32(t.V3), kUint, true)
		if t.PID != 0 {
			inh := t.PID == o.PID
			x.opt("pid", u32(t.PID), kUint, inh)
			x.opt("p1", u32(t.P1), kUint, inh && t.P1 == o.PIndex)
			x.opt("p2", u32(t.P2), kUint, t.P2 == t.P1)
			x.opt("p3", u32(t.P3), kUint, t.P3 == t.P1)
		}
		x.anyAttr(t.AnyAttr)
		ts.kid(x)
	}
	n.kid(ts)
	d.any(n, m.Any)
	return n
}

func (d *domB) lattice(b *beamlattice.BeamLattice) *node {
	bn := func(l string) qname { return qname{nsBeam, l} }
	n := el(bn("beamlattice"), -1).add("minlength", f32(b.MinLength), kFloat, true).add("radius", f32(b.Radius), kFloat, true)
	n.opt("clippingmode", clipNames[b.ClipMode], kEnum, b.ClipMode == 0)
	if b.ClippingMeshID != 0 {
		n.add("clippingmesh", u32(b.ClippingMeshID), kUint, false)
	}
	if b.RepresentationMeshID != 0 {
		n.add("representationmesh", u32(b.RepresentationMeshID), kUint, false)
	}
	n.opt("cap", capNames[b.CapMode], kEnum, b.CapMode == 0)
	bs := el(bn("beams"), -1)
	for i, x := range b.Beams.Beam {
		y := el(bn("beam"), i).add("v1", u32(x.Indices[0]), kUint, true).add("v2", u32(x.Indices[1]), kUint, true)
		y.opt("r1", f32(x.Radius[0]), kFloat, x.Radius[0] == b.Radius)
		y.opt("r2", f32(x.Radius[1]), kFloat, x.Radius[1] == x.Radius[0])
		y.opt("cap1", capNames[x.CapMode[0]], kEnum, x.CapMode[0] == b.CapMode)
		y.opt("cap2", capNames[x.CapMode[1]], kEnum, x.CapMode[1] == b.CapMode)
		bs.kid(y)
	}
	n.kid(bs)
	ss := el(bn("beamsets"), -1)
	for i, s := range b.BeamSets.BeamSet {
		y := el(bn("beamset"), i).opt("name", s.Name, kText, s.Name == "").opt("identifier", s.Identifier, kText, s.Identifier == "")
		for j, r := range s.Refs {
			y.kid(el(bn("ref"), j).add("index", u32(r), kUint, true))
		}
		ss.kid(y)
	}
	n.kid(ss)
	return n
}

// ---------- comparison of a parsed document with the reference ----------

var numRe = regexp.MustCompile(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?$`)

// numClose decides whether text is v rounded to prec decimals (prec < 0: parses back to v).
func numClose(text string, want string, prec int) bool {
	if !numRe.MatchString(text) {
		return false
	}
	w64, err := strconv.ParseFloat(want, 32)
	if err != nil {
		return false
	}
	w := float32(w64)
	if prec < 0 {
		g, err := strconv.ParseFloat(text, 32)
		return err == nil && float32(g) == w
	}
	g, ok := new(big.Rat).SetString(text)
	if !ok {
		return false
	}
	d := new(big.Rat).Sub(g, new(big.Rat).SetFloat64(float64(w)))
	d.Abs(d)
	half := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil)))
	return d.Cmp(half) <= 0
}

// precSame asks for texts that denote the same float32.
const precSame = -2

func attrEqual(k attrKind, got, want string, prec int) bool {
	list := func(f func(g, w string) bool) bool {
		g, w := strings.Fields(got), strings.Fields(want)
		if len(g) != len(w) {
			return false
		}
		for i := range g {
			if !f(g[i], w[i]) {
				return false
			}
		}
		return true
	}
	num := func(g, w string) bool { return numClose(g, w, prec) }
	uintEq := func(g, w string) bool {
		a, e1 := strconv.ParseUint(g, 10, 32)
		b, e2 := strconv.ParseUint(w, 10, 32)
		return e1 == nil && e2 == nil && a == b
	}
	switch k {
	case kUint:
		return uintEq(got, want)
	case kFloat:
		return num(got, want)
	case kMatrix:
		return list(func(g, w string) bool {
			if prec == precSame {
				return numClose(g, w, prec)
			}
			return numClose(g, w, 3)
		})
	case kColor:
		norm := func(s string) string {
			s = strings.ToUpper(s)
			if len(s) == 7 {
				s += "FF"
			}
			return s
		}
		return norm(got) == norm(want)
	case kBool:
		return (got == "true" || got == "1") == (want == "true")
	case kUints:
		return list(uintEq)
	case kFloats:
		return list(num)
	case kEnums:
		return list(func(g, w string) bool { return g == w })
	case kPrefixes:
		g, w := strings.Fields(got), strings.Fields(want)
		sort.Strings(g)
		sort.Strings(w)
		return strings.Join(g, " ") == strings.Join(w, " ")
	default:
		return got == want
	}
}

// diffDOM compares a parsed document with the reference one.
func diffDOM(want, got *node, prec int, path string) string {
	path += "/" + got.Name.Local
	if want.Name != got.Name {
		return fmt.Sprintf("%s: element %s expected, found %s", path, want.Name, got.Name)
	}
	seen := map[qname]bool{}
	for _, w := range want.Attrs {
		seen[w.Name] = true
		v, ok := got.attr(w.Name.Space, w.Name.Local)
		if !ok {
			if !w.Def {
				return fmt.Sprintf("%s: attribute %s=%q is missing", path, w.Name, w.Value)
			}
			continue
		}
		if !attrEqual(w.Kind, v, w.Value, prec) {
			return fmt.Sprintf("%s: attribute %s: want %q, found %q", path, w.Name, w.Value, v)
		}
	}
	for _, g := range got.Attrs {
		if !seen[g.Name] {
			return fmt.Sprintf("%s: unexpected attribute %s=%q", path, g.Name, g.Value)
		}
	}
	if want.Verb {
		wc, gc := mergeText(want.Content), mergeText(got.Content)
		if len(wc) != len(gc) {
			return fmt.Sprintf("%s: content items: want %d, found %d", path, len(wc), len(gc))
		}
		for i := range wc {
			ws, wIsS := wc[i].(string)
			gs, gIsS := gc[i].(string)
			if wIsS != gIsS || ws != gs {
				return fmt.Sprintf("%s: content %d: want %q, found %q", path, i, ws, gs)
			}
			if !wIsS {
				if d := diffDOM(wc[i].(*node), gc[i].(*node), prec, path); d != "" {
					return d
				}
			}
		}
		return ""
	}
	wt, gt := want.text(), got.text()
	if want.HasText && wt != gt || !want.HasText && strings.TrimSpace(gt) != "" {
		return fmt.Sprintf("%s: text: want %q, found %q", path, wt, gt)
	}
	wk, gk := want.kids(), got.kids()
	// empty optional containers may be left out or added
	skip := func(n *node) bool {
		return len(n.kids()) == 0 && len(n.Attrs) == 0 && (n.Name.Local == "beamsets" || n.Name.Local == "vertices" && n.Name.Space == nsSlic || n.Name.Local == "metadatagroup")
	}
	filter := func(in []*node) (out []*node) {
		for _, k := range in {
			if !skip(k) {
				out = append(out, k)
			}
		}
		return
	}
	wk, gk = filter(wk), filter(gk)
	for i := 0; i < len(wk) || i < len(gk); i++ {
		if i >= len(wk) {
			return fmt.Sprintf("%s: unexpected element %s at position %d", path, gk[i].Name, i)
		}
		if i >= len(gk) {
			return fmt.Sprintf("%s: element %s is missing at position %d", path, wk[i].Name, i)
		}
		if d := diffDOM(wk[i], gk[i], prec, fmt.Sprintf("%s[%d]", path, i)); d != "" {
			return d
		}
	}
	return ""
}

// mergeText joins adjacent text and drops text that is only white space.
func mergeText(in []any) []any {
	var out []any
	for _, c := range in {
		if s, ok := c.(string); ok {
			if len(out) > 0 {
				if p, ok := out[len(out)-1].(string); ok {
					out[len(out)-1] = p + s
					continue
				}
			}
		}
		out = append(out, c)
	}
	var fin []any
	for _, c := range out {
		if s, ok := c.(string); ok && strings.TrimSpace(s) == "" {
			continue
		}
		fin = append(fin, c)
	}
	return fin
}
