package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/google/go-cmp/cmp"
	"github.com/google/go-cmp/cmp/cmpopts"
	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

// deepCopy copies v with everything it points to.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if flat(v.Type().Elem()) {
			reflect.Copy(n, v)
			return n
		}
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMapWithSize(v.Type(), v.Len())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	default:
		return v
	}
}

func copyModel(m *go3mf.Model) *go3mf.Model {
	s := *m
	s.Attachments = nil
	return deepCopy(reflect.ValueOf(&s)).Interface().(*go3mf.Model)
}

// exactDiff compares two models without any tolerance (attachments aside).
func exactDiff(want, got *go3mf.Model) string {
	if sameModels(want, got, eq{strict: true}) {
		return ""
	}
	return clip(cmp.Diff(want, got, cmp.Options{
		cmpopts.IgnoreFields(go3mf.Model{}, "Attachments"),
		ignoreUnexported,
		cmpopts.EquateNaNs(),
	}), 4000)
}

// ---------- independent package reader ----------

type xmlRel struct {
	ID         string `xml:"Id,attr"`
	Type       string `xml:"Type,attr"`
	Target     string `xml:"Target,attr"`
	TargetMode string `xml:"TargetMode,attr"`
}

type pkgView struct {
	parts map[string][]byte   // "/name" -> bytes, without relationship and content type parts
	rels  map[string][]xmlRel // owner ("" = package) -> relationships
	ct    map[string]string   // part -> content type
}

func zipRead(f *zip.File) ([]byte, error) {
	r, err := f.Open()
	if err != nil {
		return nil, err
	}
	defer r.Close()
	return io.ReadAll(r)
}

// readPackage reads an OPC package with archive/zip and encoding/xml only.
func readPackage(b []byte) (*pkgView, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	v := &pkgView{parts: map[string][]byte{}, rels: map[string][]xmlRel{}, ct: map[string]string{}}
	raw := map[string][]byte{}
	lower := map[string]bool{}
	for _, f := range zr.File {
		d, err := zipRead(f)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", f.Name, err)
		}
		n := "/" + f.Name
		if lower[strings.ToLower(n)] {
			return nil, fmt.Errorf("duplicate item %s", n)
		}
		lower[strings.ToLower(n)] = true
		raw[n] = d
	}
	ctb, ok := raw["/[Content_Types].xml"]
	if !ok {
		return nil, fmt.Errorf("no content types item")
	}
	var types struct {
		XMLName  xml.Name `xml:"http://schemas.openxmlformats.org/package/2006/content-types Types"`
		Defaults []struct {
			Ext string `xml:"Extension,attr"`
			CT  string `xml:"ContentType,attr"`
		} `xml:"Default"`
		Overrides []struct {
			Part string `xml:"PartName,attr"`
			CT   string `xml:"ContentType,attr"`
		} `xml:"Override"`
	}
	if err := xml.Unmarshal(ctb, &types); err != nil {
		return nil, fmt.Errorf("content types: %v", err)
	}
	def, over := map[string]string{}, map[string]string{}
	for _, d := range types.Defaults {
		if _, dup := def[strings.ToLower(d.Ext)]; dup {
			return nil, fmt.Errorf("duplicate default content type %s", d.Ext)
		}
		def[strings.ToLower(d.Ext)] = d.CT
	}
	for _, o := range types.Overrides {
		if _, dup := over[strings.ToLower(o.Part)]; dup {
			return nil, fmt.Errorf("duplicate override content type %s", o.Part)
		}
		over[strings.ToLower(o.Part)] = o.CT
	}
	for n, d := range raw {
		if n == "/[Content_Types].xml" {
			continue
		}
		ct, ok := over[strings.ToLower(n)]
		if !ok {
			if i := strings.LastIndexByte(n, '.'); i >= 0 && i > strings.LastIndexByte(n, '/') {
				ct, ok = def[strings.ToLower(n[i+1:])]
			}
		}
		if !ok {
			return nil, fmt.Errorf("part %s has no content type", n)
		}
		dir, base := "", n
		if i := strings.LastIndexByte(n, '/'); i >= 0 {
			dir, base = n[:i], n[i+1:]
		}
		if strings.HasSuffix(dir, "/_rels") && strings.HasSuffix(base, ".rels") {
			owner := strings.TrimSuffix(dir, "/_rels") + "/" + strings.TrimSuffix(base, ".rels")
			if owner == "/" {
				owner = ""
			}
			var rels struct {
				XMLName xml.Name `xml:"http://schemas.openxmlformats.org/package/2006/relationships Relationships"`
				Rel     []xmlRel `xml:"Relationship"`
			}
			if err := xml.Unmarshal(d, &rels); err != nil {
				return nil, fmt.Errorf("%s: %v", n, err)
			}
			ids := map[string]bool{}
			for _, r := range rels.Rel {
				if r.ID == "" || ids[r.ID] {
					return nil, fmt.Errorf("%s: missing or repeated relationship id %q", n, r.ID)
				}
				ids[r.ID] = true
			}
			if ct != "application/vnd.openxmlformats-package.relationships+xml" {
				return nil, fmt.Errorf("%s has content type %s", n, ct)
			}
			v.rels[owner] = rels.Rel
			continue
		}
		v.parts[n], v.ct[n] = d, ct
	}
	for owner := range v.rels {
		if owner != "" {
			if _, ok := v.parts[owner]; !ok {
				return nil, fmt.Errorf("relationships of the missing part %s", owner)
			}
		}
	}
	return v, nil
}

func relKeys(rs []xmlRel, ids map[string]bool) []string {
	var out []string
	for _, r := range rs {
		k := r.Type + " -> " + r.Target + " " + r.TargetMode
		if ids[r.ID] {
			k += " id=" + r.ID
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// diffPackages compares two packages part by part.
func diffPackages(a, b *pkgView, ids map[string]bool) string {
	for n, d := range a.parts {
		e, ok := b.parts[n]
		if !ok {
			return "part " + n + " is missing in the second package"
		}
		if !bytes.Equal(d, e) {
			i := 0
			for i < len(d) && i < len(e) && d[i] == e[i] {
				i++
			}
			lo := i - 60
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("part %s differs at byte %d:\nfirst:  %q\nsecond: %q", n, i, clip(string(d[lo:]), 300), clip(string(e[lo:]), 300))
		}
		if a.ct[n] != b.ct[n] {
			return fmt.Sprintf("part %s content type %q / %q", n, a.ct[n], b.ct[n])
		}
	}
	for n := range b.parts {
		if _, ok := a.parts[n]; !ok {
			return "part " + n + " is missing in the first package"
		}
	}
	owners := map[string]bool{}
	for o := range a.rels {
		owners[o] = true
	}
	for o := range b.rels {
		owners[o] = true
	}
	for o := range owners {
		if d := cmp.Diff(relKeys(a.rels[o], ids), relKeys(b.rels[o], ids)); d != "" {
			return fmt.Sprintf("relationships of %q differ: %s", o, d)
		}
	}
	return ""
}

func givenIDs(m *go3mf.Model) map[string]bool {
	ids := map[string]bool{}
	add := func(rs []go3mf.Relationship) {
		for _, r := range rs {
			ids[r.ID] = true
		}
	}
	add(m.RootRelationships)
	add(m.Relationships)
	for _, c := range m.Childs {
		add(c.Relationships)
	}
	return ids
}

// shareRels moves all relationships of a model into one array, as an
// application that slices a common list would.
func shareRels(m *go3mf.Model) {
	var all []go3mf.Relationship
	var keys []string
	for k := range m.Childs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	type span struct {
		p    *[]go3mf.Relationship
		a, b int
	}
	var spans []span
	add := func(p *[]go3mf.Relationship) {
		a := len(all)
		all = append(all, *p...)
		spans = append(spans, span{p, a, len(all)})
	}
	add(&m.Relationships)
	for _, k := range keys {
		add(&m.Childs[k].Relationships)
	}
	add(&m.RootRelationships)
	for _, s := range spans {
		*s.p = all[s.a:s.b]
	}
}

// quantizeTransforms rounds every transform to the three decimals that are written.
func quantizeTransforms(m *go3mf.Model) {
	q := func(x *go3mf.Matrix) {
		if *x == (go3mf.Matrix{}) {
			return
		}
		for i, v := range x {
			f, _ := strconv.ParseFloat(strconv.FormatFloat(float64(v), 'f', 3, 32), 32)
			x[i] = float32(f)
		}
		if isIdentity(*x) {
			*x = go3mf.Matrix{}
		}
	}
	for _, it := range m.Build.Items {
		q(&it.Transform)
	}
	rs := []*go3mf.Resources{&m.Resources}
	for _, c := range m.Childs {
		rs = append(rs, &c.Resources)
	}
	for _, r := range rs {
		for _, o := range r.Objects {
			if o.Components != nil {
				for _, c := range o.Components.Component {
					q(&c.Transform)
				}
			}
		}
	}
}

func checkRepeat(t *rapid.T, c *C, o GenOpts) {
	o.NoImplicitRels = drawBool(t, "noimplicit")
	g := genModel(t, o)
	if drawBool(t, "sharerels") {
		shareRels(g.M)
	}
	ids := givenIDs(g.M)
	if o.Prec < 0 {
		quantizeTransforms(g.M)
	}
	before := copyModel(g.M)
	c.Begin("model", []byte(describe(g.M)))
	b1, err := encodePkg(g.Model(), o.Prec)
	c.Eval()
	if err != nil {
		t.Fatalf("encoding failed: %v", err)
	}
	g.M.Attachments = nil
	if d := exactDiff(before, g.M); d != "" {
		t.Fatalf("saving modified the model (-before +after):\n%s", d)
	}
	b2, err := encodePkg(g.Model(), o.Prec)
	if err != nil {
		t.Fatalf("second save failed: %v", err)
	}
	c.Begin("package.3mf", b1)
	v1, err := readPackage(b1)
	if err != nil {
		t.Fatalf("saved package: %v", err)
	}
	v2, err := readPackage(b2)
	if err != nil {
		t.Fatalf("saved package: %v", err)
	}
	if d := diffPackages(v1, v2, ids); d != "" {
		t.Fatalf("saving twice: %s", d)
	}
	if len(g.M.Childs) == 0 {
		d1, err := go3mf.MarshalModel(g.M)
		if err != nil {
			t.Fatalf("MarshalModel: %v", err)
		}
		d2, err := go3mf.MarshalModel(g.M)
		if err != nil || !bytes.Equal(d1, d2) {
			t.Fatalf("MarshalModel twice differs (%v)", err)
		}
		if d := exactDiff(before, g.M); d != "" {
			t.Fatalf("MarshalModel modified the model (-before +after):\n%s", d)
		}
	}
	if !o.NoImplicitRels {
		got, err := decodePkg(b1, true)
		if err != nil {
			t.Fatalf("reload: %v", err)
		}
		b3, err := encodePkg(got, o.Prec)
		if err != nil {
			t.Fatalf("saving the reloaded model: %v", err)
		}
		v3, err := readPackage(b3)
		if err != nil {
			t.Fatalf("saved package: %v", err)
		}
		// Rounding may turn a value into a default, which is not written: only
		// from the second save on nothing is left to round.
		if o.Prec < 0 {
			if d := diffPackages(v1, v3, ids); d != "" {
				t.Fatalf("saving the reloaded model: %s", d)
			}
		}
		got, err = decodePkg(b3, true)
		if err != nil {
			t.Fatalf("second reload: %v", err)
		}
		b4, err := encodePkg(got, o.Prec)
		if err != nil {
			t.Fatalf("saving the reloaded model: %v", err)
		}
		v4, err := readPackage(b4)
		if err != nil {
			t.Fatalf("saved package: %v", err)
		}
		if d := diffPackages(v3, v4, ids); d != "" {
			t.Fatalf("saving the reloaded model again: %s", d)
		}
	}
	if countModel(c, g.M) {
		c.NonTrivial(b1)
	}
	c.Sample(describe(g.M))
}

// inner returns the text inside the first start tag and last end tag of name.
func inner(t *rapid.T, doc, name string) string {
	i := strings.Index(doc, "<"+name)
	for i >= 0 && !strings.ContainsRune(" >/", rune(doc[i+len(name)+1])) {
		j := strings.Index(doc[i+1:], "<"+name)
		if j < 0 {
			i = -1
			break
		}
		i += 1 + j
	}
	if i < 0 {
		t.Fatalf("no %s element in %s", name, clip(doc, 2000))
	}
	j := i + strings.IndexByte(doc[i:], '>')
	if doc[j-1] == '/' {
		return ""
	}
	k := strings.LastIndex(doc, "</"+name+">")
	if k < j {
		t.Fatalf("no end tag of %s in %s", name, clip(doc, 2000))
	}
	return doc[j+1 : k]
}

// checkIndependent: the text written for one value is the same whatever precedes it.
func checkIndependent(t *rapid.T, c *C) {
	o := allOpts(4)
	o.Children, o.Attach = false, false
	g := &G{t: t, o: o, rels: map[string][]go3mf.Relationship{}}
	base := &go3mf.Model{}
	pf := map[string]string{}
	for i, ns := range []string{nsMat, nsProd, nsSlic, nsBeam, unknownNS[0], unknownNS[1], unknownNS[2]} {
		p := []string{"m", "p", "s", "b", "va", "vb", "vc"}[i]
		pf[ns] = p
		base.Extensions = append(base.Extensions, go3mf.Extension{Namespace: ns, LocalName: p})
		g.pfx = append(g.pfx, p)
	}
	g.unk = unknownNS
	marshal := func(m go3mf.Model) string {
		m.Extensions = base.Extensions
		b, err := go3mf.MarshalModel(&m)
		if err != nil {
			t.Fatalf("MarshalModel: %v", err)
		}
		return string(b)
	}
	withAsset := func(a go3mf.Asset) string {
		return marshal(go3mf.Model{Resources: go3mf.Resources{Assets: []go3mf.Asset{a}}})
	}
	withObj := func(o *go3mf.Object) string {
		return marshal(go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}})
	}
	n := drawInt(t, 2, 5, "n")
	kind := pick(t, "split", "assets", "objects", "items", "metadata", "components", "vertices", "triangles", "base", "colors", "coords", "composites", "multis", "slices", "slicevertices", "polygons", "segments", "beams", "beamsets", "any")
	var text func(idx []int) string
	in := func(name string, f func(idx []int) string) func([]int) string {
		return func(idx []int) string { return inner(t, f(idx), name) }
	}
	switch kind {
	case "assets":
		var as []go3mf.Asset
		for i := 0; i < n; i++ {
			as = append(as, g.asset())
		}
		text = in("resources", func(idx []int) string {
			var r go3mf.Resources
			for _, i := range idx {
				r.Assets = append(r.Assets, as[i])
			}
			return marshal(go3mf.Model{Resources: r})
		})
	case "objects":
		var as []*go3mf.Object
		for i := 0; i < n; i++ {
			as = append(as, g.object())
		}
		text = in("resources", func(idx []int) string {
			var r go3mf.Resources
			for _, i := range idx {
				r.Objects = append(r.Objects, as[i])
			}
			return marshal(go3mf.Model{Resources: r})
		})
	case "items":
		b := g.build(nil)
		for len(b.Items) < n {
			b.Items = append(b.Items, g.build(nil).Items...)
		}
		text = in("build", func(idx []int) string {
			var r go3mf.Build
			for _, i := range idx {
				r.Items = append(r.Items, b.Items[i])
			}
			return marshal(go3mf.Model{Build: r})
		})
	case "metadata":
		var ms []go3mf.Metadata
		for len(ms) < n {
			ms = append(ms, g.metadata()...)
		}
		text = in("metadatagroup", func(idx []int) string {
			var r go3mf.MetadataGroup
			for _, i := range idx {
				r.Metadata = append(r.Metadata, ms[i])
			}
			return withObj(&go3mf.Object{ID: 1, Metadata: r})
		})
	case "components":
		var cs []*go3mf.Component
		for len(cs) < n {
			cs = append(cs, g.components().Component...)
		}
		text = in("components", func(idx []int) string {
			var r go3mf.Components
			for _, i := range idx {
				r.Component = append(r.Component, cs[i])
			}
			return withObj(&go3mf.Object{ID: 1, Components: &r})
		})
	case "vertices", "triangles", "beams", "beamsets":
		ob := &go3mf.Object{ID: 1}
		var bl *beamlattice.BeamLattice
		cnt := func() int {
			switch kind {
			case "vertices":
				return len(ob.Mesh.Vertices.Vertex)
			case "triangles":
				return len(ob.Mesh.Triangles.Triangle)
			case "beams":
				return len(bl.Beams.Beam)
			}
			return len(bl.BeamSets.BeamSet)
		}
		for try := 0; ; try++ {
			ob = &go3mf.Object{ID: 1}
			g.mesh(ob)
			bl = g.beamLattice()
			if cnt() >= 2 {
				break
			}
			if try > 40 {
				t.Skip()
			}
		}
		n = cnt()
		text = in(kind, func(idx []int) string {
			o2 := *ob
			m2 := *ob.Mesh
			o2.Mesh = &m2
			m2.Any = nil
			b2 := *bl
			var vs []go3mf.Point3D
			var ts []go3mf.Triangle
			var bs []beamlattice.Beam
			var ss []beamlattice.BeamSet
			for _, i := range idx {
				switch kind {
				case "vertices":
					vs = append(vs, m2.Vertices.Vertex[i])
				case "triangles":
					ts = append(ts, m2.Triangles.Triangle[i])
				case "beams":
					bs = append(bs, b2.Beams.Beam[i])
				default:
					ss = append(ss, b2.BeamSets.BeamSet[i])
				}
			}
			switch kind {
			case "vertices":
				m2.Vertices.Vertex = vs
			case "triangles":
				m2.Triangles.Triangle = ts
			case "beams":
				b2.Beams.Beam = bs
			default:
				b2.BeamSets.BeamSet = ss
			}
			if kind == "beams" || kind == "beamsets" {
				m2.Any = spec.Any{&b2}
				return strings.ReplaceAll(withObj(&o2), pf[nsBeam]+":"+kind+">", kind+">")
			}
			return withObj(&o2)
		})
	case "base":
		b := &go3mf.BaseMaterials{ID: 1}
		for i := 0; i < n; i++ {
			b.Materials = append(b.Materials, go3mf.Base{Name: drawText(t, "bname"), Color: drawColor(t, "bcol"), AnyAttr: g.anyAttr("base", false)})
		}
		text = in("basematerials", func(idx []int) string {
			b2 := &go3mf.BaseMaterials{ID: 1}
			for _, i := range idx {
				b2.Materials = append(b2.Materials, b.Materials[i])
			}
			return withAsset(b2)
		})
	case "colors":
		a := &materials.ColorGroup{ID: 1}
		for i := 0; i < n; i++ {
			a.Colors = append(a.Colors, drawColor(t, "col"))
		}
		text = in("m:colorgroup", func(idx []int) string {
			b := &materials.ColorGroup{ID: 1}
			for _, i := range idx {
				b.Colors = append(b.Colors, a.Colors[i])
			}
			return withAsset(b)
		})
	case "coords":
		a := &materials.Texture2DGroup{ID: 1, TextureID: 2}
		for i := 0; i < n; i++ {
			a.Coords = append(a.Coords, materials.TextureCoord{drawFloat(t, "u"), drawFloat(t, "v")})
		}
		text = in("m:texture2dgroup", func(idx []int) string {
			b := &materials.Texture2DGroup{ID: 1, TextureID: 2}
			for _, i := range idx {
				b.Coords = append(b.Coords, a.Coords[i])
			}
			return withAsset(b)
		})
	case "composites":
		var vs [][]float32
		for i := 0; i < n; i++ {
			vs = append(vs, rapid.SliceOfN(rapid.Float32Range(0, 1), 0, 3).Draw(t, "vals"))
		}
		text = in("m:compositematerials", func(idx []int) string {
			b := &materials.CompositeMaterials{ID: 1, MaterialID: 2, Indices: []uint32{1}}
			for _, i := range idx {
				b.Composites = append(b.Composites, materials.Composite{Values: vs[i]})
			}
			return withAsset(b)
		})
	case "multis":
		var vs [][]uint32
		for i := 0; i < n; i++ {
			vs = append(vs, rapid.SliceOfN(rapid.Uint32(), 0, 3).Draw(t, "vals"))
		}
		text = in("m:multiproperties", func(idx []int) string {
			b := &materials.MultiProperties{ID: 1, PIDs: []uint32{1}}
			for _, i := range idx {
				b.Multis = append(b.Multis, materials.Multi{PIndices: vs[i]})
			}
			return withAsset(b)
		})
	case "slices", "slicevertices", "polygons", "segments":
		var sl []slices.Slice
		for try := 0; len(sl) < n; try++ {
			sl = append(sl, g.sliceStack().Slices...)
			if try > 60 {
				t.Skip()
			}
		}
		if kind == "slices" {
			text = in("s:slicestack", func(idx []int) string {
				b := &slices.SliceStack{ID: 1}
				for _, i := range idx {
					b.Slices = append(b.Slices, sl[i])
				}
				return withAsset(b)
			})
			break
		}
		var vs []go3mf.Point2D
		var ps []slices.Polygon
		var ss []slices.Segment
		for _, s := range sl {
			vs = append(vs, s.Vertices.Vertex...)
			ps = append(ps, s.Polygons...)
			for _, p := range s.Polygons {
				ss = append(ss, p.Segments...)
			}
		}
		switch kind {
		case "slicevertices":
			n = len(vs)
			text = in("s:vertices", func(idx []int) string {
				var s slices.Slice
				for _, i := range idx {
					s.Vertices.Vertex = append(s.Vertices.Vertex, vs[i])
				}
				return withAsset(&slices.SliceStack{ID: 1, Slices: []slices.Slice{s}})
			})
		case "polygons":
			n = len(ps)
			text = in("s:slice", func(idx []int) string {
				var s slices.Slice
				for _, i := range idx {
					s.Polygons = append(s.Polygons, ps[i])
				}
				d := withAsset(&slices.SliceStack{ID: 1, Slices: []slices.Slice{s}})
				k := strings.Index(d, "</s:vertices>")
				return "<s:slice>" + d[k+len("</s:vertices>"):]
			})
		default:
			n = len(ss)
			text = in("s:polygon", func(idx []int) string {
				var p slices.Polygon
				for _, i := range idx {
					p.Segments = append(p.Segments, ss[i])
				}
				return withAsset(&slices.SliceStack{ID: 1, Slices: []slices.Slice{{Polygons: []slices.Polygon{p}}}})
			})
		}
	case "any":
		var as []spec.Marshaler
		for i := 0; i < n; i++ {
			if oneIn(t, 3, "lattice") {
				as = append(as, g.beamLattice())
			} else {
				as = append(as, &spec.UnknownTokens{Token: g.unknownElem(pick(t, "anyns", g.unk...), 0)})
			}
		}
		text = func(idx []int) string {
			m := &go3mf.Mesh{}
			for _, i := range idx {
				m.Any = append(m.Any, as[i])
			}
			d := withObj(&go3mf.Object{ID: 1, Mesh: m})
			k := strings.Index(d, "</triangles>")
			return inner(t, "<mesh>"+d[k+len("</triangles>"):], "mesh")
		}
	}
	if n < 2 {
		t.Skip()
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	idx = rapid.Permutation(idx).Draw(t, "perm")
	c.Begin("split", []byte(kind))
	c.Eval()
	all := text(idx)
	want := ""
	for _, i := range idx {
		want += text([]int{i})
	}
	if all != want {
		t.Fatalf("%s: the text written for a value depends on the values around it\none by one:  %s\nall at once: %s", kind, clip(want, 3000), clip(all, 3000))
	}
	c.Label("split:" + kind)
	c.NonTrivial([]byte(kind + all))
	c.Sample(clip(all, 400))
}

func checkConcurrentSave(t *rapid.T, c *C) {
	o := allOpts(4)
	o.Attach = false
	g := genModel(t, o)
	g.M.Thumbnail = ""
	shareRels(g.M)
	c.Begin("model", []byte(describe(g.M)))
	c.Eval()
	want, err := encodePkg(g.M, 4)
	if err != nil {
		t.Fatalf("encode: %v", err)
	}
	var wg sync.WaitGroup
	outs := make([][]byte, 3)
	errs := make([]error, 3)
	for i := range outs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i], errs[i] = encodePkg(g.M, 4)
		}(i)
	}
	wg.Wait()
	wv, err := readPackage(want)
	if err != nil {
		t.Fatalf("package: %v", err)
	}
	for i := range outs {
		if errs[i] != nil {
			t.Fatalf("concurrent encode: %v", errs[i])
		}
		v, err := readPackage(outs[i])
		if err != nil {
			t.Fatalf("package: %v", err)
		}
		if d := diffPackages(wv, v, nil); d != "" {
			t.Fatalf("saving from several goroutines: %s", d)
		}
	}
	if countModel(c, g.M) {
		c.NonTrivial(want)
	}
	c.Sample(describe(g.M))
}

func init() {
	ext := func(o GenOpts) GenOpts { o.Mat, o.Prod, o.Slic, o.Beam = true, true, true, true; return o }
	register(&Sub{Prop: "P02", Name: "package-all", Rule: rtRule, Quick: 1500, Thorough: 50000, Fn: func(t *rapid.T, c *C) {
		checkPkgRoundTrip(t, c, ext(GenOpts{Prec: drawPrec(t), Children: true, Attach: true, MaxObj: 4}))
	}})
	for _, x := range []struct {
		name string
		ks   []int
	}{{"large-materials", []int{1}}, {"large-slices", []int{2}}, {"large-rest", []int{0, 3, 4}}} {
		ks := x.ks
		register(&Sub{Prop: "P02", Name: x.name, Rule: largeRule, Quick: 330, Thorough: 14000, Fn: func(t *rapid.T, c *C) {
			o := allOpts(drawPrec(t))
			o.Large = true
			if k := pick(t, "only", ks...); k < 4 { // mostly one extension, so that each of its lists gets its turn
				o.Unkn, o.Prod, o.Attach = false, k == 0, false
				o.Mat, o.Slic, o.Beam = k == 1, k == 2, k == 3
			}
			checkPkgRoundTrip(t, c, o)
		}})
	}
	register(&Sub{Prop: "P03", Name: "large", Rule: largeRule, Quick: 300, Thorough: 20000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, GenOpts{Unkn: true, MaxObj: 2, Large: true})
	}})
	register(&Sub{Prop: "P02", Name: "document-all", Rule: rtRule, Quick: 3000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, ext(GenOpts{MaxObj: 4}))
	}})
	register(&Sub{Prop: "P02", Name: "document-materials", Rule: rtRule, Quick: 3000, Thorough: 60000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, GenOpts{MaxObj: 2, Mat: true})
	}})
	register(&Sub{Prop: "P02", Name: "document-slices-production", Rule: rtRule, Quick: 3000, Thorough: 60000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, GenOpts{MaxObj: 3, Slic: true, Prod: true})
	}})
	register(&Sub{Prop: "P02", Name: "document-beams", Rule: rtRule, Quick: 2500, Thorough: 60000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, GenOpts{MaxObj: 3, Beam: true})
	}})
	register(&Sub{Prop: "P02", Name: "unknown-around-extensions", Rule: rtRule, Quick: 1000, Thorough: 40000, Fn: func(t *rapid.T, c *C) {
		checkPkgRoundTrip(t, c, allOpts(drawPrec(t)))
	}})
	register(&Sub{Prop: "P03", Name: "package-roundtrip", Rule: rtRule, Quick: 3500, Thorough: 40000, Fn: func(t *rapid.T, c *C) {
		checkPkgRoundTrip(t, c, GenOpts{Prec: drawPrec(t), Children: true, Unkn: true, MaxObj: 3})
	}})
	register(&Sub{Prop: "P03", Name: "document-roundtrip", Rule: rtRule, Quick: 9000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, GenOpts{Unkn: true, MaxObj: 3})
	}})
	register(&Sub{Prop: "P03", Name: "document-roundtrip-with-extensions", Rule: rtRule, Quick: 8000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		checkDocRoundTrip(t, c, ext(GenOpts{Unkn: true, MaxObj: 3}))
	}})

	register(&Sub{Prop: "P12", Name: "save-twice-and-reload", Rule: "random models saved twice, and reloaded and saved, compared part by part; non-trivial as for round trips", Quick: 1200, Thorough: 40000, Fn: func(t *rapid.T, c *C) {
		checkRepeat(t, c, allOpts(drawPrec(t)))
	}})
	register(&Sub{Prop: "P12", Name: "large", Rule: largeRule, Quick: 110, Thorough: 10000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(drawPrec(t))
		o.Large = true
		checkRepeat(t, c, o)
	}})
	register(&Sub{Prop: "P12", Name: "values-independent", Rule: "lists of two or more random values of one kind written together and one by one; distinct by kind and text", Quick: 12000, Thorough: 300000, Fn: checkIndependent})
	register(&Sub{Prop: "P12", Name: "concurrent-saves", Rule: "random models saved by three goroutines at once under the race detector; non-trivial as for round trips", Quick: 150, Thorough: 3000, Race: true, Fn: checkConcurrentSave})
}
