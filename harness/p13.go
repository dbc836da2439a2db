package main

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

// ---------- reference validator ----------

// A finding is a broken rule: the part (empty for the root model), the element and the message.
type finding struct{ part, xpath, text string }

func (f finding) String() string { return fmt.Sprintf("[%s] %s: %s", f.part, f.xpath, f.text) }

// refValidator is written from the rules of the specifications, one rule after the other
// over the whole model; it shares no code and no traversal with the validator under test.
type refValidator struct {
	m    *go3mf.Model
	must map[finding]int // reported exactly that often
	may  map[finding]int // not settled by the rules (or a known finding): tolerated so often
	gray string          // why the rules do not settle the model at all
}

type rpart struct {
	path string // as reported
	self string // as referenced
	res  *go3mf.Resources
}

func (v *refValidator) bad(part, xpath string, text interface{}) {
	v.must[finding{part, xpath, fmt.Sprint(text)}]++
}

func (v *refValidator) maybe(part, xpath string, text interface{}) {
	v.may[finding{part, xpath, fmt.Sprint(text)}]++
}

func unset(name string) string { return "required field '" + name + "' is not set" }

func (v *refValidator) rootPath() string {
	if v.m.Path == "" {
		return "/3D/3dmodel.model"
	}
	return v.m.Path
}

func (v *refValidator) parts() []rpart {
	out := []rpart{{"", v.rootPath(), &v.m.Resources}}
	for _, p := range sortedKeys(v.m.Childs) {
		out = append(out, rpart{p, p, &v.m.Childs[p].Resources})
	}
	return out
}

func (v *refValidator) declared(ns string) bool {
	for _, e := range v.m.Extensions {
		if e.Namespace == ns {
			return true
		}
	}
	return false
}

// object and asset resolve references: the first resource with the identifier.
func (v *refValidator) resources(path string) *go3mf.Resources {
	if path == "" || path == v.rootPath() {
		return &v.m.Resources
	}
	if c := v.m.Childs[path]; c != nil {
		return &c.Resources
	}
	return nil
}

func (v *refValidator) object(path string, id uint32) *go3mf.Object {
	if res := v.resources(path); res != nil {
		for _, o := range res.Objects {
			if o.ID == id {
				return o
			}
		}
	}
	return nil
}

func (v *refValidator) asset(path string, id uint32) go3mf.Asset {
	if res := v.resources(path); res != nil {
		for _, a := range res.Assets {
			if a.Identify() == id {
				return a
			}
		}
	}
	return nil
}

func size(a go3mf.Asset) int {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		return len(a.Materials)
	case *materials.ColorGroup:
		return len(a.Colors)
	case *materials.Texture2DGroup:
		return len(a.Coords)
	case *materials.CompositeMaterials:
		return len(a.Composites)
	case *materials.MultiProperties:
		return len(a.Multis)
	}
	return -1
}

func badPartName(p string) bool {
	return !strings.HasPrefix(p, "/") || strings.Contains(p, "/.")
}

func (v *refValidator) attachment(path string) *go3mf.Attachment {
	for i := range v.m.Attachments {
		if strings.EqualFold(v.m.Attachments[i].Path, path) {
			return &v.m.Attachments[i]
		}
	}
	return nil
}

func (v *refValidator) relationships(part string, rels []go3mf.Relationship) {
	tickets, lost := 0, 0
	for i, r := range rels {
		at := fmt.Sprintf("/model/relationship[%d]", i)
		target := v.attachment(r.Path)
		if badPartName(r.Path) {
			v.bad(part, at, specerr.ErrOPCPartName)
		} else {
			if target == nil {
				v.bad(part, at, specerr.ErrOPCRelTarget)
			}
			for _, o := range rels[:i] {
				if o.Type == r.Type && o.Path == r.Path {
					v.bad(part, at, specerr.ErrOPCDuplicatedRel)
					break
				}
				if o.Type == r.Type && strings.EqualFold(o.Path, r.Path) {
					v.maybe(part, at, specerr.ErrOPCDuplicatedRel)
				}
			}
		}
		if r.Type == relTicket {
			if target == nil {
				lost++
				continue
			}
			if target.ContentType != ctPrintTicket {
				v.bad(part, at, specerr.ErrOPCContentType)
			}
			if tickets++; tickets > 1 {
				v.bad(part, at, specerr.ErrOPCDuplicatedTicket)
			} else if lost > 0 {
				v.maybe(part, at, specerr.ErrOPCDuplicatedTicket)
			}
		}
	}
}

var wellKnownMetadata = map[string]bool{"Title": true, "Designer": true, "Description": true, "Copyright": true, "LicenseTerms": true, "Rating": true, "CreationDate": true, "ModificationDate": true, "Application": true}

func (v *refValidator) metadata(part, at string, md []go3mf.Metadata) {
	for i, x := range md {
		at := fmt.Sprintf("%s/metadata[%d]", at, i)
		switch {
		case x.Name.Local == "":
			v.bad(part, at, unset("name"))
		case x.Name.Space != "":
			if !v.declared(x.Name.Space) {
				v.bad(part, at, specerr.ErrMetadataNamespace)
			}
		case !wellKnownMetadata[x.Name.Local]:
			near := false
			for n := range wellKnownMetadata {
				near = near || strings.EqualFold(n, x.Name.Local)
			}
			if near {
				v.maybe(part, at, specerr.ErrMetadataName)
			} else {
				v.bad(part, at, specerr.ErrMetadataName)
			}
		}
		for _, o := range md[:i] {
			if o.Name == x.Name {
				if x.Name.Local == "" {
					v.maybe(part, at, specerr.ErrMetadataDuplicated)
				} else {
					v.bad(part, at, specerr.ErrMetadataDuplicated)
				}
				break
			}
			if o.Name.Space == x.Name.Space && strings.EqualFold(o.Name.Local, x.Name.Local) {
				v.maybe(part, at, specerr.ErrMetadataDuplicated)
			}
		}
	}
}

func (v *refValidator) run() {
	m := v.m
	v.must, v.may = map[finding]int{}, map[finding]int{}
	parts := v.parts()

	// package
	for i, a := range m.Attachments {
		for _, b := range m.Attachments[:i] {
			if strings.EqualFold(a.Path, b.Path) && a.ContentType != b.ContentType {
				v.gray = "two attachments with the same name"
			}
		}
	}
	v.relationships("", m.RootRelationships)
	v.relationships(v.rootPath(), m.Relationships)
	for _, p := range parts[1:] {
		if p.path == v.rootPath() {
			v.bad("", "/model", specerr.ErrOPCDuplicatedModelName)
			if len(p.res.Assets)+len(p.res.Objects)+len(m.Childs[p.path].Relationships) > 0 {
				v.gray = "a child part with the name of the root model"
			}
			continue
		}
		v.relationships(p.path, m.Childs[p.path].Relationships)
	}
	needed := 0
	for _, e := range m.Extensions {
		if _, known := spec.Load(e.Namespace); e.IsRequired && !known {
			if needed++; needed == 1 {
				v.bad("", "/model", specerr.ErrRequiredExt)
			} else {
				v.maybe("", "/model", specerr.ErrRequiredExt)
			}
		}
	}
	v.metadata("", "/model", m.Metadata)

	// build
	for i, it := range m.Build.Items {
		at := fmt.Sprintf("/model/build/item[%d]", i)
		if it.ObjectID == 0 {
			v.bad("", at, unset("objectid"))
		} else if o := v.object(it.ObjectPath(), it.ObjectID); o == nil {
			v.bad("", at, specerr.ErrMissingResource)
		} else if o.Type == go3mf.ObjectTypeOther {
			v.bad("", at, specerr.ErrOtherItem)
		}
		v.metadata("", at, it.Metadata.Metadata)
	}

	for _, p := range parts {
		v.identifiers(p)
		for i, a := range p.res.Assets {
			at := fmt.Sprintf("/model/resources/%s[%d]", a.XMLName().Local, i)
			switch a := a.(type) {
			case *go3mf.BaseMaterials:
				v.propertyGroup(p, at, a.ID, len(a.Materials))
				for j, b := range a.Materials {
					at := fmt.Sprintf("%s/base[%d]", at, j)
					if b.Name == "" {
						v.bad(p.path, at, unset("name"))
					}
					if b.Color == (color.RGBA{}) {
						v.maybe(p.path, at, unset("displaycolor"))
					}
				}
			case *slices.SliceStack:
				if v.declared(slices.Namespace) {
					v.sliceStack(p, at, a)
				}
			default:
				if v.declared(materials.Namespace) {
					v.material(p, at, a)
				}
			}
		}
		for i, o := range p.res.Objects {
			at := fmt.Sprintf("/model/resources/object[%d]", i)
			v.coreObject(p, at, o)
			if v.declared(slices.Namespace) {
				v.slicedObject(p, at, o)
			}
			if v.declared(beamlattice.Namespace) {
				v.lattice(p, at, o, i)
			}
			if v.declared(production.Namespace) {
				v.production(p, at, o)
			}
		}
	}

	if v.declared(production.Namespace) {
		if u := production.GetBuildAttr(&m.Build); u == nil {
			v.bad("", "/model/build", unset("UUID"))
		} else if !uuidRe.MatchString(u.UUID) {
			v.bad("", "/model/build", production.ErrUUID)
		}
		for i, it := range m.Build.Items {
			at := fmt.Sprintf("/model/build/item[%d]", i)
			if u := production.GetItemAttr(it); u == nil || u.UUID == "" {
				v.bad("", at, unset("UUID"))
			} else if !uuidRe.MatchString(u.UUID) {
				v.bad("", at, production.ErrUUID)
			}
		}
	}
}

// identifiers: unique among the resources of a part.
func (v *refValidator) identifiers(p rpart) {
	n := map[uint32]int{}
	for i, a := range p.res.Assets {
		if id := a.Identify(); id != 0 {
			if n[id]++; n[id] > 1 {
				v.bad(p.path, fmt.Sprintf("/model/resources/%s[%d]", a.XMLName().Local, i), specerr.ErrDuplicatedID)
			}
		}
	}
	for i, o := range p.res.Objects {
		at := fmt.Sprintf("/model/resources/object[%d]", i)
		if o.ID == 0 {
			v.bad(p.path, at, specerr.ErrMissingID)
		} else if n[o.ID]++; n[o.ID] > 1 {
			v.bad(p.path, at, specerr.ErrDuplicatedID)
		}
	}
}

func (v *refValidator) propertyGroup(p rpart, at string, id uint32, n int) {
	if id == 0 {
		v.bad(p.path, at, specerr.ErrMissingID)
	}
	if n == 0 {
		v.bad(p.path, at, specerr.ErrEmptyResourceProps)
	}
}

func (v *refValidator) coreObject(p rpart, at string, o *go3mf.Object) {
	v.metadata(p.path, at, o.Metadata.Metadata)
	if o.PID == 0 && o.PIndex != 0 {
		v.bad(p.path, at, unset("pid"))
	}
	if (o.Mesh == nil) == (o.Components == nil) {
		v.bad(p.path, at, specerr.ErrInvalidObject)
	}
	if o.Components != nil {
		if len(o.Components.Component) == 0 {
			if o.Mesh == nil {
				v.maybe(p.path, at, specerr.ErrInvalidObject)
			}
		} else if o.PID != 0 {
			v.bad(p.path, at, specerr.ErrComponentsPID)
		}
		for j, k := range o.Components.Component {
			at := fmt.Sprintf("%s/components/component[%d]", at, j)
			path := k.ObjectPath(p.self)
			if k.ObjectID == 0 {
				v.bad(p.path, at, unset("objectid"))
				continue
			}
			ref := v.object(path, k.ObjectID)
			if ref == nil {
				v.bad(p.path, at, specerr.ErrMissingResource)
			} else if k.ObjectID == o.ID && path == p.self {
				v.bad(p.path, at, specerr.ErrRecursion)
			} else {
				// an object defined later, or that contains this one
				v.maybe(p.path, at, specerr.ErrMissingResource)
				v.maybe(p.path, at, specerr.ErrRecursion)
				if !v.defers(p, o, path, ref) {
					delete(v.may, finding{p.path, at, specerr.ErrMissingResource.Error()})
					delete(v.may, finding{p.path, at, specerr.ErrRecursion.Error()})
				}
			}
		}
	}
	if o.Mesh == nil {
		return
	}
	if o.PID != 0 {
		if a := v.asset(p.self, o.PID); a == nil {
			v.bad(p.path, at, specerr.ErrMissingResource)
		} else if n := size(a); n < 0 {
			v.maybe(p.path, at, specerr.ErrMissingResource)
			v.maybe(p.path, at, specerr.ErrIndexOutOfBounds)
		} else if int64(o.PIndex) >= int64(n) {
			v.bad(p.path, at, specerr.ErrIndexOutOfBounds)
		}
	}
	at += "/mesh"
	nv := int64(len(o.Mesh.Vertices.Vertex))
	if o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport {
		if nv < 3 {
			v.bad(p.path, at, specerr.ErrInsufficientVertices)
		}
		if len(o.Mesh.Triangles.Triangle) < 4 && len(o.Mesh.Any) == 0 {
			v.bad(p.path, at, specerr.ErrInsufficientTriangles)
		}
	}
	for j, tr := range o.Mesh.Triangles.Triangle {
		at := fmt.Sprintf("%s/triangle[%d]", at, j)
		vs := []uint32{tr.V1, tr.V2, tr.V3}
		sort.Slice(vs, func(a, b int) bool { return vs[a] < vs[b] })
		if vs[0] == vs[1] || vs[1] == vs[2] {
			v.bad(p.path, at, specerr.ErrDuplicatedIndices)
		}
		if int64(vs[2]) >= nv {
			v.bad(p.path, at, specerr.ErrIndexOutOfBounds)
		}
		if tr.PID == 0 {
			continue
		}
		asDefault := tr.PID == o.PID && tr.P1 == o.PIndex && tr.P2 == o.PIndex && tr.P3 == o.PIndex
		note := v.bad
		if asDefault { // reported with the object
			note = v.maybe
		}
		if a := v.asset(p.self, tr.PID); a == nil {
			if !asDefault {
				v.bad(p.path, at, specerr.ErrMissingResource)
			}
		} else if n := int64(size(a)); n < 0 {
			v.maybe(p.path, at, specerr.ErrMissingResource)
			v.maybe(p.path, at, specerr.ErrIndexOutOfBounds)
		} else if int64(tr.P1) >= n || int64(tr.P2) >= n || int64(tr.P3) >= n {
			note(p.path, at, specerr.ErrIndexOutOfBounds)
		}
	}
}

// defers reports whether ref is not defined before o, or contains it.
func (v *refValidator) defers(p rpart, o *go3mf.Object, path string, ref *go3mf.Object) bool {
	if res := v.resources(path); res == p.res {
		for _, x := range res.Objects {
			if x == o {
				return true
			}
			if x == ref {
				break
			}
		}
	}
	seen := map[*go3mf.Object]bool{}
	var walk func(path string, x *go3mf.Object) bool
	walk = func(path string, x *go3mf.Object) bool {
		if x == o {
			return true
		}
		if x == nil || seen[x] || x.Components == nil {
			return false
		}
		seen[x] = true
		for _, k := range x.Components.Component {
			sub := k.ObjectPath(path)
			if walk(sub, v.object(sub, k.ObjectID)) {
				return true
			}
		}
		return false
	}
	return walk(path, ref)
}

func (v *refValidator) material(p rpart, at string, a go3mf.Asset) {
	switch a := a.(type) {
	case *materials.ColorGroup:
		v.propertyGroup(p, at, a.ID, len(a.Colors))
		for j, col := range a.Colors {
			if col == (color.RGBA{}) {
				v.maybe(p.path, fmt.Sprintf("%s/color[%d]", at, j), unset("color"))
			}
		}
	case *materials.Texture2DGroup:
		v.propertyGroup(p, at, a.ID, len(a.Coords))
		if a.TextureID == 0 {
			v.bad(p.path, at, unset("texid"))
		} else if _, ok := v.asset(p.self, a.TextureID).(*materials.Texture2D); !ok {
			v.bad(p.path, at, materials.ErrTextureReference)
		}
	case *materials.Texture2D:
		v.propertyGroup(p, at, a.ID, 1)
		if a.Path == "" {
			v.bad(p.path, at, unset("path"))
		} else if v.attachment(a.Path) == nil {
			v.bad(p.path, at, materials.ErrMissingTexturePart)
		}
		if a.ContentType == 0 {
			v.bad(p.path, at, unset("contenttype"))
		}
	case *materials.CompositeMaterials:
		v.propertyGroup(p, at, a.ID, len(a.Composites))
		if len(a.Indices) == 0 {
			v.bad(p.path, at, unset("matindices"))
		}
		if a.MaterialID == 0 {
			v.bad(p.path, at, unset("matid"))
		} else if ref := v.asset(p.self, a.MaterialID); ref == nil {
			v.bad(p.path, at, specerr.ErrMissingResource)
		} else if base, ok := ref.(*go3mf.BaseMaterials); !ok {
			v.bad(p.path, at, materials.ErrCompositeBase)
		} else {
			wrong := 0
			for _, i := range a.Indices {
				if int64(i) >= int64(len(base.Materials)) {
					if wrong++; wrong == 1 {
						v.bad(p.path, at, specerr.ErrIndexOutOfBounds)
					} else {
						v.maybe(p.path, at, specerr.ErrIndexOutOfBounds)
					}
				}
			}
		}
	case *materials.MultiProperties:
		v.propertyGroup(p, at, a.ID, len(a.Multis))
		if len(a.PIDs) == 0 {
			v.bad(p.path, at, unset("pids"))
			v.maybe(p.path, at, materials.ErrMultiBlend)
		} else if len(a.BlendMethods) > len(a.PIDs)-1 {
			v.bad(p.path, at, materials.ErrMultiBlend)
		}
		count := map[string]int{}
		note := func(err error) {
			if count[err.Error()]++; count[err.Error()] == 1 {
				v.bad(p.path, at, err)
			} else {
				v.maybe(p.path, at, err)
			}
		}
		lens := make([]int, len(a.PIDs))
		colors := 0
		for j, id := range a.PIDs {
			ref := v.asset(p.self, id)
			if id == 0 && ref != nil {
				v.gray = "a reference to a resource without identifier"
			}
			lens[j] = -1
			if ref == nil {
				note(specerr.ErrMissingResource)
				continue
			}
			lens[j] = size(ref)
			switch ref.(type) {
			case *go3mf.BaseMaterials, *materials.CompositeMaterials:
				if j > 0 {
					note(materials.ErrMaterialMulti)
				}
			case *materials.MultiProperties:
				note(materials.ErrMultiRefMulti)
				lens[j] = -1
			case *materials.ColorGroup:
				if colors++; colors > 1 {
					note(materials.ErrMultiColors)
				}
			case *materials.Texture2DGroup:
			default:
				v.maybe(p.path, at, specerr.ErrMissingResource)
			}
		}
		for j, mu := range a.Multis {
			wrong := 0
			for k, i := range mu.PIndices {
				if k < len(lens) && lens[k] >= 0 && int64(i) >= int64(lens[k]) {
					if wrong++; wrong == 1 {
						v.bad(p.path, fmt.Sprintf("%s/multi[%d]", at, j), specerr.ErrIndexOutOfBounds)
					} else {
						v.maybe(p.path, fmt.Sprintf("%s/multi[%d]", at, j), specerr.ErrIndexOutOfBounds)
					}
				}
			}
		}
	}
}

func (v *refValidator) sliceStack(p rpart, at string, s *slices.SliceStack) {
	if s.ID == 0 {
		v.maybe(p.path, at, specerr.ErrMissingID)
	}
	if (len(s.Slices) == 0) == (len(s.Refs) == 0) {
		v.bad(p.path, at, slices.ErrSlicesAndRefs)
	}
	var prev *slices.Slice
	for j := range s.Slices {
		sl := &s.Slices[j]
		sat := fmt.Sprintf("%s/slice[%d]", at, j)
		if sl.TopZ == 0 {
			v.bad(p.path, sat, unset("ztop"))
			if s.BottomZ > 0 {
				v.maybe(p.path, sat, slices.ErrSliceSmallTopZ)
			}
		} else if sl.TopZ < s.BottomZ {
			v.bad(p.path, sat, slices.ErrSliceSmallTopZ)
		} else if sl.TopZ == s.BottomZ {
			v.maybe(p.path, sat, slices.ErrSliceSmallTopZ)
		}
		if prev != nil && sl.TopZ <= prev.TopZ {
			v.bad(p.path, sat, slices.ErrSliceNoMonotonic)
		}
		prev = sl
		if len(sl.Polygons)+len(sl.Vertices.Vertex) > 0 {
			if len(sl.Vertices.Vertex) < 2 {
				v.bad(p.path, sat, slices.ErrSliceInsufficientVertices)
			}
			if len(sl.Polygons) == 0 {
				v.bad(p.path, sat, slices.ErrSliceInsufficientPolygons)
			}
		}
		for k, po := range sl.Polygons {
			if len(po.Segments) == 0 {
				v.bad(p.path, fmt.Sprintf("%s/polygon[%d]", sat, k), slices.ErrSliceInsufficientSegments)
			}
		}
	}
	var last *slices.Slice
	for j, ref := range s.Refs {
		rat := fmt.Sprintf("%s/sliceref[%d]", at, j)
		if ref.Path == "" {
			v.bad(p.path, rat, unset("slicepath"))
		} else if ref.Path == p.self {
			v.bad(p.path, rat, slices.ErrSliceRefSamePart)
		}
		if ref.SliceStackID == 0 {
			v.bad(p.path, rat, unset("slicestackid"))
		}
		if ref.Path == "" || ref.Path == p.self || ref.SliceStackID == 0 {
			continue
		}
		a := v.asset(ref.Path, ref.SliceStackID)
		if a == nil {
			v.bad(p.path, rat, specerr.ErrMissingResource)
			continue
		}
		st, ok := a.(*slices.SliceStack)
		if !ok {
			v.bad(p.path, rat, slices.ErrNonSliceStack)
			continue
		}
		if len(st.Refs) > 0 {
			v.bad(p.path, rat, slices.ErrSliceRefRef)
		}
		if len(st.Slices) > 0 {
			if last != nil && st.Slices[0].TopZ <= last.TopZ {
				v.bad(p.path, rat, slices.ErrSliceNoMonotonic)
			}
			last = &st.Slices[len(st.Slices)-1]
		}
	}
}

func planar(t go3mf.Matrix) bool {
	if t == (go3mf.Matrix{}) {
		return true
	}
	return t[2] == 0 && t[6] == 0 && t[8] == 0 && t[9] == 0 && t[10] == 1
}

func (v *refValidator) slicedObject(p rpart, at string, o *go3mf.Object) {
	var attr *slices.ObjectAttr
	for _, a := range o.AnyAttr {
		if a, ok := a.(*slices.ObjectAttr); ok && attr == nil {
			attr = a
		}
	}
	if attr == nil {
		return
	}
	if attr.MeshResolution == slices.ResolutionLow {
		yes, no := 0, 0
		for _, e := range v.m.Extensions {
			if e.Namespace == slices.Namespace {
				if e.IsRequired {
					yes++
				} else {
					no++
				}
			}
		}
		if yes == 0 {
			v.bad(p.path, at, slices.ErrSliceExtRequired)
		} else if no > 0 {
			v.maybe(p.path, at, slices.ErrSliceExtRequired)
		}
	}
	if attr.SliceStackID == 0 {
		v.bad(p.path, at, unset("slicestackid"))
		return
	}
	a := v.asset(p.self, attr.SliceStackID)
	if a == nil {
		v.bad(p.path, at, specerr.ErrMissingResource)
		return
	}
	st, ok := a.(*slices.SliceStack)
	if !ok {
		v.bad(p.path, at, slices.ErrNonSliceStack)
		return
	}
	if o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport {
		open := false
		stacks := []*slices.SliceStack{st}
		for _, r := range st.Refs {
			if x, ok := v.asset(r.Path, r.SliceStackID).(*slices.SliceStack); ok {
				if r.SliceStackID == 0 || r.Path == "" {
					v.gray = "an incomplete sliceref that resolves"
				}
				stacks = append(stacks, x)
			}
		}
		for _, x := range stacks {
			for _, sl := range x.Slices {
				for _, po := range sl.Polygons {
					if n := len(po.Segments); n > 0 && po.Segments[n-1].V2 != po.StartV {
						open = true
					}
				}
			}
		}
		if open {
			v.bad(p.path, at, slices.ErrSlicePolygonNotClosed)
		}
	}
	tilted, loose := v.tilted(p, o)
	if tilted {
		v.bad(p.path, at, slices.ErrSliceInvalidTranform)
	} else if loose {
		v.maybe(p.path, at, slices.ErrSliceInvalidTranform)
	}
}

// tilted reports whether o is under a transform that is not planar in the build, or elsewhere.
func (v *refValidator) tilted(p rpart, o *go3mf.Object) (built, loose bool) {
	type node struct {
		path string
		id   uint32
	}
	norm := func(path string, id uint32) node {
		if path == "" {
			path = v.rootPath()
		}
		return node{path, id}
	}
	// the objects that contain o, flat or tilted
	self := norm(p.self, o.ID)
	if v.object(p.self, o.ID) != o {
		// hidden behind another object with the same identifier
		v.gray = "a repeated identifier of a sliced object"
	}
	flat, bent := map[node]bool{self: true}, map[node]bool{}
	for changed := true; changed; {
		changed = false
		for _, q := range v.parts() {
			for _, x := range q.res.Objects {
				if x.Components == nil || v.object(q.self, x.ID) != x {
					continue
				}
				n := norm(q.self, x.ID)
				for _, k := range x.Components.Component {
					to := norm(k.ObjectPath(q.self), k.ObjectID)
					f, b := flat[to], bent[to]
					if (f || b) && !planar(k.Transform) {
						f, b = false, true
					}
					if f && !flat[n] {
						flat[n], changed = true, true
					}
					if b && !bent[n] {
						bent[n], changed = true, true
					}
				}
			}
		}
	}
	for _, it := range v.m.Build.Items {
		to := norm(it.ObjectPath(), it.ObjectID)
		if bent[to] || (flat[to] && !planar(it.Transform)) {
			built = true
		}
	}
	return built, len(bent) > 0
}

func (v *refValidator) lattice(p rpart, at string, o *go3mf.Object, index int) {
	if o.Mesh == nil {
		return
	}
	hasLattice := func(x *go3mf.Object) *beamlattice.BeamLattice {
		for _, a := range x.Mesh.Any {
			if bl, ok := a.(*beamlattice.BeamLattice); ok {
				return bl
			}
		}
		return nil
	}
	bl := hasLattice(o)
	if bl == nil {
		return
	}
	at += "/mesh/beamlattice"
	if o.Type != go3mf.ObjectTypeModel && o.Type != go3mf.ObjectTypeSolidSupport {
		v.bad(p.path, at, beamlattice.ErrLatticeObjType)
	}
	if bl.MinLength == 0 {
		v.bad(p.path, at, unset("minlength"))
	}
	if bl.Radius == 0 {
		v.bad(p.path, at, unset("radius"))
	}
	if bl.ClippingMeshID == 0 {
		// known finding: the rule is applied to the mode none instead of the others
		v.maybe(p.path, at, beamlattice.ErrLatticeClippedNoMesh)
	}
	for _, id := range []uint32{bl.ClippingMeshID, bl.RepresentationMeshID} {
		if id == 0 {
			continue
		}
		if id == o.ID {
			v.bad(p.path, at, specerr.ErrRecursion)
			continue
		}
		var ref *go3mf.Object
		for _, x := range p.res.Objects[:index] {
			if x.ID == o.ID {
				v.gray = "a repeated identifier of an object with a lattice"
			}
			if x.ID == id && ref == nil {
				ref = x
			}
		}
		if ref == nil {
			v.bad(p.path, at, specerr.ErrMissingResource)
		} else if ref.Mesh == nil || ref.Type != go3mf.ObjectTypeModel || hasLattice(ref) != nil {
			v.bad(p.path, at, beamlattice.ErrLatticeInvalidMesh)
		}
	}
	nv := int64(len(o.Mesh.Vertices.Vertex))
	for j, b := range bl.Beams.Beam {
		at := fmt.Sprintf("%s/beam[%d]", at, j)
		if b.Indices[0] == b.Indices[1] {
			v.bad(p.path, at, beamlattice.ErrLatticeSameVertex)
			if int64(b.Indices[0]) >= nv {
				v.maybe(p.path, at, specerr.ErrIndexOutOfBounds)
			}
		} else if int64(b.Indices[0]) >= nv || int64(b.Indices[1]) >= nv {
			v.bad(p.path, at, specerr.ErrIndexOutOfBounds)
		}
		if r1, r2 := b.Radius[0], b.Radius[1]; (r1 == 0 && r2 != 0) || (r1 != 0 && r1 != bl.Radius && r1 != r2) {
			// known finding: tapered beams are rejected and a lone r2 is not
			v.maybe(p.path, at, beamlattice.ErrLatticeBeamR2)
		}
	}
	for j, set := range bl.BeamSets.BeamSet {
		wrong := 0
		for _, ref := range set.Refs {
			if int64(ref) >= int64(len(bl.Beams.Beam)) {
				if wrong++; wrong == 1 {
					v.bad(p.path, fmt.Sprintf("%s/beamset[%d]", at, j), specerr.ErrIndexOutOfBounds)
				} else {
					v.maybe(p.path, fmt.Sprintf("%s/beamset[%d]", at, j), specerr.ErrIndexOutOfBounds)
				}
			}
		}
	}
}

func (v *refValidator) production(p rpart, at string, o *go3mf.Object) {
	if u := production.GetObjectAttr(o); u == nil {
		v.bad(p.path, at, unset("UUID"))
	} else if !uuidRe.MatchString(u.UUID) {
		v.bad(p.path, at, production.ErrUUID)
	}
	if o.Components == nil {
		return
	}
	for j, k := range o.Components.Component {
		at := fmt.Sprintf("%s/components/component[%d]", at, j)
		u := production.GetComponentAttr(k)
		if u == nil || u.UUID == "" {
			v.bad(p.path, at, unset("UUID"))
		} else if !uuidRe.MatchString(u.UUID) {
			v.bad(p.path, at, production.ErrUUID)
		}
		if u != nil && u.Path != "" && p.path != "" {
			if u.Path == p.self {
				v.maybe(p.path, at, production.ErrProdRefInNonRoot)
			} else {
				v.bad(p.path, at, production.ErrProdRefInNonRoot)
			}
		}
	}
}

// ---------- comparison ----------

func findingsOf(err error) map[finding]int {
	out := map[finding]int{}
	for _, e := range flatten(err) {
		if le, ok := e.(*specerr.Error); ok {
			out[finding{le.Path, le.XPath(), le.Err.Error()}]++
		} else {
			out[finding{"?", "?", e.Error()}]++
		}
	}
	return out
}

func (v *refValidator) diff(got map[finding]int) []string {
	var out []string
	keys := map[finding]bool{}
	for f := range got {
		keys[f] = true
	}
	for f := range v.must {
		keys[f] = true
	}
	for f := range keys {
		if g, lo := got[f], v.must[f]; g < lo {
			out = append(out, fmt.Sprintf("reported %d times instead of %d: %v", g, lo, f))
		} else if hi := lo + v.may[f]; g > hi {
			out = append(out, fmt.Sprintf("reported %d times, expected %d to %d: %v", g, lo, hi, f))
		}
	}
	sort.Strings(out)
	return out
}

// ---------- conformant models ----------

type conform struct {
	r        *rand.Rand
	m        *go3mf.Model
	declared map[string]bool
	ids      map[string]uint32
	lowres   bool
	allUsed  bool // every namespace in use is declared
	shapes   map[string]int
}

const nsVendor2 = "http://vendor.example/val"

func (g *conform) n(lo, hi int) int { return lo + g.r.Intn(hi-lo+1) }

func (g *conform) chance(n int) bool { return g.r.Intn(n) == 0 }

func (g *conform) id(part string) uint32 {
	g.ids[part] += uint32(1 + g.r.Intn(3))
	return g.ids[part]
}

func (g *conform) uuid() string {
	s := fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", g.r.Uint32(), g.r.Intn(1<<16), g.r.Intn(1<<16), g.r.Intn(1<<16), g.r.Int63n(1<<48))
	switch g.r.Intn(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return "urn:uuid:" + s
	case 2:
		return "{" + s + "}"
	case 3:
		return strings.ReplaceAll(s, "-", "")
	}
	return s
}

func (g *conform) transform(planar bool) go3mf.Matrix {
	f := func() float32 { return float32(g.r.Intn(200)-100) / 8 }
	switch g.r.Intn(4) {
	case 0:
		return go3mf.Matrix{}
	case 1:
		return go3mf.Identity()
	}
	t := go3mf.Matrix{f(), f(), 0, 0, f(), f(), 0, 0, 0, 0, 1, 0, f(), f(), f(), 1}
	if !planar {
		for _, i := range []int{2, 6, 8, 9, 10} {
			if g.chance(2) {
				t[i] = f()
			}
		}
	}
	return t
}

func (g *conform) metadata(max int) []go3mf.Metadata {
	names := sortedKeys(wellKnownMetadata)
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var out []go3mf.Metadata
	for k := g.n(0, max); k > 0; k-- {
		md := go3mf.Metadata{Name: xml.Name{Local: names[k]}, Value: "v", Preserve: g.chance(2)}
		if g.declared[nsVendor2] && g.chance(3) {
			md.Name = xml.Name{Space: nsVendor2, Local: fmt.Sprint("name", k)}
			if g.chance(2) {
				md.Name.Local = names[k]
			}
		}
		out = append(out, md)
	}
	return out
}

func (g *conform) color() color.RGBA {
	return color.RGBA{uint8(g.r.Intn(256)), uint8(g.r.Intn(256)), uint8(g.r.Intn(256)), uint8(1 + g.r.Intn(255))}
}

func pickOf[T any](r *rand.Rand, vs []T) T { return vs[r.Intn(len(vs))] }

func assetsOf[T go3mf.Asset](res *go3mf.Resources) []T {
	var out []T
	for _, a := range res.Assets {
		if a, ok := a.(T); ok {
			out = append(out, a)
		}
	}
	return out
}

func (g *conform) stack(part string, res *go3mf.Resources, earlier map[string][]*slices.SliceStack) {
	st := &slices.SliceStack{ID: g.id(part)}
	var from []string
	for _, p := range sortedKeys(earlier) {
		if p != part {
			from = append(from, p)
		}
	}
	if len(from) > 0 && g.chance(2) {
		last := float32(-1e9)
		for _, p := range from {
			for _, x := range earlier[p] {
				if len(x.Slices) > 0 && x.Slices[0].TopZ > last && g.chance(2) {
					st.Refs = append(st.Refs, slices.SliceRef{SliceStackID: x.ID, Path: p})
					last = x.Slices[len(x.Slices)-1].TopZ
				}
			}
		}
	}
	if len(st.Refs) == 0 {
		z := float32(g.r.Intn(10)*20 - 60)
		st.BottomZ = z
		for k := g.n(1, 4); k > 0; k-- {
			z += float32(1+g.r.Intn(40)) / 8
			if z == 0 {
				z = 0.125
			}
			s := slices.Slice{TopZ: z}
			if !g.chance(5) {
				n := g.n(2, 5)
				for i := 0; i < n; i++ {
					s.Vertices.Vertex = append(s.Vertices.Vertex, go3mf.Point2D{float32(i), float32(g.r.Intn(9))})
				}
				for q := g.n(1, 3); q > 0; q-- {
					po := slices.Polygon{StartV: uint32(g.r.Intn(n))}
					for w := g.n(1, 4); w > 0; w-- {
						po.Segments = append(po.Segments, slices.Segment{V2: uint32(g.r.Intn(n))})
					}
					po.Segments[len(po.Segments)-1].V2 = po.StartV
					s.Polygons = append(s.Polygons, po)
				}
			}
			st.Slices = append(st.Slices, s)
		}
	}
	res.Assets = append(res.Assets, st)
	earlier[part] = append(earlier[part], st)
}

func (g *conform) assets(part string, res *go3mf.Resources, stacks map[string][]*slices.SliceStack, textures []string) {
	k, kinds := g.n(0, 7), 8
	if g.chance(3) {
		k = g.n(5, 14)
	}
	if g.chance(5) { // mostly stacks, which refer to those of other parts
		kinds = 3
	}
	for ; k > 0; k-- {
		kind := g.r.Intn(kinds)
		if kinds == 3 {
			kind += 4
		}
		switch kind {
		case 0, 1:
			b := &go3mf.BaseMaterials{ID: g.id(part)}
			for j := g.n(1, 4); j > 0; j-- {
				b.Materials = append(b.Materials, go3mf.Base{Name: fmt.Sprint("m", j), Color: g.color()})
			}
			res.Assets = append(res.Assets, b)
		case 2:
			x := &materials.ColorGroup{ID: g.id(part)}
			for j := g.n(1, 4); j > 0; j-- {
				x.Colors = append(x.Colors, g.color())
			}
			res.Assets = append(res.Assets, x)
		case 3:
			if len(textures) > 0 {
				x := &materials.Texture2D{ID: g.id(part), Path: pickOf(g.r, textures), ContentType: materials.Texture2DType(g.n(1, 2)), TileStyleU: materials.TileStyle(g.n(0, 3)), Filter: materials.TextureFilter(g.n(0, 2))}
				res.Assets = append(res.Assets, x)
			}
		case 4:
			if ts := assetsOf[*materials.Texture2D](res); len(ts) > 0 {
				x := &materials.Texture2DGroup{ID: g.id(part), TextureID: pickOf(g.r, ts).ID}
				for j := g.n(1, 4); j > 0; j-- {
					x.Coords = append(x.Coords, materials.TextureCoord{float32(j), 0.5})
				}
				res.Assets = append(res.Assets, x)
			}
		case 5:
			if bs := assetsOf[*go3mf.BaseMaterials](res); len(bs) > 0 {
				b := pickOf(g.r, bs)
				x := &materials.CompositeMaterials{ID: g.id(part), MaterialID: b.ID}
				n := g.n(1, 3)
				for j := 0; j < n; j++ {
					x.Indices = append(x.Indices, uint32(g.r.Intn(len(b.Materials))))
				}
				for j := g.n(1, 3); j > 0; j-- {
					x.Composites = append(x.Composites, materials.Composite{Values: []float32{0.5, 0.25, 0.25}[:n]})
				}
				res.Assets = append(res.Assets, x)
			}
		case 6:
			g.stack(part, res, stacks)
		default:
			var first, rest []go3mf.Asset
			for _, a := range res.Assets {
				switch a.(type) {
				case *go3mf.BaseMaterials, *materials.CompositeMaterials:
					first = append(first, a)
				case *materials.ColorGroup, *materials.Texture2DGroup:
					rest = append(rest, a)
				}
			}
			x := &materials.MultiProperties{}
			var of []go3mf.Asset
			if len(first) > 0 && g.chance(2) {
				of = append(of, pickOf(g.r, first))
			}
			colors := 0
			more := g.n(0, 3)
			if g.chance(4) {
				more = g.n(4, 9)
			}
			for j := more; j > 0 && len(rest) > 0; j-- {
				a := pickOf(g.r, rest)
				if _, ok := a.(*materials.ColorGroup); ok {
					if colors++; colors > 1 {
						continue
					}
				}
				of = append(of, a)
			}
			if len(of) == 0 {
				continue
			}
			x.ID = g.id(part)
			for _, a := range of {
				x.PIDs = append(x.PIDs, a.Identify())
			}
			for j := g.n(0, len(of)-1); j > 0; j-- {
				x.BlendMethods = append(x.BlendMethods, materials.BlendMethod(g.n(0, 1)))
			}
			for j := g.n(1, 4); j > 0; j-- {
				var mu materials.Multi
				for _, a := range of[:g.n(0, len(of))] {
					mu.PIndices = append(mu.PIndices, uint32(g.index(size(a))))
				}
				x.Multis = append(x.Multis, mu)
			}
			res.Assets = append(res.Assets, x)
		}
	}
}

// index favours the last one.
func (g *conform) index(n int) int {
	if g.chance(3) {
		return n - 1
	}
	return g.r.Intn(n)
}

func (g *conform) mesh(o *go3mf.Object, res *go3mf.Resources) {
	o.Mesh = new(go3mf.Mesh)
	var groups []go3mf.Asset
	for _, a := range res.Assets {
		if size(a) > 0 {
			groups = append(groups, a)
		}
	}
	n := g.n(3, 7)
	for i := 0; i < n; i++ {
		o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(i), float32(i * i), float32(g.r.Intn(5))})
	}
	if len(groups) > 0 && g.chance(2) {
		a := pickOf(g.r, groups)
		o.PID, o.PIndex = a.Identify(), uint32(g.index(size(a)))
	}
	min := 4
	if o.Type != go3mf.ObjectTypeModel && o.Type != go3mf.ObjectTypeSolidSupport {
		min = 0
	}
	for k := g.n(min, 7); k > 0; k-- {
		p := g.r.Perm(n)
		if g.chance(2) { // the last vertex
			p[0], p[1], p[2] = n-1, (n-2)*g.r.Intn(2), 1-(n-3)*0
			if p[1] == p[2] {
				p[1] = 0
			}
		}
		tr := go3mf.Triangle{V1: uint32(p[0]), V2: uint32(p[1]), V3: uint32(p[2])}
		if len(groups) > 0 && g.chance(2) {
			a := pickOf(g.r, groups)
			tr.PID, tr.P1, tr.P2, tr.P3 = a.Identify(), uint32(g.index(size(a))), uint32(g.index(size(a))), uint32(g.index(size(a)))
		}
		o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, tr)
	}
}

func (g *conform) lattice(o *go3mf.Object, clip []*go3mf.Object) {
	bl := &beamlattice.BeamLattice{MinLength: 0.125, Radius: float32(1+g.r.Intn(9)) / 4, ClipMode: beamlattice.ClipMode(g.n(0, 2)), CapMode: beamlattice.CapMode(g.n(0, 2))}
	bl.ClippingMeshID = pickOf(g.r, clip).ID
	if g.chance(2) {
		bl.RepresentationMeshID = pickOf(g.r, clip).ID
	}
	nv := len(o.Mesh.Vertices.Vertex)
	for k := g.n(0, 5); k > 0; k-- {
		p := g.r.Perm(nv)
		b := beamlattice.Beam{Indices: [2]uint32{uint32(p[0]), uint32(p[1])}}
		switch g.r.Intn(3) {
		case 0:
			b.Radius = [2]float32{bl.Radius, bl.Radius}
		case 1:
			b.Radius = [2]float32{0.75, 0.75}
		}
		if g.chance(3) {
			b.Indices[g.r.Intn(2)] = uint32(nv - 1)
			if b.Indices[0] == b.Indices[1] {
				b.Indices = [2]uint32{0, uint32(nv - 1)}
			}
		}
		bl.Beams.Beam = append(bl.Beams.Beam, b)
	}
	if nb := len(bl.Beams.Beam); nb > 0 {
		for k := g.n(0, 3); k > 0; k-- {
			s := beamlattice.BeamSet{Name: "set"}
			for j := g.n(0, 3); j > 0; j-- {
				s.Refs = append(s.Refs, uint32(g.index(nb)))
			}
			bl.BeamSets.BeamSet = append(bl.BeamSets.BeamSet, s)
		}
	}
	o.Mesh.Any = append(o.Mesh.Any, bl)
	if g.chance(3) { // no triangles needed
		o.Mesh.Triangles.Triangle = o.Mesh.Triangles.Triangle[:g.r.Intn(len(o.Mesh.Triangles.Triangle)+1)]
	}
}

type placed struct {
	part string
	o    *go3mf.Object
}

// conformant draws a model that respects every rule. all declares every extension.
func conformant(r *rand.Rand, all bool) *conform {
	g := &conform{r: r, m: new(go3mf.Model), declared: map[string]bool{}, ids: map[string]uint32{}, shapes: map[string]int{}}
	m := g.m
	m.Path = []string{"", "/3D/3dmodel.model", "/root.model"}[r.Intn(3)]
	for _, e := range []go3mf.Extension{materials.DefaultExtension, production.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension, {Namespace: nsVendor2, LocalName: "vv"}} {
		if all || r.Intn(3) > 0 {
			if e.Namespace != nsVendor2 {
				e.IsRequired = g.chance(2)
			}
			if e.Namespace == slices.Namespace && e.IsRequired {
				g.lowres = true
			}
			g.declared[e.Namespace] = true
			m.Extensions = append(m.Extensions, e)
		}
	}
	if !g.declared[slices.Namespace] {
		g.lowres = true // nobody checks
	}
	if g.chance(3) { // the prefixes are only names
		r.Shuffle(len(m.Extensions), func(i, j int) {
			m.Extensions[i].LocalName, m.Extensions[j].LocalName = m.Extensions[j].LocalName, m.Extensions[i].LocalName
		})
	}
	r.Shuffle(len(m.Extensions), func(i, j int) { m.Extensions[i], m.Extensions[j] = m.Extensions[j], m.Extensions[i] })

	// parts, in the order they may refer to each other
	parts := []string{"/3D/c1.model", "/3D/sub/c2.model"}[:g.n(0, 2)]
	res := map[string]*go3mf.Resources{"": &m.Resources}
	for _, p := range parts {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[p] = new(go3mf.ChildModel)
		res[p] = &m.Childs[p].Resources
	}
	parts = append(parts, "")

	// attachments and relationships
	var textures []string
	rels := func(p string) *[]go3mf.Relationship {
		switch p {
		case "package":
			return &m.RootRelationships
		case "":
			return &m.Relationships
		}
		return &m.Childs[p].Relationships
	}
	for k := g.n(0, 4); k > 0; k-- {
		a := go3mf.Attachment{ContentType: "image/png", Path: fmt.Sprintf("/3D/Textures/t%d.png", k)}
		typ := pickOf(r, []string{"http://schemas.microsoft.com/3dmanufacturing/2013/01/3dtexture", relMustKeep, "http://vendor.example/rel"})
		if g.chance(4) {
			a = go3mf.Attachment{ContentType: ctPrintTicket, Path: fmt.Sprintf("/3D/Metadata/pt%d.xml", k)}
			typ = relTicket
		} else {
			textures = append(textures, a.Path)
		}
		m.Attachments = append(m.Attachments, a)
		owners := append([]string{"package"}, parts...)
		r.Shuffle(len(owners), func(i, j int) { owners[i], owners[j] = owners[j], owners[i] })
		linked := false
	owner:
		for _, p := range owners[:g.n(1, len(owners))] {
			rs := rels(p)
			if typ == relTicket {
				for _, x := range *rs {
					if x.Type == relTicket {
						continue owner
					}
				}
			}
			*rs = append(*rs, go3mf.Relationship{Path: a.Path, Type: typ})
			linked = true
			if g.chance(4) {
				*rs = append(*rs, go3mf.Relationship{Path: a.Path, Type: "http://vendor.example/other"})
			}
		}
		if !linked {
			rs := rels(owners[0])
			*rs = append(*rs, go3mf.Relationship{Path: a.Path, Type: "http://vendor.example/other"})
		}
	}

	stacks := map[string][]*slices.SliceStack{}
	var all_ []placed
	sliced := map[*go3mf.Object]bool{}
	for _, p := range parts {
		rs := res[p]
		g.assets(p, rs, stacks, textures)
		var mine []placed
		var clip []*go3mf.Object
		for k := g.n(0, 5); k > 0; k-- {
			o := &go3mf.Object{ID: g.id(p), Type: go3mf.ObjectType(r.Intn(5))}
			o.Metadata.Metadata = g.metadata(2)
			if g.chance(2) {
				o.Type = go3mf.ObjectTypeModel
			}
			if g.declared[production.Namespace] {
				o.AnyAttr = append(o.AnyAttr, &production.ObjectAttr{UUID: g.uuid()})
			} else if !all && g.chance(3) {
				o.AnyAttr = append(o.AnyAttr, &production.ObjectAttr{UUID: "?"})
			}
			solid := o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport
			var targets []placed
			targets = append(targets, mine...)
			if p == "" {
				for _, x := range all_ {
					if x.part != "" {
						targets = append(targets, x)
					}
				}
			}
			if len(targets) > 0 && g.chance(3) {
				o.Components = new(go3mf.Components)
				for j := g.n(1, 4); j > 0; j-- {
					to := pickOf(r, targets)
					if to.part != p && to.o.ID > o.ID && g.chance(2) { // the identifier of what it contains
						o.ID, g.ids[p] = to.o.ID, to.o.ID
					}
					c := &go3mf.Component{ObjectID: to.o.ID, Transform: g.transform(sliced[to.o])}
					if sliced[to.o] {
						sliced[o] = true
					}
					path := ""
					if to.part != p {
						path = to.part
					} else if p == "" && g.chance(6) && g.declared[production.Namespace] {
						path = m.PathOrDefault()
					}
					if g.declared[production.Namespace] || path != "" {
						a := &production.ComponentAttr{Path: path}
						if g.declared[production.Namespace] {
							a.UUID = g.uuid()
						}
						c.AnyAttr = append(c.AnyAttr, a)
					}
					o.Components.Component = append(o.Components.Component, c)
				}
				g.shapes["components"]++
			} else {
				g.mesh(o, rs)
				if solid && len(clip) > 0 && g.chance(3) {
					g.lattice(o, clip)
					g.shapes["lattice"]++
				} else if o.Type == go3mf.ObjectTypeModel {
					clip = append(clip, o)
				}
			}
			if ss := assetsOf[*slices.SliceStack](rs); len(ss) > 0 && g.chance(2) {
				a := &slices.ObjectAttr{SliceStackID: pickOf(r, ss).ID}
				if g.lowres && g.chance(2) {
					a.MeshResolution = slices.ResolutionLow
				}
				o.AnyAttr = append(o.AnyAttr, a)
				sliced[o] = true
				g.shapes["sliced"]++
			}
			rs.Objects = append(rs.Objects, o)
			mine = append(mine, placed{p, o})
		}
		all_ = append(all_, mine...)
	}
	// the polygons only have to be closed for some types
	for _, p := range parts {
		for _, st := range stacks[p] {
			if g.chance(2) && !usedBySolid(m, res, p, st) {
				for i := range st.Slices {
					for j := range st.Slices[i].Polygons {
						st.Slices[i].Polygons[j].StartV = uint32(r.Intn(len(st.Slices[i].Vertices.Vertex)))
					}
				}
			}
		}
	}

	// build
	if g.declared[production.Namespace] {
		m.Build.AnyAttr = append(m.Build.AnyAttr, &production.BuildAttr{UUID: g.uuid()})
	}
	if len(all_) > 0 {
		for k := g.n(0, 5); k > 0; k-- {
			to := pickOf(r, all_)
			if to.o.Type == go3mf.ObjectTypeOther {
				continue
			}
			it := &go3mf.Item{ObjectID: to.o.ID, Transform: g.transform(sliced[to.o])}
			it.Metadata.Metadata = g.metadata(2)
			path := to.part
			if path == "" && g.chance(6) && g.declared[production.Namespace] {
				path = m.PathOrDefault()
			}
			if g.declared[production.Namespace] || path != "" {
				a := &production.ItemAttr{Path: path}
				if g.declared[production.Namespace] {
					a.UUID = g.uuid()
				}
				it.AnyAttr = append(it.AnyAttr, a)
			}
			m.Build.Items = append(m.Build.Items, it)
			if g.chance(8) { // the same item, or another one with the same attributes
				if g.chance(2) {
					x := *it
					it = &x
				}
				m.Build.Items = append(m.Build.Items, it)
			}
		}
	}
	m.Metadata = g.metadata(5)
	return g
}

func usedBySolid(m *go3mf.Model, res map[string]*go3mf.Resources, part string, st *slices.SliceStack) bool {
	for p, rs := range res {
		for _, o := range rs.Objects {
			a := slices.GetObjectAttr(o)
			if a == nil || (o.Type != go3mf.ObjectTypeModel && o.Type != go3mf.ObjectTypeSolidSupport) {
				continue
			}
			for _, x := range assetsOf[*slices.SliceStack](rs) {
				if x.ID != a.SliceStackID {
					continue
				}
				if x == st {
					return true
				}
				for _, ref := range x.Refs {
					if ref.Path == part && ref.SliceStackID == st.ID {
						return true
					}
				}
			}
			_ = p
		}
	}
	return false
}

// ---------- damage ----------

type siteField struct {
	name string
	i    int
}

var siteCache = map[reflect.Type][]siteField{}

// irrelevant fields: no rule depends on them.
var irrelevant = map[string]bool{"Attachment.Stream": true, "Model.Any": true, "Model.AnyAttr": true, "ChildModel.Any": true,
	"Model.Language": true, "Model.Units": true, "Model.Thumbnail": true, "Extension.LocalName": true, "Object.Name": true, "Object.PartNumber": true,
	"Object.Thumbnail": true, "Item.PartNumber": true, "Metadata.Value": true, "Metadata.Type": true, "Metadata.Preserve": true,
	"Relationship.ID": true, "BeamSet.Name": true, "BeamSet.Identifier": true, "Texture2D.Filter": true, "Texture2D.TileStyleV": true,
	"Texture2D.TileStyleU": true, "Beam.CapMode": true, "BeamLattice.CapMode": true, "Base.AnyAttr": true, "BaseMaterials.AnyAttr": true,
	"Components.AnyAttr": true, "MetadataGroup.AnyAttr": true, "Mesh.AnyAttr": true, "Vertices.AnyAttr": true, "Triangles.AnyAttr": true,
	"Triangle.AnyAttr": true, "Resources.AnyAttr": true, "Segment.PID": true, "Segment.P1": true, "Segment.P2": true}

// siteFields runs in one goroutine.
func siteFields(t reflect.Type) []siteField {
	fs, ok := siteCache[t]
	if !ok && t != reflect.TypeOf(color.RGBA{}) {
		for i := 0; i < t.NumField(); i++ {
			name := t.Name() + "." + t.Field(i).Name
			if t.Field(i).IsExported() && !irrelevant[name] {
				fs = append(fs, siteField{name, i})
			}
		}
		siteCache[t] = fs
	}
	return fs
}

// site is a settable place of a model, with the name of its field.
type site struct {
	name string
	v    reflect.Value
}

var subNames = map[string]string{}

func elemName(name string) string {
	sub, ok := subNames[name]
	if !ok {
		sub = name + "[]"
		subNames[name] = sub
	}
	return sub
}

func sitesOf(m *go3mf.Model) []site {
	var out []site
	var walk func(name string, v reflect.Value)
	walk = func(name string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				if v.CanSet() && v.Elem().Kind() == reflect.Struct && (name == "Object.Mesh" || name == "Object.Components") {
					out = append(out, site{name, v})
				}
				walk(name, v.Elem())
			} else if v.CanSet() && (name == "Object.Mesh" || name == "Object.Components") {
				out = append(out, site{name, v})
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(name, v.Elem())
			}
		case reflect.Map:
			for _, k := range sortedKeys(m.Childs) {
				walk(name, reflect.ValueOf(m.Childs[k]))
			}
		case reflect.Slice:
			if v.CanSet() {
				out = append(out, site{name, v})
			}
			sub := elemName(name)
			for i := 0; i < v.Len(); i++ {
				walk(sub, v.Index(i))
			}
		case reflect.Array:
			sub := elemName(name)
			for i := 0; i < v.Len(); i++ {
				walk(sub, v.Index(i))
			}
		case reflect.Struct:
			for _, f := range siteFields(v.Type()) {
				walk(f.name, v.Field(f.i))
			}
		default:
			if v.CanSet() {
				out = append(out, site{name, v})
			}
		}
	}
	walk("Model", reflect.ValueOf(m))
	return out
}

var extensionSites = regexpNames("SliceStack.", "Slice.", "SliceRef.", "Polygon.", "Segment.", "Texture2D.", "Texture2DGroup.", "ColorGroup.", "CompositeMaterials.", "Composite.", "MultiProperties.", "Multi.", "BeamLattice.", "Beams.", "Beam.", "BeamSets.", "BeamSet.", "ObjectAttr.", "ItemAttr.", "ComponentAttr.", "BuildAttr.", "Item.Transform[]", "Component.Transform[]", "Build.AnyAttr", "Item.AnyAttr", "Object.AnyAttr", "Component.AnyAttr", "Mesh.Any", "Object.Type", "Extension.IsRequired", "Extension.Namespace", "Model.Extensions")

func regexpNames(ps ...string) func(string) bool {
	known := map[string]bool{}
	return func(s string) bool {
		if yes, ok := known[s]; ok {
			return yes
		}
		known[s] = false
		for _, p := range ps {
			if strings.HasPrefix(s, p) {
				known[s] = true
			}
		}
		return known[s]
	}
}

// decorate fills what no rule depends on.
func decorate(r *rand.Rand, m *go3mf.Model, saved bool) {
	str := func() string { return pickOf(r, []string{"", "a", "any text", "é<&>", "title", "/none.png", "0"}) }
	var walk func(name string, v reflect.Value)
	fill := func(name string, v reflect.Value) {
		if r.Intn(3) > 0 || (saved && (strings.HasSuffix(name, ".Thumbnail") || name == "Relationship.ID")) {
			return
		}
		switch x := v.Addr().Interface().(type) {
		case *spec.AnyAttr:
			for k := 1 + r.Intn(2); k > 0; k-- {
				if !saved || k == 1 {
					*x = append(*x, &spec.UnknownAttrs{Space: nsVendor2, Attr: []xml.Attr{{Name: xml.Name{Space: nsVendor2, Local: "decor"}, Value: str()}}})
				}
			}
		case *spec.Any:
			*x = append(*x, &spec.UnknownTokens{Token: []xml.Token{
				xml.StartElement{Name: xml.Name{Space: nsVendor2, Local: "decor"}}, xml.EndElement{Name: xml.Name{Space: nsVendor2, Local: "decor"}}}})
		case *string:
			if name == "Model.Thumbnail" || name == "Extension.LocalName" {
				return
			}
			*x = str()
		case *bool:
			*x = !*x
		case *uint32:
			*x = []uint32{0, 1, 2, 1000, math.MaxUint32}[r.Intn(5)]
		}
	}
	walk = func(name string, v reflect.Value) {
		if irrelevant[name] && v.CanAddr() {
			fill(name, v)
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(name, v.Elem())
			}
		case reflect.Map:
			for _, k := range sortedKeys(m.Childs) {
				walk(name, reflect.ValueOf(m.Childs[k]))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(name, v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() {
					walk(v.Type().Name()+"."+f.Name, v.Field(i))
				}
			}
		}
	}
	walk("Model", reflect.ValueOf(m))
}

// harm changes one place of the model: first the kind of place is chosen, then the place.
func harm(r *rand.Rand, m *go3mf.Model, ok func(string) bool) string {
	sites := sitesOf(m)
	by := map[string][]site{}
	for _, s := range sites {
		if ok(s.name) {
			by[s.name] = append(by[s.name], s)
		}
	}
	if len(by) == 0 {
		return ""
	}
	name := pickOf(r, sortedKeys(by))
	if rare := []string{"SliceRef.Path", "SliceRef.SliceStackID", "MultiProperties.PIDs[]", "MultiProperties.PIDs", "Component.Transform[]", "Multi.PIndices[]"}; r.Intn(8) == 0 {
		if n := pickOf(r, rare); len(by[n]) > 0 {
			name = n
		}
	}
	s := pickOf(r, by[name])
	v := s.v
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Uint32:
		old := v.Uint()
		switch r.Intn(7) {
		case 0:
			v.SetUint(0)
		case 1, 2:
			v.SetUint(uint64(uint32(old + 1)))
		case 3:
			v.SetUint(uint64(uint32(old - 1)))
		case 4:
			v.SetUint([]uint64{math.MaxUint32, 1 << 31, 1000, 1<<31 - 1}[r.Intn(4)])
		default: // as another one: of the same field, or any
			from := by[name]
			if r.Intn(2) == 0 {
				from = nil
				for _, x := range sites {
					if x.v.Kind() == reflect.Uint32 && (strings.Contains(x.name, "ID") || strings.Contains(x.name, "PIndex")) {
						from = append(from, x)
					}
				}
			}
			if len(from) > 0 {
				v.SetUint(pickOf(r, from).v.Uint())
			}
		}
	case reflect.Uint8:
		max := map[string]int{"Texture2D.ContentType": 2, "Texture2D.TileStyleU": 3, "Texture2D.TileStyleV": 3, "Texture2D.Filter": 2, "MultiProperties.BlendMethods[]": 1, "ObjectAttr.MeshResolution": 1, "BeamLattice.ClipMode": 2, "BeamLattice.CapMode": 2, "Beam.CapMode[]": 2}[name]
		v.SetUint(uint64(r.Intn(max + 1)))
	case reflect.Int8:
		v.SetInt(int64(r.Intn(5)))
	case reflect.Float32:
		old := v.Float()
		switch r.Intn(6) {
		case 0:
			v.SetFloat(0)
		case 1:
			v.SetFloat(-old)
		case 2:
			v.SetFloat(float64(float32(old) + 0.25))
		case 3:
			v.SetFloat(float64(float32(old) - 0.25))
		case 4:
			v.SetFloat(pickOf(r, by[name]).v.Float())
		default:
			v.SetFloat(float64(r.Intn(100)) / 4)
		}
	case reflect.String:
		old := v.String()
		switch r.Intn(6) {
		case 0:
			v.SetString("")
		case 1:
			v.SetString(old + pickOf(r, []string{"x", "s", old, " "}))
		case 2:
			if i := r.Intn(len(old) + 1); r.Intn(2) == 0 {
				v.SetString(old[:i]) // the beginning
			} else if len(old) > 0 {
				v.SetString(old[1:])
			}
		case 3:
			v.SetString(strings.ToUpper(old))
		case 4:
			v.SetString(pickOf(r, by[name]).v.String())
			if strings.HasSuffix(name, ".Path") && r.Intn(2) == 0 {
				v.SetString(pickOf(r, append(sortedKeys(m.Childs), m.PathOrDefault())))
			}
		default:
			v.SetString(pickOf(r, []string{"/3D/.rels", "/3D/./a", "a.png", "/3D/c1.model", "/3D/3dmodel.model", "/3D/sub/c2.model", "/none.png", "title", "Title", relTicket, ctPrintTicket, nsVendor2, "issue", materials.Namespace, slices.Namespace}))
		}
		if badGray(v.String()) {
			v.SetString(old)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			v.Set(reflect.Zero(v.Type()))
		} else if name == "Object.Mesh" {
			v.Set(reflect.ValueOf(&go3mf.Mesh{}))
		} else {
			v.Set(reflect.ValueOf(&go3mf.Components{Component: []*go3mf.Component{{ObjectID: uint32(r.Intn(4))}}}))
		}
	case reflect.Slice:
		n := v.Len()
		if n == 0 {
			if v.Type().Elem().Kind() == reflect.Struct || v.Type().Elem().Kind() == reflect.Uint32 {
				v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem())))
			}
			break
		}
		fresh := reflect.MakeSlice(v.Type(), 0, n+1)
		i := r.Intn(n)
		switch r.Intn(5) {
		case 0: // nothing left
		case 1: // one less
			fresh = reflect.AppendSlice(fresh, v.Slice(0, i))
			fresh = reflect.AppendSlice(fresh, v.Slice(i+1, n))
		case 2: // one twice
			fresh = reflect.AppendSlice(fresh, v)
			e := v.Index(i)
			if e.Kind() != reflect.Interface { // not the same resource twice
				fresh = reflect.Append(fresh, deepCopy(e))
			}
		case 3: // two swapped
			fresh = reflect.AppendSlice(fresh, v)
			a, j := deepCopyShallow(fresh.Index(i)), r.Intn(n)
			fresh.Index(i).Set(fresh.Index(j))
			fresh.Index(j).Set(a)
		default: // only one left
			fresh = reflect.Append(fresh, v.Index(i))
		}
		v.Set(fresh)
	}
	return name
}

func deepCopyShallow(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// badGray excludes the part names that the rules implemented here do not settle.
func badGray(s string) bool {
	return strings.HasSuffix(s, "/") || strings.HasSuffix(s, ".") || strings.Contains(s, "//") && strings.HasPrefix(s, "/")
}

// ---------- checks ----------

func checkFindings(t *rapid.T, c *C, m *go3mf.Model, harmed []string) *refValidator {
	v := &refValidator{m: m}
	v.run()
	if v.gray != "" {
		c.Label("gray:" + v.gray)
		return nil
	}
	before := copyModel(m)
	before.Attachments = append([]go3mf.Attachment(nil), m.Attachments...)
	err := m.Validate()
	c.Eval()
	if d := exactDiff(before, m); d != "" {
		t.Fatalf("validation changed the model: %s", d)
	}
	if d := v.diff(findingsOf(err)); len(d) > 0 {
		t.Fatalf("validation is wrong (changed: %v):\n%s", harmed, strings.Join(d, "\n"))
	}
	if len(v.must) == 0 && len(v.may) == 0 && err != nil {
		t.Fatalf("a conformant model gives %v", err)
	}
	for f := range v.must {
		if i := strings.IndexAny(f.text, "'"); i >= 0 {
			c.Label("rule:" + f.text[i:])
		} else {
			c.Label("rule:" + clip(f.text, 60))
		}
	}
	return v
}

func checkHarmed(only func(string) bool, large bool) func(t *rapid.T, c *C) {
	return func(t *rapid.T, c *C) {
		r := drawRand(t, "seed")
		g := conformant(r, r.Intn(3) == 0)
		m := g.m
		var harmed []string
		if r.Intn(4) == 0 {
			decorate(r, m, false)
			c.Label("decorated")
		}
		if large {
			c.Label("large:" + growExactly(r, m))
		}
		k := pick(t, "changes", 1, 1, 1, 2, 3, 5, 9)
		hr := drawRand(t, "harm")
		for i := 0; i < k; i++ {
			if n := harm(hr, m, only); n != "" {
				harmed = append(harmed, n)
				c.Label("changed:" + n)
			}
		}
		v := checkFindings(t, c, m, harmed)
		if v == nil {
			return
		}
		if len(v.must) > 0 {
			var keys []string
			inChild := false
			for f, n := range v.must {
				keys = append(keys, fmt.Sprint(f, n))
				inChild = inChild || (f.part != "" && f.part != m.PathOrDefault())
			}
			sort.Strings(keys)
			c.NonTrivial([]byte(strings.Join(keys, "\n") + describe(m)))
			c.LabelIf(inChild, "in-child-part")
			c.LabelIf(len(keys) > 1, "several-findings")
			c.Sample(fmt.Sprintf("%s; changed %v: %v", describe(m), harmed, keys))
		}
	}
}

func checkConformant(t *rapid.T, c *C) {
	r := drawRand(t, "seed")
	g := conformant(r, true)
	m := g.m
	if r.Intn(3) == 0 {
		decorate(r, m, true)
		c.Label("decorated")
	}
	if err := m.Validate(); err != nil {
		t.Fatalf("a conformant model gives %v", err)
	}
	c.Eval()
	v := checkFindings(t, c, m, nil)
	if v == nil || len(v.must)+len(v.may) > 0 {
		t.Fatalf("harness: the generated model is not conformant: %v %v", v, v.must)
	}
	// the same after saving and loading; the prefix of vendor metadata is a known finding
	for _, mds := range metadataOf(m) {
		var kept []go3mf.Metadata // items may share theirs
		for _, md := range *mds {
			if md.Name.Space == "" {
				kept = append(kept, md)
			}
		}
		*mds = kept
	}
	for i := range m.Attachments {
		m.Attachments[i].Stream = strings.NewReader("x")
	}
	b, err := encodePkg(m, 4)
	if err != nil {
		t.Fatalf("saving a conformant model: %v", err)
	}
	got, err := decodePkg(b, true)
	if err != nil {
		t.Fatalf("loading a conformant model: %v", err)
	}
	if err := got.Validate(); err != nil {
		t.Fatalf("a conformant model gives after saving and loading %v", err)
	}
	c.Eval()
	if len(m.Resources.Objects) > 0 && len(m.Resources.Assets) > 0 {
		c.NonTrivial([]byte(exactDump(m)))
	}
	for s := range g.shapes {
		c.Label("has:" + s)
	}
	c.LabelIf(len(m.Childs) > 0, "has:childs")
	c.LabelIf(len(m.Attachments) > 0, "has:attachments")
	c.Sample(describe(m))
}

func metadataOf(m *go3mf.Model) []*[]go3mf.Metadata {
	out := []*[]go3mf.Metadata{&m.Metadata}
	for _, it := range m.Build.Items {
		out = append(out, &it.Metadata.Metadata)
	}
	m.WalkObjects(func(_ string, o *go3mf.Object) error {
		out = append(out, &o.Metadata.Metadata)
		return nil
	})
	return out
}

func init() {
	core := func(s string) bool { return true }
	register(&Sub{Prop: "P13", Name: "conformant", Rule: "models that respect every rule by construction, validated before and after saving and loading; non-trivial = the root has assets and objects", Quick: 4000, Thorough: 150000, Fn: checkConformant})
	register(&Sub{Prop: "P13", Name: "harmed", Rule: "conformant models with 1-9 places changed, against a reference validator; non-trivial = a rule is broken", Quick: 40000, Thorough: 2500000, Fn: checkHarmed(core, false)})
	register(&Sub{Prop: "P14", Name: "extensions", Rule: "conformant models with 1-9 places of extension content changed, against a reference validator; non-trivial = a rule is broken", Quick: 40000, Thorough: 2500000, Fn: checkHarmed(extensionSites, false)})
	register(&Sub{Prop: "P13", Name: "harmed-large", Rule: "as harmed, with a list enlarged by up to 400 elements before", Quick: 1500, Thorough: 100000, Fn: checkHarmed(core, true)})
	register(&Sub{Prop: "P14", Name: "extensions-large", Rule: "as extensions, with a list enlarged by up to 400 elements before", Quick: 1500, Thorough: 100000, Fn: checkHarmed(extensionSites, true)})
}
