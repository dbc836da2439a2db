package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
	"pgregory.net/rapid"
)

// useEverything calls every operation on a model; the time and memory are bounded by the
// watchdog, crashes by the frame. It returns what is wrong besides that.
func useEverything(m *go3mf.Model, r *rand.Rand) string {
	before := copyModel(m)
	natt := len(m.Attachments)
	var problem string
	same := func(op string) {
		if problem != "" {
			return
		}
		if d := exactDiff(before, m); d != "" {
			problem = op + " changed the model:\n" + d
		}
		if len(m.Attachments) != natt {
			problem = op + " changed the attachments"
		}
	}
	err := m.Validate()
	if err != nil && err.Error() == "" {
		problem = "an error without a text"
	}
	for _, e := range flatten(err) {
		if e == nil {
			problem = "Validate returns a list with a nil error"
		}
	}
	same("Validate")
	if a, b := fmt.Sprint(err), fmt.Sprint(m.Validate()); a != b {
		problem = fmt.Sprintf("Validate says first\n%s\nthen\n%s", a, b)
	}
	if err := m.ValidateCoherency(); err != nil && err.Error() == "" {
		problem = "an error without a text"
	}
	same("ValidateCoherency")
	m.BoundingBox()
	same("BoundingBox")
	n := 0
	paths := []string{"", "/3D/3dmodel.model", "3D/3dmodel.model", "/nope.model", m.Path, m.PathOrDefault()}
	ids := []uint32{0, 1, 2, math.MaxUint32}
	visit := func(p string, id uint32) {
		n++
		if n < 200 {
			paths, ids = append(paths, p), append(ids, id)
		}
	}
	if err := m.WalkObjects(func(p string, o *go3mf.Object) error {
		visit(p, o.ID)
		_ = o.Type.String()
		if o.Mesh != nil {
			o.Mesh.BoundingBox()
			_ = o.Mesh.ValidateCoherency()
			beamlattice.GetBeamLattice(o.Mesh)
		}
		production.GetObjectAttr(o)
		slices.GetObjectAttr(o)
		if o.Components != nil {
			for _, k := range o.Components.Component {
				k.HasTransform()
				visit(k.ObjectPath(p), k.ObjectID)
				production.GetComponentAttr(k)
			}
		}
		if _, ok := m.FindResources(p); !ok {
			problem = fmt.Sprintf("an object is walked in %q, which is not found", p)
		} else if err := o.Validate(m, p); err != nil && err.Error() == "" {
			problem = "an error without a text"
		}
		return nil
	}); err != nil {
		problem = fmt.Sprintf("WalkObjects makes up an error: %v", err)
	}
	if err := m.WalkAssets(func(p string, a go3mf.Asset) error {
		visit(p, a.Identify())
		if g, ok := a.(spec.PropertyGroup); ok {
			g.Len()
		}
		_ = a.XMLName()
		return nil
	}); err != nil {
		problem = fmt.Sprintf("WalkAssets makes up an error: %v", err)
	}
	for _, it := range m.Build.Items {
		it.HasTransform()
		visit(it.ObjectPath(), it.ObjectID)
		production.GetItemAttr(it)
	}
	production.GetBuildAttr(&m.Build)
	for i := 0; i < 30; i++ {
		p, id := paths[r.Intn(len(paths))], ids[r.Intn(len(ids))]
		res, ok := m.FindResources(p)
		if ok != (res != nil) {
			problem = fmt.Sprintf("FindResources(%q) is %v, %v", p, res, ok)
		}
		if o, found := m.FindObject(p, id); found && (o == nil || o.ID != id || !ok) {
			problem = fmt.Sprintf("FindObject(%q, %d) is %v", p, id, o)
		}
		if a, found := m.FindAsset(p, id); found && (a == nil || a.Identify() != id || !ok) {
			problem = fmt.Sprintf("FindAsset(%q, %d) is %v", p, id, a)
		}
	}
	if id := m.Resources.UnusedID(); id == 0 {
		problem = "UnusedID is zero"
	}
	same("looking up")
	_, _ = go3mf.MarshalModel(m)
	same("MarshalModel")
	var b bytes.Buffer
	saved := copyModel(m)
	saved.Attachments = m.Attachments
	err = go3mf.NewEncoder(&b).Encode(saved)
	if err == nil {
		back := new(go3mf.Model)
		d := go3mf.NewDecoder(bytes.NewReader(b.Bytes()), int64(b.Len()))
		d.Strict = r.Intn(2) == 0
		if err := d.Decode(back); err != nil && err.Error() == "" {
			problem = "an error without a text"
		}
	}
	production.SetMissingUUIDs(m)
	bu := production.GetBuildAttr(&m.Build)
	if bu == nil || uuid.Validate(bu.UUID) != nil && production.GetBuildAttr(&before.Build) == nil {
		problem = "the build has no UUID after SetMissingUUIDs"
	}
	_ = m.Validate()
	return problem
}

// drawGraph draws objects that contain each other in any way.
func drawGraph(t *rapid.T, c *C, tall bool) *go3mf.Model {
	r := drawRand(t, "seed")
	m := new(go3mf.Model)
	if r.Intn(2) == 0 {
		m.Path = []string{"/3D/3dmodel.model", "/3D/other.model", "/a"}[r.Intn(3)]
	}
	for _, ns := range []go3mf.Extension{materials.DefaultExtension, production.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension} {
		if r.Intn(3) > 0 {
			m.Extensions = append(m.Extensions, ns)
		}
	}
	paths := []string{"", "/3D/c1.model", "/3D/c2.model"}[:1+r.Intn(3)]
	shape := pick(t, "shape", "any", "any", "any", "ladder", "chain", "ring", "selves")
	if tall {
		shape = pick(t, "tall", "ladder", "ladder", "chain", "ring")
	}
	c.Label("graph:" + shape)
	type ref struct {
		path string
		id   uint32
		o    *go3mf.Object
	}
	var all []ref
	n := 1 + r.Intn(8)
	switch shape {
	case "ladder":
		n = 25 + r.Intn(50)
	case "chain":
		n = 50 + r.Intn(500)
	}
	if tall {
		n = 600 + r.Intn(1000)
		for _, e := range []go3mf.Extension{materials.DefaultExtension, production.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension} {
			m.Extensions = append(m.Extensions[:len(m.Extensions):len(m.Extensions)], e)
		}
	}
	next := map[string]uint32{}
	for i := 0; i < n; i++ {
		p := paths[r.Intn(len(paths))]
		next[p]++
		id := next[p]
		if shape == "any" && r.Intn(4) == 0 {
			id = uint32(r.Intn(4)) // repeated identifiers and zero
		}
		o := &go3mf.Object{ID: id, Type: go3mf.ObjectType(r.Intn(5))}
		all = append(all, ref{p, id, o})
		res := &m.Resources
		if p != "" {
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			if m.Childs[p] == nil {
				m.Childs[p] = new(go3mf.ChildModel)
			}
			res = &m.Childs[p].Resources
		}
		res.Objects = append(res.Objects, o)
	}
	mesh := func() *go3mf.Mesh {
		ms := new(go3mf.Mesh)
		for i, k := 0, r.Intn(5); i < k; i++ {
			ms.Vertices.Vertex = append(ms.Vertices.Vertex, go3mf.Point3D{float32(r.Intn(3)), float32(r.Intn(3)), float32(r.Intn(3))})
		}
		for i, k := 0, r.Intn(6); i < k; i++ {
			ms.Triangles.Triangle = append(ms.Triangles.Triangle, go3mf.Triangle{V1: uint32(r.Intn(6)), V2: uint32(r.Intn(6)), V3: uint32(r.Intn(6)), PID: uint32(r.Intn(3)), P1: uint32(r.Intn(3))})
		}
		return ms
	}
	link := func(from ref, to ref) {
		k := &go3mf.Component{ObjectID: to.id}
		if from.path != to.path || r.Intn(4) == 0 {
			p := to.path
			if p == "" && r.Intn(2) == 0 {
				p = m.PathOrDefault()
			}
			if r.Intn(20) == 0 {
				p = "/3D/missing.model"
			}
			k.AnyAttr = append(k.AnyAttr, &production.ComponentAttr{Path: p, UUID: []string{"", "x", uuid.New()}[r.Intn(3)]})
		}
		if r.Intn(3) == 0 {
			k.Transform = go3mf.Identity().Translate(1, 2, float32(r.Intn(3)))
		}
		if from.o.Components == nil {
			from.o.Components = new(go3mf.Components)
		}
		from.o.Components.Component = append(from.o.Components.Component, k)
	}
	cyclic := false
	for i, a := range all {
		switch shape {
		case "ladder": // every object twice or three times in the one before
			if i+1 < len(all) {
				for k := 2 + r.Intn(2); k > 0; k-- {
					link(a, all[i+1])
				}
			} else {
				a.o.Mesh = mesh()
			}
		case "chain":
			if i+1 < len(all) {
				link(a, all[i+1])
			} else {
				a.o.Mesh = mesh()
			}
		case "ring":
			link(a, all[(i+1)%len(all)])
			if r.Intn(3) == 0 {
				link(a, all[r.Intn(len(all))])
			}
			cyclic = true
		case "selves":
			link(a, a)
			link(a, all[r.Intn(len(all))])
			cyclic = true
		default:
			switch r.Intn(4) {
			case 0:
				a.o.Mesh = mesh()
			case 1:
			case 2:
				a.o.Mesh = mesh()
				fallthrough
			default:
				for k := r.Intn(4); k > 0; k-- {
					link(a, all[r.Intn(len(all))])
				}
				if r.Intn(4) == 0 {
					link(a, ref{a.path, uint32(r.Intn(20)), nil})
				}
				cyclic = true
			}
		}
		if r.Intn(4) == 0 {
			a.o.PID, a.o.PIndex = uint32(r.Intn(4)), uint32(r.Intn(3))
		}
		if r.Intn(6) == 0 || tall && i == 0 {
			a.o.AnyAttr = append(a.o.AnyAttr, &slices.ObjectAttr{SliceStackID: uint32(r.Intn(4)), MeshResolution: slices.MeshResolution(r.Intn(2))})
		}
		if a.o.Mesh != nil && r.Intn(5) == 0 {
			bl := &beamlattice.BeamLattice{ClipMode: beamlattice.ClipMode(r.Intn(3)), ClippingMeshID: uint32(r.Intn(4)), RepresentationMeshID: uint32(r.Intn(4))}
			for k := r.Intn(3); k > 0; k-- {
				bl.Beams.Beam = append(bl.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{uint32(r.Intn(6)), uint32(r.Intn(6))}})
			}
			for k := r.Intn(3); k > 0; k-- {
				bl.BeamSets.BeamSet = append(bl.BeamSets.BeamSet, beamlattice.BeamSet{Refs: []uint32{uint32(r.Intn(4))}})
			}
			a.o.Mesh.Any = append(a.o.Mesh.Any, bl)
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		st := &slices.SliceStack{ID: uint32(r.Intn(4))}
		for j := r.Intn(3); j > 0; j-- {
			st.Refs = append(st.Refs, slices.SliceRef{SliceStackID: uint32(r.Intn(4)), Path: []string{"", "/3D/c1.model", m.PathOrDefault(), "/nope"}[r.Intn(4)]})
		}
		for j := r.Intn(3); j > 0; j-- {
			s := slices.Slice{TopZ: float32(r.Intn(3))}
			for v := r.Intn(3); v > 0; v-- {
				s.Vertices.Vertex = append(s.Vertices.Vertex, go3mf.Point2D{1, float32(v)})
			}
			for v := r.Intn(3); v > 0; v-- {
				p := slices.Polygon{StartV: uint32(r.Intn(5))}
				for w := r.Intn(3); w > 0; w-- {
					p.Segments = append(p.Segments, slices.Segment{V2: uint32(r.Intn(5)), PID: uint32(r.Intn(3)), P1: uint32(r.Intn(3)), P2: uint32(r.Intn(3))})
				}
				s.Polygons = append(s.Polygons, p)
			}
			st.Slices = append(st.Slices, s)
		}
		m.Resources.Assets = append(m.Resources.Assets, st)
	}
	for k := r.Intn(4); k > 0; k-- {
		id := uint32(r.Intn(4))
		m.Resources.Assets = append(m.Resources.Assets, []go3mf.Asset{
			&materials.MultiProperties{ID: id, PIDs: []uint32{uint32(r.Intn(4)), uint32(r.Intn(4))}, Multis: []materials.Multi{{PIndices: []uint32{uint32(r.Intn(3)), 1, 2, 3}}, {}}},
			&materials.CompositeMaterials{ID: id, MaterialID: uint32(r.Intn(4)), Indices: []uint32{0, uint32(r.Intn(4))}},
			&materials.Texture2DGroup{ID: id, TextureID: uint32(r.Intn(4))},
			&go3mf.BaseMaterials{ID: id},
		}[r.Intn(4)])
	}
	for k := r.Intn(4); k > 0 || shape != "any" && len(m.Build.Items) == 0; k-- {
		to := all[r.Intn(len(all))]
		if shape != "any" && r.Intn(2) == 0 {
			to = all[0]
		}
		it := &go3mf.Item{ObjectID: to.id}
		if to.path != "" || r.Intn(4) == 0 {
			it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{Path: to.path, UUID: "x"})
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	c.LabelIf(cyclic, "graph:cyclic")
	return m
}

// derange changes random fields of a model to other values that a document could have given.
func derange(m *go3mf.Model, r *rand.Rand, edits int) {
	type place struct{ v reflect.Value }
	var places []place
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 30 || len(places) > 20000 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if v.CanSet() && (v.Type() == reflect.TypeOf(&go3mf.Mesh{}) || v.Type() == reflect.TypeOf(&go3mf.Components{})) {
				places = append(places, place{v})
			}
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.PkgPath == "" && f.Name != "Attachments" && f.Name != "XMLName" {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Slice:
			if v.CanSet() && v.Len() > 0 {
				places = append(places, place{v})
			}
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len() && i < 40; i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k), depth+1)
			}
		case reflect.Uint32, reflect.Float32, reflect.String:
			if v.CanSet() {
				places = append(places, place{v})
			}
		}
	}
	walk(reflect.ValueOf(m).Elem(), 0)
	for ; edits > 0 && len(places) > 0; edits-- {
		v := places[r.Intn(len(places))].v
		switch v.Kind() {
		case reflect.Uint32:
			v.SetUint(uint64([]uint32{0, 1, 2, 3, 5, 1 << 31, math.MaxUint32, uint32(r.Intn(20))}[r.Intn(8)]))
		case reflect.Float32:
			v.SetFloat([]float64{0, -1, math.MaxFloat32, math.Inf(1), math.NaN(), -math.MaxFloat32, 1e-38}[r.Intn(7)])
		case reflect.String:
			v.SetString([]string{"", "/3D/3dmodel.model", "/", "x", "..", "/nope", "\xff", "a b", strings.Repeat("z", 300), "/3D/c1.model"}[r.Intn(10)])
		case reflect.Ptr:
			v.Set(reflect.Zero(v.Type()))
		case reflect.Slice:
			n := v.Len()
			if n == 0 {
				break
			}
			switch r.Intn(4) {
			case 0:
				v.Set(reflect.Zero(v.Type()))
			case 1:
				v.Set(v.Slice3(0, r.Intn(n+1), n))
			case 2: // an element twice
				s := reflect.MakeSlice(v.Type(), 0, n+1)
				s = reflect.Append(reflect.AppendSlice(s, v), v.Index(r.Intn(n)))
				v.Set(s)
			default: // another order
				i, j := r.Intn(n), r.Intn(n)
				s := reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, n), v)
				a, b := reflect.New(v.Type().Elem()).Elem(), s.Index(j)
				a.Set(s.Index(i))
				s.Index(i).Set(b)
				b.Set(a)
				v.Set(s)
			}
		}
	}
	if r.Intn(6) == 0 && len(m.Childs) > 0 { // a part under another name, or none
		for _, p := range sortedChilds(m)[:1] {
			if ch := m.Childs[p]; r.Intn(2) == 0 {
				m.Childs[[]string{m.PathOrDefault(), "/x.model", ""}[r.Intn(3)]] = ch
			}
			delete(m.Childs, p)
		}
	}
}

func journalOf(m *go3mf.Model) []byte {
	return []byte(describe(m))
}

func runEverything(t *rapid.T, c *C, m *go3mf.Model, r *rand.Rand, how string) {
	d := describe(m)
	c.Eval()
	if p := useEverything(m, r); p != "" {
		t.Fatalf("%s\nmodel (%s): %s", p, how, clip(d, 3000))
	}
	c.End()
	if m.Resources.Objects != nil || len(m.Childs) > 0 || m.Resources.Assets != nil {
		c.NonTrivial([]byte(d))
	}
	c.Sample(how + ": " + d)
}

// checkCrowds: what documents that repeat a construct thousands of times decode to.
func checkCrowds(c *C) error {
	names := sortedKeys(families)
	for _, name := range names {
		doc := []byte(families[name](3000))
		c.Begin(name+".xml", doc)
		m := new(go3mf.Model)
		_ = go3mf.UnmarshalModel(doc, m)
		last, lastOp := cpuTime(), "UnmarshalModel"
		var err error
		done := func(op string) {
			c.Eval()
			now := cpuTime()
			if d := now - last; d > 5*time.Second && err == nil {
				err = fmt.Errorf("%s: %s takes %v after decoding %d bytes (and %s)", name, op, d, len(doc), lastOp)
			}
			last, lastOp = cpuTime(), op
		}
		_ = m.Validate()
		done("Validate")
		_ = m.ValidateCoherency()
		done("ValidateCoherency")
		m.BoundingBox()
		done("BoundingBox")
		_ = m.WalkObjects(func(string, *go3mf.Object) error { return nil })
		_ = m.WalkAssets(func(string, go3mf.Asset) error { return nil })
		m.Resources.UnusedID()
		done("UnusedID")
		_, _ = go3mf.MarshalModel(m)
		done("MarshalModel")
		_ = go3mf.NewEncoder(io.Discard).Encode(m)
		done("Encode")
		production.SetMissingUUIDs(m)
		done("SetMissingUUIDs")
		c.End()
		if err != nil {
			return err
		}
		c.NonTrivial([]byte(name))
	}
	c.Sample(strings.Join(names, "\n"))
	return nil
}

func init() {
	register(&Sub{Prop: "P15", Name: "crowds", Rule: "what the families of documents of P06 decode to when they repeat a construct 3000 times; every operation within five seconds of processor time; each family counts", Quick: 1, Thorough: 1, Direct: checkCrowds})
	register(&Sub{Prop: "P15", Name: "graphs", Rule: "objects in up to three parts that contain each other arbitrarily: ladders (2^70 paths), chains, rings, themselves, missing and repeated ones, with cross-referring assets; every operation runs, none may change the model except those that are asked to; non-trivial = not empty",
		Quick: 4000, Thorough: 300000, Fn: func(t *rapid.T, c *C) {
			m := drawGraph(t, c, false)
			c.Begin("model.txt", journalOf(m))
			runEverything(t, c, m, drawRand(t, "use"), "graph")
		}})
	register(&Sub{Prop: "P15", Name: "towers", Rule: "as graphs, with 600 to 1600 objects in ladders, chains and rings, the first one sliced and all extensions declared; non-trivial = not empty",
		Quick: 10, Thorough: 400, Fn: func(t *rapid.T, c *C) {
			m := drawGraph(t, c, true)
			c.Begin("model.txt", journalOf(m))
			runEverything(t, c, m, drawRand(t, "use"), "tower")
		}})
	register(&Sub{Prop: "P15", Name: "deranged", Rule: "random complete models with up to twelve fields changed to values a document could give: identifiers, indices, paths, numbers, lists shortened, repeated, exchanged; non-trivial = not empty",
		Quick: 3000, Thorough: 250000, Fn: func(t *rapid.T, c *C) {
			o := allOpts(-1)
			o.MaxObj = 4
			g := genModel(t, o)
			m := g.Model()
			r := drawRand(t, "seed")
			derange(m, r, drawInt(t, 1, 12, "edits"))
			c.Begin("model.txt", journalOf(m))
			runEverything(t, c, m, r, "deranged")
		}})
	register(&Sub{Prop: "P15", Name: "hostile-documents", Rule: "what the hostile documents and packages of P06 decode to, with or without errors; non-trivial = not empty",
		Quick: 6000, Thorough: 300000, Fn: func(t *rapid.T, c *C) {
			m := new(go3mf.Model)
			if drawBool(t, "document") {
				doc := drawHostileDoc(t, nil)
				c.Begin("model.xml", doc)
				_ = go3mf.UnmarshalModel(doc, m)
			} else {
				b := drawHostilePackage(t, nil)
				c.Begin("package.3mf", b)
				d := go3mf.NewDecoder(bytes.NewReader(b), int64(len(b)))
				d.Strict = false
				_ = d.Decode(m)
			}
			runEverything(t, c, m, drawRand(t, "use"), "decoded")
		}})
}
