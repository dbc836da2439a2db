package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

type tri [3]uint32

// closedShape returns the triangles of a closed oriented surface and its vertex count.
func closedShape(t *rapid.T) ([]tri, int) {
	switch drawInt(t, 0, 4, "shape") {
	case 0: // tetrahedron
		return []tri{{0, 1, 2}, {0, 3, 1}, {1, 3, 2}, {2, 3, 0}}, 4
	case 1: // bipyramid over a polygon
		n := drawInt(t, 3, 7, "gon")
		var ts []tri
		for i := 0; i < n; i++ {
			a, b := uint32(i), uint32((i+1)%n)
			ts = append(ts, tri{a, b, uint32(n)}, tri{b, a, uint32(n + 1)})
		}
		return ts, n + 2
	case 2: // torus grid
		w, h := drawInt(t, 3, 5, "w"), drawInt(t, 3, 5, "h")
		at := func(i, j int) uint32 { return uint32((i%w)*h + j%h) }
		var ts []tri
		for i := 0; i < w; i++ {
			for j := 0; j < h; j++ {
				ts = append(ts, tri{at(i, j), at(i+1, j), at(i+1, j+1)}, tri{at(i, j), at(i+1, j+1), at(i, j+1)})
			}
		}
		return ts, w * h
	case 3: // two shapes
		a, n := closedShape(t)
		b, m := closedShape(t)
		for _, x := range b {
			a = append(a, tri{x[0] + uint32(n), x[1] + uint32(n), x[2] + uint32(n)})
		}
		return a, n + m
	default: // a double sided triangle soup: every triangle with its reverse
		n := drawInt(t, 2, 5, "pairs")
		var ts []tri
		for i := 0; i < n; i++ {
			k := uint32(3 * i)
			ts = append(ts, tri{k, k + 1, k + 2}, tri{k + 2, k + 1, k})
		}
		return ts, 3 * n
	}
}

// drawMesh returns a mesh that is coherent or nearly so.
func drawMesh(t *rapid.T, label *string) *go3mf.Mesh {
	var ts []tri
	nv := 0
	*label = "closed"
	if oneIn(t, 4, "soup") {
		*label = "soup"
		nv = drawInt(t, 0, 6, "nv")
		for i, n := 0, drawInt(t, 0, 8, "nt"); i < n; i++ {
			ts = append(ts, tri{uint32(drawInt(t, 0, 4, "a")), uint32(drawInt(t, 0, 4, "b")), uint32(drawInt(t, 0, 4, "c"))})
		}
	} else {
		ts, nv = closedShape(t)
		// rotations and order do not matter
		for i := range ts {
			for k := drawInt(t, 0, 2, "rot"); k > 0; k-- {
				ts[i] = tri{ts[i][1], ts[i][2], ts[i][0]}
			}
		}
		if oneIn(t, 2, "shuffle") {
			ts = rapid.Permutation(ts).Draw(t, "order")
		}
		if oneIn(t, 3, "relabel") {
			off := pick(t, "offset", uint32(1), 1000, 1<<16, 1<<31, ^uint32(0)-200)
			for i := range ts {
				for k := range ts[i] {
					ts[i][k] += off
				}
			}
		}
		if oneIn(t, 3, "scatter") { // injective, but not once some of the bits are lost
			q, shift := uint32(drawInt(t, 1, 5, "q")), pick(t, "shift", 8, 16, 16, 20, 24)
			for i := range ts {
				for k, v := range ts[i] {
					ts[i][k] = v/q<<shift ^ v%q
				}
			}
		}
		if oneIn(t, 3, "mirror") {
			for i := range ts {
				ts[i] = tri{ts[i][1], ts[i][0], ts[i][2]}
			}
		}
		for k := pick(t, "faults", 0, 0, 1, 1, 2, 3); k > 0 && len(ts) > 0; k-- {
			i := drawInt(t, 0, len(ts)-1, "fault-at")
			switch drawInt(t, 0, 6, "fault") {
			case 0: // flip
				ts[i] = tri{ts[i][1], ts[i][0], ts[i][2]}
				*label = "flipped"
			case 1: // drop
				ts = append(ts[:i:i], ts[i+1:]...)
				*label = "hole"
			case 2: // repeat
				ts = append(ts, ts[i])
				*label = "repeated"
			case 3: // double sided fin
				ts = append(ts, tri{ts[i][1], ts[i][0], ts[i][2]})
				*label = "fin"
			case 4: // move a corner
				ts[i][drawInt(t, 0, 2, "corner")] = ts[drawInt(t, 0, len(ts)-1, "other")][drawInt(t, 0, 2, "ocorner")]
				*label = "moved"
			case 5: // join two vertices
				a, b := ts[i][0], ts[drawInt(t, 0, len(ts)-1, "other2")][1]
				for x := range ts {
					for y := range ts[x] {
						if ts[x][y] == b {
							ts[x][y] = a
						}
					}
				}
				*label = "joined"
			default: // second reversed copy closes every edge twice
				ts = append(ts, ts[i], tri{ts[i][1], ts[i][0], ts[i][2]})
				*label = "doubled"
			}
		}
		if oneIn(t, 8, "few-vertices") {
			nv = drawInt(t, 0, 4, "nv2")
		}
	}
	m := &go3mf.Mesh{}
	for i := 0; i < nv; i++ {
		m.Vertices.Vertex = append(m.Vertices.Vertex, go3mf.Point3D{float32(i), float32(i * i), 1})
	}
	for _, x := range ts {
		m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: x[0], V2: x[1], V3: x[2]})
	}
	return m
}

// coherent is the reference: it returns the errors that may be reported, none when the mesh is fine.
func coherent(m *go3mf.Mesh) []error {
	var errs []error
	if len(m.Vertices.Vertex) < 3 {
		errs = append(errs, specerr.ErrInsufficientVertices)
	}
	if len(m.Triangles.Triangle) < 4 {
		errs = append(errs, specerr.ErrInsufficientTriangles)
	}
	type edge struct{ a, b uint32 }
	uses := map[edge][]int{} // directed edge -> triangles
	for i, f := range m.Triangles.Triangle {
		for _, e := range []edge{{f.V1, f.V2}, {f.V2, f.V3}, {f.V3, f.V1}} {
			uses[e] = append(uses[e], i)
		}
	}
	for e, u := range uses {
		back := uses[edge{e.b, e.a}]
		if e.a == e.b || len(u) != 1 || len(back) != 1 || u[0] == back[0] {
			errs = append(errs, specerr.ErrMeshConsistency)
			break
		}
	}
	return errs
}

func oneOf(err error, want []error) bool {
	for _, w := range want {
		if errors.Is(err, w) {
			return true
		}
	}
	return false
}

func meshKey(m *go3mf.Mesh) string {
	var b strings.Builder
	fmt.Fprint(&b, len(m.Vertices.Vertex), ":")
	for _, f := range m.Triangles.Triangle {
		fmt.Fprintf(&b, " %d,%d,%d", f.V1, f.V2, f.V3)
	}
	return b.String()
}

func checkMeshCoherency(t *rapid.T, c *C) {
	var label string
	m := drawMesh(t, &label)
	want := coherent(m)
	c.Eval()
	err := m.ValidateCoherency()
	if len(want) == 0 && err != nil {
		t.Fatalf("a coherent mesh is rejected: %v\n%s", err, meshKey(m))
	}
	if len(want) > 0 && (err == nil || !oneOf(err, want)) {
		t.Fatalf("got %v, want one of %v\n%s", err, want, meshKey(m))
	}
	c.Label("mesh:" + label)
	c.LabelIf(len(want) == 0, "coherent")
	if len(m.Triangles.Triangle) >= 4 && len(m.Vertices.Vertex) >= 3 {
		c.NonTrivial([]byte(meshKey(m)))
	}
	c.Sample(meshKey(m))
}

// checkLargeMesh: meshes of thousands of triangles, edges used hundreds of times.
func checkLargeMesh(t *rapid.T, c *C) {
	r := drawRand(t, "seed")
	w, h := 3+r.Intn(60), 3+r.Intn(60)
	if oneIn(t, 8, "huge") {
		w, h = 258+r.Intn(20), 258+r.Intn(20)
	}
	off := pick(t, "offset", uint32(0), 1, 250, 1<<15, 1<<16-5, 1<<31, ^uint32(0)-80000)
	perm := r.Perm(w * h)
	at := func(i, j int) uint32 { return uint32(perm[(i%w)*h+j%h]) + off }
	m := &go3mf.Mesh{}
	m.Vertices.Vertex = make([]go3mf.Point3D, w*h)
	add := func(a, b, c uint32) {
		m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: a, V2: b, V3: c})
	}
	for i := 0; i < w; i++ {
		for j := 0; j < h; j++ {
			add(at(i, j), at(i+1, j), at(i+1, j+1))
			add(at(i, j), at(i+1, j+1), at(i, j+1))
		}
	}
	label := "closed"
	ts := func() []go3mf.Triangle { return m.Triangles.Triangle }
	fault := r.Intn(len(ts()))
	switch drawInt(t, 0, 6, "fault") {
	case 0:
		ts()[fault].V1, ts()[fault].V2 = ts()[fault].V2, ts()[fault].V1
		label = "flipped"
	case 1:
		m.Triangles.Triangle = append(ts()[:fault:fault], ts()[fault+1:]...)
		label = "hole"
	case 2:
		ts()[fault].V3 = ts()[r.Intn(len(ts()))].V1
		label = "moved"
	case 3, 4: // so many uses of an edge that a narrow counter is back where it began
		n := pick(t, "times", 1, 127, 128, 255, 256, 256, 257, 512, 65535, 65536, 65536)
		x := ts()[fault]
		both := drawBool(t, "both")
		for i := 0; i < n; i++ {
			add(x.V1, x.V2, x.V3)
			if both {
				add(x.V2, x.V1, x.V3)
			}
		}
		label = fmt.Sprintf("repeated-%d", n)
	}
	r.Shuffle(len(ts()), func(i, j int) { ts()[i], ts()[j] = ts()[j], ts()[i] })
	key := fmt.Sprintf("%d x %d from %d, %s, fault %d", w, h, off, label, fault)
	c.Begin("mesh", []byte(key))
	c.Eval()
	want, err := coherent(m), m.ValidateCoherency()
	if len(want) == 0 && err != nil {
		t.Fatalf("a coherent mesh is rejected: %v\n%s", err, key)
	}
	if len(want) > 0 && (err == nil || !oneOf(err, want)) {
		t.Fatalf("got %v, want one of %v\n%s", err, want, key)
	}
	c.Label("mesh:" + label)
	c.NonTrivial([]byte(key))
	c.Sample(key)
}

func checkModelCoherency(t *rapid.T, c *C) {
	m := &go3mf.Model{Path: pick(t, "rootpath", "", "", "/root.model")}
	type want struct {
		path, xpath string
		errs        []error
	}
	var wants []want
	solids, n := 0, 0
	var keys strings.Builder
	fill := func(path string) []*go3mf.Object {
		var out []*go3mf.Object
		for i, k := 0, drawMany(t, 5, 120, 50, "nobj"); i < k; i++ {
			o := &go3mf.Object{ID: uint32(i + 1), Type: go3mf.ObjectType(drawInt(t, 0, 4, "type"))}
			n++
			switch drawInt(t, 0, 6, "content") {
			case 0:
				o.Components = &go3mf.Components{}
			case 1: // nothing
			default:
				var l string
				o.Mesh = drawMesh(t, &l)
				if oneIn(t, 4, "adorned") { // with things that do not matter
					switch drawInt(t, 0, 4, "adornment") {
					case 0:
						o.Components = &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}
					case 1:
						o.Mesh.Any = append(o.Mesh.Any, &beamlattice.BeamLattice{Radius: 1, MinLength: 1})
					case 2:
						o.Mesh.Any = append(o.Mesh.Any, &spec.UnknownTokens{})
						o.Mesh.AnyAttr = append(o.Mesh.AnyAttr, &spec.UnknownAttrs{Space: nsVendor2})
					case 3:
						o.Name, o.PartNumber, o.Thumbnail, o.PID, o.PIndex = "n", "p", "/t.png", 5, 1
						o.Metadata.Metadata = append(o.Metadata.Metadata, go3mf.Metadata{Name: xml.Name{Local: "Title"}})
					case 4:
						o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: 3, MeshResolution: slices.ResolutionLow})
					}
				}
				fmt.Fprintln(&keys, path, i, o.Type, meshKey(o.Mesh))
				if o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport {
					solids++
					if e := coherent(o.Mesh); len(e) > 0 {
						wants = append(wants, want{path, fmt.Sprintf("/model/resources/object[%d]/mesh", i), e})
					}
				}
			}
			out = append(out, o)
		}
		return out
	}
	m.Resources.Objects = fill("")
	for i, k := 0, drawMany(t, 3, 80, 100, "nchild"); i < k; i++ {
		p := fmt.Sprintf("/3D/c%d.model", i)
		if i == 0 && m.Path != "" {
			p = go3mf.DefaultModelPath
		}
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[p] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: fill(p)}}
	}
	c.Eval()
	err := m.ValidateCoherency()
	var got []error
	if l, ok := err.(*specerr.List); ok {
		got = l.Errors
	} else if err != nil {
		got = []error{err}
	}
	if len(got) != len(wants) {
		t.Fatalf("%d errors, want %d: %v\nwant %v", len(got), len(wants), err, wants)
	}
	key := func(p, x string) string { return p + " " + x }
	rest := map[string][]error{}
	for _, w := range wants {
		rest[key(w.path, w.xpath)] = w.errs
	}
	for _, g := range got {
		e, ok := g.(*specerr.Error)
		if !ok {
			t.Fatalf("unexpected error %T %v", g, g)
		}
		w, ok := rest[key(e.Path, e.XPath())]
		if !ok {
			var ks []string
			for k := range rest {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			t.Fatalf("unexpected or repeated location %q %q, still expected: %v", e.Path, e.XPath(), ks)
		}
		if !oneOf(e, w) {
			t.Fatalf("%v is none of %v", e, w)
		}
		delete(rest, key(e.Path, e.XPath()))
	}
	c.LabelIf(len(wants) == 0 && solids > 0, "all-coherent")
	c.LabelIf(len(m.Childs) > 0, "has:childs")
	c.LabelIf(len(m.Childs) > 20, "has:many-childs")
	c.LabelIf(n > 40, "has:many-objects")
	c.LabelIf(len(wants) > 32, "many-failing")
	if solids > 1 && len(wants) > 0 {
		c.NonTrivial([]byte(keys.String()))
	}
	c.Sample(fmt.Sprintf("%d objects, %d solid, %d failing", n, solids, len(wants)))
}

func init() {
	register(&Sub{Prop: "P16", Name: "mesh", Rule: "closed oriented surfaces (tetrahedra, bipyramids, tori, unions, double sided triangles) rotated, shuffled, relabelled and damaged in up to three places, or random triangles over five vertices, against an edge-by-edge reference; non-trivial = enough vertices and triangles to reach the edge test", Quick: 60000, Thorough: 2500000, Fn: checkMeshCoherency})
	register(&Sub{Prop: "P16", Name: "large", Rule: "closed meshes of up to 150000 triangles with vertices in any order, undamaged, with one damaged triangle, or with edges used up to 65537 times", Quick: 250, Thorough: 10000, Fn: checkLargeMesh})
	register(&Sub{Prop: "P16", Name: "model", Rule: "models with objects of every type in up to four parts; non-trivial = several solid meshes of which at least one fails", Quick: 6000, Thorough: 250000, Fn: checkModelCoherency})
	register(&Sub{Prop: "P16", Name: "model-race", Race: true, Rule: "as model, under the race detector", Quick: 300, Thorough: 10000, Fn: checkModelCoherency})
}
