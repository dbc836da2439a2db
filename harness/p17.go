package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

type mat64 [16]float64

func toMat64(m go3mf.Matrix) (o mat64) {
	if m == (go3mf.Matrix{}) { // no transform
		m = go3mf.Identity()
	}
	for i, v := range m {
		o[i] = float64(v)
	}
	return
}

func (m mat64) apply(v [3]float64) (o [3]float64) {
	for r := 0; r < 3; r++ {
		o[r] = m[r]*v[0] + m[4+r]*v[1] + m[8+r]*v[2] + m[12+r]
	}
	return
}

// axisAligned: every axis is mapped onto an axis.
func axisAligned(m go3mf.Matrix) bool {
	if m == (go3mf.Matrix{}) {
		return true
	}
	for r := 0; r < 3; r++ {
		k := 0
		for c := 0; c < 3; c++ {
			if m[4*c+r] != 0 {
				k++
			}
		}
		if k > 1 {
			return false
		}
	}
	return true
}

func drawTransform(t *rapid.T, general bool) go3mf.Matrix {
	small := func(l string) float32 {
		return pick(t, l, float32(0), 1, -1, 2, -3, 0.5, 10, -7.25, 100)
	}
	mv := func(m go3mf.Matrix) go3mf.Matrix { return m.Translate(small("tx"), small("ty"), small("tz")) }
	if general && oneIn(t, 4, "almost") { // one or two cells off
		m := go3mf.Identity()
		for i, n := 0, drawInt(t, 1, 2, "cells"); i < n; i++ {
			m[4*drawInt(t, 0, 3, "row")+drawInt(t, 0, 2, "column")] = small("cell")
		}
		return m
	}
	switch drawInt(t, 0, 7, "transform") {
	case 0:
		return go3mf.Matrix{}
	case 1:
		return go3mf.Identity()
	case 2:
		return mv(go3mf.Identity())
	case 3: // scale and mirror
		m := go3mf.Identity()
		for _, i := range []int{0, 5, 10} {
			m[i] = pick(t, "scale", float32(1), 2, -1, 0.5, -3, 0)
		}
		return mv(m)
	case 4, 5: // right angles
		p := rapid.Permutation([]int{0, 1, 2}).Draw(t, "axes")
		var m go3mf.Matrix
		m[15] = 1
		for i, j := range p {
			m[4*i+j] = pick(t, "sign", float32(1), -1, 2)
		}
		return mv(m)
	default:
		if !general {
			return mv(go3mf.Identity())
		}
		var m go3mf.Matrix
		m[15] = 1
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				m[4*i+j] = pick(t, "cell", float32(0), 1, -1, 0.5, -0.25, 2)
			}
		}
		return mv(m)
	}
}

type boxRef struct {
	m     *go3mf.Model
	lo    [3]float64
	hi    [3]float64
	n     int
	exact bool
	depth int
}

func (b *boxRef) find(path string, id uint32) *go3mf.Object {
	rs := &b.m.Resources
	if path != "" && path != b.m.PathOrDefault() {
		ch, ok := b.m.Childs[path]
		if !ok {
			return nil
		}
		rs = &ch.Resources
	}
	for _, o := range rs.Objects {
		if o.ID == id {
			return o
		}
	}
	return nil
}

func (b *boxRef) walk(path string, id uint32, ms []mat64, depth int) {
	o := b.find(path, id)
	if o == nil {
		return
	}
	if depth > b.depth {
		b.depth = depth
	}
	if o.Mesh != nil {
		for _, v := range o.Mesh.Vertices.Vertex {
			p := [3]float64{float64(v[0]), float64(v[1]), float64(v[2])}
			for i := len(ms) - 1; i >= 0; i-- {
				p = ms[i].apply(p)
			}
			for i := range p {
				if b.n == 0 || p[i] < b.lo[i] {
					b.lo[i] = p[i]
				}
				if b.n == 0 || p[i] > b.hi[i] {
					b.hi[i] = p[i]
				}
			}
			b.n++
		}
		return
	}
	if o.Components != nil {
		for _, c := range o.Components.Component {
			cp := path
			if a := production.GetComponentAttr(c); a != nil && a.Path != "" {
				cp = a.Path
			}
			if b.find(cp, c.ObjectID) != nil && !axisAligned(c.Transform) {
				b.exact = false
			}
			b.walk(cp, c.ObjectID, append(ms[:len(ms):len(ms)], toMat64(c.Transform)), depth+1)
		}
	}
}

func boxClose(a, b float64) bool {
	return math.Abs(a-b) <= 1e-4*(1+math.Abs(a)+math.Abs(b))
}

func checkModelBox(t *rapid.T, c *C, general bool) {
	m := &go3mf.Model{Path: pick(t, "path", "", "/3D/3dmodel.model", "/r.model")}
	parts := []string{""}
	for i, k := 0, drawMany(t, 2, 60, 200, "nchild"); i < k; i++ {
		parts = append(parts, fmt.Sprintf("/3D/c%d.model", i))
	}
	type ref struct {
		path string
		id   uint32
	}
	var all []ref
	var keys strings.Builder
	// child parts first, so that root objects can refer to them
	for pi := len(parts) - 1; pi >= 0; pi-- {
		var rs go3mf.Resources
		var local []uint32
		for i, k := 0, drawMany(t, 5, 60, 200, "nobj"); i < k; i++ {
			o := &go3mf.Object{ID: uint32(i + 1), Type: go3mf.ObjectType(pick(t, "type", 0, 0, 0, 0, 1, 2, 3, 4))}
			if drawBool(t, "mesh") || len(all) == 0 {
				o.Mesh = new(go3mf.Mesh)
				base := [3]float32{pick(t, "ox", float32(0), 5, -50, 1000), pick(t, "oy", float32(0), 7, -70), pick(t, "oz", float32(0), 20, -3)}
				for v, n := 0, drawMany(t, 5, 300, 300, "nv"); v < n; v++ {
					o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{
						base[0] + float32(drawInt(t, -8, 8, "x"))/2, base[1] + float32(drawInt(t, -8, 8, "y"))/2, base[2] + float32(drawInt(t, -8, 8, "z"))/2})
				}
				fmt.Fprintln(&keys, o.Mesh.Vertices.Vertex)
			} else {
				o.Components = new(go3mf.Components)
				for q, n := 0, drawMany(t, 3, 200, 300, "ncomp"); q < n; q++ {
					cm := &go3mf.Component{Transform: drawTransform(t, general)}
					if (pi == 0 || oneIn(t, 3, "childcross")) && drawBool(t, "crosspart") {
						r := all[drawInt(t, 0, len(all)-1, "target")]
						cm.ObjectID = r.id
						p := r.path
						if p == "" && drawBool(t, "rootpath") {
							p = m.PathOrDefault()
						}
						if p != "" || drawBool(t, "emptypath") {
							cm.AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: p}}
						}
					} else if len(local) > 0 && !oneIn(t, 8, "dangling") {
						cm.ObjectID = local[drawInt(t, 0, len(local)-1, "ltarget")]
					} else {
						cm.ObjectID = pick(t, "danglingid", uint32(99), 0)
					}
					fmt.Fprintln(&keys, "c", cm.ObjectID, cm.Transform, cm.ObjectPath("-"))
					o.Components.Component = append(o.Components.Component, cm)
				}
			}
			rs.Objects = append(rs.Objects, o)
			local = append(local, o.ID)
			all = append(all, ref{parts[pi], o.ID})
		}
		if pi == 0 {
			m.Resources = rs
		} else {
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			m.Childs[parts[pi]] = &go3mf.ChildModel{Resources: rs}
		}
	}
	b := &boxRef{m: m, exact: true}
	for i, k := 0, drawMany(t, 5, 600, 100, "nitem"); i < k; i++ {
		it := &go3mf.Item{ObjectID: pick(t, "danglingid", uint32(99), 0), Transform: drawTransform(t, general)}
		path := ""
		if len(all) > 0 && !oneIn(t, 10, "danglingitem") {
			r := all[drawInt(t, 0, len(all)-1, "itemtarget")]
			it.ObjectID, path = r.id, r.path
			if path == "" && oneIn(t, 3, "itemroot") {
				path = m.PathOrDefault()
			}
		} else if oneIn(t, 2, "nopart") {
			path = "/missing.model"
		}
		if path != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: path}}
		}
		m.Build.Items = append(m.Build.Items, it)
		fmt.Fprintln(&keys, "i", it.ObjectID, it.Transform, path)
		if b.find(path, it.ObjectID) != nil && !axisAligned(it.Transform) {
			b.exact = false
		}
		b.walk(path, it.ObjectID, []mat64{toMat64(it.Transform)}, 0)
	}
	c.Eval()
	got := m.BoundingBox()
	if b.n == 0 {
		if got != (go3mf.Box{}) {
			t.Fatalf("nothing is built, yet the box is %v\n%s", got, keys.String())
		}
		c.Label("empty")
		return
	}
	for i := 0; i < 3; i++ {
		lo, hi := float64(got.Min[i]), float64(got.Max[i])
		if (lo > b.lo[i] && !boxClose(lo, b.lo[i])) || (hi < b.hi[i] && !boxClose(hi, b.hi[i])) {
			t.Fatalf("axis %d: box [%v %v] does not contain the geometry [%v %v]\n%s", i, lo, hi, b.lo[i], b.hi[i], keys.String())
		}
		if b.exact && (!boxClose(lo, b.lo[i]) || !boxClose(hi, b.hi[i])) {
			t.Fatalf("axis %d: box [%v %v], the geometry spans [%v %v]\n%s", i, lo, hi, b.lo[i], b.hi[i], keys.String())
		}
	}
	// a second computation, and one without the other objects, give the same box
	if again := m.BoundingBox(); again != got {
		t.Fatalf("the box changed from %v to %v", got, again)
	}
	unbuilt := &go3mf.Object{ID: 77, Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{1e6, 1e6, 1e6}, {-1e6, -1e6, -1e6}}}}}
	m.Resources.Objects = append(m.Resources.Objects, unbuilt)
	for _, ch := range m.Childs {
		ch.Resources.Objects = append(ch.Resources.Objects, unbuilt)
	}
	if again := m.BoundingBox(); again != got {
		t.Fatalf("an object that is not built changes the box from %v to %v", got, again)
	}
	c.LabelIf(b.exact, "axis-aligned")
	c.LabelIf(len(m.Childs) > 0, "has:childs")
	c.LabelIf(len(m.Childs) > 20, "has:many-childs")
	c.LabelIf(len(m.Build.Items) > 100, "has:many-items")
	c.Label(fmt.Sprintf("depth:%d", b.depth))
	if b.depth > 0 {
		c.NonTrivial([]byte(keys.String()))
	}
	c.Sample(keys.String())
}

func checkMeshBox(t *rapid.T, c *C) {
	m := new(go3mf.Mesh)
	n := drawMany(t, 8, 2000, 200, "n")
	var lo, hi go3mf.Point3D
	for i := 0; i < n; i++ {
		p := go3mf.Point3D{drawFloat(t, "x"), drawFloat(t, "y"), drawFloat(t, "z")}
		for k := range p {
			if i == 0 || p[k] < lo[k] {
				lo[k] = p[k]
			}
			if i == 0 || p[k] > hi[k] {
				hi[k] = p[k]
			}
		}
		m.Vertices.Vertex = append(m.Vertices.Vertex, p)
	}
	c.Eval()
	if got := m.BoundingBox(); got != (go3mf.Box{Min: lo, Max: hi}) {
		t.Fatalf("box %v, want %v %v for %v", got, lo, hi, m.Vertices.Vertex)
	}
	if n > 1 {
		c.NonTrivial([]byte(fmt.Sprint(m.Vertices.Vertex)))
	}
	c.Sample(fmt.Sprint(m.Vertices.Vertex))
}

// checkTallBox builds chains and trees of many objects.
func checkTallBox(t *rapid.T, c *C) {
	m := new(go3mf.Model)
	n := drawInt(t, 2, pick(t, "upto", 40, 150, 600), "objects")
	width := pick(t, "components", 1, 1, 2, 3)
	leaves := drawInt(t, 1, 20, "leaves")
	if leaves >= n {
		leaves = n - 1
	}
	// the boxes of all objects, by dynamic programming over exact translations
	lo, hi := make([][3]float64, n), make([][3]float64, n)
	var keys strings.Builder
	for i := 0; i < n; i++ {
		o := &go3mf.Object{ID: uint32(i + 1), Type: go3mf.ObjectType(i % 5)}
		if i < leaves {
			p := go3mf.Point3D{float32(drawInt(t, -50, 50, "x")), float32(drawInt(t, -50, 50, "y")), float32(drawInt(t, -50, 50, "z"))}
			q := go3mf.Point3D{p[0] + float32(drawInt(t, 0, 9, "dx")), p[1] + float32(drawInt(t, 0, 9, "dy")), p[2] + float32(drawInt(t, 0, 9, "dz"))}
			o.Mesh = &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{p, q}}}
			for k := range p {
				lo[i][k], hi[i][k] = float64(p[k]), float64(q[k])
			}
		} else {
			o.Components = new(go3mf.Components)
			for j, k := 0, drawInt(t, 1, width, "n"); j < k; j++ {
				to := i - 1
				if j > 0 {
					to = drawInt(t, 0, i-1, "to")
				}
				cm := &go3mf.Component{ObjectID: uint32(to + 1)}
				var d [3]float64
				if oneIn(t, 2, "moved") {
					for k := range d {
						d[k] = float64(drawInt(t, -9, 9, "move"))
					}
					cm.Transform = go3mf.Identity().Translate(float32(d[0]), float32(d[1]), float32(d[2]))
				}
				for k := range d {
					if a := lo[to][k] + d[k]; j == 0 || a < lo[i][k] {
						lo[i][k] = a
					}
					if a := hi[to][k] + d[k]; j == 0 || a > hi[i][k] {
						hi[i][k] = a
					}
				}
				fmt.Fprint(&keys, to, d)
				o.Components.Component = append(o.Components.Component, cm)
			}
		}
		m.Resources.Objects = append(m.Resources.Objects, o)
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: uint32(n)}}
	c.Eval()
	var want go3mf.Box
	for k := range want.Min {
		want.Min[k], want.Max[k] = float32(lo[n-1][k]), float32(hi[n-1][k])
	}
	if got := m.BoundingBox(); got != want {
		t.Fatalf("the box of %d objects above %d meshes is %v, want %v\n%s", n-leaves, leaves, got, want, clip(keys.String(), 3000))
	}
	c.LabelIf(n > 100, "has:more-than-100-objects")
	c.NonTrivial([]byte(fmt.Sprint(n, leaves, keys.String())))
	c.Sample(fmt.Sprintf("%d objects, %d meshes, up to %d components", n, leaves, width))
}

func init() {
	register(&Sub{Prop: "P17", Name: "tall", Rule: "one item on top of up to 600 objects, each with up to three translated components among the earlier ones; reference: exact boxes from the bottom up; every model counts", Quick: 1500, Thorough: 60000, Fn: checkTallBox})
	rule := "random acyclic models over up to three parts with dangling references, empty meshes and shared components; reference: every vertex transformed in float64 along every path; non-trivial = geometry reached through components"
	register(&Sub{Prop: "P17", Name: "mesh", Rule: "random vertices; non-trivial = at least two", Quick: 40000, Thorough: 1000000, Fn: checkMeshBox})
	register(&Sub{Prop: "P17", Name: "model-axis-aligned", Rule: rule + "; all transforms map axes to axes, the box must be tight", Quick: 25000, Thorough: 1000000, Fn: func(t *rapid.T, c *C) { checkModelBox(t, c, false) }})
	register(&Sub{Prop: "P17", Name: "model-general", Rule: rule + "; any affine transform", Quick: 15000, Thorough: 600000, Fn: func(t *rapid.T, c *C) { checkModelBox(t, c, true) }})
	register(&Sub{Prop: "P17", Name: "model-race", Race: true, Rule: rule + "; under the race detector", Quick: 600, Thorough: 30000, Fn: func(t *rapid.T, c *C) { checkModelBox(t, c, true) }})
}
