package main

import (
	"fmt"
	"math"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

// checkBuilder drives a MeshBuilder with a sequence of points and compares every step
// with what the documentation promises.
func checkBuilder(t *rapid.T, c *C, size int) {
	mesh := new(go3mf.Mesh)
	for i, n := 0, pick(t, "preset", 0, 0, 1, 3); i < n; i++ {
		mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, go3mf.Point3D{float32(i), 0, 0})
	}
	mb := go3mf.NewMeshBuilder(mesh)
	const acc = 1e-6
	type added struct {
		p   go3mf.Point3D
		idx uint32
	}
	var (
		linked []added // added with connectivity
		pool   []go3mf.Point3D
		merged int
		trace  []string
	)
	n := drawInt(t, 1, size, "n")
	base := go3mf.Point3D{drawFloat(t, "bx"), drawFloat(t, "by"), drawFloat(t, "bz")}
	pool = append(pool, base)
	for k := 0; k < n; k++ {
		if oneIn(t, 12, "toggle") {
			mb.CalculateConnectivity = !mb.CalculateConnectivity
		}
		var p go3mf.Point3D
		switch drawInt(t, 0, 5, "kind") {
		case 0:
			p = go3mf.Point3D{drawFloat(t, "x"), drawFloat(t, "y"), drawFloat(t, "z")}
		case 1, 2: // the same point, perhaps with another zero
			p = pool[drawInt(t, 0, len(pool)-1, "again")]
			for i := range p {
				if p[i] == 0 && drawBool(t, "negzero") {
					p[i] = -p[i]
				}
			}
		case 3: // a neighbour at some distance
			p = pool[drawInt(t, 0, len(pool)-1, "near")]
			d := pick(t, "dist", float32(1e-7), 3e-7, 6e-7, 9e-7, 1.1e-6, 1.5e-6, 2e-6, 5e-6, 1e-5, 1e-4, 1e-3)
			i := drawInt(t, 0, 2, "axis")
			if drawBool(t, "minus") {
				d = -d
			}
			p[i] += d
		case 4: // mirrored or with swapped axes
			p = pool[drawInt(t, 0, len(pool)-1, "mirror")]
			if drawBool(t, "swap") {
				p[0], p[1] = p[1], p[0]
			} else {
				p[drawInt(t, 0, 2, "maxis")] *= -1
			}
		default: // the next float
			p = pool[drawInt(t, 0, len(pool)-1, "next")]
			i := drawInt(t, 0, 2, "naxis")
			p[i] = math.Nextafter32(p[i], float32(math.Inf(1)))
		}
		for i := range p {
			if math.IsInf(float64(p[i]), 0) || math.IsNaN(float64(p[i])) {
				p[i] = 0
			}
		}
		before := append([]go3mf.Point3D(nil), mesh.Vertices.Vertex...)
		idx := mb.AddVertex(p)
		trace = append(trace, fmt.Sprintf("add %v (connectivity %v) -> %d", p, mb.CalculateConnectivity, idx))
		after := mesh.Vertices.Vertex
		if len(after) < len(before) || len(after) > len(before)+1 {
			t.Fatalf("%d vertices became %d\n%v", len(before), len(after), trace)
		}
		for i := range before {
			if before[i] != after[i] {
				t.Fatalf("vertex %d moved from %v to %v\n%v", i, before[i], after[i], trace)
			}
		}
		if int(idx) >= len(after) {
			t.Fatalf("index %d of %d vertices\n%v", idx, len(after), trace)
		}
		if len(after) > len(before) && (int(idx) != len(before) || after[idx] != p) {
			t.Fatalf("the new vertex %v is stored as %v at %d, index returned %d\n%v", p, after[len(before)], len(before), idx, trace)
		}
		if !mb.CalculateConnectivity {
			if len(after) == len(before) {
				t.Fatalf("no vertex added without connectivity\n%v", trace)
			}
		} else {
			for i := range p {
				if math.Abs(float64(p[i])-float64(after[idx][i])) > acc*1.0001 {
					t.Fatalf("point %v got the vertex %v\n%v", p, after[idx], trace)
				}
			}
			for _, q := range linked {
				if q.p == p && q.idx != idx {
					t.Fatalf("equal points %v got the indices %d and %d\n%v", p, q.idx, idx, trace)
				}
				if q.idx == idx {
					for i := range p {
						if math.Abs(float64(p[i])-float64(q.p[i])) > acc*1.0001 {
							t.Fatalf("points %v and %v share the index %d\n%v", p, q.p, idx, trace)
						}
					}
				}
			}
			if len(after) == len(before) {
				merged++
			}
			linked = append(linked, added{p, idx})
		}
		pool = append(pool, p)
	}
	c.Eval()
	c.LabelIf(merged > 0, "merged")
	c.LabelIf(len(linked) < n, "without-connectivity")
	if merged > 0 && len(mesh.Vertices.Vertex) > 2 {
		c.NonTrivial([]byte(fmt.Sprint(trace)))
	}
	c.Sample(fmt.Sprint(trace))
}

// checkHuge adds many points of a coarse lattice, some of them again and again.
func checkHuge(t *rapid.T, c *C) {
	mesh := new(go3mf.Mesh)
	mb := go3mf.NewMeshBuilder(mesh)
	r := drawRand(t, "points")
	n := drawInt(t, 20000, 200000, "n")
	step := pick(t, "step", float32(1), 0.5, 0.125, 1000)
	side := pick(t, "side", 20, 60, 90)
	seen := map[go3mf.Point3D]uint32{}
	want := []go3mf.Point3D{}
	for i := 0; i < n; i++ {
		p := go3mf.Point3D{step * float32(r.Intn(side)-side/2), step * float32(r.Intn(side)-side/2), step * float32(r.Intn(side)-side/2)}
		idx, ok := seen[p]
		if !ok {
			idx = uint32(len(want))
			seen[p] = idx
			want = append(want, p)
		}
		if got := mb.AddVertex(p); got != idx {
			t.Fatalf("point %d, %v, got the index %d, want %d of %d", i, p, got, idx, len(want))
		}
	}
	c.Eval()
	if len(mesh.Vertices.Vertex) != len(want) {
		t.Fatalf("%d vertices for %d different points", len(mesh.Vertices.Vertex), len(want))
	}
	for i, p := range want {
		if mesh.Vertices.Vertex[i] != p {
			t.Fatalf("vertex %d is %v, was %v when it was added", i, mesh.Vertices.Vertex[i], p)
		}
	}
	c.LabelIf(len(want) > 65536, "vertices:65537+")
	c.NonTrivial([]byte(fmt.Sprint(n, step, side, want[:20])))
	c.Sample(fmt.Sprint(n, " points, ", len(want), " vertices"))
}

func init() {
	register(&Sub{Prop: "P18", Name: "huge", Rule: "up to 200000 points of a coarse lattice, with up to 150000 different ones, against a map; every case counts", Quick: 40, Thorough: 2000, Fn: checkHuge})
	rule := "random sequences of AddVertex with repeated, mirrored, neighbouring and distant points and connectivity switched on and off; non-trivial = something merged and more than two vertices"
	register(&Sub{Prop: "P18", Name: "short", Rule: rule, Quick: 150000, Thorough: 6000000, Fn: func(t *rapid.T, c *C) { checkBuilder(t, c, 15) }})
	register(&Sub{Prop: "P18", Name: "long", Rule: rule, Quick: 12000, Thorough: 500000, Fn: func(t *rapid.T, c *C) { checkBuilder(t, c, 200) }})
}
