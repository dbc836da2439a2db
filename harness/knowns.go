package main

import (
	"fmt"
	"image/color"
	"os"
	"path/filepath"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/materials"
)

// The defects that existing tests of the repository pin, so that they cannot be repaired.
// Each is reproduced by its specific input; KNOWN_FINDINGS lists them by id.

// listedKnown reads the known-findings file: "known: property=<P> id=<ID> ...".
func listedKnown(verif string) map[string]bool {
	out := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		var p, id string
		if n, _ := fmt.Sscanf(l, "known: property=%s id=%s", &p, &id); n == 2 {
			out[p+" "+id] = true
		}
	}
	return out
}

func tetra() *go3mf.Mesh {
	m := new(go3mf.Mesh)
	m.Vertices.Vertex = []go3mf.Point3D{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	m.Triangles.Triangle = []go3mf.Triangle{{V1: 0, V2: 2, V3: 1}, {V1: 0, V2: 1, V3: 3}, {V1: 1, V2: 2, V3: 3}, {V1: 2, V2: 0, V3: 3}}
	return m
}

func latticeModel(bl *beamlattice.BeamLattice) *go3mf.Model {
	m := &go3mf.Model{Extensions: []go3mf.Extension{beamlattice.DefaultExtension}}
	ms := tetra()
	ms.Any = append(ms.Any, bl)
	m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: tetra()}, {ID: 2, Mesh: ms}}
	return m
}

func validationSays(m *go3mf.Model, text string) bool {
	for f := range findingsOf(m.Validate()) {
		if f.text == text {
			return true
		}
	}
	return false
}

func known(prop, id, what string, repro func() bool) {
	knowns = append(knowns, &Known{Prop: prop, ID: id, What: what, Repro: func() (bool, string) { return repro(), what }})
}

func init() {
	known("P08", "empty-part", "a model part that ends before its first element is decoded without error", func() bool {
		return go3mf.UnmarshalModel([]byte(`<?xml version="1.0" encoding="UTF-8"?>`), new(go3mf.Model)) == nil
	})
	known("P13", "decoded-vendor-metadata", "a decoded vendor metadata keeps its prefix as namespace, so that validation reports an undeclared namespace", func() bool {
		m := new(go3mf.Model)
		err := go3mf.UnmarshalModel([]byte(`<model xmlns="`+go3mf.Namespace+`" xmlns:vv="`+nsVendor2+`"><metadata name="vv:a">x</metadata><resources/><build/></model>`), m)
		return err == nil && validationSays(m, specerr.ErrMetadataNamespace.Error())
	})
	known("P13", "indirect-recursion", "an object that contains itself through another object is not reported", func() bool {
		m := &go3mf.Model{}
		m.Resources.Objects = []*go3mf.Object{
			{ID: 1, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 2}}}},
			{ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}},
		}
		return m.Validate() == nil
	})
	known("P13", "forward-reference", "a component that refers to an object defined after its own is not reported", func() bool {
		m := &go3mf.Model{}
		m.Resources.Objects = []*go3mf.Object{
			{ID: 1, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 2}}}},
			{ID: 2, Mesh: tetra()},
		}
		return m.Validate() == nil
	})
	known("P14", "clipping-none", "a beam lattice with clipping mode none and without clipping mesh is reported", func() bool {
		return validationSays(latticeModel(&beamlattice.BeamLattice{MinLength: 1, Radius: 1}), beamlattice.ErrLatticeClippedNoMesh.Error())
	})
	known("P14", "clipping-inside", "a beam lattice with clipping mode inside or outside and without clipping mesh is not reported", func() bool {
		return latticeModel(&beamlattice.BeamLattice{MinLength: 1, Radius: 1, ClipMode: beamlattice.ClipInside}).Validate() == nil
	})
	beam := func(r1, r2 float32) *go3mf.Model {
		bl := &beamlattice.BeamLattice{MinLength: 1, Radius: 1, ClippingMeshID: 1, ClipMode: beamlattice.ClipInside}
		bl.Beams.Beam = []beamlattice.Beam{{Indices: [2]uint32{0, 1}, Radius: [2]float32{r1, r2}}}
		return latticeModel(bl)
	}
	known("P14", "tapered-beam", "a beam with two different radii is reported as if only the second one was given", func() bool {
		return validationSays(beam(2, 3), beamlattice.ErrLatticeBeamR2.Error())
	})
	known("P14", "lone-r2", "a beam with a second radius and without a first one is not reported", func() bool {
		return beam(0, 3).Validate() == nil
	})
	known("P14", "blend-without-pids", "multiproperties without pids are also reported as having too many blend methods", func() bool {
		m := &go3mf.Model{Extensions: []go3mf.Extension{materials.DefaultExtension}}
		m.Resources.Assets = []go3mf.Asset{&materials.ColorGroup{ID: 1, Colors: []color.RGBA{{1, 2, 3, 4}}}, &materials.MultiProperties{ID: 2, Multis: []materials.Multi{{}}}}
		return validationSays(m, materials.ErrMultiBlend.Error())
	})
}
