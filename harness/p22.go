package main

import (
	"errors"
	"fmt"
	"sort"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"pgregory.net/rapid"
)

func smallID(t *rapid.T) uint32 {
	return pick(t, "id", 1, 2, 3, 4, 5, 6, 7, 8, 0, 9, 12, 100, 1<<31, ^uint32(0))
}

func lookupResources(t *rapid.T) go3mf.Resources {
	var r go3mf.Resources
	for i, n := 0, drawInt(t, 0, 6, "nobj"); i < n; i++ {
		r.Objects = append(r.Objects, &go3mf.Object{ID: smallID(t), Type: go3mf.ObjectType(drawInt(t, 0, 4, "type"))})
	}
	for i, n := 0, drawInt(t, 0, 6, "nasset"); i < n; i++ {
		id := smallID(t)
		switch drawInt(t, 0, 5, "kind") {
		case 0:
			r.Assets = append(r.Assets, &go3mf.BaseMaterials{ID: id})
		case 1:
			r.Assets = append(r.Assets, &materials.ColorGroup{ID: id})
		case 2:
			r.Assets = append(r.Assets, &materials.Texture2D{ID: id})
		case 3:
			r.Assets = append(r.Assets, &slices.SliceStack{ID: id})
		case 4:
			r.Assets = append(r.Assets, &materials.MultiProperties{ID: id})
		default:
			// an unknown asset only gets its identifier by decoding
			m := new(go3mf.Model)
			doc := fmt.Sprintf(`<model xmlns="%s"><resources><a xmlns="urn:v" id="%d"/></resources><build/></model>`, nsCore, id)
			if err := go3mf.UnmarshalModel([]byte(doc), m); err != nil || len(m.Resources.Assets) != 1 {
				t.Fatalf("unknown asset not decoded: %v", err)
			}
			r.Assets = append(r.Assets, m.Resources.Assets[0])
		}
	}
	if oneIn(t, 40, "crowded") {
		n, gap := drawInt(t, 40, 700, "crowd"), drawInt(t, 0, 900, "gap")
		mostlyObjects := drawBool(t, "mostly-objects")
		for i := 1; i <= n; i++ {
			if i == gap {
				continue
			}
			if ((i+gap)%3 == 0) != mostlyObjects {
				r.Objects = append(r.Objects, &go3mf.Object{ID: uint32(i)})
			} else {
				r.Assets = append(r.Assets, &materials.Texture2D{ID: uint32(i)})
			}
		}
	}
	return r
}

func assetID(a go3mf.Asset) uint32 {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		return a.ID
	case *materials.ColorGroup:
		return a.ID
	case *materials.Texture2D:
		return a.ID
	case *slices.SliceStack:
		return a.ID
	case *materials.MultiProperties:
		return a.ID
	default:
		return a.Identify()
	}
}

func checkLookup(t *rapid.T, c *C) {
	m := &go3mf.Model{Path: pick(t, "path", "", "/3D/3dmodel.model", "/root.model", "/3D/other.model")}
	m.Resources = lookupResources(t)
	paths := []string{"/3D/3dmodel.model", "/a.model", "/3D/b.model", "/A.model", "/3D/other.model", "b.model", "/Z.model"}
	for _, p := range paths {
		if (p != m.PathOrDefault() || oneIn(t, 4, "same-as-root")) && oneIn(t, 2, "child") {
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			m.Childs[p] = &go3mf.ChildModel{Resources: lookupResources(t)}
		}
	}
	if oneIn(t, 150, "crowd-of-parts") {
		r := drawRand(t, "parts")
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		for i := drawInt(t, 10, 120, "nparts"); i > 0; i-- {
			ch := new(go3mf.ChildModel)
			for k := r.Intn(4); k > 0; k-- {
				ch.Resources.Objects = append(ch.Resources.Objects, &go3mf.Object{ID: uint32(r.Intn(5))})
				ch.Resources.Assets = append(ch.Resources.Assets, &materials.ColorGroup{ID: uint32(r.Intn(5))})
			}
			p := fmt.Sprintf("/%c/%d.model", 'a'+rune(r.Intn(26)), r.Intn(1000))
			m.Childs[p] = ch
			if r.Intn(10) == 0 {
				paths = append(paths, p)
			}
		}
		c.Label("crowd-of-parts")
	}
	root := m.Path
	if root == "" {
		root = "/3D/3dmodel.model"
	}
	if got := m.PathOrDefault(); got != root {
		t.Fatalf("path %q, want %q", got, root)
	}
	c.Eval()
	find := func(p string) *go3mf.Resources {
		if p == "" || p == root {
			return &m.Resources
		}
		if ch, ok := m.Childs[p]; ok {
			return &ch.Resources
		}
		return nil
	}
	hits := 0
	ids := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 100, 1 << 31, ^uint32(0)}
	for _, p := range append(append([]string{""}, root), append(paths, "/missing.model", "/a.MODEL", "a.model")...) {
		rs := find(p)
		got, ok := m.FindResources(p)
		if ok != (rs != nil) || (ok && got != rs) {
			t.Fatalf("FindResources(%q) = %p %v, want %p", p, got, ok, rs)
		}
		for _, id := range ids {
			var wo *go3mf.Object
			var wa go3mf.Asset
			if rs != nil {
				for i := len(rs.Objects) - 1; i >= 0; i-- {
					if rs.Objects[i].ID == id {
						wo = rs.Objects[i]
					}
				}
				for i := len(rs.Assets) - 1; i >= 0; i-- {
					if assetID(rs.Assets[i]) == id {
						wa = rs.Assets[i]
					}
				}
			}
			if o, ok := m.FindObject(p, id); ok != (wo != nil) || o != wo {
				t.Fatalf("FindObject(%q, %d) = %p %v, want %p", p, id, o, ok, wo)
			}
			if a, ok := m.FindAsset(p, id); ok != (wa != nil) || a != wa {
				t.Fatalf("FindAsset(%q, %d) = %v %v, want %v", p, id, a, ok, wa)
			}
			if rs != nil {
				if o, ok := rs.FindObject(id); ok != (wo != nil) || o != wo {
					t.Fatalf("Resources.FindObject(%d) = %p %v, want %p", id, o, ok, wo)
				}
				if a, ok := rs.FindAsset(id); ok != (wa != nil) || a != wa {
					t.Fatalf("Resources.FindAsset(%d) = %v %v, want %v", id, a, ok, wa)
				}
			}
			if wo != nil || wa != nil {
				hits++
			}
		}
		if rs != nil {
			free := uint32(1)
			for used := true; used; {
				used = false
				for _, o := range rs.Objects {
					used = used || o.ID == free
				}
				for _, a := range rs.Assets {
					used = used || assetID(a) == free
				}
				if used {
					free++
				}
			}
			if got := rs.UnusedID(); got != free {
				t.Fatalf("UnusedID of %q = %d, want %d", p, got, free)
			}
		}
	}
	// traversal
	type visit struct {
		path string
		obj  any
	}
	var wantO, wantA []visit
	var names []string
	for p := range m.Childs {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range append(names, "") {
		rs := &m.Resources
		if p != "" {
			rs = &m.Childs[p].Resources // even if its path is the one of the root
		}
		for _, o := range rs.Objects {
			wantO = append(wantO, visit{p, o})
		}
		for _, a := range rs.Assets {
			wantA = append(wantA, visit{p, a})
		}
	}
	walk := func(kind string, want []visit, run func(f func(string, any) error) error) {
		stop := -1
		if len(want) > 0 && drawBool(t, "stop") {
			stop = drawInt(t, 0, len(want)-1, "stopat")
		}
		fail := errors.New("stop here")
		var got []visit
		err := run(func(p string, v any) error {
			got = append(got, visit{p, v})
			if len(got)-1 == stop {
				return fail
			}
			return nil
		})
		exp := want
		if stop >= 0 {
			exp = want[:stop+1]
			if err != fail {
				t.Fatalf("%s returned %v instead of the error of the callback", kind, err)
			}
		} else if err != nil {
			t.Fatalf("%s returned %v", kind, err)
		}
		if len(got) != len(exp) {
			t.Fatalf("%s made %d calls, want %d", kind, len(got), len(exp))
		}
		for i := range got {
			if got[i] != exp[i] {
				t.Fatalf("%s call %d: %v, want %v", kind, i, got[i], exp[i])
			}
		}
	}
	walk("WalkObjects", wantO, func(f func(string, any) error) error {
		return m.WalkObjects(func(p string, o *go3mf.Object) error { return f(p, o) })
	})
	walk("WalkAssets", wantA, func(f func(string, any) error) error {
		return m.WalkAssets(func(p string, a go3mf.Asset) error { return f(p, a) })
	})
	c.LabelIf(len(names) > 1, "several-parts")
	if len(names) > 0 && hits > 2 {
		c.NonTrivial([]byte(describe(m)))
	}
	c.Sample(fmt.Sprintf("root %q childs %v", m.Path, names))
}

func init() {
	register(&Sub{Prop: "P22", Name: "lookup-walk-freeid", Rule: "random models with up to seven parts and duplicate, zero, missing and extreme identifiers, every path and identifier looked up; non-trivial = a child part and more than two hits", Quick: 60000, Thorough: 2000000, Fn: checkLookup})
}
