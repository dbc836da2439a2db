package main

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"math/rand"
	"reflect"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

// growth is one place of a model where there can be any number of things.
type growth struct {
	what string
	max  int
	grow func(n int, r *rand.Rand)
	list reflect.Value // if it is one
}

// how many elements of a kind a list may get.
var growable = map[reflect.Type]int{
	reflect.TypeOf(go3mf.Triangle{}):         3000,
	reflect.TypeOf(go3mf.Point3D{}):          3000,
	reflect.TypeOf(&go3mf.Item{}):            600,
	reflect.TypeOf(go3mf.Metadata{}):         600,
	reflect.TypeOf(&go3mf.Object{}):          150,
	reflect.TypeOf(&go3mf.Component{}):       600,
	reflect.TypeOf(go3mf.Base{}):             1000,
	reflect.TypeOf(color.RGBA{}):             3000,
	reflect.TypeOf(materials.TextureCoord{}): 3000,
	reflect.TypeOf(materials.Composite{}):    1000,
	reflect.TypeOf(materials.Multi{}):        1000,
	reflect.TypeOf(slices.Slice{}):           200,
	reflect.TypeOf(slices.Polygon{}):         400,
	reflect.TypeOf(slices.Segment{}):         3000,
	reflect.TypeOf(go3mf.Point2D{}):          3000,
	reflect.TypeOf(slices.SliceRef{}):        500,
	reflect.TypeOf(beamlattice.Beam{}):       3000,
	reflect.TypeOf(beamlattice.BeamSet{}):    300,
	reflect.TypeOf(xml.Attr{}):               200,
	reflect.TypeOf(go3mf.Relationship{}):     150,
}

var (
	assetType  = reflect.TypeOf((*go3mf.Asset)(nil)).Elem()
	unkToksPtr = reflect.TypeOf(&spec.UnknownTokens{})
)

// growths lists the places below v that can grow; only lists that have something already.
func growths(v reflect.Value, path string, out *[]growth) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == unkToksPtr {
			x := v.Interface().(*spec.UnknownTokens)
			growTokens(&x.Token, path, out)
			return
		}
		if x, ok := v.Interface().(*go3mf.UnknownAsset); ok {
			growTokens(&x.Token, path, out)
			return
		}
		growths(v.Elem(), path, out)
	case reflect.Map:
		if cs, ok := v.Interface().(map[string]*go3mf.ChildModel); ok && len(cs) > 0 {
			*out = append(*out, growth{path + ".Childs", 300, func(n int, r *rand.Rand) { growParts(cs, n, r) }, reflect.Value{}})
		}
		for _, k := range sortedMapKeys(v) {
			growths(v.MapIndex(k), path+"["+k.String()+"]", out)
		}
	case reflect.Struct:
		if b, ok := v.Interface().(beamlattice.BeamSet); ok && v.CanAddr() && len(b.Refs) > 0 {
			growNumbers(v.FieldByName("Refs"), path+".Refs", out)
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				growths(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.String:
		name := path[strings.LastIndex(path, ".")+1:]
		if v.CanSet() && (name == "Name" || name == "PartNumber" || name == "Value") && len(v.String()) > 0 {
			*out = append(*out, growth{path, 70000, func(n int, r *rand.Rand) {
				rs := []rune(v.String())
				var b strings.Builder
				for b.Len() < n {
					b.WriteRune(rs[r.Intn(len(rs))])
					if r.Intn(10) == 0 {
						b.WriteByte(byte('a' + r.Intn(26)))
					}
				}
				v.SetString("a" + b.String() + "z")
			}, reflect.Value{}})
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		e := v.Type().Elem()
		max, ok := growable[e]
		if e == assetType {
			max, ok = 100, true
		}
		if ok && v.CanSet() {
			*out = append(*out, growth{path, max, func(n int, r *rand.Rand) { growList(v, n, r) }, v})
		}
		switch e.Kind() {
		case reflect.Struct, reflect.Ptr, reflect.Interface:
			if flat(e) && e != reflect.TypeOf(beamlattice.BeamSet{}) {
				return
			}
			for i := 0; i < v.Len() && i < 20; i++ {
				growths(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
			}
		}
	}
}

func sortedMapKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	for i := range ks { // few
		for j := i + 1; j < len(ks); j++ {
			if ks[j].String() < ks[i].String() {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// growList appends copies of elements with other numbers.
func growList(v reflect.Value, n int, r *rand.Rand) {
	had := v.Len()
	out := reflect.MakeSlice(v.Type(), had, n+had)
	reflect.Copy(out, v)
	for i := 0; i < n; i++ {
		e := reflect.New(v.Type().Elem()).Elem()
		e.Set(deepCopy(v.Index(r.Intn(had))))
		switch x := e.Addr().Interface().(type) {
		case *go3mf.Triangle:
			x.V1, x.V2, x.V3 = uint32(r.Intn(5000)), uint32(r.Intn(5000)), uint32(r.Intn(5000))
		case *go3mf.Point3D:
			for k := range x {
				x[k] = float32(r.Intn(20001) - 10000)
			}
		case *go3mf.Point2D:
			for k := range x {
				x[k] = float32(r.Intn(20001) - 10000)
			}
		case *materials.TextureCoord:
			for k := range x {
				x[k] = float32(r.Intn(20001) - 10000)
			}
		case *color.RGBA:
			*x = color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256))}
		case *go3mf.Base:
			x.Name = fmt.Sprintf("%s%d", x.Name, r.Intn(10000))
		case *go3mf.Metadata:
			x.Value = fmt.Sprintf("%s%d", x.Value, r.Intn(10000))
		case **go3mf.Item:
			(*x).ObjectID = uint32(1 + r.Intn(5000))
		case **go3mf.Component:
			(*x).ObjectID = uint32(1 + r.Intn(5000))
		case **go3mf.Object:
			(*x).Name = fmt.Sprintf("%s%d", (*x).Name, r.Intn(10000))
		case *slices.Segment:
			x.V2 = uint32(r.Intn(5000))
		case *slices.Polygon:
			x.StartV = uint32(r.Intn(5000))
		case *slices.SliceRef:
			x.SliceStackID = uint32(1 + r.Intn(5000))
		case *beamlattice.Beam:
			x.Indices = [2]uint32{uint32(r.Intn(5000)), uint32(r.Intn(5000))}
		case *beamlattice.BeamSet:
			x.Name = fmt.Sprintf("%s%d", x.Name, r.Intn(10000))
		case *materials.Multi:
			for k := range x.PIndices {
				x.PIndices[k] = uint32(r.Intn(5000))
			}
		case *go3mf.Relationship:
			x.Type, x.ID = fmt.Sprintf("http://example.com/grown/%d", had+i), fmt.Sprintf("g%d", had+i)
		case *xml.Attr:
			x.Name.Local = fmt.Sprintf("%s-%d", x.Name.Local, had+i)
			x.Value = fmt.Sprintf("%s%d", x.Value, r.Intn(10000))
		}
		out = reflect.Append(out, e)
	}
	v.Set(out)
}

// growParts adds copies of child parts, fewer if they are large.
func growParts(cs map[string]*go3mf.ChildModel, n int, r *rand.Rand) {
	ps := sortedKeys(cs)
	room := 40000
	for i := 0; i < n && room > 0; i++ {
		p := ps[r.Intn(len(ps))]
		c := deepCopy(reflect.ValueOf(cs[p])).Interface().(*go3mf.ChildModel)
		for _, o := range c.Resources.Objects {
			o.PartNumber = fmt.Sprintf("part %d", i)
		}
		name := fmt.Sprintf("%smore%d%s", p[:strings.LastIndexByte(p, '/')+1], r.Intn(1000000), p[strings.LastIndexByte(p, '/')+1:])
		if _, ok := cs[name]; ok {
			continue
		}
		cs[name] = c
		room -= weigh(reflect.ValueOf(c))
	}
}

// weigh counts the values below v.
func weigh(v reflect.Value) int {
	n := 1
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			n += weigh(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += weigh(v.Field(i))
		}
	case reflect.Slice:
		if flat(v.Type().Elem()) {
			return n + v.Len()
		}
		for i := 0; i < v.Len(); i++ {
			n += weigh(v.Index(i))
		}
	}
	return n
}

func growNumbers(v reflect.Value, path string, out *[]growth) {
	*out = append(*out, growth{path, 3000, func(n int, r *rand.Rand) {
		for i := 0; i < n; i++ {
			v.Set(reflect.Append(v, reflect.ValueOf(uint32(r.Intn(5000)))))
		}
	}, reflect.Value{}})
}

// growTokens: the content of an unknown element repeated or nested deeper, or its attributes.
func growTokens(toks *[]xml.Token, path string, out *[]growth) {
	old := *toks
	if len(old) < 2 {
		return
	}
	start, ok := old[0].(xml.StartElement)
	if !ok {
		return
	}
	inner := old[1 : len(old)-1]
	*out = append(*out, growth{path + ":nested", 300, func(n int, r *rand.Rand) {
		bare := xml.StartElement{Name: start.Name}
		res := []xml.Token{old[0]}
		for i := 0; i < n; i++ {
			res = append(res, bare.Copy())
		}
		res = append(res, inner...)
		for i := 0; i < n; i++ {
			res = append(res, bare.End())
		}
		*toks = append(res, old[len(old)-1])
	}, reflect.Value{}})
	*out = append(*out, growth{path + ":siblings", 400, func(n int, r *rand.Rand) {
		res := append([]xml.Token{}, old[:len(old)-1]...)
		for i := 0; i < n; i++ {
			s := xml.StartElement{Name: start.Name}
			if r.Intn(2) == 0 {
				s.Attr = []xml.Attr{{Name: xml.Name{Local: "n"}, Value: fmt.Sprint(i)}}
			}
			res = append(res, s, s.End())
		}
		*toks = append(res, old[len(old)-1])
	}, reflect.Value{}})
	*out = append(*out, growth{path + ":attributes", 200, func(n int, r *rand.Rand) {
		s := start.Copy()
		for i := 0; i < n; i++ {
			s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Local: fmt.Sprintf("n-%d", len(s.Attr))}, Value: fmt.Sprint(r.Intn(1000))})
		}
		*toks = append([]xml.Token{s}, old[1:]...)
	}, reflect.Value{}})
}

// enlarge makes one to three places of a model much larger.
func enlarge(t *rapid.T, m *go3mf.Model) []string {
	r := drawRand(t, "large")
	var what []string
	for k := drawInt(t, 1, 3, "places"); k > 0; k-- {
		var gs []growth
		growths(reflect.ValueOf(m), "", &gs)
		if len(gs) == 0 {
			break
		}
		// every kind of place is as likely
		kinds := map[string][]growth{}
		for _, g := range gs {
			key := g.what[strings.LastIndexAny(g.what, ".:")+1:]
			kinds[key] = append(kinds[key], g)
		}
		key := pick(t, "kind", sortedKeys(kinds)...)
		g := kinds[key][r.Intn(len(kinds[key]))]
		n := 10 + r.Intn(g.max)
		for r.Intn(2) == 0 && n > 20 {
			n /= 3
		}
		g.grow(n, r)
		what = append(what, fmt.Sprintf("%s+%d", g.what, n))
	}
	return what
}

// labelLarge counts what kinds of places were enlarged.
func labelLarge(c *C, g *Gen) {
	for _, w := range g.Large {
		w = w[strings.LastIndexAny(w, ".:")+1:]
		c.Label("large:" + w[:strings.IndexByte(w, '+')])
	}
}

// growExactly repeats elements of one list of a model as they are.
func growExactly(r *rand.Rand, m *go3mf.Model) string {
	if len(m.Childs) > 0 && r.Intn(8) == 0 {
		growParts(m.Childs, 1+r.Intn(120), r)
		return "Childs"
	}
	var gs []growth
	growths(reflect.ValueOf(m), "", &gs)
	kinds := map[string][]growth{}
	for _, g := range gs {
		if g.list.IsValid() {
			key := g.what[strings.LastIndexByte(g.what, '.')+1:]
			kinds[key] = append(kinds[key], g)
		}
	}
	if len(kinds) == 0 {
		return "none"
	}
	ks := sortedKeys(kinds)
	key := ks[r.Intn(len(ks))]
	v := kinds[key][r.Intn(len(kinds[key]))].list
	had := v.Len()
	n := 1 + r.Intn(400)
	for r.Intn(2) == 0 {
		n = 1 + n/3
	}
	out := reflect.MakeSlice(v.Type(), had, n+had)
	reflect.Copy(out, v)
	for i := 0; i < n; i++ {
		out = reflect.Append(out, deepCopy(v.Index(r.Intn(had))))
	}
	if r.Intn(2) == 0 { // the original ones last
		for i := 0; i < had; i++ {
			a, b := out.Index(i).Interface(), out.Index(out.Len()-1-i).Interface()
			out.Index(i).Set(reflect.ValueOf(b))
			out.Index(out.Len() - 1 - i).Set(reflect.ValueOf(a))
		}
	}
	v.Set(out)
	return key
}
