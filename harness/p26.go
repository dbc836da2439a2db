package main

import (
	"fmt"
	"image/color"
	"math"
	"math/big"
	"regexp"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

var colorRe = regexp.MustCompile(`^#(?:[0-9a-fA-F]{6}|[0-9a-fA-F]{8})$`)

func hexVal(s string) (v uint8) {
	for i := 0; i < 2; i++ {
		c := s[i]
		switch {
		case c <= '9':
			c -= '0'
		case c <= 'F':
			c -= 'A' - 10
		default:
			c -= 'a' - 10
		}
		v = v<<4 | c
	}
	return
}

func checkColorValue(t *rapid.T, c *C) {
	u := rapid.Uint32().Draw(t, "rgba")
	col := color.RGBA{uint8(u >> 24), uint8(u >> 16), uint8(u >> 8), uint8(u)}
	if oneIn(t, 3, "opaque") {
		col.A = 255
	}
	s := spec.FormatRGBA(col)
	c.Eval()
	if !colorRe.MatchString(s) {
		t.Fatalf("the text of %v is %q", col, s)
	}
	got, err := spec.ParseRGBA(s)
	if err != nil || got != col {
		t.Fatalf("%v is written %q and read as %v (%v)", col, s, got, err)
	}
	c.NonTrivial([]byte(s))
	c.Sample(s)
}

func checkColorText(t *rapid.T, c *C) {
	s := "#" + rapid.StringMatching("[0-9a-fA-F]{0,9}").Draw(t, "digits")
	if drawBool(t, "proper") {
		s = "#" + rapid.StringMatching("[0-9a-fA-F]{6}([0-9a-fA-F]{2})?").Draw(t, "digits6or8")
	}
	for k := pick(t, "edits", 0, 0, 1, 2); k > 0 && len(s) > 0; k-- {
		i := drawInt(t, 0, len(s)-1, "at")
		ch := pick(t, "char", "g", "G", "@", "`", "/", ":", " ", "#", "\x00", "\xff", "é", "-", "+", "x", "0")
		if drawBool(t, "replace") {
			s = s[:i] + ch + s[i+1:]
		} else {
			s = s[:i] + ch + s[i:]
		}
	}
	want := colorRe.MatchString(s)
	c.Eval()
	got, err := spec.ParseRGBA(s)
	if (err == nil) != want {
		t.Fatalf("ParseRGBA(%q) = %v %v, the syntax says valid=%v", s, got, err, want)
	}
	if want {
		e := color.RGBA{hexVal(s[1:]), hexVal(s[3:]), hexVal(s[5:]), 255}
		if len(s) == 9 {
			e.A = hexVal(s[7:])
		}
		if got != e {
			t.Fatalf("ParseRGBA(%q) = %v, want %v", s, got, e)
		}
	}
	c.LabelIf(want, "valid")
	c.NonTrivial([]byte(s))
	c.Sample(s)
}

func drawNumberText(t *rapid.T) string {
	s := pick(t, "sign", "", "", "-", "+")
	switch drawInt(t, 0, 3, "numform") {
	case 0:
		s += rapid.StringMatching("[0-9]{1,9}").Draw(t, "int")
	case 1:
		s += rapid.StringMatching(`[0-9]{1,8}\.[0-9]{1,12}`).Draw(t, "dec")
	case 2:
		s += rapid.StringMatching(`\.[0-9]{1,12}`).Draw(t, "frac")
	default:
		s += rapid.StringMatching(`[0-9]{1,3}\.[0-9]{1,9}`).Draw(t, "sci") + pick(t, "e", "e", "E") + pick(t, "esign", "", "+", "-") + fmt.Sprint(drawInt(t, 0, 30, "exp"))
	}
	return s
}

func checkMatrixText(t *rapid.T, c *C) {
	n := pick(t, "n", 12, 12, 12, 12, 11, 13, 0, 16, 24)
	var words []string
	for i := 0; i < n; i++ {
		words = append(words, drawNumberText(t))
	}
	bad := ""
	if n > 0 && oneIn(t, 3, "bad") {
		bad = pick(t, "badword", "x", "1,5", "--1", "1e", "e5", "0.5.5", "1-", "#1", "one", ".", "1e400", "-1e40", "+", "1d3")
		words[drawInt(t, 0, n-1, "badat")] = bad
	}
	var b strings.Builder
	ws := func() string { return pick(t, "ws", " ", "  ", "\t", "\n", " \r\n ") }
	if oneIn(t, 4, "lead") {
		b.WriteString(ws())
	}
	for i, w := range words {
		if i > 0 {
			b.WriteString(ws())
		}
		b.WriteString(w)
	}
	if oneIn(t, 4, "trail") {
		b.WriteString(ws())
	}
	s := b.String()
	want := n == 12 && bad == ""
	var vals [12]float32
	if want {
		for i, w := range words {
			r, ok := new(big.Rat).SetString(strings.TrimPrefix(w, "+"))
			if !ok {
				t.Fatalf("HARNESS: %q", w)
			}
			f, _ := r.Float32()
			if math.IsInf(float64(f), 0) {
				want = false
			}
			vals[i] = f
		}
	}
	c.Eval()
	got, ok := spec.ParseMatrix(s)
	if ok != want {
		t.Fatalf("ParseMatrix(%q) = %v, the syntax says valid=%v", s, ok, want)
	}
	exp := [16]float32{vals[0], vals[1], vals[2], 0, vals[3], vals[4], vals[5], 0, vals[6], vals[7], vals[8], 0, vals[9], vals[10], vals[11], 1}
	if want && got != exp {
		t.Fatalf("ParseMatrix(%q) = %v, want %v", s, got, exp)
	}
	c.LabelIf(want, "valid")
	if n == 12 {
		c.NonTrivial([]byte(s))
	}
	c.Sample(s)
}

func drawAffine(t *rapid.T, cell func(string) float32) go3mf.Matrix {
	var m go3mf.Matrix
	m[15] = 1
	for i := 0; i < 4; i++ {
		for j := 0; j < 3; j++ {
			m[4*i+j] = cell(fmt.Sprint("m", i, j))
		}
	}
	return m
}

func checkMatrixValue(t *rapid.T, c *C) {
	m := drawAffine(t, func(l string) float32 { return drawFloat(t, l) })
	s := m.String()
	c.Eval()
	got, ok := spec.ParseMatrix(s)
	if !ok {
		t.Fatalf("the text %q of %v is not accepted", s, m)
	}
	for i := range m {
		d := math.Abs(float64(m[i]) - float64(got[i]))
		if d > 0.0005+math.Abs(float64(m[i]))*1e-7 {
			t.Fatalf("cell %d: %v is written %q and read as %v", i, m[i], s, got[i])
		}
	}
	c.NonTrivial([]byte(s))
	c.Sample(s)
}

// ratApply is the reference: row vector times matrix, in exact arithmetic.
func ratApply(m go3mf.Matrix, v [3]*big.Rat) (o [3]*big.Rat) {
	r := func(f float32) *big.Rat { return new(big.Rat).SetFloat64(float64(f)) }
	for j := 0; j < 3; j++ {
		s := r(m[12+j])
		for i := 0; i < 3; i++ {
			s.Add(s, new(big.Rat).Mul(r(m[4*i+j]), v[i]))
		}
		o[j] = s
	}
	return
}

// checkMatrixGeneral: products of matrices with any last column, whose cells are small integers.
func checkMatrixGeneral(t *rapid.T, c *C) {
	k := drawInt(t, 2, 4, "factors")
	var ms []go3mf.Matrix
	for i := 0; i < k; i++ {
		var m go3mf.Matrix
		one := drawInt(t, -1, 15, "only") // -1: every cell
		for j := range m {
			if one < 0 || j == one || oneIn(t, 4, "set") {
				m[j] = float32(drawInt(t, -9, 9, "cell"))
			}
		}
		ms = append(ms, m)
	}
	c.Eval()
	mul := func(a, b go3mf.Matrix) (o go3mf.Matrix) { // b first
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				var s int64
				for l := 0; l < 4; l++ {
					s += int64(b[4*i+l]) * int64(a[4*l+j])
				}
				o[4*i+j] = float32(s)
			}
		}
		return
	}
	left, want := ms[0], ms[0]
	for i := 1; i < k; i++ {
		left, want = left.Mul(ms[i]), mul(want, ms[i])
	}
	right := ms[k-1]
	for i := k - 2; i >= 0; i-- {
		right = ms[i].Mul(right)
	}
	if left != want || right != want {
		t.Fatalf("the product of %v is %v from the left and %v from the right, exactly %v", ms, left, right, want)
	}
	id := go3mf.Identity()
	if ms[0].Mul(id) != ms[0] || id.Mul(ms[0]) != ms[0] {
		t.Fatalf("the identity changes %v", ms[0])
	}
	c.NonTrivial([]byte(fmt.Sprint(ms)))
	c.Sample(fmt.Sprint(ms))
}

func checkMatrixAlgebra(t *rapid.T, c *C) {
	small := func(l string) float32 { return float32(drawInt(t, -9, 9, l)) / pick(t, l+"d", float32(1), 1, 2, 4) }
	k := drawInt(t, 1, 3, "factors")
	var ms []go3mf.Matrix
	prod := go3mf.Identity()
	for i := 0; i < k; i++ {
		m := drawAffine(t, small)
		ms = append(ms, m)
		prod = prod.Mul(m)
	}
	p := go3mf.Point3D{small("px"), small("py"), small("pz")}
	c.Eval()
	// exact: all values are small multiples of 1/64
	v := [3]*big.Rat{}
	for i := range v {
		v[i] = new(big.Rat).SetFloat64(float64(p[i]))
	}
	one := p
	for i := k - 1; i >= 0; i-- {
		v = ratApply(ms[i], v)
		one = ms[i].Mul3D(one)
	}
	got := prod.Mul3D(p)
	for i := range v {
		w, _ := v[i].Float64()
		tol := 1e-3 * (1 + math.Abs(w))
		if math.Abs(float64(got[i])-w) > tol || math.Abs(float64(one[i])-w) > tol {
			t.Fatalf("%v applied to %v: product gives %v, one after the other gives %v, exact value %v on axis %d", ms, p, got, one, w, i)
		}
	}
	id := go3mf.Identity()
	if id.Mul3D(p) != p || ms[0].Mul(id) != ms[0] || id.Mul(ms[0]) != ms[0] {
		t.Fatalf("the identity changes %v or %v", p, ms[0])
	}
	q := go3mf.Point2D{p[0], p[1]}
	if id.Mul2D(q) != q {
		t.Fatalf("the identity changes %v", q)
	}
	flat := ms[0].Mul3D(go3mf.Point3D{q[0], q[1], 0})
	if g := ms[0].Mul2D(q); g != (go3mf.Point2D{flat[0], flat[1]}) {
		t.Fatalf("%v maps the plane point %v to %v and as a space point to %v", ms[0], q, g, flat)
	}
	d := go3mf.Point3D{small("dx"), small("dy"), small("dz")}
	moved := ms[0].Translate(d[0], d[1], d[2]).Mul3D(p)
	plain := ms[0].Mul3D(p)
	for i := range moved {
		if moved[i] != plain[i]+d[i] {
			t.Fatalf("translating %v by %v maps %v to %v instead of %v + offset", ms[0], d, p, moved, plain)
		}
	}
	if p.X() != p[0] || p.Y() != p[1] || p.Z() != p[2] || q.X() != q[0] || q.Y() != q[1] {
		t.Fatalf("coordinates of %v %v", p, q)
	}
	if k > 1 {
		c.NonTrivial([]byte(fmt.Sprint(ms, p)))
	}
	c.Sample(fmt.Sprint(ms, p))
}

// enumDoc places an enumerated value into a document and reads it back.
type enumCase struct {
	name  string
	names []string
	doc   func(v string) string
	get   func(m *go3mf.Model) (int, string)
}

const enumHead = `<model xmlns="` + nsCore + `" xmlns:m="` + nsMat + `" xmlns:s="` + nsSlic + `" xmlns:b="` + nsBeam + `"`

func texCase(name, attr string, names []string, get func(x *materials.Texture2D) (int, string)) enumCase {
	return enumCase{name, names, func(v string) string {
		ct := ` contenttype="image/png"`
		if attr == "contenttype" {
			ct = ""
		}
		return enumHead + `><resources><m:texture2d id="1" path="/a.png"` + ct + ` ` + attr + `="` + v + `"/></resources><build/></model>`
	}, func(m *go3mf.Model) (int, string) { return get(m.Resources.Assets[0].(*materials.Texture2D)) }}
}

func beamCase(name string, names []string, where string, get func(x *beamlattice.BeamLattice) (int, string)) enumCase {
	return enumCase{name, names, func(v string) string {
		l, b := "", ""
		if strings.HasPrefix(where, "beam.") {
			b = ` ` + where[5:] + `="` + v + `"`
		} else {
			l = ` ` + where + `="` + v + `"`
		}
		return enumHead + `><resources><object id="1"><mesh><vertices/><triangles/><b:beamlattice minlength="1" radius="1"` + l + `><b:beams><b:beam v1="0" v2="1"` + b + `/></b:beams></b:beamlattice></mesh></object></resources><build/></model>`
	}, func(m *go3mf.Model) (int, string) {
		return get(beamlattice.GetBeamLattice(m.Resources.Objects[0].Mesh))
	}}
}

var enumCases = []enumCase{
	{"unit", unitNames, func(v string) string { return enumHead + ` unit="` + v + `"><resources/><build/></model>` },
		func(m *go3mf.Model) (int, string) { return int(m.Units), m.Units.String() }},
	{"object type", typeNames, func(v string) string {
		return enumHead + `><resources><object id="1" type="` + v + `"><mesh/></object></resources><build/></model>`
	}, func(m *go3mf.Model) (int, string) {
		o := m.Resources.Objects[0]
		return int(o.Type), o.Type.String()
	}},
	texCase("content type", "contenttype", texNames[1:], func(x *materials.Texture2D) (int, string) { return int(x.ContentType) - 1, x.ContentType.String() }),
	texCase("tile style u", "tilestyleu", tileNames, func(x *materials.Texture2D) (int, string) { return int(x.TileStyleU), x.TileStyleU.String() }),
	texCase("tile style v", "tilestylev", tileNames, func(x *materials.Texture2D) (int, string) { return int(x.TileStyleV), x.TileStyleV.String() }),
	texCase("filter", "filter", filterNames, func(x *materials.Texture2D) (int, string) { return int(x.Filter), x.Filter.String() }),
	{"blend method", blendNames, func(v string) string {
		return enumHead + `><resources><m:multiproperties id="1" pids="1 2" blendmethods="` + v + `"/></resources><build/></model>`
	}, func(m *go3mf.Model) (int, string) {
		b := m.Resources.Assets[0].(*materials.MultiProperties).BlendMethods
		if len(b) != 1 {
			return -1, ""
		}
		return int(b[0]), b[0].String()
	}},
	beamCase("clip mode", clipNames, "clippingmode", func(x *beamlattice.BeamLattice) (int, string) { return int(x.ClipMode), x.ClipMode.String() }),
	beamCase("cap mode", capNames, "cap", func(x *beamlattice.BeamLattice) (int, string) { return int(x.CapMode), x.CapMode.String() }),
	beamCase("inherited cap", capNames, "cap", func(x *beamlattice.BeamLattice) (int, string) {
		if len(x.Beams.Beam) != 1 || x.Beams.Beam[0].CapMode[0] != x.Beams.Beam[0].CapMode[1] {
			return -1, ""
		}
		return int(x.Beams.Beam[0].CapMode[0]), x.Beams.Beam[0].CapMode[0].String()
	}),
	beamCase("first cap", capNames, "beam.cap1", func(x *beamlattice.BeamLattice) (int, string) {
		return int(x.Beams.Beam[0].CapMode[0]), x.Beams.Beam[0].CapMode[0].String()
	}),
	beamCase("second cap", capNames, "beam.cap2", func(x *beamlattice.BeamLattice) (int, string) {
		return int(x.Beams.Beam[0].CapMode[1]), x.Beams.Beam[0].CapMode[1].String()
	}),
	{"mesh resolution", resNames, func(v string) string {
		return enumHead + `><resources><object id="1" s:slicestackid="1" s:meshresolution="` + v + `"><mesh/></object></resources><build/></model>`
	}, func(m *go3mf.Model) (int, string) {
		a := slices.GetObjectAttr(m.Resources.Objects[0])
		return int(a.MeshResolution), a.MeshResolution.String()
	}},
}

func checkEnum(t *rapid.T, c *C) {
	e := enumCases[drawInt(t, 0, len(enumCases)-1, "enum")]
	want := -1
	var v string
	if drawBool(t, "named") {
		want = drawInt(t, 0, len(e.names)-1, "value")
		v = e.names[want]
	} else {
		v = e.names[drawInt(t, 0, len(e.names)-1, "near")]
		switch drawInt(t, 0, 6, "spoil") {
		case 0:
			v = strings.ToUpper(v)
		case 1:
			v = strings.ToUpper(v[:1]) + v[1:]
		case 2:
			v += pick(t, "suffix", "s", "x", "0", ".")
		case 3:
			v = v[:len(v)-1]
		case 4:
			v = v[1:]
		case 5:
			v = fmt.Sprint(drawInt(t, 0, 7, "num"))
		default:
			v = rapid.StringMatching("[a-z]{1,9}").Draw(t, "word")
		}
		for i, n := range e.names {
			if n == v {
				want = i
			}
		}
	}
	c.Begin("model.xml", []byte(e.doc(v)))
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(e.doc(v)), m)
	c.Eval()
	if (err == nil) != (want >= 0) {
		t.Fatalf("%s %q: decoding gives %v", e.name, v, err)
	}
	if want >= 0 {
		if got, name := e.get(m); got != want || name != v {
			t.Fatalf("%s %q is decoded as %d %q, want %d", e.name, v, got, name, want)
		}
	}
	c.Label(e.name)
	c.NonTrivial([]byte(e.name + " " + v))
	c.Sample(e.name + " " + v)
}

func init() {
	register(&Sub{Prop: "P26", Name: "color-value", Rule: "random colors; every case counts", Quick: 60000, Thorough: 3000000, Fn: checkColorValue})
	register(&Sub{Prop: "P26", Name: "color-text", Rule: "color texts with up to two edits against the syntax; every case counts", Quick: 60000, Thorough: 3000000, Fn: checkColorText})
	register(&Sub{Prop: "P26", Name: "transform-text", Rule: "lists of number texts of various lengths, some with a bad word; values compared in exact arithmetic; non-trivial = twelve words", Quick: 30000, Thorough: 1500000, Fn: checkMatrixText})
	register(&Sub{Prop: "P26", Name: "transform-value", Rule: "random affine transforms; every case counts", Quick: 20000, Thorough: 1000000, Fn: checkMatrixValue})
	register(&Sub{Prop: "P26", Name: "transform-algebra", Rule: "products of up to three transforms applied to a point, against exact rational arithmetic; non-trivial = at least two factors", Quick: 25000, Thorough: 1000000, Fn: checkMatrixAlgebra})
	register(&Sub{Prop: "P26", Name: "matrix-product", Rule: "products of two to four 4x4 matrices of small integers, any last column, against exact integer arithmetic", Quick: 15000, Thorough: 1000000, Fn: checkMatrixGeneral})
	register(&Sub{Prop: "P26", Name: "enumerations", Rule: "documents with named and misspelled values of thirteen enumerated attributes; every case counts", Quick: 20000, Thorough: 500000, Fn: checkEnum})
}
