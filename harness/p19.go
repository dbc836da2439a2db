package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
	"pgregory.net/rapid"
)

type corner = [3]float32
type facet = [3]corner

// builderAcc is the documented accuracy of the mesh builder the importer uses.
const builderAcc = 1e-6

// drawFacets draws a soup of triangles that share corners.
func drawFacets(t *rapid.T, c *C) []facet {
	var pool []corner
	for i, n := 0, drawInt(t, 1, 9, "corners"); i < n; i++ {
		switch drawInt(t, 0, 4, "corner") {
		case 0, 1:
			pool = append(pool, corner{float32(drawInt(t, -9, 9, "x")), float32(drawInt(t, -9, 9, "y")), float32(drawInt(t, -9, 9, "z"))})
		case 2:
			pool = append(pool, corner{drawFloat(t, "x"), drawFloat(t, "y"), drawFloat(t, "z")})
		default: // another corner with one coordinate changed, slightly or by sign
			p := corner{drawFloat(t, "x"), 1, 2}
			if len(pool) > 0 {
				p = pool[drawInt(t, 0, len(pool)-1, "of")]
			}
			k := drawInt(t, 0, 2, "axis")
			switch drawInt(t, 0, 4, "how") {
			case 0:
				p[k] = -p[k]
			case 1:
				p[k] += 1e-5
			case 2:
				p[k] += 0.001
			case 3:
				p[k] = math.Nextafter32(p[k], 1e30)
			default:
				p[0], p[1], p[2] = p[1], p[2], p[0]
			}
			for i := range p {
				if math.IsInf(float64(p[i]), 0) || math.IsNaN(float64(p[i])) {
					p[i] = 1
				}
			}
			pool = append(pool, p)
		}
	}
	n := drawInt(t, 0, 8, "facets")
	var fs []facet
	if oneIn(t, 12, "many") {
		n = drawInt(t, 900, 2600, "nmany")
		r := drawRand(t, "rnd")
		for i := 0; i < 300; i++ {
			pool = append(pool, corner{r.Float32()*200 - 100, float32(r.Intn(100)), float32(r.NormFloat64())})
		}
		for i := 0; i < n; i++ {
			fs = append(fs, facet{pool[r.Intn(len(pool))], pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]})
		}
		if c != nil {
			c.Label("many")
		}
		return fs
	}
	for i := 0; i < n; i++ {
		var f facet
		for k := range f {
			f[k] = pool[drawInt(t, 0, len(pool)-1, "pick")]
		}
		fs = append(fs, f)
	}
	return fs
}

// drawHeader draws the 80 bytes a binary file starts with.
func drawHeader(t *rapid.T) []byte {
	h := make([]byte, 80)
	switch drawInt(t, 0, 5, "header") {
	case 0:
	case 1:
		copy(h, "solid produced by something")
	case 2:
		copy(h, "SOLID "+strings.Repeat(" ", 80))
	case 3:
		copy(h, "solid "+strings.Repeat("vertex 1 2 3\n", 10))
	case 4:
		copy(h, "binary file \xe9\xff with anything")
	default:
		copy(h, rapid.SliceOfN(rapid.Byte(), 80, 80).Draw(t, "hdr"))
	}
	return h
}

func binarySTL(header []byte, fs []facet, r *rand.Rand) []byte {
	b := append([]byte(nil), header...)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(fs)))
	for _, f := range fs {
		for i := 0; i < 3; i++ { // the normal is not trusted
			b = binary.LittleEndian.AppendUint32(b, []uint32{0, 0x3f800000, r.Uint32()}[r.Intn(3)])
		}
		for _, p := range f {
			for _, v := range p {
				b = binary.LittleEndian.AppendUint32(b, math.Float32bits(v))
			}
		}
		b = binary.LittleEndian.AppendUint16(b, []uint16{0, uint16(r.Uint32())}[r.Intn(2)])
	}
	return b
}

// number writes a float in one of the ways a C or Go program would.
func number(v float32, r *rand.Rand) string {
	var s string
	switch r.Intn(8) {
	case 7: // just above the middle between this number and the one below
		x := math.Abs(float64(v))
		s = strconv.FormatFloat(float64(v), 'g', -1, 32)
		if x > 1e-6 && x < 1e9 {
			mid := (x + float64(math.Nextafter32(float32(x), 0))) / 2
			s = strings.TrimRight(strconv.FormatFloat(mid, 'f', 120, 64), "0") + "00000001"
			if v < 0 {
				s = "-" + s
			}
		}
	case 0:
		s = strconv.FormatFloat(float64(v), 'e', -1, 32)
	case 1:
		s = strconv.FormatFloat(float64(v), 'f', -1, 32)
	case 2:
		s = strconv.FormatFloat(float64(v), 'E', -1, 64)
	case 3:
		s = fmt.Sprintf("%.9e", v)
	case 4:
		s = fmt.Sprintf("%.17g", float64(v))
	case 5:
		s = strings.Replace(strconv.FormatFloat(float64(v), 'g', -1, 32), "0.", ".", 1)
		if strings.Contains(s, "e") || strings.HasSuffix(s, ".") || !strings.HasPrefix(strings.TrimPrefix(s, "-"), ".") {
			s = strconv.FormatFloat(float64(v), 'g', -1, 32)
		}
	default:
		s = strconv.FormatFloat(float64(v), 'g', -1, 32)
	}
	if r.Intn(6) == 0 && s[0] != '-' {
		s = "+" + s
	}
	if w, err := strconv.ParseFloat(s, 32); err != nil || float32(w) != v {
		s = strconv.FormatFloat(float64(v), 'g', -1, 32)
	}
	return s
}

type asciiStyle struct {
	words        int // 0 lower, 1 upper, 2 title
	nl           string
	indent       []string
	sep          []string
	name         string
	solids       int
	blank, endNL bool
	fancy        bool
	noEndSolid   bool
}

func drawASCIIStyle(t *rapid.T) asciiStyle {
	return asciiStyle{
		words:  pick(t, "words", 0, 0, 1, 2),
		nl:     pick(t, "nl", "\n", "\n", "\r\n"),
		indent: pick(t, "indent", []string{""}, []string{" ", "  ", "    ", "      "}, []string{"\t", "\t\t", "\t \t"}, []string{"", " ", "\t"}),
		sep:    pick(t, "sep", []string{" "}, []string{" "}, []string{"  ", " ", "\t"}),
		name: pick(t, "name", "", " ", " cube", " a b c", " vertex 1 2 3", " facet normal 0 0 0", " "+strings.Repeat("long name ", 40),
			"_glued", "\t[x] <>&\"'"),
		solids:     pick(t, "solids", 1, 1, 1, 2, 3),
		blank:      oneIn(t, 4, "blank"),
		endNL:      drawBool(t, "endnl"),
		fancy:      drawBool(t, "fancy"),
		noEndSolid: oneIn(t, 10, "no-endsolid"),
	}
}

func (s asciiStyle) bytes(fs []facet, r *rand.Rand) []byte {
	var b bytes.Buffer
	word := func(w string) string {
		switch s.words {
		case 1:
			return strings.ToUpper(w)
		case 2:
			return strings.ToUpper(w[:1]) + w[1:]
		}
		return w
	}
	sep := func() string { return s.sep[r.Intn(len(s.sep))] }
	num := func(v float32) string {
		if s.fancy {
			return number(v, r)
		}
		return strconv.FormatFloat(float64(v), 'g', -1, 32)
	}
	line := func(parts ...string) {
		for i, p := range parts {
			if i > 0 {
				b.WriteString(sep())
			}
			b.WriteString(p)
		}
		b.WriteString(s.nl)
		if s.blank && r.Intn(5) == 0 {
			b.WriteString(s.nl)
		}
	}
	ind := func() { b.WriteString(s.indent[r.Intn(len(s.indent))]) }
	for k := 0; k < s.solids; k++ {
		part := fs[len(fs)*k/s.solids : len(fs)*(k+1)/s.solids]
		b.WriteString(word("solid") + s.name + s.nl)
		for _, f := range part {
			ind()
			line(word("facet"), word("normal"), num(0), num(0), num(float32(r.Intn(2))))
			ind()
			line(word("outer"), word("loop"))
			for _, p := range f {
				ind()
				line(word("vertex"), num(p[0]), num(p[1]), num(p[2]))
			}
			ind()
			line(word("endloop"))
			ind()
			line(word("endfacet"))
		}
		if !s.noEndSolid {
			b.WriteString(word("endsolid") + s.name + s.nl)
		}
	}
	out := b.Bytes()
	if !s.endNL {
		out = bytes.TrimRight(out, "\r\n")
	}
	return out
}

// stlReader hands out data in various ways, which may end with a fault.
type stlReader struct {
	b     []byte
	mode  int // 0 all, 1 single bytes, 2 pieces, 3 with pauses, 4 the end comes with the data
	r     *rand.Rand
	fault error // after the data, instead of the end of the file
	hook  func(pos int)
	pos   int
	idle  int
}

func (s *stlReader) Read(p []byte) (int, error) {
	if s.hook != nil {
		s.hook(s.pos)
	}
	end := s.fault
	if end == nil {
		end = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos == len(s.b) {
		return 0, end
	}
	n := len(p)
	switch s.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + s.r.Intn(min(n, 700))
	case 3:
		if s.idle < 3 && s.r.Intn(3) == 0 {
			s.idle++
			return 0, nil
		}
		s.idle = 0
		n = 1 + s.r.Intn(n)
	}
	n = copy(p[:n], s.b[s.pos:])
	s.pos += n
	if s.pos == len(s.b) && s.mode == 4 {
		return n, end
	}
	return n, nil
}

func importSTL(b []byte, mode int, r *rand.Rand, m *go3mf.Model) error {
	d := stl.NewDecoder(&stlReader{b: b, mode: mode, r: r})
	if r.Intn(2) == 0 {
		return d.Decode(m)
	}
	return d.DecodeContext(context.Background(), m)
}

// checkImported compares the model after an import with the one before it.
func checkImported(before, got *go3mf.Model, fs []facet, natt int) error {
	no, ni := len(before.Resources.Objects), len(before.Build.Items)
	if len(got.Resources.Objects) != no+1 || len(got.Build.Items) != ni+1 {
		return fmt.Errorf("%d objects and %d items became %d and %d", no, ni, len(got.Resources.Objects), len(got.Build.Items))
	}
	o, it := got.Resources.Objects[no], got.Build.Items[ni]
	rest := *got
	rest.Resources.Objects, rest.Build.Items = got.Resources.Objects[:no:no], got.Build.Items[:ni:ni]
	if no == 0 {
		rest.Resources.Objects = before.Resources.Objects
	}
	if ni == 0 {
		rest.Build.Items = before.Build.Items
	}
	if d := exactDiff(before, &rest); d != "" {
		return errors.New("the model changed besides the new object and item:\n" + d)
	}
	if len(got.Attachments) != natt {
		return fmt.Errorf("%d attachments became %d", natt, len(got.Attachments))
	}
	if o == nil || it == nil || o.Mesh == nil || o.Components != nil || o.Type != go3mf.ObjectTypeModel {
		return fmt.Errorf("no mesh object was added: %+v", o)
	}
	if o.ID == 0 || o.ID > math.MaxInt32 {
		return fmt.Errorf("the identifier %d is not valid", o.ID)
	}
	for _, x := range before.Resources.Objects {
		if x.ID == o.ID {
			return fmt.Errorf("the identifier %d belongs to an object already", o.ID)
		}
	}
	for _, x := range before.Resources.Assets {
		if x.Identify() == o.ID {
			return fmt.Errorf("the identifier %d belongs to an asset already", o.ID)
		}
	}
	if it.ObjectID != o.ID || it.HasTransform() || it.ObjectPath() != "" {
		return fmt.Errorf("the item %+v does not stand for the object %d", it, o.ID)
	}
	return checkFacets(o.Mesh, fs)
}

func checkFacets(mesh *go3mf.Mesh, fs []facet) error {
	ts, vs := mesh.Triangles.Triangle, mesh.Vertices.Vertex
	if len(ts) != len(fs) {
		return fmt.Errorf("%d triangles instead of %d", len(ts), len(fs))
	}
	for i, tr := range ts {
		for k, v := range [3]uint32{tr.V1, tr.V2, tr.V3} {
			if int(v) >= len(vs) {
				return fmt.Errorf("triangle %d uses the vertex %d of %d", i, v, len(vs))
			}
			for a := range vs[v] {
				w, g := float64(fs[i][k][a]), float64(vs[v][a])
				if d := math.Abs(w - g); !(d <= builderAcc*1.0001) {
					return fmt.Errorf("corner %d of triangle %d is at %v, the file says %v", k, i, vs[v], fs[i][k])
				}
			}
		}
		if tr.PID != 0 || tr.P1 != 0 || tr.P2 != 0 || tr.P3 != 0 {
			return fmt.Errorf("triangle %d has properties: %+v", i, tr)
		}
	}
	return nil
}

func sameObject(a, b *go3mf.Object) string {
	if (eq{}).equal(reflect.ValueOf(a), reflect.ValueOf(b)) {
		return ""
	}
	return diffAny(a, b, precSame)
}

func drawHost(t *rapid.T) *Gen {
	if !oneIn(t, 3, "populated-model") {
		return &Gen{M: new(go3mf.Model)}
	}
	o := allOpts(-1)
	o.MaxObj, o.ManyChildren = 3, 0
	return genModel(t, o)
}

// host returns copies of a model to import into.
func host(g *Gen, before *go3mf.Model) func() *go3mf.Model {
	return func() *go3mf.Model {
		m := copyModel(before)
		m.Attachments = g.Model().Attachments
		return m
	}
}

// drawHuge draws many triangles.
func drawHuge(t *rapid.T, huger bool) []facet {
	r := drawRand(t, "rnd")
	n := drawInt(t, 5000, 20000, "n")
	if oneIn(t, 3, "huge") {
		n = drawInt(t, 65000, 140000, "n")
	}
	if huger {
		n = 140000 + r.Intn(460000)
	}
	pool := make([]corner, drawInt(t, 100, 3*n, "corners"))
	for i := range pool {
		pool[i] = corner{float32(r.Intn(2000)) / 8, float32(r.Intn(2000)) / 4, float32(r.Intn(2000)) - 1000}
	}
	fs := make([]facet, n)
	for i := range fs {
		fs[i] = facet{pool[r.Intn(len(pool))], pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]}
	}
	return fs
}

func checkHugeSTL(t *rapid.T, c *C, huger bool) {
	fs := drawHuge(t, huger)
	r := drawRand(t, "seed")
	c.LabelIf(len(fs) > 65536, "triangles:65537+")
	txt := drawASCIIStyle(t).bytes(fs[:min(len(fs), 40000)], r)
	for i, b := range [][]byte{binarySTL(drawHeader(t), fs, r), txt} {
		if i == 1 {
			fs = fs[:min(len(fs), 40000)]
		}
		c.Eval()
		m := new(go3mf.Model)
		if err := importSTL(b, pick(t, "reader", 0, 2, 4), r, m); err != nil {
			t.Fatalf("import of a valid file of %d triangles fails: %v", len(fs), err)
		}
		if err := checkImported(new(go3mf.Model), m, fs, 0); err != nil {
			t.Fatalf("file of %d triangles: %v", len(fs), err)
		}
		c.NonTrivial(b[:min(len(b), 2000)])
	}
	c.Sample(fmt.Sprint(len(fs), " triangles"))
}

func checkSTL(t *rapid.T, c *C) {
	fs := drawFacets(t, c)
	r := drawRand(t, "seed")
	bin := append(binarySTL(drawHeader(t), fs, r), rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "trailing")...)
	style := drawASCIIStyle(t)
	txt := style.bytes(fs, r)
	g := drawHost(t)
	before := copyModel(g.M)
	natt := len(g.Atts)
	fresh := host(g, before)
	c.Eval()
	c.LabelIf(style.words == 1, "upper-case")
	c.LabelIf(natt > 0, "attachments")
	var first *go3mf.Object
	again := oneIn(t, 3, "again")
	for i, b := range [][]byte{bin, txt} {
		c.Begin([]string{"binary.stl", "ascii.stl"}[i], b)
		m := fresh()
		if err := importSTL(b, drawInt(t, 0, 4, "reader"), r, m); err != nil {
			t.Fatalf("import of a valid file fails: %v\n%s", err, clip(string(b), 2000))
		}
		if err := checkImported(before, m, fs, natt); err != nil {
			t.Fatalf("%v\n%s", err, clip(fmt.Sprintf("%q", b), 2000))
		}
		o := *m.Resources.Objects[len(m.Resources.Objects)-1]
		if first == nil {
			first = &o
		} else if d := sameObject(first, &o); d != "" {
			t.Fatalf("the ASCII form imports to another object than the binary form:\n%s\n%s", d, clip(string(txt), 2000))
		}
		if again { // a second import of it adds a second object
			mid := copyModel(m)
			if err := importSTL(b, 0, r, m); err != nil {
				t.Fatalf("second import fails: %v", err)
			}
			if err := checkImported(mid, m, fs, natt); err != nil {
				t.Fatalf("second import: %v", err)
			}
		}
	}
	c.End()
	if len(fs) > 1 {
		c.NonTrivial(bin)
		c.NonTrivial(txt)
	}
	c.LabelIf(len(before.Resources.Objects)+len(before.Resources.Assets) > 0, "populated-model")
	c.Sample(clip(string(txt), 800))
}

func init() {
	register(&Sub{Prop: "P19", Name: "import", Rule: "soups of up to 2600 triangles with shared, near and degenerate corners, written by an independent writer as binary (any header, normals, attribute bytes, trailing bytes) and ASCII (case, line ends, indentation, number spellings, solid names, several solids), read through short, pausing and eager readers into empty and populated models; non-trivial = two or more triangles",
		Quick: 8000, Thorough: 400000, Fn: checkSTL})
	register(&Sub{Prop: "P19", Name: "huge", Rule: "binary files of up to 140000 and ASCII files of up to 40000 triangles; each counts", Quick: 40, Thorough: 1500, Fn: func(t *rapid.T, c *C) { checkHugeSTL(t, c, false) }})
	register(&Sub{Prop: "P19", Name: "huger", Rule: "binary files of 140000 to 600000 triangles; each counts", Quick: 8, Thorough: 250, Fn: func(t *rapid.T, c *C) { checkHugeSTL(t, c, true) }})
}
