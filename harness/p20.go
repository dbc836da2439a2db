package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
	"pgregory.net/rapid"
)

// unchanged compares a model with a copy of what it was.
func unchanged(before, m *go3mf.Model, natt int) error {
	if d := exactDiff(before, m); d != "" {
		return errors.New("the failed import changed the model:\n" + d)
	}
	if len(m.Attachments) != natt {
		return fmt.Errorf("the failed import changed the attachments")
	}
	return nil
}

// pureText tells whether the data looks like an ASCII file as far as it goes.
func pureText(b []byte) bool {
	if len(b) > 300 {
		b = b[:300]
	}
	if len(b) < 5 || !strings.EqualFold(string(b[:5]), "solid") {
		return false
	}
	for _, x := range b {
		if x == 0 || x >= 0x80 {
			return false
		}
	}
	return true
}

// wholeVertices counts the lines that give a vertex.
func wholeVertices(b []byte) int {
	n := 0
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 4 && strings.EqualFold(f[0], "vertex") {
			n++
		}
	}
	return n
}

func drawSmallFacets(t *rapid.T) []facet {
	var fs []facet
	for i, n := 0, drawInt(t, 0, 7, "facets"); i < n; i++ {
		var f facet
		for k := range f {
			f[k] = corner{float32(drawInt(t, -9, 9, "x")), float32(drawInt(t, -9, 9, "y")), drawFloat(t, "z")}
		}
		fs = append(fs, f)
	}
	return fs
}

// checkCutSTL cuts binary files everywhere and lets reads fail everywhere.
func checkCutSTL(t *rapid.T, c *C) {
	fs := drawSmallFacets(t)
	r := drawRand(t, "seed")
	head := drawHeader(t)
	bin := binarySTL(head, fs, r)
	txt := drawASCIIStyle(t).bytes(fs, r)
	g := drawHost(t)
	before := copyModel(g.M)
	natt := len(g.Atts)
	fresh := host(g, before)
	m := fresh()
	fault := errors.New("injected read fault")
	c.Eval()
	try := func(b []byte, mode int, flt error, mustFail bool, fs []facet) {
		var err error
		err = stl.NewDecoder(&stlReader{b: b, mode: mode, r: r, fault: flt}).Decode(m)
		switch {
		case err != nil:
			if flt == nil && !mustFail && fs != nil {
				t.Fatalf("import fails: %v", err)
			}
			if e := unchanged(before, m, natt); e != nil {
				t.Fatalf("%v (%d bytes, error %v)", e, len(b), err)
			}
		case mustFail:
			t.Fatalf("no error although the data ends after %d of %d bytes (fault: %v):\n%q", len(b), len(bin), flt, clip(string(b), 1500))
		default:
			if fs != nil {
				if e := checkImported(before, m, fs, natt); e != nil {
					t.Fatalf("%v", e)
				}
			}
			m = fresh()
		}
	}
	c.Begin("data.stl", bin)
	// a truncated binary file
	for k := 0; k < len(bin); k += 1 + r.Intn(1+len(bin)/60) {
		if pureText(bin[:k]) {
			continue // not to be told from an ASCII file
		}
		try(bin[:k], r.Intn(5), nil, true, nil)
	}
	// reads that fail before all of the data is there
	for i := 0; i < 40; i++ {
		k := r.Intn(len(bin))
		try(bin[:k], r.Intn(5), fault, true, nil)
		if len(txt) > 0 {
			k = r.Intn(len(txt) + 1)
			try(txt[:k], r.Intn(5), fault, true, nil)
			// a shorter text either is taken for what it says or rejected
			try(txt[:k], r.Intn(5), nil, false, nil)
			if n := wholeVertices(txt[:k]); n%3 != 0 && pureText(txt[:k]) {
				try(txt[:k], r.Intn(5), nil, true, nil)
			}
		}
	}
	try(bin, r.Intn(5), nil, false, fs)
	if len(txt) > 0 && oneIn(t, 3, "longline") { // spaces at the end of a line: all of it or nothing
		at := r.Intn(len(txt) + 1)
		for at < len(txt) && txt[at] != '\n' && txt[at] != '\r' {
			at++
		}
		n := []int{4000, 63 << 10, 65 << 10, 200 << 10}[r.Intn(4)]
		long := append(append(append([]byte(nil), txt[:at]...), bytes.Repeat([]byte{" \t"[r.Intn(2)]}, n)...), txt[at:]...)
		m = fresh()
		if err := stl.NewDecoder(&stlReader{b: long, mode: r.Intn(5), r: r}).Decode(m); err != nil {
			if e := unchanged(before, m, natt); e != nil {
				t.Fatalf("%v (a line with %d spaces, error %v)", e, n, err)
			}
		} else if e := checkImported(before, m, fs, natt); e != nil {
			t.Fatalf("%v (a line with %d spaces at %d)\n%s", e, n, at, clip(string(txt), 2000))
		}
	}
	c.End()
	c.LabelIf(len(before.Resources.Objects) > 0, "populated-model")
	c.NonTrivial(bin)
	c.NonTrivial(txt)
	c.Sample(clip(fmt.Sprintf("%q", bin), 500))
}

var stlWords = []string{"solid", "SOLID ", "solid x\n", "facet normal 0 0 1\n", "outer loop\n", "vertex 0 0 0\n", "vertex 1 0 0\n", "vertex 0 1 0\n",
	"VERTEX 1 2 3\n", "vertex", "vertex 1 2\n", "vertex 1 2 3 4\n", "vertex nan 0 0\n", "vertex inf 1e400 0\n", "vertex 1e39 0 0\n", "vertex 0x1p4 1_0 0\n",
	"vertex -1 -0 1e-50\n", "vertex a b c\n", "endloop\n", "endfacet\n", "endsolid\n", "\r\n", "\t", " ", "\x00", "\xff", "\xef\xbb\xbf", "  ", "vertex 0 0 0 vertex 1 1 1\n", "\n\n\n", "\r"}

func drawHostileSTL(r *rand.Rand) []byte {
	var fs []facet
	for i, n := 0, r.Intn(6); i < n; i++ {
		fs = append(fs, facet{{0, 0, 0}, {1, 0, float32(i)}, {0, float32(i), 1}})
	}
	switch r.Intn(7) {
	case 0: // any bytes
		b := make([]byte, r.Intn(600))
		r.Read(b)
		return b
	case 1, 2: // words
		b := []byte{}
		if r.Intn(8) > 0 {
			b = append(b, "solid\n"...)
		}
		for i, n := 0, r.Intn(60); i < n; i++ {
			b = append(b, stlWords[r.Intn(len(stlWords))]...)
		}
		return b
	case 3: // a count that promises more than there is
		b := binarySTL(make([]byte, 80), fs, r)
		binary.LittleEndian.PutUint32(b[80:], []uint32{1, 7, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 1, r.Uint32(), uint32(len(fs) + 1)}[r.Intn(8)])
		return b
	case 4: // scrambled
		return scramble(binarySTL(make([]byte, 80), fs, r), r, 1+r.Intn(6), stlWords)
	case 5:
		return scramble(asciiStyle{nl: "\n", indent: []string{" "}, sep: []string{" "}, solids: 1}.bytes(fs, r), r, 1+r.Intn(6), stlWords)
	default: // long lines and many lines
		w := stlWords[r.Intn(len(stlWords))]
		b := []byte("solid\n")
		b = append(b, bytes.Repeat([]byte(w), 1+r.Intn(9000))...)
		if r.Intn(3) == 0 {
			b = bytes.ReplaceAll(b, []byte("\n"), []byte(" "))
		}
		return b
	}
}

func checkHostileSTL(t *rapid.T, c *C) {
	r := drawRand(t, "seed")
	b := drawHostileSTL(r)
	g := &Gen{M: new(go3mf.Model)}
	if oneIn(t, 8, "populated") {
		g = drawHost(t)
	}
	before := copyModel(g.M)
	m := host(g, before)()
	natt := len(g.Atts)
	c.Eval()
	var err error
	c.Begin("data.stl", b)
	if d := within(len(b), func() {
		err = stl.NewDecoder(&stlReader{b: b, mode: drawInt(t, 0, 4, "reader"), r: r}).DecodeContext(context.Background(), m)
	}); d != "" {
		t.Fatalf("%s:\n%q", d, clip(string(b), 2000))
	}
	c.End()
	c.LabelIf(err == nil, "imported")
	c.LabelIf(err != nil, "rejected")
	binaryForm := len(b) < 5 || !strings.EqualFold(string(b[:5]), "solid")
	enough := false
	var n uint32
	if len(b) >= 84 {
		n = binary.LittleEndian.Uint32(b[80:])
		enough = uint64(len(b)) >= 84+50*uint64(n)
	}
	if err != nil {
		if e := unchanged(before, m, natt); e != nil {
			t.Fatalf("%v\nimport error: %v\n%q", e, err, clip(string(b), 2000))
		}
		if binaryForm && enough {
			t.Fatalf("a complete binary file with %d facets is rejected: %v\n%q", n, err, clip(string(b), 2000))
		}
	} else {
		if len(m.Resources.Objects) != len(before.Resources.Objects)+1 {
			t.Fatalf("%d objects became %d", len(before.Resources.Objects), len(m.Resources.Objects))
		}
		mesh := m.Resources.Objects[len(m.Resources.Objects)-1].Mesh
		if binaryForm && (!enough || len(mesh.Triangles.Triangle) != int(n)) {
			t.Fatalf("%d triangles are imported, %d announced, %d bytes\n%q", len(mesh.Triangles.Triangle), n, len(b), clip(string(b), 2000))
		}
		for i, tr := range mesh.Triangles.Triangle {
			if k := uint32(len(mesh.Vertices.Vertex)); tr.V1 >= k || tr.V2 >= k || tr.V3 >= k {
				t.Fatalf("triangle %d is %v, there are %d vertices\n%q", i, tr, k, clip(string(b), 2000))
			}
		}
		rest := *m
		rest.Resources.Objects = before.Resources.Objects
		rest.Build.Items = before.Build.Items
		if e := unchanged(before, &rest, natt); e != nil {
			t.Fatalf("%v", e)
		}
	}
	if len(b) > 20 {
		c.NonTrivial(b)
	}
	c.Sample(clip(fmt.Sprintf("%q", b), 500))
}

func init() {
	register(&Sub{Prop: "P20", Name: "cut", Rule: "valid files cut at any offset, and reads that fail at any offset with and without data, through short, pausing and eager readers, into empty and populated models; non-trivial = every file, about 140 imports each",
		Quick: 1500, Thorough: 60000, Fn: checkCutSTL})
	register(&Sub{Prop: "P20", Name: "hostile", Rule: "arbitrary bytes, soups of keywords and hostile numbers, wrong facet counts, scrambled files, long lines; allocation bounded by the size of the data; non-trivial = more than 20 bytes",
		Quick: 40000, Thorough: 2000000, Fn: checkHostileSTL})
}
