package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"pgregory.net/rapid"
)

// rootSpan finds where the root element starts; docs drawn here end with it.
func rootStart(doc []byte) int {
	for i := 0; i < len(doc); {
		switch {
		case bytes.HasPrefix(doc[i:], []byte("<!--")):
			i += 4 + bytes.Index(doc[i+4:], []byte("-->")) + 3
		case bytes.HasPrefix(doc[i:], []byte("<?")):
			i += 2 + bytes.Index(doc[i+2:], []byte("?>")) + 2
		case doc[i] == '<':
			return i
		default:
			i++
		}
	}
	return len(doc)
}

// fatten adds a mesh that needs more than one read buffer.
func fatten(t *rapid.T, m *go3mf.Model) {
	n := drawInt(t, 60, 500, "bigmesh")
	mesh := new(go3mf.Mesh)
	for i := 0; i < n; i++ {
		mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, go3mf.Point3D{float32(i) / 4, float32(i % 7), float32(i*i%11) + 0.125})
		mesh.Triangles.Triangle = append(mesh.Triangles.Triangle, go3mf.Triangle{V1: uint32(i), V2: uint32((i + 1) % n), V3: uint32((i + 2) % n)})
	}
	res := &m.Resources
	if ps := sortedChilds(m); len(ps) > 0 && drawBool(t, "bigchild") {
		res = &m.Childs[ps[0]].Resources
	}
	res.Objects = append(res.Objects, &go3mf.Object{ID: res.UnusedID(), Mesh: mesh})
}

// drawClosedDoc draws a model and its document, which ends with the end tag of the root.
func drawClosedDoc(t *rapid.T, o GenOpts, tagsOnly bool) (*go3mf.Model, []byte) {
	o.Prec, o.Children, o.Attach = -1, false, false
	g := genModel(t, o)
	if oneIn(t, 6, "big") {
		fatten(t, g.M)
	}
	s := drawSpelling(t, nil)
	s.f[fTrailing] = false
	if tagsOnly {
		for _, f := range []int{fPI, fComment, fCDATA, fTextComment, fDecl} {
			s.f[f] = false
		}
	}
	return g.M, s.document(buildDOM(g.M, ""), g.M.Extensions)
}

// cutPoints draws offsets inside [lo,hi), all of them for small ranges.
func cutPoints(t *rapid.T, doc []byte, lo, hi, n int) []int {
	seen := map[int]bool{}
	r := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "cutseed"))))
	for i := 0; i < n && hi > lo; i++ {
		k := lo + r.Intn(hi-lo)
		switch r.Intn(4) {
		case 0: // next to a tag
			if j := bytes.IndexAny(doc[k:hi], "<>/"); j >= 0 {
				k += j + r.Intn(2)
			}
		case 1: // near the end
			k = hi - 1 - r.Intn(min(hi-lo, 60))
		case 2: // around a buffer boundary
			if b := lo/4096*4096 + 4096; b < hi {
				k = b + r.Intn(5) - 2
			}
		}
		if k >= lo && k < hi {
			seen[k] = true
		}
	}
	var out []int
	for k := range seen {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func checkTruncatedDoc(t *rapid.T, c *C) {
	o := allOpts(-1)
	o.MaxObj = 2
	_, doc := drawClosedDoc(t, o, false)
	lo := rootStart(doc) + 1
	n := 24
	if len(doc) < 600 {
		n = 200
	}
	for _, k := range cutPoints(t, doc, lo, len(doc), n) {
		c.Begin("model.xml", doc[:k])
		c.Eval()
		if err := go3mf.UnmarshalModel(doc[:k:k], new(go3mf.Model)); err == nil {
			t.Fatalf("a document of %d bytes cut after %d bytes is decoded without error:\n%s", len(doc), k, clip(string(doc[:k]), 4000))
		}
		c.LabelIf(k > 4096, "cut:after-first-buffer")
		c.NonTrivial(append([]byte(fmt.Sprint(k)), doc...))
	}
	c.Sample(clip(string(doc), 800))
}

// onlyValues tells whether an error says nothing but that values could not be parsed.
func onlyValues(err error) bool {
	for _, e := range flatten(err) {
		var v *specerr.ParseAttrError
		if !errors.As(e, &v) {
			return false
		}
	}
	return true
}

// checkTruncatedBad: bad values in a truncated document do not make it look complete.
func checkTruncatedBad(t *rapid.T, c *C) {
	o := allOpts(-1)
	o.MaxObj, o.Children, o.Attach = 2, false, false
	g := genModel(t, o)
	d := drawBadDoc(t, g, "", 4)
	doc := bytes.TrimRight(d.doc, " \t\r\n")
	if len(d.reports) == 0 || !bytes.HasSuffix(doc, []byte(">")) || bytes.HasSuffix(doc, []byte("?>")) || bytes.HasSuffix(doc, []byte("-->")) {
		return
	}
	for _, k := range cutPoints(t, doc, rootStart(doc)+1, len(doc), 24) {
		c.Begin("model.xml", doc[:k])
		c.Eval()
		err := go3mf.UnmarshalModel(doc[:k:k], new(go3mf.Model))
		if err == nil {
			t.Fatalf("a document of %d bytes cut after %d bytes is decoded without error:\n%s", len(doc), k, clip(string(doc[:k]), 4000))
		}
		if onlyValues(err) {
			t.Fatalf("a document of %d bytes cut after %d bytes is said to have nothing but bad values (%v):\n%s", len(doc), k, err, clip(string(doc[:k]), 4000))
		}
		c.NonTrivial(append([]byte(fmt.Sprint(k)), doc...))
	}
	c.Sample(clip(string(doc), 800))
}

// tagAt returns the tags of a document without comments, instructions and CDATA.
func tags(doc string) (out [][2]int) {
	for i := 0; i < len(doc); {
		j := strings.IndexByte(doc[i:], '<')
		if j < 0 {
			break
		}
		j += i
		e, q := j, byte(0)
		for ; ; e++ {
			ch := doc[e]
			if q != 0 {
				if ch == q {
					q = 0
				}
			} else if ch == '"' || ch == '\'' {
				q = ch
			} else if ch == '>' {
				break
			}
		}
		out = append(out, [2]int{j, e + 1})
		i = e + 1
	}
	return
}

func checkMismatchedTags(t *rapid.T, c *C) {
	o := allOpts(-1)
	o.MaxObj = 2
	_, d := drawClosedDoc(t, o, true)
	doc := string(d)
	tg := tags(doc)
	var ends, starts, empties [][2]int
	for _, x := range tg {
		s := doc[x[0]:x[1]]
		switch {
		case strings.HasPrefix(s, "</"):
			ends = append(ends, x)
		case strings.HasSuffix(s, "/>"):
			empties = append(empties, x)
		default:
			starts = append(starts, x)
		}
	}
	kind := pick(t, "tagfault", "drop-end", "rename-end", "extra-end", "open-empty", "close-start", "reprefix", "swap", "long-name")
	at := func(xs [][2]int) [2]int { return xs[drawInt(t, 0, len(xs)-1, "tag")] }
	bad := ""
	switch {
	case kind == "drop-end" && len(ends) > 0:
		x := at(ends)
		bad = doc[:x[0]] + doc[x[1]:]
	case kind == "rename-end" && len(ends) > 0:
		x := at(ends)
		if oneIn(t, 3, "longest") {
			for _, y := range ends {
				if y[1]-y[0] > x[1]-x[0] {
					x = y
				}
			}
		}
		s := strings.TrimRight(strings.TrimSuffix(doc[x[0]:x[1]], ">"), " \t\r\n")
		switch drawInt(t, 0, 5, "rename") {
		case 4, 5: // one letter, the length stays
			b := []byte(s)
			i := drawInt(t, 2, len(b)-1, "letter")
			if b[i] == ':' || b[i] >= 0x80 {
				return
			}
			if b[i] = b[i] + 1; b[i] < 'a' || b[i] > 'z' {
				b[i] = 'a'
			}
			if string(b) == s {
				b[i] = 'b'
			}
			s = string(b)
		case 0:
			s += "x"
		case 1:
			s = s[:len(s)-1]
			if s == "</" || strings.HasSuffix(s, ":") {
				return
			}
		case 2:
			s = "</" + strings.ToUpper(s[2:])
			if s == doc[x[0]:x[0]+len(s)] {
				return
			}
		default:
			y := at(ends)
			s2 := strings.TrimRight(strings.TrimSuffix(doc[y[0]:y[1]], ">"), " \t\r\n")
			if s2 == s {
				return
			}
			s = s2
		}
		bad = doc[:x[0]] + s + ">" + doc[x[1]:]
	case kind == "long-name" && len(ends) > 0:
		x := at(ends)
		b := make([]byte, drawInt(t, 8, 300, "length"))
		r := drawRand(t, "letters")
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		name := string(b)
		i := r.Intn(len(b))
		b[i] = 'a' + (b[i]-'a'+1)%26
		bad = doc[:x[0]] + `<o:` + name + ` xmlns:o="urn:other">` + "</o:" + string(b) + ">" + doc[x[0]:]
	case kind == "extra-end" && len(tg) > 0:
		x := at(tg)
		name := "model"
		if len(ends) > 0 && drawBool(t, "known") {
			y := at(ends)
			name = doc[y[0]+2 : y[1]-1]
		}
		bad = doc[:x[1]] + "</" + name + ">" + doc[x[1]:]
	case kind == "open-empty" && len(empties) > 0:
		x := at(empties)
		bad = doc[:x[1]-2] + ">" + doc[x[1]:]
	case kind == "close-start" && len(starts) > 0:
		x := at(starts)
		bad = doc[:x[1]-1] + "/>" + doc[x[1]:]
	case kind == "reprefix" && len(ends) > 0:
		x := at(ends)
		s := doc[x[0]+2 : x[1]-1]
		if i := strings.IndexByte(s, ':'); i >= 0 {
			s = pick(t, "newprefix", "", "zz:", "xml:") + s[i+1:]
		} else {
			s = pick(t, "newprefix", "m:", "zz:", "xml:") + s
		}
		bad = doc[:x[0]] + "</" + s + ">" + doc[x[1]:]
	case kind == "swap" && len(ends) > 1:
		i := drawInt(t, 0, len(ends)-2, "swap")
		x, y := ends[i], ends[i+1]
		if doc[x[0]:x[1]] == doc[y[0]:y[1]] {
			return
		}
		bad = doc[:x[0]] + doc[y[0]:y[1]] + doc[x[1]:y[0]] + doc[x[0]:x[1]] + doc[y[1]:]
	default:
		return
	}
	if _, err := parseXML([]byte(bad)); err == nil {
		return // the tags still match
	}
	c.Begin("model.xml", []byte(bad))
	c.Eval()
	c.Label("tags:" + kind)
	if err := go3mf.UnmarshalModel([]byte(bad), new(go3mf.Model)); err == nil {
		t.Fatalf("a document with mismatched tags (%s) is decoded without error:\n%s", kind, clip(bad, 4000))
	}
	c.NonTrivial([]byte(bad))
	c.Sample(kind + ": " + clip(bad, 600))
}

// lenient: what encoding/xml refuses and this reader has never minded. It is no matter of
// how the document is put together.
var lenient = regexp.MustCompile(`invalid XML name|illegal character code|invalid UTF-8|unsupported version|encoding .* declared|unescaped \]\]>`)

var oddColon = regexp.MustCompile(`[<>/\s"'?!=]:|::|:[\s=>/"'?]`)

var twoColons = regexp.MustCompile(`[\w.-]:[\w.-]+:`)

// checkBrokenMarkup: one character is inserted, removed or replaced; the document is refused
// when encoding/xml refuses it, and is no syntax error otherwise.
func checkBrokenMarkup(t *rapid.T, c *C) {
	o := allOpts(-1)
	o.MaxObj = 1
	_, doc := drawClosedDoc(t, o, false)
	r := drawRand(t, "seed")
	const chars = "<<>>/=\"'&;! -?[]ax0"
	var bad []byte
	var what string
	for k := 0; k < 20; k++ {
		i := r.Intn(len(doc))
		if r.Intn(2) == 0 { // near the start of a tag
			i = min(len(doc)-1, max(0, bytes.LastIndexByte(doc[:i], '<'))+r.Intn(12))
		}
		ch := chars[r.Intn(len(chars))]
		head, tail := doc[:i:i], doc[i+1:]
		switch r.Intn(4) {
		case 0:
			bad, what = append(append(head, ch), doc[i:]...), "inserted"
		case 1:
			bad, what = append(head, tail...), "removed"
		case 2:
			bad, what = append(append(head, doc[i]), doc[i:]...), "doubled"
		default:
			bad, what = append(append(head, ch), tail...), "replaced"
		}
		judgeMarkup(t, c, bad, i, i+1, what, k == 0)
	}
}

// judgeMarkup: what was changed lies in [i,j).
func judgeMarkup(t *rapid.T, c *C, bad []byte, i, j int, what string, sample bool) {
	if oddColon.Match(bad[max(0, i-2):min(len(bad), j+2)]) {
		return
	}
	d := xml.NewDecoder(bytes.NewReader(bad))
	var std error
	for std == nil {
		_, std = d.Token()
	}
	if std == io.EOF {
		std = nil
	} else if lenient.MatchString(std.Error()) || twoColons.Match(bad[max(0, i-30):min(len(bad), j+29)]) {
		return
	}
	if std == nil {
		if _, e := parseXML(bad); e != nil {
			return // encoding/xml is lenient as well
		}
	}
	c.Begin("model.xml", bad)
	c.Eval()
	err := go3mf.UnmarshalModel(bad, new(go3mf.Model))
	c.End()
	around := fmt.Sprintf("%q (byte %d %s)", bad[max(0, i-60):min(len(bad), j+39)], i, what)
	var syntax *xml.SyntaxError
	if std != nil && (err == nil || onlyValues(err)) {
		t.Fatalf("a malformed document (%v) is decoded without a syntax error (%v) near %s", std, err, around)
	}
	if std == nil && errors.As(err, &syntax) {
		t.Fatalf("a well-formed document is refused with %v near %s", err, around)
	}
	c.LabelIf(std == nil, "still-well-formed")
	if std != nil {
		c.Label("broken:" + what)
		c.NonTrivial(bad)
	}
	if sample {
		c.Sample(fmt.Sprintf("%v: %s", std, around))
	}
}

var (
	oddContent = []string{`</>`, `<>`, `< >`, `< />`, `< a/>`, `</ a>`, `<a`, `<a b>`, `<a b></a>`, `<a b=></a>`, `<a b=c/>`, `<a b='<'/>`, `<a 'x'/>`, `<a/ >`, `<a / >`, `<a =''/>`, `<a ="x"/>`,
		`<a b='1'/>`, `<a b = '1' />`, `<a b='>'/>`, `<a b='"'/>`, `<a b="1'/>`, `<a b='1' c/>`, `<a b='1' 'c'/>`, `<a b='1' =c/>`, `<a b='1'/b>`, `<a><a/></a>`, `<a></a >`, `<a></a b="1">`, `<a></a/>`, `<a></a`, `<a></b>`, `<a></A>`, `<a></ab>`, `<ab></a>`, `<a><b></a></b>`, `<a></a></a>`,
		`&`, `&;`, `&#;`, `&#x;`, `&#1A;`, `&#xG;`, `&#xg1;`, `&#-5;`, `&#+5;`, `&#x-5;`, `&nosuch;`, `&amp`, `&amp ;`, `& amp;`, `&#x110000;`, `&#x7fffffffff;`, `&#99999999999999999999;`, `&#65;`, `&#x41;`, `&#X41;`, `&#x4a;`, `&#x4A;`, `&#00065;`, `&lt;`, `&gt;`, `&apos;`, `&quot;`, `&amp;`, `&AMP;`, `&lt`, `&#65`,
		`<!-- -- -->`, `<!-->`, `<!--->`, `<!---->`, `<!-- a --->`, `<!-- a - b -->`, `<!-- a->b -->`, `<!-- <a> -->`, `<!-- & -->`, `<!- a -->`, `<!-- a --`, `<!-- a -- >`, `<!>`, `<!-`, `<!--`,
		`<![CDATA[`, `<![CDATA[]]>`, `<![CDATA[]]]>`, `<![CDATA[]]]]>`, `<![CDATA[x]]`, `<![CDATA[x]>`, `<![CDATA[x] ]>`, `<![CDATA[<a>&amp;</b>]]>`, `<![cdata[x]]>`, `<![CDAT[x]]>`, `<! [CDATA[x]]>`, `<![CDATA [x]]>`, `<![CDATA[x]]>]`,
		`<?>`, `<??>`, `<? ?>`, `<?x`, `<?x>`, `<?x ?`, `<?x?>`, `<?x y>?>`, `<?x ??>`, `<?x y? ?>`, `<?x y ? >`, `< ?x?>`, `<?x </a> ?>`}
	oddInTag = []string{` b`, ` b=`, ` b=c`, ` b=1`, ` b='`, ` b='x`, ` b="x'`, ` b='<'`, ` b='&'`, ` b='&amp;'`, ` b='&amp'`, ` b='&#1A;'`, ` b='&#x1A;'`, ` b='&#65;'`, ` b='&nosuch;'`, ` b='>'`, ` b='/>'`, ` b=' '`, ` b=''`, ` b = ''`, ` b
= ''`, ` ='x'`, ` 'x'`, ` "`, ` /`, `/`, ` <`, `<a`, ` &`, ` =`, `=`, ` b=='x'`, ` b='x'=`, ` b='x''`, ` b='x' "y"`, ` b:='x'`, ` b='x'/`}
	oddInValue = []string{`<`, `&`, `&;`, `&amp`, `&amp;`, `&#65;`, `&#x41;`, `&#1A;`, `&#xG;`, `&nosuch;`, `&lt;`, `<!-- -->`, `<![CDATA[x]]>`, `>`, `/>`, `"`, `'`, `=`, `&#`, `&#x`, `&amp&`, `&&amp;`, `&#x110000;`}
)

// checkOddMarkup: pieces of markup, sound and odd ones, are put between tags, into tags and into values.
func checkOddMarkup(t *rapid.T, c *C) {
	o := allOpts(-1)
	o.MaxObj = 1
	_, doc := drawClosedDoc(t, o, true)
	r := drawRand(t, "seed")
	lo := rootStart(doc)
	for k := 0; k < 12; k++ {
		kind := pickOf(r, []string{"content", "content", "tag", "value"})
		var at []int
		var piece string
		for i := lo + 1; i < len(doc); i++ {
			switch {
			case kind == "content" && doc[i-1] == '>' && i < len(doc)-1:
				at = append(at, i)
			case kind == "tag" && (doc[i] == '>' || doc[i] == '/' && i+1 < len(doc) && doc[i+1] == '>') && doc[i-1] != '/':
				at = append(at, i)
			case kind == "value" && doc[i-1] == '=' && (doc[i] == '"' || doc[i] == '\''):
				at = append(at, i+1)
			}
		}
		if len(at) == 0 {
			continue
		}
		switch kind {
		case "content":
			piece = pickOf(r, oddContent)
		case "tag":
			piece = pickOf(r, oddInTag)
		default:
			piece = pickOf(r, oddInValue)
		}
		i := pickOf(r, at)
		bad := append(append(append([]byte(nil), doc[:i]...), piece...), doc[i:]...)
		judgeMarkup(t, c, bad, i, i+len(piece), "in "+kind, k == 0)
	}
}

// drawPackage lays out a model with child parts.
func drawPackage(t *rapid.T, edit func(part string, doc []byte) []byte) (*Gen, *outPkg, []byte) {
	o := allOpts(-1)
	o.MaxObj = 2
	g := genModel(t, o)
	if oneIn(t, 3, "big") {
		fatten(t, g.M)
	}
	spell := map[string]*speller{}
	for _, p := range append([]string{""}, sortedChilds(g.M)...) {
		spell[p] = drawSpelling(t, nil)
		spell[p].f[fTrailing] = false
	}
	style, r := drawStyle(t, nil)
	pk := packageOf(g, func(part string) []byte {
		d := spell[part].document(buildDOM(g.M, part), g.M.Extensions)
		if edit != nil {
			d = edit(part, d)
		}
		return d
	})
	return g, pk, pk.bytes(style, r)
}

func modelParts(g *Gen) []string {
	return append([]string{g.M.PathOrDefault()}, sortedChilds(g.M)...)
}

// checkTruncatedPart: one part of a package is cut, the package itself is sound.
func checkTruncatedPart(t *rapid.T, c *C) {
	var which, cut int
	seen, label := 0, ""
	pickPart := drawInt(t, 0, 3, "part")
	var g *Gen
	g, _, b := drawPackage(t, func(part string, doc []byte) []byte {
		i := seen
		seen++
		if i != pickPart {
			return doc
		}
		which = i + 1
		lo := rootStart(doc) + 1
		ks := cutPoints(t, doc, lo, len(doc), 1)
		if len(ks) == 0 {
			which = 0
			return doc
		}
		cut = ks[0]
		label = part
		return doc[:cut]
	})
	if which == 0 {
		return
	}
	strict := drawBool(t, "strict")
	c.Begin("package.3mf", b)
	c.Eval()
	if _, err := decodePkg(b, strict); err == nil {
		t.Fatalf("package with part %q cut after %d bytes is decoded without error (strict=%v)", label, cut, strict)
	}
	c.LabelIf(label != "", "cut:child-part")
	c.LabelIf(label == "", "cut:root-part")
	c.LabelIf(len(modelParts(g)) > 2, "parts:several-children")
	c.NonTrivial(b)
	c.Sample(fmt.Sprintf("part %q cut after %d", label, cut))
}

type span struct {
	name string
	lo   int
	hi   int
}

// partSpans returns where the bytes of the parts are in the package.
func partSpans(b []byte, names []string) (out []span) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic(err)
	}
	for _, n := range names {
		for _, f := range zr.File {
			if "/"+f.Name == n {
				o, err := f.DataOffset()
				if err != nil {
					panic(err)
				}
				out = append(out, span{n, int(o), int(o) + int(f.CompressedSize64)})
			}
		}
	}
	return
}

// corrupt damages one part of a package.
func corrupt(t *rapid.T, b []byte, x span) ([]byte, string) {
	b = append([]byte(nil), b...)
	kind := pick(t, "corruption", "flip", "flip", "zero-run", "crc", "size", "stored-size", "method")
	switch kind {
	case "flip":
		i := drawInt(t, x.lo, x.hi-1, "byte")
		b[i] ^= byte(drawInt(t, 1, 255, "xor"))
	case "zero-run":
		i := drawInt(t, x.lo, x.hi-1, "byte")
		for n := drawInt(t, 1, 40, "run"); n > 0 && i < x.hi; n-- {
			b[i] = 0
			i++
		}
	default: // the central directory entry
		i := bytes.LastIndex(b, append([]byte{'P', 'K', 1, 2}, nil...))
		for i >= 0 {
			n := int(b[i+28]) | int(b[i+29])<<8
			if "/"+string(b[i+46:i+46+n]) == x.name {
				break
			}
			i = bytes.LastIndex(b[:i], []byte{'P', 'K', 1, 2})
		}
		if i < 0 {
			t.Fatalf("HARNESS: no central directory entry of %s", x.name)
		}
		off := 16
		switch kind {
		case "size":
			off = 24
		case "stored-size":
			off = 20
		case "method":
			off = 10
		}
		b[i+off+drawInt(t, 0, 1, "octet")] ^= byte(drawInt(t, 1, 255, "xor"))
	}
	return b, kind
}

// unreadable tells whether an independent reader has the package open, but not the part.
func unreadable(b []byte, name string) bool {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return false
	}
	bad := false
	for _, f := range zr.File {
		if "/"+f.Name == name {
			_, err := zipRead(f)
			bad = err != nil
		}
	}
	return bad
}

// checkDamagedAttachment: an attachment that cannot be read does not become another one.
func checkDamagedAttachment(t *rapid.T, c *C) {
	g, _, b := drawPackage(t, nil)
	want := map[string]string{}
	var names []string
	for _, a := range readAttachments(g.Model()) {
		names = append(names, a.path)
		want[a.path] = string(a.data)
	}
	var sp []span
	for _, x := range partSpans(b, names) {
		if x.hi > x.lo {
			sp = append(sp, x)
		}
	}
	if len(sp) == 0 {
		return
	}
	x := sp[drawInt(t, 0, len(sp)-1, "part")]
	b, kind := corrupt(t, b, x)
	if !unreadable(b, x.name) {
		return
	}
	strict := drawBool(t, "strict")
	c.Begin("package.3mf", b)
	c.Eval()
	m, err := decodePkg(b, strict)
	c.LabelIf(err != nil, "refused")
	if err != nil {
		c.NonTrivial(b)
		return
	}
	for _, a := range readAttachments(m) {
		if d, ok := want[a.path]; ok && d != string(a.data) {
			t.Fatalf("attachment %s cannot be read (%s in %s), yet it is loaded with %d bytes instead of %d (strict=%v)", a.path, kind, x.name, len(a.data), len(d), strict)
		}
	}
	c.NonTrivial(b)
	c.Sample(kind + " in " + x.name)
}

func checkCorrupted(t *rapid.T, c *C) {
	g, _, b := drawPackage(t, nil)
	sp := partSpans(b, modelParts(g))
	x := sp[drawInt(t, 0, len(sp)-1, "part")]
	b, kind := corrupt(t, b, x)
	// an independent reader confirms that the part is unreadable
	if !unreadable(b, x.name) {
		return
	}
	strict := drawBool(t, "strict")
	c.Begin("package.3mf", b)
	c.Eval()
	c.Label("corrupt:" + kind)
	c.LabelIf(x.name != g.M.PathOrDefault(), "corrupt:child-part")
	if _, err := decodePkg(b, strict); err == nil {
		t.Fatalf("package whose part %s cannot be read (%s) is decoded without error (strict=%v)", x.name, kind, strict)
	}
	c.NonTrivial(b)
	c.Sample(kind + " in " + x.name)
}

var errRead = errors.New("verif: read fault")

// faultyAt fails reads that touch [lo,hi).
type faultyAt struct {
	b       []byte
	lo, hi  int
	times   int // how many reads fail, <0 = all
	partial bool
	err     error
	mu      sync.Mutex
	hits    int
}

func (f *faultyAt) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(f.b)) {
		return 0, io.EOF
	}
	lo, hi := int(off), int(off)+len(p)
	if lo < f.hi && hi > f.lo {
		f.mu.Lock()
		fail := f.times < 0 || f.hits < f.times
		f.hits++
		f.mu.Unlock()
		if fail {
			n := 0
			if f.partial && f.lo > lo {
				n = copy(p, f.b[lo:f.lo])
			}
			return n, f.err
		}
	}
	n := copy(p, f.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func checkReadFault(t *rapid.T, c *C) {
	g, _, b := drawPackage(t, nil)
	sp := partSpans(b, modelParts(g))
	x := sp[drawInt(t, 0, len(sp)-1, "part")]
	f := &faultyAt{b: b, times: -1, err: errRead}
	f.lo = drawInt(t, x.lo, x.hi-1, "offset")
	if oneIn(t, 4, "last") {
		f.lo = x.hi - 1
	}
	f.hi = f.lo + 1
	if drawBool(t, "rest") {
		f.hi = x.hi
	}
	f.partial = drawBool(t, "partial")
	if drawBool(t, "once") {
		f.times = 1
	}
	f.err = pick(t, "fault", errRead, errRead, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded, error(io.ErrNoProgress))
	strict := drawBool(t, "strict")
	c.Begin("package.3mf", b)
	c.Eval()
	d := go3mf.NewDecoder(f, int64(len(b)))
	d.Strict = strict
	err := d.Decode(new(go3mf.Model))
	if f.hits == 0 {
		if err == nil {
			t.Fatalf("decoded without reading byte %d of part %s", f.lo-x.lo, x.name)
		}
		return
	}
	c.LabelIf(f.times > 0, "fault:transient")
	c.LabelIf(f.partial, "fault:partial-read")
	c.LabelIf(x.name != g.M.PathOrDefault(), "fault:child-part")
	if err == nil {
		t.Fatalf("reading part %s failed at byte %d of %d (read returned %v) but decoding reports success (strict=%v)", x.name, f.lo-x.lo, x.hi-x.lo, f.err, strict)
	}
	c.NonTrivial(append([]byte(fmt.Sprint(f.lo, f.hi, f.times, f.partial)), b...))
	c.Sample(fmt.Sprintf("read fault in %s at %d of %d", x.name, f.lo-x.lo, x.hi-x.lo))
}

func init() {
	register(&Sub{Prop: "P08", Name: "truncated-with-bad-values", Rule: "documents with values that cannot be parsed, cut inside the root element and decoded leniently; the error has to say more than that values are bad; non-trivial = every cut", Quick: 1200, Thorough: 60000, Fn: checkTruncatedBad})
	register(&Sub{Prop: "P08", Name: "broken-markup", Rule: "random documents with one character inserted, removed, doubled or replaced, half of them near the start of a tag; encoding/xml decides whether the result is well formed (names starting with a digit, control characters, bad UTF-8, the XML declaration and ]]> in text left aside); non-trivial = it is not", Quick: 900, Thorough: 60000, Fn: checkBrokenMarkup})
	register(&Sub{Prop: "P08", Name: "odd-markup", Rule: "random documents with a piece of sound or odd markup (references, comments, instructions, character data, tags, attributes) put between tags, into a tag or into a value; judged as broken-markup; non-trivial = encoding/xml refuses the result", Quick: 1500, Thorough: 80000, Fn: checkOddMarkup})
	register(&Sub{Prop: "P08", Name: "truncated-document", Rule: "random respelled documents (some larger than a read buffer) cut at offsets inside the root element, every offset for the small ones; each cut counts", Quick: 1200, Thorough: 60000, Fn: checkTruncatedDoc})
	register(&Sub{Prop: "P08", Name: "mismatched-tags", Rule: "random documents with one tag removed, renamed, added, opened, closed or exchanged; counted when an independent reader finds the document not well formed", Quick: 12000, Thorough: 500000, Fn: checkMismatchedTags})
	register(&Sub{Prop: "P08", Name: "truncated-part", Rule: "random packages with one model part cut; each counts", Quick: 3000, Thorough: 100000, Fn: checkTruncatedPart})
	register(&Sub{Prop: "P23", Name: "damaged-attachment", Rule: "random packages with bytes, checksum, sizes or method of one attachment changed; an attachment is loaded with its bytes or not at all; counted when archive/zip cannot read the attachment", Quick: 2500, Thorough: 80000, Fn: checkDamagedAttachment})
	register(&Sub{Prop: "P08", Name: "corrupted-part", Rule: "random packages with bytes, checksum or size of one model part changed; counted when archive/zip cannot read the part", Quick: 3000, Thorough: 100000, Fn: checkCorrupted})
	register(&Sub{Prop: "P08", Name: "read-fault", Rule: "random packages read from a source that fails, once or always, when a given byte of a model part is read; counted when the fault was hit", Quick: 3000, Thorough: 100000, Fn: checkReadFault})
}
