package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"strings"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

// Hostile documents and packages.

var (
	elemNames []qname
	attrPool  []qname
	allSpaces = []string{nsCore, nsMat, nsProd, nsSlic, nsBeam, "", "urn:nobody", nsXML}
)

func init() {
	for ns, names := range map[string]string{
		nsCore: "model resources object mesh vertices vertex triangles triangle components component build item basematerials base metadata metadatagroup",
		nsMat:  "colorgroup color texture2dgroup tex2coord texture2d compositematerials composite multiproperties multi",
		nsSlic: "slicestack slice vertices vertex polygon segment sliceref",
		nsBeam: "beamlattice beams beam beamsets beamset ref",
	} {
		for _, n := range strings.Fields(names) {
			elemNames = append(elemNames, qname{ns, n})
		}
	}
	for _, n := range strings.Fields("id type pid pindex name partnumber thumbnail unit lang requiredextensions recommendedextensions displaycolor x y z v1 v2 v3 p1 p2 p3 objectid transform preserve path contenttype tilestyleu tilestylev filter texid u v color matid matindices values pids pindices blendmethods zbottom ztop startv slicestackid slicepath minlength radius clippingmode clippingmesh representationmesh cap r1 r2 cap1 cap2 identifier index") {
		attrPool = append(attrPool, qname{"", n})
	}
	attrPool = append(attrPool, qname{nsProd, "UUID"}, qname{nsProd, "path"}, qname{nsSlic, "slicestackid"}, qname{nsSlic, "meshresolution"}, qname{nsXML, "lang"}, qname{"urn:nobody", "a"})
	// a stable order
	for i := range elemNames {
		for j := i + 1; j < len(elemNames); j++ {
			if elemNames[j].String() < elemNames[i].String() {
				elemNames[i], elemNames[j] = elemNames[j], elemNames[i]
			}
		}
	}
}

var hostileValues = []string{"", " ", "0", "1", "-1", "2", "4294967295", "4294967296", "18446744073709551616", "NaN", "Inf", "-Inf", "1e39", "1e-50", "0x10", "0x1p-2", "1_000", "true", "#", "#FFFFFF", "#12345678", "none", "wrap", "model", "solidsupport",
	"1 2 3", "0 0 0 0 0 0 0 0 0 0 0 0", "1 0 0 0 1 0 0 0 1 0 0 0 0", "  5  ", ",", ";", ":", "p:", ":p", "p:p:p", "m:", "xml:a", "xmlns", "/3D/3dmodel.model", "/3D/other.model", "../..", "//", "a\tb", "\n", "é", "\U0001F600", "f47ac10b-58cc-0372-8567-0e02b2c3d479", "{f47ac10b-58cc-0372-8567-0e02b2c3d479}", "mix multiply", "p q r s m b", "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"}

func drawHostile(r *rand.Rand) string {
	v := hostileValues[r.Intn(len(hostileValues))]
	switch r.Intn(12) {
	case 0:
		return strings.Repeat(v+" ", r.Intn(40))
	case 1:
		return strings.Repeat(v, r.Intn(40))
	case 2:
		return v + hostileValues[r.Intn(len(hostileValues))]
	}
	return v
}

func drawSpace(r *rand.Rand) string {
	if r.Intn(12) == 0 {
		return unknownNS[r.Intn(len(unknownNS))]
	}
	return allSpaces[r.Intn(len(allSpaces))]
}

func hostileAttr(r *rand.Rand) nattr {
	q := attrPool[r.Intn(len(attrPool))]
	if r.Intn(5) == 0 {
		q.Space = drawSpace(r)
	}
	return nattr{Name: q, Value: drawHostile(r), Kind: kText}
}

func hostileElem(r *rand.Rand, depth int) *node {
	q := elemNames[r.Intn(len(elemNames))]
	if r.Intn(6) == 0 {
		q.Space = drawSpace(r)
	}
	n := el(q, -1)
	n.Verb, n.HasText = true, true
	for k := r.Intn(4); k > 0; k-- {
		n.Attrs = append(n.Attrs, hostileAttr(r))
	}
	for k := r.Intn(4); k > 0 && depth > 0; k-- {
		if r.Intn(5) == 0 {
			n.Content = append(n.Content, drawHostile(r))
		} else {
			n.Content = append(n.Content, hostileElem(r, depth-1))
		}
	}
	return n
}

// wreck changes the structure of a document at random.
func wreck(root *node, r *rand.Rand, edits int) (kinds []string) {
	type site struct{ up, n *node }
	all := func() (out []site) {
		var walk func(up, n *node)
		walk = func(up, n *node) {
			out = append(out, site{up, n})
			for _, k := range n.kids() {
				walk(n, k)
			}
		}
		walk(nil, root)
		return
	}
	insert := func(p *node, x any) {
		i := r.Intn(len(p.Content) + 1)
		p.Content = append(p.Content[:i:i], append([]any{x}, p.Content[i:]...)...)
	}
	remove := func(s site) {
		var kept []any
		for _, c := range s.up.Content {
			if c != any(s.n) {
				kept = append(kept, c)
			}
		}
		s.up.Content = kept
	}
	var clone func(n *node) *node
	clone = func(n *node) *node {
		c := *n
		c.Attrs = append([]nattr(nil), n.Attrs...)
		c.Content = nil
		for _, x := range n.Content {
			if k, ok := x.(*node); ok {
				x = clone(k)
			}
			c.Content = append(c.Content, x)
		}
		return &c
	}
	under := func(n, top *node) bool {
		found := false
		var walk func(x *node)
		walk = func(x *node) {
			found = found || x == n
			for _, k := range x.kids() {
				walk(k)
			}
		}
		walk(top)
		return found
	}
	for ; edits > 0; edits-- {
		ss := all()
		if len(ss) > 3000 {
			return
		}
		s := ss[r.Intn(len(ss))]
		k := []string{"rename", "rename", "move", "copy", "delete", "wrap", "value", "value", "attr", "attr", "drop-attr", "text", "insert", "insert", "nest-copy", "namespace"}[r.Intn(16)]
		switch k {
		case "rename":
			s.n.Name = elemNames[r.Intn(len(elemNames))]
		case "namespace":
			s.n.Name.Space = drawSpace(r)
		case "move":
			d := ss[r.Intn(len(ss))].n
			if s.up == nil || under(d, s.n) {
				continue
			}
			remove(s)
			insert(d, s.n)
		case "copy":
			insert(ss[r.Intn(len(ss))].n, clone(s.n))
		case "nest-copy":
			insert(s.n, clone(s.n))
		case "delete":
			if s.up == nil {
				continue
			}
			remove(s)
		case "wrap":
			if s.up == nil {
				continue
			}
			w := hostileElem(r, 0)
			remove(s)
			w.Content = append(w.Content, s.n)
			insert(s.up, w)
		case "value":
			if len(s.n.Attrs) == 0 {
				continue
			}
			a := &s.n.Attrs[r.Intn(len(s.n.Attrs))]
			a.Value, a.Kind, a.Def = drawHostile(r), kText, false
		case "attr":
			s.n.Attrs = append(s.n.Attrs, hostileAttr(r))
		case "drop-attr":
			if len(s.n.Attrs) == 0 {
				continue
			}
			i := r.Intn(len(s.n.Attrs))
			s.n.Attrs = append(s.n.Attrs[:i:i], s.n.Attrs[i+1:]...)
		case "text":
			insert(s.n, drawHostile(r))
		case "insert":
			insert(s.n, hostileElem(r, r.Intn(4)))
		}
		kinds = append(kinds, k)
	}
	return kinds
}

var soupWords = []string{"<", ">", "/>", "</", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "&amp;", "&#0;", "&#x41;", "&#xFFFFFFFFF;", "&#", "&", ";", "&b;", "=", "\"", "'", " ", "\n", "\x00", "\x01", "\xff", "\xef\xbb\xbf", "\xff\xfe<", "é", "xmlns=\"", "xmlns:m=\"", "xmlns:", ":", "xml:lang=\"a\"", "<a>", "</a>", "<a/>", "<m:a b=\"c\">", "</m:a>", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "<?xml version=\"1.1\"?>", "<?xml?>", nsCore, nsMat, nsSlic, nsBeam, nsProd, "text", "--", "a=b", "a='"}

func soup(r *rand.Rand, n int) []byte {
	var b bytes.Buffer
	if r.Intn(2) == 0 {
		b.WriteString(`<model xmlns="` + nsCore + `" xmlns:m="` + nsMat + `" xmlns:s="` + nsSlic + `" xmlns:b="` + nsBeam + `" xmlns:p="` + nsProd + `">`)
	}
	pfx := map[string]string{nsCore: "", nsMat: "m:", nsSlic: "s:", nsBeam: "b:"}
	var open []string
	for ; n > 0; n-- {
		switch r.Intn(8) {
		case 0, 1:
			q := elemNames[r.Intn(len(elemNames))]
			name := pfx[q.Space] + q.Local
			b.WriteString("<" + name)
			for k := r.Intn(3); k > 0; k-- {
				fmt.Fprintf(&b, " %s=\"%s\"", attrPool[r.Intn(len(attrPool))].Local, xmlAttrText(drawHostile(r)))
			}
			if r.Intn(3) == 0 {
				b.WriteString("/>")
			} else {
				b.WriteString(">")
				open = append(open, name)
			}
		case 2, 3:
			if len(open) > 0 {
				b.WriteString("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
			}
		case 4:
			b.WriteString(drawHostile(r))
		default:
			b.WriteString(soupWords[r.Intn(len(soupWords))])
		}
	}
	if r.Intn(2) == 0 {
		for i := len(open) - 1; i >= 0; i-- {
			b.WriteString("</" + open[i] + ">")
		}
		b.WriteString("</model>")
	}
	return b.Bytes()
}

// scramble changes bytes.
func scramble(b []byte, r *rand.Rand, edits int, words []string) []byte {
	b = append([]byte(nil), b...)
	for ; edits > 0 && len(b) > 0; edits-- {
		i := r.Intn(len(b))
		j := i + r.Intn(min(len(b)-i, 64)) + 1
		switch r.Intn(8) {
		case 0:
			b[i] ^= 1 << r.Intn(8)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i:i], b[j:]...)
		case 3: // repeat
			s := bytes.Repeat(b[i:j], 1+r.Intn(4))
			b = append(b[:j:j], append(s, b[j:]...)...)
		case 4: // splice from elsewhere
			k := r.Intn(len(b))
			l := k + r.Intn(min(len(b)-k, 64)) + 1
			b = append(b[:i:i], append(append([]byte(nil), b[k:l]...), b[i:]...)...)
		case 5:
			b = b[:i]
		default:
			if len(words) == 0 {
				b[i] = byte(r.Intn(256))
				continue
			}
			w := words[r.Intn(len(words))]
			if r.Intn(2) == 0 {
				b = append(b[:i:i], append([]byte(w), b[i:]...)...)
			} else {
				b = append(b[:i:i], append([]byte(w), b[min(len(b), i+len(w)):]...)...)
			}
		}
	}
	return b
}

func drawRand(t *rapid.T, label string) *rand.Rand {
	// the numbers drawn tend to be small: use several of them
	h := int64(rapid.Uint32().Draw(t, label))
	h = h*0x5851F42D4C957F2D + int64(rapid.Uint32().Draw(t, label))
	h = h*0x5851F42D4C957F2D + int64(rapid.Uint32().Draw(t, label))
	return rand.New(rand.NewSource(h))
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

const (
	allocBase = 1 << 20
	allocPer  = 2048 // generous: an element of four bytes becomes an object of a few hundred
)

// allocLarge is the bound for the families of documents, which are measured alone.
func allocLarge(name string) uint64 {
	if strings.Contains(name, "attributes") || strings.Contains(name, "bad") {
		return 700 // every one or two bytes may be an error
	}
	return 200
}

// leastAllocated returns how much decoding doc allocates, tried again if it is more
// than bound as other checks allocate at the same time.
func leastAllocated(doc []byte, bound uint64) uint64 {
	least := ^uint64(0)
	for try := 0; try < 12 && least > bound; try++ {
		a := allocated()
		m := new(go3mf.Model)
		_ = go3mf.UnmarshalModel(doc, m)
		least = min(least, allocated()-a)
		runtime.KeepAlive(m)
	}
	return least
}

// within runs f and checks that it allocates in proportion to n bytes of input.
func within(n int, f func()) string {
	a := allocated()
	f()
	if d := allocated() - a; d > allocBase+allocPer*uint64(n) {
		return fmt.Sprintf("%d bytes are allocated to decode %d bytes", d, n)
	}
	return ""
}

func drawHostileDoc(t *rapid.T, c *C) []byte {
	r := drawRand(t, "rnd")
	kind := pick(t, "hostile", "structure", "structure", "structure", "bytes", "soup")
	label := func(s string) {
		if c != nil {
			c.Label(s)
		}
	}
	label("doc:" + kind)
	if kind == "soup" {
		return soup(r, drawInt(t, 1, 60, "words"))
	}
	o := allOpts(-1)
	o.MaxObj, o.Children, o.Attach = 2, false, false
	g := genModel(t, o)
	d := buildDOM(g.M, "")
	if kind == "structure" {
		for _, k := range wreck(d, r, drawInt(t, 1, 12, "edits")) {
			label("edit:" + k)
		}
	}
	b := drawSpelling(t, nil).document(d, g.M.Extensions)
	if kind == "bytes" {
		b = scramble(b, r, drawInt(t, 1, 8, "edits"), soupWords)
	}
	return b
}

func checkHostileDoc(t *rapid.T, c *C) {
	doc := drawHostileDoc(t, c)
	c.Begin("model.xml", doc)
	c.Eval()
	m := new(go3mf.Model)
	var err error
	if d := within(len(doc), func() { err = go3mf.UnmarshalModel(doc, m) }); d != "" {
		t.Fatalf("%s:\n%s", d, clip(string(doc), 4000))
	}
	c.LabelIf(err == nil, "decoded")
	c.LabelIf(err != nil, "rejected")
	// as the root part and as a child part of a package, in both modes
	if oneIn(t, 4, "as-package") {
		p := &outPkg{rels: map[string][]outRel{}}
		other := []byte(`<model xmlns="` + nsCore + `" xmlns:m="` + nsMat + `" xmlns:s="` + nsSlic + `" xmlns:b="` + nsBeam + `" xmlns:p="` + nsProd + `"><resources/><build/></model>`)
		a, b := doc, other
		if drawBool(t, "child") {
			a, b = other, doc
		}
		p.parts = []outPart{{"/3D/3dmodel.model", ctModel, a}, {"/3D/other.model", ctModel, b}}
		p.rels[""] = []outRel{{"r", rel3D, "/3D/3dmodel.model"}}
		p.rels["/3D/3dmodel.model"] = []outRel{{"r", rel3D, "/3D/other.model"}}
		pk := p.bytes(pkgStyle{}, nil)
		c.Begin("package.3mf", pk)
		for _, strict := range []bool{false, true} {
			var perr error
			if d := within(2*len(pk), func() { _, perr = decodePkg(pk, strict) }); d != "" {
				t.Fatalf("%s:\n%s", d, clip(string(doc), 4000))
			}
			if perr == nil && err != nil && &a[0] == &doc[0] {
				t.Fatalf("the document fails (%v) but the package with it does not (strict=%v):\n%s", err, strict, clip(string(doc), 4000))
			}
		}
		c.Label("as-package")
	}
	c.NonTrivial(doc)
	c.Sample(clip(string(doc), 700))
}

// rezip rewrites the entries of a package.
func rezip(b []byte, r *rand.Rand, f func(name string, data []byte) (string, []byte, int)) []byte {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic(err)
	}
	var out bytes.Buffer
	zw := zip.NewWriter(&out)
	for _, e := range zr.File {
		d, err := zipRead(e)
		if err != nil {
			panic(err)
		}
		name, d, n := f(e.Name, d)
		for ; n > 0; n-- {
			h := &zip.FileHeader{Name: name, Method: uint16(8 * r.Intn(2))}
			if strings.HasSuffix(name, "/") {
				h.Method = zip.Store
				d = nil
			}
			w, err := zw.CreateHeader(h)
			if err == nil {
				_, err = w.Write(d)
			}
			if err != nil {
				panic(err)
			}
		}
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return out.Bytes()
}

var oddTargets = []string{"", "/", ".", "..", "../..", "../../../../x", "/3D/3dmodel.model", "3dmodel.model", "//3D//3dmodel.model", "/3D/./3dmodel.model", "/3D/../3D/3dmodel.model", "\\3D\\3dmodel.model", "/3D/3dmodel.model#frag", "/3D/3dmodel.model?q=1", "/_rels/.rels", "/[Content_Types].xml", "/3D/_rels/3dmodel.model.rels", "http://example.com/a", "file:///etc/passwd", "/%", "/%2", "/%2F", "/a%2Fb", "/é", "/é%2F", "/a%20b", "/%41", "%", "é%2fé%2f", "/3D/é%3A.model", "/\x7f", "/🙂%40🙂", "#", "/a/", "/.rels"}

var relWords = []string{"<Relationship ", "/>", "Target=\"", "Type=\"", "Id=\"", "TargetMode=\"External\"", rel3D, "</Relationships>", "<Relationships>", "&", "<!--", "xmlns=\"\"", "\"", ">", "<Default ", "<Override ", "Extension=\"\"", "PartName=\"/\"", "ContentType=\"\"", "ContentType=\"a/b\"", "<Types>", "/3D/3dmodel.model"}

// drawHostilePackage draws a package with damage of the container.
func drawHostilePackage(t *rapid.T, c *C) []byte {
	r := drawRand(t, "rnd")
	o := allOpts(-1)
	o.MaxObj = 2
	g := genModel(t, o)
	style, sr := drawStyle(t, nil)
	label := func(s string) {
		if c != nil {
			c.Label(s)
		}
	}
	pk := packageOf(g, func(part string) []byte {
		s := &speller{r: r}
		d := buildDOM(g.M, part)
		if r.Intn(4) == 0 {
			wreck(d, r, 1+r.Intn(4))
		}
		return s.document(d, g.M.Extensions)
	})
	owners := func() []string {
		out := []string{""}
		for _, p := range pk.parts {
			out = append(out, p.name)
		}
		return out
	}
	style.Relative = false
	for k := drawInt(t, 0, 4, "pkgedits"); k > 0; k-- {
		e := pick(t, "pkgedit", "rel-target", "rel-add", "rel-type", "part-name", "part-type", "part-drop", "part-dup", "cycle", "chain")
		label("package:" + e)
		os := owners()
		owner := os[r.Intn(len(os))]
		target := oddTargets[r.Intn(len(oddTargets))]
		if r.Intn(3) == 0 {
			target = os[r.Intn(len(os))]
		}
		switch e {
		case "rel-target", "rel-type":
			if rs := pk.rels[owner]; len(rs) > 0 {
				if e == "rel-target" {
					rs[r.Intn(len(rs))].target = target
				} else {
					rs[r.Intn(len(rs))].typ = []string{rel3D, "", "urn:x", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"}[r.Intn(5)]
				}
			}
		case "rel-add":
			typ := rel3D
			if r.Intn(2) == 0 {
				typ = []string{"urn:x", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", ""}[r.Intn(3)]
			}
			pk.rels[owner] = append(pk.rels[owner], outRel{fmt.Sprintf("e%d", k), typ, target})
		case "part-name":
			p := &pk.parts[r.Intn(len(pk.parts))]
			old := p.name
			p.name = oddTargets[r.Intn(len(oddTargets))]
			if !strings.HasPrefix(p.name, "/") || len(p.name) < 2 {
				p.name = "/3D/" + p.name + "x"
			}
			if r.Intn(2) == 0 {
				for _, rs := range pk.rels {
					for i := range rs {
						if rs[i].target == old {
							rs[i].target = p.name
						}
					}
				}
			}
		case "part-type":
			pk.parts[r.Intn(len(pk.parts))].ct = []string{"", " ", "a", "a/b", "a/b;c", ctRels, "a/b ", "é/é"}[r.Intn(8)]
		case "part-drop":
			i := r.Intn(len(pk.parts))
			pk.parts = append(pk.parts[:i:i], pk.parts[i+1:]...)
			if len(pk.parts) == 0 {
				pk.parts = append(pk.parts, outPart{"/x.bin", "a/b", nil})
			}
		case "part-dup":
			p := pk.parts[r.Intn(len(pk.parts))]
			if r.Intn(2) == 0 {
				p.name = strings.ToUpper(p.name)
			}
			pk.parts = append(pk.parts, p)
		case "cycle":
			for _, a := range os {
				pk.rels[a] = append(pk.rels[a], outRel{"c" + fmt.Sprint(k), rel3D, os[r.Intn(len(os))]})
			}
		case "chain":
			for i := range os {
				if i+1 < len(os) && os[i+1] != "" {
					pk.rels[os[i]] = append(pk.rels[os[i]], outRel{"h" + fmt.Sprint(k), rel3D, os[i+1]})
				}
			}
		}
	}
	b := pk.bytes(style, sr)
	for k := drawInt(t, 0, 2, "entryedits"); k > 0; k-- {
		e := pick(t, "entryedit", "infra", "infra", "name", "dup", "drop", "empty")
		label("entry:" + e)
		zr, _ := zip.NewReader(bytes.NewReader(b), int64(len(b)))
		if len(zr.File) == 0 {
			break
		}
		which := r.Intn(len(zr.File))
		i := -1
		b = rezip(b, r, func(name string, d []byte) (string, []byte, int) {
			i++
			infra := strings.HasSuffix(name, ".rels") || strings.HasSuffix(name, "].xml")
			if e == "infra" && infra && r.Intn(2) == 0 {
				return name, scramble(d, r, 1+r.Intn(3), relWords), 1
			}
			if i != which {
				return name, d, 1
			}
			switch e {
			case "name":
				return strings.TrimPrefix(oddTargets[r.Intn(len(oddTargets))], "/"), d, 1
			case "dup":
				return name, d, 2
			case "drop":
				return name, d, 0
			case "empty":
				return name, nil, 1
			}
			return name, d, 1
		})
	}
	if oneIn(t, 4, "raw") {
		label("raw-bytes")
		b = scramble(b, r, drawInt(t, 1, 6, "rawedits"), []string{"PK\x01\x02", "PK\x03\x04", "PK\x05\x06", "\xff\xff\xff\xff", "\x00\x00", "\xff\xff"})
	}
	return b
}

// expanded bounds the size of the content of a package.
func expanded(b []byte) int {
	n := len(b)
	if zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b))); err == nil {
		for _, f := range zr.File {
			if f.UncompressedSize64 < 1<<30 {
				n += int(f.UncompressedSize64)
			}
			n += 200
		}
	}
	return n
}

func checkHostilePackage(t *rapid.T, c *C) {
	b := drawHostilePackage(t, c)
	c.Begin("package.3mf", b)
	c.Eval()
	for _, strict := range []bool{false, true} {
		var err error
		if d := within(2*expanded(b), func() { _, err = decodePkg(b, strict) }); d != "" {
			t.Fatalf("%s (strict=%v)", d, strict)
		}
		c.LabelIf(err == nil, "decoded")
		c.LabelIf(err != nil, "rejected")
	}
	c.NonTrivial(b)
	c.Sample(fmt.Sprintf("package of %d bytes", len(b)))
}

// families of documents of a given size
var families = map[string]func(n int) string{}

func init() {
	head := `<model xmlns="` + nsCore + `" xmlns:m="` + nsMat + `" xmlns:s="` + nsSlic + `" xmlns:b="` + nsBeam + `" xmlns:p="` + nsProd + `" requiredextensions="m s b p">`
	rep := strings.Repeat
	seq := func(n int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	fam := func(name string, f func(n int) string) { families[name] = f }
	wrap := func(name, a, b string, f func(n int) string) {
		fam(name, func(n int) string { return head + a + f(n) + b + "</model>" })
	}
	for name, e := range map[string]string{"unknown": "u", "core": "object", "resources": "resources", "components": "components", "mesh": "mesh", "extension": "m:colorgroup", "beam": "b:beamlattice", "foreign": "q:q"} {
		e := e
		fam("nest-"+name, func(n int) string {
			return head + "<resources>" + rep("<"+e+">", n) + rep("</"+e+">", n) + "</resources></model>"
		})
		fam("nest-open-"+name, func(n int) string { return head + rep("<"+e+">", n) })
	}
	wrap("nest-in-namespace", "", "", func(n int) string { return rep(`<k:a xmlns:k="urn:k">`, n) + rep("</k:a>", n) })
	wrap("nest-many-namespaces", "", "", func(n int) string {
		return seq(n, func(i int) string { return fmt.Sprintf(`<k%d:a xmlns:k%d="urn:k">`, i, i) }) + seq(n, func(i int) string { return fmt.Sprintf(`</k%d:a>`, n-1-i) })
	})
	attrs := func(n int) string { return seq(n, func(i int) string { return fmt.Sprintf(` a%d="v"`, i) }) }
	nsattrs := func(n int) string { return seq(n, func(i int) string { return fmt.Sprintf(` p:a%d="v"`, i) }) }
	decls := func(n int) string {
		return seq(n, func(i int) string { return fmt.Sprintf(` xmlns:k%d="urn:k%d"`, i, i) })
	}
	fam("model-attributes", func(n int) string {
		return `<model xmlns="` + nsCore + `" xmlns:p="` + nsProd + `"` + attrs(n) + `></model>`
	})
	fam("model-namespaces", func(n int) string { return `<model xmlns="` + nsCore + `"` + decls(n) + `></model>` })
	fam("model-namespaces-attributes", func(n int) string {
		return `<model xmlns="` + nsCore + `"` + decls(n) + seq(n, func(i int) string { return fmt.Sprintf(` k%d:a="v"`, i) }) + `></model>`
	})
	fam("requiredextensions", func(n int) string {
		return `<model xmlns="` + nsCore + `"` + decls(n) + ` requiredextensions="` + seq(n, func(i int) string { return fmt.Sprintf("k%d ", i) }) + `"></model>`
	})
	fam("requiredextensions-undeclared", func(n int) string {
		return `<model xmlns="` + nsCore + `" requiredextensions="` + rep("a ", n) + `"></model>`
	})
	wrap("object-attributes", "<resources>", "</resources>", func(n int) string { return `<object` + attrs(n) + nsattrs(n) + `/>` })
	wrap("unknown-attributes", "", "", func(n int) string { return `<p:u` + attrs(n) + nsattrs(n) + decls(n) + `/>` })
	wrap("vertex-attributes", "<resources><object id=\"1\"><mesh><vertices>", "</vertices></mesh></object></resources>", func(n int) string { return `<vertex` + attrs(n) + `/>` })
	bad := func(n int) string { return rep(` x="e"`, n) }
	wrap("bad-attributes", "<resources><object id=\"1\"><mesh><vertices>", "</vertices></mesh></object></resources>", func(n int) string { return `<vertex` + bad(n) + `/>` })
	for name, x := range map[string]string{
		"vertex":    `<vertex/>`,
		"badvertex": `<vertex x="e"/>`,
		"text":      `t`,
		"unknown":   `<u/>`,
		"cdata":     `<![CDATA[t]]>`,
		"comment":   `<!---->`,
		"pi":        `<?a?>`,
		"entity":    `&amp;`,
		"charref":   `&#65;`,
		"foreign":   `<z:z>x</z:z>`,
	} {
		x := x
		wrap("vertices-"+name, "<resources><object id=\"1\"><mesh><vertices>", "</vertices></mesh></object></resources>", func(n int) string { return rep(x, n) })
		wrap("metadata-"+name, "<metadata name=\"a\">", "</metadata>", func(n int) string { return rep(x, n) })
		wrap("token-text-"+name, "<z:t xmlns:z=\"urn:z\">", "</z:t>", func(n int) string { return rep(x, n) })
	}
	for name, x := range map[string]string{
		"triangles": `<triangle/>`, "triangles-bad": `<triangle v1="e"/>`, "triangles-pid": `<triangle pid="1" p1="4294967295"/>`,
	} {
		x := x
		wrap(name, `<resources><object id="1" pid="1" pindex="4294967295"><mesh><triangles>`, "</triangles></mesh></object></resources>", func(n int) string { return rep(x, n) })
	}
	for name, p := range map[string][2]string{
		"items":       {"<build>", "</build>"},
		"metadatas":   {"", ""},
		"resources":   {"<resources>", "</resources>"},
		"components":  {"<resources><object><components>", "</components></object></resources>"},
		"group":       {"<build><item><metadatagroup>", "</metadatagroup></item></build>"},
		"bases":       {"<resources><basematerials>", "</basematerials></resources>"},
		"beams":       {"<resources><object><mesh><b:beamlattice><b:beams>", "</b:beams></b:beamlattice></mesh></object></resources>"},
		"beamsets":    {"<resources><object><mesh><b:beamlattice><b:beamsets>", "</b:beamsets></b:beamlattice></mesh></object></resources>"},
		"beamrefs":    {"<resources><object><mesh><b:beamlattice><b:beamsets><b:beamset>", "</b:beamset></b:beamsets></b:beamlattice></mesh></object></resources>"},
		"slices":      {"<resources><s:slicestack>", "</s:slicestack></resources>"},
		"segments":    {"<resources><s:slicestack><s:slice><s:polygon>", "</s:polygon></s:slice></s:slicestack></resources>"},
		"sliceverts":  {"<resources><s:slicestack><s:slice><s:vertices>", "</s:vertices></s:slice></s:slicestack></resources>"},
		"polygons":    {"<resources><s:slicestack><s:slice>", "</s:slice></s:slicestack></resources>"},
		"colors":      {"<resources><m:colorgroup>", "</m:colorgroup></resources>"},
		"coords":      {"<resources><m:texture2dgroup>", "</m:texture2dgroup></resources>"},
		"composites":  {"<resources><m:compositematerials>", "</m:compositematerials></resources>"},
		"multis":      {"<resources><m:multiproperties>", "</m:multiproperties></resources>"},
		"afterbuild":  {"<build/>", ""},
		"manymodels":  {"<model>", "</model>"},
		"manymeshes":  {"<resources><object>", "</object></resources>"},
		"manybuilds":  {"<build>", "</build><build/>"},
		"afterobject": {"<resources><object><mesh/>", "</object></resources>"},
	} {
		p := p
		for _, x := range []string{`<item/>`, `<metadata name="a">b</metadata>`, `<object/>`, `<component/>`, `<base/>`, `<b:beam/>`, `<b:beamset/>`, `<b:ref/>`, `<s:slice/>`, `<s:slicestack/>`, `<s:segment/>`, `<s:vertex/>`, `<s:polygon/>`, `<m:color/>`, `<m:tex2coord/>`, `<m:composite/>`, `<m:multi/>`, `<m:colorgroup/>`, `<mesh/>`, `<build/>`, `<resources/>`, `<b:beamlattice/>`, `<s:sliceref/>`, `<metadatagroup/>`} {
			x := x
			wrap(name+" of "+x, p[0], p[1], func(n int) string { return rep(x, n) })
		}
	}
	// much content of one element, and then many small elements beside it
	elem := func(name, item string) func(n int) string {
		tag := strings.Fields(name)[0]
		return func(n int) string { return "<" + name + ">" + rep(item, n) + "</" + tag + ">" }
	}
	for _, p := range []struct {
		name, a, b string
		bulk       []func(n int) string
		small      []string
	}{
		{"mesh", `<resources><object id="1"><mesh>`, "</mesh></object></resources>",
			[]func(n int) string{elem("vertices", "<vertex/>"), elem("triangles", "<triangle/>"), elem("b:beamlattice", "<b:beams><b:beam/></b:beams>"), elem("z:z", "<z/>")},
			[]string{"<vertices/>", "<vertices><vertex/></vertices>", "<triangles/>", "<triangles><triangle/></triangles>", "<b:beamlattice/>", "<z:z/>", "<u/>"}},
		{"object", `<resources><object id="1">`, "</object></resources>",
			[]func(n int) string{func(n int) string { return "<mesh>" + elem("vertices", "<vertex/>")(n) + "</mesh>" }, elem("components", "<component/>"), elem("metadatagroup", `<metadata name="a">b</metadata>`)},
			[]string{"<mesh/>", "<mesh><vertices/><triangles/></mesh>", "<components/>", "<components><component/></components>", "<metadatagroup/>", `<metadatagroup><metadata name="a">b</metadata></metadatagroup>`}},
		{"model", "", "",
			[]func(n int) string{elem("resources", "<object/>"), elem("resources", "<m:colorgroup/>"), elem("resources", "<z:z/>"), elem("build", "<item/>"), elem("z:z", "<z/>"), func(n int) string { return rep(`<metadata name="a">b</metadata>`, n) }},
			[]string{"<resources/>", "<resources><object/></resources>", "<resources><z:z/></resources>", "<build/>", "<build><item/></build>", `<metadata name="a">b</metadata>`, "<z:z/>"}},
		{"slice", "<resources><s:slicestack><s:slice>", "</s:slice></s:slicestack></resources>",
			[]func(n int) string{elem("s:vertices", "<s:vertex/>"), elem("s:polygon", "<s:segment/>"), func(n int) string { return rep("<s:polygon/>", n) }},
			[]string{"<s:vertices/>", "<s:vertices><s:vertex/></s:vertices>", "<s:polygon/>", "<s:polygon><s:segment/></s:polygon>"}},
		{"slicestack", "<resources><s:slicestack>", "</s:slicestack></resources>",
			[]func(n int) string{elem("s:slice", "<s:polygon/>"), func(n int) string { return rep("<s:slice/>", n) }, func(n int) string { return rep("<s:sliceref/>", n) }},
			[]string{"<s:slice/>", "<s:slice><s:vertices/><s:polygon/></s:slice>", "<s:sliceref/>"}},
		{"lattice", `<resources><object id="1"><mesh><b:beamlattice>`, "</b:beamlattice></mesh></object></resources>",
			[]func(n int) string{elem("b:beams", "<b:beam/>"), elem("b:beamsets", "<b:beamset/>"), func(n int) string { return "<b:beamsets>" + elem("b:beamset", "<b:ref/>")(n) + "</b:beamsets>" }},
			[]string{"<b:beams/>", "<b:beams><b:beam/></b:beams>", "<b:beamsets/>", "<b:beamsets><b:beamset/></b:beamsets>", "<b:beamsets><b:beamset><b:ref/></b:beamset></b:beamsets>"}},
		{"resources", "<resources>", "</resources>",
			[]func(n int) string{elem("m:colorgroup", `<m:color color="#112233"/>`), elem("m:texture2dgroup", "<m:tex2coord/>"), elem("m:multiproperties", `<m:multi pindices="1"/>`), elem("m:compositematerials", `<m:composite values="1"/>`), elem("basematerials", "<base/>"), elem("z:z", "<z/>"),
				func(n int) string { return rep("<object/>", n) }, func(n int) string { return rep("<m:colorgroup/>", n) }},
			[]string{"<m:colorgroup/>", "<m:texture2dgroup/>", "<m:multiproperties/>", "<m:compositematerials/>", "<basematerials/>", "<object/>", "<z:z/>", "<u/>"}},
		{"item", "<build><item>", "</item></build>",
			[]func(n int) string{elem("metadatagroup", `<metadata name="a">b</metadata>`)},
			[]string{"<metadatagroup/>", `<metadatagroup><metadata name="a">b</metadata></metadatagroup>`}},
	} {
		p := p
		for i, bulk := range p.bulk {
			bulk := bulk
			for _, x := range p.small {
				x := x
				wrap(fmt.Sprintf("beside-%s-%d of %s", p.name, i, x), p.a, p.b, func(n int) string { return bulk(n) + rep(x, n) })
				wrap(fmt.Sprintf("before-%s-%d of %s", p.name, i, x), p.a, p.b, func(n int) string { return rep(x, n) + bulk(n) })
			}
		}
	}
	// many declared namespaces, and many elements
	for name, p := range map[string][2]string{
		"items": {"<build>", "</build>"}, "resources": {"<resources>", "</resources>"}, "model": {"", ""}, "group": {"<build><item><metadatagroup>", "</metadatagroup></item></build>"},
		"mesh": {`<resources><object id="1"><mesh><triangles>`, "</triangles></mesh></object></resources>"}, "components": {`<resources><object id="1"><components>`, "</components></object></resources>"},
	} {
		p := p
		for _, x := range []string{`<item objectid="1" p:UUID="x"/>`, `<metadata name="k7:b">b</metadata>`, `<object id="1" s:meshresolution="lowres"/>`, `<basematerials/>`, `<m:colorgroup/>`, `<m:multiproperties pids="1 2"/>`, `<z:z/>`, `<triangle pid="1"/>`, `<component objectid="1" k5:a="b"/>`} {
			x := x
			fam("crowd-"+name+" of "+x, func(n int) string {
				return strings.TrimSuffix(head, ">") + decls(n) + ">" + p[0] + rep(x, n) + p[1] + "</model>"
			})
		}
	}
	list := func(name, a, b, word string) {
		wrap("list-"+name, a, b, func(n int) string { return rep(word+" ", n) })
	}
	list("values", `<resources><m:compositematerials><m:composite values="`, `"/></m:compositematerials></resources>`, "1")
	list("values-bad", `<resources><m:compositematerials><m:composite values="`, `"/></m:compositematerials></resources>`, "x")
	list("matindices", `<resources><m:compositematerials matindices="`, `"/></resources>`, "4294967295")
	list("pids", `<resources><m:multiproperties pids="`, `"/></resources>`, "1")
	list("blend", `<resources><m:multiproperties blendmethods="`, `"/></resources>`, "mix")
	list("pindices", `<resources><m:multiproperties><m:multi pindices="`, `"/></m:multiproperties></resources>`, "1")
	list("transform", `<build><item transform="`, `"/></build>`, "1")
	list("spaces", `<build><item transform="`, `"/></build>`, "  ")
	list("uuid", `<build p:UUID="`, `"/>`, "f47ac10b-58cc-0372-8567-0e02b2c3d479")
	list("color", `<resources><m:colorgroup><m:color color="`, `"/></m:colorgroup></resources>`, "#112233")
	for name, p := range map[string][2]string{
		"attr-entities":  {`<p:u a="`, `"/>`},
		"value-entities": {`<metadata name="`, `"/>`},
		"number":         {`<item objectid="`, `"/>`},
	} {
		p := p
		for _, w := range []string{"&amp;", "&#65;", "&#x10FFFF;", "9", "a", "é", "\t", "&lt;"} {
			w := w
			wrap(name+" of "+w, p[0], p[1], func(n int) string { return rep(w, n) })
		}
	}
	wrap("long-name", "", "", func(n int) string { return "<" + rep("a", n) + "/>" })
	wrap("long-prefix", "", "", func(n int) string { return "<" + rep("a", n) + ":b/>" })
	wrap("long-attr", "", "", func(n int) string { return "<p:a " + rep("a", n) + `="1"/>` })
	wrap("long-comment", "<!--", "-->", func(n int) string { return rep("-a", n) })
	wrap("long-cdata", "<metadata name=\"x\"><![CDATA[", "]]></metadata>", func(n int) string { return rep("]] >", n) })
	wrap("long-pi", "<?a ", "?>", func(n int) string { return rep("? ", n) })
	wrap("long-text", "<metadata name=\"x\">", "</metadata>", func(n int) string { return rep("text ", n) })
	fam("spaces-in-tag", func(n int) string { return head + "<build" + rep(" ", n) + "/></model>" })
	fam("prolog", func(n int) string { return rep("<!-- -->\n", n) + head + "</model>" })
	fam("epilog", func(n int) string { return head + "</model>" + rep("<!-- -->\n", n) })
	fam("roots", func(n int) string { return rep(head+"</model>", n) })
	fam("plain-text", func(n int) string { return rep("text ", n) })
	fam("angle", func(n int) string { return rep("<", n) })
	fam("nul", func(n int) string { return rep("\x00", n) })
	fam("doctype", func(n int) string {
		return "<!DOCTYPE a [" + seq(n, func(i int) string { return fmt.Sprintf(`<!ENTITY e%d "&e%d;&e%d;">`, i, i+1, i+1) }) + "]>" + head + "<metadata name=\"a\">&e0;</metadata></model>"
	})
	fam("doctype-nested", func(n int) string { return "<!DOCTYPE " + rep("[<", n) + rep(">]", n) + ">" + head + "</model>" })
}

func checkScaling(c *C) error {
	for _, name := range sortedKeys(families) {
		f := families[name]
		limit := allocLarge(name)
		bound := func(n int) uint64 { return allocBase/2 + limit*uint64(n) }
		measure := func(n int) (int, uint64) {
			doc := []byte(f(n))
			c.Begin(name+".xml", doc)
			c.Eval()
			d := leastAllocated(doc, bound(len(doc)))
			c.End()
			return len(doc), d
		}
		l1, a1 := measure(500)
		l2, a2 := measure(4000)
		if a2 > bound(l2) {
			return fmt.Errorf("%s: %d bytes are allocated to decode %d bytes", name, a2, l2)
		}
		if a2 > 1<<19+16*a1 {
			return fmt.Errorf("%s: decoding %d bytes allocates %d bytes, decoding %d bytes allocates %d bytes: more than twice the memory per byte", name, l1, a1, l2, a2)
		}
		c.NonTrivial([]byte(name))
	}
	c.Sample(strings.Join(sortedKeys(families), "\n"))
	return nil
}

// checkDeep: nesting of large depth, documents of some megabytes.
func checkDeep(c *C) error {
	for _, name := range sortedKeys(families) {
		if strings.Contains(name, " of ") {
			continue
		}
		n := 60000
		if strings.Contains(name, "namespaces") || strings.Contains(name, "doctype") || strings.Contains(name, "attributes") || strings.Contains(name, "requiredext") {
			n = 8000
		}
		doc := []byte(families[name](n))
		c.Begin(name+".xml", doc)
		c.Eval()
		bound := allocBase + allocLarge(name)*uint64(len(doc))
		if least := leastAllocated(doc, bound); least > bound {
			return fmt.Errorf("%s: %d bytes are allocated to decode %d bytes", name, least, len(doc))
		}
		c.End()
		c.NonTrivial([]byte(name))
	}
	return nil
}

func init() {
	register(&Sub{Prop: "P06", Name: "document", Rule: "documents of random models with up to 12 structural edits (renaming to any registered element, moving, copying, nesting, foreign and hostile attributes), byte edits, and markup soup; decoded as a document and as root and child part in both modes; checked for panics, hangs and allocation; every document counts", Quick: 12000, Thorough: 600000, Fn: checkHostileDoc})
	register(&Sub{Prop: "P06", Name: "package", Rule: "packages of random models with odd or cyclic relationships, odd part names and types, dropped and repeated parts, damaged infrastructure parts and container bytes; decoded in both modes; every package counts", Quick: 6000, Thorough: 300000, Fn: checkHostilePackage})
	register(&Sub{Prop: "P06", Name: "scaling", Rule: "families of documents that repeat or nest one construct, 500 and 4000 times; the memory per byte may not grow; each family counts", Quick: 1, Thorough: 1, Direct: checkScaling})
	register(&Sub{Prop: "P06", Name: "large", Rule: "the same families with up to 60000 repetitions; each family counts", Quick: 1, Thorough: 1, Direct: checkDeep})
}
