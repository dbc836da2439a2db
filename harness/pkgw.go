package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math/rand"
	"path"
	"strings"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

// An own writer of OPC packages, independent of the one under test.

const (
	ctRels   = "application/vnd.openxmlformats-package.relationships+xml"
	rel3D    = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
	pkgRels  = "http://schemas.openxmlformats.org/package/2006/relationships"
	pkgTypes = "http://schemas.openxmlformats.org/package/2006/content-types"
)

type outPart struct {
	name, ct string
	data     []byte
}

type outRel struct{ id, typ, target string }

type outPkg struct {
	parts []outPart
	rels  map[string][]outRel // owner ("" = package)
}

type pkgStyle struct {
	Shuffle, Deflate, Mixed, Defaults, Relative, TypesLast, ShortRels, Spare, Again bool
}

var styleNames = []string{"shuffle", "deflate", "mixed", "defaults", "relative", "types-last", "short-rels", "spare", "again"}

func drawStyle(t *rapid.T, c *C) (s pkgStyle, r *rand.Rand) {
	for i, p := range []*bool{&s.Shuffle, &s.Deflate, &s.Mixed, &s.Defaults, &s.Relative, &s.TypesLast, &s.ShortRels, &s.Spare, &s.Again} {
		*p = drawBool(t, "style-"+styleNames[i])
		if c != nil {
			c.LabelIf(*p, "package:"+styleNames[i])
		}
	}
	return s, rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "styleseed"))))
}

func xmlAttrText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;", "\t", "&#9;", "\n", "&#10;", "\r", "&#13;").Replace(s)
}

func relsName(owner string) string {
	if owner == "" {
		return "/_rels/.rels"
	}
	return path.Dir(owner) + map[bool]string{true: "", false: "/"}[path.Dir(owner) == "/"] + "_rels/" + path.Base(owner) + ".rels"
}

// relative spells target relative to the part owner.
func relative(owner, target string, dot bool) string {
	dir := "/"
	if owner != "" {
		dir = owner[:strings.LastIndexByte(owner, '/')+1]
	}
	up := ""
	for !strings.HasPrefix(target, dir) {
		up += "../"
		dir = dir[:strings.LastIndexByte(dir[:len(dir)-1], '/')+1]
	}
	if dot && up == "" {
		up = "./"
	}
	return up + strings.TrimPrefix(target, dir)
}

func relsXML(rs []outRel, owner string, s pkgStyle, r *rand.Rand) []byte {
	var b bytes.Buffer
	pfx, decl := "", "xmlns"
	if s.ShortRels {
		pfx, decl = "r:", "xmlns:r"
	} else {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	fmt.Fprintf(&b, "<%sRelationships %s=\"%s\">", pfx, decl, pkgRels)
	for _, x := range rs {
		tgt := x.target
		if s.Relative && r.Intn(2) == 0 {
			tgt = relative(owner, tgt, r.Intn(3) == 0)
		}
		as := []string{`Id="` + xmlAttrText(x.id) + `"`, `Type="` + xmlAttrText(x.typ) + `"`, `Target="` + xmlAttrText(tgt) + `"`}
		if s.Shuffle {
			r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
			b.WriteString("\n")
		}
		fmt.Fprintf(&b, "<%sRelationship %s/>", pfx, strings.Join(as, " "))
	}
	fmt.Fprintf(&b, "</%sRelationships>", pfx)
	return b.Bytes()
}

// bytes writes the package.
func (p *outPkg) bytes(s pkgStyle, r *rand.Rand) []byte {
	parts := append([]outPart(nil), p.parts...)
	if s.Spare {
		parts = append(parts, outPart{"/other/unreferenced.dat", "application/octet-stream", []byte("spare")})
	}
	for _, owner := range sortedKeys(p.rels) {
		rels := p.rels[owner]
		if s.Again && owner != "" { // more than one relationship to the same model part
			for i, x := range p.rels[owner] {
				if x.typ == rel3D && r.Intn(2) == 0 {
					rels = append(rels[:len(rels):len(rels)], outRel{fmt.Sprintf("again%d", i), rel3D, x.target})
				}
			}
			if r.Intn(4) == 0 {
				rels = append(rels[:len(rels):len(rels)], outRel{"self", rel3D, owner})
			}
		}
		if len(rels) > 0 {
			parts = append(parts, outPart{relsName(owner), ctRels, relsXML(rels, owner, s, r)})
		}
	}
	if s.Shuffle {
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	// content types
	def := map[string]string{"rels": ctRels}
	var over []outPart
	for _, q := range parts {
		ext := ""
		if i := strings.LastIndexByte(q.name, '.'); i > strings.LastIndexByte(q.name, '/') {
			ext = strings.ToLower(q.name[i+1:])
		}
		if d, ok := def[ext]; ok && d == q.ct && ext != "" {
			continue
		} else if !ok && s.Defaults && ext != "" {
			def[ext] = q.ct
			continue
		}
		over = append(over, q)
	}
	var ct bytes.Buffer
	ct.WriteString(`<?xml version="1.0" encoding="UTF-8"?><Types xmlns="` + pkgTypes + `">`)
	for _, k := range sortedKeys(def) {
		e := k
		if s.Mixed {
			e = strings.ToUpper(k)
		}
		fmt.Fprintf(&ct, `<Default Extension="%s" ContentType="%s"/>`, xmlAttrText(e), xmlAttrText(def[k]))
	}
	for _, q := range over {
		fmt.Fprintf(&ct, `<Override PartName="%s" ContentType="%s"></Override>`, xmlAttrText(q.name), xmlAttrText(q.ct))
	}
	ct.WriteString("</Types>")
	types := outPart{"/[Content_Types].xml", "", ct.Bytes()}
	if s.TypesLast {
		parts = append(parts, types)
	} else {
		parts = append([]outPart{types}, parts...)
	}
	var out bytes.Buffer
	zw := zip.NewWriter(&out)
	for _, q := range parts {
		h := &zip.FileHeader{Name: strings.TrimPrefix(q.name, "/"), Method: zip.Store}
		if s.Deflate || (s.Mixed && r.Intn(2) == 0) {
			h.Method = zip.Deflate
		}
		w, err := zw.CreateHeader(h)
		if err == nil && !strings.HasSuffix(q.name, "/") {
			_, err = w.Write(q.data)
		}
		if err != nil {
			panic(err)
		}
	}
	if err := zw.Close(); err != nil {
		panic(err)
	}
	return out.Bytes()
}

// packageOf lays the model out as a package; doc spells the document of a part ("" = root).
func packageOf(g *Gen, doc func(part string) []byte) *outPkg {
	m := g.M
	p := &outPkg{rels: map[string][]outRel{}}
	n := 0
	add := func(owner, typ, target, id string) {
		n++
		if id == "" {
			id = fmt.Sprintf("x%d", n)
		}
		p.rels[owner] = append(p.rels[owner], outRel{id, typ, target})
	}
	root := m.PathOrDefault()
	p.parts = append(p.parts, outPart{root, ctModel, doc("")})
	add("", rel3D, root, "")
	for _, r := range m.RootRelationships {
		add("", r.Type, r.Path, r.ID)
	}
	for _, r := range m.Relationships {
		add(root, r.Type, r.Path, r.ID)
	}
	for _, c := range sortedChilds(m) {
		p.parts = append(p.parts, outPart{c, ctModel, doc(c)})
		add(root, rel3D, c, "")
		for _, r := range m.Childs[c].Relationships {
			add(c, r.Type, r.Path, r.ID)
		}
	}
	for _, a := range g.Atts {
		p.parts = append(p.parts, outPart{a.path, a.ct, a.data})
	}
	return p
}

// resolveRels makes the relationship targets of a decoded model absolute.
func resolveRels(m *go3mf.Model) {
	abs := func(owner string, rs []go3mf.Relationship) {
		for i, r := range rs {
			if !strings.HasPrefix(r.Path, "/") {
				rs[i].Path = path.Join(path.Dir(owner), r.Path)
			}
		}
	}
	abs("/x", m.RootRelationships)
	abs(m.PathOrDefault(), m.Relationships)
	for p, c := range m.Childs {
		abs(p, c.Relationships)
	}
}
