package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"image/color"
	"math"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

// ---------- primitive draws ----------

func drawInt(t *rapid.T, lo, hi int, label string) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

func drawBool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// oneIn is true with probability about 1/n (and shrinks to false).
func oneIn(t *rapid.T, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// drawMany draws a count that is small but for one time out of `rare`.
func drawMany(t *rapid.T, usual, max, rare int, label string) int {
	if oneIn(t, rare, label+"-many") {
		return drawInt(t, usual, max, label)
	}
	return drawInt(t, 0, usual, label)
}

func pick[T any](t *rapid.T, label string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, label)]
}

var textRunes = []rune{'a', 'b', 'Z', '0', '9', ' ', '-', '_', '.', ':', '/', '<', '>', '&', '"', '\'', '\t', '\n', '\r', ';', '#', 'x', ']', '!', '?', '=', 'é', 'ß', '中', '\u2028', '😀', '\uFFFD', '{', '}', '%', '+', ',', '\U0010FFFF'}

// drawText draws a string of XML-representable characters.
func drawText(t *rapid.T, label string) string {
	switch drawInt(t, 0, 9, label+"-kind") {
	case 0:
		return ""
	case 1, 2, 3:
		return rapid.StringMatching(`[a-zA-Z0-9_]{1,8}`).Draw(t, label)
	case 4:
		return pick(t, label, "&amp;", "&#38;", "]]>", "<!--x-->", "<![CDATA[y]]>", "a&b<c>\"d'", "  lead", "trail  ", "\ttab\n", "\r\n", "%2F", "&lt;tag&gt;", "true", "0", "http://a/b:c?d=e&f=g")
	case 5:
		// long text, crossing tokenizer buffers
		n := drawInt(t, 10, 3000, label+"-n")
		r := rapid.SliceOfN(rapid.SampledFrom(textRunes), 1, 12).Draw(t, label)
		s := strings.Repeat(string(r), n/len(r)+1)
		return s
	default:
		return string(rapid.SliceOfN(rapid.SampledFrom(textRunes), 0, 14).Draw(t, label))
	}
}

func drawName(t *rapid.T, label string) string {
	if oneIn(t, 40, label+"-long") {
		return rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_.-]{7,90}`).Draw(t, label)
	}
	return rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_.-]{0,6}`).Draw(t, label)
}

// drawFloat draws a finite float32.
func drawFloat(t *rapid.T, label string) float32 {
	switch drawInt(t, 0, 8, label+"-k") {
	case 0:
		return 0
	case 8: // lost unless the precision is high
		return rapid.Float32Range(-1e-6, 1e-6).Draw(t, label)
	case 1, 2:
		return float32(drawInt(t, -100, 100, label))
	case 3, 4:
		return float32(drawInt(t, -1000000, 1000000, label)) / 1000
	case 5:
		return float32(drawInt(t, -99999, 99999, label)) / 100000
	case 6:
		return float32(drawInt(t, -1<<24, 1<<24, label)) * 128
	default:
		return rapid.Float32Range(-math.MaxFloat32, math.MaxFloat32).Draw(t, label)
	}
}

func drawPosFloat(t *rapid.T, label string, prec int) float32 {
	if oneIn(t, 12, label+"-tiny") {
		return pick(t, label, float32(1e-5), 3e-7, 4.9e-4, 1e-30) // may be written as zero
	}
	if prec >= 0 && prec < 3 {
		return float32(drawInt(t, 1, 50, label))
	}
	return float32(drawInt(t, 1, 5000, label)) / 100
}

func drawID(t *rapid.T, label string) uint32 {
	switch drawInt(t, 0, 5, label+"-k") {
	case 0:
		return uint32(drawInt(t, 0, 1<<31-1, label))
	case 1:
		return pick(t, label, uint32(0), 1, 2147483647, 2147483648, 4294967295)
	default:
		return uint32(drawInt(t, 1, 12, label))
	}
}

func drawIdx(t *rapid.T, label string) uint32 {
	if oneIn(t, 8, label+"-big") {
		return pick(t, label, uint32(0), 65535, 2147483648, 4294967295)
	}
	return uint32(drawInt(t, 0, 6, label))
}

func drawColor(t *rapid.T, label string) color.RGBA {
	v := rapid.Uint32().Draw(t, label)
	c := color.RGBA{R: uint8(v >> 24), G: uint8(v >> 16), B: uint8(v >> 8), A: uint8(v)}
	if drawBool(t, label+"-opaque") {
		c.A = 255
	}
	return c
}

func drawMatrix(t *rapid.T, label string) go3mf.Matrix {
	switch drawInt(t, 0, 7, label+"-k") {
	case 7: // one entry away from the identity
		m := go3mf.Identity()
		m[pick(t, "entry", 0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14)] = pick(t, "by", drawFloat(t, label), 0, 1, -1, 1.001)
		return m
	case 0, 1:
		return go3mf.Matrix{}
	case 2:
		return go3mf.Identity()
	case 3:
		return go3mf.Identity().Translate(drawFloat(t, "tx"), drawFloat(t, "ty"), drawFloat(t, "tz"))
	default:
		var m go3mf.Matrix
		for _, i := range []int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14} {
			m[i] = drawFloat(t, label)
		}
		m[15] = 1
		return m
	}
}

const hexDigits = "0123456789abcdefABCDEF"

func drawUUID(t *rapid.T, label string) string {
	b := []byte("xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx")
	seed := rapid.Uint64().Draw(t, label)
	for i := range b {
		if b[i] == 'x' {
			b[i] = hexDigits[seed%22]
			seed = seed*6364136223846793005 + 1442695040888963407
			seed ^= seed >> 17
		}
	}
	return string(b)
}

// ---------- model generation ----------

const (
	nsCore = "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"
	nsMat  = "http://schemas.microsoft.com/3dmanufacturing/material/2015/02"
	nsProd = "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"
	nsSlic = "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"
	nsBeam = "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02"
	nsXML  = "http://www.w3.org/XML/1998/namespace"

	ctModel       = "application/vnd.ms-package.3dmanufacturing-3dmodel+xml"
	relModel      = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
	relThumb      = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
	relTexture    = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dtexture"
	relTicket     = "http://schemas.microsoft.com/3dmanufacturing/2013/01/printticket"
	relMustKeep   = "http://schemas.openxmlformats.org/package/2006/relationships/mustpreserve"
	ctPrintTicket = "application/vnd.ms-printing.printticket+xml"
)

var unknownNS = []string{"urn:vendor:alpha", "http://example.com/ext/beta?x=1&y=2", "gamma"}

// GenOpts selects what a generated model may contain.
type GenOpts struct {
	Prec                        int
	Children, Attach            bool
	Mat, Prod, Slic, Beam, Unkn bool
	MaxObj, ManyChildren        int
	Undeclare                   bool // leave out some declarations of used namespaces
	Large                       bool // enlarge up to three lists or texts
	NoImplicitRels              bool // do not list the relationships that encoding adds by itself
}

func allOpts(prec int) GenOpts {
	return GenOpts{Prec: prec, Children: true, Attach: true, Mat: true, Prod: true, Slic: true, Beam: true, Unkn: true, MaxObj: 3}
}

// G is the generation context.
type G struct {
	t     *rapid.T
	o     GenOpts
	unk   []string // declared unknown namespaces
	pfx   []string // declared prefixes
	pool  []att    // attachment pool
	paths []string // child part paths
	rels  map[string][]go3mf.Relationship
	relN  int
	part  string // part being generated
}

type att struct {
	path, ct string
	data     []byte
}

// Gen is a generated model with the attachment bytes kept aside.
type Gen struct {
	Large []string // what has been enlarged
	M     *go3mf.Model
	Atts  []att
}

// Model returns the model with fresh attachment streams.
func (g *Gen) Model() *go3mf.Model {
	g.M.Attachments = nil
	for _, a := range g.Atts {
		g.M.Attachments = append(g.M.Attachments, go3mf.Attachment{Path: a.path, ContentType: a.ct, Stream: bytes.NewReader(a.data)})
	}
	return g.M
}

func genModel(t *rapid.T, o GenOpts) *Gen {
	g := &G{t: t, o: o, rels: map[string][]go3mf.Relationship{}}
	if o.MaxObj == 0 {
		o.MaxObj = 3
		g.o.MaxObj = 3
	}
	m := &go3mf.Model{}
	if o.Attach || o.Children {
		m.Path = pick(t, "path", "", "/3D/3dmodel.model", "/3D/root.model", "/root.model", "/a/b/c-d.model")
	}
	m.Language = pick(t, "lang", "", "en-US", "es", drawText(t, "langtext"))
	m.Units = go3mf.Units(drawInt(t, 0, 5, "units"))
	// declarations
	type decl struct{ ns, pfx string }
	var ds []decl
	if o.Mat {
		ds = append(ds, decl{nsMat, "m"})
	}
	if o.Prod {
		ds = append(ds, decl{nsProd, "p"})
	}
	if o.Slic {
		ds = append(ds, decl{nsSlic, "s"})
	}
	if o.Beam {
		ds = append(ds, decl{nsBeam, "b"})
	}
	if o.Unkn {
		for i, ns := range unknownNS {
			ds = append(ds, decl{ns, []string{"va", "vb", "vc"}[i]})
			g.unk = append(g.unk, ns)
		}
	}
	if len(ds) > 1 {
		ds = rapid.Permutation(ds).Draw(t, "decls")
	}
	var alike []string // one the beginning of another
	if oneIn(t, 5, "alike") {
		alike = rapid.Permutation([]string{"e", "ex", "ext", "extA", "E", "ex1", "xe"}).Draw(t, "prefixes")
	} else if oneIn(t, 5, "taken") { // like those that are made up for namespaces without a prefix
		alike = rapid.Permutation([]string{"ns2", "ns3", "ns3_", "ns4", "ns4_", "ns3__", "ns5"}).Draw(t, "prefixes")
	}
	for i, d := range ds {
		if o.Undeclare && drawBool(t, "undeclared") {
			continue
		}
		p := d.pfx
		if oneIn(t, 3, "rename") {
			p = d.pfx + drawName(t, "pfx")
		}
		if alike != nil {
			p = alike[i]
		}
		req := oneIn(t, 4, "req")
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: d.ns, LocalName: p, IsRequired: req})
		g.pfx = append(g.pfx, p)
	}
	if o.Large && oneIn(t, 4, "manyns") {
		for i := drawInt(t, 5, 150, "nns"); i > 0; i-- {
			ns := fmt.Sprintf("urn:space/%d", i)
			m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: ns, LocalName: fmt.Sprintf("more%d", i), IsRequired: i%3 == 0})
			if o.Unkn {
				g.unk = append(g.unk, ns)
			}
		}
	}
	if o.Attach {
		n := drawInt(t, 0, 4, "natt")
		if o.Large && oneIn(t, 4, "manyatt") {
			n = drawInt(t, 10, 60, "natt")
		}
		same := oneIn(t, 5, "samename") // in other folders
		tail := oneIn(t, 8, "tailname") // the end of the next one's
		for i := 0; i < n; i++ {
			if tail {
				g.pool = append(g.pool, att{path: strings.Repeat(pick(t, "taildir", "/d", "/d", "/x.png"), i) + "/f.png", ct: pick(t, "attct", "image/png", "image/png", "text/xml"), data: genBytes(t, "attdata")})
				continue
			}
			if same {
				g.pool = append(g.pool, att{path: fmt.Sprintf("/%s%d/same.png", pick(t, "attdir", "Metadata", "3D/Textures", "x"), i), ct: pick(t, "attct", "image/png", "image/png", "text/xml"), data: genBytes(t, "attdata")})
				continue
			}
			g.pool = append(g.pool, att{
				path: fmt.Sprintf("%s%s%d%s", pick(t, "attdir", "/Metadata/", "/3D/Textures/", "/", "/Thumbnails/x.y/", "/3D/"), pick(t, "attname", "file", "A.b", "tex_", "Data-"), i, pick(t, "attext", ".png", ".jpeg", ".xml", ".PNG", ".bin", "")),
				ct:   pick(t, "attct", "image/png", "image/jpeg", ctPrintTicket, "application/octet-stream", "text/xml", "application/vnd.custom+xml", ctModel, pick(t, "attctodd", "image/PNG", "Text/XML", "text/xml; charset=UTF-8")),
				data: genBytes(t, "attdata"),
			})
		}
	}
	if o.Children {
		n := 0
		if o.ManyChildren > 0 {
			n = drawInt(t, 1, o.ManyChildren, "nchild")
		} else {
			n = pick(t, "nchild", 0, 0, 1, 1, 2, 3)
		}
		same := oneIn(t, 5, "samechild")
		for i := 0; i < n; i++ {
			if same {
				g.paths = append(g.paths, fmt.Sprintf("/3D/c%d/3dmodel.model", i))
				continue
			}
			g.paths = append(g.paths, pick(t, "cdir", "/3D/", "/3D/sub/", "/", "/x-y/")+fmt.Sprintf("child%d.model", i))
		}
	}
	// thumbnail
	if len(g.pool) > 0 && oneIn(t, 2, "thumb") {
		m.Thumbnail = g.pool[drawInt(t, 0, len(g.pool)-1, "thumbi")].path
	} else if !o.Attach && oneIn(t, 4, "thumbraw") {
		m.Thumbnail = "/" + drawName(t, "thumbname")
	}
	m.AnyAttr = g.anyAttr("model", false)
	m.Metadata = g.metadata()
	for _, p := range g.paths {
		g.part = p
		c := &go3mf.ChildModel{}
		c.Resources = g.resources()
		c.Any = g.modelAny()
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[p] = c
	}
	g.part = ""
	m.Resources = g.resources()
	m.Any = g.modelAny()
	m.Build = g.build(m)
	// relationships
	for _, owner := range append([]string{"<pkg>", ""}, g.paths...) {
		if len(g.pool) == 0 {
			break
		}
		n := drawInt(t, 0, 3, "nrel")
		if o.Large && oneIn(t, 3, "manyrel") {
			n = drawInt(t, 4, 150, "nrel")
		}
		for i := 0; i < n; i++ {
			if i > 3 && drawBool(t, "owntype") {
				g.addRel(owner, g.pool[drawInt(t, 0, len(g.pool)-1, "reltgt")].path, fmt.Sprintf("http://example.com/rel/%d", i))
				continue
			}
			g.addRel(owner, g.pool[drawInt(t, 0, len(g.pool)-1, "reltgt")].path,
				pick(t, "reltype", relTicket, relMustKeep, relThumb, "http://example.com/rel/custom", relTexture))
		}
	}
	if m.Thumbnail != "" && o.Attach && !o.NoImplicitRels {
		g.addRelIfNoType("<pkg>", m.Thumbnail, relThumb)
	}
	used := map[string]bool{}
	for _, rs := range g.rels {
		for _, r := range rs {
			used[r.Path] = true
		}
	}
	gen := &Gen{M: m}
	for _, a := range g.pool {
		if used[a.path] || o.NoImplicitRels {
			gen.Atts = append(gen.Atts, a)
		}
	}
	m.RootRelationships = g.rels["<pkg>"]
	m.Relationships = g.rels[""]
	for p, c := range m.Childs {
		c.Relationships = g.rels[p]
	}
	if o.Large {
		gen.Large = enlarge(t, m)
	}
	return gen
}

func (g *G) addRel(owner, path, typ string) {
	for _, r := range g.rels[owner] {
		if r.Path == path && r.Type == typ {
			return
		}
	}
	g.relN++
	g.rels[owner] = append(g.rels[owner], go3mf.Relationship{Path: path, Type: typ, ID: fmt.Sprintf("%s%d", pick(g.t, "relid", "rel", "R", "id-"), g.relN)})
}

func (g *G) addRelIfNoType(owner, path, typ string) { g.addRel(owner, path, typ) }

// implicitRel lists the relationship that encoding derives from a part reference.
func (g *G) implicitRel(path, typ string) {
	if g.o.NoImplicitRels || !g.o.Attach {
		return
	}
	for _, r := range g.rels[g.part] {
		if r.Path == path {
			return
		}
	}
	g.addRel(g.part, path, typ)
}

func genBytes(t *rapid.T, label string) []byte {
	switch drawInt(t, 0, 3, label+"-k") {
	case 0:
		return []byte{}
	case 1:
		n := drawInt(t, 1, 70000, label+"-n")
		pat := rapid.SliceOfN(rapid.Byte(), 1, 16).Draw(t, label)
		b := bytes.Repeat(pat, n/len(pat)+1)
		return b[:n]
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, label)
	}
}

// anyAttr draws attribute groups of unknown namespaces (and the empty one where core
// attributes do not live).
func (g *G) anyAttr(elem string, allowPlain bool) spec.AnyAttr {
	var out spec.AnyAttr
	if !g.o.Unkn || !oneIn(g.t, 4, "anyattr") {
		return nil
	}
	spaces := append([]string{}, g.unk...)
	if allowPlain {
		spaces = append(spaces, "")
	}
	// namespaces of supported extensions at elements they do not extend
	if g.o.Mat {
		spaces = append(spaces, nsMat)
	}
	if g.o.Prod && (elem == "mesh" || elem == "resources" || elem == "triangle") {
		spaces = append(spaces, nsProd)
	}
	spaces = rapid.Permutation(spaces).Draw(g.t, "spaces")
	n := drawInt(g.t, 1, 2, "ngroups")
	for i := 0; i < n && i < len(spaces); i++ {
		u := &spec.UnknownAttrs{Space: spaces[i]}
		names := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_.-]{0,6}`), 1, 3, rapid.ID[string]).Draw(g.t, "uattrs")
		for _, nm := range names {
			if spaces[i] == "" && strings.HasPrefix(nm, "xmlns") {
				continue
			}
			u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: spaces[i], Local: nm}, Value: drawText(g.t, "uval")})
		}
		if len(u.Attr) > 0 {
			out = append(out, u)
		}
	}
	return out
}

// shuffleGroups merges typed and unknown groups in random order.
func (g *G) groups(unk spec.AnyAttr, typed ...spec.AttrGroup) spec.AnyAttr {
	all := append(append(spec.AnyAttr{}, typed...), unk...)
	if len(all) > 1 {
		all = rapid.Permutation(all).Draw(g.t, "groups")
	}
	if len(all) == 0 {
		return nil
	}
	return all
}

func otherCase(s string) string {
	if u := strings.ToUpper(s); u != s {
		return u
	}
	return strings.ToLower(s)
}

func contains(in []string, s string) bool {
	for _, x := range in {
		if x == s {
			return true
		}
	}
	return false
}

func (g *G) metadata() []go3mf.Metadata {
	t := g.t
	n := pick(t, "nmeta", 0, 0, 1, 2, 3)
	var out []go3mf.Metadata
	for i := 0; i < n; i++ {
		md := go3mf.Metadata{Value: drawText(t, "mdval"), Type: pick(t, "mdtype", "", "xs:string", drawText(t, "mdtypet"), pick(t, "mdtypek", "xs:boolean", "xs:dateTime", "xs:int", "xs:base64Binary")), Preserve: drawBool(t, "mdpres")}
		if len(g.pfx) > 0 && oneIn(t, 3, "mdns") {
			md.Name.Space = pick(t, "mdpfx", g.pfx...)
			md.Name.Local = pick(t, "mdloc", "custom", "a:b", drawName(t, "mdln"))
		} else {
			md.Name.Local = pick(t, "mdname", "Title", "Designer", "Application", "CreationDate", "ModificationDate", "Rating", "title", "undeclared:Thing", drawName(t, "mdl2"))
			if len(g.pfx) > 0 && oneIn(t, 6, "mdcase") { // like a declared prefix, but in another case
				p := pick(t, "mdcasepfx", g.pfx...)
				if q := otherCase(p); !contains(g.pfx, q) {
					md.Name.Local = q + ":Thing"
				}
			}
		}
		out = append(out, md)
	}
	return out
}

func (g *G) metadataGroup() go3mf.MetadataGroup {
	if !oneIn(g.t, 3, "mdgroup") {
		return go3mf.MetadataGroup{}
	}
	mg := go3mf.MetadataGroup{Metadata: g.metadata()}
	if len(mg.Metadata) > 0 {
		mg.AnyAttr = g.anyAttr("metadatagroup", true)
	}
	return mg
}

func (g *G) build(m *go3mf.Model) go3mf.Build {
	t := g.t
	var b go3mf.Build
	var typed []spec.AttrGroup
	if g.o.Prod && drawBool(t, "builduuid") {
		typed = append(typed, &production.BuildAttr{UUID: drawUUID(t, "uuid")})
	}
	b.AnyAttr = g.groups(g.anyAttr("build", true), typed...)
	n := drawInt(t, 0, 3, "nitems")
	for i := 0; i < n; i++ {
		it := &go3mf.Item{ObjectID: drawID(t, "iid"), Transform: drawMatrix(t, "itm"), Metadata: g.metadataGroup()}
		if oneIn(t, 3, "pn") {
			it.PartNumber = drawText(t, "partnumber")
		}
		var typed []spec.AttrGroup
		if g.o.Prod && drawBool(t, "itemuuid") {
			typed = append(typed, &production.ItemAttr{UUID: drawUUID(t, "uuid"), Path: g.refPath()})
		}
		it.AnyAttr = g.groups(g.anyAttr("item", false), typed...)
		b.Items = append(b.Items, it)
	}
	return b
}

func (g *G) refPath() string {
	return pick(g.t, "refpath", append([]string{"", "/3D/nowhere.model", "rel&<path>"}, g.paths...)...)
}

func (g *G) resources() go3mf.Resources {
	t := g.t
	var r go3mf.Resources
	r.AnyAttr = g.anyAttr("resources", true)
	n := drawInt(t, 0, 3, "nassets")
	for i := 0; i < n; i++ {
		r.Assets = append(r.Assets, g.asset())
	}
	n = drawInt(t, 0, g.o.MaxObj, "nobjs")
	for i := 0; i < n; i++ {
		r.Objects = append(r.Objects, g.object())
	}
	return r
}

func (g *G) asset() go3mf.Asset {
	t := g.t
	kinds := []string{"base"}
	if g.o.Mat {
		kinds = append(kinds, "color", "texgroup", "composite", "multi", "texture")
	}
	if g.o.Slic {
		kinds = append(kinds, "slicestack")
	}
	if g.o.Unkn {
		kinds = append(kinds, "unknown")
	}
	switch pick(t, "assetkind", kinds...) {
	case "base":
		b := &go3mf.BaseMaterials{ID: drawID(t, "id"), AnyAttr: g.anyAttr("basematerials", false)}
		for i, n := 0, drawInt(t, 0, 3, "nbase"); i < n; i++ {
			b.Materials = append(b.Materials, go3mf.Base{Name: drawText(t, "bname"), Color: drawColor(t, "bcol"), AnyAttr: g.anyAttr("base", false)})
		}
		return b
	case "color":
		c := &materials.ColorGroup{ID: drawID(t, "id")}
		for i, n := 0, drawInt(t, 0, 4, "ncol"); i < n; i++ {
			c.Colors = append(c.Colors, drawColor(t, "col"))
		}
		return c
	case "texgroup":
		c := &materials.Texture2DGroup{ID: drawID(t, "id"), TextureID: drawID(t, "texid")}
		for i, n := 0, drawInt(t, 0, 4, "ncoord"); i < n; i++ {
			c.Coords = append(c.Coords, materials.TextureCoord{drawFloat(t, "u"), drawFloat(t, "v")})
		}
		return c
	case "composite":
		c := &materials.CompositeMaterials{ID: drawID(t, "id"), MaterialID: drawID(t, "matid")}
		for i, n := 0, drawInt(t, 0, 4, "nidx"); i < n; i++ {
			c.Indices = append(c.Indices, drawIdx(t, "matidx"))
		}
		for i, n := 0, drawInt(t, 0, 3, "ncomp"); i < n; i++ {
			var cc materials.Composite
			for j, k := 0, drawInt(t, 0, 3, "nval"); j < k; j++ {
				cc.Values = append(cc.Values, drawFloat(t, "cv"))
			}
			c.Composites = append(c.Composites, cc)
		}
		return c
	case "multi":
		c := &materials.MultiProperties{ID: drawID(t, "id")}
		for i, n := 0, drawInt(t, 0, 3, "npid"); i < n; i++ {
			c.PIDs = append(c.PIDs, drawID(t, "mpid"))
		}
		for i, n := 0, drawInt(t, 0, 3, "nblend"); i < n; i++ {
			c.BlendMethods = append(c.BlendMethods, materials.BlendMethod(drawInt(t, 0, 1, "blend")))
		}
		for i, n := 0, drawInt(t, 0, 3, "nmulti"); i < n; i++ {
			var mm materials.Multi
			for j, k := 0, drawInt(t, 0, 3, "npi"); j < k; j++ {
				mm.PIndices = append(mm.PIndices, drawIdx(t, "pi"))
			}
			c.Multis = append(c.Multis, mm)
		}
		return c
	case "texture":
		c := &materials.Texture2D{ID: drawID(t, "id"), ContentType: materials.Texture2DType(drawInt(t, 1, 2, "texct")),
			TileStyleU: materials.TileStyle(drawInt(t, 0, 3, "tu")), TileStyleV: materials.TileStyle(drawInt(t, 0, 3, "tv")),
			Filter: materials.TextureFilter(drawInt(t, 0, 2, "tf"))}
		if g.o.Attach {
			if len(g.pool) > 0 {
				c.Path = g.pool[drawInt(t, 0, len(g.pool)-1, "texpath")].path
				g.implicitRel(c.Path, relTexture)
			} else {
				c.Path = "/3D/missing.png"
			}
		} else {
			if g.o.Children {
				c.Path = "/" + drawName(t, "texpathtext")
			} else {
				c.Path = "/" + drawText(t, "texpathtext")
			}
		}
		return c
	case "slicestack":
		return g.sliceStack()
	default:
		ns := pick(t, "uns", g.unk...)
		toks := g.unknownElem(ns, 0)
		return &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: toks}}
	}
}

func (g *G) sliceStack() *slices.SliceStack {
	t := g.t
	s := &slices.SliceStack{ID: drawID(t, "id"), BottomZ: drawFloat(t, "bz")}
	for i, n := 0, drawInt(t, 0, 3, "nslices"); i < n; i++ {
		sl := slices.Slice{TopZ: drawFloat(t, "tz")}
		for j, k := 0, drawInt(t, 0, 4, "nsv"); j < k; j++ {
			sl.Vertices.Vertex = append(sl.Vertices.Vertex, go3mf.Point2D{drawFloat(t, "sx"), drawFloat(t, "sy")})
		}
		for j, k := 0, drawInt(t, 0, 3, "npoly"); j < k; j++ {
			p := slices.Polygon{StartV: drawIdx(t, "sv")}
			for q, r := 0, drawInt(t, 0, 4, "nseg"); q < r; q++ {
				sg := slices.Segment{V2: drawIdx(t, "v2")}
				if drawBool(t, "segpid") {
					sg.PID = uint32(drawInt(t, 1, 5, "segpidv"))
					sg.P1, sg.P2 = drawIdx(t, "sp1"), drawIdx(t, "sp2")
					if drawBool(t, "sameP") {
						sg.P2 = sg.P1
					}
				}
				p.Segments = append(p.Segments, sg)
			}
			sl.Polygons = append(sl.Polygons, p)
		}
		s.Slices = append(s.Slices, sl)
	}
	for i, n := 0, pick(t, "nrefs", 0, 0, 1, 2); i < n; i++ {
		s.Refs = append(s.Refs, slices.SliceRef{SliceStackID: drawID(t, "refid"), Path: g.refPath()})
	}
	return s
}

// unknownElem draws a balanced token tree of namespace ns.
func (g *G) unknownElem(ns string, depth int) []xml.Token {
	t := g.t
	name := xml.Name{Space: ns, Local: pick(t, "uelem", "thing", "model", "object", "item", drawName(t, "uelemn"))}
	return g.unknownTree(name, depth)
}

func (g *G) unknownTree(name xml.Name, depth int) []xml.Token {
	t := g.t
	st := xml.StartElement{Name: name}
	names := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_.-]{0,6}`), 0, 3, rapid.ID[string]).Draw(t, "uan")
	for _, nm := range names {
		if nm == "id" || strings.HasPrefix(nm, "xmlns") {
			continue
		}
		st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Space: pick(t, "uas", append([]string{""}, g.unk...)...), Local: nm}, Value: drawText(t, "uav")})
	}
	if oneIn(t, 8, "qid") && name.Space != "" { // not the identifier
		st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Space: pick(t, "qids", g.unk...), Local: "id"}, Value: pick(t, "qidv", "7", "x", "")})
	}
	if depth == 0 && oneIn(t, 2, "uid") {
		st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Local: "id"}, Value: fmt.Sprint(drawID(t, "uidv"))})
	}
	toks := []xml.Token{st}
	n := 0
	if depth < 4 {
		n = pick(t, "ukids", 0, 0, 1, 2, 3)
	}
	lastText := false
	for i := 0; i < n; i++ {
		if !lastText && drawBool(t, "utext") {
			s := drawText(t, "utextv")
			if strings.TrimSpace(s) != "" { // white space between tags is insignificant
				toks = append(toks, xml.CharData(s))
				lastText = true
				continue
			}
		}
		lastText = false
		var kid xml.Name
		switch drawInt(t, 0, 3, "ukidk") {
		case 0:
			kid = name // same name as the parent
		case 1:
			kid = xml.Name{Space: nsCore, Local: pick(t, "ukidcore", "model", "object", "metadata", "resources", "vertex")}
		case 2:
			sp := append([]string{}, g.unk...)
			if g.o.Mat {
				sp = append(sp, nsMat)
			}
			kid = xml.Name{Space: pick(t, "ukidns", sp...), Local: pick(t, "ukidl", "thing", "colorgroup", "color", "x")}
		default:
			kid = xml.Name{Space: name.Space, Local: drawName(t, "ukidn")}
		}
		toks = append(toks, g.unknownTree(kid, depth+1)...)
	}
	return append(toks, xml.EndElement{Name: name})
}

func (g *G) modelAny() spec.Any {
	if !g.o.Unkn || !oneIn(g.t, 3, "many") {
		return nil
	}
	var a spec.Any
	n := drawInt(g.t, 1, 3, "nany")
	if oneIn(g.t, 12, "manyany") {
		n += 7
	}
	for i := 0; i < n; i++ {
		a = append(a, &spec.UnknownTokens{Token: g.unknownElem(pick(g.t, "anyns", g.unk...), 0)})
	}
	return a
}

func (g *G) object() *go3mf.Object {
	t := g.t
	o := &go3mf.Object{ID: drawID(t, "oid"), Type: go3mf.ObjectType(drawInt(t, 0, 4, "otype"))}
	if oneIn(t, 3, "oname") {
		o.Name = drawText(t, "oname")
	}
	if oneIn(t, 3, "opn") {
		o.PartNumber = drawText(t, "opn")
	}
	if oneIn(t, 3, "othumb") {
		if g.o.Attach && len(g.pool) > 0 {
			o.Thumbnail = g.pool[drawInt(t, 0, len(g.pool)-1, "othumbi")].path
			g.implicitRel(o.Thumbnail, relThumb)
		} else if !g.o.Attach {
			if g.o.Children {
				o.Thumbnail = "/" + drawName(t, "othumbt") // becomes a relationship
			} else {
				o.Thumbnail = "/" + drawText(t, "othumbt")
			}
		}
	}
	o.Metadata = g.metadataGroup()
	var typed []spec.AttrGroup
	if g.o.Prod && drawBool(t, "ouuid") {
		typed = append(typed, &production.ObjectAttr{UUID: drawUUID(t, "uuid")})
	}
	if g.o.Slic && oneIn(t, 3, "oslice") {
		typed = append(typed, &slices.ObjectAttr{SliceStackID: drawID(t, "ssid"), MeshResolution: slices.MeshResolution(drawInt(t, 0, 1, "mres"))})
	}
	o.AnyAttr = g.groups(g.anyAttr("object", false), typed...)
	switch drawInt(t, 0, 7, "okind") {
	case 0:
		// neither mesh nor components
	case 1, 2:
		o.Components = g.components()
	default:
		g.mesh(o)
	}
	return o
}

func (g *G) components() *go3mf.Components {
	t := g.t
	cs := &go3mf.Components{AnyAttr: g.anyAttr("components", true)}
	for i, n := 0, drawInt(t, 0, 3, "ncomps"); i < n; i++ {
		c := &go3mf.Component{ObjectID: drawID(t, "cid"), Transform: drawMatrix(t, "ctm")}
		var typed []spec.AttrGroup
		if g.o.Prod && drawBool(t, "cuuid") {
			typed = append(typed, &production.ComponentAttr{UUID: drawUUID(t, "uuid"), Path: g.refPath()})
		}
		c.AnyAttr = g.groups(g.anyAttr("component", false), typed...)
		cs.Component = append(cs.Component, c)
	}
	return cs
}

func (g *G) mesh(o *go3mf.Object) {
	t := g.t
	m := &go3mf.Mesh{AnyAttr: g.anyAttr("mesh", true)}
	o.Mesh = m
	if drawBool(t, "opid") {
		o.PID = drawID(t, "opidv")
		o.PIndex = drawIdx(t, "opix")
	}
	m.Vertices.AnyAttr = g.anyAttr("vertices", true)
	m.Triangles.AnyAttr = g.anyAttr("triangles", true)
	for i, n := 0, drawInt(t, 0, 5, "nv"); i < n; i++ {
		m.Vertices.Vertex = append(m.Vertices.Vertex, go3mf.Point3D{drawFloat(t, "x"), drawFloat(t, "y"), drawFloat(t, "z")})
	}
	for i, n := 0, drawInt(t, 0, 6, "nt"); i < n; i++ {
		tr := go3mf.Triangle{V1: drawIdx(t, "v1"), V2: drawIdx(t, "v2"), V3: drawIdx(t, "v3")}
		k := drawInt(t, 0, 4, "tprops")
		noProps := o.PID == 0 && o.PIndex == 0
		switch {
		case k == 0 && noProps:
		case k <= 1 && o.PID != 0: // same as object
			tr.PID, tr.P1, tr.P2, tr.P3 = o.PID, o.PIndex, o.PIndex, o.PIndex
		case k <= 2:
			p := drawIdx(t, "p")
			tr.PID, tr.P1, tr.P2, tr.P3 = uint32(drawInt(t, 1, 9, "tpid")), p, p, p
			if drawBool(t, "opidsame") && o.PID != 0 {
				tr.PID = o.PID
			}
		default:
			tr.PID, tr.P1, tr.P2, tr.P3 = uint32(drawInt(t, 1, 9, "tpid")), drawIdx(t, "p1"), drawIdx(t, "p2"), drawIdx(t, "p3")
			if drawBool(t, "opidsame") && o.PID != 0 {
				tr.PID = o.PID
			}
		}
		tr.AnyAttr = g.anyAttr("triangle", false)
		m.Triangles.Triangle = append(m.Triangles.Triangle, tr)
	}
	if g.o.Beam && oneIn(t, 3, "beam") {
		m.Any = append(m.Any, g.beamLattice())
	}
	if g.o.Unkn && oneIn(t, 4, "meshany") {
		n := drawInt(t, 1, 2, "nmany")
		if oneIn(t, 12, "manyany") {
			n += 7
		}
		for i := 0; i < n; i++ {
			m.Any = append(m.Any, &spec.UnknownTokens{Token: g.unknownElem(pick(t, "anyns", g.unk...), 0)})
		}
	}
}

func (g *G) beamLattice() *beamlattice.BeamLattice {
	t := g.t
	p := g.o.Prec
	b := &beamlattice.BeamLattice{
		ClipMode: beamlattice.ClipMode(drawInt(t, 0, 2, "clip")), ClippingMeshID: pick(t, "clipid", 0, 0, drawID(t, "clipidv")),
		RepresentationMeshID: pick(t, "repid", 0, 0, drawID(t, "repidv")), MinLength: drawFloat(t, "minlen"), Radius: drawPosFloat(t, "rad", p),
		CapMode: beamlattice.CapMode(drawInt(t, 0, 2, "cap")),
	}
	for i, n := 0, drawInt(t, 0, 5, "nbeams"); i < n; i++ {
		bm := beamlattice.Beam{Indices: [2]uint32{drawIdx(t, "b1"), drawIdx(t, "b2")}}
		for k := range bm.Radius {
			switch drawInt(t, 0, 2, "rk") {
			case 0:
				bm.Radius[k] = b.Radius
			case 1:
				if k == 1 {
					bm.Radius[1] = bm.Radius[0]
				} else {
					bm.Radius[0] = b.Radius
				}
			default:
				bm.Radius[k] = drawPosFloat(t, "r", p)
			}
			bm.CapMode[k] = beamlattice.CapMode(drawInt(t, 0, 2, "bcap"))
		}
		b.Beams.Beam = append(b.Beams.Beam, bm)
	}
	for i, n := 0, drawInt(t, 0, 2, "nsets"); i < n; i++ {
		bs := beamlattice.BeamSet{Name: drawText(t, "bsn"), Identifier: drawText(t, "bsi")}
		for j, k := 0, drawInt(t, 0, 3, "nref"); j < k; j++ {
			bs.Refs = append(bs.Refs, drawIdx(t, "bref"))
		}
		b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, bs)
	}
	return b
}
