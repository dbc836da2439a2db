package main

import (
	"encoding/xml"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"

	"github.com/google/go-cmp/cmp"
	"github.com/google/go-cmp/cmp/cmpopts"
	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// canon removes what does not belong to the meaning of a document: the order of
// attributes and declarations, prefix declarations inside unknown content, the way
// text is cut into tokens. It works on a copy.
func canon(m *go3mf.Model) *go3mf.Model {
	c := copyModel(m)
	var ext []go3mf.Extension
	for _, e := range c.Extensions {
		if e.Namespace != nsCore {
			ext = append(ext, e)
		}
	}
	sort.SliceStable(ext, func(i, j int) bool { return ext[i].LocalName < ext[j].LocalName })
	c.Extensions = ext
	canonValue(reflect.ValueOf(c).Elem())
	return c
}

func isNS(a xml.Attr) bool {
	return a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns")
}

func canonTokens(in []xml.Token) []xml.Token {
	var out []xml.Token
	for _, t := range in {
		switch t := t.(type) {
		case xml.StartElement:
			var as []xml.Attr
			for _, a := range t.Attr {
				if !isNS(a) {
					as = append(as, a)
				}
			}
			sort.SliceStable(as, func(i, j int) bool {
				return qname{as[i].Name.Space, as[i].Name.Local}.String() < qname{as[j].Name.Space, as[j].Name.Local}.String()
			})
			t.Attr = as
			out = append(out, t)
		case xml.CharData:
			if n := len(out); n > 0 {
				if p, ok := out[n-1].(xml.CharData); ok {
					out[n-1] = xml.CharData(string(p) + string(t))
					continue
				}
			}
			out = append(out, xml.CharData(string(t)))
		default:
			out = append(out, t)
		}
	}
	return out
}

func canonValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			if h, ok := v.Interface().(interface{ canonHook() }); ok && v.Kind() == reflect.Ptr {
				h.canonHook()
			}
			e := v.Elem()
			if v.Kind() == reflect.Interface && e.Kind() != reflect.Ptr {
				return
			}
			canonValue(e)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			canonValue(v.MapIndex(k))
		}
	case reflect.Slice:
		if toks, ok := v.Interface().([]xml.Token); ok {
			v.Set(reflect.ValueOf(canonTokens(toks)))
			return
		}
		if as, ok := v.Interface().(spec.AnyAttr); ok {
			var out spec.AnyAttr
			for _, g := range as {
				if u, ok := g.(*spec.UnknownAttrs); ok {
					if u.Space == "xmlns" {
						continue
					}
					var keep []xml.Attr
					for _, a := range u.Attr {
						if !isNS(a) {
							keep = append(keep, a)
						}
					}
					u.Attr = keep
					if len(keep) == 0 {
						continue
					}
					sort.SliceStable(u.Attr, func(i, j int) bool { return u.Attr[i].Name.Local < u.Attr[j].Name.Local })
				}
				if h, ok := g.(*hookGroup); ok {
					h.canonHook()
				}
				out = append(out, g)
			}
			sort.SliceStable(out, func(i, j int) bool { return out[i].Namespace() < out[j].Namespace() })
			v.Set(reflect.ValueOf(out))
			return
		}
		if flat(v.Type().Elem()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			canonValue(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				canonValue(v.Field(i))
			}
		}
	}
}

// diffExact compares two canonical models without numeric tolerance.
func diffExact(want, got *go3mf.Model) string {
	if sameModels(want, got, eq{}) {
		return ""
	}
	opts := cmp.Options{
		cmpopts.EquateEmpty(),
		cmp.Comparer(func(a, b go3mf.Matrix) bool {
			return a == b || (isIdentity(a) && isIdentity(b))
		}),
		ignoreUnexported,
		cmpopts.IgnoreFields(go3mf.Model{}, "Attachments", "Path"),
		cmp.FilterPath(func(p cmp.Path) bool {
			f, ok := p.Last().(cmp.StructField)
			return ok && (f.Name() == "Relationships" || f.Name() == "RootRelationships")
		}, cmpopts.SortSlices(func(a, b go3mf.Relationship) bool {
			return a.Path+"\x00"+a.Type+a.ID < b.Path+"\x00"+b.Type+b.ID
		})),
	}
	return clip(cmp.Diff(want, got, opts), 5000)
}

func countFeatures(s *speller) int {
	n := 0
	for _, f := range s.f {
		if f {
			n++
		}
	}
	return n
}

// legacyNames gives some attributes of the beam lattices the names that older writers use, or takes them back.
func legacyNames(n *node, r *rand.Rand, forth bool) (count int) {
	if n.Name == (qname{nsBeam, "beamlattice"}) && !n.Verb {
		for i := range n.Attrs {
			a := &n.Attrs[i].Name
			for _, p := range [][2]string{{"minlength", "precision"}, {"clippingmode", "clipping"}} {
				name, old := p[0], p[1]
				if forth && *a == (qname{"", name}) && r.Intn(2) == 0 {
					a.Local = old
					count++
				} else if !forth && *a == (qname{"", old}) {
					a.Local = name
				}
			}
		}
	}
	for _, k := range n.kids() {
		if !n.Verb {
			count += legacyNames(k, r, forth)
		}
	}
	return
}

func checkSpelling(t *rapid.T, c *C, o GenOpts) {
	o.Prec, o.Children, o.Attach = -1, false, false
	g := genModel(t, o)
	s := drawSpelling(t, c)
	dom := buildDOM(g.M, "")
	legacy := 0
	if drawBool(t, "legacy") {
		legacy = legacyNames(dom, s.r, true)
	}
	doc := s.document(dom, g.M.Extensions)
	c.LabelIf(legacy > 0, "spelling:legacy-names")
	// the reference reader confirms that the spelling is what it should be
	if ref, err := parseXML(doc); err != nil {
		t.Fatalf("HARNESS: the spelled document is not well formed: %v\n%s", err, clip(string(doc), 4000))
	} else {
		legacyNames(ref, s.r, false)
		if d := diffDOM(buildDOM(g.M, ""), ref, precSame, ""); d != "" && !s.f[fInterleave] {
			t.Fatalf("HARNESS: the spelled document has another meaning: %s\n%s", d, clip(string(doc), 4000))
		}
	}
	labelLarge(c, g)
	c.Begin("model.xml", doc)
	c.Eval()
	got := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, got); err != nil {
		t.Fatalf("decoding a valid document failed: %v\n%s", err, clip(string(doc), 4000))
	}
	if d := diffExact(canon(g.M), canon(got)); d != "" {
		t.Fatalf("the decoded model is not what the document says (-want +got):\n%s\n%s", d, clip(string(doc), 4000))
	}
	if d := wrongUnknownID(got); d != "" {
		t.Fatalf("%s\n%s", d, clip(string(doc), 4000))
	}
	if countModel(c, g.M) && countFeatures(s) > 0 {
		c.NonTrivial(doc)
	}
	c.Sample(string(doc))
}

// wrongUnknownID: an unknown resource is found by the identifier in its tag.
func wrongUnknownID(m *go3mf.Model) (wrong string) {
	m.WalkAssets(func(path string, a go3mf.Asset) error {
		u, ok := a.(*go3mf.UnknownAsset)
		if !ok || len(u.Token) == 0 {
			return nil
		}
		var want uint64
		for _, a := range u.Token[0].(xml.StartElement).Attr {
			if a.Name == (xml.Name{Local: "id"}) {
				want, _ = strconv.ParseUint(a.Value, 10, 32)
			}
		}
		if u.Identify() != uint32(want) {
			wrong = fmt.Sprintf("the unknown resource with id %d of part %q is identified as %d", want, path, u.Identify())
		}
		return nil
	})
	return
}

// checkSpelledPackage: a package written by the own writer decodes to the model it describes.
func checkSpelledPackage(t *rapid.T, c *C, o GenOpts) {
	g := genModel(t, o)
	spell := map[string]*speller{"": drawSpelling(t, c)}
	for _, p := range sortedChilds(g.M) {
		spell[p] = drawSpelling(t, c)
	}
	style, r := drawStyle(t, c)
	pk := packageOf(g, func(part string) []byte {
		return spell[part].document(buildDOM(g.M, part), g.M.Extensions)
	})
	b := pk.bytes(style, r)
	if _, err := readPackage(b); err != nil {
		t.Fatalf("HARNESS: the written package is not valid: %v", err)
	}
	labelLarge(c, g)
	c.Begin("package.3mf", b)
	c.Eval()
	got, err := decodePkg(b, drawBool(t, "strict"))
	if err != nil {
		t.Fatalf("decoding a valid package failed: %v", err)
	}
	if got.Path != g.M.PathOrDefault() {
		t.Fatalf("root part path: want %q got %q", g.M.PathOrDefault(), got.Path)
	}
	resolveRels(got)
	if d := diffExact(canon(g.M), canon(got)); d != "" {
		t.Fatalf("the decoded model is not what the package says (-want +got):\n%s", d)
	}
	if d := diffAttachments(g.Atts, got.Attachments); d != "" {
		t.Fatalf("%s", d)
	}
	if d := wrongUnknownID(got); d != "" {
		t.Fatal(d)
	}
	if countModel(c, g.M) && len(pk.parts) > 1 {
		c.NonTrivial(b)
	}
	c.Sample(fmt.Sprintf("%d parts, style %+v", len(pk.parts), style))
}

func init() {
	rule := "random models written with a random subset of 24 spelling features by an own writer; non-trivial = an object with a component, triangle or asset and at least one feature"
	register(&Sub{Prop: "P05", Name: "respelled-core", Rule: rule, Quick: 4000, Thorough: 150000, Fn: func(t *rapid.T, c *C) {
		checkSpelling(t, c, GenOpts{MaxObj: 3})
	}})
	register(&Sub{Prop: "P05", Name: "respelled-all", Rule: rule, Quick: 3000, Thorough: 120000, Fn: func(t *rapid.T, c *C) {
		checkSpelling(t, c, GenOpts{MaxObj: 3, Mat: true, Prod: true, Slic: true, Beam: true})
	}})
	register(&Sub{Prop: "P05", Name: "respelled-unknown", Rule: rule, Quick: 3000, Thorough: 120000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(-1)
		checkSpelling(t, c, o)
	}})
	register(&Sub{Prop: "P05", Name: "large", Rule: largeRule, Quick: 300, Thorough: 20000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(-1)
		o.Large = true
		checkSpelling(t, c, o)
	}})
	register(&Sub{Prop: "P05", Name: "package-large", Rule: largeRule, Quick: 200, Thorough: 15000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(-1)
		o.Large = true
		checkSpelledPackage(t, c, o)
	}})
	register(&Sub{Prop: "P05", Name: "package", Rule: "random models with child parts and attachments laid out as a package by an own writer (part order, compression, content types by default or override, relative targets, spare parts) with respelled documents; non-trivial = an object with content and at least two parts", Quick: 2000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		checkSpelledPackage(t, c, allOpts(-1))
	}})
	register(&Sub{Prop: "P05", Name: "package-core", Rule: "as package, for models without vendor content", Quick: 2000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(-1)
		o.Unkn, o.MaxObj = false, 2
		checkSpelledPackage(t, c, o)
	}})
}
