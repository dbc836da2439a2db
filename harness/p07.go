package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"pgregory.net/rapid"
)

// badAttr is an attribute value that cannot be parsed, as it has to be reported.
type badAttr struct {
	Name  string
	Req   bool
	XPath string
}

func (b badAttr) String() string { return fmt.Sprintf("%s@%s required=%v", b.XPath, b.Name, b.Req) }

// attributes that the schemas require
var reqAttrs = map[string]bool{}

func init() {
	for _, n := range strings.Fields("objectid id displaycolor x y z v1 v2 v3 texid matid matindices values pids pindices u v color startv ztop slicestackid minlength radius index UUID contenttype") {
		reqAttrs[n] = true
	}
}

func badValue(t *rapid.T, k attrKind, old string) (string, bool) {
	list := func(bad ...string) string {
		fs := strings.Fields(old)
		b := pick(t, "badtoken", bad...)
		i := drawInt(t, 0, len(fs), "badpos")
		if len(fs) > 0 && drawBool(t, "replace") {
			if i == len(fs) {
				i--
			}
			fs[i] = b
			return strings.Join(fs, " ")
		}
		return strings.Join(append(append(append([]string{}, fs[:i]...), b), fs[i:]...), " ")
	}
	switch k {
	case kUint:
		return pick(t, "baduint", "", "-1", "abc", "1.5", "4294967296", "99999999999999999999", "1 2", "1,2", "#1", "one", "0b1", "3x", "--"), true
	case kFloat:
		return pick(t, "badfloat", "", "abc", "1.2.3", "1,5", "1 2", "--1", "1e", "e5", ".", "-", "1.0f", "12mm", "1e39", "-3.5e38", "1e999"), true
	case kUints:
		return list("x", "-1", "1.5", "4294967296", "1,2", "-"), true
	case kFloats:
		return list("x", "1.2.3", "1,2", "--1", "e", "-", "1e39", "-1e400"), true
	case kEnums:
		return list("bogus", "MIX", "mix,multiply", "0"), true
	case kMatrix:
		fs := strings.Fields(old)
		if len(fs) != 12 {
			return "bogus", true
		}
		switch drawInt(t, 0, 4, "badmatrix") {
		case 0:
			return strings.Join(fs[:drawInt(t, 0, 11, "few")], " "), true
		case 1:
			return strings.Join(append(append([]string{}, fs...), pick(t, "extra", "0", "1", "x")), " "), true
		case 2:
			return strings.Join(fs, ","), true
		default:
			c := append([]string{}, fs...)
			c[drawInt(t, 0, 11, "badcell")] = pick(t, "cell", "x", "1.2.3", "-", "1e", "1e39", "-4e38")
			return strings.Join(c, " "), true
		}
	case kColor:
		return pick(t, "badcolor", "", "#", "red", "112233", "#12345", "#1234567", "#GG0000", "#11223Z", "#112233445", "#1122 33", "rgb(1,2,3)", "##112233"), true
	case kBool:
		return pick(t, "badbool", "yes", "no", "2", "tru", "-1"), true
	case kEnum:
		return pick(t, "badenum", "bogus", "MODEL", "Millimeter", "none ", "wrapp", "image", "1", "default"), true
	case kUUID:
		return pick(t, "baduuid", "", "x", "00000000", "f47ac10b-58cc-0372-8567-0e02b2c3d47", "f47ac10b-58cc-0372-8567-0e02b2c3d479f", "g47ac10b-58cc-0372-8567-0e02b2c3d479", "f47ac10b_58cc_0372_8567_0e02b2c3d479"), true
	}
	return "", false
}

type strips map[*node]map[qname]bool

func (s strips) add(n *node, names ...qname) {
	if s[n] == nil {
		s[n] = map[qname]bool{}
	}
	for _, q := range names {
		s[n][q] = true
	}
}

func plain(names string) (out []qname) {
	for _, f := range strings.Fields(names) {
		out = append(out, qname{"", f})
	}
	return
}

// damage replaces up to max attribute values of the document with values that cannot be parsed.
func damage(t *rapid.T, root *node, isRoot bool, max int) (s strips) {
	type site struct {
		n    *node
		i    int
		up   []*node
		kind attrKind
	}
	var sites []site
	var walk func(n *node, up []*node)
	walk = func(n *node, up []*node) {
		if !(len(up) == 0 && !isRoot) {
			for i, a := range n.Attrs {
				k := a.Kind
				if n.Verb {
					if len(up) != 2 || a.Name != (qname{"", "id"}) {
						continue
					}
					k = kUint
				}
				switch k {
				case kText, kPrefixes:
				default:
					sites = append(sites, site{n, i, up, k})
				}
			}
		}
		if n.Verb {
			return
		}
		for _, k := range n.kids() {
			walk(k, append(append([]*node{}, up...), n))
		}
	}
	walk(root, nil)
	s = strips{}
	if len(sites) == 0 {
		return s
	}
	n := drawInt(t, 0, max, "nbad")
	by := map[string][]int{}
	for i, x := range sites {
		k := x.n.Name.Space + " " + x.n.Name.Local + " " + x.n.Attrs[x.i].Name.Space + " " + x.n.Attrs[x.i].Name.Local
		if x.n.Verb {
			k = "unknown"
		}
		by[k] = append(by[k], i)
	}
	kinds := sortedKeys(by)
	done := map[[2]any]bool{}
	for ; n > 0; n-- {
		x := sites[drawInt(t, 0, len(sites)-1, "badsite")]
		if oneIn(t, 2, "bykind") {
			of := by[kinds[drawInt(t, 0, len(kinds)-1, "badkind")]]
			x = sites[of[drawInt(t, 0, len(of)-1, "badofkind")]]
		}
		a := &x.n.Attrs[x.i]
		if done[[2]any{x.n, x.i}] {
			continue
		}
		v, ok := badValue(t, x.kind, a.Value)
		if !ok {
			continue
		}
		done[[2]any{x.n, x.i}] = true
		a.Value, a.Kind, a.Def, a.Req = v, kBad, false, true
		if x.n.Verb {
			continue // the tokens keep the text
		}
		s.add(x.n, a.Name)
		l := a.Name.Local
		below := func(elem string, names string) {
			var rec func(n *node)
			rec = func(n *node) {
				if n.Name.Local == elem {
					s.add(n, plain(names)...)
				}
				for _, k := range n.kids() {
					rec(k)
				}
			}
			rec(x.n)
		}
		switch x.n.Name.Local {
		case "object":
			if l == "pid" || l == "pindex" {
				s.add(x.n, plain("pid pindex")...)
				below("triangle", "pid p1 p2 p3")
			}
		case "triangle":
			if l[0] == 'p' {
				s.add(x.n, plain("pid p1 p2 p3")...)
			}
		case "segment":
			if l[0] == 'p' {
				s.add(x.n, plain("pid p1 p2")...)
			}
		case "beamlattice":
			if l == "radius" {
				below("beam", "r1 r2")
			} else if l == "cap" {
				below("beam", "cap1 cap2")
			}
		case "beam":
			if l == "r1" {
				s.add(x.n, plain("r1 r2")...)
			}
		}
	}
	return s
}

// reports lists the bad attributes in document order.
func reports(root *node) (out []badAttr) {
	var walk func(n *node, path string)
	walk = func(n *node, path string) {
		path += "/" + n.Name.Local
		if n.Idx >= 0 {
			path += fmt.Sprintf("[%d]", n.Idx)
		}
		for _, a := range n.Attrs {
			if a.Kind == kBad {
				out = append(out, badAttr{a.Name.Local, reqAttrs[a.Name.Local], path})
			}
		}
		if n.Verb {
			return
		}
		for _, k := range n.kids() {
			walk(k, path)
		}
	}
	walk(root, "")
	return
}

// shuffleDOM draws an attribute order and mixes assets with objects.
func shuffleDOM(root *node, r *rand.Rand, s *speller) (restore func()) {
	var undo []func()
	var walk func(n *node)
	walk = func(n *node) {
		if !n.Verb {
			r.Shuffle(len(n.Attrs), func(i, j int) { n.Attrs[i], n.Attrs[j] = n.Attrs[j], n.Attrs[i] })
		}
		if n.Name == core("resources") && !n.Verb {
			old := n.Content
			n.Content = s.interleave(old)
			undo = append(undo, func() { n.Content = old })
		}
		for _, k := range n.kids() {
			walk(k)
		}
	}
	walk(root)
	return func() {
		for _, f := range undo {
			f()
		}
	}
}

// strip removes the damaged values, and those that are inherited from them, from both documents.
func (s strips) strip(want, got *node) {
	if names := s[want]; names != nil {
		for _, n := range []*node{want, got} {
			var kept []nattr
			for _, a := range n.Attrs {
				if !names[a.Name] {
					kept = append(kept, a)
				}
			}
			n.Attrs = kept
		}
	}
	wk, gk := want.kids(), got.kids()
	for i := range wk {
		if i < len(gk) {
			s.strip(wk[i], gk[i])
		}
	}
}

func matchBad(err error, w badAttr) string {
	var pe *specerr.ParseAttrError
	if !errors.As(err, &pe) {
		return fmt.Sprintf("not a parse error: %v", err)
	}
	var le *specerr.Error
	if !errors.As(err, &le) {
		return fmt.Sprintf("error without location: %v", err)
	}
	if pe.Name != w.Name || pe.Required != w.Req || le.XPath() != w.XPath {
		return fmt.Sprintf("want %v, got %v", w, badAttr{pe.Name, pe.Required, le.XPath()})
	}
	return ""
}

func matchReports(err error, want []badAttr) string {
	got := flatten(err)
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return fmt.Sprintf("error %d is not reported: %v\nall reported: %v", i, want[i], err)
		}
		if i >= len(want) {
			return fmt.Sprintf("unexpected error %d: %v\nall expected: %v", i, got[i], want)
		}
		if d := matchBad(got[i], want[i]); d != "" {
			return fmt.Sprintf("error %d: %s\nall expected: %v\nall reported: %v", i, d, want, err)
		}
	}
	return ""
}

// badDoc is a generated part with bad values.
type badDoc struct {
	dom     *node
	strip   strips
	reports []badAttr
	doc     []byte
}

func drawBadDoc(t *rapid.T, g *Gen, part string, max int) *badDoc {
	s := drawSpelling(t, nil)
	s.f[fAttrOrder], s.f[fInterleave] = false, false
	b := &badDoc{dom: buildDOM(g.M, part)}
	b.strip = damage(t, b.dom, part == "", max)
	restore := shuffleDOM(b.dom, s.r, s)
	b.doc = s.document(b.dom, g.M.Extensions)
	b.reports = reports(b.dom)
	restore()
	return b
}

func (b *badDoc) compare(m *go3mf.Model, part string) string {
	if part != "" && m.Childs[part] == nil {
		return "the part is missing"
	}
	got := buildDOM(canon(m), part)
	if part != "" { // the model attributes come from the root part
		b.dom.Attrs, got.Attrs = nil, nil
	}
	b.strip.strip(b.dom, got)
	return diffDOM(b.dom, got, precSame, "")
}

func countBad(c *C, r []badAttr) {
	for _, b := range r {
		l := b.XPath[strings.LastIndexByte(b.XPath, '/')+1:]
		if i := strings.IndexByte(l, '['); i >= 0 {
			l = l[:i]
		}
		if !strings.ContainsAny(l, "-_") || l == "model" {
			c.Label("bad:" + l + "@" + b.Name)
		}
	}
	c.LabelIf(len(r) == 0, "bad:none")
	c.LabelIf(len(r) > 1, "bad:several")
	c.LabelIf(len(r) > 100, "bad:100+")
}

func checkBadDoc(t *rapid.T, c *C, o GenOpts) {
	o.Prec, o.Children, o.Attach = -1, false, false
	g := genModel(t, o)
	max := 6
	if o.Large && oneIn(t, 3, "manybad") {
		max = 700
	}
	b := drawBadDoc(t, g, "", max)
	c.Begin("model.xml", b.doc)
	c.Eval()
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(b.doc, m)
	if d := matchReports(err, b.reports); d != "" {
		t.Fatalf("%s\n%s", d, clip(string(b.doc), 4000))
	}
	if d := b.compare(m, ""); d != "" {
		t.Fatalf("the rest of the document is decoded wrongly: %s\nbad values: %v\n%s", d, b.reports, clip(string(b.doc), 4000))
	}
	countBad(c, b.reports)
	if len(b.reports) > 0 {
		c.NonTrivial(b.doc)
	}
	c.Sample(fmt.Sprint(b.reports))
}

// endPlaces lists where the elements of a document end and the tags that end what is open there.
func endPlaces(doc []byte) (at []int, open []string) {
	d := xml.NewDecoder(bytes.NewReader(doc))
	stack := []string{""}
	for {
		i := d.InputOffset()
		tok, err := d.RawToken()
		if err != nil {
			return
		}
		switch e := tok.(type) {
		case xml.StartElement:
			n := e.Name.Local
			if e.Name.Space != "" {
				n = e.Name.Space + ":" + n
			}
			stack = append(stack, "</"+n+">"+stack[len(stack)-1])
		case xml.EndElement:
			if len(stack) > 1 && d.InputOffset() > i { // not of an empty element tag
				at, open = append(at, int(i)), append(open, stack[len(stack)-1])
			}
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		}
	}
}

func checkBadPackage(t *rapid.T, c *C, o GenOpts) {
	g := genModel(t, o)
	docs := map[string]*badDoc{"": drawBadDoc(t, g, "", 3)}
	var want []badAttr
	want = append(want, docs[""].reports...)
	max := drawInt(t, 0, 3, "maxchild")
	for _, p := range sortedChilds(g.M) {
		docs[p] = drawBadDoc(t, g, p, max)
		want = append(want, docs[p].reports...)
	}
	style, r := drawStyle(t, nil)
	b := packageOf(g, func(part string) []byte { return docs[part].doc }).bytes(style, r)
	c.Begin("package.3mf", b)
	c.Eval()
	m, err := decodePkg(b, false)
	if d := matchReports(err, want); d != "" {
		t.Fatalf("lenient: %s", d)
	}
	for _, p := range append([]string{""}, sortedChilds(g.M)...) {
		if d := docs[p].compare(m, p); d != "" {
			t.Fatalf("the rest of part %q is decoded wrongly: %s\nbad values: %v\n%s", p, d, docs[p].reports, clip(string(docs[p].doc), 4000))
		}
	}
	if d := diffAttachments(g.Atts, m.Attachments); d != "" {
		t.Fatalf("%s", d)
	}
	_, err = decodePkg(b, true)
	if len(want) == 0 && err != nil {
		t.Fatalf("strict: error for a package whose values are all valid: %v", err)
	}
	if len(want) > 0 {
		if err == nil {
			t.Fatalf("strict: no error, bad values: %v", want)
		}
		first := docs[""].reports
		if len(first) > 0 {
			first = first[:1]
		} else { // the parts are decoded at the same time
			for _, p := range sortedChilds(g.M) {
				if rs := docs[p].reports; len(rs) > 0 {
					first = append(first, rs[0])
				}
			}
		}
		ok := false
		for _, f := range first {
			ok = ok || matchReports(err, []badAttr{f}) == ""
		}
		if !ok {
			t.Fatalf("strict: want one of %v, got %v", first, err)
		}
		// the first error is what counts, whatever comes after it
		var bad []string
		for _, p := range append([]string{""}, sortedChilds(g.M)...) {
			if len(docs[p].reports) > 0 && (len(bad) == 0 || bad[0] != "") {
				bad = append(bad, p)
			}
		}
		if len(bad) == 1 {
			doc := docs[bad[0]].doc
			at, open := endPlaces(doc)
			k := len(at) - 1
			if k > 0 {
				k = drawInt(t, 0, k, "cut")
			}
			as := func(doc []byte) []byte {
				return packageOf(g, func(part string) []byte {
					if part == bad[0] {
						return doc
					}
					return docs[part].doc
				}).bytes(style, r)
			}
			if k >= 0 {
				head := doc[:at[k]:at[k]]
				closed := append(head, open[k]...)
				all := go3mf.UnmarshalModel(closed, new(go3mf.Model))
				if bad[0] != "" {
					_, all = decodePkg(as(closed), false)
				}
				es := flatten(all)
				cut := append(head, pick(t, "ending", "", "<", "</", "</x>", "<x", "&nothing;", "<x y=")...)
				_, err = decodePkg(as(cut), true)
				if err == nil || len(es) > 0 && err.Error() != es[0].Error() {
					t.Fatalf("strict: the part %q, damaged after having the errors\n%v\nof which the first should be reported, not\n%v\n%s", bad[0], all, err, clip(string(cut), 4000))
				}
				c.LabelIf(len(es) > 0, "strict:damaged-after-a-bad-value")
			}
		}
	}
	countBad(c, want)
	parts := 0
	for _, d := range docs {
		if len(d.reports) > 0 {
			parts++
		}
	}
	c.LabelIf(parts > 1, "bad:several-parts")
	c.LabelIf(parts > 0 && len(docs[""].reports) == 0, "bad:only-in-child")
	if len(want) > 0 {
		c.NonTrivial(b)
	}
	c.Sample(fmt.Sprint(want))
}

func init() {
	rule := "random models respelled by an own writer with up to six attribute values replaced by values that cannot be parsed, in any attribute order; expected errors derived from the reference document; non-trivial = at least one bad value"
	register(&Sub{Prop: "P07", Name: "document-core", Rule: rule, Quick: 5000, Thorough: 200000, Fn: func(t *rapid.T, c *C) {
		checkBadDoc(t, c, GenOpts{MaxObj: 3})
	}})
	register(&Sub{Prop: "P07", Name: "document-extensions", Rule: rule, Quick: 5000, Thorough: 200000, Fn: func(t *rapid.T, c *C) {
		checkBadDoc(t, c, GenOpts{MaxObj: 2, Mat: true, Prod: true, Slic: true, Beam: true, Unkn: drawBool(t, "unkn")})
	}})
	register(&Sub{Prop: "P07", Name: "large", Rule: "as document, with up to three lists or texts enlarged; non-trivial = at least one bad value", Quick: 250, Thorough: 20000, Fn: func(t *rapid.T, c *C) {
		checkBadDoc(t, c, GenOpts{MaxObj: 2, Mat: true, Prod: true, Slic: true, Beam: true, Unkn: drawBool(t, "unkn"), Large: true})
	}})
	register(&Sub{Prop: "P07", Name: "package", Rule: "as document, spread over the model parts of a package, decoded leniently and strictly; non-trivial = at least one bad value", Quick: 3000, Thorough: 120000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(-1)
		o.MaxObj = 2
		checkBadPackage(t, c, o)
	}})
}
