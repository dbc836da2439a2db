package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

// Extensions as an application would register them. They record everything they are
// handed in exported fields, so that the model comparison covers it.

// The first four validate, the last one does not.
var hookSpaces = []string{"urn:hook:one", "http://hook.test/?a=1&b=2", "urn:hook:three", "Hook", "urn:hook:plain"}

func isHook(ns string) bool {
	for _, h := range hookSpaces {
		if h == ns {
			return true
		}
	}
	return false
}

// hookMode is what a registered extension supports in the current case.
type hookMode struct {
	Attrs map[string]bool // parents whose attributes it supports, nil = all
	Elems bool
}

type hookCall struct{ fn, by, space, local string }

type hookWorld struct {
	modes map[string]*hookMode
	mu    sync.Mutex
	calls []hookCall
	// validation
	visits []hookVisit
	fail   func(v hookVisit) error
}

type hookVisit struct {
	ns, path string
	model    *go3mf.Model
	elem     any
}

var hooks atomic.Pointer[hookWorld]

func (w *hookWorld) called(fn, by string, name xml.Name) {
	w.mu.Lock()
	w.calls = append(w.calls, hookCall{fn, by, name.Space, name.Local})
	w.mu.Unlock()
}

type hookSpec struct{ ns string }

func (h hookSpec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
	w := hooks.Load()
	if w == nil {
		return nil
	}
	w.called("attr", h.ns, parent)
	if md := w.modes[h.ns]; md == nil || md.Attrs != nil && !md.Attrs[parent.Local] {
		return nil
	}
	return &hookGroup{Space: h.ns, Parent: parent}
}

func (h hookSpec) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
	w := hooks.Load()
	if w == nil {
		return nil
	}
	w.called("elem", h.ns, name)
	if md := w.modes[h.ns]; md == nil || !md.Elems {
		return nil
	}
	return newHookDecoder(name)
}

type hookValidSpec struct{ hookSpec }

func (h hookValidSpec) Validate(model interface{}, path string, elem interface{}) error {
	w := hooks.Load()
	if w == nil {
		return nil
	}
	m, _ := model.(*go3mf.Model)
	v := hookVisit{h.ns, path, m, elem}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.visits = append(w.visits, v)
	if w.fail == nil {
		return nil
	}
	return w.fail(v)
}

func registerHooks() {
	for i, ns := range hookSpaces {
		if i < len(hookSpaces)-1 {
			spec.Register(ns, hookValidSpec{hookSpec{ns}})
		} else {
			spec.Register(ns, hookSpec{ns})
		}
	}
}

const badHook = "!cannot be parsed"

// hookGroup holds the attributes of a registered namespace.
type hookGroup struct {
	Space  string
	Parent xml.Name
	Attr   []xml.Attr
}

func (g *hookGroup) Namespace() string { return g.Space }
func (g *hookGroup) Unmarshal3MFAttr(a spec.XMLAttr) error {
	g.Attr = append(g.Attr, xml.Attr{Name: a.Name, Value: string(a.Value)})
	if string(a.Value) == badHook {
		return specerr.NewParseAttrError(a.Name.Local, reqAttrs[a.Name.Local])
	}
	return nil
}
func (g *hookGroup) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	start.Attr = append(start.Attr, g.Attr...)
	return nil
}
func (g *hookGroup) canonHook() {
	sort.SliceStable(g.Attr, func(i, j int) bool { return g.Attr[i].Name.Local < g.Attr[j].Name.Local })
}
func (g *hookGroup) dom(n *node) {
	for _, a := range g.Attr {
		n.Attrs = append(n.Attrs, nattr{Name: qname{a.Name.Space, a.Name.Local}, Value: a.Value})
	}
}

// hookElem is an element of a registered namespace. The first letter of the name tells how
// it is decoded:
//
//	a asset, m element that is not an asset, both with children and text
//	c asset with children whose decoder does not take text
//	l asset without children or text
//	t asset that keeps the tokens
//	o element that the library cannot store, d not supported by the extension
type hookElem struct {
	Name         xml.Name
	Attr         []xml.Attr
	Content      []hookItem
	Tokens       []xml.Token
	Starts, Ends int
}

type hookItem struct {
	Text string
	Elem *hookElem
}

// (the embedded type is exported for the model comparison to look into it)
type hookAsset struct{ HookOf }
type hookOther struct{ HookOf }
type HookOf struct{ E *hookElem }

func (a *hookAsset) XMLName() xml.Name { return a.E.Name }
func (a *hookAsset) Identify() uint32 {
	for _, x := range a.E.Attr {
		if x.Name == (xml.Name{Local: "id"}) {
			v, _ := strconv.ParseUint(x.Value, 10, 32)
			return uint32(v)
		}
	}
	return 0
}
func (h *HookOf) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
	h.E.marshal(x)
	return nil
}
func (h *HookOf) elem() *hookElem { return h.E }

func (e *hookElem) marshal(x spec.Encoder) {
	if e.Tokens != nil {
		for _, t := range e.Tokens {
			x.EncodeToken(t)
		}
		return
	}
	s := xml.StartElement{Name: e.Name, Attr: e.Attr}
	x.EncodeToken(s)
	for _, c := range e.Content {
		if c.Elem != nil {
			c.Elem.marshal(x)
		} else {
			x.EncodeToken(xml.CharData(c.Text))
		}
	}
	x.EncodeToken(s.End())
	if p := e.attr("rel"); p != "" {
		x.AddRelationship(spec.Relationship{Path: p, Type: "urn:hook:rel"})
	}
}

func (e *hookElem) attr(local string) string {
	for _, a := range e.Attr {
		if a.Name.Space == "" && a.Name.Local == local {
			return a.Value
		}
	}
	return ""
}

func (e *hookElem) canonHook() {
	sort.SliceStable(e.Attr, func(i, j int) bool {
		return e.Attr[i].Name.Space+" "+e.Attr[i].Name.Local < e.Attr[j].Name.Space+" "+e.Attr[j].Name.Local
	})
	var in []any
	for _, c := range e.Content {
		if c.Elem != nil {
			in = append(in, c.Elem)
		} else {
			in = append(in, c.Text)
		}
	}
	e.Content = nil
	for _, c := range mergeText(in) {
		switch c := c.(type) {
		case string:
			e.Content = append(e.Content, hookItem{Text: c})
		case *hookElem:
			e.Content = append(e.Content, hookItem{Elem: c})
		}
	}
}

// node returns the element as the extension writes it.
func (e *hookElem) node() *node {
	if e.Tokens != nil {
		return tokensNode(e.Tokens)
	}
	n := el(qname{e.Name.Space, e.Name.Local}, -1)
	n.Verb, n.HasText = true, true
	for _, a := range e.Attr {
		n.Attrs = append(n.Attrs, nattr{Name: qname{a.Name.Space, a.Name.Local}, Value: a.Value})
	}
	for _, c := range e.Content {
		if c.Elem != nil {
			n.Content = append(n.Content, c.Elem.node())
		} else {
			n.Content = append(n.Content, c.Text)
		}
	}
	return n
}

// hookSrc gives the source of the elements that have been generated.
var hookSrc = map[*hookElem]*node{}

func (h *HookOf) domNode() *node {
	if n := hookSrc[h.E]; n != nil {
		return n
	}
	return h.E.node()
}

// ---------- decoders of the extensions ----------

func newHookDecoder(name xml.Name) spec.GetterElementDecoder {
	d := hookDecoder{e: &hookElem{Name: name}}
	switch name.Local[0] {
	case 'a', 'm':
		return &hookFullDecoder{hookKidsDecoder{hookDecoder: d}}
	case 'o':
		return &hookOddDecoder{hookFullDecoder{hookKidsDecoder{hookDecoder: d}}}
	case 'c':
		return &hookKidsDecoder{hookDecoder: d}
	case 'l':
		return &d
	case 't':
		return &hookTokenDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), e: d.e}
	}
	return nil
}

type hookDecoder struct{ e *hookElem }

func (d *hookDecoder) Element() interface{} {
	if d.e.Name.Local[0] == 'm' {
		return &hookOther{HookOf{d.e}}
	}
	return &hookAsset{HookOf{d.e}}
}
func (d *hookDecoder) Start(attrs []spec.XMLAttr) (err error) {
	d.e.Starts++
	for _, a := range attrs {
		d.e.Attr = append(d.e.Attr, xml.Attr{Name: a.Name, Value: string(a.Value)})
		if string(a.Value) == badHook {
			err = specerr.Append(err, specerr.NewParseAttrError(a.Name.Local, reqAttrs[a.Name.Local]))
		}
	}
	return err
}
func (d *hookDecoder) End() { d.e.Ends++ }

type hookKidsDecoder struct {
	hookDecoder
	n int
}

func (d *hookKidsDecoder) Child(name xml.Name) (int, spec.ElementDecoder) {
	k := newHookDecoder(name)
	if k == nil {
		return 7, nil
	}
	var e *hookElem
	switch k := k.(type) {
	case *hookFullDecoder:
		e = k.e
	case *hookOddDecoder:
		e = k.e
	case *hookKidsDecoder:
		e = k.e
	case *hookDecoder:
		e = k.e
	case *hookTokenDecoder:
		e = k.e
	}
	d.e.Content = append(d.e.Content, hookItem{Elem: e})
	d.n++
	return d.n - 1, k
}

type hookFullDecoder struct{ hookKidsDecoder }

func (d *hookFullDecoder) CharData(b []byte) {
	d.e.Content = append(d.e.Content, hookItem{Text: string(b)})
}

type hookOddDecoder struct{ hookFullDecoder }

func (d *hookOddDecoder) Element() interface{} { return struct{ X int }{} }

type hookTokenDecoder struct {
	spec.UnknownTokensDecoder
	e *hookElem
}

func (d *hookTokenDecoder) Element() interface{} { return &hookAsset{HookOf{d.e}} }
func (d *hookTokenDecoder) Start(attrs []spec.XMLAttr) (err error) {
	d.e.Starts++
	for _, a := range attrs {
		if a.Name.Space != "xmlns" && (a.Name.Space != "" || a.Name.Local != "xmlns") {
			d.e.Attr = append(d.e.Attr, xml.Attr{Name: a.Name, Value: string(a.Value)})
		}
		if string(a.Value) == badHook {
			err = specerr.Append(err, specerr.NewParseAttrError(a.Name.Local, reqAttrs[a.Name.Local]))
		}
	}
	d.UnknownTokensDecoder.Start(attrs)
	return
}
func (d *hookTokenDecoder) End() {
	d.e.Ends++
	d.UnknownTokensDecoder.End()
	d.e.Tokens = d.Tokens().Token
}

// ---------- generation ----------

type hookGen struct {
	t    *rapid.T
	w    *hookWorld
	relN int
	rels map[string][]string // part -> relationships that its elements add
}

var hookParents = strings.Fields("model metadatagroup build item resources basematerials base mesh vertices triangles triangle object components component")

func newHookGen(t *rapid.T) *hookGen {
	h := &hookGen{t: t, w: &hookWorld{modes: map[string]*hookMode{}}, rels: map[string][]string{}}
	for _, ns := range hookSpaces {
		md := &hookMode{Elems: !oneIn(t, 5, "noelems")}
		switch drawInt(t, 0, 4, "attrmode") {
		case 0:
			md.Attrs = map[string]bool{}
		case 1, 2:
			md.Attrs = map[string]bool{}
			for _, p := range hookParents {
				md.Attrs[p] = drawBool(t, "parent")
			}
		}
		h.w.modes[ns] = md
	}
	return h
}

func (h *hookGen) space(label string) string { return pick(h.t, label, hookSpaces...) }

func (h *hookGen) value(label string) string {
	if oneIn(h.t, 3, label+"short") {
		return pick(h.t, label+"v", "", "1", " x ", "a&b")
	}
	return drawText(h.t, label)
}

func (h *hookGen) attrNames(n int) []string {
	return rapid.SliceOfNDistinct(rapid.StringMatching(`[a-wyzA-Z_][a-zA-Z0-9_.-]{0,6}`), 1, n, rapid.ID[string]).Draw(h.t, "hanames")
}

// group adds attributes of some registered namespaces to those of an element.
func (h *hookGen) group(as *spec.AnyAttr, parent string) {
	t := h.t
	if !oneIn(t, 3, "hgroup") {
		return
	}
	for _, ns := range rapid.SliceOfNDistinct(rapid.SampledFrom(hookSpaces), 1, 3, rapid.ID[string]).Draw(t, "hspaces") {
		var attrs []xml.Attr
		for _, n := range h.attrNames(3) {
			attrs = append(attrs, xml.Attr{Name: xml.Name{Space: ns, Local: n}, Value: h.value("hval")})
		}
		md := h.w.modes[ns]
		if md.Attrs == nil || md.Attrs[parent] {
			*as = append(*as, &hookGroup{Space: ns, Parent: xml.Name{Space: nsCore, Local: parent}, Attr: attrs})
		} else {
			*as = append(*as, &spec.UnknownAttrs{Space: ns, Attr: attrs})
		}
	}
}

// tree draws an element; kinds limits the first letter of its name.
func (h *hookGen) tree(ns string, kinds string, depth int) *node {
	t := h.t
	kind := string(kinds[drawInt(t, 0, len(kinds)-1, "hkind")])
	n := el(qname{ns, kind + pick(t, "hname", "", "thing", "vertex", "object", drawName(t, "hlocal"))}, -1)
	n.Verb, n.HasText = true, true
	for _, l := range h.attrNames(4)[1:] {
		if l == "id" || l == "rel" {
			continue
		}
		n.Attrs = append(n.Attrs, nattr{Name: qname{pick(t, "haspace", "", "", ns, hookSpaces[1], unknownNS[0]), l}, Value: h.value("hav")})
	}
	if depth == 0 && oneIn(t, 2, "hid") {
		n.add("id", fmt.Sprint(drawID(t, "hidv")), kText, false)
	}
	if depth > 3 {
		return n
	}
	text := false
	for i, c := 0, pick(t, "hkids", 0, 0, 1, 2, 3, 4); i < c; i++ {
		if !text && drawBool(t, "htext") {
			if s := h.value("htextv"); strings.TrimSpace(s) != "" {
				n.Content = append(n.Content, s)
				text = true
				continue
			}
		}
		text = false
		k := h.tree(pick(t, "hkidns", ns, ns, nsCore, unknownNS[1], hookSpaces[0], nsMat), "aamcltdo", depth+1)
		if k.Name.Local[0] == 'd' { // it is skipped: nothing may be added to the text around it
			n.Content = append(n.Content, "", k, "")
		} else {
			n.kid(k)
		}
	}
	return n
}

// interpret gives what the extension is handed for n, nil if it declines it.
func interpret(n *node) *hookElem {
	if n.Name.Local[0] == 'd' {
		return nil
	}
	e := &hookElem{Name: xml.Name{Space: n.Name.Space, Local: n.Name.Local}, Starts: 1, Ends: 1}
	for _, a := range n.Attrs {
		e.Attr = append(e.Attr, xml.Attr{Name: xml.Name{Space: a.Name.Space, Local: a.Name.Local}, Value: a.Value})
	}
	switch n.Name.Local[0] {
	case 't':
		e.Tokens = nodeTokens(n)
	case 'a', 'm', 'c', 'o':
		for _, c := range n.Content {
			switch c := c.(type) {
			case string:
				if n.Name.Local[0] != 'c' {
					e.Content = append(e.Content, hookItem{Text: c})
				}
			case *node:
				if k := interpret(c); k != nil {
					e.Content = append(e.Content, hookItem{Elem: k})
				}
			}
		}
	}
	return e
}

func nodeTokens(n *node) []xml.Token {
	s := xml.StartElement{Name: xml.Name{Space: n.Name.Space, Local: n.Name.Local}}
	for _, a := range n.Attrs {
		s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Space: a.Name.Space, Local: a.Name.Local}, Value: a.Value})
	}
	out := []xml.Token{s}
	for _, c := range n.Content {
		switch c := c.(type) {
		case string:
			if strings.TrimSpace(c) != "" {
				out = append(out, xml.CharData(c))
			}
		case *node:
			out = append(out, nodeTokens(c)...)
		}
	}
	return append(out, s.End())
}

func (h *hookGen) stored(part, kinds string) *hookElem {
	var ok []string
	for _, ns := range hookSpaces {
		if h.w.modes[ns].Elems {
			ok = append(ok, ns)
		}
	}
	if len(ok) == 0 {
		return nil
	}
	n := h.tree(pick(h.t, "hns", ok...), kinds, 0)
	if k := n.Name.Local[0]; k != 't' && oneIn(h.t, 3, "hrel") {
		h.relN++
		p := fmt.Sprintf("/hook/rel%d.bin", h.relN)
		n.add("rel", p, kText, false)
		h.rels[part] = append(h.rels[part], p)
	}
	e := interpret(n)
	hookSrc[e] = n
	return e
}

func (h *hookGen) any(a *spec.Any, part string) {
	if !oneIn(h.t, 2, "hany") {
		return
	}
	for i, n := 0, drawInt(h.t, 1, 3, "nhany"); i < n; i++ {
		e := h.stored(part, "amclt")
		if e == nil {
			return
		}
		var x spec.Marshaler = &hookAsset{HookOf{e}}
		if e.Name.Local[0] == 'm' {
			x = &hookOther{HookOf{e}}
		}
		p := drawInt(h.t, 0, len(*a), "hanypos")
		*a = append(append(append(spec.Any{}, (*a)[:p]...), x), (*a)[p:]...)
	}
}

func (h *hookGen) resources(r *go3mf.Resources, part string) {
	t := h.t
	h.group(&r.AnyAttr, "resources")
	for _, a := range r.Assets {
		if b, ok := a.(*go3mf.BaseMaterials); ok {
			h.group(&b.AnyAttr, "basematerials")
			for i := range b.Materials {
				h.group(&b.Materials[i].AnyAttr, "base")
			}
		}
	}
	for _, o := range r.Objects {
		h.group(&o.AnyAttr, "object")
		if len(o.Metadata.Metadata) > 0 {
			h.group(&o.Metadata.AnyAttr, "metadatagroup")
		}
		if o.Mesh != nil {
			h.group(&o.Mesh.AnyAttr, "mesh")
			h.group(&o.Mesh.Vertices.AnyAttr, "vertices")
			h.group(&o.Mesh.Triangles.AnyAttr, "triangles")
			for i := range o.Mesh.Triangles.Triangle {
				h.group(&o.Mesh.Triangles.Triangle[i].AnyAttr, "triangle")
			}
			h.any(&o.Mesh.Any, part)
		} else if o.Components != nil {
			h.group(&o.Components.AnyAttr, "components")
			for _, c := range o.Components.Component {
				h.group(&c.AnyAttr, "component")
			}
		}
	}
	if oneIn(t, 2, "hassets") {
		for i, n := 0, drawInt(t, 1, 3, "nhassets"); i < n; i++ {
			e := h.stored(part, "aclt")
			if e == nil {
				return
			}
			p := drawInt(t, 0, len(r.Assets), "hassetpos")
			r.Assets = append(append(append([]go3mf.Asset{}, r.Assets[:p]...), &hookAsset{HookOf{e}}), r.Assets[p:]...)
		}
	}
}

// decorate gives the model content of registered extensions.
func (h *hookGen) decorate(m *go3mf.Model) {
	t := h.t
	h.group(&m.AnyAttr, "model")
	for i, ns := range hookSpaces {
		if drawBool(t, "hdeclare") || m.AnyAttr.Get(ns) != nil {
			e := go3mf.Extension{Namespace: ns, LocalName: fmt.Sprintf("hookq%d", i), IsRequired: oneIn(t, 3, "hreq")}
			p := drawInt(t, 0, len(m.Extensions), "hextpos")
			m.Extensions = append(append(append([]go3mf.Extension{}, m.Extensions[:p]...), e), m.Extensions[p:]...)
		}
	}
	h.group(&m.Build.AnyAttr, "build")
	for _, it := range m.Build.Items {
		h.group(&it.AnyAttr, "item")
		if len(it.Metadata.Metadata) > 0 {
			h.group(&it.Metadata.AnyAttr, "metadatagroup")
		}
	}
	for _, p := range sortedChilds(m) {
		h.resources(&m.Childs[p].Resources, p)
		h.any(&m.Childs[p].Any, p)
	}
	h.resources(&m.Resources, "")
	h.any(&m.Any, "")
}

// sprinkle adds content to the document that is not to be understood: elements at
// extension points that the extension declines, and elements elsewhere.
func sprinkle(t *rapid.T, root *node, max int, tree func(parent *node, point string) *node) (added int) {
	type site struct {
		n     *node
		point string
	}
	var sites []site
	var walk func(n *node)
	walk = func(n *node) {
		if n.Verb {
			return
		}
		point := ""
		if n.Name.Space == nsCore {
			switch n.Name.Local {
			case "model", "mesh", "resources":
				point = n.Name.Local
			}
		}
		sites = append(sites, site{n, point})
		for _, k := range n.kids() {
			walk(k)
		}
	}
	walk(root)
	by := map[string][]int{}
	for i, s := range sites {
		k := s.n.Name.Space + " " + s.n.Name.Local
		by[k] = append(by[k], i)
	}
	kinds := sortedKeys(by)
	for i, n := 0, drawInt(t, 0, max, "nsprinkle"); i < n; i++ {
		s := sites[drawInt(t, 0, len(sites)-1, "sprinklesite")]
		if drawBool(t, "bykind") {
			of := by[kinds[drawInt(t, 0, len(kinds)-1, "sprinklekind")]]
			s = sites[of[drawInt(t, 0, len(of)-1, "sprinkleofkind")]]
		}
		x := tree(s.n, s.point)
		if x == nil {
			continue
		}
		added++
		if s.n.HasText {
			v := []rune(s.n.text())
			kids := s.n.kids()
			p := drawInt(t, 0, len(v), "sprinkletext")
			s.n.Content = []any{string(v[:p]), x, string(v[p:])}
			for _, k := range kids {
				s.n.Content = append(s.n.Content, k, "")
			}
			continue
		}
		p := drawInt(t, 0, len(s.n.Content), "sprinklepos")
		s.n.Content = append(append(append([]any{}, s.n.Content[:p]...), x), s.n.Content[p:]...)
	}
	return
}

func (h *hookGen) sprinkle(root *node, max int) int {
	return sprinkle(h.t, root, max, func(_ *node, point string) *node {
		ns := h.space("sprinklens")
		if !h.w.modes[ns].Elems { // declined whatever it is
			return h.tree(ns, "amcltdo", 0)
		}
		switch point {
		case "resources":
			return h.tree(ns, "mdo", 0)
		case "model", "mesh":
			return h.tree(ns, "do", 0)
		}
		return h.tree(ns, "amcltdo", 0)
	})
}

// expectCalls lists the elements that NewElementDecoder is asked for.
func expectCalls(root *node) (out []hookCall) {
	var walk func(n *node)
	walk = func(n *node) {
		if n.Verb || n.Name.Space != nsCore {
			return
		}
		point := n.Name.Local == "model" || n.Name.Local == "mesh" || n.Name.Local == "resources"
		for _, k := range n.kids() {
			if point && isHook(k.Name.Space) {
				out = append(out, hookCall{"elem", k.Name.Space, k.Name.Space, k.Name.Local})
			}
			walk(k)
		}
	}
	walk(root)
	return
}

func (w *hookWorld) checkCalls(want []hookCall) string {
	n := map[hookCall]int{}
	for _, c := range want {
		n[c]++
	}
	parents := map[string]bool{}
	for _, p := range hookParents {
		parents[p] = true
	}
	for _, c := range w.calls {
		if c.fn == "elem" {
			n[c]--
		} else if c.space != nsCore || !parents[c.local] {
			return fmt.Sprintf("the extension %s is asked for the attributes of {%s}%s", c.by, c.space, c.local)
		}
	}
	for c, k := range n {
		if k > 0 {
			return fmt.Sprintf("the extension %s is not handed the element {%s}%s (%d times)", c.by, c.space, c.local, k)
		} else if k < 0 {
			return fmt.Sprintf("the extension %s is handed the element {%s}%s %d times too often", c.by, c.space, c.local, -k)
		}
	}
	return ""
}

func (h *hookGen) start() {
	h.w.calls = nil
	hooks.Store(h.w)
}

func drawHookModel(t *rapid.T, c *C, o GenOpts) (*hookGen, *Gen) {
	for k := range hookSrc {
		delete(hookSrc, k)
	}
	h := newHookGen(t)
	g := genModel(t, o)
	h.decorate(g.M)
	return h, g
}

func (h *hookGen) nontrivial(c *C, calls []hookCall) bool {
	c.LabelIf(len(hookSrc) > 0, "elements stored")
	c.LabelIf(len(calls) > len(hookSrc), "elements declined")
	return len(hookSrc) > 0
}

func checkHookDocument(t *rapid.T, c *C, o GenOpts) {
	o.Prec, o.Children, o.Attach = 4, false, false
	h, g := drawHookModel(t, c, o)
	defer hooks.Store(nil)
	s := drawSpelling(t, c)
	dom := buildDOM(g.M, "")
	h.sprinkle(dom, 6)
	doc := s.document(dom, g.M.Extensions)
	if _, err := parseXML(doc); err != nil {
		t.Fatalf("HARNESS: the spelled document is not well formed: %v\n%s", err, clip(string(doc), 4000))
	}
	c.Begin("model.xml", doc)
	c.Eval()
	h.start()
	got := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, got); err != nil {
		t.Fatalf("decoding a valid document failed: %v\n%s", err, clip(string(doc), 4000))
	}
	calls := expectCalls(dom)
	if d := h.w.checkCalls(calls); d != "" {
		t.Fatalf("%s\n%s", d, clip(string(doc), 4000))
	}
	want := canon(g.M)
	if d := diffExact(want, canon(got)); d != "" {
		t.Fatalf("the decoded model is not what the document says (-want +got):\n%s\n%s", d, clip(string(doc), 4000))
	}
	if h.nontrivial(c, calls) {
		c.NonTrivial(doc)
	}
	// written back
	out, err := go3mf.MarshalModel(got)
	if err != nil {
		t.Fatalf("MarshalModel failed: %v", err)
	}
	h.written(t, want, "", out, 4)
	again := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(out, again); err != nil {
		t.Fatalf("decoding the written document failed: %v\n%s", err, clip(string(out), 4000))
	}
	if d := diffModels(want, canon(again), 4); d != "" {
		t.Fatalf("after writing and reading again: %s\n%s", d, clip(string(out), 4000))
	}
	c.Sample(string(doc))
}

// written compares a written part with what the extensions hold. want is a copy, so that
// its elements have no source.
func (h *hookGen) written(t *rapid.T, want *go3mf.Model, part string, out []byte, prec int) {
	ref, err := parseXML(out)
	if err != nil {
		t.Fatalf("the written document is not well formed: %v\n%s", err, clip(string(out), 4000))
	}
	dom := buildDOM(want, part)
	if part != "" { // the model attributes belong to the root part
		dom.Attrs, ref.Attrs = nil, nil
	}
	if d := diffDOM(dom, ref, prec, ""); d != "" {
		t.Fatalf("the written document is not what the model says: %s\n%s", d, clip(string(out), 4000))
	}
}

func checkHookPackage(t *rapid.T, c *C, o GenOpts) {
	o.Prec = -1
	h, g := drawHookModel(t, c, o)
	defer hooks.Store(nil)
	spell := map[string]*speller{"": drawSpelling(t, c)}
	doms := map[string]*node{"": buildDOM(g.M, "")}
	for _, p := range sortedChilds(g.M) {
		spell[p] = drawSpelling(t, c)
		doms[p] = buildDOM(g.M, p)
	}
	var calls []hookCall
	for _, p := range sortedKeys(doms) {
		h.sprinkle(doms[p], 3)
		calls = append(calls, expectCalls(doms[p])...)
	}
	style, r := drawStyle(t, c)
	pk := packageOf(g, func(part string) []byte { return spell[part].document(doms[part], g.M.Extensions) })
	b := pk.bytes(style, r)
	c.Begin("package.3mf", b)
	c.Eval()
	h.start()
	got, err := decodePkg(b, drawBool(t, "strict"))
	if err != nil {
		t.Fatalf("decoding a valid package failed: %v", err)
	}
	if d := h.w.checkCalls(calls); d != "" {
		t.Fatalf("%s", d)
	}
	resolveRels(got)
	want := canon(g.M)
	if d := diffExact(want, canon(got)); d != "" {
		t.Fatalf("the decoded model is not what the package says (-want +got):\n%s", d)
	}
	if h.nontrivial(c, calls) && len(pk.parts) > 1 {
		c.NonTrivial(b)
	}
	// written back
	out, err := encodePkg(got, -1)
	if err != nil {
		t.Fatalf("encoding the decoded model failed: %v", err)
	}
	v, err := readPackage(out)
	if err != nil {
		t.Fatalf("the written package is not valid: %v", err)
	}
	for _, p := range sortedKeys(doms) {
		name := p
		if p == "" {
			name = got.PathOrDefault()
		}
		h.written(t, want, p, v.parts[name], -1)
		have := map[string]bool{}
		for _, r := range v.rels[name] {
			if r.Type == "urn:hook:rel" {
				have[r.Target] = true
			}
		}
		for _, r := range h.rels[p] {
			if !have[r] {
				t.Fatalf("the relationship %s that an extension adds to %s is missing", r, name)
			}
			delete(have, r)
		}
		for r := range have {
			t.Fatalf("the relationship %s is added to %s", r, name)
		}
	}
	again, err := decodePkg(out, true)
	if err != nil {
		t.Fatalf("decoding the written package failed: %v", err)
	}
	for _, rs := range []*[]go3mf.Relationship{&want.RootRelationships, &again.RootRelationships, &want.Relationships, &again.Relationships} {
		*rs = nil
	}
	for p := range want.Childs {
		want.Childs[p].Relationships = nil
		if again.Childs[p] != nil {
			again.Childs[p].Relationships = nil
		}
	}
	if d := diffModels(want, canon(again), -1); d != "" {
		t.Fatalf("after writing and reading again: %s", d)
	}
	c.Sample(fmt.Sprintf("%d parts", len(pk.parts)))
}

// ---------- errors while decoding ----------

func (h *hookGen) spoil(root *node, max int) {
	type site struct {
		n *node
		i int
	}
	var sites []site
	var walk func(n *node, hook bool)
	walk = func(n *node, hook bool) {
		hook = hook || isHook(n.Name.Space)
		for i, a := range n.Attrs {
			if hook || isHook(a.Name.Space) {
				if a.Name.Local != "id" && a.Name.Local != "rel" {
					sites = append(sites, site{n, i})
				}
			}
		}
		for _, k := range n.kids() {
			if !k.Verb || hook || isHook(k.Name.Space) {
				walk(k, hook)
			}
		}
	}
	walk(root, false)
	if len(sites) == 0 {
		return
	}
	for i, n := 0, drawInt(h.t, 1, max, "nspoil"); i < n; i++ {
		s := sites[drawInt(h.t, 0, len(sites)-1, "spoil")]
		s.n.Attrs[s.i].Value = badHook
	}
}

func (h *hookGen) reports(root *node) (out []badAttr) {
	var hook func(n *node, path string, idx int)
	hook = func(n *node, path string, idx int) {
		path += "/" + n.Name.Local
		if idx >= 0 {
			path += fmt.Sprintf("[%d]", idx)
		}
		for _, a := range n.Attrs {
			if a.Value == badHook {
				out = append(out, badAttr{a.Name.Local, reqAttrs[a.Name.Local], path})
			}
		}
		i := 0
		switch n.Name.Local[0] {
		case 'a', 'm', 'c', 'o':
			for _, k := range n.kids() {
				if k.Name.Local[0] != 'd' {
					hook(k, path, i)
					i++
				}
			}
		}
	}
	var walk func(n *node, path string)
	walk = func(n *node, path string) {
		path += "/" + n.Name.Local
		if n.Idx >= 0 {
			path += fmt.Sprintf("[%d]", n.Idx)
		}
		for _, a := range n.Attrs {
			if a.Value == badHook {
				if md := h.w.modes[a.Name.Space]; md != nil && (md.Attrs == nil || md.Attrs[n.Name.Local]) {
					out = append(out, badAttr{a.Name.Local, reqAttrs[a.Name.Local], path})
				}
			}
		}
		pos := 0
		for _, k := range n.kids() {
			md := h.w.modes[k.Name.Space]
			point := n.Name == core("model") || n.Name == core("mesh") || n.Name == core("resources")
			if !k.Verb {
				walk(k, path)
			} else if md != nil && md.Elems && point {
				kind := k.Name.Local[0]
				idx := -1
				if n.Name.Local == "resources" {
					idx = pos
				}
				if kind == 'd' || kind == 'o' || n.Name.Local == "resources" && kind == 'm' {
					continue
				}
				hook(k, path, idx)
			}
			if n.Name == core("resources") && k.Idx >= 0 && k.Name != core("object") {
				pos++
			}
		}
	}
	walk(root, "")
	return
}

func checkHookErrors(t *rapid.T, c *C, o GenOpts) {
	o.Prec, o.Children, o.Attach = 4, false, false
	h, g := drawHookModel(t, c, o)
	defer hooks.Store(nil)
	s := drawSpelling(t, nil)
	s.f[fAttrOrder], s.f[fInterleave] = false, false
	dom := buildDOM(g.M, "")
	h.spoil(dom, 4)
	h.sprinkle(dom, 3)
	doc := s.document(dom, g.M.Extensions)
	want := h.reports(dom)
	c.Begin("model.xml", doc)
	c.Eval()
	h.start()
	got := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, got)
	if d := matchReports(err, want); d != "" {
		t.Fatalf("%s\n%s", d, clip(string(doc), 4000))
	}
	if d := h.w.checkCalls(expectCalls(dom)); d != "" {
		t.Fatalf("%s\n%s", d, clip(string(doc), 4000))
	}
	// the rest is decoded: compare with the document, the values that were rejected included
	ref := buildDOM(canon(got), "")
	exp := buildDOM(respoil(g.M, dom), "")
	if d := diffDOM(exp, ref, precSame, ""); d != "" {
		t.Fatalf("the rest of the document is not decoded: %s\n%s", d, clip(string(doc), 4000))
	}
	if len(want) > 0 {
		c.NonTrivial(doc)
	}
	c.LabelIf(len(want) > 1, "several errors")
	c.Sample(string(doc))
}

// respoil gives the model with the values of the spoiled document.
func respoil(m *go3mf.Model, dom *node) *go3mf.Model {
	c := copyModel(m)
	fix := func(orig, cp any) {
		o, ok := orig.(interface{ elem() *hookElem })
		if !ok {
			return
		}
		*cp.(interface{ elem() *hookElem }).elem() = *interpret(hookSrc[o.elem()])
	}
	res := func(o, r *go3mf.Resources) {
		for i := range o.Assets {
			fix(o.Assets[i], r.Assets[i])
		}
		for i, x := range o.Objects {
			if x.Mesh != nil {
				for j := range x.Mesh.Any {
					fix(x.Mesh.Any[j], r.Objects[i].Mesh.Any[j])
				}
			}
		}
	}
	res(&m.Resources, &c.Resources)
	for i := range m.Any {
		fix(m.Any[i], c.Any[i])
	}
	// the attributes: same order of elements in both documents
	attrs := func(n *node, as spec.AnyAttr) {
		for _, g := range as {
			var list []xml.Attr
			switch g := g.(type) {
			case *hookGroup:
				list = g.Attr
			case *spec.UnknownAttrs:
				list = g.Attr
			}
			for i := range list {
				if v, ok := n.attr(list[i].Name.Space, list[i].Name.Local); ok {
					list[i].Value = v
				}
			}
		}
	}
	core := func(n *node) (out []*node) {
		for _, k := range n.kids() {
			if !k.Verb {
				out = append(out, k)
			}
		}
		return
	}
	find := func(n *node, local string) *node {
		for _, k := range core(n) {
			if k.Name == (qname{nsCore, local}) {
				return k
			}
		}
		return nil
	}
	all := func(n *node, local string) (out []*node) {
		for _, k := range core(n) {
			if k.Name == (qname{nsCore, local}) {
				out = append(out, k)
			}
		}
		return
	}
	attrs(dom, c.AnyAttr)
	rn := find(dom, "resources")
	attrs(rn, c.Resources.AnyAttr)
	bms := all(rn, "basematerials")
	for _, a := range c.Resources.Assets {
		if b, ok := a.(*go3mf.BaseMaterials); ok {
			attrs(bms[0], b.AnyAttr)
			for i, k := range all(bms[0], "base") {
				attrs(k, b.Materials[i].AnyAttr)
			}
			bms = bms[1:]
		}
	}
	for i, n := range all(rn, "object") {
		o := c.Resources.Objects[i]
		attrs(n, o.AnyAttr)
		if k := find(n, "metadatagroup"); k != nil {
			attrs(k, o.Metadata.AnyAttr)
		}
		if k := find(n, "mesh"); k != nil {
			attrs(k, o.Mesh.AnyAttr)
			attrs(find(k, "vertices"), o.Mesh.Vertices.AnyAttr)
			ts := find(k, "triangles")
			attrs(ts, o.Mesh.Triangles.AnyAttr)
			for j, x := range all(ts, "triangle") {
				attrs(x, o.Mesh.Triangles.Triangle[j].AnyAttr)
			}
		}
		if k := find(n, "components"); k != nil {
			attrs(k, o.Components.AnyAttr)
			for j, x := range all(k, "component") {
				attrs(x, o.Components.Component[j].AnyAttr)
			}
		}
	}
	bn := find(dom, "build")
	attrs(bn, c.Build.AnyAttr)
	for i, n := range all(bn, "item") {
		attrs(n, c.Build.Items[i].AnyAttr)
		if k := find(n, "metadatagroup"); k != nil {
			attrs(k, c.Build.Items[i].Metadata.AnyAttr)
		}
	}
	return canon(c)
}

// ---------- validation ----------

func checkHookValidation(t *rapid.T, c *C, o GenOpts) {
	h, g := drawHookModel(t, c, o)
	defer hooks.Store(nil)
	m := g.Model()
	// a namespace may be declared under several prefixes
	if len(m.Extensions) > 0 && oneIn(t, 3, "twice") {
		e := m.Extensions[drawInt(t, 0, len(m.Extensions)-1, "twicewhich")]
		e.LocalName += "again"
		m.Extensions = append(m.Extensions, e)
	}
	if oneIn(t, 4, "nopath") {
		m.Path = ""
	}
	type place struct{ part, xpath string }
	places := map[any]place{any(m): {"", "/model"}}
	partOf := map[any]*go3mf.Resources{}
	res := func(r *go3mf.Resources, part string) {
		for i, a := range r.Assets {
			places[a] = place{part, fmt.Sprintf("/model/resources/%s[%d]", a.XMLName().Local, i)}
			partOf[a] = r
		}
		for i, o := range r.Objects {
			places[o] = place{part, fmt.Sprintf("/model/resources/object[%d]", i)}
			partOf[o] = r
		}
	}
	for p, ch := range m.Childs {
		res(&ch.Resources, p)
	}
	res(&m.Resources, "")
	declared := map[string]bool{}
	for _, e := range m.Extensions {
		for _, ns := range hookSpaces[:len(hookSpaces)-1] {
			if e.Namespace == ns {
				declared[ns] = true
			}
		}
	}
	want, got := map[finding]int{}, map[finding]int{}
	style := drawInt(t, 0, 1<<20, "failstyle")
	n := 0
	h.w.fail = func(v hookVisit) error {
		at, ok := places[v.elem]
		if !ok {
			return nil
		}
		n++
		x := (style + n*7) % 11
		msg := func() error { return errors.New(fmt.Sprintf("hook error %d of %s", n, v.ns)) }
		add := func(sub string, e error) {
			want[finding{at.part, at.xpath + sub, e.Error()}]++
		}
		switch x {
		case 0, 1:
			e := msg()
			add("", e)
			return e
		case 2:
			e := msg()
			add("/inner", e)
			return specerr.Wrap(e, "inner")
		case 3:
			e, f := msg(), fmt.Errorf("hook error %d bis", n)
			add("", e)
			add("/outer/list[3]", f)
			return specerr.Append(specerr.Append(nil, e), specerr.Wrap(specerr.WrapIndex(f, "list", 3), "outer"))
		}
		return nil
	}
	c.Begin("model", []byte(describe(m)))
	c.Eval()
	h.start()
	err := m.Validate()
	h.w.fail = nil
	seen := map[string]map[any]int{}
	for _, v := range h.w.visits {
		if !declared[v.ns] {
			t.Fatalf("the validation of %s is invoked although the model does not declare it", v.ns)
		}
		if v.model != m {
			t.Fatalf("the validation of %s is given another model", v.ns)
		}
		if _, ok := places[v.elem]; !ok {
			t.Fatalf("the validation of %s is given a %T that is neither the model, an object nor an asset", v.ns, v.elem)
		}
		if want := partOf[v.elem]; want != nil {
			if r, ok := m.FindResources(v.path); !ok || r != want {
				t.Fatalf("the validation of %s is given the path %q for a %T of the part %q", v.ns, v.path, v.elem, places[v.elem].part)
			}
		}
		if seen[v.ns] == nil {
			seen[v.ns] = map[any]int{}
		}
		seen[v.ns][v.elem]++
	}
	for ns := range declared {
		for e, p := range places {
			if k := seen[ns][e]; k != 1 {
				t.Fatalf("the validation of %s is invoked %d times for %s of the part %q", ns, k, p.xpath, p.part)
			}
		}
	}
	for _, e := range flatten(err) {
		le, ok := e.(*specerr.Error)
		if !ok {
			t.Fatalf("error without location: %v", e)
		}
		if strings.HasPrefix(le.Err.Error(), "hook error") {
			got[finding{le.Path, le.XPath(), le.Err.Error()}]++
		}
	}
	for f, k := range want {
		if got[f] != k {
			t.Fatalf("the error %v is reported %d times instead of %d\nall: %v", f, got[f], k, err)
		}
	}
	for f, k := range got {
		if want[f] != k {
			t.Fatalf("the error %v is reported %d times instead of %d\nall: %v", f, k, want[f], err)
		}
	}
	c.LabelIf(len(m.Childs) > 0, "child parts")
	c.LabelIf(len(want) > 0, "errors")
	if len(declared) > 0 && len(places) > 1 {
		c.NonTrivial([]byte(describe(m) + fmt.Sprint(sortedKeys(declared), style)))
	}
	c.Sample(fmt.Sprintf("%d declared, %d elements, %d errors", len(declared), len(places), len(want)))
}

func init() {
	registerHooks()
	rule := "random models with attributes and elements of five registered extensions that support random subsets, written by an own writer with random spelling and mixed with content the extensions decline; non-trivial = an extension stores at least one element"
	register(&Sub{Prop: "P24", Name: "document-core", Rule: rule, Quick: 4500, Thorough: 120000, Fn: func(t *rapid.T, c *C) {
		checkHookDocument(t, c, GenOpts{MaxObj: 2})
	}})
	register(&Sub{Prop: "P24", Name: "document-all", Rule: rule, Quick: 3000, Thorough: 80000, Fn: func(t *rapid.T, c *C) {
		checkHookDocument(t, c, allOpts(4))
	}})
	register(&Sub{Prop: "P24", Name: "package", Rule: rule + " and the package has several parts", Quick: 2000, Thorough: 60000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(-1)
		o.Unkn, o.MaxObj = drawBool(t, "unkn"), 2
		checkHookPackage(t, c, o)
	}})
	register(&Sub{Prop: "P24", Name: "decode-errors", Rule: "as document, with values that the extensions reject; non-trivial = at least one error", Quick: 5000, Thorough: 100000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(4)
		o.MaxObj, o.Unkn = 2, drawBool(t, "unkn")
		checkHookErrors(t, c, o)
	}})
	register(&Sub{Prop: "P24", Name: "validation", Rule: "random models with content of registered extensions that report errors for random elements; non-trivial = a declared extension and an object or asset", Quick: 8000, Thorough: 150000, Fn: func(t *rapid.T, c *C) {
		o := allOpts(-1)
		o.MaxObj = 2
		checkHookValidation(t, c, o)
	}})
}
