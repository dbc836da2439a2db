package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A small, strict, namespace-aware XML 1.0 reader, independent of the code under test.

type qname struct{ Space, Local string }

func (q qname) String() string {
	if q.Space == "" {
		return q.Local
	}
	return "{" + q.Space + "}" + q.Local
}

type attrKind int

const (
	kText   attrKind = iota
	kUint            // unsigned integer
	kFloat           // coordinate, written with the chosen precision
	kMatrix          // transform, three decimals
	kColor
	kBool
	kEnum
	kUints    // list of unsigned integers
	kFloats   // list of coordinates
	kEnums    // list of names
	kPrefixes // set of prefixes, order irrelevant
	kUUID
	kBad // cannot be parsed
)

type nattr struct {
	Name  qname
	Value string
	Kind  attrKind
	Def   bool // may be left out: equals the default or inherited value
	Req   bool // the 3MF schema requires it
}

// node is an element; Content holds *node and string.
type node struct {
	Name    qname
	Attrs   []nattr
	Content []any
	NS      map[string]string // prefixes in scope (parsed nodes only)

	Idx     int  // index reported in locations, -1 = none
	Verb    bool // content kept verbatim by the library (unknown content): text is significant
	HasText bool // text content is significant
}

func (n *node) kids() []*node {
	var out []*node
	for _, c := range n.Content {
		if k, ok := c.(*node); ok {
			out = append(out, k)
		}
	}
	return out
}

func (n *node) text() string {
	var b strings.Builder
	for _, c := range n.Content {
		if s, ok := c.(string); ok {
			b.WriteString(s)
		}
	}
	return b.String()
}

func (n *node) attr(space, local string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Name.Space == space && a.Name.Local == local {
			return a.Value, true
		}
	}
	return "", false
}

type xmlReader struct {
	s   string
	pos int
}

type xmlErr struct{ msg string }

func (r *xmlReader) fail(f string, a ...any) {
	lo := r.pos - 40
	if lo < 0 {
		lo = 0
	}
	hi := r.pos + 40
	if hi > len(r.s) {
		hi = len(r.s)
	}
	panic(xmlErr{fmt.Sprintf(f, a...) + fmt.Sprintf(" at offset %d near %q", r.pos, r.s[lo:hi])})
}

func xmlChar(c rune) bool {
	return c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xD7FF) || (c >= 0xE000 && c <= 0xFFFD) || (c >= 0x10000 && c <= 0x10FFFF)
}

func nameStart(c rune) bool {
	return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= 0xC0 && c <= 0xD6) || (c >= 0xD8 && c <= 0xF6) ||
		(c >= 0xF8 && c <= 0x2FF) || (c >= 0x370 && c <= 0x37D) || (c >= 0x37F && c <= 0x1FFF) || (c >= 0x200C && c <= 0x200D) ||
		(c >= 0x2070 && c <= 0x218F) || (c >= 0x2C00 && c <= 0x2FEF) || (c >= 0x3001 && c <= 0xD7FF) || (c >= 0xF900 && c <= 0xFDCF) ||
		(c >= 0xFDF0 && c <= 0xFFFD) || (c >= 0x10000 && c <= 0xEFFFF)
}

func nameChar(c rune) bool {
	return nameStart(c) || c == '-' || c == '.' || (c >= '0' && c <= '9') || c == 0xB7 || (c >= 0x300 && c <= 0x36F) || (c >= 0x203F && c <= 0x2040)
}

// parseXML reads a document; an error means it is not well formed or not
// namespace well formed.
func parseXML(data []byte) (root *node, err error) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(xmlErr); ok {
				root, err = nil, fmt.Errorf("%s", e.msg)
				return
			}
			panic(p)
		}
	}()
	s := string(data)
	if !utf8.ValidString(s) {
		return nil, fmt.Errorf("not UTF-8")
	}
	for i, c := range s {
		if !xmlChar(c) {
			return nil, fmt.Errorf("illegal character %U at offset %d", c, i)
		}
	}
	s = strings.TrimPrefix(s, "\ufeff")
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	r := &xmlReader{s: s}
	if strings.HasPrefix(s, "<?xml") && len(s) > 5 && strings.ContainsRune(" \t\n", rune(s[5])) {
		e := strings.Index(s, "?>")
		if e < 0 {
			r.fail("unterminated XML declaration")
		}
		if !strings.Contains(s[:e], "version=") {
			r.fail("XML declaration without version")
		}
		r.pos = e + 2
	}
	r.misc()
	root = r.element(map[string]string{"xml": nsXML, "xmlns": "http://www.w3.org/2000/xmlns/"})
	r.misc()
	if r.pos != len(r.s) {
		r.fail("content after the document element")
	}
	return root, nil
}

func (r *xmlReader) misc() {
	for {
		r.space()
		switch {
		case r.has("<!--"):
			r.comment()
		case r.has("<?"):
			r.pi()
		default:
			return
		}
	}
}

func (r *xmlReader) has(p string) bool { return strings.HasPrefix(r.s[r.pos:], p) }

func (r *xmlReader) space() bool {
	p := r.pos
	for r.pos < len(r.s) && strings.IndexByte(" \t\n", r.s[r.pos]) >= 0 {
		r.pos++
	}
	return r.pos > p
}

func (r *xmlReader) comment() {
	r.pos += 4
	e := strings.Index(r.s[r.pos:], "--")
	if e < 0 {
		r.fail("unterminated comment")
	}
	r.pos += e
	if !r.has("-->") {
		r.fail("-- in comment")
	}
	r.pos += 3
}

func (r *xmlReader) pi() {
	r.pos += 2
	n := r.ncname()
	if strings.EqualFold(n, "xml") {
		r.fail("misplaced XML declaration")
	}
	e := strings.Index(r.s[r.pos:], "?>")
	if e < 0 {
		r.fail("unterminated processing instruction")
	}
	r.pos += e + 2
}

func (r *xmlReader) ncname() string {
	p := r.pos
	for r.pos < len(r.s) {
		c, n := utf8.DecodeRuneInString(r.s[r.pos:])
		if !(nameChar(c) && (r.pos > p || nameStart(c))) {
			break
		}
		r.pos += n
	}
	if r.pos == p {
		r.fail("name expected")
	}
	return r.s[p:r.pos]
}

func (r *xmlReader) rawName() (prefix, local string) {
	local = r.ncname()
	if r.has(":") {
		r.pos++
		prefix, local = local, r.ncname()
	}
	return
}

func (r *xmlReader) ref(b *strings.Builder) {
	e := strings.IndexByte(r.s[r.pos:], ';')
	if e < 0 {
		r.fail("unterminated reference")
	}
	n := r.s[r.pos+1 : r.pos+e]
	switch n {
	case "lt":
		b.WriteByte('<')
	case "gt":
		b.WriteByte('>')
	case "amp":
		b.WriteByte('&')
	case "apos":
		b.WriteByte('\'')
	case "quot":
		b.WriteByte('"')
	default:
		if !strings.HasPrefix(n, "#") {
			r.fail("undefined entity %s", n)
		}
		base, d := 10, n[1:]
		if strings.HasPrefix(d, "x") {
			base, d = 16, d[1:]
		}
		v, err := strconv.ParseUint(d, base, 32)
		if err != nil || !xmlChar(rune(v)) {
			r.fail("bad character reference %s", n)
		}
		b.WriteRune(rune(v))
	}
	r.pos += e + 1
}

func (r *xmlReader) element(ns map[string]string) *node {
	if !r.has("<") {
		r.fail("element expected")
	}
	r.pos++
	pfx, local := r.rawName()
	type raw struct {
		p, l, v string
	}
	var attrs []raw
	for {
		sp := r.space()
		if r.has(">") || r.has("/>") {
			break
		}
		if !sp {
			r.fail("white space expected")
		}
		p, l := r.rawName()
		r.space()
		if !r.has("=") {
			r.fail("= expected")
		}
		r.pos++
		r.space()
		if r.pos >= len(r.s) || (r.s[r.pos] != '"' && r.s[r.pos] != '\'') {
			r.fail("quote expected")
		}
		q := r.s[r.pos]
		r.pos++
		var b strings.Builder
		for {
			if r.pos >= len(r.s) {
				r.fail("unterminated attribute")
			}
			c := r.s[r.pos]
			if c == q {
				r.pos++
				break
			}
			switch c {
			case '<':
				r.fail("< in attribute value")
			case '&':
				r.ref(&b)
				continue
			case '\t', '\n':
				b.WriteByte(' ')
			default:
				b.WriteByte(c)
			}
			r.pos++
		}
		attrs = append(attrs, raw{p, l, b.String()})
	}
	own := false
	bind := func(p, v string) {
		if !own {
			c := make(map[string]string, len(ns)+1)
			for k, x := range ns {
				c[k] = x
			}
			ns, own = c, true
		}
		ns[p] = v
	}
	n := &node{Idx: -1}
	seenDecl := map[string]bool{}
	for _, a := range attrs {
		if a.p == "" && a.l == "xmlns" {
			if seenDecl[""] {
				r.fail("repeated xmlns")
			}
			seenDecl[""] = true
			bind("", a.v)
		} else if a.p == "xmlns" {
			if seenDecl[a.l] {
				r.fail("repeated xmlns:%s", a.l)
			}
			seenDecl[a.l] = true
			if a.v == "" {
				r.fail("empty namespace for prefix %s", a.l)
			}
			if a.l == "xmlns" || (a.l == "xml") != (a.v == nsXML) {
				r.fail("illegal declaration of %s", a.l)
			}
			bind(a.l, a.v)
		}
	}
	resolve := func(p string, isAttr bool) string {
		if p == "" && isAttr {
			return ""
		}
		v, ok := ns[p]
		if !ok && p != "" {
			r.fail("undeclared prefix %s", p)
		}
		return v
	}
	n.Name = qname{resolve(pfx, false), local}
	seen := map[qname]bool{}
	for _, a := range attrs {
		if (a.p == "" && a.l == "xmlns") || a.p == "xmlns" {
			continue
		}
		q := qname{resolve(a.p, true), a.l}
		if seen[q] {
			r.fail("repeated attribute %s", q)
		}
		seen[q] = true
		n.Attrs = append(n.Attrs, nattr{Name: q, Value: a.v})
	}
	n.NS = ns
	if r.has("/>") {
		r.pos += 2
		return n
	}
	r.pos++
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			n.Content = append(n.Content, b.String())
			b.Reset()
		}
	}
	for {
		if r.pos >= len(r.s) {
			r.fail("unterminated element %s", local)
		}
		switch {
		case r.has("</"):
			flush()
			r.pos += 2
			p, l := r.rawName()
			r.space()
			if !r.has(">") {
				r.fail("> expected")
			}
			r.pos++
			if p != pfx || l != local {
				r.fail("element %s:%s closed by %s:%s", pfx, local, p, l)
			}
			return n
		case r.has("<!--"):
			r.comment()
		case r.has("<![CDATA["):
			r.pos += 9
			e := strings.Index(r.s[r.pos:], "]]>")
			if e < 0 {
				r.fail("unterminated CDATA")
			}
			b.WriteString(r.s[r.pos : r.pos+e])
			r.pos += e + 3
		case r.has("<?"):
			r.pi()
		case r.has("<"):
			flush()
			n.Content = append(n.Content, r.element(ns))
		case r.has("&"):
			r.ref(&b)
		case r.has("]]>"):
			r.fail("]]> in text")
		default:
			b.WriteByte(r.s[r.pos])
			r.pos++
		}
	}
}

// dump prints a node canonically.
func (n *node) dump(b *strings.Builder, ind int) {
	pad := strings.Repeat(" ", ind)
	b.WriteString(pad + "<" + n.Name.String())
	as := append([]nattr{}, n.Attrs...)
	sort.Slice(as, func(i, j int) bool { return as[i].Name.String() < as[j].Name.String() })
	for _, a := range as {
		fmt.Fprintf(b, " %s=%q", a.Name, a.Value)
		if a.Def {
			b.WriteByte('?')
		}
	}
	b.WriteString(">\n")
	for _, c := range n.Content {
		switch c := c.(type) {
		case string:
			if strings.TrimSpace(c) != "" {
				fmt.Fprintf(b, "%s %q\n", pad, c)
			}
		case *node:
			c.dump(b, ind+1)
		}
	}
}

func (n *node) String() string {
	var b strings.Builder
	n.dump(&b, 0)
	return b.String()
}
