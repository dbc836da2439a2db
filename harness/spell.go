package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

// Spelling features; a document is spelled with a random subset of them.
const (
	fDecl = iota
	fAttrOrder
	fQuotes
	fTagSpace
	fIndent
	fPI
	fComment
	fCDATA
	fCharRef
	fSelfClose
	fDefaults
	fCorePrefix
	fLocalPrefix
	fDefaultNS
	fNumbers
	fTextComment
	fBOM
	fInterleave
	fShadow
	fTrailing
	fRawSpace
	fCRLF
	fWideSpace
	fSpare
	nFeatures
)

var featureNames = []string{"decl", "attr-order", "quotes", "tag-space", "indent", "pi", "comment", "cdata", "charref", "self-close", "defaults", "core-prefix", "local-prefix", "default-ns", "numbers", "text-comment", "bom", "interleave", "shadow", "trailing", "raw-space", "crlf", "wide-space", "spare"}

type speller struct {
	r    *rand.Rand
	f    [nFeatures]bool
	b    strings.Builder
	exts []go3mf.Extension
	nfix int
}

type scope struct {
	up *scope
	m  map[string]string
}

func (s *scope) get(p string) (string, bool) {
	for ; s != nil; s = s.up {
		if v, ok := s.m[p]; ok {
			return v, true
		}
	}
	return "", false
}

// prefixes returns the usable prefixes bound to ns, in a stable order.
func (s *scope) prefixes(ns string) []string {
	var out []string
	seen := map[string]bool{}
	for c := s; c != nil; c = c.up {
		for _, k := range sortedKeys(c.m) {
			if seen[k] {
				continue
			}
			seen[k] = true
			if c.m[k] == ns {
				out = append(out, k)
			}
		}
	}
	return out
}

func drawSpelling(t *rapid.T, c *C) *speller {
	s := &speller{}
	switch drawInt(t, 0, 3, "spellmode") {
	case 0: // plain
	case 1: // one feature
		s.f[drawInt(t, 0, nFeatures-1, "feature")] = true
	default:
		for i := range s.f {
			s.f[i] = drawBool(t, "f-"+featureNames[i])
		}
	}
	s.r = rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "spellseed"))))
	if c != nil {
		for i, v := range s.f {
			c.LabelIf(v, "spelling:"+featureNames[i])
		}
	}
	return s
}

func (s *speller) on(f, n int) bool { return s.f[f] && s.r.Intn(n) == 0 }

func (s *speller) ws() string {
	n := 1 + s.r.Intn(3)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString([]string{" ", "\n", "\t", "\r\n", "\r"}[s.r.Intn(5)])
	}
	return b.String()
}

// misc is insignificant content between elements.
func (s *speller) misc() {
	if s.on(fIndent, 2) {
		s.b.WriteString(s.ws())
	}
	if s.on(fComment, 5) {
		s.b.WriteString([]string{"<!-- a comment -->", "<!---->", "<!-- <model> & ]]> -->", "<!-- - > -->", "<!--<a/>-->"}[s.r.Intn(5)])
		if s.on(fIndent, 2) {
			s.b.WriteString(s.ws())
		}
	}
	if s.on(fPI, 6) {
		s.b.WriteString([]string{"<?target some data?>", "<?p?>", "<?x <model> ?>", "<?y a='?' > ?>"}[s.r.Intn(4)])
		if s.on(fIndent, 2) {
			s.b.WriteString(s.ws())
		}
	}
}

func (s *speller) charRef(c rune) string {
	switch s.r.Intn(3) {
	case 0:
		return fmt.Sprintf("&#%d;", c)
	case 1:
		return fmt.Sprintf("&#x%x;", c)
	default:
		return fmt.Sprintf("&#x0%X;", c)
	}
}

func (s *speller) attrValue(v string, q byte) string {
	var b strings.Builder
	for _, c := range v {
		switch {
		case c == '&':
			if s.on(fCharRef, 2) {
				b.WriteString(s.charRef(c))
			} else {
				b.WriteString("&amp;")
			}
		case c == '<':
			if s.on(fCharRef, 2) {
				b.WriteString(s.charRef(c))
			} else {
				b.WriteString("&lt;")
			}
		case c == rune(q):
			if s.on(fCharRef, 2) {
				b.WriteString(s.charRef(c))
			} else if q == '"' {
				b.WriteString("&quot;")
			} else {
				b.WriteString("&apos;")
			}
		case c == '\t' || c == '\n' || c == '\r':
			b.WriteString(s.charRef(c))
		case c == '>' && s.on(fCharRef, 2):
			b.WriteString("&gt;")
		case c == ' ' && s.on(fRawSpace, 2):
			w := []string{"\t", "\n", "\r\n", "\r"}[s.r.Intn(4)]
			if w == "\n" && strings.HasSuffix(b.String(), "\r") {
				w = "\t" // the two would be one line break
			}
			b.WriteString(w)
		case s.on(fCharRef, 4):
			b.WriteString(s.charRef(c))
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// text spells character data. keep: every chunk must contain more than white space.
func (s *speller) text(v string, keep bool) {
	rs := []rune(v)
	for i := 0; i < len(rs); {
		n := len(rs) - i
		if s.f[fCDATA] || s.f[fTextComment] {
			n = 1 + s.r.Intn(n)
		}
		chunk := string(rs[i : i+n])
		rest := string(rs[i+n:])
		if keep && (strings.TrimSpace(chunk) == "" || (rest != "" && strings.TrimSpace(rest) == "")) {
			n = len(rs) - i
			chunk = string(rs[i:])
		}
		if s.on(fCDATA, 2) && !strings.Contains(chunk, "]]>") && !strings.Contains(chunk, "\r") {
			s.b.WriteString("<![CDATA[")
			s.b.WriteString(s.newlines(chunk))
			s.b.WriteString("]]>")
		} else {
			for _, c := range chunk {
				switch {
				case c == '&':
					s.b.WriteString("&amp;")
				case c == '<':
					s.b.WriteString("&lt;")
				case c == '>':
					s.b.WriteString("&gt;")
				case c == '\r':
					s.b.WriteString(s.charRef(c))
				case c == '\n':
					s.b.WriteString(s.newlines("\n"))
				case s.on(fCharRef, 4):
					s.b.WriteString(s.charRef(c))
				default:
					s.b.WriteRune(c)
				}
			}
		}
		i += n
		if s.on(fTextComment, 2) {
			s.b.WriteString([]string{"<!-- in text -->", "<?pi in text?>", "<!---->"}[s.r.Intn(3)])
		}
	}
}

func (s *speller) newlines(v string) string {
	if !s.f[fCRLF] {
		return v
	}
	var b strings.Builder
	prevCR := strings.HasSuffix(s.b.String(), "\r")
	for _, c := range v {
		if c != '\n' {
			b.WriteRune(c)
			prevCR = false
			continue
		}
		k := s.r.Intn(3)
		if prevCR && k == 0 {
			k = 1
		}
		b.WriteString([]string{"\n", "\r\n", "\r"}[k])
		prevCR = k == 2
	}
	return b.String()
}

// value respells an attribute value without changing its meaning.
func (s *speller) value(a nattr) string {
	list := func(f func(string) string) string {
		fs := strings.Fields(a.Value)
		for i := range fs {
			fs[i] = f(fs[i])
		}
		sep := func() string {
			if s.f[fWideSpace] {
				if s.r.Intn(3) == 0 {
					return []string{"\t", "\n", "\r\n", "\n\t", " \n"}[s.r.Intn(5)]
				}
				return strings.Repeat(" ", 1+s.r.Intn(3))
			}
			return " "
		}
		var b strings.Builder
		if s.on(fWideSpace, 4) {
			b.WriteString(sep())
		}
		for i, f := range fs {
			if i > 0 {
				b.WriteString(sep())
			}
			b.WriteString(f)
		}
		if s.on(fWideSpace, 4) {
			b.WriteString(sep())
		}
		return b.String()
	}
	switch a.Kind {
	case kUint:
		return s.uint(a.Value)
	case kFloat:
		return s.float(a.Value)
	case kMatrix, kFloats:
		return list(s.float)
	case kUints:
		return list(s.uint)
	case kEnums, kPrefixes:
		return list(func(x string) string { return x })
	case kColor:
		v := a.Value
		if !s.f[fNumbers] {
			return v
		}
		if strings.HasSuffix(strings.ToUpper(v), "FF") && len(v) == 9 && s.r.Intn(2) == 0 {
			v = v[:7]
		}
		b := []byte(v)
		for i := range b {
			if s.r.Intn(2) == 0 {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	case kBool:
		if s.f[fNumbers] {
			if a.Value == "true" {
				return []string{"true", "1"}[s.r.Intn(2)]
			}
			return []string{"false", "0"}[s.r.Intn(2)]
		}
	}
	return a.Value
}

func (s *speller) uint(v string) string {
	if s.on(fNumbers, 3) {
		return strings.Repeat("0", s.r.Intn(3)) + v
	}
	return v
}

func (s *speller) float(v string) string {
	if !s.f[fNumbers] {
		return v
	}
	x, err := strconv.ParseFloat(v, 32)
	if err != nil {
		return v
	}
	neg := strings.HasPrefix(v, "-")
	if neg {
		x = -x
	}
	if x < 0 {
		x = 0
	}
	var o string
	switch s.r.Intn(6) {
	case 5: // just above the middle between this number and the one below
		o = strconv.FormatFloat(x, 'f', -1, 32)
		if x > 1e-6 && x < 1e9 && float64(float32(x)) == x {
			mid := (x + float64(math.Nextafter32(float32(x), 0))) / 2
			o = strings.TrimRight(strconv.FormatFloat(mid, 'f', 120, 64), "0") + "00000001"
		}
	case 0:
		o = strconv.FormatFloat(x, 'f', -1, 32)
		if !strings.Contains(o, ".") {
			o += "."
		}
		o += strings.Repeat("0", 1+s.r.Intn(4))
	case 1:
		o = strconv.FormatFloat(x, 'e', -1, 32)
	case 2:
		o = strconv.FormatFloat(x, 'E', -1, 32)
	case 3:
		o = strconv.FormatFloat(x, 'f', -1, 32)
		if strings.HasPrefix(o, "0.") {
			o = o[1:]
		}
	default:
		o = strconv.FormatFloat(x, 'f', -1, 32)
		if s.r.Intn(2) == 0 {
			o = "00" + o
		}
	}
	if neg {
		return "-" + o
	}
	if s.r.Intn(4) == 0 {
		return "+" + o
	}
	return o
}

// document spells a model document. exts are the declarations of the model element.
func (s *speller) document(n *node, exts []go3mf.Extension) []byte {
	s.b.Reset()
	if s.f[fBOM] {
		s.b.WriteString("\ufeff")
	}
	if s.f[fDecl] {
		s.b.WriteString([]string{`<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0' encoding='utf-8' standalone='yes' ?>`, `<?xml version="1.0"?>`}[s.r.Intn(3)])
	}
	s.misc()
	sc := &scope{m: map[string]string{"xml": nsXML}}
	s.element(n, sc, exts, true)
	if s.f[fTrailing] {
		s.b.WriteString("\n<!-- the end --><?done?>\n  ")
	}
	return []byte(s.b.String())
}

func (s *speller) fresh(sc *scope) string {
	for {
		s.nfix++
		p := fmt.Sprintf("q%d", s.nfix)
		if _, ok := sc.get(p); !ok {
			return p
		}
	}
}

func (s *speller) element(n *node, up *scope, exts []go3mf.Extension, root bool) {
	sc := &scope{up: up, m: map[string]string{}}
	type at struct{ name, val string }
	var out []at
	declare := func(p, ns string) {
		sc.m[p] = ns
		if p == "" {
			out = append(out, at{"xmlns", ns})
		} else {
			out = append(out, at{"xmlns:" + p, ns})
		}
	}
	if root {
		if s.f[fCorePrefix] {
			declare(s.fresh(sc), nsCore)
			if s.r.Intn(2) == 0 {
				declare("", nsCore)
			}
		} else {
			declare("", nsCore)
		}
		for _, e := range exts {
			declare(e.LocalName, e.Namespace)
		}
	} else if s.on(fShadow, 4) {
		// bind a prefix of an outer element to something else
		var ps []string
		for c := up; c != nil; c = c.up {
			for _, k := range sortedKeys(c.m) {
				if k != "xml" && k != "" {
					ps = append(ps, k)
				}
			}
		}
		if len(ps) > 0 {
			declare(ps[s.r.Intn(len(ps))], []string{nsCore, nsMat, nsSlic, "urn:shadow", unknownNS[0]}[s.r.Intn(5)])
		}
	}
	if !root && s.on(fSpare, 8) {
		// declare prefixes that nothing uses, now and then a lot of them
		k := 1 + s.r.Intn(3)
		if s.r.Intn(8) == 0 {
			k = s.r.Intn(70)
		}
		for ; k > 0; k-- {
			declare(s.fresh(sc), []string{nsCore, nsMat, nsProd, "urn:spare", unknownNS[0]}[s.r.Intn(5)])
		}
	}
	// element prefix
	cands := sc.prefixes(n.Name.Space)
	usable := cands[:0:0]
	for _, p := range cands {
		if v, ok := sc.get(p); ok && v == n.Name.Space {
			usable = append(usable, p)
		}
	}
	var pfx string
	switch {
	case n.Name.Space == "":
		if v, _ := sc.get(""); v != "" {
			declare("", "")
		}
	case !root && s.on(fDefaultNS, 4) && sc.m[""] == "":
		declare("", n.Name.Space)
		pfx = ""
	case !root && s.on(fLocalPrefix, 4):
		pfx = s.fresh(sc)
		declare(pfx, n.Name.Space)
	case len(usable) > 0:
		pfx = usable[0]
		if s.f[fLocalPrefix] || s.f[fCorePrefix] {
			pfx = usable[s.r.Intn(len(usable))]
		}
	default:
		pfx = s.fresh(sc)
		declare(pfx, n.Name.Space)
	}
	name := n.Name.Local
	if pfx != "" {
		name = pfx + ":" + name
	}
	for _, a := range n.Attrs {
		if a.Def && !(s.f[fDefaults] && s.r.Intn(2) == 0) {
			continue
		}
		if a.Def && a.Value == "" && a.Name.Local != "lang" && (a.Kind == kEnum || a.Kind == kUUID) {
			continue
		}
		an := a.Name.Local
		if a.Name.Space != "" {
			var ap string
			for _, p := range sc.prefixes(a.Name.Space) {
				if v, _ := sc.get(p); p != "" && v == a.Name.Space {
					ap = p
					break
				}
			}
			if ap == "" || (ap != "xml" && !root && s.on(fLocalPrefix, 4)) {
				ap = s.fresh(sc)
				declare(ap, a.Name.Space)
			}
			an = ap + ":" + an
		}
		out = append(out, at{an, s.value(a)})
	}
	if s.f[fAttrOrder] {
		s.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	s.b.WriteString("<" + name)
	for _, a := range out {
		if s.on(fTagSpace, 2) {
			s.b.WriteString(s.ws())
		} else {
			s.b.WriteString(" ")
		}
		q := byte('"')
		if s.on(fQuotes, 2) {
			q = '\''
		}
		s.b.WriteString(a.name)
		if s.on(fTagSpace, 4) {
			s.b.WriteString(s.ws())
		}
		s.b.WriteString("=")
		if s.on(fTagSpace, 4) {
			s.b.WriteString(s.ws())
		}
		s.b.WriteByte(q)
		s.b.WriteString(s.attrValue(a.val, q))
		s.b.WriteByte(q)
	}
	if s.on(fTagSpace, 3) {
		s.b.WriteString(s.ws())
	}
	content := n.Content
	if s.f[fInterleave] && !n.Verb && n.Name == core("resources") {
		content = s.interleave(content)
	}
	if len(content) == 0 && (!s.f[fSelfClose] || s.r.Intn(2) == 0) {
		s.b.WriteString("/>")
		return
	}
	s.b.WriteString(">")
	isText := func(i int) bool {
		if i < 0 || i >= len(content) {
			return false
		}
		_, ok := content[i].(string)
		return ok
	}
	for i, c := range content {
		switch c := c.(type) {
		case string:
			s.text(c, n.Verb)
		case *node:
			if !isText(i - 1) {
				s.misc()
			}
			s.element(c, sc, nil, false)
		}
	}
	if !isText(len(content)-1) && (!n.HasText || len(content) > 0) {
		s.misc()
	}
	s.b.WriteString("</" + name)
	if s.on(fTagSpace, 3) {
		s.b.WriteString(s.ws())
	}
	s.b.WriteString(">")
}

// interleave mixes assets and objects, keeping the order among each.
func (s *speller) interleave(in []any) []any {
	var as, os []any
	for _, c := range in {
		if k, ok := c.(*node); ok && k.Name == core("object") {
			os = append(os, c)
		} else {
			as = append(as, c)
		}
	}
	var out []any
	for len(as)+len(os) > 0 {
		if len(os) == 0 || (len(as) > 0 && s.r.Intn(2) == 0) {
			out, as = append(out, as[0]), as[1:]
		} else {
			out, os = append(out, os[0]), os[1:]
		}
	}
	return out
}
