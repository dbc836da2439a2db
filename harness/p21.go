package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
	"pgregory.net/rapid"
)

var (
	uuidV4 = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)
	uuidRe = regexp.MustCompile(`^(?:(?:[uU][rR][nN]:[uU][uU][iI][dD]:)?H{8}-H{4}-H{4}-H{4}-H{12}|\{H{8}-H{4}-H{4}-H{4}-H{12}\}|H{32})$`)
)

func init() {
	uuidRe = regexp.MustCompile(strings.ReplaceAll(uuidRe.String(), "H", "[0-9a-fA-F]"))
}

// shortReader hands out its bytes in pieces.
type shortReader struct {
	b    []byte
	step int
}

func (s *shortReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := s.step
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	return n, nil
}

func checkUUIDNew(t *rapid.T, c *C) {
	raw := rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "random")
	uuid.SetRand(&shortReader{append([]byte(nil), raw...), drawInt(t, 1, 16, "step")})
	defer uuid.SetRand(nil)
	u := uuid.New()
	uuid.SetRand(nil)
	c.Eval()
	if !uuidV4.MatchString(u) {
		t.Fatalf("%q is no version 4 UUID (random %x)", u, raw)
	}
	if err := uuid.Validate(u); err != nil {
		t.Fatalf("%q is not accepted: %v", u, err)
	}
	// all the other bits are random
	hex := strings.ReplaceAll(u, "-", "")
	var bits [16]byte
	for i := range bits {
		fmt.Sscanf(hex[2*i:2*i+2], "%02x", &bits[i])
	}
	for i := range bits {
		mask := byte(0xff)
		if i == 6 {
			mask = 0x0f
		} else if i == 8 {
			mask = 0x3f
		}
		if bits[i]&mask != raw[i]&mask {
			t.Fatalf("byte %d of %q does not come from the random source %x", i, u, raw)
		}
	}
	a, b := uuid.New(), uuid.New()
	if a == b || !uuidV4.MatchString(a) || !uuidV4.MatchString(b) {
		t.Fatalf("generated %q and %q", a, b)
	}
	c.NonTrivial([]byte(u))
	c.Sample(u)
}

func drawUUIDText(t *rapid.T) string {
	hexs := func(n int) string {
		return rapid.StringMatching(fmt.Sprintf("[0-9a-fA-F]{%d}", n)).Draw(t, "hex")
	}
	s := hexs(8) + "-" + hexs(4) + "-" + hexs(4) + "-" + hexs(4) + "-" + hexs(12)
	switch drawInt(t, 0, 4, "form") {
	case 0:
		s = pick(t, "urn", "urn:uuid:", "URN:UUID:", "Urn:Uuid:", "urn:uuid;", "urn-uuid:", "urn:uuıd:", "urn:guid:") + s
	case 1:
		s = pick(t, "open", "{", "{", "(", "[") + s + pick(t, "close", "}", "}", ")", "]")
	case 2:
		s = strings.ReplaceAll(s, "-", "")
	}
	for k := pick(t, "edits", 0, 0, 1, 1, 2); k > 0 && len(s) > 0; k-- {
		i := drawInt(t, 0, len(s)-1, "at")
		ch := pick(t, "char", "-", "g", "G", "0", "f", "F", "@", "`", ":", "/", "{", "}", " ", "\x00", "\xff", "é", "x", "z", "Z")
		switch drawInt(t, 0, 3, "edit") {
		case 0:
			s = s[:i] + ch + s[i+1:]
		case 1:
			s = s[:i] + ch + s[i:]
		case 2:
			s = s[:i] + s[i+1:]
		default: // exchange two characters
			j := drawInt(t, 0, len(s)-1, "with")
			b := []byte(s)
			b[i], b[j] = b[j], b[i]
			s = string(b)
		}
	}
	return s
}

func checkUUIDText(t *rapid.T, c *C) {
	s := drawUUIDText(t)
	want := uuidRe.MatchString(s)
	c.Eval()
	if err := uuid.Validate(s); (err == nil) != want {
		t.Fatalf("Validate(%q) = %v, the documented forms say valid=%v", s, err, want)
	}
	// the same answer when decoding it
	if rapid.Bool().Draw(t, "decode") && !strings.ContainsAny(s, "\x00\xff<&\"") {
		m := new(go3mf.Model)
		err := go3mf.UnmarshalModel([]byte(fmt.Sprintf(`<model xmlns="%s" xmlns:p="%s"><resources/><build p:UUID="%s"/></model>`, nsCore, nsProd, s)), m)
		if (err == nil) != want {
			t.Fatalf("decoding the build UUID %q gives %v", s, err)
		}
	}
	c.LabelIf(want, "valid")
	c.NonTrivial([]byte(s))
	c.Sample(s)
}

// otherAttr occupies a place among the attribute groups.
func otherAttr(t *rapid.T, groups ...spec.AttrGroup) spec.AnyAttr {
	var a spec.AnyAttr
	if drawBool(t, "before") {
		a = append(a, &spec.UnknownAttrs{Space: "urn:v"})
	}
	a = append(a, groups...)
	if drawBool(t, "after") {
		a = append(a, &spec.UnknownAttrs{Space: "urn:w"})
	}
	return a
}

func checkComplete(t *rapid.T, c *C) {
	m := &go3mf.Model{Extensions: []go3mf.Extension{{Namespace: nsProd, LocalName: "p"}}}
	n := 0
	given := func() string {
		if drawBool(t, "given") {
			n++
			return fmt.Sprintf("%08x-0000-4000-8000-00000000aaaa", n)
		}
		return ""
	}
	missing := 0
	count := func(u string) string {
		if u == "" {
			missing++
		}
		return u
	}
	obj := func(id uint32) *go3mf.Object {
		o := &go3mf.Object{ID: id, Type: go3mf.ObjectType(pick(t, "type", 0, 0, 0, 1, 2, 3, 4))}
		if drawBool(t, "oattr") {
			o.AnyAttr = otherAttr(t, &production.ObjectAttr{UUID: count(given())})
		} else {
			missing++
			o.AnyAttr = otherAttr(t)
		}
		kind := drawInt(t, 0, 3, "kind")
		if kind%3 == 0 {
			o.Mesh = new(go3mf.Mesh)
		}
		switch kind {
		case 1, 3: // 3: both
			o.Components = new(go3mf.Components)
			for i, k := 0, drawMany(t, 3, 300, 500, "ncomp"); i < k; i++ {
				cm := &go3mf.Component{ObjectID: uint32(drawInt(t, 1, 4, "cid"))}
				if drawBool(t, "cattr") {
					cm.AnyAttr = otherAttr(t, &production.ComponentAttr{UUID: count(given()), Path: pick(t, "cpath", "", "/3D/c0.model")})
				} else {
					missing++
					cm.AnyAttr = otherAttr(t)
				}
				o.Components.Component = append(o.Components.Component, cm)
			}
		}
		return o
	}
	resources := func() (r go3mf.Resources) {
		for i, k := 0, drawMany(t, 3, 150, 300, "nobj"); i < k; i++ {
			r.Objects = append(r.Objects, obj(uint32(i+1)))
		}
		return
	}
	m.Resources = resources()
	for i, k := 0, drawMany(t, 2, 80, 150, "nchild"); i < k; i++ {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[fmt.Sprintf("/3D/c%d.model", i)] = &go3mf.ChildModel{Resources: resources()}
	}
	if drawBool(t, "battr") {
		m.Build.AnyAttr = otherAttr(t, &production.BuildAttr{UUID: count(given())})
	} else {
		missing++
		m.Build.AnyAttr = otherAttr(t)
	}
	for i, k := 0, drawMany(t, 3, 300, 100, "nitem"); i < k; i++ {
		it := &go3mf.Item{ObjectID: uint32(drawInt(t, 1, 4, "iid"))}
		if drawBool(t, "iattr") {
			it.AnyAttr = otherAttr(t, &production.ItemAttr{UUID: count(given()), Path: pick(t, "ipath", "", "/3D/c0.model")})
		} else {
			missing++
			it.AnyAttr = otherAttr(t)
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	before := copyModel(m)
	c.Eval()
	production.SetMissingUUIDs(m)
	seen := map[string]bool{}
	fresh := 0
	// check compares the groups of one element before and after.
	check := func(where string, old, now spec.AnyAttr) {
		var ou, op, nu, np string
		var rest []spec.AttrGroup
		nprod := 0
		get := func(g spec.AttrGroup) (string, string, bool) {
			switch g := g.(type) {
			case *production.BuildAttr:
				return g.UUID, "", true
			case *production.ObjectAttr:
				return g.UUID, "", true
			case *production.ItemAttr:
				return g.UUID, g.Path, true
			case *production.ComponentAttr:
				return g.UUID, g.Path, true
			}
			return "", "", false
		}
		oldRest := 0
		for _, g := range old {
			if u, p, ok := get(g); ok {
				ou, op = u, p
			} else {
				oldRest++
			}
		}
		for _, g := range now {
			if u, p, ok := get(g); ok {
				nu, np = u, p
				nprod++
			} else {
				rest = append(rest, g)
			}
		}
		if nprod != 1 || len(rest) != oldRest {
			t.Fatalf("%s: %d production groups and %d others, %d others before", where, nprod, len(rest), oldRest)
		}
		if ou != "" && nu != ou {
			t.Fatalf("%s: UUID %q became %q", where, ou, nu)
		}
		if op != np {
			t.Fatalf("%s: path %q became %q", where, op, np)
		}
		if ou == "" {
			fresh++
			if !uuidV4.MatchString(nu) {
				t.Fatalf("%s: got the UUID %q", where, nu)
			}
		}
		if seen[nu] {
			t.Fatalf("%s: repeated UUID %q", where, nu)
		}
		seen[nu] = true
	}
	objects := func(path string, old, now []*go3mf.Object) {
		for i := range old {
			check(fmt.Sprintf("%s object %d", path, i), old[i].AnyAttr, now[i].AnyAttr)
			if old[i].Components != nil {
				for j := range old[i].Components.Component {
					check(fmt.Sprintf("%s object %d component %d", path, i, j), old[i].Components.Component[j].AnyAttr, now[i].Components.Component[j].AnyAttr)
				}
			}
		}
	}
	check("build", before.Build.AnyAttr, m.Build.AnyAttr)
	for i := range m.Build.Items {
		check(fmt.Sprintf("item %d", i), before.Build.Items[i].AnyAttr, m.Build.Items[i].AnyAttr)
	}
	objects("root", before.Resources.Objects, m.Resources.Objects)
	for p := range m.Childs {
		objects(p, before.Childs[p].Resources.Objects, m.Childs[p].Resources.Objects)
	}
	if fresh != missing {
		t.Fatalf("HARNESS: %d fresh for %d missing", fresh, missing)
	}
	// nothing but the production attributes changed
	strip := func(m *go3mf.Model) *go3mf.Model {
		m = copyModel(m)
		drop := func(a spec.AnyAttr) (o spec.AnyAttr) {
			for _, g := range a {
				if g.Namespace() != nsProd {
					o = append(o, g)
				}
			}
			return
		}
		objs := func(os []*go3mf.Object) {
			for _, o := range os {
				o.AnyAttr = drop(o.AnyAttr)
				if o.Components != nil {
					for _, cm := range o.Components.Component {
						cm.AnyAttr = drop(cm.AnyAttr)
					}
				}
			}
		}
		m.Build.AnyAttr = drop(m.Build.AnyAttr)
		for _, it := range m.Build.Items {
			it.AnyAttr = drop(it.AnyAttr)
		}
		objs(m.Resources.Objects)
		for _, ch := range m.Childs {
			objs(ch.Resources.Objects)
		}
		return m
	}
	if d := exactDiff(strip(before), strip(m)); d != "" {
		t.Fatalf("something else changed: %s", d)
	}
	// idempotent
	again := copyModel(m)
	production.SetMissingUUIDs(m)
	if d := exactDiff(again, m); d != "" {
		t.Fatalf("completing twice changes the model: %s", d)
	}
	// and the UUID rules hold
	if err := m.Validate(); err != nil {
		for _, e := range flatten(err) {
			var mf *specerr.MissingFieldError
			if errors.Is(e, production.ErrUUID) || (errors.As(e, &mf) && mf.Name == "UUID") {
				t.Fatalf("the completed model breaks a UUID rule: %v", e)
			}
		}
	}
	c.LabelIf(len(m.Childs) > 0, "has:childs")
	if missing > 0 && n > 0 {
		var b bytes.Buffer
		fmt.Fprint(&b, n, missing, len(m.Build.Items), len(m.Childs), len(m.Resources.Objects), len(seen))
		b.WriteString(exactDump(before))
		c.NonTrivial(b.Bytes())
	}
	c.Sample(fmt.Sprintf("%d given, %d missing", n, missing))
}

func flatten(err error) []error {
	if l, ok := err.(*specerr.List); ok {
		var out []error
		for _, e := range l.Errors {
			out = append(out, flatten(e)...)
		}
		return out
	}
	if err == nil {
		return nil
	}
	return []error{err}
}

func exactDump(m *go3mf.Model) string {
	b, err := go3mf.MarshalModel(m)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// checkUUIDBytes: every byte at every place of every form.
func checkUUIDBytes(c *C) error {
	const u = "01234567-89ab-cDEF-aBcd-f0f0f0f0f0f0"
	for _, s := range []string{u, "urn:uuid:" + u, "{" + u + "}", strings.ReplaceAll(u, "-", "")} {
		for i := 0; i <= len(s); i++ {
			for b := 0; b < 256; b++ {
				xs := []string{s[:i] + string([]byte{byte(b)}) + s[i:]}
				if i < len(s) {
					xs = append(xs, s[:i]+string([]byte{byte(b)})+s[i+1:])
				}
				for _, x := range xs {
					c.Eval()
					want := uuidRe.MatchString(x)
					if err := uuid.Validate(x); (err == nil) != want {
						return fmt.Errorf("Validate(%q) = %v, the documented forms say valid=%v", x, err, want)
					}
					if b%16 == 0 {
						c.NonTrivial([]byte(x))
					}
				}
			}
		}
		c.Sample(s)
	}
	return nil
}

func init() {
	register(&Sub{Prop: "P21", Name: "bytes", Rule: "every byte value replacing or inserted at every position of each of the four textual forms", Direct: checkUUIDBytes})
	register(&Sub{Prop: "P21", Name: "generate", Rule: "UUIDs from generated random bytes delivered in pieces; every case counts, distinct by UUID", Quick: 20000, Thorough: 600000, Fn: checkUUIDNew})
	register(&Sub{Prop: "P21", Name: "checker", Rule: "the documented forms with up to two edits, against a regular expression; every case counts, distinct by text", Quick: 60000, Thorough: 3000000, Fn: checkUUIDText})
	register(&Sub{Prop: "P21", Name: "complete", Rule: "random models with some UUIDs given and some missing; non-trivial = both occur", Quick: 5000, Thorough: 200000, Fn: checkComplete})
}
