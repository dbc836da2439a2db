package main

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/materials"
	"pgregory.net/rapid"
)

type relT struct{ path, typ string }

// implied returns the relationships that the content of a part implies.
func implied(r *go3mf.Resources) []relT {
	var out []relT
	for _, a := range r.Assets {
		if tx, ok := a.(*materials.Texture2D); ok && tx.Path != "" {
			out = append(out, relT{tx.Path, relTexture})
		}
	}
	for _, o := range r.Objects {
		if o.Thumbnail != "" {
			out = append(out, relT{o.Thumbnail, relThumb})
		}
	}
	return out
}

// checkRels compares the relationships of one owner.
func checkRels(owner string, given []go3mf.Relationship, impl []relT, got []go3mf.Relationship) string {
	left := append([]go3mf.Relationship{}, got...)
	take := func(f func(r go3mf.Relationship) bool) bool {
		for i, r := range left {
			if f(r) {
				left = append(left[:i:i], left[i+1:]...)
				return true
			}
		}
		return false
	}
	types := map[string]map[string]bool{}
	for _, g := range given {
		g := g
		if !take(func(r go3mf.Relationship) bool {
			return r.Path == g.Path && r.Type == g.Type && (g.ID == "" || r.ID == g.ID)
		}) {
			return fmt.Sprintf("relationship %+v of %q is lost; got %+v", g, owner, got)
		}
		if types[g.Path] == nil {
			types[g.Path] = map[string]bool{}
		}
		types[g.Path][g.Type] = true
	}
	cand := map[string]map[string]bool{}
	for _, im := range impl {
		if cand[im.path] == nil {
			cand[im.path] = map[string]bool{}
		}
		cand[im.path][im.typ] = true
	}
	for path, ts := range cand {
		if len(types[path]) > 0 {
			// already related: one more of an implied type that is not there may be added
			for ty := range ts {
				if !types[path][ty] {
					take(func(r go3mf.Relationship) bool { return r.Path == path && r.Type == ty })
				}
			}
			continue
		}
		n := 0
		for ty := range ts {
			if take(func(r go3mf.Relationship) bool { return r.Path == path && r.Type == ty }) {
				n++
			}
		}
		if n == 0 {
			return fmt.Sprintf("the relationship of %q to %q, implied by its content, is missing; got %+v", owner, path, got)
		}
	}
	if len(left) > 0 {
		return fmt.Sprintf("unexpected or repeated relationships of %q: %+v", owner, left)
	}
	return ""
}

// checkAttachRels saves a model with partial relationships and reloads it.
func checkAttachRels(t *rapid.T, c *C) { checkAttachRelsOf(t, c, false) }

func checkAttachRelsOf(t *rapid.T, c *C, large bool) {
	o := GenOpts{Prec: 4, Children: true, Attach: true, Mat: true, MaxObj: 2, NoImplicitRels: true, Large: large}
	g := genModel(t, o)
	if drawBool(t, "noids") {
		clear := func(rs []go3mf.Relationship) {
			for i := range rs {
				if drawBool(t, "noid") {
					rs[i].ID = ""
				}
			}
		}
		clear(g.M.RootRelationships)
		clear(g.M.Relationships)
		for _, p := range sortedChilds(g.M) {
			clear(g.M.Childs[p].Relationships)
		}
	}
	has := map[string]bool{}
	for _, a := range g.Atts {
		has[a.path] = true
	}
	keep := func(rs []relT) (out []relT) {
		for _, r := range rs {
			if has[r.path] {
				out = append(out, r)
			}
		}
		return
	}
	rootImpl := []relT{}
	if g.M.Thumbnail != "" {
		rootImpl = append(rootImpl, relT{g.M.Thumbnail, relThumb})
	}
	c.Begin("model", []byte(describe(g.M)))
	b, err := encodePkg(g.Model(), 4)
	c.Eval()
	if err != nil {
		t.Fatalf("encode: %v", err)
	}
	c.Begin("package.3mf", b)
	got, err := decodePkg(b, true)
	if err != nil {
		t.Fatalf("decode: %v", err)
	}
	refd := map[string]bool{}
	note := func(rs []go3mf.Relationship, im []relT) {
		for _, r := range rs {
			refd[r.Path] = true
		}
		for _, r := range im {
			refd[r.path] = true
		}
	}
	check := func(owner string, given []go3mf.Relationship, im []relT, gotR []go3mf.Relationship) {
		note(given, im)
		if d := checkRels(owner, given, im, gotR); d != "" {
			t.Fatalf("%s", d)
		}
	}
	check("package", g.M.RootRelationships, keep(rootImpl), got.RootRelationships)
	check("root model", g.M.Relationships, keep(implied(&g.M.Resources)), got.Relationships)
	if len(got.Childs) != len(g.M.Childs) {
		t.Fatalf("child parts: want %d got %d", len(g.M.Childs), len(got.Childs))
	}
	for _, p := range sortedChilds(g.M) {
		if got.Childs[p] == nil {
			t.Fatalf("child part %s lost", p)
		}
		check(p, g.M.Childs[p].Relationships, keep(implied(&g.M.Childs[p].Resources)), got.Childs[p].Relationships)
	}
	var want []att
	for _, a := range g.Atts {
		if refd[a.path] {
			want = append(want, a)
		}
	}
	if d := diffAttachments(want, got.Attachments); d != "" {
		t.Fatalf("%s", d)
	}
	// The package itself, seen by an independent reader.
	v, err := readPackage(b)
	if err != nil {
		t.Fatalf("saved package: %v", err)
	}
	for _, a := range g.Atts {
		d, ok := v.parts[a.path]
		if !ok || string(d) != string(a.data) || !strings.EqualFold(v.ct[a.path], a.ct) {
			t.Fatalf("attachment %s (%s) is not in the package as given (found %v, %d bytes, %s)", a.path, a.ct, ok, len(d), v.ct[a.path])
		}
	}
	nrel := len(got.RootRelationships) + len(got.Relationships)
	for _, ch := range got.Childs {
		nrel += len(ch.Relationships)
	}
	c.LabelIf(len(want) > 0, "has:attachment")
	c.LabelIf(len(want) > 8, "has:many-attachments")
	c.LabelIf(len(got.RootRelationships) > 16, "has:many-package-relationships")
	c.LabelIf(len(got.Relationships) > 16, "has:many-model-relationships")
	c.LabelIf(nrel > len(want), "has:shared-attachment")
	if len(want) > 0 && nrel > 1 {
		c.NonTrivial(b)
	}
	c.Sample(fmt.Sprintf("%s attachments=%d relationships=%d", describe(g.M), len(want), nrel))
}

// checkRelativeChilds names the child parts relative to the root model part.
func checkRelativeChilds(t *rapid.T, c *C) {
	g := genModel(t, GenOpts{Prec: 4, Children: true, Attach: true, Mat: true, Prod: true, MaxObj: 2, ManyChildren: 4})
	m := g.Model()
	var rs []go3mf.Relationship
	for _, r := range m.Relationships {
		if m.Childs[r.Path] == nil {
			rs = append(rs, r)
		}
	}
	m.Relationships = rs
	wrote, err := encodePkg(m, 4)
	if err != nil {
		t.Fatalf("encode: %v", err)
	}
	want, err := decodePkg(wrote, true)
	if err != nil {
		t.Fatalf("decode: %v", err)
	}
	rel := g.Model()
	rel.Relationships = rs
	childs := rel.Childs
	rel.Childs = map[string]*go3mf.ChildModel{}
	dir := m.PathOrDefault()
	dir = dir[:strings.LastIndexByte(dir, '/')]
	var names []string
	moved := false
	var paths []string
	for p := range childs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		ch := childs[p]
		up := dir
		name := ""
		for !strings.HasPrefix(p, up+"/") {
			up = up[:strings.LastIndexByte(up, '/')]
			name += "../"
		}
		name += p[len(up)+1:]
		if drawBool(t, "absolute") {
			name = p
		}
		moved = moved || name != p
		names = append(names, name)
		rel.Childs[name] = ch
	}
	sort.Strings(names)
	c.Begin("model", []byte(strings.Join(names, " ")+"\n"+describe(g.M)))
	c.Eval()
	b, err := encodePkg(rel, 4)
	if err != nil {
		t.Fatalf("with relative names of child parts: %v", err)
	}
	got, err := decodePkg(b, true)
	if err != nil {
		t.Fatalf("with relative names of child parts %v: %v", names, err)
	}
	if d := exactDiff(want, got); d != "" {
		t.Fatalf("the root model is %s, the child parts are %v:\n%s", m.PathOrDefault(), names, d)
	}
	if d := diffAttachments(readAttachments(want), got.Attachments); d != "" {
		t.Fatalf("%s", d)
	}
	c.End()
	if moved {
		c.NonTrivial([]byte(strings.Join(names, " ") + describe(g.M)))
	}
	c.Sample(m.PathOrDefault() + ": " + strings.Join(names, " "))
}

func readAttachments(m *go3mf.Model) (out []att) {
	for _, a := range m.Attachments {
		b, _ := io.ReadAll(a.Stream)
		out = append(out, att{path: a.Path, ct: a.ContentType, data: b})
	}
	return
}

func sortedChilds(m *go3mf.Model) []string {
	var ks []string
	for k := range m.Childs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	register(&Sub{Prop: "P23", Name: "relative-childs", Rule: "models whose child parts are named relative to the root model part, loaded back like those named absolutely; non-trivial = at least one relative name", Quick: 800, Thorough: 30000, Fn: checkRelativeChilds})
	register(&Sub{Prop: "P23", Name: "save-and-reload", Rule: "random models with attachments, given and implied relationships; non-trivial = at least one attachment and two relationships",
		Quick: 2500, Thorough: 60000, Fn: checkAttachRels})
	register(&Sub{Prop: "P23", Name: "large", Rule: "as save-and-reload, with up to 60 attachments, 150 relationships per owner, 300 child parts and lists enlarged", Quick: 400, Thorough: 20000, Fn: func(t *rapid.T, c *C) {
		checkAttachRelsOf(t, c, true)
	}})
	register(&Sub{Prop: "P23", Name: "foreign-large", Rule: "as foreign, with up to 60 attachments, 150 relationships per owner and 300 child parts", Quick: 200, Thorough: 10000, Fn: func(t *rapid.T, c *C) {
		checkSpelledPackage(t, c, GenOpts{Prec: -1, Children: true, Attach: true, Mat: true, Prod: true, MaxObj: 2, Large: true})
	}})
	register(&Sub{Prop: "P23", Name: "foreign", Rule: "packages laid out by an own writer: part order, compression, content types by default or override, relative targets of any owner, several relationships to a model part; compared with what the package says; non-trivial = at least two parts and an object with content", Quick: 800, Thorough: 40000, Fn: func(t *rapid.T, c *C) {
		checkSpelledPackage(t, c, GenOpts{Prec: -1, Children: true, Attach: true, Mat: true, Prod: true, MaxObj: 2})
	}})
	register(&Sub{Prop: "P23", Name: "mixed-roundtrip", Rule: rtRule, Quick: 1200, Thorough: 30000, Fn: func(t *rapid.T, c *C) {
		checkPkgRoundTrip(t, c, GenOpts{Prec: 4, Children: true, Attach: true, Mat: true, Prod: true, MaxObj: 2})
	}})
}
