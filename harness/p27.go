package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
	"pgregory.net/rapid"
)

// effect is what an operation leaves: a text and perhaps a model.
type effect struct {
	text string
	m    *go3mf.Model
	ids  []string // fresh identifiers, never the same twice
}

// contents reads the attachments of the model, which is possible once.
func (o effect) contents() string {
	var s strings.Builder
	if o.m != nil {
		for _, a := range o.m.Attachments {
			b, err := io.ReadAll(a.Stream)
			fmt.Fprintf(&s, "%s %s %q %v\n", a.Path, a.ContentType, b, err)
		}
	}
	return s.String()
}

func (o effect) diff(other effect) string {
	if o.text != other.text {
		return fmt.Sprintf("%s\nbecame\n%s", clip(o.text, 2000), clip(other.text, 2000))
	}
	if (o.m == nil) != (other.m == nil) {
		return "one has a model"
	}
	if o.m == nil {
		return ""
	}
	return exactDiff(o.m, other.m)
}

// operation is one thing an application does with the library. run has to give the same
// effect every time, r only decides how the input is fed.
type operation struct {
	kind   string
	shared bool // uses a model that other operations use as well
	run    func(r *rand.Rand) effect
	judge  func(o effect) string // what is wrong with the effect of a run, besides its changing
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

// sortedErr is for operations that do not promise an order.
func sortedErr(err error) string {
	var s []string
	for _, e := range flatten(err) {
		s = append(s, e.Error())
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// readOnly are the operations that only read their model.
func readOnly(m *go3mf.Model) []operation {
	op := func(kind string, f func() string) operation {
		return operation{kind, true, func(*rand.Rand) effect { return effect{text: f()} }, nil}
	}
	return []operation{
		op("validate", func() string { return errText(m.Validate()) }),
		op("coherency", func() string { return sortedErr(m.ValidateCoherency()) }),
		op("box", func() string { return fmt.Sprint(m.BoundingBox()) }),
		op("marshal", func() string { b, err := go3mf.MarshalModel(m); return string(b) + errText(err) }),
		op("save", func() string {
			b, err := encodePkg(m, 5)
			if err != nil {
				return "error" // the parts are saved in any order
			}
			v, err := readPackage(b)
			if err != nil {
				return "unreadable"
			}
			var s strings.Builder
			for _, p := range sortedKeys(v.parts) {
				fmt.Fprintf(&s, "%s %s\n%s\n", p, v.ct[p], v.parts[p])
			}
			return s.String()
		}),
		op("walk", func() string {
			var s strings.Builder
			m.WalkAssets(func(p string, a go3mf.Asset) error {
				f, ok := m.FindAsset(p, a.Identify())
				fmt.Fprintln(&s, p, a.Identify(), a.XMLName(), ok && f.Identify() == a.Identify())
				return nil
			})
			m.WalkObjects(func(p string, o *go3mf.Object) error {
				f, ok := m.FindObject(p, o.ID)
				fmt.Fprintln(&s, p, o.ID, ok && f.ID == o.ID, errText(o.Validate(m, p)))
				if o.Mesh != nil {
					fmt.Fprintln(&s, o.Mesh.BoundingBox(), errText(o.Mesh.ValidateCoherency()))
				}
				return nil
			})
			fmt.Fprintln(&s, m.Resources.UnusedID())
			return s.String()
		}),
	}
}

// moved copies a package with all its parts in another folder, so that parts have the same
// names as before and refer to each other by the same relative references.
func moved(g *Gen, folder string, flip byte) *Gen {
	known := map[string]bool{g.M.PathOrDefault(): true}
	for p := range g.M.Childs {
		known[p] = true
	}
	for _, a := range g.Atts {
		known[a.path] = true
	}
	m := copyModel(g.M)
	m.Path = m.PathOrDefault()
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice, reflect.Array:
			if !flat(v.Type().Elem()) {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		case reflect.String:
			if v.CanSet() && known[v.String()] {
				v.SetString(folder + v.String())
			}
		}
	}
	walk(reflect.ValueOf(m).Elem())
	for _, p := range sortedChilds(m) {
		m.Childs[folder+p] = m.Childs[p]
		delete(m.Childs, p)
	}
	out := &Gen{M: m}
	for _, a := range g.Atts {
		a.path, a.data = folder+a.path, append([]byte(nil), a.data...)
		for i := range a.data {
			a.data[i] ^= flip
		}
		out.Atts = append(out.Atts, a)
	}
	for _, o := range m.Resources.Objects {
		o.Name += string(rune('a' + flip))
	}
	return out
}

// decodeOf decodes a sound package.
func decodeOf(t *rapid.T, g *Gen, sp func() *speller, style pkgStyle, r *rand.Rand) operation {
	b := packageOf(g, func(part string) []byte {
		return sp().document(buildDOM(g.M, part), g.M.Extensions)
	}).bytes(style, r)
	strict := drawBool(t, "strict")
	return operation{"decode", false, func(r *rand.Rand) effect {
		m, err := decodeJitter(b, strict, r)
		return effect{text: errText(err), m: m}
	}, func(o effect) string {
		if o.text != "ok" {
			return o.text
		}
		got := copyModel(o.m)
		resolveRels(got)
		if want := g.M.PathOrDefault(); got.Path != want {
			return fmt.Sprintf("the root part is %q, not %q", got.Path, want)
		}
		if d := diffExact(canon(g.M), canon(got)); d != "" {
			return "the decoded model is not what the package says (-want +got):\n" + d
		}
		return diffAttachments(g.Atts, o.m.Attachments)
	}}
}

func drawOperation(t *rapid.T, r *rand.Rand) []operation {
	o := allOpts(-1)
	o.MaxObj = 2
	o.Attach = drawBool(t, "att")
	if drawInt(t, 0, 8, "op") < 2 { // a package, perhaps with another one much like it
		g := genModel(t, o)
		style, pr := drawStyle(t, nil)
		sp := func() *speller { return drawSpelling(t, nil) }
		ops := []operation{decodeOf(t, g, sp, style, pr)}
		if drawBool(t, "twin") {
			ops = append(ops, decodeOf(t, moved(g, pick(t, "folder", "/zz", "/zz/y", "/3D"), byte(drawInt(t, 0, 2, "flip"))), sp, style, pr))
		}
		return ops
	}
	return []operation{drawSingle(t, r, o)}
}

func drawSingle(t *rapid.T, r *rand.Rand, o GenOpts) operation {
	switch drawInt(t, 2, 8, "op") {
	case 2: // a document with bad values
		o.Children, o.Attach = false, false
		g := genModel(t, o)
		b := drawBadDoc(t, g, "", 4)
		return operation{"decode-bad", false, func(r *rand.Rand) effect {
			m := new(go3mf.Model)
			err := go3mf.UnmarshalModel(append([]byte(nil), b.doc...), m)
			return effect{text: errText(err), m: m}
		}, func(o effect) string { return b.compare(copyModel(o.m), "") }}
	case 3: // a document that ends early
		_, doc := drawClosedDoc(t, o, false)
		cut := doc[:drawInt(t, 0, len(doc), "cut")]
		return operation{"decode-cut", false, func(r *rand.Rand) effect {
			m := new(go3mf.Model)
			err := go3mf.UnmarshalModel(append([]byte(nil), cut...), m)
			return effect{text: errText(err), m: m}
		}, nil}
	case 4: // an STL file
		var b []byte
		fs := drawFacets(t, nil)
		switch drawInt(t, 0, 3, "stl") {
		case 0:
			b = binarySTL(drawHeader(t), fs, r)
		case 1:
			b = drawHostileSTL(r)
		default:
			b = drawASCIIStyle(t).bytes(fs, r)
		}
		return operation{"stl", false, func(r *rand.Rand) effect {
			m := new(go3mf.Model)
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 1})
			err := importSTL(b, 0, r, m)
			return effect{text: errText(err), m: m}
		}, nil}
	case 5: // identifiers
		o.Prod, o.Attach = true, false
		m := genModel(t, o).M
		return operation{"uuid", false, func(r *rand.Rand) effect {
			c := copyModel(m)
			production.SetMissingUUIDs(c)
			out := effect{ids: []string{uuid.New()}}
			if a := production.GetBuildAttr(&m.Build); a != nil {
				out.text = production.GetBuildAttr(&c.Build).UUID
			} else {
				out.ids = append(out.ids, production.GetBuildAttr(&c.Build).UUID)
			}
			for _, id := range out.ids {
				out.text += errText(uuid.Validate(id))
			}
			return out
		}, nil}
	case 6: // points
		pts := make([]go3mf.Point3D, drawInt(t, 1, 60, "points"))
		for i := range pts {
			pts[i] = go3mf.Point3D{float32(r.Intn(4)), float32(r.Intn(3)) / 3, float32(r.Intn(2)) * 1e-4}
		}
		return operation{"builder", false, func(*rand.Rand) effect {
			mesh := new(go3mf.Mesh)
			mb := go3mf.NewMeshBuilder(mesh)
			var is []uint32
			for _, p := range pts {
				is = append(is, mb.AddVertex(p))
			}
			return effect{text: fmt.Sprint(is, mesh.Vertices.Vertex)}
		}, nil}
	case 7: // values
		texts := make([]string, 6)
		for i := range texts {
			texts[i] = rapid.StringMatching(`#?[0-9a-fA-F]{6,8}|(-?[0-9]{1,4}(\.[0-9]{1,4})? ){11}-?[0-9]{1,6}`).Draw(t, "text")
		}
		return operation{"values", false, func(*rand.Rand) effect {
			var s strings.Builder
			prod := go3mf.Identity()
			for _, x := range texts {
				c, err := spec.ParseRGBA(x)
				m, ok := spec.ParseMatrix(x)
				prod = prod.Mul(go3mf.Matrix(m))
				fmt.Fprintln(&s, c, errText(err), spec.FormatRGBA(c), go3mf.Matrix(m).String(), ok, prod.Mul3D(go3mf.Point3D{1, 2, 3}), errText(uuid.Validate(x)))
			}
			return effect{text: s.String()}
		}, nil}
	default: // a failing destination
		o.Attach = false
		m := genModel(t, o).M
		n := drawInt(t, 0, 3000, "room")
		return operation{"save-fails", false, func(*rand.Rand) effect {
			err := go3mf.NewEncoder(&roomFor{n: n}).Encode(m)
			return effect{text: fmt.Sprint(errors.Is(err, errFull), err != nil)}
		}, nil}
	}
}

var errFull = errors.New("no room left")

type roomFor struct{ n int }

func (w *roomFor) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, errFull
	}
	w.n -= len(p)
	return len(p), nil
}

// checkHistory runs operations alone, one after the other in any order, and all at once.
func checkHistory(t *rapid.T, c *C) {
	r := drawRand(t, "seed")
	var (
		ops  []operation
		keep []*go3mf.Model // shared models
		orig []*go3mf.Model
	)
	for i, n := 0, drawInt(t, 1, 2, "models"); i < n; i++ {
		o := allOpts(-1)
		o.Attach, o.MaxObj = false, 3
		m := genModel(t, o).M
		for i, n := 0, drawInt(t, 0, 3, "edits"); i < n; i++ {
			derange(m, r, 1)
		}
		m.Attachments = nil
		keep, orig = append(keep, m), append(orig, copyModel(m))
		ops = append(ops, readOnly(m)...)
	}
	for i, n := 0, drawInt(t, 2, 6, "operations"); i < n; i++ {
		ops = append(ops, drawOperation(t, r)...)
	}
	var kinds []string
	for _, o := range ops {
		kinds = append(kinds, o.kind)
		c.Label("op:" + o.kind)
	}
	c.Begin("operations", []byte(strings.Join(kinds, " ")+"\n"+describe(keep[0])))
	c.Eval()
	seen := map[string]bool{}
	fresh := func(o effect) {
		for _, id := range o.ids {
			if seen[id] {
				t.Fatalf("the identifier %s was given out twice", id)
			}
			seen[id] = true
		}
	}
	first := make([]effect, len(ops))
	contents := make([]string, len(ops))
	for i, o := range ops {
		if o.kind == "decode" {
			contents[i] = o.run(r).contents()
		}
		first[i] = o.run(r)
		fresh(first[i])
		if o.judge != nil {
			if d := o.judge(o.run(r)); d != "" {
				t.Fatalf("operation %d (%s), after the ones before: %s", i, kinds[i], d)
			}
		}
	}
	compare := func(i int, o effect, when string) {
		fresh(o)
		if d := first[i].diff(o); d != "" {
			t.Fatalf("the effect of operation %d (%s) is another one %s:\n%s", i, kinds[i], when, d)
		}
	}
	last := make([]effect, len(ops))
	for i, k := range r.Perm(len(ops)) {
		last[k] = ops[k].run(r)
		compare(k, last[k], fmt.Sprintf("as number %d of another order", i))
	}
	procs := pick(t, "procs", 2, 8)
	old := runtime.GOMAXPROCS(procs)
	var wg sync.WaitGroup
	times := 2
	outs := make([]effect, times*len(ops))
	for _, k := range r.Perm(len(outs)) {
		wg.Add(1)
		go func(k int, r *rand.Rand) {
			defer wg.Done()
			outs[k] = ops[k%len(ops)].run(r)
		}(k, rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	runtime.GOMAXPROCS(old)
	for k, o := range outs {
		compare(k%len(ops), o, "when all run at the same time")
	}
	for i := range ops { // what came first has not been changed by what came later
		if d := first[i].diff(last[i]); d != "" {
			t.Fatalf("the effect of operation %d (%s) was changed afterwards:\n%s", i, kinds[i], d)
		}
	}
	read := func(i int, o effect) {
		if s := o.contents(); ops[i].kind == "decode" && s != contents[i] {
			t.Fatalf("the attachments of operation %d (%s), read at the end, are\n%s\ninstead of\n%s", i, kinds[i], clip(s, 1500), clip(contents[i], 1500))
		}
	}
	for i := range ops {
		read(i, first[i])
		read(i, last[i])
	}
	for k, o := range outs {
		read(k%len(ops), o)
	}
	for i, m := range keep {
		if d := exactDiff(orig[i], m); d != "" {
			t.Fatalf("operations that only read changed the model:\n%s", d)
		}
	}
	var key bytes.Buffer
	for i := range first {
		key.WriteString(first[i].text)
	}
	c.NonTrivial(key.Bytes())
	c.Sample(strings.Join(kinds, " "))
}

func init() {
	rule := "two to six operations (decoding sound, bad and cut input, STL import, UUIDs, vertices, values, failing saves) and all reading operations on one or two shared models, run alone, again in another order, and all twice at the same time; distinct by their outcomes"
	register(&Sub{Prop: "P27", Name: "histories", Rule: rule, Quick: 400, Thorough: 20000, Fn: checkHistory})
	register(&Sub{Prop: "P27", Name: "histories-race", Race: true, Rule: rule + ", under the race detector", Quick: 80, Thorough: 4000, Fn: checkHistory})
}
