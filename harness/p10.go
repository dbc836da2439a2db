package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hpinc/go3mf"
	"pgregory.net/rapid"
)

// jitterAt delays reads to vary how the decoding of the parts is interleaved.
type jitterAt struct {
	r    *bytes.Reader
	seed uint64
	n    atomic.Uint64
	mode int
}

func (j *jitterAt) ReadAt(p []byte, off int64) (int, error) {
	if j.mode > 0 {
		x := (j.n.Add(1) ^ j.seed) * 0x9E3779B97F4A7C15
		switch (x >> 40) % 6 {
		case 0:
			runtime.Gosched()
		case 1:
			if j.mode > 1 {
				time.Sleep(time.Duration((x>>20)%150) * time.Microsecond)
			}
		}
	}
	return j.r.ReadAt(p, off)
}

func decodeJitter(b []byte, strict bool, r *rand.Rand) (*go3mf.Model, error) {
	d := go3mf.NewDecoder(&jitterAt{r: bytes.NewReader(b), seed: r.Uint64(), mode: r.Intn(3)}, int64(len(b)))
	d.Strict = strict
	switch r.Intn(6) { // what a decoder did before does not matter
	case 0:
		d.Decode(new(go3mf.Model))
	case 1:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		d.DecodeContext(ctx, new(go3mf.Model))
	}
	m := new(go3mf.Model)
	var err error
	if r.Intn(2) == 0 {
		err = d.Decode(m)
	} else {
		err = d.DecodeContext(context.Background(), m)
	}
	return m, err
}

// drawCrowd draws a model with many parts.
func drawCrowd(t *rapid.T, max int) *Gen {
	o := allOpts(-1)
	o.MaxObj, o.ManyChildren = 2, max
	g := genModel(t, o)
	ps := sortedChilds(g.M)
	for k := pick(t, "nfat", 0, 1, 3); k > 0; k-- {
		fatten(t, g.M)
		// and in another part
		p := ps[drawInt(t, 0, len(ps)-1, "fatpart")]
		res := &g.M.Childs[p].Resources
		mesh := new(go3mf.Mesh)
		n := drawInt(t, 3, 400, "fat")
		base := float32(drawInt(t, 0, 1000, "base"))
		for i := 0; i < n; i++ {
			mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, go3mf.Point3D{base, base + 1, float32(i)})
			mesh.Triangles.Triangle = append(mesh.Triangles.Triangle, go3mf.Triangle{V1: uint32(i), V2: uint32((i + 1) % n), V3: uint32((i + 2) % n)})
		}
		res.Objects = append(res.Objects, &go3mf.Object{ID: res.UnusedID(), Mesh: mesh})
	}
	return g
}

func withProcs(n int, f func()) {
	old := runtime.GOMAXPROCS(n)
	defer runtime.GOMAXPROCS(old)
	f()
}

// drawHundreds draws a model with up to some hundred parts.
func drawHundreds(t *rapid.T) *Gen {
	g := drawCrowd(t, 4)
	r := drawRand(t, "more")
	n := pick(t, "parts", 10, 20, 40, 70, 140, 300, 600)
	growParts(g.M.Childs, n/2+r.Intn(n), r)
	return g
}

func checkCrowd(t *rapid.T, c *C) { checkCrowdOf(t, c, drawCrowd(t, pick(t, "max", 2, 6, 16))) }

func checkHundreds(t *rapid.T, c *C) {
	g := drawHundreds(t)
	n := len(g.M.Childs)
	c.LabelIf(n > 32, "parts:33+")
	c.LabelIf(n > 128, "parts:129+")
	c.LabelIf(n > 256, "parts:257+")
	checkCrowdOf(t, c, g)
}

func checkCrowdOf(t *rapid.T, c *C, g *Gen) {
	var one *speller
	if len(g.M.Childs) > 16 {
		one = drawSpelling(t, nil)
	}
	style, r := drawStyle(t, nil)
	b := packageOf(g, func(part string) []byte {
		s := one
		if s == nil {
			s = drawSpelling(t, nil)
		}
		return s.document(buildDOM(g.M, part), g.M.Extensions)
	}).bytes(style, r)
	want := canon(g.M)
	c.Begin("package.3mf", b)
	c.Eval()
	for i := 0; i < 3; i++ {
		withProcs([]int{1, 2, 8}[i], func() {
			m, err := decodeJitter(b, i%2 == 0, r)
			if err != nil {
				t.Fatalf("decoding a valid package failed: %v", err)
			}
			resolveRels(m)
			if d := diffExact(want, canon(m)); d != "" {
				t.Fatalf("decode %d: the model is not what the package says (-want +got):\n%s", i, d)
			}
			if d := diffAttachments(g.Atts, m.Attachments); d != "" {
				t.Fatalf("%s", d)
			}
		})
	}
	n := len(g.M.Childs)
	c.LabelIf(n >= 2, "parts:2+")
	c.LabelIf(n >= 8, "parts:8+")
	unk := 0
	for _, ch := range g.M.Childs {
		if len(ch.Any) > 0 {
			unk++
		}
	}
	c.LabelIf(unk >= 2, "parts:several-with-unknown-content")
	if n >= 2 {
		c.NonTrivial(b)
	}
	c.Sample(fmt.Sprintf("%d child parts: %s", n, describe(g.M)))
}

func checkBadCrowd(t *rapid.T, c *C) { checkBadCrowdOf(t, c, drawCrowd(t, pick(t, "max", 2, 5, 10))) }

func checkBadHundreds(t *rapid.T, c *C) { checkBadCrowdOf(t, c, drawHundreds(t)) }

func checkBadCrowdOf(t *rapid.T, c *C, g *Gen) {
	var one *speller
	if len(g.M.Childs) > 16 {
		one = drawSpelling(t, nil)
	}
	parts := append([]string{""}, sortedChilds(g.M)...)
	good, bad := map[string][]byte{}, map[string][]byte{}
	hard := map[string]bool{}
	var broken []string
	for i, p := range parts {
		s := one
		if s == nil {
			s = drawSpelling(t, nil)
		}
		s.f[fTrailing] = false
		good[p] = s.document(buildDOM(g.M, p), g.M.Extensions)
		k := pick(t, "break", "", "", "cut", "value", "value")
		if i == 0 && !oneIn(t, 4, "breakroot") {
			k = ""
		}
		if one != nil && i > 0 && !oneIn(t, len(parts)/2, "breakany") {
			k = ""
		}
		switch k {
		case "cut":
			lo := rootStart(good[p]) + 1
			if ks := cutPoints(t, good[p], lo, len(good[p]), 1); len(ks) > 0 {
				bad[p], hard[p] = good[p][:ks[0]:ks[0]], true
				broken = append(broken, p)
			}
		case "value":
			if d := drawBadDoc(t, g, p, 3); len(d.reports) > 0 {
				bad[p] = d.doc
				broken = append(broken, p)
			}
		}
		c.LabelIf(k != "", "broken:"+k)
	}
	style, r := drawStyle(t, nil)
	pkg := func(sel func(p string) bool) []byte {
		return packageOf(g, func(p string) []byte {
			if d, ok := bad[p]; ok && sel(p) {
				return d
			}
			return good[p]
		}).bytes(style, r)
	}
	strict := drawBool(t, "strict")
	alone := map[string]error{}
	for _, p := range broken {
		_, err := decodePkg(pkg(func(q string) bool { return p == q }), strict)
		if err == nil {
			t.Fatalf("a package with the broken part %q is decoded without error (strict=%v):\n%s", p, strict, clip(string(bad[p]), 3000))
		}
		alone[p] = err
	}
	b := pkg(func(string) bool { return true })
	c.Begin("package.3mf", b)
	for i := 0; i < 3; i++ {
		c.Eval()
		var err error
		withProcs([]int{8, 1, 4}[i], func() { _, err = decodeJitter(b, strict, r) })
		if len(broken) == 0 {
			if err != nil {
				t.Fatalf("decoding a valid package failed: %v", err)
			}
			continue
		}
		if err == nil {
			t.Fatalf("a package with broken parts %q is decoded without error (strict=%v)", broken, strict)
		}
		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
			t.Fatalf("a package with broken parts %q reports a context error that nobody asked for: %v", broken, err)
		}
		var allowed []string
		anyHard := false
		for _, p := range broken {
			anyHard = anyHard || hard[p]
		}
		switch {
		case alone[""] != nil && (strict || hard[""]):
			allowed = []string{alone[""].Error()}
		case strict || anyHard:
			for _, p := range broken {
				if strict || hard[p] {
					allowed = append(allowed, alone[p].Error())
				}
			}
		default: // every error, part by part
			var all []error
			for _, p := range broken {
				all = append(all, flatten(alone[p])...)
			}
			if got, want := fmt.Sprint(flatten(err)), fmt.Sprint(all); got != want {
				t.Fatalf("the errors of the parts are not reported in order\nwant %v\ngot  %v", want, got)
			}
			c.Label("errors:all-parts")
			continue
		}
		ok := false
		for _, a := range allowed {
			ok = ok || a == err.Error()
		}
		if !ok {
			t.Fatalf("the reported error does not come from the invalid content (strict=%v)\ngot %v\nthe parts report alone: %v", strict, err, allowed)
		}
	}
	c.LabelIf(len(broken) > 1, "broken:several")
	if len(broken) > 0 && len(parts) > 2 {
		c.NonTrivial(b)
	}
	c.Sample(fmt.Sprintf("%d parts, broken %q strict=%v: %v", len(parts), broken, strict, alone))
}

// checkDecoders: decoders and encoders at work at the same time do not disturb each other.
func checkDecoders(t *rapid.T, c *C) {
	n := drawInt(t, 2, 4, "decoders")
	type job struct {
		b    []byte
		want *go3mf.Model
		save *go3mf.Model
		err  error
		got  *go3mf.Model
		back *go3mf.Model
		r    *rand.Rand
	}
	var jobs []*job
	for i := 0; i < n; i++ {
		g := drawCrowd(t, 3)
		style, r := drawStyle(t, nil)
		j := &job{want: canon(g.M), save: copyModel(g.Model()), r: r}
		j.save.Attachments = nil
		j.save.RootRelationships, j.save.Relationships, j.save.Thumbnail = nil, nil, ""
		for _, ch := range j.save.Childs {
			ch.Relationships = nil
		}
		j.b = packageOf(g, func(part string) []byte {
			return drawSpelling(t, nil).document(buildDOM(g.M, part), g.M.Extensions)
		}).bytes(style, r)
		jobs = append(jobs, j)
	}
	c.Begin("package.3mf", jobs[0].b)
	c.Eval()
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			if j.got, j.err = decodeJitter(j.b, true, j.r); j.err != nil {
				return
			}
			var out []byte
			if out, j.err = encodePkg(j.save, -1); j.err == nil {
				j.back, j.err = decodeJitter(out, true, j.r)
			}
		}(j)
	}
	wg.Wait()
	var key []byte
	for i, j := range jobs {
		if j.err != nil {
			t.Fatalf("decoder %d of %d that work at the same time: %v", i, n, j.err)
		}
		resolveRels(j.got)
		if d := diffExact(j.want, canon(j.got)); d != "" {
			t.Fatalf("decoder %d of %d that work at the same time (-want +got):\n%s", i, n, d)
		}
		// the written relationships are another property's matter
		for _, m := range []*go3mf.Model{j.want, j.back} {
			m.RootRelationships, m.Relationships, m.Thumbnail, m.Attachments = nil, nil, "", nil
			for _, ch := range m.Childs {
				ch.Relationships = nil
			}
		}
		if d := diffModels(j.want, canon(j.back), -1); d != "" {
			t.Fatalf("saving %d of %d at the same time (-want +got):\n%s", i, n, d)
		}
		key = append(key, j.b...)
	}
	c.NonTrivial(key)
	c.Sample(fmt.Sprintf("%d decoders", n))
}

func init() {
	register(&Sub{Prop: "P10", Name: "many-parts", Race: true, Rule: "packages with up to 16 child parts of random content (some with large meshes), read through a source that delays and yields, with 1, 2 and 8 processors, under the race detector, compared part by part with what the package says; non-trivial = two or more child parts", Quick: 160, Thorough: 12000, Fn: checkCrowd})
	register(&Sub{Prop: "P10", Name: "many-parts-fast", Rule: "as many-parts, without the race detector, which changes the schedules", Quick: 500, Thorough: 30000, Fn: checkCrowd})
	register(&Sub{Prop: "P10", Name: "broken-parts-fast", Rule: "as broken-parts, without the race detector", Quick: 500, Thorough: 30000, Fn: checkBadCrowd})
	register(&Sub{Prop: "P10", Name: "broken-parts", Race: true, Rule: "as many-parts with some parts cut or with bad values; the reported error is compared with what each part reports alone; non-trivial = a broken part among two or more children", Quick: 160, Thorough: 12000, Fn: checkBadCrowd})
	register(&Sub{Prop: "P10", Name: "hundreds", Rule: "as many-parts-fast with up to 900 child parts; non-trivial = two or more child parts", Quick: 120, Thorough: 8000, Fn: checkHundreds})
	register(&Sub{Prop: "P10", Name: "hundreds-broken", Rule: "as broken-parts-fast with up to 900 child parts; non-trivial = a broken part", Quick: 120, Thorough: 8000, Fn: checkBadHundreds})
	register(&Sub{Prop: "P10", Name: "many-decoders", Race: true, Rule: "two to four packages decoded, saved and decoded again at the same time, compared with their own content; each counts", Quick: 60, Thorough: 5000, Fn: checkDecoders})
}
