package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
	"pgregory.net/rapid"
)

// The library looks at the context every 1000 tokens or faces. "Enough input" is
// generous: five times as much, "promptly" is as generous.
const enoughTokens = 5000

var errStop = errors.New("verif: stopped by the caller")

// ownContext is a context that is not one of package context.
type ownContext struct {
	context.Context
	mu   sync.Mutex
	err  error
	done chan struct{}
}

func (o *ownContext) Done() <-chan struct{} { return o.done }
func (o *ownContext) Err() error {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.err
}
func (o *ownContext) stop() {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.err == nil {
		o.err = errStop
		close(o.done)
	}
}

type ctxKey struct{}

// drawContext returns a context, a function that ends it and waits until it has, and a clean-up.
func drawContext(t *rapid.T, c *C) (ctx context.Context, end, free func()) {
	kind := pick(t, "context", "cancel", "cancel", "deadline", "own", "child", "elsewhere")
	if c != nil {
		c.Label("context:" + kind)
	}
	switch kind {
	case "deadline":
		// the clock is not waited for until the end is asked for
		inner, cancel := context.WithCancel(context.Background())
		o := &ownContext{Context: inner, done: make(chan struct{})}
		return o, func() {
			d, stop := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
			defer stop()
			o.mu.Lock()
			defer o.mu.Unlock()
			if o.err == nil {
				o.err = d.Err()
				close(o.done)
			}
		}, cancel
	case "own":
		o := &ownContext{Context: context.Background(), done: make(chan struct{})}
		return o, o.stop, func() {}
	case "child":
		p, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, 1))
		ctx, c2 := context.WithTimeout(context.WithValue(p, ctxKey{}, 2), time.Hour)
		return ctx, cancel, func() { c2(); cancel() }
	case "elsewhere":
		ctx, cancel := context.WithCancel(context.Background())
		return ctx, func() { go cancel(); <-ctx.Done() }, cancel
	}
	ctx, cancel := context.WithCancel(context.Background())
	return ctx, cancel, cancel
}

// units are contents that repeat; each holds as many '<' as stated and is cheap to decode.
type unit struct {
	name, open, text, close string
}

var units = []unit{
	{"vertices", `<object id="1"><mesh><vertices>`, `<vertex x="1" y="2.5" z="-3"/>`, `</vertices><triangles></triangles></mesh></object>`},
	{"triangles", `<object id="1"><mesh><vertices></vertices><triangles>`, `<triangle v1="1" v2="2" v3="3"/>`, `</triangles></mesh></object>`},
	{"components", `<object id="1"><components>`, `<component objectid="7"/>`, `</components></object>`},
	{"objects", ``, `<object id="1"><mesh/></object>`, ``},
	{"unknown-siblings", `<object id="1"/><q:w xmlns:q="http://u/q">`, `<q:x/>`, `</q:w>`},
	{"unknown-text", `<object id="1"/><q:w xmlns:q="http://u/q">`, `<q:x>a</q:x>b`, `</q:w>`},
	{"comments", `<object id="1"/>`, `<!-- c --> <!-- d -->`, ``},
	{"slices", `<s:slicestack xmlns:s="` + nsSlic + `" id="3"><s:slice ztop="1"><s:vertices>`, `<s:vertex x="1" y="2"/>`, `</s:vertices></s:slice></s:slicestack>`},
	{"colors", `<m:colorgroup xmlns:m="` + nsMat + `" id="3">`, `<m:color color="#102030"/>`, `</m:colorgroup>`},
	{"beams", `<object id="1"><mesh><vertices></vertices><triangles></triangles><b:beamlattice xmlns:b="` + nsBeam + `" minlength="1" radius="1"><b:beams>`, `<b:beam v1="0" v2="1"/>`, `</b:beams></b:beamlattice></mesh></object>`},
}

func (u unit) doc(n int, bad bool) []byte {
	var b strings.Builder
	attr := ""
	if bad {
		attr = ` unit="parsec"`
	}
	b.WriteString(`<?xml version="1.0"?>` + "\n" + `<model xmlns="` + nsCore + `"` + attr + `><resources>` + u.open)
	b.WriteString(strings.Repeat(u.text, n))
	b.WriteString(u.close + `</resources><build/></model>`)
	return []byte(b.String())
}

// endAt ends a context when a read reaches an offset, and counts what is read afterwards.
type endAt struct {
	b     []byte
	at    int
	end   func()
	once  sync.Once
	ended atomic.Bool
	after atomic.Int64
}

func (e *endAt) ReadAt(p []byte, off int64) (int, error) {
	if e.at >= 0 && int(off) <= e.at && e.at < int(off)+len(p) && e.end != nil {
		e.once.Do(func() { e.end(); e.ended.Store(true) })
	}
	n, err := bytes.NewReader(e.b).ReadAt(p, off)
	if e.ended.Load() && e.after.Add(int64(n)) > 1<<16 {
		// a foreign context reaches the readers of the parts by way of a goroutine
		time.Sleep(10 * time.Millisecond)
	}
	return n, err
}

func checkCancelPackage(t *rapid.T, c *C) {
	r := drawRand(t, "seed")
	p := &outPkg{rels: map[string][]outRel{}}
	strict := drawBool(t, "strict")
	p.rels[""] = []outRel{{"r0", rel3D, "/3D/3dmodel.model"}}
	n := pick(t, "parts", 1, 1, 2, 3, 5)
	target := drawInt(t, 0, n-1, "target")
	promptly := oneIn(t, 6, "promptly")
	var longest, count int
	for i := 0; i < n; i++ {
		u := units[r.Intn(len(units))]
		k := r.Intn(40)
		if i == target || r.Intn(4) == 0 {
			k = 2000 + r.Intn(8000)
			if promptly {
				k = 25000
			}
		}
		doc := u.doc(k, !strict && r.Intn(3) == 0)
		name := "/3D/3dmodel.model"
		if i > 0 {
			name = fmt.Sprintf("/3D/part%d.model", i)
			p.rels["/3D/3dmodel.model"] = append(p.rels["/3D/3dmodel.model"], outRel{fmt.Sprintf("r%d", i), rel3D, name})
		}
		if i == target {
			c.Label("content:" + u.name)
			longest, count = len(u.text), strings.Count(u.text, "<")
		}
		p.parts = append(p.parts, outPart{name, ctModel, doc})
	}
	if drawBool(t, "attachment") {
		p.parts = append(p.parts, outPart{"/Metadata/thumbnail.png", "image/png", bytes.Repeat([]byte("x"), r.Intn(20000))})
		p.rels["/3D/3dmodel.model"] = append(p.rels["/3D/3dmodel.model"], outRel{"rt", relThumb, "/Metadata/thumbnail.png"})
	}
	b := p.bytes(pkgStyle{}, r)
	sp := partSpans(b, []string{p.parts[target].name})[0]
	decode := func(ctx context.Context, rd *endAt) (*go3mf.Model, error) {
		d := go3mf.NewDecoder(rd, int64(len(b)))
		d.Strict = strict
		m := new(go3mf.Model)
		if ctx == nil {
			return m, d.Decode(m)
		}
		return m, d.DecodeContext(ctx, m)
	}
	c.Begin("package.3mf", b)
	plain, perr := decode(nil, &endAt{b: b, at: -1})
	same := func(m *go3mf.Model, err error) string {
		if fmt.Sprint(err) != fmt.Sprint(perr) {
			return fmt.Sprintf("error %v instead of %v", err, perr)
		}
		if d := diffExact(canon(plain), canon(m)); d != "" {
			return d
		}
		return ""
	}
	ctx, end, free := drawContext(t, c)
	defer free()
	rd := &endAt{b: b, end: end, at: sp.lo + r.Intn(sp.hi-sp.lo)}
	mode := pick(t, "when", "before", "during", "during", "during", "never")
	c.Label("when:" + mode)
	c.Eval()
	switch mode {
	case "before":
		rd.at = -1
		end()
	case "during":
		if drawBool(t, "early") {
			rd.at = sp.lo + r.Intn(min(200, sp.hi-sp.lo))
		}
	case "never":
		rd.at = -1
	}
	m, err := decode(ctx, rd)
	c.End()
	switch mode {
	case "never":
		if d := same(m, err); d != "" {
			t.Fatalf("decoding under a context that never ends differs from decoding without one: %s", d)
		}
	case "before":
		if !errors.Is(err, ctx.Err()) {
			t.Fatalf("decoding under a context that has ended (%v) returns %v (%d parts, strict=%v)", ctx.Err(), err, n, strict)
		}
	case "during":
		if !rd.ended.Load() {
			t.Fatalf("decoded without reading byte %d of the part %s", rd.at-sp.lo, p.parts[target].name)
		}
		left := bytes.Count(b[min(rd.at+8192, sp.hi):sp.hi], []byte("<"))
		switch {
		case errors.Is(err, ctx.Err()):
			c.LabelIf(target == 0, "ended-in-root")
			c.LabelIf(target > 0, "ended-in-child")
		case left >= enoughTokens:
			t.Fatalf("the context ends (%v) with %d tokens of %s left, decoding returns %v (%d parts, strict=%v)", ctx.Err(), left, p.parts[target].name, err, n, strict)
		default:
			if d := same(m, err); d != "" {
				t.Fatalf("the context ends too late to matter, but the result differs: %s", d)
			}
		}
		if bound := n*(enoughTokens*longest/count+1<<16) + 25000; promptly && left >= enoughTokens && int(rd.after.Load()) > bound {
			t.Fatalf("after the context ended %d more bytes are read", rd.after.Load())
		}
	}
	if mode != "never" || n > 1 {
		c.NonTrivial([]byte(fmt.Sprint(n, target, mode, rd.at, len(b), strict)))
	}
	c.Sample(fmt.Sprintf("%d parts, context ends %s at byte %d of %d of %s, strict=%v: %v", n, mode, rd.at-sp.lo, sp.hi-sp.lo, p.parts[target].name, strict, err))
}

func checkCancelSTL(t *rapid.T, c *C) {
	r := drawRand(t, "seed")
	n := r.Intn(30)
	if !oneIn(t, 4, "small") {
		n = 3000 + r.Intn(6000)
	}
	fs := make([]facet, n)
	for i := range fs {
		k := r.Intn(50)
		fs[i] = facet{{float32(k), 0, 0}, {float32(k), 1, 0}, {float32(r.Intn(20)), 0, 1}}
	}
	text := drawBool(t, "text")
	var b []byte
	if text {
		b = asciiStyle{nl: "\n", indent: []string{" "}, sep: []string{" "}, solids: 1}.bytes(fs, r)
	} else {
		b = binarySTL(make([]byte, 80), fs, r)
	}
	c.LabelIf(text, "ascii")
	ctx, end, free := drawContext(t, c)
	defer free()
	mode := pick(t, "when", "before", "during", "during", "never")
	c.Label("when:" + mode)
	at := r.Intn(len(b))
	done := -1
	rd := &stlReader{b: b, mode: pick(t, "reader", 0, 2, 4), r: r}
	if mode == "during" {
		rd.hook = func(pos int) {
			if pos >= at && done < 0 {
				done = pos
				end()
			}
		}
	} else if mode == "before" {
		end()
	}
	before := new(go3mf.Model)
	m := new(go3mf.Model)
	c.Begin("data.stl", b)
	c.Eval()
	err := stl.NewDecoder(rd).DecodeContext(ctx, m)
	c.End()
	switch mode {
	case "before":
		if !errors.Is(err, ctx.Err()) {
			t.Fatalf("import under a context that has ended (%v) returns %v (%d facets)", ctx.Err(), err, n)
		}
	case "never":
		if err != nil {
			t.Fatalf("import under a context that never ends: %v", err)
		}
	default:
		if done < 0 { // it was read at once
			if err != nil {
				t.Fatalf("import under a context that never ends: %v", err)
			}
			break
		}
		left := (len(b) - done) * n / len(b)
		if !errors.Is(err, ctx.Err()) && (err != nil || left >= 2*1000) {
			t.Fatalf("the context ends (%v) with %d facets left, import returns %v", ctx.Err(), left, err)
		}
		if err != nil && left >= 2*enoughTokens && rd.pos-done > enoughTokens*(len(b)/n+1)+1<<16 {
			t.Fatalf("after the context ended %d more bytes are read", rd.pos-done)
		}
	}
	if err != nil {
		if e := unchanged(before, m, 0); e != nil {
			t.Fatalf("%v", e)
		}
	} else if e := checkImported(before, m, fs, 0); e != nil {
		t.Fatalf("%v", e)
	}
	if n > 1000 {
		c.NonTrivial([]byte(fmt.Sprint(n, mode, at, text)))
	}
	c.Sample(fmt.Sprintf("%d facets, ascii=%v, context ends %s at %d of %d bytes: %v", n, text, mode, done, len(b), err))
}

func init() {
	register(&Sub{Prop: "P11", Name: "package", Rule: "packages of one to five model parts filled with one of ten kinds of repeated content (25000 units when promptness is measured); the context is cancelled, runs out, or is of a foreign type, before the decoding, when a chosen byte of a chosen part is read, or never; non-trivial = it ends, or several parts",
		Quick: 1200, Thorough: 60000, Fn: checkCancelPackage})
	register(&Sub{Prop: "P11", Name: "stl", Rule: "binary and ASCII STL files of up to 9000 facets, context ending as in package; non-trivial = more than 1000 facets",
		Quick: 1500, Thorough: 80000, Fn: checkCancelSTL})
}
