package main

import (
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing/iotest"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"
	"pgregory.net/rapid"
)

var errWrite = errors.New("verif: write fault")

// faultyWriter fails when the byte at offset at is written.
type faultyWriter struct {
	buf     bytes.Buffer
	at      int
	times   int // how many writes fail, <0 = all that follow
	partial bool
	hits    int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.at >= 0 && (w.hits > 0 || w.buf.Len()+len(p) > w.at) && (w.times < 0 || w.hits < w.times) {
		w.hits++
		n := 0
		if w.partial && w.hits == 1 {
			n = w.at - w.buf.Len()
			w.buf.Write(p[:n])
		}
		return n, errWrite
	}
	return w.buf.Write(p)
}

func encodeTo(w io.Writer, m *go3mf.Model, prec int) error {
	e := go3mf.NewEncoder(w)
	e.FloatPrecision = prec
	return e.Encode(m)
}

func drawSaveModel(t *rapid.T) *Gen {
	o := allOpts(-1)
	o.MaxObj = 2
	g := genModel(t, o)
	if oneIn(t, 3, "big") {
		fatten(t, g.M)
	}
	for i := range g.Atts {
		if oneIn(t, 6, "bigatt") {
			b := make([]byte, drawInt(t, 5000, 150000, "attsize"))
			_, _ = drawRand(t, "attseed").Read(b)
			g.Atts[i].data = b
		}
	}
	return g
}

func checkWriteFault(t *rapid.T, c *C) {
	g := drawSaveModel(t)
	prec := drawPrec(t)
	ok := &faultyWriter{at: -1}
	if err := encodeTo(ok, g.Model(), prec); err != nil {
		t.Fatalf("save: %v", err)
	}
	total := ok.buf.Len()
	ref, err := readPackage(ok.buf.Bytes())
	if err != nil {
		t.Fatalf("a successful save wrote an incomplete package: %v", err)
	}
	r := drawRand(t, "offsets")
	ids := givenIDs(g.M)
	for k := drawInt(t, 6, 14, "nfaults"); k > 0; k-- {
		w := &faultyWriter{times: -1, partial: r.Intn(2) == 0}
		switch r.Intn(4) {
		case 0:
			w.at = total - 1 - r.Intn(min(total, 40)) // the end of the central directory
		case 1:
			w.at = min(total-1, r.Intn(total/4096+1)*4096+r.Intn(3))
		default:
			w.at = r.Intn(total)
		}
		if r.Intn(2) == 0 {
			w.times = 1
		}
		c.Begin("fault", []byte(fmt.Sprintf("offset %d of %d", w.at, total)))
		c.Eval()
		err := encodeTo(w, g.Model(), prec)
		if w.hits == 0 { // the parts are ordered anew each time
			if err != nil {
				t.Fatalf("save fails without a fault: %v", err)
			}
			continue
		}
		if err == nil {
			v, perr := readPackage(w.buf.Bytes())
			d := fmt.Sprint(perr)
			if perr == nil {
				d = diffPackages(ref, v, ids)
			}
			t.Fatalf("writing failed at byte %d of %d (transient=%v partial=%v) but saving reports success; the file: %s", w.at, total, w.times > 0, w.partial, d)
		}
		c.LabelIf(w.times > 0, "fault:transient")
		c.LabelIf(w.times < 0, "fault:permanent")
		c.LabelIf(w.partial, "fault:partial-write")
		c.LabelIf(w.at >= total-22, "fault:end-record")
		c.LabelIf(w.at < 4096, "fault:first-buffer")
		c.NonTrivial([]byte(fmt.Sprint(w.at, w.times, w.partial, ok.buf.String())))
	}
	c.Sample(fmt.Sprintf("%d bytes: %s", total, describe(g.M)))
}

// faultyStream ends with an error.
type faultyStream struct {
	data []byte
	step int
	err  error
	with bool // the error comes with the last bytes
}

func (s *faultyStream) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, s.err
	}
	n := min(len(p), s.step, len(s.data))
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.with {
		return n, s.err
	}
	return n, nil
}

func checkStreamFault(t *rapid.T, c *C) {
	g := drawSaveModel(t)
	if len(g.Atts) == 0 {
		return
	}
	prec := drawPrec(t)
	m := g.Model()
	i := drawInt(t, 0, len(g.Atts)-1, "att")
	data := g.Atts[i].data
	cut := drawInt(t, 0, len(data), "cut")
	if oneIn(t, 4, "whole") {
		cut = len(data)
	}
	bad := pick(t, "err", errRead, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, os.ErrClosed, iotest.ErrTimeout, io.ErrShortWrite)
	m.Attachments[i].Stream = &faultyStream{append([]byte(nil), data[:cut]...), pick(t, "step", 1, 7, 512, 1<<20), bad, drawBool(t, "with")}
	for j := range m.Attachments { // other streams that deliver in odd ways
		if j != i && drawBool(t, "odd") {
			m.Attachments[j].Stream = pick[io.Reader](t, "reader", iotest.OneByteReader(bytes.NewReader(g.Atts[j].data)), iotest.DataErrReader(bytes.NewReader(g.Atts[j].data)), iotest.HalfReader(bytes.NewReader(g.Atts[j].data)))
		}
	}
	c.Begin("fault", []byte(fmt.Sprintf("attachment %d after %d of %d bytes: %v", i, cut, len(data), bad)))
	c.Eval()
	var out bytes.Buffer
	if err := encodeTo(&out, m, prec); err == nil {
		t.Fatalf("the content of attachment %d (%s) fails with %q after %d of %d bytes but saving reports success", i, g.Atts[i].path, bad, cut, len(data))
	}
	c.LabelIf(cut == len(data), "stream:after-last-byte")
	c.LabelIf(cut == 0, "stream:at-first-byte")
	c.LabelIf(i > 0, "stream:later-attachment")
	c.NonTrivial([]byte(fmt.Sprint(i, cut, bad, describe(g.M), string(data))))
	c.Sample(fmt.Sprintf("attachment %d of %d fails after %d of %d bytes: %v", i, len(g.Atts), cut, len(data), bad))
}

// brokenAsset cannot be encoded.
type brokenAsset struct {
	id   uint32
	some bool
	err  error
}

func (a *brokenAsset) XMLName() xml.Name { return xml.Name{Space: "urn:broken", Local: "broken"} }
func (a *brokenAsset) Identify() uint32  { return a.id }
func (a *brokenAsset) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
	if a.some {
		s := xml.StartElement{Name: a.XMLName()}
		x.EncodeToken(s)
		x.EncodeToken(s.End())
	}
	return a.err
}

// checkAssetFault: an asset of an extension that cannot be encoded makes saving fail.
func checkAssetFault(t *rapid.T, c *C) {
	g := drawSaveModel(t)
	m := g.Model()
	res := &m.Resources
	ps := sortedChilds(m)
	if len(ps) > 0 && drawBool(t, "child") {
		res = &m.Childs[ps[drawInt(t, 0, len(ps)-1, "which")]].Resources
	} else {
		ps = nil
	}
	a := &brokenAsset{res.UnusedID(), drawBool(t, "some"), pick(t, "err", errWrite, io.EOF, io.ErrUnexpectedEOF, context.Canceled)}
	i := drawInt(t, 0, len(res.Assets), "at")
	res.Assets = append(append(append([]go3mf.Asset{}, res.Assets[:i]...), a), res.Assets[i:]...)
	c.Begin("fault", []byte(fmt.Sprintf("asset %d of %d: %v", i, len(res.Assets), a.err)))
	c.Eval()
	if err := encodeTo(new(bytes.Buffer), m, drawPrec(t)); err == nil {
		t.Fatalf("asset %d of %d cannot be encoded (%v) but saving reports success", i, len(res.Assets), a.err)
	}
	if ps == nil {
		if _, err := go3mf.MarshalModel(m); err == nil {
			t.Fatalf("asset %d of %d cannot be encoded (%v) but MarshalModel reports success", i, len(res.Assets), a.err)
		}
	}
	c.LabelIf(ps != nil, "asset:child")
	c.NonTrivial([]byte(fmt.Sprint(i, a.err, a.some, describe(g.M))))
	c.Sample(fmt.Sprintf("asset %d of %d: %v", i, len(res.Assets), a.err))
}

// checkSaveFile saves to files, one of which cannot take any data.
func checkSaveFile(t *rapid.T, c *C) {
	g := drawSaveModel(t)
	dir, err := os.MkdirTemp("", "p09")
	if err != nil {
		t.Fatalf("HARNESS: %v", err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "out.3mf")
	if drawBool(t, "existing") { // a longer file is replaced
		if err := os.WriteFile(name, bytes.Repeat([]byte("PK\x05\x06 old "), 40000), 0o644); err != nil {
			t.Fatalf("HARNESS: %v", err)
		}
	}
	c.Begin("file", nil)
	c.Eval()
	w, err := go3mf.CreateWriter(name)
	if err != nil {
		t.Fatalf("create: %v", err)
	}
	w.FloatPrecision = -1
	if err := w.Encode(g.Model()); err != nil {
		t.Fatalf("save: %v", err)
	}
	if err := w.Close(); err != nil {
		t.Fatalf("close: %v", err)
	}
	b, err := os.ReadFile(name)
	if err != nil {
		t.Fatalf("HARNESS: %v", err)
	}
	v, err := readPackage(b)
	if err != nil {
		t.Fatalf("the saved file is incomplete: %v", err)
	}
	mem, err := encodePkg(g.Model(), -1)
	if err != nil {
		t.Fatalf("save: %v", err)
	}
	ref, err := readPackage(mem)
	if err != nil {
		t.Fatalf("the saved package is incomplete: %v", err)
	}
	if d := diffPackages(ref, v, givenIDs(g.M)); d != "" {
		t.Fatalf("the saved file differs: %s", d)
	}
	// and back
	r, err := go3mf.OpenReader(name)
	if err != nil {
		t.Fatalf("open: %v", err)
	}
	back := new(go3mf.Model)
	if err := r.Decode(back); err != nil {
		t.Fatalf("decode the saved file: %v", err)
	}
	if err := r.Close(); err != nil {
		t.Fatalf("close the saved file: %v", err)
	}
	if d := diffAttachments(g.Atts, back.Attachments); d != "" {
		t.Fatalf("the attachments of the saved file differ: %s", d)
	}
	// a full device
	f, err := go3mf.CreateWriter("/dev/full")
	if err == nil {
		if err := f.Encode(g.Model()); err == nil {
			t.Fatalf("saving to a full device reports success")
		}
		f.Close()
		c.Label("full-device")
	}
	// a file that was closed
	w, err = go3mf.CreateWriter(name)
	if err != nil {
		t.Fatalf("create: %v", err)
	}
	w.Close()
	if err := w.Encode(g.Model()); err == nil {
		t.Fatalf("saving to a closed file reports success")
	}
	// a folder that does not exist
	if w, err := go3mf.CreateWriter(filepath.Join(dir, "none", "out.3mf")); err == nil {
		t.Fatalf("a file in a folder that does not exist is created: %v", w)
	}
	if _, err := go3mf.OpenReader(filepath.Join(dir, "none.3mf")); err == nil {
		t.Fatalf("a file that does not exist is opened")
	}
	c.NonTrivial(b)
	c.Sample(fmt.Sprintf("%d bytes", len(b)))
}

func init() {
	register(&Sub{Prop: "P09", Name: "write-fault", Rule: "random models (some with large parts) saved to a writer that fails once or for good when a given byte is written; offsets everywhere, at buffer multiples and in the end records; counted when the fault was hit", Quick: 700, Thorough: 30000, Fn: checkWriteFault})
	register(&Sub{Prop: "P09", Name: "stream-fault", Rule: "random models with an attachment whose content fails after some bytes, with several errors, with or without data; each counts", Quick: 4000, Thorough: 80000, Fn: checkStreamFault})
	register(&Sub{Prop: "P09", Name: "asset-fault", Rule: "random models with an asset, in the root or a child part, that fails to be encoded, with or without some output of its own; each counts", Quick: 2500, Thorough: 60000, Fn: checkAssetFault})
	register(&Sub{Prop: "P09", Name: "files", Rule: "random models saved to scratch files, a full device and a closed file; each counts", Quick: 400, Thorough: 10000, Fn: checkSaveFile})
}
