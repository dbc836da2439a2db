package main

import (
	"bytes"
	"fmt"
	"go/token"
	"io"
	"math"
	"sort"
	"strings"

	"github.com/google/go-cmp/cmp"
	"github.com/google/go-cmp/cmp/cmpopts"
	"github.com/hpinc/go3mf"
)

func ulp32(v float64) float64 {
	f := float32(math.Abs(v))
	n := math.Nextafter32(f, float32(math.Inf(1)))
	if math.IsInf(float64(n), 0) {
		n, f = f, math.Nextafter32(f, 0)
	}
	return float64(n) - float64(f)
}

// floatClose accepts rounding to prec decimals (prec < 0: exact).
func floatClose(a, b float32, prec int) bool {
	if a == b {
		return true
	}
	if prec < 0 {
		return false
	}
	d := math.Abs(float64(a) - float64(b))
	return d <= 0.5*math.Pow10(-prec)*(1+1e-9)+ulp32(math.Max(math.Abs(float64(a)), math.Abs(float64(b))))
}

func isIdentity(m go3mf.Matrix) bool {
	return m == go3mf.Matrix{} || m == go3mf.Identity()
}

func matrixClose(a, b go3mf.Matrix) bool {
	if a == (go3mf.Matrix{}) {
		a = go3mf.Identity()
	}
	if b == (go3mf.Matrix{}) {
		b = go3mf.Identity()
	}
	for i := range a {
		if !floatClose(a[i], b[i], 3) {
			return false
		}
	}
	return true
}

// ignoreUnexported: only the exported fields are the model.
var ignoreUnexported = cmp.FilterPath(func(p cmp.Path) bool {
	f, ok := p.Last().(cmp.StructField)
	return ok && !token.IsExported(f.Name())
}, cmp.Ignore())

type cmpOpt struct {
	prec       int
	ignorePath bool
}

func modelOpts(o cmpOpt) cmp.Options {
	return cmp.Options{
		cmpopts.EquateEmpty(),
		cmp.Comparer(func(a, b float32) bool { return floatClose(a, b, o.prec) }),
		cmp.Comparer(matrixClose),
		ignoreUnexported,
		cmpopts.IgnoreFields(go3mf.Model{}, "Attachments", "Path"),
		cmp.FilterPath(func(p cmp.Path) bool {
			f, ok := p.Last().(cmp.StructField)
			return ok && (f.Name() == "Relationships" || f.Name() == "RootRelationships")
		}, cmpopts.SortSlices(func(a, b go3mf.Relationship) bool {
			return a.Path+"\x00"+a.Type < b.Path+"\x00"+b.Type
		})),
	}
}

func diffAny(want, got any, prec int) string {
	return cmp.Diff(want, got, modelOpts(cmpOpt{prec: prec}))
}

// diffModels compares everything but attachments; "" means equal.
func diffModels(want, got *go3mf.Model, prec int) string {
	if sameModels(want, got, eq{tol: true, prec: prec}) {
		return ""
	}
	if d := cmp.Diff(want, got, modelOpts(cmpOpt{prec: prec})); d != "" {
		return "models differ (-want +got):\n" + clip(d, 6000)
	}
	return ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

func diffAttachments(want []att, got []go3mf.Attachment) string {
	w := append([]att{}, want...)
	sort.Slice(w, func(i, j int) bool { return w[i].path < w[j].path })
	type ga struct {
		path, ct string
		data     []byte
	}
	var gs []ga
	for _, a := range got {
		if a.Stream == nil {
			return fmt.Sprintf("attachment %s has no stream", a.Path)
		}
		b, err := io.ReadAll(a.Stream)
		if err != nil {
			return fmt.Sprintf("attachment %s: %v", a.Path, err)
		}
		gs = append(gs, ga{a.Path, a.ContentType, b})
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].path < gs[j].path })
	if len(w) != len(gs) {
		return fmt.Sprintf("attachments: want %d got %d", len(w), len(gs))
	}
	for i := range w {
		if w[i].path != gs[i].path {
			return fmt.Sprintf("attachment path: want %q got %q", w[i].path, gs[i].path)
		}
		if !strings.EqualFold(w[i].ct, gs[i].ct) {
			return fmt.Sprintf("attachment %s content type: want %q got %q", w[i].path, w[i].ct, gs[i].ct)
		}
		if !bytes.Equal(w[i].data, gs[i].data) {
			return fmt.Sprintf("attachment %s bytes differ: want %d bytes got %d bytes", w[i].path, len(w[i].data), len(gs[i].data))
		}
	}
	return ""
}

// describe prints a model for samples and replays.
func describe(m *go3mf.Model) string {
	var b strings.Builder
	fmt.Fprintf(&b, "model path=%q units=%v lang=%q thumb=%q ext=%d md=%d assets=%d objs=%d items=%d childs=%d rels=%d/%d any=%d", m.Path, m.Units, clip(m.Language, 20), m.Thumbnail,
		len(m.Extensions), len(m.Metadata), len(m.Resources.Assets), len(m.Resources.Objects), len(m.Build.Items), len(m.Childs), len(m.RootRelationships), len(m.Relationships), len(m.Any))
	return b.String()
}
