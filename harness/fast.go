package main

import (
	"bytes"
	"math"
	"reflect"
	"sync"
	"unsafe"

	"github.com/hpinc/go3mf"
)

// Fast paths for copying and comparing models. eq only says yes when the
// slow comparison would; when it says no, the slow one decides and explains.

var flatTypes sync.Map

// flat reports whether the values of a type are their own bytes.
func flat(t reflect.Type) bool {
	if v, ok := flatTypes.Load(t); ok {
		return v.(bool)
	}
	r := false
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		r = true
	case reflect.Array:
		r = flat(t.Elem())
	case reflect.Struct:
		r = true
		var size uintptr
		for i := 0; i < t.NumField(); i++ {
			r = r && flat(t.Field(i).Type)
			size += t.Field(i).Type.Size()
		}
		r = r && size == t.Size() // no padding
	}
	flatTypes.Store(t, r)
	return r
}

func flatBytes(v reflect.Value) []byte {
	if v.Len() == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(v.UnsafePointer()), v.Len()*int(v.Type().Elem().Size()))
}

var matrixType = reflect.TypeOf(go3mf.Matrix{})
var modelType = reflect.TypeOf(go3mf.Model{})

// eq compares with the tolerance of a precision, or without one.
type eq struct {
	tol    bool
	prec   int
	strict bool // nothing at all may differ: order, nil and empty, the bits of numbers
}

func (e eq) equal(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return e.equal(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return e.equal(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() || (e.strict && a.IsNil() != b.IsNil()) {
			return false
		}
		if e.strict && flat(a.Type().Elem()) {
			return bytes.Equal(flatBytes(a), flatBytes(b))
		}
		if et := a.Type().Elem(); flat(et) && et.Kind() != reflect.Float32 && bytes.Equal(flatBytes(a), flatBytes(b)) && !hasNaN(a) {
			return true
		}
		for i := 0; i < a.Len(); i++ {
			if !e.equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() || (e.strict && a.IsNil() != b.IsNil()) {
			return false
		}
		for _, k := range a.MapKeys() {
			w := b.MapIndex(k)
			if !w.IsValid() || !e.equal(a.MapIndex(k), w) {
				return false
			}
		}
		return true
	case reflect.Array:
		if a.Type() == matrixType && !e.strict {
			ma, mb := [16]float32{}, [16]float32{}
			for i := range ma {
				ma[i], mb[i] = float32(a.Index(i).Float()), float32(b.Index(i).Float())
			}
			return ma == mb || (isIdentity(ma) && isIdentity(mb)) || (e.tol && matrixClose(ma, mb))
		}
		for i := 0; i < a.Len(); i++ {
			if !e.equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Name
			if t == modelType && (n == "Attachments" || n == "Path" && !e.strict) {
				continue
			}
			if !e.strict && n == "Relationships" || !e.strict && n == "RootRelationships" {
				if !sameRels(a.Field(i), b.Field(i)) {
					return false
				}
				continue
			}
			if t.Field(i).PkgPath != "" {
				continue
			}
			if !e.equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Float32:
		if e.strict {
			return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
		}
		return a.Float() == b.Float() || (e.tol && floatClose(float32(a.Float()), float32(b.Float()), e.prec))
	case reflect.Float64:
		return a.Float() == b.Float()
	}
	return false
}

// sameRels compares lists of relationships in any order.
func sameRels(a, b reflect.Value) bool {
	x, ok := a.Interface().([]go3mf.Relationship)
	y, ok2 := b.Interface().([]go3mf.Relationship)
	if !ok || !ok2 || len(x) != len(y) {
		return false
	}
	n := map[go3mf.Relationship]int{}
	for i := range x {
		n[x[i]]++
		n[y[i]]--
	}
	for _, k := range n {
		if k != 0 {
			return false
		}
	}
	return true
}

func hasNaN(v reflect.Value) bool {
	// a NaN equals nothing; look for one in the four byte words of the flat elements
	b := flatBytes(v)
	for i := 0; i+3 < len(b); i += 4 {
		w := uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
		if w&0x7f800000 == 0x7f800000 && w&0x007fffff != 0 {
			return true // or an integer that looks like one: compare element by element
		}
	}
	return false
}

func sameModels(a, b *go3mf.Model, e eq) bool {
	return a != nil && b != nil && e.equal(reflect.ValueOf(a), reflect.ValueOf(b))
}
