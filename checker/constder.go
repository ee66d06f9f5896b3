package main

import (
	"encoding/asn1"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"time"
)

// derType is the run-time type that encoding/asn1 treats like t; nil if t is not supported.
func derType(t types.Type) reflect.Type {
	switch typeName(t) {
	case "encoding/asn1.RawValue":
		return reflect.TypeOf(asn1.RawValue{})
	case "encoding/asn1.RawContent":
		return reflect.TypeOf(asn1.RawContent{})
	case "encoding/asn1.BitString":
		return reflect.TypeOf(asn1.BitString{})
	case "encoding/asn1.ObjectIdentifier":
		return reflect.TypeOf(asn1.ObjectIdentifier{})
	case "time.Time":
		return reflect.TypeOf(time.Time{})
	}
	if strings.HasSuffix(typeName(t), "SET") {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if tstr(t) == "*math/big.Int" {
			return reflect.TypeOf(&big.Int{})
		}
	case *types.Slice:
		if el := derType(u.Elem()); el != nil {
			return reflect.SliceOf(el)
		}
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			ft := derType(u.Field(i).Type())
			if ft == nil {
				return nil
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: ft, Tag: reflect.StructTag(u.Tag(i))})
		}
		return reflect.StructOf(fs)
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.TypeOf(false)
		case types.Int:
			return reflect.TypeOf(0)
		case types.Int64:
			return reflect.TypeOf(int64(0))
		case types.Uint8:
			return reflect.TypeOf(byte(0))
		case types.String:
			return reflect.TypeOf("")
		}
	}
	return nil
}

// derTerm is the term of a constant decoded; nil if it has none.
func derTerm(e *Engine, st *State, site string, t types.Type, v reflect.Value) *Term {
	n := 0
	slice := func(s *Term) *Term {
		n++
		return e.newSlice(st, fmt.Sprint("der:", site, ":", n, s.str(4)), s)
	}
	switch v.Kind() {
	case reflect.Bool:
		return cbool(v.Bool())
	case reflect.Int, reflect.Int64:
		return ci(v.Int())
	case reflect.String:
		return cbytes(v.String())
	case reflect.Slice:
		if v.IsNil() {
			return zeroValue(t)
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return slice(cbytes(string(v.Bytes())))
		}
		if o, ok := v.Interface().(asn1.ObjectIdentifier); ok {
			var el []*Term
			for _, x := range o {
				el = append(el, ci(int64(x)))
			}
			return slice(mkList(el, false))
		}
	case reflect.Struct:
		r := zeroValue(t)
		s := structType(t)
		if s == nil || s.NumFields() != v.NumField() {
			return nil
		}
		for i := 0; i < v.NumField(); i++ {
			f := derTerm(e, st, fmt.Sprint(site, ".", i), s.Field(i).Type(), v.Field(i))
			if f == nil {
				return nil
			}
			r = setFld(r, t, i, f)
		}
		return r
	}
	return nil
}

// constDER decodes a constant; known tells whether it could.
func constDER(e *Engine, st *State, site string, t types.Type, s *Term) (v, rest *Term, ok, known bool) {
	if s.op != "bytes" || s == tEmpty {
		return
	}
	rt := derType(t)
	if rt == nil {
		return
	}
	p := reflect.New(rt)
	r, err := asn1.Unmarshal([]byte(s.s), p.Interface())
	if err != nil {
		return nil, nil, false, true
	}
	v = derTerm(e, st, site, t, p.Elem())
	return v, cbytes(string(r)), true, v != nil
}
