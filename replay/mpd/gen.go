package mpd_test

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// xmlText is random text made of characters XML allows.
func (h *vh) xmlText(max int) string {
	if h.Intn(8) == 0 {
		if s := h.Lit(); validXML(s) {
			return s
		}
	}
	const al = "abcXYZ019 -_.:;/$,%&<>\"'\t\n]é漢😀\u00a0"
	rs := []rune(al)
	n := h.Intn(max + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[h.Intn(len(rs))])
	}
	return b.String()
}

func validXML(s string) bool {
	for _, r := range s {
		if r == 0xfffd || r == '\r' || r < 0x20 && r != '\t' && r != '\n' || r == 0xfffe || r == 0xffff {
			return false
		}
	}
	return true
}

func (h *vh) token(max int) string {
	const al = "abcXYZ019-_.:/"
	n := 1 + h.Intn(max)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(al[h.Intn(len(al))])
	}
	return b.String()
}

// edge is a number that often sits at a limit.
func (h *vh) edge(bits uint, signed bool) uint64 {
	m := uint64(1)<<bits - 1
	if bits == 64 {
		m = math.MaxUint64
	}
	switch h.Intn(7) {
	case 6:
		return h.LitInt() & m
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return m
	case 3:
		return m >> 1
	case 4:
		return (m >> 1) + 1
	}
	return h.Uint64() & m >> uint(h.Intn(int(bits)))
}

var (
	tDuration = reflect.TypeOf(mpd.Duration(0))
	tAttr     = reflect.TypeOf(xml.Attr{})
	tName     = reflect.TypeOf(xml.Name{})
)

// fill sets exported fields at random, to the given depth.
func (h *vh) fill(v reflect.Value, depth int, p float64) {
	switch v.Kind() {
	case reflect.Ptr:
		if depth <= 0 && v.Type().Elem().Kind() == reflect.Struct {
			return
		}
		n := reflect.New(v.Type().Elem())
		h.fill(n.Elem(), depth-1, p)
		v.Set(n)
	case reflect.Slice:
		if e := v.Type().Elem(); depth <= 0 || depth <= 1 && e.Kind() == reflect.Ptr && e.Elem().Kind() == reflect.Struct {
			return
		}
		n := 1 + h.Intn(2)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			h.fill(s.Index(i), depth-1, p)
		}
		v.Set(s)
	case reflect.Struct:
		if v.Type() == tName {
			return
		}
		if v.Type() == tAttr {
			v.Set(reflect.ValueOf(xml.Attr{Name: xml.Name{Space: []string{"", "urn:x", "urn:y"}[h.Intn(3)], Local: "x" + fmt.Sprint(h.Intn(100000))}, Value: h.xmlText(5)}))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous || f.Tag.Get("xml") == "-" {
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Struct || h.Float64() < p {
				if v.Field(i).CanSet() {
					h.fill(v.Field(i), depth, p)
				}
			}
		}
	case reflect.String:
		v.SetString(h.xmlText(6))
	case reflect.Bool:
		v.SetBool(h.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := uint(v.Type().Bits())
		if v.Type() == tDuration {
			v.SetInt(int64(h.Intn(1e9)) * 1e6)
			return
		}
		x := int64(h.edge(b, true) << (64 - b))
		v.SetInt(x >> (64 - b))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(h.edge(uint(v.Type().Bits()), false))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(h.Intn(2000000)-1000000) / 1000)
	}
}

// desc prints a tree with pointers followed.
func desc(x any) string {
	var b strings.Builder
	descV(&b, reflect.ValueOf(x))
	return b.String()
}

func descV(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		descV(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous || v.Field(i).IsZero() || f.Type.Kind() == reflect.Slice && v.Field(i).Len() == 0 {
				continue
			}
			var s strings.Builder
			descV(&s, v.Field(i))
			if s.String() == f.Type.Name()+"{}" {
				continue
			}
			b.WriteString(f.Name + ":" + s.String())
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			descV(b, v.Index(i))
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		if v.CanInt() {
			fmt.Fprint(b, v.Int())
		} else if v.CanUint() {
			fmt.Fprint(b, v.Uint())
		} else if v.CanFloat() {
			fmt.Fprint(b, v.Float())
		} else if v.Kind() == reflect.Bool {
			fmt.Fprint(b, v.Bool())
		} else {
			b.WriteString("?")
		}
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// scribble changes everything reachable through exported fields.
func (h *vh) scribble(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			h.scribble(v.Elem(), depth)
		} else if v.CanSet() && depth > 0 {
			v.Set(reflect.New(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath == "" && v.Field(i).CanSet() {
				h.scribble(v.Field(i), depth-1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			h.scribble(v.Index(i), depth-1)
		}
	case reflect.String:
		v.SetString(v.String() + "~")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1)
	}
}
