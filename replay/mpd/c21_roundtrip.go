package mpd_test

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// diff reports the first difference between two trees: names of elements as
// read are ignored, and absent, nil and empty text and lists are the same.
func diff(a, b reflect.Value, path string) string {
	empty := func(v reflect.Value) bool {
		switch v.Kind() {
		case reflect.Ptr:
			return v.IsNil()
		case reflect.Slice:
			return v.Len() == 0
		}
		return false
	}
	if a.Type() == tAttrs {
		a, b = ownAttrs(a), ownAttrs(b)
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() && b.IsNil() {
				return ""
			}
			if strings.HasSuffix(path, "UIntPairsWithIDType.UIntVectorType") {
				x := a
				if x.IsNil() {
					x = b
				}
				if x.Elem().String() == "" {
					return ""
				}
			}
			return fmt.Sprintf("%s: set in one only", path)
		}
		return diff(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if empty(a) && empty(b) {
			return ""
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous || f.Name == "XMLName" {
				continue
			}
			// an embedded pointer without any content is the same as none
			if f.Anonymous && f.Type.Kind() == reflect.Ptr && f.Type.Elem().Kind() == reflect.Struct && (a.Field(i).IsNil() || b.Field(i).IsNil()) {
				x, y := a.Field(i), b.Field(i)
				if x.IsNil() {
					x = reflect.New(f.Type.Elem())
				}
				if y.IsNil() {
					y = reflect.New(f.Type.Elem())
				}
				if d := diff(x.Elem(), y.Elem(), path+"."+f.Name); d != "" {
					return d
				}
				continue
			}
			if d := diff(a.Field(i), b.Field(i), path+"."+a.Type().Name()+"."+f.Name); d != "" {
				return d
			}
		}
	default:
		if !a.Equal(b) {
			return fmt.Sprintf("%s: %#v and %#v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

var tAttrs = reflect.TypeOf([]xml.Attr(nil))

// ownAttrs leaves out namespace declarations, which are not content.
func ownAttrs(v reflect.Value) reflect.Value {
	var out []xml.Attr
	for _, a := range v.Interface().([]xml.Attr) {
		if a.Name.Space != "http://www.w3.org/2000/xmlns/" && !(a.Name.Space == "" && a.Name.Local == "xmlns") {
			out = append(out, a)
		}
	}
	return reflect.ValueOf(out)
}

// names presets the XMLName of SCTE-35 elements, as their constructors do.
func (h *vh) names(v reflect.Value, tag string, scte string) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			h.names(v.Elem(), tag, scte)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			h.names(v.Index(i), tag, scte)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			if f.Name == "XMLName" && f.Tag.Get("xml") == "" {
				v.Field(i).Set(reflect.ValueOf(xml.Name{Space: scte, Local: tag}))
				continue
			}
			if strings.Contains(f.Tag.Get("xml"), ",innerxml") {
				v.Field(i).SetString([]string{"", "<y:a xmlns:y=\"urn:y\"></y:a>", "text"}[h.Intn(3)])
				continue
			}
			n, _, _ := strings.Cut(f.Tag.Get("xml"), ",")
			if j := strings.LastIndexAny(n, " :"); j >= 0 {
				n = n[j+1:]
			}
			h.names(v.Field(i), n, scte)
		}
	}
}

func c21round(h *vh, m *mpd.MPD) {
	h.Case("tree %s", cut(desc(m), 20000))
	c21check(h, m)
}

func c21check(h *vh, m *mpd.MPD) {
	s, err := m.WriteToString("", false)
	h.Check(err == nil, "write: %v", err)
	g, err := mpd.ReadFromString(s)
	h.Check(err == nil, "read: %v\n%s", err, s)
	if d := diff(reflect.ValueOf(m), reflect.ValueOf(g), "MPD"); d != "" {
		h.Check(false, "written and read back: %s\n%s", d, s)
	}
	s2, err := g.WriteToString("", false)
	h.Check(err == nil && s2 == s, "written again: %v\n%s\nfirst:\n%s", err, s2, s)
}

// each gives every field of every type, as a path of an otherwise small tree.
type c21field struct {
	Type, Field string
	XML         string
}

var c21roots = []reflect.Type{reflect.TypeOf(mpd.MPD{})}

func c21types() []reflect.Type {
	seen := map[reflect.Type]bool{}
	var out []reflect.Type
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		if t.Kind() != reflect.Struct || seen[t] || t == tName || t == tAttr {
			return
		}
		seen[t] = true
		out = append(out, t)
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" || t.Field(i).Anonymous {
				walk(t.Field(i).Type)
			}
		}
	}
	for _, t := range c21roots {
		walk(t)
	}
	return out
}

// c21value is a fixed non-zero value for a field.
func c21value(v reflect.Value, tag string) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		if v.Type().Elem().Kind() != reflect.Struct {
			c21value(v.Elem(), tag)
		}
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 1, 1)
		if v.Type().Elem() == tAttr {
			s.Index(0).Set(reflect.ValueOf(xml.Attr{Name: xml.Name{Local: "other"}, Value: "v"}))
		} else if s.Index(0).Kind() == reflect.Ptr {
			s.Index(0).Set(reflect.New(v.Type().Elem().Elem()))
			if v.Type().Elem().Elem().Kind() != reflect.Struct {
				c21value(s.Index(0).Elem(), tag)
			}
		} else {
			c21value(s.Index(0), tag)
		}
		v.Set(s)
	case reflect.String:
		if strings.Contains(tag, ",innerxml") {
			v.SetString("<i></i>")
		} else {
			v.SetString("v7")
		}
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(7.5)
	default:
		if v.CanInt() {
			v.SetInt(7)
			if v.Type() == tDuration {
				v.SetInt(7000000000)
			}
		} else if v.CanUint() {
			v.SetUint(7)
		}
	}
}

func c21write(x any) string {
	b, err := xml.Marshal(x)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// c21table: the XML of an element of each type in which one field is set.
func c21table() []c21field {
	var out []c21field
	for _, t := range c21types() {
		out = append(out, c21field{t.Name(), "", c21write(reflect.New(t).Interface())})
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Name == "XMLName" || f.Anonymous && f.Type.Kind() == reflect.Struct {
				continue
			}
			p := reflect.New(t)
			c21value(p.Elem().Field(i), string(f.Tag))
			out = append(out, c21field{t.Name(), f.Name, c21write(p.Interface())})
		}
	}
	return out
}

func TestVerifC21Table(t *testing.T) {
	if p := os.Getenv("VERIF_C21_TABLE"); p != "" {
		b, _ := json.MarshalIndent(c21table(), "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
	}
}

func TestVerifC21(t *testing.T) {
	vhRun(t, "every field of every type set alone and compared with the table of schema names, read back into the same field; then generated trees with many fields, written, read, compared and written again", func(h *vh) {
		var tab []c21field
		err := json.Unmarshal([]byte(c21names), &tab)
		if err != nil {
			panic(err)
		}
		types := map[string]reflect.Type{}
		for _, t := range c21types() {
			types[t.Name()] = t
		}
		for _, c := range tab {
			t, ok := types[c.Type]
			if !ok {
				continue
			}
			p := reflect.New(t)
			if c.Field != "" {
				f, ok := t.FieldByName(c.Field)
				if !ok {
					continue
				}
				v, err := p.Elem().FieldByIndexErr(f.Index)
				if err != nil {
					continue
				}
				c21value(v, string(f.Tag))
			}
			h.Case("%s with only %s set", c.Type, c.Field)
			got := c21write(p.Interface())
			h.Check(got == c.XML, "written as %s, its schema form is %s", got, c.XML)
			q := reflect.New(t)
			err := xml.Unmarshal([]byte(got), q.Interface())
			h.Check(err == nil, "read %s: %v", got, err)
			if d := diff(p, q, c.Type); d != "" {
				h.Check(false, "read back from %s: %s", got, d)
			}
		}
		for n := 0; n < 4; n++ {
			s := xml.StartElement{Name: xml.Name{Local: "r"}}
			for i := 0; i < n; i++ {
				s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Local: fmt.Sprintf("own%d", i)}, Value: "v"})
			}
			h.Case("EncodeElement of a BaseURL with serviceLocation and byteRange, start element with %d attributes", n)
			var sb strings.Builder
			err := xml.NewEncoder(&sb).EncodeElement(&mpd.BaseURLType{ServiceLocation: "s", ByteRange: "1-2"}, s)
			h.Check(err == nil, "error %v", err)
			for i := 0; i < n; i++ {
				h.Check(strings.Contains(sb.String(), fmt.Sprintf(` own%d="v"`, i)), "attribute own%d lost: %s", i, sb.String())
			}
			h.Check(strings.Contains(sb.String(), ` serviceLocation="s"`) && strings.Contains(sb.String(), ` byteRange="1-2"`), "field lost: %s", sb.String())
		}
		for h.More() {
			depth := 1 + h.Intn(4)
			prob := []float64{0.03, 0.1, 0.3, 0.6}[h.Intn(4)]
			if depth > 2 {
				prob /= 2
			}
			m := h.tree(depth, prob)
			m.XMLNs = "urn:mpeg:dash:schema:mpd:2011"
			h.names(reflect.ValueOf(m), "MPD", []string{"http://www.scte.org/schemas/35", "http://www.scte.org/schemas/35/2016"}[h.Intn(2)])
			c21round(h, m)
		}
	})
}
