package xml_test

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/Eyevinn/dash-mpd/xml"
)

type c20in[T any] struct {
	XMLName xml.Name `xml:"r"`
	A       T        `xml:"a,attr"`
	P       *T       `xml:"p,attr"`
	E       T        `xml:"e"`
	S       []T      `xml:"s"`
}

type c20text[T any] struct {
	XMLName xml.Name `xml:"r"`
	T       T        `xml:",chardata"`
}

type c20cdata[T any] struct {
	XMLName xml.Name `xml:"r"`
	T       T        `xml:",cdata"`
}

var (
	c20int   = regexp.MustCompile(`^-?[0-9]+$`)
	c20plus  = regexp.MustCompile(`^\+[0-9]+$`)
	c20float = regexp.MustCompile(`^[-+]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?$`)
)

// c20want: value, verdict (1 must hold the value, 0 must be refused, -1 not judged).
func c20want(k reflect.Type, s string) (any, int) {
	s = strings.TrimSpace(s)
	switch k.Kind() {
	case reflect.Bool:
		switch s {
		case "true", "1":
			return true, 1
		case "false", "0":
			return false, 1
		case "T", "t", "TRUE", "True", "F", "f", "FALSE", "False":
			return nil, -1
		}
		return nil, 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		t := s
		if c20plus.MatchString(s) {
			t = s[1:]
		} else if !c20int.MatchString(s) {
			return nil, 0
		}
		x, _ := new(big.Int).SetString(t, 10)
		lim := new(big.Int).Lsh(big.NewInt(1), uint(k.Bits()-1))
		if x.Cmp(lim) >= 0 || x.Cmp(new(big.Int).Neg(lim)) < 0 {
			return nil, 0
		}
		return x.Int64(), 1
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if c20plus.MatchString(s) || strings.HasPrefix(s, "-") && strings.Trim(s[1:], "0") == "" && len(s) > 1 {
			return nil, -1
		}
		if !c20int.MatchString(s) {
			return nil, 0
		}
		x, _ := new(big.Int).SetString(s, 10)
		if x.Sign() < 0 || x.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(k.Bits()))) >= 0 {
			return nil, 0
		}
		return x.Uint64(), 1
	case reflect.Float32, reflect.Float64:
		if !c20float.MatchString(s) {
			switch strings.ToLower(strings.TrimLeft(s, "+-")) {
			case "inf", "infinity", "nan":
				return nil, -1
			}
			if strings.ContainsAny(s, "xX_") {
				return nil, -1
			}
			return nil, 0
		}
		if i := strings.IndexAny(s, "eE"); i >= 0 && len(s)-i > 7 {
			return nil, -1
		}
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return nil, -1
		}
		if k.Bits() == 32 {
			f, _ := r.Float32()
			if math.IsInf(float64(f), 0) {
				return nil, 0
			}
			return float64(f), 1
		}
		f, _ := r.Float64()
		if math.IsInf(f, 0) {
			return nil, 0
		}
		return f, 1
	}
	panic(k)
}

func c20same(v reflect.Value, want any) bool {
	switch w := want.(type) {
	case bool:
		return v.Bool() == w
	case int64:
		return v.Int() == w
	case uint64:
		return v.Uint() == w
	case float64:
		return v.Float() == w
	}
	return false
}

func c20one[T any](h *vh, s string, val T) {
	k := reflect.TypeFor[T]()
	want, verdict := c20want(k, s)
	if s == "" {
		want, verdict = reflect.Zero(k).Interface(), 2
	}
	get := func(err error, v reflect.Value, where string) {
		switch verdict {
		case 0:
			h.Check(err != nil, "%s: %q accepted for %v as %v", where, s, k, v)
		case 1:
			h.Check(err == nil, "%s: %q refused for %v: %v", where, s, k, err)
			h.Check(c20same(v, want), "%s: %q read as %v for %v, want %v", where, s, v, k, want)
		case 2:
			h.Check(err == nil && v.Interface() == want, "%s: empty text: %v %v", where, v, err)
		}
	}
	h.Case("%v %q", k, s)
	{
		x := c20in[T]{A: val}
		err := xml.Unmarshal([]byte(`<r a="`+s+`"/>`), &x)
		get(err, reflect.ValueOf(x.A), "attribute")
		x = c20in[T]{}
		err = xml.Unmarshal([]byte(`<r p="`+s+`"/>`), &x)
		if x.P == nil {
			x.P = new(T)
		}
		get(err, reflect.ValueOf(*x.P), "pointer attribute")
		x = c20in[T]{E: val}
		err = xml.Unmarshal([]byte(`<r><e>`+s+`</e></r>`), &x)
		get(err, reflect.ValueOf(x.E), "element")
		x = c20in[T]{S: []T{val}}
		slice := k.Kind() != reflect.Uint8 // a slice of bytes is text
		err = xml.Unmarshal([]byte(`<r><s>`+s+`</s><s>`+s+`</s></r>`), &x)
		if !slice {
		} else if err == nil {
			h.Check(len(x.S) == 3, "slice: %d elements", len(x.S))
			get(err, reflect.ValueOf(x.S[1]), "slice")
			get(err, reflect.ValueOf(x.S[2]), "slice")
			h.Check(reflect.DeepEqual(x.S[0], val), "slice: first element changed")
		} else {
			get(err, reflect.ValueOf(val), "slice")
		}
		y := c20text[T]{T: val}
		err = xml.Unmarshal([]byte(`<r>`+s+`</r>`), &y)
		get(err, reflect.ValueOf(y.T), "text")
		var z T
		err = xml.Unmarshal([]byte(`<r>`+s+`</r>`), &z)
		get(err, reflect.ValueOf(z), "root")
	}
	// writing
	h.Case("%v write %v", k, val)
	x := c20in[T]{A: val, P: &val, E: val}
	if k.Kind() != reflect.Uint8 {
		x.S = []T{val, val}
	}
	b, err := xml.Marshal(x)
	h.Check(err == nil, "write: %v", err)
	var back c20in[T]
	err = xml.Unmarshal(b, &back)
	h.Check(err == nil, "read back %s: %v", b, err)
	back.XMLName = x.XMLName
	if len(x.S) == 0 {
		back.S = nil
	}
	h.Check(reflect.DeepEqual(x, back), "%s read back as %v, wrote %v", b, back, x)
	y := c20text[T]{T: val}
	b, err = xml.Marshal(y)
	h.Check(err == nil, "write: %v", err)
	var yb c20text[T]
	h.Check(xml.Unmarshal(b, &yb) == nil && reflect.DeepEqual(y.T, yb.T), "text %s read back as %v, wrote %v", b, yb.T, y.T)
	c := c20cdata[T]{T: val}
	b, err = xml.Marshal(c)
	h.Check(err == nil, "write: %v", err)
	var cb c20cdata[T]
	h.Check(xml.Unmarshal(b, &cb) == nil && reflect.DeepEqual(c.T, cb.T), "cdata %s read back as %v, wrote %v", b, cb.T, c.T)
}

func c20digits(h *vh) string {
	switch h.Intn(4) {
	case 0: // around a power of two
		x := new(big.Int).Lsh(big.NewInt(1), uint([]int{7, 8, 15, 16, 31, 32, 63, 64, 53, 24}[h.Intn(10)]))
		x.Add(x, big.NewInt(int64(h.Intn(5)-2)))
		return x.String()
	case 1:
		return strconv.FormatUint(h.Uint64()>>uint(h.Intn(64)), 10)
	case 2:
		var b strings.Builder
		for n := 1 + h.Intn(25); n > 0; n-- {
			b.WriteByte(byte('0' + h.Intn(10)))
		}
		return b.String()
	}
	return strconv.Itoa(h.Intn(300))
}

func c20gen(h *vh) string {
	sp := func() string { return []string{"", "", " ", "\t", "\n", " \r\n ", "\u00a0"}[h.Intn(7)] }
	var s string
	switch h.Intn(12) {
	case 0:
		s = []string{"true", "false", "1", "0", "T", "F", "TRUE", "yes", "no", "tru", "2", "-1", "00", "01", "on", "False", "tRUE"}[h.Intn(17)]
	case 1:
		s = []string{"", " ", ".", "-", "+", "e", "1e", "0x10", "1_000", "0b1", "0o7", "1.", ".5", "1e400", "1e39", "-1e39", "3.4028235e38", "3.4028236e38", "1.8e308", "1e-400", "1e-50", "inf", "NaN", "1 2", "1,5", "--1", "+-1", "-0", "1e5", "16777217", "9007199254740993"}[h.Intn(31)]
	case 2, 3:
		s = fmt.Sprintf("%s%s.%s", []string{"", "-", "+"}[h.Intn(3)], c20digits(h), c20digits(h))
	case 4:
		s = fmt.Sprintf("%s%se%d", []string{"", "-"}[h.Intn(2)], c20digits(h), h.Intn(700)-350)
	case 5:
		s = c20digits(h)
		i := h.Intn(len(s) + 1)
		s = s[:i] + []string{"x", ".", " ", "-", "٣", "_", "e", "L"}[h.Intn(8)] + s[i:]
	case 6:
		s = strings.Map(func(r rune) rune {
			if strings.ContainsRune("<>&\"'\x00", r) || r < 32 || r > 126 {
				return -1
			}
			return r
		}, h.Lit())
	default:
		s = []string{"", "", "-", "+", "0", "-0"}[h.Intn(6)] + c20digits(h)
	}
	if s == "" {
		return s
	}
	return sp() + s + sp()
}

func TestVerifC20(t *testing.T) {
	vhRun(t, "texts around every width limit, signs, leading zeros, white space, exponents and malformed texts into every integer, float and boolean kind as attribute, pointer, element, slice, text and root; random and extreme values written and read back", func(h *vh) {
		for h.More() {
			s := c20gen(h)
			u := h.Uint64() >> uint(h.Intn(64))
			if h.Intn(3) == 0 {
				u = []uint64{0, 1, math.MaxInt64, math.MaxUint64, 1 << 63, math.MaxInt32, math.MaxUint32, 127, 128, 255, 256, 65535, 32768}[h.Intn(13)]
			}
			c20one(h, s, int(u))
			c20one(h, s, int8(u))
			c20one(h, s, int16(u))
			c20one(h, s, int32(u))
			c20one(h, s, int64(u))
			c20one(h, s, uint(u))
			c20one(h, s, uint8(u))
			c20one(h, s, uint16(u))
			c20one(h, s, uint32(u))
			c20one(h, s, u)
			c20one(h, s, uintptr(u))
			c20one(h, s, u&1 == 1)
			f := math.Float64frombits(u)
			g := math.Float32frombits(uint32(u))
			switch h.Intn(4) {
			case 0:
				f, g = float64(u)/1000, float32(u)/1000
			case 1:
				f, g = float64(int64(u)), float32(int64(u))
			}
			if f != f {
				f = 0.1
			}
			if g != g {
				g = 0.1
			}
			c20one(h, s, f)
			c20one(h, s, g)
		}
	})
}
