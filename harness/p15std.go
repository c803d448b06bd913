package main

import (
	"bytes"
	"container/list"
	"database/sql"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"go/token"
	"html/template"
	"image"
	"image/color"
	"io/fs"
	"log/slog"
	"math"
	"math/big"
	"net"
	"net/http"
	"net/mail"
	"net/netip"
	"net/url"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// stdValues are values of types of the standard library, the usual ones and those that some of them refuse
var stdValues = func() (res []any) {
	add := func(vs ...any) { res = append(res, vs...) }
	for _, y := range []int{-1, 0, 1, 1969, 2024, 9999, 10000, 292277} {
		for _, zone := range []int{0, 1, 59, 60, 3600, -3600, 19800, 23*3600 + 59*60, 24*3600 - 1, 24 * 3600, -24 * 3600, 25 * 3600, 45296} {
			add(time.Date(y, 2, 28, 23, 59, 59, y%1000*1000, time.FixedZone("zone", zone)))
		}
	}
	for _, ns := range []int{0, 1, 10, 100, 1000, 120000, 500000000, 999999999, 999999990} {
		add(time.Date(2023, 12, 31, 23, 59, 59, ns, time.UTC), time.Unix(int64(ns), 0), time.Unix(0, int64(ns)))
	}
	add(time.Time{}, time.Now(), time.Duration(0), time.Duration(math.MinInt64), time.Hour, time.January, time.Sunday, time.UTC, *time.UTC)
	for _, s := range []string{"0", "-1", "12345", "18446744073709551615", "-9223372036854775808"} {
		n, _ := new(big.Int).SetString(s, 10)
		f, _ := new(big.Float).SetString(s)
		add(n, *n, f, *f, big.NewRat(n.Int64(), 7))
	}
	add((*big.Int)(nil), (*big.Float)(nil), (*big.Rat)(nil), new(big.Float).SetInf(true), big.NewFloat(1e300), big.NewFloat(0.1))
	for _, n := range []int{0, 1, 4, 5, 15, 16, 17} {
		b := bytes.Repeat([]byte{200}, n)
		add(net.IP(b), net.IPMask(b), net.HardwareAddr(b), net.IPNet{IP: net.IP(b), Mask: net.IPMask(b)}, net.TCPAddr{IP: net.IP(b), Port: n, Zone: "z"}, json.RawMessage(b))
		a, _ := netip.AddrFromSlice(b)
		add(a, a.WithZone("eth0"), netip.AddrPortFrom(a, uint16(n)), netip.PrefixFrom(a, n))
	}
	add(net.IP(nil), net.IPv4(1, 2, 3, 4), net.IPv6loopback, net.Flags(3))
	for _, s := range []string{"", "null", "1", "-0", "1.50", "01", " 1", "[1, 2 ]", `{"a":null}`, `"x"`, "tru", "{}x", `"\u003c<"`} {
		add(json.RawMessage(s), json.Number(s), template.HTML(s), template.JS(s), sql.NullString{String: s, Valid: s != ""}, sql.RawBytes(s), xml.Name{Space: s, Local: "x"}, xml.CharData(s),
			errors.New(s), fmt.Errorf("a %w", errors.New(s)), mail.Address{Name: s}, http.Header{"K": {s}}, url.Values{s: {s, ""}}, http.Cookie{Name: s}, *strings.NewReplacer(s, "x"), bytes.NewBufferString(s), *bytes.NewReader([]byte(s)))
		if u, err := url.Parse("http://u:p@h:1/" + s + "?q=1#f"); err == nil {
			add(u, *u)
		}
	}
	add(json.RawMessage(nil), json.Delim('['), &json.SyntaxError{Offset: 3}, json.UnmarshalTypeError{Value: "x"})
	add(sql.NullInt64{}, sql.NullFloat64{Float64: 0.1, Valid: true}, sql.NullBool{}, sql.NullTime{Time: time.Unix(1, 0)}, sql.Null[uint8]{V: 9, Valid: true}, sql.NullByte{})
	add(slog.LevelInfo, slog.Level(-9), slog.Level(3), new(slog.LevelVar), slog.String("k", "v"), slog.IntValue(3))
	add(regexp.MustCompile(`a<b>\d+`), *regexp.MustCompile("x"), fs.FileMode(0o644), fs.ModeDir|0o755, token.Position{Filename: "f", Line: 1}, token.IDENT)
	add(image.Pt(1, -2), image.Rect(1, 2, 3, 4), color.RGBA{1, 2, 3, 4}, color.Gray16{65535}, *image.NewGray(image.Rect(0, 0, 2, 2)), *image.NewPaletted(image.Rect(0, 0, 1, 1), color.Palette{color.Black, color.Gray{3}}))
	add(&sync.Mutex{}, &sync.WaitGroup{}, &atomic.Int64{}, &atomic.Bool{}, &sync.Map{}, list.New(), list.Element{Value: 3}, *unicode.Latin, *unicode.Hex_Digit)
	add(complex(1, 2), complex64(1), make(chan int), func() {}, http.Client{}, http.Server{}, http.StatusOK, uintptr(7), &http.Request{}, struct{}{})
	inner := map[string]reenter{"b": {Name: "inner"}, "c": {Name: "other", In: map[string]reenter{"d": {Name: "innermost"}}}}
	add(reenter{Name: "outer", In: inner}, reenter{}, []reenter{{Name: "x", In: inner}, {Name: "y", In: inner}}, reenterValue{"v", []any{reenterValue{"w", nil}, inner}}, reenterText{"t", []any{&reenterText{"u", nil}, map[string]reenterText{"k": {"z", nil}}}})
	add(map[netip.Addr]int{netip.MustParseAddr("1.2.3.4"): 1}, map[time.Time]bool{time.Unix(0, 0).UTC(): true}, map[time.Duration]int{time.Second: 1}, map[time.Weekday]string{1: "m"}, map[slog.Level]int{slog.LevelWarn: 1},
		map[token.Token]int{token.ADD: 1}, map[color.RGBA]int{{}: 1}, map[bool]int{true: 1}, map[*big.Int]int{big.NewInt(5): 1}, map[time.Time]int{time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC): 1},
		map[json.Number]int{"1e5": 1, "x": 2}, map[template.HTML]int{"<": 1})
	return res
}()

// reenter imports others of its kind while it is being imported, and reads itself afterwards
type reenter struct {
	Name string
	In   map[string]reenter
}

func (n *reenter) MarshalJSON() ([]byte, error) {
	v := jv.NewObject()
	if n.In != nil {
		ptrs := map[string]*reenter{}
		for k, x := range n.In {
			ptrs[k] = &reenter{x.Name, x.In}
		}
		for _, src := range []any{n.In, ptrs} {
			in, err := jv.Import(src)
			if err != nil {
				return nil, err
			}
			v.MustSet(in).At("in")
		}
	}
	v.MustSet(n.Name).At("name")
	return v.Marshal(jv.OptDefaultStringSequence())
}

type reenterValue struct {
	name string
	in   any
}

func (n reenterValue) MarshalJSON() ([]byte, error) {
	in, err := jv.Import(map[string]any{"in": n.in})
	if err != nil {
		return nil, err
	}
	in.MustSet(n.name).At("name")
	return in.Marshal(jv.OptDefaultStringSequence())
}

type reenterText struct {
	name string
	in   any
}

func (n *reenterText) MarshalText() ([]byte, error) {
	in, err := jv.Import([]any{n.in})
	if err != nil {
		return nil, err
	}
	return []byte(in.MustMarshalString(jv.OptDefaultStringSequence()) + n.name), nil
}

var (
	jsonMarshalerType = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	textMarshalerType = reflect.TypeOf((*interface{ MarshalText() ([]byte, error) })(nil)).Elem()
)

func implementsEither(t reflect.Type) bool {
	return t.Implements(jsonMarshalerType) || t.Implements(textMarshalerType)
}

// p15Standard puts a value of the standard library into places of all kinds
func p15Standard(c *Case) {
	r := c.R
	x := stdValues[c.Index%len(stdValues)]
	v := reflect.ValueOf(x)
	t := v.Type()
	byPtr := !implementsEither(t) && implementsEither(reflect.PointerTo(t)) // only marshalled so where it has an address
	marshals := implementsEither(reflect.PointerTo(t)) || implementsEither(t) || t.Kind() == reflect.Ptr && implementsEither(t.Elem())
	box := func() reflect.Value {
		p := reflect.New(t)
		p.Elem().Set(v)
		return p
	}
	field := func(t reflect.Type, tag string) reflect.StructField {
		return reflect.StructField{Name: "F", Type: t, Tag: reflect.StructTag(tag)}
	}
	way := c.Index / len(stdValues) % 10
	if nilSlice(v, 0) {
		return // imported as an empty array
	}
	var src any
	switch way {
	case 0:
		src = box().Interface()
	case 1, 2:
		s := reflect.MakeSlice(reflect.SliceOf(t), 1+r.Intn(3), 4)
		for i := 0; i < s.Len(); i++ {
			s.Index(i).Set(v)
		}
		src = s.Interface()
		if way == 2 {
			a := reflect.New(reflect.ArrayOf(2, t))
			a.Elem().Index(1).Set(v)
			if t.Kind() != reflect.Interface && reflect.Zero(t).IsZero() && way == 2 {
				a.Elem().Index(0).Set(v)
			}
			src = a.Interface()
		}
	case 3:
		st := reflect.New(reflect.StructOf([]reflect.StructField{field(t, `json:"f"`), {Name: "Other", Type: reflect.TypeOf(1), Tag: `json:",omitempty"`}}))
		st.Elem().Field(0).Set(v)
		src = st.Interface()
	case 4:
		if marshals {
			return // what omitempty does there is not encoding/json's
		}
		st := reflect.New(reflect.StructOf([]reflect.StructField{field(t, `json:"f,omitempty"`)}))
		st.Elem().Field(0).Set(v)
		src = st.Interface()
	case 5:
		if marshals {
			return
		}
		st := reflect.New(reflect.StructOf([]reflect.StructField{field(reflect.PointerTo(t), `json:",omitempty"`)}))
		st.Elem().Field(0).Set(box())
		src = st.Interface()
	case 6:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), reflect.PointerTo(t)))
		m.SetMapIndex(reflect.ValueOf("k"), box())
		m.SetMapIndex(reflect.ValueOf(""), box())
		src = m.Interface()
	case 7:
		src = []any{map[string]any{"p": box().Interface()}, box().Interface(), 1}
	case 8:
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(1), t))
		m.SetMapIndex(reflect.ValueOf(-3), v)
		src = m.Interface()
	default:
		if byPtr {
			return
		}
		src = struct {
			A any
			B []any `json:"b"`
		}{x, []any{x, nil}}
	}
	c.Note("%T in way %d", x, way)
	if byPtr && way == 8 {
		// in a map a value has no address: it may be taken for what it is, or as if it had one
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(1), reflect.PointerTo(t)))
		m.SetMapIndex(reflect.ValueOf(-3), box())
		want1, err1 := json.Marshal(src)
		want2, err2 := json.Marshal(m.Interface())
		_, got, err := importJSON(src)
		c.Eval(1)
		if err != nil && err1 == nil && err2 == nil {
			c.Fail("Import of %T gives error %v", src, err)
		}
		if err == nil {
			g, d1, d2 := strict(c, got, "unaddressed"), "fails", "fails"
			for i, w := range [][]byte{want1, want2} {
				if t := refParse(w, false); t.ok {
					markLoose(t.v)
					*[]*string{&d1, &d2}[i] = diffOut(g, t.v, false, "$")
				}
			}
			if d1 != "" && d2 != "" {
				c.Fail("Import of %T gives %s, encoding/json %s, or of pointers %s", src, trunc(string(got), 500), trunc(string(want1), 500), trunc(string(want2), 500))
			}
		}
		c.Hit("unaddressed")
		return
	}
	if _, want := p15Check(c, src, fmt.Sprintf("%T %s", src, trunc(fmt.Sprintf("%+v", x), 500))); want != nil {
		c.Distinct(fmt.Sprintf("%T", src), string(want))
	}
	c.Hit("standard_types")
}

// nilSlice tells whether a nil slice would be marshalled
func nilSlice(v reflect.Value, depth int) bool {
	if !v.IsValid() || depth > 8 || implementsEither(v.Type()) || v.CanAddr() && implementsEither(reflect.PointerTo(v.Type())) {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && nilSlice(v.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() {
			return true
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len() && i < 20; i++ {
			if nilSlice(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if nilSlice(v.MapIndex(k), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); (f.IsExported() || f.Anonymous) && nilSlice(v.Field(i), depth+1) {
				return true
			}
		}
	}
	return false
}

// stdTypes are the types of the values above, without pointers, with the texts that encoding/json makes of them
var stdTypes = func() (res []stdType) {
	at := map[reflect.Type]int{}
	for _, x := range stdValues {
		t := reflect.TypeOf(x)
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		i, ok := at[t]
		if !ok {
			i = len(res)
			at[t] = i
			res = append(res, stdType{typ: t})
		}
		if b, err := json.Marshal(x); err == nil && len(b) < 2000 {
			res[i].texts = append(res[i].texts, string(b))
		}
	}
	return res
}()

type stdType struct {
	typ   reflect.Type
	texts []string
}

var stdTexts = []string{`null`, `true`, `0`, `1`, `-1`, `1.5`, `1e3`, `300`, `18446744073709551615`, `""`, `"x"`, `"1"`, `"null"`, `"2024-02-29T12:00:00Z"`, `"2023-02-29T12:00:00Z"`, `"2024-02-29T12:00:00.5+24:00"`, `"2024-02-29t12:00:00z"`,
	`"2024-02-29T12:00:00,5Z"`, `"10000-01-01T00:00:00Z"`, `"0000-01-01T00:00:00+23:59"`, `"1.2.3.4"`, `"01.2.3.4"`, `"::1%eth0"`, `"1.2.3.4/33"`, `"[::1]:80"`, `"INFO+2"`, `"info"`, `"0x10"`, `"1/3"`, `"1e5"`, `"Inf"`, `"a(b"`, `"AAEC"`, `"AAE"`, `"A\nAEC"`,
	`[]`, `[1,2,3]`, `[256]`, `["1"]`, `[null]`, `{}`, `{"a":1}`, `{"1":1,"2":null}`, `{"x":"1"}`, `{"1s":2}`, `{"1.2.3.4":5}`}

// p16Standard exports into destinations of the types of the standard library
func p16Standard(c *Case) {
	r := c.R
	t := stdTypes[c.Index%len(stdTypes)]
	text := stdTexts[r.Intn(len(stdTexts))]
	if len(t.texts) > 0 && r.Intn(3) > 0 {
		text = t.texts[r.Intn(len(t.texts))]
	}
	typ := t.typ
	switch r.Intn(6) {
	case 0:
		typ, text = reflect.SliceOf(typ), "["+text+",null]"
	case 1:
		typ, text = reflect.StructOf([]reflect.StructField{{Name: "F", Type: typ, Tag: `json:"f"`}, {Name: "G", Type: reflect.PointerTo(typ)}}), []string{`{"f":` + text + `}`, `{"G":` + text + `}`, `{"g":` + text + `}`, `{"f":null,"x":1}`}[r.Intn(4)]
	case 2:
		typ, text = reflect.MapOf(reflect.TypeOf(""), typ), `{"k":`+text+`}`
	case 3:
		typ = reflect.PointerTo(typ)
	}
	v, err := jv.UnmarshalString(text)
	if err != nil {
		return
	}
	c.Note("%s into %v", trunc(text, 1500), typ)
	got, want := reflect.New(typ), reflect.New(typ)
	// first one document and then another into the same destination
	for turn := 0; turn < 2; turn++ {
		err1 := v.Export(got.Interface())
		err2 := json.Unmarshal([]byte(text), want.Interface())
		c.Eval(1)
		if (err1 != nil) != (err2 != nil) {
			c.Fail("Export gives error %v, encoding/json %v", err1, err2)
		}
		if err1 != nil {
			c.Hit("both_fail")
			return
		}
		a, _ := json.Marshal(got.Interface())
		b, _ := json.Marshal(want.Interface())
		if !reflect.DeepEqual(got.Interface(), want.Interface()) && (!bytes.Equal(a, b) || len(a) == 0) && diffVal(got.Elem(), want.Elem(), "$") != "" {
			c.Fail("Export gives %s, encoding/json %s", trunc(fmt.Sprintf("%+v = %s", got.Elem(), a), 1000), trunc(fmt.Sprintf("%+v = %s", want.Elem(), b), 1000))
		}
		c.Hit("standard_types")
		c.Distinct(text, typ.String())
	}
}
