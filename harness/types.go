package main

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Random Go types and values, for importing and exporting.

// ---------------------------------------------------------------- specs of types

type tSpec struct {
	leaf   *leafType
	kind   reflect.Kind
	elem   *tSpec
	key    reflect.Type
	n      int
	fields []*fSpec
}

type fSpec struct {
	name     string // Go name
	json     string // name in the tag, "" for none
	omit     bool
	str      bool
	dash     bool
	private  bool
	embedded bool
	t        *tSpec
}

// leafType is a type which is not made by reflection
type leafType struct {
	name string
	typ  reflect.Type
	fill func(r *rand.Rand, v reflect.Value, x *fillCtx)
	mars bool // has marshalers of its own
	addr bool // has marshalers with pointer receivers, which encoding/json sees only at an address
	isV  bool
}

var leaves []*leafType
var leafByType = map[reflect.Type]*leafType{}

func leaf(sample any, fill func(r *rand.Rand, v reflect.Value, x *fillCtx)) *leafType {
	t := reflect.TypeOf(sample).Elem()
	l := &leafType{name: t.String(), typ: t, fill: fill}
	pt := reflect.PointerTo(t)
	for _, i := range []reflect.Type{reflect.TypeOf((*json.Marshaler)(nil)).Elem(), reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()} {
		if t.Implements(i) {
			l.mars = true
		} else if pt.Implements(i) {
			l.mars, l.addr = true, true
		}
	}
	leaves = append(leaves, l)
	leafByType[t] = l
	return l
}

// -- the catalogue

type Kind8 uint8
type MyInt int
type MyStr string
type MyBool bool
type MyF32 float32
type MyMap map[string]int
type MySlice []MyInt
type MyBytes []byte
type Kind8s []Kind8

// value receiver, JSON
type vmJSON struct {
	X int
	s string
}

func (v vmJSON) MarshalJSON() ([]byte, error) {
	switch v.X % 8 {
	case 0:
		return []byte(`null`), nil
	case 1:
		return []byte(" { \"vm\" : [1, 2.50 ,\"" + strconv.Itoa(v.X) + "\" ] } "), nil
	case 2:
		return []byte(`"str\u00e9\n"`), nil
	case 3:
		return []byte(strconv.Itoa(v.X)), nil
	case 4:
		return []byte(`[]`), nil
	case 5:
		return []byte(`false`), nil
	case 6:
		return []byte(`{"b":1,"a":{"z":-0.5e-3}}`), nil
	}
	return json.Marshal(v.s)
}

type vmText string

func (v vmText) MarshalText() ([]byte, error) { return []byte("<" + string(v) + ">"), nil }

// both: JSON wins
type vmBoth [2]int

func (v vmBoth) MarshalJSON() ([]byte, error) { return json.Marshal(v[0] + v[1]) }
func (v vmBoth) MarshalText() ([]byte, error) { return []byte("text"), nil }

// pointer receivers
type pmJSON struct{ X int }

func (p *pmJSON) MarshalJSON() ([]byte, error) {
	return []byte(`{"pm":` + strconv.Itoa(p.X) + `}`), nil
}

type pmText struct{ s string }

func (p *pmText) MarshalText() ([]byte, error) { return []byte("pm:" + p.s), nil }

type pmInt int

func (p *pmInt) MarshalJSON() ([]byte, error) {
	return []byte(`"pmInt` + strconv.Itoa(int(*p)) + `"`), nil
}

// marshalers of map and slice kinds
type mmMap map[string]int

func (m mmMap) MarshalJSON() ([]byte, error) { return json.Marshal(len(m)) }

type mmSlice []int

func (m mmSlice) MarshalText() ([]byte, error) { return []byte(fmt.Sprint("len", len(m))), nil }

// failing now and then
type mErr int

func (m mErr) MarshalJSON() ([]byte, error) {
	switch m {
	case 0:
		return nil, errors.New("mErr")
	case 1:
		return []byte(`{"a":`), nil
	case 2:
		return []byte(``), nil
	case 3:
		return []byte(`[1] x`), nil
	}
	return []byte(`"fine"`), nil
}

type mErrText int

func (m mErrText) MarshalText() ([]byte, error) {
	if m == 0 {
		return nil, errors.New("mErrText")
	}
	return []byte("fine"), nil
}

// keys of maps
type textKey struct{ A, B int8 }

func (k textKey) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d/%d", k.A, k.B)), nil }
func (k *textKey) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "%d/%d", &k.A, &k.B)
	return err
}

type intKey int

func (k intKey) MarshalText() ([]byte, error) { return []byte("k" + strconv.Itoa(int(k))), nil }
func (k *intKey) UnmarshalText(b []byte) error {
	i, err := strconv.Atoi(strings.TrimPrefix(string(b), "k"))
	*k = intKey(i)
	return err
}

type strKey string // its method must not be used

func (k strKey) MarshalText() ([]byte, error) { return []byte("never"), nil }

// recursive types
type listT struct {
	V    int    `json:"v"`
	Next *listT `json:"next,omitempty"`
}
type treeT struct {
	Name string            `json:"name"`
	Kids []*treeT          `json:"kids,omitempty"`
	Map  map[string]*treeT `json:"map,omitempty"`
	Any  any               `json:"any,omitempty"`
	Up   **treeT           `json:"-"`
}

// embedding
type baseT struct {
	ID   int    `json:"id"`
	Name string `json:"name,omitempty"`
	priv int
}
type Deep struct {
	D1 int `json:"d1"`
	D2 []int
}
type midT struct {
	Deep
	baseT
	M string
}
type Named struct {
	Tag string `json:"tag"`
}
type embT struct {
	baseT
	*Deep
	X    int    `json:"x"`
	Name string // different key from baseT's
}
type embTag struct {
	Named `json:"named"`
	*Deep `json:"deep,omitempty"`
	midT  `json:",omitempty"`
	hidT  `json:"-"`
}
type hidT struct{ H int }
type embHide struct {
	A     int `json:"id"` // hides baseT.ID
	baseT `json:""`
	shadowA
	shadowB
}
type shadowA struct {
	S int `json:"s"`
	T int `json:"t"`
}
type shadowB struct {
	S int    `json:"s"` // ambiguous: neither
	U string `json:"u"`
	V int    `json:"v,omitempty,string"`
}
type embTagWin struct {
	winA
	winB
}
type winA struct{ W int }
type winB struct {
	X string `json:"W"` // the tagged one wins
}
type embOdd struct {
	MyMap
	MyStr
	*MyInt
	MySlice
	privInt
	privMap
	error
	Any0
}
type privInt int
type privMap map[string]string
type Any0 interface{}
type embRec struct {
	R int
	*embRec
}
type withTime struct {
	At  time.Time       `json:"at"`
	Pt  *time.Time      `json:"pt"`
	Dur time.Duration   `json:"dur,string"`
	Raw json.RawMessage `json:"raw"`
	Num json.Number     `json:"num"`
	Nu2 json.Number     `json:"nu2,omitempty"`
	Big *big.Int        `json:"big"`
}
type withTags struct {
	Dash    int            `json:"-,"`
	Skip    int            `json:"-"`
	NoName  string         `json:",omitempty"`
	Uni     int            `json:"中文"`
	Punct   bool           `json:"a.b/c-d$%"`
	Str     *int           `json:"str,string"`
	StrB    bool           `json:"strB,string,omitempty"`
	StrS    string         `json:"strS,string"`
	StrSl   []int          `json:"strSl,string"`
	StrMap  map[string]int `json:"strMap,string"`
	StrAny  any            `json:"strAny,string"`
	StrPP   **int          `json:"strPP,string"`
	Other   int            `json:"other,unknown,omitempty"`
	Case    int            `json:"CASE"`
	Kase    int            `json:"case"`
	NotJSON int            `xml:"x" json:"notjson" bson:"y,omitempty"`
	F       float64        `json:"f,string"`
	G       float32        `json:"g,string"`
	U       uint64         `json:"u,string"`
	Arr0    [0]int         `json:"arr0,omitempty"`
	Arr     [2]int         `json:"arr,omitempty"`
	E       struct{}       `json:"e,omitempty"`
}
type withV struct {
	P *jv.V            `json:"p"`
	O *jv.V            `json:"o,omitempty"`
	L []*jv.V          `json:"l"`
	M map[string]*jv.V `json:"m"`
	A any              `json:"a"`
}
type ifaces struct {
	M json.Marshaler         `json:"m"`
	T encoding.TextMarshaler `json:"t,omitempty"`
	S fmt.Stringer           `json:"s"`
	E any                    `json:"e,omitempty"`
	P *any                   `json:"p,omitempty"`
}
type keyed struct {
	A map[textKey]int    `json:"a"`
	B map[intKey]string  `json:"b,omitempty"`
	C map[strKey]float64 `json:"c"`
	D map[int8]bool      `json:"d"`
	E map[uint64][]int   `json:"e"`
	F map[MyStr]*MyInt   `json:"f"`
}

func init() {
	leaf((*Kind8)(nil), nil)
	leaf((*sStr)(nil), nil)
	leaf((*sInt)(nil), nil)
	leaf((*sU8)(nil), nil)
	leaf((*sF64)(nil), nil)
	leaf((*sBool)(nil), nil)
	leaf((*sBytes)(nil), nil)
	leaf((*eStr)(nil), nil)
	leaf((*eInt)(nil), nil)
	leaf((*bStr)(nil), nil)
	leaf((*bF)(nil), nil)
	leaf((*zStr)(nil), nil)
	leaf((*zInt)(nil), nil)
	leaf((*time.Duration)(nil), nil)
	leaf((*time.Month)(nil), nil)
	leaf((*MyInt)(nil), nil)
	leaf((*MyStr)(nil), nil)
	leaf((*MyBool)(nil), nil)
	leaf((*MyF32)(nil), nil)
	leaf((*MyMap)(nil), nil)
	leaf((*MySlice)(nil), nil)
	leaf((*MyBytes)(nil), nil)
	leaf((*Kind8s)(nil), nil)
	leaf((*vmJSON)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		v.Set(reflect.ValueOf(vmJSON{r.Intn(100), genString(r)}))
	})
	leaf((*vmText)(nil), nil)
	leaf((*vmBoth)(nil), nil)
	leaf((*pmJSON)(nil), nil)
	leaf((*pmText)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) { v.Set(reflect.ValueOf(pmText{genString(r)})) })
	leaf((*pmInt)(nil), nil)
	leaf((*mmMap)(nil), nil)
	leaf((*mmSlice)(nil), nil)
	leaf((*listT)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		n := r.Intn(6)
		if r.Intn(20) == 0 {
			n = 40
		}
		l := listT{V: r.Intn(9)}
		p := &l
		for ; n > 0; n-- {
			p.Next = &listT{V: r.Intn(100)}
			p = p.Next
		}
		v.Set(reflect.ValueOf(l))
	})
	leaf((*treeT)(nil), nil)
	leaf((*embT)(nil), fillPrivatePtr)
	leaf((*embTag)(nil), nil)
	leaf((*embHide)(nil), nil)
	leaf((*embTagWin)(nil), nil)
	leaf((*embOdd)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		e := embOdd{MyMap: MyMap{"a": r.Intn(4)}, MyStr: MyStr(genString(r)), MySlice: MySlice{1}, privInt: 4, privMap: privMap{"z": "y"}, error: errors.New("x")}
		if r.Intn(2) == 0 {
			i := MyInt(r.Intn(5))
			e.MyInt = &i
			e.Any0 = []any{1, "two", Deep{D2: []int{}}}[r.Intn(3)]
			e.privInt, e.error = 0, nil
		}
		if r.Intn(2) == 0 {
			e.MyMap = nil
		}
		v.Set(reflect.ValueOf(e))
	})
	leaf((*embRec)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		e := embRec{R: r.Intn(9)}
		if r.Intn(2) == 0 {
			e.embRec = &embRec{R: 17}
		}
		v.Set(reflect.ValueOf(e))
	})
	leaf((*withTime)(nil), nil)
	leaf((*withTags)(nil), nil)
	leaf((*ifaces)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		var e ifaces
		if r.Intn(2) == 0 {
			e.M, e.T, e.S = vmJSON{r.Intn(30), "s"}, vmText("t"), time.Duration(r.Intn(4))
		}
		if r.Intn(3) == 0 {
			e.M, e.T, e.S = &pmJSON{3}, &pmText{"x"}, big.NewInt(int64(r.Intn(99)))
		}
		if r.Intn(2) == 0 {
			e.E = fillAny(r, x, 1)
			a := fillAny(r, x, 1)
			e.P = &a
		}
		v.Set(reflect.ValueOf(e))
	})
	leaf((*keyed)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		k := keyed{A: map[textKey]int{}, C: map[strKey]float64{}}
		for i := r.Intn(4); i > 0; i-- {
			k.A[textKey{int8(r.Intn(256)), int8(i)}] = i
			k.C[strKey(genString(r))] = r.Float64()
		}
		if r.Intn(2) == 0 {
			k.B = map[intKey]string{3: "x", -4: genString(r)}
			k.D = map[int8]bool{-128: true, 5: false}
			k.E = map[uint64][]int{math.MaxUint64: {1}, 0: {}}
			i := MyInt(5)
			k.F = map[MyStr]*MyInt{"a": nil, "b": &i}
		}
		v.Set(reflect.ValueOf(k))
	})
	leaf((*time.Time)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		v.Set(reflect.ValueOf(time.Unix(r.Int63n(4e9), int64(r.Intn(1e9))).UTC()))
	})
	leaf((*json.Number)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		s := genNumText(r)
		if r.Intn(4) == 0 {
			s = ""
		}
		if x.bad && r.Intn(10) == 0 {
			s = []string{"x", "1.", " 1", "1 ", "NaN", "--1", "0x1", "1e", "[1]", "null", "\"1\""}[r.Intn(11)]
		}
		v.SetString(s)
	})
	leaf((*json.RawMessage)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) {
		t := genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
		v.SetBytes(render(r, t, style{ws: r.Intn(2), esc: r.Intn(2)}))
		if r.Intn(8) == 0 {
			v.SetBytes(nil)
		}
		if x.bad && r.Intn(10) == 0 {
			v.SetBytes([]byte("{bad"))
		}
	})
	l := leaf((*jv.V)(nil), nil)
	l.fill = func(r *rand.Rand, v reflect.Value, x *fillCtx) { panic("V filled by value") }
	l.isV = true
	leaf((*withV)(nil), nil).isV = true
	leaf((*big.Int)(nil), func(r *rand.Rand, v reflect.Value, x *fillCtx) { v.Set(reflect.ValueOf(*big.NewInt(genInt64(r)))) })
	leaf((*mErr)(nil), nil)
	leaf((*mErrText)(nil), nil)
}

func fillPrivatePtr(r *rand.Rand, v reflect.Value, x *fillCtx) {
	e := embT{baseT: baseT{ID: r.Intn(9), Name: genString(r), priv: 4}, X: 3, Name: "outer"}
	if r.Intn(3) > 0 {
		e.Deep = &Deep{D1: r.Intn(4), D2: []int{}}
	}
	v.Set(reflect.ValueOf(e))
}

func isMErr(t reflect.Type) bool {
	return t == reflect.TypeOf(mErr(0)) || t == reflect.TypeOf(mErrText(0))
}

// ---------------------------------------------------------------- random specs

type specCtx struct {
	r      *rand.Rand
	bad    bool // unsupported types and failing marshalers may appear
	noV    bool
	noAny  bool
	noMap  bool // no maps (for key order)
	noAddr bool // no marshalers with pointer receivers at all
	used   map[string]bool
	n      int
}

var scalarKinds = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16,
	reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.String, reflect.String}
var kindTypes = map[reflect.Kind]reflect.Type{
	reflect.Bool: reflect.TypeOf(false), reflect.Int: reflect.TypeOf(0), reflect.Int8: reflect.TypeOf(int8(0)), reflect.Int16: reflect.TypeOf(int16(0)), reflect.Int32: reflect.TypeOf(int32(0)),
	reflect.Int64: reflect.TypeOf(int64(0)), reflect.Uint: reflect.TypeOf(uint(0)), reflect.Uint8: reflect.TypeOf(uint8(0)), reflect.Uint16: reflect.TypeOf(uint16(0)),
	reflect.Uint32: reflect.TypeOf(uint32(0)), reflect.Uint64: reflect.TypeOf(uint64(0)), reflect.Uintptr: reflect.TypeOf(uintptr(0)), reflect.Float32: reflect.TypeOf(float32(0)),
	reflect.Float64: reflect.TypeOf(float64(0)), reflect.String: reflect.TypeOf(""), reflect.Chan: reflect.TypeOf(make(chan int)), reflect.Func: reflect.TypeOf(func() {}),
	reflect.Complex128: reflect.TypeOf(complex128(0)), reflect.Interface: reflect.TypeOf((*any)(nil)).Elem(),
}
var mapKeyTypes = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(MyStr("")), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(MyInt(0)),
	reflect.TypeOf(textKey{}), reflect.TypeOf(intKey(0)), reflect.TypeOf(strKey("")), reflect.TypeOf(uintptr(0))}

// genSpec makes a random type; addr tells whether its values will have an address
func (x *specCtx) genSpec(depth int, addr bool) *tSpec {
	r := x.r
	if depth <= 0 || r.Intn(3) == 0 {
		return x.scalarSpec(addr)
	}
	switch r.Intn(9) {
	case 0, 1, 2:
		return x.structSpec(depth, addr)
	case 3, 4:
		return &tSpec{kind: reflect.Slice, elem: x.genSpec(depth-1, true)}
	case 5:
		s := &tSpec{kind: reflect.Array, n: r.Intn(4), elem: x.genSpec(depth-1, addr)}
		if s.elem.leaf == nil && s.elem.elem == nil && s.elem.kind != reflect.Struct && s.elem.kind != reflect.Interface && r.Intn(3) == 0 {
			s.n = []int{8, 12, 16, 20, 32, 33, 64}[r.Intn(7)]
		}
		if r.Intn(6) == 0 { // digests, addresses, identifiers
			s.n = []int{4, 6, 8, 16, 20, 32, 64}[r.Intn(7)]
			s.elem = &tSpec{kind: reflect.Uint8}
			if r.Intn(4) == 0 {
				s.elem = &tSpec{leaf: leafByType[reflect.TypeOf(Kind8(0))], kind: reflect.Uint8}
			}
		}
		return s
	case 6:
		if x.noMap {
			return x.scalarSpec(addr)
		}
		k := mapKeyTypes[r.Intn(len(mapKeyTypes))]
		if x.bad && r.Intn(10) == 0 {
			k = []reflect.Type{reflect.TypeOf(true), reflect.TypeOf([1]int{}), reflect.TypeOf(struct{}{})}[r.Intn(3)]
		}
		return &tSpec{kind: reflect.Map, key: k, elem: x.genSpec(depth-1, false)}
	case 7:
		return &tSpec{kind: reflect.Ptr, elem: x.genSpec(depth-1, true)}
	}
	return x.leafSpec(addr)
}

func (x *specCtx) leafSpec(addr bool) *tSpec {
	for {
		l := leaves[x.r.Intn(len(leaves))]
		bad := isMErr(l.typ)
		if bad && (!x.bad || x.r.Intn(3) > 0) || l.isV && x.noV {
			continue
		}
		if x.noMap && !bad {
			switch l.typ.Name() {
			case "MyMap", "embOdd", "ifaces", "keyed", "withTags", "treeT", "withV", "V":
				continue
			}
		}
		if x.noAny && (l.typ.Name() == "treeT" || l.typ.Name() == "ifaces" || l.typ.Name() == "withTags" || l.typ.Name() == "withV" || l.typ.Name() == "embOdd") {
			continue
		}
		s := &tSpec{leaf: l, kind: l.typ.Kind()}
		switch {
		case l.typ.Name() == "V":
			return &tSpec{kind: reflect.Ptr, elem: s}
		case l.addr && (x.noAddr || !addr):
			return &tSpec{kind: reflect.Ptr, elem: s}
		}
		return s
	}
}

func (x *specCtx) scalarSpec(addr bool) *tSpec {
	r := x.r
	switch n := r.Intn(20); {
	case n == 0 && x.bad:
		return &tSpec{kind: []reflect.Kind{reflect.Chan, reflect.Func, reflect.Complex128}[r.Intn(3)]}
	case n < 3 && !x.noAny:
		return &tSpec{kind: reflect.Interface}
	case n == 3:
		return &tSpec{kind: reflect.Slice, elem: &tSpec{kind: reflect.Uint8}}
	case n < 6:
		return x.leafSpec(addr)
	case n < 8:
		return &tSpec{kind: reflect.Ptr, elem: &tSpec{kind: scalarKinds[r.Intn(len(scalarKinds))]}}
	}
	return &tSpec{kind: scalarKinds[r.Intn(len(scalarKinds))]}
}

var tagNames = []string{"a", "b", "key", "Name", "x_y", "x-y", "a.b", "中文", "<tag>", "k&v", "with space", "é", "1", "$", "UPPER", "%d", "a/b", "[0]", "{}", "@", "null", "~"}

func (x *specCtx) structSpec(depth int, addr bool) *tSpec {
	old := x.used
	x.used = map[string]bool{}
	defer func() { x.used = old }()
	return x.structBody(depth, addr)
}

func (x *specCtx) structBody(depth int, addr bool) *tSpec {
	r := x.r
	s := &tSpec{kind: reflect.Struct}
	n := r.Intn(6)
	wide := r.Intn(40) == 0
	if wide {
		n = 12 + r.Intn(60)
	}
	for i := 0; i < n; i++ {
		x.n++
		f := &fSpec{name: fmt.Sprintf("F%d", x.n)}
		if r.Intn(12) == 0 && depth > 0 {
			// an embedded struct; its names must differ from the outer ones
			f.embedded = true
			f.t = x.structBody(depth-1, addr)
			if r.Intn(3) == 0 {
				f.t = &tSpec{kind: reflect.Ptr, elem: f.t}
			}
			if r.Intn(3) == 0 {
				f.json = x.tagName()
			}
			s.fields = append(s.fields, f)
			continue
		}
		if r.Intn(14) == 0 {
			f.private = true
			f.name = fmt.Sprintf("f%d", x.n)
			f.t = &tSpec{kind: scalarKinds[r.Intn(len(scalarKinds))]}
			s.fields = append(s.fields, f)
			continue
		}
		if f.t = x.genSpec(depth-1, addr); wide && r.Intn(8) > 0 {
			f.t = x.scalarSpec(addr)
		}
		if r.Intn(3) > 0 {
			f.json = x.tagName()
		}
		f.omit = r.Intn(3) == 0 && !f.t.marshals()
		f.str = r.Intn(5) == 0
		f.dash = r.Intn(15) == 0
		s.fields = append(s.fields, f)
	}
	return s
}

func (x *specCtx) tagName() string {
	for {
		s := tagNames[x.r.Intn(len(tagNames))]
		if x.r.Intn(4) == 0 {
			s += strconv.Itoa(x.r.Intn(100))
		}
		if !x.used[strings.ToLower(s)] {
			x.used[strings.ToLower(s)] = true
			return s
		}
	}
}

// marshals tells whether the type, or what it points to, has marshalers of its own
func (s *tSpec) marshals() bool {
	if s.kind == reflect.Ptr && s.leaf == nil {
		return s.elem.marshals()
	}
	if s.leaf != nil && s.leaf.mars {
		return true
	}
	return s.kind == reflect.Interface // may hold one
}

// typ makes the Go type; keepOmit is whether omitempty tags are there
func (s *tSpec) typ(keepOmit bool) reflect.Type {
	if s.leaf != nil {
		return s.leaf.typ
	}
	switch s.kind {
	case reflect.Slice:
		return reflect.SliceOf(s.elem.typ(keepOmit))
	case reflect.Array:
		return reflect.ArrayOf(s.n, s.elem.typ(keepOmit))
	case reflect.Map:
		return reflect.MapOf(s.key, s.elem.typ(keepOmit))
	case reflect.Ptr:
		return reflect.PointerTo(s.elem.typ(keepOmit))
	case reflect.Struct:
		var fs []reflect.StructField
		for _, f := range s.fields {
			sf := reflect.StructField{Name: f.name, Type: f.t.typ(keepOmit), Anonymous: f.embedded}
			if f.private {
				sf.PkgPath = "verif/harness"
			}
			tag := f.json
			if f.omit && keepOmit {
				tag += ",omitempty"
			}
			if f.str {
				tag += ",string"
			}
			if f.dash {
				tag = "-"
			}
			if tag != "" {
				sf.Tag = reflect.StructTag(`json:` + strconv.Quote(tag))
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	return kindTypes[s.kind]
}

func (s *tSpec) has(f func(*tSpec) bool) bool {
	if f(s) {
		return true
	}
	if s.elem != nil && s.elem.has(f) {
		return true
	}
	for _, x := range s.fields {
		if x.t.has(f) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- random values

type fillCtx struct {
	bad    bool // NaN, broken marshalers
	nilOK  bool // nil slices under omitempty
	allNil bool // nil slices anywhere
	noV    bool
	sawNaN bool
	budget int
}

var typeV = reflect.TypeOf(jv.V{})

// fillValue sets v to a random value, driven by its type only
func fillValue(r *rand.Rand, v reflect.Value, x *fillCtx, omit bool, depth int) {
	t := v.Type()
	x.budget--
	if l := leafByType[t]; l != nil && l.fill != nil {
		l.fill(r, v, x)
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.Intn(4) == 0 {
			return
		}
		v.SetInt(genInt64(r) >> uint(64-t.Bits()))
		if r.Intn(2) == 0 {
			v.SetInt(int64(int8(r.Intn(256))))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if r.Intn(4) == 0 {
			return
		}
		v.SetUint(uint64(genInt64(r)) >> uint(64-t.Bits()))
	case reflect.Float32, reflect.Float64:
		f := genFiniteFloat(r)
		if r.Intn(5) == 0 {
			f = 0
		}
		if t.Kind() == reflect.Float32 {
			for math.Abs(f) > math.MaxFloat32 {
				f = genFiniteFloat(r)
			}
			f = float64(float32(f))
		}
		if x.bad && r.Intn(20) == 0 {
			f = []float64{genAnyNaN(r), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
			x.sawNaN = true
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(genString(r))
	case reflect.Interface:
		if t.NumMethod() == 0 && r.Intn(4) > 0 {
			if a := fillAny(r, x, depth+1); a != nil {
				v.Set(reflect.ValueOf(a))
			}
		}
	case reflect.Ptr:
		if t.Elem() == typeV {
			if r.Intn(5) == 0 || x.noV {
				return
			}
			// always built from a text, so that equal seeds give equal values
			v.Set(reflect.ValueOf(buildV(r, genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0), r.Intn(3))))
			return
		}
		if r.Intn(4) == 0 || depth > 8 || x.budget < 0 {
			return
		}
		p := reflect.New(t.Elem())
		fillValue(r, p.Elem(), x, false, depth+1)
		v.Set(p)
	case reflect.Slice:
		if (omit && x.nilOK || x.allNil) && r.Intn(3) == 0 {
			return
		}
		n := fillLen(r, x)
		if t.Elem().Kind() == reflect.Uint8 && r.Intn(8) == 0 {
			n = 10 + r.Intn(90)
			if r.Intn(20) == 0 {
				n = 1000 + r.Intn(20000)
			}
			if depth <= 8 && x.budget >= 0 {
				b := make([]byte, n)
				r.Read(b)
				v.Set(reflect.MakeSlice(t, n, n))
				for i := range b {
					v.Index(i).SetUint(uint64(b[i]))
				}
				return
			}
		}
		if depth > 8 || x.budget < 0 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n+r.Intn(3))
		for i := 0; i < n; i++ {
			fillValue(r, s.Index(i), x, false, depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			fillValue(r, v.Index(i), x, false, depth+1)
		}
	case reflect.Map:
		// whether an empty map with keys that cannot be encoded is an error depends on the Go version
		badKey := !encodableKey(t.Key())
		if r.Intn(5) == 0 && !badKey {
			return
		}
		m := reflect.MakeMap(t)
		n := fillLen(r, x)
		if depth > 8 || x.budget < 0 {
			n = 0
		}
		if badKey {
			n = 1
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			e := reflect.New(t.Elem()).Elem()
			fillValue(r, k, x, false, depth+1)
			fillValue(r, e, x, false, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				if ft := t.Field(i); !(ft.Anonymous && ft.Type.Kind() == reflect.Struct) {
					continue
				}
			}
			fillValue(r, f, x, strings.Contains(t.Field(i).Tag.Get("json"), "omitempty"), depth+1)
		}
	case reflect.Chan:
		if r.Intn(2) == 0 {
			v.Set(reflect.ValueOf(make(chan int)))
		}
	case reflect.Complex128:
		v.SetComplex(complex(1, float64(r.Intn(3))))
	}
}

func encodableKey(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Array, reflect.Struct:
		return t.Implements(reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem())
	}
	return true
}

// fillLen is the length of a slice or map: short, and now and then long
func fillLen(r *rand.Rand, x *fillCtx) int {
	if x.budget > 60 && r.Intn(60) == 0 {
		x.budget -= 40
		return wideCount(r) / 2
	}
	return r.Intn(4)
}

// fillAny makes a dynamic value for an interface
func fillAny(r *rand.Rand, x *fillCtx, depth int) any {
	x.budget--
	n := r.Intn(16)
	if (depth > 5 || x.budget < 0) && n > 6 {
		n = r.Intn(7)
	}
	switch n {
	case 0:
		return nil
	case 1:
		return genString(r)
	case 2:
		return genFiniteFloat(r)
	case 3:
		return int64(genInt64(r))
	case 4:
		return r.Intn(2) == 0
	case 5:
		return uint8(r.Intn(256))
	case 6:
		return float32(r.Intn(1000)) / 8
	case 7, 8:
		a := make([]any, fillLen(r, x))
		for i := range a {
			a[i] = fillAny(r, x, depth+1)
		}
		return a
	case 9, 10:
		m := map[string]any{}
		for i := fillLen(r, x); i > 0; i-- {
			m[genString(r)] = fillAny(r, x, depth+1)
		}
		return m
	}
	for {
		l := leaves[r.Intn(len(leaves))]
		if isMErr(l.typ) && !x.bad || l.isV && x.noV {
			continue
		}
		if l.typ == typeV {
			p := reflect.New(reflect.PointerTo(typeV)).Elem()
			fillValue(r, p, x, false, depth)
			return p.Interface()
		}
		p := reflect.New(l.typ)
		fillValue(r, p.Elem(), x, false, depth+1)
		if l.addr || r.Intn(3) == 0 {
			return p.Interface()
		}
		return p.Elem().Interface()
	}
}

// scribble destroys what a value owns, in place
func scribble(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	if v.Type() == typeV {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && v.Type() != reflect.PointerTo(typeV) {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Array:
		if v.CanSet() {
			for i := 0; i < v.Len(); i++ {
				scribble(v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), depth+1)
			if v.CanInterface() {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), depth+1)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(^v.Uint() & 0xff)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	}
}

func newValue(s *tSpec) reflect.Value { return reflect.New(s.typ(true)) }
