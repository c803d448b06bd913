package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// The edit model: what each edit does to a plain tree, written from the documentation.

type eclass int

const (
	eNone eclass = iota
	eNotFound
	eOutOfRange
	eTypeNotMatch
	eNotArray
	eUninit
	eMulti
	eParam
	eAny // fails, with any error
)

var eNames = [...]string{"success", "ErrNotFound", "ErrOutOfRange", "ErrTypeNotMatch", "ErrNotArrayValue", "ErrValueUninitialized", "ErrMultipleParam…", "ErrParameterError", "any error"}

func errMatches(err error, want eclass) bool {
	switch want {
	case eNone:
		return err == nil
	case eNotFound:
		return errors.Is(err, jv.ErrNotFound)
	case eOutOfRange:
		return errors.Is(err, jv.ErrOutOfRange)
	case eTypeNotMatch:
		return errors.Is(err, jv.ErrTypeNotMatch)
	case eNotArray:
		return errors.Is(err, jv.ErrNotArrayValue)
	case eUninit:
		return errors.Is(err, jv.ErrValueUninitialized)
	case eMulti:
		return errors.Is(err, jv.ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven)
	case eParam:
		return errors.Is(err, jv.ErrParameterError)
	}
	return err != nil
}

// ---------------------------------------------------------------- path parameters

type pk int

const (
	pStr  pk = iota
	pInt     // fits an int
	pHuge    // an unsigned integer beyond the range of int
	pNil
	pBad // no key and no index
)

type param struct {
	k   pk
	s   string
	i   int
	go_ any
}

func (p param) String() string {
	switch p.k {
	case pStr:
		return fmt.Sprintf("%T(%s)", p.go_, trunc(strconv.QuoteToASCII(p.s), 80))
	case pInt:
		return fmt.Sprintf("%T(%d)", p.go_, p.i)
	}
	return fmt.Sprintf("%T(%v)", p.go_, p.go_)
}

type namedStr string
type namedInt int
type namedI8 int8
type namedU16 uint16

// parameter types with methods, which say nothing about the key or index they stand for
type shownStr string

func (s shownStr) String() string               { return "shown as " + string(s) }
func (s shownStr) GoString() string             { return "go " + string(s) }
func (s shownStr) Error() string                { return "error " + string(s) }
func (s shownStr) MarshalText() ([]byte, error) { return []byte("text " + string(s)), nil }

type shownInt int

func (i shownInt) String() string               { return strconv.Itoa(int(i) + 1) }
func (i shownInt) Error() string                { return "error" }
func (i shownInt) Int() int                     { return int(i) + 1 }
func (i shownInt) MarshalText() ([]byte, error) { return []byte("0"), nil }

type shown struct{ s string }

func (s shown) String() string               { return s.s }
func (s shown) MarshalText() ([]byte, error) { return []byte(s.s), nil }

func strParam(r *rand.Rand, s string) param {
	p := param{k: pStr, s: s, go_: s}
	if r != nil && r.Intn(8) == 0 {
		switch r.Intn(4) {
		case 0:
			p.go_ = shownStr(s)
		case 1:
			p.go_ = json.Number(s)
		default:
			p.go_ = namedStr(s)
		}
	}
	return p
}

func intParam(r *rand.Rand, i int) param {
	p := param{k: pInt, i: i, go_: i}
	if r == nil || r.Intn(2) == 0 {
		return p
	}
	switch r.Intn(16) {
	case 13:
		p.go_ = shownInt(i)
	case 14:
		p.go_ = time.Duration(i)
	case 15:
		if i >= 0 {
			p.go_ = reflect.Kind(i)
		}
	case 0:
		p.go_ = int64(i)
	case 1:
		if i == int(int32(i)) {
			p.go_ = int32(i)
		}
	case 2:
		if i == int(int16(i)) {
			p.go_ = int16(i)
		}
	case 3:
		if i == int(int8(i)) {
			p.go_ = int8(i)
		}
	case 4:
		p.go_ = namedInt(i)
	case 5:
		if i == int(int8(i)) {
			p.go_ = namedI8(i)
		}
	case 6:
		if i >= 0 {
			p.go_ = uint(i)
		}
	case 7:
		if i >= 0 {
			p.go_ = uint64(i)
		}
	case 8:
		if i == int(uint32(i)) {
			p.go_ = uint32(i)
		}
	case 9:
		if i == int(uint16(i)) {
			p.go_ = uint16(i)
		}
	case 10:
		if i == int(uint8(i)) {
			p.go_ = uint8(i)
		}
	case 11:
		if i == int(uint16(i)) {
			p.go_ = namedU16(i)
		}
	}
	return p
}

func oddParam(r *rand.Rand) param {
	switch r.Intn(11) {
	case 9:
		return param{k: pBad, go_: []any{shown{smallKeys[r.Intn(len(smallKeys))]}, &shown{smallKeys[r.Intn(len(smallKeys))]}, shown{"0"}, time.Time{}, errors.New(smallKeys[0]), jv.NewString(smallKeys[0]), big.NewInt(0)}[r.Intn(7)]}
	case 10:
		k := smallKeys[r.Intn(len(smallKeys))]
		return param{k: pBad, go_: []any{&k, func() string { return k }, reflect.ValueOf(k), float32(0), complex(0, 0), make(chan int), uintptr(0)}[r.Intn(7)]}
	case 0:
		return param{k: pNil}
	case 1:
		return param{k: pHuge, go_: uint64(math.MaxUint64) - uint64(r.Intn(4))}
	case 2:
		return param{k: pHuge, go_: uint64(1) << 63}
	case 3:
		return param{k: pBad, go_: 1.0}
	case 4:
		return param{k: pBad, go_: true}
	case 5:
		return param{k: pBad, go_: struct{}{}}
	case 6:
		return intParam(nil, []int{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 40, -(1 << 40)}[r.Intn(6)])
	case 7:
		return param{k: pBad, go_: map[string]int{}}
	default:
		x := 1
		return param{k: pBad, go_: &x}
	}
}

func paramsString(ps []param) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.String())
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// spell gives the arguments for a path: a parameter list, or a single slice in one of several types.
// how says which; a slice followed by something else is an error by itself.
func spell(r *rand.Rand, ps []param) (first any, rest []any, how string) {
	list := make([]any, len(ps))
	allStr, allInt := true, true
	for i, p := range ps {
		list[i] = p.go_
		_, s := p.go_.(string)
		_, n := p.go_.(int)
		allStr, allInt = allStr && s, allInt && n
	}
	if len(ps) > 0 && r.Intn(3) != 0 {
		return list[0], list[1:], "list"
	}
	switch {
	case allStr && r.Intn(2) == 0:
		l := make([]string, len(ps))
		for i, p := range ps {
			l[i] = p.s
		}
		return l, nil, "[]string"
	case allInt && r.Intn(2) == 0:
		l := make([]int, len(ps))
		for i, p := range ps {
			l[i] = p.i
		}
		return l, nil, "[]int"
	case len(list) == 2 && r.Intn(2) == 0:
		return [2]any{list[0], list[1]}, nil, "[2]any"
	}
	if len(ps) > 0 && r.Intn(3) == 0 {
		if l, how := otherSlice(r, ps); l != nil {
			return l, nil, how
		}
	}
	return list, nil, "[]any"
}

var intTypes = []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(shownInt(0)), reflect.TypeOf(namedU16(0))}
var strTypes = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(namedStr("")), reflect.TypeOf(shownStr("")), reflect.TypeOf(json.Number(""))}

type pathOf []any

// otherSlice gives a path as a slice or array of another type, where there is one
func otherSlice(r *rand.Rand, ps []param) (any, string) {
	strs, ints := true, true
	for _, p := range ps {
		strs, ints = strs && p.k == pStr, ints && p.k == pInt
	}
	t := reflect.TypeOf((*any)(nil)).Elem()
	switch {
	case strs:
		t = strTypes[r.Intn(len(strTypes))]
	case ints:
		t = intTypes[r.Intn(len(intTypes))]
	}
	var l reflect.Value
	switch r.Intn(3) {
	case 0:
		l = reflect.New(reflect.ArrayOf(len(ps), t)).Elem()
	case 1:
		l = reflect.MakeSlice(reflect.SliceOf(t), len(ps), len(ps)+r.Intn(3))
	default:
		if t.Kind() == reflect.Interface {
			l = reflect.ValueOf(make(pathOf, len(ps)))
		} else {
			l = reflect.MakeSlice(reflect.SliceOf(t), len(ps), len(ps))
		}
	}
	for i, p := range ps {
		if p.go_ == nil {
			return nil, ""
		}
		v := reflect.ValueOf(p.go_)
		switch {
		case strs:
			v = reflect.ValueOf(p.s).Convert(t)
		case ints:
			v = reflect.ValueOf(p.i).Convert(t)
			if v.CanInt() && v.Int() != int64(p.i) || v.CanUint() && (p.i < 0 || v.Uint() != uint64(p.i)) {
				return nil, ""
			}
		}
		l.Index(i).Set(v)
	}
	return l.Interface(), l.Type().String()
}

// ---------------------------------------------------------------- model operations

func idxRead(a []*RV, i int) int {
	if i < 0 {
		i += len(a)
		if i < 0 {
			return -1
		}
		return i
	}
	if i >= len(a) {
		return -1
	}
	return i
}

// mStep is one step of a read
func mStep(v *RV, p param) (*RV, eclass) {
	switch v.K {
	case kObj:
		if p.k != pStr {
			return nil, eParam
		}
		x, ok := v.O[p.s]
		if !ok {
			return nil, eNotFound
		}
		return x, eNone
	case kArr:
		switch p.k {
		case pInt:
			i := idxRead(v.A, p.i)
			if i < 0 {
				return nil, eOutOfRange
			}
			return v.A[i], eNone
		case pHuge:
			return nil, eOutOfRange
		case pNil:
			return nil, eParam
		}
		return nil, eAny
	}
	return nil, eAny
}

func mGet(v *RV, ps []param) (*RV, eclass) {
	if len(ps) == 0 {
		ps = []param{{k: pNil}}
	}
	for _, p := range ps {
		x, e := mStep(v, p)
		if e != eNone {
			return nil, e
		}
		v = x
	}
	return v, eNone
}

func mGetArr(v *RV, ps []param) (*RV, eclass) {
	x, e := mGet(v, ps)
	if e == eNone && x.K != kArr {
		return nil, eTypeNotMatch
	}
	return x, e
}

func mNewFor(p param) (*RV, eclass) {
	switch p.k {
	case pStr:
		return rObj(), eNone
	case pInt:
		if p.i != 0 {
			return nil, eOutOfRange
		}
		return &RV{K: kArr}, eNone
	}
	return nil, eAny
}

func mSet(v, child *RV, ps []param) eclass {
	if len(ps) == 0 {
		ps = []param{{k: pNil}}
	}
	p := ps[0]
	if len(ps) == 1 {
		switch v.K {
		case kObj:
			if p.k != pStr {
				return eParam
			}
			v.set(p.s, child)
			return eNone
		case kArr:
			switch p.k {
			case pInt:
				if p.i == len(v.A) {
					v.A = append(v.A, child)
					return eNone
				}
				i := idxRead(v.A, p.i)
				if i < 0 {
					return eOutOfRange
				}
				v.A[i] = child
				return eNone
			case pHuge:
				return eOutOfRange
			case pNil:
				return eParam
			}
			return eAny
		}
		return eAny
	}
	if x, e := mStep(v, p); e == eNone {
		return mSet(x, child, ps[1:])
	} else if !(v.K == kObj && e == eNotFound || v.K == kArr && e == eOutOfRange && p.k == pInt && p.i == len(v.A)) {
		return e
	}
	n, e := mNewFor(ps[1])
	if e != eNone {
		return e
	}
	if e := mSet(n, child, ps[1:]); e != eNone {
		return e
	}
	if v.K == kObj {
		v.set(p.s, n)
	} else {
		v.A = append(v.A, n)
	}
	return eNone
}

func mInsertAt(v *RV, i int, child *RV) {
	v.A = append(v.A, nil)
	copy(v.A[i+1:], v.A[i:])
	v.A[i] = child
}

func mAppend(v, child *RV, ps []param, begin bool) eclass {
	t := v
	if len(ps) == 0 {
		if v.K != kArr {
			return eNotArray
		}
	} else {
		x, e := mGetArr(v, ps)
		if e == eNotFound {
			x = &RV{K: kArr}
			e = mSet(v, x, ps)
		}
		if e != eNone {
			return e
		}
		t = x
	}
	if begin {
		mInsertAt(t, 0, child)
	} else {
		t.A = append(t.A, child)
	}
	return eNone
}

func mInsert(v, child *RV, ps []param, after bool) eclass {
	if len(ps) == 0 {
		ps = []param{{k: pNil}}
	}
	if len(ps) > 1 {
		x, e := mGetArr(v, ps[:len(ps)-1])
		if e != eNone {
			return e
		}
		v = x
	} else if v.K != kArr {
		return eNotArray
	}
	switch p := ps[len(ps)-1]; p.k {
	case pInt:
		i := idxRead(v.A, p.i)
		if i < 0 {
			return eOutOfRange
		}
		if after {
			i++
		}
		mInsertAt(v, i, child)
		return eNone
	case pHuge:
		return eOutOfRange
	case pNil:
		return eParam
	}
	return eAny
}

func mDelete(v *RV, ps []param) eclass {
	if len(ps) == 0 {
		ps = []param{{k: pNil}}
	}
	if len(ps) > 1 {
		x, e := mGet(v, ps[:len(ps)-1])
		if e != eNone {
			return e
		}
		v = x
	}
	p := ps[len(ps)-1]
	_, e := mStep(v, p)
	if e != eNone {
		return e
	}
	if v.K == kObj {
		v.del(p.s)
	} else {
		i := idxRead(v.A, p.i)
		v.A = append(v.A[:i:i], v.A[i+1:]...)
	}
	return eNone
}

// ---------------------------------------------------------------- children

// child is a value to put somewhere, with its model and the calls that put it
type child struct {
	m      *RV    // model; nil when the value cannot be put anywhere
	e      eclass // the error for an unusable value
	v      *jv.V  // the very node, when one was passed
	desc   string
	set    func(v *jv.V) jv.Setter
	mset   func(v *jv.V) jv.MustSetter
	app    func(v *jv.V) jv.Appender
	mapp   func(v *jv.V) jv.MustAppender
	ins    func(v *jv.V) jv.Inserter
	mins   func(v *jv.V) jv.MustInserter
	atSet  func(a jv.AtSetter)
	native any
}

func anyChild(x any, m *RV, desc string) *child {
	return &child{m: m, desc: desc, native: x,
		set:   func(v *jv.V) jv.Setter { return v.Set(x) },
		mset:  func(v *jv.V) jv.MustSetter { return v.MustSet(x) },
		app:   func(v *jv.V) jv.Appender { return v.Append(x) },
		mapp:  func(v *jv.V) jv.MustAppender { return v.MustAppend(x) },
		ins:   func(v *jv.V) jv.Inserter { return v.Insert(x) },
		mins:  func(v *jv.V) jv.MustInserter { return v.MustInsert(x) },
		atSet: func(a jv.AtSetter) { a.Set(x) },
	}
}

func numOf(x any) *RV { b, _ := json.Marshal(x); return rNum(string(b)) }

type tStruct struct {
	Z int    `json:"z"`
	A string `json:"a"`
	N *int   `json:"n,omitempty"`
}

func genFiniteFloat(r *rand.Rand) float64 {
	switch r.Intn(4) {
	case 0:
		return float64(r.Intn(2000) - 1000)
	case 1:
		return r.NormFloat64()
	case 2:
		return []float64{0, 0.1, 1e21, 1e20, 1e-6, 1e-7, 123456789.5, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53}[r.Intn(10)]
	}
	for {
		f := math.Float64frombits(r.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func genInt64(r *rand.Rand) int64 {
	switch r.Intn(3) {
	case 0:
		return int64(r.Intn(200) - 100)
	case 1:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 0, -1, 1 << 53}[r.Intn(7)]
	}
	return int64(r.Uint64()) >> uint(r.Intn(64))
}

func kString(x string) *child {
	c := anyChild(x, rStr(x), fmt.Sprintf("String(%q)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetString(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetString(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendString(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendString(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertString(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertString(x) }
	return c
}

func kBool_(x bool) *child {
	c := anyChild(x, rBool(x), fmt.Sprintf("Bool(%v)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetBool(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetBool(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendBool(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendBool(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertBool(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertBool(x) }
	return c
}

func kInt(x int) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Int(%d)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetInt(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetInt(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendInt(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendInt(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertInt(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertInt(x) }
	return c
}

func kInt64(x int64) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Int64(%d)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetInt64(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetInt64(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendInt64(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendInt64(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertInt64(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertInt64(x) }
	return c
}

func kInt32(x int32) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Int32(%d)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetInt32(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetInt32(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendInt32(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendInt32(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertInt32(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertInt32(x) }
	return c
}

func kUint(x uint) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Uint(%d)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetUint(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetUint(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendUint(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendUint(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertUint(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertUint(x) }
	return c
}

func kUint64(x uint64) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Uint64(%d)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetUint64(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetUint64(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendUint64(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendUint64(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertUint64(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertUint64(x) }
	return c
}

func kUint32(x uint32) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Uint32(%d)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetUint32(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetUint32(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendUint32(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendUint32(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertUint32(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertUint32(x) }
	return c
}

func kFloat64(x float64) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Float64(%v)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetFloat64(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetFloat64(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendFloat64(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendFloat64(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertFloat64(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertFloat64(x) }
	return c
}

func kFloat32(x float32) *child {
	c := anyChild(x, numOf(x), fmt.Sprintf("Float32(%v)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetFloat32(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetFloat32(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendFloat32(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendFloat32(x) }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertFloat32(x) }, func(v *jv.V) jv.MustInserter { return v.MustInsertFloat32(x) }
	return c
}

func kNull_() *child {
	c := anyChild(nil, rNull(), "Null")
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetNull() }, func(v *jv.V) jv.MustSetter { return v.MustSetNull() }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendNull() }, func(v *jv.V) jv.MustAppender { return v.MustAppendNull() }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertNull() }, func(v *jv.V) jv.MustInserter { return v.MustInsertNull() }
	return c
}

func kObject() *child {
	c := anyChild(map[string]any{}, rObj(), "Object")
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetObject() }, func(v *jv.V) jv.MustSetter { return v.MustSetObject() }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendObject() }, func(v *jv.V) jv.MustAppender { return v.MustAppendObject() }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertObject() }, func(v *jv.V) jv.MustInserter { return v.MustInsertObject() }
	return c
}

func kArray() *child {
	c := anyChild([]any{}, &RV{K: kArr}, "Array")
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetArray() }, func(v *jv.V) jv.MustSetter { return v.MustSetArray() }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendArray() }, func(v *jv.V) jv.MustAppender { return v.MustAppendArray() }
	c.ins, c.mins = func(v *jv.V) jv.Inserter { return v.InsertArray() }, func(v *jv.V) jv.MustInserter { return v.MustInsertArray() }
	return c
}

// kBytes has no typed insertion: inserting it inserts the base64 string
func kBytes(x []byte) *child {
	s := base64.StdEncoding.EncodeToString(x)
	c := anyChild(s, rStr(s), fmt.Sprintf("Bytes(%x)", x))
	c.set, c.mset = func(v *jv.V) jv.Setter { return v.SetBytes(x) }, func(v *jv.V) jv.MustSetter { return v.MustSetBytes(x) }
	c.app, c.mapp = func(v *jv.V) jv.Appender { return v.AppendBytes(x) }, func(v *jv.V) jv.MustAppender { return v.MustAppendBytes(x) }
	return c
}

// genChild makes a usable child
func genChild(r *rand.Rand, g *genCfg) *child {
	switch r.Intn(26) {
	case 24:
		return anyChild(nil, rNull(), "any nil")
	case 25: // scalars of other Go types
		m := genScalar(r, g)
		for hasNonFinite(m) {
			m = genScalar(r, g)
		}
		x := goOf(r, m)
		if f, ok := x.(float64); ok {
			m = numOf(f)
		}
		if m.K == kBool && r.Intn(2) == 0 {
			x = &m.B
		} else if m.K == kStr && r.Intn(3) == 0 {
			x = &m.S
		}
		return anyChild(x, m, fmt.Sprintf("any %T %s", x, m.canon()))
	case 0:
		return kString(genString(r))
	case 1:
		return kBool_(r.Intn(2) == 0)
	case 2:
		return kInt(int(genInt64(r)))
	case 3:
		return kInt64(genInt64(r))
	case 4:
		return kInt32(int32(genInt64(r)))
	case 5:
		return kUint(uint(genInt64(r)))
	case 6:
		return kUint64(uint64(genInt64(r)))
	case 7:
		return kUint32(uint32(genInt64(r)))
	case 8:
		return kFloat64(genFiniteFloat(r))
	case 9:
		return kFloat32(float32(r.NormFloat64() * 1000))
	case 10, 11:
		return kNull_()
	case 12:
		return kObject()
	case 13:
		return kArray()
	case 14:
		return kBytes([]byte(genBadString(r)))
	case 15:
		s := genString(r)
		return anyChild(s, rStr(s), fmt.Sprintf("any string %q", s))
	case 16:
		i := r.Intn(1000)
		m := rObj()
		m.set("k", rArr(numOf(i), rNull()))
		return anyChild(map[string]any{"k": []any{i, nil}}, m, "any map")
	case 17:
		i := r.Intn(1000)
		m := rObj()
		m.set("z", numOf(i))
		m.set("a", rStr("s"))
		return anyChild(tStruct{Z: i, A: "s"}, m, "any struct")
	case 18:
		return anyChild([]int{1, 2, 3}[:r.Intn(4)], rArr([]*RV{rNum("1"), rNum("2"), rNum("3")}...), "any []int").fixLen()
	default:
		m := genTree(r, g, 0)
		for hasNonFinite(m) {
			m = genTree(r, g, 0)
		}
		v := buildV(r, m, r.Intn(3))
		c := anyChild(v, m, "*V "+trunc(m.canonSeq(), 200))
		c.v = v
		return c
	}
}

func (c *child) fixLen() *child {
	c.m.A = c.m.A[:len(c.native.([]int))]
	return c
}

// badChild makes a child that no edit may accept
func badChild(r *rand.Rand) *child {
	var c *child
	switch r.Intn(7) {
	case 0:
		c = anyChild(make(chan int), nil, "chan")
		c.e = eAny
	case 1:
		c = anyChild(func() {}, nil, "func")
		c.e = eAny
	case 2:
		c = anyChild(complex(1, 2), nil, "complex")
		c.e = eAny
	case 3:
		c = anyChild((*jv.V)(nil), nil, "nil *V")
		c.e = eUninit
	case 4:
		c = anyChild(&jv.V{}, nil, "NotExist *V")
		c.e = eUninit
	case 5:
		c = anyChild(map[string]any{"a": 1, "b": make(chan int)}, nil, "map with chan")
		c.e = eAny
	default:
		c = anyChild([]any{1, func() {}}, nil, "slice with func")
		c.e = eAny
	}
	return c
}

// ---------------------------------------------------------------- histories

// Hist is a document and its model, edited in lock step
type Hist struct {
	c       *Case
	g       *genCfg
	v       *jv.V
	m       *RV
	ptr     map[*RV]*jv.V // nodes of the document, by model node
	det     []*RV         // nodes that left the document
	log     []string
	bad     int // per cent of deliberately wrong paths and children
	init    string
	forced  []param // the path of the next edit, called on the root
	detBias bool    // work on copies often
	okLast  bool    // whether the last edit succeeded
	held    []*heldOp
	places  []*heldPlace
	look    []*RV // nodes that observe reads again and again
	seen    []string
}

func newHist(c *Case, g *genCfg, m *RV, how int) *Hist {
	h := &Hist{c: c, g: g, m: m, ptr: map[*RV]*jv.V{}, bad: 10}
	if c.big == 0 && c.R.Intn(10) == 0 && m.isCont() && m.size() < 200 && !hasNonFinite(m) {
		how = 3
		repeatParts(c.R, m)
	}
	h.init = fmt.Sprintf("start (built %d) %s", how, trunc(m.canonSeq(), 1500))
	c.Note("%s", h.init)
	if how == 3 {
		h.v = importShared(c, m)
		c.Hit("shared_import")
	} else {
		h.v = buildV(c.R, m, how)
	}
	h.verify(true)
	return h
}

func (h *Hist) fail(format string, a ...any) {
	h.note()
	h.c.Fail("after %d steps: %s", len(h.log), fmt.Sprintf(format, a...))
}

func (h *Hist) note() {
	l := h.log
	s := ""
	if len(l) > 60 {
		s = fmt.Sprintf("(%d earlier steps) ", len(l)-60)
		l = l[len(l)-60:]
	}
	h.c.Note("%s; %s%s", h.init, s, strings.Join(l, "; "))
}

// verify compares document and model, node identity, and with order also the set sequences
func (h *Hist) verify(order bool) {
	var walk func(v *jv.V, r *RV, path string)
	walk = func(v *jv.V, r *RV, path string) {
		if p, ok := h.ptr[r]; ok {
			if p != v {
				h.fail("%s: the node there was replaced by another node", path)
			}
		} else {
			h.ptr[r] = v
		}
		switch r.K {
		case kArr:
			if !v.IsArray() || v.Len() != len(r.A) {
				h.fail("%s", diffAt(v, r, path, true))
			}
			n := 0
			v.RangeArray(func(i int, x *jv.V) bool {
				walk(x, r.A[i], path+"["+strconv.Itoa(i)+"]")
				n++
				return true
			})
			if n != len(r.A) {
				h.fail("%s: iteration visited %d of %d elements", path, n, len(r.A))
			}
		case kObj:
			if !v.IsObject() || v.Len() != len(r.O) {
				h.fail("%s", diffAt(v, r, path, true))
			}
			n := 0
			f := v.RangeObjects
			if order {
				f = v.RangeObjectsBySetSequence
			}
			f(func(k string, x *jv.V) bool {
				y, ok := r.O[k]
				if !ok {
					h.fail("%s: unexpected key %q, want %q", path, k, r.Keys)
				}
				if order && r.Keys[n] != k {
					var ks []string
					v.RangeObjectsBySetSequence(func(k string, _ *jv.V) bool { ks = append(ks, k); return true })
					h.fail("%s: set sequence %q, want %q", path, ks, r.Keys)
				}
				walk(x, y, path+"."+strconv.Quote(k))
				n++
				return true
			})
			if n != len(r.O) {
				h.fail("%s: iteration visited %d of %d keys", path, n, len(r.O))
			}
		default:
			if d := diffAt(v, r, path, true); d != "" {
				h.fail("%s", d)
			}
		}
	}
	walk(h.v, h.m, "$")
	for _, x := range h.det {
		walk(h.ptr[x], x, "(detached)")
	}
}

// takeDetached offers a node that left the document as a child to put back, if that can make no cycle or sharing
func (h *Hist) takeDetached(b *RV) *child {
	if len(h.det) == 0 {
		return nil
	}
	i := h.c.R.Intn(len(h.det))
	x := h.det[i]
	in := map[*RV]bool{}
	for _, y := range nodes(h.m, nil) {
		in[y] = true
	}
	if !in[b] {
		return nil
	}
	sub := nodes(x, nil)
	for _, y := range sub {
		if in[y] {
			return nil
		}
		in[y] = true
	}
	// other detached nodes inside x, or around it, would be shared
	var rest []*RV
	for _, y := range h.det {
		keep := true
		for _, z := range nodes(y, nil) {
			if z == x {
				keep = false
			}
		}
		for _, z := range sub {
			if z == y {
				keep = false
			}
		}
		if keep {
			rest = append(rest, y)
		}
	}
	h.det = rest
	k := anyChild(h.ptr[x], x, "detached *V "+trunc(x.canonSeq(), 200))
	k.v = h.ptr[x]
	return k
}

// takeAttached offers a node that is part of the document already as a child to put in another place as well, if
// that makes no cycle. Both places hold that node then.
func (h *Hist) takeAttached(b *RV, ps []param) *child {
	if h.m.size() > 120 {
		return nil
	}
	all := nodes(h.m, nil)
	for try := 0; try < 4; try++ {
		x := all[h.c.R.Intn(len(all))]
		if h.ptr[x] == nil || x.size() > 12 || !x.isCont() && h.c.R.Intn(2) == 0 || !mayPlace(b, ps, x) {
			continue
		}
		k := anyChild(h.ptr[x], x, "attached *V "+trunc(x.canonSeq(), 200))
		k.v = h.ptr[x]
		return k
	}
	return nil
}

// nodes lists the model nodes reachable from r
func nodes(r *RV, out []*RV) []*RV {
	out = append(out, r)
	for _, x := range r.A {
		out = nodes(x, out)
	}
	for _, k := range r.Keys {
		out = nodes(r.O[k], out)
	}
	return out
}

// age sets one key of an object n times, so that its later members are set late in a long history
func (h *Hist) age(o *RV, n int, key string) {
	h.log = append(h.log, fmt.Sprintf("key %q of %s set %d times", key, trunc(o.canonSeq(), 60), n))
	h.c.NoteMore("; %s", h.log[len(h.log)-1])
	v := h.ptr[o]
	for i := 0; i < n; i++ {
		v.MustSetInt(i).At(key)
	}
	o.set(key, numOf(n-1))
	h.c.Eval(1)
	h.c.Hit("aged")
	h.verify(true)
}

// fork goes on with a deep copy of the document, or puts a deep copy of a node beside it; both stay under watch
func (h *Hist) fork() {
	r := h.c.R
	if h.m.size() > 150 {
		return
	}
	var cs []*RV
	for _, x := range append(nodes(h.m, nil), h.det...) {
		if x.isCont() && h.ptr[x] != nil {
			cs = append(cs, x)
		}
	}
	x := h.m
	if r.Intn(3) == 0 && len(cs) > 0 {
		x = cs[r.Intn(len(cs))]
	}
	if !x.isCont() {
		return
	}
	how := "Import"
	var v *jv.V
	var err error
	if r.Intn(3) == 0 {
		how = "New"
		v = jv.New(h.ptr[x])
	} else {
		v, err = jv.Import(h.ptr[x])
	}
	if err != nil {
		h.fail("Import: %v", err)
	}
	if v == h.ptr[x] { // not a copy: nothing to watch
		return
	}
	h.log = append(h.log, "copy by "+how+" of "+trunc(x.canonSeq(), 60))
	h.c.NoteMore("; %s", h.log[len(h.log)-1])
	h.c.Hit("forked")
	y := x.clone()
	h.ptr[y] = v
	if x == h.m && r.Intn(2) == 0 {
		h.m, h.v = y, v
		y = x
	}
	if len(h.det) > 5 {
		h.det = h.det[1:]
	}
	h.det = append(h.det, y)
	h.detBias = true
	h.verify(true)
}

// base picks the node an operation is called on
func (h *Hist) base() (*RV, *jv.V, string) {
	r := h.c.R
	if h.detBias && len(h.det) > 0 && r.Intn(3) == 0 {
		x := h.det[len(h.det)-1]
		if p := h.ptr[x]; p != nil {
			return x, p, "copied " + trunc(x.canonSeq(), 60)
		}
	}
	if r.Intn(3) != 0 {
		return h.m, h.v, "root"
	}
	if len(h.det) > 0 && r.Intn(4) == 0 {
		x := h.det[r.Intn(len(h.det))]
		if p := h.ptr[x]; p != nil {
			return x, p, "detached " + trunc(x.canonSeq(), 60)
		}
	}
	ns := nodes(h.m, nil)
	x := ns[r.Intn(len(ns))]
	return x, h.ptr[x], "node " + trunc(x.canonSeq(), 60)
}

// onlyCont finds the first container among the first members of t
func (t *RV) onlyCont() (string, *RV, int) {
	for i, x := range t.A {
		if x.isCont() {
			return "", x, i
		}
		if i > 8 {
			break
		}
	}
	for i, k := range t.Keys {
		if t.O[k].isCont() {
			return k, t.O[k], i
		}
		if i > 8 {
			break
		}
	}
	return "", nil, 0
}

// path walks down from b and then possibly goes astray
var indexLike = []string{"-", "0", "-1", "", "*", "+", "$", "#", "0x0", "1e0", " 0", "00", "+0", "last", "first", "length", "end", "0.0", "[0]", "null", "1", "2"}

func (h *Hist) path(b *RV, maxLen int) []param {
	r := h.c.R
	var ps []param
	cur := b
	far := false // a long way down
	if maxLen > 2 {
		if d := b.height(20); d > 4 && r.Intn(2) == 0 || r.Intn(60) == 0 {
			far = true
			maxLen = 4 + r.Intn(max(d, 8))
		}
	}
	for len(ps) < maxLen {
		if len(ps) > 0 && !far && r.Intn(3) == 0 {
			break
		}
		if far && cur != nil && r.Intn(8) != 0 { // into the container that is there
			if k, x, i := cur.onlyCont(); x != nil {
				if cur.K == kObj {
					ps = append(ps, strParam(r, k))
				} else {
					if r.Intn(3) == 0 {
						i -= len(cur.A)
					}
					ps = append(ps, intParam(r, i))
				}
				cur = x
				continue
			}
		}
		if r.Intn(100) < h.bad {
			ps = append(ps, oddParam(r))
			if cur != nil && r.Intn(2) == 0 {
				cur = nil
			}
			continue
		}
		switch {
		case cur != nil && cur.K == kObj:
			if len(cur.Keys) > 0 && r.Intn(4) != 0 {
				k := cur.Keys[r.Intn(len(cur.Keys))]
				ps = append(ps, strParam(r, k))
				cur = cur.O[k]
			} else if r.Intn(10) == 0 {
				ps = append(ps, intParam(r, r.Intn(3)))
				cur = nil
			} else {
				ps = append(ps, strParam(r, genKey(r, h.g)))
				cur = cur.O[ps[len(ps)-1].s]
			}
		case cur != nil && cur.K == kArr:
			n := len(cur.A)
			i := 0
			switch r.Intn(8) {
			case 0, 1, 2:
				if n > 0 {
					i = r.Intn(n)
				}
			case 3, 4:
				if n > 0 {
					i = -1 - r.Intn(n)
				} else {
					i = -1
				}
			case 5, 6:
				i = n
			default:
				i = []int{n + 1, -n - 1, n + 100, -1000, math.MaxInt64, math.MinInt64}[r.Intn(6)]
			}
			if r.Intn(20) == 0 { // a key is no index, whatever it says
				k := strconv.Itoa(i)
				if r.Intn(2) == 0 {
					k = indexLike[r.Intn(len(indexLike))]
				}
				ps = append(ps, strParam(r, k))
				cur = nil
				continue
			}
			ps = append(ps, intParam(r, i))
			if j := idxRead(cur.A, i); j >= 0 {
				cur = cur.A[j]
			} else {
				cur = nil
			}
		default:
			switch r.Intn(4) {
			case 0:
				ps = append(ps, intParam(r, 0))
			case 1:
				ps = append(ps, intParam(r, r.Intn(4)-2))
			default:
				ps = append(ps, strParam(r, genKey(r, h.g)))
			}
			cur = nil
			if len(ps) > 1 && !far && r.Intn(2) == 0 {
				return ps
			}
		}
	}
	return ps
}

func (h *Hist) genKid() *child {
	if h.c.R.Intn(100) < h.bad {
		return badChild(h.c.R)
	}
	return genChild(h.c.R, h.g)
}

// heldOp is an edit whose first half has been called: what Set, Append, Insert or At returned is completed later, after
// other edits, and possibly more than once
type heldOp struct {
	op      int
	bm      *RV
	bv      *jv.V
	kid     *child
	builder any
	used    int
}

// hold calls the first half of an edit only
func (h *Hist) hold(op int, bm *RV, bv *jv.V, kid *child, must bool) {
	x := &heldOp{op: op, bm: bm, bv: bv, kid: kid}
	switch {
	case op == 0 && must:
		x.builder = kid.mset(bv)
	case op == 0:
		x.builder = kid.set(bv)
	case op <= 2 && must:
		x.builder = kid.mapp(bv)
	case op <= 2:
		x.builder = kid.app(bv)
	case must:
		x.builder = kid.mins(bv)
	default:
		x.builder = kid.ins(bv)
	}
	h.held = append(h.held, x)
}

// complete calls the second half
func (x *heldOp) complete(op int, first any, rest []any, how string) (ret *jv.V, err error, known bool) {
	var args []any
	if how != "none" {
		args = append([]any{first}, rest...)
	}
	switch b := x.builder.(type) {
	case jv.Setter:
		ret, err = b.At(first, rest...)
		return ret, err, true
	case jv.Appender:
		if op == 1 {
			ret, err = b.InTheEnd(args...)
		} else {
			ret, err = b.InTheBeginning(args...)
		}
		return ret, err, true
	case jv.Inserter:
		if op == 3 {
			ret, err = b.Before(first, rest...)
		} else {
			ret, err = b.After(first, rest...)
		}
		return ret, err, true
	case jv.MustSetter:
		b.At(first, rest...)
	case jv.MustAppender:
		if op == 1 {
			b.InTheEnd(args...)
		} else {
			b.InTheBeginning(args...)
		}
	case jv.MustInserter:
		if op == 3 {
			b.Before(first, rest...)
		} else {
			b.After(first, rest...)
		}
	}
	return nil, nil, false
}

// takeHeld picks a held operation whose base is still known
func (h *Hist) takeHeld() *heldOp {
	i := h.c.R.Intn(len(h.held))
	x := h.held[i]
	if h.knows(x.bm, x.bv) {
		return x
	}
	h.held = append(h.held[:i:i], h.held[i+1:]...)
	return nil
}

// knows tells whether a node is part of the document or of what was taken out of it
func (h *Hist) knows(m *RV, v *jv.V) bool {
	if h.ptr[m] != v {
		return false
	}
	for _, y := range append([]*RV{h.m}, h.det...) {
		for _, z := range nodes(y, nil) {
			if z == m {
				return true
			}
		}
	}
	return false
}

// heldPlace is what At returned, which takes any number of values one after the other
type heldPlace struct {
	bm     *RV
	bv     *jv.V
	ps     []param
	how    string
	setter jv.AtSetter
}

// mayPlace tells whether x can be put there without making a cycle, or being twice in one array
func mayPlace(b *RV, ps []param, x *RV) bool {
	way := map[*RV]bool{b: true}
	for i := range ps {
		if y, _ := mGet(b, ps[:i+1]); y != nil {
			way[y] = true
		}
	}
	for _, y := range nodes(x, nil) {
		if way[y] {
			return false
		}
	}
	for y := range way { // the model of sorting tells elements by their nodes
		for _, z := range y.A {
			if z == x {
				return false
			}
		}
	}
	return true
}

var opNames = []string{"Set", "Append.End", "Append.Beginning", "Insert.Before", "Insert.After", "Delete"}

// edit does one random edit on the document and on the model. ops are weights over opNames.
// It returns whether the edit was expected to succeed.
func (h *Hist) edit(ops [6]int) bool {
	r, c := h.c.R, h.c
	total := 0
	for _, w := range ops {
		total += w
	}
	x, op := r.Intn(total), 0
	for x >= ops[op] {
		x -= ops[op]
		op++
	}
	bm, bv, bdesc := h.base()
	var held *heldOp
	if h.forced == nil && len(h.held) > 0 && r.Intn(6) == 0 {
		if held = h.takeHeld(); held != nil {
			bm, bv, op = held.bm, held.bv, held.op
			bdesc = "held " + trunc(bm.canonSeq(), 60)
			if op == 1 || op == 2 { // an Appender, which can do both
				op = 1 + r.Intn(2)
			} else if op >= 3 {
				op = 3 + r.Intn(2)
			}
		}
	}
	var place *heldPlace
	if h.forced == nil && held == nil && len(h.places) > 0 && r.Intn(10) == 0 {
		i := r.Intn(len(h.places))
		if place = h.places[i]; h.knows(place.bm, place.bv) {
			bm, bv, op, bdesc = place.bm, place.bv, 0, "held place in "+trunc(place.bm.canonSeq(), 60)
		} else {
			h.places = append(h.places[:i:i], h.places[i+1:]...)
			place = nil
		}
	}
	maxLen := 1 + r.Intn(4)
	ps := h.path(bm, maxLen)
	if place != nil {
		ps = place.ps
	}
	switch op {
	case 1, 2:
		switch {
		case r.Intn(3) == 0:
			ps = nil
		case r.Intn(2) == 0: // address an array that exists
			if q := h.arrayPath(bm); q != nil {
				ps = q
			}
		}
	case 3, 4:
		if r.Intn(3) != 0 {
			if q := h.arrayPath(bm); q != nil {
				a, _ := mGet(bm, q)
				n := len(a.A)
				i := r.Intn(2*n+3) - n - 1
				ps = append(q[:len(q):len(q)], intParam(r, i))
			} else if bm.K == kArr {
				n := len(bm.A)
				ps = []param{intParam(r, r.Intn(2*n+3)-n-1)}
			}
		}
	}
	if h.forced != nil {
		bm, bv, bdesc = h.m, h.v, "root"
		ps = h.forced
	}
	var kid *child
	if held != nil {
		kid = held.kid
		if !mayPlace(bm, ps, kid.m) {
			return false
		}
	} else if op != 5 {
		kid = h.genKid()
		if r.Intn(12) == 0 {
			if k := h.takeDetached(bm); k != nil {
				kid = k
				c.Hit("reattached")
			}
		} else if r.Intn(20) == 0 {
			if k := h.takeAttached(bm, ps); k != nil {
				kid = k
				c.Hit("second_place")
			}
		}
	}
	must := r.Intn(4) == 0
	atFirst := op == 0 && r.Intn(8) == 0 && held == nil && place == nil
	if held == nil && place == nil && h.forced == nil && kid != nil && kid.m != nil && h.ptr[kid.m] == nil && len(h.held) < 4 && r.Intn(10) == 0 {
		h.log = append(h.log, fmt.Sprintf("%s: %s %s is begun (must %v)", bdesc, opNames[op], kid.desc, must))
		h.c.NoteMore("; %s", h.log[len(h.log)-1])
		h.hold(op, bm, bv, kid, must)
		c.Hit("held")
		return false
	}

	if op != 1 && op != 2 && len(ps) == 0 && r.Intn(4) != 0 {
		ps = []param{strParam(r, genKey(r, h.g))}
	}
	first, rest, how := spell(r, ps)
	if (op == 1 || op == 2) && len(ps) == 0 && r.Intn(2) == 0 {
		first, rest, how = nil, nil, "none"
	}
	multi := false
	if place != nil {
		how = place.how
	} else if how != "list" && how != "none" && r.Intn(100) < h.bad {
		rest = []any{oddParam(r).go_}
		multi = true
	}
	desc := fmt.Sprintf("%s: %s", bdesc, opNames[op])
	if kid != nil {
		desc += " " + kid.desc
	}
	desc += " at " + paramsString(ps) + " as " + how
	if multi {
		desc += " plus surplus parameter"
	}
	if must {
		desc += " (Must)"
	}
	if atFirst {
		desc += " (At first)"
	}
	h.log = append(h.log, desc)
	h.c.NoteMore("; %s", desc)

	// model
	before := nodes(bm, nil)
	want := eNone
	switch {
	case multi && kid != nil && kid.m == nil:
		want = eAny
	case multi:
		want = eMulti
	case kid != nil && kid.m == nil:
		want = kid.e
		if len(ps) == 0 || want == eUninit {
			want = eAny
			if kid.e == eUninit && bm.isCont() {
				want = eUninit
			}
		}
	case op == 0:
		want = mSet(bm, kid.m, ps)
	case op == 1 || op == 2:
		want = mAppend(bm, kid.m, ps, op == 2)
	case op == 3 || op == 4:
		want = mInsert(bm, kid.m, ps, op == 4)
	default:
		want = mDelete(bm, ps)
	}

	// library
	var ret *jv.V
	var err error
	known := true
	switch {
	case held != nil:
		ret, err, known = held.complete(op, first, rest, how)
		if held.used++; held.used > 1 {
			c.Hit("held_again")
		}
		c.Hit("held_completed")
	case op == 5 && must:
		bv.MustDelete(first, rest...)
		known = false
	case op == 5:
		err = bv.Delete(first, rest...)
	case place != nil:
		kid.atSet(place.setter)
		known = false
		c.Hit("place_again")
	case op == 0 && atFirst:
		setter := bv.At(first, rest...)
		kid.atSet(setter)
		known = false
		if !multi && len(h.places) < 3 && r.Intn(2) == 0 {
			h.places = append(h.places, &heldPlace{bm: bm, bv: bv, ps: ps, how: how, setter: setter})
		}
	case op == 0 && must:
		kid.mset(bv).At(first, rest...)
		known = false
	case op == 0:
		ret, err = kid.set(bv).At(first, rest...)
	case op <= 2:
		var args []any
		if how != "none" {
			args = append([]any{first}, rest...)
		}
		switch {
		case must && op == 1:
			kid.mapp(bv).InTheEnd(args...)
			known = false
		case must:
			kid.mapp(bv).InTheBeginning(args...)
			known = false
		case op == 1:
			ret, err = kid.app(bv).InTheEnd(args...)
		default:
			ret, err = kid.app(bv).InTheBeginning(args...)
		}
	case op == 3 && must:
		kid.mins(bv).Before(first, rest...)
		known = false
	case op == 3:
		ret, err = kid.ins(bv).Before(first, rest...)
	case must:
		kid.mins(bv).After(first, rest...)
		known = false
	default:
		ret, err = kid.ins(bv).After(first, rest...)
	}
	c.Eval(1)
	if known {
		if !errMatches(err, want) {
			h.fail("last step returned error %v, expected %s", err, eNames[want])
		}
		if op != 5 {
			if ret == nil {
				h.fail("last step returned a nil value")
			}
			if want != eNone && ret.ValueType() != jv.NotExist {
				h.fail("last step failed with %v but returned a value of type %v", err, ret.ValueType())
			}
		}
	}
	h.okLast = want == eNone
	if want != eNone {
		c.Hit("rejected_" + eNames[want])
		return false
	}
	c.Hit("ok_" + opNames[op])
	if kid != nil {
		if kid.v != nil {
			h.ptr[kid.m] = kid.v
		}
		if ret != nil && known {
			if kid.v != nil && ret != kid.v {
				h.fail("last step returned another node than the one put into the document")
			}
			h.ptr[kid.m] = ret // verify() then demands that this very node is in the document
		}
	}
	// nodes that left the document stay usable
	if r.Intn(4) == 0 {
		now := map[*RV]bool{}
		for _, x := range nodes(bm, nil) {
			now[x] = true
		}
		for _, x := range before {
			if !now[x] && x.isCont() && h.ptr[x] != nil && len(h.det) < 20 {
				h.det = append(h.det, x)
				c.Hit("detached")
			}
		}
	}
	return true
}

// arrayPath finds a path from b to some array below it
func (h *Hist) arrayPath(b *RV) []param {
	r := h.c.R
	var found [][]param
	var walk func(x *RV, p []param)
	walk = func(x *RV, p []param) {
		if x.K == kArr && len(p) > 0 {
			found = append(found, p)
		}
		for i, y := range x.A {
			j := i
			if r.Intn(3) == 0 {
				j = i - len(x.A)
			}
			walk(y, append(p[:len(p):len(p)], intParam(r, j)))
		}
		for _, k := range x.Keys {
			walk(x.O[k], append(p[:len(p):len(p)], strParam(r, k)))
		}
	}
	walk(b, nil)
	if len(found) == 0 {
		return nil
	}
	return found[r.Intn(len(found))]
}

// sortSome sorts one array of the document and follows in the model
func (h *Hist) sortSome() {
	var arrs []*RV
	for _, x := range nodes(h.m, nil) {
		if x.K == kArr {
			arrs = append(arrs, x)
		}
	}
	if len(arrs) == 0 {
		return
	}
	a := arrs[h.c.R.Intn(len(arrs))]
	desc := h.c.R.Intn(2) == 0
	h.log = append(h.log, "SortArray of "+trunc(a.canonSeq(), 60))
	h.c.NoteMore("; SortArray of %s", trunc(a.canonSeq(), 60))
	rank := map[*jv.V]int{}
	order := append([]*RV(nil), a.A...)
	sort.SliceStable(order, func(i, j int) bool { return order[i].canon() < order[j].canon() })
	for i, x := range order {
		p := h.ptr[x]
		if p == nil {
			h.verify(false)
			p = h.ptr[x]
		}
		rank[p] = i
	}
	h.ptr[a].SortArray(func(x, y *jv.V) bool {
		i, ok1 := rank[x]
		j, ok2 := rank[y]
		if !ok1 || !ok2 {
			h.fail("SortArray compares a value that is not an element")
		}
		if desc {
			return i > j
		}
		return i < j
	})
	if desc {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	a.A = order
	h.c.Eval(1)
	h.c.Hit("sorted")
}

// editBoth does one successful or failing edit on a document and its model, without identity tracking
func editBoth(c *Case, v *jv.V, t *RV, g *genCfg) {
	h := &Hist{c: c, g: g, v: v, m: t, ptr: map[*RV]*jv.V{}, bad: 5, init: trunc(t.canonSeq(), 500)}
	h.verify(false)
	h.edit([6]int{5, 2, 1, 1, 1, 3})
}

// observe reads the document between edits, in ways that must show its present state: output by several entry points,
// reads of single members (also of those that were just deleted or replaced), iteration, copies and comparison.
// Whatever the library remembers from one read must not outlive an edit.
func (h *Hist) observe() {
	r, c := h.c.R, h.c
	if len(h.look) == 0 || r.Intn(12) == 0 {
		// favour some nodes, so that the same ones are read again after edits elsewhere
		h.look = h.look[:0]
		for _, x := range nodes(h.m, nil) {
			if x.isCont() && (len(h.look) < 4 || r.Intn(8) == 0) {
				h.look = append(h.look, x)
			}
		}
		h.look = append(h.look, h.m)
	}
	x := h.look[r.Intn(len(h.look))]
	v := h.ptr[x]
	if v == nil || r.Intn(3) == 0 {
		x, v = h.m, h.v
	}
	c.Hit("observed_between_edits")
	c.Eval(1)
	switch r.Intn(8) {
	case 0, 1, 2: // output
		var out []byte
		var err error
		what := ""
		ordered := false
		switch r.Intn(6) {
		case 0:
			what = "MarshalJSON"
			out, err = v.MarshalJSON()
		case 1:
			what = "MarshalString"
			var s string
			s, err = v.MarshalString()
			out = []byte(s)
		case 2:
			what = "MustMarshal"
			out = v.MustMarshal()
		case 3:
			what, ordered = "Marshal(OptSetSequence)", true
			out, err = v.Marshal(jv.OptSetSequence())
		default:
			what = "Marshal"
			out, err = v.Marshal()
		}
		if err != nil {
			h.fail("%s between edits: %v", what, err)
		}
		p := refParse(out, false)
		if !p.ok {
			h.fail("%s between edits gives invalid JSON %q", what, trunc(string(out), 500))
		}
		if d := diffOut(p.v, x, ordered, "$"); d != "" {
			h.fail("%s between edits: %s", what, d)
		}
	case 3: // copy
		w, err := jv.Import(v)
		if err != nil {
			h.fail("Import between edits: %v", err)
		}
		if d := diffV(w, x); d != "" {
			h.fail("deep copy made between edits: %s", d)
		}
		if !w.Equal(v) || !v.Equal(w) {
			h.fail("a deep copy made between edits is not equal to its original")
		}
	default: // single reads
		for k := 0; k < 4; k++ {
			var key string
			switch {
			case x.K == kObj && len(h.seen) > 0 && r.Intn(2) == 0:
				key = h.seen[r.Intn(len(h.seen))]
			case x.K == kObj && len(x.Keys) > 0:
				key = x.Keys[r.Intn(len(x.Keys))]
			case x.K == kArr:
				i := r.Intn(2*len(x.A)+3) - len(x.A) - 1
				y, err := v.Get(i)
				if j := idxRead(x.A, i); j < 0 {
					if !errors.Is(err, jv.ErrOutOfRange) {
						h.fail("Get(%d) of an array of %d between edits: %v, %v", i, len(x.A), y, err)
					}
				} else if err != nil || h.ptr[x.A[j]] != nil && y != h.ptr[x.A[j]] {
					h.fail("Get(%d) of an array of %d between edits: %v, %v", i, len(x.A), y, err)
				}
				continue
			default:
				key = genKey(r, h.g)
			}
			if len(h.seen) < 6 {
				h.seen = append(h.seen, key)
			} else if r.Intn(4) == 0 {
				h.seen[r.Intn(len(h.seen))] = key
			}
			if x.K != kObj {
				break
			}
			y, err := v.Get(key)
			if m, ok := x.O[key]; !ok {
				if !errors.Is(err, jv.ErrNotFound) || y.ValueType() != jv.NotExist {
					h.fail("Get(%q) between edits of a key that is not there: %v, %v", key, y, err)
				}
			} else if err != nil || h.ptr[m] != nil && y != h.ptr[m] {
				h.fail("Get(%q) between edits gives another node (error %v)", key, err)
			}
		}
		if x.isCont() && v.Len() != x.length() {
			h.fail("Len between edits is %d, want %d", v.Len(), x.length())
		}
	}
}
