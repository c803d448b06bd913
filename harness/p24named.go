package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"time"
)

// Named types with methods that say something else than the value. None of these methods is one that JSON asks for.
type (
	sStr   string
	sInt   int
	sI8    int8
	sI16   int16
	sI32   int32
	sI64   int64
	sUint  uint
	sU8    uint8
	sU16   uint16
	sU32   uint32
	sU64   uint64
	sF32   float32
	sF64   float64
	sBool  bool
	sBytes []byte
	eStr   string
	eInt   int64
	eU     uint64
	eF     float64
	eBool  bool
	bStr   string
	bInt   int64
	bF     float64
	zStr   string
	zInt   int64
)

const lie = "what a method says"

func (sStr) String() string   { return lie }
func (sInt) String() string   { return lie }
func (sI8) String() string    { return lie }
func (sI16) String() string   { return lie }
func (sI32) String() string   { return lie }
func (sI64) String() string   { return lie }
func (sUint) String() string  { return lie }
func (sU8) String() string    { return lie }
func (sU16) String() string   { return lie }
func (sU32) String() string   { return lie }
func (sU64) String() string   { return lie }
func (sF32) String() string   { return lie }
func (sF64) String() string   { return lie }
func (sBool) String() string  { return lie }
func (sBytes) String() string { return lie }
func (eStr) Error() string    { return lie }
func (eInt) Error() string    { return lie }
func (eU) Error() string      { return lie }
func (eF) Error() string      { return lie }
func (eBool) Error() string   { return lie }

func (bStr) MarshalBinary() ([]byte, error)      { return []byte(lie), nil }
func (bStr) GoString() string                    { return lie }
func (bStr) Format(f fmt.State, _ rune)          { _, _ = f.Write([]byte(lie)) }
func (bInt) MarshalBinary() ([]byte, error)      { return []byte(lie), nil }
func (bInt) Int64() int64                        { return 7 }
func (bInt) Int() int                            { return 7 }
func (bInt) Float64() (float64, error)           { return 7, nil }
func (bF) Float64() float64                      { return 7 }
func (bF) Format(f fmt.State, _ rune)            { _, _ = f.Write([]byte(lie)) }
func (zStr) IsZero() bool                        { return true }
func (zStr) Bytes() []byte                       { return []byte(lie) }
func (zStr) Len() int                            { return 0 }
func (zInt) IsZero() bool                        { return true }
func (zInt) Value() (any, error)                 { return lie, nil }
func (zStr) AppendFormat(b []byte, _ int) []byte { return append(b, lie...) }

func typesOf(l ...any) (out []reflect.Type) {
	for _, x := range l {
		out = append(out, reflect.TypeOf(x))
	}
	return
}

// withMethods lists them by kind; what a value is converted to keeps all of its bits
var withMethods = map[reflect.Type][]reflect.Type{
	reflect.TypeOf(0):           typesOf(sInt(0), eInt(0), bInt(0), time.Duration(0), time.Month(0), zInt(0)),
	reflect.TypeOf(int8(0)):     typesOf(sI8(0)),
	reflect.TypeOf(int16(0)):    typesOf(sI16(0)),
	reflect.TypeOf(int32(0)):    typesOf(sI32(0)),
	reflect.TypeOf(int64(0)):    typesOf(sI64(0), eInt(0), bInt(0), time.Duration(0), zInt(0)),
	reflect.TypeOf(uint(0)):     typesOf(sUint(0), eU(0)),
	reflect.TypeOf(uint8(0)):    typesOf(sU8(0), reflect.Kind(0)),
	reflect.TypeOf(uint16(0)):   typesOf(sU16(0)),
	reflect.TypeOf(uint32(0)):   typesOf(sU32(0), os.FileMode(0)),
	reflect.TypeOf(uint64(0)):   typesOf(sU64(0), eU(0)),
	reflect.TypeOf(float32(0)):  typesOf(sF32(0)),
	reflect.TypeOf(float64(0)):  typesOf(sF64(0), eF(0), bF(0)),
	reflect.TypeOf(""):          typesOf(sStr(""), eStr(""), bStr(""), zStr("")),
	reflect.TypeOf(true):        typesOf(sBool(true), eBool(true)),
	reflect.TypeOf([]byte(nil)): typesOf(sBytes(nil)),
}

// named gives x in a named type of its kind, or x itself
func named(r *rand.Rand, x any) any {
	rv := reflect.ValueOf(x)
	if x == nil {
		return x
	}
	l := withMethods[rv.Type()]
	if n := namedOf[rv.Type()]; n != nil && (len(l) == 0 || r.Intn(3) == 0) {
		return rv.Convert(n).Interface()
	}
	if len(l) == 0 {
		return x
	}
	return rv.Convert(l[r.Intn(len(l))]).Interface()
}
