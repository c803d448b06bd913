package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Plain destinations, the kind for which code likes to take a short cut: lists
// and maps of one basic type, prefilled, with documents that nearly fit.

var directLeaves = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), kindTypes[reflect.Interface], typeNumber, typeRaw,
	reflect.TypeOf(time.Duration(0)), reflect.TypeOf(MyStr("")), reflect.TypeOf(struct {
		A int    `json:"a"`
		B string `json:"b,omitempty"`
	}{}), reflect.TypeOf((*jv.V)(nil)),
}

func directType(r *rand.Rand) reflect.Type {
	// the common leaves most often
	t := directLeaves[[]int{0, 1, 2, 6, 11, 13, 14}[r.Intn(7)]]
	if r.Intn(2) == 0 {
		t = directLeaves[r.Intn(len(directLeaves))]
	}
	for n := []int{0, 1, 1, 1, 1, 2, 2, 3}[r.Intn(8)]; n > 0; n-- {
		switch r.Intn(9) {
		case 0, 1, 2, 3:
			t = reflect.SliceOf(t)
		case 4, 5, 6:
			t = reflect.MapOf(directLeaves[0], t)
		case 7:
			t = reflect.PointerTo(t)
		default:
			t = reflect.ArrayOf(r.Intn(4), t)
		}
	}
	return t
}

func directScalar(r *rand.Rand) *RV {
	switch r.Intn(7) {
	case 0, 1:
		return rNull()
	case 2:
		return rNum([]string{"0", "-0", "1.0", "1e2", "1E0", "127", "128", "255", "256", "-1", "-129", "65536", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "0.5", "1e-3", "3.5e38", "1e40", "100e-2"}[r.Intn(22)])
	case 3:
		return rStr(genString(r))
	case 4:
		return rStr([]string{"1", "null", "true", "2020-01-01T00:00:00Z", "AQID", "AQI", "1.5"}[r.Intn(7)])
	}
	return genTree(r, &genCfg{maxDepth: 2, maxKids: 3, nulls: 3}, 0)
}

// lengthen gives slices spare capacity with something in it
func lengthen(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() && r.Intn(3) != 0 {
			return
		}
		n := v.Len()
		w := reflect.MakeSlice(v.Type(), n+r.Intn(6), n+6)
		reflect.Copy(w, v)
		for i := n; i < w.Len() && n > 0; i++ {
			fillValue(r, w.Index(i), &fillCtx{allNil: true, budget: 20}, false, 0)
		}
		v.Set(w.Slice(0, r.Intn(w.Len()+1)))
	case reflect.Pointer:
		if !v.IsNil() && v.Type().Elem() != typeV {
			lengthen(r, v.Elem())
		}
	}
}

func p16Direct(c *Case) {
	r := c.R
	typ := directType(r)
	c.Note("type %v", typ)
	src := reflect.New(typ)
	fillValue(r, src.Elem(), &fillCtx{nilOK: true, budget: 60}, false, 0)
	b, err := json.Marshal(src.Interface())
	if err != nil {
		return
	}
	res := refParse(b, false)
	if !res.ok {
		return // a json.RawMessage or such
	}
	t := res.v
	for n := r.Intn(4); n > 0; n-- {
		switch all := nodes(t, nil); {
		case len(all) > 1 && r.Intn(8) != 0:
			*all[1+r.Intn(len(all)-1)] = *directScalar(r)
		default:
			switch t.K {
			case kArr:
				switch r.Intn(3) {
				case 0:
					t.A = t.A[:r.Intn(len(t.A)+1)]
				default:
					for k := r.Intn(4); k >= 0; k-- {
						t.A = append(t.A, directScalar(r))
					}
				}
			case kObj:
				if len(t.Keys) > 0 && r.Intn(2) == 0 {
					t.del(t.Keys[r.Intn(len(t.Keys))])
				} else {
					t.set(genString(r), directScalar(r))
				}
			default:
				*t = *directScalar(r)
			}
		}
	}
	unambiguous(t)
	if !inRange(t) {
		return
	}
	v, t := p16Doc(c, t)
	filled, seed := r.Intn(4) != 0, r.Int63()
	c.Note("type %v prefilled %v document %s", typ, filled, trunc(renderExact(t), 2500))
	p16Check(c, v, t, func() reflect.Value {
		p := reflect.New(typ)
		if filled {
			q := newRand(seed)
			fillValue(q, p.Elem(), &fillCtx{allNil: true, budget: 60}, false, 0)
			lengthen(q, p.Elem())
		}
		return p
	})
	c.Hit("direct")
}
