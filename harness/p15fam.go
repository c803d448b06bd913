package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"unsafe"
)

// Families of struct types that embed one another in circles, by pointers, with names that hide one another. What a
// type's fields are must not depend on which type of its family was imported first, so that every family is met once
// in a process, in an order of its own. The parameter only makes families different.

type famA[T any] struct {
	X   int
	One string `json:"one"`
	*famB[T]
	A T `json:"-"`
}

type famB[T any] struct {
	Y   int    `json:"X"`
	One string `json:"one,omitempty"`
	Two int    `json:"two"`
	*famC[T]
	*famA[T]
	B T `json:"-"`
}

type famC[T any] struct {
	X, Z int
	Two  int `json:"two,string"`
	*famA[T]
	famD[T]
	C T `json:"-"`
}

type famD[T any] struct {
	Z     string
	Three []int `json:",omitempty"`
	*famB[T]
	*famE[T] `json:"e,omitempty"`
	D        T `json:"-"`
}

type famE[T any] struct {
	Three int
	X     *int
	*famD[T]
	E T `json:"-"`
}

// the same shapes with exported embedded types
type FamP[T any] struct {
	X   int
	One string
	*FamQ[T]
	A T `json:"-"`
}

type FamQ[T any] struct {
	Y   int `json:"X"`
	One string
	Q   int `json:",omitempty"`
	*FamR[T]
	B T `json:"-"`
}

type FamR[T any] struct {
	X int
	Q bool
	R string `json:"One"`
	*FamP[T]
	FamS[T]
	C T `json:"-"`
}

type FamS[T any] struct {
	S, R int
	*FamQ[T]
	*FamP[T] `json:"p"`
	D        T `json:"-"`
}

type family struct {
	name  string
	types []reflect.Type
}

func famOf[T any](name string) family {
	t := func(x any) reflect.Type { return reflect.TypeOf(x) }
	return family{name, []reflect.Type{t(famA[T]{}), t(famB[T]{}), t(famC[T]{}), t(famD[T]{}), t(famE[T]{}),
		t(FamP[T]{}), t(FamQ[T]{}), t(FamR[T]{}), t(FamS[T]{})}}
}

var families = []family{
	famOf[[0]int]("[0]int"),
	famOf[[1]int]("[1]int"),
	famOf[[2]int]("[2]int"),
	famOf[[3]int]("[3]int"),
	famOf[[4]int]("[4]int"),
	famOf[[5]int]("[5]int"),
	famOf[[6]int]("[6]int"),
	famOf[[7]int]("[7]int"),
	famOf[[8]int]("[8]int"),
	famOf[[9]int]("[9]int"),
	famOf[[10]int]("[10]int"),
	famOf[[11]int]("[11]int"),
	famOf[[12]int]("[12]int"),
	famOf[[13]int]("[13]int"),
	famOf[[14]int]("[14]int"),
	famOf[[15]int]("[15]int"),
	famOf[[16]int]("[16]int"),
	famOf[[17]int]("[17]int"),
	famOf[[18]int]("[18]int"),
	famOf[[19]int]("[19]int"),
	famOf[[20]int]("[20]int"),
	famOf[[21]int]("[21]int"),
	famOf[[22]int]("[22]int"),
	famOf[[23]int]("[23]int"),
	famOf[[0]string]("[0]string"),
	famOf[[1]string]("[1]string"),
	famOf[[2]string]("[2]string"),
	famOf[[3]string]("[3]string"),
	famOf[[4]string]("[4]string"),
	famOf[[5]string]("[5]string"),
	famOf[[6]string]("[6]string"),
	famOf[[7]string]("[7]string"),
	famOf[[8]string]("[8]string"),
	famOf[[9]string]("[9]string"),
	famOf[[10]string]("[10]string"),
	famOf[[11]string]("[11]string"),
	famOf[[12]string]("[12]string"),
	famOf[[13]string]("[13]string"),
	famOf[[14]string]("[14]string"),
	famOf[[15]string]("[15]string"),
	famOf[[16]string]("[16]string"),
	famOf[[17]string]("[17]string"),
	famOf[[18]string]("[18]string"),
	famOf[[19]string]("[19]string"),
	famOf[[20]string]("[20]string"),
	famOf[[21]string]("[21]string"),
	famOf[[22]string]("[22]string"),
	famOf[[23]string]("[23]string"),
}

// famFill gives a value of type t, with embedded pointers up to a depth
func famFill(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	for i := 0; i < t.NumField(); i++ {
		f, x := t.Field(i), v.Field(i)
		if !x.CanSet() { // an embedded type that is not exported
			x = reflect.NewAt(f.Type, unsafe.Pointer(x.UnsafeAddr())).Elem()
		}
		switch f.Type.Kind() {
		case reflect.Int:
			x.SetInt(int64(r.Intn(3)))
		case reflect.Bool:
			x.SetBool(r.Intn(2) == 0)
		case reflect.String:
			x.SetString([]string{"", "a", "b"}[r.Intn(3)])
		case reflect.Slice:
			if r.Intn(2) == 0 {
				x.Set(reflect.ValueOf([]int{1}))
			}
		case reflect.Struct:
			x.Set(famFill(r, f.Type, depth))
		case reflect.Pointer:
			if f.Type.Elem().Kind() == reflect.Struct && depth > 0 && r.Intn(4) > 0 {
				x.Set(famFill(r, f.Type.Elem(), depth-1).Addr())
			}
		}
	}
	return v
}

// p15Families imports the types of one family in a random order, each several times
func p15Families(c *Case) {
	r := c.R
	fam := families[c.Index%len(families)]
	order := r.Perm(len(fam.types))
	for round := 0; round < 3; round++ {
		for _, i := range order {
			t := fam.types[i]
			for depth := 0; depth < 5; depth++ {
				v := famFill(r, t, depth)
				var src any = v.Interface()
				switch r.Intn(4) {
				case 0:
					src = v.Addr().Interface()
				case 1:
					src = []any{src, 1}
				}
				b, _ := json.Marshal(src)
				c.Note("family of %s, types in the order %v, round %d: %v %s", fam.name, order, round, t, trunc(string(b), 1000))
				p15Check(c, src, fmt.Sprint(t))
				c.Hit("families")
				c.Distinct(t.String(), string(b))
			}
		}
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
}
