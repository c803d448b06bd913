package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P16",
		Rule: "documents (made from a value of the destination type, then changed, or unrelated) exported into destinations of random and catalogued types, empty and filled, against json.Unmarshal of the same document " +
			"rendered by the harness; documents and destinations then edited and overwritten in turn; non-trivial: distinct (document, type) decoded without error",
		Need: []string{"direct", "same_content", "both_fail", "prefilled", "round_trip", "invalid_destination", "sub_document", "unexportable", "independent", "standard_types"},
		Suites: []Suite{
			{Name: "random", Quick: 240000, Thorough: 800000, Run: p16Random},
			{Name: "direct", Quick: 240000, Thorough: 2000000, Run: p16Direct},
			{Name: "plain", Quick: 120000, Thorough: 300000, Run: p16Plain},
			{Name: "sizes", Quick: 120, Thorough: 2000, Run: p16Sized},
			{Name: "invalid", Quick: 18000, Thorough: 30000, Run: p16Invalid},
			{Name: "standard", Quick: 60000, Thorough: 600000, Run: p16Standard},
			{Name: "life", Quick: 4000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readExport)},
		},
	})
}

var typeRaw = reflect.TypeOf(json.RawMessage{})
var typeNumber = reflect.TypeOf(json.Number(""))

// diffVal compares two Go values deeply; raw messages and library values by their JSON
func diffVal(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v against %v", path, a.Type(), b.Type())
	}
	switch a.Type() {
	case typeRaw:
		if string(a.Bytes()) == string(b.Bytes()) {
			return ""
		}
		x, y := refParse(a.Bytes(), false), refParse(b.Bytes(), false)
		if !x.ok || !y.ok {
			return fmt.Sprintf("%s: raw %s against %s", path, a.Bytes(), b.Bytes())
		}
		markLoose(y.v)
		return diffOut(x.v, y.v, false, path)
	case typeV:
		if !a.CanAddr() || !b.CanAddr() || !a.Addr().CanInterface() {
			return ""
		}
		x, ok1 := snap(a.Addr().Interface().(*jv.V))
		y, ok2 := snap(b.Addr().Interface().(*jv.V))
		if ok1 != ok2 {
			return path + ": V against no V"
		}
		if !ok1 {
			return ""
		}
		markLoose(y)
		return diffOut(x, y, false, path)
	case typeNumber:
		x, y := ratOf(a.String()), ratOf(b.String())
		if a.String() != b.String() && (x == nil || y == nil || x.Cmp(y) != 0) {
			return fmt.Sprintf("%s: number %q against %q", path, a.String(), b.String())
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v against %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diffVal(a.Elem(), b.Elem(), path+"*")
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v against %v", path, a.IsNil(), b.IsNil())
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d against %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffVal(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Sprintf("%s: map of %d (nil %v) against %d (nil %v)", path, a.Len(), a.IsNil(), b.Len(), b.IsNil())
		}
		for _, k := range a.MapKeys() {
			if d := diffVal(a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diffVal(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return ""
	}
	if a.CanFloat() && math.IsNaN(a.Float()) && math.IsNaN(b.Float()) {
		return ""
	}
	if !a.Equal(b) {
		return fmt.Sprintf("%s: %v against %v", path, a, b)
	}
	return ""
}

// unambiguous drops members whose keys may mean the same field or map key to encoding/json
func unambiguous(t *RV) {
	for _, x := range t.A {
		unambiguous(x)
	}
	if t.K != kObj {
		return
	}
	norm := func(k string) string {
		k = strings.ToLower(strings.ToUpper(strings.ToLower(k)))
		k = strings.TrimLeft(k, "k")
		if s := strings.TrimLeft(k, "+-0 "); s != k {
			k = "0" + s
			if s == "" {
				k = "0"
			}
		}
		for i, c := range k {
			if c == '/' || c == ' ' {
				k = k[:i]
				break
			}
		}
		return strings.Map(func(c rune) rune {
			switch c {
			case 'ſ':
				return 's'
			case 'K':
				return 'k'
			}
			return c
		}, k)
	}
	seen := map[string]bool{}
	for _, k := range append([]string{}, t.Keys...) {
		n := norm(k)
		if seen[n] {
			t.del(k)
			continue
		}
		seen[n] = true
		unambiguous(t.O[k])
	}
}

func wideObject(t *RV) bool {
	for _, x := range t.A {
		if wideObject(x) {
			return true
		}
	}
	if len(t.Keys) > 1 {
		return true
	}
	for _, x := range t.O {
		if wideObject(x) {
			return true
		}
	}
	return false
}

// p16Mutate changes a few places of a document
func p16Mutate(c *Case, t *RV) {
	r := c.R
	for n := r.Intn(4); n > 0; n-- {
		all := nodes(t, nil)
		x := all[r.Intn(len(all))]
		switch x.K {
		case kObj:
			if len(x.Keys) == 0 {
				break
			}
			k := x.Keys[r.Intn(len(x.Keys))]
			switch r.Intn(4) {
			case 0:
				x.del(k)
			case 1:
				y := x.O[k]
				x.del(k)
				k = []string{strings.ToUpper(k), strings.ToLower(k), strings.ToTitle(k), k + "x"}[r.Intn(4)]
				x.set(k, y)
			case 2:
				x.set(k, genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0))
			default:
				x.set(genString(r), genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0))
			}
		case kArr:
			x.A = append(x.A, genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0))
		default:
			*x = *genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
		}
	}
}

// p16Check exports the document t, held as v, and compares with json.Unmarshal
func p16Check(c *Case, v *jv.V, t *RV, mk func() reflect.Value) (reflect.Value, bool) {
	dst, ref := mk(), mk()
	err := v.Export(dst.Interface())
	refErr := json.Unmarshal([]byte(renderExact(t)), ref.Interface())
	c.Eval(1)
	if (err != nil) != (refErr != nil) {
		c.Fail("Export to %v gives error %v, json.Unmarshal gives %v; document %s", trunc(dst.Type().String(), 800), err, refErr, trunc(renderExact(t), 1500))
	}
	if d := diffLoose(v, t); d != "" {
		c.Fail("Export changes the document: %s", d)
	}
	if err != nil {
		c.Hit("both_fail")
		var a, b *json.UnmarshalTypeError
		if errors.As(refErr, &b) && !errors.As(err, &a) && !wideObject(t) {
			c.Fail("Export gives error %T %v, json.Unmarshal %T %v", err, err, refErr, refErr)
		}
		if wideObject(t) {
			return dst, false
		}
	}
	if d := diffVal(dst, ref, "dst"); d != "" {
		c.Fail("Export and json.Unmarshal differ at %s; type %v document %s", trunc(d, 800), trunc(dst.Type().String(), 800), trunc(renderExact(t), 1500))
	}
	if err != nil {
		return dst, false
	}
	c.Hit("same_content")
	c.Distinct(dst.Type().String(), t.canon())
	// documents and destinations are independent
	if c.R.Intn(3) == 0 {
		t2 := t.clone()
		if t.isCont() {
			for i := 0; i < 3; i++ {
				editBoth(c, v, t2, &genCfg{maxDepth: 2, maxKids: 2})
			}
			if d := diffVal(dst, ref, "dst"); d != "" {
				c.Fail("editing the document changes the exported value at %s", d)
			}
		}
		if c.R.Intn(2) == 0 {
			scribble(dst, 0)
			if d := diffLoose(v, t2); d != "" {
				c.Fail("overwriting the exported value changes the document: %s", d)
			}
			dst = ref
		}
		c.Hit("independent")
	}
	return dst, true
}

func p16Random(c *Case) {
	r := c.R
	sx := &specCtx{r: r, used: map[string]bool{}}
	spec := sx.genSpec(4, true)
	if r.Intn(3) > 0 {
		spec = sx.structSpec(3, true)
	}
	typ := spec.typ(true)
	c.Note("type %s", trunc(typ.String(), 2000))
	src := reflect.New(typ)
	fillValue(r, src.Elem(), &fillCtx{nilOK: true, allNil: r.Intn(2) == 0, budget: 200}, false, 0)
	b, err := json.Marshal(src.Interface())
	if err != nil {
		return
	}
	res := refParse(b, false)
	if !res.ok {
		c.Fail("the harness cannot read %s", b)
	}
	t := res.v
	asis := r.Intn(3) == 0
	if !asis {
		p16Mutate(c, t)
	}
	unambiguous(t)
	if !inRange(t) {
		return
	}
	c.NoteMore(" document %s", trunc(renderExact(t), 2000))
	v, t := p16Doc(c, t)
	seed := r.Int63()
	filled := r.Intn(2) == 0
	mk := func() reflect.Value {
		p := reflect.New(typ)
		if filled {
			fillValue(newRand(seed), p.Elem(), &fillCtx{allNil: true, budget: 200}, false, 0)
		}
		return p
	}
	if filled {
		c.Hit("prefilled")
	}
	dst, ok := p16Check(c, v, t, mk)
	if !ok {
		return
	}
	// export then import
	again, err := json.Marshal(dst.Interface())
	if err != nil {
		return
	}
	if g := refParse(again, false); g.ok && inRange(g.v) {
		back, got, err := importJSON(dst.Interface())
		if err != nil {
			c.Fail("Export then Import gives error %v", err)
		}
		_ = back
		if hasNilSlice(dst, 0) {
			return // Import makes them empty arrays
		}
		sameJSON(c, got, again, false, "Export then Import")
		if asis && !filled && g.v.equal(t) {
			c.Hit("round_trip")
		}
	}
}

func hasNilSlice(v reflect.Value, depth int) bool {
	if depth > 14 {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && v.Type() != reflect.PointerTo(typeV) && hasNilSlice(v.Elem(), depth+1)
	case reflect.Slice:
		if v.IsNil() && v.Type() != typeRaw {
			return true
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if hasNilSlice(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if hasNilSlice(v.MapIndex(k), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasNilSlice(v.Field(i), depth+1) {
				return true
			}
		}
	}
	return false
}

// inRange tells whether the library can hold all the numbers
func inRange(t *RV) bool {
	if t.K == kNum && t.N != "" && !numberInRange(t.N) {
		return false
	}
	for _, x := range t.A {
		if !inRange(x) {
			return false
		}
	}
	for _, x := range t.O {
		if !inRange(x) {
			return false
		}
	}
	return true
}

// p16Doc holds t as a document or as a part of one
func p16Doc(c *Case, t *RV) (*jv.V, *RV) {
	r := c.R
	how := r.Intn(3)
	switch r.Intn(4) {
	case 0:
		o := rObj()
		o.set("pre", rNum("1"))
		o.set("x", t)
		o.set("post", rStr("y"))
		c.Hit("sub_document")
		return buildV(r, o, how).MustGet("x"), t
	case 1:
		c.Hit("sub_document")
		return buildV(r, rArr(rNull(), t, rBool(true)), how).MustGet(1), t
	}
	return buildV(r, t, how), t
}

var plainDst = []reflect.Type{
	kindTypes[reflect.Interface], reflect.TypeOf(map[string]any{}), reflect.TypeOf([]any{}), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(1.5),
	reflect.TypeOf(float32(0)), reflect.TypeOf(false), typeRaw, typeNumber, reflect.TypeOf((*jv.V)(nil)), typeV, reflect.TypeOf(map[string]*jv.V{}), reflect.TypeOf([]json.RawMessage{}), reflect.TypeOf([2]any{}),
	reflect.TypeOf((**any)(nil)), reflect.TypeOf(map[MyStr][]any{}), reflect.TypeOf(map[int]any{}), reflect.TypeOf((*int)(nil)), reflect.TypeOf([]byte{}), reflect.TypeOf(struct{}{}), reflect.TypeOf([]jv.V{}),
}

func p16Plain(c *Case) {
	r := c.R
	t := genTree(r, &genCfg{maxDepth: 3, maxKids: 4}, 0)
	unambiguous(t)
	typ := plainDst[c.Index%len(plainDst)]
	v, t := p16Doc(c, t)
	c.Note("type %v document %s", typ, trunc(renderExact(t), 3000))
	filled := r.Intn(3) == 0
	seed := r.Int63()
	dst, ok := p16Check(c, v, t, func() reflect.Value {
		p := reflect.New(typ)
		if filled && typ != typeV && typ != reflect.TypeOf([]jv.V{}) {
			fillValue(newRand(seed), p.Elem(), &fillCtx{budget: 50}, false, 0)
		}
		return p
	})
	if !ok {
		return
	}
	if typ.Kind() == reflect.Interface && !filled {
		// values of any hold everything but the precision of numbers
		back, err := jv.Import(dst.Elem().Interface())
		if err != nil {
			c.Fail("Import of an exported %T: %v", dst.Elem().Interface(), err)
		}
		want := t.clone()
		asFloats(want)
		if inRange(want) {
			if d := diffLoose(back, want); d != "" {
				c.Fail("Export to any, then Import: %s", d)
			}
			c.Hit("round_trip")
		}
	}
}

// asFloats replaces numbers by the ones encoding/json makes of their float64 values
func asFloats(t *RV) {
	if t.K == kNum {
		var f float64
		if json.Unmarshal([]byte(t.N), &f) == nil {
			*t = *numOf(f)
		}
	}
	for _, x := range t.A {
		asFloats(x)
	}
	for _, x := range t.O {
		asFloats(x)
	}
}

func p16Invalid(c *Case) {
	r := c.R
	t := genTree(r, &genCfg{maxDepth: 2, maxKids: 3}, 0)
	v := buildV(r, t, r.Intn(3))
	var ip *int
	var m map[string]int
	bad := []any{nil, 1, "s", struct{}{}, map[string]any{}, []any{}, ip, (*jv.V)(nil), (*any)(nil), m, func() {}, errors.New("x")}
	d := bad[c.Index%len(bad)]
	c.Note("destination %T document %s", d, trunc(renderExact(t), 1000))
	err := v.Export(d)
	ref := json.Unmarshal([]byte(renderExact(t)), d)
	c.Eval(1)
	if (err == nil) != (ref == nil) {
		c.Fail("Export to %T gives %v, json.Unmarshal %v", d, err, ref)
	}
	c.Hit("invalid_destination")
	if diffLoose(v, t) != "" {
		c.Fail("a failed Export changes the document")
	}
	// documents without a JSON text
	x := genTree(r, &genCfg{maxDepth: 2, maxKids: 3, nonFinite: true}, 0)
	if !hasNonFinite(x) {
		x = rArr(x, rNaN(genNaN(r)))
	}
	w := buildV(r, x, 0)
	dst := any("untouched")
	if err := w.Export(&dst); err == nil || dst != "untouched" {
		c.Fail("Export of a document with NaN gives error %v and %v", err, dst)
	}
	if err := (&jv.V{}).Export(&dst); err == nil || dst != "untouched" {
		c.Fail("Export of an uninitialized value gives error %v and %v", err, dst)
	}
	if err := v.MustGet("no such key", 5).Export(&dst); err == nil || dst != "untouched" {
		c.Fail("Export of a NotExist value gives error %v and %v", err, dst)
	}
	c.Hit("unexportable")
	c.Distinct(fmt.Sprintf("%T", d), t.canon())
}

// p16Sized: documents of many sizes into the catalogued types
func p16Sized(c *Case) {
	r := c.R
	t, shape := sizedTree(r, &genCfg{}, sizeFor(c, 70000))
	unambiguous(t)
	typ := plainDst[r.Intn(len(plainDst))]
	for k := 0; k < 4 && !(t.isCont() && (typ.Kind() == reflect.Interface || typ.Kind() == reflect.Map == (t.K == kObj))); k++ {
		typ = plainDst[r.Intn(len(plainDst))]
	}
	v := buildV(r, t, r.Intn(3))
	c.Note("%s: type %v document %s", shape, typ, trunc(renderExact(t), 1000))
	p16Check(c, v, t, func() reflect.Value { return reflect.New(typ) })
	c.Hit("sized_" + shape)
}
