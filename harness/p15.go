package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

func init() {
	register(&Prop{
		ID: "P15",
		Rule: "values of random types (structs with tags and embedding made by reflection, maps, slices, arrays, pointers, interfaces, a catalogue of named, recursive, embedding and marshaling types) through " +
			"Import, New, Set and Append against encoding/json, with OptIgnoreOmitempty against the same type without omitempty; sources compared and overwritten afterwards; non-trivial: distinct (type, JSON) with a container",
		Need: []string{"agree", "both_fail", "ignore_omitempty", "marshalers", "embedded", "scribbled", "set_append", "cycles", "deep", "shared_far_down", "families", "non_finite", "same_names", "standard_types", "unaddressed"},
		Suites: []Suite{
			{Name: "random", Quick: 160000, Thorough: 1500000, Run: p15Random},
			{Name: "leaves", Quick: 40000, Thorough: 300000, Run: p15Leaves},
			{Name: "sizes", Quick: 120, Thorough: 2000, Run: p15Sized},
			{Name: "names", Quick: 800, Thorough: 8000, Run: p15Names},
			{Name: "cycles", Quick: 1200, Thorough: 12000, Run: p15Cycles},
			{Name: "families", Quick: len(families), Thorough: len(families), Run: p15Families},
			{Name: "standard", Quick: 10 * len(stdValues), Thorough: 40 * len(stdValues), Run: p15Standard},
		},
	})
}

var betaTurn atomic.Int64

// importJSON is the JSON of an imported value
func importJSON(src any, opts ...jv.Option) (*jv.V, []byte, error) {
	v, err := jv.Import(src, opts...)
	if len(opts) == 0 && betaTurn.Add(1)%4 == 0 { // the same by its former name
		v, err = beta.Import(src)
	}
	if err != nil {
		return v, nil, err
	}
	b, err := v.Marshal()
	return v, b, err
}

// sameJSON compares two JSON texts as trees with exact numbers
func sameJSON(c *Case, got, want []byte, ordered bool, what string) {
	g := strict(c, got, what)
	w := refParse(want, false)
	if !w.ok {
		c.Fail("%s: the harness cannot read encoding/json's output %s", what, trunc(string(want), 1000))
	}
	markLoose(w.v)
	if d := diffOut(g, w.v, ordered, "$"); d != "" {
		c.Fail("%s: %s\n got %s\nwant %s", what, d, trunc(string(got), 1500), trunc(string(want), 1500))
	}
}

// markLoose makes diffOut compare numbers by exact value instead of spelling
func markLoose(r *RV) {
	if r.K == kNum {
		r.B = true
	}
	for _, x := range r.A {
		markLoose(x)
	}
	for _, x := range r.O {
		markLoose(x)
	}
}

func p15Check(c *Case, src any, what string) (*jv.V, []byte) {
	want, wantErr := json.Marshal(src)
	v, got, err := importJSON(src)
	c.Eval(1)
	if v == nil {
		c.Fail("%s: Import returns a nil value", what)
	}
	if (err != nil) != (wantErr != nil) {
		c.Fail("%s: Import and Marshal give error %v, encoding/json %v\nimported %s\nencoding/json %s", what, err, wantErr, trunc(string(got), 1500), trunc(string(want), 1500))
	}
	if err != nil {
		c.Hit("both_fail")
		return nil, nil
	}
	sameJSON(c, got, want, false, what)
	c.Hit("agree")
	return v, want
}

// p15All checks one source made by the given function, which must make the same value each time
func p15All(c *Case, mk func(nilOK bool) (reflect.Value, *fillCtx), noOmit func() reflect.Value, desc string) {
	r := c.R
	p, x := mk(true)
	src := p.Interface()
	what := fmt.Sprintf("%s %s", desc, trunc(fmt.Sprintf("%+v", p.Elem().Interface()), 1500))
	c.Note("%s", what)
	if x.sawNaN {
		c.Hit("non_finite")
	}
	v, want := p15Check(c, src, desc)
	if v == nil {
		if n := jv.New(src); n == nil || n.IsNull() {
			c.Fail("New of an unsupported value gives %v", n)
		}
		return
	}
	if len(want) > 2 {
		c.Distinct(p.Type().String(), string(want))
	}
	// New, Set and Append take the same values
	if r.Intn(3) == 0 {
		k := genString(r)
		sorted := jv.OptDefaultStringSequence()
		base := v.MustMarshalString(sorted)
		if s := jv.New(src).MustMarshalString(sorted); s != base {
			c.Fail("New gives %s, Import %s", trunc(s, 1000), trunc(base, 1000))
		}
		o := jv.NewObject()
		a := jv.NewArray()
		if sub, err := o.Set(src).At(k); err != nil || sub.MustMarshalString(sorted) != base || o.MustGet(k).MustMarshalString(sorted) != base {
			c.Fail("Set gives %v, %v, Import %s", o, err, trunc(base, 1000))
		}
		if sub, err := a.Append(src).InTheEnd(); err != nil || sub.MustMarshalString(sorted) != base || a.MustGet(0).MustMarshalString(sorted) != base {
			c.Fail("Append gives %v, %v, Import %s", a, err, trunc(base, 1000))
		}
		if sub, err := a.Insert(src).Before(0); err != nil || sub.MustMarshalString(sorted) != base || a.Len() != 2 {
			c.Fail("Insert gives %v, %v, Import %s", a, err, trunc(base, 1000))
		}
		c.Hit("set_append")
	}
	// the source is as before, and stays so when the result is edited
	before := v.MustMarshal(jv.OptDefaultStringSequence())
	twin, _ := mk(true)
	check := func(when string) {
		again, err := json.Marshal(src)
		if err != nil || !bytes.Equal(again, want) && refParse(again, false).v.canon() != refParse(want, false).v.canon() {
			c.Fail("the source is different %s: %s, was %s", when, trunc(string(again), 1000), trunc(string(want), 1000))
		}
		if r.Intn(4) == 0 && !hasV(twin.Elem(), 0) && !reflect.DeepEqual(twin.Interface(), src) {
			c.Fail("the source is different %s: %+v, was %+v", when, trunc(fmt.Sprintf("%+v", src), 1000), trunc(fmt.Sprintf("%+v", twin), 1000))
		}
	}
	check("after Import")
	if t, ok := snap(v); ok && t.isCont() {
		w, _ := jv.Import(src)
		t2, _ := snap(w)
		for i := 0; i < 4; i++ {
			editBoth(c, w, t2, &genCfg{maxDepth: 2, maxKids: 2})
		}
		check("after editing the imported value")
	}
	// with OptIgnoreOmitempty
	if noOmit != nil {
		q, _ := mk(false)
		full := noOmit()
		want, wantErr := json.Marshal(full.Interface())
		_, got, err := importJSON(q.Interface(), jv.OptIgnoreOmitempty())
		c.Eval(1)
		if (err != nil) != (wantErr != nil) {
			c.Fail("OptIgnoreOmitempty: error %v, encoding/json without omitempty %v", err, wantErr)
		}
		if err == nil {
			sameJSON(c, got, want, false, "OptIgnoreOmitempty")
			c.Hit("ignore_omitempty")
		}
	}
	// the result does not depend on the source
	scribble(p, 0)
	if after := v.MustMarshal(jv.OptDefaultStringSequence()); !bytes.Equal(after, before) {
		c.Fail("overwriting the source changes the imported value: %s, was %s", trunc(string(after), 1000), trunc(string(before), 1000))
	}
	c.Hit("scribbled")
}

// hasV tells whether a *V is reachable, whose internals DeepEqual should not look at
func hasV(v reflect.Value, depth int) bool {
	if depth > 12 {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && (v.Type() == reflect.PointerTo(typeV) || hasV(v.Elem(), depth+1))
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if hasV(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if hasV(v.MapIndex(k), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasV(v.Field(i), depth+1) {
				return true
			}
		}
	case reflect.Func, reflect.Chan:
		return true
	case reflect.Float32, reflect.Float64:
		return v.Float() != v.Float()
	}
	return false
}

func p15Random(c *Case) {
	r := c.R
	sx := &specCtx{r: r, bad: r.Intn(8) == 0, used: map[string]bool{}}
	var spec *tSpec
	if r.Intn(3) > 0 {
		spec = sx.structSpec(3, true)
	} else {
		spec = sx.genSpec(4, true)
	}
	seed := r.Int63()
	c.Note("type %s seed %d", trunc(spec.typ(true).String(), 2000), seed)
	byPtr := r.Intn(2) == 0 || spec.has(func(s *tSpec) bool { return s.leaf != nil && s.leaf.addr })
	mk := func(t reflect.Type, nilOK bool) (reflect.Value, *fillCtx) {
		p := reflect.New(t)
		x := &fillCtx{bad: sx.bad, nilOK: nilOK, budget: 400}
		fillValue(newRand(seed), p.Elem(), x, false, 0)
		return p, x
	}
	full := spec.typ(false)
	if spec.has(func(s *tSpec) bool { return s.marshals() && s.kind != reflect.Interface }) {
		c.Hit("marshalers")
	}
	emb := spec.has(func(s *tSpec) bool {
		for _, f := range s.fields {
			if f.embedded {
				return true
			}
		}
		return s.leaf != nil && len(s.leaf.name) > 8 && s.leaf.name[:8] == "main.emb"
	})
	if emb {
		c.Hit("embedded")
	}
	var noOmit func() reflect.Value
	if !spec.has(func(s *tSpec) bool { return s.leaf != nil && s.leaf.kindStruct() || s.kind == reflect.Interface }) {
		noOmit = func() reflect.Value { p, _ := mk(full, false); return p }
	}
	if byPtr {
		p15All(c, func(nilOK bool) (reflect.Value, *fillCtx) { return mk(spec.typ(true), nilOK) }, noOmit, "random type "+trunc(spec.typ(true).String(), 800))
		return
	}
	// by value: the value travels in an interface
	p, _ := mk(spec.typ(true), true)
	c.NoteMore(" by value")
	p15Check(c, p.Elem().Interface(), "by value "+trunc(spec.typ(true).String(), 800))
}

func (l *leafType) kindStruct() bool { return l.typ.Kind() == reflect.Struct && !l.mars }

func p15Leaves(c *Case) {
	r := c.R
	l := leaves[c.Index%len(leaves)]
	if l.typ == typeV {
		l = leaves[0]
	}
	seed := r.Int63()
	bad := r.Intn(6) == 0
	p15All(c, func(nilOK bool) (reflect.Value, *fillCtx) {
		p := reflect.New(l.typ)
		x := &fillCtx{bad: bad, nilOK: nilOK, budget: 300}
		fillValue(newRand(seed), p.Elem(), x, false, 0)
		return p, x
	}, nil, "catalogue "+l.name)
}

// Types that share their name, their text or their shape, and differ in how they are marshalled. What the library
// remembers about one type must not be used for another.
func sameNamed1() []any {
	type rec struct {
		A int    `json:"a"`
		B string `json:"b"`
	}
	type item struct{ X, Y int }
	type id [16]byte
	type list []rec
	type code string
	return []any{rec{1, "x"}, &rec{2, "y"}, []rec{{3, "z"}}, map[string]rec{"k": {4, "w"}}, item{1, 2}, id{1, 2}, list{{5, "l"}}, code("c"), map[code]int{"c": 1}}
}

func sameNamed2() []any {
	type rec struct {
		vmJSON
		B string `json:"b"`
	}
	type item struct {
		X int `json:"x,omitempty"`
		Y int `json:"-"`
	}
	type id struct{ vmText }
	type list struct{ A []int }
	type code int
	return []any{rec{vmJSON{3, "s"}, "x"}, &rec{vmJSON{7, "s"}, "x"}, []rec{{vmJSON{1, "t"}, "y"}}, map[string]rec{"k": {vmJSON{5, "u"}, "z"}}, item{0, 2}, id{vmText("t")}, list{[]int{1}}, code(4), map[code]int{5: 1}}
}

func sameNamed3() []any {
	type rec struct {
		time.Time
		C *int `json:"a"`
	}
	type item struct {
		*pmText
		X float64 `json:",string"`
	}
	type id struct{ A, a, B int }
	type list map[string]any
	type code bool
	return []any{rec{Time: time.Unix(0, 0).UTC()}, &rec{Time: time.Unix(9, 0).UTC()}, []*rec{{Time: time.Unix(8, 0).UTC()}, nil}, map[string]*rec{"k": nil}, item{&pmText{"q"}, 2}, &item{&pmText{"q"}, 2}, id{1, 2, 3}, list{"a": id{}}, code(true)}
}

func sameNamed4() []any {
	type rec struct {
		B string `json:"a"`
		A int    `json:"b"`
	}
	type item struct {
		Number json.Number
		Y      int
	}
	type id []byte
	type list [3]rec
	type code struct {
		rec
		*item
	}
	return []any{rec{"x", 1}, &rec{"y", 2}, []rec{{"z", 3}}, map[string]rec{"k": {"w", 4}}, item{"12", 1}, id{1, 2}, list{{"l", 5}}, code{rec: rec{"e", 1}}, &code{rec{"e", 1}, &item{"3", 4}}}
}

type boxT[T any] struct {
	V T   `json:"v"`
	L []T `json:",omitempty"`
	P *T  `json:"p,omitempty"`
}

func boxed() []any {
	i := 5
	m := pmInt(6)
	return []any{boxT[int]{V: 1}, boxT[string]{V: "s"}, boxT[vmJSON]{V: vmJSON{3, "v"}}, &boxT[pmInt]{V: 3, P: &m}, boxT[*int]{V: &i}, boxT[[]byte]{V: []byte{1}}, boxT[[2]byte]{V: [2]byte{1}}, boxT[any]{V: 1},
		boxT[struct{ A int }]{}, boxT[struct {
			A int `json:"a"`
		}]{}, boxT[map[string]int]{V: map[string]int{}}, boxT[boxT[int]]{}, boxT[json.Number]{V: "1"}, boxT[MyBytes]{V: MyBytes{9}}, boxT[[]Kind8]{V: []Kind8{1, 2}}}
}

func p15Names(c *Case) {
	l := append(append(append(append(sameNamed1(), sameNamed2()...), sameNamed3()...), sameNamed4()...), boxed()...)
	c.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	for i, x := range l {
		c.Note("value %d: %T %+v", i, x, x)
		p15Check(c, x, fmt.Sprintf("%T", x))
		if c.R.Intn(3) == 0 { // behind an interface, and beside its namesakes
			y := l[c.R.Intn(len(l))]
			p15Check(c, map[string]any{"x": x, "y": []any{y, x}}, fmt.Sprintf("%T beside %T", x, y))
		}
	}
	c.Hit("same_names")
	c.Distinct("names", c.Index)
}

// p15Cycles: self-referential values are refused as encoding/json refuses them, deep ones are not
func p15Cycles(c *Case) {
	r := c.R
	type node struct {
		V    int
		Next *node `json:",omitempty"`
	}
	type anyNode struct {
		A any
	}
	n := 1 + r.Intn(5)
	if r.Intn(4) == 0 {
		n = 900 + r.Intn(1500)
	}
	cyclic := r.Intn(2) == 0
	type ptr *ptr
	type slice []slice
	type table map[string]table
	type mixed struct {
		M map[string]*mixed `json:",omitempty"`
		S []*mixed          `json:",omitempty"`
		A [2]any
		P **mixed `json:",omitempty"`
	}
	kind := r.Intn(15)
	c.Note("kind %d n %d cyclic %v", kind, n, cyclic)
	var src any
	switch kind {
	case 0:
		first := &node{}
		p := first
		for i := 0; i < n; i++ {
			p.Next = &node{V: i}
			p = p.Next
		}
		if cyclic {
			p.Next = first
		}
		src = first
	case 1:
		first := map[string]any{"x": 1}
		p := first
		for i := 0; i < n; i++ {
			q := map[string]any{"i": i}
			p["n"] = q
			p = q
		}
		if cyclic {
			p["n"] = first
		}
		src = first
	case 2:
		first := []any{1, nil}
		p := first
		for i := 0; i < n; i++ {
			q := []any{i, nil}
			p[1] = q
			p = q
		}
		if cyclic {
			p[1] = first
		}
		src = first
	case 3:
		var first any
		p := &first
		for i := 0; i < n; i++ {
			q := new(any)
			*p = q
			p = q
		}
		if cyclic {
			*p = &first
		} else {
			*p = 5
		}
		src = first
	case 4:
		first := &anyNode{}
		p := first
		for i := 0; i < n; i++ {
			q := &anyNode{}
			p.A = []any{map[string]*anyNode{"q": q}}
			p = q
		}
		if cyclic {
			p.A = first
		}
		src = first
	case 6: // pointers to pointers
		var first ptr
		p := &first
		for i := 0; i < n; i++ {
			q := new(ptr)
			*p = q
			p = q
		}
		if cyclic {
			*p = &first
		}
		src = first
		if r.Intn(2) == 0 {
			src = struct{ P ptr }{first}
		}
	case 7: // slices of slices
		first := slice{nil, slice{}}
		p := first
		for i := 0; i < n; i++ {
			q := make(slice, 1+r.Intn(3))
			for j := range q {
				q[j] = slice{}
			}
			p[0] = q
			p = q
		}
		p[0] = slice{}
		if cyclic {
			p[len(p)-1] = first
		}
		src = first
		if r.Intn(2) == 0 {
			src = map[string]any{"s": &first}
		}
	case 8: // maps of maps
		first := table{"x": nil}
		p := first
		for i := 0; i < n; i++ {
			q := table{"y": table{}}
			p["n"] = q
			p = q
		}
		if cyclic {
			p["y"] = first
		}
		src = first
	case 9: // an interface that holds its own address
		var x any
		x = &x
		if !cyclic {
			x = []any{1}
		}
		src = x
		if r.Intn(2) == 0 {
			src = &x
		}
		if r.Intn(2) == 0 {
			src = []any{1, x, &x}
		}
	case 10:
		first := &mixed{}
		p := first
		for i := 0; i < n; i++ {
			q := &mixed{}
			switch r.Intn(5) {
			case 0:
				p.M = map[string]*mixed{"k": q}
			case 1:
				p.S = []*mixed{{}, q}
			case 2:
				p.A[r.Intn(2)] = q
			case 3:
				p.A[r.Intn(2)] = map[string]any{"x": []any{q}}
			default:
				p.P = &q
			}
			p = q
		}
		if cyclic {
			switch r.Intn(5) {
			case 0:
				p.M = map[string]*mixed{"k": first}
			case 1:
				p.S = []*mixed{first}
			case 2:
				p.A[1] = first
			case 3:
				p.A[1] = map[string]any{"x": []any{first}}
			default:
				p.P = &first
			}
		}
		src = first
		if r.Intn(2) == 0 {
			src = *first
		}
	case 11: // a slice that contains itself through an array and a pointer to itself
		first := []any{nil}
		first[0] = &first
		if !cyclic {
			first[0] = &[]any{2}
		}
		src = []any{first}
		if r.Intn(2) == 0 {
			src = [1]any{first}
		}
	case 12: // not at the start: a tail, then a ring
		tail := &node{V: -1}
		p := tail
		for i := 0; i < 3; i++ {
			p.Next = &node{V: i}
			p = p.Next
		}
		ring := p
		for i := 0; i < n; i++ {
			p.Next = &node{V: i}
			p = p.Next
		}
		if cyclic {
			p.Next = ring
		}
		src = tail
	case 13, 14:
		// far down, where a cycle would be looked for: the same things many times, one after the other and inside of
		// one another, and none of them inside of itself
		if n < 100 {
			n = 990 + r.Intn(30)
		}
		x := &node{V: 7}
		m := map[string]any{"x": x}
		long := []any{1, x, m, &x, 5, []int{1, 2}}
		arr := [3]*node{x, x, x}
		pm, pp := &m, &x
		lots := []any{x, m, long, long[:3], long[:1], long[:6], long[:0], long[1:], m, x, pp, &arr, arr[:], arr[:2], &arr[1], pm, m, &pp, pp, &long, long, struct{ A, B any }{m, m}}
		type inner struct{ N, M int }
		type outer struct {
			I inner
			P *inner
			Q *int
			A [2]any
			R *any
		}
		// a pointer to a struct, and pointers to its first field, and so on: the same address, but no cycle
		o := &outer{}
		o.P, o.Q, o.R = &o.I, &o.I.N, &o.A[0]
		o.A[0], o.A[1] = 3, o.R
		arr0 := &[3]any{1, 2, 3}
		arr0[2] = &arr0[0]
		arr0[1] = arr0[:1]
		first := []any{7, nil, nil, nil}
		first[1] = first[:1]
		first[2] = first[:2]
		first[3] = []any{&first[0], first[:0], first[1:2]}
		lots = append(lots, o, &o.I, &o.A, o.A[:], arr0, arr0[:], first, first[:3])
		ladder := any(x)
		for i := 0; i < 6; i++ {
			switch r.Intn(4) {
			case 0:
				ladder = []any{ladder, ladder}
			case 1:
				ladder = map[string]any{"l": ladder, "r": ladder}
			case 2:
				l := ladder
				ladder = struct{ L, R *any }{&l, &l}
			default:
				l := []any{ladder, x}
				ladder = [2]any{l, l[:1]}
			}
		}
		lots = append(lots, ladder, ladder)
		r.Shuffle(len(lots), func(i, j int) { lots[i], lots[j] = lots[j], lots[i] })
		src = lots
		for i := 0; i < n; i++ {
			switch k := r.Intn(5); {
			case k == 0:
				src = []any{src}
			case k == 1:
				src = map[string]any{"k": src}
			case k == 2:
				y := src
				src = &y
			case k == 3:
				src = &anyNode{src}
			default:
				src = &struct{ A, B any }{src, 1}
			}
		}
		if kind == 14 {
			src = []any{lots, src, ladder, src, lots}
		}
		c.Hit("shared_far_down")
	default:
		// shared, not cyclic: a DAG is fine
		x := &node{V: 7}
		l := make([]*node, n)
		for i := range l {
			l[i] = x
		}
		src = map[string]any{"a": l, "b": l, "c": []any{l, x}}
	}
	if cyclic && kind != 5 && kind < 13 {
		// encoding/json refuses these too, but not all of its versions survive kind 3
		v, err := jv.Import(src)
		c.Eval(1)
		if err == nil {
			c.Fail("importing a cyclic value (kind %d) gives no error", kind)
		}
		if n := jv.New(src); n == nil || n.ValueType() != jv.NotExist || v == nil {
			c.Fail("New of a cyclic value gives %v", n.ValueType())
		}
		c.Hit("cycles")
		c.Distinct(kind, n, cyclic)
		return
	}
	_, b := p15Check(c, src, fmt.Sprintf("chain kind %d", kind))
	if b != nil && n > 500 {
		c.Hit("deep")
	}
	c.Distinct(kind, n, cyclic)
}

// p15Sized: Go values of many sizes
func p15Sized(c *Case) {
	r := c.R
	n := sizeFor(c, 70000)
	if r.Intn(4) != 0 { // what a document decodes to
		t, shape := sizedTree(r, &genCfg{}, n)
		d := json.NewDecoder(strings.NewReader(renderPlain(t)))
		if r.Intn(2) == 0 {
			d.UseNumber()
		}
		p := reflect.New([]reflect.Type{kindTypes[reflect.Interface], kindTypes[reflect.Interface], reflect.TypeOf(map[string]any{}), reflect.TypeOf([]any{}), reflect.TypeOf(map[MyStr]any{}),
			reflect.TypeOf([]map[string]any{}), reflect.TypeOf(map[string]*any{}), reflect.TypeOf([]*any{}), typeRaw, reflect.TypeOf(map[string]map[string]any{}), reflect.TypeOf("")}[r.Intn(11)])
		c.Note("%s: %s into %v", shape, trunc(t.canonSeq(), 1000), p.Type())
		if d.Decode(p.Interface()) != nil { // no nil slices: they are imported as empty ones
			p = reflect.New(kindTypes[reflect.Interface])
			d = json.NewDecoder(strings.NewReader(renderPlain(t)))
			if err := d.Decode(p.Interface()); err != nil {
				c.Fail("encoding/json cannot read the document: %v", err)
			}
		}
		p15Check(c, p.Elem().Interface(), "sized "+p.Type().String())
		p15Check(c, p.Interface(), "pointer to sized "+p.Type().String())
		c.Hit("sized_" + shape)
		c.Distinct("sized", c.Index)
		return
	}
	var src any
	switch r.Intn(8) {
	case 0:
		b := make([]byte, n)
		r.Read(b)
		src = b
	case 1:
		m := map[int]*string{}
		for i := 0; i < n; i++ {
			m[i*3-n] = nil
			if s := genString(r); i%5 > 1 {
				m[i*3-n] = &s
			}
		}
		src = m
	case 2:
		a := make([]*int, n)
		for i := range a {
			if i%3 != 1 {
				x := i * i
				a[i] = &x
			}
		}
		src = a
	case 3:
		type row struct {
			ID   int               `json:"id"`
			Name string            `json:"name,omitempty"`
			Next *row              `json:"next"`
			Tags map[string]string `json:"tags,omitempty"`
			F    float32           `json:",string"`
		}
		a := make([]row, n/4)
		for i := range a {
			a[i] = row{ID: i, F: float32(i) / 8}
			if i%3 == 0 {
				a[i].Name = genString(r)
				a[i].Next = &row{ID: -i, Tags: map[string]string{"a": "b"}}
			}
		}
		src = a
	case 4:
		src = longText(r, n)
	case 5:
		a := make([]float64, n)
		for i := range a {
			a[i] = genFiniteFloat(r)
		}
		src = struct {
			A []float64
			B map[string]bool
		}{a, map[string]bool{longText(r, n/10): true}}
	case 6:
		m := map[string]int8{}
		for i, k := range manyKeys(r, n) {
			m[k] = int8(i)
		}
		src = m
	default:
		m := map[string][]*bool{}
		for i, k := range manyKeys(r, n/4) {
			b := i%2 == 0
			m[k] = [][]*bool{{&b}, {}, {nil}, {&b, nil}}[i%4]
		}
		src = m
	}
	c.Note("%T of size %d", src, n)
	p15Check(c, src, fmt.Sprintf("%T of size %d", src, n))
	c.Hit("sized_values")
	c.Distinct("sized", c.Index)
}
